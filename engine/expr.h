// Expressions, values and the solver interface of the symbolic executor.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>

typedef uint64_t u64;
typedef int64_t i64;
typedef __int128 i128;

enum Sort : uint8_t { S_BOOL, S_BV, S_NUM, S_FP };   // NUM: exact dyadic (Int) or Real with rounding error terms
enum Kind : uint8_t {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT, K_ITE,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_NOT,
  K_NLT, K_NLE, K_NEQ,               // comparisons of NUM
  K_NADD, K_NSUB, K_NMUL, K_NDIV, K_NNEG,   // NUM arithmetic
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FNEG, K_FABS, K_FLT, K_FLE, K_FEQ, K_FUNO, K_FBITS, K_FFROM, K_FSQRT
};

struct Expr {
  Kind kind; Sort sort; uint8_t taint=0; uint8_t inexact=0;   // inexact: NUM represented as z3 Real
  uint16_t w=0;                                               // bv width
  int sc=0;                                                   // NUM: scale (value = N * 2^-sc), Int representation
  Expr* k[3]={nullptr,nullptr,nullptr};
  u64 c=0;                                                    // constant / extract low bit
  long double nc=0;                                           // NUM constant value
  double lo=0, hi=0;                                          // NUM interval (outward)
  int var=-1;
  Z3_ast z=nullptr;
  u64 epoch=0; i128 ev=0; bool evok=false; u64 hash=0;
};

struct Val { u64 c=0; Expr* e=nullptr; };
static inline Val CV(u64 c){ Val v; v.c=c; return v; }
static inline Val EV(Expr* e){ Val v; v.e=e; return v; }

enum FK : uint8_t { FK_F32, FK_F64, FK_LD };

struct VarInfo { std::string name; Sort sort; int w; char type; int sc; i128 val; Expr* e; bool leaf; };

struct EngineError { std::string msg; };
[[noreturn]] void engine_fail(std::string const& msg);

struct Stats { u64 queries=0, sat=0, unsat=0, ns=0, maxns=0; };

// --- solver ---
void sol_init();
extern Stats g_stats;
extern u64 g_epoch;
extern std::vector<VarInfo> g_vars;
extern Z3_context Z;
bool sol_check(Expr* cond, bool neg, bool commitModel);   // sat(PC && cond(^neg)) ; updates model on sat when commitModel
void sol_assert(Expr* cond, bool neg);
// evaluates under the current model; returns false if it cannot be evaluated exactly
bool sol_eval(Expr* e, i128& out);
Z3_ast toz3(Expr* e);
std::string dump_model();
std::string expr_str(Expr* e);

// --- construction ---
Expr* mk_var(std::string const& name, Sort s, int w, char type, int sc, i128 lo, i128 hi, bool leaf=true);
Expr* mk_undef(int w);
Expr* mk_const(u64 c, int w);
Expr* mk_bool(bool b);
Expr* mk_num(long double v);
bool is_const(Expr* e);
Val bv_bin(Kind k, Val a, Val b, int w);
Val bv_cmp(Kind k, Val a, Val b, int w);      // EQ ULT ULE SLT SLE
Val bool_not(Val a);
Val mk_ite(Expr* c, Val a, Val b, int w, bool isnum, FK fk);
Val bv_zext(Val a, int from, int to);
Val bv_sext(Val a, int from, int to);
Val bv_extract(Val a, int from, int lo, int w);
Val bv_concat(Val hi, int whi, Val lo, int wlo);
enum NOp { N_ADD, N_SUB, N_MUL, N_DIV };
Val num_bin(NOp op, Val a, Val b, FK fk);
enum NCmp { C_LT, C_LE, C_EQ };
Val num_cmp(NCmp op, Val a, Val b, FK fk);     // ordered comparison
bool num_maynan(Val a, FK fk);
Val num_uno(Val a, Val b, FK fk);
Val num_neg(Val a, FK fk);
Val num_abs(Val a, FK fk);
Val num_sqrt(Val a, FK fk);
Val num_conv(Val a, FK from, FK to);
long double val_ld(Val a, FK fk);
Val ld_val(long double v, FK fk);
bool is_fp(Val a);
Val fp_bits(Val a);      // FP sort -> BV64
Val fp_from_bits(Val a);
