#include "expr.h"
#include <chrono>
#include <unistd.h>
#include <cfloat>
#include <sys/mman.h>

Stats g_stats; u64 g_epoch=1; std::vector<VarInfo> g_vars; Z3_context Z; 
static Z3_solver S; static Z3_sort sInt,sReal,sBool,sF64; static Z3_ast rne;
static std::unordered_map<u64,std::vector<Expr*>> g_hc;
static std::vector<i128> g_modelvals;

static void zerr(Z3_context c, Z3_error_code e){ engine_fail(std::string("z3 error: ")+Z3_get_error_msg(c,e)); }

void sol_init(){
  Z3_config cfg=Z3_mk_config();
  Z=Z3_mk_context(cfg); Z3_set_error_handler(Z,zerr);
  S=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,S);
  Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p);
  Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"random_seed"),1);
  Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"rlimit"),400000000);
  Z3_solver_set_params(Z,S,p);
  sInt=Z3_mk_int_sort(Z); sReal=Z3_mk_real_sort(Z); sBool=Z3_mk_bool_sort(Z); 
  sF64=Z3_mk_fpa_sort_64(Z);    
  rne=Z3_mk_fpa_rne(Z); 
}
static Z3_ast keep(Z3_ast a){ return a; }  // non-rc context: terms live as long as the context

// ---------- hash consing ----------
static u64 mixh(u64 h,u64 v){ h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); return h*0xff51afd7ed558ccdULL; }
static Expr* intern(Expr& t){
  u64 h=mixh(t.kind,t.sort); h=mixh(h,t.w); h=mixh(h,t.c); h=mixh(h,(u64)t.sc); h=mixh(h,(u64)t.var); h=mixh(h,t.inexact);
  for(int i=0;i<3;i++) h=mixh(h,(u64)t.k[i]);
  { double d=(double)t.nc; u64 b; memcpy(&b,&d,8); h=mixh(h,b); }
  auto& v=g_hc[h];
  for(Expr* e:v) if(e->kind==t.kind&&e->sort==t.sort&&e->w==t.w&&e->c==t.c&&e->sc==t.sc&&e->var==t.var&&e->k[0]==t.k[0]&&e->k[1]==t.k[1]&&e->k[2]==t.k[2]&&e->nc==t.nc&&e->inexact==t.inexact) return e;
  Expr* e=new Expr(t); e->hash=h; 
  for(int i=0;i<3;i++) if(e->k[i]&&e->k[i]->taint) e->taint=1;
  v.push_back(e); return e;
}
static inline u64 mask(int w){ return w>=64?~0ULL:((1ULL<<w)-1); }
static inline i64 sx(u64 v,int w){ if(w>=64) return (i64)v; u64 m=1ULL<<(w-1); v&=mask(w); return (i64)((v^m)-m); }
bool is_const(Expr*e){ return e->kind==K_CONST; }
Expr* mk_const(u64 c,int w){ Expr t{}; t.kind=K_CONST; if(w==1){ t.sort=S_BOOL; t.c=c&1; t.w=1; } else { t.sort=S_BV; t.w=w; t.c=c&mask(w);} return intern(t); }
Expr* mk_bool(bool b){ return mk_const(b,1); }
static Expr* X(Val v,int w){ return v.e?v.e:mk_const(v.c,w); }
static Val V(Expr*e){ if(e->kind==K_CONST&&e->sort!=S_NUM) return CV(e->c); return EV(e); }

Expr* mk_var(std::string const& name, Sort s,int w,char type,int sc,i128 lo,i128 hi,bool leaf){
  Expr t{}; t.kind=K_VAR; t.sort=s; t.w=w; t.sc=sc; t.var=(int)g_vars.size();
  if(s==S_NUM){ t.lo=ldexp((double)lo,-sc); t.hi=ldexp((double)hi,-sc); }
  Expr* e=intern(t);
  std::string zn=name+"!"+std::to_string(e->var);
  Z3_symbol sy=Z3_mk_string_symbol(Z,zn.c_str());
  Z3_sort so = s==S_NUM?sInt: s==S_BOOL?sBool: Z3_mk_bv_sort(Z,w);
  if(s==S_FP) so=Z3_mk_bv_sort(Z,64);
  Z3_ast a=keep(Z3_mk_const(Z,sy,so));
  VarInfo vi{name,s,w,type,sc,0,e,leaf};
  if(s==S_NUM){
    char b[64]; snprintf(b,64,"%lld",(long long)lo); Z3_ast l=Z3_mk_numeral(Z,b,sInt); 
    Z3_ast c1=keep(Z3_mk_le(Z,l,a)); snprintf(b,64,"%lld",(long long)hi);
    Z3_ast c2=keep(Z3_mk_le(Z,a,Z3_mk_numeral(Z,b,sInt)));
    Z3_solver_assert(Z,S,c1); Z3_solver_assert(Z,S,c2);
    vi.val = lo<=0&&hi>=0?0:lo; e->z=a;
  } else if(s==S_BV){
    bool full = (sx(lo,w)==sx(1ULL<<(w-1),w) && hi==(i128)(mask(w)>>1)) ;
    e->z=a;
    if(!full){
      Z3_ast l=Z3_mk_int64(Z,(i64)lo,so),h=Z3_mk_int64(Z,(i64)hi,so);
      Z3_solver_assert(Z,S,keep(Z3_mk_bvsle(Z,l,a))); Z3_solver_assert(Z,S,keep(Z3_mk_bvsle(Z,a,h)));
    }
    vi.val=(u64)((lo<=0&&hi>=0?0:(u64)lo))&mask(w);
  } else if(s==S_BOOL){ e->z=a; vi.val=0; }
  else { e->z=a; vi.val=0; } // FP leaf variable holds BV64 bits in z
  g_vars.push_back(vi); 
  return e;
}
Expr* mk_undef(int w){ Expr* e=mk_var("undef",w==1?S_BOOL:S_BV,w,'u',0,w==1?0:(i128)sx(1ULL<<(w-1),w),w==1?1:(i128)(mask(w)>>1),false); e->taint=1; return e; }

Expr* mk_num(long double v){ Expr t{}; t.kind=K_CONST; t.sort=S_NUM; t.nc=v; 
  // scale
  if(v==0){ t.sc=0; } else { int ex; long double m=frexpl(v,&ex); int s=64-ex; // v = (m*2^64) * 2^(ex-64)
    // reduce trailing zeros
    u64 M=(u64)fabsl(ldexpl(m,64)); if(m<0?-ldexpl(m,64)>=18446744073709551616.0L:ldexpl(m,64)>=18446744073709551616.0L) M=0;
    if(M) { int tz=__builtin_ctzll(M); s-=tz; } if(s<0) s=0; t.sc=s; }
  t.lo=(double)v; t.hi=(double)v; if((long double)t.lo>v) t.lo=nextafter(t.lo,-INFINITY); if((long double)t.hi<v) t.hi=nextafter(t.hi,INFINITY);
  return intern(t); }

// exact integer N of a NUM const at scale s as decimal string
static std::string ldint(long double n){ // integral long double to decimal
  char b[8192]; snprintf(b,sizeof b,"%.0Lf",n); return b; }
static Z3_ast zpow2(int n){ // integer 2^n
  return Z3_mk_numeral(Z,ldint(ldexpl(1.0L,n)).c_str(),sInt); }
static Z3_ast zpow2r(int n){ std::string s = n>=0? ldint(ldexpl(1.0L,n)) : "1/"+ldint(ldexpl(1.0L,-n)); return Z3_mk_numeral(Z,s.c_str(),sReal); }
// z3 Int term for exact NUM at scale s>=e->sc
static Z3_ast zint(Expr*e,int s){ 
  if(e->kind==K_CONST) return Z3_mk_numeral(Z,ldint(ldexpl(e->nc,s)).c_str(),sInt);
  Z3_ast a=toz3(e); if(s==e->sc) return a; Z3_ast ar[2]={zpow2(s-e->sc),a}; return Z3_mk_mul(Z,2,ar); }
static Z3_ast zreal(Expr*e){
  if(e->kind==K_CONST){ return Z3_mk_numeral(Z,(e->sc<=0?ldint(e->nc):(ldint(ldexpl(e->nc,e->sc))+"/"+ldint(ldexpl(1.0L,e->sc)))).c_str(),sReal); }
  Z3_ast a=toz3(e); if(e->inexact) return a;
  a=Z3_mk_int2real(Z,a); if(e->sc==0) return a; Z3_ast ar[2]={zpow2r(-e->sc),a}; return Z3_mk_mul(Z,2,ar); }
static Z3_ast zfp(Expr*e){ // FP term
  if(e->kind==K_VAR) { return Z3_mk_fpa_to_fp_bv(Z,e->z,sF64);} return toz3(e); }

// Floating point arithmetic is abstracted: every operation is a fresh constant, its definition kept apart
// (g_fpdefs) and asserted only when the abstraction is satisfiable by a model that is not a real one.
static std::vector<Z3_ast> g_fpdefs; static std::vector<std::pair<Expr*,bool>> g_pc;
static Z3_ast fpdef(Expr*e){
  Z3_ast x=zfp(e->k[0]),y=e->kind==K_FSQRT?nullptr:zfp(e->k[1]);
  Z3_ast v=keep(Z3_mk_fresh_const(Z,"fp",sF64)); e->z=v;
  Z3_ast d= e->kind==K_FADD?Z3_mk_fpa_add(Z,rne,x,y): e->kind==K_FSUB?Z3_mk_fpa_sub(Z,rne,x,y): e->kind==K_FMUL?Z3_mk_fpa_mul(Z,rne,x,y): e->kind==K_FDIV?Z3_mk_fpa_div(Z,rne,x,y):Z3_mk_fpa_sqrt(Z,rne,x);
  g_fpdefs.push_back(Z3_mk_eq(Z,v,d));
  { static std::vector<Expr*> ops; int n=0; for(size_t i=ops.size();i-->0&&n<8;) if(ops[i]->kind==e->kind){ n++; Expr*o=ops[i]; std::vector<Z3_ast> c{Z3_mk_eq(Z,zfp(o->k[0]),x)}; if(y) c.push_back(Z3_mk_eq(Z,zfp(o->k[1]),y)); // same operands, same result
      Z3_solver_assert(Z,S,Z3_mk_implies(Z,Z3_mk_and(Z,c.size(),c.data()),Z3_mk_eq(Z,o->z,v))); } ops.push_back(e); }
  if(e->kind==K_FSUB){ // IEEE facts about x-y, implied by the definition: its sign is that of the comparison
    Z3_ast zero=Z3_mk_fpa_zero(Z,sF64,false); Z3_ast nanv=Z3_mk_fpa_is_nan(Z,v);
    auto imp=[&](Z3_ast a,Z3_ast b){ Z3_solver_assert(Z,S,Z3_mk_implies(Z,a,b)); };
    Z3_ast oo[2]={Z3_mk_fpa_is_infinite(Z,x),Z3_mk_fpa_is_infinite(Z,y)}; Z3_ast both=Z3_mk_and(Z,2,oo); Z3_ast nb=Z3_mk_not(Z,both);
    Z3_ast n3[3]={Z3_mk_fpa_is_nan(Z,x),Z3_mk_fpa_is_nan(Z,y),both}; imp(nanv,Z3_mk_or(Z,3,n3)); imp(n3[0],nanv); imp(n3[1],nanv);
    imp(Z3_mk_fpa_lt(Z,zero,v),Z3_mk_fpa_lt(Z,y,x)); imp(Z3_mk_fpa_lt(Z,v,zero),Z3_mk_fpa_lt(Z,x,y)); imp(Z3_mk_fpa_eq(Z,v,zero),Z3_mk_fpa_eq(Z,x,y));
    Z3_ast nf[2]={nanv,Z3_mk_fpa_is_infinite(Z,v)}; for(auto t:{x,y}){ imp(Z3_mk_fpa_is_infinite(Z,t),Z3_mk_or(Z,2,nf)); } (void)nb;
  }
  return v; }

Z3_ast toz3(Expr*e){
  if(e->z) return e->z;
  Z3_ast r=nullptr; auto A=[&](int i){ return toz3(e->k[i]); };
  switch(e->kind){
    case K_CONST: if(e->sort==S_BOOL) r=e->c?Z3_mk_true(Z):Z3_mk_false(Z);
      else if(e->sort==S_BV) r=Z3_mk_unsigned_int64(Z,e->c,Z3_mk_bv_sort(Z,e->w));
      else if(e->sort==S_FP) r=Z3_mk_fpa_to_fp_bv(Z,Z3_mk_unsigned_int64(Z,e->c,Z3_mk_bv_sort(Z,64)),sF64);
      else r=zint(e,e->sc);
      break;
    case K_VAR: engine_fail("var without z3");
    case K_ADD: r=Z3_mk_bvadd(Z,A(0),A(1)); break; case K_SUB: r=Z3_mk_bvsub(Z,A(0),A(1)); break; case K_MUL: r=Z3_mk_bvmul(Z,A(0),A(1)); break;
    case K_UDIV: r=Z3_mk_bvudiv(Z,A(0),A(1)); break; case K_SDIV: r=Z3_mk_bvsdiv(Z,A(0),A(1)); break;
    case K_UREM: r=Z3_mk_bvurem(Z,A(0),A(1)); break; case K_SREM: r=Z3_mk_bvsrem(Z,A(0),A(1)); break;
    case K_AND: if(e->sort==S_BOOL){ Z3_ast a[2]={A(0),A(1)}; r=Z3_mk_and(Z,2,a);} else r=Z3_mk_bvand(Z,A(0),A(1)); break;
    case K_OR: if(e->sort==S_BOOL){ Z3_ast a[2]={A(0),A(1)}; r=Z3_mk_or(Z,2,a);} else r=Z3_mk_bvor(Z,A(0),A(1)); break;
    case K_XOR: if(e->sort==S_BOOL) r=Z3_mk_xor(Z,A(0),A(1)); else r=Z3_mk_bvxor(Z,A(0),A(1)); break;
    case K_SHL: r=Z3_mk_bvshl(Z,A(0),A(1)); break; case K_LSHR: r=Z3_mk_bvlshr(Z,A(0),A(1)); break; case K_ASHR: r=Z3_mk_bvashr(Z,A(0),A(1)); break;
    case K_ZEXT: if(e->k[0]->sort==S_BOOL) r=Z3_mk_ite(Z,A(0),Z3_mk_int(Z,1,Z3_mk_bv_sort(Z,e->w)),Z3_mk_int(Z,0,Z3_mk_bv_sort(Z,e->w))); else r=Z3_mk_zero_ext(Z,e->w-e->k[0]->w,A(0)); break;
    case K_SEXT: if(e->k[0]->sort==S_BOOL) r=Z3_mk_ite(Z,A(0),Z3_mk_int(Z,-1,Z3_mk_bv_sort(Z,e->w)),Z3_mk_int(Z,0,Z3_mk_bv_sort(Z,e->w))); else r=Z3_mk_sign_ext(Z,e->w-e->k[0]->w,A(0)); break;
    case K_EXTRACT: { Z3_ast a=A(0); if(e->sort==S_BOOL) r=Z3_mk_eq(Z,Z3_mk_extract(Z,e->c,e->c,a),Z3_mk_int(Z,1,Z3_mk_bv_sort(Z,1))); else r=Z3_mk_extract(Z,e->c+e->w-1,e->c,a); break; }
    case K_CONCAT: { auto B=[&](int i){ Z3_ast a=A(i); Z3_sort b1=Z3_mk_bv_sort(Z,1); return e->k[i]->sort==S_BOOL?Z3_mk_ite(Z,a,Z3_mk_int(Z,1,b1),Z3_mk_int(Z,0,b1)):a; }; r=Z3_mk_concat(Z,B(0),B(1)); break; }
    case K_ITE: if(e->sort==S_NUM){ if(e->inexact) r=Z3_mk_ite(Z,A(0),zreal(e->k[1]),zreal(e->k[2])); else r=Z3_mk_ite(Z,A(0),zint(e->k[1],e->sc),zint(e->k[2],e->sc)); }
      else if(e->sort==S_FP) r=Z3_mk_ite(Z,A(0),zfp(e->k[1]),zfp(e->k[2]));
      else r=Z3_mk_ite(Z,A(0),A(1),A(2)); break;
    case K_EQ: r=Z3_mk_eq(Z,A(0),A(1)); break;
    case K_ULT: r=Z3_mk_bvult(Z,A(0),A(1)); break; case K_ULE: r=Z3_mk_bvule(Z,A(0),A(1)); break;
    case K_SLT: r=Z3_mk_bvslt(Z,A(0),A(1)); break; case K_SLE: r=Z3_mk_bvsle(Z,A(0),A(1)); break;
    case K_NOT: r=Z3_mk_not(Z,A(0)); break;
    case K_NLT: case K_NLE: case K_NEQ: {
      Expr*a=e->k[0],*b=e->k[1]; Z3_ast x,y;
      if(a->inexact||b->inexact){ x=zreal(a); y=zreal(b);} else { int s=std::max(a->sc,b->sc); x=zint(a,s); y=zint(b,s);} 
      r= e->kind==K_NLT?Z3_mk_lt(Z,x,y): e->kind==K_NLE?Z3_mk_le(Z,x,y):Z3_mk_eq(Z,x,y); break; }
    case K_NADD: case K_NSUB: case K_NMUL: case K_NDIV: {
      Expr*a=e->k[0],*b=e->k[1];
      if(e->inexact){ Z3_ast x=zreal(a),y=zreal(b); Z3_ast ar[2]={x,y};
        r= e->kind==K_NADD?Z3_mk_add(Z,2,ar): e->kind==K_NSUB?Z3_mk_sub(Z,2,ar): e->kind==K_NMUL?Z3_mk_mul(Z,2,ar):Z3_mk_div(Z,x,y); }
      else if(e->kind==K_NMUL){ Z3_ast ar[2]={zint(a,a->sc),zint(b,b->sc)}; r=Z3_mk_mul(Z,2,ar);} 
      else if(e->kind==K_NDIV){ engine_fail("exact div"); }
      else { Z3_ast ar[2]={zint(a,e->sc),zint(b,e->sc)}; r= e->kind==K_NADD?Z3_mk_add(Z,2,ar):Z3_mk_sub(Z,2,ar);} break; }
    case K_NNEG: r=Z3_mk_unary_minus(Z, e->inexact?zreal(e->k[0]):zint(e->k[0],e->sc)); break;
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FSQRT: r=fpdef(e); break;
    case K_FNEG: r=Z3_mk_fpa_neg(Z,zfp(e->k[0])); break; case K_FABS: r=Z3_mk_fpa_abs(Z,zfp(e->k[0])); break; 
    case K_FLT: r=Z3_mk_fpa_lt(Z,zfp(e->k[0]),zfp(e->k[1])); break; case K_FLE: r=Z3_mk_fpa_leq(Z,zfp(e->k[0]),zfp(e->k[1])); break;
    case K_FEQ: r=Z3_mk_fpa_eq(Z,zfp(e->k[0]),zfp(e->k[1])); break;
    case K_FUNO: { Z3_ast a[2]={Z3_mk_fpa_is_nan(Z,zfp(e->k[0])),Z3_mk_fpa_is_nan(Z,zfp(e->k[1]))}; r=Z3_mk_or(Z,2,a); break; }
    case K_FBITS: r= e->k[0]->kind==K_VAR? e->k[0]->z : Z3_mk_fpa_to_ieee_bv(Z,zfp(e->k[0])); break;
    case K_FFROM: r=Z3_mk_fpa_to_fp_bv(Z,A(0),sF64); break;
    default: engine_fail("toz3 kind");
  }
  e->z=keep(r); return r;
}
std::string expr_str(Expr*e){ return Z3_ast_to_string(Z,toz3(e)); }

// ---------- evaluation under the current model ----------
static double asd(u64 b){ double d; memcpy(&d,&b,8); return d; }
static u64 asb(double d){ u64 b; memcpy(&b,&d,8); return b; }
bool sol_eval(Expr*e,i128& out){
  if(e->epoch==g_epoch){ out=e->ev; return e->evok; }
  bool ok=true; i128 r=0; i128 a=0,b=0,c=0;
  auto E=[&](int i,i128& o){ if(!ok) return; if(!sol_eval(e->k[i],o)) ok=false; };
  auto al=[&](i128& x,Expr*f,int s){ if(!ok) return; int d=s-f->sc; if(d<0||d>60){ ok=false; return;} if(x>((i128)1<<62)||x<-((i128)1<<62)){ ok=false; return;} x<<=d; };
  int w=e->w;
  switch(e->kind){
    case K_CONST: if(e->sort==S_NUM){ long double n=ldexpl(e->nc,e->sc); if(fabsl(n)>9e18L) ok=false; else r=(i128)(i64)n; } else r=e->c; break;
    case K_VAR: r=g_vars[e->var].val; if(e->sort==S_NUM&&e->inexact) ok=false; break;
    case K_ADD: E(0,a);E(1,b); if(ok) r=((u64)a+(u64)b)&mask(w); break; case K_SUB: E(0,a);E(1,b); if(ok) r=((u64)a-(u64)b)&mask(w); break;
    case K_MUL: E(0,a);E(1,b); if(ok) r=((u64)a*(u64)b)&mask(w); break;
    case K_UDIV: E(0,a);E(1,b); if(ok){ if(!b) r=mask(w); else r=(u64)a/(u64)b; } break; case K_UREM: E(0,a);E(1,b); if(ok){ if(!b) r=a; else r=(u64)a%(u64)b; } break;
    case K_SDIV: case K_SREM: E(0,a);E(1,b); if(ok){ i64 x=sx(a,w),y=sx(b,w); if(!y) ok=false; else { i128 q=e->kind==K_SDIV?(i128)x/y:(i128)x%y; r=(u64)q&mask(w);} } break;
    case K_AND: E(0,a);E(1,b); if(ok) r=(u64)a&(u64)b; break; case K_OR: E(0,a);E(1,b); if(ok) r=(u64)a|(u64)b; break; case K_XOR: E(0,a);E(1,b); if(ok) r=(u64)a^(u64)b; break;
    case K_SHL: E(0,a);E(1,b); if(ok) r=(u64)b>=(u64)w?0:((u64)a<<(u64)b)&mask(w); break; case K_LSHR: E(0,a);E(1,b); if(ok) r=(u64)b>=(u64)w?0:(u64)a>>(u64)b; break;
    case K_ASHR: E(0,a);E(1,b); if(ok){ i64 x=sx(a,w); u64 n=(u64)b>=(u64)w?w-1:(u64)b; if(n>63)n=63; r=(u64)(x>>n)&mask(w);} break;
    case K_ZEXT: E(0,a); r=a; break; case K_SEXT: E(0,a); if(ok) r=(u64)(e->k[0]->sort==S_BOOL?(a?-1:0):sx(a,e->k[0]->w))&mask(w); break;
    case K_EXTRACT: E(0,a); if(ok) r=((u64)a>>e->c)&mask(w); break;
    case K_CONCAT: E(0,a);E(1,b); if(ok) r=(((u64)a<<e->k[1]->w)|(u64)b)&mask(w); break;
    case K_ITE: E(0,c); if(ok){ Expr*f=c?e->k[1]:e->k[2]; if(!sol_eval(f,r)) ok=false; else if(e->sort==S_NUM){ if(e->inexact) ok=false; else al(r,f,e->sc);} } break;
    case K_EQ: E(0,a);E(1,b); r=a==b; break; case K_ULT: E(0,a);E(1,b); r=(u64)a<(u64)b; break; case K_ULE: E(0,a);E(1,b); r=(u64)a<=(u64)b; break;
    case K_SLT: E(0,a);E(1,b); if(ok) r=sx(a,e->k[0]->w)<sx(b,e->k[0]->w); break; case K_SLE: E(0,a);E(1,b); if(ok) r=sx(a,e->k[0]->w)<=sx(b,e->k[0]->w); break;
    case K_NOT: E(0,a); r=!a; break;
    case K_NLT: case K_NLE: case K_NEQ: { if(e->k[0]->inexact||e->k[1]->inexact){ ok=false; break;} E(0,a);E(1,b); int s=std::max(e->k[0]->sc,e->k[1]->sc); al(a,e->k[0],s); al(b,e->k[1],s); if(ok) r= e->kind==K_NLT?a<b:e->kind==K_NLE?a<=b:a==b; break; }
    case K_NADD: case K_NSUB: if(e->inexact){ok=false;break;} E(0,a);E(1,b); al(a,e->k[0],e->sc); al(b,e->k[1],e->sc); if(ok) r=e->kind==K_NADD?a+b:a-b; break;
    case K_NMUL: if(e->inexact){ok=false;break;} E(0,a);E(1,b); if(ok){ if(a>((i128)1<<62)||a<-((i128)1<<62)||b>((i128)1<<62)||b<-((i128)1<<62)) ok=false; else r=a*b; } break;
    case K_NNEG: if(e->inexact){ok=false;break;} E(0,a); r=-a; break;
    case K_FADD: E(0,a);E(1,b); if(ok) r=asb(asd(a)+asd(b)); break; case K_FSUB: E(0,a);E(1,b); if(ok) r=asb(asd(a)-asd(b)); break;
    case K_FMUL: E(0,a);E(1,b); if(ok) r=asb(asd(a)*asd(b)); break; case K_FDIV: E(0,a);E(1,b); if(ok) r=asb(asd(a)/asd(b)); break;
    case K_FNEG: E(0,a); if(ok) r=asb(-asd(a)); break; case K_FABS: E(0,a); if(ok) r=asb(fabs(asd(a))); break; case K_FSQRT: E(0,a); if(ok) r=asb(sqrt(asd(a))); break;
    case K_FLT: E(0,a);E(1,b); if(ok) r=asd(a)<asd(b); break; case K_FLE: E(0,a);E(1,b); if(ok) r=asd(a)<=asd(b); break; case K_FEQ: E(0,a);E(1,b); if(ok) r=asd(a)==asd(b); break;
    case K_FUNO: E(0,a);E(1,b); if(ok) r=std::isnan(asd(a))||std::isnan(asd(b)); break;
    case K_FBITS: case K_FFROM: E(0,a); r=a; break;
    default: ok=false;
  }
  e->epoch=g_epoch; e->ev=r; e->evok=ok; out=r; return ok;
}

static void read_model(Z3_model m){
  for(auto& v:g_vars){
    if(v.sort==S_NUM&&v.e->inexact) continue;
    Z3_ast out; if(!Z3_model_eval(Z,m,v.e->z,true,&out)) engine_fail("model eval");

    if(v.sort==S_BOOL) v.val=Z3_get_bool_value(Z,out)==Z3_L_TRUE;
    else if(v.sort==S_NUM){ i64 x; if(!Z3_get_numeral_int64(Z,out,&x)) engine_fail("numeral"); v.val=x; }
    else { u64 x; if(!Z3_get_numeral_uint64(Z,out,(uint64_t*)&x)) engine_fail("numeral bv"); v.val=x; }

  }
  g_epoch++;
}
extern void stat_query(bool sat,u64 ns);
bool sol_check(Expr*cond,bool neg,bool commit){
  Z3_ast c=toz3(cond); if(neg) c=Z3_mk_not(Z,c); 
  Z3_solver_push(Z,S); Z3_solver_assert(Z,S,c);
  auto t0=std::chrono::steady_clock::now();
  Z3_lbool r=Z3_solver_check(Z,S); bool have=false;
  if(r==Z3_L_TRUE&&!g_fpdefs.empty()){ // is the model of the abstraction a real one?
    std::vector<i128> old; for(auto&v:g_vars) old.push_back(v.val);
    Z3_model m=Z3_solver_get_model(Z,S); Z3_model_inc_ref(Z,m); read_model(m); Z3_model_dec_ref(Z,m);
    i128 o; have=sol_eval(cond,o)&&(o!=0)!=neg; for(size_t i=0;i<g_pc.size()&&have;i++) have=sol_eval(g_pc[i].first,o)&&(o!=0)!=g_pc[i].second;
    if(!have){ for(auto d:g_fpdefs) Z3_solver_assert(Z,S,d);
      // a model near the spurious one: all leaves but one as in that model; then the full question
      std::vector<size_t> lv; for(size_t i=0;i<g_vars.size();i++) if(g_vars[i].leaf&&g_vars[i].sort==S_FP) lv.push_back(i);
      std::vector<u64> mv; for(auto i:lv) mv.push_back((u64)g_vars[i].val);
      r=Z3_L_UNDEF; Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_symbol rl=Z3_mk_string_symbol(Z,"rlimit"); Z3_params_set_uint(Z,p,rl,3000000); Z3_solver_set_params(Z,S,p);
      for(size_t t=0;t<lv.size()&&lv.size()>1&&r!=Z3_L_TRUE;t++){ Z3_solver_push(Z,S); for(size_t i=0;i<lv.size();i++) if(i!=t) Z3_solver_assert(Z,S,Z3_mk_eq(Z,g_vars[lv[i]].e->z,Z3_mk_unsigned_int64(Z,mv[i],Z3_mk_bv_sort(Z,64))));
        r=Z3_solver_check(Z,S); if(r==Z3_L_TRUE){ Z3_model m2=Z3_solver_get_model(Z,S); Z3_model_inc_ref(Z,m2); read_model(m2); Z3_model_dec_ref(Z,m2); have=true; } Z3_solver_pop(Z,S,1); }
      Z3_params_set_uint(Z,p,rl,400000000); Z3_solver_set_params(Z,S,p); Z3_params_dec_ref(Z,p);
      if(r!=Z3_L_TRUE){ if(getenv("SXQ")){ char b[64]; snprintf(b,64,"/tmp/q%d.%d.smt2",getpid(),(int)g_stats.queries); FILE*f=fopen(b,"w"); fputs(Z3_solver_to_string(Z,S),f); fclose(f);} r=Z3_solver_check(Z,S); } }
    if(have?!commit:(r!=Z3_L_TRUE||!commit)){ for(size_t i=0;i<old.size();i++) g_vars[i].val=old[i]; g_epoch++; }
  }
  u64 ns=std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now()-t0).count();
  g_stats.queries++; stat_query(r==Z3_L_TRUE,ns);
  if(r==Z3_L_UNDEF){ std::string why=Z3_solver_get_reason_unknown(Z,S); engine_fail("solver gave unknown: "+why); }
  if(r==Z3_L_TRUE&&commit&&!have){ Z3_model m=Z3_solver_get_model(Z,S); Z3_model_inc_ref(Z,m); read_model(m); Z3_model_dec_ref(Z,m); }
  Z3_solver_pop(Z,S,1);

  return r==Z3_L_TRUE;
}
void sol_assert(Expr*cond,bool neg){ if(!g_fpdefs.empty()||true) g_pc.push_back({cond,neg}); Z3_ast c=toz3(cond); if(neg) c=keep(Z3_mk_not(Z,c)); Z3_solver_assert(Z,S,c); }

static std::string i128s(i128 v){ if(v<0) return "-"+i128s(-v); if(v<10) return std::string(1,'0'+(int)v); return i128s(v/10)+std::string(1,'0'+(int)(v%10)); }
std::string dump_model(){
  std::string s;
  for(auto& v:g_vars){ if(!v.leaf) continue; s+=v.type; s+=' '; s+=v.name; s+=' ';
    i128 x=v.val; if(v.sort==S_BV) x=sx((u64)x,v.w); else if(v.sort==S_FP) x=(i64)(u64)x;
    s+= i128s(x)+" "+std::to_string(v.sc)+"\n"; }
  return s;
}

// ---------- BV construction ----------
static u64 cfold(Kind k,u64 a,u64 b,int w,bool& ok){
  a&=mask(w); b&=mask(w); ok=true;
  switch(k){ case K_ADD: return (a+b)&mask(w); case K_SUB: return (a-b)&mask(w); case K_MUL: return (a*b)&mask(w);
    case K_UDIV: if(!b){ok=false;return 0;} return a/b; case K_UREM: if(!b){ok=false;return 0;} return a%b;
    case K_SDIV: case K_SREM: { i64 x=sx(a,w),y=sx(b,w); if(!y||(y==-1&&a==(1ULL<<(w-1)))){ok=false;return 0;} return (u64)(k==K_SDIV?x/y:x%y)&mask(w);} 
    case K_AND: return a&b; case K_OR: return a|b; case K_XOR: return a^b;
    case K_SHL: return b>=(u64)w?0:(a<<b)&mask(w); case K_LSHR: return b>=(u64)w?0:a>>b; case K_ASHR: return (u64)(sx(a,w)>>(b>=(u64)w?w-1:b))&mask(w);
    case K_EQ: return a==b; case K_ULT: return a<b; case K_ULE: return a<=b; case K_SLT: return sx(a,w)<sx(b,w); case K_SLE: return sx(a,w)<=sx(b,w);
    default: ok=false; return 0; }
}
static bool constarm(Expr*e){ return e->kind==K_ITE&&e->sort!=S_NUM&&e->sort!=S_FP&&(is_const(e->k[1])||is_const(e->k[2])); }
Val bool_not(Val a){ if(!a.e) return CV(!a.c); if(a.e->kind==K_NOT) return V(a.e->k[0]); Expr t{}; t.kind=K_NOT; t.sort=S_BOOL; t.w=1; t.k[0]=a.e; return EV(intern(t)); }
static void chkbv(Val a){ if(a.e&&(a.e->sort==S_NUM||a.e->sort==S_FP)) { if(a.e->sort==S_FP) return; engine_fail("integer operation on a real-mode floating point value"); } }
static Val fpb(Val a){ if(a.e&&a.e->sort==S_FP) return fp_bits(a); return a; }
Val bv_bin(Kind k,Val a,Val b,int w){
  if(!a.e&&!b.e){ bool ok; u64 r=cfold(k,a.c,b.c,w,ok); if(!ok) engine_fail("division by zero in constant folding"); return CV(r); }
  chkbv(a); chkbv(b); a=fpb(a); b=fpb(b);
  if(w==1){ // booleans
    if(k==K_ADD||k==K_SUB) k=K_XOR; if(k==K_MUL) k=K_AND;
    if(!a.e) std::swap(a,b);
    if(!b.e){ if(k==K_AND) return b.c?a:CV(0); if(k==K_OR) return b.c?CV(1):a; if(k==K_XOR) return b.c?bool_not(a):a; }
    if(a.e==b.e){ if(k==K_AND||k==K_OR) return a; if(k==K_XOR) return CV(0); }
    if(k!=K_AND&&k!=K_OR&&k!=K_XOR) engine_fail("bool op");
  } else {
    if(!a.e&&(k==K_ADD||k==K_MUL||k==K_AND||k==K_OR||k==K_XOR)) std::swap(a,b);
    if(!b.e){ u64 m=mask(w),c=b.c&m;
      if(c==0&&(k==K_ADD||k==K_SUB||k==K_OR||k==K_XOR||k==K_SHL||k==K_LSHR||k==K_ASHR)) return a;
      if(c==0&&(k==K_MUL||k==K_AND)) return CV(0);
      if(c==1&&(k==K_MUL||k==K_UDIV||k==K_SDIV)) return a;
      if(c==m&&k==K_AND) return a; if(c==m&&k==K_OR) return CV(m);
      // and with low mask -> zext(extract)
      if(k==K_AND&&c&&(c&(c+1))==0){ int n=__builtin_popcountll(c); return bv_zext(bv_extract(a,w,0,n),n,w); }
      if(k==K_LSHR&&c<(u64)w) return bv_zext(bv_extract(a,w,c,w-c),w-c,w);
      if(k==K_SHL&&c<(u64)w) return bv_concat(bv_extract(a,w,0,w-c),w-c,CV(0),c);
      if(k==K_OR && a.e->kind==K_CONCAT && is_const(a.e->k[1]) && a.e->k[1]->c==0 && (c>>a.e->k[1]->w)==0) return bv_concat(V(a.e->k[0]),a.e->k[0]->w,CV(c),a.e->k[1]->w);
      if(constarm(a.e)) return mk_ite(a.e->k[0],bv_bin(k,V(a.e->k[1]),b,w),bv_bin(k,V(a.e->k[2]),b,w),w,false,FK_F64);
    } else if(a.e){
      if(a.e==b.e){ if(k==K_SUB||k==K_XOR) return CV(0); if(k==K_AND||k==K_OR) return a; }
      if(k==K_OR||k==K_ADD){ // disjoint concat/zext combination: (x<<n) | zext(y)
        for(int i=0;i<2;i++){ Expr*p=i?b.e:a.e,*q=i?a.e:b.e;
          if(p->kind==K_CONCAT&&is_const(p->k[1])&&p->k[1]->c==0&&q->kind==K_ZEXT&&q->k[0]->w<=p->k[1]->w) return bv_concat(V(p->k[0]),p->k[0]->w,bv_zext(V(q->k[0]),q->k[0]->w,p->k[1]->w),p->k[1]->w); }
      }
    } else if(!a.e){ if(a.c==0&&(k==K_SHL||k==K_LSHR||k==K_ASHR)) return CV(0); if(constarm(b.e)&&k==K_SUB) return mk_ite(b.e->k[0],bv_bin(k,a,V(b.e->k[1]),w),bv_bin(k,a,V(b.e->k[2]),w),w,false,FK_F64); }
  }
  Expr t{}; t.kind=k; t.sort=w==1?S_BOOL:S_BV; t.w=w; t.k[0]=X(a,w); t.k[1]=X(b,w); return EV(intern(t));
}
Val bv_cmp(Kind k,Val a,Val b,int w){
  if(!a.e&&!b.e){ bool ok; return CV(cfold(k,a.c,b.c,w,ok)); }
  if(a.e&&a.e->sort==S_NUM&&!b.e&&k==K_SLT&&b.c==0&&(w==64||w==32)){ FK f=w==64?FK_F64:FK_F32; return num_cmp(C_LT,a,ld_val(0,f),f); } // sign bit (there are no negative zeros in the real mode)
  if(b.e&&b.e->sort==S_NUM&&!a.e&&k==K_SLT&&a.c==mask(w)&&(w==64||w==32)){ FK f=w==64?FK_F64:FK_F32; return bool_not(num_cmp(C_LT,b,ld_val(0,f),f)); }
  if(a.e&&a.e->sort==S_NUM) engine_fail("integer comparison of real-mode value"); if(b.e&&b.e->sort==S_NUM) engine_fail("integer comparison of real-mode value");
  a=fpb(a); b=fpb(b);
  if(a.e==b.e&&a.e&&b.e) return CV(k==K_EQ||k==K_ULE||k==K_SLE);
  if(w==1){ 
    if(k==K_EQ){ if(!a.e) std::swap(a,b); if(!b.e) return b.c?a:bool_not(a); }
    else if(k==K_ULT) return bv_bin(K_AND,bool_not(a),b,1); else if(k==K_ULE) return bv_bin(K_OR,bool_not(a),b,1);
    else if(k==K_SLT) return bv_bin(K_AND,a,bool_not(b),1); else return bv_bin(K_OR,a,bool_not(b),1);
  } else {
    if(a.e&&!b.e&&constarm(a.e)){ Val x=bv_cmp(k,V(a.e->k[1]),b,w),y=bv_cmp(k,V(a.e->k[2]),b,w); return mk_ite(a.e->k[0],x,y,1,false,FK_F64); }
    if(b.e&&!a.e&&constarm(b.e)){ Val x=bv_cmp(k,a,V(b.e->k[1]),w),y=bv_cmp(k,a,V(b.e->k[2]),w); return mk_ite(b.e->k[0],x,y,1,false,FK_F64); }
    if(k==K_EQ){ Expr*z=nullptr; u64 c=0; if(a.e&&!b.e){z=a.e;c=b.c&mask(w);} else if(b.e&&!a.e){z=b.e;c=a.c&mask(w);} 
      if(z&&z->kind==K_ZEXT){ int fw=z->k[0]->sort==S_BOOL?1:z->k[0]->w; if(c&~mask(fw)) return CV(0); return bv_cmp(K_EQ,V(z->k[0]),CV(c),fw); } }
    if(!b.e&&a.e&&k==K_ULT&&(b.c&mask(w))==0) return CV(0);
    if(!b.e&&a.e&&k==K_ULT&&(b.c&mask(w))==1) return bv_cmp(K_EQ,a,CV(0),w);
    if(!a.e&&b.e&&k==K_ULE&&(a.c&mask(w))==0) return CV(1);
  }
  Expr t{}; t.kind=k; t.sort=S_BOOL; t.w=1; t.k[0]=X(a,w); t.k[1]=X(b,w); return EV(intern(t));
}
Val bv_zext(Val a,int f,int to){ if(!a.e) return CV(a.c&mask(f)); if(f==to) return a; chkbv(a); a=fpb(a);
  if(f==1) return mk_ite(a.e,CV(1),CV(0),to,false,FK_F64);
  if(a.e->kind==K_ZEXT) return bv_zext(V(a.e->k[0]),a.e->k[0]->w,to);
  if(a.e->kind==K_ITE&&is_const(a.e->k[1])&&is_const(a.e->k[2])) return mk_ite(a.e->k[0],CV(a.e->k[1]->c),CV(a.e->k[2]->c),to,false,FK_F64);
  Expr t{}; t.kind=K_ZEXT; t.sort=S_BV; t.w=to; t.k[0]=a.e; return EV(intern(t)); }
Val bv_sext(Val a,int f,int to){ if(!a.e) return CV((u64)sx(f==1?(a.c?1:0):a.c,f)&mask(to)); if(f==to) return a; chkbv(a);
  if(f==1) return mk_ite(a.e,CV(mask(to)),CV(0),to,false,FK_F64);
  if(a.e->kind==K_ITE&&is_const(a.e->k[1])&&is_const(a.e->k[2])) return mk_ite(a.e->k[0],CV((u64)sx(a.e->k[1]->c,f)&mask(to)),CV((u64)sx(a.e->k[2]->c,f)&mask(to)),to,false,FK_F64);
  Expr t{}; t.kind=K_SEXT; t.sort=S_BV; t.w=to; t.k[0]=a.e; return EV(intern(t)); }
Val bv_extract(Val a,int f,int lo,int w){
  if(!a.e) return CV((a.c>>lo)&mask(w)); if(lo==0&&w==f) return a;
  if(a.e->sort==S_NUM) engine_fail("partial access to a real-mode floating point value"); a=fpb(a);
  Expr*e=a.e;
  if(e->kind==K_EXTRACT) return bv_extract(V(e->k[0]),e->k[0]->w,lo+e->c,w);
  if(e->kind==K_CONCAT){ int wl=e->k[1]->w; if(lo+w<=wl) return bv_extract(V(e->k[1]),wl,lo,w); if(lo>=wl) return bv_extract(V(e->k[0]),e->k[0]->w,lo-wl,w);
    return bv_concat(bv_extract(V(e->k[0]),e->k[0]->w,0,lo+w-wl),lo+w-wl,bv_extract(V(e->k[1]),wl,lo,wl-lo),wl-lo); }
  if(e->kind==K_ZEXT){ int fw=e->k[0]->w; if(lo>=fw) return CV(0); if(lo+w<=fw) return bv_extract(V(e->k[0]),fw,lo,w); return bv_zext(bv_extract(V(e->k[0]),fw,lo,fw-lo),fw-lo,w); }
  if(e->kind==K_SEXT){ int fw=e->k[0]->w; if(lo+w<=fw) return bv_extract(V(e->k[0]),fw,lo,w); if(lo==0) return bv_sext(V(e->k[0]),fw,w); }
  if(e->kind==K_ITE&&(is_const(e->k[1])||is_const(e->k[2]))) return mk_ite(e->k[0],bv_extract(V(e->k[1]),f,lo,w),bv_extract(V(e->k[2]),f,lo,w),w,false,FK_F64);
  if((e->kind==K_AND||e->kind==K_OR||e->kind==K_XOR)) return bv_bin(e->kind,bv_extract(V(e->k[0]),f,lo,w),bv_extract(V(e->k[1]),f,lo,w),w);
  if(lo==0&&(e->kind==K_ADD||e->kind==K_SUB||e->kind==K_MUL)&&w>1) return bv_bin(e->kind,bv_extract(V(e->k[0]),f,0,w),bv_extract(V(e->k[1]),f,0,w),w);
  Expr t{}; t.kind=K_EXTRACT; t.sort=w==1?S_BOOL:S_BV; t.w=w; t.c=lo; t.k[0]=e; return EV(intern(t)); }
Val bv_concat(Val h,int wh,Val l,int wl){
  if(!h.e&&!l.e) return CV(((h.c&mask(wh))<<wl)|(l.c&mask(wl)));
  if(!h.e&&(h.c&mask(wh))==0) return bv_zext(l,wl,wh+wl);
  h=fpb(h); l=fpb(l); chkbv(h); chkbv(l);
  if(h.e&&l.e&&h.e->kind==K_EXTRACT&&l.e->kind==K_EXTRACT&&h.e->k[0]==l.e->k[0]&&h.e->c==l.e->c+wl) return bv_extract(V(h.e->k[0]),h.e->k[0]->w,l.e->c,wh+wl);
  if(l.e&&h.e&&l.e->kind==K_CONCAT){} 
  Expr t{}; t.kind=K_CONCAT; t.sort=S_BV; t.w=wh+wl; t.k[0]=X(h,wh); t.k[1]=X(l,wl); return EV(intern(t)); }

// ---------- floating point ----------
long double val_ld(Val a,FK fk){ if(a.e){ if(a.e->kind==K_CONST&&a.e->sort==S_NUM) return a.e->nc; engine_fail("val_ld of symbolic"); }
  if(fk==FK_F32){ float f; uint32_t b=a.c; memcpy(&f,&b,4); return f; } if(fk==FK_LD) engine_fail("ld concrete"); return asd(a.c); }
Val ld_val(long double v,FK fk){ if(fk==FK_F32){ float f=(float)v; uint32_t b; memcpy(&b,&f,4); return CV(b);} if(fk==FK_F64) return CV(asb((double)v)); return EV(mk_num(v)); }
static bool conc(Val a){ return !a.e||(a.e->kind==K_CONST&&a.e->sort==S_NUM); }
bool is_fp(Val a){ return a.e&&a.e->sort==S_FP; }
static Expr* fpx(Val a){ if(a.e){ if(a.e->sort==S_FP) return a.e; engine_fail("mixing real-mode and bit-precise floating point"); } Expr t{}; t.kind=K_CONST; t.sort=S_FP; t.w=64; t.c=a.c; return intern(t); }
static Val fpmk(Kind k,Sort s,Expr*a,Expr*b=nullptr){ Expr t{}; t.kind=k; t.sort=s; t.w=s==S_BOOL?1:64; t.k[0]=a; t.k[1]=b; return EV(intern(t)); }
Val fp_bits(Val a){ if(!a.e) return a; if(a.e->kind==K_CONST) return CV(a.e->c); if(a.e->kind==K_FFROM) return V(a.e->k[0]);
  if(a.e->kind==K_ITE) return mk_ite(a.e->k[0],fp_bits(V(a.e->k[1])),fp_bits(V(a.e->k[2])),64,false,FK_F64);
  if(a.e->kind==K_FABS) return bv_bin(K_AND,fp_bits(V(a.e->k[0])),CV(0x7fffffffffffffffULL),64);
  if(a.e->kind==K_FNEG) return bv_bin(K_XOR,fp_bits(V(a.e->k[0])),CV(0x8000000000000000ULL),64);
  return fpmk(K_FBITS,S_BV,a.e); }
Val fp_from_bits(Val a){ if(!a.e) return a; if(a.e->kind==K_FBITS) return V(a.e->k[0]); return fpmk(K_FFROM,S_FP,a.e); }
static const double U53=1.1102230246251565e-16; 
static int mant(FK fk){ return fk==FK_F32?24:fk==FK_F64?53:64; }
static Expr* nx(Val a,FK fk){ if(a.e){ if(a.e->sort!=S_NUM) { if(a.e->taint) return mk_num(0); engine_fail("floating point operation on non-NUM"); } return a.e; } return mk_num(val_ld(a,fk)); }
static double dn(double x){ return nextafter(x,-INFINITY); } static double up(double x){ return nextafter(x,INFINITY); }
static Expr* round_result(Expr* r,FK fk){ // r exact real-valued expression with interval set: add rounding error
  static std::map<std::pair<Expr*,int>,Expr*> memo; auto mi=memo.find({r,(int)fk}); if(mi!=memo.end()) return mi->second; // rounding is deterministic
  double m=std::max(fabs(r->lo),fabs(r->hi));
  double u=ldexp(1.0,-mant(fk)); double bound=m*u*(1+1e-9)+1e-300;
  Expr t{}; t.kind=K_VAR; t.sort=S_NUM; t.inexact=1; t.var=(int)g_vars.size(); t.lo=-bound; t.hi=bound; Expr*e=intern(t);
  std::string zn="err!"+std::to_string(e->var); Z3_ast a=keep(Z3_mk_const(Z,Z3_mk_string_symbol(Z,zn.c_str()),sReal)); e->z=a;
  int ex; frexp(bound,&ex); // bound as power of two upper bound -> small rational
  Z3_ast b=zpow2r(ex),nb=zpow2r(ex); Z3_ast neg=Z3_mk_unary_minus(Z,nb); e->hi=ldexp(1.0,ex); e->lo=-e->hi;
  Z3_solver_assert(Z,S,keep(Z3_mk_le(Z,neg,a))); Z3_solver_assert(Z,S,keep(Z3_mk_le(Z,a,b)));
  g_vars.push_back(VarInfo{"err",S_NUM,0,'e',0,0,e,false});
  Expr s{}; s.kind=K_NADD; s.sort=S_NUM; s.inexact=1; s.k[0]=r; s.k[1]=e; s.lo=dn(r->lo+e->lo); s.hi=up(r->hi+e->hi); Expr* q=intern(s); memo[{r,(int)fk}]=q; return q;
}
static void norm(Val& a,FK fk){ if(fk!=FK_LD&&a.e&&a.e->kind==K_CONST&&a.e->sort==S_NUM) a=ld_val(a.e->nc,fk); }
Val num_bin(NOp op,Val a,Val b,FK fk){
  norm(a,fk); norm(b,fk);
  if(conc(a)&&conc(b)){
    if(fk==FK_F64){ double x=asd(a.c),y=asd(b.c); double r= op==N_ADD?x+y:op==N_SUB?x-y:op==N_MUL?x*y:x/y; return CV(asb(r)); }
    if(fk==FK_F32){ float x=(float)val_ld(a,fk),y=(float)val_ld(b,fk); volatile float r= op==N_ADD?x+y:op==N_SUB?x-y:op==N_MUL?x*y:x/y; return ld_val(r,fk); }
    long double x=val_ld(a,fk),y=val_ld(b,fk); return ld_val(op==N_ADD?x+y:op==N_SUB?x-y:op==N_MUL?x*y:x/y,fk);
  }
  if(is_fp(a)||is_fp(b)){ if(fk!=FK_F64) engine_fail("fp mode only for double"); Kind k= op==N_ADD?K_FADD:op==N_SUB?K_FSUB:op==N_MUL?K_FMUL:K_FDIV; return fpmk(k,S_FP,fpx(a),fpx(b)); }
  Expr*x=nx(a,fk),*y=nx(b,fk);
  // huge or special constants
  for(int i=0;i<2;i++){ Expr*c=i?y:x,*o=i?x:y; if(c->kind==K_CONST){ long double v=c->nc;
      if(!(fabsl(v)<1e200L)){ if(std::isnan((double)v)) return ld_val(NAN,fk);
        double om=std::max(fabs(o->lo),fabs(o->hi)); 
        if((op==N_ADD||op==N_SUB)&&om<1e100){ long double r=(op==N_SUB&&i==1)?-v:v; return ld_val(r,fk); }
        if(op==N_DIV&&i==1&&std::isinf((double)v)) return ld_val(0,fk);
        engine_fail("unsupported operation on huge constant"); }
      if(v==0){ if(op==N_ADD) return EV(o); if(op==N_SUB&&i==1) return EV(o); if(op==N_SUB&&i==0) return num_neg(EV(o),fk); if(op==N_MUL) return ld_val(0,fk);
         if(op==N_DIV&&i==0&&(o->lo>0||o->hi<0)) return ld_val(0,fk); if(op==N_DIV&&i==1) engine_fail("division of symbolic by zero"); }
      if(v==1&&(op==N_MUL||(op==N_DIV&&i==1))) return EV(o);
      if(v==-1&&(op==N_MUL||(op==N_DIV&&i==1))) return num_neg(EV(o),fk);
  } }
  if(op==N_SUB&&x==y) return ld_val(0,fk);
  // push through ITE with constant arms
  if(x->kind==K_ITE&&y->kind==K_CONST&&x->k[1]->kind==K_CONST&&x->k[2]->kind==K_CONST) return mk_ite(x->k[0],num_bin(op,ld_val(x->k[1]->nc,fk),b,fk),num_bin(op,ld_val(x->k[2]->nc,fk),b,fk),64,true,fk);
  if(y->kind==K_ITE&&x->kind==K_CONST&&y->k[1]->kind==K_CONST&&y->k[2]->kind==K_CONST) return mk_ite(y->k[0],num_bin(op,a,ld_val(y->k[1]->nc,fk),fk),num_bin(op,a,ld_val(y->k[2]->nc,fk),fk),64,true,fk);
  Expr t{}; t.sort=S_NUM; t.k[0]=x; t.k[1]=y;
  double lo,hi;
  if(op==N_ADD){ t.kind=K_NADD; lo=x->lo+y->lo; hi=x->hi+y->hi; t.sc=std::max(x->sc,y->sc); }
  else if(op==N_SUB){ t.kind=K_NSUB; lo=x->lo-y->hi; hi=x->hi-y->lo; t.sc=std::max(x->sc,y->sc); }
  else if(op==N_MUL){ t.kind=K_NMUL; double p[4]={x->lo*y->lo,x->lo*y->hi,x->hi*y->lo,x->hi*y->hi}; lo=hi=p[0]; for(double q:p){ lo=std::min(lo,q); hi=std::max(hi,q);} t.sc=x->sc+y->sc; }
  else { // division
    if(y->kind==K_CONST){ int ex; if(fabsl(frexpl(y->nc,&ex))==0.5L) return num_bin(N_MUL,a,ld_val(1.0L/y->nc,fk),fk); }
    if(!(y->lo>0||y->hi<0)) engine_fail("division by an interval containing zero");
    t.kind=K_NDIV; double p[4]={x->lo/y->lo,x->lo/y->hi,x->hi/y->lo,x->hi/y->hi}; lo=hi=p[0]; for(double q:p){ lo=std::min(lo,q); hi=std::max(hi,q);} t.inexact=1; }
  t.lo=dn(lo); t.hi=up(hi); if(x->inexact||y->inexact) t.inexact=1;
  double m=std::max(fabs(t.lo),fabs(t.hi));
  if(!t.inexact && m*ldexp(1.0,t.sc) <= ldexp(1.0,mant(fk))){ if(m==0) return ld_val(0,fk); t.lo=lo; t.hi=hi; return EV(intern(t)); }
  // inexact
  t.inexact=1; t.sc=0; Expr*e=intern(t); Expr*r=round_result(e,fk);
  if(op==N_DIV&&x->kind!=K_CONST){ Z3_ast zx=zreal(x); Z3_ast z0=keep(Z3_mk_int(Z,0,sReal)); Z3_solver_assert(Z,S,keep(Z3_mk_implies(Z,keep(Z3_mk_eq(Z,zx,z0)),keep(Z3_mk_eq(Z,r->k[1]->z,z0))))); } // 0/y is exact
  return EV(r);
}
Val num_cmp(NCmp op,Val a,Val b,FK fk){
  norm(a,fk); norm(b,fk);
  if(conc(a)&&conc(b)){ long double x=val_ld(a,fk),y=val_ld(b,fk); return CV(op==C_LT?x<y:op==C_LE?x<=y:x==y); }
  if(is_fp(a)||is_fp(b)){ Expr*x=fpx(a),*y=fpx(b); 
    // comparisons do not see the sign of zero: y-x is written as -(x-y), and -p < -q as q < p
    auto norm=[&](Expr*e){ if(e->kind==K_FSUB&&e->k[0]->hash>e->k[1]->hash) return fpmk(K_FNEG,S_FP,fpmk(K_FSUB,S_FP,e->k[1],e->k[0]).e).e; if(e->kind==K_FNEG&&e->k[0]->kind==K_FNEG) return e->k[0]->k[0]; return e; };
    auto neg=[&](Expr*e){ if(e->kind==K_FNEG) return e->k[0]; if(e->kind==K_CONST){ return fpx(CV(e->c^(1ULL<<63))); } return fpmk(K_FNEG,S_FP,e).e; };
    x=norm(x); y=norm(y); if(x->kind==K_FNEG||y->kind==K_FNEG){ if(x->kind==K_FNEG&&y->kind==K_FNEG){ Expr*t=neg(x); x=neg(y); y=t; } else if(x->kind==K_FNEG&&x->k[0]->hash>y->hash){ Expr*t=neg(x); x=neg(y); y=t; } else if(y->kind==K_FNEG&&y->k[0]->hash>x->hash){ Expr*t=neg(x); x=neg(y); y=t; } }
    if(op==C_EQ&&x->hash>y->hash) std::swap(x,y);
    return fpmk(op==C_LT?K_FLT:op==C_LE?K_FLE:K_FEQ,S_BOOL,x,y); }
  Expr*x=nx(a,fk),*y=nx(b,fk);
  if(x==y) return CV(op!=C_LT);
  if((x->kind==K_CONST&&std::isnan((double)x->nc))||(y->kind==K_CONST&&std::isnan((double)y->nc))) return CV(0);
  if(op==C_EQ){ if(x->hi<y->lo||y->hi<x->lo) return CV(0); }
  else if(op==C_LT){ if(x->hi<y->lo) return CV(1); if(x->lo>=y->hi) return CV(0); }
  else { if(x->hi<=y->lo) return CV(1); if(x->lo>y->hi) return CV(0); }
  auto ca=[&](Expr*e){ return e->kind==K_ITE&&(e->k[1]->kind==K_CONST||e->k[2]->kind==K_CONST); };
  auto vv=[&](Expr*e)->Val{ return e->kind==K_CONST?ld_val(e->nc,fk):EV(e); };
  if(y->kind==K_CONST&&ca(x)) return mk_ite(x->k[0],num_cmp(op,vv(x->k[1]),b,fk),num_cmp(op,vv(x->k[2]),b,fk),1,false,fk);
  if(x->kind==K_CONST&&ca(y)) return mk_ite(y->k[0],num_cmp(op,a,vv(y->k[1]),fk),num_cmp(op,a,vv(y->k[2]),fk),1,false,fk);
  if(x->kind==K_CONST&&!(fabsl(x->nc)<1e200L)) engine_fail("huge compare"); if(y->kind==K_CONST&&!(fabsl(y->nc)<1e200L)) engine_fail("huge compare");
  Expr t{}; t.kind=op==C_LT?K_NLT:op==C_LE?K_NLE:K_NEQ; t.sort=S_BOOL; t.w=1; t.k[0]=x; t.k[1]=y; return EV(intern(t));
}
bool num_maynan(Val a,FK fk){ if(conc(a)) return std::isnan((double)val_ld(a,fk)); return false; }
Val num_uno(Val a,Val b,FK fk){ if(is_fp(a)||is_fp(b)) return fpmk(K_FUNO,S_BOOL,fpx(a),fpx(b)); return CV(num_maynan(a,fk)||num_maynan(b,fk)); }
Val num_neg(Val a,FK fk){ norm(a,fk); if(conc(a)){ if(!a.e&&fk==FK_F64) return CV(a.c^(1ULL<<63)); if(!a.e&&fk==FK_F32) return CV((a.c^0x80000000u)&0xffffffffu); return ld_val(-val_ld(a,fk),fk);} 
  if(is_fp(a)) return fpmk(K_FNEG,S_FP,a.e); Expr*x=nx(a,fk); if(x->kind==K_NNEG) return EV(x->k[0]);
  Expr t{}; t.kind=K_NNEG; t.sort=S_NUM; t.k[0]=x; t.inexact=x->inexact; t.sc=x->sc; t.lo=-x->hi; t.hi=-x->lo; return EV(intern(t)); }
Val num_abs(Val a,FK fk){ norm(a,fk); if(conc(a)) return ld_val(fabsl(val_ld(a,fk)),fk); if(is_fp(a)){ Expr*e=a.e; while(e->kind==K_FNEG||e->kind==K_FABS) e=e->k[0]; if(e->kind==K_FSUB&&e->k[0]->hash>e->k[1]->hash) e=fpmk(K_FSUB,S_FP,e->k[1],e->k[0]).e; return fpmk(K_FABS,S_FP,e); }
  Expr*x=nx(a,fk); if(x->lo>=0) return a; if(x->hi<=0) return num_neg(a,fk);
  Val c=num_cmp(C_LT,a,ld_val(0,fk),fk); if(!c.e) return c.c?num_neg(a,fk):a;
  Val r=mk_ite(c.e,num_neg(a,fk),a,64,true,fk); return r; }
Val num_sqrt(Val a,FK fk){ norm(a,fk); if(conc(a)){ long double v=val_ld(a,fk); if(fk==FK_F64) return CV(asb(sqrt((double)v))); if(fk==FK_F32) return ld_val(sqrtf((float)v),fk); return ld_val(sqrtl(v),fk);} 
  if(is_fp(a)) return fpmk(K_FSQRT,S_FP,a.e);
  Expr*x=nx(a,fk); if(x->lo<0) engine_fail("square root of a value that may be negative");
  Expr t{}; t.kind=K_VAR; t.sort=S_NUM; t.inexact=1; t.var=(int)g_vars.size(); t.lo=dn(sqrt(x->lo)); if(t.lo<0) t.lo=0; t.hi=up(sqrt(x->hi)); Expr*e=intern(t);
  std::string zn="root!"+std::to_string(e->var); Z3_ast v=keep(Z3_mk_const(Z,Z3_mk_string_symbol(Z,zn.c_str()),sReal)); e->z=v; Z3_ast sq[2]={v,v};
  Z3_solver_assert(Z,S,keep(Z3_mk_ge(Z,v,keep(Z3_mk_int(Z,0,sReal))))); Z3_solver_assert(Z,S,keep(Z3_mk_eq(Z,keep(Z3_mk_mul(Z,2,sq)),zreal(x))));
  g_vars.push_back(VarInfo{"root",S_NUM,0,'e',0,0,e,false});
  return EV(round_result(e,fk)); }
Val num_conv(Val a,FK f,FK t){ norm(a,f); if(f==t) return a; if(conc(a)) return ld_val(val_ld(a,f),t); if(is_fp(a)) engine_fail("fp conv");
  Expr*x=nx(a,f); if(mant(t)>=mant(f)) return a; double m=std::max(fabs(x->lo),fabs(x->hi)); if(!x->inexact&&m*ldexp(1.0,x->sc)<=ldexp(1.0,mant(t))) return a;
  return EV(round_result(x,t)); }
Val mk_ite(Expr*c,Val a,Val b,int w,bool isnum,FK fk){
  if(is_const(c)) return c->c?a:b;
  if(c->kind==K_NOT) return mk_ite(c->k[0],b,a,w,isnum,fk);
  if(a.e==b.e&&a.c==b.c) return a;
  if(a.e&&a.e->kind==K_ITE&&a.e->k[0]==c){ Expr*n=a.e->k[1]; a= (n->kind==K_CONST&&n->sort==S_NUM)?ld_val(n->nc,fk):V(n);} 
  if(b.e&&b.e->kind==K_ITE&&b.e->k[0]==c){ Expr*n=b.e->k[2]; b= (n->kind==K_CONST&&n->sort==S_NUM)?ld_val(n->nc,fk):V(n);} 
  bool num=(a.e&&a.e->sort==S_NUM)||(b.e&&b.e->sort==S_NUM); bool fp=(a.e&&a.e->sort==S_FP)||(b.e&&b.e->sort==S_FP);
  Expr t{}; t.kind=K_ITE; t.k[0]=c;
  if(fp){ t.sort=S_FP; t.w=64; t.k[1]=fpx(a); t.k[2]=fpx(b); return EV(intern(t)); }
  if(num||isnum){ Expr*x=nx(a,fk),*y=nx(b,fk); 
    t.sort=S_NUM; t.k[1]=x; t.k[2]=y; t.inexact=x->inexact||y->inexact; t.sc=std::max(x->sc,y->sc); if(t.inexact) t.sc=0; t.lo=std::min(x->lo,y->lo); t.hi=std::max(x->hi,y->hi);
    if(x->kind==K_CONST&&y->kind==K_CONST&&x->nc==y->nc) return a; 
    return EV(intern(t)); }
  if(w==1){ // boolean ite
    if(!a.e&&!b.e) { if(a.c==b.c) return a; return a.c?EV(c):bool_not(EV(c)); }
    if(!a.e) return a.c?bv_bin(K_OR,EV(c),b,1):bv_bin(K_AND,bool_not(EV(c)),b,1);
    if(!b.e) return b.c?bv_bin(K_OR,bool_not(EV(c)),a,1):bv_bin(K_AND,EV(c),a,1);
  }
  if(!a.e&&!b.e&&((a.c^b.c)&mask(w))==0) return a;
  t.sort=w==1?S_BOOL:S_BV; t.w=w; t.k[1]=X(a,w); t.k[2]=X(b,w); if(t.k[1]==t.k[2]) return a; return EV(intern(t));
}
