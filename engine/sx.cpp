// sx: symbolic executor for LLVM IR (see DESIGN.md).  usage: sx MODULE.bc --out DIR [options]
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sched.h>
#include <time.h>
#include <map>
#include <set>
#include <list>
#include <typeinfo>
#include <cxxabi.h>
#include <unordered_set>
using namespace llvm;
using std::string; using std::vector;

// ------------------------------------------------------------------ shared state
static const int MAXLAB=256, MAXINS=400000, MAXFN=20000;
struct Shared {
  volatile int tokens; volatile int stop; volatile int error; char errmsg[2000];
  volatile u64 paths, assumed, queries, sat, unsat, ns, maxns, instrs, forks, branches, violations, asserts_checked, asserts_concrete, maxpathins, samples, live;
  volatile int lablock; volatile int nlab; char lab[MAXLAB][64]; volatile u64 labhits[MAXLAB];
  volatile uint8_t cov[MAXINS]; volatile uint8_t fncov[MAXFN];
};
static Shared* sh;
void stat_query(bool sat,u64 ns){ __sync_fetch_and_add(&sh->queries,1); __sync_fetch_and_add(sat?&sh->sat:&sh->unsat,1); __sync_fetch_and_add(&sh->ns,ns); if(ns>sh->maxns) sh->maxns=ns; }
static bool o_fpfork=false; // fork on floating point selections in the bit-precise mode
static string o_out="."; static u64 o_maxins=30000000; static int o_jobs=8; static u64 o_maxdepth=4000; static int o_maxviol=3; static u64 o_maxpaths=0; static int o_samples=40; static double o_timelimit=0; static bool o_leak=false; static string o_repo="/repo"; static bool o_uninit=true;
static int g_root=0; static bool g_isroot=true; static bool g_hastoken=true; static double g_t0;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void append_file(string const& name,string const& s){ int fd=open((o_out+"/"+name).c_str(),O_WRONLY|O_CREAT|O_APPEND,0644); if(fd>=0){ ssize_t r=write(fd,s.data(),s.size()); (void)r; close(fd);} }
static void release_token(){ if(g_hastoken){ g_hastoken=false; __sync_fetch_and_add(&sh->tokens,1);} }
[[noreturn]] static void proc_exit(int code){ release_token(); _exit(code); }
static string where();
static u64 g_ins=0, g_insflushed=0;
static bool g_lazy=false; // while translating: what cannot be translated fails only when it is executed
[[noreturn]] void engine_fail(string const& msg){ if(g_lazy) throw EngineError{msg};
  string m=msg+" | at "+where();
  if(__sync_bool_compare_and_swap(&sh->error,0,1)) snprintf(sh->errmsg,sizeof sh->errmsg,"%s",m.c_str());
  sh->stop=1; append_file("engine.log","ENGINE-ERROR "+m+"\n"+dump_model()); proc_exit(3); }

// ------------------------------------------------------------------ memory
static const u64 A0=0x1000000000ULL, ASZ=1ULL<<32, SH0=0x3000000000ULL; // arena and its shadow
static const u64 F0=0x5000000000ULL;                                     // function addresses
static const u64 STK0=A0+(1ULL<<31), STKSZ=1ULL<<28; 
enum : uint8_t { M_NONE=0,M_INIT=1,M_UNINIT=2,M_SYM=3,M_FREED=4,M_CONST=5,M_DEAD=6 };
static u64 hp=A0+4096, stp=STK0+4096;
static inline uint8_t* shp(u64 a){ return (uint8_t*)(SH0+(a-A0)); }
static inline bool inA(u64 a,u64 n){ return a>=A0&&a<A0+ASZ&&n<=A0+ASZ-a; }
struct SymB { Expr* e; uint8_t idx, n; };
static std::unordered_map<u64,SymB> g_sym;
struct Block { u64 size; char kind; }; // kind: n new, a new[], m malloc
static std::map<u64,Block> g_blocks; static u64 g_livebytes=0;
static bool g_native=false;      // executing a native external
static u64 heap_alloc(u64 n,char kind,u64 align=16){ u64 a=(hp+align-1)/align*align; if(a+n+32>STK0) engine_fail("arena exhausted"); hp=a+n+32; memset(shp(a),M_UNINIT,n); g_blocks[a]={n,kind}; g_livebytes+=n; return a; }

enum VKind { V_ASSERT,V_MEM,V_EXC,V_TERM,V_LOOP,V_ABORT,V_UNINIT,V_LEAK };
static void violation(VKind k,string const& msg);

static vector<std::pair<u64,u64>> g_maps;
static void read_maps(){ g_maps.clear(); FILE*f=fopen("/proc/self/maps","r"); char l[600]; while(fgets(l,sizeof l,f)){ unsigned long a,b; char p[8]; if(sscanf(l,"%lx-%lx %7s",&a,&b,p)==3&&p[0]=='r'&&(strstr(l,".so")||(!strchr(l,'/')&&!strchr(l,'[')&&g_maps.size()&&g_maps.back().second==a))) g_maps.push_back({a,b}); } fclose(f); }
static bool native_readable(u64 a,u64 n){ for(auto&m:g_maps) if(a>=m.first&&a+n<=m.second) return true; return false; }

static string addr_desc(u64 a){ char b[200]; if(!inA(a,1)){ snprintf(b,200,"address 0x%lx outside any object",(unsigned long)a); return b; }
  auto it=g_blocks.upper_bound(a); if(it!=g_blocks.begin()){ --it; if(a<it->first+it->second.size+32){ snprintf(b,200,"offset %ld of a %lu byte heap block",(long)(a-it->first),(unsigned long)it->second.size); return b; } } return "stack or global memory"; }
static void badaccess(u64 a,u64 n,bool wr){ const char* st="invalid"; if(inA(a,n)) for(u64 i=0;i<n;i++){ uint8_t s=*shp(a+i); if(s==M_FREED) st="freed"; else if(s==M_DEAD) st="out-of-scope stack"; else if(s==M_CONST&&wr) st="read-only"; }
  violation(V_MEM,string(wr?"write to ":"read of ")+st+" memory: "+std::to_string(n)+" bytes at "+addr_desc(a)); }
static void chk_access(u64 a,u64 n,bool wr){ if(n==0) return; if(!inA(a,n)){ if(!wr&&native_readable(a,n)) return; badaccess(a,n,wr); return; }
  for(u64 i=0;i<n;i++){ uint8_t s=*shp(a+i); if(s==M_NONE||s==M_FREED||s==M_DEAD||(wr&&s==M_CONST)) badaccess(a,n,wr); } }

static Val mem_load(u64 a,int n){ // n bytes (1..8), integer view
  if(!inA(a,n)){ if(!native_readable(a,n)) badaccess(a,n,false); u64 v=0; memcpy(&v,(void*)a,n); return CV(v); }
  uint8_t* s=shp(a); bool fast=true; for(int i=0;i<n;i++) if(s[i]!=M_INIT&&s[i]!=M_CONST){ fast=false; break; }
  if(fast){ u64 v=0; memcpy(&v,(void*)a,n); return CV(v); }
  for(int i=0;i<n;i++) if(s[i]==M_NONE||s[i]==M_FREED||s[i]==M_DEAD) badaccess(a,n,false);
  if(s[0]==M_SYM){ SymB&b=g_sym[a]; if(b.idx==0&&b.n==n){ bool same=true; for(int i=1;i<n&&same;i++){ if(s[i]!=M_SYM) same=false; else { SymB&c=g_sym[a+i]; if(c.e!=b.e||c.idx!=i) same=false; } } if(same) return EV(b.e); } }
  // assemble bytewise
  Val r; int w=0; Expr* undef=nullptr;
  for(int i=0;i<n;){ 
    Val p; int pw;
    if(s[i]==M_SYM){ SymB b=g_sym[a+i]; int j=i+1; while(j<n&&s[j]==M_SYM&&g_sym[a+j].e==b.e&&g_sym[a+j].idx==b.idx+(j-i)) j++; 
      pw=(j-i)*8; int ew=b.e->sort==S_BOOL?1:(b.e->sort==S_BV?b.e->w:b.n*8); 
      if(b.e->sort==S_BOOL) p=bv_extract(bv_zext(EV(b.e),1,b.n*8),b.n*8,b.idx*8,pw); else { Val v=EV(b.e); if(b.e->sort==S_NUM){ if(!(b.idx==0&&j-i==b.n&&n==b.n)) engine_fail("partial load of a real-mode double"); } if(ew<b.n*8) { v=bv_zext(v,ew,b.n*8); } p=bv_extract(v,b.n*8,b.idx*8,pw); }
      i=j; }
    else if(s[i]==M_UNINIT){ int j=i+1; while(j<n&&s[j]==M_UNINIT) j++; pw=(j-i)*8; if(o_uninit) { 
        p=EV(mk_undef(pw)); } else p=CV(0); 
        // make the undef sticky so that repeated loads agree
        if(p.e) for(int q=i;q<j;q++){ s[q]=M_SYM; g_sym[a+q]={p.e,(uint8_t)(q-i),(uint8_t)(j-i)}; }
        i=j; }
    else { u64 v=0; int j=i; while(j<n&&(s[j]==M_INIT||s[j]==M_CONST)) j++; memcpy(&v,(void*)(a+i),j-i); p=CV(v); pw=(j-i)*8; i=j; }
    if(w==0){ r=p; w=pw; } else { r=bv_concat(p,pw,r,w); w+=pw; }
  }
  return r;
}
static inline void mem_store(u64 a,int n,Val v){
  if(!inA(a,n)) badaccess(a,n,true);
  uint8_t*s=shp(a); for(int i=0;i<n;i++){ uint8_t q=s[i]; if(!(q==M_INIT||q==M_UNINIT||q==M_SYM)) badaccess(a,n,true); }
  if(!v.e){ memcpy((void*)a,&v.c,n); memset(s,M_INIT,n); return; }
  if(v.e->kind==K_CONST&&v.e->sort!=S_NUM){ u64 c=v.e->c; memcpy((void*)a,&c,n); memset(s,M_INIT,n); return; }
  memset(s,M_SYM,n); u64 junk=0xAAAAAAAAAAAAAAAAULL; memcpy((void*)a,&junk,n>8?8:n);
  for(int i=0;i<n;i++) g_sym[a+i]={v.e,(uint8_t)i,(uint8_t)n};
}
static void mem_copy(u64 d,u64 s,u64 n){ if(!n) return; chk_access(s,n,false); chk_access(d,n,true);
  if(!inA(s,n)){ memcpy((void*)d,(void*)s,n); memset(shp(d),M_INIT,n); return; }
  vector<uint8_t> st(shp(s),shp(s)+n); bool sym=false; for(auto x:st) if(x==M_SYM) sym=true;
  vector<SymB> sb; if(sym){ sb.resize(n); for(u64 i=0;i<n;i++) if(st[i]==M_SYM) sb[i]=g_sym[s+i]; }
  memmove((void*)d,(void*)s,n);
  for(u64 i=0;i<n;i++){ uint8_t q=st[i]; if(q==M_CONST) q=M_INIT; *shp(d+i)=q; if(q==M_SYM) g_sym[d+i]=sb[i]; } }

// operator new used by natively executed library code must allocate in the arena
static void* nat_new(size_t n){ if(g_native){ g_native=false; void*q=(void*)heap_alloc(n,'n'); g_native=true; return q; } void*p=malloc(n); if(!p) abort(); return p; }
static void heap_free(u64 a,char kind);
void* operator new(size_t n){ return nat_new(n); }
void* operator new[](size_t n){ return nat_new(n); }
void operator delete(void*p) noexcept { if((u64)p>=A0&&(u64)p<A0+ASZ) heap_free((u64)p,'n'); else free(p); }
void operator delete[](void*p) noexcept { operator delete(p); }
void operator delete(void*p,size_t) noexcept { operator delete(p); }
void operator delete[](void*p,size_t) noexcept { operator delete(p); }
static void heap_free(u64 a,char kind){ if(!a) return; auto it=g_blocks.find(a); 
  if(it==g_blocks.end()){ string st= inA(a,1)&&*shp(a)==M_FREED?"double free":"free of something that is not an allocated block"; violation(V_MEM,st+": "+addr_desc(a)); return; }
  if(it->second.kind!=kind) { violation(V_MEM,"allocation and deallocation functions do not match"); }
  memset(shp(a),M_FREED,it->second.size); memset((void*)a,0xDB,it->second.size); g_livebytes-=it->second.size; g_blocks.erase(it); }

// ------------------------------------------------------------------ translated code
enum Op : uint8_t { O_BIN,O_CMP,O_FBIN,O_FNEG,O_FCMP,O_LOAD,O_STORE,O_GEP,O_CAST,O_SELECT,O_PHI,O_BR,O_CBR,O_SWITCH,O_RET,O_CALL,O_INVOKE,O_ALLOCA,O_UNREACH,O_LANDING,O_RESUME,O_EXTRACTV,O_INSERTV,O_RMW,O_CMPXCHG,O_FENCE,O_FREEZE,O_BAD };
struct Ty { uint8_t k; uint16_t w; int slots; u64 bytes; }; // k: i int, p ptr, f float, d double, l fp80, s struct/array, v void
struct Opd { int slot; Val c; };   // slot>=0: register, else constant (multi-slot constants in consts vector)
struct GepStep { Opd idx; u64 scale; int w; };
struct Ins { Op op; uint8_t sub; Ty ty; Ty ty2; int dst; vector<Opd> ops; vector<GepStep> gs; i64 off; Instruction* I; int id; 
  Function* callee=nullptr; int intr=0; vector<u64> swv; int t1=-1,t2=-1; vector<int> targets; vector<Ty> argty; void* ext=nullptr; bool cov=false; };
struct Blk { vector<Ins> ins; int nphi; BasicBlock* bb; };
struct Fn { Function* F; bool done=false; vector<Blk> blks; int nslots; vector<int> argslots; vector<Ty> argty; int id; bool inrepo=false; };
struct Frame { Fn* f; vector<Val> r; int blk, ip, prev; u64 stk; int dst; Ty rty; int invokeUnwind=-1; bool boundary=false; vector<u64> varargs; vector<std::pair<Val,Ty>> va; };
static LLVMContext ctx; static Module* mod; static const DataLayout* DL;
static std::map<Function*,Fn*> g_fns; static vector<Fn*> g_fnlist; static std::unordered_map<u64,Function*> g_fnaddr; static std::map<const GlobalValue*,u64> g_gaddr;
static int g_nins=0; static vector<Instruction*> g_insById;
static vector<Frame>* g_stack; 
struct Thread { vector<Frame> st; bool done=false; };
static int g_curthr=0; static bool g_par=false;

static string where(){ string s; if(!g_stack) return "(init)"; int n=0; for(int i=(int)g_stack->size()-1;i>=0&&n<10;i--,n++){ Frame&f=(*g_stack)[i]; if(f.blk<0) continue; Blk&b=f.f->blks[f.blk]; int ip=f.ip; if(ip>0&&i!=(int)g_stack->size()-1) ip=ip; if(ip>=(int)b.ins.size()) ip=b.ins.size()-1; 
    Instruction*I=b.ins.size()?b.ins[ip].I:nullptr; string loc; if(I) if(DILocation* d=I->getDebugLoc()) loc=d->getFilename().str()+":"+std::to_string(d->getLine()); string nm=demangle(f.f->F->getName().str()); if(nm.size()>90) nm=nm.substr(0,90); s+=(n?" <- ":"")+nm+"@"+loc; } return s; }

static Ty mkty(Type*t){ Ty r{}; r.slots=1; if(t->isVoidTy()){ r.k='v'; r.slots=0; return r;} if(t->isIntegerTy()){ r.k='i'; r.w=t->getIntegerBitWidth(); if(r.w>64){ if(g_lazy){ r.k='?'; r.bytes=(r.w+7)/8; return r; } engine_fail("integer wider than 64 bits"); } r.bytes=(r.w+7)/8; return r; }
  if(t->isPointerTy()){ r.k='p'; r.w=64; r.bytes=8; return r;} if(t->isFloatTy()){ r.k='f'; r.w=32; r.bytes=4; return r;} if(t->isDoubleTy()){ r.k='d'; r.w=64; r.bytes=8; return r; }
  if(t->isX86_FP80Ty()){ r.k='l'; r.w=80; r.bytes=10; return r; }
  if(auto*s=dyn_cast<StructType>(t)){ r.k='s'; r.slots=0; for(auto*e:s->elements()) r.slots+=mkty(e).slots; return r; }
  if(auto*a=dyn_cast<ArrayType>(t)){ r.k='s'; r.slots=a->getNumElements()*mkty(a->getElementType()).slots; return r; }
  if(auto*v=dyn_cast<FixedVectorType>(t)){ r.k='x'; r.w=0; Ty e=mkty(v->getElementType()); r.slots=v->getNumElements(); r.bytes=e.bytes*r.slots; r.w=e.w; return r; }
  if(g_lazy){ r.k='?'; r.bytes=8; return r; } string s; raw_string_ostream os(s); t->print(os); engine_fail("unsupported type "+s); }
static FK fk_of(Ty const&t){ return t.k=='f'?FK_F32:t.k=='d'?FK_F64:FK_LD; }

static u64 fn_addr(Function*F){ auto it=g_gaddr.find(F); if(it!=g_gaddr.end()) return it->second; u64 a;
  a=F0+16*(g_gaddr.size()+1); g_gaddr[F]=a; g_fnaddr[a]=F; return a; }
static std::set<string> g_extglobals;
static u64 glob_addr(const GlobalValue*g){ if(auto*a=dyn_cast<GlobalAlias>(g)) return glob_addr(cast<GlobalValue>(a->getAliasee()->stripPointerCasts()));
  if(auto*F=dyn_cast<Function>(g)) return fn_addr(const_cast<Function*>(F));
  auto it=g_gaddr.find(g); if(it!=g_gaddr.end()) return it->second;
  const GlobalVariable*v=cast<GlobalVariable>(g);
  if(v->isDeclaration()){ void*p=dlsym(RTLD_DEFAULT,v->getName().str().c_str()); if(!p){ if(v->hasExternalWeakLinkage()||v->getName()=="__dso_handle"){ g_gaddr[g]=0; return 0;} engine_fail("unknown external variable "+v->getName().str()); } g_gaddr[g]=(u64)p; return (u64)p; }
  u64 n=DL->getTypeAllocSize(v->getValueType()); u64 al=std::max<u64>(16,v->getAlign()?v->getAlign()->value():16); u64 a=(hp+al-1)/al*al; hp=a+n+32; memset(shp(a),M_INIT,n); g_gaddr[g]=a; return a; }

static void const_vals(Constant*C,vector<Val>& out);
static Val const_val(Constant*C){ vector<Val> v; const_vals(C,v); if(v.size()!=1) engine_fail("multi-slot constant"); return v[0]; }
static void const_vals(Constant*C,vector<Val>& out){
  Type*t=C->getType();
  if(auto*ci=dyn_cast<ConstantInt>(C)){ out.push_back(CV(ci->getValue().getZExtValue())); return; }
  if(auto*cf=dyn_cast<ConstantFP>(C)){ if(t->isX86_FP80Ty()){ APInt b=cf->getValueAPF().bitcastToAPInt(); long double ld=0; memcpy(&ld,b.getRawData(),10); out.push_back(EV(mk_num(ld))); } else out.push_back(CV(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if(isa<ConstantPointerNull>(C)){ out.push_back(CV(0)); return; }
  if(isa<UndefValue>(C)){ int n=mkty(t).slots; for(int i=0;i<n;i++) out.push_back(t->isX86_FP80Ty()?EV(mk_num(0)):CV(0)); return; }
  if(isa<ConstantAggregateZero>(C)){ int n=mkty(t).slots; for(int i=0;i<n;i++) out.push_back(CV(0)); return; }
  if(auto*g=dyn_cast<GlobalValue>(C)){ out.push_back(CV(glob_addr(g))); return; }
  if(isa<ConstantStruct>(C)||isa<ConstantArray>(C)||isa<ConstantVector>(C)){ for(unsigned i=0;i<C->getNumOperands();i++) const_vals(cast<Constant>(C->getOperand(i)),out); return; }
  if(auto*cd=dyn_cast<ConstantDataSequential>(C)){ for(unsigned i=0;i<cd->getNumElements();i++) const_vals(cd->getElementAsConstant(i),out); return; }
  if(auto*ce=dyn_cast<ConstantExpr>(C)){
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr: { APInt off(64,0); if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)) engine_fail("const gep"); out.push_back(CV(const_val(ce->getOperand(0)).c+off.getSExtValue())); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: out.push_back(const_val(ce->getOperand(0))); return;
      case Instruction::Sub: out.push_back(CV(const_val(ce->getOperand(0)).c-const_val(ce->getOperand(1)).c)); return;
      case Instruction::Add: out.push_back(CV(const_val(ce->getOperand(0)).c+const_val(ce->getOperand(1)).c)); return;
      case Instruction::Trunc: out.push_back(CV(const_val(ce->getOperand(0)).c&(mkty(t).w>=64?~0ULL:(1ULL<<mkty(t).w)-1))); return;
      default: engine_fail("constant expression "+string(ce->getOpcodeName()));
    } }
  engine_fail("unsupported constant");
}
static void init_mem(u64 a,Constant*C){
  Type*t=C->getType(); u64 n=DL->getTypeAllocSize(t);
  if(isa<ConstantAggregateZero>(C)||isa<ConstantPointerNull>(C)){ memset((void*)a,0,n); return; }
  if(isa<UndefValue>(C)){ return; }
  if(auto*s=dyn_cast<ConstantStruct>(C)){ auto*L=DL->getStructLayout(s->getType()); for(unsigned i=0;i<s->getNumOperands();i++) init_mem(a+L->getElementOffset(i),s->getOperand(i)); return; }
  if(auto*s=dyn_cast<ConstantArray>(C)){ u64 es=DL->getTypeAllocSize(s->getType()->getElementType()); for(unsigned i=0;i<s->getNumOperands();i++) init_mem(a+i*es,s->getOperand(i)); return; }
  if(auto*s=dyn_cast<ConstantDataSequential>(C)){ StringRef r=s->getRawDataValues(); memcpy((void*)a,r.data(),r.size()); return; }
  if(t->isX86_FP80Ty()){ Val v=const_val(C); long double ld=v.e->nc; memcpy((void*)a,&ld,10); return; }
  Val v=const_val(C); memcpy((void*)a,&v.c,DL->getTypeStoreSize(t));
}

static Fn* get_fn(Function*F){ auto it=g_fns.find(F); if(it!=g_fns.end()) return it->second; Fn*f=new Fn; f->F=F; f->id=g_fnlist.size(); g_fnlist.push_back(f); g_fns[F]=f; 
  if(auto*sp=F->getSubprogram()){ string fn=sp->getFilename().str(); if(fn.compare(0,o_repo.size()+1,o_repo+"/")==0) f->inrepo=true; } return f; }

static void translate(Fn*f){
  if(f->done) return; f->done=true; Function*F=f->F; std::map<Value*,int> slot; int ns=0; std::map<BasicBlock*,int> bi;
  for(auto&A:F->args()){ Ty t=mkty(A.getType()); slot[&A]=ns; f->argslots.push_back(ns); f->argty.push_back(t); ns+=t.slots; }
  for(auto&B:*F){ int n=bi.size(); bi[&B]=n; for(auto&I:B) if(!I.getType()->isVoidTy()&&!I.getType()->isTokenTy()&&!I.getType()->isMetadataTy()){ slot[&I]=ns; ns+=mkty(I.getType()).slots; } }
  f->nslots=ns;
  // multi-slot constants get dedicated slots initialised on entry: handled as sequences of constant operands
  for(auto&B:*F){ f->blks.emplace_back(); Blk&b=f->blks.back(); b.bb=&B; b.nphi=0;
    for(auto&I:B){ if(isa<DbgInfoIntrinsic>(I)) continue; 
      if(auto*II=dyn_cast<IntrinsicInst>(&I)){ auto id=II->getIntrinsicID(); if(id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::assume||id==Intrinsic::invariant_start||id==Intrinsic::invariant_end||id==Intrinsic::sideeffect||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::donothing) continue; }
      Ins n{}; n.I=&I; n.id=g_nins++; g_insById.push_back(&I); n.dst=slot.count(&I)?slot[&I]:-1; n.ty=mkty(I.getType());
      try {
      auto opd=[&](Value*v){ // pushes all slots
        Ty t=v->getType()->isMetadataTy()||v->getType()->isLabelTy()?Ty{}:mkty(v->getType());
        if(auto*c=dyn_cast<Constant>(v)){ vector<Val> cv; const_vals(c,cv); for(auto&x:cv) n.ops.push_back({-1,x}); }
        else if(slot.count(v)){ for(int i=0;i<t.slots;i++) n.ops.push_back({slot[v]+i,Val()}); }
        else engine_fail("operand"); };
      unsigned oc=I.getOpcode();
      if(I.isBinaryOp()){ if(I.getType()->isVectorTy()) engine_fail("vector op"); n.op=I.getType()->isFloatingPointTy()?O_FBIN:O_BIN; n.sub=oc; opd(I.getOperand(0)); opd(I.getOperand(1)); }
      else if(auto*c=dyn_cast<ICmpInst>(&I)){ n.op=O_CMP; n.sub=c->getPredicate(); n.ty2=mkty(c->getOperand(0)->getType()); opd(c->getOperand(0)); opd(c->getOperand(1)); }
      else if(auto*c=dyn_cast<FCmpInst>(&I)){ n.op=O_FCMP; n.sub=c->getPredicate(); n.ty2=mkty(c->getOperand(0)->getType()); opd(c->getOperand(0)); opd(c->getOperand(1)); }
      else if(oc==Instruction::FNeg){ n.op=O_FNEG; opd(I.getOperand(0)); }
      else if(auto*l=dyn_cast<LoadInst>(&I)){ n.op=O_LOAD; n.ty2=n.ty; opd(l->getPointerOperand()); if(n.ty.k=='s') engine_fail("aggregate load"); }
      else if(auto*s=dyn_cast<StoreInst>(&I)){ n.op=O_STORE; n.ty2=mkty(s->getValueOperand()->getType()); if(n.ty2.k=='s') engine_fail("aggregate store"); opd(s->getPointerOperand()); opd(s->getValueOperand()); }
      else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ n.op=O_GEP; opd(g->getPointerOperand()); n.off=0;
        for(auto gi=gep_type_begin(g);gi!=gep_type_end(g);++gi){ Value*v=gi.getOperand(); if(StructType*st=gi.getStructTypeOrNull()) n.off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue());
          else { u64 sc=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*c=dyn_cast<ConstantInt>(v)) n.off+=c->getSExtValue()*(i64)sc; else { Opd o{slot.count(v)?slot[v]:-1,Val()}; if(o.slot<0) o.c=const_val(cast<Constant>(v)); n.gs.push_back({o,sc,mkty(v->getType()).w}); } } } }
      else if(isa<CastInst>(I)){ n.op=O_CAST; n.sub=oc; n.ty2=mkty(I.getOperand(0)->getType()); if(n.ty.k=='x'||n.ty2.k=='x'){ engine_fail("vector cast"); } opd(I.getOperand(0)); }
      else if(auto*s=dyn_cast<SelectInst>(&I)){ n.op=O_SELECT; opd(s->getCondition()); opd(s->getTrueValue()); opd(s->getFalseValue()); }
      else if(auto*p=dyn_cast<PHINode>(&I)){ n.op=O_PHI; for(unsigned i=0;i<p->getNumIncomingValues();i++){ n.targets.push_back(bi[p->getIncomingBlock(i)]); opd(p->getIncomingValue(i)); } b.nphi++; }
      else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()){ n.op=O_CBR; opd(br->getCondition()); n.t1=bi[br->getSuccessor(0)]; n.t2=bi[br->getSuccessor(1)]; } else { n.op=O_BR; n.t1=bi[br->getSuccessor(0)]; } }
      else if(auto*sw=dyn_cast<SwitchInst>(&I)){ n.op=O_SWITCH; n.ty2=mkty(sw->getCondition()->getType()); opd(sw->getCondition()); for(auto&c:sw->cases()){ n.swv.push_back(c.getCaseValue()->getZExtValue()); n.targets.push_back(bi[c.getCaseSuccessor()]); } n.t1=bi[sw->getDefaultDest()]; }
      else if(isa<ReturnInst>(I)){ n.op=O_RET; if(I.getNumOperands()) opd(I.getOperand(0)); }
      else if(auto*cb=dyn_cast<CallBase>(&I)){ n.op=isa<InvokeInst>(I)?O_INVOKE:O_CALL; if(isa<CallBrInst>(I)) engine_fail("callbr"); if(cb->isInlineAsm()) engine_fail("inline asm");
        n.callee=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if(n.callee) n.intr=n.callee->getIntrinsicID();
        if(n.intr!=Intrinsic::eh_typeid_for||true){ for(auto&a:cb->args()){ Value*v=a.get(); if(v->getType()->isMetadataTy()) continue; n.argty.push_back(mkty(v->getType())); opd(v); 
            } }
        if(!n.callee) opd(cb->getCalledOperand());
        if(auto*iv=dyn_cast<InvokeInst>(&I)){ n.t1=bi[iv->getNormalDest()]; n.t2=bi[iv->getUnwindDest()]; } }
      else if(auto*al=dyn_cast<AllocaInst>(&I)){ n.op=O_ALLOCA; n.off=DL->getTypeAllocSize(al->getAllocatedType()); opd(al->getArraySize()); n.sub=0; }
      else if(isa<UnreachableInst>(I)) n.op=O_UNREACH;
      else if(isa<LandingPadInst>(I)) n.op=O_LANDING;
      else if(isa<ResumeInst>(I)){ n.op=O_RESUME; opd(I.getOperand(0)); }
      else if(auto*e=dyn_cast<ExtractValueInst>(&I)){ n.op=O_EXTRACTV; Type*t=e->getAggregateOperand()->getType(); int o=0; for(unsigned ix:e->indices()){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned j=0;j<ix;j++) o+=mkty(st->getElementType(j)).slots; t=st->getElementType(ix);} else { t=cast<ArrayType>(t)->getElementType(); o+=ix*mkty(t).slots; } } n.off=o; opd(e->getAggregateOperand()); }
      else if(auto*e=dyn_cast<InsertValueInst>(&I)){ n.op=O_INSERTV; Type*t=e->getAggregateOperand()->getType(); int o=0; for(unsigned ix:e->indices()){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned j=0;j<ix;j++) o+=mkty(st->getElementType(j)).slots; t=st->getElementType(ix);} else { t=cast<ArrayType>(t)->getElementType(); o+=ix*mkty(t).slots; } } n.off=o; n.ty2=mkty(e->getInsertedValueOperand()->getType()); opd(e->getAggregateOperand()); opd(e->getInsertedValueOperand()); }
      else if(auto*r=dyn_cast<AtomicRMWInst>(&I)){ n.op=O_RMW; n.sub=r->getOperation(); opd(r->getPointerOperand()); opd(r->getValOperand()); }
      else if(auto*c=dyn_cast<AtomicCmpXchgInst>(&I)){ n.op=O_CMPXCHG; n.ty2=mkty(c->getCompareOperand()->getType()); opd(c->getPointerOperand()); opd(c->getCompareOperand()); opd(c->getNewValOperand()); }
      else if(isa<FenceInst>(I)) n.op=O_FENCE;
      else if(isa<FreezeInst>(I)){ n.op=O_FREEZE; opd(I.getOperand(0)); }
      else { string s; raw_string_ostream os(s); I.print(os); engine_fail("unsupported instruction "+s); }
      if(n.ty.k=='?'||n.ty2.k=='?') throw EngineError{"unsupported type"}; for(unsigned q=0;q<I.getNumOperands();q++) if(!I.getOperand(q)->getType()->isLabelTy()&&!I.getOperand(q)->getType()->isMetadataTy()&&!I.getOperand(q)->getType()->isFunctionTy()&&!I.getOperand(q)->getType()->isTokenTy()&&mkty(I.getOperand(q)->getType()).k=='?') throw EngineError{"unsupported type"};
      } catch(EngineError& e){ string t; raw_string_ostream os(t); I.print(os); Ins q{}; q.I=&I; q.id=n.id; q.dst=n.dst; q.ty=n.ty; q.op=O_BAD; q.ext=new string(e.msg+" (cannot be executed: "+t+")"); n=std::move(q); if(isa<PHINode>(I)){ g_lazy=false; engine_fail(e.msg+" "+t); } }
      b.ins.push_back(std::move(n)); } }
}

// ------------------------------------------------------------------ path control
static vector<std::pair<Val,char>> g_trace; static bool g_inexact_used=false;
static string g_schedule;
static void flush_ins(){ __sync_fetch_and_add(&sh->instrs,g_ins-g_insflushed); g_insflushed=g_ins; if(g_ins>sh->maxpathins) sh->maxpathins=g_ins; }
[[noreturn]] static void path_end(bool complete){
  flush_ins();
  if(complete){ u64 n=__sync_add_and_fetch(&sh->paths,1);
    bool noSample=false; for(auto&v:g_vars) if(v.type=='e') noSample=true;
    // keep a spread of samples: the first ones, then geometrically spaced
    bool want = n<= (u64)o_samples/2 || (n%((sh->samples+1)*(sh->samples+1)/8+1)==0 && sh->samples<(u64)o_samples);
    if(want&&!noSample&&g_schedule.empty()&&!g_par){ string s="PATH\n"+dump_model(); bool ok=true; string t;
      for(auto&p:g_trace){ if(p.second=='d'){ if(!p.first.e){ double d; memcpy(&d,&p.first.c,8); char b[64]; snprintf(b,64,"T %a\n",d); t+=b; }
            else { i128 v; if(!sol_eval(p.first.e,v)){ ok=false; break;} char b[64]; double d; if(p.first.e->sort==S_NUM) d=(double)ldexpl((long double)v,-p.first.e->sc); else { u64 u=(u64)v; memcpy(&d,&u,8);} snprintf(b,64,"T %a\n",d); t+=b; } }
        else { i128 v=p.first.c; if(p.first.e&&!sol_eval(p.first.e,v)){ ok=false; break; } char b[64]; snprintf(b,64,"T %ld\n",(long)v); t+=b; } }
      if(ok){ s+=t+"END\n"; append_file("samples.txt",s); __sync_fetch_and_add(&sh->samples,1);} }
    if(o_maxpaths&&n>=o_maxpaths) sh->stop=2; }
  else __sync_fetch_and_add(&sh->assumed,1);
  proc_exit(0);
}
static bool g_noreport=false;
static void violation(VKind k,string const& msg){
  static const char* kn[]={"assert","memory","exception","terminate","nontermination","abort","uninit","leak"};
  u64 n=__sync_add_and_fetch(&sh->violations,1); flush_ins();
  if(n<=(u64)o_maxviol){ string f="violation-"+std::to_string(n)+".replay"; string s="# kind "+string(kn[k])+"\n# msg "+msg+"\n# at "+where()+"\n"; if(g_schedule.size()) s+="# schedule "+g_schedule+"\n"; s+=dump_model(); append_file(f,s); }
  if(n>=(u64)o_maxviol) sh->stop=1;
  proc_exit(0);
}
static int do_fork(){ // returns 0 in child. parent may wait for the child first
  __sync_fetch_and_add(&sh->forks,1);
  int t=sh->tokens; bool par=false; while(t>0){ if(__sync_bool_compare_and_swap(&sh->tokens,t,t-1)){ par=true; break;} t=sh->tokens; }
  pid_t p=fork();
  if(p<0){ if(par) __sync_fetch_and_add(&sh->tokens,1); engine_fail("fork failed"); }
  if(p==0){ g_isroot=false; g_hastoken=par; g_insflushed=g_ins; return 0; }
  if(!par){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(!(WIFEXITED(st)&&(WEXITSTATUS(st)==0||WEXITSTATUS(st)==3))&&!sh->stop){ if(__sync_bool_compare_and_swap(&sh->error,0,1)) snprintf(sh->errmsg,sizeof sh->errmsg,"child died with status %x",st); sh->stop=1; } }
  if(sh->stop) proc_exit(0);
  return 1;
}
static bool taintcheck(Expr*e,const char*what){ if(e->taint){ violation(V_UNINIT,string("use of an uninitialised value in ")+what); } return false; }
// decides a boolean condition, forking when both sides are feasible
static bool decide(Val c,const char*what="a branch"){
  if(!c.e) return c.c&1; if(is_const(c.e)) return c.e->c;
  taintcheck(c.e,what);
  __sync_fetch_and_add(&sh->branches,1);
  i128 v; bool side; bool known=sol_eval(c.e,v);
  if(known){ side=v!=0; 
    bool other; { // check the other side without disturbing the model
      vector<i128> save; save.reserve(g_vars.size()); for(auto&x:g_vars) save.push_back(x.val);
      other=sol_check(c.e,side,true);   // assert not-side
      if(!other) { sol_assert(c.e,!side); return side; }
      // both feasible: child takes the other side with the new model
      if(do_fork()==0){ sol_assert(c.e,side); return !side; }
      for(size_t i=0;i<save.size();i++) g_vars[i].val=save[i]; g_epoch++;
      sol_assert(c.e,!side); return side; } }
  else {
    bool t=sol_check(c.e,false,true); vector<i128> mt; for(auto&x:g_vars) mt.push_back(x.val);
    bool f=sol_check(c.e,true,true);
    if(t&&!f){ for(size_t i=0;i<mt.size();i++) g_vars[i].val=mt[i]; g_epoch++; sol_assert(c.e,false); return true; }
    if(f&&!t){ sol_assert(c.e,true); return false; }
    if(!t&&!f) engine_fail("path condition became unsatisfiable");
    if(do_fork()==0){ sol_assert(c.e,true); return false; }
    for(size_t i=0;i<mt.size();i++) g_vars[i].val=mt[i]; g_epoch++; sol_assert(c.e,false); return true; }
}
static u64 concretise(Val v,int w,const char*what="an address"){ 
  if(!v.e) return v.c; if(v.e->sort==S_FP) v=fp_bits(v); if(!v.e) return v.c;
  if(v.e->sort==S_NUM) engine_fail("concretising a real-mode value as integer");
  taintcheck(v.e,what);
  for(int n=0;;n++){ if(n>4096) engine_fail("too many values to concretise"); i128 x; if(!sol_eval(v.e,x)){ if(!sol_check(mk_bool(true),false,true)) engine_fail("unsat pc"); if(!sol_eval(v.e,x)) engine_fail("cannot evaluate"); }
    Val eq=bv_cmp(K_EQ,v,CV((u64)x),w); if(decide(eq,what)) return (u64)x; } }
static double floor_of(Val a,FK fk){ Expr*e=a.e; double lo=floor(e->lo),hi=floor(e->hi); if(!(hi-lo<1e9)) engine_fail("rounding a value of large range to an integer"); while(lo<hi){ double mid=floor((lo+hi+1)/2); Val lt=num_cmp(C_LT,a,ld_val(mid,fk),fk); if(lt.e?decide(lt,"a rounding"):(lt.c&1)) hi=mid-1; else lo=mid; } return lo; }
static double round_of(string const&n,Val a,FK fk){ if(!a.e||a.e->kind==K_CONST){ double v=(double)val_ld(a,fk); return n=="floor"?floor(v):n=="ceil"?ceil(v):n=="trunc"?trunc(v):n=="round"?round(v):nearbyint(v); }
  if(a.e->sort!=S_NUM) engine_fail("rounding in the bit-precise mode"); if(n=="floor") return floor_of(a,fk); if(n=="ceil") return -floor_of(num_neg(a,fk),fk);
  Val ng=num_cmp(C_LT,a,ld_val(0,fk),fk); bool neg=ng.e?decide(ng,"a sign"):(ng.c&1); Val b=neg?num_neg(a,fk):a; double r; if(!b.e||b.e->kind==K_CONST) r=n=="trunc"?trunc((double)val_ld(b,fk)):round((double)val_ld(b,fk)); else if(n=="trunc") r=floor_of(b,fk); else if(n=="round"){ Val h=num_bin(N_ADD,b,ld_val(0.5,fk),fk); r=h.e&&h.e->kind!=K_CONST?floor_of(h,fk):floor((double)val_ld(h,fk)); } else engine_fail("rounding to even"); return neg?-r:r; }
static void do_assert(Val c,string const& msg){
  if(!c.e||is_const(c.e)){ __sync_fetch_and_add(&sh->asserts_concrete,1); bool b=c.e?c.e->c:(c.c&1); if(!b) violation(V_ASSERT,msg); return; }
  taintcheck(c.e,"an assertion");
  __sync_fetch_and_add(&sh->asserts_checked,1);
  i128 v; if(sol_eval(c.e,v)&&!v) violation(V_ASSERT,msg);
  if(sol_check(c.e,true,true)) violation(V_ASSERT,msg);
  sol_assert(c.e,false);
}
static void do_assume(Val c){ if(!c.e){ if(!(c.c&1)) path_end(false); return; } taintcheck(c.e,"an assumption");
  i128 v; if(sol_eval(c.e,v)&&v){ sol_assert(c.e,false); return; }
  if(!sol_check(c.e,false,true)) path_end(false); sol_assert(c.e,false); }

// ------------------------------------------------------------------ exceptions
struct Exc { u64 obj,ti,dtor; u64 base; };
static std::map<u64,Exc> g_excs;             // by object pointer
struct Caught { u64 obj; int n; }; static vector<Caught> g_caught;
static u64 g_unw_obj=0; static vector<u64> g_typeids; static bool g_inflight=false; static u64 g_uncaught=0;
static int typeid_of(u64 ti){ for(size_t i=0;i<g_typeids.size();i++) if(g_typeids[i]==ti) return i+1; g_typeids.push_back(ti); return g_typeids.size(); }
static bool ti_match(u64 cti,u64 tti,u64& obj){ if(cti==0) return true; std::type_info* c=(std::type_info*)cti; std::type_info*t=(std::type_info*)tti; void*p=(void*)obj; bool isptr=t->__is_pointer_p(); if(isptr) p=*(void**)p; bool r=c->__do_catch(t,&p,1); if(r) obj=(u64)p; return r; }
static vector<Val> run_fn(Function*F,vector<Val> const& args);
static bool lp_match(Instruction*li,Exc&e,u64& adj,int& sel){ auto*lp=cast<LandingPadInst>(li); sel=0; for(unsigned i=0;i<lp->getNumClauses();i++){ if(lp->isCatch(i)){ u64 ti=const_val(lp->getClause(i)).c; u64 o=e.obj; if(ti_match(ti,e.ti,o)){ adj=o; sel=typeid_of(ti); return true; } } else { // filter: empty filter catches everything (throw())
      sel=-1; if(cast<ArrayType>(lp->getClause(i)->getType())->getNumElements()==0){ adj=e.obj; return true; } } } return lp->isCleanup(); }
static std::map<u64,u64> g_adj;
static void enter(Frame&f,int to); static void sched_point(u64 addr);
static void unwind(u64 obj){
  Exc&e=g_excs[obj];
  // phase 1: is there any handler?
  bool handler=false; { for(int i=(int)g_stack->size()-1;i>=0;i--){ Frame&f=(*g_stack)[i]; if(f.boundary&&i==(int)g_stack->size()-1){} int uw=-1; if(i<(int)g_stack->size()-1||true){ Ins&in=f.f->blks[f.blk].ins[f.ip]; if(in.op==O_INVOKE) uw=in.t2; } 
      if(uw>=0){ Blk&b=f.f->blks[uw]; for(auto&x:b.ins) if(x.op==O_LANDING){ auto*lp=cast<LandingPadInst>(x.I); for(unsigned c=0;c<lp->getNumClauses();c++){ if(lp->isCatch(c)){ u64 o=e.obj; if(ti_match(const_val(lp->getClause(c)).c,e.ti,o)) handler=true; } else handler=true; } } }
      if(handler) break; if(f.boundary) break; } }
  if(!handler){ std::type_info*t=(std::type_info*)e.ti; int st; char*d=abi::__cxa_demangle(t->name(),0,0,&st); violation(V_EXC,string("uncaught exception of type ")+(d?d:t->name())); }
  while(true){ Frame&f=g_stack->back(); Ins&in=f.f->blks[f.blk].ins[f.ip]; 
    if(in.op==O_INVOKE){ Blk&b=f.f->blks[in.t2]; Instruction*li=nullptr; for(auto&x:b.ins) if(x.op==O_LANDING) li=x.I; u64 adj=obj; int sel; if(lp_match(li,e,adj,sel)){ g_adj[obj]=adj; g_unw_obj=obj; enter(f,in.t2);
          // landing pad values
          f.invokeUnwind=sel; return; } }
    // pop frame
    for(u64 a=f.stk;a<stp;) { u64 n=stp-a; memset(shp(a),M_DEAD,n); break; } stp=f.stk; 
    if(f.boundary) engine_fail("exception crosses a native boundary");
    g_stack->pop_back(); if(g_stack->empty()) engine_fail("unwound everything"); }
}

// ------------------------------------------------------------------ externals
typedef vector<Val> Args;
static std::set<string> g_extcalled;
static bool par_block();
static std::unordered_map<string,int> g_native_ok; // name -> signature kind: all int regs, returns int
static void init_native(){
  for(auto s:{"_ZNSt8__detail15_List_node_base7_M_hookEPS0_","_ZNSt8__detail15_List_node_base9_M_unhookEv","_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_","_ZNSt8__detail15_List_node_base4swapERS0_S1_","_ZNSt8__detail15_List_node_base10_M_reverseEv",
    "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_","_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base","_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base","_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base","_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base","_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
    "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm","_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm","_ZSt11_Hash_bytesPKvmm","strlen","strcmp","memcmp","bcmp"}) g_native_ok[s]=1;
}
static string cstr(u64 a){ string s; for(;;a++){ Val v=mem_load(a,1); if(v.e) { s+='?'; continue;} if(!v.c) return s; s+=(char)v.c; if(s.size()>2000) return s; } }
static string var_name(u64 a){ string s=cstr(a); for(auto&c:s) if(c==' '||c=='\n') c='_'; return s; }
static bool startsw(string const&s,const char*p){ return s.compare(0,strlen(p),p)==0; }

static int g_thr_choice=0;
static vector<Thread> g_threads;
// returns true when the call was handled completely and out holds result slots; false: exception unwinding was started
static double now_(){return now();}
static void sx_schedpoint();
static bool call_ext(Function*F,string const& n,Args& a,vector<Ty> const& at,vector<Val>& out,Ty rty){
  auto C=[&](int i,const char*w="a library call argument"){ return concretise(a[i],at.size()>(size_t)i?at[i].w:64,w); };
  // --- harness API ---
  if(startsw(n,"sx_")){
    if(n=="sx_int"||n=="sx_long"){ int w=n=="sx_int"?32:64; i64 lo=w==32?(int)C(1):(i64)C(1),hi=w==32?(int)C(2):(i64)C(2); out.push_back(lo==hi?CV((u64)lo&(w==32?0xffffffffULL:~0ULL)):EV(mk_var(var_name(a[0].c),S_BV,w,'i',0,lo,hi))); if(lo==hi) mk_var(var_name(a[0].c),S_BV,w,'i',0,lo,hi); return true; }
    if(n=="sx_bool"){ out.push_back(EV(mk_var(var_name(a[0].c),S_BOOL,1,'b',0,0,1))); return true; }
    if(n=="sx_byte"){ out.push_back(EV(mk_var(var_name(a[0].c),S_BV,8,'y',0,-128,127))); return true; }
    if(n=="sx_dyadic"||n=="sx_dyadicf"||n=="sx_dyadicl"){ i64 lo=C(1),hi=C(2); int s=(int)C(3); Expr*e=mk_var(var_name(a[0].c),S_NUM,0,n=="sx_dyadic"?'d':n=="sx_dyadicf"?'f':'l',s,lo,hi); out.push_back(EV(e)); return true; }
    if(n=="sx_double"){ Expr*e=mk_var(var_name(a[0].c),S_FP,64,'x',0,0,0); out.push_back(EV(e)); return true; }
    if(n=="sx_choice"){ int k=(int)C(1); string nm=var_name(a[0].c); if(k<=1){ mk_var(nm,S_BV,32,'i',0,0,0); out.push_back(CV(0)); return true; } 
      Expr*e=mk_var(nm,S_BV,32,'i',0,0,k-1);
      // concrete on each path: fork directly without solver queries (variable is fresh)
      for(int i=0;i<k-1;i++){ Val eq=bv_cmp(K_EQ,EV(e),CV(i),32); if(do_fork()==0){ g_vars[e->var].val=i; g_epoch++; sol_assert(eq.e,false); out.push_back(CV(i)); return true; } }
      g_vars[e->var].val=k-1; g_epoch++; sol_assert(bv_cmp(K_EQ,EV(e),CV(k-1),32).e,false); out.push_back(CV(k-1)); return true; }
    if(n=="sx_assume"){ do_assume(a[0]); return true; }
    if(n=="sx_assert_"){ do_assert(a[0],cstr(C(1))); return true; }
    if(n=="sx_reach"){ string l=cstr(C(0)).substr(0,63); for(;;){ for(int i=0;i<sh->nlab;i++) if(l==sh->lab[i]){ __sync_fetch_and_add(&sh->labhits[i],1); return true; } while(!__sync_bool_compare_and_swap(&sh->lablock,0,1)) sched_yield(); bool have=false; for(int i=0;i<sh->nlab;i++) if(l==sh->lab[i]) have=true; if(!have&&sh->nlab<MAXLAB){ strcpy(sh->lab[sh->nlab],l.c_str()); __sync_synchronize(); sh->nlab=sh->nlab+1; } sh->lablock=0; } }
    if(n=="sx_trace"){ g_trace.push_back({a[0],'i'}); return true; }
    if(n=="sx_traced"){ g_trace.push_back({a[0],'d'}); return true; }
    if(n=="sx_concrete"){ out.push_back(CV(concretise(a[0],64,"sx_concrete"))); return true; }
    if(n=="sx_symbolic"){ out.push_back(CV(1)); return true; }
    if(n=="sx_live_bytes"){ u64 t=0; for(auto&b:g_blocks) if(b.second.kind!='e'&&b.second.kind!='m') t+=b.second.size; out.push_back(CV(t)); return true; }
    if(n=="sx_live_blocks"){ u64 t=0; for(auto&b:g_blocks) if(b.second.kind!='e'&&b.second.kind!='m') t++; out.push_back(CV(t)); return true; }
    engine_fail("unknown sx function "+n);
  }
  // --- memory ---
  if(n=="_Znwm"||n=="_ZnwmRKSt9nothrow_t"){ u64 s=C(0,"an allocation size"); if(s>(1u<<26)) violation(V_MEM,"allocation of "+std::to_string(s)+" bytes"); out.push_back(CV(heap_alloc(s,'n'))); return true; }
  if(n=="_Znam"||n=="_ZnamRKSt9nothrow_t"){ u64 s=C(0,"an allocation size"); if(s>(1u<<26)) violation(V_MEM,"allocation of "+std::to_string(s)+" bytes"); out.push_back(CV(heap_alloc(s,'a'))); return true; }
  if(n=="malloc"){ out.push_back(CV(heap_alloc(C(0),'m'))); return true; }
  if(n=="calloc"){ u64 s=C(0)*C(1); u64 p=heap_alloc(s,'m'); memset((void*)p,0,s); memset(shp(p),M_INIT,s); out.push_back(CV(p)); return true; }
  if(n=="realloc"){ u64 o=C(0),s=C(1); u64 p=heap_alloc(s,'m'); if(o){ auto it=g_blocks.find(o); if(it==g_blocks.end()) violation(V_MEM,"realloc of bad pointer"); mem_copy(p,o,std::min(s,it->second.size)); heap_free(o,'m'); } out.push_back(CV(p)); return true; }
  if(n=="_ZdlPv"||n=="_ZdlPvm"){ heap_free(C(0),'n'); return true; }
  if(n=="_ZdaPv"||n=="_ZdaPvm"){ heap_free(C(0),'a'); return true; }
  if(n=="free"){ heap_free(C(0),'m'); return true; }
  if(n=="memcpy"||n=="memmove"){ mem_copy(C(0),C(1),C(2)); out.push_back(a[0]); return true; }
  if(n=="memset"){ u64 d=C(0),k=C(2); chk_access(d,k,true); Val v=a[1]; if(v.e) engine_fail("symbolic memset"); if(k){ memset((void*)d,(int)v.c,k); memset(shp(d),M_INIT,k);} out.push_back(a[0]); return true; }
  if(n=="memchr"){ u64 p=C(0),k=C(2); unsigned char c=(unsigned char)C(1); for(u64 i=0;i<k;i++) if((u64)concretise(mem_load(p+i,1),8)==c){ out.push_back(CV(p+i)); return true; } out.push_back(CV(0)); return true; }
  if(n=="strchr"||n=="strrchr"){ u64 p=C(0); string s=cstr(p); s.push_back(0); size_t i=n=="strchr"?s.find((char)C(1)):s.rfind((char)C(1)); out.push_back(CV(i==string::npos?0:p+i)); return true; }
  if(n=="strncmp"){ string x=cstr(C(0)),y=cstr(C(1)); u64 k=C(2); out.push_back(CV((u64)(uint32_t)x.substr(0,k).compare(y.substr(0,k)))); return true; }
  if(n=="strcpy"||n=="strcat"||n=="strncpy"){ u64 d=C(0),q=C(1); string x=cstr(q); u64 at=n=="strcat"?d+cstr(d).size():d; if(n=="strncpy"){ u64 k=C(2); u64 l=std::min<u64>(k,x.size()+1); if(l) mem_copy(at,q,l); for(u64 i=l;i<k;i++) mem_store(at+i,1,CV(0)); } else mem_copy(at,q,x.size()+1); out.push_back(a[0]); return true; }
  if(n=="snprintf"||n=="sprintf"){ size_t k=n=="snprintf"?2:1; string fm=cstr(C(k)); k++; string r; for(size_t i=0;i<fm.size();i++){ if(fm[i]!='%'){ r+=fm[i]; continue; } string sp="%"; i++; while(i<fm.size()&&!isalpha((unsigned char)fm[i])&&fm[i]!='%') sp+=fm[i++]; while(i<fm.size()&&(fm[i]=='l'||fm[i]=='z'||fm[i]=='h')) sp+=fm[i++]; if(i>=fm.size()) break; sp+=fm[i]; char t[400]; if(fm[i]=='%'){ r+='%'; continue; }
      if(k>=a.size()) engine_fail("format "+fm); if(fm[i]=='s') snprintf(t,400,sp.c_str(),cstr(C(k)).c_str()); else if(at[k].k=='d') snprintf(t,400,sp.c_str(),(double)val_ld(a[k],FK_F64)); else snprintf(t,400,sp.c_str(),(long)C(k)); k++; r+=t; }
    u64 d=C(0),cap=n=="snprintf"?C(1):r.size()+1; for(u64 i=0;i<cap;i++){ if(i==r.size()||i+1==cap){ mem_store(d+i,1,CV(0)); break; } mem_store(d+i,1,CV((unsigned char)r[i])); } out.push_back(CV((uint32_t)r.size())); return true; }
  if(n=="strtol"||n=="atoi"||n=="strtoul"||n=="atol"||n=="strtoll"||n=="__isoc23_strtol"||n=="__isoc23_strtoul"||n=="__isoc23_strtoll"){ string x=cstr(C(0)); char*e; long v=strtol(x.c_str(),&e,n[0]!='a'?(int)C(2):10); if(n[0]!='a'&&C(1)) mem_store(C(1),8,CV(C(0)+(e-x.c_str()))); out.push_back(CV(n=="atoi"?(u64)(uint32_t)v:(u64)v)); return true; }
  if(n=="strtod"||n=="atof"){ string x=cstr(C(0)); char*e; double v=strtod(x.c_str(),&e); if(n[0]=='s'&&C(1)) mem_store(C(1),8,CV(C(0)+(e-x.c_str()))); out.push_back(ld_val(v,FK_F64)); return true; }
  if(n=="__errno_location"){ static u64 er=0; if(!er){ er=heap_alloc(8,'g'); g_blocks.erase(er); mem_store(er,4,CV(0)); } out.push_back(CV(er)); return true; }
  if(n=="strdup"){ u64 q=C(0); u64 l=cstr(q).size()+1; u64 p=heap_alloc(l,'m'); mem_copy(p,q,l); out.push_back(CV(p)); return true; }
  // --- mutexes (static ones are scheduling points of sx_par) ---
  if(n=="pthread_mutex_lock"||n=="pthread_mutex_trylock"){ u64 m=C(0); if(g_par) sched_point(m); bool held=concretise(mem_load(m,4),32)!=0;
    if(held&&n=="pthread_mutex_trylock"){ out.push_back(CV(16)); return true; }
    if(held){ if(!g_par||par_block()) violation(V_LOOP,"deadlock: a mutex that is held is locked"); throw 1; }
    mem_store(m,4,CV(1)); out.push_back(CV(0)); return true; }
  if(n=="pthread_mutex_unlock"){ u64 m=C(0); if(g_par) sched_point(m); mem_store(m,4,CV(0)); out.push_back(CV(0)); return true; }
  if(n=="pthread_mutex_init"){ u64 m=C(0); memset((void*)m,0,40); memset(shp(m),M_INIT,40); out.push_back(CV(0)); return true; }
  if(n=="pthread_mutex_destroy"){ out.push_back(CV(0)); return true; }
  // --- console output has no effect ---
  if(n=="_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"||startsw(n,"_ZNSolsE")||n=="_ZNSo3putEc"||n=="_ZNSo5flushEv"||startsw(n,"_ZNSo9_M_insertI")||startsw(n,"_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_")){ if((C(0)>=A0&&C(0)<A0+ASZ)) engine_fail("string stream"); out.push_back(a[0]); return true; }
  if(n=="_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate") return true;
  if(n=="strlen"){ out.push_back(CV(cstr(C(0)).size())); return true; }
  if(n=="strcmp"){ out.push_back(CV((u64)(uint32_t)cstr(C(0)).compare(cstr(C(1))))); return true; }
  if(n=="memcmp"||n=="bcmp"){ u64 x=C(0),y=C(1),k=C(2); for(u64 i=0;i<k;i++){ u64 p=concretise(mem_load(x+i,1),8),q=concretise(mem_load(y+i,1),8); if(p!=q){ out.push_back(CV((uint32_t)(p<q?-1:1))); return true; } } out.push_back(CV(0)); return true; }
  // --- C++ runtime ---
  if(n=="__cxa_allocate_exception"){ u64 p=heap_alloc(C(0),'e'); out.push_back(CV(p)); return true; }
  if(n=="__cxa_free_exception"){ heap_free(C(0),'e'); return true; }
  if(n=="__cxa_throw"){ u64 o=C(0); g_excs[o]={o,C(1),C(2),o}; g_uncaught++; unwind(o); return false; }
  if(n=="__cxa_begin_catch"||n=="__cxa_get_exception_ptr"){ u64 o=C(0); if(!g_excs.count(o)) engine_fail("begin_catch of unknown"); if(n=="__cxa_begin_catch"){ if(!g_caught.empty()&&g_caught.back().obj==o) g_caught.back().n++; else g_caught.push_back({o,1}); if(g_uncaught) g_uncaught--; } out.push_back(CV(g_adj.count(o)?g_adj[o]:o)); return true; }
  if(n=="__cxa_end_catch"){ if(g_caught.empty()) return true; Caught&c=g_caught.back(); if(--c.n==0){ u64 o=c.obj; g_caught.pop_back(); Exc e=g_excs[o]; bool again=false; for(auto&x:g_caught) if(x.obj==o) again=true; if(!again&&!g_inflight){ if(e.dtor&&g_fnaddr.count(e.dtor)) run_fn(g_fnaddr[e.dtor],{CV(o)}); g_excs.erase(o); heap_free(o,'e'); } g_inflight=false; } return true; }
  if(n=="__cxa_rethrow"){ if(g_caught.empty()) violation(V_TERM,"rethrow without exception"); u64 o=g_caught.back().obj; g_inflight=true; g_uncaught++; unwind(o); return false; }
  if(n=="_Unwind_Resume"){ unwind(g_unw_obj); return false; }
  if(n=="_ZSt9terminatev"||n=="__clang_call_terminate"){ violation(V_TERM,"std::terminate called"); }
  if(n=="__cxa_pure_virtual"){ violation(V_TERM,"pure virtual function called"); }
  if(n=="__cxa_atexit"){ out.push_back(CV(0)); return true; }
  if(n=="__cxa_guard_acquire"){ u64 g=C(0); Val v=mem_load(g,1); if(v.c) out.push_back(CV(0)); else out.push_back(CV(1)); return true; }
  if(n=="__cxa_guard_release"){ mem_store(C(0),1,CV(1)); return true; }
  if(n=="__cxa_guard_abort") return true;
  if(n=="__assert_fail"){ violation(V_ABORT,"library assertion failed: "+cstr(C(0))+" at "+cstr(C(1))+":"+std::to_string(C(2))); }
  if(n=="_ZSt21__glibcxx_assert_failPKciS0_S0_"){ violation(V_ABORT,"libstdc++ assertion failed: "+cstr(C(3))); }
  if(n=="abort"||n=="exit"||n=="_exit"){ violation(V_ABORT,n+" called"); }
  if(startsw(n,"_ZSt")&&n.find("__throw_")!=string::npos){ violation(V_EXC,"standard library exception: "+demangle(n)); }
  if(n=="__cxa_throw_bad_array_new_length"||n=="__cxa_bad_cast"||n=="__cxa_bad_typeid") violation(V_EXC,n);
  if(n=="_ZNSt8ios_base4InitC1Ev"||n=="_ZNSt8ios_base4InitD1Ev") return true;
  if(n=="_ZNSt9exceptionD2Ev"||n=="_ZNSt9exceptionD1Ev") return true;
  if(n=="__dynamic_cast"){ // run natively
    u64 o=C(0); chk_access(o,8,false); out.push_back(CV((u64)abi::__dynamic_cast((void*)o,(abi::__class_type_info*)C(1),(abi::__class_type_info*)C(2),(ptrdiff_t)C(3)))); return true; }
  if(n=="clock"||n=="time"||n=="rand") engine_fail("nondeterministic external "+n);
  if(n=="puts"||n=="printf"||n=="putchar"||n=="fprintf"||n=="fflush"||n=="fputs"||n=="fwrite"){ out.push_back(CV(0)); return true; }
  // --- math ---
  auto conc1=[&](int i){ return !a[i].e||(a[i].e->kind==K_CONST); };
  if(n=="fabs"||n=="fabsf"||n=="fabsl"){ out.push_back(num_abs(a[0],fk_of(rty))); return true; }
  if(n=="sqrt"||n=="sqrtf"){ out.push_back(num_sqrt(a[0],fk_of(rty))); return true; }
  if(n=="frexp"){ u64 p=C(1); if(conc1(0)){ int e; double d=frexp((double)val_ld(a[0],FK_F64),&e); mem_store(p,4,CV((uint32_t)e)); out.push_back(ld_val(d,FK_F64)); return true; }
    if(!is_fp(a[0])){ Expr* ex=mk_var("exponent",S_BV,32,'u',0,-1100,1100,false); mem_store(p,4,EV(ex)); out.push_back(ld_val(0.5,FK_F64)); return true; } // any exponent; only ldexp(0,e) accepts it
    Val b=fp_bits(a[0]); Val ef=bv_extract(b,64,52,11); Val e1=bv_bin(K_SUB,bv_zext(ef,11,32),CV(1022),32);
    Val isz=bv_cmp(K_EQ,bv_extract(b,64,0,63),CV(0),63); Val sub=bv_cmp(K_EQ,ef,CV(0),11); Val spec=bv_cmp(K_EQ,ef,CV(0x7ff),11);
    auto dec=[&](Val c,const char*w){ return c.e?decide(c,w):(c.c&1); }; Val e;
    if(dec(isz,"zero")||dec(spec,"infinite or nan")){ mem_store(p,4,CV(0)); out.push_back(a[0]); return true; }
    if(dec(sub,"subnormal")){ e=CV((uint32_t)-1073); for(int i=1;i<52;i++){ Val bit=bv_cmp(K_EQ,bv_extract(b,64,i,1),CV(1),1); Val v=CV((uint32_t)(i-1073)); e= bit.e?mk_ite(bit.e,v,e,32,false,FK_F64):(bit.c&1)?v:e; } } // leading bit of the significand
    else e=e1;
    mem_store(p,4,e);
    // mantissa value: not needed by adevs; keep it opaque unless special
    Val mb=bv_bin(K_OR,bv_bin(K_AND,b,CV(0x800fffffffffffffULL),64),CV(0x3fe0000000000000ULL),64); out.push_back(fp_from_bits(mb)); return true; }
  if(n=="ldexp"||n=="scalbn"){ if(conc1(0)&&!a[1].e){ out.push_back(ld_val(ldexp((double)val_ld(a[0],FK_F64),(int)a[1].c),FK_F64)); return true; }
    if(conc1(0)&&(double)val_ld(a[0],FK_F64)==0.0){ out.push_back(ld_val(0,FK_F64)); return true; }
    if(is_fp(a[0])||a[1].e){ // x * 2^n with n in [-1100,1100]; exact powers of two as operands
      { // normal argument and normal result: only the exponent field changes
        Val xb=a[0].e?fp_bits(a[0]):a[0]; Val ef=bv_zext(bv_extract(xb,64,52,11),11,32); Val ne=bv_bin(K_ADD,ef,a[1],32);
        auto both=[&](Val p,Val q){ return bv_bin(K_AND,p,q,1); };
        Val z=bv_cmp(K_EQ,bv_extract(xb,64,0,63),CV(0),63); if(z.e?decide(z,"zero"):(z.c&1)){ out.push_back(a[0]); return true; }
        Val ok=both(both(bool_not(bv_cmp(K_EQ,ef,CV(0),32)),bool_not(bv_cmp(K_EQ,ef,CV(2047),32))),both(bv_cmp(K_SLE,CV(1),ne,32),bv_cmp(K_SLE,ne,CV(2046),32)));
        if(ok.e?decide(ok,"an exponent range"):(ok.c&1)){ Val sh=bv_bin(K_SHL,bv_zext(a[1],32,64),CV(52),64); out.push_back(fp_from_bits(bv_bin(K_ADD,xb,sh,64))); return true; } }
      Val x=a[0]; Val nn=a[1]; auto ite=[&](Val c,Val p,Val q){ return c.e?mk_ite(c.e,p,q,64,false,FK_F64):(c.c?p:q); };
      // in range normal power
      Val norm=bv_bin(K_SHL,bv_zext(bv_extract(bv_bin(K_ADD,nn,CV(1023),32),32,0,11),11,64),CV(52),64);
      Val subn=bv_bin(K_SHL,CV(1),bv_zext(bv_bin(K_ADD,nn,CV(1074),32),32,64),64);
      Val isn=bv_cmp(K_SLT,nn,CV((uint32_t)-1022),32); Val isbig=bv_cmp(K_SLT,CV(1023),nn,32);
      Val pb=ite(isn,subn,ite(isbig,CV(0x7fe0000000000000ULL),norm)); Val pw=fp_from_bits(pb);
      if(!x.e) x=fp_from_bits(bv_bin(K_ADD,x,CV(0),64)); auto fb=[&](Val v){ return v.e?fp_bits(v):v; }; Val x2= fp_from_bits(ite(isbig,fb(num_bin(N_MUL,x,ld_val(2.0,FK_F64),FK_F64)),fb(x)));
      out.push_back(num_bin(N_MUL,x2,pw,FK_F64)); return true; } }
  if(n=="floor"||n=="ceil"||n=="trunc"||n=="round"||n=="nearbyint"||n=="rint"){ out.push_back(ld_val(round_of(n,a[0],fk_of(rty)),fk_of(rty))); return true; }
  if(n=="pow"||n=="exp"||n=="log"||n=="sin"||n=="cos"||n=="floor"||n=="ceil"||n=="fmod"){ bool all=true; for(size_t i=0;i<a.size();i++) if(!conc1(i)) all=false; if(!all) engine_fail("symbolic argument to "+n); double x=(double)val_ld(a[0],FK_F64),y=a.size()>1?(double)val_ld(a[1],FK_F64):0; double r= n=="pow"?pow(x,y):n=="exp"?exp(x):n=="log"?log(x):n=="sin"?sin(x):n=="cos"?cos(x):n=="floor"?floor(x):n=="ceil"?ceil(x):fmod(x,y); out.push_back(ld_val(r,FK_F64)); return true; }
  // --- whitelisted pure pointer code executed natively ---
  if(g_native_ok.count(n)){
    u64 r[6]={0}; double d[4]={0}; int ni=0,nd=0; for(size_t i=0;i<a.size();i++){ if(at[i].k=='d'){ d[nd++]=(double)val_ld(a[i],FK_F64);} else r[ni++]=C(i); }
    void*p=dlsym(RTLD_DEFAULT,n.c_str()); if(!p) engine_fail("dlsym "+n);
    // the first 32 bytes at pointer arguments must be concrete and accessible
    g_native=true; 
    if(n=="_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm"){ auto f=(std::pair<bool,size_t>(*)(u64,u64,u64,u64))p; auto q=f(r[0],r[1],r[2],r[3]); g_native=false; int ns=rty.slots; if(ns==2){ out.push_back(CV(q.first)); out.push_back(CV(q.second)); } else engine_fail("need_rehash abi"); return true; }
    u64 v=((u64(*)(u64,u64,u64,u64,u64,u64))p)(r[0],r[1],r[2],r[3],r[4],r[5]); g_native=false;
    if(rty.slots) out.push_back(CV(rty.w>=64?v:v&((1ULL<<rty.w)-1))); return true; }
  engine_fail("unsupported external function "+demangle(n)+" ("+n+")");
}

// ------------------------------------------------------------------ interpreter
static void push_frame(Function*F,vector<Val> const& args,int dst,Ty rty,bool boundary){
  Fn*f=get_fn(F); if(!f->done) translate(f); if(g_stack->size()>o_maxdepth) violation(V_LOOP,"recursion deeper than "+std::to_string(o_maxdepth)+" frames");
  if(f->inrepo&&f->id<MAXFN) sh->fncov[f->id]=1;
  g_stack->emplace_back(); Frame&fr=g_stack->back(); fr.f=f; fr.r.resize(f->nslots); fr.blk=0; fr.ip=0; fr.prev=-1; fr.stk=stp; fr.dst=dst; fr.rty=rty; fr.boundary=boundary;
  size_t k=0; for(size_t i=0;i<f->argslots.size();i++) for(int j=0;j<f->argty[i].slots;j++) { if(k>=args.size()) engine_fail("argument count"); fr.r[f->argslots[i]+j]=args[k++]; }
}
static inline Val ov(Frame&f,Opd const&o){ return o.slot>=0?f.r[o.slot]:o.c; }
static void enter(Frame&f,int to){ f.prev=f.blk; f.blk=to; f.ip=0; Blk&b=f.f->blks[to]; if(b.nphi){ // parallel copy
    static vector<std::pair<int,Val>> tmp; tmp.clear(); for(int i=0;i<b.nphi;i++){ Ins&p=b.ins[i]; int k=-1; for(size_t j=0;j<p.targets.size();j++) if(p.targets[j]==f.prev){ k=j; break; } if(k<0) engine_fail("phi"); for(int s=0;s<p.ty.slots;s++) tmp.push_back({p.dst+s,ov(f,p.ops[k*p.ty.slots+s])}); }
    for(auto&x:tmp) f.r[x.first]=x.second; f.ip=b.nphi; } }
static u64 wm(int w){ return w>=64?~0ULL:((1ULL<<w)-1); }
static Val load_ty(u64 a,Ty const&t){ if(t.k=='l'){ if(!inA(a,10)){ badaccess(a,10,false);} uint8_t*s=shp(a); if(s[0]==M_SYM){ SymB b=g_sym[a]; if(b.n==10&&b.idx==0) return EV(b.e); engine_fail("fp80 partial"); } for(int i=0;i<10;i++) if(s[i]==M_UNINIT) return EV(mk_num(0)); else if(s[i]!=M_INIT&&s[i]!=M_CONST) badaccess(a,10,false); long double ld=0; memcpy(&ld,(void*)a,10); return EV(mk_num(ld)); }
  Val v=mem_load(a,t.bytes); if(t.k=='i'&&t.w<t.bytes*8){ v=bv_extract(v,t.bytes*8,0,t.w); } 
  if((t.k=='d')&&v.e&&v.e->sort==S_BV&&!v.e->taint) v=fp_from_bits(v);
  return v; }
static void store_ty(u64 a,Ty const&t,Val v){ if(t.k=='l'){ if(v.e&&v.e->kind==K_CONST){ long double ld=v.e->nc; chk_access(a,10,true); memcpy((void*)a,&ld,10); memset(shp(a),M_INIT,10);} else mem_store(a,10,v); return; }
  if(t.k=='i'&&t.w<t.bytes*8&&v.e) v=bv_zext(v,t.w,t.bytes*8); mem_store(a,t.bytes,v); }
static void sched_point(u64 addr);
static void run(size_t base){ // until stack size drops to base
  while(g_stack->size()>base){
    Frame&f=g_stack->back(); Ins&in=f.f->blks[f.blk].ins[f.ip];
    if(++g_ins>o_maxins) violation(V_LOOP,"more than "+std::to_string(o_maxins)+" instructions on one path");
    if((g_ins&0xfffff)==0){ flush_ins(); if(sh->stop) proc_exit(0); }
    if(!in.cov){ in.cov=true; if(in.id<MAXINS) sh->cov[in.id]=1; }
    switch(in.op){
      case O_BIN: { Val a=ov(f,in.ops[0]),b=ov(f,in.ops[1]); int w=in.ty.w; Kind k;
        if(!a.e&&!b.e){ u64 x=a.c,y=b.c,m=wm(w),r; x&=m; y&=m; bool done=true; switch(in.sub){ case Instruction::Add: r=x+y; break; case Instruction::Sub: r=x-y; break; case Instruction::And: r=x&y; break; case Instruction::Or: r=x|y; break; case Instruction::Xor: r=x^y; break; case Instruction::Mul: r=x*y; break; default: done=false; r=0; } if(done){ f.r[in.dst]=CV(r&m); f.ip++; break; } }
        switch(in.sub){ case Instruction::Add:k=K_ADD;break; case Instruction::Sub:k=K_SUB;break; case Instruction::Mul:k=K_MUL;break; case Instruction::UDiv:k=K_UDIV;break; case Instruction::SDiv:k=K_SDIV;break; case Instruction::URem:k=K_UREM;break; case Instruction::SRem:k=K_SREM;break; case Instruction::And:k=K_AND;break; case Instruction::Or:k=K_OR;break; case Instruction::Xor:k=K_XOR;break; case Instruction::Shl:k=K_SHL;break; case Instruction::LShr:k=K_LSHR;break; default:k=K_ASHR; }
        if(k==K_UDIV||k==K_SDIV||k==K_UREM||k==K_SREM){ Val z=bv_cmp(K_EQ,b,CV(0),w); if(decide(z)) violation(V_ABORT,"integer division by zero"); if(b.e&&is_const(b.e)) b=CV(b.e->c); }
        f.r[in.dst]=bv_bin(k,a,b,w); f.ip++; break; }
      case O_CMP: { Val a=ov(f,in.ops[0]),b=ov(f,in.ops[1]); int w=in.ty2.w; Val r; switch(in.sub){ case CmpInst::ICMP_EQ: r=bv_cmp(K_EQ,a,b,w); break; case CmpInst::ICMP_NE: r=bool_not(bv_cmp(K_EQ,a,b,w)); break; case CmpInst::ICMP_UGT: r=bv_cmp(K_ULT,b,a,w); break; case CmpInst::ICMP_UGE: r=bv_cmp(K_ULE,b,a,w); break; case CmpInst::ICMP_ULT: r=bv_cmp(K_ULT,a,b,w); break; case CmpInst::ICMP_ULE: r=bv_cmp(K_ULE,a,b,w); break; case CmpInst::ICMP_SGT: r=bv_cmp(K_SLT,b,a,w); break; case CmpInst::ICMP_SGE: r=bv_cmp(K_SLE,b,a,w); break; case CmpInst::ICMP_SLT: r=bv_cmp(K_SLT,a,b,w); break; default: r=bv_cmp(K_SLE,a,b,w); } f.r[in.dst]=r; f.ip++; break; }
      case O_FBIN: { Val a=ov(f,in.ops[0]),b=ov(f,in.ops[1]); FK fk=fk_of(in.ty); NOp o; switch(in.sub){ case Instruction::FAdd:o=N_ADD;break; case Instruction::FSub:o=N_SUB;break; case Instruction::FMul:o=N_MUL;break; case Instruction::FDiv:o=N_DIV;break; default: engine_fail("frem"); }
        if((a.e&&a.e->taint)||(b.e&&b.e->taint)) violation(V_UNINIT,"arithmetic on an uninitialised floating point value");
        if(o==N_DIV&&b.e&&b.e->sort==S_NUM&&!is_const(b.e)&&b.e->lo<=0&&b.e->hi>=0){ // the divisor's sign, then how far it is from zero on this path
          Expr*y=b.e; Val pos=num_cmp(C_LT,ld_val(0,fk),b,fk); 
          if(decide(pos,"a division")){ double lb=0; for(int k=4;k<=80;k+=k<12?4:12){ Val c=num_cmp(C_LT,b,ld_val(ldexpl(1,-k),fk),fk); if(!c.e?!(c.c&1):!sol_check(c.e,false,false)){ lb=ldexp(1,-k); break; } } if(lb==0) engine_fail("a divisor arbitrarily close to zero"); y->lo=lb; }
          else { Val ng=num_cmp(C_LT,b,ld_val(0,fk),fk); if(!decide(ng,"a division")) engine_fail("division by zero"); double ub=0; for(int k=4;k<=80;k+=k<12?4:12){ Val c=num_cmp(C_LT,ld_val(-ldexpl(1,-k),fk),b,fk); if(!c.e?!(c.c&1):!sol_check(c.e,false,false)){ ub=-ldexp(1,-k); break; } } if(ub==0) engine_fail("a divisor arbitrarily close to zero"); y->hi=ub; } }
        f.r[in.dst]=num_bin(o,a,b,fk); f.ip++; break; }
      case O_FNEG: f.r[in.dst]=num_neg(ov(f,in.ops[0]),fk_of(in.ty)); f.ip++; break;
      case O_FCMP: { Val a=ov(f,in.ops[0]),b=ov(f,in.ops[1]); FK k=fk_of(in.ty2); Val r; 
        if((a.e&&a.e->taint)||(b.e&&b.e->taint)) violation(V_UNINIT,"comparison of an uninitialised floating point value");
        auto OR=[&](Val x,Val y){ return bv_bin(K_OR,x,y,1); }; auto AND=[&](Val x,Val y){ return bv_bin(K_AND,x,y,1); }; Val u=num_uno(a,b,k);
        switch(in.sub){ case CmpInst::FCMP_FALSE: r=CV(0); break; case CmpInst::FCMP_TRUE: r=CV(1); break; case CmpInst::FCMP_OEQ: r=num_cmp(C_EQ,a,b,k); break; case CmpInst::FCMP_OGT: r=num_cmp(C_LT,b,a,k); break; case CmpInst::FCMP_OGE: r=num_cmp(C_LE,b,a,k); break; case CmpInst::FCMP_OLT: r=num_cmp(C_LT,a,b,k); break; case CmpInst::FCMP_OLE: r=num_cmp(C_LE,a,b,k); break; case CmpInst::FCMP_ONE: r=AND(bool_not(u),bool_not(num_cmp(C_EQ,a,b,k))); break; case CmpInst::FCMP_ORD: r=bool_not(u); break; case CmpInst::FCMP_UNO: r=u; break; case CmpInst::FCMP_UEQ: r=OR(u,num_cmp(C_EQ,a,b,k)); break; case CmpInst::FCMP_UGT: r=OR(u,num_cmp(C_LT,b,a,k)); break; case CmpInst::FCMP_UGE: r=OR(u,num_cmp(C_LE,b,a,k)); break; case CmpInst::FCMP_ULT: r=OR(u,num_cmp(C_LT,a,b,k)); break; case CmpInst::FCMP_ULE: r=OR(u,num_cmp(C_LE,a,b,k)); break; default: r=OR(u,bool_not(num_cmp(C_EQ,a,b,k))); }
        f.r[in.dst]=r; f.ip++; break; }
      case O_LOAD: { Val p=ov(f,in.ops[0]); u64 a=p.e?concretise(p,64):p.c; if(p.e){ Frame&f2=g_stack->back(); (void)f2; } if(g_par) sched_point(a); if(in.ty.k=='x'){ for(int i=0;i<in.ty.slots;i++){ f.r[in.dst+i]=mem_load(a+i*(in.ty.w/8),in.ty.w/8);} f.ip++; break; } f.r[in.dst]=load_ty(a,in.ty); f.ip++; break; }
      case O_STORE: { Val p=ov(f,in.ops[0]); u64 a=p.e?concretise(p,64):p.c; if(g_par) sched_point(a); if(in.ty2.k=='x'){ for(int i=0;i<in.ty2.slots;i++) mem_store(a+i*(in.ty2.w/8),in.ty2.w/8,ov(f,in.ops[1+i])); f.ip++; break; } store_ty(a,in.ty2,ov(f,in.ops[1])); f.ip++; break; }
      case O_GEP: { Val p=ov(f,in.ops[0]); if(p.e) p=CV(concretise(p,64)); u64 a=p.c+in.off; for(auto&g:in.gs){ Val x=ov(f,g.idx); u64 v=x.e?concretise(x,g.w,"an index"):x.c; i64 sv=g.w>=64?(i64)v:(i64)((v^(1ULL<<(g.w-1)))&wm(g.w))-(i64)(1ULL<<(g.w-1)); a+=sv*g.scale; } f.r[in.dst]=CV(a); f.ip++; break; }
      case O_CAST: { Val a=ov(f,in.ops[0]); Val r; switch(in.sub){ case Instruction::Trunc: r=bv_extract(a,in.ty2.w,0,in.ty.w); break; case Instruction::ZExt: r=bv_zext(a,in.ty2.w,in.ty.w); break; case Instruction::SExt: r=bv_sext(a,in.ty2.w,in.ty.w); break; case Instruction::PtrToInt: r=in.ty.w<64?bv_extract(a,64,0,in.ty.w):a; break; case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: r=a; if(in.ty.k=='i'&&in.ty2.k=='d'&&a.e&&a.e->sort==S_FP) r=fp_bits(a); if(in.ty.k=='d'&&in.ty2.k=='i'&&a.e&&a.e->sort==S_BV) r=fp_from_bits(a); break;
          case Instruction::FPExt: case Instruction::FPTrunc: r=num_conv(a,fk_of(in.ty2),fk_of(in.ty)); break;
          case Instruction::SIToFP: { u64 v=concretise(a,in.ty2.w,"an integer conversion"); i64 s=in.ty2.w>=64?(i64)v:(i64)((v^(1ULL<<(in.ty2.w-1)))&wm(in.ty2.w))-(i64)(1ULL<<(in.ty2.w-1)); r=ld_val((long double)s,fk_of(in.ty)); break; }
          case Instruction::UIToFP: { if(in.ty2.w==1&&a.e){ r=mk_ite(a.e,ld_val(1,fk_of(in.ty)),ld_val(0,fk_of(in.ty)),64,true,fk_of(in.ty)); break; } u64 v=concretise(a,in.ty2.w,"an integer conversion"); r=ld_val((long double)v,fk_of(in.ty)); break; }
          case Instruction::FPToSI: case Instruction::FPToUI: { long double v=a.e&&a.e->kind!=K_CONST?(long double)round_of("trunc",a,fk_of(in.ty2)):val_ld(a,fk_of(in.ty2)); r=CV((u64)(in.sub==Instruction::FPToSI?(u64)(i64)v:(u64)v)&wm(in.ty.w)); break; }
          default: engine_fail("cast"); } f.r[in.dst]=r; f.ip++; break; }
      case O_SELECT: { Val c=ov(f,in.ops[0]); int ns=in.ty.slots; if(!c.e){ for(int i=0;i<ns;i++) f.r[in.dst+i]=ov(f,in.ops[1+((c.c&1)?0:ns)+i]); f.ip++; break; }
        bool needfork=ns!=1||in.ty.k=='p'; if(!needfork&&o_fpfork&&in.ty.k=='d'&&(is_fp(ov(f,in.ops[1]))||is_fp(ov(f,in.ops[2])))) needfork=true; 
        Val x=ov(f,in.ops[1]),y=ns==1?ov(f,in.ops[2]):Val();
        if(!needfork&&(in.ty.k=='d'||in.ty.k=='f'||in.ty.k=='l')){ auto inex=[&](Val v){ return v.e&&v.e->sort==S_NUM&&v.e->inexact; }; auto huge=[&](Val v){ if(v.e) return v.e->kind==K_CONST&&v.e->sort==S_NUM&&fabsl(v.e->nc)>1e100L; if(is_fp(x)||is_fp(y)) return false; return fabsl(val_ld(v,fk_of(in.ty)))>1e100L; }; bool fpm=is_fp(x)||is_fp(y); if(!fpm&&(inex(x)||inex(y)||huge(x)||huge(y))) needfork=true; if(!fpm&&!x.e&&!y.e&&c.e&&c.e->sort==S_BOOL){ } }
        if(needfork){ bool b=decide(c,"a selection"); Frame&g=g_stack->back(); for(int i=0;i<ns;i++) g.r[in.dst+i]=ov(g,in.ops[1+(b?0:ns)+i]); g.ip++; break; }
        if(c.e->taint&&false) {}
        f.r[in.dst]=mk_ite(c.e,x,y,in.ty.w,in.ty.k=='d'||in.ty.k=='f'||in.ty.k=='l',in.ty.k=='i'||in.ty.k=='p'?FK_F64:fk_of(in.ty)); f.ip++; break; }
      case O_PHI: engine_fail("phi executed");
      case O_BR: enter(f,in.t1); break;
      case O_CBR: { Val c=ov(f,in.ops[0]); bool b=c.e?decide(c):(c.c&1); enter(g_stack->back(),b?in.t1:in.t2); break; }
      case O_SWITCH: { Val c=ov(f,in.ops[0]); int t=in.t1; for(size_t i=0;i<in.swv.size();i++){ Val q=bv_cmp(K_EQ,c,CV(in.swv[i]),in.ty2.w); if(decide(q)){ t=in.targets[i]; break; } } enter(g_stack->back(),t); break; }
      case O_RET: { vector<Val> rv; for(auto&o:in.ops) rv.push_back(ov(f,o)); int dst=f.dst; Ty rt=f.rty; if(stp>f.stk) memset(shp(f.stk),M_DEAD,stp-f.stk); stp=f.stk; bool bnd=f.boundary; g_stack->pop_back();
        if(bnd){ if(g_stack->size()==base||true){ extern vector<Val> g_retval; g_retval=rv; } if(g_stack->size()<=base) return; break; }
        if(g_stack->empty()) return; Frame&c=g_stack->back(); if(dst>=0) for(size_t i=0;i<rv.size();i++) c.r[dst+i]=rv[i]; Ins&ci=c.f->blks[c.blk].ins[c.ip]; if(ci.op==O_INVOKE) enter(c,ci.t1); else c.ip++; break; }
      case O_ALLOCA: { u64 n=concretise(ov(f,in.ops[0]),64,"an allocation size"); u64 sz=n*in.off; u64 a=(stp+31)/16*16; if(a+sz+32>STK0+STKSZ) violation(V_LOOP,"stack overflow"); stp=a+sz+16; memset(shp(a),M_UNINIT,sz); f.r[in.dst]=CV(a); f.ip++; break; }
      case O_BAD: engine_fail(*(string*)in.ext);
      case O_UNREACH: violation(V_ABORT,"undefined behaviour: unreachable code reached"); break;
      case O_LANDING: f.r[in.dst]=CV(g_unw_obj); f.r[in.dst+1]=CV((uint32_t)f.invokeUnwind); f.ip++; break;
      case O_RESUME: { u64 o=concretise(ov(f,in.ops[0]),64); unwind(o); break; }
      case O_EXTRACTV: for(int i=0;i<in.ty.slots;i++) f.r[in.dst+i]=ov(f,in.ops[in.off+i]); f.ip++; break;
      case O_INSERTV: { for(int i=0;i<in.ty.slots;i++) f.r[in.dst+i]=ov(f,in.ops[i]); for(int i=0;i<in.ty2.slots;i++) f.r[in.dst+in.off+i]=ov(f,in.ops[in.ty.slots+i]); f.ip++; break; }
      case O_RMW: { u64 a=concretise(ov(f,in.ops[0]),64); if(g_par) sched_point(a); Val o=load_ty(a,in.ty),v=ov(f,in.ops[1]),r; switch(in.sub){ case AtomicRMWInst::Xchg: r=v; break; case AtomicRMWInst::Add: r=bv_bin(K_ADD,o,v,in.ty.w); break; case AtomicRMWInst::Sub: r=bv_bin(K_SUB,o,v,in.ty.w); break; case AtomicRMWInst::And: r=bv_bin(K_AND,o,v,in.ty.w); break; case AtomicRMWInst::Or: r=bv_bin(K_OR,o,v,in.ty.w); break; case AtomicRMWInst::Xor: r=bv_bin(K_XOR,o,v,in.ty.w); break; default: engine_fail("rmw"); } store_ty(a,in.ty,r); f.r[in.dst]=o; f.ip++; break; }
      case O_CMPXCHG: { u64 a=concretise(ov(f,in.ops[0]),64); if(g_par) sched_point(a); Val o=load_ty(a,in.ty2); Val eq=bv_cmp(K_EQ,o,ov(f,in.ops[1]),in.ty2.w); bool b=decide(eq); Frame&g=g_stack->back(); if(b) store_ty(a,in.ty2,ov(g,in.ops[2])); g.r[in.dst]=o; g.r[in.dst+1]=CV(b); g.ip++; break; }
      case O_FENCE: f.ip++; break;
      case O_FREEZE: for(int i=0;i<in.ty.slots;i++) f.r[in.dst+i]=ov(f,in.ops[i]); f.ip++; break;
      case O_CALL: case O_INVOKE: {
        Function*F=in.callee; vector<Val> args; size_t na=in.ops.size()-(F?0:1); args.reserve(na); for(size_t i=0;i<na;i++) args.push_back(ov(f,in.ops[i]));
        if(!F){ u64 a=concretise(ov(f,in.ops.back()),64,"a function pointer"); auto it=g_fnaddr.find(a); if(it==g_fnaddr.end()){ 
            Dl_info di; if(a&&native_readable(a,1)&&dladdr((void*)a,&di)&&di.dli_sname){ string nm=di.dli_sname; 
              if(nm=="_ZNKSt9exception4whatEv"){ static u64 s=0; if(!s){ s=heap_alloc(16,'g'); strcpy((char*)s,"std::exception"); memset(shp(s),M_INIT,16);} f.r[in.dst]=CV(s); if(in.op==O_INVOKE) enter(f,in.t1); else f.ip++; break; }
              engine_fail("indirect call to native "+nm); }
            violation(V_MEM,"call through an invalid function pointer"); } F=it->second; }
        Frame&f1=g_stack->back();
        if(F->isDeclaration()&&F->getName()=="sx_par"){ sx_schedpoint(); }
        if(F->isIntrinsic()||F->isDeclaration()){
          vector<Val> out; bool cont=true; string n=F->getName().str(); int id=F->getIntrinsicID();
          if(F->isIntrinsic()){
            switch(id){
              case Intrinsic::memcpy: case Intrinsic::memmove: mem_copy(concretise(args[0],64),concretise(args[1],64),concretise(args[2],64,"a copy size")); break;
              case Intrinsic::memset: { u64 d=concretise(args[0],64),k=concretise(args[2],64); Val v=args[1]; chk_access(d,k,true); if(v.e){ for(u64 i=0;i<k;i++) mem_store(d+i,1,v);} else if(k){ memset((void*)d,(int)v.c,k); memset(shp(d),M_INIT,k);} break; }
              case Intrinsic::fabs: out.push_back(num_abs(args[0],fk_of(in.ty))); break;
              case Intrinsic::sqrt: out.push_back(num_sqrt(args[0],fk_of(in.ty))); break;
              case Intrinsic::minnum: case Intrinsic::maxnum: { FK k=fk_of(in.ty); Val c=num_cmp(C_LT,args[0],args[1],k); bool mn=id==Intrinsic::minnum; Val x=mn?args[0]:args[1],y=mn?args[1]:args[0]; out.push_back(c.e?mk_ite(c.e,x,y,64,true,k):(c.c?x:y)); break; }
              case Intrinsic::threadlocal_address: { u64 g=args[0].c; if(g_par){ static std::map<std::pair<u64,int>,u64> tls; u64&q=tls[{g,g_curthr}]; if(!q) for(auto&v:mod->globals()) if(g_gaddr.count(&v)&&g_gaddr[&v]==g){ u64 n=DL->getTypeAllocSize(v.getValueType()); q=(hp+15)/16*16; hp=q+n+32; memset(shp(q),M_INIT,n); init_mem(q,v.getInitializer()); } if(!q) engine_fail("thread-local variable"); g=q; } out.push_back(CV(g)); break; }
              case Intrinsic::fmuladd: case Intrinsic::fma: engine_fail("fma"); break;
              case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { int w=in.ty.w; Val lt=bv_cmp(id==Intrinsic::smax||id==Intrinsic::smin?K_SLT:K_ULT,args[0],args[1],w); bool mn=id==Intrinsic::smin||id==Intrinsic::umin; Val x=mn?args[0]:args[1],y=mn?args[1]:args[0]; out.push_back(lt.e?mk_ite(lt.e,x,y,w,false,FK_F64):(lt.c?x:y)); break; }
              case Intrinsic::abs: { int w=in.ty.w; Val neg=bv_cmp(K_SLT,args[0],CV(0),w); Val m=bv_bin(K_SUB,CV(0),args[0],w); out.push_back(neg.e?mk_ite(neg.e,m,args[0],w,false,FK_F64):(neg.c?m:args[0])); break; }
              case Intrinsic::usub_sat: { int w=in.ty.w; Val lt=bv_cmp(K_ULT,args[0],args[1],w); Val m=bv_bin(K_SUB,args[0],args[1],w); out.push_back(lt.e?mk_ite(lt.e,CV(0),m,w,false,FK_F64):(lt.c?CV(0):m)); break; }
              case Intrinsic::uadd_sat: { int w=in.ty.w; Val s=bv_bin(K_ADD,args[0],args[1],w); Val lt=bv_cmp(K_ULT,s,args[0],w); out.push_back(lt.e?mk_ite(lt.e,CV(wm(w)),s,w,false,FK_F64):(lt.c?CV(wm(w)):s)); break; }
              case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: { int w=in.argty[0].w; Val a=args[0],b=args[1];
                if(id==Intrinsic::uadd_with_overflow){ Val r=bv_bin(K_ADD,a,b,w); out.push_back(r); out.push_back(bv_cmp(K_ULT,r,a,w)); }
                else if(id==Intrinsic::usub_with_overflow){ out.push_back(bv_bin(K_SUB,a,b,w)); out.push_back(bv_cmp(K_ULT,a,b,w)); }
                else if(id==Intrinsic::sadd_with_overflow){ Val r=bv_bin(K_ADD,a,b,w); Val o=bv_cmp(K_SLT,bv_bin(K_AND,bv_bin(K_XOR,a,r,w),bv_bin(K_XOR,b,r,w),w),CV(0),w); out.push_back(r); out.push_back(o); }
                else if(id==Intrinsic::ssub_with_overflow){ Val r=bv_bin(K_SUB,a,b,w); Val o=bv_cmp(K_SLT,bv_bin(K_AND,bv_bin(K_XOR,a,b,w),bv_bin(K_XOR,a,r,w),w),CV(0),w); out.push_back(r); out.push_back(o); }
                else if((a.e||b.e)&&w<=32){ bool sg=id==Intrinsic::smul_with_overflow; Val x=sg?bv_sext(a,w,64):bv_zext(a,w,64),y=sg?bv_sext(b,w,64):bv_zext(b,w,64); Val r=bv_bin(K_MUL,x,y,64),l=bv_extract(r,64,0,w); out.push_back(l); out.push_back(bool_not(bv_cmp(K_EQ,r,sg?bv_sext(l,w,64):bv_zext(l,w,64),64))); }
                else if(id==Intrinsic::smul_with_overflow){ if(a.e) a=CV(concretise(a,w,"a product")); if(b.e) b=CV(concretise(b,w,"a product")); auto sg=[&](u64 v)->__int128{ return w>=64?(i64)v:(i64)((v^(1ULL<<(w-1)))&wm(w))-(i64)(1ULL<<(w-1)); }; __int128 r=sg(a.c)*sg(b.c); out.push_back(CV((u64)r&wm(w))); out.push_back(CV(r!=sg((u64)r&wm(w)))); }
                else { if(a.e) a=CV(concretise(a,w,"a product")); if(b.e) b=CV(concretise(b,w,"a product")); unsigned __int128 r=(unsigned __int128)a.c*b.c; out.push_back(CV((u64)r&wm(w))); out.push_back(CV(id==Intrinsic::umul_with_overflow?(r>>w)!=0:0)); } break; }
              case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: { u64 v=concretise(args[0],in.ty.w); int w=in.ty.w; u64 r; if(id==Intrinsic::ctpop) r=__builtin_popcountll(v); else if(id==Intrinsic::ctlz) r=v?__builtin_clzll(v)-(64-w):w; else r=v?__builtin_ctzll(v):w; out.push_back(CV(r)); break; }
              case Intrinsic::fshl: case Intrinsic::fshr: { int w=in.ty.w; u64 s=concretise(args[2],w)%w; Val hi=args[0],lo=args[1]; if(id==Intrinsic::fshr) s=s?w-s:0; if(id==Intrinsic::fshr&&s==0) out.push_back(lo); else if(s==0) out.push_back(hi); else out.push_back(bv_bin(K_OR,bv_bin(K_SHL,hi,CV(s),w),bv_bin(K_LSHR,lo,CV(w-s),w),w)); break; }
              case Intrinsic::load_relative: { u64 b=concretise(args[0],64),o=concretise(args[1],64); Val d=mem_load(b+o,4); out.push_back(CV(b+(u64)(i64)(int32_t)concretise(d,32))); break; }
              case Intrinsic::bswap: { out.push_back(CV(__builtin_bswap64(concretise(args[0],64))>>(64-in.ty.w))); break; }
              case Intrinsic::eh_typeid_for: out.push_back(CV((uint32_t)typeid_of(args[0].c))); break;
              case Intrinsic::trap: case Intrinsic::ubsantrap: violation(V_ABORT,"trap"); break;
              case Intrinsic::stacksave: out.push_back(CV(0)); break; case Intrinsic::stackrestore: break;
              case Intrinsic::expect: out.push_back(args[0]); break; case Intrinsic::is_constant: out.push_back(CV(0)); break;
              case Intrinsic::objectsize: out.push_back(CV(~0ULL)); break;
              case Intrinsic::is_fpclass: { FK k=fk_of(in.argty[0]); u64 mk=args[1].c; if(mk==3) out.push_back(num_uno(args[0],args[0],k)); else engine_fail("is_fpclass"); break; }
              case Intrinsic::ldexp: { cont=call_ext(F,"ldexp",args,in.argty,out,in.ty); break; }
              case Intrinsic::pow: cont=call_ext(F,"pow",args,in.argty,out,in.ty); break;
              case Intrinsic::ceil: cont=call_ext(F,"ceil",args,in.argty,out,in.ty); break; case Intrinsic::trunc: cont=call_ext(F,"trunc",args,in.argty,out,in.ty); break; case Intrinsic::round: cont=call_ext(F,"round",args,in.argty,out,in.ty); break; case Intrinsic::nearbyint: case Intrinsic::rint: cont=call_ext(F,"nearbyint",args,in.argty,out,in.ty); break;
              case Intrinsic::floor: cont=call_ext(F,"floor",args,in.argty,out,in.ty); break;
              default: engine_fail("intrinsic "+n);
            } }
          else { cont=call_ext(F,n,args,in.argty,out,in.ty); }
          if(!cont) break;
          Frame&g=g_stack->back(); if(in.dst>=0){ if(out.empty()) engine_fail("no result from "+n); for(size_t i=0;i<out.size()&&(int)i<in.ty.slots;i++) g.r[in.dst+i]=out[i]; }
          if(in.op==O_INVOKE) enter(g,in.t1); else g.ip++; break; }
        push_frame(F,args,in.dst,in.ty,false); (void)f1; break; }
    }
  }
}
vector<Val> g_retval;
static vector<Val> run_fn(Function*F,vector<Val> const& args){ Ty t=mkty(F->getReturnType()); push_frame(F,args,-1,t,true); size_t base=g_stack->size()-1; run(base); return g_retval; }

// ------------------------------------------------------------------ two-thread interleavings (sx_par)
// Threads are run on separate stacks; at every access to global (shared) memory the scheduler may switch.
static vector<vector<Frame>> g_pstk; static vector<bool> g_pdone; static vector<Frame>* g_mainstk; static bool g_skip=false; static int g_switches=0;
static std::pair<u64,u64> g_globrange;
static void switch_to(int t){ g_curthr=t; g_stack=&g_pstk[t]; }
static void sched_point(u64 addr){ // called before a memory access of the current thread
  if(addr<g_globrange.first||addr>=g_globrange.second) return; 
  if(g_skip){ g_skip=false; return; }
  int o=1-g_curthr; if(g_pdone[o]) return;
  if(do_fork()==0){ // child: let the other thread go first
    g_schedule+=std::to_string(o); switch_to(o); g_skip=true; throw 1; }
  g_schedule+=std::to_string(g_curthr);
}
static bool par_block(){ int o=1-g_curthr; if(g_pdone[o]) return true; g_schedule+=std::to_string(o); switch_to(o); g_skip=true; return false; }
static u64 g_pstp[2];
static void sx_schedpoint(){ // executes sx_par(f,a,g,b): called with caller's frame on top
  Frame&f=g_stack->back(); Ins&in=f.f->blks[f.blk].ins[f.ip]; Val v[4]; for(int i=0;i<4;i++) v[i]=ov(f,in.ops[i]);
  g_mainstk=g_stack; g_pstk.assign(2,{}); g_pdone.assign(2,false); g_par=true; 
  u64 savestp=stp;
  for(int t=0;t<2;t++){ g_stack=&g_pstk[t]; stp=savestp+t*(1<<20); push_frame(g_fnaddr[v[t*2].c],{v[t*2+1]},-1,mkty(Type::getVoidTy(ctx)),true); g_pstp[t]=stp; }
  int cur=0; if(do_fork()==0) cur=1; switch_to(cur); stp=g_pstp[cur]; g_schedule+=std::to_string(cur);
  int last=cur;
  while(!(g_pdone[0]&&g_pdone[1])){
    try { stp=g_pstp[g_curthr]; last=g_curthr; run(0); g_pdone[g_curthr]=true; g_skip=false; if(!g_pdone[1-g_curthr]){ switch_to(1-g_curthr); } }
    catch(int){ g_pstp[last]=stp; }
  }
  g_par=false; g_stack=g_mainstk; stp=savestp; 
  Frame&g=g_stack->back(); Ins&i2=g.f->blks[g.blk].ins[g.ip]; if(i2.op==O_INVOKE) enter(g,i2.t1); else g.ip++;
  throw 2;
}

static void segv(int s,siginfo_t*si,void*){ char b[200]; snprintf(b,200,"engine crashed with signal %d at %p",s,si->si_addr); if(__sync_bool_compare_and_swap(&sh->error,0,1)) snprintf(sh->errmsg,sizeof sh->errmsg,"%s",b); sh->stop=1; if(g_hastoken){ __sync_fetch_and_add(&sh->tokens,1);} _exit(3); }
static string jstr(string const&s){ string o="\""; for(char c:s){ if(c=='"'||c=='\\') o+='\\'; if(c=='\n'){ o+="\\n"; continue;} if((unsigned char)c<32) continue; o+=c; } return o+"\""; }

int main(int argc,char**argv){
  string file; for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{ return string(argv[++i]); };
    if(a=="--fpfork") o_fpfork=true; else if(a=="--out") o_out=nx(); else if(a=="--jobs") o_jobs=stoi(nx()); else if(a=="--max-ins") o_maxins=stoull(nx()); else if(a=="--max-depth") o_maxdepth=stoull(nx()); else if(a=="--max-viol") o_maxviol=stoi(nx()); else if(a=="--max-paths") o_maxpaths=stoull(nx()); else if(a=="--samples") o_samples=stoi(nx()); else if(a=="--time") o_timelimit=stod(nx()); else if(a=="--repo") o_repo=nx(); else if(a=="--no-uninit") o_uninit=false; else file=a; }
  g_t0=now();
  sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)sh,0,64);
  sh->tokens=o_jobs-1;
  if(mmap((void*)A0,ASZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)!=(void*)A0||mmap((void*)SH0,ASZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)!=(void*)SH0){ fprintf(stderr,"mmap failed\n"); return 3; }
  read_maps(); init_native();
  SMDiagnostic err; std::unique_ptr<Module> m=parseIRFile(file,err,ctx); if(!m){ err.print("sx",errs()); return 3; } mod=m.get(); DL=&mod->getDataLayout();
  sol_init();
  static vector<Frame> st; g_stack=&st; st.reserve(o_maxdepth+16);
  struct sigaction sa{}; sa.sa_sigaction=segv; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; static char alt[65536]; stack_t ss{}; ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,nullptr); sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0); sigaction(SIGABRT,&sa,0); sigaction(SIGFPE,&sa,0); 
  prctl(PR_SET_CHILD_SUBREAPER,1);
  // the exploration runs in a child so that the root only supervises
  pid_t w=fork();
  if(w==0){
    setpgid(0,0); g_isroot=false;
    // globals
    u64 gstart=hp; vector<GlobalVariable*> gv; for(auto&g:mod->globals()) if(!g.isDeclaration()&&!g.getName().startswith("llvm.")) { glob_addr(&g); gv.push_back(&g); }
    g_globrange={gstart,hp};
    for(auto*g:gv) init_mem(g_gaddr[g],g->getInitializer());
    for(auto*g:gv) if(g->isConstant()) memset(shp(g_gaddr[g]),M_CONST,DL->getTypeAllocSize(g->getValueType()));
    for(auto&F:*mod) if(!F.isDeclaration()){ g_lazy=true; translate(get_fn(&F)); g_lazy=false; }
    if(g_nins>=MAXINS) engine_fail("module too large");
    { string s; std::map<string,vector<int>> fi; for(int i=0;i<g_nins;i++) for(DILocation*d=g_insById[i]->getDebugLoc();d;d=d->getInlinedAt()) if(auto*sp=d->getScope()->getSubprogram()){ string fn=sp->getFilename().str(); if(fn.compare(0,o_repo.size()+1,o_repo+"/")==0) fi[fn.substr(o_repo.size()+1)+":"+sp->getName().str()].push_back(i); }
      for(auto&f:fi){ s+=f.first+"\t"; for(int i:f.second) s+=" "+std::to_string(i); s+="\n"; } append_file("functions.txt",s); 
      std::map<std::pair<string,int>,vector<int>> lines; for(int i=0;i<g_nins;i++) if(DILocation*d=g_insById[i]->getDebugLoc()){ string fn=d->getFilename().str(); if(fn.compare(0,o_repo.size()+1,o_repo+"/")==0) lines[{fn,d->getLine()}].push_back(i); }
      s.clear(); for(auto&l:lines){ s+=l.first.first+":"+std::to_string(l.first.second); for(int i:l.second) s+=" "+std::to_string(i); s+="\n"; } append_file("lines.txt",s); }
    auto runtop=[&](Function*F){ push_frame(F,{},-1,mkty(F->getReturnType()),true); for(;;){ try{ run(0); break; } catch(int x){ if(x!=2) engine_fail("stray schedule switch"); } } };
    if(auto*gc=mod->getGlobalVariable("llvm.global_ctors")) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())) { vector<std::pair<u64,Function*>> v; for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),cast<Function>(cs->getOperand(1))}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&x:v) runtop(x.second); }
    Function*T=mod->getFunction("sx_test"); if(!T) engine_fail("no sx_test");
    runtop(T);
    path_end(true);
  }
  // root: supervise
  int st2; bool timedout=false,killed=false; double tstop=0; setpgid(w,w); for(;;){ pid_t p=waitpid(-1,&st2,WNOHANG); if(p<0) break; if(p==0){ if(o_timelimit&&now()-g_t0>o_timelimit&&!sh->stop){ timedout=true; sh->stop=4; if(!sh->error){ sh->error=2; snprintf(sh->errmsg,sizeof sh->errmsg,"time limit of %.0f s reached",o_timelimit);} } 
      if(sh->stop){ if(!tstop) tstop=now(); else if(now()-tstop>4&&!killed){ killed=true; kill(-w,SIGKILL); } }
      usleep(2000); continue; }
    if(!(WIFEXITED(st2)&&(WEXITSTATUS(st2)==0||WEXITSTATUS(st2)==3))&&!killed){ if(__sync_bool_compare_and_swap(&sh->error,0,1)) snprintf(sh->errmsg,sizeof sh->errmsg,"a worker died with status %x",st2); sh->stop=1; __sync_fetch_and_add(&sh->tokens,1); } }
  double wall=now()-g_t0;
  std::set<int> fc; for(int i=0;i<MAXFN;i++) if(sh->fncov[i]) fc.insert(i);
  FILE*o=fopen((o_out+"/result.json").c_str(),"w");
  fprintf(o,"{\"paths\":%lu,\"assumed_away\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"instructions\":%lu,\"forks\":%lu,\"symbolic_branches\":%lu,\"asserts_symbolic\":%lu,\"asserts_concrete\":%lu,\"violations\":%lu,\"max_path_instructions\":%lu,\"samples\":%lu,\"wall_s\":%.3f,\"error\":%s,\"stopped\":%d,",sh->paths,sh->assumed,sh->queries,sh->sat,sh->unsat,sh->ns*1e-9,sh->maxns*1e-9,sh->instrs,sh->forks,sh->branches,sh->asserts_checked,sh->asserts_concrete,sh->violations,sh->maxpathins,sh->samples,wall,sh->error?jstr(sh->errmsg).c_str():"null",sh->stop);
  fprintf(o,"\"reach\":{"); for(int i=0;i<sh->nlab;i++) fprintf(o,"%s%s:%lu",i?",":"",jstr(sh->lab[i]).c_str(),sh->labhits[i]); fprintf(o,"},");
  // coverage from lines.txt / functions.txt
  { vector<string> fns; FILE*q=fopen((o_out+"/functions.txt").c_str(),"r"); { size_t cp=0; char*l=nullptr; if(q){ while(getline(&l,&cp,q)>0){ char*t=strchr(l,'\t'); if(!t) continue; string nm(l,t-l); bool h=false; char*p=t+1; while(*p){ int id=strtol(p,&p,10); if(id<MAXINS&&sh->cov[id]) h=true; while(*p==' '||*p=='\n') p++; } if(h) fns.push_back(nm); } fclose(q);} }
    fprintf(o,"\"functions\":["); for(size_t i=0;i<fns.size();i++) fprintf(o,"%s%s",i?",":"",jstr(fns[i]).c_str()); fprintf(o,"],");
    int tot=0,hit=0; vector<string> miss; q=fopen((o_out+"/lines.txt").c_str(),"r"); size_t cap=0; char*ln=nullptr; if(q){ while(getline(&ln,&cap,q)>0){ char*p=strchr(ln,' '); if(!p) continue; string nm(ln,p-ln); bool h=false; while(*p){ int id=strtol(p,&p,10); if(id<MAXINS&&sh->cov[id]) h=true; while(*p==' '||*p=='\n') p++; } tot++; if(h) hit++; else miss.push_back(nm); } fclose(q);} 
    fprintf(o,"\"lines_total\":%d,\"lines_hit\":%d,\"lines_missed\":[",tot,hit); for(size_t i=0;i<miss.size();i++) fprintf(o,"%s%s",i?",":"",jstr(miss[i]).c_str()); fprintf(o,"]}\n"); }
  fclose(o);
  return sh->error?3:(sh->violations?1:0);
}
