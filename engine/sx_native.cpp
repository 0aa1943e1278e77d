// Native runtime for the harnesses: replays a counterexample or sample paths against the ordinarily compiled code.
//   native REPLAY            run the harness with the recorded values
//   native --samples FILE    run every recorded path and compare its trace with the one computed by the engine
// Exit status: 0 passed, 10 assertion failed, 11 memory fault, 12 exception/terminate, 13 abort, 14 time-out, 15 assumption false, 16 value list mismatch
#include "sx_api.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <new>
#include <initializer_list>
#include <exception>
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#define UNDEF(a,n) VALGRIND_MAKE_MEM_UNDEFINED(a,n)
#else
#define UNDEF(a,n)
#endif
namespace {
struct Item { char type; char name[64]; long v; int sc; };
Item items[20000]; int nitems=0, pos=0; 
char tracebuf[1<<20]; size_t tracelen=0; bool quiet=false;
void say(const char* m){ if(!quiet){ ssize_t r=write(2,m,strlen(m)); r=write(2,"\n",1); (void)r; } }
[[noreturn]] void quit(int c,const char* m){ say(m); _exit(c); }
Item& next(const char* name,char t){ while(pos<nitems&&items[pos].type=='e') pos++; if(pos>=nitems){ quit(16,"replay: no value left"); } Item& i=items[pos++]; 
  char nm[64]; strncpy(nm,name,63); nm[63]=0; for(char*c=nm;*c;c++) if(*c==' '||*c=='\n') *c='_';
  if(i.type!=t||strcmp(i.name,nm)){ quit(16,"replay: value order differs"); } return i; }
// fence allocator: increasing addresses, never reused, one guard page after every block
const size_t PG=4096; char* base=nullptr; size_t off=0; const size_t TOTAL=1ul<<36;
struct Blk { char* p; size_t n; size_t lo,len; char kind; bool live; };
Blk* blks=nullptr; size_t nblk=0; const size_t MAXB=1u<<22; long live_bytes=0, live_blocks=0; bool active=false; volatile int lk=0;
void lock(){ while(__sync_lock_test_and_set(&lk,1)); } void unlock(){ __sync_lock_release(&lk); }
void* falloc(size_t n,char kind){
  lock();
  if(!base){ base=(char*)mmap((void*)0x600000000000ul,TOTAL,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); blks=(Blk*)mmap(nullptr,MAXB*sizeof(Blk),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); }
  size_t need=(n+PG-1)/PG*PG; if(!need) need=PG; if(off+need+PG>TOTAL||nblk>=MAXB) quit(13,"allocator exhausted");
  char* pg=base+off; mprotect(pg,need,PROT_READ|PROT_WRITE); off+=need+PG; 
  size_t al=n%16==0?16:8; char* p=pg+need-(n+al-1)/al*al; memset(pg,0xCD,need); UNDEF(pg,need);
  blks[nblk++]={p,n,(size_t)(pg-base),need,kind,active}; if(active){ live_bytes+=n; live_blocks++; }
  unlock(); return p; }
void ffree(void* q,char kind){ if(!q) return; lock(); 
  size_t lo=0,hi=nblk; while(lo<hi){ size_t m=(lo+hi)/2; if(blks[m].p<=(char*)q) lo=m+1; else hi=m; } 
  if(lo==0||blks[lo-1].p!=q) quit(11,"MEMORY: free of a pointer that was not allocated"); Blk& b=blks[lo-1]; if(b.len==0) quit(11,"MEMORY: double free"); if(b.kind!=kind) quit(11,"MEMORY: mismatched delete");
  if(b.live){ live_bytes-=b.n; live_blocks--; } mprotect(base+b.lo,b.len,PROT_NONE); b.len=0; unlock(); }
void onsig(int s,siginfo_t* si,void*){ if(s==SIGALRM) quit(14,"TIMEOUT"); if(s==SIGABRT) quit(13,"ABORT"); if(s==SIGFPE) quit(13,"ARITHMETIC FAULT"); if(s==SIGILL||s==SIGTRAP) quit(13,"TRAP"); char b[100]; snprintf(b,100,"MEMORY: fault at %p",si->si_addr); quit(11,b); }
void onterm(){ quit(12,"TERMINATE: uncaught exception or std::terminate"); }
bool load(FILE* f,bool samples,char* expect,size_t cap){ nitems=0; pos=0; size_t el=0; char l[600]; bool any=false; 
  while(fgets(l,sizeof l,f)){ if(l[0]=='#') continue; if(samples&&!strncmp(l,"PATH",4)){ any=true; continue; } if(samples&&!strncmp(l,"END",3)){ expect[el]=0; return true; } if(samples&&l[0]=='T'&&l[1]==' '){ size_t n=strlen(l); if(el+n<cap){ memcpy(expect+el,l,n); el+=n; } continue; }
    Item i; if(sscanf(l,"%c %63s %ld %d",&i.type,i.name,&i.v,&i.sc)==4&&nitems<20000) items[nitems++]=i; }
  return samples?false:(any||true); }
}
#ifndef SX_SYSTEM_NEW
void* operator new(size_t n){ return falloc(n,'n'); }
void* operator new[](size_t n){ return falloc(n,'a'); }
void* operator new(size_t n,std::nothrow_t const&) noexcept { return falloc(n,'n'); }
void operator delete(void* p) noexcept { ffree(p,'n'); }
void operator delete[](void* p) noexcept { ffree(p,'a'); }
void operator delete(void* p,size_t) noexcept { ffree(p,'n'); }
void operator delete[](void* p,size_t) noexcept { ffree(p,'a'); }
#endif
extern "C" {
int sx_int(char const* n,int,int){ return (int)next(n,'i').v; }
long sx_long(char const* n,long,long){ return next(n,'i').v; }
bool sx_bool(char const* n){ return next(n,'b').v!=0; }
unsigned char sx_byte(char const* n){ return (unsigned char)next(n,'y').v; }
double sx_dyadic(char const* n,long,long,int){ Item& i=next(n,'d'); return ldexp((double)i.v,-i.sc); }
float sx_dyadicf(char const* n,long,long,int){ Item& i=next(n,'f'); return (float)ldexp((double)i.v,-i.sc); }
long double sx_dyadicl(char const* n,long,long,int){ Item& i=next(n,'l'); return ldexpl((long double)i.v,-i.sc); }
double sx_double(char const* n){ Item& i=next(n,'x'); double d; memcpy(&d,&i.v,8); return d; }
int sx_choice(char const* n,int){ return (int)next(n,'i').v; }
void sx_assume(bool c){ if(!c) quit(15,"ASSUMPTION FALSE"); }
void sx_assert_(bool c,char const* m){ if(!c){ char b[600]; snprintf(b,600,"ASSERTION FAILED: %s",m); quit(10,b); } }
void sx_reach(char const*){}
void sx_trace(long v){ if(tracelen+64<sizeof tracebuf) tracelen+=snprintf(tracebuf+tracelen,64,"T %ld\n",v); }
void sx_traced(double v){ if(tracelen+64<sizeof tracebuf) tracelen+=snprintf(tracebuf+tracelen,64,"T %a\n",v); }
long sx_concrete(long v){ return v; }
int sx_symbolic(void){ return 0; }
size_t sx_live_bytes(void){ return live_bytes; }
size_t sx_live_blocks(void){ return live_blocks; }
}
#ifndef SX_PAR
static void* thr(void* p){ void** q=(void**)p; pthread_barrier_wait((pthread_barrier_t*)q[2]); ((void(*)(void*))q[0])(q[1]); return nullptr; }
extern "C" void sx_par(void(*f)(void*),void* a,void(*g)(void*),void* b){ pthread_barrier_t ba; pthread_barrier_init(&ba,nullptr,2); void* x[3]={(void*)f,a,&ba}; void* y[3]={(void*)g,b,&ba}; pthread_t t1,t2; pthread_create(&t1,nullptr,thr,x); pthread_create(&t2,nullptr,thr,y); pthread_join(t1,nullptr); pthread_join(t2,nullptr); }
#else
// The code under test was compiled with the instrumentation of the thread sanitizer, whose functions are defined here:
// one thread runs at a time, and SX_SCHED="first,i,j,..." has it pause for the other before its i-th, j-th, ... access to global memory (counted over both).
#include <sched.h>
#include <dlfcn.h>
#include <atomic>
extern "C" { extern char __data_start, _end; }
static std::atomic<int> turn{-1}; static std::atomic<bool> over[2]; static thread_local int self=-1; static int points, since, pauses[16], npauses;
static void give(){ int o=1-self; if(over[o]) return; since=0; turn=o; while(turn!=self) sched_yield(); }
static void point(void* a){ if(self<0||(char*)a<&__data_start||(char*)a>=&_end) return; points++; since++; if(since>20000){ give(); return; } for(int i=0;i<npauses;i++) if(pauses[i]==points){ give(); return; } }
static void* thr(void* p){ void** q=(void**)p; int k=(int)(long)q[2]; while(turn!=k) sched_yield(); self=k; ((void(*)(void*))q[0])(q[1]); self=-1; over[k]=true; turn=1-k; return nullptr; }
extern "C" void sx_par(void(*f)(void*),void* a,void(*g)(void*),void* b){ char const* e=getenv("SX_SCHED"); int first=e?atoi(e):0; npauses=0; points=0; over[0]=over[1]=false; while(e&&(e=strchr(e,','))&&npauses<16) pauses[npauses++]=atoi(++e);
  void* x[3]={(void*)f,a,(void*)0L}; void* y[3]={(void*)g,b,(void*)1L}; pthread_t t1,t2; turn=-1; pthread_create(&t1,nullptr,thr,x); pthread_create(&t2,nullptr,thr,y); turn=first; pthread_join(t1,nullptr); pthread_join(t2,nullptr); }
extern "C" int pthread_mutex_lock(pthread_mutex_t* m){ static int(*real)(pthread_mutex_t*)=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_lock"); if(self<0) return real(m); point((void*)m); int r; for(int i=0;(r=pthread_mutex_trylock(m))==16&&i<1000;i++) give(); return r; }
#define ACC(n) extern "C" void __tsan_read##n(void* a){ point(a); } extern "C" void __tsan_write##n(void* a){ point(a); } extern "C" void __tsan_read_write##n(void* a){ point(a); } extern "C" void __tsan_unaligned_read##n(void* a){ point(a); } extern "C" void __tsan_unaligned_write##n(void* a){ point(a); } extern "C" void __tsan_unaligned_read_write##n(void* a){ point(a); } extern "C" void __tsan_volatile_read##n(void* a){ point(a); } extern "C" void __tsan_volatile_write##n(void* a){ point(a); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
extern "C" { void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){} void __tsan_ignore_thread_begin(){} void __tsan_ignore_thread_end(){} void __tsan_vptr_update(void**,void*){} void __tsan_vptr_read(void**){} void __tsan_read_range(void* a,long){ point(a); } void __tsan_write_range(void* a,long){ point(a); }
 void* __tsan_memcpy(void* d,void const* s,size_t n){ point(d); point((void*)s); return memmove(d,s,n); } void* __tsan_memmove(void* d,void const* s,size_t n){ point(d); point((void*)s); return memmove(d,s,n); } void* __tsan_memset(void* d,int c,size_t n){ point(d); return memset(d,c,n); }
 void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){} }
#define ATO(b,T) extern "C" { T __tsan_atomic##b##_load(T volatile const* a,int){ point((void*)a); return *a; } void __tsan_atomic##b##_store(T volatile* a,T v,int){ point((void*)a); *a=v; } \
 T __tsan_atomic##b##_exchange(T volatile* a,T v,int){ point((void*)a); T o=*a; *a=v; return o; } T __tsan_atomic##b##_fetch_add(T volatile* a,T v,int){ point((void*)a); T o=*a; *a=o+v; return o; } T __tsan_atomic##b##_fetch_sub(T volatile* a,T v,int){ point((void*)a); T o=*a; *a=o-v; return o; } \
 T __tsan_atomic##b##_fetch_and(T volatile* a,T v,int){ point((void*)a); T o=*a; *a=o&v; return o; } T __tsan_atomic##b##_fetch_or(T volatile* a,T v,int){ point((void*)a); T o=*a; *a=o|v; return o; } T __tsan_atomic##b##_fetch_xor(T volatile* a,T v,int){ point((void*)a); T o=*a; *a=o^v; return o; } T __tsan_atomic##b##_fetch_nand(T volatile* a,T v,int){ point((void*)a); T o=*a; *a=~(o&v); return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(T volatile* a,T* c,T v,int,int){ point((void*)a); T o=*a; if(o==*c){ *a=v; return 1; } *c=o; return 0; } int __tsan_atomic##b##_compare_exchange_weak(T volatile* a,T* c,T v,int,int){ point((void*)a); T o=*a; if(o==*c){ *a=v; return 1; } *c=o; return 0; } T __tsan_atomic##b##_compare_exchange_val(T volatile* a,T c,T v,int,int){ point((void*)a); T o=*a; if(o==c) *a=v; return o; } }
ATO(8,unsigned char) ATO(16,unsigned short) ATO(32,unsigned) ATO(64,unsigned long)
#endif
int main(int argc,char** argv){
  if(argc<2) return 16;
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onsig; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; static char alt[1<<16]; stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,nullptr);
#ifndef SX_SYSTEM_NEW
  for(int s:{SIGSEGV,SIGBUS,SIGABRT,SIGALRM,SIGFPE,SIGILL,SIGTRAP}) sigaction(s,&sa,nullptr);
#endif
  std::set_terminate(onterm);
  bool samples=!strcmp(argv[1],"--samples"); FILE* f=fopen(argv[samples?2:1],"r"); if(!f) return 16;
  if(!samples){ load(f,false,nullptr,0); fclose(f); alarm(20); active=true; sx_test(); fprintf(stderr,"PASSED\n"); fflush(stderr); _exit(0); }
  static char expect[1<<20]; int n=0,bad=0; quiet=true;
  while(load(f,true,expect,sizeof expect)){ n++; fflush(stdout); pid_t p=fork(); if(!p){ alarm(20); active=true; sx_test(); tracebuf[tracelen]=0; _exit(strcmp(tracebuf,expect)?20:0); } int st; waitpid(p,&st,0); int c=WIFEXITED(st)?WEXITSTATUS(st):99; if(c){ bad++; if(bad<4) printf("sample %d: exit %d\n",n,c); } }
  printf("validated %d of %d\n",n-bad,n); return bad?1:0;
}
