// C15: changes to coupled models in a running simulation, against the flattened network
#include "sx_api.h"
#include "adevs/adevs.h"
#include <vector>
#include <cstring>
typedef adevs::PinValue<int> PV; typedef adevs::pin_t pin_t; typedef adevs::Coupled<int,double> C; typedef adevs::Atomic<int,double> A; typedef adevs::Simulator<int,double> S; typedef std::shared_ptr<A> Sp; typedef std::shared_ptr<C> Cp;
#ifndef P_ATOMS
#define P_ATOMS 2
#endif
#define PINS 3
static pin_t* pins[PINS];
struct M : A { int got[PINS]={0,0,0}; int other=0, fired=0; double ta(){ return 16.0; } void delta_int(){ fired++; } void in(std::list<PV> const& xb){ for(auto&x:xb){ bool f=false; for(int i=0;i<PINS;i++) if(x.pin==*pins[i]){ got[i]++; f=true; } if(!f||x.value!=7) other++; } } void delta_ext(double,std::list<PV> const& xb){ in(xb); } void delta_conf(std::list<PV> const& xb){ fired++; in(xb); } void output_func(std::list<PV>&){} };
struct Edge { int s,d; bool m; };
static Edge EDGES[]={{0,1,false},{1,2,false},{0,0,true},{1,1,true},{2,0,true}};  // pin to pin, pin to atomic
enum { NE=5, NC=3 };
// what each coupled model has been told
struct Def { bool atom[2]={false,false}, child[NC]={false,false,false}, edge[NE]={false,false,false,false,false}; };
static Def def[NC];
static int inst(int k){ if(k==0) return 1; int n=0; for(int p=0;p<NC;p++) if(p!=k&&def[p].child[k]) n+=inst(p); return n; } // occurrences in the network of 0
static int total(int a){ int n=0; for(int k=0;k<NC;k++) if(def[k].atom[a]) n+=inst(k); return n; }
static int totalE(int e){ int n=0; for(int k=0;k<NC;k++) if(def[k].edge[e]) n+=inst(k); return n; }
static void reach(int p,int want[2][PINS]){ for(int e=0;e<NE;e++) if(totalE(e)>0&&EDGES[e].s==p){ if(EDGES[e].m){ for(int i=0;i<PINS;i++) if(i==p) want[EDGES[e].d][i]++; } else reach(EDGES[e].d,want); } }
static Cp c[NC]; static std::shared_ptr<M> m[2];
// pin number i, i symbolic: the bytes of the pin are selected without branching
static pin_t pin(int i){ pin_t r(*pins[0]); unsigned char b[sizeof(pin_t)]; memcpy(b,(void*)&r,sizeof b);
  for(int p=1;p<PINS;p++){ unsigned char c[sizeof(pin_t)]; memcpy(c,(void*)pins[p],sizeof c); unsigned m=0u-(unsigned)(i==p); for(size_t k=0;k<sizeof b;k++) b[k]=(unsigned char)((b[k]&~m)|(c[k]&m)); } memcpy((void*)&r,b,sizeof b); return r; }
static void couple(int k,int e,bool on){ Edge x=EDGES[e]; pin_t s=pin(x.s); if(x.m){ if(on) c[k]->create_coupling(s,m[x.d]); else c[k]->remove_coupling(s,m[x.d]); } else { pin_t d=pin(x.d); if(on) c[k]->create_coupling(s,d); else c[k]->remove_coupling(s,d); } def[k].edge[e]=on; }
static void atom(int k,int a,bool on){ if(on){ c[k]->add_atomic(m[a]); def[k].atom[a]=true; } else { c[k]->remove_atomic(m[a]); def[k].atom[a]=false; for(int e=0;e<NE;e++) if(EDGES[e].m&&EDGES[e].d==a) def[k].edge[e]=false; } }
static void child(int p,int k,bool on){ if(on) c[p]->add_coupled_model(c[k]); else c[p]->remove_coupled_model(c[k]); def[p].child[k]=on; }
static bool legal(){ for(int k=0;k<NC;k++) for(int e=0;e<NE;e++) if(def[k].edge[e]&&EDGES[e].m&&!def[k].atom[EDGES[e].d]) return false; return !(def[1].child[2]&&def[2].child[1]); } // couplings belong to a coupled model that has the atomic model
static void change(){
  int what=sx_choice("change",P_WHAT==3?6:P_WHAT==4?8:P_WHAT==5?2:P_WHAT), k=sx_choice("coupled model",NC); bool on; 
  static char const* R[]={"add coupled","remove coupled","add atomic","remove atomic","create coupling","remove coupling","",""};
  switch(what){ case 0: case 1: { int p=sx_choice("parent",2); sx_assume(p!=k&&k!=0); on=what==0; 
#if P_STRICT
      if(on) for(int q=0;q<NC;q++) sx_assume(q==p||!def[q].child[k]); // one parent at a time
#endif
      child(p,k,on); break; }
    case 2: case 3: { int a=sx_choice("atomic model",P_ATOMS); on=what==2; atom(k,a,on); break; }
    default: { int e=sx_choice("coupling",NE); on=what==4; couple(k,e,on); } }
  sx_assume(legal()); sx_reach(R[what]); }
static void check(S& s,double& t){
  s.setNextTime(t); s.execNextEvent(); t+=1; // changes take effect
  int want[2][PINS]; memset(want,0,sizeof want); int q=sx_int("pin",0,PINS-1); reach(q,want); for(auto x:m) for(int i=0;i<PINS;i++) x->got[i]=0; for(auto x:m) x->fired=0;
  PV x(pin(q),7); s.injectInput(x); s.setNextTime(t); s.execNextEvent(); 
  for(int a=0;a<2;a++){ sx_assert(m[a]->other==0,"only what was injected arrives"); for(int i=0;i<PINS;i++) sx_assert(m[a]->got[i]==want[a][i],"input arrives along the couplings of the flattened network"); sx_trace(m[a]->got[0]); sx_assert(m[a]->fired==0,"no event before its time"); }
  for(int i=0;i<12&&s.nextEventTime()<1000&&(i<2||s.nextEventTime()<=t+4);i++){ t=s.nextEventTime(); s.execNextEvent(); }
  for(int a=0;a<2;a++){ bool in=total(a)>0; sx_assert((m[a]->fired>0)==in,"a model takes part exactly when the flattened network has it"); if(in) sx_reach("in"); else sx_reach("out"); }
  t+=1; }
void sx_test(){
  EDGES[0].s=0; EDGES[0].d=1; EDGES[2].s=0; for(auto&p:pins) p=new pin_t();
#if P_SYM
  EDGES[0].d=sx_int("destination of a coupling",1,PINS-1); EDGES[2].s=sx_int("pin of a coupling",0,1);
#endif
  for(auto&k:c) k=std::make_shared<C>(); for(auto&a:m) a=std::make_shared<M>();
#if P_INIT==0     // empty
#elif P_INIT==1   // 1 in 0 with everything, 2 apart with a copy of some
  for(int a=0;a<2;a++) atom(1,a,true); for(int e=0;e<NE;e++) couple(1,e,true); child(0,1,true); atom(2,0,true); couple(2,0,true); couple(2,2,true);
#elif P_INIT==2   // 2 in 1 in 0
  child(0,1,true); child(1,2,true); atom(2,0,true); atom(1,1,true); atom(1,0,true); couple(1,3,true); couple(2,1,true); couple(2,2,true); couple(1,0,true);
#elif P_INIT==4   // 2 in 0 and in 1, 1 in 0: two occurrences of 2
  atom(2,0,true); atom(1,1,true); atom(0,1,true); couple(2,0,true); couple(2,2,true); couple(1,3,true); child(0,1,true); child(0,2,true); child(1,2,true);
#elif P_INIT==5   // 1 holds nothing but 2, and 2 everything
  for(int a=0;a<2;a++) atom(2,a,true); couple(2,0,true); couple(2,2,true); couple(2,3,true); child(0,1,true); child(1,2,true);
#elif P_INIT==3   // 1 and 2 in 0 and 2 in 1, shared contents
  atom(1,0,true); atom(2,0,true); atom(0,1,true); couple(0,3,true); couple(1,0,true); couple(2,0,true); couple(1,2,true); couple(2,2,true); child(0,1,true); child(0,2,true);
#endif
#if P_AGAIN
  { S before(c[0]); }
#endif
  { S s(c[0]); double t=1; for(int i=0;i<P_OPS;i++) change(); check(s,t);
#if P_THEN
    for(int i=0;i<P_THEN;i++) change(); check(s,t);
#endif
  }
  for(auto&k:c) k.reset(); for(auto&a:m) a.reset(); for(auto&p:pins) delete p;
}
