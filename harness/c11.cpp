// C11 (counting), C12 (routing), C13 (provisional mode): Graph with symbolic pins
#include "sx_api.h"
#include "adevs/adevs.h"
#include <cstring>
#include <vector>
typedef adevs::Graph<int,double> G; typedef adevs::Atomic<int,double> A; typedef adevs::PinValue<int> PV; typedef adevs::pin_t pin_t;
struct M : A { double ta() { return 1.0; } void delta_int(){} void delta_ext(double,std::list<PV> const&){} void delta_conf(std::list<PV> const&){} void output_func(std::list<PV>&){} };
typedef std::shared_ptr<A> Sp;
#ifndef P_PINS
#define P_PINS 3
#endif
static std::vector<pin_t>* pins; static Sp mod[3];
static int NP=P_PINS;
// pin number i, i symbolic: the bytes of the pin object are selected without branching
static pin_t pin(int i){ pin_t r((*pins)[0]); unsigned char b[sizeof(pin_t)]; memcpy(b,(void*)&r,sizeof b);
  for(int p=1;p<NP;p++){ unsigned char c[sizeof(pin_t)]; memcpy(c,(void*)&(*pins)[p],sizeof c); unsigned m=0u-(unsigned)(i==p); for(size_t k=0;k<sizeof b;k++) b[k]=(unsigned char)((b[k]&~m)|(c[k]&m)); }
  memcpy((void*)&r,b,sizeof b); return r; }
static int num(pin_t const& p){ for(int i=0;i<NP;i++) if((*pins)[i]==p) return i; sx_assert(false,"an unknown pin"); return -1; }
// reference graph: lists of (source, destination, count)
struct Ref { struct E { int s,d,n; }; std::vector<E> pp,pm; int cnt[3]={0,0,0};
  static E* find(std::vector<E>& v,int s,int d){ for(auto&e:v) if(e.n>0&&e.s==s&&e.d==d) return &e; return nullptr; }
  static void inc(std::vector<E>& v,int s,int d){ if(E*e=find(v,s,d)) e->n++; else v.push_back(E{s,d,1}); }
  static void dec(std::vector<E>& v,int s,int d){ if(E*e=find(v,s,d)) e->n--; }
  void apply(int op,int p,int q,int m){ switch(op){ case 0: cnt[m]++; break; case 1: if(cnt[m]>0&&--cnt[m]==0) for(auto&e:pm) if(e.d==m) e.n=0; break;
      case 2: inc(pp,p,q); break; case 3: dec(pp,p,q); break; case 4: inc(pm,p,m); break; case 5: dec(pm,p,m); break;
      case 6: for(auto&e:pp) if(e.n>0&&(e.s==p||e.d==p)) e.n--; for(auto&e:pm) if(e.n>0&&e.s==p) e.n--; break; } }
  void walk(int from,std::vector<E>& out,int depth=0){ for(auto&e:pm) if(e.n>0&&e.s==from) out.push_back(E{e.s,e.d,1}); for(auto&e:pp) if(e.n>0&&e.s==from&&depth<8) walk(e.d,out,depth+1); } };
struct Op { int op,p,q,m; };
static void perform(G& g,Op o){ switch(o.op){ case 0: g.add_atomic(mod[o.m]); break; case 1: g.remove_atomic(mod[o.m]); break; case 2: { pin_t a=pin(o.p), b=pin(o.q); g.connect(a,b); break; } case 3: { pin_t a=pin(o.p), b=pin(o.q); g.disconnect(a,b); break; }
    case 4: { pin_t a=pin(o.p); g.connect(a,mod[o.m]); break; } case 5: { pin_t a=pin(o.p); g.disconnect(a,mod[o.m]); break; } default: { pin_t a=pin(o.p); g.remove_pin(a); break; } } }
static void same(G const& g,Ref& r,int q,int nm){
  std::list<std::pair<pin_t,Sp>> l; g.route(pin(q),l); std::vector<Ref::E> e; r.walk(q,e);
  sx_assert(l.size()==e.size(),"route gives the number of destinations the couplings imply");
  for(auto&x:l){ int p=num(x.first); bool f=false; for(auto&y:e) if(y.n>0&&x.second==mod[y.d]&&y.s==p){ y.n=0; f=true; break; } sx_assert(f,"route gives a destination the couplings imply"); }
  size_t n=0; for(int m=0;m<nm;m++) if(r.cnt[m]>0){ n++; sx_assert(g.get_atomics().count(mod[m])==1,"a model added more often than removed is in the graph"); }
  sx_assert(g.get_atomics().size()==n,"a model removed as often as added is not in the graph"); sx_trace(l.size()); sx_trace(n); }
static Op any(char const* n,int nm,bool coupledOnly=false){ Op o; int k=sx_choice("operation",coupledOnly?5:7); o.op=coupledOnly?k+2:k; o.p=o.q=o.m=0;
  bool pp=o.op==2||o.op==3, pm=o.op==4||o.op==5; 
  if(pp){ o.p=sx_int("source pin",0,NP-2); o.q=sx_int("destination pin",1,NP-1); sx_assume(o.p<o.q); } else if(pm||o.op==6) o.p=sx_int("pin",0,NP-1);
  if(pm||o.op<2) o.m=nm>1?sx_choice("model",nm):0;
  static char const* L[]={"add","remove","connect pins","disconnect pins","connect model","disconnect model","remove pin"}; sx_reach(L[o.op]); return o; }
void sx_test(){
  std::vector<pin_t> ps(NP); pins=&ps; for(auto&m:mod) m=std::make_shared<M>();
  G g; Ref r; int nm=P_MODELS;
#if P_MODE==1   // C11 a sequence of operations
  for(int i=0;i<P_OPS;i++){ Op o=any("",nm); perform(g,o); r.apply(o.op,o.p,o.q,o.m); }
  int q=sx_int("start pin",0,NP-1); same(g,r,q,nm); same(g,r,q,nm);
#elif P_MODE==2 // C11 operations on a graph in which everything has an instance count of up to two
  Op b[]={{0,0,0,0},{2,sx_int("s0",0,NP-2),sx_int("d0",1,NP-1),0},{4,sx_int("s1",0,NP-1),0,0}
#ifdef P_WIDE
   ,{4,sx_int("s2",0,NP-1),0,0}
#endif
  };
  sx_assume(b[1].p<b[1].q); if(nm>1){ Op x[]={{0,0,0,1},{4,b[2].p,0,1}}; for(auto&o:x){ perform(g,o); r.apply(o.op,o.p,o.q,o.m); } }
  for(auto&o:b){ int c=sx_choice("instances",3); for(int i=0;i<c;i++){ perform(g,o); r.apply(o.op,o.p,o.q,o.m); } }
  for(int i=0;i<P_OPS;i++){ Op o=any("",nm); perform(g,o); r.apply(o.op,o.p,o.q,o.m); }
  int q=sx_int("start pin",0,NP-1); same(g,r,q,nm);
#elif P_MODE==3 // C12 routing over an arbitrary acyclic pin graph
  for(int m=0;m<nm;m++){ g.add_atomic(mod[m]); r.apply(0,0,0,m); }
  for(int i=0;i<P_EDGES;i++){ Op o{2,sx_int("source pin",0,NP-2),sx_int("destination pin",1,NP-1),0}; sx_assume(o.p<o.q); perform(g,o); r.apply(o.op,o.p,o.q,o.m); }
  for(int i=0;i<P_CPL;i++){ Op o{4,sx_int("pin",0,NP-1),0,i%nm}; perform(g,o); r.apply(o.op,o.p,o.q,o.m); }
  for(int i=0;i<P_DEL;i++){ Op o{3,sx_int("source pin",0,NP-2),sx_int("destination pin",1,NP-1),0}; sx_assume(o.p<o.q); perform(g,o); r.apply(o.op,o.p,o.q,o.m); }
  int q=sx_int("start pin",0,NP-1); std::vector<Ref::E> e; r.walk(q,e); if(e.empty()) sx_reach("nothing reachable"); else if(e.size()>1) sx_reach("several destinations"); for(auto&x:e) if(x.s!=q) sx_reach("indirect"); 
  same(g,r,q,nm);
  { std::list<std::pair<pin_t,Sp>> l; l.push_back(std::make_pair(pin(q),mod[0])); size_t had=l.size(); g.route(pin(q),l); std::vector<Ref::E> e2; r.walk(q,e2); sx_assert(l.size()==had+e2.size()&&l.front().second==mod[0],"route appends to the list"); }
  same(g,r,q,nm);
#else           // C13 provisional mode
  for(int m=0;m<nm;m++){ g.add_atomic(mod[m]); r.apply(0,0,0,m); }
  { Op o{4,NP-1,0,0}; perform(g,o); r.apply(o.op,o.p,o.q,o.m); Op p{2,0,NP-1,0}; perform(g,p); r.apply(p.op,p.p,p.q,p.m); }
  Ref before(r); int q=sx_int("start pin",0,NP-1);
  g.set_provisional(true); sx_assert(g.get_pending().empty(),"nothing is pending before the first change");
  Op o[P_OPS]; for(int i=0;i<P_OPS;i++){ o[i]=any("",nm); perform(g,o[i]); same(g,before,q,nm); }
  sx_assert(g.get_pending().size()==P_OPS,"every change made while provisional is recorded");
  static G::pending_op const code[]={G::ADD_ATOMIC,G::REMOVE_ATOMIC,G::CONNECT_PIN_TO_PIN,G::DISCONNECT_PIN_FROM_PIN,G::CONNECT_PIN_TO_ATOMIC,G::DISCONNECT_PIN_FROM_ATOMIC,G::REMOVE_PIN};
  g.set_provisional(sx_bool("still provisional")); same(g,before,q,nm); sx_assert(g.get_pending().size()==P_OPS,"the recorded changes stay until they are taken");
  g.set_provisional(false); same(g,before,q,nm); std::list<G::graph_op> pend(g.get_pending()); g.get_pending().clear(); sx_assert(g.get_pending().empty(),"the list of changes is the graph's own");
  int i=0; for(auto&x:pend){ sx_assert(x.op==code[o[i].op],"the kind of change is recorded in order"); 
    if(o[i].op>=2){ sx_assert(x.pin[0]==pin(o[i].p),"the pin is recorded"); } if(o[i].op==2||o[i].op==3) sx_assert(x.pin[1]==pin(o[i].q),"the destination pin is recorded"); if(o[i].op<2||o[i].op==4||o[i].op==5) sx_assert(x.model==mod[o[i].m],"the model is recorded"); 
    switch(x.op){ case G::ADD_ATOMIC: g.add_atomic(x.model); break; case G::REMOVE_ATOMIC: g.remove_atomic(x.model); break; case G::REMOVE_PIN: g.remove_pin(x.pin[0]); break; case G::CONNECT_PIN_TO_PIN: g.connect(x.pin[0],x.pin[1]); break; case G::DISCONNECT_PIN_FROM_PIN: g.disconnect(x.pin[0],x.pin[1]); break; case G::CONNECT_PIN_TO_ATOMIC: g.connect(x.pin[0],x.model); break; default: g.disconnect(x.pin[0],x.model); }
    r.apply(o[i].op,o[i].p,o[i].q,o[i].m); same(g,r,q,nm); i++; }
  sx_assert(g.get_pending().empty(),"a change made directly is not recorded");
#endif
}
