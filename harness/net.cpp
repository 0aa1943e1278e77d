// Histories that mix ordinary and Mealy models, injected input, earlier times, tentative output, structure changes,
// listeners and kinds of networks, against the reference simulation of sim.h
#include "sim.h"
#ifndef P_CYC
#define P_CYC 2
#endif
#ifndef P_MEALY
#define P_MEALY 0    // mask of Mealy models
#endif
#ifndef P_INJ
#define P_INJ 0      // values injected in each cycle at most
#endif
#ifndef P_EARLY
#define P_EARLY 0    // a cycle may take place before the scheduled time
#endif
#ifndef P_TENT
#define P_TENT 0     // tentative computations before each cycle at most
#endif
#ifndef P_OPS
#define P_OPS 0      // structure changes in all
#endif
#ifndef P_LIS
#define P_LIS 0
#endif
#ifndef P_COUPLED
#define P_COUPLED 0  // 1: a coupled model with another one in it, changes are made to the inner one
#endif
#ifndef P_QUIET
#define P_QUIET 1
#endif
#ifndef P_MENU
#define P_MENU 63
#endif
#ifndef P_OUT
#define P_OUT 0      // mask of models that are not in the simulation at first
#endif
typedef adevs::Coupled<Val,TT> Cm;
static Lab* L; static G* gr; static Cm* inner; static int left_=P_OPS; static std::vector<Lab::Change> menu;
struct Cx { Cm& c; void add_atomic(Sp m){ c.add_atomic(m); } void remove_atomic(Sp m){ c.remove_atomic(m); } void connect(pin_t a,pin_t b){ c.create_coupling(a,b); } void connect(pin_t a,Sp m){ c.create_coupling(a,m); } void disconnect(pin_t a,pin_t b){ c.remove_coupling(a,b); } void disconnect(pin_t a,Sp m){ c.remove_coupling(a,m); } void remove_pin(pin_t){ sx_assert(false,"harness"); } };
static void pick(){ if(left_<=0) return; int k=sx_choice("change",(int)menu.size()+1); if(k==0) return; left_--; Lab::Change c=menu[k-1];
  if(c.op==4){ int n=L->m[c.m]->cnt; for(auto&x:L->pend) if(x.m==c.m){ if(x.op==0) n++; else if(x.op==1&&n>0) n--; } sx_assume(n>0); }
  static char const* R[]={"add","remove","connect pins","disconnect pins","connect model","disconnect model","remove pin"}; sx_reach(R[c.op]);
  if(P_COUPLED){ Cx x{*inner}; L->perform(x,c); 
    // a coupled model is a set: only a change of the set changes the network; its couplings to a model go with the model
    auto has=[&](int op){ int n=0; if(op==0) n=L->m[c.m]->cnt; else if(op==2){ auto e=Lab::find(L->pp,c.p,c.q); n=e?e->n:0; } else { auto e=Lab::find(L->pm,c.p,c.m); n=e?e->n:0; } for(auto&y:L->pend){ bool same=y.m==c.m&&y.p==c.p&&y.q==c.q; if(same&&y.op==op) n++; if(same&&y.op==op+1&&n>0) n--; if(op==4&&y.op==1&&y.m==c.m) n=0; } return n>0; };
    bool there=has(c.op&~1); if(there==((c.op&1)==1)) L->pend.push_back(c); }
  else L->change(*gr,c); }
static void hook(Core*){ pick(); }
void sx_test(){
  Lab lab_; L=&lab_; for(int i=0;i<P_NM;i++){ L->add((P_MEALY>>i)&1); L->m[i]->hook=hook; }
#ifdef P_PERM
  L->permute();
#endif
  int n=P_NM; int a=L->addPin(), in=L->addPin(); int p0=L->m[0]->outPin, pl=L->m[n-1]->outPin;
  L->couple(p0,a); L->feed(a,n>1?1:0); for(int i=1;i+1<n;i++) L->feed(L->m[i]->outPin,i+1);
  if(P_NM>1&&!(P_MEALY&1)) L->feed(pl,0);     // a loop that an ordinary model breaks
  L->feed(in,0); L->couple(in,a);
  typedef Lab::Change X; int x=n-1;
  if(P_MENU&1) menu.push_back(X{1,0,0,0});
  if(P_MENU&2) menu.push_back(X{0,0,0,x});
  if(P_MENU&4) menu.push_back(X{1,0,0,x});
  if(P_MENU&8) menu.push_back(X{3,p0,a,0});
  if(P_MENU&16) menu.push_back(X{4,in,0,x});
  if(P_MENU&32) menu.push_back(X{5,a,0,n>1?1:0});
  if(P_MENU&64) menu.push_back(X{2,in,pl,0});
  for(int i=0;i<n;i++) if((P_OUT>>i)&1){ L->m[i]->in=false; L->m[i]->cnt=0; for(auto&e:L->pm) if(e.d==i) e.n=0; }
  for(auto c:L->m) c->draw(ZERO);
  std::shared_ptr<G> g; std::shared_ptr<Cm> top, sub; std::unique_ptr<S> sp_;
  if(P_COUPLED){ top=std::make_shared<Cm>(); sub=std::make_shared<Cm>(); inner=sub.get(); top->add_coupled_model(sub); Cx c{*sub}; L->wire(c); sp_.reset(new S(top)); }
  else { g=std::make_shared<G>(); gr=g.get(); L->wire(*g); sp_.reset(new S(g)); }
  S& s=*sp_;
  for(int i=0;i<P_LIS;i++){ auto l=std::make_shared<Listener>(); L->ls.push_back(l); s.addEventListener(l); }
  TT last=ZERO;
  auto some=[&](){ int k=sx_choice("injections",P_INJ+1); for(int i=0;i<k;i++) L->inject(s,in); };
  for(int c=0;c<P_CYC;c++){ L->quiet=P_QUIET&&c==P_CYC-1;
    bool any=L->checkNext(s); TT nx=s.nextEventTime(); sx_assert(!any||!(nx<last),"time does not run backward");
    if(any){ int k=sx_choice("tentative",P_TENT+1); for(int r=0;r<k;r++){ if(P_INJ) some(); L->begin(nx); s.computeNextOutput(); L->finish(); for(auto m:L->m) sx_assert(m->trans==0,"computing output changes no state"); sx_assert(s.nextEventTime()==nx,"computing output does not change the time of the next event"); sx_reach("tentative"); } }
    bool early=P_EARLY&&sx_bool("early"); if(!early&&!any) break; TT t=nx;
    if(early){ t=last+draw_t("offset",0,P_TAMAX); if(any) sx_assume(t<nx); s.setNextTime(t); sx_reach("earlier"); }
    some(); if(!L->injected.empty()) sx_reach("injected");
    L->begin(t); L->step(s,c==0); last=t+EPS; if(c==P_CYC-1) sx_reach("all cycles");
    if(!P_COUPLED){ size_t k=0; for(auto m:L->m) if(m->in) k++; sx_assert(g->get_atomics().size()==k,"the models in the simulation"); } }
  L->checkNext(s);
  for(auto c:L->m) c->in=false; lab=nullptr; menu.clear(); L->ls.clear();
}
