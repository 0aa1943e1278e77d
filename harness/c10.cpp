// C10, C09 (models added at run time): structure changes requested by transitions, against the reference simulation of sim.h
#include "sim.h"
#ifndef P_QUIET
#define P_QUIET 0     // models take fixed time advances in the last cycle
#endif
#ifndef P_CYC
#define P_CYC 2
#endif
#ifndef P_MENU
#define P_MENU 0
#endif
#ifndef P_LIS
#define P_LIS 0
#endif
#ifndef P_OUTSIDE
#define P_OUTSIDE 0
#endif
#ifndef P_MEALY
#define P_MEALY 0
#endif
static Lab* L; static G* gr; static int left=P_OPS; static int a,b; static std::vector<Lab::Change> menu;
static void pick(){ if(left<=0) return; left--; int k=sx_choice("change",(int)menu.size()+1); if(k==0) return; Lab::Change c=menu[k-1]; 
  if(c.op==4){ int n=L->m[c.m]->cnt; for(auto&x:L->pend) if(x.m==c.m){ if(x.op==0) n++; else if(x.op==1&&n>0) n--; } sx_assume(n>0); } // couplings are made to models in the simulation
  static char const* R[]={"add","remove","connect pins","disconnect pins","connect model","disconnect model","remove pin"}; sx_reach(R[c.op]); L->change(*gr,c); }
static void hook(Core*){ pick();
#ifdef P_BURST
  for(int i=1;i<P_BURST;i++) pick();    // several requests by one transition
#endif
}
void sx_test(){
  Lab lab_; L=&lab_; for(int i=0;i<P_NM;i++){ L->add((P_MEALY>>i)&1); L->m[i]->hook=hook; } 
#ifdef P_PERM
  L->permute();
#endif
  int x=P_NM-1; L->m[x]->in=false; L->m[x]->cnt=0;   // the last model is not in the simulation at first
  a=L->addPin(); int p0=L->m[0]->outPin, p1=L->m[1]->outPin, px=L->m[x]->outPin;
  L->couple(p0,a); L->feed(a,1); L->feed(p1,0);
#ifdef P_TWICE
  L->feed(a,1); L->couple(p0,a); L->m[1]->cnt=2;
#endif
  typedef Lab::Change X;
  if(P_MENU&1) for(int m=0;m<P_NM;m++){ menu.push_back(X{0,0,0,m}); menu.push_back(X{1,0,0,m}); }
  if(P_MENU&2){ menu.push_back(X{2,p1,a,0}); menu.push_back(X{3,p0,a,0}); menu.push_back(X{2,p0,a,0}); menu.push_back(X{6,a,0,0}); menu.push_back(X{6,p1,0,0}); menu.push_back(X{6,p0,0,0}); }
  if(P_MENU&4){ menu.push_back(X{4,p0,0,1}); menu.push_back(X{5,a,0,1}); menu.push_back(X{5,p1,0,0}); menu.push_back(X{4,a,0,0}); }
  if(P_MENU&8){ menu.push_back(X{0,0,0,x}); menu.push_back(X{4,a,0,x}); menu.push_back(X{4,px,0,0}); menu.push_back(X{1,0,0,x}); }
  if(P_MENU&32){ menu.push_back(X{4,a,0,0}); menu.push_back(X{5,a,0,0}); }   // one coupling made and removed
  if(P_MENU&64){ menu.push_back(X{2,p1,a,0}); menu.push_back(X{3,p1,a,0}); }
  if(P_MENU&16){ menu.push_back(X{0,0,0,1}); menu.push_back(X{1,0,0,1}); menu.push_back(X{4,a,0,1}); }
  for(auto c:L->m) c->draw(ZERO);
  std::shared_ptr<G> g=std::make_shared<G>(); gr=g.get(); L->wire(*g); S s(g);
  for(int i=0;i<P_LIS;i++){ auto l=std::make_shared<Listener>(); L->ls.push_back(l); s.addEventListener(l); }
  bool any=L->checkNext(s);
  for(int c=0;c<P_CYC&&any;c++){ L->quiet=P_QUIET&&c==P_CYC-1; for(int i=0;i<P_OUTSIDE;i++) pick(); L->begin(s.nextEventTime()); L->step(s); any=L->checkNext(s); if(c==P_CYC-1) sx_reach("all cycles");
    size_t n=0; for(auto k:L->m) if(k->in) n++; sx_assert(g->get_atomics().size()==n,"the models in the simulation"); }
  for(auto c:L->m) c->in=false; lab=nullptr; menu.clear(); L->ls.clear();
}
