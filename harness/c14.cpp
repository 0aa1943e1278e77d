// C14: hierarchies of coupled models against the flat reference simulation of sim.h
#include "sim.h"
#ifndef P_QUIET
#define P_QUIET 0
#endif
#ifndef P_CYC
#define P_CYC 1
#endif
#ifndef P_MEALY
#define P_MEALY 0
#endif
#ifndef P_ORDER
#define P_ORDER 0
#endif
#ifndef P_BACK
#define P_BACK 0
#endif
typedef adevs::Coupled<Val,TT> C; typedef std::shared_ptr<C> Cp;
void sx_test(){
  Lab L; int n=P_NM; for(int i=0;i<n;i++) L.add((P_MEALY>>i)&1);
  Cp c[3]={std::make_shared<C>(),std::make_shared<C>(),std::make_shared<C>()}; // the top, and two below it
  int nest=sx_choice("nesting",3);  // 1 and 2 beside each other, 2 in 1, 2 in both
  int first=P_ORDER?sx_choice("assembled before it is filled",2):0;
  auto hier=[&](){ c[0]->add_coupled_model(c[1]); if(nest!=1) c[0]->add_coupled_model(c[2]); if(nest!=0) c[1]->add_coupled_model(c[2]); };
  if(first) hier();
  for(int i=0;i<n;i++){ int w=sx_choice("member of",P_SHARE?7:3); int mask=P_SHARE?w+1:1<<w; for(int k=0;k<3;k++) if(mask>>k&1) c[k]->add_atomic(L.sp[i]); }
  int a=L.addPin();
  struct Cpl { int s,d; bool m; }; std::vector<Cpl> v; v.push_back(Cpl{L.m[0]->outPin,a,false}); v.push_back(Cpl{a,n-1,true}); if(P_BACK) v.push_back(Cpl{L.m[n-1]->outPin,0,true});
  for(auto&x:v){ int w=sx_choice("coupling in",P_CSHARE?4:3); if(x.m) L.feed(x.s,x.d); else L.couple(x.s,x.d); for(int k=0;k<3;k++) if(w==k||(w==3&&k!=1)) { if(x.m) c[k]->create_coupling(L.pins[x.s],L.sp[x.d]); else c[k]->create_coupling(L.pins[x.s],L.pins[x.d]); } }
  if(!first) hier();
  L.start(); S s(c[0]);
  bool any=L.checkNext(s);
  for(int k=0;k<P_CYC&&any;k++){ L.quiet=P_QUIET&&k==P_CYC-1; L.begin(s.nextEventTime()); L.step(s); any=L.checkNext(s); }
  sx_reach("done"); for(auto k:L.m) k->in=false; lab=nullptr;
}
