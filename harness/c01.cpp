// C01-C05, C18, C20, C21: the simulator against the reference simulation of sim.h
#include "sim.h"
#ifndef P_QUIET
#define P_QUIET 0     // models take fixed time advances in the last cycle
#endif
#ifndef P_CYC
#define P_CYC 2
#endif
#ifndef P_TOPO
#define P_TOPO 0
#endif
#ifndef P_TWO
#define P_TWO 0
#endif
#ifndef P_LIS
#define P_LIS 0
#endif
static void topology(Lab& L,int n){
#if P_TOPO==1     // any direct couplings, self couplings included
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(sx_bool("coupled")) L.feed(L.m[i]->outPin,j);
#elif P_TOPO==2   // a ring through input pins
  for(int i=0;i<n;i++){ int q=L.addPin(); L.couple(L.m[i]->outPin,q); L.feed(q,(i+1)%n); }
#elif P_TOPO==3   // two paths to one receiver, a shared receiver, a second output pin
  { int a=L.addPin(), b=L.addPin(); L.couple(L.m[0]->outPin,a); L.couple(L.m[0]->outPin,b); L.feed(a,1); L.feed(b,1); if(n>2) L.feed(b,2); L.m[0]->outPin2=L.addPin(); L.feed(L.m[0]->outPin2,n-1); L.couple(L.m[0]->outPin2,a); L.feed(L.m[1]->outPin,0); }
#elif P_TOPO==4   // both directions
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i!=j) L.feed(L.m[i]->outPin,j);
#elif P_TOPO==5   // any of a set of pin and model couplings
  { int a=L.addPin(), b=L.addPin(); int s=L.m[0]->outPin; if(sx_bool("s-a")) L.couple(s,a); if(sx_bool("s-b")) L.couple(s,b); if(sx_bool("a-b")) L.couple(a,b); for(int p:{s,a,b}) for(int j=0;j<n;j++) if(j>0||p==a) if(sx_bool("to model")) L.feed(p,j); }
#endif
}
void sx_test(){
  Lab L; for(int i=0;i<P_NM;i++) L.add(false);
#ifdef P_PERM
  L.permute();
#endif
  topology(L,P_NM);
  L.start();
#ifdef P_SINGLE
  S s(L.sp[0]);
#else
  std::shared_ptr<G> g=std::make_shared<G>(); L.wire(*g); S s(g);
#endif
  for(int i=0;i<P_LIS;i++){ auto l=std::make_shared<Listener>(); L.ls.push_back(l); s.addEventListener(l); }
  TT before=ZERO; bool any=L.checkNext(s);
  for(int c=0;c<P_CYC&&any;c++){ L.quiet=P_QUIET&&c==P_CYC-1;
    L.begin(s.nextEventTime()); sx_assert(!(L.T<before),"time does not run backward");
#if P_TT==1||P_TT==6||P_TT==7
    if(c>0) sx_assert(!(L.T<before),"time does not run backward");
#endif
    L.step(s,P_TWO); before=L.T+EPS; any=L.checkNext(s); if(c==P_CYC-1) sx_reach("all cycles"); }
  if(!any) sx_reach("passive");
  for(auto c:L.m) c->in=false; lab=nullptr;
}
