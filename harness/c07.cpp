// C07, C08: Mealy models against the reference simulation of sim.h
#include "sim.h"
#ifndef P_QUIET
#define P_QUIET 0     // models take fixed time advances in the last cycle
#endif
#ifndef P_CYC
#define P_CYC 1
#endif
#ifndef P_MOORE
#define P_MOORE 0      // mask of ordinary models
#endif
#ifndef P_INJ
#define P_INJ 0
#endif
#ifndef P_MODE
#define P_MODE 1
#endif
#ifndef P_LIS
#define P_LIS 0
#endif
#ifndef P_TENT
#define P_TENT 0
#endif
#ifndef P_EARLY
#define P_EARLY 0      // input may be injected before the time of the next event
#endif
#ifndef P_IMM
#define P_IMM -1       // if set: mask of the models that are imminent at first, the others are passive
#endif
#ifndef P_ONE
#define P_ONE 0        // mask of models that always produce exactly one value
#endif
#ifndef P_INMASK
#define P_INMASK -1    // models that receive injected input, -1: any
#endif
#ifndef P_SELF
#define P_SELF 0
#endif
static bool moore(int i){ return (P_MOORE>>i)&1; }
#if P_MODE==1
void sx_test(){
  Lab L; int n=P_NM; for(int i=0;i<n;i++) L.add(!moore(i));
#ifdef P_PERM
  L.permute();
#endif
#if defined(P_DIAMOND)  // 0 -> 1, 2 -> 3 (through pins), with 0 -> 3 as well
  L.feed(L.m[0]->outPin,1); L.feed(L.m[0]->outPin,2); L.feed(L.m[0]->outPin,3); { int p=L.addPin(); L.couple(L.m[1]->outPin,p); L.couple(L.m[2]->outPin,p); L.feed(p,3); }
#elif defined(P_CHAIN)
  for(int i=0;i+1<n;i++) {
#ifdef P_VIA
    { int p=L.addPin(); L.couple(L.m[i]->outPin,p); L.feed(p,i+1); }
#else
    L.feed(L.m[i]->outPin,i+1);
#endif
  }
#elif defined(P_FAN) // all but the last two -> the last but one -> the last
  for(int i=0;i+2<n;i++) L.feed(L.m[i]->outPin,n-2);
  L.feed(L.m[n-2]->outPin,n-1);
#elif defined(P_DEEP) // 0, 1 -> 2 -> 3, 4 -> 3
  L.feed(L.m[0]->outPin,2); L.feed(L.m[1]->outPin,2); L.feed(L.m[2]->outPin,3); L.feed(L.m[4]->outPin,3);
#else
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) if((moore(i)||moore(j)||i<j)&&(i!=j)) if(sx_bool("coupled")) L.feed(L.m[i]->outPin,j);
#endif
  int in=L.addPin(); if(P_INJ) for(int j=0;j<n;j++) if(P_INMASK>=0?(P_INMASK>>j)&1:sx_bool("input")) L.feed(in,j);
  for(int i=0;i<n;i++) if((P_ONE>>i)&1) L.m[i]->fire=1;
  if(P_IMM>=0){ for(int i=0;i<n;i++){ Core* c=L.m[i]; bool now=(P_IMM>>i)&1; c->tL=ZERO; c->passive=!now; c->ta_=c->tN=now?ONE:INF; } } else L.start();
   std::shared_ptr<G> g=std::make_shared<G>(); L.wire(*g); S s(g);
  for(int i=0;i<P_LIS;i++){ auto l=std::make_shared<Listener>(); L.ls.push_back(l); s.addEventListener(l); }
  for(int c=0;c<P_CYC;c++){ L.quiet=P_QUIET&&c==P_CYC-1; if(!L.checkNext(s)) break; for(int r=0;r<P_TENT;r++){ L.begin(s.nextEventTime()); s.computeNextOutput(); L.finish(); } for(int i=0;i<P_INJ;i++) L.inject(s,in); if(P_EARLY&&sx_bool("early")){ TT t=draw_t("earlier",0,P_TAMAX); sx_assume(!(t<L.T)&&t<s.nextEventTime()); s.setNextTime(t); sx_reach("earlier"); } L.begin(s.nextEventTime()); L.step(s); if(c==P_CYC-1) sx_reach("all cycles"); }
  L.checkNext(s); for(auto c:L.m) c->in=false; lab=nullptr; }
#else // C08: any couplings; which models produce output is fixed
void sx_test(){
  Lab L; int n=P_NM; for(int i=0;i<n;i++) L.add(!moore(i));
#ifdef P_PERM
  L.permute();
#endif
  std::vector<std::vector<char>> e(n,std::vector<char>(n,0));
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(P_SELF||i!=j) if(sx_bool("coupled")){ e[i][j]=1; L.feed(L.m[i]->outPin,j); }
  std::vector<char> act(n,0), im(n,0), fire(n,0);
  for(int i=0;i<n;i++){ Core* c=L.m[i]; c->fire=P_ALLFIRE||sx_bool("fires"); fire[i]=c->fire; bool now=P_ALLFIRE?i==0:sx_bool("imminent"); im[i]=now; act[i]=now; c->tL=ZERO; c->ta_=now?TT(1):TT(2); c->tN=c->ta_; }
  bool any=false; for(int i=0;i<n;i++) any=any||im[i]; sx_assume(any);
  // models reached within the cycle; an ordinary model passes nothing on
  for(int r=0;r<n;r++) for(int i=0;i<n;i++) if(act[i]&&fire[i]&&(!moore(i)||im[i])) for(int j=0;j<n;j++) if(e[i][j]) act[j]=1;
  // loops of active Mealy models that produce output
  std::vector<std::vector<char>> r(n,std::vector<char>(n,0)); for(int i=0;i<n;i++) for(int j=0;j<n;j++) r[i][j]=e[i][j]&&act[i]&&fire[i]&&!moore(i)&&!moore(j);
  for(int k=0;k<n;k++) for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(r[i][k]&&r[k][j]) r[i][j]=1;
  bool loop=false; for(int i=0;i<n;i++) loop=loop||r[i][i];
  std::shared_ptr<G> g=std::make_shared<G>(); L.wire(*g); S s(g); bool threw=false;
  L.begin(s.nextEventTime());
  if(loop){ try{ s.computeNextOutput(); } catch(adevs::exception& x){ threw=true; sx_reach("rejected"); Core* w=nullptr; for(auto c:L.m) if((void*)c->self==x.who()||(void*)static_cast<MMdl*>(c->self)==x.who()) w=c; sx_assert(w!=nullptr,"the exception names a model"); sx_assert(r[w->i][w->i],"the exception names a model on the loop"); }
    sx_assert(threw,"a loop of Mealy models is rejected"); for(auto c:L.m) sx_assert(c->trans==0,"a loop of Mealy models changes no state"); }
  else { sx_reach("accepted"); try{ L.step(s); } catch(adevs::exception& x){ sx_assert(false,"an acyclic network of Mealy models is accepted"); } }
  for(auto c:L.m) c->in=false; lab=nullptr; }
#endif
