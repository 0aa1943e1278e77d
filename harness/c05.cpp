// C05, C06: injected input, forced event times and tentative output against the reference simulation of sim.h
#include "sim.h"
#ifndef P_QUIET
#define P_QUIET 0     // models take fixed time advances in the last cycle
#endif
#ifndef P_CYC
#define P_CYC 2
#endif
#ifndef P_TENT
#define P_TENT 0     // tentative computations before each cycle
#endif
#ifndef P_INJ
#define P_INJ 1
#endif
#ifndef P_CLEAR
#define P_CLEAR 0
#endif
#ifndef P_MEALY
#define P_MEALY 0    // mask of Mealy models
#endif
#ifndef P_TWICE
#define P_TWICE 0    // an earlier or later time may be set first
#endif
#ifndef P_LIS
#define P_LIS 0
#endif
#ifndef P_LATE
#define P_LATE 0
#endif
#ifndef P_TENTINJ
#define P_TENTINJ 0
#endif
static void some(Lab& L,S& s,int pins){ int n=sx_choice("injections",P_INJ+1); for(int i=0;i<n;i++){ int p=P_LATE?pins-1:sx_choice("pin",pins); L.inject(s,p); } }
void sx_test(){
  Lab L; for(int i=0;i<P_NM;i++) L.add((P_MEALY>>i)&1);
  int pins=0; { int a=L.addPin(), b=L.addPin(); pins=b+1; L.feed(a,0); L.couple(a,b); L.feed(b,P_NM-1); for(int i=0;i+1<P_NM;i++) L.feed(L.m[i]->outPin,i+1);
#ifdef P_BACK
    L.feed(L.m[P_NM-1]->outPin,0);
#endif
  }
#if P_LATE   // a pin that leads nowhere until it is connected at the end of the first cycle
  int late=L.addPin(); pins=late+1;
#endif
  L.start(); std::shared_ptr<G> g=std::make_shared<G>(); L.wire(*g); S s(g);
  for(int i=0;i<P_LIS;i++){ auto l=std::make_shared<Listener>(); L.ls.push_back(l); s.addEventListener(l); }
  TT last=ZERO; 
  for(int c=0;c<P_CYC;c++){ L.quiet=P_QUIET&&c==P_CYC-1;
    bool any=L.checkNext(s); TT nx=s.nextEventTime();
    if(any){ int n=sx_choice("tentative",P_TENT+1); for(int r=0;r<n;r++){
#if P_TENTINJ
        some(L,s,pins);
#endif
        L.begin(nx); s.computeNextOutput(); L.finish(); for(auto m:L.m) sx_assert(m->trans==0,"computing output changes no state"); sx_assert(s.nextEventTime()==nx,"computing output does not change the time of the next event"); sx_reach("tentative"); } }
    int mode=sx_choice("mode",3); TT t=nx; // 0: at the scheduled time, 1: inject then set the time, 2: set then inject
    if(mode==0&&!any) break;
    if(mode>0){ t=last+draw_t("offset",0,P_TAMAX); if(any) sx_assume(t<=nx); }
    if(mode==2) s.setNextTime(t);
    some(L,s,pins);
#if P_CLEAR
    if(sx_bool("clear")){ s.clearInjectedInput(); L.injected.clear(); sx_reach("cleared"); some(L,s,pins); }
#endif
    if(mode==1){ if(P_TWICE&&sx_bool("twice")){ TT u=last+draw_t("first",0,P_TAMAX); if(any) sx_assume(u<=nx); s.setNextTime(u); sx_assert(s.nextEventTime()==u,"the time of the next event is the time that was set"); sx_reach("twice"); } s.setNextTime(t); }
    if(mode>0&&any&&t<nx) sx_reach("earlier"); if(!L.injected.empty()) sx_reach("injected");
    sx_assert(s.nextEventTime()==t,"the time of the next event is the time that was set");
#if P_LATE
    if(c==0) L.change(*g,Lab::Change{4,late,0,0});
#endif
    L.begin(t); L.step(s,false); last=t+EPS; if(c==P_CYC-1) sx_reach("all cycles"); }
  L.checkNext(s);
  for(auto c:L.m) c->in=false; lab=nullptr;
}
