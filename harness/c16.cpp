// C16: the event schedule keeps models ordered by priority.
// P_MODE 1: any sequence of P_K operations on P_N models from an empty schedule
// P_MODE 2: an arbitrary heap of P_N models (symbolic priorities, heap ordered along every path from the root) and P_K operations on it, then drained
// P_MODE 3: storage growth: more models than the capacity
#include "sx_api.h"
#include "adevs/adevs.h"
#include <list>
#ifdef SDT
typedef adevs::sd_time<double> T;
static T prio(){ double t=sx_dyadic("t",0,255,3); return T(t,sx_int("k",0,3)); }
#elif defined(INTT)
typedef int T;
static T prio(){ return sx_int("t",0,1000); }
#else
typedef double T;
static T prio(){ return sx_dyadic("t",0,1<<20,6); }
#endif
typedef adevs::Atomic<int,T> A;
struct M : public A { 
  T ta(){ return T(); } void delta_int(){} void delta_ext(T, std::list<adevs::PinValue<int>> const&){} void delta_conf(std::list<adevs::PinValue<int>> const&){} void output_func(std::list<adevs::PinValue<int>>&){} };
#ifndef P_N
#define P_N 3
#endif
#ifndef P_K
#define P_K 4
#endif
static M* m[P_N]; static bool in[P_N]; static T pr[P_N];
static void look(adevs::Schedule<int,T>& s){
  unsigned cnt=0; for(int q=0;q<P_N;q++) cnt+=in[q];
  sx_assert(s.getSize()==cnt,"getSize() is the number of scheduled models");
  sx_assert(s.empty()==(cnt==0),"empty() iff no model is scheduled");
  if(cnt){ T mn=s.minPriority(); int who=-1; for(int q=0;q<P_N;q++) if(in[q]){ sx_assert(mn<=pr[q],"minPriority() is no later than any scheduled model"); }
    A* a=s.getMinimum(); for(int q=0;q<P_N;q++) if(m[q]==a) who=q;
    sx_assert(who>=0&&in[who],"getMinimum() is a scheduled model"); sx_assert(pr[who]==mn,"minPriority() is the priority of getMinimum()");
    std::list<A*> l=s.visitImminent(); for(int q=0;q<P_N;q++){ int c=0; for(A* x:l) if(x==m[q]) c++; bool want=in[q]&&pr[q]==mn; sx_assert(c==(want?1:0),"visitImminent() visits exactly the models with the least priority, once each"); } sx_trace(l.size()); }
  else sx_assert(s.minPriority()==adevs_inf<T>(),"minPriority() of an empty schedule is infinite");
}
static void remmin(adevs::Schedule<int,T>& s){
  bool e=s.empty(); A* x=e?nullptr:s.getMinimum(); T mp=s.minPriority(); s.removeMinimum();
  if(!e){ int j=-1; for(int q=0;q<P_N;q++) if(m[q]==x) j=q; sx_assert(j>=0&&in[j],"removed model was scheduled"); for(int q=0;q<P_N;q++) if(in[q]) sx_assert(pr[j]<=pr[q],"removeMinimum() removes a least model"); sx_assert(pr[j]==mp,"priority of removed"); in[j]=false; } }
static void op(adevs::Schedule<int,T>& s){
  int o=sx_choice("op",P_N+1);
  if(o==P_N){ remmin(s); sx_reach("removeMinimum"); return; }
#ifdef P_ONLYINF
  if(true){
#else
  if(sx_choice("inf",2)){
#endif
 s.schedule(m[o],adevs_inf<T>()); in[o]=false; sx_reach("deschedule"); }
  else { T p=prio(); s.schedule(m[o],p); in[o]=true; pr[o]=p; sx_reach("schedule"); }
}
static void drain(adevs::Schedule<int,T>& s){ T last=T(); bool first=true; int n=0; while(!s.empty()){ T p=s.minPriority(); if(!first) sx_assert(last<=p,"models leave in order of priority"); last=p; first=false; remmin(s); if(++n>P_N) sx_assert(false,"more removals than models"); } for(int q=0;q<P_N;q++) sx_assert(!in[q],"every scheduled model leaves the schedule"); look(s); }
void sx_test(){
  for(int i=0;i<P_N;i++){ m[i]=new M; in[i]=false; pr[i]=T(); }
#if P_MODE==1
  { adevs::Schedule<int,T> s(2); look(s); for(int k=0;k<P_K;k++){ op(s); look(s); } drain(s); }
#elif P_MODE==2
  { adevs::Schedule<int,T> s(sx_choice("cap",2)?100:2);
    for(int i=0;i<P_N;i++){ pr[i]=prio(); if(i){
#ifdef P_TIES
      sx_assume(pr[(i+1)/2-1]<=pr[i]);
#else
      sx_assume(pr[(i+1)/2-1]<pr[i]);
#endif
    } }
    for(int i=0;i<P_N;i++){ s.schedule(m[i],pr[i]); in[i]=true; }
    for(int k=0;k<P_K;k++){ op(s); look(s); }
#ifdef DRAIN
    drain(s);
#endif
  }
#else
  { adevs::Schedule<int,T> s; 
    for(int i=0;i<P_N;i++){ pr[i]=T(7+i); s.schedule(m[i],pr[i]); in[i]=true; }
    look(s);
    int i=sx_choice("late",P_N); pr[i]=prio(); s.schedule(m[i],pr[i]); sx_reach("late");
    for(int q=0;q<3;q++) remmin(s); 
    look(s); }
#endif
  for(int i=0;i<P_N;i++) delete m[i];
}
