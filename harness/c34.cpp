// C34: the index-based schedule against a reference list, starting from an arbitrary heap.
#include "adevs/models.h"
#include <cassert>
#include "adevs/schedule2.h"
#include "sx_api.h"
#ifndef P_N
#define P_N 7       // active at first
#endif
#ifndef P_X
#define P_X 1       // more models
#endif
#ifndef P_OPS
#define P_OPS 1
#endif
#ifndef P_END
#define P_END 1     // 1 emptied in order of time, 2 emptied by removing the models in a given order
#endif
#ifndef P_MENU
#define P_MENU 31
#endif
#ifndef P_TIES
#define P_TIES 1
#endif
typedef adevs::Atomic<int,double> A; typedef std::shared_ptr<A> AP; static int const NT=P_N+P_X;
struct M : A { double t; int id; M(int i):t(0),id(i){} double ta(){ return t; } void delta_int(){} void delta_ext(double,std::list<adevs::PinValue<int>> const&){} void delta_conf(std::list<adevs::PinValue<int>> const&){} void output_func(std::list<adevs::PinValue<int>>&){} };
static std::shared_ptr<M> m[NT]; static bool active[NT]; static double rec[NT]; static adevs::Schedule<int>* s;
static double draw(){ return sx_bool("never")?adevs_inf<double>():sx_dyadic("ta",0,32,0); }
static void check(){ int n=0; double lo=adevs_inf<double>(); for(int i=0;i<NT;i++) if(active[i]){ n++; if(rec[i]<lo) lo=rec[i]; }
  sx_assert((int)s->size()==n&&s->empty()==(n==0),"the schedule has the active models"); sx_assert(s->get_minimum()==lo,"the time of the next event is the least time advance of an active model");
  AP x=s->get_next(); if(n==0) sx_assert(x==nullptr,"an empty schedule has no next model"); else { int k=-1; for(int i=0;i<NT;i++) if(x==m[i]) k=i; sx_assert(k>=0&&active[k],"the next model is active"); sx_assert(rec[k]==lo,"the next model is one with the least time advance"); } }
static void same(int n0,AP f,double t){ sx_assert((int)s->size()==n0&&s->get_next()==f&&s->get_minimum()==t,"a change that is refused changes nothing"); }
static void op(){ int k=sx_choice("operation",5); sx_assume((P_MENU>>k)&1); int i=k<3?sx_choice("model",NT):0; int n0=(int)s->size(); AP f=s->get_next(); double t0=s->get_minimum(); bool thrown=false;
  switch(k){
    case 0: m[i]->t=draw(); try { s->add(m[i]); } catch(adevs::exception&){ thrown=true; } sx_assert(thrown==active[i],"adding an active model is refused"); if(!active[i]){ active[i]=true; rec[i]=m[i]->t; sx_reach("added"); } break;
    case 1: try { s->remove(m[i]); } catch(adevs::exception&){ thrown=true; } sx_assert(thrown==!active[i],"removing an inactive model is refused"); if(active[i]){ active[i]=false; sx_reach("removed"); } break;
    case 2: m[i]->t=draw(); try { s->update(m[i]); } catch(adevs::exception&){ thrown=true; } sx_assert(thrown==!active[i],"updating an inactive model is refused"); if(active[i]){ rec[i]=m[i]->t; sx_reach("updated"); } break;
    case 3: { sx_assume(n0>0); for(int j=0;j<NT;j++) if(m[j]==f) active[j]=false; s->remove_next(); sx_reach("next removed"); break; }
    default: s->update_all(); sx_reach("rebuilt"); }
  if(thrown){ same(n0,f,t0); sx_reach("refused"); } check(); }
void sx_test(){ s=new adevs::Schedule<int>(); for(int i=0;i<NT;i++){ m[i]=std::make_shared<M>(i); active[i]=false; }
  check(); double last=0;
  for(int i=0;i<P_N;i++){ double t=sx_dyadic("initial",0,32,0); if(i>0) sx_assume(P_TIES?t>=rec[(i-1)/2]:t>rec[(i-1)/2]); m[i]->t=rec[i]=t; s->add(m[i]); active[i]=true; } check();
  for(int o=0;o<P_OPS;o++) op();
#if P_END==1
  while(!s->empty()){ check(); AP f=s->get_next(); double t=s->get_minimum(); sx_assert(t>=last,"models come in the order of their time advances"); last=t; for(int j=0;j<NT;j++) if(m[j]==f){ sx_assert(active[j],"each active model comes once"); active[j]=false; } s->remove_next(); }
  for(int j=0;j<NT;j++) sx_assert(!active[j],"each active model comes");
#else
  int first=sx_choice("first",NT); for(int j=0;j<NT;j++){ int k=(first+j*3)%NT; if(active[k]){ if(sx_bool("updated first")){ s->update(m[k]); rec[k]=m[k]->t; check(); } s->remove(m[k]); active[k]=false; check(); } }
#endif
  sx_assert(s->empty(),"all models have been removed"); s->clear(); delete s; for(int i=0;i<NT;i++){ sx_assert(m[i].use_count()==1,"a model that was removed is released"); m[i]=nullptr; } sx_reach("end"); }
