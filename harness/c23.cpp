// C23, C24: Hybrid with an arbitrary system, integrator and event locator that keep to their interfaces, driven like a simulator drives it.
#include "sx_api.h"
#include "adevs/adevs.h"
#include "adevs/solvers/hybrid.h"
#include <vector>
#ifndef P_STEPS
#define P_STEPS 2
#endif
#ifndef P_EXT
#define P_EXT 0   // input may arrive
#endif
#ifndef P_FIRST
#define P_FIRST 0 // 0 anything, 1 the first step is an external event with an event pending, 2 and it had been overlooked,
                  // 3 a step without an event, input that reveals an overlooked event, then input again; 4 a step, input at its end, input
#endif
#ifndef P_AGAIN
#define P_AGAIN 0 // outputs are computed again
#endif
typedef adevs::PinValue<int> PV; typedef adevs::pin_t pin_t; typedef std::list<PV> Bag; typedef adevs::Hybrid<int> HY;
static double const INF=adevs_inf<double>();
enum Phase { NONE, INIT, OUT, DINT, DEXT, DCONF };
static double draw(char const* n,long lo,long hi){ return sx_dyadic(n,lo,hi,2); }
struct Ref {
  Phase phase; double T,tB,tL,b0,b1; double target; bool never;          // time, time and value of the state last set, last discrete event, time event when q0==target
  bool tent; double h,te; bool found,f[2],fm,evt; double sigma;           // the step ahead
  int events; bool acted; int kind; int pendingMissed; bool missedNow; double mh; bool mf[2]; bool outNow, emitted; int computed; bool looked; PV const* in; double post, trial; bool posted, tried; bool retract;
};
static Ref R; static bool quiet; /* nothing is looked at after the last step */ static pin_t *po,*pi;
static void flags(bool const* e,bool a,bool b,bool t){ sx_assert(e[0]==a&&e[1]==b,"the flags tell which state events caused the event"); sx_assert(e[2]==t,"the flags tell whether a time event caused the event"); }
static bool isIn(Bag const& x){ return x.size()==1&&x.front().value==77; }
static void set(double* q){ R.acted=true; R.events++; R.tL=R.T; R.tB=R.T; q[0]=draw("state",-8,8); q[1]=R.events; R.b0=q[0]; R.b1=q[1]; R.never=quiet||sx_bool("no time event"); if(!R.never){ double d=draw("time event",0,8); R.target=q[0]+d; } }
struct Sys : adevs::ode_system<int> { Sys():adevs::ode_system<int>(2,2){} 
  void init(double* q){ q[0]=R.b0; q[1]=R.b1; } void der_func(double const*,double* d){ d[0]=1; d[1]=0; } void state_event_func(double const*,double* z){ z[0]=z[1]=1; }
  double time_event_func(double const* q){ sx_assert(q[0]==R.b0&&q[1]==R.b1,"the time to the next event is asked for the state that holds"); double r=R.never?INF:R.target-q[0]; R.te=r; return r; }
  void postStep(double* q){ R.post=q[0]; R.posted=true; } void postTrialStep(double* q){ R.trial=q[0]; R.tried=true; }
  // the model has been told of the state before the event that happens in it
  void told(double const* q){ if(R.T!=R.tB) sx_assert(R.posted&&R.post==q[0],"the model is told of a state that was reached before an event happens in it"); }
  void due(double const* q){ told(q); sx_assert(q[0]==R.b0+R.sigma&&q[1]==R.b1,"the event has the state of its instant"); }
  void internal_event(double* q,bool const* e){ sx_assert(R.phase==DINT,"an internal event happens at an internal transition"); sx_assert(!R.acted,"one discrete event at a time"); sx_assert(R.evt,"a pure integration step has no discrete event"); sx_assert(R.T==R.tB+R.sigma,"an internal event happens at its time"); due(q); flags(e,R.f[0],R.f[1],R.fm); sx_assert(R.emitted,"the output of an event is produced before it"); R.kind=1; sx_reach(R.fm?(R.found?"state and time event":"time event"):"state event"); set(q); }
  void external_event(double* q,double e,Bag const& x){ sx_assert(isIn(x),"the input arrives unchanged"); sx_assert(!R.acted,"one discrete event at a time"); sx_assert(e==R.T-R.tL,"the time elapsed since the last discrete event"); R.kind=2;
    if(R.phase==DEXT){ sx_assert(!R.missedNow,"an event found while advancing to the input is not lost"); sx_assert(!R.found||R.looked,"an event ahead of the input is looked for again"); sx_reach("external"); told(q); } else { told(q); sx_assert(R.phase==DCONF,"an external event happens when input arrives"); sx_assert(!R.evt||R.T!=R.tB+R.sigma,"input at the time of an event is confluent"); sx_reach("confluent with a step"); }
    sx_assert(q[0]==R.b0+(R.T-R.tB)&&q[1]==R.b1,"input applies to the state advanced to the time it arrives"); set(q); }
  void confluent_event(double* q,bool const* e,Bag const& x){ sx_assert(isIn(x),"the input arrives unchanged"); sx_assert(!R.acted,"one discrete event at a time"); R.kind=3;
    if(R.phase==DEXT){ told(q); sx_assert(R.missedNow,"input before an event is not confluent"); sx_assert(q[0]==R.b0+R.mh&&q[1]==R.b1,"the overlooked event has the state at which it was found"); flags(e,R.mf[0],R.mf[1],false); sx_assert(R.computed==1,"the output of an overlooked event is computed once"); sx_reach("overlooked"); }
    else { sx_assert(R.phase==DCONF&&R.evt&&R.T==R.tB+R.sigma,"a confluent event happens at the time of an event"); due(q); flags(e,R.f[0],R.f[1],R.fm); sx_assert(R.emitted,"the output of an event is produced before it"); sx_reach("confluent"); }
    set(q); }
  void output_func(double const* q,bool const* e,Bag& y){ R.computed++;
    if(R.phase==DEXT){ told(q); sx_assert(R.missedNow&&!R.acted,"output is computed for an event"); sx_assert(q[0]==R.b0+R.mh&&q[1]==R.b1,"the output of an overlooked event has the state at which it was found"); flags(e,R.mf[0],R.mf[1],false); if(P_FIRST<3&&sx_bool("output")){ y.push_back(PV(*po,R.events)); R.pendingMissed=R.events; } }
    else { sx_assert(R.phase==OUT&&R.evt&&R.T==R.tB+R.sigma,"output is produced only at an event"); due(q); flags(e,R.f[0],R.f[1],R.fm); y.push_back(PV(*po,R.events)); } } };
struct Solver : adevs::ode_solver<int> { Solver(adevs::ode_system<int>* s):adevs::ode_solver<int>(s){}
  double integrate(double* q,double lim){ sx_assert(q[0]==R.b0&&q[1]==R.b1&&R.tB==R.T,"a step starts from the state that holds"); sx_assert(lim>=0&&lim==R.te,"a step is limited by the time event"); double h; if(!(lim>0)) h=0; else if(quiet) h=lim<0.25?lim:0.25; else if(lim<=2&&sx_bool("full step")) h=lim; else { h=draw("step",1,8); sx_assume(h<=lim); } q[0]+=h; R.h=h; return h; }
  void advance(double* q,double h){ sx_assert(h>=0,"the solution is advanced forward"); q[0]+=h; } };
struct Loc : adevs::event_locator<int> { Loc(adevs::ode_system<int>* s):adevs::event_locator<int>(s){}
  bool find_events(bool* e,double const* qs,double* qe,adevs::ode_solver<int>*,double& h){ sx_assert(qs[0]==R.b0&&qs[1]==R.b1,"events are looked for from the state that holds"); sx_assert(qe[0]==qs[0]+h&&qe[1]==qs[1],"events are looked for up to the state at the end of the step"); bool missed=R.phase==DEXT&&!R.acted;
    if(missed){ R.looked=true; sx_assert(h==R.T-R.tB,"events are looked for up to the arrival of the input"); } 
    bool found=h>0&&(missed||!quiet)&&sx_bool("found"); if((P_FIRST==1||P_FIRST==2)&&!missed&&R.phase==INIT) sx_assume(found); if(P_FIRST>=2&&missed&&R.events==0) sx_assume(found); e[0]=e[1]=false; double g=h; if(found){ e[0]=sx_bool("first"); e[1]=sx_bool("second"); sx_assume(e[0]|e[1]); if(sx_bool("inside")){ g=draw("instant",1,8); sx_assume(g<h); } h=g; qe[0]=qs[0]+g; }
    if(missed){ R.missedNow=found; if(found){ R.mh=g; R.mf[0]=e[0]; R.mf[1]=e[1]; } } else { R.tent=true; R.h=g; R.found=found; R.f[0]=e[0]; R.f[1]=e[1]; }
    return found; } };
static void before(Phase p){ R.phase=p; R.acted=false; R.kind=0; R.tent=false; R.missedNow=false; R.looked=false; R.computed=0; R.posted=R.tried=false; if(p==DINT||p==DCONF) R.posted=true; }
static void planned(HY& y){ R.phase=NONE; sx_assert(R.tried&&R.trial==R.b0,"the model is told to restore the state that holds after a trial step"); sx_assert(R.tent,"a step ahead has been taken"); R.sigma=R.te<R.h?R.te:R.h; R.fm=R.te<=R.sigma; R.evt=R.found||R.fm; sx_assert(y.getState(0)==R.b0&&y.getState()[1]==R.b1,"the state of the model is the one that holds"); }
static void emit(HY& y){ for(int r=0;r<1+(P_AGAIN?sx_choice("again",2):0);r++){ before(OUT); Bag out; y.output_func(out); bool due=R.evt&&R.T==R.tB+R.sigma; int miss=0,ev=0; for(auto&v:out){ sx_assert(v.pin==*po,"output keeps its pin"); if(R.pendingMissed>=0&&v.value==R.pendingMissed) miss++; else if(due&&v.value==R.events) ev++; else sx_assert(false,"output that no event produced"); }
  sx_assert(miss==(R.pendingMissed>=0?1:0),"the output of an overlooked event is emitted once, at once"); sx_assert(ev<=1&&R.computed==ev,"the output of an event is computed once"); sx_assert(ev==1||!due||R.pendingMissed>=0,"the output of an event is emitted"); R.emitted=ev==1; R.phase=NONE; } }
void sx_test(){
  R=Ref(); quiet=false; R.pendingMissed=-1; po=new pin_t(); pi=new pin_t(); R.phase=INIT; R.b0=draw("initial",-4,4); R.b1=0; R.never=sx_bool("no time event"); if(!R.never) R.target=R.b0+draw("time event",0,8);
  Sys* s=new Sys(); Solver* so=new Solver(s); Loc* lo=new Loc(s); HY* y=new HY(s,so,lo); planned(*y);
  if(!R.tent) sx_assert(y->eventHappened()==false,"no event has happened yet");
  for(int k=0;k<P_STEPS;k++){ quiet=k==P_STEPS-1;
    bool missed=R.pendingMissed>=0; double ta=y->ta(); sx_assert(ta==(missed?0.0:R.sigma),"the time advance is the length of the step, or zero when output is pending");
    int what=P_EXT?sx_choice("what",3):0; if(k==0&&(P_FIRST==1||P_FIRST==2)) sx_assume(what==1); if(P_FIRST==3){ if(k==0) sx_assume(what==0&&!R.evt); if(k==1) sx_assume(what==1&&R.found); if(k==2) sx_assume(what!=0); } if(P_FIRST==4){ if(k==0) sx_assume(what==0&&!R.evt); if(k==1) sx_assume(what==2); if(k==2) sx_assume(what==1); } if(k>0&&P_FIRST&&P_FIRST<3&&what==1) sx_assume(missed||R.sigma>0);
    Bag x; if(what){ PV v(*pi,77); x.push_back(v); }
    if(what==1){ sx_assume(ta>0); if(P_AGAIN&&sx_bool("tentative")){ double t=R.T; R.T+=ta; emit(*y); R.T=t; } double e=draw("elapsed",0,8); sx_assume(e<ta); R.T+=e; before(DEXT); y->delta_ext(e,x); sx_assert(R.acted,"input is processed"); sx_assert(y->eventHappened(),"an event has happened"); sx_assert(R.kind==2||R.computed==1,"the output of an overlooked event is computed"); planned(*y); }
    else { R.T+=ta; emit(*y); bool due=R.evt&&R.T==R.tB+R.sigma, emitted=R.emitted; 
      if(what==0){ before(DINT); if(!due){ R.b0+=R.T-R.tB; R.tB=R.T; } y->delta_int(); if(!R.acted&&!R.tent){ R.phase=NONE; sx_assert(missed&&!emitted,"a step is completed"); sx_assert(y->getState(0)==R.b0&&y->getState(1)==R.b1,"emitting output leaves the state alone"); sx_reach("late output"); }
        else { sx_assert(R.acted==due,"the event takes place"); if(!R.acted){ sx_assert(R.post==R.b0,"the model is told of the state at the end of a step"); sx_reach("step"); } sx_assert(y->eventHappened()==due,"whether an event has happened"); planned(*y); } 
      } else { before(DCONF); y->delta_conf(x); sx_assert(R.acted&&R.kind==(due?3:2),"input is processed"); sx_assert(y->eventHappened(),"an event has happened"); planned(*y); }
      R.pendingMissed=-1; R.emitted=false; }
  }
  sx_reach("end"); delete y; delete po; delete pi;
}
