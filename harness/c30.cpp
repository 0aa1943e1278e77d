// C30: the CVODE adapter with a user model whose integration answers are arbitrary, driven as the simulator does and by the simulator.
#include "sundials_stub.h"
extern "C" { void N_VAddConst(N_Vector x,sunrealtype b,N_Vector z){ StubVec *a=(StubVec*)x->content,*c=(StubVec*)z->content; sx_assert(a->n==c->n,"vectors of one size"); for(sunindextype i=0;i<a->n;i++) c->d[i]=a->d[i]+b; } 
void N_VScale(sunrealtype b,N_Vector x,N_Vector z){ StubVec *a=(StubVec*)x->content,*c=(StubVec*)z->content; for(sunindextype i=0;i<a->n;i++) c->d[i]=a->d[i]*b; } }
#include "adevs/adevs.h"
#include "adevs/solvers/cvode.h"
#include "sx_api.h"
#ifndef P_STEPS
#define P_STEPS 3
#endif
#ifndef P_SIM
#define P_SIM 0      // 1 by the simulator, with injected input
#endif
#ifndef P_NV
#define P_NV 2
#endif
typedef adevs::PinValue<int> PV; typedef std::list<PV> Bag; typedef adevs::CVODE<int> CV;
static int const NV=P_NV; enum Phase { NONE, TA, OUT, DINT, DEXT, DCONF };
static Phase phase; static double base[NV], tBase, cur[NV], tProj; static bool flag, reinited, until; static int acted, outs, integrations; static double e_; static adevs::pin_t *po,*pi; static double T; static bool bySim;
static double draw(char const* n,long lo,long hi,int sc=1){ return sx_dyadic(n,lo,hi,sc); }
struct M : CV { N_Vector y; M(SUNContext c){ y=N_VNew_Serial(NV,c); for(int i=0;i<NV;i++){ d()[i]=base[i]=cur[i]=draw("initial",-8,8); } } ~M(){ N_VDestroy(y); } double* d(){ return N_VGetArrayPointer(y); }
  void is(double const* v,char const* m){ for(int i=0;i<NV;i++) sx_assert_(d()[i]==v[i],m); }
  void move(){ for(int i=0;i<NV;i++){ cur[i]=draw("state",-8,8); d()[i]=cur[i]; } }
  N_Vector cvode_get_state(){ return y; }
  void begun(){ if(bySim){ acted=0; until=reinited=false; } }
  void cvode_integrate(double& tf,bool& event){ if(bySim) phase=TA; sx_assert(phase==TA,"the model is integrated to its next event when its time advance is asked for"); sx_assert(!integrations,"the model is integrated ahead once"); integrations++; is(base,"integration starts from the state of the last event"); double s=draw("ahead",0,12); move(); tProj=tf=tBase+s; flag=event=sx_bool("event"); }
  void cvode_reinit(N_Vector v,double t){ if(bySim){ phase=DEXT; begun(); e_=T-tBase; } sx_assert(phase==DEXT&&!reinited,"the solver is set back at an external event, once"); StubVec* s=(StubVec*)v->content; for(int i=0;i<NV;i++) sx_assert(s->d[i]==base[i],"the solver is set back to the state of the last event"); sx_assert(t==tBase,"the solver is set back to the time of the last event"); for(int i=0;i<NV;i++){ d()[i]=s->d[i]; } reinited=true; }
  void cvode_integrate_until(double tf,bool& event){ sx_assert(phase==DEXT&&reinited&&!until,"the model is integrated up to the input after it has been set back"); is(base,"integration to the input starts from the state of the last event"); sx_assert(tf==tBase+e_,"the model is integrated exactly to the time of the input"); until=true; tProj=tf; move(); flag=event=sx_bool("event then"); }
  void change(){ is(cur,"a discrete event applies to the state at its time"); sx_assert(acted==0,"one discrete event at a time"); acted=1; move(); }
  void in(Bag const& x){ sx_assert(x.size()==1&&x.front().value==77,"the input arrives unchanged"); }
  void cvode_delta_int(){ if(bySim){ phase=DINT; begun(); } sx_assert(phase==DINT&&flag,"an internal event happens when one was flagged"); change(); if(bySim) done(); }
  void cvode_delta_conf(Bag const& x){ if(bySim&&!until){ phase=DCONF; begun(); } sx_assert((phase==DCONF||(phase==DEXT&&until))&&flag,"a confluent event happens when an event was flagged"); in(x); change(); sx_reach(phase==DEXT?"event at input":"confluent"); if(bySim) done(); }
  void cvode_delta_ext(double t,Bag const& x){ if(bySim&&!until){ phase=DCONF; begun(); } sx_assert((phase==DCONF||(phase==DEXT&&until))&&!flag,"input alone is an external event"); in(x); sx_assert(t==tProj,"the time of the input is reported"); change(); sx_reach(phase==DEXT?"external":"input at the end of a step"); if(bySim) done(); }
  void done(){ for(int i=0;i<NV;i++) base[i]=cur[i]; tBase=tProj; integrations=0; phase=NONE; until=false; }
  void cvode_output_func(Bag& y){ if(bySim) phase=OUT; sx_assert(phase==OUT&&flag,"output is produced when an event was flagged"); is(cur,"output is that of the state at the event"); outs++; y.push_back(PV(*po,9)); } };
void sx_test(){ long before=sx_live_blocks(); { adevs::pin_t a,b; po=&a; pi=&b; int ctx=0; Bag in; in.push_back(PV(b,77)); tBase=0; integrations=acted=outs=0;
#if P_SIM
  bySim=true; { std::shared_ptr<adevs::Graph<int>> g=std::make_shared<adevs::Graph<int>>(); std::shared_ptr<M> m=std::make_shared<M>((SUNContext)&ctx); g->add_atomic(m); g->connect(b,m); adevs::Simulator<int> sim(g); T=0;
    for(int k=0;k<P_STEPS;k++){ double n=sim.nextEventTime(); sx_assert(n==tProj,"the next event is where the model has been integrated to"); outs=0; acted=0; until=reinited=false; bool input=sx_bool("input"); double at=n; bool f=flag; double p0[NV]; for(int i=0;i<NV;i++) p0[i]=cur[i];
      if(input){ at=tBase+draw("elapsed",0,12); sx_assume(at<=n); sim.setNextTime(at); PV v(b,77); sim.injectInput(v); } T=at; double t0=tBase; 
      if(!input&&!f){ // nothing is called, the state reached is the base of the next step
        integrations=0; for(int i=0;i<NV;i++) base[i]=cur[i]; tBase=tProj; sim.execNextEvent(); sx_reach("step"); sx_assert(outs==0&&acted==0,"a step without event is not seen by the model"); continue; }
      sim.execNextEvent(); sx_assert(acted==1,"an event is handled once"); if(input&&at<n) sx_assert(reinited,"an external event sets the model back"); else { sx_assert(!reinited,"the model is not set back at the end of its step"); sx_assert(outs==(f?1:0),"output is produced exactly at an event"); if(!input) sx_reach("internal"); } sx_assert(tBase==at,"the event takes place at its time"); (void)t0; } }
#else
  { M* m=new M((SUNContext)&ctx); 
    for(int k=0;k<P_STEPS;k++){ phase=TA; integrations=0; double s=((adevs::Atomic<int>*)m)->ta(); sx_assert(integrations==1,"the model is integrated ahead"); sx_assert(s==tProj-tBase,"the time advance leads to the time integrated to"); acted=0; reinited=until=false; outs=0; Bag y;
      int w=sx_choice("what",3); if(w==1){ e_=draw("elapsed",0,12); sx_assume(e_<s); phase=DEXT; m->delta_ext(e_,in); sx_assert(until&&acted==1,"the input is handled"); }
      else { phase=OUT; for(int r=0;r<1+(k==0?sx_choice("again",2):0);r++){ y.clear(); outs=0; m->output_func(y); sx_assert(outs==(flag?1:0)&&y.size()==(flag?1u:0u),"output is produced exactly at an event"); } phase=w==0?DINT:DCONF; if(w==0) m->delta_int(); else m->delta_conf(in); sx_assert(acted==(w==0&&!flag?0:1),"the event is handled"); sx_assert(!reinited&&!until,"the model is not set back at the end of its step"); if(w==0) sx_reach(flag?"internal":"step"); }
      for(int i=0;i<NV;i++) base[i]=cur[i]; tBase=tProj; }
    delete (adevs::Atomic<int>*)m; }
#endif
  }
  sx_assert(stub_live==0,"vectors are released"); sx_assert(sx_live_blocks()==before,"memory is released"); sx_reach("end"); }
