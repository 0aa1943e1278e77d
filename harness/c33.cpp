// C33: construction, use and destruction of hybrid models, integrators, event locators and splines.
#define STUB_KINSOL
#include "sundials_stub.h"
#include "adevs/adevs.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/trap.h"
#include "adevs/solvers/event_locators.h"
#include "sx_api.h"
#include <stdexcept>
#ifndef P_WHAT
#define P_WHAT 1     // 1 hybrid model of mock objects, 2 hybrid model of the real objects, 3 parts on their own
#endif
#ifndef P_STEPS
#define P_STEPS 2
#endif
typedef adevs::PinValue<int> PV; typedef std::list<PV> Bag;
struct Thrown {};
static int madeSys, goneSys, goneSolver, goneLoc; static double slope; static long magic; static int throwAt; static int calls; static bool jac;
static void maybe(){ if(throwAt>0&&++calls==throwAt) throw Thrown(); }
struct Sys : adevs::ode_system<int> { long m; int id; Sys(int n,int e):adevs::ode_system<int>(n,e),m(4711),id(madeSys++){} ~Sys(){ sx_assert(m==4711,"a system is deleted once"); m=0; goneSys++; }
  void ok() const { sx_assert(m==4711,"a system that is used exists"); }
  void init(double* q){ ok(); for(int i=0;i<numVars();i++) q[i]=sx_dyadic("initial",-4,4,1); }
  void der_func(double const*,double* d){ ok(); maybe(); for(int i=0;i<numVars();i++) d[i]=slope; }
  bool get_jacobian(double const*,double* J){ ok(); if(!jac) return false; if(J) for(int i=0;i<numVars()*numVars();i++) J[i]=0; return true; }
  void state_event_func(double const* q,double* z){ ok(); maybe(); for(int i=0;i<numEvents();i++) z[i]=(numVars()?q[0]:0)-1.25-i; }
  double time_event_func(double const*){ ok(); return sx_bool("time event")?0.5:adevs_inf<double>(); }
  void postStep(double*){ ok(); } void postTrialStep(double*){ ok(); }
  void internal_event(double* q,bool const*){ ok(); if(numVars()) q[0]=0; } void external_event(double* q,double,Bag const&){ ok(); if(numVars()) q[0]=0.5; } void confluent_event(double* q,bool const*,Bag const&){ ok(); if(numVars()) q[0]=0; } void output_func(double const*,bool const*,Bag&){ ok(); } };
#if P_WHAT==1
struct MSolver : adevs::ode_solver<int> { long m; char* mem; Sys* mine; MSolver(Sys* s):adevs::ode_solver<int>(s),m(1),mem(new char[3]),mine(s){} ~MSolver(){ sx_assert(m==1,"an integrator is deleted once"); m=0; goneSolver++; delete[] mem; } double integrate(double* q,double h){ double r=h<0.25?h:0.25; mine->ok(); for(int i=0;i<mine->numVars();i++) q[i]+=slope*r; return r; } void advance(double* q,double h){ mine->ok(); for(int i=0;i<mine->numVars();i++) q[i]+=slope*h; } };
struct MLoc : adevs::event_locator<int> { long m; char* mem; Sys* mine; MLoc(Sys* s):adevs::event_locator<int>(s),m(1),mem(new char[5]),mine(s){} ~MLoc(){ sx_assert(m==1,"an event locator is deleted once"); m=0; goneLoc++; delete[] mem; } bool find_events(bool* e,double const*,double*,adevs::ode_solver<int>*,double&){ mine->ok(); bool f=mine->numEvents()>0&&sx_bool("event"); for(int i=0;i<mine->numEvents();i++) e[i]=f; return f; } };
#endif
static adevs::ode_solver<int>* solver(Sys* s,int k){ switch(k){ case 0: return new adevs::corrected_euler<int>(s,1e10,0.5); case 1: return new adevs::rk_45<int>(s,1e10,0.5); default: return new adevs::trap<int>(s,1e10,0.5,k==3); } }
static adevs::event_locator<int>* locator(Sys* s,int k){ switch(k){ case 0: return new adevs::null_event_locator<int>(); case 1: return new adevs::bisection_event_locator<int>(s,0.25); case 2: return new adevs::linear_event_locator<int>(s,0.25); case 3: return new adevs::discontinuous_event_locator<int>(s,0.25); case 4: return new adevs::fast_event_locator<int>(s,0.25); default: return new adevs::fast_event_locator<int>(s,0.25,true); } }
extern "C" double sqrt(double x){ return 1; }
static int stub_solve(StubKin* k,N_Vector u){ N_Vector r=stub_vec(((StubVec*)u->content)->n,u->sunctx); double *ud=N_VGetArrayPointer(u),*rd=N_VGetArrayPointer(r); int res=0; try { k->f(u,r,k->user); } catch(...){ N_VDestroy(r); throw; } for(int i=0;i<((StubVec*)u->content)->n;i++) ud[i]+=rd[i]; if(k->jac){ k->jac(u,r,k->J,k->user,nullptr,nullptr); } N_VDestroy(r); return res; }
static void run(adevs::Hybrid<int>* h,adevs::pin_t& pin){ Bag in,out; in.push_back(PV(pin,1)); for(int k=0;k<P_STEPS;k++){ switch(sx_choice("what",3)){ case 0: sx_assume(h->ta()<1e9); h->output_func(out); h->delta_int(); break; case 1: h->delta_ext(h->ta()<0.125?h->ta():0.125,in); break; default: sx_assume(h->ta()<1e9); h->output_func(out); h->delta_conf(in); } } }
void sx_test(){ adevs::pin_t pin; long before=sx_live_blocks(); slope=1; int n=sx_choice("variables",3), e=sx_choice("event functions",3); jac=false;
  { 
#if P_WHAT==1
    { Sys* s=new Sys(n,e); adevs::Hybrid<int>* h=new adevs::Hybrid<int>(s,new MSolver(s),new MLoc(s)); if(sx_bool("used")){ if(sx_bool("shared")){ std::shared_ptr<adevs::Atomic<int>> a(h); adevs::Simulator<int> sim(a); for(int k=0;k<P_STEPS&&sim.nextEventTime()<100;k++) sim.execNextEvent(); a.reset(); h=nullptr; } else run(h,pin); } sx_assert(h==nullptr||(goneSys==0&&goneSolver==0&&goneLoc==0),"what has been adopted lives as long as the model"); if(h){ if(sx_bool("by its base")) delete (adevs::Atomic<int>*)h; else delete h; }
      sx_assert(goneSys==1&&madeSys==1,"the system is deleted with the model, once"); sx_assert(goneSolver==1,"the integrator is deleted with the model, once"); sx_assert(goneLoc==1,"the event locator is deleted with the model, once"); }
#elif P_WHAT==2
    { sx_assume(n>0); Sys* s=new Sys(n,e); int k=sx_choice("model",5); jac=k==2&&sx_bool("Jacobian"); adevs::Hybrid<int>* h=k==3?new adevs::ExplicitHybrid<int>(s,0.25,0.5):k==4?(adevs::Hybrid<int>*)new adevs::ImplicitHybrid<int>(s,0.25,0.5):new adevs::Hybrid<int>(s,solver(s,k),locator(s,sx_choice("locator",6))); run(h,pin); sx_assert(goneSys==0,"what has been adopted lives as long as the model"); delete h; sx_assert(goneSys==1&&madeSys==1,"the system is deleted with the model, once"); }
#else
    Sys* s=new Sys(n,e); int k=sx_choice("integrator",4); jac=k==3; int l=sx_choice("locator",6); throwAt=n>0?sx_choice("exception",3)*2:0; calls=0; slope=1; double* q=new double[n+1]; double* qe=new double[n+1]; for(int i=0;i<=n;i++) q[i]=qe[i]=sx_dyadic("state",-4,4,1); q[n]=99; bool* ev=new bool[e];
    adevs::ode_solver<int>* o=solver(s,k); adevs::event_locator<int>* f=locator(s,l); adevs::spline* p=new adevs::spline(n);
    bool use=sx_bool("used"); if(use) try { double h=o->integrate(q,0.5); sx_assert(h>0,"a step is taken"); o->advance(q,0.75); for(int i=0;i<n;i++) qe[i]=q[i]-0.5; double g=0.5; if(n>0) f->find_events(ev,qe,q,o,g); p->init(qe,qe,q,q,0.5); p->interpolate(qe,0.25); } catch(Thrown&){ sx_reach("exception"); }
    throwAt=0; sx_assert(q[n]==99,"nothing is written behind the state");
    if(sx_bool("locator first")){ delete f; delete o; } else { delete o; delete f; } delete p; sx_assert(goneSys==0,"the system is left intact"); s->ok(); delete s; delete[] q; delete[] qe; delete[] ev;
#endif
  }
  sx_assert(stub_live==0,"the objects of SUNDIALS are released"); sx_assert(sx_live_blocks()==before,"all memory is released"); sx_reach("end"); }
