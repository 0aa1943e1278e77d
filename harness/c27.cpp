// C27: the real event locators with a system whose event functions change sign at symbolic instants and an exact solver.
#include "adevs/adevs.h"
#include "adevs/solvers/event_locators.h"
#include "sx_api.h"
#ifndef P_LOC
#define P_LOC 1      // 0 none, 1 bisection, 2 interpolation, 3 discontinuous, 4 fast, 5 fast with a spline
#endif
#ifndef P_NE
#define P_NE 2       // event functions
#endif
#ifndef P_Z
#define P_Z 0        // values of the event functions: 0 linear with a symbolic root, 1 any value of the right sign, 2 arbitrary non-zero numbers (of any size) at the end points
#endif
#ifndef P_ENDS
#define P_ENDS 0     // the root is exactly the end of the step
#endif
#ifndef P_TOL
#define P_TOL 0.125
#endif
#ifndef P_ROOTS
#define P_ROOTS 1,96
#endif
#ifndef P_SEL
#define P_SEL 5,4
#endif
#if P_LOC==1||P_LOC==2
static bool const byValue=true;
#else
static bool const byValue=false;
#endif
static int const NE=P_NE, NV=2; static double H0, start[2], tau[P_NE+1], before[P_NE+1], after[P_NE+1], lastZ[P_NE+1], lastT, reached; static int advances, evals; static bool moved, curved;
static double sol(int i,double t){ return i==0?t:P_LOC==5?t*(3*t-2):-2*t; }   // the solution
static bool near(double a,double b){ double d=a-b; return d<=1e-9&&d>=-1e-9; }
struct Sys : adevs::ode_system<int> { Sys():adevs::ode_system<int>(NV,NE){} void init(double*){}
  void der_func(double const* q,double* d){ d[0]=1; d[1]=P_LOC==5?6*(q[0]-start[0])-2:-2; }
  void state_event_func(double const* q,double* z){ double t=q[0]-start[0]; if(P_LOC!=5) sx_assert(near(q[1]-start[1],sol(1,t)),"the events are computed for a state of the solution"); evals++; lastT=t;
    for(int i=0;i<NE;i++){
#if P_Z==2
      z[i]=t==0?before[i]:after[i];
#elif P_Z==1
      double v=sx_dyadic("value",1,16,4); z[i]=(t>=tau[i])?-v*before[i]:v*before[i];
#else
      double d=tau[i]-t; z[i]=d*(d>0?before[i]:after[i]);
#endif
      lastZ[i]=z[i]; } }
  double time_event_func(double const*){ return adevs_inf<double>(); } void internal_event(double*,bool const*){} void external_event(double*,double,std::list<adevs::PinValue<int>> const&){} void confluent_event(double*,bool const*,std::list<adevs::PinValue<int>> const&){} void output_func(double const*,bool const*,std::list<adevs::PinValue<int>>&){} };
struct Solver : adevs::ode_solver<int> { Solver(Sys* s):adevs::ode_solver<int>(s){} double integrate(double*,double){ sx_assert(false,"the solver is asked for an exact interval"); return 0; }
  void advance(double* q,double h){ advances++; for(int i=0;i<NV;i++) sx_assert(q[i]==start[i],"the solution is computed from the start of the step"); sx_assert(h>0&&h<=H0,"the solution is computed within the step"); reached=h; moved=true; for(int i=0;i<NV;i++) q[i]=start[i]+sol(i,h); } };
// the end of the step is one of these, as the last one ends in an odd digit
static double const ENDS[]={1,0.75,0.99999999999999988898};
void sx_test(){ Sys* s=new Sys(); Solver* solver=new Solver(s);
#if P_LOC==0
  adevs::event_locator<int>* l=new adevs::null_event_locator<int>();
#elif P_LOC==1
  adevs::event_locator<int>* l=new adevs::bisection_event_locator<int>(s,P_TOL);
#elif P_LOC==2
  adevs::event_locator<int>* l=new adevs::linear_event_locator<int>(s,P_TOL);
#elif P_LOC==3
  adevs::event_locator<int>* l=new adevs::discontinuous_event_locator<int>(s,P_TOL);
#else
  adevs::event_locator<int>* l=new adevs::fast_event_locator<int>(s,P_TOL,P_LOC==5);
#endif
  static double const SLOPE[]={1,-1,2,-0.5,4};
  double* qs=new double[NV]; double* qe=new double[NV]; bool* ev=new bool[NE];
#if P_ENDS
  H0=ENDS[sx_choice("end",3)]; for(int i=0;i<NV;i++) start[i]=0;
#else
  H0=1; for(int i=0;i<NV;i++) start[i]=sx_dyadic("start",-8,8,2);
#endif
  for(int i=0;i<NE;i++){
#if P_Z==2
    before[i]=sx_double("before"); after[i]=sx_double("after"); sx_assume(before[i]-before[i]==0&&after[i]-after[i]==0&&before[i]!=0&&after[i]!=0); sx_assume((before[i]>0)==(after[i]>0)); tau[i]=5;   // finite, of one sign
#elif P_Z==1
    tau[i]=sx_dyadic("root",P_ROOTS,6); before[i]=sx_bool("rising")?-1:1;
#else
#if P_ENDS
    { double T2[2]={H0,2}; tau[i]=T2[sx_choice("later",2)]; }
#else
    tau[i]=sx_dyadic("root",P_ROOTS,6);
#endif
#if P_ENDS
    before[i]=sx_dyadic("slope",1,16,2); if(sx_bool("rising")) before[i]=-before[i]; after[i]=before[i];
#else
    { static int const SEL[]={P_SEL}; int c=sx_choice("slope",SEL[0]); before[i]=SLOPE[c]; static double const BEND[]={1,2}; after[i]=SLOPE[c]*BEND[i==0?sx_choice("bend",2):0]; }
#endif
#endif
  }
  for(int i=0;i<NV;i++){ qs[i]=start[i]; qe[i]=start[i]+sol(i,H0); ev[i<NE?i:0]=true; } for(int i=0;i<NE;i++) ev[i]=true; reached=H0; double end[2]={qe[0],qe[1]};
  double h=H0; bool found=l->find_events(ev,qs,qe,solver,h);
  double T[P_NE+1]; for(int i=0;i<NE;i++) T[i]=tau[i];
  if(P_LOC==0){ sx_assert(!found&&h==H0&&advances==0&&evals==0,"nothing is done when there are no events"); sx_reach("none"); }
  else { bool any=false; double first=99; for(int i=0;i<NE;i++){ if(T[i]<=H0) any=true; if(T[i]<first) first=T[i]; }
    sx_assert(h>0&&h<=H0,"the instant is within the step"); for(int i=0;i<NV;i++){ sx_assert(near(qe[i],start[i]+sol(i,h)),"the state is that of the solution at the instant reported"); sx_assert(qs[i]==start[i],"the state at the start is left alone"); }
    if(!any){ sx_assert(!found,"no event is reported when nothing changes sign"); sx_assert(h==H0&&!moved,"the step is left alone when nothing changes sign"); for(int i=0;i<NV;i++) sx_assert(qe[i]==end[i],"the end state is left alone when nothing changes sign"); for(int i=0;i<NE;i++) sx_assert(!ev[i],"no function is flagged when nothing changes sign"); sx_reach("no event"); }
    else if(found){ sx_assert(h>=first-1e-9,"the instant is not before the first change of sign"); bool one=false; for(int i=0;i<NE;i++){ if(!near(h,T[i])) sx_assert(ev[i]==(T[i]<=h),"exactly the functions that have changed sign are flagged"); if(ev[i]){ one=true; if(byValue) sx_assert(lastZ[i]<=P_TOL&&lastZ[i]>=-P_TOL,"a function that is flagged is within the tolerance of zero"); } } sx_assert(one,"a function is flagged");
      sx_assert(near(lastT,h),"the functions were computed at the instant reported"); if(!byValue) sx_assert(h-first<=P_TOL+1e-9,"the instant is within the tolerance of the first change of sign"); sx_reach("event"); if(h<H0) sx_reach("moved"); }
    else { sx_assert(P_LOC<4,"the event is found"); sx_assert(h<first+1e-9,"a step that ends without event ends before the first change of sign"); for(int i=0;i<NE;i++) sx_assert(!ev[i],"no function is flagged when the step ends without event"); sx_reach("short"); } }
  delete l; delete solver; delete s; delete[] qs; delete[] qe; delete[] ev; sx_reach("end"); }
