// C25: step limits, error control and exact advance of the explicit integrators, for an arbitrary derivative function.
#include "sx_api.h"
#include <cmath>
#include <cfloat>
#include <cstring>
#include <cassert>
#include <algorithm>
#include "adevs/adevs.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/rk_45.h"
#ifndef P_TRIALS
#define P_TRIALS 2    // trial steps per accepted step
#endif
#ifndef P_ADV
#define P_ADV 0
#endif
#ifndef P_HIST
#define P_HIST 1      // earlier calls of integrate
#endif
#if P_INT==2
// any positive value: the choice of the next trial step is left open
extern "C" double pow(double x,double y){ if(y==4.0) return x*x*x*x; if(y==2.0) return x*x; (void)x; return sx_dyadic("root",1,1<<12,6); }
typedef adevs::rk_45<int> Integ; static int const STAGES=6;
#else
typedef adevs::corrected_euler<int> Integ; static int const STAGES=2;
#endif
static double const TOL=1.0;
static int pat; static bool simple; // an earlier step: at most its first trial is rejected
 static int calls; static int budget; static double first0,first1,last[6]; static double startT,limit,sum; static int steps;
static int D0=0,D1=1,D2=2; // where time, the variable with an error, and one that stands still are
struct Sys : adevs::ode_system<int> { Sys():adevs::ode_system<int>(3,0){} void init(double* q){ q[0]=q[1]=q[2]=0; }
  void der_func(double const* q,double* d){ sx_assume(budget-->0); int s=calls%STAGES; if(s==0){ first0=q[D0]; first1=q[D1]; } 
#if P_INT==2
    static double const D[4][6]={{0,0,0,0,0,0},{3,3,3,3,3,3},{4,0,4,0,0,0},{0,0,0,0,-8,-8}}; if(s==0) pat=simple?(calls<STAGES&&sx_bool("reject")?2:0):sx_choice("derivative",4); last[s]=D[pat][s];
#else
    static double const D[]={0,4,-4}; last[s]=simple?(s==0&&calls<STAGES&&sx_bool("reject")?4:0):D[sx_choice("derivative",3)];
#endif
     calls++; d[D0]=1; d[D1]=last[s]; d[D2]=0; }
  void state_event_func(double const*,double*){} double time_event_func(double const*){ return adevs_inf<double>(); } void internal_event(double*,bool const*){} void external_event(double*,double,std::list<adevs::PinValue<int>> const&){} void confluent_event(double*,bool const*,std::list<adevs::PinValue<int>> const&){} void output_func(double const*,bool const*,std::list<adevs::PinValue<int>>&){} };
static double absv(double x){ return x<0?-x:x; }
static bool near(double a,double b){ double d=a-b; return d<=1e-11&&d>=-1e-11; }
static double hmax;
static double once(Integ& s,double* q,double lim){ double q0=q[D0],q1=q[D1],q2=q[D2]; calls=0; budget=P_TRIALS*STAGES; double h=s.integrate(q,lim);
  sx_assert(h>=0&&h<=lim&&h<=hmax,"a step is within its limit and the maximum"); sx_assert(h>0||!(lim>0),"a step is positive when it may be");
  if(lim>0) sx_assert(calls>=STAGES,"a step evaluates the derivative");
  if(calls>=STAGES){ sx_assert(first0==q0&&first1==q1,"a trial step starts from the given state"); double e,y;
#if P_INT==2
    e=absv(h*last[0]/8.0+2.0*(h*last[2])/3.0+h*last[3]/16.0-27.0*(h*last[4])/56.0-125.0*(h*last[5])/336.0); y=q1+h*last[0]/24.0+5.0*(h*last[3])/48.0+27.0*(h*last[4])/56.0+125.0*(h*last[5])/336.0;
#else
    e=absv(h*last[0]-h*last[1]); y=q1+h*last[1];
#endif
    sx_assert(e<=TOL+1e-9,"a step is accepted only when the error estimate is within the tolerance"); sx_assert(near(q[D0],q0+h)&&near(q[D1],y)&&q[D2]==q2,"the state is replaced by the new state"); if(calls>STAGES) sx_reach("rejected"); }
  sx_reach("accepted"); return h; }
void sx_test(){
  Sys* sys=new Sys(); hmax=sx_choice("maximum",2)?0.5:3.0; Integ* s=new Integ(sys,TOL,hmax); D1=sx_choice("place",3); D0=(D1+2)%3; D2=(D1+1)%3; double* q=new double[3]; q[D0]=sx_dyadic("time",-8,8,1); q[D1]=sx_dyadic("state",-8,8,1); q[D2]=5;
  for(int k=0;k<P_HIST;k++){ simple=k+1<P_HIST||P_ADV; double lim; if(k+1<P_HIST){ static double const LIM[]={0,0.25,4}; lim=LIM[sx_choice("limit",3)]; } else lim=sx_dyadic("limit",0,20,2); once(*s,q,lim); }
#if P_ADV
  simple=false; double h=sx_dyadic("interval",0,12,2)+(sx_bool("and a little")?0x1p-24:0.0); double q0=q[D0]; calls=0; budget=P_ADV*STAGES; s->advance(q,h); sx_assert(near(q[D0],q0+h),"advancing covers exactly the interval"); sx_reach("advanced"); if(calls>STAGES) sx_reach("several steps");
#endif
  delete[] q; delete s; delete sys; sx_reach("end");
}
