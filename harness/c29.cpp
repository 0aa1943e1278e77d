// C29: the nonlinear system that the trapezoidal integrator poses, for bilinear and linear systems with symbolic coefficients, and its reaction to failures of the solver.
#define STUB_KINSOL
#include "sundials_stub.h"
#include "adevs/adevs.h"
#include "adevs/solvers/trap.h"
#ifndef P_NV
#define P_NV 2
#endif
#ifndef P_CALLS
#define P_CALLS 1
#endif
#ifndef P_FAIL
#define P_FAIL 1      // failures of the solver per step
#endif
#ifndef P_ADV
#define P_ADV 0
#endif
#ifndef P_WHAT
#define P_WHAT 1      // 1 the equation and its Jacobian, 2 failures and step limits
#endif
static bool const LITE=P_ADV||P_CALLS>1;
static int const NV=P_NV;
static double A[P_NV][P_NV], B[P_NV]; static bool haveJac, retry; static int solves, fails, steps; static double q0[P_NV], sol[P_NV], lastH, hmax, lim, total; static bool expectStart;
static double h_;    // the step that is being solved for
#if P_WHAT==2
extern "C" double sqrt(double x){ sx_assert(x>=0,"argument of the square root"); static double const R[]={P_ADV?0.5:0.125,1,8}; return R[sx_choice("sqrt",3)]; }   // any step size may come out of the estimate
#endif
static double small(char const* n){ return sx_dyadic(n,-8,8,1); }
// f(y)=A y+b
static void f(double const* q,double* d){ for(int i=0;i<NV;i++){ d[i]=B[i]; for(int j=0;j<NV;j++) d[i]+=A[i][j]*q[j]; } }
static bool near(double a,double b){ double d=a-b; return d<=1e-9&&d>=-1e-9; }
struct Sys : adevs::ode_system<int> { Sys():adevs::ode_system<int>(NV,0){} void init(double*){}
  void der_func(double const* q,double* d){ 
#if P_WHAT==2
    if(expectStart){ expectStart=false; for(int i=0;i<NV;i++) sx_assert(q[i]==q0[i],"a step starts from the given state"); }
#endif
    f(q,d); }
  bool get_jacobian(double const* q,double* J){ if(!haveJac) return false; if(J){ for(int i=0;i<NV;i++) for(int j=0;j<NV;j++) J[j*NV+i]=A[i][j]; } return true; }
  void state_event_func(double const*,double*){} double time_event_func(double const*){ return adevs_inf<double>(); } void internal_event(double*,bool const*){} void external_event(double*,double,std::list<adevs::PinValue<int>> const&){} void confluent_event(double*,bool const*,std::list<adevs::PinValue<int>> const&){} void output_func(double const*,bool const*,std::list<adevs::PinValue<int>>&){} };
static int stub_solve(StubKin* k,N_Vector u){ solves++;
  N_Vector r=stub_vec(NV,u->sunctx), r2=stub_vec(NV,u->sunctx), v=stub_vec(NV,u->sunctx); double *ud=N_VGetArrayPointer(u),*rd=N_VGetArrayPointer(r),*vd=N_VGetArrayPointer(v),*rd2=N_VGetArrayPointer(r2);
#if P_WHAT==1
  // the residual at any state vanishes just when the trapezoidal equation holds: it is +-(q+h/2(f(q)+f(y))-y)
  double y[P_NV],fy[P_NV],fq[P_NV]; for(int i=0;i<NV;i++) y[i]=vd[i]=small("trial"); f(y,fy); f(q0,fq);
  sx_assert(k->f(v,r,k->user)==0,"the residual can be computed"); for(int i=0;i<NV;i++) sx_assert(vd[i]==y[i],"computing the residual leaves the trial state alone");
  for(int i=0;i<NV;i++) sx_assert(near(rd[i],q0[i]+h_/2*(fq[i]+fy[i])-y[i]),"the residual is that of the trapezoidal equation"); sx_reach("residual");
  if(k->jac){ double* J=SUNDenseMatrix_Data(k->J); sx_assert(k->jac(v,r,k->J,k->user,nullptr,nullptr)==0,"the Jacobian can be computed"); for(int i=0;i<NV;i++) sx_assert(vd[i]==y[i],"computing the Jacobian leaves the trial state alone");
    for(int j=0;j<NV;j++){ for(int i=0;i<NV;i++) vd[i]=y[i]+(i==j); k->f(v,r2,k->user); for(int i=0;i<NV;i++) sx_assert(near(J[j*NV+i],rd2[i]-rd[i]),"the Jacobian is the derivative of the residual, by columns"); } sx_reach("Jacobian"); }
  sx_assert((k->jac!=nullptr)==haveJac,"the Jacobian is used when the system has one");
#endif
  bool fail=fails<P_FAIL&&sx_bool("fails"); for(int i=0;i<NV;i++) {
#if P_WHAT==2
    double g=ud[i]; if(LITE&&i>0){ if(fail) ud[i]=99; continue; } ud[i]=small(fail?"garbage":"solution"); double d=g-ud[i]; if(!fail&&d!=0) sx_assume(d>=0.001||d<=-0.001);   // (the step is otherwise limited by a division by almost nothing)
#else
    ud[i]=small(fail?"garbage":"solution");
#endif
  }
  // the step that is tried is known from the right hand side: with f(y)=b it is k+h/2 b-y
  if(P_WHAT==2){ for(int i=0;i<NV;i++) vd[i]=0; k->f(v,r,k->user); double h=rd[0]-q0[0]; if(retry) sx_assert(h<h_-0.001,"the step is made smaller when the solver fails"); sx_assert(near(rd[1],q0[1]+2*h),"a step that is tried again starts from the unchanged state"); h_=h; }
  retry=fail; if(fail) fails++; else { steps++; total+=h_; for(int i=0;i<NV;i++) sol[i]=ud[i];
    if(P_ADV){ sx_assert(h_<=lim-(total-h_)+1e-9&&h_<=hmax,"a step is within what is left and the maximum"); for(int i=0;i<NV;i++) q0[i]=ud[i]; expectStart=true; } }
  N_VDestroy(r); N_VDestroy(r2); N_VDestroy(v); if(fail){ sx_reach("failed"); return LITE?-5:-1-sx_choice("code",2); } sx_reach("solved"); return LITE?0:sx_choice("warning",2); }
void sx_test(){ 
  for(int i=0;i<NV;i++){ B[i]=P_WHAT==2?1+i:small("b"); for(int j=0;j<NV;j++) A[i][j]=P_WHAT==2?0:(i==0||j==0)?sx_choice("a",3)-1:1; } haveJac=P_WHAT==1?sx_bool("Jacobian"):false;
  Sys* s=new Sys(); static double const HM[]={0.5,3}; hmax=HM[P_WHAT==2?sx_choice("maximum",2):1]; adevs::trap<int>* t=new adevs::trap<int>(s,1.0,hmax,true); double* q=new double[NV]; for(int i=0;i<NV;i++) q[i]=small("state");
  for(int c=0;c<P_CALLS;c++){ solves=fails=0; retry=false; expectStart=true; for(int i=0;i<NV;i++) q0[i]=q[i]; 
#if P_ADV
    static double const H2[]={0.25,1,1.5}; lim=H2[sx_choice("interval",3)]; h_=lim; total=0; steps=0; t->advance(q,lim); sx_assert(near(total,lim),"the steps add up to the interval"); if(steps>1) sx_reach("several steps");
#elif P_WHAT==1
    static double const H[]={1,0.25,2}; lim=H[sx_choice("step",3)]; h_=lim; double h=t->integrate(q,lim); sx_assert(h==lim,"a step is taken up to its limit when nothing stands in the way");
#else
    static double const H[]={0,0.25,1,4}; lim=H[sx_choice("limit",4)]; h_=lim; double h=t->integrate(q,lim); sx_assert(h>=0&&h<=lim&&h<=hmax,"a step is within its limit and the maximum"); sx_assert(h>0||!(lim>0),"a step is positive when it may be"); if(lim>0) sx_assert(near(h,h_),"the step that was solved for is reported");
#endif
    if(lim>0){ sx_assert(solves>0,"a step is solved for"); for(int i=0;i<NV;i++) sx_assert(q[i]==sol[i],"the result is the solution found by the solver"); } else for(int i=0;i<NV;i++) sx_assert(q[i]==q0[i],"a step of length zero leaves the state alone"); 
    if(fails) sx_reach("recovered"); }
  delete t; sx_assert(stub_live==0,"what was made is released"); delete[] q; delete s; sx_reach("end"); }
