// C26: one step of the real integrators on systems with polynomial solutions, compared with the solution.
#ifndef P_INT
#define P_INT 1      // 1 corrected Euler, 2 Runge-Kutta 4/5, 3 trapezoidal
#endif
#ifndef P_SYS
#define P_SYS 1      // 1 chain of linear equations, 2 polynomial of time, 3 products of variables
#endif
#ifndef P_ADV
#define P_ADV 1
#endif
#ifndef P_HS
#define P_HS 6
#endif
#if P_INT==3
#define STUB_KINSOL
#include "sundials_stub.h"
#endif
#include "adevs/adevs.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/rk_45.h"
#if P_INT==3
#include "adevs/solvers/trap.h"
#endif
#include "sx_api.h"
static double const HS[]={1,0.5,3,0.25,2,0.3};
#if P_INT==2
static int const ORDER=4;
#else
static int const ORDER=2;
#endif
#if P_SYS==1
static int const NV=ORDER;
#elif P_SYS==2
static int const NV=3;     // time and two integrals
#else
static int const NV=ORDER==4?6:3;
#endif
static int at[8]; static double co[8][8]; // place of each variable in the state vector, coefficients
static double small(char const* n){ return sx_dyadic(n,-16,16,2); }
static bool near(double a,double b){ double d=a-b; return d<=1e-7&&d>=-1e-7; }
static void f(double const* q,double* d){
#if P_SYS==1
  for(int i=0;i<NV;i++) d[at[i]]=co[i][0]+(i?co[i][1]*q[at[i-1]]:0);
#elif P_SYS==2
  double t=q[at[0]]; d[at[0]]=1; for(int i=1;i<NV;i++){ double p=0; for(int k=ORDER-1;k>=0;k--) p=p*t+co[i][k]; d[at[i]]=p; }
#else
  // u'=a, w'=u, ...
  d[at[0]]=co[0][0]; d[at[1]]=q[at[0]]+co[1][0];
  if(ORDER==2) d[at[2]]=3*q[at[0]]-co[2][0];
  else { d[at[2]]=q[at[0]]*q[at[1]]; d[at[3]]=q[at[0]]*q[at[0]]; d[at[4]]=q[at[3]]+co[2][0]; d[at[5]]=q[at[0]]*q[at[0]]*q[at[0]]; }
#endif
}
static void solution(double const* x,double h,double* y){ // x and y in the order of the equations
#if P_SYS==1
  for(int i=0;i<NV;i++){ // x_i' = c_i+a_i x_{i-1}: Taylor coefficients
    double s=0,p=1; double c=1; // x_i(h)=x_i + c_i h + a_i (x_{i-1} h + c_{i-1} h^2/2 + a_{i-1}(...))
    s=x[i]; double hk=h; for(int j=i,k=1;j>=0;j--,k++){ s+=c*co[j][0]*hk; if(j>0){ c*=co[j][1]; s+=c*x[j-1]*hk; } hk=hk*h/(k+1); } (void)p; y[i]=s; }
#elif P_SYS==2
  double a=x[0],b=x[0]+h; y[0]=b; for(int i=1;i<NV;i++){ double s=x[i],pa=a,pb=b; for(int k=0;k<ORDER;k++){ s+=co[i][k]*(pb-pa)/(k+1); pa*=a; pb*=b; } y[i]=s; }
#else
  double a=co[0][0],u=x[0],c=co[1][0],w=x[1]; y[0]=u+a*h; y[1]=w+(u+c)*h+a*h*h/2;
  if(ORDER==2) y[2]=x[2]+(3*u-co[2][0])*h+3*a*h*h/2;
  else { // (u+a t)(w+(u+c) t+a t^2/2)
    double e=u+c; y[2]=x[2]+u*w*h+(u*e+a*w)*h*h/2+(u*a/2+a*e)*h*h*h/3+(a*a/2)*h*h*h*h/4;
    y[3]=x[3]+u*u*h+u*a*h*h+a*a*h*h*h/3; y[4]=x[4]+(x[3]+co[2][0])*h+u*u*h*h/2+u*a*h*h*h/3+a*a*h*h*h*h/12;
    y[5]=x[5]+u*u*u*h+3*u*u*a*h*h/2+u*a*a*h*h*h+a*a*a*h*h*h*h/4; }
#endif
}
struct Sys : adevs::ode_system<int> { Sys():adevs::ode_system<int>(NV,0){} void init(double*){}
  void der_func(double const* q,double* d){ f(q,d); }
  void state_event_func(double const*,double*){} double time_event_func(double const*){ return adevs_inf<double>(); } void internal_event(double*,bool const*){} void external_event(double*,double,std::list<adevs::PinValue<int>> const&){} void confluent_event(double*,bool const*,std::list<adevs::PinValue<int>> const&){} void output_func(double const*,bool const*,std::list<adevs::PinValue<int>>&){} };
#if P_INT==3
extern "C" double sqrt(double x){ sx_assert(x>=0,"argument of the square root"); return 1; }   // (only the size of the next step depends on it)
// the systems are triangular, so that substitution solves the equation
static int stub_solve(StubKin* k,N_Vector u){ N_Vector r=stub_vec(NV,u->sunctx); double *ud=N_VGetArrayPointer(u),*rd=N_VGetArrayPointer(r); for(int n=0;n<=NV;n++){ k->f(u,r,k->user); for(int i=0;i<NV;i++) ud[i]+=rd[i]; } N_VDestroy(r); return 0; }
#endif
void sx_test(){ Sys* s=new Sys(); adevs::ode_solver<int>* o;
#if P_INT==1
  o=new adevs::corrected_euler<int>(s,1e100,8);
#elif P_INT==2
  o=new adevs::rk_45<int>(s,1e100,8);
#else
  o=new adevs::trap<int>(s,1e100,8,true);
#endif
  double h=HS[sx_choice("step",P_HS)]; bool back=sx_bool("order"); for(int i=0;i<NV;i++) at[i]=back?NV-1-i:i;
  double x[8],y[8]; double* q=new double[NV];
#if P_SYS==1
  static double const A[]={1,2}; for(int i=0;i<NV;i++){ co[i][0]=small("rate"); co[i][1]=A[i==1?sx_choice("gain",2):0]; x[i]=small("state"); }
#elif P_SYS==2
  static double const T0[]={0,1,-2.5}; x[0]=T0[sx_choice("time",3)]; for(int i=1;i<NV;i++){ x[i]=small("state"); for(int k=0;k<ORDER;k++) co[i][k]=small("coefficient"); }
#else
  static double const U[]={0,1,-2}; for(int i=0;i<NV;i++) x[i]=small("state"); if(ORDER==4){ x[0]=U[sx_choice("u",3)]; co[0][0]=U[sx_choice("a",3)]; } else co[0][0]=small("a"); co[1][0]=small("c"); co[2][0]=small("d");
#endif
  for(int i=0;i<NV;i++) q[at[i]]=x[i]; bool adv=P_ADV&&sx_bool("advance"); if(adv) o->advance(q,h); else { double r=o->integrate(q,h); sx_assert(r==h,"one step is taken"); }
  solution(x,h,y); for(int i=0;i<NV;i++) sx_assert(near(q[at[i]],y[i]),"the step ends at the exact solution"); sx_reach("checked");
  delete o; delete s; delete[] q; sx_reach("end"); }
