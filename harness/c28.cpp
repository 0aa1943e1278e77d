// C28: the real spline for symbolic states and slopes.
#include "adevs/adevs.h"
#include "adevs/solvers/spline.h"
#include "sx_api.h"
#ifndef P_NV
#define P_NV 2
#endif
#ifndef P_WHAT
#define P_WHAT 1     // 1 end points and slopes, 2 cubic solutions
#endif
#ifndef P_HS
#define P_HS 7
#endif
#ifndef P_CONC
#define P_CONC 0
#endif
#ifndef P_REUSE
#define P_REUSE 1
#endif
static int const NV=P_NV; static double const H[]={1,0.5,3,0.1,0.25,4.7,2};
static bool near(double a,double b){ double d=a-b; return d<=1e-7&&d>=-1e-7; }
static double small(char const* n){ if(P_CONC) return sx_choice(n,2)*3-1; return sx_dyadic(n,-64,64,3); }
void sx_test(){ adevs::spline* p=new adevs::spline(NV); double *q0=new double[NV],*q1=new double[NV],*d0=new double[NV],*d1=new double[NV],*r=new double[NV],*x[4]; for(int k=0;k<4;k++) x[k]=new double[NV];
  for(int use=0;use<=P_REUSE;use++){ bool last=use==P_REUSE;  double h=H[last?sx_choice("h",P_HS):1]; double co[P_NV][4];
    for(int i=0;i<NV;i++){
#if P_WHAT==1
      q0[i]=last?small("state"):5; q1[i]=last?small("end"):-3; d0[i]=last?small("slope"):2; d1[i]=last?small("end slope"):7;
#else
      for(int k=0;k<4;k++) co[i][k]=last?small("coefficient"):k; double*c=co[i]; q0[i]=c[0]; q1[i]=c[0]+h*(c[1]+h*(c[2]+h*c[3])); d0[i]=c[1]; d1[i]=c[1]+h*(2*c[2]+3*h*c[3]);
#endif
    }
    double c0[P_NV],c1[P_NV],e0[P_NV],e1[P_NV]; for(int i=0;i<NV;i++){ c0[i]=q0[i]; c1[i]=q1[i]; e0[i]=d0[i]; e1[i]=d1[i]; }
    p->init(q0,d0,q1,d1,h); for(int i=0;i<NV;i++) sx_assert(q0[i]==c0[i]&&q1[i]==c1[i]&&d0[i]==e0[i]&&d1[i]==e1[i],"what is interpolated is left alone");
    for(int i=0;i<NV;i++) q0[i]=q1[i]=d0[i]=d1[i]=77;     // it does not depend on the arrays afterwards
    if(!last) continue;
#if P_WHAT==1
    for(int k=0;k<4;k++) p->interpolate(x[k],k==3?h:h*k/3);
    for(int i=0;i<NV;i++){ sx_assert(near(x[0][i],c0[i]),"the state at the start is reproduced"); sx_assert(near(x[3][i],c1[i]),"the state at the end is reproduced");
      sx_assert(near((-5.5*x[0][i]+9*x[1][i]-4.5*x[2][i]+x[3][i]),e0[i]*h),"the slope at the start is reproduced"); sx_assert(near((5.5*x[3][i]-9*x[2][i]+4.5*x[1][i]-x[0][i]),e1[i]*h),"the slope at the end is reproduced"); }
    p->interpolate(r,h/2); for(int i=0;i<NV;i++) sx_assert(near(r[i],(-x[0][i]+9*x[1][i]+9*x[2][i]-x[3][i])/16),"the interpolant is a cubic");
#else
    static double const F[]={0,1,0.5,0.25,0.7,0.01}; double t=h*F[sx_choice("where",6)]; p->interpolate(r,t); for(int i=0;i<NV;i++){ double*c=co[i]; sx_assert(near(r[i],c[0]+t*(c[1]+t*(c[2]+t*c[3]))),"a cubic solution is reproduced"); }
#endif
    sx_reach("checked"); }
  delete p; delete[] q0; delete[] q1; delete[] d0; delete[] d1; delete[] r; for(int k=0;k<4;k++) delete[] x[k]; sx_reach("end"); }
