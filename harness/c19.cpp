// C19: the tolerant comparison fcmp and the double_fcmp clock type, bit-precise over all finite doubles
#include "sx_api.h"
#include "adevs/time.h"
#include <cstring>
#include <cmath>
typedef adevs::double_fcmp D;
double D::epsilon=0.0;
static double fin(char const* n){ double d=sx_double(n); unsigned long b; memcpy(&b,&d,8); sx_assume(((b>>52)&0x7ff)!=0x7ff); return d; }
static int expo(double x){ // exponent e with |x| = m*2^e, 0.5<=m<1, computed from the bits (normal numbers and zero)
  unsigned long b; memcpy(&b,&x,8); int e=(int)((b>>52)&0x7ff); return e-1022; }
void sx_test(){
#if P_MODE==1   // definition
  double x=fin("x"), y=fin("y");
#ifdef P_EPS
  static const double es[]={0.0,0x1p-52,1e-10,0.25}; double eps=es[sx_choice("eps",4)];
#else
  double eps=fin("eps"); sx_assume(eps>=0.0&&eps<1.0);
#endif
  double ax=fabs(x), ay=fabs(y); double big=ax>ay?ax:ay;
  sx_assume(big>=0x1p-1000||big==0.0); sx_assume(eps==0.0||eps>=0x1p-60);
  int r=D::fcmp(x,y,eps);
  sx_assert(r==0||r==1||r==-1,"result is -1, 0 or 1");
  double delta= big==0.0?0.0:ldexp(eps,expo(big)); double d=x-y;
  bool eq=fabs(d)<=delta;
  sx_assert((r==0)==eq,"equal exactly when the difference is within epsilon times the power of two of the larger magnitude");
  if(r>0){ sx_assert(d>0.0,"reports greater only when greater"); sx_reach("greater"); } else if(r<0){ sx_assert(d<0.0,"reports less only when less"); sx_reach("less"); } else sx_reach("equal");
#elif P_MODE==2 // symmetry and reflexivity
  double x=fin("x"), y=fin("y"), eps=fin("eps"); sx_assume(eps>=0.0&&eps<1.0);
  int r=D::fcmp(x,y,eps); int s=D::fcmp(y,x,eps);
  sx_assert(r==-s,"antisymmetric"); sx_assert(D::fcmp(x,x,eps)==0,"reflexive"); sx_reach("symmetric");
#elif P_MODE==3 // exact at tolerance zero
  double x=fin("x"), y=fin("y"); int r=D::fcmp(x,y,0.0); sx_assert((r==0)==(x==y)&&(r>0)==(x>y)&&(r<0)==(x<y),"exact when the tolerance is zero"); sx_reach("exact");
#else           // operators of the clock type
  double x=fin("x"), y=fin("y"), eps=fin("eps"); sx_assume(eps>=0.0&&eps<1.0); D::epsilon=eps;
  D const a(x), b(y); int r=D::fcmp(x,y,eps);
  sx_assert((a<b)==(r<0),"operator<"); sx_assert((a<=b)==(r<=0),"operator<="); sx_assert((a>b)==(r>0),"operator>"); sx_assert((a>=b)==(r>=0),"operator>="); sx_assert((a==b)==(r==0),"operator==");
  sx_assert((a<y)==(r<0),"operator<(double)"); sx_assert((a==y)==(r==0),"operator==(double)");
  D s=a+b, m=a-b; D u(a), v(a); D const& ru=(u+=b); D const& rv=(v-=b); double S=x+y, M=x-y;
  auto same=[](double p,double q){ return p==q||(p!=p&&q!=q); };
  sx_assert(same((double)s,S),"operator+"); sx_assert(same((double)m,M),"operator-"); sx_assert(same((double)u,S)&&&ru==&u,"operator+="); sx_assert(same((double)v,M)&&&rv==&v,"operator-=");
  D c(a), e; e=b; D f; f=x; D z; sx_assert((double)c==x&&(double)e==y&&(double)f==x&&(double)z==0.0,"copy, assignment and conversion");
  sx_reach("operators");
#endif
}
