// C20: clock constants. The simulations are compared in c01.cpp with each clock type.
#include "sx_api.h"
#include <limits>
#include "adevs/adevs.h"
using namespace adevs;
double adevs::double_fcmp::epsilon=0.0;
template<class T,class R> static void plain(R x,R y){ // x, y symbolic
  T v(x), w(y); sx_assert(adevs_sentinel<T>()<adevs_zero<T>(),"the sentinel is below zero"); sx_assert(adevs_zero<T>()<adevs_inf<T>(),"zero is below infinity");
  sx_assert(adevs_epsilon<T>()==adevs_zero<T>(),"the increment of a plain clock is zero"); sx_assert(v+adevs_epsilon<T>()==v,"the increment of a plain clock is zero");
  sx_assert(v+adevs_zero<T>()==v,"adding zero changes nothing"); sx_assert(v<=adevs_inf<T>(),"no time exceeds infinity"); sx_assert(!(adevs_inf<T>()<v),"no time exceeds infinity");
  sx_assert(adevs_zero<T>()==T(R(0)),"zero is zero"); sx_assert((v-adevs_zero<T>())==v,"subtracting zero changes nothing"); sx_assert(adevs_inf<T>()==adevs_inf<T>(),"infinity equals itself"); sx_assert(adevs_inf<T>()-adevs_zero<T>()==adevs_inf<T>(),"infinity less zero"); sx_assert(T(std::numeric_limits<R>::max())<=adevs_inf<T>(),"infinity is the greatest time");
  if(v<adevs_zero<T>()) sx_reach("negative"); else sx_assert(adevs_zero<T>()<=v&&adevs_sentinel<T>()<v,"sentinel below every legal time"); sx_reach("checked"); (void)w; }
template<class R> static void dense(R x,int k){ typedef sd_time<R> T; T v(x,k);
  sx_assert(adevs_sentinel<T>()<adevs_zero<T>(),"the sentinel is below zero"); sx_assert(adevs_zero<T>()<adevs_inf<T>(),"zero is below infinity"); sx_assert(adevs_zero<T>()<adevs_epsilon<T>(),"the increment of a super-dense clock is positive");
  sx_assert(v<=adevs_inf<T>()&&!(adevs_inf<T>()<v),"no time exceeds infinity"); sx_assert(adevs_zero<T>()==T(R(0),0),"zero is zero"); sx_assert(T(std::numeric_limits<R>::max(),std::numeric_limits<int>::max())<=adevs_inf<T>(),"infinity is the greatest time"); sx_assert(adevs_inf<T>()==adevs_inf<T>(),"infinity equals itself");
  if(adevs_zero<T>()<v){ sx_assert(adevs_epsilon<T>()<=v,"the increment is the least positive interval"); sx_reach("positive"); }
  if(v<adevs_zero<T>()) sx_reach("negative"); else sx_assert(adevs_sentinel<T>()<v,"sentinel below every legal time");
  if(k<2147483647){ T n=v+adevs_epsilon<T>(); sx_assert(v<n&&n==T(x,k+1),"the increment is the next instant"); sx_reach("checked"); } }
void sx_test(){ int which=sx_choice("clock",9);
  long a=which==0||which==2?0:sx_long("x",-(1L<<40),1L<<40);
  switch(which){
   case 0: plain<double,double>(sx_dyadic("x",-(1L<<40),1L<<40,10),0); break;
   case 1: plain<long,long>(a,0); break;
   case 2: plain<float,float>(sx_dyadicf("x",-(1L<<20),1L<<20,4),0); break;
   case 3: plain<long double,long double>(sx_dyadicl("x",-(1L<<40),1L<<40,10),0); break;
   case 4: plain<int,int>(sx_int("x",-2147483647-1,2147483647),0); break;
   case 5: plain<double_fcmp,double>(sx_dyadic("x",-(1L<<40),1L<<40,10),0); break;
   case 6: { double r=sx_dyadic("r",-(1L<<40),1L<<40,10); int k=sx_int("k",0,2147483647); dense<double>(r,k); } break;
   case 7: { int r=sx_int("r",-2147483647-1,2147483647); int k=sx_int("k",0,2147483647); dense<int>(r,k); } break;
   case 8: { long r=sx_long("r",-9223372036854775807L-1,9223372036854775807L); int k=sx_int("k",0,2147483647); dense<long>(r,k); } break; } }
