// C17: sd_time is a lexicographic total order with consistent arithmetic
#include "sx_api.h"
#include "adevs/time.h"
#ifndef TT
#define TT double
#endif
typedef adevs::sd_time<TT> S;
#if P_MODE==1   // comparison operators, every pair of values
static TT any(char const* n){
#if defined(FP)
  double d=sx_double(n); sx_assume(d==d); return d;
#elif defined(WIDE)
  return sx_long(n,(-0x7fffffffffffffffL-1),0x7fffffffffffffffL);
#else
  return sx_int(n,(-0x7fffffff-1),0x7fffffff);
#endif
}
void sx_test(){
  TT t1=any("t1"); TT t2=any("t2"); int k1=sx_int("k1",(-0x7fffffff-1),0x7fffffff); int k2=sx_int("k2",(-0x7fffffff-1),0x7fffffff);
  S const a(t1,k1), b(t2,k2);
  bool lt=t1<t2||(t1==t2&&k1<k2), gt=t2<t1||(t1==t2&&k2<k1), eq=t1==t2&&k1==k2;
  sx_assert((a<b)==lt,"operator<"); sx_assert((a>b)==gt,"operator>"); sx_assert((a==b)==eq,"operator==");
  sx_assert((a!=b)==!eq,"operator!="); sx_assert((a<=b)==(lt||eq),"operator<="); sx_assert((a>=b)==(gt||eq),"operator>=");
  S c(a); sx_assert(c==a&&!(c!=a)&&c<=a&&c>=a&&!(c<a)&&!(c>a),"a copy is equal");
  c=b; sx_assert(c==b&&!(c<b)&&!(b<c),"assignment gives an equal value");
  sx_assert(a.real()==t1&&b.real()==t2,"real() is the real part");
  S z; sx_assert(z==S(0,0),"default value is (0,0)");
  sx_reach("compared");
}
#elif P_MODE==3 // addition of doubles of any magnitude
void sx_test(){
  double t=sx_double("t"), h=sx_double("h"); sx_assume(t==t&&h==h&&t-t==0&&h-h==0); int k=sx_int("k",0,3), j=sx_int("j",0,3); double r=t+h; sx_assume(r-r==0);
  S const a(t,k), d(h,j); S s=a+d; S u(a); u+=d; sx_reach(h==0?"logical step":"real step");
  sx_assert(s.real()==(h==0?t:r),"real part of a sum"); sx_assert(s==S(s.real(),h==0?k+j:j),"integer part of a sum"); sx_assert(u==s,"operator+= agrees with operator+");
}
#else           // arithmetic
static TT val(char const* n,long lo,long hi){
#if defined(FP)
  return sx_dyadic(n,lo,hi,10);
#elif defined(WIDE)
  return sx_long(n,lo,hi);
#else
  return sx_int(n,(int)lo,(int)hi);
#endif
}
static void is(S const& x,TT t,int k,char const* m){ sx_assert(x.real()==t,m); sx_assert(x==S(t,k)&&!(x<S(t,k))&&!(S(t,k)<x),m); 
#ifdef SMALLK
  sx_assert(x.integer()==(double)k,m);
#endif
}
#ifdef SMALLK
#define KR 2
#else
#define KR 1000000
#endif
void sx_test(){
  TT t=val("t",-(1L<<24),1L<<24); int k=sx_int("k",-KR,KR); TT h=val("h",-(1L<<24),1L<<24); int j=sx_int("j",-KR,KR);
#ifdef SMALLK
  k=(int)sx_concrete(k); j=(int)sx_concrete(j);
#endif
  S const a(t,k), d(h,j);
  is(a,t,k,"constructor, real() and integer()");
  TT et=h==0?t:(TT)(t+h); int ek=h==0?k+j:j;
  if(h==0) sx_reach("logical step"); else sx_reach("real step");
  S s=a+d; is(s,et,ek,"(t,k)+(h,j)"); is(a,t,k,"operator+ changes its operand"); is(d,h,j,"operator+ changes its operand");
  S u(a); S const& ru=(u+=d); is(u,et,ek,"operator+= agrees with operator+"); is(ru,et,ek,"result of operator+="); is(d,h,j,"operator+= changes its right operand");
  // differences: later-earlier is the interval that leads from the earlier to the later one
  S const b(h,j); 
  if(b<=a){ sx_reach("difference"); S i=a-b; is(a,t,k,"operator- changes its operand"); is(b,h,j,"operator- changes its operand"); S w=b+i; is(w,t,k,"earlier + (later - earlier) == later");
    if(t==h) is(i,0,k-j,"difference at equal real parts"); else sx_assert(i.real()==(TT)(t-h),"real part of a difference");
    S v(a); S const& rv=(v-=b); sx_assert(v==i&&rv==i,"operator-= agrees with operator-"); is(b,h,j,"operator-= changes its right operand");
    sx_assert(S(0,0)<=i,"an interval is not negative") ; }
  S n=a-a; is(n,0,0,"a-a is zero"); S m(a); m-=m; is(m,0,0,"a-=a is zero"); S q(a); q+=q; is(q,t==0?0:(TT)(t+t),t==0?k+k:k,"a+=a");
}
#endif
