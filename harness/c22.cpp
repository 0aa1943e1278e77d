// C22: pin identity
#include "sx_api.h"
#include "adevs/adevs.h"
#include <vector>
#include <map>
typedef adevs::pin_t pin_t;
static bool consistent(pin_t const& a,pin_t const& b){ int n=(a<b)+(b<a)+(a==b); sx_assert(n==1,"exactly one of less, greater and equal"); sx_assert((a!=b)==!(a==b),"unequal is not equal"); sx_assert((a<=b)==((a<b)||(a==b))&&(a>b)==(b<a)&&(a>=b)==!(a<b),"the comparison operators agree"); return a==b; }
static pin_t mine, theirs;
static void make(void* p){ pin_t a; pin_t b; ((pin_t*)p)[0]=a; ((pin_t*)p)[1]=b; }
static void makeOne(void* p){ pin_t a; ((pin_t*)p)[0]=a; }
void sx_test(){
#if P_MODE==1 // any sequence of creations, copies and assignments
  std::vector<pin_t> v; std::vector<int> id; int next=0; v.reserve(8);
  v.push_back(pin_t()); id.push_back(next++);
  for(int i=0;i<P_OPS;i++){ int k=sx_choice("operation",4); size_t j=sx_choice("which",(int)v.size());
    if(k==0){ v.push_back(pin_t()); id.push_back(next++); sx_reach("create"); } else if(k==1){ pin_t c(v[j]); v.push_back(c); int x=id[j]; id.push_back(x); sx_reach("copy"); }
    else if(k==2){ size_t l=sx_choice("target",(int)v.size()); v[l]=v[j]; id[l]=id[j]; sx_reach("assign"); } else { pin_t t; v[j]=t; id[j]=next++; sx_reach("renew"); } }
  for(size_t a=0;a<v.size();a++) for(size_t b=0;b<v.size();b++) sx_assert(consistent(v[a],v[b])==(id[a]==id[b]),"pins are equal exactly when one is a copy of the other");
  for(size_t a=0;a<v.size();a++) for(size_t b=0;b<v.size();b++) for(size_t c=0;c<v.size();c++) if(v[a]<v[b]&&v[b]<v[c]) sx_assert(v[a]<v[c],"the order is transitive");
  std::map<pin_t,int> m; for(size_t a=0;a<v.size();a++) m[v[a]]=id[a]; for(size_t a=0;a<v.size();a++) sx_assert(m[v[a]]==id[a],"pins are usable as keys");
#elif P_MODE==2 // two threads create pins
  struct Two { pin_t p[2]; }; std::vector<pin_t> x(2),y(2); pin_t before;
#if P_BOTH
  sx_par(make,(void*)&x[0],make,(void*)&y[0]); int n=2;
#else
  sx_par(makeOne,(void*)&x[0],makeOne,(void*)&y[0]); int n=1;
#endif
  pin_t after; std::vector<pin_t> v; v.push_back(before); v.push_back(after); for(int i=0;i<n;i++){ v.push_back(x[i]); v.push_back(y[i]); }
  for(size_t a=0;a<v.size();a++) for(size_t b=0;b<v.size();b++) if(a!=b) sx_assert(!consistent(v[a],v[b]),"pins created concurrently differ"); sx_reach("both");
#elif P_MODE==4 // many pins
  pin_t first; pin_t keep[4]; int k=0; int at=sx_choice("kept",4); static int const AT[]={1,255,4095,32767};
  for(int i=0;i<P_MANY;i++){ pin_t x; sx_assert_(!(x==first),"a new pin differs from the pins before it"); for(int j=0;j<k;j++) if(x==keep[j]) sx_assert(false,"a new pin differs from the pins before it"); if(i==AT[at]&&k<4) keep[k++]=x; }
  sx_reach("many");
#else // pins with arbitrary identities: the bytes are symbolic
  pin_t a,b,c; unsigned char* pa=(unsigned char*)(void*)&a; unsigned char* pb=(unsigned char*)(void*)&b; unsigned char* pc=(unsigned char*)(void*)&c; for(size_t i=0;i<sizeof(pin_t);i++){ pa[i]=sx_byte("a"); pb[i]=sx_byte("b"); pc[i]=sx_byte("c"); }
  sx_assert(consistent(a,a),"a pin equals itself"); consistent(a,b); if(a<b&&b<c){ sx_assert(a<c,"the order is transitive"); sx_reach("ordered"); } if(a==b&&b==c) { sx_assert(a==c,"equality is transitive"); sx_reach("equal"); }
  if(a==b) { sx_assert((a<c)==(b<c)&&(c<a)==(c<b),"equal pins are ordered alike"); } pin_t d(a); sx_assert(d==a,"a copy equals the original"); d=b; sx_assert(d==b,"an assigned pin equals the original"); sx_assert((d==a)==(a==b),"assignment forgets the old identity");
#endif
}
