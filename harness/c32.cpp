// C32: memory safety and lifetimes. The executor checks every memory access of every path; models are owned by the simulation alone.
#include "sx_api.h"
#include "adevs/adevs.h"
#include <vector>
typedef adevs::PinValue<int> PV; typedef adevs::pin_t pin_t; typedef adevs::Coupled<int,double> C; typedef adevs::Atomic<int,double> A; typedef adevs::MealyAtomic<int,double> MA; typedef adevs::Graph<int,double> G; typedef adevs::Simulator<int,double> S; typedef std::shared_ptr<A> Sp;
#ifndef P_THROW
#define P_THROW 0
#endif
#ifndef P_COUPLED
#define P_COUPLED 0
#endif
#ifndef P_MEALY
#define P_MEALY 0
#endif
#ifndef P_TENT
#define P_TENT 0
#endif
struct Boom {};
static int const MAXM=6; static bool in[MAXM], alive[MAXM]; static int made, ops; static bool closing; static std::weak_ptr<A> who[MAXM]; static pin_t* out[MAXM]; static G* g; static C* c; static std::vector<int> willGo; static int depth; struct Depth { Depth(){ depth++; } ~Depth(){ depth--; } };
static int makeModel();
static void gone(int i){ sx_assert(alive[i],"a model is destroyed once"); alive[i]=false; bool going=closing||!in[i]; for(int j:willGo) going|=j==i; sx_assert(going,"a model is alive while it is in the simulation"); sx_assert(depth==0,"no model is destroyed while a model is being called"); }
static void act(int i){ Depth d; if(ops<=0) return; int k=sx_choice("action",P_THROW?6:5); if(k==0) return; ops--; 
  if(k==5){ sx_reach("throw"); throw Boom(); }
  if(k==1||k==2){ int j=k==1?i:(i+1)%2; Sp m=who[j].lock(); if(!m) return; if(c) c->remove_atomic(m); else g->remove_atomic(m); willGo.push_back(j); sx_reach(k==1?"remove itself":"remove another"); }
  else if(k==3&&made<MAXM){ int n=makeModel(); (void)n; sx_reach("add"); }
  else if(k==4){ Sp m=who[(i+1)%2].lock(); if(!m) return; if(c){ c->remove_coupling(*out[i],m); c->create_coupling(*out[i],m); } else { g->disconnect(*out[i],m); g->connect(*out[i],m); g->remove_pin(*out[i]); } sx_reach("couplings"); } }
template<class B> struct MT : B { int i; double next; ~MT(){ gone(i); } double ta(){ return next; } void draw(){ next=P_THROW?sx_dyadic("ta",-1,2,0):sx_dyadic("ta",0,2,0); }
  void delta_int(){ act(i); draw(); } void delta_ext(double,std::list<PV> const& x){ sx_assert(!x.empty(),"input"); act(i); draw(); } void delta_conf(std::list<PV> const& x){ sx_assert(!x.empty(),"input"); act(i); draw(); } void output_func(std::list<PV>& y){ 
#if P_THROW
    if(ops>0&&sx_bool("throw in output")){ sx_reach("throw"); throw Boom(); }
#endif
    y.push_back(PV(*out[i],i)); } };
struct Moore : MT<A> {}; struct Mealy : MT<MA> { void external_output_func(double,std::list<PV> const&,std::list<PV>& y){ 
#if P_MEALY==2
    y.push_back(PV(*out[i],i));
#endif
    (void)y; } void confluent_output_func(std::list<PV> const&,std::list<PV>& y){ y.push_back(PV(*out[i],i)); } };
static int makeModel(){ int i=made++; Sp p; 
#if P_MEALY
  auto m=std::make_shared<Mealy>();
#else
  auto m=std::make_shared<Moore>();
#endif
  m->i=i; m->next=1; p=m; alive[i]=true; who[i]=p; if(c) c->add_atomic(p); else g->add_atomic(p); in[i]=true; if(i>0){ Sp f=who[0].lock(); bool stays=in[0]; for(int j:willGo) stays&=j!=0; if(f&&stays){ if(c){ c->create_coupling(*out[i],f); c->create_coupling(*out[0],p); } else { g->connect(*out[i],f); g->connect(*out[0],p); } } } return i; }
static void took(){ for(int j:willGo) in[j]=false; willGo.clear(); }
void sx_test(){
  made=0; ops=P_OPS; closing=false; depth=0; c=nullptr; willGo.clear(); for(auto&p:out) p=new pin_t(); size_t blocks=sx_live_blocks();
  {
    std::shared_ptr<G> gr; std::shared_ptr<C> co; std::unique_ptr<S> s; 
    if(P_COUPLED){ co=std::make_shared<C>(); c=co.get(); } else { gr=std::make_shared<G>(); g=gr.get(); }
    makeModel(); makeModel(); for(int i=0;i<2;i++){ Sp p=who[i].lock(); static_cast<MT<std::conditional<(P_MEALY!=0),MA,A>::type>*>(p.get())->draw(); }
    if(P_MEALY==1){ Sp z=who[0].lock(); if(c) c->remove_coupling(*out[1],z); else g->disconnect(*out[1],z); } // otherwise a loop
    try {
      s.reset(P_COUPLED?new S(co):new S(gr));
      for(int k=0;k<P_CYC&&s->nextEventTime()<100;k++){
#if P_TENT
        int n=sx_choice("tentative",2); for(int r=0;r<n;r++){ s->computeNextOutput(); } PV x(*out[0],-1); if(sx_bool("inject")) s->injectInput(x);
#endif
        s->execNextEvent(); took(); for(int i=0;i<made;i++) sx_assert(alive[i]==in[i],"a model lives as long as it is in the simulation"); sx_reach("cycle"); }
    } catch(Boom&){ sx_reach("thrown"); } catch(adevs::exception& e){ sx_assert(e.what()[0]!=0&&e.who()!=nullptr,"the exception says what and who"); sx_reach("rejected"); }
    closing=true; // any order of destruction
    int o=sx_choice("order",3); if(o==0) s.reset(); else if(o==1){ gr.reset(); co.reset(); s.reset(); } else { Sp keep=who[0].lock(); s.reset(); gr.reset(); co.reset(); if(keep) sx_assert(alive[0],"a model somebody holds stays alive"); }
  }
  for(int i=0;i<made;i++) sx_assert(!alive[i],"every model is destroyed in the end");
  { std::vector<int> e; willGo.swap(e); } for(auto&w:who) w.reset(); sx_assert(sx_live_blocks()==blocks,"all memory is released"); for(auto&p:out) delete p; sx_reach("end");
}
