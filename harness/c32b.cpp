// C32: many models: the storage of the schedule grows at construction and while running, then shrinks.
#include "sx_api.h"
#include "adevs/adevs.h"
#include <vector>
#ifndef P_MANY
#define P_MANY 99   // models at first; the schedule has room for 99 at first
#endif
#ifndef P_MORE
#define P_MORE 105  // models added while running
#endif
typedef adevs::PinValue<int> PV; typedef adevs::Atomic<int> A; typedef std::list<PV> Bag;
static adevs::Graph<int>* G; static int alive,ints; static double first;
struct M : A { int id; bool gone=false,started=false; M(int i):id(i){ alive++; } ~M(){ alive--; }
  double ta(){ return id==0&&!started?first:1.0+(id%7); } void delta_int(){ ints++; if(id==0&&!started) for(int i=0;i<P_MORE;i++) G->add_atomic(std::make_shared<M>(1000+i)); started=true; if(id!=0&&!gone){ gone=true; std::shared_ptr<A> me; for(auto& m:G->get_atomics()) if(m.get()==this) me=m; G->remove_atomic(me); } }
  void delta_ext(double,Bag const&){} void delta_conf(Bag const&){} void output_func(Bag&){} };
void sx_test(){ alive=ints=0;
  { auto g=std::make_shared<adevs::Graph<int>>(); G=g.get(); first=sx_dyadic("first",0,40,2)/4; int many=P_MANY-2+sx_choice("models",5); for(int i=0;i<many;i++) g->add_atomic(std::make_shared<M>(i));
    adevs::Simulator<int> s(g); int n=0; double last=0; while(G->get_atomics().size()>1&&n++<60){ double t=s.nextEventTime(); sx_assert(t>=last,"time goes on"); last=t; s.execNextEvent(); }
    sx_assert(alive==1,"models that have been removed are released"); sx_assert(ints>=many+P_MORE-1,"every model has had its event"); sx_reach("end"); }
  sx_assert(alive==0,"models are released with the graph"); }
