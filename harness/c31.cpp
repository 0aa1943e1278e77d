// C31: the FMU wrapper with an FMU that checks the protocol, used directly and within a hybrid model.
#include "stub/fmilib.h"
#include <map>
#include <string>
#include "adevs/adevs.h"
#include "adevs/solvers/fmi.h"
#include "sx_api.h"
#ifndef P_WHAT
#define P_WHAT 1     // 1 hybrid model, 2 the functions of the wrapper, 3 variables
#endif
#ifndef P_STEPS
#define P_STEPS 2
#endif
#ifndef P_AGAIN
#define P_AGAIN 1
#endif
#ifndef P_EXT
#define P_EXT 1
#endif
typedef adevs::PinValue<int> PV; typedef std::list<PV> Bag; typedef adevs::ModelExchange<int> ME;
static int const NS=NX; static bool setting;
struct Sys : ME { Sys():ME("model.fmu",0.25){} 
  void external_event(double* q,double e,Bag const& x){ ME::external_event(q,e,x); if(setting){ set_variable("real",std::any(1.5)); ME::external_event(q,e,x); sx_assert(F.real==1.5,"a variable that was set keeps its value"); } }
  void output_func(double const* q,bool const*,Bag&){ sx_assert(F.time==q[NS],"output is produced with the FMU at the time of the event"); for(int i=0;i<NS;i++) sx_assert(F.x[i]==q[i],"output is produced with the FMU at the state of the event"); } };
static void derivatives(adevs::ode_system<int>* s,double const* q){ double d[NX+1]; s->der_func(q,d); for(int i=0;i<NS;i++) sx_assert(d[i]==fder(i,q[NS],q),"the derivatives are those of the FMU at the state and time given"); sx_assert(d[NS]==1,"time passes at rate one"); }
static void indicators(adevs::ode_system<int>* s,double const* q){ double z[NZ+1]; s->state_event_func(q,z); for(int i=0;i<NZ;i++) sx_assert(z[i]==find(i,q[NS],q),"the event functions are those of the FMU at the state and time given"); }
struct Solver : adevs::ode_solver<int> { Solver(ME* m):adevs::ode_solver<int>(m){} 
  void go(double* q,double h){ if(h==0&&sx_bool("nothing to do")) return; double m[NX+1]; for(int i=0;i<NS;i++) m[i]=h==0?q[i]:fval("stage"); m[NS]=q[NS]+h/2; derivatives(sys,q); derivatives(sys,m); if(h>0) for(int i=0;i<NS;i++) q[i]=fval("solution"); q[NS]+=h; }
  double integrate(double* q,double lim){ sx_assert(lim>=0,"time events are not in the past"); double h=lim; if(lim>0){ h=sx_dyadic("step",1,6,1); sx_assume(h<=lim); } go(q,h); return h; } void advance(double* q,double h){ go(q,h); } };
struct Loc : adevs::event_locator<int> { Loc(ME* m):adevs::event_locator<int>(m){}
  bool find_events(bool* e,double const* qs,double* qe,adevs::ode_solver<int>*,double& h){ if(NZ==0) return false; indicators(sys,qs); indicators(sys,qe); bool f=h>0&&sx_bool("state event"); for(int i=0;i<NZ;i++) e[i]=f; if(f){ double g=sx_dyadic("at",1,6,1); sx_assume(g<=h); { h=g; for(int i=0;i<NS;i++) qe[i]=fval("solution"); qe[NS]=qs[NS]+g; indicators(sys,qe); } } return f; } };
static bool same(char const* a,char const* b){ while(*a&&*a==*b){ a++; b++; } return *a==*b; }
static void begin(){ F=Fmu(); F.again=P_AGAIN; F.time=0; F.jac=false; F.vars=false; for(int i=0;i<NX;i++){ F.x[i]=fval("initial"); for(int j=0;j<=NX;j++) F.a[i][j]=1+2*i+j; } for(int i=0;i<NZ;i++) for(int j=0;j<=NX;j++) F.zc[i][j]=2+i-j; }
void sx_test(){ begin();
#if P_WHAT==1
  setting=P_EXT==2; F.vars=setting; Sys* s=new Sys(); adevs::Hybrid<int>* h=new adevs::Hybrid<int>(s,new Solver(s),new Loc(s)); adevs::pin_t pin; Bag in,out; in.push_back(PV(pin,1)); sx_assert(F.mode==F_CONT,"simulation begins in continuous time mode"); 
  for(int k=0;k<P_STEPS;k++){ double t=h->ta(); sx_assert(t>=0,"events are not in the past"); int ev=F.events,tr=F.transitions; int w=P_EXT?sx_choice("what",3):0;
    if(w==1){ double e=sx_dyadic("elapsed",0,12,1); sx_assume(e<t); h->delta_ext(e,in); sx_assert(F.events==ev+1&&F.transitions>tr,"input is an event of the FMU"); sx_reach("external"); }
    else { h->output_func(out); if(w==0) h->delta_int(); else { h->delta_conf(in); sx_assert(F.events==ev+1&&F.transitions>tr,"input is an event of the FMU"); sx_reach("confluent"); } if(w==0) sx_assert(F.events==ev+(h->eventHappened()?1:0),"event mode is entered just for events"); }
    double const* q=h->getState(); sx_assert(s->get_time()==q[NS],"the time reported is that of the state"); sx_assert(F.lastTime==q[NS],"the time of the FMU is that of the state"); for(int i=0;i<NS;i++) sx_assert(F.lastX[i]==q[i],"the state is that of the FMU"); 
    sx_assert(F.time==q[NS],"the FMU is left at the time of the last step"); for(int i=0;i<NS;i++) sx_assert(F.x[i]==q[i],"the FMU is left at the state of the last step");
    if(F.pending) sx_assert(h->ta()==0,"an event asked for by the FMU takes place at once"); if(F.nextDefined) sx_assert(h->ta()<=F.next-q[NS],"the next event of the FMU is not passed"); }
  delete h; 
#elif P_WHAT==2
  F.jac=sx_bool("Jacobian"); Sys* s=new Sys(); sx_assert(s->numVars()==NS+1&&s->numEvents()==NZ,"time is an additional state"); double q[NX+1]; s->init(q); for(int i=0;i<NS;i++) sx_assert(q[i]==F.x[i],"the initial state is that of the FMU"); sx_assert(q[NS]==0,"time starts at zero");
  double te=s->time_event_func(q); sx_assert(te==(F.nextDefined?F.next-q[NS]:adevs_inf<double>()),"the time event is that of the FMU"); bool ev[NZ+1]; for(int i=0;i<=NZ;i++) ev[i]=true; Bag in;
  for(int k=0;k<P_STEPS;k++){ double p[NX+1]; for(int i=0;i<NS;i++) p[i]=fval("state"); p[NS]=q[NS]+sx_dyadic("later",0,8,1); switch(sx_choice("call",6)){
    case 0: derivatives(s,p); sx_reach("derivatives"); break; case 1: indicators(s,p); break;
    case 2: { double J[(NX+1)*(NX+1)+1]; for(int i=0;i<=(NX+1)*(NX+1);i++) J[i]=77; bool has=s->get_jacobian(nullptr,nullptr); sx_assert(has==F.jac,"the wrapper has a Jacobian when the FMU does"); if(!has) break; F.jt=-1; s->get_jacobian(p,J); sx_assert(F.jt==p[NS],"the Jacobian is that of the time given"); for(int i=0;i<NS;i++) sx_assert(F.jx[i]==p[i],"the Jacobian is that of the state given"); sx_assert(J[(NX+1)*(NX+1)]==77,"nothing is written behind the Jacobian"); for(int c=0;c<=NS;c++) for(int r=0;r<=NS;r++) sx_assert(J[c*(NS+1)+r]==(c<NS&&r<NS?F.a[r][c]:0),"the Jacobian is that of the system, by columns"); sx_reach("Jacobian"); break; }
    case 3: { s->postTrialStep(q); sx_assert(F.time==q[NS],"the time is set back after a trial step"); for(int i=0;i<NS;i++) sx_assert(F.x[i]==q[i],"the state is set back after a trial step"); break; }
    case 4: { if(F.nextDefined) sx_assume(p[NS]<=F.next); sx_assume(!F.pending&&F.mode==F_CONT); int c=F.completed; bool more=p[NS]>q[NS]; if(!more) break; s->postStep(p); sx_assert(F.completed==c+1,"a step that was taken is completed"); for(int i=0;i<=NS;i++) q[i]=p[i]; sx_assert(s->get_time()==q[NS],"the time reported is that of the step"); sx_assert(F.time==q[NS],"a completed step has its time"); for(int i=0;i<NS;i++) sx_assert(F.x[i]==q[i],"a completed step has its state"); sx_assert(!F.pending||s->time_event_func(q)==0,"an event asked for takes place at once"); sx_reach("completed"); break; }
    default: { if(F.mode==F_CONT) s->postTrialStep(q); int e=F.events; switch(sx_choice("event",3)){ case 0: s->internal_event(q,ev); break; case 1: s->external_event(q,0,in); break; default: s->confluent_event(q,ev,in); } sx_assert(F.mode==F_EVENT&&!F.needed&&F.events>=e,"an event is iterated in event mode"); for(int i=0;i<NS;i++) sx_assert(q[i]==F.x[i],"the state after an event is that of the FMU"); double t=s->time_event_func(q); sx_assert(t==(F.nextDefined?F.next-q[NS]:adevs_inf<double>()),"the time event is that of the FMU"); sx_reach("event"); } } }
  delete s;
#else
  F.vars=true; F.real=fval("real"); F.integer=sx_int("integer",-9,9); F.boolean=sx_bool("boolean"); F.enumeration=sx_int("enumeration",1,9); F.str="text"; Sys* s=new Sys(); double q[NX+1]; s->init(q);
  for(int k=0;k<P_STEPS;k++) switch(sx_choice("variable",5)){ case 0: if(sx_bool("set")){ double v=fval("value"); s->set_variable("real",std::any(v)); sx_assert(F.real==v,"a real variable is set"); } sx_assert(std::any_cast<double>(s->get_variable("real"))==F.real,"a real variable is read"); break;
    case 1: if(sx_bool("set")){ int v=sx_int("value",-9,9); s->set_variable("integer",std::any(v)); sx_assert(F.integer==v,"an integer variable is set"); } sx_assert(std::any_cast<int>(s->get_variable("integer"))==F.integer,"an integer variable is read"); break;
    case 2: if(sx_bool("set")){ int v=sx_bool("value"); s->set_variable("boolean",std::any(v)); sx_assert(F.boolean==v,"a boolean variable is set"); } sx_assert(std::any_cast<int>(s->get_variable("boolean"))==F.boolean,"a boolean variable is read"); break;
    case 3: if(sx_bool("set")){ s->set_variable("enumeration",std::any(7)); sx_assert(F.enumeration==7,"an enumeration variable is set"); } sx_assert(std::any_cast<int>(s->get_variable("enumeration"))==F.enumeration,"an enumeration variable is read"); break;
    default: { if(sx_bool("set")){ s->set_variable("string",std::any(std::string("other text"))); sx_assert(same(F.str,"other text"),"a string variable is set"); } std::any a=s->get_variable("string"); sx_assert(same(std::any_cast<std::string>(a).c_str(),F.str),"a string variable is read"); } }
  delete s;
#endif
  sx_assert(F.live==0,"what was loaded is released"); sx_reach("end"); }
