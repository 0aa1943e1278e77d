// Reference simulation run in lock step with the real Simulator. Models draw a symbolic time advance at every
// transition and symbolic output at every state; every callback is compared with what the reference expects.
#ifndef SIM_H
#define SIM_H
#include "sx_api.h"
#include "adevs/adevs.h"
#include <vector>
#include <memory>
#ifndef P_TT
#define P_TT 0
#endif
#ifndef P_TAMAX
#define P_TAMAX 15
#endif
#ifndef P_TAMIN
#define P_TAMIN 0
#endif
#ifndef P_OUTS
#define P_OUTS 1       // largest number of values in one output
#endif
#ifndef P_INF
#define P_INF 1        // time advances may be infinite
#endif
#if P_TT==0
typedef double TT; static TT draw_t(char const* n,long lo,long hi){ return sx_dyadic(n,lo,hi,2); }
#elif P_TT==1
typedef adevs::sd_time<double> TT; static TT draw_t(char const* n,long lo,long hi){ double r=sx_dyadic(n,lo,hi,2); int k=sx_int("logical",0,2); return TT(r,k); }
#elif P_TT==2
typedef int TT; static TT draw_t(char const* n,long lo,long hi){ return sx_int(n,(int)lo,(int)hi); }
#elif P_TT==3
typedef long TT; static TT draw_t(char const* n,long lo,long hi){ return sx_long(n,lo,hi); }
#elif P_TT==4
typedef float TT; static TT draw_t(char const* n,long lo,long hi){ return sx_dyadicf(n,lo,hi,2); }
#elif P_TT==5
typedef long double TT; static TT draw_t(char const* n,long lo,long hi){ return sx_dyadicl(n,lo,hi,2); }
#elif P_TT==6
typedef adevs::sd_time<int> TT; static TT draw_t(char const* n,long lo,long hi){ int r=sx_int(n,(int)lo,(int)hi); int k=sx_int("logical",0,2); return TT(r,k); }
#elif P_TT==7
typedef adevs::sd_time<long> TT; static TT draw_t(char const* n,long lo,long hi){ long r=sx_long(n,lo,hi); int k=sx_int("logical",0,2); return TT(r,k); }
#else
typedef adevs::double_fcmp TT; double adevs::double_fcmp::epsilon=0.0; static TT draw_t(char const* n,long lo,long hi){ return TT(sx_dyadic(n,lo,hi,2)); }
#endif
#if P_TT==1||P_TT==6||P_TT==7
static TT const ONE(1,0);
#else
static TT const ONE(1);
#endif
static TT const INF=adevs_inf<TT>(), EPS=adevs_epsilon<TT>(), ZERO=adevs_zero<TT>();
struct Val { int id; int v; Val():id(-1),v(0){} Val(int i,int x):id(i),v(x){} };
typedef adevs::PinValue<Val> PV; typedef adevs::Atomic<Val,TT> A; typedef adevs::MealyAtomic<Val,TT> MA; typedef adevs::Graph<Val,TT> G; typedef adevs::Simulator<Val,TT> S; typedef adevs::pin_t pin_t; typedef std::shared_ptr<A> Sp;
enum Kind { INT, EXT, CONF };
struct In { int pin; int id; int v; };       // value as received: pin number, identity, value
typedef std::vector<In> Ins;
struct Out { Kind k; std::vector<int> key; Ins y; };   // output chosen for one input set
struct Lab; static Lab* lab;
struct Core {
  int i=-1; A* self=nullptr; bool mealy=false, in=false; int outPin=-1, outPin2=-1;
  TT tL=ZERO, ta_=ZERO, tN=ZERO; bool passive=false; int cnt=0;
  std::vector<Out> memo; int calls=0, last=-1; // of the current output computation
  bool im=false; Ins expect; int trans=0;      // of the current cycle
  void (*hook)(Core*)=nullptr; int fire=-1; int events=0;
  bool imm(); void draw(TT from); void output(Kind k,TT const* e,std::list<PV> const* xb,std::list<PV>& yb); void transition(Kind k,TT const* e,std::list<PV> const* xb);
};
struct Mdl : A { Core c; ~Mdl(); TT ta(){ return c.ta_; } void delta_int(){ c.transition(INT,nullptr,nullptr); } void delta_ext(TT e,std::list<PV> const& xb){ c.transition(EXT,&e,&xb); } void delta_conf(std::list<PV> const& xb){ c.transition(CONF,nullptr,&xb); } void output_func(std::list<PV>& yb){ c.output(INT,nullptr,nullptr,yb); } };
struct MMdl : MA { Core c; ~MMdl(); TT ta(){ return c.ta_; } void delta_int(){ c.transition(INT,nullptr,nullptr); } void delta_ext(TT e,std::list<PV> const& xb){ c.transition(EXT,&e,&xb); } void delta_conf(std::list<PV> const& xb){ c.transition(CONF,nullptr,&xb); } void output_func(std::list<PV>& yb){ c.output(INT,nullptr,nullptr,yb); }
  void external_output_func(TT e,std::list<PV> const& xb,std::list<PV>& yb){ c.output(EXT,&e,&xb,yb); } void confluent_output_func(std::list<PV> const& xb,std::list<PV>& yb){ c.output(CONF,nullptr,&xb,yb); } };
static bool take(Ins& l,In const& x){ for(size_t i=0;i<l.size();i++) if(l[i].pin==x.pin&&l[i].id==x.id){ bool same=l[i].v==x.v; l.erase(l.begin()+i); return same; } return false; }
static bool sameIns(Ins a,Ins const& b){ if(a.size()!=b.size()) return false; for(auto&x:b) if(!take(a,x)) return false; return true; }
struct Listener;
struct Lab {
  std::vector<Core*> m; std::vector<Sp> sp; std::vector<pin_t> pins; struct E { int s,d,n; }; struct Change { int op,p,q,m; }; std::vector<Change> pend; std::vector<E> pp,pm; Ins injected; std::vector<std::shared_ptr<Listener>> ls;
  TT T=ZERO; bool computing=false, finished=false; int ids=0, transitions=0; Core* lastTrans=nullptr; bool quiet=false; int alive=0;
  Lab(){ lab=this; }
  int addPin(){ pins.push_back(pin_t()); return (int)pins.size()-1; }
  int pinNo(pin_t const& p){ for(size_t i=0;i<pins.size();i++) if(pins[i]==p) return (int)i; return -1; }
  int add(bool mealy=false){ int i=(int)m.size(); if(mealy){ auto p=std::make_shared<MMdl>(); m.push_back(&p->c); sp.push_back(p); p->c.self=p.get(); } else { auto p=std::make_shared<Mdl>(); m.push_back(&p->c); sp.push_back(p); p->c.self=p.get(); }
    m[i]->i=i; m[i]->mealy=mealy; m[i]->outPin=addPin(); m[i]->in=true; m[i]->cnt=1; alive++; return i; }
  // models created in ascending addresses take the roles in any order
  void permute(){ int n=(int)m.size(); for(int k=0;k+1<n;k++){ int j=k+sx_choice("order",n-k); if(j!=k&&m[j]->mealy==m[k]->mealy){ std::swap(m[j],m[k]); std::swap(sp[j],sp[k]); std::swap(m[j]->outPin,m[k]->outPin); } else sx_assume(j==k); } for(int k=0;k<n;k++) m[k]->i=k; }
  static E* find(std::vector<E>& v,int s,int d){ for(auto&e:v) if(e.n>0&&e.s==s&&e.d==d) return &e; return nullptr; }
  static void inc(std::vector<E>& v,int s,int d){ if(E*e=find(v,s,d)) e->n++; else v.push_back(E{s,d,1}); } static void dec(std::vector<E>& v,int s,int d){ if(E*e=find(v,s,d)) e->n--; }
  void couple(int p,int q){ inc(pp,p,q); } void feed(int p,int j){ inc(pm,p,j); }
  // structure changes: 0 add model, 1 remove model, 2 connect pins, 3 disconnect pins, 4 connect model, 5 disconnect model, 6 remove pin
  void apply(Change c){ switch(c.op){ case 0: { Core* k=m[c.m]; if(k->cnt++==0){ k->in=true; k->tL=T+EPS; if(!k->passive) k->tN=k->tL+k->ta_; k->memo.clear(); } break; } case 1: if(m[c.m]->cnt>0&&--m[c.m]->cnt==0){ m[c.m]->in=false; for(auto&e:pm) if(e.d==c.m) e.n=0; } break;
    case 2: inc(pp,c.p,c.q); break; case 3: dec(pp,c.p,c.q); break; case 4: inc(pm,c.p,c.m); break; case 5: dec(pm,c.p,c.m); break; default: for(auto&e:pp) if(e.n>0&&(e.s==c.p||e.d==c.p)) e.n--; for(auto&e:pm) if(e.n>0&&e.s==c.p) e.n--; } }
  template<class GG> void perform(GG& g,Change c){ switch(c.op){ case 0: g.add_atomic(sp[c.m]); break; case 1: g.remove_atomic(sp[c.m]); break; case 2: g.connect(pins[c.p],pins[c.q]); break; case 3: g.disconnect(pins[c.p],pins[c.q]); break; case 4: g.connect(pins[c.p],sp[c.m]); break; case 5: g.disconnect(pins[c.p],sp[c.m]); break; default: g.remove_pin(pins[c.p]); } }
  template<class GG> void change(GG& g,Change c){ perform(g,c); pend.push_back(c); }
  template<class GG> void wire(GG& g){ for(auto c:m) for(int i=0;i<c->cnt;i++) g.add_atomic(sp[c->i]); for(auto&e:pp) for(int i=0;i<e.n;i++) g.connect(pins[e.s],pins[e.d]); for(auto&e:pm) for(int i=0;i<e.n;i++) g.connect(pins[e.s],sp[e.d]); }
  void routeTo(int p,In v,std::vector<Ins>& to,int depth=0){ for(auto&e:pm) if(e.n>0&&e.s==p) to[e.d].push_back(In{p,v.id,v.v}); if(depth<6) for(auto&e:pp) if(e.n>0&&e.s==p) routeTo(e.d,v,to,depth+1); }
  void start(){ for(auto c:m) if(c->in) c->draw(ZERO); }
  bool next(TT& t){ bool any=false; for(auto c:m) if(c->in&&!c->passive){ if(!any||c->tN<t) t=c->tN; any=true; } return any; }
  bool checkNext(S& s){ TT t=INF; if(next(t)){ sx_assert(s.nextEventTime()==t,"next event time is the least time of next event"); return true; } sx_assert(s.nextEventTime()==INF,"next event time is infinite when every model is passive"); return false; }
  void begin(TT t){ T=t; computing=true; finished=false; for(auto c:m){ c->calls=0; c->last=-1; c->expect.clear(); c->trans=0; c->im=false; } transitions=0; lastTrans=nullptr; clearListeners(); }
  void clearListeners(); void outputsDone(Ins const&,std::vector<int> const&); void checkInputs(Core*); void checkChanged(); void checkNothing();
  static std::vector<int> keyOf(Ins const& x){ std::vector<int> k; for(auto&a:x) k.push_back(a.id*64+a.pin); for(size_t i=1;i<k.size();i++) for(size_t j=i;j>0&&k[j]<k[j-1];j--) std::swap(k[j],k[j-1]); return k; }
  bool feeds(Core* b,Core* c){ if(b->fire==0) return false; std::vector<Ins> to(m.size()); routeTo(b->outPin,In{0,0,0},to); if(b->outPin2>=0) routeTo(b->outPin2,In{0,0,0},to); return !to[c->i].empty(); }
  // all output has been computed: who receives what
  void finish(){ if(finished) return; finished=true; computing=false; int n=(int)m.size(); std::vector<Ins> to(n); Ins ys; std::vector<int> who;
    for(auto&x:injected) routeTo(x.pin,x,to);
    auto emit=[&](Core* c){ for(auto&y:c->memo[c->last].y){ routeTo(y.pin,y,to); ys.push_back(y); who.push_back(c->i); } };
    for(auto c:m) if(c->in&&!c->mealy){ c->im=c->imm(); if(c->im){ sx_assert(c->calls==1,"every imminent model is asked for output exactly once"); emit(c); } else sx_assert(c->calls==0,"a model that is not imminent is not asked for output"); }
    std::vector<char> d(n,0), pot(n,0); // Mealy models that may take part, each after those that may send to it
    for(int r=0;r<=n;r++) for(auto c:m) if(c->in&&c->mealy&&!pot[c->i]){ if(c->imm()||!to[c->i].empty()) pot[c->i]=1; else for(auto b:m) if(b->mealy&&b->in&&pot[b->i]&&feeds(b,c)) pot[c->i]=1; }
    for(int round=0;round<n;round++) for(auto c:m) if(c->in&&c->mealy&&!d[c->i]){ bool ready=true; for(auto b:m) if(b!=c&&b->mealy&&b->in&&pot[b->i]&&!d[b->i]&&feeds(b,c)) ready=false; if(!ready) continue; d[c->i]=1;
      c->im=c->imm(); bool x=!to[c->i].empty(); if(!c->im&&!x) continue; Kind k=c->im?(x?CONF:INT):EXT; std::vector<int> key=keyOf(to[c->i]);
      sx_assert(c->calls>0&&c->last>=0,"a Mealy model that is imminent or has input is asked for output"); Out& o=c->memo[c->last]; sx_assert(o.k==k&&o.key==key,"the final output of a Mealy model is computed from its complete input"); emit(c); }
    for(auto c:m) if(c->in) c->expect=to[c->i]; injected.clear(); outputsDone(ys,who); }
  void end(){ finish(); for(auto c:m){ bool should=c->in&&(c->im||!c->expect.empty()); sx_assert(c->trans==(should?1:0),"a model changes state exactly once when it is imminent or has input and not otherwise"); } checkChanged(); checkNothing(); applyAll(); }
  void applyAll(){ for(auto&c:pend) apply(c); pend.clear(); }
  int inject(S& s,int pin){ In x{pin,ids++,sx_int("injected",-1000,1000)}; PV p(pins[pin],Val(x.id,x.v)); s.injectInput(p); injected.push_back(x); return x.id; }
  void after(S& s,TT r){ sx_assert(r==T+EPS,"the time of the event is returned"); }
  void step(S& s,bool two=false){ if(two){ s.computeNextOutput(); finish(); for(auto c:m) sx_assert(c->trans==0,"computing output changes no state"); TT r=s.computeNextState(); end(); after(s,r); } else { TT r=s.execNextEvent(); end(); after(s,r); } }
};
inline Mdl::~Mdl(){ if(lab) { sx_assert(!c.in,"a model is destroyed while it is part of the simulation"); lab->alive--; } } inline MMdl::~MMdl(){ if(lab){ sx_assert(!c.in,"a model is destroyed while it is part of the simulation"); lab->alive--; } }
struct Listener : adevs::EventListener<Val,TT> {
  Ins outs; std::vector<int> who; Ins ins; Core* inFor=nullptr; int changes=0; Core* changed=nullptr; int total=0;
  Core* core(A& a){ for(auto c:lab->m) if(c->self==&a) return c; sx_assert(false,"a listener is given an unknown model"); return nullptr; }
  void outputEvent(A& a,PV& x,TT t){ Core*c=core(a); sx_assert(t==lab->T,"output is reported with the time of the event"); sx_assert(!lab->finished,"output is reported before the state changes"); outs.push_back(In{lab->pinNo(x.pin),x.value.id,x.value.v}); who.push_back(c->i); total++; }
  void inputEvent(A& a,PV& x,TT t){ Core*c=core(a); lab->finish(); sx_assert(t==lab->T,"input is reported with the time of the event"); sx_assert(inFor==nullptr||inFor==c,"input is reported just before the transition of its receiver"); inFor=c; ins.push_back(In{lab->pinNo(x.pin),x.value.id,x.value.v}); }
  void stateChange(A& a,TT t){ Core*c=core(a); sx_assert(t==lab->T,"a state change is reported with the time of the event"); sx_assert(lab->lastTrans==c&&changed==nullptr,"a state change is reported once, just after the transition"); changed=c; changes++; }
};
inline void Lab::clearListeners(){ for(auto&l:ls){ l->outs.clear(); l->who.clear(); l->ins.clear(); l->inFor=nullptr; l->changes=0; l->changed=nullptr; } }
inline void Lab::outputsDone(Ins const& ys,std::vector<int> const& who){ for(auto&l:ls){ sx_assert(sameIns(l->outs,ys),"every listener is told every output value exactly once"); for(size_t a=0;a<ys.size();a++) for(size_t b=0;b<l->outs.size();b++) if(ys[a].id==l->outs[b].id) sx_assert(who[a]==l->who[b],"output is reported with the model that produced it"); } }
inline void Lab::checkInputs(Core* c){ for(auto&l:ls){ sx_assert(sameIns(l->ins,c->expect)&&(c->expect.empty()||l->inFor==c),"every listener is told every input value exactly once before the transition"); l->ins.clear(); l->inFor=nullptr; } }
inline void Lab::checkChanged(){ for(auto&l:ls){ sx_assert(l->changed==lastTrans&&l->changes==transitions,"every listener is told every state change exactly once"); } }
inline void Lab::checkNothing(){ for(auto&l:ls) sx_assert(l->ins.empty(),"input is reported only with the transition of its receiver"); }
inline bool Core::imm(){ return in&&!passive&&tN==lab->T; }
inline void Core::draw(TT from){ if(lab->quiet){ tL=from; passive=false; ta_=draw_t("ta",1,1); tN=tL+ta_; memo.clear(); return; } tL=from; passive=P_INF&&sx_bool("passive"); if(passive){ ta_=INF; tN=INF; } else { ta_=draw_t("ta",P_TAMIN,P_TAMAX); tN=tL+ta_; } memo.clear(); }
inline void Core::output(Kind k,TT const* e,std::list<PV> const* xb,std::list<PV>& yb){
  sx_assert(lab->computing,"output is computed before any state changes"); sx_assert(yb.empty(),"the output list is empty at first"); sx_assert(in,"a model that is not in the simulation is asked for output");
  bool im=imm(); sx_assert(k==EXT?!im:im,"the output function matches the model being imminent or not"); if(e) sx_assert(*e==lab->T-tL,"elapsed time given to an output function");
  std::vector<int> key; if(xb){ Ins x; for(auto&a:*xb) x.push_back(In{lab->pinNo(a.pin),a.value.id,a.value.v}); key=Lab::keyOf(x); sx_assert(!key.empty(),"there is input when an output function takes input"); }
  calls++; last=-1; for(size_t o=0;o<memo.size();o++) if(memo[o].k==k&&memo[o].key==key) last=(int)o;
  if(last<0){ Out o; o.k=k; o.key=key; int n=fire>=0?fire:sx_choice("outputs",P_OUTS+1); for(int j=0;j<n;j++){ int p=outPin; if(outPin2>=0&&sx_bool("second pin")) p=outPin2; int v=sx_int("value",-1000,1000); o.y.push_back(In{p,lab->ids++,v}); } memo.push_back(o); last=(int)memo.size()-1; }
  for(auto&y:memo[last].y) yb.push_back(PV(lab->pins[y.pin],Val(y.id,y.v))); }
inline void Core::transition(Kind k,TT const* e,std::list<PV> const* xb){
  lab->finish(); sx_assert(in,"a model that is not in the simulation changes state"); trans++; lab->checkChanged(); for(auto&l:lab->ls) l->changed=nullptr;
  sx_assert(trans==1,"a model changes state once in a cycle");
  Kind want=im?(expect.empty()?INT:CONF):EXT; sx_assert(im||!expect.empty(),"a model that is not imminent and has no input changes state"); sx_assert(k==want,"the right kind of transition");
  if(k==EXT) sx_assert(*e==lab->T-tL,"elapsed time given to the external transition");
  if(xb){ Ins x; for(auto&a:*xb) x.push_back(In{lab->pinNo(a.pin),a.value.id,a.value.v}); sx_assert(sameIns(x,expect),"the model receives exactly the values sent to it"); }
  lab->checkInputs(this); lab->transitions++; lab->lastTrans=this; events++;
  static char const* L[]={"internal","external","confluent"}; sx_reach(L[k]);
  draw(lab->T+EPS); if(hook) hook(this); }
#endif
