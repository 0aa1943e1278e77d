// C09: negative, zero and infinite time advances
#include "sim.h"
#ifndef P_CYC
#define P_CYC 2
#endif
#ifndef P_HOW
#define P_HOW 0     // 0 graph, 1 single model, 2 coupled model, 3 a model is added at run time
#endif
#ifndef P_MEALY
#define P_MEALY 0
#endif
#ifndef P_INJ
#define P_INJ 0
#endif
#ifndef P_TINY
#define P_TINY 0    // the first transition is followed by a negative time advance that is tiny
#endif
static Lab* L; static G* gr; static int x=-1;
static bool neg(Core* c){ return c->in&&!c->passive&&c->ta_<ZERO; }
static bool anyNeg(){ for(auto c:L->m) if(neg(c)) return true; return false; }
static void named(adevs::exception& e){ Core* w=nullptr; for(auto c:L->m) if((void*)c->self==e.who()) w=c; sx_assert(w!=nullptr,"the exception names a model"); sx_assert(neg(w)||(w->i==x&&w->ta_<ZERO&&!w->passive),"the exception names the model with the negative time advance"); sx_reach("rejected"); }
static void hook(Core* c){
#if P_TINY
  if(!c->passive&&sx_bool("tiny")){ c->ta_=TT(-1e-20); c->tN=c->tL+c->ta_; sx_reach("tiny"); }
#endif
  if(x>=0&&!L->m[x]->in&&L->pend.empty()){ L->change(*gr,Lab::Change{0,0,0,x}); sx_reach("added"); } }
static bool makesNeg(){ return x>=0&&!L->pend.empty()&&!L->m[x]->passive&&L->m[x]->ta_<ZERO; }
void sx_test(){
  Lab lab_; L=&lab_; for(int i=0;i<P_NM;i++){ L->add((P_MEALY>>i)&1); L->m[i]->hook=hook; }
  if(P_HOW==3){ x=P_NM-1; L->m[x]->in=false; L->m[x]->cnt=0; }
  if(P_NM>1&&P_HOW!=3) L->feed(L->m[0]->outPin,1); int in=L->addPin(); L->feed(in,0);
  for(auto c:L->m) c->draw(ZERO);
#if P_TINY   // time advances that are not small at first
  for(auto c:L->m) if(!c->passive){ sx_assume(c->ta_>=1); }
#endif
  std::shared_ptr<G> g=std::make_shared<G>(); gr=g.get(); S* s=nullptr; std::shared_ptr<adevs::Coupled<Val,TT>> cp;
  try {
#if P_HOW==1
    s=new S(L->sp[0]);
#elif P_HOW==2
    cp=std::make_shared<adevs::Coupled<Val,TT>>(); for(auto c:L->m) cp->add_atomic(L->sp[c->i]); if(P_NM>1) cp->create_coupling(L->pins[L->m[0]->outPin],L->sp[1]); cp->create_coupling(L->pins[in],L->sp[0]); s=new S(cp);
#else
    L->wire(*g); s=new S(g);
#endif
    sx_assert(!anyNeg(),"a negative time advance is rejected when the simulator is made"); sx_reach("made");
  } catch(adevs::exception& e){ sx_assert(anyNeg(),"no exception without a negative time advance"); named(e); s=nullptr; }
  TT before=ZERO;
  if(s){ bool any=L->checkNext(*s);
    for(int c=0;c<P_CYC&&any;c++){ 
#if P_INJ
      if(sx_bool("early")){ TT t=before+draw_t("offset",0,P_TAMAX); sx_assume(t<=s->nextEventTime()); s->setNextTime(t); L->inject(*s,in); }
#endif
      L->begin(s->nextEventTime()); sx_assert(!(L->T<before),"time does not run backward");
      try { TT r=s->execNextEvent(); sx_assert(!makesNeg(),"a negative time advance of a new model is rejected"); L->end(); L->after(*s,r); sx_assert(!anyNeg(),"a negative time advance is rejected after a transition"); }
      catch(adevs::exception& e){ sx_assert(anyNeg()||makesNeg(),"no exception without a negative time advance"); named(e); break; }
      before=L->T+EPS; any=L->checkNext(*s); if(c==P_CYC-1) sx_reach("all cycles"); if(!any) sx_reach("passive"); } }
  for(auto c:L->m) c->in=false; L->ls.clear(); delete s; lab=nullptr;
}
