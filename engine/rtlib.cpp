// The parts of libstdc++.so that container templates call, in source form, so that they are executed symbolically too
// (list node hooks, red-black tree rebalancing).  Semantically those of libstdc++.
#include <list>
#include <map>
#include <string>
template class std::__cxx11::basic_string<char>;
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n=_M_next; _List_node_base* p=_M_prev; p->_M_next=n; n->_M_prev=p; }
void _List_node_base::_M_transfer(_List_node_base* const first,_List_node_base* const last) noexcept {
  if(this!=last){ last->_M_prev->_M_next=this; first->_M_prev->_M_next=last; this->_M_prev->_M_next=first;
    _List_node_base* t=this->_M_prev; this->_M_prev=last->_M_prev; last->_M_prev=first->_M_prev; first->_M_prev=t; } }
void _List_node_base::swap(_List_node_base& x,_List_node_base& y) noexcept {
  if(x._M_next!=&x){ if(y._M_next!=&y){ _List_node_base* t=x._M_next; x._M_next=y._M_next; y._M_next=t; t=x._M_prev; x._M_prev=y._M_prev; y._M_prev=t; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; }
    else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } }
  else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t=this; do { _List_node_base* n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=n; } while(t!=this); }
}
typedef _Rb_tree_node_base* Base;
static Base inc(Base x){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { Base y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
static Base dec(Base x){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ Base y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { Base y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<Base>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<Base>(x)); }
static void rotl(Base x,Base& root){ Base y=x->_M_right; x->_M_right=y->_M_left; if(y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
static void rotr(Base x,Base& root){ Base y=x->_M_left; x->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base* x,_Rb_tree_node_base* p,_Rb_tree_node_base& h) throw() {
  Base& root=h._M_parent; x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; }
  else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
  while(x!=root&&x->_M_parent->_M_color==_S_red){ Base const xpp=x->_M_parent->_M_parent;
    if(x->_M_parent==xpp->_M_left){ Base const y=xpp->_M_right;
      if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; }
      else { if(x==x->_M_parent->_M_right){ x=x->_M_parent; rotl(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotr(xpp,root); } }
    else { Base const y=xpp->_M_left;
      if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; }
      else { if(x==x->_M_parent->_M_left){ x=x->_M_parent; rotr(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotl(xpp,root); } } }
  root->_M_color=_S_black; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,_Rb_tree_node_base& h) throw() {
  Base& root=h._M_parent; Base& leftmost=h._M_left; Base& rightmost=h._M_right; Base y=z; Base x=0; Base xp=0;
  if(y->_M_left==0) x=y->_M_right; else if(y->_M_right==0) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left;
    if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y;
    if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y;
    y->_M_parent=z->_M_parent; _Rb_tree_color c=y->_M_color; y->_M_color=z->_M_color; z->_M_color=c; y=z; }
  else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x;
    if(leftmost==z){ if(z->_M_right==0) leftmost=z->_M_parent; else { Base m=x; while(m->_M_left) m=m->_M_left; leftmost=m; } }
    if(rightmost==z){ if(z->_M_left==0) rightmost=z->_M_parent; else { Base m=x; while(m->_M_right) m=m->_M_right; rightmost=m; } } }
  if(y->_M_color!=_S_red){
    while(x!=root&&(x==0||x->_M_color==_S_black))
      if(x==xp->_M_left){ Base w=xp->_M_right; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotl(xp,root); w=xp->_M_right; }
        if((w->_M_left==0||w->_M_left->_M_color==_S_black)&&(w->_M_right==0||w->_M_right->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
        else { if(w->_M_right==0||w->_M_right->_M_color==_S_black){ w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotr(w,root); w=xp->_M_right; }
          w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_right) w->_M_right->_M_color=_S_black; rotl(xp,root); break; } }
      else { Base w=xp->_M_left; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotr(xp,root); w=xp->_M_left; }
        if((w->_M_right==0||w->_M_right->_M_color==_S_black)&&(w->_M_left==0||w->_M_left->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
        else { if(w->_M_left==0||w->_M_left->_M_color==_S_black){ w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotl(w,root); w=xp->_M_left; }
          w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_left) w->_M_left->_M_color=_S_black; rotr(xp,root); break; } }
    if(x) x->_M_color=_S_black; }
  return y; }
}
extern "C" char __libc_single_threaded=0; // use the atomic reference counts

// Standard exceptions (the members that live in libstdc++.so).
#include <stdexcept>
#include <new>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cstdarg>
namespace std {
static const char* keep_msg(const char* s,size_t n){ char* p=(char*)malloc(n+1); if(n) memcpy(p,s,n); p[n]=0; return p; }
__cow_string::__cow_string():_M_p(keep_msg("",0)) {}
__cow_string::__cow_string(const std::string& s):_M_p(keep_msg(s.c_str(),s.size())) {}
__cow_string::__cow_string(const char* s,size_t n):_M_p(keep_msg(s,n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept :_M_p(keep_msg(o._M_p,strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { const char* q=keep_msg(o._M_p,strlen(o._M_p)); free((void*)_M_p); _M_p=q; return *this; }
__cow_string::~__cow_string(){ free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept :_M_p(keep_msg(o._M_p,strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this=(const __cow_string&)o; }
#define BASE_EXC(E) E::E(const string& s):_M_msg(s){} E::E(const char* s):_M_msg(s,strlen(s)){} E::E(E&& o) noexcept :_M_msg(o._M_msg){} E& E::operator=(E&& o) noexcept { _M_msg=o._M_msg; return *this; } \
 E::E(const E& o) noexcept :_M_msg(o._M_msg){} E& E::operator=(const E& o) noexcept { _M_msg=o._M_msg; return *this; } E::~E() noexcept {} const char* E::what() const noexcept { return _M_msg._M_p; }
BASE_EXC(logic_error) BASE_EXC(runtime_error)
#define DER_EXC(E,B) E::E(const string& s):B(s){} E::E(const char* s):B(s){} E::~E() noexcept {}
DER_EXC(domain_error,logic_error) DER_EXC(invalid_argument,logic_error) DER_EXC(length_error,logic_error) DER_EXC(out_of_range,logic_error)
DER_EXC(range_error,runtime_error) DER_EXC(overflow_error,runtime_error) DER_EXC(underflow_error,runtime_error)
void __throw_logic_error(const char* s){ throw logic_error(s); }
void __throw_domain_error(const char* s){ throw domain_error(s); }
void __throw_invalid_argument(const char* s){ throw invalid_argument(s); }
void __throw_length_error(const char* s){ throw length_error(s); }
void __throw_out_of_range(const char* s){ throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s,...){ throw out_of_range(s); }
void __throw_runtime_error(const char* s){ throw runtime_error(s); }
void __throw_range_error(const char* s){ throw range_error(s); }
void __throw_overflow_error(const char* s){ throw overflow_error(s); }
void __throw_underflow_error(const char* s){ throw underflow_error(s); }
}
