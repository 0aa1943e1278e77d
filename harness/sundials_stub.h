// Stand-in for the parts of SUNDIALS that trap.h and cvode.h use (linear algebra containers; the nonlinear solver is the harness' business).
#ifndef SUNDIALS_STUB_H
#define SUNDIALS_STUB_H
#include <nvector/nvector_serial.h>
#include <sunlinsol/sunlinsol_dense.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sundials/sundials_types.h>
#include "sx_api.h"
struct StubVec { sunindextype n; double* d; };
static int stub_live;      // objects made and not destroyed
static N_Vector stub_vec(sunindextype n,SUNContext c){ N_Vector v=new _generic_N_Vector(); StubVec* s=new StubVec(); s->n=n; s->d=new double[n](); v->content=s; v->ops=nullptr; v->sunctx=c; stub_live++; return v; }
#ifdef STUB_KINSOL
#include <kinsol/kinsol.h>
struct StubKin { KINSysFn f; void* user; KINLsJacFn jac; SUNMatrix J; StubKin():f(nullptr),user(nullptr),jac(nullptr),J(nullptr){} };
static int stub_solve(StubKin* k,N_Vector u);
#endif
extern "C" {
N_Vector N_VNew_Serial(sunindextype n,SUNContext c){ sx_assert(c!=nullptr,"a vector is made within a context"); return stub_vec(n,c); }
N_Vector N_VClone(N_Vector w){ return stub_vec(((StubVec*)w->content)->n,w->sunctx); }
void N_VConst(sunrealtype c,N_Vector v){ StubVec* s=(StubVec*)v->content; for(sunindextype i=0;i<s->n;i++) s->d[i]=c; }
sunrealtype* N_VGetArrayPointer(N_Vector v){ return ((StubVec*)v->content)->d; }
void N_VDestroy(N_Vector v){ if(!v) return; StubVec* s=(StubVec*)v->content; delete[] s->d; delete s; delete v; stub_live--; }
SUNMatrix SUNDenseMatrix(sunindextype m,sunindextype n,SUNContext c){ SUNMatrix A=new _generic_SUNMatrix(); StubVec* s=new StubVec(); s->n=m*n; s->d=new double[m*n](); A->content=s; A->ops=nullptr; A->sunctx=c; stub_live++; return A; }
sunrealtype* SUNDenseMatrix_Data(SUNMatrix A){ return ((StubVec*)A->content)->d; }
void SUNMatDestroy(SUNMatrix A){ StubVec* s=(StubVec*)A->content; delete[] s->d; delete s; delete A; stub_live--; }
SUNLinearSolver SUNLinSol_Dense(N_Vector,SUNMatrix,SUNContext){ stub_live++; return new _generic_SUNLinearSolver(); }
int SUNLinSolFree(SUNLinearSolver S){ delete S; stub_live--; return 0; }
int SUNContext_Create(void*,SUNContext* c){ *c=(SUNContext)new int(1); stub_live++; return 0; }
int SUNContext_Free(SUNContext* c){ if(c&&*c){ delete (int*)*c; *c=nullptr; stub_live--; } return 0; }
#ifdef STUB_KINSOL
void* KINCreate(SUNContext c){ sx_assert(c!=nullptr,"the solver is made within a context"); stub_live++; return new StubKin(); }
int KINInit(void* m,KINSysFn f,N_Vector){ ((StubKin*)m)->f=f; return 0; }
int KINSetUserData(void* m,void* d){ ((StubKin*)m)->user=d; return 0; }
int KINSetLinearSolver(void* m,SUNLinearSolver,SUNMatrix J){ ((StubKin*)m)->J=J; return 0; }
int KINSetJacFn(void* m,KINLsJacFn j){ ((StubKin*)m)->jac=j; return 0; }
int KINSetErrHandlerFn(void*,KINErrHandlerFn,void*){ return 0; }
int KINSetInfoHandlerFn(void*,KINInfoHandlerFn,void*){ return 0; }
int KINSol(void* m,N_Vector u,int,N_Vector,N_Vector){ return stub_solve((StubKin*)m,u); }
void KINFree(void** m){ delete (StubKin*)*m; *m=nullptr; stub_live--; }
#endif
}
#endif
