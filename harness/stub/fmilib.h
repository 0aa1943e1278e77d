// Stand-in for the FMI Library with an FMU that checks the calls it receives against the state machine of FMI 2.0 for model exchange.
#ifndef STUB_FMILIB_H
#define STUB_FMILIB_H
#include <cstddef>
#include <cstdlib>
#include "sx_api.h"
typedef unsigned int fmi2_value_reference_t; typedef double fmi2_real_t; typedef int fmi2_integer_t; typedef int fmi2_boolean_t; typedef char const* fmi2_string_t; typedef char fmi2_char_t;
typedef enum { fmi2_status_ok, fmi2_status_warning, fmi2_status_discard, fmi2_status_error, fmi2_status_fatal, fmi2_status_pending } fmi2_status_t;
typedef enum { jm_status_error=-1, jm_status_success=0, jm_status_warning=1 } jm_status_enu_t;
typedef enum { jm_log_level_nothing, jm_log_level_fatal, jm_log_level_error } jm_log_level_enu_t;
typedef enum { fmi_version_unknown_enu, fmi_version_1_enu, fmi_version_2_0_enu } fmi_version_enu_t;
typedef enum { fmi2_fmu_kind_unknown, fmi2_fmu_kind_me, fmi2_fmu_kind_cs, fmi2_fmu_kind_me_and_cs } fmi2_fmu_kind_enu_t;
typedef enum { fmi2_model_exchange, fmi2_cosimulation } fmi2_type_t;
typedef enum { fmi2_base_type_real, fmi2_base_type_int, fmi2_base_type_bool, fmi2_base_type_str, fmi2_base_type_enum } fmi2_base_type_enu_t;
typedef enum { fmi2_me_needsExecutionTool, fmi2_me_providesDirectionalDerivatives } fmi2_capabilities_enu_t;
typedef struct { fmi2_boolean_t newDiscreteStatesNeeded, terminateSimulation, nominalsOfContinuousStatesChanged, valuesOfContinuousStatesChanged, nextEventTimeDefined; fmi2_real_t nextEventTime; } fmi2_event_info_t;
struct jm_callbacks; typedef void (*jm_logger_f)(jm_callbacks*,char const*,jm_log_level_enu_t,char const*);
struct jm_callbacks { void* (*malloc)(size_t); void* (*calloc)(size_t,size_t); void* (*realloc)(void*,size_t); void (*free)(void*); jm_logger_f logger; jm_log_level_enu_t log_level; void* context; };
static void jm_default_logger(jm_callbacks*,char const*,jm_log_level_enu_t,char const*){}
struct fmi_import_context_t { int x; }; struct fmi2_import_t { int x; }; struct fmi2_import_variable_list_t { int x; }; struct fmi2_import_variable_t { int i; };
#ifndef P_NX
#define P_NX 2
#endif
#ifndef P_NZ
#define P_NZ 1
#endif
enum FMode { F_LOADED, F_INSTANTIATED, F_INIT, F_EVENT, F_CONT, F_TERMINATED, F_FREED };
struct Fmu { FMode mode; bool set_up, needed, pending, nextDefined, jac, vars; double time, x[P_NX+1], next, lastTime, lastX[P_NX+1], pendTime; int again, events, completed, iterations, live, transitions; double a[P_NX+1][P_NX+1], zc[P_NZ+1][P_NX+1]; double real; int integer, boolean, enumeration; char const* str; char buf[32]; double t0; double jt, jx[P_NX+1]; };
static Fmu F; static fmi2_import_t theFmu; static fmi_import_context_t theContext; static fmi2_import_variable_list_t theList; static fmi2_import_variable_t theVars[5]={{0},{1},{2},{3},{4}};
static int const NX=P_NX, NZ=P_NZ;
static double fval(char const* n){ return sx_dyadic(n,-8,8,1); }
static double fder(int i,double t,double const* x){ double s=F.a[i][NX]*t; for(int j=0;j<NX;j++) s+=F.a[i][j]*x[j]; return s; }
static double find(int i,double t,double const* x){ double s=F.zc[i][NX]*t; for(int j=0;j<NX;j++) s+=F.zc[i][j]*x[j]; return s; }
static void running(){ sx_assert(F.mode==F_EVENT||F.mode==F_CONT,"the FMU is used while it is running"); }
// where event mode may be entered: the last accepted step or the end of the last event
static void mark(){ F.lastTime=F.time; for(int i=0;i<NX;i++) F.lastX[i]=F.x[i]; }
static char* fmi_import_mk_temp_dir(jm_callbacks*,char const* d,char const*){ char* p=(char*)malloc(5); p[0]='/'; p[1]=0; return p; }
static fmi_import_context_t* fmi_import_allocate_context(jm_callbacks*){ F.live++; return &theContext; }
static fmi_version_enu_t fmi_import_get_fmi_version(fmi_import_context_t*,char const*,char const*){ return fmi_version_2_0_enu; }
static fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t*,char const*,void*){ F.live++; return &theFmu; }
static fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t*){ return fmi2_fmu_kind_me; }
static jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t*,fmi2_fmu_kind_enu_t k,void*){ sx_assert(k==fmi2_fmu_kind_me,"the FMU is loaded for model exchange"); F.live++; F.mode=F_LOADED; return jm_status_success; }
static jm_status_enu_t fmi2_import_instantiate(fmi2_import_t*,char const*,fmi2_type_t t,char const*,fmi2_boolean_t){ sx_assert(F.mode==F_LOADED&&t==fmi2_model_exchange,"the FMU is instantiated for model exchange"); F.mode=F_INSTANTIATED; F.live++; return jm_status_success; }
static void fmi_import_free_context(fmi_import_context_t*){ F.live--; } static int fmi_import_rmdir(jm_callbacks*,char const*){ return 0; }
static size_t fmi2_import_get_number_of_continuous_states(fmi2_import_t*){ return NX; } static size_t fmi2_import_get_number_of_event_indicators(fmi2_import_t*){ return NZ; }
static fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t*,int){ F.live++; return &theList; } static size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t*){ return F.vars?5:0; }
static fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t*,size_t i){ sx_assert(i<5,"a variable of the list"); return &theVars[i]; }
static char const* fmi2_import_get_variable_name(fmi2_import_variable_t* v){ static char const* N[]={"real","integer","boolean","string","enumeration"}; return N[v->i]; }
static fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t* v){ return 100+v->i; }
static fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t* v){ return (fmi2_base_type_enu_t)v->i; }
static void fmi2_import_free_variable_list(fmi2_import_variable_list_t*){ F.live--; }
static fmi2_status_t fmi2_import_set_debug_logging(fmi2_import_t*,fmi2_boolean_t,size_t,void*){ return fmi2_status_ok; }
static fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t*,fmi2_boolean_t td,fmi2_real_t tol,fmi2_real_t t0,fmi2_boolean_t sd,fmi2_real_t){ sx_assert(F.mode==F_INSTANTIATED&&!F.set_up,"the experiment is set up once, before initialization"); sx_assert(!td||tol==0.25,"the tolerance is handed on"); F.set_up=true; F.t0=F.time=t0; return fmi2_status_ok; }
static int fmi2_import_get_capability(fmi2_import_t*,fmi2_capabilities_enu_t){ return F.jac; }
static fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t*){ sx_assert(F.mode==F_INSTANTIATED&&F.set_up,"initialization follows the set up"); F.mode=F_INIT; return fmi2_status_ok; }
static fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t*){ sx_assert(F.mode==F_INIT,"initialization is left once"); F.mode=F_EVENT; F.needed=true; F.events++; F.iterations=0; mark(); return fmi2_status_ok; }
static fmi2_status_t fmi2_import_new_discrete_states(fmi2_import_t*,fmi2_event_info_t* e){ sx_assert(F.mode==F_EVENT,"discrete states are computed in event mode"); F.transitions++; F.iterations++; bool more=F.iterations<2&&F.again>0&&sx_bool("again"); if(more) F.again--; F.needed=more; e->newDiscreteStatesNeeded=more; e->terminateSimulation=false; e->nominalsOfContinuousStatesChanged=false; 
  bool ch=sx_bool("changed"); e->valuesOfContinuousStatesChanged=ch; for(int i=0;i<NX;i++){ double v=fval("new state"); F.x[i]=ch?v:F.x[i]; } bool def=sx_bool("next event"); e->nextEventTimeDefined=def; F.nextDefined=def; if(def){ double d=sx_dyadic("next event time",0,8,1); e->nextEventTime=F.next=F.time+d; } F.pending=false; mark(); return fmi2_status_ok; }
static fmi2_status_t fmi2_import_enter_continuous_time_mode(fmi2_import_t*){ sx_assert(F.mode==F_EVENT,"continuous time mode is entered from event mode"); sx_assert(!F.needed,"the event iteration is finished before continuous time mode is entered"); F.mode=F_CONT; return fmi2_status_ok; }
static fmi2_status_t fmi2_import_enter_event_mode(fmi2_import_t*){ sx_assert(F.mode==F_CONT,"event mode is entered from continuous time mode"); sx_assert(F.time==F.lastTime,"an event takes place at the time of the last step"); for(int i=0;i<NX;i++) sx_assert(F.x[i]==F.lastX[i],"an event takes place at the state of the last step"); F.mode=F_EVENT; F.needed=true; F.events++; F.iterations=0; sx_reach("event mode"); return fmi2_status_ok; }
static fmi2_status_t fmi2_import_set_time(fmi2_import_t*,fmi2_real_t t){ running(); sx_assert(t>=F.lastTime,"time is not set back before the last step or event"); if(F.mode==F_EVENT) sx_assert(t==F.time,"time does not pass in event mode"); F.time=t; return fmi2_status_ok; }
static fmi2_status_t fmi2_import_set_continuous_states(fmi2_import_t*,fmi2_real_t const* x,size_t n){ sx_assert(F.mode==F_CONT,"continuous states are set in continuous time mode"); sx_assert(n==(size_t)NX,"all continuous states are set"); for(int i=0;i<NX;i++) F.x[i]=x[i]; return fmi2_status_ok; }
static fmi2_status_t fmi2_import_get_continuous_states(fmi2_import_t*,fmi2_real_t* x,size_t n){ running(); sx_assert(n==(size_t)NX,"all continuous states are read"); for(int i=0;i<NX;i++) x[i]=F.x[i]; return fmi2_status_ok; }
static fmi2_status_t fmi2_import_get_derivatives(fmi2_import_t*,fmi2_real_t* d,size_t n){ running(); sx_assert(n==(size_t)NX,"all derivatives are read"); for(int i=0;i<NX;i++) d[i]=fder(i,F.time,F.x); return fmi2_status_ok; }
static fmi2_status_t fmi2_import_get_event_indicators(fmi2_import_t*,fmi2_real_t* z,size_t n){ running(); sx_assert(n==(size_t)NZ,"all event indicators are read"); for(int i=0;i<NZ;i++) z[i]=find(i,F.time,F.x); return fmi2_status_ok; }
static fmi2_status_t fmi2_import_completed_integrator_step(fmi2_import_t*,fmi2_boolean_t,fmi2_boolean_t* ev,fmi2_boolean_t* term){ sx_assert(F.mode==F_CONT,"a step is completed in continuous time mode"); sx_assert(F.time>F.lastTime,"a step that is completed advances time"); sx_assert(!F.pending,"an event asked for at the end of a step takes place before the next step"); if(F.nextDefined) sx_assert(F.time<=F.next,"no step passes the next time event"); mark(); F.completed++; bool e=sx_bool("event mode"); *ev=e; *term=false; if(e) F.pending=true; sx_reach("step"); return fmi2_status_ok; }
// as in the FMI Library, the known variables come first
static fmi2_status_t fmi2_import_get_directional_derivative(fmi2_import_t*,fmi2_value_reference_t const* known,size_t nk,fmi2_value_reference_t const* unknown,size_t nu,fmi2_real_t const* dk,fmi2_real_t* du){ running(); F.jt=F.time; for(int i=0;i<NX;i++) F.jx[i]=F.x[i]; sx_assert(nu<=(size_t)NX&&nk<=(size_t)NX,"directional derivatives of the states"); for(size_t u=0;u<nu;u++){ sx_assert((int)unknown[u]>=NX&&(int)unknown[u]<2*NX,"derivatives are differentiated"); double s=0; for(size_t k=0;k<nk;k++){ sx_assert((int)known[k]<NX,"with respect to states"); s+=F.a[unknown[u]-NX][known[k]]*dk[k]; } du[u]=s; } return fmi2_status_ok; }
static fmi2_status_t fmi2_import_get_real(fmi2_import_t*,fmi2_value_reference_t const* r,size_t n,fmi2_real_t* v){ sx_assert(n==1&&r[0]==100,"the real variable is read"); *v=F.real; return fmi2_status_ok; }
static fmi2_status_t fmi2_import_set_real(fmi2_import_t*,fmi2_value_reference_t const* r,size_t n,fmi2_real_t const* v){ sx_assert(n==1&&r[0]==100,"the real variable is set"); F.real=*v; return fmi2_status_ok; }
static fmi2_status_t fmi2_import_get_integer(fmi2_import_t*,fmi2_value_reference_t const* r,size_t n,fmi2_integer_t* v){ sx_assert(n==1&&(r[0]==101||r[0]==104),"the integer variable is read"); *v=r[0]==104?F.enumeration:F.integer; return fmi2_status_ok; }
static fmi2_status_t fmi2_import_set_integer(fmi2_import_t*,fmi2_value_reference_t const* r,size_t n,fmi2_integer_t const* v){ sx_assert(n==1&&(r[0]==101||r[0]==104),"the integer variable is set"); (r[0]==104?F.enumeration:F.integer)=*v; return fmi2_status_ok; }
static fmi2_status_t fmi2_import_get_boolean(fmi2_import_t*,fmi2_value_reference_t const* r,size_t n,fmi2_boolean_t* v){ sx_assert(n==1&&r[0]==102,"the boolean variable is read"); *v=F.boolean; return fmi2_status_ok; }
static fmi2_status_t fmi2_import_set_boolean(fmi2_import_t*,fmi2_value_reference_t const* r,size_t n,fmi2_boolean_t const* v){ sx_assert(n==1&&r[0]==102,"the boolean variable is set"); F.boolean=*v; return fmi2_status_ok; }
static fmi2_status_t fmi2_import_get_string(fmi2_import_t*,fmi2_value_reference_t const* r,size_t n,fmi2_string_t* v){ sx_assert(n==1&&r[0]==103,"the string variable is read"); *v=F.str; return fmi2_status_ok; }
static fmi2_status_t fmi2_import_set_string(fmi2_import_t*,fmi2_value_reference_t const* r,size_t n,fmi2_string_t const* v){ sx_assert(n==1&&r[0]==103,"the string variable is set"); int i=0; do F.buf[i]=(*v)[i]; while((*v)[i++]&&i<30); F.str=F.buf; return fmi2_status_ok; }
static fmi2_status_t fmi2_import_terminate(fmi2_import_t*){ running(); F.mode=F_TERMINATED; return fmi2_status_ok; }
static void fmi2_import_free_instance(fmi2_import_t*){ sx_assert(F.mode==F_TERMINATED,"the FMU is terminated before it is released"); F.mode=F_FREED; F.live--; }
static void fmi2_import_destroy_dllfmu(fmi2_import_t*){ sx_assert(F.mode==F_FREED,"the library is unloaded last"); F.live--; } static void fmi2_import_free(fmi2_import_t*){ F.live--; }
#endif
