#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a generator so that wording stays uniform).
import json,os
H='include/adevs/'
def P(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    return d
S=H+'simulator.h'; M=H+'models.h'; G=H+'graph.h'; SC=H+'sched.h'; T=H+'time.h'; SV=H+'solvers/'
L=[]
L.append(P('C01','Next event time is the minimum pending time and the clock never runs backward',
 'At every point between events, the next event time reported by a simulator equals the minimum over all models in it of (time of that model\'s last state change + its time advance), and is infinite exactly when no model has a finite time advance. Executing the next event takes place at exactly that time and returns it (plus the smallest time increment for super-dense clocks), so reported times never decrease. The simulator\'s own start time is zero with every initial model having elapsed time zero.',
 ['inputs','histories'],'every assignment of time advances (including zero and infinity) returned by every model after each event, for every sequence of events',
 'The tests run a handful of fixed models with fixed time advances; ties, reschedulings and passive models in all combinations are never quantified over.',
 [S,SC],[('Simulator::schedule / computeNextState','include/adevs/simulator.h'),('Schedule heap','include/adevs/sched.h')],
 ['Simulator::nextEventTime','return value of execNextEvent/computeNextState','times passed to EventListener']))
L.append(P('C02','Each cycle makes exactly the right transition in exactly the right models',
 'In one simulation cycle a model changes state exactly once if it is imminent or receives input, and not at all otherwise. The transition is internal when it is imminent without input, confluent when imminent with input, and external when it only receives input; an external transition is given the exact time elapsed since the model\'s previous state change. Afterwards the time advance is consulted and the elapsed time restarts from zero.',
 ['inputs','histories','configurations'],'every combination of time advances, outputs and couplings of the models, every sequence of cycles and injected inputs',
 'The choice of transition depends on coincidences of times and inputs that fixed test models reach only in a few hand-picked combinations.',
 [S,M],[('Simulator::computeNextState dispatch','include/adevs/simulator.h')],
 ['calls to Atomic::delta_int, delta_ext, delta_conf, ta']))
L.append(P('C03','Output is produced once, only by imminent models, before any state changes',
 'In one simulation cycle the output function of every imminent ordinary model is called exactly once, and no ordinary model that is not imminent is asked for output. All output is computed before any model changes state, from an initially empty output list. No output is lost, kept or repeated from one cycle to the next.',
 ['inputs','histories'],'every set of simultaneous imminent models and every sequence of cycles',
 'Tests observe only final printed results of a few models, not the call discipline under arbitrary coincidences.',
 [S,SC],[('Simulator::computeNextOutput','include/adevs/simulator.h'),('Schedule::visitImminent','include/adevs/sched.h')],
 ['calls to Atomic::output_func and delta_*']))
L.append(P('C04','Every output value reaches exactly the models connected to its pin',
 'A value produced on a pin in a cycle is delivered in that same cycle, with its value unchanged, to each model connected by a path of couplings from that pin, once for each output value and receiving pin, labelled with the pin through which it enters the model. No model receives any other value, and a model receives all its values of the cycle together in a single transition. Which models receive what does not depend on the order in which models or couplings were added nor on memory addresses.',
 ['inputs','configurations','histories'],'all bounded coupling graphs, all output pins and values, all event histories',
 'Tests use a few fixed topologies; stale, duplicated, mislabelled or lost inputs show only in particular topologies and coincidences.',
 [S,G],[('Simulator::computeNextOutput routing','include/adevs/simulator.h'),('Graph::route','include/adevs/graph.h')],
 ['input list given to delta_ext/delta_conf']))
L.append(P('C05','Injected input is applied exactly once, at the requested time',
 'Input injected before a cycle is delivered in that cycle, and only in it, to every model connected to the injected pin; input cleared before the cycle is never delivered. When the next event time is set earlier than the scheduled one, the cycle takes place at the set time: models reached by injected input make external transitions with the elapsed time up to then, no ordinary model that is not due produces output or changes state, and pending events stay scheduled at their original times.',
 ['inputs','histories'],'every injected value and pin, every set time between the last event and the next one, every interleaving of injection, clearing and execution',
 'The tests inject at a few fixed times in one or two models.',
 [S],[('injectInput/clearInjectedInput/setNextTime/computeNextOutput','include/adevs/simulator.h')],
 ['delta_* calls, nextEventTime']))
L.append(P('C06','Tentative output can be recomputed or retracted without trace',
 'Computing the next output changes neither the simulation time nor any model state or schedule. Computing it again gives the same outputs, and computing it tentatively, then setting an earlier time, injecting input and executing, gives exactly the behaviour of a simulation in which the tentative output was never computed: no stale input or output from the retracted computation reaches any model.',
 ['inputs','histories'],'every model state, every number of tentative output computations at the scheduled or an earlier time, every injected input in between',
 'Tests exercise the retraction protocol for one or two fixed models only.',
 [S],[('computeNextOutput undo of prior output','include/adevs/simulator.h')],
 ['delta_* calls and inputs after a tentative computeNextOutput']))
L.append(P('C07','Mealy models respond within the cycle to their complete, final input',
 'A Mealy model that is imminent or receives input in a cycle has its output computed with all the input it receives in that cycle, and that output - and no output computed from partial input - is delivered to its receivers, reported to listeners and followed by exactly one matching transition with the same input. The result does not depend on the order in which Mealy models are visited or added. Models which in the end receive no input and are not imminent do not change state.',
 ['inputs','configurations','histories'],'all acyclic bounded couplings between Mealy and ordinary models, every imminent set, every output, in every visiting order',
 'The visiting order depends on memory addresses, and partial-input revisions happen only for particular topologies; tests cover a few.',
 [S],[('calculate_mealy_output/retract_mealy_output','include/adevs/simulator.h')],
 ['external_output_func/confluent_output_func/output_func results, delta_* inputs']))
L.append(P('C08','Cycles of Mealy models are rejected, acyclic Mealy networks are accepted',
 'If during a cycle an output propagates around a closed loop consisting only of Mealy models, the simulator throws an adevs::exception identifying a model on that loop, rather than looping forever or delivering values. If no such loop is traversed, including diamonds, shared receivers and loops broken by an ordinary model or by absence of output, no exception is thrown and the cycle completes.',
 ['inputs','configurations'],'all bounded directed graphs of Mealy models with every choice of which models produce output',
 'One test has one hand-written loop.',
 [S],[('path set in calculate_mealy_output','include/adevs/simulator.h')],
 ['exception from computeNextOutput']))
L.append(P('C09','Negative time advances are rejected naming the model; infinity means passive',
 'Whenever a model in a simulation returns a negative time advance - at construction of the simulator, after any transition or when added at run time - the simulator throws an adevs::exception whose who() is that model, and never moves time backward. A zero time advance is legal and causes an event at the current time; an infinite time advance makes the model passive until it receives input.',
 ['inputs','histories'],'every time advance value of the clock type, at every point at which it is consulted',
 'Tests try one negative value at one point.',
 [S,H+'exception.h'],[('Simulator::schedule','include/adevs/simulator.h')],['exception::who, nextEventTime']))
L.append(P('C10','Structure changes during a simulation take effect together at end of cycle',
 'Models, pins and couplings added or removed while a simulation is running affect nothing in the current cycle and take effect, in the order requested, immediately after all state transitions of that cycle. A newly added model starts with elapsed time zero at that instant, a removed model never again changes state, produces output or receives input, and models not involved keep their state and scheduled times.',
 ['inputs','histories'],'every bounded sequence of structure changes issued from any model\'s transition functions, in every position relative to other models\' events',
 'dyn_devs tests run a fixed scenario; orderings and combinations of changes (e.g. remove then add again in one cycle) are not covered.',
 [S,G],[('pending operations in computeNextState','include/adevs/simulator.h'),('Graph::queue_*','include/adevs/graph.h')],
 ['delta_*, output_func calls after the change']))
L.append(P('C11','A graph counts instances of models and couplings exactly',
 'A model, pin-to-pin or pin-to-model coupling is present in a graph exactly when it has been added more times than it has been removed. Removing one instance never affects other models or couplings, removing the last instance of a model removes all couplings to it, removing a pin removes one instance of each coupling from or to it, and removing something that is absent has no effect.',
 ['histories','inputs'],'every bounded sequence of add, remove, connect, disconnect and remove_pin operations on a bounded set of pins and models',
 'graph_test runs about eight fixed sequences.',
 [G],[('Graph::connect/disconnect/add_atomic/remove_atomic/remove_pin','include/adevs/graph.h')],
 ['Graph::route, Graph::get_atomics']))
L.append(P('C12','Routing follows exactly the paths of the coupling graph',
 'The destinations found for a pin are exactly the (pin, model) couplings reachable from that pin along pin-to-pin couplings, once for every path that leads to them, for every acyclic pin graph. Routing terminates, does not modify the graph, and ignores couplings that have been removed.',
 ['configurations','inputs'],'every bounded acyclic pin graph with any couplings to models, and every start pin',
 'Tests check a few chains and stars.',
 [G],[('Graph::route','include/adevs/graph.h')],['list filled by Graph::route']))
L.append(P('C13','Provisional changes are queued untouched and replayable in order',
 'While a graph is provisional, operations on it leave the models, couplings and routing unchanged and are recorded completely, in order and with their arguments; leaving the provisional mode by itself applies nothing. Applying the recorded operations in order gives the same graph as performing them directly.',
 ['histories','inputs'],'every bounded sequence of graph operations in either mode',
 'graph_test checks one or two operations in provisional mode.',
 [G],[('Graph::queue_*, get_pending, set_provisional','include/adevs/graph.h')],['get_pending, route, get_atomics']))
L.append(P('C14','Coupled models behave as their flattened network',
 'Simulating a hierarchy of coupled models behaves exactly like simulating the flat graph consisting of all their atomic models and couplings, also when a model or coupling occurs in several coupled models. How the network is divided into coupled models makes no observable difference.',
 ['configurations','inputs'],'all bounded hierarchies (nesting, sharing of components) and placements of couplings at any level',
 'Tests use a few hierarchies.',
 [M,S],[('Coupled::assign_to_graph','include/adevs/models.h')],['trajectories of all models, delivered inputs']))
L.append(P('C15','Changing a coupled model changes the running network accordingly',
 'Adding or removing an atomic model, a coupled model or a coupling of a coupled model that is part of a simulation has the same effect on the simulated network as the same change made to the flattened network. Removing a coupled model takes away its components and all its couplings recursively, except instances that other coupled models also contribute, and leaves the rest of the network as it was before that coupled model was added. Changing a coupled model that is not part of the network changes nothing in it.',
 ['histories','configurations'],'every bounded sequence of additions and removals on a hierarchy with shared components',
 'Tests remove a coupled model in one scenario and do not look at the couplings that remain.',
 [M,G],[('Coupled::add_*/remove_*/create_coupling/remove_coupling/remove_from_graph','include/adevs/models.h')],['Graph::route, get_atomics, simulation after the change']))
L.append(P('C16','The event schedule always yields the least time and exactly the imminent models',
 'After any sequence of insertions, reschedulings (earlier, later, unchanged) and removals (rescheduling to infinity or removing the minimum), the schedule contains exactly the models with a finite time, each once, at its latest given time; its minimum is the least of those times, or infinity when empty, and the imminent set is exactly the models at that time. This holds for any number of models, across growth of its storage.',
 ['histories','inputs'],'every bounded sequence of schedule operations with arbitrary times, from arbitrary reachable schedules, including across storage growth',
 'sched_test runs pseudo-random sequences with concrete priorities; tie patterns and growth boundaries are sampled only.',
 [SC],[('Schedule::schedule/removeMinimum/percolate/enlarge','include/adevs/sched.h')],['getMinimum, minPriority, visitImminent, getSize, empty']))
L.append(P('C17','Super-dense time is a lexicographic total order with consistent arithmetic',
 'The comparison operators of super-dense time agree with lexicographic order of (t,k) and with one another for every pair of values. Adding (0,k) increases only the integer part and adding (h,k) with h different from 0 gives (t+h,k); subtracting gives the interval such that adding it to the earlier value gives the later one (for ordered values with exactly representable real parts); compound and binary operators agree and do not modify their operands.',
 ['inputs'],'all values of real and integer parts of sd_time<int>, sd_time<long>, sd_time<double>',
 'sd_time_test checks a few dozen constants.',
 [T],[('sd_time operators','include/adevs/time.h')],['sd_time operators']))
L.append(P('C18','Super-dense simulation clocks order simultaneous events strictly',
 'With a super-dense clock every executed event moves the clock to a strictly larger value: state changes occur at the event time and take effect one integer step later, so a model with zero time advance has its next event at the same real time and a larger integer part. Otherwise the simulator behaves as for real clocks: dispatch, elapsed times and next event times are those given by super-dense arithmetic.',
 ['inputs','histories'],'every super-dense time advance of a bounded set of models over bounded histories',
 'One zero-time test with a fixed model.',
 [S,T],[('adevs_epsilon in computeNextState','include/adevs/simulator.h')],['nextEventTime, delta_ext elapsed time']))
L.append(P('C19','Tolerant floating point comparison obeys its definition',
 'Comparing two numbers with relative tolerance epsilon reports equal exactly when their difference is at most epsilon times the power of two of the larger magnitude, and otherwise reports their true order; it is antisymmetric, reflexive, and exact when the tolerance is zero. All comparison operators of the tolerant clock type agree with that single comparison and its arithmetic is ordinary floating point arithmetic.',
 ['inputs'],'all finite double values and tolerances in the stated range, bit-precisely',
 'double_fcmp_test checks a few constants.',
 [T,'src/adevs.cpp'],[('double_fcmp::fcmp','src/adevs.cpp')],['double_fcmp operators']))
L.append(P('C20','Clock type constants are consistent, so any clock type gives the same simulation',
 'For every supported clock type zero, infinity, the sentinel and the smallest increment satisfy: sentinel is below zero, zero is below infinity, no legal time exceeds infinity, and the increment is zero for plain clocks and the least positive interval for super-dense ones. The same model simulated with float, double, long double, int, long or tolerant clocks (at tolerance zero) goes through the same events at the same times when these are representable in each of the types.',
 ['inputs','configurations'],'every clock type and every bounded history of representable time advances',
 'alt_time_tests run one scenario for each type.',
 [T,S,SC],[('adevs_inf/zero/sentinel/epsilon specializations','include/adevs/time.h')],['nextEventTime across types']))
L.append(P('C21','Listeners are told of every output, input and state change once and in order',
 'Every registered listener is notified of each output value when it is computed, of each input value just before the receiving model\'s transition and of each state change just after it, each exactly once, with the right model, pin, value and event time, and of nothing else. Listeners do not influence the simulation, and several listeners receive the same notifications.',
 ['inputs','histories'],'all bounded histories and all outputs and couplings, with any number of listeners up to the bound, ordinary and Mealy models',
 'The listener test checks one scenario.',
 [S],[('EventListener calls in computeNextOutput/computeNextState','include/adevs/simulator.h')],['EventListener callbacks']))
L.append(P('C22','Pins have unique, ordered, copyable identities',
 'Every newly created pin differs from every pin created before it or concurrently with it by another thread, and copies and assignments of a pin equal the original. The comparison operators form one consistent total order on pins.',
 ['schedules','inputs','histories'],'every sequence of creations, copies and assignments, and every interleaving of concurrent creations in several threads',
 'No test creates pins concurrently or checks the order.',
 [M,'src/adevs.cpp'],[('pin_t::atom','src/adevs.cpp')],['pin_t operators']))
L.append(P('C23','Hybrid models report time and state events at the right time and cause',
 'A hybrid model undergoes internal events exactly when its time event function expires or a state event is located, with the flags telling which of them caused the event and with the continuous state of that instant; pure integration steps never invoke the discrete event or output functions. Each event\'s output is computed once, from the same state and flags, before the event, and the time between reported internal steps equals the integration time actually taken. The system is told of a state that is reached (postStep) before the output and event that happen in it, and of the state to go back to after a trial step (postTrialStep).',
 ['inputs','histories'],'every bounded sequence of answers of the integrator, event locator and time event function permitted by their interfaces',
 'ode tests compare a few smooth trajectories against tolerance; the event logic in all combinations is not quantified over.',
 [SV+'hybrid.h'],[('Hybrid::tentative_step/delta_int/output_func/ta','include/adevs/solvers/hybrid.h')],['calls to ode_system callbacks']))
L.append(P('C24','Hybrid models handle input at any time without losing or inventing events',
 'Input arriving during an integration interval is applied to the continuous state advanced exactly to the arrival time, with the elapsed time since the last discrete event; input at an event time is a confluent event. If advancing to the arrival time reveals a state event that had been overlooked, that event and its output are neither lost nor duplicated: its output is emitted exactly once at the arrival time, and later input and events are processed from the state and time that then hold.',
 ['inputs','histories'],'every bounded sequence of arrivals, elapsed times and integrator/event locator answers permitted by the interfaces',
 'Missed events depend on rare numerical coincidences which tests hit in one hand-made case.',
 [SV+'hybrid.h'],[('Hybrid::delta_ext/delta_conf/missedOutput','include/adevs/solvers/hybrid.h')],['ode_system callbacks, model output']))
L.append(P('C25','Integrators respect step limits and error tolerance and land exactly on target',
 'An integration step never exceeds the requested limit nor the configured maximum step, is positive when the limit is, and is accepted only when the integrator\'s own error estimate is within the tolerance. Advancing by an interval takes steps whose lengths add up to that interval, whatever steps came before; the state vector passed in is replaced by the new state and neighbouring memory is not touched.',
 ['inputs','histories'],'every bounded sequence of derivative values, limits, tolerances and preceding steps',
 'Tests run a few systems with fixed parameters and compare endpoints to tolerance.',
 [SV+'rk_45.h',SV+'corrected_euler.h',SV+'trap.h'],[('integrate/advance','include/adevs/solvers/rk_45.h'),('integrate/advance','include/adevs/solvers/corrected_euler.h'),('integrate/advance','include/adevs/solvers/trap.h')],['return values and states of ode_solver::integrate/advance']))
L.append(P('C26','Integrators attain their stated order of accuracy',
 'For systems in which the derivative of each variable is a polynomial of the variables before it (time among them) and whose solutions are therefore polynomials, a single step gives the exact solution up to rounding when these are of degree up to the stated order of the method (two for the corrected Euler and trapezoidal methods, at least four for Runge-Kutta 4/5), for every initial state, coefficient and step size. The components of the state vector are integrated consistently with one another.',
 ['inputs'],'all bounded coefficients, initial states and step sizes',
 'Tests compare a few trajectories to loose tolerances, which low-order errors or a wrong coefficient can pass.',
 [SV+'rk_45.h',SV+'corrected_euler.h',SV+'trap.h'],[('trial_step','include/adevs/solvers/rk_45.h'),('trial_step','include/adevs/solvers/corrected_euler.h')],['state after ode_solver::integrate']))
L.append(P('C27','State event location finds the first event and reports the right functions',
 'If no event function changes sign over the step, the locator reports no event and leaves step and end state alone. Otherwise it terminates and reports an instant within the step, the state that the solution has at that instant and flags for exactly the functions having an event there, such that the instant is at or after the first sign change and within the stated tolerance of it (or, for the variants which may stop short, ends at an earlier instant without event before the first sign change).',
 ['inputs'],'every bounded piecewise linear event function and trajectory within the bounds, every step and tolerance in range',
 'Tests locate events of a few fixed functions.',
 [SV+'event_locators.h',SV+'spline.h'],[('event_locator_impl::find_events','include/adevs/solvers/event_locators.h'),('fast_event_locator::find_events','include/adevs/solvers/event_locators.h')],['find_events result, events[], qend, h']))
L.append(P('C28','Spline interpolation meets its end points and slopes',
 'The interpolant used for event location reproduces the given states and derivatives at both ends of the interval, and therefore any cubic solution exactly, up to rounding, for each component independently.',
 ['inputs'],'all bounded end states, slopes and interval lengths',
 'No test checks the spline.',
 [SV+'spline.h'],[('spline::init/interpolate','include/adevs/solvers/spline.h')],['spline::interpolate']))
L.append(P('C29','The implicit integrator poses the trapezoidal equation it claims to solve',
 'The nonlinear system handed to the solver is exactly y = q + h/2 (f(q) + f(y)) with a Jacobian that is its true derivative in column-major layout, and the result returned is the solver\'s solution; when the solver fails, the step is retried smaller from the unchanged initial state. Step limits hold as for the other integrators.',
 ['inputs','fault_sequences'],'every bounded state, derivative, Jacobian and step size, every bounded sequence of solver successes and failures',
 'Tests integrate one or two systems to tolerance; Newton iterations hide a wrong Jacobian and solver failures never happen.',
 [SV+'trap.h'],[('trap::func/jac/step/integrate','include/adevs/solvers/trap.h')],['values passed to and from the nonlinear solver']))
L.append(P('C30','CVODE-based models resume from the last event state and report consistent times',
 'An external event first returns the model to the state and time of its last event and then integrates exactly to the arrival time; internal and confluent transitions take place at the projected time, the user\'s discrete event functions are invoked exactly when an event is flagged, its output exactly when the projected time is reached and is an event, and each transition records the resulting state and time as the new base.',
 ['inputs','histories'],'every bounded sequence of internal, external and confluent transitions with arbitrary integration answers',
 'One test runs one model.',
 [SV+'cvode.h'],[('CVODE::ta/delta_int/delta_ext/delta_conf','include/adevs/solvers/cvode.h')],['user callbacks of CVODE models']))
L.append(P('C31','FMU wrapper follows the model exchange protocol and exposes the FMU faithfully',
 'States, derivatives, event indicators, time and variables seen through the wrapper are those of the FMU at the state and time requested, with time as the additional last state whose derivative is one; the Jacobian is that of the whole system in column-major order. Calls reach the FMU in the order and mode that FMI 2.0 model exchange prescribes, and discrete event iteration and next event times are honoured.',
 ['inputs','histories'],'every bounded sequence of solver calls and every answer of the FMU permitted by the FMI standard',
 'The FMU wrapper is neither built nor tested here.',
 [SV+'fmi.h'],[('ModelExchange','include/adevs/solvers/fmi.h')],['calls on a stub FMU']))
L.append(P('C32','Simulation never touches memory it does not own and keeps used models alive',
 'Using the public interface with valid arguments never reads uninitialised or freed memory, writes out of bounds or frees twice, also when models remove themselves or each other, when exceptions are thrown, and when the simulator, graph, coupled models and models are destroyed in any order the shared ownership allows. A model stays alive at least until its removal has taken effect.',
 ['histories','inputs','fault_sequences'],'every bounded history of construction, simulation, dynamic structure change, exception and destruction',
 'Use-after-free and uninitialised reads often do not change test results, and the destruction orders tested are few.',
 [S,G,M,SC],[('shared_ptr ownership in Graph, raw pointers in Simulator and Schedule','include/adevs/simulator.h')],['validity of every memory access']))
L.append(P('C33','Solvers and hybrid models release what they own exactly once',
 'Destroying a hybrid model deletes the system, integrator and event locator it has adopted, exactly once, and integrators, locators and splines release all memory they allocated while leaving the system they were given intact.',
 ['histories','configurations'],'every kind of integrator and locator, system size in bounds and point of destruction',
 'Leaks and ownership are not observed by any test.',
 [SV+'hybrid.h',SV+'rk_45.h',SV+'event_locators.h'],[('constructors and destructors','include/adevs/solvers/hybrid.h')],['destructor calls, allocated memory after destruction']))
L.append(P('C34','The alternative schedule keeps every active model findable in time order',
 'In the index-based schedule, after any sequence of add, remove, update, remove-next and rebuild operations each active model is present exactly once, the next model is one with the least time advance given at its last add or update, and any active model can be updated or removed; adding an active model or removing or updating an inactive one throws and changes nothing.',
 ['histories','inputs'],'every bounded sequence of operations with arbitrary time advances',
 'Its test is disabled in the build; only a benchmark compiles it.',
 [H+'schedule2.h'],[('add/remove/update/percolate','include/adevs/schedule2.h')],['get_next, get_minimum, size, exceptions']))
for p in L:
    if len(p['title'])>80: print(p['id'],len(p['title']))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in L: f.write(json.dumps(p)+'\n')
print(len(L))
