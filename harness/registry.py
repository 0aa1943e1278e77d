# The checks: which harnesses decide which property, with which bounds.
COMMON_ASSUMPTIONS = [
 'bounds as listed per harness; nothing is claimed outside them',
 'clang-18 -O1 lowering of the headers and the engine are faithful (validated on every run: sampled paths are replayed natively and their traces compared; every counterexample is replayed natively before it is reported)',
 'heap allocation never fails; addresses increase with allocation order (orders are permuted by the harness where iteration order depends on addresses)',
]
CHECKS = {}
def H(name, src, reach=(), quick='', thorough=None, defs=(), qd=(), td=None, opts=(), qo=(), to=None, **kw):
    """one harness; quick/thorough: bound text; qd/td: defines per tier"""
    h = dict(name=name, src=src, reach=list(reach), defs=list(defs), opts=list(opts), **kw)
    h['quick'] = dict(bound=quick, defs=list(qd), opts=list(qo))
    h['thorough'] = dict(bound=thorough or quick, defs=list(td if td is not None else qd), opts=list(to if to is not None else qo))
    return h
def C(pid, note, *hs, assumptions=()):
    CHECKS[pid] = dict(harnesses=list(hs), note=note, assumptions=list(assumptions))

C('C16', 'Every path of the real Schedule code from an empty heap (short operation sequences) and from an arbitrary heap-ordered state with symbolic priorities; assertions decided by z3.',
  H('seq', 'c16.cpp', ['schedule','deschedule','removeMinimum'], 'double: every sequence of 3 (thorough 4) operations on 3 models from an empty schedule of capacity 2, then drained', 'double: 4 operations', ['-DP_MODE=1'], ['-DP_N=3','-DP_K=3'], ['-DP_N=3','-DP_K=4']),
  H('seq_sdtime', 'c16.cpp', ['schedule'], 'sd_time<double>: every sequence of 3 operations on 3 models', '4 operations', ['-DP_MODE=1','-DSDT'], ['-DP_N=3','-DP_K=3'], ['-DP_N=3','-DP_K=4']),
  H('seq_int', 'c16.cpp', ['schedule'], 'int time: every sequence of 3 operations on 3 models', '4 operations', ['-DP_MODE=1','-DINTT'], ['-DP_N=3','-DP_K=3'], ['-DP_N=3','-DP_K=4']),
  H('step', 'c16.cpp', ['schedule','deschedule','removeMinimum'], 'one arbitrary operation on an arbitrary heap of 11 models with symbolic priorities', '16 models', ['-DP_MODE=2'], ['-DP_N=11','-DP_K=1'], ['-DP_N=16','-DP_K=1']),
  H('step2', 'c16.cpp', ['schedule','deschedule','removeMinimum'], 'two arbitrary operations on an arbitrary heap of 6 models', '7 models', ['-DP_MODE=2'], ['-DP_N=6','-DP_K=2'], ['-DP_N=7','-DP_K=2']),
  H('ties', 'c16.cpp', ['schedule','deschedule','removeMinimum'], 'one operation on an arbitrary heap of 5 models, priorities may be equal, then drained', '7 models', ['-DP_MODE=2','-DDRAIN','-DP_TIES'], ['-DP_N=5','-DP_K=1'], ['-DP_N=7','-DP_K=1']),
  H('drain', 'c16.cpp', ['schedule'], 'one operation on an arbitrary heap of 7 models, then drained', '8 models', ['-DP_MODE=2','-DDRAIN'], ['-DP_N=7','-DP_K=1'], ['-DP_N=8','-DP_K=1']),
  H('remove', 'c16.cpp', ['deschedule'], 'one model removed from an arbitrary heap of 8 models, then drained', '10 models', ['-DP_MODE=2','-DDRAIN','-DP_ONLYINF'], ['-DP_N=8','-DP_K=1'], ['-DP_N=10','-DP_K=1']),
  H('grow', 'c16.cpp', ['late'], '103 models in a schedule of the default capacity, one rescheduled to a symbolic priority, three removed', None, ['-DP_MODE=3'], ['-DP_N=103']))

C('C17', 'The real sd_time operators on symbolic operands; every operator against the lexicographic order and the (t,k) arithmetic written in the harness.',
  *[H('order_'+n, 'c17.cpp', ['compared'], 'all pairs/triples of %s' % b, None, ['-DP_MODE=1']+d) for n,b,d in
    (('double','finite doubles (bit-precise) and any logical step',['-DTT=double','-DFP']),('int','int values and any logical step',['-DTT=int']),('long','long values and any logical step',['-DTT=long','-DWIDE']))],
  H('sum_double','c17.cpp',['logical step','real step'],'sums of finite doubles of any magnitude (bit-precise), logical steps up to 3',None,['-DP_MODE=3','-DTT=double','-DFP']),
  *[H('arith_'+n, 'c17.cpp', r, b, None, ['-DP_MODE=2']+d) for n,b,r,d in
    (('double','finite doubles (bit-precise)',['logical step','real step','difference'],['-DTT=double','-DFP']),('int','int',['logical step','real step','difference'],['-DTT=int']),('long','long',['logical step','real step','difference'],['-DTT=long','-DWIDE']))])
C('C19', 'fcmp and the double_fcmp operators bit-precisely (IEEE 754 binary64) over all finite doubles.',
  H('definition', 'c19.cpp', ['greater','less','equal'], 'all finite x, y with larger magnitude zero or >= 2^-1000 and tolerances 0 or in [2^-60,1)', None, ['-DP_MODE=1']),
  H('symmetry', 'c19.cpp', ['symmetric'], 'all finite x, y and tolerances in [0,1), subnormals included', None, ['-DP_MODE=2']),
  H('exact', 'c19.cpp', ['exact'], 'all finite x, y, tolerance 0', None, ['-DP_MODE=3']),
  H('operators', 'c19.cpp', ['operators'], 'all finite x, y and tolerances in [0,1): operators against fcmp, arithmetic against double', None, ['-DP_MODE=4']),
  assumptions=['frexp and ldexp are modelled by their IEEE definition on the bits'])

OPSL=['add','remove','connect pins','disconnect pins','connect model','disconnect model','remove pin']
C('C11', 'The real Graph driven by operations with symbolic pins, compared with a list of counted couplings.',
  H('sequence', 'c11.cpp', OPSL, 'every sequence of 3 operations from an empty graph: 3 pins (symbolic, acyclic), 1 model', '4 operations', ['-DP_MODE=1'], ['-DP_MODELS=1','-DP_OPS=3'], ['-DP_MODELS=1','-DP_OPS=4']),
  H('counts', 'c11.cpp', OPSL, 'one operation on a graph with 3 pins and 2 models in which a model, a pin coupling and a model coupling have been added 0, 1 or 2 times', '2 operations', ['-DP_MODE=2','-DP_MODELS=2'], ['-DP_OPS=1'], ['-DP_OPS=2']),
  H('wide', 'c11.cpp', OPSL, 'one operation on a graph with 3 pins and a model in which the model, a pin coupling and two couplings of pins to the model have been added 0, 1 or 2 times', '2 models', ['-DP_MODE=2','-DP_WIDE'], ['-DP_MODELS=1','-DP_OPS=1'], ['-DP_MODELS=2','-DP_OPS=1']),
  H('two_models', 'c11.cpp', OPSL, '', 'every sequence of 3 operations, 3 pins, 2 models', ['-DP_MODE=1'], td=['-DP_MODELS=2','-DP_OPS=3'], thorough_only=True))
C('C12', 'Graph::route on an acyclic pin graph with symbolic edges and couplings against the set of paths.',
  H('paths', 'c11.cpp', ['nothing reachable','several destinations','indirect'], '4 pins, 3 symbolic edges, 2 symbolic couplings to 2 models, any start pin', '5 pins, 5 edges', ['-DP_MODE=3','-DP_MODELS=2'], ['-DP_PINS=4','-DP_EDGES=3','-DP_CPL=2','-DP_DEL=0'], ['-DP_PINS=5','-DP_EDGES=5','-DP_CPL=1','-DP_DEL=0']),
  H('removed', 'c11.cpp', ['nothing reachable','several destinations','indirect'], '4 pins, 2 symbolic edges of which one may be removed, 2 symbolic couplings', '3 edges, one removed', ['-DP_MODE=3','-DP_MODELS=2'], ['-DP_PINS=4','-DP_EDGES=2','-DP_CPL=2','-DP_DEL=1'], ['-DP_PINS=4','-DP_EDGES=3','-DP_CPL=2','-DP_DEL=1']))
C('C13', 'Operations on a provisional graph: nothing changes, the record is complete, replaying it equals performing it.',
  H('provisional', 'c11.cpp', OPSL, 'every pair of operations with symbolic pins on a graph with 3 pins and 2 models, queued and then replayed', '3 operations', ['-DP_MODE=4','-DP_MODELS=2'], ['-DP_OPS=2'], ['-DP_OPS=3']))

SIMA=['model outputs, time advances and structure are arbitrary within the bounds (a model that answers differently when asked the same question again is outside)']
TR=['internal','external','confluent']
def SIM(name, src, reach, quick, d, tq='', td=None, **kw): return H(name, src, reach, quick, tq or None, [], d.split(), td.split() if td else None, **kw)
# histories that mix everything; each property takes those that bear on it
NET={
 'change':(['internal','external','confluent','remove','add'],'2 ordinary models, 2 cycles, one structure change in any transition','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_OPS=1 -DP_TAMAX=3 -DP_MENU=127','two structure changes, 3 cycles','-DP_NM=2 -DP_INF=0 -DP_CYC=3 -DP_OPS=2 -DP_TAMAX=2 -DP_MENU=63'),
 'enter':(['internal','add','remove'],'an ordinary model and a Mealy model outside the network that may be added, injected input, 2 cycles','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_OPS=1 -DP_MEALY=2 -DP_TAMAX=3 -DP_OUT=2 -DP_INJ=1','two changes','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_OPS=2 -DP_MEALY=2 -DP_TAMAX=3 -DP_OUT=2 -DP_INJ=1'),
 'early':(['internal','external','confluent','earlier','injected'],'2 ordinary models, 2 cycles, each at its time or earlier, with injected input, infinite time advances','-DP_NM=2 -DP_CYC=2 -DP_INJ=1 -DP_EARLY=1 -DP_TAMAX=3','3 cycles','-DP_NM=2 -DP_CYC=3 -DP_INJ=1 -DP_EARLY=1 -DP_TAMAX=3 -DP_INF=0'),
 'mealy':(['internal','external','confluent','earlier','injected'],'an ordinary and a Mealy model, 2 cycles, each at its time or earlier, with injected input','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_INJ=1 -DP_EARLY=1 -DP_MEALY=2 -DP_TAMAX=3','with a structure change','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_INJ=1 -DP_EARLY=1 -DP_MEALY=2 -DP_TAMAX=3 -DP_OPS=1'),
 'mixed':(['internal','external','confluent','earlier','injected','tentative'],'an ordinary, a Mealy and an ordinary model, tentative output, injected input, earlier times, a listener','-DP_NM=3 -DP_INF=0 -DP_CYC=1 -DP_INJ=1 -DP_EARLY=1 -DP_MEALY=2 -DP_TENT=1 -DP_LIS=1','2 tentative computations','-DP_NM=3 -DP_INF=0 -DP_CYC=1 -DP_INJ=1 -DP_EARLY=1 -DP_MEALY=2 -DP_TENT=2 -DP_LIS=1'),
 'three':(['internal','external','confluent'],'an ordinary, a Mealy and an ordinary model, 2 cycles','-DP_NM=3 -DP_INF=0 -DP_CYC=2 -DP_MEALY=2 -DP_TAMAX=3','an ordinary and 2 Mealy models','-DP_NM=3 -DP_INF=0 -DP_CYC=2 -DP_MEALY=6 -DP_TAMAX=3 -DP_INJ=1'),
 'nested':(['internal','external','confluent','remove','add'],'2 ordinary models in a coupled model in a coupled model, 2 cycles, one structure change in any transition','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_OPS=1 -DP_COUPLED=1 -DP_TAMAX=3','with injected input','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_OPS=1 -DP_COUPLED=1 -DP_TAMAX=3 -DP_INJ=1'),
 'nestin':(['internal','external','confluent','earlier','injected'],'2 ordinary models in nested coupled models, 2 cycles, each at its time or earlier, with injected input','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_INJ=1 -DP_EARLY=1 -DP_COUPLED=1 -DP_TAMAX=3','an ordinary and a Mealy model','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_INJ=1 -DP_EARLY=1 -DP_COUPLED=1 -DP_TAMAX=3 -DP_MEALY=2'),
 'sd':(['internal','external','confluent','earlier','injected','tentative'],'sd_time<double>: an ordinary and a Mealy model, tentative output, injected input, earlier times','-DP_NM=2 -DP_INF=0 -DP_CYC=1 -DP_INJ=1 -DP_EARLY=1 -DP_MEALY=2 -DP_TENT=1 -DP_TT=1 -DP_TAMAX=3','2 cycles, 2 ordinary models, no tentative output','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_INJ=1 -DP_EARLY=1 -DP_TT=1 -DP_TAMAX=1'),
 'sdchange':(['internal','remove','add'],'sd_time<double>: 2 ordinary models, 2 cycles, a model added or removed in any transition','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_OPS=1 -DP_TT=1 -DP_TAMAX=1 -DP_MENU=3','any change','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_OPS=1 -DP_TT=1 -DP_TAMAX=1 -DP_MENU=63'),
 'sdenter':(['internal','external','confluent','add'],'sd_time<double>: an ordinary model and one outside the network that is added in any transition, 2 cycles','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_OPS=1 -DP_TT=1 -DP_TAMAX=1 -DP_MENU=2 -DP_OUT=2 -DP_INJ=1','and removed','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_OPS=2 -DP_TT=1 -DP_TAMAX=1 -DP_MENU=6 -DP_OUT=2 -DP_INJ=1'),
 'int':(['internal','external','confluent','earlier','injected'],'int: 2 ordinary models, 2 cycles, each at its time or earlier, with injected input','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_INJ=1 -DP_EARLY=1 -DP_TT=2 -DP_TAMAX=2','time advances up to 15','-DP_NM=2 -DP_INF=0 -DP_CYC=2 -DP_INJ=1 -DP_EARLY=1 -DP_TT=2 -DP_TAMAX=15'),
 'tentchange':(['internal','add','remove','tentative'],'3 ordinary models, the last outside the network at first, tentative output, a change, 2 cycles','-DP_NM=3 -DP_INF=0 -DP_CYC=2 -DP_OPS=1 -DP_TAMAX=3 -DP_MENU=6 -DP_OUT=4 -DP_TENT=1','any change','-DP_NM=3 -DP_INF=0 -DP_CYC=2 -DP_OPS=1 -DP_TAMAX=3 -DP_MENU=63 -DP_OUT=4 -DP_TENT=1'),
}
def nets(*names, add=''): return [H('net_'+n,'net.cpp',NET[n][0],NET[n][1],NET[n][3],[],(NET[n][2]+' '+add).split(),(NET[n][4]+' '+add).split()) for n in names]
C('C01', 'The real Simulator in lock step with a reference simulation; every time advance symbolic.',
  SIM('free3','c01.cpp',['internal','passive','all cycles'],'3 independent models, 2 cycles, dyadic or infinite time advances','-DP_NM=3 -DP_CYC=2 -DP_OUTS=0','3 cycles','-DP_NM=3 -DP_CYC=3 -DP_OUTS=0'),
  SIM('free2','c01.cpp',['internal','passive','all cycles'],'2 independent models, 3 cycles','-DP_NM=2 -DP_CYC=3 -DP_OUTS=0','4 cycles','-DP_NM=2 -DP_CYC=4 -DP_OUTS=0'),
  SIM('coupled2','c01.cpp',TR,'2 models coupled both ways, 2 cycles, 0 or 1 output values','-DP_NM=2 -DP_CYC=2 -DP_TOPO=4','3 cycles','-DP_NM=2 -DP_CYC=3 -DP_TOPO=4'),
  SIM('single','c01.cpp',['internal','passive','all cycles'],'simulator of a single atomic model, 4 cycles','-DP_NM=1 -DP_CYC=4 -DP_SINGLE','6 cycles','-DP_NM=1 -DP_CYC=6 -DP_SINGLE'),
  SIM('order4','c01.cpp',['internal'],'','','4 independent models, 2 cycles, finite time advances','-DP_NM=4 -DP_CYC=2 -DP_OUTS=0 -DP_INF=0',thorough_only=True),
  *nets('change','early','mealy','nested','sd','sdchange','sdenter','int'), assumptions=SIMA)
C('C02', 'Which transition each model makes, with which elapsed time, against the reference simulation.',
  SIM('any2','c01.cpp',TR,'2 models, every direct coupling including self couplings, 1 cycle','-DP_NM=2 -DP_CYC=1 -DP_TOPO=1','2 cycles','-DP_NM=2 -DP_CYC=2 -DP_TOPO=1'),
  SIM('both2','c01.cpp',TR,'2 models coupled both ways, 2 cycles, 0 or 1 output values','-DP_NM=2 -DP_CYC=2 -DP_TOPO=4','3 cycles, computed in two steps','-DP_NM=2 -DP_CYC=3 -DP_TOPO=4 -DP_TWO=1'),
  SIM('ring3','c01.cpp',TR,'ring of 3 models through pins, 1 cycle','-DP_NM=3 -DP_CYC=1 -DP_TOPO=2','2 cycles','-DP_NM=3 -DP_CYC=2 -DP_TOPO=2'),
  SIM('retracted','c07.cpp',['internal','external'],'2 Mealy models send to a third, which may send to a fourth, as does a fifth; any order in memory','-DP_NM=5 -DP_DEEP -DP_PERM -DP_IMM=19 -DP_ONE=19 -DP_QUIET=1','up to 2 values','-DP_NM=5 -DP_DEEP -DP_PERM -DP_IMM=19 -DP_ONE=19 -DP_QUIET=1 -DP_OUTS=2'),
  SIM('mixed3b','c07.cpp',TR,'Mealy, Mealy, ordinary in any order in memory, chain, 1 cycle','-DP_NM=3 -DP_MOORE=4 -DP_PERM -DP_CHAIN -DP_INF=0','every coupling','-DP_NM=3 -DP_MOORE=4 -DP_INF=0'),
  *nets('change','early','mealy','mixed','three','sd','int','nested'), assumptions=SIMA)
C('C03', 'Output is computed once by each imminent model before any state change; checked in the lock-step simulation, also with output and state computed by separate calls.',
  SIM('any2','c01.cpp',TR,'2 models, every direct coupling, output and state computed in two calls, 1 cycle','-DP_NM=2 -DP_CYC=1 -DP_TOPO=1 -DP_TWO=1','2 cycles','-DP_NM=2 -DP_CYC=2 -DP_TOPO=1 -DP_TWO=1'),
  SIM('both2','c01.cpp',TR,'2 models coupled both ways, up to 2 output values, one call, 2 cycles','-DP_NM=2 -DP_CYC=2 -DP_TOPO=4 -DP_INF=0','infinite time advances too','-DP_NM=2 -DP_CYC=2 -DP_TOPO=4 -DP_OUTS=2'),
  SIM('ring3','c01.cpp',TR,'ring of 3 models through pins, two calls, 1 cycle','-DP_NM=3 -DP_CYC=1 -DP_TOPO=2 -DP_TWO=1','every order of the models in memory','-DP_NM=3 -DP_CYC=1 -DP_TOPO=2 -DP_TWO=1 -DP_PERM'),
  SIM('values2','c01.cpp',TR,'2 models coupled both ways, up to 2 output values each, 1 cycle','-DP_NM=2 -DP_CYC=1 -DP_TOPO=4 -DP_OUTS=2','2 cycles, finite time advances','-DP_NM=2 -DP_CYC=2 -DP_TOPO=4 -DP_OUTS=2 -DP_INF=0'),
  SIM('all3','c01.cpp',TR,'3 models, each coupled to both others, 1 cycle, finite time advances','-DP_NM=3 -DP_CYC=1 -DP_TOPO=4 -DP_INF=0','infinite time advances too','-DP_NM=3 -DP_CYC=1 -DP_TOPO=4'),
  SIM('injected2','c05.cpp',['internal','external','confluent','injected'],'2 models, up to 2 injected values, 1 cycle','-DP_NM=2 -DP_CYC=1 -DP_INJ=2 -DP_INF=0 -DP_QUIET=1','infinite time advances too','-DP_NM=2 -DP_CYC=1 -DP_INJ=2'),
  *nets('change','early','mealy','mixed','three','sd'), assumptions=SIMA)
C('C04', 'What every model receives against the paths through the couplings, with symbolic values.',
  SIM('pins2','c01.cpp',TR,'2 models, every choice of couplings among an output pin, two more pins and the models, 1 cycle','-DP_NM=2 -DP_CYC=1 -DP_TOPO=5'),
  SIM('fan2','c01.cpp',TR,'2 models, two paths to one receiver, two output pins, up to 2 values, 1 cycle','-DP_NM=2 -DP_CYC=1 -DP_TOPO=3 -DP_OUTS=2','3 models','-DP_NM=3 -DP_CYC=1 -DP_TOPO=3 -DP_OUTS=2'),
  SIM('both2','c01.cpp',TR,'2 models coupled both ways, 2 cycles','-DP_NM=2 -DP_CYC=2 -DP_TOPO=4','3 cycles','-DP_NM=2 -DP_CYC=3 -DP_TOPO=4'),
  SIM('mealypins','c07.cpp',TR,'chain of 3 Mealy models through pins, any order in memory, 1 cycle','-DP_NM=3 -DP_CHAIN -DP_VIA -DP_PERM -DP_INF=0 -DP_TAMAX=3','any time advance','-DP_NM=3 -DP_CHAIN -DP_VIA -DP_PERM -DP_INF=0'),
  SIM('injectpins','c05.cpp',['injected'],'2 models, injected values through pins, 1 cycle','-DP_NM=2 -DP_CYC=1 -DP_INF=0 -DP_QUIET=1','2 values','-DP_NM=2 -DP_CYC=1 -DP_INJ=2'),
  SIM('retracted','c07.cpp',['internal','external'],'2 Mealy models send to a third, which may send to a fourth, as does a fifth; any order in memory','-DP_NM=5 -DP_DEEP -DP_PERM -DP_IMM=19 -DP_ONE=19 -DP_QUIET=1','up to 2 values','-DP_NM=5 -DP_DEEP -DP_PERM -DP_IMM=19 -DP_ONE=19 -DP_QUIET=1 -DP_OUTS=2'),
  *nets('change','mealy','mixed','three','nested','nestin','enter'), assumptions=SIMA)
C('C05', 'Histories of injection, clearing and forced event times against the reference simulation.',
  SIM('one','c05.cpp',['internal','external','confluent','injected','earlier'],'2 models in a chain, one cycle at the scheduled time or any time between the last and the next event, up to 1 injected value at either of 2 pins','-DP_NM=2 -DP_CYC=1','2 injected values and clearing','-DP_NM=2 -DP_CYC=1 -DP_INJ=2 -DP_CLEAR=1 -DP_INF=0'),
  SIM('clear','c05.cpp',['injected','earlier','cleared'],'the same with injections that are cleared, finite time advances','-DP_NM=2 -DP_CYC=1 -DP_CLEAR=1 -DP_INF=0'),
  SIM('two','c05.cpp',['injected','earlier'],'1 model, 2 cycles','-DP_NM=1 -DP_CYC=2','2 models, 2 cycles, finite time advances','-DP_NM=2 -DP_CYC=2 -DP_INF=0'),
  SIM('twice','c05.cpp',['injected','earlier','twice'],'2 models, the time of the next event set once or twice','-DP_NM=2 -DP_CYC=1 -DP_TWICE=1 -DP_INF=0','2 cycles','-DP_NM=2 -DP_CYC=2 -DP_TWICE=1 -DP_INF=0'),
  SIM('mealy','c05.cpp',['injected','earlier','external'],'an ordinary and a Mealy model, 1 cycle, finite time advances','-DP_NM=2 -DP_CYC=1 -DP_MEALY=2 -DP_INF=0','infinite time advances too, 2 injected values','-DP_NM=2 -DP_CYC=1 -DP_MEALY=2 -DP_INJ=2'),
  SIM('late','c05.cpp',['injected','earlier'],'input injected on a pin that is connected only afterwards, 1 model, 2 cycles','-DP_NM=1 -DP_CYC=2 -DP_LATE=1','2 models','-DP_NM=2 -DP_CYC=2 -DP_LATE=1 -DP_INF=0'),
  SIM('fanin','c07.cpp',['external','earlier'],'input injected at or before the next event makes 2 Mealy models send to a third, which sends up to 2 values to a fourth that is next; any order in memory','-DP_NM=4 -DP_FAN -DP_PERM -DP_IMM=8 -DP_ONE=3 -DP_INMASK=3 -DP_INJ=1 -DP_EARLY=1 -DP_OUTS=2 -DP_QUIET=1','2 injected values','-DP_NM=4 -DP_FAN -DP_PERM -DP_IMM=8 -DP_ONE=3 -DP_INMASK=3 -DP_INJ=2 -DP_EARLY=1 -DP_OUTS=2 -DP_QUIET=1'),
  *nets('early','mealy','mixed','nestin','sd','int','enter'), assumptions=SIMA)
C('C06', 'Tentative outputs computed any number of times (with or without injected input), then an earlier time, injected input and execution, against a reference in which they leave no trace.',
  SIM('moore','c05.cpp',['tentative','earlier','injected'],'2 ordinary models, up to 2 tentative computations, 1 cycle, fixed time advances afterwards','-DP_NM=2 -DP_CYC=1 -DP_TENT=2 -DP_INF=0 -DP_QUIET=1','infinite time advances too','-DP_NM=2 -DP_CYC=1 -DP_TENT=2'),
  SIM('mealy','c05.cpp',['tentative','earlier','injected'],'an ordinary and a Mealy model in a chain, 1 tentative computation with or without input, 1 cycle, fixed time advances afterwards','-DP_NM=2 -DP_CYC=1 -DP_TENT=1 -DP_TENTINJ=1 -DP_MEALY=2 -DP_INF=0 -DP_QUIET=1','coupled both ways, 2 tentative computations','-DP_NM=2 -DP_CYC=1 -DP_TENT=2 -DP_MEALY=2 -DP_BACK'),
  SIM('first','c05.cpp',['tentative','earlier','injected'],'a Mealy model before an ordinary one, with a listener, 1 cycle, fixed time advances afterwards','-DP_NM=2 -DP_CYC=1 -DP_TENT=1 -DP_TENTINJ=1 -DP_MEALY=1 -DP_INF=0 -DP_LIS=1 -DP_QUIET=1','2 Mealy models','-DP_NM=2 -DP_CYC=1 -DP_TENT=2 -DP_TENTINJ=1 -DP_MEALY=3 -DP_INF=0'),
  *nets('mixed','sd','tentchange'), assumptions=SIMA)
C('C07', 'Mealy networks against the reference in which each Mealy model answers once, with its complete input, in topological order; every order of addresses.',
  SIM('acyclic3','c07.cpp',TR,'3 Mealy models, every acyclic coupling, 1 cycle, with listener','-DP_NM=3 -DP_INF=0 -DP_LIS=1','every order in memory','-DP_NM=3 -DP_PERM -DP_INF=0'),
  SIM('chain3','c07.cpp',TR,'chain of 3 Mealy models in every memory order, 1 cycle','-DP_NM=3 -DP_PERM -DP_CHAIN -DP_INF=0 -DP_LIS=1','infinite time advances too','-DP_NM=3 -DP_PERM -DP_CHAIN'),
  SIM('mixed3','c07.cpp',TR,'an ordinary and 2 Mealy models in any order in memory, chain, 1 cycle','-DP_NM=3 -DP_MOORE=1 -DP_PERM -DP_CHAIN -DP_INF=0','every coupling','-DP_NM=3 -DP_MOORE=1 -DP_INF=0'),
  SIM('mixed3b','c07.cpp',TR,'Mealy, Mealy, ordinary in any order in memory, chain, 1 cycle','-DP_NM=3 -DP_MOORE=4 -DP_PERM -DP_CHAIN -DP_INF=0','every coupling','-DP_NM=3 -DP_MOORE=4 -DP_INF=0'),
  SIM('input2','c07.cpp',TR,'2 Mealy models, injected input, every coupling, 1 cycle','-DP_NM=2 -DP_INJ=1 -DP_PERM -DP_INF=0','2 cycles','-DP_NM=2 -DP_INJ=1 -DP_CYC=2 -DP_INF=0'),
  SIM('diamond','c07.cpp',['internal','external','confluent'],'','','diamond of 4 Mealy models with a shared pin and a direct coupling, finite time advances','-DP_NM=4 -DP_DIAMOND -DP_INF=0',thorough_only=True),
  SIM('diamond0','c07.cpp',['internal','confluent'],'diamond of 4 Mealy models, equal time advances or imminent one at a time','-DP_NM=4 -DP_DIAMOND -DP_INF=0 -DP_TAMAX=0'),
  SIM('fan','c07.cpp',['internal','external'],'2 imminent Mealy models send to a third, which sends up to 2 values to a fourth, any order in memory','-DP_NM=4 -DP_FAN -DP_PERM -DP_IMM=3 -DP_ONE=3 -DP_OUTS=2 -DP_QUIET=1','3 imminent models','-DP_NM=5 -DP_FAN -DP_PERM -DP_IMM=7 -DP_ONE=7 -DP_OUTS=2 -DP_QUIET=1'),
  SIM('early','c07.cpp',TR+['earlier'],'2 Mealy models, input injected before or at the next event, 1 cycle','-DP_NM=2 -DP_INJ=1 -DP_EARLY=1 -DP_INF=0','2 cycles','-DP_NM=2 -DP_INJ=1 -DP_EARLY=1 -DP_CYC=2'),
  SIM('fanin','c07.cpp',['external','earlier'],'input injected at or before the next event makes 2 Mealy models send to a third, which sends up to 2 values to a fourth that is next; any order in memory','-DP_NM=4 -DP_FAN -DP_PERM -DP_IMM=8 -DP_ONE=3 -DP_INMASK=3 -DP_INJ=1 -DP_EARLY=1 -DP_OUTS=2 -DP_QUIET=1','2 injected values','-DP_NM=4 -DP_FAN -DP_PERM -DP_IMM=8 -DP_ONE=3 -DP_INMASK=3 -DP_INJ=2 -DP_EARLY=1 -DP_OUTS=2 -DP_QUIET=1'),
  SIM('deep','c07.cpp',['internal','external'],'2 Mealy models send to a third, which may send to a fourth, as does a fifth; any order in memory','-DP_NM=5 -DP_DEEP -DP_PERM -DP_IMM=19 -DP_ONE=19 -DP_QUIET=1','up to 2 values','-DP_NM=5 -DP_DEEP -DP_PERM -DP_IMM=19 -DP_ONE=19 -DP_QUIET=1 -DP_OUTS=2'),
  *nets('mealy','mixed','three','sd','enter'), assumptions=SIMA)
C('C08', 'Every directed graph of couplings with every choice of imminent models and of models that produce output, against the set of loops reached.',
  SIM('any3','c07.cpp',['accepted','rejected'],'3 Mealy models, every coupling but self couplings, every imminent and firing set','-DP_MODE=2 -DP_NM=3 -DP_ALLFIRE=0 -DP_TAMAX=0 -DP_INF=0'),
  SIM('moore3','c07.cpp',['accepted','rejected'],'2 Mealy models and an ordinary one','-DP_MODE=2 -DP_NM=3 -DP_ALLFIRE=0 -DP_MOORE=2 -DP_TAMAX=0 -DP_INF=0'),
  SIM('self2','c07.cpp',['accepted','rejected'],'2 Mealy models, self couplings too','-DP_MODE=2 -DP_NM=2 -DP_ALLFIRE=0 -DP_SELF=1 -DP_TAMAX=0 -DP_INF=0','3 models','-DP_MODE=2 -DP_NM=3 -DP_ALLFIRE=0 -DP_SELF=1 -DP_TAMAX=0 -DP_INF=0'),
  SIM('any4','c07.cpp',['accepted','rejected'],'4 Mealy models that always produce output, one imminent, every coupling','-DP_MODE=2 -DP_NM=4 -DP_ALLFIRE=1 -DP_TAMAX=0 -DP_INF=0','every order in memory','-DP_MODE=2 -DP_NM=4 -DP_ALLFIRE=1 -DP_PERM -DP_TAMAX=0 -DP_INF=0'),
  SIM('retracted','c07.cpp',['internal','external'],'5 Mealy models without loops, in which output is computed again and input retracted; any order in memory','-DP_NM=5 -DP_DEEP -DP_PERM -DP_IMM=19 -DP_ONE=19 -DP_QUIET=1'), assumptions=SIMA)
C('C18', 'The reference simulation of sim.h with super-dense clocks: simultaneous events at successive instants, next event times, elapsed times.',
  SIM('free_d','c01.cpp',['internal','passive'],'sd_time<double>: 2 independent models, 2 cycles, real and logical time advances','-DP_NM=2 -DP_CYC=2 -DP_OUTS=0 -DP_TT=1','3 cycles','-DP_NM=2 -DP_CYC=3 -DP_OUTS=0 -DP_TT=1'),
  SIM('coupled_d','c01.cpp',TR,'sd_time<double>: 2 models coupled both ways, 1 cycle','-DP_NM=2 -DP_CYC=1 -DP_TOPO=4 -DP_TT=1','2 cycles','-DP_NM=2 -DP_CYC=2 -DP_TOPO=4 -DP_TT=1'),
  SIM('coupled_i','c01.cpp',TR,'sd_time<int>: 2 models coupled both ways, 1 cycle','-DP_NM=2 -DP_CYC=1 -DP_TOPO=4 -DP_TT=6','2 cycles','-DP_NM=2 -DP_CYC=2 -DP_TOPO=4 -DP_TT=6'),
  SIM('coupled_l','c01.cpp',TR,'sd_time<long>: 2 models coupled both ways, 1 cycle','-DP_NM=2 -DP_CYC=1 -DP_TOPO=4 -DP_TT=7','2 cycles','-DP_NM=2 -DP_CYC=2 -DP_TOPO=4 -DP_TT=7'),
  SIM('inject_d','c05.cpp',['injected','earlier'],'sd_time<double>: 1 model with injected input at any earlier instant, 1 cycle','-DP_NM=1 -DP_CYC=1 -DP_TT=1','2 cycles','-DP_NM=1 -DP_CYC=2 -DP_TT=1 -DP_INF=0'),
  SIM('mealy_d','c07.cpp',['internal'],'sd_time<double>: 2 Mealy models, every acyclic coupling','-DP_NM=2 -DP_TT=1 -DP_INF=0'),
  *nets('sd','sdchange','sdenter'), assumptions=SIMA)
C('C20', 'The constants of every clock type, and the same reference simulation (two coupled models, two cycles) with each plain clock type (one cycle for the integer clocks in the quick tier).',
  SIM('constants','c20.cpp',['checked','negative','positive'],'every clock type, any value (dyadic with 40 bits for floating point)',''),
  *[SIM('sim_'+n,'c01.cpp',TR,'%s: 2 models coupled both ways, %d cycles'%(n,1 if k in (2,3) else 2),'-DP_NM=2 -DP_CYC=%d -DP_TOPO=4 -DP_TT=%d%s'%(1 if k in (2,3) else 2,k,x),'3 cycles, finite time advances','-DP_NM=2 -DP_CYC=3 -DP_TOPO=4 -DP_INF=0 -DP_TT=%d'%k) for n,k,x in (('int',2,' -DP_INF=0'),('long',3,' -DP_INF=0'),('float',4,''),('long_double',5,''),('double_fcmp',8,''))],
  SIM('inf_int','c01.cpp',['passive'],'int: 2 models, 2 cycles, with infinite time advances','-DP_NM=2 -DP_CYC=2 -DP_OUTS=0 -DP_TT=2'), SIM('inf_long','c01.cpp',['passive'],'long: the same','-DP_NM=2 -DP_CYC=2 -DP_OUTS=0 -DP_TT=3'),
  *nets('int'), assumptions=SIMA+['double_fcmp with tolerance 0'])
C('C21', 'Two listeners checked call by call against the reference simulation.',
  SIM('both2','c01.cpp',TR,'2 models coupled both ways, 2 listeners, 2 cycles','-DP_NM=2 -DP_CYC=2 -DP_TOPO=4 -DP_LIS=2','3 cycles, finite time advances','-DP_NM=2 -DP_CYC=3 -DP_TOPO=4 -DP_LIS=2 -DP_INF=0'),
  SIM('fan2','c01.cpp',TR,'2 models, two paths, two output pins, up to 2 values, 2 listeners','-DP_NM=2 -DP_CYC=1 -DP_TOPO=3 -DP_OUTS=2 -DP_LIS=2','3 models','-DP_NM=3 -DP_CYC=1 -DP_TOPO=3 -DP_OUTS=2 -DP_LIS=2 -DP_INF=0'),
  SIM('mealy','c07.cpp',TR,'an ordinary and 2 Mealy models, any order in memory, chain, 2 listeners','-DP_NM=3 -DP_MOORE=1 -DP_PERM -DP_CHAIN -DP_INF=0 -DP_LIS=2'),
  SIM('inject','c05.cpp',['injected','earlier'],'2 models, injected input at any time, 2 listeners','-DP_NM=2 -DP_CYC=1 -DP_LIS=2 -DP_INF=0'),
  *nets('mixed','three','change','sd','sdenter',add='-DP_LIS=2'), assumptions=SIMA)
C('C09', 'Reference simulation in which every time advance may be negative; a negative one must be rejected with the name of that model, and only then.',
  SIM('graph','c09.cpp',['made','rejected','passive'],'2 models in a chain, 2 cycles, negative, zero, positive and infinite time advances','-DP_TAMIN=-7 -DP_NM=2 -DP_CYC=2','3 cycles','-DP_TAMIN=-7 -DP_NM=2 -DP_CYC=3'),
  SIM('single','c09.cpp',['made','rejected','passive'],'simulator of one atomic model, 3 cycles','-DP_TAMIN=-7 -DP_NM=1 -DP_CYC=3 -DP_HOW=1','5 cycles','-DP_TAMIN=-7 -DP_NM=1 -DP_CYC=5 -DP_HOW=1'),
  SIM('coupled','c09.cpp',['made','rejected','passive'],'coupled model of 2, 1 cycle','-DP_TAMIN=-7 -DP_NM=2 -DP_CYC=1 -DP_HOW=2','2 cycles','-DP_TAMIN=-7 -DP_NM=2 -DP_CYC=2 -DP_HOW=2'),
  SIM('added','c09.cpp',['made','rejected','passive','added'],'a second model added while running, 2 cycles','-DP_TAMIN=-7 -DP_NM=2 -DP_CYC=2 -DP_HOW=3','3 cycles','-DP_TAMIN=-7 -DP_NM=2 -DP_CYC=3 -DP_HOW=3'),
  SIM('mealy','c09.cpp',['made','rejected'],'2 Mealy models with injected input, 1 cycle','-DP_TAMIN=-7 -DP_NM=2 -DP_CYC=1 -DP_MEALY=3 -DP_INJ=1','2 cycles','-DP_TAMIN=-7 -DP_NM=2 -DP_CYC=2 -DP_MEALY=3 -DP_INJ=1'),
  SIM('input','c09.cpp',['made','rejected','passive'],'1 model with injected input, 2 cycles','-DP_TAMIN=-7 -DP_NM=1 -DP_CYC=2 -DP_INJ=1','3 cycles','-DP_TAMIN=-7 -DP_NM=1 -DP_CYC=3 -DP_INJ=1'),
  SIM('sd','c09.cpp',['made','rejected'],'sd_time<double>: 2 models, 1 cycle','-DP_TAMIN=-7 -DP_NM=2 -DP_CYC=1 -DP_TT=1','2 cycles','-DP_TAMIN=-7 -DP_NM=2 -DP_CYC=2 -DP_TT=1'),
  SIM('int','c09.cpp',['made','rejected'],'int: 2 models, 1 cycle','-DP_TAMIN=-7 -DP_NM=2 -DP_CYC=1 -DP_TT=2','2 cycles','-DP_TAMIN=-7 -DP_NM=2 -DP_CYC=2 -DP_TT=2'),
  SIM('tiny','c09.cpp',['made','rejected','tiny'],'negative time advances that vanish when added to the clock, 2 cycles','-DP_TAMIN=-7 -DP_NM=1 -DP_CYC=2 -DP_TINY=1','2 models','-DP_TAMIN=-7 -DP_NM=2 -DP_CYC=2 -DP_TINY=1'), assumptions=SIMA)
Q10='-DP_QUIET=1 -DP_NM=3 -DP_CYC=2 -DP_INF=0 '
C('C10', 'Reference simulation whose models change the structure from within their transitions; the changes take effect together after the cycle.',
  SIM('any','c10.cpp',TR,'3 models, 2 cycles, any one change (model, coupling, pin; add, remove, again) requested in any transition',Q10+'-DP_OPS=1 -DP_MENU=31','every order in memory',Q10+'-DP_OPS=1 -DP_MENU=31 -DP_PERM'),
  SIM('models','c10.cpp',TR,'two changes, each adds or removes an instance of a model, instances may be present twice',Q10+'-DP_OPS=2 -DP_MENU=16 -DP_TWICE','arbitrary time advances to the end','-DP_NM=3 -DP_CYC=2 -DP_INF=0 -DP_OPS=2 -DP_MENU=16 -DP_TWICE'),
  SIM('burst','c10.cpp',TR,'three changes in one transition, each adds or removes an instance of a model or a coupling to it',Q10+'-DP_TAMAX=3 -DP_OPS=3 -DP_MENU=16 -DP_BURST=3','four changes, instances may be present twice',Q10+'-DP_TAMAX=3 -DP_OPS=4 -DP_MENU=16 -DP_BURST=4 -DP_TWICE'),
  SIM('outside','c10.cpp',TR,'one change concerning a model that is not in the network at first, also requested between events',Q10+'-DP_OPS=1 -DP_MENU=8 -DP_OUTSIDE=1','2 changes',Q10+'-DP_OPS=2 -DP_MENU=8 -DP_OUTSIDE=1'),
  SIM('moves','c10.cpp',TR,'','','two changes of models',Q10+'-DP_OPS=2 -DP_MENU=1',thorough_only=True),
  SIM('edge','c10.cpp',TR+['connect model','disconnect model'],'three changes in one transition, each makes or removes one coupling to a model',Q10+'-DP_TAMAX=3 -DP_OPS=3 -DP_MENU=32 -DP_BURST=3','five changes',Q10+'-DP_TAMAX=3 -DP_OPS=5 -DP_MENU=32 -DP_BURST=5'),
  SIM('link','c10.cpp',TR+['connect pins','disconnect pins'],'three changes in one transition, each makes or removes one coupling of pins',Q10+'-DP_TAMAX=3 -DP_OPS=3 -DP_MENU=64 -DP_BURST=3','five changes',Q10+'-DP_TAMAX=3 -DP_OPS=5 -DP_MENU=64 -DP_BURST=5'),
  *nets('change','enter','nested','sdchange','sdenter','tentchange'), assumptions=SIMA)
Q14='-DP_QUIET=1 -DP_NM=2 -DP_INF=0 -DP_CYC=1 '
C('C14', 'Simulator of a hierarchy of coupled models, with symbolic assignment of models and couplings to coupled models, against the reference simulation of the flat network.',
  SIM('hierarchy','c14.cpp',TR,'2 models and their couplings in any of the coupled models of a hierarchy, 1 cycle',Q14+'-DP_SHARE=0 -DP_CSHARE=0 -DP_BACK=0 -DP_ORDER=1','coupled both ways',Q14+'-DP_SHARE=0 -DP_CSHARE=0 -DP_BACK=1 -DP_ORDER=1'),
  SIM('shared','c14.cpp',['internal','confluent'],'models and couplings in any number of coupled models, 1 cycle, time advances 0 or infinite until the first event',Q14+'-DP_SHARE=1 -DP_CSHARE=1 -DP_TAMAX=0','arbitrary time advances',Q14+'-DP_SHARE=1 -DP_CSHARE=1 -DP_ORDER=1'),
  *nets('nestin'), assumptions=SIMA)
W15=['add coupled','remove coupled','add atomic','remove atomic','create coupling','remove coupling']
C('C15', 'Run-time changes of coupled models compared with the same changes of the flat network (a reference that counts instances).',
  SIM('two','c15.cpp',W15,'every two changes of an empty network of 2 coupled and 2 atomic models','-DP_WHAT=3 -DP_INIT=0 -DP_OPS=2','every three changes','-DP_WHAT=3 -DP_INIT=0 -DP_OPS=3 -DP_SYM=1'),
  SIM('one','c15.cpp',W15,'one change of an arbitrary network (couplings symbolic)','-DP_WHAT=3 -DP_INIT=1 -DP_OPS=1 -DP_SYM=1','two changes of a symbolic network','-DP_WHAT=3 -DP_INIT=3 -DP_OPS=2 -DP_SYM=1'),
  SIM('twice','c15.cpp',W15,'a change of a network in which a coupled model occurs twice, then another','-DP_WHAT=3 -DP_INIT=4 -DP_OPS=1 -DP_SYM=1 -DP_THEN=1','three changes, two at once','-DP_WHAT=3 -DP_INIT=4 -DP_OPS=2 -DP_THEN=1'),
  SIM('hollow','c15.cpp',W15,'two changes of a network in which a coupled model holds nothing but another one','-DP_WHAT=3 -DP_INIT=5 -DP_OPS=1 -DP_SYM=1 -DP_THEN=1','two changes at once, then a third','-DP_WHAT=3 -DP_INIT=5 -DP_OPS=2 -DP_THEN=1'),
  SIM('again','c15.cpp',W15,'one change, then the coupled models are removed and added again','-DP_WHAT=3 -DP_INIT=2 -DP_OPS=1 -DP_AGAIN=1 -DP_SYM=1','one change of a symbolic network, then one more','-DP_WHAT=3 -DP_INIT=3 -DP_OPS=1 -DP_THEN=1 -DP_SYM=1'),
  *nets('nested'))
C('C22', 'Pins made, copied, assigned and compared; two threads making pins are interleaved at every memory access.',
  SIM('sequence','c22.cpp',[],'every sequence of 3 creations, copies, assignments and moves','-DP_MODE=1 -DP_OPS=3','4 operations','-DP_MODE=1 -DP_OPS=4'),
  SIM('threads','c22.cpp',[],'two threads create a pin each, every interleaving of their shared accesses','-DP_MODE=2 -DP_BOTH=0','two pins in one thread, one in the other','-DP_MODE=2 -DP_BOTH=1'),
  SIM('order','c22.cpp',[],'order axioms for any three identities','-DP_MODE=3'),
  SIM('many','c22.cpp',[],'140000 pins one after the other','-DP_MODE=4 -DP_MANY=140000'))
C('C32', 'Every memory access of the real code is checked by the executor on every path (bounds, lifetime, initialisation, double free, leaks); models are owned by the simulation alone and remove themselves and each other, add models, change couplings and throw.',
  SIM('graph','c32.cpp',['remove itself','remove another','add','couplings','cycle','end'],'2 models coupled in a loop, 1 action, 2 cycles, 3 orders of destruction','-DP_OPS=1 -DP_CYC=2','2 actions','-DP_OPS=2 -DP_CYC=2'),
  SIM('throw','c32.cpp',['throw','thrown','rejected','end'],'the same with exceptions thrown by models and negative time advances, 1 action, 1 cycle','-DP_OPS=1 -DP_CYC=1 -DP_THROW=1','2 actions','-DP_OPS=2 -DP_CYC=1 -DP_THROW=1'),
  SIM('coupled','c32.cpp',['remove itself','remove another','add','couplings','cycle','end'],'in a coupled model, 1 cycle','-DP_OPS=1 -DP_CYC=1 -DP_COUPLED=1','2 cycles','-DP_OPS=1 -DP_CYC=2 -DP_COUPLED=1'),
  SIM('mealy','c32.cpp',['remove itself','add','cycle','end'],'2 Mealy models, tentative computation, injected input','-DP_OPS=1 -DP_CYC=1 -DP_MEALY=1 -DP_TENT=1','2 cycles','-DP_OPS=1 -DP_CYC=2 -DP_MEALY=1 -DP_TENT=1'),
  SIM('loop','c32.cpp',['rejected','end'],'2 Mealy models in a loop: the exception','-DP_OPS=0 -DP_CYC=1 -DP_MEALY=2 -DP_TENT=1'),
  SIM('many','c32b.cpp',['end'],'about 99 models at first (room for 99), 105 added and all removed while running','','305 added','-DP_MORE=305'),
  *nets('nested','enter','tentchange'), assumptions=['allocation does not fail','uninitialised reads are detected when a value decides a branch, an address or an assertion'])
R23=['time event','state event','state and time event','step','end']
R24=['time event','state event','step','external','confluent','overlooked','late output','end']
HA=['the system, integrator and event locator are arbitrary within their contracts: a step is positive and within its limit, an event is located within the step, the state is a function of time since the last event']
C('C23', 'Hybrid model with an arbitrary system, integrator and event locator, each call of which is checked and answered symbolically.',
  SIM('steps','c23.cpp',R23,'3 internal transitions, step lengths, events and their times symbolic','-DP_STEPS=3 -DP_EXT=0','4 internal transitions','-DP_STEPS=4 -DP_EXT=0'), assumptions=HA)
C('C24', 'The same with input arriving at any time, between and at events.',
  SIM('input','c23.cpp',R24[:5]+['end'],'2 transitions, each with or without input at any time','-DP_STEPS=2 -DP_EXT=1','3 transitions','-DP_STEPS=3 -DP_EXT=1 -DP_FIRST=2'),
  SIM('first','c23.cpp',['external','confluent','overlooked','late output','end'],'input before anything else that reveals an overlooked event','-DP_STEPS=2 -DP_EXT=1 -DP_FIRST=2','',''),
  SIM('second','c23.cpp',['external','overlooked','end'],'a step, input that reveals an overlooked event, then input again','-DP_STEPS=3 -DP_EXT=1 -DP_FIRST=3','',''),
  SIM('conf','c23.cpp',['step','external','end'],'a step, input at the end of a step or at an event, then input again','-DP_STEPS=3 -DP_EXT=1 -DP_FIRST=4','',''),
  SIM('overlooked','c23.cpp',['external','overlooked','end'],'output computed again, input that reveals a state event that had been overlooked','-DP_STEPS=1 -DP_EXT=1 -DP_AGAIN=1','',''), assumptions=HA)
R25=['accepted','rejected','end']
C('C25', 'The real integrators with a derivative function whose values at each stage are chosen symbolically, so that trial steps are accepted and rejected in every pattern.',
  SIM('euler','c25.cpp',R25,'corrected Euler: 3 variables in any order, 2 calls of integrate, up to 2 trial steps each, symbolic state and step limit','-DP_INT=1 -DP_HIST=2','3 calls','-DP_INT=1 -DP_HIST=3'),
  SIM('euler_advance','c25.cpp',['advanced','several steps','end'],'corrected Euler: advance, up to 2 trial steps','-DP_INT=1 -DP_HIST=0 -DP_ADV=2','after a call of integrate','-DP_INT=1 -DP_HIST=1 -DP_ADV=2'),
  SIM('rk45','c25.cpp',R25,'Runge-Kutta 4/5: 1 call of integrate, up to 2 trial steps, pow() arbitrary and positive','-DP_INT=2 -DP_HIST=1 -fno-builtin-pow','2 calls','-DP_INT=2 -DP_HIST=2 -fno-builtin-pow'),
  SIM('rk45_again','c25.cpp',R25,'Runge-Kutta 4/5: 2 calls of integrate, the first with one of 3 limits','-DP_INT=2 -DP_HIST=2 -fno-builtin-pow','',''),
  SIM('rk45_advance','c25.cpp',['advanced','several steps','end'],'Runge-Kutta 4/5: advance, up to 2 trial steps','-DP_INT=2 -DP_HIST=0 -DP_ADV=2 -fno-builtin-pow','after a call of integrate','-DP_INT=2 -DP_HIST=1 -DP_ADV=2 -fno-builtin-pow'), assumptions=['floating point rounding is over-approximated by bounded errors','maximum step 0.5 or 3, tolerance 1; the derivative is constant over the state and takes a few values per stage'])
C('C29', 'The real trapezoidal integrator with the SUNDIALS interface replaced by stand-ins: the nonlinear solver examines the residual and Jacobian functions it was given at symbolic states and answers with an arbitrary solution, a warning or a failure.',
  SIM('system','c29.cpp',['residual','Jacobian','solved','end'],'linear systems of 2 variables with coefficients -1, 0, 1 and symbolic right hand side, state and trial state; 3 step sizes','-DP_WHAT=1 -DP_FAIL=0','every coefficient, 2 calls','-DP_WHAT=1 -DP_FAIL=1'),
  SIM('failures','c29.cpp',['failed','solved','recovered','end'],'one step, 4 step limits, 2 maximum steps, symbolic states and solutions, up to 1 failure','-DP_WHAT=2 -fno-builtin-sqrt','up to 2 failures','-DP_WHAT=2 -DP_FAIL=2 -fno-builtin-sqrt'),
  SIM('calls','c29.cpp',['failed','solved','recovered','end'],'two steps after one another','-DP_WHAT=2 -DP_CALLS=2 -fno-builtin-sqrt','three steps','-DP_WHAT=2 -DP_CALLS=3 -fno-builtin-sqrt'),
  SIM('advance','c29.cpp',['failed','solved','several steps','end'],'advance over 3 intervals, up to 1 failure','-DP_WHAT=2 -DP_ADV=1 -fno-builtin-sqrt','up to 2 failures','-DP_WHAT=2 -DP_ADV=1 -DP_FAIL=2 -fno-builtin-sqrt'), assumptions=['SUNDIALS calls the functions it is given as documented and solves what they pose; its memory handling is replaced by stand-ins','the step sizes, maximum steps and the proposals of the error estimate are drawn from small sets'])
R27=['no event','event','end']
C('C27', 'The real event locators with an exact solver and event functions that change sign at symbolic instants.',
  SIM('none','c27.cpp',['none','end'],'no search','-DP_LOC=0'),
  SIM('bisection','c27.cpp',R27+['short','moved'],'2 functions, linear with symbolic root in (0,1.5) and 5 slopes, step 1, tolerance 1/8','-DP_LOC=1','tolerance 1/64','-DP_LOC=1 -DP_TOL=0.015625'),
  SIM('bisection_any','c27.cpp',R27+['short','moved'],'2 functions with any value of the right sign at each instant','-DP_LOC=1 -DP_Z=1','tolerance 1/32','-DP_LOC=1 -DP_Z=1 -DP_TOL=0.03125'),
  SIM('linear','c27.cpp',R27+['moved'],'2 functions, linear or bent, 1 slope, step 1, tolerance 1/8','-DP_LOC=2 -DP_SEL=2','5 slopes','-DP_LOC=2'),
  SIM('discontinuous','c27.cpp',R27+['short','moved'],'2 functions with any value of the right sign at each instant','-DP_LOC=3 -DP_Z=1','tolerance 1/64','-DP_LOC=3 -DP_Z=1 -DP_TOL=0.015625'),
  SIM('fast','c27.cpp',R27+['moved'],'2 functions with any value of the right sign at each instant','-DP_LOC=4 -DP_Z=1','tolerance 1/64','-DP_LOC=4 -DP_Z=1 -DP_TOL=0.015625'),
  SIM('fast_bent','c27.cpp',R27+['moved'],'2 functions, linear or bent, 2 slopes','-DP_LOC=4 -DP_SEL=2','5 slopes','-DP_LOC=4'),
  SIM('spline','c27.cpp',R27+['moved'],'fast search with interpolation of a quadratic solution, 2 slopes','-DP_LOC=5 -DP_SEL=2','5 slopes','-DP_LOC=5'),
  *[SIM('end_'+n,'c27.cpp',['no event','end'],'%s: the root is exactly the end of a step of odd length, symbolic slopes'%n,'-DP_LOC=%d -DP_ENDS=1'%k) for n,k in (('bisection',1),('linear',2),('discontinuous',3),('fast',4),('spline',5))],
  *[SIM('tiny_'+n,'c27.cpp',['no event','end'],'%s: event functions that keep their sign, of any size (bit-precise)'%n,'-DP_LOC=%d -DP_Z=2 -DP_NE=1'%k) for n,k in (('bisection',1),('linear',2),('discontinuous',3),('fast',4))],
  assumptions=['the solver is exact and agrees with the end state given','no event function is zero at the start','each function changes sign once'])
C('C28', 'The real spline with symbolic states and slopes.',
  SIM('ends','c28.cpp',['checked','end'],'2 components, any states and slopes, 7 intervals, used a second time','-DP_WHAT=1','3 components','-DP_WHAT=1 -DP_NV=3'),
  SIM('cubic','c28.cpp',['checked','end'],'2 components, any cubic, 7 intervals, 6 points','-DP_WHAT=2','3 components','-DP_WHAT=2 -DP_NV=3'), assumptions=['the interval is one of 0.1, 0.25, 0.5, 1, 2, 3, 4.7'])
R26=['checked','end']
C('C26', 'One step of the real integrators on triangular systems with polynomial solutions, symbolic states and coefficients, compared with the solution.',
  *[SIM(n+'_'+m,'c26.cpp',R26,'%s: %s, %d step sizes, state vector in either order'%(d,t,q),'-DP_INT=%d -DP_SYS=%d -DP_HS=%d %s'%(i,y,q,x+a),'%d step sizes'%h if h>q or a else '','-DP_INT=%d -DP_SYS=%d -DP_HS=%d %s'%(i,y,h,x) if h>q or a else '')
    for n,d,i,x in (('euler','corrected Euler',1,''),('rk45','Runge-Kutta 4/5',2,''),('trap','trapezoidal',3,'-fno-builtin-sqrt'))
    for m,t,y in (('chain','chain of linear equations of the length of the order',1),('time','two polynomials of time of the order',2),('products','products and squares of variables',3))
    for q,h,a in (((2,6,' -DP_ADV=0') if (i,y)==(2,1) else (2,6,'') if i==2 else (5,5,'') if i==3 else (6,6,''),))],
  assumptions=['the steps are 0.3, 0.25, 0.5, 1, 2, 3 (not 0.3 for the trapezoidal integrator)','equality is within 1e-7','variables that are multiplied with one another have concrete values 0, 1, -2'])
C('C33', 'Hybrid models, integrators, event locators and splines are made, used and destroyed; every allocation is tracked by the executor.',
  SIM('mock','c33.cpp',['end'],'hybrid model of mock objects that count their destruction, 0-2 variables and event functions, 2 transitions, deleted directly, by its base or by the simulation','-DP_WHAT=1 -fno-builtin-sqrt','3 transitions','-DP_WHAT=1 -DP_STEPS=3 -fno-builtin-sqrt'),
  SIM('real','c33.cpp',['end'],'hybrid model of every integrator and event locator, 1 transition','-DP_WHAT=2 -DP_STEPS=1 -fno-builtin-sqrt','2 transitions','-DP_WHAT=2 -DP_STEPS=2 -fno-builtin-sqrt'),
  SIM('parts','c33.cpp',['exception','end'],'every integrator and event locator and a spline, with exceptions thrown by the system, destroyed in either order','-DP_WHAT=3 -fno-builtin-sqrt'), assumptions=['allocation does not fail','SUNDIALS is replaced by stand-ins that count what they make'])
R34=['added','removed','updated','next removed','rebuilt','refused','end']
C('C34', 'The real index-based schedule, starting from an arbitrary heap of symbolic time advances, against a list of the active models.',
  SIM('heap','c34.cpp',R34,'any heap of 6 models, any one operation on 7 models, then emptied in order','-DP_N=6','any heap of 7 models','-DP_N=7'),
  SIM('remove','c34.cpp',['end'],'any heap of 7 models, removed one by one from any position','-DP_N=7 -DP_OPS=0 -DP_END=2 -DP_X=0','8 models','-DP_N=8 -DP_OPS=0 -DP_END=2 -DP_X=0'),
  SIM('taken','c34.cpp',['removed','end'],'any heap of 7 models, one removed, then emptied in order','-DP_N=7 -DP_X=0 -DP_MENU=2','any heap of 8 models, removed or updated','-DP_N=8 -DP_X=0 -DP_MENU=6'),
  SIM('history','c34.cpp',R34,'any heap of 4 models, any two operations','-DP_N=4 -DP_OPS=2','any heap of 3 models, any three operations','-DP_N=3 -DP_OPS=3'),
  SIM('again','c34.cpp',R34,'any heap of 4 models, any operation, then updated and removed one by one','-DP_N=4 -DP_END=2','5 models','-DP_N=5 -DP_END=2'),
  SIM('small','c34.cpp',R34,'an empty schedule, any three operations on 2 models','-DP_N=0 -DP_X=2 -DP_OPS=3','four operations on 3 models','-DP_N=0 -DP_X=3 -DP_OPS=4'))
R30=['internal','confluent','external','input at the end of a step','step','event at input','end']
C('C30', 'The real CVODE adapter with a user model that checks every call and whose integration answers (time, event, state) are symbolic.',
  SIM('direct','c30.cpp',R30,'4 transitions, driven as a simulator does','-DP_STEPS=4','5 transitions','-DP_STEPS=5'),
  SIM('simulator','c30.cpp',R30,'in a graph, driven by the simulator with injected input, 3 events','-DP_SIM=1 -DP_STEPS=3','4 events','-DP_SIM=1 -DP_STEPS=4'), assumptions=['the user model implements the integration functions as documented','vectors of SUNDIALS are replaced by stand-ins'])
R31=['event mode','step','end']; I31=dict(inc=['@V/harness/stub'])
C('C31', 'The real FMU wrapper against a stub of the FMI Library whose FMU checks every call against the FMI 2.0 state machine and answers symbolically.',
  SIM('wrapper','c31.cpp',R31+['derivatives','Jacobian','completed','event'],'any 3 calls of the solver interface, 1 state, 1 event indicator','-DP_WHAT=2 -DP_STEPS=3 -DP_NX=1 -DP_AGAIN=0','3 calls, 2 states, 2 indicators, repeated event iteration','-DP_WHAT=2 -DP_STEPS=3 -DP_NX=2 -DP_NZ=2',**I31),
  SIM('wrapper2','c31.cpp',R31+['derivatives','Jacobian','completed','event'],'any 2 calls, 2 states, 2 event indicators, repeated event iteration','-DP_WHAT=2 -DP_STEPS=2 -DP_NZ=2','4 calls, 1 state','-DP_WHAT=2 -DP_STEPS=4 -DP_NX=1 -DP_AGAIN=0',**I31),
  SIM('hybrid','c31.cpp',R31,'in a hybrid model, 2 internal events, repeated event iteration','-DP_WHAT=1 -DP_EXT=0 -DP_NX=1','3 events, 2 states','-DP_WHAT=1 -DP_EXT=0 -DP_NX=2 -DP_STEPS=3',**I31),
  SIM('input','c31.cpp',R31+['external','confluent'],'in a hybrid model with input, 2 events','-DP_WHAT=1 -DP_NX=1 -DP_AGAIN=0','2 states, repeated event iteration','-DP_WHAT=1 -DP_NX=2',**I31),
  SIM('timed','c31.cpp',R31+['external','confluent'],'without event indicators, 2 events with input','-DP_WHAT=1 -DP_NZ=0 -DP_NX=1','3 events','-DP_WHAT=1 -DP_NZ=0 -DP_NX=1 -DP_STEPS=3 -DP_AGAIN=0',**I31),
  SIM('setting','c31.cpp',R31+['external','confluent'],'variables set at events, without event indicators','-DP_WHAT=1 -DP_EXT=2 -DP_NZ=0 -DP_NX=1 -DP_AGAIN=0','with event indicators','-DP_WHAT=1 -DP_EXT=2 -DP_NX=1 -DP_AGAIN=0',**I31),
  SIM('variables','c31.cpp',['end'],'any 2 variables of the five types set and read','-DP_WHAT=3','any 3','-DP_WHAT=3 -DP_STEPS=3',**I31), assumptions=['the FMI Library is replaced by a stub that follows its documentation','the FMU keeps to FMI 2.0','variables exist in the FMU and are set with values of their type'])
