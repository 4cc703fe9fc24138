# What is built and run for every property.  One entry of BUILDS is one binary; a part runs one binary with some
# arguments for a number of cases (quick, thorough), split over processes.
ASAN = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
TSAN = ['-O1', '-g', '-fsanitize=thread']
PLAIN = ['-O1', '-g']
AH = ['-DBOOST_ENABLE_ASSERT_HANDLER']
NOVAR = ['-DBOOST_NO_CXX11_VARIADIC_TEMPLATES']
DBG = ['-D_GLIBCXX_DEBUG']
# the code for compilers of C++03: no variadic templates, no rvalue references (and no std smart pointers)
OLD = NOVAR + ['-DBOOST_NO_CXX11_RVALUE_REFERENCES']


def B(src, cxx, std, flags, cost=10, more=()):
    return {'src': src, 'cxx': cxx, 'std': std, 'flags': flags + AH, 'cost': cost, 'more': list(more)}


LINK = ['link_1.cpp', 'link_2.cpp', 'link_3.cpp', 'link_4.cpp']
BUILDS = {
    # sequential model-based engine in seven configurations
    'seqA': B('seq.cpp', 'g++', 'c++17', ASAN + DBG, 40),
    'seqB': B('seq.cpp', 'g++', 'c++17', ASAN + NOVAR + ['-DCFG_GROUP=1'], 35),
    'seqC': B('seq.cpp', 'g++', 'c++11', ['-O2', '-g0', '-DCFG_VOID=1', '-DCFG_DEFCOMB=1', '-DCFG_GROUP=2', '-DCFG_MUTEX=1'], 25),
    'seqD': B('seq.cpp', 'clang++', 'c++20', ASAN + ['-DCFG_DEFCOMB=1', '-DCFG_GROUP=1'], 30),
    'seqE': B('seq.cpp', 'clang++', 'c++20', ASAN + ['-DCFG_MUTEX=2', '-DCFG_GROUP=2'], 30),
    'seqN': B('seq.cpp', 'clang++', 'c++14', ['-O1', '-g0', '-DCFG_DEFCOMB=1'] + NOVAR, 25),
    # fault injection, churn and combiner engines
    'faultP': B('fault.cpp', 'g++', 'c++17', PLAIN, 15),
    'faultA': B('fault.cpp', 'g++', 'c++17', ASAN + DBG, 25),
    'faultN': B('fault.cpp', 'g++', 'c++11', ASAN + NOVAR, 25),
    'churnP': B('churn.cpp', 'g++', 'c++17', PLAIN, 12),
    'churnN': B('churn.cpp', 'clang++', 'c++11', ['-O1', '-g'] + NOVAR, 12),
    'combsA1': B('combs.cpp', 'g++', 'c++17', ['-O0'] + ASAN[1:] + DBG + ['-DCFG_PART=1'], 40),
    'combsA2': B('combs.cpp', 'g++', 'c++17', ['-O0'] + ASAN[1:] + DBG + ['-DCFG_PART=2'], 40),
    'combsN': B('combs.cpp', 'clang++', 'c++14', ['-O1', '-g0'] + NOVAR, 30),
    'handlesA': B('handles.cpp', 'g++', 'c++17', ASAN + DBG, 25),
    'handlesM': B('handles.cpp', 'clang++', 'c++11', ['-O1', '-g0', '-DCFG_MUTEX=1'] + NOVAR, 15),
    'ownA': B('own.cpp', 'g++', 'c++17', ASAN + DBG, 20),
    'ownN': B('own.cpp', 'clang++', 'c++11', ['-O1', '-g0', '-DCFG_MUTEX=1'] + NOVAR, 12),
    'deconA': B('decon.cpp', 'clang++', 'c++17', ['-O0'] + ASAN[1:], 30),
    'deconN': B('decon.cpp', 'g++', 'c++11', ['-O0', '-g1'] + NOVAR, 13),
    'slotsA': B('slots.cpp', 'g++', 'c++17', ['-O0'] + ASAN[1:] + DBG, 30),
    'slotsN': B('slots.cpp', 'clang++', 'c++11', ['-O1', '-g0'] + NOVAR, 20),
    'trkA': B('slots.cpp', 'clang++', 'c++17', ['-O0'] + ASAN[1:] + ['-DCFG_TRACKABLE=1'], 30),
    'trkN': B('slots.cpp', 'g++', 'c++11', ['-O1', '-g0', '-DCFG_TRACKABLE=1'] + NOVAR, 20),
    # arities and signatures (every part has all arities), mutex types, real threads
    'ar0': B('arity.cpp', 'clang++', 'c++20', ['-O0'] + ASAN[1:] + ['-DCFG_PART=0', '-DCFG_PARTS=5'], 45),
    'ar1N': B('arity.cpp', 'clang++', 'c++14', ['-O0', '-g0', '-DCFG_PART=1', '-DCFG_PARTS=5'] + NOVAR, 30),
    'ar2': B('arity.cpp', 'g++', 'c++11', ['-O0', '-g0', '-DCFG_PART=2', '-DCFG_PARTS=5'], 40),
    'ar3N': B('arity.cpp', 'clang++', 'c++20', ['-O0', '-g0', '-DCFG_PART=3', '-DCFG_PARTS=5'] + NOVAR, 30),
    'ar4': B('arity.cpp', 'g++', 'c++23', ['-O1', '-g0', '-DCFG_PART=4', '-DCFG_PARTS=5'], 40),
    'ar4N': B('arity.cpp', 'g++', 'c++17', ['-O0'] + ASAN[1:] + ['-DCFG_PART=4', '-DCFG_PARTS=5'] + NOVAR, 45),
    'ar0N': B('arity.cpp', 'g++', 'c++17', ['-O0', '-g0', '-DCFG_PART=0', '-DCFG_PARTS=5'] + NOVAR, 40),
    'ar1': B('arity.cpp', 'g++', 'c++14', ['-O0', '-g0', '-DCFG_PART=1', '-DCFG_PARTS=5'], 40),
    'ar2N': B('arity.cpp', 'clang++', 'c++11', ['-O0', '-g0', '-DCFG_PART=2', '-DCFG_PARTS=5'] + NOVAR, 30),
    'ar3': B('arity.cpp', 'clang++', 'c++17', ['-O0', '-g0', '-DCFG_PART=3', '-DCFG_PARTS=5'], 30),
    'seqF': B('seq.cpp', 'g++', 'c++14', ['-O1', '-g0', '-DBOOST_DISABLE_THREADS', '-DCFG_MUTEX=1', '-DCFG_DEFCOMB=1'], 25),
    'seqO': B('seq.cpp', 'g++', 'c++11', ['-O1', '-g0'] + OLD, 25),
    'seqT': B('seq.cpp', 'clang++', 'c++17', ['-O1', '-g0', '-DBOOST_NO_CXX11_HDR_TUPLE', '-DCFG_GROUP=2'], 25),
    'handlesO': B('handles.cpp', 'g++', 'c++11', ['-O1', '-g0'] + OLD, 15),
    'slotsO': B('slots.cpp', 'g++', 'c++11', ['-O0'] + ASAN[1:] + OLD, 30),
    'trkO': B('slots.cpp', 'clang++', 'c++11', ['-O1', '-g0', '-DCFG_TRACKABLE=1'] + OLD, 20),
    'deconO': B('decon.cpp', 'g++', 'c++11', ['-O0', '-g1'] + OLD, 15),
    'arO0': B('arity.cpp', 'g++', 'c++11', ['-O0', '-g0', '-DCFG_PART=0', '-DCFG_PARTS=5'] + OLD, 40),
    'arO1': B('arity.cpp', 'clang++', 'c++11', ['-O0', '-g0', '-DCFG_PART=1', '-DCFG_PARTS=5'] + OLD, 40),
    'arO2': B('arity.cpp', 'g++', 'c++14', ['-O0', '-g0', '-DCFG_PART=2', '-DCFG_PARTS=5'] + OLD, 40),
    'arO3': B('arity.cpp', 'clang++', 'c++17', ['-O0', '-g0', '-DCFG_PART=3', '-DCFG_PARTS=5'] + OLD, 40),
    'arO4': B('arity.cpp', 'g++', 'c++11', ['-O0', '-g0', '-DCFG_PART=4', '-DCFG_PARTS=5'] + OLD, 40),
    'linkO': B('link.cpp', 'g++', 'c++11', ['-O0', '-g0', '-DLK_SET=1', '-DBOOST_NO_CXX11_SMART_PTR'] + OLD, 15, LINK),
    # for memcheck: not optimised, because optimised code may look at uninitialised values without depending on them
    'seqV': B('seq.cpp', 'g++', 'c++17', ['-O0', '-g1'], 20),
    'faultV': B('fault.cpp', 'g++', 'c++17', ['-O0', '-g1'], 12),
    'slotsV': B('slots.cpp', 'g++', 'c++11', ['-O0', '-g1'] + NOVAR, 15),
    'handlesV': B('handles.cpp', 'g++', 'c++14', ['-O0', '-g1'], 12),
    'mutT': B('mutexes.cpp', 'g++', 'c++17', TSAN, 20),
    'mutP': B('mutexes.cpp', 'clang++', 'c++20', ['-O2', '-g'], 15),
    'mutA': B('mutexes.cpp', 'clang++', 'c++14', ASAN, 20),
    'stressP': B('stress.cpp', 'g++', 'c++17', ['-O2', '-g'], 15),
    'stressT': B('stress.cpp', 'clang++', 'c++17', TSAN + ['-DCFG_TSAN=1'], 15),
    'stressA': B('stress.cpp', 'clang++', 'c++20', ASAN, 20),
    # large sizes
    'scaleP': B('scale.cpp', 'g++', 'c++17', PLAIN, 12),
    'scaleN': B('scale.cpp', 'clang++', 'c++11', ['-O1', '-g0'] + NOVAR, 10),
    'scaleA': B('scale.cpp', 'g++', 'c++17', ASAN, 20),
    # cost of operations in basic blocks executed
    'costP': B('cost.cpp', 'g++', 'c++17', ['-O1', '-g', '-fsanitize-coverage=trace-pc'], 10),
    'costN': B('cost.cpp', 'clang++', 'c++11', ['-O1', '-g', '-fsanitize-coverage=trace-pc', '-DCFG_MUTEX=1'] + NOVAR, 10),
    # programs of several translation units
    'link1': B('link.cpp', 'g++', 'c++17', ['-O0', '-g0', '-DLK_SET=1', '-fno-rtti'], 15, LINK),
    'link2': B('link.cpp', 'clang++', 'c++11', ['-O0', '-g0', '-DLK_SET=2', '-DBOOST_SIGNALS2_MAX_ARGS=4'] + NOVAR, 15, LINK),
    'link3': B('link.cpp', 'clang++', 'c++20', ASAN + ['-DLK_SET=3'], 35, LINK),
    # concurrent engine (deterministic scheduler)
    'schedP': B('sched.cpp', 'g++', 'c++17', PLAIN, 20),
    'schedA': B('sched.cpp', 'clang++', 'c++17', ASAN, 25),
    'schedT': B('sched.cpp', 'g++', 'c++17', TSAN, 25),
}


def P(name, build, cases, args=(), **kw):
    d = {'name': name, 'build': build, 'cases': cases, 'args': list(args)}
    d.update(kw)
    return d


def M(build, cases, args=()):  # under valgrind's memcheck
    return P(build + '/memcheck', build, cases, args, memcheck=True, seedoff=11, hang_case=200)


def W(**kw):  # weights of the operations of the sequential engine
    ops = ['connect', 'emit', 'dh', 'dg', 'da', 'df', 'obj', 'block', 'scoped', 'handle', 'signal', 'sigslot', 'slotobj']
    base = dict(zip(ops, DEFW))
    base.update(kw)
    return '--weights=' + ','.join(str(base[o]) for o in ops)


DEFW = [30, 16, 10, 2, 1, 2, 6, 6, 5, 5, 3, 3, 3]

RULE_SEQ = ('A case is a pseudo-random program over signals, slots of all kinds, groups, blocks, handles and tracked objects '
            'whose slots run further operations while being called; every observable result is compared with a reference model. '
            'Non-trivial: it makes at least two slot calls; distinct: by the hash of everything observed.')
RULE_SCHED = ('A concurrent case is 2-4 threads of random operations under a seeded deterministic scheduler that decides at every '
              'lock operation and at every entry and exit of user code; the recorded history is checked offline. '
              'Non-trivial: at least two slot calls and ten scheduling decisions; distinct: by schedule and call history.')
RULE_FAULT = ('A case is a pseudo-random program of which one operation is run with a fault at its 1st, 2nd, 3rd, ... fault point (allocation, '
              'copy of slot function or group, group or function comparison, slot, combiner) until it completes without one; after each, contents, '
              'order, handles and heap are compared with the model. Non-trivial: at least one fault was injected; distinct: by program and fault point.')
RULE_CHURN = ('A case runs thousands of connect/disconnect/emit rounds of one randomly chosen pattern with a bounded number of live slots and measures '
              'the heap; distinct: by pattern and observed sizes.')
RULE_COMBS = ('A case drives one of 34 result-type/combiner combinations over a random slot list; the sequence of slot calls, results and '
              'exceptions is compared with a model. Non-trivial: at least two slot calls; distinct: by calls and results.')
RULE_HANDLES = ('A case is a random program over pools of connections, scoped connections and blocks (also in containers and from within '
                'slots); state, order and equality of the handles, counts and live function objects are compared with a model after every operation. '
                'Non-trivial: more than two links; distinct: by the sequence of operations and calls.')
RULE_OWN = ('An ownership case is a random program over trees of objects with signals, connections, scoped connections, blocks and slot objects which are owned by the function objects of '
            'connected slots and slot objects; assignments, moves, swaps, disconnections and invocations get references to what they may destroy, and destructors run operations; connected(), counts, '
            'calls, order and the life of every object are compared with a model after every operation. Non-trivial: more than three links; distinct: by operations and calls.')
RULE_DECON = ('A case makes 1-6 objects of generated layouts and hook combinations with 0-9 constructor and post-construction arguments of every value '
              'category, with throwing hooks and a failure at every allocation and user-code point, then releases owners in random order; a monitor '
              'follows the life of every object. Non-trivial: at least two objects; distinct: by types, argument counts and life histories.')
RULE_SLOTS = ('A case is a random program over slots built in 28 to 34 forms (functions, function objects, binds over tracked objects, signals, '
              'extended, copied, assigned and converted slots), called directly, connected, locked and destroyed while being called, in one case of eight with tracked objects whose last owner goes away whenever the library asks about them; number of calls, '
              'arguments, results, expiry, tracked objects and live function objects are compared with a model. Non-trivial: at least two connections; '
              'distinct: by the sequence of operations.')
RULE_STRESS = ('A stress case is 2-4 real threads running random operations on shared signals with signals2::mutex or std::mutex; '
               'operations and slot calls are recorded with stamps of one counter and the history is checked when the threads have ended (ThreadSanitizer build: races only). '
               'Distinct: by the order of recorded events.')
RULE_ARITY = ('A case runs one of 51 generated signatures (0-9 parameters of 30 kinds, 16 kinds of result, 4 configurations of the class template) or one of 7 hand-written groups of uses; '
              'every argument is compared by value and address, every result with what the slot returned, every published type with the signature. Distinct: by arguments and calls observed.')
RULE_SCALE = ('A scale case draws one of eight scenarios (slots and groups, tracked objects, blocks, nested invocations with exceptions and disconnections at the deepest, rounds on one signal, '
              'signals in a chain or fan, slots removed at once) and its sizes up to 6000 slots, 3000 tracked objects, 4000 blocks, 700 nested invocations, 140000 rounds, skewed to powers of two and buffer '
              'sizes, and compares calls, order, results, counts and live function objects with a model. Distinct: by scenario and sizes.')
RULE_COST = ('A cost case draws one of 18 patterns (connects into sections and groups, churn, invocations with blocked, dead and expired slots, removals by every route, handles, connects and disconnects '
             'during invocations, chains, many tracked objects or blocks, mixtures ...) and runs it with 32-95 slots and with 24-63 times as many; the basic blocks executed, group comparisons, copies of slot '
             'functions and bytes allocated per unit of documented cost must not grow by more than a factor of 4 (and a logarithm where a group map is involved). Counts are deterministic; no clock is used. '
             'Distinct: by pattern and counts.')
RULE_LINK = ('A link case is a random program whose operations are done by four translation units on each other\'s signals, slots, handles and objects, compared with a model '
             '(every unit includes another public header first; one build without RTTI, one with preprocessed classes of at most 4 parameters). Distinct: by operations and calls.')
RULE_MUTEX = ('A case is one of: threads contending for a mutex with lock and try_lock over plain data, try_lock of a free/held mutex, hand-over, message passing, destruction by the last user, '
              'standard lock wrappers, dummy_mutex, one random program over nine Lockable types compared with each other, threads on a signal with a monitored mutex. '
              'Distinct: by interleaving of critical sections or results of the program.')
ASSUMPTIONS = [
    'held on the executions produced by the seeded generators only; nothing is said about other programs and schedules',
    'the installed Boost 1.83, libstdc++ and compilers behave as documented',
    'boost/core/invoke_swap.hpp (absent from the installed Boost) is replaced by /verif/shim',
]

CHECKS = {}


# how many times the quick numbers given below are run (building takes longer than running them once)
SCALE = {'C08': 6, 'C10': 2, 'C11': 1, 'C12': 2, 'C13': 2, 'C19': 12, 'C20': 2, 'C21': 2, 'C22': 2, 'C15': 4, 'C23': 4}


RULES = {'seq.cpp': RULE_SEQ, 'sched.cpp': RULE_SCHED, 'fault.cpp': RULE_FAULT, 'churn.cpp': RULE_CHURN, 'combs.cpp': RULE_COMBS, 'handles.cpp': RULE_HANDLES, 'decon.cpp': RULE_DECON, 'own.cpp': RULE_OWN,
         'slots.cpp': RULE_SLOTS, 'stress.cpp': RULE_STRESS, 'arity.cpp': RULE_ARITY, 'mutexes.cpp': RULE_MUTEX, 'link.cpp': RULE_LINK, 'scale.cpp': RULE_SCALE, 'cost.cpp': RULE_COST}


def check(prop, parts, rule, level='exploration', **kw):
    for p in parts:
        r = RULES[BUILDS[p['build']]['src']]
        if r not in rule:
            rule += ' ' + r
    for p in parts:
        p['cases'] = (p['cases'][0] * SCALE.get(prop, 4), p['cases'][1])
    CHECKS[prop] = dict(parts=parts, rule=rule, level=level, **kw)


R2 = RULE_SEQ + ' ' + RULE_SCHED
def SCHED():
    return [P('schedP', 'schedP', (60000, 4000000))]



# other workloads which can refute the property too, in smaller doses: what they do differs, so do the bugs they meet
MORE = {
    'C01': [P('scaleP+', 'scaleP', (2000, 80000), seedoff=7), P('combsN+', 'combsN', (2000, 60000), seedoff=7), P('ar2+', 'ar2', (2500, 80000), seedoff=7), P('slotsN+', 'slotsN', (3000, 100000), seedoff=7), P('handlesM+', 'handlesM', (1500, 60000), seedoff=7)],
    'C02': [P('scaleN+', 'scaleN', (2000, 80000), seedoff=7), P('seqN+', 'seqN', (3000, 100000), seedoff=7), P('stressP+', 'stressP', (8000, 400000), nondet=True, shards=4, seedoff=7)],
    'C03': [P('ownN+', 'ownN', (2500, 100000), seedoff=7), P('scaleP+', 'scaleP', (2000, 80000), seedoff=7), P('stressP+', 'stressP', (8000, 400000), nondet=True, shards=4, seedoff=7), P('faultP+', 'faultP', (2000, 80000), seedoff=7)],
    'C04': [P('ownN+', 'ownN', (2500, 100000), seedoff=7), P('scaleN+', 'scaleN', (2000, 80000), seedoff=7), P('handlesM+', 'handlesM', (2500, 80000), seedoff=7), P('stressP+', 'stressP', (8000, 400000), nondet=True, shards=4, seedoff=7), P('combsN+', 'combsN', (1000, 40000), seedoff=7), P('ar2+', 'ar2', (1500, 50000), seedoff=7)],
    'C05': [P('scaleP+', 'scaleP', (2000, 80000), seedoff=7), P('handlesM+', 'handlesM', (2500, 80000), seedoff=7), P('stressP+', 'stressP', (8000, 400000), nondet=True, shards=4, seedoff=7), P('combsN+', 'combsN', (1000, 40000), seedoff=7)],
    'C06': [P('scaleN+', 'scaleN', (2000, 80000), seedoff=7), P('trkN+', 'trkN', (4000, 150000), seedoff=7), P('combsN+', 'combsN', (1000, 40000), seedoff=7), P('faultP+', 'faultP', (1500, 60000), seedoff=7)],
    'C07': [P('ownA+', 'ownA', (500, 40000), seedoff=7), P('ownN+', 'ownN', (2500, 100000), seedoff=8), P('scaleP+', 'scaleP', (2000, 80000), seedoff=7), P('faultP+', 'faultP', (2000, 80000), seedoff=7), P('handlesM+', 'handlesM', (2000, 80000), seedoff=7), P('stressP+', 'stressP', (8000, 400000), nondet=True, shards=4, seedoff=7), P('seqC+', 'seqC', (3000, 100000), seedoff=7)],
    'C09': [P('mutP+', 'mutP', (2500, 100000), nondet=True, shards=4, seedoff=7), P('slotsN+', 'slotsN', (2000, 80000), seedoff=7), P('stressP+', 'stressP', (8000, 400000), nondet=True, shards=4, seedoff=7)],
    'C11': [P('mutP+', 'mutP', (6000, 200000), nondet=True, shards=4, seedoff=7)],
    'C14': [P('faultP+', 'faultP', (2000, 80000), seedoff=7), P('ar1N+', 'ar1N', (2500, 80000), seedoff=7), P('seqN+', 'seqN', (2000, 60000), seedoff=7)],
    'C15': [P('ownA+', 'ownA', (500, 40000), seedoff=7), P('handlesO+', 'handlesO', (2000, 80000), seedoff=7), P('schedP+', 'schedP', (30000, 1000000), seedoff=7), P('link1+', 'link1', (1500, 60000), seedoff=7)],
    'C16': [P('ownA+', 'ownA', (500, 40000), seedoff=7), P('scaleP+', 'scaleP', (2000, 80000), seedoff=7), P('seqN+', 'seqN', (3000, 100000), [W(signal=10, sigslot=14)], seedoff=7), P('ar2+', 'ar2', (1500, 50000), seedoff=7)],
    'C17': [P('seqO+', 'seqO', (1500, 60000), seedoff=7), P('seqN+', 'seqN', (3000, 100000), seedoff=7), P('faultP+', 'faultP', (1500, 60000), seedoff=7), P('ar1N+', 'ar1N', (2500, 80000), seedoff=7), P('ar4+', 'ar4', (2500, 80000), seedoff=7)],
    'C18': [P('ownN+', 'ownN', (2500, 100000), seedoff=7), P('slotsO+', 'slotsO', (1000, 60000), seedoff=7), P('scaleP+', 'scaleP', (1000, 60000), seedoff=7), P('ar1N+', 'ar1N', (2500, 80000), seedoff=7), P('ar4+', 'ar4', (2500, 80000), seedoff=7)],
    'C22': [P('ownA+', 'ownA', (2000, 100000), seedoff=7), P('scaleA+', 'scaleA', (1200, 50000), seedoff=7), P('ar4N+', 'ar4N', (2500, 80000), seedoff=7), P('link3+', 'link3', (1000, 40000), seedoff=7), P('mutA+', 'mutA', (1500, 60000), nondet=True, shards=4, seedoff=7), P('churnP+', 'churnP', (200, 10000), seedoff=7), P('faultN+', 'faultN', (1000, 60000), seedoff=7)],
    'C12': [P('scaleN+', 'scaleN', (1500, 60000), seedoff=7)],
    'C23': [P('trkO+', 'trkO', (2500, 80000), seedoff=7), P('seqA+', 'seqA', (1000, 30000), seedoff=7)],
}

check('C01', MORE['C01'] + [P('seqA', 'seqA', (3000, 100000)), P('seqC', 'seqC', (6000, 200000)), P('seqN', 'seqN', (4000, 150000), seedoff=5)] + SCHED(), R2, min_distinct=2000)
check('C02', MORE['C02'] + [P('seqA', 'seqA', (2000, 60000), [W(connect=45, dg=8, handle=1, block=2, scoped=1)]),
              P('seqB', 'seqB', (2000, 60000), [W(connect=45, dg=6, handle=1, block=2)]),
              P('seqC', 'seqC', (6000, 200000), [W(connect=45, dg=6)])] + SCHED(), R2, min_distinct=2000)
check('C03', MORE['C03'] + [P('seqA', 'seqA', (3000, 100000), [W(emit=22, signal=5)]), P('seqE', 'seqE', (3000, 100000)), P('seqN', 'seqN', (4000, 150000), [W(emit=22, signal=5)], seedoff=5),
              P('schedP', 'schedP', (60000, 2000000))], R2, min_distinct=2000)
check('C04', MORE['C04'] + [P('seqA', 'seqA', (3000, 100000), [W(dh=14, dg=6, da=2, df=8, scoped=8, signal=5)]),
              P('seqC', 'seqC', (6000, 200000), [W(dh=14, dg=6, da=2, df=8, scoped=8, signal=5)]), P('seqN', 'seqN', (4000, 150000), [W(dh=14, dg=6, da=2, df=8, scoped=8, signal=5)], seedoff=5)] + SCHED(), R2, min_distinct=2000)
check('C05', MORE['C05'] + [P('seqA', 'seqA', (3000, 100000), [W(block=30)]), P('seqC', 'seqC', (6000, 200000), [W(block=30)]), P('seqN', 'seqN', (4000, 150000), [W(block=30)], seedoff=5)] + SCHED(), R2, min_distinct=2000)
check('C06', MORE['C06'] + [P('seqA', 'seqA', (3000, 100000), [W(obj=25, slotobj=8)]), P('seqD', 'seqD', (3000, 100000), [W(obj=25, slotobj=8)]), P('slotsA', 'slotsA', (6000, 200000), seedoff=2), P('seqN', 'seqN', (4000, 150000), [W(obj=25, slotobj=8)], seedoff=5)] + SCHED(), R2 + ' ' + RULE_SLOTS, min_distinct=2000)
check('C07', MORE['C07'] + [P('seqA', 'seqA', (3000, 100000)), P('seqE', 'seqE', (3000, 100000)), P('seqN', 'seqN', (4000, 150000), seedoff=5),
              P('schedA', 'schedA', (15000, 600000))], R2, min_distinct=2000)
check('C09', MORE['C09'] + [P('seqA', 'seqA', (2000, 60000)), P('schedP', 'schedP', (100000, 6000000), seedoff=3),
              P('faultP', 'faultP', (8000, 300000), seedoff=4)], R2 + ' ' + RULE_FAULT, min_distinct=2000)
check('C10', [P('schedT', 'schedT', (16000, 600000)), P('stressT', 'stressT', (12000, 500000), nondet=True, shards=4), P('crowdT', 'mutT', (1000, 40000), ['--only=crowd'], nondet=True, shards=4)],
      RULE_SCHED + ' ' + RULE_STRESS, min_distinct=2000)
check('C11', MORE['C11'] + [P('schedP', 'schedP', (150000, 8000000)), P('schedA', 'schedA', (15000, 600000), seedoff=1),
              P('stressP', 'stressP', (40000, 2000000), nondet=True, shards=4), P('stressA', 'stressA', (8000, 400000), nondet=True, shards=4, seedoff=1)], RULE_SCHED + ' ' + RULE_STRESS, min_distinct=10000)
check('C16', MORE['C16'] + [P('seqA', 'seqA', (3000, 100000), [W(signal=10, sigslot=14)]), P('seqB', 'seqB', (2000, 60000), [W(signal=10, sigslot=14)])] + SCHED(), R2, min_distinct=2000)
check('C17', MORE['C17'] + [P('seqA', 'seqA', (3000, 100000)), P('seqB', 'seqB', (2000, 60000))] + SCHED(), R2, min_distinct=2000)
check('C22', MORE['C22'] + [P('seqA', 'seqA', (3000, 150000)), P('seqB', 'seqB', (2000, 60000)), P('seqE', 'seqE', (2000, 60000)),
              P('schedA', 'schedA', (10000, 600000)), P('faultA', 'faultA', (1500, 100000), seedoff=1), P('slotsA', 'slotsA', (5000, 200000), seedoff=1),
              P('handlesA', 'handlesA', (2000, 100000), seedoff=1), P('trkA', 'trkA', (3000, 100000), seedoff=1), P('combsA1', 'combsA1', (1000, 50000), seedoff=1),
              P('deconA', 'deconA', (2000, 100000), seedoff=1), P('stressA', 'stressA', (3000, 200000), nondet=True, shards=4, seedoff=1),
              M('seqV', (500, 40000)), M('faultV', (250, 20000)), M('slotsV', (600, 40000)), M('handlesV', (600, 40000)), M('deconN', (600, 40000))],
      ' '.join([R2, RULE_FAULT, RULE_SLOTS, RULE_HANDLES, RULE_COMBS, RULE_DECON, RULE_STRESS]), min_distinct=2000)

check('C08', [P('churnP', 'churnP', (2000, 100000)), P('churnN', 'churnN', (1000, 50000), seedoff=1)], RULE_CHURN, min_distinct=500)
check('C12', MORE['C12'] + [P('faultP-emit', 'faultP', (20000, 800000), ['--focus=13']), P('faultA-emit', 'faultA', (4000, 150000), ['--focus=13'], seedoff=1),
              P('faultN-emit', 'faultN', (3000, 150000), ['--focus=13'], seedoff=2), P('seqA', 'seqA', (2000, 60000), [W(emit=24)]), P('seqD', 'seqD', (1500, 50000), [W(emit=24)], seedoff=1),
              P('combsA2', 'combsA2', (1500, 50000), seedoff=2), P('combsN', 'combsN', (5000, 150000), seedoff=3)],
      RULE_FAULT + ' ' + RULE_SEQ + ' ' + RULE_COMBS, level='fault_enumeration', min_distinct=2000)
check('C13', [P('faultP', 'faultP', (20000, 800000)), P('faultA', 'faultA', (5000, 200000), seedoff=1), P('faultN', 'faultN', (4000, 150000), seedoff=2)],
      RULE_FAULT, level='fault_enumeration', min_distinct=2000)
check('C14', MORE['C14'] + [P('combsA1', 'combsA1', (3000, 100000)), P('combsA2', 'combsA2', (3000, 100000)), P('combsN', 'combsN', (8000, 200000), seedoff=1), P('seqA', 'seqA', (1500, 50000)), P('schedP', 'schedP', (30000, 1000000))],
      RULE_COMBS + ' ' + R2, min_distinct=2000)

check('C15', MORE['C15'] + [P('handlesA', 'handlesA', (6000, 250000)), P('handlesM', 'handlesM', (16000, 600000), seedoff=1),
              P('seqA', 'seqA', (1500, 50000), [W(handle=25, scoped=25)])], RULE_HANDLES + ' ' + RULE_SEQ, min_distinct=2000)
check('C19', [P('deconA', 'deconA', (8000, 400000)), P('deconN', 'deconN', (16000, 800000), seedoff=1), P('deconO', 'deconO', (3000, 200000), seedoff=2)], RULE_DECON, level='fault_enumeration', min_distinct=2000)
check('C18', MORE['C18'] + [P('slotsA', 'slotsA', (15000, 400000)), P('slotsN', 'slotsN', (40000, 1000000), seedoff=1),
              P('seqA', 'seqA', (1500, 50000), [W(slotobj=25)])], RULE_SLOTS + ' ' + RULE_SEQ, min_distinct=2000)
check('C23', MORE['C23'] + [P('trkA', 'trkA', (20000, 400000)), P('trkN', 'trkN', (60000, 1000000), seedoff=1)], RULE_SLOTS, min_distinct=2000)
check('C20', [P('mutT', 'mutT', (6000, 300000), ['--only=mutex'], nondet=True, tsan_own=True, shards=4), P('mutP', 'mutP', (20000, 1000000), nondet=True, shards=4, seedoff=1),
              P('mutA', 'mutA', (4000, 200000), nondet=True, shards=4, seedoff=2), P('seqA', 'seqA', (1000, 30000)), P('schedP', 'schedP', (30000, 1000000))],
      RULE_MUTEX + ' ' + R2, min_distinct=1000)
check('C24', [P('costP', 'costP', (2000, 60000)), P('costN', 'costN', (2000, 60000), seedoff=1)], RULE_COST, min_distinct=1000)
ARQ = ['ar0', 'ar1N', 'ar2', 'ar3N', 'ar4', 'ar4N']
check('C21', [P(b, b, (10000, 400000)) for b in ARQ] + [P(b, b, (4000, 200000), tiers=('thorough',)) for b in ['ar0N', 'ar1', 'ar2N', 'ar3']] +
      [P(b, b, (1500, 60000)) for b in ['seqB', 'seqC', 'seqD', 'seqE', 'seqF']] +
      [P(b, b, (2000, 80000), seedoff=i) for i, b in enumerate(['link1', 'link2', 'link3', 'linkO'])] +
      [P('seqO', 'seqO', (1500, 60000)), P('seqT', 'seqT', (1500, 60000)), P('handlesO', 'handlesO', (2500, 80000)), P('slotsO', 'slotsO', (1500, 60000)), P('trkO', 'trkO', (3000, 80000)),
       P('deconO', 'deconO', (3000, 100000)), P('arO0', 'arO0', (5000, 100000)), P('arO3', 'arO3', (5000, 100000))] +
      [P(b, b, (4000, 100000), tiers=('thorough',)) for b in ['arO1', 'arO2', 'arO4']], ' '.join([RULE_ARITY, RULE_SEQ, RULE_LINK]), min_distinct=2000, compile_is_violation=True)

TECHNIQUE = {
    'arity.cpp': 'generated signatures in several build configurations, every argument, result and type checked by recording slots',
    'mutexes.cpp': 'real threads contending for the mutex types under ThreadSanitizer; random programs compared between mutex types',
    'stress.cpp': 'histories of real threads checked offline; ThreadSanitizer',
    'slots.cpp': 'random programs over slot objects and trackable objects compared with a model',
    'handles.cpp': 'random programs over pools of handles compared with a model of links and ownership',
    'own.cpp': 'random programs over trees of objects owned by slots, with operations on what they destroy, compared with a model of links and owners; ASan/UBSan',
    'decon.cpp': 'life-cycle monitor of every object made through deconstruct, with enumerated failure points',
    'fault.cpp': 'every allocation and user-operation failure point of an operation enumerated on identical programs, state compared with a model',
    'churn.cpp': 'counted heap under connect/disconnect/emit churn compared with a bound',
    'combs.cpp': 'scripted combiners over generated slot lists compared with a model',
    'link.cpp': 'random programs of four translation units compared with a model, without RTTI, with preprocessed classes, under ASan/UBSan',
    'cost.cpp': 'work of random patterns of operations in two sizes, counted in basic blocks, comparisons, copies and bytes, compared per unit of documented cost',
    'scale.cpp': 'scenarios of up to thousands of slots, groups, tracked objects, blocks and nested invocations compared with a model',
    'seq.cpp': 'random reentrant programs compared with a reference model, under ASan/UBSan/libstdc++ debug mode',
    'sched.cpp': 'concurrent histories under a seeded deterministic scheduler, checked offline (TSan/ASan builds)',
}
NOT_APPLICABLE = {}
