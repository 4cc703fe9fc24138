#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl).
import json
ST='include/boost/signals2/detail/signal_template.hpp'
IT='include/boost/signals2/detail/slot_call_iterator.hpp'
CO='include/boost/signals2/connection.hpp'
SG='include/boost/signals2/detail/slot_groups.hpp'
SB='include/boost/signals2/slot_base.hpp'
SL='include/boost/signals2/detail/slot_template.hpp'
FP='include/boost/signals2/detail/foreign_ptr.hpp'
BL='include/boost/signals2/shared_connection_block.hpp'
VI='include/boost/signals2/detail/variadic_slot_invoker.hpp'
TV='include/boost/signals2/detail/tracked_objects_visitor.hpp'
TR='include/boost/signals2/trackable.hpp'
AB='include/boost/signals2/detail/auto_buffer.hpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p('C01','Each emission calls every callable slot exactly once with the given arguments',
 'When a signal is invoked, every slot that is connected, unblocked and unexpired for the whole invocation is called exactly once in that invocation, no other slot is called, and nothing is dropped or repeated (unless an exception leaves the invocation or the combiner stops early). Each slot receives the argument values (or the very objects, for references) the caller passed, unaffected by what other slots do with their copies.',
 ['histories','inputs'],'over every history of connect, disconnect, block, group and track operations (including nested and recursive invocations) that precedes or accompanies an invocation, and over argument values and categories',
 'The tests emit a handful of times on lists of two to ten slots built by straight-line code; none mixes histories long enough to exercise the incremental cleanup of dead slots, list copies made during emission, or cached positions.',
 [ST,IT,SG,VI],[('slot call iterator skips dead entries and caches one call per position',IT+' lock_next_callable/dereference'),('incremental and forced cleanup of the slot list',ST+' nolock_cleanup_connections*'),('argument forwarding to each slot',VI)],
 ['slot function entry','return value of the emission'])
p('C02','Slots run in group order, and in connect-position order inside a group',
 'In every invocation slots run in this order: ungrouped slots connected at front, then grouped slots in the order of the group comparison, then ungrouped slots connected at back; inside each of these, a slot connected at back runs after, and one connected at front runs before, all slots of its (equivalent) group that were connected earlier. This holds after any history of connects, disconnects (single, by group, all), expiries and invocations, and for any strict weak ordering on the group type.',
 ['histories','inputs'],'over every interleaved history of connects at either position into any group, removals and emissions, and over user-supplied group types and comparators including ones with several equivalent keys',
 'ordering_test and signal_test build one list once and emit; they never erase the first element of a group, never re-fill an emptied group, and never copy the list with several slots per group, where the group-to-first-slot map has to be repaired.',
 [SG,ST],[('group map holding the first list position of each group, kept consistent on insert, erase and copy',SG+' m_insert/erase/copy constructor'),('comparison of group keys by section then user comparator',SG+' group_key_less')],
 ['sequence of slot entries in an emission'],[dict(name='group map',meaning='first list position of every group',where=SG)])
p('C03','Slots may change the signal during emission with snapshot semantics',
 'A slot may connect, disconnect, block, replace the combiner of, recursively invoke, move, swap or destroy the signal that is calling it. A slot connected during an invocation is not run by that invocation but is run by every later (also nested) one; a slot disconnected, blocked or expired before its turn is not run; all other slots of the running invocation still run once, in their original order, even if the signal object has been destroyed.',
 ['histories'],'over every program whose slots perform arbitrary library calls at arbitrary depth of nested emission',
 'signal_test and deletion_test try a few fixed single mutations in one slot; the interaction of nested emissions with list copies, cleanup and combiner replacement needs generated histories.',
 [ST,IT],[('copy-on-write of the slot list while any emission holds it',ST+' nolock_force_unique_connection_list/force_cleanup_connections'),('each slot is re-checked immediately before its call',IT+' lock_next_callable')],
 ['slot entries of nested emissions'])
p('C04','Disconnection by any route is final, complete and precise',
 'After disconnection (through a connection copy, a scoped connection, the group, the function object or signal it was connected with, all-slots, or destruction of the signal) has returned, the slot is never called again by any invocation started afterwards, its connections report not connected, and it is no longer counted. Exactly the designated slots are disconnected: no other slot is lost, repeating the operation is harmless, and num_slots(), empty() and connected() always agree with the set of slots that an invocation would find connected.',
 ['histories','inputs'],'over every history of connection and disconnection through every route, at any nesting depth, with equal, equivalent and unequal function objects and groups',
 'connection_test, dead_slot_test and deletion_test check each route once, on short lists without groups, duplicates, prior removals or running emissions.',
 [ST,CO,SG],[('connected flag and slot refcount of a connection',CO+' nolock_disconnect'),('group range lookup',ST+' disconnect(group)'),('comparison of stored function objects, extended slots and signals',ST+' do_disconnect')],
 ['slot entry','connected()','num_slots()','empty()'])
p('C05','A blocked slot never runs until its last block is released, then runs again',
 'While at least one blocking shared_connection_block refers to a connection, its slot is not called by an invocation that reaches it, yet it stays connected, keeps its position and is counted; once every block on it has been released (unblock, destruction or assignment, in any order, also of copies) it is called again. blocking(), connection() and connection::blocked() always reflect this, connection::blocked() is also true for every disconnected connection, and blocks remain harmless after the connection, its slot or signal is gone.',
 ['histories'],'over every sequence of creating, copying, assigning, blocking, unblocking and destroying blocks interleaved with emissions, disconnections and destruction of the signal',
 'shared_connection_block_test follows one scripted sequence with three blocks on one connection.',
 [BL,CO,IT],[('shared blocker token held weakly by the connection',CO+' get_blocker'),('block state checked before each call',IT+' lock_next_callable')],
 ['slot entry','blocked()','blocking()'])
p('C06','Tracked objects: no call after expiry, kept alive during the call',
 'If any object a slot tracks (boost or std or other foreign shared/weak pointer, another signal, or the tracked objects of another slot; any number of them) has expired, the slot is never called again and its connection reports disconnected and is not counted. While the slot runs, all owned tracked objects stay alive even if every other owner is dropped, and they are not kept alive longer than that: once the invocation has moved on they can expire, and being tracked never keeps an object alive otherwise.',
 ['histories','inputs'],'over every number, kind and mixture of tracked objects and every point in a history (including inside the slot itself) at which they expire',
 'track_test expires one or two objects on an idle signal; it never drops the last owner during a call, nor tracks more objects than the inline buffer of the invocation holds.',
 [SB,IT,CO,FP,SL],[('tracked objects locked before the call and released when moving on',CO+' nolock_grab_tracked_objects / '+IT),('type-erased foreign weak/shared pointers',FP),('growable buffer for the locked objects',AB)],
 ['slot entry','destructor of tracked objects','connected()'])
p('C07','Slot function objects live exactly as long as they are connected or being called',
 'The function object held by a connected slot, with everything it owns, is never destroyed while connected or while a call to it is in progress, even if it disconnects itself, everything is disconnected or the signal is destroyed during the call. It is destroyed by the time its disconnection returns if no invocation is currently positioned at it, and otherwise as soon as those invocations move on or end, regardless of surviving connection, scoped_connection or block objects; destroying the signal releases all of them, and nothing leaks.',
 ['histories'],'over every history of connect, disconnect, expiry and destruction at any nesting depth of emission',
 'Only threading_models_test-like straight-line code and one "slot released on disconnect" assertion exist; no test counts live function objects over mixed histories.',
 [CO,IT,ST],[('slot reference count of a connection, released slots collected and destroyed after unlocking',CO+' dec_slot_refcount/release_slot'),('active slot of an invocation',IT+' set_active_slot')],
 ['copy/destroy of instrumented function objects','heap accounting'])
p('C08','Dead connections do not accumulate under connect/disconnect/emit churn',
 'However long a program keeps connecting and removing slots (by any route including expiry of tracked objects) and invoking a signal, the memory the signal holds stays bounded by a constant plus an amount proportional to the largest number of slots simultaneously connected, not to the number of slots ever connected. This includes patterns that only connect and disconnect and never invoke, and patterns that change the list only during invocations.',
 ['histories'],'over unboundedly long churn histories, for every pattern of connect position, group, removal route and emission',
 'dead_slot_test checks only that a dead slot is not called; nothing measures memory, and a leak of bookkeeping per reconnection is invisible to value assertions.',
 [ST,SG],[('two-element incremental cleanup at each connect and one at each emission',ST+' nolock_cleanup_connections'),('forced cleanup after an emission that met more dead than live slots',ST+' invocation_janitor')],
 ['bytes and blocks allocated through operator new'])
p('C09','No library lock is held while user slots or destructors run; no self-deadlock',
 'No mutex of the library is held by a thread while it runs a slot or combiner, or while it runs the destructor of a disconnected slot function object or of a tracked object, so user code in those places may call any operation of the same or other signals and connections without deadlock. No combination of library operations by any number of threads deadlocks on library mutexes, and every lock is paired with an unlock on all paths including exceptions.',
 ['schedules','histories'],'over every schedule of several threads and every point at which the library may end up running user code',
 'deadlock_regression_test covers one historic two-thread case by timing; the tests cannot observe which locks are held when user code runs.',
 [CO,ST,IT],[('disconnected slots are collected and destroyed after the lock is released',CO+' garbage_collecting_lock'),('locks are not held across combiner invocation',ST+' operator()')],
 ['lock/unlock of a user-supplied mutex type','slot entry','destructors'])
p('C10','Documented thread-safe operations are free of data races',
 'Any operations on signals, and on distinct connection, scoped_connection and shared_connection_block objects referring to the same connections, may run concurrently from any threads (including expiry of tracked objects and reading the state of connections) without data races inside the library. This needs no synchronisation by the caller beyond the documented exceptions (assignment and swap of one object, slot objects, trackable).',
 ['schedules'],'over all schedules of all combinations of thread-safe operations',
 'threading_models_test runs single-threaded and only instantiates mutex types; no test runs two signal operations concurrently under a race detector.',
 [ST,CO,IT,BL],[('signal mutex protects list and combiner handles',ST),('same mutex protects connection state',CO),('unique() test on the shared invocation state decides in-place modification',ST)],
 ['ThreadSanitizer reports'])
p('C11','Concurrent histories agree with an atomic connect/disconnect/emit specification',
 'In every concurrent history each invocation behaves as if it took the slot list at one instant between its start and its first slot call: slots whose connect had returned before the invocation began and that nothing removed or blocked before its end are called exactly once; slots not yet connected, or whose disconnection, block or expiry had completed before the previous slot of that invocation finished, are not called; and all invocations see slots in one consistent order. Results of connected(), num_slots(), empty(), blocked() and the combiner used are each consistent with some state current during the call, and when threads finish, the surviving state is exactly that of the operations performed.',
 ['schedules','histories'],'over all schedules of two or more threads running every combination of operations',
 'No existing test runs concurrent operations and checks the outcome.',
 [ST,IT,CO],[('snapshot of the invocation state under the signal mutex',ST+' operator()'),('per-slot check under the connection mutex',IT),('copy-on-write list',ST)],
 ['call/return of each operation and slot in logical time'])
p('C12','An exception from a slot or combiner propagates and leaves the signal intact',
 'An exception thrown by a slot or by a combiner reaches the invoker of the signal unchanged (apart from expired-slot exceptions handled by the combiner), no later slot of that invocation runs unless the combiner handled it, and the same slot is not run twice. The signal, all its connections, blocks and other slots, and enclosing invocations, remain fully usable with unchanged contents; tracked objects, slots and locks used by the abandoned invocation are released.',
 ['histories','fault_sequences'],'over every slot position, nesting depth and combination with mutations at which an exception may be thrown',
 'signal_test throws from one slot once; nobody checks the state, the locks and the object lifetimes afterwards in mixed histories.',
 [IT,ST,'include/boost/signals2/last_value.hpp','include/boost/signals2/optional_last_value.hpp'],[('scoped release of the active slot and of tracked objects',IT+' ~slot_call_iterator_cache'),('disconnect on expired_slot',IT+' dereference')],
 ['exception type and identity at the emission','subsequent emissions'])
p('C13','Failed operations leave no trace: connect is all-or-nothing under any exception',
 'If connecting a slot fails for any reason (allocation failure at any point, or an exception from copying the function object, copying the group or comparing groups), the exception reaches the caller, the slot is not connected and the signal behaves exactly as before: the same slots in the same order, fully usable, nothing leaked or corrupted. An allocation failure in any other operation (invocation, disconnection, blocking, counting, replacing the combiner, constructing slots) is reported by an exception at most, without losing or duplicating connections, terminating the program or corrupting state.',
 ['fault_sequences'],'over every failing allocation, copy or comparison in every operation on signals in any state',
 'No test injects any failure.',
 [SG,ST,CO],[('insertion into list then group map with roll-back',SG+' m_insert'),('cleanup before insertion keeps its cursor valid',ST+' nolock_cleanup_connections_from')],
 ['operator new','user copy constructors and comparators'])
p('C14','Combiners see a lazy single-pass range over callable slots and own the result',
 'The combiner receives a range with one element per callable slot in call order; dereferencing an element calls that slot, repeated dereferences return the same result without calling again, elements never dereferenced are not called, and the value the combiner returns is the result of the invocation, whatever combiner was current when the invocation began even if it is replaced meanwhile (invoked as const by a const signal). combiner() and set_combiner() get and replace the stored combiner for later invocations only; the default combiner returns the last result (empty if none) and last_value the last result or throws no_slots_error, both skipping slots that report expiry and disconnecting them.',
 ['histories','inputs'],'over every combiner traversal pattern (early stop, repeated dereference, skipping, copying iterators, throwing) and every slot list',
 'signal_test uses two full-traversal combiners; early stop, repeated dereference, skipping, and replacement during an invocation are untested.',
 [IT,ST,'include/boost/signals2/last_value.hpp','include/boost/signals2/optional_last_value.hpp','include/boost/signals2/detail/result_type_wrapper.hpp'],[('result cache reset on increment',IT),('combiner handle taken with the slot list',ST)],
 ['combiner calls','slot entry','emission result'])
p('C15','Connection and scoped_connection handles have value and ownership semantics',
 'All copies of a connection denote the same slot-signal link: they compare equal, order consistently, agree on connected() and any of them can disconnect it; default, moved-from and expired handles report not connected and are harmless. A scoped_connection disconnects exactly the connection it owns when destroyed, assigned over or explicitly disconnected and not otherwise: release() and moving transfer ownership (also between scoped and plain connections), swap exchanges it, and self-assignment keeps it.',
 ['histories'],'over every sequence of copies, moves, swaps, assignments, releases and destructions of handles interleaved with signal operations',
 'connection_test follows a scripted sequence over a few handles.',
 [CO],[('weak reference to the connection, cleared when moved from',CO+' class connection'),('disconnect on destruction and assignment',CO+' class scoped_connection')],
 ['connected()','operator== <','slot entry'])
p('C16','Signals connect to signals, and signals move and swap with all their connections',
 'A signal connected as a slot of another forwards every invocation with its arguments and result, is disconnected automatically when it is destroyed, can be removed by naming it, and is kept alive for the duration of a call. Moving or swapping signals carries slots, order, blocks, combiner and connections to the new owner, existing connections stay valid, a moved-from signal is null, reports itself empty and may be assigned to again, and move-assignment releases the target\'s old slots.',
 ['histories'],'over every topology of connected signals (chains, diamonds, cycles) and every history of moving, swapping and destroying them, also during emission',
 'signal_test connects one signal to another once and has one move and one swap test on idle signals.',
 [ST,SB,TV],[('weak reference to the other signal, tracked by the slot',ST+' weak_signal'),('shared implementation handle exchanged by move and swap',ST+' signal')],
 ['slot entry','null()','num_slots()'])
p('C17','Extended slots always receive their own connection',
 'A slot connected as extended slot is called with a connection that equals the one its connect call returned, in every invocation including the first and concurrent ones, and can disconnect or block itself through it during the call. In order, groups, blocking, tracking, disconnection by function object and lifetime it behaves like an ordinary slot, and holding its own connection never keeps it alive.',
 ['histories','schedules'],'over every history and schedule in which an extended slot is connected, called, disconnected and destroyed',
 'connection_test connects one extended slot with a trivial body.',
 [ST],[('connection handle stored next to the wrapped function and set before the lock is released',ST+' connect_extended/bound_extended_slot_function')],
 ['first argument of extended slots'])
p('C18','Slot objects are faithful, independent values that check their tracked objects',
 'Invoking a slot object directly calls its function with the given arguments, holding all tracked objects for the duration, or throws expired_slot without calling it if any has expired; expired() and lock() tell the same. Copies of slots, including converting copies to other compatible signatures, slots of slots and bind-style construction, keep function and all tracked objects; connecting a slot copies it, so later changes to the slot object affect no existing connection, and connecting an already expired slot never runs it.',
 ['histories','inputs'],'over every slot construction form, every number and kind of tracked object and every order of tracking, copying, connecting, expiring and calling',
 'track_test and slot_compile_test build a few slots and mostly check that they compile.',
 [SL,SB,'include/boost/signals2/slot.hpp'],[('lock all tracked objects before calling',SB+' lock'),('tracked objects copied with the slot',SL)],
 ['slot invocation','expired()'])
p('C19','deconstruct post-constructs once, pre-destructs once, and owns storage safely',
 'Objects made through deconstruct run their post-construction exactly once after complete construction and before ownership can be used, with the given arguments, and their pre-destruction exactly once before their destructor, when the last owner goes; types without a pre-destruction hook, or whose hooks do nothing, work the same. If construction or post-construction throws, no further hook runs that should not, the object is destroyed at most once and storage is released; alignment is respected; a shared pointer from deconstruct_ptr behaves alike for post- and pre-destructible types and custom deleters.',
 ['inputs','fault_sequences'],'over all constructor and post-construct arities, types with over-alignment and hooks in any combination, and exceptions or allocation failures at each step',
 'deconstruct_test covers the arities once without failures, mixed hooks or lifetime accounting.',
 ['include/boost/signals2/deconstruct.hpp','include/boost/signals2/deconstruct_ptr.hpp','include/boost/signals2/postconstructible.hpp','include/boost/signals2/predestructible.hpp'],[('deleter holding the storage and an initialised flag','include/boost/signals2/deconstruct.hpp deconstruct_deleter'),('post-construction flag','include/boost/signals2/deconstruct.hpp postconstructor_invoker')],
 ['hook, constructor and destructor calls'])
p('C20','The mutex types give mutual exclusion and any Lockable mutex can be plugged in',
 'signals2::mutex provides mutual exclusion with release/acquire visibility between lock, try_lock and unlock; try_lock succeeds exactly when the mutex is free and never blocks; dummy_mutex operations do nothing and never block. A signal works identically with any conforming mutex type and only uses it correctly: never locks recursively, never unlocks what it did not lock, and never destroys or leaves it locked.',
 ['schedules','configurations'],'over all schedules of threads contending for the mutex and all mutex types satisfying the Lockable requirements',
 'mutex_test checks single-threaded lock/unlock and a fixed timing scenario with sleeps; threading_models_test only instantiates the types.',
 ['include/boost/signals2/mutex.hpp','include/boost/signals2/detail/lwm_pthreads.hpp','include/boost/signals2/dummy_mutex.hpp','include/boost/signals2/detail/unique_lock.hpp'],[('pthread mutex wrapper','include/boost/signals2/detail/lwm_pthreads.hpp'),('scoped locking','include/boost/signals2/detail/unique_lock.hpp')],
 ['instrumented mutex type','critical sections'])
p('C21','Behaviour is the same for every arity, signature kind and build configuration',
 'For every number of parameters up to the documented maximum, for value, reference, pointer, const and class-type parameters and void, value, reference and class-type results, arguments and results pass through signals, slots, extended slots and slot objects in the right positions with the right identity, const or non-const. Signals built with variadic templates, with the preprocessor-generated classes, with any language standard, mutex type, slot function type, group type or through signal_type with named parameters behave identically, and the published member types and arity describe the signature.',
 ['configurations','inputs'],'over arities, parameter and result categories and build configurations',
 'signal_n_test and slot_compile_test cover a few arities in one configuration, and the repository builds only the variadic one.',
 [VI,'include/boost/signals2/signal_type.hpp','include/boost/signals2/preprocessed_signal.hpp',ST,SL,'include/boost/signals2/detail/variadic_arg_type.hpp'],[('argument pack forwarding',VI),('generated signalN/slotN classes',ST),('named template parameters','include/boost/signals2/signal_type.hpp')],
 ['arguments in slots','results','differential traces between configurations'])
p('C22','No legal program makes the library commit memory errors or undefined behaviour',
 'No sequence or interleaving of documented operations, including destruction of signals, slots, tracked objects and handles in any order and during invocations, makes the library access freed, uninitialised or out-of-bounds memory, invalidated iterators or null objects, violate its own assertions, leak memory, or execute undefined behaviour. This holds for any number of slots, groups, tracked objects and removed slots, in particular beyond the capacity of internal fixed-size buffers.',
 ['histories','schedules','inputs'],'over all legal programs, sizes and schedules',
 'The tests run without sanitizers, on small lists, with straight-line code.',
 [AB,ST,IT,SG,CO,FP],[('shared ownership of list, combiner, mutex and slots by running invocations',ST),('small-buffer container for tracked objects and garbage',AB)],
 ['AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and libstdc++ debug-mode reports'])
p('C23','Objects derived from trackable disconnect the slots bound to them when destroyed',
 'A slot built from a function object that contains (as bound argument, by reference, by pointer or as the function object itself, at any bind position) an object derived from trackable, or a signal, is disconnected no later than the destruction of that object, in single-threaded use, whether idle or during an invocation, and is then never called. Slots bound to other objects are unaffected; copying or assigning a trackable object neither transfers nor breaks the connections of the original, and destroying such a copy does not affect them.',
 ['histories','inputs'],'over every binding form, number of trackable objects per slot, and order of copying, assigning and destroying them, including from within slots',
 'trackable_test connects one bound member function and destroys the object on an idle signal.',
 [TV,TR,SL],[('visitor collecting trackable objects and signals from function objects',TV),('token expired by the destructor, not shared by copies',TR)],
 ['slot entry','connected()'])
p('C24','Operations cost what the documentation says, however large the signal is',
 'Connecting a slot takes (amortised, while the slot list is not in use by an invocation) constant time without a group and time logarithmic in the number of groups with one, whatever the number of slots connected now or in the past; disconnecting a group takes O(lg g) + k for g groups and k slots in it; invoking, disconnect by function, disconnect_all_slots, num_slots(), empty() and destruction are at most linear in the number of slots known to the signal; operations on connections, scoped_connections and blocks, and moving or swapping signals, are independent of the number of slots, blocks and groups. Changing the signal during an invocation costs at most one copy of the slot list per invocation.',
 ['inputs','histories'],'over all sizes, mixtures of sections and groups, and histories of connecting, disconnecting, blocking, expiring and invoking',
 'No test measures the cost of anything or uses more than a few dozen slots.',
 ['doc/reference/signal_header.xml',ST,SG,CO,IT],[('bounded cleanup of dead slots in connect and invocation',ST+' nolock_cleanup_connections'),('copy-on-write of the slot list',ST+' nolock_force_unique_connection_list'),('group look-up and insertion',SG)],
 ['basic blocks executed, group comparisons, copies of slot functions, bytes allocated'])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(json.dumps(x))
