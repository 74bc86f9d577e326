#!/usr/bin/env python3
"""writes properties.jsonl (one place to edit the texts)"""
import json, os
P = []
H = 'include/xitren/'


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {'files': [H + f for f in files], 'mechanism': [{'name': n, 'where': H + w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': H + w} for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


SH = 'allocators/static_heap.hpp'
prop('C01', 'Static heap hands out valid, aligned, disjoint blocks',
     'Every non-null pointer the static heap returns is 8-byte aligned, lies with all requested bytes inside the heap object\'s own storage, and does not overlap any other block that is currently allocated or the heap\'s own bookkeeping. The space handed out was free immediately before.',
     ['histories', 'inputs', 'configurations'], 'every reachable heap state (any sequence of allocations, clears and frees) and every requested size, including 0 and sizes near the maximum of size_t, for heap sizes from tiny to large',
     'Tests run a few fixed allocation sequences on one 100 KiB heap; fragmentation patterns, boundary sizes and address-dependent splits and merges are never enumerated.',
     [SH], [('first-fit search and block split', SH + ' allocate'), ('initial layout of the arena', SH + ' constructor')],
     [('free list', 'free blocks in ascending address order, links stored xor a canary', SH), ('block header', 'size and in-use bit in front of each block', SH)])
prop('C02', 'Static heap never touches memory that is in use',
     'Allocating, clearing or freeing through the static heap never changes a byte of any other allocated block nor any byte outside the heap object, so data stored by users survives every heap operation. A zeroed allocation of n elements of a given size returns space whose n*size bytes are all zero, and null when n*size does not fit in size_t.',
     ['histories', 'inputs', 'configurations'], 'every reachable heap state, every block held by a user, every operation and argument',
     'Tests check contents of a few vectors; they cannot exclude that some fragmentation pattern makes a split or a merge write into a neighbour.',
     [SH], [('header writes', SH + ' allocate, deallocate'), ('merge of neighbours', SH + ' prv_insert_block_into_free_list'), ('zeroing', SH + ' callocate')])
prop('C03', 'Static heap accounting equals the real free space',
     'The reported free size always equals the sum of the sizes of the free blocks, decreasing by exactly the block taken and increasing by exactly the block returned. The reported minimum-ever free size is the lowest free size since construction or the last reset.',
     ['histories', 'inputs', 'configurations'], 'every history of allocations, failed allocations, frees and resets',
     'Tests compare a handful of values after fixed sequences.',
     [SH], [('free byte counter', SH + ' allocate, deallocate'), ('low-water mark', SH + ' allocate, reset_minimum_ever_free_heap_size')])
prop('C04', 'Static heap reuses and coalesces freed space; fails cleanly when it cannot serve',
     'After every operation no two free blocks are adjacent, so freed neighbours become one block and freeing everything restores the initial single free block. An allocation request is served whenever some free block is large enough for it including its header and rounding; otherwise null is returned, nothing changes, and the failure callback, if set, runs exactly once - it never runs for a successful request.',
     ['histories', 'inputs', 'configurations'], 'every reachable heap state and request size, including 0 and overflowing sizes',
     'Coalescing in all neighbour configurations and at both ends of the arena, and the overflow paths, are not covered by the fixed sequences of the tests.',
     [SH], [('insertion with merging', SH + ' prv_insert_block_into_free_list'), ('fit test, overflow tests, failure callback', SH + ' allocate')])
prop('C05', 'Static heap ignores null and repeated frees',
     'Freeing null, or freeing again a block that is already free, leaves the heap unchanged. A block that was allocated is returned by a single free and becomes available again.',
     ['histories', 'inputs'], 'every reachable heap state; null and every block, allocated or freed (as long as its header has not been reused)',
     'Tests free each block once.',
     [SH], [('in-use bit and cleared link test', SH + ' deallocate')])
AL = 'allocators/static_heap_allocator.hpp'
prop('C06', 'The standard allocator adaptor hands out enough space from its heap or throws',
     'Requesting n elements through the standard allocator adaptor either returns a block from the adaptor\'s own heap big enough for n elements, or throws bad_alloc; it never returns null nor a block that is too small. Returning a block gives it back to that same heap; copies and rebound copies keep using the same heap, and two adaptors compare equal exactly when they share a heap.',
     ['inputs', 'histories'], 'every element type size, every n including those where the byte count exceeds size_t, and every outcome of the heap',
     'Tests exercise small vectors and lists only; the overflow of the byte count and the failure path are not reached.',
     [AL], [('byte count and null test', AL + ' allocate'), ('forwarding', AL + ' deallocate, converting constructor'), ('equality', AL + ' operator==')])

OB = 'comm/observer.hpp'
prop('C07', 'Fixed-capacity observer registry keeps an exact, duplicate-free list',
     'Adding an observer appends it exactly when there is room and it is not yet registered; otherwise the list stays as it is and the result says why (full, already contained). Removing an observer removes exactly it and keeps the order of the others, or reports not found and changes nothing; the registry never writes outside itself.',
     ['histories', 'inputs', 'configurations'], 'every registry content (any number of observers up to the capacity, any registered observer at any position) and every observer argument, for several capacities',
     'Tests register at most two observers in one order; removal from the middle, a full registry and a corrupted count are not covered.',
     [OB], [('add, remove', OB + ' observable<T, true, Max>')], [('observer array and count', 'the registered observers in order', OB)])
prop('C08', 'Unbounded observer registry keeps an exact list and reports misuse by exception',
     'Adding an observer to the unbounded registry appends it exactly when it is not yet registered and otherwise throws already-contains; removing removes exactly it, keeping the order of the others, and otherwise throws not-found. A call that throws leaves the registry unchanged.',
     ['histories', 'inputs'], 'every registry content of any length and capacity, and every observer argument',
     'Tests register a couple of observers; reallocation, removal from the middle and the state after an exception are not covered.',
     [OB], [('add, remove', OB + ' observable<T, false, Max>')], [('observer vector', 'the registered observers in order', OB)])
prop('C09', 'A notification reaches every registered observer exactly once, in order',
     'Notifying calls every registered observer exactly once, in registration order, with the given value and the registry as source, and calls nobody else. The fixed-capacity registry refuses and reports a notification started from inside a callback without calling anyone, and accepts notifications again afterwards. Clearing the registry, or destroying it, tells every registered observer once that it is disconnected and leaves the registry empty.',
     ['histories', 'inputs', 'schedules'], 'every registry content and value, any number of observers, re-entrant calls at any observer',
     'Tests use one or two observers and do not re-enter.',
     [OB, 'comm/values/observable.hpp'], [('notify loop and recursion flag', OB + ' notify_observers'), ('clear and destructor', OB + ' clear_observers')])
OS = 'comm/observer_static.hpp'
prop('C10', 'The compile-time observer list calls all its observers in order, every time',
     'Each notification of a compile-time observer list calls each of its observers exactly once, in declaration order, with the notified value and one common source object. This holds for every notification in a sequence, for any mix of observer types.',
     ['programs', 'inputs', 'histories'], 'every number of consecutive notifications, any value, lists of one to six observers of different types including repeated ones',
     'Tests run one list and one or two notifications.',
     [OS], [('recursive list', OS + ' observable::notify')])
VO = 'comm/values/observable.hpp'
prop('C11', 'Observable values behave like the plain value and publish every change',
     'Every assignment, increment, decrement and compound assignment of an observable value changes the stored value and returns the result exactly as the same operator of the underlying type would, and then notifies the observers once with the new stored value. Reading returns the stored value without notifying anyone.',
     ['inputs', 'histories'], 'every stored value and operand of the underlying type (all bit patterns, including wrap-around), for several integer types',
     'Tests check a few values per operator; prefix and postfix variants and wrap-around are not compared for all values.',
     [VO], [('operators', VO)], [('stored value', 'atomic value next to the registry', VO)])
prop('C12', 'Observable values keep an exact observer list',
     'Adding, removing, clearing and notifying observers of an observable value (fixed-capacity and unbounded) keeps exactly the list of registered observers in order, without duplicates, reports misuse without changing anything, and never changes the stored value. Each notification reaches every registered observer exactly once in order with the current value.',
     ['histories', 'inputs', 'configurations'], 'every registry content, length and capacity, every observer argument and stored value',
     'Tests register one or two observers.',
     [VO], [('add, remove, clear, notify', VO)])
OD = 'comm/values/observed.hpp'
prop('C13', 'An observed value is up to date before its callback runs',
     'When an observed value is notified it first stores the new value and then runs its callback, if one is set, exactly once with that value, so the callback and everybody after it reads the new value. Setting a callback replaces the previous one and nothing else changes the stored value.',
     ['inputs', 'histories'], 'every value of the underlying type, with and without callback, any order of notifications, callback changes and reads',
     'Tests check one value and one callback.',
     [OD], [('store before call', OD + ' data')])
ME = 'comm/mediator.hpp'
prop('C14', 'The mediator delivers each message to exactly the modules concerned',
     'A distributed message is offered to every registered module whose identity differs from the sender\'s, once and in registration order, and to nobody else, with the sender\'s identity and the unchanged bytes; the manager\'s own hook sees it first. A module hands an offered message to its handler for that type exactly when it accepts the type and the size fits, with exactly the sent bytes, and to no other handler; converting bytes to a value yields exactly those bytes or is refused when the size differs.',
     ['inputs', 'histories', 'configurations'], 'every table content (any number of modules, any identities), every message content and size, accepted-type lists of different lengths',
     'Tests run one small set of modules with matching sizes.',
     [ME], [('distribute and send loops', ME + ' manager'), ('type dispatch', ME + ' module::receive'), ('byte conversion', ME + ' convert_field')])
prop('C15', 'Modules are in the mediator\'s table exactly while they live',
     'A module joins its mediator when constructed and leaves it when destroyed; joining appends it, leaving removes exactly it and keeps the order of the others. The table never holds more modules than its capacity: joining a full mediator fails without changing it, and no operation writes outside the table.',
     ['histories', 'inputs', 'configurations'], 'every table content and capacity, every joining or leaving module, including leaving a full table and leaving a table one is not in',
     'Tests create two modules and never fill the table.',
     [ME], [('add and remove', ME + ' manager'), ('constructor and destructor', ME + ' module')], [('module table and count', 'registered modules in order', ME)])
DA = 'func/data.hpp'
prop('C16', 'Byte-order types keep their byte order in memory and their value in use',
     'A little-endian (big-endian) integer type stores its value in memory least (most) significant byte first on every host, without padding or alignment, and reading it back yields the value stored. Comparisons order by value and do not change it, and byte swapping reverses the bytes.',
     ['inputs', 'configurations'], 'all values of 16, 32 and 64 bits and all pairs of values for comparisons, on little-endian and big-endian targets',
     'Tests check a few values on the little-endian build host.',
     [DA], [('conversion at construction, assignment, get', DA + ' lsb_t, msb_t'), ('swap', DA)])
prop('C17', 'Conversion between objects and bytes is exact in both directions',
     'Converting an object to bytes yields exactly its object representation and writes exactly that many bytes to the destination; converting bytes to an object yields the object with exactly those bytes. Converting there and back returns the original.',
     ['inputs', 'programs'], 'every byte content of objects of several sizes and packed structures',
     'Tests check a few structures with fixed values.',
     [DA], [('serialize, deserialize', DA + ' data')])
PK = 'func/packet.hpp'
prop('C18', 'Packets carry header, fields and checksum exactly and detect corruption',
     'A packet built from a header and fields consists of exactly their bytes followed by the checksum of those bytes, in every way of building it; taking it apart returns the same header and fields. A packet is reported valid exactly when its stored checksum equals the checksum of its header and field bytes, and accessors refer to the parts inside the packet.',
     ['inputs', 'programs'], 'every content of header, fields and stored checksum, any checksum function, several sizes of the parts',
     'Tests check a few packets with one checksum.',
     [PK], [('constructors, serialize, deserialize, valid', PK + ' packet')])
prop('C19', 'The packet buffer never exceeds its storage and judges packets correctly',
     'Storing a packet with a variable part succeeds exactly when it fits, then holds header, fields, elements and checksum contiguously and sets the size; otherwise it changes nothing. Reading accepts exactly the sizes a packet can have, reports valid exactly when the stored checksum matches the bytes in front of it, returns the stored parts and element count, and never reads or writes outside the storage.',
     ['inputs', 'configurations'], 'every storage content, every stored size (also impossible ones) and every requested element count including overflowing ones, several element sizes',
     'Tests check a few well-formed packets.',
     [PK], [('serialize, deserialize, size checks', PK + ' packet_accessor')])
FP = 'func/fast_pimpl.hpp'
prop('C20', 'The in-place implementation object has exactly the lifetime of its owner',
     'Each owner constructs exactly one managed object in its own, suitably aligned storage, with the arguments given, destroys it exactly once, and every copy, move and assignment performs exactly the matching operation of the managed object. Exceptions of the managed object are passed on and leave no half-constructed object, and access always refers to the managed object.',
     ['inputs', 'fault_sequences', 'programs'], 'every owner operation, with the managed operation succeeding or throwing, several sizes and alignments',
     'Tests construct one object and do not throw.',
     [FP], [('forwarding constructors, destructor, assignment, access', FP)])
AP = 'func/argv_parser.hpp'
prop('C21', 'Command line options land in their fields',
     'Every registered option that occurs on the command line (a whole argument equal to its name) sets exactly its own field: a switch becomes true, a valued option takes the argument that follows it, a string option the whole argument whatever it contains, a number the value read from it, and the last occurrence counts. Fields of options that do not occur keep their defaults, and an option at the end without a value changes nothing. Every argument is shown to every registered option, in order; of several registrations of one name the last counts. The parser depends on nothing of the list it was made from.',
     ['inputs', 'programs'], 'every argument vector and every set of registered options',
     'Tests parse a few command lines.',
     [AP], [('callbacks per option', AP + ' register_callback, parse')])
IE = 'func/interval_event.hpp'
prop('C22', 'An interval event calls its function on schedule and never after it is stopped',
     'While an interval event runs, its function is called once per period on a schedule that does not drift: call number k is never made earlier than k periods after the start, a call that is due is made at the next check, and between two checks the thread sleeps for the interval set. Period and interval are those given at construction or set later, and the getters return them. When stop() or the destructor has returned, the function is not running and is never called again, the worker does not touch the object any more, and calling stop() again does nothing. The worker uses the object only after the object is completely constructed, and the function given is the one that is called and is destroyed exactly once.',
     ['schedules', 'histories', 'inputs'], 'every interleaving of the worker thread with construction, stop, destruction and changes of period and interval, every clock reading, any number of rounds',
     'Tests sleep and count calls for one schedule.',
     [IE], [('worker loop and stop flag', IE + ' worker lambda, stop'), ('order of members', IE + ' constructor'), ('setters and getters', IE + ' period, period_between_checks')])
PS = 'comm/pipeline_stage.hpp'
prop('C23', 'A pipeline stage processes every item exactly once, unchanged and in order',
     'As long as at most BufferSize items are outstanding, every item pushed into a pipeline stage, by any number of threads, is processed by its function exactly once, unchanged, one item at a time and in the order in which push() reserved the places. A place is free again only when its item has been taken out of the slot. Destruction waits until every item pushed before has been processed, and nothing of the object is destroyed or used while or after the worker runs. The constructor starts exactly one worker, and only when everything it uses is in place.',
     ['schedules', 'histories', 'configurations'], 'every interleaving of producers, worker and owner, any number of items, every fill state of the ring, several item types and buffer sizes',
     'Tests push a few items under one schedule.',
     [PS], [('ring of slots, head and tail counters', PS + ' push'), ('worker loop', PS + ' worker_'), ('destruction', PS + ' ~pipeline_stage')])
PP = 'comm/pipeline_stage_pool.hpp'
prop('C24', 'A pipeline pool gives each item to the least loaded of its workers, which processes it exactly once',
     'Every item pushed into a pipeline pool is stored unchanged in exactly one queue, one with the fewest outstanding items at that moment; no other queue changes, and choosing a queue changes nothing. Every queue is served by exactly one worker, which is told its own number, and as long as at most BufferSize items are outstanding in a queue, processes the items of its queue exactly once, unchanged and in the order in which push() reserved the places. There are as many workers as queues. Destruction waits until every item pushed before has been processed.',
     ['schedules', 'histories', 'inputs', 'configurations'], 'every interleaving of producers, workers and owner, every fill state of the queues and several pool and buffer sizes and item types',
     'Tests push items to one pool of one size and cannot see which queue an item lands in.',
     [PP], [('queue choice', PP + ' min_thread'), ('slot write', PP + ' push'), ('worker loop', PP + ' constructor'), ('destruction', PP + ' ~pipeline_stage_pool')])
LR = 'cache/lru.hpp'
prop('C25', 'The cache keeps the most recently used entries up to its capacity',
     'The cache never holds more than its capacity of entries, evicts the least recently used one, and returns exactly the value last stored under a key until it is evicted or expires.',
     ['histories', 'inputs'], 'every sequence of puts and gets',
     'The test file of the cache is empty.',
     [LR], [('list and map', LR)])

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
