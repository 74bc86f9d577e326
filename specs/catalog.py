"""The properties this framework decides, and how."""
BACKEND = 'z3 (python API of python3-vt), LLVM 18 front end; thorough tier: every distinct query once more by cvc5'
TRUSTED = [
    'clang 18 front end and opt 18 -O1 (loop-simplify, lowerswitch, scalarizer): the verified text is the LLVM IR they produce from the headers in /repo on every run',
    'irvc (this framework): LLVM IR semantics, memory model with disjoint regions, contract encoding',
    'z3: unsat answers',
]
ASSUMPTIONS = [
    'host data layout x86-64; machine arithmetic is modelled exactly (integers modulo 2^w), never as mathematical integers',
    'no allocation failure in operator new (std::bad_alloc is not explored)',
]
REG = ['observers do not modify the registry, destroy it, or throw from inside a callback (except the recursion case, which is covered)',
       'the registry is used by one thread at a time']
MED = ['modules do not join, leave or destroy modules from inside receive()', 'the manager is used by one thread at a time',
       'managers of 1, 3 and 8 modules and modules accepting 0, 1 and 3 types stand for the template parameters',
       'std::hash of two different type names differs only where the proof assumes nothing: ids are arbitrary numbers']
PKT = ['the checksum is an arbitrary pure function of the bytes it is given',
       'the instances (header, fields, element, checksum sizes) stand for the template parameters']
HEAP = ['heaps of 65, 1000 and 102400 bytes stand for the template parameter (sizes below 32 have no room for a block and are outside the property)',
        'the heap is used by one thread at a time; the failure callback may inspect the heap but does not allocate from it or throw',
        'users write only to the bytes of blocks they hold, and pass to deallocate only null or pointers obtained from this heap whose block header has not been reused']
ADA = ['elements of 1, 4 and 24 bytes stand for the element type; element types that need more than 8-byte alignment are outside the property',
       'the heap behaves as its contracts in heap.py say (C01-C05)']
THR = ['starting a thread succeeds, and functions passed to the objects do not throw when they are called',
       'atomics are sequentially consistent (the code uses the default order); progress (that a waiting thread eventually runs) is not proved']
PIPE = THR + ['callers keep the number of outstanding items of each queue at or below the buffer size and complete all pushes before they destroy the object',
              'the flag of a std::optional slot is read and written indivisibly (it is a plain bool shared by two threads)',
              'counters stay below 2^62',
              'instances with buffers of 1, 2, 3, 4, 300 and (push only) 70000 items, pools of 1, 2, 3 and 5 workers and items of 4, 8 and 24 bytes stand for the template parameters']
IVAL = THR + ['the period and the interval are below 2^40 ms and not negative; the clock returns times within 73 years of its epoch',
              'a read of the period or of the interval is indivisible (they are plain 64-bit words shared by two threads)',
              'stop() and destruction are not called from inside the function, nor by two threads at a time']
ARGV = ['std::map: operator[] gives the place of the value stored under a key equal to the given one, which never moves; iteration meets every element once',
        'std::string, std::function destruction, std::vector growth and the string streams (insertion, conversion) do what the standard says; bcmp compares bytes',
        'parse is given argc valid strings; a registered member belongs to the options',
        'the step from the two units to the property (every stored function is called once per argument and does what was proved for it) is made on paper',
        'one options type with external constructors stands for the template parameter; member offsets are arbitrary']
PROPS = {
    'C01': dict(title='heap hands out valid blocks', modules=['heap'], driver='heap.cpp', assumptions=HEAP),
    'C02': dict(title='heap leaves used memory alone', modules=['heap'], driver='heap.cpp', assumptions=HEAP),
    'C03': dict(title='heap accounting', modules=['heap'], driver='heap.cpp', assumptions=HEAP),
    'C04': dict(title='heap coalescing and refusal', modules=['heap'], driver='heap.cpp', assumptions=HEAP),
    'C05': dict(title='heap repeated frees', modules=['heap'], driver='heap.cpp', assumptions=HEAP),
    'C06': dict(title='allocator adaptor', modules=['allocator'], driver='heap.cpp', assumptions=ADA),
    'C07': dict(title='static registry', modules=['registry'], driver='registry.cpp', assumptions=REG),
    'C08': dict(title='dynamic registry', modules=['registry'], driver='registry.cpp', assumptions=REG),
    'C09': dict(title='notification', modules=['registry'], driver='registry.cpp', assumptions=REG),
    'C10': dict(title='compile-time observer list', modules=['events'], driver='events.cpp',
                assumptions=['instances with 1, 2, 3, 4 and 6 observers of three types (one with a non-zero base offset) stand for the variadic template']),
    'C11': dict(title='value operators', modules=['registry'], driver='registry.cpp', assumptions=REG),
    'C12': dict(title='value registry', modules=['registry'], driver='registry.cpp', assumptions=REG),
    'C13': dict(title='observed value', modules=['observed'], driver='observed.cpp',
                assumptions=['the callback may read the object but does not replace the function or destroy the object while it runs']),
    'C14': dict(title='message routing', modules=['mediator'], driver='mediator.cpp', assumptions=MED),
    'C15': dict(title='module table', modules=['mediator'], driver='mediator.cpp', assumptions=MED),
    'C16': dict(title='byte-order types', modules=['endian'], driver='endian.cpp',
                assumptions=['the big-endian units use the host C++ headers compiled for aarch64_be']),
    'C17': dict(title='byte-exact conversion', modules=['endian'], driver='endian.cpp',
                assumptions=['types of 1, 2, 4, 7, 8 and 64 bytes stand for the template parameter']),
    'C18': dict(title='packet', modules=['packet'], driver='packet.cpp', assumptions=PKT),
    'C19': dict(title='packet accessor', modules=['packet'], driver='packet.cpp', assumptions=PKT),
    'C20': dict(title='in-place implementation object', modules=['events'], driver='events.cpp',
                assumptions=['instances with three size and alignment combinations stand for the template parameters']),
    'C21': dict(title='command line options', modules=['argv'], driver='argv.cpp', assumptions=ARGV),
    'C22': dict(title='interval event', modules=['threads'], driver='threads.cpp', assumptions=IVAL),
    'C23': dict(title='pipeline stage', modules=['threads'], driver='threads.cpp', assumptions=PIPE),
    'C24': dict(title='pipeline pool', modules=['threads'], driver='threads.cpp', assumptions=PIPE),
}
NOT_APPLICABLE = {
    'C25': 'cannot be decided: put and get do not compile when instantiated (item.template get<0>() on a std::tuple; structured binding of three elements into two; '
           'comparison of a duration count with a time_point), so there is no code to verify',
}
