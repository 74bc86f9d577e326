"""Contracts for allocators/static_heap_allocator.hpp (C06), over the contract of static_heap."""
import re
import z3
from irvc.dom import S, TRUE, FALSE, num, is_num
from irvc.exec import Region, Part, Unsupported, Dead
from irvc.unit import Spec, Unit
from irvc import front
from registry import obj_base, ext_range, ext_ptr, put, get

CALLS = r'^_ZN6xitren10allocators11static_heapI\w+?E(8allocateEm|10deallocateEPv)$'
ALLOC = ('@_ZTISt9bad_alloc', '@_ZTISt20bad_array_new_length', 'std::bad_alloc', 'std::bad_array_new_length')
U64 = 1 << 64


def truth(v):
    return v if z3.is_bool(v) else v != 0


class Adaptor(Spec):
    dom = 'int'
    covers = ('done',)
    size = 1000
    bytes = 4

    def adaptor(self, ctx, st, name, writable=True, init=True):
        L = front.find_layout(ctx.lay, r'xitren::allocators::static_heap_allocator<(?:struct )?elem, %d>' % self.size)
        self.mo = L.find(('manager_',), (r'static_heap<.*> ?[&*]',))
        if self.mo is None:
            raise Unsupported('the heap is not found in the layout of the adaptor')
        b = obj_base(ctx, st, name, L.size)
        p = Part(0, L.size)
        st.add_region(Region(name, b, L.size, [p], writable=writable))
        h = None
        if init:
            for off in range(0, L.size, 8):
                w = min(8, L.size - off) * 8
                put(st, [p], off, st.fresh('pre_%s_%d' % (name, off), w), w)
            h = ext_ptr(ctx, st, 'heap_' + name)
            put(st, [p], self.mo, h, 64)
        return b, p, h

    def setup(self, ctx, st):
        d = ctx.dom
        ctx.ext_range = ext_range(d)
        ctx.opaque = re.compile(CALLS)
        op = self.op
        st.ghost['got'] = ()
        a, p, h = self.adaptor(ctx, st, 'a', writable=op in ('ctor', 'copy', 'move', 'rebind', 'select'),
                               init=op not in ('ctor', 'copy', 'move', 'rebind', 'select'))
        self.p, self.h = p, h
        args = [a]
        if op == 'ctor':
            self.want = ext_ptr(ctx, st, 'heap')
            args.append(self.want)
        elif op in ('copy', 'move', 'rebind', 'select', 'eq', 'ne', 'eqr'):
            b, _, self.want = self.adaptor(ctx, st, 'b', writable=False)
            args.append(b)
        elif op == 'allocate':
            self.n = d.var('n', 64)
            st.assume(d.range(self.n, 64))
            ctx.inputs['n'] = self.n
            args.append(self.n)
        elif op == 'deallocate':
            self.ptr = ext_ptr(ctx, st, 'ptr')
            args += [self.ptr, st.fresh('n', 64)]
        self.node = dict(st.mem[p])
        return [(st, args)]

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        if not (name and ctx.opaque.search(name)):
            return NotImplemented
        ctx.oblige(st, '%s: the call goes to the heap of the adaptor' % self.op, av[0] == self.h if self.h is not None else FALSE, loc)
        ctx.oblige(st, '%s: the heap is asked once' % self.op, z3.BoolVal(not st.ghost['got']), loc)
        if '10deallocate' in name:
            ctx.oblige(st, 'deallocate: only deallocate returns memory', z3.BoolVal(self.op == 'deallocate'), loc)
            ctx.oblige(st, 'deallocate: the pointer given is returned to the heap', av[1] == self.ptr, loc)
            st.ghost['got'] = (None,)
            return None
        ctx.oblige(st, 'allocate: only allocate takes memory', z3.BoolVal(self.op == 'allocate'), loc)
        ctx.oblige(st, 'allocate: the bytes requested hold n elements', av[1] >= self.n * self.bytes, loc)
        s2 = st.copy()
        s2.ghost['got'] = (z3.IntVal(0),)
        r = ext_ptr(ctx, st, 'block')
        st.ghost['got'] = (r,)
        return ('multi', [(st, r), (s2, z3.IntVal(0))])

    def post(self, ctx, o):
        st, op = o.st, self.op
        if op == 'allocate':
            got = st.ghost['got']
            if o.kind == 'ret':
                ctx.prove(st, 'post: allocate never returns null', o.val != 0)
                ctx.oblige(st, 'post: allocate returns what the heap handed out', o.val == got[0] if got else FALSE)
                return ['served']
            ctx.oblige(st, 'post: allocate reports failure as bad_alloc', z3.BoolVal(st.exc is not None and st.exc[2] in ALLOC))
            if got:
                ctx.oblige(st, 'post: allocate throws only if the heap has no memory', got[0] == 0)
            else:
                ctx.oblige(st, 'post: allocate throws without asking the heap only if the elements cannot fit', z3.Or(
                    self.n == 0, self.n * self.bytes + 16 > self.size))
            return ['refused']
        if o.kind != 'ret':
            ctx.oblige(st, 'post: %s does not throw' % op, FALSE)
            return
        if op in ('eq', 'eqr'):
            ctx.prove(st, 'post: adaptors are equal exactly if they share the heap', truth(o.val) == (self.h == self.want))
        elif op == 'ne':
            ctx.prove(st, 'post: adaptors differ exactly if they do not share the heap', truth(o.val) == (self.h != self.want))
        elif op == 'deallocate':
            ctx.prove(st, 'post: the memory is returned to the heap', z3.BoolVal(bool(st.ghost['got'])))
        else:
            ctx.prove(st, 'post: the adaptor uses the heap it was given', get(st, [self.p], self.mo, 64) == self.want)
        return ['done']


def units():
    us = []
    for b in (1, 4, 24):
        D = ('-DSIZE=1000', '-DBYTES=%d' % b)
        for op in ('ctor', 'copy', 'move', 'rebind', 'select', 'allocate', 'deallocate', 'eq', 'ne', 'eqr'):
            if b != 4 and op != 'allocate':
                continue
            sp = Adaptor(op=op, bytes=b, covers=('served', 'refused') if op == 'allocate' else ('done',))
            us.append(Unit('static_heap_allocator<%d bytes,1000>::%s' % (b, op), ['C06'], 'allocator.cpp', 'a_' + op, sp, defs=D, budget=60, noinline=CALLS))
    return us
