"""Contracts for allocators/static_heap.hpp (C01-C05).

Ghost state: B, the set of addresses at which a block starts, and F, the number of free bytes from a block to the end of
the arena.  The invariant speaks about block headers only, so it holds whatever users write into their blocks.

base  the blocks partition [lo, end); the free ones form an ascending list that contains every free block
coal  no two neighbouring blocks are free
acct  the free-byte counter is the sum of the sizes of the free blocks"""
import re
import z3
from irvc.dom import S, TRUE, FALSE, num, is_num
from irvc.exec import Region, Part, Forall, Cand, Unsupported, Dead, State, Ctx, Frame
from irvc.unit import Spec, Unit
from irvc import front
from observed import Observed
from registry import obj_base, ext_range, ext_ptr, put, get

WORDS = (('f0', 0), ('f1', 8), ('man', 16), ('inv', 24))
TOP = 1 << 63
U64 = 1 << 64


class Layout:
    def __init__(self, ctx, size):
        L = front.find_layout(ctx.lay, r'xitren::allocators::static_heap<%d>' % size)
        H = front.find_layout(ctx.lay, r'xitren::allocators::static_heap<%d>::\w*link\w*' % size)
        self.size = L.size
        self.arena = L.find(('uc_heap_',), (r'^(?:std::)?uint8_t ?\[%d\]$|^(?:std::)?array<' % size,))
        self.cb = L.find(('callback_',), (r'^callback_t$|^(?:std::)?function<',))
        self.start = L.find(('x_start_',), (r'link\w*$',))
        self.end = L.find(('px_end_',), (r'link\w* \*$',))
        self.free = L.find(('x_free_bytes_remaining_',))
        self.min = L.find(('x_minimum_ever_free_bytes_remaining_',))
        self.no = H.find(('px_next_free_block',), (r'\*$',))
        self.so = H.find(('x_block_size',), (r'size_t$|^unsigned long$',))
        if None in (self.arena, self.cb, self.start, self.end, self.free, self.min, self.no, self.so):
            raise Unsupported('fields of static_heap not found')
        if self.arena % 8 or H.size != 16:
            raise Unsupported('layout of static_heap')


def region(ctx, st, o, L, n):
    """the heap object: the arena as words, everything else as cells"""
    w = n // 8 * 8
    arr = Part(L.arena, w, 'array', 8, None)
    cells = [Part(0, L.arena), Part(L.arena + w, L.size - L.arena - w)]
    cells = [p for p in cells if p.size]
    st.add_region(Region('heap', o, L.size, [p for p in [cells[0] if cells[0].off == 0 else None, arr] + [c for c in cells if c.off] if p]))
    return arr, cells


def learn(ctx, L, n):
    """where the constructor puts the first and the last block, and the canary"""
    c2 = Ctx(ctx.mod, ctx.dom, 'probe:ctor')

    class Sp(Spec):
        no_termination = True
        force_unroll = True
    c2.spec = Sp()
    c2.spec.ctx = c2
    st = State(c2)
    o = obj_base(c2, st, 'o', L.size)
    arr, cells = region(c2, st, o, L, n)
    f = ctx.mod.funcs['h_ctor']
    fr = Frame(f, ctx.mod)
    fr.env[f.params[0][1]] = o
    st.frames.append(fr)
    outs = [x for x in c2.run([st]) if x.kind == 'ret']
    if len(outs) != 1:
        raise Unsupported('the constructor of the heap has %d outcomes' % len(outs))
    s = outs[0].st
    end = S(get(s, cells, L.end, 64) - o)
    if not is_num(end):
        raise Unsupported('the end marker is not at a fixed place')
    end = num(end)
    can = S(s.read_array(arr, S(o + end + L.no)))
    if not is_num(can) or num(can) == 0:
        raise Unsupported('the canary is not a constant')
    h = S(get(s, cells, L.start, 64) if L.no == 0 else get(s, cells, L.start + L.no, 64))
    # the start of the list decoded
    lo = S(ctx.dom.xor(s, h, can, 64) - o)
    if not is_num(lo):
        raise Unsupported('the first block is not at a fixed place')
    return num(lo), end, num(can)


class Heap(Spec):
    dom = 'int'
    size = 1000
    part = 'base'
    kind = 'blk'
    deep = 0
    grain = 8

    # -- object model
    def build(self, ctx, st, fresh=True):
        d = ctx.dom
        ctx.ext_range = ext_range(d)
        L = self.L = Layout(ctx, self.size)
        lo, end, can = learn(ctx, L, self.size)
        o = self.o = obj_base(ctx, st, 'o', L.size)
        self.arr, self.cells = region(ctx, st, o, L, self.size)
        self.lo, self.end, self.can = S(o + lo), S(o + end), can
        self.xs = S(o + L.start)
        self.C = z3.IntVal(can)
        d.xor(st, z3.Int('dummy'), self.C, 64)
        self.f = d._xor[(can, 64)]
        st.assume(z3.And(self.f(self.C) == 0, self.f(z3.IntVal(0)) == can))
        self.B = z3.Function('B', z3.IntSort(), z3.BoolSort())
        self.F = z3.Function('F', z3.IntSort(), z3.IntSort())
        self.Z = z3.Function('Z', z3.IntSort(), z3.IntSort())
        self.AL = z3.Function('AL', z3.IntSort(), z3.BoolSort())
        self.node0 = st.mem[self.arr]
        ctx.kind_shape[self.kind] = lambda k: self.lo + 8 * k
        for p in self.cells:
            for off in range(p.off, p.off + p.size, 8):
                w = min(8, p.off + p.size - off) * 8
                put(st, self.cells, off, st.fresh('pre_%d' % off, w), w)
        st.ghost['calls'] = z3.IntVal(0)
        return o

    def cell(self, st, off):
        return get(st, self.cells, off, 64)

    def pre(self, ctx, st):
        """assume the invariant of a heap between two operations"""
        L = self.L
        put(st, self.cells, L.start + L.so, z3.IntVal(0), 64)
        put(st, self.cells, L.end, self.end, 64)
        self.man, self.inv = self.cell(st, L.cb + 16), self.cell(st, L.cb + 24)
        self.free0, self.min0 = self.cell(st, L.free), self.cell(st, L.min)
        ctx.inputs['free bytes'] = self.free0
        self.pre_cells = {p: dict(st.mem[p]) for p in self.cells}
        self.v0 = HeapView(self, st, self.B, self.F, pre=True)
        for f in self.v0.base():
            st.assume(f)
        for t in (self.lo, self.v0.head()):
            self.term(st, t, 1)

    def term(self, st, t, depth=0):
        """consider t as a block: the invariant is instantiated for it (and its successors)"""
        st.add_term(self.kind, t, 0)
        if depth:
            v = self.v0
            self.term(st, S(t + v.sz(st, t)), depth - 1)
            self.term(st, v.nx(st, t), depth - 1)

    def on_load(self, ctx, st, p, a, v):
        if p is self.arr:
            self.on_access(ctx, st, a)

    def on_access(self, ctx, st, a):
        """an address that is accessed is the header of a block, for all we know"""
        _, c = ctx.dom.linear(a)
        L = self.L
        k = [x for x in (L.no, L.so) if x == c]
        for x in k or (L.no, L.so):
            st.add_term(self.kind, S(a - x), 0)

    def assume_part(self, st):
        """the part of the invariant that the execution itself does not rest on"""
        for f in (self.v0.coal() if self.part == 'coal' else self.v0.acct() if self.part == 'acct' else []):
            st.assume(f)

    # -- the invariant
    def inductive(self, ctx, st, v, terms=()):
        """prove the invariant in view v"""
        for t in terms:
            self.term(st, t, 1)
        for nm, f in self.named(v):
            if not isinstance(f, Forall):
                ctx.prove(st, 'invariant: ' + nm, f)
                continue
            s2 = st.copy()
            ks = []
            for i in range(f.arity):
                k = S(self.lo + 8 * s2.fresh('sk', 64))
                self.term(s2, k, 2 - f.arity)
                ks.append(k)
            v.st = s2
            try:
                ctx.oblige(s2, 'invariant: ' + nm, (f.fn if f.arity == 1 else f.half)(*ks))
            except Dead:
                pass
            v.st = st

    def abstract(self, ctx, st, v1, changed, facts, terms):
        """prove the coal/acct part of the invariant from what happened to the headers: `changed` lists (block, size, in use)
        for the blocks whose header changed; that all others kept theirs is proved here, the rest in a state of its own"""
        v0 = self.v0
        s2 = st.copy()
        k = S(self.lo + 8 * s2.fresh('sk', 64))
        self.term(s2, k)
        other = z3.And(self.B(k), v1.B(k), *[k != t for t, _, _ in changed])
        try:
            ctx.oblige(s2, 'headers: all other blocks keep their size and their owner', z3.Implies(
                other, z3.And(v1.sz(s2, k) == v0.sz(s2, k), v1.al(s2, k) == v0.al(s2, k))))
        except Dead:
            pass
        for t, z, al in changed:
            ctx.prove(st, 'headers: the blocks involved have their new size and owner', z3.And(v1.sz(st, t) == z, v1.al(st, t) == al))
        for f in facts:
            ctx.prove(st, 'headers: the blocks involved', f)
        n = next(ctx.cnt)
        Z1 = z3.Function('Z!%d' % n, z3.IntSort(), z3.IntSort())
        A1 = z3.Function('AL!%d' % n, z3.IntSort(), z3.BoolSort())
        s3 = State(ctx)
        s3.mem, s3.regions = dict(st.mem), list(st.regions)
        s3.trail = list(st.trail)
        o = self.o
        s3.assume(z3.And(o >= 1 << 40, o < 1 << 44, o % 8 == 0))
        a0 = HeapView(self, s3, self.B, self.F, pre=True)
        a0.free_cell, a0.min_cell = self.free0, self.min0
        a1 = HeapView(self, s3, v1.B, v1.F)
        a1.free_cell, a1.min_cell = v1.free_cell, v1.min_cell
        a1.sz, a1.al = (lambda st, a: Z1(S(a))), (lambda st, a: A1(S(a)))
        for f in facts:
            s3.assume(f)
        for t, z, al in changed:
            s3.assume(z3.And(Z1(S(t)) == z, A1(S(t)) == al))
        ctx.prove(st, 'headers: the counters', z3.And(*[z3.And(x >= 0, x < U64) for x in (self.free0, self.min0)]))
        s3.assume(z3.And(self.free0 >= 0, self.min0 >= 0))
        s3.assume(self.B(self.lo))
        for nm, f in a0.base_named():
            if nm in ('every block lies in the arena with an aligned size', 'blocks follow each other up to the end', 'blocks are disjoint'):
                s3.assume(f)
        for f in (a0.coal() if self.part == 'coal' else a0.acct()):
            s3.assume(f)
        s3.assume(Forall(self.kind, lambda a: z3.And(self.Z(a) >= 0, self.Z(a) < TOP, Z1(a) >= 0, Z1(a) < TOP, z3.Implies(
            z3.And(self.B(a), v1.B(a), *[a != t for t, _, _ in changed]), z3.And(Z1(a) == self.Z(a), A1(a) == self.AL(a))))))
        if getattr(self, 'nolow', None):
            s3.assume(Forall(self.kind, self.nolow))
        for t in [self.lo] + list(terms):
            s3.add_term(self.kind, t, 0)
        for nm, f in self.named(a1):
            if nm in ('the free bytes are the sum of the sizes of the free blocks', 'the minimum never exceeds the free bytes'):
                # how the counters change is proved on the path itself
                s4 = s3.copy()
                for g in getattr(self, 'delta', ()):
                    s4.assume(g)
                ctx.prove(s4, 'invariant: ' + nm, f)
                continue
            s4 = s3.copy()
            ks = []
            for i in range(f.arity):
                k = S(self.lo + 8 * s4.fresh('sk', 64))
                s4.add_term(self.kind, k, 0)
                s4.add_term(self.kind, S(k + self.Z(k)), 0)
                ks.append(k)
            a1.st = s4
            try:
                ctx.oblige(s4, 'invariant: ' + nm, (f.fn if f.arity == 1 else f.half)(*ks))
            except Dead:
                pass

    def named(self, v):
        if self.part == 'base':
            return v.base_named()
        if self.part == 'coal':
            return v.coal_named()
        return v.acct_named()

    def unchanged(self, ctx, st, what):
        """nothing in the heap object changed"""
        node = st.mem[self.arr]
        if node is not self.node0:
            s2 = st.copy()
            x = S(self.lo + 8 * s2.fresh('word', 64))
            try:
                ctx.oblige(s2, what, s2._ra(node, x, self.arr) == s2._ra(self.node0, x, self.arr))
            except Dead:
                pass
        self.cells_same(ctx, st, what)

    def cells_same(self, ctx, st, what, skip=()):
        for p in self.cells:
            for off, e in self.pre_cells[p].items():
                if e[2] or any(s <= off < s + 8 for s in skip):
                    continue
                ctx.prove(st, what, st.read_cells(p, off, e[1] // 8) == e[0])

    def bound(self, ctx, st, p):
        """consequences of the accounting invariant at block p, proved on their own"""
        s3 = State(ctx)
        s3.mem, s3.regions = dict(st.mem), list(st.regions)
        s3.assume(z3.And(self.o >= 1 << 40, self.o < 1 << 44, self.o % 8 == 0, self.B(self.lo)))
        a0 = HeapView(self, s3, self.B, self.F, pre=True)
        a0.free_cell, a0.min_cell = self.free0, self.min0
        for nm, f in a0.base_named():
            if nm in ('every block lies in the arena with an aligned size', 'blocks are disjoint'):
                s3.assume(f)
        for f in a0.acct():
            s3.assume(f)
        s3.assume(z3.And(self.Z(p) >= 0, self.Z(p) < TOP))
        s3.assume(z3.And(self.free0 >= 0, self.min0 >= 0))
        for t in (self.lo, p):
            s3.add_term(self.kind, t, 0)
        fs = [z3.Implies(z3.And(self.B(p), z3.Not(self.AL(p))), self.Z(p) <= self.free0),
              z3.Implies(z3.And(self.B(p), self.AL(p)), self.free0 + self.Z(p) <= self.end - self.lo)]
        for f in fs:
            ctx.prove(s3, 'accounting: a free block is part of the free bytes, an allocated one is not', f)
        return fs

    def user_memory(self, ctx, st, v1, but=None):
        """what users stored in their blocks is still there, and the blocks are still theirs"""
        s2 = st.copy()
        v0 = self.v0
        k = S(self.lo + 8 * s2.fresh('mine', 64))
        self.term(s2, k, 1)
        x = S(self.lo + 8 * s2.fresh('word', 64))
        s2.assume(z3.And(self.B(k), v0.al(s2, k), k + 16 <= x, x + 8 <= k + v0.sz(s2, k)))
        if but is not None:
            s2.assume(k != but)
        try:
            ctx.oblige(s2, 'frame: memory of allocated blocks is unchanged', v1.m(s2, x) == v0.m(s2, x))
            ctx.oblige(s2, 'frame: allocated blocks stay allocated', z3.And(v1.B(k), v1.al(s2, k), v1.sz(s2, k) == v0.sz(s2, k)))
        except Dead:
            pass

    # -- loop invariants
    def candidates(self, ctx, st, lvs, init):
        out = []
        v0, B, end, f = self.v0, self.B, self.end, self.f
        w = getattr(self, 'w', None)
        b = getattr(self, 'b', None)

        def fr(s, x):
            return z3.And(B(x), z3.Not(v0.al(s, x)))

        def mem(s, x):
            return z3.If(x == self.xs, v0.head_word(), v0.m(s, x + self.L.no))

        vs = [lv for lv in lvs if lv.w == 64]
        for lv in vs:
            k, n = lv.key, lv.name
            for nm, g in ((n, lambda v, k=k: v[k]), ('dec ' + n, lambda v, k=k: f(v[k]))):
                out.append(Cand('free or end %s' % nm, lambda v, g=g: z3.Or(g(v) == end, fr(v.st, g(v)))))
                out.append(Cand('free %s' % nm, lambda v, g=g: fr(v.st, g(v))))
                out.append(Cand('free or start %s' % nm, lambda v, g=g: z3.Or(g(v) == self.xs, fr(v.st, g(v)))))
                out.append(Cand('%s > lo' % nm, lambda v, g=g: g(v) >= self.lo))
                if b is not None:
                    out.append(Cand('%s before' % nm, lambda v, g=g: z3.Or(g(v) == self.xs, g(v) < b)))
                    out.append(Cand('%s < b' % nm, lambda v, g=g: g(v) < b))
                if w is not None:
                    out.append(Cand('none fits below %s' % nm, lambda v, g=g: Forall(self.kind, lambda c: z3.Implies(
                        z3.And(fr(v.st, c), c < g(v)), v0.sz(v.st, c) < w))))
                    out.append(Cand('none fits up to %s' % nm, lambda v, g=g: Forall(self.kind, lambda c: z3.Implies(
                        z3.And(fr(v.st, c), z3.Or(c <= g(v), g(v) == self.xs)), z3.And(g(v) != self.xs, v0.sz(v.st, c) < w)))))
                    out.append(Cand('none fits from the start up to %s' % nm, lambda v, g=g: Forall(self.kind, lambda c: z3.Implies(
                        z3.And(fr(v.st, c), g(v) != self.xs, c <= g(v)), v0.sz(v.st, c) < w))))
                    out.append(Cand('none fits up to %s or start' % nm, lambda v, g=g: z3.Or(g(v) == self.xs, z3.And(fr(v.st, g(v)), v0.sz(v.st, g(v)) < w))))
                out.append(Cand('term %s' % nm, lambda v, g=g: self.touch(v.st, g(v))))
        for la in vs:
            for lb in vs:
                if la is lb:
                    continue
                a, c = la.key, lb.key
                out.append(Cand('%s == mem(%s)' % (la.name, lb.name), lambda v, a=a, c=c: v[a] == mem(v.st, v[c])))
                out.append(Cand('%s == next(%s)' % (la.name, lb.name), lambda v, a=a, c=c: v[a] == f(mem(v.st, v[c]))))
                out.append(Cand('%s < %s or start' % (lb.name, la.name), lambda v, a=a, c=c: z3.Or(v[c] == self.xs, v[c] < v[a])))
        return out

    def measures(self, ctx, st, lvs):
        """a walk along the list: from its head, then through ascending addresses"""
        return [('list position of %s' % lv.name, lambda v, k=lv.key: z3.If(v[k] == self.xs, 0, v[k] + 1)) for lv in lvs if lv.w == 64]

    def touch(self, st, t):
        self.term(st, t, self.deep)
        return TRUE

    def at_header(self, ctx, st, lvs, v):
        for lv in lvs:
            if lv.w == 64:
                for t in (v[lv.key], self.f(v[lv.key])):
                    self.term(st, S(t), self.deep)

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        return NotImplemented


def pairs(kind, half):
    """for all ordered pairs"""
    f = Forall(kind, lambda a, b: z3.And(half(a, b), half(b, a)), arity=2)
    f.half = half
    return f


class HeapView:
    """a heap state as block structure: header words from one memory, block set B, free sums F"""

    def __init__(self, sp, st, B, F, pre=False):
        self.sp, self.st, self.B, self.F, self.pre = sp, st, B, F, pre
        self.node = st.mem[sp.arr]
        self.free_cell = sp.cell(st, sp.L.free)
        self.min_cell = sp.cell(st, sp.L.min)
        self.head_cell = sp.cell(st, sp.L.start + sp.L.no)
        self.end_cell = sp.cell(st, sp.L.end)
        self.xs_size = sp.cell(st, sp.L.start + sp.L.so)

    def m(self, st, a):
        return st._ra(self.node, S(a), self.sp.arr)

    def h(self, st, a):
        return self.m(st, a + self.sp.L.so)

    def sz(self, st, a):
        if self.pre:
            return self.sp.Z(S(a))
        h = self.h(st, a)
        return z3.If(h >= TOP, h - TOP, h)

    def al(self, st, a):
        if self.pre:
            return self.sp.AL(S(a))
        return self.h(st, a) >= TOP

    def nw(self, st, a):
        return self.m(st, a + self.sp.L.no)

    def nx(self, st, a):
        return S(self.sp.f(self.nw(st, a)))

    def head_word(self):
        return self.head_cell

    def head(self):
        return S(self.sp.f(self.head_cell))

    def fr(self, st, a):
        return z3.And(self.B(a), z3.Not(self.al(st, a)))

    def rng(self, st, a):
        h, n = self.h(st, a), self.nw(st, a)
        z, al = self.sp.Z(S(a)), self.sp.AL(S(a))
        # Z and AL name the size and the in-use bit of the header word
        return z3.And(h == z + z3.If(al, TOP, 0), z >= 0, z < TOP, n >= 0, n < U64)

    # every formula is named, so that a failed obligation says what breaks
    def base_named(self):
        sp = self.sp
        st = lambda: self.st
        lo, end = sp.lo, sp.end
        k = sp.kind

        def shape(a):
            s = st()
            z = self.sz(s, a)
            return z3.Implies(self.B(a), z3.And(lo <= a, a < end, (a - lo) % 8 == 0, z >= 16, z % 8 == 0, a + z <= end))

        def succ(a):
            s = st()
            e = a + self.sz(s, a)
            return z3.Implies(self.B(a), z3.Or(e == end, self.B(S(e))))

        def link(a):
            s = st()
            n = self.nx(s, a)
            return z3.Implies(self.fr(s, a), z3.Or(n == end, z3.And(self.fr(s, n), n > a)))

        def mark(a):
            s = st()
            return z3.Implies(z3.And(self.B(a), self.al(s, a)), self.nw(s, a) == sp.can)

        def disj(a, b):
            return z3.Implies(z3.And(self.B(a), self.B(b), a < b), a + self.sz(st(), a) <= b)

        def order(a, b):
            s = st()
            return z3.Implies(z3.And(self.fr(s, a), self.fr(s, b), a < b), b >= self.nx(s, a))

        def first(a):
            s = st()
            return z3.Implies(self.fr(s, a), a >= self.head())
        hd = self.head()
        return [('the first block starts the arena', z3.And(self.B(lo), lo < end)),
                ('every block lies in the arena with an aligned size', Forall(k, shape)),
                ('blocks follow each other up to the end', Forall(k, succ)),
                ('blocks are disjoint', pairs(k, disj)),
                ('the list starts with a free block or the end', z3.Or(hd == end, self.fr(self.st, hd))),
                ('the next of a free block is a later free block or the end', Forall(k, link)),
                ('no free block is missing at the start of the list', Forall(k, first)),
                ('no free block is missing inside the list', pairs(k, order)),
                ('allocated blocks are out of the list', Forall(k, mark)),
                ('the end marker is intact', z3.And(self.end_cell == end, self.m(self.st, end + sp.L.so) == 0, self.m(self.st, end + sp.L.no) == sp.can)),
                ('the list head is no block', self.xs_size == 0)]

    def base(self):
        return [Forall(self.sp.kind, lambda a: self.rng(self.st, a))] + [f for _, f in self.base_named()]

    def coal_named(self):
        def coal(a):
            s = self.st
            e = S(a + self.sz(s, a))
            return z3.Implies(self.fr(s, a), z3.Or(e == self.sp.end, self.al(s, e)))
        return [('neighbouring free blocks are merged', Forall(self.sp.kind, coal))]

    def coal(self):
        return [f for _, f in self.coal_named()]

    def acct_named(self):
        sp = self.sp
        k = sp.kind

        def summ(a):
            s = self.st
            e = S(a + self.sz(s, a))
            return z3.Implies(self.B(a), self.F(a) == z3.If(self.al(s, a), 0, self.sz(s, a)) + z3.If(e == sp.end, 0, self.F(e)))

        def mono(a, b):
            s = self.st
            z = self.sz(s, a)
            return z3.Implies(z3.And(self.B(a), self.B(b), a < b), z3.And(
                self.F(a) >= self.F(b) + z3.If(self.al(s, a), 0, z), (b - a) - (self.F(a) - self.F(b)) >= z3.If(self.al(s, a), z, 0)))

        def tail(a):
            s = self.st
            z = self.sz(s, a)
            return z3.Implies(self.B(a), z3.And(self.F(a) >= z3.If(self.al(s, a), 0, z), (sp.end - a) - self.F(a) >= z3.If(self.al(s, a), z, 0)))
        return [('the free bytes are the sum of the sizes of the free blocks', z3.And(self.free_cell == self.F(sp.lo))),
                ('free sums follow the blocks', Forall(k, summ)),
                ('free sums decrease along the arena', pairs(k, mono)),
                ('free sums are bounded by the arena', Forall(k, tail)),
                ('the minimum never exceeds the free bytes', self.min_cell <= self.free_cell)]

    def acct(self):
        return [f for _, f in self.acct_named()]


class Allocate(Heap):
    covers = ('served', 'split', 'exact', 'refused', 'callback')

    def setup(self, ctx, st):
        o = self.build(ctx, st)
        n = ctx.dom.var('n', 64)
        st.assume(ctx.dom.range(n, 64))
        ctx.inputs['n'] = n
        self.n = n
        # the block size a request of n bytes needs: header and rounding
        self.w = z3.Int('w')
        st.assume(z3.And(self.w % 8 == 0, self.w >= n + 16, self.w < n + 24))
        self.pre(ctx, st)
        return [(st, [o, n])]

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        if fv is None or len(av) != 1:
            return NotImplemented
        if self.part == 'base':
            ctx.oblige(st, 'callback: the failure callback is called through the stored function', z3.And(fv == self.inv, av[0] == self.o + self.L.cb), loc)
            ctx.oblige(st, 'callback: only if one is set', self.man != 0, loc)
            ctx.oblige(st, 'callback: at most once', st.ghost['calls'] == 0, loc)
            self.unchanged(ctx, st, 'callback: the heap is unchanged and consistent when the callback runs')
        st.ghost['calls'] = S(st.ghost['calls'] + 1)
        return None

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: allocate does not throw', FALSE)
            return
        r = o.val
        null = r == 0
        if not st.entails(null) and not st.entails(z3.Not(null)):
            s2 = st.copy()
            s2.assume(null)
            st.assume(z3.Not(null))
            return (self.failed(ctx, s2) or []) + (self.served(ctx, st, r) or [])
        if st.entails(null):
            return self.failed(ctx, st)
        return self.served(ctx, st, r)

    def failed(self, ctx, st):
        v0 = self.v0
        if self.part == 'base':
            self.unchanged(ctx, st, 'post: a refused request changes nothing')
            ctx.prove(st, 'post: the failure callback runs exactly once if one is set', st.ghost['calls'] == z3.If(self.man != 0, 1, 0))
        if self.part == 'acct':
            s2 = st.copy()
            k = S(self.lo + 8 * s2.fresh('sk', 64))
            self.term(s2, k, 1)
            for f in self.bound(ctx, s2, k):
                s2.assume(f)
            try:
                ctx.oblige(s2, 'post: a request is refused only if no free block is large enough', z3.Implies(
                    z3.And(self.n > 0, v0.fr(s2, k)), v0.sz(s2, k) < self.w))
            except Dead:
                pass
        return ['refused'] + (['callback'] if num(st.ghost['calls']) else [])

    def served(self, ctx, st, r):
        d = ctx.dom
        v0 = self.v0
        p = S(r - 16)
        self.term(st, p, 1)
        v1 = HeapView(self, st, None, None)
        s1, s0 = v1.sz(st, p), v0.sz(st, p)
        sv1 = st.fresh('given', 64)
        st.assume(sv1 == s1)
        q = S(p + sv1)
        split = sv1 != s0
        self.term(st, q)
        v1.B = lambda a: z3.Or(self.B(a), z3.And(a == q, split))
        v1.F = lambda a: z3.If(a <= p, self.F(a) - sv1, z3.If(z3.And(a == q, split), self.F(p) - sv1, self.F(a)))
        if self.part == 'base':
            ctx.prove(st, 'post: the block handed out was a free block', v0.fr(st, p))
            ctx.prove(st, 'post: the block handed out is allocated now', z3.And(v1.B(p), v1.al(st, p)))
            ctx.prove(st, 'post: the block handed out has room for the request', z3.And(sv1 >= self.n + 16, self.n > 0))
            ctx.prove(st, 'post: the block handed out is not larger than the free block it was', sv1 <= s0)
            ctx.prove(st, 'post: the pointer is aligned and its bytes lie in the arena', z3.And(
                r % 8 == 0, r >= self.lo + 16, r + self.n <= self.end, self.end + 16 <= self.o + self.L.arena + self.size))
            ctx.prove(st, 'post: the failure callback does not run for a successful request', st.ghost['calls'] == 0)
            self.user_memory(ctx, st, v1)
        if self.part == 'acct':
            self.delta = [v1.free_cell == self.free0 - sv1, v1.min_cell == z3.If(v1.free_cell < self.min0, v1.free_cell, self.min0)]
            for f in self.bound(ctx, st, p):
                st.assume(f)
            ctx.prove(st, 'post: the free bytes decrease by the block taken', self.delta[0])
            ctx.prove(st, 'post: the minimum is the lowest free size', self.delta[1])
        if self.part == 'base':
            self.inductive(ctx, st, v1)
        else:
            end0 = S(p + self.Z(p))
            for sp in (TRUE, FALSE):
                s2 = st.copy()
                s2.assume(split if z3.is_true(sp) else z3.Not(split))
                if s2.check() == z3.unsat:
                    continue
                ch = [(p, sv1, TRUE)] + ([(q, S(self.Z(p) - sv1), FALSE)] if z3.is_true(sp) else [])
                fa = [v0.fr(s2, p), sv1 >= 16, sv1 % 8 == 0] + ([sv1 + 16 <= self.Z(p), split] if z3.is_true(sp) else [z3.Not(split)])
                v1.st = s2
                self.abstract(ctx, s2, v1, ch, fa, (p, q, end0))
            v1.st = st
        return [t for t, c in (('served', TRUE), ('split', split), ('exact', z3.Not(split))) if t not in self.hit and st.feasible(c)]


class Callocate(Heap):
    """zeroed allocation, over the contract of allocate"""
    covers = ('served', 'refused', 'overflow')

    def setup(self, ctx, st):
        ctx.opaque = re.compile(ALLOCATE)
        o = self.build(ctx, st)
        self.num, self.each = ctx.dom.var('number', 64), ctx.dom.var('size', 64)
        for x in (self.num, self.each):
            st.assume(ctx.dom.range(x, 64))
        ctx.inputs['number'], ctx.inputs['size'] = self.num, self.each
        self.pre(ctx, st)
        self.bytes = S(self.num * self.each)
        return [(st, [o, self.num, self.each])]

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        if not (name and ctx.opaque.search(name)):
            return NotImplemented
        ctx.oblige(st, 'callocate: the memory comes from this heap', av[0] == self.o, loc)
        ctx.oblige(st, 'callocate: one block is requested', z3.BoolVal('got' not in st.ghost), loc)
        ctx.oblige(st, 'callocate: the bytes requested are the number of elements times their size', av[1] == self.bytes, loc)
        self.unchanged(ctx, st, 'callocate: the heap is unchanged when the block is requested')
        s2 = st.copy()
        s2.ghost['got'] = None
        # the contract of allocate, proved on its own
        n = next(ctx.cnt)
        B1 = z3.Function('B!%d' % n, z3.IntSort(), z3.BoolSort())
        st.mem[self.arr] = ('base', ctx.fresh_array(self.arr))
        for q in self.cells:
            for off, e in self.pre_cells[q].items():
                if not e[2] and not self.L.cb <= off < self.L.cb + 32:
                    put(st, self.cells, off, st.fresh('post_%d' % off, e[1]), e[1])
        put(st, self.cells, self.L.start + self.L.so, z3.IntVal(0), 64)
        put(st, self.cells, self.L.end, self.end, 64)
        v1 = HeapView(self, st, B1, None)
        r = S(self.lo + 8 * st.fresh('block', 64) + 16)
        b = S(r - 16)
        for f in v1.base()[1:]:
            st.assume(f)
        st.assume(z3.And(B1(b), v1.al(st, b), v1.sz(st, b) >= av[1] + 16, av[1] > 0, r > 16))
        self.term(st, b)
        st.ghost['got'] = (r, v1, st.mem[self.arr], {q: dict(st.mem[q]) for q in self.cells})
        return ('multi', [(st, r), (s2, z3.IntVal(0))])

    def byte(self, ctx, st, node, a):
        """the byte at address a"""
        if node[0] == 'set':
            return z3.If(z3.And(node[2] <= a, a < node[2] + node[3]), node[4], self.byte(ctx, st, node[1], a))
        return st.fresh('byte', 8)

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: callocate does not throw', FALSE)
            return
        r = o.val
        got = st.ghost.get('got', 0)
        if got == 0:
            ctx.oblige(st, 'post: a request is refused without asking only if its bytes are none or do not fit in size_t', z3.And(r == 0, z3.Or(self.bytes >= U64, self.bytes == 0)))
            self.unchanged(ctx, st, 'post: a refused request changes nothing')
            return ['overflow']
        ctx.prove(st, 'post: nothing is handed out when the bytes do not fit in size_t', self.bytes < U64)
        if got is None:
            ctx.prove(st, 'post: null is returned if there is no memory', r == 0)
            self.unchanged(ctx, st, 'post: a refused request changes nothing')
            return ['refused']
        p, v1, node, cells = got
        ctx.prove(st, 'post: the block obtained is returned', r == p)
        s2 = st.copy()
        i = s2.fresh('byte', 64)
        s2.assume(i < self.bytes)
        ctx.prove(s2, 'post: every byte of the block is zero', self.byte(ctx, s2, s2.mem[self.arr], S(p + i)) == 0)
        for q in self.cells:
            for off, e in cells[q].items():
                if not e[2]:
                    ctx.prove(st, 'frame: the bookkeeping is as allocate left it', st.read_cells(q, off, e[1] // 8) == e[0])
        s2 = st.copy()
        k = S(self.lo + 8 * s2.fresh('sk', 64))
        x = S(self.lo + 8 * s2.fresh('word', 64))
        self.term(s2, k)
        B1 = v1.B
        s2.assume(z3.And(B1(k), k + 16 <= self.end))
        now = lambda a: s2._ra(s2.mem[self.arr], S(a), self.arr)
        was = lambda a: s2._ra(node, S(a), self.arr)
        L = self.L
        try:
            ctx.oblige(s2, 'frame: block headers are as allocate left them', z3.And(now(k + L.no) == was(k + L.no), now(k + L.so) == was(k + L.so)))
            ctx.oblige(s2, 'frame: the end marker is as allocate left it', z3.And(*[now(self.end + f) == was(self.end + f) for f in (L.no, L.so)]))
            s2.assume(z3.And(v1.al(s2, k), k != S(p - 16), k + 16 <= x, x + 8 <= k + v1.sz(s2, k)))
            ctx.oblige(s2, 'frame: memory of other allocated blocks is unchanged', now(x) == was(x))
        except Dead:
            pass
        return ['served']


class Deallocate(Heap):
    """case 'block': an allocated block; 'free': a block that is free already; 'null'"""
    case = 'block'
    deep = 1

    def setup(self, ctx, st):
        o = self.build(ctx, st)
        self.pre(ctx, st)
        v0 = self.v0
        if self.case == 'null':
            return [(st, [o, z3.IntVal(0)])]
        b = self.b = S(self.lo + 8 * ctx.dom.var('block', 64))
        st.assume(z3.And(b >= self.lo, b + 16 <= self.end))
        self.term(st, b, 1)
        if self.case == 'block':
            st.assume(z3.And(self.B(b), v0.al(st, b)))
        else:
            st.assume(z3.Not(z3.And(v0.al(st, b), v0.nw(st, b) == self.can)))
        return [(st, [o, S(b + 16)])]

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: deallocate does not throw', FALSE)
            return
        if self.case != 'block':
            self.unchanged(ctx, st, 'post: nothing changes')
            return ['ignored']
        b, v0 = self.b, self.v0
        v1 = HeapView(self, st, None, None)
        z0 = v0.sz(st, b)
        hi = S(b + z0)
        low = None
        for t in list(st.terms.get(self.kind, ())):
            if st.entails(z3.And(v0.fr(st, t), t + v0.sz(st, t) == b), quick=True):
                low = t
                break
        x = b
        lom = FALSE
        if low is not None:
            lom = v1.sz(st, low) != v0.sz(st, low)
            if st.entails(lom):
                lom = TRUE
                x = low
            elif st.entails(z3.Not(lom)):
                lom = FALSE
            else:
                raise Unsupported('merge undecided')
        end1 = S(x + v1.sz(st, x))
        him = z3.And(end1 != hi, hi != self.end)
        v1.B = lambda a: z3.And(self.B(a), z3.Not(z3.And(lom, a == b)), z3.Not(z3.And(him, a == hi)))
        v1.F = lambda a: z3.If(a <= b, self.F(a) + z0, self.F(a))
        if self.part == 'base':
            ctx.prove(st, 'post: the block is available again', z3.And(v1.fr(st, x), x <= b, x + v1.sz(st, x) >= hi))
            self.user_memory(ctx, st, v1, but=b)
        if self.part == 'acct':
            self.delta = [v1.free_cell == self.free0 + z0, v1.min_cell == self.min0]
            for f in self.bound(ctx, st, b):
                st.assume(f)
            ctx.prove(st, 'post: the free bytes increase by the block returned', self.delta[0])
            ctx.prove(st, 'post: the minimum stays', self.delta[1])
        if self.part == 'base':
            self.inductive(ctx, st, v1, (hi, x))
        else:
            for m in (TRUE, FALSE):
                s2 = st.copy()
                s2.assume(him if z3.is_true(m) else z3.Not(him))
                if s2.check() == z3.unsat:
                    continue
                z = self.Z(b) + (self.Z(low) if z3.is_true(lom) else 0) + (self.Z(hi) if z3.is_true(m) else 0)
                fa = [self.B(b), self.AL(b)]
                if z3.is_true(lom):
                    fa += [v0.fr(s2, low), low + self.Z(low) == b]
                if z3.is_true(m):
                    fa += [v0.fr(s2, hi), him]
                else:
                    fa += [z3.Not(him)]
                    if self.part == 'coal':
                        fa += [z3.Or(hi == self.end, self.AL(hi))]
                v1.st = s2
                if self.part == 'coal' and not z3.is_true(lom):
                    self.nolow = lambda k: z3.Implies(v0.fr(s2, k), k + self.Z(k) != b)
                    s3 = s2.copy()
                    k = S(self.lo + 8 * s3.fresh('sk', 64))
                    self.term(s3, k)
                    try:
                        ctx.oblige(s3, 'coalescing: a block is merged with the free block in front of it', self.nolow(k))
                    except Dead:
                        pass
                else:
                    self.nolow = None
                self.abstract(ctx, s2, v1, [(x, S(z), FALSE)], fa, [b, hi, x] + ([S(hi + self.Z(hi))] if z3.is_true(m) else []))
            v1.st = st
        return [t for t, c in (('low', lom), ('high', him), ('both', z3.And(lom, him)), ('none', z3.Not(z3.Or(lom, him))))
                if t not in self.hit and st.feasible(c)]


class Ctor(Heap):
    covers = ('done',)

    def setup(self, ctx, st):
        o = self.build(ctx, st)
        for p in self.cells:
            st.mem[p] = {}
        return [(st, [o])]

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: the constructor does not throw', FALSE)
            return
        lo, end = self.lo, self.end
        v1 = HeapView(self, st, lambda a: S(a) == lo, lambda a: z3.If(a == lo, end - lo, 0))
        self.v0 = v1
        self.inductive(ctx, st, v1, (lo,))
        if self.part == 'base':
            a = S(self.o + self.L.arena)
            ctx.prove(st, 'post: the arena lies in the heap object', z3.And(a <= lo, lo < end, end + 16 <= a + self.size, lo % 8 == 0, end % 8 == 0))
            ctx.prove(st, 'post: a new heap is one free block', v1.fr(st, lo))
            ctx.prove(st, 'post: a new heap has no failure callback', self.cell(st, self.L.cb + 16) == 0)
        if self.part == 'acct':
            ctx.prove(st, 'post: the minimum is the free size', v1.min_cell == v1.free_cell)
        return ['done']


class OnFail(Heap):
    """the failure callback set is a copy of the one given"""
    covers = ('set',)

    def setup(self, ctx, st):
        o = self.build(ctx, st)
        self.pre(ctx, st)
        self.f = {k: self.cell(st, self.L.cb + x) for k, x in WORDS}
        fb = obj_base(ctx, st, 'f', 32, 16)
        fp = Part(0, 32)
        st.add_region(Region('function', fb, 32, [fp], writable=False))
        self.nf = {}
        er = ctx.ext_range
        for k, x in WORDS:
            self.nf[k] = st.fresh('new_' + k, 64)
            put(st, [fp], x, self.nf[k], 64)
        for f in (self.f, self.nf):
            f['set'] = f['man'] != 0
            st.assume(z3.Implies(f['set'], z3.And(er(f['man']), er(f['inv']))))
        st.ghost['live'] = ((self.f['f0'], self.f['f1'], self.f['man'], self.f['set']),)
        return [(st, [o, fb])]

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        return Observed.on_event(self, ctx, st, fv, name, av, ins, loc)
    op = 'update'

    def post(self, ctx, o):
        st = o.st
        now = {k: self.cell(st, self.L.cb + x) for k, x in WORDS}
        self.cells_same(ctx, st, 'frame: nothing but the callback changes', [self.L.cb + x for _, x in WORDS])
        ctx.oblige(st, 'frame: nothing but the callback changes', z3.BoolVal(st.mem[self.arr] is self.node0))
        if o.kind != 'ret':
            ctx.oblige(st, 'post: only an exception of the callback object escapes', z3.BoolVal(st.ghost.get('threw', False)))
            ctx.prove(st, 'post: a failed on_fail keeps the old callback', z3.And(*[now[k] == self.f[k] for k, _ in WORDS]))
            return
        ctx.oblige(st, 'post: an exception of the callback object is reported', z3.BoolVal(not st.ghost.get('threw', False)))
        lv = [l for l in st.ghost['live'] if st.feasible(l[3])]
        held = [z3.And(l[0] == now['f0'], l[1] == now['f1'], l[2] == now['man']) for l in lv]
        ctx.prove(st, 'post: the heap holds a copy of the callback given', z3.If(
            self.nf['set'], z3.And(now['man'] == self.nf['man'], now['inv'] == self.nf['inv'], z3.Or(*held) if held else FALSE), now['man'] == 0))
        ctx.prove(st, 'post: no other callback copy stays alive', z3.And(*[z3.Or(z3.Not(l[3]), h) for l, h in zip(lv, held)]))
        return ['set']


class Query(Heap):
    covers = ('done',)
    what = 'free'

    def setup(self, ctx, st):
        o = self.build(ctx, st)
        self.pre(ctx, st)
        return [(st, [o])]

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: does not throw', FALSE)
            return
        self.assume_part(st)
        if self.what == 'reset':
            L = self.L
            ctx.prove(st, 'post: the minimum is the free size', self.cell(st, L.min) == self.free0)
            self.cells_same(ctx, st, 'frame: nothing else changes', (L.min,))
        else:
            ctx.prove(st, 'post: the reported size is the one accounted for', o.val == (self.free0 if self.what == 'free' else self.min0))
            self.unchanged(ctx, st, 'frame: a query changes nothing')
        return ['done']


# obligations that decide only some of the properties of their unit (all others decide all of them)
SCOPE = ((r'^callback:|failure callback|^post: a refused request', ('C04',)),
         (r'^post: the block handed out|^post: the pointer is aligned|^post: the arena lies', ('C01',)),
         (r'^frame: memory of|^frame: allocated blocks stay', ('C02',)),
         (r'^post: the block is available again', ('C04', 'C05')),
         (r'minimum', ('C03',)),
         (r'^post: a request is refused only', ('C04',)),
         (r'^post: a new heap has no failure callback', ('C04',)),
         (r'^(post: the free bytes (de|in)crease)', ('C03', 'C04')))
ALLOCATE = r'^_ZN6xitren10allocators11static_heapI\w+?E8allocateEm$'


def units():
    us = []
    ALL = ['C01', 'C02', 'C03', 'C04', 'C05']
    PR = {'base': ALL, 'coal': ['C04'], 'acct': ['C03', 'C04']}
    for n in (1000, 65, 102400):
        D = ('-DSIZE=%d' % n,)
        for part in ('base', 'coal', 'acct'):
            def U(name, fn, spec, props=None, budget=400, scope=SCOPE, **kw):
                us.append(Unit('heap<%d>/%s/%s' % (n, part, name), props or PR[part], 'heap.cpp', fn, spec, defs=D, budget=budget, scope=scope, **kw))
            U('constructor', 'h_ctor', Ctor(size=n, part=part))
            U('allocate', 'h_allocate', Allocate(size=n, part=part, covers=Allocate.covers if n > 100 else ('served', 'exact', 'refused', 'callback')))
            U('deallocate', 'h_deallocate', Deallocate(size=n, part=part, covers=('low', 'high', 'both', 'none')))
            if part == 'base':
                U('callocate', 'h_callocate', Callocate(size=n), ['C02'], scope=(), noinline=ALLOCATE)
                U('on_fail', 'h_onfail', OnFail(size=n), ['C04'])
                U('deallocate again', 'h_deallocate', Deallocate(size=n, part=part, case='free', covers=('ignored',)), ['C05'])
                U('deallocate null', 'h_deallocate', Deallocate(size=n, part=part, case='null', covers=('ignored',)), ['C05'])
            if part == 'acct':
                U('free_heap_size', 'h_free', Query(size=n, part=part, what='free'))
                U('minimum_ever_free_heap_size', 'h_min', Query(size=n, part=part, what='min'))
                U('reset_minimum', 'h_reset', Query(size=n, part=part, what='reset'))
    return us
