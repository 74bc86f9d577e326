"""Contracts for the observer registries (comm/observer.hpp, comm/values/observable.hpp): static and dynamic."""
import re
import z3
from irvc.dom import S, TRUE, FALSE, is_num, num
from irvc.exec import (Region, Part, Forall, Cand, Unsupported, Dead, State, Ctx, Frame)
from irvc.unit import Spec, Unit
from irvc import front

OK, FULL, CONTAINS, NOTFOUND, BROKEN, RECURSION = range(6)
EXT_LO, EXT_HI = 4096, 1 << 40
OBJ_LO, OBJ_HI = 1 << 40, 1 << 44


def ext_range(d):
    return lambda a: z3.And(d.ule(d.const(EXT_LO, 64), a), d.ult(a, d.const(EXT_HI, 64)))


def obj_base(ctx, st, name, size, align=8):
    d = ctx.dom
    b = d.var(name, 64)
    st.assume(d.range(b, 64))
    if d.name == 'int':
        b = S(align * b)
    st.assume(z3.And(d.ule(d.const(OBJ_LO, 64), b), d.ule(b, d.const(OBJ_HI - size, 64)), d.aligned(b, align)))
    ctx.basezone[b.get_id()] = (OBJ_LO, OBJ_HI)
    ctx.keep_base = getattr(ctx, 'keep_base', []) + [b]
    return b


def ext_ptr(ctx, st, name, align=8):
    d = ctx.dom
    x = d.var(name, 64)
    st.assume(d.range(x, 64))
    st.assume(z3.And(d.ule(d.const(EXT_LO, 64), x), d.ult(x, d.const(EXT_HI - (1 << 20), 64)), d.aligned(x, align)))
    ctx.mark_ext(st, x)
    return x


def put(st, parts, off, v, w):
    for p in parts:
        if p.kind == 'cells' and p.off <= off < p.off + p.size:
            for i in range(w // 8):
                st.mem[p][off + i] = (v, w, i)
            return
    raise Unsupported('field %d' % off)


def get(st, parts, off, w):
    for p in parts:
        if p.kind == 'cells' and p.off <= off < p.off + p.size:
            return st.read_cells(p, off, w // 8)
    raise Unsupported('field %d' % off)


def type_width(t):
    t = re.sub(r'\b(volatile|const|std::)\s*', '', t).strip()
    if re.search(r'(int8_t|^char|_Bool|^bool|unsigned char|byte)', t):
        return 8
    if re.search(r'(int16_t|short)', t):
        return 16
    if re.search(r'(int32_t|^int$|^unsigned int$|^unsigned$)', t):
        return 32
    return 64


class Probe:
    """the external events that a probe function of the TU compiles to, as functions of its arguments"""

    def __init__(self, ctx, fn, names, noev=False):
        d = ctx.dom
        mod = ctx.mod
        c2 = Ctx(mod, d, 'probe:' + fn)
        c2.ext_range = ext_range(d)
        evs = []
        c2.opaque = ctx.opaque

        class Sp(Spec):
            no_termination = True

            def on_event(self, cx, st, fv, name, av, ins, loc):
                evs.append((fv, name, av))
                return None
        c2.spec = Sp()
        c2.spec.ctx = c2
        st = State(c2)
        f = mod.funcs[fn]
        fr = Frame(f, mod)
        self.vars = []
        for (t, pn, at), nm in zip(f.params, names):
            v = d.var('probe_%s_%s' % (fn, nm), c2.tw(t))
            st.assume(d.range(v, c2.tw(t)))
            if mod.resolve(t)[0] == 'ptr':
                st.assume(z3.And(ext_range(d)(v), ext_range(d)(v + d.const(1 << 20, 64)), d.aligned(v, 8)))
                c2.mark_ext(st, v)
            fr.env[pn] = v
            self.vars.append(v)
        st.frames.append(fr)
        self.outs = c2.run([st])
        if noev:
            return
        outs = [o for o in self.outs if o.kind == 'ret']
        if len(outs) != 1 or len(evs) != 1:
            raise Unsupported('probe %s: %d paths, %d events' % (fn, len(outs), len(evs)))
        self.fv, self.name, self.av = evs[0]

    def expect(self, *vals):
        sub = list(zip(self.vars, vals))
        fv = z3.substitute(self.fv, *sub) if self.fv is not None else None
        return fv, self.name, [z3.substitute(a, *sub) for a in self.av]


class Registry(Spec):
    """A registry object: an ordered list of distinct observers.

    mode 'static': inline pointer array of capacity M plus a count.
    mode 'dynamic': std::vector; case 'null' is the vector without storage, case 'buf' the vector with storage of
    arbitrary capacity."""
    dom = 'int'
    mode = 'static'
    case = 'buf'
    M = 8
    record = r'xitren::comm::observable<int>'
    inside = True      # has a recursion flag
    value_w = 0        # width of the stored value (values::observable)
    kind = 'obs'
    heap_label = 'obs'
    heap_ew = 8
    shifts = False
    errors = 'code'    # 'code': result code, 'throw': exceptions
    list_names = ('observers_', 'modules_')
    count_names = ('count_', 'modules_cnt_')
    events_named = None   # regex of functions called by contract (name of the notification function)

    def contracts(self, ctx):
        ctx.opaque = re.compile(self.events_named) if self.events_named else None

    # -- object model
    def build(self, ctx, st):
        d = ctx.dom
        self.contracts(ctx)
        L = front.find_layout(ctx.lay, self.record)
        self.L = L
        ctx.ext_range = ext_range(d)
        dyn = self.mode == 'dynamic'
        if dyn:
            vo = L.find(self.list_names, (r'^(?:std::)?vector<', r'^observer_list$'))
            if vo is None:
                raise Unsupported('observer list not found in layout of ' + self.record)
            self.so, self.fo, self.eo = vo, vo + 8, vo + 16
        else:
            ao = L.find(self.list_names, (r'^(?:std::)?array<', r'^observer_list$'))
            co = L.find(self.count_names, (r'^(?:std::)?size_t(?:ype)?$|^size_type$|^unsigned long$|^(?:std::)?u?int(?:8|16|32|64|_fast\d+)_t$|^unsigned int$',))
            if ao is None or co is None:
                raise Unsupported('observer list/count not found in layout of ' + self.record)
            self.ao, self.co = ao, co
            self.cw = type_width([f for f in L.fields if f[0] == co and f[3]][-1][2])
        self.io = L.find(('inside', 'inside_'), (r'^volatile (?:_Bool|bool)$|^(?:_Bool|bool)$',)) if self.inside else None
        if self.inside and self.io is None:
            raise Unsupported('recursion flag not found in layout of ' + self.record)
        o = obj_base(ctx, st, 'o', L.size)
        self.o = o
        M = self.M
        if dyn:
            self.cells = [Part(0, L.size)]
            st.add_region(Region('registry', o, L.size, list(self.cells)))
        else:
            parts = [Part(0, self.ao)] if self.ao else []
            self.arr = Part(self.ao, 8 * M, 'array', 8, self.kind)
            parts.append(self.arr)
            if L.size > self.ao + 8 * M:
                parts.append(Part(self.ao + 8 * M, L.size - self.ao - 8 * M))
            st.add_region(Region('registry', o, L.size, parts))
            self.cells = [p for p in parts if p.kind == 'cells']
        for p in self.cells:
            for off in range(p.off, p.off + p.size, 8):
                w = min(8, p.off + p.size - off) * 8
                self.putf(st, off, st.fresh('pre_%d' % off, w), w)
        if self.value_w:
            # the value is the first data member of the std::atomic base
            self.vo = L.find(('_M_i', '_M_fp'), ())
            if self.vo is None:
                raise Unsupported('value not found')
            self.v0 = d.var('value', self.value_w)
            st.assume(d.range(self.v0, self.value_w))
            self.putf(st, self.vo, self.v0, self.value_w)
            ctx.inputs['value'] = self.v0
        if self.inside:
            b = d.var('inside', 8)
            st.assume(z3.Or(b == d.const(0, 8), b == d.const(1, 8)))
            self.putf(st, self.io, b, 8)
            self.inside0 = b
            ctx.inputs['inside'] = b
        if not dyn:
            n = d.var('count', 64)
            st.assume(z3.And(n >= 0, n <= M))
            self.putf(st, self.co, n, self.cw)
            self.n0 = n
            self.base = S(o + self.ao)
            self.A0node = st.mem[self.arr]
        elif self.case == 'null':
            self.n0 = d.const(0, 64)
            self.base = d.const(0, 64)
            for f in (self.so, self.fo, self.eo):
                self.putf(st, f, d.const(0, 64), 64)
            self.arr = None
            p = Part(0, 0, 'array', 8, self.kind)
            p.region = None
            u = ctx.uf('mem_none', 64)
            self.A0node = ('base', lambda a: u(a))
        else:
            n = d.var('count', 64)
            cap = d.var('capacity', 64)
            st.assume(z3.And(n >= 0, n <= cap, cap >= 1, cap <= 1 << 36))
            b = z3.Int('buf')
            base = S(16 * b)
            st.assume(z3.And(base >= 1 << 44, base <= 1 << 45))
            self.arr = Part(0, S(8 * cap), 'array', 8, self.kind)
            st.add_region(Region('buffer', base, S(8 * cap), [self.arr], heap=True, zone=(1 << 44, 1 << 46)))
            self.n0, self.cap, self.base = n, cap, base
            self.putf(st, self.so, base, 64)
            self.putf(st, self.fo, S(base + 8 * n), 64)
            self.putf(st, self.eo, S(base + 8 * cap), 64)
            self.A0node = st.mem[self.arr]
            ctx.inputs['capacity'] = cap
        ctx.inputs['count'] = self.n0
        self.end0 = S(self.base + self.n0 * 8)
        ctx.kind_shape[self.kind] = lambda k: self.base + 8 * k
        self.pre_mem = {p: dict(st.mem[p]) for p in self.cells}
        self.dup_free(ctx, st)
        return o

    def putf(self, st, off, v, w):
        put(st, self.cells, off, v, w)

    def getf(self, st, off, w):
        return get(st, self.cells, off, w)

    def inrange(self, a, n=None):
        e = self.end0 if n is None else S(self.base + n * 8)
        return z3.And(self.base <= a, a < e, (a - self.base) % 8 == 0)

    def A0(self, st, a):
        return st._ra(self.A0node, S(a), self.arr or _NoPart)

    def dup_free(self, ctx, st):
        d = ctx.dom
        er = ext_range(d)
        f0 = self.A0node[1]

        def valid(a):
            v = f0(S(a))
            return z3.Implies(self.inrange(a), z3.And(er(v), v < EXT_HI - (1 << 20), v % 8 == 0))

        # the observers are distinct: each has one position
        pos = ctx.uf('position_of', 64)

        def dup(a):
            return z3.Implies(self.inrange(a), pos(f0(S(a))) == a)
        st.assume(Forall(self.kind, valid))
        st.assume(Forall(self.kind, dup))

    def member(self, ctx, st, x):
        """ghost: m is the position of x if x is registered (inl), WLOG"""
        inl = z3.Bool('inl')
        k = z3.Int('m')
        m = S(self.base + 8 * k)
        f0 = self.A0node[1]
        st.assume(z3.Implies(inl, z3.And(self.inrange(m), f0(m) == x)))
        st.add_term(self.kind, m)
        st.assume(Forall(self.kind, lambda a: z3.Implies(z3.And(z3.Not(inl), self.inrange(a)), f0(S(a)) != x)))
        self.inl, self.m = inl, m
        ctx.inputs['registered'] = inl
        ctx.inputs['index'] = k

    # -- view of the final state
    def view(self, ctx, st):
        """(number of elements, fn: old coordinate a -> element at the same index now)"""
        if self.mode == 'static':
            n1 = self.getf(st, self.co, self.cw)
            node = st.mem[self.arr]
            return n1, lambda s, a: s._ra(node, S(a), self.arr)
        s1 = S(self.getf(st, self.so, 64))
        f1 = S(self.getf(st, self.fo, 64))
        e1 = S(self.getf(st, self.eo, 64))
        len8 = S(f1 - s1)
        n1 = st.fresh('n1', 64)
        ctx.prove(st, 'invariant: the vector stays well formed', z3.And(s1 <= f1, f1 <= e1, len8 % 8 == 0))
        st.assume(n1 * 8 == len8)
        reg = [r for r in st.regions if r not in st.dead and r.heap and r.base.eq(s1)]
        if reg:
            r = reg[0]
            sz = r.size if not isinstance(r.size, int) else z3.IntVal(r.size)
            ctx.prove(st, 'invariant: the vector storage holds its capacity', e1 - s1 == sz)
            p = r.parts[0]
            node = st.mem[p]
            return n1, lambda s, a: s._ra(node, S(a - self.base + s1), p)
        ctx.prove(st, 'invariant: a vector without storage is empty', z3.And(s1 == 0, f1 == 0, e1 == 0))
        u = ctx.uf('mem_none', 64)
        return n1, lambda s, a: u(S(a))

    def unchanged(self, ctx, st, name, skip=()):
        for p in self.cells:
            for off, e in self.pre_mem[p].items():
                if e[2]:
                    continue
                if any(s <= off < s + w for s, w in skip):
                    continue
                now = st.read_cells(p, off, e[1] // 8)
                ctx.prove(st, name, now == e[0])

    def list_cells(self):
        return ((self.co, self.cw // 8),) if self.mode == 'static' else ((self.so, 24),)

    def list_is(self, ctx, st, n1, elem, what, extra=None):
        """the final list has n1 elements and element at old coordinate a is elem(st, a)"""
        n, at = self.view(ctx, st)
        ctx.prove(st, 'post: ' + what + ' (length)', n == n1)
        self.cur = at
        hold = {}

        def body(a):
            return z3.Implies(self.inrange(a, n1), at(hold['st'], a) == elem(hold['st'], a))
        hold['st'] = st
        ctx.prove(st, 'post: ' + what + ' (elements, in order)', Forall(self.kind, body, extra=extra))

    def same_list(self, ctx, st, what='the list is unchanged'):
        self.list_is(ctx, st, self.n0, lambda s, a: self.A0(s, a), what)

    def no_leak(self, ctx, st, freed=False):
        if self.mode != 'dynamic':
            return
        s1 = S(self.getf(st, self.so, 64)) if not freed else None
        for r in st.regions:
            if r.heap and r not in st.dead and not r.name.startswith('exc') and (s1 is None or not r.base.eq(s1)):
                ctx.oblige(st, 'post: no storage is leaked', FALSE)
        ctx.oblige(st, 'post: no storage is leaked', TRUE)

    # -- candidate invariants of the registry loops
    def positions(self, st, lvs):
        """the list positions a loop variable may stand for"""
        out = []
        for lv in lvs:
            if lv.w not in (32, 64):
                continue
            k = lv.key
            g = lv.gcd
            null = self.mode == 'dynamic' and self.case == 'null'
            if null or lv.w == 64 and st.entails(lv.init >= OBJ_LO, quick=True):
                out.append((lv.name, lambda v, k=k: v[k]))
                out.append((lv.name + '-8', lambda v, k=k: v[k] - 8))
                out.append((lv.name + '+8', lambda v, k=k: v[k] + 8))
                continue
            if not g or g % 8 == 0:
                out.append(('a+%s' % lv.name, lambda v, k=k: self.base + v[k]))
                out.append(('o+%s' % lv.name, lambda v, k=k: self.o + v[k]))
                out.append(('end-%s' % lv.name, lambda v, k=k: self.end0 - v[k]))
            if not g or g % 8:
                out.append(('&a[%s]' % lv.name, lambda v, k=k: self.base + v[k] * 8))
                out.append(('&a[n-%s]' % lv.name, lambda v, k=k: self.base + (self.n0 - v[k]) * 8))
                out.append(('&a[%s+1]' % lv.name, lambda v, k=k: self.base + v[k] * 8 + 8))
                out.append(('&a[%s-1]' % lv.name, lambda v, k=k: self.base + v[k] * 8 - 8))
        return out

    def candidates(self, ctx, st, lvs, init):
        c = []
        pos = self.positions(st, lvs)
        has = hasattr(self, 'inl')
        for n, p in pos:
            c.append(Cand('a<=%s<=end' % n, lambda v, p=p: z3.And(self.base <= p(v), p(v) <= self.end0)))
            c.append(Cand('%s<end' % n, lambda v, p=p: p(v) < self.end0))
            c.append(Cand('aligned %s' % n, lambda v, p=p: (p(v) - self.base) % 8 == 0))
            if has:
                c.append(Cand('inl=>%s<=m' % n, lambda v, p=p: z3.Implies(self.inl, p(v) <= self.m)))
                c.append(Cand('inl=>%s==m' % n, lambda v, p=p: z3.Implies(self.inl, p(v) == self.m)))
                c.append(Cand('inl=>%s>m' % n, lambda v, p=p: z3.Implies(self.inl, self.m < p(v))))
                c.append(Cand('inl=>%s>=m' % n, lambda v, p=p: z3.Implies(self.inl, self.m <= p(v))))
                c.append(Cand('!inl=>%s==end' % n, lambda v, p=p: z3.Implies(z3.Not(self.inl), p(v) == self.end0)))
        if has:
            c.append(Cand('inl', lambda v: self.inl))
            c.append(Cand('!inl', lambda v: z3.Not(self.inl)))
            for lv in lvs:
                if lv.w in (1, 8):
                    k = lv.key
                    one = TRUE if lv.w == 1 else 1
                    for n, p in pos:
                        c.append(Cand('%s<=>found before %s' % (lv.name, n), lambda v, k=k, p=p, one=one: (v[k] == one) == z3.And(
                            self.inl, self.m < p(v))))
        if has:
            # one position collects what the other one passes
            for n, p in pos:
                for n2, p2 in pos:
                    if n != n2:
                        c.append(Cand('%s==%s less the found one' % (n, n2), lambda v, p=p, p2=p2: p(v) == p2(v) - z3.If(
                            z3.And(self.inl, self.m < p2(v)), 8, 0)))
        if self.shifts:
            for n, p in pos:
                c.append(Cand('shifted below %s' % n, lambda v, p=p: self.shifted(v, p(v))))
        return c

    def shifted(self, v, p):
        st = v.st
        if self.arr is None:
            return FALSE
        node = st.mem[self.arr]
        return Forall(self.kind, lambda o: z3.Implies(
            self.inrange(o),
            st._ra(node, S(o), self.arr) == z3.If(z3.And(self.inl, o < p, self.m <= o), self.A0(st, o + 8), self.A0(st, o))),
            extra=lambda k: [(self.kind, S(k + 8))])

    # -- error reporting
    def result(self, ctx, o, errs, what):
        """errs: list of (condition, code), first match wins; otherwise success"""
        st = o.st
        any_ = z3.Or(*[c for c, _ in errs]) if errs else FALSE
        if self.errors == 'code':
            if o.kind != 'ret':
                ctx.oblige(st, 'post: %s does not throw' % what, FALSE)
                raise Dead()
            code = z3.IntVal(OK)
            for c, e in reversed(errs):
                code = z3.If(c, z3.IntVal(e), code)
            ctx.prove(st, 'post: %s returns the code the list requires' % what, o.val == code)
            return
        if o.kind == 'ret':
            ctx.prove(st, 'post: %s returns normally only if it succeeded' % what, z3.Not(any_))
            return
        ctx.prove(st, 'post: %s throws only to report an error' % what, any_)
        P = Probe(ctx, 'p_throw', ('e',), noev=True)
        po = [x for x in P.outs if x.kind == 'throw'][0]
        ctx.oblige(st, 'post: %s throws observable::exception' % what, z3.BoolVal(po.val[2] == st.exc[2]))
        preg = [r for r in po.st.regions if r.base.eq(po.val[0])][0]
        reg = [r for r in st.regions if r.base.eq(S(st.exc[0]))]
        if not reg or reg[0].size != preg.size:
            ctx.oblige(st, 'post: %s throws a complete exception object' % what, FALSE)
            return
        code = z3.IntVal(errs[-1][1])
        for c, e in reversed(errs):
            code = z3.If(c, z3.IntVal(e), code)
        pm, rm = po.st.mem[preg.parts[0]], reg[0].parts[0]
        for off, e in sorted(pm.items()):
            if e[2] == 0:
                exp = z3.substitute(e[0], (P.vars[0], code))
                ctx.prove(st, 'post: %s reports the error the list requires' % what,
                          st.read_cells(rm, off, e[1] // 8) == exp)

    def tags(self, st, lst):
        return [t for t, c in lst if t not in self.hit and st.feasible(c)]


class _NoPart:
    ew = 8
    region = None
    label = None


class Add(Registry):
    def setup(self, ctx, st):
        o = self.build(ctx, st)
        x = ext_ptr(ctx, st, 'x')
        self.x = x
        self.member(ctx, st, x)
        return [(st, [o, x])]

    def post(self, ctx, o):
        st = o.st
        full = (self.n0 >= self.M) if self.mode == 'static' else FALSE
        self.result(ctx, o, [(full, FULL), (self.inl, CONTAINS)] if self.mode == 'static' else [(self.inl, CONTAINS)],
                    'add_observer')
        okc = z3.And(z3.Not(full), z3.Not(self.inl))
        n1 = z3.If(okc, self.n0 + 1, self.n0)
        self.list_is(ctx, st, n1, lambda s, a: z3.If(z3.And(okc, a == self.end0), self.x, self.A0(s, a)),
                     'the observer is appended last exactly when it was not registered and there is room')
        self.unchanged(ctx, st, 'frame: nothing else in the registry changes', self.list_cells())
        self.no_leak(ctx, st)
        return self.tags(st, (('ok', okc), ('full', full), ('contains', z3.And(z3.Not(full), self.inl))))


class Remove(Registry):
    shifts = True

    def setup(self, ctx, st):
        o = self.build(ctx, st)
        x = ext_ptr(ctx, st, 'x')
        self.x = x
        self.member(ctx, st, x)
        return [(st, [o, x])]

    def post(self, ctx, o):
        st = o.st
        self.result(ctx, o, [(z3.Not(self.inl), NOTFOUND)], 'remove_observer')
        n1 = z3.If(self.inl, self.n0 - 1, self.n0)
        self.list_is(ctx, st, n1, lambda s, a: z3.If(z3.And(self.inl, self.m <= a), self.A0(s, a + 8), self.A0(s, a)),
                     'exactly the observer is removed and the others keep their order',
                     extra=lambda k: [(self.kind, S(k + 8))])
        self.unchanged(ctx, st, 'frame: nothing else in the registry changes', self.list_cells())
        self.no_leak(ctx, st)
        return self.tags(st, (('ok', self.inl), ('not_found', z3.Not(self.inl))))


class Monitor:
    """the external calls must be exactly expected(A0[base]), expected(A0[base+8]), ... in order, once each"""

    def monitor_init(self, ctx, st):
        st.ghost['q'] = self.base

    def monitor_event(self, ctx, st, fv, av, name_, loc, expected, extra_args, what):
        q = st.ghost['q']
        ctx.oblige(st, '%s: no more calls than registered observers' % what, q < self.end0, loc)
        st.add_term(self.kind, q)
        e = self.A0(st, q)
        efv, ename, eav = expected(e)
        if len(av) != len(eav):
            ctx.oblige(st, '%s: calls exactly the next observer in registration order' % what, FALSE, loc)
            raise Dead()
        if efv is not None:
            ctx.oblige(st, '%s: calls exactly the next observer in registration order' % what,
                       fv == efv if fv is not None else FALSE, loc)
        else:
            ctx.oblige(st, '%s: calls exactly the next observer in registration order' % what,
                       z3.BoolVal(name_ is not None and (name_ == ename or self.same_contract(name_, ename))), loc)
        ctx.oblige(st, '%s: the call is made on the next observer' % what, av[0] == e, loc)
        extra_args(st, av)
        st.ghost['q'] = S(q + 8)

    def same_contract(self, a, b):
        """two functions that are both verified against the notification contract"""
        return bool(self.events_named) and bool(re.search(self.events_named, a)) and bool(re.search(self.events_named, b))

    def monitor_done(self, ctx, st, what, expect_all=TRUE):
        ctx.prove(st, '%s: every registered observer is called exactly once' % what,
                  z3.Implies(expect_all, st.ghost['q'] == self.end0))
        ctx.prove(st, '%s: nobody is called otherwise' % what,
                  z3.Implies(z3.Not(expect_all), st.ghost['q'] == self.base))


class Notify(Registry, Monitor):
    probe = 'p_data'
    vw = 32

    def expected_value(self, ctx, st):
        d = ctx.dom
        nb = obj_base(ctx, st, 'n', 8)
        p = Part(0, self.vw // 8)
        st.add_region(Region('value', nb, self.vw // 8, [p], writable=False))
        val = d.var('notified', self.vw)
        st.assume(d.range(val, self.vw))
        for i in range(self.vw // 8):
            st.mem[p][i] = (val, self.vw, i)
        ctx.inputs['notified'] = val
        return nb, val

    def setup(self, ctx, st):
        o = self.build(ctx, st)
        self.P = Probe(ctx, self.probe, ('x', 'src', 'n'))
        nb, self.val = self.expected_value(ctx, st)
        self.monitor_init(ctx, st)
        return [(st, [o, nb])]

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        def extra(st, av):
            ctx.oblige(st, 'notify: the source passed to the observer is this observable', av[1] == self.o, loc)
            v = ctx.load(st, av[2], self.vw)
            ctx.oblige(st, 'notify: the observer receives the notified value', v == self.val, loc)
            if self.inside:
                ctx.oblige(st, 'notify: recursion guard is set while observers run', self.getf(st, self.io, 8) != 0, loc)
            self.during(ctx, st, loc)
        self.monitor_event(ctx, st, fv, av, name, loc,
                           lambda e: self.P.expect(e, self.o, av[2] if len(av) > 2 else self.o), extra, 'notify')
        return None

    def during(self, ctx, st, loc):
        pass

    def post(self, ctx, o):
        st = o.st
        rec = (self.inside0 != 0) if self.inside else FALSE
        self.result(ctx, o, [(rec, RECURSION)], 'notify_observers') if self.errors == 'code' else \
            ctx.oblige(st, 'post: notify_observers does not throw', z3.BoolVal(o.kind == 'ret'))
        self.monitor_done(ctx, st, 'notify', z3.Not(rec))
        self.same_list(ctx, st)
        self.unchanged(ctx, st, 'frame: the registry is as before', self.list_cells())
        self.no_leak(ctx, st)
        return self.tags(st, (('ok', z3.Not(rec)), ('recursion', rec)))


class Clear(Registry, Monitor):
    covers = ('done',)
    destroy = False

    def setup(self, ctx, st):
        o = self.build(ctx, st)
        self.P = Probe(ctx, 'p_disconnect', ('x', 'src'))
        self.monitor_init(ctx, st)
        return [(st, [o])]

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        def extra(st, av):
            ctx.oblige(st, 'clear: the source passed to disconnect is this observable', av[1] == self.o, loc)
        self.monitor_event(ctx, st, fv, av, name, loc, lambda e: self.P.expect(e, self.o), extra, 'clear')
        return None

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: clear_observers does not throw', FALSE)
            return
        self.monitor_done(ctx, st, 'disconnect')
        if not self.destroy:
            n, _ = self.view(ctx, st)
            ctx.prove(st, 'post: the registry is empty', n == 0)
            self.unchanged(ctx, st, 'frame: nothing else in the registry changes', self.list_cells())
        self.no_leak(ctx, st, freed=self.destroy)
        return ['done']


class Ctor(Registry):
    covers = ('done',)

    def setup(self, ctx, st):
        o = self.build(ctx, st)
        for p in self.cells:
            st.mem[p] = {}
        return [(st, [o])]

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: constructor does not throw', FALSE)
            return
        n, _ = self.view(ctx, st)
        ctx.prove(st, 'post: a new registry is empty', n == 0)
        if self.inside:
            ctx.prove(st, 'post: a new observable is not inside a notification', self.getf(st, self.io, 8) == 0)
        if self.value_w:
            ctx.prove(st, 'post: a new observable holds the zero value', self.getf(st, self.vo, self.value_w) == 0)
        return ['done']


class Value(Registry):
    covers = ('done',)

    def setup(self, ctx, st):
        o = self.build(ctx, st)
        return [(st, [o])]

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: value() does not throw', FALSE)
            return
        ctx.prove(st, 'post: value() returns the current value', o.val == self.v0)
        self.same_list(ctx, st)
        self.unchanged(ctx, st, 'frame: value() changes nothing')
        return ['done']


class Op(Notify):
    """an operator of values::observable: new value, result and notification with the new value"""
    covers = ('done',)
    probe = 'p_notify'

    def setup(self, ctx, st):
        d = ctx.dom
        o = self.build(ctx, st)
        self.P = Probe(ctx, self.probe, ('x', 'src', 'n'))
        M = 1 << self.value_w
        args = [o]
        op = self.op
        if op in ('pluseq', 'minuseq', 'assign'):
            w = self.value_w if op == 'assign' else 32
            v = d.var('operand', w)
            st.assume(d.range(v, w))
            ctx.inputs['operand'] = v
            args.append(v)
            if w < self.value_w:
                v = d.sext(v, w, self.value_w)
            elif w > self.value_w:
                v = v % M
        one = z3.IntVal(1)
        new = {'postinc': lambda: self.v0 + one, 'preinc': lambda: self.v0 + one, 'postdec': lambda: self.v0 - one,
               'predec': lambda: self.v0 - one, 'pluseq': lambda: self.v0 + v, 'minuseq': lambda: self.v0 - v,
               'assign': lambda: v}[op]()
        new = z3.If(new >= M, new - M, z3.If(new < 0, new + M, new))
        self.new = new
        self.ret = self.v0 if op.startswith('post') else new
        # signed arithmetic that wraps is outside the contract (atomic arithmetic itself wraps silently)
        if op != 'assign':
            h = M // 2
            s0 = d.tosigned(self.v0, self.value_w)
            sv = d.tosigned(v, self.value_w) if op in ('pluseq', 'minuseq') else one
            r = s0 + sv if op in ('preinc', 'postinc', 'pluseq') else s0 - sv
            if self.signed:
                st.assume(z3.And(r >= -h, r < h))
        self.val = new
        self.monitor_init(ctx, st)
        return [(st, args)]

    signed = True

    def during(self, ctx, st, loc):
        ctx.oblige(st, 'operator: the new value is already visible through value() when observers run',
                   self.getf(st, self.vo, self.value_w) == self.new, loc)

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: the operator does not throw', FALSE)
            return
        ctx.prove(st, 'post: the stored value is the result of the operation', self.getf(st, self.vo, self.value_w) == self.new)
        ctx.prove(st, 'post: the operator returns what the built-in operator returns', o.val == self.ret)
        self.monitor_done(ctx, st, 'notify')
        self.same_list(ctx, st)
        self.unchanged(ctx, st, 'frame: nothing else changes', self.list_cells() + ((self.vo, self.value_w // 8),))
        return ['done']


def units():
    us = []
    for M in (8, 1, 3):
        df = ('-DMAX=%d' % M,)
        kw = dict(M=M, record=r'xitren::comm::observable<int(?:, true, %d)?>' % M)
        n = 'observable<int,true,%d>::' % M

        def U(name, props, fn, spec):
            us.append(Unit(n + name, props, 'observer.cpp', fn, spec, df))
        U('add_observer', ['C07'], 's_add', Add(covers=('ok', 'full', 'contains') if M > 1 else ('ok', 'full'), **kw))
        U('remove_observer', ['C07'], 's_remove', Remove(covers=('ok', 'not_found'), **kw))
        U('notify_observers', ['C09'], 's_notify', Notify(covers=('ok', 'recursion'), **kw))
        U('clear_observers', ['C09'], 's_clear', Clear(**kw))
        U('~observable', ['C09'], 's_dtor', Clear(destroy=True, **kw))
        U('observable()', ['C07'], 's_ctor', Ctor(**kw))
    for case in ('null', 'buf'):
        kw = dict(mode='dynamic', case=case, record=r'xitren::comm::observable<int, false(?:, 0)?>', inside=False, errors='throw')
        n = 'observable<int,false> (%s)::' % ('no storage' if case == 'null' else 'with storage')

        def U(name, props, fn, spec):
            us.append(Unit(n + name, props, 'observer.cpp', fn, spec))
        U('add_observer', ['C08'], 'd_add', Add(covers=('ok', 'contains') if case == 'buf' else ('ok',), **kw))
        U('remove_observer', ['C08'], 'd_remove', Remove(covers=('ok', 'not_found') if case == 'buf' else ('not_found',), **kw))
        U('notify_observers', ['C09'], 'd_notify', Notify(covers=('ok',), **kw))
        U('clear_observers', ['C09'], 'd_clear', Clear(**kw))
        U('~observable', ['C09'], 'd_dtor', Clear(destroy=True, **kw))
        if case == 'null':
            U('observable()', ['C08'], 'd_ctor', Ctor(**kw))
    ev = r'^_ZN6xitren4comm6values8observedI\w+?E(12notification|4data)E'
    for ty, w, sg in (('int', 32, True),):
        for mode, case, M in (('static', 'buf', 8), ('static', 'buf', 2), ('dynamic', 'null', 0), ('dynamic', 'buf', 0)):
            pre = 's' if mode == 'static' else 'd'
            df = ('-DMAX=%d' % (M or 8), '-DVT=' + ty)
            kw = dict(mode=mode, case=case, M=M, record=r'xitren::comm::values::observable<%s(?:, %d)?>' % (ty, M), inside=False,
                      value_w=w, errors='code', events_named=ev, vw=w, signed=sg)
            n = 'values::observable<%s,%d>%s::' % (ty, M, ' (no storage)' if mode == 'dynamic' and case == 'null' else '')

            def U(name, props, fn, spec):
                us.append(Unit(n + name, props, 'values.cpp', pre + fn, spec, df, noinline=ev))
            U('add_observer', ['C12'], '_add', Add(covers=('ok', 'contains') if case == 'buf' else ('ok',), **kw))
            U('remove_observer', ['C12'], '_remove', Remove(covers=('ok', 'not_found') if case == 'buf' else ('not_found',), **kw))
            U('notify_observers', ['C12'], '_notify', Notify(covers=('ok',), probe='p_notify', **kw))
            U('clear_observers', ['C12'], '_clear', Clear(**kw))
            U('~observable', ['C12'], '_dtor', Clear(destroy=True, **kw))
            if not (mode == 'dynamic' and case == 'buf'):
                U('observable()', ['C12'], '_ctor', Ctor(**kw))
            U('value', ['C11'], '_value', Value(**kw))
            for op in ('postinc', 'postdec', 'preinc', 'predec', 'pluseq', 'minuseq', 'assign'):
                U('operator ' + op, ['C11'], '_' + op, Op(op=op, **kw))
    return us
