"""Contracts for comm/mediator.hpp: the module table (C15) and message routing (C14)."""
import re
import z3
from irvc.dom import S, TRUE, FALSE, num, is_num
from irvc.exec import Region, Part, Forall, Cand, Unsupported, Dead
from irvc.unit import Spec, Unit
from irvc import front
from registry import Registry, Probe, Monitor, obj_base, ext_range, ext_ptr, put, get
from endian import Flat, cat


class Hashes:
    """std::hash of a type name: an arbitrary number per name"""

    def hash_of(self, ctx, name):
        h = ctx.__dict__.setdefault('hashes', {})
        if name not in h:
            v = ctx.dom.var('hash_' + name, 64)
            h[name] = v
        return h[name]

    def hash_event(self, ctx, st, name, av):
        if name is None or not name.startswith('_ZSt11_Hash_bytesPKvmm'):
            return None
        n = S(av[1])
        if not is_num(n) or num(n) > 200:
            raise Unsupported('hash of a string of unknown length')
        bs = []
        for i in range(num(n)):
            b = S(ctx.load(st, S(av[0] + ctx.dom.const(i, 64)), 8))
            if not is_num(b):
                raise Unsupported('hash of an unknown string')
            bs.append(num(b))
        v = self.hash_of(ctx, bytes(bs).decode('latin1'))
        st.assume(ctx.dom.range(v, 64))
        ctx.trusted.add('std::_Hash_bytes is a function of the bytes it is given')
        return v


class ModTable(Registry):
    record = r'xitren::comm::manager<8>'
    inside = False
    errors = 'throw'


class MAdd(ModTable):
    covers = ('ok', 'full')

    def setup(self, ctx, st):
        o = self.build(ctx, st)
        x = ext_ptr(ctx, st, 'c')
        self.x = x
        return [(st, [o, x])]

    def post(self, ctx, o):
        st = o.st
        full = self.n0 >= self.M
        if o.kind == 'ret':
            ctx.prove(st, 'post: add_module succeeds only if there is room', z3.Not(full))
        else:
            ctx.prove(st, 'post: add_module fails only if the table is full', full)
        n1 = z3.If(full, self.n0, self.n0 + 1)
        self.list_is(ctx, st, n1, lambda s, a: z3.If(z3.And(z3.Not(full), a == self.end0), self.x, self.A0(s, a)),
                     'the module is appended last exactly when there is room')
        self.unchanged(ctx, st, 'frame: nothing else in the manager changes', self.list_cells())
        return self.tags(st, (('ok', z3.Not(full)), ('full', full)))


def vslot(ctx, P, vptr):
    """the function in the slot a probe calls through, of an object with this virtual table"""
    t = z3.substitute(P.fv, (ctx.uf('ext64', 64)(S(P.vars[0])), ctx.dom.const(0, 64)))
    t = S(t)
    if t.num_args() != 1:
        raise Unsupported('not a virtual call')
    return ctx.uf('ext64', 64)(S(vptr + S(t.arg(0))))


class MRemove(ModTable):
    covers = ('ok', 'not_found')
    shifts = True

    def setup(self, ctx, st):
        o = self.build(ctx, st)
        x = ext_ptr(ctx, st, 'c')
        self.x = x
        self.member(ctx, st, x)
        return [(st, [o, x])]

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: remove_module does not throw', FALSE)
            return
        n1 = z3.If(self.inl, self.n0 - 1, self.n0)
        self.list_is(ctx, st, n1, lambda s, a: z3.If(z3.And(self.inl, self.m <= a), self.A0(s, a + 8), self.A0(s, a)),
                     'exactly the module is removed and the others keep their order',
                     extra=lambda k: [(self.kind, S(k + 8))])
        self.unchanged(ctx, st, 'frame: nothing else in the manager changes', self.list_cells())
        return self.tags(st, (('ok', self.inl), ('not_found', z3.Not(self.inl))))


class MCtor(ModTable):
    covers = ('done',)

    def setup(self, ctx, st):
        o = self.build(ctx, st)
        for p in self.cells:
            st.mem[p] = {}
        return [(st, [o])]

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: constructor does not throw', FALSE)
            return
        n, _ = self.view(ctx, st)
        ctx.prove(st, 'post: a new manager has no modules', n == 0)
        return ['done']


class Route(Hashes, ModTable):
    """a message reaches every registered module with another id exactly once, in registration order, and nobody else"""
    covers = ('done',)
    hook_first = True
    msg = None

    def setup(self, ctx, st):
        d = ctx.dom
        o = self.build(ctx, st)
        st.assume(z3.And(ext_range(d)(self.vptr(st)), ext_range(d)(self.vptr(st) + (1 << 20)), self.vptr(st) % 8 == 0))
        ctx.mark_ext(st, self.vptr(st))
        ML = front.find_layout(ctx.lay, r'xitren::comm::base::module')
        self.ido = ML.find(('id_',), (r'^const (?:std::)?size_t$|^(?:std::)?size_t$|^const unsigned long$',))
        if self.ido is None:
            raise Unsupported('module id not found')
        self.P = Probe(ctx, 'p_receive', ('m', 'id', 'p', 'n'))
        self.PD = Probe(ctx, 'p_mdata', ('o', 'id', 'p', 'n'))
        st.ghost['q'] = self.base
        st.ghost['hook'] = z3.IntVal(0)
        if self.msg is None:
            s = ext_ptr(ctx, st, 'sender')
            self.sid = self.id_of(ctx, s)
            self.p = ext_ptr(ctx, st, 'ptr')
            self.n = d.var('sz', 64)
            st.assume(d.range(self.n, 64))
            st.assume(d.range(self.sid, 64))
            return [(st, [o, s, self.p, self.n])]
        name, k = self.msg
        b = obj_base(ctx, st, 'message', k, 8)
        p = Part(0, k)
        st.add_region(Region('message', b, k, [p], writable=False))
        self.pre = []
        for i in range(k):
            v = st.fresh('msg%d' % i, 8)
            st.mem[p][i] = (v, 8, 0)
            self.pre.append(v)
        self.sid = self.hash_of(ctx, name)
        st.assume(d.range(self.sid, 64))
        self.n = z3.IntVal(k)
        return [(st, [o, b])]

    def vptr(self, st):
        return self.getf(st, 0, 64)

    def id_of(self, ctx, m):
        return ctx.uf('ext64', 64)(S(m + self.ido))

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        h = self.hash_event(ctx, st, name, av)
        if h is not None:
            return h
        d = ctx.dom
        if len(av) == 4 and fv is not None and st.entails(z3.And(fv == vslot(ctx, self.PD, self.vptr(st)), av[0] == self.o)):
            # the manager's own hook
            ctx.oblige(st, 'distribute: the hook of the manager sees the message once, before the modules',
                       z3.And(st.ghost['hook'] == 0, st.ghost['q'] == self.base), loc)
            ctx.oblige(st, 'distribute: the hook sees the id of the sender and the message',
                       z3.And(av[1] == self.sid, av[2] == self.p, av[3] == self.n) if self.msg is None else FALSE, loc)
            st.ghost['hook'] = z3.IntVal(1)
            return None
        if len(av) != 4:
            return NotImplemented
        q = st.ghost['q']
        e = av[0]
        src = st.src.get(e.get_id())
        p = S(src[0]) if src is not None else q
        st.add_term(self.kind, p)
        ctx.oblige(st, 'routing: every call goes to a registered module, in registration order, at most once',
                   z3.And(q <= p, p < self.end0, (p - self.base) % 8 == 0, self.A0(st, p) == e), loc)
        ctx.prove(st, 'routing: no module with another id is passed over', Forall(self.kind, lambda a: z3.Implies(
            z3.And(q <= a, a < p, (a - self.base) % 8 == 0), self.id_of(ctx, self.A0(st, a)) == self.sid)), loc)
        ctx.oblige(st, 'routing: a module with the id of the sender gets nothing', self.id_of(ctx, e) != self.sid, loc)
        efv, ename, eav = self.P.expect(e, self.sid, av[2], self.n)
        ctx.oblige(st, 'routing: the module receives through receive()', fv == efv if fv is not None and efv is not None else FALSE, loc)
        ctx.oblige(st, 'routing: the module receives the id of the sender', av[1] == self.sid, loc)
        ctx.oblige(st, 'routing: the module receives the size of the message', av[3] == self.n, loc)
        if self.msg is None:
            ctx.oblige(st, 'routing: the module receives the message', av[2] == self.p, loc)
            ctx.oblige(st, 'distribute: the hook of the manager comes first', st.ghost['hook'] == 1, loc)
        else:
            got = [ctx.load(st, S(av[2] + i), 8) for i in range(self.msg[1])]
            ctx.oblige(st, 'routing: the module receives the bytes of the message', z3.And(*[a == b for a, b in zip(got, self.pre)]), loc)
        st.ghost['q'] = S(p + 8)
        return None

    def candidates(self, ctx, st, lvs, init):
        c = Registry.candidates(self, ctx, st, lvs, init)
        for n, p in self.positions(st, lvs):
            c.append(Cand('q<=%s' % n, lambda v, p=p: v.st.ghost['q'] <= p(v)))
            c.append(Cand('skipped below %s' % n, lambda v, p=p: Forall(self.kind, lambda a: z3.Implies(
                z3.And(v.st.ghost['q'] <= a, a < p(v), (a - self.base) % 8 == 0, self.base <= a), self.id_of(ctx, self.A0(v.st, a)) == self.sid))))
        c.append(Cand('a<=q<=end', lambda v: z3.And(self.base <= v.st.ghost['q'], v.st.ghost['q'] <= self.end0)))
        c.append(Cand('aligned q', lambda v: (v.st.ghost['q'] - self.base) % 8 == 0))
        c.append(Cand('hook', lambda v: v.st.ghost['hook'] == 1))
        return c

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: routing does not throw', FALSE)
            return
        q = st.ghost['q']
        hold = st
        ctx.prove(st, 'routing: every module with another id received the message', Forall(self.kind, lambda a: z3.Implies(
            z3.And(q <= a, a < self.end0, self.base <= a, (a - self.base) % 8 == 0), self.id_of(ctx, self.A0(hold, a)) == self.sid)))
        if self.msg is None:
            ctx.prove(st, 'distribute: the hook of the manager sees the message', st.ghost['hook'] == 1)
        self.same_list(ctx, st)
        self.unchanged(ctx, st, 'frame: the manager is as before', self.list_cells())
        return ['done']


# ------------------------------------------------------------------ modules

class Mod(Hashes, Flat):
    """one module: what it sends and what it accepts"""
    needs_layout = True

    def module(self, ctx, st, fresh=True):
        d = ctx.dom
        ctx.ext_range = ext_range(d)
        L = front.find_layout(ctx.lay, self.record)
        BL = front.find_layout(ctx.lay, r'xitren::comm::base::module')
        self.ido = BL.find(('id_',), (r'size_t$',))
        self.mo = BL.find(('mediator_',), (r'manager \*$',))
        if self.ido is None or self.mo is None:
            raise Unsupported('module fields not found')
        self.size = L.size
        self.o, self.p, self.pre = self.obj(ctx, st, 'module', L.size, 8)
        put(st, [self.p], 0, st.fresh('vptr', 64), 64)
        # the virtual tables of a live module: arbitrary overriders
        for off in range(0, L.size, 8):
            if off not in (self.ido, self.mo):
                v = st.fresh('word%d' % off, 64)
                put(st, [self.p], off, v, 64)
                st.assume(z3.And(ext_range(d)(v), ext_range(d)(v + (1 << 20)), d.aligned(v, 8)))
                ctx.mark_ext(st, v)
        self.id = d.var('id', 64)
        self.med = ext_ptr(ctx, st, 'mediator')
        put(st, [self.p], self.ido, self.id, 64)
        put(st, [self.p], self.mo, self.med, 64)
        self.words = {off: get(st, [self.p], off, 64) for off in range(0, L.size, 8)}

    def fixed(self, ctx, st, skip=()):
        for off, v in self.words.items():
            if off not in skip:
                ctx.prove(st, 'frame: the module is unchanged', get(st, [self.p], off, 64) == v)


class MReceive(Mod):
    def setup(self, ctx, st):
        d = ctx.dom
        self.module(ctx, st)
        n = d.var('sz', 64)
        b = obj_base(ctx, st, 'message', 4096, 1)
        st.assume(z3.ULE(n, d.const(4096, 64)))
        self.mp = Part(0, n, 'array', 1, 'byte')
        st.add_region(Region('message', b, n, [self.mp], writable=False))
        self.msg0 = st.mem[self.mp]
        self.b, self.n = b, n
        self.mid = d.var('message_id', 64)
        ctx.inputs['sz'] = n
        st.ghost['got'] = z3.IntVal(0)
        self.Ps = [Probe(ctx, 'p_data%d_%d' % (self.k, i), ('o', 'd')) for i in range(len(self.types))]
        return [(st, [self.o, self.mid, b, n])]

    def want(self, ctx):
        """conditions under which the i-th accepted type is delivered"""
        out = []
        prev = []
        for (nm, sz) in self.types:
            h = self.hash_of(ctx, nm)
            out.append(z3.And(self.mid == h, *[self.mid != x for x in prev], self.n == sz))
            prev.append(h)
        return out

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        h = self.hash_event(ctx, st, name, av)
        if h is not None:
            return h
        if len(av) != 2 or fv is None:
            return NotImplemented
        ctx.oblige(st, 'receive: at most one handler runs', st.ghost['got'] == 0, loc)
        st.ghost['got'] = z3.IntVal(1)
        w = self.want(ctx)
        alts = []
        for i, (P, (nm, sz)) in enumerate(zip(self.Ps, self.types)):
            efv, en, eav = P.expect(self.o, av[1])
            # the words of this module stand for the probe's external object
            alts.append((i, sz))
        hit = None
        for i, sz in alts:
            if st.entails(w[i]):
                hit = i
                break
        ctx.oblige(st, 'receive: a handler runs only for an accepted type of the right size', z3.BoolVal(hit is not None), loc)
        if hit is None:
            raise Dead()
        sz = self.types[hit][1]
        eo, es = self.slot[hit]
        vt = self.words[eo]
        ctx.oblige(st, 'receive: the handler of the accepted type runs', z3.And(
            av[0] == S(self.o + eo), fv == ctx.uf('ext64', 64)(S(vt + es))), loc)
        got = [ctx.load(st, S(av[1] + ctx.dom.const(i, 64)), 8) for i in range(sz)]
        ctx.oblige(st, 'receive: the handler sees exactly the bytes of the message', z3.And(
            *[g == st._ra(self.msg0, S(self.b + i), self.mp) for i, g in enumerate(got)]), loc)
        return None

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: receive does not throw', FALSE)
            return
        w = self.want(ctx)
        ctx.prove(st, 'receive: an accepted message is delivered', z3.Or(*w) == (st.ghost['got'] == 1) if w else st.ghost['got'] == 0)
        self.fixed(ctx, st)
        return ['returns']


class MSend(Mod):
    def setup(self, ctx, st):
        d = ctx.dom
        self.module(ctx, st)
        k = self.size_
        b, p, self.msg = self.obj(ctx, st, 'field', k, 8, writable=False)
        st.ghost['n'] = z3.IntVal(0)
        self.P = Probe(ctx, 'p_mdistribute', ('m', 'c', 'p', 'n'))
        self.Psend = Probe(ctx, 'p_bsend', ('m', 'p', 'n'))
        return [(st, [self.o, b])]

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        if fv is None:
            return NotImplemented
        d = ctx.dom
        if len(av) == 3:
            # send() hands the bytes to the overridable send(ptr, size)
            ctx.oblige(st, 'send: through the virtual send of the module', fv == vslot(ctx, self.Psend, self.words[0]), loc)
            ctx.oblige(st, 'send: once, on this module', z3.And(st.ghost['n'] == 0, av[0] == self.o), loc)
            p, n = av[1], av[2]
        elif len(av) == 4:
            efv, en, eav = self.P.expect(self.med, self.o, av[2], av[3])
            ctx.oblige(st, 'send: the message is distributed by the mediator of the module', z3.And(fv == efv, av[0] == self.med), loc)
            ctx.oblige(st, 'send: this module is the sender', av[1] == self.o, loc)
            ctx.oblige(st, 'send: once', st.ghost['n'] == 0, loc)
            p, n = av[2], av[3]
        else:
            return NotImplemented
        st.ghost['n'] = z3.IntVal(1)
        if self.raw:
            ctx.oblige(st, 'send: the given bytes are sent', z3.And(p == self.rp, n == self.rn), loc)
            return None
        ctx.oblige(st, 'send: exactly the bytes of the field are sent (size)', n == d.const(self.size_, 64), loc)
        got = [ctx.load(st, S(p + d.const(i, 64)), 8) for i in range(self.size_)]
        ctx.oblige(st, 'send: exactly the bytes of the field are sent', z3.And(*[a == b for a, b in zip(got, self.msg)]), loc)
        return None

    raw = False

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: send does not throw', FALSE)
            return
        ctx.prove(st, 'send: the message is sent', st.ghost['n'] == 1)
        self.fixed(ctx, st)
        return ['returns']


class MSendRaw(MSend):
    raw = True

    def setup(self, ctx, st):
        d = ctx.dom
        self.module(ctx, st)
        self.rp = ext_ptr(ctx, st, 'ptr')
        self.rn = d.var('sz', 64)
        st.ghost['n'] = z3.IntVal(0)
        self.P = Probe(ctx, 'p_mdistribute', ('m', 'c', 'p', 'n'))
        return [(st, [self.o, self.rp, self.rn])]


class MLife(Mod):
    """construction registers the module with its mediator, destruction removes it"""

    def setup(self, ctx, st):
        d = ctx.dom
        self.module(ctx, st)
        st.ghost['n'] = z3.IntVal(0)
        self.P = Probe(ctx, 'p_mremove' if self.op == 'dtor' else 'p_madd', ('m', 'c'))
        if self.op == 'ctor':
            st.mem[self.p] = {}
            return [(st, [self.o, self.med])]
        return [(st, [self.o])]

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        h = self.hash_event(ctx, st, name, av)
        if h is not None:
            return h
        if fv is None or len(av) != 2:
            return NotImplemented
        efv, en, eav = self.P.expect(self.med, self.o)
        ctx.oblige(st, 'lifetime: the module %s its mediator' % ('leaves' if self.op == 'dtor' else 'joins'), z3.And(fv == efv, av[0] == self.med), loc)
        ctx.oblige(st, 'lifetime: it is this module that joins or leaves', av[1] == self.o, loc)
        ctx.oblige(st, 'lifetime: it joins or leaves once', st.ghost['n'] == 0, loc)
        st.ghost['n'] = z3.IntVal(1)
        if self.op == 'ctor':
            ctx.oblige(st, 'lifetime: the id of a module that joins is already set', get(st, [self.p], self.ido, 64) == self.hash_of(ctx, self.sends), loc)
            s2 = st.copy()
            s2.ghost['threw'] = TRUE
            return ('multi', [(st, None), (s2, ('throw', (s2.fresh('excp', 64), s2.fresh('tid', 32), 'mediator')))])
        return None

    def post(self, ctx, o):
        st = o.st
        if self.op == 'ctor' and 'threw' in st.ghost:
            ctx.oblige(st, 'post: a module that cannot join is not constructed', z3.BoolVal(o.kind != 'ret'))
            return
        if o.kind != 'ret':
            ctx.oblige(st, 'post: does not throw', FALSE)
            return
        ctx.prove(st, 'lifetime: it joins or leaves', st.ghost['n'] == 1)
        if self.op == 'ctor':
            ctx.prove(st, 'post: the id is that of the type the module sends', get(st, [self.p], self.ido, 64) == self.hash_of(ctx, self.sends))
            ctx.prove(st, 'post: the module knows its mediator', get(st, [self.p], self.mo, 64) == self.med)
        return ['returns']


class MConvert(Flat):
    """manager::convert_field: the value with exactly the given bytes, or an exception if the size differs"""
    covers = ('converted', 'refused')

    def setup(self, ctx, st):
        d = ctx.dom
        ctx.ext_range = ext_range(d)
        k = self.n
        r, self.rp, self.rpre = self.obj(ctx, st, 'result', k, 8)
        o = ext_ptr(ctx, st, 'manager')
        n = d.var('sz', 64)
        b = obj_base(ctx, st, 'message', 4096, 1)
        st.assume(z3.ULE(n, d.const(4096, 64)))
        self.mp = Part(0, n, 'array', 1, 'byte')
        st.add_region(Region('message', b, n, [self.mp], writable=False))
        self.msg0 = st.mem[self.mp]
        self.b, self.sz = b, n
        ctx.inputs['sz'] = n
        return [(st, [r, o, b, n])]

    def post(self, ctx, o):
        st = o.st
        if o.kind == 'ret':
            ctx.prove(st, 'post: only a message of the right size is converted', self.sz == self.n)
            now = self.bytes(st, self.rp, self.n)
            ctx.prove(st, 'post: the value has exactly the bytes of the message', z3.And(
                *[g == st._ra(self.msg0, S(self.b + i), self.mp) for i, g in enumerate(now)]))
            self.hit.add('converted')
            return ['converted']
        ctx.prove(st, 'post: a message is refused only if its size is wrong', self.sz != self.n)
        self.same(ctx, st, 'post: a refused message leaves no result', self.rp, self.rpre)
        return ['refused']


def units():
    us = []
    for M in (8, 1, 3):
        kw = dict(M=M, record=r'xitren::comm::manager<%d>' % M)
        df = ('-DMAX=%d' % M,)
        n = 'manager<%d>::' % M

        def U(name, props, fn, spec):
            us.append(Unit(n + name, props, 'mediator.cpp', fn, spec, df, budget=200))
        U('add_module', ['C15'], 'm_add', MAdd(**kw))
        U('remove_module', ['C15'], 'm_remove', MRemove(**kw))
        U('manager()', ['C15'], 'm_ctor', MCtor(**kw))
        U('distribute', ['C14'], 'm_distribute', Route(**kw))
        U('send<8 bytes>', ['C14'], 'm_send8', Route(msg=('2Aa', 8), **kw))
        U('send<5 bytes>', ['C14'], 'm_send5', Route(msg=('2Bb', 5), **kw))
    for fn, k in (('c8', 8), ('c5', 5)):
        us.append(Unit('manager::convert_field<%d bytes>' % k, ['C14'], 'mediator.cpp', fn, MConvert(n=k), budget=60))
    A, B, C, T = ('2Aa', 8), ('2Bb', 5), ('2Cc', 8), ('11TwelveChars', 12)
    for k, rec, types in ((0, 'M0', ()), (1, 'M1', (B,)), (3, 'M3', (A, C, T))):
        us.append(Unit('module<..., %d types>::receive' % len(types), ['C14'], 'mediator.cpp', 'b%d_receive' % k,
                       MReceive(record=rec, types=types, k=k, slot=[(24 + 8 * i, 0) for i in range(len(types))]), budget=120))
    us.append(Unit('module::send<8 bytes>', ['C14'], 'mediator.cpp', 'b0_send', MSend(record='M0', size_=8), budget=60))
    us.append(Unit('module::send<5 bytes>', ['C14'], 'mediator.cpp', 'b3_send', MSend(record='M3', size_=5), budget=60))
    us.append(Unit('module::send(ptr, size)', ['C14'], 'mediator.cpp', 'b0_sendraw', MSendRaw(record='M0', size_=0), budget=60))
    for k, rec, s in ((0, 'M0', '2Aa'), (3, 'M3', '2Bb')):
        us.append(Unit('module::module() [%s]' % rec, ['C15'], 'mediator.cpp', 'b%d_ctor' % k, MLife(record=rec, op='ctor', sends=s), budget=60))
        us.append(Unit('module::~module() [%s]' % rec, ['C15'], 'mediator.cpp', 'b%d_dtor' % k, MLife(record=rec, op='dtor', sends=s), budget=60))
    return us
