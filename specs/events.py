"""Contracts stated as exact sequences of observable events: compile-time observer list (C10), fast_pimpl (C20)."""
import re
import z3
from irvc.dom import S, TRUE, FALSE, num, is_num
from irvc.exec import Region, Part, Forall, Cand, Unsupported, Dead
from irvc.unit import Spec, Unit
from irvc import front
from registry import obj_base, ext_range, ext_ptr


class StaticObs(Spec):
    """notify calls every observer of the parameter list exactly once, in list order, with the given source and data"""
    dom = 'bv'
    needs_layout = False
    covers = ('returns', 'no notification')
    no_termination = True

    def setup(self, ctx, st):
        d = ctx.dom
        ctx.ext_range = ext_range(d)
        self.xs = []
        for i, t in enumerate(self.types):
            self.xs.append(ext_ptr(ctx, st, 'observer%d' % i))
        self.d = ext_ptr(ctx, st, 'data')
        self.n = d.var('n', 64)
        st.ghost['k'] = z3.IntVal(0)
        st.ghost['rounds'] = d.const(0, 64)
        self.root = None
        return [(st, self.xs + [self.d, self.n])]

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        if name == 'root_is':
            self.root = av[0]
            return None
        k = S(st.ghost['k'])
        if name is None or not re.match(r'_ZN1[ABC]17notification_impl', name) or not is_num(k):
            return NotImplemented
        k = num(k)
        t = self.types[k]
        ctx.oblige(st, 'notify: the next observer of the list is called', z3.BoolVal(name.startswith('_ZN1%s17' % t)), loc)
        ctx.oblige(st, 'notify: the call is made on the observer that was given for that position', av[0] == self.xs[k], loc)
        if self.root is not None:
            ctx.oblige(st, 'notify: the source is the root of this observable', av[1] == self.root, loc)
        ctx.oblige(st, 'notify: the observer receives the notified data', av[2] == self.d, loc)
        st.ghost['k'] = z3.IntVal((k + 1) % len(self.types))
        if k + 1 == len(self.types):
            st.ghost['rounds'] = S(st.ghost['rounds'] + ctx.dom.const(1, 64))
        return None

    def candidates(self, ctx, st, lvs, init):
        c = []
        for lv in lvs:
            if lv.w == 64:
                c.append(Cand('%s==rounds' % lv.name, lambda v, k=lv.key: v.st.ghost['rounds'] == v[k]))
                c.append(Cand('%s==n-rounds' % lv.name, lambda v, k=lv.key: v.st.ghost['rounds'] == self.n - v[k]))
        return c

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: notify does not throw', FALSE)
            return
        ctx.prove(st, 'notify: every observer of the list is called (no round stops early)', st.ghost['k'] == 0)
        ctx.prove(st, 'notify: exactly one round per notification', st.ghost['rounds'] == self.n)
        t = []
        if st.feasible(self.n == 0):
            t.append('no notification')
        if st.feasible(self.n != 0):
            t.append('returns')
        self.hit.update(t)
        return t


class Pimpl(Spec):
    dom = 'bv'
    needs_layout = False
    covers = ('returns',)

    def setup(self, ctx, st):
        d = ctx.dom
        ctx.ext_range = ext_range(d)
        op = self.op
        self.ev = 0
        n, al = self.size, self.al

        def box(name, init):
            b = obj_base(ctx, st, name, n, al)
            p = Part(0, n)
            st.add_region(Region(name, b, n, [p]))
            pre = []
            if init:
                for i in range(n):
                    v = st.fresh('%s_%d' % (name, i), 8)
                    st.mem[p][i] = (v, 8, 0)
                    pre.append(v)
            return b, p, pre
        args = []
        self.boxes = []
        if op not in ('life', 'layout'):
            self.o, self.p, self.pre = box('o', not (op.startswith('ctor') or op in ('copy', 'copyn', 'move')))
            args.append(self.o)
        if op in ('copy', 'copyn', 'move', 'assign', 'massign'):
            self.r, self.rp, self.rpre = box('r', True)
            args.append(self.r)
        if op in ('ctor2', 'life'):
            self.a = d.var('a', 32)
            self.b = ext_ptr(ctx, st, 'b')
            args += [self.a, self.b]
        st.ghost['ev'] = z3.IntVal(0)
        st.ghost['threw'] = z3.BoolVal(False)
        T = {'Impl': '4Impl', 'Big': '3Big'}[self.T]
        pre = '_ZN%s' % T
        names = {'ctor0': r'%sC[12]Ev$' % pre, 'ctor2': r'%sC[12]EiRKl$' % pre, 'copy': r'%sC[12]ERKS_$' % pre, 'move': r'%sC[12]EOS_$' % pre,
                 'assign': r'%saSERKS_$' % pre, 'massign': r'%saSEOS_$' % pre, 'dtor': r'%sD[12]Ev$' % pre}
        names['copyn'] = names['copy']
        self.names = names
        self.life = ['ctor2', 'copy', 'assign', 'dtor', 'dtor']
        self.seen = {}
        return [(st, args)]

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        op = self.op
        kind = [k for k, r in self.names.items() if name and re.match(r, name)]
        if not kind:
            return NotImplemented
        k = num(S(st.ghost['ev']))
        st.ghost['ev'] = z3.IntVal(k + 1)
        if op == 'life':
            want = self.life[k] if k < len(self.life) else None
            threw = st.ghost.get('why')
            if threw is not None:
                # after an exception only the objects that exist are destroyed, in reverse order
                ctx.oblige(st, 'lifetime: after an exception only destructors run', z3.BoolVal('dtor' in kind), loc)
                live = st.ghost['live']
                ctx.oblige(st, 'lifetime: every constructed object is destroyed exactly once, in reverse order',
                           av[0] == live[-1] if live else FALSE, loc)
                st.ghost['live'] = live[:-1]
                return None
            ctx.oblige(st, 'lifetime: exactly the requested operations run, in order', z3.BoolVal(want in kind), loc)
            live = st.ghost.get('live', ())
            if want in ('ctor2', 'copy'):
                if want == 'ctor2':
                    ctx.oblige(st, 'construct: the arguments reach the constructor', z3.And(av[1] == self.a, av[2] == self.b), loc)
                else:
                    ctx.oblige(st, 'copy: from the managed object of the source', av[1] == live[0], loc)
                ctx.oblige(st, 'construct: storage is aligned for the object', av[0] & (self.al - 1) == 0, loc)
                for x in live:
                    ctx.oblige(st, 'construct: each object has its own storage', z3.Or(z3.UGE(av[0], x + self.tsize), z3.UGE(x, av[0] + self.tsize)), loc)
                s2 = st.copy()
                s2.ghost['why'] = want
                s2.ghost['live'] = live
                st.ghost['live'] = live + (av[0],)
                return self.may_throw(ctx, st, s2)
            if want == 'assign':
                ctx.oblige(st, 'assign: from the source object to this object', z3.And(av[0] == live[1], av[1] == live[0]), loc)
                s2 = st.copy()
                s2.ghost['why'] = want
                return self.may_throw(ctx, st, s2, av[0])
            if want == 'dtor':
                ctx.oblige(st, 'lifetime: every constructed object is destroyed exactly once, in reverse order',
                           av[0] == live[-1] if live else FALSE, loc)
                st.ghost['live'] = live[:-1]
            return None
        what = 'the operation calls exactly the matching operation of the managed object, once'
        ctx.oblige(st, what, z3.BoolVal(op in kind and k == 0), loc)
        ctx.oblige(st, 'it acts on the storage inside the object', z3.And(z3.UGE(av[0], self.o), z3.ULE(av[0] + self.tsize, self.o + self.size)), loc)
        ctx.oblige(st, 'the storage is aligned for the managed object', av[0] & (self.tal - 1) == 0, loc)
        ctx.oblige(st, 'the storage is the one the accessors refer to', av[0] == self.o, loc)
        if op in ('copy', 'copyn', 'move', 'assign', 'massign'):
            ctx.oblige(st, 'it takes the managed object of the source', av[1] == self.r, loc)
        if op == 'ctor2':
            ctx.oblige(st, 'construct: the arguments reach the constructor', z3.And(av[1] == self.a, av[2] == self.b), loc)
        if op == 'dtor':
            return None
        s2 = st.copy()
        s2.ghost['threw'] = z3.BoolVal(True)
        return self.may_throw(ctx, st, s2, av[0] if op in ('assign', 'massign') else None)

    def may_throw(self, ctx, st, s2, ret=None):
        exc = (s2.fresh('excp', 64), s2.fresh('tid', 32), 'user exception')
        return ('multi', [(st, ret), (s2, ('throw', exc))])

    def post(self, ctx, o):
        st = o.st
        op = self.op
        if op == 'layout':
            ctx.prove(st, 'post: the object is as large and as aligned as declared', o.val == self.size * 4096 + self.al)
            return ['returns']
        if op == 'life':
            live = st.ghost.get('live', ())
            ctx.oblige(st, 'lifetime: every constructed object is destroyed exactly once', z3.BoolVal(len(live) == 0))
            if o.kind == 'ret':
                ctx.oblige(st, 'lifetime: a failed construction is reported', z3.BoolVal(st.ghost.get('why') is None))
                ctx.oblige(st, 'lifetime: all operations ran', z3.BoolVal(num(S(st.ghost['ev'])) == len(self.life)))
                return ['returns']
            ctx.oblige(st, 'lifetime: only exceptions of the managed object escape', z3.BoolVal(st.ghost.get('why') is not None))
            return
        if op in ('arrow', 'carrow', 'star', 'cstar'):
            if o.kind != 'ret':
                ctx.oblige(st, 'post: access does not throw', FALSE)
                return
            ctx.prove(st, 'post: access refers to the managed object', o.val == self.o)
            ctx.oblige(st, 'post: access runs nothing', z3.BoolVal(num(S(st.ghost['ev'])) == 0))
            self.same(ctx, st)
            return ['returns']
        if o.kind != 'ret':
            ctx.prove(st, 'post: only an exception of the managed object escapes', st.ghost['threw'])
            return
        ctx.prove(st, 'post: an exception of the managed object is not swallowed', z3.Not(st.ghost['threw']))
        ctx.oblige(st, 'post: the operation of the managed object ran', z3.BoolVal(num(S(st.ghost['ev'])) == 1))
        if op in ('assign', 'massign'):
            ctx.prove(st, 'post: assignment returns the object', o.val == self.o)
        if hasattr(self, 'rp'):
            now = [st.read_cells(self.rp, i, 1) for i in range(self.size)]
            ctx.prove(st, 'frame: the source is only touched by the managed operation', z3.And(*[a == b for a, b in zip(now, self.rpre)]))
        if op in ('assign', 'massign', 'dtor'):
            self.same(ctx, st)
        return ['returns']

    def same(self, ctx, st):
        now = [st.read_cells(self.p, i, 1) for i in range(self.size)]
        ctx.prove(st, 'frame: the object is only touched by the managed operation', z3.And(*[a == b for a, b in zip(now, self.pre)]))


def units():
    us = []
    for fn, types in (('run1', 'A'), ('run2', 'BA'), ('run3', 'ABC'), ('run4', 'ABAC'), ('run6', 'CBAABC')):
        us.append(Unit('observable<D,%s>: construct and notify n times' % ','.join(types), ['C10'], 'static_obs.cpp', fn, StaticObs(types=types), budget=120))
    for nm, T, ts, ta, size, al in (('i', 'Impl', 16, 8, 16, 8), ('j', 'Impl', 16, 8, 48, 16), ('b', 'Big', 96, 32, 96, 32)):
        for op in ('ctor0', 'ctor2', 'copy', 'copyn', 'move', 'assign', 'massign', 'dtor', 'arrow', 'carrow', 'star', 'cstar', 'life', 'layout'):
            us.append(Unit('fast_pimpl<%s,%d,%d>::%s' % (T, size, al, op), ['C20'], 'pimpl.cpp', '%s_%s' % (nm, op),
                           Pimpl(T=T, tsize=ts, tal=ta, size=size, al=al, op=op), budget=60))
    return us
