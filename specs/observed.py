"""Contracts for comm/values/observed.hpp (C13): the mirror value and its callback."""
import z3
from irvc.dom import S, TRUE, FALSE, num, is_num
from irvc.exec import Region, Part, Unsupported, Dead
from irvc.unit import Spec, Unit
from irvc import front
from registry import obj_base, ext_range, ext_ptr, put, get


class Observed(Spec):
    dom = 'bv'

    def function(self, ctx, st, name, base_parts, off):
        """an arbitrary std::function: target bytes, manager (null = empty), invoker"""
        d = ctx.dom
        f = {}
        for k, o in (('f0', 0), ('f1', 8), ('man', 16), ('inv', 24)):
            v = d.var('%s_%s' % (name, k), 64)
            put(st, base_parts, off + o, v, 64)
            f[k] = v
        z = d.const(0, 64)
        er = ext_range(d)
        st.assume(z3.Implies(f['man'] != z, z3.And(er(f['man']), er(f['inv']))))
        ctx.inputs[name + ' is set'] = f['man'] != z
        f['set'] = f['man'] != z
        return f

    def read_function(self, st, parts, off):
        return {k: get(st, parts, off + o, 64) for k, o in (('f0', 0), ('f1', 8), ('man', 16), ('inv', 24))}

    def setup(self, ctx, st):
        d = ctx.dom
        ctx.ext_range = ext_range(d)
        L = front.find_layout(ctx.lay, r'xitren::comm::values::observed<.*>')
        self.vo = L.find(('_M_i', '_M_fp'), ())
        self.fo = L.find(('function_',), (r'^function_type$|^(?:std::)?function<',))
        if self.vo is None or self.fo is None:
            raise Unsupported('value or function not found in the layout of observed')
        self.size = L.size
        o = obj_base(ctx, st, 'o', L.size, 8)
        self.o = o
        p = Part(0, L.size)
        self.parts = [p]
        st.add_region(Region('observed', o, L.size, [p]))
        op = self.op
        st.ghost['calls'] = 0
        st.ghost['live'] = ()
        args = [o]
        if op not in ('ctor0', 'ctorf'):
            for off in range(0, L.size, 8):
                w = min(8, L.size - off) * 8
                put(st, self.parts, off, st.fresh('pre_%d' % off, w), w)
            self.v0 = d.var('value', self.w)
            put(st, self.parts, self.vo, self.v0, self.w)
            ctx.inputs['value'] = self.v0
            self.f = self.function(ctx, st, 'callback', self.parts, self.fo)
            st.ghost['live'] = ((self.f['f0'], self.f['f1'], self.f['man'], self.f['set']),)
        self.pre = dict(st.mem[p])
        if op in ('ctorf', 'update'):
            fb = obj_base(ctx, st, 'f', 32, 16)
            self.fp = Part(0, 32)
            st.add_region(Region('function', fb, 32, [self.fp], writable=False))
            self.nf = self.function(ctx, st, 'new_callback', [self.fp], 0)
            args.append(fb)
        if op in ('notification', 'disconnect'):
            args.append(ext_ptr(ctx, st, 'src'))
        if op == 'notification':
            vb = obj_base(ctx, st, 'v', self.w // 8, 8)
            vp = Part(0, self.w // 8)
            st.add_region(Region('value', vb, self.w // 8, [vp], writable=False))
            self.v = d.var('notified', self.w)
            put(st, [vp], 0, self.v, self.w)
            ctx.inputs['notified'] = self.v
            args.append(vb)
        return [(st, args)]

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        d = ctx.dom
        if fv is None:
            return NotImplemented
        op = self.op
        if op == 'notification':
            ctx.oblige(st, 'notification: the registered callback is called', fv == self.f['inv'], loc)
            ctx.oblige(st, 'notification: the callback is only called if it is set', self.f['set'], loc)
            ctx.oblige(st, 'notification: the callback is called once', z3.BoolVal(st.ghost['calls'] == 0), loc)
            ctx.oblige(st, 'notification: the callback runs on its own target', av[0] == self.o + self.fo, loc)
            ctx.oblige(st, 'notification: the callback receives the notified value', ctx.load(st, av[1], self.w) == self.v, loc)
            ctx.oblige(st, 'notification: value() already is the notified value when the callback runs',
                       get(st, self.parts, self.vo, self.w) == self.v, loc)
            st.ghost['calls'] += 1
            return None
        # a manager call of std::function: (target, source, operation)
        if len(av) != 3 or not is_num(S(av[2])):
            return NotImplemented
        o = num(S(av[2]))
        if o == 2:
            ctx.oblige(st, 'the callback given by the caller is copied', fv == self.nf['man'] if hasattr(self, 'nf') else FALSE, loc)
            ctx.oblige(st, 'the callback copied is not empty', self.nf['set'], loc)
            src = [ctx.load(st, av[1], 64), ctx.load(st, S(av[1] + d.const(8, 64)), 64)]
            c = (st.fresh('copy', 64), st.fresh('copy', 64))
            s2 = st.copy()
            ok = z3.And(src[0] == self.nf['f0'], src[1] == self.nf['f1'])
            for l in st.ghost['live']:
                ok = z3.Or(ok, z3.And(src[0] == l[0], src[1] == l[1], fv == l[2]))
            ctx.oblige(st, 'a live callback is copied', ok, loc)
            ctx.store(st, av[0], c[0], 64)
            ctx.store(st, S(av[0] + d.const(8, 64)), c[1], 64)
            st.ghost['live'] = st.ghost['live'] + ((c[0], c[1], fv, TRUE),)
            s2.ghost['threw'] = True
            return ('multi', [(st, d.const(1, 8) if False else None), (s2, ('throw', (s2.fresh('excp', 64), s2.fresh('tid', 32), 'user exception')))])
        if o == 3:
            t = [ctx.load(st, av[0], 64), ctx.load(st, S(av[0] + d.const(8, 64)), 64)]
            live = st.ghost['live']
            for i, l in enumerate(live):
                if st.entails(z3.And(t[0] == l[0], t[1] == l[1], fv == l[2])):
                    st.ghost['live'] = live[:i] + live[i + 1:]
                    return None
            ctx.oblige(st, 'a callback is destroyed once and with its own target', FALSE, loc)
            raise Dead()
        return NotImplemented

    covers = ('returns',)

    def post(self, ctx, o):
        st = o.st
        d = ctx.dom
        op = self.op
        threw = st.ghost.get('threw', False)
        live = [l for l in st.ghost['live'] if st.feasible(l[3])]
        if op == 'notification':
            if o.kind != 'ret':
                ctx.oblige(st, 'post: notification does not throw', FALSE)
                return
            ctx.prove(st, 'post: value() is the notified value', get(st, self.parts, self.vo, self.w) == self.v)
            ctx.prove(st, 'post: a callback that is set is called exactly once', self.f['set'] == z3.BoolVal(st.ghost['calls'] == 1))
            self.frame(ctx, st, ((self.vo, self.w // 8),))
            return ['returns']
        if op == 'value':
            ctx.oblige(st, 'post: value() returns', z3.BoolVal(o.kind == 'ret'))
            ctx.prove(st, 'post: value() is the last value', o.val == self.v0)
            self.frame(ctx, st, ())
            return ['returns']
        if op == 'disconnect':
            ctx.oblige(st, 'post: disconnect returns', z3.BoolVal(o.kind == 'ret'))
            self.frame(ctx, st, ())
            return ['returns']
        if op == 'dtor':
            ctx.oblige(st, 'post: the destructor returns', z3.BoolVal(o.kind == 'ret'))
            ctx.prove(st, 'post: the callback is destroyed', z3.And(*[z3.Not(l[3]) for l in st.ghost['live']]))
            return ['returns']
        now = self.read_function(st, self.parts, self.fo) if o.kind == 'ret' or op == 'update' else None
        if op == 'ctor0':
            ctx.oblige(st, 'post: the constructor returns', z3.BoolVal(o.kind == 'ret'))
            ctx.prove(st, 'post: a new observed value is zero', get(st, self.parts, self.vo, self.w) == 0)
            ctx.prove(st, 'post: a new observed value has no callback', now['man'] == 0)
            return ['returns']
        if o.kind != 'ret':
            ctx.oblige(st, 'post: only an exception of the callback object escapes', z3.BoolVal(threw))
            if op == 'update':
                ctx.prove(st, 'post: a failed update keeps the old callback', z3.And(*[now[k] == self.f[k] for k in ('f0', 'f1', 'man', 'inv')]))
            else:
                ctx.prove(st, 'post: nothing is leaked', z3.And(*[z3.Not(l[3]) for l in st.ghost['live']]))
            return
        ctx.oblige(st, 'post: an exception of the callback object is reported', z3.BoolVal(not threw))
        # the callback held now is a live copy of the one given
        lv = st.ghost['live']
        held = [z3.And(l[0] == now['f0'], l[1] == now['f1'], l[2] == now['man']) for l in lv]
        ctx.prove(st, 'post: the object holds a copy of the callback given', z3.If(
            self.nf['set'], z3.And(now['man'] == self.nf['man'], now['inv'] == self.nf['inv'], z3.Or(*held) if held else FALSE), now['man'] == 0))
        ctx.prove(st, 'post: no other callback copy stays alive', z3.And(*[z3.Or(z3.Not(l[3]), h) for l, h in zip(lv, held)]))
        if op == 'update':
            self.frame(ctx, st, ((self.fo, 32),))
        else:
            ctx.prove(st, 'post: a new observed value is zero', get(st, self.parts, self.vo, self.w) == 0)
        return ['returns']

    def frame(self, ctx, st, skip):
        p = self.parts[0]
        for off, e in self.pre.items():
            if e[2] or any(s <= off < s + w for s, w in skip):
                continue
            ctx.prove(st, 'frame: nothing else changes', st.read_cells(p, off, e[1] // 8) == e[0])


def units():
    us = []
    for ty, w in (('int', 32), ('std::uint8_t', 8), ('long', 64)):
        for op in ('ctor0', 'ctorf', 'update', 'value', 'notification', 'dtor', 'disconnect'):
            us.append(Unit('observed<%s>::%s' % (ty, op), ['C13'], 'observed.cpp', 'o_' + op, Observed(op=op, w=w), ('-DVT=' + ty,), budget=60))
    return us
