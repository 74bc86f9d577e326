"""Contracts for func/data.hpp: lsb_t / msb_t / swap / data<T>, on a little-endian and a big-endian target."""
import z3
from irvc.dom import S, TRUE, FALSE, num
from irvc.exec import Region, Part
from irvc.unit import Spec, Unit
from registry import obj_base, ext_range

BE = 'aarch64_be-linux-gnu'


class Flat(Spec):
    """straight-line function over objects made of cells; no bound: the whole input domain is symbolic"""
    dom = 'bv'
    needs_layout = False
    covers = ('returns',)

    def obj(self, ctx, st, name, size, align=1, writable=True):
        b = obj_base(ctx, st, name, size, align)
        p = Part(0, size)
        st.add_region(Region(name, b, size, [p], writable=writable))
        pre = []
        for i in range(size):
            v = st.fresh('%s_%d' % (name, i), 8)
            st.mem[p][i] = (v, 8, 0)
            pre.append(v)
        return b, p, pre

    def bytes(self, st, p, n, off=0):
        return [st.read_cells(p, off + i, 1) for i in range(n)]

    def same(self, ctx, st, name, p, pre, off=0):
        now = self.bytes(st, p, len(pre), off)
        ctx.prove(st, name, z3.And(*[a == b for a, b in zip(now, pre)]))


def cat(bs, kind):
    """the number the bytes denote: lsb = first byte is the least significant"""
    bs = list(bs) if kind == 'msb' else list(reversed(bs))
    return z3.Concat(*bs) if len(bs) > 1 else bs[0]


class Order(Flat):
    def setup(self, ctx, st):
        n = self.n // 8
        op = self.op
        self.o, self.p, self.pre = self.obj(ctx, st, 'o', n)
        ctx.ext_range = ext_range(ctx.dom)
        args = [self.o]
        if op == 'size':
            args = []
        elif op in ('eq', 'lt', 'gt', 'le', 'ge'):
            if self.alias:
                self.b, self.q, self.qpre = self.o, self.p, self.pre
            else:
                self.b, self.q, self.qpre = self.obj(ctx, st, 'b', n)
            args.append(self.b)
        elif op == 'ctor':
            b, q, pre = self.obj(ctx, st, 'value', n, n, writable=False)
            self.v = cat(pre, 'msb' if ctx.big else 'lsb')
            args.append(b)
        elif op in ('ctorm', 'assign'):
            self.v = ctx.dom.var('value', self.n)
            args.append(self.v)
        if op in ('ctor', 'ctorm', 'assign'):
            ctx.inputs['value'] = self.v
        return [(st, args)]

    def post(self, ctx, o):
        st = o.st
        op = self.op
        k = self.kind_
        if o.kind != 'ret':
            ctx.oblige(st, 'post: %s does not throw' % op, FALSE)
            return
        n = self.n // 8
        if op == 'size':
            ctx.prove(st, 'post: the type is exactly as long as its value and needs no alignment', o.val == n * 256 + 1)
            return ['returns']
        now = self.bytes(st, self.p, n)
        if op in ('ctor', 'ctorm', 'assign'):
            ctx.prove(st, 'post: the stored bytes are the value in %s order' % k, cat(now, k) == self.v)
            if op == 'assign':
                ctx.prove(st, 'post: assignment returns the object', o.val == self.o)
        elif op == 'ctor0':
            ctx.prove(st, 'post: the default value is zero', cat(now, k) == 0)
        elif op == 'get':
            ctx.prove(st, 'post: get() returns the number the bytes denote in %s order' % k, o.val == cat(self.pre, k))
            self.same(ctx, st, 'frame: get() changes nothing', self.p, self.pre)
        else:
            a, b = cat(self.pre, k), cat(self.qpre, k)
            e = {'eq': a == b, 'lt': z3.ULT(a, b), 'gt': z3.UGT(a, b), 'le': z3.ULE(a, b), 'ge': z3.UGE(a, b)}[op]
            r = o.val if z3.is_bool(o.val) else o.val != 0
            ctx.prove(st, 'post: the comparison is the comparison of the numbers', r == e)
            self.same(ctx, st, 'frame: a comparison changes nothing', self.p, self.pre)
            self.same(ctx, st, 'frame: a comparison changes nothing', self.q, self.qpre)
        return ['returns']


class Swap(Flat):
    def setup(self, ctx, st):
        self.v = ctx.dom.var('value', self.n)
        ctx.inputs['value'] = self.v
        return [(st, [self.v])]

    def post(self, ctx, o):
        n = self.n // 8
        bs = [z3.Extract(8 * i + 7, 8 * i, self.v) for i in range(n)]
        ctx.prove(o.st, 'post: swap reverses the bytes', o.val == z3.Concat(*bs))
        return ['returns']


class Data(Flat):
    def setup(self, ctx, st):
        n = self.n
        ctx.ext_range = ext_range(ctx.dom)
        op = self.op
        self.frame = []
        al = self.align
        if op == 'des':
            r, self.rp, rpre = self.obj(ctx, st, 'result', n, al)
            b, q, self.src = self.obj(ctx, st, 'input', n, 1, writable=False)
            args = [r, b]
        elif op in ('ser', 'round', 'pure'):
            r, self.rp, rpre = self.obj(ctx, st, 'result', n, al)
            b, q, self.src = self.obj(ctx, st, 'value', n, al, writable=False)
            args = [r, b]
        elif op == 'seri':
            b, q, self.src = self.obj(ctx, st, 'value', n, al, writable=False)
            # the output lies inside a larger buffer: the bytes around it must not change
            r, self.rp, rpre = self.obj(ctx, st, 'buffer', n + 16, 1)
            args = [b, S(r + 8)]
            self.frame = [(self.rp, 0, rpre[:8]), (self.rp, n + 8, rpre[n + 8:])]
        else:
            r, self.rp, rpre = self.obj(ctx, st, 'result', n, al)
            b, q, self.src = self.obj(ctx, st, 'value', n, al, writable=False)
            t, tp, tpre = self.obj(ctx, st, 'buffer', n, 1)
            args = [r, b, t]
        return [(st, args)]

    def post(self, ctx, o):
        st = o.st
        what = {'des': 'deserialize yields the value with exactly the input bytes', 'ser': 'serialize yields exactly the bytes of the value',
                'seri': 'serialize writes exactly the bytes of the value', 'round': 'deserialize(serialize(v)) == v',
                'roundi': 'deserialize after serialize through a buffer is v', 'pure': 'the byte view is the bytes of the value'}[self.op]
        if o.kind != 'ret':
            ctx.oblige(st, 'post: does not throw', FALSE)
            return
        self.same(ctx, st, 'post: ' + what, self.rp, self.src, 8 if self.op == 'seri' else 0)
        for p, off, pre in self.frame:
            self.same(ctx, st, 'frame: nothing outside the destination changes', p, pre, off)
        return ['returns']


def units():
    us = []
    for tgt in (None, BE):
        sfx = '' if tgt is None else ' [big endian]'
        for kind in ('lsb', 'msb'):
            for n in (16, 32, 64):
                for op in ('ctor', 'ctorm', 'ctor0', 'assign', 'get', 'eq', 'lt', 'gt', 'le', 'ge', 'size'):
                    for alias in ((False, True) if op in ('eq', 'lt', 'gt', 'le', 'ge') else (False,)):
                        us.append(Unit('%s_t<uint%d_t>::%s%s%s' % (kind, n, op, ' (same object)' if alias else '', sfx), ['C16'], 'endian.cpp',
                                       '%s%d_%s' % (kind, n, op), Order(kind_=kind, n=n, op=op, alias=alias), target=tgt, budget=60))
        for n in (16, 32, 64):
            us.append(Unit('swap(uint%d_t)%s' % (n, sfx), ['C16'], 'endian.cpp', 'swap%d' % n, Swap(n=n), target=tgt, budget=60))
        for nm, n, al in (('d1', 1, 1), ('d2', 2, 2), ('d4', 4, 4), ('d8', 8, 8), ('d7', 7, 1), ('d64', 64, 1)):
            for op in ('des', 'ser', 'seri', 'round', 'roundi', 'pure'):
                us.append(Unit('data<%d bytes>::%s%s' % (n, op, sfx), ['C17'], 'endian.cpp', '%s_%s' % (nm, op),
                               Data(n=n, op=op, align=al), target=tgt, budget=60))
    return us
