"""Contracts for func/packet.hpp: fixed packets (C18) and the variable-length packet accessor (C19)."""
import z3
from irvc.dom import S, TRUE, FALSE, num, is_num
from irvc.exec import Region, Part, Forall, Cand, Unsupported, Dead
from irvc.unit import Spec, Unit
from irvc import front
from registry import obj_base, ext_range, ext_ptr
from endian import Flat, cat


class Checksum:
    """crc_of(b, e): the checksum is an arbitrary function of the bytes in [b, e)"""

    def crc_uf(self, n):
        return z3.Function('crc%d' % n, z3.BitVecSort(8 * n), z3.BitVecSort(self.cn * 8))

    def crc(self, bs):
        """checksum value of a concrete list of bytes"""
        return self.crc_uf(len(bs))(z3.Concat(*bs) if len(bs) > 1 else bs[0])

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        if name not in ('crc_of', 'crc32_of'):
            return NotImplemented
        n = S(av[1] - av[0])
        if not is_num(n):
            raise Unsupported('checksum over a range of unknown length')
        k = num(n)
        if k == 0 or k > 4096:
            ctx.oblige(st, 'the checksum is taken over the message', FALSE, loc)
            raise Dead()
        bs = [ctx.load(st, S(av[0] + ctx.dom.const(i, 64)), 8) for i in range(k)]
        return self.crc(bs)


class Packet(Checksum, Flat):
    def setup(self, ctx, st):
        ctx.ext_range = ext_range(ctx.dom)
        h, f, c = self.h, self.f, self.cn
        n = h + f + c
        self.n = n
        op = self.op

        def ro(name, k):
            b, p, pre = self.obj(ctx, st, name, k, 1, writable=False)
            return b, p, pre
        args = []
        if op in ('ctor0', 'ctor', 'ctora', 'ctori', 'desi', 'header', 'fields', 'crc', 'cheader', 'cfields', 'ccrc', 'valid'):
            self.o, self.op_, self.opre = self.obj(ctx, st, 'packet', n, 1)
            args.append(self.o)
        if op in ('toarray', 'ser'):
            self.a, self.ap, _ = self.obj(ctx, st, 'array', n, 1)
            args.append(self.a)
        if op == 'seri':
            self.o, self.op_, self.opre = ro('packet', n)
            self.a, self.ap, self.apre = self.obj(ctx, st, 'buffer', n + 16, 1)
            args += [self.o, S(self.a + 8)]
        if op == 'toarray':
            self.o, self.op_, self.opre = ro('packet', n)
            args.append(self.o)
        if op in ('des', 'round'):
            ok, self.okp, _ = self.obj(ctx, st, 'ok', 1, 1)
            hb, self.hp, _ = self.obj(ctx, st, 'out_header', h, 1)
            fb, self.fp, _ = self.obj(ctx, st, 'out_fields', f, 1)
            args += [ok, hb, fb]
        if op in ('ctor', 'ser', 'round', 'ctorvalid'):
            a, _, self.hpre = ro('header', h)
            b, _, self.fpre = ro('fields', f)
            args += [a, b]
        if op in ('ctora', 'ctori', 'desi', 'des'):
            a, _, self.src = ro('input', n)
            args.append(a)
        return [(st, args)]

    def bytes_of_crc(self, v):
        bs = [z3.Extract(8 * i + 7, 8 * i, v) for i in range(self.cn)]
        return bs if self.order == 'lsb' else list(reversed(bs))

    def post(self, ctx, o):
        st = o.st
        op = self.op
        if o.kind != 'ret':
            ctx.oblige(st, 'post: does not throw', FALSE)
            return
        h, f, c, n = self.h, self.f, self.cn, self.n

        def eq(what, got, want):
            ctx.prove(st, 'post: ' + what, z3.And(*[a == b for a, b in zip(got, want)]))
        r = getattr(o, 'val', None)
        if op == 'ctor0':
            eq('a default packet is all zero', self.bytes(st, self.op_, n), [z3.BitVecVal(0, 8)] * n)
        elif op == 'ctor':
            body = self.hpre + self.fpre
            now = self.bytes(st, self.op_, n)
            eq('the packet holds header, fields', now[:h + f], body)
            eq('the packet holds the checksum of header and fields', now[h + f:], self.bytes_of_crc(self.crc(body)))
        elif op in ('ctora', 'ctori', 'desi'):
            eq('the packet holds exactly the input bytes', self.bytes(st, self.op_, n), self.src)
        elif op in ('header', 'cheader'):
            ctx.prove(st, 'post: header() refers to the first bytes of the packet', r == self.o)
        elif op in ('fields', 'cfields'):
            ctx.prove(st, 'post: fields() refers to the bytes after the header', r == S(self.o + ctx.dom.const(h, 64)))
        elif op in ('crc', 'ccrc'):
            ctx.prove(st, 'post: crc() refers to the bytes after the fields', r == S(self.o + ctx.dom.const(h + f, 64)))
        elif op == 'valid':
            v = self.crc(self.opre[:h + f])
            ok = z3.And(*[a == b for a, b in zip(self.opre[h + f:], self.bytes_of_crc(v))])
            ctx.prove(st, 'post: valid() holds exactly if the stored checksum is that of header and fields', truth(r) == ok)
        elif op == 'toarray':
            eq('to_array() is the bytes of the packet', self.bytes(st, self.ap, n), self.opre)
        elif op == 'ser':
            body = self.hpre + self.fpre
            eq('serialize is header, fields, checksum of both', self.bytes(st, self.ap, n), body + self.bytes_of_crc(self.crc(body)))
        elif op == 'seri':
            eq('serialize writes the bytes of the packet', self.bytes(st, self.ap, n, 8), self.opre)
            self.same(ctx, st, 'frame: nothing outside the destination changes', self.ap, self.apre[:8])
            self.same(ctx, st, 'frame: nothing outside the destination changes', self.ap, self.apre[n + 8:], n + 8)
        elif op in ('des', 'round'):
            if op == 'des':
                body, tail = self.src[:h + f], self.src[h + f:]
                ok = z3.And(*[a == b for a, b in zip(tail, self.bytes_of_crc(self.crc(body)))])
                ctx.prove(st, 'post: deserialize reports valid exactly if the checksum matches', truth(self.bytes(st, self.okp, 1)[0]) == ok)
            else:
                body = self.hpre + self.fpre
                ctx.prove(st, 'post: a serialized packet is valid', truth(self.bytes(st, self.okp, 1)[0]))
            eq('deserialize yields the header bytes', self.bytes(st, self.hp, h), body[:h])
            eq('deserialize yields the fields bytes', self.bytes(st, self.fp, f), body[h:])
        elif op == 'ctorvalid':
            ctx.prove(st, 'post: a packet made from header and fields is valid', truth(r))
        if op in ('header', 'fields', 'crc', 'cheader', 'cfields', 'ccrc', 'valid'):
            self.same(ctx, st, 'frame: the packet is unchanged', self.op_, self.opre)
        return ['returns']


def truth(r):
    return r if z3.is_bool(r) else r != 0


class Acc(Checksum, Spec):
    """packet_accessor<Max>: storage_ is an array of Max bytes, size_ an arbitrary 64-bit number"""
    dom = 'bv'

    def build(self, ctx, st, writable=True):
        d = ctx.dom
        ctx.ext_range = ext_range(d)
        ctx.kind_shape['byte'] = lambda k: k
        L = front.find_layout(ctx.lay, r'xitren::func::packet_accessor<%d>' % self.max)
        so = L.find(('storage_',), (r'^array_type$|^(?:std::)?array<',))
        no = L.find(('size_',), (r'^size_type$|^(?:std::)?size_t$|^unsigned long$',))
        if so is None or no is None:
            raise Unsupported('storage/size not found in the layout')
        self.so, self.no = so, no
        o = obj_base(ctx, st, 'o', L.size, 8)
        self.o = o
        self.arr = Part(so, self.max, 'array', 1, 'byte')
        parts = [self.arr]
        if so:
            parts.insert(0, Part(0, so))
        if L.size > so + self.max:
            parts.append(Part(so + self.max, L.size - so - self.max))
        st.add_region(Region('accessor', o, L.size, parts, writable=writable))
        self.cells = [p for p in parts if p.kind == 'cells']
        self.n0 = d.var('size', 64)
        ctx.inputs['size'] = self.n0
        for i in range(8):
            for p in self.cells:
                if p.off <= no < p.off + p.size:
                    st.mem[p][no + i] = (self.n0, 64, i)
                    self.np = p
        self.s0 = S(o + d.const(so, 64))
        self.A0 = st.mem[self.arr]
        return o

    def at(self, st, i, node=None):
        i = i if not isinstance(i, int) else z3.BitVecVal(i, 64)
        return st._ra(node if node is not None else st.mem[self.arr], S(self.s0 + i), self.arr)

    def size_now(self, st):
        return st.read_cells(self.np, self.no, 8)

    def out(self, ctx, st, name, k, al=1):
        b = obj_base(ctx, st, name, k, al)
        p = Part(0, k)
        st.add_region(Region(name, b, k, [p]))
        return b, p

    def inobj(self, ctx, st, name, k):
        b = obj_base(ctx, st, name, k, 1)
        p = Part(0, k)
        st.add_region(Region(name, b, k, [p], writable=False))
        pre = []
        for i in range(k):
            v = st.fresh('%s_%d' % (name, i), 8)
            st.mem[p][i] = (v, 8, 0)
            pre.append(v)
        return b, pre

    def unchanged(self, ctx, st, size=True):
        i = st.fresh('i', 64)
        s2 = st.copy()
        s2.assume(z3.ULT(i, self.max))
        ctx.prove(s2, 'frame: the storage is unchanged', self.at(s2, i) == self.at(s2, i, self.A0))
        if size:
            ctx.prove(st, 'frame: the size is unchanged', self.size_now(st) == self.n0)

    def read(self, st, p, n, off=0):
        return [st.read_cells(p, off + i, 1) for i in range(n)]

    def crcval(self, bs):
        return cat(bs, self.order)

    covers = ('returns',)

    def no_throw(self, ctx, o):
        if o.kind != 'ret':
            ctx.oblige(o.st, 'post: does not throw', FALSE)
            return False
        return True


class AccSimple(Acc):
    def setup(self, ctx, st):
        o = self.build(ctx, st)
        args = [o]
        if self.op == 'setsize':
            self.v = ctx.dom.var('value', 64)
            args.append(self.v)
        return [(st, args)]

    def post(self, ctx, o):
        st = o.st
        if not self.no_throw(ctx, o):
            return
        if self.op == 'ctor':
            ctx.prove(st, 'post: a new accessor has size 0', self.size_now(st) == 0)
            i = st.fresh('i', 64)
            s2 = st.copy()
            s2.assume(z3.ULT(i, self.max))
            ctx.prove(s2, 'post: a new accessor is all zero', self.at(s2, i) == 0)
            return ['returns']
        if self.op == 'size':
            ctx.prove(st, 'post: size() returns the size', o.val == self.n0)
        elif self.op == 'setsize':
            ctx.prove(st, 'post: size(n) sets the size', self.size_now(st) == self.v)
        else:
            ctx.prove(st, 'post: storage() refers to the storage', o.val == self.s0)
        self.unchanged(ctx, st, self.op != 'setsize')
        return ['returns']


class AccDes(Acc):
    covers = ('valid', 'invalid', 'rejected')

    def setup(self, ctx, st):
        o = self.build(ctx, st, writable=False)
        h, self.hp = self.out(ctx, st, 'header', self.h)
        f, self.fp = self.out(ctx, st, 'fields', self.f)
        ok, self.okp = self.out(ctx, st, 'ok', 1)
        n, self.cp = self.out(ctx, st, 'count', 8, 8)
        dd, self.dp = self.out(ctx, st, 'data', 8, 8)
        st.ghost['crc'] = None
        self.length = self.h + self.f + self.cn
        d = ctx.dom
        self.fits = z3.And(z3.ULE(d.const(self.length, 64), self.n0), z3.ULE(self.n0, d.const(self.max, 64)),
                           z3.URem(self.n0 - d.const(self.length, 64), d.const(self.t, 64)) == 0)
        self.C = d.var('checksum', self.cn * 8)
        return [(st, [o, h, f, ok, n, dd])]

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        if name not in ('crc_of', 'crc32_of'):
            return NotImplemented
        d = ctx.dom
        ctx.oblige(st, 'the checksum is only taken over a message that fits', self.fits, loc)
        ctx.oblige(st, 'the checksum covers the message from its first byte', av[0] == self.s0, loc)
        ctx.oblige(st, 'the checksum covers everything but the stored checksum', av[1] == self.s0 + self.n0 - d.const(self.cn, 64), loc)
        self.unchanged(ctx, st)
        return self.C

    def post(self, ctx, o):
        st = o.st
        d = ctx.dom
        if not self.no_throw(ctx, o):
            return
        okv = truth(self.read(st, self.okp, 1)[0])
        cnt = st.read_cells(self.cp, 0, 8)
        dat = st.read_cells(self.dp, 0, 8)
        hdr, fld = self.read(st, self.hp, self.h), self.read(st, self.fp, self.f)
        s1 = st.copy()
        s1.assume(z3.Not(self.fits))
        tags = []
        if s1.check() != z3.unsat:
            tags.append('rejected')
            ctx.prove(s1, 'post: a size that cannot be a message is reported invalid', z3.And(z3.Not(okv), cnt == 0, dat == 0))
            ctx.prove(s1, 'post: an invalid result holds no header and fields', z3.And(*[x == 0 for x in hdr + fld]))
        s2 = st.copy()
        s2.assume(self.fits)
        if s2.check() != z3.unsat:
            pos = S(self.n0 - d.const(self.cn, 64))
            stored = [self.at(s2, S(pos + d.const(i, 64)), self.A0) for i in range(self.cn)]
            good = self.crcval(stored) == self.C
            ctx.prove(s2, 'post: valid exactly if the stored checksum is that of the message', okv == good)
            ctx.prove(s2, 'post: the number of payload elements is what the size leaves', cnt == z3.UDiv(self.n0 - d.const(self.length, 64), d.const(self.t, 64)))
            ctx.prove(s2, 'post: the payload starts after the fields', dat == S(self.s0 + d.const(self.h + self.f, 64)))
            ctx.prove(s2, 'post: the header is the first bytes', z3.And(*[a == self.at(s2, i, self.A0) for i, a in enumerate(hdr)]))
            ctx.prove(s2, 'post: the fields are the bytes after the header', z3.And(*[a == self.at(s2, self.h + i, self.A0) for i, a in enumerate(fld)]))
            if s2.feasible(good):
                tags.append('valid')
            if s2.feasible(z3.Not(good)):
                tags.append('invalid')
        self.unchanged(ctx, st)
        self.hit.update(tags)
        return tags


class AccDesN(Acc):
    def setup(self, ctx, st):
        d = ctx.dom
        o = self.build(ctx, st, writable=False)
        self.length = self.h + self.f + self.cn
        outs = []
        self.ps = []
        for nm in ('header', 'fields', 'count', 'data'):
            b, p = self.out(ctx, st, nm, 8, 8)
            outs.append(b)
            self.ps.append(p)
        # the unchecked variant is only defined for a size that holds a message
        st.assume(z3.And(z3.ULE(d.const(self.length, 64), self.n0), z3.ULE(self.n0, d.const(self.max, 64))))
        return [(st, [o] + outs)]

    def post(self, ctx, o):
        st = o.st
        d = ctx.dom
        if not self.no_throw(ctx, o):
            return
        h, f, n, dt = [st.read_cells(p, 0, 8) for p in self.ps]
        ctx.prove(st, 'post: header pointer', h == self.s0)
        ctx.prove(st, 'post: fields pointer', f == self.s0 + self.h)
        ctx.prove(st, 'post: data pointer', dt == self.s0 + self.h + self.f)
        ctx.prove(st, 'post: the number of payload elements', n == z3.UDiv(self.n0 - d.const(self.length, 64), d.const(self.t, 64)))
        self.unchanged(ctx, st)
        return ['returns']


class AccSer(Acc):
    covers = ('stored', 'no room', 'reserved')
    ext_bytes = True

    def setup(self, ctx, st):
        d = ctx.dom
        o = self.build(ctx, st)
        hb, self.hpre = self.inobj(ctx, st, 'header', self.h)
        fb, self.fpre = self.inobj(ctx, st, 'fields', self.f)
        self.length = self.h + self.f + self.cn
        n = d.var('count', 64)
        self.cnt = n
        ctx.inputs['count'] = n
        x = ext_ptr(ctx, st, 'payload', 8)
        nul = z3.Bool('null_payload')
        st2 = st.copy()
        st.assume(z3.Not(nul))
        st2.assume(nul)
        self.x, self.nul = x, nul
        self.room = z3.ULE(n, d.const((self.max - self.length) // self.t, 64))
        self.C = d.var('checksum', self.cn * 8)
        self.end = S(n * d.const(self.t, 64) + d.const(self.h + self.f, 64))     # first byte of the checksum
        return [(st, [o, hb, fb, n, x]), (st2, [o, hb, fb, n, d.const(0, 64)])]

    def expected(self, ctx, st, i):
        """byte i < end of the message"""
        d = ctx.dom
        pay = ctx.uf('ext8', 8)(S(self.x + i - d.const(self.h + self.f, 64)))
        e = z3.If(self.nul, self.at(st, i, self.A0), pay)
        for k, b in enumerate(self.hpre + self.fpre):
            e = z3.If(i == k, b, e)
        return e

    def candidates(self, ctx, st, lvs, init):
        """a loop that writes the message byte by byte: what lies before the position is written, the rest is as it was"""
        d = ctx.dom
        out = []
        node0 = st.mem[self.arr]
        hf = d.const(self.h + self.f, 64)
        for lv in lvs:
            if lv.w != 64:
                continue
            k = lv.key
            pos = [('', lambda v, k=k: v[k]), ('+fixed', lambda v, k=k: v[k] + hf), ('in storage', lambda v, k=k: v[k] - self.s0),
                   ('in payload', lambda v, k=k: v[k] - self.x + hf), ('to go', lambda v, k=k: self.end - v[k]),
                   ('elements', lambda v, k=k: v[k] * self.t + hf), ('elements to go', lambda v, k=k: self.end - v[k] * self.t),
                   ('+header', lambda v, k=k: v[k] + d.const(self.h, 64))]
            for nm, p in pos:
                out.append(Cand('%s %s within the message' % (lv.name, nm), lambda v, p=p: z3.ULE(p(v), self.end)))
                for a in (0, self.h, self.h + self.f):
                    out.append(Cand('written from %d to %s %s' % (a, lv.name, nm), lambda v, p=p, a=a: self.written(ctx, v, node0, a, p(v))))
                out.append(Cand('fixed part before %s %s' % (lv.name, nm), lambda v, p=p: z3.ULE(hf, p(v))))
                out.append(Cand('written from %s %s to the end' % (lv.name, nm), lambda v, p=p: self.written(ctx, v, node0, p(v), self.end)))
        return out

    def written(self, ctx, v, node0, a, p):
        def fn(x):
            i = S(x - self.s0)
            new = z3.And(z3.ULE(a, i), z3.ULT(i, p))
            return z3.Implies(z3.ULT(i, self.max), self.at(v.st, i) == z3.If(new, self.expected(ctx, v.st, i), self.at(v.st, i, node0)))
        return Forall('byte', fn)

    def body_is(self, ctx, st, name, loc=None):
        i = st.fresh('i', 64)
        s2 = st.copy()
        s2.assume(z3.ULT(i, self.end))
        s2.add_term('byte', S(self.s0 + i))
        ctx.prove(s2, name, self.at(s2, i) == self.expected(ctx, s2, i), loc)

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        if name not in ('crc_of', 'crc32_of'):
            return NotImplemented
        ctx.oblige(st, 'a message is only written if it fits', self.room, loc)
        ctx.oblige(st, 'the checksum covers the message from its first byte', av[0] == self.s0, loc)
        ctx.oblige(st, 'the checksum covers header, fields and payload', av[1] == self.s0 + self.end, loc)
        self.body_is(ctx, st, 'the checksum is taken after header, fields and payload are written', loc)
        return self.C

    def post(self, ctx, o):
        st = o.st
        d = ctx.dom
        if not self.no_throw(ctx, o):
            return
        r = truth(o.val)
        tags = []
        s1 = st.copy()
        s1.assume(z3.Not(self.room))
        if s1.check() != z3.unsat:
            tags.append('no room')
            ctx.prove(s1, 'post: a message that does not fit is refused', z3.Not(r))
            self.unchanged(ctx, s1)
        s2 = st.copy()
        s2.assume(self.room)
        if s2.check() != z3.unsat:
            if s2.feasible(self.nul):
                tags.append('reserved')
            if s2.feasible(z3.Not(self.nul)):
                tags.append('stored')
            ctx.prove(s2, 'post: a message that fits is accepted', r)
            ctx.prove(s2, 'post: the size is that of the message', self.size_now(s2) == self.end + self.cn)
            self.body_is(ctx, s2, 'post: the storage holds header, fields, payload')
            got = [self.at(s2, S(self.end + d.const(i, 64))) for i in range(self.cn)]
            ctx.prove(s2, 'post: the checksum of the message follows the payload', self.crcval(got) == self.C)
            i = st.fresh('i', 64)
            s3 = s2.copy()
            s3.assume(z3.And(z3.ULE(self.end + self.cn, i), z3.ULT(i, self.max)))
            s3.add_term('byte', S(self.s0 + i))
            ctx.prove(s3, 'frame: the storage after the message is unchanged', self.at(s3, i) == self.at(s3, i, self.A0))
        self.hit.update(tags)
        return tags


def units():
    us = []
    for nm, h, f, c, order in (('p25', 2, 5, 2, 'lsb'), ('p34', 3, 22, 4, 'msb')):
        for op in ('ctor0', 'ctor', 'ctora', 'ctori', 'header', 'fields', 'crc', 'cheader', 'cfields', 'ccrc', 'valid', 'toarray', 'ser', 'des',
                   'desi', 'seri', 'round', 'ctorvalid'):
            us.append(Unit('packet<%d,%d,%d>::%s' % (h, f, c, op), ['C18'], 'packet.cpp', '%s_%s' % (nm, op),
                           Packet(h=h, f=f, cn=c, order=order, op=op), budget=100))
    for nm, mx, h, f, t, c, order in (('a1', 32, 2, 5, 1, 2, 'lsb'), ('a3', 40, 3, 5, 3, 4, 'msb'), ('a8', 64, 2, 5, 8, 2, 'lsb')):
        kw = dict(max=mx, h=h, f=f, t=t, cn=c, order=order)

        def U(op, spec):
            us.append(Unit('packet_accessor<%d>(header %d, fields %d, element %d)::%s' % (mx, h, f, t, op), ['C19'], 'packet.cpp', '%s_%s' % (nm, op), spec, budget=200))
        for op in ('ctor', 'size', 'setsize', 'storage', 'cstorage'):
            U(op, AccSimple(op=op, **kw))
        U('des', AccDes(**kw))
        U('desn', AccDesN(**kw))
        U('ser', AccSer(**kw))
    return us
