"""Contracts for func/argv_parser.hpp (C21).

`instance` and the functions it registers: the functions are run on every argument vector, as they are stored, after everything
the registration had on its stack (and the list it was given) is gone.  `parse`: every stored function is called once for every
argument, in order, with all arguments, and then the options are copied out.  The container (std::map), std::string and the
streams are used by contract."""
import re
import z3
from irvc.dom import S, TRUE, FALSE, num, is_num
from irvc.exec import Region, Part, Unsupported, Dead, Cand, Frame, Fork
from irvc.unit import Spec, Unit
from irvc import front
from registry import obj_base, ext_range, ext_ptr, put, get

STR = r'_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
SS = r'_ZNSt7__cxx111[89]basic_i?stringstreamIcSt11char_traitsIcESaIcEE'
NOINLINE = (r'^' + SS + r'(C[12]E|D[012]Ev|3strE)|^_ZNSt3mapI.*ixE|^' + STR + r'(C[12]E|D[12]E|6assign|aSE|10_M_replace|9_M_assign|4swap)|^_ZN4optsC|'
            r'^_ZNSt8_Rb_treeI.*(E8_M_erase|D[12]Ev)$|'
            r'^_ZNK?St(8_Rb_tree|3map)I.*E(4find|5count|8contains|2at|5clear|5erase|11lower_bound|11upper_bound|14_M_lower_bound|14_M_upper_bound|16insert_or_assign|11try_emplace|7emplace|6insert|17_M_emplace_unique|22_M_emplace_hint_unique)')
LIST, ARGS = 1 << 32, 1 << 31
SIZE = {0: 32, 1: 4, 2: 8, 3: 1}
KIND = {0: 'string', 1: 'int', 2: 'double', 3: 'bool'}


class Argv(Spec):
    dom = 'bv'

    def common(self, ctx, st):
        d = ctx.dom
        ctx.ext_range = ext_range(d)
        ctx.opaque = re.compile(NOINLINE)
        self.L = front.find_layout(ctx.lay, r'xitren::func::argv_parser<.*opts>')
        self.size = self.L.size
        base = [f for f in self.L.fields if f[2].replace('struct ', '') == 'opts' and f[3] == '<base>']
        maps = [f for f in self.L.fields if re.search(r'\bmap<', f[2]) and f[3] and f[3] != '<base>']
        if len(base) != 1 or not maps:
            raise Unsupported('layout of the parser')
        self.opts = base[0][0]
        self.osize = front.find_layout(ctx.lay, r'opts').size
        self.map = min(maps, key=lambda f: f[1])[0]
        self.header = self.map + 8

    # -- strings
    def cid(self, ctx, p):
        """what the characters at p are"""
        return ctx.uf('chars', 64)(S(p))

    def same(self, ctx, st, a, b, n):
        f = self.eqf
        x, y = self.cid(ctx, a), self.cid(ctx, b)
        st.assume(f(x, y, n) == f(y, x, n))
        st.assume(f(x, x, n))
        return f(x, y, n)


class Instance(Argv):
    covers = ('returns', 'empty list', 'option set', 'option absent', 'value missing')

    def setup(self, ctx, st):
        d = ctx.dom
        self.common(ctx, st)
        self.eqf = z3.Function('equal', *([z3.BitVecSort(64)] * 3), z3.BoolSort())
        rb = obj_base(ctx, st, 'r', 8, 8)
        self.rp = Part(0, 8)
        st.add_region(Region('result', rb, 8, [self.rp]))
        self.n = d.var('options', 64)
        st.assume(z3.ULT(self.n, LIST))
        ctx.inputs['number of options'] = self.n
        self.list = d.var('list', 64)
        st.assume(z3.And(z3.ULE(1 << 40, self.list), z3.ULE(self.list, (1 << 43)), d.aligned(self.list, 16)))
        ctx.basezone[self.list.get_id()] = (1 << 40, 1 << 44)
        p = Part(0, S(self.n * 48), 'window')
        p.window = self.element
        p.nocache = p.eager = True
        self.lreg = Region('list', self.list, S(self.n * 48), [p], writable=False)
        st.add_region(self.lreg)
        il = obj_base(ctx, st, 'l', 16, 8)
        ip = Part(0, 16)
        st.add_region(Region('list object', il, 16, [ip], writable=False))
        put(st, [ip], 0, self.list, 64)
        put(st, [ip], 8, self.n, 64)
        st.ghost['cnt'] = d.const(0, 64)
        st.ghost['defaults'] = 0
        st.ghost['phase'] = 'instance'
        st.ghost['eff'] = ()
        return [(st, [rb, il])]

    # element number k of the list
    def ptr(self, ctx, k):
        return ctx.uf('name_ptr', 64)(S(k))

    def len(self, ctx, k):
        return ctx.uf('name_len', 64)(S(k))

    def member(self, ctx, k):
        return ctx.uf('member', 64)(S(k))

    def kind(self, ctx, k):
        return ctx.uf('kind', 8)(S(k))

    def well_formed(self, ctx, st, k):
        m, t = self.member(ctx, k), self.kind(ctx, k)
        st.assume(z3.ULE(t, 3))
        for i, n in SIZE.items():
            st.assume(z3.Implies(t == i, z3.And(z3.ULE(m, self.osize - n), ctx.dom.aligned(m, 8 if n == 32 else n))))
        st.assume(z3.ULT(self.len(ctx, k), 1 << 40))

    def locate(self, ctx, st, off, cands, size):
        """which of the candidate elements the offset lies in -> (index, offset in the element)"""
        for k in cands:
            rel = S(off - k * size)
            if is_num(rel) and num(rel) < size:
                return k, num(rel)
        for k in cands:
            rel = off - k * size
            if st.check(z3.ULT(rel, size)) != z3.sat:
                continue
            v = num(S(ctx.model.eval(rel, model_completion=True)))
            if st.entails(rel == v, quick=True):
                return k, v
        return None, None

    def hidden(self, st, name, size, vals):
        p = Part(0, size)
        p.nocache = True
        Region(name, z3.BitVec(name + '!base', 64), size, [p])
        st.mem[p] = {}
        for o, v, w in vals:
            put(st, [p], o, v, w)
        return p

    def element(self, ctx, st, p, a, nb, write, loc, quick):
        if write:
            ctx.oblige(st, 'frame: the list of options is not written', FALSE, loc)
            raise Dead()
        c = st.ghost['cnt']
        one = ctx.dom.const(1, 64)
        k, rel = self.locate(ctx, st, S(a - self.list), [c] + ([S(c - one)] if not st.entails(c == 0, quick=True) else []), 48)
        if k is None or rel + nb > 48:
            if quick:
                return None
            ctx.oblige(st, 'the options of the list are registered one after the other', FALSE, loc)
            raise Dead()
        ctx.oblige(st, 'memory access in bounds of the list', z3.ULT(k, self.n), loc)
        self.well_formed(ctx, st, k)
        h = self.hidden(st, 'element', 48, ((0, self.ptr(ctx, k), 64), (8, self.len(ctx, k), 64), (32, self.member(ctx, k), 64), (40, self.kind(ctx, k), 8)))
        return ('cells', h, rel)

    # -- events
    def on_event(self, ctx, st, fv, name, av, ins, loc):
        d = ctx.dom
        g = st.ghost
        if fv is not None:
            if g['phase'] == 'instance':
                old = st.known.get('old function')
                if old is not None and fv.eq(old):
                    ctx.trusted.add('destroying the function an option had before touches nothing else')
                    return None
            return NotImplemented
        if name in ('bcmp', 'memcmp'):
            n = S(av[2])
            for a in av[:2]:
                self.readable(ctx, st, a, loc)
            r = st.fresh('cmp', 32)
            st.assume((r == 0) == z3.Or(n == 0, self.same(ctx, st, av[0], av[1], n)))
            return r
        m = re.match(STR + r'(.*)$', name)
        if m:
            return self.string(ctx, st, m.group(1), av, loc)
        if re.match(r'_ZN4optsC[12]Ev$', name):
            ctx.oblige(st, 'the options are constructed once, in the parser', z3.BoolVal(g['defaults'] == 0 and g['phase'] == 'instance'), loc)
            g['defaults'] = 1
            h = [r for r in st.regions if r.heap and r not in st.dead and st.entails(av[0] == r.base + self.opts, quick=True)]
            if len(h) != 1 or num(h[0].size) != self.size if h and not isinstance(h[0].size, int) else len(h) != 1 or h[0].size != self.size:
                ctx.oblige(st, 'the options are part of a parser', FALSE, loc)
                raise Dead()
            st.known['parser'] = h[0]
            return None
        if re.match(r'_ZNSt3mapI.*ixE', name):
            return self.slot(ctx, st, av, loc)
        if g['phase'] == 'callback':
            return self.effect(ctx, st, name, av, loc)
        return NotImplemented

    def readable(self, ctx, st, a, loc):
        a = S(a)
        if st.known.get(('str', a.get_id())) is not None:
            return
        for v in st.known.values():
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == 'str' and st.entails(v[1] == a, quick=True):
                return
        ctx.oblige(st, 'only the characters of strings that live are used', FALSE, loc)

    def know(self, st, p):
        st.known[('str', p.get_id())] = ('str', p)

    def forget(self, st, p):
        for k, v in list(st.known.items()):
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == 'str' and (v[1].eq(p) or st.entails(v[1] == p, quick=True)):
                st.known[k] = None

    def string(self, ctx, st, op, av, loc):
        d = ctx.dom
        ctx.trusted.add('std::string keeps a copy of the characters it was constructed from or assigned until it is assigned or destroyed')
        c8 = d.const(8, 64)
        if re.match(r'C[12]E(RK|O)S4_$', op):
            p, n = ctx.load(st, av[1], 64), ctx.load(st, S(av[1] + c8), 64)
            q = st.fresh('chars', 64)
            st.assume(self.cid(ctx, q) == self.cid(ctx, p))
            ctx.store(st, av[0], q, 64)
            ctx.store(st, S(av[0] + c8), n, 64)
            for o in (16, 24):
                ctx.store(st, S(av[0] + d.const(o, 64)), st.fresh('buf', 64), 64)
            self.know(st, q)
            if 'EOS4_' in op:
                ctx.store(st, av[1], st.fresh('chars', 64), 64)
                ctx.store(st, S(av[1] + c8), d.const(0, 64), 64)
            return None
        if re.match(r'C[12]ENS4_12__sv_wrapperERKS3_$', op):
            self.readable(ctx, st, av[2], loc)
            q = st.fresh('chars', 64)
            st.assume(self.cid(ctx, q) == self.cid(ctx, av[2]))
            ctx.store(st, av[0], q, 64)
            ctx.store(st, S(av[0] + c8), av[1], 64)
            self.know(st, q)
            return None
        if re.match(r'D[12]Ev$', op):
            self.forget(st, ctx.load(st, av[0], 64))
            ctx.store(st, av[0], st.fresh('gone', 64), 64)
            return None
        if st.ghost['phase'] == 'callback':
            m = re.match(r'10_M_replaceEmmPKcm$', op)
            k = st.known['field']
            if m:
                ctx.oblige(st, 'a string is assigned as a whole', z3.And(av[1] == 0, z3.Or(av[2] == st.known['old length'], z3.UGE(av[2], st.known['old length']))), loc)
                return self.took(ctx, st, 0, av[0], av[3], av[4], loc) or av[0]
            if re.match(r'(6assign|aS)E.*string_view', op) or re.match(r'(6assign|aS)ISt17basic_string_view', op):
                return self.took(ctx, st, 0, av[0], ctx.load(st, S(av[1] + c8), 64), ctx.load(st, av[1], 64), loc) or av[0]
            if re.match(r'(9_M_assignE|6assignE|aSE)(RK|O)S4_$', op):
                return self.took(ctx, st, 0, av[0], ctx.load(st, av[1], 64), ctx.load(st, S(av[1] + c8), 64), loc) or av[0]
            if re.match(r'6assignEPKcm$', op):
                return self.took(ctx, st, 0, av[0], av[1], av[2], loc) or av[0]
        return NotImplemented

    def slot(self, ctx, st, av, loc):
        """map::operator[](key): the function stored for that key, which stays where it is"""
        d = ctx.dom
        g = st.ghost
        ctx.trusted.add('std::map::operator[] returns the place of the value for a key equal to the given one, which does not move; it does not change the other values')
        ctx.oblige(st, 'options are only registered while the parser is made', z3.BoolVal(g['phase'] == 'instance'), loc)
        par = st.known.get('parser')
        ctx.oblige(st, 'options are registered in the new parser', av[0] == par.base + self.map if par is not None else FALSE, loc)
        c = g['cnt']
        ctx.oblige(st, 'no more options are registered than given', z3.ULT(c, self.n), loc)
        self.well_formed(ctx, st, c)
        p, n = ctx.load(st, av[1], 64), ctx.load(st, S(av[1] + d.const(8, 64)), 64)
        ctx.oblige(st, 'an option is registered under its own name', z3.And(n == self.len(ctx, c), self.cid(ctx, p) == self.cid(ctx, self.ptr(ctx, c))), loc)
        b = st.fresh('slot', 64)
        st.assume(z3.And(z3.ULE(1 << 44, b), z3.ULE(b, 1 << 45), d.aligned(b, 8)))
        part = Part(0, 32)
        reg = Region('slot', b, 32, [part], zone=(1 << 44, 1 << 46))
        st.add_region(reg)
        man = st.fresh('old', 64)
        st.assume(z3.Or(man == 0, ctx.ext_range(man)))
        put(st, [part], 0, st.fresh('old', 64), 64)
        put(st, [part], 8, st.fresh('old', 64), 64)
        put(st, [part], 16, man, 64)
        put(st, [part], 24, st.fresh('old', 64), 64)
        st.known['old function'] = S(man)
        st.known['slot'] = (reg, c)
        st.ghost['cnt'] = S(c + d.const(1, 64))
        return b

    # -- the registered function
    def back(self, ctx, o):
        self.check_function(ctx, o.st)

    def check_function(self, ctx, st):
        d = ctx.dom
        if st.known.get('slot') is None:
            ctx.oblige(st, 'every option of the list is registered', FALSE)
            return
        reg, k = st.known['slot']
        par = st.known['parser']
        inv = S(get(st, reg.parts, 24, 64))
        nm = str(inv.decl().name()) if z3.is_const(inv) else ''
        ctx.oblige(st, 'the function of an option is set', get(st, reg.parts, 16, 64) != 0)
        fn = ctx.mod.funcs.get(nm[1:]) if nm.startswith('@') else None
        if fn is None:
            ctx.oblige(st, 'an option gets a function of the parser', z3.BoolVal(nm.startswith('@') or not nm or not nm.startswith('old')))
            raise Unsupported('function of the option not found: ' + nm)
        ctx.stepped.add(fn.name)
        if st.check() == z3.unsat:
            return
        for kind in range(4):
            s = st.copy()
            s.trail = []
            s.ghost['phase'] = 'callback'
            # what the registration used is gone
            s.dead = s.dead | {r for r in s.regions if not (r.heap or r is reg)} | {self.lreg, par}
            s.rescache = {}
            s.assume(self.kind(ctx, k) == kind)
            if s.check() == z3.unsat:
                continue
            self.begin(ctx, s, reg, k, kind, par, fn)
            for o in ctx.run([s]):
                if o.kind == 'backedge':
                    continue
                try:
                    self.called(ctx, o, k, kind)
                except Dead:
                    pass

    def begin(self, ctx, s, reg, k, kind, par, fn):
        d = ctx.dom
        # the parser: only the field of the option may be touched
        fs = SIZE[kind]
        f = Part(0, fs)
        f.nocache = True
        Region('field', z3.BitVec('field!base', 64), fs, [f])
        s.mem[f] = {}
        old = s.fresh('field', 8)
        if kind == 3:
            s.assume(z3.ULE(old, 1))
            put(s, [f], 0, old, 8)
        if kind == 0:
            s.known['old length'] = s.fresh('length', 64)
            s.assume(z3.ULT(s.known['old length'], 1 << 40))
            put(s, [f], 0, s.fresh('chars', 64), 64)
            put(s, [f], 8, s.known['old length'], 64)
        m = self.member(ctx, k)
        self.fld = S(par.base + self.opts + m)

        def window(ctx, st, p, a, nb, write, loc, quick):
            rel = S(a - self.fld)
            if not is_num(rel):
                if quick:
                    return None
                rel = S(ctx.model.eval(rel, model_completion=True)) if st.check() == z3.sat else rel
                if not is_num(rel) or not st.entails(a == self.fld + rel, quick=True):
                    ctx.oblige(st, 'the function of an option only uses the field of the option', FALSE, loc)
                    raise Dead()
            if num(rel) + nb > fs:
                ctx.oblige(st, 'the function of an option only uses the field of the option', FALSE, loc)
                raise Dead()
            return ('cells', f, num(rel))
        wp = Part(0, self.size, 'window')
        wp.window = window
        wp.nocache = True
        s.regions.append(Region('parser', par.base, self.size, [wp]))
        # the arguments
        n = self.argc = s.fresh('arguments', 64)
        i = self.idx = s.fresh('index', 32)
        ix = S(z3.SignExt(32, i))
        self.ix = ix
        s.assume(z3.And(z3.ULT(n, ARGS), z3.UGE(n, 1), z3.ULT(ix, n)))
        ctx.inputs['number of arguments'] = n
        ctx.inputs['index'] = i
        b = s.fresh('vargv', 64)
        s.assume(z3.And(z3.ULE(1 << 40, b), z3.ULE(b, 1 << 43), d.aligned(b, 16)))
        one = d.const(1, 64)
        self.argf = {}

        def arg(ctx, st, p, a, nb, write, loc, quick):
            if write:
                ctx.oblige(st, 'frame: the arguments are not written', FALSE, loc)
                raise Dead()
            kk, rel = self.locate(ctx, st, S(a - b), [ix, S(ix + one)], 16)
            if kk is None or rel + nb > 16:
                if quick:
                    return None
                ctx.oblige(st, 'the function of an option only uses the argument it is called for and the next', FALSE, loc)
                raise Dead()
            ctx.oblige(st, 'memory access in bounds of the arguments', z3.ULT(kk, n), loc)
            h = self.hidden(st, 'argument', 16, ((0, self.alen(ctx, kk), 64), (8, self.aptr(ctx, kk), 64)))
            self.know(st, S(self.aptr(ctx, kk)))
            return ('cells', h, rel)
        ap = Part(0, S(n * 16), 'window')
        ap.window = arg
        ap.nocache = True
        s.add_region(Region('arguments', b, S(n * 16), [ap], writable=False, zone=(1 << 40, 1 << 44)))
        vb = s.fresh('vector', 64)
        s.assume(z3.And(z3.ULE(1 << 40, vb), z3.ULE(vb, (1 << 44) - 24), d.aligned(vb, 8)))
        vp = Part(0, 24)
        s.add_region(Region('vector', vb, 24, [vp], writable=False, zone=(1 << 40, 1 << 44)))
        put(s, [vp], 0, b, 64)
        put(s, [vp], 8, S(b + n * 16), 64)
        put(s, [vp], 16, S(b + n * 16), 64)
        xb = s.fresh('idx', 64)
        s.assume(z3.And(z3.ULE(1 << 40, xb), z3.ULE(xb, (1 << 44) - 4), d.aligned(xb, 4)))
        xp = Part(0, 4)
        s.add_region(Region('idx', xb, 4, [xp], zone=(1 << 40, 1 << 44)))
        put(s, [xp], 0, i, 32)
        s.known['field'] = f
        s.known['stream'] = None
        s.known['old'] = old
        s.ghost['eff'] = ()
        s.frames = [Frame(fn, ctx.mod)]
        for (t, pn, at), v in zip(fn.params, [reg.base, xb, vb]):
            s.frames[-1].env[pn] = v

    def aptr(self, ctx, k):
        return ctx.uf('arg_ptr', 64)(S(k))

    def alen(self, ctx, k):
        return ctx.uf('arg_len', 64)(S(k))

    def effect(self, ctx, st, name, av, loc):
        d = ctx.dom
        s = st.known.get('stream')
        ctx.trusted.add('a new std::stringstream holds what was inserted, and extracting converts it from the start')
        m = re.match(SS + r'(.*)$', name)
        if m and re.match(r'C[12]Ev$', m.group(1)):
            st.known['stream'] = (S(av[0]), None)
            return None
        if m and re.match(r'C[12]E(RK|O)NS_12basic_stringIcS2_S3_EESt13_Ios_Openmode$', m.group(1)):
            ctx.oblige(st, 'the stream can be read', av[2] & 8 != 0, loc)
            q = ctx.load(st, av[1], 64)
            self.readable(ctx, st, q, loc)
            st.known['stream'] = (S(av[0]), (q, ctx.load(st, S(av[1] + d.const(8, 64)), 64), 'copied'))
            return None
        if m and re.match(r'D[12]Ev$', m.group(1)):
            st.known['stream'] = None
            return None
        if name.startswith('_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostream'):
            ok = s is not None and s[1] is None
            ctx.oblige(st, 'one argument is put into a new stream', z3.And(z3.BoolVal(ok), av[0] == s[0] + 16 if ok else FALSE), loc)
            if not ok:
                raise Dead()
            st.known['stream'] = (s[0], (av[1], av[2]))
            return av[0]
        t = None
        if name == '_ZNSirsERi':
            t = 1
        elif name.startswith(('_ZNSi10_M_extractIdEERSiRT_', '_ZNSirsERd')):
            t = 2
        elif re.match(r'_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istream.*basic_string', name):
            # stops at white space
            t = 4
        if t is not None:
            ok = s is not None and s[1] is not None
            ctx.oblige(st, 'the value is read from the stream it was put into', z3.And(z3.BoolVal(ok), av[0] == s[0] if ok else FALSE), loc)
            if not ok:
                raise Dead()
            self.took(ctx, st, t, av[1], s[1][0], s[1][1], loc, len(s[1]) > 2)
            st.known['stream'] = None
            return av[0]
        return NotImplemented

    def took(self, ctx, st, t, to, p, n, loc, copied=False):
        """the value of an option becomes that of the n characters at p"""
        if not copied:
            self.readable(ctx, st, p, loc)
        nx = S(self.ix + 1)
        ctx.oblige(st, 'the value is that of the argument that follows', z3.And(n == self.alen(ctx, nx), self.cid(ctx, p) == self.cid(ctx, self.aptr(ctx, nx))), loc)
        ctx.oblige(st, 'the value is stored in the field of the option', to == self.fld, loc)
        st.ghost['eff'] = st.ghost['eff'] + (t,)
        return None

    def called(self, ctx, o, k, kind):
        st = o.st
        d = ctx.dom
        if o.kind != 'ret':
            ctx.oblige(st, 'the function of an option does not throw', FALSE)
            return
        ix = self.ix
        el, al = self.len(ctx, k), self.alen(ctx, ix)
        hit = z3.And(el == al, z3.Or(el == 0, self.same(ctx, st, self.aptr(ctx, ix), self.ptr(ctx, k), el)))
        more = z3.ULT(ix + 1, self.argc)
        eff = st.ghost['eff']
        f = st.known['field']
        if kind == 3:
            ctx.oblige(st, 'a switch only becomes true', z3.BoolVal(not eff))
            now = st.read_cells(f, 0, 1)
            ctx.prove(st, 'a switch becomes true when it occurs, and only then', now == z3.If(hit, d.const(1, 8), st.known['old']))
        else:
            nm = 'a %s option takes its value when it occurs with one, and only then' % KIND[kind]
            if not eff:
                ctx.prove(st, nm, z3.Not(z3.And(hit, more)))
            else:
                ctx.prove(st, nm, z3.And(hit, more))
                ctx.oblige(st, 'the value is converted once, to the type of the field', z3.BoolVal(eff == (kind,)))
        if not ctx.mute:
            if st.feasible(hit):
                self.hit.add('option set' if eff or kind == 3 else 'value missing')
            if st.feasible(z3.Not(hit)):
                self.hit.add('option absent')

    def narrow(self, st):
        return True

    def candidates(self, ctx, st, lvs, init):
        c = []
        for lv in lvs:
            if lv.w == 64:
                c.append(Cand('%s==list+48*cnt' % lv.name, lambda v, k=lv.key: v[k] == self.list + v.st.ghost['cnt'] * 48))
                c.append(Cand('%s==cnt' % lv.name, lambda v, k=lv.key: v[k] == v.st.ghost['cnt']))
                c.append(Cand('%s==n-cnt' % lv.name, lambda v, k=lv.key: v[k] == self.n - v.st.ghost['cnt']))
        c.append(Cand('cnt<=n', lambda v: z3.ULE(v.st.ghost['cnt'], self.n)))
        c.append(Cand('cnt<n', lambda v: z3.ULT(v.st.ghost['cnt'], self.n)))
        return c

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'making a parser does not throw', FALSE)
            return
        ctx.prove(st, 'every option of the list is registered', st.ghost['cnt'] == self.n)
        ctx.oblige(st, 'the fields have their defaults', z3.BoolVal(st.ghost['defaults'] == 1))
        par = st.known.get('parser')
        if par is not None:
            ctx.oblige(st, 'the parser that was made is returned', get(st, [self.rp], 0, 64) == par.base)
            ctx.oblige(st, 'the parser lives', z3.BoolVal(par not in st.dead))
        if st.known.get('slot') is not None:
            self.check_function(ctx, st)
        return ['returns'] + (['empty list'] if st.feasible(self.n == 0) else [])


class Parse(Argv):
    """parse: the stored functions, met in the order of the map, are external here; their contract is proved above"""
    covers = ('returns', 'no argument', 'no option', 'function called')

    def setup(self, ctx, st):
        d = ctx.dom
        self.common(ctx, st)
        self.slen = z3.Function('strlen', z3.BitVecSort(64), z3.BitVecSort(64))
        self.node = z3.Function('node', z3.BitVecSort(64), z3.BitVecSort(64))
        self.rank = z3.Function('rank', z3.BitVecSort(64), z3.BitVecSort(64))
        rb = obj_base(ctx, st, 'r', self.osize, 8)
        st.add_region(Region('result', rb, self.osize, [Part(0, self.osize)]))
        self.r = rb
        self.o = obj_base(ctx, st, 'parser', self.size, 8)
        # the options are changed by the functions only; the map is not changed at all
        p = Part(self.map, self.size - self.map)
        st.add_region(Region('parser', self.o, self.size, [p], writable=False))
        self.m = d.var('options', 64)
        st.assume(z3.ULT(self.m, LIST))
        ctx.inputs['number of options'] = self.m
        first = self.at(ctx, st, d.const(0, 64))
        put(st, [p], self.header + 16, first, 64)
        put(st, [p], self.header + 32, self.m, 64)
        self.argc = d.var('argc', 32)
        st.assume(self.argc >= 0)
        ctx.inputs['argc'] = self.argc
        self.n = S(z3.SignExt(32, self.argc))
        self.argv = d.var('argv', 64)
        st.assume(z3.And(z3.ULE(1 << 40, self.argv), z3.ULE(self.argv, 1 << 43), d.aligned(self.argv, 8)))
        ctx.basezone[self.argv.get_id()] = (1 << 40, 1 << 44)
        ap = Part(0, S(self.n * 8), 'array', 8)
        st.add_region(Region('argv', self.argv, S(self.n * 8), [ap], writable=False))
        self.ap = ap
        # an arbitrary position
        self.K = d.var('K', 64)
        st.assume(z3.Or(self.n == 0, z3.ULT(self.K, self.n)))
        st.ghost['done'] = d.const(0, 64)
        st.ghost['ek'] = d.const(0, 64)
        st.ghost['filled'] = d.const(0, 64)
        st.ghost['out'] = z3.BoolVal(False)
        st.ghost['copies'] = ()
        st.ghost['moved'] = ()
        return [(st, [rb, self.o, self.argc, self.argv])]

    def at(self, ctx, st, k):
        """place number k of the map: the header behind the last"""
        x = S(self.node(k))
        er = ctx.ext_range
        st.assume(z3.And(self.rank(x) == k, z3.Implies(k == self.m, x == self.o + self.header),
                         z3.Implies(z3.ULT(k, self.m), z3.And(er(x), er(x + (1 << 20)), ctx.dom.aligned(x, 8)))))
        return x

    def want(self, ctx, st):
        """argv[K] and its length"""
        p = st.read_array(self.ap, S(self.argv + self.K * 8))
        return p, self.slen(p)

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        d = ctx.dom
        g = st.ghost
        if fv is not None:
            return self.function(ctx, st, fv, av, loc)
        if name == 'strlen':
            n = S(self.slen(S(av[0])))
            st.assume(z3.ULT(n, 1 << 40))
            g['filled'] = S(g['filled'] + 1)
            return n
        if name == '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base' or name == '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base':
            ctx.trusted.add('the iterators of std::map meet every element once and then the end')
            k = S(self.rank(S(av[0])))
            ctx.oblige(st, 'the end of the map is not passed', z3.ULT(k, self.m), loc)
            return self.at(ctx, st, S(k + 1))
        m = re.match(r'_ZN4optsC[12]E(RK|O)S_$', name)
        if m:
            dst, src = S(av[0]), S(av[1])
            own = [c for c in g['copies'] if c.eq(src) or st.entails(c == src, quick=True)]
            if own:
                # out of a copy taken before
                if m.group(1) == 'O':
                    g['copies'] = tuple(c for c in g['copies'] if c is not own[0])
                    g['moved'] = g['moved'] + (src,)
            else:
                ctx.oblige(st, 'the options of the parser are returned', src == self.o + self.opts, loc)
                ctx.oblige(st, 'the parser keeps its options: they are copied, not moved', z3.BoolVal(m.group(1) != 'O'), loc)
                ctx.oblige(st, 'every option has seen every argument before the options are returned', z3.Or(self.m == 0, g['done'] == self.n), loc)
            g['copies'] = g['copies'] + (dst,)
            if dst.eq(self.r) or st.entails(dst == self.r, quick=True):
                ctx.oblige(st, 'the options are copied once', z3.Not(g['out']), loc)
                g['out'] = z3.BoolVal(True)
            return None
        if re.match(r'_ZN4optsD[12]Ev$', name):
            own = [c for c in g['copies'] + g['moved'] if c.eq(S(av[0])) or st.entails(c == av[0], quick=True)]
            ctx.oblige(st, 'only copies of the options are destroyed', z3.BoolVal(bool(own) and not own[0].eq(self.r)), loc)
            g['copies'] = tuple(c for c in g['copies'] if not own or c is not own[0])
            g['moved'] = tuple(c for c in g['moved'] if not own or c is not own[0])
            return None
        return NotImplemented

    def function(self, ctx, st, fv, av, loc):
        d = ctx.dom
        g = st.ghost
        x = S(av[0] - d.const(64, 64))
        ctx.trusted.add('the functions registered by instance() behave as proved for them and do not change the map, the arguments or the vector')
        man, inv = ctx.load(st, S(av[0] + d.const(16, 64)), 64), ctx.load(st, S(av[0] + d.const(24, 64)), 64)
        if not fv.eq(inv) and not st.entails(fv == inv, quick=True):
            return NotImplemented
        k = S(self.rank(x))
        nx = self.at(ctx, st, g['ek'])
        ctx.oblige(st, 'every option is asked, one after the other', z3.And(x == nx, z3.ULT(g['ek'], self.m)), loc)
        ctx.oblige(st, 'the arguments are gone through one after the other', z3.SignExt(32, ctx.load(st, av[1], 32)) == g['done'], loc)
        ctx.oblige(st, 'no argument behind the last', z3.ULT(g['done'], self.n), loc)
        b, e = ctx.load(st, av[2], 64), ctx.load(st, S(av[2] + d.const(8, 64)), 64)
        ctx.oblige(st, 'an option sees all arguments', e - b == self.n * 16, loc)
        p, n = self.want(ctx, st)
        ctx.oblige(st, 'an option sees the arguments as given', z3.And(
            ctx.load(st, S(b + self.K * 16), 64) == n, ctx.load(st, S(b + self.K * 16 + 8), 64) == p), loc)
        last = S(g['ek'] + 1 == self.m)
        g['done'] = S(z3.If(last, g['done'] + 1, g['done']))
        g['ek'] = S(z3.If(last, d.const(0, 64), g['ek'] + 1))
        if not ctx.mute:
            self.hit.add('function called')
        return None

    def narrow(self, st):
        return True

    def vec(self, st):
        for r in st.regions:
            if r.heap and r not in st.dead and r.parts[0].kind == 'array':
                return r
        return None

    def candidates(self, ctx, st, lvs, init):
        d = ctx.dom
        c = []
        g0 = dict(st.ghost)
        reg = self.vec(st)
        cd = lambda v: v.st.ghost['done']
        ek = lambda v: v.st.ghost['ek']
        fl = lambda v: v.st.ghost['filled']
        er = lambda x: z3.And(ctx.ext_range(x), ctx.ext_range(x + (1 << 20)), d.aligned(x, 8))
        start = st.ghost['done']
        for lv in lvs:
            if lv.w == 64:
                k = lv.key
                c.append(Cand('%s==argv+8*filled' % lv.name, lambda v, k=k: v[k] == self.argv + fl(v) * 8))
                if reg is not None:
                    c.append(Cand('%s==vector+16*filled' % lv.name, lambda v, k=k: v[k] == reg.base + fl(v) * 16))
                c.append(Cand('%s at ek' % lv.name, lambda v, k=k: z3.Or(
                    z3.And(v[k] == self.node(ek(v)), self.rank(v[k]) == ek(v), er(v[k]), z3.ULT(ek(v), self.m), cd(v) == start),
                    z3.And(v[k] == self.o + self.header, ek(v) == 0, cd(v) == start + 1))))
                c.append(Cand('%s at ek<m' % lv.name, lambda v, k=k: z3.And(v[k] == self.node(ek(v)), self.rank(v[k]) == ek(v), er(v[k]), z3.ULT(ek(v), self.m))))
                c.append(Cand('%s==done' % lv.name, lambda v, k=k: z3.Or(self.m == 0, v[k] == cd(v))))
                c.append(Cand('%s<n' % lv.name, lambda v, k=k: z3.ULT(v[k], self.n)))
            if lv.w == 32:
                k = lv.key
                c.append(Cand('%s==done' % lv.name, lambda v, k=k: z3.Or(self.m == 0, z3.SignExt(32, v[k]) == cd(v))))
                c.append(Cand('%s<argc' % lv.name, lambda v, k=k: z3.And(v[k] >= 0, v[k] < self.argc)))
                c.append(Cand('%s<=argc' % lv.name, lambda v, k=k: z3.And(v[k] >= 0, v[k] <= self.argc)))
        c.append(Cand('filled<n', lambda v: z3.ULT(fl(v), self.n)))
        if reg is not None:
            part = reg.parts[0]

            def filled(v):
                p, n = self.want(ctx, v.st)
                a = S(reg.base + self.K * 16)
                return z3.Implies(z3.ULT(self.K, fl(v)), z3.And(v.st.read_array(part, a) == n, v.st.read_array(part, S(a + 8)) == p))
            c.append(Cand('vector filled', filled))
        c.append(Cand('ek==0', lambda v: ek(v) == 0))
        c.append(Cand('done as before', lambda v: cd(v) == start))
        c.append(Cand('done<n', lambda v: z3.ULT(cd(v), self.n)))
        c.append(Cand('done<=n', lambda v: z3.ULE(cd(v), self.n)))
        return c

    def measures(self, ctx, st, lvs):
        g = lambda v: v.st.ghost
        return [('arguments and options gone through', lambda v: z3.BV2Int(g(v)['done']) * (1 << 32) + z3.BV2Int(g(v)['ek']))]

    def post(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'parse does not throw', FALSE)
            return
        ctx.prove(st, 'the options are returned', st.ghost['out'])
        ctx.oblige(st, 'the copies of the options made on the way are destroyed', z3.BoolVal(len(st.ghost['copies']) + len(st.ghost['moved']) == 1))
        t = ['returns']
        if st.feasible(self.n == 0):
            t.append('no argument')
        if st.feasible(z3.And(self.m == 0, self.n != 0)):
            t.append('no option')
        self.hit.update(t)
        return t


def units():
    return [Unit('argv_parser::instance and the functions it registers', ['C21'], 'argv.cpp', 'a_instance', Instance(), (), budget=300, noinline=NOINLINE),
            Unit('argv_parser::parse', ['C21'], 'argv.cpp', 'a_parse', Parse(), (), budget=300, noinline=NOINLINE)]
