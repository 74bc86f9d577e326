"""irvc: deductive verifier for LLVM IR generated from the real sources.

Symbolic execution of one function under its contract; loops are cut by invariants that are found by Houdini over
candidate templates and proved inductive; calls to functions under contract use the contract; every memory access,
every UBSan/_GLIBCXX_ASSERTIONS trap and every postcondition is an obligation discharged by the SMT solver for all
inputs."""
import hashlib
import itertools
import os
import re
import subprocess
import time
import z3
from . import ll
from .dom import BvDom, IntDom, S, TRUE, FALSE, is_num, num

QUERY_MS = int(os.environ.get('IRVC_QUERY_MS', '20000'))
QUICK_MS = 3000
SECOND = bool(os.environ.get("IRVC_SECOND"))


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


class Dead(Exception):
    pass


class Forall:
    """for all k of kind `kind`: fn(k)   (arity 2: for all pairs fn(k1,k2))"""

    def __init__(self, kind, fn, extra=None, name='', arity=1):
        self.kind, self.fn, self.extra, self.name, self.arity = kind, fn, extra, name, arity


class Region:
    zone = None     # (lo, hi): the region lies in this range of addresses

    def __init__(self, name, base, size, parts, writable=True, heap=False, zone=None):
        self.zone = zone
        self.name, self.base, self.size, self.writable, self.heap = name, base, size, writable, heap
        self.parts = parts
        for p in parts:
            p.region = self

    def __repr__(self):
        return '<%s>' % self.name


class Part:
    _n = itertools.count()

    def __init__(self, off, size, kind='cells', ew=8, label=None):
        self.off, self.size, self.kind, self.ew, self.label = off, size, kind, ew, label
        self.id = next(Part._n)
        self.region = None

    def lo(self, dom):
        return S(self.region.base + (self.off if not isinstance(self.off, int) else dom.const(self.off, 64)))

    def hi(self, dom):
        return S(self.lo(dom) + (self.size if not isinstance(self.size, int) else dom.const(self.size, 64)))

    def __repr__(self):
        return '<%s.%s>' % (self.region.name if self.region else '?', self.label or self.off)


class Frame:
    __slots__ = ('fn', 'blk', 'ix', 'prev', 'env', 'call', 'inv', 'unroll', 'mod')

    def __init__(self, fn, mod):
        self.fn, self.mod = fn, mod
        self.blk, self.ix, self.prev = fn.entry, 0, None
        self.env, self.call, self.inv, self.unroll = {}, None, {}, {}

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.ix, f.prev, f.call, f.mod = self.fn, self.blk, self.ix, self.prev, self.call, self.mod
        f.env, f.inv, f.unroll = dict(self.env), dict(self.inv), dict(self.unroll)
        return f


class State:
    def __init__(self, ctx):
        self.ctx = ctx
        self.dom = ctx.dom
        self.facts = []
        self.fset = set()
        self.solver = None
        self.nsync = 0
        self.mem = {}
        self.dead = frozenset()
        self.regions = []
        self.frames = []
        self.ghost = {}
        self.schemas = []
        self.terms = {}
        self.tids = {}
        self.src = {}
        self.exc = None
        self.trail = []
        self.rescache = {}
        self.known = {}
        self.ghost_sync = None

    def copy(self):
        s = State.__new__(State)
        s.ctx, s.dom = self.ctx, self.dom
        s.facts = list(self.facts)
        s.fset = set(self.fset)
        s.solver, s.nsync = None, 0
        s.mem = {p: (dict(c) if isinstance(c, dict) else c) for p, c in self.mem.items()}
        s.dead, s.regions = self.dead, list(self.regions)
        s.frames = [f.copy() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.schemas = list(self.schemas)
        s.terms = {k: list(v) for k, v in self.terms.items()}
        s.tids = {k: set(v) for k, v in self.tids.items()}
        s.src = dict(self.src)
        s.exc, s.trail = self.exc, list(self.trail)
        s.rescache = dict(self.rescache)
        s.known = dict(self.known)
        s.ghost_sync = self.ghost_sync
        return s

    # -- logic
    def assume(self, f):
        if f is None:
            return
        if isinstance(f, Forall):
            self.add_schema(f)
            return
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f) or f.get_id() in self.fset:
            return
        self.fset.add(f.get_id())
        self.facts.append(f)

    def sync(self):
        if self.solver is None:
            self.solver = z3.SimpleSolver() if self.ctx.simple_solver else z3.Solver()
            self.nsync = 0
        while self.nsync < len(self.facts):
            self.solver.add(self.facts[self.nsync])
            self.nsync += 1
        return self.solver

    def check(self, *extra, ms=None):
        s = self.sync()
        s.set('timeout', ms or QUERY_MS)
        t0 = time.time()
        s.push()
        for e in extra:
            s.add(e)
        r = s.check()
        self.ctx.model = s.model() if r == z3.sat else None
        s.pop()
        self.ctx.nquery += 1
        self.ctx.solver_s += time.time() - t0
        return r

    def entails(self, f, quick=False):
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return self.check(ms=QUICK_MS if quick else None) == z3.unsat
        fid = f.get_id()
        if fid in self.known:
            return True
        f2 = S(f)
        if z3.is_true(f2):
            return True
        r = self.check(z3.Not(f), ms=QUICK_MS if quick else None)
        if r == z3.unknown and not quick:
            r = self.ctx.hard_check(self, z3.Not(f))
        if r == z3.unsat:
            self.known[fid] = f
            return True
        self.ctx.last = r
        return False

    def feasible(self, f=None):
        if f is not None:
            f = S(f)
            if z3.is_false(f):
                return False
        r = self.check(*([f] if f is not None else []), ms=QUICK_MS)
        return r != z3.unsat

    def fresh(self, name, w):
        v = self.dom.var('%s!%d' % (name, next(self.ctx.cnt)), w)
        self.assume(self.dom.range(v, w))
        return v

    def add_schema(self, f):
        self.schemas.append(f)
        ts = list(self.terms.get(f.kind, ()))
        if f.arity == 2:
            for i, t in enumerate(ts):
                for u in ts[:i]:
                    self.assume(f.fn(t, u))
            return
        for t in ts:
            self.assume(f.fn(t))
            if f.extra:
                for k, x in f.extra(t):
                    self.add_term(k, x, 1)

    def add_term(self, kind, t, depth=2):
        t = S(t)
        ids = self.tids.setdefault(kind, set())
        if t.get_id() in ids:
            return
        ids.add(t.get_id())
        old = list(self.terms.get(kind, ()))
        self.terms.setdefault(kind, []).append(t)
        for f in list(self.schemas):
            if f.kind == kind:
                if f.arity == 2:
                    for u in old:
                        self.assume(f.fn(t, u))
                    continue
                self.assume(f.fn(t))
                if f.extra and depth > 0:
                    for k, x in f.extra(t):
                        self.add_term(k, x, depth - 1)

    # -- memory
    def region_of_part(self, p):
        return p.region

    def add_region(self, r):
        d = self.dom
        if r.zone is None and r.base is not None:
            r.zone = self.ctx.basezone.get(r.base.get_id())
        for q in self.regions:
            if q.zone and r.zone and (q.zone[1] <= r.zone[0] or r.zone[1] <= q.zone[0]):
                continue
            if q not in self.dead and getattr(q, 'base', None) is not None:
                self.assume(z3.Or(d.ule(self.end(q), r.base), d.ule(self.end(r), q.base)))
        self.regions.append(r)
        for p in r.parts:
            if p not in self.mem:
                self.mem[p] = {} if p.kind == 'cells' else ('base', self.ctx.fresh_array(p))

    def end(self, r):
        sz = r.size if not isinstance(r.size, int) else self.dom.const(r.size, 64)
        return r.base + sz

    def read_cells(self, p, off, nb):
        c = self.mem[p]
        ent = [c.get(off + i) for i in range(nb)]
        big = self.ctx.big
        d = self.dom
        if all(e is None for e in ent):
            v = self.fresh('init_%s_%s' % (p.region.name, off), nb * 8)
            for i in range(nb):
                c[off + i] = (v, nb * 8, i)
            return v
        e0 = ent[0]
        if e0 is not None and e0[2] == 0 and (e0[1] + 7) // 8 == nb and all(
                e is not None and e[0] is e0[0] and e[2] == i for i, e in enumerate(ent)):
            t, w, _ = e0
            if w != nb * 8:
                t = d.zext(t, w, nb * 8)
            return t
        bs = []
        for i in range(nb):
            e = ent[i]
            if e is None:
                v = self.fresh('init_%s_%s' % (p.region.name, off + i), 8)
                e = (v, 8, 0)
                c[off + i] = e
            t, w, ix = e
            n = (w + 7) // 8
            bs.append(d.byte(t, w, n - 1 - ix if big else ix))
        if big:
            bs.reverse()
        r = d.from_bytes(bs)
        if d.name != 'int':
            return r
        r = S(r)
        # remember how the word was put together, so that writing it back writes the bytes themselves
        self.ctx.joined[r.get_id()] = (r, bs)
        return r

    def write_cells(self, p, off, nb, v, w):
        c = self.mem[p]
        j = self.ctx.joined.get(S(v).get_id()) if w == nb * 8 and self.ctx.joined else None
        if j is not None and len(j[1]) == nb:
            for i in range(nb):
                c[off + i] = (j[1][nb - 1 - i if self.ctx.big else i], 8, 0)
            self.ctx.note_write(p, off, nb)
            return
        for i in range(nb):
            c[off + i] = (v, w, i)
        self.ctx.note_write(p, off, nb)

    def read_array(self, p, a):
        """element of width p.ew at absolute address a"""
        return self._ra(self.mem[p], S(a), p)

    def _eq(self, a, b):
        """True/False/None syntactic equality of addresses"""
        d = S(a - b)
        if is_num(d):
            return num(d) == 0
        return None

    def _ra(self, node, a, p):
        d = self.dom
        k = node[0]
        if k == 'base':
            r = node[1](a)
            rg = d.range(r, p.ew * 8)
            if rg is not None:
                rid = ('rng', r.get_id())
                if rid not in self.known:
                    self.known[rid] = r
                    self.assume(rg)
            return r
        if k == 'w':
            e = self._eq(node[2], a)
            if e is True:
                return node[3]
            rest = self._ra(node[1], a, p)
            if e is False:
                return rest
            return z3.If(a == node[2], node[3], rest)
        if k == 'set':   # bytes [lo,lo+n) set to byte value v
            _, prev, lo, n, v = node
            rest = self._ra(prev, a, p)
            inside = z3.And(d.ule(lo, a), d.ule(a + d.const(p.ew, 64), lo + n))
            if p.ew == 1:
                return z3.If(inside, v, rest)
            out = z3.Or(d.ule(a + d.const(p.ew, 64), lo), d.ule(lo + n, a), n == d.const(0, 64))
            word = d.from_bytes([v] * p.ew)
            fr = self.ctx.uf('tear%d' % id(node), p.ew * 8)(a)
            return z3.If(inside, word, z3.If(out, rest, fr))
        if k == 'copy':  # [lo,lo+n) := src part snapshot from slo
            _, prev, lo, n, snode, slo, sp = node
            rest = self._ra(prev, a, p)
            inside = z3.And(d.ule(lo, a), d.ult(a, lo + n))
            return z3.If(inside, self._ra(snode, S(a - lo + slo), sp), rest)
        if k == 'ite':
            return z3.If(node[1], self._ra(node[2], a, p), self._ra(node[3], a, p))
        raise Unsupported('node ' + k)

    def write_array(self, p, a, v):
        self.mem[p] = ('w', self.mem[p], S(a), v)
        self.ctx.note_write(p, None, None)


class View:
    def __init__(self, vals, st):
        self.vals, self.st = vals, st

    def __getitem__(self, k):
        return self.vals[k]


class Cand:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class LoopVar:
    def __init__(self, key, w, init, name):
        self.key, self.w, self.init, self.name = key, w, init, name
        self.stride = None
        self.gcd = None
        self.ptr = False


class Outcome:
    def __init__(self, kind, st, val=None, info=None):
        self.kind, self.st, self.val, self.info = kind, st, val, info


class Ctx:
    """one verification unit"""

    def __init__(self, mod, dom, unit):
        self.mod, self.dom, self.unit = mod, dom, unit
        self.big = mod.big_endian
        self.cnt = itertools.count()
        self.joined = {}
        self.oblig = {}          # name -> [discharged, failed, unknown, first failure info]
        self.nquery = 0
        self.solver_s = 0.0
        self.mute = 0
        self.model = None
        self.last = None
        self.simple_solver = False
        self.opaque = None       # functions used by contract: their calls are events
        self.contracts = []      # (predicate(name), handler(ctx, st, ins, name, args))
        self.spec = None
        self.ufs = {}
        self.writes = None
        self.maxpaths = 20000
        self.unroll_limit = 400
        self.allow_ext = True
        self.ext_range = None    # fn(addr)-> formula: address of memory outside every region
        self.inputs = {}
        self.globzone = {}
        self.basezone = {}       # id of a base -> the range of addresses the region lies in
        self.kind_shape = {}     # kind -> shape of the elements quantified over (others are outside every guard)
        self.steps = 0
        self.deadline = None
        self.npaths = 0
        self.loops_found = []
        self.events_seen = 0
        self.stepped = set()
        self.trusted = set()
        self.new_may_throw = False
        self.dump = None
        self.second = {'cvc5': 0, 'cvc5_unknown': 0, 'cvc5_disagrees': 0}
        self.opinions = {}
        self.ptr_w = mod.ptr_bytes * 8

    # -- helpers
    def uf(self, name, w, arity=1):
        k = (name, w, arity)
        if k not in self.ufs:
            a = self.dom.sort(64)
            self.ufs[k] = z3.Function(name, *([a] * arity), self.dom.sort(w))
        return self.ufs[k]

    def fresh_array(self, p):
        f = self.uf('mem_%s_%d' % (p.label or p.region.name, next(self.cnt)), p.ew * 8)
        return lambda a: f(a)

    def note_write(self, p, off, nb):
        if self.writes is not None:
            self.writes.add((p, off, nb))

    def hard_check(self, st, f):
        """retry an undecided query from scratch with other strategies"""
        for mk in ((lambda: z3.Solver()),
                   (lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver()),
                   (lambda: z3.SolverFor('QF_UFLIA') if self.dom.name == 'int' else z3.SolverFor('QF_UFBV'))):
            try:
                s = mk()
                s.set('timeout', QUERY_MS)
                s.add(*st.facts)
                s.add(f)
                r = s.check()
                self.nquery += 1
                if r == z3.sat:
                    self.model = s.model()
                if r != z3.unknown:
                    return r
            except z3.Z3Exception:
                pass
        return z3.unknown

    def where(self, ins, mod=None):
        w = (mod or self.mod).where(ins.dbg) if ins is not None and ins.dbg is not None else []
        for f, l, fn in w:
            if f and 'xitren' in f:
                return '%s:%d' % (f.split('xitren/', 1)[1], l), fn
        if w:
            return '%s:%d' % (os.path.basename(w[0][0] or '?'), w[0][1]), w[0][2]
        return None, None

    def oblige(self, st, name, f, loc=None, detail=None):
        """prove f on this path; record; continue under f"""
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if self.mute:
            if z3.is_false(S(f)):
                raise Dead()
            st.assume(f)
            return True
        key = name + ('@' + loc if loc else '')
        rec = self.oblig.setdefault(key, [0, 0, 0, None])
        if st.entails(f):
            if SECOND and self.second_opinion(st, f) == 'sat':
                rec[2] += 1
                if rec[3] is None:
                    rec[3] = {'status': 'unknown', 'model': None, 'trail': st.trail[-12:], 'detail': 'z3 says valid, cvc5 says not', 'goal': str(f)[:1500]}
                st.assume(f)
                return False
            rec[0] += 1
            if self.dump is not None:
                self.dump(self, key, st, f)
            st.assume(f)
            return True
        if self.last == z3.sat:
            rec[1] += 1
            st_ = 'failed'
        else:
            rec[2] += 1
            st_ = 'unknown'
        if rec[3] is None:
            rec[3] = {'status': st_, 'model': self.model_info(), 'trail': st.trail[-12:], 'detail': detail,
                      'goal': str(f)[:1500]}
        if os.environ.get('IRVC_VERBOSE'):
            print('   OBLIGATION', st_, self.unit, key, rec[3]['model'] if st_ == 'failed' else '')
        if z3.is_false(S(f)) or not st.feasible(f):
            raise Dead()
        st.assume(f)
        return False

    def second_opinion(self, st, f):
        """the same query for cvc5 (thorough tier)"""
        if z3.is_true(S(f)):
            return 'unsat'
        s = st.sync()
        s.push()
        s.add(z3.Not(f))
        text = re.sub(r'(?<![\w.])@', 'g_', re.sub(r'(bv[us](?:rem|div|mod))_i\b', r'\1', s.to_smt2().replace('|@', '|g_')))
        s.pop()
        h = hashlib.sha256(text.encode()).digest()
        if h not in self.opinions:
            try:
                p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=20000'], input='(set-logic ALL)\n' + text, capture_output=True, text=True, timeout=60)
                r = p.stdout.strip().split('\n')[0]
            except (OSError, subprocess.TimeoutExpired):
                r = 'unknown'
            self.opinions[h] = r if r in ('sat', 'unsat') else 'unknown'
            self.second['cvc5' if r == 'unsat' else 'cvc5_disagrees' if r == 'sat' else 'cvc5_unknown'] += 1
        return self.opinions[h]

    def prove(self, st, name, goal, loc=None):
        """goal: formula, Forall, or list of them"""
        if isinstance(goal, (list, tuple)):
            ok = True
            for g in goal:
                ok = self.prove(st, name, g, loc) and ok
            return ok
        if isinstance(goal, Forall):
            s2, ks = self.skolem(st, goal)
            try:
                return self.oblige(s2, name, goal.fn(*ks), loc)
            except Dead:
                return False
        try:
            return self.oblige(st, name, goal, loc)
        except Dead:
            raise

    def skolem(self, st, fa):
        s2 = st.copy()
        ks = []
        for _ in range(fa.arity):
            k = s2.fresh('sk', 64)
            if fa.kind in self.kind_shape:
                k = S(self.kind_shape[fa.kind](k))
            ks.append(k)
            s2.add_term(fa.kind, k, 3)
            if fa.extra and fa.arity == 1:
                for kk, x in fa.extra(k):
                    s2.add_term(kk, x, 3)
        return s2, ks

    def model_info(self):
        if self.model is None:
            return None
        r = {}
        for n, t in self.inputs.items():
            try:
                v = self.model.eval(t, model_completion=True)
                r[n] = v.as_long() if is_num(v) else str(v)
            except Exception:
                r[n] = '?'
        return r

    # -- values
    def cval(self, st, v, t, mod=None):
        """operand -> term"""
        mod = mod or self.mod
        k = v[0]
        if k == 'loc':
            return st.frames[-1].env[v[1]]
        t = mod.resolve(t)
        if k == 'int':
            return self.dom.const(v[1], t[1])
        if k == 'null':
            return self.dom.const(0, 64)
        if k == 'undef':
            if t[0] in ('struct', 'arr'):
                n = len(t[1]) if t[0] == 'struct' else t[1]
                return [self.cval(st, ('undef',), t[1][i] if t[0] == 'struct' else t[2]) for i in range(n)]
            if t[0] == 'vec':
                return [self.cval(st, ('undef',), t[2]) for i in range(t[1])]
            return st.fresh('undef', self.tw(t))
        if k == 'zero':
            if t[0] == 'struct':
                return [self.cval(st, v, x) for x in t[1]]
            if t[0] in ('arr', 'vec'):
                return [self.cval(st, v, t[2]) for x in range(t[1])]
            return self.dom.const(0, self.tw(t))
        if k == 'agg':
            return [self.cval(st, x, tx) for tx, x in v[1]]
        if k == 'str':
            return [self.dom.const(x, 8) for x in v[1]]
        if k == 'glob':
            return self.globaddr(st, v[1])
        if k == 'fp':
            import struct
            s = v[1]
            if s.startswith('0x'):
                bits = int(s, 16)
                if t[0] == 'float':
                    bits = struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', bits))[0]))[0]
            else:
                bits = struct.unpack('<Q' if t[0] == 'double' else '<I',
                                     struct.pack('<d' if t[0] == 'double' else '<f', float(s)))[0]
            return self.dom.const(bits, self.tw(t))
        if k == 'cgep':
            base = self.cval(st, v[2][0][1], v[2][0][0])
            return self.gep(st, v[1], base, v[2][1:], True)
        if k == 'ccast':
            x = self.cval(st, v[3], v[2])
            return self.cast(st, v[1], x, mod.resolve(v[2]), mod.resolve(v[4]))
        if k == 'cbin':
            ty = v[2][0][0]
            a = self.cval(st, v[2][0][1], ty)
            b = self.cval(st, v[2][1][1], ty)
            if v[1].startswith('icmp'):
                return self.icmp(v[1].split()[1], a, b, self.tw(ty))
            return self.binop(st, v[1], a, b, self.tw(mod.resolve(ty)), ())
        raise Unsupported('operand %r' % (v,))

    def tw(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'i':
            return t[1]
        if t[0] == 'ptr':
            return 64
        if t[0] == 'double':
            return 64
        if t[0] == 'float':
            return 32
        raise Unsupported('scalar type ' + str(t))

    def zone(self, lo, n):
        """a range of addresses of its own for an object of the program (its place inside is arbitrary)"""
        k = self.nzone = getattr(self, 'nzone', -1) + 1
        if n > (1 << 19) or k >= 1 << 24:
            raise Unsupported('object too big, or too many')
        return (lo + (k << 20), lo + ((k + 1) << 20))

    def globaddr(self, st, name):
        if name in self.mod.aliases:
            return self.cval(st, self.mod.aliases[name], ('ptr',))
        a = self.dom.var('@' + name, 64)
        if name in self.mod.globals:
            if not any(r.name == '@' + name for r in st.regions):
                t, init, const = self.mod.globals[name]
                try:
                    sz = self.mod.size(t)
                except ll.LLError:
                    sz = 0
                p = Part(0, sz)
                if name not in self.globzone:
                    self.globzone[name] = self.zone(3 << 45, sz)
                zone = self.globzone[name]
                r = Region('@' + name, a, sz, [p], writable=not const, zone=zone)
                st.assume(self.dom.range(a, 64))
                st.assume(z3.And(self.dom.ule(self.dom.const(zone[0], 64), a), self.dom.ule(a, self.dom.const(zone[1] - sz - 64, 64)),
                                 self.dom.aligned(a, self.mod.align(t) if sz else 1)))
                st.add_region(r)
                if init is not None and sz:
                    self.init_const(st, p, 0, t, init)
        else:
            st.assume(self.dom.range(a, 64))
            if ('fnz', name) not in st.known:
                st.known[('fnz', name)] = a
                # code is at even addresses (the C++ ABI relies on it for pointers to members)
                st.assume(z3.And(a != self.dom.const(0, 64), self.dom.aligned(a, 2)))
        return a

    def init_const(self, st, p, off, t, v):
        t = self.mod.resolve(t)
        if v[0] == 'undef':
            return
        if t[0] == 'struct':
            for i, x in enumerate(t[1]):
                sub = ('zero',) if v[0] == 'zero' else v[1][i][1]
                self.init_const(st, p, off + self.mod.field_off(t, i), x, sub)
        elif t[0] == 'arr':
            es = self.mod.size(t[2])
            for i in range(t[1]):
                sub = ('zero',) if v[0] == 'zero' else (('int', v[1][i]) if v[0] == 'str' else v[1][i][1])
                self.init_const(st, p, off + i * es, t[2], sub)
        else:
            w = self.tw(t)
            val = self.cval(st, v, t)
            c = st.mem[p]
            for i in range((w + 7) // 8):
                c[off + i] = (val, w, i)

    def binop(self, st, op, a, b, w, flags):
        d = self.dom
        if w == 1:
            if op == 'and':
                return S(z3.And(a, b))
            if op == 'or':
                return S(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'):
                return S(z3.Xor(a, b))
        nw = 'nuw' in flags
        if op == 'mul' and hasattr(self.spec, 'mul') and is_num(S(a)) != is_num(S(b)):
            r = self.spec.mul(self, st, b, num(S(a)), w) if is_num(S(a)) else self.spec.mul(self, st, a, num(S(b)), w)
            if r is not None:
                return r
        if op in ('add', 'sub', 'mul'):
            return getattr(d, op)(st, a, b, w, nw)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            f = z3.Function(op + str(w), d.sort(w), d.sort(w), d.sort(w))
            return f(a, b)
        if op in ('and', 'or', 'xor'):
            return getattr(d, op + ('_' if op != 'xor' else ''))(st, a, b, w)
        if op == 'urem' and is_num(b) and hasattr(self.spec, 'urem'):
            r = self.spec.urem(self, st, a, b, w)
            if r is not None:
                return r
        return getattr(d, op)(st, a, b, w)

    def icmp(self, pred, a, b, w):
        d = self.dom
        if w == 1:
            if pred == 'eq':
                return S(a == b)
            if pred == 'ne':
                return S(z3.Xor(a, b))
            a = d.zext(a, 1, 8)
            b = d.zext(b, 1, 8)
            w = 8
        r = {'eq': lambda: a == b, 'ne': lambda: a != b,
             'ult': lambda: d.ult(a, b, w), 'ule': lambda: d.ule(a, b, w), 'ugt': lambda: d.ult(b, a, w),
             'uge': lambda: d.ule(b, a, w), 'slt': lambda: d.slt(a, b, w), 'sle': lambda: d.sle(a, b, w),
             'sgt': lambda: d.slt(b, a, w), 'sge': lambda: d.sle(b, a, w)}[pred]()
        return S(r)

    def cast(self, st, op, x, t1, t2):
        d = self.dom
        w1, w2 = self.tw(t1), self.tw(t2)
        if op in ('bitcast', 'addrspacecast') or w1 == w2 and op in ('ptrtoint', 'inttoptr'):
            return x
        if op in ('trunc',) or op in ('ptrtoint', 'inttoptr') and w2 < w1:
            return d.trunc(st, x, w1, w2)
        if op in ('zext',) or op in ('ptrtoint', 'inttoptr'):
            return d.zext(x, w1, w2)
        if op == 'sext':
            return d.sext(x, w1, w2)
        f = z3.Function('%s_%d_%d' % (op, w1, w2), d.sort(w1), d.sort(w2))
        return f(x)

    def gep(self, st, sty, base, idx, inb):
        d = self.dom
        m = self.mod
        a = base
        t = sty
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                sz = m.size(t)
            else:
                t = m.resolve(t)
                if t[0] == 'struct':
                    j = iv[1]
                    off = m.field_off(t, j)
                    t = t[1][j]
                    if off:
                        a = d.add(st, a, d.const(off, 64), 64, True)
                    continue
                t = t[2]
                sz = m.size(t)
            if iv[0] == 'int':
                o = iv[1] * sz
                if o > 0:
                    a = d.add(st, a, d.const(o, 64), 64, inb)
                elif o < 0:
                    a = d.sub(st, a, d.const(-o, 64), 64, inb)
                continue
            x = self.cval(st, iv, it)
            w = self.tw(it)
            if w < 64:
                x = d.sext(x, w, 64)
            if d.name == 'bv' or not inb:
                a = d.add(st, a, d.mul(st, x, d.const(sz, 64), 64), 64, False)
            else:
                # IntDom, inbounds: index is signed, no wrap
                if st.entails(x < (1 << 63), quick=True):
                    a = S(a + x * sz)
                else:
                    a = S(a + d.tosigned(x, 64) * sz)
        return a

    # -- address resolution
    def syntactic_region(self, st, a):
        adds, c = self.dom.linear(a)
        hit = None
        for t in adds:
            for r in st.regions:
                if r.base.eq(t):
                    if hit is not None:
                        return None, None, None
                    hit = r
        if hit is None:
            return None, None, None
        off = S(a - hit.base)
        return hit, off, adds

    def resolve(self, st, a, nb, write, loc, ins=None):
        """-> ('cells', part, off) | ('array', part) | ('ext',)"""
        d = self.dom
        a = S(a)
        key = (a.get_id(), nb)
        if key in st.rescache:
            r = st.rescache[key]
            if r[0] == 'ext' or r[1].region not in st.dead:
                return r
        r = self._resolve(st, a, nb, write, loc)
        if r[0] != 'ext' and getattr(r[1], 'nocache', False):
            return r
        st.rescache[key] = r
        st.known[('keep', a.get_id())] = a
        return r

    def _inpart(self, st, p, a, nb):
        d = self.dom
        lo, hi = p.lo(d), p.hi(d)
        n = d.const(nb, 64)
        # no wrap: a+nb computed only when a < hi
        return z3.And(d.ule(lo, a), d.ult(a, hi), d.ule(n, hi - a))

    def _const_off(self, st, p, a, nb):
        off = S(a - p.region.base)
        if is_num(off):
            return num(off)
        m = None
        r = st.check()
        if r == z3.sat:
            m = self.model
            v = m.eval(off, model_completion=True)
            if is_num(v):
                cv = num(v)
                if st.entails(off == self.dom.const(cv, 64), quick=True):
                    return cv
        # enumerate
        opts = []
        excl = []
        while len(opts) <= 80:
            r = st.check(*excl)
            if r != z3.sat:
                break
            v = num(self.model.eval(off, model_completion=True))
            opts.append(off == self.dom.const(v, 64))
            excl.append(off != self.dom.const(v, 64))
        if len(opts) > 80:
            raise Unsupported('symbolic offset into %s' % p)
        raise Fork(opts)

    def _resolve(self, st, a, nb, write, loc):
        d = self.dom
        reg, off, adds = self.syntactic_region(st, a)
        if reg is not None and reg not in st.dead:
            if is_num(off):
                o = num(off)
                for p in reg.parts:
                    if isinstance(p.off, int) and isinstance(p.size, int) and p.off <= o and o + nb <= p.off + p.size:
                        if p.kind == 'cells':
                            return ('cells', p, o)
                        if p.kind == 'window':
                            return p.window(self, st, p, a, nb, write, loc, False)
                        return ('array', p)
                    if isinstance(p.off, int) and not isinstance(p.size, int) and p.off <= o:
                        if p.kind == 'window':
                            return p.window(self, st, p, a, nb, write, loc, False)
                        self.oblige(st, 'memory access in bounds of %s' % reg.name, self._inpart(st, p, a, nb), loc)
                        return ('array', p) if p.kind == 'array' else ('cells', p, o)
            else:
                for p in reg.parts:
                    if p.kind == 'window':
                        r = p.window(self, st, p, a, nb, write, loc, True)
                        if r is not None:
                            return r
                for p in reg.parts:
                    if st.entails(self._inpart(st, p, a, nb), quick=True):
                        if p.kind == 'window':
                            return p.window(self, st, p, a, nb, write, loc, False)
                        if p.kind == 'cells':
                            return ('cells', p, self._const_off(st, p, a, nb))
                        return ('array', p)
        for r in st.regions:
            if r not in st.dead:
                for p in r.parts:
                    if p.kind == 'window' and getattr(p, 'eager', False):
                        w = p.window(self, st, p, a, nb, write, loc, True)
                        if w is not None:
                            return w
        # general: solver-driven
        if self.spec and hasattr(self.spec, 'on_access'):
            self.spec.on_access(self, st, a)
        cands = []
        r0 = None
        parts = [p for r in st.regions if r not in st.dead for p in r.parts
                 if not (isinstance(p.size, int) and p.size < nb)]
        excl = []
        extc = None
        if self.allow_ext and self.ext_range is not None:
            if self.is_ext(st, a):
                return ('ext',)
            extc = S(z3.And(self.ext_range(a), self.ext_range(a + d.const(nb - 1, 64))))
            if st.entails(extc, quick=True):
                if st.entails(self.ext_range(a + d.const(1 << 20, 64)), quick=True):
                    self.mark_ext(st, a)
                return ('ext',)
        bad = False
        for _ in range(40):
            r = st.check(*excl)
            if r != z3.sat:
                if r == z3.unknown:
                    bad = True
                break
            m = self.model
            hit = None
            if extc is not None and z3.is_true(m.eval(extc, model_completion=True)):
                hit = ('ext', extc)
            else:
                for p in parts:
                    ip = self._inpart(st, p, a, nb)
                    if z3.is_true(m.eval(ip, model_completion=True)):
                        hit = (p, ip)
                        break
            if hit is None:
                bad = True
                break
            cands.append(hit)
            excl.append(z3.Not(hit[1]))
        if bad:
            # some address is outside everything
            allowed = z3.Or(*[c[1] for c in cands]) if cands else FALSE
            if self.mute:
                parts2 = [(p, self._inpart(st, p, a, nb)) for p in parts]
                feas = [(p, f) for p, f in parts2 if st.feasible(f)]
                if extc is not None and st.feasible(extc):
                    feas.append(('ext', extc))
                cands = feas
                if not cands:
                    raise Dead()
            else:
                parts2 = [(p, self._inpart(st, p, a, nb)) for p in parts]
                if extc is not None:
                    parts2.append(('ext', extc))
                cands = [(p, f) for p, f in parts2 if st.feasible(f)]
                self.oblige(st, 'memory access in bounds', z3.Or(*[f for _, f in cands]) if cands else FALSE, loc)
        if not cands:
            raise Dead()
        if len(cands) > 1:
            raise Fork([f for _, f in cands])
        p, f = cands[0]
        if self.mute:
            st.assume(f)
        if p == 'ext':
            return ('ext',)
        if p.kind == 'window':
            return p.window(self, st, p, a, nb, write, loc, False)
        if p.kind == 'cells':
            return ('cells', p, self._const_off(st, p, a, nb))
        return ('array', p)

    def mark_ext(self, st, v):
        """v points at least 2^20 bytes inside external memory"""
        st.known[('ext', v.get_id())] = v

    def is_ext(self, st, a):
        adds, c = self.dom.linear(a)
        if len(adds) != 1 or c >= (1 << 20) or ('ext', adds[0].get_id()) not in st.known:
            return False
        return S(a - adds[0]).eq(S(self.dom.const(c, 64)))

    def load(self, st, a, w, ins=None, isptr=False):
        d = self.dom
        nb = (w + 7) // 8
        loc = self.where(ins)[0] if ins is not None else None
        r = self.resolve(st, a, nb, False, loc)
        if r[0] == 'cells':
            if getattr(r[1], 'before_read', None) is not None:
                # memory shared with other threads: what they may have done to it until now
                r[1].before_read(self, st, r[1], r[2], nb, loc)
            v = st.read_cells(r[1], r[2], nb)
            if w != nb * 8:
                v = d.trunc(st, v, nb * 8, w)
            return v
        if r[0] == 'ext':
            if nb > 1 and d.name == 'bv' and getattr(self.spec, 'ext_bytes', False):
                # memory of others is read as bytes (little endian)
                f = self.uf('ext8', 8)
                return S(z3.Concat(*[f(S(a + d.const(i, 64))) for i in reversed(range(nb))]))
            f = self.uf('ext%d' % (nb * 8), nb * 8)
            v = f(S(a))
            st.assume(d.range(v, nb * 8))
            if w != nb * 8:
                v = d.trunc(st, v, nb * 8, w)
            if isptr and self.ext_range is not None and not self.is_ext(st, v):
                # external objects (observers, their vtables) only point to external memory
                self.trusted.add('external objects point outside the verified objects')
                st.assume(z3.And(self.ext_range(v), self.ext_range(v + d.const(1 << 20, 64)), d.aligned(v, 8)))
                self.mark_ext(st, v)
            st.src[v.get_id()] = (a, v)
            return v
        p = r[1]
        v = self.load_array(st, p, a, nb, loc)
        if w != nb * 8:
            v = d.trunc(st, v, nb * 8, w)
        return v

    def load_array(self, st, p, a, nb, loc):
        d = self.dom
        if nb == p.ew:
            if p.ew > 1:
                self.oblige(st, 'aligned element access', d.aligned(S(a - p.lo(d)), p.ew), loc)
            kind = p.label
            if kind:
                st.add_term(kind, a)
            v = st.read_array(p, a)
            if not z3.is_const(v) and not is_num(v):
                nv = st.fresh('ld', nb * 8)
                st.assume(nv == v)
                v = nv
            st.src[v.get_id()] = (a, v)
            if self.spec and hasattr(self.spec, 'on_load'):
                self.spec.on_load(self, st, p, a, v)
            return v
        if nb % p.ew == 0:
            bs = []
            for i in range(nb // p.ew):
                x = S(a + d.const(i * p.ew, 64))
                if p.label:
                    st.add_term(p.label, x)
                e = st.read_array(p, x)
                for j in range(p.ew):
                    bs.append(d.byte(e, p.ew * 8, j))
            if self.big:
                bs.reverse()
            return d.from_bytes(bs)
        return st.fresh('tear', nb * 8)

    def store(self, st, a, v, w, ins=None):
        d = self.dom
        nb = (w + 7) // 8
        loc = self.where(ins)[0] if ins is not None else None
        r = self.resolve(st, a, nb, True, loc)
        if w != nb * 8:
            v = d.zext(v, w, nb * 8)
            w = nb * 8
        if r[0] == 'ext':
            if self.spec and hasattr(self.spec, 'on_ext_store'):
                if self.spec.on_ext_store(self, st, a, v, w, loc):
                    return
            self.oblige(st, 'frame: no store outside the objects owned by the contract', FALSE, loc)
            raise Dead()
        p = r[1]
        if not p.region.writable:
            self.oblige(st, 'frame: no store into read-only %s' % p.region.name, FALSE, loc)
            raise Dead()
        if getattr(p, 'guard', None) is not None:
            # memory shared with other threads: the contract says who may write what
            p.guard(self, st, p, r[2], v, w, loc)
        if r[0] == 'cells':
            st.write_cells(p, r[2], nb, v, w)
            return
        if nb == p.ew:
            if p.ew > 1:
                self.oblige(st, 'aligned element access', d.aligned(S(a - p.lo(d)), p.ew), loc)
            if p.label:
                st.add_term(p.label, a)
            st.write_array(p, a, v)
            return
        if p.ew == 1:
            for i in range(nb):
                st.write_array(p, S(a + d.const(i, 64)), d.byte(v, w, nb - 1 - i if self.big else i))
            return
        if nb % p.ew == 0:
            for i in range(nb // p.ew):
                bs = [d.byte(v, w, i * p.ew + j) for j in range(p.ew)]
                if self.big:
                    raise Unsupported('be wide')
                x = S(a + d.const(i * p.ew, 64))
                if p.label:
                    st.add_term(p.label, x)
                st.write_array(p, x, d.from_bytes(bs))
            return
        # sub-element store: element becomes unknown
        e = st.fresh('tear', p.ew * 8)
        lo = S(a - (d.urem(st, S(a - p.lo(d)), d.const(p.ew, 64), 64)))
        st.write_array(p, lo, e)

    in_rmw = False

    def sync(self, st, ins, a, w):
        """an atomic operation: other threads may have run since the last one"""
        if self.spec is None or not hasattr(self.spec, 'on_sync'):
            return
        # an instruction that is executed again because it forked has already been synchronised
        if st.ghost_sync == id(ins):
            return
        self.resolve(st, a, (w + 7) // 8, False, self.where(ins)[0])
        self.spec.on_sync(self, st, ins.op, a, self.where(ins)[0])
        st.ghost_sync = id(ins)

    def load_typed(self, st, a, t, ins):
        t = self.mod.resolve(t)
        d = self.dom
        if t[0] == 'struct':
            return [self.load_typed(st, S(a + d.const(self.mod.field_off(t, i), 64)), x, ins) for i, x in enumerate(t[1])]
        if t[0] in ('arr', 'vec'):
            es = self.mod.size(t[2])
            return [self.load_typed(st, S(a + d.const(i * es, 64)), t[2], ins) for i in range(t[1])]
        if self.ptr_w != 64 and t[0] == 'ptr':
            raise Unsupported('32-bit pointers')
        return self.load(st, a, self.tw(t), ins, isptr=t[0] == 'ptr')

    def store_typed(self, st, a, v, t, ins):
        t = self.mod.resolve(t)
        d = self.dom
        if t[0] == 'struct':
            for i, x in enumerate(t[1]):
                self.store_typed(st, S(a + d.const(self.mod.field_off(t, i), 64)), v[i], x, ins)
        elif t[0] in ('arr', 'vec'):
            es = self.mod.size(t[2])
            for i in range(t[1]):
                self.store_typed(st, S(a + d.const(i * es, 64)), v[i], t[2], ins)
        else:
            self.store(st, a, v, self.tw(t), ins)

    # -- execution
    def run(self, init, stop=None):
        """DFS over paths. stop=(depth, header, body) ends paths at the loop's back edge / exits."""
        outs = []
        work = list(init)
        while work:
            st = work.pop()
            try:
                r = self.step_path(st, stop)
            except Dead:
                continue
            if isinstance(r, Outcome):
                outs.append(r)
                self.npaths += 1
                if self.npaths > self.maxpaths:
                    raise Unsupported('too many paths')
            elif r:
                work += r
        return outs

    def fork(self, st, conds):
        """list of feasible children"""
        live = []
        for c in conds:
            c = S(c)
            if z3.is_false(c):
                continue
            if z3.is_true(c):
                return [st]
            if st.feasible(c):
                live.append(c)
        if not live:
            return []
        kids = []
        for c in live[1:]:
            k = st.copy()
            k.assume(c)
            kids.append(k)
        st.assume(live[0])
        return kids + [st]

    def step_path(self, st, stop):
        while True:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            self.steps += 1
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk].ins[fr.ix]
            try:
                r = self.exec_ins(st, fr, ins, stop)
            except Fork as f:
                kids = self.fork(st, f.conds)
                if len(kids) == 1 and kids[0] is st:
                    continue
                return kids
            if r is None:
                continue
            return r

    def goto(self, st, target, stop):
        fr = st.frames[-1]
        depth = len(st.frames)
        prev = fr.blk
        L = ll.loops(fr.fn)
        # leaving loops: forget invariant / unroll marks
        for h in list(fr.inv):
            if target not in L[h]:
                del fr.inv[h]
        for h in list(fr.unroll):
            if target not in L[h]:
                del fr.unroll[h]
        if stop and stop[0] == depth:
            if target == stop[1] and prev in L[stop[1]]:
                vals = self.phi_vals(st, fr, target, prev)
                return Outcome('back', st, vals)
            if target not in stop[2]:
                return Outcome('exit', st)
        if target in L:
            back = prev in L[target]
            vals = self.phi_vals(st, fr, target, prev)
            if back and target in fr.inv:
                return self.final_backedge(st, fr, target, vals)
            if back:
                fr.unroll[target] = fr.unroll.get(target, 0) + 1
                if fr.unroll[target] > self.unroll_limit:
                    raise Unsupported('unroll limit')
                self.enter(fr, target, prev, vals)
                return None
            self.enter(fr, target, prev, vals)
            return self.loop_entry(st, fr, target, L[target], vals)
        vals = self.phi_vals(st, fr, target, prev)
        self.enter(fr, target, prev, vals)
        return None

    def phi_vals(self, st, fr, target, prev):
        vals = {}
        for ins in fr.fn.blocks[target].ins:
            if ins.op != 'phi':
                break
            for v, lab in ins.a:
                if lab == prev:
                    vals[ins.res] = self.cval(st, v, ins.ty)
                    break
            else:
                raise Unsupported('phi')
        return vals

    def enter(self, fr, target, prev, vals):
        fr.prev = prev
        fr.blk = target
        fr.env.update(vals)
        fr.ix = len(vals)

    # -- loops
    def loop_entry(self, st, fr, header, body, vals):
        if getattr(self.spec, 'force_unroll', False) or (
                not (hasattr(self.spec, 'never_unroll') and self.spec.never_unroll(st)) and self.can_unroll(st, header, body)):
            fr.unroll[header] = 0
            return None
        return self.houdini(st, header, body, vals)

    def can_unroll(self, st, header, body):
        """every exit decision of the loop is determined on every iteration"""
        s = st.copy()
        s.frames[-1].unroll[header] = 0
        depth = len(s.frames)
        self.mute += 1
        self.trial = getattr(self, 'trial', [])
        self.trial.append((depth, header, body))
        saved = self.writes
        self.writes = None
        np = self.npaths
        try:
            work = [s]
            n = 0
            t0 = time.time()
            while work:
                x = work.pop()
                n += 1
                if n > 600 or time.time() - t0 > 8:
                    return False
                try:
                    r = self.step_path_trial(x, (depth, header, body))
                except Dead:
                    continue
                if r == 'no':
                    return False
                if isinstance(r, list):
                    work += r
            return True
        except Unsupported:
            return False
        finally:
            self.trial.pop()
            self.mute -= 1
            self.writes = saved
            self.npaths = np

    def step_path_trial(self, st, tr):
        depth, header, body = tr
        while True:
            self.steps += 1
            fr = st.frames[-1]
            if len(st.frames) < depth or (len(st.frames) == depth and fr.blk not in body):
                return None
            ins = fr.fn.blocks[fr.blk].ins[fr.ix]
            if ins.op == 'br' and ins.a[0] is not None and len(st.frames) == depth:
                out = [t not in body for t in ins.a[1:]]
                if any(out):
                    c = S(self.cval(st, ins.a[0], ('i', 1)))
                    if not (z3.is_true(c) or z3.is_false(c)):
                        # decided by the path condition?
                        trap = [self.is_trap_block(fr.fn, t) for t in ins.a[1:]]
                        if not any(trap[i] and out[i] for i in range(2)):
                            if st.entails(c, quick=True) or st.entails(z3.Not(c), quick=True):
                                pass
                            elif fr.unroll.get(header, 0) >= (self.spec.early_exits(st) if hasattr(self.spec, 'early_exits') else 0):
                                return 'no'
            try:
                r = self.exec_ins(st, fr, ins, None)
            except Fork as f:
                return self.fork(st, f.conds)
            if r is None:
                continue
            if isinstance(r, Outcome):
                return None
            return r

    def is_trap_block(self, fn, b):
        return fn.blocks[b].ins[-1].op == 'unreachable'

    def cells_fields(self, st, p, offs):
        """group modified byte offsets of a cells part into fields"""
        c = st.mem[p]
        out = []
        for off, nb in sorted(offs):
            out.append((off, nb))
        # merge overlapping
        m = []
        for off, nb in out:
            if m and off < m[-1][0] + m[-1][1]:
                e = max(m[-1][0] + m[-1][1], off + nb)
                m[-1] = (m[-1][0], e - m[-1][0])
            else:
                m.append((off, nb))
        return m

    def shaped(self, hs, name, w, t0, key, shapes):
        g = (shapes or {}).get(key)
        if g and self.dom.name == 'int' and g > 1:
            k = z3.Int('%s!%d' % (name, next(self.cnt)))
            v = S(t0 + g * k)
            hs.assume(self.dom.range(v, w))
            return v
        return hs.fresh(name, w)

    def loop_state(self, st, fr_phis, mods, ghosts, shapes=None):
        """havoc; returns (state, vals, loopvars).  shapes: loop variables known to move in multiples of g"""
        hs = st.copy()
        hs.rescache = {}
        fr = hs.frames[-1]
        lvs = []
        vals = {}
        for n, w, t0 in fr_phis:
            key = ('phi', n)
            v = self.shaped(hs, 'L_' + n, w, t0, key, shapes)
            fr.env[n] = v
            vals[key] = v
            lvs.append(LoopVar(key, w, t0, n))
        bypart = {}
        for p, off, nb in mods:
            bypart.setdefault(p, []).append((off, nb))
        for p, l in bypart.items():
            if p.kind == 'array':
                hs.mem[p] = ('base', self.fresh_array(p))
            else:
                for off, nb in self.cells_fields(st, p, l):
                    if nb in (1, 2, 4, 8):
                        key = ('cell', p, off, nb)
                        v0 = st.read_cells(p, off, nb)
                        v = self.shaped(hs, 'M_%s_%d' % (p.region.name, off), nb * 8, v0, key, shapes)
                        for i in range(nb):
                            hs.mem[p][off + i] = (v, nb * 8, i)
                        vals[key] = v
                        lvs.append(LoopVar(key, nb * 8, st.read_cells(p, off, nb), '%s+%d' % (p.region.name, off)))
                    else:
                        for i in range(nb):
                            v = hs.fresh('M_%s_%d' % (p.region.name, off + i), 8)
                            hs.mem[p][off + i] = (v, 8, 0)
        for g, w in ghosts:
            v = self.shaped(hs, 'G_' + g, w, st.ghost[g], ('ghost', g), shapes)
            hs.ghost[g] = v
            vals[('ghost', g)] = v
            lvs.append(LoopVar(('ghost', g), w, st.ghost[g], 'ghost:' + g))
        return hs, vals, lvs

    def vals_at(self, st, lvs, phivals):
        vals = {}
        for lv in lvs:
            k = lv.key
            if k[0] == 'phi':
                vals[k] = phivals[k[1]]
            elif k[0] == 'cell':
                vals[k] = st.read_cells(k[1], k[2], k[3])
            else:
                vals[k] = st.ghost[k[1]]
        return vals

    @property
    def loop_memo(self):
        return self.__dict__.setdefault('_loop_memo', {})

    def houdini(self, st, header, body, phivals):
        fr = st.frames[-1]
        depth = len(st.frames)
        phis = []
        for ins in fr.fn.blocks[header].ins:
            if ins.op != 'phi':
                break
            phis.append((ins.res, self.tw(ins.ty), phivals[ins.res]))
        mods = set()
        ghosts = []
        narrow = hasattr(self.spec, 'narrow') and self.spec.narrow(st)
        memo = self.loop_memo.get((fr.fn.name, header)) if narrow else None
        if memo:
            # what an earlier entry of this loop was found to change (any superset is sound)
            mods |= {m for m in memo[0] if m[0] in st.mem}
            ghosts += [g for g in memo[1] if g in st.ghost]
        stop = (depth, header, body)
        loc = None
        for b in body:
            for ins in fr.fn.blocks[b].ins:
                l = self.where(ins)[0]
                if l:
                    loc = l
                    break
            if loc:
                break
        if self.trial_depth() and any(t[1] == header for t in self.trial):
            pass
        for restart in range(8):
            # discovery: run body once from the havoced state without candidates
            hs, vals, lvs = self.loop_state(st, phis, mods, ghosts)
            self.mute += 1
            saved, self.writes = self.writes, set()
            np = self.npaths
            try:
                # from the entry state itself; what only later iterations modify is found while the invariant is proved
                e = st.copy()
                outs0 = [o for o in self.run([e], stop) if o.kind == 'back']
                w1 = self.writes
            finally:
                self.mute -= 1
                self.writes = saved
                self.npaths = np
            new = self.filter_mods(st, w1, mods)
            g2 = self.ghost_mods(outs0, hs, st)
            newg = [g for g in g2 if g not in ghosts]
            if new or newg:
                mods |= new
                ghosts += newg
                continue
            init = {lv.key: lv.init for lv in lvs}
            self.strides(lvs, outs0, init)
            for lv in lvs:
                # a spec may know that the values move in multiples; checked on every back edge
                if lv.gcd is None and lv.w == 64 and getattr(self.spec, 'grain', None):
                    lv.gcd = self.spec.grain
            r = self.houdini_fix(st, header, body, phis, mods, ghosts, lvs, stop, loc)
            for _ in range(6):
                if not (isinstance(r, tuple) and r[0] == 'strides'):
                    break
                for lv in lvs:
                    lv.stride, lv.gcd = r[1].get(lv.key, (None, None))
                r = self.houdini_fix(st, header, body, phis, mods, ghosts, lvs, stop, loc)
            if isinstance(r, tuple) and r[0] == 'strides':
                raise Unsupported('the steps of the loop do not settle')
            if isinstance(r, tuple) and r[0] == 'mods':
                mods |= r[1]
                for g in r[2]:
                    if g not in ghosts:
                        ghosts.append(g)
                continue
            hs, vals, lvs2, cands, mono = r
            if narrow:
                self.loop_memo[(fr.fn.name, header)] = (set(mods), list(ghosts))
            hs = self.slim(hs, cands, View(dict(vals), hs))
            if self.spec and hasattr(self.spec, 'at_header'):
                self.spec.at_header(self, hs, lvs2, View(dict(vals), hs))
            fr = hs.frames[-1]
            fr.inv[header] = (cands, lvs2, vals, mono)
            for w in mods:
                self.note_write(*w)
            if not self.mute:
                self.loops_found.append({'loop': loc, 'invariants': [c.name for c in cands][:40],
                                         'count': len(cands)})
                key = 'loop invariants inductive' + ('@' + loc if loc else '')
                rec = self.oblig.setdefault(key, [0, 0, 0, None])
                rec[0] += len(cands)
            return [hs]
        raise Unsupported('loop discovery does not converge')

    def trial_depth(self):
        return getattr(self, 'trial', [])

    def filter_mods(self, st, ws, mods):
        new = set()
        for p, off, nb in ws:
            if p not in st.mem:
                continue   # memory allocated inside the loop body
            if p.kind == 'array':
                m = (p, None, None)
            else:
                m = (p, off, nb)
            if m not in mods:
                new.add(m)
        return new

    def ghost_mods(self, outs, hs, st):
        r = []
        for o in outs:
            for g, t in o.st.ghost.items():
                if not isinstance(t, z3.AstRef):
                    if g in st.ghost and not isinstance(st.ghost[g], z3.AstRef) and t != st.ghost[g]:
                        raise Unsupported('ghost %s changes in a loop' % g)
                    continue
                if g in st.ghost and not t.eq(st.ghost[g]) and not t.eq(hs.ghost[g]):
                    w = self.dom.width(t) if self.dom.name == 'bv' else (1 if z3.is_bool(t) else 64)
                    if (g, w) not in r:
                        r.append((g, w))
        return r

    def slim(self, hs, cands, v):
        """assume the invariant, leaving out what the rest of it already implies"""
        hs.sync()
        forms = []
        for c in cands:
            f = c.fn(v)
            forms += f if isinstance(f, (list, tuple)) else [f]
        ground = []
        for f in forms:
            if not isinstance(f, Forall):
                g = S(f) if not isinstance(f, bool) else z3.BoolVal(f)
                if not z3.is_true(g) and not any(g.eq(x) for x in ground):
                    ground.append(g)
        order = sorted(ground, key=lambda g: (z3.is_eq(g), -len(g.sexpr())))
        # drop the big ones first, keep equalities
        keep = list(order)
        t = z3.Solver()
        t.set('timeout', 300)
        t.add(*hs.facts)
        i = 0
        labels = [z3.Bool('slim!%d' % next(self.cnt)) for _ in keep]
        for l, g in zip(labels, keep):
            t.add(z3.Implies(l, g))
        on = list(range(len(keep)))
        for i in range(len(keep)):
            if i not in on:
                continue
            rest = [labels[j] for j in on if j != i]
            self.nquery += 1
            if t.check(rest + [z3.Not(keep[i])]) == z3.unsat:
                on.remove(i)
        for i in on:
            hs.assume(keep[i])
        for f in forms:
            if isinstance(f, Forall):
                hs.assume(f)
        return hs

    def strides(self, lvs, outs, vals, tent=None):
        """constant step / gcd of the steps over the back edges; tent: multiples to check where no step is constant"""
        import math
        for lv in lvs:
            lv.stride = lv.gcd = None
            if lv.w < 8:
                continue
            ds = set()
            for o in outs:
                nv = self.vals_at(o.st, [lv], o.val)[lv.key]
                dlt = S(nv - vals[lv.key])
                x = num(dlt) if is_num(dlt) else None
                if x is not None and self.dom.name == 'bv' and x >= 1 << (lv.w - 1):
                    x -= 1 << lv.w
                ds.add(x)
            g = (tent or {}).get(lv.key, (None, None))[1]
            if None in ds and g and self.dom.name == 'int':
                self.mute += 1
                try:
                    if all(self.multiple(o, lv, vals, g) for o in outs):
                        lv.gcd = g
                finally:
                    self.mute -= 1
            if None in ds or not ds:
                continue
            if len(ds) == 1:
                lv.stride = next(iter(ds))
            lv.gcd = math.gcd(*ds)

    def multiple(self, o, lv, vals, g):
        nv = self.vals_at(o.st, [lv], o.val)
        if self.spec and hasattr(self.spec, 'at_header'):
            self.spec.at_header(self, o.st, [lv], View(nv, o.st))
        return o.st.entails((nv[lv.key] - vals[lv.key]) % g == 0)

    def houdini_fix(self, st, header, body, phis, mods, ghosts, lvs0, stop, loc):
        d = self.dom
        bykey = {lv.key: lv for lv in lvs0}
        hs, vals, lvs = self.loop_state(st, phis, mods, ghosts, {k: lv.gcd for k, lv in bykey.items()})
        for a in lvs:
            b = bykey[a.key]
            a.stride, a.gcd = b.stride, b.gcd
        assumed = {lv.key: (lv.stride, lv.gcd) for lv in lvs}
        init = View({lv.key: lv.init for lv in lvs}, st)
        cands = self.auto_candidates(st, header, body, lvs)
        if hasattr(self.spec, 'narrow') and self.spec.narrow(st):
            # the contract states its own relations; of the guessed ones only those on single variables
            cands = [c for c in cands if c.name.endswith('==init')]
        if self.spec and hasattr(self.spec, 'candidates'):
            cands += self.spec.candidates(self, st, lvs, init)
        # init
        alive = []
        self.mute += 1
        try:
            ok = self.filter(st, cands, init)
        finally:
            self.mute -= 1
        alive = ok
        for rnd in range(200):
            s = hs.copy()
            v = View(dict(vals), s)
            for lv in lvs:
                if self.spec and hasattr(self.spec, 'loop_terms'):
                    pass
            for c in alive:
                s.assume(c.fn(v))
            if self.spec and hasattr(self.spec, 'at_header'):
                self.spec.at_header(self, s, lvs, v)
            base = hs.copy()
            self.mute += 1
            saved, self.writes = self.writes, set()
            np = self.npaths
            try:
                outs = [o for o in self.run([s], stop) if o.kind == 'back']
                ws = self.writes
            finally:
                self.mute -= 1
                self.writes = saved
                self.npaths = np
            new = self.filter_mods(st, ws, mods)
            gm = [g for g in self.ghost_mods(outs, hs, st) if g not in ghosts]
            if new or gm:
                return ('mods', new, gm)
            if outs:
                # the steps assumed for the havocked variables are the steps of every back edge (else start over)
                self.strides(lvs, outs, vals, assumed)
                now = {lv.key: (lv.stride, lv.gcd) for lv in lvs}
                weak = {}
                for k, (s0, g0) in assumed.items():
                    s1, g1 = now[k]
                    okg = not g0 or g0 == 1 or (g1 is not None and g1 % g0 == 0)
                    if not okg or (rnd == 0 and (s0, g0) != (s1, g1)):
                        weak[k] = True
                if weak:
                    return ('strides', {k: (now[k] if k in weak else assumed[k]) for k in assumed})
                for lv in lvs:
                    lv.stride, lv.gcd = assumed[lv.key]
            dropped = False
            self.mute += 1
            try:
                for o in outs:
                    nv = View(self.vals_at(o.st, lvs, o.val), o.st)
                    if self.spec and hasattr(self.spec, 'at_back'):
                        self.spec.at_back(self, o.st, lvs, v, nv)
                    keep = self.filter(o.st, alive, nv)
                    if len(keep) != len(alive):
                        alive = keep
                        dropped = True
            finally:
                self.mute -= 1
            if os.environ.get('IRVC_HOUDINI'):
                print('   houdini', loc, 'round', rnd, 'alive', len(alive), 'backs', len(outs), 'mods', mods)
            if not dropped:
                break
        # termination: some loop variable strictly monotone on every back edge
        mono = None
        for lv in lvs:
            if lv.w < 8 or getattr(self.spec, 'no_termination', False):
                continue
            for kind in ('inc', 'dec'):
                good = bool(outs)
                for o in outs:
                    nv = self.vals_at(o.st, [lv], o.val)[lv.key]
                    f = d.ult(vals[lv.key], nv, lv.w) if kind == 'inc' else d.ult(nv, vals[lv.key], lv.w)
                    if not o.st.entails(f, quick=True):
                        good = False
                        break
                if good:
                    mono = (lv.name, kind)
                    break
            if mono:
                break
        if not mono and outs and self.spec and hasattr(self.spec, 'measures'):
            # bounded measures of the contract: old < new <= 2^64 on every back edge
            for nm, fn in self.spec.measures(self, st, lvs):
                if all(o.st.entails(z3.And(fn(v) < fn(nv), fn(nv) <= 1 << 64, fn(v) >= 0), quick=True)
                       for o in outs for nv in (View(self.vals_at(o.st, lvs, o.val), o.st),)):
                    mono = (nm, 'inc')
                    break
        if os.environ.get('IRVC_HOUDINI'):
            for c in alive:
                print('      INV', c.name)
            for lv in lvs:
                print('      VAR', lv.name, 'stride', lv.stride, 'init', str(lv.init)[:80])
        if not self.mute:
            self.require_termination(st, outs, mono, loc)
        return base, vals, lvs, alive, mono

    def require_termination(self, st, outs, mono, loc):
        if not outs or getattr(self.spec, 'no_termination', False):
            return
        key = 'loop terminates' + ('@' + loc if loc else '')
        rec = self.oblig.setdefault(key, [0, 0, 0, None])
        if mono:
            rec[0] += 1
        else:
            rec[2] += 1
            if rec[3] is None:
                rec[3] = {'status': 'unknown', 'model': None, 'trail': [], 'detail': 'no strictly monotone variable', 'goal': ''}

    def filter(self, st, cands, view):
        """candidates of `cands` that hold in view/st"""
        ground = []
        res = []
        other = []
        for c in cands:
            try:
                f = c.fn(view)
            except Dead:
                continue
            fs = f if isinstance(f, (list, tuple)) else [f]
            g = [x for x in fs if not isinstance(x, Forall)]
            q = [x for x in fs if isinstance(x, Forall)]
            ground.append((c, z3.And(*g) if g else TRUE, q))
        # ground parts, model-guided
        alive = [(c, S(g), q) for c, g, q in ground]
        alive = [x for x in alive if not z3.is_false(x[1])]
        for _ in range(len(alive) + 1):
            need = [x for x in alive if not z3.is_true(x[1])]
            if not need:
                break
            r = st.check(z3.Or(*[z3.Not(x[1]) for x in need]), ms=10000)
            if r == z3.unsat:
                break
            if r == z3.sat:
                m = self.model
                n0 = len(alive)
                alive = [x for x in alive if z3.is_true(x[1]) or not z3.is_false(m.eval(x[1], model_completion=True))]
                if len(alive) == n0:
                    alive = [x for x in alive if st.entails(x[1], quick=True)]
                    break
            else:
                alive = [x for x in alive if st.entails(x[1], quick=True)]
                break
        out = []
        for c, g, q in alive:
            ok = True
            for fa in q:
                s2, ks = self.skolem(st, fa)
                if not s2.entails(fa.fn(*ks), quick=True):
                    ok = False
                    break
            if ok:
                out.append(c)
        return out

    def final_backedge(self, st, fr, header, phivals):
        return Outcome('backedge', st)

    def auto_candidates(self, st, header, body, lvs):
        d = self.dom
        cands = []
        fr = st.frames[-1]
        # loop-invariant terms compared inside the loop
        bounds = {}
        for b in body:
            for ins in fr.fn.blocks[b].ins:
                if ins.op == 'icmp':
                    for o in ins.a[1:]:
                        t = ins.ty
                        try:
                            w = self.tw(t)
                        except Unsupported:
                            continue
                        if o[0] == 'loc':
                            if o[1] in fr.env and not self.defined_in(fr.fn, body, o[1]):
                                x = fr.env[o[1]]
                                if not isinstance(x, list) and w > 1:
                                    bounds[(x.get_id(), w)] = (x, w)
                        elif o[0] in ('int', 'null') and w > 1:
                            x = self.cval(st, o, t)
                            bounds[(x.get_id(), w)] = (x, w)
        for (x, w) in list(bounds.values()):
            st.known[('keep', x.get_id())] = x
        ivs = [lv for lv in lvs if lv.w in (16, 32, 64)]
        for lb in lvs:
            if lb.w != 1:
                continue
            cands.append(Cand('%s==init' % lb.name, lambda v, k=lb.key, i0=lb.init: v[k] == i0))
            for lv in ivs:
                cands.append(Cand('(%s==init)==(%s==init)' % (lb.name, lv.name), lambda v, k=lb.key, i0=lb.init, n=lv.key, j0=lv.init:
                                  (v[k] == i0) == (v[n] == j0)))
        for lv in ivs:
            k, w = lv.key, lv.w
            i0 = lv.init
            cands.append(Cand('%s==init' % lv.name, lambda v, k=k, i0=i0: v[k] == i0))
            cands.append(Cand('%s>=init' % lv.name, lambda v, k=k, i0=i0, w=w: d.ule(i0, v[k], w)))
            cands.append(Cand('%s<=init' % lv.name, lambda v, k=k, i0=i0, w=w: d.ule(v[k], i0, w)))
            s = lv.stride
            if s and abs(s) > 1 and (abs(s) & (abs(s) - 1)) == 0:
                cands.append(Cand('%s-init mult of %d' % (lv.name, abs(s)),
                                  lambda v, k=k, i0=i0, s=s: d.aligned(v[k] - i0, abs(s))))
            for (x, bw) in bounds.values():
                if bw != w:
                    continue
                n = str(x)[:40]
                cands.append(Cand('%s<=%s' % (lv.name, n), lambda v, k=k, x=x, w=w: d.ule(v[k], x, w)))
                cands.append(Cand('%s>=%s' % (lv.name, n), lambda v, k=k, x=x, w=w: d.ule(x, v[k], w)))
                cands.append(Cand('%s!=%s' % (lv.name, n), lambda v, k=k, x=x, w=w: v[k] != x))
                if s:
                    cands.append(Cand('%s mult of %d below %s' % (lv.name, abs(s), n),
                                      lambda v, k=k, x=x, s=s: d.aligned(x - v[k], abs(s))
                                      if (abs(s) & (abs(s) - 1)) == 0 else TRUE))
                    cands.append(Cand('%s+s<=%s' % (lv.name, n), lambda v, k=k, x=x, w=w, s=s:
                                      z3.And(d.ule(v[k], v[k] + d.const(s, w), w) if s > 0 else TRUE,
                                             d.ule(v[k] + d.const(s, w), x, w)) if s > 0 else TRUE))
        for a in ivs:
            for b in ivs:
                if a is b or a.w != b.w:
                    continue
                ka, kb, w = a.key, b.key, a.w
                if str(ka) < str(kb):
                    if a.stride and b.stride:
                        cands.append(Cand('lin(%s,%s)' % (a.name, b.name),
                                          lambda v, ka=ka, kb=kb, a=a, b=b, w=w:
                                          d.const(b.stride, w) * (v[ka] - a.init) == d.const(a.stride, w) * (v[kb] - b.init)
                                          if d.name == 'bv' else
                                          b.stride * (v[ka] - a.init) == a.stride * (v[kb] - b.init)))
                    cands.append(Cand('%s-%s==init' % (a.name, b.name),
                                      lambda v, ka=ka, kb=kb, a=a, b=b: v[ka] - v[kb] == a.init - b.init))
                    cands.append(Cand('%s==%s' % (a.name, b.name), lambda v, ka=ka, kb=kb: v[ka] == v[kb]))
                cands.append(Cand('%s<=%s' % (a.name, b.name), lambda v, ka=ka, kb=kb, w=w: d.ule(v[ka], v[kb], w)))
                cands.append(Cand('%s<%s' % (a.name, b.name), lambda v, ka=ka, kb=kb, w=w: d.ult(v[ka], v[kb], w)))
        for lv in lvs:
            if lv.w in (1, 8):
                k, i0 = lv.key, lv.init
                cands.append(Cand('%s==init' % lv.name, lambda v, k=k, i0=i0: v[k] == i0))
        return cands

    def defined_in(self, fn, body, name):
        key = (fn.name, tuple(sorted(body)))
        c = getattr(fn, '_defs', None)
        if c is None:
            c = {}
            fn._defs = c
        if key not in c:
            c[key] = {i.res for b in body for i in fn.blocks[b].ins if i.res}
        return name in c[key]

    # -- instructions
    def exec_ins(self, st, fr, ins, stop):
        d = self.dom
        op = ins.op
        env = fr.env
        if op in ll.BINOPS:
            w = self.tw(ins.ty)
            a = self.cval(st, ins.a[0], ins.ty)
            b = self.cval(st, ins.a[1], ins.ty)
            env[ins.res] = self.binop(st, op, a, b, w, ins.flags)
        elif op == 'icmp':
            t = self.mod.resolve(ins.ty)
            env[ins.res] = self.icmp(ins.a[0], self.cval(st, ins.a[1], t), self.cval(st, ins.a[2], t), self.tw(t))
        elif op in ll.CASTS:
            t1 = ins.a[0]
            env[ins.res] = self.cast(st, op, self.cval(st, ins.a[1], t1), t1, ins.ty)
        elif op == 'getelementptr':
            st_, args = ins.a
            base = self.cval(st, args[0][1], args[0][0])
            env[ins.res] = S(self.gep(st, st_, base, args[1:], 'inbounds' in ins.text))
        elif op == 'load':
            a = self.cval(st, ins.a, ('ptr',))
            if 'load atomic' in ins.text:
                self.sync(st, ins, a, self.tw(ins.ty))
            env[ins.res] = self.load_typed(st, a, ins.ty, ins)
        elif op == 'store':
            v = self.cval(st, ins.a[0], ins.ty)
            a = self.cval(st, ins.a[1], ('ptr',))
            if 'store atomic' in ins.text:
                self.sync(st, ins, a, self.tw(ins.ty))
            self.store_typed(st, a, v, ins.ty, ins)
        elif op == 'br':
            return self.do_br(st, fr, ins, stop)
        elif op == 'switch':
            v = self.cval(st, ins.a[0], ins.ty)
            conds = []
            tg = []
            neg = []
            for cv, lab in ins.a[2]:
                c = v == self.cval(st, cv, ins.ty)
                conds.append(c)
                tg.append(lab)
                neg.append(z3.Not(c))
            conds.append(z3.And(*neg) if neg else TRUE)
            tg.append(ins.a[1])
            for c, t in zip(conds, tg):
                if z3.is_true(S(c)) or st.entails(c, quick=True):
                    return self.goto(st, t, stop)
            raise Fork(conds)
        elif op == 'select':
            c = self.cval(st, ins.a[0], ('i', 1))
            if isinstance(c, list):
                raise Unsupported('vector select')
            a = self.cval(st, ins.a[1], ins.ty)
            b = self.cval(st, ins.a[2], ins.ty)
            c = S(c)
            if z3.is_true(c):
                env[ins.res] = a
            elif z3.is_false(c):
                env[ins.res] = b
            else:
                if isinstance(a, list) or self.mod.resolve(ins.ty)[0] == 'ptr':
                    if st.entails(c, quick=True):
                        env[ins.res] = a
                    elif st.entails(z3.Not(c), quick=True):
                        env[ins.res] = b
                    else:
                        raise Fork([c, z3.Not(c)])
                else:
                    env[ins.res] = S(z3.If(c, a, b))
        elif op == 'alloca':
            t, cnt, al = ins.a
            n = self.mod.size(t)
            if cnt is not None:
                cv = self.cval(st, cnt[1], cnt[0])
                if not is_num(cv):
                    raise Unsupported('vla')
                n *= num(cv)
            base = st.fresh('stk_%s' % ins.res, 64)
            zone = self.zone(1 << 46, n)
            st.assume(z3.And(d.ule(d.const(zone[0], 64), base), d.ule(base, d.const(zone[1] - n - 64, 64)),
                             d.aligned(base, max(16, al))))
            r = Region('%s%%%s' % (fr.fn.name[:24], ins.res), base, n, [Part(0, n)], zone=zone)
            st.add_region(r)
            env[ins.res] = base
        elif op in ('call', 'invoke'):
            return self.do_call(st, fr, ins, stop)
        elif op == 'ret':
            v = None if ins.a is None else self.cval(st, ins.a, ins.ty)
            return self.do_ret(st, fr, v, stop)
        elif op == 'unreachable':
            self.oblige(st, 'unreachable code is not reached', FALSE, self.where(ins)[0])
            raise Dead()
        elif op == 'freeze':
            env[ins.res] = self.cval(st, ins.a, ins.ty)
        elif op == 'extractvalue':
            v = self.cval(st, ins.a[0], ins.ty)
            for i in ins.a[1]:
                v = v[i]
            env[ins.res] = v
        elif op == 'insertvalue':
            v = self.cval(st, ins.a[0], ins.ty)
            e = self.cval(st, ins.a[1], None) if ins.a[1][0] == 'loc' else None
            if e is None:
                t = self.mod.resolve(ins.ty)
                for i in ins.a[2]:
                    t = self.mod.resolve(t[1][i] if t[0] == 'struct' else t[2])
                e = self.cval(st, ins.a[1], t)

            def upd(v, ix):
                v = list(v)
                if len(ix) == 1:
                    v[ix[0]] = e
                else:
                    v[ix[0]] = upd(v[ix[0]], ix[1:])
                return v
            env[ins.res] = upd(v, ins.a[2])
        elif op == 'extractelement':
            v = self.cval(st, ins.a[0], ins.ty)
            env[ins.res] = v[ins.a[1][1]]
        elif op == 'insertelement':
            v = list(self.cval(st, ins.a[0], ins.ty))
            v[ins.a[2][1]] = self.cval(st, ins.a[1], self.mod.resolve(ins.ty)[2])
            env[ins.res] = v
        elif op == 'atomicrmw':
            rop, da, va = ins.a
            a = self.cval(st, da, ('ptr',))
            w = self.tw(ins.ty)
            self.sync(st, ins, a, w)
            v = self.cval(st, va, ins.ty)
            old = self.load(st, a, w, ins)
            if rop == 'xchg':
                new = v
            elif rop in ('add', 'sub', 'and', 'or', 'xor'):
                new = self.binop(st, rop, old, v, w, ())
            else:
                raise Unsupported('atomicrmw ' + rop)
            if self.spec and hasattr(self.spec, 'on_rmw'):
                self.spec.on_rmw(self, st, a, old, new, self.where(ins)[0])
            self.in_rmw = True
            try:
                self.store(st, a, new, w, ins)
            finally:
                self.in_rmw = False
            if self.spec and hasattr(self.spec, 'on_atomic'):
                self.spec.on_atomic(self, st, a, old, new)
            env[ins.res] = old
        elif op == 'cmpxchg':
            da, ca, na = ins.a
            a = self.cval(st, da, ('ptr',))
            w = self.tw(ins.ty)
            self.sync(st, ins, a, w)
            old = self.load(st, a, w, ins)
            c = S(old == self.cval(st, ca, ins.ty))
            if not (z3.is_true(c) or z3.is_false(c)):
                if st.entails(c, quick=True):
                    c = TRUE
                elif st.entails(z3.Not(c), quick=True):
                    c = FALSE
                else:
                    raise Fork([c, z3.Not(c)])
            if z3.is_true(c):
                nv = self.cval(st, na, ins.ty)
                if self.spec and hasattr(self.spec, 'on_rmw'):
                    self.spec.on_rmw(self, st, a, old, nv, self.where(ins)[0])
                self.in_rmw = True
                try:
                    self.store(st, a, nv, w, ins)
                finally:
                    self.in_rmw = False
            env[ins.res] = [old, c]
        elif op == 'fence':
            pass
        elif op == 'landingpad':
            env[ins.res] = [st.exc[0], st.exc[1]]
            self.trusted.add('C++ exception ABI (landing pads)')
        elif op == 'resume':
            return self.do_throw(st, stop)
        elif op == 'asm':
            if '""' not in ins.text:
                raise Unsupported('asm')
        elif op == 'fcmp':
            a = self.cval(st, ins.a[1], ins.ty)
            b = self.cval(st, ins.a[2], ins.ty)
            w = self.tw(ins.ty)
            env[ins.res] = z3.Function('fcmp_%s%d' % (ins.a[0], w), d.sort(w), d.sort(w), z3.BoolSort())(a, b)
        else:
            raise Unsupported('instruction ' + op + ': ' + ins.text[:80])
        st.ghost_sync = None
        fr.ix += 1
        return None

    def do_br(self, st, fr, ins, stop):
        if ins.a[0] is None:
            return self.goto(st, ins.a[1], stop)
        c = S(self.cval(st, ins.a[0], ('i', 1)))
        loc = self.where(ins)[0]
        if z3.is_true(c):
            return self.goto(st, ins.a[1], stop)
        if z3.is_false(c):
            return self.goto(st, ins.a[2], stop)
        # trap blocks are obligations, not branches to explore
        for ix, cond in ((1, c), (2, z3.Not(c))):
            k = self.trap_kind(fr.fn, ins.a[ix])
            if k:
                other = ins.a[3 - ix]
                self.oblige(st, k, S(z3.Not(cond)), loc)
                return self.goto(st, other, stop)
        t = st.feasible(c)
        f = st.feasible(z3.Not(c))
        if t and not f:
            return self.goto(st, ins.a[1], stop)
        if f and not t:
            return self.goto(st, ins.a[2], stop)
        if not t and not f:
            raise Dead()
        s2 = st.copy()
        s2.assume(z3.Not(c))
        if loc:
            st.trail.append(loc)
            s2.trail.append('!' + loc)
        st.assume(c)
        out = []
        for s, tg in ((s2, ins.a[2]), (st, ins.a[1])):
            try:
                r = self.goto(s, tg, stop)
            except Dead:
                continue
            if r is None:
                out.append(s)
            elif isinstance(r, Outcome):
                out.append(_Done(r))
            else:
                out += r
        return _flatten(self, out)

    def trap_kind(self, fn, b):
        blk = fn.blocks[b]
        if blk.ins[-1].op != 'unreachable':
            return None
        calls = [i for i in blk.ins if i.op in ('call', 'invoke')]
        for c in calls:
            cal = c.a[0]
            if cal[0] == 'glob':
                n = cal[1]
                if n.startswith('llvm.ubsantrap'):
                    return 'no undefined behaviour (UBSan check %s)' % UBK.get(c.a[1][0][1][1], c.a[1][0][1][1])
                if n == 'llvm.trap':
                    return 'no trap'
                if n.startswith('_ZSt21__glibcxx_assert_fail'):
                    return 'no libstdc++ precondition violation'
                return None
        if not calls and len(blk.ins) == 1:
            return 'unreachable code is not reached'
        return None

    def do_ret(self, st, fr, v, stop):
        depth = len(st.frames)
        st.frames.pop()
        if stop and depth <= stop[0]:
            return Outcome('exit', st, v)
        if not st.frames:
            return Outcome('ret', st, v)
        fr2 = st.frames[-1]
        ci = fr2.fn.blocks[fr2.blk].ins[fr2.ix]
        if ci.res is not None:
            fr2.env[ci.res] = v
        return self.after_call(st, fr2, ci, stop)

    def after_call(self, st, fr, ins, stop):
        if ins.op == 'invoke':
            return self.goto(st, ins.a[2], stop)
        fr.ix += 1
        return None

    def do_throw(self, st, stop):
        """exception st.exc in flight, raised at the current instruction of the top frame"""
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk].ins[fr.ix]
            if ins.op == 'invoke':
                return self.goto(st, ins.a[3], stop)
            depth = len(st.frames)
            nounw = False
            st.frames.pop()
            if stop and depth <= stop[0]:
                return Outcome('exit', st)
            if not st.frames:
                return Outcome('throw', st, st.exc)

    def do_call(self, st, fr, ins, stop):
        callee, args, norm, unw = ins.a
        loc, infn = self.where(ins)
        if callee[0] == 'glob':
            name = callee[1]
            if name in self.mod.aliases and self.mod.aliases[name][0] == 'glob':
                name = self.mod.aliases[name][1]
        elif callee[0] == 'loc' or callee[0] == 'cgep' or callee[0] == 'ccast':
            fv = S(self.cval(st, callee, ('ptr',)))
            name = None
            if z3.is_const(fv) and fv.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(fv.decl().name()).startswith('@'):
                name = str(fv.decl().name())[1:]
            else:
                # devirtualise by the solver: known function address?
                av = [self.cval(st, a[1], a[0]) for a in args]
                return self.event(st, fr, ins, fv, None, av, stop, loc)
        else:
            raise Unsupported('callee %r' % (callee,))
        if name.startswith('llvm.'):
            r = self.intrinsic(st, ins, name, args, loc)
            if r is NotImplemented:
                raise Unsupported('intrinsic ' + name)
            if ins.res is not None:
                fr.env[ins.res] = r
            return self.after_call(st, fr, ins, stop)
        av = [self.cval(st, a[1], a[0]) for a in args]
        for pred, h in self.contracts:
            if pred(name):
                r = h(self, st, ins, name, av)
                if r is not NotImplemented:
                    return self.finish_contract(st, fr, ins, r, stop)
        if name in EXTERN:
            r = EXTERN[name](self, st, ins, name, av, args, loc)
            return self.finish_contract(st, fr, ins, r, stop)
        for pre, h in EXTERN_PREFIX:
            if name.startswith(pre):
                r = h(self, st, ins, name, av, args, loc)
                return self.finish_contract(st, fr, ins, r, stop)
        fn = self.mod.funcs.get(name)
        if fn is not None and not (self.opaque is not None and self.opaque.search(name)):
            if len(st.frames) > 40:
                raise Unsupported('recursion')
            self.stepped.add(name)
            nf = Frame(fn, self.mod)
            for (t, pn, at), v in zip(fn.params, av):
                nf.env[pn] = v
            if fn.params and fn.params[0][1] is None:
                raise Unsupported('unnamed parameters')
            st.frames.append(nf)
            return None
        return self.event(st, fr, ins, None, name, av, stop, loc)

    def finish_contract(self, st, fr, ins, r, stop):
        """r: None (void) | term | ('throw', exc) | ('dead',) | ('fork', [(cond, r)])"""
        if isinstance(r, tuple) and r and r[0] == 'throw':
            st.exc = r[1]
            return self.do_throw(st, stop)
        if isinstance(r, tuple) and r and r[0] == 'dead':
            raise Dead()
        if isinstance(r, tuple) and r and r[0] == 'multi':
            out = []
            for s, rr in r[1]:
                try:
                    x = self.finish_contract(s, s.frames[-1], ins, rr, stop)
                except Dead:
                    continue
                if x is None:
                    out.append(s)
                elif isinstance(x, Outcome):
                    out.append(_Done(x))
                else:
                    out += x
            return _flatten(self, out)
        if ins.res is not None:
            fr.env[ins.res] = r
        return self.after_call(st, fr, ins, stop)

    def event(self, st, fr, ins, fv, name, av, stop, loc):
        self.events_seen += 1
        if self.spec is None or not hasattr(self.spec, 'on_event'):
            raise Unsupported('call to unknown function %s' % (name or fv))
        r = self.spec.on_event(self, st, fv, name, av, ins, loc)
        if r is NotImplemented:
            raise Unsupported('call to unknown function %s' % (name or fv))
        if ins.res is not None and r is None:
            t = self.mod.resolve(ins.ty)
            r = st.fresh('ret', self.tw(t))
        return self.finish_contract(st, fr, ins, r, stop)

    # -- intrinsics
    def intrinsic(self, st, ins, name, args, loc):
        d = self.dom
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.var.annotation',
                            'llvm.donothing', 'llvm.prefetch')):
            return None
        if name == 'llvm.assume':
            if args[0][1][0] != 'loc':
                return None
            c = self.cval(st, args[0][1], ('i', 1))
            self.oblige(st, 'compiler assumption holds', c, loc)
            return None
        if name.startswith(('llvm.expect', 'llvm.launder', 'llvm.strip', 'llvm.ssa.copy')):
            return self.cval(st, args[0][1], args[0][0])
        if name.startswith('llvm.ubsantrap') or name == 'llvm.trap':
            self.oblige(st, 'no undefined behaviour (UBSan check)', FALSE, loc)
            raise Dead()
        if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            t = args[0][0]
            w = self.tw(t)
            a = self.cval(st, args[0][1], t)
            b = self.cval(st, args[1][1], t)
            lt = (d.ult if name[5] == 'u' else d.slt)(a, b, w)
            return S(z3.If(lt, a, b) if 'min' in name else z3.If(lt, b, a))
        if name.startswith('llvm.abs'):
            t = args[0][0]
            w = self.tw(t)
            a = self.cval(st, args[0][1], t)
            return S(z3.If(d.slt(a, d.const(0, w), w), d.sub(st, d.const(0, w), a, w), a))
        if name.startswith('llvm.bswap'):
            t = args[0][0]
            w = self.tw(t)
            a = self.cval(st, args[0][1], t)
            return d.from_bytes([d.byte(a, w, i) for i in range(w // 8)][::-1])
        if name.startswith(('llvm.fshl', 'llvm.fshr')) and d.name == 'bv':
            t = args[0][0]
            w = self.tw(t)
            a, b, c = [self.cval(st, x[1], t) for x in args]
            c = z3.URem(c, d.const(w, w))
            cat = z3.Concat(a, b)
            c2 = z3.ZeroExt(w, c)
            if 'fshl' in name:
                return S(z3.Extract(2 * w - 1, w, cat << c2))
            return S(z3.Extract(w - 1, 0, z3.LShR(cat, c2)))
        for nm in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
            if name.startswith('llvm.%s.with.overflow' % nm):
                t = args[0][0]
                w = self.tw(t)
                a = self.cval(st, args[0][1], t)
                b = self.cval(st, args[1][1], t)
                op = nm[1:]
                r = self.binop(st, op, a, b, w, ())
                if d.name == 'bv':
                    if nm[0] == 'u':
                        if op == 'add':
                            o = z3.Not(z3.BVAddNoOverflow(a, b, False))
                        elif op == 'sub':
                            o = z3.ULT(a, b)
                        else:
                            o = z3.Not(z3.BVMulNoOverflow(a, b, False))
                    else:
                        if op == 'add':
                            o = z3.Not(z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)))
                        elif op == 'sub':
                            o = z3.Not(z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)))
                        else:
                            o = z3.Not(z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)))
                else:
                    if nm[0] == 'u':
                        o = {'add': a + b >= 1 << w, 'sub': a < b, 'mul': a * b >= 1 << w}[op]
                    else:
                        sa, sb = d.tosigned(a, w), d.tosigned(b, w)
                        x = {'add': sa + sb, 'sub': sa - sb, 'mul': sa * sb}[op]
                        o = z3.Or(x >= 1 << (w - 1), x < -(1 << (w - 1)))
                return [r, S(o)]
        if name.startswith(('llvm.usub.sat', 'llvm.uadd.sat')):
            t = args[0][0]
            w = self.tw(t)
            a = self.cval(st, args[0][1], t)
            b = self.cval(st, args[1][1], t)
            if 'usub' in name:
                return S(z3.If(d.ult(a, b, w), d.const(0, w), a - b))
            return S(z3.If(d.ult(d.const((1 << w) - 1, w) - a, b, w), d.const((1 << w) - 1, w), a + b))
        if name.startswith('llvm.is.constant'):
            return FALSE
        if name.startswith('llvm.objectsize'):
            return d.const((1 << 64) - 1, self.tw(ins.ty))
        if name.startswith('llvm.eh.typeid.for'):
            a = self.cval(st, args[0][1], args[0][0])
            return self.typeid(st, a)
        if name.startswith('llvm.ctpop') or name.startswith('llvm.ctlz') or name.startswith('llvm.cttz'):
            return st.fresh('bits', self.tw(ins.ty))
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            dst = self.cval(st, args[0][1], args[0][0])
            src = self.cval(st, args[1][1], args[1][0])
            n = self.cval(st, args[2][1], args[2][0])
            if self.tw(args[2][0]) < 64:
                n = d.zext(n, self.tw(args[2][0]), 64)
            self.memcpy(st, dst, src, n, loc, 'memmove' in name)
            return None
        if name.startswith('llvm.memset'):
            dst = self.cval(st, args[0][1], args[0][0])
            v = self.cval(st, args[1][1], args[1][0])
            n = self.cval(st, args[2][1], args[2][0])
            if self.tw(args[2][0]) < 64:
                n = d.zext(n, self.tw(args[2][0]), 64)
            self.memset(st, dst, v, n, loc)
            return None
        return NotImplemented

    def typeid(self, st, a):
        f = self.uf('typeid', 32)
        return f(a)

    @staticmethod
    def pieces(nb):
        """(offset, bits) of the words that make up nb bytes"""
        out = []
        i = 0
        while i < nb:
            k = next(k for k in (8, 4, 2, 1) if i + k <= nb)
            out.append((i, k * 8))
            i += k
        return out

    def memset(self, st, dst, v, n, loc):
        d = self.dom
        n = S(n)
        if is_num(n) and num(n) == 0:
            return
        if is_num(n):
            nb = num(n)
            cuts = self.part_cuts(st, dst, nb)
            if cuts:
                for a, b in zip([0] + cuts, cuts + [nb]):
                    self.memset(st, S(dst + d.const(a, 64)), v, d.const(b - a, 64), loc)
                return
            r = self.resolve(st, dst, nb, True, loc)
            if not r[0] == 'ext' and not r[1].region.writable:
                self.oblige(st, 'frame: no store into read-only %s' % r[1].region.name, FALSE, loc)
                raise Dead()
            if r[0] == 'cells' and getattr(r[1], 'guard', None) is not None:
                for i, w in self.pieces(nb):
                    self.store(st, S(dst + d.const(i, 64)), d.from_bytes([v] * (w // 8)), w)
                return
            if r[0] == 'cells':
                c = st.mem[r[1]]
                if is_num(v) and num(v) == 0 and nb <= 8:
                    st.write_cells(r[1], r[2], nb, d.const(0, nb * 8), nb * 8)
                else:
                    for i in range(nb):
                        c[r[2] + i] = (v, 8, 0)
                    self.note_write(r[1], r[2], nb)
                return
            if r[0] == 'array' and nb <= 64:
                p = r[1]
                if p.ew == 1:
                    for i in range(nb):
                        st.write_array(p, S(dst + d.const(i, 64)), v)
                    return
                if nb % p.ew == 0 and st.entails(d.aligned(S(dst - p.lo(d)), p.ew), quick=True):
                    for i in range(0, nb, p.ew):
                        x = S(dst + d.const(i, 64))
                        if p.label:
                            st.add_term(p.label, x)
                        st.write_array(p, x, d.from_bytes([v] * p.ew))
                    return
        else:
            z = d.const(0, 64)
            if st.entails(n == z, quick=True):
                return
            if not st.entails(n != z, quick=True):
                raise Fork([n == z, n != z])
        p = self.resolve_range(st, dst, n, loc, True)
        if p == 'ext':
            self.oblige(st, 'frame: no store outside the objects owned by the contract', FALSE, loc)
            raise Dead()
        if p.kind != 'array':
            raise Unsupported('symbolic memset on cells')
        st.mem[p] = ('set', st.mem[p], S(dst), n, v)
        self.note_write(p, None, None)

    def part_cuts(self, st, a, nb):
        """offsets at which [a, a+nb) crosses from one part of an object into the next"""
        reg, off, adds = self.syntactic_region(st, a)
        if reg is None or not is_num(off):
            return []
        o = num(off)
        return [p.off - o for p in reg.parts if isinstance(p.off, int) and o < p.off < o + nb]

    def resolve_range(self, st, a, n, loc, write):
        """array part that contains [a, a+n), n>0"""
        d = self.dom
        reg, off, adds = self.syntactic_region(st, a)
        parts = [p for r in st.regions if r not in st.dead for p in r.parts]
        if reg is not None:
            parts = [p for p in parts if p.region is reg] + [p for p in parts if p.region is not reg]

        def inr(p):
            lo, hi = p.lo(d), p.hi(d)
            return z3.And(d.ule(lo, a), d.ult(a, hi), d.ule(n, hi - a))
        for p in parts:
            if st.entails(inr(p), quick=True):
                return p
        if self.allow_ext and self.ext_range is not None:
            if st.entails(z3.And(self.ext_range(a), self.ext_range(a + n)), quick=True):
                return 'ext'
        # pick by the part that holds the first byte, then oblige the range
        for p in parts:
            if st.entails(z3.And(d.ule(p.lo(d), a), d.ule(a, p.hi(d))), quick=True):
                self.oblige(st, 'memory access in bounds', inr(p), loc)
                return p
        feas = [p for p in parts if st.feasible(inr(p))]
        self.oblige(st, 'memory access in bounds', z3.Or(*[inr(p) for p in feas]) if feas else FALSE, loc)
        if len(feas) > 1:
            raise Fork([inr(p) for p in feas])
        return feas[0]

    def sole(self, st, n):
        """the only small value n can have here, if it has one"""
        if st.check() == z3.sat:
            c = self.model.eval(n, model_completion=True)
            if is_num(c) and 0 <= num(c) <= 512 and st.entails(n == c, quick=True):
                return self.dom.const(num(c), 64)
        return None

    def memcpy(self, st, dst, src, n, loc, move):
        d = self.dom
        n = S(n)
        if is_num(n) and num(n) == 0:
            return
        if is_num(n) and num(n) <= 512:
            nb = num(n)
            cuts = sorted(set(self.part_cuts(st, dst, nb) + self.part_cuts(st, src, nb)))
            if cuts:
                if move and self.syntactic_region(st, dst)[0] is self.syntactic_region(st, src)[0]:
                    raise Unsupported('overlapping memmove across parts')
                for a, b in zip([0] + cuts, cuts + [nb]):
                    self.memcpy(st, S(dst + d.const(a, 64)), S(src + d.const(a, 64)), d.const(b - a, 64), loc, move)
                return
            rd = self.resolve(st, dst, nb, True, loc)
            rs = self.resolve(st, src, nb, False, loc)
            if rd[0] == 'ext':
                self.oblige(st, 'frame: no store outside the objects owned by the contract', FALSE, loc)
                raise Dead()
            if not rd[1].region.writable:
                self.oblige(st, 'frame: no store into read-only %s' % rd[1].region.name, FALSE, loc)
                raise Dead()
            if getattr(rd[1], 'guard', None) is not None:
                vals = [(i, w, self.load(st, S(src + d.const(i, 64)), w)) for i, w in self.pieces(nb)]
                for i, w, v in vals:
                    self.store(st, S(dst + d.const(i, 64)), v, w)
                return
            if rs[0] == 'cells' and getattr(rs[1], 'before_read', None) is not None:
                rs[1].before_read(self, st, rs[1], rs[2], nb, loc)
            if rd[0] == 'cells' and rs[0] == 'cells':
                cs, cd = st.mem[rs[1]], st.mem[rd[1]]
                # materialise uninitialised source
                i = 0
                while i < nb:
                    if cs.get(rs[2] + i) is None:
                        k = 8 if (rs[2] + i) % 8 == 0 and i + 8 <= nb and all(
                            cs.get(rs[2] + i + j) is None for j in range(8)) else 1
                        st.read_cells(rs[1], rs[2] + i, k)
                        i += k
                    else:
                        i += 1
                ent = [cs[rs[2] + i] for i in range(nb)]
                for i in range(nb):
                    cd[rd[2] + i] = ent[i]
                self.note_write(rd[1], rd[2], nb)
                return
            g = 1
            for r in (rd, rs):
                if r[0] == 'array':
                    g = max(g, r[1].ew)
            if nb % g:
                g = 1
            vals = [self.load(st, S(src + d.const(i, 64)), g * 8) for i in range(0, nb, g)]
            for j, i in enumerate(range(0, nb, g)):
                self.store(st, S(dst + d.const(i, 64)), vals[j], g * 8)
            return
        z = d.const(0, 64)
        if st.entails(n == z, quick=True):
            return
        if not st.entails(n != z, quick=True):
            raise Fork([n == z, n != z])
        pd = self.resolve_range(st, dst, n, loc, True)
        ps = self.resolve_range(st, src, n, loc, False)
        if pd == 'ext':
            self.oblige(st, 'frame: no store outside the objects owned by the contract', FALSE, loc)
            raise Dead()
        if not pd.region.writable:
            self.oblige(st, 'frame: no store into read-only %s' % pd.region.name, FALSE, loc)
            raise Dead()
        if pd.kind != 'array' or ps != 'ext' and (ps.kind != 'array' or ps.ew != pd.ew):
            c = self.sole(st, n)
            if c is not None:
                return self.memcpy(st, dst, src, c, loc, move)
        if pd.kind != 'array':
            raise Unsupported('symbolic memcpy to cells')
        if ps == 'ext':
            f = self.uf('ext%d' % (pd.ew * 8), pd.ew * 8)
            snode = ('base', lambda a, f=f: f(a))
            sp = pd
        else:
            if ps.kind != 'array' or ps.ew != pd.ew:
                raise Unsupported('symbolic memcpy between different element widths')
            snode, sp = st.mem[ps], ps
        if not move and ps != 'ext' and ps is pd:
            lo1, lo2 = S(dst), S(src)
            self.oblige(st, 'memcpy ranges do not overlap',
                        z3.Or(d.ule(lo1 + n, lo2), d.ule(lo2 + n, lo1), lo1 == lo2), loc)
        if pd.ew > 1:
            self.oblige(st, 'aligned element copy', z3.And(d.aligned(S(dst - pd.lo(d)), pd.ew), d.aligned(n, pd.ew)), loc)
            if ps != 'ext':
                self.oblige(st, 'aligned element copy', d.aligned(S(src - ps.lo(d)), pd.ew), loc)
        st.mem[pd] = ('copy', st.mem[pd], S(dst), n, snode, S(src), sp)
        self.note_write(pd, None, None)


class _Done:
    def __init__(self, o):
        self.o = o


def _flatten(ctx, lst):
    """a list with at most _Done markers: wrap into a pseudo-outcome list handled by run"""
    if any(isinstance(x, _Done) for x in lst):
        return Multi(lst)
    return lst


class Multi(list):
    def __init__(self, lst):
        super().__init__(lst)


def _run_patched(self, init, stop=None):
    outs = []
    work = list(init)
    while work:
        st = work.pop()
        if isinstance(st, _Done):
            outs.append(st.o)
            self.npaths += 1
            continue
        try:
            r = self.step_path(st, stop)
        except Dead:
            continue
        if isinstance(r, Outcome):
            outs.append(r)
            self.npaths += 1
            if self.npaths > self.maxpaths:
                raise Unsupported('too many paths')
        elif r:
            work += r
    return outs


Ctx.run = _run_patched
_old_trial = Ctx.step_path_trial


def _trial(self, st, tr):
    if isinstance(st, _Done):
        return None
    return _old_trial(self, st, tr)


Ctx.step_path_trial = _trial

UBK = {'0': 'add overflow'}
UBK = {0: 'add overflow', 1: 'builtin unreachable', 3: 'division', 11: 'missing return', 12: 'multiply overflow',
       13: 'negate overflow', 18: 'array index', 20: 'shift', 21: 'subtract overflow', 22: 'type mismatch',
       8: 'invalid builtin'}

EXTERN = {}
EXTERN_PREFIX = []


def extern(*names):
    def deco(f):
        for n in names:
            if n.endswith('*'):
                EXTERN_PREFIX.append((n[:-1], f))
            else:
                EXTERN[n] = f
        return f
    return deco


@extern('_Znwm', '_Znam', '_ZnwmSt11align_val_t')
def op_new(ctx, st, ins, name, av, args, loc):
    d = ctx.dom
    n = S(av[0])
    ctx.trusted.add('operator new returns fresh, disjoint, 16-aligned storage of the requested size')
    base = st.fresh('new', 64)
    if d.name == 'int':
        base = S(16 * base)
    st.assume(z3.And(d.ule(d.const(1 << 44, 64), base), d.ule(base, d.const((1 << 45), 64)), d.aligned(base, 16)))
    # allocation of more than 2^44 bytes does not succeed
    st.assume(d.ule(n, d.const(1 << 44, 64)))
    if is_num(n) and not getattr(ctx.spec, 'heap_ew', None):
        r = Region('new%d' % next(ctx.cnt), base, num(n), [Part(0, num(n))], heap=True, zone=(1 << 44, 1 << 46))
    else:
        ew = getattr(ctx.spec, 'heap_ew', 8)
        lab = getattr(ctx.spec, 'heap_label', None)
        r = Region('new%d' % next(ctx.cnt), base, n if not is_num(n) else num(n),
                   [Part(0, n if not is_num(n) else num(n), 'array', ew, lab)], heap=True, zone=(1 << 44, 1 << 46))
    st.add_region(r)
    return base


@extern('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm')
def op_delete(ctx, st, ins, name, av, args, loc):
    d = ctx.dom
    a = S(av[0])
    if is_num(a) and num(a) == 0:
        return None
    regs = [r for r in st.regions if r.heap and r not in st.dead]
    for r in regs:
        if r.base.eq(a) or st.entails(a == r.base, quick=True):
            if len(av) > 1:
                sz = r.size if not isinstance(r.size, int) else d.const(r.size, 64)
                ctx.oblige(st, 'sized delete with the allocated size', av[1] == sz, loc)
            st.dead = st.dead | {r}
            st.rescache = {}
            return None
    z = a == d.const(0, 64)
    conds = [a == r.base for r in regs if st.feasible(a == r.base)]
    nz = st.feasible(z)
    if not nz and not conds or not st.entails(z3.Or(z, *conds), quick=True):
        ctx.oblige(st, 'delete of a live allocation', z3.Or(z, *conds), loc)
    if nz and not conds:
        return None
    raise Fork(conds + ([z] if nz else []))


@extern('__cxa_allocate_exception')
def cxa_alloc(ctx, st, ins, name, av, args, loc):
    d = ctx.dom
    n = num(S(av[0]))
    base = st.fresh('exc', 64)
    st.assume(z3.And(d.ule(d.const(1 << 45, 64), base), d.ule(base, d.const((1 << 46) - n, 64)), d.aligned(base, 16)))
    st.add_region(Region('exc%d' % next(ctx.cnt), base, n, [Part(0, n)], heap=True, zone=(1 << 44, 1 << 46)))
    return base


@extern('__cxa_free_exception', '__cxa_end_catch')
def cxa_nop(ctx, st, ins, name, av, args, loc):
    return None


@extern('__cxa_throw')
def cxa_throw(ctx, st, ins, name, av, args, loc):
    st.ghost['exc_type'] = None
    st.exc = (av[0], ctx.typeid(st, av[1]), str(S(av[1])))
    return ('throw', st.exc)


@extern('__cxa_rethrow')
def cxa_rethrow(ctx, st, ins, name, av, args, loc):
    return ('throw', st.exc)


@extern('__cxa_begin_catch')
def cxa_begin(ctx, st, ins, name, av, args, loc):
    return av[0]


@extern('__clang_call_terminate', '_ZSt9terminatev', 'abort', 'exit', '_exit')
def terminate(ctx, st, ins, name, av, args, loc):
    if getattr(ctx.spec, 'terminate_ok', False):
        return ('dead',)
    ctx.oblige(st, 'does not terminate the program', FALSE, loc)
    return ('dead',)


@extern('_ZSt20__throw_length_error*', '_ZSt17__throw_bad_allocv', '_ZSt19__throw_logic_error*', '_ZSt28__throw_bad_array_new_lengthv',
        '_ZSt24__throw_out_of_range_fmt*', '_ZSt20__throw_out_of_range*', '_ZSt25__throw_bad_function_callv', '_ZSt20__throw_system_error*',
        '_ZSt24__throw_invalid_argument*')
def std_throw(ctx, st, ins, name, av, args, loc):
    nm = name.split('__throw_')[1]
    for k in ('length_error', 'bad_alloc', 'logic_error', 'bad_array_new_length', 'out_of_range', 'bad_function_call',
              'system_error', 'invalid_argument'):
        if nm.startswith(k):
            nm = k
            break
    b = st.fresh('exc', 64)
    return ('throw', (b, st.fresh('tid', 32), 'std::' + nm))


@extern('_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt9bad_allocD1Ev', '_ZNSt9bad_allocD2Ev')
def exc_dtor(ctx, st, ins, name, av, args, loc):
    return None


@extern(*['_ZNSt%d%s%s*' % (len(n), n, k) for k in 'CD' for n in (
    'logic_error', 'domain_error', 'invalid_argument', 'length_error', 'out_of_range', 'runtime_error', 'range_error',
    'overflow_error', 'underflow_error')])
def std_error(ctx, st, ins, name, av, args, loc):
    ctx.trusted.add('constructors and destructors of the standard exception classes only touch the exception object and do not throw')
    return None


@extern('_ZSt21__glibcxx_assert_fail*')
def assert_fail(ctx, st, ins, name, av, args, loc):
    ctx.oblige(st, 'no libstdc++ precondition violation', FALSE, loc)
    return ('dead',)


@extern('__cxa_pure_virtual')
def pure(ctx, st, ins, name, av, args, loc):
    ctx.oblige(st, 'no pure virtual call', FALSE, loc)
    return ('dead',)

if os.environ.get('IRVC_SLOW'):
    _chk = State.check

    def _slow(self, *extra, ms=None):
        t0 = time.time()
        r = _chk(self, *extra, ms=ms)
        dt = time.time() - t0
        if dt > float(os.environ['IRVC_SLOW']):
            print('  SLOW %.2f %s %s facts=%d %s' % (dt, r, ms, len(self.facts), str(extra)[:400].replace('\n', ' ')))
        return r
    State.check = _slow
