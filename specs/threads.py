"""Contracts for the classes that own a thread (C22, C23, C24): pipeline_stage, pipeline_stage_pool, interval_event.

Method: rely and guarantee.  Every function that runs in one thread has a contract of its own; what the other threads may do in
between (the rely) is applied to the shared fields at every atomic operation and every call that may block, and every write to a
shared field has to be one the contract of its thread allows (the guarantee).  The thread function is verified from the state
the constructor has built at the moment it starts the thread."""
import re
import z3
from irvc.dom import S, TRUE, FALSE, num, is_num
from irvc.exec import Region, Part, Unsupported, Dead, Cand, Frame, Fork
from irvc.unit import Unit
from irvc import front
from registry import obj_base, ext_range, ext_ptr, put, get
from observed import Observed

NOINLINE = r'^_ZNK?St(5deque|11_Deque_base)|Deque_iterator|^_ZNSt11this_thread|^_ZNV?K?St11atomic_flag|^_ZNVK?St11atomic_flag|pipeline_stage.*(13time_for_unit|18buffer_utilization)E'
SAN = front.SAN.replace('signed-integer-overflow,', '')
LIM = 1 << 62


class Threaded(Observed):
    """common to all: the callback, thread start, clock, sleeping"""
    no_termination = True
    covers = ('returns',)

    def never_unroll(self, st):
        return st.ghost['phase'] == 'worker'

    def early_exits(self, st):
        # loops over the queues that may end early
        return 8 if st.ghost['phase'] == 'producer' else 0

    def narrow(self, st):
        return st.ghost['phase'] == 'worker'

    def common(self, ctx, st, rx):
        ctx.ext_range = ext_range(ctx.dom)
        ctx.opaque = re.compile(NOINLINE)
        self.L = front.find_layout(ctx.lay, rx)
        self.size = self.L.size
        self.snaps = []
        self.served = {}
        st.ghost['live'] = ()
        st.ghost['phase'] = 'caller'
        st.ghost['joined'] = 0
        self.fo = self.L.find(('func_', 'function_'), (r'^class std::function<',))
        if self.fo is None:
            raise Unsupported('no std::function found')

    def given(self, ctx, st):
        fb = obj_base(ctx, st, 'f', 32, 16)
        self.fp = Part(0, 32)
        st.add_region(Region('function', fb, 32, [self.fp], writable=False))
        self.nf = self.function(ctx, st, 'callback', [self.fp], 0)
        st.assume(self.nf['set'])
        return fb

    def outer(self, L, rx):
        """offsets of the outermost fields of a type"""
        h = [f for f in L.fields if re.search(rx, f[2]) and f[3] and f[3] != '<base>']
        return [f for f in h if not any(g is not f and g[1] < f[1] and g[0] <= f[0] and re.search(rx, g[2]) and g[3] == f[3] for g in h)]

    def own(self, ctx, st, size, align=8):
        self.o = obj_base(ctx, st, 'o', size, align)
        p = Part(0, size)
        self.parts = [p]
        self.reg = Region('object', self.o, size, [p])
        st.add_region(self.reg)
        return p

    def repart(self, st, parts):
        """the same object, seen with other rights: parts = [(off, size, guard)], the rest cannot be touched"""
        old = self.reg.parts[0]
        cells = st.mem[old]
        ps = []
        for off, size, guard in parts:
            p = Part(off, size)
            if getattr(guard, '__name__', '') == 'window':
                p.kind, p.window = 'window', guard
                ps.append(p)
                continue
            p.guard = guard[0] if isinstance(guard, tuple) else guard
            p.before_read = guard[1] if isinstance(guard, tuple) else None
            ps.append(p)
        r = Region('object', self.o, self.size, ps)
        st.regions = [r if q is self.reg else q for q in st.regions]
        del st.mem[old]
        for p in ps:
            if p.kind == 'window':
                continue
            st.mem[p] = {k: v for k, v in cells.items() if p.off <= k < p.off + p.size}
        st.rescache = {}
        return ps

    @staticmethod
    def read_only(what):
        def guard(ctx, st, p, off, v, w, loc):
            ctx.oblige(st, 'frame: %s is not written here' % what, FALSE, loc)
            raise Dead()
        return guard

    def word(self, st, off, w):
        return get(st, self.shared(st), off, w)

    def set(self, ctx, st, off, v, w):
        ps = self.shared(st)
        put(st, ps, off, v, w)
        for p in ps:
            if p.kind == 'cells' and p.off <= off < p.off + p.size:
                ctx.note_write(p, off, w // 8)

    def shared(self, st):
        for r in st.regions:
            if r.name == 'object':
                return r.parts
        raise Unsupported('object is gone')

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        d = ctx.dom
        if fv is not None:
            if st.ghost['phase'] == 'worker':
                return self.callback(ctx, st, fv, av, ins, loc)
            return Observed.on_event(self, ctx, st, fv, name, av, ins, loc)
        if name.startswith('_ZNSt6thread15_M_start_thread'):
            return self.start(ctx, st, av, loc)
        if name.startswith('_ZNSt6thread6_StateD'):
            return None
        if name.startswith('_ZNSt6chrono3_V2') and name.endswith('3nowEv'):
            ctx.trusted.add('the clock returns times within 73 years of its epoch')
            t = st.fresh('now', 64)
            st.assume(z3.And(t >= 0, t < LIM >> 1))
            st.ghost['now'] = t
            self.on_sync(ctx, st, 'clock', None, loc)
            return t
        if name.startswith('_ZNSt11this_thread') or name in ('nanosleep', 'sched_yield'):
            self.on_sync(ctx, st, 'sleep', None, loc)
            return None
        if re.search(r'(13time_for_unit|18buffer_utilization)E', name):
            # by contract: they only read the statistics (class Average); what they return is arbitrary
            return None
        if re.search(r'St5deque|_Deque_base|Deque_iterator', name):
            return self.deque(ctx, st, name, av, ins, loc)
        if name == '_ZNSt6thread4joinEv':
            return self.join(ctx, st, av, loc)
        return NotImplemented

    def deque(self, ctx, st, name, av, ins, loc):
        ctx.trusted.add('std::deque functions only touch the deque and its own storage, and do not throw')
        if re.match(r'_ZNK?St(5deque|11_Deque_base)', name) and not name.endswith(('5beginEv', '3endEv')):
            self.statistics(ctx, st, name, av[0], loc)
        t = ctx.mod.resolve(ins.ty) if ins.ty is not None else ('void',)
        if t[0] == 'ptr':
            return av[0] if re.search(r'E(pp|mm)E', name) else ext_fresh(ctx, st)
        return None

    def statistics(self, ctx, st, name, a, loc):
        pass

    def start(self, ctx, st, av, loc):
        """std::thread::_M_start_thread(state, ...): the new thread owns the state; it begins in the memory as it is now"""
        d = ctx.dom
        ctx.trusted.add('starting a thread succeeds')
        state = ctx.load(st, av[1], 64)
        self.snaps.append((st.copy(), S(state)))
        st.ghost['spawned'] = st.ghost.get('spawned', ()) + (len(self.snaps) - 1,)
        ctx.store(st, av[1], d.const(0, 64), 64)
        tid = st.fresh('thread', 64)
        st.assume(tid != d.const(0, 64))
        ctx.store(st, av[0], tid, 64)
        st.ghost['started'] = st.ghost.get('started', ()) + (tid,)
        for r in st.regions:
            if r.heap and r not in st.dead and st.entails(r.base == state, quick=True):
                st.dead = st.dead | {r}
                st.rescache = {}
        return None

    def join(self, ctx, st, av, loc):
        return NotImplemented

    def on_sync(self, ctx, st, op, a, loc):
        pass

    def run_thread(self, ctx, s, state, phase):
        """the thread function, found through the virtual table of the state object"""
        d = ctx.dom
        s = s.copy()
        s.ghost['phase'] = phase
        vt = ctx.load(s, state, 64)
        f = S(ctx.load(s, S(vt + d.const(16, 64)), 64))
        nm = str(f.decl().name()) if z3.is_const(f) else ''
        fn = ctx.mod.funcs.get(nm[1:]) if nm.startswith('@') else None
        if fn is None:
            raise Unsupported('thread function not found')
        ctx.stepped.add(fn.name)
        s.frames = [Frame(fn, ctx.mod)]
        s.frames[-1].env[fn.params[0][1]] = state
        if phase == 'worker':
            self.begin_thread(ctx, s, state)
        if s.check() == z3.unsat:
            ctx.oblige(s, 'the thread function is reached', FALSE)
        return ctx.run([s])


def ext_fresh(ctx, st):
    x = st.fresh('ext', 64)
    st.assume(z3.And(ctx.ext_range(x), ctx.ext_range(x + ctx.dom.const(1 << 20, 64)), ctx.dom.aligned(x, 8)))
    ctx.mark_ext(st, x)
    return x


class Pipeline(Threaded):
    """pipeline_stage (pool=0) and pipeline_stage_pool (pool=number of workers)"""

    def geometry(self, ctx):
        L = self.L
        d = ctx.dom
        arr = r'std::array<.*optional<'
        cnt = r'std::atomic<unsigned long>'
        if self.pool:
            base = self.outer(L, r'std::array<.*type_tag')
            q = [v for k, v in ctx.lay.items() if k.startswith('xitren::comm::pipeline_stage_pool<') and k.endswith('::type_tag')]
            if len(base) != 1 or len(q) != 1:
                raise Unsupported('layout of the pool')
            bases, Q = [base[0][0] + i * q[0].size for i in range(self.pool)], q[0]
            self.qsize = Q.size
        else:
            bases, Q = [0], L
            self.qsize = L.size
        a = self.outer(Q, arr)
        c = self.outer(Q, cnt)
        cl = self.outer(L, r'std::atomic<_Bool>')
        if len(a) != 1 or len(c) != 2 or len(cl) != 1:
            raise Unsupported('layout of the queue')
        head = [f for f in c if 'head' in f[3]]
        tail = [f for f in c if f[3] == 'tail' and f not in head]
        if not head:
            tail = tail or [c[1]]
            head = [f for f in c if f not in tail]
        tail = [f for f in c if f not in head]
        self.closed = cl[0][0]
        self.words = self.vs // self.ww * 8
        self.stride = (self.vs + 1 + self.va - 1) // self.va * self.va
        self.queues = [dict(head=b + head[0][0], tail=b + tail[0][0], slots=b + a[0][0], lo=b) for b in bases]
        th = self.outer(L, r'^class std::thread$')
        ve = self.outer(L, r'std::vector<class std::thread>')
        self.thread = th[0][0] if not self.pool and th else None
        self.vector = ve[0][0] if self.pool and ve else None
        if (self.vector if self.pool else self.thread) is None:
            raise Unsupported('no thread member found')

    def nwords(self):
        return [(i * 8, min(8, self.vs - i * 8) * 8) for i in range((self.vs + 7) // 8)]

    def item(self, ctx, k, i, w):
        return ctx.uf('item%d' % i, w)(k)

    # -- views
    def slot(self, q, j):
        return q['slots'] + j * self.stride

    def flag(self, st, q, j):
        return self.word(st, self.slot(q, j) + self.vs, 8)

    def place(self, ctx, st, k):
        """k mod N.  For an N that is no power of two the remainder is a function of which the proofs only know that it is below N
        (that the places of two items in a row differ is not needed: the slots are told apart by the number of their item)"""
        n = self.n
        k = S(k)
        if n & (n - 1) == 0:
            return S(k & z3.BitVecVal(n - 1, 64))
        if is_num(k):
            return z3.BitVecVal(num(k) % n, 64)
        r = ctx.uf('place', 64)(k)
        st.assume(z3.ULT(r, n))
        return r

    def urem(self, ctx, st, a, b, w):
        if w == 64 and num(b) == self.n:
            return self.place(ctx, st, a)
        return None

    # -- windows: the slots a thread may use, seen by the number of their item instead of by their index
    def hidden(self, name, size):
        p = Part(0, size)
        p.nocache = True
        Region(name, z3.BitVec(name + '!base', 64), size, [p])
        return p

    def window_of(self, q):
        """the part that stands for all slots of a queue"""
        def window(ctx, st, p, a, nb, write, loc, quick):
            off = S(a - self.o - ctx.dom.const(q['slots'], 64))
            ws = self.windows(ctx, st, q)
            for k, wp in ws:
                rel = S(off - self.place(ctx, st, k) * self.stride)
                if is_num(rel) and num(rel) + nb <= self.stride:
                    return ('cells', wp, num(rel))
            if quick:
                return None
            for k, wp in ws:
                pl = S(self.place(ctx, st, k) * self.stride)
                if st.check(z3.ULE(off - pl, self.stride - nb)) != z3.sat:
                    continue
                rel = S(ctx.model.eval(off - pl, model_completion=True))
                if not is_num(rel):
                    continue
                same = off == pl + rel
                if st.entails(same, quick=True):
                    return ('cells', wp, num(rel))
                raise Fork([same, z3.Not(same)])
            # a slot of other threads: it may hold anything
            if write:
                ctx.oblige(st, self.not_mine, FALSE, loc)
                raise Dead()
            wp = self.hidden('slot of others', nb)
            st.mem[wp] = {}

            def again(ctx, st, p, off, nb, loc):
                put(st, [p], 0, st.fresh('other', 8 * p.size), 8 * p.size)
            wp.before_read = again
            return ('cells', wp, 0)
        return window

    def w_flag(self, st, wp):
        return st.read_cells(wp, self.vs, 1)

    def w_is(self, st, wp, f):
        return z3.And(*[st.read_cells(wp, o, w // 8) == f(o // 8, w) for o, w in self.nwords()])

    def w_fill(self, st, wp, flag):
        for o, w in self.nwords():
            put(st, [wp], o, st.fresh('slot', w), w)
        put(st, [wp], self.vs, flag, 8)

    # -- set up
    def setup(self, ctx, st):
        d = ctx.dom
        cls = 'pipeline_stage_pool' if self.pool else 'pipeline_stage'
        self.common(ctx, st, r'xitren::comm::%s<.*quiet>' % cls)
        self.geometry(ctx)
        p = self.own(ctx, st, self.size)
        op = self.op
        if op == 'ctor':
            return [(st, [self.o, self.given(ctx, st)])]
        for q in self.queues:
            for k in ('head', 'tail'):
                v = d.var('%s_%d' % (k, self.queues.index(q)), 64)
                self.set(ctx, st, q[k], v, 64)
                st.assume(z3.ULT(v, LIM))
                ctx.inputs['%s of queue %d' % (k, self.queues.index(q))] = v
            h, t = self.word(st, q['head'], 64), self.word(st, q['tail'], 64)
            st.assume(z3.And(z3.ULE(h, t), z3.ULE(t - h, self.n)))
            for j in range(self.n if op == 'dtor' else 0):
                f = st.fresh('full', 8)
                st.assume(z3.ULE(f, 1))
                self.set(ctx, st, self.slot(q, j) + self.vs, f, 8)
                for o, w in self.nwords():
                    self.set(ctx, st, self.slot(q, j) + o, st.fresh('slot', w), w)
        if op == 'dtor':
            return self.setup_dtor(ctx, st)
        return self.setup_push(ctx, st)

    # -- constructor and worker
    def statistics(self, ctx, st, name, a, loc):
        if st.ghost['phase'] == 'worker' and self.pool:
            off = S(a - self.o)
            q = self.me
            ctx.oblige(st, 'a worker only uses the statistics of its own queue',
                       z3.And(z3.ULE(q['lo'], off), z3.ULT(off, q['lo'] + self.qsize)), loc)
        if st.ghost['phase'] == 'destroying' and re.search(r'D[012]Ev$', name):
            self.no_worker(ctx, st, loc)

    def begin_thread(self, ctx, s, state):
        d = ctx.dom
        q = self.me
        fo = self.fo
        ctx.oblige(s, 'a worker starts with an empty queue', z3.And(self.word(s, q['head'], 64) == 0, self.word(s, q['tail'], 64) == 0))
        ctx.oblige(s, 'a worker starts before the pipeline is closed', self.word(s, self.closed, 8) == 0)
        for j in range(self.n):
            ctx.oblige(s, 'a worker starts with empty slots', self.flag(s, q, j) == 0)
        f = self.read_function(s, self.shared(s), fo)
        ctx.oblige(s, 'a worker starts when its function is in place', z3.And(
            f['man'] == self.nf['man'], f['inv'] == self.nf['inv'],
            z3.Or(*[z3.And(l[0] == f['f0'], l[1] == f['f1'], l[2] == f['man'], l[3]) for l in s.ghost['live']])))
        parts = [(q['head'], 8, self.w_head), (q['tail'], 8, self.read_only('the number of items pushed')),
                 (q['slots'], self.n * self.stride, self.window_of(q)), (self.closed, 1, self.read_only('the closed flag')),
                 (fo, 32, self.read_only('the function'))]
        s.ghost['held'] = d.const(0, 8)
        s.ghost['done'] = d.const(0, 64)
        self.repart(s, parts)
        # the slot of the next item to take, and the one of the item taken whose place is not given back yet
        self.next, self.held = self.hidden('slot of the next item', self.stride), self.hidden('slot of the item taken', self.stride)
        for wp in (self.next, self.held):
            s.mem[wp] = {}
            self.w_fill(s, wp, d.const(0, 8))
            wp.guard = self.w_slot
        self.next.before_read = self.r_slot

    not_mine = 'a thread only writes the slots whose items or places it holds'

    def taken(self, st):
        """number of items taken so far"""
        return S(self.word(st, self.me['head'], 64) + z3.ZeroExt(56, st.ghost['held']))

    def windows(self, ctx, st, q):
        g = st.ghost
        if g['phase'] == 'producer':
            m = g['mine']
            return [(m[1], self.mine)] if m is not None and self.queues[m[0]] is q else []
        h, held = self.word(st, q['head'], 64), g['held']
        if not is_num(held):
            if st.entails(held == 0, quick=True):
                held = ctx.dom.const(0, 8)
            elif st.entails(held == 1, quick=True):
                held = ctx.dom.const(1, 8)
            else:
                raise Fork([held == 0, held == 1])
        if num(held) == 0:
            return [(h, self.next)]
        # with one slot only, the slot of the next item is the one that is held
        return [(h, self.held)] + ([(S(h + 1), self.next)] if self.n > 1 else [])

    def w_head(self, ctx, st, p, off, v, w, loc):
        q = self.me
        ok = off == q['head'] and w == 64
        ctx.oblige(st, 'the worker gives back one place at a time', z3.And(z3.BoolVal(ok), v == self.word(st, q['head'], 64) + 1) if ok else FALSE, loc)
        ctx.oblige(st, 'the slot is empty again before its place is given back', st.ghost['held'] == 1, loc)
        st.ghost['held'] = ctx.dom.const(0, 8)

    def w_slot(self, ctx, st, p, off, v, w, loc):
        fb = self.vs
        # what is in a slot stays as it is, except between taking its item and giving its place back
        if p is self.next:
            for i in range(w // 8):
                if off + i < fb:
                    same = S(ctx.dom.byte(v, w, i) == ctx.dom.byte(st.read_cells(p, off + i, 1), 8, 0))
                    ctx.oblige(st, 'the worker leaves the items that wait as they are', same, loc)
        if not off <= fb < off + w // 8:
            return
        new = S(ctx.dom.byte(v, w, fb - off))
        old = self.w_flag(st, p)
        if st.entails(new == old, quick=True):
            return
        ctx.oblige(st, 'the worker only empties slots', new == 0, loc)
        ctx.oblige(st, 'the worker empties the slot of the next item', z3.And(z3.BoolVal(p is self.next), old == 1, st.ghost['held'] == 0), loc)
        st.mem[self.held] = dict(st.mem[self.next])
        put(st, [self.held], fb, ctx.dom.const(0, 8), 8)
        ctx.note_write(self.held, 0, self.stride)
        self.w_fill(st, self.next, ctx.dom.const(0, 8))
        ctx.note_write(self.next, 0, self.vs + 1)
        st.ghost['held'] = ctx.dom.const(1, 8)

    def on_sync(self, ctx, st, op, a, loc):
        ph = st.ghost['phase']
        if ph == 'probe':
            self.set(ctx, st, self.closed, st.fresh('closed', 8), 8)
            off = S(a - self.o) if a is not None and op != 'sleep' else None
            if off is not None and is_num(off):
                for i, q in enumerate(self.queues):
                    if q['lo'] <= num(off) < q['lo'] + self.qsize:
                        self.seen.add(i)
                        raise Dead()
        elif ph == 'worker':
            # others neither see nor change what only the worker writes: their steps commute with its accesses to it
            if a is not None and op not in ('sleep', 'clock') and not S(a - self.o).eq(ctx.dom.const(self.me['head'], 64)):
                self.env_worker(ctx, st, loc)
        elif ph == 'producer' and self.conc and a is not None:
            self.env_producer(ctx, st, a)

    def env_worker(self, ctx, st, loc):
        """producers push into free places; the owner closes the pipeline when all pushes are complete"""
        d = ctx.dom
        q = self.me
        h, t, c = self.word(st, q['head'], 64), self.word(st, q['tail'], 64), self.word(st, self.closed, 8)
        t2, c2 = st.fresh('pushed', 64), st.fresh('closed', 8)
        st.assume(z3.And(z3.ULE(t, t2), z3.ULE(t2, h + self.n), z3.ULT(t2, LIM), z3.ULE(c, c2), z3.ULE(c2, 1), z3.Implies(c == 1, t2 == t)))
        self.set(ctx, st, q['tail'], t2, 64)
        self.set(ctx, st, self.closed, c2, 8)

    def r_slot(self, ctx, st, p, off, nb, loc):
        """the worker reads the slot of the next item: a producer may have filled it by now, if the item is pushed (the steps of the
        producers on the other slots can as well happen later).  When the pipeline is closed all pushes are complete"""
        q = self.me
        if off > self.vs:
            return
        e = self.w_flag(st, p)
        if st.entails(e == 1, quick=True):
            return    # an item that waits stays as it is
        k = self.taken(st)
        t, c = self.word(st, q['tail'], 64), self.word(st, self.closed, 8)
        e2 = st.fresh('full', 8)
        st.assume(z3.And(z3.ULE(e2, 1), z3.Implies(e == 1, e2 == 1), z3.Implies(e2 == 1, z3.ULT(k, t)),
                         z3.Implies(z3.And(c == 1, z3.ULT(k, t)), e2 == 1)))
        for o, w in self.nwords():
            v = st.fresh('slot', w)
            st.assume(z3.Implies(e2 == 1, v == self.item(ctx, k, o // 8, w)))
            put(st, [p], o, v, w)
        put(st, [p], self.vs, e2, 8)
        ctx.note_write(p, 0, self.vs + 1)

    def callback(self, ctx, st, fv, av, ins, loc):
        d = ctx.dom
        q = self.me
        done = st.ghost['done']
        f = self.read_function(st, self.shared(st), self.fo)
        ctx.oblige(st, 'the function of the pipeline is called', fv == f['inv'], loc)
        ctx.oblige(st, 'the function runs on its own target', av[0] == self.o + self.fo, loc)
        ctx.oblige(st, 'an item is processed once, after it was pushed', z3.ULT(done, self.taken(st)), loc)
        if len(av) < 4:
            return NotImplemented
        ctx.oblige(st, 'no error is reported', ctx.load(st, av[1], 32) == 0, loc)
        for o, w in self.nwords():
            ctx.oblige(st, 'items are processed unchanged and in the order pushed',
                       ctx.load(st, S(av[2] + d.const(o, 64)), w) == self.item(ctx, done, o // 8, w), loc)
        if self.pool:
            ctx.oblige(st, 'the function is told which worker calls it', ctx.load(st, av[3], 32) == self.queues.index(q), loc)
        st.ghost['done'] = S(done + 1)
        if not ctx.mute:
            self.hit.add('item processed')
        return None

    def candidates(self, ctx, st, lvs, init):
        if st.ghost['phase'] != 'worker':
            return []
        q = self.me
        out = []

        def g(fn):
            return lambda v: fn(v.st)
        H = lambda s: self.word(s, q['head'], 64)
        T = lambda s: self.word(s, q['tail'], 64)
        C = lambda s: self.word(s, self.closed, 8)
        taken = self.taken
        for x in (0, 1):
            out.append(Cand('%d taken' % x, g(lambda s, x=x: s.ghost['held'] == x)))
        out.append(Cand('one or none taken', g(lambda s: z3.ULE(s.ghost['held'], 1))))
        done = lambda s: s.ghost['done']
        out.append(Cand('all items taken are processed', g(lambda s: done(s) == taken(s))))
        out.append(Cand('head <= tail', g(lambda s: z3.ULE(H(s), T(s)))))
        out.append(Cand('tail <= head+N', g(lambda s: z3.ULE(T(s), H(s) + self.n))))
        out.append(Cand('tail in range', g(lambda s: z3.ULT(T(s), LIM))))
        out.append(Cand('an item waits', g(lambda s: z3.ULT(H(s), T(s)))))
        out.append(Cand('closed is a flag', g(lambda s: z3.ULE(C(s), 1))))
        out.append(Cand('closed', g(lambda s: C(s) == 1)))
        def fn(s):
            e = self.w_flag(s, self.next)
            k = taken(s)
            return z3.And(z3.ULE(e, 1), z3.Implies(e == 1, z3.And(
                z3.ULT(k, T(s)), self.w_is(s, self.next, lambda i, w: self.item(ctx, k, i, w)))))
        out.append(Cand('the next slot holds its item or is empty', g(fn)))
        out.append(Cand('the next slot holds its item', g(lambda s: self.w_flag(s, self.next) == 1)))
        out.append(Cand('the slot held is empty', g(lambda s: z3.Implies(s.ghost['held'] == 1, self.w_flag(s, self.held) == 0))))
        return out

    def post_ctor(self, ctx, o):
        st = o.st
        if o.kind != 'ret':
            ctx.oblige(st, 'post: only an exception of the function object escapes', z3.BoolVal(st.ghost.get('threw', False)))
            ctx.prove(st, 'post: nothing is leaked', z3.And(*[z3.Not(l[3]) for l in st.ghost['live']]))
            return None
        want = self.pool or 1
        ctx.oblige(st, 'post: one thread per queue', z3.BoolVal(len(st.ghost.get('spawned', ())) == want))
        # the handles of the threads are kept, so that the destructor can wait for them
        ids = st.ghost.get('started', ())
        if self.pool:
            b, e = get(st, self.parts, self.vector, 64), get(st, self.parts, self.vector + 8, 64)
            ctx.oblige(st, 'post: all threads are kept', e == b + 8 * want)
            if len(ids) == want:
                for i in range(want):
                    ctx.oblige(st, 'post: all threads are kept', ctx.load(st, S(b + ctx.dom.const(8 * i, 64)), 64) == ids[i])
        elif len(ids) == 1:
            ctx.oblige(st, 'post: the thread is kept', get(st, self.parts, self.thread, 64) == ids[0])
        for k, i in enumerate(st.ghost.get('spawned', ())):
            if i not in self.served:
                self.served[i] = self.worker(ctx, *self.snaps[i], run=self.nth is None or k == self.nth)
        ctx.oblige(st, 'post: every queue is served by one worker', z3.BoolVal(
            sorted(self.served[i] for i in st.ghost.get('spawned', ())) == list(range(want))))
        return ['returns']

    def worker(self, ctx, s, state, run=True):
        """the worker: the number of the queue it serves"""
        which = 0
        if len(self.queues) > 1:
            # the queue whose counters it looks at first
            self.seen = set()
            ctx.mute += 1
            try:
                self.run_thread(ctx, s, state, 'probe')
            finally:
                ctx.mute -= 1
            ctx.oblige(s, 'a worker serves one queue', z3.BoolVal(len(self.seen) == 1))
            if not self.seen:
                return None
            which = min(self.seen)
        if not run:
            return which
        self.me = self.queues[which]
        for w in self.run_thread(ctx, s, state, 'worker'):
            if w.kind == 'backedge':
                continue
            ctx.oblige(w.st, 'the worker does not throw', z3.BoolVal(w.kind == 'ret'))
            if w.kind == 'ret':
                ctx.oblige(w.st, 'a worker only ends when the pipeline is closed', self.word(w.st, self.closed, 8) == 1)
                ctx.oblige(w.st, 'a worker only ends when every item has been processed',
                           z3.And(w.st.ghost['done'] == self.word(w.st, self.me['tail'], 64)))
                self.hit.add('worker ends')
        return which

    # -- destructor
    def setup_dtor(self, ctx, st):
        d = ctx.dom
        st.ghost['phase'] = 'destroying'
        self.f = self.function(ctx, st, 'callback', self.parts, self.fo)
        st.assume(self.f['set'])
        st.ghost['live'] = ((self.f['f0'], self.f['f1'], self.f['man'], self.f['set']),)
        self.set(ctx, st, self.closed, d.const(0, 8), 8)
        self.ids = []
        if self.pool:
            b = st.fresh('threads', 64)
            st.assume(z3.And(d.ule(d.const(1 << 44, 64), b), d.ule(b, d.const((1 << 45), 64)), d.aligned(b, 16)))
            tp = Part(0, 8 * self.pool)
            st.add_region(Region('threads', b, 8 * self.pool, [tp], heap=True))
            for i in range(self.pool):
                v = st.fresh('thread', 64)
                st.assume(v != 0)
                put(st, [tp], 8 * i, v, 64)
                self.ids.append(S(b + d.const(8 * i, 64)))
            self.set(ctx, st, self.vector, b, 64)
            self.set(ctx, st, self.vector + 8, S(b + d.const(8 * self.pool, 64)), 64)
            self.set(ctx, st, self.vector + 16, S(b + d.const(8 * self.pool, 64)), 64)
        else:
            v = st.fresh('thread', 64)
            st.assume(v != 0)
            self.set(ctx, st, self.thread, v, 64)
            self.ids.append(S(self.o + d.const(self.thread, 64)))
        return [(st, [self.o])]

    def join(self, ctx, st, av, loc):
        d = ctx.dom
        if st.ghost['phase'] != 'destroying':
            return NotImplemented
        ctx.oblige(st, 'the pipeline is closed before its threads are waited for', self.word(st, self.closed, 8) == 1, loc)
        ctx.oblige(st, 'a thread of the pipeline is waited for', z3.Or(*[av[0] == i for i in self.ids]), loc)
        ctx.oblige(st, 'a thread is waited for once', ctx.load(st, av[0], 64) != 0, loc)
        ctx.store(st, av[0], d.const(0, 64), 64)
        st.ghost['joined'] = st.ghost['joined'] + 1
        return None

    def no_worker(self, ctx, st, loc=None):
        ctx.oblige(st, 'nothing is destroyed while a thread runs', z3.BoolVal(st.ghost['joined'] == (self.pool or 1)), loc)

    def post_dtor(self, ctx, o):
        st = o.st
        ctx.oblige(st, 'post: the destructor returns', z3.BoolVal(o.kind == 'ret'))
        self.no_worker(ctx, st)
        ctx.prove(st, 'post: the function is destroyed', z3.And(*[z3.Not(l[3]) for l in st.ghost['live']]))
        return ['returns']

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        if fv is not None and st.ghost['phase'] == 'destroying':
            self.no_worker(ctx, st, loc)
        if name == '_ZNSt6thread6detachEv':
            ctx.oblige(st, 'the threads of the pipeline are waited for, not left alone', FALSE, loc)
            raise Dead()
        return Threaded.on_event(self, ctx, st, fv, name, av, ins, loc)

    # -- push
    def setup_push(self, ctx, st):
        d = ctx.dom
        st.ghost['phase'] = 'producer'
        b = obj_base(ctx, st, 'v', self.vs, 8)
        vp = Part(0, self.vs)
        st.add_region(Region('item', b, self.vs, [vp], writable=self.op == 'pushr'))
        self.data = []
        for o, w in self.nwords():
            v = d.var('item_%d' % o, w)
            put(st, [vp], o, v, w)
            self.data.append(v)
            ctx.inputs['item word %d' % (o // 8)] = v
        st.ghost['mine'] = None
        self.mine = self.hidden('slot of the place reserved', self.stride)
        parts = []
        for q in self.queues:
            parts += [(q['head'], 8, self.read_only('the number of items taken')), (q['tail'], 8, self.p_tail),
                      (q['slots'], self.n * self.stride, self.window_of(q))]
        self.set(ctx, st, self.closed, d.const(0, 8), 8)
        parts.append((self.closed, 1, self.read_only('the closed flag')))
        used = sorted(parts, key=lambda x: x[0])
        at = 0
        for off, size, _ in list(used):
            if at < off:
                parts.append((at, off - at, self.read_only('the rest of the object')))
            at = off + size
        if at < self.size:
            parts.append((at, self.size - at, self.read_only('the rest of the object')))
        self.repart(st, sorted(parts, key=lambda x: x[0]))
        self.before = [dict(head=self.word(st, q['head'], 64), tail=self.word(st, q['tail'], 64)) for q in self.queues]
        self.start_mem = {p: dict(c) for p, c in st.mem.items() if isinstance(c, dict)}
        return [(st, [self.o, b])]

    def p_tail(self, ctx, st, p, off, v, w, loc):
        qi = [i for i, q in enumerate(self.queues) if q['tail'] == off]
        ctx.oblige(st, 'a place is reserved in one atomic step', z3.BoolVal(bool(qi) and w == 64 and ctx.in_rmw), loc)
        ctx.oblige(st, 'one place is reserved', z3.BoolVal(st.ghost['mine'] is None), loc)
        if not qi:
            raise Dead()
        q = self.queues[qi[0]]
        i = self.word(st, q['tail'], 64)
        ctx.oblige(st, 'one place is reserved', v == i + 1, loc)
        # there is room (the precondition of push), and a free place has an empty slot
        st.assume(z3.ULT(i - self.word(st, q['head'], 64), self.n))
        st.mem[self.mine] = {}
        self.w_fill(st, self.mine, ctx.dom.const(0, 8))
        st.ghost['mine'] = (qi[0], i)

    def env_producer(self, ctx, st, a):
        """the workers take items, other threads push: what is seen of a queue when one of its counters is looked at"""
        m = st.ghost['mine']
        for qi, q in enumerate(self.queues):
            if not any(S(a - self.o).eq(ctx.dom.const(q[k], 64)) for k in ('head', 'tail')):
                continue
            h, t = self.word(st, q['head'], 64), self.word(st, q['tail'], 64)
            h2, t2 = st.fresh('taken', 64), st.fresh('pushed', 64)
            st.assume(z3.And(z3.ULE(h, h2), z3.ULE(h2, t2), z3.ULE(t, t2), z3.ULE(t2 - h2, self.n), z3.ULT(t2, LIM)))
            if m is not None and m[0] == qi:
                st.assume(z3.ULE(h2, m[1]))
            self.set(ctx, st, q['head'], h2, 64)
            self.set(ctx, st, q['tail'], t2, 64)

    def post_push(self, ctx, o):
        st = o.st
        ctx.oblige(st, 'post: push returns', z3.BoolVal(o.kind == 'ret'))
        m = st.ghost['mine']
        ctx.oblige(st, 'post: one place is reserved', z3.BoolVal(m is not None))
        if m is None or o.kind != 'ret':
            return None
        q = self.queues[m[0]]
        ctx.prove(st, 'post: the item is in the slot of its place', z3.And(
            self.w_flag(st, self.mine) == 1, self.w_is(st, self.mine, lambda i, w: self.data[i])))
        if self.conc:
            return ['returns']
        size = lambda i: self.before[i]['tail'] - self.before[i]['head']
        if self.pool:
            ctx.prove(st, 'post: the least loaded worker gets the item', z3.And(*[
                z3.ULE(size(m[0]), size(i)) for i in range(self.pool) if i != m[0]]))
        ctx.prove(st, 'post: the place is the next one', z3.And(m[1] == self.before[m[0]]['tail'],
                                                                self.word(st, q['tail'], 64) == m[1] + 1))
        # frame: every other byte of the object (that no other slot is written is an obligation of each write)
        for p, c0 in self.start_mem.items():
            for off, e in c0.items():
                if e[2] or q['tail'] <= off < q['tail'] + 8:
                    continue
                ctx.prove(st, 'frame: nothing else changes', st.read_cells(p, off, e[1] // 8) == e[0])
        return ['returns']

    def post(self, ctx, o):
        if self.op == 'ctor':
            return self.post_ctor(ctx, o)
        if self.op == 'dtor':
            return self.post_dtor(ctx, o)
        return self.post_push(ctx, o)

    @property
    def covers(self):
        return ('returns', 'item processed', 'worker ends') if self.op == 'ctor' else ('returns',)


class Interval(Threaded):
    """interval_event.  The flag keep_running_ is 1 while the worker runs; the owner clears it to ask the worker to end, and the
    worker sets it again (by test_and_set) when it ends and touches the object no more."""
    MS = 1000000

    def setup(self, ctx, st):
        d = ctx.dom
        self.common(ctx, st, r'xitren::func::interval_event')
        fl = self.outer(self.L, r'^struct std::atomic_flag$')
        ms = self.outer(self.L, r'^(time_type|(class )?std::chrono::(duration|milliseconds))')
        th = self.outer(self.L, r'^class std::thread$')
        bl = [f for f in self.L.fields if f[2] in ('_Bool', 'bool') and f[3] == 'stop_']
        if len(fl) != 1 or len(th) != 1 or len(ms) != 2 or len(bl) != 1:
            raise Unsupported('layout of interval_event')
        chk = [f for f in ms if 'check' in f[3]] or [ms[1]]
        self.flag, self.thread, self.stopped = fl[0][0], th[0][0], bl[0][0]
        self.check = chk[0][0]
        self.period = [f for f in ms if f is not chk[0]][0][0]
        p = self.own(ctx, st, self.size)
        op = self.op
        st.ghost['ended'] = d.const(0, 8)
        if op in ('ctor', 'ctor0'):
            args = [self.o, self.given(ctx, st)]
            self.want = (d.const(100, 64), d.const(20, 64))
            if op == 'ctor':
                self.want = (d.var('period', 64), d.var('check', 64))
                for x in self.want:
                    st.assume(self.in_range(x))
                ctx.inputs['period'], ctx.inputs['check'] = self.want
            return [(st, args + list(self.want if op == 'ctor' else ()))]
        for off in range(0, self.size, 8):
            self.set(ctx, st, off, st.fresh('pre_%d' % off, 64), 64)
        self.f = self.function(ctx, st, 'callback', self.parts, self.fo)
        st.assume(self.f['set'])
        st.ghost['live'] = ((self.f['f0'], self.f['f1'], self.f['man'], self.f['set']),)
        st.ghost['phase'] = 'owner'
        s, fg = d.var('stopped', 8), d.var('flag', 8)
        ctx.inputs['stopped'] = s
        st.ghost['ended'] = S(s)
        st.assume(z3.And(z3.ULE(s, 1), fg == 1))
        self.set(ctx, st, self.stopped, s, 8)
        self.set(ctx, st, self.flag, fg, 8)
        self.set(ctx, st, self.thread, d.const(0, 64), 64)
        self.per = (d.var('period', 64), d.var('check', 64))
        for off, v in zip((self.period, self.check), self.per):
            st.assume(self.in_range(v))
            self.set(ctx, st, off, v, 64)
        self.pre = dict(st.mem[p])
        args = [self.o]
        if op in ('set_period', 'set_check'):
            b = obj_base(ctx, st, 'v', 8, 8)
            vp = Part(0, 8)
            st.add_region(Region('value', b, 8, [vp], writable=False))
            self.val = d.var('given', 64)
            put(st, [vp], 0, self.val, 64)
            ctx.inputs['given'] = self.val
            args.append(b)
        return [(st, args)]

    def in_range(self, x):
        return z3.ULT(x, 1 << 40)

    # -- the flag
    def on_event(self, ctx, st, fv, name, av, ins, loc):
        d = ctx.dom
        if fv is not None and st.ghost['phase'] == 'owner' and len(av) == 3:
            ctx.oblige(st, 'nothing is destroyed while the thread runs', st.ghost['ended'] == 1, loc)
        if fv is not None:
            return Threaded.on_event(self, ctx, st, fv, name, av, ins, loc)
        m = re.match(r'_ZNV?K?St11atomic_flag(C[12]Eb|(\d+)(\w+))', name)
        if m:
            return self.flag_op(ctx, st, m.group(3)[:int(m.group(2))] if m.group(2) else 'C', av, loc)
        if name == '_ZNSt6thread6detachEv':
            ctx.oblige(st, 'a running thread is detached', ctx.load(st, av[0], 64) != 0, loc)
            ctx.store(st, av[0], d.const(0, 64), 64)
            return None
        m = re.match(r'_ZNSt11this_thread9sleep_forI[a-z](St5ratioILl1ELl(\d+)EE|S\w_)', name)
        if m and st.ghost['phase'] == 'worker' and m.group(2):
            g = st.ghost
            v = ctx.load(st, av[0], 64)
            k = int(m.group(2)) // 1000
            if k >= 1:
                c = self.peek(st, self.check)
                ok = z3.Or(v == c * k, v == g['c0'] * k)
                ctx.oblige(st, 'between two checks the thread sleeps for the interval set', z3.Or(g['round'] == 0, ok), loc)
            g['slept'] = d.const(1, 8)
        return Threaded.on_event(self, ctx, st, fv, name, av, ins, loc)

    def flag_op(self, ctx, st, op, av, loc):
        d = ctx.dom
        g = st.ghost
        if op.startswith('C'):
            ctx.store(st, av[0], self.byte(av[1]), 8)
            return None
        if op in ('notify_one', 'notify_all'):
            # only uses the address
            ctx.oblige(st, 'the flag of this object', av[0] == self.o + self.flag, loc)
            if g['phase'] == 'worker':
                g['notified'] = g['ended']
            return None
        ctx.oblige(st, 'the flag of this object', av[0] == self.o + self.flag, loc)
        F = self.peek(st, self.flag)
        if g['phase'] == 'worker':
            if op == 'test_and_set' or op == 'test':
                ctx.oblige(st, 'the object is not touched after the worker has told that it ended', g['ended'] == 0, loc)
                f = st.fresh('flag', 8)
                st.assume(z3.And(z3.ULE(f, 1), z3.Implies(F == 0, f == 0)))
                if op == 'test':
                    self.poke(ctx, st, self.flag, f, 8)
                    return S(f == 1)
                self.end_round(ctx, st, loc)
                self.poke(ctx, st, self.flag, d.const(1, 8), 8)
                g['ended'] = S(z3.If(f == 0, d.const(1, 8), d.const(0, 8)))
                return S(f == 1)
            ctx.oblige(st, 'the worker only tests and sets the flag', FALSE, loc)
            raise Dead()
        if g['phase'] != 'owner':
            return NotImplemented
        E = g['ended']
        if op == 'clear':
            self.set(ctx, st, self.flag, d.const(0, 8), 8)
            return None
        # while the flag is clear, the worker may end; nobody else changes the flag
        if op == 'wait':
            old = self.byte(av[1])
            ctx.oblige(st, 'stop() returns', z3.Not(z3.And(F == old, z3.Or(F == 1, E == 1))), loc)
            e = S(z3.If(z3.And(F == 0, old == 0), d.const(1, 8), E))
            self.set(ctx, st, self.flag, S(z3.If(e == 1, d.const(1, 8), F)), 8)
            g['ended'] = e
            return None
        if op == 'test':
            e = st.fresh('ended', 8)
            st.assume(z3.And(z3.ULE(e, 1), z3.Implies(E == 1, e == 1), z3.Implies(F == 1, e == E)))
            self.set(ctx, st, self.flag, S(z3.If(z3.And(F == 0, e == 1, E == 0), d.const(1, 8), F)), 8)
            g['ended'] = e
            return S(self.peek(st, self.flag) == 1)
        ctx.oblige(st, 'the owner only clears the flag', FALSE, loc)
        raise Dead()

    @staticmethod
    def byte(b):
        if z3.is_bool(b):
            return S(z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        return b if b.size() == 8 else S(z3.ZeroExt(8 - b.size(), b))

    def peek(self, st, off):
        return self.word(st, off, 8 if off in (self.flag, self.stopped) else 64)

    def poke(self, ctx, st, off, v, w):
        self.set(ctx, st, off, v, w)

    # -- constructor and worker
    def begin_thread(self, ctx, s, state):
        d = ctx.dom
        f = self.read_function(s, self.shared(s), self.fo)
        ctx.oblige(s, 'the thread starts when its function is in place', z3.And(
            f['man'] == self.nf['man'], f['inv'] == self.nf['inv'],
            z3.Or(*[z3.And(l[0] == f['f0'], l[1] == f['f1'], l[2] == f['man'], l[3]) for l in s.ghost['live']])))
        ctx.oblige(s, 'the thread starts when its flag is set', self.peek(s, self.flag) == 1)
        ctx.oblige(s, 'the thread starts when its period and its interval are set',
                   z3.And(self.peek(s, self.period) == self.want[0], self.peek(s, self.check) == self.want[1]))
        per, chk = s.fresh('period', 64), s.fresh('check', 64)
        for off, v in ((self.period, per), (self.check, chk)):
            s.assume(self.in_range(v))
            self.set(ctx, s, off, v, 64)
        g = s.ghost
        for k in ('ended', 'notified', 'round', 'seen', 'slept', 'called', 'pending', 'begun'):
            g[k] = d.const(0, 8)
        g['lo'] = g['hi'] = g['now'] = d.const(0, 64)
        g['pl'] = g['ph'] = self.ns(ctx, s, per)
        g['c0'] = chk
        alive = self.alive
        ro = self.read_only
        self.repart(s, [(self.fo, 32, (ro('the function'), alive)), (self.flag, 1, (ro('the flag'), self.no_plain)),
                        (self.period, 8, (ro('the period'), self.r_period)), (self.check, 8, (ro('the interval'), self.r_check))])

    def alive(self, ctx, st, p, off, nb, loc):
        ctx.oblige(st, 'the object is not touched after the worker has told that it ended', st.ghost['ended'] == 0, loc)

    def no_plain(self, ctx, st, p, off, nb, loc):
        ctx.oblige(st, 'the flag is only used atomically', FALSE, loc)

    def r_period(self, ctx, st, p, off, nb, loc):
        """the owner may have changed the period"""
        self.alive(ctx, st, p, off, nb, loc)
        v = st.fresh('period', 64)
        st.assume(self.in_range(v))
        self.set(ctx, st, self.period, v, 64)
        g = st.ghost
        t = self.ns(ctx, st, v)
        g['pl'] = S(z3.If(z3.ULT(t, g['pl']), t, g['pl']))
        g['ph'] = S(z3.If(z3.ULT(g['ph'], t), t, g['ph']))

    def r_check(self, ctx, st, p, off, nb, loc):
        self.alive(ctx, st, p, off, nb, loc)
        v = st.fresh('check', 64)
        st.assume(self.in_range(v))
        self.set(ctx, st, self.check, v, 64)

    def ns(self, ctx, st, p):
        """p milliseconds in nanoseconds: a function of which the proofs know only these facts (lemma)"""
        p = S(p)
        if is_num(p):
            return S(p * self.MS)
        t = ctx.uf('nanoseconds', 64)(p)
        st.assume(z3.Implies(z3.ULT(p, 1 << 40), z3.And(z3.ULE(p, t), z3.ULT(t, 1 << 60))))
        return t

    def mul(self, ctx, st, a, k, w):
        if k == self.MS and w == 64 and st.ghost['phase'] == 'worker':
            return self.ns(ctx, st, a)
        return None

    def lemma(self, ctx):
        s = z3.Solver()
        p = z3.Int('p')
        s.add(p >= 0, p < 1 << 40, z3.Not(z3.And(p <= p * self.MS, p * self.MS < 1 << 60)))
        rec = ctx.oblig.setdefault('lemma: milliseconds in nanoseconds do not overflow', [0, 0, 0, None])
        rec[0 if s.check() == z3.unsat else 1] += 1

    def on_sync(self, ctx, st, op, a, loc):
        g = st.ghost
        if g['phase'] == 'worker' and op == 'clock':
            g['seen'] = ctx.dom.const(1, 8)
            t = g['now']
            if not S(g['begun']).eq(ctx.dom.const(1, 8)):
                first = g['begun'] == 0
                g['lo'] = S(z3.If(first, t, g['lo']))
                g['hi'] = S(z3.If(first, t, g['hi']))
                g['begun'] = ctx.dom.const(1, 8)

    def settle(self, st):
        """a call was made in this round: the next is due one period later"""
        g = st.ghost
        lo, hi = self.due(st)
        g['lo'], g['hi'] = S(lo), S(hi)
        g['pending'] = z3.BitVecVal(0, 8)

    def due(self, st):
        g = st.ghost
        cap = z3.BitVecVal(1 << 62, 64)
        p = g['pending'] == 1
        h = S(g['hi'] + g['ph'])
        return z3.If(p, g['lo'] + g['pl'], g['lo']), z3.If(p, z3.If(z3.ULT(cap, h), cap, h), g['hi'])

    def callback(self, ctx, st, fv, av, ins, loc):
        d = ctx.dom
        g = st.ghost
        f = self.read_function(st, self.shared(st), self.fo)
        ctx.oblige(st, 'the function given is called', fv == f['inv'], loc)
        ctx.oblige(st, 'the function runs on its own target', av[0] == self.o + self.fo, loc)
        ctx.oblige(st, 'the function is not called after the worker has told that it ended', g['ended'] == 0, loc)
        self.settle(st)
        ctx.oblige(st, 'the function is not called before it is due', z3.And(g['begun'] == 1, z3.ULE(g['lo'], g['now'])), loc)
        g['pending'] = g['called'] = d.const(1, 8)
        if not ctx.mute:
            self.hit.add('function called')
        return None

    def end_round(self, ctx, st, loc):
        d = ctx.dom
        g = st.ghost
        ctx.oblige(st, 'a call that is due is made at the next check', z3.Or(
            g['round'] == 0, self.peek(st, self.flag) == 0, g['called'] == 1, z3.And(g['seen'] == 1, z3.ULT(g['now'], g['hi'] + g['ph']))), loc)
        ctx.oblige(st, 'between two checks the thread sleeps for the interval set', z3.Or(g['round'] == 0, g['slept'] == 1), loc)
        self.settle(st)
        p = self.ns(ctx, st, self.peek(st, self.period))
        g['pl'] = g['ph'] = p
        g['c0'] = self.peek(st, self.check)
        g['round'] = d.const(1, 8)
        for k in ('seen', 'slept', 'called'):
            g[k] = d.const(0, 8)

    def candidates(self, ctx, st, lvs, init):
        if st.ghost['phase'] != 'worker':
            return []
        out = []
        for k in ('ended', 'notified', 'round', 'seen', 'slept', 'called', 'pending', 'begun'):
            for x in (0, 1):
                out.append(Cand('%s is %d' % (k, x), lambda v, k=k, x=x: v.st.ghost[k] == x))
            out.append(Cand('%s is a flag' % k, lambda v, k=k: z3.ULE(v.st.ghost[k], 1)))
        G = lambda k: (lambda v: v.st.ghost[k])
        out.append(Cand('due times in range', lambda v: z3.ULE(v.st.ghost['hi'], 1 << 62)))
        out.append(Cand('due times are ordered', lambda v: z3.ULE(v.st.ghost['lo'], v.st.ghost['hi'])))
        out.append(Cand('clock in range', lambda v: z3.ULT(v.st.ghost['now'], LIM >> 1)))
        for k in ('pl', 'ph'):
            out.append(Cand('%s in range' % k, lambda v, k=k: z3.ULT(v.st.ghost[k], 1 << 60)))
        for k in ('c0',):
            out.append(Cand('%s in range' % k, lambda v, k=k: self.in_range(v.st.ghost[k])))
        out.append(Cand('period in range', lambda v: self.in_range(self.peek(v.st, self.period))))
        out.append(Cand('interval in range', lambda v: self.in_range(self.peek(v.st, self.check))))
        out.append(Cand('pl is the period', lambda v: v.st.ghost['pl'] == self.ns(ctx, v.st, self.peek(v.st, self.period))))
        out.append(Cand('ph is the period', lambda v: v.st.ghost['ph'] == self.ns(ctx, v.st, self.peek(v.st, self.period))))
        out.append(Cand('c0 is the interval', lambda v: v.st.ghost['c0'] == self.peek(v.st, self.check)))
        out.append(Cand('pl <= ph', lambda v: z3.ULE(v.st.ghost['pl'], v.st.ghost['ph'])))
        for lv in lvs:
            if lv.w != 64 or lv.key[0] == 'ghost':
                continue
            k, n = lv.key, lv.name
            out.append(Cand('%s from the due time' % n, lambda v, k=k: z3.ULE(self.due(v.st)[0], v[k])))
            out.append(Cand('%s to the due time' % n, lambda v, k=k: z3.ULE(v[k], self.due(v.st)[1])))
            out.append(Cand('%s is the interval' % n, lambda v, k=k: v[k] == self.peek(v.st, self.check)))
        return out

    def post(self, ctx, o):
        st = o.st
        op = self.op
        d = ctx.dom
        if op in ('ctor', 'ctor0'):
            return self.post_ctor(ctx, o)
        ctx.oblige(st, 'post: the function returns', z3.BoolVal(o.kind == 'ret'))
        if o.kind != 'ret':
            return None
        if op in ('stop', 'dtor'):
            ctx.prove(st, 'post: the worker has ended', st.ghost['ended'] == 1)
        if op == 'dtor':
            ctx.prove(st, 'post: the function is destroyed', z3.And(*[z3.Not(l[3]) for l in st.ghost['live']]))
            return ['returns']
        skip = ()
        if op == 'stop':
            ctx.prove(st, 'post: the worker is known to have ended', self.peek(st, self.stopped) == 1)
            ctx.prove(st, 'post: the flag is set', self.peek(st, self.flag) == 1)
            skip = ((self.stopped, 1), (self.flag, 1))
        if op in ('set_period', 'set_check'):
            off = self.period if op == 'set_period' else self.check
            ctx.prove(st, 'post: the value given is set', self.peek(st, off) == self.val)
            skip = ((off, 8),)
        if op in ('period', 'check'):
            ctx.prove(st, 'post: the value set is returned', o.val == self.per[op == 'check'])
        self.frame(ctx, st, skip)
        return ['returns']

    def post_ctor(self, ctx, o):
        st = o.st
        g = st.ghost
        if o.kind != 'ret':
            ctx.oblige(st, 'post: only an exception of the function object escapes', z3.BoolVal(g.get('threw', False)))
            ctx.prove(st, 'post: nothing is leaked', z3.And(*[z3.Not(l[3]) for l in g['live']]))
            return None
        ctx.oblige(st, 'post: one thread is started', z3.BoolVal(len(g.get('spawned', ())) == 1))
        ctx.prove(st, 'post: the thread runs on its own', self.word(st, self.thread, 64) == 0)
        ctx.prove(st, 'post: the object is not stopped', self.peek(st, self.stopped) == 0)
        for i in g.get('spawned', ()):
            s0, state = self.snaps[i]
            for off in (self.period, self.check, self.fo, self.fo + 8, self.fo + 16, self.fo + 24, self.flag):
                ctx.prove(st, 'post: nothing the thread uses changes after it was started', self.peek(st, off) == self.peek(s0, off))
            if i in self.served:
                continue
            self.served[i] = True
            for w in self.run_thread(ctx, s0, state, 'worker'):
                if w.kind == 'backedge':
                    continue
                ctx.oblige(w.st, 'the worker does not throw', z3.BoolVal(w.kind == 'ret'))
                if w.kind == 'ret':
                    ctx.oblige(w.st, 'the worker only ends when it was stopped', w.st.ghost['ended'] == 1)
                    ctx.oblige(w.st, 'the worker tells that it ended', w.st.ghost['notified'] == 1)
                    self.hit.add('worker ends')
        self.lemma(ctx)
        return ['returns']

    @property
    def covers(self):
        return ('returns', 'function called', 'worker ends') if self.op in ('ctor', 'ctor0') else ('returns',)


TYPES = {'int': (4, 4), 'long': (8, 8), 'triple': (24, 8)}


AVG_NOINLINE = r'^_ZNK?St(5deque|11_Deque_base|15_Deque_iterator)|^_ZSt(eq|ne|mi|lt)RKSt15_Deque_iterator'


class Average(Observed):
    """time_for_unit, buffer_utilization: read the statistics only, return whatever they hold"""
    covers = ('returns', 'no measurement', 'many')

    def __init__(self, pool):
        self.pool = pool

    def setup(self, ctx, st):
        d = ctx.dom
        ctx.ext_range = ext_range(d)
        ctx.opaque = re.compile(AVG_NOINLINE)
        self.esz = front.find_layout(ctx.lay, r'xitren::comm::measure_data').size if self.pool else 8
        L = front.find_layout(ctx.lay, r'xitren::comm::pipeline_stage<.*>')
        self.size = 80 if self.pool else L.size
        h = [] if self.pool else [f for f in L.fields if re.search(r'deque<', f[2]) and f[3] and f[3] != '<base>']
        self.dq = 0 if self.pool else min(h, key=lambda f: f[1])[0]
        self.o = obj_base(ctx, st, 'o', self.size, 8)
        st.add_region(Region('object', self.o, self.size, [Part(0, self.size)], writable=False))
        self.n = d.var('measurements', 64)
        st.assume(z3.ULT(self.n, 1 << 32))
        ctx.inputs['number of measurements'] = self.n
        return [(st, [self.o])]

    def one(self, ctx, st):
        """some measurement"""
        b = st.fresh('measurement', 64)
        st.assume(z3.And(z3.ULE(1 << 44, b), z3.ULE(b, 1 << 45), ctx.dom.aligned(b, 4)))
        p = Part(0, self.esz)
        st.add_region(Region('measurement', b, self.esz, [p], writable=False, zone=(1 << 44, 1 << 46)))
        for o in range(0, self.esz, 4):
            put(st, [p], o, st.fresh('measured', 32), 32)
        return b

    def on_event(self, ctx, st, fv, name, av, ins, loc):
        d = ctx.dom
        if fv is not None:
            return NotImplemented
        ctx.trusted.add('std::deque: begin() and end() delimit the elements, its iterators meet each of them once, operator[] and size() agree with them')
        c = lambda i: d.const(i, 64)

        def here(a):
            ctx.oblige(st, 'only the statistics of this stage are read', a == self.o + self.dq, loc)
        m = re.match(r'_ZNK?St5dequeI.*E(c?begin|c?end|\d*c?beginEv|\d*c?endEv|4sizeEv|5emptyEv|ixEm|5frontEv|4backEv)$', name)
        if m:
            op = m.group(1)
            if op == '4sizeEv':
                here(av[0])
                return self.n
            if op == '5emptyEv':
                here(av[0])
                return S(self.n == 0)
            if op in ('5frontEv', '4backEv'):
                here(av[0])
                ctx.oblige(st, 'a measurement is only read if there is one', self.n != 0, loc)
                return self.one(ctx, st)
            if op == 'ixEm':
                here(av[0])
                ctx.oblige(st, 'no measurement behind the last is read', z3.ULT(av[1], self.n), loc)
                return self.one(ctx, st)
            here(av[1])
            # an iterator is the number of the measurement it stands at
            ctx.store(st, av[0], c(0) if 'begin' in op else self.n, 64)
            for o in (8, 16, 24):
                ctx.store(st, S(av[0] + c(o)), st.fresh('it', 64), 64)
            return None
        if 'Deque_iterator' in name:
            if re.match(r'_ZSteq', name) or re.match(r'_ZStne', name):
                a, b = ctx.load(st, av[0], 64), ctx.load(st, av[1], 64)
                return S(a == b if name.startswith('_ZSteq') else a != b)
            if re.search(r'E(pp|mm)Ev$', name):
                a = ctx.load(st, av[0], 64)
                ctx.store(st, av[0], S(a + c(1) if 'Epp' in name else a - c(1)), 64)
                return av[0]
            if re.search(r'E(de|pt)Ev$', name):
                k = ctx.load(st, av[0], 64)
                ctx.oblige(st, 'no measurement behind the last is read', z3.ULT(k, self.n), loc)
                return self.one(ctx, st)
            if re.search(r'EC[12]ERKS', name):
                for o in (0, 8, 16, 24):
                    ctx.store(st, S(av[0] + c(o)), ctx.load(st, S(av[1] + c(o)), 64), 64)
                return None
        return NotImplemented

    def candidates(self, ctx, st, lvs, init):
        c = []
        for lv in lvs:
            if lv.w == 64:
                c.append(Cand('%s<=n' % lv.name, lambda v, k=lv.key: z3.ULE(v[k], self.n)))
                c.append(Cand('%s<n' % lv.name, lambda v, k=lv.key: z3.ULT(v[k], self.n)))
        return c

    def measures(self, ctx, st, lvs):
        return [('n-%s' % lv.name, lambda v, k=lv.key: self.n - v[k]) for lv in lvs if lv.w == 64]

    def post(self, ctx, o):
        if o.kind != 'ret':
            ctx.oblige(o.st, 'reading the statistics does not throw', FALSE)
            return
        return ['returns'] + (['no measurement'] if o.st.feasible(self.n == 0) else []) + (['many'] if o.st.feasible(z3.UGT(self.n, 5)) else [])


def units():
    us = []

    def add(name, props, fn, spec, defs, budget=200):
        us.append(Unit(name, props, 'threads.cpp', fn, spec, defs, budget=budget, noinline=NOINLINE, san=SAN))
    for ty, n, pool in (('int', 3, 2), ('long', 1, 1), ('triple', 4, 3), ('int', 2, 5), ('int', 300, 2), ('long', 70000, 2)):
        vs, va = TYPES[ty]
        defs = ('-DVT=' + ty, '-DBUF=%d' % n, '-DPOOL=%d' % pool)
        kw = dict(vs=vs, va=va, ww=8, n=n)
        for cls, pre, np, prop in (('pipeline_stage<%s, %d>' % (ty, n), 's', 0, 'C23'), ('pipeline_stage_pool<%s, %d, %d>' % (ty, n, pool), 'p', pool, 'C24')):
            for i in range((np or 1) if n < 1000 else 0):
                add('%s and its %s' % (cls, 'worker %d' % i if np else 'worker'), [prop], pre + '_ctor',
                    Pipeline(op='ctor', pool=np, conc=True, nth=i if np else None, **kw), defs, 500)
            if n < 100:
                add('~%s' % cls, [prop], pre + '_dtor', Pipeline(op='dtor', pool=np, conc=True, **kw), defs)
            for f in ('push', 'pushr'):
                add('%s::%s, alone' % (cls, f), [prop], pre + '_' + f, Pipeline(op=f, pool=np, conc=False, **kw), defs)
                add('%s::%s, others running' % (cls, f), [prop], pre + '_' + f, Pipeline(op=f, pool=np, conc=True, **kw), defs)
    for cls, pre, prop in (('pipeline_stage', 's', 'C23'), ('pipeline_stage_pool', 'p', 'C24')):
        for f, name in (('time', 'time_for_unit'), ('load', 'buffer_utilization')):
            us.append(Unit('%s::%s' % (cls, name), [prop], 'threads.cpp', pre + '_' + f, Average(pre == 'p'), ('-DVT=int', '-DBUF=3', '-DPOOL=2', '-DAVG'),
                           noinline=AVG_NOINLINE, san=SAN))
    for op, name in (('ctor', 'interval_event and its worker'), ('ctor0', 'interval_event with default times and its worker'), ('dtor', '~interval_event'),
                     ('stop', 'stop'), ('set_period', 'period(value)'), ('set_check', 'period_between_checks(value)'), ('period', 'period'), ('check', 'period_between_checks')):
        add(name if 'interval' in name else 'interval_event::' + name, ['C22'], 'i_' + op, Interval(op=op), ())
    return us
