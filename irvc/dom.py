"""Word domains.  A machine word of w bits is a z3 term; i1 is always a z3 Bool.
BvDom: bit-vectors (exact).  IntDom: unsigned mathematical integers in [0,2^w), with wrap-around made explicit
(an addition is only modelled as '+' after the solver has proved that it does not wrap on the current path)."""
import z3

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def is_num(t):
    return z3.is_bv_value(t) or z3.is_int_value(t)


def num(t):
    return t.as_long()


def S(t):
    return z3.simplify(t)


class BvDom:
    name = 'bv'

    def const(self, v, w):
        if w == 1:
            return z3.BoolVal(bool(v & 1))
        return z3.BitVecVal(v & ((1 << w) - 1), w)

    def var(self, n, w):
        return z3.Bool(n) if w == 1 else z3.BitVec(n, w)

    def sort(self, w):
        return z3.BoolSort() if w == 1 else z3.BitVecSort(w)

    def range(self, t, w):
        return None

    def width(self, t):
        return 1 if z3.is_bool(t) else t.size()

    def add(self, st, a, b, w, nw=False):
        return S(a + b)

    def sub(self, st, a, b, w, nw=False):
        return S(a - b)

    def mul(self, st, a, b, w, nw=False):
        return S(a * b)

    def udiv(self, st, a, b, w):
        return S(z3.UDiv(a, b))

    def urem(self, st, a, b, w):
        return S(z3.URem(a, b))

    def sdiv(self, st, a, b, w):
        return S(a / b)

    def srem(self, st, a, b, w):
        return S(z3.SRem(a, b))

    def shl(self, st, a, b, w):
        return S(a << b)

    def lshr(self, st, a, b, w):
        return S(z3.LShR(a, b))

    def ashr(self, st, a, b, w):
        return S(a >> b)

    def and_(self, st, a, b, w):
        return S(a & b)

    def or_(self, st, a, b, w):
        return S(a | b)

    def xor(self, st, a, b, w):
        return S(a ^ b)

    def ult(self, a, b, w=64):
        return z3.ULT(a, b)

    def ule(self, a, b, w=64):
        return z3.ULE(a, b)

    def slt(self, a, b, w=64):
        return a < b

    def sle(self, a, b, w=64):
        return a <= b

    def trunc(self, st, a, w, w2):
        if w2 == 1:
            return S(z3.Extract(0, 0, a) == z3.BitVecVal(1, 1))
        return S(z3.Extract(w2 - 1, 0, a))

    def zext(self, a, w, w2):
        if w == 1:
            return z3.If(a, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
        return S(z3.ZeroExt(w2 - w, a))

    def sext(self, a, w, w2):
        if w == 1:
            return z3.If(a, z3.BitVecVal((1 << w2) - 1, w2), z3.BitVecVal(0, w2))
        return S(z3.SignExt(w2 - w, a))

    def byte(self, t, w, i):
        """i-th least significant byte"""
        if w == 1:
            t = self.zext(t, 1, 8)
            w = 8
        if w % 8:
            t = self.zext(t, w, (w + 7) // 8 * 8)
        if t.size() == 8 and i == 0:
            return t
        return S(z3.Extract(8 * i + 7, 8 * i, t))

    def from_bytes(self, bs):
        """little-endian list"""
        if len(bs) == 1:
            return bs[0]
        return S(z3.Concat(*reversed(bs)))

    def nowrap_add(self, a, b, w=64):
        return z3.BVAddNoOverflow(a, b, False)

    def aligned(self, t, n):
        """t is a multiple of n (power of two)"""
        if n == 1:
            return TRUE
        k = n.bit_length() - 1
        return z3.Extract(k - 1, 0, t) == z3.BitVecVal(0, k)

    def linear(self, t):
        """flatten a sum: (list of addends, constant)"""
        t = S(t)
        out = []
        c = 0
        st = [t]
        while st:
            x = st.pop()
            if z3.is_bv_value(x):
                c += x.as_long()
            elif z3.is_app_of(x, z3.Z3_OP_BADD):
                st += x.children()
            else:
                out.append(x)
        return out, c & ((1 << 64) - 1)


class IntDom:
    name = 'int'

    def __init__(self):
        self._xor = {}
        self.xorc_apps = {}

    def const(self, v, w):
        if w == 1:
            return z3.BoolVal(bool(v & 1))
        return z3.IntVal(v & ((1 << w) - 1))

    def var(self, n, w):
        return z3.Bool(n) if w == 1 else z3.Int(n)

    def sort(self, w):
        return z3.BoolSort() if w == 1 else z3.IntSort()

    def range(self, t, w):
        if w == 1:
            return None
        return z3.And(t >= 0, t < (1 << w))

    def _wrap(self, st, s, w):
        s = S(s)
        M = 1 << w
        if z3.is_int_value(s):
            return z3.IntVal(s.as_long() % M)
        if st is not None:
            if st.entails(z3.And(s >= 0, s < M), quick=True):
                return s
            if st.entails(z3.And(s >= M, s < 2 * M), quick=True):
                return S(s - M)
            if st.entails(z3.And(s >= -M, s < 0), quick=True):
                return S(s + M)
        return z3.If(s >= M, s - M, z3.If(s < 0, s + M, s))

    def add(self, st, a, b, w, nw=False):
        if z3.is_int_value(b) and b.as_long() >= 1 << (w - 1):
            return self.sub(st, a, z3.IntVal((1 << w) - b.as_long()), w)
        if z3.is_int_value(a) and a.as_long() >= 1 << (w - 1):
            return self.sub(st, b, z3.IntVal((1 << w) - a.as_long()), w)
        if nw:
            return S(a + b)
        return self._wrap(st, a + b, w)

    def sub(self, st, a, b, w, nw=False):
        if z3.is_int_value(b) and b.as_long() > 1 << (w - 1):
            return self.add(st, a, z3.IntVal((1 << w) - b.as_long()), w)
        if nw:
            return S(a - b)
        return self._wrap(st, a - b, w)

    def mul(self, st, a, b, w, nw=False):
        p = S(a * b)
        M = 1 << w
        if z3.is_int_value(p):
            return z3.IntVal(p.as_long() % M)
        if nw or (st is not None and st.entails(p < M, quick=True)):
            return p
        return p % M

    def udiv(self, st, a, b, w):
        return S(a / b)

    def urem(self, st, a, b, w):
        return S(a % b)

    def tosigned(self, a, w):
        return z3.If(a >= 1 << (w - 1), a - (1 << w), a)

    def sdiv(self, st, a, b, w):
        return st.fresh('sdiv', w)

    srem = sdiv

    def shl(self, st, a, b, w):
        if z3.is_int_value(b):
            return self.mul(st, a, z3.IntVal(1 << b.as_long()), w)
        return st.fresh('shl', w)

    def lshr(self, st, a, b, w):
        if z3.is_int_value(b):
            return S(a / z3.IntVal(1 << b.as_long()))
        return st.fresh('lshr', w)

    def ashr(self, st, a, b, w):
        if z3.is_int_value(b):
            if st.entails(a < (1 << (w - 1)), quick=True):
                return S(a / z3.IntVal(1 << b.as_long()))
            return z3.If(a < 1 << (w - 1), a / z3.IntVal(1 << b.as_long()),
                         (1 << w) + (a - (1 << w)) / z3.IntVal(1 << b.as_long()))
        return st.fresh('ashr', w)

    def and_(self, st, a, b, w):
        if z3.is_int_value(a):
            a, b = b, a
        if z3.is_int_value(b):
            m = b.as_long()
            if z3.is_int_value(a):
                return z3.IntVal(m & a.as_long())
            # contiguous runs of one bits
            r = None
            i = 0
            while i < w:
                if (m >> i) & 1:
                    j = i
                    while j < w and (m >> j) & 1:
                        j += 1
                    # bits i..j-1
                    if j == w:
                        t = a if i == 0 else (z3.If(a >= 1 << i, z3.IntVal(1 << i), z3.IntVal(0)) if i == w - 1
                                              else a - a % z3.IntVal(1 << i))
                    else:
                        low = self._low(st, a, j, w)
                        t = low if i == 0 else low - low % z3.IntVal(1 << i)
                    r = t if r is None else r + t
                    i = j
                else:
                    i += 1
            return S(r) if r is not None else z3.IntVal(0)
        t = st.fresh('and', w)
        st.assume(z3.And(t <= a, t <= b))
        return t

    def _low(self, st, a, j, w):
        if j == w - 1:
            return z3.If(a >= 1 << j, a - (1 << j), a)
        return a % z3.IntVal(1 << j)

    def or_(self, st, a, b, w):
        if z3.is_int_value(a):
            a, b = b, a
        if z3.is_int_value(b):
            m = b.as_long()
            if z3.is_int_value(a):
                return z3.IntVal(m | a.as_long())
            if m == 1 << (w - 1):
                return z3.If(a >= m, a, a + m)
            return S(a + (z3.IntVal(m) - self.and_(st, a, b, w)))
        t = st.fresh('or', w)
        st.assume(z3.And(t >= a, t >= b))
        return t

    def xor(self, st, a, b, w):
        if z3.is_int_value(a):
            a, b = b, a
        if z3.is_int_value(b):
            m = b.as_long()
            if z3.is_int_value(a):
                return z3.IntVal(m ^ a.as_long())
            if m == 0:
                return a
            if m == (1 << w) - 1:
                return S(m - a)
            f = self._xor.get((m, w))
            if f is None:
                f = z3.Function('xor_%x' % m, z3.IntSort(), z3.IntSort())
                self._xor[(m, w)] = f
            a = S(a)
            if z3.is_app(a) and a.decl().eq(f):
                return a.arg(0)
            r = f(a)
            st.assume(z3.And(f(r) == a, r >= 0, r < (1 << w)))
            # ground fact at constants appearing in this code base: xor(m)=0, xor(0)=m
            st.assume((a == 0) == (r == m))
            st.assume((a == m) == (r == 0))
            return r
        return st.fresh('xor', w)

    def ult(self, a, b, w=64):
        return a < b

    def ule(self, a, b, w=64):
        return a <= b

    def slt(self, a, b, w=64):
        h = 1 << (w - 1)
        if z3.is_int_value(b) and b.as_long() < h:
            return z3.Or(a >= h, a < b)
        return self.tosigned(a, w) < self.tosigned(b, w)

    def sle(self, a, b, w=64):
        return self.tosigned(a, w) <= self.tosigned(b, w)

    def trunc(self, st, a, w, w2):
        if w2 == 1:
            return S(a % 2 == 1)
        return S(a % z3.IntVal(1 << w2))

    def zext(self, a, w, w2):
        if w == 1:
            return z3.If(a, z3.IntVal(1), z3.IntVal(0))
        return a

    def sext(self, a, w, w2):
        if w == 1:
            return z3.If(a, z3.IntVal((1 << w2) - 1), z3.IntVal(0))
        return z3.If(a >= 1 << (w - 1), a + ((1 << w2) - (1 << w)), a)

    def byte(self, t, w, i):
        if w == 1:
            return self.zext(t, 1, 8)
        if w == 8:
            return t
        return S((t / z3.IntVal(1 << (8 * i))) % 256)

    def from_bytes(self, bs):
        if len(bs) == 1:
            return bs[0]
        r = bs[0]
        for i, b in enumerate(bs[1:]):
            r = r + b * (1 << (8 * (i + 1)))
        return S(r)

    def nowrap_add(self, a, b, w=64):
        return a + b < (1 << w)

    def aligned(self, t, n):
        if n == 1:
            return TRUE
        return t % n == 0

    def linear(self, t):
        t = S(t)
        out = []
        c = 0
        st = [t]
        while st:
            x = st.pop()
            if z3.is_int_value(x):
                c += x.as_long()
            elif z3.is_add(x):
                st += x.children()
            elif z3.is_sub(x):
                return [t], 0
            else:
                out.append(x)
        return out, c
