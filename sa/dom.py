"""Abstract value domain.

Integers are described by two mutually convertible views over interned *atoms* (named unknowns):
  - bit provenance: every bit is a GF(2) linear form over atom bits,
  - a linear integer form  c + sum(k_i * atom_i)  (mathematical value, never wrapped).
A Facts object is a conjunction of constraints over atoms: solved bit equations, intervals, linear
equations and inequalities, disequalities, opaque booleans.  Atoms are immutable, so facts never go
stale under mutation of the analysed program's memory.
"""
ONE = -1
ZERO_F = frozenset()
ONE_F = frozenset((ONE,))

# ------------------------------------------------------------------ atoms
ATOM_KEY = []
ATOM_W = []
ATOM_LO = []
ATOM_HI = []
ATOM_BITS = []
ATOM_DEPS = []
_atoms = {}
SRC_W = {}      # source descriptor -> element width (default 8)


def deps_of(x):
    """atom ids occurring inside a key structure"""
    if isinstance(x, Lin):
        r = set()
        for a, _ in x.t:
            r.add(a)
            r |= ATOM_DEPS[a]
        return frozenset(r)
    if isinstance(x, AtomRef):
        return ATOM_DEPS[x.a] | {x.a}
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            d = deps_of(y)
            if d:
                r = r | d
        return r
    if isinstance(x, frozenset):
        r = set()
        for y in x:
            if isinstance(y, int):
                if y != ONE:
                    a = y >> 8
                    r.add(a)
                    r |= ATOM_DEPS[a]
            else:
                r |= deps_of(y)
        return frozenset(r)
    if hasattr(x, 'deps'):
        return x.deps()
    return frozenset()


class AtomRef:
    """reference to an atom inside a key"""
    __slots__ = ('a',)
    _t = {}

    def __new__(cls, a):
        o = cls._t.get(a)
        if o is None:
            o = object.__new__(cls)
            o.a = a
            cls._t[a] = o
        return o

    def __repr__(self):
        return '@%d' % self.a


def _mk(key, w, lo, hi, bits=None):
    i = len(ATOM_KEY)
    _atoms[key] = i
    ATOM_KEY.append(key)
    ATOM_W.append(w)
    ATOM_LO.append(lo)
    ATOM_HI.append(hi)
    ATOM_DEPS.append(frozenset())
    if bits is None:
        n = min(w, hi.bit_length()) if lo >= 0 else w
        bits = tuple(frozenset((i << 8 | k,)) if k < n else ZERO_F for k in range(w))
    ATOM_BITS.append(bits)
    ATOM_DEPS[i] = deps_of(key[1:])
    return i


def atom_var(name, w, lo=0, hi=None):
    key = ('v', name, w)
    a = _atoms.get(key)
    if a is None:
        a = _mk(key, w, lo, (1 << w) - 1 if hi is None else hi)
    return a


def atom_at(src, idx):
    key = ('at', src, idx)
    a = _atoms.get(key)
    if a is None:
        w = SRC_W.get(src, 8)
        a = _mk(key, w, 0, (1 << w) - 1)
    return a


def atom_op(name, args, w, lo=0, hi=None):
    key = ('op', name, args, w)
    a = _atoms.get(key)
    if a is None:
        a = _mk(key, w, lo, (1 << w) - 1 if hi is None else hi)
    return a


def atom_ext(base, j, m):
    key = ('ext', AtomRef(base), j, m)
    a = _atoms.get(key)
    if a is None:
        a = _mk(key, m, 0, (1 << m) - 1, ATOM_BITS[base][j:j + m])
    return a


def atom_bv(bits):
    key = ('bv', bits)
    a = _atoms.get(key)
    if a is None:
        a = _mk(key, len(bits), 0, (1 << len(bits)) - 1, bits)
    return a


def atom_lb(lin, w):
    key = ('lb', lin, w)
    a = _atoms.get(key)
    if a is None:
        a = _mk(key, w, 0, (1 << w) - 1)
    return a


def atom_name(a):
    k = ATOM_KEY[a]
    if k[0] == 'v':
        return pname(k[1])
    if k[0] == 'at':
        return '%s[%s]' % (pname(k[1]), k[2])
    if k[0] == 'ext':
        return '%s{%d..%d}' % (atom_name(k[1].a), k[2], k[2] + k[3])
    if k[0] == 'lb':
        return 'bits(%s)' % (k[1],)
    if k[0] == 'bv':
        return 'bv(%s)' % ','.join(form_name(f) for f in k[1][:8])
    return '%s(%s)' % (pname(k[1]), ','.join(pname(x) for x in k[2]) if isinstance(k[2], tuple) else pname(k[2]))


def pname(x):
    if isinstance(x, tuple):
        if len(x) > 0 and isinstance(x[0], str) and x[0].startswith('#'):
            return x[0] + '(' + ','.join(pname(y) for y in x[1:]) + ')'
        return '.'.join(pname(y) for y in x)
    if isinstance(x, AtomRef):
        return atom_name(x.a)
    return str(x)


def form_name(f):
    if not f:
        return '0'
    return '^'.join('1' if x == ONE else '%s.%d' % (atom_name(x >> 8), x & 255) for x in sorted(f))


# ------------------------------------------------------------------ linear forms
class Lin:
    __slots__ = ('c', 't', 'nb')
    _t = {}

    def __new__(cls, c, t=()):
        k = (c, t)
        o = cls._t.get(k)
        if o is None:
            o = object.__new__(cls)
            o.c = c
            o.t = t
            o.nb = None
            cls._t[k] = o
        return o

    def __reduce__(self):
        return (Lin, (self.c, self.t))

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            d[a] = d.get(a, 0) + k
        return mklin(self.c + o.c, d)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        if k == 1:
            return self
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + o.scale(-1)

    def __repr__(self):
        s = []
        for a, k in self.t:
            n = atom_name(a)
            s.append(n if k == 1 else '-' + n if k == -1 else '%d*%s' % (k, n))
        if self.c or not s:
            s.append(str(self.c))
        return '+'.join(s).replace('+-', '-')


def mklin(c, d):
    return Lin(c, tuple(sorted((a, k) for a, k in d.items() if k)))


def lin_atom(a):
    k = ATOM_KEY[a]
    if k[0] == 'lb':
        return k[1]
    return Lin(0, ((a, 1),))


L0 = Lin(0)
L1 = Lin(1)


def is_pow2(x):
    return x > 0 and (x & (x - 1)) == 0


def eff_width(a):
    b = ATOM_BITS[a]
    n = len(b)
    while n and not b[n - 1]:
        n -= 1
    return n


def lin_from_bits(bits, F=None):
    n = len(bits)
    while n and not bits[n - 1]:
        n -= 1
    c = 0
    d = {}

    def add(l, k):
        nonlocal c
        c += l.c * k
        for a, x in l.t:
            d[a] = d.get(a, 0) + x * k
    i = 0
    while i < n:
        f = bits[i]
        if not f:
            i += 1
            continue
        if f == ONE_F:
            c += 1 << i
            i += 1
            continue
        if len(f) == 1:
            x = next(iter(f))
            a, j = x >> 8, x & 255
            m = 1
            while i + m < n and bits[i + m] == frozenset((x + m,)) and j + m < ATOM_W[a]:
                m += 1
            wa = F.eff(a) if F is not None else eff_width(a)
            if j == 0 and m == wa:
                add(lin_atom(a), 1 << i)
            elif j + m == wa and j > 0 and i >= j:
                add(lin_atom(a), 1 << (i - j))
                e = atom_ext(a, 0, j)
                d[e] = d.get(e, 0) - (1 << (i - j))
            else:
                e = atom_ext(a, j, m)
                d[e] = d.get(e, 0) + (1 << i)
            i += m
            continue
        m = 1
        while i + m < n and bits[i + m] and not (len(bits[i + m]) == 1):
            m += 1
        e = atom_bv(tuple(bits[i:i + m]))
        d[e] = d.get(e, 0) + (1 << i)
        i += m
    return mklin(c, d)


def const_bits(v, w):
    return tuple(ONE_F if (v >> i) & 1 else ZERO_F for i in range(w))


def lin_interval_intrinsic(l):
    lo = hi = l.c
    for a, k in l.t:
        if k > 0:
            lo += k * ATOM_LO[a]
            hi += k * ATOM_HI[a]
        else:
            lo += k * ATOM_HI[a]
            hi += k * ATOM_LO[a]
    return lo, hi


def lin_to_bits(l, w):
    if not l.t:
        return const_bits(l.c & ((1 << w) - 1), w)
    if l.nb is not None and w in l.nb:
        return l.nb[w]
    r = _lin_to_bits(l, w)
    if l.nb is None:
        l.nb = {}
    l.nb[w] = r
    return r


class _FB:
    def __init__(self, F):
        self.F = F

    def __getitem__(self, a):
        return self.F.nbits(ATOM_BITS[a])


def _lin_to_bits(l, w, F=None):
    AB = ATOM_BITS if F is None else _FB(F)
    terms = dict(l.t)
    pieces = []
    ok = l.c >= 0
    for a, k in list(terms.items()):
        if k < 0:
            key = ATOM_KEY[a]
            if key[0] == 'ext' and key[2] == 0 and terms.get(key[1].a) == -k and is_pow2(-k):
                j = key[3]
                b = key[1].a
                kk = (-k).bit_length() - 1
                pieces.append((kk + j, AB[b][j:]))
                del terms[a]
                del terms[b]
            else:
                ok = False
                break
    if ok:
        for a, k in terms.items():
            if not is_pow2(k):
                ok = False
                break
            pieces.append((k.bit_length() - 1, AB[a]))
    if ok:
        out = [ZERO_F] * w
        occ = [False] * w
        for off, bs in pieces:
            for i, f in enumerate(bs):
                p = off + i
                if not f:
                    continue
                if p >= w or occ[p]:
                    ok = False
                    break
                occ[p] = True
                out[p] = f
            if not ok:
                break
        if ok:
            c = l.c
            for i in range(max(w, c.bit_length())):
                if (c >> i) & 1:
                    if i >= w or occ[i]:
                        ok = False
                        break
                    out[i] = ONE_F
        if ok:
            return tuple(out)
    # opaque: keep known-zero low bits and known-zero high bits
    tz = (l.c & -l.c).bit_length() - 1 if l.c else w
    for _, k in l.t:
        tz = min(tz, (k & -k).bit_length() - 1)
    lo, hi = lin_interval_intrinsic(l) if F is None else F.interval(l, False)
    top = w
    if lo >= 0 and hi >= 0:
        top = min(w, hi.bit_length())
    a = atom_lb(l, w)
    b = ATOM_BITS[a]
    return tuple(ZERO_F if (i < tz or i >= top) else b[i] for i in range(w))


# ------------------------------------------------------------------ ints and bools
class Int:
    __slots__ = ('w', 's', '_b', '_l')

    def __init__(self, w, s, bits=None, lin=None):
        self.w = w
        self.s = s
        self._b = bits
        self._l = lin

    @property
    def bits(self):
        if self._b is None:
            self._b = lin_to_bits(self._l, self.w)
        return self._b

    @property
    def lin(self):
        if self._l is None:
            b = self._b
            if self.s and b[-1]:
                if all(f == ONE_F or not f for f in b):
                    v = sum(1 << i for i, f in enumerate(b) if f)
                    self._l = Lin(v - (1 << self.w))
                else:
                    self._l = lin_atom(atom_op('#signed', (b,), self.w, -(1 << (self.w - 1)), (1 << (self.w - 1)) - 1))
            else:
                self._l = lin_from_bits(b)
        return self._l

    def const(self):
        l = self.lin
        return l.c if not l.t else None

    def key(self):
        return self.lin

    def __eq__(self, o):
        return isinstance(o, Int) and self.w == o.w and self.lin is o.lin

    def __hash__(self):
        return hash((self.w, self.lin))

    def deps(self):
        return deps_of(self.lin)

    def __repr__(self):
        return '%s:%s%d' % (self.lin, 'i' if self.s else 'u', self.w)


def iconst(v, w, s=False):
    return Int(w, s, None, Lin(v))


def usz(v):
    if isinstance(v, int):
        v = Lin(v)
    return Int(64, False, None, v)


class Bool:
    """A boolean described by a condition tree:
    True / False / ('le', Lin<=0) / ('eq', Int, Int) / ('not', c) / ('and', c, c) / ('or', c, c) / ('atom', key)"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Bool) and self.c == o.c

    def __hash__(self):
        return hash(self.c)

    def deps(self):
        return deps_of(self.c) if isinstance(self.c, tuple) else frozenset()

    def __repr__(self):
        return 'B(%s)' % (self.c,)


TRUE = Bool(True)
FALSE = Bool(False)


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'not':
        return c[1]
    if c[0] == 'le':
        return ('le', Lin(1) - c[1])
    return ('not', c)


def c_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ('and', a, b)


def c_or(a, b):
    return c_not(c_and(c_not(a), c_not(b)))


class Split(Exception):
    """Raised when an operation needs its operand partitioned: alts is a list of condition trees covering it."""

    def __init__(self, alts, why=''):
        self.alts = alts
        self.why = why


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ facts
LOOPBACK = {}     # iteration counter -> conditions under which the loop goes on, one list per way round


class Facts:
    __slots__ = ('sub', 'rng', 'eqs', 'ineq', 'neq', 'cond', 'var', 'touched', 'raw', '_memo')

    def __init__(self):
        self.sub = {}
        self.rng = {}
        self.eqs = {}
        self.ineq = ()
        self.neq = frozenset()
        self.cond = {}
        self.var = {}
        self.touched = frozenset()
        self.raw = ()       # every assumed condition, as a linked list
        self._memo = {}

    def conds(self):
        out = []
        r = self.raw
        while r:
            out.append(r[0])
            r = r[1]
        return out

    def copy(self):
        f = Facts.__new__(Facts)
        f.sub = self.sub
        f.rng = self.rng
        f.eqs = self.eqs
        f.ineq = self.ineq
        f.neq = self.neq
        f.cond = self.cond
        f.var = self.var
        f.touched = self.touched
        f.raw = self.raw
        f._memo = self._memo
        return f

    # ---- normal forms
    def nform(self, f):
        sub = self.sub
        if not sub:
            return f
        r = f
        for x in f:
            s = sub.get(x)
            if s is not None:
                r = r ^ frozenset((x,)) ^ s
        return r

    def nbits(self, bits):
        if not self.sub:
            return bits
        return tuple([self.nform(f) if f else f for f in bits])

    def natom(self, a):
        """normal form of an atom as a Lin"""
        m = self._memo.get(a)
        if m is not None:
            return m
        r = self._natom(a)
        self._memo[a] = r
        return r

    def _natom(self, a):
        if a in self.eqs:
            return self.nlin(self.eqs[a])
        k = ATOM_KEY[a]
        if self.eqs and ATOM_DEPS[a] and not ATOM_DEPS[a].isdisjoint(self.eqs.keys()):
            k2 = key_map(k, self.nlin)
            if k2 != k:
                l2 = rebuild_atom(k2, a)
                if l2 != lin_atom(a):
                    return self.nlin(l2)
        if self.touched:
            bits = ATOM_BITS[a]
            t = False
            for f in bits:
                for x in f:
                    if x in self.sub:
                        t = True
                        break
                if t:
                    break
            if t or (k[0] == 'ext' and k[2] == 0 and k[1].a in self.touched):
                return lin_from_bits(self.nbits(bits), self)
        r = self.rng.get(a)
        if r is not None and r[0] == r[1]:
            return Lin(r[0])
        return lin_atom(a)

    def eff(self, a):
        """number of low bits of an atom that may be non-zero"""
        if a not in self.touched:
            return eff_width(a)
        m = self._memo.get(('eff', a))
        if m is not None:
            return m
        b = ATOM_BITS[a]
        n = len(b)
        while n and not self.nform(b[n - 1]):
            n -= 1
        self._memo[('eff', a)] = n
        return n

    def nlin(self, l):
        if not l.t:
            return l
        if not (self.eqs or self.touched or self.rng):
            return l
        m = self._memo.get(l)
        if m is not None:
            return m
        r = Lin(l.c)
        same = True
        for a, k in l.t:
            n = self.natom(a)
            if not (len(n.t) == 1 and n.c == 0 and n.t[0] == (a, 1)):
                same = False
            r = r + n.scale(k)
        if same:
            r = l
        self._memo[l] = r
        return r

    def ibits(self, x):
        """normalised bits of an Int"""
        if x._b is not None:
            return self.nbits(x._b)
        l = x._l
        if not l.t:
            return x.bits
        k = ('ib', l, x.w)
        m = self._memo.get(k)
        if m is None:
            m = _lin_to_bits(self.nlin(l), x.w, self) if (self.touched or self.rng or self.eqs) else x.bits
            m = self.nbits(m)
            self._memo[k] = m
        return m

    def nint(self, x):
        if x._b is not None:
            b = self.nbits(x._b) if self.sub else x._b
            l = self.nlin(x.lin)
            if b is x._b and l is x._l:
                return x
            return Int(x.w, x.s, b, l)
        l = self.nlin(x.lin)
        if l is not x.lin:
            return Int(x.w, x.s, None, l)
        return x

    # ---- intervals
    def arange(self, a):
        lo, hi = ATOM_LO[a], ATOM_HI[a]
        r = self.rng.get(a)
        if r is not None:
            lo = max(lo, r[0])
            hi = min(hi, r[1])
        return lo, hi

    def interval(self, l, norm=True):
        if norm:
            l = self.nlin(l)
        lo = hi = l.c
        t = l.t
        if len(t) >= 2:
            d = None
            for a, k in t:
                key = ATOM_KEY[a]
                if key[0] == 'ext' and key[2] == 0 and key[1].a != a:
                    if d is None:
                        d = dict(t)
                    kb = d.get(key[1].a)
                    if kb == -k:
                        # k*(ext) - k*base  =  -k*(base with low bits cleared)
                        j = key[3]
                        bl, bh = self.arange(key[1].a)
                        bl = (bl >> j) << j
                        bh = (bh >> j) << j
                        kk = -k
                        if kk > 0:
                            lo += kk * bl
                            hi += kk * bh
                        else:
                            lo += kk * bh
                            hi += kk * bl
                        del d[a]
                        del d[key[1].a]
            if d is not None:
                t = d.items()
        for a, k in t:
            x, y = self.arange(a)
            if k > 0:
                lo += k * x
                hi += k * y
            else:
                lo += k * y
                hi += k * x
        return lo, hi

    def irange(self, x):
        return self.interval(x.lin)

    # ---- entailment
    def le0(self, l, depth=3):
        """provably l <= 0"""
        l = self.nlin(l)
        if self.interval(l, False)[1] <= 0:
            return True
        if not l.t or depth == 0:
            return False
        if len(self.ineq) > 30:
            depth = min(depth, 2)
        return self._le0(l, depth, set())

    def _le0(self, l, depth, seen):
        pos = {a for a, k in l.t if k > 0}
        neg = {a for a, k in l.t if k < 0}
        cands = []
        for f in self.ineq:
            f = self.nlin(f)
            if f in seen:
                continue
            good = False
            for a, k in f.t:
                if (k > 0 and a in pos) or (k < 0 and a in neg):
                    good = True
                    break
            if good:
                cands.append(f)
        for f in cands:
            r = l - f
            if self.interval(r, False)[1] <= 0:
                return True
        if depth > 1:
            for f in cands:
                r = l - f
                if len(r.t) <= len(l.t) + 1:
                    if self._le0(r, depth - 1, seen | {f}):
                        return True
        return False

    def lt0(self, l):
        return self.le0(l + 1)

    def eq0(self, l):
        """True / False / None"""
        l = self.nlin(l)
        if not l.t:
            return l.c == 0
        lo, hi = self.interval(l, False)
        if lo > 0 or hi < 0:
            return False
        if l in self.neq or (-l) in self.neq:
            return False
        g = 0
        for a, k in l.t:
            g = _gcd(g, abs(k))
        if g > 1 and l.c % g:
            return False
        if self.ineq:
            if self.lt0(l) or self.lt0(-l):
                return False
            if self.le0(l) and self.le0(-l):
                return True
        return None

    def ieq(self, a, b):
        if a._b is not None or b._b is not None or self.sub:
            x, y = self.ibits(a), self.ibits(b)
            if len(x) == len(y):
                same = True
                for f, g in zip(x, y):
                    if f != g:
                        same = False
                        if f ^ g == ONE_F:
                            return False
                if same:
                    return True
        return self.eq0(a.lin - b.lin)

    def dec(self, c):
        """decide a condition: True / False / None"""
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'le':
            if self.le0(c[1]):
                return True
            if self.le0(Lin(1) - c[1]):
                return False
            return None
        if k == 'eq':
            return self.ieq(c[1], c[2])
        if k == 'not':
            r = self.dec(c[1])
            return None if r is None else not r
        if k == 'and':
            r = self.dec(c[1])
            if r is False:
                return False
            s = self.dec(c[2])
            if s is False:
                return False
            if r and s:
                return True
            return None
        if k == 'atom':
            r = self.cond.get(c[1])
            if r is None and self.eqs:
                k2 = key_map(c[1], self.nlin)
                if k2 != c[1]:
                    r = self.cond.get(k2)
            return r
        if k == 'var':
            v = self.var.get(c[1])
            if v is None:
                return None
            if isinstance(v, frozenset):
                return False if c[2] in v else None
            return v == c[2]
        raise Unsupported(str(c))

    # ---- assumption
    def assume(self, c):
        """returns a new Facts entailing c, or None when contradictory"""
        d = self.dec(c)
        if d is True:
            return self
        if d is False:
            return None
        f = self.copy()
        f.raw = (c, f.raw)
        return f if f._add(c) else None

    def _add(self, c):
        k = c[0]
        if k == 'le':
            return self._add_le(c[1])
        if k == 'eq':
            return self._add_eq(c[1], c[2])
        if k == 'and':
            d = self.dec(c[1])
            if d is False:
                return False
            if d is None and not self._add(c[1]):
                return False
            d = self.dec(c[2])
            if d is False:
                return False
            if d is None and not self._add(c[2]):
                return False
            return True
        if k == 'atom':
            self.cond = dict(self.cond)
            self.cond[c[1]] = True
            return True
        if k == 'var':
            self.var = dict(self.var)
            self.var[c[1]] = c[2]
            return True
        if k == 'not':
            n = c[1]
            if n[0] == 'eq':
                return self._add_neq(n[1], n[2])
            if n[0] == 'atom':
                self.cond = dict(self.cond)
                self.cond[n[1]] = False
                return True
            if n[0] == 'and':
                # disjunction: usable only when one side is decided
                a = self.dec(n[1])
                b = self.dec(n[2])
                if a is True:
                    return b is not True and (b is False or self._add(c_not(n[2])))
                if b is True:
                    return a is not True and (a is False or self._add(c_not(n[1])))
                return True
            if n[0] == 'var':
                v = self.var.get(n[1])
                self.var = dict(self.var)
                self.var[n[1]] = (v or frozenset()) | {n[2]}
                return True
        raise Unsupported('assume %s' % (c,))

    def _chg(self):
        self._memo = {}

    def _add_bit(self, form):
        """form = 0"""
        form = self.nform(form)
        if not form:
            return True
        if form == ONE_F:
            return False
        # eliminate the bit of the youngest atom
        x = max(form)
        rest = form ^ frozenset((x,))
        sub = {}
        for y, g in self.sub.items():
            sub[y] = (g ^ frozenset((x,)) ^ rest) if x in g else g
        sub[x] = rest
        self.sub = sub
        self.touched = self.touched | {x >> 8}
        self._chg()
        return True

    def _add_eq(self, a, b):
        la, lb = self.nlin(a.lin), self.nlin(b.lin)
        ca, cb = (not la.t), (not lb.t)
        if ca or cb:
            # constant on one side: exact bit equations and a range
            x, c = (b, la.c) if ca else (a, lb.c)
            if c < 0 and not x.s:
                return False
            cb_ = const_bits(c & ((1 << x.w) - 1), x.w)
            xb = self.ibits(x)
            for f, g in zip(xb, cb_):
                if not self._add_bit(f ^ g):
                    return False
            l = x.lin - c
            return self._add_eq0(l)
        if a._b is not None and b._b is not None and a.w <= 8:
            for f, g in zip(self.ibits(a), self.ibits(b)):
                if not self._add_bit(f ^ g):
                    return False
            return True
        return self._add_eq0(a.lin - b.lin)

    def _add_eq0(self, l):
        l = self.nlin(l)
        if not l.t:
            return l.c == 0
        if len(l.t) == 1:
            a, k = l.t[0]
            if (-l.c) % k:
                return False
            v = (-l.c) // k
            lo, hi = self.arange(a)
            if not lo <= v <= hi:
                return False
            self._setrng(a, v, v)
            bits = ATOM_BITS[a]
            if v >= 0:
                for f, g in zip(bits, const_bits(v, len(bits))):
                    if not self._add_bit(f ^ g):
                        return False
            return self._recheck()
        # solve for an atom with unit coefficient, preferring the youngest base atom
        best = None
        for a, k in l.t:
            if k in (1, -1):
                key = ATOM_KEY[a][0]
                base = key in ('v', 'op')
                others = set()
                for b, _ in l.t:
                    if b != a:
                        others.add(b)
                        others |= ATOM_DEPS[b]
                if a in others or any(a in ATOM_DEPS[b] for b in others):
                    continue
                pr = (2 if key == 'v' and isinstance(ATOM_KEY[a][1], tuple) and ATOM_KEY[a][1][:1] == ('#k',) else 1 if base else 0, a)
                if best is None or pr > best[0]:
                    best = (pr, a, k)
        if best is None:
            self.ineq = self.ineq + (l, -l)
            self._chg()
            return True
        _, a, k = best
        rest = (l - Lin(0, ((a, k),))).scale(-k)   # a = rest
        lo, hi = self.arange(a)
        x, y = self.interval(rest)
        if x > hi or y < lo:
            return False
        self.eqs = dict(self.eqs)
        self.eqs[a] = rest
        self._chg()
        if lo > x:
            if not self._add_le(Lin(lo) - rest):
                return False
        if hi < y:
            if not self._add_le(rest - hi):
                return False
        return self._recheck()

    def _recheck(self):
        for f in self.ineq:
            if self.interval(f)[0] > 0:
                return False
        for n in self.neq:
            m = self.nlin(n)
            if not m.t and m.c == 0:
                return False
        return True

    def _setrng(self, a, lo, hi):
        self.rng = dict(self.rng)
        self.rng[a] = (lo, hi)
        self._chg()

    def _add_le(self, l):
        l = self.nlin(l)
        if not l.t:
            return l.c <= 0
        if len(l.t) == 1:
            a, k = l.t[0]
            lo, hi = self.arange(a)
            if k > 0:
                hi = min(hi, (-l.c) // k)
            else:
                lo = max(lo, -((-l.c) // (-k))) if False else max(lo, _cdiv(l.c, -k))
            if lo > hi:
                return False
            self._setrng(a, lo, hi)
            # neq at the ends
            ch = True
            while ch:
                ch = False
                if lo > hi:
                    return False
                if Lin(-lo, ((a, 1),)) in self.neq:
                    lo += 1
                    ch = True
                elif Lin(-hi, ((a, 1),)) in self.neq:
                    hi -= 1
                    ch = True
            if lo > hi:
                return False
            self._setrng(a, lo, hi)
            if not self._rng_bits(a, lo, hi):
                return False
            # parity info: bits known may tighten further; recompute lazily
            return self._recheck()
        if len(l.t) == 2:
            # base with its own low bits cleared:  A - ext(A,0,j) <= c
            (a, ka), (b, kb) = l.t
            for x, kx, y, ky in ((a, ka, b, kb), (b, kb, a, ka)):
                key = ATOM_KEY[y]
                if key[0] == 'ext' and key[2] == 0 and key[1].a == x and kx == -ky:
                    j = key[3]
                    lo, hi = self.arange(x)
                    if kx > 0:
                        q = ((-l.c) // kx) >> j
                        hi = min(hi, (q << j) + (1 << j) - 1)
                    else:
                        m = _cdiv(l.c, -kx)
                        q = -((-m) >> j)
                        lo = max(lo, q << j)
                    if lo > hi:
                        return False
                    self._setrng(x, lo, hi)
                    if not self._rng_bits(x, lo, hi):
                        return False
                    l = self.nlin(l)
                    if not l.t:
                        return l.c <= 0
                    break
        self.ineq = self.ineq + (l,)
        self._chg()
        # equality?
        if self.le0(-l):
            return self._add_eq0(l)
        # propagate to ranges of single atoms
        lo_t = l.c
        for a, k in l.t:
            x, y = self.arange(a)
            lo_t += k * (x if k > 0 else y)
        if lo_t > 0:
            return False
        for a, k in l.t:
            x, y = self.arange(a)
            rest_lo = lo_t - k * (x if k > 0 else y)
            if k > 0:
                nh = (-rest_lo) // k
                if nh < y:
                    if nh < x:
                        return False
                    self._setrng(a, x, nh)
                    if not self._rng_bits(a, x, nh):
                        return False
            else:
                nl = _cdiv(rest_lo, -k)
                if nl > x:
                    if nl > y:
                        return False
                    self._setrng(a, nl, y)
                    if not self._rng_bits(a, nl, y):
                        return False
        return True

    def _rng_bits(self, a, lo, hi):
        if lo < 0:
            return True
        w = ATOM_W[a]
        x = lo ^ hi
        n = x.bit_length()
        bits = ATOM_BITS[a]
        for i in range(n, w):
            if not self._add_bit(bits[i] ^ (ONE_F if (lo >> i) & 1 else ZERO_F)):
                return False
        return True

    def _add_neq(self, a, b):
        x, y = self.ibits(a), self.ibits(b)
        if len(x) == len(y):
            nz = [f ^ g for f, g in zip(x, y) if f != g]
            if len(nz) == 1:
                return self._add_bit(nz[0] ^ ONE_F)
        l = self.nlin(a.lin - b.lin)
        if len(l.t) == 1 and abs(l.t[0][1]) == 1:
            at, k = l.t[0]
            v = -l.c * k
            lo, hi = self.arange(at)
            if v == lo:
                return self._add_le(Lin(lo + 1, ((at, -1),)))
            if v == hi:
                return self._add_le(Lin(-(hi - 1), ((at, 1),)))
            l = Lin(-v, ((at, 1),))
        else:
            # a != b with a <= b known gives a < b
            if self.le0(l):
                return self._add_le(l + 1)
            if self.le0(-l):
                return self._add_le(-l + 1)
        self.neq = self.neq | {l}
        return True

    def values(self, x, limit=64):
        """all values an Int may take if few, else None"""
        lo, hi = self.interval(x.lin)
        bits = self.ibits(x)
        free = sorted({f for f in bits if f and f != ONE_F}, key=lambda f: sorted(f))
        sup = sorted({y for f in free for y in f if y != ONE})
        out = None
        if len(sup) <= 8 and not any(_opaque_bit(y) for y in sup):
            out = set()
            for m in range(1 << len(sup)):
                env = {y: (m >> i) & 1 for i, y in enumerate(sup)}
                v = 0
                for i, f in enumerate(bits):
                    b = 0
                    for y in f:
                        b ^= 1 if y == ONE else env[y]
                    v |= b << i
                if lo <= v <= hi:
                    out.add(v)
            out = sorted(out)
        elif hi - lo < limit:
            out = list(range(lo, hi + 1))
        if out is None or len(out) > limit:
            if hi - lo < limit:
                return list(range(lo, hi + 1))
            return None
        return out


def _opaque_bit(y):
    return False


def _cdiv(a, b):
    return -((-a) // b)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


# ------------------------------------------------------------------ substitution inside keys
def key_map(x, f):
    """apply f to every Lin inside a key structure"""
    if isinstance(x, Lin):
        return f(x)
    if isinstance(x, AtomRef):
        l = f(lin_atom(x.a))
        if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1:
            return AtomRef(l.t[0][0])
        return x
    if isinstance(x, tuple):
        ch = False
        out = []
        for y in x:
            z = key_map(y, f)
            if z is not y:
                ch = True
            out.append(z)
        return tuple(out) if ch else x
    if isinstance(x, frozenset):
        return x
    if isinstance(x, Int):
        l = f(x.lin)
        return x if l is x.lin else Int(x.w, x.s, None, l)
    if hasattr(x, 'vmap'):
        return x.vmap(f)
    return x


def rebuild_atom(k, old):
    if k[0] == 'v':
        return lin_atom(atom_var(k[1], k[2], ATOM_LO[old], ATOM_HI[old]))
    if k[0] == 'at':
        return lin_atom(atom_at(k[1], k[2]))
    if k[0] == 'op':
        return lin_atom(atom_op(k[1], k[2], k[3], ATOM_LO[old], ATOM_HI[old]))
    if k[0] == 'lb':
        return k[1]
    if k[0] == 'ext':
        return lin_atom(atom_ext(k[1].a, k[2], k[3]))
    return lin_atom(old)


class Subst:
    """substitution atom -> Lin applied recursively through atom keys"""

    def __init__(self, m):
        self.m = m
        self.memo = {}

    def lin(self, l):
        if not l.t:
            return l
        r = self.memo.get(l)
        if r is not None:
            return r
        r = Lin(l.c)
        for a, k in l.t:
            r = r + self.atom(a).scale(k)
        self.memo[l] = r
        return r

    def atom(self, a):
        if a in self.m:
            return self.m[a]
        r = self.memo.get(a)
        if r is not None:
            return r
        r = lin_atom(a)
        if not ATOM_DEPS[a].isdisjoint(self.m.keys()):
            k = ATOM_KEY[a]
            if k[0] == 'ext':
                l = self.atom(k[1].a)
                if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1:
                    r = lin_atom(atom_ext(l.t[0][0], k[2], k[3]))
                else:
                    b = lin_to_bits(l, ATOM_W[k[1].a])
                    r = lin_from_bits(b[k[2]:k[2] + k[3]])
            elif k[0] == 'bv':
                r = lin_from_bits(tuple(self.form(f) for f in k[1]))
            else:
                r = rebuild_atom(key_map(k, self.lin), a)
        self.memo[a] = r
        return r

    def form(self, f):
        out = ZERO_F
        for x in f:
            if x == ONE:
                out = out ^ ONE_F
                continue
            a, i = x >> 8, x & 255
            l = self.atom(a)
            if len(l.t) == 1 and l.c == 0 and l.t[0][0] == a:
                out = out ^ frozenset((x,))
            else:
                out = out ^ lin_to_bits(l, ATOM_W[a])[i]
        return out


# ------------------------------------------------------------------ operations
def bit_and(f, g):
    if not f or not g:
        return ZERO_F
    if f == ONE_F:
        return g
    if g == ONE_F:
        return f
    if f == g:
        return f
    if f ^ g == ONE_F:
        return ZERO_F
    k = (f, g) if sorted(f) <= sorted(g) else (g, f)
    a = atom_op('#and', k, 1)
    return frozenset((a << 8,))


def op_and(F, a, b):
    x, y = F.ibits(a), F.ibits(b)
    return Int(a.w, a.s, tuple(bit_and(f, g) for f, g in zip(x, y)))


def op_or(F, a, b):
    x, y = F.ibits(a), F.ibits(b)
    return Int(a.w, a.s, tuple(f ^ g ^ bit_and(f, g) for f, g in zip(x, y)))


def op_xor(F, a, b):
    x, y = F.ibits(a), F.ibits(b)
    return Int(a.w, a.s, tuple(f ^ g for f, g in zip(x, y)))


def op_not(F, a):
    return Int(a.w, a.s, tuple(f ^ ONE_F for f in F.ibits(a)))


def imax(w, s):
    return (1 << (w - 1)) - 1 if s else (1 << w) - 1


def imin(w, s):
    return -(1 << (w - 1)) if s else 0


def lin_bits_hint(F, a, b, l):
    """bits of a+b when the operands' bits are disjoint"""
    if a._b is None and b._b is None:
        return None
    x, y = F.ibits(a), F.ibits(b)
    out = []
    for f, g in zip(x, y):
        if not f:
            out.append(g)
        elif not g:
            out.append(f)
        else:
            return None
    return tuple(out)


def op_add(F, a, b):
    """(value assuming no overflow, overflow condition)"""
    l = F.nlin(a.lin) + F.nlin(b.lin)
    bits = lin_bits_hint(F, a, b, l)
    lo, hi = F.interval(l)
    ov = False
    if hi > imax(a.w, a.s):
        ov = ('le', Lin(imax(a.w, a.s) + 1) - l)
    if lo < imin(a.w, a.s):
        ov = c_or(ov, ('le', l - (imin(a.w, a.s) - 1)))
    if bits is not None:
        r = Int(a.w, a.s, bits, None)
        if F.nlin(r.lin) is not l:
            r = Int(a.w, a.s, None, l)
        return r, ov
    return Int(a.w, a.s, None, l), ov


def op_sub(F, a, b):
    l = F.nlin(a.lin) - F.nlin(b.lin)
    lo, hi = F.interval(l)
    ov = False
    if lo < imin(a.w, a.s):
        ov = ('le', l - (imin(a.w, a.s) - 1))
    if hi > imax(a.w, a.s):
        ov = c_or(ov, ('le', Lin(imax(a.w, a.s) + 1) - l))
    return Int(a.w, a.s, None, l), ov


def op_mul(F, a, b):
    la, lb = F.nlin(a.lin), F.nlin(b.lin)
    if not la.t:
        la, lb = lb, la
    if not lb.t:
        l = la.scale(lb.c)
    else:
        k = tuple(sorted((la, lb), key=lambda x: (x.c, x.t)))
        x, y = F.interval(la)
        u, v = F.interval(lb)
        ps = [x * u, x * v, y * u, y * v]
        m = 1 << 200
        l = lin_atom(atom_op('#mul', k, a.w, max(min(ps), -m), min(max(ps), m)))
        if x >= 0 and u >= 0 and y * v > imax(a.w, a.s):
            return Int(a.w, a.s, None, l), ('atom', ('#mulov', k, imax(a.w, a.s)))
    lo, hi = F.interval(l)
    ov = False
    if hi > imax(a.w, a.s):
        ov = ('le', Lin(imax(a.w, a.s) + 1) - l)
    if lo < imin(a.w, a.s):
        ov = c_or(ov, ('le', l - (imin(a.w, a.s) - 1)))
    return Int(a.w, a.s, None, l), ov


def split_values(F, x, why, limit=64):
    vs = F.values(x, limit)
    if vs is None:
        raise Unsupported('%s: operand %s not partitionable' % (why, x))
    if len(vs) == 1:
        return vs[0]
    raise Split([('eq', x, Int(x.w, x.s, None, Lin(v))) for v in vs], why)


def op_shl(F, a, n):
    c = F.nint(n).const()
    if c is None:
        if a.const() == 0:
            return a
        c = split_values(F, n, 'shift amount', 130)
    c &= a.w - 1
    b = F.ibits(a)
    return Int(a.w, a.s, (ZERO_F,) * c + b[:a.w - c])


def op_shr(F, a, n):
    c = F.nint(n).const()
    if c is None:
        if a.const() == 0:
            return a
        c = split_values(F, n, 'shift amount', 130)
    c &= a.w - 1
    b = F.ibits(a)
    if a.s and b[-1]:
        if a.const() is not None:
            return Int(a.w, a.s, None, Lin(a.const() >> c))
        return Int(a.w, a.s, b[c:] + (b[-1],) * c)
    return Int(a.w, a.s, b[c:] + (ZERO_F,) * c)


def op_div(F, a, b):
    la, lb = F.nlin(a.lin), F.nlin(b.lin)
    if not lb.t and lb.c != 0:
        d = lb.c
        lo, hi = F.interval(la)
        if lo < 0 and F.le0(-la):
            lo = 0
        if not la.t:
            q = abs(la.c) // abs(d)
            if (la.c < 0) != (d < 0):
                q = -q
            return Int(a.w, a.s, None, Lin(q))
        if d > 0 and lo >= 0:
            if is_pow2(d) and not a.s:
                return op_shr(F, a, iconst(d.bit_length() - 1, 32))
            if all(k % d == 0 for _, k in la.t) :
                return Int(a.w, a.s, None, Lin(la.c // d, tuple((x, k // d) for x, k in la.t)))
            q = atom_op('#div', (la, d), a.w, lo // d, hi // d)
            return Int(a.w, a.s, None, lin_atom(q))
    x, y = F.interval(la)
    u, v = F.interval(lb)
    if x >= 0 and u >= 1:
        return Int(a.w, a.s, None, lin_atom(atom_op('#div', (la, lb), a.w, x // v, y // u)))
    return Int(a.w, a.s, None, lin_atom(atom_op('#div', (la, lb), a.w)))


def op_rem(F, a, b):
    la, lb = F.nlin(a.lin), F.nlin(b.lin)
    if not lb.t and lb.c > 0 and (F.interval(la)[0] >= 0 or F.le0(-la)):
        d = lb.c
        if not la.t:
            return Int(a.w, a.s, None, Lin(la.c % d))
        if is_pow2(d):
            return op_and(F, a, Int(a.w, a.s, None, Lin(d - 1)))
        lo, hi = F.interval(la)
        lo = max(lo, 0)
        if hi < d:
            return a
        return Int(a.w, a.s, None, la - lin_atom(atom_op('#div', (la, d), a.w, lo // d, hi // d)).scale(d))
    return Int(a.w, a.s, None, lin_atom(atom_op('#rem', (la, lb), a.w)))


def op_cast(F, a, w, s):
    l = F.nlin(a.lin)
    lo, hi = F.interval(l)
    if lo >= imin(w, s) and hi <= imax(w, s):
        if a._b is not None and lo >= 0:
            b = F.nbits(a._b)
            if w <= a.w:
                b = b[:w]
            else:
                b = b + (ZERO_F,) * (w - a.w)
            return Int(w, s, b, None)
        return Int(w, s, None, l)
    if w <= a.w:
        return Int(w, s, F.ibits(a)[:w])
    if lo >= 0:
        return Int(w, s, F.ibits(a) + (ZERO_F,) * (w - a.w))
    b = F.ibits(a)
    return Int(w, s, b + (b[-1],) * (w - a.w))


def c_le(a, b):
    """a <= b on Lin"""
    return ('le', a - b)


def c_lt(a, b):
    return ('le', a - b + 1)


def c_eqi(a, b):
    return ('eq', a, b)


def c_eql(a, b):
    """equality of two Lins (usize)"""
    return ('eq', usz(a), usz(b))
