"""Refutation of abstract equalities / inclusions.

Two abstract values that are not provably equal may still be equal, so a difference counts only when a
valuation of the atoms is found that satisfies the facts of the partition and tells the values apart.
Nothing of the analysed program is executed: only normal forms of the abstract domain are evaluated.
"""
import random, time
from val import *

BAD = ('#unk', '#hv', '#acc', '#acclen', '#hvlen', '#probe')


WORK = 800000      # atom evaluations per refutation attempt


class Fail(Exception):
    pass


def imprecise(x, seen=None):
    """does a key / value mention something the analysis lost track of?"""
    if isinstance(x, str):
        return x in BAD
    if isinstance(x, (int, type(None), bool)):
        return False
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in BAD:
            return True
        return any(imprecise(y) for y in x if not isinstance(y, (int, type(None))))
    if isinstance(x, Lin):
        return any(atom_imprecise(a) for a, _ in x.t)
    if isinstance(x, AtomRef):
        return atom_imprecise(x.a)
    if isinstance(x, Int):
        return imprecise(x.lin)
    if isinstance(x, Bool):
        return imprecise(x.c)
    if isinstance(x, Adt):
        return any(imprecise(y) for y in x.f)
    if isinstance(x, Seq):
        return imprecise(x.segs)
    if isinstance(x, Sym):
        return imprecise(x.id)
    if isinstance(x, Opq):
        return imprecise(x.k)
    if isinstance(x, Ref):
        return imprecise(x.root) or imprecise(x.path) or imprecise(x.sub)
    if isinstance(x, Clo):
        return any(imprecise(y) for y in x.caps)
    if isinstance(x, frozenset):
        for y in x:
            if isinstance(y, int):
                if y != ONE and atom_imprecise(y >> 8):
                    return True
            elif imprecise(y):
                return True
        return False
    return False


_ai = {}


def atom_imprecise(a):
    r = _ai.get(a)
    if r is None:
        _ai[a] = False
        r = imprecise(ATOM_KEY[a][1:])
        _ai[a] = r
    return r


def bad_name(x):
    """name of the first imprecise thing in x, for reports"""
    if isinstance(x, Lin):
        for a, _ in x.t:
            if atom_imprecise(a):
                return atom_name(a)
    return str(x)[:200]


def facts_imprecise(F):
    for l in F.ineq:
        if imprecise(l):
            return l
    for a in F.rng:
        if atom_imprecise(a):
            return lin_atom(a)
    for c in F.conds():
        if imprecise(c):
            return c
    return None


def venc(v):
    for i, n in enumerate((1, 2, 4, 8)):
        if v < 1 << (8 * n - 2):
            return ((i << (8 * n - 2)) | v).to_bytes(n, 'big')
    raise Fail('varint overflow')


BIG = {'#q', '#enc', '#ct', '#tag', '#pt', '#expand', '#extract', '#auth'}
TOKENS = {}


def token(x):
    n = TOKENS.get(x)
    if n is None:
        n = TOKENS[x] = len(TOKENS)
    return ('#k', n)


class Model:
    def __init__(self, E, F, rnd, work=None):
        self.work = work if work is not None else [10000000]
        self.E, self.F, self.rnd = E, F, rnd
        self.free = {}
        self.fatom = {}
        self.bind = {}
        self.memo = {}
        self.touch = None
        self.tmemo = {}
        self.depth = 0
        self.bias = rnd.random()        # a part of the valuations has mostly extreme bytes

    # ---- free choices
    def choose(self, lo, hi):
        r = self.rnd.random()
        if hi <= lo:
            return lo
        if r < 0.25:
            return lo
        if r < 0.45:
            return min(hi, lo + self.rnd.randrange(0, 4))
        if r < 0.75:
            return min(hi, lo + self.rnd.randrange(0, 40))
        if r < 0.85:
            return hi if hi < 1 << 20 else min(hi, lo + self.rnd.randrange(0, 1000))
        if hi - lo < 1 << 16 or r < 0.95:
            return self.rnd.randint(lo, min(hi, lo + (1 << 16)))
        return self.rnd.randint(lo, hi)

    def pick(self, a, w):
        lo, hi = self.F.arange(a) if a is not None else (0, (1 << w) - 1)
        kind = ATOM_KEY[a][0] if a is not None else 'at'
        for _ in range(6):
            if kind == 'at' or (a is not None and ATOM_W[a] <= 8):
                v = self.rnd.randint(lo, hi)
                if self.bias < 0.3 and self.rnd.random() < 0.8:
                    v = lo if self.bias < 0.2 else hi
            else:
                v = self.choose(lo, hi)
            if a is not None and a in self.F.touched and v >= 0:
                for k in range(ATOM_W[a]):
                    s = self.F.sub.get(a << 8 | k)
                    if s is not None:
                        b = self.form(s)
                        v = (v & ~(1 << k)) | (b << k)
            if lo <= v <= hi:
                return v
        return v

    def var(self, key, a, w):
        if self.touch is not None:
            self.touch.add(key)
        v = self.free.get(key)
        if v is None:
            if a is not None and a in self.F.eqs and not self.bind:
                l = self.F.eqs[a]
                v = self.lin(l)
                if not (ATOM_LO[a] <= v <= ATOM_HI[a]):
                    v = self.pick(a, w)
                else:
                    return v
            else:
                v = self.pick(a, w)
            self.free[key] = v
            self.fatom[key] = a
        return v

    # ---- evaluation
    def form(self, f):
        b = 0
        for x in f:
            if x == ONE:
                b ^= 1
            else:
                b ^= (self.atom(x >> 8) >> (x & 255)) & 1
        return b

    def lin(self, l):
        v = l.c
        for a, k in l.t:
            v += k * self.atom(a)
        return v

    def atom(self, a):
        if a in self.bind:
            return self.bind[a]
        if self.touch is None and not self.bind:
            v = self.memo.get(a)
            if v is not None:
                return v
        outer = None
        if self.touch is not None and not self.bind:
            r = self.tmemo.get(a)
            if r is not None:
                self.touch |= r[1]
                return r[0]
            outer = self.touch
            self.touch = set()
        self.depth += 1
        self.work[0] -= 1
        if self.depth > 3000 or self.work[0] < 0:
            raise Fail('depth')
        v = self._atom(a)
        self.depth -= 1
        if outer is not None:
            self.tmemo[a] = (v, self.touch)
            outer |= self.touch
            self.touch = outer
        elif self.touch is None and not self.bind:
            self.memo[a] = v
        return v

    def _atom(self, a):
        k = ATOM_KEY[a]
        w = ATOM_W[a]
        if k[0] == 'v':
            return self.var(('v', k[1]), a, w)
        if k[0] == 'ext':
            return (self.atom(k[1].a) >> k[2]) & ((1 << k[3]) - 1)
        if k[0] == 'bv':
            v = 0
            for i, f in enumerate(k[1]):
                v |= self.form(f) << i
            return v
        if k[0] == 'lb':
            return self.lin(k[1]) & ((1 << k[2]) - 1)
        if k[0] == 'at':
            return self.elem(k[1], self.lin(k[2]), a)
        name, args = k[1], k[2]
        h = INTERP.get(name if isinstance(name, str) else name[0])
        if h is not None:
            return h(self, a, name, args)
        return self.var(('op', self.ekey(name), self.ekey(args)), a, w)

    def elem(self, src, idx, a=None):
        if isinstance(src, tuple) and src and src[0] == '#venc':
            b = venc(self.lin(src[1]))
            if not 0 <= idx < len(b):
                raise Fail('venc index')
            return b[idx]
        if isinstance(src, tuple) and src and src[0] == '#u160enc':
            x = (self.lin(src[1]) << 128 | self.lin(src[2])).to_bytes(20, 'big')
            n = self.lin(src[3])
            return x[20 - n + idx]
        w = SRC_W.get(src, 8)
        if src in SRC_T:
            return ('el', self.ekey(src), idx)
        return self.var(('at', self.ekey(src), idx), a, w)

    def ekey(self, x):
        if isinstance(x, tuple) and x and not self.bind and isinstance(x[0], str) and x[0] in BIG:
            return self.bigkey(x)
        return self.ekey1(x)

    def bigkey(self, x):
        """evaluated arguments of an uninterpreted function, replaced by a number standing for their value"""
        i = id(x)
        if self.touch is None:
            r = self.memo.get(('k', i))
            if r is None:
                r = self.memo[('k', i)] = (x, token(self.ekey1(x)))
            return r[1]
        r = self.tmemo.get(('k', i))
        if r is None:
            outer = self.touch
            self.touch = set()
            r = self.tmemo[('k', i)] = (x, token(self.ekey1(x)), self.touch)
            self.touch = outer
        self.touch |= r[2]
        return r[1]

    def ekey1(self, x):
        if isinstance(x, Lin):
            return self.lin(x)
        if isinstance(x, AtomRef):
            return self.atom(x.a)
        if isinstance(x, Int):
            return self.lin(x.lin)
        if isinstance(x, tuple):
            if x and x[0] == '#q' and len(x) == 2 and isinstance(x[1], tuple):
                return ('#q',) + self.seq(Seq(x[1]))
            return tuple(self.ekey(y) for y in x)
        if isinstance(x, (Adt, Seq, Sym, Opq, Bool)):
            return self.val(x)
        return x

    def cond(self, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'le':
            return self.lin(c[1]) <= 0
        if k == 'eq':
            return self.lin(c[1].lin) == self.lin(c[2].lin)
        if k == 'not':
            return not self.cond(c[1])
        if k == 'and':
            return self.cond(c[1]) and self.cond(c[2])
        if k == 'atom':
            if isinstance(c[1], tuple) and c[1] and c[1][0] == '#has':
                return self.has(c[1])
            d = self.F.cond.get(c[1])
            if d is not None:
                return d
            if isinstance(c[1], tuple) and c[1] and c[1][0] == '#mulov' and len(c[1]) == 3:
                return self.lin(c[1][1][0]) * self.lin(c[1][1][1]) > c[1][2]
            return bool(self.var(('cond', self.ekey(c[1])), None, 1))
        if k == 'var':
            v = self.F.var.get(c[1])
            if v is None or isinstance(v, frozenset):
                return self.var(('var', self.ekey(c[1])), None, 3) == c[2]
            return v == c[2]
        raise Fail('cond')

    def has(self, key):
        """membership depends on the value of the key, however it is computed"""
        k = self.ekey(key)
        r = None
        for o, v in self.F.cond.items():
            if isinstance(o, tuple) and o and o[0] == '#has' and (o == key or self.ekey(o) == k):
                if r is not None and r != v:
                    raise Fail('map')
                r = v
        return r if r is not None else bool(self.var(('cond', k), None, 1))

    def seq(self, q):
        out = []
        for s in q.segs:
            self.seg(s, out)
            if len(out) > 20000:
                raise Fail('long')
        return tuple(out)

    def seg(self, s, out):
        if s[0] == 'e':
            out.append(self.val(s[1]))
            return
        n = self.lin(s[-1])
        if n < 0 or n > 20000:
            raise Fail('length')
        if s[0] == 's':
            o = self.lin(s[2])
            for i in range(n):
                out.append(self.elem(s[1], o + i))
        elif s[0] == 'r':
            v = self.val(s[1])
            out.extend([v] * n)
        else:
            old = self.bind
            for i in range(n):
                self.bind = dict(old)
                self.bind[s[1]] = i
                for x in s[2]:
                    self.seg(x, out)
            self.bind = old

    def differ(self, a, b):
        """are two values different? long sequences are compared on a prefix and by their length"""
        if isinstance(a, Seq) and isinstance(b, Seq):
            x, y = self.stream(a.segs), self.stream(b.segs)
            end = object()
            for _ in range(3000):
                p, q = next(x, end), next(y, end)
                if p is end and q is end:
                    return False
                if p is end or q is end or p != q:
                    return True
            try:
                return self.lin(seq_len(a)) != self.lin(seq_len(b))
            except (Fail, KeyError, TypeError, ValueError):
                raise Fail('long')
        if isinstance(a, Adt) and isinstance(b, Adt) and a.d == b.d and a.v == b.v and len(a.f) == len(b.f):
            return any(self.differ(x, y) for x, y in zip(a.f, b.f))
        return self.val(a) != self.val(b)

    def stream(self, segs):
        for s in segs:
            if s[0] == 'e':
                yield self.val(s[1])
                continue
            n = self.lin(s[-1])
            if n < 0:
                raise Fail('length')
            if s[0] == 's':
                o = self.lin(s[2])
                for i in range(n):
                    yield self.elem(s[1], o + i)
            elif s[0] == 'r':
                v = self.val(s[1])
                for i in range(n):
                    yield v
            else:
                if n > 3000:
                    raise Fail('length')
                out = []
                self.seg(s, out)
                yield from out

    def val(self, v):
        if isinstance(v, Int):
            return self.lin(v.lin)
        if isinstance(v, Bool):
            return self.cond(v.c)
        if isinstance(v, Adt):
            return (v.d, v.v) + tuple(self.val(x) for x in v.f)
        if isinstance(v, Seq):
            return ('seq',) + self.seq(v)
        if isinstance(v, Sym):
            return ('sym', self.ekey(v.id))
        if isinstance(v, Opq):
            return ('opq', self.ekey(v.k))
        if isinstance(v, Ref):
            return ('ref', self.ekey(v.root), self.ekey(v.path), self.ekey(v.sub) if v.sub else None)
        if isinstance(v, Clo):
            return ('clo', v.d) + tuple(self.val(x) for x in v.caps)
        return ('?', repr(v))

    def describe(self):
        out = {}
        for k, v in sorted(self.free.items(), key=str)[:60]:
            out[pname(k)[:120]] = v
        return out


def i_varint(M, a, name, args):
    src, pos = args
    p = M.lin(pos)
    ks = M.ekey(src)
    if M.touch is not None:
        M.touch.add(('varint', ks, p))
    k0 = ('at', ks, p)
    force = M.free.get(('varint', ks, p))
    if k0 not in M.free or force is not None:
        v = force if force is not None else M.pick(a, 64)
        L = atom_op('#vlen', args, 64, 1, 8)
        lo, hi = M.F.arange(L)
        c = [n for n in (1, 2, 4, 8) if lo <= n <= hi and v < 1 << (8 * n - 2)]
        if not c:
            raise Fail('varint length')
        n = c[0] if M.rnd.random() < 0.7 else M.rnd.choice(c)
        tag = {1: 0, 2: 1, 4: 2, 8: 3}[n]
        b = ((tag << (8 * n - 2)) | v).to_bytes(n, 'big')
        for i in range(n):
            M.free[('at', ks, p + i)] = b[i]
        M.free[('varint', ks, p)] = None
        M.fatom[('varint', ks, p)] = a
        return v
    n = 1 << (M.elem(src, p) >> 6)
    v = M.elem(src, p) & 63
    for i in range(1, n):
        v = v << 8 | M.elem(src, p + i)
    return v


def i_vlen(M, a, name, args):
    i_varint(M, atom_op('#varint', args, 64, 0, (1 << 62) - 1), '#varint', args)
    return 1 << (M.elem(args[0], M.lin(args[1])) >> 6)


def i_vencn(M, a, name, args):
    return len(venc(M.lin(args[0])))


def u160(M, args):
    src, pos, n = args
    p, n = M.lin(pos), M.lin(n)
    v = 0
    for i in range(min(n, 255)):
        v = v << 8 | M.elem(src, p + i)
    return v


def i_hi(M, a, name, args):
    return (u160(M, args) >> 128) & 0xffffffff


def i_lo(M, a, name, args):
    return u160(M, args) & ((1 << 128) - 1)


def i_rec(M, a, name, args):
    key = name
    n = M.lin(args[0])
    if n > 600 or n < 0:
        raise Fail('rec')
    for g, (v0, steps) in M.E.recs.items():
        if ATOM_KEY[g][1] == key:
            break
    else:
        raise Fail('rec unknown')
    v = M.lin(v0.lin)
    k = ATOM_KEY[g][2][0].t[0][0]
    s = [x for x in steps if isinstance(x, Int)]
    if n and (not s or any(x != s[0] for x in s)):
        raise Fail('rec steps')
    old = M.bind
    vals = [v]
    if M.touch is None and not (set(old) & (deps_of(s[0].lin) | deps_of(v0.lin)) if n else ()):
        vals = M.memo.setdefault(('rec', key), vals)
        if vals[0] != v:
            vals = [v]
    try:
        for i in range(len(vals) - 1, n):
            M.bind = dict(old)
            M.bind[k] = i
            M.bind[g] = vals[i]
            vals.append(M.lin(s[0].lin) & ((1 << s[0].w) - 1))
    finally:
        M.bind = old
    return vals[n]


def i_div(M, a, name, args):
    x = M.lin(args[0])
    y = args[1] if isinstance(args[1], int) else M.lin(args[1])
    if y == 0:
        raise Fail('division')
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q


def i_rem(M, a, name, args):
    x = M.lin(args[0])
    y = args[1] if isinstance(args[1], int) else M.lin(args[1])
    if y == 0:
        raise Fail('division')
    r = abs(x) % abs(y)
    return -r if x < 0 else r


def i_mul(M, a, name, args):
    return M.lin(args[0]) * M.lin(args[1])


def i_and(M, a, name, args):
    return M.form(args[0]) & M.form(args[1])


def i_wrap(M, a, name, args):
    return M.lin(args[0]) & ((1 << ATOM_W[a]) - 1)


def i_signed(M, a, name, args):
    v = 0
    for i, f in enumerate(args[0]):
        v |= M.form(f) << i
    w = len(args[0])
    return v - (1 << w) if v >> (w - 1) else v


INTERP = {'#wrap': i_wrap, '#signed': i_signed, '#div': i_div, '#rem': i_rem, '#mul': i_mul, '#and': i_and,
          '#varint': i_varint, '#vlen': i_vlen, '#vencn': i_vencn, '#u160hi': i_hi, '#u160lo': i_lo, '#rec': i_rec}


def i_clz(M, a, name, args):
    raise Fail('uninterpreted')


def reaches(M):
    """a valuation that leaves a loop after n rounds must go round n times first"""
    for key, n in list(M.free.items()):
        a = M.fatom.get(key)
        ways = LOOPBACK.get(a)
        if not ways:
            continue
        for j in list(range(min(n, 24))) + [n - 1] if n > 0 else ():
            M.bind = {a: j}
            try:
                if not any(all(M.cond(c) for c in w) for w in ways):
                    return False
            finally:
                M.bind = {}
    return True


def solve(E, F, goal, seed=1, tries=300, extra=()):
    """a valuation satisfying F in which goal(M) holds; None when none was found"""
    rnd = random.Random(seed)
    cons = list(extra) + [('le', l) for l in F.ineq] + F.conds()
    for a, (lo, hi) in F.rng.items():
        cons.append(('le', lin_atom(a) - hi))
        cons.append(('le', Lin(lo) - lin_atom(a)))
    for a, l in F.eqs.items():
        cons.append(('le', lin_atom(a) - l))
        cons.append(('le', l - lin_atom(a)))
    for l in F.neq:
        cons.append(('not', ('eq', usz(l), usz(L0))))
    cons = [c for c in dict.fromkeys(cons) if c is not True]
    va = set()
    for c in cons:
        for a in deps_of(c):
            if ATOM_KEY[a][0] == 'op' and ATOM_KEY[a][1] in ('#varint', '#vlen'):
                va.add(a)
    good = 0
    work = [WORK]
    t1 = time.time() + 60
    for t in range(tries):
        if work[0] <= 0 or time.time() > t1:
            break
        M = Model(E, F, rnd, work)
        try:
            for a in sorted(va):
                M.atom(a)
            okk = False
            for it in range(60):
                M.memo = {}
                viol = [c for c in cons if not M.cond(c)]
                if not viol:
                    okk = True
                    break
                c = rnd.choice(viol)
                repair(M, c, rnd)
            if not okk:
                continue
            M.memo = {}
            good += 1
            if goal(M):
                # the goal may have chosen further values: the facts must still hold
                M.memo = {}
                if all(M.cond(c) for c in cons) and reaches(M):
                    return M
        except Fail:
            continue
        except RecursionError:
            continue
    return None


def repair(M, c, rnd):
    M.touch = set()
    M.tmemo = {}
    neg = False
    while c[0] == 'not':
        neg = not neg
        c = c[1]
    if c[0] == 'and':
        sub = [x for x in (c[1], c[2]) if M.cond(x) == neg]
        if not sub:
            sub = [c[1], c[2]]
        M.touch = None
        x = rnd.choice(sub)
        return repair(M, c_not(x) if neg else x, rnd)
    l = None
    if c[0] == 'le':
        l = c[1] if not neg else Lin(1) - c[1]
    elif c[0] == 'eq':
        l = c[1].lin - c[2].lin
    M.cond(c)
    touch = sorted(M.touch, key=str)
    M.touch = None
    if l is not None and not (c[0] == 'eq' and neg) and rnd.random() < 0.8:
        v = M.lin(l)
        ts = list(l.t)
        rnd.shuffle(ts)
        for a, k in ts:
            kk = ATOM_KEY[a]
            key = None
            if kk[0] == 'v':
                key = ('v', kk[1])
            elif kk[0] == 'at' and kk[1] not in SRC_T:
                key = ('at', M.ekey(kk[1]), M.lin(kk[2]))
            elif kk[0] == 'op' and kk[1] == '#varint':
                key = ('varint', M.ekey(kk[2][0]), M.lin(kk[2][1]))
            elif kk[0] == 'op' and (kk[1] if isinstance(kk[1], str) else kk[1][0]) not in INTERP:
                key = ('op', M.ekey(kk[1]), M.ekey(kk[2]))
            if key is None or (key not in M.free and a not in M.F.eqs):
                continue
            if a in M.F.eqs:
                continue
            cur = M.atom(a)
            lo, hi = M.F.arange(a)
            d = -(-v // k) if k > 0 else -(-v // -k) * -1
            if c[0] == 'eq' and v % k:
                continue
            if c[0] == 'eq':
                d = v // k
            nv = cur - d
            if c[0] != 'eq' and rnd.random() < 0.3:
                nv -= rnd.randrange(0, 3) * (1 if k > 0 else -1)
            nv = max(lo, min(hi, nv))
            if nv == cur:
                continue
            M.free[key] = nv
            return
    if touch:
        key = rnd.choice(touch)
        M.free.pop(key, None)
