"""Comparison of analysed outcomes with a reference written over the same abstract domain.

Every outcome of the analysed function is a partition of the input space (facts) with a result.  The
reference is evaluated under the facts of the partition, splitting it where the reference needs a decision
the code did not make.  An obligation is discharged when the two results are equal in the domain; it is a
violation only when the partition is free of imprecision and a valuation of its facts tells the two results
apart; anything else is recorded as undecided.
"""
import os, time, traceback
from eng import *
import lib, loops, wit, contracts
from contracts import byte, be, u160_of, iso_stream, stream_pos, V62

MAXSPLIT = 400
WTIME = 300      # seconds spent on refutations per check


class SpecErr(Exception):
    """the reference rejects the input"""


class Missing(Exception):
    """an entry point the property is anchored to does not exist"""


class Ctx:
    def __init__(self, E, pid, seed=1, tier='quick'):
        self.E, self.pid, self.seed, self.tier = E, pid, seed, tier
        self.obl = 0
        self.dis = 0
        self.unknown = []
        self.viol = []
        self.known = []
        self.known_keys = {}
        self.samples = []
        self.rules = {}
        self.functions = {}
        self.partitions = 0
        self.assumptions = []
        self.C = E.contract
        self.t0 = time.time()
        self.wtries = 400 if tier == 'quick' else 3000
        self.cur = None
        self.wtime = 0

    # ------------------------------------------------------------ anchors
    def fn(self, path, *alts):
        """resolve an entry point: exact path, then the unique function with the same last components"""
        E = self.E
        for p in (path,) + alts:
            if p in E.fns and E.fns[p].get('blocks'):
                return p
        last = path.split('::')[-1]
        c = [d for d, f in E.fns.items() if f.get('blocks') and d.split('::')[-1] == last and d.startswith('quic_sea::')]
        two = '::'.join(path.split('::')[-2:])
        c2 = [d for d in c if d.endswith(two)]
        if len(c2) == 1:
            return c2[0]
        if len(c) == 1:
            return c[0]
        raise Missing(path)

    # ------------------------------------------------------------ running
    def run(self, d, args, st, env=None, budget=3000000):
        """outcomes of a function; panics and unsupported constructs are kept in E"""
        E = self.E
        E.reset()
        E.max_steps = budget
        try:
            res = E.exec_fn(d, args, st, env)
        except Budget:
            res = []
            self.und('%s: analysis budget exceeded' % d)
        except (Unsupported, Split) as e:
            res = []
            self.und('%s: %s' % (d, e))
        for f, n in E.visited.items():
            self.functions[f] = self.functions.get(f, 0) + n
        for stack, sp, why in E.unsup:
            self.und('%s: construct not modelled at %s: %s' % (d, sp, why))
        for k in E.unmod:
            self.note_unmod(d, k)
        self.partitions += len(res)
        return res

    def note_unmod(self, d, k):
        self.und('%s: library call not modelled: %s' % (d, k))

    # ------------------------------------------------------------ verdicts
    def ok(self, label=''):
        self.obl += 1
        self.dis += 1
        if label and len(self.samples) < 40:
            self.samples.append(label)
        k = label.split(':')[0] if label else ''
        self.rules[k] = self.rules.get(k, 0) + 1

    def und(self, why):
        self.obl += 1
        if why not in self.unknown:
            self.unknown.append(why)

    def bad(self, key, text, detail=None):
        if key in self.known_keys:
            if key not in self.known:
                self.obl += 1
                self.known.append(key)
            return
        self.obl += 1
        for v in self.viol:
            if v['key'] == key:
                return
        if not self.viol:
            self.vtime = time.time()
        self.viol.append({'key': key, 'text': text, 'detail': detail or {}})

    def refute(self, F, goal, label, key, text, values=(), loc=None):
        """violation if a valuation of F satisfying goal exists, undecided otherwise"""
        b = wit.facts_imprecise(F)
        if b is None:
            for v in values:
                if wit.imprecise(v):
                    b = v
                    break
        if b is not None:
            self.und('%s: %s (imprecise: %s)' % (label, text, wit.bad_name(b)))
            return None
        if key in self.known or any(x['key'] == key for x in self.viol):
            self.obl += key not in self.known
            return None
        if self.untried(label) > 60:
            self.und('%s: %s (not examined further)' % (label, text))
            return None
        if self.wtime > WTIME or len(self.viol) > 6 or (self.viol and time.time() > self.vtime + 15):
            self.und('%s: %s (refutation budget used up)' % (label, text))
            return None
        t0 = time.time()
        M = wit.solve(self.E, F, goal, seed=self.seed, tries=self.wtries)
        self.wtime += time.time() - t0
        if M is None:
            self.und('%s: %s (no distinguishing valuation found)' % (label, text))
            return None
        self.bad(key, text, {'where': loc, 'valuation': M.describe(), 'facts': [cname(c) for c in F.conds()][-40:]})
        return M

    def untried(self, label):
        self._tried = getattr(self, '_tried', {})
        self._tried[label] = self._tried.get(label, 0) + 1
        return self._tried[label]

    # ------------------------------------------------------------ splitting
    def splits(self, F, fn):
        """[(facts, result)] of a reference function evaluated under F"""
        out = []
        work = [F]
        n = 0
        while work:
            G = work.pop()
            n += 1
            if n > MAXSPLIT:
                self.und('reference: too many partitions')
                return out
            try:
                out.append((G, fn(G)))
            except SpecErr as e:
                out.append((G, e))
            except Split as s:
                for a in s.alts:
                    H = G.assume(a)
                    if H is not None:
                        work.append(H)
        return out

    # ------------------------------------------------------------ comparison
    def same(self, F, got, want, label, key, text, loc=None):
        """one obligation: got equals want under F"""
        for G, r in self.splits(F, lambda G: eqv(G, got, want)):
            if r is True:
                self.ok(label)
            else:
                self.refute(G, lambda M: M.differ(got, want), label, key,
                            '%s: got %s, expected %s' % (text, shown(G, got), shown(G, want)), (got, want), loc)

    def same_lin(self, F, a, b, label, key, text, loc=None):
        if F.eq0(a - b) is True:
            self.ok(label)
        else:
            self.refute(F, lambda M: M.lin(a) != M.lin(b), label, key, '%s: got %s, expected %s' % (text, F.nlin(a), F.nlin(b)), (a, b), loc)

    def holds(self, F, c, label, key, text, loc=None):
        d = F.dec(c)
        if d is True:
            self.ok(label)
            return
        G = F.assume(c_not(c))
        if G is None:
            self.ok(label)
            return
        self.refute(G, lambda M: True, label, key, text, (), loc)

    def feasible(self, F, label, key, text, loc=None, values=()):
        """a partition in which code and reference disagree: violation when it is inhabited"""
        self.refute(F, lambda M: True, label, key, text, values, loc)

    def no_panics(self, d, key, label='panic', env=(), known=None):
        """every panic reached in the last run must be infeasible"""
        for p in self.E.panics:
            if env_panic(p):
                continue
            site = psite(p)
            k = '%s:%s' % (key, site)
            for F in p.st.cases():
                self.feasible(F, label, k, '%s may panic: %s' % (d, panic_text(p)), panic_text(p))

    def outcome(self, d, name, res, st_args, ref, cmp_ok, label, panics=True):
        """compare every outcome of a Result-returning function with a reference.

        ref(G) -> expected value (or SpecErr); cmp_ok(G, state, value, expected) adds the obligations.
        """
        for s2, v in res:
            if not (isinstance(v, Adt) and v.d == RES):
                self.und('%s: result not resolved: %r' % (name, v))
                continue
            if v.v == 0:
                for F in s2.cases():
                    for G, r in self.splits(F, ref):
                        if isinstance(r, SpecErr):
                            self.feasible(G, label, '%s:accepts' % name, '%s accepts input that must be rejected (%s)' % (name, r), d)
                        else:
                            cmp_ok(G, s2, v.f[0], r)
            else:
                for F in s2.cases():
                    for G, r in self.splits(F, ref):
                        if isinstance(r, SpecErr):
                            self.ok(label + ':rejected')
                        else:
                            self.feasible(G, label, '%s:rejects' % name, '%s rejects input that must be accepted as %s' % (name, shown(G, r)), d)
        if panics:
            self.no_panics(d, name)


def env_panic(p):
    """failures of the environment, not of the analysed input: poisoned locks, stdout, entropy, allocation"""
    m = p.msg or ''
    return m.startswith('env:') or 'poison' in m or p.kind == 'env'


def psite(p):
    """stable name of a panic site: innermost local function and kind"""
    f = p.stack[-1] if p.stack else '?'
    return '%s/%s' % (f, p.kind)


def panic_text(p):
    return '%s at %s (%s) via %s' % (p.kind, p.site, p.msg, ' > '.join(x.replace('quic_sea::', '') for x in p.stack))


def cname(c):
    if c is True or c is False:
        return str(c)
    k = c[0]
    if k == 'le':
        return '%s <= 0' % (c[1],)
    if k == 'eq':
        return '%s == %s' % (c[1], c[2])
    if k == 'not':
        return 'not(%s)' % cname(c[1])
    if k == 'and':
        return '(%s and %s)' % (cname(c[1]), cname(c[2]))
    return pname(c)[:200]


def shown(F, v):
    try:
        if isinstance(v, Seq):
            return str(seq_norm(F, v))[:300]
        if isinstance(v, Int):
            return str(F.nint(v))[:200]
    except (Split, Unsupported):
        pass
    return str(v)[:300]


# ------------------------------------------------------------------ equality of values, splitting when undecided
def eqv(F, a, b):
    if a is b or a == b:
        return True
    if isinstance(a, Int) and isinstance(b, Int):
        return F.ieq(a, b) is True
    if isinstance(a, Bool) and isinstance(b, Bool):
        x, y = F.dec(a.c), F.dec(b.c)
        for z, c in ((x, a.c), (y, b.c)):
            if z is None:
                c = undecided_leaf(F, c)
                raise Split([c, c_not(c)], 'bool')
        return x == y
    if isinstance(a, Adt) and isinstance(b, Adt):
        return a.d == b.d and a.v == b.v and len(a.f) == len(b.f) and all(eqv(F, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_eq(F, a, b)
    return loops.same_val(F, a, b)


def undecided_leaf(F, c):
    if c[0] == 'not':
        return undecided_leaf(F, c[1])
    if c[0] == 'and':
        return undecided_leaf(F, c[1] if F.dec(c[1]) is None else c[2])
    return c


def seq_eq(F, a, b):
    x, y = seq_norm(F, a), seq_norm(F, b)
    if x.segs == y.segs:
        return True
    x, y = list(x.segs), list(y.segs)
    while x and y:
        p, q = x[0], y[0]
        lp, lq = F.nlin(seg_len(p)), F.nlin(seg_len(q))
        if p == q:
            x.pop(0)
            y.pop(0)
            continue
        for z, l in ((x, lp), (y, lq)):
            if l.t and F.le0(l):
                z.pop(0)
                break
        else:
            z = None
        if z is not None:
            continue
        if p[0] == 'star' or q[0] == 'star':
            if loops.same_seg(F, p, q) or star_eq(F, p, q):
                x.pop(0)
                y.pop(0)
                continue
            return False
        if p[0] == 'e' and q[0] == 'e':
            if not eqv(F, p[1], q[1]):
                return False
            x.pop(0)
            y.pop(0)
            continue
        if p[0] == 's' and q[0] == 's' and p[1] == q[1] and F.eq0(p[2] - q[2]) is True:
            if F.eq0(lp - lq) is True:
                x.pop(0)
                y.pop(0)
                continue
            if need(F, c_le(lp, lq), 'segment'):
                x.pop(0)
                y[0] = ('s', q[1], F.nlin(q[2] + lp), F.nlin(lq - lp))
            else:
                y.pop(0)
                x[0] = ('s', p[1], F.nlin(p[2] + lq), F.nlin(lp - lq))
            continue
        # element wise
        for l in (lp, lq):
            if not F.le0(L1 - l):
                need(F, c_le(L1, l), 'segment')
        if not (F.le0(L1 - lp) and F.le0(L1 - lq)):
            # one of them is empty: drop it
            if not F.le0(L1 - lp):
                x.pop(0)
            else:
                y.pop(0)
            continue
        u, x = pop1(F, x)
        v, y = pop1(F, y)
        if not eqv(F, u, v):
            return False
    for r in x + y:
        l = F.nlin(seg_len(r))
        if F.eq0(l) is not True:
            if F.dec(c_le(L1, l)) is None:
                raise Split([c_le(L1, l), c_not(c_le(L1, l))], 'segment')
            return False
    return True


def star_eq(F, p, q):
    if p[0] != 'star' or q[0] != 'star' or F.eq0(p[3] - q[3]) is not True:
        return False
    if len(p[2]) != len(q[2]):
        return False
    sb = Subst({q[1]: lin_atom(p[1])})
    qs = seg_subst(q[2], sb)
    return all(a == b or loops.same_seg(F, a, b) for a, b in zip(p[2], qs))


def pop1(F, segs):
    s = segs[0]
    if s[0] == 'e':
        return s[1], segs[1:]
    if s[0] == 's':
        return src_elem(F, s[1], s[2]), [('s', s[1], F.nlin(s[2] + 1), F.nlin(s[3] - 1))] + segs[1:]
    if s[0] == 'r':
        return s[1], [('r', s[1], F.nlin(s[2] - 1))] + segs[1:]
    raise Unsupported('pop of repeated segment')


# ------------------------------------------------------------------ reference reader
class R:
    """reference reader over a byte source"""

    def __init__(self, F, src, pos, end):
        self.F, self.src, self.pos, self.end = F, src, pos if isinstance(pos, Lin) else Lin(pos), end

    def have(self, n, what):
        n = n if isinstance(n, Lin) else Lin(n)
        if not need(self.F, c_le(self.pos + n, self.end), what):
            raise SpecErr('truncated ' + what)
        return n

    def adv(self, n):
        p = self.pos
        self.pos = self.F.nlin(self.pos + n)
        return p

    def uint(self, n, what='integer'):
        self.have(n, what)
        p = self.adv(n)
        return be(self.src, self.F.nlin(p), n, 8 * n)

    def u8(self, what='byte'):
        return self.uint(1, what)

    def bytes(self, n, what='bytes'):
        n = self.have(n, what)
        p = self.adv(n)
        return Seq((('s', self.src, self.F.nlin(p), self.F.nlin(n)),), U8)

    def rest(self):
        n = self.F.nlin(self.end - self.pos)
        p = self.adv(n)
        return Seq((('s', self.src, self.F.nlin(p), n),), U8)

    def varint(self, what='varint', raw=False):
        F = self.F
        p = F.nlin(self.pos)
        b = F.ibits(byte(self.src, p))
        top = [x for x in b[6:8]]
        if all(x in (ZERO_F, ONE_F) for x in top):
            n = 1 << ((top[0] == ONE_F) + 2 * (top[1] == ONE_F))
            self.have(n, what)
            v = be(self.src, p, n, 64, 2)
            n = Lin(n)
        else:
            n = lin_atom(atom_op('#vlen', (self.src, p), 64, 1, 8))
            v = Int(64, False, None, lin_atom(atom_op('#varint', (self.src, p), 64, 0, V62)))
            self.have(n, what)
        self.adv(n)
        if raw:
            return v, Seq((('s', self.src, p, n),), U8)
        return v

    def u160(self, n, what='connection id'):
        """(hi32, lo128) of n (Int8 or int) bytes"""
        F = self.F
        nl = F.nlin(n.lin) if isinstance(n, Int) else Lin(n)
        self.have(nl, what)
        p = F.nlin(self.adv(nl))
        if not nl.t:
            return u160_of(self.src, p, nl.c)
        key = (self.src, p, nl)
        return (Int(32, False, ATOM_BITS[atom_op('#u160hi', key, 32)]),
                Int(128, False, ATOM_BITS[atom_op('#u160lo', key, 128)]))


# ------------------------------------------------------------------ reference writer
def w_varint(F, x):
    """segments of the shortest varint of Int x (rejecting >= 2^62)"""
    l = F.nlin(x.lin)
    if not l.t:
        if l.c > V62:
            raise SpecErr('varint overflow')
        return [('e', iconst(b, 8)) for b in wit.venc(l.c)]
    if not need(F, c_le(l, Lin(V62)), 'varint'):
        raise SpecErr('varint overflow')
    n = lin_atom(atom_op('#vencn', (l,), 64, 1, 8))
    return [('s', ('#venc', l), L0, n)]


def w_uint(F, x, n):
    b = F.ibits(x)
    return [('e', Int(8, False, tuple(b[8 * i:8 * i + 8]))) for i in range(n - 1, -1, -1)]


def w_const(*bs):
    return [('e', iconst(b, 8)) for b in bs]


def cond_int(c, w=8):
    return None


def _floor(self, n, what):
    """vacuity guard: the number of obligations confirmed by hand on the reference tree"""
    if self.obl < n:
        self.und('fewer obligations (%d) than confirmed by hand (%d): %s' % (self.obl, n, what))


Ctx.floor = _floor


def bounded(X, f, bounds, cross=True):
    """run f(None); where it leaves something undecided, look for violations in instances of bounded size"""
    u = len(X.unknown)
    f(None)
    open_ = len(X.unknown) > u
    if open_ or X.tier == 'thorough' and cross:      # thorough: the unrolled instances cross-check the induction
        X.E.hooks['unroll'] = 5
        try:
            for k in bounds:
                if X.viol:
                    break
                v, w = len(X.unknown), X.obl - X.dis
                f(k)
                if not open_:
                    X.obl = X.dis + w
                    del X.unknown[v:]      # an instance only refutes; everything was decided in general
        finally:
            X.E.hooks.pop('unroll', None)
