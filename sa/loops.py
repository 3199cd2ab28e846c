"""Loop summarisation: bounded unrolling where the trip count is decided, induction otherwise."""
from eng import *

MAXUNROLL = 320


def do_loop(E, fr, h, st):
    hook = E.hooks.get('loop')
    if hook:
        r = hook(E, fr, h, st)
        if r is not None:
            return r
    E.nfid += 1
    uid = ('#l', fr.fn['d'], h, E.nfid)
    E.loop_depth = getattr(E, 'loop_depth', 0)
    first = E.run(fr, h, st.copy(), h)
    backs = [o[1] for o in first if o[0] == 'back']
    exits = [o for o in first if o[0] != 'back']
    if not backs:
        return exits
    key = (fr.fn['d'], h)
    mark = (len(E.panics), len(E.unsup))
    tried = len(E.backs), len(E.loops)
    if not exits and len(backs) == 1:
        r = decided(E, fr, h, backs[0], mark, tried)
        if r is not None:
            E.loopinfo[key] = 'unrolled'
            return r
    plan = induct(E, fr, h, st, backs, uid)
    lim = E.hooks.get('unroll') if plan[0] == 'ind' else None     # refutation mode: a few iterations only
    if plan[0] != 'ind' or lim:
        del E.backs[tried[0]:], E.loops[tried[1]:]
    if plan[0] == 'ind' and not lim:
        del E.panics[mark[0]:]
        E.panics.extend(plan[2])
        E.loopinfo[key] = 'induction'
        return plan[1]
    del E.panics[mark[0]:]
    del E.unsup[mark[1]:]
    E.loopinfo[key] = 'unrolled'
    res = list(exits)
    cur = backs
    n = 1
    forced = False
    while cur:
        n += 1
        if lim and n > lim:
            E.endless.append((fr, n, cur))
            if E.hooks.get('stall'):
                stall(E, fr, h, cur, n)
            break
        if n > MAXUNROLL:
            if E.hooks.get('stall'):
                E.endless.append((fr, n, cur))
            E.unsup.append((fr.stack, fr.fn['span'], 'loop not summarised'))
            break
        if n > 24 and not forced and (len(res) > 20 or len(cur[0].facts.ineq) > len(st.facts.ineq) + 20):
            # many iterations, each with exits of its own: summarise instead
            m2 = (len(E.panics), len(E.unsup))
            p2 = induct(E, fr, h, st, backs, uid + ('f',), True)
            if p2[0] == 'ind' and len(E.unsup) == m2[1]:
                del E.panics[mark[0]:]
                E.panics.extend(p2[2])
                E.loopinfo[key] = 'induction'
                return p2[1]
            del E.panics[m2[0]:]
            del E.unsup[m2[1]:]
            forced = True
        nxt = []
        for s in cur:
            for o in E.run(fr, h, s, h):
                if o[0] == 'back':
                    nxt.append(o[1])
                else:
                    res.append(o)
        cur = merge_same(nxt)
    return res


def decided(E, fr, h, s, mark, tried, upto=40):
    """unroll a loop for which every iteration decides whether there is another one"""
    for _ in range(upto):
        out = E.run(fr, h, s, h)
        backs = [o[1] for o in out if o[0] == 'back']
        if not backs:
            del E.backs[tried[0]:], E.loops[tried[1]:]
            return out
        if len(backs) > 1 or len(out) > 1:
            break
        s = backs[0]
    del E.panics[mark[0]:]
    del E.unsup[mark[1]:]
    del E.backs[tried[0]:], E.loops[tried[1]:]
    return None


def positions(st):
    """positions of all iterators over sequences"""
    out = []

    def go(v, depth):
        if isinstance(v, Adt):
            if v.d in ('@Stream', '@SIter', '@IntoIter') and len(v.f) > 1 and isinstance(v.f[1], Int):
                out.append(st.facts.nlin(v.f[1].lin))
            elif depth < 6:
                for x in v.f:
                    go(x, depth + 1)
    for k in sorted(st.mem, key=repr):
        go(st.mem[k], 0)
    return out


def stall(E, fr, h, cur, n, upto=260):
    """follow the ways round that read nothing"""
    while cur and n < upto:
        n += 1
        nxt = []
        for s in cur:
            p = positions(s)
            for o in E.run(fr, h, s, h):
                if o[0] == 'back' and positions(o[1]) == p:
                    nxt.append(o[1])
        cur = nxt[:2]
    if cur:
        E.endless.append((fr, n, cur))


def merge_same(sts):
    return sts


# ------------------------------------------------------------------ induction
class Leaf:
    __slots__ = ('kind', 'v0', 'delta', 'atom', 'j', 'step', 'app', 'ty', 'steps')

    def __init__(self, kind, v0, j):
        self.kind, self.v0, self.j = kind, v0, j
        self.delta = self.atom = self.step = self.app = self.ty = None
        self.steps = []


class Gen:
    def __init__(self, E, fr, uid, st, k):
        self.E, self.fr, self.uid, self.st, self.k = E, fr, uid, st, k
        self.modes = {}
        self.leaves = {}
        self.n = 0

    def leaf(self, key, kind, v0):
        m = self.modes.get(key)
        if m is not None:
            kind = m
        self.n += 1
        l = Leaf(kind, v0, len(self.leaves))
        self.leaves[key] = l
        return l

    def gen(self, key, v0, v1s, ty=None, stream=None):
        """generic value of a location at iteration k"""
        F0 = self.st.facts
        k = self.k
        mode = self.modes.get(key)
        if mode is None:
            same = True
            for v, F in v1s:
                if not (v is v0 or v == v0 or same_val(F, v, v0)):
                    same = False
                    break
            if same:
                return v0
        if isinstance(v0, Sym):
            if all(isinstance(v, Adt) for v, _ in v1s):
                try:
                    v0 = self.E.expand(self.st, v0)
                except (Split, Unsupported):
                    pass
        if isinstance(v0, Int) and all(isinstance(v, Int) and v.w == v0.w for v, _ in v1s):
            l = self.leaf(key, 'lin', v0)
            if l.kind == 'lin':
                ds = set()
                for v, F in v1s:
                    d = F.nlin(v.lin - v0.lin)
                    ds.add(d)
                if len(ds) == 1:
                    d = ds.pop()
                    if self.k not in deps_of(d) and stable(d, self.uid):
                        l.delta = d if not d.t else None
                        if d.t:
                            l.kind = 'rec'
                    else:
                        l.kind = 'rec'
                else:
                    l.kind = 'rec'
            if l.kind == 'lin':
                return Int(v0.w, v0.s, None, v0.lin + Lin(0, ((k, 1),)).scale(l.delta.c))
            if l.kind == 'rec':
                self.modes[key] = 'rec'
                lo, hi = (0, (1 << v0.w) - 1) if not v0.s else (-(1 << (v0.w - 1)), (1 << (v0.w - 1)) - 1)
                l.atom = atom_op(('#rec', self.uid, l.j), (Lin(0, ((k, 1),)),), v0.w, lo, hi)
                return Int(v0.w, v0.s, None, lin_atom(l.atom))
        if mode is None and isinstance(v0, Adt) and all(isinstance(v, Adt) and v.d == v0.d and v.v == v0.v and len(v.f) == len(v0.f) for v, _ in v1s):
            return Adt(v0.d, v0.v, [self.gen(key + (i,), x, [(v.f[i], F) for v, F in v1s]) for i, x in enumerate(v0.f)])
        if mode is None and isinstance(v0, Clo) and all(isinstance(v, Clo) and v.d == v0.d for v, _ in v1s):
            return Clo(v0.d, [self.gen(key + (i,), x, [(v.caps[i], F) for v, F in v1s]) for i, x in enumerate(v0.caps)], v0.env)
        if isinstance(v0, Seq) and all(isinstance(v, Seq) for v, _ in v1s):
            base = seq_norm(F0, v0)
            l = self.leaf(key, 'acc', base)
            if l.kind == 'acc':
                apps = [appended(F, base, v) for v, F in v1s]
                if all(a is not None for a in apps):
                    ls = {F.nlin(seq_len(Seq(a))) for a, (v, F) in zip(apps, v1s)}
                    src = ('#acc', self.uid, l.j)
                    e = v0.ety
                    if e is not None and e['k'] not in ('uint', 'int'):
                        SRC_T[src] = e
                    elif any(s[0] == 'e' and not isinstance(s[1], Int) for a in apps for s in a):
                        SRC_T[src] = {'k': 'never'}
                    if len(ls) == 1 and not next(iter(ls)).t:
                        c = next(iter(ls)).c
                        l.delta = c
                        n = Lin(0, ((k, 1),)).scale(c)
                    else:
                        l.delta = None
                        l.atom = atom_op(('#acclen', self.uid, l.j), (Lin(0, ((k, 1),)),), 64, 0, 1 << 48)
                        n = lin_atom(l.atom)
                    return Seq(base.segs + (('s', src, L0, n),), v0.ety)
                # element-wise update
                if all(s[0] == 'e' for s in base.segs) and all(len(seq_norm_e(F, v).segs) == len(base.segs) and all(s[0] == 'e' for s in seq_norm_e(F, v).segs) for v, F in v1s):
                    self.leaves.pop(key)
                    return Seq([('e', self.gen(key + (i,), s[1], [(seq_norm_e(F, v).segs[i][1], F) for v, F in v1s])) for i, s in enumerate(base.segs)], v0.ety)
            self.modes[key] = 'hv'
            l.kind = 'hv'
            src = ('#hv', self.uid, l.j, Lin(0, ((k, 1),)))
            if v0.ety is not None and v0.ety['k'] not in ('uint', 'int'):
                SRC_T[src] = v0.ety
            fixed = all(F.eq0(seq_len(v) - seq_len(v0)) is True for v, F in v1s)
            n = seq_len(v0) if fixed else lin_atom(atom_op(('#hvlen', self.uid, l.j), (Lin(0, ((k, 1),)),), 64, 0, 1 << 48))
            return Seq((('s', src, L0, n),), v0.ety)
        if mode is None and isinstance(v0, Ref) and all(isinstance(v, Ref) and v.root == v0.root and v.path == v0.path and v.sub and v0.sub for v, _ in v1s) and v0.sub:
            o = self.gen(key + ('o',), usz(v0.sub[0]), [(usz(v.sub[0]), F) for v, F in v1s])
            n = self.gen(key + ('n',), usz(v0.sub[1]), [(usz(v.sub[1]), F) for v, F in v1s])
            return Ref(v0.root, v0.path, (o.lin, n.lin))
        # give up: unknown of the declared type
        l = self.leaf(key, 'hv', v0)
        l.kind = 'hv'
        self.modes[key] = 'hv'
        if ty is not None:
            return sym_of(('#hv', self.uid, l.j, Lin(0, ((k, 1),))), ty)
        if isinstance(v0, Bool):
            return Bool(('atom', ('#hv', self.uid, l.j, Lin(0, ((k, 1),)))))
        return Opq('#hv', self.uid, l.j, Lin(0, ((k, 1),)))


def seq_norm_e(F, q):
    """normal form with short known stretches as elements"""
    q2 = seq_norm(F, q)
    out = []
    for s in q2.segs:
        if s[0] == 's' and not s[3].t and s[3].c <= 64:
            out.extend(('e', src_elem(F, s[1], s[2] + i)) for i in range(s[3].c))
        else:
            out.append(s)
    return Seq(out, q.ety)


def stable(d, uid):
    return True


def same_val(F, a, b):
    if a is b or a == b:
        return True
    if isinstance(a, Int) and isinstance(b, Int):
        return a.w == b.w and F.ieq(a, b) is True
    if isinstance(a, Bool) and isinstance(b, Bool):
        x, y = F.dec(a.c), F.dec(b.c)
        return x is not None and x == y
    if isinstance(a, Adt) and isinstance(b, Adt):
        return a.d == b.d and a.v == b.v and len(a.f) == len(b.f) and all(same_val(F, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Seq) and isinstance(b, Seq):
        x, y = seq_norm(F, a), seq_norm(F, b)
        if x.segs == y.segs:
            return True
        x, y = seq_norm_e(F, a), seq_norm_e(F, b)
        return len(x.segs) == len(y.segs) and all(same_seg(F, p, q) for p, q in zip(x.segs, y.segs))
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.root != b.root or len(a.path) != len(b.path):
            return False
        for p, q in zip(a.path, b.path):
            if p[0] != q[0]:
                return False
            if p[0] == 'i':
                if F.eq0(p[1] - q[1]) is not True:
                    return False
            elif p[1] != q[1]:
                return False
        if (a.sub is None) != (b.sub is None):
            return False
        return a.sub is None or (F.eq0(a.sub[0] - b.sub[0]) is True and F.eq0(a.sub[1] - b.sub[1]) is True)
    if isinstance(a, Clo) and isinstance(b, Clo):
        return a.d == b.d and all(same_val(F, x, y) for x, y in zip(a.caps, b.caps))
    return False


def same_seg(F, p, q):
    if p[0] != q[0]:
        return False
    if p[0] == 'e':
        return same_val(F, p[1], q[1])
    if p[0] == 's':
        return p[1] == q[1] and F.eq0(p[2] - q[2]) is True and F.eq0(p[3] - q[3]) is True
    if p[0] == 'r':
        return same_val(F, p[1], q[1]) and F.eq0(p[2] - q[2]) is True
    return p == q


def appended(F, base, v):
    """segments appended to base, or None"""
    b = base.segs
    q = seq_norm(F, v)
    bn = seq_norm(F, base)
    b = bn.segs
    n = len(b)
    if len(q.segs) < n:
        return None
    if n == 0:
        return q.segs
    for i in range(n - 1):
        if not (q.segs[i] == b[i] or same_seg(F, q.segs[i], b[i])):
            return None
    x, y = q.segs[n - 1], b[n - 1]
    if x == y or same_seg(F, x, y):
        return q.segs[n:]
    if x[0] == 's' and y[0] == 's' and x[1] == y[1] and F.eq0(x[2] - y[2]) is True:
        # merged slice: split it again
        return (('s', x[1], F.nlin(y[2] + y[3]), F.nlin(x[3] - y[3])),) + q.segs[n:]
    return None


def bits_free(x):
    return sum(1 for f in x.bits if f and f != ONE_F)


def induct(E, fr, h, st, backs, uid, force=False):
    k = atom_var(('#k', uid), 64, 0, (1 << 48))
    g = Gen(E, fr, uid, st, k)
    kl = Lin(0, ((k, 1),))
    inv = []
    result = None
    extra = {}
    tried = len(E.backs), len(E.loops)
    small = False
    for attempt in range(8):
        g.leaves = {}
        # what was recorded under an abandoned guess does not count
        del E.backs[tried[0]:], E.loops[tried[1]:]
        mark = len(E.unsup), len(E.panics)
        G = st.copy()
        changed = {}
        # only locations that exist before the loop survive an iteration
        srcs = backs
        for root, v0 in st.mem.items():
            v1s = []
            for b in srcs + extra.get(root, []):
                v1s.append((b.mem.get(root, v0), b.facts))
            ty = None
            if root[0] == 'L' and root[1] == fr.fid:
                ty = fr.lty(root[2])
            gv = g.gen((root,), v0, v1s, ty)
            if gv is not v0:
                changed[root] = gv
                G.mem[root] = gv
        for b in srcs + [x for v in extra.values() for x in v]:
            for root in b.mem:
                if root not in st.mem and root[0] == 'S' and root not in changed:
                    base = E.root_val(st, root)
                    gv = g.gen((root,), base, [(b2.mem.get(root, base), b2.facts) for b2 in srcs + extra.get(root, [])])
                    if gv is not base:
                        changed[root] = gv
                        G.mem[root] = gv
        F = G.facts
        for c in inv:
            F2 = F.assume(c)
            if F2 is None:
                return ('unroll',)
            F = F2
        for key, l in g.leaves.items():
            c = stream_inv(E, g, G, key, l)
            for x in c:
                F2 = F.assume(x)
                if F2 is not None:
                    F = F2
        # bookkeeping of events: an iteration's events are summarised
        G.facts = F
        ev0 = G.ev
        outs = E.run(fr, h, G.copy(), h)
        B = [o[1] for o in outs if o[0] == 'back']
        X = [o for o in outs if o[0] != 'back']
        failed = len(E.unsup) > mark[0]
        # trip count decided?
        nonlin = [l for l in g.leaves.values() if l.kind in ('rec', 'hv')]
        for o in X:
            s = o[2] if o[0] == 'exit' else o[1]
            lo, hi = s.facts.interval(kl)
            if lo == hi and lo <= MAXUNROLL and not force and not E.hooks.get('noconst'):
                return ('unroll',)
        his = [b.facts.interval(kl)[1] for b in B]
        if (nonlin or failed) and his and max(his) <= 70 and not force:
            return ('unroll',)
        if nonlin and small and not force:      # a guess that bounded the trips was refuted for other reasons
            return ('unroll',)
        small = small or bool(his and max(his) <= 40)
        if nonlin and attempt == 0:
            for key, l in g.leaves.items():
                if l.kind == 'rec' and isinstance(l.v0, Int):
                    v = locate(backs[0].mem.get(key[0]), key[1:])
                    if isinstance(v, Int) and v.w == l.v0.w and (shrinking(backs[0].facts, l.v0, v) if v.lin.t else l.v0.lin.t):
                        return ('unroll',)
        # verify the guess
        bad = False
        sb = Subst({k: kl + 1})
        for key, l in list(g.leaves.items()):
            for b in B:
                v = locate2(E, b, key)
                if l.kind == 'lin':
                    if not (isinstance(v, Int) and b.facts.eq0(v.lin - (l.v0.lin + (kl + 1).scale(l.delta.c))) is True):
                        g.modes[key] = 'rec'
                        bad = True
                elif l.kind == 'rec':
                    l.steps.append((v, b.facts))
                elif l.kind == 'acc':
                    gv = locate2(E, G, key)
                    a = appended(b.facts, gv, v) if isinstance(v, Seq) else None
                    if a is None:
                        g.modes[key] = 'hv'
                        bad = True
                        continue
                    n = b.facts.nlin(seq_len(Seq(a)))
                    if l.delta is not None and not (not n.t and n.c == l.delta):
                        g.modes[key] = 'hv'
                        bad = True
                        continue
                    a = merge_app(l.app, a, b.facts) if l.app is not None else a
                    if a is None:
                        g.modes[key] = 'hv'
                        bad = True
                        continue
                    l.app = a
                    if l.delta is None:
                        l.step = n
        # locations changed in the generic run but not before
        for b in B:
            for root, v in b.mem.items():
                if root in st.mem and root not in changed:
                    if v is not st.mem[root] and not same_val(b.facts, v, st.mem[root]):
                        extra.setdefault(root, []).append(b)
                        bad = True
                elif root not in st.mem and root not in changed and root[0] == 'S':
                    if not same_val(b.facts, v, E.root_val(st, root)):
                        extra.setdefault(root, []).append(b)
                        bad = True
        if bad:
            continue
        # invariants from back edges
        new = []
        if B:
            sh = Subst({k: kl - 1})
            z = Subst({k: L0})
            cands = []
            for l in B[0].facts.ineq:
                if k in deps_of(l):
                    cands.append(l)
            r = B[0].facts.rng.get(k)
            if r is not None and r[1] < (1 << 48):
                cands.append(kl - r[1])
            for l in cands:
                if not all(b is B[0] or b.facts.le0(l) for b in B):
                    continue
                s = sh.lin(l)
                if recs_in(s, uid):
                    continue
                if st.facts.le0(z.lin(s)):
                    c = ('le', s)
                    if c not in inv:
                        new.append(c)
        if new:
            inv.extend(new)
            continue
        panics = E.panics[mark[1]:]
        return ('ind', finish(E, fr, g, st, G, X, B, k, uid), panics)
    # could not stabilise: everything that changes becomes unknown
    E.unsup.append((fr.stack, fr.fn['span'], 'loop did not stabilise'))
    return ('ind', [], [])


def recs_in(l, uid):
    for a in deps_of(l):
        kk = ATOM_KEY[a]
        if kk[0] == 'op' and isinstance(kk[1], tuple) and kk[1][0] in ('#rec', '#acclen', '#hvlen') and kk[1][1] == uid:
            return True
    return False


def merge_app(a, b, F):
    if a == b:
        return a
    if len(a) == len(b) and all(same_seg(F, x, y) for x, y in zip(a, b)):
        return a
    return None


def locate(v, path):
    for p in path:
        if isinstance(v, Adt) and isinstance(p, int) and p < len(v.f):
            v = v.f[p]
        elif isinstance(v, Clo) and isinstance(p, int):
            v = v.caps[p]
        elif isinstance(v, Ref) and p in ('o', 'n') and v.sub:
            v = usz(v.sub[0] if p == 'o' else v.sub[1])
        elif isinstance(v, Seq) and isinstance(p, int):
            if p < len(v.segs) and all(s[0] == 'e' for s in v.segs):
                v = v.segs[p][1]
            else:
                q = seq_norm_e(Facts(), v)
                v = q.segs[p][1] if p < len(q.segs) and q.segs[p][0] == 'e' else None
        else:
            return None
    return v


def locate2(E, s, key):
    root = key[0]
    v = s.mem.get(root)
    if v is None and root[0] == 'S':
        v = E.root_val(s, root)
    return locate(v, key[1:])


def shrinking(F, a, b):
    x = sum(1 for f in F.ibits(a) if not f)
    y = sum(1 for f in F.ibits(b) if not f)
    return y > x


def stream_inv(E, g, G, key, l):
    """reading positions of byte streams and slice iterators stay within their data"""
    if l.kind != 'rec' or len(key) < 2:
        return []
    v = G.mem.get(key[0])
    par = locate(v, key[1:-1]) if len(key) > 2 else v
    out = []
    if isinstance(par, Adt) and par.d in ('@Stream', '@SIter', '@IntoIter') and key[-1] == 1:
        out.append(c_le(lin_atom(l.atom), par.f[2].lin))
        out.append(c_le(l.v0.lin, lin_atom(l.atom)))
    return out


def finish(E, fr, g, st, G, X, B, k, uid):
    """replace accumulator placeholders by repeated segments in the exit states"""
    accs = {}
    sub = {}
    kl = Lin(0, ((k, 1),))
    recs = []
    for key, l in g.leaves.items():
        if l.kind == 'acc' and l.app is not None:
            accs[('#acc', uid, l.j)] = l
        if l.kind == 'rec':
            recs.append((l.atom, l.v0, [s for s in l.steps]))
    for a, v0, steps in recs:
        E.recs[a] = (v0, [v for v, _ in steps])
    evs = summarise_events(G.ev, B)
    for b in B:
        E.backs.append((fr.fn['d'], len(G.ev), b, uid))
    E.loops.append((fr, st, G, B, g.leaves, k, uid))
    known = set(G.facts.conds())
    LOOPBACK[k] = [[c for c in b.facts.conds() if c not in known] for b in B]
    out = []
    for o in X:
        s = o[2] if o[0] == 'exit' else o[1]
        if evs:
            s.ev = G.ev + ((('#loop', uid, evs),)) + s.ev[len(G.ev):]
        if accs:
            lenmap = {}
            for src, l in accs.items():
                if l.delta is None:
                    star = ('star', k, l.app, kl)
                    lenmap[l.atom] = seg_len(star)
            sb = Subst(lenmap) if lenmap else None
            rep = Rep(accs, k, sb)
            for root in list(s.mem):
                s.mem[root] = rep.val(s.mem[root])
            if sb is not None:
                s.facts = subst_facts(s.facts, sb)
            s.ev = rep.key(s.ev)
            if o[0] == 'ret':
                o = ('ret', s, rep.val(o[2]))
        out.append(o)
    return out


def summarise_events(ev0, B):
    n = len(ev0)
    r = []
    for b in B:
        e = b.ev[n:]
        if e and e not in r:
            r.append(e)
    return tuple(r)


def subst_facts(F, sb):
    f = F.copy()
    f.ineq = tuple(sb.lin(l) for l in F.ineq)
    f.neq = frozenset(sb.lin(l) for l in F.neq)
    f.eqs = {a: sb.lin(l) for a, l in F.eqs.items() if a not in sb.m}
    f._memo = {}
    f.raw = ()
    for c in reversed(F.conds()):
        f.raw = (cmap(c, sb.lin, sb), f.raw)
    return f


class Rep:
    def __init__(self, accs, k, sb):
        self.accs, self.k, self.sb = accs, k, sb

    def seg(self, s):
        if s[0] == 's' and s[1] in self.accs:
            l = self.accs[s[1]]
            if not (not s[2].t and s[2].c == 0):
                return [s]
            n = s[3]
            if l.delta is not None:
                if l.delta == 0:
                    return []
                n = Lin(n.c // l.delta, tuple((a, x // l.delta) for a, x in n.t))
            else:
                kk = [a for a in deps_of(n)]
                a = n.t[0][0]
                n = ATOM_KEY[a][2][0]
            kb = atom_var(('#b', ATOM_KEY[self.k][1]), 64, 0, 1 << 48)
            inner = seg_subst(tuple(y for x in l.app for y in self.seg(x)), Subst({self.k: lin_atom(kb)}))
            return [mkstar(kb, inner, n)]
        if s[0] == 'e':
            return [('e', self.val(s[1]))]
        if s[0] == 'star':
            return [('star', s[1], tuple(y for x in s[2] for y in self.seg(x)), s[3])]
        if self.sb is not None:
            return [vmap_seg(s, self.sb.lin, self.sb)]
        return [s]

    def val(self, v):
        if isinstance(v, Seq):
            return Seq([y for s in v.segs for y in self.seg(s)], v.ety)
        if isinstance(v, Adt):
            return Adt(v.d, v.v, [self.val(x) for x in v.f])
        if isinstance(v, Clo):
            return Clo(v.d, [self.val(x) for x in v.caps], v.env)
        if self.sb is not None:
            return vmap(v, self.sb.lin, self.sb)
        return v

    def key(self, x):
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        if isinstance(x, (Seq, Adt)):
            return self.val(x)
        return x


def mkstar(k, segs, n):
    if len(segs) == 1 and segs[0][0] == 'e' and isinstance(segs[0][1], Int):
        l = segs[0][1].lin
        if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1:
            key = ATOM_KEY[l.t[0][0]]
            if key[0] == 'at' and k not in deps_of(key[1]):
                idx = key[2]
                d = dict(idx.t)
                if d.get(k) == 1 and k not in deps_of(mklin(0, {a: x for a, x in d.items() if a != k})):
                    return ('s', key[1], mklin(idx.c, {a: x for a, x in d.items() if a != k}), n)
        if not l.t or k not in deps_of(l):
            return ('r', segs[0][1], n)
    if len(segs) == 1 and segs[0][0] == 's' and not segs[0][3].t and segs[0][3].c >= 1:
        s = segs[0]
        c = s[3].c
        d = dict(s[2].t)
        if d.get(k) == c and k not in deps_of(s[1]) and k not in deps_of(mklin(0, {a: x for a, x in d.items() if a != k})):
            return ('s', s[1], mklin(s[2].c, {a: x for a, x in d.items() if a != k}), n.scale(c))
    if len(segs) == 1 and segs[0][0] == 'e' and isinstance(segs[0][1], Sym):
        i = segs[0][1].id
        if isinstance(i, tuple) and i[0] == '#el' and k not in deps_of(i[1]):
            d = dict(i[2].t)
            if d.get(k) == 1:
                return ('s', i[1], mklin(i[2].c, {a: x for a, x in d.items() if a != k}), n)
    return ('star', k, segs, n)
