"""Verified summaries.

A local function with the signature of a well known reader / writer is analysed once in isolation on a
completely unknown stream; when its outcomes are proved equal to the RFC 9000 definition of the operation
the call sites use that definition, otherwise the body is inlined at every call.  Recognition is by
signature and proved behaviour, never by name.
"""
from eng import *
import wit

V62 = (1 << 62) - 1


def is_u(t, w=None):
    return t['k'] == 'uint' and (w is None or t['w'] == w)


def is_vecu8(t):
    return t['k'] == 'adt' and t['d'] == 'std::vec::Vec' and is_u(t['a'][0], 8)


def res_of(t):
    if t['k'] == 'adt' and t['d'] == RES:
        return t['a'][0]
    return None


def is_mutparam(t):
    return t['k'] == 'ref' and t['m'] and t['e']['k'] == 'param'


def is_u160(E, t):
    if t['k'] != 'adt' or t['d'] not in E.adts:
        return False
    a = E.adts[t['d']]
    if a['enum'] or len(a['v']) != 1:
        return False
    fs = a['v'][0]['f']
    return len(fs) == 2 and is_u(fs[0]['t'], 32) and is_u(fs[1]['t'], 128)


def classify(E, fn):
    n = fn['argc']
    L = [l['t'] for l in fn['locals'][:n + 1]]
    r = res_of(L[0])
    if n == 1 and is_mutparam(L[1]) and r is not None:
        if is_u(r, 64):
            return 'varint'
        if r['k'] == 'tuple' and len(r['e']) == 2 and is_u(r['e'][0], 64) and is_vecu8(r['e'][1]):
            return 'varintb'
    if n == 2 and is_mutparam(L[1]) and is_u(L[2]) and r is not None and is_u160(E, r):
        return 'u160'
    if n == 1 and is_u(L[1], 64) and r is not None and is_vecu8(r):
        return 'venc'
    if n == 2 and L[1]['k'] == 'ref' and is_u160(E, L[1]['e']) and is_u(L[2]) and is_vecu8(L[0]):
        return 'u160enc'
    return None


def byte(src, i):
    return Int(8, False, ATOM_BITS[atom_at(src, i if isinstance(i, Lin) else Lin(i))])


def be(src, off, n, w, mask_top=0):
    """big-endian integer of n bytes as an Int of width w; mask_top high bits cleared"""
    bits = []
    for i in range(n - 1, -1, -1):
        bits += list(ATOM_BITS[atom_at(src, off + i)])
    if mask_top:
        bits = bits[:-mask_top]
    bits = (bits + [ZERO_F] * w)[:w]
    return Int(w, False, tuple(bits))


def iso_stream(E, st, src):
    n = lin_atom(atom_var((src, 'len'), 64, 0, 1 << 47))
    q = E.new_root(st, Seq((('s', src, L0, n),), U8))
    r = E.new_root(st, Adt('@Stream', 0, (Ref(q, (), (L0, n)), usz(0), usz(n))))
    return Ref(r), n


def stream_pos(E, st, ref):
    x = E.deref_all(st, ref)
    return x.f[1].lin


class Iso:
    """isolated run of a function with everything but its verdict rolled back"""

    def __init__(self, E):
        self.E = E

    def __enter__(self):
        E = self.E
        self.s = (E.panics, E.unsup, E.unmod, E.cuts, dict(E.hooks))
        E.panics, E.unsup, E.unmod = [], [], {}
        return E

    def __exit__(self, *a):
        E = self.E
        E.panics, E.unsup, E.unmod, E.cuts, E.hooks = self.s[0], self.s[1], self.s[2], self.s[3], self.s[4]
        return False


def proved_varint(E, d, with_bytes):
    src = ('#iso', d)
    st = State()
    s, n = iso_stream(E, st, src)
    res = E.exec_fn(d, [s], st)
    if E.panics or E.unsup or E.unmod:
        return False
    seen = [0] * 4
    for s2, v in res:
        isok = isinstance(v, Adt) and v.d == RES and v.v == 0
        for F in (s2.cases() if not isok else [s2.facts]):
            for c in range(4):
                hi2 = Int(2, False, ATOM_BITS[atom_at(src, L0)][6:8])
                G = F.assume(c_eqi(hi2, iconst(c, 2)))
                if G is None:
                    continue
                L = 1 << c
                if not isok:
                    if not G.lt0(n - L):
                        # an empty stream fails whatever the first byte would be
                        return False
                    continue
                if not G.le0(Lin(L) - n):
                    return False
                val = v.f[0]
                want = be(src, L0, L, 64, 2)
                if with_bytes:
                    if not (isinstance(val, Adt) and isinstance(val.f[1], Seq)):
                        return False
                    q = seq_norm(G, val.f[1])
                    w = seq_norm(G, Seq([('e', byte(src, i)) for i in range(L)], U8))
                    w2 = seq_norm(G, src_seq(src, L0, Lin(L)))
                    if not same_bytes(G, q, L, src):
                        return False
                    val = val.f[0]
                if G.ieq(val, want) is not True:
                    return False
                if G.eq0(stream_pos(E, s2, s) - L) is not True:
                    return False
                seen[c] += 1
    return all(seen)


def ends(E, d):
    """a failed read leaves the stream at its end"""
    st = State()
    s, n = iso_stream(E, st, ('#iso', d))
    res = E.exec_fn(d, [s], st)
    return not (E.panics or E.unsup or E.unmod) and all(s2.facts.eq0(stream_pos(E, s2, s) - n) is True for s2, v in res if isinstance(v, Adt) and v.d == RES and v.v == 1)


def same_bytes(F, q, n, src, off=L0):
    """is q the n (constant) bytes of src from off?"""
    if F.eq0(seq_len(q) - n) is not True:
        return False
    for i in range(n):
        try:
            v = seq_get(F, q, Lin(i))
        except Split:
            return False
        if not isinstance(v, Int) or F.ieq(v, Int(8, False, ATOM_BITS[atom_at(src, off + i)])) is not True:
            return False
    return True


def proved_u160(E, d):
    src = ('#iso', d)
    w = E.fns[d]['locals'][2]['t']['w']
    for k in range(21):
        st = State()
        s, n = iso_stream(E, st, src)
        res = E.exec_fn(d, [s, iconst(k, w)], st)
        if E.panics or E.unsup or E.unmod:
            return False
        nok = 0
        for s2, v in res:
            if v.v == 0:
                nok += 1
                F = s2.facts
                x = v.f[0]
                if not F.le0(Lin(k) - n) or F.eq0(stream_pos(E, s2, s) - k) is not True:
                    return False
                hi, lo = u160_of(src, L0, k)
                if F.ieq(x.f[0], hi) is not True or F.ieq(x.f[1], lo) is not True:
                    return False
            else:
                for F in s2.cases():
                    if not F.lt0(n - k):
                        return False
        if nok != 1:
            return False
    return True


def u160_of(src, off, k):
    bits = []
    for i in range(k - 1, -1, -1):
        bits += list(ATOM_BITS[atom_at(src, off + i)])
    bits = (bits + [ZERO_F] * 160)[:160]
    return Int(32, False, tuple(bits[128:])), Int(128, False, tuple(bits[:128]))


def proved_venc(E, d):
    x = Int(64, False, ATOM_BITS[atom_var(('#iso', d, 'x'), 64)])
    st = State()
    res = E.exec_fn(d, [x], st)
    if E.panics or E.unsup or E.unmod:
        return False
    lo = 0
    for c in range(5):
        L = 1 << c
        hi = (1 << (8 * L - 2)) - 1 if c < 4 else (1 << 64) - 1
        hit = 0
        for s2, v in res:
            for F in (s2.cases() if v.v == 1 else [s2.facts]):
                G = F.assume(c_le(Lin(lo), x.lin))
                G = G and G.assume(c_le(x.lin, Lin(hi)))
                if G is None:
                    continue
                hit += 1
                if (v.v == 1) != (c == 4):
                    return False
                if v.v == 1:
                    continue
                q = v.f[0]
                if G.eq0(seq_len(q) - L) is not True:
                    return False
                bits = list(G.ibits(x))[:8 * L - 2] + [ONE_F if c & 1 else ZERO_F, ONE_F if c & 2 else ZERO_F]
                for i in range(L):
                    want = Int(8, False, tuple(bits[8 * (L - 1 - i):8 * (L - i)]))
                    try:
                        got = seq_get(G, q, Lin(i))
                    except Split:
                        return False
                    if not isinstance(got, Int) or G.ieq(got, want) is not True:
                        return False
        if not hit:
            return False
        lo = hi + 1
    return True


def proved_u160enc(E, d):
    t = E.fns[d]['locals'][1]['t']['e']
    for k in range(21):
        st = State()
        hi = Int(32, False, ATOM_BITS[atom_var(('#iso', d, 'hi'), 32)])
        lo = Int(128, False, ATOM_BITS[atom_var(('#iso', d, 'lo'), 128)])
        r = Ref(E.new_root(st, Adt(t['d'], 0, (hi, lo))))
        res = E.exec_fn(d, [r, usz(k)], st)
        if E.panics or E.unsup or E.unmod or len(res) != 1:
            return False
        s2, q = res[0]
        F = s2.facts
        if not isinstance(q, Seq) or F.eq0(seq_len(q) - k) is not True:
            return False
        bits = list(lo.bits) + list(hi.bits)
        for i in range(k):
            j = 8 * (k - 1 - i)
            try:
                got = seq_get(F, q, Lin(i))
            except Split:
                return False
            if not isinstance(got, Int) or F.ieq(got, Int(8, False, tuple(bits[j:j + 8]))) is not True:
                return False
    return True


PROVE = {'varint': lambda E, d: proved_varint(E, d, False),
         'varintb': lambda E, d: proved_varint(E, d, True),
         'u160': proved_u160, 'venc': proved_venc, 'u160enc': proved_u160enc}


class Contracts:
    def __init__(self, E):
        self.status = {}
        self.end = set()
        self.kind = {}
        for d, f in E.fns.items():
            if f.get('blocks') and not d.startswith('models::'):
                try:
                    self.kind[d] = classify(E, f)
                except (KeyError, IndexError, TypeError):
                    self.kind[d] = None
        self.uses = {}
        self.off = set()
        E.contract = self

    def proved(self, E, d):
        k = self.kind.get(d)
        if k is None:
            return False
        s = self.status.get(d)
        if s is None:
            self.status[d] = False      # inlined while being proved
            try:
                with Iso(E):
                    E.cuts = {}
                    E.hooks.pop('loop', None)
                    s = PROVE[k](E, d)
                    if s and k in ('varint', 'varintb'):
                        E.hooks['nojoin'] = True
                        if ends(E, d):
                            self.end.add(d)
            except (Unsupported, Split, Budget, AttributeError, IndexError):
                s = False
            self.status[d] = s
        return s

    def __call__(self, E, d, args, st, stack):
        k = self.kind.get(d)
        if k is None or d in self.off or d in stack:
            return None
        if not self.proved(E, d):
            return None
        r = getattr(self, 'use_' + k)(E, d, args, st)
        if r is not None:
            self.uses[d] = self.uses.get(d, 0) + 1
        return r

    # ---- use
    def use_varint(self, E, d, args, st, with_bytes=False):
        v = view(E, st, args[0])
        if v is None:
            return None
        r, x, src, off = v
        F = st.facts
        pos, end = F.nlin(x.f[1].lin), x.f[2].lin
        ap = F.nlin(off + pos)
        key = (src, ap)
        val = lin_atom(atom_op('#varint', key, 64, 0, V62))
        n = lin_atom(atom_op('#vlen', key, 64, 1, 8))
        out = []
        s1 = st.assume(c_le(pos + n, end))
        if s1 is not None:
            E.store(s1, r, Adt(x.d, 0, (x.f[0], usz(s1.facts.nlin(pos + n))) + x.f[2:]))
            iv = Int(64, False, None, val)
            if with_bytes:
                iv = tup(iv, Seq((('s', src, ap, n),), U8))
            out.append((s1, ok(iv)))
        s2 = st.assume(c_lt(end, pos + n))
        if s2 is not None:
            out.append((s2, self.fail(E, d, s2, r, x)))
        return out

    def use_varintb(self, E, d, args, st):
        return self.use_varint(E, d, args, st, True)

    def fail(self, E, d, st, r, x):
        E.nfid += 1
        if d in self.end:
            E.store(st, r, Adt(x.d, 0, (x.f[0], usz(st.facts.nlin(x.f[2].lin))) + x.f[2:]))
            return err(Opq('#hv', 'err', E.nfid))
        p = atom_var(('#hv', 'pos', E.nfid), 64, 0, 1 << 48)
        E.store(st, r, Adt(x.d, 0, (x.f[0], usz(lin_atom(p))) + x.f[2:]))
        return err(Opq('#hv', 'err', E.nfid))

    def use_u160(self, E, d, args, st):
        v = view(E, st, args[0])
        n = args[1]
        if v is None or not isinstance(n, Int):
            return None
        r, x, src, off = v
        F = st.facts
        nl = F.nlin(n.lin)
        if F.interval(nl)[1] > 20 or not nl.t:
            return None
        pos, end = F.nlin(x.f[1].lin), x.f[2].lin
        ap = F.nlin(off + pos)
        key = (src, ap, nl)
        hi = atom_op('#u160hi', key, 32)
        lo = atom_op('#u160lo', key, 128)
        t = res_of(E.fns[d]['locals'][0]['t'])
        out = []
        s1 = st.assume(c_le(pos + nl, end))
        if s1 is not None:
            E.store(s1, r, Adt(x.d, 0, (x.f[0], usz(s1.facts.nlin(pos + nl))) + x.f[2:]))
            out.append((s1, ok(Adt(t['d'], 0, (Int(32, False, ATOM_BITS[hi]), Int(128, False, ATOM_BITS[lo]))))))
        s2 = st.assume(c_lt(end, pos + nl))
        if s2 is not None:
            out.append((s2, self.fail(E, d, s2, r, x)))
        return out

    def use_venc(self, E, d, args, st):
        x = st.facts.nint(args[0])
        l = x.lin
        if not l.t:
            if l.c > V62:
                return None
            return [(st, ok(const_seq(wit.venc(l.c))))]
        out = []
        s1 = st.assume(c_le(l, Lin(V62)))
        if s1 is not None:
            n = lin_atom(atom_op('#vencn', (l,), 64, 1, 8))
            out.append((s1, ok(Seq((('s', ('#venc', l), L0, n),), U8))))
        s2 = st.assume(c_lt(Lin(V62), l))
        if s2 is not None:
            E.nfid += 1
            out.append((s2, err(Opq('#hv', 'err', E.nfid))))
        return out

    def use_u160enc(self, E, d, args, st):
        x = E.deref_all(st, args[0])
        n = args[1]
        F = st.facts
        if isinstance(x, Sym):
            x = E.expand(st, x)
        if not (isinstance(x, Adt) and len(x.f) == 2 and isinstance(n, Int)):
            return None
        nl = F.nlin(n.lin)
        if not nl.t:
            return None
        if F.interval(nl)[1] > 20:
            return None
        hl, ll = F.nlin(x.f[0].lin), F.nlin(x.f[1].lin)
        if len(hl.t) == 1 and len(ll.t) == 1:
            kh, kl = ATOM_KEY[hl.t[0][0]], ATOM_KEY[ll.t[0][0]]
            if kh[0] == 'op' and kl[0] == 'op' and kh[1] == '#u160hi' and kl[1] == '#u160lo' and kh[2] == kl[2] \
                    and hl.t[0][1] == 1 and ll.t[0][1] == 1 and not hl.c and not ll.c and F.eq0(kh[2][2] - nl) is True:
                return [(st, Seq((('s', kh[2][0], kh[2][1], nl),), U8))]
        return [(st, Seq((('s', ('#u160enc', hl, ll, nl), L0, nl),), U8))]


def view(E, st, a):
    """(ref, stream value, source, offset) of a byte stream over a single source"""
    r, x = E.last_ref(st, a)
    if isinstance(x, Sym):
        return None
    if not (isinstance(x, Adt) and x.d == '@Stream'):
        return None
    q = E.load(st, x.f[0])
    if not isinstance(q, Seq):
        return None
    q = seq_norm(st.facts, q)
    if len(q.segs) != 1 or q.segs[0][0] != 's':
        return None
    return r, x, q.segs[0][1], q.segs[0][2]
