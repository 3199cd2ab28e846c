"""Abstract values other than integers: aggregates, sequences, references, lazily expanded unknowns."""
from dom import *

U8 = {'k': 'uint', 'w': 8, 'n': 'u8'}
USZ = {'k': 'uint', 'w': 64, 'n': 'usize'}
UNIT_T = {'k': 'tuple', 'e': []}

SRC_T = {}     # source -> element type (json) when elements are not plain integers


def tkey(t):
    """hashable rendering of a json type"""
    if isinstance(t, dict):
        return tuple(sorted((k, tkey(v)) for k, v in t.items()))
    if isinstance(t, list):
        return tuple(tkey(x) for x in t)
    return t


def tname(t):
    if t is None:
        return '?'
    k = t['k']
    if k in ('uint', 'int'):
        return t['n']
    if k == 'adt':
        return t['d'].split('::')[-1] + ('<%s>' % ','.join(tname(x) for x in t['a']) if t.get('a') else '')
    if k == 'ref':
        return '&' + tname(t['e'])
    if k == 'slice':
        return '[%s]' % tname(t['e'])
    if k == 'array':
        return '[%s;%s]' % (tname(t['e']), t['n'])
    if k == 'tuple':
        return '(%s)' % ','.join(tname(x) for x in t['e'])
    if k == 'param':
        return t['n']
    return k


class Adt:
    __slots__ = ('d', 'v', 'f')

    def __init__(self, d, v, f):
        self.d = d
        self.v = v
        self.f = tuple(f)

    def __eq__(self, o):
        return self is o or (isinstance(o, Adt) and self.d == o.d and self.v == o.v and self.f == o.f)

    def __hash__(self):
        return hash((self.d, self.v, self.f))

    def deps(self):
        return deps_of(self.f)

    def vmap(self, f):
        return vmap(self, f)

    def __repr__(self):
        return '%s#%s(%s)' % (self.d.split('::')[-1], self.v, ', '.join(map(repr, self.f)))


def tup(*a):
    return Adt('()', 0, a)


UNIT = Adt('()', 0, ())
OPT = 'std::option::Option'
RES = 'std::result::Result'
NONE = Adt(OPT, 0, ())


def some(x):
    return Adt(OPT, 1, (x,))


def ok(x):
    return Adt(RES, 0, (x,))


def err(x):
    return Adt(RES, 1, (x,))


class Ref:
    """reference to root/path; sub=(off,len) Lins restricts a sequence place to a window"""
    __slots__ = ('root', 'path', 'sub')

    def __init__(self, root, path=(), sub=None):
        self.root = root
        self.path = path
        self.sub = sub

    def __eq__(self, o):
        return isinstance(o, Ref) and self.root == o.root and self.path == o.path and self.sub == o.sub

    def __hash__(self):
        return hash((self.root, self.path, self.sub))

    def deps(self):
        return deps_of((self.path, self.sub or ()))

    def vmap(self, f):
        return vmap(self, f)

    def __repr__(self):
        return '&%s%s%s' % (self.root, ''.join('.' + str(p[1]) for p in self.path), '[%s;%s]' % self.sub if self.sub else '')


class Sym:
    """unknown value of a type, expanded on demand"""
    __slots__ = ('id', 'ty')

    def __init__(self, id, ty):
        self.id = id
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, Sym) and self.id == o.id

    def __hash__(self):
        return hash(('sym', self.id))

    def deps(self):
        return deps_of(self.id)

    def vmap(self, f):
        return vmap(self, f)

    def __repr__(self):
        return '?%s' % pname(self.id)


class Clo:
    __slots__ = ('d', 'caps', 'env')

    def __init__(self, d, caps, env):
        self.d = d
        self.caps = tuple(caps)
        self.env = env

    def __eq__(self, o):
        return isinstance(o, Clo) and self.d == o.d and self.caps == o.caps

    def __hash__(self):
        return hash((self.d, self.caps))

    def deps(self):
        return deps_of(self.caps)

    def vmap(self, f):
        return vmap(self, f)

    def __repr__(self):
        return '|%s|%r' % (self.d.split('::', 2)[-1], self.caps)


class Fn:
    """function item value (json callee + generic env)"""
    __slots__ = ('j', 'env')

    def __init__(self, j, env):
        self.j = j
        self.env = env

    def __eq__(self, o):
        return isinstance(o, Fn) and self.j['d'] == o.j['d']

    def __hash__(self):
        return hash(self.j['d'])

    def __repr__(self):
        return 'fn %s' % self.j['d']


class Moved:
    def __repr__(self):
        return 'MOVED'


MOVED = Moved()


class Opq:
    """opaque token (formatter args, io errors, ...)"""
    __slots__ = ('k',)

    def __init__(self, *k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Opq) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def deps(self):
        return deps_of(self.k)

    def vmap(self, f):
        return vmap(self, f)

    def __repr__(self):
        return '<%s>' % pname(self.k)


# ------------------------------------------------------------------ sequences
class Seq:
    __slots__ = ('segs', 'ety')

    def __init__(self, segs, ety=None):
        self.segs = tuple(segs)
        self.ety = ety

    def __eq__(self, o):
        return self is o or (isinstance(o, Seq) and self.segs == o.segs)

    def __hash__(self):
        return hash(self.segs)

    def deps(self):
        return deps_of(self.segs)

    def vmap(self, f):
        return vmap(self, f)

    def __repr__(self):
        return '[' + ' '.join(seg_name(s) for s in self.segs) + ']'


def seg_name(s):
    if s[0] == 'e':
        c = s[1].const() if isinstance(s[1], Int) else None
        return '%02x' % c if c is not None else repr(s[1])
    if s[0] == 's':
        return '%s[%s;%s]' % (pname(s[1]), s[2], s[3])
    if s[0] == 'r':
        return '%r*%s' % (s[1], s[2])
    return '{%s}*%s' % (' '.join(seg_name(x) for x in s[2]), s[3])


def seg_len(s):
    if s[0] == 'e':
        return L1
    if s[0] == 's':
        return s[3]
    if s[0] == 'r':
        return s[2]
    # star
    n = L0
    for x in s[2]:
        n = n + seg_len(x)
    if not n.t:
        return s[3].scale(n.c)
    if s[1] not in deps_of(n):
        if not s[3].t:
            return n.scale(s[3].c)
    return lin_atom(atom_op('#starlen', (AtomRef(s[1]), s[2], s[3]), 64, 0, 1 << 48))


def seq_len(q):
    n = L0
    for s in q.segs:
        n = n + seg_len(s)
    return n


def const_seq(bs, ety=U8):
    return Seq(tuple(('e', iconst(b, 8)) for b in bs), ety)


def src_seq(src, off, n, ety=U8):
    return Seq((('s', src, off, n),), ety)


def src_elem(F, src, idx):
    idx = F.nlin(idx)
    src = key_map(src, F.nlin) if F.eqs else src
    t = SRC_T.get(src)
    if t is not None:
        return sym_of(('#el', src, idx), t)
    w = SRC_W.get(src, 8)
    return Int(w, False, ATOM_BITS[atom_at(src, idx)])


def sym_of(id, t):
    """fresh unknown of type t (scalars become atoms)"""
    k = t['k']
    if k in ('uint', 'int'):
        if k == 'int':
            w = t['w']
            return Int(w, True, None, lin_atom(atom_var(id, w, -(1 << (w - 1)), (1 << (w - 1)) - 1)))
        hi = None
        return Int(t['w'], False, ATOM_BITS[atom_var(id, t['w'], 0, hi)])
    if k == 'bool':
        return Bool(('atom', id))
    if k == 'char':
        return Int(32, False, None, lin_atom(atom_var(id, 32, 0, 0x10ffff)))
    if k == 'tuple':
        return Adt('()', 0, [sym_of(('#f', id, i), e) for i, e in enumerate(t['e'])])
    if k in ('array', 'slice', 'str'):
        e = U8 if k == 'str' else t['e']
        if k == 'array' and isinstance(t['n'], int) and t['n'] <= 8 and (e['k'] in ('adt', 'tuple') or e['k'] == 'uint' and e['w'] == 64):
            return Seq([('e', sym_of(('#f', id, i), e)) for i in range(t['n'])], e)
        n = Lin(t['n']) if k == 'array' and isinstance(t['n'], int) else lin_atom(atom_var(('#len', id), 64, 0, 1 << 47))
        return Seq((('s', reg_src(('#d', id), e), L0, n),), e)
    if k == 'adt' and t['d'] in ('std::vec::Vec', 'std::string::String'):
        e = t['a'][0] if t['d'].endswith('Vec') else U8
        return Seq((('s', reg_src(('#d', id), e), L0, lin_atom(atom_var(('#len', id), 64, 0, 1 << 47))),), e)
    return Sym(id, t)


def reg_src(src, e):
    if e['k'] in ('uint', 'int'):
        SRC_W[src] = e['w']
    else:
        SRC_T[src] = e
    return src


def need(F, c, why=''):
    """decide c or partition on it"""
    r = F.dec(c)
    if r is None:
        raise Split([c, c_not(c)], why)
    return r


def varenc(v):
    """bytes of the shortest QUIC variable-length integer"""
    for i, n in enumerate((1, 2, 4, 8)):
        if v < 1 << (8 * n - 2):
            return ((i << (8 * n - 2)) | v).to_bytes(n, 'big')


def seq_norm(F, q):
    out = []
    for s in q.segs:
        n = F.nlin(seg_len(s))
        if not n.t and n.c == 0:
            continue
        if s[0] == 's':
            if s[3] is not n or F.eqs:
                s = ('s', key_map(s[1], F.nlin) if F.eqs else s[1], F.nlin(s[2]), n)
            if isinstance(s[1], tuple) and s[1] and s[1][0] == '#venc' and not s[2].t and s[2].c == 0:
                lo, hi = F.interval(s[1][1])
                if lo == hi and 0 <= lo < 1 << 62:
                    out.extend(('e', iconst(b, 8)) for b in varenc(lo))
                    continue
        elif s[0] == 'r':
            if not n.t and n.c <= 64:
                out.extend([('e', s[1])] * n.c)
                continue
            s = ('r', s[1], n)
        elif s[0] == 'star':
            c = F.nlin(s[3])
            if not c.t and c.c <= 8:
                for i in range(c.c):
                    sb = Subst({s[1]: Lin(i)})
                    out.extend(seq_norm(F, Seq(seg_subst(s[2], sb))).segs)
                continue
            s = ('star', s[1], s[2], c)
        if out:
            p = out[-1]
            if p[0] == 's' and s[0] == 's' and p[1] == s[1] and F.nlin(p[2] + p[3]) is s[2]:
                out[-1] = ('s', p[1], p[2], p[3] + s[3])
                continue
            if p[0] == 's' and s[0] == 'e' and isinstance(s[1], Int) and s[1].w == SRC_W.get(p[1], 8) \
                    and p[1] not in SRC_T and F.nint(s[1]) == F.nint(src_elem(F, p[1], p[2] + p[3])):
                out[-1] = ('s', p[1], p[2], p[3] + 1)
                continue
        if s[0] == 'e' and isinstance(s[1], Int):
            x = F.nint(s[1])
            l = x.lin
            if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1:
                k = ATOM_KEY[l.t[0][0]]
                if k[0] == 'at' and SRC_W.get(k[1], 8) == x.w:
                    out.append(('s', k[1], k[2], L1))
                    if len(out) >= 2:
                        p, z = out[-2], out[-1]
                        if p[0] == 's' and p[1] == z[1] and F.nlin(p[2] + p[3]) is z[2]:
                            out[-2:] = [('s', p[1], p[2], p[3] + 1)]
                    continue
            s = ('e', x)
        if s[0] == 's' and out and out[-1][0] == 's':
            p = out[-1]
            if p[1] == s[1] and F.nlin(p[2] + p[3]) is s[2]:
                out[-1] = ('s', p[1], p[2], p[3] + s[3])
                continue
        out.append(s)
    return Seq(out, q.ety)


def seg_subst(segs, sb):
    return tuple(vmap_seg(s, sb.lin, sb) for s in segs)


def seq_slice(F, q, off, n, why='slice'):
    """q[off..off+n] (bounds already established)"""
    off, n = F.nlin(off), F.nlin(n)
    if not off.t and off.c == 0 and F.eq0(seq_len(q) - n) is True:
        return q
    out = []
    end = off + n
    cur = L0
    started = False
    if not n.t and n.c == 0:
        return Seq((), q.ety)
    for s in q.segs:
        sl = seg_len(s)
        nxt = cur + sl
        if not started:
            # off >= nxt -> skip
            if need(F, c_le(nxt, off), why):
                cur = nxt
                continue
            started = True
            lo = off - cur
        else:
            lo = L0
        # ends inside this segment?
        inside = need(F, c_le(end, nxt), why)
        hi = end - cur if inside else sl
        m = F.nlin(hi - lo)
        if not (not m.t and m.c == 0):
            if s[0] == 'e':
                out.append(s)
            elif s[0] == 's':
                out.append(('s', s[1], F.nlin(s[2] + lo), m))
            elif s[0] == 'r':
                out.append(('r', s[1], m))
            else:
                if F.eq0(lo) is True and F.eq0(hi - sl) is True:
                    out.append(s)
                else:
                    raise Unsupported('slice inside repeated segment')
        if inside:
            break
        cur = nxt
    return Seq(out, q.ety)


def seq_get(F, q, i, why='index'):
    i = F.nlin(i)
    cur = L0
    for s in q.segs:
        nxt = cur + seg_len(s)
        if need(F, c_lt(i, nxt), why):
            if s[0] == 'e':
                return s[1]
            if s[0] == 's':
                return src_elem(F, s[1], s[2] + i - cur)
            if s[0] == 'r':
                return s[1]
            per = L0
            for x in s[2]:
                per = per + seg_len(x)
            if per is L1:
                sb = Subst({s[1]: F.nlin(i - cur)})
                return seq_get(F, Seq(seg_subst(s[2], sb)), L0)
            raise Unsupported('index inside repeated segment')
        cur = nxt
    raise Unsupported('index past end')


def seq_set(F, q, i, v, why='index write'):
    i = F.nlin(i)
    out = []
    cur = L0
    done = False
    for s in q.segs:
        sl = seg_len(s)
        nxt = cur + sl
        if done or not need(F, c_lt(i, nxt), why):
            out.append(s)
            cur = nxt
            continue
        done = True
        if s[0] == 'e':
            out.append(('e', v))
        elif s[0] in ('s', 'r'):
            a = F.nlin(i - cur)
            b = F.nlin(nxt - i - 1)
            if s[0] == 's':
                out += [('s', s[1], s[2], a), ('e', v), ('s', s[1], F.nlin(s[2] + a + 1), b)]
            else:
                out += [('r', s[1], a), ('e', v), ('r', s[1], b)]
        else:
            raise Unsupported('write inside repeated segment')
        cur = nxt
    return Seq([s for s in out if not (seg_len(s) is L0)], q.ety)


def seq_replace(F, q, off, n, r):
    """replace window [off,off+n) by sequence r (same length)"""
    a = seq_slice(F, q, L0, off)
    e = off + n
    b = seq_slice(F, q, e, seq_len(q) - e)
    return Seq(a.segs + r.segs + b.segs, q.ety)


# ------------------------------------------------------------------ mapping
def vmap_seg(s, f, sb=None):
    if s[0] == 'e':
        return ('e', vmap(s[1], f, sb))
    if s[0] == 's':
        return ('s', key_map(s[1], f), f(s[2]), f(s[3]))
    if s[0] == 'r':
        return ('r', vmap(s[1], f, sb), f(s[2]))
    return ('star', s[1], tuple(vmap_seg(x, f, sb) for x in s[2]), f(s[3]))


def cmap(c, f, sb):
    if c is True or c is False:
        return c
    k = c[0]
    if k == 'le':
        return ('le', f(c[1]))
    if k == 'eq':
        return ('eq', vmap(c[1], f, sb), vmap(c[2], f, sb))
    if k == 'not':
        return ('not', cmap(c[1], f, sb))
    if k in ('and',):
        return (k, cmap(c[1], f, sb), cmap(c[2], f, sb))
    return (k,) + tuple(key_map(x, f) for x in c[1:])


def vmap(v, f, sb=None):
    """apply a Lin->Lin function to every linear form of a value"""
    if isinstance(v, Int):
        if sb is not None and v._b is not None:
            nb = tuple(sb.form(x) if x else x for x in v._b)
            return v if nb == v._b else Int(v.w, v.s, nb)
        l = f(v.lin)
        return v if l is v.lin else Int(v.w, v.s, None, l)
    if isinstance(v, Bool):
        c = cmap(v.c, f, sb)
        return Bool(c)
    if isinstance(v, Adt):
        return Adt(v.d, v.v, [vmap(x, f, sb) for x in v.f])
    if isinstance(v, Seq):
        return Seq([vmap_seg(s, f, sb) for s in v.segs], v.ety)
    if isinstance(v, Ref):
        p = tuple((a[0], f(a[1])) if a[0] == 'i' else a for a in v.path)
        s = (f(v.sub[0]), f(v.sub[1])) if v.sub else None
        return Ref(v.root, p, s)
    if isinstance(v, Sym):
        i = key_map(v.id, f)
        return v if i is v.id else Sym(i, v.ty)
    if isinstance(v, Clo):
        return Clo(v.d, [vmap(x, f, sb) for x in v.caps], v.env)
    if isinstance(v, Opq):
        return Opq(*key_map(v.k, f))
    return v
