"""Abstract interpreter over extracted MIR (trace partitioning, loop summarisation by induction)."""
import time
import sys
from val import *
sys.setrecursionlimit(20000)

WRAP = {'std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'std::mem::MaybeUninit',
        'std::mem::ManuallyDrop', 'std::mem::maybe_dangling::MaybeDangling', 'std::mem::MaybeDangling',
        'core::mem::maybe_dangling::MaybeDangling'}
PTRS = {'std::boxed::Box', 'std::sync::Arc', 'std::rc::Rc'}


class Budget(Exception):
    pass


class State:
    __slots__ = ('mem', 'facts', 'ev', 'cnt', 'alts')

    def __init__(self):
        self.alts = None
        self.mem = {}
        self.facts = Facts()
        self.ev = ()
        self.cnt = 0

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.ev = self.ev
        s.cnt = self.cnt
        s.alts = self.alts
        return s

    def cases(self):
        """the disjuncts a joined state stands for"""
        if self.alts is None:
            return [self.facts]
        out = []
        for a, base in self.alts:
            # assumptions made after the join hold in every disjunct
            f = a
            if self.facts is not base:
                f = meet_facts(a, self.facts)
            if f is not None:
                out.append(f)
        return out

    def event(self, *e):
        self.ev = self.ev + (e,)

    def assume(self, c):
        """new state or None"""
        f = self.facts.assume(c)
        if f is None:
            return None
        s = self.copy()
        s.facts = f
        return s


def subst_ty(t, env):
    if not env or t is None:
        return t
    k = t['k']
    if k == 'param':
        return env.get(t['i'], t)
    if k in ('ref', 'ptr', 'slice'):
        e = subst_ty(t['e'], env)
        return t if e is t['e'] else dict(t, e=e)
    if k == 'array':
        e = subst_ty(t['e'], env)
        return t if e is t['e'] else dict(t, e=e)
    if k == 'tuple':
        return dict(t, e=[subst_ty(x, env) for x in t['e']]) if t['e'] else t
    if k in ('adt', 'closure', 'alias'):
        return dict(t, a=[subst_ty(x, env) for x in t.get('a', [])]) if t.get('a') else t
    return t


def short(d):
    """'std::option::Option::<T>::map' -> 'Option_map'"""
    out = []
    depth = 0
    for ch in d:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out.append(ch)
    p = [x for x in ''.join(out).split('::') if x]
    return '_'.join(p[-2:])


class Panic:
    def __init__(self, kind, site, stack, st, cond, msg=''):
        self.kind, self.site, self.stack, self.facts, self.cond, self.msg = kind, site, stack, st.facts, cond, msg
        self.ev = st.ev
        self.st = st

    def __repr__(self):
        return '%s at %s (%s) via %s' % (self.kind, self.site, self.msg, ' > '.join(self.stack))


class CFG:
    def __init__(self, fn):
        B = fn['blocks']
        n = len(B)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(B):
            if b.get('cleanup'):
                continue
            t = b['t']
            k = t['k']
            if k in ('goto', 'drop', 'call', 'assert'):
                if t.get('t') is not None:
                    self.succ[i].append(t['t'])
            elif k == 'switch':
                for _, x in t['ts']:
                    self.succ[i].append(x)
                if t.get('else') is not None:
                    self.succ[i].append(t['else'])
        # dominators
        order = []
        seen = set()

        def dfs(r):
            st = [(r, iter(self.succ[r]))]
            seen.add(r)
            while st:
                u, it = st[-1]
                for v in it:
                    if v not in seen:
                        seen.add(v)
                        st.append((v, iter(self.succ[v])))
                        break
                else:
                    order.append(u)
                    st.pop()
        dfs(0)
        order.reverse()
        pred = {u: [] for u in order}
        for u in order:
            for v in self.succ[u]:
                pred[v].append(u)
        dom = {u: None for u in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for u in order[1:]:
                s = None
                for p in pred[u]:
                    if dom[p] is not None:
                        s = set(dom[p]) if s is None else s & dom[p]
                s = (s or set()) | {u}
                if s != dom[u]:
                    dom[u] = s
                    ch = True
        self.loops = {}
        for u in order:
            for v in self.succ[u]:
                if v in dom[u]:
                    body = self.loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
        self.pred = pred
        self.reach = seen


class Frame:
    __slots__ = ('fn', 'fid', 'env', 'cfg', 'stack', 'tys')

    def __init__(self, fn, fid, env, cfg, stack):
        self.fn, self.fid, self.env, self.cfg, self.stack = fn, fid, env, cfg, stack
        self.tys = {}

    def lty(self, l):
        t = self.tys.get(l)
        if t is None:
            t = self.tys[l] = subst_ty(self.fn['locals'][l]['t'], self.env)
        return t


def err_val(v):
    return isinstance(v, Adt) and v.d == RES and v.v == 1


class Engine:
    def __init__(self, *dumps):
        self.fns = {}
        self.adts = {}
        self.impls = []
        for d in dumps:
            for f in d['fns']:
                self.fns[f['d']] = f
            for a in d['adts']:
                if a['d'] not in self.adts or len(a['v'][0]['f'] if a['v'] else []) > len(self.adts[a['d']]['v'][0]['f'] if self.adts[a['d']]['v'] else []):
                    self.adts[a['d']] = a
            self.impls += d['impls']
        self.cfgs = {}
        self.impl_idx = {}
        for im in self.impls:
            for name, d in im['items']:
                self.impl_idx.setdefault((im.get('trait'), name), []).append((im['self'], d))
        self.ctors = {}
        for a in self.adts.values():
            for i, v in enumerate(a['v']):
                self.ctors[a['d'] + '::' + v['n']] = (a['d'], i)
        for n, v in (('Ok', (RES, 0)), ('Err', (RES, 1)), ('Some', (OPT, 1)), ('None', (OPT, 0))):
            self.ctors['std::prelude::v1::' + n] = v
        self.symroots = {}
        self.summaries = {}
        self.cuts = {}
        self.hooks = {}
        self.contract = None
        self.recs = {}
        self.nfid = 0
        self.reset()
        import lib
        self.lib = lib

    def reset(self):
        self.panics = []
        self.unsup = []
        self.unmod = {}
        self.steps = 0
        self.visited = {}
        self.max_steps = 3000000
        self.deadline = time.time() + 420
        self.loopinfo = {}
        self.backs = []
        self.prints = []
        self.loops = []
        self.endless = []
        self.depth = 0

    # ------------------------------------------------------------ memory
    def root_val(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == 'S':
                return self.mksym(('#*', root[1]), self.symroots[root[1]])
            if root[0] == 'C' and root[1] == 'static':
                self.static_ref(st, {'d': root[2]})
                return st.mem[root]
            raise Unsupported('read of uninitialised %s' % (root,))
        return v

    def mksym(self, id, ty):
        h = self.hooks.get('sym')
        if h:
            r = h(self, id, ty)
            if r is not None:
                return r
        return sym_of(id, ty)

    def expand(self, st, v):
        """one level of expansion of an unknown"""
        t = v.ty
        k = t['k']
        h = self.hooks.get('sym')
        if h:
            r = h(self, v.id, t)
            if r is not None:
                return r
        if k in ('ref', 'ptr') or (k == 'adt' and t['d'] in PTRS):
            e = t['a'][0] if k == 'adt' else t['e']
            self.symroots.setdefault(v.id, e)
            if e['k'] in ('slice', 'str'):
                q = self.root_val(st, ('S', v.id))
                return Ref(('S', v.id), (), (L0, seq_len(q)))
            return Ref(('S', v.id))
        if k == 'adt':
            r = self.lib.expand_std(self, st, v)
            if r is not None:
                return r
            a = self.adts.get(t['d'])
            if a is None or not a['v']:
                raise Unsupported('opaque type %s' % t['d'])
            env = dict(enumerate(t.get('a', [])))
            if a['enum']:
                var = st.facts.var.get(v.id)
                if var is None or isinstance(var, frozenset):
                    alts = [i for i in range(len(a['v'])) if not (var and i in var)]
                    if len(alts) != 1:
                        raise Split([('var', v.id, i) for i in alts], 'variant of %s' % pname(v.id))
                    var = alts[0]
            else:
                var = 0
            return Adt(t['d'], var, [self.mksym(('#f', v.id, f['n']), subst_ty(f['t'], env)) for f in a['v'][var]['f']])
        if k in ('uint', 'int', 'bool', 'tuple', 'array', 'char'):
            return sym_of(v.id, t)
        raise Unsupported('expand %s' % tname(t))

    def read(self, st, root, path):
        v = self.root_val(st, root)
        for p in path:
            if isinstance(v, Sym):
                v = self.expand(st, v)
            if p[0] == 'f':
                if isinstance(v, Adt):
                    if p[1] >= len(v.f):
                        raise Unsupported('field %s of %r' % (p[1], v))
                    v = v.f[p[1]]
                elif isinstance(v, Clo):
                    v = v.caps[p[1]]
                elif v is MOVED:
                    raise Unsupported('read of moved value')
                else:
                    raise Unsupported('field of %r' % (v,))
            else:
                if not isinstance(v, Seq):
                    raise Unsupported('index of %r' % (v,))
                v = seq_get(st.facts, v, p[1])
        return v

    def upd(self, st, v, path, x):
        if not path:
            return x
        p = path[0]
        if isinstance(v, Sym):
            v = self.expand(st, v)
        if p[0] == 'f':
            if isinstance(v, Adt):
                f = list(v.f)
                while len(f) <= p[1]:
                    f.append(MOVED)
                f[p[1]] = self.upd(st, f[p[1]], path[1:], x)
                return Adt(v.d, v.v, f)
            if isinstance(v, Clo):
                f = list(v.caps)
                f[p[1]] = self.upd(st, f[p[1]], path[1:], x)
                return Clo(v.d, f, v.env)
            if v is MOVED:
                return self.upd(st, Adt('?', 0, ()), path, x)
            raise Unsupported('field write of %r' % (v,))
        if not isinstance(v, Seq):
            raise Unsupported('index write of %r' % (v,))
        old = seq_get(st.facts, v, p[1]) if path[1:] else None
        return seq_set(st.facts, v, p[1], self.upd(st, old, path[1:], x))

    def write(self, st, root, path, x, sub=None):
        if sub is not None:
            q = self.read(st, root, path)
            x = seq_replace(st.facts, q, sub[0], sub[1], x)
        if not path:
            st.mem[root] = x
            return
        v = st.mem.get(root)
        if v is None:
            v = self.root_val(st, root) if root[0] == 'S' else MOVED
        st.mem[root] = self.upd(st, v, path, x)

    def load(self, st, ref):
        """value behind a reference (window applied)"""
        if isinstance(ref, Sym):
            ref = self.expand(st, ref)
        if not isinstance(ref, Ref):
            raise Unsupported('load through %r' % (ref,))
        v = self.read(st, ref.root, ref.path)
        if isinstance(v, Sym) and v.ty['k'] in ('uint', 'int', 'bool', 'array', 'tuple'):
            v = self.expand(st, v)
        if ref.sub is not None:
            if not isinstance(v, Seq):
                raise Unsupported('window on %r' % (v,))
            v = seq_slice(st.facts, v, ref.sub[0], ref.sub[1])
        return v

    def store(self, st, ref, x):
        self.write(st, ref.root, ref.path, x, ref.sub)

    def deref_all(self, st, v):
        """follow references until a non reference"""
        n = 0
        while isinstance(v, (Ref, Sym)) and n < 10:
            if isinstance(v, Sym):
                if v.ty['k'] in ('ref', 'ptr') or (v.ty['k'] == 'adt' and v.ty['d'] in PTRS):
                    v = self.expand(st, v)
                    continue
                return v
            v = self.load(st, v)
            n += 1
        return v

    def last_ref(self, st, v):
        """innermost reference of a chain and the value it denotes"""
        if isinstance(v, Sym):
            v = self.expand(st, v)
        while True:
            x = self.load(st, v)
            if isinstance(x, Sym) and (x.ty['k'] == 'ref' or (x.ty['k'] == 'adt' and x.ty['d'] in PTRS)):
                x = self.expand(st, x)
            if not isinstance(x, Ref):
                return v, x
            v = x

    def new_root(self, st, v, tag='H'):
        self.nfid += 1
        r = (tag, self.nfid)
        st.mem[r] = v
        return r

    # ------------------------------------------------------------ places
    def place(self, fr, st, p):
        root, path, sub = ('L', fr.fid, p['l']), (), None
        ty = fr.lty(p['l'])
        for e in p['p']:
            k = e[0]
            if k == 'deref':
                v = self.read(st, root, path)
                if isinstance(v, Sym):
                    v = self.expand(st, v)
                if isinstance(v, Ref):
                    root, path, sub = v.root, v.path, v.sub
                else:
                    raise Unsupported('deref of %r' % (v,))
                if sub is not None and ty is not None and ty['k'] == 'ptr' and ty['e']['k'] not in ('slice', 'str'):
                    # an element of a slice behind a raw pointer
                    if not need(st.facts, c_le(Lin(1), sub[1]), 'raw pointer'):
                        self.panic('unchecked', fr.stack, fr.fn.get('span'), st, True, 'raw pointer read or written outside its slice')
                        raise Unsupported('raw pointer outside its slice')
                    path, sub = path + (('i', st.facts.nlin(sub[0])),), None
                if ty is not None:
                    if ty['k'] in ('ref', 'ptr'):
                        ty = ty['e']
                    elif ty['k'] == 'adt' and ty.get('a'):
                        ty = ty['a'][0]
                    else:
                        ty = None
            elif k == 'field':
                skip = ty is not None and ty['k'] == 'adt' and ty['d'] in WRAP
                if not skip:
                    path = path + (('f', e[1]),)
                ty = subst_ty(e[2], fr.env)
            elif k == 'downcast':
                pass
            elif k == 'index':
                i = self.read(st, ('L', fr.fid, e[1]), ()).lin
                if sub:
                    i = i + sub[0]
                    sub = None
                path = path + (('i', st.facts.nlin(i)),)
                ty = ty['e'] if ty is not None and 'e' in ty else None
            elif k == 'cindex':
                if e[3]:
                    n = sub[1] if sub else seq_len(self.read(st, root, path))
                    i = n - e[1]
                else:
                    i = Lin(e[1])
                if sub:
                    i = i + sub[0]
                    sub = None
                path = path + (('i', st.facts.nlin(i)),)
                ty = ty['e'] if ty is not None and 'e' in ty else None
            elif k == 'subslice':
                n = sub[1] if sub else seq_len(self.read(st, root, path))
                o = sub[0] if sub else L0
                hi = n - e[2] if e[3] else Lin(e[2])
                sub = (o + e[1], hi - e[1])
            else:
                raise Unsupported('projection %s' % k)
        return root, path, sub, ty

    def rd(self, fr, st, p, move=False):
        root, path, sub, ty = self.place(fr, st, p)
        v = self.read(st, root, path)
        if isinstance(v, Sym) and v.ty['k'] in ('uint', 'int', 'bool'):
            v = self.expand(st, v)
        if sub is not None:
            v = seq_slice(st.facts, v, sub[0], sub[1])
        return v

    def operand(self, fr, st, o):
        k = o['o']
        if k in ('copy', 'move'):
            return self.rd(fr, st, o['p'])
        if k == 'const':
            return self.const(st, o, fr.env)
        if k == 'fn':
            return Fn(o, fr.env)
        if k == 'rtcheck':
            return FALSE
        raise Unsupported('operand %s' % k)

    # ------------------------------------------------------------ constants
    def const(self, st, o, env):
        t = subst_ty(o['t'], env)
        v = o.get('v')
        if v is None:
            return self.const_unevaluated(st, o, env, t)
        return self.cval(st, v, t)

    def const_unevaluated(self, st, o, env, t):
        raise Unsupported('constant %s' % (str(o)[:80],))

    def cval(self, st, v, t):
        c = v['c']
        if c == 'int':
            x = int(v['v'])
            k = t['k'] if t else None
            if k == 'bool':
                return Bool(bool(x))
            if k in ('uint', 'int'):
                w = t['w']
                if k == 'int' and x >= 1 << (w - 1):
                    x -= 1 << w
                return iconst(x, w, k == 'int')
            if k == 'char':
                return iconst(x, 32)
            if k == 'adt':
                a = self.adts.get(t['d'])
                if a and a['enum']:
                    for i, vv in enumerate(a['v']):
                        if vv['discr'] is not None and int(vv['discr']) == x:
                            return Adt(t['d'], i, ())
            return iconst(x, 64)
        if c == 'bytes':
            return const_seq(bytes.fromhex(v['v']) if isinstance(v['v'], str) else bytes(v['v']))
        if c == 'str':
            r = ('C', 'str', v['v'])
            q = const_seq(v['v'].encode())
            st.mem.setdefault(r, q)
            return Ref(r, (), (L0, Lin(len(q.segs))))
        if c == 'seq':
            e = t.get('e') if t else None
            return Seq([('e', self.cval(st, x, e)) for x in v['v']], e)
        if c == 'agg':
            fs = v['v']
            if v.get('t') and (t is None or t['k'] not in ('tuple', 'adt')):
                t = v['t']
            if t['k'] == 'tuple':
                return Adt('()', 0, [self.cval(st, x, e) for x, e in zip(fs, t['e'])])
            if t['k'] == 'adt':
                var = v.get('variant', 0) or 0
                a = self.adts.get(t['d'])
                ft = [None] * len(fs)
                if a and var < len(a['v']) and len(a['v'][var]['f']) == len(fs):
                    en = dict(enumerate(t.get('a', [])))
                    ft = [subst_ty(f['t'], en) for f in a['v'][var]['f']]
                return Adt(t['d'], var, [self.cval(st, x, ft[i] or x.get('t')) for i, x in enumerate(fs)])
            raise Unsupported('const agg')
        if c == 'ref':
            e = t.get('e') if t else None
            x = self.cval(st, v['v'], v['v'].get('t') or e)
            if isinstance(x, Ref) and e and e['k'] == 'str':
                return x
            r = ('C', 'ref', repr(v)[:4000])
            st.mem.setdefault(r, x)
            if e and e['k'] in ('slice', 'str'):
                return Ref(r, (), (L0, seq_len(x)))
            return Ref(r)
        if c == 'fn':
            return Fn(v['f'] if 'f' in v else v, {})
        if c == 'static':
            return self.static_ref(st, v)
        if c == 'zst':
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'adt':
                return Adt(t['d'], 0, ())
            if t['k'] in ('fndef',):
                return Fn(t, {})
            if t['k'] == 'closure':
                return Clo(t['d'], (), {})
            if t['k'] == 'array':
                return Seq((), t['e'])
            return UNIT
        raise Unsupported('const %s' % c)

    def static_ref(self, st, v):
        d = v['d']
        r = ('C', 'static', d)
        if r not in st.mem:
            f = self.fns.get(d)
            if f is None or f.get('value') is None:
                raise Unsupported('static %s' % d)
            st.mem[r] = self.cval(st, f['value'], f['locals'][0]['t'] if f.get('locals') else f.get('ty'))
        return Ref(r)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, v, sp):
        r = v['r']
        F = st.facts
        if r == 'use':
            return self.operand(fr, st, v['x'])
        if r in ('ref', 'rawptr'):
            root, path, sub, ty = self.place(fr, st, v['p'])
            return Ref(root, path, sub)
        if r == 'bin':
            return self.binop(fr, st, v)
        if r == 'un':
            x = self.operand(fr, st, v['x'])
            op = v['op']
            if op == 'PtrMetadata':
                if isinstance(x, Sym):
                    x = self.expand(st, x)
                if x.sub is not None:
                    return usz(F.nlin(x.sub[1]))
                q = self.load(st, x)
                return usz(F.nlin(seq_len(q)))
            if op == 'Not':
                if isinstance(x, Bool):
                    return Bool(c_not(x.c))
                return op_not(F, x)
            if op == 'Neg':
                return op_sub(F, iconst(0, x.w, x.s), x)[0]
            raise Unsupported('unop %s' % op)
        if r == 'discr':
            root, path, sub, ty = self.place(fr, st, v['p'])
            x = self.read(st, root, path)
            if isinstance(x, Sym):
                x = self.expand(st, x)
            if not isinstance(x, Adt):
                raise Unsupported('discriminant of %r' % (x,))
            return iconst(self.discr(x.d, x.v), 64, True)
        if r == 'cast':
            return self.cast(fr, st, v)
        if r == 'agg':
            k = v['kind']
            fs = [self.operand(fr, st, x) for x in v['f']]
            if k == 'array':
                return Seq([('e', x) for x in fs], subst_ty(v.get('t'), fr.env))
            if k == 'tuple':
                return Adt('()', 0, fs)
            if k == 'adt':
                if v.get('uf') is not None and v['d'] not in WRAP:
                    raise Unsupported('union')
                if v['d'] in WRAP:
                    return fs[0]
                return Adt(v['d'], v.get('variant') or 0, fs)
            if k == 'closure':
                return Clo(v['d'], fs, fr.env)
            if k == 'rawptr':
                return fs[0]
            raise Unsupported('aggregate %s' % k)
        if r == 'repeat':
            x = self.operand(fr, st, v['x'])
            n = v['n']
            if not isinstance(n, int):
                raise Unsupported('repeat count')
            if n <= 64:
                return Seq([('e', x)] * n)
            return Seq([('r', x, Lin(n))])
        raise Unsupported('rvalue %s' % r)

    def discr(self, d, v):
        a = self.adts.get(d)
        if a and v < len(a['v']) and a['v'][v]['discr'] is not None:
            return int(a['v'][v]['discr'])
        return v

    def binop(self, fr, st, v):
        a = self.operand(fr, st, v['a'])
        b = self.operand(fr, st, v['b'])
        return self.bin(st, v['op'], a, b)

    def bin(self, st, op, a, b):
        F = st.facts
        if isinstance(a, Bool) and isinstance(b, Bool):
            if op == 'BitAnd':
                return Bool(c_and(a.c, b.c))
            if op == 'BitOr':
                return Bool(c_or(a.c, b.c))
            if op in ('Eq', 'Ne', 'BitXor'):
                e = c_or(c_and(a.c, b.c), c_and(c_not(a.c), c_not(b.c)))
                return Bool(e if op == 'Eq' else c_not(e))
            raise Unsupported('bool op %s' % op)
        if not (isinstance(a, Int) and isinstance(b, Int)):
            if op in ('Eq', 'Ne') and isinstance(a, Ref) and isinstance(b, Ref):
                raise Unsupported('pointer comparison')
            raise Unsupported('binop %s on %r, %r' % (op, a, b))
        a, b = F.nint(a), F.nint(b)
        if op == 'BitAnd':
            return op_and(F, a, b)
        if op == 'BitOr':
            return op_or(F, a, b)
        if op == 'BitXor':
            return op_xor(F, a, b)
        if op in ('Shl', 'ShlUnchecked'):
            return op_shl(F, a, b)
        if op in ('Shr', 'ShrUnchecked'):
            return op_shr(F, a, b)
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            f = {'A': op_add, 'S': op_sub, 'M': op_mul}[op[0]]
            x, ov = f(F, a, b)
            if ov is False or op.endswith('Unchecked') or F.dec(ov) is False:
                return x
            return wrap_int(F, x, ov)
        if op.endswith('WithOverflow'):
            f = {'A': op_add, 'S': op_sub, 'M': op_mul}[op[0]]
            x, ov = f(F, a, b)
            return Adt('()', 0, (x, Bool(ov)))
        if op == 'Div':
            return op_div(F, a, b)
        if op == 'Rem':
            return op_rem(F, a, b)
        la, lb = a.lin, b.lin
        if op == 'Eq':
            return Bool(c_eqi(a, b))
        if op == 'Ne':
            return Bool(c_not(c_eqi(a, b)))
        if op == 'Lt':
            return Bool(c_lt(la, lb))
        if op == 'Le':
            return Bool(c_le(la, lb))
        if op == 'Gt':
            return Bool(c_lt(lb, la))
        if op == 'Ge':
            return Bool(c_le(lb, la))
        if op == 'Cmp':
            if need(F, c_lt(la, lb)):
                return Adt('std::cmp::Ordering', 0, ())
            return Adt('std::cmp::Ordering', 1 if need(F, c_eqi(a, b)) else 2, ())
        raise Unsupported('binop %s' % op)

    def cast(self, fr, st, v):
        x = self.operand(fr, st, v['x'])
        t = subst_ty(v['t'], fr.env)
        F = st.facts
        if t['k'] in ('uint', 'int'):
            if isinstance(x, Bool):
                c = need(F, x.c, 'bool as int')
                return iconst(1 if c else 0, t['w'], t['k'] == 'int')
            if isinstance(x, Int):
                return op_cast(F, F.nint(x), t['w'], t['k'] == 'int')
            if isinstance(x, Adt):
                return iconst(self.discr(x.d, x.v), t['w'], t['k'] == 'int')
            if isinstance(x, Sym):
                x = self.expand(st, x)
                return iconst(self.discr(x.d, x.v), t['w'], t['k'] == 'int')
            raise Unsupported('int cast of %r' % (x,))
        kind = v['kind']
        if 'Transmute' in kind and isinstance(x, Int) and t['k'] in ('adt', 'bool', 'char'):
            return self.reinterpret(fr, st, x, t)
        if isinstance(x, Sym) and x.ty['k'] in ('ref', 'ptr'):
            x = self.expand(st, x)
        if isinstance(x, Ref):
            a, b = v['from'].get('e'), t.get('e')
            if 'PtrToPtr' in kind and x.sub is not None and a and b and a['k'] not in ('slice', 'str') and a != b:
                raise Unsupported('pointer to another type')
            if 'Unsize' in kind:
                e = t.get('e') or (t.get('a') or [None])[0]
                if e is not None and e['k'] in ('slice', 'str') and x.sub is None:
                    q = self.read(st, x.root, x.path)
                    if isinstance(q, Seq):
                        return Ref(x.root, x.path, (L0, seq_len(q)))
            return x
        if 'Transmute' in kind and isinstance(x, Seq) and t['k'] == 'array':
            return x
        return x

    def reinterpret(self, fr, st, x, t):
        """a number taken for a value of a type with fewer values"""
        F = st.facts
        if t['k'] == 'bool':
            ok = (0, 1)
        elif t['k'] == 'char':
            ok = None
        else:
            a = self.adts.get(t['d'])
            if not a or not a['enum'] or any(v['f'] for v in a['v']):
                raise Unsupported('transmute to %s' % t['d'])
            ok = sorted(int(v['discr']) for v in a['v'])
        if ok is None:
            if not need(F, c_or(c_le(x.lin, Lin(0xd7ff)), c_and(c_le(Lin(0xe000), x.lin), c_le(x.lin, Lin(0x10ffff)))), 'char'):
                self.panic('unchecked', fr.stack, fr.fn.get('span'), st, True, 'a number that is no character is taken for one')
                raise Unsupported('invalid char')
            raise Unsupported('char')
        for k in ok:
            if need(F, c_eqi(x, iconst(k, x.w)), 'transmute'):
                if t['k'] == 'bool':
                    return Bool(bool(k))
                a = self.adts[t['d']]
                return Adt(t['d'], [int(v['discr']) for v in a['v']].index(k), ())
        self.panic('unchecked', fr.stack, fr.fn.get('span'), st, True, 'a number that is no value of %s is taken for one' % (t.get('d') or t['k']))
        raise Unsupported('invalid transmute')

    # ------------------------------------------------------------ execution
    def cfg(self, fn):
        c = self.cfgs.get(fn['d'])
        if c is None:
            c = self.cfgs[fn['d']] = CFG(fn)
        return c

    def exec_fn(self, d, args, st, env=None, stack=()):
        """list of (state, return value)"""
        fn = self.fns[d]
        s = self.summaries.get(d)
        if s is not None:
            r = s(self, st, args, stack)
            if r is not None:
                return r
        if len(stack) > 60:
            raise Unsupported('call depth')
        if self.contract is not None:
            r = self.contract(self, d, args, st, stack)
            if r is not None:
                return r
        self.nfid += 1
        fid = self.nfid
        cfg = self.cfg(fn)
        fr = Frame(fn, fid, env or {}, cfg, stack + (fn['d'],))
        self.visited[d] = self.visited.get(d, 0) + 1
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[('L', fid, i + 1)] = a
        outs = self.run(fr, 0, st, None)
        res = []
        for o in outs:
            assert o[0] == 'ret', o
            s2 = o[1]
            for k in [k for k in s2.mem if k[0] == 'L' and k[1] == fid]:
                del s2.mem[k]
            res.append((s2, o[2]))
        return self.join_errs(res)

    def join_errs(self, res):
        errs = [(s, v) for s, v in res if err_val(v)]
        if len(errs) <= 1 or self.hooks.get('nojoin'):
            return res
        out = [(s, v) for s, v in res if not err_val(v)]
        groups = {}
        for s, v in errs:
            groups.setdefault(s.ev, []).append((s, v))
        for ev, g in groups.items():
            s, v = g[0]
            for s2, v2 in g[1:]:
                s, v = self.join(s, v, s2, v2)
            out.append((s, v))
        return out

    def join(self, a, va, b, vb):
        s = a.copy()
        s.facts = join_facts(a.facts, b.facts)
        s.alts = tuple((f, s.facts) for f in (a.cases() + b.cases())[:600])
        for k in list(s.mem):
            if k not in b.mem:
                if k[0] in ('H', 'L'):
                    del s.mem[k]
                continue
            if s.mem[k] != b.mem[k]:
                s.mem[k] = self.join_val(s.mem[k], b.mem[k])
        for k in b.mem:
            if k not in s.mem and k[0] in ('C', 'S'):
                s.mem[k] = b.mem[k]
        return s, self.join_val(va, vb)

    def join_val(self, x, y):
        if x == y:
            return x
        if isinstance(x, Adt) and isinstance(y, Adt) and x.d == y.d and x.v == y.v and len(x.f) == len(y.f):
            return Adt(x.d, x.v, [self.join_val(p, q) for p, q in zip(x.f, y.f)])
        self.nfid += 1
        if isinstance(x, Int) and isinstance(y, Int):
            return Int(x.w, x.s, ATOM_BITS[atom_var(('#hv', 'join', self.nfid), x.w)])
        return Opq('#hv', 'join', self.nfid)

    def run(self, fr, bb, st, loop):
        """execute from bb until return / loop exit / back edge. outcome tuples."""
        outs = []
        work = [(bb, 0, st, True)]
        body = fr.cfg.loops[loop] if loop is not None else None
        blocks = fr.fn['blocks']
        while work:
            bb, idx, st, first = work.pop()
            if idx == 0 and not first:
                if bb == loop:
                    outs.append(('back', st))
                    continue
                if body is not None and bb not in body:
                    outs.append(('exit', bb, st))
                    continue
            if idx == 0 and bb in fr.cfg.loops and not (first and bb == loop):
                for o in self.do_loop(fr, bb, st):
                    if o[0] == 'exit':
                        work.append((o[1], 0, o[2], False))
                    else:
                        outs.append(o)
                continue
            blk = blocks[bb]
            ss = blk['s']
            n = len(ss)
            again = False
            while idx < n:
                self.steps += 1
                s = ss[idx]
                try:
                    if s['s'] == 'assign':
                        x = self.rvalue(fr, st, s['v'], s.get('sp'))
                        root, path, sub, _ = self.place(fr, st, s['p'])
                        self.write(st, root, path, x)
                        if isinstance(x, Adt) and s['v']['r'] in ('use', 'agg') and self.lib.has_guard(x):
                            for o in ([s['v']['x']] if s['v']['r'] == 'use' else s['v']['f']):
                                if o['o'] == 'move':
                                    r2, p2, _, _ = self.place(fr, st, o['p'])
                                    self.write(st, r2, p2, MOVED)
                    elif s['s'] == 'setdiscr':
                        root, path, sub, ty = self.place(fr, st, s['p'])
                        self.write(st, root, path, Adt(ty['d'], int(s['v']), ()))
                except Split as sp:
                    self.fork(work, bb, idx, st, sp, first)
                    again = True
                    break
                except Unsupported as e:
                    self.unsup.append((fr.stack, s.get('sp'), str(e)))
                    again = True
                    break
                idx += 1
            if again:
                continue
            if self.steps > self.max_steps or time.time() > self.deadline:
                raise Budget('step budget exceeded')
            try:
                self.term(fr, bb, blk['t'], st, work, outs)
            except Split as sp:
                self.fork(work, bb, idx, st, sp, first)
            except Unsupported as e:
                self.unsup.append((fr.stack, blk['t'].get('sp'), str(e)))
        return outs

    def fork(self, work, bb, idx, st, sp, first):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('step budget exceeded')
        for alt in sp.alts:
            s2 = st.assume(alt)
            if s2 is not None:
                work.append((bb, idx, s2, first))

    def panic(self, kind, fr_stack, site, st, cond, msg=''):
        self.panics.append(Panic(kind, site, fr_stack, st, cond, msg))

    def branch(self, st, c):
        """(state if true, state if false)"""
        d = st.facts.dec(c)
        if d is True:
            return st, None
        if d is False:
            return None, st
        return st.assume(c), st.assume(c_not(c))

    def term(self, fr, bb, t, st, work, outs):
        k = t['k']
        self.steps += 1
        if k == 'goto':
            work.append((t['t'], 0, st, False))
        elif k == 'return':
            r = ('L', fr.fid, 0)
            v = st.mem.get(r, UNIT)
            outs.append(('ret', st, v))
        elif k == 'switch':
            x = self.operand(fr, st, t['x'])
            if isinstance(x, Bool):
                tt, ff = self.branch(st, x.c)
                targets = {int(v): b for v, b in t['ts']}
                if ff is not None:
                    work.append((targets.get(0, t.get('else')), 0, ff, False))
                if tt is not None:
                    work.append((targets.get(1, t.get('else')), 0, tt, False))
                return
            if not isinstance(x, Int):
                raise Unsupported('switch on %r' % (x,))
            x = st.facts.nint(x)
            c = x.const()
            if c is not None:
                m = (1 << x.w) - 1
                for v, b in t['ts']:
                    if int(v) & m == c & m:
                        work.append((b, 0, st, False))
                        return
                work.append((t['else'], 0, st, False))
                return
            cur = st
            new = []
            for v, b in t['ts']:
                vv = int(v)
                if x.s and vv >= 1 << (x.w - 1):
                    vv -= 1 << x.w
                y = Int(x.w, x.s, None, Lin(vv))
                tt, ff = self.branch(cur, c_eqi(x, y))
                if tt is not None:
                    new.append((b, 0, tt, False))
                cur = ff
                if cur is None:
                    break
            if cur is not None and t.get('else') is not None:
                new.append((t['else'], 0, cur, False))
            work.extend(reversed(new))
        elif k == 'assert':
            x = self.operand(fr, st, t['x'])
            c = x.c if t['e'] else c_not(x.c)
            tt, ff = self.branch(st, c)
            if ff is not None:
                self.panic('assert', fr.stack, t.get('sp'), ff, c_not(c), str(t.get('msg'))[:120])
            if tt is not None:
                work.append((t['t'], 0, tt, False))
        elif k == 'drop':
            s2 = st.copy()
            for s3 in self.do_drop(fr, t, s2):
                work.append((t['t'], 0, s3, False))
        elif k == 'call':
            f = t['f']
            if f['o'] == 'fn':
                fv = Fn(f, fr.env)
            else:
                fv = self.operand(fr, st, f)
            args = [self.operand(fr, st, a) for a in t['args']]
            s2 = st.copy()
            # arguments moved out of their places
            for a, v in zip(t['args'], args):
                if a['o'] == 'move' and not a['p']['p'] and self.lib.has_guard(v):
                    s2.mem[('L', fr.fid, a['p']['l'])] = MOVED
            res = self.call(s2, fv, args, fr.stack, t.get('sp'), subst_ty(t.get('dt'), fr.env),
                            [subst_ty(x, fr.env) for x in t.get('at', [])])
            if t.get('t') is None:
                return
            for s3, v in res:
                root, path, sub, _ = self.place(fr, s3, t['d'])
                self.write(s3, root, path, v)
                work.append((t['t'], 0, s3, False))
        elif k == 'unreachable':
            pass
        elif k in ('resume',):
            pass
        else:
            raise Unsupported('terminator %s' % k)

    def do_drop(self, fr, t, st):
        return self.lib.drop(self, fr, t, st)

    # ------------------------------------------------------------ calls
    def call(self, st, fv, args, stack, site, dt, at):
        if isinstance(fv, Sym):
            fv = self.expand(st, fv)
        if isinstance(fv, Ref):
            fv = self.deref_all(st, fv)
        if isinstance(fv, Clo):
            return self.call_closure(st, fv, args, stack)
        if not isinstance(fv, Fn):
            raise Unsupported('call of %r' % (fv,))
        f = fv.j
        d = f['d']
        a = [subst_ty(x, fv.env) for x in f.get('a', [])]
        res = f.get('res')
        tr = f.get('trait')
        cut = self.cuts.get(d) or (res and self.cuts.get(res['d']))
        if cut:
            r = cut(self, st, args, stack, site)
            if r is not None:
                return r
        if res and tr and tr.rsplit('::', 1)[-1] in ('Fn', 'FnMut', 'FnOnce') and len(args) == 2 and '{closure' in res['d']:
            return self.lib.call(self, st, f, d, tr, a, args, stack, site, dt, at)
        if res and res['d'] in self.fns and self.fns[res['d']].get('blocks'):
            ra = [subst_ty(x, fv.env) for x in res.get('a', [])]
            return self.exec_fn(res['d'], args, st, dict(enumerate(ra)), stack)
        if not tr and d in self.fns and self.fns[d].get('blocks'):
            return self.exec_fn(d, args, st, dict(enumerate(a)), stack)
        if d in self.ctors:
            dd, v = self.ctors[d]
            return [(st, Adt(dd, v, args))]
        if tr:
            t = self.find_impl(tr, f['name'], a[0] if a else None, args, st)
            if t is not None:
                return self.exec_fn(t[0], args, st, t[1], stack)
        return self.lib.call(self, st, f, d, tr, a, args, stack, site, dt, at)

    def find_impl(self, tr, name, selfty, args, st):
        c = self.impl_idx.get((tr, name))
        if not c:
            return None
        for t, d in c:
            if d not in self.fns or not self.fns[d].get('blocks'):
                continue
            env = {}
            if selfty is not None and selfty['k'] not in ('param', 'alias'):
                if ty_match(t, selfty, env):
                    return d, env
        if args:
            v = self.deref_all(st, args[0])
            for t, d in c:
                if d not in self.fns or not self.fns[d].get('blocks'):
                    continue
                if isinstance(v, Adt) and t['k'] == 'adt' and t['d'] == v.d:
                    return d, {}
                if isinstance(v, Sym) and t['k'] == 'adt' and v.ty['k'] == 'adt' and t['d'] == v.ty['d']:
                    return d, {}
        return None

    def call_closure(self, st, clo, args, stack, selfref=None):
        fn = self.fns.get(clo.d)
        if fn is None:
            raise Unsupported('closure %s' % clo.d)
        t = fn['locals'][1]['t']
        if t['k'] == 'ref':
            if selfref is None:
                selfref = Ref(self.new_root(st, clo))
            a0 = selfref
        else:
            a0 = clo
        return self.exec_fn(clo.d, [a0] + list(args), st, clo.env, stack)

    def apply(self, st, f, args, stack, site=None, dt=None):
        """call a callable value (closure, fn item, reference to one)"""
        ref = None
        v = f
        while isinstance(v, Ref):
            ref = v
            v = self.load(st, v)
        if isinstance(v, Clo):
            return self.call_closure(st, v, args, stack, ref)
        return self.call(st, v, args, stack, site, dt, [])

    # ------------------------------------------------------------ loops
    def do_loop(self, fr, h, st):
        import loops
        return loops.do_loop(self, fr, h, st)


def wrap_int(F, x, ov):
    """wrapping result"""
    c = x.lin
    lo, hi = F.interval(c)
    m = 1 << x.w
    if not x.s:
        if F.dec(ov) is True:
            if lo >= m and hi < 2 * m:
                return Int(x.w, x.s, None, c - m)
            if lo >= -m and hi < 0:
                return Int(x.w, x.s, None, c + m)
        if lo >= -m and hi < 2 * m:
            raise Split([ov, c_not(ov)], 'wrapping arithmetic')
    return Int(x.w, x.s, None, lin_atom(atom_op('#wrap', (c,), x.w)))


def ty_match(pat, t, env):
    if pat['k'] == 'param':
        env[pat['i']] = t
        return True
    if pat['k'] != t['k']:
        return False
    if pat['k'] in ('uint', 'int'):
        return pat['n'] == t['n']
    if pat['k'] == 'adt':
        return pat['d'] == t['d'] and all(ty_match(x, y, env) for x, y in zip(pat.get('a', []), t.get('a', [])))
    if pat['k'] in ('ref', 'slice', 'ptr'):
        return ty_match(pat['e'], t['e'], env)
    if pat['k'] == 'array':
        return ty_match(pat['e'], t['e'], env)
    if pat['k'] == 'tuple':
        return len(pat['e']) == len(t['e']) and all(ty_match(x, y, env) for x, y in zip(pat['e'], t['e']))
    if pat['k'] == 'closure':
        return pat['d'] == t['d']
    return True


def meet_facts(a, b):
    """conjunction (None when contradictory)"""
    f = a
    for x, g in b.sub.items():
        if f.sub.get(x) == g:
            continue
        f = f.copy()
        if not f._add_bit(g ^ frozenset((x,))):
            return None
    for k, r in b.rng.items():
        l = lin_atom(k)
        f = f.assume(('le', l - r[1]))
        if f is None:
            return None
        f = f.assume(('le', Lin(r[0]) - l))
        if f is None:
            return None
    for k, l in b.eqs.items():
        f = f.assume(c_eql(lin_atom(k), l))
        if f is None:
            return None
    for l in b.ineq:
        f = f.assume(('le', l))
        if f is None:
            return None
    for l in b.neq:
        if f.eq0(l) is True:
            return None
    f = f.copy()
    f.neq = f.neq | b.neq
    for k, v in b.cond.items():
        if f.cond.get(k, v) != v:
            return None
    f.cond = {**f.cond, **b.cond}
    for c in reversed(b.conds()):
        f.raw = (c, f.raw)
    for k, v in b.var.items():
        f = f.assume(('var', k, v)) if not isinstance(v, frozenset) else f
        if f is None:
            return None
    if f.sub is not a.sub:
        # bounds of the one side against bits fixed by the other
        for k, r in a.rng.items():
            l = lin_atom(k)
            if f.dec(('le', l - r[1])) is False or f.dec(('le', Lin(r[0]) - l)) is False:
                return None
        for l in a.ineq:
            if f.dec(('le', l)) is False:
                return None
    return f


def join_facts(a, b):
    """facts entailed by both"""
    if a is b:
        return a
    f = Facts()
    # shared solved bit equations
    sub = {k: v for k, v in a.sub.items() if b.sub.get(k) == v}
    f.sub = sub
    f.touched = frozenset(k >> 8 for k in sub)
    f.eqs = {k: v for k, v in a.eqs.items() if b.eqs.get(k) == v}
    r = {}
    for k in set(a.rng) & set(b.rng):
        x, y = a.arange(k), b.arange(k)
        r[k] = (min(x[0], y[0]), max(x[1], y[1]))
    f.rng = r
    ine = []
    for l in a.ineq:
        if l in ine:
            continue
        if l in b.ineq or b.le0(l):
            ine.append(l)
    for l in b.ineq:
        if l not in ine and a.le0(l):
            ine.append(l)
    # ranges known on one side only may still be entailed on the other
    f.ineq = tuple(ine)
    f.neq = a.neq & b.neq
    f.cond = {k: v for k, v in a.cond.items() if b.cond.get(k) == v}
    f.var = {k: v for k, v in a.var.items() if b.var.get(k) == v}
    return f
