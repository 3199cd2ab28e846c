"""Semantics of the standard library and of the crypto crates used by the analysed program."""
from eng import *
from loops import same_val

GUARD = '@Guard'


class Ctx:
    __slots__ = ('stack', 'site', 'dt', 'at', 'a', 'd', 'name', 'tr')


N = {}


def nat(*names):
    def w(f):
        for n in names:
            N[n] = f
        return f
    return w


# ------------------------------------------------------------------ helpers
def has_guard(v, depth=4):
    if isinstance(v, Adt):
        if v.d == GUARD:
            return True
        return depth > 0 and any(has_guard(x, depth - 1) for x in v.f if isinstance(x, Adt))
    return False


def guards(v):
    if isinstance(v, Adt):
        if v.d == GUARD:
            return [v]
        return [g for x in v.f for g in guards(x)]
    return []


def release(E, st, v):
    for g in guards(v):
        st.event('unlock', g.f[1].k)


def drop(E, fr, t, st):
    try:
        root, path, sub, ty = E.place(fr, st, t['p'])
        v = E.read(st, root, path)
    except (Unsupported, Split):
        return [st]
    if v is MOVED:
        return [st]
    if has_guard(v):
        release(E, st, v)
        E.write(st, root, path, MOVED)
        return [st]
    t2 = subst_ty(t.get('ty'), fr.env)
    if t2 and t2['k'] == 'adt':
        im = E.find_impl('std::ops::Drop', 'drop', t2, [], st) if ('std::ops::Drop', 'drop') in E.impl_idx else None
        if im:
            return [s for s, _ in E.exec_fn(im[0], [Ref(root, path)], st, im[1], fr.stack)]
    return [st]


def qkey(F, q):
    return ('#q', seq_norm(F, q).segs)


def vkey(E, st, v):
    F = st.facts
    if isinstance(v, Int):
        return F.nint(v).lin
    if isinstance(v, Sym):
        try:
            return vkey(E, st, E.expand(st, v))
        except Unsupported:
            return v.id
    if isinstance(v, Adt):
        return (v.d, v.v) + tuple(vkey(E, st, x) for x in v.f)
    if isinstance(v, Seq):
        return qkey(F, v)
    if isinstance(v, Ref):
        return vkey(E, st, E.load(st, v))
    if isinstance(v, Opq):
        return v.k
    return ('?', id(v))


def av(E, st, v):
    """value with an outermost constructor"""
    if isinstance(v, Sym):
        return E.expand(st, v)
    return v


def require(E, st, c, ctx, kind, msg=''):
    """state in which c holds; a possible failure is recorded as a panic"""
    tt, ff = E.branch(st, c)
    if ff is not None:
        E.panic(kind, ctx.stack, ctx.site, ff, c_not(c), msg)
    return tt


def uk(E, st, ctx, why=''):
    E.nfid += 1
    return ('#unk', ctx.name or ctx.d, ctx.site, E.nfid)


def expand_std(E, st, v):
    t = v.ty
    d = t['d']
    if d in ('std::sync::RwLock', 'std::sync::Mutex', 'std::cell::RefCell', 'std::cell::Cell', 'std::cell::UnsafeCell'):
        return Adt(d, 0, (E.mksym(('#in', v.id), t['a'][0]),))
    if d in ('std::collections::HashMap', 'std::collections::BTreeMap'):
        return Adt('@HM', 0, (Opq('map', v.id, 0), Opq('ty', tkey(t['a'][1]))))
    return None


def fresh(E, st, ctx):
    """unknown result of an unmodelled call"""
    i = uk(E, st, ctx)
    if ctx.dt is None:
        return Opq(*i)
    return E.mksym(i, ctx.dt)


def unmodelled(E, st, ctx, args):
    E.unmod[ctx.d] = E.unmod.get(ctx.d, 0) + 1
    for v, t in zip(args, ctx.at):
        if isinstance(v, Ref) and t and t['k'] == 'ref' and t['m']:
            i = uk(E, st, ctx)
            try:
                old = E.load(st, v)
            except (Unsupported, Split):
                old = None
            if isinstance(old, Seq):
                n = seq_len(old) if v.sub is not None or t['e']['k'] in ('slice', 'array') else lin_atom(atom_var(('#len', i), 64, 0, 1 << 48))
                src = i
                if old.ety is not None:
                    reg_src(src, old.ety)
                E.store(st, v, Seq((('s', src, L0, n),), old.ety))
            elif v.sub is None:
                E.store(st, v, E.mksym(i, t['e']) if t['e']['k'] != 'param' else Opq(*i))
    return [(st, fresh(E, st, ctx))]


def call(E, st, f, d, tr, a, args, stack, site, dt, at):
    ctx = Ctx()
    ctx.stack, ctx.site, ctx.dt, ctx.at, ctx.a, ctx.d, ctx.name, ctx.tr = stack, site, dt, at, a, d, f.get('name'), tr
    s = short(d)
    h = N.get(s) or N.get('*_' + (f.get('name') or ''))
    if h is not None:
        r = h(E, st, args, ctx)
        if r is not None:
            return r
    m = 'models::' + s
    if m in E.fns:
        return E.exec_fn(m, args, st, {}, stack)
    p = d.split('::')
    if 'panicking' in p or d.startswith('std::rt::') or s.startswith('panic'):
        return panic_call(E, st, args, ctx)
    if 'fmt' in p:
        fmt_event(E, st, ctx, args)
        return [(st, fresh_fmt(E, st, ctx, args))]
    return unmodelled(E, st, ctx, args)


def fresh_fmt(E, st, ctx, args):
    E.nfid += 1
    if ctx.dt and ctx.dt['k'] == 'adt' and ctx.dt['d'] == RES:
        return ok(UNIT)
    if ctx.dt and ctx.dt['k'] == 'ref' and args and isinstance(args[0], Ref) and ctx.at and ctx.at[0] and tkey(ctx.at[0]) == tkey(ctx.dt):
        return args[0]
    return Opq('fmt', ctx.name, E.nfid)


def panic_call(E, st, args, ctx):
    msg = ''
    for x in args:
        try:
            v = E.load(st, x)
            if isinstance(v, Seq):
                msg = bytes(s[1].const() for s in v.segs).decode('utf8', 'replace')
        except Exception:
            pass
    E.panic('panic', ctx.stack, ctx.site, st, True, ctx.name + (': ' + msg if msg else ''))
    return []


# ------------------------------------------------------------------ core conversions
@nat('Clone_clone', 'slice_clone', 'ToOwned_to_owned', '*_to_owned')
def clone(E, st, args, ctx):
    v = args[0]
    if isinstance(v, Sym):
        v = E.expand(st, v)
    if not isinstance(v, Ref):
        return [(st, v)]
    t = ctx.at[0] if ctx.at else None
    x = E.load(st, v)
    if isinstance(x, Adt) and x.d.startswith('models::') and False:
        pass
    return [(st, x)]


@nat('Into_into', 'From_from')
def conv(E, st, args, ctx):
    if ctx.tr and ctx.tr.endswith('Into'):
        src, tgt = ctx.a[0], ctx.a[1] if len(ctx.a) > 1 else None
        if tgt is None:
            tgt = ctx.dt
    else:
        tgt, src = ctx.a[0], ctx.a[1] if len(ctx.a) > 1 else None
    tgt = ctx.dt or tgt
    v = args[0]
    if tgt['k'] in ('uint', 'int'):
        if isinstance(v, Bool):
            return [(st, iconst(1 if need(st.facts, v.c) else 0, tgt['w'], tgt['k'] == 'int'))]
        if isinstance(v, Int):
            return [(st, op_cast(st.facts, st.facts.nint(v), tgt['w'], tgt['k'] == 'int'))]
    for ty, d in E.impl_idx.get(('std::convert::From', 'from'), []):
        env = {}
        if d in E.fns and ty_match(ty, tgt, env):
            f = E.fns[d]
            if src is None or ty_match(f['locals'][1]['t'], src, {}) or src['k'] in ('param', 'alias'):
                return E.exec_fn(d, args, st, env, ctx.stack)
    if tgt['k'] == 'adt' and tgt['d'] in ('std::vec::Vec', 'std::boxed::Box', 'std::string::String', 'std::sync::Arc'):
        if isinstance(v, Ref) and tgt['d'] == 'std::vec::Vec' and src and src['k'] == 'ref':
            return [(st, E.load(st, v))]
        if tgt['d'] in PTRS and not isinstance(v, Ref):
            return [(st, Ref(E.new_root(st, v)))]
        return [(st, v)]
    if src is not None and tkey(src) == tkey(tgt):
        return [(st, v)]
    if tgt['k'] == 'adt' and isinstance(v, Adt) and v.d == tgt['d']:
        return [(st, v)]
    return None


@nat('TryFrom_try_from', 'TryInto_try_into')
def tryconv(E, st, args, ctx):
    t = ctx.dt['a'][0] if ctx.dt and ctx.dt['k'] == 'adt' and ctx.dt['d'] == RES else None
    v = args[0]
    if t is None:
        return None
    F = st.facts
    if t['k'] in ('uint', 'int') and isinstance(v, Int):
        w, s = t['w'], t['k'] == 'int'
        l = F.nlin(v.lin)
        c = c_and(('le', l - imax(w, s)), ('le', Lin(imin(w, s)) - l))
        if need(F, c, 'try_from'):
            return [(st, ok(op_cast(F, F.nint(v), w, s)))]
        return [(st, err(Opq('TryFromIntError')))]
    if t['k'] == 'array' and isinstance(v, (Ref, Seq)):
        q = E.load(st, v) if isinstance(v, Ref) else v
        if need(F, c_eql(seq_len(q), Lin(t['n'])), 'try_from array'):
            return [(st, ok(q))]
        return [(st, err(Opq('TryFromSliceError')))]
    if t['k'] == 'ref' and t['e']['k'] == 'array' and isinstance(v, Ref):
        q = E.load(st, v)
        if need(F, c_eql(seq_len(q), Lin(t['e']['n'])), 'try_from array'):
            return [(st, ok(v))]
        return [(st, err(Opq('TryFromSliceError')))]
    for ty, d in E.impl_idx.get(('std::convert::TryFrom', 'try_from'), []):
        env = {}
        if d in E.fns and ty_match(ty, t, env):
            return E.exec_fn(d, args, st, env, ctx.stack)
    return None


@nat('Try_branch')
def branch(E, st, args, ctx):
    v = av(E, st, args[0])
    CF = 'std::ops::ControlFlow'
    if v.d == RES:
        return [(st, Adt(CF, 0, v.f) if v.v == 0 else Adt(CF, 1, (Adt(RES, 1, v.f),)))]
    if v.d == OPT:
        return [(st, Adt(CF, 0, v.f) if v.v == 1 else Adt(CF, 1, (NONE,)))]
    return None


@nat('FromResidual_from_residual')
def from_residual(E, st, args, ctx):
    v = av(E, st, args[0])
    if v.d == RES and ctx.dt and ctx.dt['k'] == 'adt' and ctx.dt['d'] == RES:
        et = ctx.dt['a'][1]
        src = ctx.at[0]['a'][1] if ctx.at and ctx.at[0]['k'] == 'adt' and len(ctx.at[0].get('a', [])) > 1 else None
        if src is not None and tkey(src) != tkey(et):
            for ty, d in E.impl_idx.get(('std::convert::From', 'from'), []):
                if d in E.fns and ty_match(ty, et, {}) and ty_match(E.fns[d]['locals'][1]['t'], src, {}):
                    return [(s, err(x)) for s, x in E.exec_fn(d, [v.f[0]], st, {}, ctx.stack)]
            if et['k'] == 'adt' and et['d'] == 'std::boxed::Box':
                return [(st, err(Ref(E.new_root(st, v.f[0]))))]
    return [(st, v)]


@nat('Try_from_output')
def from_output(E, st, args, ctx):
    if ctx.dt['d'] == RES:
        return [(st, ok(args[0]))]
    return [(st, some(args[0]))]


@nat('FnOnce_call_once', 'FnMut_call_mut', 'Fn_call')
def fncall(E, st, args, ctx):
    a = args[1]
    if isinstance(a, Sym):
        a = E.expand(st, a)
    return E.apply(st, args[0], list(a.f), ctx.stack, ctx.site, ctx.dt)


@nat('Option_unwrap', 'Option_expect', 'Result_unwrap', 'Result_expect', 'Option_unwrap_unchecked', 'Result_unwrap_unchecked')
def unwrap(E, st, args, ctx):
    v = av(E, st, args[0])
    if not isinstance(v, Adt):
        return None
    good = (v.d == OPT and v.v == 1) or (v.d == RES and v.v == 0)
    if good:
        return [(st, v.f[0])]
    E.panic('unchecked' if 'unchecked' in ctx.name else 'unwrap', ctx.stack, ctx.site, st, True, ctx.name + ' on ' + ('None' if v.d == OPT else 'Err(%s)' % (v.f[0],)))
    return []


@nat('Result_unwrap_err', 'Result_expect_err')
def unwrap_err(E, st, args, ctx):
    v = av(E, st, args[0])
    if v.v == 1:
        return [(st, v.f[0])]
    E.panic('unwrap', ctx.stack, ctx.site, st, True, 'unwrap_err on Ok')
    return []


@nat('Option_unwrap_or_default', 'Result_unwrap_or_default')
def unwrap_or_default(E, st, args, ctx):
    v = av(E, st, args[0])
    if (v.d == OPT and v.v == 1) or (v.d == RES and v.v == 0):
        return [(st, v.f[0])]
    return default(E, st, [], ctx)


@nat('Default_default')
def default(E, st, args, ctx):
    t = ctx.dt
    if t['k'] in ('uint', 'int'):
        return [(st, iconst(0, t['w'], t['k'] == 'int'))]
    if t['k'] == 'bool':
        return [(st, FALSE)]
    if t['k'] == 'adt' and t['d'] in ('std::vec::Vec', 'std::string::String'):
        return [(st, Seq((), t['a'][0] if t.get('a') else U8))]
    if t['k'] == 'adt' and t['d'] == OPT:
        return [(st, NONE)]
    if t['k'] == 'array' and t['e']['k'] in ('uint', 'int'):
        return [(st, Seq([('e', iconst(0, t['e']['w']))] * t['n'], t['e']))]
    if t['k'] == 'tuple' and not t['e']:
        return [(st, UNIT)]
    return None


@nat('mem_replace')
def mem_replace(E, st, args, ctx):
    r, _ = E.last_ref(st, args[0]) if False else (args[0], None)
    old = E.load(st, r)
    E.store(st, r, args[1])
    return [(st, old)]


@nat('mem_swap')
def mem_swap(E, st, args, ctx):
    a, b = E.load(st, args[0]), E.load(st, args[1])
    E.store(st, args[0], b)
    E.store(st, args[1], a)
    return [(st, UNIT)]


@nat('mem_take')
def mem_take(E, st, args, ctx):
    old = E.load(st, args[0])
    c2 = Ctx()
    c2.dt = ctx.dt
    r = default(E, st, [], c2)
    if r is None:
        return None
    E.store(st, args[0], r[0][1])
    return [(st, old)]


@nat('mem_drop', 'mem_forget')
def mem_drop(E, st, args, ctx):
    if ctx.name == 'drop':
        release(E, st, args[0])
    return [(st, UNIT)]


@nat('mem_size_of')
def size_of(E, st, args, ctx):
    t = ctx.a[0]
    if t['k'] in ('uint', 'int'):
        return [(st, usz(t['w'] // 8))]
    if t['k'] == 'array' and t['e']['k'] in ('uint', 'int'):
        return [(st, usz(t['n'] * t['e']['w'] // 8))]
    return None


@nat('hint_black_box', 'convert_identity', 'Borrow_borrow', 'AsRef_as_ref', 'AsMut_as_mut', 'Vec_as_slice',
     'Vec_as_mut_slice', 'array_as_slice', 'Iterator_by_ref', 'Vec_into_boxed_slice', 'slice_into_vec',
     'str_as_bytes', 'String_as_bytes', 'String_as_str', 'BorrowMut_borrow_mut', 'slice_as_ref', 'Vec_leak',
     'array_as_mut_slice', 'String_into_bytes', 'slice_from_ref_')
def ident(E, st, args, ctx):
    return [(st, args[0])]


@nat('slice_from_ref')
def from_ref(E, st, args, ctx):
    v = E.load(st, args[0])
    return [(st, Ref(E.new_root(st, Seq([('e', v)]))))]


@nat('Deref_deref', 'DerefMut_deref_mut')
def deref(E, st, args, ctx):
    v = args[0]
    if isinstance(v, Sym):
        v = E.expand(st, v)
    x = E.load(st, v)
    if isinstance(x, Sym):
        x = E.expand(st, x)
    if isinstance(x, Adt) and x.d == GUARD:
        return [(st, x.f[0])]
    if isinstance(x, Ref):
        return [(st, x)]
    return [(st, v)]


@nat('Box_new', 'Arc_new', 'Rc_new', 'Pin_new')
def box_new(E, st, args, ctx):
    return [(st, Ref(E.new_root(st, args[0])))]


@nat('Box_new_uninit')
def box_uninit(E, st, args, ctx):
    return [(st, Ref(E.new_root(st, MOVED)))]


@nat('boxed_box_assume_init_into_vec_unsafe', 'Box_assume_init')
def box_into_vec(E, st, args, ctx):
    v = E.load(st, args[0])
    if ctx.name == 'assume_init':
        return [(st, args[0])]
    return [(st, v)]


# ------------------------------------------------------------------ Vec and slices
@nat('Vec_new', 'String_new')
def vec_new(E, st, args, ctx):
    return [(st, Seq((), ctx.a[0] if ctx.a else U8))]


@nat('Vec_with_capacity', 'String_with_capacity')
def vec_cap(E, st, args, ctx):
    st.event('alloc', st.facts.nint(args[0]).lin, ctx.site, ctx.stack[-1])
    F = st.facts
    c = ('le', F.nlin(args[0].lin) - ((1 << 63) - 1))
    e = ctx.a[0] if ctx.a else U8
    st = require(E, st, c, ctx, 'capacity', 'capacity overflow')
    if st is None:
        return []
    return [(st, Seq((), e))]


@nat('Vec_reserve', 'Vec_reserve_exact', 'Vec_shrink_to_fit', 'String_reserve')
def vec_reserve(E, st, args, ctx):
    if len(args) > 1:
        st.event('alloc', st.facts.nint(args[1]).lin, ctx.site, ctx.stack[-1])
    return [(st, UNIT)]


@nat('Vec_try_reserve', 'Vec_try_reserve_exact', 'String_try_reserve')
def try_reserve(E, st, args, ctx):
    out = []
    n = st.facts.nint(args[1]).lin
    s2 = st.copy()
    s2 = s2.assume(c_le(n, Lin((1 << 47) - 1)))
    if s2 is not None:
        s2.event('alloc', n, ctx.site, ctx.stack[-1])
        out.append((s2, ok(UNIT)))
    s3 = st.assume(c_le(Lin(1 << 47), n))       # running out of memory for less is a failure of the environment
    if s3 is not None:
        out.append((s3, err(Opq('alloc'))))
    return out


@nat('vec_from_elem')
def from_elem(E, st, args, ctx):
    v, n = args
    st.event('alloc', st.facts.nint(n).lin, ctx.site, ctx.stack[-1])
    c = st.facts.nint(n).const()
    if c is not None and c <= 64:
        return [(st, Seq([('e', v)] * c, ctx.a[0] if ctx.a else None))]
    return [(st, Seq([('r', v, st.facts.nlin(n.lin))], ctx.a[0] if ctx.a else None))]


def qref(E, st, v):
    """innermost Ref and its (windowed) sequence"""
    r, q = E.last_ref(st, v)
    if isinstance(q, Sym):
        q = E.expand(st, q)
    if not isinstance(q, Seq):
        raise Unsupported('sequence expected, got %r' % (q,))
    return r, q


def win(r, q):
    return r.sub if r.sub is not None else (L0, seq_len(q))


@nat('Vec_push')
def vec_push(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    E.store(st, r, Seq(q.segs + (('e', args[1]),), q.ety))
    return [(st, UNIT)]


@nat('Vec_pop')
def vec_pop(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    F = st.facts
    n = F.nlin(seq_len(q))
    if need(F, c_le(n, L0), 'pop'):
        return [(st, NONE)]
    v = seq_get(F, q, n - 1)
    E.store(st, r, seq_slice(F, q, L0, n - 1))
    return [(st, some(v))]


@nat('Vec_insert')
def vec_insert(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    F = st.facts
    i = F.nlin(args[1].lin)
    n = F.nlin(seq_len(q))
    st = require(E, st, c_le(i, n), ctx, 'bounds', 'insert index')
    if st is None:
        return []
    F = st.facts
    a, b = seq_slice(F, q, L0, i), seq_slice(F, q, i, n - i)
    E.store(st, r, Seq(a.segs + (('e', args[2]),) + b.segs, q.ety))
    return [(st, UNIT)]


@nat('Vec_remove', 'Vec_swap_remove')
def vec_remove(E, st, args, ctx):
    if ctx.name == 'swap_remove':
        return None
    r, q = qref(E, st, args[0])
    i = st.facts.nlin(args[1].lin)
    n = st.facts.nlin(seq_len(q))
    st = require(E, st, c_lt(i, n), ctx, 'bounds', 'remove index')
    if st is None:
        return []
    F = st.facts
    v = seq_get(F, q, i)
    a, b = seq_slice(F, q, L0, i), seq_slice(F, q, i + 1, n - i - 1)
    E.store(st, r, Seq(a.segs + b.segs, q.ety))
    return [(st, v)]


@nat('Vec_truncate')
def vec_truncate(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    F = st.facts
    n = F.nlin(args[1].lin)
    if need(F, c_lt(n, seq_len(q)), 'truncate'):
        E.store(st, r, seq_slice(F, q, L0, n))
    return [(st, UNIT)]


@nat('Vec_clear')
def vec_clear(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    E.store(st, r, Seq((), q.ety))
    return [(st, UNIT)]


@nat('Vec_resize')
def vec_resize(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    F = st.facts
    n = F.nlin(args[1].lin)
    st.event('alloc', n, ctx.site, ctx.stack[-1])
    m = F.nlin(seq_len(q))
    if need(F, c_le(n, m), 'resize'):
        E.store(st, r, seq_slice(F, q, L0, n))
    else:
        E.store(st, r, seq_norm(F, Seq(q.segs + (('r', args[2], n - m),), q.ety)))
    return [(st, UNIT)]


@nat('Vec_extend_from_slice', 'Vec_append', 'String_push_str')
def vec_extend_slice(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    r2, q2 = qref(E, st, args[1])
    E.store(st, r, seq_norm(st.facts, Seq(q.segs + q2.segs, q.ety or q2.ety)))
    if ctx.name == 'append':
        E.store(st, r2, Seq((), q2.ety))
    return [(st, UNIT)]


@nat('Extend_extend')
def vec_extend(E, st, args, ctx):
    v = args[1]
    q = av(E, st, v)
    if isinstance(q, Ref):
        x = E.load(st, q)
        if isinstance(x, Seq):
            return vec_extend_slice(E, st, args, ctx)
    if isinstance(q, Seq):
        r, q0 = qref(E, st, args[0])
        E.store(st, r, seq_norm(st.facts, Seq(q0.segs + q.segs, q0.ety or q.ety)))
        return [(st, UNIT)]
    s = as_seq(E, st, q, ctx)
    if s is not None:
        r, q0 = qref(E, st, args[0])
        E.store(st, r, seq_norm(st.facts, Seq(q0.segs + s.segs, q0.ety or s.ety)))
        return [(st, UNIT)]
    by_ref = isinstance(q, Adt) and q.d == '@SIter'
    return E.exec_fn('models::Vec_extend_ref' if by_ref else 'models::Vec_extend', args, st, {}, ctx.stack)


def as_seq(E, st, v, ctx):
    """sequence of items an iterator value yields, when directly expressible"""
    if isinstance(v, Ref):
        return None
    if isinstance(v, Seq):
        return v
    if isinstance(v, Adt):
        F = st.facts
        if v.d == '@IntoIter':
            return seq_slice(F, v.f[0], v.f[1].lin, v.f[2].lin - v.f[1].lin)
        if v.d == '@SIter':
            return None
        if v.d in ('models::Copied', 'models::Cloned') and isinstance(v.f[0], Adt) and v.f[0].d == '@SIter':
            i = v.f[0]
            q = E.load(st, i.f[0])
            return seq_slice(F, q, i.f[1].lin, i.f[2].lin - i.f[1].lin)
        if v.d == 'models::Flatten' and v.f[1] == NONE:
            inner = as_seq(E, st, v.f[0], ctx)
            if inner is None and isinstance(v.f[0], Adt) and v.f[0].d == '@SIter':
                i = v.f[0]
                q = E.load(st, i.f[0])
                inner = seq_slice(F, q, i.f[1].lin, i.f[2].lin - i.f[1].lin)
            if inner is not None:
                return flat(E, st, inner)
        if v.d == 'models::Chain':
            if v.f[0] == NONE:
                return as_seq(E, st, v.f[1], ctx)
            a, b = as_seq(E, st, v.f[0].f[0], ctx), as_seq(E, st, v.f[1], ctx)
            if a is not None and b is not None:
                return Seq(a.segs + b.segs, a.ety)
        if v.d == 'models::Once' and v.f[0].v == 1:
            return Seq([('e', v.f[0].f[0])])
        if v.d == 'models::RepeatN':
            return Seq([('r', v.f[0], v.f[1].lin)])
        if v.d == 'models::Take' and isinstance(v.f[0], Adt) and v.f[0].d == 'models::Repeat':
            return Seq([('r', v.f[0].f[0], v.f[1].lin)])
    return None


def flat(E, st, q):
    """concatenation of a sequence of sequences"""
    out = []
    F = st.facts
    for s in q.segs:
        r = flat_seg(E, st, s)
        if r is None:
            return None
        out.extend(r)
    return seq_norm(F, Seq(out, U8))


def flat_seg(E, st, s):
    if s[0] == 'e':
        v = s[1]
        if isinstance(v, Ref):
            v = E.deref_all(st, v)
        if isinstance(v, Sym):
            v = E.expand(st, v)
        if isinstance(v, Ref):
            v = E.deref_all(st, v)
        if isinstance(v, Adt) and v.d in (OPT, RES):
            good = v.v == (1 if v.d == OPT else 0)
            return [('e', v.f[0])] if good else []
        return list(v.segs) if isinstance(v, Seq) else None
    if s[0] == 'star':
        inner = []
        for x in s[2]:
            r = flat_seg(E, st, x)
            if r is None:
                return None
            inner.extend(r)
        return [('star', s[1], tuple(inner), s[3])]
    if s[0] == 's' and s[1] in SRC_T:
        return [('s', ('#flat', s[1], s[2], s[3]), L0, lin_atom(atom_op('#flatlen', (s[1], s[2], s[3]), 64, 0, 1 << 48)))]
    return None


@nat('slice_concat', 'Concat_concat')
def concat(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    f = flat(E, st, q)
    if f is None:
        return None
    return [(st, f)]


@nat('slice_len', 'Vec_len', 'str_len', 'String_len', 'array_len')
def slen(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    return [(st, usz(st.facts.nlin(seq_len(q))))]


@nat('slice_is_empty', 'Vec_is_empty', 'str_is_empty', 'String_is_empty')
def sempty(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    return [(st, Bool(c_le(st.facts.nlin(seq_len(q)), L0)))]


@nat('slice_to_vec', 'slice_to_owned', 'str_to_string', 'slice_into_boxed')
def to_vec(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    return [(st, q)]


def range_bounds(E, st, v, n, ctx):
    """(start, end) Lins of a range value over a sequence of length n"""
    v = av(E, st, v)
    if isinstance(v, Adt):
        s = v.d.split('::')[-1]
        if s == 'RangeFull':
            return L0, n
        if s == 'RangeTo':
            return L0, v.f[0].lin
        if s == 'RangeFrom':
            return v.f[0].lin, n
        if s == 'Range':
            return v.f[0].lin, v.f[1].lin
        if s == 'RangeInclusive':
            return v.f[0].lin, v.f[1].lin + 1
        if s == 'RangeToInclusive':
            return L0, v.f[0].lin + 1
    return None


@nat('RangeInclusive_new')
def ri_new(E, st, args, ctx):
    return [(st, Adt('std::ops::RangeInclusive', 0, (args[0], args[1], FALSE)))]


@nat('Index_index', 'IndexMut_index_mut')
def index(E, st, args, ctx):
    base = av(E, st, args[0])
    r, x = E.last_ref(st, base)
    x = av(E, st, x)
    if isinstance(x, Adt) and x.d == '@HM':
        outs = hm_get(E, st, args, ctx)
        res = []
        for s, v in outs:
            if v.v == 1:
                res.append((s, v.f[0]))
            else:
                E.panic('unwrap', ctx.stack, ctx.site, s, True, 'missing map key')
        return res
    r, q = qref(E, st, base)
    F = st.facts
    o, n = win(r, q) if r.sub is not None else (L0, F.nlin(seq_len(q)))
    i = av(E, st, args[1])
    if isinstance(i, Int):
        l = F.nlin(i.lin)
        st = require(E, st, c_lt(l, n), ctx, 'bounds', 'index %s of %s' % (l, n))
        if st is None:
            return []
        return [(st, Ref(r.root, r.path + (('i', st.facts.nlin(o + l)),)))]
    b = range_bounds(E, st, i, n, ctx)
    if b is None:
        return None
    lo, hi = F.nlin(b[0]), F.nlin(b[1])
    st = require(E, st, c_le(lo, hi), ctx, 'bounds', 'range start %s after end %s' % (lo, hi))
    if st is None:
        return []
    st = require(E, st, c_le(hi, n), ctx, 'bounds', 'range end %s of %s' % (hi, n))
    if st is None:
        return []
    return [(st, Ref(r.root, r.path, (st.facts.nlin(o + lo), st.facts.nlin(hi - lo))))]


@nat('slice_get', 'slice_get_mut', 'Vec_get')
def sget(E, st, args, ctx):
    x = E.deref_all(st, args[0])
    x = av(E, st, x)
    if isinstance(x, Adt) and x.d == '@HM':
        return hm_get(E, st, args, ctx)
    r, q = qref(E, st, args[0])
    F = st.facts
    o, n = win(r, q)
    i = av(E, st, args[1])
    if isinstance(i, Int):
        if need(F, c_lt(i.lin, n), 'get'):
            return [(st, some(Ref(r.root, r.path + (('i', F.nlin(o + i.lin)),))))]
        return [(st, NONE)]
    b = range_bounds(E, st, i, n, ctx)
    if b is None:
        return None
    if need(F, c_and(c_le(b[0], b[1]), c_le(b[1], n)), 'get'):
        return [(st, some(Ref(r.root, r.path, (F.nlin(o + b[0]), F.nlin(b[1] - b[0])))))]
    return [(st, NONE)]


@nat('slice_get_unchecked', 'slice_get_unchecked_mut')
def sget_unchecked(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    F = st.facts
    o, n = win(r, q)
    i = av(E, st, args[1])
    if isinstance(i, Int):
        c = c_lt(i.lin, n)
        tt, ff = E.branch(st, c)
        if ff is not None:
            E.panic('unchecked', ctx.stack, ctx.site, ff, c_not(c), 'unchecked index %s of %s' % (i.lin, n))
        if tt is None:
            return []
        return [(tt, Ref(r.root, r.path + (('i', tt.facts.nlin(o + i.lin)),)))]
    b = range_bounds(E, st, i, n, ctx)
    c = c_and(c_le(b[0], b[1]), c_le(b[1], n))
    tt, ff = E.branch(st, c)
    if ff is not None:
        E.panic('unchecked', ctx.stack, ctx.site, ff, c_not(c), 'unchecked range %s..%s of %s' % (b[0], b[1], n))
    if tt is None:
        return []
    return [(tt, Ref(r.root, r.path, (tt.facts.nlin(o + b[0]), tt.facts.nlin(b[1] - b[0]))))]


def unchecked(E, st, c, ctx, msg):
    tt, ff = E.branch(st, c)
    if ff is not None:
        E.panic('unchecked', ctx.stack, ctx.site, ff, c_not(c), msg)
    return tt


# raw pointers into slices are references with a window that starts at the pointer
@nat('slice_as_ptr', 'slice_as_mut_ptr', 'Vec_as_ptr', 'Vec_as_mut_ptr', 'array_as_ptr', 'array_as_mut_ptr', 'str_as_ptr')
def as_ptr(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    return [(st, Ref(r.root, r.path, win(r, q)))]


@nat('const_ptr_add', 'mut_ptr_add', 'const_ptr_wrapping_add', 'mut_ptr_wrapping_add')
def ptr_add(E, st, args, ctx):
    p, k = args[0], args[1]
    if not isinstance(p, Ref) or p.sub is None or not isinstance(k, Int):
        return None
    o, n = p.sub
    if 'wrapping' not in ctx.name:
        st = unchecked(E, st, c_le(k.lin, n), ctx, 'pointer moved by %s beyond %s elements' % (k.lin, n))
        if st is None:
            return []
    F = st.facts
    return [(st, Ref(p.root, p.path, (F.nlin(o + k.lin), F.nlin(n - k.lin))))]


@nat('slice_from_raw_parts', 'slice_from_raw_parts_mut')
def from_raw_parts(E, st, args, ctx):
    if 'std::slice' not in ctx.d and 'core::slice' not in ctx.d:
        return None
    p, k = args[0], args[1]
    if not isinstance(p, Ref) or p.sub is None or not isinstance(k, Int):
        return None
    o, n = p.sub
    st = unchecked(E, st, c_le(k.lin, n), ctx, 'slice of %s elements over %s' % (k.lin, n))
    if st is None:
        return []
    return [(st, Ref(p.root, p.path, (o, st.facts.nlin(k.lin))))]


@nat('ptr_read', 'const_ptr_read', 'mut_ptr_read')
def ptr_read(E, st, args, ctx):
    p = args[0]
    if not isinstance(p, Ref):
        return None
    if p.sub is None:
        return [(st, E.read(st, p.root, p.path))]
    o, n = p.sub
    st = unchecked(E, st, c_le(Lin(1), n), ctx, 'element read outside its slice')
    if st is None:
        return []
    return [(st, E.read(st, p.root, p.path + (('i', st.facts.nlin(o)),)))]


@nat('ptr_write', 'mut_ptr_write')
def ptr_write(E, st, args, ctx):
    p = args[0]
    if not isinstance(p, Ref):
        return None
    if p.sub is None:
        E.write(st, p.root, p.path, args[1])
        return [(st, UNIT)]
    o, n = p.sub
    st = unchecked(E, st, c_le(Lin(1), n), ctx, 'element written outside its slice')
    if st is None:
        return []
    E.write(st, p.root, p.path + (('i', st.facts.nlin(o)),), args[1])
    return [(st, UNIT)]


@nat('ptr_copy_nonoverlapping', 'intrinsics_copy_nonoverlapping', 'ptr_copy')
def ptr_copy(E, st, args, ctx):
    a, b, k = args
    if not all(isinstance(x, Ref) and x.sub is not None for x in (a, b)) or not isinstance(k, Int):
        return None
    st = unchecked(E, st, c_le(k.lin, a.sub[1]), ctx, '%s elements copied from %s' % (k.lin, a.sub[1]))
    if st is None:
        return []
    st = unchecked(E, st, c_le(k.lin, b.sub[1]), ctx, '%s elements copied over %s' % (k.lin, b.sub[1]))
    if st is None:
        return []
    n = st.facts.nlin(k.lin)
    q = E.deref_all(st, Ref(a.root, a.path, (a.sub[0], n)))
    E.store(st, Ref(b.root, b.path, (b.sub[0], n)), q)
    return [(st, UNIT)]


@nat('Vec_set_len')
def set_len(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    n = st.facts.nlin(args[1].lin)
    m = st.facts.nlin(seq_len(q))
    st = unchecked(E, st, c_le(n, m), ctx, 'length set to %s with %s elements written' % (n, m))
    if st is None:
        return []
    if st.facts.dec(c_eql(n, m)) is not True:
        E.store(st, r, seq_slice(st.facts, q, L0, n))
    return [(st, UNIT)]


@nat('hint_unreachable_unchecked')
def unreachable_unchecked(E, st, args, ctx):
    E.panic('unchecked', ctx.stack, ctx.site, st, True, 'code declared unreachable is reached')
    return []


@nat('hint_assert_unchecked')
def assert_unchecked(E, st, args, ctx):
    st = unchecked(E, st, args[0].c, ctx, 'a condition declared to hold does not')
    return [] if st is None else [(st, UNIT)]


@nat('*_unchecked_add', '*_unchecked_sub', '*_unchecked_mul')
def unchecked_arith(E, st, args, ctx):
    a, b = args[0], args[1]
    if not isinstance(a, Int) or not isinstance(b, Int):
        return None
    f = {'add': op_add, 'sub': op_sub, 'mul': op_mul}[ctx.name[-3:]]
    x, ov = f(st.facts, st.facts.nint(a), st.facts.nint(b))
    st = unchecked(E, st, c_not(ov), ctx, 'unchecked arithmetic overflows')
    return [] if st is None else [(st, x)]


@nat('slice_first', 'slice_last', 'slice_first_mut', 'slice_last_mut')
def sfirst(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    F = st.facts
    o, n = win(r, q)
    if need(F, c_le(n, L0), 'first'):
        return [(st, NONE)]
    i = o if 'first' in ctx.name else o + n - 1
    return [(st, some(Ref(r.root, r.path + (('i', F.nlin(i)),))))]


@nat('slice_split_at', 'slice_split_at_mut')
def split_at(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    o, n = win(r, q)
    m = args[1].lin
    st = require(E, st, c_le(m, n), ctx, 'bounds', 'split_at %s of %s' % (m, n))
    if st is None:
        return []
    F = st.facts
    return [(st, tup(Ref(r.root, r.path, (o, F.nlin(m))), Ref(r.root, r.path, (F.nlin(o + m), F.nlin(n - m)))))]


@nat('slice_split_at_checked')
def split_at_checked(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    o, n = win(r, q)
    m = args[1].lin
    F = st.facts
    if not need(F, c_le(m, n), 'split_at_checked'):
        return [(st, NONE)]
    return [(st, some(tup(Ref(r.root, r.path, (o, F.nlin(m))), Ref(r.root, r.path, (F.nlin(o + m), F.nlin(n - m))))))]


@nat('slice_first_chunk', 'slice_last_chunk', 'slice_split_first_chunk', 'slice_split_last_chunk')
def slice_chunk(E, st, args, ctx):
    t = ctx.dt['a'][0] if ctx.dt and ctx.dt['k'] == 'adt' and ctx.dt['a'] else None
    while t and t['k'] != 'array':
        t = t.get('e') if t['k'] == 'ref' else (t['a'] if 'a' in t else t['e'])[1 if 'last' in ctx.name else 0] if t['k'] in ('tuple', 'tup') else None
    if not t or not isinstance(t.get('n'), int):
        return None
    r, q = qref(E, st, args[0])
    o, n = win(r, q)
    k = Lin(t['n'])
    F = st.facts
    if not need(F, c_le(k, n), ctx.name):
        return [(st, NONE)]
    if 'last' in ctx.name:
        c, rest = Ref(r.root, r.path, (F.nlin(o + n - k), k)), Ref(r.root, r.path, (o, F.nlin(n - k)))
    else:
        c, rest = Ref(r.root, r.path, (o, k)), Ref(r.root, r.path, (F.nlin(o + k), F.nlin(n - k)))
    if 'split' not in ctx.name:
        return [(st, some(c))]
    return [(st, some(tup(rest, c) if 'last' in ctx.name else tup(c, rest)))]


@nat('slice_split_first', 'slice_split_last')
def split_first(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    o, n = win(r, q)
    F = st.facts
    if need(F, c_le(n, L0), 'split_first'):
        return [(st, NONE)]
    if ctx.name == 'split_first':
        return [(st, some(tup(Ref(r.root, r.path + (('i', o),)), Ref(r.root, r.path, (o + 1, n - 1)))))]
    return [(st, some(tup(Ref(r.root, r.path + (('i', F.nlin(o + n - 1)),)), Ref(r.root, r.path, (o, n - 1)))))]


@nat('Vec_split_off')
def split_off(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    n = st.facts.nlin(seq_len(q))
    m = args[1].lin
    st = require(E, st, c_le(m, n), ctx, 'bounds', 'split_off')
    if st is None:
        return []
    F = st.facts
    a, b = seq_slice(F, q, L0, m), seq_slice(F, q, m, n - m)
    E.store(st, r, a)
    return [(st, b)]


@nat('Vec_drain')
def drain(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    n = st.facts.nlin(seq_len(q))
    b = range_bounds(E, st, args[1], n, ctx)
    if b is None:
        return None
    st = require(E, st, c_and(c_le(b[0], b[1]), c_le(b[1], n)), ctx, 'bounds', 'drain')
    if st is None:
        return []
    F = st.facts
    x = seq_slice(F, q, b[0], b[1] - b[0])
    E.store(st, r, Seq(seq_slice(F, q, L0, b[0]).segs + seq_slice(F, q, b[1], n - b[1]).segs, q.ety))
    return [(st, Adt('@IntoIter', 0, (x, usz(0), usz(F.nlin(seq_len(x))))))]


@nat('slice_copy_from_slice', 'slice_clone_from_slice')
def copy_from_slice(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    r2, q2 = qref(E, st, args[1])
    F = st.facts
    st = require(E, st, c_eql(F.nlin(seq_len(q)), F.nlin(seq_len(q2))), ctx, 'bounds', 'copy_from_slice length mismatch')
    if st is None:
        return []
    E.store(st, r, q2)
    return [(st, UNIT)]


@nat('slice_fill')
def fill(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    E.store(st, r, seq_norm(st.facts, Seq([('r', args[1], seq_len(q))], q.ety)))
    return [(st, UNIT)]


@nat('slice_reverse')
def reverse(E, st, args, ctx):
    from loops import seq_norm_e
    r, q = qref(E, st, args[0])
    q = seq_norm_e(st.facts, q)
    if not all(s[0] in ('e', 'r') for s in q.segs):
        return None
    E.store(st, r, Seq(tuple(reversed(q.segs)), q.ety))
    return [(st, UNIT)]


@nat('slice_swap')
def swap(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    n = st.facts.nlin(seq_len(q))
    for i in (1, 2):
        st = require(E, st, c_lt(args[i].lin, n), ctx, 'bounds', 'swap')
        if st is None:
            return []
    F = st.facts
    a, b = seq_get(F, q, args[1].lin), seq_get(F, q, args[2].lin)
    E.store(st, r, seq_set(F, seq_set(F, q, args[1].lin, b), args[2].lin, a))
    return [(st, UNIT)]


@nat('slice_rotate_left', 'slice_rotate_right')
def rotate(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    n = st.facts.nlin(seq_len(q))
    m = st.facts.nlin(args[1].lin)
    st = require(E, st, c_le(m, n), ctx, 'bounds', 'rotate %s of %s' % (m, n))
    if st is None:
        return []
    F = st.facts
    if ctx.name == 'rotate_right':
        m = F.nlin(n - m)
    a, b = seq_slice(F, q, L0, m), seq_slice(F, q, m, n - m)
    E.store(st, r, Seq(b.segs + a.segs, q.ety))
    return [(st, UNIT)]


@nat('slice_copy_within')
def copy_within(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    n = st.facts.nlin(seq_len(q))
    b = range_bounds(E, st, args[1], n, ctx)
    d = args[2].lin
    st = require(E, st, c_and(c_le(b[0], b[1]), c_and(c_le(b[1], n), c_le(d + b[1] - b[0], n))), ctx, 'bounds', 'copy_within')
    if st is None:
        return []
    F = st.facts
    x = seq_slice(F, q, b[0], b[1] - b[0])
    E.store(st, r, seq_replace(F, q, d, b[1] - b[0], x))
    return [(st, UNIT)]


@nat('slice_repeat')
def repeat(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    if len(q.segs) == 1 and q.segs[0][0] == 'e':
        return [(st, Seq([('r', q.segs[0][1], args[1].lin)], q.ety))]
    c = st.facts.nint(args[1]).const()
    if c is not None and c < 64:
        return [(st, Seq(q.segs * c, q.ety))]
    return None


@nat('slice_contains', 'slice_starts_with', 'slice_ends_with')
def contains(E, st, args, ctx):
    return [(st, Bool(('atom', ('#' + ctx.name, vkey(E, st, args[0]), vkey(E, st, args[1])))))]


@nat('PartialEq_eq', 'PartialEq_ne')
def eq(E, st, args, ctx):
    a, b = E.deref_all(st, args[0]), E.deref_all(st, args[1])
    c = eq_cond(E, st, a, b)
    return [(st, Bool(c_not(c) if ctx.name == 'ne' else c))]


def eq_cond(E, st, a, b):
    F = st.facts
    a, b = av(E, st, a), av(E, st, b)
    if isinstance(a, Ref):
        a = av(E, st, E.deref_all(st, a))
    if isinstance(b, Ref):
        b = av(E, st, E.deref_all(st, b))
    if isinstance(a, Int) and isinstance(b, Int):
        return c_eqi(a, b)
    if isinstance(a, Bool) and isinstance(b, Bool):
        return E.bin(st, 'Eq', a, b).c
    if isinstance(a, Adt) and isinstance(b, Adt) and a.d == b.d:
        if a.v != b.v:
            return False
        c = True
        for x, y in zip(a.f, b.f):
            c = c_and(c, eq_cond(E, st, x, y))
        return c
    if isinstance(a, Seq) and isinstance(b, Seq):
        from loops import seq_norm_e
        x, y = seq_norm(F, a), seq_norm(F, b)
        if x.segs == y.segs:
            return True
        lc = c_eql(F.nlin(seq_len(x)), F.nlin(seq_len(y)))
        if F.dec(lc) is False:
            return False
        x, y = seq_norm_e(F, a), seq_norm_e(F, b)
        if F.dec(lc) is True and all(s[0] == 'e' for s in x.segs) and all(s[0] == 'e' for s in y.segs):
            c = True
            for s, t in zip(x.segs, y.segs):
                c = c_and(c, eq_cond(E, st, s[1], t[1]))
            return c
        k = sorted((qkey(F, a), qkey(F, b)), key=repr)
        return ('atom', ('#seqeq', k[0], k[1]))
    if isinstance(a, Opq) and isinstance(b, Opq) and a.k[0] == b.k[0] and a.k[0] in ('addr', 'ip'):
        if a.k == b.k:
            return True
        return ('atom', ('#addreq',) + tuple(sorted((a.k, b.k), key=repr)))
    raise Unsupported('equality of %r and %r' % (a, b))


@nat('PartialOrd_lt', 'PartialOrd_le', 'PartialOrd_gt', 'PartialOrd_ge')
def ordcmp(E, st, args, ctx):
    a, b = E.deref_all(st, args[0]), E.deref_all(st, args[1])
    if isinstance(a, Int) and isinstance(b, Int):
        return [(st, E.bin(st, {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[ctx.name], a, b))]
    return None


@nat('Ord_cmp', 'PartialOrd_partial_cmp')
def cmp(E, st, args, ctx):
    a, b = E.deref_all(st, args[0]), E.deref_all(st, args[1])
    if isinstance(a, Int) and isinstance(b, Int):
        r = E.bin(st, 'Cmp', a, b)
        return [(st, some(r) if 'partial' in ctx.name else r)]
    return None


@nat('Ord_min', 'Ord_max', 'cmp_min', 'cmp_max', 'num_min', 'num_max')
def minmax(E, st, args, ctx):
    a, b = args[:2]
    if isinstance(a, Int) and isinstance(b, Int):
        lt = need(st.facts, c_le(a.lin, b.lin), ctx.name)
        return [(st, (a if lt else b) if 'min' in ctx.name else (b if lt else a))]
    return None


# ------------------------------------------------------------------ integers
def bits_to_be(F, x):
    b = F.ibits(x)
    n = x.w // 8
    return [Int(8, False, b[8 * i:8 * i + 8]) for i in range(n)][::-1]


@nat('num_to_be_bytes', 'num_to_le_bytes', 'num_to_ne_bytes')
def to_be(E, st, args, ctx):
    x = st.facts.nint(args[0])
    bs = bits_to_be(st.facts, x)
    if ctx.name != 'to_be_bytes':
        bs = bs[::-1]
    return [(st, Seq([('e', b) for b in bs], U8))]


@nat('num_from_be_bytes', 'num_from_le_bytes', 'num_from_ne_bytes')
def from_be(E, st, args, ctx):
    q = av(E, st, args[0])
    n = st.facts.nlin(seq_len(q)).c
    bs = [seq_get(st.facts, q, Lin(i)) for i in range(n)]
    if ctx.name == 'from_be_bytes':
        bs = bs[::-1]
    bits = ()
    for b in bs:
        bits = bits + tuple(st.facts.ibits(b))
    t = ctx.dt
    return [(st, Int(8 * n, t['k'] == 'int', bits))]


@nat('num_swap_bytes', 'num_to_be', 'num_from_be')
def swapb(E, st, args, ctx):
    x = st.facts.nint(args[0])
    bs = bits_to_be(st.facts, x)
    bits = ()
    for b in bs:
        bits = bits + tuple(b.bits)
    return [(st, Int(x.w, x.s, bits))]


@nat('num_checked_add', 'num_checked_sub', 'num_checked_mul', 'num_checked_div', 'num_checked_rem')
def checked(E, st, args, ctx):
    F = st.facts
    a, b = F.nint(args[0]), F.nint(args[1])
    op = ctx.name[8:]
    if op in ('div', 'rem'):
        if need(F, c_eqi(b, iconst(0, b.w, b.s)), 'checked'):
            return [(st, NONE)]
        return [(st, some((op_div if op == 'div' else op_rem)(F, a, b)))]
    x, ov = {'add': op_add, 'sub': op_sub, 'mul': op_mul}[op](F, a, b)
    if ov is not False and need(F, ov, 'checked_' + op):
        return [(st, NONE)]
    return [(st, some(x))]


@nat('num_checked_shl', 'num_checked_shr')
def checked_sh(E, st, args, ctx):
    F = st.facts
    a, b = F.nint(args[0]), F.nint(args[1])
    if not need(F, c_lt(b.lin, Lin(a.w)), 'checked_sh'):
        return [(st, NONE)]
    return [(st, some((op_shl if ctx.name.endswith('shl') else op_shr)(F, a, b)))]


@nat('num_checked_pow', 'num_pow')
def pow_(E, st, args, ctx):
    F = st.facts
    a, b = F.nint(args[0]).const(), F.nint(args[1]).const()
    if a is None:
        return None
    if b is None:
        b = split_values(F, args[1], 'pow', 70)
    v = a ** b
    if v > imax(args[0].w, args[0].s):
        if ctx.name == 'pow':
            E.panic('assert', ctx.stack, ctx.site, st, True, 'pow overflow')
            return []
        return [(st, NONE)]
    r = iconst(v, args[0].w, args[0].s)
    return [(st, r if ctx.name == 'pow' else some(r))]


@nat('num_saturating_add', 'num_saturating_sub', 'num_saturating_mul')
def saturating(E, st, args, ctx):
    F = st.facts
    a, b = F.nint(args[0]), F.nint(args[1])
    op = ctx.name[11:]
    x, ov = {'add': op_add, 'sub': op_sub, 'mul': op_mul}[op](F, a, b)
    if ov is not False and need(F, ov, 'saturating'):
        return [(st, iconst(0 if op == 'sub' and not a.s else imax(a.w, a.s), a.w, a.s))]
    return [(st, x)]


@nat('num_wrapping_add', 'num_wrapping_sub', 'num_wrapping_mul')
def wrapping(E, st, args, ctx):
    return [(st, E.bin(st, {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[ctx.name[9:]], args[0], args[1]))]


@nat('num_wrapping_shl', 'num_wrapping_shr')
def wrapping_sh(E, st, args, ctx):
    F = st.facts
    m = op_and(F, args[1], iconst(args[0].w - 1, args[1].w))
    return [(st, (op_shl if ctx.name.endswith('l') else op_shr)(F, F.nint(args[0]), m))]


@nat('num_overflowing_add', 'num_overflowing_sub', 'num_overflowing_mul')
def overflowing(E, st, args, ctx):
    F = st.facts
    a, b = F.nint(args[0]), F.nint(args[1])
    x, ov = {'add': op_add, 'sub': op_sub, 'mul': op_mul}[ctx.name[12:]](F, a, b)
    o = False if ov is False else need(F, ov, 'overflowing')
    return [(st, tup(wrap_int(F, x, ov) if o else x, Bool(o)))]


@nat('num_leading_zeros', 'num_ilog2', 'num_checked_ilog2', 'num_trailing_zeros')
def leading(E, st, args, ctx):
    F = st.facts
    x = F.nint(args[0])
    w = x.w
    if ctx.name == 'trailing_zeros':
        for i, f in enumerate(F.ibits(x)):
            if f == ONE_F:
                return [(st, iconst(i, 32))]
            if f:
                return None
        return [(st, iconst(w, 32))]
    c = x.const()
    if c is None:
        bits = F.ibits(x)
        top = w - 1
        while top >= 0 and not bits[top]:
            top -= 1
        if top >= 0 and bits[top] != ONE_F:
            raise Split([('le', Lin(1 << top) - x.lin), ('le', x.lin - ((1 << top) - 1))], 'leading_zeros')
    else:
        top = c.bit_length() - 1
    if ctx.name == 'leading_zeros':
        return [(st, iconst(w - 1 - top, 32))]
    if top < 0:
        if ctx.name == 'checked_ilog2':
            return [(st, NONE)]
        E.panic('assert', ctx.stack, ctx.site, st, True, 'ilog2 of zero')
        return []
    r = iconst(top, 32)
    return [(st, some(r) if ctx.name == 'checked_ilog2' else r)]


@nat('num_div_ceil')
def div_ceil(E, st, args, ctx):
    F = st.facts
    a, b = F.nint(args[0]), F.nint(args[1])
    d = b.const()
    if not d:
        return None
    x, _ = op_add(F, Int(a.w, a.s, None, a.lin), iconst(d - 1, a.w))
    return [(st, op_div(F, x, b))]


@nat('num_abs_diff')
def abs_diff(E, st, args, ctx):
    F = st.facts
    a, b = F.nint(args[0]), F.nint(args[1])
    if need(F, c_le(a.lin, b.lin), 'abs_diff'):
        a, b = b, a
    return [(st, Int(a.w, False, None, a.lin - b.lin))]


@nat('num_is_power_of_two', 'num_count_ones', 'num_count_zeros', 'num_next_power_of_two', 'num_trailing_ones', 'num_leading_ones', 'num_reverse_bits')
def popcnt(E, st, args, ctx):
    F = st.facts
    x = F.nint(args[0])
    if ctx.name == 'reverse_bits':
        return [(st, Int(x.w, x.s, tuple(reversed(F.ibits(x)))))]
    c = x.const()
    if c is None:
        return None
    if ctx.name == 'is_power_of_two':
        return [(st, Bool(bin(c).count('1') == 1))]
    if ctx.name == 'next_power_of_two':
        return [(st, iconst(1 << max(0, (c - 1).bit_length()) if c else 1, x.w))]
    s = bin(c & ((1 << x.w) - 1))[2:].zfill(x.w)
    r = {'count_ones': s.count('1'), 'count_zeros': s.count('0'), 'trailing_ones': len(s) - len(s.rstrip('1')),
         'leading_ones': len(s) - len(s.lstrip('1'))}[ctx.name]
    return [(st, iconst(r, 32))]


@nat('num_rotate_left', 'num_rotate_right')
def rotl(E, st, args, ctx):
    F = st.facts
    x = F.nint(args[0])
    c = F.nint(args[1]).const()
    if c is None:
        return None
    c %= x.w
    b = F.ibits(x)
    if ctx.name == 'rotate_right':
        c = x.w - c
    c %= x.w
    return [(st, Int(x.w, x.s, b[x.w - c:] + b[:x.w - c]))]


@nat('BitXor_bitxor', 'BitAnd_bitand', 'BitOr_bitor', 'Add_add', 'Sub_sub', 'Shl_shl', 'Shr_shr', 'Mul_mul', 'Div_div', 'Rem_rem')
def optrait(E, st, args, ctx):
    a, b = E.deref_all(st, args[0]), E.deref_all(st, args[1])
    if not isinstance(a, (Int, Bool)):
        return None
    op = {'bitxor': 'BitXor', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'add': 'Add', 'sub': 'Sub', 'shl': 'Shl', 'shr': 'Shr',
          'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}[ctx.name]
    return arith(E, st, op, a, b, ctx)


def arith(E, st, op, a, b, ctx):
    if op in ('Add', 'Sub', 'Mul'):
        r = E.bin(st, op + 'WithOverflow', a, b)
        st = require(E, st, c_not(r.f[1].c), ctx, 'assert', 'arithmetic overflow')
        return [] if st is None else [(st, r.f[0])]
    if op in ('Div', 'Rem'):
        st = require(E, st, c_not(c_eqi(b, iconst(0, b.w, b.s))), ctx, 'assert', 'division by zero')
        return [] if st is None else [(st, E.bin(st, op, a, b))]
    if op in ('Shl', 'Shr'):
        st = require(E, st, c_lt(b.lin, Lin(a.w)), ctx, 'assert', 'shift overflow')
        return [] if st is None else [(st, E.bin(st, op, a, b))]
    return [(st, E.bin(st, op, a, b))]


@nat('BitXorAssign_bitxor_assign', 'BitAndAssign_bitand_assign', 'BitOrAssign_bitor_assign', 'AddAssign_add_assign', 'SubAssign_sub_assign',
     'ShlAssign_shl_assign', 'ShrAssign_shr_assign')
def opassign(E, st, args, ctx):
    a, b = E.load(st, args[0]), E.deref_all(st, args[1])
    if not isinstance(a, (Int, Bool)):
        return None
    op = {'bitxor': 'BitXor', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'add': 'Add', 'sub': 'Sub', 'shl': 'Shl', 'shr': 'Shr'}[ctx.name[:-7]]
    out = []
    for s, v in arith(E, st, op, a, b, ctx):
        E.store(s, args[0], v)
        out.append((s, UNIT))
    return out


@nat('Not_not')
def not_(E, st, args, ctx):
    a = E.deref_all(st, args[0])
    if isinstance(a, Bool):
        return [(st, Bool(c_not(a.c)))]
    if isinstance(a, Int):
        return [(st, op_not(st.facts, a))]
    return None


# ------------------------------------------------------------------ iterators
def mk_siter(E, st, ref):
    r, q = qref(E, st, ref)
    F = st.facts
    o, n = win(r, q)
    return Adt('@SIter', 0, (Ref(r.root, r.path, (o, n)) if r.sub else Ref(r.root, r.path), usz(0), usz(F.nlin(n))))


@nat('slice_iter', 'slice_iter_mut', 'Vec_iter')
def siter(E, st, args, ctx):
    x = av(E, st, E.deref_all(st, args[0]))
    if isinstance(x, Adt) and x.d == '@HM':
        return None
    return [(st, mk_siter(E, st, args[0]))]


@nat('str_bytes')
def str_bytes(E, st, args, ctx):
    return [(st, Adt('models::Copied', 0, (mk_siter(E, st, args[0]),)))]


@nat('slice_chunks', 'slice_chunks_exact')
def chunks(E, st, args, ctx):
    i = mk_siter(E, st, args[0])
    n = args[1]
    st = require(E, st, c_not(c_eqi(n, usz(0))), ctx, 'assert', 'chunk size zero')
    if st is None:
        return []
    if ctx.name == 'chunks_exact':
        F = st.facts
        e = op_sub(F, i.f[2], op_rem(F, i.f[2], n))[0]
        i = Adt('@SIter', 0, (i.f[0], i.f[1], e))
    return [(st, Adt('@Chunks', 0, (i.f[0], i.f[1], i.f[2], n)))]


@nat('slice_windows')
def windows(E, st, args, ctx):
    return None


@nat('IntoIterator_into_iter')
def into_iter(E, st, args, ctx):
    v = av(E, st, args[0])
    if isinstance(v, Seq):
        return [(st, Adt('@IntoIter', 0, (v, usz(0), usz(st.facts.nlin(seq_len(v))))))]
    if isinstance(v, Ref):
        x = E.deref_all(st, v)
        x = av(E, st, x) if not (isinstance(x, Sym) and x.ty['k'] == 'param') else x
        if isinstance(x, Seq):
            return [(st, mk_siter(E, st, v))]
        if isinstance(x, Adt) and x.d in (OPT, RES):
            return None
        return [(st, v)]
    if isinstance(v, Adt) and v.d == OPT:
        return [(st, Adt('models::Once', 0, (v,)))]
    if isinstance(v, Adt) and v.d == RES:
        return [(st, Adt('models::Once', 0, (some(v.f[0]) if v.v == 0 else NONE,)))]
    return [(st, v)]


def it_ref(E, st, v):
    r, x = E.last_ref(st, v)
    return r, av(E, st, x)


def dispatch(E, st, tr, name, x, args, ctx):
    for t, d in E.impl_idx.get((tr, name), []):
        if isinstance(x, Adt) and t['k'] == 'adt' and t['d'] == x.d and d in E.fns:
            return E.exec_fn(d, args, st, {}, ctx.stack)
    return None


@nat('Iterator_next')
def it_next(E, st, args, ctx):
    r, x = it_ref(E, st, args[0])
    if not isinstance(x, Adt):
        return None
    F = st.facts
    d = x.d
    if d in ('@SIter', '@Stream', '@IntoIter', '@Chunks'):
        pos, end = x.f[1], x.f[2]
        if not need(F, c_lt(pos.lin, end.lin), 'next'):
            return [(st, NONE)]
        if d == '@Chunks':
            step = x.f[3].lin
            if need(F, c_le(pos.lin + step, end.lin), 'chunk'):
                n = step
            else:
                n = end.lin - pos.lin
            o = x.f[0].sub[0] if x.f[0].sub else L0
            v = Ref(x.f[0].root, x.f[0].path, (F.nlin(o + pos.lin), F.nlin(n)))
            E.store(st, r, Adt(d, 0, (x.f[0], usz(F.nlin(pos.lin + n))) + x.f[2:]))
            return [(st, some(v))]
        E.store(st, r, Adt(d, 0, (x.f[0], usz(F.nlin(pos.lin + 1))) + x.f[2:]))
        if d == '@IntoIter':
            return [(st, some(seq_get(F, x.f[0], pos.lin)))]
        o = x.f[0].sub[0] if x.f[0].sub else L0
        er = Ref(x.f[0].root, x.f[0].path + (('i', F.nlin(o + pos.lin)),))
        if d == '@Stream':
            return [(st, some(ok(E.load(st, er))))]
        return [(st, some(er))]
    if d == 'std::ops::Range':
        a, b = x.f
        if not need(F, c_lt(a.lin, b.lin), 'range'):
            return [(st, NONE)]
        E.store(st, r, Adt(d, 0, (Int(a.w, a.s, None, F.nlin(a.lin + 1)), b)))
        return [(st, some(F.nint(a)))]
    if d == 'std::ops::RangeFrom':
        a = x.f[0]
        E.store(st, r, Adt(d, 0, (Int(a.w, a.s, None, F.nlin(a.lin + 1)),)))
        return [(st, some(F.nint(a)))]
    if d == 'std::ops::RangeInclusive':
        a, b = x.f[0], x.f[1]
        if x.f[2].c is not False or not need(F, c_le(a.lin, b.lin), 'range'):
            return [(st, NONE)]
        if need(F, c_eqi(a, b), 'range'):
            E.store(st, r, Adt(d, 0, (a, b, TRUE)))
        else:
            E.store(st, r, Adt(d, 0, (Int(a.w, a.s, None, F.nlin(a.lin + 1)), b, FALSE)))
        return [(st, some(F.nint(a)))]
    return dispatch(E, st, 'std::iter::Iterator', 'next', x, [r], ctx)


@nat('DoubleEndedIterator_next_back')
def it_next_back(E, st, args, ctx):
    r, x = it_ref(E, st, args[0])
    if not isinstance(x, Adt):
        return None
    F = st.facts
    d = x.d
    if d in ('@SIter', '@Stream', '@IntoIter'):
        pos, end = x.f[1], x.f[2]
        if not need(F, c_lt(pos.lin, end.lin), 'next_back'):
            return [(st, NONE)]
        e = F.nlin(end.lin - 1)
        E.store(st, r, Adt(d, 0, (x.f[0], pos, usz(e)) + x.f[3:]))
        if d == '@IntoIter':
            return [(st, some(seq_get(F, x.f[0], e)))]
        o = x.f[0].sub[0] if x.f[0].sub else L0
        er = Ref(x.f[0].root, x.f[0].path + (('i', F.nlin(o + e)),))
        return [(st, some(ok(E.load(st, er)) if d == '@Stream' else er))]
    if d == 'std::ops::Range':
        a, b = x.f
        if not need(F, c_lt(a.lin, b.lin), 'range'):
            return [(st, NONE)]
        n = Int(b.w, b.s, None, F.nlin(b.lin - 1))
        E.store(st, r, Adt(d, 0, (a, n)))
        return [(st, some(n))]
    if d == 'std::ops::RangeInclusive':
        a, b = x.f[0], x.f[1]
        if x.f[2].c is not False or not need(F, c_le(a.lin, b.lin), 'range'):
            return [(st, NONE)]
        if need(F, c_eqi(a, b), 'range'):
            E.store(st, r, Adt(d, 0, (a, b, TRUE)))
        else:
            E.store(st, r, Adt(d, 0, (a, Int(b.w, b.s, None, F.nlin(b.lin - 1)), FALSE)))
        return [(st, some(F.nint(b)))]
    if d == 'models::Enumerate':
        n = it_len(E, st, x.f[0])
        if n is None:
            return None
        out = []
        for s, v in it_next_back(E, st, [Ref(r.root, r.path + (('f', 0),))], ctx):
            if v.v == 0:
                out.append((s, v))
            else:
                out.append((s, some(tup(usz(s.facts.nlin(x.f[1].lin + n - 1)), v.f[0]))))
        return out
    if d == 'models::Zip':
        return None
    return dispatch(E, st, 'std::iter::DoubleEndedIterator', 'next_back', x, [r], ctx)


def it_len(E, st, x):
    F = st.facts
    x = av(E, st, x)
    if isinstance(x, Ref):
        x = E.deref_all(st, x)
    if not isinstance(x, Adt):
        return None
    if x.d in ('@SIter', '@Stream', '@IntoIter'):
        return F.nlin(x.f[2].lin - x.f[1].lin)
    if x.d == '@Chunks':
        n = x.f[2].lin - x.f[1].lin
        c = F.nint(x.f[3]).const()
        if c:
            return op_div(F, usz(F.nlin(n + (c - 1))), usz(c)).lin
        return None
    if x.d in ('models::Map', 'models::Enumerate', 'models::Rev', 'models::Cloned', 'models::Copied'):
        return it_len(E, st, x.f[0])
    if x.d == 'std::ops::Range':
        if need(F, c_le(x.f[0].lin, x.f[1].lin)):
            return F.nlin(x.f[1].lin - x.f[0].lin)
        return L0
    return None


@nat('ExactSizeIterator_len')
def esi_len(E, st, args, ctx):
    n = it_len(E, st, E.deref_all(st, args[0]))
    if n is None:
        return None
    return [(st, usz(n))]


@nat('Iterator_size_hint')
def size_hint(E, st, args, ctx):
    n = it_len(E, st, E.deref_all(st, args[0]))
    if n is None:
        return None
    return [(st, tup(usz(n), some(usz(n))))]


@nat('Iter_as_slice', 'Chunks_len')
def iter_as_slice(E, st, args, ctx):
    r, x = it_ref(E, st, args[0])
    if isinstance(x, Adt) and x.d == '@SIter':
        o = x.f[0].sub[0] if x.f[0].sub else L0
        F = st.facts
        return [(st, Ref(x.f[0].root, x.f[0].path, (F.nlin(o + x.f[1].lin), F.nlin(x.f[2].lin - x.f[1].lin))))]
    return None


def byte_stream(E, st, it, f, ctx):
    """recognise  bytes.map(Ok)  as a byte stream"""
    src = None
    byref = False
    if isinstance(it, Adt) and it.d == '@SIter':
        src, byref = it, True
    elif isinstance(it, Adt) and it.d in ('models::Copied', 'models::Cloned') and isinstance(it.f[0], Adt) and it.f[0].d == '@SIter':
        src = it.f[0]
    if src is None:
        return None
    try:
        q = E.load(st, src.f[0])
    except Unsupported:
        return None
    if not isinstance(q, Seq) or (q.ety is not None and tkey(q.ety) != tkey(U8)):
        return None
    s2 = st.copy()
    E.nfid += 1
    x = Int(8, False, ATOM_BITS[atom_var(('#probe',), 8)])
    a = Ref(E.new_root(s2, x)) if byref else x
    np, nu = len(E.panics), len(E.unsup)
    try:
        res = E.apply(s2, f, [a], ctx.stack, ctx.site, None)
    except (Unsupported, Split):
        res = []
    ok_ = len(res) == 1 and len(E.panics) == np and len(E.unsup) == nu
    del E.panics[np:]
    del E.unsup[nu:]
    if not ok_:
        return None
    s3, v = res[0]
    if isinstance(v, Adt) and v.d == RES and v.v == 0 and v.f[0] == x and s3.ev == st.ev and s3.facts is st.facts:
        return Adt('@Stream', 0, src.f)
    return None


@nat('Iterator_map')
def it_map(E, st, args, ctx):
    it = av(E, st, args[0])
    if isinstance(it, Adt):
        s = byte_stream(E, st, it, args[1], ctx)
        if s is not None:
            return [(st, s)]
    return None


@nat('Iterator_peekable')
def peekable(E, st, args, ctx):
    v = av(E, st, args[0])
    x = E.deref_all(st, v) if isinstance(v, Ref) else v
    if isinstance(x, Adt) and x.d in ('@Stream', '@SIter', '@IntoIter'):
        return [(st, v)]
    return None


@nat('Peekable_peek', 'Peekable_peek_mut')
def peek(E, st, args, ctx):
    r, x = it_ref(E, st, args[0])
    if isinstance(x, Adt) and x.d in ('@Stream', '@SIter', '@IntoIter'):
        F = st.facts
        if not need(F, c_lt(x.f[1].lin, x.f[2].lin), 'peek'):
            return [(st, NONE)]
        o = x.f[0].sub[0] if isinstance(x.f[0], Ref) and x.f[0].sub else L0
        if x.d == '@IntoIter':
            v = seq_get(F, x.f[0], x.f[1].lin)
        else:
            v = Ref(x.f[0].root, x.f[0].path + (('i', F.nlin(o + x.f[1].lin)),))
            if x.d == '@Stream':
                v = ok(E.load(st, v))
        return [(st, some(Ref(E.new_root(st, v))))]
    return None


@nat('Peekable_next_if', 'Peekable_next_if_eq')
def next_if(E, st, args, ctx):
    return None


@nat('Iterator_collect', 'FromIterator_from_iter')
def collect(E, st, args, ctx):
    t = ctx.dt
    v = av(E, st, args[0])
    if t is None or t['k'] != 'adt':
        return None
    if t['d'] in ('std::vec::Vec', 'std::boxed::Box', 'std::string::String'):
        s = as_seq(E, st, v, ctx)
        if s is not None:
            return [(st, s)]
        return E.exec_fn('models::collect_vec', [v], st, {}, ctx.stack)
    if t['d'] == RES and t['a'][0]['k'] == 'adt' and t['a'][0]['d'] in ('std::vec::Vec', 'std::boxed::Box'):
        return E.exec_fn('models::collect_result_vec', [v], st, {}, ctx.stack)
    if t['d'] == OPT and t['a'][0]['k'] == 'adt' and t['a'][0]['d'] == 'std::vec::Vec':
        return E.exec_fn('models::collect_option_vec', [v], st, {}, ctx.stack)
    return None


@nat('Iterator_sum')
def it_sum(E, st, args, ctx):
    if ctx.dt and ctx.dt['k'] == 'uint' and ctx.dt['w'] == 64:
        return E.exec_fn('models::sum_usize', args, st, {}, ctx.stack)
    return None


@nat('Iterator_try_for_each', 'Iterator_try_fold')
def it_try(E, st, args, ctx):
    if ctx.dt and ctx.dt['k'] == 'adt' and ctx.dt['d'] == RES:
        return None if False else E.exec_fn('models::Iterator_' + ctx.name, args, st, {}, ctx.stack)
    return unmodelled(E, st, ctx, args)


@nat('array_map')
def array_map(E, st, args, ctx):
    q = av(E, st, args[0])
    if not all(s[0] == 'e' for s in q.segs):
        return None
    cur = [(st, [])]
    for s in q.segs:
        nxt = []
        for s1, acc in cur:
            for s2, v in E.apply(s1, args[1], [s[1]], ctx.stack, ctx.site, None):
                nxt.append((s2, acc + [('e', v)]))
        cur = nxt
    return [(s1, Seq(acc)) for s1, acc in cur]


@nat('array_from_fn')
def array_from_fn(E, st, args, ctx):
    if not ctx.dt or ctx.dt['k'] != 'array' or not isinstance(ctx.dt['n'], int) or ctx.dt['n'] > 64:
        return None
    cur = [(st, [])]
    r = Ref(E.new_root(st, args[0]))
    for i in range(ctx.dt['n']):
        nxt = []
        for s1, acc in cur:
            for s2, v in E.apply(s1, r, [usz(i)], ctx.stack, ctx.site, None):
                nxt.append((s2, acc + [('e', v)]))
        cur = nxt
    return [(s1, Seq(acc, ctx.dt['e'])) for s1, acc in cur]


# ------------------------------------------------------------------ locks, maps, channels
def lock_class(E, st, ref):
    """(owner type, field) of the lock a reference designates"""
    if ref.path and ref.path[-1][0] == 'f':
        try:
            p = E.read(st, ref.root, ref.path[:-1])
            d = p.ty['d'] if isinstance(p, Sym) else p.d if isinstance(p, Adt) else None
            var = p.v if isinstance(p, Adt) else 0
            a = E.adts.get(d)
            if a:
                return (d.split('::')[-1], a['v'][var]['f'][ref.path[-1][1]]['n'])
            return (str(d), ref.path[-1][1])
        except (Unsupported, Split):
            pass
    return ('?', str(ref.root[0]))


@nat('RwLock_read', 'RwLock_write', 'Mutex_lock')
def lock(E, st, args, ctx):
    r, x = E.last_ref(st, args[0])
    x = av(E, st, x)
    c = lock_class(E, st, r)
    mode = {'read': 'r', 'write': 'w', 'lock': 'w'}[ctx.name]
    E.nfid += 1
    st.event('lock', mode, c, ctx.site, ctx.stack[-1], E.nfid, (r.root, r.path))
    return [(st, ok(Adt(GUARD, 0, (Ref(r.root, r.path + (('f', 0),)), Opq(mode, c, E.nfid)))))]


@nat('RwLock_new', 'Mutex_new', 'Cell_new', 'RefCell_new')
def lock_new(E, st, args, ctx):
    return [(st, Adt('std::sync::' + ctx.d.split('::')[-3 if '<' in ctx.d.split('::')[-2] else -2], 0, (args[0],)))]


@nat('RwLock_get_mut', 'Mutex_get_mut')
def lock_get_mut(E, st, args, ctx):
    r, x = E.last_ref(st, args[0])
    return [(st, ok(Ref(r.root, r.path + (('f', 0),))))]


@nat('RwLock_into_inner', 'Mutex_into_inner')
def lock_into(E, st, args, ctx):
    v = av(E, st, args[0])
    return [(st, ok(v.f[0]))]


@nat('HashMap_new', 'HashMap_with_capacity', 'BTreeMap_new')
def hm_new(E, st, args, ctx):
    E.nfid += 1
    return [(st, Adt('@HM', 0, (Opq('map', ('#new', E.nfid), 0), Opq('ty', tkey(ctx.dt['a'][1])))))]


def hm(E, st, v):
    r, x = E.last_ref(st, v)
    x = av(E, st, x)
    if not (isinstance(x, Adt) and x.d == '@HM'):
        raise Unsupported('map expected, got %r' % (x,))
    return r, x


def untkey(k):
    if isinstance(k, tuple) and k and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) for x in k):
        return {a: untkey(b) for a, b in k}
    if isinstance(k, tuple):
        return [untkey(x) for x in k]
    return k


@nat('HashMap_contains_key', 'BTreeMap_contains_key')
def hm_contains(E, st, args, ctx):
    r, x = hm(E, st, args[0])
    k = vkey(E, st, args[1])
    i = x.f[0].k
    st.event('map.contains', i, k, ctx.site)
    return [(st, Bool(('atom', ('#has', i, k))))]


@nat('HashMap_get', 'HashMap_get_mut', 'BTreeMap_get')
def hm_get(E, st, args, ctx):
    r, x = hm(E, st, args[0])
    k = vkey(E, st, args[1])
    i = x.f[0].k
    if not need(st.facts, ('atom', ('#has', i, k)), 'map.get'):
        st.event('map.get', i, k, False, ctx.site)
        return [(st, NONE)]
    st.event('map.get', i, k, True, ctx.site)
    id = ('#ent', i[1], k)
    t = untkey(x.f[1].k[1])
    E.symroots.setdefault(id, t)
    return [(st, some(Ref(('S', id))))]


@nat('HashMap_insert', 'BTreeMap_insert')
def hm_insert(E, st, args, ctx):
    r, x = hm(E, st, args[0])
    k = vkey(E, st, args[1])
    i = x.f[0].k
    had = ('atom', ('#has', i, k))
    h = st.facts.dec(had)
    st.event('map.insert', i, k, h, args[2], ctx.site, ctx.stack[-1])
    i2 = ('map', i[1], i[2] + 1)
    E.store(st, r, Adt('@HM', 0, (Opq(*i2), x.f[1])))
    s2 = st.assume(('atom', ('#has', i2, k)))
    s2.mem[('S', ('#ent', i[1], k))] = args[2]
    E.symroots.setdefault(('#ent', i[1], k), untkey(x.f[1].k[1]))
    if h is False:
        return [(s2, NONE)]
    old = Opq('#unk', 'oldentry', E.nfid)
    if h is True:
        return [(s2, some(old))]
    out = []
    for c, v in ((had, some(old)), (c_not(had), NONE)):
        s3 = s2.assume(c)
        if s3 is not None:
            out.append((s3, v))
    return out


@nat('HashMap_remove', 'BTreeMap_remove')
def hm_remove(E, st, args, ctx):
    r, x = hm(E, st, args[0])
    k = vkey(E, st, args[1])
    i = x.f[0].k
    st.event('map.remove', i, k, ctx.site, ctx.stack[-1])
    i2 = ('map', i[1], i[2] + 1)
    h = need(st.facts, ('atom', ('#has', i, k)), 'map.remove')
    E.store(st, r, Adt('@HM', 0, (Opq(*i2), x.f[1])))
    s2 = st.assume(c_not(('atom', ('#has', i2, k))))
    if h:
        id = ('#ent', i[1], k)
        E.symroots.setdefault(id, untkey(x.f[1].k[1]))
        return [(s2, some(E.root_val(s2, ('S', id))))]
    return [(s2, NONE)]


@nat('HashMap_clear', 'HashMap_drain', 'HashMap_retain')
def hm_clear(E, st, args, ctx):
    r, x = hm(E, st, args[0])
    st.event('map.' + ctx.name, x.f[0].k, ctx.site, ctx.stack[-1])
    i = x.f[0].k
    E.store(st, r, Adt('@HM', 0, (Opq('map', i[1], i[2] + 1), x.f[1])))
    return [(st, fresh(E, st, ctx))]


@nat('HashMap_entry')
def hm_entry(E, st, args, ctx):
    r, x = hm(E, st, args[0])
    k = vkey(E, st, args[1])
    has = need(st.facts, ('atom', ('#has', x.f[0].k, k)), 'entry')
    st.event('map.contains', x.f[0].k, k, ctx.site)
    if has:
        return [(st, Adt('std::collections::hash_map::Entry', 0, (Adt('@Occ', 0, (r, args[1])),)))]
    return [(st, Adt('std::collections::hash_map::Entry', 1, (Adt('@Vac', 0, (r, args[1])),)))]


@nat('VacantEntry_insert')
def vac_insert(E, st, args, ctx):
    v = args[0]
    st0 = st
    E.nfid += 1
    kr = Ref(E.new_root(st, v.f[1]))
    outs = hm_insert(E, st, [v.f[0], v.f[1], args[1]], ctx)
    k = vkey(E, st, v.f[1])
    return [(s, Ref(('S', ('#ent', hm(E, s, v.f[0])[1].f[0].k[1], k)))) for s, _ in outs]


@nat('OccupiedEntry_get', 'OccupiedEntry_into_mut', 'OccupiedEntry_get_mut')
def occ_get(E, st, args, ctx):
    v = args[0] if isinstance(args[0], Adt) else E.deref_all(st, args[0])
    return [(s, x.f[0]) for s, x in hm_get(E, st, [v.f[0], v.f[1]], ctx) if x.v == 1]


@nat('HashMap_remove_entry')
def hm_remove_entry(E, st, args, ctx):
    out = []
    for s, v in hm_remove(E, st, args, ctx):
        out.append((s, v if v.v == 0 else some(tup(E.deref_all(s, args[1]), v.f[0]))))
    return out


@nat('HashMap_len', 'BTreeMap_len')
def hm_len(E, st, args, ctx):
    r, x = hm(E, st, args[0])
    return [(st, usz(lin_atom(atom_op('#maplen', (x.f[0].k,), 64, 0, 1 << 40))))]


@nat('HashMap_is_empty', 'BTreeMap_is_empty')
def hm_is_empty(E, st, args, ctx):
    r, x = hm(E, st, args[0])
    return [(st, Bool(c_eqi(usz(lin_atom(atom_op('#maplen', (x.f[0].k,), 64, 0, 1 << 40))), usz(0))))]


@nat('Entry_or_insert', 'Entry_or_insert_with')
def entry_or_insert(E, st, args, ctx):
    e = av(E, st, args[0])
    if not (isinstance(e, Adt) and isinstance(e.f[0], Adt) and e.f[0].d in ('@Occ', '@Vac')):
        return None
    if e.f[0].d == '@Occ':
        return occ_get(E, st, [e.f[0]], ctx)
    if ctx.name == 'or_insert':
        return vac_insert(E, st, [e.f[0], args[1]], ctx)
    out = []
    for s, v in E.apply(st, args[1], [], ctx.stack, ctx.site, None):
        out += vac_insert(E, s, [e.f[0], v], ctx)
    return out


@nat('Entry_key', 'OccupiedEntry_key', 'VacantEntry_key')
def entry_key(E, st, args, ctx):
    e = E.deref_all(st, args[0])
    if isinstance(e, Adt) and e.d.endswith('Entry'):
        e = e.f[0]
    return [(st, Ref(E.new_root(st, e.f[1])))]


@nat('OccupiedEntry_insert')
def occ_insert(E, st, args, ctx):
    e = E.deref_all(st, args[0])
    return [(s, v.f[0] if v.v == 1 else v) for s, v in hm_insert(E, st, [e.f[0], e.f[1], args[1]], ctx)]


@nat('OccupiedEntry_remove')
def occ_remove(E, st, args, ctx):
    e = E.deref_all(st, args[0]) if isinstance(args[0], Ref) else args[0]
    kr = Ref(E.new_root(st, e.f[1]))
    return [(s, v.f[0]) for s, v in hm_remove(E, st, [e.f[0], kr], ctx) if v.v == 1]


@nat('Receiver_recv', 'Receiver_recv_timeout')
def chan_recv(E, st, args, ctx):
    st.event('block', 'channel', ctx.site, ctx.stack[-1])
    s2 = st.copy()
    return [(st, ok(fresh_of(E, st, ctx, 0))), (s2, err(Opq('RecvError')))]


@nat('Receiver_try_recv')
def chan_try_recv(E, st, args, ctx):
    s2 = st.copy()
    return [(st, ok(fresh_of(E, st, ctx, 0))), (s2, err(Opq('RecvError')))]


def fresh_of(E, st, ctx, i):
    E.nfid += 1
    return E.mksym(('#msg', E.nfid), ctx.dt['a'][i])


@nat('Arc_strong_count', 'Arc_weak_count', 'Rc_strong_count')
def arc_count(E, st, args, ctx):
    E.nfid += 1
    return [(st, usz(lin_atom(atom_var(('refcount', E.nfid), 64, 1, 1 << 40))))]


@nat('thread_sleep', 'thread_yield_now')
def sleep(E, st, args, ctx):
    st.event('block', 'sleep', ctx.site, ctx.stack[-1])
    return [(st, UNIT)]


@nat('UdpSocket_send_to', 'UdpSocket_send')
def udp_send(E, st, args, ctx):
    st.event('block', 'network', ctx.site, ctx.stack[-1])
    s2 = st.copy()
    q = E.deref_all(st, args[1])
    return [(st, ok(usz(seq_len(q)))), (s2, err(Opq('io')))]


@nat('mpsc_channel')
def channel(E, st, args, ctx):
    E.nfid += 1
    return [(st, tup(Opq('sender', E.nfid), Opq('receiver', E.nfid)))]


@nat('Sender_send')
def send(E, st, args, ctx):
    r, x = E.last_ref(st, args[0])
    st.event('send', x.id if isinstance(x, Sym) else x.k if isinstance(x, Opq) else '?', args[1], ctx.site, ctx.stack[-1])
    c = ('atom', ('#chan', x.id if isinstance(x, Sym) else repr(x), len(st.ev)))
    if need(st.facts, c, 'send'):
        return [(st, ok(UNIT))]
    return [(st, err(Opq('SendError')))]


@nat('UdpSocket_bind')
def udp_bind(E, st, args, ctx):
    c = ('atom', ('#bind', len(st.ev)))
    if need(st.facts, c, 'bind'):
        return [(st, ok(Opq('udp')))]
    return [(st, err(Opq('io')))]


@nat('UdpSocket_recv_from', 'UdpSocket_recv', 'UdpSocket_peek_from')
def recv_from(E, st, args, ctx):
    r, q = qref(E, st, args[1])
    F = st.facts
    cap = F.nlin(seq_len(q))
    E.nfid += 1
    i = ('#rx', E.nfid)
    out = []
    s2 = st.copy()
    n = lin_atom(atom_var(('#rxlen', E.nfid), 64, 0, 65535))
    s2.event('peek' if 'peek' in ctx.name else 'recv', i, cap, n, ctx.site, ctx.stack[-1])
    s2 = s2.assume(c_le(n, cap))
    if s2 is not None and E.hooks.get('rxlen') is not None:
        s2 = s2.assume(c_eqi(usz(n), usz(E.hooks['rxlen'])))
    if s2 is not None:
        o = seq_slice(s2.facts, q, n, cap - n) if False else None
        E.store(s2, r, Seq((('s', i, L0, n), ('s', ('#stale', i), L0, s2.facts.nlin(cap - n))), U8))
        addr = Opq('addr', i)
        out.append((s2, ok(tup(usz(n), addr) if ctx.name != 'recv' else usz(n))))
    s3 = st.copy()
    s3.event('recv.err', ctx.site)
    out.append((s3, err(Opq('io'))))
    return out


@nat('SocketAddr_port', 'SocketAddr_ip', 'SocketAddr_is_ipv4', 'SocketAddr_is_ipv6')
def addr_part(E, st, args, ctx):
    v = E.deref_all(st, args[0])
    if not (isinstance(v, Opq) and v.k[0] == 'addr'):
        return None
    if ctx.name == 'port':
        return [(st, Int(16, False, None, lin_atom(atom_var(('#port', v.k), 16))))]
    if ctx.name == 'ip':
        return [(st, Opq('ip', v.k))]
    c = ('atom', ('#ipv4', v.k))
    return [(st, Bool(c if ctx.name == 'is_ipv4' else c_not(c)))]


@nat('SocketAddr_set_port', 'SocketAddr_set_ip', 'SocketAddr_new')
def addr_make(E, st, args, ctx):
    if ctx.name == 'new':
        ip, port = args
    else:
        v = E.deref_all(st, args[0])
        if not (isinstance(v, Opq) and v.k[0] == 'addr'):
            return None
        ip, port = Opq('ip', v.k), Int(16, False, None, lin_atom(atom_var(('#port', v.k), 16)))
        if ctx.name == 'set_port':
            port = args[1]
        else:
            ip = args[1]
    if not isinstance(port, Int) or not isinstance(ip, (Opq, Sym)):
        return None
    k = ip.k if isinstance(ip, Opq) else (ip.id,)
    l = st.facts.nlin(port.lin)
    if k[0] == 'ip' and l == lin_atom(atom_var(('#port', k[1]), 16)):
        r = Opq(*k[1])
    else:
        r = Opq('addr', ('#made', k, l))
    if ctx.name == 'new':
        return [(st, r)]
    E.store(st, args[0], r)
    return [(st, UNIT)]


@nat('Error_kind')
def io_kind(E, st, args, ctx):
    v = E.deref_all(st, args[0])
    if not (isinstance(v, Opq) and v.k[0] == 'io'):
        return None
    E.nfid += 1
    return [(st, E.mksym(('iokind', E.nfid), ctx.dt))]


@nat('Ipv4Addr_octets', 'Ipv6Addr_octets')
def octets(E, st, args, ctx):
    v = E.deref_all(st, args[0])
    n = 4 if 'Ipv4' in ctx.d else 16
    k = v.id if isinstance(v, Sym) else repr(v)
    return [(st, Seq((('s', ('#octets', k), L0, Lin(n)),), U8))]


# ------------------------------------------------------------------ output
def fmt_values(E, st, args):
    """values a formatting call is given: (format kind, value, type) each"""
    out = []

    def walk(v, n):
        if isinstance(v, Adt) and v.d == '@FmtArg':
            out.append((v.f[1].k[1], v.f[0], v.f[2]))
        elif isinstance(v, Adt) and v.d == '@Fmt':
            for x in v.f:
                walk(x, n)
        elif isinstance(v, Seq):
            for s in v.segs:
                if s[0] == 'e':
                    walk(s[1], n)
        elif isinstance(v, Ref) and n < 6:
            try:
                walk(E.load(st, v), n + 1)
            except (Unsupported, Split):
                out.append(('?', v, None))
    for a in args:
        walk(a, 0)
    return out


@nat('Argument_new_debug', 'Argument_new_display', 'Argument_new_lower_hex', 'Argument_new_upper_hex', 'Argument_new_binary', 'Argument_new_octal',
     'Argument_new_debug_noop', 'Argument_new_pointer', 'Argument_new_lower_exp', 'Argument_new_upper_exp')
def fmt_arg(E, st, args, ctx):
    return [(st, Adt('@FmtArg', 0, (args[0], Opq('fmt', ctx.name), ctx.a[-1] if ctx.a else None)))]


@nat('Arguments_new', 'Arguments_new_v1', 'Arguments_new_v1_formatted', 'Arguments_from_str', 'Arguments_new_const', 'Arguments_from_str_nonconst')
def fmt_args(E, st, args, ctx):
    return [(st, Adt('@Fmt', 0, [Adt('@FmtArg', 0, (v, Opq('fmt', k), t)) for k, v, t in fmt_values(E, st, args)]))]


def fmt_event(E, st, ctx, args):
    """a formatter method: what it is given may be written"""
    if not ctx.at or ctx.at[0] is None or not any(x in repr(ctx.at[0]) for x in ('fmt::Formatter', 'builders', 'fmt::Debug')):
        return
    vals = fmt_values(E, st, args[1:])
    seen = set(id(v) for _, v, _ in vals)
    for v, t in zip(args[1:], ctx.at[1:]):
        if t and t['k'] == 'ref' and t['e']['k'] in ('dyn', 'slice', 'str', 'param', 'uint', 'adt', 'array', 'ref', 'tuple') or t and t['k'] in ('str', 'uint', 'adt', 'char', 'bool'):
            if not (isinstance(v, Adt) and v.d in ('@Fmt', '@FmtArg')):
                vals.append((ctx.name, v, t))
    st.event('fmt', ctx.name, shown_vals(E, st, vals), ctx.site, ctx.stack[-1])


@nat('io__print', 'io__eprint', 'stdio__print', 'stdio__eprint')
def pr(E, st, args, ctx):
    st.event('print', 'stderr' if ctx.name == '_eprint' else 'stdout', ctx.site, ctx.stack[-1], shown_vals(E, st, fmt_values(E, st, args)))
    E.prints.append((st.copy(), st.ev[-1]))
    return [(st, UNIT)]


def shown_vals(E, st, vals):
    out = []
    for k, v, t in vals:
        out.append((k, deep(E, st, v), tkey(t) if t else None))
    return tuple(out)


def deep(E, st, v, n=0):
    """the value with the references in it followed"""
    try:
        v = E.deref_all(st, v)
    except (Unsupported, Split):
        return v
    if isinstance(v, Adt) and n < 4 and any(isinstance(x, (Ref, Adt)) for x in v.f):
        return Adt(v.d, v.v, tuple(deep(E, st, x, n + 1) if isinstance(x, (Ref, Adt)) else x for x in v.f))
    if isinstance(v, Seq) and n < 4 and any(s[0] == 'e' and isinstance(s[1], (Ref, Adt)) for s in v.segs):
        return Seq(tuple(('e', deep(E, st, s[1], n + 1)) + tuple(s[2:]) if s[0] == 'e' and isinstance(s[1], (Ref, Adt)) else s for s in v.segs), v.ety)
    return v


# ------------------------------------------------------------------ crypto
def envfail(E, st, ctx, v, what):
    """outcome pair: success, and failure of the environment"""
    s2 = st.copy()
    s2.event('envfail', what)
    return [(st, ok(v)), (s2, err(Opq('envfail', what)))]


@nat('Hkdf_extract')
def hk_extract(E, st, args, ctx):
    salt = av(E, st, args[0])
    F = st.facts
    sk = qkey(F, E.load(st, salt.f[0])) if salt.v == 1 else None
    ik = qkey(F, E.deref_all(st, args[1]))
    src = ('#extract', sk, ik)
    q = src_seq(src, L0, Lin(32))
    return [(st, tup(q, Opq('hkdf', qkey(F, q))))]


@nat('Hkdf_new')
def hk_new(E, st, args, ctx):
    r = hk_extract(E, st, args, ctx)
    return [(s, v.f[1]) for s, v in r]


@nat('Hkdf_from_prk')
def hk_from_prk(E, st, args, ctx):
    q = E.deref_all(st, args[0])
    F = st.facts
    if need(F, c_le(Lin(32), seq_len(q)), 'from_prk'):
        return [(st, ok(Opq('hkdf', qkey(F, q))))]
    return [(st, err(Opq('InvalidPrkLength')))]


@nat('Hkdf_expand')
def hk_expand(E, st, args, ctx):
    h = E.deref_all(st, args[0])
    info = E.deref_all(st, args[1])
    r, out = qref(E, st, args[2])
    F = st.facts
    n = F.nlin(seq_len(out))
    if not need(F, c_le(n, Lin(255 * 32)), 'expand'):
        return [(st, err(Opq('InvalidLength')))]
    src = ('#expand', h.k[1] if isinstance(h, Opq) else repr(h), qkey(F, info))
    E.store(st, r, src_seq(src, L0, n))
    return [(st, ok(UNIT))]


@nat('Hkdf_expand_multi_info')
def hk_expand_multi(E, st, args, ctx):
    r, q = qref(E, st, args[1])
    f = flat(E, st, q)
    if f is None:
        return None
    return hk_expand(E, st, [args[0], Ref(E.new_root(st, f)), args[2]], ctx)


@nat('Cipher_aes_128_gcm', 'Cipher_aes_128_ecb', 'Cipher_aes_256_gcm', 'Cipher_aes_256_ecb', 'Cipher_aes_128_cbc', 'Cipher_aes_128_ctr',
     'Cipher_aes_192_gcm', 'Cipher_chacha20_poly1305', 'Cipher_aes_128_ccm', 'Cipher_aes_128_ofb', 'Cipher_aes_192_ecb', 'Cipher_chacha20')
def cipher(E, st, args, ctx):
    return [(st, Opq('cipher', ctx.name))]


def optq(E, st, v):
    v = av(E, st, v)
    if v.v == 0:
        return None
    return E.deref_all(st, v.f[0])


def klen(c):
    return 32 if '256' in c or 'chacha' in c else 24 if '192' in c else 16


def aead_args(E, st, args, ctx):
    c = args[0].k[1] if isinstance(args[0], Opq) else '?'
    key = E.deref_all(st, args[1])
    iv = optq(E, st, args[2])
    return c, key, iv


@nat('symm_encrypt_aead')
def encrypt_aead(E, st, args, ctx):
    c, key, iv = aead_args(E, st, args, ctx)
    aad = E.deref_all(st, args[3])
    data = E.deref_all(st, args[4])
    st = require(E, st, c_le(Lin(klen(c)), seq_len(key)), ctx, 'crypto', 'key too short for %s' % c)
    if st is None:
        return []
    F = st.facts
    k = (c, qkey(F, key), qkey(F, iv) if iv is not None else None, qkey(F, aad), qkey(F, data))
    r, tag = qref(E, st, args[5])
    st.event('seal', c, key, iv, aad, data, F.nlin(seq_len(tag)), ctx.site, ctx.stack[-1], k)
    E.store(st, r, src_seq(('#tag',) + k, L0, seq_len(tag)))
    return envfail(E, st, ctx, src_seq(('#ct',) + k, L0, F.nlin(seq_len(data))), 'encrypt_aead')


@nat('symm_decrypt_aead')
def decrypt_aead(E, st, args, ctx):
    c, key, iv = aead_args(E, st, args, ctx)
    aad = E.deref_all(st, args[3])
    data = E.deref_all(st, args[4])
    tag = E.deref_all(st, args[5])
    st = require(E, st, c_le(Lin(klen(c)), seq_len(key)), ctx, 'crypto', 'key too short for %s' % c)
    if st is None:
        return []
    F = st.facts
    k = (c, qkey(F, key), qkey(F, iv) if iv is not None else None, qkey(F, aad), qkey(F, data), qkey(F, tag))
    if need(F, ('atom', ('#auth',) + k), 'decrypt_aead'):
        st.event('open', c, key, iv, aad, data, tag, ctx.site, ctx.stack[-1], k)
        return [(st, ok(src_seq(('#pt',) + k, L0, F.nlin(seq_len(data)))))]
    st.event('open.fail', c, key, iv, aad, data, tag, ctx.site, ctx.stack[-1], k)
    return [(st, err(Opq('ErrorStack')))]


@nat('symm_decrypt')
def decrypt_plain(E, st, args, ctx):
    c, key, iv = aead_args(E, st, args, ctx)
    data = E.deref_all(st, args[3])
    st.event('open.unauthenticated', c, ctx.site, ctx.stack[-1])
    k = (c, qkey(st.facts, key), qkey(st.facts, data))
    return envfail(E, st, ctx, src_seq(('#plain',) + k, L0, lin_atom(atom_op('#plainlen', k, 64, 0, 1 << 48))), 'decrypt')


@nat('symm_encrypt')
def encrypt(E, st, args, ctx):
    c, key, iv = aead_args(E, st, args, ctx)
    data = E.deref_all(st, args[3])
    st = require(E, st, c_le(Lin(klen(c)), seq_len(key)), ctx, 'crypto', 'key too short for %s' % c)
    if st is None:
        return []
    F = st.facts
    n = F.nlin(seq_len(data))
    k = (c, qkey(F, key), qkey(F, iv) if iv is not None else None, qkey(F, data))
    if 'ecb' in c or 'cbc' in c:
        if not n.t:
            m = Lin((n.c // 16 + 1) * 16)
        else:
            m = op_div(F, usz(n), usz(16)).lin.scale(16) + 16
    else:
        m = n
    st.event('cipher', c, key, data, ctx.site, ctx.stack[-1], k)
    return [(st, ok(src_seq(('#enc',) + k, L0, m)))]


@nat('rand_rand_bytes', 'rand_rand_priv_bytes')
def rand_bytes(E, st, args, ctx):
    r, q = qref(E, st, args[0])
    E.nfid += 1
    src = ('#rng', E.nfid)
    st.event('rng', src, st.facts.nlin(seq_len(q)), ctx.site, ctx.stack[-1])
    E.store(st, r, src_seq(src, L0, seq_len(q)))
    return [(st, ok(UNIT))]
