"""C03 frame decoding, C04 frame encoding."""
from spec import *
from p_codec import adt_of, seqval

PROPS = {}
FR = 'quic_sea::frame::'


def prop(pid, technique, level_note):
    def deco(f):
        PROPS[pid] = {'run': f, 'technique': technique, 'note': level_note}
        return f
    return deco


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ repeated fields
class Rec:
    """positions of a repeated record: the analysed loop's own recurrence when it matches, else a fresh one"""

    def __init__(self, X, F, src, pos, step, tag):
        E = X.E
        self.E, self.src, self.step = E, src, step
        self.g = None
        inF = set()
        for l in F.ineq:
            for a in deps_of(l):
                if ATOM_KEY[a][0] == 'op':
                    inF.add(ATOM_KEY[a][1])
        for g, (v0, steps) in sorted(E.recs.items(), key=lambda x: (ATOM_KEY[x[0]][1] not in inF, x[0])):
            if not isinstance(v0, Int) or any(not isinstance(s, Int) for s in steps) or not steps:
                continue
            gl = lin_atom(g)
            try:
                if F.eq0(v0.lin - pos) is True and all(F.eq0(s.lin - step(F, gl)) is True for s in steps):
                    self.g = g
                    break
            except Split:
                continue
        if self.g is None:
            k = atom_var(('#refk', tag), 64, 0, 1 << 62)
            g = atom_op(('#rec', ('#ref', tag, pos), 0), (lin_atom(k),), 64, 0, 1 << 62)
            E.recs[g] = (Int(64, False, None, pos), [Int(64, False, None, step(F, lin_atom(g)))])
            self.g = g
        self.key = ATOM_KEY[self.g]

    def at(self, F, i):
        i = F.nlin(i if isinstance(i, Lin) else Lin(i))
        if not i.t and i.c == 0:
            return F.nlin(self.E.recs[self.g][0].lin)
        return F.nlin(lin_atom(atom_op(self.key[1], (i,), ATOM_W[self.g], ATOM_LO[self.g], ATOM_HI[self.g])))

    def lemma(self, F, count):
        """monotonicity: the record at j < count ends at or before the position count"""
        end = self.at(F, count)
        seen = set()
        for l in list(F.ineq):
            for a, _ in l.t:
                for b in [a] + sorted(deps_of(ATOM_KEY[a])):
                    k = ATOM_KEY[b]
                    if k[0] == 'op' and k[1] == self.key[1] and b not in seen:
                        seen.add(b)
                        j = k[2][0]
                        if F.le0(j + 1 - count):
                            F = F.assume(c_le(self.step(F, lin_atom(b)), end))
                            if F is None:
                                raise Infeasible()
                        elif F.le0(j - count):
                            F = F.assume(c_le(lin_atom(b), end))
                            if F is None:
                                raise Infeasible()
        return F


def pair_step(src):
    def f(F, g):
        a = lin_atom(atom_op('#vlen', (src, F.nlin(g)), 64, 1, 8))
        b = lin_atom(atom_op('#vlen', (src, F.nlin(g + a)), 64, 1, 8))
        return g + a + b
    return f


# ------------------------------------------------------------------ RFC 9000 section 19 layouts
def one_of(F, v, vals):
    """decide which of the constants v is; None for none of them"""
    lo, hi = F.irange(v)
    for c in vals:
        if c < lo or c > hi:
            continue
        if need(F, c_eqi(v, iconst(c, v.w)), 'type'):
            return c
    return None


def b(x):
    return Bool(bool(x))


def ref_frame(X, F, src, n, pos=L0):
    """(variant, fields, end position) of the frame at pos"""
    r = R(F, src, pos, n)
    ty = r.varint('frame type')
    if not need(F, c_le(ty.lin, Lin(0x1e)), 'type'):
        raise SpecErr('unknown frame type')
    t = one_of(F, ty, range(0x1f))
    if t is None:
        raise SpecErr('unknown frame type')
    f = {}
    if t == 0:
        v = 'Padding'
    elif t == 1:
        v = 'Ping'
    elif t in (2, 3):
        v = 'Ack'
        f['largest_acknowledged'] = r.varint()
        f['ack_delay'] = r.varint()
        c = f['ack_range_count'] = r.varint()
        f['first_ack_range'] = r.varint()
        cl = F.nlin(c.lin)
        rec = Rec(X, F, src, r.pos, pair_step(src), ('ack', src))
        G = rec.lemma(F, cl)
        if not need(G, c_le(rec.at(G, cl), n), 'ack ranges'):
            raise SpecErr('truncated ack ranges')
        k = atom_var(('#b', '#refack'), 64, 0, 1 << 62)
        p = rec.at(G, lin_atom(k))
        a1 = lin_atom(atom_op('#vlen', (src, p), 64, 1, 8))
        x1 = Int(64, False, None, lin_atom(atom_op('#varint', (src, p), 64, 0, V62)))
        x2 = Int(64, False, None, lin_atom(atom_op('#varint', (src, G.nlin(p + a1)), 64, 0, V62)))
        f['ack_range'] = ('star', k, {'gap': x1, 'ack_range_length': x2}, cl)
        r.F = F = G
        r.pos = rec.at(G, cl)
        if t == 3:
            f['ecn_counts'] = {'ect0_count': r.varint(), 'ect1_count': r.varint(), 'ecn_ce_count': r.varint()}
        else:
            f['ecn_counts'] = NONE
    elif t == 4:
        v = 'ResetStream'
        f['stream_id'] = r.varint()
        f['application_protocol_error_code'] = r.varint()
        f['final_size'] = r.varint()
    elif t == 5:
        v = 'StopSending'
        f['stream_id'] = r.varint()
        f['application_protocol_error_code'] = r.varint()
    elif t == 6:
        v = 'Crypto'
        f['offset'] = r.varint()
        f['length'] = r.varint()
        f['crypto_data'] = r.bytes(f['length'].lin)
    elif t == 7:
        v = 'NewToken'
        f['token_length'] = r.varint()
        f['token'] = r.bytes(f['token_length'].lin)
    elif 8 <= t <= 15:
        v = 'Stream'
        f['stream_id'] = r.varint()
        f['offset'] = r.varint() if t & 4 else iconst(0, 64)
        if t & 2:
            l = r.varint()
            f['stream_data'] = r.bytes(l.lin)
        else:
            f['stream_data'] = r.rest()
        f['length'] = Int(64, False, None, F.nlin(seq_len(f['stream_data'])))
        f['is_fin'] = b(t & 1)
    elif t == 0x10:
        v = 'MaxData'
        f['maximum_data'] = r.varint()
    elif t == 0x11:
        v = 'MaxStreamData'
        f['stream_id'] = r.varint()
        f['maximum_stream_data'] = r.varint()
    elif t in (0x12, 0x13):
        v = 'MaxStreams'
        f['maximum_streams'] = r.varint()
        f['is_unidirectional'] = b(t & 1)
    elif t == 0x14:
        v = 'DataBlocked'
        f['maximum_data'] = r.varint()
    elif t == 0x15:
        v = 'StreamDataBlocked'
        f['stream_id'] = r.varint()
        f['maximum_stream_data'] = r.varint()
    elif t in (0x16, 0x17):
        v = 'StreamsBlocked'
        f['maximum_streams'] = r.varint()
        f['is_unidirectional_limit'] = b(t & 1)
    elif t == 0x18:
        v = 'NewConnectionId'
        f['sequence_number'] = r.varint()
        f['retire_prior_to'] = r.varint()
        l = f['length'] = r.u8('connection id length')
        if not (need(F, c_le(L1, l.lin), 'cid length') and need(F, c_le(l.lin, Lin(20)), 'cid length')):
            raise SpecErr('connection id length out of range')
        f['connection_id'] = tuple(r.u160(l))
        f['stateless_reset_token'] = r.uint(16, 'reset token')
    elif t == 0x19:
        v = 'RetireConnectionId'
        f['sequence_number'] = r.varint()
    elif t == 0x1a:
        v = 'PathChallenge'
        f['data'] = r.uint(8)
    elif t == 0x1b:
        v = 'PathResponse'
        f['data'] = r.uint(8)
    elif t in (0x1c, 0x1d):
        v = 'ConnectionClose'
        f['error_code'] = r.varint()
        f['frame_type'] = some(r.varint()) if t == 0x1c else NONE
        f['reason_phrase_length'] = r.varint()
        f['reason_phrase'] = r.bytes(f['reason_phrase_length'].lin)
        f['is_application_error'] = b(t & 1)
    else:
        v = 'HandshakeDone'
    return v, f, r.pos, F


REDUNDANT = {'length', 'token_length', 'reason_phrase_length', 'ack_range_count'}


def fields(E, x):
    """field name -> value of a struct value"""
    a = E.adts.get(x.d)
    if a is None:
        return None
    return {fl['n']: x.f[i] for i, fl in enumerate(a['v'][x.v if a['enum'] else 0]['f'])}


def build(E, ty, want, X, name):
    """reference value of a struct type from field values (None when the struct does not have these fields)"""
    a = E.adts.get(ty['d']) if ty['k'] == 'adt' else None
    if isinstance(want, dict):
        if ty['k'] == 'adt' and ty['d'] == OPT:
            x = build(E, ty['a'][0], want, X, name)
            return None if x is None else some(x)
        if a is None or a['enum']:
            return None
        out = []
        for fl in a['v'][0]['f']:
            if fl['n'] not in want:
                return None
            x = build(E, fl['t'], want[fl['n']], X, name)
            if x is None:
                return None
            out.append(x)
        return Adt(ty['d'], 0, out)
    if isinstance(want, tuple) and want and want[0] == 'star':
        x = build(E, ty['a'][0], want[2], X, name)
        return None if x is None else Seq((('star', want[1], (('e', x),), want[3]),), ty['a'][0])
    if isinstance(want, tuple):
        return Adt(ty['d'], 0, want)
    return want


def cmp_fields(X, G, got, want, name, d, label):
    E = X.E
    fs = fields(E, got)
    if fs is None:
        return X.und('%s: unresolved frame contents' % name)
    a = E.adts[got.d]
    tys = {fl['n']: fl['t'] for fl in a['v'][0]['f']}
    for k, w in want.items():
        if k not in fs:
            if k in REDUNDANT:
                continue
            X.und('%s: no field %s' % (name, k))
            continue
        wv = build(E, tys[k], w, X, name)
        if wv is None:
            X.und('%s: field %s has an unexpected type' % (name, k))
            continue
        g = fs[k]
        if isinstance(wv, Seq) and isinstance(g, Ref):
            g = seqval(E, X.cur, g)
        X.same(G, g, wv, label + ':' + name + '.' + k, '%s:%s' % (name, k), 'field %s of %s' % (k, name), d)


def frame_anchor(X, name):
    return X.fn(FR + name)


@prop('C03', 'abstract interpretation of the frame decoder over an arbitrary byte string, compared per path partition with the RFC 9000 section 19 layouts; loops by induction',
      'Every path of the decoder is compared for all inputs at once (field provenance at bit level, extents as linear forms, repeated ACK ranges by induction over the recurrence of their positions). Trusts MIR, library models and the reference layouts.')
def c03(X):
    bounded(X, lambda k: one_frame(X, k), (1 << 20,))
    frames_loop(X)
    X.floor(100, 'frame obligations')


def one_frame(X, size):
    E = X.E
    d = frame_anchor(X, 'deserialize_frame')
    st = State()
    src = 'D'
    s, n = iso_stream(E, st, src)
    if size is not None:
        st = st.assume(c_le(n, Lin(size)))
    res = X.run(d, [s], st)
    FA = adt_of(X, 'Frame')
    names = [v['n'] for v in E.adts[FA]['v']]
    seen = set()

    def ref(F):
        try:
            return ref_frame(X, F, src, n)
        except Infeasible:
            return None

    def cmp(G, s2, v, r):
        if r is None:
            return
        want, f, pos, G = r
        X.cur = s2
        if not isinstance(v, Adt) or v.d != FA:
            return X.und('deserialize_frame: unresolved result')
        got = names[v.v]
        if got != want:
            return X.feasible(G, 'frame type', 'frame:%s' % want, 'bytes of a %s frame decode as %s' % (want, got), d)
        seen.add(want)
        X.ok('frame type: %s' % want)
        if f:
            if not v.f or not isinstance(v.f[0], Adt):
                return X.und('%s: unresolved frame contents' % want)
            cmp_fields(X, G, v.f[0], f, want, d, 'frame field')
        X.same_lin(G, stream_pos(E, s2, s), pos, 'frame extent: ' + want, 'frame:%s:extent' % want,
                   'decoding a %s frame consumes the wrong number of bytes' % want, d)

    outcome_inf(X, d, 'deserialize_frame', res, ref, cmp, 'frame')
    for w in names:
        if w not in seen and not X.viol and not X.unknown and size is None:
            X.und('no %s frame is ever decoded' % w)


def outcome_inf(X, d, name, res, ref, cmp, label):
    """Ctx.outcome for references that may find a partition infeasible (None)"""
    for s2, v in res:
        if not (isinstance(v, Adt) and v.d == RES):
            X.und('%s: result not resolved: %r' % (name, v))
            continue
        for F in s2.cases():
            for G, r in X.splits(F, ref):
                if r is None:
                    X.ok(label + ': infeasible partition')
                elif isinstance(r, SpecErr):
                    if v.v == 1:
                        X.ok(label + ': rejected')
                    else:
                        X.feasible(G, label, '%s:accepts:%s' % (name, r), '%s accepts input that must be rejected (%s)' % (name, r), d)
                elif v.v == 0:
                    cmp(G, s2, v.f[0], r)
                else:
                    X.feasible(G, label, '%s:rejects:%s' % (name, r[0] if isinstance(r, tuple) else ''),
                               '%s rejects input that must be accepted (%s)' % (name, r[0] if isinstance(r, tuple) else ''), d)
    X.no_panics(d, name)


CUT = [None]


def cut_frame(E, st, args, stack, site):
    """deserialize_frame at a symbolic position: some frame of at least one byte, or an error"""
    v = contracts.view(E, st, args[0])
    if v is None:
        return None
    r, x, src, off = v
    F = st.facts
    pos, end = F.nlin(x.f[1].lin), x.f[2].lin
    ap = F.nlin(off + pos)
    c = ('atom', ('#ferr', src, ap))
    out = []
    n = lin_atom(atom_op('#flen', (src, ap), 64, 1, 1 << 47))
    s1 = st.assume(c_not(c))
    s1 = s1 and s1.assume(c_le(pos + n, end))
    if s1 is not None:
        E.store(s1, r, Adt(x.d, 0, (x.f[0], usz(s1.facts.nlin(pos + n))) + x.f[2:]))
        out.append((s1, ok(Sym(('#frame', src, ap), contracts.res_of(E.fns[CUT[0]]['locals'][0]['t'])))))
    s2 = st.assume(c)
    if s2 is not None:
        E.nfid += 1
        p = atom_var(('#hv', 'pos', E.nfid), 64, 0, 1 << 48)
        E.store(s2, r, Adt(x.d, 0, (x.f[0], usz(lin_atom(p))) + x.f[2:]))
        out.append((s2, err(Opq('ferr'))))
    return out


def flen_step(src):
    def f(F, g):
        return g + lin_atom(atom_op('#flen', (src, F.nlin(g)), 64, 1, 1 << 47))
    return f


def frames_loop(X):
    bounded(X, lambda k: frames_loop1(X, k), (0, 1, 2, 3, 4))


def frames_loop1(X, size):
    E = X.E
    d = frame_anchor(X, 'deserialize_frames')
    one = frame_anchor(X, 'deserialize_frame')
    st = State()
    src = 'P'
    s, n = iso_stream(E, st, src)
    if size is not None:
        st = st.assume(c_eqi(usz(n), usz(size)))
    E.cuts = {one: cut_frame}
    CUT[0] = one
    try:
        res = X.run(d, [s], st)
    finally:
        E.cuts = {}
    step = flen_step(src)
    for s2, v in res:
        if not (isinstance(v, Adt) and v.d == RES):
            X.und('deserialize_frames: result not resolved')
            continue
        for F in s2.cases():
            if v.v == 0:
                q = seqval(E, s2, v.f[0])
                if q is None:
                    X.und('deserialize_frames: result not resolved')
                    continue
                check_frames(X, F, q, src, n, step, d)
            else:
                # an error is right only when a frame of the payload is in error
                if any(c[0] == 'atom' and c[1][0] == '#ferr' and F.dec(c) is True for c in conds_in(F)):
                    X.ok('frames: error propagated')
                else:
                    X.feasible(F, 'frames', 'deserialize_frames:rejects', 'payload of valid frames is rejected', d)
    X.no_panics(d, 'deserialize_frames')


def conds_in(F):
    out = []
    for c in F.conds():
        while c[0] == 'not':
            c = c[1]
        if c[0] == 'and':
            out += [c[1], c[2]]
        else:
            out.append(c)
    return [c if c[0] != 'not' else c[1] for c in out]


def check_frames(X, F, q, src, n, step, d):
    """q must be the frames at 0, step(0), ... until the end of the payload"""
    q = seq_norm(F, q)
    pos = L0
    i = 0
    for sg in q.segs:
        if sg[0] == 'e' and isinstance(sg[1], Sym) and sg[1].id[0] == '#frame':
            X.same_lin(F, sg[1].id[2], pos, 'frames: order', 'deserialize_frames:order', 'frame does not start where the previous one ended', d)
            pos = F.nlin(step(F, pos))
        elif sg[0] == 'star' and len(sg[2]) == 1 and sg[2][0][0] == 'e' and isinstance(sg[2][0][1], Sym) and sg[2][0][1].id[0] == '#frame':
            rec = Rec(X, F, src, pos, step, ('frames', src))
            p = rec.at(F, lin_atom(sg[1]))
            X.same_lin(F, sg[2][0][1].id[2], p, 'frames: order', 'deserialize_frames:order', 'frame does not start where the previous one ended', d)
            pos = rec.at(F, sg[3])
        else:
            return X.und('deserialize_frames: unresolved frame list %s' % (q,))
    X.same_lin(F, pos, n, 'frames: whole payload', 'deserialize_frames:rest', 'payload bytes are left unparsed', d)


# ------------------------------------------------------------------ C04: encoding
def sv(name, w=64):
    return Int(w, False, ATOM_BITS[atom_var(('fr', name), w)])


def sdata(name):
    n = lin_atom(atom_var((('frd', name), 'len'), 64, 0, 1 << 47))
    return Seq((('s', ('frd', name), L0, n),), U8), Int(64, False, None, n)


def sbool(name):
    return Bool(('atom', ('fr', name)))


def sample(X, F, v, tys):
    """[(fields by name, facts)] : arbitrary frame of variant v, redundant fields consistent with the data"""
    def c(*names):
        return {k: sv(k) for k in names}
    if v == 'Ack':
        out = []
        f = c('largest_acknowledged', 'ack_delay', 'first_ack_range')
        n = lin_atom(atom_var((('frd', 'AR'), 'len'), 64, 0, 1 << 47))
        et = tys['ack_range']['a'][0]
        reg_src(('frd', 'AR'), et)
        f['ack_range'] = Seq((('s', ('frd', 'AR'), L0, n),), et)
        f['ack_range_count'] = Int(64, False, None, n)
        return [dict(f, ecn_counts=NONE), dict(f, ecn_counts=c('ect0_count', 'ect1_count', 'ecn_ce_count'))]
    if v == 'ResetStream':
        return [c('stream_id', 'application_protocol_error_code', 'final_size')]
    if v == 'StopSending':
        return [c('stream_id', 'application_protocol_error_code')]
    if v == 'Crypto':
        f = c('offset')
        f['crypto_data'], f['length'] = sdata('crypto')
        return [f]
    if v == 'NewToken':
        f = {}
        f['token'], f['token_length'] = sdata('token')
        return [f]
    if v == 'Stream':
        f = c('stream_id', 'offset')
        f['stream_data'], f['length'] = sdata('stream')
        return [dict(f, is_fin=b(0)), dict(f, is_fin=b(1))]
    if v in ('MaxData', 'DataBlocked'):
        return [c('maximum_data')]
    if v in ('MaxStreamData', 'StreamDataBlocked'):
        return [c('stream_id', 'maximum_stream_data')]
    if v == 'MaxStreams':
        return [dict(c('maximum_streams'), is_unidirectional=b(x)) for x in (0, 1)]
    if v == 'StreamsBlocked':
        return [dict(c('maximum_streams'), is_unidirectional_limit=b(x)) for x in (0, 1)]
    if v == 'NewConnectionId':
        out = []
        for k in range(1, 21):
            f = c('sequence_number', 'retire_prior_to')
            f['length'] = iconst(k, 8)
            f['connection_id'] = (sv('cidhi', 32), sv('cidlo', 128))
            f['stateless_reset_token'] = sv('token', 128)
            out.append(f)
        return out
    if v == 'RetireConnectionId':
        return [c('sequence_number')]
    if v in ('PathChallenge', 'PathResponse'):
        return [c('data')]
    if v == 'ConnectionClose':
        out = []
        for app in (0, 1):
            f = c('error_code')
            f['frame_type'] = NONE if app else some(sv('frame_type'))
            f['reason_phrase'], f['reason_phrase_length'] = sdata('reason')
            f['is_application_error'] = b(app)
            out.append(f)
        return out
    return [{}]


def u160_bytes(hi, lo, n):
    bits = list(lo.bits) + list(hi.bits)
    return [('e', Int(8, False, tuple(bits[8 * i:8 * i + 8]))) for i in range(n - 1, -1, -1)]


def enc_frame(F, v, f, end, E, tys, alt=0):
    """reference encoding of a frame (segments)"""
    def vs(*names):
        return [y for n in names for y in w_varint(F, f[n])]

    def data(n):
        return list(f[n].segs)
    if v == 'Padding':
        return w_const(0)
    if v == 'Ping':
        return w_const(1)
    if v == 'Ack':
        ecn = f['ecn_counts']
        out = w_const(3 if ecn != NONE else 2) + vs('largest_acknowledged', 'ack_delay', 'ack_range_count', 'first_ack_range')
        k = atom_var(('#b', '#refackenc'), 64, 0, 1 << 62)
        el = src_elem(F, ('frd', 'AR'), lin_atom(k))
        fs = elem_fields(E, el)
        segs = []
        for x in ('gap', 'ack_range_length'):
            l = fs[x].lin
            segs.append(('s', ('#venc', l), L0, lin_atom(atom_op('#vencn', (l,), 64, 1, 8))))
        out.append(('star', k, tuple(segs), F.nlin(f['ack_range_count'].lin)))
        if ecn != NONE:
            for x in ('ect0_count', 'ect1_count', 'ecn_ce_count'):
                out += w_varint(F, ecn[x])
        return out
    if v == 'ResetStream':
        return w_const(4) + vs('stream_id', 'application_protocol_error_code', 'final_size')
    if v == 'StopSending':
        return w_const(5) + vs('stream_id', 'application_protocol_error_code')
    if v == 'Crypto':
        return w_const(6) + vs('offset', 'length') + data('crypto_data')
    if v == 'NewToken':
        return w_const(7) + vs('token_length') + data('token')
    if v == 'Stream':
        off = bool(alt & 1) or not need(F, c_eqi(f['offset'], iconst(0, 64)), 'offset')
        ln = not end or bool(alt & 2)
        t = 8 | (4 if off else 0) | (2 if ln else 0) | (1 if f['is_fin'].c is True else 0)
        return w_const(t) + vs('stream_id') + (vs('offset') if off else []) + (vs('length') if ln else []) + data('stream_data')
    if v == 'MaxData':
        return w_const(0x10) + vs('maximum_data')
    if v == 'MaxStreamData':
        return w_const(0x11) + vs('stream_id', 'maximum_stream_data')
    if v == 'MaxStreams':
        return w_const(0x13 if f['is_unidirectional'].c is True else 0x12) + vs('maximum_streams')
    if v == 'DataBlocked':
        return w_const(0x14) + vs('maximum_data')
    if v == 'StreamDataBlocked':
        return w_const(0x15) + vs('stream_id', 'maximum_stream_data')
    if v == 'StreamsBlocked':
        return w_const(0x17 if f['is_unidirectional_limit'].c is True else 0x16) + vs('maximum_streams')
    if v == 'NewConnectionId':
        n = f['length'].const()
        hi, lo = f['connection_id']
        return w_const(0x18) + vs('sequence_number', 'retire_prior_to') + w_const(n) + u160_bytes(hi, lo, n) + w_uint(F, f['stateless_reset_token'], 16)
    if v == 'RetireConnectionId':
        return w_const(0x19) + vs('sequence_number')
    if v == 'PathChallenge':
        return w_const(0x1a) + w_uint(F, f['data'], 8)
    if v == 'PathResponse':
        return w_const(0x1b) + w_uint(F, f['data'], 8)
    if v == 'ConnectionClose':
        app = f['is_application_error'].c is True
        out = w_const(0x1d if app else 0x1c) + vs('error_code')
        if not app:
            out += w_varint(F, f['frame_type'].f[0])
        return out + vs('reason_phrase_length') + data('reason_phrase')
    if v == 'HandshakeDone':
        return w_const(0x1e)
    raise SpecErr('unknown variant')


def elem_fields(E, el):
    if isinstance(el, Sym):
        a = E.adts[el.ty['d']]
        el = E.expand(State(), el)
    fs = fields(E, el)
    return {k: E.expand(State(), x) if isinstance(x, Sym) else x for k, x in fs.items()}


def big_elem(F):
    """is some quantity known to exceed the varint range in this partition?"""
    return any(lo > V62 for a, (lo, hi) in F.rng.items())


def cmp_enc(X, res, v, f, ends, d, name, tys):
    E = X.E
    for s2, r in res:
        if isinstance(r, Seq) or isinstance(r, Ref):
            r = ok(r)
        if not (isinstance(r, Adt) and r.d == RES):
            X.und('%s: result not resolved' % name)
            continue
        for F in s2.cases():
            for G, w in X.splits(F, lambda G: enc_frame(G, v, f, ends, E, tys)):
                if isinstance(w, SpecErr):
                    if r.v == 1:
                        X.ok('encode: rejected')
                    else:
                        X.feasible(G, 'encode', '%s:overflow' % name, 'a %s frame with a field that does not fit is serialised' % v, d)
                    continue
                if r.v == 1:
                    if big_elem(G):
                        X.ok('encode: rejected')
                    else:
                        X.feasible(G, 'encode', '%s:rejects' % name, 'a valid %s frame is not serialised' % v, d)
                    continue
                got = seqval(E, s2, r.f[0])
                if got is None:
                    X.und('%s: bytes not resolved' % name)
                    continue
                alts = [Seq(w, U8)]
                if v == 'Stream':
                    for a in (1, 2, 3):
                        try:
                            alts.append(Seq(enc_frame(G, v, f, ends, E, tys, a), U8))
                        except (Split, SpecErr):
                            pass
                if len(alts) > 1 and any(quiet_eq(G, got, x) for x in alts):
                    X.ok('encode:%s' % v)
                else:
                    X.same(G, got, alts[0], 'encode:%s' % v, '%s:bytes' % name, 'encoding of a %s frame' % v, d)


def quiet_eq(G, a, b):
    try:
        return eqv(G, a, b) is True
    except (Split, Unsupported):
        return False


CTORS = [
    ('ResetStream', 'new', ('stream_id', 'application_protocol_error_code', 'final_size'), {}),
    ('StopSending', 'new', ('stream_id', 'application_protocol_error_code'), {}),
    ('Crypto', 'new', ('crypto_data',), {'offset': 0}),
    ('NewToken', 'new', ('token',), {}),
    ('Stream', 'new', ('stream_id', 'stream_data', 'is_fin'), {'offset': 0}),
    ('MaxData', 'new', ('maximum_data',), {}),
    ('MaxStreamData', 'new', ('stream_id', 'maximum_stream_data'), {}),
    ('MaxStreams', 'new', ('maximum_streams', 'is_unidirectional'), {}),
    ('DataBlocked', 'new', ('maximum_data',), {}),
    ('StreamDataBlocked', 'new', ('stream_id', 'maximum_stream_data'), {}),
    ('StreamsBlocked', 'new', ('maximum_streams', 'is_unidirectional_limit'), {}),
    ('RetireConnectionId', 'new', ('sequence_number',), {}),
    ('PathChallenge', 'new', ('data',), {}),
    ('PathResponse', 'new', ('data',), {}),
    ('ConnectionClose', 'new_application_error', ('error_code', 'reason_phrase'), {'is_application_error': 1, 'frame_type': 0}),
    ('ConnectionClose', 'new_error', ('error_code', 'frame_type', 'reason_phrase'), {'is_application_error': 0, 'frame_type': 1}),
    ('NewConnectionId', 'new', ('sequence_number', 'retire_prior_to', 'connection_id', 'stateless_reset_token'), {'length': 8}),
]


@prop('C04', 'abstract interpretation of the frame encoder over arbitrary frames, compared with the RFC 9000 section 19 layouts and, through C03, with the decoder; frame lists by induction',
      'Each variant is encoded for all field values at once and compared byte for byte; list serialisation is shown to concatenate the per-frame encodings by induction. Frames are assumed to satisfy the length invariants their constructors and the decoder establish.')
def c04(X):
    E = X.E
    FA = adt_of(X, 'Frame')
    A = E.adts[FA]
    d = X.fn(FR + 'Frame::to_bytes')
    for vi in range(len(A['v'])):
        bounded(X, lambda k: encode_frame(X, E, FA, A, d, vi, k), (0, 1, 2, 3))
    ctors(X, FA, A)
    frame_list(X, FA)
    X.floor(80, 'frame encoding obligations')


def encode_frame(X, E, FA, A, d, vi, size):
    var = A['v'][vi]
    v = var['n']
    inner = var['f'][0]['t'] if var['f'] else None
    tys = {fl['n']: fl['t'] for fl in E.adts[inner['d']]['v'][0]['f']} if inner else {}
    for f in sample(X, None, v, tys):
        for end in (False, True):
            if end and v != 'Stream' and not (v == 'NewConnectionId' and f['length'].const() in (1, 20)):
                continue
            st = State()
            if size is not None:
                for x in f.values():
                    if isinstance(x, Seq) and st is not None and seq_len(x).t:
                        st = st.assume(c_eqi(usz(seq_len(x)), usz(size)))
                if st is None:
                    continue
            if inner is None:
                fv = Adt(FA, vi, ())
            else:
                iv = build(E, inner, fill(tys, f), X, v)
                if iv is None:
                    X.und('%s: unexpected fields' % v)
                    continue
                fv = Adt(FA, vi, (iv,))
            r = Ref(E.new_root(st, fv))
            res = X.run(d, [r, Bool(end)], st)
            cmp_enc(X, res, v, f, end, d, '%s%s' % (v, ':end' if end else ''), tys)
            X.no_panics(d, v)


def fill(tys, f):
    return {k: x for k, x in f.items() if k in tys}


def ctors(X, FA, A):
    """public constructors establish the invariants and put each argument in its field"""
    E = X.E
    for v, fn, names, extra in CTORS:
        try:
            d = X.fn('%sFrame%s::%s' % (FR, v, fn))
        except Missing:
            continue
        vt = [x for x in A['v'] if x['n'] == v]
        if not vt or not vt[0]['f']:
            continue
        tys = {fl['n']: fl['t'] for fl in E.adts[vt[0]['f'][0]['t']['d']]['v'][0]['f']}
        if len(E.fns[d]['locals']) < len(names) + 1 or E.fns[d]['argc'] != len(names):
            X.und('%s: constructor changed' % d)
            continue
        for f in sample(X, None, v, tys):
            if v == 'ConnectionClose' and (f['is_application_error'].c is True) != bool(extra['is_application_error']):
                continue
            if v == 'NewConnectionId' and f['length'].const() != 8:
                continue
            if 'offset' in extra:
                f = dict(f, offset=iconst(0, 64))
            st = State()
            args = []
            for n in names:
                x = f[n]
                if isinstance(x, tuple):
                    t = tys[n]
                    x = Adt(t['d'], 0, x)
                if n == 'frame_type':
                    x = x.f[0]
                args.append(x)
            res = X.run(d, args, st)
            X.no_panics(d, d)
            for s2, val in res:
                X.cur = s2
                if isinstance(val, Adt) and val.d == RES and val.v == 0:
                    val = val.f[0]
                if not isinstance(val, Adt) or val.d == RES:
                    X.und('%s: result not resolved' % d)
                    continue
                for F in s2.cases():
                    cmp_fields(X, F, val, fill(tys, f), '%s::%s' % (v, fn), d, 'constructor')


def cut_enc(E, st, args, stack, site):
    """Frame::to_bytes inside the list serialiser: its own encoding of that frame, or an error"""
    x = E.deref_all(st, args[0])
    flag = args[1]
    if not isinstance(flag, Bool):
        return None
    if isinstance(x, Sym):
        key = x.id
    else:
        return None
    F = st.facts
    dd = F.dec(flag.c)
    fl = flag.c if dd is None else dd
    fid = ('#fenc', key, fl)
    n = lin_atom(atom_op('#fencn', (key, fl), 64, 1, 1 << 40))
    c = ('atom', ('#fencerr', key))
    out = []
    s1 = st.assume(c_not(c))
    if s1 is not None:
        out.append((s1, ok(Seq((('s', fid, L0, n),), U8))))
    s2 = st.assume(c)
    if s2 is not None:
        out.append((s2, err(Opq('fencerr'))))
    return out


def check_list(X, F, q, n, end, d):
    """q must be the encodings of frames 0..n-1 in order; only the last one may run to the end of the datagram"""
    pos = L0
    for sg in seq_norm(F, q).segs:
        G, base, cnt = F, pos, L1
        part = sg
        if sg[0] == 'star':
            if len(sg[2]) != 1:
                return X.und('serialize_frames: unresolved bytes')
            part = sg[2][0]
            cnt = sg[3]
            G = F.assume(c_le(lin_atom(sg[1]) + 1, cnt))
            if G is None:
                continue
            base = pos + lin_atom(sg[1])
        if part[0] != 's' or not isinstance(part[1], tuple) or part[1][0] != '#fenc' or part[1][1][0] != '#el':
            return X.und('serialize_frames: unresolved bytes %s' % (sg,))
        key, fl = part[1][1], part[1][2]
        X.same_lin(G, key[2], base, 'frame list: order', 'serialize_frames:order', 'frames are not serialised in order', d)
        X.same_lin(G, part[3], lin_atom(atom_op('#fencn', (key, fl), 64, 1, 1 << 40)), 'frame list: extent', 'serialize_frames:extent', 'a frame is not serialised completely', d)
        H = G.assume(fl) if fl is not True else G
        if fl is not False and H is not None:
            if end:
                X.same_lin(H, base, n - 1, 'frame list: end', 'serialize_frames:end', 'a frame that is not the last one is serialised without its length', d)
            else:
                X.feasible(H, 'frame list: end', 'serialize_frames:end', 'a frame is serialised without its length although the payload does not extend to the end of the datagram', d)
        else:
            X.ok('frame list: end')
        pos = F.nlin(pos + cnt)
    X.same_lin(F, pos, n, 'frame list: all', 'serialize_frames:all', 'not every frame is serialised', d)


def frame_list(X, FA):
    E = X.E
    d = X.fn(FR + 'serialize_frames')
    one = X.fn(FR + 'Frame::to_bytes')

    def go(end, size):
        st = State()
        n = lin_atom(atom_var(('frames', 'len'), 64, 0, 1 << 47))
        if size is not None:
            st = st.assume(c_eqi(usz(n), usz(size)))
        ft = {'k': 'adt', 'd': FA, 'a': []}
        reg_src(('frd', 'frames'), ft)
        r = Ref(E.new_root(st, Seq((('s', ('frd', 'frames'), L0, n),), ft)), (), (L0, n))
        E.cuts = {one: cut_enc}
        try:
            res = X.run(d, [r, Bool(end)], st)
        finally:
            E.cuts = {}
        for s2, v in res:
            if not (isinstance(v, Adt) and v.d == RES):
                X.und('serialize_frames: result not resolved')
                continue
            for F in s2.cases():
                bad = any(c[0] == 'atom' and c[1][0] == '#fencerr' and F.dec(c) is True for c in conds_in(F))
                if v.v == 1:
                    if bad:
                        X.ok('frame list: error propagated')
                    else:
                        X.feasible(F, 'frame list', 'serialize_frames:rejects', 'a list of valid frames is not serialised', d)
                    continue
                if bad:
                    X.feasible(F, 'frame list', 'serialize_frames:accepts', 'a frame that cannot be serialised is left out', d)
                    continue
                q = seqval(E, s2, v.f[0])
                if q is None:
                    X.und('serialize_frames: result not resolved')
                    continue
                check_list(X, F, q, n, end, d)
        X.no_panics(d, 'serialize_frames')
    for end in (False, True):
        bounded(X, lambda k: go(end, k), (0, 1, 2, 3))
