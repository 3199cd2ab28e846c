"""C07 packet headers, C08 packet decoding, C09 packet building, C15 header protection bits."""
from spec import *
from p_codec import adt_of, seqval
import p_frame
from p_frame import fields, sv, sdata, build

PROPS = {}
PK = 'quic_sea::packet::'


def prop(pid, technique, level_note):
    def deco(f):
        PROPS[pid] = {'run': f, 'technique': technique, 'note': level_note}
        return f
    return deco


def variant(E, d, v):
    return E.adts[d]['v'][v]['n']


def fld(X, E, s2, x, name, what):
    """field of a struct value by name; None (undecided) when there is no such field"""
    if isinstance(x, Ref):
        x = E.load(s2, x)
    if isinstance(x, Sym):
        x = E.expand(s2, x)
    fs = fields(E, x) if isinstance(x, Adt) else None
    if fs is None or name not in fs:
        X.und('%s: no field %s' % (what, name))
        return None
    return fs[name]


def ref_header(src, n, pos=L0):
    """reference header parser: dict of expected values"""
    def f(F):
        r = R(F, src, pos, n)
        b0 = r.u8('first byte')
        bits = F.ibits(b0)
        if need(F, c_eqi(Int(1, False, bits[7:8]), iconst(1, 1)), 'header form'):
            v = r.uint(4, 'version')
            h = {'form': 'Long', 'header_byte': b0, 'version': v}
            if need(F, c_eqi(v, iconst(0, 32)), 'version negotiation'):
                dl = r.u8('destination id length')
                d = r.bytes(dl.lin, 'destination id')
                sl = r.u8('source id length')
                s = r.bytes(sl.lin, 'source id')
                h.update(type='VersionNegotiation', destination_connection_id_length=dl, source_connection_id_length=sl,
                         vn=(d, s), is_protected=Bool(False))
            else:
                dl = r.u8('destination id length')
                if not need(F, c_le(dl.lin, Lin(20)), 'destination id length'):
                    raise SpecErr('destination id too long')
                d = r.u160(dl)
                sl = r.u8('source id length')
                if not need(F, c_le(sl.lin, Lin(20)), 'source id length'):
                    raise SpecErr('source id too long')
                s = r.u160(sl)
                t = two_bits(F, b0, 4)
                h.update(type=('Initial', 'ZeroRtt', 'Handshake', 'Retry')[t], destination_connection_id_length=dl,
                         source_connection_id_length=sl, destination_connection_id=d, source_connection_id=s,
                         is_protected=Bool(t != 3))
        else:
            h = {'form': 'Short', 'header_byte': b0, 'type': 'OneRtt', 'destination_connection_id': r.u160(8), 'is_protected': Bool(True)}
        h['end'] = r.pos
        return h
    return f


def two_bits(F, x, lo):
    b = Int(2, False, F.ibits(x)[lo:lo + 2])
    c = b.const()
    if c is None:
        raise Split([c_eqi(b, iconst(i, 2)) for i in range(4)], 'type bits')
    return c


def cmp_header(X, G, s2, v, h, d, name, vn=True):
    """compare a header struct (LongPacketHeader / ShortPacketHeader) with the reference"""
    E = X.E
    if isinstance(v, Ref):
        v = E.load(s2, v)
    for k in ('header_byte', 'version', 'destination_connection_id_length', 'source_connection_id_length',
              'destination_connection_id', 'source_connection_id', 'is_protected'):
        if k not in h:
            continue
        g = fld(X, E, s2, v, k, name)
        if g is None:
            continue
        w = h[k]
        if isinstance(w, tuple):
            if not isinstance(g, Adt):
                X.und('%s: %s not resolved' % (name, k))
                continue
            w = Adt(g.d, g.v, w)
        X.same(G, g, w, 'header:%s' % k, '%s:%s' % (name, k), '%s of a %s packet' % (k, h['type']), d)
    if h['form'] == 'Long' and vn:
        g = fld(X, E, s2, v, 'version_negotiation', name)
        if g is None:
            return
        if 'vn' not in h:
            if isinstance(g, Adt) and g.d == OPT and g.v == 0:
                X.ok('header:version negotiation')
            else:
                X.feasible(G, 'header', '%s:vn' % name, 'version negotiation data for another packet type', d)
            return
        if not (isinstance(g, Adt) and g.v == 1):
            return X.feasible(G, 'header', '%s:vn' % name, 'version negotiation ids are not kept', d)
        for k, w in zip(('destination_connection_id', 'source_connection_id'), h['vn']):
            x = fld(X, E, s2, g.f[0], k, name)
            q = seqval(E, s2, x) if x is not None else None
            if q is None:
                X.und('%s: %s not resolved' % (name, k))
            else:
                X.same(G, q, w, 'header: version negotiation %s' % k, '%s:vn:%s' % (name, k), '%s of a version negotiation packet' % k, d)


def run_simple(X, d, args, st, name):
    res = X.run(d, args, st)
    X.no_panics(d, name)
    return res


def long_header(X, E, st, tag='h', dl=None, sl=None, vn=NONE, prot=None):
    """arbitrary LongPacketHeader value satisfying its construction invariants"""
    t = adt_of(X, 'LongPacketHeader')
    out = []
    f = {'header_byte': sv(tag + '.b', 8), 'version': sv(tag + '.ver', 32),
         'destination_connection_id_length': dl if dl is not None else sv(tag + '.dl', 8),
         'source_connection_id_length': sl if sl is not None else sv(tag + '.sl', 8),
         'destination_connection_id': (sv(tag + '.dhi', 32), sv(tag + '.dlo', 128)),
         'source_connection_id': (sv(tag + '.shi', 32), sv(tag + '.slo', 128)),
         'version_negotiation': vn, 'is_protected': prot if prot is not None else Bool(('atom', ('fr', tag + '.prot')))}
    for fl in E.adts[t]['v'][0]['f']:
        if fl['n'] in f:
            w = f[fl['n']]
            out.append(Adt(fl['t']['d'], 0, w) if isinstance(w, tuple) else w)
        else:
            out.append(E.mksym(('hdr', tag, fl['n']), fl['t']))
    return Adt(t, 0, out), f


def short_header(X, E, st, tag='s', prot=None):
    t = adt_of(X, 'ShortPacketHeader')
    f = {'header_byte': sv(tag + '.b', 8), 'destination_connection_id': (sv(tag + '.dhi', 32), sv(tag + '.dlo', 128)),
         'is_protected': prot if prot is not None else Bool(('atom', ('fr', tag + '.prot')))}
    out = []
    for fl in E.adts[t]['v'][0]['f']:
        if fl['n'] in f:
            w = f[fl['n']]
            out.append(Adt(fl['t']['d'], 0, w) if isinstance(w, tuple) else w)
        else:
            out.append(E.mksym(('hdr', tag, fl['n']), fl['t']))
    return Adt(t, 0, out), f


@prop('C07', 'abstract interpretation of the header parser, accessors and writer over an arbitrary byte string, compared per path partition with the RFC 8999 / RFC 9000 section 17 layouts',
      'All header bytes, versions, id lengths and truncation points are covered at once; values compared at bit level.')
def c07(X):
    E = X.E
    PT = adt_of(X, 'PacketType')
    d = X.fn(PK + 'next_header_from_stream')
    st = State()
    src = 'H'
    s, n = iso_stream(E, st, src)
    res = X.run(d, [s], st)
    HA = adt_of(X, 'PacketHeader')
    types = {}
    seen = set()

    def cmp(G, s2, v, h):
        if not isinstance(v, Adt) or v.d != HA:
            return X.und('next_header_from_stream: unresolved result')
        got = variant(E, HA, v.v)
        if got != h['form']:
            return X.feasible(G, 'header form', 'form', '%s header read as %s' % (h['form'], got), d)
        X.ok('header form: %s' % got)
        seen.add(h['type'])
        cmp_header(X, G, s2, v.f[0], h, d, 'header')
        X.same_lin(G, stream_pos(E, s2, s), h['end'], 'header extent', 'extent', 'a %s header consumes the wrong number of bytes' % h['type'], d)
        # accessors on the parsed value
        for acc, want in (('get_packet_type', h['type']), ('get_destination_id', h.get('destination_connection_id')),
                          ('get_destination_id_length', h.get('destination_connection_id_length', iconst(8, 8)))):
            if want is None:
                continue
            pend.append((G, s2, v, acc, want, h))
    pend = []
    X.outcome(d, 'next_header_from_stream', res, None, ref_header(src, n), cmp, 'header')
    for G, s2, v, acc, want, h in pend:
        try:
            da = X.fn(PK + 'PacketHeader::' + acc)
        except Missing:
            continue
        sx = s2.copy()
        sx.facts = G
        r = Ref(E.new_root(sx, v))
        for s3, w in run_simple(X, da, [r], sx, 'PacketHeader::' + acc):
            for F in s3.cases():
                if acc == 'get_packet_type':
                    if not (isinstance(w, Adt) and w.d == PT):
                        X.und('packet type not resolved')
                    elif variant(E, PT, w.v) != want:
                        X.feasible(F, 'packet type', 'type:%s' % want, 'a %s packet is classified as %s' % (want, variant(E, PT, w.v)), da)
                    else:
                        X.ok('packet type: %s' % want)
                else:
                    ww = Adt(w.d, w.v, want) if isinstance(want, tuple) and isinstance(w, Adt) else want
                    X.same(F, w, ww, 'accessor: %s' % acc, acc, '%s of a %s packet' % (acc, h['type']), da)
    if not X.viol and not X.unknown:
        for t in ('VersionNegotiation', 'Initial', 'ZeroRtt', 'Handshake', 'Retry', 'OneRtt'):
            if t not in seen:
                X.und('no %s header is ever read' % t)
    # protected fields
    for owner, mk in (('LongPacketHeader', long_header), ('ShortPacketHeader', short_header)):
        for acc, want in (('packet_number_length', lambda F, b: ext(F, b, 0, 2, 64, 1)), ('spin_bit', lambda F, b: bitbool(F, b, 5)),
                          ('reserved_bits', lambda F, b: ext(F, b, 3, 2, 8, 0)), ('key_phase', lambda F, b: bitbool(F, b, 2))):
            if owner == 'LongPacketHeader' and acc == 'reserved_bits':
                want = lambda F, b: ext(F, b, 2, 2, 8, 0)
            p = PK + owner + '::' + acc
            if p not in E.fns:
                if owner == 'ShortPacketHeader' or acc == 'packet_number_length':
                    X.und('%s does not exist' % p)
                continue
            for prot in (False, True):
                st = State()
                hv, f = mk(X, E, st, prot=Bool(prot))
                r = Ref(E.new_root(st, hv))
                for s2, v in run_simple(X, p, [r], st, owner + '::' + acc):
                    if not (isinstance(v, Adt) and v.d == RES):
                        X.und('%s: result not resolved' % p)
                        continue
                    for F in s2.cases():
                        if prot != (v.v == 1):
                            X.feasible(F, 'protected field', '%s:%s' % (p, prot), '%s %s' % (
                                acc, 'can be read before protection is removed' if prot else 'cannot be read after protection is removed'), p)
                        elif prot:
                            X.ok('protected field: refused')
                        else:
                            X.same(F, v.f[0], want(F, f['header_byte']), 'protected field: value', p + ':value', acc, p)
    # writer
    d = X.fn(PK + 'LongPacketHeader::to_bytes')
    for k in range(21):
        for j in ((0, 1, 7, 8, 9, 16, 17, 20) if k in (0, 8, 20) else (3,)):
            st = State()
            hv, f = long_header(X, E, st, dl=iconst(k, 8), sl=iconst(j, 8))
            st = st.assume(c_not(c_eqi(f['version'], iconst(0, 32))))
            r = Ref(E.new_root(st, hv))
            write_cmp(X, d, [r], st, lambda F: Seq([('e', f['header_byte'])] + w_uint(F, f['version'], 4) + w_const(k) + id_bytes(f['destination_connection_id'], k)
                      + w_const(j) + id_bytes(f['source_connection_id'], j), U8), 'LongPacketHeader::to_bytes')
    d = X.fn(PK + 'ShortPacketHeader::to_bytes')
    st = State()
    hv, f = short_header(X, E, st)
    r = Ref(E.new_root(st, hv))
    write_cmp(X, d, [r], st, lambda F: Seq([('e', f['header_byte'])] + id_bytes(f['destination_connection_id'], 8), U8), 'ShortPacketHeader::to_bytes')
    bounded(X, lambda k: version_negotiation(X, k), (0, 4, 8))
    X.floor(100, 'header obligations')


def id_bytes(idv, n):
    hi, lo = idv
    bits = list(lo.bits) + list(hi.bits)
    return [('e', Int(8, False, tuple(bits[8 * i:8 * i + 8]))) for i in range(n - 1, -1, -1)]


def ext(F, b, lo, n, w, add):
    x = Int(w, False, tuple(F.ibits(b)[lo:lo + n]) + (ZERO_F,) * (w - n))
    return Int(w, False, None, F.nlin(x.lin + add)) if add else x


def bitbool(F, b, i):
    return Bool(c_eqi(Int(1, False, F.ibits(b)[i:i + 1]), iconst(1, 1)))


def write_cmp(X, d, args, st, ref, name):
    E = X.E
    for s2, v in run_simple(X, d, args, st, name):
        if isinstance(v, Adt) and v.d == RES:
            if v.v == 1:
                for F in s2.cases():
                    X.feasible(F, name, name + ':rejects', '%s fails' % name, d)
                continue
            v = v.f[0]
        q = seqval(E, s2, v)
        if q is None:
            X.und('%s: bytes not resolved' % name)
            continue
        for F in s2.cases():
            for G, w in X.splits(F, ref):
                X.same(G, q, w, 'written: ' + name, name + ':bytes', 'bytes written by %s' % name, d)


def version_negotiation(X, size):
    E = X.E
    d = X.fn(PK + 'PacketVersionNegotiation::from_stream')
    st = State()
    src = 'V'
    s, n = iso_stream(E, st, src)
    hdr = ref_header(src, n)
    st2 = st.assume(c_le(Lin(7), n))
    # a version negotiation packet: long form, version 0
    b0 = Int(8, False, ATOM_BITS[atom_at(src, L0)])
    for i in range(1, 5):
        st2 = st2.assume(c_eqi(byte(src, Lin(i)), iconst(0, 8)))
    st2 = st2.assume(c_eqi(Int(1, False, ATOM_BITS[atom_at(src, L0)][7:8]), iconst(1, 1)))
    if size is not None:
        st2 = st2.assume(c_eqi(byte(src, Lin(5)), iconst(0, 8)))
        st2 = st2.assume(c_eqi(byte(src, Lin(6)), iconst(0, 8)))
        st2 = st2.assume(c_eqi(usz(n), usz(7 + size)))
    res = X.run(d, [s], st2)

    def ref(F):
        h = hdr(F)
        rest = F.nlin(n - h['end'])
        q = op_div_lin(F, rest, 4)
        m = op_and(F, usz(rest), usz(3))
        al = F.dec(c_eqi(m, usz(0)))
        if al is None:
            raise Split([c_eqi(m, usz(0)), c_not(c_eqi(m, usz(0)))], 'alignment')
        if not al:
            raise SpecErr('versions not aligned')
        h['count'] = q
        return h

    def cmp(G, s2, v, h):
        hd = fld(X, E, s2, v, 'header', 'PacketVersionNegotiation')
        if hd is not None:
            cmp_header(X, G, s2, hd, h, d, 'VersionNegotiation header')
        sup = fld(X, E, s2, v, 'supported_versions', 'PacketVersionNegotiation')
        q = seqval(E, s2, sup) if sup is not None else None
        if q is None:
            return X.und('supported versions not resolved')
        k = atom_var(('#b', '#refvn'), 64, 0, 1 << 62)
        p = G.nlin(h['end'] + lin_atom(k).scale(4))
        w = Seq((('star', k, (('e', be(src, p, 4, 32)),), h['count']),), q.ety)
        X.same(G, q, w, 'versions', 'versions', 'supported versions', d)

    X.outcome(d, 'PacketVersionNegotiation', res, None, ref, cmp, 'version negotiation')


def op_div_lin(F, l, k):
    return F.nlin(op_div(F, usz(l), usz(k)).lin)


# ------------------------------------------------------------------ connections and keys as unknowns
class Keys:
    """unknown connection whose key material is what Secrets::from_secret derives from an unknown secret

    The secret of each Secrets value in memory is identified by its access path from the connection, so that every
    cipher call can be traced to the packet number space and direction whose keys it uses."""

    def __init__(self, X):
        self.X, self.E = X, X.E
        self.memo = {}
        self.busy = False
        try:
            self.d = X.fn('quic_sea::quictls::secrets::Secrets::from_secret')
            self.adt = adt_of(X, 'Secrets')
        except Missing:
            self.d = self.adt = None

    def __enter__(self):
        self.old = self.E.hooks.get('sym')
        self.E.hooks['sym'] = self.hook
        return self

    def __exit__(self, *a):
        if self.old is None:
            self.E.hooks.pop('sym', None)
        else:
            self.E.hooks['sym'] = self.old

    def hook(self, E, id, ty):
        if self.busy or ty['k'] != 'adt' or ty['d'] != self.adt:
            return None
        r = self.memo.get(id)
        if r is None:
            self.busy = True
            try:
                r = self.derive(id)
            finally:
                self.busy = False
            self.memo[id] = r
        return r

    def derive(self, id):
        E = self.E
        with contracts.Iso(E):
            E.hooks.pop('sym', None)
            st = State()
            q = E.new_root(st, Seq((('s', ('#secret', id), L0, Lin(32)),), U8))
            st0 = Ref(q, (), (L0, Lin(32)))
            suites = [d for d, f in E.fns.items() if f.get('value') is not None and self.suite_ty(f)]
            if len(suites) != 1:
                raise Unsupported('cipher suite static not unique')
            args = []
            for l in E.fns[self.d]['locals'][1:E.fns[self.d]['argc'] + 1]:
                t = l['t']
                args.append(st0 if t['k'] == 'ref' and t['e']['k'] == 'slice' else E.static_ref(st, {'d': suites[0]}))
            res = [(s, v) for s, v in E.exec_fn(self.d, args, st) if isinstance(v, Adt) and v.v == 0]
            if len(res) != 1:
                raise Unsupported('key derivation has %d outcomes' % len(res))
            return res[0][1].f[0]

    def suite_ty(self, f):
        t = f['locals'][0]['t'] if f.get('locals') else f.get('ty')
        return t is not None and t['k'] == 'adt' and t['d'].endswith('QuicTlsCipherSuite')


def key_path(q):
    """access path of the secret a key was expanded from"""
    ids = set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == '#secret':
                ids.add(x[1])
                return
            for y in x:
                walk(y)
        elif isinstance(x, Seq):
            walk(x.segs)
        elif isinstance(x, Int):
            for a, _ in x.lin.t:
                walk(ATOM_KEY[a])
        elif isinstance(x, Lin):
            for a, _ in x.t:
                walk(ATOM_KEY[a])
        elif isinstance(x, AtomRef):
            walk(ATOM_KEY[x.a])
        elif isinstance(x, frozenset):
            for y in x:
                if y != ONE:
                    walk(ATOM_KEY[y >> 8])
    walk(q)
    return ids


def conn_ref(X, E, st, id='conn'):
    t = adt_of(X, 'Connection')
    ty = {'k': 'adt', 'd': t, 'a': []}
    return Ref(E.new_root(st, Sym((id,), ty)))


def cut_pn(E, st, args, stack, site):
    """packet number reconstruction: some number determined by the truncated bytes"""
    for a in args:
        q = E.deref_all(st, a)
        if isinstance(q, Seq):
            k = qk(st.facts, q)
            st.event('pn', tuple(a for a in args if a is not None), q, k)
            return [(st, ok(pn_atom(st.ev[-1])))]
    return None


def pn_atom(e):
    return Int(64, False, None, lin_atom(atom_op('#pn', (e[3],), 64, 0, V62)))


def qk(F, q):
    return lib.qkey(F, q)


FCUT = [None]


def cut_frames(E, st, args, stack, site):
    """deserialize_frames: the frames of the rest of the stream, or an error"""
    x = E.deref_all(st, args[0])
    if not (isinstance(x, Adt) and x.d == '@Stream'):
        return None
    F = st.facts
    base = E.load(st, x.f[0])
    if not isinstance(base, Seq):
        return None
    q = seq_slice(F, base, F.nlin(x.f[1].lin), F.nlin(x.f[2].lin - x.f[1].lin))
    k = qk(F, q)
    c = ('atom', ('#framesbad', k))
    r, _ = E.last_ref(st, args[0])
    out = []
    s1 = st.assume(c_not(c))
    if s1 is not None:
        s1 = s1.copy()
        E.store(s1, r, Adt(x.d, 0, (x.f[0], x.f[2]) + x.f[2:]))
        s1.event('frames', q)
        out.append((s1, ok(E.mksym(('#frames', k), contracts.res_of(E.fns[FCUT[0]]['locals'][0]['t'])))))
    s2 = st.assume(c)
    if s2 is not None:
        s2 = s2.copy()
        s2.event('frames.bad', q)
        out.append((s2, err(Opq('framesbad'))))
    return out


def mask_src(ev):
    """source of the header protection mask computed by a cipher event"""
    return None


PROT = ('Initial', 'ZeroRtt', 'Handshake', 'OneRtt')


def ref_packet(src, n, mask, pos=L0):
    """reference layout of a packet at pos; mask(F, sample Seq) -> Int8 list of mask bytes"""
    hdr = ref_header(src, n, pos)

    def f(F):
        h = hdr(F)
        if h['type'] not in PROT:
            return h
        r = R(F, src, h['end'], n)
        if h['type'] == 'Initial':
            tl, tlb = r.varint('token length', raw=True)
            h['token'] = r.bytes(tl.lin, 'token')
        if h['form'] == 'Long':
            ln = r.varint('length')
        p = F.nlin(r.pos)
        r.have(20, 'header protection sample')
        sample = Seq((('s', src, F.nlin(p + 4), Lin(16)),), U8)
        h['sample'] = sample
        m = mask(F, sample)
        if m is None:
            h['nomask'] = True
            return h
        low = 4 if h['form'] == 'Long' else 5
        hb, mb = F.ibits(h['header_byte']), F.ibits(m[0])
        h0 = Int(8, False, tuple(a ^ b if i < low else a for i, (a, b) in enumerate(zip(hb, mb))))
        nb = Int(2, False, h0.bits[0:2])
        c = F.nint(nb).const()
        if c is None:
            raise Split([c_eqi(nb, iconst(i, 2)) for i in range(4)], 'packet number length')
        c += 1
        pn = []
        for i in range(c):
            pn.append(('e', Int(8, False, tuple(a ^ b for a, b in zip(F.ibits(byte(src, F.nlin(p + i))), F.ibits(m[i + 1]))))))
        h['pn'] = Seq(pn, U8)
        h['header_byte'] = h0
        h['is_protected'] = Bool(False)
        h['aad'] = Seq([('e', h0), ('s', src, F.nlin(pos + 1), F.nlin(p - pos - 1))] + pn, U8)
        q = F.nlin(p + c)
        if h['form'] == 'Long':
            if not need(F, c_le(Lin(c), ln.lin), 'packet length'):
                raise SpecErr('length smaller than the packet number')
            end = F.nlin(p + ln.lin)
            if not need(F, c_le(end, n), 'packet extent'):
                raise SpecErr('packet extends past the datagram')
        else:
            end = n
        h['data'] = Seq((('s', src, q, F.nlin(end - q)),), U8)
        h['end'] = end
        if not need(F, c_le(Lin(16), F.nlin(end - q)), 'authentication tag'):
            raise SpecErr('payload shorter than the tag')
        return h
    return f


@prop('C08', 'abstract interpretation of datagram decoding over an arbitrary byte string and connection; the arguments of every cipher call on every path partition are compared with the RFC 9001 section 5 byte ranges',
      'All datagrams (length, header, token, length field, packet number length) at once. Cryptographic primitives are uninterpreted functions of their exact arguments; packet number expansion and frame parsing are summarised (C14, C03).')
def c08(X):
    E = X.E
    with Keys(X):
        one_packet(X)
    packet_list(X)
    X.floor(60, 'packet obligations')


def evs(s2, *kinds):
    return [e for e in s2.ev if e[0] in kinds]


def one_packet(X):
    E = X.E
    d = X.fn(PK + 'decode_next_packet')
    PA = adt_of(X, 'Packet')
    st = State()
    src = 'D'
    s, n = iso_stream(E, st, src)
    cr = conn_ref(X, E, st)
    cuts = {}
    for p, c in (('quic_sea::connection::Connection::reconstruct_remote_pn', cut_pn), ('quic_sea::frame::deserialize_frames', cut_frames)):
        if p in E.fns:
            cuts[p] = c
    FCUT[0] = 'quic_sea::frame::deserialize_frames'
    E.cuts = cuts
    try:
        res = X.run(d, [s, cr], st)
    finally:
        E.cuts = {}
    seen = set()
    for s2, v in res:
        if not (isinstance(v, Adt) and v.d == RES):
            X.und('decode_next_packet: result not resolved')
            continue
        if any(e[0] == 'envfail' for e in s2.ev):
            continue
        check_packet(X, E, d, s2, v, src, n, s, PA, seen)
    X.no_panics(d, 'decode_next_packet')
    if not X.viol and not X.unknown:
        for t in PROT:
            if t not in seen:
                X.und('no %s packet is ever decoded' % t)


def check_packet(X, E, d, s2, v, src, n, s, PA, seen):
    ci = evs(s2, 'cipher')

    def mask(F, sample):
        if not ci:
            return None
        return [byte(('#enc',) + ci[0][-1], Lin(i)) for i in range(5)]
    ref = ref_packet(src, n, mask)
    for F in s2.cases():
        for G, r in X.splits(F, ref):
            check_packet1(X, E, d, s2, v, G, r, ci, s, n, PA, seen)


def check_packet1(X, E, d, s2, v, G, r, ci, s, n, PA, seen):
    bad = isinstance(r, SpecErr)
    t = None if bad else r['type']
    okk = v.v == 0
    if bad or t not in PROT:
        if okk and bad:
            return X.feasible(G, 'packet', 'decode:accepts', 'a datagram that cannot hold the packet is accepted (%s)' % r, d)
        if okk:
            x = v.f[0]
            if not (isinstance(x, Adt) and x.d == PA):
                return X.und('packet not resolved')
            if variant(E, PA, x.v) != t:
                return X.feasible(G, 'packet', 'decode:kind:%s' % t, 'a %s packet is decoded as %s' % (t, variant(E, PA, x.v)), d)
        return X.ok('packet: malformed or unprotected input')
    for e in ci:
        X.same(G, e[3], r['sample'], 'sample', 'decode:sample', 'header protection sample of a %s packet' % t, d)
    if len(ci) > 1:
        X.und('several header protection masks are computed')
        return
    for e in evs(s2, 'open', 'open.fail'):
        X.same(G, e[4], r['aad'], 'associated data', 'decode:aad', 'associated data of a %s packet' % t, d)
        both = Seq(tuple(e[5].segs) + tuple(e[6].segs), U8)
        X.same(G, both, r['data'], 'ciphertext extent', 'decode:data', 'ciphertext and tag of a %s packet' % t, d)
        ids, pe = key_path(e[2]), evs(s2, 'pn')
        if len(ids) == 1 and e[3] is not None and len(pe) == 1:
            import p_crypto
            prk = Seq((('s', ('#secret', list(ids)[0]), L0, Lin(32)),), U8)
            X.same(G, e[3], p_crypto.nonce(G, p_crypto.expand(G, prk, b'quic iv', 12), pn_atom(pe[0])), 'nonce', 'decode:nonce', 'nonce of a %s packet' % t, d)
        else:
            X.und('nonce of a %s packet not traced' % t)
    for e in evs(s2, 'open.unauthenticated'):
        X.feasible(G, 'authentication', 'decode:auth', 'payload decrypted without authentication', d)
    for e in evs(s2, 'pn'):
        X.same(G, e[2], r['pn'], 'packet number bytes', 'decode:pn', 'packet number bytes of a %s packet' % t, d)
    op = evs(s2, 'open')
    if not okk:
        if evs(s2, 'open.fail', 'frames.bad'):
            return X.ok('packet: not authentic or bad frames')
        if nokeys(G):
            return X.ok('packet: no keys')
        return X.feasible(G, 'packet', 'decode:rejects', 'a well formed %s packet is rejected before its authentication or after its frames were read' % t, d)
    x = v.f[0]
    if not (isinstance(x, Adt) and x.d == PA):
        return X.und('packet not resolved')
    if variant(E, PA, x.v) != t:
        return X.feasible(G, 'packet', 'decode:kind:%s' % t, 'a %s packet is decoded as %s' % (t, variant(E, PA, x.v)), d)
    X.ok('packet: kind')
    seen.add(t)
    if not op:
        return X.feasible(G, 'authentication', 'decode:auth', 'a %s packet is accepted without authentication' % t, d)
    if r.get('nomask'):
        return X.feasible(G, 'header protection', 'decode:nomask', 'a %s packet is accepted without removing header protection' % t, d)
    name = 'Packet' + t
    hd = fld(X, E, s2, x.f[0], 'header', name)
    if hd is not None:
        cmp_header(X, G, s2, hd, r, d, name)
    X.same_lin(G, stream_pos(E, s2, s), r['end'], 'packet extent', 'decode:end', 'the packet after a %s packet does not start where it ended' % t, d)
    pb = fld(X, E, s2, x.f[0], 'packet_number_bytes', name)
    if pb is not None:
        q = seqval(E, s2, pb)
        if q is None:
            X.und('packet number bytes not resolved')
        else:
            X.same(G, q, r['pn'], 'packet number bytes', 'decode:pnb', 'packet number bytes of a %s packet' % t, d)
    if evs(s2, 'pn'):
        pn = fld(X, E, s2, x.f[0], 'packet_number', name)
        if pn is not None:
            w = pn_atom(evs(s2, 'pn')[-1])
            X.same(G, pn, w, 'packet number', 'decode:pnum', 'packet number of a %s packet' % t, d)
    if 'token' in r:
        tk = fld(X, E, s2, x.f[0], 'token', name)
        q = seqval(E, s2, tk) if tk is not None else None
        if q is None:
            X.und('token not resolved')
        else:
            X.same(G, q, r['token'], 'token', 'decode:token', 'token of an Initial packet', d)
    fr = evs(s2, 'frames')
    pp = fld(X, E, s2, x.f[0], 'packet_payload', name)
    e = op[-1]
    k = e[-1]
    pt = Seq((('s', ('#pt',) + k, L0, G.nlin(seq_len(e[5]))),), U8)
    if fr:
        X.same(G, fr[-1][1], pt, 'frames of the plaintext', 'decode:frames', 'frames of a %s packet are not parsed from its plaintext' % t, d)
        if pp is not None:
            q = E.deref_all(s2, pp) if isinstance(pp, Ref) else pp
            w = E.mksym(('#frames', qk(G, fr[-1][1])), contracts.res_of(E.fns[FCUT[0]]['locals'][0]['t']))
            if isinstance(q, Seq) and isinstance(w, Seq):
                X.same(G, q, w, 'frames: payload of the packet', 'decode:payload', 'payload of a %s packet is not its parsed frames' % t, d)
            else:
                X.und('payload of the packet is not resolved: %r' % (q,))
    else:
        X.feasible(G, 'frames', 'decode:noframes', 'frames of a %s packet are not parsed' % t, d)


def nokeys(G):
    """some Option holding keys is known to be None"""
    for i, v in G.var.items():
        if v == 0 and isinstance(i, tuple):
            return True
    return False


def cut_packet(E, st, args, stack, site):
    v = contracts.view(E, st, args[0])
    if v is None:
        return None
    r, x, src, off = v
    F = st.facts
    pos, end = F.nlin(x.f[1].lin), x.f[2].lin
    ap = F.nlin(off + pos)
    c = ('atom', ('#perr', src, ap))
    out = []
    n = lin_atom(atom_op('#flen', (src, ap), 64, 1, 1 << 47))
    s1 = st.assume(c_not(c))
    s1 = s1 and s1.assume(c_le(pos + n, end))
    if s1 is not None:
        E.store(s1, r, Adt(x.d, 0, (x.f[0], usz(s1.facts.nlin(pos + n))) + x.f[2:]))
        out.append((s1, ok(Sym(('#frame', src, ap), contracts.res_of(E.fns[PCUT[0]]['locals'][0]['t'])))))
    s2 = st.assume(c)
    if s2 is not None:
        E.nfid += 1
        p = atom_var(('#hv', 'pos', E.nfid), 64, 0, 1 << 48)
        E.store(s2, r, Adt(x.d, 0, (x.f[0], usz(lin_atom(p))) + x.f[2:]))
        out.append((s2, err(Opq('perr'))))
    return out


PCUT = [None]


def packet_list(X):
    bounded(X, lambda k: packet_list1(X, k), (0, 1, 2, 3, 4))


def packet_list1(X, size):
    E = X.E
    d = X.fn(PK + 'decode_packets')
    PCUT[0] = X.fn(PK + 'decode_next_packet')
    st = State()
    src = 'G'
    s, n = iso_stream(E, st, src)
    if size is not None:
        st = st.assume(c_eqi(usz(n), usz(size)))
    cr = conn_ref(X, E, st)
    E.cuts = {PCUT[0]: cut_packet}
    try:
        res = X.run(d, [s, cr], st)
    finally:
        E.cuts = {}
    step = p_frame.flen_step(src)
    for s2, v in res:
        if not (isinstance(v, Adt) and v.d == RES):
            X.und('decode_packets: result not resolved')
            continue
        for F in s2.cases():
            if v.v == 0:
                q = seqval(E, s2, v.f[0])
                if q is None:
                    X.und('decode_packets: result not resolved')
                    continue
                p_frame.check_frames(X, F, q, src, n, step, d)
            elif any(c[0] == 'atom' and c[1][0] == '#perr' and F.dec(c) is True for c in p_frame.conds_in(F)):
                X.ok('packets: error propagated')
            else:
                X.feasible(F, 'packets', 'decode_packets:rejects', 'a datagram of valid packets is rejected', d)
    X.no_panics(d, 'decode_packets')


# ------------------------------------------------------------------ C09
GP = 'quic_sea::connection::Connection::get_next_pn'
SF = 'quic_sea::frame::serialize_frames'


def cut_next_pn(E, st, args, stack, site):
    """get_next_pn: some number and its 1 to 8 low-order bytes, or an error"""
    pn = sv('pn', 64)
    out = []
    for k in range(1, 9):
        s = st.copy()
        s = s.assume(c_le(pn.lin, Lin(V62)))
        s.event('next_pn', k)
        out.append((s, ok(Adt('()', 0, (pn, Seq((('s', '#pnb', L0, Lin(k)),), U8))))))
    s = st.copy()
    s.event('next_pn.err')
    out.append((s, err(Opq('pnerr'))))
    return out


def cut_ser(E, st, args, stack, site):
    q = E.deref_all(st, args[0])
    flag = args[1] if len(args) > 1 else Bool(False)
    if not isinstance(q, Seq) or not isinstance(flag, Bool):
        return None
    k = qk(st.facts, q)
    n = lin_atom(atom_op('#fsern', (k,), 64, 0, 1 << 40))
    c = ('atom', ('#fserbad', k))
    out = []
    s1 = st.assume(c_not(c))
    if s1 is not None:
        s1 = s1.copy()
        x = Seq((('s', ('#fser', k), L0, n),), U8)
        s1.event('ser', q, x)
        out.append((s1, ok(x)))
    s2 = st.assume(c)
    if s2 is not None:
        s2 = s2.copy()
        s2.event('ser.bad', q)
        out.append((s2, err(Opq('serbad'))))
    return out


def built_conn(X, E, server, dk, sk):
    """[(state, ref, dcid, scid)]: a connection made by Connection::new and set_scid, with its keys replaced by unknown ones"""
    U = adt_of(X, 'U160')
    ver = adt_of(X, 'Version')
    K = adt_of(X, 'Secrets')
    d = X.fn('quic_sea::connection::Connection::new')
    ds = X.fn('quic_sea::connection::Connection::set_scid')
    did, sid = (sv('dhi', 32), sv('dlo', 128)), (sv('shi', 32), sv('slo', 128))
    out = []
    for s2, v in run_simple(X, d, [Bool(server), Adt(ver, 0, ()), Adt(U, 0, did), usz(dk)], State(), 'Connection::new'):
        if not (isinstance(v, Adt) and v.d == RES):
            X.und('Connection::new: result not resolved')
            continue
        if v.v == 1:
            continue
        s2.ev = ()
        r = Ref(E.new_root(s2, open_keys(E, v.f[0], {'k': 'adt', 'd': adt_of(X, 'Connection'), 'a': []}, K, ('conn',))))
        for s3, _ in run_simple(X, ds, [r, Adt(U, 0, sid), usz(sk)], s2, 'set_scid'):
            out.append((s3, r, did, sid))
    return out


def open_keys(E, v, ty, K, id):
    """replace every Option<Secrets> inside v by an unknown one named by its access path"""
    if ty['k'] == 'adt':
        if ty['d'] == OPT and ty['a'] and ty['a'][0]['k'] == 'adt' and ty['a'][0]['d'] == K:
            return Sym(id, ty)
        if isinstance(v, Adt) and v.d == ty['d'] and v.d in E.adts and E.adts[v.d]['v'] and v.d != OPT:
            fs = E.adts[v.d]['v'][v.v]['f']
            env = dict(enumerate(ty.get('a', [])))
            return Adt(v.d, v.v, [open_keys(E, x, subst_ty(f['t'], env), K, ('#f', id, f['n'])) for x, f in zip(v.f, fs)])
    if ty['k'] == 'array' and isinstance(v, Seq) and all(g[0] == 'e' for g in v.segs) and len(v.segs) <= 8:
        return Seq([('e', open_keys(E, g[1], ty['e'], K, ('#f', id, i))) for i, g in enumerate(v.segs)], v.ety)
    if ty['k'] == 'tuple' and isinstance(v, Adt):
        return Adt(v.d, v.v, [open_keys(E, x, t, K, ('#f', id, i)) for i, (x, t) in enumerate(zip(v.f, ty['e']))])
    return v


@prop('C09', 'abstract interpretation of building and serialising packets for arbitrary connection ids, tokens, packet numbers and payloads; output bytes and cipher arguments compared with RFC 9000 section 17.2 and RFC 9001 section 5',
      'All token and payload lengths, packet numbers and ids at once; id lengths by enumeration. Cryptographic primitives are uninterpreted; packet number truncation and frame encoding are summarised (C14, C04).')
def c09(X):
    E = X.E
    with Keys(X):
        for name, tb, hastok in (('PacketInitial', 0x00, True), ('PacketHandshake', 0x20, False)):
            for dk, sk in (((8, 8), (0, 17)) if hastok else ((20, 8),)) if X.tier == 'quick' else ((8, 8), (0, 8), (20, 8), (17, 20), (1, 0)):
                for tok in ((True, False) if hastok and dk == 8 else (True,) if hastok else (False,)):
                    build_packet(X, E, name, tb, hastok, tok, dk, sk)
    X.floor(60, 'packet building obligations')


def build_packet(X, E, name, tb, hastok, tok, dk, sk):
    new, ser = X.fn(PK + name + '::new'), X.fn(PK + name + '::serialize')
    FA = adt_of(X, 'Frame')
    ft = {'k': 'adt', 'd': FA, 'a': []}
    reg_src(('frd', 'frames'), ft)
    import p_crypto
    good = 0
    for st, cr, did, sid in built_conn(X, E, True, dk, sk):
        nf = lin_atom(atom_var(('frames', 'len'), 64, 0, 1 << 47))
        frames = Seq((('s', ('frd', 'frames'), L0, nf),), ft)
        tl = lin_atom(atom_var(('tok', 'len'), 64, 0, 1 << 40))
        token = Seq((('s', 'TOK', L0, tl),), U8)
        tv = Adt(OPT, 1, (token,)) if tok else NONE
        E.cuts = {GP: cut_next_pn} if GP in E.fns else {}
        try:
            res = X.run(new, p_crypto.args_for(X, E, st, new, {'Vec': [frames], 'Option': [tv], 'Connection': [cr]}), st)
        finally:
            E.cuts = {}
        X.no_panics(new, name + '::new')
        for s2, v in res:
            if not (isinstance(v, Adt) and v.d == RES):
                X.und('%s::new: result not resolved' % name)
                continue
            k = evs(s2, 'next_pn')
            bad = bool(evs(s2, 'next_pn.err')) or (k and k[-1][1] > 4)
            if not k and not bad:
                X.und('%s::new takes no packet number' % name)
                continue
            if (v.v == 1) != bad:
                for F in s2.cases():
                    X.feasible(F, 'packet number', '%s::new:%s' % (name, bad), 'a packet %s' % (
                        'is built although its packet number needs more than 4 bytes' if bad else 'with a valid packet number is refused'), new)
                continue
            if bad:
                X.ok('packet number: refused')
                continue
            pr = Ref(E.new_root(s2, v.f[0]))
            E.cuts = {SF: cut_ser} if SF in E.fns else {}
            try:
                out = X.run(ser, p_crypto.args_for(X, E, s2, ser, {name: [pr], 'Connection': [cr]}), s2)
            finally:
                E.cuts = {}
            X.no_panics(ser, name + '::serialize')
            for s3, w in out:
                good += check_built(X, E, ser, name, s3, w, k[-1][1], did, sid, dk, sk, tb, hastok, token if tok else Seq((), U8), frames)
    if not good and not X.viol and not X.unknown:
        X.und('%s is never serialised' % name)


def check_built(X, E, d, name, s3, w, k, did, sid, dk, sk, tb, hastok, token, frames):
    if not (isinstance(w, Adt) and w.d == RES):
        X.und('%s::serialize: result not resolved' % name)
        return 0
    import p_crypto
    if any(e[0] == 'envfail' for e in s3.ev):
        return 0
    se, ci, sr = evs(s3, 'seal'), evs(s3, 'cipher'), evs(s3, 'ser')
    key = name + ':'
    for F0 in s3.cases():
        if evs(s3, 'ser.bad'):
            if w.v == 0:
                X.feasible(F0, 'frames', key + 'badframes', 'a packet is serialised without its frames', d)
            else:
                X.ok('frames: error propagated')
            continue
        if not sr:
            if w.v == 1 and nokeys(F0):
                X.ok('packet: no keys')
            elif w.v == 1:
                X.feasible(F0, 'packet', key + 'rejects', 'a %s is not serialised' % name, d)
            else:
                X.und('%s: frames are not serialised by the summarised function' % name)
            continue
        m = seq_len(sr[-1][2])

        def ref(F):
            sh = need(F, c_le(Lin(4), F.nlin(m + k)), 'sample')
            b0 = Int(8, False, None, Lin(0xc0 | tb | (k - 1)))
            pre = w_uint(F, iconst(1, 32), 4) + w_const(dk) + id_bytes(did, dk) + w_const(sk) + id_bytes(sid, sk)
            if hastok:
                tv = usz(F.nlin(seq_len(token)))
                pre = pre + w_varint(F, tv) + list(token.segs)
            pre = pre + w_varint(F, usz(F.nlin(m + k + 16)))
            if sh and w.v == 0 and len(se) == 1:        # splits where the sample begins
                ek = se[0][-1]
                seq_slice(F, Seq([('s', ('#ct',) + ek, L0, F.nlin(m)), ('s', ('#tag',) + ek, L0, Lin(16))], U8), Lin(4 - k), Lin(16))
            return sh, b0, pre
        for F, r in X.splits(F0, ref):
            if isinstance(r, SpecErr):
                X.und('%s: reference: %s' % (name, r))
                continue
            sh, b0, pre = r
            pnb = [('e', byte('#pnb', Lin(i))) for i in range(k)]
            X.same(F, sr[-1][1], frames, 'frames', key + 'frames', 'frames serialised into a %s' % name, d)
            aad = Seq([('e', iconst(0xc0 | tb | (k - 1), 8))] + pre + pnb, U8)
            for e in se:
                X.same(F, e[5], sr[-1][2], 'payload', key + 'payload', 'encrypted payload of a %s' % name, d)
                X.same(F, e[4], aad, 'associated data', key + 'aad', 'associated data of a %s' % name, d)
                ids = key_path(e[2])
                if len(ids) == 1 and e[3] is not None:
                    prk = Seq((('s', ('#secret', list(ids)[0]), L0, Lin(32)),), U8)
                    X.same(F, e[3], p_crypto.nonce(F, p_crypto.expand(F, prk, b'quic iv', 12), sv('pn', 64)), 'nonce', key + 'nonce', 'nonce of a %s' % name, d)
                else:
                    X.und('%s: key not traced' % name)
            if w.v == 1:
                if not sh:
                    X.ok('packet: payload too short for a sample')
                elif nokeys(F):
                    X.ok('packet: no keys')
                else:
                    X.feasible(F, 'packet', key + 'rejects', 'a %s is not serialised' % name, d)
                continue
            if not sh:
                X.ok('packet: short')
                continue
            if not se:
                X.feasible(F, 'payload', key + 'plain', 'a %s is serialised without encryption' % name, d)
                continue
            if len(se) > 1 or len(ci) > 1:
                X.und('%s: several cipher calls' % name)
                continue
            e = se[0]
            ek = e[-1]
            prot = [('s', ('#ct',) + ek, L0, F.nlin(m)), ('s', ('#tag',) + ek, L0, Lin(16))]
            if not ci:
                X.feasible(F, 'header protection', key + 'nomask', 'a %s is sent without header protection' % name, d)
                continue
            c = ci[0]
            sample = seq_slice(F, Seq(prot, U8), Lin(4 - k), Lin(16))
            X.same(F, c[3], sample, 'sample', key + 'sample', 'header protection sample of a %s' % name, d)
            mk = [byte(('#enc',) + c[-1], Lin(i)) for i in range(5)]
            hb, mb = F.ibits(iconst(0xc0 | tb | (k - 1), 8)), F.ibits(mk[0])
            h0 = Int(8, False, tuple(a ^ b if i < 4 else a for i, (a, b) in enumerate(zip(hb, mb))))
            pn = [('e', Int(8, False, tuple(a ^ b for a, b in zip(F.ibits(byte('#pnb', Lin(i))), F.ibits(mk[i + 1]))))) for i in range(k)]
            q = seqval(E, s3, w.f[0])
            if q is None:
                X.und('%s: bytes not resolved' % name)
                continue
            X.same(F, q, Seq([('e', h0)] + pre + pn + prot, U8), 'packet bytes', key + 'bytes', 'bytes of a serialised %s' % name, d)
    return 1
