"""C01 variable-length integers, C02 fixed-width integers / ids / byte runs."""
from spec import *

U = 'quic_sea::utils::'
PROPS = {}


def prop(pid, technique, level_note):
    def deco(f):
        PROPS[pid] = {'run': f, 'technique': technique, 'note': level_note}
        return f
    return deco


def top2(F, src, p):
    b = Int(2, False, F.ibits(byte(src, p))[6:8])
    c = b.const()
    if c is None:
        raise Split([c_eqi(b, iconst(i, 2)) for i in range(4)], 'varint length')
    return c


def ref_varint(src, n, pos=L0):
    """reference varint decoder expanded to bytes: (value, length)"""
    def f(F):
        if not need(F, c_le(pos + 1, n), 'varint'):
            raise SpecErr('empty varint')
        L = 1 << top2(F, src, pos)
        if not need(F, c_le(pos + L, n), 'varint'):
            raise SpecErr('truncated varint')
        return be(src, pos, L, 64, 2), L
    return f


def slice_arg(E, st, src):
    n = lin_atom(atom_var((src, 'len'), 64, 0, 1 << 47))
    q = E.new_root(st, Seq((('s', src, L0, n),), U8))
    return Ref(q, (), (L0, n)), n


def seqval(E, st, v):
    """sequence behind a value (Vec, array, slice reference)"""
    if isinstance(v, Ref):
        v = E.load(st, v)
    return v if isinstance(v, Seq) else None


@prop('C01', 'abstract interpretation of the extracted MIR (bit-provenance and linear domain, loop induction) against the RFC 9000 section 16 definition',
      'Sound over every input for the modelled constructs: each reader and the encoder is analysed for all byte strings and all u64 values at once. Trusts rustc MIR, the models of std iterators/vectors and the reference.')
def c01(X):
    E = X.E
    # decoders over streams
    for name, wb in (('var_int_from_stream', False), ('var_int_with_bytes_from_stream', True)):
        d = X.fn(U + name)
        X.C.off = {d}
        st = State()
        src = ('D', name)
        s, n = iso_stream(E, st, src)
        res = X.run(d, [s], st)

        def cmp(G, s2, v, r):
            want, L = r
            if wb:
                if not isinstance(v, Adt) or len(v.f) != 2:
                    return X.und('%s: result not resolved' % name)
                X.same(G, v.f[1], Seq([('e', byte(src, i)) for i in range(L)], U8), 'varint bytes', name + ':bytes',
                       '%s returns the wrong raw bytes for the %d byte form' % (name, L), d)
                v = v.f[0]
            X.same(G, v, want, 'varint value', name + ':value', '%s returns the wrong value for the %d byte form' % (name, L), d)
            X.same_lin(G, stream_pos(E, s2, s), Lin(L), 'varint consumed', name + ':consumed',
                       '%s consumes the wrong number of bytes for the %d byte form' % (name, L), d)
        X.outcome(d, name, res, s, ref_varint(src, n), cmp, 'varint ' + name)
    # decoder over slices
    d = X.fn(U + 'decode_var_int')
    X.C.off = {d}
    st = State()
    src = ('D', 'slice')
    a, n = slice_arg(E, st, src)
    res = X.run(d, [a], st)

    def cmp(G, s2, v, r):
        want, L = r
        X.same(G, v.f[0], want, 'varint value', 'decode_var_int:value', 'slice decoder returns the wrong value for the %d byte form' % L, d)
        X.same_lin(G, v.f[1].lin, Lin(L), 'varint consumed', 'decode_var_int:length', 'slice decoder reports the wrong length for the %d byte form' % L, d)
    X.outcome(d, 'decode_var_int', res, None, ref_varint(src, n), cmp, 'varint decode_var_int')
    # encoder
    d = X.fn(U + 'encode_var_int')
    X.C.off = {d}
    x = Int(64, False, ATOM_BITS[atom_var(('x', 'venc'), 64)])

    def ref(F):
        for c in range(4):
            if need(F, c_le(x.lin, Lin((1 << (8 * (1 << c) - 2)) - 1)), 'size'):
                L = 1 << c
                bits = list(F.ibits(x))[:8 * L - 2] + [ONE_F if c & 1 else ZERO_F, ONE_F if c & 2 else ZERO_F]
                return Seq([('e', Int(8, False, tuple(bits[8 * (L - 1 - i):8 * (L - i)]))) for i in range(L)], U8)
        raise SpecErr('too large')

    def cmp(G, s2, v, r):
        q = seqval(E, s2, v)
        if q is None:
            return X.und('encode_var_int: result not resolved')
        X.same(G, q, r, 'varint encoding', 'encode_var_int:bytes', 'wrong encoding', d)
    st = State()
    res = X.run(d, [x], st)
    X.outcome(d, 'encode_var_int', res, None, ref, cmp, 'varint encode_var_int')
    X.C.off = set()
    # every further use of the readers goes through proved summaries
    X.floor(4, 'entry points')


UINTS = (('u8', 1), ('u16', 2), ('u32', 4), ('u64', 8), ('u128', 16))


@prop('C02', 'abstract interpretation of the extracted MIR with bit-provenance against the big-endian definition',
      'Sound over every byte string / id / length for the modelled constructs; loops with a symbolic bound by induction, lengths 0..20 of ids by exhaustive partitioning.')
def c02(X):
    E = X.E
    PR = 'quic_sea::utils::prelude::'
    for t, k in UINTS:
        d = X.fn('<%s as %sDecodeFromBytes>::decode_from_bytes' % (t, PR))
        st = State()
        src = ('D', 'sl', t)
        a, n = slice_arg(E, st, src)
        res = X.run(d, [a], st)

        def ref(F):
            if not need(F, c_le(Lin(k), n), 'len'):
                raise SpecErr('short')
            return be(src, L0, k, 8 * k)

        def cmp(G, s2, v, r):
            X.same(G, v.f[0], r, 'fixed value', d + ':value', '%s from bytes has the wrong value' % t, d)
            X.same_lin(G, v.f[1].lin, Lin(k), 'fixed length', d + ':length', '%s from bytes reports the wrong length' % t, d)
        X.outcome(d, d, res, None, ref, cmp, 'fixed slice ' + t)
        d = X.fn('<%s as %sFromDatagram>::from_datagram' % (t, PR))
        st = State()
        src = ('D', 'st', t)
        s, n = iso_stream(E, st, src)
        res = X.run(d, [s], st)

        def cmp(G, s2, v, r):
            X.same(G, v, r, 'fixed value', d + ':value', '%s from stream has the wrong value' % t, d)
            X.same_lin(G, stream_pos(E, s2, s), Lin(k), 'fixed consumed', d + ':consumed', '%s from stream consumes the wrong number of bytes' % t, d)
        X.outcome(d, d, res, s, ref, cmp, 'fixed stream ' + t)
    # 160 bit id of all 20 bytes
    U160 = adt_of(X, 'U160')
    d = X.fn('<%s as %sFromDatagram>::from_datagram' % (U160, PR))
    id_reader(X, d, 'U160::from_datagram', [], 20)
    d = X.fn(U + 'fixed_len_dcid_from_stream')
    id_reader(X, d, 'fixed_len_dcid_from_stream', [], 8)
    d = X.fn(U + 'var_u160_from_stream')
    w = E.fns[d]['locals'][2]['t']['w']
    X.C.off = {d}
    for k in range(21):
        id_reader(X, d, 'var_u160_from_stream', [iconst(k, w)], k)
    X.C.off = set()
    # var_u32: k bytes, k = 0..4
    d = X.fn(U + 'var_u32_from_stream')
    w = E.fns[d]['locals'][2]['t']['w']
    for k in range(5):
        st = State()
        src = ('D', 'vu32', k)
        s, n = iso_stream(E, st, src)
        res = X.run(d, [s, iconst(k, w)], st)

        def ref(F):
            if not need(F, c_le(Lin(k), n), 'len'):
                raise SpecErr('short')
            return be(src, L0, k, 32) if k else iconst(0, 32)

        def cmp(G, s2, v, r):
            X.same(G, v, r, 'var u32 value', d + ':value', '%d byte integer has the wrong value' % k, d)
            X.same_lin(G, stream_pos(E, s2, s), Lin(k), 'var u32 consumed', d + ':consumed', 'wrong number of bytes consumed', d)
        X.outcome(d, 'var_u32_from_stream', res, s, ref, cmp, 'var u32')
    # byte runs
    d = X.fn(U + 'var_bytes_from_stream')
    st = State()
    src = ('D', 'vb')
    s, n = iso_stream(E, st, src)
    k = sym_of(('k', 'vb'), USZ)
    st.facts = st.facts.assume(c_le(k.lin, Lin((1 << 62) - 1)))
    res = X.run(d, [s, k], st)

    def ref(F):
        if not need(F, c_le(k.lin, n), 'len'):
            raise SpecErr('short')
        return Seq((('s', src, L0, k.lin),), U8)

    def cmp(G, s2, v, r):
        q = seqval(E, s2, v)
        if q is None:
            return X.und('var_bytes_from_stream: result not resolved')
        X.same(G, q, r, 'byte run', d + ':value', 'wrong bytes', d)
        X.same_lin(G, stream_pos(E, s2, s), k.lin, 'byte run consumed', d + ':consumed', 'wrong number of bytes consumed', d)
    X.outcome(d, 'var_bytes_from_stream', res, s, ref, cmp, 'byte run')
    d = X.fn(U + 'all_bytes_from_stream')
    st = State()
    src = ('D', 'ab')
    s, n = iso_stream(E, st, src)
    res = X.run(d, [s], st)

    def cmp(G, s2, v, r):
        q = seqval(E, s2, v)
        if q is None:
            return X.und('all_bytes_from_stream: result not resolved')
        X.same(G, q, r, 'remaining bytes', d + ':value', 'wrong bytes', d)
        X.same_lin(G, stream_pos(E, s2, s), n, 'remaining consumed', d + ':consumed', 'not all bytes consumed', d)
    X.outcome(d, 'all_bytes_from_stream', res, s, lambda F: Seq((('s', src, L0, n),), U8), cmp, 'remaining bytes')
    d = X.fn(U + 'decode_bytes')
    st = State()
    src = ('D', 'db')
    a, n = slice_arg(E, st, src)
    k = sym_of(('k', 'db'), USZ)
    res = X.run(d, [a, k], st)

    def ref(F):
        if not need(F, c_le(k.lin, n), 'len'):
            raise SpecErr('short')
        return Seq((('s', src, L0, k.lin),), U8)

    def cmp(G, s2, v, r):
        X.same(G, seqval(E, s2, v.f[0]), r, 'byte run', d + ':value', 'wrong bytes', d)
        X.same_lin(G, v.f[1].lin, k.lin, 'byte run length', d + ':length', 'wrong length reported', d)
    X.outcome(d, 'decode_bytes', res, None, ref, cmp, 'byte run slice')
    # stream over a buffer yields the buffer
    # ids written
    d = X.fn(U + 'U160::to_bytes')
    hi = Int(32, False, ATOM_BITS[atom_var(('id', 'hi'), 32)])
    lo = Int(128, False, ATOM_BITS[atom_var(('id', 'lo'), 128)])
    bits = list(lo.bits) + list(hi.bits)

    def idbytes(k):
        return Seq([('e', Int(8, False, tuple(bits[8 * (k - 1 - i):8 * (k - i)]))) for i in range(k)], U8)
    st = State()
    r = Ref(E.new_root(st, Adt(U160, 0, (hi, lo))))
    for s2, v in X.run(d, [r], st):
        X.same(s2.facts, seqval(E, s2, v), idbytes(20), 'id bytes', d + ':value', 'wrong bytes', d)
    X.no_panics(d, 'U160::to_bytes')
    d = X.fn(U + 'U160::to_var_bytes')
    X.C.off = {d}
    for k in range(21):
        st = State()
        r = Ref(E.new_root(st, Adt(U160, 0, (hi, lo))))
        for s2, v in X.run(d, [r, usz(k)], st):
            X.same(s2.facts, seqval(E, s2, v), idbytes(k), 'id bytes of length', d + ':value', 'wrong bytes for length %d' % k, d)
        X.no_panics(d, 'U160::to_var_bytes')
    X.C.off = set()
    # id of a 64 bit integer
    d = X.fn('<%s as std::convert::From<u64>>::from' % U160)
    x = sym_of(('x', 'from'), {'k': 'uint', 'w': 64, 'n': 'u64'})
    st = State()
    for s2, v in X.run(d, [x], st):
        X.same(s2.facts, v, Adt(U160, 0, (iconst(0, 32), Int(128, False, tuple(list(x.bits) + [ZERO_F] * 64)))),
               'id from integer', d + ':value', 'wrong id', d)
    # equality of ids is equality of their bytes
    eqs = [f for f in E.fns if f == '<%s as std::cmp::PartialEq>::eq' % U160]
    for d in eqs:
        st = State()
        h2 = Int(32, False, ATOM_BITS[atom_var(('id2', 'hi'), 32)])
        l2 = Int(128, False, ATOM_BITS[atom_var(('id2', 'lo'), 128)])
        r1 = Ref(E.new_root(st, Adt(U160, 0, (hi, lo))))
        r2 = Ref(E.new_root(st, Adt(U160, 0, (h2, l2))))
        want = Bool(c_and(c_eqi(hi, h2), c_eqi(lo, l2)))
        for s2, v in X.run(d, [r1, r2], st):
            X.same(s2.facts, v, want, 'id equality', d + ':value', 'ids compare wrongly', d)
    d = X.fn('quic_sea::quictls::utils::get_connection_id')
    X.floor(24, 'entry points')


def adt_of(X, name):
    c = [d for d in X.E.adts if d.split('::')[-1] == name and d.startswith('quic_sea::')]
    if len(c) != 1:
        raise Missing(name)
    return c[0]


def id_reader(X, d, name, extra, k):
    E = X.E
    st = State()
    src = ('D', 'id', name, k)
    s, n = iso_stream(E, st, src)
    res = X.run(d, [s] + extra, st)

    def ref(F):
        if not need(F, c_le(Lin(k), n), 'len'):
            raise SpecErr('short')
        return Adt(adt_of(X, 'U160'), 0, u160_of(src, L0, k))

    def cmp(G, s2, v, r):
        X.same(G, v, r, 'id value', name + ':value', '%s of %d bytes has the wrong value' % (name, k), d)
        X.same_lin(G, stream_pos(E, s2, s), Lin(k), 'id consumed', name + ':consumed', '%s consumes the wrong number of bytes' % name, d)
    X.outcome(d, name, res, s, ref, cmp, 'id ' + name)
