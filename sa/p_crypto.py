"""C11 initial keys, C12 payload protection, C15 header protection."""
from spec import *
from p_codec import adt_of, seqval, slice_arg
from p_frame import sv
import p_packet
from p_packet import Keys, qk, evs, long_header, short_header, run_simple, fld, PK

PROPS = {}
SE = 'quic_sea::quictls::secrets::Secrets::'
SALT_V1 = bytes.fromhex('38762cf7f55934b34d179ae6a4c80cadccbb7f0a')


def prop(pid, technique, level_note):
    def deco(f):
        PROPS[pid] = {'run': f, 'technique': technique, 'note': level_note}
        return f
    return deco


def cseq(b):
    return Seq([('e', iconst(x, 8)) for x in b], U8)


def label_info(label, n):
    """HkdfLabel structure of RFC 8446 section 7.1 with an empty context"""
    l = b'tls13 ' + label
    return n.to_bytes(2, 'big') + bytes([len(l)]) + l + b'\0'


def expand(F, prk, label, n):
    return Seq((('s', ('#expand', qk(F, prk), qk(F, cseq(label_info(label, n)))), L0, Lin(n)),), U8)


def extract(F, salt, ikm):
    return Seq((('s', ('#extract', qk(F, cseq(salt)), qk(F, ikm)), L0, Lin(32)),), U8)


def nonce(F, iv, pn):
    """12 byte iv XOR the packet number right aligned"""
    pb = F.ibits(pn)
    out = []
    for i in range(12):
        b = F.ibits(seq_get(F, iv, Lin(i)))
        j = 11 - i
        if j < 8:
            b = tuple(x ^ y for x, y in zip(b, pb[8 * j:8 * j + 8]))
        out.append(('e', Int(8, False, tuple(b))))
    return Seq(out, U8)


def secrets_obj(X, E, st, K):
    """arbitrary Secrets value and the unknown secret it was derived from"""
    id = ('anysecret',)
    v = E.mksym(id, {'k': 'adt', 'd': K.adt, 'a': []})
    prk = Seq((('s', ('#secret', id), L0, Lin(32)),), U8)
    return Ref(E.new_root(st, v)), prk


def opt_slice(E, st, src):
    r, n, q = some_slice(E, st, src)
    return Adt(OPT, 1, (r,)), n, q


def some_slice(E, st, src):
    r = slice_arg(E, st, src)
    if isinstance(r, tuple):
        r = r[0]
    q = E.deref_all(st, r)
    return r, seq_len(q), q


def args_for(X, E, st, d, vals):
    """arguments by parameter type, in order: vals maps a kind to a list of values"""
    out = []
    for l in E.fns[d]['locals'][1:E.fns[d]['argc'] + 1]:
        t = l['t']
        if t['k'] == 'ref' and t['e']['k'] == 'slice':
            k = 'slice'
        elif t['k'] == 'ref' and t['e']['k'] == 'adt':
            k = t['e']['d'].split('::')[-1]
        elif t['k'] == 'ref' and t['e']['k'] == 'param':
            k = 'stream'
        elif t['k'] == 'adt':
            k = t['d'].split('::')[-1]
        elif t['k'] in ('uint', 'bool'):
            k = t['k'] + str(t.get('w', ''))
        else:
            k = '?'
        if not vals.get(k):
            raise Missing('%s: parameter of kind %s' % (d, k))
        out.append(vals[k].pop(0))
    return out


# ------------------------------------------------------------------ C12
@prop('C12', 'abstract interpretation of payload encryption and decryption with unknown keys, payload, associated data and packet number; the arguments of every AEAD call are compared with RFC 9001 section 5.3',
      'All payload lengths, packet numbers, keys and associated data at once; the AEAD is an uninterpreted function of its exact arguments.')
def c12(X):
    E = X.E
    with Keys(X) as K:
        if K.d is None:
            raise Missing('Secrets::from_secret')
        seal(X, E, K)
        open_(X, E, K)
        d = X.fn(SE + 'get_protected_payload_len')
        st = State()
        r, prk = secrets_obj(X, E, st, K)
        n = sv('len', 64)
        st = st.assume(c_le(n.lin, Lin(1 << 47)))
        for s2, v in run_simple(X, d, [r, n], st, 'get_protected_payload_len'):
            for F in s2.cases():
                X.same(F, v, Int(64, False, None, n.lin + 16), 'protected length', 'protected_len', 'length of a protected payload', d)
    X.floor(12, 'payload protection obligations')


def check_aead(X, G, e, prk, aad, pn, d, name):
    if e[1] != 'aes_128_gcm':
        X.feasible(G, 'cipher', name + ':cipher', 'payload protected with %s instead of AES-128-GCM' % e[1], d)
    else:
        X.ok('cipher')
    X.same(G, e[2], expand(G, prk, b'quic key', 16), 'key', name + ':key', 'key of %s' % name, d)
    if e[3] is None:
        X.feasible(G, 'nonce', name + ':nonce', 'no nonce is used', d)
    else:
        X.same(G, e[3], nonce(G, expand(G, prk, b'quic iv', 12), pn), 'nonce', name + ':nonce', 'nonce of %s' % name, d)
    X.same(G, e[4], aad, 'associated data', name + ':aad', 'associated data of %s' % name, d)


def seal(X, E, K):
    d = X.fn(SE + 'encrypt_payload')
    st = State()
    r, prk = secrets_obj(X, E, st, K)
    pl, n, q = some_slice(E, st, 'PL')
    ad, m, aad = opt_slice(E, st, 'AD')
    pn = sv('pn', 64)
    st = st.assume(c_le(pn.lin, Lin(V62)))
    res = run_simple(X, d, args_for(X, E, st, d, {'Secrets': [r], 'slice': [pl], 'Option': [ad], 'uint64': [pn]}), st, 'encrypt_payload')
    okn = 0
    for s2, v in res:
        if not (isinstance(v, Adt) and v.d == RES):
            X.und('encrypt_payload: result not resolved')
            continue
        env = any(e[0] == 'envfail' for e in s2.ev)
        for F in s2.cases():
            for e in evs(s2, 'seal'):
                check_aead(X, F, e, prk, aad, pn, d, 'encryption')
                X.same(F, e[5], q, 'plaintext', 'encryption:data', 'encrypted plaintext', d)
                X.same_lin(F, e[6], Lin(16), 'tag length', 'encryption:tag', 'length of the authentication tag', d)
            if v.v == 1:
                if not env:
                    X.feasible(F, 'encryption', 'encryption:rejects', 'encryption fails', d)
                continue
            w = seqval(E, s2, v.f[0])
            se = evs(s2, 'seal')
            if w is None or len(se) != 1:
                if not se:
                    X.feasible(F, 'encryption', 'encryption:none', 'payload is not encrypted', d)
                else:
                    X.und('encrypt_payload: output not resolved')
                continue
            e = se[0]
            k = e[-1]
            ex = Seq((('s', ('#ct',) + k, L0, F.nlin(seq_len(q))), ('s', ('#tag',) + k, L0, Lin(16))), U8)
            X.same(F, w, ex, 'ciphertext', 'encryption:out', 'ciphertext followed by its tag', d)
            okn += 1
    if not okn and not X.viol:
        X.und('encrypt_payload never succeeds')


def open_(X, E, K):
    d = X.fn(SE + 'decrypt_payload')
    st = State()
    r, prk = secrets_obj(X, E, st, K)
    pl, n, q = some_slice(E, st, 'PL')
    ad, m, aad = opt_slice(E, st, 'AD')
    pn = sv('pn', 64)
    st = st.assume(c_le(pn.lin, Lin(V62)))
    res = run_simple(X, d, args_for(X, E, st, d, {'Secrets': [r], 'slice': [pl], 'Option': [ad], 'uint64': [pn]}), st, 'decrypt_payload')

    def ref(F):
        if not need(F, c_le(Lin(16), n), 'tag'):
            raise SpecErr('shorter than the tag')
        return True
    okn = 0
    for s2, v in res:
        if not (isinstance(v, Adt) and v.d == RES):
            X.und('decrypt_payload: result not resolved')
            continue
        for F0 in s2.cases():
            for F, x in X.splits(F0, ref):
                short = isinstance(x, SpecErr)
                if short:
                    if v.v == 0:
                        X.feasible(F, 'short payload', 'decryption:short', 'a payload shorter than the tag is accepted', d)
                    else:
                        X.ok('short payload')
                    continue
                cut = F.nlin(n - 16)
                for e in evs(s2, 'open', 'open.fail'):
                    check_aead(X, F, e, prk, aad, pn, d, 'decryption')
                    X.same(F, e[5], Seq((('s', 'PL', L0, cut),), U8), 'ciphertext', 'decryption:data', 'decrypted ciphertext', d)
                    X.same(F, e[6], Seq((('s', 'PL', cut, Lin(16)),), U8), 'tag', 'decryption:tag', 'verified tag', d)
                for e in evs(s2, 'open.unauthenticated'):
                    X.feasible(F, 'tag', 'decryption:unauth', 'payload decrypted without verifying the tag', d)
                if v.v == 1:
                    if evs(s2, 'open.fail'):
                        X.ok('rejected')
                    else:
                        X.feasible(F, 'decryption', 'decryption:rejects', 'an authentic payload is rejected', d)
                    continue
                op = evs(s2, 'open')
                if not op:
                    X.feasible(F, 'tag', 'decryption:unverified', 'plaintext is returned although the tag was not verified', d)
                    continue
                w = seqval(E, s2, v.f[0])
                if w is None:
                    X.und('decrypt_payload: output not resolved')
                    continue
                e = op[-1]
                k = e[-1]
                X.same(F, w, Seq((('s', ('#pt',) + k, L0, F.nlin(seq_len(e[5]))),), U8), 'plaintext', 'decryption:out', 'returned plaintext', d)
                okn += 1
    if not okn and not X.viol:
        X.und('decrypt_payload never succeeds')


# ------------------------------------------------------------------ C11
@prop('C11', 'abstract interpretation of key derivation from an arbitrary destination connection id; the HKDF calls feeding every cipher key, IV and header protection key are compared with RFC 9001 section 5.2',
      'All connection ids of 0 to 20 bytes and both roles; HKDF-SHA256 is an uninterpreted function of its exact arguments.')
def c11(X):
    E = X.E
    d = X.fn(SE + 'from_initial')
    ver = adt_of(X, 'Version')
    enc, dec, msk = X.fn(SE + 'encrypt_payload'), X.fn(SE + 'decrypt_payload'), X.fn(SE + 'get_header_protection_mask')
    for i, vv in enumerate(E.adts[ver]['v']):
        for server in (False, True):
            st = State()
            cid, n, q = some_slice(E, st, 'CID')
            st = st.assume(c_le(n, Lin(20)))
            vr = Ref(E.new_root(st, Adt(ver, i, ())))
            res = run_simple(X, d, args_for(X, E, st, d, {'bool': [Bool(server)], 'slice': [cid], 'Version': [vr]}), st, 'from_initial')
            good = 0
            for s2, v in res:
                if not (isinstance(v, Adt) and v.d == RES):
                    X.und('from_initial: result not resolved')
                    continue
                for F in s2.cases():
                    if v.v == 1:
                        X.feasible(F, 'initial keys', 'from_initial:rejects', 'no keys are derived for a connection id', d)
                        continue
                    good += 1
                    prk = expand(F, extract(F, SALT_V1, q), b'server in' if server else b'client in', 32)
                    use_keys(X, E, s2, F, v.f[0], prk, enc, dec, msk, 'server' if server else 'client')
            if not good and not X.viol:
                X.und('from_initial never succeeds')
    conn_keys(X, E, ver)
    expand_label(X, E)
    X.floor(30, 'key derivation obligations')


def expand_label(X, E):
    """HKDF-Expand-Label of RFC 8446 section 7.1 for arbitrary secret, label, context and output length"""
    name = 'quic_sea::quictls::cipher_suite::hkdf_expand_label_sha256'
    if name not in E.fns:
        return
    d = name
    st = State()
    sec, ns, qs = some_slice(E, st, 'SEC')
    lab, nl, ql = some_slice(E, st, 'LAB')
    ctx, nc, qc = some_slice(E, st, 'CTX')
    out, no, qo = some_slice(E, st, 'OUT')
    st = st.assume(c_le(Lin(32), ns)).assume(c_le(no, Lin(255 * 32)))
    root = out.root

    def ref(F):
        if not need(F, c_le(nl, Lin(249)), 'label length'):
            raise SpecErr('label too long')
        if not need(F, c_le(nc, Lin(255)), 'context length'):
            raise SpecErr('context too long')
        b = F.ibits(usz(no))
        info = Seq([('e', Int(8, False, tuple(b[8:16]))), ('e', Int(8, False, tuple(b[0:8]))),
                    ('e', Int(8, False, None, F.nlin(nl + 6)))] + w_const(*b'tls13 ') + list(ql.segs)
                   + [('e', Int(8, False, None, F.nlin(nc)))] + list(qc.segs), U8)
        return Seq((('s', ('#expand', qk(F, qs), qk(F, info)), L0, F.nlin(no)),), U8)

    def cmp(G, s2, v, w):
        X.same(G, E.load(s2, Ref(root)), w, 'label format', 'label', 'output of HKDF-Expand-Label', d)
    X.outcome(d, 'hkdf_expand_label', X.run(d, [sec, lab, ctx, out], st), None, ref, cmp, 'label format')


def use_keys(X, E, s2, F, sec, prk, enc, dec, msk, who):
    """what a Secrets value encrypts, decrypts and masks with"""
    sx = s2.copy()
    sx.facts, sx.alts, sx.ev = F, None, ()
    r = Ref(E.new_root(sx, sec))
    pl, n, q = some_slice(E, sx, 'PL')
    ad, m, aad = opt_slice(E, sx, 'AD')
    sx = sx.assume(c_le(Lin(16), n))
    for d, kinds in ((enc, ('seal',)), (dec, ('open', 'open.fail'))):
        got = 0
        for s3, v in X.run(d, args_for(X, E, sx, d, {'Secrets': [r], 'slice': [pl], 'Option': [ad], 'uint64': [iconst(0, 64)]}), sx):
            for e in evs(s3, *kinds):
                got += 1
                for G in s3.cases():
                    X.same(G, e[2], expand(G, prk, b'quic key', 16), 'key', '%s:key:%s' % (who, kinds[0]), 'packet protection key of the %s' % who, d)
                    if e[3] is not None:
                        X.same(G, e[3], nonce(G, expand(G, prk, b'quic iv', 12), iconst(0, 64)), 'iv', '%s:iv:%s' % (who, kinds[0]), 'IV of the %s' % who, d)
        if not got:
            X.und('%s makes no cipher call' % d)
    q = E.new_root(sx, Seq((('s', 'SM', L0, Lin(16)),), U8))
    s = Ref(E.new_root(sx, Adt('@Stream', 0, (Ref(q, (), (L0, Lin(16))), usz(0), usz(16)))))
    got = 0
    for s3, v in X.run(msk, [r, s], sx):
        for e in evs(s3, 'cipher'):
            got += 1
            for G in s3.cases():
                X.same(G, e[2], expand(G, prk, b'quic hp', 16), 'header protection key', '%s:hp' % who, 'header protection key of the %s' % who, msk)
    if not got:
        X.und('no header protection mask is computed')


def find_secrets(E, v, K, path=()):
    """(path, value) of every Secrets inside a value"""
    if isinstance(v, Adt):
        if v.d == K:
            return [(path, v)]
        out = []
        fs = E.adts[v.d]['v'][v.v]['f'] if v.d in E.adts and E.adts[v.d]['v'] else None
        for i, x in enumerate(v.f):
            nm = fs[i]['n'] if fs and i < len(fs) else str(i)
            out += find_secrets(E, x, K, path + (nm,))
        return out
    if isinstance(v, Seq) and len(v.segs) <= 8:
        return [y for i, g in enumerate(v.segs) if g[0] == 'e' for y in find_secrets(E, g[1], K, path + (i,))]
    return []


def conn_keys(X, E, ver):
    """Connection::new derives the keys from exactly the bytes of the destination id"""
    d = X.fn('quic_sea::connection::Connection::new')
    enc, dec, msk = X.fn(SE + 'encrypt_payload'), X.fn(SE + 'decrypt_payload'), X.fn(SE + 'get_header_protection_mask')
    U = adt_of(X, 'U160')
    K = adt_of(X, 'Secrets')
    for k in (0, 1, 4, 8, 15, 16, 17, 20):
        st = State()
        idv = (sv('dhi', 32), sv('dlo', 128))
        res = run_simple(X, d, [Bool(True), Adt(ver, 0, ()), Adt(U, 0, idv), usz(k)], st, 'Connection::new')
        for s2, v in res:
            if not (isinstance(v, Adt) and v.d == RES):
                X.und('Connection::new: result not resolved')
                continue
            for F in s2.cases():
                if v.v == 1:
                    X.feasible(F, 'connection', 'Connection::new:rejects', 'no connection is created for a valid id', d)
                    continue
                sec = find_secrets(E, v.f[0], K)
                ikm = Seq(p_packet.id_bytes(idv, k), U8)
                init = extract(F, SALT_V1, ikm)
                labels = set()
                for path, x in sec:
                    for lab in (b'server in', b'client in'):
                        if holds_key(X, E, s2, F, x, expand(F, init, lab, 32), enc):
                            labels.add(lab)
                            X.ok('connection keys: %s' % lab.decode())
                            break
                    else:
                        # report against the label the values are nearest to
                        use_keys(X, E, s2, F, x, expand(F, init, b'server in' if 'local' in ''.join(map(str, path)) else b'client in', 32), enc, dec, msk, 'connection')
                if len(labels) < 2 and not X.viol:
                    X.und('Connection::new: client and server keys not both found')


def holds_key(X, E, s2, F, sec, prk, enc):
    sx = s2.copy()
    sx.facts, sx.alts, sx.ev = F, None, ()
    r = Ref(E.new_root(sx, sec))
    pl, n, q = some_slice(E, sx, 'PL')
    ad, m, aad = opt_slice(E, sx, 'AD')
    okk = False
    for s3, v in X.run(enc, args_for(X, E, sx, enc, {'Secrets': [r], 'slice': [pl], 'Option': [ad], 'uint64': [iconst(0, 64)]}), sx):
        for e in evs(s3, 'seal'):
            for G in s3.cases():
                if eqv(G, e[2], expand(G, prk, b'quic key', 16)) is not True:
                    return False
                okk = True
    return okk


# ------------------------------------------------------------------ C15
@prop('C15', 'abstract interpretation of mask computation and of applying and removing header protection on arbitrary headers, masks and packet number bytes, compared at bit level with RFC 9001 section 5.4',
      'All headers, masks, samples and packet number lengths; AES is an uninterpreted function of its exact arguments.')
def c15(X):
    E = X.E
    mk = Seq([('e', sv('m%d' % i, 8)) for i in range(5)], U8)
    for owner, low, mkh in (('LongPacketHeader', 4, long_header), ('ShortPacketHeader', 5, short_header)):
        for op, want in (('remove_protection', True), ('add_protection', False)):
            d = X.fn(PK + owner + '::' + op)
            for prot in (True, False):
                st = State()
                hv, f = mkh(X, E, st, prot=Bool(prot))
                r = Ref(E.new_root(st, hv))
                m = Ref(E.new_root(st, mk))
                for s2, v in run_simple(X, d, [r, m], st, owner + '::' + op):
                    x = E.load(s2, r)
                    for F in s2.cases():
                        hb = F.ibits(f['header_byte'])
                        mb = F.ibits(sv('m0', 8))
                        nb = Int(8, False, tuple(a ^ b if i < low and prot == want else a for i, (a, b) in enumerate(zip(hb, mb))))
                        done = dict(zip([z['n'] for z in E.adts[x.d]['v'][0]['f']], x.f))
                        old = dict(zip([z['n'] for z in E.adts[x.d]['v'][0]['f']], hv.f))
                        for kf, val in done.items():
                            w = nb if kf == 'header_byte' else Bool(not want) if kf == 'is_protected' and prot == want else old[kf]
                            X.same(F, val, w, 'header protection: %s' % kf, '%s::%s:%s' % (owner, op, kf), '%s after %s on a%s header' % (
                                kf, op, ' protected' if prot else 'n unprotected'), d)
    d = X.fn(PK + 'xor_pn_protection')
    for k in range(0, 7):
        st = State()
        q = Seq([('e', sv('p%d' % i, 8)) for i in range(k)], U8)
        root = E.new_root(st, q)
        m = Ref(E.new_root(st, mk))
        for s2, v in run_simple(X, d, [Ref(root, (), (L0, Lin(k))), m], st, 'xor_pn_protection'):
            if not (isinstance(v, Adt) and v.d == RES):
                X.und('xor_pn_protection: result not resolved')
                continue
            for F in s2.cases():
                if (v.v == 1) != (k > 4):
                    X.feasible(F, 'packet number', 'xor_pn:%s' % (k > 4), '%d packet number bytes are %s' % (k, 'accepted' if k > 4 else 'refused'), d)
                    continue
                if v.v == 1:
                    X.ok('packet number: refused')
                    continue
                w = Seq([('e', Int(8, False, tuple(a ^ b for a, b in zip(F.ibits(sv('p%d' % i, 8)), F.ibits(sv('m%d' % (i + 1), 8)))))) for i in range(k)], U8)
                X.same(F, E.load(s2, Ref(root)), w, 'packet number', 'xor_pn:bytes', 'masked packet number bytes', d)
    with Keys(X) as K:
        if K.d is None:
            raise Missing('Secrets::from_secret')
        d = X.fn(SE + 'get_header_protection_mask')
        st = State()
        r, prk = secrets_obj(X, E, st, K)
        s, n = iso_stream(E, st, 'SM')
        res = X.run(d, [r, s], st)

        def ref(F):
            if not need(F, c_le(Lin(16), n), 'sample'):
                raise SpecErr('short sample')
            return True

        def cmp(G, s2, v, _):
            ci = evs(s2, 'cipher')
            if len(ci) != 1:
                return X.und('mask computed by %d cipher calls' % len(ci))
            e = ci[0]
            if e[1] != 'aes_128_ecb':
                X.feasible(G, 'mask', 'mask:cipher', 'mask computed with %s' % e[1], d)
            key, sample = expand(G, prk, b'quic hp', 16), Seq((('s', 'SM', L0, Lin(16)),), U8)
            X.same(G, e[2], key, 'mask: key', 'mask:key', 'header protection key', d)
            X.same(G, e[3], sample, 'mask: sample', 'mask:sample', 'header protection sample', d)
            q = seqval(E, s2, v)
            if q is None:
                return X.und('mask not resolved')
            X.same(G, q, Seq((('s', ('#enc',) + e[-1], L0, Lin(5)),), U8), 'mask: bytes', 'mask:bytes', 'mask bytes', d)
        X.outcome(d, 'get_header_protection_mask', res, None, ref, cmp, 'mask')
    X.floor(60, 'header protection obligations')
