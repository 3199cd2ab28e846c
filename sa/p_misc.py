"""C19 transport parameters, C20 error codes."""
from spec import *
from p_codec import adt_of, seqval
from p_frame import sv
from p_packet import run_simple

PROPS = {}


def prop(pid, technique, level_note):
    def deco(f):
        PROPS[pid] = {'run': f, 'technique': technique, 'note': level_note}
        return f
    return deco


# RFC 9000 section 18.2: name -> (identifier, form)
PARAMS = {
    'OriginalDestinationConnectionId': (0x00, 'bytes'), 'MaxIdleTimeout': (0x01, 'varint'), 'StatelessResetToken': (0x02, 'token'),
    'MaxUdpPayloadSize': (0x03, 'varint'), 'InitialMaxData': (0x04, 'varint'), 'InitialMaxStreamDataBidiLocal': (0x05, 'varint'),
    'InitialMaxStreamDataBidiRemote': (0x06, 'varint'), 'InitialMaxStreamDataUni': (0x07, 'varint'), 'InitialMaxStreamsBidi': (0x08, 'varint'),
    'InitialMaxStreamsUni': (0x09, 'varint'), 'AckDelayExponent': (0x0a, 'varint'), 'MaxAckDelay': (0x0b, 'varint'),
    'DisableActiveMigration': (0x0c, 'empty'), 'PreferredAddress': (0x0d, 'address'), 'ActiveConnectionIdLimit': (0x0e, 'varint'),
    'InitialSourceConnectionId': (0x0f, 'bytes'), 'RetrySourceConnectionId': (0x10, 'bytes')}


@prop('C19', 'abstract interpretation of the transport parameter serialiser for every parameter with an arbitrary value, compared with the RFC 9000 section 18.2 encoding',
      'All parameter kinds; all integer values, byte strings and addresses at once.')
def c19(X):
    E = X.E
    TP = adt_of(X, 'TransportParameter')
    PA = adt_of(X, 'PreferredAddress')
    d = X.fn('quic_sea::transport_parameters::TransportParameter::serialize')
    did = 'quic_sea::transport_parameters::TransportParameter::identifier_val'
    names = [v['n'] for v in E.adts[TP]['v']]
    for i, nm in enumerate(names):
        if nm not in PARAMS:
            X.und('unknown transport parameter %s' % nm)
            continue
        ident, form = PARAMS[nm]
        st = State()
        val, want = None, None
        if form == 'bytes':
            n = lin_atom(atom_var(('tp', 'len'), 64, 0, 1 << 40))
            val = Seq((('s', 'TP', L0, n),), U8)
            want = lambda F, val=val: list(val.segs)
        elif form == 'varint':
            val = sv('tpv', 64)

            def want(F, val=val):
                if not need(F, c_le(val.lin, Lin(V62)), 'varint'):
                    raise SpecErr('value too large')
                return w_varint(F, val)
        elif form == 'token':
            val = Seq((('s', 'TP', L0, Lin(16)),), U8)
            want = lambda F, val=val: list(val.segs)
        elif form == 'empty':
            want = lambda F: []
        else:
            f = E.adts[PA]['v'][0]['f']
            n = lin_atom(atom_var(('tpcid', 'len'), 64, 0, 20))
            vals = {'ipv4_address': E.mksym(('a4',), ft(f, 'ipv4_address')), 'ipv4_port': sv('p4', 16), 'ipv6_address': E.mksym(('a6',), ft(f, 'ipv6_address')),
                    'ipv6_port': sv('p6', 16), 'connection_id': Seq((('s', 'CID', L0, n),), U8), 'stateless_reset_token': Seq((('s', 'TOK', L0, Lin(16)),), U8)}
            if any(x['n'] not in vals for x in f) or len(f) != 6:
                X.und('fields of PreferredAddress are not the known ones')
                continue
            val = Adt(PA, 0, [vals[x['n']] for x in f])
            o4, o6 = octets(X, vals['ipv4_address'], 4), octets(X, vals['ipv6_address'], 16)

            def want(F, n=n, vals=vals, o4=o4, o6=o6):
                return (list(o4.segs) + w_uint(F, vals['ipv4_port'], 2) + list(o6.segs) + w_uint(F, vals['ipv6_port'], 2)
                        + [('e', Int(8, False, None, F.nlin(n)))] + list(vals['connection_id'].segs) + list(vals['stateless_reset_token'].segs))

        def ref(F, want=want, ident=ident):
            v = want(F)
            n = F.nlin(seq_len(Seq(v, U8)))
            return Seq(w_varint(F, iconst(ident, 64)) + w_varint(F, usz(n)) + v, U8)
        nf = len(E.adts[TP]['v'][i]['f'])
        if (val is None) != (nf == 0) or nf > 1:
            X.und('%s does not carry the known value' % nm)
            continue
        r = Ref(E.new_root(st, Adt(TP, i, (val,) if val is not None else ())))

        def cmp(G, s2, v, w, nm=nm):
            q = seqval(E, s2, v)
            if q is None:
                return X.und('%s: bytes not resolved' % nm)
            X.same(G, q, w, 'transport parameter: %s' % nm, 'tp:%s' % nm, 'encoding of %s' % nm, d)
        X.outcome(d, nm, X.run(d, [r], st), None, ref, cmp, 'transport parameter')
        if did in E.fns:
            for s2, v in run_simple(X, did, [r], st, 'identifier_val'):
                for F in s2.cases():
                    X.same(F, v, iconst(ident, 64), 'identifier', 'id:%s' % nm, 'identifier of %s' % nm, did)
    X.floor(17, 'transport parameters')


def ft(fs, n):
    return next((x['t'] for x in fs if x['n'] == n), {'k': 'never'})


def octets(X, addr, n):
    """octets of an IP address, as the library model names them"""
    return Seq((('s', ('#octets', getattr(addr, 'id', None)), L0, Lin(n)),), U8)


# RFC 9000 section 20.1
CODES = {'NoError': 0x00, 'InternalError': 0x01, 'ConnectionRefused': 0x02, 'FlowControlError': 0x03, 'StreamLimitError': 0x04,
         'StreamStateError': 0x05, 'FinalSizeError': 0x06, 'FrameEncodingError': 0x07, 'TransportParameterError': 0x08,
         'ConnectionIdLimitError': 0x09, 'ProtocolViolation': 0x0a, 'InvalidToken': 0x0b, 'ApplicationError': 0x0c,
         'CryptoBufferExceeded': 0x0d, 'KeyUpdateError': 0x0e, 'AeadLimitReached': 0x0f, 'NoViablePath': 0x10}


@prop('C20', 'abstract interpretation of the error code function for every error kind, compared with the RFC 9000 section 20.1 registry',
      'Every kind, exhaustively.')
def c20(X):
    E = X.E
    EA = adt_of(X, 'Error')
    d = X.fn('quic_sea::error::Error::to_error_byte')
    for i, vv in enumerate(E.adts[EA]['v']):
        nm = vv['n']
        st = State()
        r = Ref(E.new_root(st, Adt(EA, i, [E.mksym(('err', nm, j), f['t']) for j, f in enumerate(vv['f'])])))
        for s2, v in run_simple(X, d, [r], st, 'to_error_byte'):
            for F in s2.cases():
                if nm not in CODES:
                    # a new kind may not reuse a registered code
                    if isinstance(v, Int) and F.nint(v).const() is not None and F.nint(v).const() in [CODES[x['n']] for x in E.adts[EA]['v'] if x['n'] in CODES]:
                        X.feasible(F, 'error code', 'code:%s' % nm, '%s reports code %#x of another kind' % (nm, F.nint(v).const()), d)
                    else:
                        X.ok('error code: new kind')
                    continue
                w = Int(v.w, False, None, Lin(CODES[nm])) if isinstance(v, Int) else iconst(CODES[nm], 8)
                X.same(F, v, w, 'error code: %s' % nm, 'code:%s' % nm, 'code of %s' % nm, d)
    X.floor(17, 'error codes')
