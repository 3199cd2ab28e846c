"""C16 routing, C17 registration, C18 locking, C21 logging, C23 receiving."""
from spec import *
from p_codec import adt_of, seqval
from p_frame import fields, sv
from p_packet import R as _R, ref_header, evs, PK
from p_conn import callees
import lib

PROPS = {}
RT = 'quic_sea::routing::InternalQuicSocket::'


def prop(pid, technique, level_note):
    def deco(f):
        PROPS[pid] = {'run': f, 'technique': technique, 'note': level_note}
        return f
    return deco


# ------------------------------------------------------------------ the shared socket
class Sock:
    """an arbitrary socket object and the lock protected parts of it"""

    def __init__(self, X):
        self.X, self.E = X, X.E
        E = X.E
        self.ty = adt_of(X, 'InternalQuicSocket')
        self.dg = adt_of(X, 'InternalDatagram')
        self.u160 = adt_of(X, 'U160')
        self.map_i = self.flag_i = None
        for i, f in enumerate(E.adts[self.ty]['v'][0]['f']):
            t = f['t']
            if t['k'] == 'adt' and t['d'].startswith('std::sync::') and t['a']:
                if t['a'][0]['k'] == 'adt' and t['a'][0]['d'].endswith('HashMap'):
                    self.map_i = i
                if t['a'][0]['k'] == 'bool':
                    self.flag_i = i
        self.fs = [f['n'] for f in E.adts[self.ty]['v'][0]['f']]

    def ref(self):
        self.E.symroots['SOCK'] = {'k': 'adt', 'd': self.ty, 'a': []}
        return Ref(('S', 'SOCK'))

    def part(self, st, i):
        return self.E.read(st, ('S', 'SOCK'), (('f', i), ('f', 0)))

    def map(self, st):
        if self.map_i is None:
            return None
        v = self.part(st, self.map_i)
        return lib.av(self.E, st, v)

    def map_id(self, st):
        m = self.map(st)
        return m.f[0].k if isinstance(m, Adt) and m.d == '@HM' else None

    def flag(self, st):
        return self.part(st, self.flag_i) if self.flag_i is not None else None

    def has(self, F, idv, hi, lo):
        return ('atom', ('#has', idv, self.key(F, hi, lo)))

    def key(self, F, hi, lo):
        return (self.u160, 0, F.nint(hi).lin, F.nint(lo).lin)

    def datagram(self, src, n):
        a = self.E.adts[self.dg]['v'][0]['f']
        vals = {'data': Seq((('s', src, L0, n),), U8), 'addr': Opq('addr', src)}
        if sorted(f['n'] for f in a) != ['addr', 'data']:
            raise Missing('InternalDatagram{data, addr}')
        return Adt(self.dg, 0, [vals[f['n']] for f in a])


def flat_ev(ev):
    """events, including those of summarised loop iterations"""
    for e in ev:
        if e[0] == '#loop':
            for alt in e[2]:
                yield from flat_ev(alt)
        else:
            yield e


def last_iter(ev):
    """events after the last summarised loop"""
    k = 0
    for i, e in enumerate(ev):
        if e[0] == '#loop':
            k = i + 1
    return ev[k:]


def iterations(X, E, d, res):
    """[(events, state, result or None)]: every iteration of the receive loop, and every exit with the events of its last iteration"""
    out = []
    for fn, n, b, uid in E.backs:
        if any(e[0] in ('recv', 'recv.err') for e in flat_ev(b.ev[n:])):
            out.append((b.ev[n:], b, None))
    for s2, v in res:
        ev = last_iter(s2.ev)
        # unrolled iterations: everything before the last receive is an iteration of its own
        cut = [i for i, e in enumerate(ev) if e[0] in ('recv', 'recv.err')]
        for j in range(len(cut) - 1):
            out.append((ev[cut[j]:cut[j + 1]], s2, None))
        out.append((ev[cut[-1]:] if cut else ev, s2, v))
    return out


def result(X, v, what):
    if not (isinstance(v, Adt) and v.d == RES):
        X.und('%s: result not resolved' % what)
        return False
    return True


# ------------------------------------------------------------------ C23
@prop('C23', 'abstract interpretation of the receive step: provenance of the bytes handed on, buffer capacity at the receive call, and propagation of errors, on every path',
      'Every datagram size and content at once; every path through the receive step and the accept loop.')
def c23(X):
    bounded(X, lambda k: c23_run(X, k), (0, 1, 2, 3, 1203))
    X.floor(15, 'receive paths')


def cut_header(E, st, args, stack, site):
    """the header does not matter for what is received"""
    c = ('atom', ('#hdr', len(st.ev)))
    if need(st.facts, c, 'header'):
        return [(st, err(Opq('hdr')))]
    E.nfid += 1
    d = PK + 'next_header_from_stream'
    return [(st, ok(E.mksym(('#hdr', E.nfid), contracts.res_of(E.fns[d]['locals'][0]['t']))))]


def c23_run(X, size):
    E = X.E
    S = Sock(X)
    E.hooks['rxlen'] = size
    E.cuts = {PK + 'next_header_from_stream': cut_header} if PK + 'next_header_from_stream' in E.fns else {}
    try:
        c23_all(X, E, S)
    finally:
        E.hooks.pop('rxlen', None)
        E.cuts = {}


def c23_all(X, E, S):
    for name in ('recv_datagram', 'recv_new_initial_datagram'):
        d = X.fn(RT + name)
        st = State()
        res = X.run(d, [S.ref()], st)
        for s2, v in res:
            if not result(X, v, name):
                continue
            # what the last receive call delivered
            got = None
            for e in last_iter(s2.ev):
                if e[0] in ('recv', 'peek'):
                    got = e
                elif e[0] == 'recv.err':
                    got = e
            if got is None:
                got = next((e for e in reversed(list(flat_ev(s2.ev))) if e[0] in ('recv', 'recv.err', 'peek')), None)
            for F in s2.cases():
                if got is None:
                    X.feasible(F, 'receive', '%s:none' % name, '%s returns without a datagram having been received' % name, d)
                elif got[0] == 'recv.err':
                    if v.v == 1:
                        X.ok('receive: error returned')
                    else:
                        X.feasible(F, 'receive', '%s:swallow' % name, '%s reports success although receiving failed' % name, got[1])
                elif got[0] == 'peek':
                    X.feasible(F, 'receive', '%s:peek' % name, 'a datagram is looked at but left in the socket', got[4])
                elif v.v == 1:
                    X.feasible(F, 'receive', '%s:lost' % name, '%s fails although a datagram was received: the datagram is lost' % name, got[4])
                else:
                    w = S.datagram(got[1], got[3])
                    q = seqval(E, s2, fields(E, v.f[0])['data']) if isinstance(v.f[0], Adt) and v.f[0].d == S.dg else None
                    if q is not None and F.eq0(seq_len(q) - got[3]) is not True:
                        X.same_lin(F, seq_len(q), got[3], 'receive: length', '%s:data' % name, 'length of the datagram handed on by %s' % name, d)
                        continue
                    X.same(F, v.f[0], w, 'receive: datagram', '%s:data' % name, 'datagram handed on by %s' % name, d)
            if name == 'recv_datagram':
                n = sum(1 for e in flat_ev(s2.ev) if e[0] in ('recv', 'recv.err'))
                if n > 1:
                    lost = next(e for e in flat_ev(s2.ev) if e[0] in ('recv', 'recv.err'))
                    for F in s2.cases():
                        X.feasible(F, 'receive', 'recv_datagram:skip', 'a receive result is discarded within one receive step', lost[4] if lost[0] == 'recv' else lost[1])
        seen = set()
        for s2 in [s for s, _ in res] + [b for _, _, b, _ in E.backs]:
            for e in flat_ev(s2.ev):
                if e[0] == 'recv' and e[4] not in seen:
                    seen.add(e[4])
                    X.holds(s2.facts if not wit.facts_imprecise(s2.facts) else State().facts, c_le(Lin(65527), e[2]), 'receive: capacity', '%s:cap' % name,
                            'the receive buffer holds %s bytes: longer datagrams are truncated' % (e[2],), e[4])
        if not seen:
            X.und('%s: no receive call found' % name)
        # an iteration that failed to receive must not go on
        for ev, s2, v in iterations(X, E, d, res):
            if v is None and ev and any(e[0] == 'recv.err' for e in flat_ev(ev)):
                for F in s2.cases():
                    X.feasible(F, 'receive', '%s:retry' % name, 'an error of the socket is not returned', d)
        X.no_panics(d, name)


# ------------------------------------------------------------------ C16
def named(F, S, idv, src, n):
    """(header, key, registered?) of a datagram; raises SpecErr when it does not parse"""
    h = ref_header(src, n)(F)
    if h['type'] == 'VersionNegotiation':
        dl = F.nlin(h['destination_connection_id_length'].lin)
        if not need(F, c_le(dl, Lin(20)), 'version negotiation id'):
            return h, None, False
        hi, lo = _R(F, src, Lin(6), n).u160(h['destination_connection_id_length'])
    else:
        hi, lo = h['destination_connection_id']
    k = S.key(F, hi, lo)
    c = ('atom', ('#has', idv, k))
    return h, k, need(F, c, 'registered')


def sent_to(e):
    """key of the table entry a send event goes to"""
    id = e[1]
    while isinstance(id, tuple) and id:
        if id[0] == '#ent':
            return id[2]
        id = id[1] if len(id) > 1 else None
    return None


def keyval(S, k):
    """table key as a value"""
    if isinstance(k, tuple) and len(k) == 4 and isinstance(k[2], Lin) and isinstance(k[3], Lin):
        return Adt(S.u160, 0, (Int(32, False, None, k[2]), Int(128, False, None, k[3])))
    return None


def deliveries(X, S, G, ev, k, src, n, name, d, must):
    """sends of one datagram: exactly one, whole, to the entry of key k (must) or none at all"""
    sends = [e for e in flat_ev(ev) if e[0] == 'send']
    if not must:
        if not sends:
            X.ok('routing: not delivered')
        else:
            X.feasible(G, 'routing', '%s:wrongly' % name, 'a datagram for no registered connection is handed to a connection', sends[0][3])
        return
    if len(sends) != 1:
        return X.feasible(G, 'routing', '%s:count%d' % (name, len(sends)), 'a datagram for a registered connection is handed on %d times' % len(sends), d)
    e = sends[0]
    got = keyval(S, sent_to(e))
    if got is None:
        return X.und('%s: receiver of the datagram not resolved: %r' % (name, e[1]))
    X.same(G, got, keyval(S, k), 'routing: connection', '%s:to' % name, 'connection the datagram is handed to', e[3])
    X.same(G, e[2], S.datagram(src, n), 'routing: datagram', '%s:what' % name, 'datagram handed to the connection', e[3])


@prop('C16', 'abstract interpretation of the receive loop, the router, the packet entry point and accept on an arbitrary connection table: every path compared with the routing rule evaluated on the reference header',
      'All datagrams and all sets of registered connections at once; one generic iteration of the receive loop (induction).')
def c16(X):
    E = X.E
    S = Sock(X)
    st0 = State()
    S.ref()
    idv = S.map_id(st0)
    if idv is None:
        return X.und('connection table not found')
    route(X, E, S, idv)
    packets(X, E, S, idv)
    loop(X, E, S, idv)
    attempt(X, E, S, idv)
    X.floor(40, 'routing paths')


def route(X, E, S, idv):
    d = X.fn(RT + 'route_datagram')
    st = State()
    src, n = 'DG', lin_atom(atom_var(('DG', 'len'), 64, 0, 65535))
    res = X.run(d, [S.ref(), S.datagram(src, n)], st)
    for s2, v in res:
        if not result(X, v, 'route_datagram'):
            continue
        for F in s2.cases():
            for G, r in X.splits(F, lambda G: named(G, S, idv, src, n)):
                if isinstance(r, SpecErr):
                    deliveries(X, S, G, s2.ev, None, src, n, 'route', d, False)
                elif r[1] is None:
                    X.ok('routing: id too long to be registered')
                    continue
                else:
                    deliveries(X, S, G, s2.ev, r[1], src, n, 'route', d, r[2])
                if (isinstance(r, SpecErr) or not r[2]) and v.v == 0:
                    X.feasible(G, 'routing', 'route:silent', 'a datagram that cannot be delivered is not reported', d)
                elif v.v == 1 and not isinstance(r, SpecErr) and r[2] and not any(c[0] == '#chan' and x is False for c, x in G.cond.items() if isinstance(c, tuple) and c):
                    X.feasible(G, 'routing', 'route:err', 'delivering to a registered connection is reported as an error', d)
    X.no_panics(d, 'route')


DCUT = [None]


def cut_decode(E, st, args, stack, site):
    """decode_packets: recorded; some packets or an error"""
    v = contracts.view(E, st, args[0])
    r, _ = E.last_ref(st, args[1])
    if v is None:
        return None
    _, x, src, off = v
    F = st.facts
    st.event('decode', r, src, F.nlin(off + x.f[1].lin), F.nlin(off + x.f[2].lin), site)
    c = ('atom', ('#undecodable', src))
    t = contracts.res_of(E.fns[DCUT[0]]['locals'][0]['t'])
    if need(F, c, 'decode'):
        return [(st, err(Opq('perr')))]
    return [(st, ok(E.mksym(('#packets', src), t)))]


def packets(X, E, S, idv):
    d = X.fn(RT + 'packets_from_datagram')
    DCUT[0] = X.fn(PK + 'decode_packets')
    st = State()
    src, n = 'DG', lin_atom(atom_var(('DG', 'len'), 64, 0, 65535))
    arg = S.datagram(src, n)
    if E.fns[d]['locals'][2]['t']['k'] == 'ref':
        arg = Ref(E.new_root(st, arg))
    E.cuts = {DCUT[0]: cut_decode}
    try:
        res = X.run(d, [S.ref(), arg], st)
    finally:
        E.cuts = {}
    bad = ('atom', ('#undecodable', src))
    for s2, v in res:
        if not result(X, v, 'packets_from_datagram'):
            continue
        for F in s2.cases():
            for G, r in X.splits(F, lambda G: named(G, S, idv, src, n)):
                de = [e for e in flat_ev(s2.ev) if e[0] == 'decode']
                if isinstance(r, SpecErr) or not r[2]:
                    if not isinstance(r, SpecErr) and r[1] is None:
                        X.ok('packets: id too long to be registered')
                    elif de or v.v == 0:
                        X.feasible(G, 'packets', 'packets:unknown', 'packets of a datagram for no registered connection are decoded', de[0][5] if de else d)
                    else:
                        X.ok('packets: rejected')
                    continue
                if not de:
                    X.feasible(G, 'packets', 'packets:refused', 'packets of a datagram for a registered connection are not decoded', d)
                    continue
                for e in de:
                    root = e[1].root
                    k = sent_to((None, root[1])) if root[0] == 'S' else None
                    got = keyval(S, k)
                    if got is None:
                        X.und('packets_from_datagram: connection not resolved')
                        continue
                    X.same(G, got, keyval(S, r[1]), 'packets: connection', 'packets:conn', 'connection whose keys decode the packets', e[5])
                    X.same(G, Seq((('s', e[2], e[3], G.nlin(e[4] - e[3])),), U8), S.datagram(src, n).f[[f['n'] for f in E.adts[S.dg]['v'][0]['f']].index('data')],
                           'packets: bytes', 'packets:bytes', 'bytes the packets are decoded from', e[5])
                if v.v == 0:
                    if need0(G, bad) is True:
                        X.feasible(G, 'packets', 'packets:hide', 'a decoding error is reported as success', d)
                    elif isinstance(v.f[0], Seq) or isinstance(v.f[0], Sym):
                        X.same(G, v.f[0], E.mksym(('#packets', src), contracts.res_of(E.fns[DCUT[0]]['locals'][0]['t'])), 'packets: result', 'packets:result', 'packets returned', d)
                    else:
                        X.und('packets_from_datagram: result not resolved')
                elif need0(G, bad) is True:
                    X.ok('packets: error returned')
                else:
                    X.feasible(G, 'packets', 'packets:err', 'decoded packets are not returned', d)
    X.no_panics(d, 'packets')


def need0(F, c):
    return F.dec(c)


def loop(X, E, S, idv):
    name = 'recv_new_initial_datagram'
    d = X.fn(RT + name)
    st = State()
    res = X.run(d, [S.ref()], st)
    for ev, s2, v in iterations(X, E, d, res):
        if v is not None and not result(X, v, name):
            continue
        if any(e[0] == 'recv.err' for e in ev):
            continue        # C23
        rx = [e for e in ev if e[0] == 'recv']
        if len(rx) != 1:
            X.und('%s: an iteration with %d receive calls' % (name, len(rx)))
            continue
        src, n = rx[0][1], rx[0][3]
        for F in s2.cases():
            for G, r in X.splits(F, lambda G: named(G, S, idv, src, n)):
                ret = v is not None and v.v == 0
                if isinstance(r, SpecErr):
                    deliveries(X, S, G, ev, None, src, n, 'recv', d, False)
                    want = False
                elif r[1] is None:
                    want = False
                else:
                    deliveries(X, S, G, ev, r[1], src, n, 'recv', d, r[2])
                    want = not r[2] and r[0]['type'] == 'Initial'
                if v is not None and v.v == 1:
                    X.feasible(G, 'new attempt', 'recv:stop', 'receiving stops because of a datagram', d)
                elif ret and not want:
                    X.feasible(G, 'new attempt', 'recv:offer', 'offered as a new connection: %s' % (
                        'a datagram without a valid header' if isinstance(r, SpecErr) else 'a datagram of a registered connection' if r[2] else 'a datagram starting with a %s packet' % r[0]['type']), d)
                elif want and not ret:
                    X.feasible(G, 'new attempt', 'recv:ignored', 'an Initial datagram for no registered connection is not offered as a new connection', d)
                else:
                    X.ok('new attempt: %s' % ('offered' if ret else 'not offered'))
                    if ret:
                        X.same(G, v.f[0], S.datagram(src, n), 'new attempt: datagram', 'recv:datagram', 'datagram offered as a new connection', d)
    X.no_panics(d, 'recv')


# -- accept
RCUT = [None]


def cut_recv(S):
    def cut(E, st, args, stack, site):
        """the next connection attempt: an Initial datagram for no registered connection"""
        s2 = st.copy()
        s2.event('recv.err', site)
        src, n = 'NEW', lin_atom(atom_var(('NEW', 'len'), 64, 0, 65535))
        st.event('recv', src, Lin(65535), n, site, stack[-1] if stack else '')
        out = [(s2, err(Opq('io')))]
        F0 = st.facts
        work = [F0]
        idv = S.map_id(st)
        while work:
            F = work.pop()
            try:
                h, k, reg = named(F, S, idv, src, n)
                if h['type'] == 'Initial' and not reg:
                    s = st.copy()
                    s.facts = F
                    out.append((s, ok(S.datagram(src, n))))
            except SpecErr:
                pass
            except Split as sp:
                for a in sp.alts:
                    H = F.assume(a)
                    if H is not None:
                        work.append(H)
        return out
    return cut


def cut_new(E, st, args, stack, site):
    st.event('conn.new', tuple(E.deref_all(st, a) if isinstance(a, Ref) else a for a in args), site)
    t = contracts.res_of(E.fns[CN]['locals'][0]['t'])
    s2 = st.copy()
    s2.event('conn.fail', site)
    return [(st, ok(E.mksym(('#conn', site), t)))]


CN = 'quic_sea::connection::Connection::new'


def accept_runs(X, E, S, cuts):
    d = X.fn(RT + 'accept')
    RCUT[0] = X.fn(RT + 'recv_new_initial_datagram')
    st = State()
    r = S.ref()
    E.cuts = dict(cuts)
    E.cuts[RCUT[0]] = cut_recv(S)
    try:
        res = X.run(d, [r], st)
    finally:
        E.cuts = {}
    # where the analysis ends: returns, and panics such as an unfinished tail
    ends = [(s2, v) for s2, v in res] + [(p.st, None) for p in E.panics]
    return d, res, ends


def attempt(X, E, S, idv):
    if CN not in E.fns:
        return X.und('Connection::new not found')
    d, res, ends = accept_runs(X, E, S, {CN: cut_new})
    seen = 0
    for s2, v in ends:
        src, n = 'NEW', lin_atom(atom_var(('NEW', 'len'), 64, 0, 65535))
        if any(e[0] == 'recv.err' for e in s2.ev):
            if v is not None and isinstance(v, Adt) and v.d == RES and v.v == 1:
                X.ok('accept: error returned')
            else:
                for F in s2.cases():
                    X.feasible(F, 'accept', 'accept:swallow', 'a receive error is not returned by accept', d)
            continue
        new = [e for e in flat_ev(s2.ev) if e[0] == 'conn.new']
        ins = [e for e in flat_ev(s2.ev) if e[0] == 'map.insert']
        for F in s2.cases():
            for G, r in X.splits(F, lambda G: named(G, S, idv, src, n)):
                if isinstance(r, SpecErr):
                    X.und('accept: unexpected datagram')
                    continue
                if len(new) != 1:
                    if ins:
                        X.und('accept: %d connections made' % len(new))
                    continue
                a = new[0][1]
                h = r[0]
                fl = [x for x in a if isinstance(x, Bool)]
                ids = [x for x in a if isinstance(x, Adt) and x.d == S.u160]
                ln = [x for x in a if isinstance(x, Int)]
                if len(fl) != 1 or len(ids) != 1 or len(ln) != 1:
                    X.und('accept: arguments of Connection::new not resolved')
                    continue
                seen += 1
                X.holds(G, fl[0].c, 'accept: server side', 'accept:role', 'the connection made by accept is a server connection', new[0][2])
                X.same(G, ids[0], Adt(S.u160, 0, h['destination_connection_id']), 'accept: id', 'accept:id', 'id the keys of the new connection are derived from', new[0][2])
                X.same_lin(G, ln[0].lin, h['destination_connection_id_length'].lin, 'accept: id length', 'accept:idlen', 'length of the id of the new connection', new[0][2])
    if not seen:
        X.und('accept: no connection made')


# ------------------------------------------------------------------ every operation of the socket
def owners(X, S):
    """types through which the socket is used"""
    E = X.E
    out = {S.ty}
    for d, a in E.adts.items():
        if d.startswith('quic_sea::') and not a['enum'] and a['v']:
            for f in a['v'][0]['f']:
                if S.ty in json_types(f['t']) and 'Arc' in repr(f['t']):
                    out.add(d)
    return out


def json_types(t, out=None):
    out = set() if out is None else out
    if isinstance(t, dict):
        if t.get('k') == 'adt':
            out.add(t['d'])
        for v in t.values():
            json_types(v, out)
    elif isinstance(t, list):
        for v in t:
            json_types(v, out)
    return out


def operations(X, S):
    """functions of the crate that work on a socket object (closures are examined where they are called)"""
    E = X.E
    own = owners(X, S)
    out = []
    for d, f in sorted(E.fns.items()):
        if not f.get('blocks') or d.startswith('models::') or '{closure' in d or '::tests' in d or '{impl' in d and 'fmt' in d:
            continue
        ts = set()
        for l in f['locals'][:f['argc'] + 1]:
            json_types(l['t'], ts)
        if ts & own and not d.endswith('::fmt') and 'quic_sea' in d:
            out.append(d)
    return out


def op_args(X, E, S, d, st):
    args = []
    for j, l in enumerate(E.fns[d]['locals'][1:E.fns[d]['argc'] + 1]):
        t = l['t']
        if t['k'] == 'ref' and t['e']['k'] == 'adt' and t['e']['d'] == S.ty:
            args.append(S.ref())
        elif t['k'] == 'adt' and t['d'] == S.dg:
            args.append(S.datagram('DG', lin_atom(atom_var(('DG', 'len'), 64, 0, 65535))))
        elif t['k'] == 'ref' and t['e']['k'] == 'adt' and t['e']['d'] == S.dg:
            args.append(Ref(E.new_root(st, S.datagram('DG', lin_atom(atom_var(('DG', 'len'), 64, 0, 65535))))))
        elif t['k'] == 'ref' and t['e']['k'] not in ('slice', 'str', 'param', 'dyn'):
            E.symroots[('arg', d, j)] = t['e']
            args.append(Ref(('S', ('arg', d, j))))
        else:
            args.append(E.mksym(('arg', d, j), t))
    return args


def op_run(X, E, S, d, cuts=()):
    st = State()
    args = op_args(X, E, S, d, st)
    E.cuts = {}
    h = PK + 'next_header_from_stream'
    if h in E.fns:
        E.cuts[h] = cut_header
    dp = PK + 'decode_packets'
    if dp in E.fns:
        DCUT[0] = dp
        E.cuts[dp] = cut_decode
    if CN in E.fns:
        E.cuts[CN] = cut_new
    E.cuts.pop(d, None)
    E.cuts.update(dict(cuts))
    try:
        return args, X.run(d, args, st)
    finally:
        E.cuts = {}


# ------------------------------------------------------------------ C17
MUT = ('map.insert', 'map.remove', 'map.clear', 'map.drain', 'map.retain')


@prop('C17', 'abstract interpretation of accept, of dropping a handle and of every other socket operation on an arbitrary connection table: critical sections, key provenance and table effects along every path',
      'All tables, random draws and interleavings: table effects are attributed to the critical section they happen in.')
def c17(X):
    E = X.E
    S = Sock(X)
    S.ref()
    if S.map_id(State()) is None:
        return X.und('connection table not found')
    register(X, E, S)
    unregister(X, E, S)
    handles(X, E, S)
    rest(X, E, S, set(X.functions))
    X.floor(20, 'table operations')


def held_at(ev, i):
    """locks held before event i: {lock id: (mode, class, index of acquisition)}"""
    held = {}
    for j, e in enumerate(ev[:i]):
        if e[0] == 'lock':
            held[e[5]] = (e[1], e[2], j)
        elif e[0] == 'unlock':
            held.pop(e[1][2], None)
    return held


def rng_bits(F, v):
    """(sources of the distinct random bits a number consists of, other bits)"""
    src, n, other = set(), set(), 0
    for b in F.ibits(v):
        if b == ZERO_F:
            continue
        if len(b) == 1 and ONE not in b:
            a, = b
            k = ATOM_KEY[a >> 8]
            s = at_src(k)
            if s is not None and isinstance(s[0], tuple) and s[0][0] == '#rng':
                src.add(s[0])
                n.add(a)
                continue
        other += 1
    return src, len(n), other


def at_src(k):
    """(source, offset) of a byte atom"""
    if isinstance(k, tuple) and k and k[0] == 'at':
        return k[1], k[2]
    return None


def register(X, E, S):
    d, res, ends = accept_runs(X, E, S, {CN: cut_new} if CN in E.fns else {})
    streams = S.fs[S.map_i]
    ninst = 0
    for s2, v in ends:
        ev = s2.ev
        ins = [(j, e) for j, e in enumerate(ev) if e[0] == 'map.insert']
        other = [e for e in flat_ev(ev) if e[0] in MUT and e[0] != 'map.insert']
        nested = [e for e in flat_ev([x for x in ev if x[0] == '#loop']) if e[0] in MUT]
        failed = v is not None and isinstance(v, Adt) and v.d == RES and v.v == 1
        for F in s2.cases():
            for e in other + nested:
                X.feasible(F, 'registration', 'accept:%s' % e[0], 'accept changes the table other than by registering the connection (%s)' % e[0], e[-2])
            if not ins:
                if v is not None and not failed:
                    X.feasible(F, 'registration', 'accept:none', 'accept succeeds without registering the connection', d)
                else:
                    X.ok('registration: nothing registered')
                continue
            if len(ins) > 1:
                X.feasible(F, 'registration', 'accept:twice', 'accept registers %d entries' % len(ins), ins[1][1][5])
            for j, e in ins:
                ninst += 1
                i, k, h, val, site = e[1], e[2], e[3], e[4], e[5]
                kv = keyval(S, k)
                if kv is None:
                    X.und('accept: key not resolved')
                    continue
                X.holds(F, c_not(('atom', ('#has', i, k))), 'registration: id unused', 'accept:overwrite', 'an entry of another connection is overwritten', site)
                held = held_at(ev, j)
                w = [x for x in held.values() if x[1][1] == streams]
                if not any(x[0] == 'w' for x in w):
                    X.feasible(F, 'registration', 'accept:nolock', 'the table is changed without its write lock', site)
                else:
                    t = max(x[2] for x in w if x[0] == 'w')
                    if any(x[0] in ('map.contains', 'map.get') and x[1][1] == i[1] and x[2] == k for x in ev[t:j]):
                        X.ok('registration: one critical section')
                    else:
                        X.feasible(F, 'registration', 'accept:race', 'the id is checked and registered in different critical sections: another connection can be registered in between', site)
                # the id
                lo, hi = F.nint(kv.f[1]), F.nint(kv.f[0])
                src, n, oth = rng_bits(F, lo)
                s3, n2, oth2 = rng_bits(F, hi)
                if n == 64 and len(src) == 1 and not oth and not n2 and not oth2 and all(b == ZERO_F for b in F.ibits(lo)[64:]):
                    X.ok('registration: random id')
                elif wit.imprecise(kv):
                    X.und('accept: key not resolved')
                elif oth or oth2:
                    # other material: does the id determine 8 random bytes at all?
                    if n == 0 and n2 == 0:
                        X.feasible(F, 'registration', 'accept:fixed', 'the id registered is not drawn at random: %s' % shown(F, kv), site)
                    else:
                        X.und('accept: id %s is not recognised as 8 random bytes' % shown(F, kv))
                else:
                    X.feasible(F, 'registration', 'accept:random', 'the id registered has %d random bits instead of 64 in its low 8 bytes: %s' % (n + n2, shown(F, kv)), site)
                # the connection registered
                cur = s2.mem.get(('S', ('#ent', i[1], k)), val)
                sc = scid_of(X, E, s2, cur)
                if sc is None:
                    X.und('accept: source id of the registered connection not resolved')
                elif isinstance(sc, Sym) or sc.v == 0:
                    X.feasible(F, 'registration', 'accept:scid', 'the source id of the registered connection is not set', site)
                else:
                    X.same(F, sc, some(tup(kv, usz(8))), 'registration: source id', 'accept:scid', 'source id of the registered connection', site)
                if v is not None and not failed and isinstance(v, Adt) and v.d == RES:
                    X.same(F, v.f[0], kv, 'registration: id returned', 'accept:ret', 'id accept returns', d)
    for fn, n, b, uid in E.backs:
        ev = b.ev[n:]
        if any(e[0] in ('map.contains', 'map.get') for e in ev) and not any(e[0] in ('rng', 'recv') for e in flat_ev(ev)):
            for F in b.cases():
                X.feasible(F, 'registration', 'accept:redraw', 'after a collision the same id is tried again', fn)
        elif any(e[0] == 'rng' for e in ev):
            X.ok('registration: new draw after a collision')
    if not ninst:
        X.und('accept: no registration found')


def scid_of(X, E, st, v):
    """source id in a stream value: the Option<(id, length)> field of its connection"""
    try:
        v = lib.av(E, st, v)
        fs = fields(E, v)
        c = fs.get('connection')
        if c is None:
            return None
        c = lib.av(E, st, c)
        if isinstance(c, Adt) and c.d.startswith('std::sync::'):
            c = lib.av(E, st, c.f[0])
        x = fields(E, c).get('scid')
        if x is None:
            return None
        return x
    except (Unsupported, Split, AttributeError):
        return None


def unregister(X, E, S):
    """dropping a connection removes its entry and no other"""
    ids = [(RT + 'drop_connection', None)]
    dr = [d for d in E.fns if d.endswith('::drop') and 'Drop' in d and 'QuicStream' in d]
    for d, _ in ids + [(x, 'drop') for x in dr]:
        if d not in E.fns:
            d = X.fn(d)
        st = State()
        args = op_args(X, E, S, d, st)
        if _ == 'drop':
            me = E.load(st, args[0])
            me = lib.av(E, st, me)
            key = next((x for x in me.f if isinstance(x, (Adt, Sym)) and getattr(x, 'ty', {}).get('d', getattr(x, 'd', None)) == S.u160), None)
        else:
            key = next((x for x in args[1:] if getattr(x, 'ty', {}).get('d') == S.u160), None)
            if key is None:
                key = next((E.load(st, x) for x in args[1:] if isinstance(x, Ref)), None)
        if key is None:
            X.und('%s: id to drop not found' % d)
            continue
        key = lib.av(E, st, key)
        res = X.run(d, args, st)
        name = 'drop_connection' if _ is None else 'dropping a stream handle'
        if not res:
            X.und('%s: no outcome' % d)
        for s2, v in res:
            mut = [e for e in flat_ev(s2.ev) if e[0] in MUT]
            for F in s2.cases():
                k = S.key(F, *key.f)
                for e in mut:
                    if e[0] != 'map.remove':
                        X.feasible(F, 'removal', '%s:%s' % (name, e[0]), '%s does more than remove an entry (%s)' % (name, e[0]), e[-2])
                        continue
                    got = keyval(S, e[2])
                    if got is None:
                        X.und('%s: key not resolved' % d)
                        continue
                    X.same(F, got, key, 'removal: own entry', '%s:key' % name, 'entry removed by %s' % name, e[3])
                if not [e for e in mut if e[0] == 'map.remove']:
                    # allowed only when the entry is not there
                    mid = next((e[1] for e in flat_ev(s2.ev) if e[0] in ('map.contains', 'map.get')), None)
                    if mid is None:
                        X.feasible(F, 'removal', '%s:none' % name, '%s does not remove the entry' % name, d)
                    else:
                        X.holds(F, c_not(('atom', ('#has', mid, k))), 'removal: nothing to remove', '%s:none' % name, '%s does not remove the entry' % name, d)
                for j, e in enumerate(s2.ev):
                    if e[0] == 'map.remove' and not any(x[0] == 'w' for x in held_at(s2.ev, j).values()):
                        X.und('%s: removal without a lock' % d)
        X.no_panics(d, name)


def handles(X, E, S):
    """accept of the public socket returns a handle for the connection registered"""
    pub = [d for d in E.fns if d.endswith('::accept') and E.fns[d].get('blocks') and d != RT + 'accept']
    inner = X.fn(RT + 'accept')

    def cut_accept(E, st, args, stack, site):
        s2 = st.copy()
        s2.event('accept.err')
        st.event('accepted', E.last_ref(st, args[0])[0])
        return [(st, ok(Adt(S.u160, 0, (Int(32, False, ATOM_BITS[atom_var(('ACC', 'hi'), 32)]), Int(128, False, ATOM_BITS[atom_var(('ACC', 'lo'), 128)]))))), (s2, err(Opq('io')))]
    acc = Adt(S.u160, 0, (Int(32, False, ATOM_BITS[atom_var(('ACC', 'hi'), 32)]), Int(128, False, ATOM_BITS[atom_var(('ACC', 'lo'), 128)])))
    for d in pub:
        args, res = op_run(X, E, S, d, {inner: cut_accept})
        for s2, v in res:
            if not result(X, v, d):
                continue
            for F in s2.cases():
                for e in flat_ev(s2.ev):
                    if e[0] in MUT:
                        X.feasible(F, 'handle', 'handle:%s' % e[0], 'accepting changes the table after registering the connection (%s)' % e[0], e[-2])
                fail = any(e[0] == 'accept.err' for e in s2.ev)
                if v.v == 1:
                    if fail:
                        X.ok('handle: error returned')
                    else:
                        X.feasible(F, 'handle', 'handle:lost', 'no handle is returned for a registered connection', d)
                    continue
                if fail:
                    X.feasible(F, 'handle', 'handle:none', 'a handle is returned although accepting failed', d)
                    continue
                h = v.f[0]
                ids = [x for x in h.f if isinstance(x, Adt) and x.d == S.u160] if isinstance(h, Adt) else []
                if len(ids) != 1:
                    X.und('%s: handle not resolved' % d)
                    continue
                X.same(F, ids[0], acc, 'handle: id', 'handle:id', 'connection id of the handle returned by accept', d)
                so = [x for x in h.f if isinstance(x, Ref)]
                want = next((e[1] for e in s2.ev if e[0] == 'accepted'), None)
                if len(so) == 1 and want is not None:
                    if so[0].root == want.root:
                        X.ok('handle: socket')
                    else:
                        X.feasible(F, 'handle', 'handle:socket', 'the handle refers to another socket', d)


def rest(X, E, S, inside):
    """no other operation changes the table or an entry of it"""
    skip = set([RT + 'accept', RT + 'drop_connection'])
    inner = RT + 'accept'
    call = {d: callees(E, d) for d, f in E.fns.items() if f.get('blocks')}
    S.ref()
    callers = {}
    for c, ds in call.items():
        for d in ds:
            if c != d:
                callers.setdefault(d, set()).add(c)

    def special(d):
        return d in skip or d.endswith('::drop') or d.endswith('::accept')

    def part(d, seen):
        # a step of accepting or removing a connection: every use of it is inside one of those operations, judged there
        if special(d):
            return True
        if d in seen:
            return True
        if '{closure' in d:
            return part(d.split('::{closure')[0], seen | {d})
        cs = callers.get(d)
        return d in inside and bool(cs) and all(part(c, seen | {d}) for c in cs)
    for d in operations(X, S):
        if special(d) or part(d, frozenset()):
            continue
        args, res = op_run(X, E, S, d)
        unk = bool(E.unmod or E.unsup)
        sts = [(s2, s2.ev) for s2, _ in res] + [(b, b.ev) for _, _, b, _ in E.backs] + [(p.st, p.st.ev) for p in E.panics]
        for s2, ev in sts:
            n = 0
            for F in s2.cases():
                for e in flat_ev(ev):
                    if e[0] in MUT and not (isinstance(e[1][1], tuple) and e[1][1][:1] == ('#new',)):
                        n += 1
                        X.feasible(F, 'other operations', 'rest:%s:%s' % (d, e[0]), '%s changes the connection table (%s)' % (d, e[0]), e[-2])
                if not n:
                    X.ok('other operations: table unchanged')
                if any(a == S.ref() for a in args if isinstance(a, Ref)):
                    m = S.map(s2)
                    if isinstance(m, Adt) and m.d == '@HM' and m.f[0].k != S.map_id(State()) and not n:
                        if unk or wit_unknown(m.f[0].k):
                            X.und('%s: connection table not resolved' % d)
                        else:
                            X.feasible(F, 'other operations', 'rest:%s:replace' % d, '%s replaces the connection table' % d, d)
                for root, val in s2.mem.items():
                    if root[0] == 'S' and isinstance(root[1], tuple) and root[1] and root[1][0] == '#ent' and not unchanged_entry(E, s2, root, val):
                        X.feasible(F, 'other operations', 'rest:%s:entry' % d, '%s modifies a registered connection' % d, d)


def wit_unknown(k):
    return '#unk' in repr(k)


def unchanged_entry(E, st, root, val):
    """is the entry still the one found in the table? (expanding an unknown is not a change)"""
    return not modified(E, val, E.mksym(('#*', root[1]), E.symroots[root[1]]))


def modified(E, v, want):
    if v == want or v is MOVED:
        return False
    if isinstance(want, Sym) and isinstance(v, Adt):
        t = want.ty
        if t['k'] != 'adt':
            return True
        if t['d'] in ('std::sync::RwLock', 'std::sync::Mutex', 'std::cell::RefCell', 'std::cell::Cell'):
            return modified(E, v.f[0], E.mksym(('#in', want.id), t['a'][0]))
        if v.d == '@HM':
            return True
        a = E.adts.get(t['d'])
        if a is None or v.d != t['d']:
            return True
        env = dict(enumerate(t.get('a', [])))
        return any(modified(E, x, E.mksym(('#f', want.id, f['n']), subst_ty(f['t'], env))) for x, f in zip(v.f, a['v'][v.v]['f']))
    if isinstance(want, Adt) and isinstance(v, Adt) and v.d == want.d and v.v == want.v:
        return any(modified(E, x, y) for x, y in zip(v.f, want.f))
    return True


# ------------------------------------------------------------------ C18
@prop('C18', 'lock set analysis along every path of every socket operation (abstract interpretation with guard lifetimes from MIR drops): re-acquisition, order graph over all operations, blocking calls, leaks',
      'All paths of all operations of the socket, including loop iterations; lock order over the union of all operations.')
def c18(X):
    E = X.E
    S = Sock(X)
    S.ref()
    edges = {}
    nlock = 0
    for d in operations(X, S):
        args, res = op_run(X, E, S, d)
        for s2, v in res:
            nlock += locks(X, E, s2, s2.ev, d, edges, None, v)
        for fn, n, b, uid in E.backs:
            nlock += locks(X, E, b, b.ev, d, edges, n, None)
        for p in E.panics:
            nlock += locks(X, E, p.st, p.st.ev, d, edges, None, None, True)
    if nlock < 8:
        X.und('only %d lock acquisitions found' % nlock)
    cycles(X, E, edges)
    X.floor(20, 'lock operations')


def locks(X, E, s2, ev, d, edges, start, v, panic=False):
    held = {}
    at_start = None
    n = 0
    F = s2.cases()[0] if len(s2.cases()) == 1 else s2.facts
    Fs = s2.cases()
    for j, e in enumerate(ev):
        if j == start:
            at_start = dict(held)
        if e[0] == 'lock':
            n += 1
            _, mode, c, site, fn, id, inst = e
            again = [h for h in held.values() if h[2] == inst]
            if again:
                for G in Fs:
                    X.feasible(G, 'locks', 'relock:%s:%s' % (fn, c[1]), '%s is acquired (%s) while the same thread holds it since %s' % (c[1], site, again[0][3]), site)
            else:
                X.ok('locks: not held before')
            for h in held.values():
                if h[2] == inst:
                    continue
                if inst[0][0] != 'S' or h[2][0][0] != 'S':
                    continue        # not shared yet
                if h[1] == c:
                    X.und('locks: two %s locks are nested at %s' % (c[1], site))
                edges.setdefault((h[1], c), []).append((Fs, h[3], site, d))
            held[id] = (mode, c, inst, site)
        elif e[0] == 'unlock':
            held.pop(e[1][2], None)
        elif e[0] in ('recv', 'recv.err', 'peek', 'rng', 'block') and not (e[0] == 'block' and e[1] == 'sleep' and not held):
            bad = [h for h in held.values() if inside(E, h[1])]
            if bad:
                what = {'recv': 'waits for a datagram', 'recv.err': 'waits for a datagram', 'peek': 'waits for a datagram', 'rng': 'draws random bytes'}.get(e[0]) or 'waits (%s)' % e[1]
                site = e[1] if e[0] == 'recv.err' else e[2] if e[0] == 'block' else e[3] if e[0] == 'rng' else e[4]
                for G in Fs:
                    X.feasible(G, 'locks', 'block:%s:%s' % (e[0], bad[0][1][1]), '%s (%s) while holding %s since %s' % (what, site, bad[0][1][1], bad[0][3]), site)
            else:
                X.ok('locks: no blocking while holding')
    if start is not None:
        if at_start is None:
            at_start = dict(held) if start >= len(ev) else {}
        left = [h for k, h in held.items() if k not in at_start]
        if left:
            for G in Fs:
                X.feasible(G, 'locks', 'leak:loop:%s' % left[0][1][1], '%s is still held from %s in the next iteration' % (left[0][1][1], left[0][3]), left[0][3])
        else:
            X.ok('locks: released in the iteration')
    elif not panic:
        keep = set(g.f[1].k[2] for g in lib.guards(v)) if v is not None else set()
        left = [h for k, h in held.items() if k not in keep]
        if left:
            for G in Fs:
                X.feasible(G, 'locks', 'leak:%s' % left[0][1][1], '%s acquired at %s is not released when %s returns' % (left[0][1][1], left[0][3], d), left[0][3])
        else:
            X.ok('locks: released')
    return n


def inside(E, c):
    """is the lock the connection table's or a connection's?"""
    for d, a in E.adts.items():
        if d.split('::')[-1] == c[0] and d.startswith('quic_sea::'):
            for f in a['v'][0]['f']:
                if f['n'] == c[1]:
                    ts = json_types(f['t'])
                    return any(t.endswith('HashMap') or t.endswith('::Connection') or t.endswith('InternalQuicStream') for t in ts)
    return False


def cycles(X, E, edges):
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)
    done = set()
    for a, b in sorted(edges):
        if a == b:
            continue
        # path from b back to a
        prev = {b: None}
        work = [b]
        while work:
            x = work.pop(0)
            for y in succ.get(x, ()):
                if y not in prev:
                    prev[y] = x
                    work.append(y)
        if a not in prev:
            X.ok('lock order: %s before %s' % (a[1], b[1]))
            continue
        cyc = [a]
        x = a
        while x is not None and x != b:
            x = prev[x]
            cyc.append(x)
        key = tuple(sorted(str(c) for c in cyc))
        if key in done:
            continue
        done.add(key)
        path = [a] + list(reversed(cyc[1:]))
        txt = []
        okc = True
        cl = path + [a]
        M = None
        for p, q in zip(cl, cl[1:]):
            hit = None
            for Fs, s1, s0, d in edges.get((p, q), ())[:20]:
                for F in Fs:
                    if wit.facts_imprecise(F) is None:
                        M = wit.solve(E, F, lambda M: True, seed=X.seed, tries=X.wtries)
                        if M is not None:
                            hit = '%s (%s) then %s (%s) in %s' % (p[1], s1, q[1], s0, d.split('::', 1)[1])
                            break
                if hit:
                    break
            if not hit:
                okc = False
            txt.append(hit or '?')
        if okc:
            X.bad('order:' + '/'.join(sorted(c[1] for c in set(cl))), 'locks are nested in opposite orders: ' + '; '.join(txt), {'where': txt})
        else:
            X.und('lock order cycle not confirmed: %s' % (cl,))


# ------------------------------------------------------------------ C21
@prop('C21', 'abstract interpretation of every formatting implementation, of every operation that prints and of the logging switch: provenance of every value given to a formatter or printed',
      'All formatting implementations and printing calls of the crate, all logging settings, every path.')
def c21(X):
    E = X.E
    S = Sock(X)
    S.ref()
    if S.flag(State()) is None:
        X.und('logging switch not found')
    else:
        logging(X, E, S)
        switch(X, E, S)
    sf = secret_fields(X, E)
    if not sf:
        X.und('no key material found in a new connection')
    else:
        with_keys(E, sf, lambda names: (formatting(X, E, names), printing(X, E, S, names)))
    X.floor(60, 'logging and formatting')


def mentions(v, pred, depth=0):
    """does the value carry data (not only a length or a variant) whose origin satisfies pred?"""
    if depth > 12:
        return False
    if isinstance(v, Sym):
        return pred(v.id)
    if isinstance(v, Adt):
        return any(mentions(x, pred, depth + 1) for x in v.f)
    if isinstance(v, Opq):
        return pred(v.k)
    if isinstance(v, Seq):
        for s in v.segs:
            if s[0] == 'e' and mentions(s[1], pred, depth + 1):
                return True
            if s[0] == 's' and pred(s[1]):
                return True
            if s[0] == 'r' and mentions(s[1], pred, depth + 1):
                return True
            if s[0] == 'star' and any(mentions(Seq((t,), None), pred, depth + 1) for t in s[2]):
                return True
        return False
    if isinstance(v, Int):
        ats = set()
        if v.bits is not None:
            for b in v.bits:
                ats |= set(x >> 8 for x in b if x != ONE)
        else:
            ats = set(a for a, _ in v.lin.t)
        return any(atom_mentions(ATOM_KEY[a], pred) for a in ats)
    if isinstance(v, Ref):
        return v.root[0] == 'S' and pred(v.root[1])
    return False


def atom_mentions(k, pred):
    if isinstance(k, tuple) and k and k[0] == 'v':
        if isinstance(k[1], tuple) and k[1] and k[1][0] in ('#len', '#rxlen', 'DG', 'NEW', '#k') or isinstance(k[1], tuple) and k[1] and k[1][-1] == 'len':
            return False
        return pred(k[1])
    if isinstance(k, tuple) and k and k[0] == 'at':
        return pred(k[1])
    if isinstance(k, tuple) and k and k[0] == 'op':
        return op_mentions(k[2], pred)
    return False


def op_mentions(x, pred, depth=0):
    if depth > 8:
        return False
    if isinstance(x, (Int, Seq, Adt, Sym)):
        return mentions(x, pred, depth)
    if isinstance(x, Lin):
        return any(atom_mentions(ATOM_KEY[a], pred) for a, _ in x.t)
    if isinstance(x, (tuple, list)):
        if x and isinstance(x[0], str) and x[0].startswith('#') and pred(tuple(x)):
            return True
        return any(op_mentions(y, pred, depth + 1) for y in x)
    return False


def has_tag(x, tags, depth=0):
    if isinstance(x, tuple) and depth < 14:
        return any(has_tag(y, tags, depth + 1) for y in x)
    return isinstance(x, str) and x in tags


RX = ('#rx', 'DG', '#hdr', '#packets', '#pt', '#frames')


def received(v):
    return mentions(v, lambda id: has_tag(id, RX))


def logging(X, E, S):
    flag = S.flag(State())
    for d in operations(X, S):
        args, res = op_run(X, E, S, d)
        if not any(isinstance(a, Ref) and a == S.ref() for a in args):
            continue
        name = d.split('::')[-1]
        sts = [(s2, s2.ev, v) for s2, v in res] + [(b, b.ev, None) for _, _, b, _ in E.backs] + [(p.st, p.st.ev, None) for p in E.panics]
        for s2, ev, v in sts:
            pr = [(j, e) for j, e in enumerate(ev) if e[0] == 'print']
            data = [(j, e) for j, e in pr if any(received(x) for _, x, _ in e[4])]
            for F in s2.cases():
                for j, e in data:
                    X.holds(F, flag.c, 'logging: only when switched on', 'log:%s' % e[3], 'received data is printed (%s) although traffic logging is off' % e[2], e[2])
                if v is None or not (isinstance(v, Adt) and v.d == RES) or v.v != 0:
                    continue
                # the step that receives, and the one that decodes
                rx = [j for j, e in enumerate(ev) if e[0] == 'recv']
                de = [j for j, e in enumerate(ev) if e[0] == 'decode']
                if not rx and not de or any(e[0] == '#loop' for e in ev):
                    continue
                G = F.assume(flag.c)
                want = 'headers' if rx else 'packets'
                after = (rx or de)[-1]
                if G is not None:
                    if any(j > after for j, e in pr):
                        X.ok('logging: %s printed' % want)
                    else:
                        X.feasible(G, 'logging', 'log:missing:%s' % name, 'traffic logging is on but the %s received by %s are not printed' % (want, name), d)
                reads = [j for j, e in enumerate(ev) if e[0] == 'lock' and e[2] == (S.ty.split('::')[-1], S.fs[S.flag_i])]
                if rx and reads:
                    if max(reads) > after:
                        X.ok('logging: setting read for the datagram')
                    else:
                        X.feasible(F, 'logging', 'log:stale:%s' % name, 'the setting is read before the datagram is waited for: a change made meanwhile has no effect on it', d)


def switch(X, E, S):
    d = X.fn(RT + 'bind')
    st = State()
    res = X.run(d, op_args(X, E, S, d, st), st)
    n = 0
    for s2, v in res:
        if result(X, v, 'bind') and v.v == 0 and isinstance(v.f[0], Adt) and v.f[0].d == S.ty:
            fl = v.f[0].f[S.flag_i]
            fl = fl.f[0] if isinstance(fl, Adt) else fl
            n += 1
            for F in s2.cases():
                if isinstance(fl, Bool):
                    X.holds(F, c_not(fl.c), 'switch: off initially', 'bind:flag', 'traffic logging is on initially', d)
                else:
                    X.und('bind: flag not resolved')
    if not n:
        X.und('bind: no socket made')
    setters = [x for x in E.fns if x.endswith('::set_log_traffic') and E.fns[x].get('blocks')]
    for d in setters:
        st = State()
        args = op_args(X, E, S, d, st)
        b = next((a for a in args if isinstance(a, Bool)), None)
        if b is None:
            X.und('%s: no setting' % d)
            continue
        res = X.run(d, args, st)
        for s2, v in res:
            if args[0] == S.ref():
                root = ('S', 'SOCK')
            else:
                w = lib.av(E, s2, E.load(s2, args[0]))
                so = next((lib.av(E, s2, x) for x in w.f if isinstance(x, (Sym, Ref))), None)
                root = so.root if isinstance(so, Ref) else None
            try:
                fl = E.read(s2, root, (('f', S.flag_i), ('f', 0)))
            except (Unsupported, Split, TypeError):
                fl = None
            for F in s2.cases():
                if isinstance(fl, Bool):
                    X.same(F, fl, b, 'switch: set', 'set:%s' % d, 'setting after set_log_traffic', d)
                else:
                    X.und('%s: flag not resolved' % d)
    if not setters:
        X.und('no set_log_traffic')


def secret_fields(X, E):
    """{(type, field)} that hold key material: where the output of the key derivation is stored by Connection::new"""
    out = set()
    d = X.fn(CN)

    def walk(s2, v, path):
        if isinstance(v, Adt):
            a = E.adts.get(v.d)
            for i, x in enumerate(v.f):
                fn = a['v'][v.v]['f'][i]['n'] if a and i < len(a['v'][v.v]['f']) else None
                p = path + [(v.d, fn)] if v.d.startswith('quic_sea::') else path
                walk(s2, x, p)
        elif isinstance(v, Seq) and v.segs and all(g[0] == 'e' and isinstance(g[1], Adt) for g in v.segs):
            for g in v.segs:
                walk(s2, g[1], path)
        elif isinstance(v, (Seq, Int)):
            if mentions(v, lambda id: has_tag(id, ('#expand', '#extract'))) and path:
                out.add(path[-1])
        elif isinstance(v, Ref):
            pass
    for srv in (True, False):
        for k in (8,):
            st = State()
            args = []
            for j, l in enumerate(E.fns[d]['locals'][1:E.fns[d]['argc'] + 1]):
                t = l['t']
                if t['k'] == 'bool':
                    args.append(Bool(srv))
                elif t['k'] == 'uint':
                    args.append(iconst(k, t['w']))
                elif t['k'] == 'adt' and E.adts.get(t['d'], {}).get('enum'):
                    args.append(Adt(t['d'], 0, ()))
                else:
                    args.append(E.mksym(('cn', j), t))
            for s2, v in X.run(d, args, st):
                if isinstance(v, Adt) and v.d == RES and v.v == 0:
                    walk(s2, v.f[0], [])
            check_prints(X, E, {}, d)
    return out


KEYS = ('#expand', '#extract', '#secret')


def check_prints(X, E, names, d):
    """everything printed during the last run, also on paths the analysis gave up on later"""
    for s2, e in list(E.prints):
        for kind, v, t in e[4]:
            r = leak(X, E, s2, v, names, 0, d)
            if r:
                for F in s2.cases():
                    X.feasible(F, 'printing', 'print:%s' % e[3], 'key material (%s) is printed at %s' % (r, e[2]), e[2])
            else:
                X.ok('printing: no key material')


def printable(E, v):
    """a value of a local type with a formatting implementation of its own, examined separately"""
    ty = v.ty.get('d') if isinstance(v, Sym) else v.d if isinstance(v, Adt) else None
    return ty is not None and fmt_of(E, ty) is not None


def fmt_of(E, ty):
    for tr in ('std::fmt::Debug', 'std::fmt::Display'):
        d = '<%s as %s>::fmt' % (ty, tr)
        if d in E.fns and E.fns[d].get('blocks'):
            return d
    return None


def with_keys(E, sf, body):
    """run body with the content of every object holding keys marked"""
    holders = set(t for t, _ in sf)
    old = E.hooks.get('sym')

    def hook(E, id, ty):
        if ty.get('k') == 'adt' and ty['d'] in holders and not (isinstance(id, tuple) and id and id[0] == '#secret'):
            return Sym(('#secret', id), ty)
        return None
    E.hooks['sym'] = hook
    try:
        body({t: [f for h, f in sf if h == t] for t in holders})
    finally:
        E.hooks.pop('sym', None)
        if old:
            E.hooks['sym'] = old


def formatting(X, E, names):
    impls = sorted(d for d, f in E.fns.items() if f.get('blocks') and d.endswith('::fmt') and not d.startswith('models::') and 'quic_sea' in d)
    for d in impls:
        fmt_impl(X, E, d, names, 0, None)


def fmt_impl(X, E, d, names, depth, value):
    st = State()
    args = []
    for j, l in enumerate(E.fns[d]['locals'][1:E.fns[d]['argc'] + 1]):
        t = l['t']
        if j == 0 and value is not None:
            args.append(Ref(E.new_root(st, value)))
        elif t['k'] == 'ref':
            E.symroots[('fmt', d, j)] = t['e']
            args.append(Ref(('S', ('fmt', d, j))))
        else:
            args.append(E.mksym(('fmt', d, j), t))
    res = X.run(d, args, st)
    if not res:
        X.und('%s: no outcome' % d)
    for s2, v in res:
        evl = [e for e in flat_ev(s2.ev) if e[0] in ('fmt', 'print')]
        for e in evl:
            vals = e[2] if e[0] == 'fmt' else e[4]
            for kind, x, t in vals:
                r = leak(X, E, s2, x, names, depth, d)
                if r:
                    for F in s2.cases():
                        X.feasible(F, 'formatting', 'fmt:%s:%s' % (d, r), '%s prints key material (%s)' % (d, r), e[3] if e[0] == 'fmt' else e[2])
                else:
                    X.ok('formatting: value without key material')
        if not evl:
            X.ok('formatting: nothing printed')


def leak(X, E, st, x, names, depth, d):
    """name of the key material a formatted value shows, if any"""
    try:
        x = E.deref_all(st, x)
    except (Unsupported, Split):
        return None
    hit = []

    def pred(id):
        f = secret_field(id, names)
        if f:
            hit.append(f)
            return True
        return has_tag(id, ('#expand', '#extract'))
    if isinstance(x, Sym) and x.ty.get('k') == 'adt':
        ts = [x.ty['d']]
        local = fmt_of(E, x.ty['d'])
        if local:
            # printed by its own implementation; inside an object holding keys that implementation decides
            if has_tag(x.id, ('#secret',)) and x.id[0] != '#secret' and secret_field(x.id, names) and depth < 4:
                n = len(X.viol)
                fmt_impl(X, E, local, names, depth + 1, x)
            return None
    if isinstance(x, Adt) and fmt_of(E, x.d):
        return None
    if isinstance(x, Adt) and depth < 8:
        for y in x.f:
            r = leak(X, E, st, y, names, depth + 1, d)
            if r:
                return r
        return None
    if isinstance(x, Seq) and depth < 8 and x.segs and all(g[0] == 'e' for g in x.segs) and any(isinstance(g[1], (Adt, Sym)) for g in x.segs):
        for g in x.segs:
            r = leak(X, E, st, g[1], names, depth + 1, d)
            if r:
                return r
        return None
    if mentions(x, pred):
        return hit[0] if hit else 'derived key'
    return None


def secret_field(id, names):
    """field of a key holder a value comes from"""
    if isinstance(id, tuple):
        if len(id) == 3 and id[0] == '#f' and isinstance(id[1], tuple) and id[1] and (id[1][0] == '#secret'):
            for t, fs in names.items():
                if id[2] in fs:
                    return id[2]
        for y in id:
            r = secret_field(y, names)
            if r:
                return r
    return None


def printing(X, E, S, names):
    """no other function of the crate prints key material"""
    sites = {}
    for d, f in E.fns.items():
        if not f.get('blocks') or d.startswith('models::') or '::tests' in d:
            continue
        for b in f['blocks']:
            t = b['t']
            if t.get('k') == 'call' and isinstance(t.get('f'), dict):
                c = t['f'].get('d') or ''
                if c.split('::')[-1] in ('_print', '_eprint'):
                    sites.setdefault(d.split('::{closure')[0], []).append(t.get('sp'))
    ops = set(operations(X, S))
    for d in sorted(sites):
        if d in ops or d.endswith('::fmt'):
            X.ok('printing: examined as an operation of the socket')
            continue
        if d not in E.fns:
            continue
        st = State()
        try:
            args = op_args(X, E, S, d, st)
        except Unsupported:
            X.und('%s prints and cannot be examined' % d)
            continue
        X.run(d, args, st)
        check_prints(X, E, names, d)
