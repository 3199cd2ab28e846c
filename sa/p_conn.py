"""C10 packet number spaces and directions, C13 packet number issue, C14 truncation and reconstruction."""
from spec import *
from p_codec import adt_of, seqval
from p_frame import sv
import p_packet, p_crypto
from p_packet import (Keys, key_path, conn_ref, cut_frames, FCUT, ref_header, run_simple, evs, PK, variant, PROT, GP, SF,
                      cut_ser, built_conn, cut_next_pn)

PROPS = {}
CO = 'quic_sea::connection::'
RP = CO + 'Connection::reconstruct_remote_pn'


def prop(pid, technique, level_note):
    def deco(f):
        PROPS[pid] = {'run': f, 'technique': technique, 'note': level_note}
        return f
    return deco


# ------------------------------------------------------------------ the connection as a tree of leaves
def conn_ty(X):
    return {'k': 'adt', 'd': adt_of(X, 'Connection'), 'a': []}


def leaves(E, ty, id=('conn',), path=()):
    """[(path, id, type)] of the leaves of a struct type; Options are leaves"""
    if ty['k'] == 'adt' and ty['d'] != OPT and ty['d'] in E.adts and len(E.adts[ty['d']]['v']) == 1 and E.adts[ty['d']]['v'][0]['f']:
        env = dict(enumerate(ty.get('a', [])))
        out = []
        for f in E.adts[ty['d']]['v'][0]['f']:
            out += leaves(E, subst_ty(f['t'], env), ('#f', id, f['n']), path + (f['n'],))
        return out
    if ty['k'] == 'tuple' and ty['e']:
        out = []
        for i, t in enumerate(ty['e']):
            out += leaves(E, t, ('#f', id, i), path + (i,))
        return out
    if ty['k'] == 'array' and isinstance(ty['n'], int) and ty['n'] <= 8 and ty['e']['k'] in ('adt', 'tuple', 'uint') and (ty['e']['k'] != 'uint' or ty['e']['w'] == 64):
        out = []
        for i in range(ty['n']):
            out += leaves(E, ty['e'], ('#f', id, i), path + (i,))
        return out
    return [(path, id, ty)]


def opt_of(ty):
    return ty['a'][0] if ty['k'] == 'adt' and ty['d'] == OPT and ty.get('a') else None


def is_u64(ty):
    return ty is not None and ty['k'] == 'uint' and ty['w'] == 64


def id_path(id):
    """field path of an unknown below the connection"""
    if isinstance(id, tuple) and len(id) == 3 and id[0] == '#f':
        return id_path(id[1]) + (id[2],)
    if isinstance(id, tuple) and len(id) == 3 and id[0] in ('#el', '#d'):
        return id_path(id[1]) + (str(id[2]),)
    if isinstance(id, tuple) and len(id) == 2 and id[0] == '#d':
        return id_path(id[1])
    return ()


def atoms_of(x, out):
    """ids of the free variables a value or condition mentions"""
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and x[0] == 'v':
            out.add(x[1])
            return
        for y in x:
            atoms_of(y, out)
    elif isinstance(x, Seq):
        atoms_of(x.segs, out)
    elif isinstance(x, Adt):
        atoms_of(x.f, out)
    elif isinstance(x, Bool):
        atoms_of(x.c, out)
    elif isinstance(x, Int):
        atoms_of(x.lin, out)
    elif isinstance(x, Lin):
        for a, _ in x.t:
            atoms_of(ATOM_KEY[a], out)
    elif isinstance(x, AtomRef):
        atoms_of(ATOM_KEY[x.a], out)
    elif isinstance(x, frozenset):
        for y in x:
            if isinstance(y, int) and y != ONE:
                atoms_of(ATOM_KEY[y >> 8], out)


def read_leaves(X, lv, base, s2, v):
    """u64 leaves of the connection a computation depended on"""
    ids = set()
    for F in s2.cases():
        for k in F.var:
            if k not in base.var:
                ids.add(k)
        old = set(base.conds())
        for c in F.conds():
            if c not in old:
                atoms_of(c, ids)
    atoms_of(v, ids)
    out = set()
    for path, id, ty in lv:
        if (is_u64(ty) or is_u64(opt_of(ty))) and (id in ids or ('#f', id, '0') in ids):
            out.add(path)
    return out


def changed(X, E, st, lv, ref, before):
    """[(path, old, new)] of the leaves that differ between two values of the connection; None when unresolved"""
    out = []
    now = E.load(st, ref)
    for path, id, ty in lv:
        a, b = get_path(E, st, before, path), get_path(E, st, now, path)
        if a is None or b is None:
            return None
        if isinstance(a, Sym) and isinstance(b, Sym) and a.id == b.id:
            continue
        try:
            if eqv(st.facts, a, b) is True:
                continue
        except Split:
            pass
        out.append((path, a, b))
    return out


def get_path(E, st, v, path):
    for p in path:
        if isinstance(v, Sym):
            try:
                v = E.expand(st, v)
            except (Unsupported, Split):
                return None
        if isinstance(v, Seq) and isinstance(p, int):
            q = seq_norm(st.facts, v)
            if p >= len(q.segs) or any(g[0] != 'e' for g in q.segs):
                return None
            v = q.segs[p][1]
            continue
        if not isinstance(v, Adt):
            return None
        i = findex(E, v, p)
        if i is None or i >= len(v.f):
            return None
        v = v.f[i]
    return v


def findex(E, v, p):
    if v.d == '()':
        return p
    for i, f in enumerate(E.adts[v.d]['v'][v.v]['f']):
        if f['n'] == p:
            return i
    return None


def set_path(E, st, v, path, x):
    if not path:
        return x
    if isinstance(v, Sym):
        v = E.expand(st, v)
    if isinstance(v, Seq):
        g = list(seq_norm(st.facts, v).segs)
        g[path[0]] = ('e', set_path(E, st, g[path[0]][1], path[1:], x))
        return Seq(g, v.ety)
    i = findex(E, v, path[0])
    f = list(v.f)
    f[i] = set_path(E, st, f[i], path[1:], x)
    return Adt(v.d, v.v, f)


def pstr(p):
    return '.'.join(str(x) for x in p)


# ------------------------------------------------------------------ C10
@prop('C10', 'abstract interpretation of packet decoding and building with every key traced to the connection field it was read from (provenance analysis), compared over packet types, directions and Connection::new',
      'All packets and connection states at once; keys and packet number state are identified by access path, so the field names do not matter.')
def c10(X):
    E = X.E
    recv, send = {}, {}
    rpn, spn = {}, {}
    lv = leaves(E, conn_ty(X))
    with Keys(X):
        receive_paths(X, E, lv, recv, rpn)
        for name, t in (('PacketInitial', 'Initial'), ('PacketHandshake', 'Handshake')):
            send_paths(X, E, lv, name, t, send, spn)
    if not X.viol:
        compare_paths(X, recv, send, rpn, spn)
    new_keys(X, E, recv, send)
    X.floor(30, 'key provenance obligations')


SPACE = {'Initial': 'Initial', 'Handshake': 'Handshake', 'ZeroRtt': 'Application', 'OneRtt': 'Application'}


def note(X, tab, t, path, F, what, d):
    """one obligation: every use of keys (or state) by packets of type t has the same path"""
    old = tab.get(t)
    if old is None:
        tab[t] = (path, F, d)
        X.ok('%s: %s' % (what, t))
    elif old[0] == path:
        X.ok('%s: %s' % (what, t))
    else:
        X.feasible(F, what, '%s:%s:mixed' % (what, t), '%s packets use both %s and %s' % (t, pstr(old[0]), pstr(path)), d)


def receive_paths(X, E, lv, recv, rpn):
    d = X.fn(PK + 'decode_next_packet')
    PA = adt_of(X, 'Packet')
    st = State()
    s, n = iso_stream(E, st, 'D')
    cr = conn_ref(X, E, st)

    def cut_pn(E, st, args, stack, site):
        r = p_packet.cut_pn(E, st, args, stack, site)
        if r is None:
            return None
        with contracts.Iso(E):
            got = set()
            for s2, v in E.exec_fn(RP, args, st.copy()):
                if isinstance(v, Adt) and v.d == RES and v.v == 0:
                    got |= read_leaves(X, lv, st.facts, s2, v)
        for s2, v in r:
            s2.event('pnleaf', frozenset(got))
        return r
    FCUT[0] = 'quic_sea::frame::deserialize_frames'
    E.cuts = {p: c for p, c in ((RP, cut_pn), (FCUT[0], cut_frames)) if p in E.fns}
    try:
        res = X.run(d, [s, cr], st)
    finally:
        E.cuts = {}
    hdr = ref_header('D', n)
    for s2, v in res:
        if any(e[0] == 'envfail' for e in s2.ev):
            continue
        use = evs(s2, 'cipher', 'open', 'open.fail')
        pl = evs(s2, 'pnleaf')
        for F in s2.cases():
            for G, h in X.splits(F, hdr):
                if isinstance(h, SpecErr) or h['type'] not in PROT:
                    for e in use:
                        X.feasible(G, 'receiving keys', 'recv:unprotected', 'keys are used for a packet that is not protected', d)
                    continue
                t = h['type']
                for e in use:
                    ids = key_path(e[2])
                    if len(ids) != 1:
                        X.und('key used for %s packets is not traced' % t)
                        continue
                    note(X, recv, t, id_path(list(ids)[0]), G, 'receiving keys', d)
                for e in pl:
                    if len(e[1]) > 1:
                        X.feasible(G, 'received numbers', 'recv:pn:%s' % t, 'numbers of %s packets depend on %s' % (t, ', '.join(sorted(map(pstr, e[1])))), d)
                    for p in e[1]:
                        note(X, rpn, t, p, G, 'received numbers', d)
                if isinstance(v, Adt) and v.d == RES and v.v == 0:
                    kinds = {e[0] for e in use}
                    if 'open' not in kinds or 'cipher' not in kinds:
                        X.feasible(G, 'receiving keys', 'recv:none:%s' % t, 'a %s packet is accepted without the keys of its space' % t, d)
                    else:
                        X.ok('receiving keys: required')
    if not X.unknown:
        for t in PROT:
            if t not in recv:
                X.und('no keys are used for %s packets' % t)


def send_paths(X, E, lv, name, t, send, spn):
    new, ser = X.fn(PK + name + '::new'), X.fn(PK + name + '::serialize')
    FA = adt_of(X, 'Frame')
    ft = {'k': 'adt', 'd': FA, 'a': []}
    reg_src(('frd', 'frames'), ft)
    st = State()
    cr = conn_ref(X, E, st)
    # ids of a connection are at most 20 bytes long
    nf = lin_atom(atom_var(('frames', 'len'), 64, 0, 1 << 47))
    frames = Seq((('s', ('frd', 'frames'), L0, nf),), ft)
    token = NONE

    def cut_gp(E, st, args, stack, site):
        with contracts.Iso(E):
            got, dep = set(), set()
            before = E.load(st, cr)
            st0 = st.copy()
            for p, id, ty in lv:
                if is_u64(ty):
                    x = get_path(E, st0, before, p)
                    if isinstance(x, Int):
                        st0 = st0.assume(c_le(x.lin, Lin(V62)))
            old = E.cuts
            E.cuts = {CO + 'truncate_pn': cut_trunc}
            try:
                outs = E.exec_fn(GP, args, st0)
            finally:
                E.cuts = old
            for s2, v in outs:
                ch = changed(X, E, s2, lv, cr, before)
                if ch is None:
                    X.und('effect of get_next_pn not resolved')
                    continue
                got |= {p for p, a, b in ch}
                dep |= read_leaves(X, lv, st.facts, s2, v)
                for e in evs(s2, 'trunc'):
                    for a in e[1]:
                        if isinstance(a, Sym):
                            dep |= {p for p, id, ty in lv if id == a.id}
                        else:
                            ids = set()
                            atoms_of(a, ids)
                            dep |= {p for p, id, ty in lv if is_u64(ty) and id in ids}
        s = st.copy()
        s = s.assume(c_le(sv('pn', 64).lin, Lin(V62)))
        s.event('gp', frozenset(got), frozenset(dep))
        return [(s, ok(Adt('()', 0, (sv('pn', 64), Seq((('s', '#pnb', L0, Lin(2)),), U8)))))]
    E.cuts = {GP: cut_gp} if GP in E.fns else {}
    try:
        res = X.run(new, p_crypto.args_for(X, E, st, new, {'Vec': [frames], 'Option': [token], 'Connection': [cr]}), st)
    finally:
        E.cuts = {}
    for s2, v in res:
        for F in s2.cases():
            for e in evs(s2, 'gp'):
                if len(e[1]) > 1:
                    X.feasible(F, 'issued numbers', 'send:pn:%s' % t, 'building a %s packet changes %s' % (t, ', '.join(sorted(map(pstr, e[1])))), new)
                for p in e[1]:
                    note(X, spn, (t, 'counter'), p, F, 'issued numbers', new)
                for p in e[2] - e[1]:
                    note(X, spn, (t, 'acked'), p, F, 'issued numbers', new)
        if not (isinstance(v, Adt) and v.d == RES and v.v == 0):
            continue
        hd = get_path(E, s2, v.f[0], ('header',))
        # keep the writer cheap: the ids do not matter here
        for f, x in (('destination_connection_id_length', 8), ('source_connection_id_length', 8)):
            if isinstance(hd, Adt) and findex(E, hd, f) is not None:
                hd = set_path(E, s2, hd, (f,), iconst(x, 8))
        pv = set_path(E, s2, v.f[0], ('header',), hd) if hd is not None else v.f[0]
        pr = Ref(E.new_root(s2, pv))
        E.cuts = {SF: cut_ser} if SF in E.fns else {}
        try:
            out = X.run(ser, p_crypto.args_for(X, E, s2, ser, {name: [pr], 'Connection': [cr]}), s2)
        finally:
            E.cuts = {}
        for s3, w in out:
            if any(e[0] == 'envfail' for e in s3.ev):
                continue
            use = evs(s3, 'cipher', 'seal')
            for F in s3.cases():
                for e in use:
                    ids = key_path(e[2])
                    if len(ids) != 1:
                        X.und('key used for %s packets is not traced' % t)
                        continue
                    note(X, send, t, id_path(list(ids)[0]), F, 'sending keys', ser)
                if isinstance(w, Adt) and w.d == RES and w.v == 0:
                    kinds = {e[0] for e in use}
                    if kinds != {'cipher', 'seal'}:
                        X.feasible(F, 'sending keys', 'send:none:%s' % t, 'a %s packet is sent without the keys of its space' % t, ser)
                    else:
                        X.ok('sending keys: required')
    if t not in send and not X.viol and not X.unknown:
        X.und('no keys are used for sending %s packets' % t)


def cut_trunc(E, st, args, stack, site):
    """truncate_pn: some bytes of the number, or an error"""
    st = st.copy()
    st.event('trunc', tuple(args))
    s2 = st.copy()
    return [(st, ok(Seq((('s', '#pnb', L0, lin_atom(atom_var(('#pnbl',), 64, 1, 8))),), U8))), (s2, err(Opq('pnerr')))]


def compare_paths(X, recv, send, rpn, spn):
    def p(tab, k):
        return tab[k][0] if k in tab else None

    def clash(tab, k, what, text):
        X.feasible(tab[k][1], what, '%s:%s' % (what, k), text, tab[k][2])
    # different spaces and directions never use the same keys
    uses = [(('receiving', t), recv[t]) for t in recv] + [(('sending', t), send[t]) for t in send]
    for i, ((d1, t1), a) in enumerate(uses):
        for (d2, t2), b in uses[i + 1:]:
            same = d1 == d2 and SPACE[t1] == SPACE[t2]
            if same == (a[0] == b[0]):
                X.ok('separate keys' if not same else 'shared keys')
            elif same:
                X.feasible(b[1], 'keys', 'keys:%s:%s' % (t1, t2), '%s %s packets uses %s but %s packets %s although they share a number space' % (d1, t1, pstr(a[0]), t2, pstr(b[0])), b[2])
            else:
                X.feasible(b[1], 'keys', 'keys:%s:%s:%s:%s' % (d1, t1, d2, t2), '%s %s packets and %s %s packets use the same keys (%s)' % (d1, t1, d2, t2, pstr(a[0])), b[2])
    # the direction is chosen the same way in every space, the space the same way in both directions
    ri, si = p(recv, 'Initial'), p(send, 'Initial')
    if ri is None or si is None or len(ri) != len(si):
        return X.und('key paths cannot be compared')
    D = [i for i in range(len(ri)) if ri[i] != si[i]]
    for (dr, t), a in uses:
        a, F, d = a
        if len(a) != len(ri):
            X.und('key paths cannot be compared')
            continue
        own, other = (ri, si) if dr == 'receiving' else (si, ri)
        if all(a[i] == own[i] for i in D):
            X.ok('direction: %s %s' % (dr, t))
        elif all(a[i] == other[i] for i in D):
            X.feasible(F, 'direction', 'direction:%s:%s' % (dr, t), '%s %s packets uses the keys of the other direction (%s)' % (dr, t, pstr(a)), d)
        else:
            X.und('direction of %s not resolved' % pstr(a))
    space = {}
    rest = [i for i in range(len(ri)) if i not in D]
    for t in recv:
        space[SPACE[t]] = tuple(recv[t][0][i] for i in rest) if len(recv[t][0]) == len(ri) else None
    k = next((i for i in rest if len({recv[t][0][i] for t in recv}) > 1), None)

    def which(path):
        """space a path belongs to"""
        if k is None or len(path) <= k:
            return None
        for t in recv:
            if recv[t][0][:k + 1] == path[:k + 1]:
                return SPACE[t]
        return None
    for t in send:
        judge(X, which(send[t][0]), SPACE[t], send[t], 'sending keys', 'sending %s packets uses keys of another number space' % t)
    for t in rpn:
        judge(X, which(rpn[t][0]), SPACE[t], rpn[t], 'received numbers', 'numbers of received %s packets are expanded with the state of another number space' % t)
    for t, kind in spn:
        judge(X, which(spn[(t, kind)][0]), SPACE[t], spn[(t, kind)], 'issued numbers', 'numbers of sent %s packets use the %s state of another number space' % (t, kind))
    # and number state is not shared between spaces
    for tab in (rpn, spn):
        ks = list(tab)
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                ta, tb = (a, b) if tab is rpn else (a[0], b[0])
                if SPACE[ta] != SPACE[tb]:
                    if tab[a][0] == tab[b][0]:
                        X.feasible(tab[b][1], 'number state', 'pn:%s:%s' % (a, b), '%s and %s packets share %s' % (ta, tb, pstr(tab[a][0])), tab[b][2])
                    else:
                        X.ok('number state: separate')


def judge(X, got, want, e, what, text):
    if got == want:
        X.ok(what)
    elif got is None:
        X.und('%s: %s not attributed to a number space' % (what, pstr(e[0])))
    else:
        X.feasible(e[1], what, '%s:%s' % (what, pstr(e[0])), '%s (%s)' % (text, pstr(e[0])), e[2])


def new_keys(X, E, recv, send):
    """a new connection has exactly the Initial keys, the server's being the local ones of a server"""
    d = X.fn(CO + 'Connection::new')
    enc = X.fn(p_crypto.SE + 'encrypt_payload')
    U, ver, K = adt_of(X, 'U160'), adt_of(X, 'Version'), adt_of(X, 'Secrets')
    if 'Initial' not in recv or 'Initial' not in send:
        return
    idv = (sv('dhi', 32), sv('dlo', 128))
    for server, k in [(r, k) for r in (True, False) for k in range(21)]:
        for s2, v in run_simple(X, d, [Bool(server), Adt(ver, 0, ()), Adt(U, 0, idv), usz(k)], State(), 'Connection::new'):
            if not (isinstance(v, Adt) and v.d == RES):
                X.und('Connection::new: result not resolved')
                continue
            if v.v == 1:
                continue
            for F in s2.cases():
                sec = dict(p_crypto.find_secrets(E, v.f[0], K))
                init = p_crypto.extract(F, p_crypto.SALT_V1, Seq(p_packet.id_bytes(idv, k), U8))
                for path in sec:
                    if path not in (recv['Initial'][0], send['Initial'][0]):
                        X.feasible(F, 'new connection', 'new:%s' % pstr(path), 'a new connection has keys in %s' % pstr(path), d)
                    else:
                        X.ok('new connection: initial keys only')
                for tab, dr, own in ((send, 'sending', server), (recv, 'receiving', not server)):
                    path = tab['Initial'][0]
                    x = sec.get(path)
                    who = 'server' if server else 'client'
                    if x is None:
                        X.feasible(F, 'new connection', 'new:none:%s' % dr, 'a new connection has no Initial keys for %s' % dr, d)
                        continue
                    prk = p_crypto.expand(F, init, b'server in' if own else b'client in', 32)
                    wrong = p_crypto.expand(F, init, b'client in' if own else b'server in', 32)
                    if p_crypto.holds_key(X, E, s2, F, x, prk, enc):
                        X.ok('new connection: %s keys of a %s' % (dr, who))
                    elif p_crypto.holds_key(X, E, s2, F, x, wrong, enc):
                        X.feasible(F, 'new connection', 'new:%s:%s' % (who, dr), 'a %s uses the keys of the wrong role for %s' % (who, dr), d)
                    else:
                        X.und('keys of a new connection not resolved (see C11)')


# ------------------------------------------------------------------ C13
def spaces(X):
    a = adt_of(X, 'PacketNumberSpace')
    return a, [v['n'] for v in X.E.adts[a]['v']]


def gp_args(X, E, st, cr, sp):
    return p_crypto.args_for(X, E, st, X.fn(GP), {'Connection': [cr], 'PacketNumberSpace': [sp]})


def limit(X, E, st, lv, cr):
    """packet numbers are below 2^62"""
    v = E.load(st, cr)
    for p, id, ty in lv:
        if is_u64(ty):
            x = get_path(E, st, v, p)
            if isinstance(x, Int):
                st = st.assume(c_le(x.lin, Lin(V62 - 1)))
    return st


def pair(E, st, v):
    """(number, bytes) of a successful result"""
    if not (isinstance(v, Adt) and v.v == 0):
        return None
    t = v.f[0]
    if isinstance(t, Sym):
        t = E.expand(st, t)
    if not isinstance(t, Adt) or len(t.f) < 2:
        return None
    n = [x for x in t.f if isinstance(x, Int)]
    q = [x for x in (seqval(E, st, y) for y in t.f if not isinstance(y, Int)) if x is not None]
    return (n[0], q[0]) if len(n) == 1 and len(q) == 1 else None


@prop('C13', 'abstract interpretation of packet number issue on an arbitrary connection: effect on every field of the connection on every path, and of every function that can modify a connection',
      'All connection states below packet number 2^62, all outcomes of truncation. The inductive step (each call returns the counter and advances it by one, nothing else does) plus the initial value give the sequence for every history.')
def c13(X):
    E = X.E
    d = X.fn(GP)
    lv = leaves(E, conn_ty(X))
    PA, names = spaces(X)
    counter = {}
    for i, nm in enumerate(names):
        st = State()
        cr = conn_ref(X, E, st)
        st = limit(X, E, st, lv, cr)
        before = E.load(st, cr)
        E.cuts = {CO + 'truncate_pn': cut_trunc} if CO + 'truncate_pn' in E.fns else {}
        try:
            res = X.run(d, gp_args(X, E, st, cr, Adt(PA, i, ())), st)
        finally:
            E.cuts = {}
        X.no_panics(d, 'get_next_pn')
        okn = 0
        # the counter: the leaf returned as the number
        for s2, v in res:
            pr = pair(E, s2, v)
            if pr is None:
                continue
            for p, id, ty in lv:
                x = get_path(E, s2, before, p)
                if is_u64(ty) and isinstance(x, Int) and eqv(s2.facts, pr[0], x) is True:
                    counter.setdefault(nm, p)
        for s2, v in res:
            if not (isinstance(v, Adt) and v.d == RES):
                X.und('get_next_pn: result not resolved')
                continue
            ch = changed(X, E, s2, lv, cr, before)
            if ch is None:
                X.und('get_next_pn: effect not resolved')
                continue
            for F in s2.cases():
                step(X, E, F, nm, v, pair(E, s2, v), ch, before, s2, lv, counter, d)
            okn += v.v == 0
        if not okn and not X.viol:
            X.und('get_next_pn never succeeds for %s' % nm)
    first_numbers(X, E, d, PA, names)
    if not X.viol:
        others(X, E, lv, PA, names, counter, d)
    X.floor(15, 'packet number obligations')


def step(X, E, F, nm, v, pr, ch, before, s2, lv, counter, d):
    p = counter.get(nm)
    if v.v == 0 and pr is None:
        return X.und('get_next_pn: result not resolved')
    if p is None:
        # not the plain value of a field: any changed field must have been returned
        num = [(q, a, b) for q, a, b in ch if isinstance(a, Int) and isinstance(b, Int)]
        if pr is not None and len(num) == 1:
            return X.same(F, pr[0], num[0][1], 'issued number', 'issue:%s' % nm, 'number issued in the %s space' % nm, d)
        if pr is not None and not num:
            return X.feasible(F, 'counter', 'counter:%s' % nm, 'issuing a number in the %s space does not advance its counter' % nm, d)
        return X.und('counter of the %s space not identified' % nm)
    old = get_path(E, s2, before, p)
    if pr is not None:
        X.same(F, pr[0], old, 'issued number', 'issue:%s' % nm, 'number issued in the %s space' % nm, d)
    new = [b for q, a, b in ch if q == p]
    if not new:
        X.feasible(F, 'counter', 'counter:%s:%d' % (nm, v.v), 'the counter of the %s space is not advanced%s' % (nm, ' when building the packet fails' if v.v else ''), d)
    else:
        X.same(F, new[0], Int(64, False, None, old.lin + 1), 'counter', 'counter:%s:%d' % (nm, v.v), 'counter of the %s space after issuing a number' % nm, d)
    for q, a, b in ch:
        if q != p:
            if isinstance(a, Int) or is_u64(opt_of(next(t for r, i, t in lv if r == q))):
                X.feasible(F, 'other state', 'other:%s:%s' % (nm, pstr(q)), 'issuing a number in the %s space changes %s' % (nm, pstr(q)), d)
            else:
                X.ok('other state: not packet number state')
    if len(ch) <= 1:
        X.ok('other state: untouched')


def first_numbers(X, E, d, PA, names):
    """a new connection issues 0, 1 in each space, whatever happened in the others"""
    U, ver = adt_of(X, 'U160'), adt_of(X, 'Version')
    new = X.fn(CO + 'Connection::new')
    idv = (sv('dhi', 32), sv('dlo', 128))
    for s2, v in run_simple(X, new, [Bool(True), Adt(ver, 0, ()), Adt(U, 0, idv), usz(8)], State(), 'Connection::new'):
        if not (isinstance(v, Adt) and v.d == RES and v.v == 0):
            continue
        for i, nm in enumerate(names):
            for other in range(len(names)):
                s0 = s2.copy()
                cr = Ref(E.new_root(s0, v.f[0]))
                todo = [(s0, [i, other, i])]
                seen = {}
                while todo:
                    st, seq = todo.pop()
                    if not seq:
                        continue
                    k = seq[0]
                    cnt = len([1 for e in st.ev if e[0] == 'issued' and e[1] == k])
                    for s3, w in X.run(d, gp_args(X, E, st, cr, Adt(PA, k, ())), st):
                        pr = pair(E, s3, w)
                        if pr is None:
                            for F in s3.cases():
                                X.feasible(F, 'first numbers', 'first:fails', 'a new connection cannot issue packet number %d in the %s space' % (cnt, names[k]), d)
                            continue
                        for F in s3.cases():
                            X.same(F, pr[0], iconst(cnt, 64), 'first numbers', 'first:%s' % names[k], 'number of packet %d in the %s space of a new connection' % (cnt, names[k]), d)
                        s3 = s3.copy()
                        s3.event('issued', k)
                        todo.append((s3, seq[1:]))


def has_mut_conn(E, f, ct):
    for j, l in enumerate(f['locals'][1:f['argc'] + 1]):
        t = l['t']
        if t['k'] == 'ref' and t.get('m') and t['e']['k'] == 'adt' and t['e']['d'] == ct:
            return True
    return False


def callees(E, d):
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if 'd' in x and isinstance(x['d'], str) and x['d'] in E.fns:
                out.add(x['d'])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(E.fns[d].get('blocks'))
    return out


def others(X, E, lv, PA, names, counter, gp):
    """every other function taking a mutable connection advances the counters exactly by the numbers it took"""
    ct = adt_of(X, 'Connection')
    fns = [d for d, f in E.fns.items() if f.get('blocks') and f.get('locals') and d.startswith('quic_sea::') and has_mut_conn(E, f, ct)]
    call = {d: callees(E, d) for d, f in E.fns.items() if f.get('blocks')}
    inner = set()
    work = [gp]
    while work:
        for c in call.get(work.pop(), ()):
            if c not in inner:
                inner.add(c)
                work.append(c)
    paths = set(counter.values())
    for d in fns:
        if d == gp:
            continue
        callers = [c for c in call if d in call[c]]
        if callers and all(c == gp or c in inner for c in callers):
            X.ok('helper of number issue')
            continue
        if callers and all(c in fns for c in callers):
            X.ok('examined within its callers')
            continue
        if '::tests::' in d or E.fns[d].get('ret_ref'):
            continue
        rt = E.fns[d]['locals'][0]['t']
        if rt['k'] == 'ref':
            continue
        st = State()
        cr = conn_ref(X, E, st)
        st = limit(X, E, st, lv, cr)
        before = E.load(st, cr)
        args = []
        for j, l in enumerate(E.fns[d]['locals'][1:E.fns[d]['argc'] + 1]):
            t = l['t']
            args.append(cr if t['k'] == 'ref' and t['e']['k'] == 'adt' and t['e']['d'] == ct else E.mksym(('arg', d, j), t))

        def cut(E2, st2, a, stack, site):
            with contracts.Iso(E2):
                old = E2.cuts
                E2.cuts = {CO + 'truncate_pn': cut_trunc} if CO + 'truncate_pn' in E2.fns else {}
                try:
                    out = E2.exec_fn(gp, a, st2)
                finally:
                    E2.cuts = old
            sp = next((x for x in a if isinstance(x, Adt) and x.d == PA), None)
            for s3, _ in out:
                s3.event('took', names[sp.v] if sp is not None else None)
            return out
        E.cuts = {gp: cut}
        try:
            res = X.run(d, args, st)
        finally:
            E.cuts = {}
        for s2, v in res:
            ch = changed(X, E, s2, lv, cr, before)
            if ch is None:
                X.und('%s: effect on the connection not resolved' % d)
                continue
            took = [e[1] for e in evs(s2, 'took')]
            for F in s2.cases():
                for nm, p in counter.items():
                    old = get_path(E, s2, before, p)
                    new = next((b for q, a, b in ch if q == p), old)
                    if not isinstance(new, Int):
                        X.und('%s: counter not resolved' % d)
                        continue
                    X.same(F, new, Int(64, False, None, old.lin + took.count(nm)), 'counter after other operations', 'effect:%s:%s' % (d, nm),
                           'counter of the %s space after %s, which took %d numbers' % (nm, d.split('::', 1)[1], took.count(nm)), d)


# ------------------------------------------------------------------ C14
@prop('C14', 'abstract interpretation of packet number truncation and reconstruction over all numbers, partitioned by the magnitude of the distance and the number of bytes, compared with RFC 9000 appendix A.2 and A.3',
      'All packet numbers and acknowledged / received numbers below 2^62; 62 magnitude classes by enumeration, each for all numbers of the class at once.')
def c14(X):
    E = X.E
    lv = leaves(E, conn_ty(X))
    PA, names = spaces(X)
    acked = truncation(X, E, lv, PA, names)
    got = reconstruction(X, E, lv, PA, names)
    for nm in names:
        a, b = acked.get(nm), got.get(nm)
        if a is None or b is None:
            continue
        if a[0] == b[0]:
            X.feasible(b[1], 'number state', 'state:%s' % nm, 'numbers we send and numbers we receive in the %s space are both interpreted relative to %s' % (nm, pstr(a[0])), b[2])
        else:
            X.ok('number state: %s' % nm)
    X.floor(150, 'packet number encoding obligations')


def truncation(X, E, lv, PA, names):
    d = X.fn(GP)
    acked = {}
    for i, nm in enumerate(names):
        # find the counter and the acknowledged number this space uses
        st = State()
        cr = conn_ref(X, E, st)
        before = E.load(st, cr)
        rd, cn = set(), set()
        st0 = limit(X, E, st, lv, cr)
        got = []

        def cut(E2, s, a, stack, site):
            got.append(a)
            return cut_trunc(E2, s, a, stack, site)
        E.cuts = {CO + 'truncate_pn': cut} if CO + 'truncate_pn' in E.fns else {}
        try:
            res = X.run(d, gp_args(X, E, st0, cr, Adt(PA, i, ())), st0)
        finally:
            E.cuts = {}
        for s2, v in res:
            rd |= read_leaves(X, lv, st0.facts, s2, v)
            ch = changed(X, E, s2, lv, cr, before)
            cn |= {p for p, a, b in ch or ()}
        for a in got:
            for x in a:
                if isinstance(x, Sym):
                    rd |= {p for p, id, ty in lv if id == x.id}
        ty = {p: t for p, _, t in lv}
        cn = {p for p in cn if is_u64(ty[p])}
        rd = {p for p in rd if is_u64(opt_of(ty[p]))}
        if len(cn) != 1 or len(rd) != 1:
            X.und('%s space: counter or acknowledged number not identified' % nm)
            continue
        cp, ap = list(cn)[0], list(rd)[0]
        acked[nm] = (ap, res[0][0].facts, d)
        full = i == 0 or X.tier != 'quick'
        # nothing acknowledged yet
        pn = sv('pn', 64)
        run_trunc(X, E, d, lv, PA, i, cp, ap, pn, None, None, nm, [c_le(pn.lin, Lin(V62 - 1))])
        # acknowledged at or above the number
        x = sv('ack', 64)
        run_trunc(X, E, d, lv, PA, i, cp, ap, pn, x, 'acked', nm, [c_le(pn.lin, x.lin), c_le(x.lin, Lin(V62 - 1))])
        for h in range(62) if full else (0, 6, 7, 8, 14, 15, 30, 31, 32, 60):
            # distance in [2^h, 2^(h+1))
            low = sv('d%d' % h, h).bits if h else ()
            dist = Int(64, False, tuple(low) + (ONE_F,) + (ZERO_F,) * (63 - h))
            num = Int(64, False, None, x.lin + dist.lin)
            run_trunc(X, E, d, lv, PA, i, cp, ap, num, x, h, nm, [c_le(num.lin, Lin(V62 - 1))])
    return acked


def run_trunc(X, E, d, lv, PA, i, cp, ap, pn, x, h, nm, cs):
    st = State()
    cr = conn_ref(X, E, st)
    v = E.load(st, cr)
    v = set_path(E, st, v, cp, pn)
    v = set_path(E, st, v, ap, NONE if x is None else Adt(OPT, 1, (x,)))
    E.store(st, cr, v)
    for c in cs:
        st = st.assume(c)
        if st is None:
            return
    res = X.run(d, gp_args(X, E, st, cr, Adt(PA, i, ())), st)
    X.no_panics(d, 'truncation')
    for s2, v in res:
        if not (isinstance(v, Adt) and v.d == RES):
            X.und('get_next_pn: result not resolved')
            continue
        pr = pair(E, s2, v)
        if v.v == 0 and pr is None:
            X.und('get_next_pn: result not resolved')
            continue
        for F in s2.cases():
            if x is None:
                for G, small in X.splits(F, lambda G: need(G, c_le(pn.lin, Lin(0xffffffff)), 'four bytes')):
                    if not small:
                        if v.v == 0:
                            X.feasible(G, 'first numbers', 'trunc:none:large', 'a packet number above 2^32-1 is truncated although nothing was acknowledged', d)
                        else:
                            X.ok('first numbers: refused')
                    elif v.v == 1:
                        X.feasible(G, 'first numbers', 'trunc:none:rejects', 'a packet number is refused although nothing was acknowledged', d)
                    else:
                        X.same(G, pr[1], low_bytes(G, pn, 4), 'first numbers', 'trunc:none:bytes', 'bytes of a packet number when nothing was acknowledged', d)
            elif h == 'acked':
                if v.v == 0:
                    X.feasible(F, 'acknowledged numbers', 'trunc:acked', 'an already acknowledged packet number is issued', d)
                else:
                    X.ok('acknowledged numbers: refused')
            else:
                k = (h + 2 + 7) // 8
                if v.v == 1:
                    if k > 4:
                        X.ok('unrepresentable numbers: refused')
                    else:
                        X.feasible(F, 'truncation', 'trunc:rejects:%d' % h, 'a packet number at a distance of at least %d is refused' % (1 << h), d)
                    continue
                n = F.nlin(seq_len(pr[1]))
                if n.t:
                    X.und('length of a truncated number not resolved')
                    continue
                n = n.c
                if n < k:
                    X.feasible(F, 'truncation', 'trunc:short:%d:%d' % (h, n), 'a packet number at a distance of %d or more is sent in %d bytes' % (1 << h, n), d)
                elif n > 4 and k <= 4:
                    X.feasible(F, 'truncation', 'trunc:long:%d' % h, 'a packet number that fits 4 bytes is encoded in %d' % n, d)
                else:
                    X.same(F, pr[1], low_bytes(F, pn, n), 'truncation', 'trunc:bytes', 'bytes of a truncated packet number', d)


def low_bytes(F, x, n):
    b = F.ibits(x)
    return Seq([('e', Int(8, False, tuple(b[8 * j:8 * j + 8]))) for j in range(n - 1, -1, -1)], U8)


def reconstruction(X, E, lv, PA, names):
    d = X.fn(RP)
    got = {}
    ty = {p: t for p, _, t in lv}
    for i, nm in enumerate(names):
        for k in (1, 2, 3, 4):
            q = Seq([('e', byte('PN', Lin(j))) for j in range(k)], U8)
            # which number is it relative to
            st = State()
            cr = conn_ref(X, E, st)
            st = limit_opt(X, E, st, lv, cr)
            b = Ref(E.new_root(st, q), (), (L0, Lin(k)))

            def args(b, cr, st):
                return p_crypto.args_for(X, E, st, d, {'Connection': [cr], 'PacketNumberSpace': [Adt(PA, i, ())], 'slice': [b]})
            if k == 1:
                rd = set()
                fs = st.facts
                for s2, v in X.run(d, args(b, cr, st), st):
                    rd |= read_leaves(X, lv, st.facts, s2, v)
                    fs = s2.facts
                X.no_panics(d, 'reconstruction')
                rd = {p for p in rd if is_u64(opt_of(ty[p]))}
                if len(rd) != 1:
                    X.und('%s space: largest received number not identified' % nm)
                    break
                lp = list(rd)[0]
                got[nm] = (lp, fs, d)
            for some in (False, True):
                e = sv('exp', 64)
                st = State()
                cr = conn_ref(X, E, st)
                v = set_path(E, st, E.load(st, cr), lp, Adt(OPT, 1, (Int(64, False, None, e.lin - 1),)) if some else NONE)
                E.store(st, cr, v)
                st = st.assume(c_le(Lin(1), e.lin)).assume(c_le(e.lin, Lin(V62)))
                b = Ref(E.new_root(st, q), (), (L0, Lin(k)))
                res = X.run(d, args(b, cr, st), st)
                X.no_panics(d, 'reconstruction')
                pb = [x for j in range(k - 1, -1, -1) for x in byte('PN', Lin(j)).bits]

                def ref(F):
                    if not some:
                        return Int(64, False, tuple(pb) + (ZERO_F,) * (64 - len(pb)))
                    cand = Int(64, False, tuple(pb) + tuple(F.ibits(e)[8 * k:]))
                    cl = F.nlin(cand.lin)
                    win, half = 1 << (8 * k), 1 << (8 * k - 1)
                    if need(F, c_le(cl + half, e.lin), 'below') and need(F, c_le(cl + 1, Lin((1 << 62) - win)), 'limit'):
                        return Int(64, False, None, F.nlin(cl + win))
                    if need(F, c_le(e.lin + half + 1, cl), 'above') and need(F, c_le(Lin(win), cl), 'zero'):
                        return Int(64, False, None, F.nlin(cl - win))
                    return cand

                def cmp(G, s2, v, w):
                    X.same(G, v, w, 'reconstruction: %d bytes' % k, 'recon:%d:%s' % (k, some), 'number reconstructed from %d bytes%s' % (k, '' if some else ' when nothing was received'), d)
                X.outcome(d, 'reconstruct_remote_pn', res, None, ref, cmp, 'reconstruction')
    return got


def limit_opt(X, E, st, lv, cr):
    for p, id, ty in lv:
        if is_u64(opt_of(ty)):
            st = st.assume(c_le(lin_atom(atom_var(('#f', id, '0'), 64, 0, None)), Lin(V62 - 1)))
    return st
