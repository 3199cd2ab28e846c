"""C05 no panics, C06 bounded cost, C22 soundness."""
from spec import *
import p_codec, p_frame, p_packet, p_crypto, p_conn, p_route
from p_codec import adt_of, seqval
from p_packet import PK, conn_ref, Keys
from p_route import Sock, RT, CN, flat_ev, operations, op_args
from contracts import iso_stream

PROPS = {}


def prop(pid, technique, level_note):
    def deco(f):
        PROPS[pid] = {'run': f, 'technique': technique, 'note': level_note}
        return f
    return deco


# ------------------------------------------------------------------ processing a datagram, piece by piece
class Piece:
    """one analysed step of processing a received datagram: its outcomes, loop states and panics are examined by `look`"""

    def __init__(self, X, look):
        self.X, self.look = X, look
        self.uncut = look is look_cost
        self.names = set()

    def run(self, name, d, args, st, cuts=None, n=L0):
        X, E = self.X, self.X.E
        self.n = n
        E.cuts = dict(cuts or {})
        try:
            res = X.run(d, args, st)
        finally:
            E.cuts = {}
        self.names.add(name)
        self.look(X, E, name, d, res, n)
        return res


def frame_pieces(P, size):
    X, E = P.X, P.X.E
    d = p_frame.frame_anchor(X, 'deserialize_frame')
    st = State()
    s, n = iso_stream(E, st, 'D')
    st = st.assume(c_le(n, Lin(65535 if size is None else size)) if size != 12 else c_eqi(usz(n), usz(12)))
    P.run('frame', d, [s], st, n=n)


def frames_piece(P, size):
    X, E = P.X, P.X.E
    one = p_frame.frame_anchor(X, 'deserialize_frame')
    d = p_frame.frame_anchor(X, 'deserialize_frames')
    st = State()
    s, n = iso_stream(E, st, 'P')
    st = st.assume(c_le(n, Lin(65535))) if size is None else st.assume(c_eqi(usz(n), usz(size)))
    p_frame.CUT[0] = one
    P.run('frames', d, [s], st, {one: p_frame.cut_frame}, n)


def packet_piece(P):
    X, E = P.X, P.X.E
    d = X.fn(PK + 'decode_next_packet')
    with Keys(X):
        st = State()
        s, n = iso_stream(E, st, 'D')
        st = st.assume(c_le(n, Lin(65535)))
        cr = conn_ref(X, E, st)
        cuts = {}
        for p, c in ((p_conn.RP, p_packet.cut_pn), ('quic_sea::frame::deserialize_frames', p_packet.cut_frames)):
            if p in E.fns:
                cuts[p] = c
        p_packet.FCUT[0] = 'quic_sea::frame::deserialize_frames'
        P.run('packet', d, [s, cr], st, cuts, n)


def packets_piece(P, size):
    X, E = P.X, P.X.E
    d = X.fn(PK + 'decode_packets')
    p_packet.PCUT[0] = X.fn(PK + 'decode_next_packet')
    st = State()
    s, n = iso_stream(E, st, 'G')
    st = st.assume(c_le(n, Lin(65535))) if size is None else st.assume(c_eqi(usz(n), usz(size)))
    cr = conn_ref(X, E, st)
    P.run('packets', d, [s, cr], st, {p_packet.PCUT[0]: p_packet.cut_packet} if size is None or not P.uncut else {}, n)


def number_piece(P):
    X, E = P.X, P.X.E
    d = X.fn(p_conn.RP)
    ct = p_conn.conn_ty(X)
    lv = p_conn.leaves(E, ct)
    PA, names = p_conn.spaces(X)
    for i, nm in enumerate(names):
        for k in (1, 2, 3, 4):
            st = State()
            cr = conn_ref(X, E, st)
            st = p_conn.limit_opt(X, E, st, lv, cr)
            q = Seq([('e', byte('PN', Lin(j))) for j in range(k)], U8)
            b = Ref(E.new_root(st, q), (), (L0, Lin(k)))
            args = p_crypto.args_for(X, E, st, d, {'Connection': [cr], 'PacketNumberSpace': [Adt(PA, i, ())], 'slice': [b]})
            P.run('packet number', d, args, st, n=Lin(k))


def header_piece(P):
    X, E = P.X, P.X.E
    d = X.fn(PK + 'next_header_from_stream')
    st = State()
    s, n = iso_stream(E, st, 'H')
    st = st.assume(c_le(n, Lin(65535)))
    P.run('header', d, [s], st, n=n)


def reader_pieces(P):
    """the functions elsewhere replaced by their summaries"""
    X, E = P.X, P.X.E
    for d, k in sorted(E.contract.kind.items()):
        if k not in ('varint', 'varintb', 'u160'):
            continue
        for w in ((None,) if k != 'u160' else (0, 1, 8, 16, 17, 20)):
            st = State()
            s, n = iso_stream(E, st, 'R')
            st = st.assume(c_le(n, Lin(65535)))
            E.contract.off.add(d)
            try:
                P.run('reader', d, [s] + ([] if w is None else [iconst(w, E.fns[d]['locals'][2]['t']['w'])]), st, n=n)
            finally:
                E.contract.off.discard(d)


def cut_new_split(E, st, args, stack, site):
    """Connection::new is analysed per length of the id"""
    for a in args:
        if isinstance(a, Int) and st.facts.nint(a).lin.t:
            l = st.facts.nint(a).lin
            if st.facts.dec(c_le(l, Lin(20))) is not True:
                raise Split([c_le(l, Lin(20)), c_le(Lin(21), l)], 'id length')
            raise Split([c_eqi(a, iconst(k, a.w)) for k in range(21)], 'id length')
    return None


def socket_pieces(P, size):
    X, E = P.X, P.X.E
    S = Sock(X)
    S.ref()
    E.hooks['rxlen'] = size
    try:
        ops = operations(X, S)
        own = [d for d in ops if self_only(E, S, d)]
        for d in ops:
            st = State()
            try:
                args = op_args(X, E, S, d, st)
            except Unsupported:
                X.und('%s: arguments not resolved' % d)
                continue
            cuts = {}
            if not any(l['t']['k'] == 'ref' and l['t']['e'].get('d') == S.ty for l in E.fns[d]['locals'][1:E.fns[d]['argc'] + 1]):
                # a wrapper: the operations of the socket it forwards to are pieces of their own
                for o in own:
                    cuts[o] = cut_operation(o)
            dp = PK + 'decode_packets'
            if dp in E.fns:
                p_route.DCUT[0] = dp
                cuts[dp] = p_route.cut_decode
            if CN in E.fns:
                cuts[CN] = cut_new_split
            P.run(d.split('::')[-1] + ' of ' + d.split('::')[-2], d, args, st, cuts, lin_atom(atom_var(('DG', 'len'), 64, 0, 65535)))
    finally:
        E.hooks.pop('rxlen', None)


def self_only(E, S, d):
    a = E.fns[d]['locals'][1:E.fns[d]['argc'] + 1]
    return len(a) == 1 and a[0]['t']['k'] == 'ref' and a[0]['t']['e'].get('d') == S.ty


def cut_operation(o):
    """an operation on the socket alone, analysed on its own for an arbitrary socket: any result"""
    def cut(E, st, args, stack, site):
        E.nfid += 1
        return [(st, E.mksym(('#op', o, E.nfid), E.fns[o]['locals'][0]['t']))]
    return cut


def fmt_pieces(P):
    X, E = P.X, P.X.E
    for d in sorted(E.fns):
        f = E.fns[d]
        if f.get('blocks') and d.endswith('::fmt') and not d.startswith('models::') and 'quic_sea' in d:
            st = State()
            args = []
            for j, l in enumerate(f['locals'][1:f['argc'] + 1]):
                t = l['t']
                if t['k'] == 'ref':
                    E.symroots[('fmt', d, j)] = t['e']
                    args.append(Ref(('S', ('fmt', d, j))))
                else:
                    args.append(E.mksym(('fmt', d, j), t))
            P.run('formatting', d, args, st)


def pieces(X, look):
    P = Piece(X, look)
    cross = not P.uncut     # the instances that cross-check the general result take hours with whole packets
    guarded(X, lambda: reader_pieces(P))
    bounded(X, lambda k: frame_pieces(P, k), (12, 64, 1 << 10), cross)
    bounded(X, lambda k: frames_piece(P, k), (0, 1, 2, 3), cross)
    guarded(X, lambda: packet_piece(P))
    bounded(X, lambda k: packets_piece(P, k), (0, 1, 2, 3), cross)
    guarded(X, lambda: number_piece(P))
    guarded(X, lambda: header_piece(P))
    bounded(X, lambda k: socket_pieces(P, k), (0, 1, 2, 8), cross)
    return P


def guarded(X, f):
    try:
        f()
    except Missing as e:
        X.und('entry point %s does not exist any more' % e)
    except (Unsupported, Split) as e:
        X.und('not analysable: %s' % e)


# ------------------------------------------------------------------ C05
@prop('C05', 'abstract interpretation of every step from the socket to the decoded frames over an arbitrary datagram, connection and connection table: every panic (failed assertion, index, arithmetic overflow, unwrap, explicit panic) must be unreachable',
      'All datagrams and connection states at once, overflow checks and debug assertions included; steps are composed through summaries whose own bodies are analysed as steps.')
def c05(X):
    P = pieces(X, look_panics)
    guarded(X, lambda: fmt_pieces(P))
    X.floor(100, 'panic sites')
    X.assumptions.append('locks are not poisoned, printing, the entropy source and the crypto library do not fail, memory suffices')


def caused(E, name, p):
    """a panic caused by a datagram: one had been received or handed in"""
    if ' of ' not in name:
        return True
    return any(e[0] in ('recv', 'peek') for e in flat_ev(p.st.ev)) or 'datagram' in name


def look_panics(X, E, name, d, res, n):
    hit = set()
    for p in E.panics:
        if env_panic(p) or not caused(E, name, p):
            continue
        hit.add((p.stack[-1] if p.stack else d, p.site))
        k = panic_key(E, p)
        for F in p.st.cases():
            X.feasible(F, 'panic', k, 'a received datagram can make %s panic: %s' % (name, panic_text(p)), panic_text(p))
    # every site that can panic in the functions visited and does not
    for f in E.visited:
        g = E.fns.get(f)
        if not g or not g.get('blocks') or f.startswith('models::'):
            continue
        for b in g['blocks']:
            t = b['t']
            if b.get('cleanup'):
                continue
            if (t['k'] == 'assert' or t['k'] == 'call' and panics(t)) and (f, t.get('sp')) not in hit:
                X.ok('panic: %s' % f)


def panics(t):
    c = (t.get('f') or {}).get('d') or '' if isinstance(t.get('f'), dict) else ''
    return c.split('::')[-1] in ('unwrap', 'expect', 'index', 'index_mut', 'unwrap_err', 'expect_err', 'copy_from_slice', 'split_at', 'panic', 'panic_fmt', 'remove', 'drain')


def panic_key(E, p):
    """stable name of a panic: the unfinished tail of accept is known under a name of its own"""
    m = p.msg or ''
    if p.kind == 'panic' and ('not yet implemented' in m or m.startswith('todo')) and any(x.split('::')[-1] == 'accept' for x in p.stack) and any(e[0] == 'map.insert' for e in flat_ev(p.st.ev)):
        return 'accept:unfinished'
    return '%s/%s' % (p.stack[-1] if p.stack else '?', p.kind)


# ------------------------------------------------------------------ C06
SLACK = 4096
FACTOR = 16      # elements reserved per byte received


@prop('C06', 'abstract interpretation of every step from the socket to the decoded frames over an arbitrary datagram: size of every allocation and trip count of every loop bounded by the bytes received (ranking by stream position or counter at every back edge)',
      'All datagrams at once. Loops: every way round advances a stream over received bytes, is bounded by their number plus a constant, or waits for the next datagram.')
def c06(X):
    X.E.hooks['stall'] = True
    try:
        pieces(X, look_cost)
    finally:
        X.E.hooks.pop('stall', None)
    X.floor(60, 'allocations and loops')


def rx_len(ev, n):
    t = n
    for e in flat_ev(ev):
        if e[0] == 'recv' and isinstance(e[3], Lin):
            t = t + e[3]
    return t


def upper(F, l, depth=0):
    """an upper bound in which parts of numbers (shifted, masked) are replaced by the numbers"""
    r = Lin(l.c)
    for a, x in l.t:
        k = ATOM_KEY[a]
        if x > 0 and depth < 4 and k[0] == 'ext':
            r = r + upper(F, lin_atom(k[1].a), depth + 1).scale(x)
        elif x > 0 and depth < 4 and k[0] == 'lb' and F.le0(Lin(0) - k[1]):
            r = r + upper(F, k[1], depth + 1).scale(x)
        elif x > 0 and depth < 4 and k[0] == 'op' and k[1] in ('div', '#div', 'rem', '#rem') and isinstance(k[2], tuple) and k[2] and isinstance(k[2][0], Lin) and F.le0(Lin(0) - k[2][0]):
            r = r + upper(F, k[2][0], depth + 1).scale(x)
        else:
            r = r + lin_atom(a).scale(x)
    return F.nlin(r)


def look_cost(X, E, name, d, res, n):
    seen = set()
    states = [s for s, _ in res] + [b for _, _, b, _ in E.backs] + [p.st for p in E.panics]
    for s2 in states:
        tot = rx_len(s2.ev, n)
        for e in flat_ev(s2.ev):
            if e[0] != 'alloc':
                continue
            l, site, fn = e[1], e[2], e[3]
            if fn.startswith('models::') and not l.t:
                continue
            if not l.t and l.c <= 1 << 20:
                X.ok('allocation: constant')
                continue
            for F in s2.cases():
                if F.le0(upper(F, F.nlin(l)) - tot - SLACK) or F.le0(upper(F, F.nlin(l)) - tot.scale(FACTOR) - SLACK):
                    X.ok('allocation: received bytes')
                    continue
                X.holds(F, c_le(l, tot.scale(FACTOR) + SLACK), 'allocation: received bytes', 'alloc:%s' % fn, 'memory for %s elements is reserved at %s, more than the %s bytes received' % (F.nlin(l), site, F.nlin(tot)), site)
    for fr, st, G, B, leaves, k, uid in E.loops:
        f = fr.fn['d']
        for b in B:
            progress(X, E, f, st, G, b, leaves, k, n, name)
    for fr, i, cur in E.endless:
        f = fr.fn['d']
        for b in cur:
            if any(e[0] in ('recv', 'recv.err', 'rng', 'peek') for e in flat_ev(b.ev)):
                continue
            tot = rx_len(b.ev, n)
            for F in b.cases():
                G2 = F.assume(c_le(tot, Lin(64)))
                if G2 is not None and i > 250:
                    X.feasible(G2, 'loop', 'loop:%s' % f, '%s goes round a loop more than %d times for %s received bytes' % (f, i, F.nlin(tot)), f)


def progress(X, E, f, st, G, b, leaves, k, n, name):
    ev = b.ev[len(G.ev):]
    if any(e[0] in ('recv', 'recv.err', 'peek') for e in flat_ev(ev)):
        return X.ok('loop: next datagram')
    if any(e[0] == 'rng' for e in flat_ev(ev)):
        return X.ok('loop: next random draw')
    kl = lin_atom(k)
    tot = rx_len(b.ev, n)
    F = b.facts
    if F.le0(kl - tot - SLACK):
        return X.ok('loop: bounded count')
    for key, l in leaves.items():
        if len(key) < 2:
            continue
        v1 = loops.locate2(E, b, key)
        v0 = loops.locate2(E, G, key)
        par = loops.locate2(E, G, key[:-1])
        if not (isinstance(v0, Int) and isinstance(v1, Int) and isinstance(par, Adt) and par.d in ('@Stream', '@SIter', '@IntoIter') and key[-1] == 1):
            continue
        if F.le0(v0.lin + 1 - v1.lin) and F.le0(par.f[2].lin - tot - SLACK):
            return X.ok('loop: advances through received bytes')
    X.holds(F, c_le(kl, tot + SLACK), 'loop: bounded', 'loop:%s' % f, 'a loop in %s (%s) neither advances through the received bytes nor is bounded by them' % (f, name), f)


# ------------------------------------------------------------------ C22
@prop('C22', 'enumeration of the unsafe operations (calls, raw dereferences, static mut, unsafe impls) reached from functions callable without unsafe, each discharged or refuted: flow of raw memory into typed values, abstract interpretation of unchecked accesses on arbitrary arguments, field-wise check of unsafe Send/Sync',
      'Every function and type parameter; functions marked unsafe hand their obligations to their callers.')
def c22(X):
    E = X.E
    src = Sources(E)
    for d in sorted(E.fns):
        f = E.fns[d]
        if not f.get('blocks') or d.startswith('models::'):
            continue
        X.functions[d] = X.functions.get(d, 0) + 1
        if f.get('is_unsafe'):
            X.ok('marked unsafe: %s' % d)
            continue
        ops = list(unsafe_ops(E, f))
        if not ops:
            X.ok('no unsafe operation')
            continue
        safe_fn(X, E, src, d, f, ops)
    for im in E.impls:
        t = im['trait']
        if t in ('std::marker::Send', 'std::marker::Sync'):
            bad = [(a, b) for a, b in im.get('lacking', ()) if not_thread_safe(b)]
            for a, b in bad:
                X.bad('impl:%s' % ty_text(im['self']), '%s is declared %s at %s although its field %s (%s) must not be shared between threads' % (ty_text(im['self']), t.split('::')[-1], im['sp'], a, ty_text(b)), {'at': im['sp']})
            if im.get('lacking') and not bad:
                X.und('%s for %s: depends on how its fields are used' % (t, ty_text(im['self'])))
            elif not bad:
                X.ok('impl of a thread marker')
    X.floor(100, 'functions')
    X.assumptions.append('the unsafe code of the standard library and of dependencies is sound')


def ty_text(t):
    if t['k'] == 'adt':
        return t['d'].split('::')[-1] + ('<%s>' % ', '.join(ty_text(x) for x in t['a']) if t.get('a') else '')
    if t['k'] in ('ref', 'ptr', 'slice', 'array'):
        return {'ref': '&', 'ptr': '*', 'slice': '[..]', 'array': '[;]'}[t['k']] + ty_text(t['e'])
    return t.get('n') or t.get('d') or t['k']


def not_thread_safe(t):
    if t['k'] == 'adt':
        return t['d'].split('::')[-1] in ('Rc', 'Cell', 'RefCell', 'OnceCell') or any(not_thread_safe(x) for x in t.get('a', ()) if t['d'].split('::')[-1] in ('Option', 'Vec', 'Box'))
    return False


def name_of(t):
    f = t.get('f')
    return (f.get('d') or '') if isinstance(f, dict) and f.get('o') == 'fn' else ''


def unsafe_ops(E, f):
    """(kind, block, terminator or statement)"""
    L = f['locals']
    statics, boxes = set(), set()
    for b in f['blocks']:
        if b.get('cleanup'):
            continue
        for s in b['s']:
            if s['s'] != 'assign':
                continue
            v = s['v']
            if v['r'] == 'use' and v['x']['o'] == 'const' and (v['x'].get('v') or {}).get('c') == 'static' and v['x']['t']['k'] == 'ptr' and not s['p']['p']:
                statics.add(s['p']['l'])
            if v['r'] == 'cast' and v.get('kind', '').startswith('BoxDeref') and not s['p']['p']:
                boxes.add(s['p']['l'])
    for b in f['blocks']:
        if b.get('cleanup'):
            continue
        for s in b['s']:
            if s['s'] != 'assign':
                continue
            v = s['v']
            if v['r'] == 'cast' and 'Transmute' in v.get('kind', '') and not v['kind'].startswith('BoxDeref'):
                yield 'transmute', b, s
            for p, w in places(s):
                for i, e in enumerate(p['p']):
                    if e[0] == 'deref' and i == 0 and p['l'] not in boxes and L[p['l']]['t']['k'] == 'ptr':
                        yield ('static' if p['l'] in statics else 'deref') + ('-write' if w else ''), b, s
        t = b['t']
        if t['k'] == 'call' and isinstance(t.get('f'), dict) and t['f'].get('unsafe') and not name_of(t).startswith('std::fmt::'):
            yield 'call', b, t


def places(s):
    yield s['p'], True
    v = s['v']
    if v['r'] in ('ref', 'rawptr', 'addr') and 'p' in v:
        yield v['p'], 'mut' in str(v.get('m', v.get('kind', ''))).lower() or v.get('m') is True
    for k in ('x', 'a', 'b'):
        o = v.get(k)
        if isinstance(o, dict) and o.get('o') in ('copy', 'move'):
            yield o['p'], False
    for o in v.get('xs', ()) or ():
        if isinstance(o, dict) and o.get('o') in ('copy', 'move'):
            yield o['p'], False


ZERO = ('alloc_zeroed', 'zeroed')
UNIN = ('alloc', 'uninitialized', 'realloc', 'uninit')
FILL = ('write', 'write_bytes', 'copy_nonoverlapping', 'copy', 'as_mut_ptr', 'spare_capacity_mut', 'copy_from_nonoverlapping', 'copy_from', 'copy_from_slice', 'fill', 'write_volatile')


class Sources:
    """which local functions hand out zeroed or unwritten memory as values of which type"""

    def __init__(self, E):
        self.E = E
        self.memo = {}

    def kind(self, d, f):
        """None, 'zero', 'uninit' or '?' for a call of f"""
        n = d.split('::')[-1]
        m = d.rsplit('::', 2)[-2] if d.count('::') > 1 else ''
        if d.startswith('std::alloc::') or d.startswith('alloc::alloc::') or d.startswith('std::mem::') or 'MaybeUninit' in d:
            return 'zero' if n in ZERO else 'uninit' if n in UNIN else None
        g = self.E.fns.get(d)
        if g and g.get('blocks') and g.get('is_unsafe'):
            if d not in self.memo:
                self.memo[d] = None
                self.memo[d] = self.flow(g)[0]
            return self.memo[d]
        return None

    def flow(self, g):
        """(kind of raw memory that reaches the return value, whether something may write it, typed: list of (local, kind))"""
        taint = {}
        fill = False
        for _ in range(len(g['locals']) + 2):
            ch = False
            for b in g['blocks']:
                if b.get('cleanup'):
                    continue
                for s in b['s']:
                    if s['s'] != 'assign':
                        continue
                    for p, w in places(s):
                        if w and p is s['p'] and p['p'] and p['p'][0][0] == 'deref' and p['l'] in taint:
                            fill = True
                    k = None
                    for p, w in list(places(s))[1:]:
                        k = k or taint.get(p['l'])
                    if k and s['p']['l'] not in taint:
                        taint[s['p']['l']] = k
                        ch = True
                t = b['t']
                if t['k'] != 'call':
                    continue
                d = name_of(t)
                k = self.kind(d, t['f']) if d else None
                ins = [taint[o['p']['l']] for o in t['args'] if o.get('o') in ('copy', 'move') and o['p']['l'] in taint]
                if ins and d.split('::')[-1] in FILL:
                    fill = True
                if not k and ins and carries(g['locals'][t['d']['l']]['t']):
                    k = ins[0]
                if k and t['d']['l'] not in taint:
                    taint[t['d']['l']] = k
                    ch = True
            if not ch:
                break
        return taint.get(0), fill, taint


def carries(t):
    return t['k'] in ('ptr', 'ref', 'adt', 'array', 'slice', 'param', 'tuple', 'uint', 'int', 'opaque') and not (t['k'] == 'adt' and t['d'].split('::')[-1] in ('Layout',))


def elem(t):
    while t['k'] in ('slice', 'array', 'ptr', 'ref') or t['k'] == 'adt' and t['d'].split('::')[-1] in ('Box', 'Vec', 'Rc', 'Arc', 'Result', 'Option', 'NonNull'):
        t = t['e'] if 'e' in t else t['a'][0] if t.get('a') else {'k': '?'}
    return t


def zero_ok(E, t, depth=0):
    """True / False / None: is the all-zero pattern a value of t"""
    k = t['k']
    if k in ('uint', 'int', 'bool', 'char', 'float', 'ptr'):
        return True
    if k in ('param', 'ref', 'fnptr', 'never', 'dyn'):
        return False
    if k == 'array':
        return zero_ok(E, t['e'], depth)
    if k == 'tuple':
        r = [zero_ok(E, x, depth) for x in t['e']]
        return False if False in r else None if None in r else True
    if k == 'adt':
        n = t['d'].split('::')[-1]
        if n in ('MaybeUninit', 'PhantomData', 'Wrapping') or 'Atomic' in n:
            return True
        if n in ('Box', 'Vec', 'String', 'Rc', 'Arc', 'NonNull', 'HashMap') or n.startswith('NonZero'):
            return False
        a = E.adts.get(t['d'])
        if a and not a['enum'] and depth < 5 and a['v']:
            r = [zero_ok(E, subst_ty(x['t'], {i: y for i, y in enumerate(t.get('a', ()))}), depth + 1) for x in a['v'][0]['f']]
            return False if False in r else None if None in r else True
        if a and a['enum'] and not any(v['f'] for v in a['v']):
            return any(int(v['discr']) == 0 for v in a['v'])
    return None


def needs_drop(E, t, depth=0):
    if t['k'] == 'adt':
        if t['d'].split('::')[-1] in ('Box', 'Vec', 'String', 'Rc', 'Arc', 'HashMap', 'MutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard'):
            return True
        a = E.adts.get(t['d'])
        return bool(a) and depth < 5 and any(needs_drop(E, x['t'], depth + 1) for v in a['v'] for x in v['f'])
    return t['k'] in ('array', 'slice') and needs_drop(E, t['e'], depth)


def calls_of(f):
    for b in f['blocks']:
        if not b.get('cleanup') and b['t']['k'] == 'call':
            yield b['t']


def safe_fn(X, E, src, d, f, ops):
    names = {name_of(t).split('::')[-1] for t in calls_of(f)}
    engine = False
    done = 0
    for kind, b, o in ops:
        site = o.get('sp') or f.get('span')
        if kind in ('deref', 'deref-write'):
            p = [p for p, w in places(o) if p['p'] and p['p'][0][0] == 'deref' and f['locals'][p['l']]['t']['k'] == 'ptr'][0]
            if from_param(f, p['l']):
                X.bad('deref:%s' % d, 'the safe function %s uses a raw pointer its caller supplies (%s)' % (d, site), {'at': site})
            else:
                engine = True
            continue
        if kind == 'static-write':
            X.bad('static:%s' % d, 'the safe function %s writes a static mut (%s): two threads may do so at once' % (d, site), {'at': site})
            continue
        if kind in ('static', 'transmute'):
            engine = True
            continue
        cd = name_of(o)
        n = cd.split('::')[-1]
        k = src.kind(cd, o['f'])
        g = E.fns.get(cd)
        if k and g and g.get('is_unsafe'):
            # a typed value made by an unsafe helper of this crate
            env = {i: a for i, a in enumerate(o['f'].get('a', ()))}
            t = elem(subst_ty(g['locals'][0]['t'], env))
            raw(X, E, d, site, k, t, False, 'calls %s' % cd.split('::')[-1])
        elif k and cd.split('::')[-2] == 'mem':
            raw(X, E, d, site, k, o['f']['a'][0] if o['f'].get('a') else {'k': '?'}, False, 'uses %s' % n)
        elif k:
            r, fill, taint = src.flow(f)
            if r:
                raw(X, E, d, site, r, elem(f['locals'][0]['t']), fill, 'returns memory from %s' % n)
            else:
                X.und('%s: raw memory from %s' % (d, site))
        elif n == 'assume_init':
            a = o['f'].get('a') or [{'k': '?'}]
            made = [name_of(t).split('::')[-1] for t in calls_of(f) if 'MaybeUninit' in name_of(t)]
            if 'uninit' in made and not names & set(FILL):
                X.bad('uninit:%s' % d, 'the safe function %s takes unwritten memory for a value (%s)' % (d, site), {'at': site})
            elif 'zeroed' in made and zero_ok(E, a[0]) is False:
                X.bad('zeroed:%s' % d, 'the safe function %s takes zeroed memory for a value of %s (%s)' % (d, ty_text(a[0]), site), {'at': site})
            else:
                X.und('%s: assume_init at %s' % (d, site))
        elif n in ('from_utf8_unchecked', 'from_utf8_unchecked_mut'):
            x = o['args'][0]
            if names & {'from_utf8', 'is_ascii', 'is_utf8', 'utf8_chunks'} or not (x.get('o') in ('copy', 'move') and from_param(f, x['p']['l'], True)):
                X.und('%s: from_utf8_unchecked at %s' % (d, site))
            else:
                X.bad('utf8:%s' % d, 'the safe function %s takes arbitrary bytes for text (%s)' % (d, site), {'at': site})
        elif n == 'read' and o['f'].get('a') and needs_drop(E, o['f']['a'][0]) and not names & {'forget', 'write', 'new', 'into_raw', 'leak', 'set_len'}:
            X.bad('read:%s' % d, 'the safe function %s duplicates a %s with ptr::read (%s): it is freed twice' % (d, ty_text(o['f']['a'][0]), site), {'at': site})
        elif n == 'from_raw_parts' and 'Vec' in cd and names & {'as_mut_ptr', 'as_ptr'} and not names & {'forget', 'leak', 'into_raw'} and not any('ManuallyDrop' in name_of(t) for t in calls_of(f)):
            X.bad('parts:%s' % d, 'the safe function %s makes a second owner of a vector (%s): it is freed twice' % (d, site), {'at': site})
        elif n == 'set_len' and names & {'as_mut_ptr', 'spare_capacity_mut', 'copy_nonoverlapping', 'write', 'write_bytes'}:
            X.und('%s: set_len at %s after writes through a pointer' % (d, site))
        else:
            engine = True
    if engine:
        unchecked_fn(X, E, d, f)


def raw(X, E, d, site, k, t, fill, how):
    if t['k'] == 'adt' and t['d'].split('::')[-1] == 'MaybeUninit':
        return X.ok('raw memory: not taken for values')
    if k == 'zero':
        z = zero_ok(E, t)
        if z is False and not fill:
            X.bad('zeroed:%s' % d, 'the safe function %s %s (%s): zeroed memory is taken for values of %s' % (d, how, site, ty_text(t)), {'at': site})
        elif z:
            X.ok('raw memory: zero is a value')
        else:
            X.und('%s: zeroed memory of %s' % (d, ty_text(t)))
    elif k == 'uninit' and not fill:
        X.bad('uninit:%s' % d, 'the safe function %s %s (%s): unwritten memory is taken for values of %s' % (d, how, site, ty_text(t)), {'at': site})
    else:
        X.und('%s: raw memory at %s' % (d, site))


def from_param(f, l, viaref=False):
    """does local l hold a parameter, possibly after copies and casts"""
    seen = set()
    work = [l]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if 1 <= x <= f['argc']:
            return viaref or f['locals'][x]['t']['k'] == 'ptr'
        for b in f['blocks']:
            for s in b['s']:
                if s['s'] == 'assign' and s['p']['l'] == x and not s['p']['p'] and s['v']['r'] in ('use', 'cast', 'ref'):
                    for p, w in list(places(s))[1:]:
                        if not p['p'] or viaref:
                            work.append(p['l'])
            t = b['t']
            if t['k'] == 'call' and t['d']['l'] == x and name_of(t).split('::')[-1] in (('add', 'offset', 'cast', 'deref', 'as_slice', 'index', 'to_vec') if viaref else ('add', 'offset', 'cast')) and t['args'] and t['args'][0].get('o') in ('copy', 'move'):
                work.append(t['args'][0]['p']['l'])
    return False


def unchecked_fn(X, E, d, f):
    """abstract interpretation of the function on arbitrary arguments"""
    while '::{closure' in d:
        d = d.rsplit('::{closure', 1)[0]
    f = E.fns.get(d)
    if not f or not f.get('blocks'):
        return X.und('%s: not analysable' % d)
    st = State()
    args = []
    if E.contract is not None and d in E.contract.kind:
        E.contract.off.add(d)
    try:
        for j, l in enumerate(f['locals'][1:f['argc'] + 1]):
            t = l['t']
            if t['k'] == 'ref' and t['e']['k'] == 'param':
                s, n = iso_stream(E, st, 'U%d' % j)
                args.append(s)
            elif t['k'] == 'ref' and t['e']['k'] not in ('slice', 'str', 'dyn'):
                E.symroots[('arg', d, j)] = t['e']
                args.append(Ref(('S', ('arg', d, j))))
            else:
                args.append(E.mksym(('arg', d, j), t))
        why = None
        try:
            X.run(d, args, st)
        except (Unsupported, Split) as e:
            why = e
        bad = False
        for p in E.panics:
            if p.kind != 'unchecked':
                continue
            bad = True
            for F in p.st.cases():
                X.feasible(F, 'unchecked', 'unchecked:%s' % d, 'the safe function %s can be called so that %s (%s)' % (d, p.msg, p.site), p.site)
        if why is not None:
            X.und('%s: unsafe operations not analysable: %s' % (d, why))
        elif not bad:
            X.ok('unsafe operations of %s' % d)
    finally:
        if E.contract is not None:
            E.contract.off.discard(d)
