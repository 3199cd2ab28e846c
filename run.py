#!/usr/bin/env python3
"""run.py <property> : decide one property on /repo's current tree (see DESIGN.md)."""
import json, os, signal, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_driver():
    b = os.path.join(BUILD, 'drv', 'release', 'mirdump')
    if os.path.exists(b) and os.path.getmtime(b) >= os.path.getmtime(os.path.join(HERE, 'driver', 'src', 'main.rs')):
        return b
    rc, out = sh(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir', os.path.join(BUILD, 'drv')],
                 cwd=os.path.join(HERE, 'driver'))
    if rc or not os.path.exists(b):
        raise SystemExit('driver build failed\n' + out[-3000:])
    os.utime(b)
    return b


def extract(crate_dir, target, out, crate):
    """MIR of the current source, freshly compiled"""
    drv = build_driver()
    rc, sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'])
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))
    name = crate.replace('_', '-')
    fp = os.path.join(target, 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for f in os.listdir(fp):
            if f.startswith(name + '-') or f.startswith(crate + '-'):
                subprocess.run(['rm', '-rf', os.path.join(fp, f)])
    for p in (('debug', 'incremental'), ('debug', 'build', name)):
        subprocess.run(['rm', '-rf', os.path.join(target, *p)])
    env = {'LD_LIBRARY_PATH': sysroot.strip() + '/lib', 'MIRDUMP_OUT': out, 'OPENSSL_NO_VENDOR': '1',
           'RUSTC_WORKSPACE_WRAPPER': drv, 'CARGO_TARGET_DIR': target, 'CARGO_INCREMENTAL': '0'}
    rc, log = sh(['cargo', '+nightly', 'check', '--offline'], env, crate_dir)
    j = os.path.join(out, crate + '-lib.json')
    if rc or not os.path.exists(j):
        raise SystemExit('extraction failed for %s\n%s' % (crate_dir, log[-4000:]))
    with open(j) as f:
        return json.load(f)


def models():
    out = os.path.join(BUILD, 'models-out')
    j = os.path.join(out, 'models-lib.json')
    if not os.path.exists(j):
        extract(os.path.join(HERE, 'models'), os.path.join(BUILD, 'models-t'), out, 'models')
    with open(j) as f:
        return json.load(f)


def load_props():
    import p_codec
    P = dict(p_codec.PROPS)
    for m in ('p_frame', 'p_packet', 'p_crypto', 'p_conn', 'p_misc', 'p_route', 'p_safe'):
        try:
            mod = __import__(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        P.update(mod.PROPS)
    return P


def known_findings(pid):
    """keys of recorded findings and the text to print for them"""
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                _, _, rest = line.partition('key=')
                key, _, text = rest.partition(' :: ')
                out[key] = text
    return out


class Late(BaseException):
    pass


def late(*_):
    raise Late()


def check(pid, tier='quick', dump=None, quiet=False, evidence=True):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mo = models()
    lb = dump or extract(REPO, os.path.join(BUILD, 'repo-t'), os.path.join(BUILD, 'repo-out'), 'quic_sea')
    from spec import Ctx, Missing
    from eng import Engine
    import contracts
    E = Engine(lb, mo)
    if tier == 'thorough':
        E.deadline += 2400
    contracts.Contracts(E)
    P = load_props()
    X = Ctx(E, pid, seed, tier)
    X.dump = lb
    X.known_keys = known_findings(pid)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(3000 if tier == 'thorough' else int(os.environ.get("VERIF_LIMIT", 660)))
    try:
        try:
            P[pid]['run'](X)
        finally:
            signal.alarm(0)
    except Late:
        X.und('analysis stopped: out of time')
    except Missing as e:
        X.und('entry point %s does not exist any more' % e)
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        X.und('analysis failed: %s: %s' % (type(e).__name__, traceback.format_exc().splitlines()[-3:]))
    for k in X.known:
        print('KNOWN-FINDING: property=%s %s' % (pid, X.known_keys[k]))
    new = X.viol
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof' if not X.unknown else 'other',
        'coverage': {
            'explanation': P[pid]['technique'],
            'obligations': X.obl, 'discharged': X.dis, 'undecided': len(X.unknown),
            'checker_cmd': 'python3 run.py %s' % pid,
            'trusted_base': ['rustc nightly MIR construction', 'driver/ (MIR to JSON)', 'sa/ (abstract domain, transfer functions, library models)', 'models/ (library reference bodies)'],
            'functions_analysed': sorted(f for f in X.functions if not f.startswith('models::')),
            'function_visits': sum(X.functions.values()),
            'path_partitions': X.partitions,
            'rules': X.rules,
            'summaries': {d: bool(s) for d, s in E.contract.status.items()},
            'samples': X.samples[:12],
            'undecided_list': X.unknown[:40],
        },
        'assumptions': X.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    if evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    if not quiet:
        print('%s: %d obligations, %d discharged, %d undecided, %d functions, %d partitions, %.1fs' % (
            pid, X.obl, X.dis, len(X.unknown), len(X.functions), X.partitions, time.time() - t0))
        for u in X.unknown[:10]:
            print('  undecided: ' + u[:400])
    if new:
        rp = os.path.join(HERE, 'evidence', '%s.violation.json' % pid)
        if evidence:
            with open(rp, 'w') as f:
                json.dump(new, f, indent=1, default=str)
        for v in new:
            print('  %s [%s]' % (v['text'][:600], v['key']))
            if v['detail'].get('where'):
                print('    at %s' % (v['detail']['where'],))
            if v['detail'].get('valuation'):
                print('    for example with %s' % (dict(list(v['detail']['valuation'].items())[:12]),))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    if sys.argv[1:2] == ['--setup']:
        build_driver()
        models()
        extract(REPO, os.path.join(BUILD, 'repo-t'), os.path.join(BUILD, 'repo-out'), 'quic_sea')
        print('setup done')
        sys.exit(0)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    sys.exit(check(sys.argv[1], tier))
