#!/usr/bin/env python3-vt
"""Decide one property on /repo's current working tree.

usage: check.py PROPERTY            (environment: VERIF_TIER=quick|thorough, VERIF_SEED)
       check.py --replay FILE       (rerun a recorded counterexample against the real code)
       check.py --entry NAME [PREFIX]   (debugging: one symbolic run, details printed)
"""
import fcntl
import glob
import hashlib
import json
import multiprocessing
import os
import resource
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
LONG_S, HUNT_S = 20, 150
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)

IRFLAGS = ('--emit=llvm-ir -C opt-level=1 -C no-prepopulate-passes -C panic=abort -C codegen-units=1 -C overflow-checks=on '
           '-Zshare-generics=no -Zcross-crate-inline-threshold=0 -C debuginfo=0 -Awarnings')


# ---------------------------------------------------------------- building
def sources():
    out = []
    for root, pats in ((REPO, None), (os.path.join(HERE, 'harness'), None), (os.path.join(HERE, 'replay'), None)):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'build', 'temp'))
            for f in sorted(fs):
                if f.endswith('.rs') or f in ('Cargo.toml', 'Cargo.lock', 'config.toml'): out.append(os.path.join(d, f))
    return out


def tree_key():
    h = hashlib.sha256(IRFLAGS.encode())
    for p in sources():
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def cargo(crate, target, flags='', release=False, extra_env=None):
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'): env.pop(k, None)
    env.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=target, RUSTFLAGS=flags, CARGO_INCREMENTAL='0')
    env.update(extra_env or {})
    cmd = ['cargo', 'build', '--offline', '--locked', '--manifest-path', os.path.join(HERE, crate, 'Cargo.toml')] + (['--release'] if release else [])
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode:
        sys.stderr.write(p.stdout[-6000:])
        raise RuntimeError('build of %s failed' % crate)


def prepare(what):
    """Build 'ir', 'dev' or 'release' for the current sources; returns the directory."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_key()
    d = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        os.makedirs(d, exist_ok=True)
        done = os.path.join(d, what + '.ok')
        if not os.path.exists(done):
            t = os.path.join(d, what)
            shutil.rmtree(t, ignore_errors=True)
            if what == 'ir': cargo('harness', t, IRFLAGS, extra_env={'RUSTC_BOOTSTRAP': '1'})
            else: cargo('replay', t, '-Awarnings', release=what == 'release')
            if tree_key() != key: raise RuntimeError('sources changed during the build')
            open(done, 'w').close()
        os.utime(d)
        # keep a few recent trees only
        ds = sorted((x for x in glob.glob(os.path.join(BUILD, '*')) if os.path.isdir(x)), key=os.path.getmtime, reverse=True)
        for x in ds[4:]: shutil.rmtree(x, ignore_errors=True)
    return os.path.join(d, what)


# ---------------------------------------------------------------- symbolic jobs
def load_modules():
    from ir import Module
    d = prepare('ir')
    return [Module(p) for p in sorted(glob.glob(os.path.join(d, 'debug', 'deps', '*.ll')))]


def run_job(modules, job, tier, deadline):
    from execu import Executor
    from values import EngineError
    if job['mode'] == 'bits':
        from bits import Bits as dom
    else:
        from real import Real as dom
    opts = dict(job.get('opts', {}))
    opts['tier'] = tier
    t = time.time()
    ex = Executor(modules, dom, opts)
    ex.stop_on_candidate = job.get('stop', True)
    err = None
    try:
        ex.dims = job.get('dims', ())
        ex.run(job['entry'], job.get('prefix', ()), deadline)
    except EngineError as e:
        err = str(e)
    except MemoryError:
        err = 'memory limit'
    except RecursionError:
        err = 'recursion limit'
    except Exception:
        err = traceback.format_exc()
    st = dict(ex.stats)
    st['functions'] = sorted(ex.names.get(f, f) for f in st['functions'])
    return dict(job=job, stats=st, candidates=ex.candidates, undecided=ex.undecided, error=err, wall=time.time() - t,
                reach={k: dict(hits=v['hits'], model=v['model']) for k, v in ex.reach.items()})


def _child(conn, modules, job, tier, deadline):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (job.get('mem', 6) << 30,) * 2)
        r = run_job(modules, job, tier, deadline)
    except BaseException as e:
        r = dict(job=job, stats={}, candidates=[], undecided=[], error='worker: %r' % (e,), wall=0, reach={})
    conn.send(r)
    conn.close()


def run_jobs(modules, jobs, tier, deadline, workers=8, on_result=None):
    """Run jobs in forked processes, at most `workers` at a time; stops when on_result says so.

    A job over the reals that takes long or leaves something undecided gets a companion that only looks for a counterexample."""
    ctx = multiprocessing.get_context('fork')
    heavy = [j for j in jobs if j.get('cost', 1) > 1]
    light = [j for j in jobs if j.get('cost', 1) <= 1]
    running = []
    out = []
    hunts = []

    def start(j, until):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_child, args=(b, modules, j, tier, until))
        p.start()
        b.close()
        running.append((p, a, j, time.time(), until))

    def companion(j):
        if j['mode'] == 'real' and not j.get('hunt') and not any(h is j for h in hunts):
            hunts.append(j)
            start(dict(j, hunt=True, opts=dict(j.get('opts', {}), hunt=30, feas_ms=60, check_ms=300)), min(deadline, time.time() + HUNT_S))

    while heavy or light or running:
        while (heavy or light) and len(running) < workers:
            # heavy jobs start first but never hold every worker while light ones wait
            nh = sum(1 for r in running if r[2].get('cost', 1) > 1)
            start((heavy if heavy and (nh < workers - 3 or not light) else light).pop(0), deadline)
        ready = multiprocessing.connection.wait([r[1] for r in running], timeout=1)
        now = time.time()
        for x in list(running):
            p, a, j, began, until = x
            res = None
            if now > began + LONG_S: companion(j)
            if a in ready:
                try:
                    res = a.recv()
                except EOFError:
                    res = dict(job=j, stats={}, candidates=[], undecided=[], error='worker died', wall=0, reach={})
            elif now > until + 20:
                p.kill()
                res = dict(job=j, stats={}, candidates=[], undecided=[], error='time budget exceeded', wall=0, reach={})
            if res is not None:
                p.join()
                a.close()
                running.remove(x)
                if res['undecided'] and not res['candidates']: companion(j)
                if not j.get('hunt'): out.append(res)
                if on_result and on_result(res):
                    for r in running:
                        r[0].kill()
                        r[0].join()
                    return out
        if not heavy and not light and running and all(r[2].get('hunt') for r in running) and not any(r['undecided'] or r['error'] for r in out):
            for r in running:
                r[0].kill()
                r[0].join()
            return out
    return out


def expand(spec):
    """Split a job over its leading choices."""
    jobs = [dict(spec, prefix=(), dims=tuple(spec.get('split', ())))]
    for n in spec.get('split', ()):
        jobs = [dict(j, prefix=j['prefix'] + (i,)) for j in jobs for i in range(n)]
    for pre, n in spec.get('parts', ()):
        # heavy cases are shared out further
        for j in [j for j in jobs if j['prefix'] == tuple(pre)]:
            jobs.remove(j)
            jobs += [dict(j, opts=dict(j.get('opts', {}), part=(i, n)), cost=10) for i in range(n)]
    for j in jobs: j.pop('split', None); j.pop('parts', None)
    return jobs


# ---------------------------------------------------------------- native replay
def write_inputs(path, entry, inputs, tier, exact):
    with open(path, 'w') as f:
        f.write('# entry %s\n' % entry)
        f.write('t %d\nx %d\n' % (tier == 'thorough', exact))
        for k, v in inputs: f.write('%s %s\n' % (k, '%08x' % v if k == 'f' else v))


def native(profile, entry, path, timeout=20):
    d = prepare(profile)
    exe = os.path.join(d, 'debug' if profile == 'dev' else 'release', 'replay')
    try:
        p = subprocess.run([exe, entry, path], env=dict(os.environ, RUST_BACKTRACE='0'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def verdict(rc, out):
    """What a native run shows: 'ok', 'fail <id>', 'panic', 'assume', 'other'."""
    if rc == 0: return 'ok'
    if rc == 3: return 'fail'
    if rc == 4: return 'assume'
    if rc == 101 or rc == 134 or rc == -6: return 'panic'
    if rc == 99: return 'hang'
    return 'other'


# ---------------------------------------------------------------- known findings
def known_findings():
    """Lines 'known: property=<id> entry=<entry> check=<check id> :: text' of KNOWN_FINDINGS.txt."""
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('known: '): continue
            head, _, text = l[7:].partition(' :: ')
            d = {}
            for part in head.split(' ; '):
                k, _, v = part.partition('=')
                d[k.strip()] = v.strip()
            d['text'] = text
            out.append(d)
    return out


# ---------------------------------------------------------------- a whole property
def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from jobs import JOBS
    specs = [s for s in JOBS[prop] if not (s.get('tier') == 'thorough' and tier != 'thorough')]
    specs = [dict(s, opts=dict(s.get('opts', {}), **(s.get('thorough_opts', {}) if tier == 'thorough' else {}))) for s in specs]
    budget = 700 if tier == 'quick' else 5400
    if tier == 'thorough': budget = int(os.environ.get('VERIF_BUDGET', budget))
    modules = load_modules()
    jobs = [j for s in specs for j in expand(s)]
    rdir = os.path.join(HERE, 'build', 'replays')
    os.makedirs(rdir, exist_ok=True)
    exact_of = {s['entry']: s['mode'] == 'bits' for s in specs}
    kf = [k for k in known_findings() if k.get('property') == prop]
    errors, violations, unrep, shownkf, fresh = [], [], [], set(), []
    count = [0]

    def on_result(r):
        """A candidate becomes a violation only when the real code shows it; the first one not listed as known ends the run."""
        for c in r['candidates']:
            e = r['job']['entry']
            path = os.path.join(rdir, '%s-%s-%d.txt' % (prop, e, count[0]))
            count[0] += 1
            write_inputs(path, e, c['inputs'], tier, exact_of[e])
            shown = None
            for prof in ('dev', 'release'):
                rc, out = native(prof, e, path)
                v = verdict(rc, out)
                if v in ('fail', 'panic', 'hang'):
                    shown = (prof, v, out.strip().splitlines())
                    break
            if not shown and r['job'].get('hunt'): continue
            if not shown:
                unrep.append('%s%s: candidate for "%s" not reproduced natively (%s)' % (e, list(r['job']['prefix']), c['id'], v))
                continue
            w = dict(entry=e, id=c['id'], replay=path, profile=shown[0], how=shown[1], output=shown[2][-3:])
            violations.append(w)
            hit = [k for k in kf if k.get('entry') == e and k.get('check') == c['id']]
            if hit: shownkf.add(hit[0]['text'])
            else:
                fresh.append(w)
                return True
        return False

    res = run_jobs(modules, jobs, tier, t0 + budget, on_result=on_result)
    prepare('dev')
    for r in res:
        if r['error']: errors.append('%s%s: %s' % (r['job']['entry'], list(r['job']['prefix']), r['error']))
        for u in r['undecided']: errors.append('%s%s: undecided %s %s' % (r['job']['entry'], list(r['job']['prefix']), u[0], u[1]))
    errors += unrep
    # every situation the harness names must be reachable, and the real code must agree on a witness
    hits = {}
    for r in res:
        for k, v in r['reach'].items():
            h = hits.setdefault((r['job']['entry'], k), [0, []])
            h[0] += v['hits']
            if v['model'] is not None: h[1].append(v['model'])
    validated, mism = 0, 0
    samples = []
    incomplete = any(r['candidates'] or r['error'] for r in res)
    for s in specs:
        for w in s.get('reach', []):
            h = hits.get((s['entry'], w))
            if h is None:
                if not incomplete: errors.append('%s: situation "%s" never reached' % (s['entry'], w))
                continue
            ok = False
            for m in h[1][:4]:
                path = os.path.join(rdir, '%s-%s-w%d.txt' % (prop, s['entry'], validated + mism))
                write_inputs(path, s['entry'], m, tier, exact_of[s['entry']])
                rc, out = native('dev', s['entry'], path)
                if ('REACH ' + w) in out.splitlines() and rc == 0:
                    ok = True
                    validated += 1
                    if len(samples) < 6: samples.append(dict(entry=s['entry'], situation=w, inputs=[list(x) for x in m][:24]))
                    break
                mism += 1
            if not ok and not incomplete:
                msg = '%s: no native run confirms situation "%s"' % (s['entry'], w)
                if h[1] or not s.get('weak_reach'): errors.append(msg)
    tot = {}
    for r in res:
        for k, v in r['stats'].items():
            if k == 'functions': tot.setdefault(k, set()).update(v)
            else: tot[k] = tot.get(k, 0) + v
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2),
              violations=[dict(replay=v['replay'], check=v['id'], entry=v['entry'], profile=v['profile'], output=v['output']) for v in violations],
              assumptions=['bounds: ' + b for b in sorted({b for s in specs for b in s.get('bounds', [])})],
              coverage=dict(
                  states=tot.get('instructions', 0), transitions=tot.get('paths', 0), traces_validated_against_impl=validated,
                  samples=samples or [dict(note='no witness')],
                  functions_encoded=len([f for f in tot.get('functions', ()) if not f.startswith('core::')]),
                  functions=sorted(f for f in tot.get('functions', ()) if not f.startswith(('core::', '<', 'harness')))[:80],
                  entries=sorted({s['entry'] for s in specs}), jobs=len(jobs), forks=tot.get('forks', 0),
                  assertions=tot.get('checks', 0), panic_guards_crossed=tot.get('guards', 0), discharged_by_normal_form=tot.get('identities', 0), discharged_on_path=tot.get('trivial', 0),
                  solver_queries=tot.get('queries', 0), unsat=tot.get('unsat', 0), sat=tot.get('sat', 0), unknown=tot.get('unknown', 0),
                  solver_s=round(tot.get('solver_s', 0), 2), witness_mismatches=mism,
                  states_meaning='IR instructions executed symbolically', transitions_meaning='symbolic paths completed'))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for t in sorted(shownkf): print('KNOWN-FINDING: property=%s %s' % (prop, t))
    if fresh:
        v = fresh[0]
        for v in fresh[:5]: print('%s: %s (%s): %s' % (v['entry'], v['id'], v['how'], ' / '.join(v['output'])))
        print('VIOLATION property=%s replay=%s' % (prop, fresh[0]['replay']))
        return 1
    if errors:
        for e in errors[:20]: print('ERROR ' + e)
        return 2
    print('%s held: %d jobs, %d paths, %d assertions, %d queries, %.1f s solver, %.1f s' % (prop, len(jobs), tot.get('paths', 0), tot.get('checks', 0),
          tot.get('queries', 0), tot.get('solver_s', 0), time.time() - t0))
    return 0


def debug(entry, prefix):
    from jobs import JOBS
    spec = next((dict(s) for p in JOBS.values() for s in p if s['entry'] == entry), dict(entry=entry, mode=os.environ.get('MODE', 'bits')))
    tier = os.environ.get('VERIF_TIER', 'quick')
    spec['stop'] = False
    deadline = time.time() + float(os.environ.get('T', 300))
    if not prefix and os.environ.get('SPLIT'): spec['split'] = tuple(int(x) for x in os.environ['SPLIT'].split(','))
    if os.environ.get('PARTS'): spec['parts'] = [(tuple(prefix), int(os.environ['PARTS']))]
    jobs = expand(spec) if not prefix else expand(dict(spec, split=()))
    if prefix:
        for j in jobs: j['prefix'] = tuple(prefix)
    res = run_jobs(load_modules(), jobs, tier, deadline)
    tot, reach = {}, {}
    for r in res:
        for k, v in r['stats'].items():
            if k != 'functions': tot[k] = tot.get(k, 0) + v
        for k, v in r['reach'].items():
            h = reach.setdefault(k, [0, 0])
            h[0] += v['hits']; h[1] += v['model'] is not None
    print(tot)
    for r in sorted(res, key=lambda r: -r['wall'])[:6]: print('  job', r['job']['prefix'], 'wall', round(r['wall'], 2), 'paths', r['stats'].get('paths'), 'queries', r['stats'].get('queries'))
    for r in res:
        if r['error']: print('error', r['job']['prefix'], r['error'])
        for u in r['undecided'][:3]: print('undecided', r['job']['prefix'], u)
    print('reach', reach)
    seen = {}
    i = 0
    for r in res:
        for c in r['candidates']:
            key = (c['id'], tuple(v for k, v in c['inputs'] if k == 'c')[:1])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 1: continue
            path = '/tmp/dbg-%s-%d.txt' % (entry, i)
            i += 1
            write_inputs(path, entry, c['inputs'], tier, spec['mode'] == 'bits')
            rc, out = native('dev', entry, path)
            print('candidate', c['id'], '| choices', [v for k, v in c['inputs'] if k == 'c'], '| native', rc, ' / '.join(out.strip().splitlines()[-2:])[:200], path)
    for k, n in seen.items():
        if n > 1: print('   x%d' % n, k)


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        entry = open(sys.argv[2]).readline().split()[2]
        for prof in ('dev', 'release'):
            rc, out = native(prof, entry, sys.argv[2])
            print('%s: exit %d' % (prof, rc))
            print(out)
        sys.exit(0)
    if sys.argv[1] == '--setup':
        for w in ('ir', 'dev', 'release'): prepare(w)
        sys.exit(0)
    if sys.argv[1] == '--entry':
        debug(sys.argv[2], [int(x) for x in sys.argv[3:]])
        sys.exit(0)
    try:
        rc = main(sys.argv[1])
    except Exception as e:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
