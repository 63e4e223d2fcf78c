#!/usr/bin/env python3-vt
"""check.py PROPERTY quick|thorough

Exports the MIR of /repo's current working tree with the contracts of /verif/spec, generates and
discharges the obligations of the property's contracts, and runs the same contracts natively.
Exit 0: held.  Exit 1: VIOLATION line(s).  Exit 2: no answer (the tree does not build)."""
import fnmatch
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = os.path.join(V, 'build')
sys.path.insert(0, os.path.join(V, 'vcgen'))
TC = 'nightly-x86_64-unknown-linux-gnu'
HOOKS = [' --cfg kicad_verif']
NPROC = min(8, os.cpu_count() or 1)


def sh(cmd, env=None, cwd=None, timeout=None):
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    if env:
        e.update(env)
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')


def die(msg, out=''):
    print('NO-ANSWER ' + msg)
    print(out[-4000:])
    sys.exit(2)


def libdir():
    r = sh(['rustc', '+' + TC, '--print', 'sysroot'])
    return os.path.join(r.stdout.strip().split('\n')[-1], 'lib')


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            h.update(p.encode() + b'\0' + open(p, 'rb').read())
        for d, ds, fs in os.walk(p):
            ds.sort()
            if 'target' in ds:
                ds.remove('target')
            for f in sorted(fs):
                q = os.path.join(d, f)
                h.update(q.encode() + b'\0')
                try:
                    h.update(open(q, 'rb').read())
                except OSError:
                    pass
    return h.hexdigest()


def forget(target, names):
    """make cargo rebuild these packages (both layouts of the build directory)"""
    for sub in ('.fingerprint', 'build'):
        fp = os.path.join(target, 'debug', sub)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d in names or d.rsplit('-', 1)[0] in names:
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def stale(target):
    """cargo decides by modification time; decide by content instead"""
    h = tree_hash([REPO + '/src', REPO + '/Cargo.toml', REPO + '/Cargo.lock', V + '/spec/src', V + '/native/src', V + '/mirdump/src'])
    f = os.path.join(target, 'content-hash')
    old = open(f).read() if os.path.exists(f) else None
    if old != h:
        forget(target, ('kicad_parse_gen', 'kspec', 'native'))
    return f, h


def build_mirdump():
    t = os.path.join(B, 'md')
    exe = os.path.join(t, 'debug', 'mirdump')
    h = tree_hash([V + '/mirdump/src', V + '/mirdump/Cargo.toml'])
    f = os.path.join(t, 'mirdump-hash')
    if os.path.exists(exe) and os.path.exists(f) and open(f).read() == h:
        return exe
    os.makedirs(t, exist_ok=True)
    r = sh(['cargo', '+' + TC, 'build', '--offline', '--target-dir', t], cwd=V + '/mirdump')
    if r.returncode or not os.path.exists(exe):
        die('the MIR exporter does not build', r.stdout)
    open(f, 'w').write(h)
    return exe


def export():
    """MIR of everything reachable from the contracts, from the current working tree"""
    os.makedirs(B, exist_ok=True)
    exe = build_mirdump()
    t = os.path.join(B, 'spect')
    os.makedirs(t, exist_ok=True)
    f, h = stale(t)
    out = os.path.join(B, 'mir.json')
    if os.path.exists(out):
        os.remove(out)
    forget(t, ('kspec',))
    env = {'RUSTUP_TOOLCHAIN': TC, 'LD_LIBRARY_PATH': libdir(), 'RUSTC_WORKSPACE_WRAPPER': exe, 'MIRDUMP_OUT': out,
           'MIRDUMP_REDIRECT': V + '/vcgen/redirect.tsv',
           'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no' + HOOKS[0]}
    r = sh(['cargo', 'build', '--lib', '--offline', '--target-dir', t], env, V + '/spec')
    if r.returncode or not os.path.exists(out):
        if HOOKS[0]:
            # the hooks may name a private item that is gone; the contracts that need them are left out then
            HOOKS[0] = ''
            return export()
        die('the contracts do not compile against the current tree', r.stdout)
    open(f, 'w').write(h)
    return out


def build_native(mir):
    import gen_native
    n = os.path.join(B, 'native')
    gen_native.main(mir, V + '/native', n)
    t = os.path.join(B, 'nt')
    os.makedirs(t, exist_ok=True)
    f, h = stale(t)
    r = sh(['cargo', 'build', '--offline', '--target-dir', t], {'RUSTFLAGS': HOOKS[0].strip()}, n)
    exe = os.path.join(t, 'debug', 'native')
    if r.returncode or not os.path.exists(exe):
        die('the native runner does not build', r.stdout)
    open(f, 'w').write(h)
    return exe


# ---------------------------------------------------------------- proving
E = C = None


def load(mir):
    global E, C
    sys.setrecursionlimit(20000)
    import engine
    import stdlib
    import contracts
    E = engine.Engine(mir, stdlib.B)
    C = contracts.Cfg(E)
    E.cfg = C


WEAK = ('streq', 'veq', 'exteq', 'veceq', 'mapempty', 'spcempty', 'pieceempty', 'maplen', 'partlen', 'containsx', 'disphas', 'has', 'pfx', 'pix', 'forall', 'nchars')


def weak(d):
    if d is None:
        return False
    t = d['goal'] + ' '.join(d['pc'])
    if re.search(r'\b(fold|hv|over)\d|\buf:|untok:|hvat:|hvsplit', t):
        return True
    return any("(atom '%s'" % w in t for w in WEAK)


def prove_one(short, limit, q):
    import engine
    import solver
    key = [k for r, k in E.roots.items() if r.split('::')[-1] == short][0]
    t0 = time.time()
    E.reset()
    C.start(E, short, key)
    status, why = 'proved', ''
    outs = []
    try:
        outs = E.prove(key, time.time() + limit)
    except engine.Unsupported as e:
        status, why = 'unsupported', str(e)
    except (engine.Budget, engine.Fork, RecursionError, MemoryError) as e:
        status, why = 'unsupported', type(e).__name__
    except Exception as e:
        status, why = 'unsupported', 'internal: %s %s' % (type(e).__name__, e)
    obs = {}
    fails = []
    for o in E.obs:
        k = (o[0], o[1], o[3])
        a = obs.setdefault(k, [0, 0])
        a[0] += 1
        if o[2] == 'ok':
            a[1] += 1
        else:
            if len(fails) < 40:
                fails.append(dict(name=o[0], site=o[1], status=o[2], kind=o[3], weak=weak(o[4]) or o[2] == 'unknown',
                                  goal=o[4]['goal'][:600], pc=o[4]['pc'][-20:], trace=o[4]['trace'], hints=o[4].get('hints') or {}))
    if fails and status == 'proved':
        status = 'failed'
    if status == 'proved' and not outs:
        status, why = 'vacuous', 'no path reaches the end of the contract'
    repo_fns = sorted(set(E.fns[k].dfn for k in E.inlined if k in E.fns and E.fns[k].file.startswith(REPO)))
    dep_fns = sorted(set(E.fns[k].dfn for k in E.inlined if k in E.fns and 'symbolic_expressions' in E.fns[k].file))
    q.put(dict(harness=short, status=status, why=why, fails=fails, obs=[[list(k), v] for k, v in obs.items()], paths=E.paths,
               steps=E.steps, summaries=E.summaries, used=sorted(C.used), trusted=sorted(E.trusted), repo_fns=repo_fns, dep_fns=dep_fns,
               queries=solver.Stats.queries, solver_s=solver.Stats.time, wall=time.time() - t0))


# contracts known to be out of reach are not tried for long; they run natively and are labelled bounded
SHORT = {'h_fix_any': 15}


def prove_all(names, limit, total):
    """prove the contracts and, transitively, those they rely on"""
    ctx = mp.get_context('fork')
    known = set(r.split('::')[-1] for r in E.roots)
    todo = [n for n in names]
    done = {}
    run = {}
    t_end = time.time() + total
    heavy = {'h_read_pad': 1, 'h_rt_pad': 1, 'h_sym_lib': 2, 'h_sym_symbol': 1, 'h_sch_schematic': 1, 'h_any_symbol_lib': 1, 'h_any_schematic': 1}
    while todo or run:
        todo.sort(key=lambda n: heavy.get(n, 0))
        while todo and len(run) < NPROC:
            n = todo.pop()
            q = ctx.SimpleQueue()
            p = ctx.Process(target=prove_one, args=(n, min(limit, SHORT.get(n, limit)), q))
            p.start()
            run[n] = (p, q, time.time())
        time.sleep(0.01)
        for n in list(run):
            p, q, t0 = run[n]
            r = None
            if not q.empty():
                r = q.get()
                p.join()
            elif not p.is_alive():
                r = dict(harness=n, status='unsupported', why='verifier process ended', fails=[], obs=[], paths=0, steps=0, summaries=0,
                         used=[], trusted=[], repo_fns=[], dep_fns=[], queries=0, solver_s=0, wall=time.time() - t0)
            elif time.time() - t0 > min(limit, SHORT.get(n, limit)) + 20 or time.time() > t_end:
                p.kill()
                p.join()
                r = dict(harness=n, status='unsupported', why='time limit', fails=[], obs=[], paths=0, steps=0, summaries=0,
                         used=[], trusted=[], repo_fns=[], dep_fns=[], queries=0, solver_s=0, wall=time.time() - t0)
            if r is not None:
                del run[n]
                done[n] = r
                for u in r['used']:
                    if u in known and u not in done and u not in run and u not in todo:
                        todo.append(u)
    return done


# ---------------------------------------------------------------- native runs
def norm_hint(n):
    pre = ''
    m = re.match(r'(disc|len|str|ch|ix):', n)
    if m:
        pre, n = m.group(1), n[m.end():]
    for _ in range(8):
        n2 = re.sub(r'⟨([^⟨⟩]*?)@[^⟨⟩]*⟩', r'\1[]', n)
        if n2 == n:
            break
        n = n2
    n = re.sub(r'[<>][\w|]*', '', n)
    if pre in ('disc', 'len'):
        return pre + ':' + n
    return n


def write_hints(path, fails):
    n = 0
    with open(path, 'w') as f:
        for x in fails:
            for k, (s, v) in x['hints'].items():
                if s == 'S':
                    v = v.replace('\n', '\\n')
                f.write('%s\t%s\t%s\n' % (norm_hint(k), s, v))
                n += 1
    return n


def native_many(exe, jobs):
    """jobs: (harness, seed, from, count, ms, hints or None) -> list of (job, output line)"""
    # files written by the contracts stay in here
    d = tempfile.mkdtemp(prefix='kspec')
    try:
        return native_in(exe, jobs, dict(os.environ, TMPDIR=d))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def native_in(exe, jobs, env):
    out = []
    run = []
    jobs = list(jobs)
    while jobs or run:
        while jobs and len(run) < NPROC:
            j = jobs.pop(0)
            a = [exe, 'run', j[0], str(j[1]), str(j[2]), str(j[3]), str(j[4])] + ([j[5]] if j[5] else [])
            run.append((j, subprocess.Popen(a, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace'), time.time()))
        time.sleep(0.005)
        for x in list(run):
            j, p, t0 = x
            if p.poll() is not None:
                o = p.stdout.read().strip().split('\n')[-1]
                if p.returncode not in (0, 3) and not o.startswith(('FAIL', 'HANG')):
                    o = 'CRASH signal %s' % p.returncode
                out.append((j, o))
                run.remove(x)
            elif time.time() - t0 > j[4] / 1000.0 + 40:
                p.kill()
                p.wait()
                out.append((j, 'HANG -1'))
                run.remove(x)
    return out


def known_findings(prop):
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) contract=(\S+) match=/(.*)/ (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    from props import PROPS, NOTES, WITHOUT_HOOKS
    mir = export()
    load(mir)
    names = sorted(set(r.split('::')[-1] for r in E.roots if r.split('::')[-1].startswith('h_')
                       and any(fnmatch.fnmatch(r.split('::')[-1], p) for p in PROPS[prop] + ([] if HOOKS[0] else WITHOUT_HOOKS.get(prop, [])))))
    if not names:
        die('no contract for ' + prop)
    t1 = time.time()
    limit, total = (420, 540) if tier == 'quick' else (1500, 3600)
    res = prove_all(names + ['x_canary'], limit, total)
    t2 = time.time()
    can = res.pop('x_canary')
    if can['status'] != 'failed':
        die('vacuity guard: a contract that must fail was accepted (%s)' % can['status'])
    exe = build_native(mir)
    have = set(sh([exe, 'list']).stdout.split())
    kf = known_findings(prop)
    # every contract also runs on concrete inputs
    jobs = []
    for n in res:
        if n in have:
            r = res[n]
            full = r['status'] == 'proved'
            cnt, ms = (1500, 1500) if full else (40000, 8000)
            if tier == 'thorough':
                cnt, ms = (100000, 20000) if full else (4000000, 120000)
            jobs.append((n, seed, 0, cnt, ms, None))
    os.makedirs(os.path.join(B, 'hints'), exist_ok=True)
    hfile = {}
    for n, r in res.items():
        if r['fails'] and n in have:
            h = os.path.join(B, 'hints', n + '.tsv')
            if write_hints(h, r['fails']):
                hfile[n] = h
                for k in range(2):
                    jobs.append((n, seed + 1000 + k, 0, 30000, 8000, h))
            for k in range(2 if tier == 'quick' else 6):
                jobs.append((n, seed + 2000 + k, 0, 400000, 12000 if tier == 'quick' else 120000, None))
    jobs.sort(key=lambda j: -j[4])
    nat = native_many(exe, jobs)
    cases = {}
    found = {}
    for j, o in nat:
        n = j[0]
        if o.startswith('DONE'):
            a, b = o.split()[1:3]
            c = cases.setdefault(n, [0, 0])
            c[0] += int(a)
            c[1] += int(b)
        elif o.startswith(('FAIL', 'HANG', 'CRASH')) and n not in found:
            found[n] = (j, o)
    t3 = time.time()
    # verdict
    viol, known = [], []
    os.makedirs(V + '/evidence/replay', exist_ok=True)

    def is_known(n, text):
        for h, rx, what in kf:
            if fnmatch.fnmatch(n, h) and re.search(rx, text):
                return what
        return None
    for n in sorted(res):
        r = res[n]
        rp = os.path.join(V, 'evidence', 'replay', '%s-%s.txt' % (prop, n))
        if n in found:
            j, o = found[n]
            case = o.split()[1]
            inp = ''
            if o.startswith('FAIL'):
                a = [exe, 'show', n, str(j[1]), case] + ([j[5]] if j[5] else [])
                inp = sh(a, timeout=60).stdout
            txt = 'contract %s\nresult on the real code: %s\n%s\nreplay: %s show %s %d %s %s\n' % (n, o, inp, exe, n, j[1], case, j[5] or '')
            for f in r['fails'][:5]:
                txt += '\nfailed obligation: %s at %s\n  goal %s\n  path %s\n  trace %s\n' % (f['name'], f['site'], f['goal'], f['pc'], f['trace'])
            w = is_known(n, o)
            if w:
                known.append(w)
                continue
            open(rp, 'w').write(txt)
            viol.append('VIOLATION property=%s replay=%s' % (prop, rp))
            print('  contract %s: %s' % (n, o[:300]))
            continue
        hard = [f for f in r['fails'] if not f['weak']]
        if hard:
            w = is_known(n, ' '.join(f['name'] + ' ' + f['site'] for f in hard))
            if w:
                known.append(w)
                continue
            txt = 'contract %s: obligation not discharged, no failing input found by %s native runs\n' % (n, cases.get(n))
            for f in hard:
                txt += '\nfailed obligation: %s at %s\n  goal %s\n  path %s\n  trace %s\n  model %s\n' % (f['name'], f['site'], f['goal'], f['pc'], f['trace'], f['hints'])
            open(rp, 'w').write(txt)
            viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
            print('  contract %s: failed obligation %s at %s' % (n, hard[0]['name'], hard[0]['site']))
    # evidence
    obl = dis = inst = 0
    trusted, rf, df = set(), set(), set()
    proved, bounded = [], []
    for n, r in sorted(res.items()):
        trusted |= set(r['trusted'])
        rf |= set(r['repo_fns'])
        df |= set(r['dep_fns'])
        if r['status'] == 'proved':
            proved.append(n)
            for k, (a, b) in r['obs']:
                obl += 1
                dis += a == b
                inst += a
            obl += 1
            dis += 1    # termination/totality of every path explored
        else:
            bounded.append(dict(contract=n, reason=r['status'] + (': ' + r['why'] if r['why'] else ''), bound='%s native executions, seed %d' % (cases.get(n, [0])[0], seed)))
            if r['status'] == 'failed':
                for k, (a, b) in r['obs']:
                    obl += 1
                    dis += a == b
                    inst += a
    from assumptions import ASSUME
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=obl, discharged=dis, checker_cmd='python3-vt /verif/check.py %s %s' % (prop, tier),
                            trusted_base=['rustc %s MIR construction' % TC, '/verif/mirdump exporter', '/verif/vcgen verification condition generator', 'Z3 (z3-solver for Python)',
                                          'models of %d library functions (list below)' % len(trusted)],
                            vc_instances=inst, contracts=[dict(name=n, status=res[n]['status'], obligations=len(res[n]['obs']), paths=res[n]['paths'], loop_summaries=res[n]['summaries'],
                                                               relies_on=res[n]['used'], wall_s=round(res[n]['wall'], 2)) for n in sorted(res)],
                            back_end='Z3', solver_queries=sum(r['queries'] for r in res.values()), solver_s=round(sum(r['solver_s'] for r in res.values()), 2),
                            functions_under_contract=sorted(rf), dependency_functions_verified_inline=sorted(df), library_models=sorted(trusted),
                            proved=proved, bounded=bounded, native_cases=sum(c[0] for c in cases.values()), native_skipped=sum(c[1] for c in cases.values()),
                            vacuity='x_canary rejected; every proved contract has a path that reaches its end'),
              wall_s=round(time.time() - t0, 1), assumptions=ASSUME + NOTES.get(prop, []), violations=len(viol))
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    print('%s %s: %d contracts, %d proved, %d bounded; %d/%d obligations (%d instances); native %d cases; export %.1fs prove %.1fs native %.1fs'
          % (prop, tier, len(res), len(proved), len(bounded), dis, obl, inst, ev['coverage']['native_cases'], t1 - t0, t2 - t1, t3 - t2))
    for b in bounded:
        print('  bounded: %s (%s)' % (b['contract'], b['reason']))
    for w in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    for v in viol:
        print(v)
    sys.exit(1 if viol else 0)


if __name__ == '__main__':
    if sys.argv[1:] == ['setup']:
        build_native(export())
        sys.exit(0)
    main()
