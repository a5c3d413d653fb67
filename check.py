#!/usr/bin/env python3
"""Decide one property:  check.py ID [--tier quick|thorough]

Re-types /repo's current sources (vc/extract.py), compiles them with the contracts of the property
(contracts/ID*.cpp) against the verification-condition generator (vc/engine.cpp), explores every path of every
contract and discharges every obligation.  Exit 0: all discharged.  Exit 1: a VIOLATION line.  Exit 2: the check
itself could not run.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
VC = os.path.join(VERIF, 'vc')
NPROC = os.cpu_count() or 4
CXX = 'g++'
EIGEN = '/usr/include/eigen3'
SYMF = ['-std=c++17', '-O0', '-w', '-DVP_SYMBOLIC', '-DSTATE_OBSERVATION_EXPORTS', '-DBOOST_ENABLE_ASSERT_HANDLER']
# uninitialised variables and allocations hold garbage in the concrete reading
NUMF = ['-std=c++17', '-O1', '-g0', '-w', '-DSTATE_OBSERVATION_EXPORTS', '-DBOOST_ENABLE_ASSERT_HANDLER',
        '-ftrivial-auto-var-init=pattern']
NUMENV = dict(os.environ, MALLOC_PERTURB_='1')
LIBS = ['-lboost_timer', '-lboost_chrono', '-lboost_system']


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                          errors='replace', **kw)


class BuildError(Exception):
    pass


def compile_all(jobs, log):
    """jobs: list of (cmd, name). Returns the list of failures."""
    bad = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for (cmd, name), r in zip(jobs, ex.map(lambda j: run(j[0]), jobs)):
            if r.returncode != 0:
                bad.append(name + ': ' + '\n'.join(l for l in r.stderr.splitlines() if 'error' in l)[:1500])
    return bad


def sources(top):
    return sorted(glob.glob(os.path.join(top, 'src', '**', '*.cpp'), recursive=True))


def contract_files(prop):
    return sorted(glob.glob(os.path.join(VERIF, 'contracts', prop + '*.cpp')))


def build_sym(prop, work):
    x = os.path.join(work, 'sym')
    r = run([sys.executable, os.path.join(VC, 'extract.py'), REPO, x])
    if r.returncode != 0:
        raise BuildError('extraction: ' + r.stderr[-800:])
    inc = ['-I' + VC, '-I' + os.path.join(VERIF, 'contracts'), '-I' + os.path.join(x, 'include'), '-I' + EIGEN]
    pch = os.path.join(x, 'pch')
    os.makedirs(pch)
    shutil.copy(os.path.join(VC, 'real.hpp'), pch)
    r = run([CXX] + SYMF + inc + ['-x', 'c++-header', os.path.join(pch, 'real.hpp'), '-o',
                                  os.path.join(pch, 'real.hpp.gch')])
    if r.returncode != 0:
        raise BuildError('real.hpp: ' + r.stderr[-800:])
    pre = ['-include', os.path.join(pch, 'real.hpp')]
    jobs, objs, engine = [], [], []
    for s in ('engine.cpp', 'poly.cpp', 'main_sym.cpp'):
        o = os.path.join(work, 'vc_' + s + '.o')
        jobs.append(([CXX] + SYMF + ['-O2'] + inc + ['-c', os.path.join(VC, s), '-o', o], s))
        engine.append(o)
    cobj = []
    for s in contract_files(prop):
        o = os.path.join(work, 'c_' + os.path.basename(s) + '.o')
        jobs.append(([CXX] + SYMF + pre + inc + ['-c', s, '-o', o], os.path.basename(s)))
        cobj.append(o)
    for s in sorted(sources(x), key=lambda p: -os.path.getsize(p)):
        o = os.path.join(work, 's_' + os.path.relpath(s, x).replace('/', '_') + '.o')
        jobs.append(([CXX] + SYMF + pre + inc + ['-c', s, '-o', o], os.path.relpath(s, x)))
        objs.append(o)
    bad = compile_all(jobs, None)
    if bad:
        raise BuildError('symbolic build: ' + ' | '.join(bad))
    exe = os.path.join(work, 'sym.exe')
    r = run([CXX, '-o', exe] + cobj + engine + objs + LIBS + ['-lz3', '-lgmpxx', '-lgmp'])
    if r.returncode != 0:
        raise BuildError('symbolic link: ' + r.stderr[-1500:])
    return exe


def build_num(prop, work):
    """The real library, doubles, unmodified sources: for replaying counterexamples."""
    gen = os.path.join(work, 'gen', 'state-observation')
    os.makedirs(gen, exist_ok=True)
    cfg = open(os.path.join(REPO, 'include/state-observation/config.h.in')).read()
    cfg = re.sub(r'\$<CONFIG:(\w+)>', lambda m: '1' if m.group(1) == 'Debug' else '0', cfg)
    open(os.path.join(gen, 'config.h'), 'w').write(cfg)
    inc = ['-I' + VC, '-I' + os.path.join(VERIF, 'contracts'), '-I' + os.path.join(REPO, 'include'),
           '-I' + os.path.dirname(gen), '-I' + EIGEN]
    pre = ['-include', os.path.join(VC, 'num_pre.hpp')]
    jobs, objs = [], []
    for s in [os.path.join(VC, 'main_num.cpp')] + contract_files(prop) + sorted(
            sources(REPO), key=lambda p: -os.path.getsize(p)):
        o = os.path.join(work, 'n_' + os.path.relpath(s, '/').replace('/', '_') + '.o')
        jobs.append(([CXX] + NUMF + pre + inc + ['-c', s, '-o', o], os.path.basename(s)))
        objs.append(o)
    bad = compile_all(jobs, None)
    if bad:
        raise BuildError('concrete build: ' + ' | '.join(bad))
    exe = os.path.join(work, 'num.exe')
    r = run([CXX, '-o', exe] + objs + LIBS)
    if r.returncode != 0:
        raise BuildError('concrete link: ' + r.stderr[-1500:])
    return exe


def lst(exe):
    r = run([exe, '--list'], timeout=60)
    return [l.split('\t', 1) for l in r.stdout.splitlines() if '\t' in l]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    thorough = a.tier == 'thorough'
    t0 = time.time()
    work = a.keep or tempfile.mkdtemp(prefix='vp-' + a.prop + '-')
    os.makedirs(work, exist_ok=True)
    try:
        code = decide(a, seed, thorough, work, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(a, seed, thorough, work, t0):
    prop = a.prop
    known = json.load(open(os.path.join(VERIF, 'known-findings.json')))
    known = {(k['contract'], k['obligation']): k for k in known.get('findings', []) if k['property'] == prop}
    secs = 1500 if thorough else 240
    oms = 60000 if thorough else 10000
    samples = 4000 if thorough else 400
    notes, results, symerr = [], [], None
    num = {'exe': None, 'err': None}

    lock = threading.Lock()

    def getnum():
        with lock:
            return getnum_()

    def getnum_():
        if num['exe'] is None and num['err'] is None:
            try:
                num['exe'] = build_num(prop, work)
            except BuildError as e:
                num['err'] = str(e)
        return num['exe']

    try:
        exe = build_sym(prop, work)
        contracts = lst(exe)
        if not contracts:
            raise BuildError('no contracts listed')
    except BuildError as e:
        symerr = str(e)
        print('NOTE: the symbolic build failed:', symerr[:3000])
        exe = None

    if exe is None:
        # the code left the subset the verifier reads: bounded stand-in on the real code
        n = getnum()
        if n is None:
            print('ERROR: neither build succeeded:', num['err'][:2000])
            return 2
        return fallback(prop, n, t0, seed, symerr, a.tier, thorough)

    if a.only:
        contracts = [c for c in contracts if re.search(a.only, c[0])]

    stop = threading.Event()

    def one(c):
        out = os.path.join(work, 'r_' + c[0] + '.json')
        if stop.is_set():
            return c, None, 'stopped'
        cmd = [exe, '--run', c[0], '--out', out, '--seed', str(seed), '--seconds', str(secs), '--oblig-ms', str(oms),
               '--samples', str(samples)]
        with open(out + '.err', 'w') as ef:
            pr = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef)
            end = time.time() + secs + (400 if thorough else 120)
            why = None
            while True:
                try:
                    pr.wait(0.1)
                    break
                except subprocess.TimeoutExpired:
                    if time.time() > end or stop.is_set():
                        why = 'stopped' if stop.is_set() else 'timeout'
                        pr.kill()
                        pr.wait()
                        break
        if why:
            return c, None, why
        if pr.returncode != 0 or not os.path.exists(out):
            return c, None, 'exit %d %s' % (pr.returncode, open(out + '.err', errors='replace').read()[-300:])
        r = json.load(open(out))
        cand = [b for b in r['bad'] if b['status'] == 1 and (c[0], b['label']) not in known]
        if cand and getnum() and any(
                replay(num['exe'], c[0], b['cex'], work)[0] == 'fail' for b in cand[:6]):
            # a failing input of the real code: what still runs gets a little more time, the verdict is settled
            t = threading.Timer(10, stop.set)
            t.daemon = True
            t.start()
        return c, r, None

    builder = threading.Thread(target=getnum, daemon=True)
    builder.start()
    with cf.ThreadPoolExecutor(NPROC) as ex:
        results = list(ex.map(one, contracts))
    builder.join()

    violations, knownhit, undecided, errors = [], [], [], []
    # the same contracts evaluated on the real code with doubles (bounded; never counted as proved)
    nsamp = 20000 if thorough else 400
    sampled = {}
    if num['exe'] and not stop.is_set():
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for c, f in zip(contracts, ex.map(lambda c: sample(num['exe'], c[0], seed, nsamp), contracts)):
                sampled[c[0]] = f
    bounded = {}
    if num['exe'] and not stop.is_set():
        # contracts outside the reach of the verifier: sampled only
        extra = [c for c in lst(num['exe']) if c[0] not in {k[0] for k in contracts}
                 and (not a.only or re.search(a.only, c[0]))]
        nb = 5 * nsamp
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for c, f in zip(extra, ex.map(lambda c: sample(num['exe'], c[0], seed, nb), extra)):
                bounded[c[0]] = c[1]
                sampled[c[0]] = f
    total = discharged = 0
    backends, functions, zs = {}, {}, 0.0
    for (cname, fn), r, err in results:
        functions.setdefault(fn, []).append(cname)
        if r is None and err == 'stopped':
            continue
        if r is None:
            # crash or timeout of the symbolic run: look at the real code
            n = getnum()
            f = sample(n, cname, seed, 3000) if n else None
            if f and f[0] == 'fail':
                violations.append((cname, f[1][0], f[2], f[1], True))
            elif err.startswith('exit -') or err.startswith('exit 1'):
                errors.append('%s: %s' % (cname, err))
            else:
                undecided.append((cname, 'contract', err))
            continue
        d = sum(sum(b.values()) for b in r['discharged'].values())
        for l in r['discharged'].values():
            for b, k in l.items():
                backends[b] = backends.get(b, 0) + k
        zs += r['z3_s']
        total += d + len(r['bad'])
        discharged += d
        if r['capped']:
            undecided.append((cname, 'exploration', '; '.join(r['notes'])))
            n = getnum()
            f = sample(n, cname, seed, 3000) if n else None
            if f and f[0] == 'fail':
                violations.append((cname, f[1][0], f[2], f[1], True))
        if a.v or (r['bad'] and len(r['bad'])):
            print('  %-44s paths %d complete %d discharged %d bad %d %.1fs' % (
                cname, r['paths'], r['complete'], d, len(r['bad']), r['wall']))
        if d == 0 and not r['bad'] and not r['capped']:
            errors.append('%s: no obligation was generated (vacuous)' % cname)
        seen = set()
        for b in sorted(r['bad'], key=lambda b: {1: 0, 3: 1, 2: 2}[b['status']]):
            key = (cname, b['label'])
            if key in known:
                if key not in knownhit:
                    knownhit.append(key)
                continue
            if key in seen:
                continue
            if b['status'] in (1, 3):
                ok, outp, cex = False, [], b['cex']
                n = getnum()
                if n:
                    for bb in [x for x in r['bad'] if x['label'] == b['label'] and x['status'] == 1][:6]:
                        rr = replay(n, cname, bb['cex'], work)
                        if rr[0] == 'fail':
                            ok, outp, cex = True, rr[1], bb['cex']
                            break
                    if not ok:
                        f = sample(n, cname, seed, 3000)
                        if f[0] == 'fail':
                            ok, outp, cex = True, f[1], f[2]
                seen.add(key)
                violations.append((cname, b['label'], cex, outp or [b['backend'] + ': ' + b['detail']], ok))
            else:
                seen.add(key)
                n = getnum()
                f = sample(n, cname, seed, 3000) if n else None
                if f and f[0] == 'fail':
                    violations.append((cname, b['label'], f[2], f[1], True))
                else:
                    undecided.append((cname, b['label'], b['detail'][:300]))

    flagged = {v[0] for v in violations}
    for cname, f in sampled.items():
        if f[0] == 'fail' and cname not in flagged:
            labels = [l for l in f[1] if not any(c == cname and l.startswith(k) for c, k in known)]
            if labels:
                violations.append((cname, labels[0], f[2], labels, True))
    for c, l in knownhit:
        print('KNOWN-FINDING: property=%s %s: %s -- %s' % (prop, c, l, known[(c, l)].get('what', '')))
    for u in undecided:
        print('UNDECIDED %s: %s (%s)' % (u[0], u[1], u[2][:200]))
    # confirmed ones first
    violations.sort(key=lambda v: not v[4])
    lines = []
    rdir = os.path.join(VERIF, 'replays', prop)
    shutil.rmtree(rdir, ignore_errors=True)
    shown = violations if any(not v[4] for v in violations) is False else (
        [v for v in violations if v[4]] or violations)
    for k, (cname, label, cex, outp, ok) in enumerate(shown[:10]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.replay' % (cname, k))
        with open(path, 'w') as f:
            f.write('property: %s\ncontract: %s\nobligation: %s\n' % (prop, cname, label))
            f.write('confirmed on the real code (doubles): %s\n' % ('yes' if ok else 'no'))
            f.write('output:\n' + ''.join('  %s\n' % o for o in outp))
            f.write('inputs:\n' + ''.join('  %s %.17g\n' % x for x in sorted((cex or {}).items())))
        line = 'VIOLATION property=%s replay=%s' % (prop, path)
        if not ok:
            line += ' no-failing-input-found'
        print('  failed obligation: %s :: %s' % (cname, label))
        for o in outp[:4]:
            print('     ', o[:300])
        lines.append(line)
    for l in lines:
        print(l)
    ev = {
        'property': prop, 'tier': a.tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': total, 'discharged': discharged,
            'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (prop, a.tier),
            'trusted_base': TRUSTED,
            'functions_under_contract': sorted(functions),
            'contracts': len(contracts),
            'paths': sum(r['paths'] for _, r, _ in results if r),
            'backends': backends, 'solver_seconds': round(zs, 2),
            'undecided': ['%s: %s (%s)' % u for u in undecided],
            'bounded_samples_on_doubles': {'per_contract': nsamp, 'contracts_sampled': len(sampled),
                                           'failing': sorted(c for c, f in sampled.items() if f[0] == 'fail')},
            'bounded_contracts': {'samples': 5 * nsamp, 'functions': bounded,
                                  'note': 'evaluated on random inputs of the real code only; not proved'},
            'known_findings': ['%s: %s' % k for k in knownhit],
        },
        'wall_s': round(time.time() - t0, 1),
        'assumptions': assumptions(prop),
        'violations': len(lines),
    }
    write_evidence(prop, ev)
    print('%s: %d contracts, %d obligations, %d discharged, %d undecided, %d violations, %.0f s' % (
        prop, len(contracts), total, discharged, len(undecided), len(lines), time.time() - t0))
    if lines:
        return 1
    if errors:
        print('ERROR:', '; '.join(errors)[:2000])
        return 2
    return 0


TRUSTED = ['vc/extract.py (token re-typing)', 'vc/engine.cpp, vc/poly.cpp (VC generator and normal form)', 'z3 4.8.12',
           'g++ 13.3 semantics of the re-typed code', 'Eigen 3.4 executed, not assumed, except where listed',
           'GMP', 'the contracts in /verif/contracts']
BASE_ASSUMPTIONS = [
    'machine doubles are treated as mathematical reals; decimal literals have their decimal value',
    'divisors and square-root arguments met on a path are in the domain of the operation',
    'matrix dimensions and container sizes are the ones instantiated by the contracts (listed per contract); all '
    'entries, times and branch outcomes at those dimensions are symbolic',
]


def assumptions(prop):
    out = list(BASE_ASSUMPTIONS)
    for f in contract_files(prop):
        for m in re.finditer(r'//\s*ASSUMES:\s*(.*)', open(f).read()):
            out.append(m.group(1).strip())
    return out


def write_evidence(prop, ev):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + '.json'), 'w'), indent=1)


def parse(r):
    outp = [l[7:] for l in r.stdout.splitlines() if l.startswith('FAILED ')]
    cex = {}
    for l in r.stdout.splitlines():
        if l.startswith('INPUT '):
            k, v = l[6:].rsplit(None, 1)
            cex[k] = float(v)
    return outp, cex


def replay(n, cname, cex, work):
    p = os.path.join(work, 'cex-%s-%d.txt' % (cname, threading.get_ident()))
    with open(p, 'w') as f:
        for k, v in cex.items():
            f.write('%s %.17g\n' % (k, v))
    try:
        r = run([n, '--run', cname, '--replay', p], timeout=60, env=NUMENV)
    except subprocess.TimeoutExpired:
        return ('fail', ['the real code does not terminate within 60 s'], cex)
    if r.returncode == 1:
        return ('fail', parse(r)[0], cex)
    if r.returncode < 0:
        return ('fail', ['the real code is killed by signal %d' % -r.returncode], cex)
    return ('held' if r.returncode == 0 else 'skip', [], cex)


def sample(n, cname, seed, count):
    try:
        r = run([n, '--run', cname, '--sample', str(count), '--seed', str(seed)], timeout=120, env=NUMENV)
    except subprocess.TimeoutExpired:
        return ('timeout', [], {})
    if r.returncode == 1:
        o, c = parse(r)
        return ('fail', o, c)
    if r.returncode < 0:
        return ('fail', ['the real code is killed by signal %d' % -r.returncode], {})
    return ('held', [], {})


def fallback(prop, n, t0, seed, why, tier, thorough):
    known = json.load(open(os.path.join(VERIF, 'known-findings.json')))
    known = {k['contract'] for k in known.get('findings', []) if k['property'] == prop}
    contracts = lst(n)
    viol = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        rs = list(ex.map(lambda c: sample(n, c[0], seed, 20000 if thorough else 4000), contracts))
    rdir = os.path.join(VERIF, 'replays', prop)
    shutil.rmtree(rdir, ignore_errors=True)
    for c, r in zip(contracts, rs):
        if r[0] == 'fail' and c[0] not in known:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, c[0] + '.replay')
            with open(path, 'w') as f:
                f.write('property: %s\ncontract: %s\nfailing input found by evaluating the contract on the real code\n' %
                        (prop, c[0]))
                f.write('output:\n' + ''.join('  %s\n' % o for o in r[1]))
                f.write('inputs:\n' + ''.join('  %s %.17g\n' % x for x in sorted(r[2].items())))
            viol.append('VIOLATION property=%s replay=%s' % (prop, path))
            print('  failed:', c[0], r[1][:2])
    for v in viol:
        print(v)
    write_evidence(prop, {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {'note': 'bounded stand-in: the current sources do not compile with symbolic reals, the contracts '
                             'were evaluated on sampled inputs of the real code', 'why': why[:1500],
                     'samples_per_contract': 20000 if thorough else 4000, 'contracts': len(contracts)},
        'wall_s': round(time.time() - t0, 1), 'assumptions': assumptions(prop), 'violations': len(viol)})
    print('%s: bounded stand-in, %d contracts sampled, %d violations' % (prop, len(contracts), len(viol)))
    return 1 if viol else 0


main()
