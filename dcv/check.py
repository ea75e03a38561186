#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only contract-substring]

Decides one property on the current tree of /repo:
 1. the extractor (a clang plug-in program) turns the functions of /repo/include, as the compiler sees them, into
    the intermediate language; nothing is taken from an earlier run unless every input file is identical;
 2. every contract of the property is verified function by function (z3); lemmas used by the contracts are proved too;
 3. meanwhile a replay harness runs the real code, to find an input for a failed obligation and to stand in, bounded,
    for what is outside the verifier's reach.
Exit 0: the property held on everything explored. Exit 1: a line VIOLATION property=<id> replay=<path>.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE + '/eng', HERE + '/specs', HERE]
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18'
T0 = time.time()
JOBS = max(2, os.cpu_count() or 4)


def say(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def headers():
    fs = [f for f in glob.glob(REPO + '/include/**/*', recursive=True) if os.path.isfile(f)]
    fs += [f for f in glob.glob(HERE + '/stubs/**/*', recursive=True) if os.path.isfile(f)]
    return fs


def sh(cmd, cwd=BUILD, timeout=600, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


INCL = ['-std=c++17', '-I' + REPO + '/include', '-I' + HERE + '/stubs', '-I/usr/include/eigen3']


def extractor():
    src = HERE + '/extract/dcvx.cpp'
    out = os.path.join(BUILD, 'dcvx-' + digest([src]))
    if not os.path.exists(out):
        rc, txt = sh(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I%s/include' % LLVM, src, '-o', out + '.tmp',
                      LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM-18.so'])
        if rc:
            raise RuntimeError('the extractor does not build: ' + txt[-800:])
        os.rename(out + '.tmp', out)
    return out


def extract():
    """-> path of the intermediate language of the current tree, or (None, reason)"""
    x = extractor()
    tu = HERE + '/tu.cpp'
    out = os.path.join(BUILD, 'il-%s.json' % digest(headers() + [tu, x]))
    if not os.path.exists(out):
        with open(out + '.tmp', 'wb') as f:
            p = subprocess.run([x, '--own=%s/include' % REPO, tu, '--'] + INCL, cwd=BUILD, stdout=f, stderr=subprocess.PIPE, timeout=300)
        if p.returncode:
            return None, 'extraction failed: ' + p.stderr.decode('utf-8', 'replace')[-1500:]
        os.rename(out + '.tmp', out)
    return out, ''


LOCKS, LOCKS_LOCK = {}, threading.Lock()


class Harness:
    """compiled replay harness; asan when it works here"""

    def __init__(self, name, flags=()):
        self.name, self.flags = name, list(flags)
        self.out, self.err = None, ''

    def obj(self, src, extra):
        key = digest(headers() + glob.glob(HERE + '/replay/*.hpp') + [src], ' '.join(extra))
        o = os.path.join(BUILD, os.path.basename(src)[:-4] + '-' + key + '.o')
        with LOCKS_LOCK:
            lock = LOCKS.setdefault(o, threading.Lock())
        with lock:
            if not os.path.exists(o):
                rc, txt = sh(['clang++'] + extra + INCL + ['-c', src, '-o', o + '.tmp'], timeout=500)
                if rc:
                    self.err = txt[:3000]
                    return None
                os.rename(o + '.tmp', o)
        return o

    def build(self):
        src = HERE + '/replay/%s.cpp' % self.name
        top = ''.join(open(src).readlines()[:12])
        m = re.search(r'SANITIZE (\w+)', top)
        self.san = m.group(1) if m else 'address'
        srcs = [(src, ['-O1', '-g0', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=' + self.san, '-fno-omit-frame-pointer', '-Wno-everything'] + self.flags)]
        if 's11n' in self.flags or 'NEED_S11N' in top:
            srcs.append((HERE + '/replay/s11n_impl.cpp', ['-O0', '-g0', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS', '-Wno-everything']))
        res = [None] * len(srcs)

        def one(n):
            try:
                res[n] = self.obj(*srcs[n])
            except Exception as e:
                self.err = repr(e)
        ts = [threading.Thread(target=one, args=(n,)) for n in range(len(srcs))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if None in res:
            return False
        out = os.path.join(BUILD, 'h-%s-%s' % (self.name, hashlib.sha256(' '.join(res).encode()).hexdigest()[:16]))
        if not os.path.exists(out):
            rc, txt = sh(['clang++', '-fsanitize=' + self.san] + res + ['-o', out + '.tmp', '-lpagmo', '-lboost_serialization', '-ltbb', '-lpthread'])
            if rc:
                self.err = txt[-2000:]
                return False
            os.rename(out + '.tmp', out)
        self.out = out
        return True

    def run(self, prop, seed, budget):
        env = dict(os.environ, ASAN_OPTIONS='abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1',
                   TSAN_OPTIONS='halt_on_error=1:exitcode=66:handle_segv=0:handle_abort=0:handle_sigfpe=0')
        cmd = [self.out, prop, str(seed), str(budget)]
        p = subprocess.run(['bash', '-c', 'ulimit -c 0; exec "$@"', 'x'] + cmd, cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget * 4 + 200, env=env)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


def known_findings():
    out = []
    try:
        for l in open(VERIF + '/known_findings.txt'):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    only = a[a.index('--only') + 1] if '--only' in a else None
    noreplay = '--no-replay' in a
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    deadline = T0 + (640 if tier == 'quick' else 3000)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    import registry
    spec = registry.PROPS[pid]
    keys = [k for k in spec.get('contracts', []) if not only or only in k]
    lem = list(spec.get('lemmas', []))
    rep = dict(state='none')

    def replay_one(name, budget, runs):
        h = Harness(name)
        try:
            ok = h.build()
        except Exception as e:
            ok, h.err = False, repr(e)
        if not ok:
            runs.append(dict(harness=name, status='not built', detail=h.err))
            return
        b = budget * (1 if tier == 'quick' else 8)
        try:
            rc, out, err = h.run(pid, seed, b)
        except subprocess.TimeoutExpired:
            runs.append(dict(harness=name, status='timeout', detail=''))
            return
        r = dict(harness=name, cmd='%s %s %d %g' % (h.out, pid, seed, b), out=out, err=err[-3000:])
        if rc == 0:
            try:
                r.update(json.loads(out.strip().splitlines()[-1]))
                r['status'] = 'quiet'
            except Exception:
                r['status'] = 'no answer'
        elif re.search(r'^FAIL ', out, re.M):
            r['status'] = 'fail'
            r['what'] = re.search(r'^FAIL \S+ (.*)', out, re.M).group(1)
        elif rc == 66 and 'ThreadSanitizer: data race' in err:
            r['status'], r['what'] = 'fail', 'data race reported by ThreadSanitizer'
        else:
            r['status'], r['detail'] = 'no answer', 'exit %d: %s' % (rc, (out + err)[-500:])
        runs.append(r)

    def replay_thread():
        per = [(x, []) for x in ([] if noreplay else spec.get('replay', []))]
        ts = [threading.Thread(target=replay_one, args=(x[0], x[1], r)) for x, r in per]
        [t.start() for t in ts]
        [t.join() for t in ts]
        rep['runs'] = [q for _, r in per for q in r]
        rep['state'] = 'done'
    th = threading.Thread(target=replay_thread)
    th.start()
    il, why = None, ''
    if keys:
        try:
            il, why = extract()
        except Exception as e:
            why = repr(e)
        say('extraction', il or why[:300])
    import prover
    results = []
    if lem or il:
        def log(d, sc):
            say('%-9s %3d/%3d %6.1fs %s %s' % (d['status'], d['discharged'], d['obligations'], d['time'], d['key'][:150], (d.get('reason') or '')[-200:] if d['status'] not in ('proved', 'failed') else ''))
            for f in d['failed'][:8]:
                say('      not discharged: %s  [%s]' % (f['name'], f['loc']))
        results = prover.prove_all(il, lem + (keys if il else []), deadline, JOBS - 1, log=log)
    if keys and not il:
        results += [dict(key=k, status='unsupported', reason=why[:300], obligations=0, discharged=0, failed=[], backends={}, time=0.0) for k in keys]
    th.join(timeout=max(30, T0 + 860 - time.time()) if tier == 'quick' else None)
    runs = rep.get('runs', [])
    # ---- decide
    skip = [re.compile(x) for x in spec.get('not_this_property', [])]
    take = [re.compile(x) for x in spec.get('this_property', [])]
    failed, bounded = [], []
    for r in results:
        if r['status'] in ('unsupported', 'timeout', 'error'):
            bounded.append((r['key'], r['status'] + ': ' + (r.get('reason') or '')))
            if r['status'] == 'unsupported':
                continue
        if r['status'] == 'vacuous':
            bounded.append((r['key'], 'vacuous: ' + '; '.join(r['vacuous'])))
        for f in r['failed']:
            if not any(s.search(f['name']) for s in skip) and (not take or any(s.search(f['name']) for s in take)):
                failed.append((r, f))
    known = [(i, t) for p, i, t in known_findings() if p == pid]
    viol = []
    fails = [r for r in runs if r['status'] == 'fail']
    rdir = os.path.join(VERIF, 'build', 'replays')
    os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, '%s.txt' % pid)
    if fails or failed:
        with open(rfile, 'w') as f:
            f.write('property %s, tier %s\n' % (pid, tier))
            for r, o in failed:
                f.write('\nfailed obligation: %s\n  kind %s, at %s, in %s\n  contract of %s\n  verifier: z3 did not discharge it within its budget (unknown or counterexample to the quantified obligation); query %s\n' % (o['name'], o['kind'], o['loc'], o['fn'], r['key'], o.get('smt2', '-')))
                if o.get('smt2') and os.path.exists(o['smt2']):
                    f.write(open(o['smt2']).read()[:20000] + '\n')
            for r in fails:
                f.write('\nfailing input found on the real code by: %s\n%s\n%s\n' % (r['cmd'], r['out'], r['err']))
        viol.append('VIOLATION property=%s replay=%s%s' % (pid, rfile, '' if fails else ' no-failing-input-found'))
    for i, t in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    wall = time.time() - T0
    nob = sum(r['obligations'] for r in results)
    ndi = sum(r['discharged'] for r in results)
    proved = [r for r in results if r['status'] == 'proved']
    cov = dict(
        obligations=nob, discharged=ndi,
        checker_cmd='python3-vt dcv/check.py %s --tier %s  (clang 18 front end -> verification conditions -> z3 %s)' % (pid, tier, z3_version()),
        trusted_base=registry.TRUSTED + spec.get('trusted', []),
        functions_under_contract=[dict(function=r['key'], status=r['status'], obligations=r['obligations'], discharged=r['discharged'], backends=r['backends'],
                                       seconds=round(r['time'], 2), solver_seconds=round(r.get('solver_time', 0), 2), queries=r.get('queries', 0), loops=r.get('loops', 0),
                                       exits_not_contradictory=r.get('live_exits', 0), contracts_used=r.get('contracts_used', []), inlined=r.get('inlined', []),
                                       modelled=r.get('modelled', [])) for r in results],
        proved=len(proved), not_proved=[r['key'] for r in results if r['status'] != 'proved'],
        bounded_not_proved=[dict(what=k, why=w[:300]) for k, w in bounded] + [dict(what=w, why=y) for w, y in spec.get('bounded', [])],
        replay=[{k: v for k, v in r.items() if k not in ('out', 'err')} for r in runs],
    )
    level = spec.get('level', 'proof')
    if level != 'proof' or not nob:
        cov.update(evaluations=sum(int(r.get('checks', 0)) for r in runs), distinct_nontrivial=sum(int(r.get('distinct', 0)) for r in runs),
                   rule='histories generated by the replay harness from the seed; distinct by their text', samples=sum([r.get('samples', []) for r in runs], [])[:5],
                   explanation=spec.get('explanation', 'contracts proved where listed; bounded replay of the real code for the rest'))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2), violations=len(viol), assumptions=registry.ASSUMPTIONS + spec.get('assumptions', []))
    with open(VERIF + '/evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1)
    say('%s: %d/%d obligations discharged over %d contracts (%d proved); bounded: %d; replay: %s' % (
        pid, ndi, nob, len(results), len(proved), len(bounded), ', '.join('%s %s %s' % (r['harness'], r['status'], r.get('checks', r.get('what', r.get('detail', ''))[:200] if not isinstance(r.get('checks'), int) else '')) for r in runs)))
    for v in viol:
        print(v)
    sys.stdout.flush()
    os._exit(1 if viol else 0)


def z3_version():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
