"""Runs the contract proofs of a property over the current source: one process per function."""
import hashlib, json, multiprocessing as mp, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + '/eng', HERE + '/specs', HERE]


_PROG = {}


def program(il):
    from il import Program
    if il not in _PROG:
        _PROG[il] = Program(il)
    return _PROG[il]


def run_one(il, key, budget, scale, q):
    """prove one contract; puts a result dict on q"""
    t0 = time.time()
    out = dict(key=key, status='error', obligations=0, discharged=0, failed=[], backends={}, time=0.0)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        import registry
        import contract, logic as L
        if scale > 1:
            L.SEEDS = (13, 'arith')
        from exec import Unsupported
        if key.startswith('lemma:'):
            obls = registry.LEMMAS[key]()
            out['obligations'] = len(obls)
            for n, h, g in obls:
                if L.prove(h, g, 10000 * scale):
                    out['discharged'] += 1
                else:
                    out['failed'].append(dict(name=n, kind='lemma', loc='specs', fn=key))
            out['backends'] = {'z3': out['discharged']}
            out['status'] = 'proved' if not out['failed'] else 'failed'
        elif key.startswith('scan:'):
            rs = registry.SCANS[key](program(il))
            out['obligations'] = len(rs)
            out['discharged'] = sum(1 for n, ok, l in rs if ok)
            out['failed'] = [dict(name=n, kind='scan', loc=l, fn=key) for n, ok, l in rs if ok is False]
            und = [n for n, ok, l in rs if ok is None]
            out['backends'] = {'scan of the extracted program': out['discharged']}
            out['status'] = 'failed' if out['failed'] else 'unsupported' if und else 'proved'
            out['reason'] = '; '.join(und)[:400]
        else:
            P = program(il)
            con, regs, kw = registry.setup(key)
            opts = dict(kw.pop('opts', {}))
            opts['houdini_ms'] = int(opts.get('houdini_ms', 1500) * scale)
            if 'templ_ms' in opts:
                opts['templ_ms'] = int(opts['templ_ms'] * scale)
            opts['range_ms'] = int(opts.get('range_ms', 250) * scale)
            try:
                ex = contract.verify(P, con, regs, opts=opts, **kw)
            except Unsupported as u:
                out.update(status='unsupported', reason=str(u)[:400], time=time.time() - t0)
                q.put(out)
                return
            contract.discharge(ex, 10000 * scale)
            for o in ex.obls:
                out['obligations'] += 1
                if o.res == 'proved':
                    out['discharged'] += 1
                    out['backends'][o.backend] = out['backends'].get(o.backend, 0) + 1
                else:
                    d = dict(name=o.name, kind=o.kind, loc=o.loc, fn=o.fn)
                    try:
                        L.dump(o.pc, o.goal, os.path.join(os.path.dirname(il), 'failed-%d-%d.smt2' % (os.getpid(), len(out['failed']))))
                        d['smt2'] = os.path.join(os.path.dirname(il), 'failed-%d-%d.smt2' % (os.getpid(), len(out['failed'])))
                    except Exception:
                        pass
                    out['failed'].append(d)
            out['status'] = 'proved' if not out['failed'] else 'failed'
            # vacuity: the precondition, and the path condition of every way out, must not be contradictory
            out['returns'], out['throws'] = ex.nret, ex.nthrow
            vac = []
            if L.prove(ex.prefacts, L.z3.BoolVal(False), 1500):
                vac.append('contradictory precondition')
            if ex.nret + ex.nthrow == 0:
                vac.append('no way out of the function is reachable')
            live = 0
            for kind, val, snap in ex.leaves:
                if not L.prove(snap[1], L.z3.BoolVal(False), 700):
                    live += 1
            out['live_exits'] = live
            if ex.leaves and not live:
                vac.append('every way out has a contradictory path condition')
            if not out['obligations']:
                vac.append('no obligations')
            out['vacuous'] = vac
            if vac:
                out['status'] = 'vacuous'
            out['contracts_used'] = sorted(ex.calls)
            out['inlined'] = sorted(ex.inlined)
            out['modelled'] = sorted(ex.modelled)
            out['invariants'] = sum(len(l[3]) if hasattr(l[3], '__len__') else 0 for l in ex.loopstats)
            out['loops'] = len(ex.loopstats)
            out['queries'] = L.Stats.queries
            out['solver_time'] = L.Stats.time
    except MemoryError:
        out['status'], out['reason'] = 'unsupported', 'memory'
    except Exception as e:
        out['reason'] = traceback.format_exc()[-1500:]
        out['status'] = 'error'
    out['time'] = time.time() - t0
    q.put(out)


def prove_all(il, keys, deadline, jobs=7, per=300, log=None):
    """-> list of results; a function that fails is tried once more with larger solver budgets"""
    ctx = mp.get_context('fork')
    import registry  # noqa: F401  (loaded once, before the processes are forked)
    if il and any(not k.startswith('lemma:') for k in keys):
        program(il)
    todo = [(k, 1) for k in keys]
    limit = {k: registry.seconds(k, per) for k in keys}
    running, res = {}, {}
    while todo or running:
        while todo and len(running) < jobs:
            k, sc = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=run_one, args=(il, k, limit[k], sc, q))
            p.start()
            running[k] = (p, q, time.time(), sc)
        time.sleep(0.05)
        for k, (p, q, t, sc) in list(running.items()):
            done = None
            if not q.empty():
                done = q.get()
                p.join()
            elif not p.is_alive():
                done = dict(key=k, status='error', reason='prover process died', obligations=0, discharged=0, failed=[], backends={}, time=time.time() - t)
            elif time.time() - t > limit[k] * sc or time.time() > deadline:
                p.kill()
                p.join()
                done = dict(key=k, status='timeout', reason='no answer within %d s' % (time.time() - t), obligations=0, discharged=0, failed=[], backends={}, time=time.time() - t)
            if done:
                del running[k]
                if log:
                    log(done, sc)
                if done['status'] in ('failed', 'timeout', 'error') and sc == 1 and time.time() + 60 < deadline:
                    todo.append((k, 3))
                    res[k] = done
                else:
                    done['scale'] = sc
                    if sc > 1 and done['status'] in ('timeout', 'error') and k in res and res[k]['status'] == 'failed':
                        done = res[k]
                    res[k] = done
    return [res[k] for k in keys]


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]
