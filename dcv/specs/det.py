"""Reproducibility: nothing that an expression or an evolver does reaches randomness or changing state outside the objects it is given.

The contracts give each operation a frame (what it may change) and the engine its start; the scan closes the rest: from the roots below every function
reachable in the extracted program is looked at for sources of entropy and for objects that outlive the call."""
import re
from il import walk

ROOTS = [r'dcgp::(es4cgp|moes4cgp|mes4cgp|momes4cgp|gd4cgp)::(evolve|set_seed)$',
         r'dcgp::expression(_ann|_weighted)?(<.*>)?::(mutate\w*|operator\(\)|d?_?loss|update\w*|is_active\w*|set\w*|get\w*|set|seed|init\w*|check\w*|kernel_call|fill\w*)$',
         r'dcgp::symbolic_regression::(fitness|gradient|hessians|pretty|prettier|predict|get_bounds|get_nix|get_nobj|batch_fitness|get_cgp)$']
# asked for by name in the interface: shuffling, and drawing without a seed
EXEMPT = [r'::sgd$', r'::randomise_\w+$']
ENTROPY = [r'^dcgp::random_device::', r'^dcgp::detail::random_device_statics', r'^std::random_device', r'^(std::|::)?(rand|srand|random|drand48|lrand48|rand_r|getenv|time|clock|getpid|gettimeofday|clock_gettime|getrandom)$',
           r'^std::chrono::.*::now$', r'^std::this_thread::get_id$', r'^pagmo::random_device::', r'^std::random_shuffle$']
# objects outside the call that carry no state between calls: the stream printed to
STREAMS = re.compile(r'^std::(cout|cerr|clog)$')


def scan(P):
    out = []
    ent = [re.compile(x) for x in ENTROPY]
    exm = [re.compile(x) for x in EXEMPT]
    roots = [i for i, f in enumerate(P.F) if 'body' in f and any(re.search(r, f['qn']) for r in ROOTS) and not any(x.search(f['qn']) for x in exm)]
    out.append(('there is something to look at', len(roots) > 20, 'dcv/specs/det.py'))
    gl = {g['id']: g for g in P.G}
    seen, work, via = set(roots), list(roots), {}
    nf = 0
    while work:
        i = work.pop()
        f = P.F[i]
        if 'body' not in f:
            continue
        nf += 1
        for n in walk([f['body'], f.get('inits') or []]):
            j = n.get('fn')
            if isinstance(j, int) and j >= 0:
                g = P.F[j]
                if any(x.search(g['qn']) for x in ent):
                    out.append(('%s draws on nothing but its own engine (%s)' % (f['qn'], g['qn']), False, '%s:%s' % (f.get('file', ''), n.get('l'))))
                elif j not in seen and not any(x.search(g['qn']) for x in exm):
                    seen.add(j)
                    via[j] = i
                    work.append(j)
            if n.get('k') == 'ref' and n.get('dk') == 'global':
                g = gl.get(n.get('id'))
                nm = g['qn'] if g else n.get('qn') or n.get('name', '')
                t = P.T[n['t']] if 't' in n else {}
                if STREAMS.match(nm) or (g and (g.get('const') or is_const(P, g['t']))) or g is None and not n.get('lv'):
                    continue
                if nm.endswith('::extract_sr_cpp_py') or g and g.get('fn'):
                    continue
                out.append(('%s keeps no state between calls (%s)' % (f['qn'], nm), None, '%s:%s' % (f.get('file', ''), n.get('l'))))
            if n.get('k') in ('decl', 'var') and n.get('static') and not is_const(P, n.get('t')):
                out.append(('%s keeps no state between calls (static %s)' % (f['qn'], n.get('name')), None, '%s:%s' % (f.get('file', ''), n.get('l'))))
    out.append(('%d functions reachable from %d operations draw on no other source' % (nf, len(roots)), True, 'dcv/specs/det.py'))
    return out


def is_const(P, t):
    return isinstance(t, int) and bool(P.T[t].get('const'))
