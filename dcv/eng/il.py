"""Program representation: the JSON that the extractor (dcvx) prints for the current source of /repo."""
import json, re


def strip_targs(q):
    """'std::vector<a<b>>::push_back' -> 'std::vector::push_back' (keeps operator<, operator<<, operator->)."""
    out, depth, i = [], 0, 0
    while i < len(q):
        if q.startswith('operator', i):
            j = i + 8
            m = re.match(r'(<<=|>>=|<=>|->\*|->|<<|>>|<=|>=|\(\)|\[\]|<|>|[^\w\s<>(),:]+)', q[j:])
            if m:
                if depth == 0:
                    out.append('operator' + m.group(0))
                i = j + m.end()
                continue
        c = q[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.F, self.T, self.R, self.G = d['functions'], d['types'], d['records'], d['globals']
        self.by_qn = {}
        for i, f in enumerate(self.F):
            f['idx'] = i
            f['bqn'] = strip_targs(f['qn'])
            f['sig'] = f['qn'] + '(' + ', '.join(self.ts(p['t']) for p in f['params']) + ')'
            self.by_qn.setdefault(f['qn'], []).append(f)
        self.rec_by_type, self.rec_by_qn = {}, {}
        for r in self.R:
            self.rec_by_type[r['t']] = r
            self.rec_by_qn.setdefault(self.T[r['t']].get('s'), r)
            self.rec_by_qn.setdefault(r['qn'], r)

    def ts(self, t):
        """canonical spelling of a type, without 'class ', 'struct '"""
        s = self.T[t].get('s', '?')
        s = re.sub(r'\b(class|struct|enum) ', '', s)
        return s.replace('std::basic_string<char>', 'string')

    def strip(self, t):
        ty = self.T[t]
        while ty['c'] == 'ref':
            t = ty['to']
            ty = self.T[t]
        return t

    def ty(self, t):
        return self.T[self.strip(t)]

    def isref(self, t):
        return self.T[t]['c'] == 'ref'

    def canon(self, t):
        """unqualified type id representative by spelling without const"""
        t = self.strip(t)
        return t

    def tkey(self, t):
        return re.sub(r'\bconst\b', '', self.ts(self.strip(t))).replace(' ', '')

    def fn(self, qn, pred=None):
        r = [f for f in self.by_qn.get(qn, []) if 'body' in f and (pred is None or pred(f))]
        return r

    def record(self, t):
        t = self.strip(t)
        r = self.rec_by_type.get(t)
        if r is None:
            s = self.T[t].get('s', '')
            s2 = re.sub(r'^const ', '', s)
            r = self.rec_by_qn.get(s2) or self.rec_by_qn.get(re.sub(r'^(class|struct) ', '', s2))
        return r

    def all_fields(self, r):
        """(base-first) list of fields, base classes flattened"""
        fs = []
        for b in r['bases']:
            br = self.record(b)
            if br:
                fs += self.all_fields(br)
        return fs + r['fields']

    def derives(self, t, bqn):
        r = self.record(t)
        if not r:
            return False
        if r['qn'] == bqn:
            return True
        return any(self.derives(b, bqn) for b in r['bases'])


def walk(x):
    if isinstance(x, dict):
        if 'k' in x:
            yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def _targs_of_iter(self, t):
    """container type of a __normal_iterator (its second template argument)"""
    return self.ty(t)['args'][1]


Program.targs_of_iter = _targs_of_iter
