"""Whole-program syntax queries: parent links, variables, where a callable
value can flow to, and which functions a call can reach."""
import re


def kids(o):
    for k, v in o.items():
        if isinstance(v, dict):
            yield k, None, v
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, dict):
                    yield k, i, x


def nodes(o):
    st = [o]
    while st:
        n = st.pop()
        yield n
        st.extend(v for _, _, v in kids(n))


def plain(s):
    """a qualified name without template arguments and parameters"""
    out, d, i = '', 0, 0
    while i < len(s):
        c = s[i]
        if s.startswith('operator()', i) and not d:
            return out + 'operator()'
        if c == '<' and not out.endswith('operator'):
            d += 1
        elif c == '>' and d:
            d -= 1
        elif not d:
            if c == '(':
                break
            out += c
        i += 1
    return out


def sig(f):
    """the parameter types of a function, as text"""
    i = f['id']
    if i.startswith(f['q']):
        i = i[len(f['q']):]
    if i.startswith('@'):
        d = 0
        for n, c in enumerate(i):
            if c == '(' and not d:
                return i[n:]
            d += (c == '<') - (c == '>')
    return i


class Ast:
    def __init__(self, P):
        self.P = P
        self.par = {}          # id(node) -> (parent, role, index)
        self.owner = {}        # id(node) -> func
        self.vars = {}         # (func id, var id) -> list of var nodes, over the function and lambdas written in it
        self.decl = {}         # (root id, var id) -> (decl node / param, func)
        self.lamof = {}        # lambda func id -> lambda node
        self.funcs = list(P.funcs.values())
        for f in self.funcs:
            self.link(f)
        for f in self.funcs:
            for n in f['_n']:
                if n.get('k') == 'lambda':
                    for g in ([n['f']] if 'f' in n else n.get('sp', [])):
                        self.lamof.setdefault(g, n)
        # the function a lambda is written in, up to the outermost
        self.rootm = {}
        for f in self.funcs:
            r = self.root(f)
            for p in f['params']:
                self.decl[(r['id'], p['id'])] = (dict(p, k='param'), f)
            for n in f['_n']:
                if n.get('k') == 'decl':
                    self.decl[(r['id'], n['id'])] = (n, f)
                    for b in n.get('b', []):
                        if isinstance(b, dict) and 'id' in b:
                            self.decl.setdefault((r['id'], b['id']), (dict(b, k='bind', of=n), f))
                elif n.get('k') == 'var':
                    self.vars.setdefault((r['id'], n['id']), []).append(n)
                elif n.get('k') == 'lambda':
                    for c in n['caps']:
                        if c.get('ic') and 'id' in c:
                            self.decl.setdefault((r['id'], c['id']), (dict(c, k='cap', lam=n), f))
        self.over = {}
        for f in P.funcs.values():
            for o in f.get('over', []):
                self.over.setdefault(re.sub(r'<.*>', '', o), []).append(f)

    def link(self, f):
        ns = f['_n'] = []
        st = [x for x in [f.get('body')] if x]
        for i in f.get('inits') or []:
            st.append(i)
        for x in st:
            self.par[id(x)] = (None, None, None)
        while st:
            n = st.pop()
            ns.append(n)
            self.owner[id(n)] = f
            for k, i, v in kids(n):
                self.par[id(v)] = (n, k, i)
                st.append(v)

    def up(self, n):
        return self.par[id(n)]

    def root(self, f):
        """the named function a lambda body is written in"""
        r = self.rootm.get(f['id'])
        if r is None:
            r = f
            if f['id'] in self.lamof:
                o = self.owner[id(self.lamof[f['id']])]
                r = o if o is f else self.root(o)
            self.rootm[f['id']] = r
        return r

    def bodies(self, lam):
        return [self.P.funcs[g] for g in ([lam['f']] if 'f' in lam else lam.get('sp', [])) if g in self.P.funcs]

    def targets(self, fid, virtual):
        """the bodies a call of fid may run"""
        out = []
        if fid in self.P.funcs:
            out.append(self.P.funcs[fid])
        if virtual:
            d = self.P.fn.get(fid)
            if d:
                out += [g for g in self.over.get(re.sub(r'<.*>', '', d['q']), []) if sig(g) == sig(d)]
        return out

    def q(self, fid):
        d = self.P.fn.get(fid) or self.P.funcs.get(fid)
        if d:
            return d.get('b') or d['q']
        return plain(fid)

    def at(self, n):
        f = self.owner[id(n)]
        x = n
        while x is not None and 'l' not in x:
            x = self.par[id(x)][0]
        return '%s:%s' % (f['file'].replace('/repo/', ''), x['l'] if x else f['line'])


ALGO = {'for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'copy_if', 'remove_if', 'transform', 'accumulate', 'sort',
        'stable_sort', 'partition', 'generate', 'generate_n', 'min_element', 'max_element', 'lower_bound', 'upper_bound', 'equal', 'visit', 'apply',
        'invoke', 'call_once', 'ConvertBits', 'reduce', 'inner_product', 'partial_sum', 'erase_if', 'unique', 'replace_if', 'max', 'min', 'mismatch', 'search', 'is_sorted'}
TRANSPARENT = {'forward', 'move', 'ref', 'cref', 'bind', 'make_optional', 'as_const', 'make_pair', 'make_tuple', 'bind_front', 'get', 'make_any'}
WAITS = re.compile(r'^std::(condition_variable(_any)?|_V2::condition_variable_any)::wait(_for|_until)?$')


class Escape:
    """where a callable value can end up beyond the expression it is used in"""
    def __init__(self, ast):
        self.a = ast
        self.memo = {}

    def param(self, g, i):
        """reasons why parameter i of g outlives a call of g"""
        key = (g['id'], i)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        if i >= len(g['params']):
            return []
        r = self.variable(self.a.root(g), g['params'][i]['id'], set())
        self.memo[key] = r
        return r

    def variable(self, root, vid, seen):
        out = []
        if vid in seen:
            return out
        seen = seen | {vid}
        for n in self.a.vars.get((root['id'], vid), []):
            out += self.flow(n, seen)
        return out

    def flow(self, n, seen=frozenset()):
        a = self.a
        while True:
            p, role, i = a.up(n)
            if p is None:
                return []
            k = p.get('k')
            if k in ('cp', 'mv', 'cast', 'init', 'un', 'tobool', 'void'):
                if k == 'tobool':
                    return []
                n = p
                continue
            if k == 'conv':
                n = p
                continue
            if k == 'cond':
                if role == 'c':
                    return []
                n = p
                continue
            if k == 'bin':
                if p['op'] == '=' and role == 'b':
                    return self.store(p['a'], p, seen)
                return []
            if k == 'op':
                if p['op'] == '=' and i == 1:
                    return self.store(p['a'][0], p, seen)
                if p['op'] == '()' and i:
                    fid = p.get('f')
                    return self.passed(p, fid, i - 1, seen, 'operator()')
                return []
            if k == 'icall':
                if role == 'c':
                    return []
                return [('passed to a callback', a.at(p))]
            if k == 'ctor':
                t = p.get('t', '')
                if re.match(r'(const )?std::function<', t) or '(lambda' in t or 'lambda' in t:
                    n = p
                    continue
                if re.match(r'std::(thread|jthread)\b', t):
                    return [('run on another thread', a.at(p))]
                g = [x for x in a.targets(p.get('f', ''), False)]
                if g:
                    out = []
                    for x in g:
                        out += self.param(x, i)
                    return out
                n = p
                continue
            if k == 'decl':
                return self.variable(a.root(a.owner[id(p)]), p['id'], seen)
            if k is None and 'init' in p and role == 'init':
                # captured by a lambda
                lam = a.up(p)[0]
                out = []
                if p.get('ic'):
                    out += self.variable(a.root(a.owner[id(lam)]), p['id'], seen)
                # uses inside the lambda body are uses of the same variable
                if id(lam) not in seen:
                    out += self.flow(lam, seen | {id(lam)})
                return out
            if k in ('call', 'mcall'):
                if role in ('o', 'oc'):
                    return []
                if role == 'a':
                    return self.passed(p, p['f'], i, seen)
                return []
            if k == 'new':
                return [('stored in a new object', a.at(p))]
            if k == 'return':
                g = a.owner[id(p)]
                return [('returned', a.at(p))] if not g.get('lam') else []
            if k == 'rfor' and role == 'r':
                v = p['v']
                if isinstance(v, dict) and 'id' in v:
                    return self.variable(a.root(a.owner[id(p)]), v['id'], seen)
                return []
            if k == 'mem' and role == 'o':
                return []
            if k in (None,):
                return [('stored', a.at(p))] if p.get('kind') == 'init' or role == 'e' or 'm' in p or 'f' in p else []
            return []

    def store(self, lhs, p, seen):
        a = self.a
        x = lhs
        while x.get('k') in ('mem', 'idx', 'cast', 'un', 'cp'):
            if x.get('k') == 'mem' and x.get('o', {}).get('k') in ('this', None):
                return [('stored in ' + x['m'].split('::')[-1], a.at(p))]
            x = x.get('o') or x.get('e')
            if x is None:
                return [('stored', a.at(p))]
        if x.get('k') == 'var':
            d = a.decl.get((a.root(a.owner[id(x)])['id'], x['id']))
            if lhs is x and d and d[0].get('rk') == 'v':
                return self.variable(a.root(a.owner[id(x)]), x['id'], seen)
        return [('stored', a.at(p))]

    def passed(self, p, fid, i, seen, name=None):
        a = self.a
        q = a.q(fid) if fid else name or '?'
        if q.startswith('std::'):
            m = q.split('::')[-1]
            if WAITS.match(q) or m in ALGO:
                return []
            if m in TRANSPARENT:
                return self.flow(p, seen)
            if q.endswith('operator()') or m == 'operator()':
                return [('passed to a callback', a.at(p))]
            if m in ('operator==', 'operator!=', 'swap'):
                return []
            return [('passed to ' + q, a.at(p))]
        ts = a.targets(fid, p.get('v')) if fid else []
        if not ts and q.split('::')[-1] in ALGO:
            return []
        if not ts:
            return [('passed to ' + q, a.at(p))]
        out = []
        for g in ts:
            for why, at in self.param(g, i):
                if why == 'returned':
                    out += self.flow(p, seen)
                else:
                    out.append(('passed to %s, where it is %s (%s)' % (g['b'].split('::')[-1] if '::' in g['b'] else g['b'], why.split(', where')[0], at.split('/')[-1]), a.at(p)))
        return out
