"""Which mutexes are held where: lock scopes from guard declarations, and a
whole-program summary of the mutexes each function may take."""
import re
from astq import Ast, Escape, nodes, WAITS

GUARD = re.compile(r"^(?:const )?std::(lock_guard|unique_lock|shared_lock|scoped_lock)<")


def mutex_of(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'cp', 'mv', 'un'):
        e = e['e']
    if isinstance(e, dict) and e.get('k') == 'mem':
        return e['m']
    return None


def bare(t):
    return re.sub(r'\bconst\b|&|\s', '', str(t))


class Locks:
    def __init__(self, P, ast=None):
        self.P = P
        self.a = ast or Ast(P)
        self.E = Escape(self.a)
        self.acts = {}      # func id -> list of (what, data, held, node)
        self.sync = {}
        self.made = None
        for f in self.a.funcs:
            self.scan(f)
        self.fix()

    def possible(self, i):
        """could a std::function of this type hold anything? Not if nothing in
        the program creates one and no lambda takes such parameters"""
        if not i.startswith('std::function<'):
            return True
        if self.made is None:
            self.made = set()
            for f in self.a.funcs:
                if f['id'] in self.a.lamof:
                    self.made.add('(' + ','.join(bare(p.get('t')) for p in f['params']) + ')')
                for n in f['_n']:
                    if n.get('k') == 'ctor' and 'std::function<' in str(n.get('t')):
                        self.made.add(bare(n['t']))
        t = bare(i.split('::operator()')[0])
        return t in self.made or any(len(x) > 2 and x[0] == '(' and x in t for x in self.made)

    # -- per function
    def scan(self, f):
        out = self.acts[f['id']] = []
        if f.get('body') is None:
            return
        self._stmt(f, f['body'], {}, out)
        for i in f.get('inits') or []:
            self._expr(f, i, {}, out)

    def _block(self, f, ss, held, out):
        held = dict(held)
        for s in ss:
            self._stmt(f, s, held, out)

    def _stmt(self, f, s, held, out):
        """held is changed in place: guard variable -> (mutexes, shared)"""
        k = s.get('k')
        if k == 'block':
            self._block(f, s['s'], held, out)
        elif k == 'decls':
            for d in s['s']:
                self._decl(f, d, held, out)
        elif k == 'decl':
            self._decl(f, s, held, out)
        elif k in ('if', 'for', 'while', 'do', 'rfor', 'switch', 'case', 'default'):
            inner = dict(held)
            for key in ('init', 'cv', 'v', 'r', 'c', 's', 'a', 'b', 'inc', 'all'):
                v = s.get(key)
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, dict):
                        self._stmt(f, x, inner if key in ('init', 'cv') else dict(inner), out)
        else:
            self._expr(f, s, held, out)

    def _decl(self, f, d, held, out):
        m = GUARD.match(d.get('t', ''))
        init = d.get('init')
        if m and init:
            c = init
            while isinstance(c, dict) and c.get('k') in ('cp', 'mv', 'cast'):
                c = c['e']
            args = c.get('a', []) if isinstance(c, dict) else []
            ms = [x for x in (mutex_of(a) for a in args) if x]
            if ms:
                deferred = any('defer_lock' in str(n.get('n', '')) or 'defer_lock' in str(n.get('t', '')) for n in nodes(c))
                shared = m.group(1) == 'shared_lock'
                if deferred:
                    held['?' + d['id']] = (ms, shared)
                else:
                    out.append(('lock', [(x, shared) for x in ms], self._held(held), d))
                    held[d['id']] = (ms, shared)
                return
        if isinstance(init, dict):
            self._expr(f, init, held, out)

    def _held(self, held):
        return frozenset((m, sh) for k, (ms, sh) in held.items() if not k.startswith('?') for m in ms)

    def _expr(self, f, e, held, out):
        k = e.get('k')
        if k == 'mem':
            out.append(('field', e['m'], self._held(held), e))
        if k == 'lambda':
            if not self.E.flow(e):
                # only used here: whatever it does happens under these locks
                for g in self.a.bodies(e):
                    out.append(('call', g['id'], self._held(held), e))
            for c in e['caps']:
                if isinstance(c.get('init'), dict):
                    self._expr(f, c['init'], held, out)
            return
        if k in ('call', 'mcall', 'op', 'icall', 'ctor', 'conv'):
            for key in ('o', 'oc', 'c', 'a'):
                v = e.get(key)
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, dict):
                        self._expr(f, x, held, out)
            fid = e.get('f')
            q = self.a.q(fid) if fid else ''
            if q == 'std::lock':
                ms = []
                for a in e['a']:
                    v = a
                    while isinstance(v, dict) and v.get('k') in ('cast', 'cp', 'mv'):
                        v = v['e']
                    if v.get('k') == 'var' and '?' + v['id'] in held:
                        ms.append(v['id'])
                took = [(x, held['?' + i][1]) for i in ms for x in held['?' + i][0]]
                out.append(('lock', took, self._held(held), e))
                for i in ms:
                    held[i] = held.pop('?' + i)
                return
            o = e.get('o')
            if k == 'mcall' and isinstance(o, dict) and o.get('k') == 'var' and (o['id'] in held or '?' + o['id'] in held):
                if q.endswith('::unlock') and o['id'] in held:
                    held['?' + o['id']] = held.pop(o['id'])
                elif q.endswith('::lock') and '?' + o['id'] in held:
                    out.append(('lock', [(x, held['?' + o['id']][1]) for x in held['?' + o['id']][0]], self._held(held), e))
                    held[o['id']] = held.pop('?' + o['id'])
                return
            if k == 'mcall' and mutex_of(o) and re.match(r'std::(recursive_|shared_)?mutex::(lock|lock_shared)$', q):
                sh = q.endswith('lock_shared')
                out.append(('lock', [(mutex_of(o), sh)], self._held(held), e))
                held['m' + mutex_of(o)] = ([mutex_of(o)], sh)
                return
            if k == 'mcall' and mutex_of(o) and re.match(r'std::(recursive_|shared_)?mutex::unlock(_shared)?$', q):
                held.pop('m' + mutex_of(o), None)
                return
            h = self._held(held)
            if WAITS.match(q):
                l = e['a'][0] if e.get('a') else {}
                own = held.get(l.get('id'), ([], False))[0] if isinstance(l, dict) else []
                out.append(('wait', own, h, e))
            elif re.match(r'std::(jthread|thread)::join$', q):
                out.append(('join', mutex_of(o) or (o.get('id') if isinstance(o, dict) else None), h, e))
            elif re.match(r'std::(__basic_future|future|shared_future)(<.*>)?::(get|wait|wait_for|wait_until)$', q):
                out.append(('future', q, h, e))
            elif q.startswith('std::function') and q.endswith('operator()') or k == 'icall':
                if self.possible(fid if k != 'icall' and fid else ''):
                    out.append(('callback', e, h, e))
            elif fid:
                out.append(('call', fid, h, e))
            return
        for key, v in e.items():
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict):
                    if x.get('k') in ('block', 'decls', 'decl'):
                        self._stmt(f, x, dict(held), out)
                    else:
                        self._expr(f, x, held, out)

    # -- summaries
    def callees(self, fid, node):
        return self.a.targets(fid, node.get('v') or node.get('k') != 'mcall')

    def fix(self):
        """takes[f]: mutex -> (shared only?, how: chain of functions)"""
        self.takes = {f['id']: {} for f in self.a.funcs}
        self.does = {f['id']: {} for f in self.a.funcs}   # 'wait'/'join'/'future'/'callback' -> chain
        call = {}
        for f in self.a.funcs:
            t, d = self.takes[f['id']], self.does[f['id']]
            for what, data, held, node in self.acts[f['id']]:
                if what == 'lock':
                    for m, sh in data:
                        if m not in t or t[m][0] and not sh:
                            t[m] = (sh, (f['id'],))
                elif what == 'field':
                    pass
                elif what == 'call':
                    for g in self.callees(data, node):
                        call.setdefault(g['id'], set()).add(f['id'])
                else:
                    d.setdefault((what, data if what == 'join' else None), (f['id'],))
        work = set(self.takes)
        while work:
            g = work.pop()
            for c in call.get(g, ()):
                ch = False
                for m, (sh, how) in self.takes[g].items():
                    o = self.takes[c].get(m)
                    if o is None or o[0] and not sh:
                        self.takes[c][m] = (sh, (c,) + how)
                        ch = True
                for w, how in self.does[g].items():
                    if w not in self.does[c]:
                        self.does[c][w] = (c,) + how
                        ch = True
                if ch:
                    work.add(c)

    def threads(self):
        """field or variable -> bodies run on the thread kept there"""
        out = {}
        for f in self.a.funcs:
            for n in f['_n']:
                if n.get('k') == 'ctor' and re.match(r'std::(thread|jthread)$', n.get('t', '')) and n.get('a'):
                    lams = [x for x in nodes(n['a'][0]) if x.get('k') == 'lambda']
                    g = [b for l in lams for b in self.a.bodies(l)]
                    p, role, i = self.a.up(n)
                    while p is not None and p.get('k') in ('cp', 'mv', 'cast'):
                        p, role, i = self.a.up(p)
                    tgt = None
                    if p is not None and p.get('k') == 'op' and p.get('op') == '=':
                        tgt = mutex_of(p['a'][0])
                    elif p is not None and p.get('k') == 'decl':
                        tgt = p['id']
                    out.setdefault(tgt, []).extend(g)
        return out

    def outer(self, f):
        """the function a closure is part of, up to a closure kept for later"""
        while f['id'] in self.a.lamof:
            lam = self.a.lamof[f['id']]
            if self.E.flow(lam):
                return f
            o = self.a.owner[id(lam)]
            if o is f:
                return f
            f = o
        return f

    def entry(self):
        """mutexes surely held whenever a function starts: what every call
        site holds, for functions nobody outside can call"""
        TOP = None
        calls = {}
        for f in self.a.funcs:
            alone = self.outer(f).get('ctor')      # the object is not shared yet
            for what, data, held, node in self.acts[f['id']]:
                if what == 'call':
                    for g in self.callees(data, node):
                        calls.setdefault(g['id'], [])
                        if not alone:
                            calls[g['id']].append((f['id'], held))
        ent = {}
        for f in self.a.funcs:
            inner = f['id'] in calls and (f.get('acc') in ('private', 'protected') or f.get('lam')) and not f.get('virt')
            if f.get('lam') and f['id'] in self.a.lamof and self.E.flow(self.a.lamof[f['id']]):
                inner = False
            ent[f['id']] = TOP if inner else frozenset()
        ch = True
        while ch:
            ch = False
            for g, sites in calls.items():
                if g not in ent or ent[g] == frozenset():
                    continue
                v = TOP
                for c, held in sites:
                    if ent.get(c) is TOP:
                        continue
                    x = held | ent[c]
                    v = x if v is TOP else v & x
                if v is not TOP and v != ent[g]:
                    ent[g] = v
                    ch = True
        self.alone = {k for k, v in ent.items() if v is TOP}
        return {k: v or frozenset() for k, v in ent.items()}

    def is_write(self, n):
        """the field is (possibly) changed through this expression"""
        a = self.a
        while True:
            p, role, i = a.up(n)
            if p is None:
                return False
            k = p.get('k')
            if k in ('mem', 'idx') and role == 'o' or k == 'un' and p['op'] in ('*', '&'):
                if k == 'un' and p['op'] == '*' or k == 'mem' and p.get('p'):
                    return False
                n = p
                continue
            if k == 'un':
                return '++' in p['op'] or '--' in p['op']
            if k == 'bin':
                return role == 'a' and p['op'].endswith('=') and p['op'] not in ('==', '!=', '<=', '>=')
            if k == 'op':
                if i == 0 and (p['op'] in ('++', '--') or p['op'].endswith('=') and p['op'] not in ('==', '!=', '<=', '>=')):
                    return True
                if i == 0 and p['op'] == '[]':
                    d = self.P.fn.get(p.get('f'))
                    if d and d.get('const'):
                        return False
                    q = a.q(p['f']) if p.get('f') else ''
                    if 'map' in q:
                        return True
                    n = p
                    continue
                return False
            if k == 'mcall' and role == 'o':
                d = self.P.fn.get(p['f'])
                if d and not d.get('const'):
                    if p.get('p'):
                        return False
                    m = d['m']
                    if m in ('find', 'begin', 'end', 'at', 'front', 'back', 'size', 'empty', 'count', 'operator->', 'operator*', 'get', 'rbegin', 'rend'):
                        return False
                    return True
                return False
            if k == 'mv':
                return True
            if k in ('cp', 'cast'):
                n = p
                continue
            return False
