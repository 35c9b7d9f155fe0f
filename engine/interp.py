"""Inter-procedural, path-sensitive abstract interpretation over the resolved
syntax tree dumped by factgen.  Values are access paths / uninterpreted
results, guards are canonical facts, loops are summarised over a generic
element.  There is no solver: a branch is pruned only by a fact already
recorded on that path."""
import json
import os
import sys
from terms import *

sys.setrecursionlimit(20000)


# C interfaces that take a handle; what it stands for changes, the handle does not
HANDLE0 = re.compile(r"luaL?_|curl_(easy|multi)_|MHD_")
HANDLE1 = re.compile(r"curl_multi_(add|remove)_handle")


class Unsupported(Exception):
    pass


class TooComplex(Exception):
    pass


# ------------------------------------------------------------------ program
class Program:
    def __init__(self):
        self.fn = {}
        self.funcs = {}
        self.recs = {}
        self.enums = {}
        self.gvars = {}
        self.alias = {}
        self.tus = []
        self.byq = {}
        self.bad = []

    def load_text(self, text):
        for l in text.split('\n'):
            if not l:
                continue
            o = json.loads(l)
            k = o['kind']
            if k == 'fn':
                o['b'] = strip_t(o['q'])
                if 'cls' in o:
                    o['cb'] = strip_t(o['cls'])
                o['m'] = o['b'].split('::')[-1] if 'operator' not in o['b'] else 'operator' + o['b'].split('operator')[-1]
                self.fn.setdefault(o['id'], o)
            elif k == 'func':
                if o['id'] not in self.funcs:
                    self.funcs[o['id']] = o
                    o['b'] = strip_t(o['q'])
                    self.byq.setdefault(o['b'], []).append(o)
            elif k == 'rec':
                self.recs.setdefault(o['t'], o)
            elif k == 'enum':
                self.enums.setdefault(o['q'], o)
            elif k == 'gvar':
                self.gvars.setdefault(o['q'], o)
            elif k == 'alias':
                self.alias.setdefault(o['q'], o['t'])
            elif k == 'tu':
                self.tus.append(o['file'])
                if not o['ok']:
                    self.bad.append(o['file'])

    def find(self, q, params=None):
        r = self.byq.get(q, [])
        if params is not None:
            r = [f for f in r if params(f)]
        return r

    def enumval(self, q):
        e, c = q.rsplit('::', 1)
        for n, v in self.enums[e]['c']:
            if n == c:
                return ('enum', q, int(v))
        raise KeyError(q)


# ------------------------------------------------------------------- state
class State:
    __slots__ = ('env', 'mem', 'bools', 'bounds', 'trace', 'locks', 'ctr', '_o', 'gone')

    def __init__(self):
        self.gone = {}
        self.env = {}
        self.mem = {}
        self.bools = {}
        self.bounds = {}
        self.trace = None
        self.locks = ()
        self.ctr = {}
        self._o = 31

    def copy(self):
        n = State.__new__(State)
        n.env = self.env
        n.mem = self.mem
        n.bools = self.bools
        n.bounds = self.bounds
        n.trace = self.trace
        n.locks = self.locks
        n.ctr = self.ctr
        n.gone = self.gone
        n._o = 0
        self._o = 0
        return n

    def wenv(self):
        if not self._o & 1:
            self.env = dict(self.env)
            self._o |= 1
        return self.env

    def wmem(self):
        if not self._o & 2:
            self.mem = dict(self.mem)
            self._o |= 2
        return self.mem

    def wbools(self):
        if not self._o & 4:
            self.bools = dict(self.bools)
            self._o |= 4
        return self.bools

    def wbounds(self):
        if not self._o & 8:
            self.bounds = dict(self.bounds)
            self._o |= 8
        return self.bounds

    def wctr(self):
        if not self._o & 16:
            self.ctr = dict(self.ctr)
            self._o |= 16
        return self.ctr

    def count(self, k):
        c = self.wctr()
        n = c.get(k, 0)
        c[k] = n + 1
        return n

    def emit(self, item):
        self.trace = (self.trace, item)

    def items(self):
        r = []
        t = self.trace
        while t is not None:
            r.append(t[1])
            t = t[0]
        r.reverse()
        return r

    # -- memory
    def base(self, p):
        v = self.mem.get(p)
        if v is not None:
            return v
        pr = parent(p)
        if pr is None:
            return p
        pv = self.base(pr)
        if pv == pr:
            return p
        return proj(self, pv, p)

    def load(self, p):
        v = self.base(p)
        subs = None
        for q in self.mem:
            if under(q, p):
                # nearest overriding entry below p
                if subs is None:
                    subs = []
                subs.append(q)
        if not subs:
            return v
        ent = []
        for q in subs:
            steps = []
            x = q
            while x != p:
                steps.append((x[0],) + tuple(x[2:]))
                x = x[1]
            ent.append((tuple(reversed(steps)), self.mem[q]))
        if v[0] == 'obj':
            d = dict(v[2])
            rest = []
            for s, val in ent:
                if len(s) == 1 and s[0][0] == 'fld':
                    d[s[0][1]] = val
                else:
                    rest.append((s, val))
            names = [n for n, _ in v[2]] + sorted(n for n in d if n not in dict(v[2]))
            v = ('obj', v[1], tuple((n, d[n]) for n in names))
            ent = rest
            if not ent:
                return v
        if v[0] == 'with':
            d = dict(v[2])
            d.update(ent)
            return ('with', v[1], tuple(sorted(d.items(), key=repr)))
        return ('with', v, tuple(sorted(ent, key=repr)))

    def store(self, p, v):
        m = self.wmem()
        for q in [q for q in m if under(q, p)]:
            del m[q]
        if v == p:
            m.pop(p, None)
            # the parent may carry a value: make it explicit then
            if self.base(p) != p:
                m[p] = v
        else:
            m[p] = v
        if isinstance(v, tuple) and v and v[0] == 'lock':
            self.locks = tuple((mu, md, p if h == v[3] else h) for mu, md, h in self.locks)

    # -- facts
    def rng(self, P):
        r = self.bounds.get(P)
        if r is not None:
            return r
        if len(P) == 1 and P[0][1] == 1 and nonneg(P[0][0]):
            return (0, None, frozenset())
        return (None, None, frozenset())

    def known(self, b):
        o = b[0]
        if o == 'b':
            return b[1]
        if o == 'not':
            r = self.known(b[1])
            return None if r is None else not r
        if o == 'has':
            v = b[1]
            if v[0] in ('some', 'obj', 'heap', 'lam', 'new', 'list', 's'):
                return True
            if v in (NONE, NULL):
                return False
            if v[0] == 'with':
                return self.known(('has', v[1]))
            return self.bools.get(b)
        if o == 'in':
            C = b[1]
            if C[0] == 'list':
                if not C[2]:
                    return False
                if b[2] in C[2]:
                    return True
            return self.bools.get(b)
        if o in ('le', 'eq'):
            lo, hi, ne = self.rng(b[1])
            c = b[2]
            if o == 'le':
                if hi is not None and hi <= c:
                    return True
                if lo is not None and lo > c:
                    return False
                return None
            if lo is not None and lo == hi and lo == c:
                return True
            if (lo is not None and c < lo) or (hi is not None and c > hi) or c in ne:
                return False
            return None
        if o == 'i':
            return b[1] != 0
        if o in ('some', 'lam', 'heap', 'obj'):
            return True
        if o in ('none', 'null'):
            return False
        if o == 'is':
            if b[1][0] == 'var':
                return b[1][1] == b[2]
            r = self.bools.get(b)
            if r is None:
                for k, v in self.bools.items():
                    if v and k[0] == 'is' and k[1] == b[1] and k[2] != b[2]:
                        return False
            return r
        return self.bools.get(b)

    def assume(self, b, pol):
        """record b == pol; False when it contradicts"""
        if b[0] == 'not':
            return self.assume(b[1], not pol)
        k = self.known(b)
        if k is not None:
            return k == pol
        if b[0] in ('le', 'eq'):
            P, c = b[1], b[2]
            lo, hi, ne = self.rng(P)
            if b[0] == 'le':
                if pol:
                    hi = c
                else:
                    lo = c + 1
            elif pol:
                lo = hi = c
            else:
                ne = ne | {c}
            # tighten past excluded points
            while lo is not None and lo in ne:
                lo += 1
            while hi is not None and hi in ne:
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return False
            self.wbounds()[P] = (lo, hi, frozenset(x for x in ne if (lo is None or x > lo) and (hi is None or x < hi)))
            return True
        self.wbools()[b] = pol
        if b[0] == 'in' and pol:
            self.assume(compare('>=', ('size', b[1]), ('i', 1)), True)
        return True


NONNEG = set()


def nonneg(t):
    return t[0] in ('size', 'ix', 'cnt', 'rix') or t in NONNEG


def proj(st, v, p):
    o = p[0]
    vo = v[0]
    if vo == 'some':
        return proj(st, v[1], p)
    if vo == 'with':
        step = (o,) + tuple(p[2:])
        sub = []
        for s, val in v[2]:
            if s == (step,):
                return val
            if s[0] == step:
                sub.append((s[1:], val))
        b = proj(st, v[1], p)
        if sub:
            return ('with', b, tuple(sorted(sub, key=repr)))
        return b
    if o == 'fld':
        if vo == 'obj':
            for n, x in v[2]:
                if n == p[2]:
                    return x
            if p[2] in ('first', 'second') or p[2].startswith('#'):
                i = {'first': 0, 'second': 1}.get(p[2])
                if i is None:
                    i = int(p[2][1:])
                if i < len(v[2]):
                    return v[2][i][1]
        return fldterm(v, p[2])
    if o == 'at':
        if vo == 'list' and p[2][0] == 'i' and 0 <= p[2][1] < len(v[2]):
            return v[2][p[2][1]]
        if vo == 'ver':
            return ('at', v[1], p[2])
        return ('at', v, p[2])
    if o == 'elem':
        if vo == 'ver':
            return ('elem', v[1], p[2])
        return ('elem', v, p[2])
    if o == 'as':
        if vo == 'var' and v[1] == p[2]:
            return v[2]
        return ('as', v, p[2])
    return (o, v) + tuple(p[2:])


def fldterm(b, n):
    if b[0] == 'ent':
        if n == 'first':
            return b[2]
        if n == 'second':
            return ('at', b[1], b[2])
    if b[0] == 'elem':
        if n == 'first':
            return ('key', b[1], b[2])
        if n == 'second':
            return ('at', b[1], ('key', b[1], b[2]))
    return ('fld', b, n)


# ------------------------------------------------------------------- events
class Ev:
    __slots__ = ('kind', 'q', 'obj', 'args', 'ret', 'line', 'file', 'st', 'fn', 'fid', 'pre')

    def __init__(self, kind, q, obj, args, ret, line, file, st, fn, fid=None):
        self.kind = kind
        self.q = q
        self.obj = obj
        self.args = args
        self.ret = ret
        self.line = line
        self.file = file
        self.st = st
        self.fn = fn
        self.fid = fid
        self.pre = None

    def __repr__(self):
        o = pp(self.obj) if self.obj is not None else ''
        a = ', '.join(pp(x) for x in self.args)
        if self.kind == 'set':
            return '%s:%d SET %s := %s' % (os.path.basename(self.file), self.line, o, a)
        if self.kind == 'mut':
            return '%s:%d MUT %s.%s(%s)' % (os.path.basename(self.file), self.line, o, self.q, a)
        return '%s:%d %s %s%s(%s)' % (os.path.basename(self.file), self.line, self.kind.upper(), (o + '->') if o else '', short(self.q), a)

    @property
    def where(self):
        return '%s:%d' % (self.file, self.line)


class Loop:
    __slots__ = ('dom', 'L', 'edges', 'mode', 'must', 'line', 'file', 'st', 'kind', 'v')

    def __init__(self, dom, L, edges, mode, must, line, file, st, v=None):
        self.kind = 'loop'
        self.dom = dom
        self.L = L
        self.edges = edges
        self.mode = mode
        self.must = must
        self.line = line
        self.file = file
        self.st = st
        self.v = v

    def __repr__(self):
        return '%s:%d LOOP %s %s' % (os.path.basename(self.file), self.line, self.mode, ppdom(self.dom))


def ppdom(d):
    return d[0] + ' ' + ' '.join(pp(x) for x in d[1:] if isinstance(x, tuple))


class Edge:
    __slots__ = ('items', 'st', 'src', 'dst')

    def __init__(self, items, st, src, dst):
        self.items = items
        self.st = st
        self.src = src
        self.dst = dst


class Out:
    __slots__ = ('n', 'b', 'c', 'r', 'h')

    def __init__(self):
        self.n = []
        self.b = []
        self.c = []
        self.r = []
        self.h = []

    def absorb(self, o):
        self.b += o.b
        self.c += o.c
        self.r += o.r
        self.h += o.h


class Frame:
    __slots__ = ('this', 'fid', 'file', 'name', 'stack', 'ret_ref', 'cls')

    def __init__(self, this, fid, file, name, stack, ret_ref, cls):
        self.this = this
        self.fid = fid
        self.file = file
        self.name = name
        self.stack = stack
        self.ret_ref = ret_ref
        self.cls = cls


MERGE_LIMIT = 160


def merge(states):
    """drop duplicates; only when there are too many states also join states
    that differ in nothing but recorded facts"""
    if len(states) < 2:
        return states
    soft = len(states) <= MERGE_LIMIT
    groups = {}
    order = []
    for s in states:
        k = (id(s.trace), s.locks)
        if k not in groups:
            groups[k] = []
            order.append(k)
        for t in groups[k]:
            if (t.mem is s.mem or t.mem == s.mem) and (t.env is s.env or t.env == s.env):
                if t.gone is not s.gone and t.gone != s.gone:
                    t.gone = {q: w if s.gone.get(q) == w else None for q, w in t.gone.items()}
                if soft and not ((t.bools is s.bools or t.bools == s.bools) and (t.bounds is s.bounds or t.bounds == s.bounds)):
                    continue
                if t.bools is not s.bools:
                    t.bools = {a: v for a, v in t.bools.items() if s.bools.get(a) == v}
                    t._o |= 4
                if t.bounds is not s.bounds:
                    nb = {}
                    for P, (lo, hi, ne) in t.bounds.items():
                        lo2, hi2, ne2 = s.rng(P)
                        l = None if lo is None or lo2 is None else min(lo, lo2)
                        h = None if hi is None or hi2 is None else max(hi, hi2)
                        n = frozenset(x for x in ne | ne2 if (x in ne or s.known(('eq', P, x)) is False) and (x in ne2 or t.known(('eq', P, x)) is False))
                        # keep disequalities implied by disjoint ranges
                        if l is not None or h is not None or n:
                            nb[P] = (l, h, n)
                    t.bounds = nb
                    t._o |= 8
                if t.ctr is not s.ctr:
                    c = dict(t.ctr)
                    for a, v in s.ctr.items():
                        c[a] = max(v, c.get(a, 0))
                    t.ctr = c
                    t._o |= 16
                break
        else:
            groups[k].append(s)
    return [s for k in order for s in groups[k]]


SEQ = {'std::vector', 'std::deque', 'std::list', 'std::array', 'std::basic_string', 'std::queue', 'std::stack', 'std::basic_string_view', 'std::span', 'std::priority_queue', 'std::initializer_list'}
MAP = {'std::map', 'std::unordered_map', 'std::multimap', 'std::unordered_multimap'}
SET = {'std::set', 'std::unordered_set', 'std::multiset', 'std::unordered_multiset'}
PTR = {'std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr', 'std::reference_wrapper', 'std::__weak_ptr'}
LOCKS = {'std::lock_guard', 'std::unique_lock', 'std::shared_lock', 'std::scoped_lock'}
ATOM = {'std::atomic', 'std::__atomic_base', 'std::__atomic_float'}
INTW = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
        'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, '__int128': 128, 'unsigned __int128': 128}

IMPURE = {'close', 'shutdown', 'exit', 'abort', 'fork', 'select', 'listen', 'accept', 'bind', 'connect'}


class Interp:
    def __init__(self, prog, inline=None, opaque=None, known=None, eventful=None, pathcap=6000, noise=None, pure=None, asserts=True):
        self.asserts = asserts
        self.wrap = False
        self.P = prog
        self.inline_re = [re.compile(x) for x in (inline or [])]
        # a pattern starts at the start of a name
        self.opaque_re = [re.compile((r'(?<![A-Za-z0-9_])(?:%s)' if re.match(r'\w', x) else '%s') % x) for x in (opaque or [])]
        self.event_re = [re.compile(x) for x in (eventful or [])]
        self.pure_re = [re.compile(x) for x in (pure or [])]
        self.known_fns = known or set()
        self.owned = set()
        self.pathcap = pathcap
        self.funcs_seen = set()
        self.calls_seen = 0
        self.sites_seen = 0
        self.entry_cls = None
        self.entry_file = None
        self.streams = set()
        self.loopn = {}
        self.noise = [re.compile(x) for x in (noise or [])] + [re.compile(r'^cbdc::logging::(log::|null_stream::)')]
        self.declared = {}
        self.widths = {}
        self.acc = None
        self._bases = {}

    # ---------------------------------------------------------- policy
    def want_inline(self, fr, d):
        fid = d['id']
        f = self.P.funcs.get(fid)
        if f is None or fid in fr.stack or len(fr.stack) > 14:
            return False
        b = d['b']
        # only functions the rules know have rules of their own: helpers that
        # are new are looked into, whatever they are called
        if not self.known_fns or b in self.known_fns:
            for r in self.opaque_re:
                if r.search(b):
                    return False
        if d.get('lam'):
            return True
        for r in self.inline_re:
            if r.search(b):
                return True
        if b not in self.known_fns:
            return True
        cb = d.get('cb')
        if cb and (cb == fr.cls or cb == self.entry_cls or cb in self.bases(self.entry_cls)):
            return True
        return False

    def bases(self, c):
        if c is None:
            return ()
        r = self._bases.get(c)
        if r is None:
            r = set()
            self._bases[c] = r
            for t, rec in self.P.recs.items():
                if strip_t(rec['q']) == c:
                    for b in rec['bases']:
                        b = strip_t(b)
                        r.add(b)
                        r |= set(self.bases(b))
        return r

    def is_noise(self, d):
        b = d['b']
        return any(r.search(b) for r in self.noise)

    # ---------------------------------------------------------- entry
    def run(self, f, this=THIS, args=None, st=None):
        """explore function f; returns list of Path"""
        self.entry_cls = strip_t(f['cls']) if 'cls' in f else None
        if self.entry_cls and f.get('lam'):
            self.entry_cls = None
        self.entry_file = f['file']
        st = st or State()
        fr = Frame(this, f['id'], f['file'], f['b'], (f['id'],), f['ret'].endswith('&'), self.entry_cls)
        env = st.wenv()
        for i, p in enumerate(f['params']):
            env[p['id']] = args[i] if args and i < len(args) and args[i] is not None else ('arg', i, 0)
        return self._paths(fr, f, st)

    def _paths(self, fr, f, st):
        self.funcs_seen.add(f['id'])
        states = [st]
        if f.get('ctor'):
            states = self.inits(fr, f, states)
        out = self.ex(fr, f['body'], states)
        paths = []
        for s in out.n:
            paths.append(Path(s, VOID, 'ret', f))
        for s, v, ln in out.r:
            paths.append(Path(s, v, 'ret', f, ln))
        for s in out.h:
            paths.append(Path(s, VOID, 'halt', f))
        return paths

    def inits(self, fr, f, states):
        """constructor initialisers"""
        for i in f.get('inits', []):
            nxt = []
            for s in states:
                if i['e'] is None:
                    nxt.append(s)
                    continue
                for s2, v in self.rv(fr, i['e'], s):
                    if 'm' in i:
                        s2.store(fldterm(fr.this, i['m']), v)
                    elif v and v[0] == 'obj':
                        for n, x in v[2]:
                            s2.store(fldterm(fr.this, n), x)
                    nxt.append(s2)
            states = nxt
        return states

    def run_closure(self, lam, args=None, st=None, later=True, depth=1):
        """explore the body of a closure value with symbolic arguments"""
        fid = lam[1]
        f = self.P.funcs.get(fid)
        if f is None:
            raise Unsupported('closure body ' + fid)
        base = st.copy() if st is not None else State()
        if later:
            s = State()
            s.bools = dict(base.bools)
            s.bounds = dict(base.bounds)
            s.mem = {k: v for k, v in base.mem.items() if root(k)[0] in ('loc', 'heap')}
            s.env = dict(base.env)
            s.ctr = dict(base.ctr)
            base = s
        base.trace = None
        base.locks = ()
        this = None
        env = base.wenv()
        for c in lam[2]:
            if c[0] == 'this':
                this = c[1]
                if later:
                    this = ('this', depth)
            elif c[1] == 'ref':
                env[c[0]] = c[2]
            else:
                p = ('loc', c[3], c[0])
                env[c[0]] = p
                base.store(p, c[2])
        fr = Frame(this, fid, f['file'], f['b'], (fid,), f['ret'].endswith('&'), self.entry_cls)
        env = base.wenv()
        for i, p in enumerate(f['params']):
            env[p['id']] = args[i] if args and i < len(args) and args[i] is not None else ('arg', i, depth)
        return self._paths(fr, f, base)

    # ---------------------------------------------------------- statements
    def ex(self, fr, s, states):
        out = Out()
        if s is None:
            out.n = states
            return out
        k = s['k']
        if k == 'block':
            return self.ex_block(fr, s['s'], states)
        if len(states) > self.pathcap:
            raise TooComplex('%s: %d paths' % (fr.name, len(states)))
        m = getattr(self, 'x_' + k.replace('?', 'unk'), None)
        if m is None:
            raise Unsupported('statement ' + k)
        for st in states:
            m(fr, s, st, out)
        out.n = merge(out.n)
        return out

    def ex_block(self, fr, stmts, states):
        out = Out()
        cur = states
        decls = []
        for s in stmts:
            if s is None:
                continue
            if s['k'] == 'decls':
                decls += [d['id'] for d in s['s']]
            if not cur:
                break
            o = self.ex(fr, s, cur)
            out.absorb(o)
            cur = o.n
        out.n = cur
        if decls:
            ds = set(decls)
            for l in (out.n, out.b, out.c, out.h):
                for st in l:
                    self.unscope(st, ds)
            for st, _, _ in out.r:
                self.unscope(st, ds)
        return out

    def unscope(self, st, ids):
        if st.locks:
            keep = []
            for l in st.locks:
                h = l[2]
                if h[0] == 'loc' and h[2] in ids:
                    st.emit(Ev('unlock', l[1], l[0], (), None, 0, '', None, ''))
                else:
                    keep.append(l)
            st.locks = tuple(keep)

    def x_null(self, fr, s, st, out):
        out.n.append(st)

    def x_unk(self, fr, s, st, out):
        out.n.append(st)

    def x_expr(self, fr, s, st, out):
        e = s['e']
        d = e
        while isinstance(d, dict) and d.get('k') not in ('call', 'mcall') and isinstance(d.get('e'), dict):
            d = d['e']
        d['unused'] = True
        for s2, v in self.rv(fr, e, st, discard=True):
            if v == ('noret',):
                out.h.append(s2)
            else:
                out.n.append(s2)

    def x_decls(self, fr, s, st, out):
        states = [st]
        for d in s['s']:
            nxt = []
            for x in states:
                for y in self.decl(fr, d, x):
                    nxt.append(y)
            states = nxt
        out.n += states

    def decl(self, fr, d, st):
        vid = d['id']
        if d.get('static'):
            if 'init' in d:
                st = st.copy()
                res = []
                for s2, v in self.rv(fr, d['init'], st):
                    s2.wenv()[vid] = ('glob', 'static ' + d['n'])
                    res.append(s2)
                return res
            st.wenv()[vid] = ('glob', 'static ' + d['n'])
            return [st]
        path = ('loc', d['n'] or 'tmp', vid)
        res = []
        if d['rk'] in ('l', 'cl', 'r') and 'init' in d:
            mark = len(self.acc) if self.acc is not None else 0
            bound = self.lv(fr, d['init'], st)
            if self.acc is not None and memchain(d['init']):
                del self.acc[mark:]     # naming a member is no access to it
            for s2, p in bound:
                if p == ('noret',):
                    continue
                if is_path(p):
                    s2.wenv()[vid] = p
                else:
                    s2.store(path, p)
                    s2.wenv()[vid] = path
                self.bindings(fr, d, s2)
                res.append(s2)
            return res
        if 'init' in d:
            self.owned.add(path)    # a copy, whatever it was copied from
            for s2, v in self.rv(fr, d['init'], st, want=path):
                if v == ('noret',):
                    continue
                s2.wenv()[vid] = path
                if v != ('inplace',):
                    s2.store(path, v)
                self.bindings(fr, d, s2)
                res.append(s2)
            return res
        st.wenv()[vid] = path
        m = st.wmem()
        for q in [q for q in m if q == path or under(q, path)]:
            del m[q]
        if d['t'] in INTW or d['t'].endswith('*'):
            m[path] = ('uninit', path)
        return [st]

    def bindings(self, fr, d, st):
        if 'b' not in d:
            return
        base = st.env[d['id']]
        for b in d['b']:
            n = b.get('field')
            if n is None:
                n = {0: 'first', 1: 'second'}.get(b['i'], '#%d' % b['i'])
            st.wenv()[b['id']] = self.child(st, base, n)

    def child(self, st, base, n):
        """path of field n below path/value base (pair of a map entry folded)"""
        if base[0] == 'loc' and base not in self.owned:
            v = st.base(base)
            if v[0] in ('ent', 'elem') and not any(under(q, base) for q in st.mem):
                return fldterm(v, n)
            return ('fld', base, n)
        if base[0] in ('obj', 'with'):
            return proj(st, base, ('fld', base, n))
        return fldterm(base, n)

    def x_if(self, fr, s, st, out):
        states = [st]
        ids = set()
        if s.get('init'):
            o = self.ex(fr, s['init'], states)
            out.absorb(o)
            states = o.n
            if s['init']['k'] == 'decls':
                ids |= {d['id'] for d in s['init']['s']}
        if s.get('cv'):
            states = [y for x in states for y in self.decl(fr, s['cv'], x)]
            ids.add(s['cv']['id'])
        res = []
        before = st.trace
        T, F = [], []
        for x in states:
            for y, b in self.cond(fr, s['c'], x):
                (T if b else F).append(y)
        sub = Out()
        if T:
            o = self.ex(fr, s['a'], T)
            sub.absorb(o)
            res += o.n
        if F:
            if s.get('b'):
                o = self.ex(fr, s['b'], F)
                sub.absorb(o)
                res += o.n
            else:
                res += F
        if ids:
            for l in (res, sub.b, sub.c, sub.h):
                for y in l:
                    self.unscope(y, ids)
            for y, _, _ in sub.r:
                self.unscope(y, ids)
        out.absorb(sub)
        out.n += merge(res)

    def x_return(self, fr, s, st, out):
        if 'e' not in s or s['e'] is None:
            out.r.append((st, VOID, s['l']))
            return
        ev = self.lv if fr.ret_ref else self.rv
        for s2, v in ev(fr, s['e'], st):
            if v == ('noret',):
                out.h.append(s2)
            else:
                out.r.append((s2, v, s['l']))

    def x_break(self, fr, s, st, out):
        out.b.append(st)

    def x_continue(self, fr, s, st, out):
        out.c.append(st)

    def x_switch(self, fr, s, st, out):
        states = [st]
        if s.get('init'):
            o = self.ex(fr, s['init'], states)
            states = o.n
        if s.get('cv'):
            states = [y for x in states for y in self.decl(fr, s['cv'], x)]
        body = s['s']
        stmts = body['s'] if body['k'] == 'block' else [body]
        # flatten labels
        flat = []
        labels = []  # (index, value expr or None)

        def add(x):
            while x is not None and x['k'] in ('case', 'default'):
                labels.append((len(flat), x.get('v') if x['k'] == 'case' else None))
                x = x['s']
            flat.append(x)
        for x in stmts:
            add(x)
        for x in states:
            for y, v in self.rv(fr, s['c'], x):
                rest = y
                dflt = None
                for idx, ve in labels:
                    if ve is None:
                        dflt = idx
                        continue
                    if rest is None:
                        break
                    cv = self.rv(fr, ve, rest)[0][1]
                    b = compare('==', v, cv)
                    t = rest.copy()
                    rest2 = rest.copy()
                    if t.assume(b, True):
                        o = self.ex_block(fr, flat[idx:], [t])
                        out.n += o.n + o.b
                        out.c += o.c
                        out.r += o.r
                        out.h += o.h
                    rest = rest2 if rest2.assume(b, False) else None
                if rest is not None:
                    if s.get('all') and dflt is None:
                        continue
                    if dflt is not None:
                        o = self.ex_block(fr, flat[dflt:], [rest])
                        out.n += o.n + o.b
                        out.c += o.c
                        out.r += o.r
                        out.h += o.h
                    else:
                        out.n.append(rest)

    # ---------------------------------------------------------- loops
    def newloop(self, fr, node):
        k = (id(node), len(fr.stack))
        if k not in self.loopn:
            self.loopn[k] = 'L%d' % (len(self.loopn) + 1)
        return self.loopn[k]

    def purge(self, st, L):
        def has(t):
            return mentions(t, lambda x: x[0] in ('elem', 'key', 'ix', 'rix', 'it', 'lv') and x[-1] == L)
        b = [k for k in st.bools if has(k)]
        for k in b:
            del st.wbools()[k]
        b = [k for k in st.bounds if has(k)]
        for k in b:
            del st.wbounds()[k]
        b = [k for k in st.mem if has(k)]
        for k in b:
            del st.wmem()[k]

    def x_rfor(self, fr, s, st, out):
        states = [st]
        if s.get('init'):
            states = self.ex(fr, s['init'], states).n
        for x in states:
            for y, p in self.lv(fr, s['r'], x):
                L = self.newloop(fr, s)
                if not (s['v']['rk'] == 'l' and s['r']['k'] == 'var'):
                    p = self.contpath(y, p)
                dom = ('each', p, y.load(p))
                el = ('elem', p, L)
                d = s['v']

                def body(z, d=d, el=el):
                    if d['rk'] in ('l', 'cl', 'r'):
                        z.wenv()[d['id']] = el
                    else:
                        path = ('loc', d['n'], d['id'])
                        z.wenv()[d['id']] = path
                        z.store(path, z.load(el))
                    self.bindings(fr, d, z)
                    return self.ex(fr, s['s'], [z])
                self.loop(fr, y, dom, L, body, s, out)

    def contpath(self, st, p):
        """container path to iterate: a by-value local that is a plain copy of
        another container stands for that container"""
        if p[0] == 'loc':
            v = st.base(p)
            if is_path(v) and v != p and not any(under(q, p) for q in st.mem):
                return v
        return p

    def x_for(self, fr, s, st, out):
        states = [st]
        ids = set()
        if s.get('init'):
            o = self.ex(fr, s['init'], states)
            states = o.n
            if s['init']['k'] == 'decls':
                ids = {d['id'] for d in s['init']['s']}
        c, body = self.split_iter(s.get('c'), self.incvar(s.get('inc')), s['s'])
        for x in states:
            self.for_general(fr, s, x, out, c, s.get('inc'), body, False)

    def split_iter(self, c, v, body):
        """for(it = C.begin(); it != C.end() && more; ++it) body
        is for(it = C.begin(); it != C.end(); ++it) { if(!more) break; body }"""
        if c is None or v is None:
            return c, body
        cs, st = [], [c]
        while st:
            e = st.pop()
            if e['k'] == 'bin' and e['op'] == '&&':
                st += [e['b'], e['a']]
            elif e['k'] in ('paren', 'cast') and isinstance(e.get('e'), dict) and e['e'].get('k') == 'bin' and e['e']['op'] == '&&':
                st.append(e['e'])
            else:
                cs.append(e)
        own = [e for e in cs if e['k'] == 'op' and e['op'] == '!=' and self.loopvar(e, v) == v]
        if len(own) != 1 or len(cs) < 2:
            return c, body
        l = c.get('l', body.get('l', 0))
        pre = []
        for e in cs:
            if e is not own[0]:
                pre.append({'k': 'if', 'l': l, 'c': {'k': 'un', 'op': '!', 'e': e, 't': 'bool', 'l': l}, 'a': {'k': 'break', 'l': l}, 'b': None})
        return own[0], {'k': 'block', 'l': l, 's': pre + (body['s'] if body['k'] == 'block' else [body])}

    def x_while(self, fr, s, st, out):
        c, inc, body = s['c'], None, s['s']
        if not s.get('cv'):
            c = self.unfold(c)
            # index / iterator loop written as while
            if body['k'] == 'block' and body['s'] and body['s'][-1] and body['s'][-1]['k'] == 'expr':
                c, body = self.split_iter(c, self.incvar(body['s'][-1]['e']), body)
            last = body['s'][-1] if body['k'] == 'block' and body['s'] else None
            v = self.loopvar(c, self.incvar(last['e']) if last and last['k'] == 'expr' else None)
            if v is not None and body['k'] == 'block' and body['s']:
                if last and last['k'] == 'expr' and self.incvar(last['e']) == v and not has_kind(body, 'continue', stop=('for', 'while', 'do', 'rfor')) \
                        and not assigns(body['s'][:-1], v):
                    self.for_general(fr, s, st, out, c, last['e'], {'k': 'block', 's': body['s'][:-1]}, False)
                    return
        self.for_general(fr, s, st, out, c, None, body, False, s.get('cv'))

    def x_do(self, fr, s, st, out):
        # body once, then while
        o = self.ex(fr, s['s'], [st])
        out.b += []
        out.r += o.r
        out.h += o.h
        out.n += o.b
        for x in merge(o.n + o.c):
            self.for_general(fr, s, x, out, s['c'], None, s['s'], True)

    def unfold(self, c):
        """a loop condition written as a call of a small function of its own:
        the expression that function returns"""
        if c is None or c['k'] not in ('call',) or not isinstance(c.get('f'), str):
            return c
        f = self.P.funcs.get(c['f'])
        b = f.get('body') if f else None
        if not b or f.get('b', f['q']) in self.known_fns or len(b.get('s') or []) != 1 or not b['s'][0] or b['s'][0]['k'] != 'return' or len(c['a']) != len(f['params']):
            return c
        sub = {q['id']: a for q, a in zip(f['params'], c['a'])}

        def simple(a):
            return a['k'] in ('var', 'int', 'enum', 'this') or a['k'] in ('cast', 'mem') and simple(a['e'] if a['k'] == 'cast' else a['o']) \
                or a['k'] == 'op' and a.get('op') in ('->', '*') and len(a['a']) == 1 and simple(a['a'][0]) \
                or a['k'] == 'mcall' and not a['a'] and str(a.get('f', '')).split('@')[0].split('(')[0].split('::')[-1] in ('size', 'end', 'begin', 'empty') and simple(a['o'])
        if not all(simple(a) for a in c['a']):
            return c

        def go(n):
            if isinstance(n, dict):
                if n.get('k') == 'var' and n.get('id') in sub:
                    return sub[n['id']]
                return {k: go(v) for k, v in n.items()}
            if isinstance(n, list):
                return [go(v) for v in n]
            return n
        return go(b['s'][0]['e'])

    def loopvar(self, c, pref=None):
        """the variable a loop condition tests; pref: the one that is advanced"""
        if c is None:
            return None
        if c['k'] == 'bin' and c['op'] in ('<', '!=', '<=', '>', '>='):
            found = []
            for side in ('a', 'b'):
                e = c[side]
                while e['k'] == 'cast':
                    e = e['e']
                if e['k'] == 'var':
                    found.append(e['id'])
            if pref in found:
                return pref
            if found:
                return found[0]
        if c['k'] == 'op' and c['op'] in ('!=', '<', '=='):
            found = [e['id'] for e in c['a'] if e['k'] == 'var']
            if pref in found:
                return pref
            if found:
                return found[0]
        if c['k'] == 'un' and c['op'] == '!':
            return self.loopvar(c['e'], pref)
        return None

    def incvar(self, e):
        if e is None:
            return None
        if e['k'] == 'un' and e['op'] in ('++', 'post++') and e['e']['k'] == 'var':
            return e['e']['id']
        if e['k'] == 'op' and e['op'] in ('++', 'post++') and e['a'][0]['k'] == 'var':
            return e['a'][0]['id']
        if e['k'] == 'bin' and e['op'] == '+=' and e['a']['k'] == 'var' and self.const1(e['b']):
            return e['a']['id']
        if e['k'] == 'bin' and e['op'] == '=' and e['a']['k'] == 'var' and e['b']['k'] == 'bin' and e['b']['op'] == '+':
            x = e['b']
            if x['a'].get('id') == e['a']['id'] and self.const1(x['b']):
                return e['a']['id']
        if e['k'] == 'call' and str(e.get('f', '')).startswith('std::advance<') and len(e['a']) == 2 and self.const1(e['a'][1]):
            x = e['a'][0]
            while x['k'] == 'cast':
                x = x['e']
            return x['id'] if x['k'] == 'var' else None
        return None

    def const1(self, e):
        while e['k'] == 'cast':
            e = e['e']
        return e['k'] == 'int' and e['v'] == '1'

    def for_general(self, fr, s, st, out, c, inc, body, is_do, cv=None):
        L = self.newloop(fr, s)
        c = self.unfold(c)
        v = self.incvar(inc)
        vc = self.loopvar(c, v)
        extra_inc = None
        if inc is not None and v is None and inc['k'] == 'bin' and inc['op'] == ',':
            # ++i, ++j : first recognised increment drives
            parts = []
            e = inc
            while e['k'] == 'bin' and e['op'] == ',':
                parts.append(e['b'])
                e = e['a']
            parts.append(e)
            for p in parts:
                if self.incvar(p) == vc and vc is not None:
                    v = vc
                    extra_inc = [q for q in parts if q is not p]
        if v is not None and v == vc and not assigns([body], v):
            p = st.env.get(v)
            init = st.load(p) if p else None
            if init is not None:
                for dom, s2, val, facts in self.domain(fr, c, v, p, init, L, st):
                    def bd(z, p=p, val=val, facts=facts):
                        z.store(p, val)
                        for f in facts:
                            z.assume(f, True)
                        o = self.ex(fr, body, [z])
                        if extra_inc:
                            nn = []
                            for w in o.n + o.c:
                                w2 = [w]
                                for q in extra_inc:
                                    w2 = [b for a in w2 for b, _ in self.rv(fr, q, a)]
                                nn += w2
                            o.n, o.c = nn, []
                        for w in o.n + o.c:
                            w.store(p, val)
                        return o
                    self.loop(fr, s2, dom, L, bd, s, out, ignore={p})
                return
        # iterator loop with erase inside: for(it = C.begin(); it != C.end();)
        if inc is None and vc is not None:
            p = st.env.get(vc)
            init = st.load(p) if p else None
            if init is not None and init[0] == 'begin':
                cont = init[1]
                dom = ('each', cont, st.load(cont))
                val = ('it', cont, L)

                def bd2(z):
                    z.store(p, val)
                    o = self.ex(fr, body, [z])
                    for w in o.n + o.c:
                        w.store(p, val)
                    return o
                self.loop(fr, st, dom, L, bd2, s, out, ignore={p})
                return

        # general loop
        def bd3(z):
            o = Out()
            zs = [z]
            if cv:
                zs = [y for x in zs for y in self.decl(fr, cv, x)]
            for x in zs:
                for y, b in (self.cond(fr, c, x) if c is not None else [(x, True)]):
                    if not b:
                        continue
                    o2 = self.ex(fr, body, [y])
                    if inc is not None:
                        nn = []
                        for w in merge(o2.n + o2.c):
                            nn += [q for q, _ in self.rv(fr, inc, w)]
                        o2.n, o2.c = nn, []
                    o.n += o2.n
                    o.absorb(o2)
            return o

        def ex_exit(z):
            if c is None:
                return []
            zs = [z]
            if cv:
                zs = [y for x in zs for y in self.decl(fr, cv, x)]
            return [y for x in zs for y, b in self.cond(fr, c, x) if not b]
        self.loop(fr, st, ('while',), L, bd3, s, out, exit_fn=ex_exit)

    def domain(self, fr, c, v, p, init, L, st):
        """recognised iteration spaces: yields (dom, state, value of the loop variable, facts)"""
        e = c
        flip = False
        if e['k'] == 'un' and e['op'] == '!':
            e = e['e']
        if init[0] == 'begin':
            cont = init[1]
            return [(('each', cont, st.load(cont)), st, ('it', cont, L), [])]
        if init[0] == 'rbegin':
            cont = init[1]
            return [(('reach', cont, st.load(cont)), st, ('it', cont, L), [])]
        if e['k'] != 'bin':
            return [(('iter', init), st, ('lv', p, L), [])]
        a, b, op = e['a'], e['b'], e['op']
        x = a
        while x['k'] == 'cast':
            x = x['e']
        if not (x['k'] == 'var' and x['id'] == v):
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!='}[op]
        res = []
        for s2, hi in self.rv(fr, b, st):
            if op == '<=':
                hi = l_add(hi, ('i', 1))
            elif op not in ('<', '!='):
                res.append((('iter', init), s2, ('lv', p, L), []))
                continue
            if hi[0] == 'size' and init == ('i', 0):
                cv = hi[1]
                cont = cv
                if cont[0] == 'ver':
                    cont = cont[1]
                # a local container whose current value this is
                for q, qv in s2.mem.items():
                    if qv == cv and q[0] == 'loc' and not is_path(cv):
                        cont = q
                res.append((('each', cont, cv), s2, ('ix', cont, L), []))
            else:
                val = ('rix', init, hi, L)
                facts = [compare('>=', val, init), compare('<', val, hi)]
                res.append((('range', init, hi), s2, val, facts))
        return res

    def loop(self, fr, st, dom, L, body, node, out, exit_fn=None, ignore=()):
        """general loop summary.  body(state) -> Out for one iteration"""
        line = node.get('l', 0)
        self.purge(st, L)
        outer_env = set(st.env)
        # 1. trial run to learn what the body changes
        tr = st.copy()
        tr.trace = None
        if not hasattr(self, 'trial'):
            self.trial = 0
        self.trial += 1
        try:
            o = body(tr)
        finally:
            self.trial -= 1
        finals = o.n + o.c
        changed = {}
        locids = {st.env[k] for k in outer_env if st.env[k][0] == 'loc'}

        def outside(q):
            r = q
            while parent(r) is not None:
                r = parent(r)
            return r[0] != 'loc' or r in locids or r in st.mem
        for z in finals:
            for q, val in z.mem.items():
                if q in ignore or not outside(q) or mentions(q, lambda x: x[0] in ('elem', 'key', 'ix', 'rix', 'it') and x[-1] == L):
                    continue
                if st.mem.get(q) != val:
                    changed.setdefault(q, set()).add(val)
            for q in st.mem:
                if q not in z.mem and q not in ignore:
                    changed.setdefault(q, set()).add(('lv', q, L))
        rewritten = None
        if dom[0] in ('each', 'reach') and is_path(dom[1]) and dom[1] not in changed and outside(dom[1]):
            for z in finals:
                if any(q not in st.mem and self.of_elem(q, dom[1], L) for q in z.mem):
                    rewritten = dom[1]
        forced = set()
        while True:
            r = self.loop_fix(st, dom, L, body, changed, forced, finals)
            if r[0] == 'widen':
                forced |= r[1]
                continue
            track, head, havoc_vals, seen, edges, exits, V0 = r[1:]
            break
        # 3. post states
        succ = {}
        pred = {}
        for e in edges:
            succ.setdefault(e.src, set()).add(e.dst)
            pred.setdefault(e.dst, set()).add(e.src)

        def reach(a, g):
            r = {a}
            w = [a]
            while w:
                x = w.pop()
                for y in g.get(x, ()):
                    if y not in r:
                        r.add(y)
                        w.append(y)
            return r
        fromV0 = reach(V0, succ)

        def walk_edges(V):
            to = reach(V, pred)
            return [e for e in edges if e.src in fromV0 and e.src in to and e.dst in to]

        def must_edges(V):
            if V == V0:
                return []
            return [e for e in edges if e.dst == V and e.src != V]
        snap = st.copy()
        for V in seen:
            h = head.copy()
            for q, x in zip(track, V):
                h.store(q, x)
            if V == V0 and not [e for e in edges if e.dst == V0 and e.src == V0] and not havoc_vals:
                pass
            we = walk_edges(V)
            lp = Loop(dom, L, we, 'all', must_edges(V), line, fr.file, snap, V)
            if exit_fn is None:
                # nothing ran: values of the havocked are the initial ones; keep generic
                posts = [h]
            else:
                h.trace = None
                posts = exit_fn(h)
            for z in posts:
                tail = z.items() if exit_fn is not None else []
                z.trace = st.trace
                if any(e.items for e in edges) or exits or dom[0] != 'while' or tail:
                    # a loop without any effect is dropped only if it also
                    # establishes nothing
                    if we or any(True for e in exits):
                        z.emit(lp)
                for it in tail:
                    z.emit(it)
                self.dropscope(z, outer_env)
                if rewritten and z.load(rewritten) == dom[2]:
                    z.wmem()[rewritten] = ('ver', rewritten, L)
                if not we and V == V0 and dom[0] == 'each' and edges == [] and not exits:
                    pass
                out.n.append(z)
        for V, kind, z, payload in exits:
            items = z.items()
            z.trace = st.trace
            we = walk_edges(V)
            if we:
                z.emit(Loop(dom, L, we, 'some', must_edges(V), line, fr.file, snap, V))
            for it in items:
                z.emit(it)
            if kind == 'b':
                self.dropscope(z, outer_env)
                if rewritten and z.load(rewritten) == dom[2]:
                    z.wmem()[rewritten] = ('ver', rewritten, L)
                out.n.append(z)
            elif kind == 'r':
                out.r.append((z, payload[0], payload[1]))
            else:
                out.h.append(z)

    def of_elem(self, q, cont, L):
        """a part of the current element held in the container itself"""
        while q is not None:
            if q[0] in ('elem', 'at', 'idx') and len(q) > 2 and q[1] == cont and (q[-1] == L or q[-1] == ('ix', cont, L)):
                return True
            q = parent(q)
        return False

    def loop_fix(self, st, dom, L, body, changed, forced, finals):
        track = []
        head = st.copy()
        havoc_vals = {}
        forced_n = {q[1] for q in forced if q[0] == 'n'}
        induct = {}
        for q, vals in changed.items():
            init = st.load(q)
            if dom[0] == 'each' and q not in forced_n and init[0] == 'i' and vals == {l_add(init, ('i', 1))}:
                # a counter that goes along with the elements
                induct[q] = l_add(('ix', dom[1], L), init)
            elif q not in forced and all(is_const(x) for x in vals) and is_const(init) and len(vals) <= 6:
                track.append(q)
            else:
                havoc_vals[q] = vals
        # values that vary are replaced by loop-generic names
        track.sort(key=repr)
        for q in sorted(havoc_vals, key=repr):
            vals = havoc_vals[q]
            old = st.load(q)
            if old[0] == 'ver' or (old[0] in ('list',)) or any(x[0] == 'ver' and x[1] == q for x in vals):
                n = ('ver', q, L)
                head.wmem()[q] = n
                ins_only = not any(killed(z, st, q) for z in finals)
                if ins_only:
                    for a, pol in list(head.bools.items()):
                        if a[0] == 'in' and a[1] == old and pol:
                            head.wbools()[('in', n, a[2])] = True
            else:
                head.store(q, ('lv', q, L))
        # 2. fixpoint over valuations of finitely-valued outer variables
        V0 = tuple(st.load(q) for q in track)
        todo = [V0]
        seen = {}
        edges = []
        exits = []   # (V, kind, payload)
        while todo:
            V = todo.pop()
            if V in seen:
                continue
            seen[V] = True
            if len(seen) > 24:
                vs = [set(x[i] for x in seen) for i in range(len(track))]
                m = max(len(x) for x in vs)
                return ('widen', {q for q, x in zip(track, vs) if len(x) == m or len(x) > 4})
            h = head.copy()
            for q, x in zip(track, V):
                h.store(q, x)
            for q, x in induct.items():
                h.store(q, x)
            h.trace = None
            if dom[0] == 'each':
                h.assume(compare('>=', ('size', dom[2]), ('i', 1)), True)
            if dom[0] == 'each' and h.known(compare('==', ('size', dom[2]), ('i', 0))):
                continue
            hs = h.copy()
            o = body(hs)
            for z in o.n + o.c:
                W = tuple(z.load(q) for q in track)
                bad = {q for q, x in induct.items() if z.load(q) != l_add(x, ('i', 1))}
                if bad:
                    return ('widen', {('n', q) for q in bad})
                if not all(is_const(w) for w in W):
                    return ('widen', {q for q, w in zip(track, W) if not is_const(w)})
                edges.append(Edge(z.items(), z, V, W))
                if W not in seen:
                    todo.append(W)
            for z in o.b:
                exits.append((V, 'b', z, None))
            for z, val, ln in o.r:
                exits.append((V, 'r', z, (val, ln)))
            for z in o.h:
                exits.append((V, 'h', z, None))
        for q in induct:
            head.store(q, l_add(('size', dom[2]), st.load(q)))
        return ('ok', track, head, havoc_vals, seen, edges, exits, V0)

    def dropscope(self, z, env):
        pass

    # ---------------------------------------------------------- conditions
    def cond(self, fr, e, st):
        k = e['k']
        if k == 'un' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(fr, e['e'], st)]
        if k == 'bin' and e['op'] == '&&':
            r = []
            for s, b in self.cond(fr, e['a'], st):
                if b:
                    r += self.cond(fr, e['b'], s)
                else:
                    r.append((s, False))
            return r
        if k == 'bin' and e['op'] == '||':
            r = []
            for s, b in self.cond(fr, e['a'], st):
                if not b:
                    r += self.cond(fr, e['b'], s)
                else:
                    r.append((s, True))
            return r
        if k == 'tobool':
            r = []
            for s, v in self.rv(fr, e['e'], st):
                r += self.split(s, self.truth(v))
            return r
        r = []
        for s, v in self.rv(fr, e, st):
            if v == ('noret',):
                continue
            r += self.split(s, v)
        return r

    def truth(self, v):
        if v[0] in BOOLOPS or v[0] in ('b',):
            return v
        if v[0] == 'cnt':
            return ('in', v[1], v[2])
        if v[0] == 'size' or v[0] in ('i', 'lin', 'enum', 'op'):
            return neg(compare('==', v, ('i', 0)))
        return ('has', v)

    def split(self, st, b):
        if b[0] == 'cnt':
            b = ('in', b[1], b[2])
        k = st.known(b)
        if k is not None:
            return [(st, k)]
        t = st.copy()
        f = st.copy()
        r = []
        if t.assume(b, True):
            r.append((t, True))
        if f.assume(b, False):
            r.append((f, False))
        return r

    # ---------------------------------------------------------- expressions
    def rvs(self, fr, es, st):
        acc = [(st, [])]
        for e in es:
            acc = [(s2, vs + [v]) for s, vs in acc for s2, v in self.rv(fr, e, s)]
        return acc

    def lv(self, fr, e, st):
        k = e['k']
        if k == 'var':
            p = st.env.get(e['id'])
            if p is None:
                p = ('loc', e['n'], e['id'])
            elif self.acc is not None and p[0] == 'fld':
                q = p
                while q[0] == 'fld' and q[1][0] != 'this':
                    q = q[1]
                if q[0] == 'fld':
                    self.acc.append((q, st.locks, e.get('l', 0), fr.file, fr.name))
            return [(st, p)]
        if k == 'mem':
            src = self.rv(fr, e['o'], st) if e.get('p') else self.lv(fr, e['o'], st)
            r = [(s, self.child(s, p, e['n'])) for s, p in src]
            if self.acc is not None:
                for s, q in r:
                    if q[0] == 'fld' and q[1][0] == 'this':
                        self.acc.append((q, s.locks, e.get('l', 0), fr.file, fr.name))
            return r
        if k == 'this':
            return [(st, fr.this)]
        if k == 'idx':
            r = []
            for s, p in self.rv(fr, e['o'], st):
                for s2, i in self.rv(fr, e['i'], s):
                    r.append((s2, self.at(s2, p, i)))
            return r
        if k == 'un' and e['op'] == '*':
            return [(s, self.deref(s, v)) for s, v in self.rv(fr, e['e'], st)]
        if k == 'un' and e['op'] in ('++', '--'):
            r = []
            for s, v in self.rv(fr, e, st):
                r += self.lv(fr, e['e'], s)
            return r
        if k == 'bin' and e['op'] in ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='):
            r = []
            for s, v in self.rv(fr, e, st):
                r += self.lv(fr, e['a'], s)
            return r
        if k == 'cond':
            r = []
            for s, b in self.cond(fr, e['c'], st):
                r += self.lv(fr, e['a'] if b else e['b'], s)
            return r
        if k == 'mv':
            return self.lv(fr, e['e'], st)
        if k == 'op':
            return self.op_lv(fr, e, st)
        if k in ('mcall', 'call', 'icall'):
            return self.call(fr, e, st, want_lv=True)
        if k == 'gvar':
            r = self.rv(fr, e, st)
            return r
        return self.rv(fr, e, st)

    def at(self, st, p, i):
        if i[0] == 'ix' and (i[1] == p or st.base(p) == i[1]):
            return ('elem', i[1] if i[1] != p else p, i[2])
        if i[0] == 'key' and i[1] == p:
            return ('at', p, i)
        return ('at', p, i)

    def deref(self, st, v):
        if v[0] == 'find':
            return ('ent', v[1], v[3])
        if v[0] == 'it':
            return ('elem', v[1], v[2])
        if v[0] == 'begin':
            return ('front', v[1])
        if v[0] == 'some':
            return v[1]
        if v[0] == 'ver' and is_path(v[1]):
            # a pointer names what it points to: this is the object itself
            # after changes made through the pointer
            return v[1]
        return v

    def rv(self, fr, e, st, discard=False, want=None):
        k = e['k']
        m = getattr(self, 'e_' + k.replace('?', 'unk'), None)
        if m is None:
            raise Unsupported('expression ' + k)
        if k in ('ctor', 'init', 'call', 'mcall'):
            return m(fr, e, st, want) if k in ('ctor', 'init') else m(fr, e, st)
        return m(fr, e, st)

    def e_int(self, fr, e, st):
        return [(st, ('i', int(e['v'])))]

    def e_flt(self, fr, e, st):
        return [(st, ('flt', e['v']))]

    def e_str(self, fr, e, st):
        return [(st, ('s', e.get('v', '')))]

    def e_bool(self, fr, e, st):
        return [(st, TRUE if e['v'] else FALSE)]

    def e_null(self, fr, e, st):
        return [(st, NULL)]

    def e_this(self, fr, e, st):
        return [(st, fr.this)]

    def e_enum(self, fr, e, st):
        return [(st, ('enum', e['n'], int(e['v'])))]

    def e_gvar(self, fr, e, st):
        if 'v' in e:
            return [(st, ('i', int(e['v'])))]
        if e['n'] in ('std::nullopt',):
            return [(st, NONE)]
        g = self.P.gvars.get(e['n'])
        p = ('glob', e['n'])
        if g and e.get('const') and g.get('init') is not None and g['init']['k'] in ('int', 'str', 'bool', 'flt', 'cast', 'init', 'ctor'):
            try:
                return [(st, self.rv(fr, g['init'], State())[0][1])]
            except Unsupported:
                pass
        return [(st, st.load(p))]

    def e_var(self, fr, e, st):
        p = st.env.get(e['id'])
        if p is None:
            p = ('loc', e['n'], e['id'])
        return [(st, st.load(p))]

    def e_mem(self, fr, e, st):
        return [(s, s.load(p)) for s, p in self.lv(fr, e, st)]

    def e_idx(self, fr, e, st):
        return [(s, s.load(p)) for s, p in self.lv(fr, e, st)]

    def e_cp(self, fr, e, st):
        return self.rv(fr, e['e'], st)

    def e_mv(self, fr, e, st):
        return self.rv(fr, e['e'], st)

    def e_fref(self, fr, e, st):
        return [(st, ('fref', e['f']))]

    def e_zero(self, fr, e, st):
        t = e.get('t', '')
        if t == 'bool':
            return [(st, FALSE)]
        if t in INTW:
            return [(st, ('i', 0))]
        if t.endswith('*'):
            return [(st, NULL)]
        return [(st, self.default_value(t))]

    def default_value(self, t):
        b = strip_t(t)
        if b in MAP or b in SET or b in SEQ - {'std::array'}:
            return ('list', b, ())
        if b == 'std::optional':
            return NONE
        if b in PTR or b == 'std::function':
            return NULL
        if b in ('bool',):
            return FALSE
        if b in INTW:
            return ('i', 0)
        if t.endswith('*'):
            return NULL
        rec = self.P.recs.get(t)
        if rec is not None and not rec['bases']:
            fs = []
            for f in rec['fields']:
                if 'init' in f:
                    try:
                        fs.append((f['n'], self.rv(Frame(THIS, '', '', '', (), False, None), f['init'], State())[0][1]))
                        continue
                    except Exception:
                        pass
                fs.append((f['n'], self.default_value(f['t'])))
            return ('obj', t, tuple(fs))
        return ('new', t, ())

    def e_void(self, fr, e, st):
        return [(s, VOID) for s, _ in self.rv(fr, e['e'], st)]

    def e_unk(self, fr, e, st):
        return [(st, ('unk', e.get('c', '?')))]

    def e_stmtexpr(self, fr, e, st):
        o = self.ex(fr, e['s'], [st])
        return [(s, VOID) for s in o.n]

    def e_assert(self, fr, e, st):
        if not self.asserts:
            # what an assertion claims is not taken for granted
            return [(st, VOID)]
        return [(s, VOID) for s, b in self.cond(fr, e['e'], st) if b]

    def e_cond(self, fr, e, st):
        r = []
        for s, b in self.cond(fr, e['c'], st):
            r += self.rv(fr, e['a'] if b else e['b'], s)
        return r

    def e_tobool(self, fr, e, st):
        return [(s, self.truth(v)) for s, v in self.rv(fr, e['e'], st)]

    def e_cast(self, fr, e, st):
        t, ft = e['t'], e.get('ft', '')
        r = []
        for s, v in self.rv(fr, e['e'], st):
            if v[0] in ('i', 'enum', 'b') and t in INTW:
                n = v[1] if v[0] == 'i' else (v[2] if v[0] == 'enum' else int(v[1]))
                if t == 'bool':
                    r.append((s, TRUE if n else FALSE))
                    continue
                w = INTW[t]
                if t.startswith('unsigned') and n >= 0:
                    n &= (1 << w) - 1
                elif t.startswith('unsigned'):
                    n &= (1 << w) - 1
                if v[0] == 'enum' and n == v[2]:
                    r.append((s, v))
                else:
                    r.append((s, ('i', n)))
                continue
            if v[0] in BOOLOPS:
                r.append((s, v))
                continue
            wt, wf = INTW.get(t), INTW.get(ft)
            if wt and wf is None and ft in self.P.enums:
                wf = INTW.get(self.P.enums[ft].get('under', ''), 32)
            if wf and wt is None and t in self.P.enums:
                wt = INTW.get(self.P.enums[t].get('under', ''), 32)
            if wt and wf:
                if wt >= wf:
                    if ft.startswith('unsigned'):
                        NONNEG.add(v)
                    r.append((s, v))
                    continue
                # widening then narrowing back is transparent
                src = self.width(v)
                if src is not None and src <= wt:
                    r.append((s, v))
                    continue
                r.append((s, ('cast', t, v)))
                continue
            if t == ft:
                r.append((s, v))
            else:
                r.append((s, ('cast', t, v) if (t in INTW or t in ('float', 'double')) and (ft in ('float', 'double') or t in ('float', 'double')) else v))
        return r

    def width(self, v):
        if v[0] == 'cast':
            return INTW.get(v[1])
        return None

    def e_un(self, fr, e, st):
        op = e['op']
        if op == '!':
            r = []
            for s, v in self.rv(fr, e['e'], st):
                if v[0] in BOOLOPS or v[0] == 'b':
                    r.append((s, neg(v)))
                else:
                    r.append((s, ('not', v)))
            return r
        if op == '*':
            return [(s, s.load(p)) for s, p in self.lv(fr, e, st)]
        if op == '&':
            return self.lv(fr, e['e'], st)
        if op in ('++', 'post++', '--', 'post--'):
            r = []
            d = ('i', 1 if '+' in op else -1)
            for s, p in self.lv(fr, e['e'], st):
                old = s.load(p)
                new = l_add(old, d)
                self.assign(fr, s, p, new, e['l'])
                r.append((s, old if op.startswith('post') else new))
            return r
        if op == '-':
            return [(s, l_add(('i', 0), v, -1)) for s, v in self.rv(fr, e['e'], st)]
        if op == '+':
            return self.rv(fr, e['e'], st)
        return [(s, ('op', op, (v,))) for s, v in self.rv(fr, e['e'], st)]

    def assign(self, fr, st, p, v, line):
        if p[0] == 'tie':
            for i, q in enumerate(p[1]):
                n = {0: 'first', 1: 'second'}.get(i, '#%d' % i)
                if q != ('ignore',):
                    self.assign(fr, st, q, proj(st, v, ('fld', v, n)), line)
            return
        st.store(p, v)
        if root(p)[0] != 'loc' or p[0] != 'loc':
            st.emit(Ev('set', '=', p, (v,), None, line, fr.file, st.copy(), fr.name))

    def arith(self, op, a, b):
        if op == '+':
            if a[0] == 's' or b[0] == 's':
                return ('op', '+', (a, b))
            if self.wrap and not any(x[0] == 'i' for x in (a, b)):
                # a sum that may wrap around: kept apart
                return ('wadd',) + tuple(sorted((a, b), key=repr))
            return l_add(a, b)
        if op == '-':
            return l_add(a, b, -1)
        if op == '*':
            return l_mul(a, b)
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                if op == '/':
                    return ('i', x // y)
                if op == '%':
                    return ('i', x % y)
                if op == '<<':
                    return ('i', x << y)
                if op == '>>':
                    return ('i', x >> y)
                if op == '&':
                    return ('i', x & y)
                if op == '|':
                    return ('i', x | y)
                if op == '^':
                    return ('i', x ^ y)
            except (ZeroDivisionError, ValueError):
                pass
        if op in ('&', '|', '^'):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'b':
                    if op == '&':
                        return y if x[1] else FALSE
                    if op == '|':
                        return TRUE if x[1] else y
            a, b = sorted([a, b], key=repr)
        return ('op', op, (a, b))

    def e_bin(self, fr, e, st):
        op = e['op']
        if op in ('&&', '||'):
            return [(s, TRUE if b else FALSE) for s, b in self.cond(fr, e, st)]
        if op == ',':
            r = []
            for s, _ in self.rv(fr, e['a'], st):
                r += self.rv(fr, e['b'], s)
            return r
        if op == '=':
            r = []
            for s, v in self.rv(fr, e['b'], st):
                for s2, p in self.lv(fr, e['a'], s):
                    self.assign(fr, s2, p, v, e['l'])
                    r.append((s2, v))
            return r
        if op in ('+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='):
            r = []
            for s, v in self.rv(fr, e['b'], st):
                for s2, p in self.lv(fr, e['a'], s):
                    old = s2.load(p)
                    if op in ('&=', '|=') and e.get('t') == 'bool' or (op in ('&=', '|=') and (old[0] in BOOLOPS or old[0] == 'b')):
                        for s3, b in self.split(s2, old):
                            if (op == '&=') == b:
                                nv = v
                                if v[0] not in ('b',):
                                    for s4, b2 in self.split(s3, v):
                                        self.assign(fr, s4, p, TRUE if b2 else FALSE, e['l'])
                                        r.append((s4, TRUE if b2 else FALSE))
                                    continue
                            else:
                                nv = TRUE if b else FALSE
                            self.assign(fr, s3, p, nv, e['l'])
                            r.append((s3, nv))
                        continue
                    new = self.arith(op[:-1], old, v)
                    self.assign(fr, s2, p, new, e['l'])
                    r.append((s2, new))
            return r
        if op in ('==', '!='):
            # a condition compared with true or false
            x, y = [z['e'] if z['k'] == 'cast' and z.get('ft') == 'bool' else None for z in (e['a'], e['b'])]
            if x and y and 'bool' in (x['k'], y['k']):
                if x['k'] == 'bool':
                    x, y = y, x
                same = bool(y['v']) is (op == '==')
                return [(s, TRUE if b is same else FALSE) for s, b in self.cond(fr, x, st)]
        r = []
        for s, a in self.rv(fr, e['a'], st):
            for s2, b in self.rv(fr, e['b'], s):
                if op in ('==', '!=', '<', '>', '<=', '>='):
                    if e.get('u'):
                        for x in (a, b):
                            if x[0] not in ('i', 'lin', 'b'):
                                NONNEG.add(x)
                    r.append((s2, self.cmp(op, a, b, s2)))
                else:
                    r.append((s2, self.arith(op, a, b)))
        return r

    def cmp(self, op, a, b, s=None):
        for x in (a, b):
            if x[0] == 'cnt':
                y = b if x is a else a
                # count compared with a constant
                if y[0] == 'i':
                    t = ('in', x[1], x[2])
                    o = op if x is a else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                    if (o, y[1]) in (('==', 0), ('<', 1), ('<=', 0), ('!=', 1)):
                        return neg(t)
                    if (o, y[1]) in (('!=', 0), ('>', 0), ('>=', 1), ('==', 1)):
                        return t
        if op in ('==', '!='):
            if a[0] == 'find' and b[0] == 'end' or a[0] == 'end' and b[0] == 'find':
                f = a if a[0] == 'find' else b
                t = ('in', f[2], f[3])
                return neg(t) if op == '==' else t
            if {a[0], b[0]} == {'begin', 'end'} and a[1] == b[1] and s is not None:
                C = self.cval(s, a[1])
                return compare(op, ('i', len(C[2])) if C[0] == 'list' else ('size', C), ('i', 0))
        return compare(op, a, b)

    def e_lambda(self, fr, e, st):
        caps = []
        states = [(st, [])]
        for c in e['caps']:
            nxt = []
            for s, acc in states:
                if c.get('this'):
                    nxt.append((s, acc + [('this', fr.this)]))
                    continue
                if 'id' not in c:
                    nxt.append((s, acc))
                    continue
                if c.get('ref'):
                    if c.get('ic'):
                        for s2, p in self.lv(fr, c['init'], s):
                            nxt.append((s2, acc + [(c['id'], 'ref', p, c['n'])]))
                    else:
                        p = s.env.get(c['id'], ('loc', c['n'], c['id']))
                        nxt.append((s, acc + [(c['id'], 'ref', p, c['n'])]))
                elif c.get('ic'):
                    for s2, v in self.rv(fr, c['init'], s):
                        nxt.append((s2, acc + [(c['id'], 'val', v, c['n'])]))
                else:
                    p = s.env.get(c['id'], ('loc', c['n'], c['id']))
                    nxt.append((s, acc + [(c['id'], 'val', s.load(p), c['n'])]))
            states = nxt
        f = e.get('f')
        r = []
        for s, acc in states:
            if f is None:
                r.append((s, ('lamg', tuple(e['sp']), tuple(acc))))
            else:
                r.append((s, ('lam', f, tuple(acc))))
        return r

    def e_new(self, fr, e, st):
        if 'e' in e and e['e']:
            return [(s, v if v[0] in ('obj', 'new') else ('new', e['t'], (v,))) for s, v in self.rv(fr, e['e'], st)]
        return [(st, ('new', e['t'], ()))]

    def e_delete(self, fr, e, st):
        r = []
        for s, v in self.rv(fr, e['e'], st):
            s.emit(Ev('call', 'delete', None, (v,), None, e['l'], fr.file, s.copy(), fr.name))
            r.append((s, VOID))
        return r

    def e_init(self, fr, e, st, want=None):
        t = e['t']
        b = strip_t(t)
        r = []
        if t in INTW or t in self.P.enums or t.endswith('*'):
            if not e['a']:
                return self.e_zero(fr, {'t': t}, st)
            return self.rv(fr, e['a'][0], st)
        for s, vs in self.rvs(fr, [x for x in e['a'] if x is not None], st):
            if 'fs' in e and e['fs'] and not b.startswith('std::'):
                fs = []
                for i, n in enumerate(e['fs']):
                    if i < len(vs):
                        if n == '<base>':
                            if vs[i][0] == 'obj':
                                fs += list(vs[i][2])
                            else:
                                fs.append(('<base%d>' % i, vs[i]))
                        else:
                            fs.append((n, vs[i]))
                r.append((s, ('obj', t, tuple(fs))))
            elif b == 'std::array' and len(vs) == 1 and vs[0][0] == 'list':
                r.append((s, ('list', 'std::array', vs[0][2])))
            elif b == 'std::array' and len(vs) == 1 and vs[0][0] == 'new':
                r.append((s, ('new', t, ())))
            else:
                r.append((s, ('list', b, tuple(vs))))
        return r

    # ---------------------------------------------------------- constructors
    def e_ctor(self, fr, e, st, want=None):
        d = self.P.fn[e['f']]
        t = e['t']
        b = strip_t(strip_cv(t))
        args = e['a']
        pts = param_types(e['f'])
        if b in LOCKS:
            return self.mk_lock(fr, e, st, b, want)
        if len(args) == 1 and b in ('std::__detail::_Node_const_iterator', 'std::_Rb_tree_const_iterator', '__gnu_cxx::__normal_iterator', 'std::move_iterator'):
            return [(s, vs[0]) for s, vs in self.rvs(fr, args, st)]
        if b == 'std::optional':
            if not args:
                return [(st, NONE)]
            r = []
            pt = strip_cv(pts[0]) if pts else ''
            for s, vs in self.rvs(fr, args[:1], st):
                v = vs[0]
                if pt == 'std::nullopt_t' or v == NONE:
                    r.append((s, NONE))
                elif strip_t(pt) == 'std::optional':
                    r.append((s, v))
                elif pt.startswith('std::in_place'):
                    for s2, ws in self.rvs(fr, args[1:], s):
                        r.append((s2, ('some', ws[0] if len(ws) == 1 else ('new', t, tuple(ws)))))
                else:
                    r.append((s, ('some', v)))
            return r
        if b == 'std::variant':
            if not args:
                ta = template_args(t)
                return [(st, ('var', strip_cv(ta[0]), self.default_value(ta[0])))]
            r = []
            pt = strip_cv(pts[0]) if pts else ''
            alts = [strip_cv(x) for x in template_args(strip_cv(t))]
            for s, vs in self.rvs(fr, args, st):
                v = vs[0]
                if strip_t(pt) == 'std::variant' and pt not in alts:
                    r.append((s, v))
                elif pt in alts:
                    r.append((s, ('var', pt, v)))
                elif pt.startswith('std::in_place_type_t'):
                    r.append((s, ('var', strip_cv(template_args(pt)[0]), vs[1] if len(vs) > 1 else self.default_value(template_args(pt)[0]))))
                else:
                    # converting constructor: pick by decay (string literals, ints)
                    r.append((s, ('var', pt or '?', v)))
            return r
        if b in ('std::function', 'std::atomic', 'std::__atomic_base', 'std::reference_wrapper', 'std::filesystem::path') or b in PTR:
            if not args:
                return [(st, NULL if b in PTR or b == 'std::function' else ('i', 0))]
            if b in PTR and len(args) > 1:
                return [(s, vs[0]) for s, vs in self.rvs(fr, args[:1], st)]
            if b == 'std::reference_wrapper':
                return self.lv(fr, args[0], st)
            return [(s, vs[0]) for s, vs in self.rvs(fr, args[:1], st)]
        if b in MAP or b in SET or b in SEQ:
            real = [a for a in args if not (a['k'] == 'ctor' and strip_t(a.get('t', '')) == 'std::allocator')]
            if not real:
                return [(st, ('list', b, ()))]
            r = []
            for s, vs in self.rvs(fr, real, st):
                v = vs[0]
                if v[0] == 'list' and len(vs) == 1 or v[0] == 's' or (b == 'std::basic_string' and len(vs) == 1):
                    r.append((s, ('list', b, v[2]) if v[0] == 'list' else v))
                elif v[0] in ('begin',) and len(vs) > 1 and vs[1] == ('end', v[1]):
                    r.append((s, s.load(v[1])))
                elif b in SEQ and pts and strip_cv(pts[0]) in INTW:
                    r.append((s, ('vec', b, tuple(vs))))
                else:
                    r.append((s, ('new', t, tuple(vs))))
            return r
        if b == 'std::pair' or b == 'std::tuple':
            r = []
            for s, vs in self.rvs(fr, args, st):
                if len(vs) == 1 and len(template_args(t)) > 1:
                    r.append((s, vs[0]))
                    continue
                names = ['first', 'second'] + ['#%d' % i for i in range(2, 20)]
                if vs:
                    r.append((s, ('obj', b, tuple(zip(names, vs)))))
                else:
                    r.append((s, ('obj', b, tuple(zip(names, [self.default_value(strip_cv(x)) for x in template_args(t)])))))
            return r
        if b.startswith('std::chrono::') and args:
            return [(s, vs[0]) for s, vs in self.rvs(fr, args[:1], st)]
        if b == 'std::thread' and args:
            r = []
            for s, vs in self.rvs(fr, args, st):
                v = ('new', t, tuple(vs))
                s.emit(Ev('thread', 'std::thread', None, tuple(vs), v, e['l'], fr.file, s.copy(), fr.name))
                r.append((s, v))
            return r
        if not args and t in self.P.recs and self.P.funcs.get(e['f']) is None:
            return [(st, self.default_value(t))]
        # repository constructor: inline if possible
        f = self.P.funcs.get(e['f'])
        if f is not None and not b.startswith('std::') and self.want_inline(fr, d) and f.get('ctor'):
            n = st.count(('obj', t))
            tmp = ('loc', 'tmp_' + short(t), '%s.%d.%d' % (t, e['l'], n))
            r = []
            for s, v in self.inline(fr, d, f, tmp, args, st, e['l']):
                r.append((s, s.load(tmp)))
                if r[-1][1] == tmp:
                    r[-1] = (s, ('new', t, ()))
            return r
        r = []
        if [p.strip() for p in param_types(e['f'])] == ['cbdc::serializer &'] and len(args) == 1:
            # decodes the object: moves the serializer on
            for s, p in self.lv(fr, args[0], st):
                n = s.count(('read', t))
                v = ('new', t, (s.load(p) if is_path(p) else p, ('i', n)))
                s.emit(Ev('call', d['b'], None, v[2], v, e['l'], fr.file, s.copy(), fr.name, e['f']))
                if is_path(p) and p[0] != 'this':
                    s.store(p, ('out', v, 0, s.count(('ver', p)) + 1))
                r.append((s, v))
            return r
        for s, vs in self.rvs(fr, args, st):
            v = ('new', t, tuple(vs))
            if any(x[0] in ('lam', 'lamg') for x in vs) or any(rx.search(b) for rx in self.event_re):
                s.emit(Ev('call', d['b'], None, tuple(vs), v, e['l'], fr.file, s.copy(), fr.name, e['f']))
            r.append((s, v))
        return r

    def mk_lock(self, fr, e, st, b, want):
        r = []
        mode = 's' if b == 'std::shared_lock' else 'x'
        args = e['a']
        if not args:
            return [(st, NULL)]
        deferred = any(strip_t(strip_cv(p)).endswith('defer_lock_t') for p in param_types(e['f']))
        states = [(st, [])]
        for a in args:
            if strip_t(a.get('t', '')).endswith('_lock_t') or a['k'] == 'gvar':
                continue
            states = [(s2, ps + [p]) for s, ps in states for s2, p in self.lv(fr, a, s)]
        n = st.count(('lockobj',))
        for s, ps in states:
            holder = want or ('loc', 'lk', 'lk%d' % n)
            for p in ps:
                if deferred:
                    continue
                s.emit(Ev('lock', mode, p, (), None, e['l'], fr.file, s.copy(), fr.name))
                s.locks = s.locks + ((p, mode, holder),)
            v = ('lock', tuple(ps), mode, holder)
            if want is not None:
                m = s.wmem()
                m[want] = v
                r.append((s, ('inplace',)))
            else:
                r.append((s, v))
        return r

    # ---------------------------------------------------------- calls
    def e_call(self, fr, e, st):
        return self.deref_result(fr, e, st)

    def e_mcall(self, fr, e, st):
        return self.deref_result(fr, e, st)

    def e_icall(self, fr, e, st):
        return self.call(fr, e, st, False)

    def e_conv(self, fr, e, st):
        d = self.P.fn[e['f']]
        cb = d.get('cb', '')
        r = []
        if d['ret'] == 'bool':
            for s, p in self.lv(fr, e['o'], st):
                v = s.load(p) if is_path(p) else p
                if cb in ATOM or cb == 'std::_Bit_reference':
                    r.append((s, v))
                elif cb == 'std::_Node_handle_common' and v[0] == 'find':
                    r.append((s, ('in', v[2], v[3])))
                elif cb in PTR or cb in ('std::optional', 'std::function') or not self.want_inline(fr, d):
                    if cb == 'std::unique_lock':
                        r.append((s, TRUE))
                    elif cb in PTR or cb in ('std::optional', 'std::function'):
                        r.append((s, ('has', v) if s.known(('has', v)) is None else (TRUE if s.known(('has', v)) else FALSE)))
                    else:
                        r.append((s, ('call', d['b'], (v,), 0)))
                else:
                    r += self.inline_call(fr, d, p, [], s, e['l'])
            return r
        if cb in ATOM or cb == 'std::reference_wrapper':
            return [(s, s.load(p) if is_path(p) else p) for s, p in self.lv(fr, e['o'], st)]
        f = self.P.funcs.get(e['f'])
        if f is not None and not d.get('lam') and self.want_inline(fr, d):
            for s, p in self.lv(fr, e['o'], st):
                r += self.inline_call(fr, d, p, [], s, e['l'])
            return r
        return [(s, s.load(p) if is_path(p) else p) for s, p in self.lv(fr, e['o'], st)]

    def deref_result(self, fr, e, st):
        r = []
        for s, v in self.call(fr, e, st, False):
            r.append((s, v))
        return r

    def e_op(self, fr, e, st):
        op = e['op']
        if op in ('*', '->', '[]') or (op in ('++', '--', '=', '+=') and 'f' in e):
            if op == '->':
                return self.op_lv(fr, e, st, arrow=True)
            if op in ('*', '[]') and len(e['a']) == (1 if op == '*' else 2):
                od = self.P.fn.get(e.get('f'))
                opt = op == '*' and od and od.get('cb') == 'std::optional'
                r = []
                for s, p in self.op_lv(fr, e, st):
                    v = s.load(p) if is_path(p) else p
                    r.append((s, v[1] if opt and v[0] == 'some' else v))
                return r
        d = self.P.fn.get(e.get('f'))
        cb = d.get('cb', '') if d else ''
        a = e['a']
        if op == '=':
            return self.op_assign(fr, e, st, d)
        if op in ('++', '--', 'post++', 'post--'):
            r = []
            for s, p in self.lv(fr, a[0], st):
                old = s.load(p)
                if cb in ATOM:
                    new = l_add(old, ('i', 1 if '+' in op else -1))
                    s.store(p, new)
                    s.emit(Ev('set', 'atomic' + op, p, (new,), None, e['l'], fr.file, s.copy(), fr.name))
                    r.append((s, old if op.startswith('post') else new))
                else:
                    if old[0] in ('it',):
                        r.append((s, old))
                        continue
                    new = ('op', '++', (old,)) if '+' in op else ('op', '--', (old,))
                    s.store(p, new)
                    r.append((s, old if op.startswith('post') else new))
            return r
        if op in ('==', '!=', '<', '>', '<=', '>='):
            f = self.P.funcs.get(e.get('f'))
            if f is not None and self.want_inline(fr, d) and not d['b'].startswith('std::'):
                res = self.inline_op(fr, e, d, st)
                return res
            r = []
            for s, vs in self.rvs(fr, a, st):
                if len(vs) == 2:
                    r.append((s, self.cmp(op, vs[0], vs[1], s)))
                else:
                    r.append((s, ('call', d['b'], tuple(vs), 0)))
            return r
        if op == '!' and cb == 'std::basic_ios':
            return [(s, ('not', ('call', 'std::basic_ios::operator bool', (s.load(vs[0]) if is_path(vs[0]) else vs[0],), 0))) for s, vs in self.rvs(fr, a, st)]
        if op == '!':
            return [(s, neg(vs[0]) if vs[0][0] in BOOLOPS or vs[0][0] == 'b' else ('not', ('has', vs[0]))) for s, vs in self.rvs(fr, a, st)]
        if op in ('+', '-', '*', '/', '%', '|', '&', '^') and (d is None or d['b'].startswith('std::') or cb.startswith('std::') or '__normal_iterator' in d['b']):
            r = []
            for s, vs in self.rvs(fr, a, st):
                if len(vs) == 2:
                    r.append((s, self.arith(op, vs[0], vs[1]) if op in '+-' and cb != 'std::basic_string' and 'basic_string' not in (d or {}).get('ret', '') and vs[0][0] not in ('begin', 'end', 's') else ('op', op, tuple(vs))))
                else:
                    r.append((s, ('op', op, tuple(vs))))
            return r
        if op in ('+=', '-=', '|=', '&='):
            r = []
            for s, v in self.rv(fr, a[1], st):
                for s2, p in self.lv(fr, a[0], s):
                    old = s2.load(p)
                    if cb in ATOM:
                        new = l_add(old, v, 1 if op == '+=' else -1)
                        s2.store(p, new)
                        s2.emit(Ev('set', 'atomic' + op, p, (new,), None, e['l'], fr.file, s2.copy(), fr.name))
                        r.append((s2, new))
                        continue
                    if cb == 'std::basic_string' or (cb in SEQ):
                        self.mutate(fr, s2, p, 'append', (v,), e['l'])
                    else:
                        new = ('op', op[:-1], (old, v))
                        self.assign(fr, s2, p, new, e['l'])
                    r.append((s2, p))
            return r
        if op in ('<<', '>>'):
            if d is not None and (cb.startswith('std::basic_') or d['b'] in ('std::operator<<', 'std::operator>>')):
                r = []
                for s, p in self.lv(fr, a[0], st):
                    cur = s.load(p) if is_path(p) else None
                    if cur is not None and cur[0] == 'new' and cur[1].startswith(('std::basic_stringstream', 'std::basic_ostringstream', 'basic_stringstream', 'basic_ostringstream')) and not cur[2]:
                        self.streams.add(p)
                        cur = ('stream', ())
                    elif cur is not None and cur[0] == 'lv' and p in self.streams:
                        cur = ('stream', (cur,))
                    if cur is not None and cur[0] == 'stream' and op == '<<':
                        for s2, v in self.rv(fr, a[1], s):
                            s2.store(p, ('stream', cur[1] + (v,)))
                            r.append((s2, p))
                    elif cur is not None and cur[0] == 'stream':
                        for s2, o in self.lv(fr, a[1], s):
                            n = s2.count(('read', p))
                            t = ('call', 'std::operator>>', (cur,), n)
                            if is_path(o):
                                s2.store(o, t)
                            r.append((s2, p))
                    elif self.has_call(a[1]):
                        r += [(s2, p) for s2, _ in self.rv(fr, a[1], s)]
                    else:
                        r.append((s, p))
                return r
        if d is not None:
            return self.opcall(fr, e, d, st)
        return [(s, ('op', op, tuple(vs))) for s, vs in self.rvs(fr, a, st)]

    def has_call(self, e):
        return e['k'] in ('mcall', 'call', 'icall', 'lambda', 'op')

    def opcall(self, fr, e, d, st):
        """overloaded operator of the repository"""
        a = e['a']
        if 'cls' in d and not d.get('static'):
            node = {'k': 'mcall', 'f': e['f'], 'o': a[0], 'a': a[1:], 'l': e['l']}
        else:
            node = {'k': 'call', 'f': e['f'], 'a': a, 'l': e['l']}
        return self.call(fr, node, st, False)

    def inline_op(self, fr, e, d, st):
        a = e['a']
        if 'cls' in d and not d.get('static'):
            r = []
            for s, p in self.lv(fr, a[0], st):
                if not is_path(p):
                    t = ('loc', 'tmpo', 'tmpo%d' % s.count(('tmpo',)))
                    s.store(t, p)
                    p = t
                r += self.inline_call(fr, d, p, a[1:], s, e['l'])
            return r
        return self.inline_call(fr, d, None, a, st, e['l'])

    def op_lv(self, fr, e, st, arrow=False):
        op = e['op']
        a = e['a']
        d = self.P.fn.get(e.get('f'))
        cb = d.get('cb', '') if d else ''
        if op == '->' or op == '*' and len(a) == 1:
            if cb == 'std::optional':
                return [(s, self.optpath(s, p)) for s, p in self.lv(fr, a[0], st)]
            if d is not None and not cb.startswith('std::') and not cb.startswith('__gnu') and self.P.funcs.get(e['f']) is not None and self.want_inline(fr, d):
                return self.inline_op(fr, e, d, st)
            return [(s, self.deref(s, v)) for s, v in self.rv(fr, a[0], st)]
        if op == '[]' and len(a) == 2:
            r = []
            if d is not None and not cb.startswith('std::') and not cb.startswith('__gnu') and self.P.funcs.get(e['f']) is not None and self.want_inline(fr, d):
                return self.inline_op(fr, e, d, st)
            for s, p in self.lv(fr, a[0], st):
                for s2, i in self.rv(fr, a[1], s):
                    if cb in MAP:
                        r.append((s2, self.map_at(fr, s2, p, i, e['l'])))
                    else:
                        r.append((s2, self.at(s2, p, i)))
            return r
        if op in ('=', '+=', '++', '--', '<<', '>>', '|=', '&='):
            r = []
            for s, v in self.e_op(fr, e, st):
                r += self.lv(fr, a[0], s) if a[0]['k'] in ('var', 'mem', 'this') else [(s, v)]
            return r
        if op in ('post++', 'post--'):
            return self.e_op(fr, e, st)
        r = self.e_op(fr, e, st)
        return r

    def optpath(self, st, p):
        return p

    def map_at(self, fr, st, p, k, line):
        C = st.load(p) if not any(under(q, p) for q in st.mem) else st.base(p)
        C = self.cval(st, p)
        if st.known(('in', C, k)) is not True:
            self.mutate(fr, st, p, 'ensure', (k,), line)
        return ('at', p, k)

    def cval(self, st, p):
        """membership-relevant value of a container path"""
        return st.base(p) if is_path(p) else p

    def op_assign(self, fr, e, st, d):
        a = e['a']
        cb = d.get('cb', '') if d else ''
        pts = [strip_cv(x) for x in param_types(e['f'])] if d else []
        r = []
        ct = d.get('clst', '') if d else ''
        for s, v in self.rv(fr, a[1], st):
            if cb == 'std::optional':
                if pts and pts[0] == 'std::nullopt_t':
                    v = NONE
                elif pts and strip_t(pts[0]) == 'std::optional' and v[0] != 'some':
                    pass
                elif pts and strip_t(pts[0]) != 'std::optional':
                    v = ('some', v)
            elif cb == 'std::variant':
                if pts and strip_t(pts[0]) != 'std::variant':
                    v = ('var', pts[0], v)
            for s2, p in self.lv(fr, a[0], s):
                self.assign(fr, s2, p, v, e['l'])
                r.append((s2, p if is_path(p) else v))
        return r

    # -- container mutation
    def mutate(self, fr, st, p, what, args, line, quiet=False):
        if not is_path(p):
            if p[0] == 'call':    # a container some opaque call refers to
                ev = Ev('mut', what, p, tuple(args), None, line, fr.file, st.copy(), fr.name)
                ev.pre = p
                st.emit(ev)
            return
        old = self.cval(st, p)
        key = None
        if what in ('emplace', 'insert', 'ensure', 'assign', 'insert_or_assign', 'try_emplace') and args:
            key = args[0]
        if what == 'keep':
            ev = Ev('mut', what, p, tuple(args), None, line, fr.file, st.copy(), fr.name)
            ev.pre = old
            st.emit(ev)
            return
        if old[0] == 'list' and what == 'push_back' and len(old[2]) < 40 and not getattr(self, 'trial', 0):
            new = ('list', old[1], old[2] + (args[0],))
            st.wmem()[p] = new
        elif old[0] == 'list' and what == 'push_back' and not any(p == q for q in ()):
            new = ('list', old[1], old[2] + (args[0],)) if len(old[2]) < 40 else ('ver', p, st.count(('ver', p)) + 1)
            st.wmem()[p] = new
        elif what == 'clear':
            m = st.wmem()
            for q in [q for q in m if under(q, p)]:
                del m[q]
            new = ('list', 'cleared', ())
            m[p] = new
        else:
            n = st.count(('ver', p)) + 1
            new = ('ver', p, n)
            m = st.wmem()
            m[p] = new
            ins = what in ('emplace', 'insert', 'ensure', 'push_back', 'append', 'insert_or_assign', 'try_emplace', 'push', 'emplace_back', 'merge')
            if ins:
                for a, pol in list(st.bools.items()):
                    if a[0] == 'in' and a[1] == old and (pol or False):
                        st.wbools()[('in', new, a[2])] = True
                if key is not None:
                    st.wbools()[('in', new, key)] = True
                st.assume(compare('>=', ('size', new), ('i', 1)), True)
            elif what == 'erase':
                for a, pol in list(st.bools.items()):
                    if a[0] == 'in' and a[1] == old and not pol:
                        st.wbools()[('in', new, a[2])] = False
                k = args[0] if args else None
                if k is not None:
                    st.wbools()[('in', new, k)] = False
                    q0 = ('at', p, k)
                    for q in [q for q in m if q == q0 or under(q, q0)]:
                        del m[q]
            else:
                for q in [q for q in m if under(q, p)]:
                    del m[q]
        if not quiet:
            ev = Ev('mut', what, p, tuple(args), None, line, fr.file, st.copy(), fr.name)
            ev.pre = old
            st.emit(ev)

    # -- main call dispatch
    def call(self, fr, e, st, want_lv=False):
        self.calls_seen += 1
        k = e['k']
        if k == 'icall':
            r = []
            for s, v in self.rv(fr, e['c'], st):
                r += self.invoke(fr, v, e['a'], s, e['l'])
            return r
        d = self.P.fn[e['f']]
        if d['b'] in ('lua_error', 'luaL_error'):
            # never returns (a long jump), but is not declared so
            r = []
            for s, vs in self.argvals(fr, e.get('a', []), st, d.get('pk')):
                s.emit(Ev('call', d['b'], None, tuple(vs), None, e['l'], fr.file, None, fr.name))
                r.append((s, ('noret',)))
            return r
        if self.is_noise(d):
            return self.noise_call(fr, e, d, st)
        b = d['b']
        if k == 'mcall':
            cb = d.get('cb', '')
            if e.get('oc') or (d.get('lam') and d['m'] == 'operator()'):
                if cb == 'std::function' or d.get('lam'):
                    r = []
                    for s, v in self.rv(fr, e['o'], st):
                        r += self.invoke(fr, v, e['a'], s, e['l'], e['f'])
                    return r
            if cb.startswith('std::') or cb.startswith('__gnu_cxx'):
                return self.std_method(fr, e, d, st, want_lv)
            return self.method(fr, e, d, st, want_lv)
        if b.startswith('std::') or b.startswith('__gnu_cxx'):
            return self.std_func(fr, e, d, st, want_lv)
        return self.function(fr, e, d, st, None, want_lv)

    def noise_call(self, fr, e, d, st):
        # arguments may still have effects worth keeping? logging arguments are pure here
        if d.get('noret') or d['m'] == 'fatal':
            st.emit(Ev('call', d['b'], None, (), None, e['l'], fr.file, None, fr.name))
            return [(st, ('noret',))]
        r = []
        if d['m'] in ('fatal',):
            return [(st, ('noret',))]
        return [(st, VOID)]

    def invoke(self, fr, v, args, st, line, fid=None):
        """call through a closure / std::function value"""
        if v[0] == 'some':
            v = v[1]
        if v[0] == 'lamg':
            cand = [f for f in v[1] if f == fid] or [f for f in v[1] if f in self.P.funcs]
            if cand:
                v = ('lam', cand[0], v[2])
        if v[0] == 'fref':
            d = self.P.fn.get(v[1])
            if d is not None:
                return self.function(fr, {'k': 'call', 'f': v[1], 'a': args, 'l': line}, d, st, None, False)
        if v[0] == 'lam':
            f = self.P.funcs.get(v[1])
            if f is not None and v[1] not in fr.stack and len(fr.stack) < 16:
                return self.inline_lam(fr, v, f, args, st, line)
        r = []
        for s, vs in self.argvals(fr, args, st, None):
            n = s.count(('inv', v))
            ret = ('call', 'invoke', (v,) + tuple(vs), n)
            s.emit(Ev('invoke', 'invoke', v, tuple(vs), ret, line, fr.file, s.copy(), fr.name, fid))
            r.append((s, ret))
        return r

    def bind_closure(self, st, v, fr):
        this = None
        env = st.wenv()
        for c in v[2]:
            if c[0] == 'this':
                this = c[1]
            elif c[1] == 'ref':
                env[c[0]] = c[2]
            else:
                p = ('loc', c[3], c[0] + "'")
                env[c[0]] = p
                if p not in st.mem and not any(under(q, p) for q in st.mem):
                    st.store(p, c[2])
        return this

    def inline_lam(self, fr, v, f, args, st, line):
        saved = {c[0]: st.env.get(c[0]) for c in v[2] if c[0] != 'this'}
        r = []
        # evaluate args in caller frame first
        for s, ps in self.argpaths(fr, f['params'], args, st):
            this = self.bind_closure(s, v, fr)
            nf = Frame(this, f['id'], f['file'], fr.name, fr.stack + (f['id'],), f['ret'].endswith('&'), fr.cls)
            r += self.exec_body(nf, f, ps, s, saved)
        return r

    def inline_call(self, fr, d, this, args, st, line):
        f = self.P.funcs[d['id']]
        return self.inline(fr, d, f, this, args, st, line)

    def inline(self, fr, d, f, this, args, st, line):
        r = []
        for s, ps in self.argpaths(fr, f['params'], args, st):
            nf = Frame(this, f['id'], f['file'], f['b'], fr.stack + (f['id'],), f['ret'].endswith('&'), strip_t(f['cls']) if 'cls' in f and not f.get('lam') else fr.cls)
            r += self.exec_body(nf, f, ps, s, None)
        return r

    def exec_body(self, nf, f, ps, s, saved):
        self.funcs_seen.add(f['id'])
        self.sites_seen += 1
        env = s.wenv()
        oldenv = {}
        for p, (kind, val) in zip(f['params'], ps):
            oldenv[p['id']] = env.get(p['id'])
            if kind == 'path':
                env[p['id']] = val
            else:
                q = ('loc', p['n'] or 'p', p['id'])
                s.store(q, val)
                env = s.wenv()
                env[p['id']] = q
        states = [s]
        if f.get('ctor'):
            states = self.inits(nf, f, states)
        o = self.ex(nf, f['body'], states)
        pids = {p['id'] for p in f['params']}
        res = []
        ids = self.local_ids(f)
        for st2 in o.n:
            res.append((st2, VOID))
        for st2, v, ln in o.r:
            if nf.ret_ref and not is_path(v):
                pass
            if nf.ret_ref:
                # result is a path; callers that need the value load it
                v = ('refpath', v)
            res.append((st2, v))
        for st2 in o.h:
            res.append((st2, ('noret',)))
        out = []
        for st2, v in res:
            self.unscope(st2, pids)
            if v[0] == 'refpath':
                v = v[1] if is_path(v[1]) else v[1]
                v2 = st2.load(v) if is_path(v) else v
                out.append((st2, ('ref', v, v2)))
            else:
                out.append((st2, v))
            # prune callee locals
            m = None
            gone = {}
            for q in list(st2.mem):
                rr = q
                while parent(rr) is not None:
                    rr = parent(rr)
                if rr[0] == 'loc' and rr[2] in ids and not (v and mentions(v, lambda x, rr=rr: x == rr)):
                    m = st2.wmem()
                    gone[q] = m.pop(q, None)
            if gone:
                # the rules may still ask what they held; not if different calls left different values
                st2.gone = {**st2.gone, **{q: w if st2.gone.get(q, w) == w else None for q, w in gone.items()}}
            e2 = None
            for i in ids | pids:
                if i in st2.env:
                    e2 = st2.wenv()
                    e2.pop(i, None)
            for i, ov in oldenv.items():
                if ov is not None:
                    st2.wenv()[i] = ov
        out = [(a, self.unref(b)) for a, b in out]
        # merge equal results
        groups = {}
        order = []
        for a, b in out:
            groups.setdefault(b, []).append(a)
            if b not in order:
                order.append(b)
        fin = []
        for b in order:
            for a in merge(groups[b]):
                fin.append((a, b))
        if len(fin) > self.pathcap:
            raise TooComplex(f['b'])
        return fin

    def unref(self, v):
        if v and v[0] == 'ref':
            self.lastref = v
            return v[1] if is_path(v[1]) else v[2]
        return v

    def local_ids(self, f):
        c = self.declared.get(f['id'])
        if c is None:
            c = set()

            def walk(n):
                if isinstance(n, dict):
                    if n.get('k') == 'decl':
                        c.add(n['id'])
                        for b in n.get('b', []):
                            c.add(b['id'])
                    if n.get('k') == 'lambda':
                        return
                    for x in n.values():
                        if isinstance(x, (dict, list)):
                            walk(x)
                elif isinstance(n, list):
                    for x in n:
                        walk(x)
            walk(f['body'])
            c |= {p['id'] for p in f['params']}
            self.declared[f['id']] = c
        return c

    def argpaths(self, fr, params, args, st):
        acc = [(st, [])]
        for i, p in enumerate(params):
            nxt = []
            if i >= len(args):
                for s, ps in acc:
                    nxt.append((s, ps + [('val', ('unk', 'arg'))]))
                acc = nxt
                continue
            a = args[i]
            for s, ps in acc:
                if isinstance(a, tuple):      # already a value
                    if p['rk'] in ('l', 'cl', 'r') and is_path(a):
                        nxt.append((s, ps + [('path', a)]))
                    else:
                        nxt.append((s, ps + [('val', s.load(a) if is_path(a) else a)]))
                elif p['rk'] in ('l', 'cl', 'r'):
                    for s2, q in self.lv(fr, a, s):
                        nxt.append((s2, ps + [('path' if is_path(q) else 'val', q)]))
                else:
                    for s2, v in self.rv(fr, a, s):
                        nxt.append((s2, ps + [('val', v)]))
            acc = nxt
        return acc

    def argvals(self, fr, args, st, pk):
        acc = [(st, [])]
        for i, a in enumerate(args):
            kind = pk[i] if pk and i < len(pk) else 'v'
            nxt = []
            for s, vs in acc:
                if isinstance(a, tuple):
                    nxt.append((s, vs + [a]))
                elif kind in ('l',):
                    for s2, p in self.lv(fr, a, s):
                        nxt.append((s2, vs + [p]))
                else:
                    for s2, v in self.rv(fr, a, s):
                        nxt.append((s2, vs + [v]))
            acc = nxt
        return acc

    def closure_writes(self, vs):
        """locals a closure handed over may change when it runs later"""
        r = []
        for v in vs:
            if not (isinstance(v, tuple) and v and v[0] in ('lam', 'lamg')):
                continue
            fs = (v[1],) if v[0] == 'lam' else tuple(v[1])
            for cp in v[2]:
                if len(cp) == 4 and cp[1] == 'ref' and is_path(cp[2]) and cp[2][0] == 'loc':
                    if any(writes_var(self.P.funcs[f].get('body'), cp[0]) for f in fs if f in self.P.funcs):
                        r.append(cp[2])
        return r

    def opaque_result(self, fr, s, d, obj, vs, line, args, e):
        """uninterpreted call"""
        b = d['b']
        pk = d.get('pk', [])
        const = d.get('const', False)
        outs = [i for i, kd in enumerate(pk) if kd in ('l', 'p') and i < len(vs)]
        # the address of a local given to a variadic function
        outs += [i for i in range(len(pk), len(vs)) if isinstance(vs[i], tuple) and vs[i] and vs[i][0] == 'loc']
        closures = any(isinstance(v, tuple) and v and v[0] in ('lam', 'lamg') for v in vs)
        pure = not outs and not closures and d['ret'] != 'void' and (const or ('cls' not in d) or d.get('static')) and b not in IMPURE
        if any(r.search(b) for r in self.event_re):
            pure = False
        if any(r.search(b) for r in self.pure_re):
            pure = True
        vals = tuple(s.load(v) if (i in outs and is_path(v)) else v for i, v in enumerate(vs))
        objv = None
        if obj is not None:
            objv = obj if obj[0] == 'this' else s.load(obj) if is_path(obj) else obj
        key = ('call', b, ((objv,) if objv is not None else ()) + vals)
        if pure:
            return ('call', b, ((objv,) if objv is not None else ()) + vals, 0)
        n = s.count(key)
        ret = ('call', b, ((objv,) if objv is not None else ()) + vals, n)
        if d['ret'] == 'void':
            ret = VOID
        s.emit(Ev('call', b, obj, tuple(vals), ret, line, fr.file, s.copy(), fr.name, d['id']))
        for i in outs:
            p = vs[i]
            if is_path(p) and p[0] != 'this' and not (i == 0 and HANDLE0.match(b) or i == 1 and HANDLE1.match(b)):
                m = s.count(('ver', p)) + 1
                s.store(p, ('out', ret if ret != VOID else key, i, m))
        if closures:
            for p in self.closure_writes(vs):
                s.store(p, ('ver', p, s.count(('ver', p)) + 1))
        if obj is not None and is_path(obj) and not const and not e.get('p') and obj[0] != 'this':
            m = s.count(('ver', obj)) + 1
            s.store(obj, ('ver', obj, m))
        return ret

    def method(self, fr, e, d, st, want_lv):
        r = []
        if e.get('p'):
            objs = self.rv(fr, e['o'], st)
        else:
            objs = self.lv(fr, e['o'], st)
        for s, o in objs:
            if o == ('noret',):
                continue
            if o[0] == 'some':
                o = o[1]
            tgt = d
            f = self.P.funcs.get(d['id'])
            if e.get('v') and o == fr.this and fr.this and fr.this[0] == 'this' and self.entry_cls and d.get('cb') != self.entry_cls:
                # virtual call on this: the entry class' override
                for g in self.P.byq.get(self.entry_cls + '::' + d['m'], []):
                    if g['id'].split('(', 1)[-1] == d['id'].split('(', 1)[-1]:
                        tgt = self.P.fn[g['id']]
            elif e.get('v') and (f is None) and o[0] == 'this':
                pass
            if e.get('v') and o[0] != 'this' and not any(rx.search(d['b']) for rx in self.inline_re):
                inl = False
            else:
                inl = self.want_inline(fr, tgt)
            if inl:
                if not is_path(o):
                    t = ('loc', 'tmpo', 'tmpo%d' % s.count(('tmpo',)))
                    s.store(t, o)
                    o = t
                for s2, v in self.inline_call(fr, tgt, o, e['a'], s, e['l']):
                    if not want_lv and is_path(v) and tgt['ret'].endswith('&'):
                        v = s2.load(v)
                    r.append((s2, v))
                continue
            for s2, vs in self.argvals(fr, e['a'], s, d.get('pk')):
                ret = self.opaque_result(fr, s2, d, o, vs, e['l'], e['a'], e)
                if d.get('noret'):
                    ret = ('noret',)
                r.append((s2, ret))
        return r

    def function(self, fr, e, d, st, obj, want_lv):
        if d.get('noret'):
            r = []
            for s, vs in self.argvals(fr, e['a'], st, d.get('pk')):
                s.emit(Ev('call', d['b'], None, tuple(vs), None, e['l'], fr.file, None, fr.name))
                r.append((s, ('noret',)))
            return r
        b = d['b']
        if b in ('memcpy', 'memmove'):
            r = []
            for s, vs in self.argvals(fr, e['a'], st, ['v', 'v', 'v']):
                s.emit(Ev('call', 'memcpy', None, tuple(vs), None, e['l'], fr.file, s.copy(), fr.name))
                if is_path(vs[0]):
                    n = s.count(('ver', vs[0])) + 1
                    s.store(vs[0], ('call', 'bytes', (s.load(vs[1]) if is_path(vs[1]) else vs[1], vs[2]), 0))
                r.append((s, vs[0]))
            return r
        if self.want_inline(fr, d):
            r = []
            for s2, v in self.inline_call(fr, d, None, e['a'], st, e['l']):
                if not want_lv and is_path(v) and d['ret'].endswith('&'):
                    v = s2.load(v)
                r.append((s2, v))
            return r
        r = []
        for s, vs in self.argvals(fr, e['a'], st, d.get('pk')):
            r.append((s, self.opaque_result(fr, s, d, None, vs, e['l'], e['a'], e)))
        return r

    # ---------------------------------------------------------- std models
    def pure_std(self, fr, e, d, s, obj, vs):
        objv = ()
        if obj is not None:
            objv = (s.load(obj) if is_path(obj) else obj,)
        return ('call', d['b'], objv + tuple(vs), 0)

    def std_method(self, fr, e, d, st, want_lv):
        from stdmodel import std_method
        return std_method(self, fr, e, d, st, want_lv)

    def std_func(self, fr, e, d, st, want_lv):
        from stdmodel import std_func
        return std_func(self, fr, e, d, st, want_lv)


def last_name(f):
    """the plain name of a function, without scopes and template arguments"""
    f = f.split('@')[0].split('(')[0]
    if f.endswith('>') and not f.endswith('operator>'):
        d = 0
        for i in range(len(f) - 1, -1, -1):
            d += (f[i] == '>') - (f[i] == '<')
            if d == 0:
                f = f[:i]
                break
    return f.split('::')[-1]


def writes_var(n, vid):
    """n contains an assignment to the variable (not to parts of it)"""
    if isinstance(n, list):
        return any(writes_var(x, vid) for x in n)
    if not isinstance(n, dict):
        return False
    op = n.get('op')
    if isinstance(op, str) and n.get('k') in ('op', 'bin', 'un', 'assign') and (op in ('++', '--') or op.endswith('=') and op not in ('==', '!=', '<=', '>=')):
        t = n['a'][0] if isinstance(n.get('a'), list) and n['a'] else n.get('a') or n.get('e') or n.get('l')
        while isinstance(t, dict) and t.get('k') in ('paren', 'cast') and isinstance(t.get('e'), dict):
            t = t['e']
        if isinstance(t, dict) and t.get('k') == 'var' and t.get('id') == vid:
            return True
    if n.get('k') == 'mcall' and isinstance(n.get('o'), dict) and n['o'].get('k') == 'var' and n['o'].get('id') == vid and not n.get('p') \
            and str(n.get('f', '')).startswith('std::') and last_name(str(n['f'])) in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace', 'erase', 'clear', 'assign', 'resize', 'pop_back', 'pop_front', 'push', 'pop', 'append'):
        return True
    return any(writes_var(x, vid) for x in n.values() if isinstance(x, (dict, list)))


def is_const(v):
    return v[0] in ('b', 'i', 'enum', 'none', 'null', 's') or (v[0] == 'some' and is_const(v[1])) or (v[0] == 'var' and is_const(v[2])) \
        or (v[0] == 'uninit')


def killed(z, st, q):
    for it in z.items():
        if it.kind == 'mut' and it.obj == q and it.q in ('erase', 'clear', 'pop_front', 'pop_back', 'resize', 'pop', 'other', 'swap'):
            return True
        if it.kind == 'set' and it.obj == q:
            return True
        if it.kind == 'loop' and any(killed(e2.st, st, q) for e2 in it.edges):
            return True
    return False


def has_kind(n, k, stop=()):
    if isinstance(n, dict):
        if n.get('k') == k:
            return True
        if n.get('k') == 'lambda':
            return False
        for x in n.values():
            if isinstance(x, dict) and x.get('k') in stop and k in ('continue', 'break'):
                continue
            if isinstance(x, (dict, list)) and has_kind(x, k, stop):
                return True
        return False
    if isinstance(n, list):
        return any(has_kind(x, k, stop) for x in n if not (isinstance(x, dict) and x.get('k') in stop and k in ('continue', 'break')))
    return False


def memchain(e):
    while e['k'] == 'cast' and e.get('c') in (None, 'noop') or e['k'] == 'mem' and not e.get('p'):
        e = e['e'] if e['k'] == 'cast' else e['o']
    return e['k'] == 'this' or e['k'] == 'mem' and e['o']['k'] == 'this'


def assigns(n, vid):
    """does the code assign / take a mutable reference of local vid"""
    if isinstance(n, dict):
        k = n.get('k')
        if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') and n['a'].get('id') == vid and n['a']['k'] == 'var':
            return True
        if k == 'un' and n['op'] in ('++', '--', 'post++', 'post--', '&') and n['e'].get('id') == vid and n['e']['k'] == 'var':
            return True
        if k == 'op' and n['op'] in ('=', '++', '--', 'post++', 'post--', '+=', '-=') and n['a'][0].get('id') == vid and n['a'][0]['k'] == 'var':
            return True
        for x in n.values():
            if isinstance(x, (dict, list)) and assigns(x, vid):
                return True
        return False
    if isinstance(n, list):
        return any(assigns(x, vid) for x in n)
    return False


# -------------------------------------------------------------------- paths
class Path:
    __slots__ = ('st', 'ret', 'kind', 'fn', 'line', '_items')

    def __init__(self, st, ret, kind, fn, line=0):
        back = {q: v for q, v in st.gone.items() if v is not None and q not in st.mem}
        if back:
            st.wmem().update(back)
        self.st = st
        self.ret = ret
        self.kind = kind
        self.fn = fn
        self.line = line
        self._items = None

    @property
    def items(self):
        if self._items is None:
            self._items = self.st.items()
        return self._items

    def dump(self, facts=True):
        print('--- %s -> %s' % (self.kind, pp(self.ret)))
        dump_items(self.items, 1)
        if facts:
            print('   facts: ' + '; '.join(('' if v else '!') + pp(k) for k, v in self.st.bools.items()))
            for P, (lo, hi, ne) in self.st.bounds.items():
                print('   %s in [%s,%s]%s' % (ppl(P), lo, hi, (' != ' + str(sorted(ne))) if ne else ''))


def dump_items(items, d):
    for i in items:
        if i.kind == 'loop':
            print('  ' * d + repr(i))
            for e in i.edges:
                print('  ' * (d + 1) + 'edge' + ('*' if e in i.must else '') + ' [' + '; '.join(('' if v else '!') + pp(k) for k, v in e.st.bools.items() if k not in i.st.bools) + ']')
                dump_items(e.items, d + 2)
        else:
            print('  ' * d + repr(i))
