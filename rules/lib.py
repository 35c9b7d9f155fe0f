"""Rule library: obligations over the abstract paths of resolved functions."""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import facts as FX
from terms import *
from interp import Program, Interp, Ev, Loop, Path, State, Unsupported, TooComplex, dump_items

ANY = ('?',)


def V(n):
    return ('?', n)


def PR(fn):
    """wildcard with a predicate"""
    return ('?p', fn)


def F(path, base=THIS):
    p = base
    for n in path.split('.'):
        p = fldterm_(p, n)
    return p


def fldterm_(b, n):
    from interp import fldterm
    return fldterm(b, n)


def A(i, d=0):
    return ('arg', i, d)


def Elem(C, L='?'):
    return ('elem', C, L)


def at(C, k):
    return ('at', C, k)


def Eq(a, b):
    return compare('==', a, b)


def Ne(a, b):
    return neg(compare('==', a, b))


def Lt(a, b):
    return compare('<', a, b)


def Le(a, b):
    return compare('<=', a, b)


def Ge(a, b):
    return neg(compare('<', a, b))


def Gt(a, b):
    return compare('<', b, a)


def In(C, k):
    return ('in', C, k)


def NotIn(C, k):
    return neg(('in', C, k))


def Has(x):
    return ('has', x)


def Is(x, t):
    return ('is', x, t)


def I_(n):
    return n if isinstance(n, tuple) else ('i', n)


def Size(C):
    return ('size', C)


def Empty(C):
    return compare('==', ('size', C), ('i', 0))


class And:
    def __init__(self, *c):
        self.c = c


class Or:
    def __init__(self, *c):
        self.c = c


class Not:
    def __init__(self, c):
        self.c = c


class All:
    """every element of container C satisfies f(x)"""

    def __init__(self, C, f):
        self.C = C
        self.f = f


class Any:
    def __init__(self, C, f):
        self.C = C
        self.f = f


class First:
    """the first of several equivalent formulations that is decided"""

    def __init__(self, *c):
        self.c = c


class InV:
    """k is a member of container C, in whichever version was consulted"""

    def __init__(self, C, k, before=False):
        self.C = C
        self.k = k
        self.before = before    # what this code itself changed does not count

    def eval(self, st):
        first = own = None
        for b, pol in st.bools.items():
            if b[0] != 'in' or not match(self.k, b[2], {}):
                continue
            c = b[1]
            if match(self.C, c, {}) or (c[0] == 'ver' and match(self.C, c[1], {}) and not isinstance(c[2], int)):
                first = pol
            elif c[0] == 'ver' and match(self.C, c[1], {}):
                own = pol
        return own if first is None and not self.before else first


class X:
    """generic element of a loop"""

    def __init__(self, dom, L, own=False):
        C = dom[1]
        if not own and len(dom) > 2 and isinstance(dom[2], tuple):
            C = dom[2]
            while C[0] in ('ver', 'with'):
                C = C[1]
        self.C = C
        self.L = L
        self.e = ('elem', C, L)
        self.i = ('ix', C, L)
        self.k = ('key', C, L)
        self.v = ('at', C, ('key', C, L))

    def at(self, other):
        """same index in a parallel container"""
        return ('at', other, self.i)

    def f(self, n):
        return F(n, self.e)


class Ctx:
    def __init__(self, st, items):
        self.st = st
        self.items = items


def same(C, dom):
    if callable(C):
        return C(dom[1]) or (len(dom) > 2 and C(dom[2]))
    if isinstance(C, (set, list)):
        return any(same(c, dom) for c in C)
    if match(C, dom[1], {}):
        return True
    return len(dom) > 2 and match(C, dom[2], {})


def loops(items, C):
    for it in items:
        if it.kind == 'loop' and it.dom[0] in ('each', 'reach') and same(C, it.dom):
            yield it


def holds(c, ctx):
    """three-valued"""
    if c is True or c is False or c is None:
        return c
    if isinstance(c, tuple):
        if c[0] == 'op' and c[1] in ('&&', '||'):
            return holds((And if c[1] == '&&' else Or)(*c[2]), ctx)
        return ctx.st.known(c)
    if isinstance(c, InV):
        return c.eval(ctx.st)
    if isinstance(c, And):
        r = True
        for x in c.c:
            v = holds(x, ctx)
            if v is False:
                return False
            if v is None:
                r = None
        return r
    if isinstance(c, Or):
        r = False
        for x in c.c:
            v = holds(x, ctx)
            if v is True:
                return True
            if v is None:
                r = None
        return r
    if isinstance(c, First):
        for x in c.c:
            v = holds(x, ctx)
            if v is not None:
                return v
        return None
    if isinstance(c, Not):
        v = holds(c.c, ctx)
        return None if v is None else not v
    if isinstance(c, Any):
        v = holds(All(c.C, lambda x: Not(c.f(x))), ctx)
        return None if v is None else not v
    if isinstance(c, All):
        C = c.C
        if isinstance(C, tuple) and ctx.st.known(compare('==', ('size', C), ('i', 0))):
            return True
        res = None
        for it in loops(ctx.items, C):
            x = X(it.dom, it.L)
            i = ctx.items.index(it)
            tail = ctx.items[i + 1:]
            if it.mode == 'some':
                v = holds(c.f(x), Ctx(ctx.st, tail))
                if v is False:
                    return False
            else:
                if it.must and all(holds(c.f(x), Ctx(e.st, e.items)) is False for e in it.must):
                    return False
                if all(holds(c.f(x), Ctx(e.st, e.items)) is True for e in it.edges):
                    res = True
        # an exit from a first iteration leaves no loop item: look at the
        # facts about a generic element directly
        if res is None:
            seen = set()
            for b in list(ctx.st.bools) + [k for k in ctx.st.bounds]:
                for t in subterms(b) if b and isinstance(b[0], str) else (u for P in b for u in subterms(P[0])):
                    if t[0] in ('elem', 'ix', 'key') and len(t) == 3 and (t[1], t[2]) not in seen:
                        seen.add((t[1], t[2]))
                        dom = ('each', t[1])
                        if same(C, dom) and not any(l.L == t[2] and l.mode == 'all' for l in ctx.items if l.kind == 'loop'):
                            if holds(c.f(X(dom, t[2])), Ctx(ctx.st, ctx.items)) is False:
                                return False
        return res
    if callable(c):
        return c(ctx)
    raise TypeError(c)


def match(p, t, b=None):
    """structural match of pattern p against term t, binding wildcards"""
    if b is None:
        b = {}
    if not isinstance(p, tuple):
        if callable(p):
            return bool(p(t))
        return p == t
    if p and p[0] == '?':
        if len(p) == 1:
            return True
        n = p[1]
        if n in b:
            return b[n] == t
        b[n] = t
        return True
    if p and p[0] == '?p':
        return bool(p[1](t))
    if p == t:
        return True
    if not isinstance(t, tuple) or len(p) != len(t):
        return False
    return all(match(x, y, b) for x, y in zip(p, t))


def find_terms(t, pat):
    """all subterms of t matching pat"""
    return [x for x in subterms(t) if match(pat, x, {})]


def mentions_t(t, pat):
    return any(match(pat, x, {}) for x in subterms(t))


# ------------------------------------------------------------------ effects
class Site:
    __slots__ = ('ev', 'loops', 'prefix', 'st')

    def __init__(self, ev, loops, prefix, st):
        self.ev = ev
        self.loops = loops
        self.prefix = prefix
        self.st = st

    @property
    def ctx(self):
        return Ctx(self.ev.st if getattr(self.ev, 'st', None) is not None else self.st, self.prefix)


def walk(items, st, loops=(), prefix=()):
    """every event, at any loop depth"""
    pre = list(prefix)
    for it in items:
        if it.kind == 'loop':
            for e in it.edges:
                yield from walk(e.items, e.st, loops + ((it, e),), pre)
        else:
            yield Site(it, loops, list(pre), st)
        pre.append(it)


def top(items):
    return [i for i in items if i.kind != 'loop']


class M:
    """event matcher"""

    def __init__(self, fn, name):
        self.fn = fn
        self.name = name

    def __call__(self, ev):
        return self.fn(ev)

    def __or__(self, o):
        return M(lambda ev: self.fn(ev) or o.fn(ev), self.name + ' or ' + o.name)


def qmatch(q, name):
    if isinstance(q, (list, set, tuple)):
        return any(qmatch(x, name) for x in q)
    return name == q or name.endswith('::' + q)


def call(q, obj=None, args=None, kinds=('call',)):
    def fn(ev):
        if ev.kind not in kinds or not qmatch(q, ev.q):
            return False
        if obj is not None and not match(obj, ev.obj, {}):
            return False
        if args is not None:
            if len(args) > len(ev.args):
                return False
            b = {}
            for p, a in zip(args, ev.args):
                if not match(p, a, b):
                    return False
        return True
    return M(fn, 'call ' + (q if isinstance(q, str) else '/'.join(q)))


def invoke(f=None, args=None):
    def fn(ev):
        if ev.kind != 'invoke':
            return False
        if f is not None and not match(f, ev.obj, {}):
            return False
        if args is not None:
            if len(args) > len(ev.args):
                return False
            b = {}
            return all(match(p, a, b) for p, a in zip(args, ev.args))
        return True
    return M(fn, 'invoke ' + (pp(f) if isinstance(f, tuple) else 'callback'))


def sets(path, val=None):
    def fn(ev):
        return ev.kind == 'set' and match(path, ev.obj, {}) and (val is None or match(val, ev.args[0], {}))
    return M(fn, 'write ' + (ppat(path)) + ('' if val is None else ' := ' + ppat(val)))


INS = ('emplace', 'assign', 'insert', 'ensure')


def puts(C, k=None, v=None, kinds=INS):
    """insertion into map/set C at key k (value v)"""
    def fn(ev):
        if ev.kind == 'mut' and ev.q in kinds and match(C, ev.obj, {}):
            if k is not None and not (ev.args and match(k, ev.args[0], {})):
                return False
            if v is not None:
                return len(ev.args) > 1 and match(v, ev.args[1], {})
            return True
        if ev.kind == 'set' and ev.obj[0] == 'at' and match(C, ev.obj[1], {}):
            if k is not None and not match(k, ev.obj[2], {}):
                return False
            return v is None or match(v, ev.args[0], {})
        return False
    return M(fn, 'insert into ' + ppat(C))


def dels(C, k=None):
    def fn(ev):
        if ev.kind != 'mut' or ev.q != 'erase' or not match(C, ev.obj, {}):
            return False
        return k is None or (ev.args and match(k, ev.args[0], {}))
    return M(fn, 'erase from ' + ppat(C))


def push(C, v=None):
    def fn(ev):
        if ev.kind != 'mut' or ev.q not in ('push_back', 'push_front', 'emplace') or not match(C, ev.obj, {}):
            return False
        return v is None or match(v, ev.args[0], {})
    return M(fn, 'append to ' + ppat(C))


def mut(C, kinds=None):
    def fn(ev):
        return ev.kind == 'mut' and match(C, ev.obj, {}) and (kinds is None or ev.q in kinds)
    return M(fn, 'mutate ' + ppat(C))


def touches(base):
    """any write at or below the path"""
    def fn(ev):
        if ev.kind not in ('set', 'mut'):
            return False
        p = ev.obj
        while p is not None:
            if match(base, p, {}):
                return True
            p = parent(p)
        return False
    return M(fn, 'change ' + ppat(base))


def is_call(t, q):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == 'call' and qmatch(q, t[1])


def fcall(t, f, q):
    """member f of the result of a call of q"""
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'fld' and t[2] == f and is_call(t[1], q)


def unver(t):
    while isinstance(t, tuple) and t and t[0] in ('ver', 'with'):
        t = t[1]
    return t


def result(ev):
    """the value a call event returned"""
    if isinstance(ev.ret, tuple) and ev.ret and ev.ret[0] == 'call':
        return ev.ret
    return ('call', ev.q, ((ev.obj,) if ev.obj is not None else ()) + tuple(ev.args), 0)


def empty_list(v):
    return isinstance(v, tuple) and v[0] == 'list' and not v[-1]


def count_var(lp, good):
    """the variable a complete loop increments exactly for good(x) elements,
    starting from 0"""
    x = X(lp.dom, lp.L)
    qs = set()
    for e in lp.edges:
        for v in e.st.mem.values():
            for t in subterms(v):
                if t[0] == 'lv' and t[2] == lp.L:
                    qs.add(t)
    for t in qs:
        q = t[1]
        ok = True
        for e in lp.edges:
            h = holds(good(x), Ctx(e.st, e.items))
            v = e.st.load(q)
            if h is None or v != (l_add(t, ('i', 1)) if h else t):
                ok = False
        if ok and lp.st.load(q) == ('i', 0):
            return t
    return None


ADD = ('append', 'push_back', 'push_front', 'insert', 'emplace', 'ensure', 'assign', 'merge')


def inflow(p, C):
    """what ends up in container C: values, and whole containers (appended,
    or copied by a complete loop)"""
    C = unver(C)
    out = set()

    def go(items):
        for it in items:
            if it.kind == 'loop':
                if it.mode == 'all' and it.dom[0] == 'each' and it.edges:
                    x = X(it.dom, it.L)
                    if all(any(j.kind == 'mut' and unver(j.obj) == C and j.q in ADD and any(a in (x.e, x.k) for a in j.args) for j in e.items) for e in it.edges):
                        out.add(x.C)
                        out.add(it.dom[1])
                for e in it.edges:
                    go(e.items)
            elif it.kind == 'mut' and unver(it.obj) == C and it.q in ADD:
                out.update(it.args)
                if isinstance(it.pre, tuple):
                    out.add(unver(it.pre))
            elif it.kind == 'set' and it.obj == C:
                out.add(it.args[0])
    go(p.items)
    return out


def gets(C, src):
    """all of container src ends up in C"""
    def f(p):
        if any(match(src, t, {}) for c in ({C} if C != ANY else {unver(i.obj) for i in allev(p.items) if i.kind == 'mut'}) for t in inflow(p, c)):
            return None
        return '%s is not added' % ppat(src)
    return f


def allev(items):
    for it in items:
        if it.kind == 'loop':
            for e in it.edges:
                yield from allev(e.items)
        else:
            yield it


def ppat(p):
    try:
        return pp(p)
    except Exception:
        return str(p)


def enc(path, m):
    """sites on the path matching m, any depth"""
    return [s for s in walk(path.items, path.st) if m(s.ev)]


def must(path_items, m):
    """matched on every execution of these items (straight line part)"""
    return [i for i in path_items if i.kind != 'loop' and m(i)]


# expectations over one path: callables (path) -> None or message
def Does(m, n=None):
    def f(p):
        k = len(must(p.items, m))
        if n is None:
            return None if k else 'does not ' + m.name
        return None if k == n else '%s %d times instead of %d' % (m.name, k, n)
    return f


def Never(m):
    def f(p):
        s = enc(p, m)
        return ('must not ' + m.name, s[0].ev) if s else None
    return f


def OnlyIf(m, cond):
    """every matching event happens where cond(site) holds"""
    def f(p):
        for s in enc(p, m):
            c = cond(s) if callable(cond) and not isinstance(cond, (And, Or, Not, All, Any)) else cond
            if holds(c, s.ctx) is not True:
                return ('%s without the required check' % m.name, s.ev)
        return None
    return f


def Each(C, eff, where=None, exact=True):
    """a complete loop over C in which each element satisfying where(x) gets
    eff(x) (and, if exact, no other element does)"""
    def f(p, items=None, st=None):
        items = p.items if items is None else items
        st = p.st if st is None else st
        if isinstance(C, tuple) and st.known(compare('==', ('size', C), ('i', 0))):
            return None
        why = 'no complete loop over %s' % (ppat(C) if isinstance(C, tuple) else 'the container')
        for lp, x in [(lp, X(lp.dom, lp.L, own)) for lp in loops(items, C) for own in (False, True)]:
            if lp.mode != 'all':
                continue
            bad = None
            for e in lp.edges:
                ctx = Ctx(e.st, e.items)
                w = True if where is None else holds(where(x), ctx)
                ms = eff(x)
                ms = ms if isinstance(ms, list) else [ms]
                for m in ms:
                    if isinstance(m, M):
                        got = bool(must(e.items, m))
                        anyw = any(m(s.ev) for s in walk(e.items, e.st))
                        nm = m.name
                    else:
                        r = m(EdgePath(e))
                        got = r is None
                        anyw = got
                        nm = r if isinstance(r, str) else (r[0] if r else 'effect')
                    if w is not False and not got:
                        bad = ('not every qualifying element gets: ' + nm, lp)
                    if exact and w is not True and anyw and where is not None:
                        bad = ('an element that does not qualify gets: ' + nm, lp)
            if bad is None:
                return None
            why = bad
        return why
    return f


def truth(p, v):
    """three-valued: what is known of the boolean v on the path"""
    if v in (TRUE, FALSE):
        return v == TRUE
    return p.st.known(v)


def Returns(m):
    """returns whether the one matching call succeeded (or its result)"""
    def f(p):
        e = enc(p, m)
        if len(e) != 1:
            return '%s %d times' % (m.name, len(e))
        r = result(e[0].ev)
        if p.ret == r or (p.ret in (TRUE, FALSE) and p.st.known(r) is (p.ret == TRUE)):
            return None
        return ('returns %s instead of the result of %s' % (pp(p.ret)[:100], m.name), e[0].ev)
    return f


class EdgePath:
    """an edge of a loop seen as a path"""

    def __init__(self, e):
        self.items = e.items
        self.st = e.st
        self.ret = VOID
        self.kind = 'ret'

    def dump(self):
        Path.dump(self)


def Final(path, val):
    """value of a memory path when the function ends"""
    def f(p):
        v = p.st.load(path)
        if callable(val):
            ok = val(v)
        else:
            ok = match(val, v, {})
        return None if ok else '%s ends as %s' % (pp(path), pp(v)[:200])
    return f


def Same(path):
    def f(p):
        v = p.st.load(path)
        return None if v == path else '%s is changed to %s' % (pp(path), pp(v)[:200])
    return f


def Ret(val):
    def f(p):
        ok = val(p.ret) if callable(val) else match(val, p.ret, {})
        return None if ok else 'returns %s' % pp(p.ret)[:200]
    return f


def Before(a, b):
    """every b is preceded by an a"""
    def f(p):
        for s in enc(p, b):
            if not any(done(i, a) for i in s.prefix):
                return ('%s is not preceded by %s' % (b.name, a.name), s.ev)
        return None
    return f


def done(item, m):
    """item certainly contains an event matching m (a loop: on each edge, at
    least when it iterates)"""
    if item.kind != 'loop':
        return m(item)
    return bool(item.edges) and all(any(done(j, m) for j in e.items) for e in item.edges)


def NotAfter(a, b):
    """no a once b has happened"""
    def f(p):
        for s in enc(p, a):
            if any(anyin(i, b) for i in s.prefix):
                return ('%s after %s' % (a.name, b.name), s.ev)
        return None
    return f


def anyin(item, m):
    if item.kind != 'loop':
        return m(item)
    return any(anyin(j, m) for e in item.edges for j in e.items)


def is_some(v):
    return v[0] == 'some' or v[0] in ('obj', 'list', 'heap', 'new')


class Anchor(Exception):
    """something the rules refer to is not there any more"""


class Unit:
    def __init__(self, name, f, paths, interp, depth=0):
        self.name = name
        self.f = f
        self.paths = paths
        self.I = interp
        self.depth = depth

    @property
    def rets(self):
        return [p for p in self.paths if p.kind == 'ret']

    def __iter__(self):
        return iter(self.rets)


def split_bool(u):
    """case-split boolean results that are not decided on the path"""
    out = []
    for p in u.paths:
        out += split_path(u, p)
    u.paths = out
    return u


def split_path(u, p):
    r = p.ret
    if p.kind != 'ret' or not isinstance(r, tuple):
        return [p]
    if r[0] in ('b', 'void'):
        return [p]
    if r[0] in BOOLOPS or (r[0] == 'op' and r[1] in ('&&', '||')) or p.fn.get('ret') in ('bool', 'std::atomic<bool>'):
        res = []
        for s, b in u.I.split(p.st.copy(), r):
            res.append(Path(s, TRUE if b else FALSE, 'ret', p.fn, p.line))
        return res or [p]
    return [p]


class Check:
    def __init__(self, prop, tier='quick', seed=1):
        self.prop = prop
        self.wrap = False
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.P = Program()
        self.known = KNOWN
        self.asserts = False
        self.obs = 0
        self.ok = 0
        self.viol = []
        self.samples = []
        self.units = {}
        self.functions = set()
        self.paths = 0
        self.tus = []
        self.rules = {}
        self.nsites = 0

    # -- loading
    def load(self, *files):
        files = [f for f in files if f not in self.tus]
        for rel, text, err in FX.extract(files):
            if text is None:
                raise Anchor('cannot analyse %s: %s' % (rel, err[-800:]))
            self.P.load_text(text)
            self.tus.append(rel)
        if self.P.bad:
            raise Anchor('does not parse: ' + ', '.join(self.P.bad))
        FIELDS.apply(self.P)

    def enum(self, q):
        try:
            return self.P.enumval(q)
        except KeyError:
            # an enumeration of a system header: known from its uses
            for f in self.P.funcs.values():
                v = enum_use(f, q)
                if v is not None:
                    return v
            raise Anchor('no enumerator ' + q)

    def field(self, cls, name):
        for t, r in self.P.recs.items():
            if r['q'] == cls or r['q'].endswith('::' + cls):
                if any(f['n'] == name for f in r['fields']):
                    return
        raise Anchor('no field %s::%s' % (cls, name))

    def find(self, q, params=None):
        r = self.P.byq.get(q, [])
        if not r:
            r = [f for k, v in self.P.byq.items() if k.endswith('::' + q) for f in v]
        r = [f for f in r if not f.get('lam')]
        if params is not None:
            r = [f for f in r if params(f)]
        return r

    def fn(self, q, params=None, opaque=None, inline=None, eventful=None, pure=None, split=True, args=None, cap=6000):
        key = (q, id(params), tuple(opaque or ()), tuple(inline or ()), tuple(eventful or ()), tuple(pure or ()))
        if key in self.units:
            return self.units[key]
        fs = self.find(q, params)
        if not fs:
            raise Anchor('function %s is not defined' % q)
        if len(fs) > 1:
            ids = sorted({f['id'] for f in fs})
            raise Anchor('ambiguous function %s: %s' % (q, ids[:4]))
        u = self.unit(fs[0], opaque, inline, eventful, pure, split, args, cap)
        self.units[key] = u
        return u

    def fns(self, q, params=None, **kw):
        """all instantiations / overloads"""
        fs = self.find(q, params)
        if not fs:
            raise Anchor('function %s is not defined' % q)
        return [self.unit(f, **kw) for f in fs]

    def unit(self, f, opaque=None, inline=None, eventful=None, pure=None, split=True, args=None, cap=6000):
        I = Interp(self.P, known=self.known, opaque=opaque, inline=inline, eventful=eventful, pure=pure, pathcap=cap, asserts=self.asserts)
        I.wrap = self.wrap
        try:
            ps = I.run(f, args=args)
        except (Unsupported, TooComplex) as x:
            raise Anchor('%s: %s' % (f['b'], x))
        u = Unit(f['b'], f, ps, I)
        if split:
            split_bool(u)
        self.functions |= I.funcs_seen
        self.paths += len(ps)
        return u

    def closure(self, u, m, arg=None, pick=None, later=True, depth=None, split=True, optional=False):
        """the closure handed over at events matching m, as a unit of its own"""
        seen = {}
        d = depth or u.depth + 1
        for p in u.paths:
            for s in enc(p, m):
                for lam in lams_of(s.ev, arg):
                    if pick and not pick(lam):
                        continue
                    key = (lam, tuple(sorted(s.ev.st.bools.items(), key=repr)), tuple(sorted(s.ev.st.bounds.items(), key=repr)))
                    if key in seen:
                        continue
                    try:
                        ps = u.I.run_closure(lam, st=s.ev.st, later=later, depth=d)
                    except (Unsupported, TooComplex) as x:
                        raise Anchor('closure in %s: %s' % (u.name, x))
                    seen[key] = ps
        if not seen:
            if optional:
                return None
            raise Anchor('%s: no closure passed at %s' % (u.name, m.name))
        allp = [p for ps in seen.values() for p in ps]
        self.paths += len(allp)
        c = Unit(u.name + ' [callback]', u.f, allp, u.I, d)
        if split:
            split_bool(c)
        return c

    def closures(self, u, m, arg=None):
        """(site, unit) for every closure handed over at matching events"""
        n = 0
        for p in u.paths:
            for s in enc(p, m):
                for lam in lams_of(s.ev, arg):
                    n += 1
                    d = u.depth + 1
                    try:
                        ps = u.I.run_closure(lam, st=s.ev.st, later=True, depth=d)
                    except (Unsupported, TooComplex) as x:
                        raise Anchor('closure in %s: %s' % (u.name, x))
                    self.paths += len(ps)
                    yield s, split_bool(Unit(u.name + ' [callback]', u.f, ps, u.I, d))
        if not n:
            raise Anchor('%s: no closure passed at %s' % (u.name, m.name))

    def relay(self, u, rule, m, target, args, n=1, optional=None):
        """the callback handed over at m does exactly: call target(args)"""
        for s, k in self.closures(u, m):
            want = args(s, A(0, k.depth))
            for p in k.rets:
                evs = [x for x in enc(p, call(target))]
                ok = len(evs) == 1 and not evs[0].loops and len(evs[0].ev.args) >= len(want) and all(match(w, a, {}) for w, a in zip(want, evs[0].ev.args))
                why = '' if ok else 'the response is not passed on to %s as it should be' % target
                self.ob(rule, ok, self.where(k, p, ('', evs[0].ev)) if evs else '%s:%d (%s)' % (s.ev.file, s.ev.line, short(u.name)), why, p)

    # -- reporting
    def ob(self, rule, ok, where='', why='', path=None):
        self.obs += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if ok:
            self.ok += 1
            if len(self.samples) < 12 and self.rules[rule] == 1:
                self.samples.append('%s @ %s' % (rule, where))
        else:
            k = (rule, where)
            if not any(v[0] == k for v in self.viol):
                self.viol.append((k, rule, where, why, path))
        return ok

    def where(self, u, p=None, r=None):
        if isinstance(r, tuple) and len(r) > 1 and r[1] is not None and getattr(r[1], 'line', 0):
            return '%s:%d (%s)' % (r[1].file, r[1].line, short(u.name))
        ln = (p.line if p is not None and getattr(p, 'line', 0) else u.f['line'])
        return '%s:%d (%s)' % (u.f['file'], ln, short(u.name))

    def expect(self, u, rule, exps, p):
        """each expectation holds on path p"""
        for e in exps:
            r = e(p)
            if r is None:
                self.ob(rule, True, self.where(u))
            else:
                msg = r if isinstance(r, str) else r[0]
                self.ob(rule, False, self.where(u, p, r), msg, p)

    def every(self, u, rule, *exps, when=None):
        """on every returning path (on which `when` is not refuted)"""
        n = 0
        for p in u.rets:
            if when is not None and holds(when, Ctx(p.st, p.items)) is False:
                continue
            n += 1
            self.expect(u, rule, exps, p)
        if n == 0:
            self.ob(rule, False, self.where(u), 'no path of the function reaches this case')
        return n

    def cases(self, u, rule, cs, total=True, assume=None):
        """cs: [(label, cond, [expectations])].  A path meets the expectations
        of every case it does not refute, and refutes all but some case"""
        hit = [0] * len(cs)
        for p in u.rets:
            ctx = Ctx(p.st, p.items)
            if assume is not None and holds(assume, ctx) is False:
                continue
            live = False
            for i, (label, cond, exps) in enumerate(cs):
                if holds(cond, ctx) is False:
                    continue
                live = True
                hit[i] += 1
                self.expect(u, '%s [%s]' % (rule, label), exps, p)
            if total and not live:
                self.ob(rule, False, self.where(u, p), 'path belongs to no specified case', p)
        for i, (label, cond, exps) in enumerate(cs):
            if not hit[i]:
                self.ob('%s [%s]' % (rule, label), False, self.where(u), 'no path of the function implements this case')

    def guard(self, u, rule, m, cond, need=True, paths=None):
        """every event matching m is reached only where cond is established"""
        n = 0
        for p in (paths or u.paths):
            for s in enc(p, m):
                n += 1
                c = cond(s) if callable(cond) else cond
                ok = holds(c, s.ctx) is True
                self.ob(rule, ok, self.where(u, p, ('', s.ev)), '%s is reached without its guard' % m.name, p)
        if need and n == 0:
            self.ob(rule, False, self.where(u), 'never does: ' + m.name)
        return n

    def locked(self, u, rule, m, mutex, mode=None, need=True):
        """matching events happen with the mutex held"""
        n = 0
        for p in u.paths:
            for s in enc(p, m):
                n += 1
                st = s.ev.st
                ok = st is not None and any(match(mutex, l[0], {}) and (mode is None or l[1] in mode) for l in st.locks)
                self.ob(rule, ok, self.where(u, p, ('', s.ev)), '%s without holding %s' % (m.name, pp(mutex)), p)
        if need and n == 0:
            self.ob(rule, False, self.where(u), 'never does: ' + m.name)

    def unlocked(self, u, rule, m, mutex, need=True):
        n = 0
        for p in u.paths:
            for s in enc(p, m):
                n += 1
                st = s.ev.st
                ok = st is None or not any(match(mutex, l[0], {}) for l in st.locks)
                self.ob(rule, ok, self.where(u, p, ('', s.ev)), '%s while holding %s' % (m.name, pp(mutex)), p)
        if need and n == 0:
            self.ob(rule, False, self.where(u), 'never does: ' + m.name)

    def atomically(self, cls, method, field, mutexes=()):
        """the method uses the shared field in one indivisible access (or only
        under one of the mutexes)"""
        self.field(cls, field)
        fs = self.find(cls + '::' + method)
        if not fs:
            raise Anchor('function %s::%s is not defined' % (cls, method))
        for f in fs:
            I = Interp(self.P, known=self.known, asserts=False)
            I.acc = []
            try:
                I.run(f)
            except (Unsupported, TooComplex) as x:
                raise Anchor('%s: %s' % (f['b'], x))
            free = [a for a in I.acc if a[0][2] == field and not any(l[0] == F(m, a[0][1]) for l in a[1] for m in mutexes)]
            n = len([a for a in I.acc if a[0][2] == field])
            w = '%s:%d (%s)' % (f['file'], f['line'], short(f['b']))
            self.ob('indivisible use of ' + field, n > 0 and (not free or n == 1), w, '%s is used in %d separate accesses' % (field, n))

    # -- lock discipline
    def discipline(self, cls, mutexes, fields, entries=None, skip=(), shared_reads=True, assume=None, **kw):
        """every access to fields (outside constructors/destructors/skip)
        happens with one of the mutexes held; writers hold it exclusively.
        entries: default all methods of the class that are public or virtual,
        and closures they hand over"""
        rule = 'lock discipline of ' + short(cls)
        mm = [F(m) for m in mutexes]
        fs = [f for q, l in self.P.byq.items() for f in l if f.get('cls') and strip_t(f['cls']) == cls and not f.get('lam')]
        if not fs:
            raise Anchor('no methods of ' + cls)
        acc = {}
        for r in self.P.recs.values():
            if strip_t(r['q']) == cls:
                for m in r['methods']:
                    acc[m['id']] = (m['acc'], m['virt'])
                have = {x['n'] for x in r['fields']}
                for n in list(fields) + list(mutexes):
                    if n not in have:
                        raise Anchor('no field %s::%s' % (cls, n))
        seen = set()
        for f in fs:
            m = f['b'].split('::')[-1]
            if m.startswith('~') or m in skip:
                continue
            a, v = acc.get(f['id'], ('private', False))
            if f.get('ctor'):
                pass    # only what the closures it leaves behind do
            elif entries is not None:
                if m not in entries:
                    continue
            elif a == 'private' and not v:
                continue
            I = Interp(self.P, known=self.known, **kw)
            I.acc = []
            try:
                ps = I.run(f)
                if f.get('ctor'):
                    I.acc.clear()
                work = [(p, 0) for p in ps]
                units = [] if f.get('ctor') else list(ps)
                done_l = set()
                while work:
                    p, d = work.pop()
                    for s in walk(p.items, p.st):
                        for lam in lams_of(s.ev, None):
                            if lam[1] in done_l or s.ev.st is None or s.ev.kind == 'wait':
                                continue
                            done_l.add(lam[1])
                            qs = I.run_closure(lam, st=s.ev.st, later=True, depth=d + 1)
                            units += qs
                            work += [(q, d + 1) for q in qs]
            except (Unsupported, TooComplex) as x:
                raise Anchor('%s: %s' % (f['b'], x))
            self.functions |= I.funcs_seen
            self.paths += len(units)
            for q, locks, line, file, fname in I.acc:
                if q[2] not in fields:
                    continue
                base = q[1]
                ok = any(l[0][0] == 'fld' and l[0][1] == base and l[0][2] in mutexes for l in locks)
                if (q, line, file, ok) in seen:
                    continue
                seen.add((q, line, file, ok))
                self.ob(rule, ok, '%s:%d (%s)' % (file, line, short(fname)), '%s is accessed without %s' % (q[2], ' or '.join(mutexes)))
            # writes under a shared lock
            for p in units:
                for s in walk(p.items, p.st):
                    ev = s.ev
                    if ev.kind in ('set', 'mut') and ev.st is not None:
                        q = ev.obj
                        while parent(q) is not None and not (q[0] == 'fld' and q[1][0] == 'this'):
                            q = parent(q)
                        if q[0] == 'fld' and q[1][0] == 'this' and q[2] in fields:
                            ok = any(l[0][0] == 'fld' and l[0][1] == q[1] and l[0][2] in mutexes and l[1] == 'x' for l in ev.st.locks)
                            self.ob(rule, ok, '%s:%d (%s)' % (ev.file, ev.line, short(ev.fn)), '%s is written without exclusive %s' % (q[2], ' or '.join(mutexes)))
        if not seen:
            raise Anchor('no access to %s of %s found' % (fields, cls))


def enum_use(o, q):
    if isinstance(o, dict):
        if o.get('n') == q and 'v' in o:
            return ('enum', q, int(o['v']))
        o = o.values()
    elif not isinstance(o, list):
        return None
    for x in o:
        if isinstance(x, (dict, list)):
            v = enum_use(x, q)
            if v is not None:
                return v
    return None


def lams_of(ev, arg=None):
    r = []
    src = ev.args if arg is None else ([ev.args[arg]] if len(ev.args) > arg else [])
    for a in src:
        for t in subterms(a):
            if t[0] == 'lam':
                r.append(t)
            elif t[0] == 'lamg':
                r += [('lam', x, t[2]) for x in t[1]]
    # a closure inside another closure's captures is not handed over itself
    inner = set()
    for l in r:
        for c in l[2]:
            for t in subterms(c[2]) if len(c) > 2 and isinstance(c[2], tuple) else ():
                if t[0] == 'lam':
                    inner.add(t)
                elif t[0] == 'lamg':
                    inner |= {('lam', x, t[2]) for x in t[1]}
    return [l for l in r if l not in inner]


class FieldTable:
    """follows a plain rename of a private member: a member of the base tree
    that is gone is the one new member of the same type in the class"""

    def __init__(self):
        try:
            self.t = json.load(open(os.path.join(VERIF, 'engine', 'known_fields.json')))
        except FileNotFoundError:
            self.t = {}

    def apply(self, P):
        pass


FIELDS = FieldTable()
KNOWN = set(open(os.path.join(VERIF, 'engine', 'known_functions.txt')).read().split('\n'))

REGISTRY = {}


def prop(pid, **meta):
    def d(f):
        REGISTRY[pid] = (f, meta)
        return f
    return d
