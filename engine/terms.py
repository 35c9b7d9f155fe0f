"""Symbolic-name algebra of the abstract interpreter: access paths, container
facts, linear comparisons.  No constraint solving: everything is a canonical
form plus table look-ups."""
import re

THIS = ('this',)
TRUE = ('b', True)
FALSE = ('b', False)
NONE = ('none',)
NULL = ('null',)
VOID = ('void',)

BOOLOPS = {'le', 'eq', 'has', 'in', 'is', 'not'}
PATHOPS = {'this', 'arg', 'loc', 'glob', 'fld', 'at', 'elem', 'ent', 'heap', 'as', 'out', 'ver', 'deref', 'back', 'front'}

_strip_cache = {}


def strip_t(q):
    """drop template arguments from a qualified name"""
    r = _strip_cache.get(q)
    if r is not None:
        return r
    tail = ''
    m = re.search(r'(^|::)operator(\W.*)$', q)
    head = q
    if m and not re.match(r'operator\s*\w', q[m.start() + len(m.group(1)):]):
        head = q[:m.start(2)]
        tail = m.group(2)
        # operator spelled with <, > or ->: keep it whole
        t2 = re.match(r'(<<=|>>=|<=>|->\*|<<|>>|<=|>=|->|<|>|\(\)|\[\]|[^\w<(]+)', tail)
        if t2:
            tail = t2.group(1)
    out = []
    d = 0
    for ch in head:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    r = ''.join(out) + tail
    _strip_cache[q] = r
    return r


def strip_cv(t):
    t = t.strip()
    while True:
        o = t
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        if t.startswith('const '):
            t = t[6:].strip()
        if t.endswith(' const'):
            t = t[:-6].strip()
        if t == o:
            return t


def param_types(fid):
    """parameter types out of a function id"""
    # last top level (...) group
    i = fid.rfind(')')
    if i < 0:
        return []
    d = 0
    j = i
    while j >= 0:
        if fid[j] == ')':
            d += 1
        elif fid[j] == '(':
            d -= 1
            if d == 0:
                break
        j -= 1
    body = fid[j + 1:i]
    res = []
    d = 0
    cur = ''
    for ch in body:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            res.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return res


def template_args(t):
    """top level template arguments of a type string"""
    i = t.find('<')
    if i < 0:
        return []
    d = 0
    res = []
    cur = ''
    for ch in t[i:]:
        if ch in '<([':
            d += 1
            if d == 1:
                continue
        elif ch in '>)]':
            d -= 1
            if d == 0:
                if cur.strip():
                    res.append(cur.strip())
                return res
        if ch == ',' and d == 1:
            res.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return res


# ---------------------------------------------------------------- linear
def lin(t):
    """(const, {term: coef})"""
    o = t[0]
    if o == 'i':
        return t[1], {}
    if o == 'enum':
        return t[2], {}
    if o == 'b':
        return (1 if t[1] else 0), {}
    if o == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ('i', c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', c, tuple(sorted(d.items(), key=lambda x: repr(x[0]))))


def l_add(a, b, sb=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sb * v
    return mk_lin(ca + sb * cb, d)


def l_mul(a, b):
    if a[0] == 'i':
        a, b = b, a
    if b[0] == 'i':
        c, d = lin(a)
        return mk_lin(c * b[1], {k: v * b[1] for k, v in d.items()})
    a, b = sorted([a, b], key=repr)
    return ('op', '*', (a, b))


def is_num(t):
    return t[0] in ('i', 'lin', 'enum')


def neg(b):
    if b[0] == 'not':
        return b[1]
    if b == TRUE:
        return FALSE
    if b == FALSE:
        return TRUE
    return ('not', b)


def compare(op, a, b):
    """boolean term for a op b"""
    if op == '!=':
        return neg(compare('==', a, b))
    if op == '>':
        return compare('<', b, a)
    if op == '>=':
        return neg(compare('<', a, b))
    if op == '==':
        if a == b and a[0] not in ('flt',):
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y == NONE or y == NULL:
                if x in (NONE, NULL):
                    return TRUE
                if x[0] in ('some', 'obj', 'heap', 'lam'):
                    return FALSE
                return neg(('has', x))
            if y[0] == 'some' and x == NONE:
                return FALSE
            if y[0] == 'end':
                if x[0] == 'find' and x[1] == y[1]:
                    return neg(('in', x[2], x[3]))
                if x[0] == 'it':
                    return FALSE
            if y[0] == 'b':
                return x if y[1] else neg(x)
            if y[0] == 'i' and x[0] in BOOLOPS:
                return x if y[1] == 1 else neg(x) if y[1] == 0 else FALSE
        if a[0] == 's' and b[0] == 's':
            return TRUE if a == b else FALSE
        if a[0] == 'some' and b[0] == 'some':
            return compare('==', a[1], b[1])
        # opt == value
        for x, y in ((a, b), (b, a)):
            if y[0] == 'some':
                y = y[1]
                a, b = x, y
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) - v
    d = {k: v for k, v in d.items() if v}
    c = ca - cb
    if not d:
        if op == '==':
            return TRUE if c == 0 else FALSE
        if op == '<':
            return TRUE if c < 0 else FALSE
        return TRUE if c <= 0 else FALSE
    P = tuple(sorted(d.items(), key=lambda x: repr(x[0])))
    flip = P[0][1] < 0
    if flip:
        P = tuple((k, -v) for k, v in P)
    # original: s*P + c  op 0
    if op == '==':
        return ('eq', P, c if flip else -c)
    if op == '<':
        c += 1
    # s*P + c <= 0
    if flip:  # -P + c <= 0  ->  P >= c  ->  not (P <= c-1)
        return ('not', ('le', P, c - 1))
    return ('le', P, -c)


def root(p):
    while p[0] in ('fld', 'at', 'elem', 'ent', 'as', 'back', 'front', 'deref', 'key', 'ix', 'some', 'ver', 'lv', 'kill', 'with', 'size'):
        p = p[1]
    return p


def parent(p):
    if p[0] in ('fld', 'at', 'elem', 'ent', 'as', 'back', 'front'):
        return p[1]
    return None


def is_path(p):
    return p[0] in ('this', 'arg', 'loc', 'glob', 'fld', 'at', 'elem', 'ent', 'heap', 'as', 'back', 'front', 'it')


def under(p, q):
    """p lies strictly below q"""
    p = parent(p)
    while p is not None:
        if p == q:
            return True
        p = parent(p)
    return False


def mentions(t, pred):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and pred(t):
            return True
        for x in t:
            if isinstance(x, tuple) and mentions(x, pred):
                return True
    elif isinstance(t, frozenset):
        return any(mentions(x, pred) for x in t)
    return False


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def subst(t, f):
    """t with the subterms f gives a value for replaced (rebuilding sums)"""
    if not isinstance(t, tuple) or not t:
        return t
    if isinstance(t[0], str):
        v = f(t)
        if v is not None:
            return v
    if t[0] == 'lin':
        r = ('i', t[1])
        for k, c in t[2]:
            r = l_add(r, l_mul(subst(k, f), ('i', c)))
        return r
    n = tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)
    return n


def short(q):
    q = strip_t(q)
    for p in ('cbdc::parsec::', 'cbdc::', 'std::'):
        if q.startswith(p):
            return q[len(p):]
    return q


def pp(t):
    """readable form"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    o = t[0]
    try:
        if o == 'this':
            return 'this' + ("'" * (t[1] if len(t) > 1 and isinstance(t[1], int) else 0))
        if o == 'arg':
            return '$' + str(t[1]) + "'" * t[2]
        if o == 'loc':
            return '%' + str(t[1])
        if o == 'glob':
            return short(t[1])
        if o in ('i', 's', 'flt'):
            return repr(t[1])
        if o == 'b':
            return str(t[1]).lower()
        if o == 'enum':
            return t[1].split('::')[-1]
        if o in ('none', 'null', 'void'):
            return o
        if o == 'fld':
            return pp(t[1]) + '.' + t[2]
        if o == 'at':
            return pp(t[1]) + '[' + pp(t[2]) + ']'
        if o == 'elem':
            return 'each(' + pp(t[1]) + ')'
        if o == 'ent':
            return pp(t[1]) + '<' + pp(t[2]) + '>'
        if o == 'key':
            return 'key(' + pp(t[1]) + ')'
        if o == 'ix':
            return 'i(' + pp(t[1]) + ')'
        if o == 'rix':
            return 'i[' + pp(t[1]) + '..' + pp(t[2]) + ')'
        if o == 'find':
            return 'find(' + pp(t[1]) + ',' + pp(t[3]) + ')'
        if o == 'ver':
            return pp(t[1]) + '@' + str(t[2])
        if o == 'lv':
            return pp(t[1]) + '~'
        if o == 'some':
            return 'some(' + pp(t[1]) + ')'
        if o == 'obj':
            return short(t[1]) + '{' + ', '.join(f + '=' + pp(v) for f, v in t[2]) + '}'
        if o == 'var':
            return 'alt<' + short(t[1]) + '>(' + pp(t[2]) + ')'
        if o == 'list':
            return '{' + ', '.join(pp(v) for v in t[2]) + '}'
        if o == 'with':
            return pp(t[1]) + '|' + ','.join(''.join('.' + str(s[1]) if s[0] == 'fld' else '[' + pp(s[1]) + ']' for s in k) + '=' + pp(v) for k, v in t[2])
        if o == 'new':
            return 'new ' + short(t[1]) + '(' + ', '.join(map(pp, t[2])) + ')'
        if o == 'call':
            return short(t[1]) + '(' + ', '.join(map(pp, t[2])) + ')' + ('#%d' % t[3] if t[3] else '')
        if o == 'op':
            return '(' + t[1].join(map(pp, t[2])) + ')' if len(t[2]) > 1 else t[1] + pp(t[2][0])
        if o == 'lin':
            return '(' + '+'.join(('%d*' % k if k != 1 else '') + pp(x) for x, k in t[2]) + ('%+d' % t[1] if t[1] else '') + ')'
        if o == 'size':
            return '|' + pp(t[1]) + '|'
        if o == 'not':
            return '!' + pp(t[1])
        if o == 'le':
            return ppl(t[1]) + '<=' + str(t[2])
        if o == 'eq':
            return ppl(t[1]) + '==' + str(t[2])
        if o == 'has':
            return 'has(' + pp(t[1]) + ')'
        if o == 'in':
            return pp(t[2]) + ' in ' + pp(t[1])
        if o == 'is':
            return pp(t[1]) + ' is ' + short(t[2])
        if o == 'as':
            return pp(t[1]) + '.as<' + short(t[2]) + '>'
        if o == 'lam':
            return 'lambda@' + t[1].split('lambda@')[-1].split('(')[0]
        if o == 'cast':
            return '(' + t[1] + ')' + pp(t[2])
    except Exception:
        pass
    return '(' + ' '.join(pp(x) if isinstance(x, tuple) else str(x) for x in t) + ')'


def ppl(P):
    return '+'.join(('%d*' % k if k not in (1, -1) else '-' if k == -1 else '') + pp(x) for x, k in P)
