"""Wire formats: what is written is what is read (Z01), and decoding stays
within the data that is there (Z02)."""
import astq
import facts as FXF
from lib import *

OPQ = ['operator<<', 'operator>>', 'get_variant', 'expand_type']
SER = 'cbdc::serializer &,'
SIZES = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'std::byte': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
         'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8}
SKIP = ('cbdc::rlp_value',)
# bookkeeping of a running transaction, no part of the stored account
TRANSIENT = {'cbdc::parsec::agent::runner::evm_account': ('m_modified', 'm_destruct')}


def typ(c, t):
    t = t.replace('&', '').strip()
    if t.startswith('const '):
        t = t[6:]
    return c.P.alias.get(t, t)


def etyp(c, ev):
    """the type an event of operator<< / >> transfers"""
    s = ev.fid.split(SER, 1)
    if len(s) != 2:
        return None
    s = s[1]
    return typ(c, s[:s.rindex(',)')])


def dirn(q):
    return q[14:16] if q.startswith('cbdc::operator<<') or q.startswith('cbdc::operator>>') else None


def ops(c):
    """{type: {'<<': function, '>>': function, 'ctor': function}}"""
    T = {}
    for f in c.P.funcs.values():
        ps = f.get('params') or []
        if len(ps) == 2 and ps[0]['t'] == 'cbdc::serializer &' and dirn(f['q']):
            T.setdefault(typ(c, ps[1]['t']), {})[dirn(f['q'])] = f
    for f in c.P.funcs.values():
        ps = f.get('params') or []
        if len(ps) == 1 and ps[0]['t'] == 'cbdc::serializer &' and f['q'].split('<')[0].rsplit('::', 1)[-1] == f['q'].split('<')[0].rsplit('::', 2)[-2]:
            T.setdefault(f['q'].rsplit('::', 1)[0], {})['ctor'] = f
    return T


def strip(t):
    while True:
        if t[0] in ('cast', 'ver') or t[0] == 'deref':
            t = t[2] if t[0] == 'cast' else t[1]
        else:
            return unver(t)


def field_of(t, base):
    """name of base's field whose value t is"""
    t = strip(t)
    n = []
    while t[0] == 'fld':
        n.append(t[2])
        t = strip(t[1])
    return '.'.join(reversed(n)) if t == base and n else ('*' if t == base else None)


def wsize(c, t):
    if t in SIZES:
        return SIZES[t]
    e = c.P.enums.get(t)
    if e:
        return SIZES.get(e.get('under'))
    return None


def same_wire(c, a, b):
    if a == b:
        return True
    if a is None or b is None:
        return False
    x, y = wsize(c, a), wsize(c, b)
    return x is not None and x == y


def put(c, p, base):
    """what a path writes: [(type, source)]"""
    r = []
    for e in allev(p.items):
        if e.kind == 'call' and dirn(e.q) == '<<' and 'serializer' in str(e.fid):
            r.append((etyp(c, e), field_of(e.args[1], base), e.args[1], e))
        elif e.kind == 'call' and e.q.endswith('serializer::write'):
            r.append((('raw', e.args[1]), field_of(data_of(e.args[0]), base), e.args[0], e))
    return r


def data_of(t):
    t = strip(t)
    while t[0] == 'at' and t[2] == ('i', 0):
        t = strip(t[1])
    return t


def read(c, p, base, fields):
    """what a path reads: [(type, target)]"""
    r = []
    fin = {}
    for x in fields:
        fin[x] = p.st.load(F(x, base))
    held = p.st.mem
    for e in allev(p.items):
        if e.kind == 'call' and dirn(e.q) == '>>' and 'serializer' in str(e.fid):
            got = lambda t: t[0] == 'out' and t[1] == e.ret and t[2] == 1
            r.append((etyp(c, e), target(e.args[1], base, fin, got, held), e))
        elif e.kind == 'call' and plain_name(e.q) == 'get_variant':
            t = 'std::variant<' + e.fid[e.fid.index('<') + 1:e.fid.rindex('>(')] + '>'
            r.append((t, target(None, base, fin, lambda t: t == e.ret, held), e))
        elif e.kind == 'call' and e.q.endswith('serializer::read'):
            got = lambda t: t[0] == 'out' and t[1] == e.ret and t[2] == 1
            r.append((('raw', e.args[1]), target(data_of(e.args[0]), base, fin, got, held), e))
    return r


def plain_name(q):
    return q.split('<')[0].rsplit('::', 1)[-1]


def target(arg, base, fin, got, held):
    for x, v in fin.items():
        v = strip(v)
        if got(v):
            return x
        if v[0] in ('some', 'mk') and got(strip(v[1])):
            return x
        if v[0] == 'heap':
            for p, w in held.items():
                if w != v and got(strip(w)) and any(y == v for y in subterms(p)):
                    return x
    if arg is not None:
        return field_of(arg, base)
    return None


def names(c, t):
    r = c.P.recs.get(t)
    if r is None:
        return None
    n = [f['n'] for f in r['fields']]
    for b in r.get('bases') or []:
        n += names(c, b if isinstance(b, str) else b.get('t', '')) or []
    return n


def complete(u, reads):
    """paths on which nothing failed; the others stop after a failed read"""
    n = max((len(reads(p)) for p in u.rets), default=0)
    return [p for p in u.rets if len(reads(p)) == n and not failed(p)], [p for p in u.rets if failed(p)]


def failed(p):
    return any(v is False and is_call(b, 'operator bool') or v is False and is_call(b, 'serializer::read') for b, v in p.st.bools.items())


def records(c, T, rule):
    n = 0
    for t in sorted(T):
        d = T[t]
        if t.startswith('std::') or t in SIZES or t in SKIP or t in c.P.enums or t in ('cbdc::buffer', SNAP, CMD):
            continue
        fields = names(c, t)
        if '<<' not in d or not ('>>' in d or 'ctor' in d):
            continue
        fields = [x for x in fields or [] if x not in TRANSIENT.get(t, ())]
        w = c.unit(d['<<'], opaque=OPQ)
        for k in ('>>', 'ctor'):
            if k not in d:
                continue
            r = c.unit(d[k], opaque=OPQ)
            base = A(1) if k == '>>' else THIS
            n += 1
            pair(c, rule, t, fields, w, r, base)
    return n


def pair(c, rule, t, fields, w, r, base, wbase=A(1)):
    wp = [put(c, p, wbase) for p in w.rets]
    c.ob(rule, len({tuple((a, b) for a, b, *_ in x) for x in wp}) == 1, c.where(w), 'what is written depends on the value', w.rets[0])
    wr = wp[0]
    good, bad = complete(r, lambda p: read(c, p, base, fields))
    c.ob(rule, bool(good), c.where(r), 'never decodes')
    for p in good:
        rd = read(c, p, base, fields)
        if len(rd) == 1 and rd[0][0] == t and rd[0][1] in ('*', None) and strip(rd[0][2].args[1]) == base:
            c.ob(rule, True, c.where(r, p))     # decodes itself with the operator
            continue
        why = None
        if len(rd) != len(wr):
            why = '%d values are written and %d are read' % (len(wr), len(rd))
        else:
            for i, (a, b) in enumerate(zip(wr, rd)):
                if a[0] != b[0] and not same_raw(a[0], b[0]) and not (isinstance(a[0], str) and isinstance(b[0], str) and same_wire(c, a[0], b[0])):
                    why = 'value %d is written as %s and read as %s' % (i + 1, shown(a[0]), shown(b[0]))
                elif a[1] != b[1] and not (a[1] is None and b[1] is None and konst(a[2])):
                    why = 'value %d is written from %s and read into %s' % (i + 1, a[1] or 'a computed value', b[1] or 'nothing')
                if why:
                    break
            if not why:
                left = [x for x in fields if not any(a[1] and a[1].split('.')[0] == x for a in wr)]
                if left and not any(a[1] == '*' for a in wr):
                    why = 'not transferred: ' + ', '.join(left)
            if not why:
                for x in fields:
                    v = strip(p.st.load(F(x, base)))
                    if v[0] not in ('out', 'heap', 'some', 'mk', 'with', 'arg', 'fld', 'call'):
                        why = '%s does not keep the value read' % x
        c.ob(rule, not why, c.where(r, p), '%s: %s' % (t.replace('cbdc::', ''), why or ''), p)


def konst(t):
    t = strip(t)
    return t[0] in ('i', 'b', 'zero') or t == ('obj', 'std::monostate', ())


def same_raw(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a[1] == b[1]
    return False


def shown(t):
    return t if isinstance(t, str) else '%s raw bytes' % pp(t[1])


SNAP = 'cbdc::atomizer::state_machine::snapshot'
CMD = 'cbdc::coordinator::state_machine::sm_command'


# ---------------------------------------------------------------- containers

def targs(t):
    """template arguments of a type name"""
    i = t.index('<')
    r, d, s = [], 0, i + 1
    for j in range(i, len(t)):
        ch = t[j]
        d += ch in '<(' 
        d -= ch in '>)'
        if d == 1 and ch == ',' or d == 0:
            r.append(t[s:j].strip())
            s = j + 1
        if d == 0:
            return r
    return r


def outs_of(e):
    return lambda t: strip(t)[0] == 'out' and strip(t)[1] == e.ret and strip(t)[2] == 1


def readable(st, e):
    """the read e is known to have succeeded"""
    return any(v is True and is_call(b, 'operator bool') and any(x[0] == 'out' and x[1] == e.ret for x in subterms(b)) for b, v in st.bools.items())


def writes(items):
    return [e for e in items if e.kind == 'call' and dirn(e.q) == '<<' or e.kind == 'call' and e.q.endswith('serializer::write')]


def reads_(items):
    return [e for e in items if e.kind == 'call' and (dirn(e.q) == '>>' or e.q.endswith('serializer::read') or plain_name(e.q) in ('get_variant', 'expand_type'))]


def is_size(t, base):
    t = strip(t)
    return t == ('size', base) or is_call(t, 'size') and strip(t[2][0]) == base


def enc_container(c, t, u, elems):
    """the count, then every element"""
    why = None
    for p in u.rets:
        w = writes(p.items)
        ls = [i for i in p.items if i.kind == 'loop']
        if len(w) != 1 or not is_size(w[0].args[1], A(1)) or wsize(c, etyp(c, w[0])) != 8:
            why = 'does not start with the number of elements in 8 bytes'
        elif len(ls) != 1 or ls[0].mode != 'all' or p.items.index(w[0]) > p.items.index(ls[0]):
            why = 'does not write all the elements'
        else:
            lp = ls[0]
            if not (lp.dom[0] == 'each' and strip(lp.dom[1]) == A(1)):
                why = 'does not go over all the elements'
            for e in lp.edges:
                ww = writes(allev(e.items))
                if len(ww) != len(elems) or len(e.items) != len(ww):
                    why = 'not exactly one value written per element'
                elif any(not same_wire(c, etyp(c, x), k) for x, k in zip(ww, elems)):
                    why = 'writes another type than it reads'
                else:
                    for i, x in enumerate(ww):
                        v = strip(x.args[1])
                        if not part_of(v, lp, i, len(elems)):
                            why = 'writes %s for an element' % pp(v)
    c.ob('container', not why, c.where(u), '%s: %s' % (short_t(t), why or ''), u.rets[0])


def part_of(v, lp, i, n):
    x = X(lp.dom, lp.L)
    return v == x.e if n == 1 else v == (x.k, x.v)[i]


def short_t(t):
    return t.replace('cbdc::', '').replace('std::', '')[:90]


def dec_container(c, t, u, elems):
    why = path = None
    done_ = 0
    for p in u.rets:
        rd = reads_(p.items)
        if not rd or wsize(c, etyp(c, rd[0])) != 8:
            why = 'does not start with the number of elements in 8 bytes'
            break
        n = ('out', rd[0].ret, 1, 1)
        ln = next((x for x in subterms_all(p) if x[0] == 'out' and x[1] == rd[0].ret and x[2] == 1), n)
        for lp, e in edges(p.items):
            ins = [i for i in e.items if i.kind == 'mut' and unver(i.obj) == A(1) and i.q in ('push_back', 'emplace_back', 'emplace', 'insert')]
            er = reads_(e.items)
            if not ins:
                if er:
                    why, path = 'reads an element it does not keep', p
                continue
            if len(ins) != 1:
                why, path = 'adds %d elements at a time' % len(ins), p
                continue
            got = flat_args(ins[0].args)
            if len(got) == 1 and made_from(got[0], elems[0]):
                pass
            elif len(got) != len(elems) or len(er) != len(elems):
                why, path = 'does not add exactly the values it read', p
            else:
                for g, x, k in zip(got, er, elems):
                    if not outs_of(x)(g):
                        why, path = 'adds %s' % pp(g), p
                    elif etyp(c, x) != k:
                        why, path = 'reads another type than it writes', p
                    elif not readable(e.st, x):
                        why, path = 'adds a value whose reading may have failed', p
            if not bounded(e, ln, lp):
                why, path = 'reads more elements than announced', p
        if not failed(p):
            if [e for e in p.items if e.kind == 'call' and e.q.endswith('set_failed')]:
                continue
            done_ += 1
            if any(l.mode != 'all' for l in p.items if l.kind == 'loop') or not reached(p, ln):
                why, path = 'may stop before all the elements are read', p
    c.ob('container', not why and done_ > 0, c.where(u, path), '%s: %s' % (short_t(t), why or 'never decodes'), path)


def flat_args(a):
    r = []
    for x in a:
        x = strip(x)
        if x[0] == 'obj' and x[1].startswith('pair'):
            r += [v for _, v in x[2]]
        elif x[0] == 'pair':
            r += list(x[1:])
        else:
            r.append(x)
    return r


def made_from(t, k):
    return t[0] == 'new' and str(t[1]).endswith(k.replace('cbdc::', '')) or is_call(t, k)


def edges(items):
    for i in items:
        if i.kind == 'loop':
            for e in i.edges:
                yield i, e
                yield from edges(e.items)


def subterms_all(p):
    for P in p.st.bounds:
        for t, _ in P:
            yield from subterms(t)
    for b in p.st.bools:
        yield from subterms(b)
    for i in p.items:
        if i.kind == 'loop' and i.dom:
            yield from subterms(i.dom)


def at_most(t, ln):
    return t == ln or is_call(t, 'min') and ln in t[2]


def bounded(e, ln, lp):
    """elements are added only while there are fewer than announced"""
    if lp.dom and lp.dom[0] == 'range' and lp.dom[1] == ('i', 0) and lp.dom[2] == ln:
        return True
    for P, (lo, hi, ne) in e.st.bounds.items():
        d = dict(P)
        if len(d) != 2:
            continue
        (a, x), (b, y) = d.items()
        for s, i, j, k in ((a, x, b, y), (b, y, a, x)):
            if s[0] == 'size' and strip(s[1]) == A(1) and at_most(j, ln) and i == -k:
                # i*(size - bound) in [lo, hi]
                if (hi is not None and hi <= -1) if i == 1 else (lo is not None and lo >= 1):
                    return True
    return False


def reached(p, ln):
    """there are as many elements as announced"""
    if any(i.kind == 'loop' and i.dom and i.dom[0] == 'range' and i.dom[1] == ('i', 0) and i.dom[2] == ln and i.mode == 'all' for i in p.items):
        return True
    for P, (lo, hi, ne) in p.st.bounds.items():
        d = dict(P)
        if len(d) != 2 or ln not in d:
            continue
        (o, x), = [(k, v) for k, v in d.items() if k != ln]
        if x == -d[ln] and ((lo is not None and lo >= 0) if x == 1 else (hi is not None and hi <= 0)):
            if o[0] == 'size' and strip(o[1]) == A(1) or o[0] == 'lv' and filled(p, o, ln):
                return True
    return False


def filled(p, o, ln):
    """the counter o only grows to a size that has been filled up"""
    for lp in [i for i in p.items if i.kind == 'loop']:
        if lp.L != o[2]:
            continue
        if lp.st.load(o[1]) not in (('i', 0),):
            return False
        for e in lp.edges:
            v = e.st.load(o[1])
            inner = [i for i in e.items if i.kind == 'loop']
            if not at_most(v, ln) or len(inner) != 1 or inner[0].mode != 'all':
                return False
            if not ends_with(e.st, v):
                return False
        return True
    return False


def ends_with(st, v):
    """the container has at least v elements"""
    for P, (lo, hi, ne) in st.bounds.items():
        d = dict(P)
        if len(d) == 2 and v in d:
            (o, x), = [(k, w) for k, w in d.items() if k != v]
            if o[0] == 'size' and strip(o[1]) == A(1) and x == -d[v] and ((lo is not None and lo >= 0) if x == 1 else (hi is not None and hi <= 0)):
                return True
    return False


def containers(c, T):
    n = 0
    for t in sorted(T):
        d = T[t]
        k = t.split('<')[0]
        if k not in ('std::vector', 'std::set', 'std::unordered_set', 'std::unordered_map', 'std::map'):
            continue
        a = targs(t)
        el = [typ(c, x) for x in (a[:2] if 'map' in k else a[:1])]
        if '<<' in d:
            n += 1
            enc_container(c, t, c.unit(d['<<'], opaque=OPQ), el)
        if '>>' in d:
            n += 1
            dec_container(c, t, c.unit(d['>>'], opaque=OPQ), el)
    return n


OK = lambda e: ('call', 'cbdc::serializer::operator bool', ANY, ANY)


def scalars(c, T):
    """values of fixed size: as many bytes as the value has"""
    n = 0
    for t in sorted(T):
        d = T[t]
        arr = t.startswith('std::array<')
        if not (t in SIZES or arr or t in c.P.enums or t in ('evmc::address', 'evmc::bytes32')):
            continue
        size = SIZES.get(t)
        if arr:
            a = targs(t)
            size = int(a[1].rstrip('UL')) * SIZES.get(a[0], 0)
        size = {'evmc::address': 20, 'evmc::bytes32': 32}.get(t, size)
        for k in ('<<', '>>'):
            if k not in d:
                continue
            n += 1
            u = c.unit(d[k], opaque=OPQ)
            why = None
            for p in u.rets:
                ev = [e for e in p.items if e.kind == 'call' and e.q.endswith(('serializer::write', 'serializer::read')) or e.kind == 'call' and dirn(e.q)]
                if len(ev) != 1:
                    why = 'transfers %d values' % len(ev)
                    continue
                e = ev[0]
                val = data_of(e.args[0]) if e.q.startswith('cbdc::serializer::') else strip(e.args[1])
                if val[0] == 'fld' and val[2] in ('bytes', '_M_elems'):
                    val = val[1]
                if e.q.endswith(('::write', '::read')):
                    if dirn(d[k]['q']) != {'write': '<<', 'read': '>>'}[e.q.rsplit('::', 1)[1]]:
                        why = 'wrong direction'
                    elif e.args[1] != ('i', size) or val != A(1):
                        why = '%s bytes of %s' % (pp(e.args[1]), pp(val))
                elif dirn(e.q) != k or wsize(c, etyp(c, e)) != wsize(c, t):
                    why = 'transferred as %s' % etyp(c, e)
                elif k == '<<' and val != A(1):
                    why = 'writes %s' % pp(val)
                elif k == '>>' and readable(p.st, e) and not outs_of(e)(p.st.load(A(1))):
                    why = 'the value read is not kept'
            c.ob('scalar', not why, c.where(u), '%s: %s' % (short_t(t), why or ''), u.rets[0])
    return n


def choices(c, T):
    """optional, pair, variant"""
    n = 0
    for t in sorted(T):
        d = T[t]
        k = t.split('<')[0]
        if k not in ('std::optional', 'std::pair', 'std::variant'):
            continue
        a = [typ(c, x) for x in targs(t)]
        w = c.unit(d['<<'], opaque=OPQ) if '<<' in d else None
        r = c.unit(d['>>'], opaque=OPQ) if '>>' in d else None
        for u in (w, r):
            n += u is not None
        if k == 'std::optional':
            if w:
                for p in w.rets:
                    x = writes(p.items)
                    has = truth(p, ('has', A(1)))
                    ok = x and x[0].args[1] == ('has', A(1)) and wsize(c, etyp(c, x[0])) == 1 and has is not None and len(x) == 1 + has and (not has or strip(x[1].args[1]) in (A(1), ('val', A(1))) and etyp(c, x[1]) == a[0])
                    c.ob('optional', ok, c.where(w, p), '%s is not written as a flag and the value, if any' % short_t(t), p)
            if r:
                for p in r.rets:
                    x = reads_(p.items)
                    if failed(p):
                        continue
                    ok = x and wsize(c, etyp(c, x[0])) == 1
                    flag = [v for b, v in p.st.bools.items() if b[0] == 'out' and b[1] == x[0].ret and b[2] == 1] if ok else []
                    ok = ok and len(flag) == 1 and len(x) == 1 + flag[0]
                    v = p.st.load(A(1))
                    if ok and flag[0]:
                        ok = v[0] == 'some' and outs_of(x[1])(v[1]) and etyp(c, x[1]) == a[0]
                    elif ok:
                        ok = v == NONE
                    c.ob('optional', ok, c.where(r, p), '%s is not read as a flag and the value, if any' % short_t(t), p)
        elif k == 'std::pair':
            if w:
                for p in w.rets:
                    x = writes(p.items)
                    c.ob('pair', [etyp(c, e) for e in x] == a and [strip(e.args[1]) for e in x] == [F('first', A(1)), F('second', A(1))], c.where(w, p), '%s is not written as its first and second value' % short_t(t), p)
            if r:
                for p in r.rets:
                    x = reads_(p.items)
                    if failed(p):
                        continue
                    ok = [etyp(c, e) for e in x] == a
                    for e, f in zip(x, ('first', 'second')):
                        ok = ok and outs_of(e)(fld_val(p.st, A(1), f))
                    c.ob('pair', ok, c.where(r, p), '%s is not read as its first and second value' % short_t(t), p)
        else:
            if w:
                alts = []
                for p in w.rets:
                    x = writes(p.items)
                    ok = len(x) == 2 and is_call(strip(x[0].args[1]), 'index') and strip(x[0].args[1])[2][0] == A(1) and wsize(c, etyp(c, x[0])) == 1
                    v = strip(x[1].args[1]) if ok else None
                    ok = ok and v[0] == 'as' and v[1] == A(1) and carries(c, etyp(c, x[1]), typ(c, v[2]))
                    if ok:
                        alts.append(typ(c, v[2]))
                    c.ob('variant', ok, c.where(w, p), '%s is not written as its index and value' % short_t(t), p)
                c.ob('variant', sorted(set(alts)) == sorted(set(a)), c.where(w), '%s: not all alternatives are written' % short_t(t))
            if r:
                alts = []
                for p in r.rets:
                    x = [e for e in reads_(p.items) if dirn(e.q)]
                    if not x or failed(p) or len(x) < 2:
                        continue
                    v = x[1].args[1]
                    ok = wsize(c, etyp(c, x[0])) == 1 and len(x) == 2 and v[0] == 'as' and picks(v[1], x[0]) and carries(c, etyp(c, x[1]), typ(c, v[2]))
                    if ok:
                        alts.append(typ(c, v[2]))
                    c.ob('variant', ok, c.where(r, p), '%s is not read as its index and value' % short_t(t), p)
                c.ob('variant', sorted(set(alts)) == sorted(set(a)), c.where(r), '%s: not all alternatives are read' % short_t(t))
    return n


def carries(c, op, t):
    """the operator for op transfers all of a t"""
    if op == t:
        return True
    a, b = names(c, op), names(c, t)
    return a is not None and a == b and based(c, t, op)


def based(c, t, b):
    r = c.P.recs.get(t)
    if r is None:
        return False
    bs = [x if isinstance(x, str) else x.get('t', '') for x in r.get('bases') or []]
    return b in bs or any(based(c, x, b) for x in bs)


def fld_val(st, base, n):
    v = st.load(base)
    if v[0] == 'obj':
        return dict(v[2]).get(n, NONE)
    return st.load(F(n, base))


def picks(t, idx):
    """the alternative with the index just read"""
    return is_call(t, 'expand_type') and outs_of(idx)(t[2][0])


def tables(c):
    """expand_type and get_variant: the i-th alternative for index i"""
    n = 0
    for f in c.P.funcs.values():
        if plain_name(f['q']) not in ('expand_type', 'get_variant') or f.get('lam') or 'lambda@' in f['id'] or not f.get('body'):
            continue
        alts = targs(f['id'][f['id'].index('<'):f['id'].rindex('>(') + 1])
        tab = []

        def go(o):
            if isinstance(o, dict):
                if o.get('k') == 'decl' and o.get('static') and 'array' in str(o.get('t')):
                    a = (o.get('init') or {}).get('a') or []
                    tab.append([x for x in (a[0].get('a') if len(a) == 1 and a[0].get('k') == 'init' else a)])
                for v in o.values():
                    go(v)
            elif isinstance(o, list):
                for v in o:
                    go(v)
        go(f['body'])
        if plain_name(f['q']) == 'get_variant' and not tab:
            u = c.unit(f, opaque=OPQ)
            for p in u.rets:
                x = reads_(p.items)
                c.ob('variant', len(x) == 1 and outs_of(x[0])(p.ret), c.where(u, p), 'get_variant does not return the variant it reads', p)
            n += 1
            continue
        if not tab:
            continue
        n += 1
        c.functions.add(f['b'])
        c.ob('variant', len(tab) == 1 and len(tab[0]) == len(alts), '%s:%s' % (f.get('file', ''), f.get('line', '')), '%s has %d entries for %d alternatives' % (short_t(f['b']), len(tab[0]), len(alts)))
        sub = [g for g in c.P.funcs.values() if g['id'].startswith(f['id'] + '::lambda@')]
        for g in sub:
            u = c.unit(g, opaque=OPQ)
            for p in u.rets:
                c.ob('variant', p.ret[0] == 'var' and typ(c, p.ret[1]) in [typ(c, x) for x in alts], c.where(u, p), 'the table does not produce an alternative', p)
    return n


def whole(c):
    """make_buffer and from_buffer"""
    n = 0
    for f in list(c.P.funcs.values()):
        q = plain_name(f['q'])
        if q not in ('make_buffer', 'make_shared_buffer', 'from_buffer', 'serialized_size') or f.get('lam') or not f.get('body') or 'nuraft' in f['id'] and q != 'make_buffer' and False:
            continue
        u = c.unit(f, opaque=OPQ + ['serialized_size'] if q != 'serialized_size' else OPQ)
        n += 1
        for p in u.rets:
            k = [e for e in allev(p.items) if e.kind == 'call' and dirn(e.q)]
            one = len(k) == 1 and any('_serializer' in str(x[1]) for x in subterms(k[0].args[0]) if x[0] in ('new', 'mk', 'obj', 'call'))
            if q == 'from_buffer':
                ok = one and dirn(k[0].q) == '>>' and mentions_t(k[0].args[0], A(0))
                good = ok and readable(p.st, k[0])
                why = 'does not return what it reads from the buffer, and nothing when that fails'
                ok = ok and (p.ret == NONE and failed(p) or good and outs_of(k[0])(p.ret[1] if p.ret[0] == 'some' else p.ret))
            else:
                ok = one and dirn(k[0].q) == '<<' and strip(k[0].args[1]) == A(0)
                why = 'does not consist of the serialized value'
                if ok and q != 'serialized_size':
                    room = [e for e in p.items if e.kind == 'call' and any(is_call(x, 'serialized_size') and strip(x[2][0]) == A(0) for a in e.args for x in subterms(a))]
                    ok = len(room) >= 1 and not [e for e in p.items if e.kind == 'call' and e.line > k[0].line and e.q.endswith(('extend', 'append', 'clear'))]
                elif ok:
                    ok = is_call(p.ret, 'size_serializer::size') and mentions_t(p.ret, k[0].ret)
            c.ob('conversion', ok, c.where(u, p), '%s: %s' % (short_t(f['b']), why), p)
    return n


CUR, PKT, VALID = F('m_cursor'), F('m_pkt'), F('m_valid')
MEMCPY = M(lambda e: e.kind == 'call' and e.q.rsplit('::', 1)[-1] == 'memcpy', 'copy')


def copies(to, frm, n):
    """one copy of n bytes"""
    def f(p):
        e = must(p.items, MEMCPY)
        if len(e) != 1:
            return 'does not copy the bytes exactly once'
        a = e[0].args
        for x, y, w in ((a[0], to, 'to'), (a[1], frm, 'from')):
            if not y(strip(x)):
                return ('copies %s %s' % (w, pp(x)), e[0])
        return None if a[2] == n else ('copies %s bytes' % pp(a[2]), e[0])
    return f


def must(items, m):
    return [e for e in allev(items) if m(e)]


def arg_(i):
    return lambda t: t == A(i)


def at_cursor(t):
    return is_call(t, 'buffer::data_at') and strip(t[2][0]) == PKT and t[2][1] == CUR


def serializers_out(c):
    B = 'cbdc::buffer_serializer'
    size = ('call', 'cbdc::buffer::size', (PKT,), 0)
    end = l_add(CUR, A(1))
    u = c.fn(B + '::write')
    ext = call('buffer::extend')
    c.cases(u, 'writing', [
        ('beyond the end', Gt(end, size), [exactly_(ext, l_add(end, size, -1)), copies(at_cursor, arg_(0), A(1)), Final(CUR, end), Ret(TRUE)]),
        ('within', Not(Gt(end, size)), [Never(ext), copies(at_cursor, arg_(0), A(1)), Final(CUR, end), Ret(TRUE)])])
    u = c.fn('cbdc::size_serializer::write')
    c.every(u, 'counting', Final(CUR, end), Ret(TRUE))
    c.every(c.fn('cbdc::size_serializer::size'), 'counting', Ret(CUR))
    for q in (B, 'cbdc::size_serializer'):
        c.every(c.fn(q + '::advance_cursor'), 'cursor', Final(CUR, l_add(CUR, A(0))))
        c.every(c.fn(q + '::reset'), 'cursor', Final(CUR, ('i', 0)))
    for t, n in (('cbdc::size_serializer', 1), (B, 2)):
        r = c.P.recs.get(t)
        f = [x for x in r['fields'] if x['n'] == 'm_cursor']
        c.ob('cursor', len(f) == 1 and f[0].get('init') is not None, t, 'the cursor does not start at 0')
    N = 'cbdc::nuraft_serializer'
    BUF = F('m_buf')
    pos, sz = ('call', 'nuraft::buffer::pos', (BUF,), 0), ('call', 'nuraft::buffer::size', (BUF,), 0)
    u = c.fn(N + '::write')
    raw = call('nuraft::buffer::put_raw')

    def puts_raw(p):
        e = must(p.items, raw)
        m = must(p.items, MEMCPY)
        if len(e) != 1 or e[0].args[1] != A(1):
            return 'does not write the bytes once'
        if strip(e[0].args[0]) != A(0) and not (len(m) == 1 and strip(m[0].args[0]) == strip(e[0].args[0]) and m[0].args[1:] == (A(0), A(1))):
            return 'writes other bytes'
        return None
    c.cases(u, 'writing', [
        ('no room', Gt(l_add(pos, A(1)), sz), [Never(raw), Final(VALID, FALSE), Ret(FALSE)]),
        ('room', Not(Gt(l_add(pos, A(1)), sz)), [puts_raw, Ret(TRUE)])])
    u = c.fn('cbdc::ostream_serializer::write')

    def streams(p):
        e = {x for b in list(p.st.bools) + [p.ret] for x in subterms(b) if is_call(x, 'basic_ostream::write')}
        m = must(p.items, MEMCPY)
        if len(e) != 1:
            return 'does not write the bytes once'
        a = e.pop()[2]
        if a[2] != A(1):
            return 'writes %s bytes' % pp(a[2])
        if strip(a[1]) != A(0) and not (len(m) == 1 and strip(m[0].args[0]) == strip(a[1]) and m[0].args[1:] == (A(0), A(1))):
            return 'writes other bytes'
        return None
    c.every(u, 'writing', streams)


def exactly_(m, *args):
    def f(p):
        e = must(p.items, m)
        if len(e) != 1:
            return '%s happens %d times' % (m.name, len(e))
        for x, y in zip(e[0].args, args):
            if x != y:
                return ('%s with %s' % (m.name, pp(x)), e[0])
        return None
    return f


def special(c, T):
    cs = [t for t in T if t.endswith('::coordinator_state')]
    w = [T[t]['<<'] for t in cs if '<<' in T[t]]
    r = [T[t]['>>'] for t in cs if '>>' in T[t]]
    c.ob('coordinator state', len(w) == 1 and len(r) == 1, 'coordinator/format.cpp', 'no state transfer')
    wu, ru = c.unit(w[0], opaque=OPQ), c.unit(r[0], opaque=OPQ)
    f = ['m_prepare_txs', 'm_commit_txs', 'm_discard_txs']
    for p in wu.rets:
        c.ob('coordinator state', [x[1] for x in put(c, p, A(1))] == f, c.where(wu, p), 'the phases are not written as prepare, commit, discard', p)
    for p in ru.rets:
        c.ob('coordinator state', [x[1] for x in read(c, p, A(1), f)] == f or failed(p), c.where(ru, p), 'the phases are not read as prepare, commit, discard', p)
    nb = [T[t]['<<'] for t in T if t == 'std::shared_ptr<nuraft::buffer>']
    for g in nb:
        u = c.unit(g, opaque=OPQ)
        for p in u.rets:
            x = put(c, p, A(1))
            ok = len(x) == 1 and is_call(strip(x[0][2]), 'buffer::data_begin') and mentions_t(x[0][2], A(1)) and is_call(x[0][0][1], 'buffer::size') and mentions_t(x[0][0][1], A(1))
            c.ob('coordinator state', ok, c.where(u, p), 'a stored transaction is not written as its bytes', p)
    # a command: the header, and the transactions of a prepare or commit
    g = [T[t]['<<'] for t in T if t.endswith('::sm_command') and '<<' in T[t]]
    c.ob('coordinator command', len(g) == 1, 'coordinator/format.cpp', 'no command')
    u = c.unit(g[0], opaque=OPQ)
    h = F('m_comm', F('m_header', A(1)))
    CM = 'cbdc::coordinator::state_machine::command::'

    def writes_(*k):
        def f(p):
            x = put(c, p, A(1))
            if len(x) != len(k):
                return 'writes %d values' % len(x)
            for a, b in zip(x, k):
                n = a[2] if b != 'm_data' else strip(a[2])
                if b == 'm_header' and a[1] != b:
                    return 'does not start with the header'
                if b == 'm_data' and not (n[0] == 'as' and strip(n[1]) in (F('m_data', A(1)), ('val', F('m_data', A(1))))):
                    return 'does not write the transactions'
            return None
        return f
    c.cases(u, 'coordinator command', [
        ('prepare', Eq(h, c.enum(CM + 'prepare')), [writes_('m_header', 'm_data')]),
        ('commit', Eq(h, c.enum(CM + 'commit')), [writes_('m_header', 'm_data')]),
        ('others', Or(*[Eq(h, c.enum(CM + x)) for x in ('discard', 'done', 'get')]), [writes_('m_header')])], total=False)
    # the snapshot of the atomizer
    w, r = c.unit(T[SNAP]['<<'], opaque=OPQ), c.unit(T[SNAP]['>>'], opaque=OPQ)
    for p in w.rets:
        x = put(c, p, A(1))
        ok = len(x) == 4 and x[0][0] == 'unsigned long' and is_call(x[0][2], 'buffer::size') and isinstance(x[1][0], tuple) and x[1][0][1] == x[0][2] \
            and mentions_t(x[1][2], F('m_snp', A(1))) and mentions_t(x[2][2], F('m_atomizer', A(1))) and is_call(x[2][0][1], 'buffer::size') and x[3][1] == 'm_blocks'
        c.ob('snapshot', ok, c.where(w, p), 'not the raft snapshot with its size, the atomizer and the blocks', p)
    for p in r.rets:
        if failed(p):
            continue
        ev = [e for e in allev(p.items) if e.kind == 'call' and (dirn(e.q) == '>>' or e.q.endswith(('serializer::read', 'atomizer::deserialize'))) or e.kind == 'mut']
        k = [plain_name(e.q) if e.kind == 'call' and not dirn(e.q) else (etyp(c, e) if e.kind == 'call' else e.q) for e in ev]
        ok = k[:3] == ['unsigned long', 'read', 'deserialize'] and len([x for x in k if x.startswith('std::unordered_map')]) == 1 and k[-1].startswith('std::unordered_map') and 'clear' in k
        ok = ok and mentions_t(p.st.load(F('m_snp', A(1))), ev[0].ret)
        c.ob('snapshot', ok, c.where(r, p), 'not the raft snapshot with its size, the atomizer and the blocks', p)


@prop('Z01', files=FXF.all_units())
def z01(c):
    """round trips"""
    T = ops(c)
    n = records(c, T, 'record')
    c.ob('record', n > 60, 'src', 'only %d records are transferred' % n)
    n = containers(c, T)
    c.ob('container', n > 60, 'src', 'only %d containers are transferred' % n)
    n = scalars(c, T)
    c.ob('scalar', n > 20, 'src', 'only %d scalars are transferred' % n)
    n = choices(c, T)
    c.ob('choice', n > 60, 'src', 'only %d optional values, pairs and variants are transferred' % n)
    n = tables(c)
    c.ob('variant', n > 10, 'src', 'only %d variants are decoded' % n)
    n = whole(c)
    c.ob('conversion', n > 60, 'src', 'only %d conversions' % n)
    # the state of the atomizer
    w, r = c.fn('cbdc::atomizer::atomizer::serialize', opaque=OPQ), c.fn('cbdc::atomizer::atomizer::deserialize', opaque=OPQ)
    pair(c, 'atomizer state', 'atomizer', names(c, 'cbdc::atomizer::atomizer'), w, r, THIS, THIS)
    serializers_out(c)
    special(c, T)


# ------------------------------------------------------------ decoding (Z02)

LIMIT = 1 << 26


def readers(c):
    """reads stay within the data that is there, and say when they fail"""
    B, N, S, I = ('cbdc::%s_serializer' % x for x in ('buffer', 'nuraft', 'size', 'istream'))
    end = l_add(CUR, A(1))
    size = ('call', 'cbdc::buffer::size', (PKT,), 0)
    u = c.fn(B + '::read')
    c.cases(u, 'reading', [
        ('beyond the end', Gt(end, size), [Never(MEMCPY), Final(VALID, FALSE), Same(CUR), Ret(FALSE)]),
        ('within', Not(Gt(end, size)), [copies(arg_(0), at_cursor, A(1)), Final(CUR, end), Same(VALID), Ret(TRUE)])])
    BUF = F('m_buf')
    pos, sz = ('call', 'nuraft::buffer::pos', (BUF,), 0), ('call', 'nuraft::buffer::size', (BUF,), 0)
    raw = call('nuraft::buffer::get_raw')
    u = c.fn(N + '::read')

    def from_raw(p):
        e = must(p.items, raw)
        if len(e) != 1 or e[0].args[0] != A(1):
            return 'does not take the bytes once'
        return copies(arg_(0), lambda t: t == e[0].ret, A(1))(p)
    c.cases(u, 'reading', [
        ('beyond the end', Gt(l_add(pos, A(1)), sz), [Never(raw), Never(MEMCPY), Final(VALID, FALSE), Ret(FALSE)]),
        ('within', Not(Gt(l_add(pos, A(1)), sz)), [from_raw, Same(VALID), Ret(TRUE)])])
    c.every(c.fn(S + '::read'), 'reading', Ret(FALSE), Never(MEMCPY))
    u = c.fn(I + '::read')
    io = [n for n in astq.nodes(u.f['body']) if n.get('k') == 'mcall' and astq.plain(str(n['f']).split('@')[0]).endswith('basic_istream::read')]
    c.ob('reading', len(io) == 1 and io[0]['o'].get('m', '').endswith('::m_str') and strip_n(io[0]['a'][1]).get('id') == u.f['params'][1]['id'], c.where(u), 'does not read the bytes once from the stream')
    cp = [n for n in astq.nodes(u.f['body']) if n.get('k') == 'call' and astq.plain(str(n['f'])).endswith('memcpy')]
    direct = io and strip_n(io[0]['a'][0]).get('id') == u.f['params'][0]['id']
    good = {'operator!': False, 'fail': False, 'good': True, 'operator bool': True}
    for p in u.rets:
        st = [(good[plain_name(b[1])] if b[0] == 'call' else True) == v for b, v in p.st.bools.items()
              if (b[0] == 'has' or b[0] == 'call' and plain_name(b[1]) in good) and mentions_t(b, F('m_str'))]
        m = must(p.items, MEMCPY)
        ok = p.ret in (TRUE, FALSE) and len(st) == 1 and st[0] == (p.ret == TRUE)
        if ok and p.ret == TRUE and not direct:
            ok = len(m) == 1 and m[0].args[0] == A(0) and m[0].args[2] == A(1) and len(cp) == 1 and shape(cp[0]['a'][1]) == shape(io[0]['a'][0])
        elif ok:
            ok = not m
        c.ob('reading', ok, c.where(u, p), 'says bytes were read that were not, or reads others', p)
    c.ob('reading', {p.ret for p in u.rets} == {TRUE, FALSE}, c.where(u), 'the result does not depend on the stream')
    # a failure sticks until the serializer is reset
    for q in (B, N):
        c.every(c.fn(q + '::operator bool', split=False), 'failure', Ret(VALID))
        c.every(c.fn(q + '::set_failed'), 'failure', Final(VALID, FALSE))
        r = c.P.recs.get(q)
        f = [x for x in r['fields'] if x['n'] == 'm_valid'] if r else []
        init = (f[0].get('init') or {}) if f else {}
        c.ob('failure', len(f) == 1 and str(init.get('v')).lower() in ('1', 'true'), q, 'the serializer does not start out valid')
        for g in list(c.P.funcs.values()):
            if g.get('cls') == q and g.get('body') and g['q'].rsplit('::', 1)[1] not in ('read', 'write', 'set_failed', 'reset', q.rsplit('::', 1)[1]):
                c.every(c.unit(g), 'failure', Same(VALID))
    c.every(c.fn(B + '::reset'), 'failure', Final(VALID, TRUE))
    c.every(c.fn(N + '::reset'), 'failure', Final(VALID, TRUE))
    u = c.fn('cbdc::stream_serializer::operator bool', split=False)
    for p in u.rets:
        c.ob('failure', is_call(p.ret, 'good') or is_neg(p.ret, 'fail') or p.ret[0] == 'not' and is_call(p.ret[1], 'operator!'), c.where(u, p), 'does not say whether the stream is good', p)
    u = c.fn('cbdc::stream_serializer::set_failed', eventful=['setstate'])
    n = 0
    for g in astq.nodes(u.f['body']):
        n += 'setstate' in str(g.get('f'))
    c.ob('failure', n == 1, c.where(u), 'does not set the stream to failed')


def strip_n(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'conv', 'cp', 'mv') and ('e' in e or 'o' in e):
        e = e.get('e') or e.get('o')
    return e


def shape(e):
    """an expression without positions"""
    e = strip_n(e)
    return repr(sorted((k, shape(v) if isinstance(v, dict) else [shape(x) for x in v] if isinstance(v, list) else v) for k, v in e.items() if k != 'l')) if isinstance(e, dict) else repr(e)


def is_neg(t, q):
    return t[0] == 'not' and is_call(t[1], q)


def stops(c, T):
    """repeated reading ends with the first failure"""
    n = 0
    for t in sorted(T):
        for k in ('>>', 'ctor'):
            f = T[t].get(k)
            if f is None or not f.get('body'):
                continue
            u = c.unit(f, opaque=OPQ)
            n += 1
            for p in u.rets:
                for lp, e in edges(p.items):
                    for x in reads_(e.items):
                        ok = readable(e.st, x) or e.st.bools.get(x.ret) is True
                        c.ob('stops', ok, c.where(u, p), '%s: goes on reading after a failure' % short_t(t), p)
    return n


def rejects(c, T):
    """a variant with an index that does not exist"""
    n = 0
    for t in sorted(T):
        if not t.startswith('std::variant<') or '>>' not in T[t]:
            continue
        n += 1
        u = c.unit(T[t]['>>'], opaque=OPQ)
        for p in u.rets:
            bad_index(c, u, p, len(targs(t)), t)
    for f in list(c.P.funcs.values()):
        if plain_name(f['q']) == 'get_variant' and f.get('body') and 'lambda@' not in f['id']:
            u = c.unit(f, opaque=OPQ)
            k = len(targs(f['id'][f['id'].index('<'):f['id'].rindex('>(') + 1]))
            for p in u.rets:
                x = reads_(p.items)
                if len(x) == 1 and etyp(c, x[0]).startswith('std::variant<'):
                    continue
                n += 1
                bad_index(c, u, p, k, f['b'], True)
    return n


def bad_index(c, u, p, k, t, table=False):
    x = reads_(p.items)
    if failed(p):
        return
    ok = len(x) >= 1 and wsize(c, etyp(c, x[0])) == 1
    if ok:
        idx = next((y for y in subterms_all(p) if outs_of(x[0])(y)), None)
        under = p.st.known(compare('<', idx, ('i', k))) if idx is not None else None
        fails = [e for e in p.items if e.kind == 'call' and e.q.endswith('set_failed')]
        uses = [e for e in p.items if e.kind == 'invoke']
        if under is True:
            ok = not fails
        elif under is False:
            ok = len(fails) == 1 and len(x) == 1
            ok = ok and all(not any(outs_of(x[0])(y) for y in subterms(e.obj or ('i', 0))) for e in uses)
        else:
            ok = False
    c.ob('variant index', ok, c.where(u, p), '%s: an index beyond the %d alternatives is not refused' % (short_t(t), k), p)


def limited(a, f, e, seen=()):
    """an amount that does not follow from decoded numbers alone"""
    k = e.get('k')
    if k in ('int', 'gvar'):
        try:
            return int(e.get('v')) <= LIMIT
        except (TypeError, ValueError):
            return False
    if k in ('cast', 'conv', 'cp', 'mv'):
        return limited(a, f, e.get('e') or e.get('o') or {}, seen)
    if k == 'call' and a.q(e['f']).startswith('std::min'):
        return any(limited(a, f, x, seen) for x in e['a'])
    if k == 'mcall':
        return plain_name(e['f'].split('@')[0].split('(')[0]) == 'size'
    if k == 'bin' and e.get('op') in ('+', '-', '*', '/', '%'):
        return limited(a, f, e['a'], seen) and (e['op'] in '/%' or limited(a, f, e['b'], seen))
    if k == 'cond':
        return all(limited(a, f, e[x], seen) for x in ('a', 'b') if isinstance(e.get(x), dict))
    if k == 'init' and len(e.get('a', [])) <= 1:
        return all(limited(a, f, x, seen) for x in e['a'])
    if k == 'var':
        if e['id'] in seen:
            return True
        src = []
        for n in astq.nodes(f['body']):
            if n.get('k') == 'decl' and n.get('id') == e['id']:
                src.append(n.get('init') or {})
            elif n.get('k') == 'bin' and str(n.get('op', '')).endswith('=') and n['op'] not in ('==', '<=', '>=', '!=') and isinstance(n.get('a'), dict) and n['a'].get('id') == e['id']:
                src.append(n['b'])
            elif n.get('k') in ('call', 'mcall', 'op') and any(isinstance(x, dict) and x.get('id') == e['id'] and x.get('k') == 'var' and by_ref(n, i) for i, x in enumerate(n.get('a', []))):
                return False        # read from the data
            elif n.get('k') == 'un' and n.get('op') == '&' and strip_n(n.get('e')).get('id') == e['id']:
                return False        # filled in through its address
        return bool(src) and all(limited(a, f, x, seen + (e['id'],)) for x in src)
    return False


def by_ref(n, i):
    ts = param_types(str(n.get('f')))
    t = ts[i] if i < len(ts) else '&'
    return t.endswith('&') and not t.startswith('const ')


GROW = ('reserve', 'resize', 'extend', 'rehash', 'assign')


def amounts(c, T):
    """memory is taken for data that arrived, not for numbers announced"""
    a = astq.Ast(c.P)
    n = 0
    fs = [T[t][k] for t in sorted(T) for k in ('>>', 'ctor') if k in T[t] and t != SNAP]
    fs += [f for f in c.P.funcs.values() if f['q'] == 'cbdc::network::tcp_socket::receive' or plain_name(f['q']) == 'get_variant']
    for f in fs:
        if not f.get('body'):
            continue
        c.functions.add(f['b'])
        for x in astq.nodes(f['body']):
            fid = str(x.get('f'))
            name = astq.plain(fid.split('@')[0]).rsplit('::', 1)[-1]
            args = x.get('a') if isinstance(x.get('a'), list) else []
            if x.get('k') == 'mcall' and name in GROW and args:
                arg = args[0]
            elif x.get('k') == 'ctor' and fid.startswith('std::vector<') and '(unsigned long,' in fid:
                arg = args[0]
            elif x.get('k') == 'call' and name in ('alloc', 'malloc'):
                arg = args[0]
            elif x.get('k') == 'new' and isinstance(x.get('n'), dict):
                arg = x['n']
            else:
                continue
            n += 1
            c.ob('amounts', limited(a, f, arg), a.at(x), '%s takes memory for a number it was merely told' % f['b'][:80])
    return n


def buffers(c, T):
    u = c.unit(T['cbdc::buffer']['>>'], opaque=OPQ)
    for p in u.rets:
        x = [e for e in p.items if e.kind == 'call' and dirn(e.q) == '>>']
        why = None
        if len(x) != 1 or wsize(c, etyp(c, x[0])) != 8:
            why = 'does not start with the length'
        elif failed(p) and not any(e.kind == 'call' and e.q.endswith('buffer::clear') for e in p.items):
            pass
        else:
            ln = ('out', x[0].ret, 1, 1)
            ls = [i for i in p.items if i.kind == 'loop']
            size = lambda t: is_call(t, 'buffer::size') and strip(t[2][0]) == A(1)
            cl = [e for e in p.items if e.kind == 'call' and e.q.endswith('buffer::clear') and unver(e.obj) == A(1)]
            direct = [e for e in p.items if e.kind == 'call' and e.q.endswith(('buffer::extend', 'serializer::read'))]
            if not cl:
                why = 'keeps what the buffer held before'
            for lp, e in edges(p.items):
                ex = [i for i in e.items if i.kind == 'call' and i.q.endswith('buffer::extend') and unver(i.obj) == A(1)]
                rd = [i for i in e.items if i.kind == 'call' and i.q.endswith('serializer::read')]
                if len(ex) != 1 or len(rd) != 1 or ex[0].args[0] != rd[0].args[1]:
                    why = 'does not read as much as it makes room for'
                    continue
                off = rd[0].args[0]
                rest = rest_of_len(ex[0].args[0])
                if not (is_call(off, 'buffer::data_at') and strip(off[2][0]) == A(1) and size(off[2][1])):
                    why = 'does not read to the end of the buffer'
                elif l_add(rest, off[2][1]) != ln:
                    why = 'does not read the announced number of bytes'
            if not failed(p) and (not ls or any(l.mode != 'all' for l in ls) or direct or not any(
                    (lo is not None and lo >= 0) and d.get(ln) == -1 and [t for t in d if size(t)] and d[[t for t in d if size(t)][0]] == 1
                    or (hi is not None and hi <= 0) and d.get(ln) == 1 and [t for t in d if size(t)] and d[[t for t in d if size(t)][0]] == -1
                    for P, (lo, hi, ne) in p.st.bounds.items() for d in [dict(P)] if len(d) == 2)):
                why = 'may end before all bytes are read'
        c.ob('buffer', not why, c.where(u, p), 'a buffer %s' % (why or ''), p)


def rest_of_len(n):
    x = [y for y in n[2] if y[0] != 'i'] if is_call(n, 'min') else []
    return x[0] if len(x) == 1 else n


# what these decode was encoded by the system itself and is kept where only
# it writes: the replicated log, its own tables
OWN = ('cbdc::atomizer::controller::err_return_handler', 'cbdc::atomizer::controller::raft_result_handler',
       'cbdc::atomizer::state_machine::commit', 'cbdc::archiver::controller::get_block', 'cbdc::archiver::controller::server_handler',
       'cbdc::parsec::agent::runner::add_to_bloom', 'cbdc::parsec::agent::runner::evm_host::get_account', 'cbdc::parsec::runtime_locking_shard::replicated_shard_client')
OWN_L = 'cbdc::atomizer::controller::server_handler('


def decoded_in(t):
    if isinstance(t, tuple) and t and t[0] != 'has':
        if t[0] == 'call' and plain_name(t[1]) == 'from_buffer':
            yield t
            return
        for x in t:
            yield from decoded_in(x)


def unchecked(c):
    """nothing is done with a message that could not be decoded"""
    n = 0
    for f in list(c.P.funcs.values()):
        if not f.get('body') or plain_name(f['q']) == 'from_buffer':
            continue
        if not any('cbdc::from_buffer<' in str(x.get('f')) for x in astq.nodes(f['body'])):
            continue
        n += 1
        if f['q'].startswith(OWN) or f['id'].startswith(OWN_L) and '::lambda@' in f['id']:
            continue
        u = c.unit(f, opaque=['from_buffer'])
        whole = 'optional' in str(f.get('ret', ''))
        for p in u.paths:
            for e in allev(p.items):
                if e.kind == 'call' and plain_name(e.q) == 'from_buffer':
                    continue
                for x in decoded_in((e.args, e.obj)):
                    c.ob('unchecked', e.st.bools.get(('has', x)) is True, '%s:%s' % (e.file, e.line), '%s uses a message that may not have been decoded' % f['b'][:80], p)
            if isinstance(p.ret, tuple) and p.ret not in list(decoded_in(p.ret)):
                for x in decoded_in(p.ret):
                    c.ob('unchecked', p.st.bools.get(('has', x)) is True, c.where(u, p), '%s uses a message that may not have been decoded' % f['b'][:80], p)
    c.ob('unchecked', n > 40, 'src', 'only %d decoding sites' % n)
    # decoding from a serializer made on the spot
    for q, m in (('cbdc::watchtower::controller::external_server_handler', 'watchtower::request::request'),):
        u = c.fn(q)
        for p in u.rets:
            fresh(c, u, p, m)
    for q in ('cbdc::watchtower::blocking_client::init', 'cbdc::watchtower::async_client::init'):
        u = c.fn(q)
        for p in c.closure(u, call('start_cluster_handler')).rets:
            fresh(c, u, p, 'watchtower::response::response')
    u = c.fn('cbdc::locking_shard::locking_shard::read_preseed_file', opaque=OPQ)
    for p in u.rets:
        rd = reads_(p.items)
        c.ob('unchecked', p.ret == FALSE or len(rd) == 1 and (any(x[0] == 'out' and x[1] == rd[0].ret for x in subterms(p.ret)) or readable(p.st, rd[0])),
             c.where(u, p), 'a set that could not be read is reported as loaded', p)


def fresh(c, u, p, ctor):
    ev = list(allev(p.items))
    d = [i for i, e in enumerate(ev) if e.kind == 'call' and e.q.endswith(ctor)]
    ok = len(d) == 1
    if ok:
        e = ev[d[0]]
        good = any(v is True and is_call(b, 'operator bool') and any(x[0] == 'out' and x[1] == e.ret for x in subterms(b)) for b, v in p.st.bools.items())
        ok = good or p.ret == NONE and len(ev) == d[0] + 1
        ok = ok and (good or not d[0])
    c.ob('unchecked', ok, c.where(u, p), 'a message that could not be decoded is acted on', p)


@prop('Z02', files=FXF.all_units())
def z02(c):
    """decoding"""
    T = ops(c)
    readers(c)
    n = stops(c, T)
    c.ob('stops', n > 90, 'src', 'only %d decoders' % n)
    n = rejects(c, T)
    c.ob('variant index', n > 20, 'src', 'only %d variants' % n)
    n = amounts(c, T)
    c.ob('amounts', n > 20, 'src', 'only %d places take memory' % n)
    buffers(c, T)
    unchecked(c)
