"""Models of the standard library used by the interpreter."""
import re
from terms import *
from interp import (SEQ, MAP, SET, PTR, LOCKS, ATOM, Ev, Out, proj, under, is_const, fldterm)


INT_LIMITS = {}
for _n, _b in (('char', 8), ('signed char', 8), ('short', 16), ('int', 32), ('long', 64), ('long long', 64)):
    INT_LIMITS[_n] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
    INT_LIMITS['unsigned ' + _n.replace('signed ', '')] = (0, 2 ** _b - 1)

def vals(I, fr, es, st):
    return I.rvs(fr, es, st)


def load(s, p):
    return s.load(p) if is_path(p) else p


def key_of(s, v):
    """key denoted by an iterator value"""
    if v[0] == 'find':
        return v[3]
    if v[0] == 'it':
        return ('elem', v[1], v[2])
    if v[0] == 'ent':
        return v[2]
    return v


def mapkey(s, p, v):
    """iterator over map p -> key"""
    if v[0] == 'it':
        return ('key', v[1], v[2])
    return key_of(s, v)


def pairparts(v):
    if v[0] == 'obj' and len(v[2]) == 2:
        return v[2][0][1], v[2][1][1]
    if v[0] == 'list' and len(v[2]) == 2:
        return v[2]
    return None


def std_method(I, fr, e, d, st, want_lv):
    cb = d['cb']
    m = d['m']
    a = e['a']
    r = []
    line = e['l']
    # objects
    if e.get('p') or (cb in PTR):
        objs = I.rv(fr, e['o'], st)
    else:
        objs = I.lv(fr, e['o'], st)
    for s, p in objs:
        if p == ('noret',):
            continue
        if cb == 'std::optional':
            r += m_optional(I, fr, e, d, s, p, m, a, want_lv)
        elif cb in PTR:
            r += m_ptr(I, fr, e, d, s, p, m, a)
        elif cb in ATOM or cb == 'std::atomic_flag':
            r += m_atomic(I, fr, e, d, s, p, m, a)
        elif cb in MAP:
            r += m_map(I, fr, e, d, s, p, m, a, want_lv)
        elif cb in SET:
            r += m_set(I, fr, e, d, s, p, m, a, want_lv)
        elif cb in SEQ:
            r += m_seq(I, fr, e, d, s, p, m, a, want_lv)
        elif cb in LOCKS:
            r += m_lock(I, fr, e, d, s, p, m, a)
        elif cb in ('std::mutex', 'std::shared_mutex', 'std::recursive_mutex', 'std::__mutex_base', 'std::timed_mutex'):
            if m in ('lock', 'lock_shared'):
                s.emit(Ev('lock', 'x' if m == 'lock' else 's', p, (), None, line, fr.file, s.copy(), fr.name))
                s.locks = s.locks + ((p, 'x' if m == 'lock' else 's', ('raw',)),)
            elif m in ('unlock', 'unlock_shared'):
                s.emit(Ev('unlock', '', p, (), None, line, fr.file, None, fr.name))
                s.locks = tuple(l for l in s.locks if not (l[0] == p and l[2] == ('raw',)))
            r.append((s, VOID))
        elif cb.startswith('std::condition_variable') or cb == 'std::_V2::condition_variable_any':
            r += m_cv(I, fr, e, d, s, p, m, a)
        elif cb == 'std::function':
            if m in ('operator bool',):
                r.append((s, ('has', load(s, p))))
            else:
                r += generic(I, fr, e, d, s, p, m, a)
        elif cb in ('std::_Node_handle_common', 'std::_Node_handle'):
            v = load(s, p)
            while v[0] == 'some':
                v = v[1]
            if v[0] == 'find':
                if m == 'empty':
                    r.append((s, neg(('in', v[2], v[3]))))
                elif m in ('value', 'key'):
                    r.append((s, v[3]))
                elif m == 'mapped':
                    r.append((s, ('mapped', v[2], v[3])))
                else:
                    r.append((s, v))
            else:
                r += generic(I, fr, e, d, s, p, m, a)
        elif cb == 'std::_Bit_reference':
            if m.startswith('operator bool'):
                r.append((s, load(s, p)))
            else:
                r += generic(I, fr, e, d, s, p, m, a)
        elif cb == 'std::variant' and m == 'index':
            r.append((s, ('call', 'index', (load(s, p),), 0)))
        elif cb == 'std::variant' and m == 'emplace':
            for s2, vs in vals(I, fr, a, s):
                s2.store(p, ('var', '?', vs[0] if vs else ('unk', 'v')))
                r.append((s2, p))
        elif cb in ('std::reference_wrapper',) and m == 'get':
            r.append((s, p))
        elif cb == 'std::promise' and m == 'set_value':
            for s2, vs in vals(I, fr, a, s):
                s2.emit(Ev('call', d['b'], p, tuple(vs), None, line, fr.file, s2.copy(), fr.name))
                r.append((s2, VOID))
        elif cb == 'std::filesystem::path' and d.get('const'):
            for s2, vs in vals(I, fr, a, s):
                r.append((s2, I.pure_std(fr, e, d, s2, p, vs)))
        elif cb == 'std::pair':
            r += generic(I, fr, e, d, s, p, m, a)
        else:
            r += generic(I, fr, e, d, s, p, m, a)
    return r


QUIET = ('std::basic_stringstream', 'std::basic_ostream', 'std::basic_ostringstream', 'std::basic_ios', 'std::chrono',
         'std::basic_istream', 'std::mersenne_twister_engine', 'std::uniform_int_distribution', 'std::random_device', 'std::ios_base',
         'std::discrete_distribution', 'std::linear_congruential_engine')


def generic(I, fr, e, d, s, p, m, a):
    r = []
    for s2, vs in I.argvals(fr, a, s, d.get('pk')):
        if d.get('const'):
            r.append((s2, I.pure_std(fr, e, d, s2, p, vs)))
            continue
        key = ('call', d['b'], (load(s2, p),) + tuple(vs))
        n = s2.count(key)
        ret = key + (n,)
        if not any(d['cb'].startswith(q) for q in QUIET) or any(rx.search(d['b']) for rx in I.event_re):
            s2.emit(Ev('call', d['b'], p, tuple(vs), ret, e['l'], fr.file, s2.copy(), fr.name))
            if is_path(p) and not e.get('p'):
                s2.store(p, ('ver', p, s2.count(('ver', p)) + 1))
        r.append((s2, ret))
    return r


def m_optional(I, fr, e, d, s, p, m, a, want_lv):
    r = []
    v = load(s, p)
    if m == 'has_value':
        b = ('has', v)
        k = s.known(b)
        return [(s, b if k is None else (TRUE if k else FALSE))]
    if m == 'operator bool':
        return [(s, ('has', v))]
    if m in ('value', 'operator*', 'operator->'):
        if want_lv and is_path(p):
            return [(s, p)]
        return [(s, v[1] if v[0] == 'some' else v)]
    if m == 'value_or':
        for s2, vs in vals(I, fr, a, s):
            w = vs[0]
            if 'std::optional<std::variant<' in d.get('clst', '') and w[0] in ('new', 'obj') and not w[1].startswith('std::variant'):
                vs = [('var', w[1], w)]
            for s3, b in I.split(s2, ('has', v)):
                r.append((s3, (v[1] if v[0] == 'some' else v) if b else vs[0]))
        return r
    if m == 'reset':
        I.assign(fr, s, p, NONE, e['l'])
        return [(s, VOID)]
    if m == 'emplace':
        for s2, vs in vals(I, fr, a, s):
            w = ('some', vs[0] if len(vs) == 1 else ('new', d['clst'], tuple(vs)))
            I.assign(fr, s2, p, w, e['l'])
            r.append((s2, p))
        return r
    return generic(I, fr, e, d, s, p, m, a)


def m_ptr(I, fr, e, d, s, v, m, a):
    if m in ('get', 'operator->', 'operator*', 'lock'):
        return [(s, v)]
    if m == 'operator bool':
        return [(s, ('has', v))]
    if m == 'reset':
        r = []
        for s1, p in I.lv(fr, e['o'], s):
            for s2, vs in vals(I, fr, a, s1):
                I.assign(fr, s2, p, vs[0] if vs else NULL, e['l'])
                r.append((s2, VOID))
        return r
    if m == 'release':
        return [(s, v)]
    return [(s2, ('call', d['b'], (v,) + tuple(vs), 0)) for s2, vs in vals(I, fr, a, s)]


def m_atomic(I, fr, e, d, s, p, m, a):
    r = []
    if m in ('load', 'operator bool') or m.startswith('operator '):
        return [(s, load(s, p))]
    if m == 'operator=' or m == 'store':
        for s2, vs in vals(I, fr, a[:1], s):
            I.assign(fr, s2, p, vs[0], e['l'])
            r.append((s2, vs[0]))
        return r
    if m in ('fetch_add', 'fetch_sub'):
        for s2, vs in vals(I, fr, a[:1], s):
            old = load(s2, p)
            new = l_add(old, vs[0], 1 if m == 'fetch_add' else -1)
            s2.store(p, new)
            s2.emit(Ev('set', 'atomic ' + m, p, (new,), None, e['l'], fr.file, s2.copy(), fr.name))
            r.append((s2, old))
        return r
    if m in ('operator++', 'operator--'):
        old = load(s, p)
        new = l_add(old, ('i', 1 if m == 'operator++' else -1))
        s.store(p, new)
        s.emit(Ev('set', 'atomic ' + m, p, (new,), None, e['l'], fr.file, s.copy(), fr.name))
        return [(s, old if a else new)]
    if m == 'exchange':
        for s2, vs in vals(I, fr, a[:1], s):
            old = load(s2, p)
            s2.store(p, vs[0])
            s2.emit(Ev('set', 'atomic exchange', p, (vs[0],), None, e['l'], fr.file, s2.copy(), fr.name))
            r.append((s2, old))
        return r
    return generic(I, fr, e, d, s, p, m, a)


def m_lock(I, fr, e, d, s, p, m, a):
    line = e['l']
    v = load(s, p)
    if m in ('unlock',):
        gone = [l for l in s.locks if l[2] == p]
        for l in gone:
            s.emit(Ev('unlock', l[1], l[0], (), None, line, fr.file, None, fr.name))
        s.locks = tuple(l for l in s.locks if l[2] != p)
        return [(s, VOID)]
    if m in ('lock',):
        if v[0] == 'lock':
            for q in v[1]:
                s.emit(Ev('lock', v[2], q, (), None, line, fr.file, s.copy(), fr.name))
                s.locks = s.locks + ((q, v[2], p),)
        return [(s, VOID)]
    if m == 'owns_lock':
        return [(s, TRUE if any(l[2] == p for l in s.locks) else FALSE)]
    return [(s, VOID)]


def others_ran(s):
    """the mutex was released: members hold what other threads left there"""
    ps = set(p for p in s.mem if p[0] in ('fld', 'at', 'elem', 'as'))
    for t in list(s.bools) + list(s.bounds):
        for x in subterms(t):
            if x[0] == 'fld' and x[1][0] == 'this':
                ps.add(x)
    top = set()
    for p in ps:
        q = p
        while q is not None and not (q[0] == 'fld' and q[1][0] == 'this'):
            q = parent(q)
        if q is not None:
            top.add(q)
    m = s.wmem()
    for q in top:
        for x in [x for x in m if under(x, q)]:
            del m[x]
        m[q] = ('ver', q, s.count(('ver', q)) + 1)


def m_cv(I, fr, e, d, s, p, m, a):
    r = []
    if m.startswith('notify'):
        s.emit(Ev('call', d['b'], p, (), None, e['l'], fr.file, s.copy(), fr.name))
        return [(s, VOID)]
    # wait / wait_for / wait_until
    for s2, vs in I.argvals(fr, a[1:], s, None):
        s2.emit(Ev('wait', m, p, tuple(vs), None, e['l'], fr.file, s2.copy(), fr.name))
        pred = next((v for v in vs if v[0] in ('lam', 'lamg')), None)
        others_ran(s2)
        if pred is None:
            n = s2.count(('wait',))
            r.append((s2, ('call', 'cv_status', (p,), n)))
            continue
        got = False
        for s3, v in I.invoke(fr, pred, [], s2.copy(), e['l']):
            for s4, b in I.split(s3, v):
                if m == 'wait':
                    if b:
                        r.append((s4, VOID))
                        got = True
                else:
                    r.append((s4, TRUE if b else FALSE))
                    got = True
        if not got:
            r.append((s2, VOID))
    return r


def m_map(I, fr, e, d, s, p, m, a, want_lv):
    r = []
    line = e['l']
    if m in ('find', 'contains', 'count', 'at', 'erase', 'extract', 'lower_bound', 'upper_bound', 'equal_range') or m == 'operator[]':
        for s2, vs in vals(I, fr, a, s):
            k = vs[0] if vs else VOID
            C = I.cval(s2, p)
            if m == 'find':
                r.append((s2, ('find', p, C, k)))
            elif m == 'contains':
                r.append((s2, ('in', C, k)))
            elif m == 'count':
                r.append((s2, ('cnt', C, k)))
            elif m == 'at':
                r.append((s2, ('at', p, k) if want_lv else load(s2, ('at', p, k))))
            elif m == 'operator[]':
                q = I.map_at(fr, s2, p, k, line)
                r.append((s2, q if want_lv else load(s2, q)))
            elif m == 'erase':
                kk = mapkey(s2, p, k)
                I.mutate(fr, s2, p, 'erase', (kk,) if len(vs) == 1 else tuple(vs), line)
                r.append((s2, ('erased', p, kk) if k[0] in ('it', 'find', 'begin', 'erased') or len(vs) > 1 else ('cnt', C, kk)))
            elif m == 'extract':
                kk = mapkey(s2, p, k)
                I.mutate(fr, s2, p, 'erase', (kk,), line)
                r.append((s2, ('find', p, C, kk)))
            else:
                r.append((s2, ('call', d['b'], (C, k), 0)))
        return r
    if m in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
        for s2, vs in vals(I, fr, a, s):
            if m == 'insert' and len(vs) == 1 and vs[0][0] == 'list' and vs[0][2]:
                # an initialiser list: one entry after the other
                for x in vs[0][2]:
                    k, v = pairparts(x) or (fldterm(x, 'first'), fldterm(x, 'second'))
                    I.mutate(fr, s2, p, 'emplace', (k, v), line)
                r.append((s2, VOID))
                continue
            if m == 'emplace_hint':
                vs = vs[1:]
            C = I.cval(s2, p)
            k = v = None
            if len(vs) == 1:
                pr = pairparts(vs[0])
                if pr:
                    k, v = pr
                elif vs[0][0] == 'find':
                    k = vs[0][3]
                else:
                    k, v = fldterm(vs[0], 'first'), fldterm(vs[0], 'second')
            elif len(vs) == 2 and vs[0][0] in ('begin', 'it', 'find'):
                I.mutate(fr, s2, p, 'append', (src_container(s2, vs[0]),), line)
                r.append((s2, VOID))
                continue
            elif vs:
                k = vs[0]
                v = vs[1] if len(vs) == 2 else ('new', d['clst'], tuple(vs[1:]))
                if len(vs) == 3 and vs[0][0] == 'new' and 'piecewise' in vs[0][1]:
                    k = tup1(vs[1])
                    v = tupn(vs[2])
            had = s2.known(('in', C, k))
            if m != 'insert_or_assign' and had is None and v is not None and not e.get('unused'):
                # the key may be there already: its value is kept
                s3 = s2.copy()
                if s3.assume(('in', C, k), True) is not False:
                    I.mutate(fr, s3, p, 'keep', (k, v), line)
                    r.append((s3, ('obj', 'std::pair', (('first', ('find', p, I.cval(s3, p), k)), ('second', FALSE)))))
                if s2.assume(('in', C, k), False) is False:
                    continue
                had = False
            if m == 'insert_or_assign' or had is not True:
                I.mutate(fr, s2, p, 'emplace' if m != 'insert_or_assign' else 'assign', (k, v) if v is not None else (k,), line)
                if v is not None:
                    s2.store(('at', p, k), v)
            r.append((s2, ('obj', 'std::pair', (('first', ('find', p, I.cval(s2, p), k)), ('second', neg(('in', C, k)) if had is None else (FALSE if had else TRUE))))))
        return r
    if m == 'get_allocator':
        return [(s, VOID)]
    return m_common(I, fr, e, d, s, p, m, a, want_lv)


def tup1(v):
    if v[0] == 'obj' and v[2]:
        return v[2][0][1]
    return v


def tupn(v):
    if v[0] == 'obj' and len(v[2]) == 1:
        return v[2][0][1]
    return v


def src_container(s, it):
    if it[0] in ('begin', 'rbegin'):
        return s.load(it[1]) if is_path(it[1]) else it[1]
    return it


def m_set(I, fr, e, d, s, p, m, a, want_lv):
    r = []
    line = e['l']
    if m in ('find', 'contains', 'count', 'erase', 'extract', 'lower_bound', 'upper_bound'):
        for s2, vs in vals(I, fr, a, s):
            k = vs[0]
            C = I.cval(s2, p)
            if m == 'find':
                r.append((s2, ('find', p, C, k)))
            elif m == 'contains':
                r.append((s2, ('in', C, k)))
            elif m == 'count':
                r.append((s2, ('cnt', C, k)))
            elif m in ('erase', 'extract'):
                kk = key_of(s2, k)
                I.mutate(fr, s2, p, 'erase', (kk,) if len(vs) == 1 else tuple(vs), line)
                r.append((s2, ('find', p, C, kk) if m == 'extract' else ('erased', p, kk) if k[0] in ('it', 'find', 'begin', 'erased') or len(vs) > 1 else ('cnt', C, kk)))
            else:
                r.append((s2, ('call', d['b'], (C, k), 0)))
        return r
    if m in ('emplace', 'insert'):
        for s2, vs in vals(I, fr, a, s):
            C = I.cval(s2, p)
            if m == 'insert' and len(vs) == 1 and vs[0][0] == 'list' and vs[0][2]:
                for x in vs[0][2]:
                    I.mutate(fr, s2, p, 'emplace', (x,), line)
                r.append((s2, VOID))
                continue
            if len(vs) == 2 and vs[0][0] in ('begin', 'it', 'find', 'call'):
                I.mutate(fr, s2, p, 'append', (src_container(s2, vs[0]),), line)
                r.append((s2, VOID))
                continue
            k = vs[0] if len(vs) == 1 else ('new', d['clst'], tuple(vs))
            if k[0] == 'find':
                k = k[3]
            if k[0] == 'ent':
                k = k[2]
            had = s2.known(('in', C, k))
            if had is not True:
                I.mutate(fr, s2, p, 'emplace', (k,), line)
            r.append((s2, ('obj', 'std::pair', (('first', ('find', p, I.cval(s2, p), k)), ('second', neg(('in', C, k)) if had is None else (FALSE if had else TRUE))))))
        return r
    return m_common(I, fr, e, d, s, p, m, a, want_lv)


def m_common(I, fr, e, d, s, p, m, a, want_lv):
    C = I.cval(s, p)
    line = e['l']
    if m in ('end', 'cend'):
        return [(s, ('end', p))]
    if m in ('begin', 'cbegin'):
        return [(s, ('begin', p))]
    if m in ('rbegin', 'crbegin'):
        return [(s, ('rbegin', p))]
    if m in ('rend', 'crend'):
        return [(s, ('end', p))]
    if m in ('size', 'length'):
        n = re.search(r'^std::array<.*, (\d+)>::size$', d.get('q', ''))
        if n:
            return [(s, ('i', int(n.group(1))))]
        if C[0] == 'list':
            return [(s, ('i', len(C[2])))]
        if C[0] == 'vec' and len(C[2]) >= 1:
            return [(s, C[2][0])]
        return [(s, ('size', C))]
    if m == 'empty':
        if C[0] == 'list':
            return [(s, FALSE if C[2] else TRUE)]
        return [(s, compare('==', ('size', C), ('i', 0)))]
    if m == 'clear':
        I.mutate(fr, s, p, 'clear', (), line)
        return [(s, VOID)]
    if m in ('reserve', 'shrink_to_fit'):
        return [(s2, VOID) for s2, _ in vals(I, fr, a, s)]
    if m == 'swap':
        r = []
        for s2, q in I.lv(fr, a[0], s):
            do_swap(I, fr, s2, p, q, line)
            r.append((s2, VOID))
        return r
    if m == 'merge':
        r = []
        for s2, q in I.lv(fr, a[0], s):
            I.mutate(fr, s2, p, 'append', (load(s2, q),), line)
            r.append((s2, VOID))
        return r
    if d.get('const'):
        return [(s2, ('call', d['b'], (C,) + tuple(vs), 0)) for s2, vs in vals(I, fr, a, s)]
    r = []
    for s2, vs in vals(I, fr, a, s):
        I.mutate(fr, s2, p, 'other', (('s', m),) + tuple(vs), line)
        r.append((s2, ('call', d['b'], (C,) + tuple(vs), s2.count(('o', m)))))
    return r


def do_swap(I, fr, s, p, q, line):
    a, b = load(s, p), load(s, q)
    I.assign(fr, s, p, b, line)
    I.assign(fr, s, q, a, line)


def m_seq(I, fr, e, d, s, p, m, a, want_lv):
    r = []
    line = e['l']
    if m in ('push_back', 'emplace_back', 'push', 'emplace', 'push_front', 'emplace_front'):
        if m == 'emplace' and len(a) > 1 and d['cb'] in ('std::vector', 'std::deque', 'std::list'):
            pass
        for s2, vs in vals(I, fr, a, s):
            if len(vs) == 1:
                v = vs[0]
            else:
                et = template_args(d['clst'])
                et = strip_cv(et[0]) if et else '?'
                v = construct(I, fr, et, vs, s2)
            I.mutate(fr, s2, p, 'push_back' if 'front' not in m else 'push_front', (v,), line)
            r.append((s2, ('back', p) if want_lv else VOID))
        return r
    if m == 'at' or m == 'operator[]':
        for s2, vs in vals(I, fr, a, s):
            q = I.at(s2, p, vs[0])
            r.append((s2, q if want_lv else load(s2, q)))
        return r
    if m in ('front', 'back', 'top'):
        q = ('front' if m in ('front', 'top') else 'back', p)
        C = s.base(p) if is_path(p) else p
        if C[0] == 'list' and C[2]:
            return [(s, C[2][0 if m == 'front' else -1])] if not want_lv else [(s, ('at', p, ('i', 0 if m == 'front' else len(C[2]) - 1)))]
        return [(s, q if want_lv else load(s, q))]
    if m in ('pop_front', 'pop_back', 'pop'):
        I.mutate(fr, s, p, m, (), line)
        return [(s, VOID)]
    if m == 'data' or m == 'c_str':
        return [(s, p if is_path(p) else p)]
    if m == 'erase':
        for s2, vs in vals(I, fr, a, s):
            if vs[0][0] == 'removed':
                I.mutate(fr, s2, p, 'erase_if', vs[0][2:], line)
            else:
                I.mutate(fr, s2, p, 'erase', tuple(key_of(s2, v) for v in vs), line)
            r.append((s2, ('erased', p)))
        return r
    if m == 'insert':
        for s2, vs in vals(I, fr, a, s):
            if len(vs) == 3 and vs[1][0] in ('begin',):
                I.mutate(fr, s2, p, 'append', (src_container(s2, vs[1]),), line)
            elif len(vs) == 2 and vs[0] == ('end', p):
                I.mutate(fr, s2, p, 'push_back', (vs[1],), line)
            else:
                I.mutate(fr, s2, p, 'append' if vs[0] == ('end', p) else 'other', (('s', 'insert'),) + tuple(vs), line)
            r.append((s2, VOID))
        return r
    if m in ('resize', 'assign'):
        for s2, vs in vals(I, fr, a, s):
            I.mutate(fr, s2, p, m, tuple(vs), line)
            if m == 'resize':
                if is_path(p):
                    s2.assume(compare('==', ('size', I.cval(s2, p)), vs[0]), True)
            r.append((s2, VOID))
        return r
    if m == 'append':
        for s2, vs in vals(I, fr, a, s):
            I.mutate(fr, s2, p, 'append', tuple(vs), line)
            r.append((s2, p))
        return r
    if m == 'fill':
        for s2, vs in vals(I, fr, a, s):
            s2.store(p, ('call', 'filled', tuple(vs), 0))
            r.append((s2, VOID))
        return r
    return m_common(I, fr, e, d, s, p, m, a, want_lv)


def construct(I, fr, t, vs, s):
    """value of T{vs...}"""
    rec = I.P.recs.get(t)
    if rec is not None and len(rec['fields']) == len(vs) and not rec['bases']:
        return ('obj', t, tuple((f['n'], v) for f, v in zip(rec['fields'], vs)))
    if strip_t(t) in ('std::pair', 'std::tuple') and len(vs) > 1:
        names = ['first', 'second'] + ['#%d' % i for i in range(2, 20)]
        return ('obj', strip_t(t), tuple(zip(names, vs)))
    return ('new', t, tuple(vs))


# ------------------------------------------------------------- free functions
def std_func(I, fr, e, d, st, want_lv):
    b = d['b']
    n = b.split('::')[-1]
    a = e['a']
    line = e['l']
    r = []
    if n in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof', 'move_if_noexcept', 'static_pointer_cast', 'dynamic_pointer_cast',
             'make_move_iterator', 'launder', 'to_address', '__niter_base', 'span', 'forward_as_tuple1'):
        if len(a) == 1:
            return I.lv(fr, a[0], st) if (want_lv or n in ('ref', 'cref', 'addressof')) else I.rv(fr, a[0], st)
    if n == 'move' and len(a) == 3:
        n = 'copy'
    if n in ('make_shared', 'make_unique', 'allocate_shared'):
        t = strip_cv((e.get('ta') or ['?'])[0])
        for s, vs in I.rvs(fr, a, st):
            k = s.count(('heap', t, line))
            h = ('heap', t, '%s:%d:%d' % (fr.name, line, k))
            rec = I.P.recs.get(t)
            v = None
            if strip_t(t).startswith('std::') and not vs:
                v = I.default_value(t)
            elif strip_t(t).startswith('std::') and len(vs) == 1:
                v = vs[0]
            elif not vs and rec is not None:
                v = I.default_value(t)
            elif len(vs) == 1 and vs[0][0] == 'obj' and vs[0][1] == t:
                v = vs[0]
            else:
                v = ('new', t, tuple(vs))
            s.wmem()[h] = v
            if strip_t(t) == 'std::thread':
                s.emit(Ev('thread', 'std::thread', None, tuple(vs), v, line, fr.file, s.copy(), fr.name))
            elif any(x[0] in ('lam', 'lamg') for x in vs) or any(rx.search(t) for rx in I.event_re):
                s.emit(Ev('call', 'new ' + strip_t(t), None, tuple(vs), h, line, fr.file, s.copy(), fr.name))
            r.append((s, h))
        return r
    if n in ('make_optional',):
        return [(s, ('some', vs[0])) for s, vs in I.rvs(fr, a, st)]
    if n in ('make_pair', 'make_tuple', 'forward_as_tuple'):
        names = ['first', 'second'] + ['#%d' % i for i in range(2, 20)]
        return [(s, ('obj', 'std::pair' if n == 'make_pair' else 'std::tuple', tuple(zip(names, vs)))) for s, vs in I.rvs(fr, a, st)]
    if n == 'tie':
        acc = [(st, [])]
        for x in a:
            acc = [(s2, ps + [p]) for s, ps in acc for s2, p in I.lv(fr, x, s)]
        if want_lv:
            return [(s, ('tie', tuple(ps))) for s, ps in acc]
        names = ['first', 'second'] + ['#%d' % i for i in range(2, 30)]
        return [(s, ('obj', 'std::tuple', tuple((nn, load(s, p)) for nn, p in zip(names, ps)))) for s, ps in acc]
    if n == 'get' and len(a) == 1:
        ta = (e.get('ta') or ['?'])[0]
        res = I.lv(fr, a[0], st)
        for s, p in res:
            pts = strip_t(strip_cv(param_types(e['f'])[0])) if param_types(e['f']) else ''
            if ta.isdigit():
                i = int(ta)
                if pts == 'std::variant':
                    q = ('as', p, '#' + ta)
                else:
                    nn = {0: 'first', 1: 'second'}.get(i, '#%d' % i)
                    q = I.child(s, p, nn)
            else:
                v = load(s, p)
                s.assume(('is', v, strip_cv(ta)), True)
                q = ('as', p, strip_cv(ta))
            r.append((s, q if want_lv else (s.load(q))))
        return r
    if n == 'get_if':
        ta = strip_cv((e.get('ta') or ['?'])[0])
        for s, p in I.rv(fr, a[0], st):
            v = load(s, p)
            for s2, y in I.split(s, ('is', v, ta)):
                r.append((s2, ('some', s2.load(('as', p, ta)) if not is_path(p) else ('as', p, ta)) if y else NULL))
        return r
    if n == 'holds_alternative':
        ta = strip_cv((e.get('ta') or ['?'])[0])
        for s, v in I.rv(fr, a[0], st):
            k = s.known(('is', v, ta))
            r.append((s, ('is', v, ta) if k is None else (TRUE if k else FALSE)))
        return r
    if n == 'visit':
        return visit(I, fr, e, d, st, want_lv)
    if n in ('begin', 'cbegin'):
        return [(s, ('begin', p)) for s, p in I.lv(fr, a[0], st)]
    if n in ('end', 'cend'):
        return [(s, ('end', p)) for s, p in I.lv(fr, a[0], st)]
    if n in ('size', 'ssize') and len(a) == 1:
        return [(s, ('size', load(s, p))) for s, p in I.lv(fr, a[0], st)]
    if n == 'swap' and len(a) == 2:
        for s, p in I.lv(fr, a[0], st):
            for s2, q in I.lv(fr, a[1], s):
                do_swap(I, fr, s2, p, q, line)
                r.append((s2, VOID))
        return r
    if n == 'exchange' and len(a) == 2:
        for s, p in I.lv(fr, a[0], st):
            for s2, v in I.rv(fr, a[1], s):
                old = load(s2, p)
                I.assign(fr, s2, p, v, line)
                r.append((s2, old))
        return r
    if n in ('min', 'max', 'lowest') and not a:
        lim = INT_LIMITS.get(strip_cv(e['f'].split('numeric_limits<')[-1].split('>')[0]))
        if lim is not None:
            return [(st, ('i', lim[n == 'max']))]
    if n in ('min', 'max'):
        for s, vs in I.rvs(fr, a, st):
            if len(vs) == 2:
                x, y = vs
                if x[0] == 'i' and y[0] == 'i':
                    r.append((s, ('i', (min if n == 'min' else max)(x[1], y[1]))))
                else:
                    r.append((s, ('call', n, tuple(sorted(vs, key=repr)), 0)))
            else:
                r.append((s, ('call', n, tuple(vs), 0)))
        return r
    if n in ALGOS and 'filesystem::' not in d['b']:
        return algo(I, fr, e, d, st, n, want_lv)
    if n in ('back_inserter', 'inserter', 'front_inserter'):
        return [(s, ('inserter', p)) for s, p in I.lv(fr, a[0], st)]
    if n in ('invoke', 'apply') and a:
        for s, f in I.rv(fr, a[0], st):
            r += I.invoke(fr, f, a[1:], s, line)
        return r
    if n in ('operator==', 'operator!=', 'operator<') and len(a) == 2:
        return [(s, I.cmp(n[8:], vs[0], vs[1])) for s, vs in I.rvs(fr, a, st)]
    if n in ('exit', 'abort', 'terminate', 'quick_exit', '_Exit') or d.get('noret'):
        for s, vs in I.rvs(fr, a, st):
            s.emit(Ev('call', b, None, tuple(vs), None, line, fr.file, None, fr.name))
            r.append((s, ('noret',)))
        return r
    if n == 'getline' and len(a) >= 2:
        for s, vs in I.argvals(fr, a, st, d.get('pk')):
            src = load(s, vs[0])
            t = ('call', b, (src,) + tuple(vs[2:]), s.count(('getline', src)))
            if is_path(vs[1]):
                s.store(vs[1], ('out', t, 1, 0))
            r.append((s, t))
        return r
    if n in ('swap',):
        pass
    # default: pure unless it takes mutable references / closures
    for s, vs in I.argvals(fr, a, st, d.get('pk')):
        pk = d.get('pk', [])
        outs = [i for i, kd in enumerate(pk) if kd in ('l',) and i < len(vs) and is_path(vs[i])]
        closures = any(isinstance(v, tuple) and v and v[0] in ('lam', 'lamg') for v in vs)
        vv = tuple(load(s, v) if i in outs else v for i, v in enumerate(vs))
        if (outs or closures or d['ret'] == 'void' or b == 'std::async') and n not in ('operator<<', 'operator>>', 'getline', 'setw'):
            k = s.count(('call', b, vv))
            ret = ('call', b, vv, k)
            s.emit(Ev('call', b, None, tuple(vv), ret, line, fr.file, s.copy(), fr.name))
            for i in outs:
                if b != 'std::async':    # copies what it is given
                    s.store(vs[i], ('out', ret, i, s.count(('ver', vs[i])) + 1))
            r.append((s, ret if d['ret'] != 'void' else VOID))
        else:
            r.append((s, ('call', b, vv, 0)))
    return r


ALGOS = {'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'for_each', 'transform', 'copy', 'copy_if', 'count_if', 'find', 'count', 'accumulate',
         'remove_if', 'erase_if', 'sort', 'fill', 'fill_n', 'copy_n', 'distance', 'next', 'prev', 'advance', 'stable_sort', 'generate', 'generate_n', 'equal', 'unique',
         'binary_search', 'min_element', 'max_element', 'reverse', 'iota', 'move_backward', 'shuffle', 'swap_ranges', 'nth_element', 'set_intersection', 'includes',
         'remove', 'find_first_of', 'adjacent_find', 'for_each_n', 'reduce', 'transform_reduce'}


def algo(I, fr, e, d, st, n, want_lv):
    a = e['a']
    line = e['l']
    r = []
    for s, vs in algo_args(I, fr, a, st, n):
        # container
        ranges = False
        if vs and vs[0][0] not in ('begin', 'rbegin', 'it', 'find', 'end', 'op', 'front') and n in ('any_of', 'all_of', 'none_of', 'find_if', 'for_each', 'erase_if', 'count_if', 'find', 'sort'):
            # ranges:: / erase_if(container)
            if is_path(vs[0]) or vs[0][0] in ('call', 'list', 'new', 'ver'):
                ranges = True
        if n == 'erase_if':
            I.mutate(fr, s, vs[0], 'erase_if', tuple(vs[1:]), line)
            r.append((s, ('call', 'erase_if', tuple(vs), 0)))
            continue
        if not ranges and vs and vs[0][0] in ('begin', 'rbegin') and (len(vs) < 2 or vs[1] == ('end', vs[0][1]) or n in ('distance', 'next', 'copy_n')):
            cont = vs[0][1]
            rest = vs[2:]
        elif ranges:
            cont = vs[0]
            rest = vs[1:]
        else:
            cont = None
            rest = vs[2:]
        if cont is not None and n in ('find', 'count') and rest:
            C = I.cval(s, cont)
            r.append((s, ('find', cont, C, rest[0]) if n == 'find' else ('cnt', C, rest[0])))
            continue
        if cont is not None and n in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'for_each', 'transform', 'copy', 'copy_if', 'count_if', 'accumulate', 'remove_if'):
            if n == 'copy':
                if rest and rest[0][0] == 'inserter':
                    I.mutate(fr, s, rest[0][1], 'append', (load(s, cont),), line)
                elif rest:
                    p = rest[0]
                    if p[0] == 'begin':
                        p = p[1]
                    s.emit(Ev('call', 'std::copy', p, (load(s, cont),), None, line, fr.file, s.copy(), fr.name))
                    if is_path(p):
                        s.store(p, ('call', 'copied', (load(s, cont),), 0))
                r.append((s, VOID))
                continue
            f = next((v for v in rest if v[0] in ('lam', 'lamg', 'fref')), None)
            if f is None and n not in ('accumulate',):
                f = next((v for v in rest if is_path(v) or v[0] in ('call', 'out')), None)
            if n == 'remove_if':
                r.append((s, ('removed', cont, f)))
                continue
            if f is None:
                r.append((s, ('call', n, tuple(vs), 0)))
                continue
            r += run_algo(I, fr, e, s, n, cont, rest, f, line)
            continue
        if n in ('fill', 'sort', 'stable_sort', 'generate', 'reverse', 'iota', 'shuffle'):
            p = vs[0][1] if vs and vs[0][0] == 'begin' else (vs[0] if vs else None)
            if p is not None and is_path(p):
                s.store(p, ('call', n, (load(s, p),) + tuple(v for v in vs[2:] if v[0] != 'lam'), 0))
            r.append((s, VOID))
            continue
        if n in ('copy_n', 'copy', 'fill_n', 'transform', 'advance', 'swap_ranges', 'copy_if'):
            s.emit(Ev('call', 'std::' + n, None, tuple(vs), None, line, fr.file, s.copy(), fr.name))
            if n == 'advance' and a[0]['k'] == 'var':
                for _, q in I.lv(fr, a[0], s):
                    if is_path(q):
                        s.store(q, ('op', 'advance', tuple(vs)))
            for v in vs:
                if v[0] == 'inserter':
                    I.mutate(fr, s, v[1], 'append', tuple(vs), line)
        r.append((s, ('call', 'std::' + n, tuple(vs), 0)))
    return r


def algo_args(I, fr, a, st, n):
    acc = [(st, [])]
    for i, x in enumerate(a):
        nxt = []
        for s, vs in acc:
            if i == 0 and x['k'] in ('var', 'mem'):
                for s2, p in I.lv(fr, x, s):
                    v = s2.load(p) if is_path(p) else p
                    nxt.append((s2, vs + [v if v[0] in ('begin', 'rbegin', 'it', 'find', 'end') else p]))
            else:
                for s2, v in I.rv(fr, x, s):
                    nxt.append((s2, vs + [v]))
        acc = nxt
    return acc


def run_algo(I, fr, e, st, n, cont, rest, f, line):
    """desugar an algorithm over a whole container into a loop"""
    L = I.newloop(fr, e)
    inplace = n == 'transform' and rest and rest[0] == ('begin', cont)
    cont = I.contpath(st, cont) if is_path(cont) and not inplace else cont
    dom = ('each', cont, load(st, cont))
    el = ('elem', cont, L)
    results = []
    it = ('it', cont, L)
    out = Out()
    acc = None
    if n == 'accumulate':
        acc = ('loc', 'acc', 'acc' + L)
        st.store(acc, rest[0])
    outer = None
    if n == 'transform':
        outer = rest[0]
    if n == 'copy_if':
        outer = rest[0]

    def body(z):
        o = Out()
        if n == 'accumulate':
            for s2, v in I.invoke(fr, f, [z.load(acc), el], z, line):
                s2.store(acc, v)
                o.n.append(s2)
            return o
        for s2, v in I.invoke(fr, f, [el], z, line):
            if v == ('noret',):
                o.h.append(s2)
                continue
            if n == 'for_each':
                o.n.append(s2)
            elif n == 'transform':
                if outer is not None and outer[0] == 'inserter':
                    I.mutate(fr, s2, outer[1], 'push_back', (v,), line)
                elif outer is not None and outer[0] == 'begin':
                    I.assign(fr, s2, I.at(s2, outer[1], ('ix', cont, L)), v, line)
                o.n.append(s2)
            elif n == 'copy_if':
                for s3, b in I.split(s2, v):
                    if b and outer is not None and outer[0] == 'inserter':
                        I.mutate(fr, s3, outer[1], 'push_back', (s3.load(el),), line)
                    o.n.append(s3)
            elif n == 'count_if':
                for s3, b in I.split(s2, v):
                    if b:
                        s3.emit(Ev('count', 'count_if', el, (), None, line, fr.file, s3.copy(), fr.name))
                    o.n.append(s3)
            else:
                for s3, b in I.split(s2, v):
                    if (n in ('any_of', 'find_if', 'none_of') and b) or (n in ('all_of', 'find_if_not') and not b):
                        res = {'any_of': TRUE, 'none_of': FALSE, 'all_of': FALSE, 'find_if': it, 'find_if_not': it}[n]
                        o.r.append((s3, res, line))
                    else:
                        o.n.append(s3)
        return o
    I.loop(fr, st, dom, L, body, {'l': line}, out)
    res = []
    dflt = {'any_of': FALSE, 'none_of': TRUE, 'all_of': TRUE, 'find_if': ('end', cont), 'find_if_not': ('end', cont)}.get(n, VOID)
    if n == 'count_if':
        dflt = ('call', 'count_if', (load(st, cont), ('s', L)), 0)
    for s in out.n:
        v = dflt
        if acc:
            v = s.load(acc)
        res.append((s, v))
    for s, v, _ in out.r:
        res.append((s, v))
    for s in out.h:
        res.append((s, ('noret',)))
    return res


def visit(I, fr, e, d, st, want_lv):
    a = e['a']
    line = e['l']
    r = []
    vis_e = a[0]
    for s, vis in I.rv(fr, vis_e, st):
        if len(a) != 2:
            # several variants: uninterpreted
            for s2, vs in I.rvs(fr, a[1:], s):
                s2.emit(Ev('call', 'std::visit', None, (vis,) + tuple(vs), None, line, fr.file, s2.copy(), fr.name))
                r.append((s2, ('call', 'visit', tuple(vs), s2.count(('visit',)))))
            continue
        for s2, p in I.lv(fr, a[1], s):
            v = load(s2, p)
            lams = collect(vis)
            # (type, lam) pairs
            cases = []
            for l in lams:
                fids = [l[1]] if l[0] == 'lam' else [x for x in l[1]]
                for fid in fids:
                    f = I.P.funcs.get(fid)
                    if f is None or not f['params']:
                        continue
                    cases.append((strip_cv(f['params'][0]['t']), ('lam', fid, l[2]), f, l[0] == 'lamg'))
            if vis[0] in ('heap', 'obj', 'loc', 'fld', 'this', 'new', 'arg') and not cases:
                # functor object with operator() overloads
                t = vis[1] if vis[0] in ('obj', 'new', 'heap') else None
                if t:
                    for f in I.P.byq.get(strip_t(t) + '::operator()', []):
                        cases.append((strip_cv(f['params'][0]['t']), None, f, False))
                    if vis[0] in ('obj', 'new') and cases:
                        tmp = ('loc', 'vis', 'vis%d' % line)
                        s2.store(tmp, vis)
                        vis = tmp
            if not cases:
                s2.emit(Ev('call', 'std::visit', None, (vis, v), None, line, fr.file, s2.copy(), fr.name))
                r.append((s2, ('call', 'visit', (v,), s2.count(('visit',)))))
                continue
            seen = set()
            exact = [c for c in cases if not c[3]]
            gen = [c for c in cases if c[3]]
            for t, lam, f, g in exact + gen:
                if t in seen:
                    continue
                seen.add(t)
                for s3, y in I.split(s2.copy(), ('is', v, t)):
                    if not y:
                        continue
                    q = ('as', p, t)
                    if v[0] == 'var':
                        q = v[2]
                    if lam is not None:
                        r += I.inline_lam(fr, lam, f, [q], s3, line)
                    else:
                        r += I.inline(fr, I.P.fn[f['id']], f, vis, [q], s3, line)
    return r


def collect(v):
    """closures inside an overloaded{...} visitor"""
    if v[0] in ('lam', 'lamg'):
        return [v]
    res = []
    if v[0] == 'obj':
        for _, x in v[2]:
            res += collect(x)
    elif v[0] in ('new', 'list'):
        for x in v[2]:
            if isinstance(x, tuple) and x:
                res += collect(x)
    return res
