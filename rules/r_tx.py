"""Transactions: validity, identifiers, sentinel attestations."""
from lib import *

TX = 'cbdc::transaction::'
VAL = TX + 'validation::'
T_ = 'uhs/transaction/'
MAX = ('i', 2 ** 64 - 1)


def sha(p, t):
    """the byte strings t is the SHA-256 digest of, None if t is no digest:
    ('buf', x) for the serialisation of x, ('raw', x, n) for n bytes of x"""
    if is_call(t, 'cbdc::hash_data'):
        q = piece(p, *t[2])
        return None if q is None else [q]
    if t[0] != 'out' or not is_call(t[1], 'CSHA256::Finalize'):
        return None
    obj = t[1][2][0]
    out = []
    for i in p.items:
        if i.kind == 'loop':
            if any(unver(j.obj) == unver(obj) for j in allev([i]) if j.obj is not None):
                return None
        elif i.kind == 'call' and qmatch('CSHA256::Write', i.q) and unver(chain(p, i.obj)) == unver(chain(p, obj)):
            q = piece(p, *i.args)
            if q is None:
                return None
            out.append(q)
        elif i.kind == 'call' and qmatch('CSHA256::Reset', i.q) and unver(i.obj) == unver(obj):
            out = []
        elif i.kind == 'call' and qmatch('CSHA256::Finalize', i.q) and unver(chain(p, i.obj)) == unver(chain(p, obj)):
            break
    return out


def chain(p, t):
    """the object a call chain works on"""
    while is_call(t, 'CSHA256::Write'):
        w = next((i for i in p.items if i.kind == 'call' and result(i) == t or i.ret == t), None)
        if w is None:
            return t
        t = w.obj
    return t


def piece(p, d, n):
    if d[0] == 'call' and qmatch(['buffer::c_ptr', 'buffer::data', 'buffer::data_at'], d[1]):
        b = d[2][0]
        if is_call(b, 'make_buffer') and is_call(n, 'buffer::size') and (n[2] == (b,) or any(
                i.kind == 'call' and i.q == d[1] and i.obj == unver(n[2][0]) and i.st is not None and i.st.load(i.obj) == b for i in p.items)):
            return ('buf', b[2][0])
        return None
    d = unver(d)
    if d[0] == 'loc':
        v = p.st.load(d)
        if is_call(v, 'bytes'):
            if v[2][1] == n:
                return ('raw', v[2][0], n)
            return None
        return ('raw', v if v[0] != 'list' else d, n)
    return ('raw', d, n)


def digest(want):
    """returns the digest of the wanted byte strings"""
    def f(p):
        got = sha(p, p.ret)
        if got is None:
            return 'returns %s' % pp(p.ret)[:150]
        if len(got) != len(want) or not all(match(w, g, {}) for w, g in zip(want, got)):
            return 'digest of %s' % ', '.join('%s(%s)' % (g[0], pp(g[1])[:60]) for g in got)
        return None
    return f


def wraps(st, a, b):
    """three-valued: does the 64-bit sum a + b wrap (b at least 1)"""
    w = ('wadd',) + tuple(sorted((a, b), key=repr))
    for t in (compare('<', w, a), compare('<=', w, a), compare('<', w, b), compare('<=', w, b), compare('<', l_add(MAX, b, -1), a), compare('<', l_add(MAX, a, -1), b)):
        r = st.known(t)
        if r is not None:
            return r
    return None


def loopvars(lp):
    out = set()
    for e in lp.edges:
        for v in list(e.st.mem.values()) + [b for b in e.st.bools] + [b for P in e.st.bounds for b, c in P]:
            for t in subterms(v):
                if t[0] == 'lv' and t[2] == lp.L:
                    out.add(t)
    return out


def total(lp, val, checked=True):
    """variables that sum val(x) over the loop from 0, no round wrapping"""
    r = set()
    for own in (False, True):
        x = X(lp.dom, lp.L, own)
        v = val(x)
        for t in loopvars(lp):
            if lp.st.load(t[1]) != ('i', 0):
                continue
            if all(e.st.load(t[1]) == ('wadd',) + tuple(sorted((t, v), key=repr)) and (not checked or wraps(e.st, t, v) is False) for e in lp.edges):
                r.add(t)
    return r


INP, OUT, WIT = (F(n, A(0)) for n in ('m_inputs', 'm_outputs', 'm_witness'))


def in_value(x):
    return F('m_value', F('m_prevout_data', x.e))


def out_value(x):
    return F('m_value', x.e)


def eachloop(p, C, mode):
    return [lp for lp in p.items if lp.kind == 'loop' and lp.mode == mode and lp.dom[0] == 'each' and C in lp.dom[1:]]


def totals(p, C, val):
    return {t for lp in eachloop(p, C, 'all') for t in total(lp, val)}


def distinct(lp, st=None):
    """every round records the outpoint of its input in a set that started
    empty; st: the state of the exit round, None for a complete loop.
    True if st says the outpoint is there already / no round found it."""
    ok = False
    for own in (False, True):
        x = X(lp.dom, lp.L, own)
        key = F('m_prevout', x.e)
        for S in {unver(i.obj) for e in lp.edges for i in e.items if i.kind == 'mut' and i.q in ADD}:
            if lp.st.known(compare('==', ('size', S), ('i', 0))) is not True and lp.st.load(S)[0] not in ('list', 'new'):
                continue
            if not all(any(i.kind == 'mut' and unver(i.obj) == S and i.q in ADD and key in i.args for i in e.items) and known_in(e.st, S, key) is False for e in lp.edges):
                continue
            if st is None or known_in(st, S, key) is True:
                ok = True
    return ok


def known_in(st, S, k):
    for b, pol in st.bools.items():
        if b[0] == 'in' and b[2] == k and (b[1] == S or b[1][0] == 'ver' and b[1][1] == S and not isinstance(b[1][2], int)):
            return pol
    return None


def code(name):
    return lambda v: v == name


def kind_of(e):
    """(error type, fields) of a returned tx_error"""
    if e[0] == 'var':
        v = e[2]
        T = e[1].split('::')[-1]
        if v[0] == 'obj':
            return T, dict(v[2])
        return T, {'code': v}
    return None, {}


def blind(C, d, lp=None):
    return d[0] == 'ix' and d[1] == C


@prop('T01', files=[T_ + 'validation.cpp'])
def t01(c):
    """a transaction passes exactly when it is well formed, balanced and signed"""
    c.wrap = True
    for n in ('m_inputs', 'm_outputs', 'm_witness'):
        c.field(TX + 'full_tx', n)
    en = {n.split('::')[-1]: c.enum(VAL + n) for n in (
        'tx_error_code::no_inputs', 'tx_error_code::no_outputs', 'tx_error_code::missing_witness', 'tx_error_code::asymmetric_values', 'tx_error_code::value_overflow',
        'input_error_code::data_error', 'input_error_code::duplicate', 'output_error_code::zero_value',
        'witness_error_code::missing_witness_program_type', 'witness_error_code::unknown_witness_program_type', 'witness_error_code::malformed',
        'witness_error_code::program_mismatch', 'witness_error_code::invalid_public_key', 'witness_error_code::invalid_signature')}
    WITC = VAL + 'check_witness'

    def fault(p, e):
        """is the reported error true on this path: None or a message"""
        T, d = kind_of(e)
        ctx = Ctx(p.st, p.items)

        def need(cond, why):
            return None if holds(cond, ctx) is True else why
        if T == 'tx_error_code':
            v = d['code']
            if v == en['no_inputs']:
                return need(Empty(INP), 'reports a transaction with inputs to have none')
            if v == en['no_outputs']:
                return need(Empty(OUT), 'reports a transaction with outputs to have none')
            if v == en['missing_witness']:
                return need(Ne(('size', INP), ('size', WIT)), 'reports a complete set of witnesses to be incomplete')
            if v == en['asymmetric_values']:
                a, b = totals(p, INP, in_value), totals(p, OUT, out_value)
                if any(p.st.known(compare('==', x, y)) is False for x in a for y in b):
                    return None
                return 'reports equal totals to differ'
            if v == en['value_overflow']:
                for C, val in ((INP, in_value), (OUT, out_value)):
                    for lp in eachloop(p, C, 'some'):
                        for own in (False, True):
                            x = X(lp.dom, lp.L, own)
                            if any(wraps(p.st, t, val(x)) is True for t in total(lp, val)):
                                return None
                return 'reports an overflow that has not been established'
        elif T == 'input_error':
            i = d.get('m_idx', NONE)
            if not blind(INP, i):
                return 'names another input than the faulty one'
            e_ = ('elem', i[1], i[2])
            if d.get('m_code') == en['duplicate']:
                if d.get('m_data_err') == NONE and any(distinct(lp, p.st) for lp in eachloop(p, INP, 'some') if lp.L == i[2]):
                    return None
                return 'reports an outpoint that has not been seen before as a duplicate'
            if d.get('m_code') == en['data_error'] and d.get('m_data_err') == ('some', en['zero_value']):
                return need(Eq(F('m_value', F('m_prevout_data', e_)), I_(0)), 'reports an input with a value to have none')
        elif T == 'output_error':
            i = d.get('m_idx', NONE)
            if not blind(OUT, i):
                return 'names another output than the faulty one'
            if d.get('m_code') == en['zero_value']:
                return need(Eq(F('m_value', ('elem', i[1], i[2])), I_(0)), 'reports an output with a value to have none')
        elif T == 'witness_error':
            i, v = d.get('m_idx', NONE), d.get('m_code', NONE)
            v = v[1] if v[0] in ('some', 'val') else v
            if not (blind(WIT, i) or blind(INP, i)):
                return 'names another witness than the faulty one'
            if v == ('call', WITC, (A(0), i), 0):
                return need(Has(v), 'reports a witness that was accepted')
            return 'reports another error than the witness has'
        return 'reports %s' % pp(e)[:120]

    def missing(p, want):
        """the first condition of a valid transaction not established"""
        ctx = Ctx(p.st, p.items)

        def req(n, cond, why):
            return why if n in want and holds(cond, ctx) is not True else None

        def sums():
            a, b = totals(p, INP, in_value), totals(p, OUT, out_value)
            if not a or not b:
                return 'accepts a transaction whose total may overflow'
            if not any(p.st.known(compare('==', x, y)) is True for x in a for y in b):
                return 'accepts a transaction whose inputs and outputs differ in total'
            return None
        return (req('in', Not(Empty(INP)), 'accepts a transaction without inputs')
                or req('out', Not(Empty(OUT)), 'accepts a transaction without outputs')
                or req('wit', Eq(('size', INP), ('size', WIT)), 'accepts a transaction with missing or surplus witnesses')
                or (None if 'dup' not in want or any(distinct(lp) for lp in eachloop(p, INP, 'all')) else 'accepts an outpoint that is spent twice')
                or req('val', All(INP, lambda x: Ge(in_value(x), I_(1))), 'accepts an input without value')
                or req('val', All(OUT, lambda x: Ge(out_value(x), I_(1))), 'accepts an output without value')
                or (sums() if 'sum' in want else None)
                or req('sig', Or(*[All(C, lambda x: Not(Has(('call', WITC, (A(0), x.i), 0)))) for C in (WIT, INP)]), 'accepts a transaction with a witness that fails'))

    def verdict(want):
        def f(p):
            if p.ret == NONE:
                return missing(p, want)
            if p.ret[0] == 'some':
                return fault(p, p.ret[1])
            return 'returns %s' % pp(p.ret)[:120]
        return f
    inl = dict(inline=[r'validation::(check_(?!witness$|attestations)|\(anonymous)'], opaque=['check_witness$'], split=False)
    for fn, want in (('check_tx', ('in', 'out', 'wit', 'dup', 'val', 'sum', 'sig')), ('check_tx_structure', ('in', 'out', 'wit', 'dup')), ('check_in_out_set', ('sum',))):
        u = c.fn(VAL + fn, **inl)
        c.every(u, 'validity', verdict(want))
        c.ob('validity', any(p.ret == NONE for p in u.rets), c.where(u), 'never accepts a transaction')
    # one input or output on its own
    u = c.fn(VAL + 'check_output_value', **inl)
    c.cases(u, 'values', [
        ('none', Eq(F('m_value', A(0)), I_(0)), [Ret(('some', en['zero_value']))]),
        ('some', Ne(F('m_value', A(0)), I_(0)), [Ret(NONE)]),
    ])
    u = c.fn(VAL + 'check_input_structure', **inl)
    v = F('m_value', F('m_prevout_data', A(0)))
    c.cases(u, 'values', [
        ('none', Eq(v, I_(0)), [Ret(PR(lambda t: t[0] == 'some' and dict(t[1][2]) == {'first': en['data_error'], 'second': ('some', en['zero_value'])}))]),
        ('some', Ne(v, I_(0)), [Ret(NONE)]),
    ])

    # one witness
    W = ('at', WIT, A(1))
    LEN, PROG = ('i', 97), ('i', 33)
    u = c.fn(WITC, inline=['validation::check_p2pk', r'\(anonymous'], opaque=['tx_id$', 'hash_data$'], eventful=['secp256k1_xonly_pubkey_parse', 'secp256k1_schnorrsig_verify'], split=False)
    commit = F('m_witness_program_commitment', F('m_prevout_data', ('at', INP, A(1))))

    def load(p, i, t):
        t = unver(t)
        if t[0] != 'loc':
            return t
        v = i.st.load(t)
        return p.st.load(t) if v == t else v

    def data(p, i, t):
        """(start, number) of the witness bytes t holds"""
        v = load(p, i, t)
        if is_call(v, 'bytes'):
            return slice_(v[2][0]) + (v[2][1],)
        return slice_(v)

    def slice_(t):
        if t[0] == 'at' and t[1] == W:
            return (t[2],)
        if t == W:
            return (I_(0),)
        if t[0] == 'lin' and t[2] == ((W, 1),):
            return (I_(t[1]),)
        return (None,)

    def program(p):
        for t in {t for P in p.st.bounds for t, co in P}:
            if is_call(t, 'cbdc::hash_data') and slice_(t[2][0]) == (I_(0),) and t[2][1] == PROG:
                r = p.st.known(compare('==', t, commit))
                if r is not None:
                    return r
        return None

    def calls(p, q):
        return [i for i in p.items if i.kind == 'call' and qmatch(q, i.q)]

    def keys(p):
        """the calls that parse the key in the witness"""
        return [i for i in calls(p, 'secp256k1_xonly_pubkey_parse') if data(p, i, i.args[2]) in ((I_(1), ('i', 32)), (I_(1),))]

    def parsed(p):
        return next((r for r in (p.st.known(compare('==', result(i), I_(1))) for i in keys(p)) if r is not None), None)

    def signed(p):
        ks = keys(p)
        for i in calls(p, 'secp256k1_schnorrsig_verify'):
            msg = load(p, i, i.args[2])
            if data(p, i, i.args[1]) not in ((PROG, ('i', 64)), (PROG,)) or not is_call(msg, TX + 'tx_id') or msg[2] != (A(0),):
                continue
            key = load(p, i, i.args[3])
            if any(key == ('out', result(k), 1, 1) or key == ('out', result(k), 1, len(k.args)) for k in ks) or key[0] == 'out' and any(key[1] == result(k) for k in ks):
                r = p.st.known(compare('==', result(i), I_(1)))
                if r is not None:
                    return r
        return None
    empty, p2pk, length = Empty(W), Eq(at(W, I_(0)), I_(0)), Eq(('size', W), LEN)

    def wit(p):
        ctx = Ctx(p.st, p.items)
        h = lambda x: holds(x, ctx)
        long_ = h(length)
        # a witness of the right length is not empty
        e = h(empty)
        true = {
            'missing_witness_program_type': e is True,
            'unknown_witness_program_type': e is False and h(p2pk) is False,
            'malformed': h(p2pk) is True and long_ is False,
            'program_mismatch': h(p2pk) is True and long_ is True and program(p) is False,
            'invalid_public_key': h(p2pk) is True and long_ is True and parsed(p) is False,
            'invalid_signature': h(p2pk) is True and long_ is True and signed(p) is False,
        }
        if p.ret == NONE:
            for n, ok, why in (('type', h(p2pk) is True, 'accepts a witness of an unknown type'), ('length', long_ is True, 'accepts a witness of another length'),
                               ('program', program(p) is True, 'accepts a witness program other than the one the output commits to'),
                               ('key', parsed(p) is True, 'accepts a witness whose key is not a public key'),
                               ('signature', signed(p) is True, 'accepts a witness without a valid signature of the transaction by its key')):
                if not ok:
                    return why
            return None
        for n, ok in true.items():
            if p.ret == ('some', en[n]):
                return None if ok else 'reports %s of a witness for which it has not been established' % n
        return 'returns %s' % pp(p.ret)[:120]
    c.every(u, 'witness', wit)
    c.ob('witness', any(p.ret == NONE for p in u.rets), c.where(u), 'never accepts a witness')
    # the bytes of the witness are looked at only where they exist
    for p in u.paths:
        for t in {t for P in p.st.bounds for t, co in P if t[0] == 'at' and t[1] == W}:
            c.ob('witness length', holds(empty, Ctx(p.st, p.items)) is False, c.where(u, p), 'reads the type of an empty witness', p)
    u = c.fn(VAL + 'get_p2pk_witness_commitment', opaque=['hash_data$'])

    def committed(p):
        r = p.ret
        if not is_call(r, 'cbdc::hash_data'):
            return 'returns %s' % pp(r)[:120]
        L = unver(r[2][0])
        n = r[2][1]
        if n != ('size', r[2][0]) and n != PROG and not (n[0] == 'size' and unver(n[1]) == L):
            return 'the digest is over another number of bytes'
        seq = program_bytes(p, L)
        return None if seq == [I_(0), A(0)] or seq == [c.enum(VAL + 'witness_program_type::p2pk'), A(0)] else 'the digest is not over the type byte and the key'
    c.every(u, 'commitment', committed)


def program_bytes(p, L):
    """what the byte vector L is made of, in order"""
    seq = None
    for i in p.items:
        if i.kind != 'mut' or unver(i.obj) != L:
            continue
        a = i.args
        if seq is None:
            seq = [] if i.pre in (None, NONE) or i.pre[0] in ('list', 'new') else [i.pre[2][0] if is_call(i.pre, 'cbdc::to_vector') else unver(i.pre)]
        if i.q == 'other':
            b = [t for t in a if t[0] != 's']
            if len(b) == 2 and b[0][0] == 'begin':
                seq.insert(0, b[1])
                continue
            return None
        if i.q == 'push_back':
            seq.append(a[-1])
        elif i.q == 'append':
            seq.append(a[-1][2][0] if is_call(a[-1], 'cbdc::to_vector') else unver(a[-1]))
        elif i.q == 'push_front':
            seq.insert(0, a[-1])
        elif i.q not in ('reserve',):
            return None
    return seq


def mapped(p, C, D, val):
    """container C is filled with val(x) for every x of D, in order"""
    muts = [s for s in walk(p.items, p.st) if s.ev.kind in ('mut', 'set') and (unver(s.ev.obj) == C or s.ev.obj[0] == 'at' and unver(s.ev.obj[1]) == C) and s.ev.q not in ('reserve', 'resize')]
    if p.st.known(compare('==', ('size', D), ('i', 0))) is True:
        return None if not muts else ('%s is given more than it should hold' % pp(C), muts[0].ev)
    for lp in eachloop(p, D, 'all'):
        for own in (False, True):
            x = X(lp.dom, lp.L, own)
            v = val(x)
            ok = True
            for e in lp.edges:
                w = [i for i in e.items if i.kind == 'mut' and unver(i.obj) == C and i.q == 'push_back' or i.kind == 'set' and i.obj[0] == 'at' and unver(i.obj[1]) == C and i.obj[2] == x.i]
                if len(w) != 1 or w[0].args[-1] not in v:
                    ok = False
            if ok and all(s.loops and s.loops[0][0] is lp for s in muts):
                return None
    return '%s is not filled with what each element of %s stands for' % (pp(C), pp(D))


def lexi(*fields):
    """returns whether this precedes the argument, field by field"""
    def f(p):
        tup = lambda o: ('obj', 'std::tuple', (('first', F(fields[0], o)), ('second', F(fields[1], o)))) if len(fields) == 2 else None
        want = p.st.known(compare('<', tup(THIS), tup(A(0)))) if tup(THIS) else None
        if want is None:
            want = False
            for n in fields:
                a, b = F(n), F(n, A(0))
                if p.st.known(compare('==', a, b)) is True:
                    continue
                lt = p.st.known(compare('<', a, b))
                if lt is not False:
                    want = lt
                elif p.st.known(compare('==', a, b)) is None and p.st.known(compare('<', b, a)) is not True and n != fields[-1]:
                    want = None
                break
        if p.ret not in (TRUE, FALSE):
            return 'returns %s' % pp(p.ret)[:100]
        return None if want is (p.ret == TRUE) else 'orders by something else than %s' % ', '.join(fields)
    return f


def equal(*fields, neg=False):
    def f(p):
        h = holds(And(*[Eq(F(n), F(n, A(0))) for n in fields]), Ctx(p.st, p.items))
        if h is None and neg:
            h = p.st.known(compare('==', THIS, A(0)))
        if h is None:
            return 'equality is not decided by %s' % ', '.join(fields)
        return None if p.ret == (TRUE if h is not neg else FALSE) else 'equality does not follow from %s' % ', '.join(fields)
    return f


@prop('T02', files=[T_ + 'transaction.cpp', 'util/common/hash.cpp'])
def t02(c):
    """identifiers are digests of exactly what they identify"""
    FT, CT = TX + 'full_tx', TX + 'compact_tx'
    for cl, ns in ((FT, ('m_inputs', 'm_outputs', 'm_witness')), (CT, ('m_id', 'm_inputs', 'm_uhs_outputs', 'm_attestations')), (TX + 'input', ('m_prevout', 'm_prevout_data'))):
        for n in ns:
            c.field(cl, n)
    c.every(c.fn('cbdc::hash_data'), 'digest', digest([('raw', A(0), A(1))]))
    c.every(c.fn(TX + 'tx_id'), 'transaction id', digest([('buf', INP), ('buf', OUT)]))
    c.every(c.fn(TX + 'input::hash'), 'input id', digest([('buf', THIS)]))
    n32 = PR(lambda t: t == ('i', 32) or t == ('size', A(0)))
    c.every(c.fn(TX + 'uhs_id_from_output'), 'output id', digest([('raw', A(0), n32), ('raw', A(1), ('i', 8)), ('buf', A(2))]))
    def rebuilt(t):
        d = {tuple(x[1] for x in ps): v for ps, v in t[2]} if t[0] == 'with' and t[1] != THIS else {}
        return set(d) <= {('m_id',), ('m_inputs',), ('m_uhs_outputs',), ('m_attestations',)} and all(d.get((n,)) == F(n) for n in ('m_id', 'm_inputs', 'm_uhs_outputs')) and t[1][0] in ('loc', 'new') and (
            ('m_attestations',) not in d or empty_list(d[('m_attestations',)]))
    noatt = PR(lambda t: rebuilt(t) or t[0] == 'with' and t[1] == THIS and len(t[2]) == 1 and t[2][0][0] == (('fld', 'm_attestations'),) and empty_list(t[2][0][1]) or t[0] == 'obj' and qmatch('compact_tx', t[1])
               and all(dict(t[2]).get(n) == F(n) for n in ('m_id', 'm_inputs', 'm_uhs_outputs')) and dict(t[2]).get('m_attestations', ('list', '', ()))[-1] == ())
    c.every(c.fn(CT + '::hash'), 'signed payload', digest([('buf', noatt)]))
    u = c.fn(CT + '::compact_tx', params=lambda f: len(f['params']) == 1 and 'full_tx' in f['params'][0].get('t', ''), opaque=['tx_id$'])
    TID = ('call', TX + 'tx_id', (A(0),), 0)
    c.every(u, 'compact form', Final(F('m_id'), TID),
            lambda p: mapped(p, F('m_inputs'), INP, lambda x: {('call', TX + 'input::hash', (x.e,), 0)}),
            lambda p: mapped(p, F('m_uhs_outputs'), OUT, lambda x: {('call', TX + 'uhs_id_from_output', (i, x.i, x.e), 0) for i in (TID, F('m_id'))}))
    three = [f for f in c.find(TX + 'input_from_output') if len(f['params']) == 3]
    two = [f for f in c.find(TX + 'input_from_output') if len(f['params']) == 2]
    if len(three) != 1 or len(two) != 1:
        raise Anchor('input_from_output: %d and %d overloads' % (len(three), len(two)))
    for f, ids in ((three[0], [A(2)]), (two[0], [TID])):
        u = c.unit(f, opaque=['tx_id$'], inline=['input_from_output$'])

        def made(p):
            r = p.ret[1] if p.ret[0] == 'some' else NONE
            get = lambda path: reading(r, path)
            if get(('m_prevout_data',)) != ('at', OUT, A(1)):
                return 'the input does not carry the output it spends'
            if get(('m_prevout', 'm_index')) != A(1) or get(('m_prevout', 'm_tx_id')) not in ids:
                return 'the input does not name the output it spends'
            return None
        c.cases(u, 'spending an output', [
            ('no such output', Ge(A(1), Size(OUT)), [Ret(NONE)]),
            ('output', Lt(A(1), Size(OUT)), [made]),
        ])
    c.every(c.fn(TX + 'out_point::operator<'), 'order of outpoints', lexi('m_tx_id', 'm_index'))
    for cl, fs in (('out_point', ('m_tx_id', 'm_index')), ('output', ('m_witness_program_commitment', 'm_value'))):
        u = c.fn(TX + cl + '::' + cl, params=lambda f: len(f['params']) == 2)
        c.every(u, 'construction', *[Final(F(n), A(i)) for i, n in enumerate(fs)])
    for cl, fs in (('out_point', ('m_tx_id', 'm_index')), ('output', ('m_witness_program_commitment', 'm_value')), ('input', ('m_prevout', 'm_prevout_data')),
                   ('full_tx', ('m_inputs', 'm_outputs', 'm_witness')), ('compact_tx', ('m_id',))):
        c.every(c.fn(TX + cl + '::operator=='), 'equality', equal(*fs))
    for cl, fs in (('output', ('m_witness_program_commitment', 'm_value')), ('input', ('m_prevout', 'm_prevout_data'))):
        c.every(c.fn(TX + cl + '::operator!='), 'equality', equal(*fs, neg=True))
    for f in c.find(TX + 'compact_tx_hasher::operator()'):
        c.every(c.unit(f), 'hash of equal transactions', lambda p: None if not mentions_t(p.ret, PR(lambda t: t[0] == 'fld' and t[1] == A(0) and t[2] != 'm_id' or t == THIS)) else 'equal transactions hash differently')


def reading(t, path):
    """the member at path of the value t"""
    while True:
        if not path:
            return t
        if t[0] == 'with':
            for ps, v in t[2]:
                names = tuple(x[1] for x in ps)
                if names == path[:len(names)]:
                    return reading(v, path[len(names):])
            t = t[1]
        elif t[0] == 'obj':
            t = dict(t[2]).get(path[0], NONE)
            path = path[1:]
        elif t[0] == 'new' and t[2]:
            if t[1] != TX + 'out_point' or len(t[2]) != 2 or path[0] not in ('m_tx_id', 'm_index'):
                return NONE
            t = t[2][path[0] == 'm_index']
            path = path[1:]
        elif t[0] in ('fld', 'at', 'arg', 'elem'):
            t = F(path[0], t)
            path = path[1:]
        else:
            return NONE


@prop('T03', files=[T_ + 'transaction.cpp', T_ + 'validation.cpp', 'util/common/keys.cpp'])
def t03(c):
    """attestations are signatures of the transaction by enough known sentinels"""
    CT = TX + 'compact_tx'
    for t, r in c.P.recs.items():
        if r['q'] == CT:
            ty = next((f['t'] for f in r['fields'] if f['n'] == 'm_attestations'), '')
            c.ob('one attestation per key', ty.startswith(('std::unordered_map<', 'std::map<')), 'src/uhs/transaction/transaction.hpp (compact_tx::m_attestations)', 'two attestations of one key count twice: %s' % ty)
    HASH = ('call', CT + '::hash', (THIS,), 0)
    EV = ['secp256k1_']

    def load(p, i, t):
        t = unver(t)
        if t[0] != 'loc':
            return t
        v = i.st.load(t)
        return p.st.load(t) if v == t else v

    def calls(p, q):
        return [i for i in p.items if i.kind == 'call' and qmatch(q, i.q)]

    def outof(v, ev):
        return v[0] == 'out' and v[1] == result(ev)
    u = c.fn('cbdc::pubkey_from_privkey', eventful=EV)

    def key(p):
        for s in calls(p, 'secp256k1_xonly_pubkey_serialize'):
            if not outof(p.ret, s):
                continue
            x = load(p, s, s.args[2])
            for k in calls(p, 'secp256k1_keypair_xonly_pub'):
                if outof(x, k):
                    y = load(p, k, k.args[3])
                    if any(outof(y, m) and load(p, m, m.args[2]) == A(0) for m in calls(p, 'secp256k1_keypair_create')):
                        return None
        return 'the public key is not the one of the private key'
    c.every(u, 'public key', key)
    u = c.fn(CT + '::sign', opaque=['pubkey_from_privkey$', 'compact_tx::hash$'], eventful=EV)

    def signs(p):
        r = p.ret
        d = dict(r[2]) if r[0] == 'obj' else {}
        f = d.get('first', NONE)
        if not is_call(f, 'cbdc::pubkey_from_privkey') or f[2][0] != A(1):
            return 'the attestation does not carry the key it is made with'
        for s in calls(p, 'secp256k1_schnorrsig_sign'):
            if outof(d.get('second', NONE), s):
                if load(p, s, s.args[2]) != HASH:
                    return ('signs %s' % pp(load(p, s, s.args[2]))[:100], s)
                k = load(p, s, s.args[3])
                if not any(outof(k, m) and load(p, m, m.args[2]) == A(1) for m in calls(p, 'secp256k1_keypair_create')):
                    return ('signs with another key', s)
                return None
        return 'the attestation does not carry the signature'
    c.every(u, 'attestation', signs)
    u = c.fn(CT + '::verify', opaque=['compact_tx::hash$'], eventful=EV)

    def verifies(p):
        ks = [k for k in calls(p, 'secp256k1_xonly_pubkey_parse') if load(p, k, k.args[2]) == F('first', A(1))]
        sg = []
        for s in calls(p, 'secp256k1_schnorrsig_verify'):
            if load(p, s, s.args[1]) == F('second', A(1)) and load(p, s, s.args[2]) == HASH and any(outof(load(p, s, s.args[3]), k) for k in ks):
                sg.append(s)
        is1 = lambda e: p.st.known(compare('==', result(e), I_(1)))
        good = any(is1(k) is True for k in ks) and any(is1(s) is True for s in sg)
        bad = any(is1(k) is False for k in ks) or any(is1(s) is False for s in sg)
        if p.ret == TRUE:
            return None if good else 'accepts an attestation that is not a signature of this transaction by its key'
        if p.ret == FALSE:
            return None if bad else 'refuses an attestation that has not been found to be bad'
        return 'returns %s' % pp(p.ret)[:100]
    c.every(u, 'verification', verifies)
    c.ob('verification', any(p.ret == TRUE for p in u.rets), c.where(u), 'never accepts an attestation')
    u = c.fn(VAL + 'check_attestations', opaque=['compact_tx::verify$'], eventful=['compact_tx::verify$'])
    ATT = F('m_attestations', A(0))

    def good(x):
        def f(ctx):
            inn = [holds(In(A(1), k), ctx) for k in (x.k, F('first', x.e))]
            a = next((r for r in inn if r is not None), None)
            v = None
            for t, pol in ctx.st.bools.items():
                if is_call(t, CT + '::verify') and t[2][0] == A(0) and t[2][-1] == x.e:
                    v = pol
            if a is False or v is False:
                return False
            return True if a and v else None
        return f
    c.cases(u, 'enough attestations', [
        ('enough', And(Ge(Size(ATT), A(2)), All(ATT, good)), [Ret(TRUE)]),
        ('not enough', Not(And(Ge(Size(ATT), A(2)), All(ATT, good))), [Ret(FALSE)]),
    ])
