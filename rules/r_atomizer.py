"""Atomizer architecture: atomizer, shards, archiver, watchtower."""
from lib import *

AT = 'cbdc::atomizer::'
D = 'uhs/atomizer/'
WT = 'cbdc::watchtower::'
BEST, DEPTH = F('m_best_height'), F('m_spent_cache_depth')
SPENT, TXS, DONE = F('m_spent'), F('m_txs'), F('m_complete_txs')


def terr(id_, info):
    """some(tx_error{id, info}) / tx_error{id, info}"""
    def f(v):
        if v[0] == 'some':
            v = v[1]
        if v[0] == 'new' and v[1] == WT + 'tx_error' and len(v[2]) == 2:
            return match(id_, v[2][0], {}) and match(info, plain(v[2][1]), {})
        return False
    return PR(f)


def plain(v):
    while v[0] in ('var', 'some'):
        v = v[2] if v[0] == 'var' else v[1]
    return v


def errk(name):
    return PR(lambda v: v[0] in ('obj', 'new') and v[1] == WT + 'tx_error_' + name)


def untouched(*fields):
    """the object's fields are left as they were"""
    def f(p):
        for q in fields:
            for s in walk(p.items, p.st):
                if touches(q)(s.ev):
                    return ('changes %s' % pp(q), s.ev)
        return None
    return f


def within(p, hi, off):
    """0..hi covers exactly the offsets up to off, and stays in the cache"""
    ctx = Ctx(p.st, p.items)
    last = l_add(hi, ('i', -1))
    if last == off:
        return holds(Le(off, DEPTH), ctx) is True
    if last[0] == 'call' and last[1] == 'min' and set(last[2]) == {off, DEPTH}:
        return True
    if last == DEPTH:
        return holds(Ge(off, DEPTH), ctx) is True
    return False


def cells(p, rng, C):
    """complete nested loops over offsets 0..hi (rng(hi)) and the elements of
    C: [(offset, element, edge)]; None when there is no such loop"""
    def inner(e, test):
        ls = [i for i in e.items if i.kind == 'loop' and i.mode == 'all' and test(i.dom)]
        return ls[0] if len(ls) == 1 else None

    def isr(d):
        return d[0] == 'range' and d[1] == ('i', 0) and rng(d[2])

    def isc(d):
        return d[0] == 'each' and (d[1] == C or unver(d[2]) == C)
    for lp in p.items:
        if lp.kind != 'loop' or lp.mode != 'all':
            continue
        for a, b in ((isr, isc), (isc, isr)):
            if not a(lp.dom):
                continue
            out = []
            for e in lp.edges:
                il = inner(e, b)
                if il is None:
                    if a is isr and e.st.known(compare('==', ('size', C), ('i', 0))) is True:
                        continue
                    break
                r, c = (lp, il) if a is isr else (il, lp)
                o = ('rix', r.dom[1], r.dom[2], r.L)
                x = X(c.dom, c.L)
                out += [(o, x, e2) for e2 in il.edges]
            else:
                return lp, out
    return None


def spent_scan(p, rng, C):
    """(container that collects exactly the elements of C found in
    m_spent[offset] for the scanned offsets, why not)"""
    cs = cells(p, rng, C)
    if cs is None and p.st.known(compare('==', ('size', C), ('i', 0))) is True:
        return ANYC, None
    if cs is None:
        return None, 'does not look up every input at every offset it has to'
    lp, cs = cs
    cand = None
    for o, x, e in cs:
        got = {unver(i.obj) for i in e.items if i.kind == 'mut' and i.q in ADD and i.args and i.args[0] in (x.e, x.at(C))}
        h = holds(In(at(SPENT, o), x.e), Ctx(e.st, e.items))
        if h is None:
            return None, 'an input is not looked up in the spent cache'
        if h and not got:
            return None, 'a spent input is not reported'
        if not h and got:
            return None, 'an unspent input is reported as spent'
        if h:
            cand = got if cand is None else cand & got
    if cs and not cand:
        return None, 'spent inputs are not collected'
    return (('ver', cand.pop(), lp.L) if cand else ANYC), None


ANYC = ('none',)


def collected(p, E):
    """is the collected set known to be empty on this path?"""
    return True if E == ANYC else p.st.known(compare('==', ('size', E), ('i', 0)))


def errset(E):
    return PR(lambda v: v[0] in ('obj', 'new') and v[1] == WT + 'tx_error_inputs_spent' and any(t == E for t in subterms(v)))


def decide(p, E, tx, ids, accept):
    """error with exactly the spent inputs and no change, or acceptance"""
    none = p.st.known(compare('==', ('size', F('m_inputs', tx)), ('i', 0))) is True
    if is_some(p.ret) and none and E == ANYC:
        # nothing was collected: the path cannot be taken
        if any(t[0] == 'ver' and not inflow(p, t) and p.st.known(compare('>=', ('size', t), ('i', 1))) is True for t in subterms(p.ret)):
            return None
    if is_some(p.ret):
        if E == ANYC or collected(p, E) is True:
            return 'rejects a transaction none of whose inputs is spent'
        if not match(terr(ids, errset(E)), p.ret, {}):
            return 'a double spend is answered with %s' % pp(p.ret)[:140]
        for q in (SPENT, DONE):
            r = untouched(q)(p)
            if r:
                return r
        return None
    if not none and collected(p, E) is not True:
        return 'accepts a transaction with a spent input'
    for e in accept:
        r = e(p)
        if r:
            return r
    return None


def spends(tx):
    """all inputs of tx enter the newest spent set, and nothing leaves"""
    I = F('m_inputs', tx)
    slots = (('at', SPENT, ('i', 0)), ('front', SPENT))

    def f(p):
        if p.st.known(compare('==', ('size', I), ('i', 0))) is not True and not any(t == I for q in slots for t in inflow(p, q)):
            return 'the inputs are not recorded as spent'
        for s in walk(p.items, p.st):
            if s.ev.kind in ('mut', 'set') and s.ev.obj is not None and (s.ev.obj == SPENT or touches(SPENT)(s.ev)):
                if s.ev.obj not in slots or s.ev.kind == 'set' or s.ev.q not in ADD:
                    return ('the spent cache loses or misplaces entries', s.ev)
        return None
    return f


def queued(tx):
    def f(p):
        s = enc(p, mut(DONE))
        if len(s) != 1 or s[0].loops or s[0].ev.q not in ADD or s[0].ev.args[-1] != tx:
            return 'the accepted transaction is not queued for the next block exactly once'
        return None
    return f


@prop('A01', files=[D + 'atomizer/atomizer.cpp'])
def a01(c):
    """no double spend"""
    for n in ('m_best_height', 'm_spent_cache_depth', 'm_spent', 'm_txs', 'm_complete_txs'):
        c.field(AT + 'atomizer', n)
    off = l_add(BEST, A(0), -1)
    tx = A(1)
    I = F('m_inputs', tx)
    ids = F('m_id', tx)
    stale = And(Gt(off, DEPTH), Not(Empty(I)))
    u = c.fn(AT + 'atomizer::insert_complete', split=False)

    def settle(p):
        E, why = spent_scan(p, lambda hi: within(p, hi, off), I)
        if why:
            return why
        return decide(p, E, tx, ids, [spends(tx), queued(tx)])
    reject = [Ret(terr(ids, errk('stxo_range'))), untouched(SPENT, TXS, DONE, BEST)]
    c.cases(u, 'complete transaction', [
        ('too old', stale, reject),
        ('checkable', Not(stale), [settle, untouched(TXS, BEST, DEPTH)]),
    ])
    u = c.fn(AT + 'atomizer::insert', split=False)

    def merged(p):
        """the new attestations join those received for the same height"""
        if not [s for s in enc(p, M(lambda e: e.kind == 'mut' and e.q in ADD and mentions_t(e.obj, TXS), 'add')) if good_slot(p, s)]:
            return 'the attestations are not recorded for their height'
        return None

    def good_slot(p, s):
        o = s.ev.obj
        if o[0] == 'at' and o[1] == TXS:
            return within(p, l_add(o[2], ('i', 1)), off) and s.ev.args and s.ev.args[0] == tx and A(2) in s.ev.args
        if o[0] == 'at' and o[1][0] == 'at' and o[1][1] == TXS and o[2] == tx:
            return within(p, l_add(o[1][2], ('i', 1)), off) and A(2) in s.ev.args
        return False

    def pending(p):
        r = merged(p)
        if r:
            return r
        # the union of all attestations, and the oldest offset used
        for lp in p.items:
            if lp.kind == 'loop' and lp.mode == 'all' and lp.dom[0] == 'range' and lp.dom[1] == ('i', 0) and l_add(lp.dom[2], ('i', -1)) == DEPTH:
                o = ('rix', lp.dom[1], lp.dom[2], lp.L)
                here = ('at', TXS, o)
                tot = old = None
                idx = set()
                ok = bool(lp.edges)
                for e in lp.edges:
                    h = holds(In(here, tx), Ctx(e.st, e.items))
                    adds = [i for i in e.items if i.kind == 'mut' and i.q in ADD]
                    t = {unver(i.obj) for i in adds if ('at', here, tx) in [unver(a) if a[0] == 'ver' else a for a in i.args]}
                    olds = {q for q, v in e.st.mem.items() if q[0] == 'loc' and (v == ('lv', q, lp.L) if not h else v == o or v[0] == 'call' and v[1] == 'max' and set(v[2]) == {o, ('lv', q, lp.L)}) and lp.st.mem.get(q) == ('i', 0)}
                    if h is None or (h and not t) or (not h and adds):
                        ok = False
                        break
                    old = olds if old is None else old & olds
                    if h:
                        tot = t if tot is None else tot & t
                        idx |= {unver(i.obj) for i in adds if i.args and i.args[0] == o}
                if ok and tot and old:
                    return settle_pending(p, lp, tot, old, idx, here)
        return 'does not add up the attestations of all heights'

    def settle_pending(p, lp, tot, old, idx, here):
        full = None
        for T in tot:
            r = p.st.known(compare('==', ('size', p.st.load(T)), ('size', I)))
            full = r if r is not None else full
        if full is None:
            return 'does not compare the attestations with the inputs'
        if not full:
            if p.ret[0] != 'none':
                return 'rejects a transaction that still lacks attestations'
            r = untouched(SPENT, DONE)(p)
            if r:
                return r
            if [s for s in walk(p.items, p.st) if s.ev.kind == 'mut' and s.ev.q not in ADD and touches(TXS)(s.ev)]:
                return 'drops a transaction that still lacks attestations'
            return None
        lvs = {('lv', q, lp.L) for q in old} | {p.st.load(q) for q in old}
        E, why = spent_scan(p, lambda hi: l_add(hi, ('i', -1)) in lvs, I)
        if why:
            return why

        def moved(p):
            """pending entries go; the transaction is queued once"""
            for l2 in p.items[p.items.index(lp) + 1:]:
                if l2.kind != 'loop' or l2.mode != 'all' or not l2.edges:
                    continue
                x = X(l2.dom, l2.L) if l2.dom[0] == 'each' else None
                if x and x.C in idx:
                    k = x.k
                elif l2.dom[0] == 'range' and l2.dom[1] == ('i', 0) and l_add(l2.dom[2], ('i', -1)) == DEPTH:
                    k = ('rix', l2.dom[1], l2.dom[2], l2.L)
                else:
                    continue
                once = True
                gone = True
                inl = False
                for e in l2.edges:
                    er = [i for i in e.items if i.kind == 'mut' and i.q == 'erase' and i.obj == ('at', TXS, k)]
                    there = True if x else holds(In(('at', TXS, k), tx), Ctx(e.st, e.items))
                    if there is not False and not er:
                        gone = False
                    ps = [i for i in e.items if mut(DONE)(i)]
                    inl = inl or bool(ps)
                    isold = any(e.st.known(compare('==', k, v)) is True for v in lvs)
                    notold = any(e.st.known(compare('==', k, v)) is False for v in lvs)
                    if isold and len(ps) != 1 or notold and ps or not isold and not notold and ps:
                        once = False
                outer = [s for s in walk(p.items, p.st) if mut(DONE)(s.ev) and not s.loops]
                if inl and not once or inl and outer or not inl and len(outer) != 1:
                    return ('the completed transaction is not queued exactly once', l2)
                if not gone:
                    return ('a completed transaction stays pending', l2)
                return None
            if not lp.edges:
                return None
            return 'the completed transaction is not moved to the next block'
        return decide(p, E, tx, ids, [spends(tx), moved])
    c.cases(u, 'attestation', [
        ('too old', stale, reject),
        ('usable', Not(stale), [pending, untouched(BEST, DEPTH)]),
    ])

    u = c.fn(AT + 'atomizer::make_block', split=False)
    H = l_add(BEST, ('i', 1))

    def block(p):
        v = p.ret
        d = dict(v[2]) if v[0] == 'obj' else {}
        b = dict(d.get('first', ('obj', '', ()))[2]) if d.get('first', (0,))[0] == 'obj' else {}
        if b.get('m_height') != H:
            return 'the block has height %s' % pp(b.get('m_height', ('none',)))
        if b.get('m_transactions') != DONE:
            return 'the block does not hold the accepted transactions'
        if p.st.load(BEST) != H:
            return 'the best height is not that of the block'
        if p.st.known(compare('==', ('size', p.st.load(DONE)), ('i', 0))) is not True and p.st.load(DONE) != ('list', 'std::vector', ()) and p.st.load(DONE)[0] != 'list':
            return 'transactions of the block are kept for the next one'
        return None
    last = ('at', TXS, DEPTH)

    def expired(p):
        d = dict(p.ret[2]) if p.ret[0] == 'obj' else {}
        E = unver(d.get('second', ('none',)))
        if p.st.known(compare('==', ('size', last), ('i', 0))) is True:
            return None
        for i, lp in enumerate(p.items):
            if lp.kind == 'loop' and lp.mode == 'all' and lp.dom[0] == 'each' and lp.dom[1] == last and lp.dom[2] == last:
                x = X(lp.dom, lp.L)
                for e in lp.edges:
                    a = [j for j in e.items if j.kind == 'mut' and unver(j.obj) == E and j.q in ADD]
                    if len(a) != 1 or not any(match(terr(F('m_id', k), errk('incomplete')), a[0].args[-1], {}) for k in (x.k, F('first', x.e))):
                        return ('a transaction that expires is not reported', lp)
                return None
        return 'transactions that expire are not reported'

    def rotated(p):
        """slot i becomes slot i-1, downwards from the last, then slot 0 is emptied"""
        for C in (SPENT, TXS):
            z = ('at', C, ('i', 0))
            lpos = None
            for i, lp in enumerate(p.items):
                if lp.kind != 'loop' or lp.mode != 'all' or not lp.edges:
                    continue
                if all(shifts(lp, e, C) for e in lp.edges) and any(down(lp, e, p) for e in lp.edges):
                    lpos = i
            if lpos is None:
                return 'the slots of %s do not age by one block' % pp(C)
            for i, it in enumerate(p.items):
                if i < lpos and it.kind != 'loop' and touches(C)(it):
                    return ('%s is changed before it ages' % pp(C), it)
            if not any(i > lpos and (mut(z, ('clear',))(it) or (it.kind == 'set' and it.obj == z and it.args[0][0] == 'list' and not it.args[0][2])) for i, it in enumerate(p.items) if it.kind != 'loop'):
                return 'the newest slot of %s is not emptied' % pp(C)
            for s in walk(p.items, p.st):
                if s.ev.kind in ('mut', 'set') and not s.loops and touches(C)(s.ev) and s.ev.obj != z:
                    return ('%s loses entries' % pp(C), s.ev)
                if s.ev.kind == 'mut' and s.ev.obj == z and s.ev.q not in ('clear', 'keep', 'reserve'):
                    return ('%s gains entries' % pp(C), s.ev)
        return None

    def shifts(lp, e, C):
        n = 0
        for it in e.items:
            if it.kind == 'loop':
                return False
            if it.kind in ('set', 'mut') and touches(C)(it):
                o = it.obj
                if it.kind == 'set' and o[0] == 'at' and o[1] == C and it.args[0] == ('at', C, l_add(o[2], ('i', -1))):
                    n += 1
                elif it.kind == 'set' and o[0] == 'at' and o[1] == C and it.args[0] == ('at', C, l_add(o[2], ('i', 1))) and n == 1:
                    continue  # second half of a swap
                else:
                    return False
        return n == 1

    def down(lp, e, p):
        """i runs from the depth down to 1"""
        for it in e.items:
            if it.kind == 'set' and it.obj[0] == 'at' and it.obj[1] in (SPENT, TXS):
                k = it.obj[2]
                for t in subterms(k):
                    if t[0] == 'lv' and t[2] == lp.L:
                        if e.st.load(t[1]) != l_add(t, ('i', -1)):
                            return False
                        d = l_add(k, t, -1)
                        start = l_add(lp.st.load(t[1]), d)
                        if start != DEPTH:
                            return False
                        # on exit nothing is left to shift: k <= 0
                        return p.st.known(compare('<=', k, ('i', 0))) is True or holds(Le(k, I_(0)), Ctx(p.st, p.items)) is True
        return False
    c.every(u, 'next block', block, expired, rotated, untouched(DEPTH))
    for f in c.find(AT + 'atomizer::atomizer'):
        k = c.unit(f)

        def sized(p):
            for C in (SPENT, TXS):
                if p.st.known(compare('==', ('size', p.st.load(C)), l_add(A(1), ('i', 1)))) is not True:
                    return '%s does not have one slot per usable height' % pp(C)
            return None
        c.every(k, 'caches', sized, Final(BEST, A(0)), Final(DEPTH, A(1)))


# ---------------------------------------------------------------- A02
REQ = {n: AT + n for n in ('aggregate_tx_notify_request', 'make_block_request', 'get_block_request', 'prune_request', 'tx_notify_request')}


def minimum(lp, val, p):
    """variables that end up as the smallest val(x) of a complete loop"""
    out = set()
    for C in dict.fromkeys(lp.dom[1:]):
        out |= smallest(lp, ('at', C, ('key', C, lp.L)), p)
    return out | smallest(lp, val(X(lp.dom, lp.L)), p)


def smallest(lp, v, p):
    out = set()
    for q in {q for e in lp.edges for q in e.st.mem if q[0] == 'loc'}:
        t = ('lv', q, lp.L)
        start = lp.st.load(q)
        ok = bool(lp.edges)
        took = False
        for e in lp.edges:
            w = e.st.load(q)
            less = e.st.known(compare('<', v, t))
            le = e.st.known(compare('<=', v, t))
            if w == v:
                took = True
                if less is not True and le is not True and not (start == ('i', 0) and e.st.known(compare('==', t, ('i', 0))) is True):
                    ok = False
            elif w == t:
                if less is not False and le is not False:
                    ok = False
            elif w[0] == 'call' and w[1] == 'min' and set(w[2]) == {t, v}:
                took = True
            else:
                ok = False
        if not ok or not took:
            continue
        # the start value must not survive: 0 is replaced by the first
        # element, otherwise it has to be at least every element
        zero = any(e.st.load(q) == v and e.st.known(compare('==', t, ('i', 0))) is True for e in lp.edges)
        big = start[0] == 'i' and start[1] >= 2 ** 63 or start[0] == 'call' and start[1].endswith('max')
        if start == ('i', 0) and zero or big:
            out.add(t)
            out.add(p.st.load(q))
    return out


@prop('A02', files=[D + 'atomizer/atomizer_raft.cpp', D + 'atomizer/state_machine.cpp', D + 'atomizer/controller.cpp'])
def a02(c):
    """attestations are added up, and each is applied once through the log"""
    R_ = AT + 'atomizer_raft'
    for n in ('m_txs', 'm_complete_txs', 'm_txs_mut', 'm_complete_mut'):
        c.field(R_, n)
    u = c.fn(R_ + '::tx_notify', split=False)
    N = A(0)
    tx, atts, h = F('m_tx', N), F('m_attestations', N), F('m_block_height', N)
    PEND, CMP = F('m_txs'), F('m_complete_txs')
    valid = PR(lambda t: is_call(t, 'check_attestations') and t[2][0] == tx and t[2][1] == F('m_opts.m_sentinel_public_keys') and t[2][2] == F('m_opts.m_attestation_threshold'))

    def checked(p):
        for a, pol in p.st.bools.items():
            if match(valid, a, {}):
                return pol
        return None

    def rec(p):
        v = checked(p)
        if v is None:
            return None if not enc(p, touches(PEND)) and not enc(p, touches(CMP)) else 'accepts a notification without checking its sentinel attestations'
        if v is False:
            return untouched(PEND, CMP)(p)
        new = p.st.known(('in', PEND, tx))
        # which set collects the indices, and that each enters it
        tgt = []
        for lp in p.items:
            if lp.kind != 'loop' or lp.mode != 'all' or lp.dom[0] != 'each' or lp.dom[1] != atts:
                continue
            x = X(lp.dom, lp.L)
            pair = ('obj', 'std::pair', (('first', x.e), ('second', h)))
            objs = {i.obj for e in lp.edges for i in e.items if i.kind == 'mut'}
            for C in objs:
                good = True
                for e in lp.edges:
                    a = [i for i in e.items if i.kind == 'mut' and i.obj == C]
                    had = any(b[0] == 'in' and b[2] == pair and unver(b[1]) == C and pol for b, pol in e.st.bools.items())
                    if not a and had:
                        continue
                    if len(a) != 1 or a[0].q not in ADD or not (a[0].args == (pair,) or a[0].args == (x.e, h)):
                        good = False
                if good:
                    tgt.append((C, lp))
        if p.st.known(compare('==', ('size', atts), ('i', 0))) is True and not tgt:
            tgt = [(('at', PEND, tx), None)]
        own = [t for t in tgt if t[0] == ('at', PEND, tx)]
        if not own:
            own = [t for t in tgt if [s for s in enc(p, M(lambda e: e.kind == 'mut' and e.obj == PEND and e.q in ADD and len(e.args) == 2 and e.args[0] == tx and unver(e.args[1]) == t[0], 'new entry'))]]
        if not own:
            return 'an attestation of the notification is not recorded'
        n = None
        for b, r in p.st.bounds.items():
            keys = [k for k, co in b]
            if ('size', F('m_inputs', tx)) in keys and len(keys) == 2:
                other = [k for k in keys if k != ('size', F('m_inputs', tx))][0]
                if other[0] == 'size' and unver(other[1]) in {t[0] for t in own} | {('at', PEND, tx)}:
                    n = p.st.known(compare('==', ('size', F('m_inputs', tx)), other))
        if n is None:
            return 'does not compare the attestations with the inputs'
        push_ = enc(p, mut(CMP))
        drop = [s for s in enc(p, mut(PEND)) if s.ev.q not in ADD]
        if n is False:
            if push_:
                return ('a transaction is completed before every input is attested', push_[0].ev)
            if drop:
                return ('a transaction that still lacks attestations is dropped', drop[0].ev)
            return None
        if len(push_) != 1 or push_[0].loops or push_[0].ev.q not in ADD:
            return 'a fully attested transaction is not completed exactly once'
        if not drop:
            return ('a completed transaction stays pending', push_[0].ev)
        v = push_[0].ev.args[-1]
        d = dict(v[2]) if v[0] == 'obj' else {}
        if d.get('m_tx') != tx:
            return ('completes %s' % pp(v)[:120], push_[0].ev)
        for lp in p.items:
            if lp.kind == 'loop' and lp.mode == 'all' and lp.dom[0] == 'each' and lp.edges:
                if not any(t[0] in ('mapped', 'at') and PEND in (t[1], unver(t[1])) and t[2] == tx or t in {o[0] for o in own} for t in (lp.dom[1], unver(lp.dom[2]))):
                    continue
                if d.get('m_oldest_attestation') in minimum(lp, lambda x: F('second', x.e), p):
                    return None
        return ('the oldest attestation is not the lowest height attested', push_[0].ev)
    c.every(u, 'notification', rec)
    c.locked(u, 'pending transactions', M(lambda e: e.kind in ('mut', 'set') and touches(PEND)(e), 'change'), F('m_txs_mut'), need=False)
    c.locked(u, 'complete transactions', mut(CMP), F('m_complete_mut'))
    for f in c.find(R_ + '::attestation_cmp::operator()'):
        c.every(c.unit(f, split=False), 'one attestation per input', Ret(compare('==', F('first', A(0)), F('first', A(1)))))
    for f in c.find(R_ + '::attestation_hash::operator()'):
        c.every(c.unit(f), 'one attestation per input', lambda p: None if not mentions_t(p.ret, PR(lambda t: t == F('second', A(0)))) else 'attestations of an input at two heights are kept apart')
    u = c.fn(R_ + '::send_complete_txs', opaque=['make_request'], eventful=['make_request'])
    mk = call('make_request')

    def batch(p):
        e = enc(p, mk)
        gone = p.st.load(CMP)
        if not e:
            if holds(Empty(CMP), Ctx(p.st, p.items)) is True:
                return None if p.ret == FALSE else 'claims to have sent a batch'
            return 'the complete transactions are not replicated'
        if len(e) != 1:
            return 'the complete transactions are replicated twice'
        if not any(t[0] == 'obj' and t[1] == REQ['aggregate_tx_notify_request'] and dict(t[2]).get('m_agg_txs') == CMP for t in subterms(e[0].ev.args[0])):
            return ('replicates %s' % pp(e[0].ev.args[0])[:140], e[0].ev)
        if holds(Empty(gone), Ctx(p.st, p.items)) is not True and not (gone[0] == 'list' and not gone[2]):
            return ('the transactions are sent again with the next batch', e[0].ev)
        if e[0].ev.args[1] != A(0):
            return ('the result is not passed on', e[0].ev)
        return None
    c.every(u, 'batch', batch)
    c.discipline(R_, ['m_txs_mut'], ['m_txs'])
    c.discipline(R_, ['m_complete_mut'], ['m_complete_txs'])

    # state machine
    u = c.fn(AT + 'state_machine::commit', opaque=['insert_complete', 'make_block'], eventful=['insert_complete', 'make_block'], split=False)
    BLK, ATM = F('m_blocks'), F('m_atomizer')
    rq = ('call', 'cbdc::from_buffer', (A(1),), 0)
    ins = call('insert_complete', obj=ATM)
    mkb = call('make_block', obj=ATM)

    def alt_(n):
        return ('as', rq, REQ[n])

    def resp(p, what):
        """the response is built from exactly this value"""
        if p.ret[0] == 'call' and p.ret[1].endswith('make_buffer'):
            return match(what, plain(p.ret[2][0]), {})
        return False

    def aggregated(p):
        L = F('m_agg_txs', alt_('aggregate_tx_notify_request'))
        E = None
        calls = enc(p, ins)
        lps = [lp for lp in p.items if lp.kind == 'loop' and lp.mode == 'all' and lp.dom[0] == 'each' and L in (lp.dom[1], lp.dom[2])]
        if len(lps) != 1:
            if p.st.known(compare('==', ('size', L), ('i', 0))) is True and not calls:
                return None
            return 'not every transaction of the batch is inserted'
        lp = lps[0]
        for x in (X(lp.dom, lp.L), X(lp.dom, lp.L, True)):
            for e in lp.edges:
                k = [i for i in e.items if ins(i)]
                if any(k1.args != (F('m_oldest_attestation', x.e), F('m_tx', x.e)) for k1 in k) or len(k) != 1:
                    break
                h_ = holds(Has(result(k[0])), Ctx(e.st, e.items))
                if h_ is None:
                    return ('an error of the atomizer is not looked at', lp)
                adds = {unver(i.obj) for i in e.items if i.kind == 'mut' and i.q in ADD and i.args and plain(i.args[0]) in (result(k[0]), ('val', result(k[0])))}
                if h_ and not adds or not h_ and adds:
                    return ('errors of the atomizer are not collected', lp)
                if h_:
                    E = adds if E is None else E & adds
            else:
                break
        else:
            return ('a transaction of the batch is not inserted exactly once with its oldest attestation', lp)
        if len(calls) != len(lp.edges):
            return 'inserts something else'
        if not E:
            return 'errors of the atomizer are not collected'
        C = ('ver', sorted(E)[0], lp.L)
        emp = p.st.known(compare('==', ('size', C), ('i', 0)))
        if emp is True:
            return None if p.ret == NULL else 'answers %s without an error' % pp(p.ret)[:100]
        return None if resp(p, PR(lambda v: unver(v) == C[1])) else 'the errors are not the answer'

    def made(p):
        e = enc(p, mkb)
        if len(e) != 1:
            return 'makes %d blocks' % len(e)
        b, er = F('first', result(e[0].ev)), F('second', result(e[0].ev))
        i = enc(p, mut(BLK))
        if len(i) != 1 or i[0].ev.q not in ADD + ('insert_or_assign',) or i[0].ev.args != (F('m_height', b), b):
            return 'the block is not stored under its height'
        ok = PR(lambda v: v[0] == 'obj' and dict(v[2]).get('m_blk') == b and dict(v[2]).get('m_errs') == er)
        return None if resp(p, ok) else ('the answer is not the block and its errors', e[0].ev)

    def fetched(p):
        k = F('m_block_height', alt_('get_block_request'))
        has = p.st.known(('in', BLK, k))
        if has is None:
            return 'does not look up the requested height'
        if not has:
            return None if p.ret == NULL else 'answers a block it does not have'
        return None if resp(p, PR(lambda v: v[0] == 'obj' and dict(v[2]).get('m_blk') == ('at', BLK, k))) else 'answers another block than the requested one'

    def pruned(p):
        k = F('m_block_height', alt_('prune_request'))
        if p.ret != NULL:
            return 'answers %s' % pp(p.ret)
        for s in enc(p, M(lambda e: e.kind == 'mut' and e.obj == BLK and e.q == 'erase_if', 'erase_if')):
            return None
        for lp in p.items:
            if lp.kind == 'loop' and lp.dom[0] == 'each' and lp.dom[1] == BLK and lp.mode == 'all':
                x = X(lp.dom, lp.L, True)
                for e in lp.edges:
                    er = [i for i in e.items if i.kind == 'mut' and i.obj == BLK]
                    olds = [e.st.known(compare('<', q, k)) for q in (x.k, F('m_height', x.v), F('m_height', ('fld', x.e, 'second')), F('first', x.e))]
                    old = next((o for o in olds if o is not None), None)
                    if old is None or old != bool(er) or any(i.q != 'erase' for i in er):
                        return ('does not remove exactly the blocks below the requested height', lp)
                return None
        if p.st.known(compare('==', ('size', BLK), ('i', 0))) is True:
            return None
        return 'does not go through all blocks'
    done_ = Final(F('m_last_committed_idx'), A(0))
    c.cases(u, 'log entry', [
        ('transactions', Is(rq, REQ['aggregate_tx_notify_request']), [aggregated, Never(mkb), untouched(BLK), done_]),
        ('make block', Is(rq, REQ['make_block_request']), [made, Never(ins), done_]),
        ('get block', Is(rq, REQ['get_block_request']), [fetched, Never(ins), Never(mkb), untouched(BLK), done_]),
        ('prune', Is(rq, REQ['prune_request']), [pruned, Never(ins), Never(mkb), done_]),
    ])

    # leader
    C_ = AT + 'controller'
    u = c.fn(C_ + '::server_handler', opaque=['make_request', 'is_leader', 'tx_notify'], split=False)
    req = ('call', 'cbdc::from_buffer', (F('m_pkt', A(0)),), 0)
    NODE = F('m_raft_node')
    lead = ('call', 'cbdc::raft::node::is_leader', (NODE,), 0)
    pushq = call('push', obj=F('m_notification_queue'))
    now = Never(call('tx_notify'))
    silent = [Never(pushq), Never(mk), now, Ret(NONE)]

    def forwarded(n):
        def f(p):
            e = enc(p, mk)
            if len(e) != 1 or plain(e[0].ev.args[0]) != ('as', req, REQ[n]):
                return 'the request is not passed to the log exactly once'
            return None
        return f
    ok = And(lead, Has(req))
    c.cases(u, 'request', [
        ('follower', Not(lead), silent),
        ('undecodable', And(lead, Not(Has(req))), silent),
        ('notification', And(ok, Is(req, REQ['tx_notify_request'])), [lambda p: None if [plain(s.ev.args[0]) for s in enc(p, pushq)] == [('as', req, REQ['tx_notify_request'])] else 'the notification is not queued exactly once', Never(mk), now]),
        ('prune', And(ok, Is(req, REQ['prune_request'])), [forwarded('prune_request'), Never(pushq), now]),
        ('block', And(ok, Is(req, REQ['get_block_request'])), [forwarded('get_block_request'), Never(pushq), now]),
    ])
    send = call('send', obj=F('m_atomizer_network', ANY))
    for s, k in c.closures(u, mk):
        res = ('call', 'nuraft::cmd_result::get', (A(0, k.depth),), 0)
        rsp = ('call', 'cbdc::from_buffer', (res,), 0)
        good = And(Not(Has(A(1, k.depth))), Has(res))
        c.cases(k, 'requested block', [
            ('unavailable', Not(good), [Never(call('send'))]),
            ('found', good, [lambda p: None if [(s.ev.args[0], s.ev.args[1]) for s in enc(p, call('send'))] == [(F('m_blk', ('as', rsp, AT + 'get_block_response')), F('m_peer_id', A(0)))] else 'the block is not sent to the node that asked for it']),
        ])
    bc = call('broadcast')

    def sent(net, what):
        def f(p):
            e = [s for s in enc(p, bc) if s.ev.obj == F(net)]
            if len(e) != 1 or e[0].loops:
                return '%s: %d broadcasts' % (net, len(e))
            v = e[0].ev.args[0]
            if is_call(v, 'make_shared_buffer'):
                v = v[2][0]
            return None if v == what else ('broadcasts %s' % pp(v)[:120], e[0].ev)
        return f

    def quiet(net):
        return lambda p: None if not [s for s in enc(p, bc) if s.ev.obj == F(net)] else 'broadcasts on ' + net
    for name, typ in (('raft_result_handler', 'make_block_response'), ('err_return_handler', None)):
        u = c.fn(C_ + '::' + name, split=False)
        res = ('call', 'nuraft::cmd_result::get', (A(0),), 0)
        rsp = ('call', 'cbdc::from_buffer', (res,), 0)
        if typ:
            mb = ('as', rsp, AT + typ)
            errs = F('m_errs', mb)
            c.cases(u, 'new block', [
                ('failed', Has(A(1)), [Never(bc)]),
                ('made', Not(Has(A(1))), [sent('m_atomizer_network', F('m_blk', mb))]),
                ('errors', And(Not(Has(A(1))), Not(Empty(errs))), [sent('m_watchtower_network', errs)]),
                ('no errors', And(Not(Has(A(1))), Empty(errs)), [quiet('m_watchtower_network')]),
            ])
        else:
            c.cases(u, 'rejected transactions', [
                ('failed', Or(Has(A(1)), Not(Has(res))), [Never(bc)]),
                ('errors', And(Not(Has(A(1))), Has(res)), [lambda p: sent('m_watchtower_network', next((t for s in enc(p, bc) for t in subterms(s.ev.args[0]) if t[0] == 'as' and t[1] == rsp), NONE))(p)]),
            ])
    for name, src, dst in (('tx_notify_handler', 'send_complete_txs', 'err_return_handler'), ('main_handler', 'make_request', 'raft_result_handler')):
        u = c.fn(C_ + '::' + name, opaque=['make_request', 'send_complete_txs', 'is_leader', dst])
        for s, k in c.closures(u, call(src)):
            c.every(k, 'log results are handled', lambda p, d=k.depth: None if [s.ev.args[:2] for s in enc(p, call(dst))] == [(A(0, d), A(1, d))] else 'the result is not handled exactly once')
        if name == 'main_handler':
            c.guard(u, 'only the leader makes blocks', call(src), lambda s: PR2(s))
            for p in u.paths:
                for s in enc(p, call(src)):
                    c.ob('block requests', plain(s.ev.args[0])[1] == REQ['make_block_request'], c.where(u, p, ('', s.ev)), 'requests something else', p)
    u = c.fn(C_ + '::notification_consumer', opaque=['tx_notify'])

    def consumed(p):
        for lp in p.items:
            if lp.kind == 'loop':
                for e in lp.edges:
                    po = [i for i in e.items if call('pop')(i)]
                    no = [i for i in e.items if call('tx_notify')(i)]
                    if len(po) != 1:
                        return ('the queue is read %d times per round' % len(po), lp)
                    got = holds(result(po[0]), Ctx(e.st, e.items))
                    if got is not False and (len(no) != 1 or no[0].args[0] != ('out', result(po[0]), 0, 1)):
                        return ('a received notification is not processed exactly once', lp)
        for i, t in enumerate(p.items):
            if t.kind != 'loop' and call('pop')(t):
                no = [j for j in p.items[i:] if j.kind != 'loop' and call('tx_notify')(j) and j.args[0] == ('out', result(t), 0, 1)]
                if holds(result(t), Ctx(p.st, p.items)) is not False and len(no) != 1:
                    return ('a received notification is dropped', t)
        return None
    c.every(u, 'notifications', consumed)


def PR2(s):
    """is_leader() holds at this event, whatever the node's version"""
    class G:
        def eval(self, st):
            return None
    for a, pol in s.ev.st.bools.items():
        if is_call(a, 'is_leader') and pol:
            return And()
    return Or()
