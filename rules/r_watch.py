"""Watchtower: block and error caches, status answers, block intake."""
from lib import *
from r_atomizer import plain, untouched, errk

WT = 'cbdc::watchtower::'
W = 'uhs/atomizer/watchtower/'


def cellwise(items, st, chain, test, elems=()):
    """complete nested loops, the i-th over a container in chain[i](elements
    so far), such that test(edge, elements) accepts every innermost round.
    Returns the innermost edges, None if there are none."""
    doms = chain[0](*elems)
    for D in doms:
        if st.known(compare('==', ('size', D), ('i', 0))) is True:
            return []
    for lp in items:
        if lp.kind != 'loop' or lp.mode != 'all' or lp.dom[0] != 'each' or not set(lp.dom[1:]) & set(doms):
            continue
        for own in (False, True):
            x = X(lp.dom, lp.L, own)
            got = []
            for e in lp.edges:
                if len(chain) > 1:
                    r = cellwise(e.items, e.st, chain[1:], test, elems + (x,))
                    if r is None:
                        break
                    got += r
                elif test(e, *(elems + (x,))):
                    got.append(e)
                else:
                    break
            else:
                return got
    return None


def written(items, C, weak=False):
    """[(key, value, event)] of the entries of map C that are overwritten at
    the top level of items; None when C is changed in another way"""
    out = []
    ens = set()
    for i in items:
        if i.kind == 'mut' and unver(i.obj) == C:
            if i.q in ('assign', 'insert_or_assign') + (ADD if weak else ()) and len(i.args) == 2:
                out.append((i.args[0], i.args[1], i))
            elif i.q == 'ensure' or i.q == 'emplace' and len(i.args) == 1:
                ens.add(i.args[0])
            elif i.q != 'erase':
                return None
        elif i.kind == 'set' and i.obj[0] == 'at' and unver(i.obj[1]) == C:
            out.append((i.obj[2], i.args[0], i))
            ens.discard(i.obj[2])
    return None if ens else out


def larger(p, v, a, b):
    """v is the larger of a and b"""
    if v[0] == 'call' and v[1] == 'max' and set(v[2]) == {a, b}:
        return True
    lt = p.st.known(compare('<', a, b))
    gt = p.st.known(compare('<', b, a))
    return v == a and (lt is False or gt is True) or v == b and (lt is True or gt is False)


@prop('W01', files=[W + 'block_cache.cpp', W + 'error_cache.cpp', W + 'watchtower.cpp'])
def w01(c):
    """the caches hold exactly what the remembered blocks and errors say"""
    BC = WT + 'block_cache'
    for n in ('m_k_blks', 'm_blks', 'm_spent_ids', 'm_unspent_ids', 'm_best_blk_height'):
        c.field(BC, n)
    BL, SP, UN, K = F('m_blks'), F('m_spent_ids'), F('m_unspent_ids'), F('m_k_blks')
    u = c.fn(BC + '::push_block', split=False)
    full = And(Ne(K, I_(0)), Eq(('size', BL), K))

    def is_old(t):
        return t == ('front', BL)

    def is_new(t):
        return t == A(0) or t[0] == 'back' and unver(t[1]) == BL

    def push_rec(p):
        ctx = Ctx(p.st, p.items)
        f = holds(full, ctx)
        if f is None:
            return 'does not check whether the cache is full'
        sites = enc(p, M(lambda e: e.kind == 'mut' and unver(e.obj) in (SP, UN), 'cache'))
        known = set()

        def phase(test_blk, which, C, effect):
            """effect on C for every input/output of the block"""
            blks = {t for s in p.items if s.kind == 'loop' for t in s.dom[1:] if t[0] == 'fld' and t[2] == 'm_transactions' and test_blk(t[1])} or {F('m_transactions', A(0))}

            def test(e, t, x):
                ev = [i for i in e.items if i.kind == 'mut' and i.obj == C and effect[0](i)]
                if not effect[1](e, ev, t, x, C):
                    return False
                for i in ev:
                    known.add(id(i))
                return True
            return cellwise(p.items, p.st, [lambda: blks, lambda t: {F(which, t.e)}], test) is not None

        def erased(e, ev, t, x, C):
            if len(ev) == 1 and ev[0].args == (x.e,):
                return True
            return not ev and any(b[0] == 'in' and b[2] == x.e and unver(b[1]) in (SP, UN) and not pol for b, pol in e.st.bools.items())

        def stored(e, ev, t, x, C):
            w = written(e.items, C, True)
            if w is None or len(w) != 1:
                return False
            k, v = w[0][:2]
            d = dict(v[2]) if v[0] == 'obj' else {}
            return k == x.e and d.get('second') == F('m_id', t.e) and d.get('first', NONE)[0] == 'fld' and d['first'][2] == 'm_height' and is_new(d['first'][1])
        er = (lambda i: i.q == 'erase', erased)
        ad = (lambda i: i.q != 'erase', stored)
        pops = [i for i in p.items if i.kind == 'mut' and i.obj == BL and i.q == 'pop']
        ins = [i for i in p.items if i.kind == 'mut' and i.obj == BL and i.q in ADD]
        if f:
            if len(pops) != 1:
                return 'the oldest block is not dropped from a full cache exactly once'
            if not phase(is_old, 'm_inputs', SP, er):
                return 'the inputs of the dropped block stay in the cache'
            if not phase(is_old, 'm_uhs_outputs', UN, er):
                return 'the outputs of the dropped block stay in the cache'
        elif pops:
            return ('drops a block from a cache that is not full', pops[0])
        if len(ins) != 1 or ins[0].args[-1] != A(0):
            return 'the block is not remembered exactly once'
        if not phase(is_new, 'm_inputs', UN, er):
            return 'a spent input is still reported as unspent'
        if not phase(is_new, 'm_inputs', SP, ad):
            return 'an input is not recorded as spent by its transaction and height'
        if not phase(is_new, 'm_uhs_outputs', UN, ad):
            return 'an output is not recorded as unspent with its transaction and height'
        for s in sites:
            if id(s.ev) not in known:
                return ('changes the cache for something the block does not say', s.ev)
        best = p.st.load(F('m_best_blk_height'))
        hs = {F('m_height', b) for b in [A(0)] + [t for i in walk(p.items, p.st) if i.ev.kind == 'set' for t in subterms(i.ev.args[0]) if t[0] == 'back'] + [t for b in p.st.bounds for k in b for t in subterms(k[0]) if t[0] == 'back']}
        if not any(larger(p, best, h, F('m_best_blk_height')) for h in hs):
            return 'the best height is not the highest height seen'
        return None
    c.every(u, 'block', push_rec)
    for fn, C in (('check_unspent', UN), ('check_spent', SP)):
        u = c.fn(BC + '::' + fn)
        c.cases(u, 'lookup', [
            ('absent', NotIn(C, A(0)), [Ret(NONE), untouched(SP, UN, BL)]),
            ('present', In(C, A(0)), [Ret(('some', at(C, A(0)))), untouched(SP, UN, BL)]),
        ])
    c.every(c.fn(BC + '::best_block_height'), 'best height', Ret(F('m_best_blk_height')))

    EC = WT + 'error_cache'
    for n in ('m_k_errs', 'm_errs', 'm_tx_id_errs', 'm_uhs_errs'):
        c.field(EC, n)
    ER, TX, UH, K = F('m_errs'), F('m_tx_id_errs'), F('m_uhs_errs'), F('m_k_errs')
    u = c.fn(EC + '::push_errors', split=False)

    def ids(err_forms, kind):
        return {('call', WT + 'tx_error_inputs_' + kind + '::input_uhs_ids', (('as', ('call', WT + 'tx_error::info', (o,), 0), WT + 'tx_error_inputs_' + kind),), 0) for o in err_forms}

    def txid(o):
        return ('call', WT + 'tx_error::tx_id', (o,), 0)

    def sel(e, forms, k):
        return [holds(Is(('call', WT + 'tx_error::info', (o,), 0), WT + 'tx_error_inputs_' + k), Ctx(e.st, e.items)) for o in forms]

    def mine(st, C, k, o):
        """the entry of k still belongs to error o (None: not decided)"""
        r = None
        for b, pol in st.bools.items():
            if b[0] == 'in' and unver(b[1]) == C and b[2] == k and not pol and (b[1] == C or b[1][2] == 0 or isinstance(b[1][2], str)):
                return False
        for b, rng in st.bounds.items():
            ks = [t for t, co in b]
            if len(ks) == 2 and any(t == o for t in ks):
                t = [t for t in ks if t != o][0]
                if t[0] == 'at' and unver(t[1]) == C and t[2] == k:
                    r = st.known(compare('==', t, o))
        return r

    def err_rec(p):
        lps = [lp for lp in p.items if lp.kind == 'loop' and lp.dom[0] == 'each' and A(0) in lp.dom[1:]]
        if p.st.known(compare('==', ('size', A(0)), ('i', 0))) is True and not lps:
            return None
        if len(lps) != 1 or lps[0].mode != 'all':
            return 'not every error is recorded'
        lp = lps[0]
        for e in lp.edges:
            x = X(lp.dom, lp.L)
            fresh = [i for i in e.items if i.kind == 'mut' and i.obj == ER and i.q in ADD]
            if len(fresh) != 1:
                return ('an error is not remembered exactly once', lp)
            new = fresh[0].args[-1]
            if new[0] == 'heap' and e.st.load(new)[2] != (x.e,):
                return ('remembers another error', fresh[0])
            nf = {new, x.e, e.st.load(new)}
            n0 = ('size', ('ver', ER, lp.L))
            f = holds(And(Ne(K, I_(0)), Eq(n0, K)), Ctx(e.st, e.items))
            if f is None:
                return ('does not check whether the cache is full', lp)
            pops = [i for i in e.items if i.kind == 'mut' and i.obj == ER and i.q == 'pop']
            if len(pops) != (1 if f else 0):
                return ('the oldest error is not dropped exactly when the cache is full', lp)
            okay = set()
            i0 = e.items.index(fresh[0])
            if f:
                old = ('front', ('ver', ER, lp.L))
                ev = [i for i in e.items if i.kind == 'mut' and i.obj == TX and i.q == 'erase']
                own = mine(e.st, TX, txid(old), old)
                if own is None or len(ev) != (1 if own else 0) or any(i.args != (txid(old),) for i in ev):
                    return ('a dropped error is not forgotten exactly where it is the current one of its transaction', ev[0] if ev else lp)
                okay |= {id(i) for i in ev}
                for k in ('dne', 'spent'):
                    yes = sel(e, [old], k)[0]
                    if yes is None:
                        return ('does not look at the kind of a dropped error', lp)
                    if not yes:
                        continue

                    def evict(e2, y):
                        ev = [i for i in e2.items if i.kind == 'mut' and i.obj == UH]
                        own = mine(e2.st, UH, y.e, old)
                        okay.update(id(i) for i in ev)
                        return own is not None and len(ev) == (1 if own else 0) and all(i.q == 'erase' and i.args == (y.e,) for i in ev)
                    if cellwise(e.items[:i0], e.st, [lambda: ids([old], k)], evict) is None and cellwise(e.items, e.st, [lambda: ids([old], k)], evict) is None:
                        return ('an input of a dropped error is not forgotten exactly where that error is its current one', lp)
            ev = written(e.items, TX)
            if ev is None or len(ev) != 1 or ev[0][1] != new or ev[0][0] not in {txid(o) for o in nf}:
                return ('the latest error of the transaction is not recorded', ev[0][2] if ev else lp)
            okay |= {id(i) for i in e.items if i.kind == 'mut' and i.obj == TX and i.q != 'erase'}
            for k in ('dne', 'spent'):
                yes = next((v for v in sel(e, nf, k) if v is not None), None)
                if yes is None:
                    return ('does not look at the kind of the error', lp)
                if not yes:
                    continue

                def record(e2, y):
                    ev = [i for i in e2.items if i.kind == 'mut' and i.obj == UH]
                    okay.update(id(i) for i in ev)
                    ev = written(e2.items, UH) if not any(i.q == 'erase' for i in ev) else None
                    return ev is not None and [i[:2] for i in ev] == [(y.e, new)]
                if cellwise(e.items, e.st, [lambda: ids(nf, k)], record) is None:
                    return ('the latest error of an input is not recorded', lp)
            for s in walk(e.items, e.st):
                if s.ev.kind == 'mut' and unver(s.ev.obj) in (TX, UH) and id(s.ev) not in okay:
                    return ('changes the record of another error', s.ev)
        return None
    c.every(u, 'errors', err_rec)
    for fn, C in (('check_tx_id', TX), ('check_uhs_id', UH)):
        u = c.fn(EC + '::' + fn)
        c.cases(u, 'lookup', [
            ('absent', NotIn(C, A(0)), [Ret(NONE), untouched(ER, TX, UH)]),
            ('present', In(C, A(0)), [Ret(PR(lambda v: v[0] == 'some' and v[1] in (at(C, A(0)), ('deref', at(C, A(0)))))), untouched(ER, TX, UH)]),
        ])


@prop('W02', files=[W + 'watchtower.cpp', W + 'controller.cpp', W + 'client.cpp'])
def w02(c):
    """statuses follow from the caches; blocks are taken in without gaps"""
    T = WT + 'watchtower'
    BCH, ECH = F('m_bc'), F('m_ec')

    def look(o, m, a, cls):
        return ('call', WT + cls + '::' + m, (o, a), 0)

    def confirmed(bc, tx, x):
        s, n = look(bc, 'check_spent', x, 'block_cache'), look(bc, 'check_unspent', x, 'block_cache')
        return Or(And(Has(s), Eq(F('second', s), tx)), And(Has(n), Eq(F('second', n), tx)))
    # errors of transactions that were confirmed meanwhile are dropped
    u = c.fn(T + '::add_errors', opaque=['push_errors', 'check_spent', 'check_unspent'], split=False)
    filt = M(lambda e: e.kind == 'mut' and e.obj == A(0) and e.q == 'erase_if', 'removal of confirmed transactions')
    pe = call('push_errors', obj=ECH)

    def repeated(this, err):
        info = ('call', WT + 'tx_error::info', (err,), 0)
        out = []
        for k in ('dne', 'spent'):
            t = WT + 'tx_error_inputs_' + k
            ids = ('call', t + '::input_uhs_ids', (('as', info, t),), 0)
            out.append(And(Is(info, t), Any(ids, lambda x: confirmed(F('m_bc', this), ('call', WT + 'tx_error::tx_id', (err,), 0), x.e))))
        return Or(*out)

    def kept(p):
        e = enc(p, pe)
        if len(e) != 1 or e[0].loops:
            return 'the errors are not recorded exactly once'
        f = [i for i in p.items if filt(i)]
        if f:
            i, j = p.items.index(f[0]), p.items.index(e[0].ev)
            return None if len(f) == 1 and i < j and unver(e[0].ev.args[0]) == A(0) else ('errors of confirmed transactions are recorded', e[0].ev)
        if p.st.known(compare('==', ('size', A(0)), ('i', 0))) is True:
            return None
        C = unver(e[0].ev.args[0])
        for lp in p.items:
            if lp.kind == 'loop' and lp.mode == 'all' and lp.dom[0] == 'each' and A(0) in lp.dom[1:]:
                for own in (False, True):
                    x = X(lp.dom, lp.L, own)
                    good = True
                    for ed in lp.edges:
                        rep = holds(repeated(THIS, x.e), Ctx(ed.st, ed.items))
                        ad = [i for i in ed.items if i.kind == 'mut' and i.obj == C]
                        if rep is None or len(ad) != (0 if rep else 1) or any(i.q not in ADD or i.args[-1] != x.e for i in ad):
                            good = False
                    if good:
                        return None
        return ('the errors recorded are not those of unconfirmed transactions', e[0].ev)
    c.every(u, 'errors of confirmed transactions', kept)
    if any(filt(i) for p in u.paths for i in p.items):
        for s, k in c.closures(u, filt):
            this = ('this', k.depth)
            rep = repeated(this, A(0, k.depth))
            c.cases(k, 'errors of confirmed transactions', [
                ('confirmed', rep, [Ret(TRUE)]),
                ('unconfirmed', Not(rep), [Ret(FALSE)]),
            ])
    u = c.fn(T + '::handle_status_update_request', opaque=['check_spent', 'check_unspent', 'check_tx_id', 'check_uhs_id$', 'best_block_height', 'uhs_ids'])
    REQ = ('call', WT + 'status_update_request::uhs_ids', (A(0),), 0)
    BEST = ('call', WT + 'block_cache::best_block_height', (BCH,), 0)

    def state(name, h, x):
        return ('new', WT + 'status_update_state', (('enum', WT + 'search_status', name), h, x))

    def is_state(v, name, h, x):
        v = plain(v)
        return v[0] == 'new' and v[1] == WT + 'status_update_state' and len(v[2]) == 3 and pp(v[2][0]).split('::')[-1] == name and v[2][1] == h and v[2][2] == x

    def statuses(p):
        lps = [lp for lp in p.items if lp.kind == 'loop' and lp.dom[0] == 'each' and REQ in lp.dom[1:]]
        rv = p.st.load(p.ret) if p.ret[0] == 'heap' else p.ret
        if len(lps) != 1 or lps[0].mode != 'all':
            return None if not lps and p.st.known(compare('==', ('size', REQ), ('i', 0))) is True else 'not every transaction asked for is answered'
        lp = lps[0]
        out = None
        for e in lp.edges:
            for tx, us in ((('key', REQ, lp.L), ('at', REQ, ('key', REQ, lp.L))), (F('first', ('elem', REQ, lp.L)), F('second', ('elem', REQ, lp.L)))):
                r = one(e, tx, us)
                if r[0]:
                    break
            if not r[0]:
                return (r[1], lp)
            if out is not None and out != r[1]:
                return ('answers are collected in different places', lp)
            out = r[1]
        if not any(t == out or t[0] == 'ver' and t[1] == out for t in subterms(rv)):
            return 'the answer is not the statuses found'
        return None

    def one(e, tx, us):
        ctx = Ctx(e.st, e.items)
        err = look(ECH, 'check_tx_id', tx, 'error_cache')
        has = holds(Has(err), ctx)
        if has is None:
            return (False, 'does not look for an error of the transaction')
        info = ('call', WT + 'tx_error::info', (err,), 0)
        internal = has and holds(Or(Is(info, WT + 'tx_error_sync'), Is(info, WT + 'tx_error_stxo_range')), ctx)
        if internal is None:
            return (False, 'does not tell internal errors from others')
        ad = [i for i in e.items if i.kind == 'mut' and len(i.args) == 2 and i.args[0] == tx]
        if len(ad) != 1:
            return (False, 'the statuses of a transaction are not answered under its ID')
        T_ = unver(ad[0].args[1])

        def want(e2, x):
            ctx = Ctx(e2.st, e2.items)
            exp = []
            if internal:
                exp.append(('internal_error', BEST))
            elif has:
                bad = holds(Has(look(ECH, 'check_uhs_id', x.e, 'error_cache')), ctx)
                if bad is None:
                    return False
                exp.append(('invalid_input' if bad else 'tx_rejected', BEST))
            s, n = look(BCH, 'check_spent', x.e, 'block_cache'), look(BCH, 'check_unspent', x.e, 'block_cache')
            sp = holds(Has(s), ctx)
            if sp is None:
                return False
            y = s if sp else n
            mine = holds(And(Has(y), Eq(F('second', y), tx)), ctx)
            if mine is None:
                return False
            if mine:
                exp.append(('spent' if sp else 'unspent', F('first', y)))
            if not exp:
                exp.append(('no_history', BEST))
            ad = [i for i in e2.items if i.kind == 'mut' and i.obj == T_]
            return len(ad) == len(exp) and all(i.q in ADD and is_state(i.args[-1], k, h, x.e) for i, (k, h) in zip(ad, exp))
        if cellwise(e.items, e.st, [lambda: {us}], want) is None:
            return (False, 'the statuses of a transaction are not those its blocks and errors say')
        return (True, ad[0].obj)
    c.every(u, 'statuses', statuses)
    u = c.fn(T + '::handle_best_block_height_request', opaque=['best_block_height'])
    c.every(u, 'best height', lambda p: None if BEST in list(subterms(p.st.load(p.ret) if p.ret[0] == 'heap' else p.ret)) else 'the answer is not the best height')
    u = c.fn(T + '::add_block', opaque=['push_block'])
    c.every(u, 'blocks are remembered', lambda p: None if [(s.ev.obj, s.ev.args) for s in enc(p, call('push_block'))] == [(BCH, (A(0),))] else 'the block is not remembered exactly once')

    # block intake
    C_ = WT + 'controller'
    LAST, WTW = F('m_last_blk_height'), F('m_watchtower')
    u = c.fn(C_ + '::atomizer_handler', opaque=['get_block', 'add_block'], eventful=['get_block', 'add_block'], split=False)
    blk = ('call', 'cbdc::from_buffer', (F('m_pkt', A(0)),), 0)
    H = F('m_height', blk)
    addb, getb = call('add_block'), call('get_block')

    def catch_up(p):
        e = [i for i in p.items if i.kind != 'loop' and addb(i)]
        if len(e) != 1 or e[0].args != (blk,):
            return 'a new block is not remembered exactly once'
        last = LAST
        for lp in p.items:
            if lp.kind != 'loop':
                continue
            tops = []
            for ed in lp.edges:
                g = [i for i in ed.items if getb(i)]
                a = [i for i in ed.items if addb(i)]
                if not g and not a:
                    if ed.st.load(LAST) != ('lv', LAST, lp.L):
                        return ('skips a block', lp)
                    continue
                if len(g) != 1 or g[0].args != (l_add(('lv', LAST, lp.L), I_(1)),):
                    return ('does not ask for the next block', lp)
                r = result(g[0])
                ok = holds(Has(r), Ctx(ed.st, ed.items))
                if ok is None or len(a) != (1 if ok else 0) or any(i.args != (r,) for i in a):
                    return ('a fetched block is not remembered exactly once', lp)
                if ed.st.load(LAST) not in ((F('m_height', r), l_add(('lv', LAST, lp.L), I_(1))) if ok else (('lv', LAST, lp.L),)):
                    return ('the last height does not follow the blocks remembered', lp)
            if any(addb(i) for ed in lp.edges for i in ed.items):
                last = ('lv', LAST, lp.L)
        if p.st.known(compare('<', l_add(last, I_(1)), H)) is not False:
            return ('a block is remembered although earlier ones are missing', e[0])
        return None
    bad = Not(Has(blk))
    c.cases(u, 'blocks from the atomizer', [
        ('undecodable', bad, [Never(addb), Never(getb), Same(LAST), Ret(NONE)]),
        ('old', And(Has(blk), Le(H, LAST)), [Never(addb), Never(getb), Same(LAST), Ret(NONE)]),
        ('new', And(Has(blk), Gt(H, LAST)), [catch_up, Final(LAST, H), Ret(NONE)]),
    ])
    u = c.fn(C_ + '::internal_server_handler', opaque=['add_errors'], split=False)
    ae = call('add_errors', obj=WTW)
    errs = ('call', 'cbdc::from_buffer', (F('m_pkt', A(0)),), 0)
    c.cases(u, 'errors', [
        ('undecodable', Not(Has(errs)), [Never(ae), Ret(NONE)]),
        ('decoded', Has(errs), [lambda p: None if [s.ev.args for s in enc(p, ae)] == [(errs,)] else 'the errors are not recorded exactly once', Ret(NONE)]),
    ])
    u = c.fn(C_ + '::external_server_handler', opaque=['handle_status_update_request', 'handle_best_block_height_request'], split=False)

    def answered(p):
        hs = enc(p, call('handle_status_update_request') | call('handle_best_block_height_request'))
        dec = None
        for b, pol in p.st.bools.items():
            if is_call(b, 'operator bool'):
                dec = pol
        if dec is not True:
            return None if not hs and p.ret == NONE else 'answers a request that could not be decoded'
        if len(hs) != 1:
            return 'a request is not handled exactly once'
        kind = 'status_update_request' if hs[0].ev.q.endswith('handle_status_update_request') else 'best_block_height_request'
        a = hs[0].ev.args[0]
        if a[0] != 'as' or a[2] != WT + kind or p.st.known(('is', a[1], WT + kind)) is not True:
            return ('handles another request', hs[0].ev)
        r = p.ret
        if r[0] != 'some' or not is_call(r[1], 'make_buffer') or unp(r[1][2][0]) != result(hs[0].ev):
            return ('does not answer with the result', hs[0].ev)
        return None

    def unp(v):
        return v[1] if v[0] in ('deref', 'val') else v
    c.every(u, 'requests', answered)
    c.every(c.fn(C_ + '::get_block_height'), 'height', Ret(LAST))
