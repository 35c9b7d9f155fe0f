"""The user's client: what it remembers of its payments, and when it settles them."""
from lib import *

U = 'uhs/client/'
CL = 'cbdc::client'
W = F('m_wallet')
PT, PS, PI = F('m_pending_txs'), F('m_pending_spend'), F('m_pending_inputs')
SAVE = call(CL + '::save')
OP = ['client::save$', 'client::load_client_state$', 'client::save_client_state$', 'wallet::', 'client::import_transaction$', 'client::register_pending_tx$', 'client::send_transaction$', 'client::confirm_transaction$', 'client::check_pending$', 'client::create_transaction$']


def fn_(c, q):
    return c.fn(q, opaque=[o for o in OP if not re.search(o, q)])


def ihash(t):
    return ('call', 'cbdc::transaction::input::hash', (t,), 0)


def txid(t):
    return ('call', 'cbdc::transaction::tx_id', (t,), 0)


def pendings(c):
    for n in ('m_wallet', 'm_pending_txs', 'm_pending_spend', 'm_pending_inputs', 'm_client_file', 'm_wallet_file', 'm_sentinel_client'):
        c.field(CL, n)


def nothing_else(*fields):
    return Never(M(lambda e: e.kind in ('set', 'mut') and any(under_(e.obj, f) for f in (PT, PS, PI, W) if f not in fields), 'changes what it remembers'))


def under_(o, f):
    o = unver(o)
    while o is not None and o != f:
        if o[0] in ('fld', 'at', 'elem', 'ver', 'with') and isinstance(o[1], tuple):
            o = o[1]
        elif o[0] == 'fld':
            o = o[2]
        else:
            return False
    return o == f


def saved_last(p):
    """everything is on disk when the function returns"""
    ev = [e for e in allev(p.items)]
    ch = [i for i, e in enumerate(ev) if e.kind in ('set', 'mut') and any(under_(e.obj, f) for f in (PT, PS, PI)) or e.kind == 'call' and e.obj is not None and unver(e.obj) == W and not e.q.endswith('::save')]
    sv = [i for i, e in enumerate(ev) if e.kind == 'call' and (e.q.endswith('client::save'))]
    if ch and (not sv or max(sv) < max(ch)):
        return ('returns before it is saved', ev[max(ch)])
    return None


def wcall(n, *args):
    return call('wallet::' + n, obj=W, args=args) if False else M(lambda e: e.kind == 'call' and qmatch(['transaction::wallet::' + n], e.q) and unver(e.obj) == W and (not args or tuple(unver_args(e.args)) == args), 'wallet ' + n)


def unver_args(a):
    return [unver(x) for x in a]


@prop('L04', files=[U + 'client.cpp'])
def l04(c):
    """what the client remembers of its payments"""
    pendings(c)

    # -- new payments
    u = fn_(c, CL + '::register_pending_tx')
    ins = F('m_inputs', A(0))

    def reserved(p):
        lp = [i for i in p.items if isinstance(i, Loop) and i.dom[0] == 'each' and unver(i.dom[2]) == ins]
        if len(lp) != 1 or lp[0].mode != 'all':
            return 'not every input is remembered as spent'
        els = [('elem', d, lp[0].L) for d in lp[0].dom[1:3]]
        for e in lp[0].edges:
            m = [x for x in top(e.items) if x.kind in ('mut', 'set') and under_(x.obj, PS)]
            ok = [x for x in m if any(x.kind == 'mut' and x.q in ('emplace', 'insert', 'assign', 'insert_or_assign', 'keep') and x.args[:2] == (ihash(t), t) or x.kind == 'set' and x.obj == ('at', PS, ihash(t)) and x.args[0] == t for t in els)]
            if len(m) != 1 or len(ok) != 1:
                return ('an input is not remembered as spent', lp[0])
        return None
    c.every(u, 'inputs of a payment are remembered', reserved, saved_last, nothing_else(PS))

    u = fn_(c, CL + '::create_transaction')
    S_ = ('call', 'cbdc::transaction::wallet::send_to', (W, A(0), A(1), TRUE), 0)
    c.cases(u, 'new payment', [
        ('made', Has(S_), [Does(call('client::register_pending_tx', args=[S_])), PR_ret(S_)]),
        ('not possible', Not(Has(S_)), [Never(call('client::register_pending_tx')), lambda p: None if p.ret == NONE or unver(p.ret) == S_ else 'returns %s' % pp(p.ret)[:60]]),
    ])
    for n, made, new in (('send', ('call', CL + '::create_transaction', (THIS, A(0), A(1)), 0), None),
                         ('fan', ('call', 'cbdc::transaction::wallet::fan', (W, A(0), A(1), A(2), TRUE), 0), 1)):
        u = fn_(c, CL + '::' + n)
        sent = ('call', CL + '::send_transaction', (THIS, made), 0)
        SEND = call('client::send_transaction')
        fine = [Does(call('client::send_transaction', args=[made]))]
        if new:
            fine += [Does(call('client::register_pending_tx', args=[made])), Before(call('client::register_pending_tx'), SEND)]
        c.cases(u, n, [
            ('answered', And(Has(made), Has(sent)), fine + [lambda p, made=made, sent=sent: None if pair(p.ret) == (made, sent) else 'does not return the payment and its answer']),
            ('no answer', And(Has(made), Not(Has(sent))), fine + [lambda p: None if nothing(c, u, p.ret) else 'reports a payment although there was no answer']),
            ('not possible', Not(Has(made)), [Never(SEND), lambda p: None if nothing(c, u, p.ret) else 'reports a payment that was not made']),
        ])

    u = fn_(c, CL + '::send_transaction')
    ex = ('call', 'cbdc::sentinel::rpc::client::execute_transaction', (F('m_sentinel_client'), A(0)), 0)
    conf = c.enum('cbdc::sentinel::tx_status::confirmed')
    yes = And(Has(ex), Eq(F('m_tx_status', ex), conf))
    ask = [Does(call('client::import_transaction', args=[A(0)])), Does(call('rpc::client::execute_transaction', args=[A(0)])), Before(call('client::import_transaction'), call('rpc::client::execute_transaction'))]
    c.cases(u, 'asking a sentinel', [
        ('confirmed', yes, ask + [Does(call('client::confirm_transaction', args=[txid(A(0))])), PR_ret(ex)]),
        ('not confirmed', And(Has(ex), Ne(F('m_tx_status', ex), conf)), ask + [Never(call('client::confirm_transaction')), PR_ret(ex)]),
        ('no answer', Not(Has(ex)), ask + [Never(call('client::confirm_transaction')), lambda p: None if p.ret == NONE or unver(p.ret) == ex else 'returns %s' % pp(p.ret)[:60]]),
    ])
    u = fn_(c, CL + '::import_transaction')
    c.every(u, 'a payment is remembered until it is settled', Does(adds(PT, txid(A(0)), A(0))), saved_last, nothing_else(PT))

    # -- coins received from others
    u = fn_(c, CL + '::import_send_input')
    own = ('call', 'cbdc::transaction::wallet::is_spendable', (W, A(0)), 0)
    key = F('m_tx_id', F('m_prevout', A(0)))
    c.cases(u, 'coins received', [
        ('own', own, [Does(adds(PI, key, A(0))), saved_last, nothing_else(PI)]),
        ('of others', Not(own), [nothing_else()]),
    ])

    def kept(p):
        # keyed by transaction: a second output of the same transaction is dropped
        for e in allev(p.items):
            if e.kind == 'mut' and unver(e.obj) == PI and e.args and e.args[0] == key:
                if e.q not in ('assign', 'insert_or_assign') and p.st.known(('in', PI, key)) is not False:
                    return ('a second output of the same transaction is not kept', e)
        return None
    c.every(u, 'every coin received is kept', kept)

    u = fn_(c, CL + '::new_address')
    gk = ('call', 'cbdc::transaction::wallet::generate_key', (W,), 0)
    c.every(u, 'a new address is saved before it is given out', saved_last, PR_ret(gk))

    # -- settling
    u = fn_(c, CL + '::confirm_transaction')
    tx = ('at', PT, A(0))
    inT, inI = In(PT, A(0)), In(PI, A(0))

    def freed(p):
        """the inputs of the payment are no longer remembered as spent"""
        lp = [i for i in p.items if isinstance(i, Loop) and i.dom[0] == 'each' and unver(i.dom[2]) == F('m_inputs', tx)]
        if len(lp) != 1 or lp[0].mode != 'all':
            return 'not every input is looked at'
        els = [('elem', d, lp[0].L) for d in lp[0].dom[1:3]]
        for e in lp[0].edges:
            rm = [x for x in top(e.items) if x.kind == 'mut' and x.q == 'erase' and unver(x.obj) == PS]
            gone = any(e.st.known(('in', q, ihash(t))) is False for t in els for q in versions(e, PS))
            if not (len(rm) == 1 and any(rm[0].args[0] == ihash(t) for t in els) or not rm and gone):
                return ('an input stays remembered as spent', lp[0])
        return None
    CT = wcall('confirm_transaction', tx)
    CI = M(lambda e: e.kind == 'call' and qmatch(['transaction::wallet::confirm_inputs'], e.q) and unver(e.obj) == W and [v for v in listed_(e.args[0])] == [('at', PI, A(0))], 'adds the received coins')
    yT = [Does(CT), Does(dels(PT, A(0))), freed]
    nT = [Never(wcall('confirm_transaction')), Never(M(lambda e: e.kind in ('mut', 'set') and (under_(e.obj, PT) or under_(e.obj, PS)), 'changes payments'))]
    yI = [Does(CI), Does(dels(PI, A(0)))]
    nI = [Never(wcall('confirm_inputs')), Never(M(lambda e: e.kind in ('mut', 'set') and under_(e.obj, PI), 'changes received coins'))]
    before = [Before(CT, dels(PT, A(0)))]
    c.cases(u, 'confirmation', [
        ('payment and coins', And(inT, inI), yT + yI + [Ret(TRUE), saved_last]),
        ('payment', And(inT, Not(inI)), yT + nI + [Ret(TRUE), saved_last]),
        ('coins', And(Not(inT), inI), nT + yI + [Ret(TRUE), saved_last]),
        ('unknown', And(Not(inT), Not(inI)), nT + nI + [Ret(FALSE)]),
    ])

    u = fn_(c, CL + '::abandon_transaction')

    def returned(p):
        """its inputs go back to the wallet unless another payment uses them"""
        lp = [i for i in p.items if isinstance(i, Loop) and i.dom[0] == 'each' and unver(i.dom[2]) == F('m_inputs', tx)]
        if len(lp) != 1 or lp[0].mode != 'all':
            return 'not every input is looked at'
        er = [k for k, i in enumerate(p.items) if not isinstance(i, Loop) and i.kind == 'mut' and i.q == 'erase' and unver(i.obj) == PT]
        if not er or er[0] > p.items.index(lp[0]):
            return ('the payment itself still counts as using its inputs', lp[0])
        els = [('elem', d, lp[0].L) for d in lp[0].dom[1:3]]
        for e in lp[0].edges:
            rm = [x for x in top(e.items) if x.kind == 'mut' and x.q == 'erase' and unver(x.obj) == PS]
            back = [x for x in top(e.items) if x.kind == 'call' and qmatch(['transaction::wallet::confirm_inputs'], x.q)]
            gone = any(e.st.known(('in', q, ihash(t))) is False for t in els for q in versions(e, PS)) and not any(e.st.known(('in', q, ihash(t))) is True for t in els for q in versions(e, PS))
            used = [e.st.known(x.ret) for x in top(e.items) if x.kind == 'call' and qmatch(['client::check_pending'], x.q) and any(x.args[0] == t for t in els)]
            used += [v for q, v in e.st.bools.items() if q[0] == 'call' and q[1].endswith('client::check_pending') and q[2][-1] in els] if not used else []
            if rm or back:
                if not (len(rm) == 1 and any(rm[0].args[0] == ihash(t) for t in els) and len(back) == 1 and any(listed_(back[0].args[0]) == [t] for t in els)):
                    return ('an input is not returned to the wallet exactly', lp[0])
                if used != [False] or gone:
                    return ('an input is returned although it may be used', lp[0])
            elif not gone and used != [True]:
                return ('an input is lost', lp[0])
        return None
    c.cases(u, 'giving up a payment', [
        ('pending', inT, [Does(dels(PT, A(0))), returned, Ret(TRUE), saved_last, Never(wcall('confirm_transaction'))]),
        ('unknown', Not(inT), [nothing_else(), Never(wcall('confirm_inputs')), Ret(FALSE)]),
    ])
    u = fn_(c, CL + '::check_pending')

    def used(p):
        lps = [i for i in p.items if isinstance(i, Loop)]
        over = [i for i in lps if i.dom[0] == 'each' and unver(i.dom[2]) == PT]
        if p.ret == FALSE:
            if len(over) != 1 or over[0].mode != 'all':
                return 'not every payment is looked at'
            for e in over[0].edges:
                inn = [x for x in e.items if isinstance(x, Loop) and x.mode == 'all' and x.dom[0] == 'each' and under_(x.dom[2], PT) and x.dom[2][0] == 'fld' and x.dom[2][-1] == 'm_inputs']
                if len(inn) != 1:
                    return ('not every input is looked at', over[0])
                for f in inn[0].edges:
                    el = [('elem', d, inn[0].L) for d in inn[0].dom[1:3]]
                    if not any(f.st.known(compare('==', A(0), t)) is False for t in el):
                        return ('the inputs are not compared', inn[0])
            return None
        if p.ret == TRUE:
            for i in lps:
                if any(p.st.known(compare('==', A(0), ('elem', d, i.L))) is True for d in i.dom[1:3]):
                    return None if under_(i.dom[2], PT) and i.dom[2][-1] == 'm_inputs' else 'compares with something else than the inputs'
            return 'says it is used without having found it'
        return 'returns something else'
    c.every(u, 'inputs used by a pending payment', used)

    # -- minting and the rest
    u = fn_(c, CL + '::mint')
    mn = ('call', 'cbdc::transaction::wallet::mint_new_coins', (W, A(0), A(1)), 0)
    c.every(u, 'minting', Does(call('client::import_transaction', args=[mn])), Does(call('client::send_mint_tx', args=[mn])), Before(call('client::import_transaction'), call('client::send_mint_tx')), PR_ret(mn))
    c.every(fn_(c, CL + '::sign_transaction'), 'signing', Does(wcall('sign', A(0))))
    for n, t in (('balance', ('call', 'cbdc::transaction::wallet::balance', (W,), 0)), ('utxo_count', ('call', 'cbdc::transaction::wallet::count', (W,), 0)), ('pending_tx_count', Size(PT)), ('pending_input_count', Size(PI)), ('pending_txs', PT), ('pending_inputs', PI)):
        c.every(fn_(c, CL + '::' + n), 'what the client reports: ' + n, PR_ret(t))

    # -- on disk
    for n, op, typ in (('save_client_state', '<<', 'ofstream'), ('load_client_state', '>>', 'ifstream')):
        u = fn_(c, CL + '::' + n)
        k = 0
        for p in u.paths:
            w = c.where(u, p)
            io = [s.ev for s in enc(p, M(lambda e: e.kind == 'call' and e.q.split('::')[-1] == 'operator' + op, op))]
            got = [unver(e.args[1]) for e in io]
            good = next((v for q, v in p.st.bools.items() if is_call(q, 'basic_ios::good') and F('m_client_file') in list(subterms(q))), None)
            ok = next((v for q, v in p.st.bools.items() if is_call(q, 'serializer::operator bool')), None)
            if p.kind == 'halt':
                c.ob(n + ': fails loudly', good is False or ok is False, w, 'ends the process without a failure', p)
                continue
            if not io:
                c.ob(n + ': complete', good is False and n.startswith('load'), w, 'the record is not %s' % n.split('_')[0], p)
                continue
            k += 1
            c.ob(n + ': complete', got == [PT, PI, PS], w, 'not the payments, received coins and spent inputs, in this order', p)
            c.ob(n + ': fails loudly', good is True and ok is True, w, 'goes on after a failure', p)
            c.ob(n + ': its own file', all(any(t[0] == 'new' and typ in t[1] and t[2] and t[2][0] == F('m_client_file') for t in subterms(e.args[0])) for e in io), w, 'another file', p)
        c.ob(n + ': complete', k > 0, CL + '::' + n, 'never happens')
    u = fn_(c, CL + '::save')
    c.every(u, 'saving', Does(call('client::save_client_state')), Does(wcall('save', F('m_wallet_file'))))
    u = fn_(c, CL + '::init')
    ex_ = next((q for p in u.paths for q in p.st.bools if is_call(q, 'filesystem::exists')), None)
    if ex_ is None:
        raise Anchor('client::init does not look for the wallet file')
    sen = ('call', 'cbdc::sentinel::rpc::client::init', (F('m_sentinel_client'), NONE), 0)
    der = ('call', CL + '::init_derived', (THIS,), 0)
    c.ob('starting: wallet file', ex_[2][0] == F('m_wallet_file'), CL + '::init', 'looks for another file')
    LOAD = wcall('load', F('m_wallet_file'))
    STATE = call('client::load_client_state')
    c.cases(u, 'starting', [
        ('wallet', ex_, [Does(LOAD), Does(STATE)]),
        ('no wallet', Not(ex_), [Never(wcall('load')), Does(STATE)]),
    ])
    c.cases(u, 'starting: result', [
        ('connected', And(sen, der), [Ret(TRUE)]),
        ('not connected', Or(Not(sen), Not(der)), [Ret(FALSE)]),
    ])
    decode(c)


@prop('L05', files=[U + 'client.cpp', U + 'twophase_client.cpp', U + 'atomizer_client.cpp'])
def l05(c):
    """settling payments against the system, and minting"""
    pendings(c)
    for n in ('m_attestation_threshold', 'm_sentinel_private_keys'):
        c.field('cbdc::config::options', n)
    twophase(c)
    atomizer(c)


def every_loop(p):
    def go(items, out):
        for i in items:
            if isinstance(i, Loop):
                out.append((i, items))
        return out
    return go(p.items, [])


def elems(l):
    return [('elem', d, l.L) for d in l.dom[1:3]] + [('key', d, l.L) for d in l.dom[1:3]]


def over(l, f):
    return l.dom[0] == 'each' and any(unver(d) == f for d in l.dom[1:3])


def confirms(x):
    return x.kind == 'call' and qmatch(['client::confirm_transaction'], x.q) and x.obj is not None and x.obj[0] in ('this', 'up') 


def remembered(c):
    """the queries of the base class return what it remembers"""
    for n, f in (('pending_txs', PT), ('pending_inputs', PI)):
        c.every(fn_(c, CL + '::' + n), 'what is outstanding: ' + n, PR_ret(f))


def twophase(c):
    TP = 'cbdc::twophase_client'
    CC, SC = F('m_coordinator_client'), F('m_shard_status_client')
    c.field(TP, 'm_coordinator_client')
    c.field(TP, 'm_shard_status_client')
    u = fn_(c, TP + '::init_derived')
    both = [Does(M(lambda e: e.kind == 'call' and e.q.endswith('client::init') and unver(e.obj) == o, 'connect ' + o[-1]), 1) for o in (CC, SC)]
    c.every(u, 'connecting', *both, Ret(TRUE))
    for n in ('check_tx_id', 'check_unspent'):
        c.every(fn_(c, TP + '::' + n), 'what the shards say: ' + n, PR_ret(('call', 'cbdc::locking_shard::rpc::status_client::' + n, (SC, A(0)), 0)))

    u = fn_(c, TP + '::sync')
    rule = 'settling'
    seen = set()

    def asks(e):
        return [x for x in e.items if not isinstance(x, Loop) and x.kind == 'call' and x.q.endswith('status_client::check_tx_id')]

    def checked(p):
        srcs = {}
        loops = [i for i in p.items if isinstance(i, Loop)]
        for l in loops:
            for f in (PT, PI):
                if over(l, f):
                    if l.mode != 'all':
                        return ('not every outstanding transaction is asked about', l)
                    keys = [t for t in elems(l) if t[0] == 'key'] + [F('first', t) for t in elems(l) if t[0] == 'elem']
                    for e in l.edges:
                        puts_ = [x for x in top(e.items) if x.kind == 'mut' and x.q in ('emplace', 'insert', 'keep', 'push_back', 'emplace_back', 'assign') and x.args and x.args[0] in keys]
                        have = {unver(x.obj) for x in puts_} | {unver(q[1]) for q, v in e.st.bools.items() if q[0] == 'in' and v and q[2] in keys}
                        if asks(e):
                            have.add(f)
                        srcs.setdefault(f, []).append(have)
        answers = []
        for l in loops:
            if not any(asks(e) for e in l.edges):
                continue
            if l.mode != 'all':
                return ('stops asking early', l)
            dom = unver(l.dom[1])
            for f, hs in srcs.items():
                if all(dom in h for h in hs) and (dom == f or not over(l, f)):
                    answers.append(f)
            for e in l.edges:
                a = asks(e)
                if len(a) != 1 or not any(unk(a[0].args[0]) == unk(t) for t in elems(l)):
                    return ('does not ask about each of them once', l)
                r = result(a[0])
                cf = [x for x in top(e.items) if confirms(x)]
                has, val = e.st.known(('has', r)), e.st.known(r)
                if has is None or has and val is None:
                    return ('the answer is not looked at', l)
                if bool(cf) != bool(has and val) or len(cf) > 1 or cf and cf[0].args[0] != a[0].args[0]:
                    return ('is confirmed iff the shard says so: no', l)
                if has is False:
                    seen.add('lost')
                if p.ret == TRUE and has is False:
                    return ('reports success although a shard did not answer', l)
            if l.must and p.ret == FALSE and not all(all(e.st.known(('has', result(asks(e)[0]))) is False for e in m_) for m_ in [l.must]):
                return ('reports a failure although every shard answered', l)
        if p.ret == FALSE and not any(l.must for l in loops):
            return 'reports a failure without one'
        if p.ret not in (TRUE, FALSE):
            return 'returns %s' % pp(p.ret)
        for f in (PT, PI):
            if f not in answers:
                return 'does not ask about all of %s' % f[-1]
        if any(confirms(x) for x in top(p.items)):
            return 'confirms more than that'
        seen.add(p.ret)
        return None
    c.every(u, rule, checked)
    c.ob(rule, seen == {TRUE, FALSE, 'lost'}, c.where(u), 'an outcome is never reported')
    remembered(c)

    u = fn_(c, TP + '::send_mint_tx')
    EX = M(lambda e: e.kind == 'call' and e.q.endswith('coordinator::rpc::client::execute_transaction') and unver(e.obj) == CC, 'ask the coordinator')
    prom, n = set(), 0
    c.every(u, 'minting: attested', attested(EX, 0))
    for p in u.paths:
        w = c.where(u, p)
        ev = [s.ev for s in enc(p, EX)]
        if len(ev) != 1:
            c.ob('minting: asked once', False, w, 'the coordinator is asked %d times' % len(ev), p)
            continue
        ok = p.st.known(result(ev[0]))
        wt = next((q for q in p.st.bounds for t in subterms(q) if is_call(t, 'wait_for')), None)
        wait = next((t for q in p.st.bounds for t in subterms(q) if is_call(t, ['wait_for', '__basic_future::wait_for'])), None)
        if ok is None:
            c.ob('minting: the outcome', False, w, 'whether the coordinator was asked is not looked at', p)
            continue
        if ok is False:
            c.ob('minting: the outcome', p.ret == FALSE, w, 'reports success although it was not sent', p)
            continue
        if wait is None:
            c.ob('minting: the outcome', p.ret == FALSE, w, 'does not wait for the outcome', p)
            continue
        prom |= {t for t in subterms(wait) if t[0] == 'heap' or is_call(t, 'promise::get_future')}
        late = p.st.known(compare('==', wait, timeout(c)))
        ready = p.st.known(compare('==', wait, c.enum('std::future_status::ready'))) if late is None else not late
        c.ob('minting: the outcome', ready is not None and p.ret == (TRUE if ready else FALSE) or p.ret in (compare('!=', wait, timeout(c)),), w, 'does not report whether it was confirmed in time', p)
        n += p.ret == TRUE
    c.ob('minting: the outcome', n > 0, c.where(u), 'minting never succeeds')
    k_ = 0
    for site, k in c.closures(u, EX):
        pr = [v for t, v in ()]
        for p in k.paths:
            k_ += 1
            w = '%s:%d' % (u.fn['file'], site.ev.line) if hasattr(u, 'fn') and hasattr(site, 'ev') else 'twophase_client::send_mint_tx'
            yes = And(Has(A(0, k.depth)), A(0, k.depth))
            h = holds(yes, Ctx_(p))
            cf = [s.ev for s in enc(p, M(confirms, 'confirm'))]
            st = [s.ev for s in enc(p, M(lambda e: e.kind == 'call' and e.q.endswith('promise::set_value'), 'set'))]
            c.ob('minting: confirmed iff the coordinator did', h is not None and len(cf) == (1 if h else 0), w, 'confirms although it was not' if cf else 'a confirmed mint is not settled', p)
            c.ob('minting: reported iff confirmed', h is not None and len(st) == (1 if h else 0), w, 'the waiting caller is told wrongly', p)
            if h and cf and st:
                seq = [x for x in allev(p.items)]
                c.ob('minting: reported iff confirmed', seq.index(cf[0]) < seq.index(st[0]), w, 'the caller goes on before it is settled', p)
                t = unver(cf[0].args[0])
                while t[0] in ('fld',) and t[1][0] == 'with':
                    t = ('fld', t[1][1], t[2])
                c.ob('minting: confirmed iff the coordinator did', unwith(t) in (F('m_id', ('new', 'cbdc::transaction::compact_tx', (A(0),))), txid(A(0))), w, 'settles another transaction: %s' % pp(t)[:80], p)
    c.ob('minting: confirmed iff the coordinator did', k_ > 0, c.where(u), 'the answer is not handled')


def Ctx_(p):
    from lib import Ctx
    return Ctx(p.st, p.items)


def unwith(t):
    if isinstance(t, tuple) and t and t[0] == 'fld':
        return ('fld', unwith(t[1])) + t[2:]
    while isinstance(t, tuple) and t and t[0] in ('with', 'ver'):
        t = t[1]
    return t


def unk(t):
    """an element of a set and the key of the element are the same"""
    return ('elem', unver(t[1]), t[2]) if t[0] == 'key' else ('elem', unver(t[1]), t[2]) if t[0] == 'elem' else t


def timeout(c):
    t = c.enum('std::future_status::timeout')
    return t


def attested(m, argi):
    """the compact transaction sent carries the attestations of the first
    threshold keys, and no others"""
    T_ = F('m_attestation_threshold', F('m_opts'))
    ctx = ('new', 'cbdc::transaction::compact_tx', (A(0),))
    KEYS = F('m_sentinel_private_keys', F('m_opts'))

    def f(p):
        ls = [i for i in p.items if isinstance(i, Loop)]
        at_ = [l for l in ls if any(x.kind == 'call' and x.q.endswith('compact_tx::sign') for e in l.edges for x in top(e.items))]
        if len(at_) != 1:
            return 'the attestations are not made'
        l = at_[0]
        if l.mode != 'all' or l.dom[0] != 'range' or l.dom[1] != I_(0) or unver(l.dom[2]) != T_:
            return ('not as many attestations as the threshold', l)
        for e in l.edges:
            sg = [x for x in top(e.items) if x.kind == 'call' and x.q.endswith('compact_tx::sign')]
            pt = [x for x in top(e.items) if x.kind == 'mut' and x.q in ('emplace', 'insert', 'keep') and x.obj[-1] == 'm_attestations']
            if len(sg) != 1 or len(pt) > 1:
                return ('not one attestation per key', l)
            k = sg[0].args[1]
            if not (k[0] == 'at' and unver(k[1]) == KEYS and k[2] == ('rix', l.dom[1], l.dom[2], l.L)):
                return ('signs with the wrong key: %s' % pp(k)[:60], l)
            r = result(sg[0])
            if not any(unwith_all(x.args[0]) in (F('first', unwith_all(r)), unwith_all(r)) for x in pt) and not any(v and q[0] == 'in' and q[1][-1] != 'm_sentinel_private_keys' and q[2] in (F('first', r), r) for q, v in e.st.bools.items()):
                return ('an attestation is not attached', l)
        ev = [s.ev for s in enc(p, m)]
        for e in ev:
            sent = find_ctx(e.args[argi], ctx)
            if sent is None:
                return ('sends something else', e)
            if not any(t[0] == 'ver' and t[-1] == l.L for t in subterms(sent)):
                return ('is sent without its attestations', e)
        return None
    return f


def unwith_all(t):
    return t


def find_ctx(v, ctx):
    for t in subterms(v):
        if t[0] == 'with' and t[1] == ctx and [x[0] for x in t[2]] == [(('fld', 'm_attestations'),)]:
            return t
    return None


def atomizer(c):
    AC = 'cbdc::atomizer_client'
    WC, AN = F('m_wc'), F('m_atomizer_network')
    c.field(AC, 'm_wc')
    c.field(AC, 'm_atomizer_network')
    u = fn_(c, AC + '::init_derived')
    c.every(u, 'connecting', Does(M(lambda e: e.kind == 'call' and e.q.endswith('blocking_client::init') and unver(e.obj) == WC, 'connect to the watchtower'), 1),
            Does(M(lambda e: e.kind == 'call' and e.q.endswith('connection_manager::cluster_connect') and unver(e.obj) == AN and unver(e.args[0]) == F('m_atomizer_endpoints', F('m_opts')), 'connect to the atomizers'), 1), Ret(TRUE))

    u = fn_(c, AC + '::sync')
    rule = 'settling (atomizer)'
    ASK = M(lambda e: e.kind == 'call' and e.q.endswith('blocking_client::request_status_update') and unver(e.obj) == WC, 'ask the watchtower')
    good = [c.enum('cbdc::watchtower::search_status::' + n) for n in ('unspent', 'spent')]
    seen = set()

    def asked(p):
        ev = [s.ev for s in enc(p, ASK)]
        if len(ev) != 1:
            return 'asks %d times' % len(ev)
        X = next((t for t in subterms(ev[0].args[0]) if t[0] == 'ver' and t[1][0] == 'loc' or t[0] == 'loc'), None)
        if X is None:
            return ('asks about nothing', ev[0])
        X = unver(X)
        for f in (PT, PI):
            ls = [i for i in p.items if isinstance(i, Loop) and over(i, f)]
            if len(ls) != 1 or ls[0].mode != 'all' or p.items.index(ls[0]) > p.items.index(ev[0]):
                return 'does not ask about all of %s' % f[-1]
            l = ls[0]
            key = [t for t in elems(l) if t[0] == 'key'] + [F('first', t) for t in elems(l) if t[0] == 'elem']
            val = [('at', d, t) for d in l.dom[1:3] for t in key] + [F('second', t) for t in elems(l) if t[0] == 'elem']
            for e in l.edges:
                mt = [x for x in top(e.items) if x.kind in ('mut', 'set') and under_(x.obj, X)]
                if f == PI:
                    ok = [x for x in mt if x.kind == 'mut' and x.q in ('emplace', 'insert', 'keep') and x.args[0] in key and any(listed_(x.args[1]) == [ihash(v)] for v in val) or x.kind == 'set' and x.obj[0] == 'at' and x.obj[2] in key and any(listed_(x.args[0]) == [ihash(v)] for v in val)]
                    if len(ok) != 1 or len(mt) != 1:
                        return ('does not ask about the received coin', l)
                    continue
                ctx = [('new', 'cbdc::transaction::compact_tx', (v,)) for v in val]
                ids = [F('m_id', x) for x in ctx] + key
                new = [x for x in mt if x.kind == 'mut' and x.q in ('emplace', 'insert', 'keep', 'ensure') and x.args[0] in ids]
                app = [x for x in mt if x.kind == 'mut' and x.q in ('append', 'insert') and x not in new]
                src = sorted(n for x in app for n in ('m_inputs', 'm_uhs_outputs') if any(x.args[-1] == F(n, y) for y in ctx))
                if src != ['m_inputs', 'm_uhs_outputs'] or len(new) + len(app) != len(mt) or not all(x.obj[0] == 'at' and x.obj[2] in ids for x in app):
                    return ('does not ask about exactly the inputs and outputs of the payment', l)
        r = result(ev[0])
        has = p.st.known(('has', r))
        rest = p.items[p.items.index(ev[0]):]
        cl = [i for i in rest if isinstance(i, Loop)]
        if has is None:
            return ('whether the watchtower answered is not looked at', ev[0])
        if has is False:
            seen.add('lost')
            return None if p.ret == FALSE and not any(confirms(x) for i in rest for x in allev([i])) else ('settles payments without an answer', ev[0])
        if len(cl) != 1 or cl[0].mode != 'all' or cl[0].dom[0] != 'each' or not any(is_call(d, 'status_request_check_success::states') and d[2][0] == r for d in cl[0].dom[1:3]):
            return ('does not go through the whole answer', ev[0])
        l = cl[0]
        key = [t for t in elems(l) if t[0] == 'key'] + [F('first', t) for t in elems(l) if t[0] == 'elem']
        bad = []
        for e in l.edges:
            cf = [x for x in top(e.items) if confirms(x)]
            inn = [x for x in e.items if isinstance(x, Loop)]
            found = None
            for x in inn:
                els = [('elem', d, x.L) for d in x.dom[1:3]]
                st = [('call', 'cbdc::watchtower::status_update_state::status', (t,), 0) for t in els]
                if x.mode == 'some':
                    found = x.must and all(any(y.st.known(compare('==', s, g)) is True for s in st for g in good) for y in x.must) or found_at(e.st, st, good)
                else:
                    ok = all(any(y.st.known(compare('==', s, good[0])) is False and y.st.known(compare('==', s, good[1])) is False for s in st) for y in x.edges)
                    found = False if ok else None
            if found is None:
                return ('the state of the coins is not looked at', l)
            if bool(cf) != bool(found) or len(cf) > 1 or cf and cf[0].args[0] not in key:
                return ('is confirmed iff the watchtower has seen it: no', l)
            done_ = bool(cf) and e.st.known(result(cf[0]) if result(cf[0]) else cf[0].ret)
            if not done_:
                bad.append(e)
        if p.ret == TRUE and bad:
            return ('reports success although not everything was settled', l)
        if p.ret == FALSE and not (l.must and all(e in bad for e in l.must)):
            return ('reports a failure although everything was settled', l)
        seen.add(p.ret)
        return None if p.ret in (TRUE, FALSE) else 'returns %s' % pp(p.ret)[:60]
    c.every(u, rule, asked)
    c.ob(rule, seen == {TRUE, FALSE, 'lost'}, c.where(u), 'an outcome is never reported: %s' % seen)

    u = fn_(c, AC + '::send_mint_tx')
    SEND = M(lambda e: e.kind == 'call' and e.q.endswith('connection_manager::send_to_one') and unver(e.obj) == AN, 'notify an atomizer')
    BEST = ('call', 'cbdc::watchtower::blocking_client::request_best_block_height', (WC,), 0)
    c.every(u, 'minting (atomizer): attested', attested(SEND, 0))

    def notified(p):
        ev = [s.ev for s in enc(p, SEND)]
        has = p.st.known(('has', BEST))
        if has is None:
            return 'whether the watchtower answered is not looked at'
        if not has:
            return None if not ev and p.ret == FALSE else 'notifies the atomizer without a block height'
        if len(ev) != 1:
            return 'notifies %d times' % len(ev)
        msg = alt_(ev[0].args[0])
        if msg[0] != 'obj' or not msg[1].endswith('tx_notify_request'):
            return ('sends something else: %s' % pp(msg)[:60], ev[0])
        fs = dict(msg[2])
        h = fs.get('m_block_height')
        if h != ('call', 'cbdc::watchtower::best_block_height_response::height', (BEST,), 0):
            return ('not the best height', ev[0])
        at = fs.get('m_attestations')
        if not (at is not None and at[0] == 'list' and not at[2]):
            return ('claims attestations of shards', ev[0])
        r = result(ev[0])
        v = p.st.known(r)
        return None if p.ret in (r, TRUE if v else FALSE if v is False else r) else ('does not report whether it was sent', ev[0])
    c.every(u, 'minting (atomizer): notified with the best height', notified)
    u = c.fn(AC + '::~atomizer_client')
    c.every(u, 'stopping', Does(M(lambda e: e.kind == 'call' and e.q.endswith('connection_manager::close') and unver(e.obj) == AN, 'close the connection'), 1))


def found_at(st, ts, good):
    return any(st.known(compare('==', s, g)) is True for s in ts for g in good)


def alt_(v):
    while v[0] in ('var', 'some', 'as') or v[0] == 'new' and len(v[2]) == 1 or v[0] == 'obj' and len(v[2]) == 1:
        v = v[1] if v[0] == 'as' else v[2][0] if v[0] == 'new' else v[2][0][1] if v[0] == 'obj' else v[-1]
    return v


def PR_ret(t):
    return lambda p: None if unsome(unver(p.ret)) == t or p.st.load(p.ret) == t else 'returns %s' % pp(p.ret)[:100]


def unsome(v):
    return v[1] if v[0] == 'some' else v


def pair(v):
    if v[0] == 'obj':
        v = tuple(unsome(x[1]) for x in v[2])
        return v if len(v) == 2 else None
    if v[0] == 'new' and len(v[2]) == 2:
        return tuple(unsome(x) for x in v[2])
    return None


def nothing(c, u, v):
    """two empty optionals"""
    if v[0] == 'glob':
        def go(o):
            if isinstance(o, dict):
                if o.get('k') == 'decl' and o.get('n') == v[1].split('@')[0].split(' ')[-1]:
                    return o
                o = list(o.values())
            if isinstance(o, list):
                return next((r for r in map(go, o) if r is not None), None)
            return None
        d = next((r for r in (go(f.get('body')) for f in c.P.funcs.values() if f['file'].endswith('client.cpp') and f['q'].startswith(CL)) if r is not None), None)
        if d is None:
            return False
        s = str(d.get('init'))
        return s.count("'std::nullopt'") >= 2 or s.count("'std::nullopt_t'") >= 2 and 'make_pair' in s
    p = pair(v)
    return p == (NONE, NONE)


def listed_(v):
    if v[0] == 'list':
        return list(v[2])
    if v[0] in ('obj',):
        return [x[1] for x in v[2]]
    return [v]


def versions(e, f):
    """the names of a container in what is known on an edge"""
    r = {f}
    for q in e.st.bools:
        if q[0] == 'in' and unver(q[1]) == f:
            r.add(q[1])
    return r


def adds(C, k, v):
    return M(lambda e: e.kind == 'mut' and unver(e.obj) == C and e.q in ('emplace', 'insert', 'assign', 'insert_or_assign', 'keep', 'try_emplace') and e.args[:2] == (k, v) or e.kind == 'set' and e.obj == ('at', C, k) and e.args[0] == v, 'remembers it')


def decode(c):
    """addresses"""
    u = c.fn('cbdc::address::decode')
    dec = ('call', 'bech32::Decode', (A(0),), 0)
    hrp = Eq(F('first', dec), ('s', 'usd'))
    D = None
    for p in u.paths:
        for q in p.st.bounds:
            for t in subterms(q):
                if t[0] == 'size' and t[1][0] in ('ver', 'loc', 'out'):
                    D = t[1]
    rule = 'address: a public key with the right prefix, length and kind'
    if D is None:
        c.ob(rule, False, c.where(u), 'the length of the address is not checked')
        return
    typ = c.enum('cbdc::client::address_type::public_key')
    kind = compare('==', ('at', unver(D), I_(0)), I_(typ) if isinstance(typ, int) else I_(typ[2]))
    n = 0
    for p in u.paths:
        w = c.where(u, p)
        cond = [p.st.known(compare('==', F('first', dec), ('s', 'usd'))), p.st.known(compare('==', ('size', D), I_(33))), p.st.known(kind)]
        cond = [k if k is not None else x for k, x in zip(cond, [None, None, p.st.known(compare('==', ('at', D, I_(0)), kindv(typ)))])]
        # the first byte exists only once the length is known
        if any(t in (('at', unver(D), I_(0)), ('at', D, I_(0))) for q in p.st.bounds for t in subterms(q)):
            c.ob(rule, cond[1] is True, w, 'reads the kind of an address that may be empty', p)
        if p.ret == NONE:
            c.ob(rule, False in cond, w, 'rejects a good address', p)
            continue
        n += 1
        c.ob(rule, all(x is True for x in cond), w, 'accepts another text as an address', p)
        ev = list(allev(p.items))
        cp = [e for e in ev if e.kind == 'call' and e.q.split('::')[-1] in ('copy_n', 'copy', 'memcpy')]
        er = [e for e in ev if e.kind == 'mut' and e.q == 'erase' and unver(e.obj) == unver(D)]
        ok = len(cp) == 1
        if ok:
            a = cp[0].args
            b0 = ('begin', unver(D))
            s0 = unver(a[0])
            first = s0 == b0
            skipped = len(er) == 1 and unver(er[0].args[0]) == b0 and ev.index(er[0]) < ev.index(cp[0])
            second = not er and a[0] != b0 and mentions_t(a[0], b0) and I_(1) in list(subterms(a[0])) + [x for x in flat(a[0])]
            dst = a[2] if len(a) > 2 else NONE
            out = unver(dst[1]) if dst[0] == 'begin' else None
            whole = a[1] == I_(32) or mentions_t(a[1], ('end', unver(D)))
            ok = (first and skipped or second) and whole and out is not None and p.ret[0] == 'some' and (p.ret[1] == p.st.load(out) or p.ret[1] == out)
        c.ob(rule, ok, w, 'the public key is not the 32 bytes after the kind', p)
    c.ob(rule, n > 0, c.where(u), 'no address is accepted')
    for site, k in c.closures(u, call('ConvertBits')):
        for p in k.rets:
            m = [e for e in allev(p.items) if e.kind == 'mut']
            c.ob(rule, len(m) == 1 and m[0].q in ('push_back', 'emplace_back') and m[0].args == (A(0, k.depth),), 'address::decode', 'the decoded bytes are not kept in order', p)


def flat(t):
    return [I_(t[1])] if t[0] == 'lin' else []


def kindv(typ):
    return I_(typ) if isinstance(typ, int) else I_(typ[2])
