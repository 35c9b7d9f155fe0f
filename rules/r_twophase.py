"""Two-phase commit architecture: locking shards, coordinators."""
from lib import *

LS = 'cbdc::locking_shard::locking_shard'
RUN = F('m_running')
MUT = F('m_mut')
UHS = F('m_uhs')
LOCKED = F('m_locked')
PREP = F('m_prepared_dtxs')
APPL = F('m_applied_dtxs')
DONE = F('m_completed_txs')
IN_RANGE = 'hash_in_shard_range'


def in_range(h):
    return ('call', 'cbdc::locking_shard::interface::hash_in_shard_range', (THIS, h), 0)


def attested(tx):
    return ('call', 'cbdc::transaction::validation::check_attestations',
            (tx, F('m_opts.m_sentinel_public_keys'), F('m_opts.m_attestation_threshold')), 0)


SHARD_FILES = ['uhs/twophase/locking_shard/locking_shard.cpp', 'uhs/twophase/locking_shard/interface.cpp']
STATE = [UHS, LOCKED, PREP, APPL, DONE]


def unchanged(*ps):
    return [Never(touches(p)) for p in ps]


def range_rule(c):
    c.load('util/common/config.cpp')
    u = c.fn('cbdc::config::hash_in_shard_range')
    b = at(A(1), ('i', 0))
    inside = And(Ge(b, F('first', A(0))), Le(b, F('second', A(0))))
    c.cases(u, 'shard range', [('inside', inside, [Ret(TRUE)]), ('outside', Not(inside), [Ret(FALSE)])])


@prop('S01', files=SHARD_FILES)
def s01(c):
    """a batch locks all-or-nothing per transaction, exclusively"""
    u = c.fn(LS + '::lock_outputs', opaque=[IN_RANGE])
    txs, dtx = A(0), A(1)

    def inputs(x):
        return F('m_tx.m_inputs', x.e)

    def spendable(x):
        return And(attested(F('m_tx', x.e)), All(inputs(x), lambda y: Or(Not(in_range(y.e)), InV(UHS, y.e))))

    def take(x):
        return Each(inputs(x), lambda y: [dels(UHS, y.e), puts(LOCKED, y.e)], where=lambda y: in_range(y.e))

    fresh = Each(txs, lambda x: [take(x), push(('loc', ANY, ANY), TRUE)], where=spendable)

    def skip_only(p):
        # a rejected transaction neither touches the sets nor reports success
        for lp in loops(p.items, txs):
            x = X(lp.dom, lp.L)
            for e in lp.edges:
                h = holds(spendable(x), Ctx(e.st, e.items))
                if h is True:
                    continue
                for s in walk(e.items, e.st):
                    if touches(UHS)(s.ev) or touches(LOCKED)(s.ev):
                        return ('inputs are locked for a transaction not known to be attested and spendable', s.ev)
                if not must(e.items, push(('loc', ANY, ANY), FALSE)):
                    return ('a rejected transaction is not reported as failed', lp)
        return None

    def stored(p):
        for ev in top(p.items):
            if puts(PREP, dtx)(ev) and ev.args[1][0] == 'obj':
                d = dict(ev.args[1][2])
                if d.get('m_txs') == txs and p.ret[0] == 'some' and d.get('m_results') == p.ret[1]:
                    return None
                return ('the prepared record does not hold the batch and the returned results', ev)
        return 'the batch is not recorded as prepared'
    c.cases(u, 'lock batch', [
        ('stopped', Not(RUN), [Ret(NONE)] + unchanged(*STATE)),
        ('repeated', And(RUN, In(PREP, dtx)), [Ret(lambda v: v == ('some', F('m_results', at(PREP, dtx))))] + unchanged(*STATE)),
        ('new', And(RUN, NotIn(PREP, dtx)), [fresh, skip_only, stored]),
    ])
    c.locked(u, 'lock batch under the exclusive lock', touches(UHS) | touches(LOCKED) | touches(PREP), MUT, 'x')
    c.discipline(LS, ['m_mut'], ['m_uhs', 'm_locked', 'm_prepared_dtxs', 'm_applied_dtxs'], skip=['read_preseed_file'])
    range_rule(c)
    c.every(c.fn('cbdc::locking_shard::interface::hash_in_shard_range', opaque=['config::hash_in_shard_range']), 'the shard decides by its own range',
            lambda p: None if holds(('call', 'cbdc::config::hash_in_shard_range', (F('m_output_range'), A(0)), 0), Ctx(p.st, p.items)) is (p.ret == TRUE) else 'does not answer whether the hash is in its range')


@prop('S02', files=SHARD_FILES)
def s02(c):
    """apply: completed txs move inputs to outputs; aborted ones give back only what they locked"""
    u = c.fn(LS + '::apply_outputs', opaque=[IN_RANGE])
    flags, dtx = A(0), A(1)
    rec = at(PREP, dtx)
    txs = F('m_txs', rec)
    res = F('m_results', rec)

    def eff(x):
        comp = x.at(flags)
        mine = x.at(res)
        outs = F('m_tx.m_uhs_outputs', x.e)
        ins = F('m_tx.m_inputs', x.e)

        def body(p):
            r = Each(outs, lambda y: puts(UHS, y.e), where=lambda y: And(in_range(y.e), comp))(p)
            if r and holds(comp, Ctx(p.st, p.items)) is False and not any(puts(UHS, ('elem', outs, ANY))(s.ev) for s in walk(p.items, p.st)):
                r = None
            if r:
                return ('outputs: ' + (r if isinstance(r, str) else r[0]), None if isinstance(r, str) else r[1])
            ctx = Ctx(p.st, p.items)
            nomine = holds(mine, ctx) is False
            touched = [s for s in walk(p.items, p.st) if mut(LOCKED)(s.ev) or (mut(UHS)(s.ev) and mentions_t(s.ev.args, ('elem', ins, ANY)))]
            for s in touched:
                if holds(mine, s.ctx) is not True:
                    return ('inputs are released although this shard did not lock them for the transaction', s.ev)
                if holds(in_range(('elem', ins, ANY)), s.ctx) is False:
                    return ('an input outside the range is released', s.ev)
            if nomine:
                return None
            r = Each(ins, lambda y: dels(LOCKED, y.e), where=lambda y: And(in_range(y.e), mine, lambda cx, y=y: holds(InV(LOCKED, y.e, before=True), cx) is not False), exact=False)(p)
            if r:
                return ('inputs: ' + (r if isinstance(r, str) else r[0]), None if isinstance(r, str) else r[1])
            for s in touched:
                if puts(UHS)(s.ev) and holds(comp, s.ctx) is not False:
                    return ('an input of a completed transaction becomes spendable again', s.ev)
            for lp in loops(p.items, ins):
                y = X(lp.dom, lp.L)
                for e in lp.edges:
                    cx = Ctx(e.st, e.items)
                    if holds(And(in_range(y.e), mine, Not(comp)), cx) is not False and not must(e.items, puts(UHS, y.e)):
                        # only allowed where the input turned out not to be locked
                        if holds(InV(LOCKED, y.e, before=True), cx) is not False:
                            return ('an input of an aborted transaction is not given back', lp)
            return None
        return [body]

    c.cases(u, 'apply batch', [
        ('stopped', Not(RUN), [Ret(FALSE)] + unchanged(*STATE)),
        ('already applied', And(RUN, NotIn(PREP, dtx), In(APPL, dtx)), [Ret(TRUE)] + unchanged(*STATE)),
        ('prepared', And(RUN, In(PREP, dtx)), [Ret(TRUE), Each(txs, eff), Does(dels(PREP, dtx)), Does(puts(APPL, dtx))]),
    ])
    c.guard(u, 'batch size', touches(UHS) | touches(LOCKED), Eq(Size(flags), Size(txs)))
    c.guard(u, 'no silent apply of unknown batch', puts(APPL), And(RUN, In(PREP, dtx)))
    c.locked(u, 'apply batch under the exclusive lock', touches(UHS) | touches(LOCKED) | touches(PREP) | touches(APPL), MUT, 'x')
    v = c.fn(LS + '::discard_dtx')
    c.cases(v, 'discard', [
        ('stopped', Not(RUN), [Ret(FALSE)] + unchanged(*STATE)),
        ('running', RUN, [Ret(TRUE), Does(dels(APPL, A(0)))] + unchanged(UHS, LOCKED, PREP, DONE)),
    ])


SM = 'cbdc::locking_shard::state_machine'
ST_FILES = SHARD_FILES + ['uhs/twophase/locking_shard/status_client.cpp', 'uhs/twophase/locking_shard/status_server.cpp', 'uhs/twophase/locking_shard/state_machine.cpp']


def alt_of(v):
    """the value inside a variant / optional"""
    while isinstance(v, tuple) and v and v[0] in ('var', 'some'):
        v = v[-1]
    return v


@prop('S03', files=ST_FILES)
def s03(c):
    """status answers follow the shard's sets; requests reach the shard unchanged"""
    range_rule(c)
    u = c.fn(LS + '::check_unspent')
    there = Or(In(UHS, A(0)), In(LOCKED, A(0)))
    c.cases(u, 'unspent status', [('spendable or locked', there, [Ret(('some', TRUE))]), ('neither', Not(there), [Ret(('some', FALSE))])])
    c.every(u, 'status query changes nothing', Never(mut(ANY)), Never(sets(ANY)))
    c.every(c.fn(LS + '::check_tx_id', opaque=['contains']), 'transaction status',
            Ret(lambda v: alt_of(v)[0] == 'call' and qmatch('cache_set::contains', alt_of(v)[1]) and alt_of(v)[2] == (DONE, A(0))))
    c.every(c.fn(LS + '::stop'), 'stop', Final(RUN, FALSE))
    # completed transactions are remembered exactly when completed
    u = c.fn(LS + '::apply_outputs', opaque=[IN_RANGE])
    rec = at(PREP, A(1))
    add = call('cache_set::add', obj=DONE)

    def eff(x):
        comp = x.at(A(0))
        tid = F('m_tx.m_id', x.e)

        def body(p):
            ctx = Ctx(p.st, p.items)
            h = holds(And(comp, in_range(tid)), ctx)
            a = enc(p, add) + [s for s in walk(p.items, p.st) if s.ev.kind == 'mut' and s.ev.obj in (DONE, F('m_vals', DONE))]
            a = [s for s in a if not (s.ev.kind == 'mut' and s.ev.q == 'erase')]
            if h is True and not any(s.ev.args and s.ev.args[0] == tid for s in a):
                return 'a completed transaction is not remembered'
            if h is not True and a:
                return ('a transaction is remembered as completed although it is not, or is outside the range', a[0].ev)
            return None
        return [body]
    c.cases(u, 'completed transactions', [('prepared', And(RUN, In(PREP, A(1))), [Each(F('m_txs', rec), eff)])], total=False)
    # status server and client
    u = c.fn('cbdc::locking_shard::rpc::status_server::request_handler')

    def answers(q, t, f):
        return lambda p: None if is_call(p.ret, q) and p.ret[2] == (F('m_impl'), F(f, ('as', A(0), t))) else 'the answer is not the shard\'s'
    t1, t2 = 'cbdc::locking_shard::rpc::uhs_status_request', 'cbdc::locking_shard::rpc::tx_status_request'
    c.cases(u, 'status server', [
        ('uhs', Is(A(0), t1), [answers('status_interface::check_unspent', t1, 'm_uhs_id')]),
        ('tx', Is(A(0), t2), [answers('status_interface::check_tx_id', t2, 'm_tx_id')]),
    ])
    SC = 'cbdc::locking_shard::rpc::status_client'
    for m, t, f in (('check_tx_id', t2, 'm_tx_id'), ('check_unspent', t1, 'm_uhs_id')):
        u = c.fn(SC + '::' + m, opaque=['config::hash_in_shard_range'])
        req = call('rpc::client::call')

        def routed(p):
            e = enc(p, req)
            if not e:
                if p.ret != NONE:
                    return 'answers without asking a shard'
                h = holds(All(F('m_shard_ranges'), lambda x: Not(('call', 'cbdc::config::hash_in_shard_range', (x.e, A(0)), 0))), Ctx(p.st, p.items))
                return None if h is True else 'gives up although a shard may cover the hash'
            ev = e[0].ev
            if len(e) != 1:
                return 'asks %d shards' % len(e)
            o = ev.obj
            if o[0] != 'at' or o[1] != F('m_shard_clients') or o[2][0] != 'ix' or o[2][1] != F('m_shard_ranges'):
                return ('asks another shard', ev)
            if holds(('call', 'cbdc::config::hash_in_shard_range', (('elem', o[2][1], o[2][2]), A(0)), 0), e[0].ctx) is not True:
                return ('asks a shard that does not cover the hash', ev)
            a = alt_of(ev.args[0])
            if a != ('obj', t, ((f, A(0)),)):
                return ('asks for something else', ev)
            return None if mentions_t(p.ret, PR(lambda q: q == result(ev))) or p.ret == result(ev) else 'does not return the answer'
        c.every(u, 'status routing', routed)
    # replicated state machine
    u = c.fn(SM + '::process_request')
    R = 'cbdc::locking_shard::rpc::'
    LSI = ('lock_outputs', 'apply_outputs', 'discard_dtx')
    sh = F('m_shard')
    did = F('m_dtx_id', A(0))
    par = F('m_params', A(0))
    seen = {}
    for p in u.rets:
        evs = [s.ev for s in enc(p, call(LSI))]
        w = c.where(u, p)
        typ = [b[2] for b, v in p.st.bools.items() if b[0] == 'is' and v and b[1] == par]
        if len(evs) != 1 or evs[0].obj != sh or len(typ) != 1:
            c.ob('replicated request', False, w, 'a request does not result in exactly one shard operation', p)
            continue
        ev, t = evs[0], typ[0]
        n = ev.q.split('::')[-1]
        seen[n] = t
        want = (('as', par, t), did) if n != 'discard_dtx' else (did,)
        c.ob('replicated request arguments', ev.args == want, w, '%s is called with other arguments than requested' % n, p)
        exp = {'lock_outputs': 'tx', 'apply_outputs': 'bool', 'discard_dtx': 'discard_params'}[n]
        c.ob('replicated request kind', exp in t, w, '%s answers a request of another kind' % n, p)
        if n == 'lock_outputs':
            c.ob('lock response', mentions_t(p.ret, PR(lambda q: q == result(ev))), w, 'the lock results are not returned', p)
        else:
            c.ob('%s response' % n, p.ret[0] == 'var' and n.split('_')[0] + '_response' in p.ret[1], w, 'the response is of another kind', p)
    for n in LSI:
        c.ob('every request kind is served', n in seen, c.where(u), n + ' is never called')
    u = c.fn(SM + '::commit', opaque=['process_request', 'blocking_call'])
    bc = call('blocking_call')
    last = F('m_last_committed_idx')
    c.every(u, 'log application', Does(bc, 1), Final(last, A(0)),
            lambda p: None if all(s.ev.args[0] == A(1) for s in enc(p, bc)) else 'another entry is applied',
            lambda p: None if (p.ret == ('null',) or p.ret == NULL or mentions_t(p.ret, PR(lambda q: is_call(q, 'blocking_call')))) else 'the result is not returned')
    c.every(c.fn(SM + '::last_commit_index'), 'last index', Ret(last))
    cs = c.fn(SM + '::create_snapshot')
    c.every(cs, 'no snapshot is claimed', lambda p: None if all(s.ev.args[0] == FALSE for s in enc(p, invoke())) else 'reports a snapshot that was not taken')
    c.every(c.fn(SM + '::apply_snapshot'), 'no snapshot is applied', Ret(FALSE))
