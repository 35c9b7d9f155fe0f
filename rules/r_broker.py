"""PArSEC broker: distributed commit of tickets over shards, recovery."""
from lib import *
from r_rls import once

NS = 'cbdc::parsec::broker::'
IM = NS + 'impl'
SH = 'runtime_locking_shard::interface::'
TK = F('m_tickets')
MUT = F('m_mut')
SHARDS = F('m_shards')
FILES = ['parsec/broker/impl.cpp']
HANDLERS = ['handle_ticket_number', 'handle_lock', 'handle_find_key', 'handle_prepare', 'handle_commit', 'handle_rollback', 'handle_finish',
            'handle_get_tickets', 'handle_recovery_commit', 'handle_recovery_finish', 'handle_recovery_rollback', 'do_recovery', 'do_commit', 'do_prepare']
REQS = [SH + x for x in ('try_lock', 'prepare', 'commit', 'rollback', 'finish', 'get_tickets')]


class T:
    """names for one ticket"""

    def __init__(self, c, t, tick=None):
        self.c = c
        self.t = t
        self.tick = at(TK, t) if tick is None else tick
        self.st = F('m_state', self.tick)
        self.ss = F('m_shard_states', self.tick)
        self.known = InV(TK, t)

    def sh(self, i):
        return F('m_state', at(self.ss, i))

    def keys(self, i):
        return F('m_key_states', at(self.ss, i))

    def is_(self, n):
        return Eq(self.st, ts(self.c, n))

    def valid(self):
        return Or(Not(self.known), *[self.is_(n) for n in ('begun', 'prepared', 'committed', 'aborted')])


def ts(c, n):
    return c.enum(IM + '::ticket_state::' + n)


def shs(c, n):
    return c.enum(IM + '::shard_state_type::' + n)


def ec(c, n):
    e = c.enum(NS + 'interface::error_code::' + n)
    return PR(lambda v: any(t == e for t in subterms(v)))


def gate(c, T_, cb, allowed, same, unknown='unknown_ticket', errs=None):
    """refused states answer the caller with their own error, changing nothing"""
    errs = errs or {}
    r = [('unknown ticket', Not(T_.known), same + [once(cb, ec(c, unknown))])]
    for n in ('begun', 'prepared', 'committed', 'aborted'):
        if n not in allowed:
            r.append((n, And(T_.known, T_.is_(n)), same + [once(cb, ec(c, errs.get(n, n)))]))
    return r


def quiet(cb):
    return Never(invoke(cb))


NOREQ = [Never(call(REQS)), Never(call(['do_commit', 'do_prepare']))]
SAME = [Never(touches(TK))] + NOREQ


def one(e):
    return PR(lambda v: v == e)


def is_final(path, e):
    return Final(path, PR(lambda v: v == e))


def done_when_all(c, T_, i, cb, good, extra):
    """the shard is marked; the ticket moves on exactly when every shard is there"""
    allgood = All(T_.ss, lambda x: Eq(F('m_state', x.v), good))
    return [
        ('last shard', allgood, [is_final(T_.sh(i), good)] + extra),
        ('others pending', Not(allgood), [is_final(T_.sh(i), good), quiet(cb), Never(sets(T_.st)), Never(dels(TK)), Never(call(['do_commit']))]),
    ]


@prop('P05', files=FILES)
def p05(c):
    """commit only after all shards prepared; committed only after all shards committed"""
    cb, res = A(0), A(3)
    t = T(c, A(1))
    i = A(2)
    PRP, PRE, COM, CMT = (shs(c, n) for n in ('prepared', 'preparing', 'committing', 'committed'))
    WND = shs(c, 'wounded')
    u = c.fn(IM + '::handle_prepare', opaque=['do_commit'])
    ready = And(t.known, t.is_('begun'))
    prep = And(ready, Eq(t.sh(i), PRE))
    wounded = c.enum('cbdc::parsec::runtime_locking_shard::error_code::wounded')
    isw = Eq(F('m_error_code', res), wounded)
    other_w = Any(t.ss, lambda x: Eq(F('m_state', x.v), WND))
    allp = All(t.ss, lambda x: Eq(F('m_state', x.v), PRP))
    nobad = [Never(sets(t.st)), Never(call(['do_commit']))]
    resend = Has(('call', PR(lambda q: qmatch('do_commit', q)), ANY, ANY))

    def docommit_result(p):
        e = [x for x in top(p.items) if call('do_commit')(x)]
        if len(e) != 1:
            return 'do_commit is called %d times' % len(e)
        e = e[0]
        if e.args[0] != cb or e.args[1] != A(1) or e.args[2] != t.tick:
            return ('commits another ticket', e)
        ind = enc(p, invoke(cb))
        r = result(e)
        h = p.st.known(('has', r))
        if h is False and ind:
            return ('the caller is answered before the commit finished', ind[0].ev)
        if h is not False and not ind:
            return 'an error starting the commit is swallowed'
        return None
    c.cases(u, 'prepare response', gate(c, t, cb, ['begun'], SAME) + [
        ('not preparing', And(ready, Ne(t.sh(i), PRE)), [quiet(cb), Never(sets(ANY))] + nobad),
        ('shard error', And(prep, Has(res), Not(isw)), [once(cb, one(('some', res)) if False else PR(lambda v: mentions_t(v, PR(lambda q: q == res)))), Never(sets(t.sh(i), PRP))] + nobad),
        ('wounded, already reported', And(prep, Has(res), isw, other_w), [quiet(cb)] + nobad),
        ('wounded', And(prep, Has(res), isw, Not(other_w)), [once(cb, PR(lambda v: mentions_t(v, PR(lambda q: q == res)))), Final(t.sh(i), WND)] + nobad),
        ('last shard prepared', And(prep, Not(Has(res)), allp), [is_final(t.sh(i), PRP), is_final(t.st, ts(c, 'prepared')), docommit_result]),
        ('shard prepared', And(prep, Not(Has(res)), Not(allp)), [is_final(t.sh(i), PRP), quiet(cb)] + nobad),
    ], assume=t.valid())

    # commit requests
    u = c.fn(IM + '::do_commit', opaque=[h for h in HANDLERS if h != 'do_commit'])
    t2 = T(c, A(1), A(2))
    unreach = PR(lambda v: v == ('some', c.enum(NS + 'interface::error_code::shard_unreachable')))
    shard_requests(c, u, 'commit', t2, CMT, COM, 'handle_commit', A(0), A(1), lambda x: (A(1),), unreach)
    # prepare requests
    u = c.fn(IM + '::do_prepare', opaque=[h for h in HANDLERS if h != 'do_prepare'])
    shard_requests(c, u, 'prepare', t2, PRP, PRE, 'handle_prepare', A(0), A(1), lambda x: (A(1), F('m_broker_id'), PR(lambda v: True)), unreach,
                   each=lambda x: [updates_for(x, t2, A(3))])

    u = c.fn(IM + '::handle_commit')
    ready = And(t.known, t.is_('prepared'))
    exp = And(ready, Eq(t.sh(i), COM))
    ok = And(exp, Not(Has(res)))
    c.cases(u, 'commit response', gate(c, t, cb, ['prepared'], SAME, errs={'begun': 'not_prepared'}) + [
        ('not committing', And(ready, Ne(t.sh(i), COM)), [once(cb, ec(c, 'invalid_shard_state')), Never(sets(ANY))]),
        ('shard error', And(exp, Has(res)), [once(cb, ec(c, 'commit_error')), Never(sets(ANY))]),
    ] + [(n, And(ok, k), e) for n, k, e in done_when_all(c, t, i, cb, CMT, [once(cb, NONE), is_final(t.st, ts(c, 'committed'))])], assume=t.valid())

    # commit
    u = c.fn(IM + '::commit', opaque=['do_commit', 'do_prepare'])
    t = T(c, A(0))
    upd, cb = A(1), A(2)
    LCK = c.enum(IM + '::key_state::locking')
    go = And(t.known, Or(t.is_('begun'), t.is_('prepared')))
    pending = Any(t.ss, lambda s: Any(F('m_key_states', s.v), lambda k: Eq(F('m_key_state', k.v), LCK)))
    covered = All(upd, lambda x: First(InV(('loc', ANY, ANY), x.k), Any(t.ss, lambda s: InV(F('m_key_states', s.v), x.k))))

    def start(name):
        def f(p):
            e = [x for x in top(p.items) if call(name)(x)]
            if len(e) != 1 or e[0].args[:3] != (cb, A(0), t.tick) or (name == 'do_prepare' and e[0].args[3] != upd):
                return 'does not go on with ' + name
            r = result(e[0])
            h = p.st.known(('has', r))
            ind = enc(p, invoke(cb))
            if h is False and ind:
                return ('the caller is answered before the commit finished', ind[0].ev)
            if h is True and not ind:
                return 'an error is swallowed'
            return None
        return f

    def keyset_complete(p):
        for it in p.items:
            if it.kind == 'loop' and it.mode == 'all' and same(upd, it.dom):
                for e in it.edges:
                    for b, v in e.st.bools.items():
                        if b[0] == 'in' and b[2][0] == 'key' and v and unver(b[1])[0] == 'loc':
                            C = unver(b[1])
                            if not any(s.ev.kind == 'mut' and unver(s.ev.obj) == C and s.ev.args and mentions_t(s.ev.args[0], ('key', F('m_key_states', at(t.ss, ANY)), ANY)) for s in walk(p.items, p.st)):
                                return ('the keys consulted are not those locked by the ticket', it)
                            for s in walk(p.items, p.st):
                                if s.ev.kind == 'mut' and unver(s.ev.obj) == C and s.ev.args and not mentions_t(s.ev.args[0], ('key', F('m_key_states', at(t.ss, ANY)), ANY)):
                                    return ('other keys are accepted too', s.ev)
        return None
    c.cases(u, 'commit request', gate(c, t, cb, ['begun', 'prepared'], SAME) + [
        ('locks pending', And(go, pending), SAME + [once(cb, ec(c, 'waiting_for_locks'))]),
        ('foreign update', And(go, Not(pending), Not(covered)), SAME + [once(cb, ec(c, 'commit_hazard'))]),
        ('prepared', And(t.known, t.is_('prepared'), Not(pending), covered), [start('do_commit'), keyset_complete, Never(call('do_prepare')), Never(touches(TK))]),
        ('begun', And(t.known, t.is_('begun'), Not(pending), covered), [start('do_prepare'), keyset_complete, Never(call('do_commit')), Never(touches(TK))]),
    ], assume=t.valid())
    # nobody else asks shards to commit or marks tickets prepared/committed
    c.discipline(IM, ['m_mut'], ['m_tickets', 'm_recovery_tickets', 'm_highest_ticket'])


def updates_for(x, t, upd):
    """the shard gets exactly the updates of keys it holds"""
    keys = F('m_key_states', x.v)

    def f(p):
        e = [i for i in top(p.items) if call(SH + 'prepare')(i)]
        if not e:
            return 'no prepare request'
        arg = e[0].args[2]
        C = unver(arg)
        r = Each(upd, lambda y: [mut_with(C, y)], where=lambda y: InV(keys, y.k))(p)
        if r:
            return 'updates sent to the shard: ' + (r if isinstance(r, str) else r[0])
        return None
    return f


def mut_with(C, y):
    return M(lambda ev: (ev.kind == 'mut' and unver(ev.obj) == C and any(a in (y.e, y.k, F('first', y.e)) for a in ev.args))
             or (ev.kind == 'set' and ev.obj[0] == 'at' and unver(ev.obj[1]) == C and ev.obj[2] in (y.k, F('first', y.e))), 'append the update')


def shard_requests(c, u, verb, t, have, doing, handler, cb, tn, args, unreach, each=None, need_live=True):
    req = call(SH + verb)
    ab = ts(c, 'aborted')

    def failed(p):
        for s in enc(p, req):
            if not s.loops and p.st.known(result(s.ev)) is False:
                return True
        return False

    def todo(x):
        return Ne(F('m_state', x.v), have)

    def asks(x):
        def marked(p):
            e = [i for i in p.items if i.kind != 'loop' and req(i)]
            if len(e) != 1:
                return 'the shard is asked %d times' % len(e)
            if e[0].obj != at(SHARDS, x.k):
                return ('another shard is asked', e[0])
            w = args(x)
            if not all(match(a, b, {}) for a, b in zip(w, e[0].args)):
                return ('the request differs from the ticket', e[0])
            k = p.items.index(e[0])
            if not any(sets(F('m_state', x.v), one(doing))(i) for i in p.items[:k] if i.kind != 'loop'):
                return ('the shard is asked before it is marked as %s' % pp(doing), e[0])
            return None
        return [marked] + (each(x) if each else [])

    def every_shard(p):
        if p.st.known(Eq(t.st, ab)) is True:
            return None
        for it in p.items:
            if it.kind != 'loop' or not same(t.ss, it.dom):
                continue
            x = X(it.dom, it.L)
            for e in it.edges:
                h = holds(todo(x), Ctx(e.st, e.items))
                asked = [i for i in e.items if i.kind != 'loop' and req(i)]
                if h is not True and asked and h is False:
                    return ('a shard that is done is asked again', asked[0])
                if h is not False:
                    for f in asks(x):
                        r = f(EdgePath(e))
                        if r:
                            return r if isinstance(r, tuple) else (r, it)
        if p.ret == NONE and not any(it.kind == 'loop' and it.mode == 'all' and same(t.ss, it.dom) for it in p.items):
            if holds(Empty(t.ss), Ctx(p.st, p.items)) is not True:
                return 'not every shard is asked'
        return None
    c.every(u, 'requests to ' + verb, every_shard,
            lambda p: (Ret(unreach)(p) if failed(p) else (Ret(NONE)(p))))
    c.guard(u, 'no request for an aborted ticket', req, Ne(t.st, ab))
    c.relay(u, verb + ' response', req, handler, lambda s, r: (cb, tn, shard_of(s), r))


def shard_of(s):
    o = s.ev.obj
    return o[2] if o[0] == 'at' else ANY


@prop('P04', files=FILES)
def p04(c):
    """locks are requested and recorded faithfully"""
    u = c.fn(IM + '::handle_ticket_number')
    res = A(1)
    LCK, LKD = c.enum(IM + '::key_state::locking'), c.enum(IM + '::key_state::locked')

    def begun(p):
        ins = [e for e in top(p.items) if puts(TK)(e)]
        if len(ins) != 1:
            return 'the ticket is not recorded'
        n = ins[0].args[0]
        if not (n[0] == 'fld' and n[2] == 'first' and mentions_t(n, res)):
            return ('another number is recorded', ins[0])
        v = ins[0].args[1] if len(ins[0].args) > 1 else None
        if v is None or p.st.load(F('m_state', v)) not in (ts(c, 'begun'),):
            return ('the ticket does not start as begun', ins[0])
        s = enc(p, invoke(A(0)))
        if len(s) != 1 or not mentions_t(s[0].ev.args[0], PR(lambda q: q == n)):
            return 'the caller does not get the recorded number'
        hi = [e for e in top(p.items) if sets(F('m_highest_ticket'))(e)]
        sec = F('second', n[1])
        if hi and hi[0].args[0] != sec:
            return ('the highest ticket is set to something else', hi[0])
        k = holds(Gt(sec, F('m_highest_ticket')), Ctx(p.st, p.items))
        if (k is True) != bool(hi) and holds(Eq(sec, F('m_highest_ticket')), Ctx(p.st, p.items)) is not True:
            return 'the highest ticket does not follow the range'
        return None
    isr = PR(lambda t: 'pair' in str(t))
    ok = lambda ctx: next((v for b, v in ctx.st.bools.items() if b[0] == 'is' and ('pair' in str(b[2]))), None) if ctx.st.known(Has(res)) is not False else False
    bad = lambda ctx: next((v for b, v in ctx.st.bools.items() if b[0] == 'is' and ('error_code' in str(b[2]))), None)
    c.cases(u, 'ticket number', [
        ('assigned', And(Has(res), Or(ok, Not(bad))) if False else And(Has(res), First(ok, Not(bad))), [begun]),
        ('refused', And(Has(res), First(bad, Not(ok))), [Never(touches(TK)), once(A(0), ec(c, 'ticket_number_assignment'))]),
        ('unreachable', Not(Has(res)), [Never(touches(TK)), once(A(0), ec(c, 'ticket_number_assignment'))]),
    ])
    u = c.fn(IM + '::begin', opaque=HANDLERS)
    tmreq = call('ticket_machine::interface::get_ticket_number')
    c.relay(u, 'ticket response', tmreq, 'handle_ticket_number', lambda s, r: (A(0), r))

    # lock request
    u = c.fn(IM + '::try_lock', opaque=HANDLERS)
    t = T(c, A(0))
    cb = A(3)
    loc = call('directory::interface::key_location', obj=F('m_directory'), args=[A(1)])

    def asked(p):
        e = [s for s in enc(p, loc)]
        if len(e) != 1:
            return 'the directory is asked %d times' % len(e)
        r = result(e[0].ev)
        h = p.st.known(r)
        if h is False:
            return once(cb, ec(c, 'directory_unreachable'))(p)
        return quiet(cb)(p)

    def restart(p):
        if not empty_list(p.st.load(t.ss)) and not enc(p, mut(t.ss, ('clear',))):
            return 'locks of the rolled back attempt are kept'
        return is_final(t.st, ts(c, 'begun'))(p)
    c.cases(u, 'lock request', gate(c, t, cb, ['begun', 'aborted'], SAME) + [
        ('begun', And(t.known, t.is_('begun')), [asked, Never(touches(TK))]),
        ('restarted', And(t.known, t.is_('aborted')), [asked, restart]),
    ], assume=t.valid())
    c.relay(u, 'directory response', loc, 'handle_find_key', lambda s, r: (A(0), A(1), A(2), A(3), r))

    u = c.fn(IM + '::handle_find_key', opaque=HANDLERS[:2])
    res = A(4)
    key, ty, cb = A(1), A(2), A(3)
    ks = t.keys(res)
    kst = at(ks, key)
    held = And(InV(ks, key), Eq(F('m_key_state', kst), LKD), Ge(F('m_locktype', kst), ty))
    go = And(t.known, t.is_('begun'))
    req = call(SH + 'try_lock')

    def request(p):
        e = [i for i in top(p.items) if req(i)]
        if len(e) != 1:
            return 'the shard is asked %d times' % len(e)
        e = e[0]
        if e.obj != at(SHARDS, res):
            return ('another shard is asked', e)
        first = e.args[4]
        if e.args[0] != A(0) or e.args[1] != F('m_broker_id') or e.args[2] != key or e.args[3] != ty:
            return ('the request differs', e)
        # first lock exactly when the ticket has no keys there yet
        emp = p.st.known(Empty(ks)) if True else None
        inn = holds(InV(ks, key), Ctx(p.st, p.items))
        if not (first == Empty(ks) or (emp is not None and first == (TRUE if emp else FALSE)) or (inn is True and first == FALSE) or match(('op', ANY, ANY), first, {}) and mentions_t(first, PR(lambda q: q == ks))):
            return ('first-lock flag is not whether the ticket has no keys on the shard', e)
        r = result(e)
        if p.st.known(r) is False:
            x = once(cb, ec(c, 'shard_unreachable'))(p)
        else:
            x = quiet(cb)(p)
        if x:
            return x
        k = p.items.index(e)
        pre = p.items[:k]
        if e.st.load(F('m_key_state', kst)) != LCK:
            return ('the key is not marked as locking before the shard is asked', e)
        if e.st.load(F('m_locktype', kst)) != ty:
            return ('the requested lock type is not recorded before the shard is asked', e)
        return None
    c.cases(u, 'key location', gate(c, t, cb, ['begun'], SAME) + [
        ('directory failed', And(go, Not(Has(res))), SAME + [once(cb, ec(c, 'directory_unreachable'))]),
        ('held already', And(go, Has(res), held), [once(cb, PR(lambda v: mentions_t(v, PR(lambda q: q == F('m_value', kst))))), Never(req), Never(sets(ANY))]),
        ('request', And(go, Has(res), Not(held)), [request]),
    ], assume=t.valid())
    c.relay(u, 'lock response', req, 'handle_lock', lambda s, r: (A(0), A(1), shard_of(s), A(3), r))

    u = c.fn(IM + '::handle_lock')
    i, cb, res = A(2), A(3), A(4)
    ks = t.keys(i)
    kst = at(ks, A(1))
    isv = lambda ctx: variant(ctx, res, 'buffer')
    ise = lambda ctx: variant(ctx, res, 'shard_error')
    good = First(isv, Not(ise))

    def passes(p):
        s = enc(p, invoke(cb))
        if len(s) != 1:
            return 'the caller is answered %d times' % len(s)
        if not mentions_t(s[0].ev.args[0], PR(lambda q: q == res)):
            return ('the caller gets something else', s[0].ev)
        return None
    val = PR(lambda v: mentions_t(v, PR(lambda q: q == res)))
    c.cases(u, 'lock response', [
        ('unknown ticket', And(good, Not(t.known)), SAME + [once(cb, ec(c, 'unknown_ticket'))]),
        ('unknown key', And(good, t.known, Not(InV(ks, A(1)))), [Never(sets(ANY)), once(cb, ec(c, 'invalid_shard_state'))]),
        ('not locking', And(good, t.known, InV(ks, A(1)), Ne(F('m_key_state', kst), LCK)), [Never(sets(ANY)), once(cb, ec(c, 'invalid_shard_state'))]),
        ('locked', And(good, t.known, InV(ks, A(1)), Eq(F('m_key_state', kst), LCK)), [passes, Final(F('m_key_state', kst), LKD), Final(F('m_value', kst), val)]),
        ('refused', Not(good), SAME + [passes]),
    ])


def variant(ctx, v, name):
    for b, k in ctx.st.bools.items():
        if b[0] == 'is' and b[1] == v and name in str(b[2]):
            return k
    return None


@prop('P06', files=FILES)
def p06(c):
    """rollback, finish and recovery never leave a shard behind"""
    cb, res = A(0), A(3)
    t = T(c, A(1))
    i = A(2)
    RB, RBD, FIN, FND = (shs(c, n) for n in ('rolling_back', 'rolled_back', 'finishing', 'finished'))
    u = c.fn(IM + '::handle_rollback')
    ready = And(t.known, t.is_('begun'))
    exp = And(ready, Eq(t.sh(i), RB))
    ok = And(exp, Not(Has(res)))

    def cleared(p):
        if not empty_list(p.st.load(t.keys(i))) and not enc(p, mut(t.keys(i), ('clear',))):
            return 'the locks recorded for the shard are kept'
        return None
    c.cases(u, 'rollback response', gate(c, t, cb, ['begun'], SAME) + [
        ('not rolling back', And(ready, Ne(t.sh(i), RB)), [once(cb, ec(c, 'invalid_shard_state')), Never(sets(ANY))]),
        ('shard error', And(exp, Has(res)), [once(cb, ec(c, 'rollback_error')), Never(sets(ANY))]),
    ] + [(n, And(ok, k), e + [cleared]) for n, k, e in done_when_all(c, t, i, cb, RBD, [once(cb, NONE), is_final(t.st, ts(c, 'aborted'))])], assume=t.valid())
    u = c.fn(IM + '::handle_finish')
    ready = And(t.known, t.is_('committed'))
    exp = And(ready, Eq(t.sh(i), FIN))
    ok = And(exp, Not(Has(res)))
    c.cases(u, 'finish response', gate(c, t, cb, ['committed'], SAME) + [
        ('not finishing', And(ready, Ne(t.sh(i), FIN)), [once(cb, ec(c, 'invalid_shard_state')), Never(sets(ANY)), Never(dels(TK))]),
        ('shard error', And(exp, Has(res)), [once(cb, ec(c, 'finish_error')), Never(sets(ANY)), Never(dels(TK))]),
        ('last shard', And(ok, All(t.ss, lambda x: Eq(F('m_state', x.v), FND))), [Does(dels(TK)), once(cb, NONE)]),
        ('others pending', And(ok, Not(All(t.ss, lambda x: Eq(F('m_state', x.v), FND)))), [is_final(t.sh(i), FND), quiet(cb), Never(dels(TK))]),
    ], assume=t.valid())

    t = T(c, A(0))
    cb = A(1)
    u = c.fn(IM + '::rollback', opaque=HANDLERS)
    go = And(t.known, t.is_('begun'))
    c.cases(u, 'rollback', gate(c, t, cb, ['begun'], SAME) + [
        ('no shard involved', And(go, Empty(t.ss)), [once(cb, NONE), is_final(t.st, ts(c, 'aborted')), Never(call(REQS))]),
        ('shards', And(go, Not(Empty(t.ss))), [asks_all(c, 'rollback', t, RBD, RB, cb, A(0)), Never(sets(t.st))]),
    ], assume=t.valid())
    c.relay(u, 'rollback response', call(SH + 'rollback'), 'handle_rollback', lambda s, r: (cb, A(0), shard_of(s), r))
    u = c.fn(IM + '::finish', opaque=HANDLERS)
    go = And(t.known, t.is_('committed'))
    c.cases(u, 'finish', gate(c, t, cb, ['committed', 'aborted'], SAME) + [
        ('rolled back', And(t.known, t.is_('aborted')), [Does(dels(TK)), once(cb, NONE), Never(call(REQS))]),
        ('committed', go, [asks_all(c, 'finish', t, FND, FIN, cb, A(0)), Never(sets(t.st)), Never(dels(TK))]),
    ], assume=t.valid())
    c.relay(u, 'finish response', call(SH + 'finish'), 'handle_finish', lambda s, r: (cb, A(0), shard_of(s), r))

    # recovery
    RT = F('m_recovery_tickets')
    u = c.fn(IM + '::recover', opaque=HANDLERS)
    get = call(SH + 'get_tickets')
    empty = Empty(TK)

    def all_shards(p):
        if p.ret == FALSE:
            return None
        for it in p.items:
            if it.kind == 'loop' and it.mode == 'all':
                for e in it.edges:
                    if not any(get(x) and x.obj[0] in ('at', 'elem') and x.obj[1] == SHARDS and x.args[0] == F('m_broker_id') for x in e.items):
                        return ('a shard is not asked for its tickets', it)
                    return None
        return 'not every shard is asked for its tickets'

    def fresh_start(p):
        for s in enc(p, get):
            if not any(j.kind == 'mut' and j.obj == RT and j.q == 'clear' for j in s.prefix) and not empty_list(s.ev.st.load(RT)):
                return ('results of an earlier recovery are not discarded', s.ev)
        return None
    c.cases(u, 'recover', [
        ('tickets in flight', Not(empty), [Ret(FALSE), Never(get), Never(touches(TK))]),
        ('idle', empty, [all_shards, fresh_start, Never(touches(TK))]),
    ])
    c.relay(u, 'tickets response', get, 'handle_get_tickets', lambda s, r: (A(0), idx_of(s), r))

    u = c.fn(IM + '::handle_get_tickets', opaque=['do_recovery'])
    cb, sidx, res = A(0), A(1), A(2)
    isok = First(lambda ctx: variant(ctx, res, 'map'), lambda ctx: neg3(variant(ctx, res, 'error_code')))
    full = Eq(Size(RT), Size(SHARDS))

    def stores(p):
        for e in top(p.items):
            if puts(RT, sidx)(e):
                return None
        return 'the tickets of the shard are not recorded'
    R = 'cbdc::parsec::runtime_locking_shard::ticket_state::'
    pairs = [(c.enum(R + n), shs(c, n)) for n in ('begun', 'prepared', 'wounded', 'committed')]

    def mapped(p):
        """each shard's view of a ticket is recorded under that shard"""
        seen = set()
        for s in walk(p.items, p.st):
            ev = s.ev
            if ev.kind == 'set' and ev.obj[0] == 'fld' and ev.obj[2] == 'm_state' and ev.obj[1][0] == 'at' and ev.obj[1][1][0] == 'fld' and ev.obj[1][1][2] == 'm_shard_states':
                k = ev.obj[1][2]
                if not (k[0] == 'key' and unver(k[1]) == RT):
                    return ('recorded under another shard', ev)
                want = [b for a, b in pairs if any(s.ctx.st.known(Eq(x, a)) is True for x in values_of(s.ctx.st, a))]
                if not want or ev.args[0] not in want:
                    return ('a ticket %s is recorded as %s' % ([pp(a) for a, b in pairs if b in want] or 'of unknown state', pp(ev.args[0])), ev)
                seen.add(ev.args[0])
        if len(seen) < 4 and any(i.kind == 'loop' for i in p.items):
            lps = [i for i in p.items if i.kind == 'loop' and unver(i.dom[1]) == RT]
            if lps:
                return ('only %s are recovered' % ', '.join(sorted(pp(x) for x in seen)), lps[0])
        return None
    c.cases(u, 'recovered tickets', [
        ('error', Not(isok), [once(cb, ec(c, 'get_tickets_error')), Never(touches(TK)), Never(touches(RT)), Never(call('do_recovery'))]),
        ('shard reported', isok, [stores, Never(call(REQS)), mapped]),
    ])
    c.guard(u, 'recovery starts when every shard has reported', call('do_recovery') | invoke(cb),
            lambda s: True if s.ev.kind == 'invoke' and mentions_t(s.ev.args[0], PR(lambda q: q[0] == 'enum')) else Or(full, sizes_equal(s)))
    u = c.fn(IM + '::do_recovery', opaque=['finish', 'commit', 'rollback'] + HANDLERS)
    recovery_loop(c, u)
    for f, reply in (('handle_recovery_commit', 'commit_error'), ('handle_recovery_rollback', 'rollback_error')):
        u = c.fn(IM + '::' + f, opaque=['finish'] + HANDLERS)
        cb, tn, res = A(0), A(1), A(2)

        def fin(p):
            e = [x for x in top(p.items) if call(IM + '::finish')(x)]
            if len(e) != 1 or e[0].args[0] != tn:
                return 'the ticket is not finished'
            return None
        c.cases(u, 'recovery', [
            ('error', Has(res), [once(cb, ec(c, reply)), Never(call(IM + '::finish'))]),
            ('continues', Not(Has(res)), [fin, lambda p: None if not enc(p, invoke(cb)) or ec(c, 'shard_unreachable')[1](enc(p, invoke(cb))[0].ev.args[0]) else 'reports success early']),
        ])
        c.relay(u, 'recovery finish', call(IM + '::finish'), 'handle_recovery_finish', lambda s, r: (A(0), r))
    u = c.fn(IM + '::handle_recovery_finish', opaque=HANDLERS)
    cb, res = A(0), A(1)
    c.cases(u, 'recovery finished', [
        ('error', Has(res), [once(cb, ec(c, 'finish_error'))]),
        ('all done', And(Not(Has(res)), Empty(TK)), [once(cb, NONE)]),
        ('more to do', And(Not(Has(res)), Not(Empty(TK))), [quiet(cb)]),
    ])


def neg3(v):
    return None if v is None else not v


def sizes_equal(s):
    for b in s.ctx.st.bounds:
        pass
    return Eq(Size(('ver', F('m_recovery_tickets'), 1)), Size(SHARDS))


def values_of(st, a):
    for k in st.bounds:
        for t in (u for x in k for u in subterms(x[0])):
            if t[0] in ('at', 'elem', 'fld', 'key'):
                yield t


def idx_of(s):
    o = s.ev.obj
    if o[0] == 'at':
        return o[2]
    return ('ix', o[1], o[2]) if o[0] == 'elem' else ANY


def asks_all(c, verb, t, have, doing, cb, tn):
    req = call(SH + verb)

    def f(p):
        unreach = enc(p, invoke(cb))
        if unreach and not ec(c, 'shard_unreachable')[1](unreach[0].ev.args[0]):
            return ('the caller is answered before the shards are', unreach[0].ev)
        okl = False
        for it in p.items:
            if it.kind != 'loop' or not same(t.ss, it.dom):
                continue
            x = X(it.dom, it.L)
            okl = okl or it.mode == 'all'
            for e in it.edges:
                h = holds(Ne(F('m_state', x.v), have), Ctx(e.st, e.items))
                rq = [i for i in e.items if i.kind != 'loop' and req(i)]
                if h is False:
                    if rq:
                        return ('a shard that is done is asked again', rq[0])
                    continue
                if len(rq) != 1 or rq[0].obj != at(SHARDS, x.k) or rq[0].args[0] != tn:
                    return ('a shard is not asked to %s the ticket' % verb, rq[0] if rq else it)
                if rq[0].st.load(F('m_state', x.v)) != doing:
                    return ('the shard is asked before it is marked as %s' % pp(doing), rq[0])
        if not okl and not unreach:
            return 'not every shard is asked'
        for s in enc(p, req):
            if p.st.known(result(s.ev)) is False and not s.loops and not unreach:
                return ('an unreachable shard is ignored', s.ev)
        return None
    return f


def recovery_loop(c, u):
    CMT = shs(c, 'committed')
    fin, com, rol = (call(IM + '::' + n) for n in ('finish', 'commit', 'rollback'))
    found = set()
    for p in u.rets:
        for s in walk(p.items, p.st):
            for m, st, nm in ((fin, 'committed', 'finish'), (com, 'prepared', 'commit'), (rol, 'begun', 'rollback')):
                if not m(s.ev):
                    continue
                found.add(nm)
                w = c.where(u, p, ('', s.ev))
                tn = s.ev.args[0]
                lp = next((it for it, e in reversed(s.loops) if it.dom[0] == 'each'), None)
                tick = None
                for q in s.prefix:
                    if q.kind == 'set' and q.obj[0] == 'fld' and q.obj[2] == 'm_state':
                        tick = q
                c.ob('recovered ticket resumes in the right state', tick is not None and tick.args[0] == ts(c, st), w, '%s is resumed without marking the ticket %s' % (nm, st), p)
                ssl = [it for it in s.prefix if it.kind == 'loop' and it.dom[0] == 'each' and unver(it.dom[1])[0] == 'fld' and unver(it.dom[1])[2] == 'm_shard_states']
                c.ob('recovery looks at every shard of the ticket', bool(ssl) and ssl[-1].mode == 'all' and (tick is None or unver(ssl[-1].dom[1]) == F('m_shard_states', tick.obj[1])), w, 'the decision does not depend on all shards of the ticket', p)
                if ssl:
                    counted = count_of(c, ssl[-1], CMT)
                    c.ob('recovery counts the committed shards', counted is not None, w, 'committed shards are not counted', p)
                    if counted is not None:
                        n = counted
                        sz = [Size(unver(ssl[-1].dom[1])), Size(ssl[-1].dom[1])]
                        alls = any(s.ctx.st.known(Eq(k, z)) is True for k in n for z in sz)
                        notall = any(s.ctx.st.known(Eq(k, z)) is False for k in n for z in sz)
                        zero = any(s.ctx.st.known(Gt(k, I_(0))) is False for k in n)
                        some = any(s.ctx.st.known(Gt(k, I_(0))) is True for k in n)
                        okc = {'finish': alls, 'commit': some and notall, 'rollback': zero and notall}[nm]
                        c.ob('recovery decision', okc, w, '%s does not follow from the number of committed shards' % nm, p)
    for nm in ('finish', 'commit', 'rollback'):
        c.ob('recovery can ' + nm, nm in found, c.where(u), 'no ticket is resumed with ' + nm)
    c.relay(u, 'recovery finish', fin, 'handle_recovery_finish', lambda s, r: (A(0), r))
    c.relay(u, 'recovery commit', com, 'handle_recovery_commit', lambda s, r: (A(0), s.ev.args[0], r))
    c.relay(u, 'recovery rollback', rol, 'handle_recovery_rollback', lambda s, r: (A(0), s.ev.args[0], r))


def count_of(c, lp, good):
    t = count_var(lp, lambda x: Eq(F('m_state', x.v), good))
    return None if t is None else [t]
