"""PArSEC agent: life cycle of one transaction, its runner and its RPC."""
from lib import *
from r_repl import alt

NS = 'cbdc::parsec::agent::'
IM = NS + 'impl'
BI = 'broker::interface::'
MUT, ST, RES, TICK, RO = F('m_mut'), F('m_state'), F('m_result'), F('m_ticket_number'), F('m_is_readonly_run')
WND, RST, PERM, REQ = F('m_wounded'), F('m_restarted'), F('m_permanent_error'), F('m_requested_locks')
STEPS = ['do_start', 'do_commit', 'do_rollback', 'do_finish', 'do_result', 'do_runner', 'do_try_lock_request',
         'handle_begin', 'handle_function', 'handle_commit', 'handle_run', 'handle_rollback', 'handle_finish', 'handle_try_lock_response']
BREQ = [BI + x for x in ('begin', 'try_lock', 'commit', 'rollback', 'finish')]
STATES = ['init', 'begin_sent', 'begin_failed', 'function_get_sent', 'function_get_failed', 'function_get_error', 'function_started',
          'function_failed', 'function_exception', 'commit_sent', 'commit_failed', 'commit_error', 'finish_sent', 'finish_failed',
          'finish_complete', 'rollback_sent', 'rollback_failed', 'rollback_complete']
AERR = NS + 'interface::error_code'
RLS = 'cbdc::parsec::runtime_locking_shard::'
BERR = 'cbdc::parsec::broker::interface::error_code'
FILES = ['parsec/agent/impl.cpp', 'parsec/agent/client.cpp', 'parsec/agent/server_interface.cpp', 'parsec/agent/runners/lua/server.cpp',
         'parsec/agent/runners/evm/http_server.cpp', 'parsec/agent/interface.cpp']


class AG:
    def __init__(self, c):
        self.c = c

    def s(self, n):
        return self.c.enum(IM + '::state::' + n)

    def is_(self, *ns):
        r = [Eq(ST, self.s(n)) for n in ns]
        return r[0] if len(r) == 1 else Or(*r)

    def to(self, n):
        e = self.s(n)
        return Final(ST, PR(lambda v: v == e or (v[0] == 'i' and v[-1] == e[-1])))

    def valid(self):
        return self.is_(*STATES)

    def err(self, n):
        e = self.c.enum(AERR + '::' + n)
        return Final(RES, PR(lambda v: any(t == e for t in subterms(v))))

    def unit(self, n, **kw):
        return self.c.fn(IM + '::' + n, opaque=[h for h in STEPS if h != n] , **kw)


def only(name, *args):
    """the one step taken"""
    m = call(name)

    def f(p):
        for it in enc(p, call(STEPS)):
            if not m(it.ev):
                return ('goes on with %s' % short(it.ev.q), it.ev)
        e = enc(p, m)
        if len(e) != 1 or e[0].loops:
            return 'does not go on with %s exactly once' % name
        for a, w in zip(e[0].ev.args, args):
            if not match(w, a, {}):
                return ('goes on with %s(%s)' % (name, pp(a)), e[0].ev)
        b = enc(p, call(BREQ))
        if b:
            return ('asks the broker as well', b[0].ev)
        return None
    return f


REST = [Never(call(STEPS)), Never(call(BREQ)), Never(invoke())]
IDLE = REST + [Never(sets(ANY))]


def ask(name, *args):
    """the one broker request, with these arguments, in the final state set first"""
    m = call(BI + name)

    def f(p):
        b = enc(p, call(BREQ))
        if len(b) != 1 or not m(b[0].ev) or b[0].loops:
            return 'does not send exactly one %s request to the broker' % name
        if b[0].ev.obj != F('m_broker'):
            return ('asks another broker', b[0].ev)
        for a, w in zip(b[0].ev.args, args):
            if not match(w, a, {}):
                return ('asks for %s(%s)' % (name, pp(a)[:120]), b[0].ev)
        return None
    return f


def during(n, m, g):
    """the state when the request goes out"""
    def f(p):
        for s in enc(p, m):
            if s.ev.st.load(ST) != g.s(n):
                return ('asks in another state than %s' % n, s.ev)
        return None
    return f


def sent(b):
    return ('call', PR(lambda q: qmatch(BI + b, q)), ANY, ANY)


def request(c, g, u, rule, name, state, failed, args, direct=None, assume=None, handler=None, extra=()):
    """a request with its own state, its failure, and where the response goes"""
    m = call(BI + name)

    def ok_paths(p):
        e = enc(p, m)
        return holds(result(e[0].ev), Ctx(p.st, p.items)) if len(e) == 1 else None
    n = {True: 0, False: 0}
    for p in u.rets:
        if assume is not None and holds(assume, Ctx(p.st, p.items)) is False:
            continue
        r = ok_paths(p)
        c.expect(u, rule, [ask(name, *args), during(state, m, g)] + list(extra), p)
        if r is None:
            c.ob(rule, False, c.where(u, p), 'the broker not accepting the request goes unnoticed', p)
            continue
        n[r] += 1
        if r:
            c.expect(u, rule + ' [sent]', [Never(invoke()), Never(call(STEPS)), g.to(state)], p)
        elif direct:
            c.expect(u, rule + ' [not sent]', [g.to(failed)] + direct, p)
        else:
            c.expect(u, rule + ' [not sent]', [g.to(failed), g.err('broker_unreachable'), Does(call('do_result')), Never(call([x for x in STEPS if x != 'do_result'])), Never(invoke())], p)
    c.ob(rule, n[True] > 0 and n[False] > 0, c.where(u), 'sending the request does not have both outcomes')
    if handler:
        c.relay(u, rule + ' [response]', m, handler, lambda s, a: [a])


@prop('P11', files=FILES)
def p11(c):
    """the agent's transaction life cycle"""
    g = AG(c)
    V_ = g.valid()
    # -- exec: which step each state goes on with
    u = g.unit('exec')
    begin_ok = sent('begin')
    c.cases(u, 'execute', [
        ('rolled back', g.is_('rollback_complete'), [only('do_start'), Final(RES, ('none',)), Final(WND, FALSE), Final(RST, TRUE), Never(sets(ST))]),
        ('commit again', g.is_('commit_failed', 'commit_sent'), [only('do_commit'), Never(sets(ANY))]),
        ('roll back again', g.is_('rollback_failed', 'rollback_sent'), [only('do_rollback', PERM), Never(sets(ANY))]),
        ('roll back first', g.is_('function_get_sent', 'function_get_failed', 'function_failed', 'function_started'), [only('do_rollback', FALSE), Never(sets(ANY))]),
        ('finish again', g.is_('finish_sent', 'finish_failed'), [only('do_finish'), Never(sets(ANY))]),
        ('ended', g.is_('function_get_error', 'commit_error', 'function_exception', 'finish_complete'), IDLE),
        ('start', g.is_('init', 'begin_sent', 'begin_failed'), [ask('begin'), during('begin_sent', call(BI + 'begin'), g)]),
    ], assume=V_)
    c.every(u, 'execute', Ret(TRUE))
    request(c, g, u, 'ask for a ticket', 'begin', 'begin_sent', 'begin_failed', [], assume=g.is_('init', 'begin_sent', 'begin_failed'), handler='handle_begin')
    # -- the result is reported, or resolved first
    u = g.unit('do_result')
    CBK = F('m_result_callback')
    retry = And(Is(('val', RES), AERR), Eq(RES, c.enum(AERR + '::retry')))

    def report(p):
        s = enc(p, invoke())
        if len(s) != 1 or not match(CBK, s[0].ev.obj, {}):
            return 'the result is reported %d times' % len(s)
        if RES not in list(subterms(s[0].ev.args[0])):
            return ('reports %s' % pp(s[0].ev.args[0]), s[0].ev)
        return None
    c.cases(u, 'result', [
        ('transient', g.is_('function_get_failed', 'function_failed', 'commit_failed'), [only('do_rollback', FALSE), Never(invoke()), Never(sets(ANY))]),
        ('permanent', g.is_('function_get_error', 'commit_error', 'function_exception'), [only('do_rollback', TRUE), Never(invoke()), Never(sets(ANY))]),
        ('reported', g.is_('begin_failed', 'finish_failed', 'rollback_failed', 'finish_complete', 'rollback_complete'), [report, Never(call(STEPS)), Never(call(BREQ)), Never(sets(ANY))]),
    ], assume=And(V_, Has(RES)))
    told = False
    for p in u.rets:
        if holds(g.is_('rollback_complete'), Ctx(p.st, p.items)) is True:
            told = told or not report(p)
            c.ob('after a rollback only a retry is reported', holds(Eq(RES, c.enum(AERR + '::retry')), Ctx(p.st, p.items)) is True or
                 any(holds(Eq(('as', b, AERR), c.enum(AERR + '::retry')), Ctx(p.st, p.items)) is True for b in (RES, ('val', RES))), c.where(u, p), 'another result is reported for a transaction that was only rolled back', p)
    c.ob('the retry of a transaction that was rolled back is reported', told, c.where(u), 'no path that returns reports it')

    # -- responses
    def response(name, state, cs, why):
        u = g.unit(name)
        other = [n for n in STATES if n != state]
        c.cases(u, why, [('late response', g.is_(*other), IDLE)] + [(l, And(g.is_(state), k), e) for l, k, e in cs], assume=V_)
        return u
    r0 = A(0)
    NUM, EC = 'ticket_number_type', BERR
    t_num = [f for f in c.find(IM + '::handle_begin')]
    response('handle_begin', 'begin_sent', [
        ('ticket', Not(Is(r0, EC)), [Final(TICK, PR(lambda v: mentions_t(v, PR(lambda q: q == r0)))), only('do_start'), Never(sets(ST))]),
        ('no ticket', Is(r0, EC), [g.to('begin_failed'), g.err('ticket_number_assignment'), only('do_result'), Never(sets(TICK))]),
    ], 'ticket response')
    SE = RLS + 'shard_error'
    wounded = c.enum(RLS + 'error_code::wounded')
    isw = Eq(F('m_error_code', ('as', r0, SE)), wounded)
    val = 'cbdc::buffer'
    again = Not(Empty(REQ))
    refuse = ('call', PR(lambda q: qmatch('do_try_lock_request', q)), ANY, ANY)
    u = response('handle_function', 'function_get_sent', [
        ('code', And(Is(r0, val), Empty(REQ)), [g.to('function_started'), only('do_runner', ('as', r0, val))]),
        ('code, locks to take again', And(Is(r0, val), again), [relock(c, g)]),
        ('broker error', Is(r0, BERR), [g.to('function_get_failed'), g.err('function_retrieval'), only('do_result')]),
        ('wounded', And(Is(r0, SE), isw), [g.to('function_get_failed'), g.err('function_retrieval'), only('do_result')]),
        ('shard error', And(Is(r0, SE), Not(isw)), [g.to('function_get_error'), g.err('function_retrieval'), only('do_result')]),
    ], 'function response')
    for s, k in c.closures(u, call('do_try_lock_request')):
        me = ('this', k.depth)
        for p in k.rets:
            e = enc(p, call('do_runner'))
            w = c.where(k, p)
            c.ob('the function starts when the last lock is back', len(e) <= 1, w, 'starts the function %d times' % len(e), p)
            lst = last_one(p)
            c.ob('the function starts when the last lock is back', lst is not None and lst == bool(e), w,
                 'the function is started although locks are missing, or not started when the last lock is back', p)
            for x in e:
                c.ob('the function starts with its code', x.ev.args[0] == ('as', r0, val), w, 'starts other code than was retrieved', p)
    c.locked(u, 'responses are handled one at a time', call('do_try_lock_request'), MUT)
    response('handle_run', 'function_started', [
        ('updates', Not(Is(r0, NS + 'runner::interface::error_code')), [Final(RES, PR(lambda v: mentions_t(v, PR(lambda q: q == r0)))), only('do_commit'), Never(sets(ST))]),
        ('wounded', And(Is(r0, NS + 'runner::interface::error_code'), Eq(('as', r0, NS + 'runner::interface::error_code'), c.enum(NS + 'runner::interface::error_code::wounded'))),
         [g.to('function_failed'), g.err('function_execution'), only('do_result')]),
        ('failed', And(Is(r0, NS + 'runner::interface::error_code'), Ne(('as', r0, NS + 'runner::interface::error_code'), c.enum(NS + 'runner::interface::error_code::wounded'))),
         [g.to('function_exception'), g.err('function_execution'), only('do_result')]),
    ], 'function result')
    v = ('val', r0)
    hz = c.enum(BERR + '::commit_hazard')
    wc = Eq(F('m_error_code', ('as', r0, SE)), wounded)
    fail = [g.to('commit_failed'), g.err('commit_error'), only('do_result')]
    stop = [g.to('commit_error'), g.err('commit_error'), only('do_result')]
    response('handle_commit', 'commit_sent', [
        ('committed', Not(Has(r0)), [only('do_finish'), Never(sets(RES))]),
        ('refused', And(Has(r0), Is(r0, BERR), Eq(('as', r0, BERR), hz)), stop),
        ('broker error', And(Has(r0), Is(r0, BERR), Ne(('as', r0, BERR), hz)), fail),
        ('wounded', And(Has(r0), Is(r0, SE), wc), fail),
        ('shard error', And(Has(r0), Is(r0, SE), Not(wc)), stop),
        ('shard error code', And(Has(r0), Is(r0, RLS + 'error_code')), stop),
    ], 'commit response')
    response('handle_rollback', 'rollback_sent', [
        ('failed', Has(r0), [g.to('rollback_failed'), only('do_result')]),
        ('rolled back for good', And(Not(Has(r0)), PERM), [g.to('rollback_complete'), only('do_finish'), Never(sets(RES))]),
        ('rolled back', And(Not(Has(r0)), Not(PERM)), [g.to('rollback_complete'), g.err('retry'), only('do_result')]),
    ], 'rollback response')

    def told(n):
        e = c.enum(AERR + '::' + n)

        def f(p):
            s = enc(p, invoke())
            if len(s) != 1 or not match(CBK, s[0].ev.obj, {}) or not any(t == e for t in subterms(s[0].ev.args[0])):
                return 'the failure is not reported'
            return None
        return f
    keep = Never(sets(RES))
    response('handle_finish', 'finish_sent', [
        ('failed', Has(r0), [g.to('finish_failed'), keep, told('finish_error'), Never(call(STEPS)), Never(call(BREQ))]),
        ('done', Not(Has(r0)), [g.to('finish_complete'), keep, only('do_result')]),
    ], 'finish response')
    # -- requests
    request(c, g, g.unit('do_finish'), 'finish', 'finish', 'finish_sent', 'finish_failed', [PR(is_tick)], handler='handle_finish', direct=[keep, told('broker_unreachable'), Never(call(STEPS))])
    u = g.unit('do_rollback')
    request(c, g, u, 'roll back', 'rollback', 'rollback_sent', 'rollback_failed', [PR(is_tick)], handler='handle_rollback',
            extra=[Final(PERM, A(0)), Before(sets(PERM), call(BI + 'rollback'))])
    u = g.unit('do_commit')
    request(c, g, u, 'commit', 'commit', 'commit_sent', 'commit_failed', [PR(is_tick), ANY], handler='handle_commit')

    def payload(ro):
        def f(p):
            v = enc(p, call(BI + 'commit'))[0].ev.args[1]
            if ro:
                return None if empty_list(v) or v[0] in ('new', 'obj', 'list') and not mentions_t(v, PR(lambda q: q == RES)) else ('a read-only run commits updates', enc(p, call(BI + 'commit'))[0].ev)
            ok = any(t[0] == 'as' and (t[1] == RES or t[1] == ('val', RES)) for t in [v])
            return None if ok else ('commits %s' % pp(v), enc(p, call(BI + 'commit'))[0].ev)
        return f
    c.cases(u, 'commit', [('read-only', RO, [payload(True)]), ('updates', Not(RO), [payload(False)])])
    # -- start
    u = g.unit('do_start')
    fnk = F('m_function')

    sz = ('call', 'cbdc::buffer::size', (fnk,), 0)
    built_in, none = Eq(sz, I_(1)), And(RO, Eq(sz, I_(0)))

    def inner(v):
        v = alt(v)
        return v[2] if v[0] == 'var' else v
    c.cases(u, 'start', [
        ('built-in function', built_in, [only('handle_function', PR(lambda v: inner(v) == fnk)), g.to('function_get_sent')]),
        ('read-only without function', none, [only('handle_function', PR(lambda v: not mentions_t(v, fnk) and inner(v)[0] == 'new')), g.to('function_get_sent')]),
        ('function key', And(Not(built_in), Not(none)), [ask('try_lock', PR(is_tick), fnk, F('m_initial_lock_type')), Never(call([x for x in STEPS if x != 'do_result']))]),
    ])
    request(c, g, u, 'retrieve the function', 'try_lock', 'function_get_sent', 'function_get_failed', [], assume=made(BI + 'try_lock'), handler='handle_function')
    # -- locks for the function
    u = g.unit('do_try_lock_request')
    key, ty, cb = A(0), A(1), A(2)
    W = c.enum(RLS + 'lock_type::write')
    R = c.enum(RLS + 'lock_type::read')
    run = g.is_('function_started')
    okro = Not(And(RO, Eq(ty, W)))
    other = [n for n in STATES if n != 'function_started']

    def remembered(p):
        """the strongest mode asked for is what will be taken again"""
        ctx = Ctx(p.st, p.items)
        had = at(REQ, key)
        was = holds(And(InV(REQ, key), Ne(had, R)), ctx)
        v = p.st.load(had)
        if was is not False and v not in (had, W) and holds(Eq(ty, W), ctx) is not True:
            return 'may forget a write lock asked for earlier'
        if was is not True and v != ty:
            return 'does not remember the lock asked for'
        return None

    def lock_asked(p):
        e = enc(p, call(BI + 'try_lock'))
        if len(e) != 1:
            return 'does not send the lock request'
        a = e[0].ev.args
        if not is_tick(a[0]) or a[1] != key:
            return ('asks for another lock', e[0].ev)
        if truth(p, RO) is True:
            if a[2] != R and holds(Eq(a[2], R), Ctx(p.st, p.items)) is not True:
                return ('a read-only run takes a %s lock' % pp(a[2]), e[0].ev)
        elif a[2] != ty:
            return ('asks for the lock in another mode', e[0].ev)
        if truth(p, p.ret) != holds(result(e[0].ev), Ctx(p.st, p.items)) and p.ret != result(e[0].ev):
            return 'does not say whether the request was sent'
        return None

    def refused(p):
        e = enc(p, call('handle_try_lock_response'))
        if len(e) != 1 or e[0].ev.args[0] != cb or not any(t == wounded for t in subterms(e[0].ev.args[1])):
            return 'a wounded transaction is not told so'
        return None
    c.cases(u, 'lock request', [
        ('not running', g.is_(*other), IDLE + [Ret(FALSE)]),
        ('write in a read-only run', And(run, RO, Eq(ty, W)), IDLE + [Ret(FALSE)]),
        ('wounded', And(run, okro, WND), [refused, Never(call(BREQ)), Never(sets(ANY)), Never(mut(REQ)), Ret(TRUE)]),
        ('sent', And(run, okro, Not(WND)), [lock_asked, remembered, Never(sets(ST)), Never(call(STEPS))]),
    ], assume=And(V_, Or(Eq(ty, W), Eq(ty, R)), Or(Not(InV(REQ, key)), Eq(at(REQ, key), W), Eq(at(REQ, key), R))))
    for s, k in c.closures(u, call(BI + 'try_lock')):
        for p in k.rets:
            e = enc(p, call('handle_try_lock_response'))
            c.ob('lock response', len(e) == 1 and e[0].ev.args[0] == cb and e[0].ev.args[1] == A(0, k.depth), c.where(k, p), 'the response does not reach the function', p)
    u = g.unit('handle_try_lock_response')
    r1 = A(1)
    isw1 = And(Is(r1, SE), Eq(F('m_error_code', ('as', r1, SE)), wounded))

    def passed(p):
        s = enc(p, invoke())
        if len(s) != 1 or s[0].ev.obj != A(0) or s[0].ev.args[0] != r1:
            return 'the function does not get the response'
        return None
    c.cases(u, 'lock response', [
        ('not running', g.is_(*other), IDLE),
        ('wounded', And(run, isw1), [passed, Final(WND, TRUE), Never(sets(ST)), Never(call(STEPS))]),
        ('other', And(run, Not(isw1)), [passed, Never(sets(ANY)), Never(call(STEPS))]),
    ], assume=V_)
    # -- the function's run
    u = g.unit('do_runner', eventful=['run'])
    ran = call('runner::interface::run')

    def started(p):
        e = enc(p, ran)
        f = [i for i in enc(p, invoke(F('m_runner_factory')))]
        if len(e) != 1 or len(f) != 1:
            return 'the function is not run exactly once'
        a = f[0].ev.args
        if a[2] != A(0) or not a[3] == F('m_param') or a[4] != RO:
            return ('runs with other code, parameter or mode', f[0].ev)
        if not is_tick(a[9]):
            return ('runs under another ticket', f[0].ev)
        ok = holds(result(e[0].ev), Ctx(p.st, p.items))
        if ok is None:
            return 'a failure to start goes unnoticed'
        d = enc(p, call('do_result'))
        if ok:
            return 'reports a failure although the function started' if d or enc(p, sets(ST)) else None
        if len(d) != 1 or d[0].ev.st.load(ST) != g.s('function_failed'):
            return 'a failure to start is not resolved'
        return g.err('function_execution')(p)
    c.every(u, 'run', started)
    fm = invoke(F('m_runner_factory'))
    runner_callbacks(c, u, fm)
    # -- construction, destruction
    for f in c.find(IM + '::impl'):
        k = c.unit(f)
        ini = A(7)
        ro = A(8)
        c.cases(k, 'constructed', [
            ('read-only', ro, [Final(F('m_initial_lock_type'), PR(lambda v: v == R)), Final(RO, ro)]),
            ('writing', Not(ro), [Final(F('m_initial_lock_type'), ini), Final(RO, ro)]),
        ])
    c.discipline(IM, ['m_mut'], ['m_state', 'm_result', 'm_ticket_number', 'm_wounded', 'm_requested_locks', 'm_permanent_error', 'm_restarted'])


def is_tick(a):
    return a == TICK or a == ('val', TICK)


def made(q):
    """holds on paths that make the call"""
    m = call(q)
    return lambda ctx: any(m(e) for e in allev(ctx.items))


def relock(c, g):
    """every lock asked for before the restart is asked for again; a failure is
    resolved as a failure to get the function"""
    ask_ = call('do_try_lock_request')

    def f(p):
        if truth_state(p, 'function_started', g, ask_):
            return truth_state(p, 'function_started', g, ask_)
        if enc(p, call('do_runner')):
            return 'starts the function before its locks are back'
        if p.st.load(REQ) == REQ:
            return 'keeps the locks of the earlier run as if they were new'
        d = enc(p, call('do_result'))
        if not d:
            return Each(REQ, retaken)(p)
        r = g.to('function_get_failed')(p) or g.err('function_retrieval')(p)
        if r:
            return r
        fails = [s for s in enc(p, ask_) if holds(result(s.ev), Ctx(p.st, p.items)) is False]
        return None if fails else 'gives up although every lock request was sent'
    return f


def retaken(x):
    def f(ev):
        k, v = ev.args[0], ev.args[1]
        return ask(ev) and k[0] == 'key' and k[2] == x.L and v[0] == 'at' and v[2] == k
    ask = call('do_try_lock_request')
    return M(f, 'do_try_lock_request for the key and mode')


def truth_state(p, n, g, m):
    for s in enc(p, m):
        if s.ev.st is not None and s.ev.st.load(ST) != g.s(n):
            return ('asks for locks in another state', s.ev)
    return None


def last_one(p):
    """is the counted response the last one? (None: not decided)"""
    for i in allev(p.items):
        if i.kind == 'set':
            r = p.st.known(compare('==', i.args[0], ('size', REQ)))
            if r is not None:
                return r
    return None


def runner_callbacks(c, u, fm):
    n = 0
    for s, k in c.closures(u, fm):
        for p in k.rets:
            run, tl = enc(p, call('handle_run')), enc(p, call('do_try_lock_request'))
            w = c.where(k, p)
            n += 1
            a = [A(i, k.depth) for i in range(3)]
            if run:
                c.ob('function result', len(run) == 1 and not tl and run[0].ev.args[0] == a[0], w, 'the result of the function is not passed on', p)
            else:
                c.ob('function locks', len(tl) == 1 and list(tl[0].ev.args[:3]) == a and (truth(p, p.ret) == holds(result(tl[0].ev), Ctx(p.st, p.items))), w, 'lock requests of the function are not passed on', p)
    c.ob('function callbacks', n > 1, c.where(u), 'the function cannot report back')


SI = NS + 'rpc::server_interface'


@prop('P12', files=FILES)
def p12(c):
    """agent servers: one answer per request, retries reach the same agent"""
    RETRY = c.enum(AERR + '::retry')
    new = M(lambda ev: ev.kind == 'call' and ev.q == 'new ' + IM, 'a new agent')
    UNF = ['broker_unreachable', 'ticket_number_assignment', 'finish_error', 'rollback_error']
    for q, fn, par, ro in (('server::request_handler', F('m_function', A(0)), F('m_param', A(0)), F('m_is_readonly_run', A(0))),
                           ('http_server::exec_tx', None, A(2), A(3))):
        u = c.fn(NS + 'rpc::' + q)
        lua = fn is not None

        def made(p):
            e = enc(p, new)
            if len(e) != 1:
                return 'the request does not get an agent of its own'
            a = e[0].ev.args
            ok = a[3] == F('m_broker') and a[5] == par and a[8] == ro and (not lua or a[4] == fn)
            return None if ok else ('the agent runs something else than was asked for', e[0].ev)

        def registered(p):
            a = enc(p, mut(F('m_agents'), ('emplace', 'insert', 'assign', 'ensure')))
            x = enc(p, call('agent::impl::exec'))
            if len(a) != 1 or len(x) != 1:
                return 'the agent is not registered and started once'
            if a[0].ev.args[1] != x[0].ev.obj or p.items.index(a[0].ev) > p.items.index(x[0].ev):
                return ('the agent that is started is not the one registered before', x[0].ev)
            return None
        c.every(u, 'new agent', made, registered, Returns(call('agent::impl::exec')))
        c.locked(u, 'agents registered under the lock', mut(F('m_agents')), F('m_agents_mut'))
        ids = {s.ev.args[0] for p in u.paths for s in enc(p, mut(F('m_agents'), ('emplace', 'insert', 'assign', 'ensure')))}
        res = None
        for s, k in c.closures(u, new):
            r0 = A(0, k.depth)
            me = ('this', k.depth)
            rq, cq = F('m_retry_queue', me), F('m_cleanup_queue', me)
            for p in k.rets:
                again, ans, bye = enc(p, call('push', rq)), enc(p, invoke()), enc(p, call('push', cq))
                ctx = Ctx(p.st, p.items)
                w = c.where(k, p)
                isretry = holds(Eq(('as', r0, AERR), RETRY), ctx)
                c.ob('a transient failure is retried', isretry is not None or holds(Is(r0, AERR), ctx) is not True, w, 'transient failures are not told apart', p)
                if isretry is True:
                    c.ob('a transient failure is retried', len(again) == 1 and not ans and not bye and again[0].ev.args[0] in ids, w, 'a transient failure is not retried, or answered before the end', p)
                    continue
                c.ob('one answer', len(ans) == 1 and not again, w, 'the request gets %d answers' % len(ans), p)
                for x in ans:
                    if lua:
                        c.ob('the answer is the result', x.ev.obj == A(1) and mentions_t(x.ev.args[0], PR(lambda t: t == r0)), w, 'another answer than the result is given', p)
                    else:
                        good = holds(Is(r0, AERR), ctx)
                        c.ob('the answer is the result', (x.ev.obj == A(0)) if good is True else (x.ev.obj == A(4) and x.ev.args[0] == r0), w, 'the request is answered through the wrong callback', p)
                for x in bye:
                    i = p.items.index(x.ev)
                    c.ob('the agent is kept until the answer', x.ev.args[0] in ids and any(p.items.index(y.ev) < i for y in ans), w, 'discards another agent, or before the answer', p)
                if holds(Is(r0, AERR), ctx) is not True:
                    c.ob('a finished agent is discarded', len(bye) == 1, w, 'a finished agent is kept forever', p)
                elif bye:
                    for n in UNF:
                        c.ob('an agent is kept until its transaction is resolved', holds(Eq(('as', r0, AERR), c.enum(AERR + '::' + n)), ctx) is False, w,
                             'discards an agent whose transaction is not finished', p)
        c.atomically(NS + 'rpc::' + q.split('::')[0], q.split('::')[1], 'm_next_id') if False else None
    # threads
    u = c.fn(SI + '::server_interface')
    seen = set()
    for s, k in c.closures(u, M(lambda e: e.kind == 'thread', 'thread')):
        me = ('this', k.depth)
        ag, mu = F('m_agents', me), F('m_agents_mut', me)
        for p in k.rets:
            for lp in [i for i in p.items if i.kind == 'loop']:
                for e in lp.edges:
                    pops = [i for i in e.items if i.kind == 'call' and i.q.endswith('::pop')]
                    w = c.where(k, p)
                    if len(pops) != 1:
                        c.ob('queue threads', False, w, 'an identifier is dropped', p)
                        continue
                    which = unver(pops[0].obj)
                    idp = PR(lambda t: t[0] == 'out')
                    x = [i for i in e.items if call('agent::impl::exec')(i)]
                    er = [i for i in e.items if i.kind == 'mut' and i.q == 'erase' and unver(i.obj) == ag]
                    if which == F('m_retry_queue', me):
                        seen.add('retry')
                        c.ob('retry thread', len(x) == 1 and unver(x[0].obj[1] if x[0].obj[0] == 'at' else ('?',)) == ag and match(idp, x[0].obj[2], {}), w, 'the agent to retry is not executed again', p)
                        c.ob('retry thread', not er, w, 'discards an agent that has to be retried', p)
                    elif which == F('m_cleanup_queue', me):
                        seen.add('cleanup')
                        c.ob('cleanup thread', len(er) == 1 and match(idp, er[0].args[0], {}) and not x, w, 'the finished agent is not discarded', p)
        c.locked(k, 'agents looked up under the lock', M(lambda e: e.kind == 'mut' and unver(e.obj) == ag, 'change of the agents'), mu, need=False)
        c.unlocked(k, 'agents run without the lock', call('agent::impl::exec'), mu, need=False)
    c.ob('queue threads', seen == {'retry', 'cleanup'}, c.where(u), 'a queue is not served')
    # client
    u = c.fn(NS + 'rpc::client::exec')
    rc = call('rpc::client::call')

    def req(p):
        e = enc(p, rc)
        if len(e) != 1:
            return 'the request is not sent once'
        v = e[0].ev.args[0]
        d = dict(v[2]) if v[0] == 'obj' else {}
        ok = d.get('m_function') == A(0) and d.get('m_param') == A(1) and d.get('m_is_readonly_run') == A(2)
        return None if ok else ('asks for something else', e[0].ev)
    c.every(u, 'request', req, Returns(rc))
    for s, k in c.closures(u, rc):
        r0 = A(0, k.depth)
        for p in k.rets:
            x = enc(p, invoke(A(3)))
            ok = len(x) == 1
            has = holds(Has(r0), Ctx(p.st, p.items))
            w = c.where(k, p)
            c.ob('answer', ok, w, 'the caller gets %d answers' % len(x), p)
            if ok and has is True:
                c.ob('answer', x[0].ev.args[0] in (r0, ('val', r0)), w, 'the caller gets another result', p)
            elif ok:
                c.ob('answer', has is False and not mentions_t(x[0].ev.args[0], PR(lambda t: t == r0)), w, 'no answer is taken for a result', p)
