"""PArSEC runtime locking shard: replication, recovery, request plumbing."""
from lib import *
from r_rls import NS, IM, TK, ST, MUT, once, err, same_enum, state, code

RS = NS + 'replicated_shard'
RPC = NS + 'rpc::'
D = 'parsec/runtime_locking_shard/'
RTS = NS + 'replicated_shard_interface::ticket_state::'


def ecode(c, n, e='replicated_shard_interface::error_code::'):
    """some(error code) however it is wrapped"""
    cv = I_(c.enum(NS + e + n))
    return PR(lambda v: any(same_enum(t, cv) for t in subterms(v)))


@prop('P07', files=[D + 'replicated_shard.cpp', D + 'impl.cpp', D + 'controller.cpp'])
def p07(c):
    """replicated tickets and values, and what a new leader recovers from them"""
    PREP, COM = c.enum(RTS + 'prepared'), c.enum(RTS + 'committed')
    t = A(0)
    tick = at(TK, t)
    known = InV(TK, t)
    absent = Not(known)
    u = c.fn(RS + '::prepare')

    def record(v):
        d = dict(v[2]) if v[0] == 'obj' else {}
        return d.get('m_broker_id') == A(1) and d.get('m_state_update') == A(2) and same_enum(d.get('m_state', VOID), I_(PREP))
    cb = A(3)

    def recorded(p):
        if any(puts(TK, t, PR(record))(e) for e in top(p.items)):
            return None
        v = {n: p.st.load(F(n, tick)) for n in ('m_broker_id', 'm_state_update', 'm_state')}
        if v['m_broker_id'] == A(1) and v['m_state_update'] == A(2) and same_enum(v['m_state'], I_(PREP)):
            return None
        return 'the prepared ticket is not recorded with its broker and updates'
    c.every(u, 'replicated prepare', lambda p: None if holds(known, Ctx(p.st, p.items)) is True else recorded(p), Never(touches(ST)), once(cb, NONE), Ret(TRUE))
    u = c.fn(RS + '::commit')
    cb = A(1)
    stt = F('m_state', tick)
    su = F('m_state_update', tick)
    done = Eq(stt, I_(COM))
    c.cases(u, 'replicated commit', [
        ('unknown ticket', Not(known), [once(cb, ecode(c, 'unknown_ticket')), Never(touches(TK)), Never(touches(ST)), Ret(TRUE)]),
        ('already committed', And(known, done), [once(cb, NONE), Never(touches(TK)), Never(touches(ST)), Ret(TRUE)]),
        ('committed now', And(known, Not(done)), [
            once(cb, NONE), Final(stt, PR(lambda v: same_enum(v, I_(COM)))),
            Each(su, lambda x: [sets(at(ST, x.k), PR(lambda v: v == x.v)) | puts(ST, x.k, PR(lambda v: v == x.v), kinds=('assign',))]), Never(dels(TK)), Ret(TRUE)]),
    ])
    u = c.fn(RS + '::finish')
    c.every(u, 'replicated finish', lambda p: None if holds(known, Ctx(p.st, p.items)) is False and not must(p.items, touches(TK)) else Does(dels(TK, PR(lambda k: k == t or mentions_t(k, ('find', TK, t)) or mentions_t(k, t))))(p), Never(touches(ST)), once(A(1), NONE), Ret(TRUE))
    u = c.fn(RS + '::get_tickets')
    c.every(u, 'replicated tickets', once(A(0), PR(lambda v: alt(v) == TK)), Ret(TRUE))
    c.every(c.fn(RS + '::get_state'), 'replicated values', Ret(ST))
    for f in ('prepare', 'commit', 'finish', 'get_tickets'):
        c.unlocked(c.fn(RS + '::' + f), 'callbacks run without the mutex', invoke(), MUT)
    c.discipline(RS, ['m_mut'], ['m_state', 'm_tickets'])

    # recovery
    u = c.fn(IM + '::recover')
    state_, ticks = A(0), A(1)
    P_, C_ = state(c, 'prepared'), state(c, 'committed')
    is_p = lambda x: Eq(F('m_state', x.v), I_(PREP))
    is_c = lambda x: Eq(F('m_state', x.v), I_(COM))

    def value(x):
        return [lambda p: None if (any(puts(ST, x.k, PR(lambda v: v[0] == 'obj' and dict(v[2]).get('m_value') == x.v))(e) for e in top(p.items))
                                   or p.st.load(F('m_value', at(ST, x.k))) == x.v) else 'a value is not restored']

    def ticket(x):
        def f(p):
            bad = 'a ticket is not restored'
            for e in top(p.items):
                if puts(TK, x.k)(e) and len(e.args) > 1 and e.args[1][0] == 'obj':
                    d = dict(e.args[1][2])
                    want = P_ if holds(is_p(x), Ctx(p.st, p.items)) is not False else C_
                    if not same_enum(d['m_state'], I_(want)):
                        return ('a ticket is restored in another state', e)
                    if d['m_broker_id'] != F('m_broker_id', x.v):
                        return ('a ticket is restored for another broker', e)
                    if d['m_state_update'] != F('m_state_update', x.v):
                        return ('a ticket is restored with other updates', e)
                    if want == P_ and not (d['m_locks_held'][0] == 'ver'):
                        return ('a prepared ticket is restored without its locks', e)
                    bad = None
            return bad
        return f

    def relock(x):
        su = F('m_state_update', x.v)

        def f(p):
            prep = holds(is_p(x), Ctx(p.st, p.items)) is not False
            r = Each(su, lambda y: [sets(F('m_lock.m_writer', at(ST, y.k)), PR(lambda v: v == ('some', x.k) or v == x.k)),
                                    puts(ANY, y.k, I_(c.enum(NS + 'lock_type::write'))) | puts(PR(lambda q: unver(q) != ST), y.k, PR(lambda v: same_enum(v, I_(c.enum(NS + 'lock_type::write')))))])(p)
            if prep:
                return r and 'a prepared ticket does not hold its write locks again'
            if enc(p, sets(F('m_lock.m_writer', at(ST, ANY)))):
                return 'a committed ticket takes locks'
            return None
        return f
    empty = And(Empty(TK), Empty(ST))
    c.cases(u, 'recovery', [
        ('not empty', Not(empty), [Ret(FALSE), Never(touches(TK)), Never(touches(ST))]),
        ('empty', empty, [Ret(TRUE), Each(state_, value), Each(ticks, lambda x: [ticket(x), relock(x)])]),
    ])

    # a new leader
    CT = NS + 'controller'
    u = c.fn(CT + '::handle_get_tickets')
    rec = call('impl::recover')

    def args(p):
        for s in enc(p, rec):
            a, b = s.ev.args[:2]
            if not is_call(a, 'replicated_shard::get_state'):
                return ('recovers other values than the replicated ones', s.ev)
            if alt(b) != A(0):
                return ('recovers other tickets than the replicated ones', s.ev)
        return None

    def serves(p):
        for s in enc(p, sets(F('m_server'))):
            r = [q for q in enc(p, rec)]
            if not r or holds(result(r[0].ev), s.ctx) is not True:
                return ('requests are served although recovery failed', s.ev)
            if len(enc(p, sets(F('m_shard')))) != 1:
                return ('recovers into a shard with old content', s.ev)
            if any(not any(done(i, sets(F('m_shard'))) for i in q.prefix) for q in r):
                return ('recovers into the old shard', s.ev)
            v = s.ev.args[0]
            if v[0] in ('new', 'heap', 'obj'):
                pass
        return None
    from lib import done
    c.every(u, 'new leader', args, serves)
    ok = [p for p in u.rets if enc(p, sets(F('m_server')))]
    c.ob('new leader serves', bool(ok), c.where(u), 'never starts serving requests')
    u = c.fn(CT + '::raft_callback', opaque=['do_recovery'])
    ty = A(0)
    fol, lead = (c.enum('nuraft::cb_func::' + n) for n in ('BecomeFollower', 'BecomeLeader'))
    c.cases(u, 'leadership', [
        ('lost', Eq(ty, I_(fol)), [Does(sets(F('m_server'))), Never(call('do_recovery'))]),
        ('gained', Eq(ty, I_(lead)), [Does(call('do_recovery'))]),
        ('other', And(Ne(ty, I_(fol)), Ne(ty, I_(lead))), [Never(sets(F('m_server'))), Never(call('do_recovery'))]),
    ])
    u = c.fn(CT + '::do_recovery', opaque=['handle_get_tickets'])
    c.every(u, 'recovery asks for the tickets', Does(call('get_tickets', obj=F('m_raft_client'))))
    c.relay(u, 'recovered tickets are used', call('get_tickets'), 'handle_get_tickets', lambda s, a: [a])


def alt(v):
    while v[0] in ('var', 'some', 'as'):
        v = v[1] if v[0] == 'as' else v[-1]
    return v


def forwards(c, u, rule, target, obj, args):
    """calls target once on obj with these leading arguments and returns its
    result; nothing else is done"""
    m = call(target)

    def f(p):
        e = enc(p, m)
        if len(e) != 1 or e[0].loops:
            return 'calls %s %d times' % (target, len(e))
        ev = e[0].ev
        if obj is not None and ev.obj != obj:
            return ('calls it on another object', ev)
        if len(ev.args) < len(args) or not all(match(w, a, {}) for w, a in zip(args, ev.args)):
            return ('passes %s' % ', '.join(pp(a) for a in ev.args), ev)
        return None
    c.every(u, rule, f)


@prop('P08', files=[D + 'server.cpp', D + 'client.cpp', D + 'state_machine.cpp', D + 'replicated_shard_client.cpp'])
def p08(c):
    """requests reach the shard and its replica in the right order and the results reach the caller"""
    SV = RPC + 'server'
    u = c.fn(SV + '::handler_callback')
    req, cb = A(0), A(1)
    impl, repl = F('m_impl'), F('m_repl')
    table = [
        ('try_lock_request', impl, 'interface::try_lock', ['m_ticket_number', 'm_broker_id', 'm_key', 'm_locktype', 'm_first_lock']),
        ('prepare_request', impl, 'interface::prepare', ['m_ticket_number', 'm_broker_id', 'm_state_updates']),
        ('commit_request', repl, 'replicated_shard_interface::commit', ['m_ticket_number']),
        ('rollback_request', repl, 'replicated_shard_interface::finish', ['m_ticket_number']),
        ('finish_request', repl, 'replicated_shard_interface::finish', ['m_ticket_number']),
        ('get_tickets_request', impl, 'interface::get_tickets', ['m_broker_id']),
    ]
    OPS = ['interface::' + n for n in ('try_lock', 'prepare', 'commit', 'rollback', 'finish', 'get_tickets')] + \
          ['replicated_shard_interface::' + n for n in ('prepare', 'commit', 'finish', 'get_tickets')]
    cs = []
    for ty, obj, op, fl in table:
        m = ('as', req, RPC + ty)
        want = [F(f, m) for f in fl]

        def exp(p, obj=obj, op=op, want=want):
            e = enc(p, call(OPS))
            if len(e) != 1 or not qmatch(op, e[0].ev.q) or e[0].ev.obj != obj:
                return 'the request is not first passed to %s' % op
            ev = e[0].ev
            if list(ev.args[:len(want)]) != want:
                return ('another request is made: %s' % ', '.join(pp(a) for a in ev.args), ev)
            return Returns(call(OPS))(p)
        cs.append((ty, Is(req, RPC + ty), [exp]))
    c.cases(u, 'request dispatch', cs)
    # second phases
    HND = ['handle_prepare', 'handle_commit', 'do_rollback', 'do_finish']
    u = c.fn(SV + '::handler_callback', opaque=HND)
    nxt = {'prepare_request': 'handle_prepare', 'commit_request': 'handle_commit', 'rollback_request': 'do_rollback', 'finish_request': 'do_finish'}
    seen = set()
    for s, k in c.closures(u, call(OPS)):
        ty = [b[2].split('::')[-1] for b, v in s.ev.st.bools.items() if b[0] == 'is' and v and b[1] == req]
        ty = ty[0] if ty else ''
        res = A(0, k.depth)
        for p in k.rets:
            seen.add(ty)
            w = '%s:%d (%s)' % (s.ev.file, s.ev.line, short(u.name))
            if ty in nxt:
                e = enc(p, call(HND))
                ok = len(e) == 1 and qmatch(nxt[ty], e[0].ev.q) and e[0].ev.args[0] == res and e[0].ev.args[1] == ('as', req, RPC + ty) and e[0].ev.args[2] == cb and not enc(p, invoke(cb))
                c.ob('first phase result', ok, w, 'the result of the first phase of %s is not passed on with its request' % ty, p)
            else:
                e = enc(p, invoke(cb))
                c.ob('direct answer', len(e) == 1 and alt(e[0].ev.args[0]) == res, w, 'the result of %s is not the answer' % ty, p)
    for ty, *_ in table:
        c.ob('every request is answered', ty in seen, c.where(u), 'no response for ' + ty)

    for fn, op, obj, args in (('handle_prepare', 'replicated_shard_interface::prepare', repl, ['m_ticket_number', 'm_broker_id', 'm_state_updates']),
                              ('handle_commit', 'interface::commit', impl, ['m_ticket_number']),
                              ('do_rollback', 'interface::rollback', impl, ['m_ticket_number']),
                              ('do_finish', 'interface::finish', impl, ['m_ticket_number'])):
        u = c.fn(SV + '::' + fn)
        res, msg, cb = A(0), A(1), A(2)
        started = lambda p: holds(result(enc(p, call(OPS))[0].ev), Ctx(p.st, p.items)) if enc(p, call(OPS)) else None

        def second(p, op=op, obj=obj, args=args):
            e = enc(p, call(OPS))
            if len(e) != 1 or not qmatch(op, e[0].ev.q) or e[0].ev.obj != obj:
                return 'the second phase is not started'
            if list(e[0].ev.args[:len(args)]) != [F(f, msg) for f in args]:
                return ('the second phase is for something else', e[0].ev)
            r = holds(result(e[0].ev), Ctx(p.st, p.items))
            n = enc(p, invoke(cb))
            if r is True and n:
                return ('answers before the second phase is done', n[0].ev)
            if r is not True:
                return once(cb, err(c, 'internal_error'))(p)
            return None
        first_err = once(cb, PR(lambda v: alt(v) == res)) if fn == 'handle_prepare' else once(cb, err(c, 'internal_error'))
        c.cases(u, fn, [
            ('first phase failed', Has(res), [first_err, Never(call(OPS))]),
            ('first phase done', Not(Has(res)), [second]),
        ])
        for s, k in c.closures(u, call(OPS)):
            r = A(0, k.depth)
            if fn == 'handle_prepare':
                c.cases(k, fn + ' answer', [
                    ('replication failed', Has(r), [once(cb, err(c, 'internal_error'))]),
                    ('replicated', Not(Has(r)), [once(cb, PR(lambda v: alt(v) == NONE))]),
                ])
            else:
                c.every(k, fn + ' answer', once(cb, PR(lambda v: alt(v) == r)))

    # the state machine
    SM = NS + 'state_machine'
    u = c.fn(SM + '::process_request')
    req = A(0)
    sh = F('m_shard')
    table = [('replicated_prepare_request', 'prepare', ['m_ticket_number', 'm_broker_id', 'm_state_update']),
             ('commit_request', 'commit', ['m_ticket_number']), ('finish_request', 'finish', ['m_ticket_number']),
             ('replicated_get_tickets_request', 'get_tickets', [])]
    ROPS = ['replicated_shard::' + x[1] for x in table]
    cs = []
    for ty, op, fl in table:
        want = [F(f, ('as', req, RPC + ty)) for f in fl]

        def exp(p, op=op, want=want):
            e = enc(p, call(ROPS))
            if len(e) != 1 or not qmatch('replicated_shard::' + op, e[0].ev.q) or e[0].ev.obj != sh:
                return 'the log entry is not applied with ' + op
            if list(e[0].ev.args[:len(want)]) != want:
                return ('the log entry is applied with other arguments', e[0].ev)
            return None
        cs.append((ty, Is(req, RPC + ty), [exp]))
    c.cases(u, 'log entry', cs)
    n = 0
    for s, k in c.closures(u, call(ROPS)):
        r = A(0, k.depth)
        for p in k.rets:
            n += 1
            ok = any(alt(v) == r for q, v in p.st.mem.items() if q[0] == 'loc')
            c.ob('result of the log entry', ok, '%s:%d (%s)' % (s.ev.file, s.ev.line, short(u.name)), 'the result is not recorded as the response', p)
    u = c.fn(SM + '::commit', opaque=['process_request'])
    dec = [p for p in u.rets if enc(p, call('process_request'))]
    c.ob('log application', bool(dec), c.where(u), 'log entries are not applied')
    for p in dec:
        e = enc(p, call('process_request'))
        a = e[0].ev.args[0]
        c.ob('log application', len(e) == 1 and any(is_call(t, 'from_buffer') and t[2][0] == A(1) for t in subterms(a)), c.where(u, p), 'another entry is applied', p)
        c.ob('log index', p.st.load(F('m_last_committed_idx')) == A(0), c.where(u, p), 'the log index is not recorded', p)
        c.ob('log response', any(is_call(t, 'process_request') for t in subterms(p.ret)), c.where(u, p), 'the response is not returned', p)
    c.every(c.fn(SM + '::last_commit_index'), 'last index', Ret(F('m_last_committed_idx')))
    c.every(c.fn(SM + '::create_snapshot'), 'no snapshot is claimed', lambda p: None if all(s.ev.args[0] == FALSE for s in enc(p, invoke())) else 'reports a snapshot that was not taken')
    c.every(c.fn(SM + '::apply_snapshot'), 'no snapshot is applied', Ret(FALSE))

    # replication by the leader
    RC = NS + 'replicated_shard_client'
    for op, ty, fl, ncb in (('prepare', 'replicated_prepare_request', ['m_ticket_number', 'm_broker_id', 'm_state_update'], 3),
                            ('commit', 'commit_request', ['m_ticket_number'], 1), ('finish', 'finish_request', ['m_ticket_number'], 1),
                            ('get_tickets', 'replicated_get_tickets_request', [], 0)):
        u = c.fn(RC + '::' + op, opaque=['replicate_request'])
        obj = ('obj', RPC + ty, tuple((f, A(i)) for i, f in enumerate(fl)))
        forwards(c, u, 'replicated request ' + op, 'replicate_request', None, [PR(lambda v, obj=obj: same_obj(alt(v), obj))])
        c.every(u, 'replicated request is reported', lambda p: None if is_call(p.ret, 'replicate_request') or p.ret[0] == 'b' else 'does not report whether replication started')
        for s, k in c.closures(u, call('replicate_request')):
            r = A(0, k.depth)
            c.cases(k, 'replicated answer ' + op, [
                ('failed', Not(Has(r)), [once(A(ncb), ecode(c, 'internal_error'))]),
                ('done', Has(r), [once(A(ncb), PR(lambda v: alt(v) in (r, ('deref', r), ('val', r)) or mentions_t(v, PR(lambda q: q == r))))]),
            ])
    u = c.fn(RC + '::replicate_request')
    lead = ('call', 'cbdc::raft::node::is_leader', (F('m_raft'),), 0)
    c.cases(u, 'replication', [
        ('not the leader', Not(lead), [Ret(FALSE), Never(call('raft::node::replicate'))]),
        ('leader', lead, [lambda p: None if len(enc(p, call('raft::node::replicate'))) == 1 and is_call(enc(p, call('raft::node::replicate'))[0].ev.args[0], 'make_buffer')
                          and enc(p, call('raft::node::replicate'))[0].ev.args[0][2][0] == A(0) else 'the request is not replicated',
                          lambda p: None if all((is_call(p.ret, 'raft::node::replicate') or holds(result(s.ev), Ctx(p.st, p.items)) is (p.ret == TRUE)) for s in enc(p, call('raft::node::replicate'))) else 'does not report whether replication started']),
    ])
    for s, k in c.closures(u, call('raft::node::replicate')):
        def ans(p):
            e = enc(p, invoke(A(1)))
            if len(e) != 1:
                return 'the caller is called back %d times' % len(e)
            v = e[0].ev.args[0]
            good = mentions_t(v, PR(lambda q: is_call(q, 'from_buffer')))
            failed = holds(Or(Has(A(1, k.depth)), Ne(A(1, k.depth), ('null',))), Ctx(p.st, p.items))
            if not good and v != NONE:
                return ('answers something else', e[0].ev)
            return None
        c.every(k, 'replication result', ans)
        c.ob('replication result', any(v != NONE for p in k.rets for s2 in enc(p, invoke(A(1))) for v in [s2.ev.args[0]]), c.where(k), 'never answers with the result')

    # the client
    CL = RPC + 'client'
    m = call('rpc::client::call')
    for op, ty, fl in (('try_lock', 'try_lock_request', {'m_ticket_number': 0, 'm_broker_id': 1, 'm_key': 2, 'm_locktype': 3, 'm_first_lock': 4}),
                       ('prepare', 'prepare_request', {'m_ticket_number': 0, 'm_broker_id': 1, 'm_state_updates': 2}),
                       ('commit', 'commit_request', {'m_ticket_number': 0}), ('rollback', 'rollback_request', {'m_ticket_number': 0}),
                       ('finish', 'finish_request', {'m_ticket_number': 0}), ('get_tickets', 'get_tickets_request', {'m_broker_id': 0})):
        u = c.fn(CL + '::' + op)
        obj = ('obj', RPC + ty, tuple((f, A(i)) for f, i in fl.items()))
        forwards(c, u, 'client request ' + op, 'rpc::client::call', F('m_client'), [PR(lambda v, obj=obj: same_obj(alt(v), obj))])
        c.every(u, 'client request is reported', lambda p: None if is_call(p.ret, 'rpc::client::call') or p.ret[0] == 'b' else 'does not report whether the request was sent')
        cb = A(len(fl))
        for s, k in c.closures(u, m):
            r = A(0, k.depth)
            c.cases(k, 'client answer ' + op, [
                ('no answer', Not(Has(r)), [once(cb, ecode(c, 'internal_error', 'error_code::'))]),
                ('answer', Has(r), [once(cb, PR(lambda v: mentions_t(v, PR(lambda q: q == r)) and v[0] != 'some'))]),
            ])


def same_obj(v, o):
    if not o[2]:
        return v == o or v[0] in ('obj', 'new', 'list') and not v[-1]
    return v[0] == 'obj' and short_t(v[1]) == short_t(o[1]) and dict(v[2]) == dict(o[2])


def short_t(t):
    return t.split('::')[-1]
