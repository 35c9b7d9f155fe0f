"""PArSEC runtime locking shard: locks, wound-wait, ticket life cycle."""
from lib import *

NS = 'cbdc::parsec::runtime_locking_shard::'
IM = NS + 'impl'
TK = F('m_tickets')
ST = F('m_state')
MUT = F('m_mut')
FILES = ['parsec/runtime_locking_shard/impl.cpp']
HELPERS = ['wound_tickets', 'release_locks', 'acquire_locks', 'get_waiting_on', 'acquire_lock']


def code(c, n):
    return c.enum(NS + 'error_code::' + n)


def state(c, n):
    return c.enum(NS + 'ticket_state::' + n)


def err(c, n, details=ANY):
    """some(shard_error{n, details}) however it is wrapped"""
    cv = I_(code(c, n))

    def ok(v):
        for t in subterms(v):
            if t[0] == 'obj':
                d = dict(t[2])
                if 'm_error_code' in d and 'm_wounded_details' in d:
                    return same_enum(d['m_error_code'], cv) and match(details, d['m_wounded_details'], {})
        return False
    return PR(ok)


def same_enum(a, b):
    return a == b or (a[0] in ('i', 'enum') and b[0] in ('i', 'enum') and a[-1] == b[-1])


def once(cb, val):
    """the caller's callback runs exactly once, with this result"""
    def f(p):
        s = enc(p, invoke(cb))
        if len(s) != 1 or s[0].loops:
            return 'the result callback runs %d times' % len(s)
        if not match(val, s[0].ev.args[0], {}):
            return ('the result callback gets %s' % pp(s[0].ev.args[0])[:160], s[0].ev)
        return None
    return f


def delivers(*sources):
    """the pending callbacks produced by these calls are all run"""
    def f(p):
        got = set()
        for it in p.items:
            if it.kind != 'loop' or it.mode != 'all' or it.dom[0] != 'each':
                continue
            x = X(it.dom, it.L)
            if it.edges and all(any(i.kind == 'invoke' and i.obj == F('m_callback', x.e) and i.args and i.args[0] == F('m_returning', x.e) for i in e.items) for e in it.edges):
                for d in it.dom[1:]:
                    if isinstance(d, tuple):
                        got.add(d)
                        got |= inflow(p, d)
                        if d[0] in ('loc',):
                            got.add(p.st.load(d))
        for m in sources:
            calls = [s.ev for s in walk(p.items, p.st) if call(m)(s.ev)]
            if not calls:
                return 'does not call ' + m
            for g in got:
                if any(is_call(t, m) for t in top_terms(g)):
                    break
            else:
                return 'the pending callbacks of %s are not all run' % m
        return None
    return f


def top_terms(t):
    yield t
    if t[0] in ('fld', 'ver'):
        yield from top_terms(t[1])


@prop('P01', files=FILES)
def p01(c):
    """a write lock excludes every other holder; read locks share"""
    R, W = c.enum(NS + 'lock_type::read'), c.enum(NS + 'lock_type::write')
    u = c.fn(IM + '::acquire_lock')
    lk = F('m_lock', at(ST, A(0)))
    q, wr, rd = F('m_queue', lk), F('m_writer', lk), F('m_readers', lk)
    head = ('front', q)
    tn, el = F('first', head), F('second', head)
    ty = F('m_type', el)
    tick = at(TK, tn)
    none_but_self = Or(Empty(rd), And(Eq(Size(rd), I_(1)), First(Eq(tn, ('front', rd)), InV(rd, tn))))
    is_r, is_w = Eq(ty, I_(R)), Eq(ty, I_(W))

    def refused():
        return [Ret(FALSE), Never(touches(wr)), Never(touches(rd)), Never(mut(q)), Never(touches(tick)) if False else Never(puts(F('m_locks_held', tick))),
                Never(push(ANY)), Never(touches(F('m_queued_locks', tick)))]

    def granted(t):
        return [Does(dels(F('m_queued_locks', tick), A(0))),
                Does(puts(F('m_locks_held', tick), A(0), v=PR(lambda v: v == ty or v == I_(t))) | sets(at(F('m_locks_held', tick), A(0)), PR(lambda v: v == ty or v == I_(t)))),
                Does(dels(q, PR(lambda k: k == tn or k == ('begin', q) or mentions_t(k, ('begin', q)))) | mut(q, ('pop_front', 'extract'))),
                grant_cb]

    def grant_cb(p):
        for s in enc(p, push(A(1))):
            v = s.ev.args[0]
            if v[0] == 'obj':
                d = dict(v[2])
                if d.get('m_callback') == F('m_callback', el) and F('m_value', at(ST, A(0))) in list(subterms(d.get('m_returning'))) and d.get('m_ticket_number') == tn:
                    return None
        return 'the granted ticket is not told the current value'
    c.cases(u, 'grant lock', [
        ('nobody queued', Empty(q), refused()),
        ('read behind a writer', And(Not(Empty(q)), is_r, Has(wr)), refused()),
        ('read', And(Not(Empty(q)), is_r, Not(Has(wr))), granted(R) + [Does(puts(rd, tn)), Ret(TRUE), Never(touches(wr))]),
        ('write behind others', And(Not(Empty(q)), is_w, Or(Has(wr), Not(none_but_self))), refused()),
        ('write', And(Not(Empty(q)), is_w, Not(Has(wr)), none_but_self), granted(W) + [
            Final(wr, ('some', tn)), Never(puts(rd)),
            lambda p: None if holds(Empty(rd), Ctx(p.st, p.items)) or enc(p, mut(rd, ('clear', 'erase'))) or empty_list(p.st.load(rd)) else 'the read lock is kept after the upgrade']),
    ], assume=Or(is_r, is_w))
    v = c.fn(IM + '::acquire_locks', opaque=['acquire_lock'])
    c.every(v, 'queued tickets are served on every released key', Each(A(0), lambda x: [served(x)]))
    g = c.fn(IM + '::recover')
    for f in ('try_lock', 'prepare', 'commit', 'rollback', 'finish', 'recover', 'get_tickets'):
        un = c.fn(IM + '::' + f, opaque=HELPERS)
        helpers = HELPERS[:4] if f != 'acquire_locks' else HELPERS
        c.locked(un, 'shard state changes under its mutex', touches(TK) | touches(ST) | call(helpers), MUT, 'x', need=f not in ('get_tickets',))
        c.unlocked(un, 'callbacks run without the mutex', invoke(), MUT, need=f not in ('recover',))
    c.discipline(IM, ['m_mut'], ['m_state', 'm_tickets'])


def served(x):
    def f(p):
        for it in p.items:
            if it.kind == 'loop' and it.dom[0] == 'while' and any(call('acquire_lock', args=[x.e])(j) for e in it.edges for j in e.items):
                # left only when nothing more could be granted
                last = [i for i in p.items if i.kind == 'call' and call('acquire_lock', args=[x.e])(i)]
                if last and holds(('call', last[-1].q, (THIS,) + tuple(last[-1].args), ANY), Ctx(p.st, p.items)) is True:
                    return ('stops while locks can still be granted', it)
                return None
        return 'queued tickets of a key are not granted until none is left'
    return f


@prop('P02', files=FILES)
def p02(c):
    """older tickets wound younger, never the reverse, never prepared ones"""
    R, W = c.enum(NS + 'lock_type::read'), c.enum(NS + 'lock_type::write')
    u = c.fn(IM + '::get_waiting_on')
    me, ty, lk = A(0), A(1), A(2)
    wr, rd = F('m_writer', lk), F('m_readers', lk)
    w = ('deref', wr)

    def waits_reader(p):
        return Each(rd, lambda x: [push(ANY, x.e)], where=lambda x: Lt(me, x.e))(p)

    def noreader(p):
        for s in enc(p, push(ANY)):
            if mentions_t(s.ev.args[0], ('elem', rd, ANY)):
                return ('a reader is wounded for a read lock', s.ev)
        return None

    def writer(p, want):
        v = [s for s in enc(p, push(ANY)) if not mentions_t(s.ev.args[0], ('elem', ANY, ANY))]
        if want and not v:
            if any(t == wr or (t[0] in ('val', 'deref') and t[1] == wr) for t in subterms(p.ret)):
                return None
            return 'a younger writer is not among the tickets waited on'
        if not want and v:
            return ('a writer that is not younger is wounded', v[0].ev)
        return None
    young = And(Has(wr), Lt(me, wr))
    c.cases(u, 'tickets to wound', [
        ('write, younger writer', And(Eq(ty, I_(W)), young), [waits_reader, lambda p: writer(p, True)]),
        ('write, no younger writer', And(Eq(ty, I_(W)), Not(young)), [waits_reader, lambda p: writer(p, False)]),
        ('read, younger writer', And(Eq(ty, I_(R)), young), [noreader, lambda p: writer(p, True)]),
        ('read, no younger writer', And(Eq(ty, I_(R)), Not(young)), [noreader, lambda p: writer(p, False)]),
    ], assume=Or(Eq(ty, I_(W)), Eq(ty, I_(R))))

    v = c.fn(IM + '::wound_tickets', opaque=HELPERS[1:])
    key, blocking, blocked = A(0), A(1), A(2)
    prepared, wounded = state(c, 'prepared'), state(c, 'wounded')

    def wound(x):
        t = at(TK, x.e)

        def details(p):
            d = p.st.load(F('m_wounded_details', t))
            for s in subterms(d):
                if s[0] == 'obj':
                    f = dict(s[2])
                    if f.get('m_wounding_ticket') == blocked and f.get('m_wounding_key') == key:
                        return None
            return 'the wounding ticket and key are not recorded'
        return [sets(F('m_state', t), I_(wounded)) , call('release_locks', args=[x.e]), details]

    def keyset(p):
        acq = [s for s in enc(p, call('acquire_locks'))]
        if not acq:
            return 'the freed keys are not offered to queued tickets'
        a = acq[-1].ev.args[0]
        got = inflow(p, a)
        if key not in got:
            return ('the requested key itself is not offered', acq[-1].ev)
        if not any(fcall(t, 'second', 'release_locks') for t in got):
            return ('the keys freed by wounding are not offered', acq[-1].ev)
        return None

    def returned(p):
        ins = inflow(p, p.ret)
        for what, m in (('of wounded tickets', lambda t: fcall(t, 'first', 'release_locks')),
                        ('of granted tickets', lambda t: is_call(t, 'acquire_locks'))):
            if not any(m(q) for q in ins):
                return 'the callbacks %s are not returned' % what
        return None
    c.every(v, 'wound', Each(blocking, wound, where=lambda x: Ne(F('m_state', at(TK, x.e)), I_(prepared))), keyset, returned)

    r = c.fn(IM + '::release_locks')
    t = A(1)
    ql, held = F('m_queued_locks', t), F('m_locks_held', t)

    def lockof(k):
        return F('m_lock', at(ST, k))

    def unqueue(x):
        return [dels(F('m_queue', lockof(x.e)), A(0)), told(x)]

    def told(x):
        def f(p):
            for s in enc(p, push(ANY)):
                v = s.ev.args[0]
                if v[0] == 'obj':
                    d = dict(v[2])
                    if 'm_callback' in d and mentions_t(d['m_callback'], PR(lambda q: q == F('m_queue', lockof(x.e)))) \
                            and match(err(c, 'wounded', F('m_wounded_details', t)), d['m_returning'], {}):
                        return None
            return 'the queued request is not answered as wounded'
        return f

    def kept(p):
        r = p.ret
        if r[0] != 'obj':
            return 'does not return callbacks and keys'
        d = dict(r[2])
        keys = d.get('second')
        base = keys[1] if keys[0] == 'ver' else keys
        ev = [s.ev for s in walk(p.items, p.st) if s.ev.kind == 'mut' and s.ev.obj == base]
        if not any(a == ('key', held, ANY) or match(('key', held, ANY), a, {}) for e in ev for a in e.args):
            return 'the released keys are not all returned'
        return None
    c.every(r, 'release', Each(ql, unqueue),
            Each(held, lambda x: [dels(F('m_readers', lockof(x.k)), A(0))], where=lambda x: Eq(x.v, I_(R))),
            Each(held, lambda x: [sets(F('m_writer', lockof(x.k)), NONE)], where=lambda x: Eq(x.v, I_(W))),
            Each(held, lambda x: [mut(ANY, INS) ], where=None), kept,
            lambda p: None if empty_list(p.st.load(held)) or enc(p, mut(held, ('clear',))) else 'the ticket keeps its locks',
            lambda p: None if enc(p, sets(ql)) or enc(p, mut(ql, ('clear',))) else 'the ticket keeps its queued requests')


@prop('P03', files=FILES)
def p03(c):
    """begun -> prepared -> committed -> finished"""
    t = A(0)
    tick = at(TK, t)
    stt = F('m_state', tick)
    known = InV(TK, t)
    unk = Not(known)
    B, PRP, WND, CMT = (state(c, n) for n in ('begun', 'prepared', 'wounded', 'committed'))

    def s_is(v):
        return Eq(stt, I_(v))
    same = [Never(touches(TK)), Never(touches(ST)), Never(call(HELPERS))]
    valid = Or(s_is(B), s_is(PRP), s_is(WND), s_is(CMT))

    # lock requests
    u = c.fn(IM + '::try_lock', opaque=HELPERS)
    key, ty, first, cb = A(2), A(3), A(4), A(5)
    held, ql = F('m_locks_held', tick), F('m_queued_locks', tick)
    has = And(InV(held, key), Ge(at(held, key), ty))
    qd = InV(ql, key)
    live = And(known, Not(first), s_is(B))
    elem = F('m_lock', at(ST, key))
    q = F('m_queue', elem)

    def queued(p):
        for e in top(p.items):
            if puts(q, t)(e):
                v = e.args[1]
                if v[0] == 'obj':
                    d = dict(v[2])
                    if d.get('m_type') == ty and d.get('m_callback') == cb:
                        return None
                return ('queued with another type or callback', e)
        return 'the request is not queued'

    def wounds(p):
        w = [e for e in top(p.items) if call('wound_tickets')(e)]
        g = [e for e in top(p.items) if call('get_waiting_on')(e)]
        if len(w) != 1 or len(g) != 1:
            return 'conflicting holders are not determined and wounded'
        g, w = g[0], w[0]
        if g.args[0] != t or g.args[1] != ty or not mentions_t(g.args[2], PR(lambda x: x == elem or (x[0] == 'at' and x[1] == ST))):
            return ('looks for conflicts of another request', g)
        if w.args[0] != key or w.args[2] != t or not is_call(w.args[1], 'get_waiting_on'):
            return ('wounds for another request', w)
        return None
    req = [Does(sets(F('m_broker_id', tick), A(1)) | puts(TK, t, PR(lambda v: v[0] == 'obj' and dict(v[2]).get('m_broker_id') == A(1)))), queued,
           Does(puts(ql, key)), Before(puts(q, t), call('wound_tickets')), wounds, delivers('wound_tickets'), Never(invoke(cb)),
           Never(sets(stt))]

    def fresh(p):
        for e in top(p.items):
            if puts(TK, t)(e):
                if len(e.args) > 1 and e.args[1][0] == 'obj':
                    d = dict(e.args[1][2])
                    if d['m_state'] == I_(B) or same_enum(d['m_state'], I_(B)):
                        return None
                elif e.q == 'ensure':
                    return None
                return ('a new ticket does not start as begun', e)
        return 'the ticket is not created'
    c.cases(u, 'lock request', [
        ('unknown ticket', And(unk, Not(first)), same + [once(cb, err(c, 'unknown_ticket'))]),
        ('first request', And(unk, first), [fresh] + req),
        ('prepared', And(known, Not(first), s_is(PRP)), same + [once(cb, err(c, 'prepared'))]),
        ('committed', And(known, Not(first), s_is(CMT)), same + [once(cb, err(c, 'committed'))]),
        ('wounded', And(known, Not(first), s_is(WND)), same + [once(cb, err(c, 'wounded', F('m_wounded_details', tick)))]),
        ('already held', And(live, has), same + [once(cb, err(c, 'lock_held'))]),
        ('already queued', And(live, Not(has), qd), same + [once(cb, err(c, 'lock_queued'))]),
        ('request', And(live, Not(has), Not(qd)), req),
    ], assume=Or(unk, valid))
    c.every(u, 'a ticket is not started twice', lambda p: 'a first request of an existing ticket is accepted' if holds(And(known, first), Ctx(p.st, p.items)) is True else None)

    # prepare
    u = c.fn(IM + '::prepare', opaque=HELPERS)
    upd, cb = A(2), A(3)
    W = c.enum(NS + 'lock_type::write')
    writable = All(upd, lambda x: And(InV(held, x.k), Eq(at(held, x.k), I_(W))))
    allheld = All(upd, lambda x: InV(held, x.k))
    ready = And(known, s_is(B), Empty(ql))

    def missing(p):
        s = enc(p, invoke(cb))
        if len(s) != 1 or not (match(err(c, 'lock_not_held'), s[0].ev.args[0], {}) or match(err(c, 'state_update_with_read_lock'), s[0].ev.args[0], {})):
            return 'an update without its write lock is not refused'
        return None
    c.cases(u, 'prepare', [
        ('unknown ticket', unk, same + [once(cb, err(c, 'unknown_ticket'))]),
        ('prepared', And(known, s_is(PRP)), same + [once(cb, err(c, 'prepared'))]),
        ('committed', And(known, s_is(CMT)), same + [once(cb, err(c, 'committed'))]),
        ('wounded', And(known, s_is(WND)), same + [once(cb, err(c, 'wounded', F('m_wounded_details', tick)))]),
        ('locks pending', And(known, s_is(B), Not(Empty(ql))), same + [once(cb, err(c, 'lock_queued'))]),
        ('update without write lock', And(ready, Not(writable)), same + [missing]),
        ('prepared now', And(ready, writable), [once(cb, NONE), Final(F('m_state_update', tick), upd), Final(stt, PR(lambda v: same_enum(v, I_(PRP)))), Never(touches(ST)), Never(call(HELPERS))]),
    ], assume=Or(unk, valid))

    # commit
    u = c.fn(IM + '::commit', opaque=HELPERS)
    cb = A(1)
    su = F('m_state_update', tick)
    rel = call('release_locks', args=[t])

    def offered(p):
        for e in top(p.items):
            if call('acquire_locks')(e):
                a = e.args[0]
                if fcall(a, 'second', 'release_locks'):
                    return None
        return 'the released keys are not offered to queued tickets'
    c.cases(u, 'commit', [
        ('unknown ticket', unk, same + [once(cb, err(c, 'unknown_ticket'))]),
        ('not prepared', And(known, Not(s_is(PRP))), same + [once(cb, err(c, 'not_prepared'))]),
        ('committed now', And(known, s_is(PRP)), [
            once(cb, NONE), Each(su, lambda x: [sets(F('m_value', at(ST, x.k)), PR(lambda v: v == x.v))]),
            Does(rel), offered, delivers('acquire_locks'), Final(stt, PR(lambda v: same_enum(v, I_(CMT)))),
            Before(sets(F('m_value', at(ST, ANY))), call('acquire_locks')), writes_first]),
    ], assume=Or(unk, valid))
    # rollback
    u = c.fn(IM + '::rollback', opaque=HELPERS)
    c.cases(u, 'rollback', [
        ('unknown ticket', unk, same + [once(cb, err(c, 'unknown_ticket'))]),
        ('rolled back', known, [once(cb, NONE), Does(rel), offered, delivers('acquire_locks', 'release_locks'), Does(dels(TK)), Never(touches(ST)),
                                NotAfter(call(['release_locks', 'acquire_locks']), dels(TK))]),
    ])
    # finish
    u = c.fn(IM + '::finish', opaque=HELPERS)
    c.cases(u, 'finish', [
        ('unknown ticket', unk, same + [once(cb, err(c, 'unknown_ticket'))]),
        ('not committed', And(known, Not(s_is(CMT))), same + [once(cb, err(c, 'not_committed'))]),
        ('finished', And(known, s_is(CMT)), [once(cb, NONE), Does(dels(TK)), Never(touches(ST))]),
    ], assume=Or(unk, valid))
    # get_tickets
    u = c.fn(IM + '::get_tickets', opaque=HELPERS)

    def listed(p):
        s = enc(p, invoke(A(1)))
        if len(s) != 1:
            return 'the result callback runs %d times' % len(s)
        return Each(TK, lambda x: [puts(ANY, x.k, PR(lambda v: v == F('m_state', x.v))) | puts(ANY, ANY, PR(lambda v: v == F('m_state', x.v)))],
                    where=lambda x: Eq(F('m_broker_id', x.v), A(0)))(p)
    c.every(u, "a broker sees exactly its own tickets", listed, *same)


def writes_first(p):
    for i, it in enumerate(p.items):
        if it.kind == 'loop' and any(sets(F('m_value', at(ST, ANY)))(j) for e in it.edges for j in e.items):
            if any(j.kind == 'call' and call('acquire_locks')(j) for j in p.items[:i]):
                return ('waiting tickets are granted the key before its new value is stored', it)
    return None
