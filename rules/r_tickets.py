"""PArSEC ticket machine and directory."""
from lib import *
from r_rls import once
from r_repl import alt

TM = 'cbdc::parsec::ticket_machine::'
D = 'parsec/ticket_machine/'
TK, CB, FT, MUT = F('m_tickets'), F('m_callbacks'), F('m_fetching_tickets'), F('m_mut')


@prop('P09', files=[D + 'impl.cpp', D + 'client.cpp', D + 'state_machine.cpp', D + 'controller.cpp'])
def p09(c):
    """ticket numbers are never handed out twice"""
    u = c.fn(TM + 'impl::get_ticket_number')
    n, r = F('m_next_ticket_number'), F('m_range')

    def issued(p):
        s = enc(p, invoke(A(0)))
        if len(s) != 1:
            return 'the result callback runs %d times' % len(s)
        v = alt(s[0].ev.args[0])
        d = dict(v[2]) if v[0] == 'obj' else {}
        if d.get('first') != n or d.get('second') != l_add(n, r):
            return ('issues the range %s' % pp(v), s[0].ev)
        return None
    c.every(u, 'a range of numbers', issued, Final(n, l_add(n, r)), Ret(TRUE))
    c.atomically(TM + 'impl', 'get_ticket_number', 'm_next_ticket_number')
    for f in c.find(TM + 'impl::impl'):
        k = c.unit(f)
        c.every(k, 'configured range', Final(r, A(1)))

    CL = TM + 'rpc::client'
    u = c.fn(CL + '::get_ticket_number', opaque=['fetch_tickets'])
    fetch = call('fetch_tickets')
    got = ('call', CL + '::fetch_tickets', (THIS,), 0)

    def flag(p):
        e = enc(p, fetch)
        if e and holds(result(e[0].ev), Ctx(p.st, p.items)) is True and truth(p, p.st.load(FT)) is not True:
            return 'does not remember that a request is on its way'
        if len(e) > 1:
            return 'asks twice'
        if (not e or holds(result(e[0].ev), Ctx(p.st, p.items)) is not True) and truth(p, p.st.load(FT)) is True and holds(FT, Ctx(p.st, p.items)) is not True:
            return 'waits for numbers that were not requested'
        return None

    def one(p):
        pops = enc(p, mut(TK, ('pop',)))
        s = enc(p, invoke(A(0)))
        if len(s) != 1 or len(pops) != 1:
            return 'a cached number is not used exactly once'
        v = alt(s[0].ev.args[0])
        d = dict(v[2]) if v[0] == 'obj' else {}
        fr = ('front', TK)
        if d.get('first') != fr or d.get('second') != fr:
            return ('hands out %s' % pp(v), s[0].ev)
        return None
    idle = And(Empty(TK), Not(FT))
    c.cases(u, 'next number', [
        ('cached', Not(Empty(TK)), [one, flag, Ret(TRUE), Never(push(CB))]),
        ('none, on its way', And(Empty(TK), FT), [Does(push(CB, A(0))), Never(invoke()), Never(mut(TK)), Ret(TRUE)]),
        ('none, asked', And(idle, got), [Does(fetch), flag, Does(push(CB, A(0))), Never(invoke()), Never(mut(TK)), Ret(TRUE)]),
        ('none, cannot ask', And(idle, Not(got)), [Does(fetch), flag, Ret(FALSE), Never(push(CB)), Never(invoke()), Never(mut(TK))]),
    ])
    c.unlocked(u, 'callbacks run without the mutex', invoke(), MUT)
    u = c.fn(CL + '::handle_ticket_numbers', opaque=['fetch_tickets'])

    def stored(p):
        for it in p.items:
            if it.kind == 'loop' and it.mode == 'all' and it.dom[0] == 'range' and it.dom[1] == F('first', A(0)) and it.dom[2] == F('second', A(0)):
                if all(len([i for i in e.items if push(ANY)(i)]) == 1 and all(i.args[0][0] in ('ix', 'rix') for i in e.items if push(ANY)(i)) for e in it.edges):
                    return None
                return ('not every number of the range is stored once', it)
        return 'not every number of the range is stored'

    def paired(p):
        for it in p.items:
            if it.kind == 'loop':
                for e in it.edges:
                    a, b = [s for s in e.items if mut(CB, ('pop',))(s)], [s for s in e.items if mut(TK, ('pop',))(s)]
                    if len(a) != len(b) or len(a) > 1:
                        return ('a number is dropped or given to two requests', it)
                    for s in [s for s in walk(e.items, e.st) if s.ev.kind == 'invoke' and not any(fetch(i) for i in e.items)]:
                        v = alt(s.ev.args[0])
                        d = dict(v[2]) if v[0] == 'obj' else {}
                        t = d.get('first')
                        if t is None or d.get('second') != t:
                            return ('hands out %s' % pp(v), s.ev)
                        if t[0] == 'front':
                            base = unver(t[1])
                            if len([i for i in e.items if mut(base, ('pop',))(i)]) != 1:
                                return ('the same number is handed out again', s.ev)
                            if not any(q[0] == 'front' and unver(q[1]) == TK for q in inflow(p, base)):
                                return ('hands out a number that was not issued', s.ev)
                        f = s.ev.obj
                        if f[0] == 'front':
                            base = unver(f[1])
                            if len([i for i in e.items if mut(base, ('pop',))(i)]) != 1:
                                return ('a waiting request is answered twice', s.ev)
        if not enc(p, invoke()):
            return 'waiting requests are not answered'
        return None

    def drained(p):
        """on return: either no request is waiting or no number is left, and
        what is waiting has been asked for"""
        ctx = Ctx(p.st, p.items)
        cb = p.st.load(CB)
        empt = holds(Empty(cb), ctx)
        if empt is not True and holds(Empty(p.st.load(TK)), ctx) is not True:
            return 'requests keep waiting although numbers are left'
        fe = enc(p, fetch)
        ft = p.st.load(FT)
        if empt is True:
            return None if truth(p, ft) is False else 'never asks for numbers again'
        if not fe:
            return 'does not ask for numbers for the requests still waiting'
        ok = holds(result(fe[0].ev), ctx)
        if ok is False and truth(p, ft) is not False:
            return 'never asks for numbers again after a failure'
        return None
    c.every(u, 'issued numbers', stored, paired, drained)
    c.unlocked(u, 'callbacks run without the mutex', invoke(), MUT)
    u = c.fn(CL + '::fetch_tickets', opaque=['handle_ticket_numbers'])
    for s, k in c.closures(u, call('rpc::client::call')):
        res = A(0, k.depth)
        me = ('this', k.depth)
        ft, cb = F('m_fetching_tickets', me), F('m_callbacks', me)
        for p in k.rets:
            h = enc(p, call('handle_ticket_numbers'))
            w = c.where(k)
            if h:
                c.ob('answer', len(h) == 1 and mentions_t(h[0].ev.args[0], PR(lambda q: q == res)), w, 'other numbers are stored than received', p)
                continue

            def failed(p):
                if truth(p, p.st.load(ft)) is not False:
                    return 'never asks for numbers again after a failure'
                if not any(i.kind == 'loop' and all(any(invoke()(j) for j in e.items) for e in i.edges) for i in p.items):
                    return 'waiting requests are not told of the failure'
                if p.st.load(cb) == cb:
                    return 'waiting requests are told of the failure but keep waiting'
                return None
            r = failed(p)
            c.ob('failure', r is None, w, r, p)
    c.discipline(CL, ['m_mut'], ['m_tickets', 'm_callbacks', 'm_fetching_tickets'])

    u = c.fn(TM + 'state_machine::process_request')
    for s, k in c.closures(u, call('get_ticket_number')):
        for p in k.rets:
            c.ob('replicated answer', any(alt(v) == A(0, k.depth) for q, v in p.st.mem.items() if q[0] == 'loc'), c.where(k), 'the issued range is not the answer', p)
    c.every(u, 'one range per log entry', lambda p: None if len(enc(p, call('get_ticket_number', obj=F('m_ticket_machine')))) == 1 else 'a request does not use exactly one range')
    u = c.fn(TM + 'state_machine::commit', opaque=['blocking_call'])
    c.every(u, 'log application', Final(F('m_last_committed_idx'), A(0)), lambda p: None if [s.ev.args[0] for s in enc(p, call('blocking_call'))] == [A(1)] else 'the log entry is not applied once')
    c.every(c.fn(TM + 'state_machine::create_snapshot'), 'no snapshot is claimed', lambda p: None if all(s.ev.args[0] == FALSE for s in enc(p, invoke())) else 'reports a snapshot that was not taken')
    u = c.fn(TM + 'controller::raft_callback')
    fol, lead = (I_(c.enum('nuraft::cb_func::' + n)) for n in ('BecomeFollower', 'BecomeLeader'))
    leader_only(c, u, A(0), fol, lead)


def leader_only(c, u, ty, fol, lead, srv='m_server'):
    """the request server runs exactly while this node leads"""
    c.cases(u, 'leadership', [
        ('lost', Eq(ty, fol), [Final(F(srv), PR(lambda v: v in (NULL, NONE) or v[0] == 'null')), Never(call('init'))]),
        ('gained', Eq(ty, lead), [Does(sets(F(srv))), Does(call('register_raft_node')), Does(call('init')), Before(call('register_raft_node'), call('init')),
                                  lambda p: None if all(s.ev.args[0] == F('m_raft_serv') for s in enc(p, call('register_raft_node'))) else 'serves another raft node']),
        ('other', And(Ne(ty, fol), Ne(ty, lead)), [Never(sets(F(srv)))]),
    ])


@prop('P10', files=['parsec/directory/impl.cpp'])
def p10(c):
    """every key has exactly one home shard"""
    u = c.fn('cbdc::parsec::directory::impl::key_location')

    def where(p):
        s = enc(p, invoke(A(1)))
        if len(s) != 1:
            return 'the result callback runs %d times' % len(s)
        v = s[0].ev.args[0]
        if v[0] != 'op' or v[1] != '%' or v[2][1] != F('m_n_shards'):
            return ('the answer is not reduced modulo the number of shards', s[0].ev)
        h = v[2][0]
        leaves = [t for t in subterms(h) if t[0] in ('fld', 'call', 'glob', 'loc', 'arg')]
        for t in leaves:
            if t == A(0) or t == F('m_siphash') or (t[0] == 'call' and qmatch(['const_sip_hash::operator()'], t[1])):
                continue
            return ('the answer depends on more than the key: ' + pp(t), s[0].ev)
        if A(0) not in leaves:
            return ('the answer does not depend on the key', s[0].ev)
        return None
    c.every(u, 'home shard', where, Ret(TRUE), Never(touches(THIS)))
    for f in c.find('cbdc::parsec::directory::impl::impl'):
        c.every(c.unit(f), 'number of shards', Final(F('m_n_shards'), A(0)))
    fs = [f for f in c.find('cbdc::hashing::const_sip_hash::operator()') if 'cbdc::buffer>' in f['id'].split('(')[0]]
    if not fs:
        raise Anchor('no key hash')
    whole_hash(c, c.unit(fs[0]), A(0))


def whole_hash(c, u, buf):
    """every byte of the buffer goes into the hash once, with fixed keys"""
    def f(p):
        w = [s.ev for s in enc(p, call('CSipHasher::Write'))]
        if len(w) != 1:
            return 'hashes %d pieces' % len(w)
        size = ('call', 'cbdc::buffer::size', (buf,), 0)
        d, n = w[0].args[0], w[0].args[1]
        ok_n = n == size or any(t == size for t in subterms(n))
        if not ok_n:
            return ('does not hash all bytes', w[0])
        if n != size and not (n[0] == 'size' or n[0] == 'call'):
            return ('does not hash all bytes', w[0])
        if mentions_t(d, PR(lambda t: t == buf)):
            return None
        cp = [s.ev for s in enc(p, call(['memcpy', 'std::memcpy'])) if s.ev.args[0] == d]
        if len(cp) == 1 and mentions_t(cp[0].args[1], PR(lambda t: t == buf)) and cp[0].args[2] == size:
            return None
        return ('hashes something else', w[0])
    c.every(u, 'key hash', f, Ret(PR(lambda v: is_call(v, 'CSipHasher::Finalize'))))
