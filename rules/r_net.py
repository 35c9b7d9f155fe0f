"""RPC and networking: requests and their responses, packets, frames, peers."""
from lib import *

NET = 'cbdc::network::'
CM = NET + 'connection_manager'
PEER = NET + 'peer'
TCL = 'cbdc::rpc::tcp_client'
CL = 'cbdc::rpc::client'
thread = M(lambda e: e.kind == 'thread', 'start a thread')


def ok(q):
    """the call succeeded (said yes, or gave a value)"""
    return ('call', PR(lambda n: qmatch(q, n)), ANY, ANY)


def ran(u, p, q):
    """three-valued outcome of the one call of q on the path"""
    e = enc(p, call(q))
    if len(e) != 1:
        return None
    r = result(e[0].ev)
    for t in (r, ('has', r)):
        h = holds(t, Ctx(p.st, p.items))
        if h is not None:
            return h
    return None


def Ok(q):
    return lambda ctx: outcome(ctx, q)


def outcome(ctx, q):
    for it in allev(ctx.items):
        if it.kind == 'call' and qmatch(q, it.q):
            r = result(it)
            for t in (r, ('has', r)):
                h = ctx.st.known(t)
                if h is not None:
                    return h
            return None
    return False


def held(st, t):
    """what a freshly allocated object was made from"""
    for _ in range(3):
        v = st.load(t) if isinstance(t, tuple) and t[0] == 'heap' else t
        if isinstance(v, tuple) and v[0] in ('new', 'obj') and len(v) > 2 and len(v[2]) == 1:
            v = v[2][0]
            if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0].startswith('m_'):
                v = v[1]
        if v == t:
            return t
        t = v
    return t


def bare(t):
    """a value handed on through moves, wrappers and decoders that only read"""
    while isinstance(t, tuple):
        if t[0] in ('ver', 'with', 'some', 'var'):
            t = t[-1] if t[0] in ('some', 'var') else t[1]
        elif t[0] == 'call' and len(t) > 2 and t[1].endswith('::value') and t[2]:
            t = t[2][0]
        elif t[0] == 'out' and isinstance(t[1], tuple) and t[1][0] == 'call' and qmatch('from_buffer', t[1][1]):
            t = t[1][2][t[2] if isinstance(t[2], int) and t[2] < len(t[1][2]) else 0]
        else:
            return t
    return t


def is_(v):
    return PR(lambda t: bare(t) == v)


def exactly(m, *args, n=1):
    """exactly one matching event, outside loops, with these arguments"""
    def f(p):
        e = enc(p, m)
        if len(e) != n or any(s.loops for s in e):
            return ('%s %d times' % (m.name, len(e)), e[0].ev if e else None) if e else 'does not ' + m.name
        for s in e:
            for a, w in zip(s.ev.args, args):
                if not match(w, a, {}):
                    return ('%s with %s' % (m.name, pp(a)[:120]), s.ev)
            if len(s.ev.args) < len(args):
                return (m.name + ' with too few arguments', s.ev)
        return None
    return f


def by(t):
    return lambda f: any(t in str(q.get('t')) for q in f['params'])


def decoded(x):
    """the decoding of x"""
    return PR(lambda t: is_call(t, 'from_buffer') and bare(t[2][0]) == x)


def fld_of(n, base):
    return PR(lambda t: t[0] == 'fld' and t[2] == n and match(base, bare(t[1]), {}))


def reply_of(hdr, payload):
    """the serialized response with this header and payload"""
    def f(t):
        t = bare(t)
        if not is_call(t, 'make_buffer'):
            return False
        r = t[2][0]
        d = dict(r[2]) if r[0] == 'obj' else {}
        return match(hdr, bare(d.get('m_header', VOID)), {}) and match(payload, d.get('m_payload', VOID), {})
    return PR(f)


@prop('N01', files=['uhs/sentinel/client.cpp', 'parsec/ticket_machine/client.cpp', 'uhs/twophase/locking_shard/status_client.cpp',
                    'parsec/runtime_locking_shard/controller.cpp', 'parsec/agent/runners/lua/server.cpp', 'uhs/twophase/locking_shard/controller.cpp', 'util/network/connection_manager.cpp'])
def n01(c):
    """each RPC caller gets the response to its own request"""
    ID = F('m_current_request_id')
    # -- a request has an identifier of its own
    def fresh(p):
        e = enc(p, call('client::call_raw'))
        if len(e) != 1 or e[0].loops:
            return 'does not send the request exactly once'
        a = e[0].ev.args
        if a[1] != ID:
            return ('the request goes out under identifier %s' % pp(a[1]), e[0].ev)
        b = bare(a[0])
        r = b[2][0] if is_call(b, 'make_buffer') else VOID
        d = dict(r[2]) if r[0] == 'obj' else {}
        if d.get('m_payload') != A(0):
            return ('the request does not carry the payload', e[0].ev)
        h = d.get('m_header', VOID)
        if h[0] != 'obj' or dict(h[2]).get('m_request_id') != ID:
            return ('the request carries another identifier', e[0].ev)
        if p.st.load(ID) == ID:
            return ('the identifier is used again by the next request', e[0].ev)
        return None
    for u in c.fns(CL + '::call', by('duration')):
        resp = lambda p: result(enc(p, call('client::call_raw'))[0].ev)
        c.every(u, 'request identifiers', fresh, exactly(call('client::call_raw'), ANY, ANY, A(1)))
        c.cases(u, 'call result', [
            ('response', Ok('client::call_raw'), [lambda p: None if bare(p.ret) == F('m_payload', resp(p)) else 'returns %s' % pp(p.ret)[:100]]),
            ('no response', Not(Ok('client::call_raw')), [Ret(NONE)])])
    for u in c.fns(CL + '::call', by('function')):
        c.every(u, 'request identifiers', fresh, Returns(call('client::call_raw')))
        for s, k in c.closures(u, call('client::call_raw')):
            a = A(0, k.depth)
            c.cases(k, 'asynchronous response', [
                ('response', Has(a), [exactly(invoke(), fld_of('m_payload', a)), lambda p: None if all(s.ev.obj == A(1) for s in enc(p, invoke())) else 'calls back someone else']),
                ('none', Not(Has(a)), [Never(invoke())])])
    c.atomically(CL, 'make_request', 'm_current_request_id')
    # -- who waits for which response
    R = F('m_responses')
    RM = F('m_responses_mut')
    SET_, SEND = call('tcp_client::set_response'), call('tcp_client::send_request')
    net = call('connection_manager::send_to_one')
    for u in c.fns(TCL + '::send_request'):
        c.every(u, 'pending requests', Does(puts(R, A(1), A(2)), 1), Before(puts(R, A(1), A(2)), net), exactly(net),
                lambda p: None if all(held(s.ev.st, s.ev.args[0]) == A(0) for s in enc(p, net)) else 'sends something else', Returns(net), Never(dels(R)))
        c.locked(u, 'pending requests under the mutex', touches(R), RM)
        c.unlocked(u, 'sending without the mutex', net, RM)
    for u in c.fns(TCL + '::set_response'):
        act = PR(lambda t: mentions_t(t, R) and mentions_t(t, A(0)))
        fulfil = call('promise::set_value') | invoke()
        c.cases(u, 'response', [
            ('pending', In(R, A(0)), [Does(dels(R, A(0)), 1), exactly(fulfil, A(1)), Before(dels(R, A(0)), fulfil), lambda p: None if all(match(act, s.ev.obj, {}) or match(act, s.ev.st.load(root(s.ev.obj)), {}) for s in enc(p, fulfil)) else 'answers another request']),
            ('not pending', NotIn(R, A(0)), [Never(fulfil), Never(puts(R))])])
        c.locked(u, 'pending requests under the mutex', touches(R), RM)
        c.unlocked(u, 'callbacks run without the mutex', fulfil, RM)
    op = ['set_response', 'send_request']
    for u in c.fns(TCL + '::call_raw', by('duration'), opaque=op):
        fut = call('promise::get_future')

        def own(p):
            e = enc(p, SEND)
            pr = bare(e[0].ev.args[2])
            f = enc(p, fut)
            return None if len(f) == 1 and len(e[0].ev.args) == 3 and pr[0] == 'loc' and pr == f[0].ev.obj else 'waits for something else than the response'
        c.every(u, 'synchronous call', exactly(SEND, A(0), A(1)), own, Before(fut, SEND))
        c.cases(u, 'synchronous call', [
            ('not sent', Not(Ok('tcp_client::send_request')), [exactly(SET_, A(1), NONE), Ret(NONE)]),
            ('sent', Ok('tcp_client::send_request'), [lambda p: timed(c, p, SET_)])])
    for u in c.fns(TCL + '::call_raw', by('function'), opaque=op):
        c.every(u, 'asynchronous call', exactly(SEND, A(0), A(1), is_(A(2))), Returns(SEND), Never(invoke()))
        c.cases(u, 'asynchronous call', [
            ('not sent', Not(Ok('tcp_client::send_request')), [Does(dels(R, A(1)) | call('tcp_client::set_response', args=(A(1), NONE)), 1)]),
            ('sent', Ok('tcp_client::send_request'), [Never(touches(R)), Never(SET_)])])
        c.locked(u, 'pending requests under the mutex', touches(R), RM, need=False)
    for u in c.fns(TCL + '::response_handler', opaque=op):
        dec = decoded(F('m_pkt', A(0)))
        c.cases(u, 'incoming response', [
            ('response', Ok('from_buffer'), [exactly(SET_, fld_of('m_request_id', fld_of('m_header', dec)), PR(lambda t: match(dec, bare(t), {})))]),
            ('undecodable', Not(Ok('from_buffer')), [Never(SET_)])])
        c.every(u, 'incoming response', Ret(NONE), Never(SEND))
    for u in c.fns(TCL + '::init', opaque=['response_handler']):
        cc, sh = call('connection_manager::cluster_connect'), call('connection_manager::start_handler')
        c.every(u, 'client start', exactly(cc, F('m_server_endpoints')))
        c.cases(u, 'client start', [
            ('connected', Ok('connection_manager::cluster_connect'), [exactly(sh), Final(F('m_handler_thread'), PR(lambda t: is_call(t, 'connection_manager::start_handler'))), Ret(TRUE)]),
            ('not connected', Not(Ok('connection_manager::cluster_connect')), [Never(sh), Ret(FALSE)])])
        c.relay(u, 'client start', sh, 'tcp_client::response_handler', lambda s, a: [a])
    for u in c.fns(TCL + '::~tcp_client'):
        cl, jn, fulfil = call('connection_manager::close'), call('thread::join'), call('promise::set_value') | invoke()
        c.every(u, 'client end', exactly(cl), NotAfter(cl, jn), Before(cl, fulfil), Each(R, lambda x: [fulfil]), lambda p: None if all(s.ev.args[0] == NONE for s in enc(p, fulfil)) else 'invents a response')
        c.cases(u, 'client end', [('handler running', joinable, [exactly(jn), Before(jn, fulfil)]),
                                  ('no handler', Not(joinable), [Never(jn)])], total=False)
    # -- the serving side
    servers(c)
    c.discipline(TCL, ['m_responses_mut'], ['m_responses'])


def any_true(ctx, pred):
    for t, v in ctx.st.bools.items():
        for x in subterms(t):
            if pred(x):
                return v
    return None


def facts(st):
    """every term something is known about"""
    for t in st.bools:
        yield t
    for k in st.bounds:
        for t in ([k] if k and isinstance(k[0], str) else [P[0] for P in k]):
            yield t


def timed(c, p, SET_):
    """a sent request: the response, or none once the time is over"""
    over, waits = None, set()
    for t in facts(p.st):
        for x in subterms(t):
            if isinstance(x, tuple) and x[:1] == ('call',) and x[1].endswith('wait_for'):
                waits.add(x)
    for x in waits:
        h = p.st.known(compare('==', x, ('i', 1)))
        over = h if h is not None else over
        if x[2][-1] != A(2):
            return 'waits for another time'
        if not any(is_call(y, 'promise::get_future') for y in subterms(x)):
            return 'waits for something else'
    got = enc(p, call('future::get'))
    if over:
        if got or p.ret != NONE:
            return 'does not give up when the time is over'
        return exactly(SET_, A(1), NONE)(p)
    if len(got) != 1 or not is_call(p.ret, 'future::get'):
        return 'does not return the response'
    if not any(is_call(x, 'promise::get_future') for x in subterms(p.ret)):
        return 'returns the result of something else'
    if not waits:
        z = [b for k, b in p.st.bounds.items() if any(mentions_t(t, A(2)) for t in ([k] if isinstance(k[0], str) else [P[0] for P in k]))]
        if not any(b[0] == 0 and b[1] == 0 for b in z):
            return 'ignores the time limit'
    if enc(p, SET_):
        return 'drops the request while it waits'
    return None


def joinable(ctx):
    return any_true(ctx, lambda t: t[0] == 'call' and t[1].endswith('::joinable'))


def any_true(ctx, pred):
    for t, v in ctx.st.bools.items():
        if any(isinstance(x, tuple) and x and pred(x) for x in subterms(t)):
            return v
    return None


def servers(c):
    AS, BS, TS = 'cbdc::rpc::async_server', 'cbdc::rpc::blocking_server', 'cbdc::rpc::tcp_server'
    CB = F('m_callback')
    req = decoded(A(0))
    hdr = fld_of('m_header', req)
    raw = typed = 0
    for u in c.fns(AS + '::async_call'):
        israw = 'async_server<cbdc::buffer, cbdc::buffer' in u.f['id']
        cb = invoke(CB)
        answered = ('call', 'invoke', ANY, ANY)
        head = req if israw else hdr
        fail = reply_of(head, NONE)
        c.cases(u, 'asynchronous server', [
            ('undecodable', Not(Ok('from_buffer')), [Never(invoke()), Ret(NONE)]),
            ('request', Ok('from_buffer'), [exactly(cb, is_(A(0)) if israw else fld_of('m_payload', req)), Never(invoke(PR(lambda t: t != CB)))])])
        for p in u.rets:
            e = enc(p, cb)
            if len(e) != 1:
                continue
            r = p.st.known(result_inv(e[0].ev))
            if r is None:
                c.ob('asynchronous server', False, c.where(u, p), 'a handler refusing the request goes unnoticed', p)
            elif r:
                c.expect(u, 'asynchronous server [accepted]', [Ret(NONE)], p)
            else:
                c.expect(u, 'asynchronous server [refused]', [Ret(PR(lambda t: is_some(t) or is_call(t, 'make_buffer'))), Ret(fail)], p)
        for s, k in c.closures(u, cb):
            a = A(0, k.depth)
            if israw:
                raw += 1
                c.cases(k, 'asynchronous response', [
                    ('response', Has(a), [exactly(invoke(A(1)), is_(a))]),
                    ('none', Not(Has(a)), [exactly(invoke(A(1)), fail)])])
            else:
                typed += 1
                c.every(k, 'asynchronous response', exactly(invoke(A(1)), reply_of(hdr, PR(lambda t: t == a or bare(t) == a or t == NONE))),
                        lambda p: None if all(reply_carries(p, s.ev.args[0], a) for s in enc(p, invoke(A(1)))) else 'drops the response')
            c.every(k, 'asynchronous response', Never(invoke(PR(lambda t: t != A(1)))))
    c.ob('asynchronous server', raw > 0 and typed > 0, 'async_server.hpp:0', 'both kinds of server are not found')
    for u in c.fns(BS + '::blocking_call'):
        cb = invoke(CB)
        c.cases(u, 'blocking server', [
            ('undecodable', Not(Ok('from_buffer')), [Never(invoke()), Ret(NONE)]),
            ('request', And(Ok('from_buffer'), Has(CB)), [exactly(cb, fld_of('m_payload', req)), Ret(reply_of(hdr, PR(lambda t: t[0] == 'call' and t[1] == 'invoke' and t[2][0] == CB)))]),
            ('no handler', And(Ok('from_buffer'), Not(Has(CB))), [Never(invoke()), Ret(reply_of(hdr, NONE))])])
    for u in c.fns(TS + '::init', opaque=['async_call', 'blocking_call']):
        st = call('connection_manager::start_server')
        c.every(u, 'server start', exactly(st, F('m_listen_endpoint')))
        c.cases(u, 'server start', [('started', Ok('connection_manager::start_server'), [Ret(TRUE), Final(F('m_handler_thread'), PR(lambda t: is_call(t, 'connection_manager::start_server') or any(is_call(x, 'connection_manager::start_server') for x in subterms(t))))]),
                                    ('not started', Not(Ok('connection_manager::start_server')), [Ret(FALSE)])])
        blocking = 'blocking_server' in u.f['id']
        for s, k in c.closures(u, st):
            m = A(0, k.depth)
            pkt = PR(lambda t: bare(t) == F('m_pkt', m) or (t[0] == 'deref' and bare(t[1]) == F('m_pkt', m)))
            if blocking:
                bc = call('blocking_server::blocking_call')
                c.every(k, 'server request', exactly(bc, pkt), lambda p: None if is_call(p.ret, 'blocking_server::blocking_call') else 'returns something else')
            else:
                ac = call('async_server::async_call')
                c.every(k, 'server request', exactly(ac, pkt), lambda p: None if is_call(p.ret, 'async_server::async_call') else 'returns something else')
                for s2, k2 in c.closures(k, ac):
                    snd = call('connection_manager::send')
                    r = A(0, k2.depth)
                    c.every(k2, 'server response', exactly(snd, ANY, PR(lambda t: bare(t) == F('m_peer_id', m))),
                            lambda p: None if all(held(s.ev.st, s.ev.args[0]) == r for s in enc(p, snd)) else 'sends something else')
    for u in c.fns(TS + '::~tcp_server'):
        cl, jn = call('connection_manager::close'), call('thread::join')
        c.every(u, 'server end', exactly(cl), NotAfter(cl, jn))


def result_inv(ev):
    if isinstance(ev.ret, tuple) and ev.ret and ev.ret[0] == 'call':
        return ev.ret
    return ('call', 'invoke', (ev.obj,) + tuple(ev.args), 0)


def reply_carries(p, t, a):
    t = bare(t)
    v = dict(t[2][0][2]).get('m_payload')
    if v == a or bare(v) == a:
        return True
    return v == NONE and holds(Has(a), Ctx(p.st, p.items)) is False


def awaits(c, u, p, rule, muts, cond, msg):
    """every wait of the path holds the mutex and goes on exactly when cond(this)"""
    n = 0
    for s in enc(p, M(lambda ev: ev.kind == 'wait', 'wait')):
        n += 1
        c.ob(rule, any(match(m, l[0], {}) for m in muts for l in s.ev.st.locks), c.where(u, p, ('', s.ev)), 'waits without the mutex', p)
        lams = list(lams_of(s.ev))
        for lam in lams:
            for w in u.I.run_closure(lam, st=s.ev.st, later=True, depth=0):
                for w in split_path(u, w):
                    want = holds(cond(('this', 0)), Ctx(w.st, w.items))
                    got = True if w.ret == TRUE else False if w.ret == FALSE else w.st.known(w.ret)
                    c.ob(rule, want is not None and got is want, c.where(u, p, ('', s.ev)), msg, p)
        if not lams:
            # written as a loop around the wait
            e = s.loops[-1] if s.loops else None
            c.ob(rule, bool(e) and holds(cond(('this',)), Ctx(s.ev.st, e.items if hasattr(e, 'items') else p.items)) is False, c.where(u, p, ('', s.ev)), msg, p)
    return n


# -- packets
NF = ['util/network/connection_manager.cpp', 'util/network/peer.cpp', 'util/network/tcp_socket.cpp', 'util/network/tcp_listener.cpp',
      'util/network/socket.cpp', 'util/network/socket_selector.cpp']


def rounds(p):
    """one generic round of the path's outer loop each, and what is outside"""
    out = []
    for it in p.items:
        if it.kind == 'loop' and it.dom[0] == 'while':
            for e in it.edges:
                out.append(('round', EdgePath(e)))
        else:
            out.append(it)
    rest = EdgePath(p)
    rest.items = [x for x in out if not isinstance(x, tuple)]
    rest.ret = getattr(p, 'ret', VOID)
    return [x[1] for x in out if isinstance(x, tuple)], rest


def of_each(C, f='m_peer'):
    return PR(lambda t: bare(t)[0] == 'fld' and bare(t)[2] == f and mentions_t(t, C))


@prop('N02', files=NF)
def n02(c):
    """received packets: each handled once, in order per connection, answered to its sender"""
    Q, D, MUT, RUN, P_ = F('m_async_recv_queues'), F('m_async_recv_data'), F('m_async_recv_mut'), F('m_running'), F('m_peers')
    notify = call(['condition_variable::notify_one', 'condition_variable::notify_all'])
    # -- the receive callback of a connection
    for a in ('add',):
        u = c.fn(CM + '::' + a)
        newp = call('new cbdc::network::peer')
        nid = F('m_next_peer_id')
        c.every(u, 'new connection', Does(push(Q)), Before(push(Q), newp), exactly(newp, A(0), ANY, A(1)), Ret(is_(nid)), Final(nid, PR(lambda v: v != nid)))
        c.cases(u, 'new connection', [
            ('running', RUN, [lambda p: None if len(enc(p, push(P_))) == 1 else 'the connection is not kept',
                              lambda p: None if all(peer_entry(s.ev, nid) for s in enc(p, push(P_))) else 'the connection is kept under another identifier']),
            ('closed', Not(RUN), [Never(push(P_))])])
        c.atomically(CM, a, 'm_next_peer_id')
        for s, k in c.closures(u, newp):
            me = ('this', k.depth)
            q, data = F('m_async_recv_queues', me), F('m_async_recv_data', me)
            mine = PR(lambda t: t[0] == 'at' and unver(t[1]) == q and queue_of_own(t[2], Q))

            def kept(p):
                e = enc(p, M(lambda ev: ev.kind == 'mut' and mentions_t(ev.obj, q), 'queue'))
                if len(e) != 1 or e[0].loops or e[0].ev.q not in ('push_back', 'emplace', 'push'):
                    return 'the packet is not queued exactly once'
                ev = e[0].ev
                if not match(mine, ev.obj, {}):
                    return ('the packet is queued on another queue', ev)
                d = dict(ev.args[0][2]) if ev.args[0][0] == 'obj' else {}
                if bare(d.get('m_pkt', VOID)) != A(0, k.depth):
                    return ('another packet is queued', ev)
                if bare(d.get('m_peer_id', VOID)) != nid:
                    return ('the packet is queued for another sender', ev)
                return None
            w = M(lambda ev: ev.kind in ('set', 'mut') and mentions_t(ev.obj, me), 'change the queues')
            c.every(k, 'packet received', kept, Final(data, TRUE), Does(notify), NotAfter(w, notify))
            c.locked(k, 'packet received', w, F('m_async_recv_mut', me))
    # -- taking the packets out
    u = c.fn(CM + '::handle_messages')
    c.every(u, 'packets taken', lambda p: taken(p, Q, D))
    c.locked(u, 'packets taken', touches(Q) | touches(D), MUT)
    for p in u.paths:
        awaits(c, u, p, 'packets awaited', [MUT], lambda me: Or(Not(F('m_running', me)), F('m_async_recv_data', me)), 'waits for something else than data or the end')
    # -- the handler thread
    u = c.fn(CM + '::start_handler', opaque=['handle_messages', 'send'])
    for s, k in c.closures(u, thread):
        me = ('this', k.depth)
        hm, snd, h = call('connection_manager::handle_messages'), call('connection_manager::send'), invoke(A(0))
        pk = lambda t: PR(lambda v: bare(v) == t)

        def one(e):
            if holds(RUN_(me), Ctx(e.st, e.items)) is not True:
                return 'goes on after the end'
            if len(must(e.items, hm)) != 1:
                return 'does not take the packets once per round'

            def each(x):
                def f(z):
                    there = z.st.known(('has', F('m_pkt', x.e)))
                    hs = must(z.items, h)
                    if there is False:
                        return 'handles an empty packet' if hs else None
                    if len(hs) != 1 or bare(hs[0].args[0]) != x.e:
                        return 'a packet is not handled exactly once'
                    r = result_inv(hs[0])
                    ans = z.st.known(('has', r))
                    ss = must(z.items, snd)
                    if ans is False:
                        return 'an answer is made up' if ss else None
                    if len(ss) != 1:
                        return 'an answer is not sent'
                    b, pid = ss[0].args[:2]
                    if bare(held(ss[0].st, b)) != r:
                        return ('another answer is sent', ss[0])
                    if bare(pid) != F('m_peer_id', x.e):
                        return ('the answer goes to another peer', ss[0])
                    return None
                return [f]
            return Each(PR(lambda t: is_call(t, 'connection_manager::handle_messages') or is_call(bare(t), 'connection_manager::handle_messages')), each)(e)
        n = 0
        for p in k.rets:
            rs, rest = rounds(p)
            for e in rs:
                n += 1
                c.expect(k, 'packets handled', [one], e)
            c.expect(k, 'packets handled', [Never(h), Never(snd), Never(hm)], rest)
            c.ob('packets handled', holds(RUN_(me), Ctx(p.st, p.items)) is False, c.where(k, p), 'the handler ends while the connections are open', p)
        c.ob('packets handled', n > 0, c.where(k), 'the handler never takes a packet')
    # -- sending
    psend = call('peer::send')
    u = c.fn(CM + '::send', by('peer_id_t') if False else lambda f: any('shared_ptr' in str(x.get('t')) for x in f['params']))
    el = lambda x: F('m_peer_id', x.e)
    hit = Any(P_, lambda x: Eq(el(x), A(1)))

    def to_it(p):
        e = enc(p, psend)
        if len(e) != 1 or e[0].loops:
            return 'the packet is not sent exactly once'
        t = unver(e[0].ev.obj)
        while t[0] in ('deref',):
            t = t[1]
        x = t[1] if t[0] == 'fld' and t[2] == 'm_peer' else None
        if x is None or holds(Eq(F('m_peer_id', x), A(1)), e[0].ctx) is not True:
            return ('the packet goes to another peer', e[0].ev)
        return None if e[0].ev.args[0] == A(0) else ('another packet is sent', e[0].ev)

    def peerless(ctx):
        for t, v in ctx.st.bools.items():
            if t[0] == 'has' and t[1][0] == 'fld' and t[1][2] == 'm_peer':
                return not v
        return None
    c.cases(u, 'send', [
        ('known peer', And(hit, Not(peerless)), [to_it]),
        ('unknown peer', Not(hit), [Never(psend)])], total=False)
    c.locked(u, 'send', M(lambda ev: ev.kind == 'loop', 'x'), F('m_peer_mutex'), need=False)
    u = c.fn(CM + '::broadcast', lambda f: any('shared_ptr' in str(x.get('t')) for x in f['params']))
    c.every(u, 'broadcast', Each(P_, lambda x: [lambda e: None if [1 for i in must(e.items, psend) if unver(i.obj) == F('m_peer', x.e) and i.args[0] == A(0)] and len(must(e.items, psend)) == 1 else 'not every peer gets the packet once']))
    u = c.fn(CM + '::send_to_one', lambda f: any('shared_ptr' in str(x.get('t')) for x in f['params']), eventful=['peer::connected'])

    def one_connected(p):
        e = enc(p, psend)
        if p.ret == FALSE:
            return ('says nothing was sent', e[0].ev) if e else None
        if len(e) != 1 or e[0].loops or e[0].ev.args[0] != A(0):
            return 'does not send the packet exactly once'
        con = [s for s in enc(p, call('peer::connected')) if s.ev.obj == e[0].ev.obj and not s.loops]
        return None if con and e[0].ev.st.known(result(con[-1].ev)) is True else ('sends to a peer that is not connected', e[0].ev)
    c.every(u, 'send to one', one_connected, Ret(PR(lambda t: t in (TRUE, FALSE))))
    # none sent only after every peer turned out not to be connected
    for p in u.rets:
        if p.ret == FALSE:
            good = p.st.known(compare('==', ('size', P_), ('i', 0))) is True or any(
                it.kind == 'loop' and it.mode == 'all' and covers(it, P_) and it.edges and
                all(any(is_call(t, 'peer::connected') and not v for t, v in e.st.bools.items()) for e in it.edges) for it in p.items)
            c.ob('send to one', good, c.where(u, p), 'gives up before every peer was tried', p)
    # -- connecting and serving
    u = c.fn(CM + '::cluster_connect', opaque=['add'])
    con, add = call('tcp_socket::connect'), call('connection_manager::add')

    def joined(x):
        def f(e):
            k = must(e.items, con)
            if len(k) != 1 or bare(k[0].args[0]) != x.e:
                return 'an endpoint is not connected to'
            a = must(e.items, add)
            up = e.st.known(result(k[0]))
            if len(a) != 1 or bare(a[0].args[0]) != bare(k[0].obj):
                return 'an endpoint gets no connection'
            if up is not True and e.st.known(A(1)) is not False:
                return 'goes on although an endpoint cannot be reached'
            if len(a[0].args) > 1 and a[0].args[1] != TRUE:
                return 'the connection would not be re-established'
            return None
        return [f]
    for p in u.rets:
        if p.ret == TRUE:
            c.expect(u, 'connect', [Each(A(0), joined)], p)
        else:
            f = [s for s in enc(p, con) if not s.loops]
            c.ob('connect', p.ret == FALSE and len(f) == 1 and p.st.known(result(f[0].ev)) is False and p.st.known(A(1)) is True, c.where(u, p), 'refuses without an unreachable endpoint', p)
    u = c.fn(CM + '::pump', opaque=['add'], eventful=['tcp_listener::accept'])
    acc = call('tcp_listener::accept')
    for p in u.rets:
        rs, rest = rounds(p)
        for e in rs:
            a, k = must(e.items, add), must(e.items, acc)
            up = [e.st.known(result(x)) for x in k]
            c.ob('accept', len(k) <= 1 and len(a) == len(k) and all(up), c.where(u, p), 'an accepted connection is not added', p)
            for x in a:
                c.ob('accept', len(x.args) > 1 and x.args[1] == FALSE, c.where(u, p, ('', x)), 'an accepted connection would be reconnected', p)
    c.discipline(CM, ['m_async_recv_mut'], ['m_async_recv_queues', 'm_async_recv_data'])
    c.discipline(CM, ['m_peer_mutex'], ['m_peers', 'm_rnd'])


def covers(lp, C):
    """the loop runs over all positions of C"""
    d = lp.dom
    return d[0] in ('each', 'range') and (match(C, d[1], {}) or mentions_t(d, C))


def RUN_(me):
    return F('m_running', me)


def peer_entry(ev, nid):
    a = ev.args[0]
    d = dict(a[2]) if a[0] == 'obj' else {}
    return bare(d.get('m_peer_id', VOID)) == nid and d.get('m_peer', VOID)[0] == 'heap' and 'peer' in d['m_peer'][1]


def queue_of_own(i, Q):
    """the index of the queue appended for this connection"""
    c_, d = lin(i)
    if c_ != -1 or len(d) != 1:
        return False
    (t, k), = d.items()
    return k == 1 and t[0] == 'size' and t[1][0] == 'ver' and t[1][1] == Q


def taken(p, Q, D):
    for lp in loops(p.items, Q):
        if lp.mode != 'all':
            continue
        x = X(lp.dom, lp.L)
        for e in lp.edges:
            pu = [i for i in e.items if i.kind == 'mut' and i.q in ('push_back', 'emplace') and i.obj != x.e]
            po = [i for i in e.items if i.kind == 'mut' and unver(i.obj) == x.e]
            size = ('size', x.e)
            some = e.st.known(compare('==', size, ('i', 0)))
            if not po:
                if some is not True or pu:
                    return 'a waiting packet is left behind' if not pu else 'a packet is made up'
                continue
            if len(po) != 1 or po[0].q not in ('pop', 'pop_front') or len(pu) != 1:
                return ('not exactly one packet is taken from a queue', po[0])
            if pu[0].args[0] != ('front', x.e) and not (pu[0].args[0][0] == 'front' and unver(pu[0].args[0][1]) == x.e):
                return ('another packet than the first is taken', pu[0])
            if e.items.index(pu[0]) > e.items.index(po[0]):
                return ('the packet is taken after it was dropped', pu[0])
            if p.ret != ('lv', pu[0].obj, lp.L) and unver(p.ret) != pu[0].obj and not mentions_t(p.ret, pu[0].obj):
                return ('the packet is not returned', pu[0])
            left = ('size', e.st.load(x.e))
            more = e.st.known(compare('==', left, ('i', 0)))
            d = e.st.load(D)
            if more is not True and d != TRUE:
                return ('packets left behind are forgotten', po[0])
        return None
    return 'the queues are not all looked at'


# -- frames
def pos(t):
    """(base, offset) of a pointer"""
    if t[0] == 'at':
        return unver(t[1]), t[2]
    if t[0] == 'call' and t[1].endswith('::data_at'):
        return t[2][0], t[2][1]
    if t[0] == 'lin':
        ptr = [k for k, v in t[2] if v == 1]
        return (ptr[0] if ptr else t), t
    if t[0] == 'lv':
        return t[1], ('i', 0)
    return t, ('i', 0)


def rest_of(n):
    """the bytes left, of a length possibly limited to the size of a buffer"""
    rest = [x for x in n[2] if x[0] != 'size'] if is_call(n, 'min') else []
    return rest[0] if len(rest) == 1 else n


def transfer(lp, q, whole):
    """the loop hands every byte of the range on, whatever part each call of q
    moves; returns (error, base, length at entry)"""
    base = total = None
    for e in lp.edges:
        k = [i for i in allev(e.items) if i.kind == 'call' and i.q == q]
        if len(k) != 1:
            return 'not one %s per round' % q, None, None
        fd, ptr, n = k[0].args[:3]
        r = result(k[0])
        if fd != F('m_sock_fd'):
            return 'another descriptor is used', None, None
        if e.st.known(compare('>', r, ('i', 0))) is not True:
            return 'goes on after %s failed' % q, None, None

        def later(t):
            return e.st.load(t[1]) if t[0] == 'lv' and t[2] == lp.L and t[1][0] == 'loc' and not isinstance(t[1], str) else None

        def first(t):
            return lp.st.load(t[1]) if t[0] == 'lv' and t[2] == lp.L and t[1][0] == 'loc' else None
        n = rest_of(n)
        n2 = subst(n, later)
        if l_add(n, r, -1) != n2 and l_add(l_add(n, r, -1), n2, -1) != ('i', 0):
            return 'the rest is %s after a part' % pp(n2), None, None
        b, o = pos(ptr)
        ap = [i for i in allev(e.items) if i.kind == 'call' and i.q.endswith('buffer::append')]
        if whole == 'append':
            if o != ('i', 0) or len(ap) != 1 or ap[0].obj != A(0) or unver(ap[0].args[0]) != b or ap[0].args[1] != r:
                return 'a received part is not appended', None, None
        else:
            o2 = subst(o, later)
            if l_add(o2, o, -1) != r and l_add(l_add(o2, o, -1), r, -1) != ('i', 0):
                return 'the next part starts elsewhere', None, None
            o1 = subst(o, first)
            if o[0] != 'lin' or b not in dict(o[2]):
                if l_add(o1, ('i', 0)) != ('i', 0):
                    return 'the transfer does not start at the beginning', None, None
        base, total = b, subst(n, first)
    if base is None:
        return 'nothing is transferred', None, None
    return None, base, total


def is8(t):
    return lin(t) == (8, {})


@prop('N03', files=NF)
def n03(c):
    """frames"""
    T = NET + 'tcp_socket'
    FD = F('m_sock_fd')
    # -- sending: the size, then the data, completely
    u = c.fn(T + '::send', lambda f: any('buffer' in str(x.get('t')) for x in f['params']), eventful=['write', '::write'])
    size = ('call', 'cbdc::buffer::size', (A(0),), 0)
    n = 0
    for p in u.rets:
        ls = [i for i in p.items if i.kind == 'loop']
        io = [i for i in p.items if i.kind == 'call' and i.q == 'write']
        if p.ret == TRUE:
            n += 1
            bad = None
            if len(ls) != 2 or any(l.mode != 'all' for l in ls) or io:
                bad = 'says the packet is sent without having sent its size and data'
            else:
                e1, b1, t1 = transfer(ls[0], 'write', 'move')
                e2, b2, t2 = transfer(ls[1], 'write', 'move')
                bad = e1 or e2
                if not bad and not (is8(t1) and (p.st.load(b1) == size or mentions_t(p.st.load(b1), size))):
                    bad = 'the packet is not preceded by its size in 8 bytes'
                if not bad and not (t2 == size and (b2 == A(0) or mentions_t(b2, A(0)))):
                    bad = 'not the whole packet is sent'
                for l in ls:
                    if not bad and not drained(p, l, 'write'):
                        bad = 'stops before everything is sent'
            c.ob('frame sent', not bad, c.where(u, p), bad or '', p)
        else:
            c.ob('frame sent', p.ret == FALSE and len(io) == 1 and p.st.known(compare('<=', result(io[0]), ('i', 0))) is True, c.where(u, p), 'reports a failure that did not happen', p)
    c.ob('frame sent', n > 0, c.where(u), 'never sends')
    # -- receiving
    u = c.fn(T + '::receive', lambda f: any('buffer' in str(x.get('t')) for x in f['params']), eventful=['read', '::read'])
    n = 0
    for p in u.rets:
        ls = [i for i in p.items if i.kind == 'loop']
        io = [i for i in p.items if i.kind == 'call' and i.q == 'read']
        if p.ret == TRUE:
            n += 1
            bad = None
            if len(ls) != 2 or any(l.mode != 'all' for l in ls) or io:
                bad = 'says a packet was received without its size and data'
            else:
                e1, b1, t1 = transfer(ls[0], 'read', 'move')
                app = any(i.kind == 'call' and i.q.endswith('buffer::append') for i in allev([ls[1]]))
                e2, b2, t2 = transfer(ls[1], 'read', 'append' if app else 'move')
                bad = e1 or e2
                if not bad and not is8(t1):
                    bad = 'the size is not read from 8 bytes'
                if not bad and not (mentions_t(t2, b1) or any(is_call(x, 'bytes') for x in subterms(t2))):
                    bad = 'not as many bytes as announced are read'
                if not bad and not only_bytes(t2):
                    bad = 'not exactly as many bytes as announced are read'
                i = p.items.index(ls[1])
                if not bad and app and not any(x.kind == 'call' and x.q.endswith('buffer::clear') and x.obj == A(0) for x in p.items[:i]):
                    bad = 'the packet keeps what was in the buffer before'
                for l in ls:
                    if not bad and not drained(p, l, 'read'):
                        bad = 'stops before everything is received'
                if not bad and any(x.kind in ('call', 'mut', 'set') and x.obj == A(0) and not x.q.endswith(('clear', 'append', 'extend')) for x in p.items):
                    bad = 'the packet is changed'
            c.ob('frame received', not bad, c.where(u, p), bad or '', p)
        else:
            c.ob('frame received', p.ret == FALSE and len(io) == 1 and p.st.known(compare('<=', result(io[0]), ('i', 0))) is True, c.where(u, p), 'reports a failure that did not happen', p)
    c.ob('frame received', n > 0, c.where(u), 'never receives')
    # -- descriptors: open and connected together, closed once
    cl, sh = call('close', kinds=('call',)), call('shutdown')
    fd_cl = M(lambda e: e.kind == 'call' and e.q == 'close', 'close')
    fd_sh = M(lambda e: e.kind == 'call' and e.q == 'shutdown', 'shut down')
    for q, extra in ((T + '::disconnect', [Final(F('m_connected'), FALSE)]), (NET + 'tcp_listener::close', [])):
        u = c.fn(q)
        c.cases(u, 'closing', [
            ('open', Ne(FD, ('i', -1)), [exactly(fd_cl, FD), exactly(fd_sh, FD), Before(fd_sh, fd_cl), Final(FD, ('i', -1))] + extra),
            ('closed', Eq(FD, ('i', -1)), [Never(fd_cl), Never(fd_sh)])])
    con = M(lambda e: e.kind == 'call' and e.q == 'connect', 'connect')
    u = c.fn(T + '::connect', lambda f: len(f['params']) == 2, opaque=['get_addrinfo'])
    c.every(u, 'connecting', Final(F('m_addr'), is_(A(0))), Final(F('m_port'), A(1)))
    for p in u.rets:
        socks(c, u, p, con, 'connecting')
        c.ob('connecting', p.st.load(F('m_connected')) == p.ret or (p.ret == FALSE and not enc(p, con) and p.st.load(F('m_connected')) in (FALSE, F('m_connected'))) or p.st.known(p.st.load(F('m_connected'))) is (p.ret == TRUE),
             c.where(u, p), 'the socket does not say whether it is connected', p)
    u = c.fn(T + '::connect', lambda f: len(f['params']) == 1, opaque=['tcp_socket::connect'])
    cc = call('tcp_socket::connect')
    c.every(u, 'connecting', exactly(cc, F('first', A(0)), F('second', A(0))), Returns(cc))
    u = c.fn(T + '::reconnect', opaque=['tcp_socket::connect', 'disconnect'])
    d = call('tcp_socket::disconnect')
    c.cases(u, 'reconnecting', [
        ('never connected', Not(Has(F('m_addr'))), [Never(cc), Ret(FALSE)]),
        ('known endpoint', Has(F('m_addr')), [exactly(cc, is_(F('m_addr')), F('m_port')), Returns(cc), exactly(d), Before(d, cc)])])
    u = c.fn(T + '::connected')
    c.every(u, 'connected', Ret(PR(lambda t: t in (TRUE, FALSE, F('m_connected')))), lambda p: None if p.ret == F('m_connected') or p.st.known(F('m_connected')) is (p.ret == TRUE) else 'says something else than m_connected')
    u = c.fn(NET + 'tcp_listener::listen', opaque=['get_addrinfo'])
    lis = M(lambda e: e.kind == 'call' and e.q == 'listen', 'listen')
    bind = M(lambda e: e.kind == 'call' and e.q == 'bind', 'bind')
    for p in u.rets:
        socks(c, u, p, lis, 'listening')
        c.expect(u, 'listening', [Before(bind, lis)], p)
    u = c.fn(NET + 'tcp_listener::accept')
    acc = M(lambda e: e.kind == 'call' and e.q == 'accept', 'accept')
    fd = F('m_sock_fd', A(0))
    c.every(u, 'accepting', exactly(acc, FD), lambda p: None if p.st.load(fd) == result(enc(p, acc)[0].ev) and p.st.known(compare('!=', p.st.load(fd), ('i', -1))) is (p.ret == TRUE) else 'the accepted connection is not reported')
    u = c.fn(T + '::~tcp_socket', opaque=['disconnect'])
    c.every(u, 'closing', exactly(d))
    u = c.fn(NET + 'tcp_listener::~tcp_listener', opaque=['tcp_listener::close'])
    c.every(u, 'closing', exactly(call('tcp_listener::close')))
    # a peer that went away must not end the process
    u = c.fn(NET + 'socket::socket', eventful=['signal', 'std::signal'])
    sig = M(lambda e: e.kind == 'call' and e.q in ('signal', 'std::signal'), 'ignore SIGPIPE')
    c.ob('broken pipes', any(enc(p, sig) for p in u.rets), c.where(u), 'SIGPIPE is not ignored')
    for p in u.rets:
        for s in enc(p, sig):
            c.ob('broken pipes', s.ev.args[0] == ('i', 13) and lin(s.ev.args[1])[0] == 1 or 'SIG_IGN' in repr(s.ev.args[1]) or '1' in repr(s.ev.args[1]), c.where(u, p, ('', s.ev)), 'another signal or handler', p)


def only_bytes(t):
    """the announced size, nothing added"""
    c_, d = lin(t)
    return c_ == 0 and len(d) == 1 and list(d.values()) == [1]


def drained(p, lp, q):
    """nothing is left when the loop ends"""
    for e in lp.edges:
        for i in allev(e.items):
            if i.kind == 'call' and i.q == q:
                n = rest_of(i.args[2])
                if p.st.known(compare('<=', n, ('i', 0))) is not True:
                    # the counter after the loop may have been overwritten since
                    if not any(known_zero(p, n) for _ in (0,)):
                        return False
    return True


def known_zero(p, n):
    return p.st.known(compare('==', n, ('i', 0))) is True


def socks(c, u, p, act, rule):
    """trying the addresses in turn: a descriptor that does not work is closed"""
    FD = F('m_sock_fd')
    for it in p.items:
        if it.kind == 'loop':
            for e in it.edges:
                k = must(e.items, act)
                end = e.st.load(FD)
                opened = [i for i in e.items if i.kind == 'set' and i.obj == FD and i.args[0][0] == 'call']
                if opened:
                    fd = opened[-1].args[0]
                    live = e.st.known(compare('!=', fd, ('i', -1)))
                    if live is not False:
                        closed = [i for i in e.items if i.kind == 'call' and i.q == 'close' and i.args[0] == fd]
                        c.ob(rule, len(closed) == 1 and end == ('i', -1), c.where(u, p), 'a socket that does not work stays open', p)
    last = [s for s in enc(p, act) if not s.loops]
    fdv = p.st.load(FD)
    if last:
        r = result(last[0].ev)
        good = p.st.known(compare('==', r, ('i', 0))) is True
        c.ob(rule, good and last[0].ev.args[0] == fdv, c.where(u, p, ('', last[0].ev)), 'stops at a socket that does not work', p)
        c.ob(rule, p.ret == TRUE or p.st.known(compare('!=', fdv, ('i', -1))) is not True, c.where(u, p), 'success is not reported', p)
    else:
        c.ob(rule, p.ret == FALSE or p.st.known(compare('==', fdv, ('i', -1))) is not True and p.ret == TRUE and fdv != ('i', -1), c.where(u, p), 'success is reported without a socket', p)


# -- peers
def segments(k):
    """what happens between two loop heads: every loop round, and every end"""
    out = []

    def go(p, tail):
        rest = EdgePath(p)
        rest.items = [i for i in p.items if i.kind != 'loop']
        out.append((rest, tail))
        for i in p.items:
            if i.kind == 'loop':
                for e in i.edges:
                    go(EdgePath(e), False)
    for p in k.rets:
        go(p, True)
    return out


def inner(e):
    return [i for it in e.items if it.kind == 'loop' for i in it.edges]


def started(f):
    """the thread is kept in field f"""
    return lambda p: None if any(x.kind == 'thread' for x in p.items) and thread_in(p.st.load(F(f))) else 'the thread is not kept in ' + f


def thread_in(v):
    return any(isinstance(x, tuple) and x[:1] and x[0] in ('thread', 'new', 'obj', 'lam') or is_lam(x) for x in subterms(v)) and v[0] != 'fld'


def is_lam(x):
    return isinstance(x, tuple) and len(x) > 0 and x[0] in ('lam', 'closure')


@prop('N04', files=NF)
def n04(c):
    """connections"""
    RUN, SHUT, RECON = 'm_running', 'm_shut_down', 'm_reconnect'
    Q, SOCK = F('m_send_queue'), F('m_sock')
    sig, cl = call('peer::signal_reconnect'), call('peer::close')
    psh, pop, clr, rst = (call('blocking_queue_internal::' + x) for x in ('push', 'pop', 'clear', 'reset'))
    notify = call(['condition_variable::notify_one', 'condition_variable::notify_all'])
    jn = call('thread::join')
    low = ['signal_reconnect', 'peer::close', 'do_send', 'do_recv', 'do_reconnect', 'blocking_queue']
    # -- queueing a packet
    u = c.fn(PEER + '::send', opaque=low)
    c.cases(u, 'send', [('open', Not(F(SHUT)), [exactly(psh, A(0)), lambda p: None if all(s.ev.obj == Q for s in enc(p, psh)) else 'queued elsewhere']),
                        ('shut down', F(SHUT), [Never(psh)])])
    u = c.fn(PEER + '::connected')
    c.every(u, 'connected', lambda p: None if p.ret in (TRUE, FALSE) else 'unclear')
    c.cases(u, 'connected', [
        ('yes', And(Not(F(SHUT)), F(RUN), lambda ctx: any_true(ctx, lambda t: is_call(t, 'tcp_socket::connected'))), [Ret(TRUE)]),
        ('no', Or(F(SHUT), Not(F(RUN)), Not(lambda ctx: any_true(ctx, lambda t: is_call(t, 'tcp_socket::connected')))), [Ret(FALSE)])])
    u = c.fn(PEER + '::signal_reconnect')
    c.every(u, 'connection lost', Final(F(RECON), TRUE), Does(notify), NotAfter(M(lambda e: e.kind == 'set', 'set'), notify))
    c.locked(u, 'connection lost', sets(F(RECON)), F('m_reconnect_mut'))
    # -- the sending thread
    n = 0
    u = c.fn(PEER + '::do_send', opaque=low, eventful=['tcp_socket::send'])
    snd = call('tcp_socket::send')
    for s, k in c.closures(u, thread):
        n += 1
        me = ('this', k.depth)
        for e, tail in segments(k):
            po, se, si = (must(e.items, m) for m in (pop, snd, sig))
            w = lambda x: c.where(k, e, ('', x[0])) if x else c.where(k, e)
            c.ob('packets sent', not must(e.items, psh), w(po), 'a packet is queued again', e)
            c.ob('packets sent', len(po) <= 1 and all(x.obj[:3] == F('m_send_queue', me) or unver(x.obj) == F('m_send_queue', me) for x in po), w(po), 'takes more than one packet', e)
            got = po and e.st.known(result(po[0]))
            pk = ('out', result(po[0]), 0, 1) if po else None
            real = got and any(is_out(x, po[0]) and e.st.known(('has', x)) is True for x in outs(e, po[0]))
            want = 1 if real else 0
            c.ob('packets sent', len(se) == want, w(se or po), 'a queued packet is not sent exactly once', e)
            for x in se:
                c.ob('packets sent', unver(x.obj) == F('m_sock', me) and po and is_out(bare(x.args[0]), po[0]), w([x]), 'another packet is sent', e)
                ok_ = e.st.known(result(x))
                c.ob('packets sent', (ok_ is False and tail and len(si) == 1) or (ok_ is True and not tail and not si), w([x]), 'a failed send does not end in exactly one reconnection', e)
            if not se:
                c.ob('packets sent', not si, w(si), 'reconnects without a failed send', e)
                if tail:
                    c.ob('packets sent', e.st.known(F(RUN, me)) is False or got is False, w(po), 'stops sending while the connection is open', e)
    c.ob('packets sent', n > 0, c.where(u), 'no sending thread')
    c.every(u, 'packets sent', kept_thread('m_send_thread'))
    # -- the receiving thread
    n = 0
    u = c.fn(PEER + '::do_recv', opaque=low, eventful=['tcp_socket::receive'])
    rcv = call('tcp_socket::receive')
    for s, k in c.closures(u, thread):
        n += 1
        me = ('this', k.depth)
        cb = invoke(F('m_recv_cb', me))
        for e, tail in segments(k):
            re_, ca, si = (must(e.items, m) for m in (rcv, cb, sig))
            w = lambda x: c.where(k, e, ('', x[0])) if x else c.where(k, e)
            c.ob('packets received', len(re_) <= 1, w(re_), 'receives into more than one packet', e)
            c.ob('packets received', not [1 for x in allev(e.items) if x.kind == 'invoke' and x not in ca], w(ca), 'calls someone else', e)
            for x in re_:
                got = e.st.known(result(x))
                c.ob('packets received', unver(x.obj) == F('m_sock', me), w([x]), 'receives from another socket', e)
                c.ob('packets received', x.args[0][0] == 'obj' and len(x.args[0]) == 3, w([x]), 'receives into a packet that is in use', e)
                c.ob('packets received', (got is True and len(ca) == 1 and not tail and not si) or (got is False and not ca and tail and len(si) == 1), w([x]), 'a received packet is not delivered exactly once, or a failure not followed by exactly one reconnection', e)
                for y in ca:
                    c.ob('packets received', y.args[0][0] == 'heap' and 'buffer' in y.args[0][1] and fresh_each(k, y.args[0]), w([y]), 'delivers another packet than the one received', e)
            if not re_:
                c.ob('packets received', not ca and not si, w(ca or si), 'delivers a packet that was not received', e)
                if tail:
                    c.ob('packets received', e.st.known(F(RUN, me)) is False, c.where(k, e), 'stops receiving while the connection is open', e)
    c.ob('packets received', n > 0, c.where(u), 'no receiving thread')
    c.every(u, 'packets received', kept_thread('m_recv_thread'))
    # -- the reconnecting thread
    n = 0
    u = c.fn(PEER + '::do_reconnect', opaque=low)
    rec, ds, dr = call('tcp_socket::reconnect'), call('peer::do_send'), call('peer::do_recv')
    for s, k in c.closures(u, thread):
        n += 1
        me = ('this', k.depth)
        fl = lambda x: F(x, me)
        for p in k.rets:
            for w_ in range(1):
                awaits2(c, k, p, 'reconnection awaited', F('m_reconnect_mut', me))
            rs, rest = rounds(p)
            for e in rs:
                reround(c, k, e, me, cl, rec, ds, dr, False)
            reround(c, k, rest, me, cl, rec, ds, dr, True)
    c.ob('reconnecting', n > 0, c.where(u), 'no reconnecting thread')
    c.every(u, 'reconnecting', kept_thread('m_reconnect_thread'))
    # -- closing
    u = c.fn(PEER + '::close', opaque=['blocking_queue'])
    dis = call('tcp_socket::disconnect')
    js = lambda f: M(lambda e: e.kind == 'call' and e.q.endswith('thread::join') and unver(e.obj) == F(f), 'join ' + f)
    c.every(u, 'closing', Final(F(RUN), FALSE), exactly(dis), Does(clr), Does(rst), Before(sets(F(RUN)), jn, soft=True) if False else Before(sets(F(RUN)), dis), Before(dis, jn), Before(clr, jn), NotAfter(jn, rst), Never(psh))
    for f in ('m_send_thread', 'm_recv_thread'):
        c.cases(u, 'closing', [('running', lambda ctx: any_true(ctx, lambda t: t[0] == 'call' and t[1].endswith('joinable') and mentions_t(t, F(f))), [Does(js(f), 1)]),
                               ('not running', Not(lambda ctx: any_true(ctx, lambda t: t[0] == 'call' and t[1].endswith('joinable') and mentions_t(t, F(f)))), [Never(js(f))])])
    u = c.fn(PEER + '::shutdown', opaque=low)
    j = js('m_reconnect_thread')
    run_ = lambda ctx: any_true(ctx, lambda t: t[0] == 'call' and t[1].endswith('joinable') and mentions_t(t, F('m_reconnect_thread')))
    c.every(u, 'shutting down', Final(F(SHUT), TRUE), Does(notify), Before(sets(F(SHUT)), notify), Does(cl), NotAfter(j, cl))
    c.locked(u, 'shutting down', sets(F(SHUT)), F('m_reconnect_mut'))
    c.cases(u, 'shutting down', [('reconnecting thread', run_, [Does(j, 1), Before(notify, j)]), ('none', Not(run_), [Never(j)])])
    c.unlocked(u, 'shutting down', jn, F('m_reconnect_mut'))
    u = c.fn(PEER + '::~peer', opaque=['shutdown'])
    c.every(u, 'closing', exactly(call('peer::shutdown')))
    u = c.fn(PEER + '::peer', opaque=low)
    c.every(u, 'opening', exactly(ds), exactly(dr), exactly(call('peer::do_reconnect')))
    c.discipline(PEER, ['m_reconnect_mut'], ['m_reconnect'])
    # -- closing all of them
    u = c.fn(CM + '::close')
    P_ = F('m_peers')
    unb, lcl = call('socket_selector::unblock'), call('tcp_listener::close')
    psd = call('peer::shutdown')
    c.every(u, 'closing all', Final(F(RUN), FALSE), exactly(unb), exactly(lcl), Each(P_, lambda x: [lambda e: None if len(must(e.items, psd)) == 1 and unver(must(e.items, psd)[0].obj) == F('m_peer', x.e) else 'a connection is not shut down']),
            Does(notify), Before(sets(F(RUN)), psd), Before(psd, notify) if False else Before(sets(F(RUN)), notify))
    c.locked(u, 'closing all', sets(F(RUN)), F('m_async_recv_mut'))
    c.unlocked(u, 'closing all', psd, F('m_async_recv_mut'))
    u = c.fn(CM + '::connected')
    el = lambda x: F('m_peer_id', x.e)
    pc = call('peer::connected')


def kept_thread(f):
    def g(p):
        t = [x for x in p.items if x.kind == 'thread']
        if len(t) != 1:
            return 'not exactly one thread is started'
        v = p.st.load(F(f))
        return None if v != F(f) else ('the thread is not kept in ' + f, t[0])
    return g


def is_out(t, ev):
    """t is what ev wrote through its argument"""
    t = bare(t)
    if t[0] == 'deref':
        t = bare(t[1])
    return t[0] == 'out' and t[1] == result(ev)


def outs(e, ev):
    got = set()
    for t in e.st.bools:
        for x in subterms(t):
            if isinstance(x, tuple) and x[:1] == ('out',) and x[1] == result(ev):
                got.add(x)
    return got


def fresh_each(k, h):
    """the object is allocated in the round that uses it (not before the loop)"""
    for p in k.rets:
        for it in p.items:
            if it.kind == 'loop':
                v = it.st.load(h)
                if v != h and isinstance(v, tuple) and v[0] in ('obj', 'new') and 'buffer' in str(v[1]):
                    return False
    return True


def awaits2(c, k, p, rule, mut):
    """the waits of the reconnecting thread: under the mutex, and ended at
    least by shutting down"""
    me = ('this', k.depth)
    for s in enc(p, M(lambda ev: ev.kind == 'wait', 'wait')):
        c.ob(rule, any(unver(l[0]) == mut for l in s.ev.st.locks), c.where(k, p, ('', s.ev)), 'waits without the mutex', p)
        timed_ = 'for' in s.ev.q or 'until' in s.ev.q
        for lam in lams_of(s.ev):
            for w in k.I.run_closure(lam, st=s.ev.st, later=True, depth=k.depth):
                for w in split_path(k, w):
                    val = lambda f: w.st.bools.get(F(f, me))   # as the predicate itself read it
                    got = True if w.ret == TRUE else False if w.ret == FALSE else (w.st.known(w.ret))
                    if got is None and unver(w.ret)[0] == 'fld':
                        n_ = unver(w.ret)[2]
                        c.ob(rule, (n_ == 'm_shut_down' and (timed_ or val('m_reconnect') is False)) or (n_ == 'm_reconnect' and val('m_shut_down') is False), c.where(k, p, ('', s.ev)), 'goes on waiting after shutting down or losing the connection', p)
                        continue
                    sh, re_ = val('m_shut_down'), val('m_reconnect')
                    if got:
                        c.ob(rule, sh is True or re_ is True, c.where(k, p, ('', s.ev)), 'waits for something else', p)
                    else:
                        c.ob(rule, sh is False and (timed_ or re_ is False), c.where(k, p, ('', s.ev)), 'goes on waiting after shutting down or losing the connection', p)


def reround(c, k, e, me, cl, rec, ds, dr, tail):
    """one turn of the reconnecting thread"""
    w = c.where(k, e)
    rule = 'reconnecting'
    ev = [i for i in e.items if i.kind != 'loop']
    cls, recs, sds, rds = (must(e.items, m) for m in (cl, rec, ds, dr))
    waits_ = [i for i in ev if i.kind == 'wait']
    if not waits_:
        c.ob(rule, not cls and not recs and not sds and not rds, w, 'acts without a lost connection', e)
        return
    i = e.items.index(waits_[0])
    clears = [x for x in ev if x.kind == 'set' and unver(x.obj) == F('m_reconnect', me)]
    c.ob(rule, any(x.args[0] == FALSE and e.items.index(x) > i and any(unver(l[0]) == F('m_reconnect_mut', me) for l in x.st.locks) for x in clears), w, 'the request to reconnect is not taken under the mutex', e)

    shut = last_known(e, F('m_shut_down', me))
    retry = last_known(e, F('m_attempt_reconnect', me))
    if retry is None:
        c.ob(rule, shut is True and not cls and not recs and not sds, w, 'does not go on to reconnect or close', e)
        return
    c.ob(rule, len(cls) == 1, w, 'the lost connection is not closed once', e)
    if retry is False:
        end = e.st.load(F('m_shut_down', me))
        c.ob(rule, end == TRUE and not recs and not sds and not rds, w, 'goes on with a connection that must not be re-established', e)
        return
    # tried again until it works or the peer is shut down
    lo = [it for it in e.items if it.kind == 'loop']
    for x in [y for l in lo for y in l.edges]:
        r = must(x.items, rec)
        c.ob(rule, len(r) == 1 and x.st.known(result(r[0])) is False, w, 'tries again after reconnecting', e)
    up = [x for x in recs if e.st.known(result(x)) is True]
    if up:
        run = [x for x in ev if x.kind == 'set' and unver(x.obj) == F('m_running', me)]
        if sds or rds:
            c.ob(rule, len(sds) == 1 and len(rds) == 1 and len(run) == 1 and run[0].args[0] == TRUE and
                 all(e.items.index(run[0]) < e.items.index(x) for x in sds + rds), w, 'sending and receiving are not both started again, once running', e)
            c.ob(rule, bool(cls) and all(e.items.index(cls[0]) < e.items.index(x) for x in sds + rds), w, 'the old threads are not ended first', e)
        else:
            c.ob(rule, shut is True, w, 'a re-established connection is not used', e)
    else:
        c.ob(rule, not sds and not rds and shut is True, w, 'gives up reconnecting, or goes on without a connection', e)


def last_known(e, f):
    """the latest known value of a flag other threads write"""
    best = None
    for t, v in e.st.bools.items():
        if unver(t) == f:
            best = v
    return best


# -- queues and pools
BQ = 'cbdc::blocking_queue_internal'
QF = ['util/network/peer.cpp', 'util/common/thread_pool.cpp', 'parsec/agent/server_interface.cpp', 'uhs/atomizer/shard/controller.cpp', 'uhs/atomizer/atomizer/controller.cpp',
      'uhs/atomizer/sentinel/server.cpp', 'uhs/atomizer/watchtower/client.cpp']


@prop('N05', files=QF)
def n05(c):
    """work queues and the thread pool"""
    B, W, M_ = F('m_buffer'), F('m_wake'), F('m_mut')
    n1, na = call(['condition_variable::notify_one', 'condition_variable::notify_all']), call('condition_variable::notify_all')
    ch = M(lambda e: e.kind in ('set', 'mut') and e.obj is not None and root(e.obj) in (('this',), B, W) or (e.kind in ('set', 'mut') and unver(e.obj) in (B, W)), 'change the queue')
    adds = M(lambda e: e.kind == 'mut' and unver(e.obj) == B and e.q in ('push', 'push_back', 'emplace', 'emplace_back'), 'queue')
    took = M(lambda e: e.kind == 'mut' and unver(e.obj) == B and e.q in ('pop', 'pop_front'), 'take from the queue')
    for u in c.fns(BQ + '::push'):
        c.every(u, 'queueing', Does(adds, 1), lambda p: None if all(s.ev.args == (A(0),) or list(s.ev.args) == [A(0)] for s in enc(p, adds)) else 'queues something else', Never(took), Final(W, TRUE),
                Does(n1), NotAfter(ch, n1))
        c.locked(u, 'queueing', ch, M_)
    for u in c.fns(BQ + '::pop'):
        c.locked(u, 'taking', ch, M_)
        for p in u.paths:
            for s in enc(p, M(lambda ev: ev.kind == 'wait', 'wait')):
                c.ob('taking', any(unver(l[0]) == M_ for l in s.ev.st.locks), c.where(u, p, ('', s.ev)), 'waits without the mutex', p)
                c.ob('taking', 'for' not in s.ev.q and 'until' not in s.ev.q, c.where(u, p, ('', s.ev)), 'gives up waiting', p)
                lams = list(lams_of(s.ev))
                for lam in lams:
                    for w in u.I.run_closure(lam, st=s.ev.st, later=True, depth=0):
                        for w in split_path(u, w):
                            me = ('this', 0)
                            woken, some = last_known(w, F('m_wake', me)), None
                            got = True if w.ret == TRUE else False if w.ret == FALSE else w.st.known(w.ret)
                            if got is None and unver(w.ret) == F('m_wake', me):
                                continue
                            for b in (F('m_buffer', me),):
                                e_ = w.st.known(compare('==', ('size', b), ('i', 0)))
                                some = e_ is False
                            c.ob('taking', (got is True and (woken is True or some)) or (got is False and woken is False), c.where(u, p, ('', s.ev)), 'waits for something else than items or clear()', p)
                if not lams:
                    c.ob('taking', bool(s.loops) and last_known(EdgePath(s.loops[-1]) if hasattr(s.loops[-1], 'items') else p, W) is False, c.where(u, p, ('', s.ev)), 'waits without a condition', p)
            for s in enc(p, M(lambda ev: ev.kind == 'wait', 'wait')):
                c.ob('taking', s.ev.st.known(compare('==', ('size', B), ('i', 0))) is not False, c.where(u, p, ('', s.ev)), 'waits while there are items', p)
        for p in u.rets:
            e = enc(p, took)
            w = c.where(u, p, ('', e[0].ev)) if e else c.where(u, p)
            if e:
                before = e[0].ev.st.load(B) if e[0].ev.st else None
                d = p.st.load(A(0))
                c.ob('taking', len(e) == 1 and not e[0].loops and p.ret == TRUE, w, 'an item is taken but not returned', p)
                c.ob('taking', d[0] == 'front' and unver(d[1]) == B, w, 'another item is returned than the one taken', p)
                sets_ = [i for i in p.items if i.kind == 'set' and unver(i.obj) == A(0)]
                c.ob('taking', sets_ and p.items.index(sets_[0]) < p.items.index(e[0].ev), w, 'the item is read after it was taken', p)
                left = compare('==', ('size', p.st.load(B)), ('i', 0))
                wk = p.st.load(W)
                k = p.st.known(left)
                c.ob('taking', wk == neg(left) or (k is True and wk == FALSE) or (k is False and wk == TRUE) or wk == TRUE and k is not True, w, 'consumers are not woken for what is left, or kept awake', p)
            else:
                got = p.st.load(B)
                c.ob('taking', p.ret == FALSE and p.st.known(compare('==', ('size', got), ('i', 0))) is True and not enc(p, adds), w, 'gives up while there are items', p)
                c.ob('taking', not [i for i in p.items if i.kind == 'set' and unver(i.obj) == W], w, 'a wakeup is dropped', p)
    for u in c.fns(BQ + '::clear'):
        c.every(u, 'clearing', Final(W, TRUE), Does(na), NotAfter(ch, na), lambda p: None if p.st.known(compare('==', ('size', p.st.load(B)), ('i', 0))) is True or emptied(p.st.load(B)) else 'items are left')
        c.locked(u, 'clearing', ch, M_)
    for u in c.fns(BQ + '::reset'):
        c.every(u, 'clearing', Final(W, FALSE))
        c.locked(u, 'clearing', ch, M_)
    for u in c.fns(BQ + '::~blocking_queue_internal', opaque=['clear']):
        c.every(u, 'clearing', exactly(call('clear')))
    c.discipline(BQ, ['m_mut'], ['m_buffer', 'm_wake'])
    # -- the pool
    TP = 'cbdc::thread_pool'
    T = F('m_threads')
    psh, pop, clr = (call('blocking_queue_internal::' + x) for x in ('push', 'pop', 'clear'))
    u = c.fn(TP + '::push', opaque=['blocking_queue', 'thread_loop'])
    c.locked(u, 'pool', M(lambda e: e.kind in ('mut', 'thread') or e.kind == 'set' and e.obj[0] == 'fld' and e.obj[2] in ('m_running', 'm_thread'), 'x') | psh, F('m_mut'))

    def handed(p):
        e = enc(p, psh)
        if len(e) != 1 or e[0].loops or e[0].ev.args[0] != A(0):
            return 'the work is not queued exactly once'
        ev = e[0].ev
        o = unver(ev.obj)
        if o[0] != 'fld' or o[2] != 'm_queue':
            return ('queued elsewhere', ev)
        t = o[1]
        if p.st.load(('fld', t, 'm_running')) != TRUE:
            return ('the thread that gets the work is not marked as running', ev)
        th = enc(p, thread)
        if t[0] == 'elem':
            if th or enc(p, push(T)):
                return ('a thread is started for nothing', ev)
            return None if ev.st.known(('fld', t, 'm_running')) is False or any(k == ('fld', t, 'm_running') and not v for k, v in p.st.bools.items()) else ('the work waits for a thread that is running something', ev)
        if len(th) != 1 or len(enc(p, push(T))) != 1:
            return ('no thread is started for the work', ev)
        s = enc(p, push(T))[0].ev
        return None if s.args and s.args[0] == t and p.st.load(('fld', t, 'm_thread')) != ('fld', t, 'm_thread') else ('the thread is not kept', ev)
    c.every(u, 'pool', handed)
    tl = call('thread_pool::thread_loop')
    for s, k in c.closures(u, thread):
        c.every(k, 'pool', exactly(tl, PR(lambda t: t[0] == 'heap')))
    u = c.fn(TP + '::thread_loop', opaque=['blocking_queue'])
    for e, tail in segments(u):
        po, ru = must(e.items, pop), [i for i in allev(e.items) if i.kind == 'invoke']
        cl = [i for i in allev(e.items) if i.kind == 'set' and spot(i.obj)[0] == 'fld' and spot(i.obj)[2] == 'm_running']
        w = c.where(u, e)
        got = e.st.known(result(po[0])) if len(po) == 1 else None
        c.ob('pool', len(po) == 1 and got is not None, w, 'does not take one item per round', e)
        if got:
            c.ob('pool', len(ru) == 1 and len(po) == 1 and is_out(ru[0].obj, po[0]) and not tail, w, 'work is not run exactly once', e)
            c.ob('pool', len(cl) == 1 and cl[0].args[0] == FALSE and ru and e.items.index(cl[0]) > e.items.index(ru[0]), w, 'the thread is not free after, and only after, its work', e)
        else:
            c.ob('pool', not ru and tail, w, 'runs something else', e)
    u = c.fn(TP + '::~thread_pool', opaque=['blocking_queue'])

    def ended(x):
        def f(e):
            q, j = must(e.items, clr), must(e.items, call('thread::join'))
            if len(q) != 1 or unver(q[0].obj) != F('m_queue', x.e):
                return 'a thread is not woken'
            jn_ = any_true(Ctx(e.st, e.items), lambda t: t[0] == 'call' and t[1].endswith('joinable') and mentions_t(t, x.e))
            if jn_ is not False and (len(j) != 1 or unver(j[0].obj) != F('m_thread', x.e)):
                return 'a thread is not joined'
            return 'joined before it is woken' if j and e.items.index(j[0]) < e.items.index(q[0]) else None
        return [f]
    c.every(u, 'pool', Each(T, ended))
    c.discipline(TP, ['m_mut'], ['m_threads'])




def spot(t):
    """the memory place itself, whatever happened to it before"""
    while t[0] in ('ver', 'lv', 'with'):
        t = t[1]
    return t


def emptied(t):
    return t[0] in ('new', 'obj', 'list', 'empty') and (len(t) < 3 or not t[2])
