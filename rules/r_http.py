"""JSON-RPC over HTTP: every request is answered once, to its own caller."""
from lib import *
from lib import Ctx

D = 'util/rpc/http/'
S = 'cbdc::rpc::json_rpc_http_server::'
K = 'cbdc::rpc::json_rpc_http_client::'
FN = ['send_response', 'send_cors_response', 'handle_request', 'handle_response']
WR = [r'basic_ostream::write']


def fin(v):
    while v[0] in ('some', 'var'):
        v = v[-1]
    return v


def kn(p, c):
    return holds(c, Ctx(p.st, p.items))


def n_(k):
    return ('i', k)


def evs(items, *q):
    return [e for e in allev(items) if e.kind == 'call' and qmatch(list(q), e.q)]


def lit(s):
    return ('s', s)


@prop('N07', files=[D + 'json_rpc_http_server.cpp', D + 'json_rpc_http_client.cpp'])
def n07(c):
    server(c)
    client(c)


def server(c):
    req, conn, cls = A(7), A(1), A(0)
    fld = lambda n, b: ('fld', b, n)
    SR, SC, HR = call('send_response'), call('send_cors_response'), call('handle_request')

    def outcome(u, p, rule, code=None, sr=0, sc=0, hr=0):
        w = c.where(u, p)
        a = [e for e in allev(p.items) if SR(e)]
        c.ob(rule + ': answered', len(a) == sr and all(root_(e.args[1]) == req for e in a), w, 'answers %d times, or another request' % len(a), p)
        a = [e for e in allev(p.items) if SC(e)]
        c.ob(rule + ': answered', len(a) == sc and all(root_(e.args[0]) == req for e in a), w, 'answers another way', p)
        a = [e for e in allev(p.items) if HR(e)]
        c.ob(rule + ': handled', len(a) == hr and all(root_(e.args[0]) == req for e in a), w, 'handled %d times' % len(a), p)
        st = [e for e in allev(p.items) if e.kind == 'set' and e.obj[0] == 'fld' and e.obj[2] == 'm_code' and unver(root_(e.obj[1])) == req]
        if code:
            ev = list(allev(p.items))
            c.ob(rule + ': status', len(st) == 1 and st[0].args[0] == n_(code) and all(ev.index(st[0]) < ev.index(e) for e in ev if SR(e)), w, 'status is %s' % [pp(e.args[0]) for e in st], p)
        else:
            c.ob(rule + ': status', not st, w, 'changes the status', p)

    u = c.fn(S + 'callback', opaque=FN, eventful=WR)
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        put = [e for e in allev(p.items) if e.kind == 'mut' and e.obj[0] == 'fld' and e.obj[2] == 'm_requests']
        wr = evs(p.items, 'basic_ostream::write')
        took = [e for e in allev(p.items) if e.kind == 'set' and unver(e.obj) == A(6)]
        if kn(p, Has(req)) is not True:
            hit.add('new')
            c.ob('a new request', kn(p, Has(req)) is False, w, 'not told apart', p)
            outcome(u, p, 'new request')
            cc = [e for e in allev(p.items) if e.kind == 'set' and e.obj == req]
            ok = len(cc) == 1 and cc[0].args[0][0] == 'heap'
            c.ob('a new request: is remembered with its connection', ok, w, 'not remembered', p)
            if ok:
                r = cc[0].args[0]
                c.ob('a new request: keeps its connection and server', p.st.load(fld('m_connection', r)) == conn and p.st.load(fld('m_server', r)) == cls, w, 'belongs to something else', p)
                ok = len(put) == 1 and put[0].q in ('emplace', 'assign', 'insert') and put[0].args == (r, r) and put[0].obj == fld('m_requests', cls)
                c.ob('a new request: lives until it is completed', ok and r not in getattr(p.st, 'freed', ()), w, 'is not kept', p)
                c.ob('a new request: registered under the lock', any(e.kind == 'lock' and e.obj == fld('m_requests_mut', cls) for e in before(p, put)), w, 'registered without the lock', p)
            continue
        c.ob('requests are registered once', not put, w, 'registers again', p)
        opt = kn(p, And(Eq(A(3), lit('OPTIONS')), V_(fld('m_enable_cors', fld('m_server', req)))))
        if opt is True:
            hit.add('cors')
            outcome(u, p, 'options', sc=1)
            continue
        c.ob('options', opt is False, w, 'not told apart', p)
        post = kn(p, Eq(A(3), lit('POST')))
        if post is not True:
            hit.add('method')
            c.ob('only POST', post is False and not wr, w, 'not told apart', p)
            outcome(u, p, 'method', 405, sr=1)
            continue
        size = kn(p, Ne(A(6), n_(0)))
        if size is not False:
            hit.add('data')
            c.ob('more data', size is True, w, 'not told apart', p)
            ok = len(wr) == 1 and wr[0].obj == fld('m_request', req) and wr[0].args[0] == A(5) and uncast(wr[0].args[1]) == A(6)
            c.ob('more data: all of it is kept', ok, w, 'keeps something else', p)
            c.ob('more data: taken', len(took) == 1 and took[0].args[0] == n_(0), w, 'not reported as taken', p)
            outcome(u, p, 'more data')
            continue
        c.ob('no data', not wr and not took, w, 'reads data that is not there', p)
        run = kn(p, V_(fld('m_running', fld('m_server', req))))
        if run is not True:
            hit.add('stopped')
            c.ob('a server that stops', run is False, w, 'not told apart', p)
            outcome(u, p, 'stopping', 503, sr=1)
            continue
        h = [e for e in allev(p.items) if HR(e)]
        good = kn(p, V_(result(h[0]))) if len(h) == 1 else None
        hit.add(good)
        c.ob('a request that cannot be handled', good is not None, w, 'not told apart', p)
        if good:
            outcome(u, p, 'request', hr=1)
        else:
            outcome(u, p, 'bad request', 400, sr=1, hr=1)
    c.ob('callback', hit >= {'new', 'cors', 'method', 'data', 'stopped', True, False}, c.where(u), 'a case is missing: %s' % sorted(map(str, hit)))

    # handle_request
    u = c.fn(S + 'handle_request', opaque=FN)
    CB = F('m_cb')
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        pa = evs(p.items, 'Json::Reader::parse', 'Json::CharReader::parse')
        c.ob('payload: read once', len(pa) == 1 and mentions_t(pa[0].args[0], fld('m_request', A(0))), w, 'reads something else', p)
        if len(pa) != 1:
            continue
        # the parser throws beyond a fixed depth; nothing here bounds it
        c.ob('payload: its nesting cannot end the process', False, 'json_rpc_http_server::handle_request', 'a payload nested deeper than the parser allows ends the process', p)
        J = ('out', result(pa[0]), 1, 1)
        asks = {}
        for b in p.st.bools:
            x = b[1] if b[0] == 'not' else b
            if x[0] == 'call' and x[1].startswith('Json::Value::'):
                asks[(x[1].split('::')[-1],) + tuple(unver(y) for y in x[2])] = p.st.known(x)
        j = unver(J)
        cond = [('read', p.st.known(result(pa[0]))), ('object', asks.get(('isObject', j))), ('has a method', asks.get(('isMember', j, lit('method')))),
                ('the method is a string', asks.get(('isString', unver(at(J, lit('method'))))))]
        mem = asks.get(('isMember', j, lit('method')))
        c.ob('payload: only objects are asked for members', cond[1][1] is True or not any(k[0] == 'isMember' or k[0] != 'isObject' and k[1] != j for k in asks), w, 'a payload that is not an object ends the process', p)
        iv = [e for e in allev(p.items) if e.kind == 'invoke' and e.obj == CB]
        su = evs(p.items, 'MHD_suspend_connection')
        if any(v is False for _, v in cond):
            hit.add(next(n for n, v in cond if v is False))
            c.ob('a bad request is refused', p.ret == FALSE and not iv and not su, w, 'not refused', p)
            continue
        c.ob('a request is checked', all(v is True for _, v in cond), w, 'not checked: %s' % [n for n, v in cond if v is not True], p)
        ok = len(iv) == 1
        c.ob('a request is handed over once', ok, w, 'handed over %d times' % len(iv), p)
        if not ok:
            continue
        hit.add('good')
        e = iv[0]
        ev = list(allev(p.items))
        c.ob('a request waits before it is handed over', len(su) == 1 and su[0].args[0] == fld('m_connection', A(0)) and ev.index(su[0]) < ev.index(e), w, 'may be answered before it waits', p)
        c.ob('its method is handed over', is_call(e.args[0], 'Json::Value::asString') and unver(e.args[0][2][0]) == unver(at(J, lit('method'))), w, 'hands over %s' % pp(e.args[0])[:60], p)
        hp = asks.get(('isMember', j, lit('params')))
        pr = at(J, lit('params'))
        a = e.args[1]
        nul = a[0] == 'new' and (a[2] == () or a[2][0][0] == 'enum' and a[2][0][1].endswith('nullValue'))
        c.ob('its parameters are handed over', hp is not None and (unver(a) == unver(pr) if hp else nul) or hp is None and unver(a) == unver(pr), w, 'hands over %s' % pp(a)[:60], p)
        r = result(e)
        c.ob('says whether it was accepted', p.ret == r or p.st.known(r) is not None and p.ret == (TRUE if p.st.known(r) else FALSE), w, 'returns %s' % pp(p.ret)[:50], p)
    c.ob('handle_request', hit >= {'read', 'object', 'has a method', 'the method is a string', 'good'}, c.where(u), 'a case is missing: %s' % sorted(hit))
    for site, k in c.closures(u, invoke(CB)):
        for p in k.rets:
            w = c.where(k, p)
            h = evs(p.items, 'handle_response')
            ok = len(h) == 1 and h[0].args[1] == A(0) and unver(h[0].args[2]) == A(0, k.depth)
            c.ob('the answer goes to the request', ok, w, 'the answer goes elsewhere', p)
            if ok:
                i = h[0].args[0]
                isu = [x for b in p.st.bools for x in subterms(b) if is_call(x, 'Json::Value::isUInt64')]
                good = p.st.known(isu[0]) if isu else None
                idt = i[0] == 'call' and i[1] == 'Json::Value::asUInt64' and i[2][0][0] == 'at' and i[2][0][2] == lit('id')
                c.ob('the answer carries the id of the request', idt if good else good is False and i == n_(0), w, 'carries %s' % pp(i)[:50], p)

    # handle_response
    u = c.fn(S + 'handle_response', opaque=FN)
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        a = [e for e in allev(p.items) if SR(e)]
        ok = len(a) == 1 and root_(a[0].args[1]) == A(1)
        c.ob('answer: sent once, to the request', ok, w, 'sent %d times' % len(a), p)
        st = [e for e in allev(p.items) if e.kind == 'set' and e.obj == fld('m_code', A(1))]
        h = kn(p, Has(A(2)))
        hit.add(h)
        c.ob('answer: status', h is not None and len(st) == 1 and st[0].args[0] == n_(200 if h else 500), w, 'status is %s' % [pp(e.args[0]) for e in st], p)
        if ok and h:
            t = a[0].args[0]
            ok = is_call(t, 'Json::writeString')
            if ok:
                v = t[2][1]
                ch = {}
                while v[0] == 'with':
                    for pth, val in v[2]:
                        ch.setdefault(pth[0][-1] if isinstance(pth[0], tuple) else pth, val)
                    v = v[1]
                ok = unver(v) == A(2)
                want = {lit('id'): A(0), lit('jsonrpc'): lit('2.0')}
                got = {k: (x[2][0] if x[0] == 'new' and x[2] else x) for k, x in ch.items()}
                ok = ok and got == want
            c.ob('answer: what was computed, with the id of the request', ok, w, 'sends %s' % pp(t)[:90], p)
    c.ob('answer', hit >= {True, False}, c.where(u), 'a case is missing')

    # send_response, send_cors_response
    for fn, r, code in (('send_response', A(1), None), ('send_cors_response', A(0), 200)):
        u = c.fn(S + fn)
        for p in u.rets:
            w = c.where(u, p)
            cr = evs(p.items, 'MHD_create_response_from_buffer')
            q = evs(p.items, 'MHD_queue_response')
            dl = evs(p.items, 'MHD_destroy_response')
            rs = evs(p.items, 'MHD_resume_connection')
            ok = len(cr) == 1 == len(q)
            c.ob(fn + ': queued once', ok, w, 'queued %d times' % len(q), p)
            if not ok:
                continue
            ev = list(allev(p.items))
            if fn == 'send_response':
                a = cr[0].args
                c.ob(fn + ': the whole text', a[0] == ('size', A(0)) and unver(base(a[1])) == A(0) and pp(a[2]).endswith('MUST_COPY'), w, 'another text', p)
            cd = fld('m_code', r) if code is None else n_(code)
            a = q[0].args
            c.ob(fn + ': on the connection of the request, with its status', a[0] == fld('m_connection', r) and a[1] == cd and a[2] == result(cr[0]), w, 'goes elsewhere', p)
            c.ob(fn + ': released', len(dl) == 1 and dl[0].args[0] == result(cr[0]) and ev.index(q[0]) < ev.index(dl[0]), w, 'kept or released early', p)
            sus = [b for b in p.st.bounds for x in subterms(b) if x[0] == 'fld' and x[2] == 'suspended']
            inf = [x for b in list(p.st.bounds) + list(p.st.bools) for x in subterms(b) if x[0] == 'fld' and x[2] == 'suspended']
            s = kn(p, Eq(inf[0], n_(1))) if inf else None
            gi = evs(p.items, 'MHD_get_connection_info')
            c.ob(fn + ': asks whether the connection waits', s is not None and len(gi) == 1 and gi[0].args[0] == fld('m_connection', r) and ev.index(q[0]) < ev.index(gi[0]), w, 'does not ask', p)
            c.ob(fn + ': resumes exactly a connection that waits', len(rs) == (1 if s else 0) and all(e.args[0] == fld('m_connection', r) and ev.index(q[0]) < ev.index(e) for e in rs), w, 'resumed wrongly', p)
            if fn == 'send_response':
                al = [e for e in evs(p.items, 'MHD_add_response_header') if 'Allow-Origin' in pp(e.args[1])]
                ce = kn(p, V_(fld('m_enable_cors', fld('m_server', r))))
                c.ob(fn + ': other origins only if enabled', bool(al) == (ce is True) and ce is not None, w, 'other origins are allowed', p)

    # request_complete
    u = c.fn(S + 'request_complete')
    for p in u.rets:
        w = c.where(u, p)
        h = kn(p, Has(A(2)))
        de = [e for e in allev(p.items) if e.kind == 'mut' and e.obj == fld('m_requests', A(0))]
        c.ob('a completed request is released', len(de) == (1 if h else 0) and all(e.q == 'erase' and e.args[0] == A(2) for e in de), w, 'another request is released', p)
        c.ob('a completed request is released under the lock', all(any(e.kind == 'lock' and e.obj == fld('m_requests_mut', A(0)) for e in before(p, [x])) for x in de), w, 'released without the lock', p)

    # destructor
    u = c.fn(S + '~json_rpc_http_server')
    for p in u.rets:
        w = c.where(u, p)
        ev = list(allev(p.items))
        st = [i for i, e in enumerate(ev) if e.kind == 'set' and e.obj == F('m_running') and e.args[0] == FALSE]
        qu = [i for i, e in enumerate(ev) if e.kind == 'call' and e.q == 'MHD_quiesce_daemon']
        sp = [i for i, e in enumerate(ev) if e.kind == 'call' and e.q == 'MHD_stop_daemon']
        nc = {x for b in p.st.bounds for x in subterms(b) if x[0] == 'fld' and x[2] == 'num_connections'}
        c.ob('stop: no new requests, then open ones end, then the server', len(st) == 1 == len(qu) == len(sp) and st[0] < qu[0] < sp[0] and any(kn(p, Eq(x, n_(0))) is True for x in nc), w, 'ends while requests are open', p)


def before(p, evl):
    ev = list(allev(p.items))
    if not evl:
        return []
    r = []
    for e in ev[:ev.index(evl[0])]:
        if e.kind == 'lock':
            r.append(e)
        elif e.kind == 'unlock':
            r = [x for x in r if x.obj != e.obj]
    return r


def uncast(t):
    while t[0] == 'cast':
        t = t[2]
    return t


def base(t):
    while t[0] == 'call' and t[1].split('::')[-1] in ('data', 'c_str'):
        t = t[2][0]
    return t


def root_(t):
    """the object a changed object was"""
    while t[0] in ('with', 'ver') or t[0] == 'out':
        t = t[1] if t[0] != 'out' else t[1][2][t[2] + (1 if len(t[1][2]) > t[2] + 1 else 0)]
    return t


def V_(t):
    return t


def client(c):
    M = F('m_multi_handle')
    T = F('m_transfers')
    fld = lambda n, b: ('fld', b, n)
    u = c.fn(K + 'call')
    for p in u.rets:
        w = c.where(u, p)
        ev = list(allev(p.items))
        ins = [e for e in ev if e.kind == 'mut' and e.obj == T]
        ok = len(ins) == 1 and ins[0].q in ('emplace', 'keep', 'assign', 'insert')
        c.ob('call: remembered once', ok, w, 'not remembered', p)
        if not ok:
            continue
        h = ins[0].args[0]
        idle = kn(p, Empty(F('m_handles')))
        pops = [e for e in ev if e.kind == 'mut' and unver(e.obj) == F('m_handles')]
        c.ob('call: on a handle of its own', is_call(h, 'curl_easy_init') and not pops if idle else idle is False and h[0] == 'front' and len(pops) == 1 and pops[0].q in ('pop', 'pop_front'), w, 'on %s' % pp(h)[:60], p)
        cb = [e for e in ev if e.kind == 'set' and e.obj[0] == 'fld' and e.obj[2] == 'm_cb']
        t = cb[0].obj[1] if len(cb) == 1 else None
        c.ob('call: its own callback', len(cb) == 1 and cb[0].args[0] == A(2) and (t == ins[0].args[1] or unver(t) == ('at', T, h)), w, 'another callback', p)
        opt = lambda n: [e for e in evs(p.items, 'curl_easy_setopt') if pp(e.args[1]).endswith(n) and deep(e.args[0]) == deep(h)]
        wd, pf, ad = opt('CURLOPT_WRITEDATA'), opt('CURLOPT_POSTFIELDS'), evs(p.items, 'curl_multi_add_handle')
        c.ob('call: its own answer', len(wd) == 1 and t is not None and root_(wd[0].args[2]) in (t, unver(t)), w, 'the answer goes elsewhere', p)
        pl = [e for e in ev if e.kind == 'set' and e.obj[0] == 'fld' and e.obj[2] == 'm_payload' and e.obj[1] == t]
        ok = len(pl) == 1 and is_call(pl[0].args[0], 'Json::writeString') and len(pf) == 1 and (pf[0].args[2] == pl[0].args[0] or base(pf[0].args[2]) == pl[0].obj)
        c.ob('call: its own payload', ok, w, 'another payload', p)
        if ok:
            v = pl[0].args[0][2][1]
            ch = {}
            while v[0] == 'with':
                for pth, val in v[2]:
                    ch.setdefault(pth[0][-1] if isinstance(pth[0], tuple) else pth, val)
                v = v[1]
            got = {k: (x[2][0] if x[0] == 'new' and x[2] else x) for k, x in ch.items()}
            c.ob('call: the method and its parameters', got == {lit('method'): A(0), lit('params'): A(1)} and unver(v) == F('m_payload'), w, 'sends %s' % pp(pl[0].args[0])[:80], p)
        last = max([ev.index(x) for x in wd + pf + cb + ins] or [0])
        c.ob('call: started once, when it is complete', len(ad) == 1 and ad[0].args[0] == M and deep(ad[0].args[1]) == deep(h) and last < ev.index(ad[0]), w, 'started otherwise', p)
        if idle:
            ur = opt('CURLOPT_URL')
            lb = F('m_lb_idx')
            c.ob('call: a new handle asks an endpoint', len(ur) == 1 and base(ur[0].args[2]) == ('at', F('m_endpoints'), lb), w, 'asks %s' % [pp(x.args[2])[:60] for x in ur], p)
            nx = [e for e in ev if e.kind == 'set' and e.obj == lb]
            c.ob('call: endpoints take turns', len(nx) == 1 and nx[0].args[0] == ('op', '%', (l_add(lb, n_(1), 1), ('size', F('m_endpoints')))), w, 'the next endpoint is %s' % [pp(e.args[0])[:60] for e in nx], p)
            c.ob('call: a new handle can receive', len(opt('CURLOPT_WRITEFUNCTION')) == 1 and 'write_data' in pp(opt('CURLOPT_WRITEFUNCTION')[0].args[2]), w, 'cannot receive', p)

    # received data
    u = c.fn(K + 'write_data', eventful=WR)
    for p in u.rets:
        w = c.where(u, p)
        n = ('op', '*', (A(1), A(2)))
        wr = evs(p.items, 'basic_ostream::write')
        ok = len(wr) == 1 and wr[0].obj == fld('m_result', A(3)) and uncast(wr[0].args[0]) == A(0) and uncast(wr[0].args[1]) == p.ret and pp(p.ret).replace('(', '').replace(')', '') in ('$1*$2', '$2*$1')
        c.ob('what is received is kept', ok, w, 'something is lost', p)

    # pump
    u = c.fn(K + 'pump')
    hit = set()
    for p in u.rets:
        seg = [[]]
        for e in top(p.items):
            if e.kind == 'call' and e.q == 'curl_multi_info_read':
                seg.append([])
            seg[-1].append(e)
        turns = [(x, p.st) for x in seg] + [(e.items, e.st) for l in p.items if l.kind == 'loop' and any(x.q == 'curl_multi_info_read' for e in l.edges for x in allev(e.items) if x.kind == 'call') for e in l.edges]
        for items, st in turns:
            turn(c, u, p, list(items), st, hit)
        po = evs(p.items, 'event_handler::poll', 'poll')
        if len(po) == 1 and kn(p, And(Has(result(po[0])), Not(Empty(result(po[0]))))) is True:
            lp = [l for l in p.items if l.kind == 'loop' and l.dom[0] == 'each' and all(any(x.kind == 'call' and x.q == 'curl_multi_socket_action' and x.args[0] == M for x in e.items) for e in l.edges)]
            c.ob('pump: every event is passed on', len(lp) == 1 and lp[0].mode == 'all', c.where(u, p), 'an event is lost', p)
    c.ob('pump', hit >= {'none', 'other', 'error', 'code', 'text', 'answer'}, c.where(u), 'a case is missing: %s' % sorted(hit))

    # destructor
    u = c.fn(K + '~json_rpc_http_client')
    for p in u.rets:
        lp = [l for l in p.items if l.kind == 'loop' and l.dom[0] == 'each' and l.dom[1] == T]
        ok = len(lp) == 1 and lp[0].mode == 'all' and all([fin(x.args[0]) for x in allev(e.items) if x.kind == 'invoke'] == [NONE] for e in lp[0].edges)
        c.ob('end: open calls are told', ok or kn(p, Empty(T)) is True, c.where(u, p), 'a caller is never told', p)


def turn(c, u, p, items, st, hit):
    """one completed transfer"""
    T = F('m_transfers')
    M = F('m_multi_handle')
    w = c.where(u, p)
    rd = [e for e in items if e.kind == 'call' and e.q == 'curl_multi_info_read']
    if not rd:
        return
    x = Ctx(st, items)
    m = result(rd[0])
    cbs = [e for e in items if e.kind == 'invoke']
    h = holds(Has(m), x)
    ex = [e for e in items if e.kind == 'mut' and unver(e.obj) == T and e.q in ('erase', 'extract')]
    if h is not True:
        hit.add('none')
        c.ob('pump: nothing completed', h is False and not cbs and not ex, w, 'tells a caller although nothing completed', p)
        return
    eh = ('fld', m, 'easy_handle')
    c.ob('pump: the completed call', len(ex) == 1 and ex[0].args[0] == eh, w, 'takes another call', p)
    same = lambda t: deep(t) == deep(eh)
    mine = lambda e: e.obj[0] == 'fld' and e.obj[2] == 'm_cb' and e.obj[1][0] == 'mapped' and e.obj[1][2] == eh
    c.ob('pump: only the caller of the call is told', all(mine(e) for e in cbs), w, 'tells another caller', p)
    back = [e for e in items if e.kind == 'mut' and unver(e.obj) == T and e not in ex]
    done_ = holds(Eq(('fld', m, 'msg'), n_(1)), x)
    res = ('fld', ('fld', m, 'data'), 'result')
    okr = holds(Eq(res, n_(0)), x)
    rm = [e for e in items if e.kind == 'call' and e.q == 'curl_multi_remove_handle']
    ad = [e for e in items if e.kind == 'call' and e.q == 'curl_multi_add_handle']
    told = [fin(e.args[0]) for e in cbs]
    pool = [e for e in items if e.kind == 'mut' and unver(e.obj) == F('m_handles')]
    c.ob('pump: the kind of completion', done_ is not None and (not done_ or okr is not None), w, 'not looked at', p)
    if done_ and okr is False:
        hit.add('error')
        good = len(rm) == 1 and holds(Eq(result(rm[0]), n_(0)), x) is True and len(ad) == 1 and holds(Eq(result(ad[0]), n_(0)), x) is True
        if good:
            c.ob('pump: a broken call starts again', len(back) == 1 and not told and not pool and items.index(rm[0]) < items.index(ad[0]) and same(rm[0].args[1]) and same(ad[0].args[1]), w, 'lost', p)
            fresh = [e for e in items if e.kind == 'set' and e.obj[0] == 'fld' and e.obj[2] == 'm_result' and e.obj[1][0] == 'mapped']
            fresh += [e for e in items if e.kind == 'call' and e.q.endswith('stream::str') and len(e.args) == 1]
            c.ob('pump: a broken call starts from nothing', len(fresh) == 1 and items.index(fresh[0]) < items.index(ad[0]), w, 'keeps what was received before', p)
        else:
            c.ob('pump: a call that cannot start again is told', told == [NONE] and not back, w, 'a caller is never told', p)
        return
    c.ob('pump: told once', len(told) == 1 and not back and not ad, w, 'told %d times' % len(told), p)
    if len(told) != 1:
        return
    c.ob('pump: the handle is used again', len(pool) == 1 and pool[0].q in ('push_back', 'push') and same(pool[0].args[0]) and len(rm) == 1 and same(rm[0].args[1]), w, 'the handle is lost', p)
    if not done_:
        hit.add('other')
        c.ob('pump: no answer', told == [NONE], w, 'tells %s' % pp(told[0])[:60], p)
        return
    gi = [e for e in items if e.kind == 'call' and e.q == 'curl_easy_getinfo']
    ps = [e for e in items if e.kind == 'call' and e.q.endswith('::parse')]
    code = [y for b in list(st.bounds) for y in subterms(b) if y[0] == 'op' and y[1] == '/' and y[2][1] == n_(100) and gi and y[2][0][0] == 'out' and y[2][0][1] == result(gi[0])]
    k = holds(Eq(code[0], n_(2)), x) if code else None
    rng = None
    if k is None and len(gi) == 1:
        v = [y for b in st.bounds for y in subterms(b) if y[0] == 'out' and y[1] == result(gi[0])]
        if v:
            rng = holds(And(Ge(v[0], n_(200)), Lt(v[0], n_(300))), x)
            k = rng
    c.ob('pump: the status is looked at', len(gi) == 1 and k is not None, w, 'not looked at', p)
    if k is False:
        hit.add('code')
        c.ob('pump: a bad status is no answer', told == [NONE], w, 'tells %s' % pp(told[0])[:60], p)
        return
    good = holds(result(ps[0]), x) if len(ps) == 1 else None
    c.ob('pump: the answer is read', good is not None and 'm_result' in pp(ps[0].args[0]), w, 'not read', p)
    if good is False:
        hit.add('text')
        c.ob('pump: what cannot be read is no answer', told == [NONE], w, 'tells %s' % pp(told[0])[:60], p)
    elif good:
        hit.add('answer')
        t = told[0]
        c.ob('pump: the answer is what was read', t[0] == 'out' and t[1] == result(ps[0]) and t[2] == 1, w, 'tells %s' % pp(t)[:60], p)


def deep(t):
    """without versions, at any depth"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'ver':
        return deep(t[1])
    return tuple(deep(x) for x in t)
