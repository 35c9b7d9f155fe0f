"""N06: client stubs and server endpoints pass requests and answers on faithfully"""
from lib import *
from r_repl import alt
import astq
import re

UH = 'uhs/'
CALL = 'rpc::client::call'
REQ = call(CALL)


def own(t, n):
    """member n of this object (also as seen by a callback)"""
    t = unver(t)
    return t[0] == 'fld' and t[2] == n and t[1][0] == 'this'


def payload(v):
    """(type, value) of a request that may be an alternative of a variant"""
    if v[0] == 'var':
        return v[1], v[2]
    return (v[1] if v[0] in ('obj', 'new') else None), v


def asked(want, obj=F('m_client'), typ=None):
    """exactly one request is sent, and it is the wanted one"""
    def f(p):
        e = enc(p, REQ)
        if len(e) != 1 or e[0].loops:
            return 'sends %d requests' % len(e)
        ev = e[0].ev
        if unver(ev.obj) != obj:
            return ('asks another service', ev)
        t, v = payload(ev.args[0])
        if typ and not (t or '').endswith(typ):
            return ('sends another kind of request', ev)
        if not match(want, v, {}):
            return ('sends something else: %s' % pp(v)[:90], ev)
        return None
    return f


def fields(typ, **kv):
    def f(v):
        if v[0] != 'obj' or not v[1].endswith(typ):
            return False
        d = dict(v[2])
        return all(d.get(k.replace('base', '<base0>'), VOID) == x for k, x in kv.items())
    return PR(f)


def sent(p):
    """returns whether the request was sent"""
    e = enc(p, REQ)
    if len(e) == 1 and (p.ret == result(e[0].ev) or p.ret in (TRUE, FALSE) and p.st.known(result(e[0].ev)) is (p.ret == TRUE)):
        return None
    return 'does not tell whether the request was sent'


def answer(typ):
    """a synchronous stub: nothing without an answer, else the answer"""
    def f(p):
        e = enc(p, REQ)
        r = result(e[0].ev) if len(e) == 1 else VOID
        h = p.st.known(('has', r))
        if h is not True and p.ret != NONE:
            return 'an answer although there is none'
        if h is not False:
            v = p.ret[1] if p.ret[0] == 'some' else p.ret
            if v[0] == 'as':
                if typ and v[2] != typ:
                    return 'hands out an answer of another kind'
                v = v[1]
            if v != r:
                return 'does not hand out the answer'
        return None
    return f


def relayed(c, u, rule, cb, fail, typ):
    """the response is handed to cb once: fail without an answer"""
    k = c.closure(u, REQ)
    r = A(0, k.depth)

    def f(p):
        iv = enc(p, invoke(cb))
        if len(iv) != 1 or iv[0].loops:
            return 'the caller is answered %d times' % len(iv)
        ev, h = iv[0].ev, p.st.known(('has', r))
        v = ev.args[0]
        if h is not True and not match(fail, v, {}):
            return ('an answer although there is none', ev)
        if h is not False:
            w = v[1] if v[0] == 'some' else v
            if w[0] == 'as':
                if typ and not (w[2] or '').endswith(typ):
                    return ('an answer of another kind', ev)
                w = w[1]
            if w != r:
                return ('the caller gets another answer: %s' % pp(v)[:80], ev)
        return None
    c.every(k, rule, f)


FILES = ['uhs/sentinel/client.cpp', 'uhs/twophase/coordinator/client.cpp', 'uhs/twophase/coordinator/server.cpp',
         'uhs/twophase/locking_shard/client.cpp', 'uhs/twophase/sentinel_2pc/server.cpp', 'uhs/atomizer/sentinel/server.cpp',
         'parsec/runtime_locking_shard/client.cpp', 'uhs/atomizer/archiver/client.cpp', 'uhs/atomizer/watchtower/client.cpp',
         'uhs/twophase/locking_shard/controller.cpp', 'uhs/twophase/locking_shard/status_server.cpp', 'parsec/runtime_locking_shard/server.cpp', 'parsec/agent/runners/evm/http_server.cpp', 'uhs/twophase/coordinator/controller.cpp', 'uhs/twophase/sentinel_2pc/controller.cpp',
         'uhs/atomizer/sentinel/controller.cpp', 'parsec/runtime_locking_shard/controller.cpp', 'parsec/agent/agentd.cpp',
         'parsec/ticket_machine/controller.cpp', 'parsec/agent/runners/lua/server.cpp']


@prop('N06', files=FILES, assumptions=['the RPC transport delivers each request and response to the matching stub (N01)'])
def n06(c):
    """RPC stubs and endpoints"""
    SR = 'cbdc::sentinel::rpc::'
    # ---- sentinel clients
    for m in ('execute', 'validate'):
        req = SR + m + '_request' if False else m + '_request'
        for u in c.fns(SR + 'client::' + m + '_transaction', split=False):
            want = PR(lambda v, m=m: v[0] in ('obj', 'new') and v[1].endswith(m + '_request') and v[2] and
                      (v[2] == (('<base0>', A(0)),) or v[2] == (A(0),)))
            cb = len(u.f['params']) > 1
            typ = 'sentinel::execute_response' if m == 'execute' else 'pair'
            if cb:
                c.every(u, 'asking a sentinel', asked(want, typ=m + '_request'), sent)
                relayed(c, u, 'the sentinel answers', A(1), NONE, None)
                k = c.closure(u, REQ)
                c.every(k, 'the sentinel answers', kind(m, k))
            else:
                c.every(u, 'asking a sentinel', asked(want, typ=m + '_request'), answer(None), kind(m))
    # ---- coordinator
    u = c.fn('cbdc::coordinator::rpc::client::execute_transaction', split=False)
    c.every(u, 'asking the coordinator', asked(A(0)), sent, lambda p: None if all(s.ev.args[1] == A(1) for s in enc(p, REQ)) else 'the answer goes elsewhere')
    served(c, 'cbdc::coordinator::rpc::server::server', 'coordinator requests', {None: ('execute_transaction', None)})
    served(c, SR + 'async_server::async_server', 'sentinel requests', {'execute_request': ('execute_transaction', 1), 'validate_request': ('validate_transaction', 1)})
    # ---- atomizer sentinel: queue and workers
    u = c.fn(SR + 'server::server')
    k = c.closure(u, REGS, pick=handlers)
    Q = F('m_queue')
    c.every(k, 'queued requests', lambda p: exactly_pushed(p, k), Ret(TRUE))
    u = c.fn(SR + 'server::handle_request')

    def handled(p):
        q = [s.ev for s in enc(p, call('blocking_queue_internal::pop', obj=Q))]
        if len(q) != 1:
            return 'takes %d requests' % len(q)
        got = p.st.known(result(q[0]))
        iv = enc(p, invoke())
        ex = enc(p, call(['execute_transaction', 'validate_transaction']))
        if got is not True and (p.ret != FALSE or iv or ex):
            return 'goes on although the queue is closed'
        if got is False:
            return None
        if p.ret != TRUE:
            return 'a worker ends although requests may follow'
        if len(ex) != 1 or len(iv) != 1:
            return 'a request is handled %d and answered %d times' % (len(ex), len(iv))
        e, i = ex[0].ev, iv[0].ev
        if unver(e.obj) != F('m_impl') or i.args[0] not in (result(e), ('some', result(e))) and unver(alt(i.args[0])) != result(e):
            return ('the answer is not that of the request', i)
        it = [t for t in subterms(e.args[0]) if t[0] == 'out' and t[1] == result(q[0])]
        f = [t for t in subterms(i.obj) if t[0] == 'out' and t[1] == result(q[0])]
        if not it or it != f[:1]:
            return ('another client is answered', i)
        a = e.args[0]
        n = e.q.split('::')[-1].split('_')[0]
        if a[0] != 'as' or not a[2].endswith(n + '_request') or a[1] != F('first', it[0]):
            return ('another request is handled', e)
        if i.obj != F('second', it[0]):
            return ('another client is answered', i)
        return None
    c.every(u, 'queued requests are answered', handled)
    c.ob('queued requests are answered', {e.ev.q.split('::')[-1] for p in u.rets for e in enc(p, call(['execute_transaction', 'validate_transaction']))} == {'execute_transaction', 'validate_transaction'},
         c.where(u), 'a kind of request is not served')
    u = c.fn(SR + 'server::~server')
    joins = call('std::thread::join')
    clear = call('blocking_queue_internal::clear', obj=Q)
    c.every(u, 'workers end', Does(clear), Before(clear, joins), joined('m_threads'))

    # ---- locking shards
    LS = 'cbdc::locking_shard::rpc::client'
    for m, w, ret in (('lock_outputs', fields('request', m_dtx_id=A(1), m_params=V('p')), 'lock'), ('apply_outputs', fields('request', m_dtx_id=A(1)), 'apply'),
                      ('discard_dtx', fields('request', m_dtx_id=A(0)), 'discard')):
        u = c.fn(LS + '::' + m, inline=['locking_shard::rpc::client::send_request'])

        def shard(p, m=m):
            e = enc(p, REQ)
            for s in e:
                v = s.ev.args[0]
                d = dict(v[2]) if v[0] == 'obj' else {}
                if d.get('m_dtx_id') != (A(0) if m == 'discard_dtx' else A(1)):
                    return ('a request of another transaction', s.ev)
                a = d.get('m_params', VOID)
                if m == 'discard_dtx':
                    if a[0] != 'var' or not a[1].endswith('discard_params'):
                        return ('another kind of request', s.ev)
                elif a[0] != 'var' or a[2] != A(0) or ('tx' in a[1].replace('::vector', '').split('<')[-1]) != (m == 'lock_outputs'):
                    return ('another request', s.ev)
            lps = [i for i in p.items if i.kind == 'loop']
            if len(lps) != 1:
                return 'the request is not repeated until it is answered'
            has = [k for k in p.st.bools if k[0] == 'has' and k[1][0] == 'lv']
            h = p.st.known(has[0]) if has else None
            if m != 'lock_outputs':
                return None if h is not None and p.ret == (TRUE if h else FALSE) else 'success without an answer'
            if h is False:
                return None if p.ret == NONE else 'locks without an answer'
            v = p.ret[1] if p.ret[0] == 'some' else p.ret
            if h is not True or v[0] != 'as' or v[1] != has[0][1] or 'bool' not in v[2]:
                return 'the answer of the shard is not handed out'
            return None
        c.every(u, m, shard)
    u = c.fn(LS + '::send_request')
    run = F('m_running')

    def repeated(p):
        lps = [i for i in p.items if i.kind == 'loop']
        if len(lps) != 1 or lps[0].dom[0] != 'while':
            return 'the request is not repeated until it is answered'
        lp = lps[0]
        if p.ret[0] != 'lv':
            return 'returns %s' % pp(p.ret)[:60]
        loc = p.ret[1]
        for e in lp.edges:
            q = [i for i in e.items if i.kind == 'call' and qmatch(CALL, i.q)]
            if len(q) != 1 or q[0].args[0] != A(0) or unver(q[0].obj) != F('m_client'):
                return ('the request is not repeated', lp)
            if e.st.load(loc) != result(q[0]):
                return ('the answer gets lost', lp)
        if p.st.known(run) is not False and p.st.known(('has', p.ret)) is not True:
            return 'gives up although it neither has an answer nor was stopped'
        return None
    c.every(u, 'requests are repeated until answered', repeated)
    u = c.fn(LS + '::stop', opaque=['tcp_client::stop'])
    c.every(u, 'stopping', Final(run, FALSE), Does(call('tcp_client::stop', obj=F('m_client'))),
            lambda p: ('the client is destroyed while another thread may use it', enc(p, sets(F('m_client')))[0].ev) if enc(p, sets(F('m_client'))) else None)
    c.every(c.fn(LS + '::~client', opaque=['locking_shard::rpc::client::stop']), 'destruction stops', Does(call('locking_shard::rpc::client::stop')))

    # ---- runtime locking shards
    RL = 'cbdc::parsec::runtime_locking_shard::rpc::'
    ie = c.enum('cbdc::parsec::runtime_locking_shard::error_code::internal_error')

    def internal(v):
        v = alt(v)
        return any(t == I_(ie) or t[0] == 'enum' and t[1].endswith('internal_error') for t in subterms(v))
    for m, fs in (('try_lock', ['m_ticket_number', 'm_broker_id', 'm_key', 'm_locktype', 'm_first_lock']),
                  ('prepare', ['m_ticket_number', 'm_broker_id', 'm_state_updates']),
                  ('commit', ['m_ticket_number']), ('rollback', ['m_ticket_number']), ('finish', ['m_ticket_number']), ('get_tickets', ['m_broker_id'])):
        u = c.fn(RL + 'client::' + m, split=False)
        c.every(u, m, asked(fields(m + '_request', **{f: A(i) for i, f in enumerate(fs)}), typ=m + '_request'), sent)
        relayed(c, u, m + ' answer', A(len(fs)), PR(internal), None)

    # ---- archiver
    u = c.fn('cbdc::archiver::client::get_block', eventful=['tcp_socket::send'])
    SK = F('m_sock')
    S_, R_, D_ = call('tcp_socket::send', obj=SK), call('tcp_socket::receive', obj=SK), call('from_buffer')

    def block(p):
        s, r, d = ([x.ev for x in enc(p, m)] for m in (S_, R_, D_))
        if len(s) != 1 or s[0].args[0] != A(0):
            return 'another block is asked for'
        if p.st.known(result(s[0])) is not True:
            return None if p.ret == NONE else 'a block although the request was not sent'
        if len(r) != 1 or p.st.known(result(r[0])) is not True:
            return None if p.ret == NONE and (r and p.st.known(result(r[0])) is False) else 'the answer is not used'
        if len(d) != 1 or d[0].args[0] != ('out', result(r[0]), 0, 1):
            return 'the answer is not decoded'
        h = p.st.known(('has', result(d[0])))
        if h is not True and p.ret != NONE:
            return 'a block although the answer is invalid'
        if h is not False and p.ret != result(d[0]):
            return 'another block is returned'
        return None
    c.every(u, 'asking the archiver', block)

    # ---- watchtower clients
    WT = 'cbdc::watchtower::'
    NET = F('m_network')
    BC = call('connection_manager::broadcast', obj=NET)
    RQ = F('m_res_q')

    def rq(p, typ, arg):
        b = [s.ev for s in enc(p, BC)]
        if len(b) != 1:
            return 'asks %d times' % len(b)
        v = b[0].args[0]
        vs = [t for t in subterms(v) if t[0] == 'var' and t[1].endswith(typ)]
        if not is_call(v, 'make_shared_buffer') or len(vs) != 1 or arg is not None and vs[0][2] != arg:
            return ('asks for something else', b[0])
        return None
    for cl in ('blocking_client', 'async_client'):
        for m, typ, arg in (('request_best_block_height', 'best_block_height_request', None), ('request_status_update', 'status_update_request', A(0))):
            u = c.fn(WT + cl + '::' + m)

            def wt(p, m=m, typ=typ, arg=arg, cl=cl):
                r = rq(p, typ, arg)
                if r or cl == 'async_client':
                    return r
                q = [s.ev for s in enc(p, call('blocking_queue_internal::pop', obj=RQ))]
                b = [s.ev for s in enc(p, BC)]
                if len(q) != 1 or p.items.index(b[0]) > p.items.index(q[0]):
                    return 'the answer is not awaited'
                g = p.st.known(result(q[0]))
                if g is not True:
                    return None if g is False and p.ret in (NULL, ('null',), NONE) else 'an answer although the client was closed'
                v = p.ret if p.ret[0] != 'heap' else p.st.load(p.ret)
                t = 'best_block_height_response' if 'height' in m else 'status_request_check_success'
                if not any(x[0] == 'as' and x[2].endswith(t) and is_call(x[1], 'response::payload') and x[1][2][0] == ('out', result(q[0]), 0, 1)
                           for y in (v, p.ret) + tuple(p.st.bools) + tuple(a for i in top(p.items) for a in (i.args or ())) for x in subterms(y)) and \
                   not any(k[0] == 'is' and b and k[2].endswith(t) and is_call(k[1], 'response::payload') for k, b in p.st.bools.items()):
                    return 'another answer is handed out'
                return None
            c.every(u, 'asking the watchtower', wt)
        u = c.fn(WT + cl + '::init')
        k = c.closure(u, call('start_cluster_handler'))

        def received(p, k=k):
            ps = [s.ev for s in enc(p, call('blocking_queue_internal::push')) if own(s.ev.obj, 'm_res_q')]
            ok = [(q, b) for q, b in p.st.bools.items() if q[0] == 'call' and q[1].endswith('serializer::operator bool')]
            good = ok and all(b for _, b in ok)
            if ps and not good:
                return ('an unreadable answer is used', ps[0])
            if good and len(ps) != 1:
                return 'an answer is used %d times' % len(ps)
            return None if p.ret == NONE else 'the watchtower is answered'
        c.every(k, 'answers of the watchtower', received)
        c.every(u, 'connecting', lambda p: None if all((p.ret == TRUE) is (p.st.known(('has', result(s.ev))) is True) for s in enc(p, call('start_cluster_handler'))) and enc(p, call('start_cluster_handler')) else 'a failed connection is reported as success')
        u = c.fn(WT + cl + '::~' + cl)
        close = call('connection_manager::close', obj=NET)
        wake = call('blocking_queue_internal::clear', obj=RQ)

        def ends(p, cl=cl):
            js = [s.ev for s in enc(p, joins)]
            for t in ('m_client_thread',) + (('m_handler_thread',) if cl == 'async_client' else ()):
                jb = p.st.known(('call', 'std::thread::joinable', (F(t),), 0))
                j = [e for e in js if unver(e.obj) == F(t)]
                if jb is None:
                    return '%s is joined without knowing whether it runs' % t
                if len(j) != (1 if jb else 0):
                    return '%s is joined %d times' % (t, len(j))
                w = [i for i in top(p.items) if (wake if t == 'm_handler_thread' else close)(i)]
                if j and not (w and p.items.index(w[0]) < p.items.index(j[0])):
                    return ('waits for %s, which nothing ends' % t, j[0])
            return None
        c.every(u, 'the client ends', ends)
    u = c.fn(WT + 'async_client::init')
    k = c.closure(u, M(lambda e: lams_of(e, None) and (e.kind in ('thread',) or e.kind == 'set' and unver(e.obj) == F('m_handler_thread')), 'handler thread'))

    def dispatched(p):
        lps = [i for i in p.items if i.kind == 'loop']
        if len(lps) != 1:
            return 'answers are not handled one after the other'
        seen = set()
        for e in lps[0].edges:
            q = [i for i in e.items if i.kind == 'call' and i.q.endswith('blocking_queue_internal::pop')]
            iv = [i for i in e.items if i.kind == 'invoke']
            if len(q) != 1 or len(iv) != 1:
                return ('an answer is handled %d times' % len(iv), lps[0])
            if e.st.known(result(q[0])) is not True:
                return ('something is handled although there is no answer', iv[0])
            ty = [kk[2].split('::')[-1] for kk, b in e.st.bools.items() if kk[0] == 'is' and b and is_call(kk[1], 'response::payload') and kk[1][2][0] == ('out', result(q[0]), 0, 1)]
            h = {'status_request_check_success': 'm_su_handler', 'best_block_height_response': 'm_bbh_handler'}
            if len(ty) != 1 or not own(iv[0].obj, h.get(ty[0], '?')):
                return ('an answer goes to the wrong handler', iv[0])
            seen.add(ty[0])
        return None if len(seen) == 2 else ('a kind of answer is not handled', lps[0])
    c.every(k, 'answers are dispatched', dispatched)
    for m, f in (('set_status_update_handler', 'm_su_handler'), ('set_block_height_handler', 'm_bbh_handler')):
        c.every(c.fn(WT + 'async_client::' + m), 'handlers', Final(F(f), A(0)))
    listening(c)


REGS = call('register_handler_callback') | M(lambda e: e.kind == 'set' and unver(e.obj)[0] == 'fld' and unver(e.obj)[2] == 'm_callback', 'handler registration')


def handlers(lam):
    return True


def kind(m, k=None):
    """the answer handed out is read as the response of this request"""
    def f(p):
        r = [s.ev for s in enc(p, invoke(A(1)))] if k else []
        v = (r[0].args[0] if r else VOID) if k else p.ret
        w = v[1] if v[0] == 'some' else v
        if w == NONE or v == NONE:
            return None
        if w[0] == 'as' and ('execute_response' in w[2]) is (m == 'execute'):
            return None
        return 'an answer of another kind is handed out'
    return f


def exactly_pushed(p, k):
    ps = [s.ev for s in enc(p, call('blocking_queue_internal::push')) if own(s.ev.obj, 'm_queue')]
    if len(ps) != 1:
        return 'a request is queued %d times' % len(ps)
    v = ps[0].args[0]
    d = dict(v[2]) if v[0] == 'obj' else {}
    if (d.get('first'), d.get('second')) != (A(0, k.depth), A(1, k.depth)) and not (v[0] in ('list', 'new') and tuple(v[2]) == (A(0, k.depth), A(1, k.depth))):
        return ('something else is queued: %s' % pp(v)[:70], ps[0])
    return None


def joined(f):
    def g(p):
        j = enc(p, call('std::thread::join'))
        lps = [i for i in p.items if i.kind == 'loop' and i.dom[0] == 'each' and unver(i.dom[1]) == F(f)]
        if len(lps) != 1 or lps[0].mode != 'all':
            return 'not every worker is joined'
        for e in lps[0].edges:
            js = [i for i in e.items if i.kind == 'call' and i.q.endswith('thread::join')]
            jb = [b for kk, b in e.st.bools.items() if is_call(kk, 'thread::joinable')]
            if not js and jb != [False]:
                return ('not every worker is joined', lps[0])
        return None
    return g


def served(c, ctor, rule, kinds):
    """the handler registered calls the method of the request kind with the
    request and the callback, once, and reports whether it was accepted"""
    u = c.fn(ctor)
    k = c.closure(u, REGS, split=False)
    req, cb = A(0, k.depth), A(1, k.depth)
    seen = set()
    names = [m for m, _ in kinds.values()]

    def f(p):
        e = enc(p, call(names))
        if len(e) != 1 or e[0].loops:
            return 'a request is handled %d times' % len(e)
        ev = e[0].ev
        if not own(ev.obj, 'm_impl') or len(ev.args) < 2 or ev.args[1] != cb:
            return ('the answer goes elsewhere', ev)
        n = ev.q.split('::')[-1]
        a = ev.args[0]
        t = None
        if a[0] == 'as':
            t = a[2].split('::')[-1]
            a = a[1]
        if a != req or t not in kinds or kinds[t][0] != n:
            return ('another request is handled', ev)
        seen.add(n)
        if p.ret != result(ev) and not (p.ret in (TRUE, FALSE) and p.st.known(result(ev)) is (p.ret == TRUE)):
            return ('the outcome of handling is not reported', ev)
        return None
    c.every(k, rule, f)
    c.ob(rule, seen == set(names), c.where(u), 'a kind of request is not served')


def listening(c):
    """a server listens only after its handler is registered"""
    REGQ = ['register_raft_node', 'register_handler_callback']
    registering = set()     # classes whose constructors register a handler
    for f in c.P.funcs.values():
        if f.get('body') and f['q'].split('::')[-1] == astq.plain(f['q']).split('::')[-2:][0] and \
           any(qmatch(REGQ, astq.plain(x.get('f') or '').split('@')[0]) for x in astq.nodes(f['body']) if x.get('k') in ('call', 'mcall')):
            registering.add(astq.plain(f['q']).rsplit('::', 1)[0])
    fs = [f for f in c.P.funcs.values() if f.get('body') and any(x.get('k') in ('call', 'mcall') and inits(x.get('f') or '') for x in astq.nodes(f['body']))]
    # a closure run on the spot is a part of the function around it
    for f in [f for f in fs if f.get('lam') or '(anonymous class)' in f['q']]:
        around = [g for g in c.P.funcs.values() if g.get('body') and g is not f and any(x.get('k') == 'lambda' and f['id'] in (x.get('id'), x.get('f'), x.get('op'), x.get('fn')) for x in astq.nodes(g['body']))]
        for g in around:
            if any(i.kind == 'call' and inits(i.fid or '') for p in c.unit(g, eventful=REGQ, opaque=REGQ + ['tcp_server::init'], split=False).paths for i in top(p.items)):
                fs = [h for h in fs if h is not f and h is not g] + [g]
    for f in fs:
        u = c.unit(f, eventful=REGQ, opaque=REGQ + ['tcp_server::init'], split=False)
        cls = astq.plain(f['q']).rsplit('::', 1)[0]

        def registers(i):
            if i.kind == 'call' and qmatch(REGQ, i.q):
                return True
            return i.kind == 'set' and i.args[0][0] == 'heap' and astq.plain(i.args[0][1]) in registering

        def g(p, cls=cls):
            its = top(p.items)
            for n, i in enumerate(its):
                if i.kind == 'call' and inits(i.fid or ''):
                    if cls in registering and unver(i.obj)[0] == 'fld':
                        continue
                    if not any(registers(j) for j in its[:n]):
                        return ('starts listening before there is a handler', i)
            return None
        c.every(u, 'a handler is registered before listening', g)
    c.ob('servers that listen', len(fs) >= 5, '', 'only %d functions that start a server were found' % len(fs))


def inits(i):
    return ('tcp_server' in i or 'json_rpc_http_server' in i) and re.search(r'::init(\(|@|$)', astq.plain(i) + '(')
