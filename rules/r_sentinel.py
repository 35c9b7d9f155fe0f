"""Sentinels: validate, collect attestations, forward."""
from lib import *
from r_net import exactly

MAP = F('m_attestations')
THR = F('m_opts.m_attestation_threshold')
KEY, SECP = F('m_privkey'), F('m_secp')
ID = F('m_sentinel_id')
KEYS = F('m_opts.m_sentinel_private_keys')
CLI = F('m_sentinel_clients')
PEERS, EPS = F('m_opts.m_sentinel_endpoints'), F('m_opts.m_shard_endpoints')
OP = ['gather_attestations$', 'send_compact_tx$', 'check_tx$', 'compact_tx::sign$', 'validate_result_handler$', 'execute_result_handler$', 'result_handler$', 'send_transaction$']


def bare_(t):
    while t[0] in ('with', 'ver', 'asm') and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    return t


def fresh(t, tx):
    """the compact transaction of tx, as constructed"""
    return t[0] == 'new' and t[1].split('::')[-1] == 'compact_tx' and t[2] == (tx,)


def checked(tx):
    return ('call', 'cbdc::transaction::validation::check_tx', (tx,), 0)


def own(t, tx):
    """this sentinel's signature of tx"""
    return is_call(t, 'compact_tx::sign') and fresh(bare_(t[2][0]), tx) and t[2][1:] == (SECP, KEY)


def added(t):
    """the pairs (key, value) added to the attestations of a transaction
    value, None if anything else was changed"""
    out = []
    while t[0] == 'with':
        for path, v in t[2]:
            names = [s for s in path]
            if len(names) == 2 and names[0] == ('fld', 'm_attestations') and names[1][0] == 'at':
                out.append((names[1][1], v))
            elif len(names) == 1 and names[0] == ('fld', 'm_attestations') and v[0] == 'ver':
                continue
            else:
                return None
        t = t[1]
    return out


def one(p, m, what):
    e = enc(p, m)
    if len(e) != 1 or e[0].loops:
        return None, ((what + ' %d times' % len(e)), e[0].ev if e else None)
    return e[0].ev, None


@prop('T04', files=['uhs/twophase/sentinel_2pc/controller.cpp', 'uhs/atomizer/sentinel/controller.cpp'], assumptions=[
    'the sentinels configured are enough to reach the attestation threshold'])
def t04(c):
    """sentinels forward exactly the valid transactions, sufficiently attested"""
    for two in (True, False):
        T = 'cbdc::sentinel_2pc::controller' if two else 'cbdc::sentinel::controller'
        for n in ('m_privkey', 'm_secp', 'm_sentinel_clients', 'm_rand_mut', 'm_opts', 'm_sentinel_id'):
            c.field(T, n)
        execute(c, T, two)
        collect(c, T, two)
        send2(c, T) if two else send1(c, T)
        setup(c, T, two)


def execute(c, T, two):
    ST = lambda n: ('enum', 'cbdc::sentinel::tx_status::' + n)
    tx = A(0)
    G = call('controller::gather_attestations')
    fwd = G | call('controller::send_compact_tx') | call('controller::send_transaction') | call('coordinator::rpc::client::execute_transaction') | call('connection_manager::send')
    bad = Has(checked(tx))

    def answer(t, status, err):
        t = t[1] if t[0] == 'some' else t
        d = dict(t[2]) if t[0] == 'obj' else {}
        s = d.get('m_tx_status', VOID)
        ok = s[0] in ('enum', 'i') and str(s[1]).split('::')[-1] == status
        e = d.get('m_tx_error', VOID)
        return ok and (e == checked(tx) if err else e in (NONE, checked(tx)))

    def gathered(p):
        """own signature added if any is wanted; then more are collected"""
        g, e = one(p, G, 'the transaction is passed on')
        if e:
            return e
        a = g.args
        ct = a[2] if two else a[1]
        if a[0] != tx or two and a[1] != A(1):
            return ('another transaction or callback is passed on', g)
        if not fresh(bare_(ct), tx):
            return ('the transaction passed on is not the compact form of the one received', g)
        ad = added(ct)
        zero = p.st.known(compare('==', THR, I_(0)))
        if ad is None:
            return ('the transaction passed on was altered', g)
        if not ad:
            return None if zero is True else ('the own attestation is missing', g)
        s = [x.ev for x in enc(p, call('compact_tx::sign'))]
        if len(s) != 1 or not own(result(s[0]), tx):
            return ('not signed with the own key', s[0] if s else g)
        r = result(s[0])
        if len(ad) != 1 or ad[0] != (('fld', r, 'first'), ('fld', r, 'second')):
            return ('another attestation than the own one is added', g)
        req = a[3] if two else a[2]
        return None if p.st.known(compare('==', ('size', req), I_(0))) is True or req in (('list', ()), ('new', 'set', ())) or pp(req) == '{}' else ('sentinels count as asked already', g)

    if two:
        u = c.fn(T + '::execute_transaction', opaque=OP)
        c.cases(u, 'transactions', [
            ('invalid', bad, [Never(fwd), Ret(TRUE), lambda p: None if [answer(s.ev.args[0], 'static_invalid', True) and s.ev.obj == A(1) and not s.loops for s in enc(p, invoke())] == [True] else 'an invalid transaction is not answered with its error']),
            ('valid', Not(bad), [gathered, Never(invoke()), Ret(TRUE)]),
        ])
    else:
        u = c.fn(T + '::execute_transaction', opaque=[o for o in OP if 'send_transaction' not in o], inline=['sentinel::controller::send_transaction$'])
        c.cases(u, 'transactions', [
            ('invalid', bad, [Never(fwd), lambda p: None if answer(p.ret, 'static_invalid', True) else 'an invalid transaction is not answered with its error']),
            ('valid', Not(bad), [gathered, lambda p: None if answer(p.ret, 'pending', False) else 'answers %s' % pp(p.ret)[:100]]),
        ])
    u = c.fn(T + '::validate_transaction', opaque=OP)

    def attested(p):
        if two:
            i, e = one(p, invoke(A(1)), 'answers')
            if e:
                return e
            v = i.args[0]
        else:
            v = p.ret
        if holds(bad, Ctx(p.st, p.items)) is not False:
            return None if v == NONE else 'attests to an invalid transaction'
        return None if v[0] == 'some' and own(v[1], tx) else 'does not answer with the own attestation'
    c.cases(u, 'attesting', [('invalid', bad, [attested, Never(fwd)]), ('valid', Not(bad), [attested, Never(fwd)])])
    if two:
        u = c.fn(T + '::result_handler')
        c.cases(u, 'results', [
            (n, cond, [lambda p, n=n: None if [s.ev.obj == A(1) and not s.loops and (s.ev.args[0] == NONE if n is None else answer2(s.ev.args[0], n)) for s in enc(p, invoke())] == [True] else 'the result is reported wrongly'])
            for n, cond in ((None, Not(Has(A(0)))), ('confirmed', And(Has(A(0)), A(0))), ('state_invalid', And(Has(A(0)), Not(A(0)))))])


def answer2(t, status):
    t = t[1] if t[0] == 'some' else t
    d = dict(t[2]) if t[0] == 'obj' else {}
    s = d.get('m_tx_status', VOID)
    return s[0] in ('enum', 'i') and str(s[1]).split('::')[-1] == status and d.get('m_tx_error', VOID) == NONE


def collect(c, T, two):
    """attestations are collected from distinct sentinels until enough"""
    k = 1 if two else 0
    ctx, req = A(1 + k), A(2 + k)
    ASK, G, S = call('validate_transaction'), call('controller::gather_attestations'), call('controller::send_compact_tx')
    VH = call('controller::validate_result_handler')
    u = c.fn(T + '::gather_attestations', opaque=OP)

    def asks(p):
        e = enc(p, ASK)
        if enc(p, S):
            return ('sent without enough attestations', enc(p, S)[0].ev)
        if not e:
            return 'nobody is asked for an attestation'
        for s in e:
            if len(s.loops) > 1 or s.ev.args[0] != A(0):
                return ('asks for another transaction', s.ev)
            m = match_client(s.ev.obj)
            if m is None:
                return ('asks %s' % pp(s.ev.obj)[:80], s.ev)
            st = s.loops[-1][1].st if s.loops else s.ev.st
            if holds(In(req, m), Ctx(s.ev.st, [])) is not False and holds(In(req, m), Ctx(st, [])) is not False:
                return ('asks a sentinel that was asked already', s.ev)
        ok = [s for s in e if p.st.known(result(s.ev)) is True]
        # leaves the loop exactly after a successful request
        for lp in [i for i in p.items if i.kind == 'loop']:
            for ed in lp.edges:
                own_ = [s.ev for s in e if any(x[1] is ed for x in s.loops)]
                if len(own_) > 1:
                    return ('several sentinels are asked at once', own_[1])
        return None

    def match_client(t):
        t = bare_(t)
        while t[0] in ('deref',):
            t = t[1]
        if t[0] == 'at' and unver(t[1]) == CLI:
            return t[2]
        return None
    enough = Ge(('size', ('fld', ctx, 'm_attestations')), THR)
    c.cases(u, 'collecting', [
        ('enough', enough, [exactly(S, *((ctx, A(1)) if two else (ctx,))), Never(ASK)]),
        ('too few', Not(enough), [asks]),
    ])
    until_asked(c, u, ASK)
    n = 0
    for s, q in c.closures(u, ASK):
        n += 1
        m = match_client(s.ev.obj)

        def back(p):
            v, e = one(p, VH, 'the answer is handled')
            if e:
                return e
            a = v.args
            if a[0] != A(0, q.depth) or a[1] != A(0) or two and a[2] != A(1) or a[2 + k] != ctx:
                return ('the answer is handled with something else', v)
            r = a[3 + k]
            f = Ctx(v.st, [])
            if holds(In(r, m), f) is not True:
                return ('the sentinel that answered may be asked again', v)
            base = unver(r)
            base = base if base == req else (q_origin(p, base))
            return None if base == req else ('sentinels asked before are forgotten', v)

        def q_origin(p, b):
            if b[0] != 'loc':
                return b
            for i in p.items:
                if i.kind == 'mut' and unver(i.obj) == b:
                    pre = i.pre if getattr(i, 'pre', None) is not None else None
                    if pre is not None:
                        return unver(pre)
            return copies.get(b, b)
        copies = {}
        c.every(q, 'answers of other sentinels', back)
    c.ob('answers of other sentinels', n > 0, c.where(u), 'nobody waits for the answer')
    u = c.fn(T + '::validate_result_handler', opaque=OP)
    tx = A(1)
    C3 = A(2 + k)

    def inserted(p):
        g, e = one(p, G, 'collecting goes on')
        if e:
            return e
        a = g.args
        x = a[1 + k]
        if a[0] != tx or two and a[1] != A(2) or a[2 + k] != A(3 + k) or bare_(x) != C3:
            return ('collecting goes on with something else', g)
        return None if added(x) == [(('fld', A(0), 'first'), ('fld', A(0), 'second'))] else ('the attestation received is not added', g)
    none = [Never(G | S)]
    if two:
        none.append(lambda p: None if [(s.ev.obj, s.ev.args[0]) for s in enc(p, invoke())] == [(A(2), NONE)] else 'a refusal is not reported')
    c.cases(u, 'attestations received', [
        ('attested', Has(A(0)), [inserted, Never(invoke())]),
        ('refused', Not(Has(A(0))), none),
    ])


def until_asked(c, u, ASK):
    """the function returns only when a request was accepted for sending"""
    def f(p):
        e = enc(p, ASK)
        last = [s for s in e if not s.loops]
        for s in e:
            r = result(s.ev)
            if not s.loops:
                if p.st.known(r) is not True:
                    return ('gives up although nobody was asked', s.ev)
                continue
            lp, ed = s.loops[0]
            if ed.st.known(r) is False:
                continue
            flags = [k for k, v in ed.st.mem.items() if v == r and p.st.known(('lv', k, lp.L)) is True and all(
                x is ed or x.st.mem.get(k) in (FALSE, ('lv', k, lp.L)) or any(y.loops and y.loops[0][1] is x and x.st.mem.get(k) == result(y.ev) for y in e) for x in lp.edges)]
            if not flags:
                return ('goes on whether or not the request was accepted', s.ev)
        return None if last or all(s.loops for s in e) else 'gives up although nobody was asked'
    c.every(u, 'asking until accepted', f)


def send2(c, T):
    E = call('coordinator::rpc::client::execute_transaction')
    u = c.fn(T + '::send_compact_tx', opaque=OP)

    def sent(p):
        e = enc(p, E)
        if not e:
            return 'the transaction is not sent'
        for s in e:
            if unver(s.ev.obj) != F('m_coordinator_client') or s.ev.args[0] != A(0):
                return ('something else is sent', s.ev)
            if s.loops and s.loops[-1][1].st.known(result(s.ev)) is not False:
                return ('sent again although accepted', s.ev)
        out = [s for s in e if not s.loops]
        return None if len(out) == 1 and p.st.known(result(out[0].ev)) is True else ('gives up although not accepted', e[0].ev)
    c.every(u, 'sending', sent)
    n = 0
    for s, k in c.closures(u, E):
        n += 1
        c.every(k, 'result of the coordinator', exactly(call('controller::result_handler'), A(0, k.depth), A(1)))
    c.ob('result of the coordinator', n > 0, c.where(u), 'the result is not waited for')


def send1(c, T):
    """each input is sent to one connected shard holding it, whole transactions only"""
    SD, INS = F('m_shard_data'), F('m_inputs', A(0))
    SEND = call('connection_manager::send') | call('connection_manager::broadcast') | call('connection_manager::send_to_one')
    u = c.fn(T + '::send_compact_tx')

    def shard(t, lp):
        """a shard that is another one in every round of the loop"""
        t = unver(t)
        if t[0] == 'elem' and unver(t[1]) == SD:
            return t[2] == lp.L
        if t[0] != 'at' or unver(t[1]) != SD:
            return False
        i, ix = t[2], ('ix', SD, lp.L)
        if i == ix:
            return True
        if i[0] == 'op' and i[1] == '%' and i[2][1] == ('size', SD):
            x = i[2][0]
            d = dict(x[2]) if x[0] == 'lin' else {x: 1}
            return d.pop(ix, 0) == 1 and not any(mentions_t(k, ix) for k in d)
        return False

    def sends(p):
        lps = [i for i in p.items if i.kind == 'loop' and i.dom[0] in ('each', 'range') and (unver(i.dom[1]) == SD or i.dom[-1] == ('size', SD))]
        e = enc(p, SEND)
        if not e and not lps:
            return None if p.st.known(compare('==', ('size', SD), I_(0))) is True or p.st.known(compare('==', ('size', INS), I_(0))) is True else 'no shard is looked at'
        if len(lps) != 1 or any(not s.loops or s.loops[0][0] is not lps[0] for s in e):
            return 'shards are not gone through once'
        lp = lps[0]
        S = {unver(x.ev.obj) for x in enc(p, M(lambda ev: ev.kind == 'mut' and ev.args and unver(ev.obj)[0] == 'loc', 'marks')) if x.loops}
        if len(S) != 1:
            return 'inputs are not marked as sent'
        S = S.pop()
        if lp.mode != 'all' and p.st.known(compare('==', ('size', ('ver', S, lp.L)), ('size', INS))) is not True:
            return 'stops although inputs are left'
        return next((r for r in (rnd(lp, ed, S) for ed in lp.edges) if r), None)

    def rnd(lp, ed, S):
        con = [i for i in top(ed.items) if i.kind == 'call' and qmatch('connection_manager::connected', i.q)]
        snd = [i for i in top(ed.items) if SEND(i)]
        marks = [s for s in enc(EdgePath(ed), M(lambda ev: ev.kind in ('mut', 'set') and ev.obj is not None and unver(ev.obj) == S, 'marks'))]
        if len(con) > 1 or any(s not in snd for s in [x.ev for x in enc(EdgePath(ed), SEND)]):
            return ('the same shard is used repeatedly', con[1] if len(con) > 1 else None)
        up = ed.st.known(result(con[0])) if con else None
        if not con or up is None:
            return ('uses a shard without looking whether it is connected', (snd or [None])[0]) if snd or marks else None
        sh = con[0].args[0]
        if sh[0] != 'fld' or sh[2] != 'm_peer_id' or not shard(sh[1], lp):
            return ('does not look at every shard', con[0])
        sh = sh[1]
        if not up:
            return ('sends to a shard that is not connected', (snd + [m.ev for m in marks])[0]) if snd or marks else None
        inner = [i for i in ed.items if i.kind == 'loop']
        if len(inner) != 1 or inner[0].mode != 'all' or unver(inner[0].dom[1]) != INS and inner[0].dom[-1] != ('size', INS):
            if not inner and not snd and ed.st.known(compare('==', ('size', INS), I_(0))) is True:
                return None
            return ('not every input is looked at', con[0])
        il = inner[0]
        el, ix = ('elem', INS, il.L), ('ix', INS, il.L)
        hit = set()
        for x in il.edges:
            own_ = [m.ev for m in marks if any(y[1] is x for y in m.loops)]
            st = x.st
            rng = st.known(('call', 'cbdc::config::hash_in_shard_range', (('fld', sh, 'm_range'), el), 0))
            was = [st.known(('in', t, k)) for t in (('ver', S, il.L), ('ver', S, lp.L), S) for k in (ix, el)]
            was = next((w for w in was if w is not None), None)
            if own_:
                if len(own_) != 1 or own_[0].kind != 'mut' or own_[0].args[0] not in (ix, el):
                    return ('marks something else than the input', own_[0])
                if was is not False or rng is not True:
                    return ('marks an input that is not in the range of the shard or was sent before', own_[0])
                hit.add(id(x))
            elif was is not True and rng is not False:
                return ('leaves out an input of the shard', con[0])
        if len(marks) != sum(1 for x in il.edges if id(x) in hit):
            return ('marks inputs outside of the search', marks[0].ev)
        must = any(id(x) in hit for x in il.must or ())
        if must != bool(snd) or hit and not must:
            return ('sends to a shard that holds no further input' if snd else 'does not send to a shard holding an input', (snd or con)[0])
        if snd:
            s = snd[0]
            v = s.args[0]
            v = s.st.load(v) if v[0] in ('heap', 'loc') else v
            v = v[2][0] if v[0] == 'new' and v[2] else v
            if len(snd) != 1 or not qmatch('connection_manager::send', s.q) or s.args[1] != ('fld', sh, 'm_peer_id') or unver(s.obj) != F('m_shard_network'):
                return ('sends to another shard', s)
            if not is_call(v, 'make_buffer') or v[2] != (A(0),):
                return ('sends something else than the transaction', s)
        return None
    c.every(u, 'inputs reach their shards', sends)
    c.ob('inputs reach their shards', any(enc(p, SEND) for p in u.rets), c.where(u), 'transactions are never sent')


def setup(c, T, two):
    """own key, one client per other sentinel, shards with their own ranges"""
    u = c.fn(T + '::init')
    key = In(KEYS, ID)

    def client(p):
        """every other sentinel gets one client"""
        for s in enc(p, push(CLI)):
            if len(s.loops) != 1:
                return ('a sentinel is added outside of the configured ones', s.ev)
            lp, ed = s.loops[0]
            if unver(lp.dom[1]) != PEERS:
                return ('a sentinel is added that is not configured', s.ev)
            x = s.ev.st.load(s.ev.args[0]) if s.ev.args[0][0] == 'heap' else s.ev.args[0]
            el = ('elem', PEERS, lp.L)
            if el not in list(subterms(x)):
                return ('the client of another sentinel is added', s.ev)
            same_ = ed.st.known(compare('==', el, ('at', PEERS, ID)))
            if same_ is None:
                same_ = ed.st.known(compare('==', ('ix', PEERS, lp.L), ID))
            if same_ is not False:
                return ('the sentinel itself is one of those asked', s.ev)
        for lp in p.items:
            if lp.kind == 'loop' and lp.dom[0] == 'each' and unver(lp.dom[1]) == PEERS and p.ret == TRUE:
                for ed in lp.edges:
                    n = [i for i in ed.items if push(CLI)(i)]
                    own_ = ed.st.known(compare('==', ('elem', PEERS, lp.L), ('at', PEERS, ID)))
                    if own_ is None:
                        own_ = ed.st.known(compare('==', ('ix', PEERS, lp.L), ID))
                    if len(n) != (0 if own_ else 1):
                        return 'a sentinel is left out or added repeatedly'
        return None

    def keyed(p):
        if p.ret != TRUE:
            return None
        v = p.st.load(KEY)
        if v == ('at', KEYS, ID):
            return None
        if two and p.st.known(compare('==', THR, I_(0))) is True and v == KEY:
            return None
        return 'runs with %s as its key' % pp(v)[:80]

    def shards(p):
        n = 0
        for s in enc(p, push(F('m_shard_data'))):
            if len(s.loops) != 1:
                return ('a shard is added outside of the configured ones', s.ev)
            lp, ed = s.loops[0]
            d = dict(s.ev.args[0][2]) if s.ev.args[0][0] == 'obj' else {}
            ok = d.get('m_range') == ('at', F('m_opts.m_shard_ranges'), ('ix', EPS, lp.L))
            add = [i for i in top(ed.items) if i.kind == 'call' and qmatch('connection_manager::add', i.q)]
            if not ok or len(add) != 1 or d.get('m_peer_id') != result(add[0]):
                return ('a shard is paired with the range or peer of another', s.ev)
            x = add[0].args[0]
            con = [i for i in top(ed.items) if i.kind == 'call' and qmatch('tcp_socket::connect', i.q) and i.obj == x]
            if len(con) != 1 or con[0].args[0] != ('elem', EPS, lp.L):
                return ('connects to another shard', s.ev)
            n += 1
        if p.ret == TRUE:
            lps = [i for i in p.items if i.kind == 'loop' and i.dom[0] == 'each' and unver(i.dom[1]) == EPS]
            if not lps and p.st.known(compare('==', ('size', EPS), I_(0))) is not True:
                return 'not every shard is added'
            if any(lp.mode != 'all' or any(len([i for i in e.items if push(F('m_shard_data'))(i)]) != 1 for e in lp.edges) for lp in lps):
                return 'not every shard is added'
        return None
    c.every(u, 'own key', keyed)
    c.every(u, 'other sentinels', client)
    c.ob('other sentinels', any(enc(p, push(CLI)) for p in u.rets if p.ret == TRUE), c.where(u), 'no other sentinel is added')
    if not two:
        c.every(u, 'shards', shards)
