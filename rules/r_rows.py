"""PArSEC program arguments, and reading and writing single rows."""
from lib import *

UF = 'parsec/util.cpp'
N = 'cbdc::parsec::'
BI = 'broker::interface::'


def sub(k, p):
    return Ctx_(p)


def Ctx_(p):
    from lib import Ctx
    return Ctx(p.st, p.items)


def fin(v):
    """the value itself"""
    while v[0] in ('some', 'var', 'as'):
        v = v[1] if v[0] == 'as' or v[0] == 'some' else v[-1]
    return v


@prop('P13', files=[UF])
def p13(c):
    """reading and writing one row"""
    BE, TL, CO, FI = (call(BI + n) for n in ('begin', 'try_lock', 'commit', 'finish'))
    LT = {n: c.enum('cbdc::parsec::runtime_locking_shard::lock_type::' + n) for n in ('read', 'write')}
    EC = lambda n: c.enum('cbdc::parsec::broker::interface::error_code::' + n)
    TN = 'unsigned long'

    def stage(k, rule, m, told, good, args, fail, first=(), err=None, refused=None, also=None):
        """one step: goes on with m(args) exactly after success; the caller is
        told exactly once (with `fail`) when it does not"""
        hit = set()
        for p in k.rets:
            w = c.where(k, p)
            st = holds(good, Ctx_(p))
            ev = [x.ev for x in enc(p, m)]
            nxt = [x.ev for x in enc(p, call([BI + n for n in ('begin', 'try_lock', 'commit', 'finish', 'rollback')]))]
            said = [fin(e.args[0]) for e in allev(p.items) if e.kind == 'invoke' and e.obj == told]
            if st is None:
                c.ob(rule, False, w, 'goes on without looking at the answer', p)
                continue
            if not st:
                hit.add('failed')
                c.ob(rule, not nxt, w, 'goes on after a failure', p)
                c.ob(rule + ' [told]', said and all(x in (err or fail)(p) for x in said) and len(said) == 1, w, 'the caller is not told of the failure', p)
                continue
            ok = len(ev) == 1 and len(nxt) == 1 and ev[0].obj == A(0) and args(ev[0])
            c.ob(rule, ok, w, 'does not go on with the right request', p)
            if not ok:
                continue
            r = holds(result(ev[0]), Ctx_(p))
            if r is None:
                c.ob(rule, False, w, 'a request that is not accepted goes unnoticed', p)
                continue
            hit.add(r)
            want = list(first) + ([] if r else [None])
            c.ob(rule + ' [told]', len(said) == len(want) and all(y is None and x in (refused or fail)(p) or x == y for x, y in zip(said, want)), w, 'the caller is told wrongly', p)
        c.ob(rule, hit >= {'failed', True, False}, c.where(k), 'an outcome is missing: %s' % sorted(map(str, hit)))

    def nested(k, m):
        return [x for _, x in c.closures(k, m)]

    def ticket(d):
        return ('as', A(0, d), TN)

    for fn, lock, told in (('put_row', 'write', A(3)), ('get_row', 'read', A(2))):
        u = c.fn(N + fn)
        put = fn == 'put_row'
        c.every(u, fn + ': begins once', Does(BE, 1), Never(TL), Never(CO), Never(FI))
        no = (lambda *e: (lambda p: [FALSE])) if put else (lambda *e: (lambda p: [EC(x) for x in e]))
        if put:
            for p in u.rets:
                b = [x.ev for x in enc(p, BE)]
                c.ob(fn + ': says whether it was started', len(b) == 1 and (p.ret == result(b[0]) or p.st.known(result(b[0])) is (p.ret == TRUE)), c.where(u, p), 'returns %s' % pp(p.ret)[:60], p)
        for k1 in nested(u, BE):
            t = ticket(k1.depth)
            stage(k1, fn + ': lock', TL, told, ('is', A(0, k1.depth), TN), lambda e: (e.args[0] == t and e.args[1] == A(1) and e.args[2] == LT[lock]),
                  no('ticket_number_assignment'), refused=no('shard_unreachable'))
            if not put:
                keeps(c, k1, fn, lambda p: p.st.known(('is', A(0, k1.depth), TN)) is False, lambda p: [EC('ticket_number_assignment')])
            for k2 in nested(k1, TL):
                buf = ('is', A(0, k2.depth), 'cbdc::buffer')
                if put:
                    ups = lambda e: e.args[0] == t and pairs(e.args[1]) == [(A(1), A(2))]
                else:
                    ups = lambda e: e.args[0] == t and pairs(e.args[1]) == []
                stage(k2, fn + ': commit', CO, told, buf, ups, no('shard_unreachable'), first=() if put else (A(0, k2.depth),), refused=no('commit_error'))
                if not put:
                    keeps(c, k2, fn, lambda p: True, lambda p: [A(0, k2.depth)] if p.st.known(buf) else [EC('shard_unreachable')])
                for k3 in nested(k2, CO):
                    bad = A(0, k3.depth)
                    stage(k3, fn + ': finish', FI, told, Not(Has(bad)), lambda e: e.args[0] == t, no('finish_error'),
                          err=None if put else (lambda p: [bad, ('as', bad, 'cbdc::parsec::broker::interface::error_code'), ('as', bad, 'cbdc::parsec::runtime_locking_shard::shard_error'), x_err(bad)]))
                    for k4 in nested(k3, FI):
                        e4 = A(0, k4.depth)
                        for p in k4.rets:
                            said = [fin(e.args[0]) for e in allev(p.items) if e.kind == 'invoke' and e.obj == told]
                            h = p.st.known(('has', e4))
                            if put:
                                ok = said == [neg(('has', e4))] or h is True and said == [FALSE] or h is False and said == [TRUE]
                            else:
                                ok = said == [e4] if h else h is False and not said
                            c.ob(fn + ': outcome', ok, c.where(k4, p), 'the caller is told wrongly how it ended', p)
    # get_row waits for what the callbacks were given
    u = c.fn(N + 'get_row')
    for p in u.rets:
        pr = {t for t in subterms(p.ret) if is_call(t, 'promise::get_future')}
        c.ob('get_row: returns the row', is_call(unver(p.ret), 'future::get') and len(pr) == 1, c.where(u, p), 'does not return what the broker answered', p)


def x_err(t):
    return fin(t)


def keeps(c, k, fn, when, vals):
    """the promise the caller waits for is kept exactly once"""
    for p in k.rets:
        s = [e for e in allev(p.items) if e.kind == 'call' and e.q.endswith('promise::set_value')]
        if when(p):
            v = vals(p)
            c.ob(fn + ': the waiting caller is answered', len(s) == 1 and s[0].obj[0] == 'heap' and fin(s[0].args[0]) in v, c.where(k, p), 'the caller waits for ever or for the wrong value', p)
        else:
            c.ob(fn + ': the waiting caller is answered', not s, c.where(k, p), 'answered too early', p)


def pairs(v):
    if v[0] == 'new' and v[2]:
        v = v[2][0]
    if v[0] == 'list':
        r = []
        for x in v[2]:
            if x[0] == 'obj' and len(x[2]) == 2:
                r.append((x[2][0][1], x[2][1][1]))
            elif x[0] == 'list' and len(x[2]) == 2:
                r.append(tuple(x[2]))
            else:
                return None
        return r
    return [] if v[0] == 'new' and not v[2] else None


@prop('K05', files=[UF])
def k05(c):
    """PArSEC program arguments"""
    ps = fn_(c, 'parse_args')
    AR = ('call', 'cbdc::config::get_args', (A(0), A(1)), 0)
    sp = lambda t, d: ('call', N + 'split', (t, ('s', d)), 0)
    rule = 'arguments'
    seen = set()

    def facts(p, i):
        """is argument i fine: --name=value"""
        a = sp(('at', AR, i), '--')
        b = sp(('at', a, I_(1)), '=')
        k = p.st.known
        ok = [k(compare('==', ('size', a), I_(2))), k(compare('==', ('size', ('at', a, I_(0))), I_(0))), k(compare('==', ('size', ('at', a, I_(1))), I_(0))), k(compare('==', ('size', b), I_(2)))]
        ok[2] = None if ok[2] is None else not ok[2]
        return ok, b
    for p in ps.rets:
        w = c.where(ps, p)
        ls = [i for i in p.items if isinstance(i, Loop)]
        if len(ls) != 1 or ls[0].dom[0] != 'range' or ls[0].dom[1] != I_(1) or ls[0].dom[2] != ('size', AR):
            c.ob(rule, False, w, 'not every argument but the program name is read', p)
            continue
        l = ls[0]
        i = ('rix', l.dom[1], l.dom[2], l.L)
        for e in l.edges:
            m = [x for x in top(e.items) if x.kind in ('mut', 'set')]
            ok, b = facts(e, i)
            good = len(m) == 1 and m[0].kind == 'mut' and m[0].q in ('emplace', 'insert', 'keep', 'insert_or_assign', 'assign') and m[0].args == (('at', b, I_(0)), ('at', b, I_(1)))
            good = good or not m and any(v and q[0] == 'in' and q[2] == ('at', b, I_(0)) for q, v in e.st.bools.items())
            c.ob(rule, good and False not in ok, w, 'an argument is not recorded under its name', p)
        if p.ret == NONE:
            ok, b = facts(p, i)
            seen.add('bad')
            c.ob(rule, l.mode == 'some' and False in ok, w, 'refuses arguments that are fine', p)
        else:
            seen.add('ok')
            v = fin(p.ret)
            c.ob(rule, l.mode == 'all' and p.ret[0] == 'some' and v[0] == 'ver' and v[1][0] == 'loc', w, 'accepts an argument that cannot be understood', p)
            # none of the accepted arguments was malformed
            for e in l.edges:
                ok, b = facts(e, i)
                c.ob(rule, ok == [True] * 4 or all(x is True for x in ok), w, 'an argument is not checked: %s' % ok, p)
    c.ob(rule, seen == {'ok', 'bad'}, c.where(ps), 'an outcome is missing')
    splitting(c)

    cnt = lambda comp: ('call', 'std::stoull', (('at', A(0), ('op', '+', (comp, ('s', '_count')))), ANY, ANY), 0)
    for name, item in (('read_endpoints', lambda i: ('call', 'cbdc::config::parse_ip_port', (PR(lambda t: t[0] == 'at' and t[1] == A(0) and parts(t[2]) == [A(1), ('num', i), ('s', '_endpoint')]),), 0)),
                       ('read_cluster_endpoints', lambda i: ('call', N + 'read_endpoints', (A(0), PR(lambda t: parts(t) == [A(1), ('num', i)])), 0))):
        u = fn_(c, name)
        rule = 'endpoints: ' + name
        key = ('op', '+', (A(1), ('s', '_count')))
        seen = set()
        for p in u.rets:
            w = c.where(u, p)
            have = p.st.known(('in', A(0), key))
            ls = [i for i in p.items if isinstance(i, Loop)]
            if have is None:
                c.ob(rule, False, w, 'does not look for the number of them', p)
                continue
            if not have:
                c.ob(rule, p.ret == NONE, w, 'goes on without the number of them', p)
                seen.add('no')
                continue
            l = ls[0] if len(ls) == 1 else None
            if l is None or l.dom[0] != 'range' or l.dom[1] != I_(0) or not match(cnt(A(1)), l.dom[2], {}):
                c.ob(rule, False, w, 'not one for every index', p)
                continue
            i = ('rix', l.dom[1], l.dom[2], l.L)
            its = item(i)
            for e in l.edges:
                m = [x for x in top(e.items) if x.kind in ('mut', 'set')]
                good = len(m) == 1 and m[0].q in ('push_back', 'emplace_back') and match(its, fin(m[0].args[0]), {})
                c.ob(rule, good, w, 'an element is not read from its own argument', p)
                if good and name == 'read_cluster_endpoints':
                    c.ob(rule, e.st.known(('has', fin(m[0].args[0]))) is True, w, 'an incomplete cluster is accepted', p)
                if good and name == 'read_endpoints':
                    k = m[0].args[0][2][0][2]
                    c.ob(rule, e.st.known(('in', A(0), k)) is True, w, 'a missing endpoint is accepted', p)
            if p.ret == NONE:
                gone = any(q[0] == 'in' and q[1] == A(0) and v is False and parts(q[2])[:1] == [A(1)] for q, v in p.st.bools.items()) if name == 'read_endpoints' else any(q[0] == 'has' and v is False and match(its, q[1], {}) for q, v in p.st.bools.items())
                seen.add('missing')
                c.ob(rule, l.mode == 'some' and gone, w, 'refuses although nothing is missing', p)
            else:
                seen.add('ok')
                c.ob(rule, l.mode == 'all' and p.ret[0] == 'some' and fin(p.ret)[0] == 'ver', w, 'not all of them are returned', p)
        c.ob(rule, seen == {'no', 'missing', 'ok'}, c.where(u), 'an outcome is missing: %s' % sorted(seen))
    config(c)


def fn_(c, n):
    return c.fn(N + n, opaque=[x + '$' for x in ('parsec::split', 'parsec::read_endpoints', 'read_cluster_endpoints', 'parsec::parse_args') if not x.endswith('::' + n) and x != n], eventful=[])


def parts(t):
    """the pieces of a text"""
    if t[0] == 'op' and t[1] == '+':
        return [y for x in t[2] for y in parts(x)]
    if is_call(t, 'std::to_string') or is_call(t, 'to_string'):
        return [('num', t[2][0])]
    return [t]


def splitting(c):
    """cut at every occurrence of the separator"""
    u = fn_(c, 'split')
    rule = 'splitting a text'
    for p in u.rets:
        w = c.where(u, p)
        ls = [i for i in p.items if isinstance(i, Loop)]
        out = unver(p.ret)
        ok = len(ls) == 1 and ls[0].dom[0] == 'while' and out[0] == 'loc'
        if not ok:
            c.ob(rule, False, w, 'the text is not cut at every separator', p)
            continue
        l = ls[0]
        FIND = PR(lambda t: is_call(t, 'basic_string::find') and t[2][0] == A(0) and t[2][1] == A(1))
        ps_ = set()
        for e in l.edges:
            m = [x for x in top(e.items) if x.kind == 'mut' and unver(x.obj) == out]
            ok = len(m) == 1 and m[0].q in ('push_back', 'emplace_back') and is_call(m[0].args[0], 'basic_string::substr') and m[0].args[0][2][0] == A(0)
            c.ob(rule, ok, w, 'a part is not kept', p)
            if not ok:
                continue
            s0, n0 = m[0].args[0][2][1:3]
            fs = [t for t in subterms(n0) if is_call(t, 'basic_string::find') and t[2][:2] == (A(0), A(1))]
            c.ob(rule, s0[0] == 'lv' and len(set(fs)) == 1 and fs[0][2][2] == s0 and n0 == l_add(fs[0], s0, -1), w, 'a part is not what lies between two separators', p)
            nxt = e.st.load(s0[1]) if s0[0] == 'lv' else None
            c.ob(rule, bool(fs) and nxt == l_add(fs[0], ('size', A(1)), 1), w, 'the next part does not start after the separator', p)
            c.ob(rule, bool(fs) and e.st.known(compare('==', fs[0], ('glob', 'std::basic_string::npos'))) is not True, w, 'goes on without a separator', p)
        m = [x for x in p.items if not isinstance(x, Loop) and x.kind == 'mut' and unver(x.obj) == out]
        ok = len(m) == 1 and m[0].q in ('push_back', 'emplace_back') and is_call(m[0].args[0], 'basic_string::substr') and m[0].args[0][2][0] == A(0) and m[0].args[0][2][1][0] == 'lv' and p.items.index(m[0]) > p.items.index(l)
        c.ob(rule, ok, w, 'the last part is lost', p)


def config(c):
    """every option from its own argument, with its default"""
    u = fn_(c, 'read_config')
    O = ('call', N + 'parse_args', (A(0), A(1)), 0)
    CFG = 'cbdc::parsec::config'
    at_ = lambda k: ('at', O, ('s', k))
    has_ = lambda p, k: p.st.known(('in', O, ('s', k)))
    num = lambda k: PR(lambda t: is_call(t, 'std::stoull') and t[2][0] == at_(k))
    LL = c.enum('cbdc::logging::log_level::trace')
    LT = {n: c.enum('cbdc::parsec::load_type::' + n) for n in ('transfer', 'erc20')}
    RT = {n: c.enum('cbdc::parsec::runner_type::' + n) for n in ('evm', 'lua')}
    ends = {'m_ticket_machine_endpoints': ('read_endpoints', 'ticket_machine'), 'm_shard_endpoints': ('read_cluster_endpoints', 'shard'), 'm_agent_endpoints': ('read_endpoints', 'agent')}
    for f in list(ends) + ['m_component_id', 'm_loglevel', 'm_node_id', 'm_load_type', 'm_contention_rate', 'm_loadgen_accounts', 'm_runner_type']:
        c.field(CFG, f)
    n = {}

    def is_(p, k, v):
        return p.st.known(compare('==', at_(k), ('s', v)))

    def zero(v):
        return v is None or v[0] == 'new' and not v[2] or pp(v).strip("'") in ('0', '0.0', '0.') or v in (I_(0), ('s', '0')) or v[0] == 's' and v[1] in ('0', '0.0', '0.') or v[0] == 'f' or v[0] == 'enum' and v[-1] == 0
    for p in u.rets:
        w = c.where(u, p)
        e_ = {f: ('call', N + g, (O, ('s', k)), 0) for f, (g, k) in ends.items()}
        bad = [p.st.known(('has', O)) is False, has_(p, 'component_id') is False] + [p.st.known(('has', e)) is False for e in e_.values()]
        for k, vals in (('loadgen_txtype', ('transfer', 'erc20')), ('runner_type', ('evm', 'lua'))):
            bad.append(has_(p, k) is True and all(is_(p, k, v) is False for v in vals))
        if p.ret == NONE:
            c.ob('arguments are refused only if something is missing', any(bad), w, 'refuses a complete set of arguments', p)
            n['no'] = 1
            continue
        v = fin(p.ret)
        if v[0] != 'obj':
            c.ob('options', False, w, 'returns something else', p)
            continue
        fs = dict(v[2])
        c.ob('required options', p.st.known(('has', O)) is True and has_(p, 'component_id') is True and all(p.st.known(('has', e)) is True for e in e_.values()), w, 'goes on without a required argument', p)
        c.ob('required options', match(num('component_id'), fs.get('m_component_id'), {}), w, 'component_id: another value', p)
        for f, e in e_.items():
            c.ob('endpoints', fs.get(f) is not None and fin(fs[f]) == e, w, '%s: another value' % f, p)

        def opt(k, f, given, other):
            h = has_(p, k)
            x = fs.get(f)
            if h is None:
                ok = False
            elif h:
                ok = given(x)
            else:
                ok = other(x)
            n[(k, h)] = 1
            c.ob('option ' + k, bool(ok), w, '%s is %s' % (f, pp(x)[:60] if x is not None else 'not set'), p)
        pl = ('call', 'cbdc::logging::parse_loglevel', (at_('loglevel'),), 0)
        opt('loglevel', 'm_loglevel', lambda x: x == (LL if p.st.known(('has', pl)) is False else pl) and p.st.known(('has', pl)) is not None or is_call(x, 'value_or') and x[2] == (pl, LL), lambda x: x == LL)
        opt('node_id', 'm_node_id', lambda x: x is not None and match(num('node_id'), fin(x), {}), lambda x: x in (None, NONE))

        def alt(k, tbl):
            return lambda x: any(is_(p, k, a) is True and x == t for a, t in tbl.items())
        opt('loadgen_txtype', 'm_load_type', alt('loadgen_txtype', LT), lambda x: x is None or x == LT['transfer'] or zero(x))
        opt('runner_type', 'm_runner_type', alt('runner_type', RT), lambda x: x is None or x == RT['evm'])
        opt('contention_rate', 'm_contention_rate', lambda x: x is not None and is_call(x, ['std::stod', 'stod']) and x[2][0] == at_('contention_rate'), lambda x: zero(x))
        opt('loadgen_accounts', 'm_loadgen_accounts', lambda x: match(num('loadgen_accounts'), x, {}), lambda x: x == I_(1000))
    for k in ('loglevel', 'node_id', 'loadgen_txtype', 'runner_type', 'contention_rate', 'loadgen_accounts'):
        c.ob('option ' + k, (k, True) in n and (k, False) in n, c.where(u), 'never looked for')
    c.ob('arguments are refused only if something is missing', 'no' in n, c.where(u), 'nothing is ever refused')
