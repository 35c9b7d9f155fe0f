"""Contracts run by the Lua runner."""
from lib import *
from lib import Ctx

LF = 'parsec/agent/runners/lua/impl.cpp'
OP = ['schedule_contract', 'contract_epilogue', 'get_stack_string', 'handle_try_lock']
N = 'cbdc::parsec::agent::runner::lua_runner::'
L = F('m_state')
OK, YIELD = ('i', 0), ('i', 1)
TABLE, STRING = ('i', 5), ('i', 4)


def fin(v):
    while v[0] in ('some', 'var'):
        v = v[-1]
    return v


def lua(p, name, *args):
    """calls of name with these first arguments (None: any)"""
    return [e for e in allev(p.items) if e.kind == 'call' and e.q == name and len(e.args) >= len(args)
            and all(w is None or w == a or callable(w) and w(a) for w, a in zip(args, e.args))]


def content(x):
    """(matcher of its bytes, matcher of its length) of a buffer"""
    x = unver(x)

    def m(*n):
        return lambda t: t[0] == 'call' and t[1].split('::')[-1] in n and unver(t[2][0]) == x
    return m('c_str', 'data'), m('size')


def kn(p, c):
    return holds(c, Ctx(p.st, p.items))


@prop('P14', files=[LF])
def p14(c):
    """a contract: loaded, run, its locks taken, its result reported"""
    EC = lambda n: c.enum('cbdc::parsec::agent::runner::interface::error_code::' + n)
    WRITE = c.enum('cbdc::parsec::runtime_locking_shard::lock_type::write')
    GS = call('lua_runner::get_stack_string')
    HT = call('lua_runner::handle_try_lock')
    SC = call('lua_runner::schedule_contract')
    EP = call('lua_runner::contract_epilogue')
    RCB, TCB = F('m_result_callback'), F('m_try_lock_callback')

    def told(p):
        return [fin(e.args[0]) for e in allev(p.items) if e.kind == 'invoke' and e.obj == RCB]

    def evs(p, m):
        return [e for e in allev(p.items) if m(e)]

    def verdict(u, p, rule, report, goes=None, n=1):
        """exactly one thing happens: a report, or the next step"""
        w = c.where(u, p)
        t = told(p)
        c.ob(rule + ': reported once', t == ([EC(report)] if report else []), w, 'reports %s' % ', '.join(pp(x)[:60] for x in t), p)
        for m in (SC, EP):
            k = evs(p, m)
            c.ob(rule + ': goes on', len(k) == (n if goes is m else 0), w, '%s %d times' % (m.name, len(k)), p)

    # run
    u = c.fn(N + 'run', opaque=OP)
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        S = p.st.load(L)
        c.ob('run: answers that it ran', p.ret == TRUE, w, 'returns %s' % pp(p.ret)[:40], p)
        h = kn(p, Has(S))
        if h is not True:
            hit.add('no state')
            c.ob('run: a state that was not allocated', h is False, w, 'not checked', p)
            verdict(u, p, 'run', 'internal_error')
            c.ob('run: nothing without a state', not lua(p, 'luaL_loadbufferx'), w, 'loads without a state', p)
            continue
        c.ob('run: a fresh state', is_call(S, 'luaL_newstate'), w, 'the state is %s' % pp(S)[:60], p)
        fb, fs = content(F('m_function'))
        ld = lua(p, 'luaL_loadbufferx', S, fb, fs, None, ('s', 'b'))
        c.ob('run: loads the contract as a binary chunk', len(ld) == 1 and len(lua(p, 'luaL_loadbufferx')) == 1, w, 'loads otherwise', p)
        for m in ('luaL_loadstring', 'luaL_loadfilex', 'lua_load'):
            c.ob('run: loads the contract only', not lua(p, m), w, m, p)
        if len(ld) != 1:
            continue
        good = kn(p, Eq(result(ld[0]), OK))
        if good is not True:
            hit.add('not loaded')
            c.ob('run: a chunk that did not load', good is False, w, 'not checked', p)
            verdict(u, p, 'run', 'function_load')
            continue
        pb, ps = content(F('m_param'))
        pu = lua(p, 'lua_pushlstring', S, pb, ps)
        c.ob('run: hands over the parameter', len(pu) == 1 and len(lua(p, 'lua_pushlstring')) == 1, w, 'hands over something else', p)
        if len(pu) != 1:
            continue
        good = kn(p, Has(result(pu[0])))
        if good is not True:
            hit.add('no parameter')
            c.ob('run: a parameter that was not handed over', good is False, w, 'not checked', p)
            verdict(u, p, 'run', 'internal_error')
            continue
        hit.add('runs')
        ev = list(allev(p.items))
        verdict(u, p, 'run', None, SC)
        s = evs(p, SC)
        if len(s) == 1:
            reg = lua(p, 'lua_setglobal', S, ('s', 'check_sig'))
            fn = lua(p, 'lua_pushcclosure', S, lambda t: 'check_sig' in pp(t))
            c.ob('run: offers check_sig', len(reg) == 1 and len(fn) == 1 and ev.index(fn[0]) < ev.index(reg[0]) < ev.index(ld[0]), w, 'the contract cannot check signatures', p)
            c.ob('run: loaded, handed over, then run', ev.index(ld[0]) < ev.index(pu[0]) < ev.index(s[0]), w, 'out of order', p)
    c.ob('run', hit >= {'no state', 'not loaded', 'no parameter', 'runs'}, c.where(u), 'a case is missing: %s' % sorted(hit))

    # schedule_contract
    u = c.fn(N + 'schedule_contract', opaque=OP)
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        rs = lua(p, 'lua_resume')
        c.ob('step: resumes the contract once with one argument', len(rs) == 1 and rs[0].args[0] == L and rs[0].args[2] == ('i', 1), w, 'resumes otherwise', p)
        if len(rs) != 1:
            continue
        r = result(rs[0])
        cnt = ('out', r, 3, 1)
        locks = [e for e in allev(p.items) if e.kind == 'invoke' and e.obj == TCB]
        y = kn(p, Eq(r, YIELD))
        if y is not True:
            c.ob('step: locks only what is yielded', y is False and not locks, w, 'takes a lock although the contract did not yield', p)
            o = kn(p, Eq(r, OK))
            if o is True:
                hit.add('done')
                verdict(u, p, 'step [returned]', None, EP)
                c.ob('step [returned]: passes the number of results', all(e.args == (cnt,) for e in evs(p, EP)), w, 'passes something else', p)
            else:
                hit.add('error')
                c.ob('step: an error of the contract', o is False, w, 'not told apart', p)
                verdict(u, p, 'step [failed]', 'exec_error')
            continue
        one = kn(p, Eq(cnt, ('i', 1)))
        if one is not True:
            hit.add('count')
            c.ob('step: one key at a time', one is False and not locks, w, 'not checked', p)
            verdict(u, p, 'step [yields several]', 'yield_count')
            continue
        gs = evs(p, GS)
        c.ob('step: the key is what was yielded', len(gs) == 1 and gs[0].args == (('i', -1),), w, 'reads something else', p)
        if len(gs) != 1:
            continue
        key = result(gs[0])
        s = kn(p, Has(key))
        if s is not True:
            hit.add('type')
            c.ob('step: the key is a string', s is False and not locks, w, 'not checked', p)
            verdict(u, p, 'step [yields no string]', 'yield_type')
            continue
        c.ob('step: locks the yielded key for writing', len(locks) == 1 and unver(fin(locks[0].args[0])) == unver(key) and locks[0].args[1] == WRITE, w, 'asks for another lock', p)
        if len(locks) != 1:
            continue
        ev = list(allev(p.items))
        pops = [e for e in lua(p, 'lua_settop', L) if ev.index(gs[0]) < ev.index(e) < ev.index(locks[0])]
        c.ob('step: takes the key off the stack before it asks', len(pops) == 1 == len(lua(p, 'lua_settop')) and (kn(p, Eq(pops[0].args[1], ('i', -2))) is True or pops[0].args[1] == l_add(l_add(('i', 0), cnt, -1), ('i', 1), -1)), w, 'the key stays or more goes', p)
        took = kn(p, result(locks[0]))
        hit.add(took)
        verdict(u, p, 'step [yields a key]', 'internal_error' if took is False else None)
        c.ob('step: a request that is refused', took is not None, w, 'not checked', p)
    c.ob('step', hit >= {'done', 'error', 'count', 'type', True, False}, c.where(u), 'a case is missing: %s' % sorted(map(str, hit)))
    for _, k in c.closures(u, invoke(TCB)):
        for p in k.rets:
            h = evs(p, HT)
            c.ob('lock answer is passed on once', len(h) == 1 and unver(h[0].args[0]) == A(0, k.depth), c.where(k, p), 'the answer is not passed on', p)

    # handle_try_lock
    u = c.fn(N + 'handle_try_lock', opaque=OP)
    r = A(0)
    bf = 'cbdc::buffer'
    SE = 'cbdc::parsec::runtime_locking_shard::shard_error'
    wd = c.enum('cbdc::parsec::runtime_locking_shard::error_code::wounded')
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        pu = lua(p, 'lua_pushlstring')
        if kn(p, ('is', r, bf)) is True:
            b, s = content(('as', r, bf))
            c.ob('value: handed to the contract', len(pu) == 1 and lua(p, 'lua_pushlstring', L, b, s) == pu, w, 'hands over something else', p)
            if len(pu) != 1:
                continue
            h = kn(p, Has(result(pu[0])))
            hit.add(('value', h))
            c.ob('value: may not fit', h is not None, w, 'not checked', p)
            verdict(u, p, 'value', None if h else 'internal_error', SC if h else None)
            if h:
                ev = list(allev(p.items))
                c.ob('value: handed over before the contract goes on', all(ev.index(pu[0]) < ev.index(e) for e in evs(p, SC)), w, 'out of order', p)
            continue
        c.ob('no value: nothing handed over', kn(p, ('is', r, bf)) is False and not pu, w, 'hands over a value that was not read', p)
        if kn(p, ('is', r, SE)) is True:
            k = kn(p, Eq(('fld', ('as', r, SE), fname(c, SE, 'm_error_code')), wd))
            hit.add(('shard', k))
            c.ob('wounded is told apart', k is not None, w, 'not checked', p)
            verdict(u, p, 'shard error', 'wounded' if k else 'lock_error')
        else:
            hit.add('broker')
            verdict(u, p, 'broker error', 'lock_error')
    c.ob('lock answer', hit >= {('value', True), ('value', False), ('shard', True), ('shard', False), 'broker'}, c.where(u), 'a case is missing: %s' % sorted(map(str, hit)))

    # contract_epilogue
    u = c.fn(N + 'contract_epilogue', opaque=OP)
    hit = set()
    n1, one = ('i', -1), ('i', 1)
    for p in u.rets:
        w = c.where(u, p)
        t = told(p)
        k = kn(p, Eq(A(0), one))
        if k is not True:
            hit.add('count')
            c.ob('result: exactly one', k is False, w, 'not checked', p)
            verdict(u, p, 'result', 'result_count')
            continue
        ty = ('call', 'lua_type', (L, n1), 0)
        k = kn(p, Eq(ty, TABLE))
        if k is not True:
            hit.add('type')
            c.ob('result: a table', k is False, w, 'not checked', p)
            verdict(u, p, 'result', 'result_type')
            continue
        nil = lua(p, 'lua_pushnil', L)
        lps = [i for i in p.items if i.kind == 'loop']
        c.ob('result: the table is read through', len(nil) == 1 and len(lps) == 1 and list(p.items).index(nil[0]) < list(p.items).index(lps[0]), w, 'not read through', p)
        if len(lps) != 1:
            continue
        ins = {}
        for e in lps[0].edges:
            c.ob('result: entries', pair(c, u, e, GS, ins), c.where(u, p), 'an entry of the table is not taken as it is', p)
        C = next(iter(ins), None)
        nx = [x for x in top(p.items) if x.kind == 'call' and x.q == 'lua_next']
        if len(nx) != 1 or nx[0].args != (L, ('i', -2)):
            c.ob('result: the table is read through', False, w, 'not read through', p)
            continue
        end = kn(p, Eq(result(nx[0]), ('i', 0)))
        if end is True:
            hit.add('table')
            c.ob('result: the whole table is reported', len(t) == 1 and lps[0].mode == 'all' and C is not None and C in set(map(unver, subterms(t[0]))) and len(ins) == 1, w, 'reports %s' % [pp(x)[:60] for x in t], p)
            for m in (SC, EP):
                c.ob('result: ends', not evs(p, m), w, 'goes on', p)
            continue
        c.ob('result: every entry is looked at', end is False, w, 'not checked', p)
        kt = kn(p, Eq(('call', 'lua_type', (L, ('i', -2)), 0), STRING))
        gs = [x for x in top(p.items) if GS(x)]
        bad = 'result_key_type'
        kb = [x for x in gs if x.args == (('i', -2),)]
        if kt is True and kb and kn(p, Has(result(kb[0]))) is True:
            vb = [x for x in gs if x.args == (n1,)]
            c.ob('result: values are strings', len(vb) == 1 and kn(p, Has(result(vb[0]))) is False, w, 'stops without a reason', p)
            bad = 'result_value_type'
        else:
            c.ob('result: a key is never converted', kt is True or not kb, w, 'a key that is a number is converted in place, and the table cannot be read on', p)
        hit.add(bad)
        verdict(u, p, 'result', bad)
    c.ob('result', hit >= {'count', 'type', 'table', 'result_key_type', 'result_value_type'}, c.where(u), 'a case is missing: %s' % sorted(hit))

    # get_stack_string
    u = c.fn(N + 'get_stack_string', opaque=OP)
    for p in u.rets:
        w = c.where(u, p)
        s = kn(p, Eq(('call', 'lua_isstring', (L, A(0)), 0), one))
        if s is not True:
            c.ob('stack string: only strings', s is False and p.ret == ('none',), w, 'reads what is not a string', p)
            continue
        tl = lua(p, 'lua_tolstring', L, A(0))
        ok = len(tl) == 1 and p.ret[0] == 'some'
        if ok:
            B = unver(p.ret[1])
            ap = [e for e in allev(p.items) if e.obj is not None and unver(e.obj) == B and e.q.split('::')[-1] not in ('reserve',)]
            ok = len(ap) == 1 and ap[0].q.endswith('buffer::append') and ap[0].args[0] == result(tl[0]) and ap[0].args[1][:3] == ('out', result(tl[0]), 2)
        c.ob('stack string: all of it', ok, w, 'returns something else', p)

    # check_sig
    u = c.fn(N + 'check_sig', opaque=OP)
    S = A(0)
    good = 0
    for p in u.paths:
        w = c.where(u, p)
        n = kn(p, Eq(('call', 'lua_gettop', (S,), 0), ('i', 3)))
        lp = [i for i in p.items if i.kind == 'loop']
        allstr = None
        if len(lp) == 1 and lp[0].dom[0] == 'range' and lp[0].dom[1] == ('i', 1):
            es = [e for e in lp[0].edges]
            each = all(any(x.kind == 'call' and x.q == 'lua_isstring' and x.args[0] == S and x.args[1][0] == 'rix' and e.st.known(compare('==', result(x), ('i', 1))) for x in e.items) for e in es) and bool(es)
            if each and lp[0].mode == 'all' and kn(p, Eq(lp[0].dom[2], ('i', 4))) is True:
                allstr = True
            bad = [x for x in top(p.items) if x.kind == 'call' and x.q == 'lua_isstring' and kn(p, Eq(result(x), ('i', 1))) is False]
            if bad:
                allstr = False
        tl = {i: lua(p, 'lua_tolstring', S, ('i', i)) for i in (1, 2, 3)}

        def size(i, k):
            return kn(p, Eq(('out', result(tl[i][0]), 2, tl_n(p, tl[i][0])), ('i', k))) if len(tl[i]) == 1 else None
        k1, k2 = size(1, 32), size(2, 64)
        pa = lua(p, 'secp256k1_xonly_pubkey_parse')
        par = kn(p, Eq(result(pa[0]), one)) if len(pa) == 1 else None
        ve = list({t for b in p.st.bounds for t in subterms(b) if is_call(t, 'secp256k1_schnorrsig_verify')})
        ver = kn(p, Eq(ve[0], one)) if len(ve) == 1 else None
        conds = [n, allstr, k1, k2, par, ver]
        if p.kind == 'ret':
            good += 1
            c.ob('check_sig: accepts nothing else', all(x is True for x in conds), w, 'accepts without having checked: %s' % [s for s, x in zip(('arguments', 'strings', 'key size', 'signature size', 'key', 'signature'), conds) if x is not True], p)
            c.ob('check_sig: returns no value', p.ret == ('i', 0), w, 'returns values', p)
            if not all(x is True for x in conds):
                continue
            cp = lua(p, 'memcpy')
            src = {i: result(tl[i][0]) for i in tl}

            def copied(dst, i, k=None):
                x = [e for e in cp if unver(base(e.args[0])) == unver(base(dst))]
                return len(x) == 1 and x[0].args[1] == src[i] and (x[0].args[2][:3] == ('out', src[i], 2) or k is not None and kn(p, Eq(x[0].args[2], ('i', k))) is True)
            c.ob('check_sig: the key is the first argument', copied(pa[0].args[2], 1, 32), w, 'another key', p)
            a = ve[0][2]
            c.ob('check_sig: the signature is the second argument', copied(a[1], 2, 64), w, 'another signature', p)
            c.ob('check_sig: verified with that key', unver(base(a[3])) == unver(base(pa[0].args[1])) or 'pubkey' in pp(a[3]), w, 'another key', p)
            hs = [e for e in allev(p.items) if e.kind == 'call' and e.q.startswith('CSHA256::')]
            ok = [e.q.split('::')[1] for e in hs] == ['Write', 'Finalize']
            if ok:
                x = hs[0].args
                ok = (x[0] == src[3] or copied(x[0], 3)) and whole(x[1], src[3])
            c.ob('check_sig: what is signed is the hash of the third argument', ok, w, 'another message', p)
        else:
            c.ob('check_sig: refuses only what does not hold', any(x is False for x in conds), w, 'refuses a good signature', p)
            c.ob('check_sig: raises an error', bool(lua(p, 'lua_error', S)), w, 'ends otherwise', p)
    c.ob('check_sig', good > 0, c.where(u), 'accepts nothing')


def base(t):
    while t[0] == 'call' and t[1].split('::')[-1] == 'data':
        t = t[2][0]
    return t


def whole(n, src):
    """the length of the string, or of the bytes copied from all of it"""
    if n[0] == 'size' and n[1][0] == 'call' and n[1][1] == 'bytes' and n[1][2][0] == src:
        n = n[1][2][1]
    return n[:3] == ('out', src, 2)


def tl_n(p, e):
    """which output of the call the state knows about"""
    for t in list(p.st.bounds):
        for x in subterms(t):
            if x[0] == 'out' and x[1] == result(e) and x[2] == 2:
                return x[3]
    return 1


def fname(c, T, n):
    from lib import fldterm_
    return fldterm_(('as', A(0), T), n)[2]


def pair(c, u, e, GS, ins):
    """one turn: key and value as they are, then on to the next"""
    gs = {x.args[0]: result(x) for x in e.items if GS(x)}
    k, v = gs.get(('i', -2)), gs.get(('i', -1))
    if k is None or v is None or len([x for x in e.items if GS(x)]) != 2:
        return False
    x = Ctx(e.st, e.items)
    if holds(Has(k), x) is not True or holds(Has(v), x) is not True or holds(Eq(('call', 'lua_type', (L, ('i', -2)), 0), STRING), x) is not True:
        return False
    m = [(y.obj, [unver(fin(z)) for z in y.args]) for y in e.items if y.kind == 'mut' and y.q != 'ensure']
    m += [(y.obj[1], [unver(y.obj[2]), unver(fin(y.args[0]))]) for y in e.items if y.kind == 'set' and y.obj[0] == 'at']
    if len(m) != 1 or m[0][1] != [unver(k), unver(v)]:
        return False
    pop = [y for y in e.items if y.kind == 'call' and y.q == 'lua_settop']
    nx = [y for y in e.items if y.kind == 'call' and y.q == 'lua_next']
    if len(pop) != 1 or pop[0].args != (L, ('i', -2)) or len(nx) != 1 or nx[0].args != (L, ('i', -2)):
        return False
    ins[unver(m[0][0])] = True
    return True
