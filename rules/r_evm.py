"""Transactions and queries run by the EVM runner, and the state it hands to the EVM."""
from lib import *
from lib import Ctx

IMPL = 'parsec/agent/runners/evm/impl.cpp'
HOST = 'parsec/agent/runners/evm/host.cpp'
SIGF = 'parsec/agent/runners/evm/signature.cpp'
NS = 'cbdc::parsec::agent::runner::'
R = NS + 'evm_runner::'
H = NS + 'evm_host::'
RCB, TCB = F('m_result_callback'), F('m_try_lock_callback')
BF = 'cbdc::buffer'
TX = F('m_tx')


def fin(v):
    while v[0] in ('some', 'var'):
        v = v[-1]
    return v


def kn(p, c):
    return holds(c, Ctx(p.st, p.items))


def evs(p, m):
    return [e for e in allev(p.items) if m(e)]


def mine(e, m):
    o = root(e.obj)
    return e.kind == 'invoke' and o[0] == 'fld' and o[1][0] == 'this' and o[2] == m


def told(p):
    return [fin(e.args[0]) for e in allev(p.items) if mine(e, 'm_result_callback')]


def root(t):
    return unver(t)


def locks(p):
    return [e for e in allev(p.items) if mine(e, 'm_try_lock_callback')]


def named(t, n):
    return t[0] == 'call' and t[1].split('::')[-1] == n


def wide(t):
    """256-bit arithmetic as a sum of its parts: (name, operands)"""
    return t[1].split('::')[-1] if t[0] == 'call' else None


def word(t):
    """a number written as a 256-bit word"""
    t = fin(t)
    if t[0] == 'new' and t[1].endswith('bytes32'):
        return t[2][0] if len(t[2]) else ('i', 0)
    return None


def plus(t):
    """the operands of a 256-bit sum, in any order"""
    if wide(t) == 'operator+':
        return plus(t[2][0]) + plus(t[2][1])
    return [t]


def times(t):
    return [x for x in t[2]] if wide(t) == 'operator*' else None


def same(a, b):
    return sorted(map(repr, a)) == sorted(map(repr, b))


def buf(t):
    """what a key or value was made of"""
    t = fin(t)
    return fin(t[2][0]) if named(t, 'make_buffer') else None


def entries(t):
    """key/value pairs put into a fresh table"""
    t = fin(t)
    if t[0] == 'with':
        return [(k[-1][1], fin(v)) for k, v in t[2]]
    return None


OPR = ['run_execute_transaction', 'check_signature', 'make_message', 'make_tx_context', 'check_base_gas', 'schedule_exec', 'handle_lock_from_account',
       'lock_ticket_number_key', 'lock_index_keys', 'lock_tx_receipt', 'handle_get_logs_try_lock_response', 'handle_complete_get_logs', 'make_pretend_block',
       'run_get_account', 'run_get_account_code', 'run_get_transaction', 'run_get_transaction_receipt', 'run_get_block_number', 'run_get_block', 'run_get_logs',
       'run_execute_real_transaction', 'run_execute_dryrun_transaction', 'evm_host::', 'tx_id', 'to_uint64', 'exec', 'sig_hash', 'evm_sig_to_secp256k1_ecdsa_recoverable_signature',
       'tx_encode', 'keccak_data', 'eth_addr', 'do_run']


def names(c):
    EC = {n: c.enum(NS + 'interface::error_code::' + n) for n in ('function_load', 'exec_error', 'internal_error', 'wounded')}
    LT = {n: c.enum('cbdc::parsec::runtime_locking_shard::lock_type::' + n) for n in ('read', 'write')}
    return EC, LT


@prop('E01', files=[IMPL, SIGF])
def e01(c):
    """EVM transactions: signed, numbered, paid for and locked before they run"""
    EC, LT = names(c)
    RET = call('evm_runner::run_execute_transaction')
    BAL, NON = 'm_balance', 'm_nonce'

    def one(rule, u, p, want, also=()):
        """the answers given on this path"""
        t = told(p)
        c.ob(rule + ': answer', t == ([EC[want]] if want else []), c.where(u, p), 'answers %s' % ', '.join(pp(x)[:50] for x in t), p)

    # a signed transaction runs as the account that signed it
    u = c.fn(R + 'run_execute_real_transaction', opaque=OPR)
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        tx = [result(e) for e in evs(p, call('from_buffer')) if unver(e.args[0]) == F('m_param')]
        c.ob('signed: decodes the parameter', len(tx) == 1, w, 'reads something else', p)
        go = evs(p, RET)
        if len(tx) != 1:
            continue
        if kn(p, Has(tx[0])) is not True:
            hit.add('decode')
            c.ob('signed: an undecodable transaction', kn(p, Has(tx[0])) is False and not go, w, 'not checked', p)
            one('signed [undecodable]', u, p, 'function_load')
            continue
        sg = uses('check_signature', facts_of(p), *[e.args for e in go])
        c.ob('signed: the signature of this transaction is checked', len(sg) == 1 and unv(sg[0][2][0]) == unv(tx[0]) and root(sg[0][2][1]) == F('m_secp') , w, 'checks something else', p)
        if len(sg) != 1:
            continue
        s = kn(p, Has(sg[0]))
        if s is not True:
            hit.add('signature')
            c.ob('signed: a wrong signature', s is False and not go, w, 'not checked', p)
            one('signed [wrong signature]', u, p, 'exec_error')
            continue
        hit.add('runs')
        c.ob('signed: runs as the signer, not dry', len(go) == 1 and unv(fin(go[0].args[0])) == unv(sg[0]) and go[0].args[1] == FALSE, w, 'runs as another account, or dry', p)
        c.ob('signed: runs this transaction', unv(p.st.load(TX)) == unv(tx[0]) and len(go) == 1 and before(p, lambda e: e.kind == 'set' and e.obj == TX, go[0]), w, 'another transaction is run', p)
        c.ob('signed: passes on whether it was started', len(go) == 1 and truth(p, result(go[0])) is truth(p, p.ret) is not None, w, 'returns something else', p)
        one('signed', u, p, None)
    c.ob('signed', hit == {'decode', 'signature', 'runs'}, c.where(u), 'a case is missing: %s' % sorted(hit))

    u = c.fn(R + 'run_execute_dryrun_transaction', opaque=OPR)
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        tx = [result(e) for e in evs(p, call('from_buffer')) if unver(e.args[0]) == F('m_param')]
        go = evs(p, RET)
        c.ob('dry run: decodes the parameter', len(tx) == 1, w, 'reads something else', p)
        if len(tx) != 1:
            continue
        h = kn(p, Has(tx[0]))
        hit.add(h)
        if h is not True:
            c.ob('dry run: an undecodable transaction', h is False and not go, w, 'not checked', p)
            one('dry run [undecodable]', u, p, 'function_load')
            continue
        c.ob('dry run: stays dry', len(go) == 1 and go[0].args[1] == TRUE and unv(go[0].args[0]) == ('fld', unv(tx[0]), 'm_from'), w, 'is run for real, or as another account', p)
        c.ob('dry run: runs this transaction', unv(p.st.load(TX)) == ('fld', unv(tx[0]), 'm_tx'), w, 'another transaction is run', p)
        one('dry run', u, p, None)
    c.ob('dry run', hit == {True, False}, c.where(u), 'a case is missing')

    # the signer is recovered from the signature over the whole transaction
    u = c.fn(NS + 'check_signature', opaque=OPR)
    hit = set()
    tx, chain = A(0), A(2)
    for p in u.rets:
        w = c.where(u, p)
        rec = evs(p, call('secp256k1_ecdsa_recover'))
        if p.ret == ('none',):
            bad = any(kn(p, Ne(result(e), I_(1))) is True for e in rec) or not rec
            c.ob('signer: refused only if there is none', bad, w, 'refuses a good signature', p)
            hit.add('recover' if rec else 'form')
            continue
        hit.add('signer')
        c.ob('signer: recovered once', len(rec) == 1, w, 'not recovered', p)
        if len(rec) != 1:
            continue
        c.ob('signer: only if the recovery worked', kn(p, Eq(result(rec[0]), I_(1))) is True, w, 'not checked', p)
        val = lambda x: p.st.load(x) if x[0] == 'loc' else x
        sh = uses('sig_hash', val(rec[0].args[3]))
        c.ob('signer: over the hash of this transaction and chain', len(sh) == 1 and unv(sh[0][2][0]) == tx and unv(sh[0][2][1]) == chain, w, 'over something else', p)
        es = uses('evm_sig_to_secp256k1_ecdsa_recoverable_signature', val(rec[0].args[2]))
        c.ob('signer: with the signature of this transaction', bool(es) and all(unv(t[2][0]) == ('fld', tx, 'm_sig') and unv(t[2][1]) == ('fld', tx, 'm_type') and unv(t[2][2]) == chain for t in es)
             and any(kn(p, Has(t)) is True for t in es), w, 'with another signature', p)
        c.ob('signer: is the answer', is_call(fin(p.ret), 'eth_addr'), w, 'answers something else', p)
    c.ob('signer', hit == {'recover', 'form', 'signer'}, c.where(u), 'a case is missing: %s' % sorted(hit))
    u = c.fn(NS + 'sig_hash', opaque=OPR)
    for p in u.rets:
        t = fin(p.ret)
        e = uses('tx_encode', t)
        c.ob('signed hash: of the whole transaction as signed', is_call(t, 'keccak_data') and bool(e) and all(unv(x[2][0]) == A(0) and unv(x[2][1]) == A(1) and x[2][2] == TRUE for x in e), c.where(u, p), 'hashes something else', p)

    # gas and the message handed to the EVM
    u = c.fn(R + 'check_base_gas', opaque=OPR)
    hit = set()
    tx, dry = A(0), A(1)
    lim = ('fld', tx, 'm_gas_limit')
    for p in u.rets:
        w = c.where(u, p)
        v = p.ret
        parts = sorted(str(word(x)) for x in plus(pick(v, 'first')))
        cr = kn(p, Has(('fld', tx, 'm_to')))
        c.ob('base gas: creation is told apart', cr is not None, w, 'not checked', p)
        want = [('i', 21000)] if cr else [('i', 21000), ('i', 32000)]
        c.ob('base gas: what is charged before running', parts == sorted(map(str, want)) or (not cr and parts == ["('i', 53000)"]), w, 'charges %s' % parts, p)
        less = kn(p, Lt(lim, pick(v, 'first')))
        d = kn(p, dry)
        ok = truth(p, pick(v, 'second'))
        hit.add((cr, less, ok))
        c.ob('base gas: enough unless the limit is below it', ok is (not (less is True and d is False)) if less is not None and (less is False or d is not None) else False, w, 'says %s' % ok, p)
    c.ob('base gas', len({x[2] for x in hit}) == 2, c.where(u), 'a case is missing')
    u = c.fn(R + 'make_message', opaque=OPR)
    frm, tx, dry = A(0), A(1), A(2)
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        bg = uses('check_base_gas', facts_of(p), p.ret)
        ok = truth(p, pick(p.ret, 'second'))
        en = [kn(p, ('fld', t, 'second')) for t in bg]
        c.ob('message: base gas of this transaction', bool(bg) and all(unv(t[2][0]) == tx and t[2][1] == dry for t in bg), w, 'not checked', p)
        if not bg:
            continue
        c.ob('message: made only with enough gas', ok is en[0] is not None, w, 'made although the gas does not suffice', p)
        hit.add(ok)
        if ok is not True:
            continue
        m = pick(p.ret, 'first')
        to = kn(p, Has(('fld', tx, 'm_to')))
        d = kn(p, dry)
        g = lambda n: unv(fin(pick(m, n)))
        want = [('sender', frm), ('value', ('fld', tx, 'm_value')), ('depth', ('i', 0))]
        for n, x in want:
            c.ob('message: ' + n, g(n) == x, w, 'is %s' % pp(g(n))[:80], p)
        c.ob('message: creation or call', to is not None and pp(g('kind')).split('::')[-1] == ('EVMC_CALL' if to else 'EVMC_CREATE'), w, 'is %s' % pp(g('kind'))[:60], p)
        if to:
            c.ob('message: recipient', g('recipient') == ('fld', tx, 'm_to'), w, 'is %s' % pp(g('recipient'))[:60], p)
        c.ob('message: input', mentions_t(g('input_data'), ('fld', tx, 'm_input')) and mentions_t(g('input_size'), ('fld', tx, 'm_input')), w, 'is something else', p)
        if d is False:
            x = g('gas')
            x = x[-1] if x[0] == 'cast' else x
            y = x[2][0] if is_call(x, 'to_uint64') else ('x',)
            c.ob('message: the gas that is left after the base gas', wide(y) == 'operator-' and unv(y[2][0]) == ('fld', tx, 'm_gas_limit') and any(unv(y[2][1]) == ('fld', unv(t), 'first') for t in bg), w, 'is %s' % pp(x)[:80], p)
    c.ob('message', hit == {True, False}, c.where(u), 'a case is missing')
    u = c.fn(R + 'make_tx_context', opaque=OPR)
    for p in u.rets:
        if kn(p, A(2)) is False:
            for n, x in (('tx_origin', A(0)), ('tx_gas_price', ('fld', A(1), 'm_gas_price'))):
                c.ob('context: ' + n, unv(fin(pick(p.ret, n))) == x, c.where(u, p), 'is %s' % pp(pick(p.ret, n))[:60], p)

    # locking the account that pays
    u = c.fn(R + 'run_execute_transaction', opaque=OPR)
    hit = set()
    frm, dry = A(0), A(1)
    for p in u.rets:
        w = c.where(u, p)
        mm = uses('make_message', facts_of(p))
        c.ob('start: the message of this transaction', bool(mm) and all(unv(t[2][0]) == frm and unv(t[2][1]) == TX and t[2][2] == dry for t in mm), w, 'is another one', p)
        ex = evs(p, call('schedule_exec'))
        lk = locks(p)
        if not mm:
            continue
        en = kn(p, ('fld', mm[0], 'second'))
        if en is not True:
            hit.add('gas')
            c.ob('start: without gas', en is False and not ex and not lk, w, 'starts anyway', p)
            one('start [too little gas]', u, p, 'exec_error')
            continue
        c.ob('start: runs this message', unv(p.st.load(F('m_msg'))) == ('fld', unv(mm[0]), 'first'), w, 'runs another one', p)
        d = kn(p, dry)
        if d is True:
            hit.add('dry')
            c.ob('start [dry]: runs without a lock', len(ex) == 1 and not lk, w, 'does not run', p)
            one('start [dry]', u, p, None)
            continue
        c.ob('start: locks the paying account for writing first', d is False and not ex and len(lk) == 1 and unv(buf(lk[0].args[0]) or ('x',)) == frm and lk[0].args[1] == LT['write'], w, 'does not lock it', p)
        if len(lk) != 1:
            continue
        s = kn(p, result(lk[0]))
        hit.add(('lock', s))
        c.ob('start: a lock request that is refused', s is not None, w, 'not checked', p)
        if s is False:
            c.ob('start [no lock]: answered', told(p) == [EC['internal_error']] or p.ret == FALSE and not told(p), w, 'nobody is told', p)
        else:
            one('start', u, p, None)
    c.ob('start', hit == {'gas', 'dry', ('lock', True), ('lock', False)}, c.where(u), 'a case is missing: %s' % sorted(map(str, hit)))
    for _, k in c.closures(u, invoke(TCB)):
        for p in k.rets:
            h = evs(p, call('handle_lock_from_account'))
            c.ob('start: the locked account is looked at', len(h) == 1 and unver(h[0].args[0]) == A(0, k.depth), c.where(k, p), 'the answer goes nowhere', p)

    # nonce, funds, and the other keys of a transaction
    u = c.fn(R + 'handle_lock_from_account', opaque=OPR)
    hit = set()
    r = A(0)
    for p in u.rets:
        w = c.where(u, p)
        ins = evs(p, call('evm_host::insert_account'))
        lk = locks(p)
        if kn(p, ('is', r, BF)) is not True:
            hit.add('no value')
            c.ob('account: an account that could not be locked', kn(p, ('is', r, BF)) is False and not ins and not lk, w, 'goes on', p)
            one('account [not locked]', u, p, 'wounded')
            continue
        acc = [result(e) for e in evs(p, call('from_buffer'))]
        acc = [a for a in acc if unv(a[2][0]) == ('as', r, BF) and kn(p, Has(a)) is True]
        bal = [('fld', unv(acc[0]), BAL)] if acc else None
        non = [('fld', unv(acc[0]), NON)] if acc else None
        isnon = lambda t: unv(t) in non if non else word(t) == ('i', 0)
        isbal = lambda t: unv(t) in bal if bal else word(t) == ('i', 0)
        f = lambda n: ('fld', TX, n)
        nonce = funds = price = gas = total = None
        cost = lambda t: times(t) is not None and same(map(unv, times(t)), [f('m_gas_limit'), f('m_gas_price')])
        need = lambda t: len(plus(t)) == 2 and sorted(cost(x) for x in plus(t)) == [False, True] and any(unv(x) == f('m_value') for x in plus(t))
        for (a, b), rel in comparisons(p):
            if rel in ('==', '!='):
                for x, y in ((a, b), (b, a)):
                    if unv(y) == f('m_nonce') and len(plus(x)) == 2 and any(isnon(z) for z in plus(x)) and any(word(z) == ('i', 1) for z in plus(x)):
                        nonce = rel == '=='
            for x, y, g in ((a, b, rel), (b, a, FLIP[rel])):
                if isbal(x) and need(y) and g in ('>=', '<'):
                    funds = g == '>='
                if unv(x) == f('m_gas_limit') and word(y) is not None and word(y)[0] == 'i' and g in ('<=', '>'):
                    gas = g == '<=' and word(y)[1] <= (1 << 63) - 1
                if need(x) and unv(y) == f('m_value') and g in ('>=', '<'):
                    total = g == '>='
        for t in uses('load64be', facts_of(p)):
            if unv(t[2][0]) == ('fld', f('m_gas_price'), 'bytes'):
                price = kn(p, Eq(t, I_(0)))
        if told(p) and not ins:
            hit.add('refused')
            c.ob('account: refused for its nonce, funds or range only', False in (nonce, funds, gas, price, total), w, 'refuses a good transaction', p)
            one('account [refused]', u, p, 'exec_error')
            c.ob('account: nothing is locked for a refused transaction', not lk, w, 'goes on', p)
            continue
        hit.add('pays')
        c.ob('account: the next nonce', nonce is True, w, 'another nonce is accepted', p)
        c.ob('account: the balance covers value and gas', funds is True, w, 'not checked', p)
        c.ob('account: the cost cannot wrap around', gas is True and price is True and total is True, w, 'gas limit, gas price or value are not bounded', p)
        c.ob('account: remembered once', len(ins) == 1 and unv(fin(ins[0].args[0])) in (('fld', F('m_msg'), 'sender'), ('new', 'evmc::address', (('fld', F('m_msg'), 'sender'),))), w, 'another account pays', p)
        if len(ins) != 1:
            continue
        a = ins[0].args[1]
        nb, nn = pick(a, BAL), pick(a, NON)
        c.ob('account: gas is paid', wide(nb) == 'operator-' and isbal(nb[2][0]) and cost(nb[2][1]), w, 'pays %s' % pp(nb)[:80], p)
        c.ob('account: the nonce is used up', len(plus(nn)) == 2 and any(isnon(z) for z in plus(nn)) and any(word(z) == ('i', 1) for z in plus(nn)), w, 'stays', p)
        c.ob('account: then the transaction is locked', len(lk) == 1 and is_call(buf(lk[0].args[0]) or ('x',), 'tx_id') and unv(buf(lk[0].args[0])[2][0]) == TX and lk[0].args[1] == LT['write'] and before(p, lambda e: e is ins[0], lk[0]), w, 'not locked', p)
        if len(lk) != 1:
            continue
        s = kn(p, result(lk[0]))
        hit.add(('lock', s))
        one('account', u, p, 'internal_error' if s is False else None)
    c.ob('account', hit == {'no value', 'refused', 'pays', ('lock', True), ('lock', False)}, c.where(u), 'a case is missing: %s' % sorted(map(str, hit)))

    def relay(u, rule, m):
        n = 0
        for _, k in c.closures(u, invoke(TCB)):
            for p in k.rets:
                n += 1
                h = evs(p, m)
                v = kn(p, ('is', A(0, k.depth), BF))
                c.ob(rule + ': goes on with the lock only', len(h) == (1 if v is True else 0) and v is not None, c.where(k, p), 'goes on without it, or not at all', p)
                one(rule, k, p, None if v is True else 'wounded')
        c.ob(rule, n >= 2, c.where(u), 'no answer is handled')
    relay(u, 'transaction key', call('lock_ticket_number_key'))
    u = c.fn(R + 'lock_ticket_number_key', opaque=OPR)
    for p in u.rets:
        lk = locks(p)
        c.ob('ticket key: locked for writing', len(lk) == 1 and is_call(fin(lk[0].args[0]), 'evm_host::ticket_number_key') and lk[0].args[1] == LT['write'], c.where(u, p), 'not locked', p)
        if len(lk) == 1:
            one('ticket key', u, p, None if kn(p, result(lk[0])) is True else 'internal_error')
    relay(u, 'ticket key', call('schedule_exec'))

    # running it
    u = c.fn(R + 'exec', opaque=[x for x in OPR if x != 'exec'])
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        cl = evs(p, call('evm_host::call'))
        c.ob('run: the message, once', len(cl) == 1 and unv(cl[0].args[0]) == F('m_msg'), w, 'runs something else', p)
        if len(cl) != 1:
            continue
        code = ('fld', result(cl[0]), 'status_code')
        bad = kn(p, Lt(code, I_(0)))
        li = evs(p, call('lock_index_keys'))
        if bad is not False:
            hit.add('internal')
            c.ob('run: an error of the EVM', bad is True and not li, w, 'not checked', p)
            one('run [EVM error]', u, p, 'internal_error')
            continue
        rt = [kn(p, t) for t in uses('evm_host::should_retry', facts_of(p))]
        if True in rt:
            hit.add('retry')
            c.ob('run: not with values that were not read', not li, w, 'commits although a lock was lost', p)
            one('run [lock lost]', u, p, 'wounded')
            continue
        hit.add('done')
        c.ob('run: only if every lock was held', False in rt, w, 'not checked', p)
        c.ob('run: then the keys of its logs', len(li) == 1, w, 'not locked', p)
        one('run', u, p, None)
    c.ob('run', hit == {'internal', 'retry', 'done'}, c.where(u), 'a case is missing: %s' % sorted(hit))
    n = 0
    for s, k in c.closures(u, call('lock_index_keys')):
        for p in k.rets:
            n += 1
            w = c.where(k, p)
            fz = evs(p, call('evm_host::finalize'))
            t = told(p)
            c.ob('result: the state updates', len(t) == 1 and is_call(t[0], 'evm_host::get_state_updates'), w, 'answers something else', p)
            ok = len(fz) == 1
            if ok:
                left, used = fz[0].args
                m1 = ('fld', ('fld', ('this', k.depth), 'm_msg'), 'gas')
                ok = left[0] == 'fld' and left[2] == 'gas_left' and is_call(left[1], 'evm_host::call') and unv(l_add(used, left)) == m1
                ok = ok and before(p, lambda e: e is fz[0], [e for e in allev(p.items) if mine(e, 'm_result_callback')][0]) if t else ok
            c.ob('result: unused gas is paid back before', ok, w, 'pays back something else', p)
    c.ob('result', n >= 1, c.where(u), 'no result is reported')
    u = c.fn(R + 'lock_index_keys', opaque=OPR)
    ks = lambda t: is_call(unver(t), 'evm_host::get_log_index_keys')
    for p in u.rets:
        w = c.where(u, p)
        inv = [e for e in allev(p.items) if e.kind == 'invoke' and root(e.obj) == A(0)]
        lk = locks(p)
        for e in lk:
            k = unv(fin(e.args[0]))
            c.ob('log keys: each is locked for writing', e.args[1] == LT['write'] and k[0] in ('each', 'elem', 'at') and ks(k[1]), w, 'locks %s' % pp(k)[:60], p)
        if inv:
            z = [t for t in p.st.bounds if uses('evm_host::get_log_index_keys', t)]
            c.ob('log keys: goes on at once only without logs', not lk and len(inv) == 1 and any(p.st.bounds[t][:2] == (0, 0) for t in z), w, 'goes on without the locks', p)
        else:
            c.ob('log keys: asks for all of them', bool(lk), w, 'nothing is locked and nobody is told', p)


FLIP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}


def unv(t):
    """a term without versions and copies"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'ver':
        return unv(t[1])
    if len(t) == 3 and t[0] == 'new' and t[1] in ('evmc::address', 'evmc::bytes32') and len(t[2]) == 1 and t[2][0][0] != 'i':
        return unv(t[2][0])
    return tuple(unv(x) for x in t)


def before(p, a, b):
    ev = list(allev(p.items))
    i = [k for k, e in enumerate(ev) if a(e)]
    return bool(i) and min(i) < ev.index(b)


def pick(v, n):
    """member n of a value that was put together"""
    v = fin(v)
    while v[0] == 'with':
        for k, x in v[2]:
            if k == (('fld', n),) or k == (n,) or k[-1] == n:
                return x
        v = fin(v[1])
    if v[0] in ('agg', 'obj', 'rec', 'pair'):
        for x in v[1:]:
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple) and len(y) == 2 and y[0] == n:
                        return y[1]
    return ('fld', v, n)


def halves(P):
    if len(P) == 2 and sorted(x[1] for x in P) == [-1, 1]:
        a, z = (P[0][0], P[1][0]) if P[0][1] == 1 else (P[1][0], P[0][0])
        return a, z, 0
    return None


def subs(*ts):
    """all subterms"""
    todo = list(ts)
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            if t and isinstance(t[0], str):
                yield t
            todo.extend(t)


def facts_of(p):
    return tuple(p.st.bools) + tuple(p.st.bounds)


def uses(m, *ts):
    seen = {}
    for t in subs(*ts):
        if is_call(t, m):
            seen[repr(unv(t))] = t
    return list(seen.values())


def comparisons(p):
    """pairs of terms and how the path says they compare"""
    out = []
    for t, b in p.st.bounds.items():
        lo, hi = b[0], b[1]
        pr = halves(t)
        if pr is None:
            continue
        a, z, off = pr
        if lo is not None and lo == hi == -off:
            out.append(((a, z), '=='))
            continue
        if lo is not None and lo + off >= 0:
            out.append(((a, z), '>=' if lo + off == 0 else '>'))
        elif hi is not None and hi + off <= 0:
            out.append(((a, z), '<=' if hi + off == 0 else '<'))
        elif len(b) > 2 and b[2]:
            out.append(((a, z), '!='))
    return out


# ---------------------------------------------------------------------------------------------------------------------------------------------------------
ACC, STO, COD = F('m_accounts'), F('m_account_storage'), F('m_account_code')
RO = F('m_is_readonly_run')
HOPR = ['evm_host::', 'tx_id', 'contract_address', 'contract_address2', 'keccak_data', 'is_precompile', 'get_state_updates']


def strip(t):
    """like unv, also without wrappers of optional values"""
    t = unv(t)
    while isinstance(t, tuple) and t and t[0] in ('some', 'var', 'cast', 'out'):
        if t[0] == 'out':
            if not is_call(t[1], 'from_buffer'):
                break
            t = t[1][2][t[2]]
        else:
            t = t[-1]
    if isinstance(t, tuple):
        return tuple(strip(x) for x in t)
    return t


def stores(items, C):
    """what is put into container C, in order: (keys, value)"""
    out = []
    for e in allev(items):
        if e.kind == 'set' and e.obj[0] == 'at':
            o, ks = e.obj, []
            while o[0] == 'at':
                ks.insert(0, unv(o[2]))
                o = unver(o[1])
            if o == C:
                out.append((tuple(ks), e.args[0], e))
        elif e.kind == 'mut' and e.q in ('emplace', 'assign', 'insert', 'insert_or_assign') and len(e.args) > 1:
            o, ks = unver(e.obj), [unv(e.args[0])]
            while o[0] == 'at':
                ks.insert(0, unv(o[2]))
                o = unver(o[1])
            if o == C:
                out.append((tuple(ks), e.args[1], e))
    return out


def flag(v):
    return strip(pick(v, 'second'))


def fst(v):
    return pick(v, 'first')


@prop('E02', files=[HOST])
def e02(c):
    """EVM host: what the EVM sees and what a transaction changes"""
    EC, LT = names(c)
    one = lambda xs: len(xs) == 1
    nro = ('not', RO)

    # a key is read through a lock, and a lost lock is remembered
    u = c.fn(H + 'get_key', opaque=HOPR)
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        lk = locks(p)
        wr = kn(p, A(1))
        c.ob('key: locked once, for what was asked', one(lk) and unv(fin(lk[0].args[0])) == A(0) and wr is not None and lk[0].args[1] == LT['write' if wr else 'read'], w, 'locks something else', p)
        if not one(lk):
            continue
        rt = [e for e in allev(p.items) if e.kind == 'set' and e.obj == F('m_retry')]
        lost = bool(rt) and rt[-1].args[0] == TRUE
        s = kn(p, result(lk[0]))
        if s is False:
            hit.add(('refused', wr))
            c.ob('key: a request that is refused is remembered', lost and p.ret == ('none',), w, 'the transaction goes on without the value', p)
            continue
        fu = uses('get', facts_of(p))
        v = kn(p, ('is', fu[0], BF)) if fu else None
        c.ob('key: the answer is looked at', s is True and one(fu) and v is not None, w, 'not looked at', p)
        if not one(fu):
            continue
        hit.add((v, wr))
        if v is True:
            c.ob('key: the value of the shard is used', strip(p.ret) == strip(('as', fu[0], BF)) and not rt, w, 'something else is used, or the transaction is run again', p)
        else:
            c.ob('key: a lock that is not granted is remembered', lost and p.ret == ('none',), w, 'the transaction goes on without the value', p)
    c.ob('key', hit == {(a, b) for a in ('refused', True, False) for b in (True, False)}, c.where(u), 'a case is missing')
    n = 0
    for _, k in c.closures(u, invoke(TCB)):
        for p in k.rets:
            n += 1
            sv = evs(p, call('set_value'))
            c.ob('key: the answer arrives', one(sv) and unver(sv[0].args[0]) == A(0, k.depth), c.where(k, p), 'something else arrives', p)
    c.ob('key: an answer', n > 0, c.where(u), 'no answer is handled')

    # cached values
    def getter(fn, C, keyof, ks, wr):
        u = c.fn(H + fn, opaque=HOPR)
        hit = set()
        rule = {'get_account': 'account', 'get_account_code': 'code', 'get_account_storage': 'storage'}[fn]
        pt = C
        for k in ks:
            pt = ('at', pt, k)
        for p in u.rets:
            w = c.where(u, p)
            pc = [kn(p, t) for t in uses('is_precompile', facts_of(p)) if unv(t[2][0]) == A(0)]
            gk = uses('evm_host::get_key', facts_of(p), p.ret)
            st = stores(p.items, C)
            if True in pc:
                hit.add('precompile')
                c.ob(rule + ': precompiled contracts are not in the state', not gk and not st, w, 'are read', p)
                continue
            c.ob(rule + ': precompiled contracts are told apart', pc == [False], w, 'not checked', p)
            cached = True
            o = C
            for k in ks:
                s = kn(p, ('in', o, k))
                cached = False if s is False else cached and s
                o = ('at', o, k)
            c.ob(rule + ': the cache is asked', cached is not None, w, 'not asked', p)
            sec = kn(p, ('fld', pt, 'second')) if cached else None
            wv = kn(p, wr)
            if not gk:
                hit.add('cached')
                c.ob(rule + ': cached only if there and locked as asked', cached is True and (sec is True or wv is False), w, 'used although it is not locked for writing, or not there', p)
                c.ob(rule + ': the cached value is used', strip(p.ret) == strip(('fld', pt, 'first')) and not st, w, 'answers %s' % pp(p.ret)[:60], p)
                continue
            c.ob(rule + ': a cached value is not replaced', cached is False or (sec is False and wv is True), w, 'changes of this transaction are lost', p)
            c.ob(rule + ': read under its own key, locked as asked', one(gk) and strip(buf(gk[0][2][1]) or ('x',)) == strip(keyof) and gk[0][2][2] == wr, w, 'reads %s' % pp(gk[0])[:90], p)
            h = kn(p, Has(gk[0]))
            z = [p.st.bounds[t] for t in p.st.bounds if uses('buffer::size', t) or uses('size', t)]
            z = [b for t, b in p.st.bounds.items() if len(t) == 1 and t[0][1] == 1 and is_call(t[0][0], 'size') and unv(t[0][0][2][0]) == unv(gk[0])]
            em = None if not z else True if z[0][1] == 0 else False if z[0][0] is not None and z[0][0] >= 1 else None
            if h is False:
                hit.add('lost')
                c.ob(rule + ': no lock, no value', p.ret == ('none',) and not st, w, 'a value is made up', p)
                continue
            c.ob(rule + ': a value that could not be read is told apart', h is True and em is not None, w, 'not checked', p)
            c.ob(rule + ': remembered with its lock', one(st) and st[0][0] == tuple(ks) and flag(st[0][1]) == wr, w, 'is not remembered', p)
            if not one(st):
                continue
            v = fst(st[0][1])
            if em is True:
                hit.add('empty')
                c.ob(rule + ': an empty value is no value', p.ret == ('none',) and fin(v) == ('none',), w, 'is something', p)
            else:
                hit.add('read')
                d = strip(v)
                c.ob(rule + ': the value that was read', is_call(d, 'from_buffer') and d[2][0] == strip(gk[0]) and strip(p.ret) == d, w, 'is %s' % pp(p.ret)[:60], p)
        c.ob(rule, hit == {'precompile', 'cached', 'lost', 'empty', 'read'}, c.where(u), 'a case is missing: %s' % sorted(hit))
    CK, SK = NS + 'code_key', NS + 'storage_key'
    getter('get_account', ACC, A(0), [A(0)], A(1))
    getter('get_account_code', COD, ('obj', CK, (('m_addr', A(0)),)), [A(0)], A(1))
    getter('get_account_storage', STO, ('obj', SK, (('m_addr', A(0)), ('m_key', A(1)))), [A(0), A(1)], A(2))

    # money
    def account(t, a, wr):
        """the balance an account had: its own, or nothing if there is none"""
        got = lambda p: [x for x in uses('evm_host::get_account', facts_of(p)) if strip(x[2][1]) == a and unv(x[2][2]) == wr]
        return got(t)
    u = c.fn(H + 'transfer', opaque=HOPR)
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        st = stores(p.items, ACC)
        z = [kn(p, t) for t in uses('is_zero', facts_of(p)) if unv(t[2][0]) == A(2)]
        c.ob('transfer: zero is told apart', z in ([True], [False]), w, 'not checked', p)
        c.ob('transfer: one account pays, the other gets', [x[0] for x in st] == [(A(0),), (A(1),)], w, 'changes %s' % ', '.join(pp(x[0][0])[:30] for x in st), p)
        if [x[0] for x in st] != [(A(0),), (A(1),)] or len(z) != 1:
            continue
        z = z[0]
        bal = []
        for x, (k, v, _) in zip((A(0), A(1)), st):
            g = account(p, x, nro)
            h = kn(p, Has(g[0])) if one(g) else None
            c.ob('transfer: both accounts are locked for writing', one(g) and h is not None and flag(v) == nro, w, 'are changed without the lock', p)
            bal.append(strip(('fld', g[0], BAL_)) if h else None)
        own = lambda t, b: strip(t) == b if b else word(t) == ('i', 0)
        amount = lambda t: own(t, bal[0]) if z else unv(t) == A(2)
        frm, to = fst(st[0][1]), fst(st[1][1])
        fb, tb = fin(pick(frm, BAL_)), fin(pick(to, BAL_))
        c.ob('transfer: taken from the one', wide(fb) == 'operator-' and own(fb[2][0], bal[0]) and amount(fb[2][1]), w, 'takes %s' % pp(fb)[:80], p)
        tp = plus(tb)
        c.ob('transfer: given to the other', len(tp) == 2 and any(own(tp[i], bal[1]) and amount(tp[1 - i]) for i in (0, 1)), w, 'gives %s' % pp(tb)[:80], p)
        d = pick(frm, 'm_destruct')
        c.ob('transfer: an account that gives all away is removed, others not', (d == TRUE) if z else (d != TRUE), w, 'is not' if z else 'is removed', p)
        hit.add((z, bal[0] is None, bal[1] is None))
    c.ob('transfer', len(hit) == 8, c.where(u), 'a case is missing')
    for p in c.fn(H + 'selfdestruct', opaque=HOPR).rets:
        t = evs(p, call('evm_host::transfer'))
        c.ob('removal: all to the beneficiary', one(t) and [unv(x) for x in t[0].args[:2]] == [A(0), A(1)] and word(t[0].args[2]) == ('i', 0), H + 'selfdestruct', 'does something else', p)
    u = c.fn(H + 'finalize', opaque=HOPR)
    ctx = lambda n: ('fld', F('m_tx_context'), n)
    for p in u.rets:
        w = c.where(u, p)
        st = stores(p.items, ACC)
        ro = kn(p, RO)
        if ro is not False:
            c.ob('refund: a dry run changes no account', ro is True and not st, w, 'changes one', p)
        else:
            g = [e for e in uses('evm_host::get_account', *[x[1] for x in st]) if strip(e[2][1]) == ctx('tx_origin') and e[2][2] == TRUE]
            c.ob('refund: to the account that paid', one(st) and strip(st[0][0][0]) == ctx('tx_origin') and flag(st[0][1]) == TRUE and one(g), w, 'to another account', p)
            if one(st) and one(g):
                v = plus(fin(pick(fst(st[0][1]), BAL_)))
                pay = [x for x in v if strip(x) != strip(('fld', g[0], BAL_))]
                t = times(fin(pay[0])) if one(pay) else None
                ok = t is not None and len(t) == 2 and any(word(t[i]) is not None and strip(word(t[i])) == A(0) and strip256(t[1 - i]) == ctx('tx_gas_price') for i in (0, 1))
                c.ob('refund: the gas that is left, at its price', len(v) == 2 and ok, w, 'pays back %s' % pp(pay[0] if pay else ('none',))[:90], p)
        r = [e.args[0] for e in allev(p.items) if e.kind == 'set' and e.obj == ('fld', F('m_receipt'), 'm_gas_used')]
        c.ob('refund: the receipt has the gas that was used', one(r) and word(r[0]) is not None and strip(word(r[0])) == A(1), w, 'has something else', p)
    u = c.fn(H + 'insert_account', opaque=HOPR)
    for p in u.rets:
        st = stores(p.items, ACC)
        c.ob('paying account: remembered, to be written', one(st) and st[0][0] == (A(0),) and strip(fst(st[0][1])) == A(1) and flag(st[0][1]) == nro, c.where(u, p), 'is not', p)

    # a call that does not succeed has no effects
    u = c.fn(H + 'call', opaque=HOPR)
    PARTS = [ACC, STO, COD, ('fld', F('m_receipt'), 'm_logs')]
    hit = set()
    inner = None
    for p in u.rets:
        w = c.where(u, p)
        r = fin(p.ret)
        ce = [e for e in allev(p.items) if e.kind == 'call' and unv(result(e)) == unv(r)]
        c.ob('call: its result is passed on', r[0] == 'call' and r[1].startswith(H) and one(ce) and unv(r[2][1]) == A(0), w, 'answers %s' % pp(r)[:60], p)
        if not one(ce):
            continue
        inner = r[1]
        code = ('fld', r, 'status_code')
        ok = kn(p, Eq(code, I_(0)))
        hit.add(ok)
        c.ob('call: success is told apart', ok is not None, w, 'not checked', p)
        back = {e.obj: e for e in allev(p.items) if e.kind == 'set' and e.obj in PARTS}
        if ok is True:
            c.ob('call: effects of one that succeeds are kept', not back, w, 'are lost', p)
        else:
            for x in PARTS:
                e = back.get(x)
                c.ob('call: effects of one that fails are taken back: %s' % x[2], e is not None and strip(e.args[0]) == x and before(p, lambda q: q is ce[0], e), w, 'are kept', p)
    c.ob('call', hit == {True, False}, c.where(u), 'a case is missing: %s' % sorted(map(str, hit)))
    c.ob('call: the state is kept from before', inner is not None and saved_first(c, u, inner, PARTS), c.where(u), 'is copied after the call')
    if inner is None:
        return
    u = c.fn(inner, opaque=HOPR)
    kinds = ('CALL', 'DELEGATECALL', 'CALLCODE', 'CREATE', 'CREATE2')
    kd = ('fld', A(0), 'kind')
    m = lambda n: ('fld', A(0), n)
    CALLS = {'CALL': 0, 'DELEGATECALL': 1, 'CALLCODE': 2, 'CREATE': 3, 'CREATE2': 4}
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        is_ = {k: kn(p, Eq(kd, I_(n))) for k, n in CALLS.items()}
        cr = evs(p, call('evm_host::create'))
        tr = evs(p, call('evm_host::transfer'))
        ex = evs(p, call('evm_host::execute'))
        if True in (is_['CREATE'], is_['CREATE2']):
            hit.add('create')
            c.ob('call: a creation', one(cr) and unv(cr[0].args[0]) == A(0) and strip(p.ret) == strip(result(cr[0])) and not tr and not ex, w, 'is something else', p)
            continue
        c.ob('call: creations are told apart', is_['CREATE'] is False and is_['CREATE2'] is False and not cr, w, 'not checked', p)
        z = [kn(p, t) for t in uses('is_zero', facts_of(p)) if strip256(t[2][0]) == m('value')]
        pays = z == [False] and is_['CALL'] is True
        c.ob('call: the value moves with a call that has one', one(tr) if pays else not tr, w, 'moves although it should not' if tr else 'does not move', p)
        if pays and one(tr):
            hit.add('pays')
            c.ob('call: from the sender to the recipient', [strip256(x) for x in tr[0].args] == [m('sender'), m('recipient'), m('value')], w, 'moves %s' % ', '.join(pp(x)[:30] for x in tr[0].args), p)
        if not pays:
            c.ob('call: without value or of another kind', z == [True] or is_['CALL'] is False, w, 'the value does not move', p)
        other = is_['DELEGATECALL'] is True or is_['CALLCODE'] is True
        src = m('code_address') if other else m('recipient')
        c.ob('call: whose code is known', other or (is_['DELEGATECALL'] is False and is_['CALLCODE'] is False), w, 'not checked', p)
        cs = uses('evm_host::get_code_size', facts_of(p))
        c.ob('call: the code that is asked for', one(cs) and strip256(cs[0][2][1]) == src, w, 'is another one', p)
        if not one(cs):
            continue
        none = kn(p, Eq(cs[0], I_(0)))
        if none is True:
            hit.add('no code')
            mk = uses('make_result', p.ret)
            c.ob('call: without code', not ex and one(mk) and mk[0][2][0][0] == 'enum' and mk[0][2][0][-1] == 0 and unv(mk[0][2][1]) == m('gas'), w, 'does not succeed, or costs gas', p)
            continue
        cp = evs(p, call('evm_host::copy_code'))
        c.ob('call: runs the code', none is False and one(cp) and strip256(cp[0].args[0]) == src and cp[0].args[1] == I_(0) and strip(cp[0].args[3]) == strip(cs[0]), w, 'runs other code', p)
        c.ob('call: runs this message', one(ex) and unv(ex[0].args[0]) == A(0) and strip(p.ret) == strip(result(ex[0])), w, 'runs another one', p)
        if one(ex) and one(tr):
            c.ob('call: the value moves first', before(p, lambda e: e is tr[0], ex[0]), w, 'moves after', p)
        if not one(ex):
            continue
        top_ = kn(p, Eq(m('depth'), I_(0)))
        sc = [e.args[0] for e in allev(p.items) if e.kind == 'set' and e.obj == ('fld', F('m_receipt'), 'm_success')]
        if top_ is True:
            hit.add('top')
            ok = kn(p, Eq(('fld', result(ex[0]), 'status_code'), I_(0)))
            c.ob('call: the receipt says whether it succeeded', bool(sc) and (truth(p, sc[-1]) is ok if ok is not None else truth(p, sc[-1]) is None), w, 'says something else', p)
        else:
            hit.add('nested')
            c.ob('call: nested calls do not decide the receipt', not sc and top_ is False, w, 'do', p)
    c.ob('call: every kind', hit == {'create', 'pays', 'no code', 'top', 'nested'}, c.where(u), 'a case is missing: %s' % sorted(hit))

    # creation
    u = c.fn(H + 'create', opaque=HOPR)
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        sd = [t for t in uses('evm_host::get_account', facts_of(p)) if strip256(t[2][1]) == m('sender')]
        tr = evs(p, call('evm_host::transfer'))
        ex = evs(p, call('evm_host::execute'))
        stc = stores(p.items, COD)
        if not ex:
            hit.add('no sender')
            mk = uses('make_result', p.ret)
            c.ob('create: without a sender', one(sd) and kn(p, Has(sd[0])) is False and not tr and not stc and one(mk) and mk[0][2][0][-1] != 0, w, 'is refused', p)
            continue
        is_c = kn(p, Eq(kd, I_(3)))
        na = uses('contract_address' if is_c else 'contract_address2', *[x for e in ex for x in e.args])
        ok = one(na) and strip256(na[0][2][0]) == m('sender')
        if is_c:
            ok = ok and one(sd) and strip(na[0][2][1]) == strip(('fld', sd[0], 'm_nonce'))
        else:
            kk = uses('keccak_data', na[0] if na else ())
            ok = ok and strip256(na[0][2][1]) == m('create2_salt') and one(kk) and [unv(x) for x in kk[0][2]] == [m('input_data'), m('input_size')]
        c.ob('create: the address of the new contract', is_c is not None and ok, w, 'is another one', p)
        if not one(na):
            continue
        N = strip(na[0])
        rca = [e.args[0] for e in allev(p.items) if e.kind == 'set' and e.obj == ('fld', F('m_receipt'), 'm_create_address')]
        top_ = kn(p, Eq(m('depth'), I_(0)))
        c.ob('create: the receipt names the contract of a transaction', (top_ is True and bool(rca) and (strip(rca[-1]) == N or strip(rca[-1])[:1] == ('some',) and strip(strip(rca[-1])[1]) == N)) or (top_ is False and not rca), w, 'does not, or names another', p)
        z = [kn(p, t) for t in uses('is_zero', facts_of(p)) if strip256(t[2][0]) == m('value')]
        c.ob('create: the value moves to it', (z == [False] and one(tr) and [strip256(x) for x in tr[0].args] == [m('sender'), N, m('value')]) or (z == [True] and not tr), w, 'does not, or moves elsewhere', p)
        msg = ex[0].args[0]
        for n, x in (('sender', m('sender')), ('value', m('value')), ('recipient', N), ('depth', m('depth')), ('gas', m('gas'))):
            c.ob('create: %s of the constructor' % n, strip256(pick(msg, n)) == x, w, 'is %s' % pp(pick(msg, n))[:60], p)
        c.ob('create: runs the constructor', [unv(x) for x in ex[0].args[1:]] == [m('input_data'), m('input_size')], w, 'runs something else', p)
        r = result(ex[0])
        good = kn(p, Eq(('fld', r, 'status_code'), I_(0)))
        hit.add(good)
        c.ob('create: success is told apart', good is not None, w, 'not checked', p)
        if good is not True:
            c.ob('create: no code for one that failed', not stc, w, 'has code', p)
        else:
            c.ob('create: the code is what the constructor returned', one(stc) and strip(stc[0][0][0]) == N and flag(stc[0][1]) == nro, w, 'is something else', p)
            cpy = [e for e in evs(p, call('memcpy')) if strip(e.args[1]) == ('fld', strip(r), 'output_data') and strip(e.args[2]) == ('fld', strip(r), 'output_size')]
            rz = [e for e in allev(p.items) if e.kind == 'mut' and e.q == 'resize' and strip(e.args[0]) == ('fld', strip(r), 'output_size')]
            c.ob('create: all of it, within the code', any(root(e.obj) == root(x.args[0]) and before(p, lambda q: q is e, x) for e in rz for x in cpy), w, 'is cut, or written past the end', p)
    c.ob('create', hit == {'no sender', True, False}, c.where(u), 'a case is missing: %s' % sorted(map(str, hit)))

    # storage
    u = c.fn(H + 'set_storage', opaque=HOPR)
    for p in u.rets:
        w = c.where(u, p)
        st = stores(p.items, STO)
        c.ob('storage: the value is kept under its address and key', one(st) and st[0][0] == (A(0), A(1)) and strip(fst(st[0][1])) == A(2) and flag(st[0][1]) == nro, w, 'is kept elsewhere', p)
        g = [t for t in uses('evm_host::get_account_storage', facts_of(p))]
        c.ob('storage: its key is locked for writing', one(g) and [unv(x) for x in g[0][2][1:]] == [A(0), A(1), nro], w, 'is not', p)
    for fn, get, args in (('get_storage', 'get_account_storage', [A(0), A(1), FALSE]), ('get_balance', 'get_account', [A(0), FALSE])):
        u = c.fn(H + fn, opaque=HOPR)
        hit = set()
        for p in u.rets:
            w = c.where(u, p)
            g = uses('evm_host::' + get, facts_of(p))
            h = kn(p, Has(g[0])) if one(g) else None
            hit.add(h)
            c.ob(fn + ': what is asked for', one(g) and [unv(x) for x in g[0][2][1:]] == args and h is not None, w, 'is something else', p)
            if h:
                c.ob(fn + ': its value', strip(p.ret) == (strip(g[0]) if fn == 'get_storage' else strip(('fld', g[0], BAL_))), w, 'is something else', p)
            elif h is False:
                c.ob(fn + ': nothing', word(p.ret) == ('i', 0), w, 'is something', p)
        c.ob(fn, hit == {True, False}, c.where(u), 'a case is missing')
    u = c.fn(H + 'copy_code', opaque=HOPR)
    for p in u.rets:
        w = c.where(u, p)
        g = uses('evm_host::get_account_code', facts_of(p))
        cp = [e for e in allev(p.items) if e.kind == 'call' and e.q.split('::')[-1] in ('copy_n', 'copy', 'memcpy', 'memmove')]
        c.ob('code: of the address', one(g) and unv(g[0][2][1]) == A(0), w, 'of another', p)
        for e in cp:
            nm = e.q.split('::')[-1]
            if nm == "copy":
                continue
            n = e.args[1 if nm == 'copy_n' else 2]
            up = lambda b: any(x == b or kn(p, Le(x, b)) is True for x in upper(n))
            c.ob('code: within the buffer and the code', up(A(3)) and up(l_add(Size(g[0]), A(1), -1)), w, 'more is copied', p)

    # what a transaction changes
    u = c.fn(H + 'get_state_updates', opaque=HOPR)
    K = lambda t: strip(buf(t)) if buf(t) is not None else strip(t)
    for p in u.rets:
        w = c.where(u, p)
        seen = {}
        for S in walk(p.items, p.st):
            e = S.ev if hasattr(S, 'ev') else S[0]
            if not (e.kind == 'set' and e.obj[0] == 'at' and unver(e.obj[1])[0] == 'loc'):
                continue
            k, v = e.obj[2], e.args[0]
            st = S.loops[-1][1].st if S.loops else p.st
            kb = buf(k)
            own = None
            for nm, C, key in (('account', ACC, lambda q: q), ('code', COD, lambda q: ('obj', CK, (('m_addr', q),)))):
                q = ('key', C)
                if kb is not None and nolab(kb) == key(q):
                    own = nm, ('at', C, q)
            q1 = ('key', STO)
            q2 = ('key', ('at', STO, q1))
            if kb is not None and nolab(kb) == ('obj', SK, (('m_addr', q1), ('m_key', q2))):
                own = 'storage', ('at', ('at', STO, q1), q2)
            if own:
                nm, slot = own
                fs = {nolab(t): b for t, b in st.bools.items()}
                c.ob('updates: %s: only what there is, locked for writing' % nm, fs.get(('has', ('fld', slot, 'first'))) is True and fs.get(('fld', slot, 'second')) is True, w, 'others are written', p)
                val = buf(v)
                dead = fs.get(('fld', ('fld', slot, 'first'), 'm_destruct')) if nm == 'account' else False
                if dead is True:
                    seen.setdefault('removed', e)
                    c.ob('updates: accounts that were removed', v == ('new', BF, ()), w, 'stay', p)
                else:
                    seen.setdefault(nm, e)
                    c.ob('updates: %s: its value' % nm, dead is False and val is not None and nolab(strip(val)) == ('fld', slot, 'first'), w, 'is %s' % pp(v)[:60], p)
            elif is_call(kb or ('x',), 'tx_id'):
                seen['receipt'] = e
                c.ob('updates: the receipt under the id of the transaction', strip(buf(v) or ('x',)) == F('m_receipt') and mentions_t(kb, F('m_tx')), w, 'is elsewhere', p)
            elif is_call(fin(k), 'evm_host::ticket_number_key'):
                seen['ticket'] = e
                c.ob('updates: the ticket leads to the transaction', is_call(buf(v) or ('x',), 'tx_id') and mentions_t(v, F('m_tx')) and fin(k)[2][1] == ('none',), w, 'leads elsewhere', p)
            elif is_call(fin(k), 'evm_host::log_index_key'):
                seen['logs'] = e
                x = buf(v) or ('x',)
                a = fin(k)[2][1]
                lg = nolab(strip(pick(x, 'm_logs')))
                c.ob('updates: the logs of an address under its key', a[0] == 'key' and lg[0] == 'at' and is_call(lg[1], 'evm_host::get_sorted_logs') and lg[2] == nolab(a) and fin(k)[2][2] == ('none',), w, 'are elsewhere', p)
                c.ob('updates: logs name their transaction', unv(pick(x, 'm_ticket_number')) == F('m_ticket_number') and is_call(fin(pick(x, 'm_txid')), 'tx_id'), w, 'name another one', p)
            else:
                c.ob('updates: nothing else', False, w, 'also writes %s' % pp(k)[:60], p)
        want = {'account', 'removed', 'code', 'storage', 'receipt', 'ticket', 'logs'}
        c.ob('updates: everything that was changed', set(seen) == want, w, 'missing: %s' % sorted(want - set(seen)), p)
        c.ob('updates: all of them', all(l.mode == 'all' if hasattr(l, 'mode') else True for S in walk(p.items, p.st) for l, _ in S.loops), w, 'stops early', p)


QOPR = ['run_', 'evm_host::', 'make_pretend_block', 'make_read_host', 'to_uint64', 'lock_tx_receipt', 'handle_']


@prop('E03', files=[IMPL, HOST])
def e03(c):
    """EVM queries: the right key, read only, one answer"""
    EC, LT = names(c)
    P_ = F('m_param')

    def pair(p, depth=0):
        """the key and value of the answer"""
        t = told(p)
        x = entries(t[0]) if len(t) == 1 else None
        return (x[0][0], fin(x[0][1])) if x is not None and len(x) == 1 else (None, None)

    # which function is run
    u = c.fn(R + 'do_run', opaque=QOPR)
    KINDS = {0: 'run_execute_real_transaction', 1: 'run_get_account', 2: 'run_execute_dryrun_transaction', 3: 'run_get_account_code', 4: 'run_get_transaction',
             5: 'run_get_transaction_receipt', 6: 'run_get_block_number', 7: 'run_get_block', 8: 'run_get_logs', 9: 'run_get_account'}
    ENUM = ('execute_transaction', 'read_account', 'dryrun_transaction', 'read_account_code', 'get_transaction', 'get_transaction_receipt', 'get_block_number', 'get_block', 'get_logs', 'read_account_storage')
    num = {}
    for i, n in enumerate(ENUM):
        e = c.enum(NS + 'evm_runner_function::' + n)
        num[e[-1]] = KINDS[i]
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        sz = [b for t, b in p.st.bounds.items() if len(t) == 1 and is_call(t[0][0], 'size') and unv(t[0][0][2][0]) == F('m_function')]
        one_ = bool(sz) and sz[0][:2] == (1, 1)
        ran = [e for e in allev(p.items) if e.kind == 'call' and e.q.startswith(R + 'run_')]
        by = [b for t, b in p.st.bounds.items() if len(t) == 1 and t[0][0][0] == 'call' and 'bytes' in t[0][0][1] or len(t) == 1 and t[0][0][0] == 'bytes']
        if not ran:
            hit.add('refused')
            known = one_ and by and by[0][0] is not None and by[0][0] == by[0][1] and by[0][0] in num
            c.ob('function: refused if unknown', not known, w, 'a known one is refused', p)
            c.ob('function: refused once', told(p)[:1] == [EC['function_load']] and all(x in (EC['function_load'], EC['internal_error']) for x in told(p)), w, 'nobody is told', p)
            continue
        c.ob('function: one byte', one_ and len(ran) == 1 and bool(by) and by[0][0] == by[0][1], w, 'not checked', p)
        if not (one_ and by):
            continue
        want = num.get(by[0][0])
        hit.add(by[0][0])
        c.ob('function: the one that was asked for', ran[0].q.split('::')[-1] == want, w, 'runs %s' % ran[0].q.split('::')[-1], p)
        ok = kn(p, result(ran[0]))
        c.ob('function: one that was not started is reported', told(p) == ([] if ok is True else [EC['internal_error']]) and ok is not None, w, 'nobody is told', p)
    c.ob('function', hit == {'refused'} | set(num), c.where(u), 'a case is missing: %s' % sorted(map(str, hit)))

    def asks(fn, key, rule):
        u = c.fn(R + fn, opaque=QOPR)
        ks = []
        for p in u.rets:
            lk = locks(p)
            if lk:
                w = c.where(u, p)
                c.ob(rule + ': reads one key', len(lk) == 1 and lk[0].args[1] == LT['read'] and key(fin(lk[0].args[0])), w, 'asks for %s' % pp(lk[0].args[0])[:60], p)
                s = truth(p, p.ret)
                c.ob(rule + ': says whether it was asked', unv(p.ret) == unv(result(lk[0])) or s is not None and s is kn(p, result(lk[0])), w, 'says %s' % pp(p.ret)[:40], p)
                c.ob(rule + ': not answered before', not told(p), w, 'answered twice', p)
            else:
                ks.append(p)
        return u, ks

    def answers(u, rule, good, bad='function_load', extra=None):
        hit = set()
        for _, k in c.closures(u, invoke(TCB)):
            for p in k.rets:
                w = c.where(k, p)
                r = A(0, k.depth)
                v = kn(p, ('is', r, BF))
                t = told(p)
                oth = extra(p, r) if extra else None
                if v is not True:
                    hit.add('no value')
                    c.ob(rule + ': without a value', v is False and (t == [EC[bad]] if isinstance(bad, str) else bad(p)), w, 'answers %s' % ', '.join(pp(x)[:40] for x in t), p)
                elif oth is not None:
                    hit.add('other')
                    c.ob(rule + ': a value that does not fit', oth, w, 'answers %s' % ', '.join(pp(x)[:40] for x in t), p)
                else:
                    hit.add('value')
                    kx, vx = pair(p)
                    T = ('this', k.depth)
                    c.ob(rule + ': answers what was read', kx is not None and unv(kx) == ('fld', T, 'm_param') and good(p, vx, ('as', r, BF)), w, 'answers %s' % ', '.join(pp(x)[:80] for x in t), p)
        want = {'value'} | ({'no value'} if bad else set()) | ({'other'} if extra else set())
        c.ob(rule, hit == want, c.where(u), 'a case is missing: %s' % sorted(hit))

    raw = lambda p, v, r: strip(v) == strip(r)
    for fn, rule in (('run_get_account', 'account query'), ('run_get_transaction_receipt', 'receipt query')):
        u, rest = asks(fn, lambda k: unv(k) == P_, rule)
        c.ob(rule + ': always asked', not rest, c.where(u), 'is not')
        answers(u, rule, raw)

    u, rest = asks('run_get_account_code', lambda k: nolab(buf(k) or ('x',))[:2] == ('obj', NS + 'code_key'), 'code query')
    for p in u.rets:
        w = c.where(u, p)
        b = [x for t, x in p.st.bounds.items() if len(t) == 1 and is_call(t[0][0], 'size') and unv(t[0][0][2][0]) == P_]
        for e in locks(p):
            k = buf(e.args[0])
            cp = [x for x in evs(p, call('memcpy')) if mentions_t(unv(x.args[1]), P_) and uses_t(x.args[0], pick(k or ('x',), 'm_addr')) and before(p, lambda q: q is x, e)]
            c.ob('code query: of the address that was asked for', mentions_t(unv(k or ('x',)), P_) or len(cp) == 1, w, 'of another', p)
        for e in evs(p, call('memcpy')):
            c.ob('code query: an address and no more is copied', bool(b) and b[0][:2] == (20, 20), w, 'the size of the address is not checked', p)
        if p in rest:
            c.ob('code query: what is no address', told(p) == [EC['function_load']] and truth(p, p.ret) is True or not told(p) and truth(p, p.ret) is False, w, 'is answered twice, or not', p)
            c.ob('code query: only what is no address is refused', not (b and b[0][:2] == (20, 20)), w, 'an address is refused', p)
    answers(u, 'code query', raw)

    u, rest = asks('run_get_transaction', lambda k: unv(k) == P_, 'transaction query')
    c.ob('transaction query: always asked', not rest, c.where(u), 'is not')

    def rec(p, r):
        fb = [t for t in uses('from_buffer', facts_of(p)) if strip(t[2][0]) == strip(r)]
        if len(fb) != 1 or kn(p, Has(fb[0])) is not True:
            return False
        return fb[0]

    def undec(p, r):
        r = ('as', r, BF)
        fb = [t for t in uses('from_buffer', facts_of(p)) if strip(t[2][0]) == strip(r)]
        if len(fb) == 1 and kn(p, Has(fb[0])) is False:
            return told(p) == [EC['function_load']]
        return None
    answers(u, 'transaction query', lambda p, v, r: bool(rec(p, r)) and strip(buf(v) or ('x',)) == strip(('fld', rec(p, r), 'm_tx')), extra=undec)

    # blocks
    blk = lambda p, t, tn: is_call(t, 'make_pretend_block') and strip(t[2][-1]) == strip(tn)
    u, rest = asks('run_get_block', lambda k: is_call(k, 'evm_host::ticket_number_key') and mentions_t(k, P_), 'block query')
    for p in rest:
        c.ob('block query: only what is no number is refused', any(kn(p, Has(t)) is False for t in uses('from_buffer', facts_of(p))) and truth(p, p.ret) is False and not told(p), c.where(u, p), 'is refused', p)
    for p in u.rets:
        if locks(p):
            mk = evs(p, call('make_read_host'))
            c.ob('block query: has a host', bool(mk) and before(p, lambda e: e is mk[0], locks(p)[0]), c.where(u, p), 'uses one that was never made', p)
    hit = set()
    for _, k in c.closures(u, invoke(TCB)):
        for p in k.rets:
            w = c.where(k, p)
            r = A(0, k.depth)
            fb = [t for t in uses('from_buffer', facts_of(p)) if strip(t[2][0]) == strip(('as', r, BF))]
            ok = kn(p, ('is', r, BF)) is True and len(fb) == 1 and kn(p, Has(fb[0])) is True
            go = evs(p, call('lock_tx_receipt'))
            hit.add(ok)
            if ok:
                c.ob('block query: goes on with the transaction of the block', len(go) == 1 and strip(go[0].args[0]) == strip(('as', r, BF)) and mentions_t(go[0].args[1], P_from(k)) and not told(p), w, 'goes on with another one', p)
            else:
                kx, vx = pair(p)
                b = buf(vx or ('x',))
                c.ob('block query: an empty block', not go and kx is not None and unv(kx) == ('fld', ('this', k.depth), 'm_param') and b is not None and is_call(b, 'make_pretend_block') and mentions_t(b, P_from(k)), w, 'answers %s' % ', '.join(pp(x)[:60] for x in told(p)), p)
    c.ob('block query', hit == {True, False}, c.where(u), 'a case is missing')
    u = c.fn(R + 'lock_tx_receipt', opaque=QOPR)
    for p in u.rets:
        lk = locks(p)
        w = c.where(u, p)
        c.ob('block: reads its transaction', len(lk) == 1 and unv(lk[0].args[0]) == A(0) and lk[0].args[1] == LT['read'], w, 'reads something else', p)
        if len(lk) == 1:
            s = kn(p, result(lk[0]))
            c.ob('block: a request that is refused', s is not None and told(p) == ([] if s else [EC['function_load']]), w, 'nobody is told', p)
    hit = set()
    for _, k in c.closures(u, invoke(TCB)):
        for p in k.rets:
            w = c.where(k, p)
            r = A(0, k.depth)
            fb = [t for t in uses('from_buffer', facts_of(p)) if strip(t[2][0]) == strip(('as', r, BF))]
            ok = kn(p, ('is', r, BF)) is True and len(fb) == 1 and kn(p, Has(fb[0])) is True
            hit.add(ok)
            kx, vx = pair(p)
            if not ok:
                c.ob('block: without the transaction', told(p) == [EC['function_load']], w, 'answers %s' % ', '.join(pp(x)[:60] for x in told(p)), p)
                continue
            c.ob('block: is the answer', kx is not None and unv(kx) == ('fld', ('this', k.depth), 'm_param') and buf(vx or ('x',)) is not None, w, 'answers %s' % ', '.join(pp(x)[:60] for x in told(p)), p)
            pb = [e for e in allev(p.items) if e.kind == 'mut' and e.q in ('push_back', 'emplace_back')]
            c.ob('block: holds its transaction', len(pb) == 1 and strip(pb[0].args[0]) == strip(fb[0]) and bool(uses('make_pretend_block', vx, *[e.obj for e in pb], *[t for t in facts_of(p)])
                 ), w, 'holds %s' % ', '.join(pp(e.args[0])[:60] for e in pb), p)
    c.ob('block', hit == {True, False}, c.where(u), 'a case is missing')

    # logs
    u = c.fn(R + 'run_get_logs', opaque=QOPR)
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        q = [t for t in uses('from_buffer', facts_of(p)) if unv(t[2][0]) == P_]
        h = kn(p, Has(q[0])) if len(q) == 1 else None
        dn = evs(p, call('handle_complete_get_logs'))
        lk = locks(p)
        if h is not True:
            hit.add('decode')
            c.ob('log query: one that is no query', h is False and not lk and not dn and truth(p, p.ret) is False and not told(p), w, 'goes on', p)
            continue
        mk = evs(p, call('make_read_host'))
        added = [S for S in walk(p.items, p.st) if S.ev.kind == 'mut' and S.ev.q in ('push_back', 'emplace_back')]
        good = len(added) == 1 and len(added[0].loops) == 2
        if good:
            a = fin(added[0].ev.args[0])
            l0, l1 = added[0].loops[0][0], added[0].loops[1][0]
            rg = sorted([str(l.dom[0]) for l in (l0, l1)])
            good = is_call(a, 'evm_host::log_index_key') and mentions_t(strip(a), ('fld', strip(q[0]), 'm_addresses')) and mentions_t(strip(a), ('fld', strip(q[0]), 'm_from_block')) and mentions_t(strip(a), ('fld', strip(q[0]), 'm_to_block'))
            good = good and rg == ['each', 'range'] and all(l.mode == 'all' for l in (l0, l1)) if hasattr(l0, 'mode') else good
        c.ob('log query: the key of every address in every block', good, w, 'others are asked for', p)
        if good:
            c.ob('log query: has a host', bool(mk) and before(p, lambda e: e is mk[0], added[0].ev), w, 'uses one that was never made', p)
        if dn:
            hit.add('none')
            c.ob('log query: without keys', not lk and not told(p) and truth(p, p.ret) is True, w, 'is answered twice', p)
            continue
        c.ob('log query: always answered', bool(lk), w, 'nothing is asked for and nobody is told', p)
        for e in lk:
            k = fin(e.args[0])
            c.ob('log query: reads each key', e.args[1] == LT['read'] and k[0] in ('each', 'elem', 'at'), w, 'reads %s' % pp(k)[:60], p)
        failed = any(kn(p, result(e)) is False for e in lk)
        hit.add('failed' if failed else 'asked')
        s = truth(p, p.ret)
        c.ob('log query: a request that is refused is told', (s is False or bool(told(p))) if failed else s is True and not told(p), w, 'nobody is told', p)
    c.ob('log query', hit == {'decode', 'none', 'failed', 'asked'}, c.where(u), 'a case is missing: %s' % sorted(hit))
    for _, k in c.closures(u, invoke(TCB)):
        for p in k.rets:
            g = evs(p, call('handle_get_logs_try_lock_response'))
            c.ob('log query: every answer is looked at', len(g) == 1 and unver(g[0].args[5]) == A(0, k.depth) and g[0].args[4][0] == 'size', c.where(k, p), 'is not', p)
    u = c.fn(R + 'handle_get_logs_try_lock_response', opaque=QOPR)
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        r = A(5)
        dn = evs(p, call('handle_complete_get_logs'))
        add = [e for e in allev(p.items) if e.kind == 'mut' and root(e.obj) == A(1)]
        cnt = [e for e in allev(p.items) if e.kind == 'set' and root(e.obj) == A(2)]
        if kn(p, ('is', r, BF)) is not True:
            hit.add('no value')
            c.ob('logs: a key that could not be read', kn(p, ('is', r, BF)) is False and told(p) == [EC['function_load']] and not dn and not cnt, w, 'is left out', p)
            continue
        fb = [t for t in uses('from_buffer', facts_of(p)) if strip(t[2][0]) == strip(('as', r, BF))]
        h = kn(p, Has(fb[0])) if len(fb) == 1 else None
        c.ob('logs: those that were found', h is not None and ([strip(e.args[0]) for e in add] == [strip(fb[0])] if h else not add), w, 'others are kept', p)
        c.ob('logs: each answer counts once', len(cnt) == 1 and unv(l_add(cnt[0].args[0], cnt[0].obj, -1)) == I_(1), w, 'is counted otherwise', p)
        if len(cnt) != 1:
            continue
        last = kn(p, Eq(cnt[0].args[0], A(4)))
        hit.add(last)
        c.ob('logs: complete with the last answer', last is not None and len(dn) == (1 if last else 0) and not told(p), w, 'answered %s' % ('never' if last else 'too early'), p)
        if add:
            c.ob('logs: kept before they are counted', before(p, lambda e: e is add[0], cnt[0]), w, 'the last answer may come before', p)
    c.ob('logs', hit == {'no value', True, False}, c.where(u), 'a case is missing: %s' % sorted(map(str, hit)))
    u = c.fn(R + 'handle_complete_get_logs', opaque=QOPR)
    for p in u.rets:
        w = c.where(u, p)
        kx, vx = pair(p)
        c.ob('logs: one answer', kx is not None and unv(kx) == P_ and buf(vx or ('x',)) is not None, w, 'answers %s' % ', '.join(pp(x)[:60] for x in told(p)), p)
        pb = [S for S in walk(p.items, p.st) if S.ev.kind == 'mut' and S.ev.q in ('push_back', 'emplace_back')]
        c.ob('logs: only what was found is passed on', bool(pb) and all(nolab(S.ev.args[0])[0] in ('each', 'elem', 'at') and mentions_t(S.ev.args[0], A(2)) for S in pb), w, 'others are', p)
    # keys
    for fn, parts in (('ticket_number_key', 0), ('log_index_key', 1)):
        u = c.fn(H + fn, opaque=HOPR)
        tn = A(parts)
        hit = set()
        for p in u.rets:
            w = c.where(u, p)
            wr = evs(p, call('CSHA256::Write'))
            h = kn(p, Has(tn))
            hit.add(h)
            num_ = tn if h else F('m_ticket_number')
            c.ob(fn + ': of the ticket', h is not None and len(wr) == 1 + parts and mentions_t(strip(wr[-1].args[0]), strip(num_)), w, 'of another one', p)
            if parts and len(wr) == 2:
                c.ob(fn + ': of the address', mentions_t(wr[0].args[0], A(0)), w, 'of another one', p)
        c.ob(fn, hit == {True, False}, c.where(u), 'a case is missing')
    u = c.fn(H + 'get_sorted_logs', opaque=HOPR)
    L = ('fld', F('m_receipt'), 'm_logs')
    for p in u.rets:
        ls = [it for it in p.items if it.kind == 'loop']
        c.ob('logs by address: every log', len(ls) == 1 and unver(ls[0].dom[1]) == L and all(len([x for x in allev(e.items) if x.kind == 'mut' and x.q in ('push_back', 'emplace_back')]) == 1 for e in ls[0].edges), c.where(u, p), 'some are left out', p)
        for S in walk(p.items, p.st):
            e = S.ev
            if e.kind == 'mut' and e.q in ('push_back', 'emplace_back'):
                x = nolab(e.args[0])
                c.ob('logs by address: under its own', e.obj[0] == 'at' and nolab(e.obj[2]) == ('fld', x, 'm_addr'), c.where(u, p), 'under %s' % pp(e.obj)[:60], p)
    u = c.fn(H + 'get_log_index_keys', opaque=HOPR)
    for p in u.rets:
        pb = [S for S in walk(p.items, p.st) if S.ev.kind == 'mut' and S.ev.q in ('push_back', 'emplace_back')]
        ok = len(pb) == 1 and len(pb[0].loops) == 1 and is_call(fin(pb[0].ev.args[0]), 'evm_host::log_index_key') and nolab(fin(pb[0].ev.args[0])[2][1])[0] == 'key' and fin(pb[0].ev.args[0])[2][2] == ('none',)
        c.ob('log keys: of every address with a log', ok, c.where(u, p), 'are others', p)
    u = c.fn(H + 'emit_log', opaque=HOPR)
    for p in u.rets:
        w = c.where(u, p)
        pb = [e for e in allev(p.items) if e.kind == 'mut' and e.q in ('push_back', 'emplace_back') and unver(e.obj) == L]
        x = pb[0].args[0] if len(pb) == 1 else ('x',)
        c.ob('log: kept with its address', len(pb) == 1 and unv(pick(x, 'm_addr')) == A(0), w, 'is not', p)
        d = pick(x, 'm_data')
        c.ob('log: its data', mentions_t(d, A(1)) and mentions_t(d, A(2)), w, 'is something else', p)
        tp_ = [S for S in walk(p.items, p.st) if S.ev.kind == 'mut' and S.ev.q in ('push_back', 'emplace_back') and S.loops]
        ok = len(tp_) == 1 and tp_[0].loops[0][0].dom[:3] == ('range', I_(0), A(4)) or len(tp_) == 1 and mentions_t(tp_[0].ev.args[0], A(3)) and mentions_t(tp_[0].ev.args[0], A(4))
        c.ob('log: its topics', ok, w, 'are others', p)


def uses_t(t, x):
    return any(y == x for y in subs(t))


def P_from(k):
    """the parameter, as a handler of the same run sees it"""
    return ('fld', ('this',), 'm_param')


BAL_ = 'm_balance'


def strip256(t):
    """a 256-bit word or address, whatever copies were made of it"""
    t = strip(t)
    while isinstance(t, tuple) and t and t[0] == 'new' and len(t[2]) == 1 and t[2][0][0] != 'i':
        t = t[2][0]
    return t


def nolab(t):
    """without the labels of loops"""
    t = unv(t)
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ('key', 'elem', 'val') and len(t) == 3 and not isinstance(t[2], tuple):
        C = nolab(t[1])
        return ('key' if t[0] == 'key' else t[0], C)
    return tuple(nolab(x) for x in t)


def saved_first(c, u, inner, parts):
    """copies of the parts are made before the call and none after"""
    order = []

    def go(o):
        if isinstance(o, list):
            for x in o:
                go(x)
        elif isinstance(o, dict):
            if o.get('k') == 'decl' and o.get('rk') == 'v' or o.get('k') == 'cp':
                order.append(('copy', {x['n'] for x in mems(o)}))
            for x in o.values():
                go(x)
            if o.get('k') == 'mcall' and o.get('f', '').split('(')[0] == inner:
                order.append(('call', None))

    def mems(o):
        if isinstance(o, list):
            return [y for x in o for y in mems(x)]
        if isinstance(o, dict):
            return ([o] if o.get('k') == 'mem' else []) + [y for x in o.values() for y in mems(x)]
        return []
    go(u.f['body'])
    i = [n for n, (k, _) in enumerate(order) if k == 'call']
    if not i:
        return True
    names_ = {x[2] for x in parts}
    was = set().union(*[s for k, s in order[:i[0]] if k == 'copy'])
    then = set().union(*[s for k, s in order[i[0]:] if k == 'copy'])
    return names_ <= was and not (names_ & then)


def upper(t):
    """terms that the number is at most"""
    t = unver(t)
    if t[0] in ('call', 'op') and t[1].split('::')[-1] == 'min':
        return [t] + [y for x in t[2] for y in upper(x)]
    return [t]
