"""The wallet: picking coins, building and signing transactions, keys, storage."""
from lib import *

W = 'cbdc::transaction::wallet'
WI = W + '::'
VAL = 'cbdc::transaction::validation::'
P_ = 'uhs/transaction/'
MUT = F('m_utxos_mut')
KEYS = F('m_keys_mut')
OPQ = ['wallet::accumulate_inputs', 'wallet::sign', 'wallet::generate_key', 'wallet::create_seeded_input', 'wallet::update_balance',
       'wallet::create_seeded_transaction', 'wallet::seed_readonly', 'pubkey_from_privkey']
LEDGER = ['m_spend_queue', 'm_utxos_set', 'm_balance']
VALUE = 'm_prevout_data.m_value'
COMMIT = 'm_prevout_data.m_witness_program_commitment'


def load(c):
    for n in LEDGER + ['m_utxos_mut', 'm_keys_mut', 'm_seed_from', 'm_seed_to', 'm_seed_value', 'm_seed_witness_commitment', 'm_keys', 'm_pubkeys', 'm_witness_programs']:
        c.field(W, n)


def methods(c):
    """methods other classes can enter, and those of the base tree"""
    out = []
    for r in c.P.recs.values():
        if r['q'] == W:
            for m in r['methods']:
                n = m['id'].split('(')[0].split('::')[-1]
                if m['acc'] != 'private' or m['virt'] or WI + n in c.known:
                    out.append(n)
    return out


def grown(lp, e):
    """loop-carried variable -> how one iteration over this edge changes it"""
    locs = {t[1] for f in lp.edges for v in f.st.mem.values() for t in subterms(v) if t[0] == 'lv' and t[2] == lp.L}
    return {q: l_add(e.st.load(q), ('lv', q, lp.L), -1) for q in locs}


def is_seed(t, idx=None):
    return is_call(t, 'wallet::create_seeded_input') and (idx is None or t[2][1] == idx)


class Pick:
    """what one path of a function that picks coins does"""

    def __init__(self, p):
        self.p = p
        self.inputs = None      # where the inputs of the new transaction are collected
        self.total = None       # variables that add up the values picked
        self.counter = None     # variables that count the seeded coins picked
        self.rem = None
        self.took = False
        self.seeded = False
        self.last = None
        self.msgs = []
        for s in walk(p.items, p.st):
            if push(INS)(s.ev):
                if self.inputs is None:
                    self.inputs = s.ev.obj
                elif self.inputs != s.ev.obj:
                    self.bad('inputs are added to two transactions', s.ev)
        for it in p.items:
            if it.kind != 'loop':
                continue
            pushes = [j for e in it.edges for j in allev(e.items) if push(INS)(j)]
            if any(is_seed(j.args[0]) for j in pushes):
                self.seeds(it)
            elif pushes:
                self.queue(it)
            else:
                self.removal(it)
        extra = ('i', 0)        # picked in an iteration that leaves the loop
        for j in top(p.items):
            if push(INS)(j):
                v = j.args[0]
                if v[0] == 'elem' and unver(v[1]) == F('m_spend_queue'):
                    extra = l_add(extra, F(VALUE, v))
                    self.took = True
                else:
                    self.bad('an input that is neither seeded nor in the spend queue is picked', j)
        self.sums = []          # the value of all that was picked
        if self.last is not None:
            self.sums = [l_add(('lv', q, self.last), extra) for q in self.total or ()]
        self.seeds_n = [('lv', q, self.seed_loop) for q in self.counter or ()]

    def final(self):
        """the inputs once all are picked"""
        if self.rem is not None:
            return self.rem.st.load(self.inputs)
        for s in enc(self.p, call('wallet::sign')):
            return s.ev.st.load(self.inputs)
        return self.p.st.load(self.inputs)

    def bad(self, why, ev=None):
        self.msgs.append((why, ev))

    def entry(self, lp, qs):
        """these variables run on from the previous loop, or start at zero"""
        out = set()
        for q in qs:
            v = lp.st.load(q)
            if v == (('i', 0) if self.last is None else ('lv', q, self.last)):
                out.add(q)
            elif self.last is not None and q not in (self.total or ()) and v == ('i', 0):
                out.add(q)
        return out

    def one(self, lp, e, want):
        ps = [j for j in allev(e.items) if push(self.inputs)(j)]
        if len(ps) != 1 or not want(ps[0].args[0]):
            self.bad('an iteration does not pick exactly the next coin', ps[0] if ps else None)
            return None
        return ps[0]

    def seeds(self, lp):
        self.seeded = True
        self.seed_loop = lp.L
        idx = ('lv', F('m_seed_from'), lp.L)
        if lp.st.load(F('m_seed_from')) != F('m_seed_from'):
            self.bad('seeded coins are not picked from the first one on')
        for e in lp.edges:
            j = self.one(lp, e, lambda t: is_seed(t, idx))
            if j is None:
                continue
            g = grown(lp, e)
            if g.get(F('m_seed_from')) != ('i', 1):
                self.bad('the seeded coin is not used up', j)
            tot = self.entry(lp, {q for q, d in g.items() if d == F('m_seed_value')})
            if not tot:
                self.bad('the value of the seeded coin is not added to the total', j)
            cnt = {q for q, d in g.items() if d == ('i', 1) and q != F('m_seed_from') and lp.st.load(q) == ('i', 0)}
            self.total = tot if self.total is None else self.total & tot
            self.counter = cnt if self.counter is None else self.counter & cnt
            if e.st.known(Eq(idx, F('m_seed_to'))) is not False and e.st.known(('has', j.args[0])) is not True:
                self.bad('a coin beyond the seed range is picked', j)
        self.last = lp.L

    def queue(self, lp):
        self.took = True
        if lp.dom[0] != 'each' or unver(lp.dom[1]) != F('m_spend_queue'):
            self.bad('inputs are not taken from the spend queue in order')
            return
        own = (X(lp.dom, lp.L).e, X(lp.dom, lp.L, True).e)
        for e in lp.edges:
            j = self.one(lp, e, lambda t: t in own)
            if j is None:
                continue
            tot = self.entry(lp, {q for q, d in grown(lp, e).items() if d == F(VALUE, j.args[0])})
            if not tot:
                self.bad('the value of the picked coin is not added to the total', j)
            self.total = tot if self.total is None else self.total & tot
        self.last = lp.L

    def removal(self, lp):
        evs = [j for e in lp.edges for j in allev(e.items)]
        if not any(j.kind in ('mut', 'set') and unver(j.obj) in [F(n) for n in LEDGER] for j in evs):
            return
        if self.rem is not None:
            self.bad('picked coins are removed twice')
        if lp.mode != 'all':
            self.bad('not every picked coin is removed')
        self.rem = lp

    def removed(self):
        """the removal loop takes exactly the picked coins out of the wallet"""
        lp, p = self.rem, self.p
        if lp.dom[0] != 'range' or self.inputs is None:
            return self.bad('the picked coins are not removed one by one')
        size = Size(self.final())
        want = [l_add(size, m, -1) for m in self.seeds_n] if self.seeded else [size] + [l_add(size, m, -1) for m in self.seeds_n]
        lo, hi = lp.dom[1:3]
        if l_add(hi, lo, -1) not in want:
            self.bad('not exactly the coins taken from the queue are removed')
        i = ('rix', lo, hi, lp.L)

        def coin(t):
            """the coin this iteration is about: the front of the queue, or
            the input of the same index"""
            t = unver(t)
            if t[0] in ('front', 'first'):
                return unver(t[1]) == F('m_spend_queue')
            return t[0] == 'at' and unver(t[1]) == self.inputs and t[2] == i and (lo in self.seeds_n or not self.seeded)
        for e in lp.edges:
            pops = [j for j in allev(e.items) if mut(F('m_spend_queue'))(j)]
            eras = [j for j in allev(e.items) if mut(F('m_utxos_set'))(j)]
            bal = grown(lp, e).get(F('m_balance'))
            if len(pops) != 1 or not (pops[0].q == 'pop_front' or pops[0].q == 'erase' and coin(pops[0].args[0])):
                self.bad('the picked coin is not removed from the front of the queue', pops[0] if pops else None)
            if len(eras) != 1 or eras[0].q != 'erase' or not coin(eras[0].args[0]):
                self.bad('the picked coin is not removed from the set of coins', eras[0] if eras else None)
            elif pops and unver(eras[0].args[0])[0] != 'at' and e.items.index(eras[0]) > e.items.index(pops[0]):
                self.bad('the next coin of the queue is removed instead of the picked one', eras[0])
            if bal is None or not any(coin(t[1][1]) and l_add(bal, t) == ('i', 0) for t in subterms(bal) if t[0] == 'fld' and t[1][0] == 'fld' and F(VALUE, t[1][1]) == t):
                self.bad('the balance is not reduced by the value of the picked coin', eras[0] if eras else None)


INS = PR(lambda t: t[0] == 'fld' and t[2] == 'm_inputs')


def picks(c, u, rule, enough):
    """every path of a function that picks coins"""
    c.locked(u, rule, touches(F('m_spend_queue')) | touches(F('m_utxos_set')) | touches(F('m_balance')) | touches(F('m_seed_from')), MUT, ('x',))
    n = 0
    for p in u.rets:
        k = Pick(p)
        sf = p.st.load(F('m_seed_from'))
        lvs = [t for t in subterms(sf) if t[0] == 'lv' and t[1] == F('m_seed_from')]
        led = [s.ev for s in walk(p.items, p.st) if s.ev.kind in ('set', 'mut') and unver(s.ev.obj) in [F(x) for x in LEDGER]]
        if p.ret == NONE:
            if led:
                k.bad('a failed attempt keeps coins of the queue', led[0])
            if sf != F('m_seed_from') and not (lvs and any(l_add(lvs[0], m, -1) == sf for m in k.seeds_n)):
                k.bad('a failed attempt uses up seeded coins')
        else:
            n += 1
            if sf != (lvs[0] if lvs else F('m_seed_from')):
                k.bad('picked seeded coins become available again')
            if k.rem is not None:
                k.removed()
            elif k.took and k.inputs is not None:
                k.bad('picked coins stay in the wallet')
            outside = [j for j in led if k.rem is None or not any(j is y for e in k.rem.edges for y in allev(e.items))]
            if outside:
                k.bad('the wallet loses coins that are not picked', outside[0])
        why = enough(p, k)
        if why:
            k.bad(why)
        c.ob(rule, True, c.where(u))
        for why, ev in k.msgs:
            c.ob(rule, False, c.where(u, p, ('', ev)) if ev is not None else c.where(u, p), why, p)
    c.ob(rule, n > 0, c.where(u), 'never succeeds')


# ------------------------------------------------------------- transactions
OUTS = PR(lambda t: t[0] == 'fld' and t[2] == 'm_outputs')


def part(v, name):
    """a member of a value put together member by member"""
    if v[0] == 'with':
        for path, x in v[2]:
            if path == (('fld', name),):
                return x
        v = v[1]
    if v[0] == 'obj':
        return dict(v[2]).get(name)
    return F(name, v) if v[0] != 'new' else None


def commitment(key):
    return lambda t: is_call(t, 'validation::get_p2pk_witness_commitment') and key(t[2][0])


def pays(t, value, key):
    return part(t, 'm_value') == value and part(t, 'm_witness_program_commitment') is not None and commitment(key)(part(t, 'm_witness_program_commitment'))


def own_key(t):
    return is_call(t, 'wallet::generate_key')


def payee(n):
    return lambda t: t == A(n)


def built(p):
    """the transaction a path returns before it was signed, and whether it was"""
    r = p.ret[1] if p.ret[0] == 'some' else p.ret
    if r[0] == 'out' and is_call(r[1], 'wallet::sign'):
        return r[1][2][1], True
    for s in enc(p, call('wallet::sign')):
        return r, None
    return r, False


def funded(r, acc):
    """exactly the picked inputs: only the outputs differ from what
    accumulate_inputs returned"""
    return r == F('first', acc) or (r[0] == 'with' and r[1] == F('first', acc) and all(q[0] == ('fld', 'm_outputs') for q, x in r[2]))


def sends(c, u, rule, amount, sign, dest):
    """accumulate_inputs(amount), outputs dest(path) -> message, the change
    back to an own key, signed on request"""
    for p in u.rets:
        acc = next((result(s.ev) for s in enc(p, call('wallet::accumulate_inputs'))), None)
        bad = None
        if acc is None or len(enc(p, call('wallet::accumulate_inputs'))) != 1 or acc[2][1] != amount:
            bad = 'the inputs are not picked for the amount to send'
        elif holds(Has(acc), Ctx(p.st, p.items)) is False:
            bad = None if p.ret == NONE else 'returns a transaction without inputs for it'
        elif p.ret == NONE:
            bad = 'picked coins are dropped'
        else:
            r, signed = built(p)
            total = F('second', acc)
            change = l_add(total, amount, -1)
            chg = [s for s in enc(p, push(OUTS)) if pays(s.ev.args[0], change, own_key)]
            other = [s for s in enc(p, push(OUTS)) if not pays(s.ev.args[0], change, own_key)]
            more = p.st.known(Lt(amount, total))
            if not funded(r, acc):
                bad = 'the inputs of the transaction are not the picked ones'
            elif signed is None or signed is not truth(p, A(sign)) and truth(p, A(sign)) is not None or truth(p, A(sign)) is None:
                bad = 'is not signed exactly on request'
            elif more is None:
                bad = 'the change is not decided on'
            elif len(chg) != (1 if more else 0) or any(s.loops for s in chg):
                bad = 'the change does not go back to the wallet'
            else:
                bad = dest(p, other)
        c.ob(rule, bad is None, c.where(u, p), bad or '', p)


def send_amount(c, rule):
    u = c.unit(pick_overload(c, 'send_to', 3), opaque=OPQ)

    def dest(p, other):
        if len(other) != 1 or other[0].loops or not pays(other[0].ev.args[0], A(0), payee(1)):
            return 'the payee does not get exactly the amount'
    sends(c, u, rule, A(0), 2, dest)


def fan(c, rule):
    u = c.fn(WI + 'fan', opaque=OPQ)
    amount = ('op', '*', (A(0), A(1)))

    def dest(p, other):
        bad = 'the payee does not get the wanted number of outputs of the value'
        if truth(p, Eq(A(0), ('i', 0))) is True:
            return None if not other else bad
        if not other or any(len(s.loops) != 1 or not pays(s.ev.args[0], A(1), payee(2)) for s in other):
            return bad
        lp = other[0].loops[0][0]
        if any(s.loops[0][0] is not lp for s in other) or lp.mode != 'all' or lp.dom[:3] != ('range', ('i', 0), A(0)):
            return bad
        if any(len([j for j in allev(e.items) if push(OUTS)(j)]) != 1 for e in lp.edges):
            return bad
    sends(c, u, rule, amount, 3, dest)


def pick_overload(c, name, n):
    r = [f for f in c.find(WI + name) if len(f['params']) == n]
    if len(r) != 1:
        raise Anchor('no wallet::%s with %d parameters' % (name, n))
    return r[0]


def send_count(c, rule):
    """send_to(inputs, outputs): all that was picked goes to the payee"""
    u = c.unit(pick_overload(c, 'send_to', 4), opaque=OPQ)

    def enough(p, k):
        have = l_add(l_add(Size(F('m_utxos_set')), F('m_seed_to')), F('m_seed_from'), -1)
        few = p.st.known(Lt(have, A(0)))
        if few is None:
            return 'the number of coins is not checked'
        if few:
            return None if p.ret == NONE else 'sends fewer inputs than wanted'
        if p.ret == NONE:
            for t in k.sums or [('i', 0)]:
                q = ('op', '/', (t, A(1)))
                if p.st.known(Eq(q, ('i', 0))) is True and p.st.known(Lt(('i', 1), A(1))) is True:
                    return None
            return 'fails with enough coins'
        if not any(p.st.known(Eq(('op', '/', (t, A(1))), ('i', 0))) is False for t in k.sums or [('i', 0)]) and p.st.known(Lt(('i', 1), A(1))) is not False:
            return 'makes outputs without value'
        return outputs(p, k)

    def outputs(p, k):
        r, signed = built(p)
        if signed is None or signed is not truth(p, A(3)):
            return 'is not signed exactly on request'
        if k.inputs is not None and part(r, 'm_inputs') != k.final():
            return 'the inputs of the transaction are not the picked ones'
        sites = enc(p, push(OUTS))
        if truth(p, Eq(A(1), ('i', 0))) is True:
            return None
        if any(len(s.loops) != 1 for s in sites):
            return 'the outputs are not one per wanted output'
        if not sites:
            return 'creates no outputs'
        lp = sites[0].loops[0][0]
        if any(s.loops[0][0] is not lp for s in sites) or lp.mode != 'all' or lp.dom[:3] != ('range', ('i', 0), A(1)):
            return 'the outputs are not one per wanted output'
        i = ('rix', ('i', 0), A(1), lp.L)
        for e in lp.edges:
            ps = [j for j in allev(e.items) if push(OUTS)(j)]
            if len(ps) != 1:
                return 'the outputs are not one per wanted output'
            g = grown(lp, e)
            v = part(ps[0].args[0], 'm_value')
            last = e.st.known(Eq(i, l_add(A(1), ('i', 1), -1)))
            rest = [q for q, d in g.items() if v is not None and l_add(d, v) == ('i', 0) and lp.st.load(q) in (k.sums or [('i', 0)])]
            if not rest:
                return 'the value of an output is not taken from the total'
            if last is None:
                return 'the last output is not told apart'
            if not pays(ps[0].args[0], v, payee(2)):
                return 'an output does not go to the payee'
            if last and v not in [('lv', q, lp.L) for q in rest]:
                return 'the last output does not get what is left'
            if not last and v not in [('op', '/', (t, A(1))) for t in k.sums or [('i', 0)]]:
                return 'an output does not get its share'
        return None
    picks(c, u, rule, enough)


@prop('L01', files=[P_ + 'wallet.cpp'])
def spending(c):
    load(c)
    names = methods(c)
    skip = ['seed', 'seed_readonly', 'create_seeded_transaction', 'create_seeded_input']
    c.discipline(W, ['m_utxos_mut'], LEDGER, entries=names)
    c.discipline(W, ['m_utxos_mut'], ['m_seed_from'], entries=[n for n in names if n not in skip], opaque=['wallet::seed_readonly', 'wallet::create_seeded_input'])

    u = c.fn(WI + 'accumulate_inputs', opaque=OPQ)

    def enough(p, k):
        if p.ret == NONE:
            ok = any(p.st.known(Lt(t, A(0))) is True for t in k.sums or [('i', 0)])
            return None if ok else 'fails with enough coins'
        r = p.ret[1]
        total, tx = part(r, 'second'), part(r, 'first')
        if k.last is not None and total not in k.sums or k.last is None and total != ('i', 0):
            return 'does not return the value of the picked coins'
        if p.st.known(Lt(total, A(0))) is not False:
            return 'succeeds with too few coins'
        if k.inputs is not None and part(tx, 'm_inputs') != k.final():
            return 'does not return the picked coins'
        if any(q[0] != ('fld', 'm_inputs') and q[0] != ('fld', 'm_witness') for q, x in (tx[2] if tx[0] == 'with' else ())):
            return 'the transaction has more than inputs'
    picks(c, u, 'picking coins for an amount', enough)
    send_count(c, 'sending a number of coins')
    send_amount(c, 'sending an amount')
    fan(c, 'fanning out')

    # ---- balance
    u = c.fn(WI + 'update_balance', opaque=OPQ)
    q = 'crediting and debiting'
    U, Q, B = F('m_utxos_set'), F('m_spend_queue'), F('m_balance')

    def credit(x):
        def f(e):
            ins = [j for j in must(e.items, puts(U)) if j.args[0] == x.e]
            if not ins or len(enc(e, puts(U))) != 1:
                return 'the coin is not added'
            return None
        return f

    def moves(p):
        for it in p.items:
            if it.kind != 'loop':
                if it.kind in ('set', 'mut') and unver(it.obj) in (U, Q, B):
                    return ('the wallet changes for other than credits and debits', it)
                continue
            x = X(it.dom, it.L)
            for e in it.edges:
                evs = [j for j in allev(e.items) if j.kind in ('set', 'mut') and unver(j.obj) in (U, Q, B)]
                if not evs:
                    continue
                if x.C not in (A(0), A(1)):
                    return ('the wallet changes for other than credits and debits', evs[0])
                cred = x.C == A(0)
                was = had(e, U, x.e)
                if was is None:
                    return ('whether the wallet has the coin is not decided', evs[0])
                d = grown(it, e).get(B, ('i', 0))
                want = F(VALUE, x.e)
                if cred:
                    if [j for j in evs if j.obj in (U,) and j.q not in ('emplace', 'insert', 'ensure')]:
                        return ('a credit removes a coin', evs[0])
                    qs = [j for j in evs if unver(j.obj) == Q]
                    if was and (d != ('i', 0) or qs):
                        return ('a coin the wallet has is credited again', evs[0])
                    if not was and (d != want or len(qs) != 1 or not push(Q, x.e)(qs[0]) or qs[0].q == 'push_front'):
                        return ('a new coin does not count towards the balance and the queue', evs[0])
                else:
                    qs = [j for j in evs if unver(j.obj) == Q]
                    if not was and (d != ('i', 0) or qs):
                        return ('a coin the wallet does not have is debited', evs[0])
                    if was and l_add(d, want) != ('i', 0):
                        return ('the balance does not lose the value of a spent coin', evs[0])
                    if was and (len(qs) != 1 or qs[0].q not in ('other', 'erase')):
                        return ('a spent coin stays in the queue', evs[0])
        return None
    c.every(u, q, moves, Each(A(0), lambda x: credit(x)), Each(A(1), lambda x: dels(U, x.e)))
    c.locked(u, q, touches(U) | touches(Q) | touches(B), MUT, ('x',))
    removal_predicate(c, u, q)
    u = c.fn(WI + 'confirm_inputs', opaque=OPQ)
    c.every(u, q, Does(call('wallet::update_balance', args=(A(0), PR(nothing))), 1))
    u = c.fn(WI + 'balance', opaque=OPQ)
    left = l_add(F('m_seed_to'), F('m_seed_from'), -1)
    c.cases(u, 'balance', [
        ('seeds left', Ne(F('m_seed_from'), F('m_seed_to')), [Ret(PR(lambda t: t in [l_add(F('m_balance'), ('op', '*', y)) for y in ((F('m_seed_value'), left), (left, F('m_seed_value')))]))]),
        ('none left', Eq(F('m_seed_from'), F('m_seed_to')), [Ret(PR(lambda t: t == F('m_balance') or t in [l_add(F('m_balance'), ('op', '*', y)) for y in ((F('m_seed_value'), left), (left, F('m_seed_value')))]))])])
    u = c.fn(WI + 'count', opaque=OPQ)
    c.cases(u, 'count', [
        ('seeds left', Ne(F('m_seed_from'), F('m_seed_to')), [Ret(l_add(Size(U), left))]),
        ('none left', Eq(F('m_seed_from'), F('m_seed_to')), [Ret(PR(lambda t: t in (Size(U), l_add(Size(U), left))))])])

    # ---- seeded coins
    q = 'seeded coins'
    u = c.fn(WI + 'create_seeded_transaction', opaque=OPQ)

    def seeded(p):
        r = p.ret[1] if p.ret[0] == 'some' else p.ret
        m = {tuple(x): v for x, v in r[2]} if r[0] == 'with' else {}

        by = {}
        for k, v in m.items():
            if len(k) > 1:
                by['.'.join(str(x[1]) if x[0] == 'fld' else '0' for x in k)] = v
        want = {'m_inputs.0.m_prevout.m_index': lambda t: t == A(0), 'm_inputs.0.m_prevout_data.m_value': lambda t: t == F('m_seed_value'),
                'm_inputs.0.m_prevout.m_tx_id': constant, 'm_inputs.0.m_prevout_data.m_witness_program_commitment': constant,
                'm_outputs.0.m_witness_program_commitment': lambda t: t == F('m_seed_witness_commitment'), 'm_outputs.0.m_value': lambda t: t == F('m_seed_value')}
        for k, f in want.items():
            if k not in by or not f(by[k]):
                return '%s of the seed transaction is %s' % (k, pp(by[k])[:60] if k in by else 'not set')
        return None
    c.cases(u, q, [('used up', Eq(F('m_seed_from'), F('m_seed_to')), [Ret(NONE)]),
                   ('available', Ne(F('m_seed_from'), F('m_seed_to')), [Ret(PR(lambda t: t != NONE)), seeded])])
    u = c.fn(WI + 'create_seeded_input', opaque=OPQ)
    tx = PR(lambda t: is_call(t, 'wallet::create_seeded_transaction') and t[2][1] == A(0))
    c.every(u, q, lambda p: None if p.ret == NONE and all(p.st.known(('has', result(s.ev))) is False for s in enc(p, call('wallet::create_seeded_transaction'))) or p.ret != NONE and
            from_output(p.ret, tx, ('i', 0)) else 'is not the first output of the seed transaction')
    u = c.fn(WI + 'seed_readonly', opaque=OPQ)
    c.every(u, q, Final(F('m_seed_from'), A(2)), Final(F('m_seed_to'), A(3)), Final(F('m_seed_value'), A(1)), Final(F('m_seed_witness_commitment'), A(0)))
    u = c.fn(WI + 'seed', opaque=OPQ)
    key = lambda t: is_call(t, 'pubkey_from_privkey') and t[2][0] == A(0)
    seeds = call('wallet::seed_readonly', args=(PR(commitment(key)), A(1), A(2), A(3)))
    c.cases(u, q, [('empty range', Le(A(3), A(2)), [Ret(FALSE), Never(call('wallet::seed_readonly')), Never(touches(F('m_keys')))]),
                   ('has keys', And(Lt(A(2), A(3)), Not(Empty(F('m_keys')))), [Ret(FALSE), Never(call('wallet::seed_readonly')), Never(touches(F('m_keys')))]),
                   ('seeded', And(Lt(A(2), A(3)), Empty(F('m_keys'))), [Ret(TRUE), Does(seeds, 1), stored(PR(key), A(0))])])


def constant(t):
    return all(x[0] in ('list', 'i', 'obj', 'new', 'b') or not isinstance(x[0], str) for x in [t])


def nothing(t):
    return t[0] == 'list' and not t[-1] or t[0] == 'new' and not t[2]


def had(e, C, x):
    """was x in C before this iteration changed it"""
    vs = {b[1]: pol for b, pol in e.st.bools.items() if b[0] == 'in' and b[2] == x and unver(b[1]) == C}
    for k, pol in vs.items():
        if not (k[0] == 'ver' and isinstance(k[2], int)):
            return pol
    return None


def from_output(t, tx, idx):
    """input_from_output(tx, idx[, its id])"""
    if not is_call(t, 'input_from_output'):
        return False
    a = t[2]
    return match(tx, a[0], {}) and a[1] == idx and (len(a) < 3 or is_call(a[2], 'transaction::tx_id') and match(tx, a[2][2][0], {}))


def stored(pub, priv):
    def f(p):
        e = [s.ev for s in enc(p, touches(F('m_pubkeys')) | touches(F('m_keys')) | touches(F('m_witness_programs')))]
        if not any(push(F('m_pubkeys'), pub)(j) for j in e) or not any(puts(F('m_keys'), pub, priv)(j) for j in e) or not any(
                puts(F('m_witness_programs'), PR(commitment(lambda t: match(pub, t, {}))), pub)(j) for j in e) or len(e) != 3:
            return 'the key pair is not stored with its witness program'
        for j in e:
            if not any(l[0] == KEYS and l[1] == 'x' for l in j.st.locks):
                return ('the key is stored without the lock', j)
    return f


def removal_predicate(c, u, rule):
    """what the debit takes out of the queue is the debited coin only"""
    m = M(lambda ev: mut(F('m_spend_queue'))(ev) and ev.q == 'other', 'remove from the queue')
    for p in u.rets:
        for s in enc(p, m):
            if s.ev.args[0] != ('s', 'remove_if'):
                c.ob(rule, False, c.where(u, p, ('', s.ev)), 'the queue is changed in an unexpected way', p)
                continue
            lam = lams_of(s.ev)
            x = X(s.loops[-1][0].dom, s.loops[-1][0].L)
            if not lam:
                c.ob(rule, False, c.where(u, p, ('', s.ev)), 'the queue is changed in an unexpected way', p)
                continue
            k = Unit(u.name + ' [predicate]', u.f, u.I.run_closure(lam[0], st=s.ev.st, later=False, depth=1), u.I, 1)
            split_bool(k)
            same = First(Eq(F('m_prevout', A(0, 1)), F('m_prevout', x.e)), Eq(A(0, 1), x.e),
                         And(Eq(F('m_prevout.m_tx_id', A(0, 1)), F('m_prevout.m_tx_id', x.e)), Eq(F('m_prevout.m_index', A(0, 1)), F('m_prevout.m_index', x.e))))
            c.cases(k, rule + ': taken from the queue', [('the spent coin', same, [Ret(TRUE)]), ('another coin', Not(same), [Ret(FALSE)])])
        for s in enc(p, M(lambda ev: mut(F('m_spend_queue'))(ev) and ev.q == 'erase', 'erase from the queue')):
            c.ob(rule, False, c.where(u, p, ('', s.ev)), 'the queue is searched in an unexpected way', p)


# ------------------------------------------------------------------- keys
PROG = F('m_witness_programs')


def drawn(t, dist):
    """a number drawn from a distribution with these arguments"""
    return is_call(t, 'uniform_int_distribution::operator()') and t[2][0][0] == 'new' and dist(t[2][0][2])


def key_rules(c):
    q = 'new keys'
    u = c.fn(WI + 'generate_key', opaque=['pubkey_from_privkey'])

    def fresh(p):
        r = p.ret
        made = [s.ev for s in enc(p, touches(F('m_pubkeys')) | touches(F('m_keys')) | touches(PROG))]
        if not made:
            if r[0] != 'at' or unver(r[1]) != F('m_pubkeys') or not drawn(r[2], lambda a: len(a) == 2 and a[0] == ('i', 0) and a[1] in [
                    l_add(Size(F(n)), ('i', 1), -1) for n in ('m_keys', 'm_pubkeys')]):
                return 'returns a key the wallet does not have'
            for i in p.items:
                if i.kind == 'lock' and i.obj == KEYS and i.q != 'x':
                    return ('the shared generator is used under a shared lock', i)
            return None
        if not is_call(r, 'pubkey_from_privkey'):
            return 'the key returned is not the one stored'
        sec = r[2][0]
        why = stored(r, sec)(p)
        if why:
            return why
        base = unver(sec)
        for it in p.items:
            if it.kind == 'loop' and it.mode == 'all' and it.dom[0] == 'each' and unver(it.dom[1]) == base and it.edges:
                e = it.edges
                if all(any(j.kind == 'set' and j.obj == X(it.dom, it.L, True).e and drawn(j.args[0], lambda a: a in ((), (('i', 0), ('i', 255))))
                           and mentions_t(j.args[0], PR(lambda t: len(t) > 1 and t[0] in ('glob', 'fld') and isinstance(t[-1], str) and t[-1].endswith('m_random_source'))) for j in x.items) for x in e):
                    return None
        return 'not every byte of the key is random'
    c.every(u, q, fresh)
    u = c.fn(WI + 'mint_new_coins', opaque=OPQ)

    def minted(p):
        r = p.ret
        if truth(p, Eq(A(0), ('i', 0))) is True:
            return None
        sites = enc(p, push(OUTS))
        lp = sites[0].loops[0][0] if sites and sites[0].loops else None
        if lp is None or lp.mode != 'all' or lp.dom[:3] != ('range', ('i', 0), A(0)) or any(s.loops[0][0] is not lp for s in sites):
            return 'not the wanted number of outputs'
        for e in lp.edges:
            ps = [j for j in allev(e.items) if push(OUTS)(j)]
            if len(ps) != 1 or not pays(ps[0].args[0], A(1), own_key):
                return 'an output does not give the value to an own key'
        if r[0] != 'with' or any(x[0][0] != ('fld', 'm_outputs') for x in r[2]):
            return 'minting has inputs'
    c.every(u, 'minting', minted)


def signing(c):
    q = 'signing'
    u = c.fn(WI + 'sign', opaque=OPQ)
    TX = A(0)
    INP = F('m_inputs', TX)
    WIT = F('m_witness', TX)

    def f(p):
        if p.st.known(compare('==', Size(INP), ('i', 0))) is True:
            return None
        lps = [it for it in p.items if it.kind == 'loop' and it.mode == 'all' and it.dom[0] == 'each' and unver(it.dom[1]) == INP]
        if len(lps) != 1:
            return 'not every input is looked at'
        lp = lps[0]
        if not any(mut(WIT, ('resize',))(j) and j.args[0] == Size(INP) for j in p.items[:p.items.index(lp)]):
            return 'the witnesses are not as many as the inputs'
        x = X(lp.dom, lp.L, True)
        commit = F(COMMIT, x.e)
        w = at(WIT, x.i)
        for e in lp.edges:
            own = e.st.known(In(PROG, commit))
            if own is None:
                return 'whether the input is the wallet\'s is not decided'
            if not own:
                if any(j.kind in ('set', 'mut') and mentions_t(j.obj, w) or j.kind == 'call' and qmatch('memcpy', j.q) for j in allev(e.items)):
                    return 'an input of somebody else is signed'
                continue
            if not any(mut(w, ('resize',))(j) and j.args[0] == ('i', 97) for j in e.items):
                return 'the witness does not have the size of a signature'
            pub = at(PROG, commit)
            g = lambda i: e.st.mem.get(at(w, ('i', i)))
            k = g(0)
            if k is None or not (k[0] == 'enum' and k[1].endswith('::p2pk') or k == ('i', 0)):
                return 'the witness program type is not the first byte'
            if g(1) != ('call', 'bytes', (pub, ('i', 32)), 0):
                return 'the public key does not follow the program type'
            s = g(33)
            if s is None or not is_call(s, 'bytes') or s[2][1] != ('i', 64) or s[2][0][0] != 'out' or not is_call(s[2][0][1], 'secp256k1_schnorrsig_sign') or s[2][0][2] != 1:
                return 'the signature does not follow the public key'
            sc = next((j for j in allev(e.items) if j.kind == 'call' and qmatch('secp256k1_schnorrsig_sign', j.q) and result(j) == s[2][0][1]), None)
            if sc is None:
                return 'the signature is not made for this input'
            if not is_call(deref(sc, 2), 'transaction::tx_id') or deref(sc, 2)[2][0] != TX:
                return ('something else than the identifier of the transaction is signed', sc)
            kp = deref(sc, 3)
            kc = next((j for j in allev(e.items) if j.kind == 'call' and qmatch('secp256k1_keypair_create', j.q) and kp[0] == 'out' and result(j) == kp[1] and kp[2] == 1), None)
            if kc is None or deref(kc, 2) != at(F('m_keys'), pub):
                return ('it is not signed with the key of the input', sc)
        return None

    def deref(ev, i):
        a = ev.args[i]
        return ev.st.load(a) if a[0] in ('loc', 'fld', 'at') else a
    c.every(u, q, f)
    c.cases(c.fn(WI + 'is_spendable'), 'spendable inputs', [
        ('own', In(PROG, F(COMMIT, A(0))), [Ret(TRUE)]), ('foreign', NotIn(PROG, F(COMMIT, A(0))), [Ret(FALSE)])])


def indexed(lp):
    """the loop variable of a loop over all outputs counted by index"""
    return X(lp.dom, lp.L, True)


def transfers(c):
    q = 'confirming a transaction'
    u = c.fn(WI + 'confirm_transaction', opaque=OPQ)
    OUT = F('m_outputs', A(0))

    def conf(p):
        ev = enc(p, call('wallet::update_balance'))
        if len(ev) != 1 or ev[0].loops or ev[0].ev.args[1] != F('m_inputs', A(0)):
            return 'the inputs of the transaction are not debited once'
        cred = ev[0].ev.args[0]
        if p.st.known(compare('==', Size(OUT), ('i', 0))) is True:
            return None
        return mine(p, OUT, unver(cred), lambda x: In(PROG, F('m_witness_program_commitment', x.e)), ev[0].ev)

    def mine(p, OUT, C, own, ev=None):
        lps = [it for it in p.items if it.kind == 'loop' and it.mode == 'all' and it.dom[0] == 'each' and unver(it.dom[1]) == OUT]
        if len(lps) != 1:
            return ('not every output is looked at', ev)
        x = X(lps[0].dom, lps[0].L, True)
        for s in enc(p, mut(C)):
            if not s.loops or s.loops[0][0] is not lps[0]:
                return ('other coins are added', s.ev)
        for e in lps[0].edges:
            h = holds(own(x), Ctx(e.st, e.items))
            ps = [j for j in allev(e.items) if mut(C)(j)]
            if h is None:
                return ('whether the output is meant is not decided', ev)
            if len(ps) != (1 if h else 0):
                return ('an output is %s' % ('left out' if h else 'added that does not belong'), ps[0] if ps else ev)
            if h and (not push(C)(ps[0]) or not from_output(ps[0].args[0], A(0), x.i)):
                return ('the coin is not the output', ps[0])
    c.every(u, q, conf)
    u = c.fn(WI + 'export_send_inputs', opaque=OPQ)

    def exp(p):
        if p.st.known(compare('==', Size(OUT), ('i', 0))) is True:
            return None
        com = ('call', VAL + 'get_p2pk_witness_commitment', (A(1),), 0)
        return mine(p, OUT, unver(p.ret), lambda x: Eq(F('m_witness_program_commitment', x.e), com))
    c.every(u, 'exporting outputs', exp)


@prop('L02', files=[P_ + 'wallet.cpp'])
def keys(c):
    load(c)
    c.discipline(W, ['m_keys_mut'], ['m_keys', 'm_pubkeys', 'm_witness_programs'], entries=methods(c), opaque=['pubkey_from_privkey'])
    key_rules(c)
    signing(c)
    transfers(c)


# ---------------------------------------------------------------- storage
def ints(t):
    return {x[1] for x in subterms(t) if x[0] == 'i'}


@prop('L03', files=[P_ + 'wallet.cpp'])
def storage(c):
    load(c)
    q = 'saving'
    u = c.fn(WI + 'save', opaque=['ostream_serializer'], eventful=['std::filesystem::rename', 'close', 'rename', 'flush'])
    KINDS = [F('m_keys'), F('m_utxos_set')]

    def saved(p):
        wr = [s.ev for s in enc(p, call('operator<<'))]
        if [unver(w.args[1]) for w in wr] != KINDS:
            return ('not exactly the keys and the coins are saved', wr[0] if wr else None)
        st = [t for t in subterms(wr[0].args[0]) if t[0] == 'new' and 'ofstream' in t[1]]
        if len(st) != 1 or not all(any(t == st[0] for t in subterms(w.args[0])) for w in wr):
            return ('the wallet is not written to one file', wr[0])
        name = st[0][2][0]
        if len(st[0][2]) < 2 or 4 not in ints(st[0][2][1]) or 1 in ints(st[0][2][1]):
            return ('the file is not opened for binary output from scratch', wr[0])
        if p.st.known(('call', 'good', (st[0],), 0)) is None and not opened(p, st[0]):
            return ('a file that cannot be opened goes unnoticed', wr[0])
        ren = [s.ev for s in enc(p, call(['std::filesystem::rename', 'rename']))]
        if name == A(0):
            return ('the old wallet is gone before the new one is written', wr[0])
        if len(ren) != 1 or ren[0].args[:2] != (name, A(0)):
            return ('the new wallet does not replace the old one', ren[0] if ren else None)
        fin = [j for j in p.items if j.kind == 'call' and qmatch(['basic_ofstream::close', 'basic_ostream::flush', 'close', 'flush'], j.q)]
        if not fin or p.items.index(fin[-1]) < p.items.index(wr[-1]) if wr[-1] in p.items else not fin:
            return ('the new wallet replaces the old one before it is written out', ren[0])
        obj = fin[-1].obj
        if not any(pol and b[0] == 'call' and (qmatch(['basic_ios::good', 'basic_ios::operator bool'], b[1])) and unver(b[2][0]) == unver(obj) and b[2][0] != st[0]
                   or not pol and b[0] == 'call' and qmatch(['basic_ios::fail', 'basic_ios::bad', 'basic_ios::operator!'], b[1]) and unver(b[2][0]) == unver(obj) and b[2][0] != st[0]
                   for b, pol in ren[0].st.bools.items()):
            return ('a wallet that could not be written replaces the old one', ren[0])
        for w in wr:
            need = KEYS if unver(w.args[1]) == KINDS[0] else MUT
            if not any(l[0] == need for l in w.st.locks):
                return ('the wallet is saved while it changes', w)

    def opened(p, f):
        return any(b[0] == 'call' and b[2] and b[2][0] == f and pol is (not qmatch(['basic_ios::fail', 'basic_ios::bad', 'basic_ios::operator!'], b[1])) for b, pol in p.st.bools.items()) or any(
            b[0] == 'call' and b[2] and unver(b[2][0])[0] == 'loc' and qmatch(['good', 'is_open', 'operator bool'], b[1]) for b in p.st.bools)
    c.every(u, q, saved)

    q = 'loading'
    u = c.fn(WI + 'load', opaque=['istream_serializer'])
    parts = ['m_keys', 'm_pubkeys', 'm_witness_programs'] + LEDGER
    n = 0
    for p in u.rets:
        rd = [s.ev for s in enc(p, call('operator>>'))]
        bad = None
        ch = [s.ev for s in enc(p, M(lambda ev: ev.kind in ('set', 'mut') and unver(ev.obj) in [F(x) for x in parts], ''))]
        if not rd:
            good = [pol for b, pol in p.st.bools.items() if b[0] == 'call' and b[2] and b[2][0][0] == 'new' and 'ifstream' in b[2][0][1]]
            if ch:
                bad = ('the wallet is changed without a file', ch[0])
            elif True in good and not any(qmatch(['basic_ios::fail', 'basic_ios::operator!', 'basic_ios::bad'], b[1]) for b in p.st.bools if b[0] == 'call'):
                bad = ('a readable file is not loaded', None)
        else:
            n += 1
            bad = loaded(p, rd)
        c.ob(q, bad is None, c.where(u, p, ('', bad[1])) if bad and bad[1] is not None else c.where(u, p), bad[0] if bad else '', p)
    c.ob(q, n > 0, c.where(u), 'never loads a wallet')


def loaded(p, rd):
    K, U = F('m_keys'), F('m_utxos_set')
    if len(rd) != 2:
        return ('not exactly the keys and the coins are read', rd[0])
    for C, ev in ((K, rd[0]), (U, rd[1])):
        v = p.st.load(C)
        if v[0] != 'out' or v[1] != result(ev) or v[2] != 1:
            return ('what is read is not what was saved', ev)
        if not empty_list(ev.args[1]) and not any(mut(C, ('clear',))(j) for j in p.items[:p.items.index(ev)]):
            return ('what was in the wallet before is mixed with the file', ev)
    st = [t for t in subterms(rd[0].args[0]) if t[0] == 'new' and 'ifstream' in t[1]]
    if len(st) != 1 or st[0][2][0] != A(0) or len(st[0][2]) < 2 or 4 not in ints(st[0][2][1]):
        return ('it is not read from the file', rd[0])
    ok = [b for b, pol in p.st.bools.items() if b[0] == 'call' and (pol and qmatch('operator bool', b[1]) or not pol and qmatch('operator!', b[1])) and any(t[0] == 'out' and t[1] == result(rd[1]) for t in subterms(b))]
    if not ok:
        return ('a wallet that could not be read completely is used', rd[1])
    for e in (Each(K, lambda x: [push(F('m_pubkeys'), x.k), puts(PROG, PR(commitment(lambda t: t == x.k)), x.k)]),
              Each(U, lambda x: [push(F('m_spend_queue'), x.e)])):
        why = e(p)
        if why:
            return ('not everything that was read can be used: ' + (why if isinstance(why, str) else why[0]), rd[1])
    for it in loops(p.items, U):
        for e in it.edges:
            x, y = X(it.dom, it.L), X(it.dom, it.L, True)
            if grown(it, e).get(F('m_balance')) not in (F(VALUE, x.e), F(VALUE, y.e)) or it.st.load(F('m_balance')) != ('i', 0):
                return ('the balance is not the sum of the coins read', rd[1])
    for C, why in ((F('m_pubkeys'), 'keys'), (PROG, 'keys'), (F('m_spend_queue'), 'coins')):
        ev = [s for s in enc(p, mut(C))]
        if not any(s.ev.q == 'clear' and not s.loops for s in ev):
            return ('%s of before remain usable' % why, rd[0])
