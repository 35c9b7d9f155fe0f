"""Coordinator of the two-phase commit architecture."""
from lib import *
from stdmodel import others_ran

CO = 'cbdc::coordinator::'
DT = CO + 'distributed_tx'
C_ = 'uhs/twophase/coordinator/'
LSI = 'cbdc::locking_shard::interface::'
SH, TXS, IDX, FULL, DONE = (F(n) for n in ('m_shards', 'm_txs', 'm_tx_idxs', 'm_full_txs', 'm_complete_txs'))
DID, ST = F('m_dtx_id'), F('m_state')


def request(name):
    """(shard, arguments...) of an asynchronous shard request, None for other events"""
    def fn(ev):
        if ev.kind != 'call' or ev.q != 'std::async' or len(ev.args) < 3:
            return False
        return any(a[0] == 'fref' and (LSI + name + '(') in str(a[1]) for a in ev.args[:2])
    return M(fn, name)


def req_args(ev):
    i = next(k for k, a in enumerate(ev.args) if a[0] == 'fref')
    return ev.args[i + 1:]


def any_request(ev):
    return ev.kind == 'call' and (ev.q == 'std::async' or any(qmatch(LSI + n, ev.q) for n in ('lock_outputs', 'apply_outputs', 'discard_dtx')))


def inner(v):
    while isinstance(v, tuple) and v and v[0] in ('ver', 'with') and len(v) > 1:
        v = v[1]
    return v


def fan_out(p, name, arg):
    """the one complete loop asking every involved shard (and no other) for
    `name` with the arguments arg(shard index term x, edge) accepts; returns
    (loop, futures container) or a failure"""
    sites = enc(p, M(lambda e: any_request(e), 'request'))
    mine = [s for s in sites if request(name)(s.ev)]
    lps = {id(s.loops[0][0]): s.loops[0][0] for s in mine if s.loops}
    outer = [it for it in p.items if it.kind == 'loop' and it.mode == 'all' and id(it) in lps]
    if any(not s.loops or id(s.loops[0][0]) not in {id(o) for o in outer} for s in mine):
        return 'shards are asked outside a complete run over all shards'
    if len(outer) != 1:
        return 'not exactly one run over all shards asks for ' + name
    lp = outer[0]
    if not {SH, IDX, TXS} & set(map(unver, lp.dom[1:])):
        return ('does not go over the shards', lp)
    x = X(lp.dom, lp.L, own=unver(lp.dom[1]) in (SH, IDX, TXS))
    i = x.i
    boxes = set()
    for e in lp.edges:
        reqs = [ev for ev in e.items if ev.kind == 'call' and request(name)(ev)]
        deep = [s for s in walk(e.items, e.st) if request(name)(s.ev)]
        if len(reqs) != len(deep) or len(reqs) > 1:
            return ('asks a shard more than once', lp)
        own = x.e if unver(x.C) == IDX else at(IDX, i)
        idle = holds(Eq(('size', own), I_(0)), Ctx(e.st, e.items))
        if idle is None:
            return ('asks a shard (or not) without looking whether it takes part', lp)
        if bool(idle) == bool(reqs):
            return ('a shard that takes part is not asked' if not idle else 'a shard that does not take part is asked', lp)
        if reqs:
            a = req_args(reqs[0])
            sh = x.e if unver(x.C) == SH else at(SH, i)
            if not reqs[0].args or not any(v == ('enum', 'std::launch', 1) or v[0] == 'enum' for v in reqs[0].args[:1]):
                return ('the request is not started', reqs[0])
            if a[0] != sh or a[-1] != DID:
                return ('another shard is asked, or for another batch', reqs[0])
            r = arg(x, e, i, a[1:-1], reqs[0])
            if r:
                return (r, reqs[0])
            f = result(reqs[0])
            keep = [ev for ev in e.items if ev.kind == 'mut' and ev.q in ADD and any(mentions_t(v, PR(lambda q: q == f)) for v in ev.args)]
            if len(keep) != 1:
                return ('the answer is not waited for', reqs[0])
            boxes.add((unver(keep[0].obj), keep[0].args[-1] if len(keep[0].args) == 1 else keep[0].args))
    if len(boxes) != 1:
        return ('no shard is ever asked', lp)
    return lp, boxes.pop(), i


def awaited(p, box, after):
    """the loop collecting every answer"""
    k = next(n for n, it in enumerate(p.items) if it is after)
    return [it for it in p.items[k + 1:] if it.kind == 'loop' and it.dom[0] == 'each' and box in {unver(d) for d in it.dom[1:]}]


def get_of(e):
    g = [ev for ev in e.items if ev.kind == 'call' and ev.q.split('::')[-1] == 'get' and 'future' in ev.q]
    return g[0] if len(g) == 1 else None


GET = M(lambda e: e.kind == 'call' and e.q.split('::')[-1] == 'get' and 'future' in e.q, 'future::get')


@prop('D01', files=[C_ + 'distributed_tx.cpp'])
def d01(c):
    """one batch: prepare, commit and discard in every shard that takes part"""
    for n in ('m_shards', 'm_txs', 'm_tx_idxs', 'm_full_txs', 'm_complete_txs', 'm_dtx_id', 'm_state', 'm_prepare_cb', 'm_commit_cb', 'm_discard_cb', 'm_done_cb'):
        c.field(DT, n)
    S = {n: c.enum(DT + '::dtx_state::' + n) for n in ('prepare', 'commit', 'discard', 'done', 'failed', 'start')}

    u = c.fn(DT + '::distributed_tx')

    def sized(C):
        def f(p):
            m = [i for i in top(p.items) if i.kind in ('mut', 'set') and unver(i.obj) == C and mentions_t(i.args, PR(lambda q: q[0] == 'size' and (q[1] == A(1) or unver(q[1]) == SH)))]
            return None if m or mentions_t(p.st.load(C), PR(lambda q: q[0] == 'size' and q[1] == A(1))) else 'there is not one list per shard'
        return f
    c.every(u, 'a new batch', Final(DID, A(0)), Final(SH, A(1)), sized(TXS), sized(IDX))
    c.every(u, 'a new batch', lambda p: None if p.st.load(ST) in (S['start'], ST) else 'a batch starts in another phase')

    # ---- add_tx
    u = c.fn(DT + '::add_tx')
    IR = LSI + 'hash_in_shard_range'

    def covers(s, h):
        return ('call', IR, (s, h), 0)

    def routed(p):
        n = 0
        for lp in loops(p.items, lambda d: unver(d) in (SH, TXS, IDX)):
            if lp.mode != 'all':
                return ('does not look at every shard', lp)
            x = X(lp.dom, lp.L, own=True)
            s = x.e if unver(x.C) == SH else at(SH, x.i)
            tx = A(0)
            part = Or(covers(s, F('m_id', tx)), Any(F('m_inputs', tx), lambda y: covers(s, y.e)), Any(F('m_uhs_outputs', tx), lambda y: covers(s, y.e)))
            for e in lp.edges:
                h = holds(part, Ctx(e.st, e.items))
                if h is None:
                    return ('does not decide whether the shard is concerned by the identifier, an input or an output', lp)
                a = [ev for ev in e.items if ev.kind == 'mut' and unver(ev.obj) == at(TXS, x.i)]
                b = [ev for ev in e.items if ev.kind == 'mut' and unver(ev.obj) == at(IDX, x.i)]
                if not h and (a or b):
                    return ('a shard gets a transaction that does not concern it', lp)
                if h:
                    if len(a) != 1 or a[0].q not in ADD[:2] or not (a[0].args[0][0] == 'obj' and dict(a[0].args[0][2]).get('m_tx') == tx):
                        return ('a shard does not get a transaction that concerns it', lp)
                    if len(b) != 1 or b[0].q not in ADD[:2] or b[0].args != (('size', FULL),):
                        return ('the position of the transaction in the batch is not kept for the shard', lp)
                n += 1
        return None if n else 'does not go over the shards'

    def keeps(p):
        f = [s for s in walk(p.items, p.st) if s.ev.kind in ('mut', 'set') and unver(s.ev.obj) == FULL]
        if len(f) != 1 or f[0].loops or f[0].ev.q not in ADD[:2] or f[0].ev.args != (A(0),):
            return 'the batch does not get exactly the new transaction at its end'
        new = unver(FULL)
        if p.ret == ('size', FULL) or p.ret[0] == 'lin' and p.ret[1] == -1 and len(p.ret[2]) == 1 and p.ret[2][0][0][0] == 'size' and unver(p.ret[2][0][0][1]) == new and p.ret[2][0][1] == 1:
            return None
        return 'does not return the position of the new transaction'
    c.every(u, 'a transaction joins the batch', routed, keeps)

    # ---- the three phases
    def failing(p):
        return None if p.st.load(ST) == S['failed'] else 'a failed phase does not leave the batch failed'

    def cb_first(p, cb, args, m):
        """the decision is replicated before any shard hears of it"""
        inv = enc(p, invoke(cb))
        has = holds(Has(cb), Ctx(p.st, p.items))
        if has is None:
            return 'does not look whether the step has to be replicated'
        if has:
            if len(inv) != 1 or inv[0].loops or inv[0].ev.args != args:
                return 'the step is not replicated exactly once with its data'
            ok = holds(result_of(inv[0].ev), Ctx(p.st, p.items))
            if ok is None:
                return 'does not look whether the step was replicated'
            seen = False
            for it in p.items:
                if it is inv[0].ev:
                    seen = True
                if anyin(it, m) and not seen:
                    return ('shards are asked before the step is replicated', it)
            if not ok and enc(p, m):
                return ('shards are asked although the step was not replicated', inv[0].ev)
            return ok
        return True if not inv else 'replicates without a callback'

    def result_of(ev):
        if isinstance(ev.ret, tuple) and ev.ret:
            return ev.ret
        return ('call', 'invoke', (ev.obj,) + tuple(ev.args), 0)

    def phase(u, label, cb, cbargs, name, arg, nxt, bad, collect, last=None):
        m = M(lambda e: any_request(e), 'request')
        ends = [0, 0]
        for p in u.rets:
            w = c.where(u, p)

            def no(r):
                c.ob(label, False, c.where(u, p, r), r if isinstance(r, str) else r[0], p)
            r = cb_first(p, cb, cbargs, m)
            if r is not True and r is not False:
                no(r)
                continue
            if r is False:
                c.ob(label, p.ret == bad and p.st.load(ST) == S['failed'], w, 'a phase that was not replicated does not fail', p)
                continue
            fo = fan_out(p, name, arg)
            if isinstance(fo, str) or len(fo) == 2:
                # nothing to do: no shards
                no(fo)
                continue
            lp, (box, kept), i = fo
            others = [s.ev for s in enc(p, m) if not request(name)(s.ev)]
            if others:
                no(('another request is made to the shards', others[0]))
                continue
            ok, r = collect(p, box, kept, lp, i)
            if r:
                no(r)
                continue
            if last and ok:
                ok, r = last(p, lp)
                if r:
                    no(r)
                    continue
            ends[1 if ok else 0] += 1
            if ok:
                c.ob(label, p.st.load(ST) == nxt, w, 'a completed phase does not lead to the next one', p)
                if bad == FALSE:
                    c.ob(label, p.ret == TRUE, w, 'a completed phase is not reported as done', p)
            else:
                c.ob(label, p.ret == bad and p.st.load(ST) == S['failed'], w, 'a failed phase is not reported, or the batch goes on', p)
            early = [s.ev for s in walk(p.items, p.st) if s.ev.kind == 'set' and s.ev.obj == ST and s.loops]
            c.ob(label, not early, w, 'the state changes while shards are still answering', p)
        c.ob(label, ends[0] and ends[1], c.where(u), 'the phase never ends well, or never fails')

    def prep_arg(x, e, i, a, ev):
        return None if a == (at(TXS, i),) else 'a shard does not get exactly its transactions'

    def prep_collect(p, box, kept, lp, i):
        """-> (completed, failure)"""
        pair = kept[0] == 'obj' and dict(kept[2]) if isinstance(kept, tuple) and kept and kept[0] == 'obj' else None
        if not pair or set(pair) != {'first', 'second'} or pair['second'] != i:
            return None, 'it is not kept which shard an answer comes from'
        ls = awaited(p, box, lp)
        if len(ls) != 1:
            return None, 'not every answer is waited for'
        l2 = ls[0]
        x = X(l2.dom, l2.L, own=True)
        k = ('key', x.C, l2.L)
        shard = ('at', x.C, k)
        for e in l2.edges:
            g = get_of(e)
            if g is None or g.obj != k:
                return None, ('an answer is not waited for', l2)
            res = result(g)
            mine = at(IDX, shard)
            cx = Ctx(e.st, e.items)
            if holds(Has(res), cx) is not True:
                return None, ('a missing answer is taken for a positive one', l2)
            if holds(Eq(('size', res), ('size', mine)), cx) is not True:
                return None, ('an answer of the wrong length is used', l2)
            marks = [s for s in walk(e.items, e.st) if s.ev.kind in ('set', 'mut') and s.ev.obj[0] in ('at', 'loc')]
            three = [it for it in e.items if it.kind == 'loop' and it.mode == 'all' and ({res, mine} & {unver(d) for d in it.dom[1:]} or it.dom[0] == 'each' and it.dom[-1] in (res, mine))]
            if len(three) != 1:
                return None, ('not every status of the answer is looked at', l2)
            y = X(three[0].dom, three[0].L, own=False)
            yo = X(three[0].dom, three[0].L, own=True)
            for e3 in three[0].edges:
                st = None
                for z in (y, yo):
                    val = z.e if unver(z.C) == res else at(res, z.i)
                    h = holds(val, Ctx(e3.st, e3.items))
                    st = h if h is not None else st
                if st is None:
                    return None, ('does not look at a status of the answer', three[0])
                w = [ev for ev in e3.items if ev.kind == 'set' and ev.obj[0] == 'at']
                if st and w:
                    return None, ('a positive status changes the result', w[0])
                if not st:
                    pos = {z.e if unver(z.C) == mine else at(mine, z.i) for z in (y, yo)}
                    if len(w) != 1 or w[0].args != (FALSE,) or w[0].obj[2] not in pos:
                        return None, ('a rejected transaction is not marked as such', three[0])
            if any(not s.loops for s in marks if s.ev.kind == 'set'):
                return None, ('the result changes otherwise', l2)
        if l2.mode == 'all':
            v = p.ret[1] if p.ret[0] == 'some' else None
            if v is None:
                return None, 'fails although every shard answered'
            v = inner(v)
            if v[0] != 'vec' or v[-1] != (('size', FULL), TRUE):
                return None, 'the result does not start with one positive status per transaction'
            return True, None
        tail = p.items[p.items.index(l2) + 1:]
        g = [i for i in tail if i.kind == 'call' and GET(i)]
        if len(g) == 1 and holds(Has(result(g[0])), Ctx(p.st, tail)) is False:
            return False, None
        return None, 'gives up although every shard answered'

    u = c.fn(DT + '::prepare', eventful=['^std::async$'])
    phase(u, 'prepare', F('m_prepare_cb'), (DID, FULL), 'lock_outputs', prep_arg, S['commit'], NONE, prep_collect)

    def commit_arg(flags):
        def f(x, e, i, a, ev):
            mine = {at(IDX, i)} | ({x.e} if unver(x.C) == IDX else set())
            if len(a) != 1:
                return 'a shard does not get its decisions'
            v = inner(a[0])
            k = e.items.index(ev)
            fill = [it for it in e.items[:k] if it.kind == 'loop' and it.mode == 'all' and set(map(unver, it.dom[1:])) & mine]
            if len(fill) != 1:
                return 'the decisions for the shard are not taken from its positions in the batch'
            for own in (False, True):
                y = X(fill[0].dom, fill[0].L, own)
                srcs = {at(flags, y.e), at(flags, ('at', at(IDX, i), y.i))}
                good = True
                for e2 in fill[0].edges:
                    w = [z for z in e2.items if z.kind in ('set', 'mut')]
                    if len(w) != 1 or w[0].args[-1] not in srcs:
                        good = False
                        break
                    if w[0].kind == 'set':
                        if not (w[0].obj[0] == 'at' and w[0].obj[2] == y.i and v[0] == 'vec' and v[-1][0] in {('size', m) for m in mine}):
                            good = False
                    elif w[0].q != 'push_back' or not (a[0][0] == 'ver' and unver(a[0]) == unver(w[0].obj) or v == unver(w[0].obj)):
                        good = False
                if good and fill[0].edges:
                    return None
            return 'the decisions for the shard are not those of its positions in the batch'
        return f

    def all_true(p, box, kept, lp, i):
        ls = awaited(p, box, lp)
        if len(ls) != 1:
            return None, 'not every answer is waited for'
        l2 = ls[0]
        x = X(l2.dom, l2.L, own=True)
        for e in l2.edges:
            g = get_of(e)
            if g is None or g.obj != x.e:
                return None, ('an answer is not waited for', l2)
            if holds(result(g), Ctx(e.st, e.items)) is not True:
                return None, ('a negative answer is taken for a positive one', l2)
        if l2.mode == 'all':
            return True, None
        tail = p.items[p.items.index(l2) + 1:]
        g = [i for i in tail if i.kind == 'call' and GET(i)]
        if len(g) == 1 and holds(result(g[0]), Ctx(p.st, tail)) is False:
            return False, None
        return None, 'gives up although every shard agreed'
    u = c.fn(DT + '::commit', eventful=['^std::async$'])
    phase(u, 'commit', F('m_commit_cb'), (DID, A(0), IDX), 'apply_outputs', commit_arg(A(0)), S['discard'], FALSE, all_true)

    def done_last(p, lp):
        cb = F('m_done_cb')
        inv = enc(p, invoke(cb))
        has = holds(Has(cb), Ctx(p.st, p.items))
        if has is None:
            return None, 'does not look whether the end has to be replicated'
        if not has:
            return (True, None) if not inv else (None, 'replicates without a callback')
        if len(inv) != 1 or inv[0].loops or inv[0].ev.args != (DID,):
            return None, 'the end of the batch is not replicated exactly once'
        k = p.items.index(inv[0].ev)
        if any(anyin(it, GET) for it in p.items[k:]):
            return None, ('the end is replicated before every shard discarded the batch', inv[0].ev)
        ok = holds(result_of(inv[0].ev), Ctx(p.st, p.items))
        return (None, 'does not look whether the end was replicated') if ok is None else (ok, None)
    u = c.fn(DT + '::discard', eventful=['^std::async$'])
    phase(u, 'discard', F('m_discard_cb'), (DID,), 'discard_dtx', lambda x, e, i, a, ev: None if a == () else 'wrong arguments', S['done'], FALSE, all_true, done_last)
    c.every(u, 'the end is replicated only after every shard discarded the batch',
            lambda p: None if not enc(p, invoke(F('m_done_cb'))) or any(anyin(it, GET) for it in p.items) and all(it.mode == 'all' for it in p.items if it.kind == 'loop' and anyin(it, GET)) else 'the end is replicated too early')

    # ---- the phases follow each other
    u = c.fn(DT + '::execute', eventful=['^std::async$'])
    order = ('lock_outputs', 'apply_outputs', 'discard_dtx')

    def sequence(first):
        def f(p):
            pos = {n: [k for k, it in enumerate(p.items) if anyin(it, request(n))] for n in order}
            got = [(pos[n][0], n) for n in order if pos[n]]
            if any(len(v) > 1 for v in pos.values()) or got != sorted(got):
                return 'the phases are repeated or out of order'
            names = [n for _, n in got]
            want = order[first:]
            if names != list(want[:len(names)]):
                return 'a phase is left out'
            if p.ret == NONE:
                return None if p.st.load(ST) == S['failed'] else 'reports a failure although no phase failed'
            if len(names) != len(want):
                return 'reports a result before every phase is complete'
            if p.st.load(ST) != S['done']:
                return 'reports a result although the batch is not done'
            if p.ret != ('some', p.st.load(DONE)):
                return 'does not return the statuses of the batch'
            if first == 0:
                v = inner(p.ret[1])
                if v[0] != 'vec' or v[-1] != (('size', FULL), TRUE):
                    return 'does not return the statuses found in the prepare phase'
            elif p.ret != ('some', DONE):
                return 'does not return the recovered statuses'
            return None
        return f

    def continued(first):
        """a failed phase is the last one"""
        def f(p):
            for it in p.items:
                if it.kind == 'loop' and it.mode == 'some' and anyin(it, GET):
                    k = p.items.index(it)
                    if any(anyin(j, M(any_request, 'request')) for j in p.items[k + 1:]):
                        return ('goes on after a failed phase', it)
            return None
        return f
    c.cases(u, 'phases', [
        ('new batch', Or(Eq(ST, S['start']), Eq(ST, S['prepare'])), [sequence(0), continued(0)]),
        ('recovered in commit', Eq(ST, S['commit']), [sequence(1), continued(1)]),
        ('recovered in discard', Eq(ST, S['discard']), [sequence(2), continued(2)]),
        ('done or failed', And(*[Ne(ST, S[n]) for n in ('start', 'prepare', 'commit', 'discard')]), [Never(M(any_request, 'request')), Never(invoke())]),
    ])
    # the decisions committed are those of the prepare phase
    cm = c.fn(DT + '::execute', opaque=['distributed_tx::prepare$', 'distributed_tx::commit$', 'distributed_tx::discard$'])
    CM, PRP = call('distributed_tx::commit'), call('distributed_tx::prepare')
    c.every(cm, 'the statuses of the prepare phase are kept',
            lambda p: None if not enc(p, PRP) or p.ret == NONE or p.st.load(DONE) == result(enc(p, PRP)[0].ev) else 'the statuses found in the prepare phase are not kept',
            lambda p: None if all(s.ev.args == (DONE,) for s in enc(p, CM)) else 'other decisions are committed')
    c.every(c.fn(DT + '::execute', opaque=['distributed_tx::commit$', 'distributed_tx::discard$']), 'the decisions committed are those of the prepare phase',
            lambda p: None if all(s.ev.args == (s.ev.st.load(DONE),) for s in enc(p, CM)) else 'other decisions are committed')

    # ---- recovery
    u = c.fn(DT + '::recover_prepare', opaque=['distributed_tx::add_tx$'])
    c.every(u, 'recover prepare', Final(ST, S['prepare']), Each(A(0), lambda x: [call('distributed_tx::add_tx', args=(x.e,))]),
            Never(touches(IDX)), Never(touches(DONE)))
    u = c.fn(DT + '::recover_commit')
    c.every(u, 'recover commit', Final(ST, S['commit']), Final(IDX, A(1)), Final(DONE, A(0)))
    u = c.fn(DT + '::recover_discard')

    def everyone(p):
        for lp in loops(p.items, IDX):
            if lp.mode == 'all':
                x = X(lp.dom, lp.L, own=True)
                if all(holds(Eq(('size', e.st.load(x.e) if unver(x.C) == IDX else ('none',)), I_(0)), Ctx(e.st, e.items)) is False
                       or any(ev.kind in ('mut', 'set') and unver(ev.obj) == x.e and fills(ev) for ev in e.items) for e in lp.edges):
                    return None
        return 'a recovered discard does not go to every shard'

    def fills(ev):
        if ev.kind == 'mut' and ev.q in ('push_back', 'append'):
            return True
        return any(a[0] in ('list', 'vec') and a[-1] and not (a[0] == 'vec' and a[-1][0] == ('i', 0)) for a in ev.args)
    c.every(u, 'recover discard', Final(ST, S['discard']), everyone)

    u = c.fn(DT + '::size')

    def bigger(p):
        a, b = ('size', FULL), ('size', DONE)
        if p.ret[0] == 'call' and p.ret[1] == 'max' and set(p.ret[2]) == {a, b}:
            return None
        lt, gt = p.st.known(compare('<', a, b)), p.st.known(compare('<', b, a))
        return None if p.ret == a and (lt is False or gt is True) or p.ret == b and (lt is True or gt is False) else 'the size of a batch is not the number of its transactions'
    c.every(u, 'size', bigger)
    c.every(c.fn(DT + '::get_id'), 'id', Ret(DID))
    c.every(c.fn(DT + '::get_state'), 'state', Ret(ST))
    for n in ('prepare', 'commit', 'discard', 'done'):
        c.every(c.fn(DT + '::set_%s_cb' % n), 'callback', Final(F('m_%s_cb' % n), A(0)))


SMQ = CO + 'state_machine'
CTL = CO + 'controller'
CFILES = [C_ + 'controller.cpp', C_ + 'state_machine.cpp', C_ + 'format.cpp', C_ + 'distributed_tx.cpp']
PHASES = ('prepare', 'commit', 'discard', 'done')


def field_of(v, n):
    v = v[1] if v[0] == 'some' else v
    return dict(v[2]).get(n) if v[0] in ('obj',) and len(v) > 2 else None


def built(st, o):
    """what a distributed_tx was made with"""
    v = st.load(o)
    return v[2] if v[0] == 'new' and v[1] == DT and len(v[2]) == 3 else None


def made(p, ev):
    """what the batch stored by ev was made with (giving it callbacks, before
    or after, leaves that as it is)"""
    r = built(ev.st, ev.args[0]) if ev.st is not None else None
    r = r or built(p.st, ev.args[0])
    if r is None:
        for i in top(p.items):
            if i.kind == 'call' and qmatch('batch_set_cbs', i.q) and i.args[0][:2] == ('new', DT) and len(i.args[0][2]) == 3:
                v = p.st.load(ev.args[0])
                if v[0] == 'out' and v[1][2][-1] == i.args[0]:
                    r = i.args[0][2]
    return r


@prop('C01', files=CFILES)
def c01(c):
    """the replicated record of batches, and taking over from it"""
    c.field(CTL, 'm_exec_threads')
    K = {n: c.enum(SMQ + '::command::' + n) for n in PHASES + ('get',)}
    P_, M_, D_ = (F('m_state.' + n) for n in ('m_prepare_txs', 'm_commit_txs', 'm_discard_txs'))

    # ---- applying the log
    u = c.fn(SMQ + '::commit', eventful=['buffer::copy$'])
    OUT = M(lambda e: e.kind == 'call' and e.q.split('::')[-1] == 'operator>>', 'decoding')
    last = F('m_last_committed_idx')
    hits = dict.fromkeys(K, 0)
    for p in u.rets:
        w = c.where(u, p)
        evs = [i for i in top(p.items) if OUT(i)]
        if len(evs) != 1 or not mentions_t(evs[0].args[0], PR(lambda q: q == A(1))):
            c.ob('log entry', False, w, 'the header of the entry is not read exactly once', p)
            continue
        H = ('out', evs[0].ret, 1, 1)
        comm, did = F('m_comm', H), F('m_dtx_id', H)
        ks = [n for n in K if holds(Eq(comm, K[n]), Ctx(p.st, p.items)) is True]
        ch = [i for i in allev(p.items) if i.kind in ('mut', 'set') and touches(F('m_state'))(i)]
        c.ob('log position', p.st.load(last) == A(0), w, 'the position applied last is not the one of this entry', p)
        if len(ks) != 1:
            c.ob('log entry', not ch and all(holds(Eq(comm, K[n]), Ctx(p.st, p.items)) is False for n in K), w, 'an entry of no known kind changes the record', p)
            continue
        k = ks[0]
        hits[k] += 1
        cp = [i for i in top(p.items) if i.kind == 'call' and qmatch('buffer::copy', i.q)]

        def stored(C):
            """the entry is stored under the batch, without its header"""
            s = [i for i in ch if unver(i.obj) == C]
            if len(s) != 1 or s[0].q not in ('emplace', 'insert', 'assign', 'try_emplace') or len(s[0].args) != 2 or s[0].args[0] != did:
                return False
            v = s[0].args[1]
            if not is_call(v, 'buffer::copy') or v[2][0] != A(1) or len(cp) != 1:
                return False
            return p.items.index(evs[0]) < p.items.index(cp[0])

        def gone(C):
            s = [i for i in ch if unver(i.obj) == C]
            return len(s) == 1 and s[0].q == 'erase' and s[0].args == (did,) and fact(C) is True

        def fact(C):
            return holds(In(C, did), Ctx(p.st, p.items))
        n = {'prepare': 1, 'commit': 2, 'discard': 2, 'done': 1, 'get': 0}[k]
        c.ob('log entry [%s]' % k, len(ch) == n, w, 'an entry changes other parts of the record', p)
        if k == 'prepare':
            c.ob('log entry [prepare]', stored(P_), w, 'a prepared batch is not recorded with its transactions', p)
            c.ob('log entry [prepare]', fact(P_) is False, w, 'a batch prepared twice is accepted', p)
        elif k == 'commit':
            c.ob('log entry [commit]', gone(P_), w, 'a committed batch stays prepared', p)
            c.ob('log entry [commit]', stored(M_), w, 'a committed batch is not recorded with its decisions', p)
        elif k == 'discard':
            c.ob('log entry [discard]', gone(M_), w, 'a batch to be discarded stays committed', p)
            s = [i for i in ch if unver(i.obj) == D_]
            c.ob('log entry [discard]', len(s) == 1 and s[0].q in ADD and s[0].args == (did,), w, 'a batch to be discarded is not recorded', p)
        elif k == 'done':
            c.ob('log entry [done]', gone(D_), w, 'a batch that is done stays recorded', p)
        else:
            wr = [i for i in top(p.items) if i.kind == 'call' and i.q.split('::')[-1] == 'operator<<']
            buf = p.ret
            c.ob('log entry [get]', len(wr) == 1 and wr[0].args[1] == F('m_state') and is_call(buf, 'buffer::alloc') and mentions_t(wr[0].args[0], PR(lambda q: q == buf)), w, 'the record is not returned', p)
    for k, n in hits.items():
        c.ob('log entry [%s]' % k, n, c.where(u), 'no path of the function implements this case')
    c.every(c.fn(SMQ + '::commit_config'), 'configuration entry', Final(last, A(0)), Never(touches(F('m_state'))))
    c.every(c.fn(SMQ + '::last_commit_index'), 'last index', Ret(last))
    c.every(c.fn(SMQ + '::create_snapshot'), 'no snapshot is claimed', lambda p: None if all(s.ev.args[0] == FALSE for s in enc(p, invoke())) else 'reports a snapshot that was not taken')
    c.every(c.fn(SMQ + '::apply_snapshot'), 'no snapshot is applied', Ret(FALSE))

    # ---- the steps of a batch are replicated
    REP = call('replicate_sm_command')
    data = {'prepare': A(1), 'commit': None, 'discard': None, 'done': None}
    for n in PHASES:
        u = c.fn(CTL + '::%s_cb' % n, opaque=['replicate_sm_command$'])

        def replicated(p, n=n):
            e = enc(p, REP)
            if len(e) != 1 or e[0].loops:
                return 'the step is not replicated exactly once'
            m = e[0].ev.args[0]
            h = field_of(m, 'm_header')
            if h is None or field_of(h, 'm_comm') != K[n] or field_of(h, 'm_dtx_id') not in (('some', A(0)), A(0)):
                return ('another step, or that of another batch, is replicated', e[0].ev)
            d = field_of(m, 'm_data')
            if n == 'prepare' and not (d is not None and mentions_t(d, PR(lambda q: q == A(1)))):
                return ('the transactions are not replicated', e[0].ev)
            if n == 'commit':
                d = d[1] if d is not None and d[0] == 'some' else d
                while d is not None and d[0] == 'var':
                    d = d[2]
                if d is None or field_of(d, 'first') != A(1) or field_of(d, 'second') != A(2):
                    return ('the decisions are not replicated', e[0].ev)
            has = holds(Has(result(e[0].ev)), Ctx(p.st, p.items))
            if has is None or p.ret != (TRUE if has else FALSE):
                return ('the outcome of the replication is not reported', e[0].ev)
        c.every(u, 'step %s is replicated' % n, replicated)
    u = c.fn(CTL + '::replicate_sm_command')

    def sent(p):
        e = enc(p, call('replicate_sync'))
        w = [i for i in top(p.items) if i.kind == 'call' and i.q.split('::')[-1] == 'operator<<']
        if not is_call(p.ret, 'replicate_sync') or p.ret[2][0] != F('m_raft_serv'):
            return 'does not return the outcome of the replication'
        b = p.ret[2][1]
        if len(w) != 1 or w[0].args[1] != A(0) or not mentions_t(w[0].args[0], PR(lambda q: q == b)):
            return 'what is replicated is not the command'
        sz = [t for t in subterms(b) if is_call(t, 'serialized_size')]
        return None if sz and all(t[2] == (A(0),) for t in sz) else 'the buffer is not of the size of the command'
    c.every(u, 'commands are replicated as they are', sent)

    # ---- callbacks: every step but the one recovered into
    u = c.fn(CTL + '::batch_set_cbs', opaque=['distributed_tx::set_', 'distributed_tx::get_state$'], eventful=['distributed_tx::set_'])
    S = {n: c.enum(DT + '::dtx_state::' + n) for n in PHASES}
    gs = ('call', DT + '::get_state', (A(0),), 0)
    for n in PHASES:
        m = call('distributed_tx::set_%s_cb' % n, obj=A(0))
        cur = Eq(gs, S[n])
        c.every(u, 'callbacks of a batch', lambda p, n=n, m=m, cur=cur: None if holds(cur, Ctx(p.st, p.items)) is True or len(enc(p, m)) == 1 else 'the step %s is not replicated' % n)
        c.every(u, 'callbacks of a batch', OnlyIf(m, Not(cur)))
        args = {'prepare': 2, 'commit': 3, 'discard': 1, 'done': 1}[n]
        for s, k in c.closures(c.fn(CTL + '::batch_set_cbs', opaque=['distributed_tx::set_', 'distributed_tx::get_state$', 'controller::.*_cb$'], eventful=['distributed_tx::set_', '_cb$']), m):
            want = tuple(A(i, k.depth) for i in range(args))

            def calls(p, n=n, want=want):
                e = [x for x in enc(p, M(lambda ev: ev.kind == 'call' and ev.q.endswith('_cb'), 'callback'))]
                if len(e) != 1 or not qmatch(CTL + '::%s_cb' % n, e[0].ev.q) or e[0].ev.args != want:
                    return 'the callback does not replicate the step %s with its data' % n
                return None if holds(result(e[0].ev), Ctx(p.st, p.items)) is (p.ret == TRUE) else 'the callback does not report whether the step was replicated'
            c.every(k, 'callbacks of a batch', calls)

    # ---- taking over
    u = c.fn(CTL + '::recovery_func', opaque=['replicate_sm_command$', 'batch_set_cbs$', 'schedule_exec$', 'join_execs$', 'recover_prepare$', 'recover_commit$', 'recover_discard$', 'distributed_tx::execute$'],
             eventful=['recover_(prepare|commit|discard)$', 'batch_set_cbs$', 'join_execs$', 'schedule_exec$'])
    SCH, JOIN, CBS = call('schedule_exec'), call('join_execs'), call('batch_set_cbs')

    def fetched(p):
        e = enc(p, REP)
        if len(e) != 1 or e[0].loops:
            return 'the record is not fetched exactly once'
        h = field_of(e[0].ev.args[0], 'm_header')
        if h is None or field_of(h, 'm_comm') != K['get']:
            return ('another command is replicated', e[0].ev)
        r = result(e[0].ev)
        has = holds(Has(r), Ctx(p.st, p.items))
        if has is not True:
            if p.ret != FALSE:
                return ('success is reported although the record could not be fetched', e[0].ev)
            if enc(p, SCH):
                return 'batches are executed although the record could not be fetched'
            return None
        dec = [i for i in top(p.items) if OUT(i)]
        if not dec:
            return None if p.ret == FALSE and not enc(p, SCH) else 'the record is not looked at'
        if len(dec) != 1 or not mentions_t(dec[0].args[0], PR(lambda q: q == r)):
            return ('something else is decoded', dec[0])
        H = ('out', dec[0].ret, 1, 1)
        box = set()
        for n in PHASES[:3]:
            C = F('m_%s_txs' % n, H)
            m = call('distributed_tx::recover_' + n)
            lps = [lp for lp in p.items if lp.kind == 'loop' and lp.mode == 'all' and any(anyin(i, m) for e2 in lp.edges for i in e2.items)]
            if len(lps) != 1 or C not in lps[0].dom[1:]:
                return 'not every batch in the phase %s is recovered' % n
            x = X(lps[0].dom, lps[0].L)
            xo = X(lps[0].dom, lps[0].L, own=True)
            for e2 in lps[0].edges:
                ev = [i for i in e2.items if i.kind == 'call' and m(i)]
                if len(ev) != 1 or sum(1 for i in e2.items if i.kind == 'call' and 'recover_' in i.q) != 1:
                    return ('a batch is not recovered exactly once', lps[0])
                ev = ev[0]
                ids = {x.k, xo.k} if n != 'discard' else {x.e, xo.e}
                mk = built(ev.st, ev.obj)
                if mk is None or mk[0] not in ids:
                    return ('a batch is recovered under another identifier', ev)
                if unver(mk[1]) != SH:
                    return ('a batch is recovered without the shards', ev)
                vals = [at(D, k2) for D in lps[0].dom[1:] for k2 in (x.k, xo.k)]
                want = {'prepare': [(v,) for v in vals], 'commit': [(F('first', v), F('second', v)) for v in vals], 'discard': [()]}[n]
                if ev.args not in want:
                    return ('a batch is recovered with other data', ev)
                keep = [i for i in e2.items if i.kind == 'mut' and i.q in ADD and ev.obj in i.args]
                if len(keep) != 1:
                    return ('a recovered batch is not executed', ev)
                box.add(unver(keep[0].obj))
        runs = [lp for lp in p.items if lp.kind == 'loop' and lp.mode == 'all' and any(anyin(i, SCH) for e2 in lp.edges for i in e2.items)]
        if len(runs) != 1 or len(box) != 1 or not box & {unver(d) for d in runs[0].dom[1:]}:
            return 'not every recovered batch is executed'
        x = X(runs[0].dom, runs[0].L, own=True)
        locs = set()
        for e2 in runs[0].edges:
            a = [i for i in e2.items if i.kind == 'call' and CBS(i)]
            b = [i for i in e2.items if i.kind == 'call' and SCH(i)]
            if len(b) != 1:
                return ('a recovered batch is not executed exactly once', runs[0])
            if len(a) != 1 or e2.items.index(a[0]) > e2.items.index(b[0]) or a[0].args != (x.e,):
                return ('a recovered batch is executed without its callbacks', runs[0])
            for lam in lams_of(b[0]):
                locs |= {cp[2] for cp in lam[2] if len(cp) == 4 and cp[1] == 'ref' and cp[2][0] == 'loc'}
        k = p.items.index(runs[0])
        j = [i for i in p.items[k:] if i.kind == 'call' and JOIN(i)]
        if len(j) != 1:
            return 'returns before the recovered batches are done'
        out = [v for v in (holds(j[0].st.load(l), Ctx(p.st, p.items)) for l in locs) if v is not None]
        return None if out and all(v is (p.ret == TRUE) for v in out) else 'does not report whether every batch was recovered'
    c.every(u, 'taking over', fetched)
    c.ob('taking over', any(enc(p, SCH) and p.ret == TRUE for p in u.rets), c.where(u), 'nothing is ever recovered')
    EX = call('distributed_tx::execute')
    for s, k in c.closures(u, SCH):
        locs = {cp[2] for lam in lams_of(s.ev) for cp in lam[2] if len(cp) == 4 and cp[1] == 'ref' and cp[2][0] == 'loc'}

        def ran(p):
            e = enc(p, EX)
            if len(e) != 1 or e[0].loops:
                return 'a recovered batch is not executed exactly once'
            if not mentions_t(e[0].ev.obj, PR(lambda q: q[0] == 'elem' and q[2] == s.loops[-1][0].L)):
                return ('another batch is executed', e[0].ev)
            has = holds(Has(result(e[0].ev)), Ctx(p.st, p.items))
            if has is None:
                return ('does not look whether the batch could be executed', e[0].ev)
            if not has and not any(p.st.load(l) == FALSE for l in locs):
                return ('a failure to execute a recovered batch is not noticed', e[0].ev)
            if has and any(p.st.load(l) != s.ev.st.load(l) for l in locs):
                return ('an executed batch counts as failed', e[0].ev)
            return freed(k)(p)
        c.every(k, 'execution of a recovered batch', ran)


def freed(k):
    """the executor thread is given back at the end, under its lock"""
    def f(p):
        T = F('m_exec_threads', ('this', k.depth))
        slot = F('second', at(T, A(0, k.depth)))
        alt = at(T, A(0, k.depth))
        w = [s for s in enc(p, M(lambda e: e.kind == 'set' and mentions_t(e.obj, PR(lambda q: q == T)), 'slot'))]
        w = [s for s in w if s.ev.args == (FALSE,)]
        if len(w) != 1 or w[0].loops or w[0].ev.obj not in (slot, alt, ('at', T, ('key', T, A(0, k.depth)))):
            return 'the executor thread is not given back'
        held = []
        for i in p.items:
            if i is w[0].ev:
                break
            if i.kind == 'lock':
                held.append(i.obj)
            elif i.kind == 'unlock' and i.obj in held:
                held.remove(i.obj)
        if F('m_exec_mut', ('this', k.depth)) not in held:
            return ('the executor thread is given back without the lock', w[0].ev)
        i = p.items.index(w[0].ev)
        if any(j.kind in ('call', 'invoke', 'loop') for j in p.items[i + 1:]):
            return ('the executor thread is given back before its work is done', w[0].ev)
        return None
    return f


BM, BCV, CB_, CT_ = F('m_batch_mut'), F('m_batch_cv'), F('m_current_batch'), F('m_current_txs')
RUN = F('m_running')


def region(p, evs, mutex):
    """the events are in one unbroken region under the mutex"""
    open_, ids, n = None, set(), 0
    for i in p.items:
        if i.kind == 'lock' and i.obj == mutex:
            n += 1
            open_ = n
        elif i.kind == 'unlock' and i.obj == mutex:
            open_ = None
        if any(i is e for e in evs):
            ids.add(open_)
    return len(ids) == 1 and None not in ids


def notifies(cv):
    return M(lambda e: e.kind == 'call' and e.obj == cv and e.q.split('::')[-1] in ('notify_one', 'notify_all'), 'notification')


@prop('C02', files=CFILES)
def c02(c):
    """transactions enter one batch; every batch is executed and answered"""
    for n in ('m_batch_mut', 'm_batch_cv', 'm_current_batch', 'm_current_txs', 'm_running', 'm_start_mut', 'm_start_cv', 'm_start_flag', 'm_stop_flag', 'm_quit', 'm_exec_mut', 'm_shards_mut', 'm_rpc_server', 'm_batch_exec_thread'):
        c.field(CTL, n)
    c.load('uhs/transaction/validation.cpp')
    # ---- requests
    u = c.fn(CTL + '::execute_transaction', opaque=['distributed_tx::add_tx$', 'is_leader$', 'check_attestations$'])
    leader = ('call', 'cbdc::raft::node::is_leader', (F('m_raft_serv'),), 0)
    att = ('call', 'cbdc::transaction::validation::check_attestations', (A(0), F('m_opts.m_sentinel_public_keys'), F('m_opts.m_attestation_threshold')), 0)
    known = In(CT_, F('m_id', A(0)))
    ADDTX = call('distributed_tx::add_tx')
    into = M(lambda e: e.kind == 'mut' and unver(e.obj) == CT_, 'batch map')
    space = Lt(('size', CT_), F('m_batch_size'))

    def joined(p):
        a, b = enc(p, ADDTX), enc(p, into)
        if len(a) != 1 or a[0].loops or a[0].ev.obj != CB_ or a[0].ev.args != (A(0),):
            return 'an accepted transaction does not join the batch exactly once'
        if len(b) != 1 or b[0].ev.q not in ('emplace', 'insert', 'assign', 'try_emplace') or len(b[0].ev.args) != 2:
            return 'an accepted transaction is not remembered exactly once'
        k, v = b[0].ev.args
        if k != F('m_id', A(0)) or v[0] != 'obj' or dict(v[2]).get('first') != A(1) or dict(v[2]).get('second') != result(a[0].ev):
            return ('a transaction is remembered under another identifier, callback or position', b[0].ev)
        w = [i for i in p.items if i.kind == 'wait']
        if len(w) != 1 or not region(p, [w[0], a[0].ev, b[0].ev], BM):
            return 'the batch changes between the check for space and the joining'
        if holds(space, Ctx(a[0].ev.st, p.items)) is not True:
            return ('a transaction joins a full batch', a[0].ev)
        k = p.items.index(b[0].ev)
        return None if any(notifies(BCV)(i) for i in p.items[k:]) else 'the executor is not told about the new transaction'
    c.cases(u, 'request', [
        ('not the leader', Not(leader), [Ret(FALSE), Never(ADDTX), Never(into)]),
        ('not attested', And(leader, Not(att)), [Ret(FALSE), Never(ADDTX), Never(into)]),
        ('stopping', And(leader, att, Not(RUN)), [Ret(FALSE), Never(ADDTX), Never(into)]),
        ('already in the batch', And(leader, att, RUN, known), [Ret(FALSE), Never(ADDTX), Never(into)]),
        ('accepted', And(leader, att, RUN, Not(known)), [Ret(TRUE), joined]),
    ])
    for p in u.rets:
        for i in p.items:
            if i.kind == 'wait':
                woken(c, u, p, i, [Not(RUN), space], 'a request waits for space or the end')
    # ---- the executor
    u = c.fn(CTL + '::batch_executor_func', opaque=['schedule_exec$', 'batch_set_cbs$', 'distributed_tx::execute$'], eventful=['schedule_exec$', 'batch_set_cbs$', 'random_hash$'])
    SCH = call('schedule_exec')
    n = 0
    for p in u.rets:
        for lp in p.items:
            if lp.kind != 'loop':
                continue
            for e in lp.edges:
                q = EdgePath(e)
                n += 1
                c.ob('executor', *swapped(c, u, q))
        for it in p.items:
            if it.kind == 'wait':
                woken(c, u, p, it, [Not(RUN), Not(Eq(('size', CT_), I_(0)))], 'the executor waits for transactions or the end')
        c.ob('executor', holds(RUN, Ctx(p.st, p.items)) is False or lastrun(p) is False, c.where(u, p), 'the executor ends although the coordinator is running', p)
        for lp in p.items:
            if lp.kind == 'loop':
                for e in lp.edges:
                    for it in e.items:
                        if it.kind == 'wait':
                            woken(c, u, EdgePath(e), it, [Not(RUN), Not(Eq(('size', CT_), I_(0)))], 'the executor waits for transactions or the end')
    c.ob('executor', n, c.where(u), 'no batch is ever executed')
    for s, k in c.closures(u, SCH):
        c.every(k, 'execution of a batch', answers(s, k))
    # ---- threads
    u = c.fn(CTL + '::schedule_exec')
    T = F('m_exec_threads')
    for p in u.rets:
        th = enc(p, M(lambda e: e.kind == 'thread', 'thread'))
        c.ob('executor threads', bool(th), c.where(u, p), 'returns without starting the work', p)
        for s in th:
            lam = s.ev.args
            lp, e = s.loops[-1] if s.loops else (None, None)
            idx = lam[-1] if len(lam) == 2 else None
            c.ob('executor threads', lam[0] == A(0) and len(lam) == 2 and idx is not None and idx[0] == 'ix' and idx[1] == T, c.where(u, p, ('', s.ev)), 'another function, or the same with another thread index, is started', p)
            use = [i for i in (e.items if e else p.items) if i.kind == 'set' and i.args == (TRUE,) and mentions_t(i.obj, PR(lambda q: q == T))]
            c.ob('executor threads', len(use) == 1 and region(EdgePath(e) if e else p, [use[0], s.ev], F('m_exec_mut')), c.where(u, p, ('', s.ev)), 'the thread is not marked as used under the lock', p)
            if idx is not None and idx[0] == 'ix':
                free = [Not(F('second', ('at', T, idx))), Not(at(T, ('key', T, idx[2])))]
                before = e.items[:e.items.index(s.ev)] if e else p.items[:p.items.index(s.ev)]
                st = use[0].st if use and use[0].st is not None else s.ev.st
                c.ob('executor threads', any(holds(f, Ctx(z, before)) is True for f in free for z in (s.ev.st, e.st if e else p.st) if z is not None), c.where(u, p, ('', s.ev)), 'a thread that is in use is reused', p)
                old = {('key', T, idx[2]), F('first', ('at', T, idx))}
                j = [i for i in before if i.kind == 'call' and i.q == 'std::thread::join' and i.obj in old]
                gone = any(holds(x, Ctx(z, before)) is False for o in old for z in (s.ev.st, e.st if e else p.st) if z is not None for x in (Has(o), ('call', 'std::thread::joinable', (o,), 0)))
                c.ob('executor threads', bool(j) or gone, c.where(u, p, ('', s.ev)), 'the previous thread is not joined before it is replaced', p)
    u = c.fn(CTL + '::join_execs')

    def joins(p):
        for lp in loops(p.items, T):
            if lp.mode != 'all':
                return ('not every thread is joined', lp)
            for e in lp.edges:
                o = ('key', T, lp.L)
                alt = F('first', ('elem', T, lp.L))
                j = [i for i in e.items if i.kind == 'call' and i.q == 'std::thread::join' and i.obj in (o, alt)]
                none = any(holds(x, Ctx(e.st, e.items)) is False for q in (o, alt) for x in (Has(q), ('call', 'std::thread::joinable', (q,), 0)))
                if len(j) != (0 if none else 1):
                    return ('a running thread is not joined', lp)
            return None
        return 'the threads are not joined'
    c.every(u, 'executor threads are joined', joins)
    # ---- starting and stopping
    lifecycle(c)


def lastrun(p):
    """m_running as last looked at"""
    r = None
    for b, v in p.st.bools.items():
        if unver(b) == RUN:
            r = v if r is None else (r and v)
    return r


def current(c, st):
    """the condition about the values fields have now"""
    if isinstance(c, Not):
        return Not(current(c.c, st))
    if isinstance(c, tuple):
        if c and c[0] == 'fld':
            return st.load(c)
        return tuple(current(x, st) for x in c)
    return c


def woken(c, u, p, w, conds, rule):
    """the predicate of the wait w is the disjunction of conds"""
    lam = next((a for a in w.args if isinstance(a, tuple) and a and a[0] in ('lam', 'lamg')), None)
    if lam is None:
        c.ob(rule, False, c.where(u, p, ('', w)), 'waits without a condition', p)
        return
    st = w.st.copy()
    others_ran(st)          # while it waits
    ps = u.I.run_closure(lam, st=st, later=False, depth=u.depth)
    k = split_bool(Unit(u.name + ' [condition]', u.f, ps, u.I, u.depth))
    for q in k.rets:
        hs = [holds(current(x, q.st), Ctx(q.st, q.items)) for x in conds]
        if q.ret == TRUE:
            ok = any(h is True for h in hs)
        else:
            ok = all(h is False for h in hs)
        c.ob(rule, ok, c.where(u, p, ('', w)), 'waits for something else', q)


def swapped(c, u, q):
    """one round of the executor (ok, where, why)"""
    w = c.where(u)
    sch = enc(q, call('schedule_exec'))
    sb = [i for i in q.items if i.kind == 'set' and i.obj == CB_]
    st = [i for i in q.items if i.kind == 'set' and i.obj == CT_]
    if not sch and not sb and not st:
        return True, w
    if len(sch) != 1 or len(sb) != 1 or len(st) != 1:
        return False, w, 'the batch is not replaced and executed exactly once'
    if not region(q, [sb[0], st[0]], BM):
        return False, w, 'batch and answers are not replaced together under the lock'
    nb = sb[0].args[0]
    mk = made(q, sb[0])
    rnd = [i for i in q.items if i.kind == 'call' and qmatch('random_hash', i.q)]
    if mk is None or len(rnd) != 1 or mk[0] != result(rnd[0]) or unver(mk[1]) != SH:
        return False, w, 'the new batch has no fresh identifier, or not all shards'
    v = q.st.load(st[0].args[0]) if st[0].args[0][0] == 'heap' else st[0].args[0]
    if not (st[0].args[0][0] == 'heap' and (v[0] == 'list' and not v[-1] or v[0] == 'new' and not v[2])):
        return False, w, 'the answers of the new batch are not empty'
    cbs = [i for i in q.items if i.kind == 'call' and qmatch('batch_set_cbs', i.q)]
    if len(cbs) != 1 or not (cbs[0].args[0] in (nb, CB_) or cbs[0].args[0] == ('new', DT, mk) or mentions_t(cbs[0].args[0], PR(lambda t: t == result(rnd[0])))):
        return False, w, 'the new batch does not get its callbacks'
    i = q.items.index(sb[0])
    wt = [j for j in q.items[:i] if j.kind == 'wait']
    if not wt:
        return False, w, 'a batch is executed without waiting for transactions'
    if not any(notifies(BCV)(j) for j in q.items[max(i, q.items.index(st[0])):]):
        return False, w, 'waiting requests are not told that there is space'
    if q.items.index(sch[0].ev) < i:
        return False, w, 'the batch is executed before it is replaced'
    pres = {sb[0].pre, st[0].pre}
    caps = {cp[2] for lam in lams_of(sch[0].ev) for cp in lam[2] if len(cp) == 4 and cp[1] == 'val'}
    if not {unver(x) for x in caps} >= {CB_, CT_}:
        return False, w, 'what is executed is not the batch that was replaced'
    return True, w


def answers(s, k):
    EX = call('distributed_tx::execute')

    def f(p):
        e = enc(p, EX)
        if len(e) != 1 or e[0].loops or unver(e[0].ev.obj) != CB_:
            return 'the batch is not executed exactly once'
        res = result(e[0].ev)
        inv = enc(p, invoke())
        lps = [lp for lp in p.items if lp.kind == 'loop' and lp.mode == 'all' and lp.dom[0] == 'each' and CT_ in {unver(d) for d in lp.dom[1:]}]
        if len(lps) != 1 or any(not x.loops or x.loops[0][0] is not lps[0] for x in inv):
            return 'not every transaction of the batch is answered, once'
        lp = lps[0]
        x = X(lp.dom, lp.L, own=True)
        for e2 in lp.edges:
            ev = [i for i in e2.items if i.kind == 'invoke']
            if len(ev) != 1 or len(ev[0].args) != 1:
                return ('a transaction is not answered exactly once', lp)
            o = ev[0].obj
            if o != F('first', x.v) and o != F('second.first', x.e):
                return ('somebody else is answered', ev[0])
            has = holds(Has(res), Ctx(e2.st, e2.items))
            if has is None:
                return ('a transaction is answered without looking at the outcome', ev[0])
            want = {('some', at(res, F('second', x.v))), ('some', at(res, F('second.second', x.e)))} if has else {NONE}
            if ev[0].args[0] not in want:
                return ('a transaction is answered with the outcome of another, or with an outcome that is not known', ev[0])
        if p.items.index(e[0].ev) > p.items.index(lp):
            return 'transactions are answered before the batch is executed'
        return freed(k)(p)
    return f


def lifecycle(c):
    SF, SP, Q, SM = F('m_start_flag'), F('m_stop_flag'), F('m_quit'), F('m_start_mut')
    SCV = F('m_start_cv')
    u = c.fn(CTL + '::raft_callback')
    lead, fol = c.enum('nuraft::cb_func::BecomeLeader'), c.enum('nuraft::cb_func::BecomeFollower')
    flags = touches(SF) | touches(SP)

    def told(p):
        ev = [i for i in top(p.items) if flags(i)]
        if not region(p, ev, SM):
            return 'the flags are not set together under the lock'
        k = max(p.items.index(i) for i in ev)
        return None if any(notifies(SCV)(i) for i in p.items[k:]) else 'the start/stop thread is not notified'
    c.cases(u, 'leadership', [
        ('leader', Eq(A(0), lead), [Final(SF, TRUE), Final(SP, FALSE), told]),
        ('follower', Eq(A(0), fol), [Final(SF, FALSE), Final(SP, TRUE), told]),
        ('other', And(Ne(A(0), lead), Ne(A(0), fol)), [Never(flags)]),
    ])
    u = c.fn(CTL + '::quit')

    def quits(p):
        ev = [i for i in top(p.items) if i.kind == 'set' and i.obj == Q]
        if len(ev) != 1 or ev[0].args != (TRUE,) or not region(p, ev, SM):
            return 'the quit flag is not set under the lock'
        k = p.items.index(ev[0])
        if not any(notifies(SCV)(i) for i in p.items[k:]):
            return 'the start/stop thread is not notified'
        t = F('m_start_thread')
        j = [i for i in p.items[k:] if i.kind == 'call' and i.q == 'std::thread::join' and i.obj == t]
        ok = j or holds(('call', 'std::thread::joinable', (t,), 0), Ctx(p.st, p.items)) is False
        return None if ok else 'the start/stop thread is not joined'
    c.every(u, 'quitting', quits)
    c.every(c.fn(CTL + '::~controller', opaque=['controller::quit$']), 'destruction', Does(call('controller::quit'), 1))

    u = c.fn(CTL + '::start_stop_func', opaque=['controller::stop$', 'controller::start$'])
    STOP, START = call('controller::stop'), call('controller::start')
    n = [0, 0]

    def ver_known(st, f):
        """the value of the flag f after the wait"""
        r = None
        for b, v in st.bools.items():
            if unver(b) == f:
                r = v
        return r

    def round_(q, st, last):
        """why a round is wrong"""
        w = [i for i in q if i.kind == 'wait']
        if len(w) != 1 or not region(EdgeLike(q), w, SM):
            return 'the flags are looked at without waiting under the lock'
        seq = [i for i in q if i.kind == 'call' and (STOP(i) or START(i))]
        quit_ = flag(w[0], Q, st)
        stop_ = flag(w[0], SP, st)
        if quit_ is None:
            return 'does not look whether the coordinator quits'
        names = ['stop' if STOP(i) else 'start' for i in seq]
        if quit_:
            return None if last and names == ['stop'] else 'quitting does not stop the coordinator and the thread'
        if last:
            return 'the thread ends although the coordinator does not quit'
        cl = [i for i in q if i.kind == 'set' and i.obj in (SF, SP)]
        if {i.obj for i in cl} != {SF, SP} or any(i.args != (FALSE,) for i in cl) or not region(EdgeLike(q), w + cl, SM):
            return 'a request to start or stop is not taken exactly once'
        if stop_ is None:
            return 'does not look whether the coordinator stops'
        n[0 if stop_ else 1] += 1
        if stop_:
            return None if names == ['stop'] else 'a follower does not just stop'
        return None if names == ['stop', 'start'] else 'a new leader does not stop and start'

    def flag(w, f, st):
        """the flag as of the end of the wait"""
        cand = [(b, v) for b, v in st.bools.items() if unver(b) == f]
        vs = {v for b, v in cand}
        return vs.pop() if len(vs) == 1 else None if not cand else cand[-1][1]
    for p in u.rets:
        lps = [it for it in p.items if it.kind == 'loop']
        why = None
        k = -1
        for lp in lps:
            k = p.items.index(lp)
            for e in lp.edges:
                if e.st is not None:
                    why = why or round_(e.items, e.st, False)
        why = why or round_(p.items[k + 1:], p.st, True)
        c.ob('start/stop thread', why is None, c.where(u, p), why or '', p)
        for src in [p.items[k + 1:]] + [e.items for lp in lps for e in lp.edges]:
            for i in src:
                if i.kind == 'wait':
                    woken(c, u, p, i, [SF, Q, SP], 'the start/stop thread waits for a request')
    c.ob('start/stop thread', n[0] and n[1], c.where(u), 'never starts, or never stops')

    u = c.fn(CTL + '::stop', opaque=['join_execs$'], eventful=['join_execs$', 'interface::stop$'])

    def stops(p):
        ev = [i for i in top(p.items) if i.kind == 'set' and i.obj == RUN]
        if len(ev) != 1 or ev[0].args != (FALSE,) or not region(p, ev, BM):
            return 'the running flag is not cleared under the lock of the waiting threads'
        k = p.items.index(ev[0])
        nt = [i for i in p.items[k:] if notifies(BCV)(i) and i.q.endswith('notify_all')]
        if not nt:
            return 'not every waiting thread is woken'
        srv = [i for i in p.items if i.kind in ('set', 'mut') and i.obj == F('m_rpc_server')]
        if len(srv) != 1 or p.items.index(srv[0]) < p.items.index(nt[0]) or p.st.load(F('m_rpc_server')) not in (('null',), NULL, NONE):
            return 'the server is not closed after the waiting requests were woken'
        hlt = [lp for lp in loops(p.items, SH) if lp.mode == 'all' and all(len([i for i in e.items if i.kind == 'call' and i.q.endswith('::stop') and i.obj == ('elem', SH, lp.L)]) == 1 for e in lp.edges)]
        t = F('m_batch_exec_thread')
        j = [i for i in p.items if i.kind == 'call' and i.q == 'std::thread::join' and i.obj == t]
        none = holds(('call', 'std::thread::joinable', (t,), 0), Ctx(p.st, p.items)) is False
        je = [i for i in p.items if i.kind == 'call' and call('join_execs')(i)]
        clr = [i for i in p.items if i.kind == 'mut' and unver(i.obj) == SH and i.q == 'clear']
        if len(hlt) != 1:
            return 'the shard clients are not stopped'
        if not (j or none):
            return 'the executor is not joined'
        if len(je) != 1 or len(clr) != 1:
            return 'the executing batches are not waited for, or the shards not left'
        pos = [p.items.index(i) for i in [nt[0], hlt[0]] + j[:1] + [je[0], clr[0]]]
        return None if pos == sorted(pos) else 'stops in an order that can block or use what is gone'
    c.every(u, 'stopping', stops)

    u = c.fn(CTL + '::start', opaque=['recovery_func$', 'batch_set_cbs$', 'connect_shards$', 'batch_executor_func$'], eventful=['is_leader$', 'batch_set_cbs$', 'random_hash$', 'recovery_func$'])
    REC = call('recovery_func')
    full = [0]

    def starts(p):
        ev = [i for i in top(p.items) if i.kind == 'set' and i.obj == RUN]
        if len(ev) != 1 or ev[0].args != (TRUE,):
            return 'the coordinator is not marked as running'
        con = [i for i in p.items if i.kind == 'call' and call('connect_shards')(i)]
        k = next((n for n, i in enumerate(p.items) if anyin(i, REC)), None)
        if len(con) != 1 or k is None or p.items.index(con[0]) > k or p.items.index(ev[0]) > k:
            return 'batches are recovered before the shards are connected'
        th = enc(p, M(lambda e: e.kind == 'thread', 'thread'))
        srv = [i for i in p.items if i.kind == 'set' and i.obj == F('m_rpc_server') and i.args[0] not in (('null',), NULL, NONE)]
        bt = [i for i in p.items if i.kind == 'set' and i.obj == CB_]
        tx = [i for i in p.items if i.kind == 'set' and i.obj == CT_]
        last = [i for i in top(p.items) if i.kind == 'call' and qmatch('is_leader', i.q)]
        lead = holds(result(last[-1]), Ctx(p.st, p.items)) if last else None
        recs = [i for i in top(p.items) if i.kind == 'call' and REC(i)]
        ok = holds(result(recs[-1]), Ctx(p.st, p.items)) if recs else None
        if any(k2 for k2 in (th, srv) if k2):
            full[0] += 1
            if lead is not True:
                return 'requests are taken although the node may no longer be the leader'
            if len(th) != 1 or len(srv) != 1 or len(bt) != 1 or len(tx) != 1:
                return 'not exactly one batch, executor and server are started'
            if not region(p, [bt[0], tx[0]], BM):
                return 'the first batch and its answers are not set together under the lock'
            rnd = [i for i in top(p.items) if i.kind == 'call' and qmatch('random_hash', i.q)]
            mk = made(p, bt[0])
            if mk is None or len(rnd) != 1 or mk[0] != result(rnd[0]) or unver(mk[1]) != SH:
                return 'the first batch has no fresh identifier, or not all shards'
            cbs = [i for i in top(p.items) if i.kind == 'call' and qmatch('batch_set_cbs', i.q)]
            if len(cbs) != 1 or not mentions_t(cbs[0].args[0], PR(lambda t: t == result(rnd[0]))) and cbs[0].args[0] != bt[0].args[0]:
                return 'the first batch does not get its callbacks'
            pos = [p.items.index(i) for i in (cbs[0], th[0].ev, srv[0])]
            if pos != sorted(pos) or p.items.index(bt[0]) > pos[1] or p.items.index(tx[0]) > pos[1]:
                return 'the executor or the server starts before there is a batch'
            return None
        return None if lead is False else 'a leader does not start'

    c.every(u, 'starting', starts)

    def retried(p):
        """starts only after a recovery that succeeded, or gives up when no longer leader"""
        recs = [i for i in top(p.items) if i.kind == 'call' and REC(i)]
        last = None
        for b, v in p.st.bools.items():
            if is_call(b, 'recovery_func'):
                last = v
        if last is True:
            return None
        if any(lp.kind == 'loop' and any(holds(result(i), Ctx(e.st, e.items)) is True for e in lp.edges for i in e.items if i.kind == 'call' and REC(i)) for lp in p.items):
            return None
        lead = [b for b, v in p.st.bools.items() if is_call(b, 'is_leader') and v is False]
        return None if lead else 'gives up recovering although it is the leader'
    c.every(u, 'recovery is repeated until it succeeds', retried)
    c.ob('starting', full[0], c.where(u), 'the coordinator never starts')
    for s, k in c.closures(u, M(lambda e: e.kind == 'thread', 'thread')):
        c.every(k, 'the executor thread', Does(call('batch_executor_func'), 1))

    u = c.fn(CTL + '::connect_shards', opaque=['client::init$'])

    def connects(p):
        EP, RG = F('m_shard_endpoints'), F('m_shard_ranges')
        for lp in loops(p.items, lambda d: unver(d) in (EP, RG)):
            if lp.mode != 'all':
                return ('not every shard is connected', lp)
            x = X(lp.dom, lp.L, own=True)
            for e in lp.edges:
                ad = [i for i in e.items if i.kind == 'mut' and unver(i.obj) == SH]
                if len(ad) != 1 or ad[0].q not in ADD[:2]:
                    return ('a shard is not added exactly once', lp)
                v = e.st.load(ad[0].args[0])
                want = (x.e if unver(x.C) == EP else at(EP, x.i), x.e if unver(x.C) == RG else at(RG, x.i))
                if v[0] != 'new' or v[2][:2] != want:
                    return ('a shard is connected to other endpoints, or with another range', ad[0])
                if holds(('call', 'cbdc::locking_shard::rpc::client::init', (v,), 0), Ctx(e.st, e.items)) is not True and not any(holds(b, Ctx(e.st, e.items)) for b in e.st.bools if is_call(b, 'client::init')):
                    return ('a shard that could not be connected is used', ad[0])
            return None
        return 'the shards are not connected'
    c.every(u, 'connecting the shards', connects)
    for fn_, mode in (('connect_shards', 'x'), ('stop', 'x')):
        c.locked(c.fn(CTL + '::' + fn_, opaque=['client::init$'] if fn_ == 'connect_shards' else ['join_execs$']), 'the shard list changes under its lock', mut(SH), F('m_shards_mut'), mode)
    c.discipline(CTL, ['m_batch_mut'], ['m_current_batch', 'm_current_txs'])
    c.discipline(CTL, ['m_start_mut'], ['m_start_flag', 'm_stop_flag', 'm_quit'])


class EdgeLike:
    def __init__(self, items):
        self.items = items
