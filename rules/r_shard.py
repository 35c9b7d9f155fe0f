"""Atomizer architecture: shards and archivers."""
from lib import *
from r_atomizer import plain, errk
from r_watch import cellwise
from r_coord import region
from r_twophase import range_rule

SH = 'cbdc::shard::'
AR = 'cbdc::archiver::'
WT = 'cbdc::watchtower::'
AZ = 'cbdc::atomizer::'
S_ = 'uhs/atomizer/shard/'
R_ = 'uhs/atomizer/archiver/'
DB = F('m_db')
BEST, SNP, SNH, SMUT = F('m_best_block_height'), F('m_snp'), F('m_snp_height'), F('m_snp_mut')
HASH = 32


def content(items, ev, sl):
    """(value, size) of the bytes a slice given to event ev refers to; size
    None for a whole string"""
    if sl[0] != 'new' or sl[1].split('::')[-1] != 'Slice':
        return None
    a = sl[2]
    if not a:
        return 'empty', 0
    if len(a) == 1:
        return a[0], None
    base, n = a
    if base[0] == 'loc':
        k = next((j for j, i in enumerate(items) if i is ev), len(items))
        for i in reversed(items[:k]):
            if i.kind == 'call' and i.q in ('memcpy', 'std::memcpy') and i.args[0] == base:
                if i.args[2] != n:
                    return None
                src = i.args[1]
                return (i.st.load(src) if src[0] in ('loc', 'fld') else src), n
            if i.kind in ('set', 'mut') and i.obj == base:
                return (i.args[0], n) if i.kind == 'set' else None
        return ev.st.load(base), n
    return base, n


def key_is(items, ev, sl, v, n, st):
    r = content(items, ev, sl)
    return r is not None and (r[0] == v or st.known(compare('==', r[0], v)) is True) and (r[1] is None or r[1] == I_(n))


OPS = call(('WriteBatch::Put', 'WriteBatch::Delete', 'WriteBatch::Clear', 'WriteBatch::Append'))
DIRECT = call(('DB::Put', 'DB::Delete', 'DB::Write'))


def in_range(h):
    return ('call', 'cbdc::config::hash_in_shard_range', (F('m_prefix_range'), h), 0)


def ok_(r):
    return ('call', 'leveldb::Status::ok', (r,), 0)


def notfound(r):
    return ('call', 'leveldb::Status::IsNotFound', (r,), 0)


def snapshotted(p, h, after=None):
    """a snapshot of the current content is published together with height h"""
    g = [i for i in top(p.items) if i.kind == 'call' and qmatch('DB::GetSnapshot', i.q)]
    a = [i for i in top(p.items) if i.kind == 'set' and i.obj == SNP]
    b = [i for i in top(p.items) if i.kind == 'set' and i.obj == SNH]
    if len(g) != 1 or len(a) != 1 or len(b) != 1:
        return 'no snapshot of the new content is published'
    if result(g[0]) not in list(subterms(a[0].args[0])) and a[0].args[0] != result(g[0]):
        return ('another snapshot is published', a[0])
    if b[0].args[0] != h and p.st.known(compare('==', b[0].args[0], h)) is not True:
        return ('the snapshot is published with another height', b[0])
    pos = p.items.index
    if after is not None and pos(g[0]) < pos(after):
        return ('the snapshot is taken before the content is written', g[0])
    if not region(p, [a[0], b[0]], SMUT):
        return ('snapshot and height are not published together under the lock', a[0])
    if any(l[1] == 's' for i in (a[0], b[0]) for l in (i.st.locks if i.st else ()) if l[0] == SMUT):
        return ('the snapshot is published under a shared lock', a[0])
    return None


@prop('A04', files=[S_ + 'shard.cpp', S_ + 'controller.cpp', R_ + 'client.cpp', 'util/common/config.cpp'], assumptions=[
    'LevelDB applies a write batch atomically and snapshots are consistent'])
def a04(c):
    """shards hold exactly the unspent outputs of their range and attest to them"""
    T = SH + 'shard'
    for n in ('m_db', 'm_best_block_height', 'm_snp', 'm_snp_height', 'm_snp_mut', 'm_prefix_range', 'm_best_block_height_key'):
        c.field(T, n)
    KEY = F('m_best_block_height_key')

    # ---- blocks
    u = c.fn(T + '::digest_block')
    H, TXS = F('m_height', A(0)), F('m_transactions', A(0))
    nxt = l_add(BEST, I_(1))
    eff = OPS | DIRECT | sets(BEST) | sets(SNP) | sets(SNH)

    def applied(p):
        w = [s.ev for s in enc(p, DIRECT)]
        if len(w) != 1 or not qmatch('DB::Write', w[0].q) or unver(w[0].obj) != DB or w[0] not in p.items:
            return 'the changes of a block are not written at once'
        w = w[0]
        k = p.items.index(w)
        batch = unver(w.args[1])
        ops = enc(p, OPS)
        if any(unver(s.ev.obj) != batch for s in ops):
            return ('a change is not part of the batch', w)
        if any(s.ev in p.items[k + 1:] or any(l is it for l, _ in s.loops for it in p.items[k + 1:]) for s in ops):
            return ('the batch is written before it is complete', w)
        if batch[0] != 'loc':
            return ('the batch still holds earlier changes', w)

        good = []
        for fld_, op in (('m_uhs_outputs', 'Put'), ('m_inputs', 'Delete')):
            def test(e, x, y):
                own = [i for i in e.items if OPS(i)]
                h = holds(in_range(y.e), Ctx(e.st, e.items))
                if h is None:
                    return False
                if not h:
                    return not own
                if len(own) != 1 or own[0].q.split('::')[-1] != op or not key_is(e.items, own[0], own[0].args[0], y.e, HASH, e.st):
                    return False
                return op == 'Delete' or content(e.items, own[0], own[0].args[1]) in (('empty', 0), (('str', ''), None))
            es = cellwise(p.items[:k], p.st, [lambda: {TXS}, lambda x: {F(fld_, x.e)}], test)
            if es is None:
                return ('the %s of a block are not applied to exactly the own range' % ('outputs' if op == 'Put' else 'inputs'), w)
            good += es
        ids = {id(i) for e in good for i in e.items}
        rest = [s for s in ops if id(s.ev) not in ids]
        if len(rest) != 1 or rest[0].loops or not qmatch('WriteBatch::Put', rest[0].ev.q):
            return ('the batch has other changes than those of the block', w)
        h = rest[0].ev
        if not key_is(p.items, h, h.args[0], KEY, 0, p.st) or not key_is(p.items, h, h.args[1], nxt, 8, p.st):
            return ('the new height is not stored with the block', h)
        st = holds(ok_(result(w)), Ctx(p.st, p.items))
        s = [i for i in top(p.items) if i.kind == 'set' and i.obj == BEST]
        if st is None:
            return ('does not look whether the block was stored', w)
        if not st:
            return None if p.ret == FALSE and not s and not enc(p, sets(SNP) | sets(SNH)) else ('a block that was not stored counts', w)
        if p.ret != TRUE or len(s) != 1 or p.items.index(s[0]) < k or p.st.known(compare('==', s[0].args[0], nxt)) is not True and s[0].args[0] != nxt:
            return ('the height does not follow the block', w)
        return snapshotted(p, nxt, w)
    c.cases(u, 'blocks', [
        ('next', Eq(H, nxt), [applied]),
        ('other', Ne(H, nxt), [Never(eff), Ret(FALSE)]),
    ])
    u = c.fn(T + '::is_output_on_shard')
    c.every(u, 'own range', lambda p: None if p.ret == in_range(A(0)) or holds(in_range(A(0)), Ctx(p.st, p.items)) is (p.ret == TRUE) else 'does not decide by its own range')
    range_rule(c)
    c.every(c.fn(T + '::best_block_height'), 'height', Ret(BEST))

    # ---- opening
    u = c.fn(T + '::open_db')

    def opened(p):
        o = [s.ev for s in enc(p, call('DB::Open'))]
        if len(o) != 1:
            return 'the database is not opened once'
        ctx = Ctx(p.st, p.items)
        ok = holds(ok_(result(o[0])), ctx)
        if ok is not True:
            return None if ok is False and p.ret[0] == 'some' and not enc(p, eff) else 'goes on without a database'
        g = [s.ev for s in enc(p, call('DB::Get'))]
        if len(g) != 1 or not key_is(p.items, g[0], g[0].args[1], KEY, 0, p.st):
            return 'the stored height is not read'
        r = result(g[0])
        nf, gok = holds(notfound(r), ctx), holds(ok_(r), ctx)
        if nf is True:
            w = [s.ev for s in enc(p, DIRECT)]
            if len(w) != 1 or not qmatch('DB::Put', w[0].q) or not key_is(p.items, w[0], w[0].args[1], KEY, 0, p.st) or not key_is(p.items, w[0], w[0].args[2], I_(0), 8, p.st):
                return 'the height of a new shard is not stored as zero'
            wok = holds(ok_(result(w[0])), ctx)
            if wok is not True:
                return None if wok is False and p.ret[0] == 'some' else ('goes on although the height was not stored', w[0])
            h = I_(0)
        elif gok is True or nf is False and gok is None:
            if gok is not True:
                return ('does not look whether the height was read', g[0])
            h = p.st.load(BEST)
            if not any(t[0] == 'out' and t[1] == r for t in subterms(h)) or enc(p, DIRECT):
                return ('the height is not the stored one', g[0])
        else:
            return None if p.ret[0] == 'some' else ('goes on without the stored height', g[0])
        if p.ret != NONE:
            return 'fails although the database is open'
        if p.st.load(BEST) != h and p.st.known(compare('==', p.st.load(BEST), h)) is not True:
            return 'the height is not the stored one'
        return snapshotted(p, h)
    c.every(u, 'opening', opened)

    # ---- transactions
    u = c.fn(T + '::digest_transaction')
    INS = F('m_inputs', A(0))

    def err(p, kind):
        v = plain(p.ret)
        if v[0] not in ('new', 'obj') or v[1] != WT + 'tx_error':
            return None
        a = v[2] if v[0] == 'new' else tuple(x for _, x in v[2])
        if len(a) != 2 or a[0] != F('m_id', A(0)):
            return None
        i = plain(a[1])
        return i if match(errk(kind), i, {}) else None

    def fails(kind):
        return lambda p: None if err(p, kind) is not None and not enc(p, call('DB::Get')) else 'not reported as ' + kind

    def dne_of(p):
        i = err(p, 'inputs_dne')
        if i is None:
            return None
        return i[2][0] if i[0] == 'new' and len(i[2]) == 1 else dict(i[2]).get('m_input_uhs_ids') if i[0] == 'obj' else None

    def none_given(p):
        d = dne_of(p)
        return None if d is not None and d[0] == 'list' and not d[-1] else 'a transaction without inputs is not reported'

    def look(e, items, st):
        """(input element, found) of the lookup in this round"""
        g = [i for i in items if i.kind == 'call' and qmatch('DB::Get', i.q)]
        return g

    def opts_ok(g):
        o = g.args[0]
        o = g.st.load(o) if o[0] == 'loc' else o
        v = o[2] if o[0] == 'with' else ()
        v = dict(o[2]).get((('fld', 'snapshot'),)) if v else None
        return v is not None and unver(v) == SNP and unver(g.obj) == DB

    def lookups(p):
        lps = [i for i in p.items if i.kind == 'loop' and any(look(e, e.items, e.st) for e in i.edges)]
        if len(lps) != 1 or lps[0].dom[0] != 'each' or INS not in lps[0].dom[1:]:
            return 'the inputs are not looked up'
        lp = lps[0]
        x = X(lp.dom, lp.L, False)
        dne = att = None
        for e in lp.edges:
            ctx = Ctx(e.st, e.items)
            g = look(e, e.items, e.st)
            m = [i for i in e.items if i.kind == 'mut']
            h = holds(in_range(x.e), ctx)
            if h is None:
                return ('does not look whether an input is in its range', lp)
            if not h:
                if m:
                    return ('judges an input outside its range', m[0])
                continue
            if len(g) != 1 or not key_is(e.items, g[0], g[0].args[1], x.e, HASH, e.st):
                return ('an input is not looked up under its hash', lp)
            if not opts_ok(g[0]):
                return ('an input is not looked up in the snapshot', g[0])
            r = result(g[0])
            nf, gok = holds(notfound(r), ctx), holds(ok_(r), ctx)
            if len(m) != 1:
                return ('an input is not judged once', g[0])
            if nf is True:
                if m[0].q not in ADD or m[0].args[-1] != x.e or dne not in (None, unver(m[0].obj)):
                    return ('a missing input is not collected', m[0])
                dne = unver(m[0].obj)
            elif gok is True:
                if m[0].q not in ADD or m[0].args != (x.i,) or att not in (None, unver(m[0].obj)):
                    return ('an existing input is not attested by its index', m[0])
                att = unver(m[0].obj)
            else:
                return ('an input is judged that could not be looked up', g[0])
        if dne is None or att is None or dne == att:
            return ('missing and existing inputs are not told apart', lp)
        if lp.mode != 'all':
            k = p.items.index(lp)
            g = [i for i in p.items[k + 1:] if i.kind == 'call' and qmatch('DB::Get', i.q)]
            ctx = Ctx(p.st, p.items)
            if len(g) != 1 or not opts_ok(g[0]) or holds(notfound(result(g[0])), ctx) is not False or holds(ok_(result(g[0])), ctx) is not False:
                return ('gives up before every input was looked up', lp)
            return None if err(p, 'sync') is not None else 'a failed lookup is not reported'
        d = ('ver', dne, lp.L)
        z = holds(Empty(d), Ctx(p.st, p.items))
        if z is None:
            return 'does not look whether an input is missing'
        if not z:
            return None if dne_of(p) == d else 'missing inputs are not reported exactly'
        v = plain(p.ret)
        f = dict(v[2]) if v[0] == 'obj' and v[1] == AZ + 'tx_notify_request' else {}
        if f.get('m_tx') != A(0) or f.get('m_attestations') != ('ver', att, lp.L) or f.get('m_block_height') != SNH:
            return 'the attestations are not those of the lookups at the height of the snapshot'
        return None

    def one_region(p):
        n = len([i for i in p.items if i.kind == 'lock' and i.obj == SMUT])
        return None if n == 1 else 'snapshot and height are not read together'
    c.cases(u, 'transactions', [
        ('no block yet', Eq(SNH, I_(0)), [fails('sync'), one_region]),
        ('no inputs', And(Ne(SNH, I_(0)), Empty(INS)), [none_given, one_region]),
        ('looked up', And(Ne(SNH, I_(0)), Not(Empty(INS))), [lookups, one_region]),
    ])
    c.discipline(T, ['m_snp_mut'], ['m_snp', 'm_snp_height'])

    # ---- controller
    C_ = SH + 'controller'
    u = c.fn(C_ + '::atomizer_handler', opaque=['shard::digest_block$', 'client::get_block$', 'best_block_height$'], eventful=['shard::digest_block$', 'client::get_block$'])
    blk = ('call', 'cbdc::from_buffer', (F('m_pkt', A(0)),), 0)
    HB = F('m_height', blk)
    dig, get = call('shard::digest_block'), call('client::get_block')

    def best(t):
        return [x for x in subterms(t) if is_call(x, 'best_block_height')]

    def caught_up(p):
        """every fetched block is digested, in order, from the one after the best"""
        for s in enc(p, get):
            a = s.ev.args[0]
            ok = False
            for lp, e in s.loops:
                if a[0] in ('ix', 'rix') and lp.dom[0] == 'range' and a[-1] == lp.L:
                    b = best(lp.dom[1])
                    ok = bool(b) and lp.dom[1] == l_add(b[0], I_(1)) and lp.dom[2] == HB
                    for ed in lp.edges:
                        d = [i for i in ed.items if dig(i)]
                        if len(d) != 1 or not is_call(d[0].args[0], 'get_block') or d[0].args[0][2][-1] != a:
                            return ('skips a block', lp)
                elif a[0] == 'lv' and a[2] == lp.L:
                    i0 = lp.st.load(a[1])
                    b = best(i0)
                    ok = bool(b) and i0 == l_add(b[0], I_(1))
                    if not ok:
                        return ('does not fetch from the block after its best one', s.ev)
                    for ed in lp.edges:
                        g = [i for i in ed.items if get(i)]
                        d = [i for i in ed.items if dig(i)]
                        v = ed.st.load(a[1])
                        if len(g) != 1:
                            return ('skips a block', lp)
                        h = holds(Has(result(g[0])), Ctx(ed.st, ed.items))
                        if h is None or [x.args for x in d] != ([(result(g[0]),)] if h else []):
                            return ('a fetched block is not digested once', lp)
                        if v != (l_add(a, I_(1)) if h else a):
                            return ('does not fetch the blocks one after the other', lp)
                        if ed.st.known(compare('<', a, HB)) is not True and ed.st.known(Lt(a, HB)) is not True:
                            return ('fetches other blocks than the missing ones', lp)
                    k = [l for l, _ in s.loops].index(lp)
                    out_ = s.loops[k - 1][1].st if k else p.st
                    if lp.mode != 'all' or out_.known(compare('<', a, HB)) is not False:
                        return ('stops before the missing blocks are fetched', lp)
                if ok:
                    break
            if not ok:
                return ('fetches other blocks than the missing ones', s.ev)
        for s in enc(p, dig):
            if s.ev.args[0] != blk and not (is_call(s.ev.args[0], 'get_block')):
                return ('digests another block', s.ev)
        for s in enc(p, get):
            r = result(s.ev)
            e = s.loops[-1][1]
            h = holds(Has(r), Ctx(e.st, e.items))
            if h is not False and len([i for i in e.items if dig(i) and i.args == (r,)]) != 1:
                return ('a fetched block is not digested', s.ev)
        # how it ends
        d = [i for i in p.items if i.kind != 'loop' and dig(i) and i.args == (blk,)]
        if not d:
            return 'the block is not digested'
        if holds(result(d[-1]), Ctx(p.st, p.items)) is True:
            return None
        bs = [x for t in list(p.st.bounds) + list(p.st.bools) for x in best(t)]
        if not any(p.st.known(compare('<', b, HB)) is False for b in bs):
            return ('gives up although the block is still missing', d[-1])
        return None

    def tries(p):
        """a block that is ahead makes it fetch before it tries again"""
        for it in p.items:
            if it.kind != 'loop':
                continue
            for e in it.edges:
                if any(dig(i) and i.args == (blk,) for i in e.items) and not any(j.kind == 'loop' and any(get(i) for ed in j.edges for i in ed.items) for j in e.items):
                    # nothing was missing: the fetching loop over an empty range is omitted
                    bs = [x for t in list(e.st.bounds) + list(e.st.bools) for x in best(t)]
                    if not any(e.st.known(compare('<', l_add(b, I_(1)), HB)) is False for b in bs):
                        return ('tries again without fetching what is missing', it)
        return None
    c.cases(u, 'blocks from the atomizer', [
        ('undecodable', Not(Has(blk)), [Never(dig), Never(get), Ret(NONE)]),
        ('decoded', Has(blk), [caught_up, tries, Ret(NONE)]),
    ])
    c.ob('missing blocks are fetched', any(enc(p, get) for p in u.rets), c.where(u), 'missing blocks are never fetched')

    u = c.fn(C_ + '::server_handler')
    c.every(u, 'requests are queued', lambda p: None if [s.ev.args for s in enc(p, call('blocking_queue_internal::push') | call('push'))] == [(A(0),)] else 'a request is not queued once', Ret(NONE))

    c.load('uhs/transaction/validation.cpp')
    u = c.fn(C_ + '::request_consumer', opaque=['digest_transaction$', 'check_attestations$'])
    dtx = call('digest_transaction')
    out = call('connection_manager::send_to_one') | call('connection_manager::broadcast') | call('connection_manager::send')

    def consumed(p):
        lps = [i for i in p.items if i.kind == 'loop']
        pops = [s for s in enc(p, call('pop'))]
        if len(lps) != 1 or lps[0].mode != 'all' and len(lps[0].edges) == 0 or not pops:
            return 'requests are not taken from the queue'
        last = [i for i in p.items if i.kind == 'call' and i.q.split('::')[-1] == 'pop']
        if len(last) != 1 or holds(result(last[0]), Ctx(p.st, p.items)) is not False:
            return 'stops although the queue is open'
        for e in lps[0].edges:
            ctx = Ctx(e.st, e.items)
            po = [i for i in e.items if i.kind == 'call' and i.q.split('::')[-1] == 'pop']
            if len(po) != 1:
                return ('a round takes not one request', lps[0])
            tx = ('call', 'cbdc::from_buffer', (F('m_pkt', ('out', result(po[0]), 0, 1)),), 0)
            d = [i for i in e.items if dtx(i)]
            o = [i for i in e.items if out(i)]
            has = holds(Has(tx), ctx)
            att = ('call', 'cbdc::transaction::validation::check_attestations', (tx, F('m_opts.m_sentinel_public_keys'), F('m_opts.m_attestation_threshold')), 0)
            good = holds(att, ctx) if has else False
            if has is None or good is None:
                return ('does not check a transaction', lps[0])
            if not good:
                if d or o:
                    return ('processes a transaction that is not attested', (d + o)[0])
                continue
            if [i.args for i in d] != [(tx,)]:
                return ('an attested transaction is not processed once', lps[0])
            r = result(d[0])
            n = e.st.known(('is', r, AZ + 'tx_notify_request'))
            if n is None:
                n = False if e.st.known(('is', r, WT + 'tx_error')) is True else None
            if n is None:
                return ('does not look at the result', d[0])
            if len(o) != 1:
                return ('the result is not reported once', d[0])
            if n:
                a = plain(o[0].args[0])
                ok = qmatch('send_to_one', o[0].q) and unver(o[0].obj) == F('m_atomizer_network') and a == ('as', r, AZ + 'tx_notify_request')
            else:
                a = o[0].args[0]
                v = a[2][0] if is_call(a, 'make_shared_buffer') else None
                ok = qmatch('broadcast', o[0].q) and unver(o[0].obj) == F('m_watchtower_network') and v is not None and v[0] == 'list' and v[-1] == (('as', r, WT + 'tx_error'),)
            if not ok:
                return ('the result is not reported to %s' % ('the atomizer' if n else 'the watchtowers'), o[0])
        return None
    c.every(u, 'transactions from sentinels', consumed)
    u = c.fn(C_ + '::init', opaque=['open_db$'])
    od = call('open_db')

    def starts(p):
        e = enc(p, od)
        if len(e) != 1 or e[0].ev.args[0] != at(F('m_opts.m_shard_db_dirs'), F('m_shard_id')):
            return 'the database is not opened'
        bad = holds(Has(result(e[0].ev)), Ctx(p.st, p.items))
        if bad is not False and (p.ret != FALSE or len(enc(p, call('start_handler') | call('start_server')))):
            return ('starts without a database', e[0].ev)
        return None
    c.every(u, 'start', starts)


@prop('A03', files=[R_ + 'controller.cpp', R_ + 'client.cpp'], assumptions=['LevelDB applies a write batch atomically and durably'])
def a03(c):
    """archivers store every block once, in order, and serve what they store"""
    T = AR + 'controller'
    for n in ('m_db', 'm_best_height', 'm_deferred', 'm_bestblock_key', 'm_max_samples', 'm_samples'):
        c.field(T, n)
    B_, DEF, KEY = F('m_best_height'), F('m_deferred'), F('m_bestblock_key')
    SYNC = PR(lambda t: t[0] == 'new' and t[1].replace('const ', '') == AR + 'leveldbWriteOptions' and t[2] == (TRUE,))
    u = c.fn(AR + 'leveldbWriteOptions::leveldbWriteOptions')
    c.every(u, 'writes are durable', Final(F('sync'), A(0)))
    H = F('m_height', A(0))
    send = call('connection_manager::send_to_one')
    rec = call('archiver::controller::digest_block')

    def text(v, h, st):
        """v is the decimal text of h"""
        return is_call(v, 'to_string') and (v[2][0] == h or st.known(compare('==', v[2][0], h)) is True)

    def request(ev, kind, h, st):
        a = ev.args[0]
        v = plain(a[2][0]) if is_call(a, 'make_shared_buffer') else plain(a)
        f = dict(v[2]) if v[0] == 'obj' and v[1] == AZ + kind else {}
        x = f.get('m_block_height')
        return x is not None and (x == h or st.known(compare('==', x, h)) is True)

    u = c.fn(T + '::digest_block', opaque=['archiver::controller::digest_block$'], pure=['buffer::data$'])

    def digested(p):
        ctx = Ctx(p.st, p.items)
        bs = [i for i in top(p.items) if i.kind == 'set' and i.obj == B_]
        ini = [i for i in bs if is_call(i.args[0], 'stoul')]
        best_ = B_
        for i in ini:
            g = [j for j in p.items[:p.items.index(i)] if j.kind == 'call' and qmatch('DB::Get', j.q)]
            if len(g) != 1 or not key_is(p.items, g[0], g[0].args[1], KEY, 0, p.st) or holds(ok_(result(g[0])), ctx) is not True \
                    or i.args[0][2][0] != ('out', result(g[0]), 2, 1) or holds(Eq(B_, I_(0)), ctx) is not True:
                return ('the height is replaced by another than the stored one', i)
            best_ = i.args[0]
        bs = [i for i in bs if i not in ini]
        w = [s.ev for s in enc(p, DIRECT)]
        ops = [s.ev for s in enc(p, OPS)]
        ss = [s.ev for s in enc(p, send)]
        rs = [s.ev for s in enc(p, rec)]
        dm = [s.ev for s in enc(p, mut(DEF))] + [s.ev for s in enc(p, M(lambda e: e.kind == 'set' and mentions_t(e.obj, DEF), 'deferred'))]
        old = holds(Le(H, best_), ctx)
        nxt = holds(Eq(H, l_add(best_, I_(1))), ctx)
        if old:
            return None if not (bs or w or ops or ss or rs or dm) else ('a block is archived twice', (bs + w + ops + ss + rs + dm)[0])
        if nxt is False:
            if bs or w or ops or rs:
                return ('a block is archived before its predecessor', (bs + w + ops + rs)[0])
            if len(dm) != 1 or not puts(DEF, H, A(0))(dm[0]):
                return 'a block that came early is not kept'
            if old is None:
                return 'does not look whether the block is older'
            have = holds(In(DEF, l_add(H, I_(-1))), ctx)
            if have is None:
                have = False
            if not have and not any(request(s, 'get_block_request', l_add(H, I_(-1)), p.st) for s in ss):
                return 'the missing block is not asked for'
            if len(ss) > 1 or any(not request(s, 'get_block_request', l_add(H, I_(-1)), p.st) for s in ss):
                return ('asks for something else', ss[0])
            return None
        if nxt is None:
            return 'does not look whether the block is the next one'
        if len(w) != 1 or not qmatch('DB::Write', w[0].q) or unver(w[0].obj) != DB or not match(SYNC, w[0].args[0], {}):
            return 'the block is not written durably at once'
        w = w[0]
        k = p.items.index(w)
        if any(unver(o.obj) != unver(w.args[1]) or o not in p.items[:k] for o in ops) or unver(w.args[1])[0] != 'loc' or len(ops) != 2:
            return ('the batch is not the block and its height', w)
        kinds = set()
        for o in ops:
            if not qmatch('WriteBatch::Put', o.q):
                return ('the batch is not the block and its height', o)
            kv, vv = content(p.items, o, o.args[0]), content(p.items, o, o.args[1])
            if kv is None or vv is None:
                return ('what is stored is not known', o)
            if kv[0] == KEY and text(vv[0], H, p.st) and vv[1] is None:
                kinds.add('height')
            elif text(kv[0], H, p.st):
                v, n = vv
                bf = next((x for x in subterms(v) if is_call(x, 'make_buffer')), None)
                if bf is None or bf[2] != (A(0),) or not is_call(v, ('buffer::c_str', 'buffer::data')) or not is_call(n, 'buffer::size') or unver(n[2][0]) != bf:
                    return ('what is stored is not the whole block', o)
                kinds.add('block')
        if kinds != {'height', 'block'}:
            return ('the batch is not the block and its height', w)
        if holds(ok_(result(w)), ctx) is not True:
            return ('does not look whether the block was stored', w)
        if len(bs) != 1 or p.items.index(bs[0]) < k or (bs[0].args[0] != H and p.st.known(compare('==', bs[0].args[0], H)) is not True):
            return ('the height does not follow the stored block', w)
        if any(p.items.index(s) < k for s in ss):
            return ('blocks are pruned before they are stored', ss[0])
        if len(ss) != 1 or not request(ss[0], 'prune_request', H, p.st):
            return ('asks to prune other blocks than those that are stored', ss[0] if ss else w)
        if len(dm) != 1 or not dels(DEF, H)(dm[0]):
            return ('the block is still kept as an early one', w)
        more = holds(In(DEF, l_add(H, I_(1))), ctx)
        if more is None:
            return 'does not look whether the next block came early'
        want = [(at(DEF, l_add(H, I_(1))),)] if more else []
        if [tuple(p.st.load(a) if a[0] == 'loc' else a for a in r.args) for r in rs] != want:
            return 'a block that came early is not archived next'
        if rs and p.items.index(rs[0]) < k:
            return ('blocks are archived out of order', rs[0])
        return None
    c.every(u, 'blocks', digested)
    for p in u.paths:
        if p not in u.rets:
            for s in enc(p, send | sets(B_)):
                if s.ev.kind == 'set' and is_call(s.ev.args[0], 'stoul'):
                    continue
                c.ob('blocks', False, c.where(u, p, ('', s.ev)), 'a block that was not stored counts', p)

    u = c.fn(T + '::init_best_block')

    def first(p):
        ctx = Ctx(p.st, p.items)
        g = [s.ev for s in enc(p, call('DB::Get'))]
        if len(g) != 1 or not key_is(p.items, g[0], g[0].args[1], KEY, 0, p.st):
            return 'the stored height is not read'
        r = result(g[0])
        w = [s.ev for s in enc(p, DIRECT)]
        new = holds(notfound(r), ctx)
        if new is None:
            return 'does not look whether a height is stored'
        if not new:
            v = p.st.load(B_)
            return None if not w and p.ret == TRUE and is_call(v, 'stoul') and v[2][0] == ('out', r, 2, 1) else 'the height is not the stored one'
        if len(w) != 1 or not qmatch('DB::Put', w[0].q) or not key_is(p.items, w[0], w[0].args[1], KEY, 0, p.st):
            return 'the height of a new archive is not stored'
        v = content(p.items, w[0], w[0].args[2])
        if v is None or not (text(v[0], I_(0), p.st) or v[0] == ('str', '0')):
            return ('the height of a new archive is not zero', w[0])
        ok = holds(ok_(result(w[0])), ctx)
        if ok is not True:
            return None if ok is False and p.ret == FALSE else ('goes on although the height was not stored', w[0])
        x = p.st.load(B_)
        return None if p.ret == TRUE and (x == I_(0) or is_call(x, 'stoul') and (text(x[2][0], I_(0), p.st) or x[2][0] == ('str', '0'))) else 'a new archive does not start at zero'
    c.every(u, 'first height', first)

    u = c.fn(T + '::get_block')

    def served(p):
        ctx = Ctx(p.st, p.items)
        g = [s.ev for s in enc(p, call('DB::Get'))]
        if len(g) != 1 or unver(g[0].obj) != DB:
            return 'the block is not looked up'
        kc = content(p.items, g[0], g[0].args[1])
        if kc is None or not text(kc[0], A(0), p.st):
            return ('another block is looked up', g[0])
        r = result(g[0])
        ok = holds(ok_(r), ctx)
        if ok is not True:
            return None if ok is False and p.ret == NONE else ('serves a block that was not found', g[0])
        fb = [s.ev for s in enc(p, call('from_buffer'))]
        if len(fb) != 1 or p.ret not in (('some', result(fb[0])), result(fb[0])):
            return 'the block served is not the one stored'
        b = unver(fb[0].args[0])
        ap = [i for i in p.items if i.kind == 'call' and qmatch('buffer::append', i.q) and unver(i.obj) == b]
        o = ('out', r, 2, 1)
        if len(ap) != 1 or (ap[0].st.load(ap[0].args[0]) if ap[0].args[0][0] == 'loc' else ap[0].args[0]) != o or ap[0].args[1] != ('size', o):
            return 'the block served is not the one stored'
        return None
    c.every(u, 'blocks served', served)
    u = c.fn(T + '::server_handler', opaque=['archiver::controller::get_block$'])
    req = ('call', 'cbdc::from_buffer', (F('m_pkt', A(0)),), 0)
    gb = call('archiver::controller::get_block')

    def answered(p):
        e = enc(p, gb)
        h = holds(Has(req), Ctx(p.st, p.items))
        if h is not True:
            return None if h is False and not e and p.ret == NONE else 'answers a request that could not be decoded'
        want = ('call', 'cbdc::archiver::controller::get_block', (THIS, req), 0)
        r = p.ret
        if r[0] == 'some' and is_call(r[1], 'make_buffer') and is_call(r[1][2][0], 'get_block') and r[1][2][0][2][-1] == req:
            return None
        return 'the answer is not the block asked for'
    c.every(u, 'requests', answered)

    u = c.fn(T + '::atomizer_handler', opaque=['archiver::controller::digest_block$'])
    MS, S = F('m_max_samples'), F('m_samples')
    full = And(Ne(MS, I_(0)), Ge(S, MS))
    c.cases(u, 'blocks from the atomizer', [
        ('undecodable', Not(Has(req)), [Never(rec), Ret(NONE)]),
        ('limit', And(Has(req), full), [Never(rec), Final(F('m_running'), FALSE), Ret(NONE)]),
        ('block', And(Has(req), Not(full)), [lambda p: None if [s.ev.args for s in enc(p, rec)] == [(req,)] else 'the block is not archived once', Same(F('m_running')), Ret(NONE)]),
    ])

    u = c.fn(AR + 'client::get_block', eventful=['tcp_socket::send$'])

    def fetched(p):
        ctx = Ctx(p.st, p.items)
        s = [x.ev for x in enc(p, call('tcp_socket::send'))]
        if len(s) != 1 or s[0].args[0] != A(0):
            return 'the height is not asked for once'
        if holds(result(s[0]), ctx) is not True:
            return None if p.ret == NONE else ('answers although nothing was asked', s[0])
        r = [x.ev for x in enc(p, call('tcp_socket::receive'))]
        if len(r) != 1:
            return 'the answer is not received once'
        if holds(result(r[0]), ctx) is not True:
            return None if p.ret == NONE else ('answers although nothing was received', r[0])
        f = ('call', 'cbdc::from_buffer', (('out', result(r[0]), 0, 1),), 0)
        if holds(Has(f), ctx) is not True:
            return None if p.ret == NONE else 'answers with something that could not be decoded'
        return None if p.ret == f else 'the answer is not the one received'
    c.every(u, 'fetching blocks', fetched)
    u = c.fn(T + '::init', opaque=['controller::init_'])
    steps = ['init_leveldb', 'init_best_block', 'init_atomizer_connection', 'init_archiver_server']

    def order(p):
        seen = []
        for i in p.items:
            if i.kind == 'call' and i.q.split('::')[-1].startswith('init_'):
                seen.append((i.q.split('::')[-1], holds(result(i), Ctx(p.st, p.items))))
        bad = [n for n, r in seen if r is not True]
        if p.ret == TRUE:
            ns = [n for n, _ in seen]
            if bad or any(s not in ns for s in steps) or [n for n in ns if n in steps] != steps:
                return 'starts although a part is missing'
            return None
        return None if p.ret == FALSE and bad and seen[-1][0] == bad[0] else 'goes on after a failure'
    c.every(u, 'start', order)
