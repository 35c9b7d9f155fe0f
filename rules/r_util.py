"""Building blocks every part uses: equality of values, the bounded record of
finished transactions, random numbers."""
from lib import *
from lib import Ctx, l_add, compare, subterms
from r_wire import names
from r_tx import equal

# what a comparison of these goes by, other than everything in them
BY = {'cbdc::transaction::compact_tx': ['m_id']}
PTR = ('std::shared_ptr<', 'std::unique_ptr<')
EQ = ['util/common/buffer.cpp', 'uhs/sentinel/interface.cpp', 'uhs/twophase/coordinator/controller.cpp', 'uhs/twophase/locking_shard/messages.cpp',
      'uhs/twophase/locking_shard/interface.cpp', 'uhs/transaction/transaction.cpp', 'uhs/transaction/validation.cpp', 'uhs/atomizer/watchtower/tx_error_messages.cpp',
      'uhs/atomizer/watchtower/status_update.cpp', 'uhs/atomizer/watchtower/watchtower.cpp', 'uhs/atomizer/atomizer/atomizer.cpp', 'uhs/atomizer/atomizer/block.cpp',
      'uhs/atomizer/atomizer/messages.cpp', 'uhs/atomizer/atomizer/controller.cpp', 'util/common/hashmap.cpp', 'parsec/agent/runners/evm/serialization.cpp', 'parsec/agent/runners/evm/impl.cpp']


def alike(fields, neg=False):
    """equality by all of fields, compared one by one or as tuples"""
    one = equal(*fields, neg=neg)

    def f(p):
        why = one(p)
        if why is None:
            return None
        got, h = set(), None
        for k in p.st.bounds:
            ts = [x[0] for x in k]
            if len(ts) != 2 or not all(t[0] == 'obj' and 'tuple' in t[1] or t[0] == 'obj' and 'pair' in t[1] for t in ts) or len(ts[0][2]) != len(ts[1][2]):
                continue
            ms = set()
            for (_, x), (_, y) in zip(ts[0][2], ts[1][2]):
                n = next((n for n in fields if {x, y} == {F(n), F(n, A(0))}), None)
                if n is None:
                    return why
                ms.add(n)
            v = p.st.known(compare('==', ts[0], ts[1]))
            if v is False:
                h = False
            elif v is True:
                got |= ms
        for n in fields:
            v = p.st.known(compare('==', F(n), F(n, A(0))))
            if v is False:
                h = False
            elif v is True:
                got.add(n)
        if h is None and got == set(fields):
            h = True
        if h is None:
            return why
        return None if p.ret == (TRUE if h is not neg else FALSE) else 'equality does not follow from %s' % ', '.join(fields)
    return f


def const_eq(val):
    def f(p):
        return None if p.ret == val else 'values with nothing in them are not equal'
    return f


@prop('X04', files=EQ)
def x04(c):
    """equality: exactly when everything in both is equal"""
    seen = set()
    for q, l in sorted(c.P.byq.items()):
        op = q.split('::')[-1]
        if op not in ('operator==', 'operator!=') or not q.startswith('cbdc::'):
            continue
        for f in l:
            if f.get('body') is None or not f.get('cls') or len(f['params']) != 1:
                continue
            cls = f['cls']
            fs = BY.get(cls) or names(c, cls)
            if fs is None or '<' in cls:
                continue
            seen.add((cls, op))
            u = c.unit(f)
            neg = op == 'operator!='
            c.every(u, 'equality', alike(fs, neg) if fs else const_eq(FALSE if neg else TRUE))
            r = c.P.recs[cls]
            ptrs = {x['n'] for x in r['fields'] if x['t'].startswith(PTR)}
            for e in nodes(f['body']):
                if e.get('k') in ('op', 'bin') and e.get('op') in ('==', '!='):
                    for x in (e.get('a') or [e.get('l'), e.get('r')]):
                        while isinstance(x, dict) and x.get('k') in ('cp', 'mv', 'cast', 'conv', 'par') and ('e' in x or 'o' in x):
                            x = x.get('e') or x.get('o')
                        ok = not (isinstance(x, dict) and x.get('k') == 'mem' and x.get('n') in ptrs)
                        c.ob('equality of what is pointed to', ok, c.where(u), 'compares where %s points to' % (x.get('n') if isinstance(x, dict) else ''))
    if len(seen) < 20:
        raise Anchor('only %d types can be compared' % len(seen))
    for q in ('cbdc::hashing::null::operator()', 'cbdc::transaction::compact_tx_hasher::operator()'):
        for f in c.find(q):
            c.every(c.unit(f), 'hash of equal values', lambda p: None if only(p.ret) else 'the hash does not follow from the value: %s' % pp(p.ret)[:80])


def only(t):
    """made from the bytes of the argument, or of its id"""
    return t[0] == 'call' and t[1] == 'bytes' and (t[2][0] == A(0) or t[2][0] == F('m_id', A(0))) and t[2][1][0] == 'i' and 0 < t[2][1][1] <= 32


def nodes(t):
    if isinstance(t, dict):
        yield t
        for v in t.values():
            yield from nodes(v)
    elif isinstance(t, list):
        for v in t:
            yield from nodes(v)


CS = 'cbdc::cache_set'
VALS, QUEUE, MAX = F('m_vals'), F('m_eviction_queue'), F('m_max_size')


@prop('U01', files=['uhs/twophase/locking_shard/locking_shard.cpp'])
def u01(c):
    """the bounded set: forgets the oldest, and only when it is full"""
    for n in ('m_vals', 'm_eviction_queue', 'm_max_size', 'm_mut'):
        c.field(CS, n)
    adds = [f for f in c.find(CS + '::add') if f.get('body') is not None]
    if not adds:
        raise Anchor('cache_set::add is not defined')
    for f in adds:
        u = c.unit(f)
        for m, n in ((mut(VALS), 'values'), (mut(QUEUE), 'order')):
            c.locked(u, 'set: ' + n + ' under the lock', m, F('m_mut'), mode=('x',))
        for p in u.rets:
            w = c.where(u, p)
            c.ob('set: straight', not any(i.kind == 'loop' for i in p.items), w, 'loops', p)
            ev = [i for i in allev(p.items) if i.kind in ('mut', 'set') and unver(i.obj) in (VALS, QUEUE, MAX)]
            ins = [i for i in ev if unver(i.obj) == VALS and i.q in ('emplace', 'insert', 'ensure', 'try_emplace') and i.args and i.args[0] == A(0)]
            psh = [i for i in ev if unver(i.obj) == QUEUE and i.q in ('push_back', 'emplace', 'push')]
            era = [i for i in ev if unver(i.obj) == VALS and i.q == 'erase']
            pop = [i for i in ev if unver(i.obj) == QUEUE and i.q == 'pop']
            c.ob('set: nothing else changes', len(ins) + len(psh) + len(era) + len(pop) == len(ev), w, 'changes the set otherwise', p)
            known = holds(In(VALS, A(0)), Ctx(p.st, p.items))
            if known is None:
                c.ob('set: decided by membership', False, w, 'does not depend on whether the value was there', p)
                continue
            if known:
                c.ob('set: known value', p.ret == FALSE and not psh and not era and not pop, w, 'adding a known value changes the set or is reported as new', p)
                continue
            c.ob('set: new value', p.ret == TRUE and len(ins) == 1 and len(psh) == 1, w, 'a new value is not kept, not queued or not reported', p)
            if len(ins) != 1 or len(psh) != 1:
                continue
            a = psh[0].args[0] if psh[0].args else None
            c.ob('set: the value is queued', a is not None and any(t == A(0) for t in subterms(a)), w, 'queues %s' % pp(a)[:80], p)
            n = len(era)
            c.ob('set: one leaves at most', n == len(pop) and n <= 1, w, '%d values leave, %d leave the queue' % (n, len(pop)), p)
            gone = [t for e in era[:1] for t in e.args[:1]]
            if n == 1:
                c.ob('set: the oldest leaves', bool(gone) and gone[0][0] == 'front' and unver(gone[0][1]) == QUEUE, w, 'drops something else', p)
                c.ob('set: the oldest leaves', era[0] in ev and ev.index(era[0]) < ev.index(pop[0]), w, 'the value is dropped after it left the queue', p)
            # the bound
            ok = any(full(p, x, n) for x in counted(p))
            c.ob('set: the bound', ok, w, 'a value leaves before the set is full, or none when it is' if n else 'grows beyond its bound', p)
    for f in [f for f in c.find(CS + '::contains') if f.get('body') is not None]:
        u = c.unit(f)
        c.every(u, 'set: membership', lambda p: None if p.ret == {True: TRUE, False: FALSE}.get(holds(In(VALS, A(0)), Ctx(p.st, p.items))) else 'membership is reported wrongly')
        c.every(u, 'set: looking changes nothing', lambda p: None if not [i for i in allev(p.items) if i.kind in ('mut', 'set') and i.obj is not None] else 'changes something')
        for p in u.rets:
            c.ob('set: looked up under the lock', any(i.kind == 'lock' for i in p.items) or any(l.kind == 'lock' for l in allev(p.items)), c.where(u, p), 'reads without the lock', p)
    for f in [f for f in c.find(CS + '::cache_set') if f.get('body') is not None and len(f['params']) == 1 and 'cache_set' not in f['params'][0]['t']]:
        c.every(c.unit(f), 'set: the bound is kept', Final(MAX, A(0)))


def counted(p):
    """the terms for how many values are queued with the new one"""
    out = set()
    for k in p.st.bounds:
        for t in subterms(k):
            if t[0] == 'size' and unver(t[1]) == QUEUE:
                out.add(l_add(t, ('i', 1)) if t[1] == QUEUE else t)
    return out


def full(p, n, evict):
    """values leave only when the bound is reached, and then they do"""
    return p.st.known(compare('<', n, MAX) if evict else compare('<', MAX, n)) is False


RS = 'cbdc::random_source::'
BUF, SHA, CTR = F('m_buf'), F('m_sha'), F('m_counter')


@prop('U02', files=['util/common/random_source.cpp'])
def u02(c):
    """random numbers: every number is made of fresh bytes, each used once"""
    for n in ('m_buf', 'm_sha', 'm_counter', 'm_mut'):
        c.field('cbdc::random_source', n)
    size = 4

    def digest_of(p, items, n=None):
        """(index written, digest) of the one hash made in items"""
        wr = [i for i in items if i.kind == 'call' and qmatch('CSHA256::Write', i.q) and unver(i.obj) == SHA]
        fi = [i for i in items if i.kind == 'call' and qmatch('CSHA256::Finalize', i.q) and unver(i.obj) == SHA]
        if len(wr) != 1 or len(fi) != 1 or items.index(wr[0]) > items.index(fi[0]) or [i for i in items if i.kind == 'call' and qmatch('CSHA256::Reset', i.q)]:
            return None
        d = wr[0].args[0]
        v = wr[0].st.load(d) if d[0] == 'loc' and wr[0].st is not None else d
        return v, wr[0].args[1], ('out', result(fi[0]), 0)

    # hash_at_index: the digest of everything so far and the index
    u = c.fn(RS + 'hash_at_index')
    for p in u.rets:
        d = digest_of(p, p.items)
        w = c.where(u, p)
        c.ob('block: digest', d is not None and p.ret[0] == 'out' and is_call(p.ret[1], 'CSHA256::Finalize'), w, 'is not the digest of all so far and the index', p)
        if d:
            c.ob('block: of its index', d[1] == ('i', 8) and (d[0] == A(0) or is_call(d[0], 'bytes') and d[0][2] == (A(0), ('i', 8))), w, 'hashes %s' % pp(d[0])[:60], p)
    # operator()
    u = c.fn(RS + 'operator()')
    for m, n in ((mut(BUF), 'bytes'), (sets(CTR), 'counter'), (call('CSHA256::Write'), 'state')):
        c.locked(u, 'number: ' + n + ' under the lock', m, F('m_mut'), mode=('x',))
    for p in u.rets:
        w = c.where(u, p)
        lp = [i for i in p.items if i.kind == 'loop']
        c.ob('number: byte by byte', len(lp) == 1 and lp[0].mode == 'all', w, 'is not made byte by byte', p)
        if len(lp) != 1:
            continue
        lp = lp[0]
        c.ob('number: nothing else takes bytes', not [i for i in p.items if i.kind in ('mut', 'set') and unver(i.obj) in (BUF, CTR)], w, 'bytes are taken otherwise', p)
        c.ob('number: all of its bytes', p.ret[0] == 'call' and p.ret[1] == 'bytes' and p.ret[2][1] == ('i', size), w, 'returns %s' % pp(p.ret)[:60], p)
        for e in lp.edges:
            mem = [i for i in e.items if i.kind == 'loop' or i.kind in ('mut', 'set', 'call')]
            fill = [i for i in mem if i.kind == 'loop']
            pops = [i for i in mem if i.kind == 'mut' and unver(i.obj) == BUF and i.q == 'pop']
            took = [i for i in mem if i.kind == 'set' and i.args and i.args[0][0] == 'front' and unver(i.args[0][1]) == BUF]
            inc = [i for i in mem if i.kind == 'set' and i.obj == CTR]
            ad = [i for i in mem if i.kind == 'mut' and unver(i.obj) == BUF and i.q not in ('pop', 'reserve')]
            c.ob('number: each byte is used once', len(pops) == 1 and len(took) == 1 and (took[0].args[0][1] == pops[0].pre or mem.index(took[0]) < mem.index(pops[0])), w, 'a byte is not taken, or not removed', p)
            if not fill:
                c.ob('number: no refill', not inc and not ad, w, 'refills otherwise', p)
                c.ob('number: no refill', emptiness(e) is False, w, 'takes a byte although there may be none', p)
                continue
            c.ob('number: refill', emptiness(e) is True, w, 'refills while bytes are left', p)
            d = digest_of(p, mem)
            f = fill[0]
            x = X(f.dom, f.L)
            put = [[j.args[0] for j in g.items if j.kind == 'mut' and unver(j.obj) == BUF and j.q in ('push_back', 'emplace', 'push')] for g in f.edges]
            fin = lambda t: t[0] == 'out' and is_call(t[1], 'CSHA256::Finalize')
            whole = f.dom[0] == 'each' and any(fin(t) for t in f.dom[1:]) or f.dom[:1] == ('range',) and f.dom[1:] == (('i', 0), ('i', 32))
            c.ob('number: fresh bytes', d is not None and len(fill) == 1 and not ad and f.mode == 'all' and whole and d[1] == ('i', 8) and any(t[0] == 'lv' and t[1] == CTR for t in subterms(d[0])), w, 'does not refill with a digest', p)
            c.ob('number: every byte of it', all(len(g) == 1 and (f.dom[0] == 'each' and g[0] == x.e or f.dom[0] == 'range' and g[0][0] == 'at' and fin(g[0][1]) and g[0][2][0] == 'rix' and g[0][2][3] == f.L) for g in put), w, 'bytes are dropped or doubled', p)
            up = len(inc) == 1 and inc[0].args[0] in [l_add(t, ('i', 1)) for t in lvs(inc[0].args[0])]
            c.ob('number: the index moves on', up, w, 'an index is used again', p)
    # whole range, no bias
    for q, v in (('min', ('i', 0)), ('max', ('i', 2 ** (8 * size) - 1))):
        c.every(c.fn(RS + q), 'number: range', Ret(v))
    u = c.fn(RS + 'random_hash')
    for p in u.rets:
        w = c.where(u, p)
        lp = [i for i in p.items if i.kind == 'loop']
        c.ob('hash: every byte', len(lp) == 1 and lp[0].mode == 'all' and bool(lp[0].edges), w, 'not every byte is set', p)
        for e in (lp[0].edges if lp else []):
            s = [i for i in e.items if i.kind == 'set']
            c.ob('hash: random bytes', len(s) == 1 and drawn(s[0].args[0]), w, 'a byte is %s' % (pp(s[0].args[0])[:80] if s else 'not set'), p)
    # seeded
    u = c.fn(RS + 'random_source', params=lambda f: 'basic_string' in f['params'][0]['t'])
    for p in u.rets:
        wr = [i for i in allev(p.items) if i.kind == 'call' and qmatch('CSHA256::Write', i.q) and unver(i.obj) == SHA]
        c.ob('seed: 32 bytes', len(wr) == 1 and wr[0].args[1] == ('i', 32), c.where(u, p), 'is not seeded with 32 bytes', p)


def lvs(t):
    return [x for x in subterms(t) if x[0] in ('lv', 'fld')]


def emptiness(e):
    for t in {x for k in list(e.st.bounds) for x in subterms(k) if x[0] == 'size' and unver(x[1]) == BUF}:
        v = e.st.known(compare('==', t, ('i', 0)))
        if v is not None:
            return v
    return None


def drawn(t):
    return t[0] == 'call' and t[1].endswith('uniform_int_distribution::operator()') and t[2][0][0] == 'new' and t[2][0][2] == () and unver(t[2][1]) == THIS
