"""Raft plumbing: durable log, node, rpc server, state files, snapshots."""
from lib import *
from r_coord import region
from r_shard import content

RF = 'cbdc::raft::'
LS = RF + 'log_store'
U_ = 'util/raft/'
MUT, DB, NXT, STA = F('m_db_mut'), F('m_db'), F('m_next_idx'), F('m_start_idx')
ITER = 'leveldb::Iterator::'
HELP = ['get_key_slice', 'get_value_slice', 'log_entry_from_slice', 'get_first_or_last_index']


def okc(r):
    return ('call', 'leveldb::Status::ok', (r,), 0)


def c_(t, q):
    """t is a call of q"""
    return t[0] == 'call' and qmatch(q, t[1])


def slice_bytes(items, ev, sl):
    """what the slice handed to ev refers to: (source, size)"""
    if sl[0] == 'new' and sl[1].split('::')[-1] == 'Slice' and len(sl[2]) == 2:
        n = sl[2][1]
        if n[0] == 'size' and c_(n[1], 'bytes'):
            return n[1][2]
    return content(items, ev, sl)


def is_index(items, ev, sl, k, st):
    """the slice is the 8 byte key of index k"""
    r = slice_bytes(items, ev, sl)
    return r is not None and r[1] == I_(8) and same_num(st, r[0], k)


def same_num(st, a, b):
    return a == b or st.known(compare('==', a, b)) is True


def is_entry(items, ev, sl, e):
    """the slice is the complete serialised form of log entry e"""
    r = slice_bytes(items, ev, sl)
    if r is None:
        return False
    d, n = r
    if not c_(d, 'buffer::data_begin') or not (c_(n, 'buffer::size') and n[2] == d[2]):
        return False
    s = unver(d[2][0])
    return c_(s, 'log_entry::serialize') and unver(s[2][0]) == e


def entry_of(items, v, slc=None):
    """v is the log entry read from a slice; gives (slice, copy event)"""
    if not c_(v, 'log_entry::deserialize'):
        return None
    b = v[2][0]
    if not c_(b, 'buffer::alloc'):
        return None
    for i in items:
        if i.kind == 'call' and i.q in ('memcpy', 'std::memcpy') and c_(i.args[0], 'buffer::data_begin') and i.args[0][2][0] == b:
            src, n = i.args[1], i.args[2]
            if c_(n, 'buffer::size') and n[2][0] == b:
                n = b[2][0]
            if c_(src, 'Slice::data') and c_(n, 'Slice::size') and n[2] == src[2]:
                if b[2][0] == n:
                    return src[2][0], i
            return None
    return None


def edge_index(p, ev, v, last):
    """v, stored at ev, is the first index (or last + 1) in the database"""
    if last:
        v = l_add(v, I_(-1))
    items = list(top(p.items))
    before = items[:items.index(ev)]
    seeks = [i for i in before if i.kind == 'call' and i.q.split('::')[-1] in ('SeekToFirst', 'SeekToLast', 'Seek', 'Next', 'Prev') and qmatch(ITER + i.q.split('::')[-1], i.q)]
    want = ITER + ('SeekToLast' if last else 'SeekToFirst')
    for it in {unver(i.obj) for i in seeks}:
        mine = [i for i in seeks if unver(i.obj) == it]
        if not qmatch(want, mine[-1].q) or not c_(it, 'DB::NewIterator'):
            continue
        if not any(db(p, x) for x in [it[2][0]]):
            continue
        valid = p.st.known(('call', 'leveldb::Iterator::Valid', (it,), 0))
        if valid is False and v == I_(0 if last else 1):
            return True
        if valid is True and v == ('call', 'bytes', (('call', 'leveldb::Slice::data', (('call', 'leveldb::Iterator::key', (it,), 0),), 0), I_(8)), 0):
            return True
    return False


def db(p, x):
    """x is the open database"""
    x = unver(x)
    return x == DB or x == unver(p.st.load(DB)) or x[0] == 'out' and (c_(x[1], 'DB::Open') or unver(x[1][2][0]) == DB)


def stored(p, w):
    """the write succeeded, or nothing happens after it"""
    return holds(okc(result(w)), Ctx(p.st, p.items)) is True


OPS = call(('WriteBatch::Put', 'WriteBatch::Delete', 'WriteBatch::Clear', 'WriteBatch::Append'))
WRITES = call(('DB::Put', 'DB::Delete', 'DB::Write'))


def one_write(p, q):
    w = [s.ev for s in enc(p, WRITES)]
    if len(w) != 1 or not qmatch(q, w[0].q) or not db(p, w[0].obj) or w[0] not in p.items:
        return None
    return w[0]


def batch_of(p, w, rule_ops):
    """every change is part of the one batch, complete when written"""
    b = unver(w.args[1])
    if b[0] != 'loc':
        return ('the batch still holds other changes', w)
    k = p.items.index(w)
    for s in rule_ops:
        if unver(s.ev.obj) != b:
            return ('a change is not part of the batch', s.ev)
        if s.ev in p.items[k + 1:] or any(l is it for l, _ in s.loops for it in p.items[k + 1:]):
            return ('the batch is written before it is complete', w)
    return None


def index_loop(p, s, lo, hi, key=None):
    """the operation happens once for every index of [lo, hi)"""
    if len(s.loops) != 1:
        return False
    lp, ed = s.loops[0]
    if lp.mode != 'all' or lp.dom[0] != 'range' or len(lp.edges) < 1:
        return False
    if not all(len([i for i in e.items if OPS(i)]) == 1 for e in lp.edges):
        return False
    a, b = lp.dom[1], lp.dom[2]
    i = ('rix', a, b, lp.L)
    r = slice_bytes(ed.items, s.ev, s.ev.args[0])
    if r is None or r[1] != I_(8):
        return False
    off = l_add(r[0], neg(i))
    return same_num(p.st, l_add(a, off), lo) and same_num(p.st, l_add(b, off), hi)


def neg(t):
    return l_add(I_(0), t, -1)


@prop('R01', files=[U_ + 'log_store.cpp', U_ + 'index_comparator.cpp'], assumptions=[
    'LevelDB applies a write batch atomically and orders keys by the configured comparator', 'indexes are stored in the byte order of the machine'])
def r01(c):
    """the raft log returns exactly what was stored in it, also after a restart"""
    for n in ('m_db', 'm_db_mut', 'm_next_idx', 'm_start_idx', 'm_cmp', 'm_read_opt', 'm_write_opt'):
        c.field(LS, n)
    kw = dict(inline=HELP)

    # ---- the comparator orders keys as numbers
    u = c.fn(RF + 'index_comparator::Compare')

    def num(x):
        return ('call', 'bytes', (('call', 'leveldb::Slice::data', (x,), 0), I_(8)), 0)

    def order(p):
        a, b = (num(A(i)) for i in (0, 1))
        r = p.ret
        if r[0] != 'i':
            return 'the order is not decided by the two indexes: returns %s' % pp(r)[:80]
        want = '==' if r[1] == 0 else '<' if r[1] < 0 else '>'
        if p.st.known(compare(want, a, b)) is not True:
            return 'returns %d although the indexes need not compare so' % r[1]
        return None
    c.every(u, 'order of the indexes', order)
    # ---- opening
    u = c.fn(LS + '::load', **kw)
    opened = call('DB::Open')

    def how(p):
        o = [s.ev for s in enc(p, opened)]
        if len(o) != 1 or o[0].args[1] != A(0):
            return 'the database of the given directory is not opened'
        d = dict((k[0][1], v) for k, v in opts(o[0].args[0]).items()) if o else {}
        if d.get('comparator') != F('m_cmp'):
            return ('indexes are not ordered as numbers', o[0])
        if d.get('error_if_exists') == TRUE or d.get('create_if_missing') != TRUE:
            return ('a log that does not exist yet is not created', o[0])
        return None

    def ok_open(p):
        e = [s.ev for s in enc(p, opened)]
        return holds(okc(result(e[0])), Ctx(p.st, p.items)) if len(e) == 1 else None

    def fresh(p):
        e = [s.ev for s in enc(p, opened)]
        s = [i for i in top(p.items) if i.kind == 'set' and i.obj == DB]
        if len(s) != 1 or s[0].args[0][0] != 'out' or s[0].args[0][1] != result(e[0]):
            return 'the database that was opened is not used'
        return edges(p, s[0])

    def edges(p, after):
        for n, last in ((NXT, True), (STA, False)):
            s = [i for i in top(p.items) if i.kind == 'set' and i.obj == n]
            if not s:
                return '%s is not taken from the database' % pp(n)
            if p.items.index(s[-1]) < p.items.index(after):
                return ('%s is determined too early' % pp(n), s[-1])
            if not edge_index(p, s[-1], s[-1].args[0], last):
                return ('%s becomes %s' % (pp(n), pp(s[-1].args[0])[:80]), s[-1])
        return None
    for p in u.rets:
        k = ok_open(p)
        if k is not True:
            c.expect(u, 'a log that cannot be opened', [how, Ret(FALSE)], p)
        if k is not False:
            c.expect(u, 'opening the log', [how, fresh, Ret(TRUE)], p)
    # the database uses the comparator until it is closed
    r = next((r for r in c.P.recs.values() if strip_t(r['q']) == LS), None)
    names = [f['n'] for f in r['fields']]
    c.ob('the comparator outlives the database', names.index('m_cmp') < names.index('m_db'), c.where(u), 'm_cmp is destroyed before m_db')

    # ---- reading
    for f, m in (('next_slot', NXT), ('start_index', STA)):
        u = c.fn(LS + '::' + f)
        c.every(u, f, Ret(m), Never(sets(m)))

    def nothing(v):
        return v[0] == 'call' and v[1].split('::')[-1] in ('cs_new', 'make_shared') and len(v[2]) == 2 and v[2][0] == I_(0) and v[2][1] in (('null',), NONE) or v[0] in ('new', 'heap') and len(v[2]) == 2 and v[2][0] == I_(0)
    u = c.fn(LS + '::last_entry', **kw)

    def last(p):
        it = {unver(s.ev.obj) for s in enc(p, call('Iterator::SeekToLast'))}
        if len(it) != 1 or enc(p, call(['Iterator::Prev', 'Iterator::Next', 'Iterator::Seek', 'Iterator::SeekToFirst'])):
            return 'the last entry is not looked up'
        it = it.pop()
        if not c_(it, 'DB::NewIterator') or not db(p, it[2][0]):
            return 'another database is searched'
        v = p.st.known(('call', 'leveldb::Iterator::Valid', (it,), 0))
        if v is not True and not nothing(p.ret):
            return 'an empty log has an entry: returns %s' % pp(p.ret)[:80]
        if v is not False:
            r = entry_of(p.items, p.ret)
            if r is None or not c_(r[0], 'Iterator::value') or unver(r[0][2][0]) != it:
                return 'returns %s instead of the last entry' % pp(p.ret)[:80]
        return None
    c.every(u, 'last entry', last)
    GET = call('DB::Get')

    def read_at(p, v):
        g = [s.ev for s in enc(p, GET)]
        if len(g) != 1 or not db(p, g[0].obj) or not is_index(p.items, g[0], g[0].args[1], A(0), p.st):
            return 'the entry of the given index is not looked up'
        g = g[0]
        k = holds(okc(result(g)), Ctx(p.st, p.items))
        if k is not True and not nothing(v):
            return ('a missing entry is answered with %s' % pp(v)[:80], g)
        if k is not False:
            r = entry_of(p.items, v)
            s = r[0] if r else VOID
            if s[0] != 'new' or not s[2] or s[2][0][0] != 'loc':
                return ('returns %s instead of the entry of the index' % pp(v)[:80], g)
            o = p.st.load(s[2][0])
            full = len(s[2]) == 1 or s[2][1] == ('size', o)
            if o[0] != 'out' or o[1] != result(g) or not full:
                return ('returns %s instead of the entry of the index' % pp(v)[:80], g)
        return None
    u = c.fn(LS + '::entry_at', **kw)
    c.every(u, 'entry of an index', lambda p: read_at(p, p.ret))
    u = c.fn(LS + '::term_at', **kw)
    c.every(u, 'term of an index', lambda p: read_at(p, p.ret[2][0]) if c_(p.ret, 'log_entry::get_term') else 'returns %s' % pp(p.ret)[:80])
    u = c.fn(LS + '::log_entries', **kw)

    def listed(p, R, lo, n):
        """R becomes the n entries starting at lo"""
        if R is None or R[0] != 'call' or R[1].split('::')[-1] not in ('cs_new', 'make_shared') or R[2] != (n,):
            return 'the list does not have room for exactly the requested entries'
        sk = [s.ev for s in enc(p, call('Iterator::Seek'))]
        if len(sk) != 1 or sk[0] not in p.items or not is_index(p.items, sk[0], sk[0].args[0], lo, p.st):
            return 'reading does not start at the first requested index'
        it = unver(sk[0].obj)
        if not c_(it, 'DB::NewIterator') or not db(p, it[2][0]):
            return 'another database is read'
        lps = [i for i in p.items if i.kind == 'loop' and any(e.kind == 'set' and e.obj[0] == 'at' and e.obj[1] == R for ed in i.edges for e in ed.items)]
        if len(lps) != 1 or lps[0].mode != 'all' or p.items.index(lps[0]) < p.items.index(sk[0]):
            return 'not all of the requested entries are read'
        lp = lps[0]
        for e in lp.edges:
            s = [i for i in e.items if i.kind == 'set' and i.obj[0] == 'at' and i.obj[1] == R]
            nx = [i for i in e.items if call('Iterator::Next')(i) and unver(i.obj) == it]
            if len(s) != 1 or len(nx) != 1 or any(call(['Iterator::Prev', 'Iterator::Seek', 'Iterator::SeekToFirst', 'Iterator::SeekToLast'])(i) for i in e.items):
                return ('not every step reads the next entry', lp)
            r = entry_of(e.items, s[0].args[0])
            if r is None or not c_(r[0], 'Iterator::value') or unver(r[0][2][0]) != it:
                return ('an entry is %s' % pp(s[0].args[0])[:80], s[0])
            if e.items.index(r[1]) > e.items.index(nx[0]):
                return ('the first entry is skipped', nx[0])
            i = s[0].obj[2]
            if lp.dom[0] == 'range':
                if lp.dom[1] != I_(0) or not (lp.dom[2] == ('size', R) or lp.dom[2] == n) or i != ('rix', lp.dom[1], lp.dom[2], lp.L):
                    return ('an entry is stored at another place', s[0])
            elif lp.dom[0] == 'each' and R in lp.dom[1:]:
                if i != ('ix', lp.dom[1], lp.L):
                    return ('an entry is stored at another place', s[0])
            elif i[0] == 'lv' and i[2] == lp.L:
                if lp.st.load(i[1]) != I_(0) or e.st.load(i[1]) != l_add(i, I_(1)):
                    return ('an entry is stored at another place', s[0])
                if not any(end in (n, ('size', R)) or p.st.known(compare('>=', end, m)) is True for end in (i, p.st.load(i[1])) for m in (n, ('size', R))):
                    return ('reading ends before the last requested entry', lp)
            else:
                return ('an entry is stored at another place', s[0])
        if [i for i in p.items if call('Iterator::Next')(i) and p.items.index(i) < p.items.index(lp)]:
            return ('the first entry is skipped', lp)
        return None

    def all_listed(p):
        n = l_add(A(1), neg(A(0)))
        return listed(p, p.ret, A(0), n)
    c.every(u, 'entries of a range', all_listed)

    # ---- writing
    u = c.fn(LS + '::append', **kw)

    def appended(p):
        w = one_write(p, 'DB::Put')
        if w is None:
            return 'the entry is not written once'
        if not is_index(p.items, w, w.args[1], NXT, p.st):
            return ('the entry is not stored at the next index', w)
        if not is_entry(p.items, w, w.args[2], A(0)):
            return ('something else than the entry is stored', w)
        if not stored(p, w):
            return ('an entry that was not stored counts as stored', w)
        s = [i for i in top(p.items) if i.kind == 'set' and i.obj == NXT]
        if p.st.load(NXT) != l_add(NXT, I_(1)):
            return ('the next index is not the following one', w)
        if not region(p, [w] + s, MUT):
            return ('the index can be taken twice', w)
        return None
    c.every(u, 'append', appended, Ret(NXT), Same(STA))
    u = c.fn(LS + '::write_at', **kw)

    def overwritten(p):
        w = one_write(p, 'DB::Write')
        if w is None:
            return 'the entry and the removals are not written at once'
        ops = enc(p, OPS)
        r = batch_of(p, w, ops)
        if r:
            return r
        pu = [s for s in ops if qmatch('WriteBatch::Put', s.ev.q)]
        if len(pu) != 1 or pu[0].loops or not is_index(p.items, pu[0].ev, pu[0].ev.args[0], A(0), p.st) or not is_entry(p.items, pu[0].ev, pu[0].ev.args[1], A(1)):
            return ('the entry is not stored at the given index', w)
        rest = [s for s in ops if s is not pu[0]]
        lo = l_add(A(0), I_(1))
        for s in rest:
            if not qmatch('WriteBatch::Delete', s.ev.q) or not index_loop(p, s, lo, NXT):
                return ('other entries than the later ones are removed', s.ev)
        if not rest and p.st.known(compare('<=', NXT, lo)) is not True:
            return ('the later entries are kept', w)
        if not stored(p, w):
            return ('an entry that was not stored counts as stored', w)
        s = [i for i in top(p.items) if i.kind == 'set' and i.obj == NXT]
        if p.st.load(NXT) != lo:
            return ('the next index is not the one after the entry', w)
        lk = [x.loops[0][0] for x in rest]
        if not region(p, [w] + s + lk, MUT):
            return ('another entry can be appended meanwhile', w)
        return None
    c.every(u, 'overwriting', overwritten, Same(STA))
    u = c.fn(LS + '::compact', **kw)
    gone = Lt(A(0), STA)

    def removed(p):
        w = one_write(p, 'DB::Write')
        if w is None:
            return 'the entries are not removed at once'
        ops = enc(p, OPS)
        r = batch_of(p, w, ops)
        if r:
            return r
        end = l_add(A(0), I_(1))
        for s in ops:
            if not qmatch('WriteBatch::Delete', s.ev.q) or not index_loop(p, s, STA, end):
                return ('other entries than the given ones are removed', s.ev)
        if not ops:
            return ('the entries are kept', w)
        if not stored(p, w):
            return ('entries that were not removed count as removed', w)
        if p.st.load(STA) != end:
            return ('the start is %s' % pp(p.st.load(STA))[:60], w)
        n = p.st.load(NXT)
        cur = NXT
        big = n == ('max', cur, end) or n == ('max', end, cur) or n[0] in ('op', 'call', 'max') and set(n[-2] if n[0] == 'call' else n[-1] if isinstance(n[-1], tuple) and n[0] == 'op' else n[1:]) == {cur, end}
        if not big and not (n == cur and p.st.known(compare('>=', cur, end)) is True) and not (n == end and p.st.known(compare('<=', cur, end)) is True):
            return ('the next index becomes %s' % pp(n)[:60], w)
        s = [i for i in top(p.items) if i.kind == 'set' and i.obj in (NXT, STA)]
        if not region(p, [w] + s + [x.loops[0][0] for x in ops], MUT):
            return ('the log changes meanwhile', w)
        return None
    c.cases(u, 'compaction', [
        ('nothing left to remove', gone, [Never(WRITES), Same(STA), Same(NXT), Ret(TRUE)]),
        ('removal', Not(gone), [removed, Ret(TRUE)]),
    ])

    # ---- moving entries to another node
    u = c.fn(LS + '::pack', **kw)
    SER = 'buffer_serializer::'
    PUT = M(lambda e: e.kind == 'call' and qmatch([SER + n for n in ('put_u64', 'put_raw', 'put_u8', 'put_u16', 'put_u32', 'put_bytes', 'put_buffer', 'put_str', 'put_i32', 'put_i64', 'put_i8', 'put_i16')], e.q), 'write')
    cnt = A(1)

    def packed(p):
        R = p.ret
        if not c_(R, 'buffer::alloc'):
            return 'returns %s' % pp(R)[:80]
        src = [i for i in subterms_of(p) if i[0] == 'call' and i[1].split('::')[-1] in ('cs_new', 'make_shared')]
        E = next((t for t in src if t[2] == (cnt,)), None)
        r = listed(p, E, A(0), cnt)
        if r:
            return r
        ev = enc(p, PUT)
        if len(ev) != 3 or ev[0].loops or not qmatch(SER + 'put_u64', ev[0].ev.q) or ev[0].ev.args[0] not in (cnt, ('size', E)):
            return 'the number of entries is not written first'
        a, b = ev[1:]
        if len(a.loops) != 1 or len(b.loops) != 1 or a.loops[0][0] is not b.loops[0][0] or a.loops[0][0].mode != 'all':
            return ('not every entry is written', ev[0].ev)
        lp, ed = a.loops[0]
        if lp not in p.items or len(lp.edges) != 1 or p.items.index(lp) < p.items.index(ev[0].ev):
            return ('not every entry is written', lp)
        sz, raw = a.ev, b.ev
        if not qmatch(SER + 'put_u64', sz.q) or not c_(sz.args[0], 'buffer::size') or not qmatch([SER + 'put_raw'], raw.q):
            return ('an entry is not written as its length and its bytes', sz)
        buf = sz.args[0][2][0]
        if not c_(raw.args[0], 'buffer::data_begin') or raw.args[0][2][0] != buf or raw.args[1] != sz.args[0]:
            return ('an entry is not written as its length and its bytes', raw)
        x = X(lp.dom, lp.L)
        # a prepared array of as many buffers, gone through by position
        whole = lp.dom == ('range', I_(0), cnt) and buf[0] == 'at' and buf[1][0] == 'vec' and buf[1][2] == (cnt,) and buf[2] == ('rix', I_(0), cnt, lp.L)
        if whole:
            C = next((i.obj[1] for f in p.items[:p.items.index(lp)] if f.kind == 'loop' for e in f.edges for i in e.items if i.kind == 'set' and i.obj[0] == 'at' and i.obj[1][0] == 'loc'), None)
        if whole or lp.dom[0] == 'each' and lp.dom[1][0] == 'loc' and buf != ('call', 'nuraft::log_entry::serialize', (x.e,), 0):
            # buffers prepared before
            C = C if whole else lp.dom[1]
            fill = [i for i in p.items[:p.items.index(lp)] if i.kind == 'loop' and i.mode == 'all' and i.dom[0] == 'each' and unver(i.dom[1]) == E]
            okf = False
            for f in fill:
                y = X(f.dom, f.L)
                good = all(len([i for i in e.items if i.kind in ('set', 'mut') and (i.obj[0] == 'at' and i.obj[1] == C or i.obj == C)]) == 1 for e in f.edges)
                for e in f.edges:
                    for i in e.items:
                        if i.kind in ('set', 'mut') and (i.obj[0] == 'at' and i.obj[1] == C or i.obj == C):
                            val = i.args[-1]
                            place = i.kind == 'mut' and i.q in ('push_back', 'emplace_back', 'append') or i.kind == 'set' and i.obj[2] == ('ix', f.dom[1], f.L)
                            good = good and place and c_(val, 'log_entry::serialize') and unver(val[2][0]) == y.e
                okf = okf or good
            if not okf:
                return ('the written entries are not the requested ones', lp)
            if not whole and not (buf[0] == 'elem' and buf[-1] == lp.L):
                return ('another entry is written', raw)
        else:
            if unver(lp.dom[1]) != E or not c_(buf, 'log_entry::serialize') or unver(buf[2][0]) != x.e:
                return ('the written entries are not the requested ones', lp)
        bs = unver(p.st.load(unver(sz.obj)))
        if bs[0] == 'new' and R not in bs[2]:
            return ('the result is not what was written', sz)
        return room(p, R[2][0], E)

    def room(p, n, E):
        """8 bytes, and for each entry 8 bytes and its size"""
        d = lin(n)
        base, per, tot = d.pop(None, 0), 0, None
        for t in list(d):
            if t in (cnt, ('size', E)):
                per += d.pop(t)
        if len(d) != 1:
            return 'the result does not have exactly the room needed'
        (t, k), = d.items()
        if t[0] != 'lv' or k != 1:
            return 'the result does not have exactly the room needed'
        lp = next((i for i in p.items if i.kind == 'loop' and i.L == t[2]), None)
        if lp is None or lp.mode != 'all' or unver(lp.dom[1]) != E and not (lp.dom[1][0] == 'loc'):
            return 'the result does not have exactly the room needed'
        i0 = lp.st.load(t[1])
        for e in lp.edges:
            inc = lin(l_add(e.st.load(t[1]), neg(t)))
            add = inc.pop(None, 0)
            if len(inc) != 1 or list(inc.values()) != [1] or not c_(list(inc)[0], 'buffer::size') or i0[0] != 'i' or base + i0[1] != 8 or per + add != 8:
                return ('the result does not have exactly the room needed', lp)
        return None
    c.every(u, 'packing entries', packed)
    u = c.fn(LS + '::apply_pack', **kw)
    GETS = M(lambda e: e.kind == 'call' and qmatch([SER + n for n in ('get_u64', 'get_raw', 'get_u8', 'get_u16', 'get_u32', 'get_bytes', 'get_buffer', 'get_str', 'get_i32', 'get_i64', 'pos')], e.q), 'read')

    def unpacked(p):
        g = enc(p, GETS)
        if len(g) != 3 or g[0].loops or not qmatch(SER + 'get_u64', g[0].ev.q):
            return 'the number of entries is not read first'
        n = result(g[0].ev)
        a, b = g[1:]
        if len(a.loops) != 1 or a.loops[0][0] is not (b.loops[0][0] if b.loops else None) or not qmatch(SER + 'get_u64', a.ev.q) or not qmatch([SER + 'get_buffer'], b.ev.q):
            return ('an entry is not read as its length and its bytes', g[0].ev)
        lp, ed = a.loops[0]
        if lp.mode != 'all' or lp.dom[0] != 'range' or l_add(lp.dom[2], neg(lp.dom[1])) != n or len(lp.edges) != 1:
            return ('not as many entries are read as were packed', lp)
        bf = b.ev.args[0]
        if not c_(bf, 'buffer::alloc') or bf[2][0] != result(a.ev):
            return ('an entry is read with another length', b.ev)
        w = one_write(p, 'DB::Write')
        if w is None:
            return 'the entries are not written at once'
        ops = enc(p, OPS)
        r = batch_of(p, w, ops)
        if r:
            return r
        if len(ops) != 1 or not qmatch('WriteBatch::Put', ops[0].ev.q) or not index_loop(p, ops[0], A(0), l_add(A(0), n)):
            return ('the entries are not stored at the given indexes', w)
        lp2, ed2 = ops[0].loops[0]
        sb = slice_bytes(ed2.items, ops[0].ev, ops[0].ev.args[1])
        if sb is None or not c_(sb[0], 'buffer::data_begin') or not (c_(sb[1], 'buffer::size') and sb[1][2] == sb[0][2]) or not c_(sb[0][2][0], 'log_entry::serialize'):
            return ('an entry is not stored completely', w)
        e = unver(sb[0][2][0][2][0])

        def is_read(v):
            return c_(v, 'log_entry::deserialize') and (v[2][0] == bf or v[2][0][0] == 'out' and c_(v[2][0][1], SER + 'get_buffer') and v[2][0][1][2][1:] == (bf,))
        i2 = ('rix', lp2.dom[1], lp2.dom[2], lp2.L)
        if not is_read(e):
            st_ = [i for i in ed.items if i.kind in ('set', 'mut') and i.args and is_read(i.args[-1])]
            if lp2 is lp or len(st_) != 1 or e[0] not in ('at', 'elem') or e[0] == 'at' and e[2] != l_add(i2, l_add(lp.dom[1], neg(lp2.dom[1]))):
                return ('an entry is stored at the index of another', w)
            i = st_[0]
            ix = ('rix', lp.dom[1], lp.dom[2], lp.L)
            if i.kind == 'set' and (i.obj[0] != 'at' or i.obj[2] != ix):
                return ('an entry is stored at the index of another', i)
        if not stored(p, w):
            return ('entries that were not stored count as stored', w)
        return edges(p, w)
    c.every(u, 'unpacking entries', unpacked)

    # ---- flush
    u = c.fn(LS + '::flush')

    def flushed(p):
        w = one_write(p, 'DB::Write')
        if w is None:
            return 'nothing is written through'
        d = dict((k[0][1], v) for k, v in opts(w.args[0]).items())
        if d.get('sync') != TRUE:
            return ('the write does not wait for the disk', w)
        ops = enc(p, OPS)
        r = batch_of(p, w, ops)
        if r:
            return r
        if not ops or not qmatch('WriteBatch::Delete', ops[-1].ev.q) or any(not zero(p, s) for s in ops):
            return ('the flush changes the log', w)
        k = holds(okc(result(w)), Ctx(p.st, p.items))
        if p.ret != result(w) and not (k is True and p.ret == TRUE or k is False and p.ret == FALSE):
            return ('claims to be done although it failed', w)
        return None

    def zero(p, s):
        sl = s.ev.args[0]
        if sl[0] != 'new' or len(sl[2]) != 2 or sl[2][1] != I_(8) or sl[2][0][0] != 'loc':
            return False
        v = s.ev.st.load(sl[2][0])
        return v[0] == 'new' and not v[2] or v[0] == 'list' and all(x == I_(0) for x in v[1]) or v == I_(0)
    c.every(u, 'flush', flushed)
    c.discipline(LS, ['m_db_mut'], ['m_next_idx', 'm_start_idx', 'm_db'], inline=HELP)


def opts(t):
    """the fields set on an option object"""
    out = {}
    while t[0] == 'with':
        for k, v in t[2]:
            out.setdefault(k if isinstance(k[0], tuple) else (k,), v)
        t = t[1]
    return out


def subterms_of(p):
    for i in top(p.items):
        for t in ((i.obj,) if i.obj else ()) + tuple(i.args or ()):
            yield from subterms(t)
    for i in p.items:
        if i.kind == 'loop':
            for e in i.edges:
                for j in e.items:
                    if j.kind != 'loop' and j.obj:
                        yield from subterms(j.obj)


def lin(t):
    """{term: coefficient, None: constant}"""
    if t[0] == 'i':
        return {None: t[1]}
    if t[0] == 'lin':
        d = {None: t[1]}
        d.update(t[2])
        return d
    return {None: 0, t: 1}


# ---- files
FILEIO = [r'basic_ofstream', r'basic_ostream::(write|flush|put)', r'basic_ifstream', r'basic_istream::(read|get)', r'^std::filesystem::']


def concat(t):
    """the parts of a string"""
    if t[0] == 'op' and t[1] == '+':
        return [x for y in t[2] for x in concat(y)]
    if t[0] == 'new' and len(t[2]) == 1 and 'basic_string' in t[1]:
        return concat(t[2][0])
    if t[0] == 's':
        return [('s', x) for x in t[1]]
    return [t]


def flags(t):
    if t[0] == 'op' and t[1] == '|':
        r = [flags(x) for x in t[2]]
        return None if None in r else __import__('functools').reduce(lambda a, b: a | b, r)
    if t[0] == 'enum':
        t = t[2] if isinstance(t[2], tuple) else I_(t[2])
    return t[1] if t[0] == 'i' else None


def opened(p, kind):
    return [i for i in top(p.items) if i.kind == 'call' and i.q.split('::')[-1] == kind and i.ret and i.ret[0] == 'new']


def on(p, loc, q):
    return [i for i in top(p.items) if i.kind == 'call' and i.obj is not None and unver(i.obj) == loc and i.q.split('::')[-1] in q]


def file_var(p, o):
    """the variable that holds the opened file"""
    locs = {unver(i.obj) for i in top(p.items) if i.kind == 'call' and i.obj is not None and 'fstream' in i.q + str(i.fid) and unver(i.obj)[0] == 'loc'}
    locs |= {unver(i.obj) for i in top(p.items) if i.kind == 'call' and i.obj is not None and i.q.split('::')[-1] in ('write', 'read', 'close', 'flush') and unver(i.obj)[0] == 'loc'}
    return locs


def published(p, data, final, excl=None, serialised=None):
    """data is written to a temporary file, which replaces the final one only
    once it is complete"""
    o = opened(p, 'basic_ofstream')
    if len(o) != 1 or len(o[0].args) < 2:
        return 'not written to one new file'
    o = o[0]
    fl = flags(o.args[1])
    if fl is None or fl & 1 or fl & 8 or not fl & 4:
        return ('the file is opened in the wrong mode', o)
    tmp = o.args[0]
    if concat(tmp) == concat(final):
        return ('the old file is overwritten before the new one is complete', o)
    vs = file_var(p, o)
    if len(vs) != 1:
        return ('the file is not written', o)
    f = vs.pop()
    wr, cl = on(p, f, ('write', 'put')), on(p, f, ('close',))
    if serialised is None:
        if len(wr) != 1 or not raw_of(p, wr[0], data):
            return ('the content written is not exactly the object', o)
    else:
        r = serialised(p, o)
        if r:
            return r
    if len(cl) != 1 or wr and p.items.index(cl[0]) < p.items.index(wr[0]):
        return ('the file is renamed before it is closed', o)
    rn = [i for i in top(p.items) if i.kind == 'call' and i.q.endswith('filesystem::rename')]
    if len(rn) != 1 or concat(rn[0].args[0]) != concat(tmp) or concat(rn[0].args[1]) != concat(final):
        return ('the file does not become the one that is read', o)
    rn = rn[0]
    if p.items.index(rn) < p.items.index(cl[0]):
        return ('the file is renamed before it is closed', rn)
    v = rn.st.load(f)
    good = [('has', v), ('call', 'std::basic_ios::good', (v,), 0), ('call', 'std::basic_ios::operator bool', (v,), 0)]
    bad = [('call', 'std::basic_ios::fail', (v,), 0), ('call', 'std::basic_ios::bad', (v,), 0), ('call', 'std::basic_ios::operator!', (v,), 0)]
    if not any(rn.st.known(g) is True for g in good) and not any(rn.st.known(b) is False for b in bad):
        return ('the file replaces the old one although it may be incomplete', rn)
    if len(rn.args) > 2:
        e = ('call', 'std::error_code::operator bool', (('out', result(rn), 2, 1),), 0)
        if not any(c_(k, 'error_code::operator bool') and k[2][0][0] == 'out' and c_(k[2][0][1], 'filesystem::rename') and b is False for k, b in p.st.bools.items()) and p.st.known(e) is not False:
            return ('a failed rename counts as success', rn)
    return None


def raw_of(p, w, buf):
    """exactly the bytes of the buffer are written"""
    src, n = w.args[:2]
    size = lambda x: c_(x, 'buffer::size') and unver(x[2][0]) == buf
    if c_(src, 'buffer::data_begin') and unver(src[2][0]) == buf:
        return size(n)
    cp = [i for i in top(p.items[:p.items.index(w)]) if i.kind == 'call' and i.q in ('memcpy', 'std::memcpy') and i.args[0] == src]
    if len(cp) != 1 or not c_(cp[0].args[1], 'buffer::data_begin') or unver(cp[0].args[1][2][0]) != buf:
        return False
    return size(cp[0].args[2]) and (size(n) or n == ('size', w.st.load(src)))


def whole_file(p, path, ok=None):
    """(buffer with the complete content of the file, event) or a message"""
    o = opened(p, 'basic_ifstream')
    if len(o) != 1 or concat(o[0].args[0]) != concat(path):
        return 'another file is read'
    fl = flags(o[0].args[1]) if len(o[0].args) > 1 else None
    if fl is None or not fl & 4:
        return ('the file is not read as it is', o[0])
    vs = file_var(p, o[0])
    if len(vs) != 1:
        return ('the file is not read', o[0])
    rd = on(p, vs.pop(), ('read',))
    if len(rd) != 1:
        return ('the file is not read', o[0])
    rd = rd[0]
    dst, n = rd.args[:2]
    if c_(n, 'buffer::size') and c_(n[2][0], 'buffer::alloc'):
        n = n[2][0][2][0]
    if not c_(n, 'filesystem::file_size') or concat(n[2][0]) != concat(path):
        return ('the file is not read completely', rd)
    v = p.st.load(unver(rd.obj))
    okk = [('has', result(rd)), ('has', v), ('call', 'std::basic_ios::good', (v,), 0), ('call', 'std::basic_ios::operator bool', (v,), 0), ('call', 'std::basic_ios::operator bool', (result(rd),), 0)]
    bad = [('call', 'std::basic_ios::fail', (v,), 0), ('call', 'std::basic_ios::operator!', (v,), 0), ('call', 'std::basic_ios::operator!', (result(rd),), 0), ('call', 'std::basic_ios::fail', (result(rd),), 0)]
    if not any(p.st.known(k) is True for k in okk) and not any(p.st.known(k) is False for k in bad):
        return ('a failed read counts as success', rd)
    for i in top(p.items):
        if i.kind == 'call' and i.q in ('memcpy', 'std::memcpy') and i.args[1] == dst and c_(i.args[0], 'buffer::data_begin') and p.items.index(i) > p.items.index(rd):
            b = i.args[0][2][0]
            if not c_(b, 'buffer::alloc') or b[2][0] != n:
                return ('the content is not returned completely', i)
            if i.args[2] != n and not (c_(i.args[2], 'buffer::size') and i.args[2][2][0] == b):
                return ('the content is not returned completely', i)
            return b, i
    if c_(dst, 'buffer::data_begin') and c_(dst[2][0], 'buffer::alloc') and dst[2][0][2][0] == n:
        return dst[2][0], rd
    return ('the content is not returned', rd)


@prop('R02', files=[U_ + 'node.cpp', U_ + 'state_manager.cpp', 'uhs/twophase/locking_shard/controller.cpp'], assumptions=[
    'NuRaft implements the raft protocol: an accepted entry is applied once a quorum has stored it'])
def r02(c):
    """raft nodes: replication, identity, durable state, rpc endpoint"""
    NO, SM = RF + 'node', RF + 'state_manager'
    INST = F('m_raft_instance')
    APP = call('raft_server::append_entries', obj=INST)

    def offered(entry):
        def f(p):
            s = enc(p, call('raft_server::append_entries'))
            if len(s) != 1 or s[0].loops or unver(s[0].ev.obj) != INST:
                return 'the entry is not offered once'
            v = s[0].ev.args[0]
            if v[0] not in ('list', 'new') or tuple(v[2]) != (entry,):
                return ('something else than the entry is replicated', s[0].ev)
            return None
        return f

    def res(p):
        s = enc(p, call('raft_server::append_entries'))
        return result(s[0].ev) if len(s) == 1 else VOID

    def acc(p):
        return p.st.known(('call', 'nuraft::cmd_result::get_accepted', (res(p),), 0))
    u = c.fn(NO + '::replicate')
    READY = call('cmd_result::when_ready')

    def replicated(p):
        a, h = acc(p), p.st.known(('has', A(1)))
        w = enc(p, READY)
        if a is None or a is not (p.ret == TRUE) or p.ret not in (TRUE, FALSE):
            return 'returns %s although the entry was%s accepted' % (pp(p.ret)[:40], '' if a else ' not')
        if not a:
            return ('a callback for an entry that was not accepted', w[0].ev) if w else None
        if h is not False:
            if len(w) != 1 or unver(w[0].ev.obj) != res(p) or unver(w[0].ev.args[0]) != A(1):
                return 'the caller does not learn the result'
        elif w:
            return ('an empty callback is registered', w[0].ev)
        return None
    c.every(u, 'replicate', offered(A(0)), replicated)
    u = c.fn(NO + '::replicate_sync')

    def synced(p):
        r = res(p)
        good = acc(p) is True and p.st.known(compare('==', ('call', 'nuraft::cmd_result::get_result_code', (r,), 0), I_(0))) is True
        bad = acc(p) is False or p.st.known(compare('==', ('call', 'nuraft::cmd_result::get_result_code', (r,), 0), I_(0))) is False
        if not good and p.ret != NONE:
            return 'returns a result although replication failed'
        if not bad and not (p.ret[0] == 'some' and c_(p.ret[1], 'cmd_result::get') and unver(p.ret[1][2][0]) == r):
            return 'the result of the entry is not returned'
        return None
    c.every(u, 'replicate and wait', offered(A(0)), synced)
    u = c.fn(NO + '::is_leader', split=False)
    c.every(u, 'leadership', Ret(PR(lambda v: c_(v, 'raft_server::is_leader') and unver(v[2][0]) == INST)))
    u = c.fn(NO + '::last_log_idx')
    c.every(u, 'last index', Ret(PR(lambda v: c_(v, 'last_commit_index') and unver(v[2][0]) == F('m_sm'))))
    u = c.fn(NO + '::init')
    INIT = call('raft_launcher::init', obj=F('m_launcher'))
    blocking, async_ = c.enum('nuraft::raft_params::blocking'), c.enum('nuraft::raft_params::async_handler')
    from r_rls import same_enum

    def started(p):
        e = [s.ev for s in enc(p, INIT)]
        if len(e) != 1 or e[0] not in p.items:
            return 'the node is not started once'
        a = [unver(x) for x in e[0].args]
        for i, n in ((0, 'm_sm'), (1, 'm_smgr'), (3, 'm_port'), (4, 'm_asio_opt'), (6, 'm_init_opts')):
            if len(a) <= i or a[i] != F(n):
                return ('the node is started with another %s' % n, e[0])
        d = dict((k[0][1], v) for k, v in opts(e[0].args[5]).items())
        b = p.st.known(F('m_blocking'))
        want = blocking if b else async_
        if b is None or not same_enum(d.get('return_method_', VOID), I_(want)):
            return ('results are returned in another way than asked for', e[0])
        if d.get('auto_forwarding_') != FALSE:
            return ('followers forward entries', e[0])
        h = p.st.known(('has', result(e[0])))
        if p.ret == TRUE:
            if h is not True:
                return ('claims to run although starting failed', e[0])
            if p.st.load(INST) != result(e[0]):
                return ('the started node is not used', e[0])
            if p.st.known(('call', 'nuraft::raft_server::is_initialized', (result(e[0]),), 0)) is not True:
                return ('claims to run before it is initialised', e[0])
        elif p.ret != FALSE:
            return 'returns %s' % pp(p.ret)[:60]
        return None
    c.every(u, 'start', started)
    c.ob('start', any(p.ret == TRUE for p in u.rets), c.where(u), 'never succeeds')
    u = c.fn(NO + '::node')

    def ident(p):
        if p.st.load(F('m_node_id')) != A(0) or p.st.load(F('m_blocking')) != A(3) or p.st.load(F('m_sm')) != A(4):
            return 'the node does not keep what it is given'
        if p.st.load(F('m_port')) != F('second', at(A(1), A(0))):
            return 'the node listens on the port of another'
        m = p.st.load(F('m_smgr'))
        if m[0] != 'call' or len(m[2]) != 5:
            return 'no state manager'
        a = m[2]
        if a[0] != l_add(A(0), I_(1)):
            return 'the node has the id of another'
        if unver(a[4]) != A(1):
            return 'the node knows other peers'
        fs = [concat(x) for x in a[1:4]]
        if any(('call', 'std::to_string', (A(0),), 0) not in f or A(2) not in f for f in fs):
            return 'nodes share their files'
        if len({tuple(f) for f in fs}) != 3:
            return 'the files of a node are the same'
        s = [i for i in top(p.items) if i.kind == 'set' and i.obj == F('m_init_opts.raft_callback_')]
        if len(s) != 1 or s[0].args[0] != A(7):
            return 'leadership changes are not reported'
        return None
    c.every(u, 'identity', ident)
    c.every(c.fn(NO + '::stop'), 'stop', Does(call('raft_launcher::shutdown', obj=F('m_launcher'))))
    u = c.fn(NO + '::~node')
    c.every(u, 'destruction stops the node', Does(call('raft_launcher::shutdown', obj=F('m_launcher'))))

    # ---- state manager
    u = c.fn(SM + '::server_id')
    c.every(u, 'server id', Ret(F('m_id')))
    u = c.fn(SM + '::state_manager')

    def kept(p):
        for n, i in (('m_id', 0), ('m_log_dir', 1), ('m_config_file', 2), ('m_state_file', 3), ('m_raft_endpoints', 4)):
            if p.st.load(F(n)) != A(i):
                return '%s becomes %s' % (n, pp(p.st.load(F(n)))[:60])
        return None
    c.every(u, 'state manager', kept)
    inl = ['save_object', 'load_object']
    for f, m in (('save_config', 'm_config_file'), ('save_state', 'm_state_file')):
        u = c.fn(SM + '::' + f, inline=inl, eventful=FILEIO)

        def saved(p):
            ser = [t for i in top(p.items) for a in (i.args or ()) for t in subterms(a) if t[0] == 'call' and t[1].split('::')[-1] == 'serialize' and unver(t[2][0]) == A(0)]
            return published(p, ser[0], F(m)) if ser else 'the object is not written'
        c.every(u, 'saving ' + m[2:], saved)
    def first_config(p):
        R = p.ret
        if R[0] != 'call' or R[1].split('::')[-1] not in ('cs_new', 'make_shared') or R[2]:
            return 'returns %s' % pp(R)[:60]
        EP = F('m_raft_endpoints')
        lps = [i for i in p.items if i.kind == 'loop' and i.dom[0] == 'each' and unver(i.dom[1]) == EP]
        if len(lps) != 1 or lps[0].mode != 'all' or len(lps[0].edges) < 1:
            return 'not every endpoint becomes a member'
        lp = lps[0]
        x = X(lp.dom, lp.L)
        for e in lp.edges:
            m = [i for i in e.items if i.kind == 'mut' and i.q in ('push_back', 'emplace_back', 'append') and c_(unver(i.obj), 'get_servers') and unver(unver(i.obj)[2][0]) == R]
            if len(m) != 1:
                return ('not every endpoint becomes a member', lp)
            v = m[0].args[0]
            if v[0] != 'call' or len(v[2]) != 2 or v[2][0] != l_add(('ix', EP, lp.L), I_(1)):
                return ('a member has another id', m[0])
            ep = concat(v[2][1])
            want = [x.k, ('s', ':'), ('call', 'std::to_string', (x.v,), 0)]
            el = [F('first', x.e), ('s', ':'), ('call', 'std::to_string', (F('second', x.e),), 0)]
            if ep not in (want, el):
                return ('a member has another address: %s' % pp(v[2][1])[:90], m[0])
        return None

    for f, m in (('read_state', 'm_state_file'), ('load_config', 'm_config_file')):
        u = c.fn(SM + '::' + f, inline=inl, eventful=FILEIO)
        c.ob('loading ' + m[2:], any(c_(p.ret, 'deserialize') or (p.ret[0] == 'call' and p.ret[1].split('::')[-1] == 'deserialize') for p in u.rets), c.where(u), 'the stored object is never returned')

        def loaded(p):
            if p.ret[0] == 'call' and p.ret[1].split('::')[-1] == 'deserialize':
                r = whole_file(p, F(m))
                if not isinstance(r[0], tuple):
                    return r
                if p.ret[2][0] != r[0]:
                    return ('another object is returned', r[1])
                return None
            o = opened(p, 'basic_ifstream')
            if len(o) != 1 or concat(o[0].args[0]) != [F(m)]:
                return 'the stored object is not looked up'
            # not there
            vs = file_var(p, o[0])
            no = [k for k, b in p.st.bools.items() if (b is False and (c_(k, 'basic_ios::good') or k[0] == 'has' or c_(k, 'is_open') or c_(k, 'operator bool'))
                                                       or b is True and (c_(k, 'basic_ios::fail') or c_(k, 'operator!')))]
            if not no:
                return ('a stored object is ignored', o[0])
            if f == 'read_state':
                return None if p.ret in (NONE, ('null',)) else 'returns %s' % pp(p.ret)[:60]
            return first_config(p)
        c.every(u, 'loading ' + m[2:], loaded)

    u = c.fn(SM + '::load_log_store', opaque=['log_store::load'])

    def opened_log(p):
        l = [s.ev for s in enc(p, call('log_store::load'))]
        if len(l) != 1 or l[0].args[0] != F('m_log_dir'):
            return 'the log of the node is not opened'
        k = p.st.known(result(l[0]))
        if k is not True and p.ret not in (NONE, ('null',)):
            return ('a log that cannot be opened is used', l[0])
        if k is not False and p.ret != unver(l[0].obj):
            return ('another log is used', l[0])
        return None
    c.every(u, 'opening the log', opened_log)

    # ---- rpc endpoint
    RS = RF + 'rpc::server'
    u = c.fn(RS + '::request_handler', eventful=['put_raw'])
    lead = ('call', RF + 'node::is_leader', (F('m_impl'),), 0)
    REP = call('raft::node::replicate')
    cb = A(1)

    def handled(p):
        r = enc(p, REP)
        k = p.st.known(lead)
        if k is not True and (r or p.ret != FALSE):
            return 'a request is accepted without being the leader'
        if k is False:
            return None
        if len(r) != 1 or unver(r[0].ev.obj) != F('m_impl'):
            return 'the request is not replicated once'
        ev = r[0].ev
        b = unver(ev.args[0])
        if not c_(b, 'buffer::alloc') or not (c_(b[2][0], 'cbdc::buffer::size') and unver(b[2][0][2][0]) == A(0)):
            return ('the replicated entry is not the request', ev)
        w = [i for i in top(p.items) if i.kind == 'call' and qmatch('buffer_serializer::put_raw', i.q)]
        if len(w) != 1 or p.items.index(w[0]) > p.items.index(ev):
            return ('the replicated entry is not the request', ev)
        d, n = w[0].args[:2]
        if not (c_(d, 'cbdc::buffer::data') and unver(d[2][0]) == A(0)) or not (c_(n, 'cbdc::buffer::size') and unver(n[2][0]) == A(0)):
            return ('the replicated entry is not the request', w[0])
        if p.ret != result(ev) and not (p.ret in (TRUE, FALSE) and p.st.known(result(ev)) is (p.ret == TRUE)):
            return ('claims a request is handled that was not accepted', ev)
        return None
    c.every(u, 'requests are replicated', handled, Never(invoke(cb)))
    k = c.closure(u, REP)
    r_, err = A(0, k.depth), A(1, k.depth)

    def answered(p):
        iv = enc(p, invoke(cb))
        if len(iv) != 1 or iv[0].loops:
            return 'the client is answered %d times' % len(iv)
        v = iv[0].ev.args[0]
        e = p.st.known(('has', err))
        got = ('call', 'nuraft::cmd_result::get', (r_,), 0)
        g = [s.ev for s in enc(p, call('cmd_result::get'))]
        h = p.st.known(('has', result(g[0]))) if g else None
        if e is not False and v != NONE:
            return ('a failure is answered with a result', iv[0].ev)
        if e is False and h is not True and v != NONE:
            return ('an answer although there is no result', iv[0].ev)
        if e is not True and (not g or h is not False):
            if not g:
                return ('the result is not looked at', iv[0].ev)
            R = result(g[0])
            ap = [s.ev for s in enc(p, call('cbdc::buffer::append'))]
            if len(ap) != 1 or ap[0].args[:2] != (('call', 'nuraft::buffer::data_begin', (R,), 0), ('call', 'nuraft::buffer::size', (R,), 0)):
                return ('the client gets something else than the result', iv[0].ev)
            held = unver(iv[0].ev.st.load(unver(ap[0].obj))) if unver(ap[0].obj)[0] == 'loc' else VOID
            if not any(t == ap[0].obj or unver(t) == unver(ap[0].obj) for t in subterms(v)) and unver(v) != held and v != ('some', held):
                return ('the client gets something else than the result', iv[0].ev)
        return None
    c.every(k, 'results are answered', answered)
    u = c.fn(RS + '::register_raft_node', opaque=['request_handler'])
    c.every(u, 'registration', Final(F('m_impl'), A(0)))
    hk = c.closure(u, sets(F('m_callback')))
    RH = call(RS + '::request_handler')

    def handed(p):
        h = [s.ev for s in enc(p, RH)]
        if len(h) != 1 or tuple(unver(x) for x in h[0].args[:2]) != (A(0, hk.depth), A(1, hk.depth)):
            return 'a request is not handled once'
        if p.ret != result(h[0]) and not (p.ret in (TRUE, FALSE) and p.st.known(result(h[0])) is (p.ret == TRUE)):
            return ('the outcome of handling is not reported', h[0])
        return None
    c.every(hk, 'registration', handed)


SA = 'cbdc::atomizer::state_machine'


@prop('R03', files=['uhs/atomizer/atomizer/state_machine.cpp'], assumptions=['rename replaces a file atomically'])
def r03(c):
    """snapshots of the atomizer state"""
    for n in ('m_atomizer', 'm_blocks', 'm_last_committed_idx', 'm_snapshot_dir', 'm_snp_mut', 'm_stxo_cache_depth'):
        c.field(SA, n)
    SMUT = F('m_snp_mut')

    def idx(s):
        return ('call', 'nuraft::snapshot::get_last_log_idx', (s,), 0)

    def path_of(i):
        return ('op', '+', (('op', '+', (F('m_snapshot_dir'), ('s', '/'))), ('call', 'std::to_string', (i,), 0)))

    def norm(t):
        """drop versions"""
        if not isinstance(t, tuple):
            return t
        if t and t[0] == 'ver':
            return norm(t[1])
        return tuple(norm(x) for x in t)

    def guarded(p, mode):
        io = [i for i in top(p.items) if i.kind == 'call' and (i.q.endswith(('filesystem::rename', 'directory_iterator', 'basic_ofstream', 'basic_ifstream', '::close', '::write', '::read')))]
        for i in io:
            if not any(l[0] == SMUT and l[1] in mode for l in i.st.locks):
                return ('snapshot files are accessed without the lock', i)
        if not region(p, io, SMUT):
            return 'snapshot files are accessed in more than one step'
        return None

    # ---- taking one
    u = c.fn(SA + '::create_snapshot', eventful=FILEIO)

    def content_(p, o):
        w = [i for i in top(p.items) if i.kind == 'call' and i.q.endswith('operator<<') and len(i.args) == 2 and i.args[0][0] == 'new' and i.args[0][1].endswith('ostream_serializer')]
        if len(w) != 1 or w[0].args[0][2][0] != o.ret:
            return ('the snapshot is not written', o)
        d = dict(w[0].args[1][2]) if w[0].args[1][0] == 'obj' else {}
        if d.get('m_atomizer') != F('m_atomizer') or d.get('m_blocks') != F('m_blocks'):
            return ('the snapshot has another state', w[0])
        s = norm(d.get('m_snp', VOID))
        if s != A(0) and not (c_(s, 'snapshot::deserialize') and c_(s[2][0], 'snapshot::serialize') and s[2][0][2][0] == A(0)):
            return ('the snapshot has another index', w[0])
        if not any(c_(k, 'operator bool') and k[2][0][0] == 'out' and k[2][0][1] == result(w[0]) and b for k, b in p.st.bools.items()):
            return ('an incomplete snapshot counts as written', w[0])
        return None

    def taken(p):
        q = NormPath(p, norm)
        r = published(q, None, path_of(idx(A(0))), serialised=lambda _, o: content_(p, next(i for i in top(p.items) if i.line == o.line and i.q == o.q)))
        return r
    c.every(u, 'taking a snapshot', taken, lambda p: guarded(p, 'x'))

    def reported(p):
        iv = enc(p, invoke(A(1)))
        if len(iv) != 1 or iv[0].loops or iv[0].ev.args[0] != TRUE or iv[0].ev.args[1] not in (NONE, ('null',)):
            return 'the snapshot is not reported as taken'
        rn = [i for i in top(p.items) if i.kind == 'call' and i.q.endswith('filesystem::rename')]
        if not rn or p.items.index(rn[0]) > p.items.index(iv[0].ev):
            return ('the snapshot is reported before it exists', iv[0].ev)
        return None
    c.every(u, 'a taken snapshot is reported', reported)

    def pruned(p):
        rm = [s for s in enc(p, M(lambda e: e.kind == 'call' and e.q.split('::')[-1] in ('remove', 'remove_all') and 'filesystem' in e.q, 'removal'))]
        rn = [i for i in top(p.items) if i.kind == 'call' and i.q.endswith('filesystem::rename')]
        for s in rm:
            if s.ev.q.endswith('remove_all') or len(s.loops) != 1:
                return ('other files than old snapshots are removed', s.ev)
            lp, e = s.loops[0]
            if not rn or lp not in p.items or p.items.index(lp) < p.items.index(rn[0]):
                return ('old snapshots are removed before the new one exists', s.ev)
            ok = False
            for k, (lo, hi, _) in e.st.bounds.items():
                ts = {norm(t): co for t, co in k}
                old = [t for t in ts if c_(t, 'stoull') or c_(t, 'stoul')]
                if len(old) == 1 and set(ts) == {old[0], idx(A(0))}:
                    co = ts[old[0]]
                    if co > 0 and hi is not None and hi < 0 or co < 0 and lo is not None and lo > 0:
                        ok = True
            for k, (lo, hi, _) in e.st.bounds.items():
                if lo == hi == 0 and {t for t, _ in k} & {('s', 'tmp'), F('m_tmp_file')} and any(c_(t, 'generic_string') or c_(t, 'string') for t, _ in k):
                    ok = True
            if not ok:
                return ('a snapshot that is still needed may be removed', s.ev)
        return None
    c.every(u, 'old snapshots', pruned)

    # ---- receiving and sending one
    u = c.fn(SA + '::save_logical_snp_obj', eventful=FILEIO)
    c.every(u, 'receiving a snapshot', lambda p: published(p, A(2), path_of(idx(A(0)))), lambda p: guarded(p, 'x'), Final(A(1), l_add(A(1), I_(1))))
    u = c.fn(SA + '::read_logical_snp_obj', eventful=FILEIO)

    def sent(p):
        o = opened(p, 'basic_ifstream')
        if len(o) != 1 or concat(o[0].args[0]) != concat(path_of(idx(A(0)))):
            return 'another snapshot is sent'
        if p.ret[0] == 'i' and p.ret[1] < 0:
            return ('claims to send a snapshot it does not have', o[0]) if enc(p, sets(A(3))) else None
        if p.ret != I_(0):
            return 'returns %s' % pp(p.ret)[:40]
        r = whole_file(p, path_of(idx(A(0))))
        if not isinstance(r[0], tuple):
            return r
        if p.st.load(A(3)) != r[0]:
            return ('something else than the snapshot is sent', r[1])
        if p.st.load(A(4)) != TRUE:
            return ('the receiver waits for more', r[1])
        return None
    c.every(u, 'sending a snapshot', sent, lambda p: guarded(p, 'xs'))
    c.ob('sending a snapshot', any(p.ret == I_(0) for p in u.rets), c.where(u), 'never succeeds')

    # ---- reading
    u = c.fn(SA + '::read_snapshot', eventful=FILEIO)
    newest = Eq(A(0), I_(0))
    DIR = F('m_snapshot_dir')

    def read(p):
        o = opened(p, 'basic_ifstream')
        z = holds(newest, Ctx(p.st, p.items))
        if z is None:
            return 'the newest and a given snapshot are not told apart'
        which = A(0)
        if z:
            lps = [i for i in p.items if i.kind == 'loop']
            if len(lps) != 1 or lps[0].mode != 'all' or lps[0].dom[0] != 'each' or not any(c_(t, 'x') or t == DIR for t in subterms(lps[0].dom[2] if len(lps[0].dom) > 2 else lps[0].dom[1])):
                return 'not all snapshots are considered'
            lp = lps[0]
            best = {q for e in lp.edges for q, v in e.st.mem.items() if q[0] == 'loc' and any(c_(t, 'stoull') or c_(t, 'stoul') for t in subterms(v)) and lp.st.load(q) == I_(0)}
            if len(best) != 1:
                return ('the newest snapshot is not looked for', lp)
            best = best.pop()
            old = ('lv', best, lp.L)
            for e in lp.edges:
                v = e.st.load(best)
                n = next((t for x in list(e.st.bools) + [k for b in e.st.bounds for k, _ in b] + [v] for t in subterms(x) if c_(t, 'stoull') or c_(t, 'stoul')), None)
                if v == old:
                    if n is not None and e.st.known(compare('<=', n, old)) is True:
                        continue
                    if n is None and any(t == ('s', 'tmp') or t == F('m_tmp_file') for x in list(e.st.bools) + [k for b in e.st.bounds for k, _ in b] for t in subterms(x)):
                        continue
                    return ('a newer snapshot is ignored', lp)
                elif v[0] == 'call' and v[1] == 'max' and set(v[2][:2]) == {n, old}:
                    continue
                elif v != n or e.st.known(compare('>', n, old)) is not True and e.st.known(compare('>=', n, old)) is not True:
                    return ('an older snapshot is taken for a newer one', lp)
            which = old
            if p.st.known(compare('==', old, I_(0))) is not False and p.ret != NONE:
                return 'a snapshot although there is none'
            if p.ret == NONE:
                return None if p.st.known(compare('==', old, I_(0))) is True else 'there is a snapshot, but none is returned'
        if len(o) != 1 or concat(o[0].args[0]) != concat(path_of(which)):
            return 'another snapshot is read'
        if p.ret == NONE:
            return None if any(b is False and (c_(k, 'basic_ios::good') or k[0] == 'has' or c_(k, 'is_open') or c_(k, 'operator bool')) or b is True and c_(k, 'fail') for k, b in p.st.bools.items()) else ('an existing snapshot is not returned', o[0])
        rd = [i for i in top(p.items) if i.kind == 'call' and i.q.endswith('operator>>') and i.args[0][0] == 'new' and i.args[0][1].endswith('istream_serializer')]
        if len(rd) != 1 or rd[0].args[0][2][0] != o[0].ret:
            return ('the snapshot is not read', o[0])
        rd = rd[0]
        if not any(c_(k, 'operator bool') and k[2][0][0] == 'out' and k[2][0][1] == result(rd) and b for k, b in p.st.bools.items()):
            return ('an unreadable snapshot is used', rd)
        v = p.ret[1] if p.ret[0] == 'some' else p.ret
        v = unver(v)
        if not (v[0] == 'out' and v[1] == result(rd)):
            return ('something else than the snapshot is returned: %s' % pp(p.ret)[:60], rd)
        d = dict(rd.args[1][2]) if rd.args[1][0] == 'obj' else {}
        a = d.get('m_atomizer', VOID)
        if a[0] == 'heap':
            ctor = a
        ok = any(t == F('m_stxo_cache_depth') for x in (a, p.st.load(a) if a[0] == 'heap' else a) for t in subterms(x)) or any(
            i.kind == 'call' and any(t == F('m_stxo_cache_depth') for y in i.args for t in subterms(y)) for i in top(p.items))
        if not ok:
            return ('the restored atomizer remembers another number of blocks', rd)
        return None
    c.every(u, 'reading a snapshot', read, lambda p: guarded(p, 'xs'))
    c.ob('reading a snapshot', any(p.ret != NONE for p in u.rets), c.where(u), 'never succeeds')
    u = c.fn(SA + '::apply_snapshot', opaque=['state_machine::read_snapshot$'])
    R = ('call', SA + '::read_snapshot', (('this',), idx(A(0))), 0)

    def applied(p):
        r = [s.ev for s in enc(p, call('state_machine::read_snapshot'))]
        t = result(r[0]) if r else next((x for x in p.st.bools if x[0] == 'has' and c_(x[1], 'read_snapshot')), (0, VOID))[1]
        if not c_(t, 'read_snapshot') or t[2][-1] != idx(A(0)):
            return 'the given snapshot is not read'
        h = p.st.known(('has', t))
        if h is None or p.ret not in (TRUE, FALSE) or (p.ret == TRUE) is not h:
            return 'returns %s' % pp(p.ret)[:40]
        want = {'m_atomizer': F('m_atomizer', t), 'm_blocks': F('m_blocks', t), 'm_last_committed_idx': idx(A(0))}
        for n, v in want.items():
            w = v if h else F(n)
            if p.st.load(F(n)) != w:
                return '%s becomes %s' % (n, pp(p.st.load(F(n)))[:60])
        return None
    c.every(u, 'applying a snapshot', applied)
    u = c.fn(SA + '::last_snapshot', opaque=['state_machine::read_snapshot$'])

    def lastsnp(p):
        t = next((x for x in p.st.bools if x[0] == 'has' and c_(x[1], 'read_snapshot')), (0, VOID))[1]
        if not c_(t, 'read_snapshot') or t[2][-1] != I_(0):
            return 'the newest snapshot is not read'
        h = p.st.known(('has', t))
        if h and p.ret != F('m_snp', t) or not h and p.ret not in (NONE, ('null',)):
            return 'returns %s' % pp(p.ret)[:40]
        return None
    c.every(u, 'newest snapshot', lastsnp)
    u = c.fn(SA + '::state_machine', opaque=['state_machine::last_snapshot$', 'state_machine::apply_snapshot$'])

    def restored(p):
        l = next((x for x in p.st.bools if x[0] == 'has' and c_(x[1], 'last_snapshot')), (0, VOID))[1]
        if not c_(l, 'last_snapshot'):
            return 'the newest snapshot is not looked up'
        h = p.st.known(('has', l))
        a = [s.ev for s in enc(p, call('state_machine::apply_snapshot'))]
        if h is False:
            return ('a snapshot that does not exist is applied', a[0]) if a else None
        if len(a) != 1 or unver(a[0].args[0]) != l:
            return 'the newest snapshot is not applied'
        if p.st.known(result(a[0])) is not True:
            return ('starts with a snapshot that was not applied', a[0])
        return None
    c.every(u, 'restart', restored)
    c.every(u, 'restart', lambda p: None if p.st.load(F('m_snapshot_dir')) == A(1) and p.st.load(F('m_stxo_cache_depth')) == A(0) else 'the settings are not kept')


class NormPath:
    """a path whose event arguments have their versions dropped"""

    def __init__(self, p, norm):
        import copy
        self.items = []
        for i in p.items:
            if i.kind != 'loop' and i.args:
                j = copy.copy(i)
                if i.kind == 'call':
                    j.args = tuple(norm(a) for a in i.args)
                self.items.append(j)
            else:
                self.items.append(i)
        self.st, self.ret, self.kind = p.st, p.ret, p.kind
