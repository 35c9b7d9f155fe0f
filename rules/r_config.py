"""Configuration: what the options are read from, and what is accepted."""
from lib import *

CF = 'cbdc::config::'
P_ = CF + 'parser'
O, CFG = A(0), A(1)
KEYS = [r'cbdc::config::get_\w+_(key|prefix)$']
FILE = ['util/common/config.cpp']


# ------------------------------------------------------------------ strings
def pieces(t):
    """what a text is put together from, literals merged"""
    if t[0] == 's':
        return [t]
    if t[0] == 'op' and t[1] == '+':
        r = []
        for x in t[2]:
            r += pieces(x)
        return merge(r)
    if t[0] == 'call' and t[1].split('::')[-1] == 'str' and len(t[2]) == 1 and t[2][0][0] == 'stream':
        r = []
        for x in t[2][0][1]:
            r += pieces(x)
        return merge(r)
    if t[0] == 'call' and t[1] == 'std::to_string':
        return [t[2][0]]
    if t[0] == 'new' and t[1].startswith('std::basic_string') and len(t[2]) == 1:
        return pieces(t[2][0])
    return [t]


def merge(ps):
    r = []
    for p in ps:
        if r and p[0] == 's' and r[-1][0] == 's':
            r[-1] = ('s', r[-1][1] + p[1])
        else:
            r.append(p)
    return r


def norm(t):
    """the same term with every composed text in one form"""
    if not isinstance(t, tuple) or not t:
        return t
    if isinstance(t[0], str):
        ps = pieces(t) if t[0] in ('op', 'call', 'new') else [t]
        if len(ps) > 1 or ps[0] is not t:
            if len(ps) == 1 and ps[0][0] == 's':
                return ps[0]
            return ('text', tuple(norm(p) for p in ps))
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


def text(*ps):
    ps = merge([('s', p) if isinstance(p, str) else p for p in ps])
    return ps[0] if len(ps) == 1 else ('text', tuple(ps))


def get(kind, *key):
    return ('call', P_ + '::get_' + kind, (CFG, text(*key)), 0)


def nocast(t):
    while t[0] == 'cast':
        t = t[-1]
    return t


class Know:
    """the facts of a state, over normalised terms"""

    def __init__(self, st):
        self.st = st
        self.b = {norm(k): v for k, v in st.bools.items()}

    def has(self, g):
        return self.b.get(('has', g))

    def cmp(self, op, g, n):
        """decides g op n for a normalised g"""
        for t in self.raws(g):
            r = self.st.known(compare(op, t, n))
            if r is not None:
                return r
        return None

    def raws(self, g):
        r = [g]
        for k in list(self.st.bools) + list(self.st.bounds):
            for s in subterms(k):
                if isinstance(s, tuple) and s and s[0] == g[0] and s not in r and norm(s) == g:
                    r.append(s)
        return r


def of_options(o):
    while isinstance(o, tuple) and o[0] in ('fld', 'at', 'elem'):
        if o == O:
            return True
        o = o[1]
    return o == O


def writes(items):
    """[(event, object, value)] of the direct writes to the options"""
    r = []
    for e in items:
        if isinstance(e, Loop) or e.kind not in ('set', 'mut') or not of_options(e.obj) or e.kind == 'mut' and e.q == 'ensure':
            continue
        o = norm(e.obj)
        if e.kind == 'set':
            r.append((e, o, norm(e.args[0])))
        elif len(e.args) == 2 and e.q in ('emplace', 'insert', 'insert_or_assign', 'put', 'try_emplace'):
            r.append((e, ('at', o, norm(e.args[0])), norm(e.args[1])))
        elif len(e.args) == 1 and e.q in ('push_back', 'push', 'emplace', 'insert', 'resize', 'add'):
            r.append((e, ('size' if e.q == 'resize' else 'more', o), norm(e.args[0])))
        else:
            r.append((e, o, ('?', e.q)))
    return r


class Row:
    """one write: obj takes val; needs: settings that must be there;
    when(k): whether it happens (True/False/None); other: value otherwise"""

    def __init__(self, obj, val, needs=(), when=None, other=None):
        self.obj, self.val, self.needs, self.when, self.other = obj, val, needs, when, other


def field(f):
    return F(f, O) if isinstance(f, str) else f


def req(f, kind, *key):
    g = get(kind, *key)
    return Row(('more', field(f)), g, [g])


def req_at(f, i, kind, *key):
    g = get(kind, *key)
    return Row(('more', ('at', field(f), i)), g, [g])


def level(f, *key):
    g = get('loglevel', *key)
    return Row(('more', field(f)), g, when=lambda k: k.has(g), other=LEVEL)


def scalar(f, kind, key):
    g = get(kind, key)
    return Row(field(f), g, when=lambda k: k.has(g))


def resized(f, n):
    return Row(('size', field(f)), n)


LEVEL = I_(3)


def agree(v, want, k):
    if want[0] == 'byte':
        return nocast(v) == want[1] and k.cmp('<=', want[1], I_(255)) is True
    if want[0] == 'obj':
        return v[0] == 'obj' and len(v[2]) == len(want[2]) and all(a[0] == b[0] and agree(a[1], b[1], k) for a, b in zip(v[2], want[2]))
    return nocast(v) == want


def table(c, u, rule, p, items, st, rows):
    """the writes among items are exactly those of the rows"""
    k = Know(st)
    exp = {r.obj: r for r in rows}
    seen = {}
    for e, o, v in writes(items):
        w = c.where(u, p, ('', e))
        r = exp.get(o)
        if r is None or o in seen:
            c.ob(rule, False, w, 'unexpected write of %s' % pp(o), p)
            continue
        seen[o] = v
        h = True if r.when is None else r.when(k)
        want = (r.val(k) if callable(r.val) else r.val) if h else r.other
        if h is None:
            c.ob(rule, False, w, '%s is set whether or not %s is given' % (pp(o), pp(r.val)), p)
        elif want is None:      # not given: at most written back
            c.ob(rule, nocast(v) == o, w, '%s changes although it is not given' % pp(o), p)
        else:
            c.ob(rule, agree(v, want, k), w, '%s is not %s' % (pp(o), pp(want)), p)
        for g in r.needs:
            c.ob(rule, k.has(g) is True, w, 'goes on without %s' % pp(g), p)
    for o, r in exp.items():
        if o not in seen:
            h = True if r.when is None else r.when(k)
            c.ob(rule, h is False and r.other is None, c.where(u, p), '%s is not set from %s' % (pp(o), pp(r.val) if isinstance(r.val, tuple) else 'the options it follows from'), p)


def index(lp):
    return norm(('rix', lp.dom[1], lp.dom[2], lp.L)) if lp.dom[0] == 'range' else None


def reader(c, name, scalars=(), count=None, cond=None, before=None, rows=None, nested=None, excuse=None, also=None):
    """one group of settings: scalars, and one element per declared index.
    rows(k, i): writes of element i; nested(i): (number of nodes, rows(j))"""
    u = c.fn(CF + name, inline=KEYS, eventful=['cbdc::hash_from_hex$'])
    rule = name + ': each option comes from its own setting'
    why = name + ': an error means that a required setting is missing or bad'
    n = get('ulong', count) if count else None
    for p in u.paths:
        k = Know(p.st)
        err = p.ret not in (NONE, VOID, None)
        loops = [i for i in p.items if isinstance(i, Loop)]
        on = n is not None and (cond is None or k.b.get(cond[0]) is cond[1])
        num = None if n is None else (n if k.has(n) else I_(0))
        if not err:
            top_rows = list(scalars) + (before(num) if before and on else []) + (also(k) if also else [])
            table(c, u, rule, p, p.items, p.st, top_rows)
            if on and not loops:
                c.ob(rule, k.has(n) is False, c.where(u, p), 'the elements declared by %s are not read' % count, p)
        excused = excuse is not None and err and excuse(p, k, None) is True
        for lp in loops[:1]:
            w = '%s:%d (%s)' % (u.f['file'], lp.line, short(u.name))
            i = index(lp)
            if not c.ob(rule, on and (len(loops) == 1 or err and nested is not None) and i is not None and k.has(n) is not None and norm(lp.dom) == ('range', I_(0), num), w, 'the elements visited are not those declared by %s' % count, p):
                continue
            c.ob(rule, err or lp.mode == 'all', w, 'stops early without an error', p)
            for e in lp.edges:
                ke = Know(e.st)
                rs = rows(ke, i)
                table(c, u, rule, p, e.items, e.st, rs)
                inner = [x for x in e.items if isinstance(x, Loop)]
                if nested is None:
                    c.ob(rule, not inner, w, 'unexpected loop', p)
                    continue
                m, nrows = nested(i)
                c.ob(rule, len(inner) == 1 and ke.has(m) is True, w, 'the declared nodes are not all read', p)
                for x in inner:
                    j = index(x)
                    if c.ob(rule, j is not None and norm(x.dom) == ('range', I_(0), m) and x.mode == 'all', w, 'the nodes visited are not those declared by %s' % pp(m), p):
                        for e2 in x.edges:
                            table(c, u, rule, p, e2.items, e2.st, nrows(j))
            for x in loops[1:]:     # the nodes of the element that is in error
                m, nrows = nested(i) if nested is not None else (None, None)
                j = index(x)
                if c.ob(rule, m is not None and j is not None and norm(x.dom) == ('range', I_(0), m), w, 'the nodes visited are not those declared by %s' % pp(m), p):
                    for e2 in x.edges:
                        table(c, u, rule, p, e2.items, e2.st, nrows(j))
            if err and lp.mode == 'some':
                miss = [g for r in rows(k, i) for g in r.needs if r.when is None or r.when(k) is True]
                if nested is not None:
                    m, nrows = nested(i)
                    miss.append(m)
                    for t in k.b:
                        if t[0] == 'has':
                            for s in subterms(t):
                                if isinstance(s, tuple) and s and s[0] == 'rix' and s != i:
                                    miss += [g for r in nrows(s) for g in r.needs]
                excused = any(k.has(g) is False for g in miss) or excuse is not None and excuse(p, k, i) is True
        if err:
            c.ob(why, excused, c.where(u, p), 'an error is reported although everything needed is there', p)
    return u


@prop('K01', files=FILE)
def k01(c):
    """options are read from the settings of their own name and index"""
    two = F('m_twophase_mode', O)
    ixk = lambda pre, *post: (lambda i: (pre, i) + post)

    # shards
    def shard_nodes(i):
        def rows(j):
            return [req_at('m_locking_shard_raft_endpoints', i, 'endpoint', 'shard', i, '_', j, '_raft_endpoint'),
                    req_at('m_locking_shard_endpoints', i, 'endpoint', 'shard', i, '_', j, '_endpoint'),
                    req_at('m_locking_shard_readonly_endpoints', i, 'endpoint', 'shard', i, '_', j, '_readonly_endpoint')]
        return get('ulong', 'shard', i, '_count'), rows
    reader(c, 'read_shard_endpoints', count='shard_count', cond=(two, True),
           before=lambda n: [resized(f, n) for f in ('m_locking_shard_endpoints', 'm_locking_shard_raft_endpoints', 'm_locking_shard_readonly_endpoints')],
           rows=lambda k, i: [], nested=shard_nodes)

    def shard_rows(k, i):
        s, e = get('ulong', 'shard', i, '_start'), get('ulong', 'shard', i, '_end')
        r = [level('m_shard_loglevels', 'shard', i, '_loglevel'),
             Row(('more', field('m_shard_ranges')), ('obj', '', (('first', ('byte', s)), ('second', ('byte', e)))), [s, e])]
        if k.b.get(two) is not True:
            r += [req('m_shard_endpoints', 'endpoint', 'shard', i, '_endpoint'), req('m_shard_db_dirs', 'string', 'shard', i, '_db')]
        return r

    pk = get('string', 'seed_privkey')
    frm, to = get('ulong', 'seed_from'), get('ulong', 'seed_to')

    def seeding(k):
        """whether a range of coins is to be seeded"""
        a = frm if k.has(frm) else F('m_seed_from', O)
        b = to if k.has(to) else F('m_seed_to', O)
        return k.cmp('!=', a, b)

    def seed_rows(k):
        s = seeding(k)
        if s is None:
            return [Row(field('m_seed_privkey'), ('?', 'undecided'))]
        if not s:
            return []
        return [Row(field('m_seed_privkey'), ('some', ('call', 'cbdc::hash_from_hex', (pk,), 0)), [pk]), scalar('m_seed_value', 'ulong', 'seed_value')]

    def shard_excuse(p, k, i):
        if i is not None:
            s, e = get('ulong', 'shard', i, '_start'), get('ulong', 'shard', i, '_end')
            return any(k.has(x) and k.cmp('>', x, I_(255)) is True for x in (s, e))
        return seeding(k) is True and (k.has(pk) is False or k.has(pk) is True and k.cmp('!=', ('size', pk), I_(64)) is True)
    u = reader(c, 'read_shard_options', count='shard_count', rows=shard_rows, excuse=shard_excuse, also=seed_rows, scalars=[
        scalar('m_shard_completed_txs_cache_size', 'ulong', 'shard_completed_txs_cache_size'),
        scalar('m_seed_from', 'ulong', 'seed_from'), scalar('m_seed_to', 'ulong', 'seed_to')])
    hexkeys(c, u)

    # coordinators
    def coord_nodes(i):
        def rows(j):
            return [req_at('m_coordinator_raft_endpoints', i, 'endpoint', 'coordinator', i, '_', j, '_raft_endpoint'),
                    req_at('m_coordinator_endpoints', i, 'endpoint', 'coordinator', i, '_', j, '_endpoint')]
        return get('ulong', 'coordinator', i, '_count'), rows
    reader(c, 'read_coordinator_options', count='coordinator_count', scalars=[scalar('m_coordinator_max_threads', 'ulong', 'coordinator_max_threads')],
           before=lambda n: [resized(f, n) for f in ('m_coordinator_endpoints', 'm_coordinator_raft_endpoints')],
           rows=lambda k, i: [level('m_coordinator_loglevels', 'coordinator', i, '_loglevel')], nested=coord_nodes)

    # sentinels
    at = get('ulong', 'attestation_threshold')

    def threshold(k, op):
        return k.cmp(op, at if k.has(at) else F('m_attestation_threshold', O), I_(0))

    def sent_rows(k, i):
        priv, pub = get('string', 'sentinel', i, '_private_key'), get('string', 'sentinel', i, '_public_key')
        r = [req('m_sentinel_endpoints', 'endpoint', 'sentinel', i, '_endpoint'),
             level('m_sentinel_loglevels', 'sentinel', i, '_loglevel'),
             Row(('at', F('m_sentinel_private_keys', O), i), ('call', 'cbdc::hash_from_hex', (priv,), 0), when=lambda k: k.has(priv))]
        wanted = True if k.has(pub) else threshold(k, '!=')     # without attestations keys are optional
        r.append(Row(('more', F('m_sentinel_public_keys', O)), ('call', 'cbdc::hash_from_hex', (pub,), 0), [pub], when=lambda k: wanted))
        return r

    def sent_excuse(p, k, i):
        if i is None:
            return False
        priv, pub = get('string', 'sentinel', i, '_private_key'), get('string', 'sentinel', i, '_public_key')
        return any(k.has(x) is True and k.cmp('!=', ('size', x), I_(64)) is True for x in (priv, pub))
    u = reader(c, 'read_sentinel_options', count='sentinel_count', rows=sent_rows, excuse=sent_excuse,
               scalars=[scalar('m_attestation_threshold', 'ulong', 'attestation_threshold')])
    hexkeys(c, u)

    # atomizers, archivers, watchtowers
    reader(c, 'read_atomizer_options', count='atomizer_count', scalars=[scalar('m_target_block_interval', 'ulong', 'target_block_interval'), scalar('m_stxo_cache_depth', 'ulong', 'stxo_cache_depth')],
           rows=lambda k, i: [req('m_atomizer_endpoints', 'endpoint', 'atomizer', i, '_endpoint'), level('m_atomizer_loglevels', 'atomizer', i, '_loglevel'),
                              req('m_atomizer_raft_endpoints', 'endpoint', 'atomizer', i, '_raft_endpoint')])
    reader(c, 'read_archiver_options', count='archiver_count',
           rows=lambda k, i: [req('m_archiver_endpoints', 'endpoint', 'archiver', i, '_endpoint'), level('m_archiver_loglevels', 'archiver', i, '_loglevel'),
                              req('m_archiver_db_dirs', 'string', 'archiver', i, '_db')])
    reader(c, 'read_watchtower_options', count='watchtower_count', scalars=[
        scalar('m_watchtower_block_cache_size', 'ulong', 'watchtower_block_cache_size'), scalar('m_watchtower_error_cache_size', 'ulong', 'watchtower_error_cache_size')],
        rows=lambda k, i: [req('m_watchtower_client_endpoints', 'endpoint', 'watchtower', i, '_client_endpoint'),
                           req('m_watchtower_internal_endpoints', 'endpoint', 'watchtower', i, '_internal_endpoint'), level('m_watchtower_loglevels', 'watchtower', i, '_loglevel')])

    # Raft, batching, load generation
    reader(c, 'read_raft_options', scalars=[scalar('m_' + f, 'ulong', f) for f in ('election_timeout_upper', 'election_timeout_lower', 'heartbeat', 'snapshot_distance', 'raft_max_batch', 'batch_size')])
    ic, oc = get('ulong', 'loadgen_sendtx_input_count'), get('ulong', 'loadgen_sendtx_output_count')

    def fixed(k):
        ns = [k.cmp('==', g if k.has(g) else F(f, O), I_(0)) for g, f in ((ic, 'm_input_count'), (oc, 'm_output_count'))]
        return FALSE if True in ns else TRUE if ns == [False, False] else ('?', 'undecided')

    reader(c, 'read_loadgen_options', scalars=[
        scalar('m_input_count', 'ulong', 'loadgen_sendtx_input_count'), scalar('m_output_count', 'ulong', 'loadgen_sendtx_output_count'),
        scalar('m_invalid_rate', 'decimal', 'loadgen_invalid_tx_rate'), scalar('m_fixed_tx_rate', 'decimal', 'loadgen_fixed_tx_rate'),
        scalar('m_window_size', 'ulong', 'window_size'), scalar('m_initial_mint_count', 'ulong', 'initial_mint_count'),
        scalar('m_initial_mint_value', 'ulong', 'initial_mint_value'), scalar('m_loadgen_count', 'ulong', 'loadgen_count'),
        Row(field('m_fixed_tx_mode'), fixed)])


def hexkeys(c, u):
    """only whole keys are decoded"""
    n = 0
    for p in u.paths:
        for s in enc(p, call('hash_from_hex')):
            n += 1
            g = norm(s.ev.args[0])
            k = Know(s.ev.st)
            c.ob('%s: only keys of the right length are decoded' % short(u.name), k.cmp('==', ('size', g), I_(64)) is True, c.where(u, p, ('', s.ev)), 'the length of the key is not checked', p)
    return n


READERS = ('read_sentinel_options', 'read_shard_endpoints', 'read_shard_options', 'read_atomizer_options', 'read_archiver_options',
           'read_watchtower_options', 'read_coordinator_options', 'read_raft_options', 'read_loadgen_options')


@prop('K02', files=FILE)
def k02(c):
    """only consistent configurations are accepted"""
    # every group is read into the same options; the first problem is reported
    u = c.fn(CF + 'read_options')
    rule = 'read_options: every group is read, and any error rejects the configuration'
    for p in u.rets:
        prev = None
        done_ = []
        calls = [e for e in top(p.items) if e.kind == 'call' and e.q.startswith(CF + 'read_')]
        failed = None
        for e in calls:
            w = c.where(u, p, ('', e))
            n = e.q[len(CF):]
            o = e.args[0]
            c.ob(rule, n in READERS and n not in done_, w, 'reads %s again' % n, p)
            if prev is None:
                tp = dict(o[2]).get('m_twophase_mode') if o[0] == 'obj' else None
                g = ('call', P_ + '::get_ulong', (('new', P_, (A(0),)), ('s', '2pc')), 0)
                k = p.st.known(('has', g))
                good = tp is not None and (tp == FALSE if k is False else k is True and same_truth(p.st, tp, compare('!=', g, I_(0))))
                c.ob('read_options: two-phase mode is chosen by the 2pc setting before anything depends on it', good, w, 'the mode is not set from 2pc', p)
            else:
                c.ob(rule, o[0] == 'out' and o[1][0] == 'call' and o[1][1] == prev.q and o[2] == 0, w, 'the options read so far are not passed on', p)
            c.ob(rule, e.args[1] == ('new', P_, (A(0),)), w, 'another file is read', p)
            c.ob(rule, failed is None, w, 'goes on after an error', p)
            if e.ret not in (VOID, None) and p.st.known(('has', e.ret)) is not False:
                failed = e
            done_.append(n)
            prev = e
        if failed is not None:
            c.ob(rule, p.ret[0] == 'var' and 'basic_string' in p.ret[1] and p.ret[2] == failed.ret, c.where(u, p), 'the error of %s is not returned' % failed.q, p)
        else:
            good = p.ret[0] == 'var' and p.ret[1] == CF + 'options' and p.ret[2][0] == 'out' and prev is not None and p.ret[2][1][1] == prev.q
            c.ob(rule, good and set(done_) == set(READERS), c.where(u, p), 'options are returned although %s' % ('nothing was read' if not done_ else 'not every group was read'), p)

    # the result is checked before anyone gets it
    u = c.fn(CF + 'load_options')
    ro = ('call', CF + 'read_options', (A(0),), 0)
    got = ('is', ro, CF + 'options')
    ck = ('call', CF + 'check_options', (('as', ro, CF + 'options'),), 0)
    c.cases(u, 'load_options: only checked options are handed out', [
        ('bad file', Not(got), [Ret(ro)]),
        ('rejected', And(got, Has(ck)), [Ret(PR(lambda t: t[0] == 'var' and 'basic_string' in t[1] and t[2] == ck))]),
        ('accepted', And(got, Not(Has(ck))), [Ret(PR(lambda t: t == ro or t == ('var', CF + 'options', ('as', ro, CF + 'options'))))])])

    # what is consistent
    u = c.fn(CF + 'check_options')
    f = lambda n: F(n, O)
    two = f('m_twophase_mode')
    thr = f('m_attestation_threshold')
    E = lambda n: Eq(Size(f(n)), I_(0))
    bad = Or(And(two, Or(E('m_sentinel_endpoints'), Lt(Size(f('m_sentinel_endpoints')), thr), E('m_locking_shard_endpoints'), E('m_coordinator_endpoints'))),
             And(Not(two), Or(E('m_watchtower_client_endpoints'), E('m_archiver_endpoints'), E('m_atomizer_endpoints'),
                              And(E('m_shard_endpoints'), Not(E('m_sentinel_endpoints'))))),
             Gt(f('m_seed_from'), f('m_seed_to')),
             And(Ne(f('m_seed_from'), f('m_seed_to')), Eq(f('m_seed_value'), I_(0))),
             Lt(Size(f('m_sentinel_public_keys')), thr))
    c.cases(u, 'check_options: exactly the consistent configurations are accepted', [
        ('inconsistent', bad, [Ret(PR(lambda t: t[0] == 'some'))]),
        ('consistent', Not(bad), [Ret(NONE)])])

    # which shard holds a coin
    u = c.fn(CF + 'hash_in_shard_range')
    b = ('at', A(1), I_(0))
    lo, hi = F('first', A(0)), F('second', A(0))
    c.cases(u, 'hash_in_shard_range: the first byte lies within the inclusive range', [
        ('inside', And(Ge(b, lo), Le(b, hi)), [Ret(TRUE)]),
        ('below', Lt(b, lo), [Ret(FALSE)]), ('above', Gt(b, hi), [Ret(FALSE)])])

    # load generators share the seeded coins without overlap
    u = c.fn(CF + 'loadgen_seed_range')
    n = F('m_loadgen_count', A(0))
    per = ('op', '/', (l_add(F('m_seed_to', A(0)), F('m_seed_from', A(0)), -1), n))
    start = l_add(F('m_seed_from', A(0)), ('op', '*', (A(1), per)))
    swap = l_add(F('m_seed_from', A(0)), ('op', '*', (per, A(1))))
    for p in u.rets:
        t = dict(p.ret[2]) if p.ret[0] == 'obj' else {}
        ok = t.get('first') in (start, swap) and t.get('second') == l_add(l_add(t['first'], per), I_(1), -1)
        c.ob('loadgen_seed_range: equal consecutive parts of the seeded range', ok, c.where(u, p), 'the parts are not [from + id*n, from + (id+1)*n - 1]', p)


def same_truth(st, a, b):
    if a == b:
        return True
    ka, kb = st.known(a) if a not in (TRUE, FALSE) else a == TRUE, st.known(b)
    return ka is not None and ka == kb


@prop('K03', files=FILE + ['util/common/logging.cpp', 'util/common/hash.cpp', 'util/common/buffer.cpp'])
def k03(c):
    """settings are looked up and decoded faithfully"""
    vt = P_ + '::'
    mo = F('m_options')

    # the environment overrides the file
    u = c.fn(vt + 'find_or_env', opaque=['parser::parse_value$'])
    rule = 'find_or_env: the upper-cased environment variable, else the setting of the file'
    for p in u.rets:
        env = [t for t in p.st.bools if t[0] == 'has' and is_call(t[1], 'getenv')]
        if not c.ob(rule, len(env) == 1, c.where(u, p), 'the environment is not consulted', p):
            continue
        g = env[0][1]
        name = g[2][0]
        c.ob(rule, uppercased(p, name), c.where(u, p), 'the variable is not named after the setting in upper case', p)
        inn = p.st.known(('in', mo, A(0)))
        if p.st.bools[env[0]]:
            ok = p.ret == ('some', ('call', vt + 'parse_value', (g,), 0))
        elif inn is True:
            ok = p.ret == ('some', ('at', mo, A(0)))
        else:
            ok = inn is False and p.ret == NONE
        c.ob(rule, ok, c.where(u, p), 'returns %s' % pp(p.ret), p)
        c.ob(rule, not any(mut(V('c'))(e) for e in allev(p.items)), c.where(u, p), 'the settings change', p)

    # quoted text, otherwise a number
    u = c.fn(vt + 'parse_value')
    n = Size(A(0))
    q = I_(34)
    for p in u.rets:
        isbare = all(p.st.known(compare('!=', ('at', A(0), i), q)) is True for i in (I_(0), l_add(n, I_(1), -1)))
        found = [v for v in (p.st.known(compare('!=', t, npos)) for t in [('call', 'std::basic_string::find', (A(0), x, I_(0)), 0) for x in (I_(46), ('s', '.'))] for npos in npos_in(p.st)) if v is not None]
        if isbare:
            want = None if not found else (('unsigned long', ('std::stoull', 'std::stoul')) if not found[0] else ('double', ('std::stod',)))
            ok = want is not None and p.ret[0] == 'var' and p.ret[1] == want[0] and nocast(p.ret[2])[0] == 'call' and nocast(p.ret[2])[1] in want[1] and nocast(p.ret[2])[2][0] == A(0)
        else:
            sub = ('call', 'std::basic_string::substr', (A(0), I_(1), l_add(n, I_(2), -1)), 0)
            ok = p.ret[0] == 'var' and 'basic_string' in p.ret[1] and nocast(p.ret[2]) == sub and any(p.st.known(compare('==', ('at', A(0), i), q)) is True for i in (I_(0), l_add(n, I_(1), -1)))
        c.ob('parse_value: quoted text without its quotes, otherwise a whole or decimal number', ok, c.where(u, p), 'returns %s' % pp(p.ret), p)

    # the value is used only as what it is
    for ty, tn in (('std::basic_string<char>', 'std::basic_string'), ('unsigned long', 'unsigned long'), ('double', 'double')):
        u = c.unit(getval(c, ty), opaque=['parser::find_or_env$'])
        v = ('call', vt + 'find_or_env', (THIS, A(0)), 0)
        for p in u.rets:
            h = p.st.known(('has', v))
            isv = [p.st.bools[t] for t in p.st.bools if t[0] == 'is' and t[1] == v and t[2].startswith(tn)]
            if h is True and isv == [True]:
                ok = p.ret[0] == 'some' and p.ret[1][0] == 'as' and p.ret[1][1] == v and p.ret[1][2].startswith(tn)
            else:
                ok = p.ret == NONE and (h is False or isv == [False])
            c.ob('get_val: the value found, if it is of the type asked for', ok, c.where(u, p), 'returns %s' % pp(p.ret), p)
    for fn, ty in (('get_string', 'std::basic_string<char>'), ('get_ulong', 'unsigned long'), ('get_decimal', 'double')):
        u = c.fn(vt + fn, opaque=['parser::get_val'], split=False)
        for p in u.rets:
            t = p.ret
            ok = t[0] == 'call' and t[1] == vt + 'get_val' and t[2][-1] == A(0)
            c.ob(fn + ': looks the key up as its own type', ok and calls_inst(c, vt + fn, ty), c.where(u, p), 'returns %s' % pp(t), p)
    for fn, dec in (('get_endpoint', CF + 'parse_ip_port'), ('get_loglevel', 'cbdc::logging::parse_loglevel')):
        u = c.fn(vt + fn, opaque=['parser::get_string$', 'parse_ip_port$', 'parse_loglevel$'])
        s = ('call', vt + 'get_string', (THIS, A(0)), 0)
        d = ('call', dec, (s,), 0)
        c.cases(u, fn + ': decodes the text of the setting', [
            ('missing', Not(Has(s)), [Ret(NONE)]),
            ('present', Has(s), [Ret(PR(lambda t, d=d: t == d or t == ('some', d)))])])

    # lines key=value; the first one of a key counts
    u = c.fn(vt + 'init', opaque=['parser::parse_value$'])
    rule = 'init: every key=value line of the file is kept'
    for p in u.rets:
        lps = [i for i in p.items if isinstance(i, Loop)]
        src = A(0)
        line = ('call', 'std::getline', (src,), 0)
        txt = ('out', line, 1, 0)
        if not c.ob(rule, len(lps) == 1, c.where(u, p), 'does not read the lines in one loop', p):
            continue
        lp = lps[0]
        c.ob(rule, p.st.known(good(line)) is False and lp.mode == 'all', c.where(u, p), 'stops before the end of the file', p)
        n = 0
        for e in lp.edges:
            rd = {}
            for t in list(e.st.bools):
                for s in subterms(t):
                    if is_call(s, 'getline') and s[2][0] != src and e.st.known(good(s)) is not None:
                        rd[s] = e.st.known(good(s))
            ins = [i for i in top(e.items) if i.kind == 'mut' and i.obj == mo and i.q != 'ensure']
            k0 = [s for s in rd if len(s[2]) == 2 and s[2][1] == I_(61) and s[3] == 0 and txt in s[2][0][2]]
            v0 = [s for s in rd if len(s[2]) == 1 and s[3] == 1 and k0 and s[2][0] == k0[0][2][0]]
            whole = len(k0) == 1 and rd[k0[0]] and len(v0) == 1 and rd[v0[0]]
            w = c.where(u, p)
            c.ob(rule, e.st.known(good(line)) is True, w, 'a line is used although none was read', p)
            if whole:
                n += 1
                ok = len(ins) == 1 and ins[0].q in ('emplace', 'insert', 'try_emplace') and ins[0].args == (('out', k0[0], 1, 0), ('call', vt + 'parse_value', (('out', v0[0], 1, 0),), 0))
                c.ob(rule, ok, w, 'the setting of a line is not kept as read', p)
            else:
                c.ob(rule, not ins and any(v is False for v in rd.values()), w, 'a line without key and value changes the settings', p)
        c.ob(rule, n > 0, c.where(u, p), 'no line is kept', p)

    # host:port
    u = c.fn(CF + 'parse_ip_port')
    for p in u.rets:
        f = dict(p.ret[2]) if p.ret[0] == 'obj' else {}
        h, po = f.get('first'), nocast(f.get('second', VOID))
        ok = False
        if h is not None and h[0] == 'out' and is_call(h[1], 'getline') and po[0] == 'call' and po[1] in ('std::stoul', 'std::stoull', 'std::stoi'):
            a, b = h[1], po[2][0]
            ok = a[2][0][0] == 'new' and a[2][0][2][0] == A(0) and a[2][1] == I_(58) and a[3] == 0 and b[0] == 'out' and is_call(b[1], 'getline') and b[1][2][0] == a[2][0] and b[1][3] == 1
        c.ob('parse_ip_port: host before, port after the first colon', ok, c.where(u, p), 'returns %s' % pp(p.ret), p)

    # log levels by name
    u = c.fn('cbdc::logging::parse_loglevel')
    lv = {n: c.enum('cbdc::logging::log_level::' + n.lower()) for n in ('TRACE', 'DEBUG', 'INFO', 'WARN', 'ERROR', 'FATAL')}
    seen = set()
    for p in u.rets:
        yes = [n for n in lv if p.st.known(compare('==', A(0), ('s', n))) is True]
        if p.ret == NONE:
            c.ob('parse_loglevel: exactly the level names', not yes and all(p.st.known(compare('==', A(0), ('s', n))) is False for n in lv), c.where(u, p), 'a level name is not known', p)
        else:
            c.ob('parse_loglevel: exactly the level names', len(yes) == 1 and p.ret[0] == 'some' and lvl(p.ret[1]) == lvl(lv[yes[0]]), c.where(u, p), 'another level', p)
            seen |= set(yes)
    c.ob('parse_loglevel: exactly the level names', seen == set(lv), c.where(u), 'a level name is not known')
    hexes(c)


def npos_in(st):
    return list({s for k in list(st.bools) + list(st.bounds) for s in subterms(k) if isinstance(s, tuple) and len(s) > 1 and s[-1] == 'npos' or isinstance(s, tuple) and len(s) > 1 and isinstance(s[1], str) and s[1].endswith('::npos')})


def lvl(v):
    return v[-1] if v[0] in ('enum', 'i') else v


def good(t):
    return ('call', 'std::basic_ios::operator bool', (t,), 0)


def getval(c, ty):
    for f in c.P.funcs.values():
        if f['q'].endswith('::parser::get_val<%s>' % ty) or f['q'].endswith('::parser::get_val') and ('get_val<%s>' % ty) in f['id']:
            return f
    raise Anchor('no get_val<%s>' % ty)


def calls_inst(c, fn, ty):
    for f in c.P.funcs.values():
        if f['q'] == fn and f.get('body'):
            return ('get_val<%s>' % ty) in repr(f['body'])
    return False


def uppercased(p, name):
    """the text `name` is the key with every character in upper case"""
    for i in p.items:
        if isinstance(i, Loop) and i.dom[0] == 'each' and i.mode == 'all' and name in (i.dom[1], ('ver', i.dom[1], i.L)) and i.dom[2] == A(0):
            return all([(e.obj, tuple(nocast(a) for a in e.args)) for e in ed.items if not isinstance(e, Loop)] in
                       [[(('elem', i.dom[1], i.L), (('call', f, (('elem', x, i.L),), 0),))] for f in ('toupper', 'std::toupper') for x in (A(0), i.dom[1])] for ed in i.edges)
    return False


def plainstream(t):
    """[pieces] of a text built in a stream, manipulators included"""
    return list(t[1]) if t[0] == 'stream' else []


def is_hexman(t):
    return t[0] == 'fref' and t[1].startswith('std::hex(')


def hexes(c):
    """bytes and their hexadecimal text"""
    for q, C in (('cbdc::to_string', A(0)), ('cbdc::buffer::to_hex', F('m_data'))):
        u = c.unit(next(f for f in c.P.funcs.values() if f['q'] == q and f.get('body') and ('array<unsigned char, 32>' in f['id'] or 'buffer' in q)))
        rule = short(q) + ': two hexadecimal digits per byte, in order'
        for p in u.rets:
            lps = [i for i in p.items if isinstance(i, Loop)]
            ok = len(lps) == 1 and lps[0].dom[0] == 'each' and lps[0].dom[2] == C and lps[0].mode == 'all'
            if c.ob(rule, ok, c.where(u, p), 'does not visit every byte', p):
                lp = lps[0]
                t = p.ret
                ok = is_call(t, '::str') or t[0] == 'call' and t[1].endswith('::str')
                acc = t[2][0] if ok else None
                ok = ok and acc[0] == 'lv' and acc[2] == lp.L
                if ok:
                    pre = plainstream(lp.st.load(acc[1]))
                    ok = len(pre) == 2 and any(is_hexman(x) for x in pre) and any(is_call(x, 'setfill') and x[2] == (I_(48),) for x in pre)
                    for e in lp.edges:
                        g = plainstream(e.st.load(acc[1]))
                        ok = ok and len(g) == 3 and g[0] == acc and is_call(g[1], 'setw') and g[1][2] == (I_(2),) and nocast(g[2]) == ('elem', lp.dom[1], lp.L)
                c.ob(rule, ok, c.where(u, p), 'the text is not two digits for each byte', p)

    u = c.fn('cbdc::buffer::to_hex_prefixed', opaque=['buffer::to_hex$'])
    for p in u.rets:
        c.ob('to_hex_prefixed: the prefix, then the digits', concat_of(p) == [A(0), ('call', 'cbdc::buffer::to_hex', (THIS,), 0)], c.where(u, p), 'returns %s' % pp(p.ret), p)

    # decoding: byte k is read from the digits 2k and 2k+1
    u = c.fn('cbdc::hash_from_hex')
    rule = 'hash_from_hex: each byte from its two digits, never more bytes than a hash has'
    for p in u.rets:
        lps = [i for i in p.items if isinstance(i, Loop)]
        if c.ob(rule, len(lps) == 1, c.where(u, p), 'not one pass over the text', p):
            lp = lps[0]
            for e in lp.edges:
                w = [i for i in top(e.items) if i.kind == 'set' and i.obj[0] == 'at']
                if c.ob(rule, len(w) == 1, c.where(u, p), 'an iteration does not decode one byte', p):
                    pos = digits(w[0].args[0])
                    iv = steps(lp, e, pos)
                    c.ob(rule, iv, c.where(u, p, ('', w[0])), 'the digits are not taken two by two', p)
                    if iv:
                        c.ob(rule, w[0].obj[2] == ('op', '/', (pos, I_(2))), c.where(u, p, ('', w[0])), 'the byte is stored elsewhere', p)
                        c.ob(rule, e.st.known(compare('<', pos, Size(A(0)))) is True, c.where(u, p, ('', w[0])), 'reads beyond the text', p)
                        c.ob(rule, e.st.known(compare('<', w[0].obj[2], I_(32))) is True, c.where(u, p, ('', w[0])), 'a longer text is decoded beyond the end of the hash', p)
            ends = [v for t in positions(lp) for v in (p.st.known(compare('<', t, Size(A(0)))), p.st.known(compare('<', ('op', '/', (t, I_(2))), I_(32))))]
            c.ob(rule, False in ends and lp.mode == 'all', c.where(u, p), 'stops before the end of the text', p)

    u = c.fn('cbdc::buffer::from_hex')
    rule = 'from_hex: pairs of hexadecimal digits only'
    n = 0
    for p in u.rets:
        even = p.st.known(compare('==', ('op', '%', (Size(A(0)), I_(2))), I_(0)))
        empty = p.st.known(compare('==', Size(A(0)), I_(0)))
        onlyhex = [p.st.known(compare('==', t, z)) for t in found_not_of(p.st) for z in npos_in(p.st)]
        lps = [i for i in p.items if isinstance(i, Loop)]
        if p.ret == NONE:
            big = p.st.known(compare('>', Size(A(0)), I_(102400)))
            failed = any(v is False and k[2][0][0] == 'stream' for k, v in p.st.bools.items() if is_call(k, 'operator bool'))
            c.ob(rule, empty is True or even is False or big is True or False in onlyhex or failed, c.where(u, p), 'rejects well-formed text', p)
            continue
        c.ob(rule, empty is False and even is True, c.where(u, p), 'accepts an empty or odd number of digits', p)
        c.ob(rule, onlyhex == [True], c.where(u, p), 'accepts characters that are not hexadecimal digits', p)
        if not c.ob(rule, len(lps) == 1 and lps[0].mode == 'all' and p.ret[0] == 'some', c.where(u, p), 'not one pass over the text', p):
            continue
        n += 1
        lp = lps[0]
        objs = set()
        for e in lp.edges:
            w = [i for i in top(e.items) if i.kind == 'mut']
            if c.ob(rule, len(w) == 1 and w[0].q in ('push_back', 'emplace_back', 'push'), c.where(u, p), 'an iteration does not add one byte', p):
                objs.add(w[0].obj)
                pos = digits(w[0].args[0])
                c.ob(rule, steps(lp, e, pos) and e.st.known(compare('<', pos, Size(A(0)))) is True, c.where(u, p, ('', w[0])), 'the digits are not taken two by two', p)
        ends = [p.st.known(compare('<', t, Size(A(0)))) for t in positions(lp)]
        c.ob(rule, ends == [False], c.where(u, p), 'stops before the end of the text', p)
        c.ob(rule, len(objs) == 1 and ('ver', list(objs)[0], lp.L) in list(subterms(p.ret)), c.where(u, p), 'returns something else', p)
    c.ob(rule, n > 0, c.where(u), 'nothing is decoded')


def concat_of(p):
    """pieces of the string a function returns, appended or added"""
    ps = pieces(p.ret)
    if len(ps) > 1:
        return ps
    app = [i for i in top(p.items) if i.kind == 'mut' and i.q in ('append', 'push_back')]
    t = p.ret
    objs = {i.obj for i in app}
    if len(objs) == 1 and (t == list(objs)[0] or t[0] == 'ver' and t[1] in objs or t[0] == 'with'):
        return [i.args[0] for i in app]
    return ps


def digits(t):
    """the position of the two digits a byte is read from"""
    t = nocast(t)
    if t[0] != 'call' or t[1] != 'std::operator>>' or t[3] != 0 or t[2][0][0] != 'stream':
        return None
    s = t[2][0][1]
    if len(s) != 2 or not is_hexman(s[0]) or not is_call(s[1], 'substr') or s[1][2][0] != A(0) or s[1][2][2] != I_(2):
        return None
    return s[1][2][1]


def steps(lp, e, pos):
    """pos starts at 0 and goes up by two with each iteration"""
    return pos is not None and pos[0] == 'lv' and pos[2] == lp.L and lp.st.load(pos[1]) == I_(0) and e.st.load(pos[1]) == l_add(pos, I_(2))


def positions(lp):
    r = []
    for e in lp.edges:
        for i in top(e.items):
            for a in i.args or ():
                d = digits(a)
                if d is not None and d not in r:
                    r.append(d)
    return r


def found_not_of(st):
    r = []
    for k in list(st.bools) + list(st.bounds):
        for s in subterms(k):
            if is_call(s, 'find_first_not_of') and s[2][0] == A(0) and s[2][1][0] == 's' and sorted(s[2][1][1]) == sorted('0123456789abcdefABCDEF') and s not in r:
                r.append(s)
    return r
