"""Rules over the whole program: lifetimes of what callbacks refer to, lock
order and blocking, and which mutex guards which field."""
from lib import *
import re
import facts as FXF
import astq
import locks

UNITS = FXF.all_units()
plain = astq.plain


def short_q(q):
    return plain(q).replace('cbdc::', '')


def tree(c):
    a = astq.Ast(c.P)
    for f in a.funcs:
        c.functions.add(f['b'])
    return a


# ---------------------------------------------------------------- lifetimes

def decl_of(a, f, vid):
    d = a.decl.get((a.root(f)['id'], vid))
    return d[0] if d else None


def strip(e):
    while isinstance(e, dict) and e.get('k') in ('cp', 'mv', 'cast', 'conv') and ('e' in e or 'o' in e):
        e = e.get('e') or e.get('o')
    return e


def rooted_outside(a, f, e, n=0):
    """the object an expression denotes belongs to *this, to a global, or is
    reached through a pointer: it does not die with the call"""
    e = strip(e)
    if n > 8 or not isinstance(e, dict):
        return False
    k = e.get('k')
    if k in ('this', 'gvar'):
        return True
    if k == 'mem':
        return bool(e.get('p')) or rooted_outside(a, f, e.get('o'), n + 1)
    if k == 'un' and e.get('op') == '*':
        return True
    if k == 'idx':
        return rooted_outside(a, f, e.get('o'), n + 1)
    if k == 'op' and e.get('op') in ('[]', '*', '->'):
        return rooted_outside(a, f, e['a'][0], n + 1)
    if k == 'var':
        d = decl_of(a, f, e['id'])
        if d is None:
            return False
        if d.get('static'):
            return True
        if d.get('k') == 'decl' and d.get('rk') in ('l', 'r', 'lr') and d.get('init'):
            return rooted_outside(a, f, d['init'], n + 1)
    return False


def local_refs(a, f, lam):
    """names of this call's own variables a closure would refer to"""
    out = []
    for c in lam['caps']:
        if c.get('this') or 'id' not in c:
            continue
        init = c.get('init')
        if c.get('ref'):
            src = init if c.get('ic') else dict(k='var', id=c['id'], n=c.get('n'))
            if not rooted_outside(a, f, src):
                out.append(c)
            continue
        # captured by value, but the value is the address of a local
        srcs = [init] if c.get('ic') else []
        d = decl_of(a, f, c['id'])
        if not c.get('ic') and d and d.get('k') == 'decl' and d.get('init'):
            srcs.append(d['init'])
        for s in srcs:
            s = strip(s)
            if not isinstance(s, dict):
                continue
            tgt = None
            if s.get('k') == 'un' and s.get('op') == '&':
                tgt = s['e']
            elif s.get('k') == 'call' and a.q(s['f']) in ('std::ref', 'std::cref', 'std::addressof') and s.get('a'):
                tgt = s['a'][0]
            if tgt is not None and not rooted_outside(a, f, tgt):
                out.append(c)
    return out


def block_of(a, n):
    """(enclosing block, index of the statement in it) chain, innermost first"""
    out = []
    while True:
        p, role, i = a.up(n)
        if p is None:
            return out
        if p.get('k') == 'block' and role == 's':
            out.append((p, i))
        n = p


def calls_in(a, o, pred):
    for n in astq.nodes(o):
        if n.get('k') in ('call', 'mcall', 'op', 'ctor') and n.get('f') and pred(a.q(n['f']), n):
            yield n


def bare_returns(a, s, ok):
    """return statements in s that are not under a condition accepted by ok"""
    if s.get('k') == 'return':
        return [s]
    if s.get('k') == 'lambda':
        return []
    if s.get('k') == 'if' and ok(s.get('c')):
        return bare_returns(a, s['b'], ok) if isinstance(s.get('b'), dict) else []
    out = []
    for _, _, v in astq.kids(s):
        out += bare_returns(a, v, ok)
    return out


FUT = re.compile(r'^std::(__basic_future|future|shared_future)::(get|wait)$')


def answered_here(a, f, lam, caps):
    """the creating call itself waits, without a time limit, for the callback
    to fulfil a promise, and the callback uses nothing of the call after that"""
    names = [c['id'] for c in caps]
    proms = [i for i in names if 'std::promise<' in (decl_of(a, f, i) or {}).get('t', '')]
    if not proms:
        return False
    root = a.root(f)
    futs = set()
    for n in f['_n']:
        if n.get('k') == 'decl' and isinstance(n.get('init'), dict):
            for x in calls_in(a, n['init'], lambda q, n: q.endswith('promise::get_future')):
                o = strip(x.get('o'))
                if isinstance(o, dict) and o.get('id') in proms:
                    futs.add(n['id'])
    # nothing of the call is used once the promise is fulfilled
    for g in a.bodies(lam):
        sets = [n for n in g['_n'] if n.get('k') == 'mcall' and a.q(n['f']).endswith('promise::set_value') and strip(n['o']).get('id') in proms]
        if not sets:
            return False
        for s in sets:
            for b, i in block_of(a, s):
                for later in b['s'][i + 1:]:
                    if any(x.get('k') == 'var' and x.get('id') in names for x in astq.nodes(later)):
                        return False
            p = a.up(s)
            while p[0] is not None:
                if p[0].get('k') in ('for', 'while', 'do', 'rfor'):
                    return False
                p = a.up(p[0])

    def waits(st):
        for n in calls_in(a, st, lambda q, n: FUT.match(q)):
            o = strip(n.get('o'))
            if isinstance(o, dict) and o.get('id') in futs:
                # not under a condition inside the statement
                p = a.up(n)[0]
                cond = False
                while p is not None and p is not st:
                    if p.get('k') in ('if', 'for', 'while', 'rfor', 'switch', 'cond', 'lambda'):
                        cond = True
                    p = a.up(p)[0]
                if not cond and st.get('k') not in ('if', 'for', 'while', 'rfor', 'switch'):
                    return True
        return False
    for b, i in block_of(a, lam):
        st = b['s'][i]
        got = None
        if st.get('k') == 'decls' and len(st['s']) == 1:
            got = st['s'][0]['id']

        def refused(cond):
            c = strip(cond)
            while isinstance(c, dict) and c.get('k') == 'tobool':
                c = strip(c['e'])
            return isinstance(c, dict) and c.get('k') == 'un' and c.get('op') == '!' and got is not None and any(x.get('id') == got for x in astq.nodes(c))
        for later in b['s'][i + 1:]:
            if waits(later):
                return True
            if bare_returns(a, later, refused):
                return False
        if a.up(b)[0] is None:
            break
    return False


def joined_here(a, f, lam):
    """the creating call joins the threads it gave the callback to before it
    returns"""
    def joins(q, n):
        return any(any(x.get('k') == 'mcall' and a.q(x['f']).endswith('thread::join') for x in g['_n']) for g in a.targets(n['f'], n.get('v')))
    own = a.up(lam)[0]
    while own is not None and own.get('k') in ('cp', 'mv', 'cast', 'ctor', 'conv'):
        own = a.up(own)[0]
    own = own['id'] if own is not None and own.get('k') == 'decl' else None
    for b, i in block_of(a, lam):
        for later in b['s'][i + 1:]:
            if any(x.get('k') == 'var' and x.get('id') == own for x in astq.nodes(later)):
                continue        # where the callback is given away
            if later.get('k') == 'expr' and any(True for _ in calls_in(a, later, joins)):
                return True
            if bare_returns(a, later, lambda c: False):
                return False
    return False


@prop('X01', files=UNITS, assumptions=[
    'standard algorithms, std::visit/std::apply, condition-variable predicates and bech32 ConvertBits run the callable they are given before they return',
    'references captured through `this` are the business of the object, not of this rule'])
def x01(c):
    a = tree(c)
    E = astq.Escape(a)
    if not any(f['b'].endswith('broker::impl::handle_lock') for f in a.funcs):
        raise Anchor('the broker is not part of the program')
    n = 0
    seen = {}
    for f in a.funcs:
        for lam in f['_n']:
            if lam.get('k') != 'lambda':
                continue
            caps = local_refs(a, f, lam)
            n += 1
            key = (f['file'], lam['l'], ','.join(x.get('n', '?') for x in caps))
            if key in seen and seen[key]:
                continue
            where = '%s:%d (%s)' % (f['file'].replace('/repo/', ''), lam['l'], short_q(a.root(f)['b']))
            if not caps:
                c.ob('callback keeps nothing of the call', True, where)
                continue
            esc = E.flow(lam)
            if not esc:
                c.ob('callback used only during the call', True, where)
                continue
            if answered_here(a, f, lam, caps) and all('thread' not in w for w, _ in esc):
                c.ob('call waits for its callback', True, where)
                continue
            if joined_here(a, f, lam):
                c.ob('call joins the threads running its callback', True, where)
                continue
            seen[key] = True
            why, at = sorted(set(esc))[0]
            c.ob('callback keeps nothing of the call', False, where,
                 'the callback refers to %s of the call that creates it, but is %s (%s)' % (', '.join('"%s"' % x.get('n', '?') for x in caps), why, at))
    c.nsites = n


# ---------------------------------------------------------------- locks

def recursive(c):
    out = set()
    for r in c.P.recs.values():
        for fl in r.get('fields', []):
            if 'recursive_mutex' in str(fl.get('t')):
                out.add(short_q(r['q'] + '::' + fl['n']))
    return out


def chain(a, how):
    return ' -> '.join(short_q(a.q(x)).split('::')[-1] if '::lambda' not in x else 'closure' for x in how)


@prop('X02', files=UNITS, assumptions=[
    'mutexes are told apart by class and member, not by object',
    'what a std::function of unknown origin does is not followed into; calling one under a non-recursive mutex is itself reported'])
def x02(c):
    a = tree(c)
    L = locks.Locks(c.P, a)
    rec = recursive(c)
    T = L.threads()
    nm = lambda ms: ', '.join(sorted(short_q(m) for m, _ in ms))
    edges = {}
    sites = 0
    for f in a.funcs:
        w = short_q(a.root(f)['b'])
        for what, data, held, node in L.acts[f['id']]:
            if what == 'field':
                continue
            at = '%s (%s)' % (a.at(node), w)
            if what == 'lock':
                sites += 1
                c.ob('mutexes are acquired', True, at)
                for m, s in data:
                    for h, hs in held:
                        edges.setdefault((short_q(h), short_q(m)), []).append((at, ''))
                continue
            if not held:
                continue
            plainly = [m for m, _ in held if short_q(m) not in rec]
            if what == 'call':
                for g in L.callees(data, node):
                    for m, (s, how) in L.takes[g['id']].items():
                        for h, hs in held:
                            edges.setdefault((short_q(h), short_q(m)), []).append((at, chain(a, how)))
                    for (d, x), how in L.does[g['id']].items():
                        blocking(c, a, L, T, d, x, held, plainly, at, chain(a, how), nm)
            else:
                blocking(c, a, L, T, what, data, held, plainly, at, '', nm)
    if sites < 50:
        raise Anchor('only %d lock sites found' % sites)
    for (h, m), v in sorted(edges.items()):
        if h == m:
            c.ob('a held mutex is not acquired again', h in rec, v[0][0],
                 '%s is acquired again (%s) by a thread that holds it' % (m, v[0][1] or 'here'))
    # a global order exists
    succ = {}
    for h, m in edges:
        if h != m:
            succ.setdefault(h, set()).add(m)
    for h, m in sorted(edges):
        if h == m:
            continue
        st, seen, cyc = [m], set(), False
        while st:
            x = st.pop()
            if x == h:
                cyc = True
                break
            if x in seen:
                continue
            seen.add(x)
            st += succ.get(x, ())
        at, how = edges[(h, m)][0]
        c.ob('mutexes are acquired in one global order', not cyc, at,
             '%s is acquired while %s is held (%s), and elsewhere the other way round' % (m, h, how or 'here'))


def blocking(c, a, L, T, what, data, held, plainly, at, how, nm):
    via = ' through ' + how if how else ''
    if what == 'callback':
        c.ob('no callback runs under a plain mutex', not plainly, at,
             'a callback is invoked%s while %s is held' % (via, ', '.join(short_q(m) for m in plainly)))
    elif what == 'future':
        c.ob('nothing waits for a result under a mutex', False, at, 'waits for a future%s while %s is held' % (via, nm(held)))
    elif what == 'wait':
        own = {short_q(x) for x in data} if data else set()
        other = [m for m, _ in held if short_q(m) not in own]
        c.ob('a condition is awaited with only its own mutex held', not other and own, at,
             'waits for a condition%s while %s is held' % (via, ', '.join(short_q(m) for m in other)))
    elif what == 'join':
        bodies = T.get(data, [])
        for g in bodies:
            for m, (s, chain_) in L.takes[g['id']].items():
                bad = [h for h, hs in held if short_q(h) == short_q(m) and not (hs and s)]
                c.ob('no thread is joined under a mutex it needs', not bad, at,
                     'joins a thread%s while holding %s, which that thread acquires (%s)' % (via, short_q(m), chain(a, chain_)))
        if not bodies:
            c.ob('threads joined under a mutex (body not resolved)', True, at)


# ---------------------------------------------------------------- discipline

GUARDED = {
    'atomizer::atomizer_raft': {'m_complete_mut': ['m_complete_txs'], 'm_txs_mut': ['m_txs']},
    'blocking_queue_internal': {'m_mut': ['m_buffer', 'm_wake']},
    'cache_set': {'m_mut': ['m_vals', 'm_eviction_queue']},
    'coordinator::controller': {'m_batch_mut': ['m_current_batch', 'm_current_txs'], 'm_shards_mut': ['m_shards'],
                                'm_start_mut': ['m_start_flag', 'm_stop_flag'], 'm_exec_mut': ['m_exec_threads']},
    'locking_shard::locking_shard': {'m_mut': ['m_uhs', 'm_locked', 'm_applied_dtxs', 'm_prepared_dtxs']},
    'network::connection_manager': {'m_peer_mutex': ['m_peers'], 'm_async_recv_mut': ['m_async_recv_data', 'm_async_recv_queues']},
    'network::peer': {'m_reconnect_mut': ['m_reconnect']},
    'parsec::agent::impl': {'m_mut': ['m_state', 'm_result', 'm_ticket_number', 'm_requested_locks', 'm_wounded', 'm_restarted', 'm_permanent_error', 'm_runner']},
    'parsec::agent::rpc::server_interface': {'m_agents_mut': ['m_agents']},
    'parsec::broker::impl': {'m_mut': ['m_tickets', 'm_recovery_tickets', 'm_highest_ticket']},
    'parsec::runtime_locking_shard::impl': {'m_mut': ['m_state', 'm_tickets']},
    'parsec::runtime_locking_shard::replicated_shard': {'m_mut': ['m_state', 'm_tickets']},
    'parsec::ticket_machine::rpc::client': {'m_mut': ['m_callbacks', 'm_tickets', 'm_fetching_tickets']},
    'raft::log_store': {'m_db_mut': ['m_db', 'm_next_idx', 'm_start_idx']},
    'random_source': {'m_mut': ['m_buf', 'm_sha', 'm_counter', 'm_seed', 'm_buf_idx']},
    'rpc::tcp_client': {'m_responses_mut': ['m_responses']},
    'sentinel::controller': {'m_rand_mut': ['m_rand', 'm_dist', 'm_shard_dist']},
    'sentinel_2pc::controller': {'m_rand_mut': ['m_rand', 'm_dist']},
    'shard::shard': {'m_snp_mut': ['m_snp', 'm_snp_height']},
    'thread_pool': {'m_mut': ['m_threads']},
    'transaction::wallet': {'m_utxos_mut': ['m_balance', 'm_utxos_set', 'm_spend_queue'],
                            'm_keys_mut': ['m_keys', 'm_pubkeys', 'm_witness_programs']},
    'watchtower::watchtower': {'m_bc_mut': ['m_bc'], 'm_ec_mut': ['m_ec']},
}
# set up before any other thread can reach the object
SETUP = {'sentinel::controller::init', 'sentinel_2pc::controller::init'}
# a thread marks its own slot, which nobody else writes meanwhile
SLOTS = {'coordinator::controller::m_exec_threads'}


@prop('X03', files=UNITS, assumptions=[
    'constructors, destructors and initialisation functions run before or after the threads that share the object',
    'fields are told apart by class and member; only accesses through `this` are decided'])
def x03(c):
    a = tree(c)
    L = locks.Locks(c.P, a)
    ent = L.entry()
    want = {}
    have = {}
    for r in c.P.recs.values():
        have.setdefault(short_q(r['q']), set()).update(fl['n'] for fl in r.get('fields', []))
    for cl, ms in GUARDED.items():
        if cl not in have:
            raise Anchor('no class ' + cl)
        for m, fs in ms.items():
            if m not in have[cl]:
                raise Anchor('no mutex %s::%s' % (cl, m))
            for fld in fs:
                if fld in have[cl]:
                    want[cl + '::' + fld] = cl + '::' + m
    n = {}
    for f in a.funcs:
        r = L.outer(f)
        if r.get('ctor') or '~' in r['b'] or short_q(r['b']) in SETUP or r['id'] in L.alone:
            continue
        w = short_q(a.root(f)['b'])
        for what, data, held, node in L.acts[f['id']]:
            if what != 'field' or node.get('o', {}).get('k') != 'this':
                continue
            fq = short_q(data)
            if fq not in want:
                continue
            n[fq] = n.get(fq, 0) + 1
            hold = {short_q(m): min(s for x, s in held | ent[f['id']] if x == m) for m, _ in held | ent[f['id']]}
            m = want[fq]
            at = '%s (%s)' % (a.at(node), w)
            if m not in hold:
                c.ob('guarded field is accessed under its mutex', False, at, '%s is accessed without %s' % (fq, m.split('::')[-1]))
            elif hold[m] and fq not in SLOTS and L.is_write(node):
                c.ob('guarded field is changed under the exclusive lock', False, at, '%s is changed while %s is only shared' % (fq, m.split('::')[-1]))
            else:
                c.ob('guarded field is accessed under its mutex', True, at)
    for fq in want:
        if not n.get(fq):
            c.ob('guarded field is used', True, fq)
