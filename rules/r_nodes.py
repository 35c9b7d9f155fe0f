"""Starting nodes: which configuration a daemon uses, when it serves."""
from lib import *
from r_tickets import leader_only

ARGS = ('call', 'cbdc::config::get_args', (A(0), A(1)), 0)
UO = 'cbdc::config::options'


def arg(i):
    return ('at', ARGS, I_(i))


def number(t):
    """the text a number was read from"""
    while t[0] == 'cast':
        t = t[2]
    return t[2][0] if is_call(t, 'std::stoull') or is_call(t, 'std::stoul') else None


def nocast(t):
    while t[0] == 'cast':
        t = t[2]
    return t


# daemon, class of the node, [(argument, endpoints of which it has to be one)], log levels
UHS = [
    ('uhs/twophase/coordinator/coordinatord.cpp', 'cbdc::coordinator::controller', ['m_coordinator_endpoints', 2, 3], [3, 2], 'm_coordinator_loglevels'),
    ('uhs/twophase/locking_shard/locking_shardd.cpp', 'cbdc::locking_shard::controller', ['m_locking_shard_endpoints', 2, 3], [2, 3], 'm_shard_loglevels'),
    ('uhs/twophase/sentinel_2pc/sentineld_2pc.cpp', 'cbdc::sentinel_2pc::controller', ['m_sentinel_endpoints', 2], [2], 'm_sentinel_loglevels'),
    ('uhs/atomizer/sentinel/sentineld.cpp', 'cbdc::sentinel::controller', ['m_sentinel_endpoints', 2], [2], 'm_sentinel_loglevels'),
    ('uhs/atomizer/shard/shardd.cpp', 'cbdc::shard::controller', ['m_shard_endpoints', 2], [2], 'm_shard_loglevels'),
    ('uhs/atomizer/archiver/archiverd.cpp', 'cbdc::archiver::controller', ['m_archiver_endpoints', 2], [2], 'm_archiver_loglevels'),
    ('uhs/atomizer/watchtower/watchtowerd.cpp', 'cbdc::watchtower::controller', ['m_watchtower_client_endpoints|m_watchtower_internal_endpoints', 2], [2], 'm_watchtower_loglevels'),
    ('uhs/atomizer/atomizer/atomizer-raftd.cpp', 'cbdc::atomizer::controller', ['m_atomizer_endpoints|m_atomizer_raft_endpoints', 2], [2], 'm_atomizer_loglevels'),
]


class Sub:
    """one daemon: main() of its own program"""

    def __init__(self, c, f):
        self.s = Check(c.prop, c.tier, c.seed)
        self.s.load(f)
        self.c = c
        self.file = f

    def main(self, **kw):
        u = self.s.fn('main', **kw)
        self.c.functions |= {self.file + ': ' + x if x == 'main' else x for x in self.s.functions}
        self.c.paths += len(u.paths)
        if self.file not in self.c.tus:
            self.c.tus.append(self.file)
        return u


def running(p):
    """the loop in which a started node waits, entered by this path"""
    out = []
    for i in p.items:
        if isinstance(i, Loop) and i.dom[0] == 'while' and any(e.kind == 'call' and qmatch(['sleep_for', 'sleep_until'], e.q) for ed in i.edges for e in ed.items if not isinstance(e, Loop)):
            out.append(i)
    return out


def serving(c, sub, u, rule, started):
    """a node that started runs until it is asked to stop; others end with an error"""
    n = 0
    for p in u.paths:
        ok = started(p)
        w = '%s: %s' % (sub.file, c.where(u, p))
        lp = running(p)
        if ok is not True:
            c.ob(rule, not lp, w, 'runs although it did not start', p)
            if ok is False and p.kind == 'ret':
                c.ob(rule, p.ret != I_(0), w, 'ends without an error although it could not start', p)
            continue
        n += 1
        if not c.ob(rule, len(lp) == 1, w, 'a started node does not wait for the end', p):
            continue
        for e in lp[0].edges:
            on = [q for q, v in e.st.bools.items() if q[0] == 'glob' and v is True]
            if not any(x.kind == 'call' and qmatch(['sleep_for', 'sleep_until'], x.q) for x in top(e.items)) and any(q[0] == 'glob' and v is False for q, v in e.st.bools.items()):
                continue
            c.ob(rule, len(on) == 1, w, 'waits without asking whether it should stop', p)
        out = [q for q, v in p.st.bools.items() if v is False and (q[0] == 'glob' or q[0] == 'call' and q[1].endswith('::running'))]
        c.ob(rule, len(out) >= 1, w, 'stops waiting without being asked to', p)
        # the interrupt asks it to stop
        sig = [s.ev for s in enc(p, call('signal'))]
        c.ob(rule, len(sig) == 1 and sig[0].args[0] == I_(2), w, 'an interrupt does not stop it', p)
    c.ob(rule, n > 0, sub.file, 'the node never starts')


def stops(c, sub, u, rule):
    """the interrupt handler clears the flag the node waits for"""
    for site, k in sub.s.closures(u, call('signal')):
        for p in k.rets:
            st = [e for e in allev(p.items) if e.kind in ('set', 'mut', 'call')]
            ok = any((e.kind == 'set' and e.obj[0] == 'glob' and e.args and e.args[0] == FALSE) or e.kind in ('call', 'mut') and e.obj is not None and e.obj[0] == 'glob' and FALSE in (e.args or ()) for e in st) \
                or any(q[0] == 'glob' and v == FALSE for q, v in p.st.mem.items())
            c.ob(rule, ok, sub.file, 'the interrupt handler does not ask the node to stop', p)


@prop('K04', files=['uhs/twophase/locking_shard/controller.cpp'])
def k04(c):
    """daemons start the node they were asked for, from a checked configuration"""
    for f, cls, idx, order, levels in UHS:
        sub = Sub(c, f)
        u = sub.main(opaque=['::controller::'])
        short_ = f.split('/')[-1][:-4]
        rule = short_ + ': starts the node of its identifiers from a checked configuration'
        cfg = ('call', 'cbdc::config::load_options', (arg(1),), 0)
        opts = ('as', cfg, UO)
        eps = [F(n, opts) for n in idx[0].split('|')]

        def chain(p, e, idx=idx):
            """whether every identifier names a configured node"""
            cur = e
            for a in idx[1:]:
                i = next((t for t in nums(p) if number(t) == arg(a)), None)
                if i is None:
                    return None
                k = p.st.known(compare('<', i, Size(cur)))
                if k is not True:
                    return k
                cur = ('at', cur, i)
            return True

        def nums(p):
            out = []
            for src in list(p.st.bounds) + list(p.st.mem.values()) + list(p.st.bools):
                for t in subterms(src):
                    if isinstance(t, tuple) and t and t[0] == 'call' and number(t) is not None and t not in out:
                        out.append(t)
            return out

        seen = 0
        inits = {}
        for p in u.paths:
            w = '%s: %s' % (f, c.where(u, p))
            started = [e for e in allev(p.items) if e.kind == 'call' and e.q == cls + '::init']
            good = p.st.known(('is', cfg, UO))
            ids = [chain(p, e) for e in eps]
            # what it is built from
            for v in list(p.st.mem.values()):
                for t in subterms(v):
                    if t[0] == 'new' and t[1] == cls:
                        seen += built(c, p, t, w, rule, good, ids, order, opts, levels, idx)
            for e in started:
                for t in subterms(e.ret):
                    if t[0] == 'new' and t[1] == cls:
                        seen += built(c, p, t, w, rule, good, ids, order, opts, levels, idx)
                inits[id(p)] = e.ret
            # log levels of its own
            for q, v in p.st.mem.items():
                if v[0] == 'new' and v[1].endswith('logging::log') and v[2] and v[2][0][0] == 'at':
                    a = v[2][0]
                    c.ob(rule, a[1] == F(levels, opts) and number(a[2]) == arg(idx[1]), w, 'the log level is not that of this node', p)
                    c.ob(rule, chain(p, eps[0]) is True or any(x is True for x in ids), w, 'uses settings of a node that may not exist', p)
            if good is not None:
                c.ob(rule, p.st.known(compare('<', I_(max(idx[1:] + order)), Size(ARGS))) is True, w, 'reads command line arguments that may not be given', p)
            if good is False or good is True and ids and all(x is False for x in ids):
                c.ob(rule, not started, w, 'starts although the configuration has no such node', p)
                c.ob(rule, p.kind == 'halt' or p.ret != I_(0), w, 'ends without an error although it could not start', p)
        c.ob(rule, seen > 0, f, 'the node is never built')
        r2 = short_ + ': runs if and only if the node started, until an interrupt'

        def ok(p):
            t = inits.get(id(p))
            return None if t is None else p.st.known(t)
        serving(c, sub, u, r2, ok)
        stops(c, sub, u, r2)

    parsec(c)
    agent(c)
    controllers(c)


def built(c, p, t, w, rule, good, ids, order, opts, levels, idx):
    c.ob(rule, good is True, w, 'starts without a usable configuration', p)
    c.ob(rule, any(x is True for x in ids), w, 'starts although the configuration may have no such node', p)
    for k, a in enumerate(order):
        c.ob(rule, len(t[2]) > k and number(t[2][k]) == arg(a), w, 'is given another identifier', p)
    n = len(order)
    c.ob(rule, len(t[2]) > n and t[2][n] == opts, w, 'is given another configuration', p)
    return 1


# ------------------------------------------------------------------- PArSEC
CFG = ('call', 'cbdc::parsec::read_config', (A(0), A(1)), 0)


def parsec(c):
    ID = F('m_component_id', CFG)
    NODE = F('m_node_id', CFG)
    for f, cls, eps in (('parsec/runtime_locking_shard/runtime_locking_shardd.cpp', 'cbdc::parsec::runtime_locking_shard::controller', 'm_shard_endpoints'),
                        ('parsec/ticket_machine/ticket_machined.cpp', 'cbdc::parsec::ticket_machine::controller', 'm_ticket_machine_endpoints')):
        sub = Sub(c, f)
        u = sub.main(opaque=['::controller::'])
        sh = f.split('/')[-1][:-4]
        rule = sh + ': starts the node of its identifiers from a checked configuration'
        cluster = F(eps, CFG)
        mine = cluster
        if 'shard' in sh:
            mine = ('at', cluster, ID)
        me = NODE if 'shard' in sh else ID
        inits = {}
        n = 0
        for p in u.paths:
            w = '%s: %s' % (f, c.where(u, p))
            has = p.st.known(('has', CFG))
            good = [has, p.st.known(compare('<', me, Size(mine)))]
            if 'shard' in sh:
                good += [p.st.known(compare('<', ID, Size(cluster))), p.st.known(('has', NODE))]
            evs = [e for e in allev(p.items) if e.kind == 'call' and e.q == cls + '::init']
            if False in good:
                c.ob(rule, not evs, w, 'starts although the configuration has no such node', p)
                c.ob(rule, p.kind == 'halt' or p.ret != I_(0), w, 'ends without an error although it could not start', p)
            # nothing is read from a place that may not exist
            for src in [x for e in allev(p.items) if e.kind == 'call' for x in (e.args or ())] + list(p.st.bounds):
                for t in subterms(src):
                    if t == NODE and 'shard' in sh:
                        c.ob(rule, p.st.known(('has', NODE)) is True, w, 'uses a node identifier that may not be given', p)
            for e in evs:
                inits[id(p)] = e.ret
                t = next((x for x in subterms(e.ret) if x[0] == 'new' and x[1] == cls), None)
                if not c.ob(rule, t is not None, w, 'another node is started', p):
                    continue
                n += 1
                c.ob(rule, all(x is True for x in good), w, 'starts although the configuration may have no such node', p)
                want = [ID, NODE, ('at', mine, NODE)] if 'shard' in sh else [ID, ('at', mine, ID)]
                c.ob(rule, [nocast(x) for x in t[2][:len(want)]] == want, w, 'is given other identifiers or another endpoint', p)
                # raft peers: the configured nodes, one port above
                r = t[2][len(want)]
                lps = [i for i in p.items if isinstance(i, Loop) and i.dom[0] == 'each' and i.dom[2] == mine and i.mode == 'all']
                ok = len(lps) == 1 and r[0] == 'ver' and r[2] == lps[0].L
                for ed in (lps[0].edges if lps else ()):
                    m = [x for x in top(ed.items) if x.kind == 'mut' and x.q in ('push_back', 'emplace_back')]
                    ok = ok and len(m) == 1 and peer(m[0].args, lps[0])
                c.ob(rule, ok, w, 'the peers are not the nodes of its cluster, one port above', p)
        c.ob(rule, n > 0, f, 'the node is never started')
        r2 = sh + ': runs if and only if the node started, until an interrupt'
        serving(c, sub, u, r2, lambda p: None if inits.get(id(p)) is None else p.st.known(inits[id(p)]))
        stops(c, sub, u, r2)


def peer(args, lp):
    """the endpoint with the following port"""
    t = args[0] if len(args) == 1 else ('new', '', tuple(args))
    els = [('elem', d, lp.L) for d in lp.dom[1:3]]
    keys = [('key', d, lp.L) for d in lp.dom[1:3]]
    port = [F('second', e) for e in els] + [('at', d, k) for d in lp.dom[1:3] for k in keys]
    host = [F('first', e) for e in els] + keys

    def up(v):
        return nocast(v) in [l_add(x, I_(1)) for x in port]
    if t[0] == 'with' and t[1] in els:
        return len(t[2]) == 1 and t[2][0][0] == (('fld', 'second'),) and up(t[2][0][1])
    if t[0] in ('obj', 'new'):
        d = [x[1] for x in t[2]] if t[0] == 'obj' else list(t[2])
        return len(d) == 2 and d[0] in host and up(d[1])
    return False


def agent(c):
    """an agent serves users only after what its predecessor left behind was settled"""
    f = 'parsec/agent/agentd.cpp'
    sub = Sub(c, f)
    u = sub.main(eventful=['mint_initial_accounts'], opaque=['mint_initial_accounts', 'broker::impl::', 'rpc::client::', 'http_server::', 'agent::rpc::server::'])
    ID = F('m_component_id', CFG)
    EP = ('at', F('m_agent_endpoints', CFG), ID)
    LUA, EVM = (sub.s.enum('cbdc::parsec::runner_type::' + n) for n in ('lua', 'evm'))
    RUN = F('m_runner_type', CFG)
    r1 = 'agentd: serves its own endpoint, from a checked configuration'
    r2 = 'agentd: is connected to every shard and to the ticket machine'
    r3 = 'agentd: serves only after recovery succeeded'
    r4 = 'agentd: runs if and only if the server started, until an interrupt'
    A_ = 'cbdc::parsec::agent::rpc::'
    inits = {}

    def calls(p, q):
        return [s.ev for s in enc(p, call(q))]

    def truth_of(p, e):
        return None if e is None else p.st.known(e.ret)
    n = 0
    for p in u.paths:
        w = '%s: %s' % (f, c.where(u, p))
        has = p.st.known(('has', CFG))
        good = [has, p.st.known(compare('<', ID, Size(F('m_agent_endpoints', CFG))))]
        kinds = [p.st.known(compare('==', RUN, k)) for k in (LUA, EVM)]
        srv = calls(p, A_ + 'server_interface::init') + calls(p, A_ + 'server::init') + calls(p, A_ + 'http_server::init')
        rec = calls(p, 'broker::impl::recover')
        tick = calls(p, 'ticket_machine::rpc::client::init')
        wait = [t for t in p.st.bounds for t in subterms(t) if t[0] == 'call' and t[1].endswith('::wait_for')]
        mint = calls(p, 'mint_initial_accounts')
        timeout = p.st.known(compare('==', wait[0], sub.s.enum('std::future_status::timeout'))) if wait else None
        res = calls(p, 'future::get')
        # every shard
        lps = [i for i in p.items if isinstance(i, Loop) and i.dom[0] == 'each' and i.dom[2] == F('m_shard_endpoints', CFG)]
        failed = False
        for lp in lps:
            failed = failed or lp.mode != 'all'
            for ed in lp.edges if lp.mode == 'all' else ():
                es = [e for e in top(ed.items) if e.kind == 'call' and qmatch(['runtime_locking_shard::rpc::client::init'], e.q)]
                el = [('elem', d, lp.L) for d in lp.dom[1:3]]
                c.ob(r2, len(es) == 1 and ed.st.known(es[0].ret) is True and any(x in list(subterms(es[0].ret)) for x in el), w, 'a shard is used without being connected to it', p)
                puts_ = [e for e in top(ed.items) if e.kind == 'mut' and e.q in ('push_back', 'emplace_back')]
                c.ob(r2, len(puts_) == 1, w, 'a shard is left out', p)
        if failed or any(truth_of(p, e) is False for e in tick + rec + mint + srv) or timeout is True or res and truth_of(p, res[0]) is False or has is False or good[1] is False or all(k is False for k in kinds):
            c.ob(r4, p.kind == 'halt' or p.ret not in (None, I_(0)), w, 'ends without an error although it could not start', p)
            c.ob(r4, not running(p), w, 'runs although it did not start', p)
        for e in rec:
            # the broker works on exactly the connected shards
            t = next((x for x in subterms(e.ret) if x[0] == 'new' and x[1].endswith('broker::impl')), None)
            c.ob(r2, t is not None and len(t[2]) == 5 and t[2][0] == ID and len(lps) == 1 and lps[0].mode == 'all' and t[2][1][0] == 'ver' and t[2][1][2] == lps[0].L, w, 'the broker is given other shards or another identifier', p)
            c.ob(r2, len(tick) == 1 and truth_of(p, tick[0]) is True, w, 'uses a ticket machine it is not connected to', p)
        for e in srv:
            n += 1
            inits[id(p)] = e.ret
            c.ob(r1, all(g is True for g in good), w, 'starts although the configuration may have no endpoint for it', p)
            c.ob(r3, len(rec) == 1 and truth_of(p, rec[0]) is True, w, 'serves although recovery was not requested', p)
            c.ob(r3, bool(wait) and timeout is False, w, 'serves although recovery did not finish', p)
            c.ob(r3, len(res) == 1 and truth_of(p, res[0]) is True, w, 'serves although recovery failed', p)
            if kinds[1] is True and p.st.known(compare('==', ID, I_(0))) is True:
                c.ob(r3, len(mint) == 1 and truth_of(p, mint[0]) is True, w, 'serves before the initial accounts exist', p)
            else:
                c.ob(r3, not mint, w, 'every agent creates the initial accounts', p)
            t = next((x for x in subterms(e.ret) if x[0] == 'new' and x[1].startswith(A_)), None)
            want = A_ + 'server' if kinds[0] is True else A_ + 'http_server' if kinds[1] is True else None
            if not c.ob(r1, t is not None and t[1] == want, w, 'serves another kind of transaction than configured', p):
                continue
            net = heap(p, t[2][0])
            c.ob(r1, net is not None and net[0] == 'new' and net[2] and net[2][0] == EP, w, 'listens on another endpoint', p)
            b = next((x for x in subterms(rec[0].ret) if x[0] == 'new' and x[1].endswith('broker::impl')), None) if rec else None
            c.ob(r3, b is not None and heap(p, t[2][1]) == b, w, 'serves with another broker than the one that recovered', p)
            c.ob(r1, t[2][3] == CFG, w, 'is given another configuration', p)
    c.ob(r1, n > 0, f, 'the agent never serves')
    serving(c, sub, u, r4, lambda p: None if inits.get(id(p)) is None else p.st.known(inits[id(p)]))
    stops(c, sub, u, r4)
    # recovery succeeded when the broker says so
    for site, k in sub.s.closures(u, call('broker::impl::recover')):
        for p in k.rets:
            sv = [s.ev for s in enc(p, call('promise::set_value'))]
            a = ('arg', 0, k.depth) if hasattr(k, 'depth') else A(0)
            v = sv[0].args[0] if len(sv) == 1 else None
            ok = v is not None and (v == ('not', ('has', a)) or p.st.known(('has', a)) is False and v == TRUE or p.st.known(('has', a)) is True and v == FALSE)
            c.ob(r3, ok, f, 'what recovery reports is not whether it failed', p)


def heap(p, t):
    """the constructor call of an object made by make_unique or make_shared"""
    if t[0] == 'new':
        return t
    return p.st.mem.get(t)


# ------------------------------------------------------- two-phase controllers
def controllers(c):
    """replicated nodes use their own endpoints; identifiers are checked against their own cluster"""
    c.load('uhs/twophase/locking_shard/controller.cpp')
    c.load('uhs/twophase/coordinator/controller.cpp')
    OPT = F('m_opts')

    def o(n):
        return F(n, OPT)
    for cls, cl, need in (('cbdc::locking_shard::controller', 'm_shard_id', ['m_locking_shard_raft_endpoints']),
                          ('cbdc::coordinator::controller', 'm_coordinator_id', ['m_coordinator_endpoints', 'm_coordinator_raft_endpoints'])):
        for n in (cl, 'm_node_id', 'm_opts', 'm_raft_serv'):
            c.field(cls, n)
        u = c.fn(cls + '::init', pure=['cs_new'])
        ME, NODE = F(cl), F('m_node_id')
        rule = cls.split('::')[1] + ': exactly the identifiers of its own cluster are accepted'
        # every index is one of its own identifiers and is checked
        k = 0
        for p in u.paths:
            w = c.where(u, p)
            conds = [p.st.known(compare('<', ME, Size(o(n)))) for n in need] + [p.st.known(compare('<', NODE, Size(('at', o(n), ME)))) for n in need]
            if cls.endswith('locking_shard::controller'):
                conds.append(p.st.known(compare('<', ME, Size(o('m_shard_ranges')))))
            srv = [s.ev for s in enc(p, call('node::init'))]
            if srv:
                k += 1
                c.ob(rule, all(x is True for x in conds), w, 'starts although its cluster may have no such node', p)
            if False in conds:
                c.ob(rule, p.kind == 'halt' or p.ret == FALSE, w, 'accepts an identifier its cluster does not have', p)
            if p.kind == 'ret' and p.ret == FALSE and not srv and all(x is not False for x in conds):
                c.ob(rule, p.st.known(F('m_logger')) is False or p.st.known(('has', F('m_logger'))) is False or any('m_logger' in pp(q) and v is False for q, v in p.st.bools.items()), w, 'rejects identifiers of its own cluster', p)
            for b in list(p.st.bounds):
                for t in subterms(b):
                    if t[0] == 'at' and t[1][0] == 'fld' and t[1][1] == OPT:
                        c.ob(rule, t[2] == ME, w, 'looks at another cluster than its own', p)
            if srv:
                t = next((x for v in [srv[0].ret, p.st.mem.get(F('m_raft_serv'), NULL)] + list(p.st.mem.values()) for x in subterms(v) if x[0] == 'new' and x[1].endswith('raft::node')), None)
                if c.ob(rule, t is not None, w, 'the replicated node is not built here', p):
                    c.ob(rule, nocast(t[2][0]) == NODE and t[2][1] == ('at', o(need[-1]), ME), w, 'is given another identifier or the endpoints of another cluster', p)
                    c.ob(rule, F('m_state_machine') in (t[2][4],) or p.st.mem.get(F('m_state_machine')) in (t[2][4],) or heap(p, t[2][4]) is not None, w, 'replicates something else', p)
        c.ob(rule, k > 0, cls, 'the replicated node is never started')

    cls = 'cbdc::locking_shard::controller'
    u = c.fn(cls + '::init', pure=['cs_new'])
    MINE = ('at', ('at', o('m_locking_shard_readonly_endpoints'), F('m_shard_id')), F('m_node_id'))
    rule = 'locking shard: status requests are answered at its own endpoint, about its own shard'
    n = 0
    for p in u.paths:
        if p.ret != TRUE:
            continue
        w = c.where(u, p)
        n += 1
        ini = [s.ev for s in enc(p, call('init')) if 'tcp_server' in s.ev.q]
        if not c.ob(rule, len(ini) == 1 and p.st.known(ini[0].ret) is True, w, 'reports success although it does not listen', p):
            continue
        lis = [t for t in subterms(ini[0].ret) if t[0] == 'new' and 'tcp_server' in t[1]]
        c.ob(rule, bool(lis) and lis[0][2][0] == MINE, w, 'listens on another endpoint', p)
        sm = [t for v in p.st.mem.values() for t in subterms(v) if t[0] == 'new' and t[1].endswith('::state_machine') or t[0] == 'call' and t[1].endswith('cs_new')]
        c.ob('locking shard: its state machine', bool(sm) and all(len(t[2]) == 5 and t[2][0] == ('at', o('m_shard_ranges'), F('m_shard_id')) and t[2][4] == OPT for t in sm), w, 'owns another range of outputs', p)
        st = [t for v in p.st.mem.values() for t in subterms(v) if t[0] == 'new' and t[1].endswith('status_server')]
        c.ob(rule, bool(st) and all(t[2][0][0] == 'call' and t[2][0][1].endswith('get_shard_instance') and sm and sm[0] in list(subterms(t[2][0])) for t in st), w, 'answers about another shard', p)
    c.ob(rule, n > 0, cls, 'never starts')
    u = c.fn(cls + '::raft_callback')
    c.field(cls, 'm_server')
    fol, lead = (I_(c.enum('nuraft::cb_func::' + n)) for n in ('BecomeFollower', 'BecomeLeader'))
    leader_only(c, u, A(0), fol, lead)

    def own_end(p):
        t = [x for v in p.st.mem.values() for x in subterms(v) if x[0] == 'new' and x[2] and mentions_t(x[2][0], o('m_locking_shard_endpoints'))] 
        for e in enc(p, call('init')):
            t += [x for x in subterms(e.ev.ret) if x[0] == 'new' and x[2]]
        want = ('at', ('at', o('m_locking_shard_endpoints'), F('m_shard_id')), F('m_node_id'))
        if enc(p, call('init')) and not t:
            return 'listens on an unknown endpoint'
        return next(('listens on another endpoint' for x in t if x[2][0] != want), None)
    c.every(u, 'own endpoint', own_end)
