"""The command line of the client: what each command asks the client to do."""
from lib import *
from r_evm import fin, kn, evs, unv, same, subs
from r_nodes import Sub, ARGS, UO, arg

CLI = 'uhs/client/client-cli.cpp'
ASKS = ('mint', 'send', 'fan', 'sync', 'new_address', 'import_send_input', 'confirm_transaction', 'abandon_transaction', 'balance', 'utxo_count', 'pending_tx_count', 'init')
U32 = (1 << 32) - 1
EVENTS = ['Encode$', 'to_hex$', 'make_buffer$', 'print_tx_result$', 'client::[a-z_]+$']


def a(i):
    """argument i of a command"""
    return ('at', A(1), I_(i))


def bare(t):
    t = unv(fin(t))
    while isinstance(t, tuple) and t and t[0] in ('cast', 'some', 'deref'):
        t = t[-1]
    return t


def parsed(t):
    """the text a number was read from"""
    t = bare(t)
    if isinstance(t, tuple) and t and t[0] == 'call' and t[1].split('::')[-1] in ('stoul', 'stoull', 'stoi', 'stol', 'stoll', 'strtoul', 'strtoull') and t[2]:
        return t[2][0]
    return None


def asked(p, o=None):
    """what the client is asked to do on this path"""
    return [e for e in allev(p.items) if e.kind == 'call' and e.q.rsplit('::', 2)[-2:][0].endswith('client') and e.q.split('::')[-1] in ASKS]


def verb(e):
    return e.q.split('::')[-1]


def fits(p, t, top):
    """the number that was read is not above what the call takes"""
    return kn(p, compare('<=', bare(t), I_(top))) is True


@prop('L06', files=[CLI])
def l06(c):
    """client-cli does what its command line says, and nothing else"""
    def command(name, n, verbs, want):
        """want(p, e, w): the one call of a path that asks the client"""
        u = c.fn(name, eventful=EVENTS)
        hit = set()
        for p in u.rets:
            w = c.where(u, p)
            q = [e for e in asked(p) if verb(e) in verbs]
            other = [e for e in asked(p) if verb(e) not in verbs and verb(e) not in ('balance', 'utxo_count')]
            c.ob(name + ': asks for nothing else', not other and len(q) <= 1, w, 'asks the client for %s' % ', '.join(map(verb, other or q)), p)
            short = kn(p, compare('<', Size(A(1)), I_(n)))
            if not q:
                hit.add(False)
                c.ob(name + ': refused only for its arguments', kn(p, p.ret) is False and (short is True or want(p, None, w)), w, 'does nothing, but does not fail, or refuses good arguments', p)
                continue
            hit.add(True)
            c.ob(name + ': only with all its arguments', short is False, w, 'reads arguments that are not there', p)
            want(p, q[0], w)
        c.ob(name, hit == {True, False}, c.where(u), 'a case is missing')
        return u

    def amounts(rule, p, e, w, xs):
        """xs: (argument of the call, argument of the command line, largest value)"""
        for i, j, top in xs:
            x = e.args[i]
            c.ob(rule + ': argument %d is its own' % i, parsed(x) == a(j), w, 'is %s' % pp(x)[:60], p)
            if top is not None:
                c.ob(rule + ': argument %d is not cut off' % i, fits(p, x, top), w, 'a value above %d becomes another one' % top, p)

    def toolarge(p, js):
        """one of the numbers does not fit"""
        return any(isinstance(t, tuple) and t and t[0] == 'call' and parsed(t) in [a(j) for j in js] and kn(p, compare('<=', t, I_(U32))) is False for t in subs(*facts_of(p)))

    def payee(i):
        return ('call', 'cbdc::address::decode', (a(i),), 0)

    def outcome(rule, p, e, w, adr):
        """a payment that could not be made is told, one that was made is shown"""
        ok = kn(p, Has(('fld', result(e), 'first')))
        pr = evs(p, call('print_tx_result'))
        c.ob(rule + ': whether there is a payment is looked at', ok is not None, w, 'not looked at', p)
        if ok is False:
            c.ob(rule + ': no payment is a failure', p.ret == FALSE and not pr, w, 'is reported as a success', p)
        elif ok:
            c.ob(rule + ': the payment is shown', p.ret == TRUE and len(pr) == 1 and [bare(x) for x in pr[0].args] == [('fld', result(e), 'first'), ('fld', result(e), 'second'), bare(adr)], w, 'something else is shown', p)

    def facts_of(p):
        return list(p.st.bools) + list(p.st.bounds)

    def pays(name, n, adr, nums, js):
        D = payee(adr)

        def want(p, e, w):
            if e is None:
                return kn(p, Has(D)) is False or toolarge(p, js)
            c.ob(name + ': to the address given', kn(p, Has(D)) is True and bare(e.args[-1]) == D, w, 'pays someone else', p)
            amounts(name, p, e, w, nums)
            outcome(name, p, e, w, D)
        return want
    command('send_command', 7, ('send',), pays('send_command', 7, 6, [(0, 5, U32)], [5]))
    command('fan_command', 8, ('fan',), pays('fan_command', 8, 7, [(0, 5, U32), (1, 6, U32)], [5, 6]))

    def mint(p, e, w):
        if e is None:
            return toolarge(p, [6])
        amounts('mint_command', p, e, w, [(0, 5, None), (1, 6, U32)])
        c.ob('mint_command: succeeds', p.ret == TRUE, w, 'fails', p)
    command('mint_command', 7, ('mint',), mint)

    def imp(p, e, w):
        hx = ('call', 'cbdc::buffer::from_hex', (a(5),), 0)
        fb = [t for t in subs(*(facts_of(p) + (list(e.args) if e else []))) if is_call(t, 'from_buffer') and bare(t[2][0]) == hx]
        if e is None:
            return kn(p, Has(hx)) is False or bool(fb) and kn(p, Has(fb[0])) is False
        c.ob('importinput_command: the input given', bool(fb) and bare(e.args[0]) == bare(fb[0]) and kn(p, Has(hx)) is True and kn(p, Has(fb[0])) is True, w, 'imports something else, or text that was not decoded', p)
        c.ob('importinput_command: succeeds', p.ret == TRUE, w, 'fails', p)
        return None
    command('importinput_command', 6, ('import_send_input',), imp)

    def conf(p, e, w):
        if e is None:
            return False
        c.ob('confirmtx_command: the transaction given', bare(e.args[0]) == ('call', 'cbdc::hash_from_hex', (a(5),), 0), w, 'confirms another one', p)
        ok = kn(p, result(e))
        c.ob('confirmtx_command: tells whether it was confirmed', ok is not None and kn(p, p.ret) is ok, w, 'tells something else', p)
        return None
    command('confirmtx_command', 6, ('confirm_transaction',), conf)

    # a new address is shown as address::decode reads it
    u = c.fn('newaddress_command', eventful=EVENTS)
    for p in u.rets:
        w = c.where(u, p)
        nw = [e for e in asked(p) if verb(e) == 'new_address']
        en = evs(p, call('bech32::Encode'))
        cv = evs(p, call('ConvertBits'))
        cp = [e for e in allev(p.items) if e.kind == 'call' and e.q.split('::')[-1] in ('copy_n', 'copy', 'memcpy')]
        c.ob('newaddress_command: one new address', len(nw) == 1 and len(asked(p)) == 1, w, 'asks for something else', p)
        c.ob('newaddress_command: shown once', len(en) == 1 and len(cv) == 1, w, 'is not shown', p)
        if len(en) != 1 or len(cv) != 1:
            continue
        lam = [x for x in cv[0].args if x[0] in ('lambda', 'lam', 'closure')]
        src = [x for x in cv[0].args if x[0] in ('begin', 'end')]
        V = unver(src[0][1]) if src else None
        one = len(src) == 2 and unver(src[1][1]) == V and src[0][0] == 'begin' and src[1][0] == 'end'
        first = [e for e in allev(p.items) if e.kind == 'set' and e.obj[0] == 'at' and unver(e.obj[1]) == V]
        kind = len(first) == 1 and first[0].obj[2] == I_(0) and bare(first[0].args[0]) in (I_(0), c.enum('cbdc::client::address_type::public_key'))
        NA = result(nw[0]) if nw else ('x',)
        loc = [k for k, v in p.st.mem.items() if v == NA] + [NA]
        dst = ('op', '+', (('begin', V), I_(1)))

        def body_(e):
            """the key goes behind the kind: copy_n(begin, 32, dst), copy(begin, end, dst), memcpy"""
            t = unver((e.obj,) + tuple(e.args))
            return mentions_t(t, dst) or mentions_t(t, ('at', V, I_(1))) and e.q.endswith('memcpy'), any(mentions_t(t, x) for x in loc), I_(32) in t or ('i', 32) in t or NA in t or any(mentions_t(t, ('end', x)) for x in loc)
        body = len(cp) == 1 and V is not None and all(body_(cp[0]))
        size = p.st.mem.get(V, ('x',)) if V is not None else ('x',)
        c.ob('newaddress_command: the room for them', size[:2] == ('vec', 'std::vector') and size[2][:1] == (I_(33),), w, 'is of another size', p)
        c.ob('newaddress_command: the kind of the address, then its key', one and kind and body, w, 'shows something else', p)
        c.ob('newaddress_command: with the prefix addresses are read with', en[0].args[0] == DEC, w, 'with another prefix: %s' % pp(en[0].args[0])[:40], p)
    for site, k in c.closures(u, call('ConvertBits')):
        for p in k.rets:
            m = [e for e in allev(p.items) if e.kind == 'mut']
            c.ob('newaddress_command: every symbol, in order', len(m) == 1 and m[0].q in ('push_back', 'emplace_back') and m[0].args == (A(0, k.depth),), 'newaddress_command', 'are not kept in order', p)

    # what the recipient needs is shown for every output paid to it
    u = c.fn('print_tx_result', eventful=EVENTS)
    for p in u.rets:
        w = c.where(u, p)
        lp = [i for i in p.items if i.kind == 'loop' and i.dom[0] == 'each' and is_call(i.dom[-1], 'export_send_inputs')]
        X = lp[0].dom[-1] if lp else None
        c.ob('print_tx_result: every input for the recipient', len(lp) == 1 and lp[0].mode == 'all' and bare(X[2][-2]) == A(0) and X[2][-1] == A(2), w, 'leaves out, or shows others', p)
        mb = [S for S in walk(p.items, p.st) if S.ev.kind == 'call' and S.ev.q.split('::')[-1] == 'make_buffer' and S.loops]
        hx = [S for S in walk(p.items, p.st) if S.ev.kind == 'call' and S.ev.q.split('::')[-1] == 'to_hex' and S.loops]
        c.ob('print_tx_result: as importinput reads it', len(mb) == 1 and len(hx) == 1 and unver(mb[0].ev.args[0])[0] in ('each', 'elem'), w, 'shows something else', p)

    # the program
    sub = Sub(c, CLI)
    u = sub.main(opaque=['client::', '_command$'], eventful=['load_options$', 'client::[a-z_]+$', '_command$'])
    CFG = ('call', 'cbdc::config::load_options', (arg(1),), 0)
    opts = ('as', CFG, UO)
    word = {'mint': 'mint_command', 'send': 'send_command', 'fan': 'fan_command', 'newaddress': 'newaddress_command', 'importinput': 'importinput_command', 'confirmtx': 'confirmtx_command', 'sync': 'sync', 'info': None}
    hit = set()
    for p in u.rets:
        w = c.where(u, p)
        ini = [e for e in asked(p) if verb(e) == 'init']
        cm = [e for e in allev(p.items) if e.kind == 'call' and (e.q.split('::')[-1].endswith('_command') or e in asked(p) and verb(e) in ('sync', 'mint', 'send', 'fan', 'new_address', 'import_send_input', 'confirm_transaction', 'abandon_transaction'))]
        enough = kn(p, compare('>=', Size(ARGS), I_(5)))
        if not ini:
            hit.add('no client')
            # not enough arguments, or no configuration
            c.ob('main: no command without a client', not cm and (enough is False or kn(p, ('is', CFG, UO)) is False or kn(p, ('is', CFG, 'std::basic_string<char>')) is True), w, 'runs a command, or gives up with good arguments', p)
            continue
        two = kn(p, ('fld', opts, 'm_twophase_mode'))
        o = unver(ini[0].obj)
        cl = 'cbdc::twophase_client' if two else 'cbdc::atomizer_client'
        v = [t for t in subs(*list(p.st.mem.values()) + [x for e in cm for x in e.args]) if isinstance(t, tuple) and len(t) == 3 and t[0] == 'new' and t[1] in ('cbdc::twophase_client', 'cbdc::atomizer_client')]
        c.ob('main: arguments are there and the configuration was read', enough is True and (kn(p, ('is', CFG, UO)) is True or kn(p, ('is', CFG, 'std::basic_string<char>')) is False), w, 'not checked', p)
        c.ob('main: the client of the configured kind', two is not None and mentions_name(o, cl), w, 'another one', p)
        if cm or v:
            good = bool(v) and all(t[1] == cl and [bare(x) for x in t[2]][0] == opts and [t[2][i] for i in (2, 3)] == [arg(3), arg(2)] for t in v)
            c.ob('main: with the wallet and client files given', good, w, 'with other files', p)
        ok = kn(p, result(ini[0]))
        if ok is not True:
            hit.add('no start')
            c.ob('main: nothing without a started client', ok is False and not cm and p.ret != I_(0), w, 'goes on', p)
            continue
        eq = [x for x in word if kn(p, Eq(arg(4), ('s', x))) is True]
        f = word[eq[0]] if len(eq) == 1 else None
        hit.add(eq[0] if eq else 'unknown')
        if f is None:
            c.ob('main: no command is run that was not given', not cm, w, 'runs %s' % ', '.join(e.q for e in cm), p)
            continue
        c.ob('main: the command given [%s]' % eq[0], len(cm) == 1 and cm[0].q.split('::')[-1] == f, w, 'runs %s' % ', '.join(e.q for e in cm), p)
        if len(cm) == 1 and f.endswith('_command') and f != 'newaddress_command':
            c.ob('main: with all its arguments [%s]' % eq[0], cm[0].args[-1] == ARGS or unver(cm[0].args[-1]) == ARGS, w, 'with others', p)
            r = kn(p, result(cm[0]))
            c.ob('main: a command that fails is a failure [%s]' % eq[0], r is not None and (p.ret == I_(0)) is r, w, 'is not', p)
    c.ob('main', hit >= set(word) | {'no client', 'no start', 'unknown'}, u.f['l'] if False else CLI, 'a case is missing: %s' % sorted(hit))


DEC = ('s', 'usd')


def mentions_name(t, n):
    return any(x == n for x in subs0(t))


def subs0(t):
    if isinstance(t, tuple):
        for x in t:
            yield from subs0(x)
    else:
        yield t
