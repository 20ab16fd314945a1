"""C11, C12, C13: spec Dispatch."""
import json
from vlib import *
import gen_web as g

PLAIN = ['fn', 'hf', 'ptr', 'val', 'uncmp']
CTX = ['cfn', 'chf', 'cptr', 'cval', 'both', 'bothv']
WEBH = ['chf', 'cptr', 'cval', 'both', 'bothv']      # can be placed in a match
REQS = [('GET', '/b'), ('POST', '/b'), ('GET', '/p/z'), ('GET', '/a/b'), ('GET', '/a/a/b'), ('GET', '/a/'),
        ('GET', '/a/a/'), ('PUT', '/a/a/z'), ('GET', '/n/1'), ('GET', '/zz')]


def lay(k, n=0, s=''): return dict(k=k, n=n, s=s)


def req(m, p, mux=1, env=False, pid=0, h=0, params=()):
    return dict(op='req', m=m, p=p, mux=mux, env=env, pid=pid, h=h, params=[list(x) for x in params])


def rand_layer(rng, pid, k, nmux, hs):
    webh = [i + 1 for i, h in enumerate(hs) if h['form'] in WEBH]
    base = dict(
        C11=['router'] * 6 + ['path'] * 3 + ['method', 'nomatch', 'nomatch', 'setmatch', 'setmatch', 'newenv', 'copyenv', 'envinit', 'nop', 'params', 'recover'],
        C12=['sub'] * 7 + ['router'] * 4 + ['path', 'nomatch', 'setmatch', 'newenv', 'copyenv', 'envinit', 'nop', 'params', 'recover', 'recover', 'panic', 'stop'],
        C13=['router'] * 4 + ['nop', 'sub', 'envinit', 'copyenv', 'setmatch', 'recover'])[pid]
    x = rng.choice(base)
    if x == 'router': return lay(x, k if rng.random() < .85 else rng.randint(1, nmux))
    if x == 'path': return lay(x, 0, rng.choice(['/b', '/a/b', '/p/z', '/zz', '/a/a/b', '']))
    if x == 'method': return lay(x, 0, rng.choice(['POST', 'GET', 'PUT', 'FOO']))
    if x == 'nomatch': return lay(x, 0, rng.choice(['del', 'del', 'foreign', 'zero']))
    if x == 'setmatch':
        if not webh: return lay('nop')
        return lay(x, rng.choice(webh), rng.choice(['', '101', '102']))
    if x == 'params': return lay(x, 0, rng.choice(['/b', '/a/b', 'q', '']))
    return lay(x)


def rand_cfg(rng, pid):
    nmux = rng.choice([1, 2, 3, 3, 4]) if pid != 'C11' else rng.choice([1, 1, 2, 3])
    forms = PLAIN + CTX if pid == 'C13' else CTX + ['fn']
    hs = [dict(form=rng.choice(forms), mux=0, panics=rng.random() < (.12 if pid != 'C11' else .03)) for _ in range(rng.randint(3, 7))]
    nl = len(hs)
    for k in range(2, nmux + 1):
        hs.append(dict(form='mux' if rng.random() < .88 else 'plainmux', mux=k, panics=False))
    pool = ['/a/*', '/b', '/p/:x', '/', '/:id', '/:id/*', '/a/b', '/*', '/x/:a.:b']
    pids = {}
    muxes, nextpid = [], [50]
    for k in range(1, nmux + 1):
        routes = []
        for _ in range(rng.randint(1, 5)):
            sub = rng.random() < .5 and k < nmux
            h = nl + rng.randint(k, nmux - 1) if sub else rng.randint(1, nl)
            j = rng.random()
            if j < .7:
                s = rng.choice(['/a/*', '/a/*', '/n/:id', '/*', '/:id/*'] if sub else pool)
                pat = dict(k='str', s=s)
                p = pids.setdefault(s, len(pids) + 1)
            elif j < .85:
                pat = g.re_pattern(dict(k='cat', xs=[dict(k='bot', src='^')] + g.lit(rng.choice(['/a', '/n', '/r'])) +
                      [dict(k='grp', i=0, name=rng.choice(['_', '_', 'n', '']), x=dict(k='cat', xs=g.lit('/') + [dict(k='rep', x=dict(k='any'), min=0, max=99, lazy=False)]))]))
                nextpid[0] += 1; p = nextpid[0]
            else:
                pat = dict(k='cust', pfx=rng.choice(['', '/', '/a']), m=rng.choice(['all', 'odd', 'even']),
                           binds=rng.choice([[], [['*', '/b']], [['_', '/a/b']], [['x', '1']], [['*', '/b'], ['_', '/a/']]]))
                nextpid[0] += 1; p = nextpid[0]
            routes.append(dict(verb=rng.choice(['Handle', 'Handle', 'Handle', 'Get', 'Post']), pat=pat, pid=p, h=h))
        layers = [rand_layer(rng, pid, k, nmux, hs) for _ in range(rng.randint(0, 4))]
        if pid == 'C12' and k > 1 and rng.random() < .7: layers.insert(rng.randint(0, min(1, len(layers))), lay('sub'))
        muxes.append(dict(layers=layers or [lay('nop')], routes=routes, nf=99 if rng.random() < .12 else rng.randint(1, nl)))
    return dict(muxes=muxes, hs=hs)


def rand_reqs(rng, c, n):
    out = []
    webh = [i + 1 for i, h in enumerate(c['hs']) if h['form'] in WEBH]
    for _ in range(n):
        m, p = rng.choice(REQS)
        if rng.random() < .3:
            p = rng.choice(['/a', '/n', '/r', '/b', '', '/q']) + rng.choice(['', '/b', '/a/b', '/', '/x/y', '/a/', '/n/1', '/a/a/b'])
        kw = {}
        if rng.random() < .3:
            kw['env'] = True
            if webh and rng.random() < .5:
                kw['h'] = rng.choice(webh); kw['pid'] = rng.choice([0, 101, 102])
        if rng.random() < .2:
            kw['params'] = rng.choice([[('*', '/b')], [('_', '/a/b')], [('id', 'q')], [('*', '/a/b'), ('_', '/b')], [('*', '')]])
        out.append(req(m, p, rng.randint(1, len(c['muxes'])) if rng.random() < .1 else 1, **kw))
    return out


def run(ck):
    b = ck.go_build('./cmd/webdrv')
    drive = lambda st: ck.drive(b, 'dispatch', st)
    rng, pid = ck.rng, ck.pid
    K = lambda *a: set(a)
    if pid == 'C11':
        c = dict(Kinds1=K('router', 'path', 'method', 'nomatch', 'setmatch', 'newenv', 'nop'), Kinds2=K('nop', 'nomatch', 'router'),
                 Kinds3=K('nop', 'nomatch', 'path'), N1=ck.pick(2, 3), N2=1, N3=1)
    elif pid == 'C12':
        c = dict(Kinds1=K('router', 'nop', 'recover'), Kinds2=K('sub', 'router', 'newenv', 'path', 'recover'),
                 Kinds3=K('sub', 'router', 'panic'), N1=1, N2=ck.pick(2, 3), N3=ck.pick(1, 2))
    else:
        c = dict(Kinds1=K('router', 'nop'), Kinds2=K('router', 'sub'), Kinds3=K('nop', 'router'), N1=1, N2=1, N3=1)
    r = ck.explore('DispatchGen', cfg(c, invariants=['SubLeavesNoTrace', 'RoutedOnce', 'SubsDoNotLoop']))
    cfgs = [json.loads(x) for x in r.tagged('CFG')]
    ck.notes['exhaustive_configurations'] = len(cfgs)
    st = [[dict(op='cfg', cfg=x)] + [req(*q) for q in REQS] for x in cfgs]
    ck.judge('DispatchTrace', st, drive(st), rerun=drive, label='exhaustive configurations')
    st = []
    for _ in range(ck.pick(3000, 40000)):
        x = rand_cfg(rng, pid)
        st.append([dict(op='cfg', cfg=x)] + rand_reqs(rng, x, 6))
    ck.notes['random_configurations'] = len(st)
    ck.judge('DispatchTrace', st, drive(st), rerun=drive, label='random configurations')
    ck.assumptions += ['middleware layers call the next one at most once', 'patterns are registered as strings, regexps or user-defined values']


def replay(ck, path):
    with open(path) as f:
        info = json.load(f)
    b = ck.go_build('./cmd/webdrv')
    ck.judge('DispatchTrace', [info['stimulus']], ck.drive(b, 'dispatch', [info['stimulus']]))
    return ck.finish()
