"""C01, C04, C05, C06: spec Router."""
import json
from vlib import *
import gen_web as g

PATHS = ['', '/', '/a', '/ab', '/abc', '/abcd', '/abcde/f', '/abcdefgh', '/b', '/ba', 'a']
PFX = ['', '/', '/a', '/ab', '/abcd', '/abcde/f', '/b']


def req(m, p, **kw):
    e = dict(op='req', m=m, p=p, ctx=[], env=[], plain=True)
    e.update(kw)
    return e


def stim_exhaustive(ck, tables):
    out = []
    for t in tables:
        s = [dict(op='nf', id=1)]
        when = ck.rng.randrange(len(t) + 1)
        for i, r in enumerate(t):
            if i == when and ck.rng.random() < .3:
                s.append(dict(op='compile') if ck.rng.random() < .5 else req('GET', ck.rng.choice(PATHS)))
            s.append(dict(op='reg', id=r['id'], verb=r['verb'], pat=r['pat']))
        if ck.rng.random() < .3:
            s.append(dict(op='compile'))
        s += [req('GET', p) for p in PATHS]
        out.append(s)
    return out


def stim_random(ck, n, size, nreq):
    rng, out = ck.rng, []
    for _ in range(n):
        k = rng.randint(1, size)
        kinds = rng.choice([('cust',), ('cust',), ('str',), ('re',), ('cust', 'str', 're')])
        pats = g.rand_table(rng, k, kinds)
        s, nreg = [], 0
        if rng.random() < .85:
            s.append(dict(op='nf', id=1))
        for i, p in enumerate(pats):
            verb = rng.choice(g.VERBS) if rng.random() < .7 else rng.choice(['Get', 'Handle', 'Post'])
            s.append(dict(op='reg', id=i + 1, verb=verb, pat=p))
            x = rng.random()
            if x < .1: s.append(dict(op='compile'))
            elif x < .2: s.append(rreq(rng, pats))
            elif x < .23: s.append(dict(op='nf', id=rng.randint(1, 5)))
        for _ in range(nreq):
            s.append(rreq(rng, pats))
            if rng.random() < .03: s.append(dict(op='nf', id=rng.randint(1, 5)))
            if rng.random() < .02: s.append(dict(op='compile'))
        out.append(s)
    return out


def rreq(rng, pats):
    p = g.path_for(rng, pats) if rng.random() < .9 else rng.choice(PATHS)
    e = req(rng.choice(g.METHODS) if rng.random() < .6 else rng.choice(['GET', 'HEAD', 'POST', 'OPTIONS']), p)
    if rng.random() < .5:
        e['plain'] = False
        if rng.random() < .7:
            e['ctx'] = [[k, rng.choice(['in', 'herit'])] for k in rng.sample(['id', 'x', 'c', 'name', 'z', '$1', 'n'], rng.randint(1, 3))]
        if rng.random() < .5:
            e['env'] = [[k, 'v'] for k in rng.sample(['k1', 'k2', 'reqID'], rng.randint(1, 2))]
    return e


def run(ck):
    b = ck.go_build('./cmd/webdrv')
    drive = lambda st: ck.drive(b, 'router', st)
    # 1. all tables, design invariants
    r = ck.explore('RouterGen', cfg(dict(
        Prefixes=set(PFX[1:] if not ck.thorough() else PFX), Verbs={'Get', 'Post'}, Kinds={'none', 'all'},
        MaxRoutes=ck.pick(2, 3), Paths=set(PATHS[1:]), Methods={'GET', 'HEAD', 'POST', 'FOO'}),
        invariants=['SelectionIsFirstMatch', 'MethodsAreCounterfactual', 'CallProtocol']))
    tables = [json.loads(x) for x in r.tagged('TAB')]
    # 2. all tables of silent patterns: every path through the compiled matcher
    r = ck.explore('RouterGen', cfg(dict(
        Prefixes=set(PFX), Verbs={'Get'}, Kinds={'none'}, MaxRoutes=ck.pick(4, 5), Paths={'/'}, Methods={'GET'})))
    tables += [json.loads(x) for x in r.tagged('TAB')]
    st = stim_exhaustive(ck, tables)
    ck.notes['exhaustive_tables'] = len(tables)
    ck.judge('RouterTrace', st, drive(st), rerun=drive, label='exhaustive tables')
    # 3. random tables with every kind of pattern
    st = stim_random(ck, ck.pick(2500, 40000), 14, ck.pick(14, 20))
    ck.notes['random_tables'] = len(st)
    ck.judge('RouterTrace', st, drive(st), rerun=drive, label='random tables')
    ck.assumptions += ['paths are valid UTF-8', 'user-defined patterns answer as a function of the path']


def replay(ck, path):
    with open(path) as f:
        info = json.load(f)
    b = ck.go_build('./cmd/webdrv')
    tr = ck.drive(b, 'router', [info['stimulus']])
    ck.judge('RouterTrace', [info['stimulus']], tr)
    return ck.finish()
