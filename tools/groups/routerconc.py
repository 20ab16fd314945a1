"""C07: spec RouterConc."""
import json
from vlib import *
import gen_web as g
from groups.listener import strategies

PKGS = ['web']


def build(ck): return ck.go_build('./cmd/websched', srcdir=ck.sched_module(PKGS), test=True)


def prog(pre, par, post, layers=0, router=False):
    return dict(pre=[dict(op='nf', id=1)] + pre, par=par, post=post, layers=layers, router=router)


def from_graph(s):
    j = json.loads(s)
    def op(t, i, o):
        if o['op'] == 'reg': return dict(o, id=10 * t + i)
        if o['op'] == 'req': return dict(op='req', j=10 * t + i, m=o['verb'], p=o['pat']['s'])
        return dict(op='compile')
    pre = [dict(op='reg', id=91, verb='Get', pat=dict(k='str', s='/b')), dict(op='reg', id=92, verb='Handle', pat=dict(k='str', s='/:y'))][:j['pre']]
    par = [[op(t, i, o) for i, o in enumerate(p, 1)] for t, p in enumerate(j['prog'], 1)]
    return prog(pre, par, [dict(op='req', j=80 + n, m=m, p=p) for n, (m, p) in enumerate((('GET', '/a'), ('POST', '/b'), ('HEAD', '/a'), ('PUT', '/a/b')))])


def rand_prog(rng):
    k = rng.randint(2, 12)
    kinds = rng.choice([('cust',), ('cust',), ('cust', 'str'), ('str',), ('str',), ('cust', 'str', 're')])
    pats = g.rand_table(rng, k, kinds)
    n = [0, 0]
    def reg(i):
        o = dict(op='reg', id=i + 1, verb=rng.choice(['Get', 'Handle', 'Post', 'Get', 'Handle'] if rng.random() < .8 else g.VERBS), pat=pats[i])
        return o
    def req():
        n[0] += 1
        return dict(op='req', j=n[0], m=rng.choice(['GET', 'GET', 'POST', 'HEAD', 'OPTIONS', 'FOO']), p=g.path_for(rng, pats),
                    ctx=[['x', 'herit']] if rng.random() < .2 else [])
    npre = rng.choice([0, 0, rng.randrange(k)])
    pre = [reg(i) for i in range(npre)]
    if rng.random() < .4: pre.append(rng.choice([req(), dict(op='compile')]))
    left = list(range(npre, k))
    nth = rng.choice([2, 2, 3, 3, 4, 5])
    par = [[] for _ in range(nth)]
    # registrations by one thread or by several; some are made by a pattern or a handler on the way
    regs = rng.choice([[0], [0], [0, 1], list(range(nth))])
    last = None
    for i in left:
        o = reg(i)
        if last is not None and rng.random() < .12 and 'also' not in last: last['also'] = o
        else:
            par[rng.choice(regs)].append(o); last = o
    for t in range(nth):
        for _ in range(rng.randint(1, 3) if t not in regs else rng.randint(0, 2)):
            par[t].insert(rng.randint(0, len(par[t])), req() if rng.random() < .85 else dict(op='compile'))
    return prog(pre, par, [req() for _ in range(3)], layers=rng.choice([0, 0, 1, 2]), router=rng.random() < .25)


def run(ck):
    rng = ck.rng
    b = build(ck)
    rerun = lambda st: ck.sched_drive(b, 'router', st)[1]
    st = []
    r = ck.explore('RouterConcGen', cfg(dict(MaxOps=ck.pick(2, 3), MaxPre=ck.pick(1, 0)), invariants=['Visible', 'OwnWrites'], properties=['Grows']), timeout=800)
    x = r.tagged('STIM'); ck.notes['small_programs'] = len(x)
    x = rng.sample(x, min(len(x), ck.pick(700, 12000)))
    def two(n):   # schedules with two preemptions
        out = []
        for _ in range(n):
            a = rng.randrange(2)
            out.append(dict(kind='seg', seg=[[a, rng.randrange(90)], [1 - a, rng.randrange(1, 90)], [a, -1], [1 - a, -1]]))
        return out
    st = [dict(prog=from_graph(s), sched=two(ck.pick(60, 300)), grid=0) for s in x]
    ck.judge('RouterConcTrace', *ck.sched_drive(b, 'router', st, chunk=8), rerun=rerun, label='small programs', tries=3)
    st = [dict(prog=rand_prog(rng), sched=strategies(rng, ck.pick(20, 40)), grid=0) for _ in range(ck.pick(700, 10000))]
    ck.judge('RouterConcTrace', *ck.sched_drive(b, 'router', st, chunk=15), rerun=rerun, label='random schedules', tries=3)
    ck.notes['schedules_executed'] = ck.schedules
    ck.assumptions += ['the code is interleaved at the granularity of statements; the memory model is sequentially consistent']


def replay(ck, path):
    with open(path) as f:
        info = json.load(f)
    st, tr = ck.sched_drive(build(ck), 'router', [info['stimulus']])
    ck.judge('RouterConcTrace', st, tr)
    return ck.finish()
