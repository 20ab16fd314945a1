"""C17, C19: spec Std."""
import json
from vlib import *
from groups.listener import strategies

HDRS = ['X-Forwarded-For', 'X-Real-Ip', 'If-None-Match', 'If-Match', 'Etag', 'If-Range', 'If-Modified-Since', 'If-Unmodified-Since',
        'X-Other', 'Cookie', 'Accept', 'Cache-Control', 'Pragma', 'Expires']
RSP = ['Expires', 'Cache-Control', 'Pragma', 'X-Accel-Expires', 'X-Other', 'Etag', 'Last-Modified']
VALS = {'X-Forwarded-For': ['1.1.1.1', '1.1.1.1, 2.2.2.2', '1.1.1.1,2.2.2.2,3.3.3.3', ' 2.2.2.2', '', ' , 5.5.5.5', '::1', '1.1.1.1|2.2.2.2', '|3.3.3.3', '9.9.9.9 ,8.8.8.8'],
        'X-Real-Ip': ['7.7.7.7', '', 'fe80::1', '7.7.7.7|8.8.8.8', '1.2.3.4, 5.6.7.8']}
QS = ['a', 'b', 'a=1', 'b=2', 'a=', '=v', '', 'a=%41', '%42=1', 'a=+x', 'a=%', 'a=%4', '%zz=1', 'a;b', 'a=1=2', 'c=%26%3d', 'c=%25']


def begin(r, layers, hdr=(), rsp=(), nil=True, env=(), query='', mux=0, addr='0.0.0.0:1'):
    return dict(op='begin', r=r, layers=layers, hdr=[list(x) for x in hdr], rsp=[list(x) for x in rsp], nil=nil,
                env=[list(x) for x in env], query=query, mux=mux, addr=addr)


def from_gen(x):
    j = json.loads(x); q = j['q']
    m = lambda d: list(d.items()) if isinstance(d, dict) else []
    return [begin(1, j['layers'], m(q['hdr']), m(q['rsp']), q['env']['nil'], m(q['env']['m']), q['query']), dict(op='finish', r=1)]


def rand_run(rng, pid):
    kinds = 'EQPN' if pid == 'C19' else 'IEQP'
    s, live, n = [], [], rng.choice([1, 1, 2, 4])
    stacks = []
    for _ in range(2):
        ls = [rng.choice(kinds) for _ in range(rng.randint(1, 5))]
        if pid == 'C17' and 'I' not in ls: ls[rng.randrange(len(ls))] = 'I'
        if pid == 'C17':   # one ID per request
            first = ls.index('I'); ls = [l for i, l in enumerate(ls) if l != 'I' or i == first]
        stacks.append(ls)
    todo = list(range(1, n + 1))
    while todo or live:
        if todo and (not live or rng.random() < .3):
            r = todo.pop(0)
            hdr = [(h, rng.choice(VALS.get(h, ['x', 'y|z', '', '|w']))) for h in HDRS if rng.random() < .3]
            hdr = [(h, v) for h, v in hdr if h != 'Expires' or v]
            rsp = [(h, 'r%d' % r) for h in RSP if rng.random() < .15]
            nil = rng.random() < .5
            env = [] if nil else [(k, 'e%d' % r) for k in ('k', 'l', 'reqID', 'urlquery') if rng.random() < .4]
            s.append(begin(r, rng.choice(stacks), hdr, rsp, nil, env, '&'.join(rng.choice(QS) for _ in range(rng.choice([0, 0, 1, 2, 4]))),
                           mux=rng.randint(0, 1), addr='10.0.0.%d:80' % r))
            live.append(r)
        else:
            r = rng.choice(live)
            if rng.random() < .15:
                s.append(dict(op='finish', r=r)); live.remove(r)
            else: s.append(dict(op='step', r=r))
    return s


def run(ck):
    b = ck.go_build('./cmd/webdrv')
    drive = lambda st: ck.drive(b, 'std', st)
    rng, pid = ck.rng, ck.pid
    inv = ['NonNil', 'KeepsEnv', 'OnlyP', 'OnlyN', 'KeepsOthers']
    st = []
    for part, n in (('addr', 3), ('cond', 2), ('env', 3)):
        r = ck.explore('StdGen', cfg(dict(MaxLayers=ck.pick(n, n + 1), Part=part), invariants=inv))
        st += [from_gen(x) for x in r.tagged('STIM')]
    if pid == 'C17': st = [s for s in st if s[0]['layers'].count('I') == 1]
    ck.notes['exhaustive_requests'] = len(st)
    ck.judge('StdTrace', st, drive(st), rerun=drive, label='exhaustive requests')
    st = [rand_run(rng, pid) for _ in range(ck.pick(6000, 60000))]
    ck.judge('StdTrace', st, drive(st), rerun=drive, label='random requests')
    if pid == 'C17':
        st = [[dict(op='bulk', n=n, g=g)] for n, g in ck.pick([(1200000, 8), (300000, 64)], [(4000000, 8), (4000000, 64), (8000000, 16)])]
        ck.judge('StdTrace', st, ck.drive(b, 'bulk', st, procs=1), rerun=lambda s: ck.drive(b, 'bulk', s), label='parallel requests', need=1, tries=4)
        sb = sched_build(ck)
        st = [dict(prog=dict(par=p, muxes=m), sched=strategies(rng, ck.pick(60, 600)), grid=0) for m in (1, 2, 3) for p in ([1, 1], [2, 1], [1, 1, 1], [2, 3, 2], [1] * 8)]
        st += [dict(prog=dict(par=[1, 1], muxes=m), sched=[], grid=60, stride=ck.pick(3, 1)) for m in (1, 2)]
        ck.judge('StdTrace', *ck.sched_drive(sb, 'ids', st), rerun=lambda x: ck.sched_drive(sb, 'ids', x)[1], label='overlapping requests', tries=3)
        ck.notes['schedules_executed'] = ck.schedules


def sched_build(ck): return ck.go_build('./cmd/websched', srcdir=ck.sched_module(['web', 'web/middleware']), test=True)


def replay(ck, path):
    with open(path) as f:
        info = json.load(f)
    if isinstance(info['stimulus'], dict):
        st, tr = ck.sched_drive(sched_build(ck), 'ids', [info['stimulus']])
        ck.judge('StdTrace', st, tr)
        return ck.finish()
    b = ck.go_build('./cmd/webdrv')
    ck.judge('StdTrace', [info['stimulus']], ck.drive(b, 'std', [info['stimulus']]))
    return ck.finish()
