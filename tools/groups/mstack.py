"""C08, C09, C10: spec MStack."""
import json
from vlib import *

ENV = dict(GOMAXPROCS='1', GOGC='off')   # makes pooled stacks come back for sure
ALL = [1, 2, 3, 4, 5, 6]


def start(r, plain=True, env=(), params=(), nest=0, bind=''):
    return dict(op='start', r=r, plain=plain, env=[list(x) for x in env], params=[list(x) for x in params], nest=nest, bind=bind)


def edit(h):
    e = dict(op=h['op'], x=h['x'])
    if h['op'] == 'insert': e['b'] = h['b']
    return e


def from_history(hist, names):
    """A history of MStackGen as a stimulus; whatever still runs is finished, and one more
    request is made."""
    s, running, n = [], [], 0
    for h in hist:
        op = h['op']
        if op in ('use', 'insert', 'abandon'):
            e = dict(op=op, x=names[h['x']])
            if op == 'insert': e['b'] = names[h['b']]
            s.append(e)
        elif op == 'start':
            n = h['r']; running.append(n)
            s += [start(n), dict(op='toh', r=n)]
        else:
            running.remove(h['r'])
            if op == 'panic': s.append(dict(op='act', r=h['r'], a='panic', k='', v=''))
            else: s.append(dict(op='finish', r=h['r']))
    for r in reversed(running): s.append(dict(op='finish', r=r))
    return s + [start(n + 1), dict(op='finish', r=n + 1)]


def rand_run(rng, pid, length):
    """A random run: the generator keeps track of who runs inside whom."""
    layers = rng.sample(ALL, rng.randint(2, 5))
    if pid == 'C10': layers = rng.sample([1, 2, 4, 5], rng.randint(1, 3)) + ([6] if rng.random() < .2 else [])
    s = []
    for x in layers[:rng.randint(0, len(layers))]: s.append(dict(op='use', x=x))
    nxt, live, parent = 1, [], {}
    keys = ['k1', 'k2', 'id']
    blocked = lambda r: any(parent.get(q) == r for q in live)
    def an_edit(by=0):
        op = rng.choice(['use', 'insert', 'insert', 'abandon', 'abandon'])
        e = dict(op=op, x=rng.choice(layers))
        if op == 'insert': e['b'] = rng.choice(layers)
        if by: e['by'] = by
        return e
    pe = dict(C08=.0, C09=.3, C10=.06)[pid]
    if pid == 'C08':
        for _ in range(length // 2):
            s.append(an_edit())
            if rng.random() < .25:
                s += [start(nxt), dict(op='finish', r=nxt)]; nxt += 1
        s += [start(nxt), dict(op='finish', r=nxt)]
        return s
    for _ in range(length):
        free = [r for r in live if not blocked(r)]
        x = rng.random()
        if x < pe:
            s.append(an_edit(rng.choice(free) if free and rng.random() < .4 else 0))
        elif x < pe + .2 or not free:
            if len(live) > 5: continue
            r = nxt; nxt += 1
            if free and rng.random() < .3:
                p = rng.choice(free)
                s.append(start(r, nest=p)); parent[r] = p
            else:
                kw = {}
                if rng.random() < .5:
                    kw = dict(plain=False, env=[(k, 'e%d' % r) for k in keys[:2] if rng.random() < .5],
                              params=[(k, 'p%d' % r) for k in keys if rng.random() < .4])
                if rng.random() < .3: kw['bind'] = 'b%d' % r
                s.append(start(r, **kw))
            live.append(r)
        elif x < pe + .5:
            s.append(dict(op='step', r=rng.choice(free)))      # may end it, which the driver notices
        elif x < pe + .65:
            r = rng.choice(free)
            a = rng.choice(['envput', 'envput', 'parput', 'parput', 'envnew', 'parnew', 'nil'])
            s.append(dict(op='act', r=r, a=a, k=rng.choice(keys), v='a%d' % rng.randint(0, 99)))
        elif x < pe + .7:
            r = rng.choice(free)
            s.append(dict(op='act', r=r, a='panic', k='', v='')); live.remove(r)
        else:
            r = rng.choice(free)
            s.append(dict(op='finish', r=r)); live.remove(r)
    while live:
        free = [r for r in live if not blocked(r)]
        r = rng.choice(free)
        s.append(dict(op='finish', r=r)); live.remove(r)
    return s + [start(nxt), dict(op='finish', r=nxt)]


def run(ck):
    b = ck.go_build('./cmd/webdrv')
    drive = lambda st: ck.drive(b, 'mstack', st, env=ENV)
    rng, pid = ck.rng, ck.pid
    if pid == 'C08':
        r = ck.explore('MStackGen', cfg(dict(Layers={1, 2}, MaxReqs=1, Depth=ck.pick(4, 5), EditsOnly=True), invariants=['KeepsItsStack']))
    else:
        r = ck.explore('MStackGen', cfg(dict(Layers={1, 2} if pid == 'C09' else {1}, MaxReqs=3, Depth=ck.pick(4, 5 if pid == 'C09' else 7), EditsOnly=False),
                                        invariants=['KeepsItsStack']))
    st = []
    for x in r.tagged('HIST'):
        a, c = rng.sample(ALL, 2)
        st.append(from_history(json.loads(x), {1: a, 2: c}))
    ck.notes['exhaustive_histories'] = len(st)
    ck.judge('MStackTrace', st, drive(st), rerun=drive, label='exhaustive histories')
    st = [rand_run(rng, pid, rng.choice([12, 25, 40])) for _ in range(ck.pick(4000, 40000))]
    ck.judge('MStackTrace', st, drive(st), rerun=drive, label='random histories')
    ck.assumptions += ['edits and requests overlap, but no edit is executing at the very moment a request starts (documented to be illegal)']


def replay(ck, path):
    with open(path) as f:
        info = json.load(f)
    b = ck.go_build('./cmd/webdrv')
    ck.judge('MStackTrace', [info['stimulus']], ck.drive(b, 'mstack', [info['stimulus']], env=ENV))
    return ck.finish()
