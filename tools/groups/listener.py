"""C20-C24: spec Listener."""
import json
from vlib import *

MODES = ['manual', 'auto', 'deadline']
PKGS = ['graceful/listener', '+graceful']
CFG = 'CONSTANTS\n  Strict <- StrictProp\nINIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n'
BUSY = {'manual': 'use', 'auto': 'read', 'deadline': 'read'}


def prog(mode, pre=(), par=(), post=(), stubborn=(True,)):
    return dict(mode=mode, pre=[list(x) for x in pre], par=[list(x) for x in par], post=[list(x) for x in post], stubborn=list(stubborn))


def rand_op(rng, conns, w=None):
    a = rng.choice(w or ['read', 'feed', 'feed', 'feederr', 'close', 'disown', 'use', 'use', 'idle', 'idle', 'idle', 'srd', 'srd', 'closeidle', 'drain', 'drainall', 'misc', 'foreign', 'accept'])
    if a in ('closeidle', 'drain', 'drainall', 'lclose', 'foreign'): return (a, 0)
    return (a, rng.choice(conns))


def rand_seq(rng, mode):
    """A sequential history: every operation runs until nothing moves."""
    n = rng.randint(1, 6)
    s, acc = [], 0
    late = rng.random() < .7       # shutdowns come late
    length = rng.randint(6, 30)
    reading = set()
    for k in range(length):
        if acc < n and (acc == 0 or rng.random() < .3):
            acc += 1
            s.append(('accept', acc)); continue
        w = ['read', 'feed', 'feed', 'feederr', 'close', 'disown', 'use', 'use', 'idle', 'idle', 'srd', 'srd', 'closeidle', 'misc', 'foreign']
        if not late or k > length * .7: w += ['drain', 'drain', 'drainall', 'lclose']
        a, c = rand_op(rng, range(1, acc + 1), w)
        if a == 'read':
            if c in reading: continue
            reading.add(c)
        if a in ('feed', 'feederr'): reading.discard(c)
        if a == 'read' and rng.random() < .6:
            s += [('read', c), ('feed', c)]; reading.discard(c); continue
        s.append((a, c))
    s += [('drain', 0), ('accept', acc + 1)]
    s += [rand_op(rng, range(1, acc + 1), ['idle', 'srd', 'use', 'close', 'misc']) for _ in range(rng.randint(0, 3))]
    s += [('drainall', 0), ('accept', acc + 2)]
    s += [('misc', c) for c in range(1, acc + 1)]
    return prog(mode, pre=s, stubborn=[rng.random() < .5 for _ in range(7)])


def setup(rng, mode, st):
    """Operations that bring connection c into state st; r: a read is in progress."""
    def one(c, x):
        o = [('accept', c)]
        if 'b' in x: o += [('use', c)]
        if 'i' in x: o += [('use', c), ('idle', c)]
        if 'd' in x: o += [('disown', c)]
        if 'x' in x: o += [('close', c)]
        if 'r' in x: o += [('read', c)]
        return o
    s = []
    for c, x in enumerate(st, 1): s += one(c, x)
    return s


def probe(rng, conns, mode):
    """What is asked afterwards, to find out about the state."""
    s = []
    for c in conns:
        if rng.random() < .3: s.append((rng.choice(['use', 'idle', 'srd', 'close', 'disown']), c))
        if rng.random() < .3: s += [('feed', c), ('read', c)]
    s.append(('closeidle', 0))
    if rng.random() < .5: s.append(('drain', 0))
    s.append(('accept', 9))
    for c in conns:
        if rng.random() < .6: s.append((rng.choice(['idle', 'idle', 'close', 'disown', 'srd']), c))
        if rng.random() < .4: s.append(('feed', c))
    s.append(('misc', rng.choice(conns)))
    s.append(('drainall', 0))
    s += [('close', c) for c in conns if rng.random() < .4]
    return s + [('misc', c) for c in conns] + [('accept', 10)]


PAIRS = ['feed', 'feederr', 'close', 'disown', 'use', 'idle', 'srd', 'closeidle', 'drain', 'drainall', 'accept']
FOCUS = {  # operations one of which takes part in every pair
    'C20': ['drain', 'drainall'], 'C21': ['closeidle', 'drain'], 'C22': ['feed', 'feederr'], 'C23': ['close', 'accept', 'drainall', 'drain'],
    'C24': ['disown'],
}


def pairs(rng, pid):
    """All pairs of operations on the same connection (or the listener) in all its states."""
    out = []
    for mode in MODES:
        for st in ['', 'b', 'i', 'br', 'r', 'd', 'ir']:
            for a in FOCUS[pid]:
                for b in PAIRS:
                    for c2 in ((1, 2) if b not in ('closeidle', 'drain', 'drainall', 'accept') else (0,)):
                        if 'feed' in a and 'r' not in st or 'feed' in b and 'r' not in st: continue
                        x = (a, 3 if a == 'accept' else 1 if a in ('feed', 'feederr', 'close', 'disown') else 0)
                        y = (b, 4 if b == 'accept' else c2)
                        out.append((mode, st, x, y))
    return out


def rand_par(rng, pid, mode):
    n = rng.randint(1, 4)
    st = [rng.choice(['', '', 'b', 'b', 'i', 'br', 'r', 'ir', 'd', 'dr']) for _ in range(n)]
    k = rng.choice([2, 3, 3, 4, 5])
    conns = list(range(1, n + 1))
    w = ['feed', 'feederr', 'close', 'disown', 'use', 'idle', 'srd', 'closeidle', 'drain', 'drainall'] + FOCUS[pid] * 3
    par, nacc = [], 0
    for _ in range(k):
        if rng.random() < .15 and not nacc:
            nacc = 1; par.append(('accept', n + 1))
        else: par.append(rand_op(rng, conns, w))
    pre = setup(rng, mode, st)
    if rng.random() < .1: pre.append(('drain', 0))
    return prog(mode, pre, par, probe(rng, conns, mode), stubborn=[rng.random() < .6 for _ in range(5)])


def strategies(rng, n):
    out = []
    for _ in range(n):
        x = rng.random()
        if x < .4: out.append(dict(kind='pct', seed=rng.randrange(1 << 40), d=rng.choice([1, 2, 3, 5]), p=150))
        elif x < .7: out.append(dict(kind='sticky', seed=rng.randrange(1 << 40), p=rng.choice([700, 850, 950])))
        else: out.append(dict(kind='rand', seed=rng.randrange(1 << 40)))
    return out


def head(it): return dict(op='mode', mode=it['prog']['mode'])


def run(ck):
    rng, pid = ck.rng, ck.pid
    d = ck.sched_module(PKGS)
    b = ck.go_build('./cmd/scheddrv', srcdir=d, test=True)
    def rerun(st): return ck.sched_drive(b, 'listener', st, head)[1]
    inv = dict(invariants=['AfterDrain', 'OneClose'], properties=['OwnStays', 'DeadStays', 'BusySpared'], view='StateView')
    gcfg = lambda m, conc, n: cfg(dict(MaxConns=2, MaxOps=n, Conc=conc, Mode=m), **inv).replace('CONSTANTS\n', 'CONSTANTS\n  Strict <- all\n')
    # the design, all interleavings
    for m in (MODES if ck.thorough() else [MODES[int(pid[1:]) % 3]]):
        ck.explore('ListenerGen', gcfg(m, True, ck.pick(2, 3)))
    # every transition of the sequential state graph
    st = []
    for m in MODES:
        r = ck.explore('ListenerGen', gcfg(m, False, 4))
        x = [[(h['a'], h['c']) for h in json.loads(s)] for s in r.tagged('STIM')]
        ck.notes['transitions_' + m] = len(x)
        if not ck.thorough(): x = rng.sample(x, min(len(x), 2500))
        st += [dict(prog=prog(m, pre=s, post=[('misc', 1), ('closeidle', 0), ('misc', 2), ('drainall', 0)]), sched=[{}], grid=0) for s in x]
    ck.judge('ListenerTrace', *ck.sched_drive(b, 'listener', st, head), rerun=rerun, label='state graph', cfg=CFG)
    st = [dict(prog=rand_seq(rng, rng.choice(MODES)), sched=[{}], grid=0) for _ in range(ck.pick(1500, 20000))]
    ck.judge('ListenerTrace', *ck.sched_drive(b, 'listener', st, head, env=dict(PIN=''), chunk=200), rerun=rerun, label='sequential histories', cfg=CFG)
    # pairs of operations, at most two preemptions
    st = []
    ps = pairs(rng, pid)
    if not ck.thorough(): ps = rng.sample(ps, min(len(ps), 150))
    for m, s, x, y in ps:
        st.append(dict(prog=prog(m, setup(rng, m, [s, rng.choice(['', 'b'])]), [x, y], probe(rng, [1, 2], m), stubborn=[rng.random() < .7 for _ in range(3)]),
                       sched=[], grid=80, stride=ck.pick(4, 1), off=rng.randrange(16)))
    ss, tt = ck.sched_drive(b, 'listener', st, head, chunk=4)
    ck.judge('ListenerTrace', ss, tt, rerun=rerun, label='pairs of operations', cfg=CFG, tries=3)
    n = ck.pick(500, 10000)
    st = [dict(prog=rand_par(rng, pid, rng.choice(MODES)), sched=strategies(rng, ck.pick(20, 40)), grid=0) for _ in range(n)]
    ss, tt = ck.sched_drive(b, 'listener', st, head, chunk=40)
    ck.judge('ListenerTrace', ss, tt, rerun=rerun, label='random schedules', cfg=CFG, tries=3)
    ck.notes['schedules_executed'] = ck.schedules
    ck.assumptions += ['the code is interleaved at the granularity of statements (x++ and x op= y are two steps); the memory model is sequentially consistent',
                       'underlying connections answer every call; at most one read per connection at a time']


def replay(ck, path):
    with open(path) as f:
        info = json.load(f)
    d = ck.sched_module(PKGS)
    b = ck.go_build('./cmd/scheddrv', srcdir=d, test=True)
    st, tr = ck.sched_drive(b, 'listener', [info['stimulus']], head)
    ck.judge('ListenerTrace', st, tr, cfg=CFG)
    return ck.finish()
