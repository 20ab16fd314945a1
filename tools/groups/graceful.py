"""C25, C27 (and part of C26): spec Graceful."""
import json
from vlib import *
from groups import http
from groups.listener import strategies

PKGS = ['graceful/listener', '+graceful']
CFG = 'CONSTANTS\n  Strict <- StrictProp\nINIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n'
MODES = ['auto', 'deadline', 'manual', 'deadline']


def prog(mode, pre=(), par=(), post=(), stubborn=(False,), prewrap=False):
    f = lambda l: [[x[0], x[1] if len(x) > 1 else 0, x[2] if len(x) > 2 else ''] for x in l]
    return dict(mode=mode, pre=f(pre), par=f(par), post=f(post), stubborn=list(stubborn), prewrap=prewrap)


def setup(rng, hooks=((1, ''), (2, ''), (3, ''), (4, '')), ls=2, conns=2):
    s = [('addsig', 0, 'int')]
    s += [('prehook' if n < len(hooks) // 2 else 'posthook', h, b) for n, (h, b) in enumerate(hooks)]
    s += [('wrap', l) for l in range(1, ls + 1)]
    return s + [('accept', c, str(1 + (c - 1) % ls)) for c in range(1, conns + 1)]


def from_graph(rng, s):
    h = [(x['a'], x['c'], x['s']) for x in json.loads(s)]
    return prog('auto', pre=setup(rng) + h, post=[('tick', 7), ('wait',), ('close', 1), ('close', 2), ('tick', 1)])


HOW = ['', '', '', 'w', 'ww', 'p', 'q', 't', 'k', 's', 'n', 'wq', 'ws', 'pq']


def rand_seq(rng):
    n, ls = rng.randint(0, 4), rng.randint(1, 3)
    nh = rng.randint(0, 3), rng.randint(0, 3)
    ids = rng.sample(range(1, 30), sum(nh))
    s = [('dk', rng.choice([0, 3, 5, 5, 9])), ('to', rng.choice([0, 0, 3, 6, 9]))]
    if rng.random() < .3: s.append((rng.choice(['dk', 'to']), -rng.randint(1, 9)))
    s += [('addsig', 0, 'int')] if rng.random() < .9 else []
    if rng.random() < .3: s.append(('addsig', 0, 'usr2'))
    s += [('prehook', h, rng.choice(HOW)) for h in ids[:nh[0]]]
    s += [('posthook', h, rng.choice(HOW)) for h in ids[nh[0]:]]
    s += [('wrap', l) for l in range(1, ls + 1)]
    s += [('accept', c, str(rng.randint(1, ls))) for c in range(1, n + 1)]
    rng.shuffle(s) if rng.random() < .1 and not n else None
    mode = rng.choice(MODES)
    nl, nc = ls, n
    ev = []
    for _ in range(rng.randint(4, 25)):
        x = rng.random()
        conns = list(range(1, nc + 1))
        if x < .25: ev.append(('tick', rng.choice([1, 1, 2, 2, 4])))
        elif x < .45: ev.append(('raise', 0, rng.choice(['int', 'int', 'int', 'usr2', 'hup'])))
        elif x < .55: ev.append((rng.choice(['shutdown', 'now', 'wait', 'wait']),))
        elif x < .58: ev.append((rng.choice(['dk', 'to']), rng.choice([0, 3, 5, -1])))
        elif x < .60: ev.append(('resetsig',))
        elif x < .62: ev.append(('addsig', 0, rng.choice(['int', 'usr2', 'hup'])))
        elif x < .65: ev.append((rng.choice(['prehook', 'posthook']), rng.randint(40, 90), rng.choice(HOW)))
        elif x < .69:
            nl += 1; ev.append(('wrap', nl))
        elif x < .75:
            nc += 1; ev.append(('accept', nc, str(rng.randint(1, nl))))
        elif conns:
            c = rng.choice(conns)
            ev += rng.choice([[('use', c)], [('use', c)], [('idle', c)], [('close', c)], [('disown', c)], [('read', c), ('feed', c)], [('srd', c)]])
    # hooks 40..90 may repeat: make them distinct
    seen = set(ids); out = []
    for e in ev:
        if e[0] in ('prehook', 'posthook'):
            if e[1] in seen: continue
            seen.add(e[1])
        out.append(e)
    end = [('tick', 3), ('wait',)] + [('close', c) for c in range(1, nc + 1)] + [('tick', 10)]
    return prog(mode, pre=s + out, post=end, stubborn=[rng.random() < .3 for _ in range(3)], prewrap=rng.random() < .4)


def rand_par(rng):
    n, ls = rng.randint(1, 3), rng.randint(1, 2)
    nh = rng.randint(0, 2), rng.randint(0, 2)
    ids = rng.sample(range(1, 30), sum(nh))
    s = [('dk', rng.choice([0, 5])), ('to', rng.choice([0, 6])), ('addsig', 0, 'int'), ('addsig', 0, 'usr2')]
    s += [('prehook', h, rng.choice(['', '', '', 'w', 'q', 's', 'n'])) for h in ids[:nh[0]]]
    s += [('posthook', h, rng.choice(['', '', 'w', 's'])) for h in ids[nh[0]:]]
    s += [('wrap', l) for l in range(1, ls + 1)]
    s += [('accept', c, str(rng.randint(1, ls))) for c in range(1, n + 1)]
    for c in range(1, n + 1): s += rng.choice([[], [('use', c)], [('use', c)], [('use', c), ('idle', c)], [('disown', c)], [('read', c)]])
    if rng.random() < .2: s += [(rng.choice(['shutdown', 'raise']), 0, 'int'), ('tick', 1)]
    par, nl, nc, nx = [], ls, n, 60
    for _ in range(rng.choice([2, 3, 3, 4, 5])):
        x = rng.random()
        if x < .3: par.append(('raise', 0, rng.choice(['int', 'int', 'usr2'])))
        elif x < .5: par.append((rng.choice(['shutdown', 'shutdown', 'now', 'wait']),))
        elif x < .6:
            nl += 1; par.append(('wrap', nl))
        elif x < .7:
            nc += 1; par.append(('accept', nc, str(rng.randint(1, ls))))
        elif x < .76:
            nx += 1; par.append((rng.choice(['prehook', 'posthook']), nx, ''))
        elif x < .8: par.append((rng.choice(['dk', 'to', 'addsig']), 5, 'int'))
        else: par.append((rng.choice(['use', 'idle', 'close', 'disown', 'feed']), rng.randint(1, n)))
    post = [('wait',)] if rng.random() < .5 else []
    post += [('tick', rng.choice([1, 2]))] if rng.random() < .5 else []
    post += rng.choice([[], [('raise', 0, 'int')], [('now',)], [('tick', 7)], [('shutdown',)]])
    if nl > ls and rng.random() < .7: nc += 1; post += [('accept', nc, str(nl))]
    post += [('wait',)] + [('close', c) for c in range(1, nc + 1)] + [('tick', 8)]
    return prog(rng.choice(MODES), s, par, post, stubborn=[rng.random() < .3 for _ in range(3)], prewrap=rng.random() < .3)


def head(it): return dict(op='mode', mode=it['prog']['mode'])


def run(ck):
    rng, pid = ck.rng, ck.pid
    b = ck.go_build('./cmd/scheddrv', srcdir=ck.sched_module(PKGS), test=True)
    def rerun(st): return ck.sched_drive(b, 'graceful', st, head)[1]
    c = cfg(dict(Step=2, Horizon=ck.pick(4, 5), MaxReq=ck.pick(2, 3), Late=ck.thorough()), invariants=['HooksAfter', 'Kicks', 'Completes'], properties=['OwnStays', 'HooksBefore'],
            view='StateView').replace('CONSTANTS\n', 'CONSTANTS\n  Strict <- all\n')
    r = ck.explore('GracefulGen', c)
    x = r.tagged('STIM')
    ck.notes['graph_transitions'] = len(x)
    k = ck.pick(2500, 60000)
    if len(x) > k: x = rng.sample(x, k)
    st = [dict(prog=from_graph(rng, s), sched=[{}], grid=0) for s in x]
    ck.judge('GracefulTrace', *ck.sched_drive(b, 'graceful', st, head), rerun=rerun, label='state graph', cfg=CFG)
    st = [dict(prog=rand_seq(rng), sched=[{}], grid=0) for _ in range(ck.pick(2500, 40000))]
    ck.judge('GracefulTrace', *ck.sched_drive(b, 'graceful', st, head, env=dict(PIN=''), chunk=200), rerun=rerun, label='sequential histories', cfg=CFG)
    st = [dict(prog=rand_par(rng), sched=strategies(rng, ck.pick(15, 40)), grid=0) for _ in range(ck.pick(400, 8000))]
    ss, tt = ck.sched_drive(b, 'graceful', st, head, chunk=20)
    ck.judge('GracefulTrace', ss, tt, rerun=rerun, label='random schedules', cfg=CFG, tries=3)
    if pid != 'C25': http.run(ck, {'C26': .6, 'C27': .3}[pid])
    ck.notes['schedules_executed'] = ck.schedules
    ck.assumptions += ['the code is interleaved at the granularity of statements; the memory model is sequentially consistent',
                       'time is virtual and passes only when nothing else can happen; signals are delivered through a stand-in for os/signal']


def replay(ck, path):
    with open(path) as f:
        info = json.load(f)
    if info['module'] == 'HttpTrace': return http.replay(ck, path)
    b = ck.go_build('./cmd/scheddrv', srcdir=ck.sched_module(PKGS), test=True)
    st, tr = ck.sched_drive(b, 'graceful', [info['stimulus']], head)
    ck.judge('GracefulTrace', st, tr, cfg=CFG)
    return ck.finish()
