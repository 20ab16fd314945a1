"""C26, C28, C29 (and part of C27): spec Http."""
import json
from vlib import *
from groups.listener import strategies

PKGS = ['graceful/listener', '+graceful']
CFG = 'CONSTANTS\n  Strict <- StrictProp\n  KnownCuts = %s\nINIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n'


def prog(pre=(), par=(), post=(), plain=False, raw=False):
    f = lambda l: [[x[0], x[1] if len(x) > 1 else 0, x[2] if len(x) > 2 else ''] for x in l]
    return dict(pre=f(pre), par=f(par), post=f(post), plain=plain, raw=raw)


class Client:
    """What a connection's client may sensibly do next."""
    def __init__(self, c, l): self.c, self.l, self.half, self.k, self.body, self.hij, self.gone, self.run = c, l, False, '', False, False, False, 0

    def steps(self, rng, par=False):
        c, r = self.c, rng.random()
        if self.gone: return []
        if self.hij: return rng.choice([[('send', c, 'ping')], [('send', c, 'ping')], [('hclose', c)], [('cclose', c)]])
        if r < .06:
            self.gone = True; return [('cclose', c)]
        if self.body:
            self.body = False; return [('send', c, 'body')]
        if self.half:
            self.half = False; self.run += 1; self.body = self.k == 'b'
            return [('send', c, 'p2:' + self.k)]
        if self.run and rng.random() < .75:
            if r < .2: return [('fin', c, 'half')]
            self.run -= 1
            if r < .27: return [('fin', c, 'panic')]
            if r < .42 and not self.run and self.k != 'b' and not par:
                self.hij = True; return [('fin', c, 'hij')]
            return [('fin', c, rng.choice(['ok', 'ok', 'ok', 'big']))]
        self.k = k = rng.choice(['k', 'k', 'k', 'c', '0', 'b'])
        if r < .35:
            self.half = True; return [('send', c, 'p1:' + k)]
        self.run += 1
        if k == 'b':
            self.body = rng.random() < .6
            return [('send', c, 'full:b' if self.body else 'full:b body')]
        if r < .55 and k == 'k':
            self.run += 1; self.k = 'k'
            return [('send', c, 'full:k full:k')]
        return [('send', c, 'full:' + k)]


CLOSE = ['', '', '', '', 'ax-closed', 'plain-closed', 'foreign']
FAULTS = ['boom', 'op-boom', 'op-read', 'eof', 'op-closed', 'plain-closed', 'ax-closed', 'temp', 'temp']


def rand_seq(rng, pid):
    nl = rng.choice([1, 1, 2])
    s = [('serve', l, rng.choice(CLOSE)) for l in range(1, nl + 1)]
    if rng.random() < .1: s = []
    cl, nc, down = [], 0, False
    for _ in range(rng.randint(6, 30)):
        x = rng.random()
        if x < .15 or not cl:
            nc += 1; l = rng.randint(1, nl)
            s.append(('dial', nc, str(l))); cl.append(Client(nc, l))
        elif x < .80: s += rng.choice(cl).steps(rng)
        elif x < .86: s.append(('tick', rng.choice([1, 3, 11])))
        elif x < .92:
            s.append(rng.choice([('shutdown',), ('shutdown',), ('raise',), ('wait',), ('now',)] if len(s) > 8 else [('wait',)]))
        elif x < (.97 if pid == 'C28' else .93): s.append(('lfail', rng.randint(1, nl), rng.choice(FAULTS)))
        elif x < .98:
            nl += 1; s.append(('serve', nl, rng.choice(CLOSE)))
    s += [rng.choice([('shutdown',), ('raise',), ('now',)])]
    for _ in range(rng.randint(0, 12)):
        if cl: s += rng.choice(cl).steps(rng)
    s += [('fin', c, 'ok') for c in range(1, nc + 1) for _ in range(2)] + [('send', x.c, 'body') for x in cl if x.body] + [('wait',), ('tick', 2)]
    if rng.random() < .3: s += [('now',)]
    s += [('hclose', c) for c in range(1, nc + 1)]
    return prog(s, plain=pid != 'C29' and rng.random() < .2, raw=rng.random() < .2)


def rand_par(rng, pid):
    nl = rng.choice([1, 1, 2])
    s = [('serve', l, rng.choice(CLOSE)) for l in range(1, nl + 1)]
    cl = []
    n = rng.randint(1, 3)
    for c in range(1, n + 1):
        s.append(('dial', c, str(rng.randint(1, nl)))); x = Client(c, 1); cl.append(x)
        for _ in range(rng.choice([0, 1, 2, 2, 3, 4])): s += x.steps(rng)
    if rng.random() < .15: s.append(('tick', 11))
    if rng.random() < .12: s.append(('shutdown',))
    par, nx = [rng.choice([('shutdown',), ('shutdown',), ('raise',), ('now',)])], n
    for _ in range(rng.choice([1, 2, 2, 3])):
        x = rng.random()
        if x < .15:
            nx += 1; par.append(('dial', nx, str(rng.randint(1, nl)))); cl.append(Client(nx, 1))
        elif x < .25: par.append(rng.choice([('now',), ('wait',), ('shutdown',), ('raise',)]))
        elif x < .33:
            nl += 1; par.append(('serve', nl, rng.choice(CLOSE)))
        elif x < (.5 if pid == 'C28' else .36): par.append(('lfail', rng.randint(1, nl), rng.choice(FAULTS)))
        else:
            o = rng.choice(cl[:n])
            if pid == 'C29' and rng.random() < .5 and o.run == 1 and not o.hij and o.k != 'b' and not o.gone:
                o.hij = True; o.run = 0; par.append(('fin', o.c, 'hij'))
            elif not any(p[0] in ('send', 'cclose', 'hclose') and p[1] == o.c for p in par): par += o.steps(rng, True)
    rng.shuffle(par)
    post = []
    for x in cl:
        if rng.random() < .5: post += x.steps(rng)
    post += [('fin', c, 'ok') for c in range(1, nx + 1) for _ in range(2)] + [('send', x.c, 'body') for x in cl if x.body] + [('wait',), ('tick', 2)]
    if rng.random() < .3: post.append(('now',))
    post += [('send', x.c, 'ping') for x in cl if x.hij] + [('hclose', c) for c in range(1, nx + 1)]
    return prog(s, par, post, plain=pid != 'C29' and rng.random() < .15, raw=rng.random() < .1)


def head(it): return dict(op='start')


def binary(ck): return ck.go_build('./cmd/scheddrv', srcdir=ck.sched_module(PKGS), test=True)


def gen(**k):
    d = dict(MaxC=2, MaxN=1, MaxAsk=2, Rich='TRUE', Racy='FALSE'); d.update(k)
    return 'CONSTANTS\n  Strict <- all\n  KnownCuts = FALSE\n' + ''.join('  %s = %s\n' % x for x in d.items())


def from_graph(rng, s):
    h = [(x['a'], x['c'], x['s']) for x in json.loads(s)]
    n = max([x[1] for x in h] + [0])
    return prog([('serve', 1, rng.choice(CLOSE)), ('serve', 2, rng.choice(CLOSE))] + h, post=[(rng.choice(['shutdown', 'raise', 'now']),)] +
                [(a, c, v) for c in range(1, n + 1) for a, v in (('send', 'body'), ('fin', 'ok'), ('hclose', ''))] + [('wait',)], raw=rng.random() < .1)


# what net/http itself does to requests when keep-alives are disabled: see known-findings.txt
DEMOS = {
    'partial-request-on-kept-connection': prog([('serve', 1), ('dial', 1, '1'), ('send', 1, 'full:k'), ('fin', 1, 'ok'), ('send', 1, 'p1:k'), ('shutdown',), ('send', 1, 'p2:k'), ('fin', 1, 'ok')]),
    'partial-request-on-old-connection': prog([('serve', 1), ('dial', 1, '1'), ('tick', 14), ('send', 1, 'p1:k'), ('shutdown',), ('send', 1, 'p2:k'), ('fin', 1, 'ok')]),
}


def known(ck, b, listed):
    """Findings listed for C26: shown to be there still, on the real code."""
    for name, what in listed.items():
        if name not in DEMOS: raise CheckError('no demonstration of ' + name)
        st, tr = ck.sched_drive(b, 'http', [dict(prog=DEMOS[name], sched=[{}], grid=0)], head)
        if ck.rejects('HttpTrace', tr, cfg=CFG % 'FALSE'): ck.known.append(name + ': ' + what)


def run(ck, share=1.0):
    rng, pid = ck.rng, ck.pid
    b = binary(ck)
    def rerun(st): return ck.sched_drive(b, 'http', st, head)[1]
    listed = ck.listed_findings()
    c = CFG % ('TRUE' if listed else 'FALSE')
    n = lambda q, t: max(1, int(share * ck.pick(q, t)))
    known(ck, b, listed)
    inv = 'INVARIANTS Served Left AtRest\nPROPERTY Hijacked\nCHECK_DEADLOCK FALSE\nVIEW StateView\nINIT Init\nNEXT Next\n'
    x = ck.explore('HttpGen', gen(MaxN=ck.pick(1, 2)) + inv).tagged('STIM')
    ck.explore('HttpGen', gen(Racy='TRUE', Rich='TRUE', MaxC=1, MaxN=2) + inv)
    if ck.thorough(): ck.explore('HttpGen', gen(Racy='TRUE', Rich='FALSE', MaxN=2) + inv)
    ck.explore('HttpGen', gen(Racy='TRUE', Rich='FALSE', MaxC=1, MaxN=2) + 'PROPERTY Completed\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n')
    ck.notes['http_graph_transitions'] = len(x)
    x = rng.sample(x, min(len(x), n(1500, 40000)))
    st = [dict(prog=from_graph(rng, s), sched=[{}], grid=0) for s in x]
    ck.judge('HttpTrace', *ck.sched_drive(b, 'http', st, head, env=dict(PIN=''), chunk=100), rerun=rerun, label='state graph', cfg=c, tries=2)
    st = [dict(prog=rand_seq(rng, pid), sched=[{}], grid=0) for _ in range(n(2000, 40000))]
    ck.judge('HttpTrace', *ck.sched_drive(b, 'http', st, head, env=dict(PIN=''), chunk=100), rerun=rerun, label='sequential histories', cfg=c, tries=2)
    st = [dict(prog=rand_par(rng, pid), sched=strategies(rng, ck.pick(15, 40)), grid=0) for _ in range(n(400, 8000))]
    ss, tt = ck.sched_drive(b, 'http', st, head, chunk=20)
    ck.judge('HttpTrace', ss, tt, rerun=rerun, label='random schedules', cfg=c, tries=4)
    ck.assumptions += ['net/http is taken as it is: what it decides by itself (a connection it takes for idle) is recorded and allowed for C26 (see known-findings.txt)']


def replay(ck, path):
    with open(path) as f:
        info = json.load(f)
    st, tr = ck.sched_drive(binary(ck), 'http', [info['stimulus']], head)
    ck.judge('HttpTrace', st, tr, cfg=CFG % ('TRUE' if ck.listed_findings() else 'FALSE'))
    return ck.finish()
