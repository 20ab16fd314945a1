"""C33: specs Top and TopRun."""
import json
from vlib import *

VERBS = ['Handle', 'Connect', 'Delete', 'Get', 'Head', 'Options', 'Patch', 'Post', 'Put', 'Trace']
METHODS = [v.upper() for v in VERBS[1:]]
MWS = ['RequestID', 'Logger', 'Recoverer', 'AutomaticOptions', 'm1', 'm2', 'm3', 'mp']
FORMS = ['c', 'func', 'handler']
PATS = ['/a', '/b', '/*', '/a']


def req(rng, m=None, p=None): return dict(op='req', m=m or rng.choice(METHODS + ['OPTIONS', 'GET']), path=p or rng.choice(['/a', '/a', '/b', '/c']))


def rand_mux(rng):
    st = []
    for i in range(rng.choice([2, 4, 8, 14])):
        x = rng.random()
        if x < .15: st.append(dict(op='use', m=rng.choice(MWS[4:7] if rng.random() < .7 else MWS)))
        elif x < .3: st.append(dict(op='insert', m=rng.choice(MWS[4:] if rng.random() < .8 else MWS), b=rng.choice(MWS)))
        elif x < .37: st.append(dict(op='abandon', m=rng.choice(MWS)))
        elif x < .6: st.append(dict(op='route', name='h%d' % i, verb=rng.choice(VERBS), pat=rng.choice(PATS), kind=rng.choice(['ok', 'ok', 'ok', 'panic', 'late', '404']), form=rng.choice(FORMS)))
        elif x < .65: st.append(dict(op='notfound', name='n%d' % i, form=rng.choice(FORMS)))
        elif x < .67: st.append(dict(op='swap'))
        else: st.append(req(rng))
    return st + [req(rng) for _ in range(3)]


def run(ck):
    rng = ck.rng
    b = ck.go_build('./cmd/topdrv')
    drive = lambda st: ck.drive(b, 'mux', st)
    st = []
    for part in ('stack', 'routes'):
        r = ck.explore('TopGen', cfg(dict(Part=part, MaxOps=ck.pick(2, 3) if part == 'stack' else 2), invariants=['Safe', 'Answered', 'Logged', 'Informed']))
        x = r.tagged('STIM'); ck.notes['histories_' + part] = len(x)
        for s in rng.sample(x, min(len(x), ck.pick(900, 12000))):
            h = json.loads(s)
            if part == 'stack': h = [dict(op='route', name='h', verb=rng.choice(['Get', 'Handle', 'Post']), pat='/a', kind=rng.choice(['ok', 'panic']), form='c')] * (rng.random() < .7) + h
            st.append(h + [req(rng, m, '/a') for m in METHODS] + [req(rng, 'GET', '/b'), req(rng, 'OPTIONS', '/b')])
    st += [[req(rng, m, '/a') for m in METHODS]] + [rand_mux(rng) for _ in range(ck.pick(2500, 25000))]
    ck.judge('TopTrace', st, drive(st), rerun=drive, label='calls', tries=2, need=2)

    drive2 = lambda st: ck.drive(b, 'run', st, procs=min(len(st), 48), chunk=max(1, (len(st) + 47) // 48))
    r = ck.explore('TopRunGen', cfg(dict(MaxOps=ck.pick(5, 6)), invariants=['Complete', 'Unforced', 'NoLinger', 'Kept']))
    hs = [json.loads(x) for x in r.tagged('STIM')]
    ck.notes['histories_run'] = len(hs)
    # every kind of history is taken as often as every other one
    kinds = {}
    for h in hs: kinds.setdefault((h['how'], frozenset(e['op'] + str(e.get('ms', '')) for e in h['hist']), sum(e['op'] == 'sig' for e in h['hist'])), []).append(h)
    st = []
    for i in range(ck.pick(400, 4000)):
        h = rng.choice(kinds[rng.choice(sorted(kinds, key=str))])
        how = h['how'] if h['how'] == 'einhorn' or any(e['op'] == 'break' for e in h['hist']) else rng.choice(['listener', 'flag', 'env', 'port', 'tls'])
        st.append([dict(op='boot', how=how, own=rng.random() < .1, parsed=rng.random() < .3, probe=True, s='')] + h['hist'])
    st += [[dict(op='boot', how='einhorn', own=False, parsed=False, probe=False, s=rng.choice(['INT', 'USR2']))] for _ in range(ck.pick(30, 200))]
    st += [[dict(op='boot', how=how, own=own, parsed=False, probe=True, s=''), *[dict(op='req', c=1, path=p) for p in ('/goji', '/nope', '/panic', '/debug/x', '/late', '/debug/late')], dict(op='late'),
            *[dict(op='req', c=2, path=p) for p in ('/late', '/debug/late', '/panic', '/goji')], dict(op='sig', s='INT')] for how in ('listener', 'flag', 'env', 'port', 'einhorn', 'tls') for own in (False, True)]
    ck.judge('TopRunTrace', st, drive2(st), rerun=drive2, label='serving', tries=3, need=2)


def replay(ck, path):
    with open(path) as f:
        info = json.load(f)
    b = ck.go_build('./cmd/topdrv')
    what = 'mux' if info['module'] == 'TopTrace' else 'run'
    ck.judge(info['module'], [info['stimulus']], ck.drive(b, what, [info['stimulus']]))
    return ck.finish()
