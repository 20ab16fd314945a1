"""C14, C15, C16, C18: spec Response."""
import itertools, json
from vlib import *

LETTERS = 'abcdefghijklmnopqrstuvwxyz'
STD = ['CONNECT', 'DELETE', 'GET', 'HEAD', 'OPTIONS', 'PATCH', 'POST', 'PUT', 'TRACE']
PANICS = ['error', 'abort', 'weird', 'nilptr', 'runtime', 'index', 'int', 'struct', 'empty', 'func', 'str']
KEY = dict(C14='W', C15='R', C16='A', C18='L')


def op(o, s='', n=0, **kw):
    return dict(o=o, s=s, n=n, **kw)


def from_gen(x):
    j = json.loads(x)
    for o in j['prog']:
        if o['o'] == 'copy': o['step'] = 1 + len(o['s']) % 3
    rq = j['rq']; rq['routes'] = sorted(rq['routes'])
    return [dict(op='begin', rq=rq, how=j['how'], on='')] + j['prog']


def uses_bad(st):
    return any(o.get('o') == 'wh' and (o['n'] < 100 or o['n'] > 999) for o in st[1:])


def rand_run(rng, pid, on=''):
    key = KEY[pid]
    kinds = dict(C14='WWWLRI', C15='RRLAIWBZ', C16='AALWRI', C18='LLIRWA')[pid]
    n = rng.choice([1, 1, 2, 2, 3, 4, 5])
    layers = [rng.choice(kinds) for _ in range(n)]
    if key not in layers: layers[rng.randrange(n)] = key
    caps = dict(zip(('fl', 'hj', 'rf', 'pu'), (rng.random() < p for p in (.8, .7, .7, .4))))
    if not caps['fl']: caps['pu'] = False
    if on == 'h1': caps = dict(fl=True, hj=True, rf=True, pu=False)
    if on == 'h2': caps = dict(fl=True, hj=False, rf=False, pu=False)
    method = rng.choice(['GET', 'GET', 'POST', 'HEAD', 'PUT', 'OPTIONS'] if pid != 'C16' else ['OPTIONS'] * 4 + ['GET', 'HEAD', 'POST', 'DELETE', 'PATCH', 'TRACE'])
    if on and method == 'TRACE': method = 'PUT'
    routes = sorted({rng.choice(STD) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))})
    if pid != 'C16' and rng.random() < .6: routes = sorted(set(routes) | {method})
    rq = dict(layers=layers, caps=caps, cap=10000 if on else rng.choice([1, 2, 5, 17, 10000, 10000]), method=method,
              hit=rng.random() < .85, routes=routes, given=rng.choice(['none', 'given', 'foreign', 'other']))
    prog, k = [], 0
    ws = [i + 1 for i, l in enumerate(layers) if l == 'W']
    final = [200, 200, 201, 204, 304, 302, 404, 404, 500, 503] + ([] if on else [101, 600, 999])
    if pid == 'C16': final += [404] * 10
    bad = [0, 1, 99, 1000, -5]
    big = rng.random() < .15
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9])):
        x = rng.random()
        data = ''.join(LETTERS[(k + i) % 26] for i in range(rng.choice([1, 1, 2, 3, 7, 700 if big else 4]))); 
        if x < .18: prog.append(op('wh', n=rng.choice(final)))
        elif x < .24: prog.append(op('wh', n=rng.choice([103, 102, 199] if not on else [103, 102])))
        elif x < .26 and pid in ('C14', 'C15'): prog.append(op('wh', n=rng.choice(bad)))
        elif x < .42: prog.append(op(rng.choice(['write', 'wstr']), data)); k += len(data)
        elif x < .46: prog.append(op('write', ''))
        elif x < .60: prog.append(op('copy', rng.choice([data, data, data, '']), rng.choice([0, 0, 1]), step=rng.choice([1, 2, 3, 1000]))); k += len(data)
        elif x < .70: prog.append(op('flush'))
        elif x < .73: prog.append(op('push', '/' + data[:2], 0))
        elif x < .755: prog.append(op('hijack'))
        elif x < .85 and ws: prog.append(op('tee', rng.choice(['', 't1', 't2', 't2']), rng.choice(ws)))
        elif x < .92: prog.append(op('hset', rng.choice(['X-A', 'X-B', 'Allow'] + ([] if on else ['Content-Length'])), rng.randint(1, 9)))
        elif x < .94: prog.append(op('hdel', rng.choice(['X-A', 'X-B', 'Allow'])))
        elif pid in ('C15', 'C18') and not on and x < .97: prog.append(op('panic', rng.choice(PANICS))); break
    how = 'ret'
    if pid == 'C15' and rng.random() < .4: prog.append(op('panic', rng.choice(PANICS)))
    if on == 'h1':   # net/http itself may panic after a hijack
        h = next((i for i, o in enumerate(prog) if o['o'] == 'hijack'), None)
        if h is not None: prog, how = prog[:h + 1], 'ret'
    if on == 'h2':   # what net/http's HTTP/2 server does differently with misuse is not our business
        if method == 'HEAD' or any(o['o'] == 'wh' and o['n'] in (204, 304) for o in prog): return rand_run(rng, pid, on)
        k = next((i for i, o in enumerate(prog) if o['o'] in ('write', 'wstr', 'copy', 'flush') or o['o'] == 'wh' and o['n'] >= 200), len(prog))
        prog = [o for i, o in enumerate(prog) if i < k or not (o['o'] == 'wh' and 100 <= o['n'] < 200)]
    # over a real server only panics that are caught
    if on and (escapes(layers, prog) or any(o['o'] == 'hijack' for o in prog) and ('Z' in layers or 'B' in layers)): return rand_run(rng, pid, on)
    if on and any(o['o'] == 'hijack' for o in prog) and any(o['o'] == 'panic' or o['n'] in bad and o['o'] == 'wh' for o in prog): return rand_run(rng, pid, on)
    return [dict(op='begin', rq=rq, how=how, on=on, tail=rng.choice(['', '', '?x=1&y=%22', '?a=%C3%A9+b', '?']))] + prog


def rand_series(rng, pid, on=''):
    """Several requests of one mux."""
    s = rand_run(rng, pid, on)
    for _ in range(rng.choice([0, 0, 0, 1, 3])):
        for _ in range(50):
            t = rand_run(rng, pid, on)
            t[0]['rq'].update({k: s[0]['rq'][k] for k in ('layers', 'routes')})
            ws = [i + 1 for i, l in enumerate(t[0]['rq']['layers']) if l == 'W']
            t = [o for o in t if o.get('o') != 'tee' or o['n'] in ws]
            if on and escapes(t[0]['rq']['layers'], t[1:]) or on and {'Z', 'B'} & set(t[0]['rq']['layers']): continue
            s += t
            break
    return s


def escapes(layers, prog):
    r = min((i for i, l in enumerate(layers) if l == 'R'), default=99)
    bad = any(o.get('o') == 'panic' or o.get('o') == 'wh' and not 100 <= o['n'] <= 999 for o in prog)
    return (bad and r == 99) or any(l in 'BZ' and i < r for i, l in enumerate(layers))


def run(ck):
    b = ck.go_build('./cmd/webdrv')
    drive = lambda st: ck.drive(b, 'response', st)
    rng, pid = ck.rng, ck.pid
    inv = ['Transparent', 'TrueAccounts', 'Recovered', 'Caught', 'Suppressed', 'OneStartOneEnd']
    layers, depth = dict(C14=ck.pick((1, 3), (2, 3)), C15=ck.pick((2, 2), (3, 3)), C16=ck.pick((2, 2), (3, 3)),
                         C18=ck.pick((2, 3), (3, 3)))[pid]
    r = ck.explore('ResponseGen', cfg(dict(Family=pid, MaxLayers=layers, Depth=depth), invariants=inv, properties=['StatusFinal']))
    st = [from_gen(x) for x in r.tagged('STIM')]
    ck.notes['exhaustive_programs'] = len(st)
    ck.judge('ResponseTrace', st, drive(st), rerun=drive, label='exhaustive programs')
    st = [rand_series(rng, pid) for _ in range(ck.pick(12000, 120000))]
    ck.judge('ResponseTrace', st, drive(st), rerun=drive, label='random programs')
    for on in ('h1', 'h2'):
        st = [rand_series(rng, pid, on) for _ in range(ck.pick(1500, 15000))]
        ck.judge('ResponseTrace', st, drive(st), rerun=drive, label='over real HTTP, ' + on)
    ck.assumptions += ['the accounts are not compared after a hijack', 'the client\'s writer behaves like net/http\'s (specified as level 0 of Response)']


def replay(ck, path):
    with open(path) as f:
        info = json.load(f)
    b = ck.go_build('./cmd/webdrv')
    ck.judge('ResponseTrace', [info['stimulus']], ck.drive(b, 'response', [info['stimulus']]))
    return ck.finish()
