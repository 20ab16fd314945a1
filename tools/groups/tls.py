"""C34: spec Tls."""
import json
from vlib import *

CFG = 'CONSTANTS\n  Strict <- StrictProp\nINIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n'
PARTS = ['versions', 'protos', 'auth', 'suites', 'rest', 'chosen']
FILES = ['good'] * 30 + ['missing', 'nokey', 'mismatch', 'garbage', 'taken']
INV = ['Floor', 'Bounds', 'Http11', 'Offers', 'Known', 'NoForeignSession']
LISTS = [['nil'], ['nil'], [], ['h2'], ['http/1.1'], ['h2', 'http/1.1'], ['http/1.1', 'h2'], ['foo'], ['foo', 'http/1.1'], ['foo', 'bar'], ['bar', 'h2', 'foo']]


def fn(rng, c, how=None):
    return how or ('func' if not c['present'] and rng.random() < .5 else 'method')


def rand_cfg(rng, nest=True):
    def w(p, a, *b): return a if rng.random() < p else rng.choice(b)
    c = dict(present=rng.random() < .95, min=rng.choice([0, 0, 10, 11, 12, 13]), max=rng.choice([0, 0, 0, 13, 12, 11]),
             suites=w(.6, ['nil'], [], ['gcm'], ['cbc'], ['cha', 'cbc'], ['gcm', 'rsa'], ['cbc', 'gcm', 'cha']), protos=rng.choice(LISTS),
             curves=w(.7, ['nil'], ['p256'], ['x25519'], ['p384', 'p256']), auth=w(.5, 0, 1, 2, 3, 4), cas=w(.3, 'none', 'ca1', 'ca1', 'ca2'),
             tickets=w(.4, 'on', 'off', 'k1', 'k1', 'k2', 'f1', 'wrap', 'refuse'), vp=w(.6, 'none', 'ok', 'err'), vc=w(.7, 'none', 'ok', 'err'), keylog=rng.random() < .3,
             time=w(.9, 'none', 'future'), rand=w(.95, 'none', 'fail'), ech=rng.random() < .2, gc=w(.9, 'none', 'cert', 'err'), certs=rng.random() < .3, gcfc='none')
    if nest:
        c['gcfc'] = w(.8, 'none', 'nil', 'err', 'other', 'other')
        # what net/http and crypto/tls cannot do
        if c['gcfc'] != 'none': c['rand'] = 'none'
        if c['gcfc'] == 'other' and c['tickets'] == 'off': c['tickets'] = 'on'
        c['inner'] = dict(rand_cfg(rng, False), present=True, gc='none', tickets='on', ech=False, rand='none')
    if 'h2' in c['protos'] and not {'nil', 'gcm', 'rsa'} & set(c['suites']): c['suites'] = ['gcm']
    return c


def rand_cli(rng, cfg):
    def w(p, a, *b): return a if rng.random() < p else rng.choice(b)
    lo = rng.choice([10, 10, 10, 11, 12, 13])
    c = dict(kind=w(.97, 'tls', 'ssl3'), min=lo, max=rng.choice([v for v in (11, 12, 13, 13) if v >= lo]), suites=w(.7, ['nil'], ['gcm'], ['cbc'], ['cha', 'gcm']),
             protos=rng.choice([l for l in LISTS if l]), curves=w(.7, ['nil'], ['p256'], ['x25519'], ['p384', 'x25519']), sni=rng.random() < .8,
             cert=rng.choice(['none', 'ca1', 'ca2']), resume=False, ech=False)
    if cfg['ech'] and cfg['gcfc'] == 'none' and rng.random() < .5: c.update(ech=True, min=13, max=13, sni=True, kind='tls')
    elif c['sni'] and c['kind'] == 'tls' and rng.random() < .5: c['resume'] = True
    return c


def rand_prog(rng, how=None):
    cs = [rand_cfg(rng)]
    if rng.random() < .5:
        cs.append(dict(cs[0], tickets=rng.choice(['on', 'k1', 'k1', 'f1', 'k2', 'wrap'] + ['off'] * (cs[0]['gcfc'] != 'other'))))
        if rng.random() < .7: cs[0]['tickets'] = rng.choice(['k1', 'f1', 'wrap'])
    st = [dict(op='serve', cfg=c, files='good' if how else rng.choice(FILES), fn=fn(rng, c, how)) for c in cs]
    ks = [rand_cli(rng, cs[0]) for _ in range(2)]
    for _ in range(rng.choice([2, 3, 4, 6])):
        n = rng.randrange(len(cs))
        if st[n]['files'] == 'taken': continue
        st.append(dict(op='hs', srv=n + 1, cli=rng.choice(ks) if rng.random() < .6 else rand_cli(rng, cs[n])))
    return st


def stimuli(ck, how=None):
    rng, st = ck.rng, []
    gen = lambda part, n: cfg(dict(Part=part, MaxOps=n), init='TInit', invariants=INV).replace('CONSTANTS\n', 'CONSTANTS\n  Strict <- all\n')
    for p in PARTS:
        r = ck.explore('TlsGen', gen(p, 2))
        cf, cl = [json.loads(x) for x in r.tagged('CFG')], [json.loads(x) for x in r.tagged('CLI')]
        ck.notes['handshakes_' + p] = len(cf) * len(cl)
        for c in cf:
            ks = cl if ck.thorough() or len(cl) < 25 else rng.sample(cl, 25)
            st.append([dict(op='serve', cfg=c, files='good', fn=fn(rng, c, how))] + [dict(op='hs', srv=1, cli=k) for k in ks])
    r = ck.explore('TlsGen', gen('sessions', ck.pick(4, 5)))
    x = r.tagged('STIM'); ck.notes['session_histories'] = len(x)
    for s in rng.sample(x, min(len(x), ck.pick(3000, 20000))):
        st.append([dict(e, files='good', fn=fn(rng, e['cfg'], how)) if e['op'] == 'serve' else e for e in json.loads(s)])
    st += [rand_prog(rng, how) for _ in range(ck.pick(3000, 30000))]
    return st


def run(ck):
    b = ck.go_build('./cmd/tlsdrv')
    drive = lambda st: ck.drive(b, 'tls', st, chunk=400)
    st = stimuli(ck)
    tr = drive(st); ck.log('ran %d servers and clients' % len(tr))
    ck.judge('TlsTrace', st, tr, rerun=drive, label='all', cfg=CFG, tries=2, need=2)
    # the specification describes the standard library's server too
    rng = ck.rng
    sample = [[dict(e, fn='std') if e['op'] == 'serve' else e for e in s] for s in rng.sample(st, ck.pick(1500, 10000))
              if all(e['op'] != 'serve' or (e['cfg']['present'] and e['files'] == 'good') for e in s)]
    rej, diag = ck.judge_once('TlsTrace', drive(sample), cfg=CFG)
    ck.notes['standard_server_traces'] = len(sample)
    if rej:
        i = min(rej)
        raise CheckError('the standard server disagrees with the specification: %s %s' % (json.dumps(drive([sample[i]])[0])[:4000], diag.get(i)))


def replay(ck, path):
    with open(path) as f:
        info = json.load(f)
    b = ck.go_build('./cmd/tlsdrv')
    ck.judge('TlsTrace', [info['stimulus']], ck.drive(b, 'tls', [info['stimulus']]), cfg=CFG)
    return ck.finish()
