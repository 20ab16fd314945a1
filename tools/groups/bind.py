"""C30, C31, C32: spec Bind."""
import json
from vlib import *
from groups.listener import strategies

FDS = ['tcp', 'unix', 'file', 'tcp', 'unix', 'tcp']
CFG = 'CONSTANTS\n  Strict <- StrictProp\nINIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n'
MAL = ['', 'x', '12a', ' 3', '3 ', '1.0', '0x3', 'one', '-', '99999999999999999999', '1_0', '1e1']


def prog(env, cmds, fds=FDS):
    return [dict(env=[list(x) for x in env.items()], fds=fds, cmds=[dict(op=c[0], s=str(c[1]) if len(c) > 1 else '', n=c[2] if len(c) > 2 else 0) for c in cmds])]


def concrete(env):
    f = lambda k, v: {'1001': '$PID', '1000': '$PPID', '999999': '$OTHER'}.get(v, v) if k.endswith('_PID') else v
    return {k: f(k, v) for k, v in env.items()}


def full(env, rng):
    """all the calls in one environment"""
    e = dict(env, EINHORN_SOCK_PATH='$D/ctl')
    c = [('fds', '', len(FDS)), ('sniff',)]
    d = rng.choice([':8000', ':0', 'other', ''])
    if d != ':8000': c.append(('default', d))
    c.append(('flag',))
    if rng.random() < .4: c.append(('ready', '', rng.choice([1, 1, 2, 8])))
    return prog(e, c)


def rand_env(rng):
    e = {}
    def put(k, vs):
        v = rng.choice(vs)
        if v is not None: e[k] = v
    put('GOJI_BIND', [None, None, '', ':0', './u2', 'einhorn@1', 'fd@3', 'x y', '/n:o', ':'])
    put('EINHORN_MASTER_PID', [None, '$PPID', '$PPID', '$PPID', '$PID', '$OTHER', '1', rng.choice(MAL), '-$PPID'])
    put('EINHORN_FD_COUNT', [None, '1', '2', '3', '4', '0', '-1', '-4', rng.choice(MAL)])
    put('LISTEN_PID', [None, '$PID', '$PID', '$PPID', '$OTHER', rng.choice(MAL)])
    put('LISTEN_FDS', [None, '1', '2', '3', '0', '-2', rng.choice(MAL)])
    put('PORT', [None, '', '0', '$PORT', 'http', ' ', '-1'])
    fds = rng.sample(range(3, 3 + len(FDS)), 4)
    e.update({'EINHORN_FD_%d' % i: str(fd) for i, fd in enumerate(fds)})
    e['EINHORN_FD_-1'] = str(fds[0])
    if rng.random() < .2 and e.get('EINHORN_MASTER_PID') != '$PPID': e = {k: v for k, v in e.items() if not k.startswith('EINHORN_FD_') or k == 'EINHORN_FD_COUNT'}
    return e


BINDS = [':0', '127.0.0.1:0', ':$PORT', '127.0.0.1:$PORT', '/u1:0', '$D/u1:0:0', './u1:x', '127.0.0.1:99999', 'einhorn@0:1:2', 'fd@3:4:5', ':x', '127.0.0.1:-1',
         '$D/u1', '$D/u2', '$D/sub/u1', './u1', './sub/u2', './u2', '$D/no/u1', './no/u1', '$D/taken', './taken', '.', '/', '$D', './', '.u1',
         'fd@3', 'fd@4', 'fd@5', 'fd@6', 'fd@7', 'fd@8', 'fd@99', 'fd@', 'fd@x', 'fd@3x', 'fd@ 3', 'fd@-1', 'fd@1000000', 'FD@3', ' fd@3', 'fd3', 'fd@3.', 'fd@3/',
         'einhorn@0', 'einhorn@1', 'einhorn@2', 'einhorn@3', 'einhorn@4', 'einhorn@5', 'einhorn@9', 'einhorn@', 'einhorn@x', 'einhorn@-1', 'einhorn@-3', 'einhorn', 'einhorn@0 ', 'Einhorn@0', 'einhorn@1/', 'einhorn@1.',
         '', 'x', 'u1', '8000', 'u1/', 'x.', 'unix', ' /u1', ' ./u1', 'localhost', '@3', '-']


def life(rng):
    e = dict(rand_env(rng), EINHORN_SOCK_PATH='$D/ctl')
    c, fd = [], {int(v) for k, v in e.items() if k.startswith('EINHORN_FD_') and k != 'EINHORN_FD_COUNT'}
    used, ok = set(), lambda s: True
    def free(s):   # nothing is opened twice
        m = re.match(r'(fd|einhorn)@(\d+)', s)
        k = s if not m else m.group(2) if m.group(1) == 'fd' else e.get('EINHORN_FD_' + m.group(2), s)
        k = k.replace('$D', '.')
        if k in used: return False
        used.add(k); return True
    flag = False
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        x = rng.random()
        if x < .6:
            s = rng.choice(BINDS if rng.random() < .5 else BINDS[:4] + BINDS[12:17] + BINDS[27:33] + BINDS[44:50])
            if ('$PORT' not in s or '$PORT' not in str(c)) and free(s): c.append(('sock', s))
        elif x < .7 and not flag:
            flag = True
            if rng.random() < .5: c.append(('default', ':0'))
            c.append(('flag',))
            s = rng.choice(BINDS)
            if rng.random() < .7 and '$PORT' not in s and free(s): c += [('parse', s), ('dsock',)]
        else: c.append(('ready', '', rng.choice([1, 2, 4, 8])))
    return prog(e, [('fds', '', len(FDS))] + c)


def run(ck):
    rng, pid = ck.rng, ck.pid
    b = ck.go_build('./cmd/binddrv')
    drive = lambda st: ck.drive(b, 'bind', st)
    inv = ['Opens', 'Order', 'OursArePassed']
    gen = lambda **k: cfg(dict(k), invariants=inv).replace('CONSTANTS\n', 'CONSTANTS\n  Strict <- all\n')
    r = ck.explore('BindGen', gen(Part='env', MaxOps=1))
    x = r.tagged('STIM'); ck.notes['environments'] = len(x)
    if not ck.thorough(): x = rng.sample(x, {'C30': 6000}.get(pid, 2500))
    st = [full(concrete(json.loads(s)['env']), rng) for s in x]
    ck.judge('BindTrace', st, drive(st), rerun=drive, label='environments', cfg=CFG, tries=2, need=2)
    if pid != 'C30':
        r = ck.explore('BindGen', gen(Part='life', MaxOps=ck.pick(3, 4)))
        x = r.tagged('STIM'); ck.notes['short_lives'] = len(x)
        x = rng.sample(x, min(len(x), ck.pick(2500, 30000)))
        st = []
        for s in x:
            j = json.loads(s)
            st.append(prog(dict(concrete(j['env']), EINHORN_SOCK_PATH='$D/ctl'), [('fds', '', len(FDS))] + [y for c in j['cmds'] for y in (
                [('default', c['s']), ('flag',)] if c['op'] == 'flag' else [(c['op'], c['s'].replace('/D/', '$D/'), rng.choice([1, 2, 8]))])]))
        ck.judge('BindTrace', st, drive(st), rerun=drive, label='short lives', cfg=CFG, tries=2, need=2)
    st = [life(rng) if pid != 'C30' else full(rand_env(rng), rng) for _ in range(ck.pick(2500, 40000))]
    ck.judge('BindTrace', st, drive(st), rerun=drive, label='random lives', cfg=CFG, tries=2, need=2)


    if pid == 'C32': schedules(ck)


def sched_build(ck): return ck.go_build('./cmd/bindsched', srcdir=ck.sched_module(['+bind']), test=True)


def schedules(ck):
    """readiness declared at once, under all schedules with two preemptions and random ones"""
    rng, b, st = ck.rng, sched_build(ck), []
    envs = [dict(EINHORN_MASTER_PID='$PPID', EINHORN_FD_COUNT='1', EINHORN_FD_0='201'), dict(EINHORN_MASTER_PID='$PPID', EINHORN_FD_COUNT='2', EINHORN_FD_0='201', EINHORN_FD_1='205', LISTEN_PID='$PID', LISTEN_FDS='0'),
            dict(EINHORN_MASTER_PID='$PID', EINHORN_FD_COUNT='1', EINHORN_FD_0='201'), dict(EINHORN_MASTER_PID='$PPID', EINHORN_FD_COUNT='0'), {}]
    for e in envs:
        st.append(dict(prog=dict(env=e, n=[1, 1]), sched=[], grid=40))
        st.append(dict(prog=dict(env=e, n=[2, 1]), sched=[], grid=40, stride=2))
        for n in ([1, 1], [1, 1, 1], [2, 1, 2], [1] * 5, [3] * 4, [1] * 9):
            st.append(dict(prog=dict(env=e, n=n), sched=strategies(rng, ck.pick(40, 1000)), grid=0))
    rerun = lambda x: ck.sched_drive(b, 'bind', x)[1]
    ck.judge('BindTrace', *ck.sched_drive(b, 'bind', st), rerun=rerun, label='concurrent declarations', cfg=CFG, tries=3)
    ck.notes['schedules_executed'] = ck.schedules


def replay(ck, path):
    with open(path) as f:
        info = json.load(f)
    if isinstance(info['stimulus'], dict):
        st, tr = ck.sched_drive(sched_build(ck), 'bind', [info['stimulus']])
        ck.judge('BindTrace', st, tr, cfg=CFG)
        return ck.finish()
    b = ck.go_build('./cmd/binddrv')
    ck.judge('BindTrace', [info['stimulus']], ck.drive(b, 'bind', [info['stimulus']]), cfg=CFG)
    return ck.finish()
