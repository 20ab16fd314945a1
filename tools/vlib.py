"""Infrastructure shared by the checks: TLC, Go drivers, traces, verdicts, evidence."""
import atexit, glob, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_TEST_REPO', '/repo')   # set only when testing the checks themselves on scratch copies
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(1, os.cpu_count() or 1)


class CheckError(Exception):
    """Trouble with the check itself (exit 2), never a verdict."""


def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off', GO111MODULE='on',
             GOWORK='off', CGO_ENABLED='0')
    e.setdefault('HOME', '/root')
    e['PATH'] = e.get('PATH', '') + ':/usr/local/go/bin:/usr/local/bin'
    return e


class TLC:
    """Result of one TLC run."""
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        self.states = self.distinct = 0
        m = re.findall(r'^([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out, re.M)
        if m:
            self.states, self.distinct = (int(x.replace(',', '')) for x in m[-1])
        else:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            if m:
                self.states = self.distinct = int(m[-1].replace(',', ''))
        self.messages = []
        for line in out.splitlines():
            if len(line) > 4 and line[0] == '"' and line[-1] == '"':
                try:
                    self.messages.append(json.loads(line))
                except ValueError:
                    self.messages.append(line[1:-1])

    def tagged(self, tag):
        p = tag + ' '
        return [m[len(p):] for m in self.messages if m.startswith(p)]


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s/%s' % (pid, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        atexit.register(self.cleanup)
        self.states = self.transitions = 0
        self.validated = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.tlcn = 0
        self.drivers = {}

    def cleanup(self):
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.work, ignore_errors=True)

    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=None, timeout=600, extra=(), allow=(0,), heap='6g', props=()):
        self.tlcn += 1
        d = os.path.join(self.work, 'tlc%d' % self.tlcn)
        os.makedirs(d)
        for f in glob.glob(os.path.join(SPEC, '*.tla')):
            os.symlink(f, os.path.join(d, os.path.basename(f)))
        with open(os.path.join(d, 'M.cfg'), 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m'] + list(props) + ['-cp', JARS, 'tlc2.TLC',
               '-config', 'M.cfg', '-workers', str(workers or NCPU), '-metadir', os.path.join(d, 'meta'),
               '-noGenerateSpecTE', '-deadlock', '-nowarning'] + list(extra) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired as x:
            raise CheckError('TLC timed out after %ss on %s' % (timeout, module))
        r = TLC(p.returncode, p.stdout)
        if p.returncode not in allow:
            raise CheckError('TLC failed (%d) on %s:\n%s' % (p.returncode, module, "\n".join(x for x in p.stdout.splitlines() if not x.startswith("\"STIM"))[-6000:]))
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        return r

    def explore(self, module, cfg, **kw):
        """Exhaustive exploration of a design model; violations of its invariants are errors of the
        specification (exit 2): verdicts come from the code only."""
        r = self.tlc(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.states
        self.log('TLC %s: %d states generated, %d distinct' % (module, r.states, r.distinct))
        return r

    def listed_findings(self):
        """id -> description of the known findings listed for this property."""
        with open(os.path.join(VERIF, 'known-findings.txt')) as f:
            m = [re.match(r'known: property=(\S+) id=(\S+) (.*)', x) for x in f]
        return {x.group(2): x.group(3) for x in m if x and x.group(1) == self.pid}

    def rejects(self, module, traces, cfg=None):
        rej, _ = self.judge_once(module, traces, cfg=cfg)
        return bool(rej)

    # ---------------------------------------------------------------- Go
    def go_build(self, pkg, srcdir=None, gomod=None, tags=None, test=False, name=None, overlay=None):
        key = (pkg, srcdir)
        if key in self.drivers:
            return self.drivers[key]
        out = os.path.join(self.work, 'bin-%d-%s' % (len(self.drivers), os.path.basename(pkg)))
        src = srcdir or self.module()
        cmd = (['go', 'test', '-c', '-vet=off'] if test else ['go', 'build']) + ['-o', out]
        if tags:
            cmd += ['-tags', tags]
        if test and not overlay:
            overlay = self.http_overlay()
        if overlay:
            cmd += ['-overlay', overlay]
        cmd.append(pkg)
        p = subprocess.run(cmd, cwd=src, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=600, errors='replace')
        if p.returncode != 0:
            raise CheckError('go build %s failed:\n%s' % (pkg, "\n".join(x for x in p.stdout.splitlines() if not x.startswith("\"STIM"))[-6000:]))
        self.drivers[key] = out
        return out

    def module(self):
        """A scratch copy of the harness module, bound to /repo's working tree."""
        d = os.path.join(self.work, 'harness')
        if not os.path.isdir(d):
            shutil.copytree(HARNESS, d)
            repo = REPO
            if not os.path.exists(os.path.join(REPO, 'go.mod')):
                repo = self.repo_copy()
            with open(os.path.join(d, 'go.mod'), 'w') as f:
                f.write('module verif\n\ngo 1.25\n\nrequire github.com/zenazn/goji v0.0.0\n\n'
                        'replace github.com/zenazn/goji => %s\n' % repo)
        return d

    def sched_module(self, pkgs):
        """A scratch copy of the harness module bound to a copy of the repository whose packages
        are rewritten for the controlled scheduler (a leading + generates VerifInit)."""
        d = os.path.join(self.work, 'sharness')
        if not os.path.isdir(d):
            shutil.copytree(HARNESS, d)
            repo = self.repo_copy('srepo')
            with open(os.path.join(d, 'go.mod'), 'w') as f:
                f.write('module verif\n\ngo 1.25\n\nrequire github.com/zenazn/goji v0.0.0\n\n'
                        'replace github.com/zenazn/goji => %s\n' % repo)
            tool = self.go_build('./cmd/rewrite')
            p = subprocess.run([tool, repo] + pkgs, cwd=repo, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=300, errors='replace')
            if p.returncode != 0:
                raise CheckError('rewriting failed:\n' + p.stdout[-3000:])
        return d

    def http_overlay(self):
        """net/http with mutexes on which a goroutine of a bubble blocks durably: the controlled
        scheduler may suspend a goroutine that holds one."""
        root = subprocess.run(['go', 'env', 'GOROOT'], env=goenv(), stdout=subprocess.PIPE, text=True, cwd=self.work).stdout.strip()
        src = os.path.join(root, 'src/net/http/server.go')
        with open(src) as f:
            s = f.read()
        i = s.find('func (s *Server) closeIdleConns')
        j = s.find('c.rwc.Close()', i)
        if i < 0 or j < 0:
            raise CheckError('net/http: closeIdleConns is not as expected')
        s = s[:j] + 'if VerifIdle != nil {\n\t\t\tVerifIdle(c.rwc)\n\t\t}\n\t\t' + s[j:]
        s = re.sub(r'\bsync\.Mutex\b', 'bubbleMutex', s) + '''

var VerifIdle func(net.Conn)

type bubbleMutex struct {
	m    sync.Mutex
	c    *sync.Cond
	held bool
}

func (b *bubbleMutex) Lock() {
	b.m.Lock()
	if b.c == nil {
		b.c = sync.NewCond(&b.m)
	}
	for b.held {
		b.c.Wait()
	}
	b.held = true
	b.m.Unlock()
}

func (b *bubbleMutex) Unlock() {
	b.m.Lock()
	b.held = false
	b.c.Signal()
	b.m.Unlock()
}
'''
        d = os.path.join(self.work, 'nethttp')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'server.go'), 'w') as f:
            f.write(s)
        with open(os.path.join(d, 'overlay.json'), 'w') as f:
            json.dump(dict(Replace={src: os.path.join(d, 'server.go')}), f)
        return os.path.join(d, 'overlay.json')

    def repo_copy(self, name='repo'):
        d = os.path.join(self.work, name)
        if not os.path.isdir(d):
            shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git'))
            gm = os.path.join(d, 'go.mod')
            if not os.path.exists(gm):
                with open(gm, 'w') as f:
                    f.write('module github.com/zenazn/goji\n\ngo 1.20\n')
        return d

    # ---------------------------------------------------------------- driving
    def drive(self, binary, cmd, stimuli, timeout=300, procs=None, chunk=None, env=None, isolate=True, crash_ok=True):
        """Runs the stimuli through `binary cmd IN OUT`, split over processes; returns one trace
        per stimulus.  A stimulus which kills the driver reproducibly yields a trace that ends in
        a crash event (which no specification has)."""
        n = len(stimuli)
        if n == 0:
            return []
        procs = procs or NCPU
        if chunk is None:
            chunk = max(1, min(2000, (n + procs - 1) // procs))
        parts = [(i, stimuli[i:i + chunk]) for i in range(0, n, chunk)]
        res = [None] * n

        def run(part, tmo):
            fd, fin = tempfile.mkstemp(dir=self.work, suffix='.in'); os.close(fd)
            fout = fin[:-3] + '.out'
            with open(fin, 'w') as f:
                json.dump(part, f)
            e = goenv(); e.update(env or {})
            try:
                p = subprocess.run([binary] + (cmd if isinstance(cmd, list) else [cmd]) + [fin, fout], env=e, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=tmo, cwd=self.work, errors='replace',
                                   stdin=subprocess.DEVNULL)
                rc, out = p.returncode, p.stdout
            except subprocess.TimeoutExpired as x:
                rc, out = -99, 'timeout'
            try:
                with open(fout) as f:
                    tr = json.load(f)
            except (OSError, ValueError):
                tr = None
            for x in (fin, fout):
                try: os.unlink(x)
                except OSError: pass
            if rc == 0 and tr is not None and len(tr) == len(part):
                return tr, ''
            if rc == 3:
                raise CheckError('driver %s: %s' % (cmd, out[-3000:]))
            return None, 'exit %s: %s' % (rc, out[-1500:])

        def solve(part, tmo):
            tr, err = run(part, tmo)
            if tr is not None:
                return tr
            if len(part) == 1:
                tr, err2 = run(part, tmo)          # must be reproducible
                if tr is not None:
                    return tr
                return [[{'op': 'crash', 'msg': err2[-1500:]}]]
            if not crash_ok or self.crashes > 40:
                raise CheckError('driver died: ' + err)
            self.crashes += 1
            h = len(part) // 2
            return solve(part[:h], tmo) + solve(part[h:], tmo)
        self.crashes = 0

        def job(p):
            i, part = p
            tr = solve(part, timeout)
            res[i:i + len(part)] = tr
        with ThreadPoolExecutor(procs) as ex:
            for f in [ex.submit(job, p) for p in parts]:
                f.result()
        return res

    def sched_drive(self, binary, cmd, items, head=None, timeout=600, chunk=None, env=None, procs=None):
        """Runs items {prog, sched, grid} under the controlled scheduler.  Returns (stimuli, traces):
        one entry per distinct trace; the stimulus names the one schedule that led to it."""
        out = self.drive(binary, [cmd], items, timeout=timeout, chunk=chunk, env=dict(dict(PIN='1', GOGC='200'), **(env or {})), procs=procs)
        self.log('ran %d programs under the scheduler' % len(items))
        st, tr = [], []
        for it, rs in zip(items, out):
            for r in rs:
                if 'trace' not in r:
                    r = dict(trace=([head(it)] if head else []) + [dict(op='crash', msg=r.get('msg', ''))], sched=(it.get('sched') or [{}])[0], n=1)
                    st.append(it)
                else:
                    st.append(dict(prog=it['prog'], sched=[r['sched']], grid=0))
                tr.append(r['trace'])
                self.schedules = getattr(self, 'schedules', 0) + r['n']
        return st, tr

    # ---------------------------------------------------------------- judging
    def judge_once(self, module, traces, cfg=None, env=None, timeout=600, workers=None, props=(), heap='6g', chunk=None):
        """Returns (set of rejected indices, diagnostics by index)."""
        chunk = chunk or 20000
        rejected, diag = set(), {}
        for base in range(0, len(traces), chunk):
            part = traces[base:base + chunk]
            f = os.path.join(self.work, 'traces%d.json' % (self.tlcn + 1))
            with open(f, 'w') as fh:
                json.dump(part, fh)
            e = dict(TRACES=f, PROP=self.pid, DIAG='0')
            e.update(env or {})
            c = cfg or 'INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n'
            r = self.tlc(module, c, env=e, timeout=timeout, workers=workers, props=props, heap=heap)
            os.unlink(f)
            acc = {int(x) for x in r.tagged('ACC')}
            self.states += r.distinct
            self.transitions += r.states
            for x in r.tagged('REJ'):
                a, b, why = (x.split(' ', 2) + ['', ''])[:3]
                diag.setdefault(base + int(a) - 1, {'step': int(b), 'expected': why})
            at = {}
            for x in r.tagged('AT'):
                a, b = x.split(' ')[:2]
                at[int(a)] = max(at.get(int(a), 0), int(b))
            for i in range(1, len(part) + 1):
                if i not in acc and len(part[i - 1]) > 0:
                    rejected.add(base + i - 1)
                    if i in at:
                        diag.setdefault(base + i - 1, {'step': at[i] + 1})
        return rejected, diag

    def judge(self, module, stimuli, traces, rerun=None, env=None, label='', need=1, tries=1, **kw):
        """Judges the traces; rejected ones are re-executed (rerun(stimuli) -> traces) and count as
        violations when `need` of `tries` re-executions are rejected too."""
        rej, diag = self.judge_once(module, traces, env=env, **kw)
        self.validated += len(traces) - len(rej)
        self.log('judged %d traces (%s%s): %d rejected' % (len(traces), module, ' ' + label if label else '', len(rej)))
        if traces and len(self.samples) < 3:
            k = self.rng.randrange(len(traces))
            self.samples.append(trunc({'spec': module, 'trace': traces[k]}))
        confirmed = []
        for i in sorted(rej)[:12]:
            if rerun is None:
                confirmed.append((i, traces[i], diag.get(i)))
            else:
                bad, last, ld = 0, None, None
                for _ in range(tries):
                    tr2 = rerun([stimuli[i]])
                    r2, d2 = self.judge_once(module, tr2, env=env, **kw)
                    if r2:
                        bad += 1
                        last, ld = tr2[0], d2.get(0)
                    if bad >= need:
                        break
                if bad >= need:
                    confirmed.append((i, last, ld))
                else:
                    self.notes['unconfirmed'] = self.notes.get('unconfirmed', 0) + 1
                    self.log('not confirmed on re-execution:', json.dumps(traces[i])[:1500], diag.get(i))
                    dump = os.path.join(VERIF, 'replays', '%s-unconfirmed.json' % self.pid)
                    os.makedirs(os.path.dirname(dump), exist_ok=True)
                    with open(dump, 'w') as f:
                        json.dump(dict(module=module, env=env or {}, stimulus=stimuli[i], trace=traces[i], diag=diag.get(i)), f)
            if len(confirmed) >= 3:
                break
        for i, tr, d in confirmed:
            if d is None:       # nondeterministic specification: how far did it get?
                _, dd = self.judge_once(module, [tr], env=dict(env or {}, DIAG='1'), **kw)
                d = dd.get(0)
            self.violation(dict(module=module, label=label, env=env or {}, stimulus=stimuli[i] if stimuli else None,
                                trace=tr, diagnosis=d))
        return [c[0] for c in confirmed]

    # ---------------------------------------------------------------- verdicts
    def violation(self, info):
        self.violations.append(info)

    def finish(self, level='model_checking'):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated, samples=self.samples[:3] or ['none'])
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.violations))
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if self.violations:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            for n, info in enumerate(self.violations[:3]):
                path = os.path.join(d, '%s-%d.json' % (self.pid, n))
                with open(path, 'w') as f:
                    json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, **info), f, indent=1)
                self.log('rejected by %s at step %s: %s' % (info.get('module'), (info.get('diagnosis') or {}).get('step'),
                         describe(info)))
                print('VIOLATION property=%s replay=%s' % (self.pid, path), flush=True)
            return 1
        self.log('%s %s: held on everything explored (%d traces validated, %d states)' %
                 (self.pid, self.tier, self.validated, self.states))
        return 0


def describe(info):
    tr, d = info.get('trace') or [], info.get('diagnosis') or {}
    s = d.get('step')
    if s and 0 < s <= len(tr):
        return 'event %s; expected %s' % (json.dumps(tr[s - 1])[:800], str(d.get('expected'))[:800])
    return json.dumps(tr)[-800:]


def trunc(v, n=40, depth=0):
    if isinstance(v, list):
        return [trunc(x, n, depth + 1) for x in v[:n]] + (['...'] if len(v) > n else [])
    if isinstance(v, dict):
        return {k: trunc(x, n, depth + 1) for k, x in v.items()}
    if isinstance(v, str) and len(v) > 400:
        return v[:400] + '...'
    return v


def cfg(consts=None, init='Init', next='Next', invariants=(), constraints=(), action_constraints=(), view=None,
        properties=(), spec=None, symmetry=None, postcondition=None):
    s = ('SPECIFICATION %s\n' % spec) if spec else 'INIT %s\nNEXT %s\n' % (init, next)
    if consts:
        s += 'CONSTANTS\n' + ''.join('  %s = %s\n' % (k, tla(v)) for k, v in consts.items())
    for i in invariants: s += 'INVARIANT %s\n' % i
    for i in properties: s += 'PROPERTY %s\n' % i
    for i in constraints: s += 'CONSTRAINT %s\n' % i
    for i in action_constraints: s += 'ACTION_CONSTRAINT %s\n' % i
    if view: s += 'VIEW %s\n' % view
    if symmetry: s += 'SYMMETRY %s\n' % symmetry
    if postcondition: s += 'POSTCONDITION %s\n' % postcondition
    return s + 'CHECK_DEADLOCK FALSE\n'


def tla(v):
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
    if isinstance(v, (set, frozenset)): return '{' + ', '.join(tla(x) for x in sorted(v, key=repr)) + '}'
    if isinstance(v, (list, tuple)): return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, Raw): return v.s
    raise TypeError(v)


class Raw:
    def __init__(self, s): self.s = s
