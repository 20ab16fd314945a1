"""mkseed.py DIR [ids]: turn seed sources into /verif/seeded/<id>/ after confirming them.

DIR/<id>.py defines property, needs, breaks, edits = [(file, old, new)] and demo (Go test source).
Everything happens in a scratch copy of /repo."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']
SH = '''#!/bin/sh
# Run in the root of the repository: exit 0 when it behaves.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
sed "s/^package .*/package zzdemo/" "$d/demo_test.go" > "$t/demo_test.go"
printf '{"Replace":{"%s/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$(pwd)" "$t" > "$t/overlay.json"
go test -vet=off -c -o "$t/demo" -overlay "$t/overlay.json" ./zzdemo || exit 2
cd "$t" && timeout 200 ./demo -test.timeout 120s
'''


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def one(path):
    name = os.path.basename(path)[:-3]
    s = importlib.util.spec_from_file_location(name, path); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    work = tempfile.mkdtemp(prefix='seed')
    d = work + '/repo'
    try:
        shutil.copytree('/repo', d)
        out = work + '/out'; os.mkdir(out)
        with open(out + '/demo_test.go', 'w') as f: f.write(m.demo)
        with open(out + '/demo.sh', 'w') as f: f.write(getattr(m, 'sh', SH))
        os.chmod(out + '/demo.sh', 0o755)
        r = sh('sh %s/demo.sh' % out, d)
        if r.returncode: return name + ': demo fails on the unchanged tree\n' + r.stdout[-1500:]
        for f, old, new in m.edits:
            p = os.path.join(d, f)
            t = open(p).read()
            if old not in t: return name + ': not found: ' + old
            open(p, 'w').write(t.replace(old, new, 1))
        diff = sh('git diff', d).stdout
        if not diff: return name + ': no diff'
        r = sh('go build . ./bind ./graceful/... ./web/... && gofmt -l bind graceful web *.go', d)
        if r.returncode: return name + ': build\n' + r.stdout[-1500:]
        r = sh('sh %s/demo.sh' % out, d)
        if not r.returncode: return name + ': demo passes with the change'
        tail = [x for x in r.stdout.splitlines() if x.strip()][:3]
        bad = set()
        for _ in range(2):
            t = sh('go test -vet=off -count=1 -skip ^TestReadFrom$ -timeout 3m -json ./graceful/listener ./web/...', d, 400)
            ok = set()
            for l in t.stdout.splitlines():
                try: e = json.loads(l)
                except ValueError: continue
                if e.get('Action') == 'pass' and e.get('Test'): ok.add(e['Package'] + '/' + e['Test'])
            bad |= set(BASE) - ok
        if bad: return name + ': breaks tests ' + str(sorted(bad)[:4])
        dst = '/verif/seeded/' + name
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
        with open(dst + '/patch.diff', 'w') as f: f.write(diff)
        with open(dst + '/meta.json', 'w') as f:
            json.dump(dict(property=m.property, needs=m.needs, what_it_breaks=m.breaks), f, indent=1); f.write('\n')
        return name + ': kept; ' + ' | '.join(tail)[:300]
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    src = sys.argv[1]
    for n in sys.argv[2:] or sorted(x[:-3] for x in os.listdir(src) if x.endswith('.py')):
        print(one(os.path.join(src, n + '.py')), flush=True)
