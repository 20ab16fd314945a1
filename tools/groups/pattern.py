"""C02, C03: spec Pattern."""
import itertools, json
from vlib import *
import gen_web as g


def words(alpha, n):
    return [''.join(t) for k in range(n + 1) for t in itertools.product(alpha, repeat=k)]


def batches(pats, paths, size):
    return [[dict(op='paths', paths=paths)] + [dict(op='pat', pat=p) for p in pats[i:i + size]]
            for i in range(0, len(pats), size)]


def atoms():
    L = lambda c: dict(k='lit', c=c)
    return [L('/'), L('a'), dict(k='any'), dict(k='bot', src='^'), dict(k='eot', src='$'),
            dict(k='cls', cs=['/'], neg=True), dict(k='fold', c='a'), dict(k='bol'), dict(k='nwb')]


def small_regexes():
    """Every regular expression of a small shape."""
    A = atoms()
    one = list(A)
    for a in A[:3] + A[5:6]:
        for mn, mx, lazy in [(0, 99, False), (0, 1, False), (1, 99, False), (0, 1, True), (0, 99, True), (2, 2, False)]:
            one.append(dict(k='rep', x=a, min=mn, max=mx, lazy=lazy))
        one.append(dict(k='grp', i=0, name='', x=a))
        one.append(dict(k='grp', i=0, name='n', x=dict(k='rep', x=a, min=0, max=99, lazy=False)))
    for a in A[:5]:
        for b in A[:5]:
            one.append(dict(k='grp', i=0, name='x', x=dict(k='alt', xs=[a, b])))
    two = [dict(k='cat', xs=[a, b]) for a in one for b in one]
    small = A[:5] + [dict(k='cat', xs=[a, b]) for a in A[:5] for b in A[:5]]
    alts = [dict(k='alt', xs=[a, b]) for a in small for b in small]
    alts3 = [dict(k='alt', xs=list(t)) for t in itertools.product(A[:5], repeat=3)]
    anch = [dict(k='cat', xs=[dict(k='bot', src=s), x]) for s in ('^', '\\A') for x in alts[:200:7]]
    seen, out = set(), []
    for r in one + two + alts + alts3 + anch + [dict(k='cat', xs=[])]:
        p = g.re_pattern(r)
        if p['src'] not in seen:
            seen.add(p['src'])
            out.append(p)
    return out


def run(ck):
    b = ck.go_build('./cmd/webdrv')
    drive = lambda st: ck.drive(b, 'pattern', st)
    rng = ck.rng
    if ck.pid == 'C02':
        pats = set()
        r = ck.explore('PatternGen', cfg(dict(Chars={'/', 'a', ':', '.', '*'}, PathChars={'/', 'a', '.'},
            MaxLen=ck.pick(5, 6), PathLen=ck.pick(3, 4), Lead=''), invariants=['AgreesWithDeclarative', 'ParseIsLossless']))
        pats |= {json.loads(x) for x in r.tagged('PAT')}
        r = ck.explore('PatternGen', cfg(dict(Chars={'/', 'x', ':', ';', ','}, PathChars={'/', 'x', ';'},
            MaxLen=ck.pick(6, 8), PathLen=3, Lead='/:x'), invariants=['AgreesWithDeclarative', 'ParseIsLossless']))
        pats |= {json.loads(x) for x in r.tagged('PAT')}
        pats = sorted(pats)
        ck.notes['patterns_exhaustive'] = len(pats)
        short = [p for p in pats if len(p) <= 4 or ck.thorough()]
        st = batches([dict(k='str', s=p) for p in short], words('/a.', ck.pick(4, 5)), 40)
        ck.judge('PatternTrace', st, drive(st), rerun=drive, label='all patterns, all short paths')
        # long patterns against paths made for them
        st = []
        for p in pats + [g.rand_strpat(rng) for _ in range(ck.pick(6000, 60000))]:
            paths = sorted({g.instantiate(rng, p) for _ in range(10)})
            st.append([dict(op='paths', paths=paths), dict(op='pat', pat=dict(k='str', s=p))])
        ck.judge('PatternTrace', st, drive(st), rerun=drive, label='likely paths')
    else:
        res = small_regexes()
        ck.notes['regexps_exhaustive'] = len(res)
        st = batches(res, words('/a', 3) + words('/aA', 2) + ['/ab', 'b', 'a\n', '\na', '/\n/'] , 40)
        ck.judge('PatternTrace', st, drive(st), rerun=drive, label='all small expressions, all short paths')
        st = []
        for _ in range(ck.pick(12000, 150000)):
            p = g.rand_regex(rng, rng.choice([2, 3, 3, 4]))
            if len(p['groups']) > 12: continue
            paths = sorted({g.mutate(rng, g.re_instance(rng, p['ast']))[:14] for _ in range(10)} | {'', '/', '/a'})
            st.append([dict(op='paths', paths=paths), dict(op='pat', pat=p)])
        ck.judge('PatternTrace', st, drive(st), rerun=drive, label='likely paths')
    ck.assumptions += ['paths are valid UTF-8', 'no unbounded repetition of an expression that matches the empty string']


def replay(ck, path):
    with open(path) as f:
        info = json.load(f)
    b = ck.go_build('./cmd/webdrv')
    ck.judge('PatternTrace', [info['stimulus']], ck.drive(b, 'pattern', [info['stimulus']]))
    return ck.finish()
