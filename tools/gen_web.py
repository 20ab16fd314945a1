"""Random patterns, regular expressions, route tables and paths for the web package."""

# ------------------------------------------------------------------ regexps
# Syntax trees as in spec/Pattern.tla, rendered to Go syntax.

def nullable(r):
    k = r['k']
    if k in ('lit', 'fold', 'any', 'all', 'cls'): return False
    if k in ('bot', 'bol', 'eot', 'eol', 'wb', 'nwb'): return True
    if k == 'cat': return all(nullable(x) for x in r['xs'])
    if k == 'alt': return any(nullable(x) for x in r['xs'])
    if k == 'rep': return r['min'] == 0 or nullable(r['x'])
    if k == 'grp': return nullable(r['x'])


def esc(c):
    return '\\' + c if c in '.+*?()|[]{}^$\\' else ('\\n' if c == '\n' else c)


def render(r, prec=0):
    """prec: 0 alternation, 1 concatenation, 2 repetition operand"""
    k = r['k']
    if k == 'lit': return esc(r['c'])
    if k == 'fold': return '(?i:%s)' % esc(r['c'])
    if k == 'any': return '.'
    if k == 'all': return '(?s:.)'
    if k == 'cls': return '[%s%s]' % ('^' if r['neg'] else '', ''.join(esc(c) if c != '-' else '\\-' for c in r['cs']))
    if k == 'bot': s = r.get('src', '^'); return s if prec < 2 else '(?:%s)' % s
    if k == 'bol': return '(?m:^)'
    if k == 'eot': s = r.get('src', '$'); return s if prec < 2 else '(?:%s)' % s
    if k == 'eol': return '(?m:$)'
    if k == 'wb': return '\\b' if prec < 2 else '(?:\\b)'
    if k == 'nwb': return '\\B' if prec < 2 else '(?:\\B)'
    if k == 'cat':
        s = ''.join(render(x, 1) for x in r['xs'])
        return '(?:%s)' % s if prec >= 2 or not r['xs'] else s
    if k == 'alt':
        s = '|'.join(render(x, 1) for x in r['xs'])
        return '(?:%s)' % s if prec >= 1 else s
    if k == 'rep':
        mn, mx = r['min'], r['max']
        op = {(0, 99): '*', (1, 99): '+', (0, 1): '?'}.get((mn, mx))
        if op is None:
            op = '{%d,}' % mn if mx == 99 else ('{%d}' % mn if mn == mx else '{%d,%d}' % (mn, mx))
        s = render(r['x'], 2) + op + ('?' if r['lazy'] else '')
        return '(?:%s)' % s if prec >= 2 else s
    if k == 'grp':
        return '(%s%s)' % ('?P<%s>' % r['name'] if r['name'] else '', render(r['x'], 0))
    raise ValueError(k)


def number_groups(r, groups):
    """Numbers the groups in order of their opening parentheses."""
    if r['k'] == 'grp':
        groups.append(r['name'])
        r['i'] = len(groups)
        number_groups(r['x'], groups)
    elif r['k'] in ('cat', 'alt'):
        for x in r['xs']: number_groups(x, groups)
    elif r['k'] == 'rep':
        number_groups(r['x'], groups)


def copy(r):
    if isinstance(r, dict): return {k: copy(v) for k, v in r.items()}
    if isinstance(r, list): return [copy(x) for x in r]
    return r


def re_pattern(ast):
    ast = copy(ast)
    groups = []
    number_groups(ast, groups)
    seen = {}
    def rename(r):
        if r['k'] == 'grp':
            if r['name']:
                n = seen.get(r['name'], 0)
                seen[r['name']] = n + 1
                if n: r['name'] += str(n)
            rename(r['x'])
        elif r['k'] in ('cat', 'alt'):
            for x in r['xs']: rename(x)
        elif r['k'] == 'rep': rename(r['x'])
    rename(ast)
    groups = []
    number_groups(ast, groups)
    return dict(k='re', ast=ast, groups=groups, src=render(ast))


def lit(s): return [dict(k='lit', c=c) for c in s]
def cat(*xs): return dict(k='cat', xs=list(xs))


GN = ['n', 'x', '_', 'id']


def rand_re(rng, depth=3, anchors=True):
    k = rng.random()
    if depth <= 0 or k < 0.33:
        c = rng.choice(['/', '/', 'a', 'a', 'b', 'b', 'A', '.', 'E'])
        j = rng.random()
        if j < 0.66: return dict(k='lit', c=c)
        if j < 0.72: return dict(k='fold', c=rng.choice('ab'))
        if j < 0.80: return dict(k='any')
        if j < 0.83: return dict(k='all')
        if j < 0.93:
            return dict(k='cls', cs=sorted(rng.sample(['/', 'a', 'b', 'A', '.', 'E'], rng.randint(1, 3))), neg=rng.random() < 0.5)
        if anchors:
            z = rng.choice(['bot', 'bot', 'bol', 'eot', 'eol', 'wb', 'nwb'])
            if z == 'bot': return dict(k='bot', src=rng.choice(['^', '\\A']))
            if z == 'eot': return dict(k='eot', src=rng.choice(['$', '\\z']))
            return dict(k=z)
        return dict(k='lit', c=c)
    if k < 0.60:
        return dict(k='cat', xs=[rand_re(rng, depth - 1, anchors) for _ in range(rng.randint(0 if rng.random() < .1 else 1, 4))])
    if k < 0.75:
        return dict(k='alt', xs=[rand_re(rng, depth - 1, anchors) for _ in range(rng.randint(2, 3))])
    if k < 0.88:
        x = rand_re(rng, depth - 1, anchors)
        mn, mx = rng.choice([(0, 99), (1, 99), (0, 1), (0, 1), (2, 99), (1, 2), (2, 2), (0, 2)])
        if mx == 99 and nullable(x): mx, mn = 2, min(mn, 2)
        return dict(k='rep', x=x, min=mn, max=mx, lazy=rng.random() < 0.25)
    return dict(k='grp', i=0, name=rng.choice(GN + ['', '', '']), x=rand_re(rng, depth - 1, anchors))


def rand_regex(rng, depth=3):
    """A random regexp pattern; often shaped like a route."""
    j = rng.random()
    if j < 0.5:
        ast = rand_re(rng, depth)
    elif j < 0.75:
        xs = [dict(k='bot', src=rng.choice(['^', '\\A']))] if rng.random() < .6 else []
        xs += lit(rng.choice(['/', '/a', '/a/', '/ab', '/abab', '/b/a']))
        xs += [rand_re(rng, depth - 1, False) for _ in range(rng.randint(0, 2))]
        if rng.random() < .4: xs.append(dict(k='eot', src='$'))
        ast = dict(k='cat', xs=xs)
    else:
        xs = []
        for _ in range(rng.randint(2, 3)):
            y = ([dict(k='bot', src='^')] if rng.random() < .5 else []) + lit(rng.choice(['/', '/a', '/b', '/ab', 'a']))
            if rng.random() < .3: y.append(rand_re(rng, 1, False))
            if rng.random() < .3: y.append(dict(k='eot', src='$'))
            xs.append(dict(k='cat', xs=y))
        ast = dict(k='alt', xs=xs)
        if rng.random() < .3: ast = dict(k='grp', i=0, name=rng.choice(GN + ['']), x=ast)
        if rng.random() < .3: ast = dict(k='cat', xs=[ast] + lit(rng.choice(['', '/', 'a'])))
    # rep of an anchored (pure assertion) body is legal but Go may reject double repetition like a**
    return re_pattern(ast)


# ------------------------------------------------------------------ string patterns
def rand_strpat(rng, names=('id', 'x', 'name'), lits=('a', 'b', 'ab', 'abc', 'u')):
    s = ''
    for _ in range(rng.randint(1, 4)):
        br = rng.choice(['/', '/', '/', '.', ';', ','])
        j = rng.random()
        if j < 0.45: s += br + ':' + rng.choice(names)
        elif j < 0.9: s += br + rng.choice(lits)
        elif j < 0.94: s += br + '::' + rng.choice(names)
        elif j < 0.97: s += br + ':'
        else: s += br
    j = rng.random()
    if j < 0.3: s += '/*'
    elif j < 0.35: s += '/'
    elif j < 0.38: s += '*'
    elif j < 0.41: s += ':x'
    if not s.startswith('/') and rng.random() < .8: s = '/' + s
    return s


def instantiate(rng, s, vals=('a', 'b', 'ab', 'abc', 'x1', '', '.', 'a.b', 'E', '~', ':', '*')):
    """A path which is likely to match, or nearly match, a string pattern."""
    out, i = '', 0
    wild = s.endswith('/*')
    if wild: s = s[:-1]
    while i < len(s):
        if s[i] in '/.;,' and i + 2 < len(s) and s[i + 1] == ':' and s[i + 2] not in '/.;,':
            out += s[i]
            i += 2
            while i < len(s) and s[i] not in '/.;,': i += 1
            out += rng.choice(vals) if rng.random() < .9 else rng.choice(vals) + rng.choice('/.;,') + rng.choice(vals)
        else:
            out += s[i]; i += 1
    if wild and rng.random() < .8: out += rng.choice(['', 'a', 'a/b', '*', '/'])
    j = rng.random()
    if j < .08: out += rng.choice(['/', 'a', '.', ''])
    elif j < .16 and out: out = out[:-1]
    elif j < .2 and out:
        k = rng.randrange(len(out)); out = out[:k] + rng.choice('/a.;,b') + out[k + 1:]
    return out


def re_instance(rng, r):
    """A string which is likely to match syntax tree r."""
    k = r['k']
    if k == 'lit': return r['c']
    if k == 'fold': return rng.choice([r['c'], r['c'].upper()])
    if k in ('any', 'all'): return rng.choice('ab/')
    if k == 'cls':
        if not r['neg']: return rng.choice(r['cs'])
        c = [x for x in ['/', 'a', 'b', 'A', '.', '\n'] if x not in r['cs']]
        return rng.choice(c)
    if k == 'cat': return ''.join(re_instance(rng, x) for x in r['xs'])
    if k == 'alt': return re_instance(rng, rng.choice(r['xs']))
    if k == 'rep': return ''.join(re_instance(rng, r['x']) for _ in range(rng.randint(r['min'], min(r['max'], r['min'] + 2))))
    if k == 'grp': return re_instance(rng, r['x'])
    if k == 'bol': return rng.choice(['', '', '\n'])
    if k == 'eol': return rng.choice(['', '', '\n'])
    return ''


def mutate(rng, s, alpha='/abA.\nE~'):
    j = rng.random()
    if j < .35: return s
    if j < .5: return s + rng.choice(alpha)
    if j < .65: return rng.choice(alpha) + s
    if j < .75 and s: return s[:-1]
    if j < .85 and s: return s[1:]
    if s:
        k = rng.randrange(len(s)); return s[:k] + rng.choice(alpha) + s[k + 1:]
    return s


# ------------------------------------------------------------------ route tables
VERBS = ['Handle', 'Connect', 'Delete', 'Get', 'Head', 'Options', 'Patch', 'Post', 'Put', 'Trace']
METHODS = ['CONNECT', 'DELETE', 'GET', 'HEAD', 'OPTIONS', 'PATCH', 'POST', 'PUT', 'TRACE', 'FOO', 'get', '']


def rand_prefix(rng):
    j = rng.random()
    if j < .05: return ''
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7])
    return '/' + ''.join(rng.choice('aab/') for _ in range(n))


def rand_table(rng, n, kinds=('cust', 'str', 're')):
    pool = [rand_prefix(rng) for _ in range(rng.randint(1, 6))]
    pats = []
    for _ in range(n):
        k = rng.choice(kinds)
        if k == 'cust':
            if rng.random() < .6:
                p = rng.choice(pool)
                if rng.random() < .4: p = p[:rng.randint(0, len(p))]
                elif rng.random() < .4: p += ''.join(rng.choice('ab/') for _ in range(rng.randint(1, 5)))
            else: p = rand_prefix(rng)
            pats.append(dict(k='cust', pfx=p, m=rng.choice(['all', 'none', 'none', 'odd', 'even']),
                             binds=[[rng.choice(['id', 'x', 'c']), rng.choice(['1', '2'])] for _ in range(rng.randint(0, 2))]))
        elif k == 'str':
            pats.append(dict(k='str', s=rand_strpat(rng)))
        else:
            pats.append(rand_regex(rng, 2))
    return pats


def path_for(rng, pats):
    p = rng.choice(pats)
    if p['k'] == 'str': s = instantiate(rng, p['s'])
    elif p['k'] == 're': s = mutate(rng, re_instance(rng, p['ast']))
    else:
        s = p['pfx'] + ''.join(rng.choice('ab/') for _ in range(rng.choice([0, 0, 1, 2, 3, 5])))
        if rng.random() < .15: s = s[:-1]
    return s
