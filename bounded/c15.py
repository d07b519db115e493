"""C15 bounded stand-in: random templates of the documented grammar, request histories and
reserved names, run through Filenames and compared with an independent model that works on
the generated structure (not on the template text)."""
import os.path
import random

RULE = ('random templates (0..4 static names, optional wildcard of 1..4 alternatives, prefix and suffix, variables with '
        'and without width, blanks where the grammar allows them), 1..12 requests with random bindings (missing, empty, '
        'repeated, with blanks and forbidden characters), random reserved names and forbidden sets; non-trivial: at '
        'least two requests and a variable')
BOUND = 'at most 12 requests in the random cases, at most 400 in the long-run cases; at most 4 statics, 4 alternatives'
BUDGET = {'quick': 25, 'thorough': 420}
BATCH = 200
CASE_LIMIT = 20

# A name is a list of parts: ['lit', text] | ['var', name, width or None, spelling]
VARS = ['id', 'title', 'ref', 'name', 'jobname']
WORDS = ['Intro', 'a', 'The', 'end', 'x1', 'sect', 'file', 'index', 'Up', 'v']


def spell(part):
    if part[0] == 'lit':
        return part[1]
    _, name, width, s = part
    body = {0: '$%s' % name, 1: '${%s}' % name, 2: '${ %s }' % name}[s]
    if width is None:
        return body
    return body + ('(%d)' % width if s != 2 else '( %d )' % width)


def gen_name(rng, numbered=None, ext=None):
    parts = []
    n = rng.randint(1, 3)
    for i in range(n):
        if rng.random() < .5:
            parts.append(['lit', rng.choice(['sect', 'file', 'p-', 'a_', 'x', 'index', 'n'])])
        else:
            v = 'num' if rng.random() < .4 else rng.choice(VARS[:4])
            w = rng.choice([None, None, 1, 2, 3, 4]) if v != 'num' else rng.choice([None, None, 1, 2, 4])
            parts.append(['var', v, w, rng.choice([0, 0, 0, 1, 1, 2])])
    # a name spelled $x directly followed by a word character would be another variable
    out = []
    for i, p in enumerate(parts):
        if p[0] == 'var' and p[3] == 0 and p[2] is None and i + 1 < len(parts) and parts[i + 1][0] == 'lit' and \
                (parts[i + 1][1][0].isalnum() or parts[i + 1][1][0] == '_'):
            p = p[:3] + [1]
        out.append(p)
    return out


def gen(rng):
    statics = []
    for i in range(rng.choice([0, 0, 1, 1, 2, 3, 4])):
        if rng.random() < .6:
            nm = [['lit', rng.choice(['index', 'toc', 'file1', 'file2', 'intro'])]]
        else:
            nm = gen_name(rng)
        if rng.random() < .3:
            nm.append(['lit', rng.choice(['.html', '.htm', '.x'])])
        statics.append(nm)
    wild = None
    if rng.random() < .8 or not statics:
        alts = [gen_name(rng) for _ in range(rng.choice([1, 2, 2, 3, 3, 4]))]
        if rng.random() < .4:
            alts.append([['lit', 'sect'], ['var', 'num', rng.choice([None, 2, 4]), 0]])
        alts = alts[:4]
        pre = gen_name(rng) if rng.random() < .25 else []
        suf = [['lit', '.html']] if rng.random() < .3 else ([['lit', '-z']] if rng.random() < .1 else [])
        wild = [pre, alts, suf]
        if suf and suf[0][1][0] != '.':
            pass
    reqs = []
    for _ in range(rng.randint(1, 12)):
        b = {}
        for v in VARS[:4]:
            if rng.random() < .6:
                k = rng.random()
                if k < .08:
                    b[v] = rng.choice(['', ' ', '?'])
                else:
                    b[v] = rng.choice([' ', ' ', '  ', ' ', ':', '/', ' . ']).join(
                        rng.choice(WORDS) for _ in range(rng.choice([1, 1, 1, 2, 3, 5])))
        if reqs and rng.random() < .3:
            b = dict(rng.choice(reqs))
        reqs.append(b)
    reserved = []
    for _ in range(rng.choice([0, 0, 1, 3])):
        reserved.append(rng.choice(['index', 'sect1', 'sect0001', 'file1', 'sect2', 'a', 'x1', 'sect01', 'file2', 'p-', 'x']) +
                        rng.choice(['', '.html', '.html']))
    bad = rng.choice([None, [': #$%^&*!~`"\'=?/{}[]()|<>;\\,.', '-'], [':/', '_'], [' ', '-'], ['?.', '']])
    return {'static': statics, 'wild': wild, 'reqs': reqs, 'reserved': reserved, 'bad': bad,
            'ext': rng.choice(['', '.html', '.htm']), 'init': rng.choice([{}, {'jobname': 'my job'}, {'jobname': 'job', 'name': 'sec'}]),
            'sep': rng.choice([0, 0, 1])}


def corners():
    n = ['var', 'num', None, 0]
    i = ['var', 'id', None, 0]
    bad = [': #$%^&*!~`"\'=?/{}[]()|<>;\\,.', '-']

    def case(static, wild, reqs, reserved=(), bad=bad, ext='.html', init=None):
        return {'static': static, 'wild': wild, 'reqs': reqs, 'reserved': list(reserved), 'bad': bad, 'ext': ext,
                'init': init or {'jobname': 'job'}, 'sep': 0}
    sn = [['lit', 'sect'], ['var', 'num', 4, 0]]
    s = [['lit', 'index']]
    # more than a hundred reserved, issued, or refused names
    yield case([s], [[], [[i], sn], []], [{}] * 250)
    yield case([s], [[], [[i], sn], []], [{'id': 'a'}] * 250)
    yield case([s], [[], [[i], sn], []], [{}] * 3, ['sect%04d.html' % k for k in range(1, 180)])
    yield case([s], [[], [[i], sn], []], [{}] * 200, ['sect0150.html'])
    yield case([s], [[], [[['lit', 'sect'], n]], []], [{}] * 200, ['sect%d.html' % k for k in range(50, 190, 3)])
    yield case([], [[], [[i]], []], [{'id': 'a%d' % k} for k in range(150)] + [{'id': 'a0'}, {'id': 'b'}])
    yield case([s], [[], [[i]], []], [{}, {}, {'id': 'a'}, {}, {'id': 'a'}, {'id': 'b'}, {}])
    yield case([s, [['lit', 'toc']]], None, [{}] * 5)
    yield case([s, sn], None, [{}] * 9)
    yield case([], [[['var', 'jobname', None, 0], ['lit', '_']], [[i], [['var', 'title', None, 0]], sn], []],
               [{'id': 'a', 'title': 't'}] * 4)
    yield case([sn, [['lit', 'toc']]], [[], [[['var', 'title', 5, 0]], sn], []],
               [{'title': 'one two three four five six'}] * 5)
    yield case([], [[], [[['var', 'title', 2, 0]], sn], []], [{'title': ''}, {'title': 'a b'}, {'title': 'a b c'}, {'title': '  a b c'}])
    for ext in ('', '.html'):
        for nm in ('a.b', 'a', '.a', 'a.', 'x/y.z/w'):
            yield case([[['lit', nm]]], [[], [sn], [['lit', '.htm']]], [{}] * 3, ext=ext)
    yield case([s, s], [[], [[['lit', 'index']], sn], []], [{}] * 6)


def cases(rng, tier):
    while True:
        yield gen(rng)


# ------------------------------------------------------------------ model

def template(case):
    sep = [' ', '  '][case['sep']]
    names = [''.join(spell(p) for p in nm) for nm in case['static']]
    if case['wild']:
        pre, alts, suf = case['wild']
        b = [('[', ',', ']'), ('[ ', ' , ', ' ]')][case['sep']]
        names.append(''.join(spell(p) for p in pre) + b[0] + b[1].join(''.join(spell(p) for p in a) for a in alts) + b[2] +
                     ''.join(spell(p) for p in suf))
    return sep.join(names)


def expand(name, ns, num, bad):
    """(text, uses the number) or None when a variable is not bound."""
    out, numbered = '', False
    for p in name:
        if p[0] == 'lit':
            out += p[1]
        elif p[1] == 'num':
            numbered = True
            out += str(num).rjust(p[2] or 0, '0')
        else:
            if p[1] not in ns:
                return None
            v = ns[p[1]]
            if p[2] is not None:
                v = ' '.join(v.split()[:p[2]])
            if bad:
                for ch in bad[0]:
                    v = v.replace(ch, bad[1])
            out += v
    return out, numbered


def withext(name, ext):
    return name if os.path.splitext(name)[1] else name + ext


class Undecided(Exception):
    pass


def model(case):
    """List of names (None for an error)."""
    statics = list(case['static'])
    if case['wild']:
        pre, alts, suf = case['wild']
        alts = [pre + a + suf for a in alts]
    else:
        alts = [statics.pop()]
    taken = set(case['reserved'])
    num = 1
    out = []
    ns = dict(case['init'])
    for b in case['reqs']:
        ns.update(b)
        name = None
        while statics and name is None:
            s = statics.pop(0)
            e = expand(s, ns, num, case['bad'])
            if e is None:
                continue
            if e[1]:
                num += 1
            f = withext(e[0], case['ext'])
            if f not in taken:
                name = f
        while name is None:
            progress = False
            for k, a in enumerate(alts):
                e = expand(a, ns, num, case['bad'])
                if e is None:
                    continue
                if e[1]:
                    num += 1
                    progress = True
                f = withext(e[0], case['ext'])
                if f not in taken:
                    name = f
                    break
                if e[1] and any(expand(x, ns, num, case['bad']) is not None for x in alts[k + 1:]):
                    raise Undecided     # try the next number first, or the next alternative: not stated
            if not progress:
                break
        out.append(name)
        if name is None:
            # whether the bindings of a refused request survive it is not stated
            break
        taken.add(name)
        ns = dict(case['init'])
    return out, taken


def check(case):
    from plasTeX.Filenames import Filenames
    spec = template(case)
    invalid = {x: None for x in case['reserved']}
    gen = Filenames(spec, case['bad'], dict(case['init']), case['ext'], invalid)
    issued = set(case['reserved'])
    got = []
    failed = False
    for b in case['reqs']:
        gen.variables.update(b)
        try:
            r = gen()
        except ValueError:
            r = None
        else:
            if r is None:
                return 'request %d returned None instead of reporting an error (template %r)' % (len(got) + 1, spec)
            if r in issued:
                return 'request %d returned %r, which is %s (template %r)' % (
                    len(got) + 1, r, 'reserved' if r in case['reserved'] else 'already issued', spec)
            issued.add(r)
        got.append(r)
    try:
        want, _ = model(case)
    except Undecided:
        return 'skip', None
    if got[:len(want)] != want:
        i = [a == b for a, b in zip(got, want)].index(False)
        return 'template %r reserved %r bindings %r: request %d gave %r, expected %r' % (
            spec, case['reserved'], case['reqs'][:i + 1], i + 1, got[i], want[i])
    # after a refusal: a request that binds everything afresh must be served when its name is free
    if want and want[-1] is None and len(want) < len(case['reqs']):
        i = len(want)
        if not case['wild']:
            return
        pre, alts, suf = case['wild']
        vs = {p[1] for a in alts for p in pre + a if p[0] == 'var'}
        b = case['reqs'][i]
        if 'num' not in vs and vs <= set(b) and len(case['static']) < i:
            for a in alts:
                f = withext(expand(pre + a + suf, b, 1, case['bad'])[0], case['ext'])
                if f not in set(got[:i]) | set(case['reserved']):
                    if got[i] != f:
                        return 'template %r: request %d after a refused one gave %r, expected %r' % (spec, i + 1, got[i], f)
                    break


def nontrivial(case):
    return len(case['reqs']) > 1 and 'var' in str(case['static']) + str(case['wild'])


def shrinks(case):
    for i in range(len(case['reqs'])):
        if len(case['reqs']) > 1:
            yield dict(case, reqs=case['reqs'][:i] + case['reqs'][i + 1:])
        for v in case['reqs'][i]:
            yield dict(case, reqs=case['reqs'][:i] + [{k: x for k, x in case['reqs'][i].items() if k != v}] + case['reqs'][i + 1:])
    for i in range(len(case['static'])):
        if case['wild'] or len(case['static']) > 1:
            yield dict(case, static=case['static'][:i] + case['static'][i + 1:])
    for i in range(len(case['reserved'])):
        yield dict(case, reserved=case['reserved'][:i] + case['reserved'][i + 1:])
    if case['wild']:
        pre, alts, suf = case['wild']
        for i in range(len(alts)):
            if len(alts) > 1:
                yield dict(case, wild=[pre, alts[:i] + alts[i + 1:], suf])
        if pre:
            yield dict(case, wild=[[], alts, suf])
        if suf:
            yield dict(case, wild=[pre, alts, []])
    if case['bad']:
        yield dict(case, bad=None)
