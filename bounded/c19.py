"""C19 bounded stand-in: random boolean expressions (rendered with every placement of \\not, \\and,
\\or, groups) in \\ifthenelse and \\whiledo documents, against an independent evaluator of the tree."""
from fractions import Fraction

from bounded import common

RULE = ('random expression trees up to depth 4 over number/length comparisons, \\equal, \\isodd, \\isundefined, '
        '\\boolean with literal, macro, counter, length operands; \\not anywhere an operand may appear; redundant '
        'groups; \\whiledo loops of 0..6 iterations; non-trivial: at least two operators or a loop')
BOUND = 'depth 4, at most 4 operands per level, loops of at most 6 iterations, 3 statements per document'
BUDGET = {'quick': 40, 'thorough': 420}

COUNTERS = {'ca': 0, 'cb': 3, 'cc': 7}
MACROS = {'na': '5', 'nb': '-2', 'nc': '12', 'wa': 'abc', 'wb': 'x y', 'wc': 'abc'}
BOOLS = {'ba': True, 'bb': False, 'bc': True}
LENGTHS = {'la': '10pt', 'lb': '2cm'}
UNIT = {'pt': Fraction(1), 'in': Fraction(7227, 100), 'pc': Fraction(12), 'cm': Fraction(7227, 254),
        'mm': Fraction(7227, 2540), 'bp': Fraction(7227, 7200), 'dd': Fraction(1238, 1157), 'cc': Fraction(14856, 1157)}


def gen_num(rng):
    k = rng.random()
    if k < .5:
        return ['lit', rng.choice([0, 1, 2, 3, 5, 7, 10, 12, 100, -1, -2, -5, 5, 3])]
    if k < .7:
        return ['ctr', rng.choice(sorted(COUNTERS))]
    return ['mac', rng.choice(['na', 'nb', 'nc'])]


def gen_len(rng):
    if rng.random() < .2:
        return ['len', rng.choice(sorted(LENGTHS))]
    return ['dim', rng.choice(['1', '2', '10', '12', '0.5', '1.5', '72', '-1', '3', '20', '100', '72.27', '25.4', '.25', '0']),
            rng.choice(sorted(UNIT))]


def gen_word(rng):
    if rng.random() < .4:
        return ['mac', rng.choice(['wa', 'wb', 'wc', 'na'])]
    return ['txt', rng.choice(['abc', 'x y', 'abd', '5', 'ab', ''])]


def gen_atom(rng):
    k = rng.randrange(6)
    if k == 0:
        return ['num', gen_num(rng), rng.choice('<>='), gen_num(rng)]
    if k == 1:
        a = gen_len(rng)
        b = gen_len(rng)
        return ['len', a, rng.choice('<>='), b]
    if k == 2:
        return ['equal', gen_word(rng), gen_word(rng)]
    if k == 3:
        return ['isodd', gen_num(rng)]
    if k == 4:
        return ['undef', rng.choice(['na', 'nosuchthing', 'ifba', 'section', 'undefinedtoo'])]
    return ['bool', rng.choice(sorted(BOOLS))]


def gen_expr(rng, depth):
    """[operand, op, operand, ...] evaluated left to right."""
    n = rng.choice([1, 1, 2, 2, 3, 4])
    out = [gen_operand(rng, depth)]
    for _ in range(n - 1):
        out += [rng.choice(['and', 'or']), gen_operand(rng, depth)]
    return out


def gen_operand(rng, depth):
    k = rng.random()
    if k < .28:
        return ['not', gen_operand(rng, depth)]
    if k < .55 and depth > 0:
        return ['group', gen_expr(rng, depth - 1)]
    return ['atom', gen_atom(rng)]


def gen_stmt(rng):
    k = rng.random()
    if k < .7:
        return ['if', gen_expr(rng, rng.choice([0, 1, 2, 3]))]
    if k < .8:
        return ['nested', gen_expr(rng, 1), gen_expr(rng, 1), gen_expr(rng, 1)]
    # a loop: c runs from lo; stops when c >= hi, combined with a constant expression
    return ['while', rng.randint(0, 6), rng.choice([0, 1, 2, 3, 4]), gen_expr(rng, 1)]


def corners():
    t, f = ['atom', ['num', ['lit', 1], '<', ['lit', 2]]], ['atom', ['num', ['lit', 2], '<', ['lit', 1]]]
    ops = []
    for x in (t, f):
        ops += [x, ['not', x], ['not', ['not', x]], ['group', [x]], ['not', ['group', [x]]], ['group', [['not', x]]]]
    for a in ops:
        yield {'stmts': [['if', [a]]], 'sp': 0, 'up': 0}
    for a in ops:
        for o in ('and', 'or'):
            for b in ops:
                yield {'stmts': [['if', [a, o, b]]], 'sp': 0, 'up': 0}
    for x in (t, f):
        for y in (t, ['not', f], ['not', t]):
            for z in (t, f, ['not', t]):
                for o in ('and', 'or'):
                    for p in ('and', 'or'):
                        yield {'stmts': [['if', [x, o, y, p, z]], ['if', [x, o, ['not', ['group', [y, p, z]]]]]], 'sp': 0, 'up': 0}
    for n in range(0, 7):
        for v in range(5):
            yield {'stmts': [['while', n, v, [t]], ['while', n, v, [f, 'or', ['not', t]]]], 'sp': 0, 'up': 0}


def cases(rng, tier):
    while True:
        yield {'stmts': [gen_stmt(rng) for _ in range(rng.choice([1, 2, 3]))], 'sp': rng.choice([0, 1, 2]), 'up': rng.choice([0, 0, 0, 1])}


# ------------------------------------------------------------------ rendering and evaluation

class Skip(Exception):
    pass


def render_num(n):
    return {'lit': lambda v: str(v), 'ctr': lambda v: r'\value{%s}' % v, 'mac': lambda v: '\\' + v}[n[0]](n[1])


def num(n, env):
    return {'lit': lambda v: v, 'ctr': lambda v: env[v], 'mac': lambda v: int(MACROS[v])}[n[0]](n[1])


def render_len(d):
    return d[1] + d[2] if d[0] == 'dim' else '\\' + d[1]


def sp(d):
    if d[0] == 'len':
        s = LENGTHS[d[1]]
        d = ['dim', s[:-2], s[-2:]]
    return Fraction(d[1] if not d[1].startswith('.') else '0' + d[1]) * UNIT[d[2]] * 65536


class Renderer:
    def __init__(self, case):
        self.up, self.s = case['up'], ['', ' ', '  '][case['sp']]

    def expr(self, e):
        return self.s.join(self.operand(x) if isinstance(x, list) else {'and': [r'\and', r'\AND'], 'or': [r'\or', r'\OR']}[x][self.up] + ' '
                           for x in e)

    def operand(self, o):
        if o[0] == 'not':
            return [r'\not ', r'\NOT '][self.up] + self.operand(o[1])
        if o[0] == 'group':
            return r'\(' + self.s + self.expr(o[1]) + self.s + r'\)'
        return self.atom(o[1])

    def atom(self, a):
        k = a[0]
        if k == 'num':
            return render_num(a[1]) + self.s + a[2] + self.s + render_num(a[3]) + ' '
        if k == 'len':
            return r'\lengthtest{%s}' % (render_len(a[1]) + self.s + a[2] + self.s + render_len(a[3]))
        if k == 'equal':
            w = [x[1] if x[0] == 'txt' else '\\' + x[1] for x in a[1:]]
            return r'\equal{%s}{%s}' % tuple(w)
        if k == 'isodd':
            return r'\isodd{%s}' % render_num(a[1])
        if k == 'undef':
            return r'\isundefined{\%s}' % a[1]
        return r'\boolean{%s}' % a[1]


def value(e, env):
    v = operand(e[0], env)
    for i in range(1, len(e), 2):
        w = operand(e[i + 1], env)
        v = (v and w) if e[i] == 'and' else (v or w)
    return v


def operand(o, env):
    if o[0] == 'not':
        return not operand(o[1], env)
    if o[0] == 'group':
        return value(o[1], env)
    return atom(o[1], env)


def rel(a, r, b):
    return a < b if r == '<' else a > b if r == '>' else a == b


def atom(a, env):
    k = a[0]
    if k == 'num':
        return rel(num(a[1], env), a[2], num(a[3], env))
    if k == 'len':
        x, y = sp(a[1]), sp(a[3])
        if x != y and abs(x - y) < 3:
            raise Skip
        return rel(x, a[2], y)
    if k == 'equal':
        w = [x[1] if x[0] == 'txt' else MACROS[x[1]] for x in a[1:]]
        return w[0] == w[1]
    if k == 'isodd':
        return num(a[1], env) % 2 == 1
    if k == 'undef':
        return a[1] in ('nosuchthing', 'undefinedtoo')
    return BOOLS[a[1]]


def check(case):
    o = [r'\documentclass{article}\usepackage{ifthen}']
    for c, v in COUNTERS.items():
        o.append(r'\newcounter{%s}\setcounter{%s}{%d}' % (c, c, v))
    o.append(r'\newcounter{loop}\newcounter{then}\newcounter{else}')
    for m, v in MACROS.items():
        o.append(r'\newcommand{\%s}{%s}' % (m, v))
    for b, v in BOOLS.items():
        o.append(r'\newif\if%s\%s%s' % (b, b, str(v).lower()) if b == 'bc' else
                 r'\newboolean{%s}\setboolean{%s}{%s}' % (b, b, str(v).lower()))
    for l, v in LENGTHS.items():
        o.append('\\newdimen\\%s \\%s=%s\\relax' % (l, l, v))
    o.append(r'\begin{document}')
    R = Renderer(case)
    env = dict(COUNTERS)
    nthen = nelse = 0
    want = []
    try:
        for i, s in enumerate(case['stmts']):
            if s[0] == 'if':
                v = value(s[1], env)
                o.append(r'\textbf{\ifthenelse{%s}{\stepcounter{then}T%d}{\stepcounter{else}E%d}}' % (R.expr(s[1]), i, i))
                want.append('%s%d' % ('T' if v else 'E', i))
                nthen += v
                nelse += not v
            elif s[0] == 'nested':
                v, a, b = (value(x, env) for x in s[1:])
                o.append(r'\textbf{\ifthenelse{%s}{A\ifthenelse{%s}{B}{C}}{D\ifthenelse{%s}{E}{F}}}' % tuple(map(R.expr, s[1:])))
                want.append(('AB' if a else 'AC') if v else ('DE' if b else 'DF'))
            else:
                _, n, variant, e = s
                k = n if value(e, env) else 0
                o.append(r'\setcounter{loop}{0}')
                if variant == 0:
                    t = r'\value{loop}<%d ' % n + r'\and \(' + R.expr(e) + r'\)'
                    if e == [['atom', ['num', ['lit', 1], '<', ['lit', 2]]]]:
                        t = r'\value{loop}<%d' % n
                elif variant == 1:
                    t = r'\not \value{loop}>%d ' % (n - 1) + r'\and \(' + R.expr(e) + r'\)'
                elif variant == 2:
                    t = r'\(' + R.expr(e) + r'\) \and \not\(\value{loop}=%d\)' % n
                elif variant == 3:
                    # stops on an odd/even flag: a boolean changed in the body
                    o.append(r'\setboolean{ba}{%s}' % str(k > 0).lower())
                    o.append(r'\textbf{\whiledo{\boolean{ba}}{\stepcounter{loop}w\ifthenelse{\value{loop}<%d}{}{\setboolean{ba}{false}}}\theloop}' % k)
                    want.append('w' * k + str(k))
                    o.append(r'\setboolean{ba}{true}')
                    continue
                else:
                    o.append(r'\setcounter{loop}{%d}' % (n + 3))
                    k = n if value(e, env) else 0
                    o.append(r'\textbf{\whiledo{\value{loop}>3 \and \(%s\)}{w\arabic{loop};\addtocounter{loop}{-1}}\theloop}' % R.expr(e))
                    want.append(''.join('w%d;' % (n + 3 - j) for j in range(k)) + str(n + 3 - k))
                    continue
                o.append(r'\textbf{\whiledo{%s}{w\stepcounter{loop}\theloop}\theloop}' % t)
                want.append(''.join('w%d' % (j + 1) for j in range(k)) + str(k))
    except Skip:
        return 'skip', None
    o.append(r'\emph{\arabic{then},\arabic{else}} \(x+y\)\end{document}')
    src = '\n'.join(o)
    doc = common.parse(src)
    got = [common.text(n) for n in doc.getElementsByTagName('textbf')]
    body = '\n'.join(o[o.index(r'\begin{document}'):])
    if got != want:
        return 'branches %r, expected %r\n%s' % (got, want, body)
    g = [common.text(n) for n in doc.getElementsByTagName('emph')]
    if g != ['%d,%d' % (nthen, nelse)]:
        return 'branches processed (then,else): %r, expected %d,%d\n%s' % (g, nthen, nelse, body)
    if len(doc.getElementsByTagName('math')) != 1:
        return r'the \(...\) after the tests is not a formula any more' + '\n' + body


def nontrivial(case):
    s = str(case['stmts'])
    return s.count("'and'") + s.count("'or'") + s.count("'not'") > 1 or "'while'" in s


def shrinks(case):
    st = case['stmts']
    for i in range(len(st)):
        if len(st) > 1:
            yield dict(case, stmts=st[:i] + st[i + 1:])
        for e in range(len(st[i])):
            if isinstance(st[i][e], list):
                for x in shrink_expr(st[i][e]):
                    yield dict(case, stmts=st[:i] + [st[i][:e] + [x] + st[i][e + 1:]] + st[i + 1:])
    if case['sp'] or case['up']:
        yield dict(case, sp=0, up=0)


def shrink_expr(e):
    for i in range(0, len(e), 2):
        if len(e) > 1:
            yield e[2:] if i == 0 else e[:i - 1] + e[i + 1:]
        o = e[i]
        if o[0] == 'not':
            yield e[:i] + [o[1]] + e[i + 1:]
        elif o[0] == 'group':
            if len(o[1]) == 1:
                yield e[:i] + [o[1][0]] + e[i + 1:]
            for x in shrink_expr(o[1]):
                yield e[:i] + [['group', x]] + e[i + 1:]
        elif o[1][0] != 'num' or 'ctr' in str(o) or 'mac' in str(o):
            for v in (['lit', 1], ['lit', 3]):
                yield e[:i] + [['atom', ['num', v, '<', ['lit', 2]]]] + e[i + 1:]
