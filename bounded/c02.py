"""C02 bounded stand-in: random programs of a macro language, against an independent expansion engine."""
import random

from bounded import common
from bounded.minitex import Engine, Gen, Undecided, flat

RULE = ('programs of definitions (\\def, \\gdef, \\newcommand, \\renewcommand, \\providecommand, \\let, \\csname, \\expandafter, nested '
        'definitions with ##) and calls, nested in bodies, arguments and groups; 0-9 parameters, delimited and undelimited patterns, '
        'optional arguments; non-trivial: the engine expanded at least one macro')
BOUND = 'at most 12 top-level items, nesting depth 4; normal form: see DESIGN.md'
BUDGET = {'quick': 45, 'thorough': 500}
MAX_CASES = {'quick': 3000}
ERROR_FAILS = True
TIMEOUT_FAILS = True


def corners():
    for p, call in (('', ''), ('#1', '{x}'), ('#1', 'x'), ('#1#2', '{x}y'), ('#1.', 'ab.'), ('#1.', '.'), ('#1.', '{ab}.'), ('/#1', '/x'),
                    ('#1ab', 'xacab'), ('#1ab', 'xaab'), ('#1aab', 'xaaab'), ('#1#', 'xyz{k}'), ('(#1,#2)', '(a,b)'), ('#1,#2;', 'a,b;'), ('#1 ', 'ab '),
                    ('#1::', 'a:b::'), ('#1\\stop', 'ab\\stop'), ('#1,#2', 'a,{bc}'), ('#1#2.', 'a{b}c.'), ('#1,#2,#3.', '1,,3.')):
        n = p.count('#') - (p[-1:] == '#')
        body = '[' + ''.join('<#%d>' % (i + 1) for i in range(n)) + ']'
        yield {'src': [['\\def\\ma ' if p[:1].isalpha() else '\\def\\ma', p, '{', body, '}'], ['\\ma ' if call[:1].isalpha() else '\\ma', call, '.']]}
        yield {'src': ['{', ['\\gdef\\ma ' if p[:1].isalpha() else '\\gdef\\ma', p, '{', body, '}'], '}', ['\\ma ' if call[:1].isalpha() else '\\ma', call, '.']]}
    for s in (r'\def\ma{1}\renewcommand\ma{2}\ma', r'{\def\ma{1}\renewcommand\ma{2}\ma}', r'{\def\ma{1}\gdef\ma{2}\ma}\ma', r'\let\ma=x\def\ma{y}\ma',
              r'\def\ma{y}\let\ma=x\ma', r'\def\ma{\def\mb{\def\mc####1{[####1]}}}\ma\mb\mc x', r'\def\ma{\def\mb##1{[##1]}}\ma\mb x',
              r'\def\ma#1{\def\mb##1{[##1#1]}}\ma y\mb x', r'\newcommand\ma{\def\mb##1{[##1]}}\ma\mb x', r'\newcommand\ma[1]{\newcommand\mb[2][d]{##1##2#1}}\ma z\mb y\mb[q]y',
              r'\newcommand\ma[2][d]{(#1#2)}\ma[{]}]x', r'\newcommand\ma[2][d]{(#1#2)}\ma x\ma[]x\ma {x}', r'\newcommand\ma[1][d]{(#1)}\ma\ma[x]\ma',
              r'\let\ma=x{\def\ma{y}\ma}\ma', r'\def\ma{x}{\let\ma=y\ma}\ma', r'\def\ma{x}\let\mb\ma\def\ma{y}\mb\ma', r'\def\ma#1{#1}\expandafter\ma\csname relax\endcsname x',
              r'\def\mb{{x}{y}}\def\ma#1#2{[#2#1]}\expandafter\ma\mb', r'\expandafter\def\csname mx y\endcsname{q}\csname mx y\endcsname',
              r'\def\ma#1{#1#1}\def\mb#1{\ma{\ma{#1}}}\mb{\mb x}', r'\def\ma#1{\def\mb{#1}}\ma{x}\mb{\ma{y}\mb}\mb', r'\def\ma#1#2#3#4#5#6#7#8#9{#9#8#7#6#5#4#3#2#1}\ma123456789',
              r'\newcommand\ma[9][o]{#9#8#7#6#5#4#3#2#1}\ma[n]23456789\ma23456789', r'\def\ma{x}\def\mb{\ma}\def\ma{y}\mb', r'\def\ma{}\ma x\ma{}y', r'\def\ma#1{a#1b}\ma{}',
              r'\providecommand\ma{1}\providecommand\ma{2}\ma', r'\begingroup\let\ma=x\ma\endgroup\def\ma{y}\ma', r'\def\ma#1{\csname m#1\endcsname}\def\mb{x}\ma b'):
        yield {'src': [s]}


def cases(rng, tier):
    while True:
        g = Gen(rng)
        yield {'src': g.program(rng.randint(2, 12))}


def model(src):
    e = Engine(src)
    return e.run(), e


def nontrivial(case):
    try:
        _, e = model(flat(case['src']))
    except (Undecided, RecursionError):
        return False
    return 'macro' in e.used


def shrinks(case):
    for s in common.list_shrinks(case['src']):
        yield {'src': s}


def check(case):
    src = flat(case['src'])
    try:
        want, _ = model(src)
    except (Undecided, RecursionError) as e:
        return ('undecided', str(e))
    doc = common.parse(src)
    got = ''.join(common.text(doc).split())
    if got != want:
        return 'program %s: got %r, TeX gives %r' % (src, got, want)
