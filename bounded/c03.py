"""C03 bounded stand-in: random nestings of conditionals in bodies, arguments and groups, with side effects in
every branch, against an independent expansion engine."""
from bounded import common
from bounded.minitex import Engine, Gen, Undecided, flat, NAMES

RULE = ('programs with nested \\iftrue, \\iffalse, \\ifnum, \\ifdim, \\ifodd, \\ifcase/\\or, \\ifx, \\ifdefined and \\newif switches, their '
        'setters, counter assignments and definitions in every branch, in groups, macro bodies and arguments; text, counter values and switch '
        'states are compared; non-trivial: at least one conditional was executed')
BOUND = 'at most 8 top-level items, nesting depth 4, at most 4 cases; normal form: see DESIGN.md'
BUDGET = {'quick': 45, 'thorough': 500}
MAX_CASES = {'quick': 3000}
ERROR_FAILS = True
TIMEOUT_FAILS = True
SWITCHES = ['ifsa', 'ifsb']
PRE = (r'\newcounter{ca}\newcounter{cb}\setcounter{ca}{3}\newif\ifsa \newif\ifsb \sbtrue \def\numa{2}\def\numb{12}\def\numc{-1}'
       r'\def\ta{ab}\def\tb{ab}\def\tc{abc}')


def pre():
    return PRE


def corners():
    forms = [r'\iftrue ', r'\iffalse ', r'\ifsa ', r'\ifsb ', r'\ifnum1<2\relax ', r'\ifnum1>2\relax ', r'\ifodd3\relax ', r'\ifodd\value{cb}\relax ', r'\ifx ab', r'\ifx\ta\tb ',
             r'\ifx\ta\tc ', r'\ifdefined\ta ', r'\ifdefined\nosuch ', r'\ifdim1in>2cm\relax ', r'\ifodd-3\relax ', r'\ifnum\numb>\numa\relax ',
             r'\ifnum\value{ca}=3\relax ', r'\ifodd-2\relax ', r'\ifnum--3=3\relax ']
    for f in forms:
        for tail in ('', r'\else n'):
            yield {'src': [f, 'y', tail, r'\fi .']}
            yield {'src': [r'\def\ma#1{', f, '#1', tail and [r'\else ', '#1n'], r'\fi}\ma{y}\ma{{y}}.']}
            yield {'src': [r'\newcommand\ma[1]{#1}\ma{', f, 'y', tail, r'\fi}.']}
    for f in forms[:4]:
        for g in forms[:6]:
            for o in (0, 1):
                for i in (0, 1):
                    inner = [g, 'a', r'\else b' if i else '', r'\fi ']
                    yield {'src': [f, 'x', inner, 'y', [r'\else ', inner, 'z'] if o else '', r'\fi .']}
    for n in range(1, 5):
        for k in list(range(-2, n + 3)):
            for e in (0, 1):
                for extra in ('', r'\ifcase0\relax p\or q\else r\fi ', r'\iffalse p\else q\fi '):
                    cs = []
                    for i in range(n):
                        cs += [r'\or ' if i else '', 'abcd'[i], extra]
                    yield {'src': [r'\ifcase%d\relax ' % k, cs, [r'\else e', extra] if e else '', r'\fi .']}
                    if not extra:
                        yield {'src': [r'\setcounter{cb}{%d}\ifcase\value{cb}\relax ' % k, cs, [r'\else e', extra] if e else '', r'\fi .']}
    for s in (r'\satrue\ifsa a\else b\fi\safalse\ifsa a\else b\fi', r'{\satrue}\ifsa a\else b\fi', r'\iffalse\satrue\fi\ifsa a\else b\fi',
              r'\iffalse\newif\ifsc \fi x\fi' if False else r'\iffalse\stepcounter{ca}\else\stepcounter{cb}\fi\arabic{ca}\arabic{cb}',
              r'\def\ma{\iftrue a\else b\fi}\iffalse\ma\else\ma c\fi', r'\iftrue\def\ma{x}\else\def\ma{y}\fi\ma', r'\def\ma{\ifsa}\ifsb x\ifsa y\fi\fi',
              r'\newcommand\iffy{w}\iftrue x\iffy y\else\iffy c\fi z', r'\def\ifa{q}\iffalse x\ifa y\else c\ifa\fi z', r'\def\ifaa{}\ifcase1\relax x\ifaa\or y\ifaa\else\ifaa c\fi z', r'\def\ma{\iftrue}\def\mb{\fi}x'):
        yield {'src': [s]}


    for n in ('q', 'found', 'if', 'iff', 'fi', 'foo', 'first', 'innerx', 'true', 'false', 'else', 'x@y' if False else 'orx', 'truefalse', 'ifx'):
        if n in ('if', 'true', 'false'):
            n += 'z'
        for a in ('true', 'false'):
            for b in ('true', 'false', None):
                yield {'src': [r'\newif\if%s ' % n, r'\%s%s ' % (n, a), r'\%s%s ' % (n, b) if b else '', r'\if%s y\else n\fi .' % n]}
    for d in range(5):
        for e in range(5):
            for how in (r'\def\ma{x}', r'\newcommand\ma{x}', r'\gdef\ma{x}', r'\let\ma=\ta ', r'\newif\ifsc ', r'\satrue '):
                test = r'\ifdefined\ma y\else n\fi '
                if 'if' in how or 'sa' in how:
                    test = r'\ifsc y\else n\fi ' if 'sc' in how else r'\ifsa y\else n\fi '
                inner = '{' * e + test + '}' * e
                yield {'src': ['{' * d, how, inner, '}' * d]}
                yield {'src': ['{' * d, how, r'{\def\mb{q}', inner, '}', '}' * d, test]}


def cases(rng, tier):
    while True:
        g = Gen(rng, conds=5, groups=.7, defs=.5, lets=.2, newifs=SWITCHES)
        yield {'src': g.program(rng.randint(1, 8))}


def source(case):
    return PRE + flat(case['src']) + r'\ifsa 1\else 0\fi\ifsb 1\else 0\fi'


def model(case):
    e = Engine(source(case))
    return e.run(), e


def nontrivial(case):
    try:
        _, e = model(case)
    except (Undecided, RecursionError):
        return False
    return len([u for u in e.used if u.startswith('if') or u == 'switch']) > 0


def shrinks(case):
    for s in common.list_shrinks(case['src']):
        yield {'src': s}


def check(case):
    src = source(case)
    try:
        want, e = model(case)
    except (Undecided, RecursionError) as ex:
        return ('undecided', str(ex))
    doc = common.parse(src)
    got = ''.join(common.text(doc).split())
    if got != want:
        return 'program %s: got %r, TeX gives %r' % (src[len(PRE):], got, want)
    for c, v in e.counters.items():
        if doc.context.counters[c].value != v:
            return 'program %s: counter %s is %r, TeX gives %r' % (src[len(PRE):], c, doc.context.counters[c].value, v)
