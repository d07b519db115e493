"""C05 bounded stand-in: random signatures with random conforming calls, and numeric literals followed by
arbitrary tokens. Each generated argument carries the value it denotes, so the expectation never comes
from reading the text back."""
import random
import re
from fractions import Fraction

RULE = ('signatures of 1..6 arguments over modifiers *, +, -, =, groups [], (), <>, {} and none, types none, str, nox, cs, '
        'Tok, XTok, int, Number, float, dimen, Dimen, Glue, list (three delimiters, subtypes), dict; calls with optional arguments '
        'present or absent, nested brackets and braces, optional spaces; number, dimension and glue literals with sign '
        'runs, radix, character codes, fractions, every unit, true, fil orders, registers and register multiples, followed by '
        'text, spaces, groups, macros, registers and commands; non-trivial: two arguments, or a literal with a follower')
BOUND = '1..6 arguments, nesting depth 3, values of at most 12 tokens, sign runs of at most 4'
BUDGET = {'quick': 25, 'thorough': 420}
MAX_CASES = {'quick': 3000, 'thorough': 60000}
CASE_LIMIT = 20
BATCH = 100

UNITS = {'pt': Fraction(65536), 'in': Fraction(7227, 100) * 65536, 'pc': Fraction(12) * 65536,
         'cm': Fraction(7227, 254) * 65536, 'mm': Fraction(7227, 2540) * 65536, 'bp': Fraction(7227, 7200) * 65536,
         'dd': Fraction(1238, 1157) * 65536, 'cc': Fraction(14856, 1157) * 65536, 'sp': Fraction(1),
         'em': None, 'ex': None}
FIL = {'fil': 1, 'fill': 2, 'filll': 3}
COUNTS = {'ka': 0, 'kb': 3, 'kc': -7, 'kd': 1000}
DIMENS = {'da': 65536 * 10, 'db': -65536 * 2, 'dc': 12345}
# value, stretch (value, order) or None, shrink
GLUES = {'ga': [65536 * 3, None, None], 'gb': [65536, [65536 * 2, 0], [65536, 0]], 'gc': [0, [1, 1], None],
         'gd': [-65536, None, [2, 2]]}
MACROS = {'ma': '5', 'mb': 'pt', 'mc': 'x', 'md': '12'}

# --- followers: source, text produced -------------------------------------------------------------------
FOLLOW = [['Z', 'Z'], [' Z', None], ['\\relax Z', 'Z'], ['\\mc ', 'x'], ['\\mc Z', 'xZ'], ['{Z}', 'Z'], ['\\setk Z', 'Z'], ['', ''],
          ['\\par Z', 'Z'], ['[Z]', '[Z]'], ['*Z', '*Z'], [',Z', None], ['=Z', '=Z'], ['(Z)', '(Z)'], ['!Z', '!Z'], ['-3', '-3'],
          ['+4', '+4'], ['\\undefinedname Z', 'Z'], ['$Z$', 'Z'], ["'Z", None], ['"Z', None], ['\\kb=4 Z', None],
          ['\\da=4pt Z', None], ['\\bgroup Z\\egroup', None], ['plug', None], ['minute', None], ['\\plus Z', None], ['\\pt Z', None]]


def sign(rng):
    """source, sign"""
    if rng.random() < .5:
        return '', 1
    s, v = '', 1
    for i in range(rng.randint(1, 4)):
        c = rng.choice('+--')
        s += c + (' ' if rng.random() < .3 else '')
        v *= -1 if c == '-' else 1
    return s, v


def gen_int(rng, term=None):
    """[source, value, closed]: closed when what follows, whatever it is, cannot extend it"""
    s, sg = sign(rng)
    k = rng.random()
    if k < .35:
        d = rng.choice(['0', '7', '12', '007', '65536', '1000', str(rng.randint(0, 99999))])
        src, v, more = d, int(d), '0123456789'
    elif k < .45:
        d = rng.choice(['0', '7', '12', '777', '0101'])
        src, v, more = "'" + d, int(d, 8), '01234567'
    elif k < .57:
        d = rng.choice(['0', 'A', '1F', 'FF', '0AB', '41'])
        src, v, more = '"' + d, int(d, 16), '0123456789ABCDEF'
    elif k < .7:
        c = rng.choice('aZ0*[]=-,!')
        src, v, more = '`' + ('\\' if rng.random() < .4 else '') + c, ord(c), ''
    elif k < .76:
        c = rng.choice('{}%#$&~_^\\')
        src, v, more = '`\\' + c, ord(c), ''
    elif k < .8:
        src, v, more = '`~', 126, ''
    elif k < .9:
        r = rng.choice(sorted(COUNTS))
        return [s + '\\' + r, sg * COUNTS[r], True, 'reg']
    else:
        r = rng.choice(['ma', 'md'])
        if rng.random() < .5:
            return [s + '\\' + r, sg * int(MACROS[r]), False, '0123456789']
        return [s + '3\\' + r, sg * int('3' + MACROS[r]), False, '0123456789']
    return [s + src, sg * v, False, more]


def gen_factor(rng):
    """decimal factor: source, value"""
    k = rng.random()
    if k < .3:
        d = rng.choice(['0', '1', '12', '3', '007', '100'])
        return d, Fraction(int(d))
    if k < .85:
        i = rng.choice(['', '0', '1', '12', '3'])
        f = rng.choice(['', '5', '25', '001', '333', '75']) if i else rng.choice(['5', '25', '001', '75'])
        return i + rng.choice('..,') + f, Fraction(int(i or '0')) + (Fraction(int(f), 10 ** len(f)) if f else 0)
    if k < .93:
        d = rng.choice(['12', '7'])
        return "'" + d, Fraction(int(d, 8))
    return '"1A', Fraction(26)


def gen_unit(rng):
    u = rng.choice(sorted(UNITS))
    sp = rng.choice(['', '', '', ' '])
    t = rng.choice(['', '', '', 'true', 'true ']) if u not in ('em', 'ex') else ''
    uu = u if rng.random() < .8 else rng.choice([u.upper(), u.capitalize()])
    return sp + t + uu, u


def gen_dimen(rng, fil=False):
    """[source, [kind, value]]: kind 'sp' exact scaled points, 'em'/'ex' factor of the unit, 'fil' order"""
    s, sg = sign(rng)
    if fil and rng.random() < .4:
        f, v = gen_factor(rng)
        u = rng.choice(sorted(FIL))
        return [s + f + rng.choice(['', '', ' ']) + u, [FIL[u], str(sg * v)]]
    k = rng.random()
    if k < .7:
        f, v = gen_factor(rng)
        src, u = gen_unit(rng)
        if f[0] == '"':
            src = src.lower()
        if UNITS[u] is None:
            return [s + f + src, [u, str(sg * v)]]
        return [s + f + src, [0, str(sg * v * UNITS[u])]]
    if k < .8:
        r = rng.choice(sorted(DIMENS))
        return [s + '\\' + r, [0, str(sg * DIMENS[r])]]
    if k < .9:
        f, v = gen_factor(rng)
        r = rng.choice(sorted(DIMENS))
        return [s + f + rng.choice(['', ' ']) + '\\' + r, [0, str(sg * v * DIMENS[r])]]
    if k < .95:
        r = rng.choice(sorted(COUNTS))
        return [s + '\\' + r + ' pt', [0, str(sg * COUNTS[r] * 65536)]]
    f, v = gen_factor(rng)
    return [s + f + '\\mb', [0, str(sg * v * 65536)]]


def sep(rng, src):
    return ' ' if re.search(r'\\[A-Za-z]+$', src) else rng.choice(['', ' '])


def gen_glue(rng):
    """[source, natural, stretch, shrink]"""
    if rng.random() < .2:
        s, sg = sign(rng)
        r = rng.choice(sorted(GLUES))
        g = GLUES[r]
        st = [g[1][1], str(sg * g[1][0])] if g[1] else None
        sh = [g[2][1], str(sg * g[2][0])] if g[2] else None
        return [s + '\\' + r, [0, str(sg * g[0])], st, sh, True]
    src, v = gen_dimen(rng)
    st = sh = None
    if rng.random() < .5:
        a, st = gen_dimen(rng, True)
        src += sep(rng, src) + rng.choice(['plus', 'plus', 'Plus']) + rng.choice(['', ' ']) + a
    if rng.random() < .5:
        a, sh = gen_dimen(rng, True)
        src += sep(rng, src) + rng.choice(['minus', 'minus', 'MINUS']) + rng.choice(['', ' ']) + a
    return [src, v, st, sh, False]


# --- signatures -----------------------------------------------------------------------------------------
def gen_text(rng, depth=0, ban='', nox=False):
    """Balanced text: source, text content. `ban`: characters that must be inside braces."""
    s = t = ''
    for i in range(rng.randint(1, 4)):
        k = rng.random()
        if k < .6 or depth > 2:
            c = rng.choice(['a', 'b', '1', 'xy', '*', '=', ';', '-', '(', '<', '+', '.'])
            if any(x in ban for x in c):
                c = 'q'
            s += c
            t += c
        elif k < .75:
            a, b = gen_text(rng, depth + 1, ban, nox)
            o, c = rng.choice(['[]', '()', '<>'])
            if o in ban or c in ban:
                s += a
                t += b
            else:
                s += o + a + c
                t += o + b + c
        elif k < .9:
            a, b = gen_text(rng, depth + 1, '', nox)
            s += '{' + a + '}'
            t += b
        elif k < .95:
            s += '\\mc{}'
            t += 'x'
        else:
            a = rng.choice(']>),=')
            s += '{' + a + '}'
            t += a
    return s, t


def brackets(spec, src):
    """Brackets of the kind `spec` nest: they must be balanced outside braces, and anything goes inside."""
    lv = b = 0
    i = 0
    while i < len(src):
        c = src[i]
        if c == '\\':
            i += 2
            continue
        if c == '{':
            b += 1
        elif c == '}':
            b -= 1
        elif not b and c == spec[0]:
            lv += 1
        elif not b and c == spec[1]:
            lv -= 1
            if lv < 0:
                return False
        i += 1
    return lv == 0


def gen_value(rng, typ):
    """[source, expected]"""
    if typ in ('', 'str'):
        s, t = gen_text(rng)
        return [s, ['text', t]]
    if typ == 'nox':
        s, t = gen_text(rng)
        return [s, ['source', s.replace('\\mc{}', '\\mc {}')]]
    if typ == 'cs':
        c = rng.choice(['\\foo', '\\bar', '\\mc', '\\%', '\\x'])
        return [c, ['cs', c[1:]]]
    if typ == 'Tok':
        c = rng.choice(['a', '\\foo', '1', '\\%', '*', '\\mc'])
        return [c, ['tok', c]]
    if typ == 'XTok':
        c = rng.choice(['a', '1', '*'])
        return [c, ['tok', c]]
    if typ in ('int', 'Number', 'number', 'count'):
        g = gen_int(rng)
        return [g[0], ['int', g[1]]]
    if typ in ('float', 'double'):
        s, sg = sign(rng)
        f, v = gen_factor(rng)
        return [s + f, ['float', str(sg * v)]]
    if typ in ('dimen', 'Dimen', 'length'):
        s, v = gen_dimen(rng)
        return [s, ['dimen', v]]
    if typ == 'Glue':
        g = gen_glue(rng)
        return [g[0], ['glue'] + g[1:4]]
    if typ.startswith('list'):
        d = ','
        if '(' in typ:
            d = typ[5]
        items = []
        src = []
        for i in range(rng.randint(1, 4)):
            if typ.endswith(':int'):
                v = rng.randint(0, 99)
                s = rng.choice(['', ' ']) + str(v)
                items.append(['int', v])
            else:
                s, t = gen_text(rng, 1, ',;/')
                if rng.random() < .2:
                    s, t = '{%s%s%s}' % (s, d, s), t + d + t
                if rng.random() < .3:
                    s = ' ' + s
                items.append(['text', t])
            src.append(s)
        return [d.join(src), ['list', items]]
    if typ == 'dict':
        out = {}
        src = []
        for i in range(rng.randint(1, 4)):
            k = rng.choice(['ka', 'b', 'key one', 'x', 'yy', 'z'])
            if k in out:
                continue
            if rng.random() < .25:
                out[k] = ['true']
                s = k
            else:
                s, t = gen_text(rng, 1, ',=')
                if rng.random() < .3:
                    s, t = '{%s,k=%s}' % (s, s), '%s,k=%s' % (t, t)
                out[k] = ['text', t]
                s = k + rng.choice(['', ' ']) + '=' + rng.choice(['', ' ']) + s
            src.append(s)
        return [rng.choice([',', ', ']).join(src), ['dict', out]]
    raise AssertionError(typ)


MTYPES = ['', '', '', 'str', 'nox', 'cs', 'Tok', 'XTok', 'int', 'Number', 'float', 'dimen', 'Dimen', 'Glue', 'list', 'list(;)',
          'list:int', 'dict', 'length', 'number', 'list(/)']
OTYPES = ['', '', 'str', 'nox', 'int', 'float', 'dimen', 'list', 'list(;)', 'dict', 'list:int']


def gen_call(rng):
    args = []
    src = ''
    spec = []
    n = rng.randint(1, 6)
    if rng.random() < .3:
        m = rng.choice('**+-')
        spec.append(m)
        on = rng.random() < .5
        args.append(['*modifier*', ['mod', m] if on else ['none']])
        src += m if on else ''
    prev_absent = [] if not spec or on else [m]
    for i in range(n):
        name = 'a%d' % i
        g = rng.choice(['', '', '', '[]', '[]', '()', '<>', '{}', '='])
        if g == '=' and (not spec or spec[-1] == '=' or i == n - 1):
            g = ''
        if g == '=':
            spec.append('=')
            on = rng.random() < .5 and '=' not in prev_absent
            args.append(['*equals*', ['mod', '='] if on else ['none']])
            src += '=' if on else ''
            prev_absent = [] if on else prev_absent + ['=']
            continue
        if g == '{}' and any(True for _ in [0]) and rng.random() < .5:
            g = ''
        typ = rng.choice(OTYPES if g else MTYPES)
        decl = name + (':' + typ if typ else '')
        s, want = gen_value(rng, typ)
        if g:
            spec.append('%s %s %s' % (g[0], decl, g[1]))
            on = rng.random() < .6
            if on and g != '{}' and not brackets(g, s) or g[0] in prev_absent:
                on = False
            if on:
                sp = rng.choice(['', '', ' '])
                src += sp + g[0] + s + g[1]
                prev_absent = []
                args.append([name, want])
            else:
                prev_absent.append(g[0])
                args.append([name, ['none']])
            continue
        spec.append(decl)
        # a mandatory argument
        first = s.lstrip()[:1]
        braced = True
        if typ in ('Tok', 'Number', 'Dimen', 'Glue'):
            braced = False
        elif typ in ('', 'str', 'XTok', 'int', 'number') and rng.random() < .25 and len(s) == 1 and s.isalnum():
            braced = False
        if typ == 'cs' and rng.random() < .7:
            braced = False
        if not braced:
            if first in prev_absent:
                return None
            sp = rng.choice(['', ' '])
            if src[-1:].isalpha() and '\\' in src[-8:]:
                sp = ' '
            src += sp + s
            if typ in ('Number', 'Dimen', 'Glue'):
                src += '\\relax' if typ != 'Glue' else '\\relax'
                spec.append('r%d:Tok' % i)
                args.append([name, want])
                args.append(['r%d' % i, ['tok', '\\relax']])
                prev_absent = []
                continue
            if s[:1] == '\\' and s[1:].isalpha():
                src += ' '
        else:
            if '{' in prev_absent:
                return None
            src += rng.choice(['', '', ' ']) + '{' + s + '}'
        prev_absent = []
        args.append([name, want])
    tail = rng.choice(['Z', ' Z', '\\relax Z', 'q', '\\mc Z', '{Z}', '*Z', '[Z]', '(Z)', '=Z', '<Z>'])
    if tail.strip()[:1] in prev_absent:
        tail = 'q'
    if prev_absent and tail[0] == ' ':
        tail = 'Z'
    if tail[:1].isalnum() and src[-1:].isalpha():
        tail = '\\relax ' + tail
    return ['call', ' '.join(spec), src, args, tail]


def gen_num(rng):
    k = rng.random()
    f = rng.choice(FOLLOW)
    if k < .4:
        g = gen_int(rng)
        return ['int', g, f, rng.random() < .4]
    if k < .75:
        return ['dimen', gen_dimen(rng), f, rng.random() < .4]
    return ['glue', gen_glue(rng), f, rng.random() < .4]


def follow(case):
    """source and text after the literal, or None when the follower could extend it"""
    kind, g, (fs, ft), space = case
    src = g[0]
    last = src[-1:]
    word = re.search(r'\\[A-Za-z]+$', src)
    if kind == 'int':
        more = g[3]
        if more == 'reg' or word:
            if space or fs[:1].isalpha():
                space = True
            elif fs[:1] == ' ':
                pass
        if word:
            space = False           # the space ends the control word, not the number
        if not space and more not in ('', 'reg'):
            c = fs.lstrip() and fs[0]
            if c and (c in more):
                return None
            if fs.startswith('\\kb') or fs.startswith('\\da'):
                return None         # known: an adjacent register multiplies
        if not space and re.match(r'\\(k|d|g)', fs) and more not in ('', 'reg'):
            return None
        # a command that is only assigned to later
        if word and more == 'reg' and fs[:1].isalpha() and not space:
            return None
    return space


def rest(kind, g, f, space):
    """expected (source appended, text or None=undecided)"""
    fs, ft = f
    src = g[0]
    word = re.search(r'\\[A-Za-z]+$', src)
    lead = ' ' if space else ''
    if word and fs[:1].isalpha() and not space:
        lead = ' '
    full = lead + fs
    if fs == ' Z':
        # one space is part of the literal (or of the control word), further ones collapse in the tokenizer
        return full, 'Z'
    return full, ft


def cases(rng, tier):
    while True:
        if rng.random() < .55:
            c = gen_call(rng)
            if c:
                yield c
        else:
            yield gen_num(rng)


def corners():
    out = [['adjacent']]
    for f in FOLLOW:
        for g in (['3', 3, False, '0123456789'], ['\\kb', 3, True, 'reg'], ['"1F', 31, False, '0123456789ABCDEF'], ['`a', 97, False, '']):
            for sp in (False, True):
                out.append(['int', g, f, sp])
        for g in (['3pt', [0, '196608']], ['3\\da', [0, str(30 * 65536)]], ['\\dc', [0, '12345']]):
            for sp in (False, True):
                out.append(['dimen', g, f, sp])
        for g in (['3pt plus 1fil', [0, '196608'], [1, '1'], None, False], ['\\gb', [0, '65536'], [0, '131072'], [0, '65536'], True],
                  ['-\\gb', [0, '-65536'], [0, '-131072'], [0, '-65536'], True], ['\\da plus 2pt', [0, '655360'], [0, '131072'], None, False]):
            for sp in (False, True):
                out.append(['glue', g, f, sp])
    for u in UNITS:
        if UNITS[u]:
            for t in ('', 'true'):
                out.append(['dimen', ['2.5' + t + u, [0, str(Fraction(5, 2) * UNITS[u])]], ['Z', 'Z'], False])
    out.append(['call', '{ a0 } { a1 }', '{a}{b}', [['a0', ['text', 'a']], ['a1', ['text', 'b']]], 'Z'])
    out.append(['call', '* [ a0 ] a1', '*[{]}]{b}', [['*modifier*', ['mod', '*']], ['a0', ['text', ']']], ['a1', ['text', 'b']]], 'Z'])
    out.append(['call', '* [ a0 ] a1', '[a[b]c]{b}', [['*modifier*', ['none']], ['a0', ['text', 'a[b]c']], ['a1', ['text', 'b']]], 'Z'])
    return out


def nontrivial(case):
    if case[0] == 'adjacent':
        return False
    return case[0] != 'call' or len(case[3]) > 1


PRE = ''.join('\\newcount\\%s\\%s=%d ' % (k, k, v) for k, v in COUNTS.items()) + \
      ''.join('\\newdimen\\%s\\%s=%dsp ' % (k, k, v) for k, v in DIMENS.items()) + \
      ''.join('\\def\\%s{%s}' % (k, v) for k, v in MACROS.items())


def prepare():
    from plasTeX import TeXDocument, glue, dimen
    from plasTeX.TeX import TeX
    doc = TeXDocument()
    tex = TeX(doc)
    tex.disableLogging() if hasattr(tex, 'disableLogging') else None
    tex.input(PRE)
    tex.parse()
    for k, (n, st, sh) in GLUES.items():
        doc.context.newskip(k)

        def d(x):
            if x is None:
                return None
            return dimen('%d%s' % (x[0], ['sp', 'fil', 'fill', 'filll'][x[1]]))
        doc.context[k].value = glue(n, d(st), d(sh))
    return doc, tex


def expect_dimen(got, want):
    from plasTeX import dimen
    k, v = want
    v = Fraction(v)
    if k == 0:
        if abs(got) >= 2e9:
            return 'infinite %s' % got.source
        ok = abs(Fraction(float(got)) - v) <= 1 + abs(v) / 10 ** 9
    elif k in ('em', 'ex'):
        ok = abs(Fraction(float(got)) - v * Fraction(float(dimen('1' + k)))) <= 1
    else:
        order = 0 if abs(got) < 2e9 else 1 if abs(got) < 4e9 else 2 if abs(got) < 6e9 else 3
        if order != k:
            return 'got order %d (%s), expected order %d' % (order, got.source, k)
        x = Fraction(float(got))
        x = x - k * 2 * 10 ** 9 if x >= 0 else x + k * 2 * 10 ** 9
        ok = abs(x - v) <= Fraction(1, 10 ** 5)
    if not ok:
        return 'got %r (%r), expected %s %s' % (got.source, float(got), k, float(v))


def expect(got, want):
    k = want[0]
    if k == 'none':
        return None if got is None else 'got %r, expected nothing' % (got,)
    if k == 'true':
        return None if got is True else 'got %r, expected True' % (got,)
    if got is None:
        return 'got nothing, expected %r' % (want,)
    if k == 'mod':
        return None if str(got) == want[1] else 'got %r' % (got,)
    if k == 'text':
        t = got if isinstance(got, str) else getattr(got, 'textContent', None)
        if t is None:
            t = ''.join(getattr(x, 'textContent', x) for x in got)
        t = str(t).replace('\u2014', '---').replace('\u2013', '--')
        if ''.join(t.split()) != ''.join(want[1].split()):
            return 'got %r, expected %r' % (str(t), want[1])
        return None
    if k == 'source':
        t = ''.join(x.source for x in got)
        a, b = ''.join(t.split()), ''.join(want[1].split())
        return None if a == b else 'got %r, expected %r' % (t, want[1])
    if k == 'cs':
        return None if str(got) == want[1] and got.catcode == 0 else 'got %r, expected %r' % (got, want[1])
    if k == 'tok':
        w = want[1]
        if w[0] == '\\':
            return None if getattr(got, 'macroName', None) == w[1:] else 'got %r, expected %r' % (got, w)
        return None if str(got) == w and got.catcode in (11, 12) else 'got %r, expected %r' % (got, w)
    if k == 'int':
        return None if isinstance(got, int) and got == want[1] else 'got %r, expected %r' % (got, want[1])
    if k == 'float':
        return None if isinstance(got, (int, float)) and abs(Fraction(float(got)) - Fraction(want[1])) < Fraction(1, 10 ** 9) \
            else 'got %r, expected %s' % (got, float(Fraction(want[1])))
    if k == 'dimen':
        return expect_dimen(got, want[1])
    if k == 'glue':
        r = expect_dimen(got, want[1])
        if r:
            return 'natural size: ' + r
        for what, g, w in (('stretch', got.stretch, want[2]), ('shrink', got.shrink, want[3])):
            if (g is None or not g) and (w is None or Fraction(w[1]) == 0 and w[0] not in (1, 2, 3)):
                continue
            if g is None or w is None:
                return '%s: got %s, expected %s' % (what, g, w)
            r = expect_dimen(g, w)
            if r:
                return '%s: %s' % (what, r)
        return None
    if k == 'list':
        if len(got) != len(want[1]):
            return 'got %d items %r, expected %r' % (len(got), got, want[1])
        for g, w in zip(got, want[1]):
            r = expect(g, w)
            if r:
                return 'list item: ' + r
        return None
    if k == 'dict':
        if {str(x) for x in got} != set(want[1]):
            return 'got keys %r, expected %r' % (sorted(str(x) for x in got), sorted(want[1]))
        for x in got:
            r = expect(got[x], want[1][str(x)])
            if r:
                return 'key %s: %s' % (x, r)
        return None
    raise AssertionError(k)


def check(case):
    import plasTeX
    from plasTeX import Command, ParameterCommand
    level = ParameterCommand._enablelevel
    doc, tex = prepare()
    catcodes = [list(c) for c in doc.context.categories]
    if case[0] == 'call':
        _, spec, src, args, tail = case
        cls = type('probe', (Command,), {'args': spec})
        for nm in ('foo', 'bar'):
            doc.context[nm] = type(nm, (Command,), {})
        doc.context['probe'] = cls
        full = '\\probe' + (' ' if src[:1].isalpha() or not src and tail[:1].isalpha() else '') + src + tail
        tex = type(tex)(doc)
        tex.input(full)
        tex.parse()
        node = doc.childNodes[-1] if False else None
        found = [n for n in walk(doc) if getattr(n, 'nodeName', '') == 'probe']
        if not found:
            return '%s: not in the document' % full
        node = found[0]
        for name, want in args:
            if name not in node.attributes:
                return '%s (args %r): %s is not bound' % (full, spec, name)
        seen = {}
        for name, want in args:
            if name == '*equals*' and sum(1 for a in args if a[0] == name) > 1:
                continue
            r = expect(node.attributes[name], want)
            if r:
                return '%s (args %r): %s: %s' % (full, spec, name, r)
        want = {'\\relax Z': 'Z', '\\mc Z': 'xZ', '{Z}': 'Z'}.get(tail, tail.replace('\\relax ', ''))
        got = after(doc, node).replace('\u2014', '---').replace('\u2013', '--')
        if ''.join(got.split()) != ''.join(want.split()):
            return '%s (args %r): text after it is %r, expected %r' % (full, spec, got, want)
    elif case[0] == 'adjacent':
        tex = type(tex)(doc)
        tex.input('3\\kb=4 Z')
        v = tex.readInteger()
        tex.parse(doc.createDocumentFragment())
        if v != 3 or doc.context['kb'].value != 4:
            return 'readInteger of %r: got %d, then \\kb is %d; expected 3 and 4' % ('3\\kb=4 Z', v, doc.context['kb'].value)
    else:
        kind, g, f, space = case
        if follow(case) is None:
            return ('undecided', 'follower extends the literal')
        full, want = rest(kind, g, f, space)
        if kind != 'int' and undecided_follow(kind, g, f, space):
            return ('undecided', 'follower extends the literal')
        doc.context['setk'] = type('setk', (Command,), {'invoke': lambda self, t: MARK.append(1) or []})
        for nm in ('plus', 'pt'):
            doc.context[nm] = type(nm, (Command,), {})
        MARK.clear()
        tex = type(tex)(doc)
        tex.input(g[0] + full)
        if kind == 'int':
            v = tex.readInteger()
            r = expect(v, ['int', g[1]])
        elif kind == 'dimen':
            v = tex.readDimen()
            r = expect(v, ['dimen', g[1]])
        else:
            v = tex.readGlue()
            r = expect(v, ['glue'] + g[1:4])
        if r:
            return 'read%s of %r: %s' % (kind.capitalize(), g[0] + full, r)
        if MARK:
            return 'read%s of %r runs the command after it' % (kind.capitalize(), g[0] + full)
        if want is not None:
            # the rest
            frag = doc.createDocumentFragment()
            frag = tex.parse(frag)
            got = str(frag.textContent)
            if ''.join(got.split()) != want:
                return 'read%s of %r: what follows is %r, expected %r' % (kind.capitalize(), g[0] + full, got, want)
            if full.lstrip().startswith('\\setk') and not MARK:
                return 'the command after %r is lost' % (g[0],)
        if f[0].startswith('\\kb=4'):
            tex.parse(doc.createDocumentFragment())
            if int(doc.context['kb'].value) != 4:
                return 'the assignment after %r is lost' % (g[0] + full)
    if ParameterCommand._enablelevel != level:
        return '%r: parameters are left %s' % (case, 'disabled' if ParameterCommand._enablelevel < level else 'enabled')
    if [list(c) for c in doc.context.categories] != catcodes:
        return '%r: category codes are changed' % (case,)
    return None


MARK = []


def undecided_follow(kind, g, f, space):
    fs = f[0]
    src = g[0]
    if kind == 'glue' and re.match('(?i)(plug|minute)', fs):
        return True
    return False


def walk(n):
    for c in list(n.childNodes):
        yield c
        yield from walk(c)


def after(doc, node):
    out = []
    on = [False]

    def go(n):
        for c in list(n.childNodes):
            if c is node:
                on[0] = True
                continue
            if c.nodeType == 3:
                if on[0]:
                    out.append(str(c))
            else:
                go(c)
                if on[0] and getattr(c, 'str', None) and not c.childNodes and c.nodeType != 3:
                    out.append(str(c.str))
    go(doc)
    return ''.join(out)


def signature(case, msg):
    return 'integer-times-adjacent-register' if case[0] == 'adjacent' else None
