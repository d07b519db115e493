"""C01 bounded stand-in: strings over an adversarial alphabet, category tables and mid-stream category changes, against an
independent lexer written from the rules in chapters 7 and 8 of The TeXbook (get_next of tex.web)."""
import itertools

RULE = ('strings over escape, braces, math, tab, superscript, subscript, tilde, comment, blanks, tabs, newlines, CR, NUL, letters, digits, non-ASCII and ^^ '
        'sequences, under the default, @-letter, verbatim and random category tables, with category changes between tokens, given as str, bytes or file; the '
        'sequence of (category, text) pairs is compared; non-trivial: a control sequence, comment, ^^ sequence, paragraph or dropped character occurs')
BOUND = 'all strings of at most 4 characters over 11 characters (default table), random strings of at most 24 characters, at most 6 category changes'
BUDGET = {'quick': 35, 'thorough': 400}
MAX_CASES = {'quick': 6000}
BATCH = 100
ERROR_FAILS = True
TIMEOUT_FAILS = True

ESC, BG, EG, MATH, ALIGN, EOL, PAR, SUP, SUB, IGN, SP, LET, OTH, ACT, COM, INV = range(16)
SMALL = '\\ \n%^a1@{\x00é'
ALPHABET = ['\\'] * 5 + ['{', '}', '$', '&', '#', '_', '~', '%', '%', '^', '^', '^^', '^^', ' ', ' ', '  ', '\t', '\n', '\n', '\n\n', '\r', '\r\n', '\x00', '@', 'a', 'b',
            'ab', 'z', 'B', '0', '9', '.', 'é', '∀', '\\par', '\\x ', '^^M', '^^5e', '^^41', '^^4z', '^^A', '^^é', '\\^^41', '\x7f']


def default_table():
    t = {}
    for i in range(128):
        c = chr(i)
        if c.isalpha():
            t[c] = LET
    t.update({'\\': ESC, '{': BG, '}': EG, '$': MATH, '&': ALIGN, '\n': EOL, '#': PAR, '^': SUP, '_': SUB, '\x00': IGN, ' ': SP, '\t': SP, '\r': SP, '\f': SP,
              '~': ACT, '%': COM})
    return t


def verbatim_table():
    return {c: LET for c in map(chr, range(128)) if c.isalpha()}


class Undecided(Exception):
    pass


def hexdigit(c):
    return c in '0123456789abcdef'


class Lexer:
    """get_next of TeX on one text; lazy: a category is looked up when the character is scanned"""

    def __init__(self, text, table):
        self.b, self.p, self.t, self.state = list(text), 0, table, 'N'

    def cat(self, c):
        return self.t.get(c, OTH)

    def reduce(self, p):
        """Replaces ^^ sequences at position p in the buffer."""
        b = self.b
        while p + 1 < len(b) and self.cat(b[p]) == SUP and b[p + 1] == b[p]:
            if p + 2 >= len(b) or b[p + 2] == '\n':
                raise Undecided('^^ at the end of a line')
            c = b[p + 2]
            if ord(c) >= 128:
                return
            if hexdigit(c) and p + 3 < len(b) and hexdigit(b[p + 3]):
                r = [chr(int(c + b[p + 3], 16))]
                n = 4
            else:
                r = [chr(ord(c) - 64 if ord(c) >= 64 else ord(c) + 64)]
                n = 3
            if r == ['\n']:
                raise Undecided('^^J')
            b[p:p + n] = r

    def endline(self):
        while self.p < len(self.b) and self.b[self.p] != '\n':
            self.p += 1
        self.p += 1

    def next(self):
        b = self.b
        while True:
            if self.p >= len(b):
                return None
            if b[self.p] == '\n' and self.cat('\n') != EOL and (self.t.get(' ') == SP or self.t.get('^') == SUP):
                raise Undecided('line ends of another category')
            self.reduce(self.p)
            c = b[self.p]
            k = self.cat(c)
            self.p += 1
            if k == ESC:
                if self.p >= len(b):
                    return ('cs', '')
                if b[self.p] == '\n' and self.cat('\n') == EOL:
                    self.p += 1
                    self.state = 'N'
                    return ('cs', ' ')
                self.reduce(self.p)
                k = self.cat(b[self.p])
                name = b[self.p]
                self.p += 1
                if name == '\n':
                    raise Undecided('line ends of another category')
                if k != LET:
                    self.state = 'S' if k == SP else 'M'
                    return ('cs', name)
                self.state = 'S'
                while self.p < len(b):
                    self.reduce(self.p)
                    if self.cat(b[self.p]) != LET:
                        break
                    name += b[self.p]
                    self.p += 1
                return ('cs', name)
            if k == EOL:
                if c != '\n':
                    self.endline()
                s, self.state = self.state, 'N'
                if s == 'M':
                    return (SP, ' ')
                if s == 'N':
                    return ('cs', 'par')
            elif k == COM:
                if c == '\n':
                    raise Undecided('line ends of another category')
                self.endline()
                self.state = 'N'
            elif k == SP:
                if self.state == 'M':
                    self.state = 'S'
                    return (SP, ' ')
            elif k == ACT:
                self.state = 'M'
                return ('active', c)
            elif k not in (IGN, INV):
                self.state = 'M'
                return (k, c)


def normal(toks):
    """control space and space alike after an escape character at the end of a line (see Lexer); adjacent paragraphs are one"""
    out = []
    for t in toks:
        if t == ('cs', 'par') and out and out[-1] == t:
            continue
        out.append(t)
    return out


def corners():
    for n in range(1, 5):
        for s in itertools.product(SMALL if n < 4 else SMALL[:8], repeat=n):
            yield {'text': ''.join(s)}
    for c in map(chr, list(range(128)) + [233, 8704]):
        for s in ('%s', 'a%s', '\\%s', '\\a%s b', '^^%s', '%s%s', '%s\n\nb', '\\%s  b', 'a\n%s b', '\\a^^%s b', '\\^^%sb'):
            yield {'text': s.replace('%s', c) + 'x'}
            yield {'text': s.replace('%s', c)}
    for i in range(256):
        for h in ('%02x' % i, '%02X' % i):
            yield {'text': 'a^^%sb' % h}
            yield {'text': '\\a^^%s b' % h}
    for k in range(16):
        for s in ('a!b', '\\!b', '\\a!b', '! !  c', 'a\n!\n\nb', '\\a! b', '!!', '!!A', '!!41', '\\! b', 'x!\ny', 'x !y\n!', '!a!%\n!'):
            yield {'text': s, 'cats': [['!', k]]}
            yield {'text': s, 'cats': [['!', k], ['a', OTH]]}
            yield {'text': s, 'changes': [[1, '!', k]]}
            yield {'text': s, 'changes': [[2, '!', k], [3, '!', OTH]]}
            yield {'text': s, 'mode': 'file'}
    for s in ('\\a^b%c\nd', '\\a^%c\nd', '\\a^^%c\nd'):
        for k in range(16):
            yield {'text': s, 'changes': [[1, '^', k]]}
            yield {'text': s, 'changes': [[1, 'b', k]]}
            yield {'text': s, 'changes': [[1, '%', k]]}


def cases(rng, tier):
    while True:
        alpha = ALPHABET if rng.random() < .6 else [rng.choice(ALPHABET) for _ in range(6)]
        c = {'text': ''.join(rng.choice(alpha) for _ in range(rng.randint(1, 24)))}
        k = rng.random()
        if k < .25:
            c['cats'] = [[rng.choice('@!ab\\{}%^~ \t\r&9é'), rng.randrange(16)] for _ in range(rng.randint(1, 6))]
        elif k < .35:
            c['cats'] = [['@', LET]]
        elif k < .4:
            c['verbatim'] = True
        elif k < .5:
            p = list('\\{}$&#^_~% @a')
            q = [ESC, BG, EG, MATH, ALIGN, PAR, SUP, SUB, ACT, COM, SP, LET, IGN, INV, EOL]
            rng.shuffle(q)
            c['cats'] = [[a, b] for a, b in zip(p, q)]
        if rng.random() < .3:
            c['changes'] = sorted([rng.randint(0, 6), rng.choice('@!ab\\{}%^~ \t9é'), rng.randrange(16)] for _ in range(rng.randint(1, 4)))
        if rng.random() < .2:
            c['mode'] = rng.choice(['bytes', 'file'])
        yield c


def expected(case):
    t = verbatim_table() if case.get('verbatim') else default_table()

    def set(c, k):
        if k == OTH:
            t.pop(c, None)
        else:
            t[c] = k
    for c, k in case.get('cats', []):
        set(c, k)
    text = case['text']
    if case.get('mode') == 'bytes':
        text = text.replace('\r\n', '\n').replace('\r', '\n')
    if case.get('mode') == 'file':
        text = text.replace('\r\n', '\n').replace('\r', '\n')
    lx = Lexer(text, t)
    out = []
    changes = list(case.get('changes', []))
    while True:
        while changes and changes[0][0] <= len(out):
            _, c, k = changes.pop(0)
            set(c, k)
        tok = lx.next()
        if tok is None:
            return out
        out.append(tok)


def nontrivial(case):
    try:
        return any(t[0] in ('cs', 'active') for t in expected(case)) or any(c in case['text'] for c in '%\x00') or '^^' in case['text']
    except Undecided:
        return False


def shrinks(case):
    t = case['text']
    for i in range(len(t)):
        yield dict(case, text=t[:i] + t[i + 1:])
    for k in ('cats', 'changes'):
        for i in range(len(case.get(k, []))):
            yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
    for k in ('mode', 'verbatim'):
        if k in case:
            yield {a: b for a, b in case.items() if a != k}


def check(case):
    import os, tempfile
    from plasTeX.TeX import TeX
    from plasTeX.Tokenizer import Token
    try:
        want = expected(case)
    except Undecided as e:
        want, why = None, str(e)
    tex = TeX()
    ctx = tex.ownerDocument.context
    if case.get('verbatim'):
        ctx.setVerbatimCatcodes()
    for c, k in case.get('cats', []):
        ctx.catcode(c, k)
    mode = case.get('mode', 'str')
    path = None
    try:
        if mode == 'str':
            tex.input(case['text'])
        elif mode == 'bytes':
            tex.input(case['text'].encode('utf-8'))
        else:
            fd, path = tempfile.mkstemp(suffix='.tex')
            os.write(fd, case['text'].encode('utf-8'))
            os.close(fd)
            tex.input(open(path, encoding='utf-8'))
        got = []
        changes = list(case.get('changes', []))
        it = tex.itertokens()
        n = 0
        while True:
            while changes and changes[0][0] <= n:
                _, c, k = changes.pop(0)
                ctx.catcode(c, k)
            try:
                t = next(it)
            except StopIteration:
                break
            n += 1
            if n > 10 * len(case['text']) + 10:
                return 'text %r: does not end' % case['text']
            got.append(describe(t))
    finally:
        if path:
            os.unlink(path)
    if want is None:
        return ('undecided', why)         # ended without an exception and with tokens of the right classes
    # the place of a category change counts tokens: adjacent paragraphs make the two sequences differ
    if case.get('changes') and want != normal(want):
        return ('undecided', 'adjacent paragraphs and category changes')
    g, w = normal(got), normal(want)
    g2 = [x if x != ('cs', ' ') else (SP, ' ') for x in g]
    w2 = [x if x != ('cs', ' ') else (SP, ' ') for x in w]
    if g2 != w2:
        return 'text %r%s: tokens %s, TeX gives %s' % (case['text'], ''.join(' %s=%r' % (k, v) for k, v in case.items() if k != 'text'), g, w)
    # only an escape character at the end of a line may give a plain space
    if g != w and not any(a in case['text'] for a in ('\\\n',)) and not any(k == ESC for _, k in case.get('cats', [])) and not any(k == ESC for _, _, k in case.get('changes', [])) \
            and mode == 'str':
        return 'text %r: tokens %s, TeX gives %s' % (case['text'], g, w)


def describe(t):
    from plasTeX import Tokenizer as T
    kinds = {T.EscapeSequence: ESC, T.BeginGroup: BG, T.EndGroup: EG, T.MathShift: MATH, T.Alignment: ALIGN, T.Parameter: PAR, T.Superscript: SUP, T.Subscript: SUB,
             T.Space: SP, T.Letter: LET, T.Other: OTH}
    k = kinds[type(t)]
    if int(t.catcode) != k:
        raise AssertionError('token %r of class %s has category %r' % (str(t), type(t).__name__, t.catcode))
    s = str(t)
    if k == ESC:
        return ('active', s[8:]) if s.startswith('active::') else ('cs', s)
    return (k, s)
