"""C05 proof layer: the readers arguments and numbers are made of, over token streams of any length: sign runs, digit
sequences, keywords, single characters, delimited and braced groups; the composition of dimensions and glue from
them; Macro.parse; and the balance of ParameterCommand.disable/enable on every exit, exceptional ones included."""
import z3

import plasTeX
from plasTeX import Macro, ParameterCommand, dimen, glue, number
from plasTeX.TeX import TeX
from plasTeX.Tokenizer import Token, Other, Letter, EscapeSequence, Space
from dv import hooks
from dv.core import LoopSpec, OutOfReach, STOP, cur
from dv.sym import SInt, SBool, SStr, SReal, SList, Obj, Sym, Cell, KInt, KStr, int_e, str_e, const_fun, real_e
from dv.tokens import TokRef, Stream, text, catcode, KRef, RefSort

LEVEL = 'other'
I = z3.IntSort()
S = z3.StringVal
BG, EG, SP, ESC = Token.CC_BGROUP, Token.CC_EGROUP, Token.CC_SPACE, Token.CC_ESCAPE
node = const_fun('nodeType', KInt)
isnone = z3.Function('isnone', RefSort, z3.BoolSort())
upper = z3.Function('upper', z3.StringSort(), z3.StringSort())
j = z3.Int('j')


class Tok(TokRef):
    """A token or an element in the input."""
    consts = {'catcode': KInt, 'macroName': KStr, 'text': KStr, 'nodeType': KInt}

    def dv_in(self, c):
        if not isinstance(c, str):
            raise OutOfReach('token in %s' % type(c).__name__)
        return SBool(z3.Or([text(self._e) == S(x) for x in c]))     # tokens are not empty and have no multi-character text in c

    def upper(self):
        return SStr(upper(text(self._e)))

    def m_upper(self):
        return SStr(upper(text(self._e)))


KT = KRef(Tok)
TeXm = 'plasTeX.TeX:TeX.'


class Toks(Stream):
    def read(self):
        E = cur()
        if E.branch(self.pos >= self.N):
            return STOP
        v = Tok(self.T(self.pos))
        self.pos = z3.simplify(self.pos + 1)
        E.touch(self)
        return v

    def unread_all(self, l):
        E = cur()
        if not isinstance(l, SList):
            raise OutOfReach('pushTokens')
        if l.items is not None:
            n = len(l.items)
            E.prove('pushes-back-the-tokens-read-last', z3.And([self.pos >= n] + [
                x._e == self.T(self.pos - n + k) for k, x in enumerate(l.items)]), 'callee-precondition')
            self.pos = z3.simplify(self.pos - n)
        else:
            n = l.n()
            E.prove('pushes-back-the-tokens-read-last', z3.And(self.pos >= n, z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < n), l.at(j) == self.T(self.pos - n + j)))), 'callee-precondition')
            self.pos = z3.simplify(self.pos - n)
        E.touch(self)

    def dv_snapshot(self):
        s = Toks.__new__(Toks)
        s.T, s.N, s.pos, s.serial = self.T, self.N, self.pos, self.serial
        return s


def reader(s, **methods):
    m = {'itertokens': lambda o: s.iter(), '__iter__': lambda o: s.iter(), 'expandableTokens': lambda o: s.iter(),
         'pushToken': lambda o, t: s.unread(t), 'pushTokens': lambda o, l: s.unread_all(l)}
    m.update(methods)
    return Obj(TeX, {'ownerDocument': None, 'lineInfo': ''}, m, label='tex')


def is_space(t):
    return catcode(t) == SP


def no_empty(s):
    """tokens are non-empty strings"""
    return z3.ForAll([j], z3.And(text(s.T(j)) != S('')))


def elem(t):
    return node(t) == 1


def space_loop(E, s, key):
    """readOptionalSpaces consumes exactly the run of spaces."""
    def inv(c):
        return [('only-spaces-so-far', z3.ForAll([j], z3.Implies(z3.And(c.start <= j, j < s.pos), z3.And(is_space(s.T(j)), z3.Not(elem(s.T(j)))))))]
    return inv


class Spaces:
    name = 'readOptionalSpaces'
    proves = 'readOptionalSpaces consumes the whole run of spaces, nothing else, for every input'
    covers = ['read']

    def run(self, E):
        s = Toks(E)
        E.assume(no_empty(s))
        z = z3.IntVal(0)

        def inv(c):
            return [('only-spaces-so-far', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.pos), z3.And(is_space(s.T(j)), z3.Not(elem(s.T(j)))))))]
        E.loops[(TeXm + 'readOptionalSpaces', 0)] = LoopSpec(inv, kinds={'t': KT}, modifies=lambda c: [s] + ([c.tokens] if isinstance(c.tokens, SList) else []), kind='for')
        hooks.call(TeX.readOptionalSpaces, reader(s))
        E.cover('read')
        p = s.pos
        E.prove('only-spaces-are-consumed', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), is_space(s.T(j)))))
        E.prove('all-spaces-are-consumed', z3.Implies(p < s.N, z3.Or(elem(s.T(p)), z3.Not(is_space(s.T(p))))))
    new_list = staticmethod(lambda E, items: SList([], kind=KT).to_sym() if not items else None)


class Signs:
    name = 'readOptionalSigns'
    proves = ('readOptionalSigns consumes the whole run of signs and spaces and nothing else, and returns the product of the '
              'signs, for sign runs of any length')
    assumptions = ['readOptionalSpaces by its own contract']
    covers = ['read']

    def run(self, E):
        s = Toks(E)
        E.assume(no_empty(s))
        P = z3.Function('Product', I, I)
        E.assume(P(z3.IntVal(0)) == 1)

        def sig(t):
            return z3.And(z3.Not(elem(t)), z3.Or(text(t) == S('+'), text(t) == S('-'), is_space(t)))

        def step(i):
            t = s.T(i)
            return z3.Implies(i < s.N, P(i + 1) == z3.If(z3.And(z3.Not(elem(t)), text(t) == S('-')), -P(i), P(i)))

        def skip(o):
            p = s.pos
            s.dv_havoc()
            E.assume(z3.And(s.pos >= p, z3.ForAll([j], z3.Implies(z3.And(p <= j, j < s.pos), z3.And(is_space(s.T(j)), z3.Not(elem(s.T(j))), text(s.T(j)) == S(' ')))),
                            P(s.pos) == P(p)))
            E.assume(z3.Implies(s.pos < s.N, z3.Or(elem(s.T(s.pos)), z3.Not(is_space(s.T(s.pos))))))

        def inv(c):
            return [('signs-and-spaces-so-far', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.pos), sig(s.T(j))))),
                    ('product-so-far', z3.And(int_e(c.sign) == P(s.pos)))]
        E.loops[(TeXm + 'readOptionalSigns', 0)] = LoopSpec(inv, kinds={'t': KT, 'sign': KInt}, modifies=lambda c: [s],
                                                            head_hook=lambda c: E.assume(step(s.pos)), kind='for')
        r = hooks.call(TeX.readOptionalSigns, reader(s, readOptionalSpaces=skip))
        E.cover('read')
        p = s.pos
        E.prove('only-signs-and-spaces-are-consumed', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), sig(s.T(j)))))
        E.prove('all-of-them-are-consumed', z3.Implies(p < s.N, z3.Not(sig(s.T(p)))))
        E.prove('product-of-the-signs', int_e(r) == P(p))


class Joined(Sym):
    """a list of strings, kept as its concatenation and its length"""
    symbolic = True

    def __init__(self, e=None, n=None):
        self.e, self.n_ = S('') if e is None else e, z3.IntVal(0) if n is None else n
        self.serial = cur().next_serial()

    def append(self, t):
        self.e = z3.Concat(self.e, text(t._e))
        self.n_ = self.n_ + 1
        cur().touch(self)

    def dv_snapshot(self):
        return Joined(self.e, self.n_)

    def dv_havoc(self):
        E = cur()
        self.e, self.n_ = E.fresh('joined', z3.StringSort()), E.fresh('count', I)
        E.touch(self)

    def __bool__(self):
        return cur().branch(self.n_ > 0)

    def dv_join(self, sep):
        if sep != '':
            raise OutOfReach('join')
        return SStr(self.e)


class Num(SReal):
    """a dimen or glue value and what it was made from"""
    __slots__ = ('info',)


class Sequence:
    name = 'readSequence'
    proves = ('readSequence returns the longest run of the given characters as written, with one space after it consumed when asked for, '
              'and leaves everything else; control sequences and elements end it; an empty run gives the default')
    assumptions = ['TeX.expandableTokens yields the macro-expanded input']
    covers = ['read']
    chars = '0123456789'

    def run(self, E):
        s = Toks(E)
        E.assume(no_empty(s))
        opt = E.choose('optspace')
        Cat = z3.Function('Joined', I, z3.StringSort())
        z = z3.IntVal(0)
        E.assume(Cat(z) == S(''))

        def dig(t):
            return z3.And(z3.Not(elem(t)), catcode(t) != ESC, catcode(t) != Token.CC_ACTIVE, z3.Or([text(t) == S(x) for x in self.chars]))


        def inv(c):
            o = c.output
            if not isinstance(o, Joined):
                raise OutOfReach('output')
            return [('all-in-the-set', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.pos), dig(s.T(j))))),
                    ('joined-so-far', z3.And(o.e == Cat(s.pos), o.n_ == s.pos))]
        E.loops[(TeXm + 'readSequence', 0)] = LoopSpec(
            inv, kinds={'t': KT}, modifies=lambda c: [s, c.output], kind='for',
            head_hook=lambda c: E.assume(z3.Implies(s.pos < s.N, Cat(s.pos + 1) == z3.Concat(Cat(s.pos), text(s.T(s.pos))))))
        r = hooks.call(TeX.readSequence, reader(s), self.chars, opt, 'DEFAULT')
        E.cover('read')
        p = s.pos
        k = z3.Int('run')
        # the maximal run
        E.assume(z3.And(0 <= k, k <= s.N, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), dig(s.T(j)))), z3.Implies(k < s.N, z3.Not(dig(s.T(k))))))
        sp = z3.And(k < s.N, z3.Not(elem(s.T(k))), is_space(s.T(k)), z3.BoolVal(opt))
        E.prove('consumes-the-run-and-one-space-at-most', p == z3.If(sp, k + 1, k))
        E.prove('returns-the-run', str_e(r) == z3.If(k == 0, S('DEFAULT'), Cat(k)))

    new_list = staticmethod(lambda E, items: Joined() if not items else None)


class Character:
    name = 'readCharacter'
    proves = ('a single character argument (the star) is found exactly when the next token is that character and not a control sequence of '
              'that name; otherwise nothing is consumed')
    covers = ['read']

    def run(self, E):
        s = Toks(E)
        r = hooks.call(TeX.readCharacter, reader(s, source=lambda o, l: 'SRC'), '*')
        E.cover('read')
        t = s.T(z3.IntVal(0))
        there = z3.And(s.N > 0, text(t) == S('*'), catcode(t) != ESC)
        items = r.items if isinstance(r, SList) else r
        found = items[0] is not None
        E.prove('found-exactly-when-written', there == z3.BoolVal(found))
        E.prove('consumes-it-only-if-found', s.pos == (1 if found else 0))
        if found:
            E.prove('returns-the-token', items[0]._e == t)


class Keyword:
    """words concrete, input symbolic of any length"""
    name = 'readKeyword'
    words = ['plus']
    proves = ('a keyword is found exactly when the next tokens (after spaces) spell it in any case without control sequences; then it and one '
              'space are consumed, otherwise only the spaces are; of several words the first in the list that matches is taken')
    assumptions = ['readOptionalSpaces, readOneOptionalSpace by contract', 'str.upper of a character token is a function of its text']
    covers = ['found', 'missing']
    engine = {'quick_ms': 150}

    def run(self, E):
        s = Toks(E)
        one = []
        r = hooks.call(TeX.readKeyword, reader(s, readOptionalSpaces=lambda o: None, readOneOptionalSpace=lambda o: one.append(s.pos)), list(self.words), True)

        def spells(w):
            return z3.And([s.N >= len(w)] + [z3.And(z3.Not(elem(s.T(z3.IntVal(i)))), catcode(s.T(z3.IntVal(i))) != ESC,
                                                    upper(text(s.T(z3.IntVal(i)))) == S(c.upper())) for i, c in enumerate(w)])
        if r is None:
            E.cover('missing')
            E.prove('missing-only-if-not-written', z3.And([z3.Not(spells(w)) for w in self.words]))
            E.prove('consumes-nothing', s.pos == 0)
        else:
            E.cover('found')
            k = self.words.index(r)
            E.prove('found-only-if-written', z3.And([spells(r)] + [z3.Not(spells(w)) for w in self.words[:k]]))
            E.prove('consumes-the-keyword', s.pos == len(r))
            E.prove('one-optional-space-after-it', z3.BoolVal(len(one) == 1))


class Keywords(Keyword):
    name = 'readKeyword (units)'
    words = ['pt', 'pc', 'in', 'sp', 'filll', 'fill', 'fil']


class Grouping:
    chars = '[]'
    engine = {'quick_ms': 150}
    proves = ('an optional argument is found exactly when the next token is its opening delimiter; it ends at the matching closing delimiter '
              'outside braces, delimiters inside it nest, and exactly the text up to there is consumed, for inputs of any length')
    assumptions = ['the closing delimiter occurs (otherwise the argument runs away in TeX too)', 'unexpanded reading; expansion of the tokens by TeX.expandTokens']
    covers = ['read', 'absent']
    new_list = staticmethod(lambda E, items: SList(list(items), kind=KT).to_sym() if all(isinstance(x, Tok) for x in items) else None)

    def run(self, E):
        s = Toks(E)
        b, e = self.chars
        z = z3.IntVal(0)
        Br = z3.Function('Braces', I, I)
        Lv = z3.Function('Level', I, I)
        brace = b == '{'

        def isb(t):
            return z3.And(catcode(t) != ESC, text(t) == S(b))

        def ise(t):
            return z3.And(catcode(t) != ESC, text(t) == S(e))

        def step(i):
            t = s.T(i)
            out = Br(i) == 0
            lv = z3.If(z3.And(out, isb(t)), Lv(i) + 1, z3.If(z3.And(out, ise(t)), Lv(i) - 1, Lv(i)))
            return z3.Implies(i < s.N, z3.And(Lv(i + 1) == lv, Br(i + 1) == (
                z3.IntVal(0) if brace else z3.If(z3.And(out, z3.Or(isb(t), ise(t))), Br(i), z3.If(catcode(t) == BG, Br(i) + 1, z3.If(catcode(t) == EG, Br(i) - 1, Br(i)))))))
        E.assume(z3.And(Br(z3.IntVal(1)) == 0, Lv(z3.IntVal(1)) == 1))
        if brace:
            # braces are the delimiters: the tokens { and } have the categories 1 and 2
            E.assume(z3.ForAll([j], z3.And((catcode(s.T(j)) == BG) == isb(s.T(j)), (catcode(s.T(j)) == EG) == ise(s.T(j)))))
        else:
            E.assume(z3.ForAll([j], z3.Implies(z3.Or(catcode(s.T(j)) == BG, catcode(s.T(j)) == EG), z3.Not(z3.Or(isb(s.T(j)), ise(s.T(j)))))))

        def inv(c):
            p = s.pos
            k = c.toks
            if not isinstance(k, SList):
                raise OutOfReach('toks')
            return [('level', z3.And(int_e(c.level) == Lv(p), int_e(c.level) >= 1, p >= 1)),
                    ('braces', z3.And(int_e(c.braces) == Br(p), Br(p) == 0 if brace else True)),
                    ('tokens-so-far', z3.And(k.n() == p - 1, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p - 1), k.at(j) == s.T(j + 1))))),
                    ('not-closed-before', z3.ForAll([j], z3.Implies(z3.And(1 <= j, j <= p), Lv(j) >= 1)))]

        def head(c):
            E.assume(step(s.pos))
            E.assume(s.pos < s.N)
        lists = lambda c: [s, c.toks] + ([c.source] if isinstance(c.source, SList) else [])
        E.loops[(TeXm + 'readGrouping', 1)] = LoopSpec(inv, kinds={'t': KT, 'level': KInt, 'braces': KInt}, modifies=lists, head_hook=head, kind='for')
        r = hooks.call(TeX.readGrouping, reader(s, source=lambda o, l: 'SRC'), self.chars)
        items = r.items if isinstance(r, SList) else r
        t0 = s.T(z)
        there = z3.And(s.N > 0, isb(t0))
        if items[0] is None:
            E.cover('absent')
            E.prove('absent-only-if-not-written', z3.Not(there))
            E.prove('nothing-consumed', s.pos == 0)
            return
        E.cover('read')
        p = s.pos
        l = items[0]
        E.prove('found-only-if-written', there)
        E.prove('ends-at-the-matching-delimiter', z3.And(Lv(p) == 0, ise(s.T(p - 1)), z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < p), Lv(j) >= 1))))
        E.prove('the-tokens-between', z3.And(l.n() == p - 2, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p - 2), l.at(j) == s.T(j + 1)))))


class Braced:
    name = 'readToken'
    engine = {'quick_ms': 150}
    proves = ('a mandatory argument is the next token, or, when that opens a group, the tokens up to the matching brace; exactly that is consumed, '
              'for inputs of any length')
    assumptions = ['groups are closed (otherwise the argument runs away in TeX too)', 'the next token is not a math shift (plasTeX takes the formula)', 'unexpanded reading']
    covers = ['group', 'token', 'nothing']
    new_list = staticmethod(lambda E, items: SList(list(items), kind=KT).to_sym() if all(isinstance(x, Tok) for x in items) else None)

    def run(self, E):
        s = Toks(E)
        D = z3.Function('Depth', I, I)
        z = z3.IntVal(0)
        E.assume(D(z3.IntVal(1)) == 1)
        E.assume(catcode(s.T(z)) != Token.CC_MATHSHIFT)

        def step(i):
            t = s.T(i)
            return z3.Implies(i < s.N, D(i + 1) == z3.If(catcode(t) == BG, D(i) + 1, z3.If(catcode(t) == EG, D(i) - 1, D(i))))

        def inv(c):
            p = s.pos
            k = c.toks
            if not isinstance(k, SList):
                raise OutOfReach('toks')
            return [('level', z3.And(int_e(c.level) == D(p), int_e(c.level) >= 1, p >= 1)),
                    ('tokens-so-far', z3.And(k.n() == p - 1, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p - 1), k.at(j) == s.T(j + 1))))),
                    ('not-closed-before', z3.ForAll([j], z3.Implies(z3.And(1 <= j, j <= p), D(j) >= 1)))]

        def head(c):
            E.assume(step(s.pos))
            E.assume(s.pos < s.N)
        lists = lambda c: [s, c.toks] + ([c.source] if isinstance(c.source, SList) else [])
        E.loops[(TeXm + 'readToken', 1)] = LoopSpec(inv, kinds={'t': KT, 'level': KInt}, modifies=lists, head_hook=head, kind='for')
        r = hooks.call(TeX.readToken, reader(s, source=lambda o, l: 'SRC'))
        items = r.items if isinstance(r, SList) else r
        p = s.pos
        if items[0] is None:
            E.cover('nothing')
            E.prove('nothing-only-at-the-end', s.N == 0)
            return
        l = items[0]
        t0 = s.T(z)
        if cur().branch(catcode(t0) == BG):
            E.cover('group')
            E.prove('ends-at-the-matching-brace', z3.And(D(p) == 0, z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < p), D(j) >= 1))))
            E.prove('the-tokens-between', z3.And(l.n() == p - 2, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p - 2), l.at(j) == s.T(j + 1)))))
        else:
            E.cover('token')
            E.prove('one-token', z3.And(p == 1, l.n() == 1, l.at(z) == t0))


class Failing:
    """Every reader restores the parameter level, whatever its parts do."""
    name = 'ParameterCommand balance'
    proves = ('every reader of arguments and numbers leaves ParameterCommand enabled exactly as it found it, when its parts succeed and when any '
              'of them raises; readArgumentAndSource also restores category codes and warnings')
    assumptions = ['the readers called are themselves balanced (each is proved separately)']
    covers = ['normal', 'failed']
    join = False

    def run(self, E):
        lv = z3.Int('level')
        E.assume(lv <= 0)
        E.statics[(ParameterCommand, '_enablelevel')] = SInt(lv)
        E.statics[(ParameterCommand, 'enabled')] = SBool(lv >= 0)
        fails = [False]

        def part(v):
            def f(o, *a, **k):
                if not fails[0] and E.choose('fails'):
                    fails[0] = True
                    raise ValueError('failed')
                return v() if callable(v) else v
            return f
        cats = {}
        warn = z3.Bool('warn')
        ctx = Obj(None, {'warnOnUnrecognized': SBool(warn)}, {'whichCode': lambda o, c: 5, 'catcode': lambda o, c, v: cats.__setitem__(c, v)}, label='context')
        doc = Obj(None, {'context': ctx, 'charsubs': []}, {}, label='document')
        elems = {'reg': Obj(type('reg', (ParameterCommand,), {'value': number(3)}), {'nodeType': 1}, {}, label='register'), 'other': Letter('x')}
        which = ['readDimen', 'readUnitOfMeasure', 'readInteger', 'readGlue', 'readMuGlue', 'readArgumentAndSource']
        f = which[0]
        for w in which[1:]:
            if E.choose('not ' + f):
                f = w
            else:
                break
        inp = [elems['reg'] if E.choose('register') else elems['other']]

        class It:
            symbolic = False

            def dv_iter(self):
                return self

            def dv_next(self):
                if not fails[0] and E.choose('fails'):
                    fails[0] = True
                    raise ValueError('failed')
                return inp.pop() if inp else STOP
        names = ['readOptionalSigns', 'readDecimal', 'readUnitOfMeasure', 'readKeyword', 'readOptionalSpaces', 'readOneOptionalSpace', 'readSequence',
                 'readDimen', 'readMuDimen', 'readStretch', 'readShrink', 'readMuStretch', 'readMuShrink', 'readInteger', 'readNumber', 'readGlue', 'readMuGlue',
                 'readToken', 'readCharacter', 'readGrouping', 'cast', 'expandTokens', 'source']
        vals = {'readOptionalSigns': 1, 'readDecimal': 2.0, 'readUnitOfMeasure': dimen('1pt'), 'readKeyword': None, 'readSequence': '3',
                'readToken': lambda: SList([SList([Letter('a')]), 'a']), 'readCharacter': lambda: SList([None, '']), 'readGrouping': lambda: SList([None, '']), 'cast': 'CAST',
                'expandTokens': lambda: SList([Letter('a')]), 'source': 'a'}
        m = {n: part(vals.get(n)) for n in names if n != f}
        for n in ('readDimen', 'readMuDimen'):
            if n in m:
                m[n] = part(lambda: dimen('1pt'))
        for n in ('readInteger', 'readNumber'):
            if n in m:
                m[n] = part(lambda: number(3))
        for n in ('readGlue', 'readMuGlue'):
            if n in m:
                m[n] = part(lambda: glue(3))
        m.update({'itertokens': lambda o: It(), '__iter__': lambda o: It(), 'expandableTokens': lambda o: It(), 'pushToken': lambda o, t: None})
        tex = Obj(TeX, {'ownerDocument': doc, 'lineInfo': '', 'argtypes': {'url': (None, {'#': 12}), 'str': None}}, m, label='tex')
        for k in (number, dimen, glue, plasTeX.muglue):
            E.classes[k] = lambda *a, **k: 3.0
        args, kw = [], {}
        if f == 'readUnitOfMeasure':
            args = [['pt']]
        elif f == 'readArgumentAndSource':
            kw['type'] = 'url' if E.choose('url') else 'Number' if E.choose('Number') else 'Dimen' if E.choose('Dimen') else 'Tok' if E.choose('Tok') else 'XTok' if E.choose('XTok') else 'any' if E.choose('any') else None
            kw['spec'] = '[]' if E.choose('optional') else None
            kw['parentNode'] = Obj(None, {'nodeName': 'foo'}, {}, label='node')
        try:
            hooks.callm(tex, f, *args, **kw)
            E.cover('normal')
        except ValueError:
            E.cover('failed')
        E.prove('%s#parameters-as-before' % f, int_e(E.statics[(ParameterCommand, '_enablelevel')]) == lv)
        e = E.statics[(ParameterCommand, 'enabled')]
        E.prove('%s#enabled-as-before' % f, (e._e if isinstance(e, SBool) else z3.BoolVal(e)) == (lv >= 0))
        E.prove('%s#category-codes-as-before' % f, z3.BoolVal(all(v == 5 for v in cats.values())))
        w = ctx.f['warnOnUnrecognized']
        E.prove('%s#warnings-as-before' % f, (w._e if isinstance(w, SBool) else z3.BoolVal(w)) == warn)


class Compose:
    name = 'readDimen / readGlue'
    proves = ('a dimension is sign times factor times unit (an integer register is a factor, a dimension register stands for itself, a fil order stays the '
              'order it is), glue is the signed natural size with the stretch and shrink that follow it, or a signed glue register')
    assumptions = ['readOptionalSigns, readDecimal, readUnitOfMeasure, readStretch, readShrink by contract', 'floating-point arithmetic treated as real arithmetic']
    covers = ['dimen', 'register', 'count', 'glue', 'gluereg']

    def run(self, E):
        sg = z3.Int('sign')
        E.assume(z3.Or(sg == 1, sg == -1))
        d, u, rv = z3.Real('factor'), z3.Real('unit'), z3.Real('register')
        E.assume(u < z3.Q(10 ** 9, 1))
        E.assume(u > z3.Q(-10 ** 9, 1))

        def mk(cls):
            def make(v, plus=None, minus=None, sign=1):
                if isinstance(v, str):
                    return dimen(v)
                e = rv if isinstance(v, Obj) else real_e(v)
                r = Num(e * real_e(sign))
                r.info = (v, plus, minus)
                return r
            return make
        E.statics[(ParameterCommand, '_enablelevel')] = 0
        E.statics[(ParameterCommand, 'enabled')] = True
        E.classes[dimen] = mk(dimen)
        E.classes[glue] = mk(glue)
        E.classes[number] = lambda v: SReal(rv) if isinstance(v, Obj) else v
        kind = 'dimen' if E.choose('dimen') else 'register' if E.choose('register') else 'count' if E.choose('count') else 'glue' if E.choose('glue') else 'gluereg'
        E.cover(kind)
        value = {'register': dimen(1), 'count': number(3), 'gluereg': glue(1)}.get(kind)
        tok = Letter('3') if value is None else Obj(type('reg', (ParameterCommand,), {'value': value}), {'nodeType': 1}, {}, label='register')
        inp = [tok]
        back = []

        class It:
            symbolic = False

            def dv_iter(self):
                return self

            def dv_next(self):
                return inp.pop() if inp else STOP
        unit = SReal(u)
        tex = Obj(TeX, {'lineInfo': ''}, {
            '__iter__': lambda o: It(), 'expandableTokens': lambda o: It(), 'itertokens': lambda o: It(), 'pushToken': lambda o, t: (back.append(t), inp.append(t))[0],
            'readOptionalSigns': lambda o: SInt(sg), 'readDecimal': lambda o: SReal(d), 'readUnitOfMeasure': lambda o, *a, **k: unit,
            'readStretch': lambda o: 'STRETCH', 'readShrink': lambda o: 'SHRINK'}, label='tex')
        if kind in ('glue', 'gluereg'):
            if kind == 'glue':
                tex.methods['readDimen'] = lambda o, *a, **k: SReal(d)
            r = hooks.callm(tex, 'readGlue')
            if kind == 'glue':
                E.prove('glue#natural-size', real_e(r) == z3.ToReal(sg) * d)
                E.prove('glue#stretch-and-shrink', z3.BoolVal(r.info[1] == 'STRETCH' and r.info[2] == 'SHRINK'))
            else:
                E.prove('glue-register#signed', real_e(r) == z3.ToReal(sg) * rv if r.info[0] is tok else z3.BoolVal(False))
            return
        r = hooks.callm(tex, 'readDimen', ['pt', 'sp'])
        v = real_e(r)
        want = {'dimen': z3.ToReal(sg) * d * u, 'register': z3.ToReal(sg) * rv, 'count': z3.ToReal(sg) * rv * u}[kind]
        E.prove('%s#value' % kind, v == want)
        E.prove('%s#following-token-stays' % kind, z3.BoolVal((back == [tok]) == (kind == 'dimen')))


class Integer:
    name = 'readInteger'
    proves = ('an integer is the sign times: the decimal, octal or upper-case hexadecimal value of the digits read, the code of the character after `, '
              'or the value of a register; a space after a constant ends it and nothing beyond is read')
    assumptions = ['readOptionalSigns, readSequence, readOneOptionalSpace by contract', 'int(s, base) and ord are the values of the digits and character']
    covers = ['decimal', 'octal', 'hex', 'char', 'active', 'register', 'missing']

    def run(self, E):
        sg = z3.Int('sign')
        E.assume(z3.Or(sg == 1, sg == -1))
        rest = z3.String('digits')
        rv = z3.Int('register')
        INT = z3.Function('int', z3.StringSort(), I, I)
        ORD = z3.Function('ord', z3.StringSort(), I)
        E.statics[(ParameterCommand, '_enablelevel')] = 0
        E.statics[(ParameterCommand, 'enabled')] = True
        E.classes[number] = lambda v: SInt(rv) if isinstance(v, Obj) else v
        E.models[int] = lambda v, base=10: SInt(INT(str_e(v), z3.IntVal(base)))
        # prefixes int() accepts and that do not change the value
        for b, pre in ((8, ('0', '0o')), (16, ('0x', '0X', '0')), (10, ('0',))):
            E.assume(z3.And([INT(z3.Concat(S(x), rest), z3.IntVal(b)) == INT(rest, z3.IntVal(b)) for x in pre]))
        kinds = ['decimal', 'octal', 'hex', 'char', 'active', 'register', 'missing']
        kind = kinds[0]
        for k in kinds[1:]:
            if E.choose('not ' + kind):
                kind = k
            else:
                break
        reg = Obj(type('reg', (ParameterCommand,), {'value': number(3)}), {'nodeType': 1}, {}, label='register')
        first = {'decimal': Other('7'), 'octal': Other("'"), 'hex': Other('"'), 'char': Other('`'), 'active': Other('`'), 'register': reg, 'missing': Letter('x')}[kind]
        second = EscapeSequence('active::~') if kind == 'active' else EscapeSequence('%') if kind == 'char' and E.choose('cs') else Letter('a')
        inp = [second, first] if kind in ('char', 'active') else [first]
        after = Letter('Z') if E.choose('letter') else Space(' ')
        inp.insert(0, after)
        seqs, spaces = [], []

        class It:
            symbolic = False

            def dv_iter(self):
                return self

            def dv_next(self):
                return inp.pop() if inp else STOP

        def seq(o, chars, optspace=True, default=''):
            seqs.append((chars, optspace, default))
            # the digits, then, when asked to, one space
            if optspace and inp and isinstance(inp[-1], Space):
                spaces.append(inp.pop())
            return SStr(rest)

        def space(o):
            if inp and isinstance(inp[-1], Space):
                spaces.append(inp[-1])
                return inp.pop()
        tex = Obj(TeX, {'lineInfo': ''}, {
            '__iter__': lambda o: It(), 'expandableTokens': lambda o: It(), 'itertokens': lambda o: It(), 'pushToken': lambda o, t: inp.append(t),
            'readOptionalSigns': lambda o: SInt(sg), 'readSequence': seq, 'readOneOptionalSpace': space}, label='tex')
        r = hooks.callm(tex, 'readInteger')
        E.cover(kind)
        want = {'decimal': lambda: INT(z3.Concat(S('7'), rest), z3.IntVal(10)), 'octal': lambda: INT(z3.Concat(S('0'), rest), z3.IntVal(8)),
                'hex': lambda: INT(z3.Concat(S('0x'), rest), z3.IntVal(16)), 'char': lambda: z3.IntVal(ord(str(second)[0])), 'active': lambda: z3.IntVal(ord('~')),
                'register': lambda: rv, 'missing': lambda: z3.IntVal(0)}[kind]()
        if kind == 'missing':
            E.prove('missing#zero-and-nothing-consumed', z3.And(int_e(r) == 0))
            return
        E.prove('%s#value' % kind, int_e(r) == sg * want)
        if kind in ('octal', 'hex', 'decimal'):
            E.prove('%s#digits' % kind, z3.BoolVal(len(seqs) == 1 and sorted(seqs[0][0]) == sorted({'decimal': '0123456789', 'octal': '01234567', 'hex': '0123456789ABCDEF'}[kind])))
        if kind != 'register':
            E.prove('%s#one-space-ends-it' % kind, z3.BoolVal(len(spaces) == (1 if isinstance(after, Space) else 0) and inp == ([] if isinstance(after, Space) else [after])))
        else:
            E.prove('register#nothing-beyond-is-read', z3.BoolVal(inp == [after]))


class Bind:
    name = 'Macro.parse'
    proves = ('Macro.parse reads the declared arguments once each, in order, with their own options, binds each name to the value read at its place, '
              'and returns the bindings; at the end of an environment it reads nothing')
    assumptions = ['readArgumentAndSource by contract; up to four declared arguments, shape enumerated']
    covers = ['parsed', 'end', 'none']

    def run(self, E):
        n = 0
        while n < 4 and E.choose('arg'):
            n += 1
        mod = E.choose('modifier') if n else False
        args = [plasTeX.Argument('*modifier*' if mod and i == 0 else 'a%d' % i, i, {'type': 't%d' % i, 'spec': '[]' if i % 2 else None}) for i in range(n)]
        log, posts, refs = [], [], []

        def read(o, **k):
            log.append(k)
            return ('value%d' % (len(log) - 1), 'source%d' % (len(log) - 1))
        tex = Obj(None, {}, {'readArgumentAndSource': read}, label='tex')
        cls = type('foo', (Macro,), {'args': 'x' if n else ''})
        end = E.choose('end')
        node_ = Obj(cls, {'macroMode': Macro.MODE_END if end else Macro.MODE_NONE, 'arguments': args, 'attributes': {}, 'argSource': '', 'nodeName': 'foo', 'counter': None}, {
            'preParse': lambda o, t: None, 'preArgument': lambda o, a, t: refs.append((a, len(log))), 'postArgument': lambda o, a, v, t: posts.append((a, v)),
            'postParse': lambda o, t: posts.append('post')}, label='macro')
        r = hooks.callm(node_, 'parse', tex)
        if end:
            E.cover('end')
            E.prove('end#reads-nothing', z3.BoolVal(not log and not posts))
            return
        E.prove('post-parse-last-and-once', z3.BoolVal(posts.count('post') == 1 and posts[-1] == 'post'))
        if not n:
            E.cover('none')
            E.prove('nothing-declared-nothing-read', z3.BoolVal(not log))
            return
        E.cover('parsed')
        E.prove('each-argument-once-in-order-with-its-options', z3.BoolVal(
            [(k['name'], k['type'], k['spec'], k['parentNode'] is node_) for k in log] == [(a.name, a.options['type'], a.options['spec'], True) for a in args]))
        att = node_.f['attributes']
        E.prove('bound-to-the-value-at-its-place', z3.BoolVal(dict(att) == {a.name: 'value%d' % i for i, a in enumerate(args)}))
        E.prove('returns-the-bindings', z3.BoolVal(r is att))
        E.prove('source-is-that-of-the-arguments', z3.BoolVal(node_.f['argSource'] == ''.join('source%d' % i for i in range(n))))
        E.prove('events-around-each-argument', z3.BoolVal(refs == [(a, i) for i, a in enumerate(args)] and posts[:-1] == [(a, 'value%d' % i) for i, a in enumerate(args)]))


def grouping(chars):
    return type('Grouping' + str(ord(chars[0])), (Grouping,), {'chars': chars, 'name': 'readGrouping %s' % chars})


CONTRACTS = [Spaces, Signs, Sequence, Character, Keyword, Keywords, Braced, Failing, Compose, Integer, Bind] + [grouping(c) for c in ('[]', '()', '<>', '{}')]
