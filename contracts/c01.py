"""C01: contracts on the character reader, the push-back buffers, the N/M/S machine and the category lookup of plasTeX.Tokenizer
and plasTeX.Context, against a specification of TeX's lexical rules given as recursive functions over the remaining characters."""
import z3

import plasTeX.Tokenizer as T
from plasTeX.Tokenizer import Tokenizer, Token, EscapeSequence
from plasTeX.Context import Context
from dv import hooks
from dv.core import LoopSpec, OutOfReach, STOP, cur
from dv.sym import Sym, SInt, SBool, SStr, SList, Obj, Kind, Cell, KInt, int_e, Field
from dv.seq import SSeq
from contracts.cats import WhichCode, Catcode

LEVEL = 'proof'
I, B, S = z3.IntSort(), z3.BoolSort(), z3.SeqSort(z3.IntSort())
Cat = z3.Function('Cat', I, I)                  # category code of a character (whichCode, by its own contract)
DecC = z3.Function('DecChar', I, S, I)          # ^^ notation: character read, given a first character and what follows it ...
DecR = z3.Function('DecRest', I, S, S)          # ... and the characters left
WordT = z3.Function('WordText', S, S)           # letters at the start (^^ notation decoded) ...
WordR = z3.Function('WordRest', S, S)           # ... and the characters behind them
Line = z3.Function('AfterLine', S, S)           # what follows the first line end
TokC = z3.Function('TokCode', I, B, S, I)       # next token: category, text; -1 at the end
TokT = z3.Function('TokText', I, B, S, S)
TokS = z3.Function('TokState', I, B, S, I)      # state behind it
TokR = z3.Function('TokRest', I, B, S, S)       # characters behind it
SS, SM, SN = 1, 2, 4                            # skipping blanks, middle of line, new line (Tokenizer.STATE_*)
EMPTY = z3.Empty(S)


def unit(c):
    return z3.Unit(c)


def tail(r, k=1):
    return z3.SubSeq(r, z3.IntVal(k), z3.Length(r) - k)


def codes(text):
    e = EMPTY
    for c in text:
        e = z3.Concat(e, unit(z3.IntVal(ord(c))))
    return z3.simplify(e)


class Ch(Sym):
    """one character, as its code point"""
    def __init__(self, e):
        self.e = e

    def __hash__(self):
        raise OutOfReach('hash of a character')

    def __bool__(self):
        return True

    def dv_eq(self, o):
        if isinstance(o, Ch):
            return SBool(self.e == o.e)
        if isinstance(o, str):
            return len(o) == 1 and SBool(self.e == ord(o))
        if isinstance(o, SStr):
            return SBool(z3.StrFromCode(self.e) == o._e)
        return False

    __eq__ = dv_eq

    def __ne__(self, o):
        return hooks_not(self.dv_eq(o))

    def dv_ord(self):
        return SInt(self.e)

    def dv_len(self):
        return 1

    def dv_in(self, c):
        if isinstance(c, str):
            return SBool(z3.Or([self.e == ord(x) for x in c]) if c else z3.BoolVal(False))
        if isinstance(c, (tuple, list)):
            return any(bool(hooks.eq(self, x)) for x in c)
        raise OutOfReach('character in %s' % type(c).__name__)

    def dv_str(self):
        return SStr(z3.StrFromCode(self.e))

    def dv_bin(self, op, o, swapped):
        if op == '+' and isinstance(o, Ch):
            return Two(o.e, self.e) if swapped else Two(self.e, o.e)
        return NotImplemented

    def dv_int(self, base=None):
        return SInt(hexval(self.e))


def hooks_not(b):
    return (not b) if isinstance(b, bool) else SBool(z3.Not(b._e))


class Two(Sym):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def dv_int(self, base=None):
        if base != 16:
            raise OutOfReach('base %r' % base)
        cur().prove('hexadecimal-digits', z3.And(ishex(self.a), ishex(self.b)), 'callee-precondition')
        return SInt(16 * hexval(self.a) + hexval(self.b))


class _KCh(Kind):
    sort = I

    def wrap(self, e):
        cur().assume(z3.And(e >= 0, e <= 0x10ffff))
        return Ch(e)

    def unwrap(self, v):
        if isinstance(v, Ch):
            return v.e
        if isinstance(v, str) and len(v) == 1:
            return z3.IntVal(ord(v))
        if isinstance(v, SStr) and v._e.decl().kind() == z3.Z3_OP_STRING_FROM_CODE if hasattr(z3, 'Z3_OP_STRING_FROM_CODE') else False:
            return v._e.arg(0)
        raise OutOfReach('character expected, got %r' % (v,))


KCh = _KCh()


def ishex(e):
    return z3.Or(z3.And(e >= 48, e <= 57), z3.And(e >= 97, e <= 102))


def hexval(e):
    return z3.If(e <= 57, e - 48, e - 87)


def decode(t, r):
    """definition of the ^^ notation, one step"""
    a, b = r[1], r[2]
    n = z3.Length(r)
    sup = z3.And(Cat(t) == 7, n >= 2, r[0] == t, a >= 0, a < 128)
    two = z3.And(n >= 3, ishex(a), ishex(b))
    t1 = z3.If(two, 16 * hexval(a) + hexval(b), z3.If(a >= 64, a - 64, a + 64))
    r1 = z3.If(two, tail(r, 3), tail(r, 2))
    return z3.And(DecC(t, r) == z3.If(sup, DecC(t1, r1), t), DecR(t, r) == z3.If(sup, DecR(t1, r1), r),
                  z3.Length(DecR(t, r)) <= n, z3.Length(z3.If(sup, DecR(t1, r1), r)) <= n)


class Chars:
    name = 'Tokenizer.iterchars'
    proves = ('for every input, every push-back buffer and every category table: the next character is the first one of buffer + input, with '
              'all ^^ notation (one character, two hexadecimal digits, repeated, incomplete at the end) decoded, its category is that of the '
              'decoded character, and exactly the characters of that notation are consumed; an exhausted input ends the iteration; it terminates')
    assumptions = ['Context.whichCode by its own contract', 'io: read(1) yields the next character or the empty string (external)']
    covers = ['yielded', 'ended']

    @staticmethod
    def chr(E, x):
        return Ch(x._e)

    def run(self, E):
        tok, buf, src = tokenizer(E)

        def rem():
            return z3.Concat(buf.e, src.e)
        r0 = rem()
        E.assume(z3.Implies(z3.Length(r0) > 0, r0[0] >= 0))
        first, rest = r0[0], tail(r0)

        def num(c):
            return KCh.unwrap(c.token)

        def inv(c):
            t = num(c)
            code = c.code
            return [('same-character', DecC(t, rem()) == DecC(first, rest)), ('same-rest', DecR(t, rem()) == DecR(first, rest)),
                    ('category', int_e(code) == Cat(t)), ('shorter', z3.Length(rem()) <= z3.Length(rest)), ('nonempty', z3.Length(r0) > 0)]

        E.loops[('plasTeX.Tokenizer:Tokenizer.iterchars', 1)] = LoopSpec(
            inv, kinds={'token': KCh, 'code': KInt, 'num': KInt}, modifies=lambda c: [buf, src], kind='while',
            decreases=lambda c: z3.Length(rem()), head_hook=lambda c: E.assume(decode(num(c), rem())))
        gen = hooks.callm(tok, 'iterchars')
        try:
            code, char = next(gen)
        except StopIteration:
            E.cover('ended')
            E.prove('ends-only-at-the-end', z3.Length(r0) == 0)
            return
        E.assume(decode(KCh.unwrap(char), rem()))
        E.cover('yielded')
        E.prove('nonempty', z3.Length(r0) > 0)
        E.prove('decoded-character', KCh.unwrap(char) == DecC(first, rest))
        E.prove('its-category', int_e(code) == Cat(KCh.unwrap(char)))
        E.prove('rest', rem() == DecR(first, rest))



class Line_:
    name = 'Tokenizer.readline'
    proves = 'for every input and push-back buffer: exactly the characters up to and including the first line feed of buffer + input are dropped'
    assumptions = ['io: read(1) yields the next character or the empty string (external)']
    covers = ['read']

    def run(self, E):
        tok, buf, src = tokenizer(E)
        r0 = rem(buf, src)
        E.loops[('plasTeX.Tokenizer:Tokenizer.readline', 0)] = LoopSpec(
            lambda c: [('same-rest', Line(rem(buf, src)) == Line(r0))], kinds={'char': KCh}, modifies=lambda c: [buf, src], kind='while',
            decreases=lambda c: z3.Length(rem(buf, src)), head_hook=lambda c: E.assume(line_step(rem(buf, src))))
        hooks.callm(tok, 'readline')
        E.cover('read')
        E.assume(Line(EMPTY) == EMPTY)
        E.prove('drops-the-line', rem(buf, src) == Line(r0))


class Pushed:
    name = 'Tokenizer.pushChar / pushToken / pushTokens'
    proves = ('a pushed-back character is the next one read, in front of everything else; pushed-back tokens come out before anything else, '
              'the tokens of a list in their order, and do not change the state')
    covers = ['char', 'tokens']

    def run(self, E):
        tok, buf, src = tokenizer(E)
        if E.choose('char'):
            c = z3.Int('c')
            before = rem(buf, src)
            hooks.callm(tok, 'pushChar', Ch(c))
            E.cover('char')
            E.prove('next-character', rem(buf, src) == z3.Concat(unit(c), before))
            return
        a, b, c = T.Letter('a'), T.Other('b'), EscapeSequence('c')
        n = 0
        while n < 3 and E.choose('more'):
            n += 1
        toks = [a, b, c][:n]
        st = tok.f['state']
        hooks.callm(tok, 'pushTokens', SList([c, a]))
        hooks.callm(tok, 'pushTokens', SList(list(toks)))
        hooks.callm(tok, 'pushToken', b)
        hooks.callm(tok, 'pushToken', None)
        gen = hooks.callm(tok, '__iter__')
        got = [next(gen) for _ in range(n + 3)]
        E.cover('tokens')
        want = [b] + toks + [c, a]
        E.prove('in-order', z3.BoolVal(len(got) == len(want) and all(x is y for x, y in zip(got, want))))
        E.prove('state', z3.BoolVal(tok.f['state'] is st))
        E.prove('buffer-empty', z3.BoolVal(not tok.f['_tokBuffer'].items))
        E.prove('no-character-read', rem(buf, src) == tok.before)


def rem(buf, src):
    return z3.Concat(buf.e, src.e)


def tokenizer(E, **fields):
    buf = SSeq.fresh(KCh, 'buf')
    src = SSeq.fresh(KCh, 'src')

    def read(o, n=None):
        if n != 1:
            raise OutOfReach('read(%r)' % (n,))
        if E.branch(src.n() == 0):
            return ''
        return src.pop(0)
    ctx = Obj(None, {}, {'whichCode': lambda o, c: SInt(Cat(KCh.unwrap(c)))}, label='context')
    f = {'_charBuffer': buf, 'context': ctx, 'lineNumber': SInt(z3.Int('line')), 'state': SInt(z3.Int('state')), '_tokBuffer': SList([])}
    f.update(fields)
    tok = Obj(Tokenizer, f, {'read': read}, label='tokenizer')
    tok.__dict__['before'] = rem(buf, src)
    return tok, buf, src


def line_step(r):
    n = z3.Length(r)
    return z3.And(Line(r) == z3.If(n == 0, EMPTY, z3.If(r[0] == 10, tail(r), Line(tail(r)))), z3.Length(Line(r)) <= n)


class Tok(Sym):
    """a token made by the code: class and text"""
    def __init__(self, cls, text=''):
        self.cls, self.x = cls, text

    def __hash__(self):
        raise OutOfReach('hash of a token')

    def code(self):
        return self.cls.catcode

    def text(self):
        x = self.x
        if isinstance(x, Ch):
            return unit(x.e)
        if isinstance(x, Joined):
            return x.e
        if isinstance(x, str):
            return codes(x)
        return None

    def dv_eq(self, o):
        if isinstance(o, Tok):
            if self.cls.catcode != o.cls.catcode:
                return False
            a, b = self.text(), o.text()
            if a is None or b is None:
                if (a is None) != (b is None):
                    return False
                return SBool(self.x._e == o.x._e)
            return SBool(a == b)
        if o is None:
            return False
        if isinstance(o, Prev):
            return o.dv_eq(self)
        raise OutOfReach('token == %s' % type(o).__name__)


class Prev(Sym):
    """the token yielded before, as far as the machine may look at it"""
    def __init__(self, par):
        self.par = par

    def dv_eq(self, o):
        if isinstance(o, Tok) and o.cls is EscapeSequence and o.x == 'par':
            return SBool(self.par)
        raise OutOfReach('previous token compared')


class _KPrev(Kind):
    sort = B

    def wrap(self, e):
        return Prev(e)


class Joined(Sym):
    def __init__(self, e):
        self.e = e

    def dv_getitem(self, i):
        n = z3.Length(self.e)
        k = int_e(i)
        return Ch(self.e[z3.If(k < 0, k + n, k)])


class Word(SSeq):
    def make(self, e):
        return Word(self.kind, e)

    def dv_join(self, s):
        if s != '':
            raise OutOfReach('join')
        return Joined(self.e)


class _KWord(Kind):
    sort = S

    def wrap(self, e):
        return Word(KCh, e)


def par_of(prev):
    """was this the token \\par?"""
    if prev is None:
        return z3.BoolVal(False)
    if isinstance(prev, Prev):
        return prev.par
    if isinstance(prev, Tok):
        if prev.cls is not EscapeSequence or prev.text() is None:
            return z3.BoolVal(False)
        return prev.text() == codes('par')
    raise OutOfReach('previous token is %r' % (prev,))


def word_step(r):
    """definition of a control word"""
    c, q = DecC(r[0], tail(r)), DecR(r[0], tail(r))
    n = z3.Length(r)
    letter = z3.And(n > 0, Cat(c) == 11)
    return z3.And(WordT(r) == z3.If(letter, z3.Concat(unit(c), WordT(q)), EMPTY),
                  WordR(r) == z3.If(letter, WordR(q), z3.If(n > 0, z3.Concat(unit(c), q), EMPTY)),
                  z3.Length(q) < z3.If(n > 0, n, 1), z3.Length(WordR(r)) <= n, z3.Length(WordR(q)) <= z3.Length(q))


def token_step(st, pp, r):
    """TeX's lexical rules: the next token, in state st, when the last token was \\par (pp), of the characters r"""
    n = z3.Length(r)
    c, q = DecC(r[0], tail(r)), DecR(r[0], tail(r))
    k = Cat(c)
    c2, q2 = DecC(q[0], tail(q)), DecR(q[0], tail(q))
    k2 = Cat(c2)
    space = unit(z3.IntVal(32))
    eol = z3.If(c == 10, q, Line(q))            # the rest of the line is dropped

    def is_(code, text, state, rest):
        return (z3.IntVal(code) if isinstance(code, int) else code, text, z3.IntVal(state) if isinstance(state, int) else state, rest)

    def skip(state, rest):
        s = z3.IntVal(state) if isinstance(state, int) else state
        return (TokC(s, pp, rest), TokT(s, pp, rest), TokS(s, pp, rest), TokR(s, pp, rest))

    def cond(b, x, y):
        return tuple(z3.If(b, u, v) for u, v in zip(x, y))
    escape = cond(z3.Length(q) == 0, is_(0, EMPTY, SM, q),
                  cond(k2 == 11, is_(0, z3.Concat(unit(c2), WordT(q2)), SS, WordR(q2)),
                       cond(z3.And(k2 == 5, c2 == 10), is_(10, space, SN, q2),
                            is_(0, unit(c2), z3.If(k2 == 10, z3.IntVal(SS), z3.IntVal(SM)), q2))))
    line = cond(st == SS, skip(SN, eol), cond(st == SM, is_(10, space, SN, eol), cond(pp, skip(SN, eol), is_(0, codes('par'), SN, eol))))
    res = cond(n == 0, is_(-1, EMPTY, st, r),
               cond(k == 0, escape,
                    cond(k == 5, line,
                         cond(k == 10, cond(st == SM, is_(10, space, SS, q), skip(st, q)),
                              cond(z3.Or(k == 9, k == 15), skip(st, q),
                                   cond(k == 14, skip(SN, Line(q)),
                                        is_(k, unit(c), SM, q)))))))
    fs = (TokC, TokT, TokS, TokR)
    return z3.And([f(st, pp, r) == v for f, v in zip(fs, res)] +
                  [z3.Length(Line(q)) <= z3.Length(q), z3.Length(q) < z3.If(n > 0, n, 1), z3.Length(q2) < z3.If(z3.Length(q) > 0, z3.Length(q), 1),
                   z3.Length(WordR(q2)) <= z3.Length(q2)])


class Machine:
    name = 'Tokenizer.__iter__'
    proves = ('for every input, every category table, every state N/M/S and previous token: the next token has the category and text, leaves the '
              'state and the characters, that TeX\'s lexical rules prescribe (control words and symbols with the blanks behind them, collapsed '
              'blanks, line ends, blank lines, comments, active, ignored and invalid characters), and the iteration ends only at the end of '
              'the input; it terminates')
    assumptions = ['Tokenizer.iterchars, readline and pushChar by their own contracts, Context.whichCode by its own contract',
                   'category codes do not change while one token is read',
                   'TeX\'s end-of-line character is a space token behind a lone escape character, and no second paragraph token follows one directly '
                   '(plasTeX\'s reading of the property)']
    covers = ['token', 'ended', 'code 0', 'code 1', 'code 7', 'code 10', 'code 11', 'code 12', 'active', 'again']
    engine = {'quick_ms': 250}

    @staticmethod
    def new_list(E, items):
        if len(items) == 1 and isinstance(items[0], Ch):
            return Word(KCh, unit(items[0].e))
        if not items:
            return None
        return None

    def run(self, E):
        chars = Input(E)
        st0 = z3.Int('state0')
        E.assume(z3.Or(st0 == SS, st0 == SM, st0 == SN))
        st, pp, r = Cell(st0, 'state'), Cell(False, 'par'), Cell(chars.r, 'rest')        # where the token being read starts
        tok = Obj(Tokenizer, {'_tokBuffer': SList([]), 'lineNumber': SInt(z3.Int('line')), 'state': SInt(st0),
                              'context': Obj(None, {}, {}, label='context')},
                  {'iterchars': lambda o: chars, 'readline': lambda o: chars.readline(), 'pushChar': lambda o, c: chars.push(c)}, label='tokenizer')
        for k in list(Tokenizer.tokenClasses) + [T.Space, EscapeSequence]:
            if k is not None:
                E.classes[k] = (lambda *a, k=k: Tok(k, *a))
        fs = (('code', TokC), ('text', TokT), ('state', TokS), ('rest', TokR))

        def inv(c):
            s = int_e(tok.f['state'])
            return [(n, f(s, par_of(c.prev), chars.r) == f(st.e, pp.e, r.e)) for n, f in fs] + \
                   [('a-state', z3.Or(s == SS, s == SM, s == SN)), ('shorter', z3.Length(chars.r) <= z3.Length(r.e))]
        key = 'plasTeX.Tokenizer:Tokenizer.__iter__'
        E.loops[(key, 0)] = LoopSpec(
            inv, kinds={'prev': _KPrev()}, modifies=lambda c: [chars, Field(tok, 'state', KInt), Field(tok, 'lineNumber', KInt), st, pp, r], kind='while',
            decreases=lambda c: z3.Length(chars.r),
            head_hook=lambda c: E.assume(token_step(int_e(tok.f['state']), par_of(c.prev), chars.r)))

        def winv(c):
            w = c.word
            if not isinstance(w, Word):
                raise OutOfReach('word is not a list')
            w0, r0 = c.entry.word, c.entry.it.r if hasattr(c.entry, 'it') and c.entry.it is not None else None
            return [('letters', z3.Concat(w.e, WordT(chars.r)) == z3.Concat(w0.e, WordT(r0))), ('rest', WordR(chars.r) == WordR(r0)),
                    ('shorter', z3.Length(chars.r) <= z3.Length(r0))]
        E.loops[(key, 3)] = LoopSpec(winv, kinds={'next_code_': KInt, 'next_char_': KCh}, modifies=lambda c: [chars, c.word], kind='for',
                                     decreases=lambda c: z3.Length(chars.r), head_hook=lambda c: E.assume(word_step(chars.r)))
        gen = hooks.callm(tok, '__iter__')
        try:
            t = next(gen)
        except StopIteration:
            E.cover('ended')
            E.prove('ends-only-at-the-end', TokC(st.e, pp.e, r.e) == -1)
            E.prove('everything-read', z3.Length(chars.r) == 0)
            return
        E.cover('token')
        if not isinstance(t, Tok):
            raise OutOfReach('token is %r' % (t,))
        code = TokC(st.e, pp.e, r.e)
        text = t.text()
        if text is None:
            E.cover('active')
            E.prove('active-character', z3.And(code == 13, t.cls.catcode == 0,
                                               t.x._e == z3.Concat(z3.StringVal('active::'), z3.StrFromCode(TokT(st.e, pp.e, r.e)[0]))))
        else:
            E.cover('code %d' % t.cls.catcode)
            E.prove('category', code == t.cls.catcode)
            E.prove('text', TokT(st.e, pp.e, r.e) == text)
        E.prove('state', int_e(tok.f['state']) == TokS(st.e, pp.e, r.e))
        E.prove('rest', chars.r == TokR(st.e, pp.e, r.e))
        E.cover('again')
        # from here on the next token is read
        st.set(int_e(tok.f['state']))
        pp.set(par_of(t))
        r.set(chars.r)
        next(gen)
        E.prove('goes-on-at-the-loop', z3.BoolVal(False))


class Input(Sym):
    """iterchars by contract: the characters not yet read"""
    symbolic = True

    def __init__(self, E):
        self.r = E.fresh('chars', S)
        self.serial = E.next_serial()

    def dv_iter(self):
        return self

    def dv_havoc(self):
        self.r = cur().fresh('chars', S)
        cur().touch(self)

    def dv_snapshot(self):
        s = Input.__new__(Input)
        s.r, s.serial = self.r, self.serial
        return s

    def dv_next(self):
        E = cur()
        if E.branch(z3.Length(self.r) == 0):
            return STOP
        c, q = DecC(self.r[0], tail(self.r)), DecR(self.r[0], tail(self.r))
        E.assume(z3.Length(q) < z3.Length(self.r))
        k = 0
        while k < 15 and not E.branch(Cat(c) == k):
            k += 1
        if k == 15:
            E.assume(Cat(c) == 15)
        self.r = q
        E.touch(self)
        return (k, Ch(c))

    def push(self, c):
        self.r = z3.Concat(unit(KCh.unwrap(c)), self.r)
        cur().touch(self)

    def readline(self):
        cur().assume(z3.Length(Line(self.r)) <= z3.Length(self.r))
        self.r = Line(self.r)
        cur().touch(self)


class Classes:
    name = 'token classes'
    proves = 'the class made for a character of a category has that category, and every category that makes a character token has a class'
    covers = ['classes']

    def run(self, E):
        tc = Tokenizer.tokenClasses
        E.cover('classes')
        for k in range(16):
            if k in (1, 2, 3, 4, 6, 7, 8, 11, 12):
                E.prove('class-of-category-%d' % k, z3.BoolVal(isinstance(tc[k], type) and issubclass(tc[k], Token) and tc[k].catcode == k))
        E.prove('space', z3.BoolVal(T.Space.catcode == 10))
        E.prove('escape', z3.BoolVal(EscapeSequence.catcode == 0))
        E.prove('codes', z3.BoolVal([Token.CC_ESCAPE, Token.CC_BGROUP, Token.CC_EGROUP, Token.CC_MATHSHIFT, Token.CC_ALIGNMENT, Token.CC_EOL, Token.CC_PARAMETER,
                                     Token.CC_SUPER, Token.CC_SUB, Token.CC_IGNORED, Token.CC_SPACE, Token.CC_LETTER, Token.CC_OTHER, Token.CC_ACTIVE,
                                     Token.CC_COMMENT, Token.CC_INVALID] == list(range(16))))


CONTRACTS = [Chars, Line_, Pushed, Machine, Classes, WhichCode, Catcode]
