"""A small TeX expansion engine written from the rules of The TeXbook (chapters 7, 20, 24): an independent
model of tokens, macros, conditionals, grouping and counters, run on the same source text as plasTeX.
It knows the control sequences the generators use, and nothing of plasTeX."""

ESC, BG, EG, MATH, ALIGN, EOL, PAR, SUP, SUB, IGN, SP, LET, OTH, ACT, COM, INV = range(16)
MAXSTEPS = 40000


class Undecided(Exception):
    """The program leaves the language the model knows."""


class Stop(Exception):
    pass


def catcodes():
    t = {}
    for i in range(256):
        t[chr(i)] = LET if chr(i).isalpha() and i < 128 else OTH
    t.update({'\\': ESC, '{': BG, '}': EG, '$': MATH, '&': ALIGN, '\n': EOL, '#': PAR, '^': SUP, '_': SUB, ' ': SP, '\t': SP,
              '~': ACT, '%': COM})
    return t


DEFAULTCATS = catcodes()


class Macro:
    def __init__(self, pattern, body, opt=None):
        self.pattern, self.body, self.opt = pattern, body, opt

    def __eq__(self, o):
        return isinstance(o, Macro) and (self.pattern, self.body, self.opt) == (o.pattern, o.body, o.opt)

    __hash__ = None


class CharDef(Macro):
    pass


class Prim:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Prim) and self.name == o.name

    __hash__ = None


class Switch:
    """\\iffoo made by \\newif"""
    def __init__(self):
        self.state = False


PRIMS = '''def gdef let begingroup endgroup relax newif csname endcsname expandafter if ifx ifnum ifdim ifodd ifcase
iftrue iffalse ifdefined else or fi newcommand renewcommand providecommand setcounter addtocounter stepcounter newcounter
arabic value catcode begin end number bgroup egroup global makeatletter makeatother the advance count \\
newenvironment renewenvironment textbf emph mbox long chardef verb probe item ( ) [ ]'''.split()
IFS = {'if', 'ifx', 'ifnum', 'ifdim', 'ifodd', 'ifcase', 'iftrue', 'iffalse', 'ifdefined'}


class Engine:
    def __init__(self, src, envs=(), global_newcommand=False):
        self.src, self.pos, self.state = src, 0, 'N'
        self.back = []                # pushed-back tokens, last first
        self.frames = [{}]
        self.cats = [catcodes()]
        self.kinds = ['bottom']
        self.base = {p: Prim(p) for p in PRIMS}
        self.counters = {}
        self.switches = []
        self.out = []
        self.conds = []
        self.steps = 0
        self.envs = set(envs)
        self.maxdepth = 0
        self.used = set()
        self.probes = []

    # ---- tokens
    def cat(self, c):
        return self.cats[-1].get(c, OTH)

    def get(self):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Undecided('too long')
        if self.back:
            return self.back.pop()
        s = self.src
        while True:
            if self.pos >= len(s):
                return None
            c = s[self.pos]
            k = self.cat(c)
            self.pos += 1
            if k == ESC:
                if self.pos >= len(s):
                    raise Undecided('escape at the end')
                e = self.pos
                if self.cat(s[e]) == LET:
                    while e < len(s) and self.cat(s[e]) == LET:
                        e += 1
                    name = s[self.pos:e]
                    self.state = 'S'
                else:
                    e += 1
                    name = s[self.pos:e]
                    self.state = 'S' if self.cat(name) == SP else 'M'
                self.pos = e
                return ('cs', name)
            if k == COM:
                while self.pos < len(s) and s[self.pos] != '\n':
                    self.pos += 1
                self.pos += 1
                self.state = 'N'
                continue
            if k == EOL:
                st, self.state = self.state, 'N'
                if st == 'M':
                    return (SP, ' ')
                if st == 'N':
                    return ('cs', 'par')
                continue
            if k == SP:
                if self.state != 'M':
                    continue
                self.state = 'S'
                return (SP, ' ')
            if k == IGN:
                continue
            self.state = 'M'
            return (k, c)

    def need(self):
        t = self.get()
        if t is None:
            raise Undecided('end of input')
        return t

    def push(self, toks):
        self.back.extend(reversed(toks))

    # ---- meanings
    def meaning(self, t):
        if t[0] != 'cs':
            if t[0] == ACT:
                raise Undecided('active')
            return t
        for f in reversed(self.frames):
            if t[1] in f:
                return f[t[1]]
        return self.base.get(t[1])

    def define(self, name, m, glob=False):
        if glob:
            for f in self.frames:
                f.pop(name, None)
            self.frames[0][name] = m
        else:
            self.frames[-1][name] = m

    def open(self, kind):
        self.frames.append({})
        self.cats.append(self.cats[-1])
        self.kinds.append(kind)
        self.maxdepth = max(self.maxdepth, len(self.kinds))

    def close(self, kind):
        if self.kinds[-1] != kind:
            raise Undecided('unbalanced groups')
        self.frames.pop()
        self.cats.pop()
        self.kinds.pop()

    # ---- expansion
    def expandable(self, t):
        m = self.meaning(t)
        if isinstance(m, (Macro, Switch)):
            return True
        return isinstance(m, Prim) and m.name in IFS | {'else', 'or', 'fi', 'csname', 'expandafter', 'arabic', 'number', 'the'}

    def next(self):
        """next unexpandable token"""
        while True:
            t = self.get()
            if t is None or not self.expandable(t):
                return t
            self.expand(t)

    def expand(self, t):
        m = self.meaning(t)
        if isinstance(m, Macro):
            self.used.add('macro')
            self.push(self.call(m))
        elif isinstance(m, Switch):
            self.used.add('switch')
            self.cond(m.state)
        elif m.name == 'csname':
            self.used.add('csname')
            name = ''
            while True:
                u = self.next()
                if u is None:
                    raise Undecided('end in csname')
                if u[0] == 'cs':
                    if self.meaning(u) == Prim('endcsname'):
                        break
                    raise Undecided('control sequence in csname')
                name += u[1]
            if self.meaning(('cs', name)) is None:
                raise Undecided('csname of an undefined name')
            self.push([('cs', name)])
        elif m.name == 'expandafter':
            self.used.add('expandafter')
            a, b = self.need(), self.need()
            if self.expandable(b):
                self.expand(b)
            else:
                self.push([b])
            self.push([a])
        elif m.name == 'arabic':
            self.push([(OTH, c) for c in str(self.counters[self.brace_name()])])
        elif m.name in ('number', 'the'):
            self.push([(OTH, c) for c in str(self.number())])
        else:
            self.conditional(m.name)

    def call(self, m):
        args = []
        p = m.pattern
        if m.opt is not None:
            t = self.skip_spaces()
            if t == (OTH, '['):
                a, depth = [], 0
                while True:
                    t = self.need()
                    if depth == 0 and t == (OTH, ']'):
                        break
                    depth += (t[0] == BG) - (t[0] == EG)
                    a.append(t)
                args.append(self.strip(a))
            else:
                if t is not None:
                    self.push([t])
                args.append(m.opt)
        i = 0
        while i < len(p):
            if p[i] == 'arg':
                delim = []
                while i + 1 < len(p) and p[i + 1] != 'arg':
                    i += 1
                    delim.append(p[i])
                if not delim:
                    t = self.skip_spaces()
                    if t is None:
                        raise Undecided('argument at the end')
                    if t[0] == BG:
                        args.append(self.balanced())
                    elif t[0] == EG:
                        raise Undecided('argument is a closing brace')
                    else:
                        if t == ('cs', 'par'):
                            raise Undecided('par')
                        args.append([t])
                else:
                    args.append(self.delimited(delim))
            else:
                if self.need() != p[i]:
                    raise Undecided('use does not match definition')
            i += 1
        for a in args:
            self.whole(a)
        out = []
        for t in m.body:
            if t[0] == 'param':
                out.extend(args[t[1] - 1])
            else:
                out.append(t)
        return out

    def whole(self, toks):
        """Conditionals do not straddle arguments."""
        d = 0
        for t in toks:
            m = self.meaning(t) if t[0] == 'cs' else None
            if isinstance(m, Switch) or isinstance(m, Prim) and m.name in IFS:
                d += 1
            elif isinstance(m, Prim) and m.name in ('else', 'or', 'fi'):
                if d == 0:
                    raise Undecided('conditional straddles an argument')
                d -= m.name == 'fi'
        if d:
            raise Undecided('conditional straddles an argument')

    def delimited(self, delim):
        if delim[-1][0] == BG:
            brace, delim = delim[-1], delim[:-1]
        else:
            brace = None
        want = delim + ([brace] if brace else [])
        a, depth = [], 0
        while True:
            t = self.need()
            if depth == 0:
                if t == want[-1] and (a[len(a) - len(want) + 1:] == want[:-1] if len(want) > 1 else True) and len(a) >= len(want) - 1:
                    if self.clean(a, len(want) - 1):
                        a = a[:len(a) - len(want) + 1]
                        break
            if t == ('cs', 'par'):
                raise Undecided('par')
            if t[0] == BG:
                depth += 1
            elif t[0] == EG:
                depth -= 1
                if depth < 0:
                    raise Undecided('closing brace in argument')
            a.append(t)
        if brace:
            self.push([brace])
        return self.strip(a)

    def clean(self, a, n):
        """the last n tokens are at depth 0"""
        return not any(t[0] in (BG, EG) for t in (a[len(a) - n:] if n else []))

    def strip(self, a):
        if len(a) >= 2 and a[0][0] == BG and a[-1][0] == EG:
            d = 0
            for i, t in enumerate(a):
                d += (t[0] == BG) - (t[0] == EG)
                if d == 0:
                    return a[1:-1] if i == len(a) - 1 else a
        return a

    def skip_spaces(self):
        t = self.get()
        while t is not None and t[0] == SP:
            t = self.get()
        return t

    def balanced(self):
        out, d = [], 1
        while True:
            t = self.need()
            if t[0] == BG:
                d += 1
            elif t[0] == EG:
                d -= 1
                if d == 0:
                    return out
            out.append(t)

    def body(self, toks):
        """replacement text: # pairs"""
        out, i = [], 0
        while i < len(toks):
            t = toks[i]
            if t[0] == PAR:
                i += 1
                if i >= len(toks):
                    raise Undecided('# at the end')
                u = toks[i]
                if u[0] == PAR:
                    out.append(u)
                elif u[1].isdigit() and u[1] != '0':
                    out.append(('param', int(u[1])))
                else:
                    raise Undecided('# followed by %r' % (u,))
            else:
                out.append(t)
            i += 1
        return out

    def brace_name(self):
        t = self.skip_spaces()
        if t is None or t[0] != BG:
            raise Undecided('name expected')
        return ''.join(x[1] for x in self.balanced())

    # ---- conditionals
    def conditional(self, n):
        if n in ('else', 'or', 'fi'):
            if not self.conds:
                raise Undecided('extra ' + n)
            if n == 'fi':
                self.conds.pop()
            else:
                self.skip(to_fi=True)
            return
        self.used.add(n)
        if n in ('iftrue', 'iffalse'):
            v = n == 'iftrue'
        elif n == 'ifnum':
            a = self.number()
            r = self.next_nonspace()
            b = self.number()
            v = self.rel(a, r, b)
        elif n == 'ifdim':
            a = self.dimen()
            r = self.next_nonspace()
            b = self.dimen()
            if a != b and abs(a - b) < 3:
                raise Undecided('lengths equal up to rounding')
            v = self.rel(a, r, b)
        elif n == 'ifodd':
            v = self.number() % 2 == 1
        elif n == 'ifcase':
            k = self.number()
            self.conds.append('case')
            self.case(k)
            return
        elif n == 'ifx':
            a, b = self.need(), self.need()
            v = self.same(a, b)
        elif n == 'if':
            a, b = self.next(), self.next()
            if a[0] == 'cs' or b[0] == 'cs':
                raise Undecided('if between control sequences')
            v = a[1] == b[1]
        elif n == 'ifdefined':
            t = self.need()
            v = self.meaning(t) is not None
        self.cond(v)

    def same(self, a, b):
        x, y = self.meaning(a), self.meaning(b)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return x == y
        if isinstance(x, Macro) and isinstance(y, Macro):
            for m in (x, y):
                if isinstance(m, CharDef) or m.pattern or m.opt is not None or any(t[0] not in (LET, OTH, SP) for t in m.body):
                    raise Undecided('ifx of a macro with other than plain text')
            return x == y
        raise Undecided('ifx between other things')

    def rel(self, a, r, b):
        if r == (OTH, '<'):
            return a < b
        if r == (OTH, '>'):
            return a > b
        if r == (OTH, '='):
            return a == b
        raise Undecided('relation %r' % (r,))

    def cond(self, v):
        self.conds.append('if')
        if not v:
            self.skip()

    def skip(self, to_fi=False):
        """skip to the \\else, \\fi of the innermost conditional"""
        d = 0
        while True:
            t = self.need()
            m = self.meaning(t) if t[0] == 'cs' else None
            if isinstance(m, Switch) or isinstance(m, Prim) and m.name in IFS:
                d += 1
            elif isinstance(m, Prim) and m.name == 'fi':
                if d == 0:
                    self.conds.pop()
                    return
                d -= 1
            elif isinstance(m, Prim) and m.name == 'else' and d == 0 and not to_fi:
                return

    def case(self, k):
        d = 0
        n = 0
        while n != k:
            t = self.need()
            m = self.meaning(t) if t[0] == 'cs' else None
            if isinstance(m, Switch) or isinstance(m, Prim) and m.name in IFS:
                d += 1
            elif isinstance(m, Prim) and m.name == 'fi':
                if d == 0:
                    self.conds.pop()
                    return
                d -= 1
            elif d == 0 and isinstance(m, Prim) and m.name == 'or':
                n += 1
            elif d == 0 and isinstance(m, Prim) and m.name == 'else':
                return

    # ---- quantities
    def next_nonspace(self):
        t = self.next()
        while t is not None and t[0] == SP:
            t = self.next()
        if t is None:
            raise Undecided('end of input')
        return t

    def signs(self):
        s = 1
        while True:
            t = self.next_nonspace()
            if t == (OTH, '-'):
                s = -s
            elif t != (OTH, '+'):
                return s, t

    def number(self):
        s, t = self.signs()
        if t[0] == 'cs':
            m = self.meaning(t)
            if m == Prim('value'):
                return s * self.counters[self.brace_name()]
            raise Undecided('number expected: %r' % (t,))
        if t == (OTH, '`'):
            u = self.need()
            v = ord(u[1])
            self.one_space()
            return s * v
        if t == (OTH, "'"):
            digits, base = '01234567', 8
        elif t == (OTH, '"'):
            digits, base = '0123456789ABCDEF', 16
        else:
            digits, base = '0123456789', 10
            self.push([t])
        v = ''
        while True:
            t = self.next()
            if t is not None and t[0] in ((OTH, LET) if base == 16 else (OTH,)) and t[1] in digits:
                v += t[1]
                continue
            if t is not None and t[0] != SP:
                self.push([t])
            break
        if not v:
            raise Undecided('missing number')
        return s * int(v, base)

    def one_space(self):
        t = self.next()
        if t is not None and t[0] != SP:
            self.push([t])

    def dimen(self):
        from fractions import Fraction
        s, t = self.signs()
        v = ''
        while t is not None and t[0] == OTH and t[1] in '0123456789.':
            v += t[1]
            t = self.next()
        while t is not None and t[0] == SP:
            t = self.next()
        u = self.next()
        if t is None or u is None or not v:
            raise Undecided('dimension')
        unit = {'pt': Fraction(1), 'in': Fraction(7227, 100), 'pc': Fraction(12), 'cm': Fraction(7227, 254), 'mm': Fraction(7227, 2540),
                'bp': Fraction(7227, 7200)}.get(t[1] + u[1])
        if unit is None:
            raise Undecided('unit %r' % ((t, u),))
        self.one_space()
        return s * Fraction(v if v[0] != '.' else '0' + v) * unit * 65536

    # ---- execution
    def run(self):
        try:
            while True:
                t = self.next()
                if t is None:
                    break
                self.execute(t)
        except (ValueError, IndexError, KeyError, TypeError) as e:
            raise Undecided('ill-formed program: %s' % e)
        if len(self.kinds) != 1 or self.conds:
            raise Undecided('unbalanced at the end')
        return ''.join(self.out)

    def execute(self, t):
        m = self.meaning(t)
        if isinstance(m, tuple):
            k, c = m
            if k == BG:
                self.open('{')
            elif k == EG:
                self.close('{')
            elif k in (LET, OTH):
                self.out.append(c)
            elif k == SP:
                pass
            elif k == MATH:
                if self.kinds[-1] == '$':
                    self.close('$')
                else:
                    t = self.get()
                    if t is not None:
                        if t[0] == MATH:
                            raise Undecided('display math')
                        if t[0] == 'cs' and t[1] in ('fi', 'else', 'or'):
                            raise Undecided('$ followed by ' + t[1])
                        self.push([t])
                    self.open('$')
            elif k == 'end' and c == 'arg' or k == 'end' and c.startswith('env '):
                self.close(c)
            elif k == ALIGN and self.kinds[-1] == 'cell':
                self.close('cell')
                self.open('cell')
            else:
                raise Undecided('character %r' % (m,))
            return
        if m is None:
            raise Undecided('undefined %r' % (t,))
        n = m.name
        glob = False
        if n == 'global':
            while True:
                t = self.skip_spaces()
                mm = self.meaning(t)
                n = getattr(mm, 'name', None) if isinstance(mm, Prim) else None
                if n == 'expandafter':
                    self.expand(t)
                elif n not in ('global', 'long', 'relax'):
                    break
            if n not in ('def', 'gdef', 'let', 'chardef'):
                raise Undecided('global')
            self.used.add('global')
            glob = True
        if n in ('def', 'gdef'):
            self.used.add(n)
            self.do_def(glob or n == 'gdef')
        elif n == 'long':
            pass
        elif n == 'chardef':
            self.used.add(n)
            name = self.need()
            if name[0] != 'cs':
                raise Undecided('chardef')
            t = self.skip_spaces()
            if t != (OTH, '='):
                self.push([t])
            c = chr(self.number())
            if not c.isalpha():
                raise Undecided('chardef')
            self.define(name[1], CharDef([], [(OTH, c)]), glob)
        elif n in ('newcommand', 'renewcommand', 'providecommand'):
            self.used.add(n)
            self.do_newcommand(n)
        elif n == 'let':
            self.used.add(n)
            name = self.need()
            t = self.skip_spaces()
            if t == (OTH, '='):
                t = self.need()
                if t[0] == SP:
                    t = self.need()
            mm = self.meaning(t)
            if isinstance(mm, tuple) and mm[0] not in (LET, OTH):
                raise Undecided('let to %r' % (mm,))
            if mm is None:
                raise Undecided('let to undefined')
            self.define(name[1], mm, glob)
        elif n == 'begingroup':
            self.open('bg')
        elif n == 'endgroup':
            self.close('bg')
        elif n == 'bgroup':
            self.open('{')
        elif n == 'egroup':
            self.close('{')
        elif n == 'begin':
            e = self.brace_name()
            if isinstance(self.meaning(('cs', e)), Macro):
                self.used.add('newenvironment')
                self.open('env ' + e)
                self.push([('cs', e)])
                return
            if e not in self.envs:
                raise Undecided('environment ' + e)
            self.open('env ' + e)
            if e == 'tabular':
                self.brace_name()
                self.open('cell')
        elif n == 'end':
            e = self.brace_name()
            if isinstance(self.meaning(('cs', e)), Macro):
                if self.kinds[-1] != 'env ' + e:
                    raise Undecided('unbalanced groups')
                self.push([('cs', 'end' + e), ('end', 'env ' + e)])
                return
            if e == 'tabular':
                self.close('cell')
            self.close('env ' + e)
        elif n == '\\':
            self.close('cell')
            self.open('cell')
        elif n in ('relax', 'protect'):
            pass
        elif n in ('textbf', 'emph', 'mbox'):
            self.used.add('textbf')
            if self.skip_spaces()[0] != BG:
                raise Undecided('argument')
            self.open('arg')
            self.push(self.balanced() + [('end', 'arg')])
        elif n == '(':
            self.open('(')
        elif n == ')':
            self.close('(')
        elif n == '[':
            self.open('[')
        elif n == ']':
            self.close('[')
        elif n == 'item':
            if self.kinds[-1] != 'env itemize':
                raise Undecided('item')
        elif n == 'verb':
            if self.back or self.conds:
                raise Undecided('verb in an argument')
            self.used.add('verb')
            e = self.src.index(self.src[self.pos], self.pos + 1)
            if any(self.cat(c) != DEFAULTCATS[c] for c in self.src[self.pos:e]):
                raise Undecided('verb with changed categories')
            self.out.append(self.src[self.pos + 1:e].replace(' ', ''))
            self.pos = e + 1
            self.state = 'M'
        elif n == 'probe':
            self.probes.append(self.snapshot())
        elif n in ('newenvironment', 'renewenvironment'):
            name = self.brace_name()
            if name in self.envs or (self.meaning(('cs', name)) is not None) != (n[0] == 'r'):
                raise Undecided('newenvironment')
            nargs, opt = self.nargs_opt()
            bodies = []
            for i in (0, 1):
                if self.skip_spaces()[0] != BG:
                    raise Undecided('body')
                bodies.append(self.body(self.balanced()))
            if any(t[0] == 'param' and t[1] > nargs for t in bodies[0]) or any(t[0] == 'param' for t in bodies[1]):
                raise Undecided('parameter number')
            self.define(name, Macro(['arg'] * (nargs - (opt is not None)), bodies[0], opt))
            self.define('end' + name, Macro([], bodies[1]))
        elif n == 'newif':
            name = self.need()[1]
            if name[:2] != 'if' or self.meaning(('cs', name)) is not None:
                raise Undecided('newif')
            s = Switch()
            self.define(name, s, True)
            self.define(name[2:] + 'true', Prim('set true ' + name), True)
            self.define(name[2:] + 'false', Prim('set false ' + name), True)
            self.switches.append(name)
        elif n.startswith('set '):
            # switches survive groups: one state per switch
            _, v, name = n.split()
            self.used.add('setter')
            self.frames[0][name].state = v == 'true'
        elif n == 'newcounter':
            self.counters[self.brace_name()] = 0
        elif n in ('setcounter', 'addtocounter'):
            self.used.add('counter')
            c = self.brace_name()
            if self.skip_spaces()[0] != BG:
                raise Undecided('value')
            toks = self.balanced()
            self.push(toks + [('cs', 'relax'), ('end', 'arg')])
            v = self.number()
            t = self.next()
            if t != ('cs', 'relax'):
                raise Undecided('junk after number')
            t = self.get()
            while t != ('end', 'arg'):
                t = self.need()
            self.counters[c] = v + (self.counters[c] if n == 'addtocounter' else 0)
        elif n == 'stepcounter':
            self.used.add('counter')
            self.counters[self.brace_name()] += 1
        elif n == 'catcode':
            self.used.add('catcode')
            c = chr(self.number())
            t = self.next_nonspace()
            if t != (OTH, '='):
                self.push([t])
            v = self.number()
            self.setcat(c, v)
        elif n == 'makeatletter':
            self.used.add('catcode')
            self.setcat('@', LET)
        elif n == 'makeatother':
            self.setcat('@', OTH)
        else:
            raise Undecided('cannot execute ' + n)

    def setcat(self, c, v):
        if self.conds:
            raise Undecided('category code changed inside a conditional')
        d = dict(self.cats[-1])
        d[c] = v
        self.cats[-1] = d

    def do_def(self, glob):
        name = self.need()
        if name[0] != 'cs':
            raise Undecided('def of a character')
        pattern, k, brace = [], 0, None
        while True:
            t = self.need()
            if t[0] == BG:
                break
            if t[0] == PAR:
                u = self.need()
                if u[0] == BG:
                    pattern.append(u)
                    brace = u
                    break
                k += 1
                if u != (OTH, str(k)):
                    raise Undecided('parameters out of order')
                pattern.append('arg')
            else:
                pattern.append(t)
        body = self.body(self.balanced())
        if any(t[0] == 'param' and t[1] > k for t in body):
            raise Undecided('parameter number')
        if brace:
            body.append(brace)
        self.define(name[1], Macro(pattern, body), glob)

    def nargs_opt(self):
        nargs, opt = 0, None
        t = self.skip_spaces()
        if t == (OTH, '['):
            nargs = int(self.need()[1])
            if self.need() != (OTH, ']'):
                raise Undecided('number of arguments')
            t = self.skip_spaces()
            if t == (OTH, '['):
                opt = []
                d = 0
                while True:
                    t = self.need()
                    if d == 0 and t == (OTH, ']'):
                        break
                    d += (t[0] == BG) - (t[0] == EG)
                    opt.append(t)
                t = self.skip_spaces()
        self.push([t])
        return nargs, opt

    def snapshot(self):
        """category codes and defined names"""
        return ({c: self.cat(c) for c in PROBE}, {n: self.meaning(('cs', n)) is not None for n in NAMES})

    def do_newcommand(self, n):
        t = self.skip_spaces()
        if t == (OTH, '*'):
            t = self.skip_spaces()
        if t[0] == BG:
            (t,) = self.balanced()
        name = t[1]
        nargs, opt = self.nargs_opt()
        t = self.skip_spaces()
        if t[0] != BG:
            body = [t]
        else:
            body = self.balanced()
        body = self.body(body)
        if any(t[0] == 'param' and t[1] > nargs for t in body):
            raise Undecided('parameter number')
        if n == 'newcommand' and self.meaning(('cs', name)) is not None:
            raise Undecided('newcommand of a defined name')
        if n == 'renewcommand' and self.meaning(('cs', name)) is None:
            raise Undecided('renewcommand of an undefined name')
        if isinstance(self.meaning(('cs', name)), CharDef):
            raise Undecided('renewcommand of a character constant')
        if n == 'providecommand' and self.meaning(('cs', name)) is not None:
            return
        self.define(name, Macro(['arg'] * (nargs - (opt is not None)), body, opt))


# ------------------------------------------------------------------ programs

def flat(x):
    return x if isinstance(x, str) else ''.join(flat(y) for y in x)


PROBE = '@!?/*+|a0 ~\\{}$&#^_%\n'
NAMES = ['ma', 'mb', 'mc', 'md', 'me', 'mf', 'mg', 'mh']


class Gen:
    """Random programs as nested lists of source pieces.  Bodies only call names of lower rank: no recursion."""

    def __init__(self, rng, conds=0, groups=1, defs=1, cats=0, lets=1, newifs=()):
        self.rng = rng
        self.w = {'conds': conds, 'groups': groups, 'defs': defs, 'cats': cats, 'lets': lets}
        self.sigs = [{}]
        self.newifs = list(newifs)
        self.params = []              # number of parameters of the enclosing bodies, outermost first
        self.texts = 0

    def sig(self, name):
        for s in reversed(self.sigs):
            if name in s:
                return s[name]
        return None

    def defined(self, below):
        return [n for n in NAMES[:below] if self.sig(n)]

    def word(self):
        r = self.rng
        return ''.join(r.choice('abcdexyzABK0123456789!?+*/') for _ in range(r.choice([1, 1, 2, 3])))

    def program(self, n):
        out = []
        for _ in range(n):
            out.append(self.item(len(NAMES), 0, 0, top=True))
        return out

    def item(self, rank, nparams, depth, top=False):
        r = self.rng
        w = [('text', 3), ('call', 4 if self.defined(rank) else 0)]
        if any(self.params):
            w.append(('param', 5))
        if depth < 4:
            w.append(('group', self.w['groups']))
            w.append(('cond', self.w['conds']))
        if depth < 3:
            w.append(('def', (4 if top else .3 if depth else 1) * self.w['defs'] if rank and len(self.params) < 2 else 0))
            w.append(('let', .8 * self.w['lets'] if self.defined(rank) else 0))
            w.append(('cat', self.w['cats']))
        if self.newifs and self.w['conds']:
            w.append(('setter', .8 * self.w['conds']))
            w.append(('counter', .8 * self.w['conds']))
        k = r.choices([a for a, _ in w], [b for _, b in w])[0]
        return getattr(self, 'g_' + k)(rank, nparams, depth)

    def items(self, rank, nparams, depth, n=None):
        r = self.rng
        return [self.item(rank, nparams, depth) for _ in range(n if n is not None else r.choice([1, 1, 2, 3]))]

    def g_text(self, rank, nparams, depth):
        return self.word() + self.rng.choice(['', '', '', ' '])

    def g_param(self, rank, nparams, depth):
        r = self.rng
        k = len(self.params) - 1
        if r.random() < .2:
            k = r.choice([i for i, n in enumerate(self.params) if n])
        while not self.params[k]:
            k -= 1
        return '#' * 2 ** k + str(r.randint(1, self.params[k]))

    def in_body(self, i, n, depth):
        self.params.append(n)
        self.sigs.append({})
        body = self.items(i, n or max(self.params), depth, 0 if self.rng.random() < .07 else None)
        self.sigs.pop()
        self.params.pop()
        return body

    def g_group(self, rank, nparams, depth):
        r = self.rng
        a, b = r.choice([('{', '}'), ('{', '}'), ('\\begingroup ', '\\endgroup '), ('\\bgroup ', '\\egroup ')] + getattr(self, 'more_groups', []))
        self.sigs.append({})
        body = self.items(rank, nparams, depth + 1, r.choice([0, 1, 2, 3]))
        self.sigs.pop()
        return [a, body, b]

    def pattern(self):
        """(pattern source, signature: list of delimiters after each parameter, leading text)"""
        r = self.rng
        n = r.choice([0, 1, 1, 2, 2, 3])
        if r.random() < .06:
            n = 9
        lead = r.choice(['', '', '', '', '/', 'Q', '(', '\\to '])
        delims = []
        for i in range(n):
            delims.append(r.choice(['', '', '', '', ',', '.', ';', ')', 'end', 'R', ' ', '::', '\\stop ', '\\x/', 'aab']))
        p = lead + ''.join('#%d%s' % (i + 1, d) for i, d in enumerate(delims))
        if n and not delims[-1] and r.random() < .08:
            p += '#'
            delims[-1] = '{'
        return p, (lead, delims)

    def g_def(self, rank, nparams, depth, name=None, names=None):
        r = self.rng
        i = r.randrange(min(rank, len(NAMES)))
        name = NAMES[i]
        if r.random() < .55:
            cmd = r.choice(['\\def', '\\def', '\\gdef', '\\global\\def'] if r.random() < .8 else ['\\long\\def', '\\global\\long\\def', '\\long\\gdef'])
            p, s = self.pattern()
            sig = ('def', s)
            body = self.in_body(i, len(s[1]), depth + 1)
            p = p.replace('#', '#' * 2 ** len(self.params))
            if r.random() < .15:
                head = [cmd[:-4] + '\\expandafter\\def' if cmd[-4:] == '\\def' and r.random() < .4 else '\\expandafter' + cmd if cmd[1:] in ('def', 'gdef') else cmd[:-4] + '\\expandafter\\def', '\\csname ', name, '\\endcsname ']
                if p[:1].isalpha() or not p:
                    pass
            else:
                head = [cmd, '\\', name]
                if p[:1].isalpha():
                    head.append(' ')
            out = head + [p, '{', body, '}']
            glob = 'g' in cmd.replace('long', '')
        else:
            n = r.choice([0, 1, 2, 3]) if r.random() < .95 else 9
            opt = None
            if n and r.random() < .5:
                opt = self.word() if r.random() < .9 else ['{', self.word(), ']}']
            body = self.in_body(i, n, depth + 1)
            cmd = '\\renewcommand' if self.sig(name) else '\\newcommand'
            if r.random() < .1:
                cmd = '\\providecommand'
            star = r.choice(['', '', '', '*'])
            nm = r.choice(['{\\%s}', '\\%s']) % name
            out = [cmd, star, nm, ('[%d]' % n) if n else '', ['[', opt, ']'] if opt is not None else '', '{', body, '}']
            sig = ('nc', n, opt is not None)
            glob = False
            if cmd == '\\providecommand' and self.sig(name):
                return out
        if glob and not self.params:
            for s in self.sigs:
                s.pop(name, None)
            self.sigs[0][name] = sig
        else:
            self.sigs[-1][name] = sig
        return out

    def g_let(self, rank, nparams, depth):
        r = self.rng
        src = r.choice(self.defined(rank))
        later = [n for n in NAMES[:rank] if n > src]
        if not later:
            return self.word()
        d = r.choice(later)
        cmd = '\\let\\'
        glob = not self.params and r.random() < .2

        def note(sig):
            if glob:
                for s in self.sigs:
                    s.pop(d, None)
            self.sigs[0 if glob else -1][d] = sig
        if glob:
            cmd = r.choice(['\\global\\let\\', '\\global\\let\\', '\\global\\long\\relax\\let\\'])
        if r.random() < .1:
            note(('nc', 0, False))
            return [cmd.replace('let', 'chardef'), d, r.choice(['=', ' ']), r.choice(['65', '`B', '"63']), '\\relax ']
        if r.random() < .25:
            note(('nc', 0, False))
            return [cmd, d, r.choice(['=', ' ', '= ']), r.choice('xyZ3+')]
        note(self.sig(src))
        return [cmd, d, r.choice(['=', '', ' ']), '\\', src, ' ']

    def arg(self, rank, nparams, depth, avoid=''):
        return self.items(rank, nparams, depth + 1, self.rng.choice([0, 1, 1, 1, 2]))

    def g_call(self, rank, nparams, depth):
        r = self.rng
        n = r.choice(self.defined(rank))
        s = self.sig(n)
        deep = depth >= 3
        def braced():
            if r.random() < .25:
                return [r.choice('abxyz3!?')]
            self.sigs.append({})
            x = ['{', self.word() if deep else self.arg(rank, nparams, depth), '}']
            self.sigs.pop()
            return x
        args = []
        if s[0] == 'nc':
            k = s[1]
            if s[2]:
                k -= 1
                if r.random() < .5:
                    args.append(['[', r.choice([self.word(), self.word(), ['{', self.word(), '}'], ['{', self.word(), ']}'], '']), ']'])
                elif not k:
                    args.append('\\relax ')
            args += [braced() for _ in range(k)]
        else:
            lead, delims = s[1]
            args.append(lead)
            for d in delims:
                if d == '':
                    args.append(braced())
                elif d == '{':
                    args.append([self.word(), '{', self.word(), '}'])
                else:
                    args.append([r.choice([self.word(), self.word(), '' if d != ' ' else self.word(), ['{', self.word(), '}'], [self.word(), '{', self.word(), '}'],
                                           [self.word(), d[:1] if not d.startswith('\\') else '', self.word()]]), d])
        first = flat(args)[:1]
        if r.random() < .12:
            head = ['\\csname ', n, '\\endcsname ' if True else '']
        elif r.random() < .1 and s[0] == 'nc' and not s[2] and s[1] == 1 and self.defined(rank):
            # \\expandafter reordering: expand the argument first
            m = r.choice(self.defined(rank))
            if self.sig(m) in (('nc', 0, False), ('def', ('', []))):
                return ['\\expandafter\\', n, '\\', m, ' ']
            head = ['\\', n]
        else:
            head = ['\\', n]
            if first.isalpha() or not first:
                head.append(' ')
        return [head, args]

    # ---- conditionals
    def number(self, nparams):
        r = self.rng
        k = r.random()
        v = r.choice([0, 1, 2, 3, 4, 5, 7, 10, 12, 23])
        if k < .5:
            s = r.choice(['', '', '', '-', '--', '+'])
            return [s, str(v), '\\relax ']
        if k < .7:
            return ['\\value{%s}' % r.choice(['ca', 'cb']), '\\relax ']
        if k < .9:
            return [r.choice(['\\numa', '\\numb', '\\numc']), '\\relax ']
        return [r.choice(["'%o" % v, '"%X' % v, '`a']), '\\relax ']

    def dim(self):
        r = self.rng
        return [r.choice(['1', '2', '2.5', '.5', '-1', '10', '28.4', '72', '0']), r.choice(['pt', 'cm', 'in', 'mm', 'bp', 'pc']), '\\relax ']

    def selfless(self, x):
        return x

    def g_cond(self, rank, nparams, depth):
        r = self.rng
        k = r.choice(['iftrue', 'iffalse', 'ifnum', 'ifnum', 'ifdim', 'ifodd', 'ifcase', 'ifcase', 'ifcase', 'ifx', 'ifdefined', 'switch', 'switch'])
        def branch():
            self.sigs.append({})
            x = self.items(rank, nparams, depth + 1, r.choice([0, 1, 1, 2]))
            self.sigs.pop()
            return x
        if k == 'switch' and not self.newifs:
            k = 'iftrue'
        if k == 'ifcase':
            n = r.choice([1, 2, 3, 4])
            out = ['\\ifcase', self.number(nparams)]
            if r.random() < .6:
                out = ['\\ifcase', str(r.randint(0, n)), '\\relax ']
            for i in range(n):
                out += ['\\or ' if i else '', branch()]
        elif k == 'ifnum':
            out = ['\\ifnum', self.number(nparams)[:-1] or '7', r.choice('<>='), self.number(nparams), branch()]
        elif k == 'ifdim':
            out = ['\\ifdim', self.dim()[:-1], r.choice('<>='), self.dim(), branch()]
        elif k == 'ifodd':
            out = ['\\ifodd', self.number(nparams), branch()]
        elif k == 'ifx':
            if r.random() < .5:
                out = ['\\ifx ', r.choice('ab12'), r.choice('ab12'), branch()]
            else:
                out = ['\\ifx', r.choice(['\\ta', '\\tb', '\\tc']), r.choice(['\\ta', '\\tb', '\\tc']), ' ', branch()]
        elif k == 'ifdefined':
            out = ['\\ifdefined', r.choice(['\\ta', '\\nosuch', '\\' + r.choice(NAMES), '\\' + r.choice(NAMES), '\\relax', '\\nothere']), ' ', branch()]
        elif k == 'switch':
            out = ['\\', r.choice(self.newifs), ' ', branch()]
        else:
            out = ['\\', k, ' ', branch()]
        if r.random() < .6:
            out += ['\\else ', branch()]
        return out + ['\\fi ']

    def g_setter(self, rank, nparams, depth):
        r = self.rng
        return ['\\', r.choice(self.newifs)[2:], r.choice(['true ', 'false '])]

    def g_counter(self, rank, nparams, depth):
        r = self.rng
        return r.choice(['\\stepcounter{ca}', '\\stepcounter{cb}', '\\addtocounter{ca}{2}', '\\setcounter{cb}{3}', '\\arabic{ca}', '\\arabic{cb}'])

    def g_cat(self, rank, nparams, depth):
        r = self.rng
        return r.choice(['\\makeatletter ', '\\makeatother ', '\\catcode`\\!=11\\relax ', '\\catcode`\\!=12\\relax ', '\\catcode`\\?=11 '])
