"""C02 proof layer: parameter substitution (expandDef) against TeX's replacement rule for bodies of any length;
argument collection of \\newcommand macros; \\def patterns; delimited arguments; \\csname, \\expandafter, \\let and
the definition commands against the meaning they must store."""
import z3

import plasTeX
from plasTeX import Macro, NewCommand, Definition, BeginGroup, EndGroup
from plasTeX.Context import Context
from plasTeX.Base.TeX import Primitives as P
from plasTeX.Tokenizer import Token, Other, Letter, Space, Parameter, EscapeSequence
from dv import hooks
from dv.core import LoopSpec, OutOfReach, to_z3bool, STOP, cur
from dv.sym import SInt, SBool, SStr, SList, Obj, KInt, KStr, KBool, int_e, str_e
from dv.seq import SSeq, seqs
from dv.tokens import TokRef, KT, Stream, text, value, macroname, catcode, empty, SeqT

LEVEL = 'other'
I, B = z3.IntSort(), z3.BoolSort()
S = z3.StringVal
PAR, BG, EG = Token.CC_PARAMETER, Token.CC_BGROUP, Token.CC_EGROUP


class Expand:
    name = 'expandDef'
    proves = ('for every definition body, of any length, and every argument list: the result is the body with #n replaced by '
              'the tokens of argument n, ## by one #, every other token unchanged and in order')
    assumptions = ['in the body every # is followed by # or the digit of an existing parameter (checked at definition time by TeX)',
                   'the token before a parameter is not \\ifx (plasTeX groups the argument there; bounded check)']
    covers = ['expanded', 'empty-body']
    new_list = staticmethod(seqs(KT))

    def run(self, E):
        d = SSeq.fresh(KT, 'body')
        n = d.n()
        np = z3.Int('nparams')
        Arg = z3.Function('Arg', I, SeqT)
        X = z3.Function('Expanded', I, SeqT)
        Bd = z3.Function('Boundary', I, B)
        E.assume(z3.And(np >= 0, np <= 9))

        def t(i):
            return d.e[i]

        def param(o, k):
            E.prove('parameter-number-in-range', z3.And(int_e(k) >= 1, int_e(k) <= np), 'callee-precondition')
            return SSeq(KT, Arg(int_e(k)))
        params = Obj(None, {}, {'__len__': lambda o: SInt(np + 1), '__getitem__': param}, label='params')

        def step(i):
            par = catcode(t(i)) == PAR
            par2 = catcode(t(i + 1)) == PAR
            return z3.Implies(z3.And(Bd(i), i < n), z3.And(
                text(t(i)) != S('ifx'), text(t(i + 1)) != S('ifx'),
                z3.Implies(z3.Not(par), z3.And(Bd(i + 1), X(i + 1) == z3.Concat(X(i), z3.Unit(t(i))))),
                z3.Implies(par, z3.And(i + 1 < n, Bd(i + 2))),
                z3.Implies(z3.And(par, par2), X(i + 2) == z3.Concat(X(i), z3.Unit(t(i + 1)))),
                z3.Implies(z3.And(par, z3.Not(par2)), z3.And(value(t(i + 1)) >= 1, value(t(i + 1)) <= np,
                                                             X(i + 2) == z3.Concat(X(i), Arg(value(t(i + 1))))))))
        z = z3.IntVal(0)
        E.assume(z3.And(Bd(z), X(z) == empty()))

        def out(c):
            o = c.output
            if not isinstance(o, SSeq):
                raise OutOfReach('output is not a list')
            return o

        def prev(c):
            p = c._loc.get('previous', '')
            return z3.BoolVal(p != 'ifx') if isinstance(p, str) else text(p._e) != S('ifx')

        def inv(c):
            return [('at-a-token', Bd(c.it.pos)), ('expanded-so-far', out(c).e == X(c.it.pos)), ('not-after-ifx', prev(c))]
        E.loops[('plasTeX:expandDef', 0)] = LoopSpec(inv, kinds={'previous': KT, 't': KT}, modifies=lambda c: [out(c)],
                                                     head_hook=lambda c: E.assume(step(c.it.pos)), kind='for')
        r = hooks.call(plasTeX.expandDef, d, params)
        e = r.e if isinstance(r, SSeq) else SSeq(KT).seq_of(r)
        E.cover('expanded')
        E.prove('expansion', e == X(n))
        if E.choose('no body'):
            E.cover('empty-body')
            for nothing in (None, SList([])):
                r = hooks.call(plasTeX.expandDef, nothing, SList([None]))
                E.prove('empty-body', z3.BoolVal(isinstance(r, SSeq) or not r.items))


def reader(E, log, grouped=False):
    """tex.readArgument by contract: the k-th call yields the k-th argument read from the input."""
    def read(o, spec=None, *a, **k):
        v = SList([Letter('arg%d' % len(log))])
        log.append((spec, dict(k)))
        if spec == '[]' and grouped:
            return SList([BeginGroup('{'), v.items[0], EndGroup('}')])
        return v
    return Obj(None, {}, {'readArgument': read}, label='tex')


class Collect:
    name = 'NewCommand.invoke'
    proves = ('a \\newcommand macro with n arguments (0-9, with or without an optional first one) reads its optional argument (in [ ], '
              'with the default of the definition) first and then n-1 or n mandatory ones, and expands its body with #k = the k-th; as an '
              'environment it opens a group in front of that, and its end runs the end code and closes the group')
    assumptions = ['TeX.readArgument by contract (property C05), expandDef by its own contract']
    covers = ['macro', 'begin', 'end']

    def run(self, E):
        n = 0
        while n < 9 and E.choose('nargs'):
            n += 1
        opt = E.choose('optional') if n else False
        mode = 0
        while mode < 2 and E.choose('mode'):
            mode += 1
        log, calls = [], []
        body, default = SList([Letter('x')]), SList([Letter('d')])

        def exp(d, params):
            calls.append((d, params))
            return SList(['EXPANSION'])
        E.contracts['plasTeX:expandDef'] = exp
        modes = [Macro.MODE_NONE, Macro.MODE_BEGIN, Macro.MODE_END]
        ended = []
        none = E.choose('end-returns-nothing') if mode == 2 else False

        def create(o, name):
            ended.append(name)
            return Obj(None, {}, {'invoke': lambda o, t: None if none else SList(['END'])}, label='end')
        doc = Obj(None, {}, {'createElement': create}, label='document')
        cls = type('foo', (NewCommand,), {'nargs': n, 'opt': default if opt else None, 'definition': body})
        node = Obj(cls, {'macroMode': modes[mode], 'ownerDocument': doc, 'parentNode': None}, {}, label='macro')
        r = hooks.callm(node, 'invoke', reader(E, log, opt and E.choose('grouped')))
        items = r.items if isinstance(r, SList) else list(r)
        if mode == 2:
            E.cover('end')
            E.prove('end#runs-the-end-code', z3.BoolVal(ended == ['endfoo'] and not log and not calls))
            if not none:
                E.prove('end#closes-the-group-after-it', z3.BoolVal(len(items) == 2 and items[0] == 'END' and type(items[1]) is EndGroup))
            return
        E.cover('begin' if mode else 'macro')
        E.prove('reads-n-arguments', z3.BoolVal(len(log) == n))
        if opt:
            spec, k = log[0]
            E.prove('optional-argument-first', z3.BoolVal(spec == '[]' and k.get('default') is default))
        for spec, k in log[1 if opt else 0:]:
            E.prove('mandatory-arguments', z3.BoolVal(spec is None and k.get('type') is None and k.get('default') is None and not k.get('expanded')))
        E.prove('expands-its-body-once', z3.BoolVal(len(calls) == 1 and calls[0][0] is body))
        p = calls[0][1]
        p = p.items if isinstance(p, SList) else list(p)
        E.prove('argument-k-is-the-k-th-read', z3.BoolVal([''.join(x.items) for x in p[1:]] == ['arg%d' % i for i in range(n)]))
        if mode:
            E.prove('begin#opens-a-group-first', z3.BoolVal(len(items) == 2 and type(items[0]) is BeginGroup and items[1] == 'EXPANSION'))
        else:
            E.prove('result-is-the-expansion', z3.BoolVal(items == ['EXPANSION']))


RD = 'plasTeX:Definition.readDelimited'


class Delimited:
    """Delimiters of one to three tokens, symbolic tokens, input of any length."""
    engine = {'quick_ms': 150}
    brace, m = False, 1
    proves = ('a parameter delimited by one to three tokens takes the tokens up to the first occurrence of that delimiter outside braces, '
              'and reading stops right behind it, for every input; an argument that is one brace group loses its braces')
    assumptions = ['delimiters do not contain braces (TeX: only the #{ case ends at a brace, checked separately)',
                   'the delimiter occurs and braces balance before it (otherwise TeX reports a runaway argument)']
    covers = ['read']
    new_list = staticmethod(lambda E, items: SList([], kind=KT).to_sym() if not items else None)

    def run(self, E):
        s = Stream(E)
        T = s.T
        brace, m = self.brace, self.m
        dl = [TokRef(z3.Const('d%d' % i, KT.sort)) for i in range(m)]
        for x in dl:
            E.assume(z3.And(catcode(x._e) != BG, catcode(x._e) != EG))
        delim = SList(dl)
        D = z3.Function('Depth', I, I)          # depth in front of token i
        L = z3.Function('LastBraced', I, I)     # position behind the last token inside braces
        z = z3.IntVal(0)

        def step(i):
            t = T(i)
            return z3.Implies(i < s.N, z3.And(
                D(i + 1) == z3.If(catcode(t) == BG, D(i) + 1, z3.If(catcode(t) == EG, D(i) - 1, D(i))), D(i + 1) >= 0,
                L(i + 1) == z3.If(z3.Or(D(i + 1) > 0, catcode(t) == EG), i + 1, L(i))))

        def match(e):
            """the delimiter ends in front of position e and lies outside braces"""
            here = z3.And([e >= m, e - m >= L(e)] + [T(e - m + k) == dl[k]._e for k in range(m)])
            return z3.And(here, e < s.N, catcode(T(e)) == BG, D(e) == 0) if brace else here
        E.assume(z3.And(D(z) == 0, L(z) == 0))
        j = z3.Int('j')

        def par(c):
            if not isinstance(c.param, SList):
                raise OutOfReach('param is not a list')
            return c.param

        def same(l, n):
            return z3.And(l.n() == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), l.at(j) == T(j))))

        def inv(c):
            p = s.pos
            upto = (j < p) if brace else (j <= p)
            return [('all-tokens-so-far', same(par(c), p)), ('depth', z3.And(int_e(c.depth) == D(p), D(p) >= 0)),
                    ('start', z3.And(int_e(c.start) == L(p), L(p) >= 0, L(p) <= p)),
                    ('no-delimiter-yet', z3.ForAll([j], z3.Implies(z3.And(0 <= j, upto), z3.Not(match(j)))))]

        def head(c):
            E.q = s.pos
            E.assume(step(s.pos))
            E.assume(s.pos < s.N)       # the delimiter occurs
        E.loops[(RD, 0)] = LoopSpec(inv, kinds={'t': KT, 'depth': KInt, 'start': KInt, 'complete': KBool},
                                    modifies=lambda c: [par(c), s], head_hook=head, kind='for')

        def inv2(c):
            p = c.it.pos
            return [('depth', int_e(c.depth) == D(p)),
                    ('never-closed', z3.ForAll([j], z3.Implies(z3.And(0 < j, j <= p), D(j) > 0)))]
        E.loops[('plasTeX:ungroup', 0)] = E.loops[(RD, 1)] = LoopSpec(inv2, kinds={'t': KT, 'depth': KInt}, modifies=lambda c: [], kind='for',
                                    head_hook=lambda c: E.assume(z3.Implies(c.it.pos < E.q, step(c.it.pos))))
        tex = Obj(None, {}, {'itertokens': lambda o: s.iter(), 'pushToken': lambda o, t: s.unread(t)}, label='tex')
        r = hooks.call(Definition.readDelimited, tex, delim, brace)
        p = s.pos
        E.cover('read')
        n = p - m
        E.prove('stops-behind-the-delimiter', match(p))
        E.prove('at-its-first-occurrence', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), z3.Not(match(j)))))
        one = z3.And(n >= 2, catcode(T(0)) == BG, catcode(T(n - 1)) == EG, z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < n), D(j) > 0)))
        off = z3.If(one, 1, 0)
        E.prove('argument-length', r.n() == z3.If(one, n - 2, n))
        E.prove('argument-tokens', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < z3.If(one, n - 2, n)), r.at(j) == T(j + off))))


class Patterns:
    name = 'Definition.invoke'
    proves = ('for every parameter text of up to three parameters (leading tokens, undelimited parameters, delimiters of one or two tokens, #{ at '
              'the end): the leading tokens are consumed, each parameter is read in order with its own delimiter, and the body is expanded with them')
    assumptions = ['readDelimited and expandDef by their own contracts, TeX.readArgument by contract (property C05)']
    covers = ['invoked']

    def run(self, E):
        prefix = [[], [Other('/')], [Letter('t'), Letter('o')]][0 if E.choose('p0') else 1 if E.choose('p1') else 2]
        n = 0
        delims = []
        while n < 3 and E.choose('another'):
            n += 1
            delims.append([] if E.choose('undelimited') else [Other(',')] if E.choose('one') else [EscapeSequence('stop'), Other('.')])
        brace = E.choose('brace') if n else False
        args = list(prefix)
        for i, d in enumerate(delims):
            args += [Parameter('#'), Other(str(i + 1))] + d
        if brace:
            args.append(Parameter('#'))
        body = SList([Letter('x')])
        log, calls = [], []
        inp = list(prefix) + [Letter('Z')]
        pos = [0]

        class It:
            symbolic = False

            def dv_iter(self):
                return self

            def dv_next(self):
                if pos[0] >= len(inp):
                    return STOP
                pos[0] += 1
                return inp[pos[0] - 1]

        def arg(o, spec=None, *a, **k):
            log.append(('arg', None, False) if spec is None else ('spec',))
            return ('value', len(log) - 1)

        def delimited(*a):
            a = [x for x in a if not isinstance(x, Obj)]
            d = a[0].items if isinstance(a[0], SList) else list(a[0])
            log.append(('delimited', [str(x) for x in d], bool(a[1]) if len(a) > 1 else False))
            return ('value', len(log) - 1)
        E.contracts['plasTeX:Definition.readDelimited'] = delimited

        def exp(d, params):
            calls.append((d, params))
            return SList(['EXPANSION'])
        E.contracts['plasTeX:expandDef'] = exp
        tex = Obj(None, {}, {'itertokens': lambda o: It(), 'readArgument': arg}, label='tex')
        cls = type('foo', (Definition,), {'args': SList(args), 'definition': body})
        r = hooks.callm(Obj(cls, {'parentNode': None}, {}, label='macro'), 'invoke', tex)
        E.cover('invoked')
        E.prove('leading-tokens-consumed', z3.BoolVal(pos[0] == len(prefix)))
        want = []
        for i, d in enumerate(delims):
            b = brace and i == n - 1
            want.append(('delimited', [str(x) for x in d], b) if d or b else ('arg', None, False))
        E.prove('each-parameter-with-its-delimiter', z3.BoolVal(log == want))
        E.prove('expands-its-body-once', z3.BoolVal(len(calls) == 1 and calls[0][0] is body))
        p = calls[0][1]
        p = p.items if isinstance(p, SList) else list(p)
        E.prove('argument-k-is-the-k-th-read', z3.BoolVal(p[1:] == [('value', i) for i in range(n)]))
        E.prove('result-is-the-expansion', z3.BoolVal((r.items if isinstance(r, SList) else r) == ['EXPANSION']))


class Commands:
    name = 'definition commands'
    proves = ('\\def, \\gdef, \\edef, \\xdef define exactly the name, parameter text and body they read, local or global as in TeX; inside another '
              'definition one # of every doubled one is dropped; \\let gives the name the meaning of the other; \\csname makes the control '
              'sequence of the characters up to \\endcsname; \\expandafter keeps the first token in front of the expansion of the second')
    assumptions = ['Macro.parse by contract (property C05); Context.newdef, let by their own contracts']
    covers = ['def', 'nested', 'let', 'csname', 'expandafter']

    def run(self, E):
        made = []
        ctx = Obj(None, {}, {'newdef': lambda o, n, a=None, d=None, local=True: made.append((n, a, d, local)),
                             'let': lambda o, a, b: made.append((a, b))}, label='context')
        doc = Obj(None, {'context': ctx}, label='document')

        def node(cls, attrs):
            o = Obj(cls, {'attributes': attrs, 'ownerDocument': doc, 'parentNode': None}, {'parse': lambda o, t: attrs}, label=cls.__name__)
            return o

        def texts(x):
            return [str(t) for t in (x.items if isinstance(x, SList) else x)]
        f = 'def' if E.choose('def') else 'nested' if E.choose('nested') else 'let' if E.choose('let') else 'csname' if E.choose('csname') else 'expandafter'
        E.cover(f)
        tex0 = Obj(None, {}, {}, label='tex')
        if f in ('def', 'nested'):
            cls = P.def_ if E.choose('d') else P.gdef if E.choose('g') else P.edef if E.choose('e') else P.xdef
            h = ['#'] if f == 'def' else ['#', '#']
            args = ['/'] + h + ['1'] + [','] + h + ['2']
            body = ['x'] + h + ['2'] + ['y'] + h + ['1'] + ['z'] + (['#', '#'] if f == 'def' else ['#', '#', '#', '#']) + ['3', 'w']

            def toks(l):
                return SList([Parameter(c) if c == '#' else Letter(c) if c.isalpha() else Other(c) for c in l])
            hooks.callm(node(cls, {'name': EscapeSequence('foo'), 'args': toks(args), 'definition': toks(body)}), 'invoke', tex0)
            E.prove('defines-once', z3.BoolVal(len(made) == 1))
            n, a, d, local = made[0]
            E.prove('name', z3.BoolVal(str(n) == 'foo'))
            E.prove('local-or-global', z3.BoolVal(bool(local) == (cls in (P.def_, P.edef))))
            E.prove('parameter-text', z3.BoolVal(texts(a) == list('/#1,#2')))
            E.prove('body', z3.BoolVal(texts(d) == (list('x#2y#1z##3w') if f == 'def' else list('x#2y#1z###3w')) if f == 'def' else texts(d)[:7] == list('x#2y#1z')))
        elif f == 'let':
            a, b = EscapeSequence('foo'), EscapeSequence('bar') if E.choose('cs') else Letter('x')
            hooks.callm(node(P.let, {'name': a, 'value': b}), 'invoke', tex0)
            E.prove('let', z3.BoolVal(len(made) == 1 and made[0][0] is a and made[0][1] is b))
        elif f == 'csname':
            n = 0
            while n < 4 and E.choose('char'):
                n += 1
            end = Obj(P.endcsname, {'parentNode': None}, {}, label='endcsname')
            toks = list([Letter('a'), Letter('b'), Other('1'), Letter('c')][:n]) + [end, Letter('Z')]
            it = SList(toks).dv_iter()
            tex = Obj(None, {}, {'__iter__': lambda o: it, 'itertokens': lambda o: it}, label='tex')
            r = hooks.callm(node(P.csname, {}), 'invoke', tex)
            r = r.items if isinstance(r, SList) else r
            E.prove('csname#one-control-sequence', z3.BoolVal(len(r) == 1 and isinstance(r[0], EscapeSequence) and str(r[0]) == 'ab1c'[:n]))
            E.prove('csname#stops-behind-endcsname', z3.BoolVal(it.i == n + 1))
        else:
            kind = 0 if E.choose('char') else 1 if E.choose('macro') else 2 if E.choose('unexpandable') else 3
            first = Letter('a')
            second = Letter('b') if kind == 0 else EscapeSequence('bar')
            second.contextDepth, second.parentNode = 1, None
            inner = {1: SList([Letter('p'), Letter('q')]), 2: None, 3: SList([])}.get(kind)
            obj = Obj(plasTeX.Command, {'parentNode': None}, {'invoke': lambda o, t: inner}, label='obj')
            d2 = Obj(None, {'context': ctx}, {'createElement': lambda o, n: obj}, label='document')
            it = SList([first, second, Letter('Z')]).dv_iter()
            tex = Obj(None, {'ownerDocument': d2}, {'itertokens': lambda o: it}, label='tex')
            r = hooks.callm(node(P.expandafter, {}), 'invoke', tex)
            r = r.items if isinstance(r, SList) else r
            E.prove('expandafter#first-stays-in-front', z3.BoolVal(r[0] is first))
            if kind == 1:
                E.prove('expandafter#expansion', z3.BoolVal(len(r) == 3 and r[1] is inner.items[0] and r[2] is inner.items[1]))
            elif kind == 3:
                E.prove('expandafter#empty-expansion', z3.BoolVal(len(r) == 1))
            else:
                E.prove('expandafter#unexpandable', z3.BoolVal(len(r) == 2 and (r[1] is second or r[1] is obj)))
            E.prove('expandafter#reads-two-tokens', z3.BoolVal(it.i == 2))


class Stored:
    name = 'Context.newdef / newcommand / let'
    proves = ('a definition stores a new macro class with exactly the given parameter text, number of arguments, default and body under the '
              'name: in the current group for \\def and \\newcommand, in the global context and nowhere else for \\gdef; \\let stores the meaning of the '
              'source name in the current group, and nothing else changes')
    assumptions = ['the context stack is up to three deep (each frame symbolic in what it defines)', 'Context.__getitem__ gives the current meaning (property C04)']
    covers = ['newdef', 'newcommand', 'let', 'letchar']

    def run(self, E):
        depth = 1 if E.choose('one') else 2 if E.choose('two') else 3
        local = E.choose('local')
        name = 'foo'
        before = type('foo', (plasTeX.Definition,), {})
        frames = []
        for i in range(depth):
            d = {'keep%d' % i: plasTeX.Command}
            if E.choose('defined-in-%d' % i):
                d[name] = before
            frames.append(d)
        first = [dict(d) for d in frames]
        src = type('src', (plasTeX.NewCommand,), {})

        def get(o, k, *a):
            if str(k) == 'src':
                return src
            for d in reversed(frames):
                if k in d:
                    return d[k]
            raise KeyError(k)
        has = any(name in d for d in frames)
        ctx = Obj(Context, {'contexts': frames, 'top': frames[-1]}, {'__getitem__': get, 'keys': lambda o: [k for d in frames for k in d], '__contains__': lambda o, k: any(k in d for d in frames)}, label='context')
        f = 'newdef' if E.choose('newdef') else 'newcommand' if E.choose('newcommand') else 'let' if E.choose('let') else 'letchar'
        args, body, opt = SList([Parameter('#'), Other('1')]), SList([Letter('b')]), SList([Letter('o')])
        if f == 'newdef':
            hooks.callm(ctx, 'newdef', name, args, body, local=local)
        elif f == 'newcommand':
            hooks.callm(ctx, 'newcommand', name, 3, body, opt=opt, local=local)
        else:
            local = True
            tok = EscapeSequence('src') if f == 'let' else Letter('x')
            hooks.callm(ctx, 'let', EscapeSequence(name), tok)
        E.cover(f)
        at = depth - 1 if local else 0
        for i, d in enumerate(frames):
            E.prove('%s#other-names-unchanged' % f, z3.BoolVal({k: v for k, v in d.items() if k != name} == {k: v for k, v in first[i].items() if k != name}))
            if i != at and (local or f == 'newcommand'):
                E.prove('%s#other-groups-unchanged' % f, z3.BoolVal(d.get(name) is first[i].get(name)))
            if i != at and not local and f == 'newdef':
                E.prove('gdef#no-local-definition-is-left', z3.BoolVal(name not in d))
        m = frames[at].get(name)
        if f == 'newdef':
            E.prove('newdef#macro', z3.BoolVal(m is not before and issubclass(m, plasTeX.Definition) and m.args is args and m.definition is body))
        elif f == 'newcommand':
            E.prove('newcommand#macro', z3.BoolVal(m is not before and issubclass(m, plasTeX.NewCommand) and m.nargs == 3 and m.definition is body and m.opt is opt))
        elif f == 'let':
            E.prove('let#meaning', z3.BoolVal(m is src))
        else:
            E.prove('let#character', z3.BoolVal(m is not None and m is not before and issubclass(m, plasTeX.LetCharacter) and str(m.token) == 'x'))


def delimited(brace, m):
    return type('Delimited%d%s' % (m, 'b' if brace else ''), (Delimited,), {
        'brace': brace, 'm': m, 'name': 'Definition.readDelimited (%d tokens%s)' % (m, ' and an opening brace' if brace else '')})


CONTRACTS = [Expand, Collect, Patterns, Commands, Stored] + [delimited(b, m) for b, m in ((False, 1), (False, 2), (False, 3), (True, 0), (True, 1), (True, 2))]
