"""C03 proof layer: the branch scanner (processIfContent) against the branch TeX selects, for token lists of
any length and nesting; which names count as conditionals while skipping; the test primitives hand the truth
value of their test to the scanner; \\newif switches hold what their setters put there."""
import z3

import plasTeX
from plasTeX import TeX as TeXmod
from plasTeX.TeX import TeX
from plasTeX.Base.TeX import Primitives as P
from plasTeX.Tokenizer import Token, Other, EscapeSequence
from dv import hooks
from dv.core import LoopSpec, OutOfReach, to_z3bool
from dv.sym import SInt, SBool, SStr, SReal, SList, Obj, KInt, KBool, int_e, str_e
from dv.seq import HList, KHList, heap_lists
from dv.tokens import TokRef, KT, Stream, text, macroname, catcode, empty, SeqT

LEVEL = 'other'
I, B = z3.IntSort(), z3.BoolSort()
PIC = 'plasTeX.TeX:TeX.processIfContent'
Cond = z3.Function('Cond', z3.StringSort(), B)      # the name is that of a conditional
Bd = z3.Function('Boundary', I, B)
D = z3.Function('Depth', I, I)
G = z3.Function('Segment', I, I)
InElse = z3.Function('InElse', I, B)
CaseW = z3.Function('CaseW', I, SeqT)
Else = z3.Function('Else', I, SeqT)


class Scanner:
    name = 'TeX.processIfContent'
    proves = ('for every token list, of any length and nesting, and every selector: the tokens put back are exactly those of the '
              'selected branch (case k of \\ifcase counted by the \\or at depth 0, the \\else part when there is no such case, '
              'nothing without one), in order, and reading stops right after the matching \\fi')
    assumptions = ['isConditional by its own contract', 'no \\or after the \\else of the same conditional, \\newif is followed by a name (TeX reports errors there)',
                   'itertokens and pushTokens by contract (unexpanded tokens in order; property C01)']
    covers = ['pushed']
    new_list = staticmethod(heap_lists(KT))

    def run(self, E):
        s = Stream(E)
        T = s.T
        k = z3.Int('k')
        E.contracts['plasTeX.TeX:TeX.isConditional'] = lambda tex, n: SBool(Cond(str_e(n)))
        mode = 'true' if E.choose('true') else 'false' if E.choose('false') else 'case'
        which = {'true': True, 'false': False, 'case': SInt(k)}[mode]
        w = {'true': z3.IntVal(0), 'false': z3.IntVal(-1), 'case': k}[mode]

        def name(i):
            return macroname(T(i))
        for n in ('fi', 'else', 'or', 'newif', ''):
            E.assume(z3.Not(Cond(z3.StringVal(n))))

        def keep(i, m, toks):
            """m is the next boundary, toks belong to the segment current at i"""
            sel = z3.And(z3.Not(InElse(i)), G(i) == w)
            return [Bd(m), G(m) == G(i), InElse(m) == InElse(i),
                    CaseW(m) == z3.If(sel, z3.Concat(CaseW(i), *toks), CaseW(i)),
                    Else(m) == z3.If(InElse(i), z3.Concat(Else(i), *toks), Else(i))]

        def step(i):
            one = [z3.Unit(T(i))]
            cond = Cond(name(i))
            nif = name(i) == z3.StringVal('newif')
            fi = name(i) == z3.StringVal('fi')
            els = z3.And(name(i) == z3.StringVal('else'), D(i) == 0)
            orr = z3.And(name(i) == z3.StringVal('or'), D(i) == 0)
            return z3.Implies(z3.And(Bd(i), i < s.N), z3.And(
                z3.Implies(nif, z3.And([i + 1 < s.N, D(i + 2) == D(i)] + keep(i, i + 2, one + [z3.Unit(T(i + 1))]))),
                z3.Implies(cond, z3.And([D(i + 1) == D(i) + 1] + keep(i, i + 1, one))),
                z3.Implies(z3.And(fi, D(i) > 0), z3.And([D(i + 1) == D(i) - 1] + keep(i, i + 1, one))),
                z3.Implies(els, z3.And(Bd(i + 1), D(i + 1) == 0, G(i + 1) == G(i), InElse(i + 1), CaseW(i + 1) == CaseW(i), Else(i + 1) == Else(i))),
                z3.Implies(orr, z3.And(z3.Not(InElse(i)), Bd(i + 1), D(i + 1) == 0, G(i + 1) == G(i) + 1, z3.Not(InElse(i + 1)), CaseW(i + 1) == CaseW(i), Else(i + 1) == Else(i))),
                z3.Implies(z3.Not(z3.Or(nif, cond, fi, els, orr)), z3.And([D(i + 1) == D(i)] + keep(i, i + 1, one)))))
        z = z3.IntVal(0)
        E.assume(z3.And(Bd(z), D(z) == 0, G(z) == 0, z3.Not(InElse(z)), CaseW(z) == empty(), Else(z) == empty()))

        def inv(c):
            p = s.pos
            cs, cu, el = c.cases, c.current, c.elsecase
            if not (isinstance(cs, HList) and isinstance(cu, HList) and isinstance(el, HList)):
                raise OutOfReach('cases, current, elsecase are no longer lists')
            nxt = E.ghost['next'].e
            last = cs.at(G(p))
            sel = z3.And(0 <= w, w <= G(p))
            return [('at-a-token', Bd(p)), ('nesting', z3.And(int_e(c.nesting) == D(p), D(p) >= 0)),
                    ('one-case-per-or', z3.And(cs.n() == G(p) + 1, G(p) >= 0)),
                    ('current', cu.ref == z3.If(InElse(p), el.ref, last)),
                    ('else-content', el.e == Else(p)),
                    ('case-content', z3.Implies(sel, HList(KT, cs.at(w)).e == CaseW(p))),
                    ('later-case-empty', z3.Implies(G(p) < w, CaseW(p) == empty())),
                    ('lists-distinct', z3.And(last < nxt, el.ref < nxt, cs.ref < nxt, last != el.ref,
                                              z3.Implies(sel, z3.And(cs.at(w) < nxt, cs.at(w) != el.ref)),
                                              z3.Implies(z3.And(sel, w < G(p)), cs.at(w) != last)))]

        def head(c):
            E.q = s.pos
            E.assume(step(s.pos))
        E.loops[(PIC, 0)] = LoopSpec(inv, kinds={'current': KHList(KT), 'nesting': KInt, 'correctly_terminated': KBool, 'name': None},
                                     modifies=lambda c: [('heap', c.cases.key), ('heap', c.current.key), E.ghost['next'], s], head_hook=head, kind='for')
        pushed = []

        def push(o, toks):
            pushed.append(toks)
            q = E.q
            E.cover('pushed')
            want = z3.If(z3.And(0 <= w, w <= G(q)), CaseW(q), Else(q))
            E.prove('selected-branch', HList.seq_of(HList(KT, z3.IntVal(0)), toks) == want)
            E.prove('stops-after-the-matching-fi', z3.Or(z3.And(q == s.N, s.pos == q), z3.And(s.pos == q + 1, name(q) == z3.StringVal('fi'), D(q) == 0)))
        tex = Obj(TeX, {}, {'itertokens': lambda o: s.iter(), 'pushTokens': push, 'pushToken': lambda o, t: E.prove('one-push', z3.BoolVal(False))}, label='tex')
        hooks.callm(tex, 'processIfContent', which)
        E.prove('one-branch-pushed', z3.BoolVal(len(pushed) == 1))


class Conditional:
    name = 'TeX.isConditional'
    proves = ('while skipping, a name starts a nested conditional iff its meaning is a conditional primitive or a \\newif switch '
              '(names without a meaning: iff they start with "if"), whatever the name and whatever else is defined')
    assumptions = ['Context.get returns the meaning of the name (property C04)', 'names without a meaning: leniency of plasTeX, see DESIGN.md']
    covers = ['asked']

    def run(self, E):
        n = z3.String('name')
        base = z3.StringVal('if')
        cases = [(None, None)]
        for c in all_conditionals():
            cases.append((c, True))
        cases += [(type('ifsw', (plasTeX.NewIf,), {}), True), (type('iffoo', (plasTeX.UnrecognizedMacro,), {}), None),
                  (type('iffy', (plasTeX.NewCommand,), {}), False), (type('ifd', (plasTeX.Definition,), {}), False),
                  (type('swtrue', (plasTeX.IfTrue,), {}), False), (P.fi, False), (P.else_, False), (plasTeX.Command, False)]
        i = 0
        while i < len(cases) - 1 and E.choose('meaning'):
            i += 1
        cls, want = cases[i]
        asked = []

        def get(o, k, d=None):
            asked.append(k)
            return d if cls is None else cls
        ctx = Obj(None, {}, {'get': get, '__contains__': lambda o, k: cls is not None, '__getitem__': get}, label='context')
        tex = Obj(TeX, {'ownerDocument': Obj(None, {'context': ctx}, label='document')}, {}, label='tex')
        r = hooks.callm(tex, 'isConditional', SStr(n))
        E.cover('asked')
        for k in asked:
            E.prove('asks-for-the-name', str_e(k) == n)
        E.prove('conditional', to_z3bool(r) == (z3.PrefixOf(base, n) if want is None else z3.BoolVal(want)))


def all_conditionals():
    return [c for c in vars(P).values() if isinstance(c, type) and issubclass(c, P.IfCommand) and c is not P.IfCommand]


def rel(E):
    return Other('<') if E.choose('lt') else Other('>') if E.choose('gt') else Other('=')


class Tests:
    name = 'conditional primitives'
    proves = ('\\ifnum, \\ifdim, \\ifodd, \\ifcase, \\if, \\ifcat, \\ifx, \\ifdefined, \\iftrue, \\iffalse and the switches hand the scanner '
              'the truth value of their test (\\ifcase: its number), exactly once, after reading their operands, for all operands')
    assumptions = ['operand readers by contract (property C05)', 'token equality by contract (\\ifx on macros: bounded)',
                   'dimensions differ by nothing or by at least 1/10000 sp (they are integral in TeX)']
    covers = ['ifnum', 'ifdim', 'ifodd', 'ifcase', 'if', 'ifcat', 'ifx', 'ifdefined', 'iftrue', 'iffalse', 'switch', 'setter']

    def run(self, E):
        forms = ['ifnum', 'ifdim', 'ifodd', 'ifcase', 'if', 'ifcat', 'ifx', 'ifdefined', 'iftrue', 'iffalse', 'switch', 'setter']
        i = 0
        while i < len(forms) - 1 and E.choose('form'):
            i += 1
        f = forms[i]
        a, b = z3.Ints('a b')
        got, reads = [], []

        def number(o, *x):
            reads.append('number')
            return SInt([a, b][0 if f in ('ifodd', 'ifcase') else 1])
        tex = Obj(None, {}, {'processIfContent': lambda o, w, *x: got.append(w), 'readNumber': number, 'readInteger': number}, label='tex')

        def node(cls, attrs, **more):
            o = Obj(cls, dict(attributes={}, parentNode=None, **more), {'parse': lambda o, t: (o.f['attributes'].update(attrs), o.f['attributes'])[1]}, label=cls.__name__)
            return o

        def run(n):
            r = hooks.callm(n, 'invoke', tex)
            E.cover(f)
            E.prove(f + '#contributes-nothing-itself', z3.BoolVal(r is None or len(r.items if isinstance(r, SList) else r) == 0))
            if f != 'setter':
                E.prove(f + '#one-scan', z3.BoolVal(len(got) == 1))
            return got[0] if got else None

        def truth(n, want):
            E.prove(f + '#truth', to_z3bool(run(n)) == want)
        if f == 'ifnum':
            r = rel(E)
            truth(node(P.ifnum, {'a': SInt(a), 'rel': r, 'b': SInt(b)}), {'<': a < b, '>': a > b, '=': a == b}[str(r)])
        elif f == 'ifdim':
            x, y = z3.Reals('x y')
            r = rel(E)
            v = to_z3bool(run(node(P.ifdim, {'a': SReal(x), 'rel': r, 'b': SReal(y)})))
            d = x - y
            E.prove('ifdim#equal', z3.Implies(x == y, v == z3.BoolVal(str(r) == '=')))
            E.prove('ifdim#different', z3.Implies(z3.Or(d >= z3.RealVal('1e-4'), -d >= z3.RealVal('1e-4')),
                                                  v == {'<': x < y, '>': x > y, '=': z3.BoolVal(False)}[str(r)]))
        elif f == 'ifodd':
            truth(node(P.ifodd, {}), a % 2 == 1)
        elif f == 'ifcase':
            v = run(node(P.ifcase, {}))
            E.prove('ifcase#selector', z3.BoolVal(not isinstance(v, (bool, SBool))))
            E.prove('ifcase#number', int_e(v) == a)
        elif f in ('if', 'ifcat', 'ifx'):
            ta, tb = TokRef(z3.Const('ta', KT.sort)), TokRef(z3.Const('tb', KT.sort))
            cls = {'if': P.if_, 'ifcat': P.ifcat, 'ifx': P.ifx}[f]
            truth(node(cls, {'a': ta, 'b': tb}), catcode(ta._e) == catcode(tb._e) if f == 'ifcat' else ta._e == tb._e)
        elif f == 'ifdefined':
            known = z3.Function('known', z3.StringSort(), B)
            t = TokRef(z3.Const('ta', KT.sort))
            ctx = Obj(None, {}, {'__contains__': lambda o, k: SBool(known(str_e(k)))}, label='context')
            truth(node(P.ifdefined, {'name': t}, ownerDocument=Obj(None, {'context': ctx}, label='document')), known(macroname(t._e)))
        elif f in ('iftrue', 'iffalse'):
            truth(node({'iftrue': P.iftrue, 'iffalse': P.iffalse}[f], {}), z3.BoolVal(f == 'iftrue'))
        else:
            v = E.choose('state')
            sw, other = type('ifsw', (plasTeX.NewIf,), {}), type('ifother', (plasTeX.NewIf,), {})
            cls = type('sw', (plasTeX.IfTrue if v else plasTeX.IfFalse,), {'ifclass': sw})
            E.statics[(sw, 'state')] = False
            E.statics[(other, 'state')] = u = SBool(z3.Bool('other'))
            E.statics[(sw, 'state')] = SBool(z3.Bool('before'))
            if f == 'switch':
                truth(node(sw, {}), z3.Bool('before'))
            else:
                run(node(cls, {}))
                E.prove('setter#sets-its-switch', to_z3bool(E.statics[(sw, 'state')]) == z3.BoolVal(v))
                E.prove('setter#no-scan', z3.BoolVal(not got))
            E.prove(f + '#other-switches-unchanged', z3.BoolVal(E.statics[(other, 'state')] is u))


class Newif:
    name = 'Context.newif'
    proves = ('\\newif\\ifx defines \\ifx as a new switch, off, and \\xtrue, \\xfalse as its setters; a name that is already defined keeps its meaning')
    assumptions = ['addGlobal by contract (property C04)']
    covers = ['defined', 'kept']

    def run(self, E):
        from plasTeX.Context import Context
        name = ['ifx', 'ifabc', 'if', 'ififtrue'][0 if E.choose('n0') else 1 if E.choose('n1') else 2 if E.choose('n2') else 3]
        exists = E.choose('exists')
        added = {}
        keys = [name] if exists else ['other']
        c = Obj(Context, {}, {'addGlobal': lambda o, k, v: added.__setitem__(k, v), 'keys': lambda o: list(keys),
                              '__contains__': lambda o, k: k in keys, 'get': lambda o, k, d=None: plasTeX.Command if k in keys else d,
                              '__getitem__': lambda o, k: plasTeX.Command}, label='context')
        hooks.callm(c, 'newif', name)
        if exists:
            E.cover('kept')
            E.prove('newif#keeps', z3.BoolVal(not added))
            return
        E.cover('defined')
        x = name[2:]
        E.prove('newif#names', z3.BoolVal(set(added) == {name, x + 'true', x + 'false'}))
        sw = added[name]
        E.prove('newif#switch', z3.BoolVal(issubclass(sw, plasTeX.NewIf) and sw.state is False))
        E.prove('newif#setters', z3.BoolVal(issubclass(added[x + 'true'], plasTeX.IfTrue) and issubclass(added[x + 'false'], plasTeX.IfFalse)
                                            and added[x + 'true'].ifclass is sw and added[x + 'false'].ifclass is sw))


CONTRACTS = [Scanner, Conditional, Tests, Newif]
