"""C19 proof layer.  `evaluate` is executed on every expression of a finite set of shapes (up to three
operands, \\not on operands and groups, every operator spelling, every grouping) with *symbolic* atom truth
values and symbolic integers in comparisons, so each shape is decided for all values; the atoms themselves,
the branch selection of \\ifthenelse and the loop of \\whiledo are proved for every value and any number of
iterations."""
import z3

import plasTeX
from plasTeX.Packages import ifthen
from plasTeX.Tokenizer import Token, Other, Space, EscapeSequence
from plasTeX.Base.LaTeX.Math import BeginMath, EndMath
from dv.core import LoopSpec, cur, to_z3bool
from dv.sym import SInt, SBool, SStr, SList, SReal, Obj, Cell, StaticField, KInt, KStr, KBool, int_e, str_e

LEVEL = 'other'
EV = 'plasTeX.Packages.ifthen:ifthenelse.evaluate'


def atom(name):
    v = z3.Bool(name)
    return Obj(ifthen._boolToken, {'state': SBool(v), 'catcode': None}, {'__eq__': lambda s, o: False}, label=name), v


def op_and(up):
    return ifthen.AND() if up else ifthen._and()


def op_or(up):
    return ifthen.OR() if up else ifthen._or()


def op_not(up):
    return ifthen.NOT() if up else ifthen._not()


def paren(c):
    # with math disabled \( and \) arrive as their own macros; a plain ( is a character
    return (BeginMath if c == '(' else EndMath)()


def num_model(E):
    def mk(v):
        e = int_e(v)
        o = Obj(plasTeX.number, {'v': SInt(e), 'catcode': None}, {
            '__lt__': lambda s, b: SBool(e < int_e(b.f['v'])), '__gt__': lambda s, b: SBool(e > int_e(b.f['v'])),
            '__le__': lambda s, b: SBool(e <= int_e(b.f['v'])), '__ge__': lambda s, b: SBool(e >= int_e(b.f['v'])),
            '__eq__': lambda s, b: SBool(e == int_e(b.f['v'])) if isinstance(b, Obj) and 'v' in b.f else False}, label='number')
        return o
    E.classes[plasTeX.number] = mk


def reader(E, table):
    """tex.readInternalType by contract: the literal denotes the integer the table gives it."""
    def read(self, tokens, method):
        text = ''.join(str(t) for t in tokens.items)
        E.prove('evaluate#the-digits-of-one-operand-are-read-together', z3.BoolVal(text in table), 'callee-precondition')
        return SInt(table[text])
    return Obj(None, {}, {'readInternalType': read, 'readNumber': lambda s, *a: None}, label='tex')


def spec(e, env):
    """Truth of [operand, op, operand, ...]: operators from left to right, \\not binds tightest."""
    v = operand(e[0], env)
    for i in range(1, len(e), 2):
        w = operand(e[i + 1], env)
        v = z3.And(v, w) if e[i] == 'and' else z3.Or(v, w)
    return v


def operand(o, env):
    if o[0] == 'not':
        return z3.Not(operand(o[1], env))
    if o[0] == 'group':
        return spec(o[1], env)
    if o[0] == 'atom':
        return env[o[1]]
    l, r = env[o[1]], env[o[3]]
    return {'<': l < r, '>': l > r, '=': l == r}[o[2]]


def shapes(E):
    """Chosen nondeterministically; every choice is explored."""
    names = iter('abcd')

    def leaf():
        o = ['atom', next(names)]
        return ['not', o] if E.choose('not') else o

    def wrap(g):
        o = ['group', g]
        return ['not', o] if E.choose('not-group') else o

    def op():
        return 'and' if E.choose('and') else 'or'
    if E.choose('one'):
        o = leaf()
        if E.choose('wrapped'):
            o = wrap([o])
            if E.choose('not-again'):
                o = ['not', o]
        return [o]
    if E.choose('two'):
        e = [leaf(), op(), leaf()]
        return [wrap(e)] if E.choose('group') else e
    if E.choose('left'):
        return [wrap([leaf(), op(), leaf()]), op(), leaf()]
    if E.choose('right'):
        return [leaf(), op(), wrap([leaf(), op(), leaf()])]
    return [leaf(), op(), leaf(), op(), leaf()]


def tokens(e, up, atoms):
    out = []
    for x in e:
        if x == 'and':
            out.append(op_and(up))
        elif x == 'or':
            out.append(op_or(up))
        elif x[0] == 'not':
            out += [op_not(up)] + tokens([x[1]], up, atoms)
        elif x[0] == 'group':
            out += [paren('(')] + tokens(x[1], up, atoms) + [paren(')')]
        elif x[0] == 'atom':
            out.append(atoms[x[1]])
        else:
            out += [Other(c) for c in x[1]] + [Other(x[2])] + [Other(c) for c in x[3]] + [Space(' ')]
    return out


def latex(e, val):
    out = []
    for x in e:
        if isinstance(x, str):
            out.append('\\' + x + ' ')
        elif x[0] == 'not':
            out.append('\\not ' + latex([x[1]], val))
        elif x[0] == 'group':
            out.append(r'\(' + latex(x[1], val) + r'\)')
        elif x[0] == 'atom':
            out.append('1<2 ' if val[x[1]] else '2<1 ')
        else:
            out.append('%d%s%d ' % (val[x[1]], x[2], val[x[3]]))
    return ''.join(out)


def run_latex(test, want):
    from plasTeX.TeX import TeX
    t = TeX()
    t.input('\\usepackage{ifthen}\\ifthenelse{%s}{YES}{NO}' % test)
    got = t.parse().textContent.strip()
    return None if got == want else '\\ifthenelse{%s} takes %r, expected %r' % (test, got, want)


def pyeval(e, val):
    def op(o):
        if o[0] == 'not':
            return not op(o[1])
        if o[0] == 'group':
            return pyeval(o[1], val)
        if o[0] == 'atom':
            return val[o[1]]
        l, r = val[o[1]], val[o[3]]
        return {'<': l < r, '>': l > r, '=': l == r}[o[2]]
    v = op(e[0])
    for i in range(1, len(e), 2):
        w = op(e[i + 1])
        v = (v and w) if e[i] == 'and' else (v or w)
    return v


class Evaluate:
    name = 'ifthenelse.evaluate'
    proves = ('for every boolean expression of up to three operands (\\not on operands and on groups, any grouping, both '
              'operator spellings) the evaluation is the value of the expression with \\not binding tightest and \\and, '
              '\\or of equal rank from left to right, for all truth values of the operands')
    assumptions = ['shapes are enumerated up to three operands; within a shape the atoms are symbolic',
                   'an operand has been expanded to a boolean token before evaluate is called (atom contracts)']
    covers = ['evaluate-result']
    engine = {'max_paths': 20000}

    def run(self, E):
        num_model(E)
        e = shapes(E)
        up = E.choose('uppercase')
        E.inputs['expr'] = e
        names = sorted(set(atoms_of(e)))
        objs, env = {}, {}
        for n in names:
            objs[n], env[n] = atom(n)
        E.env = env
        node = object.__new__(ifthen.ifthenelse)
        tex = reader(E, {})
        from dv import hooks
        r = hooks.call(ifthen.ifthenelse.evaluate, node, tex, SList(tokens(e, up, objs)))
        E.cover('evaluate-result')
        st = hooks.attr(r, 'state')
        E.prove('evaluate#value-of-the-expression', to_z3bool(st) == spec(e, env))

    def concretize(self, E, model):
        val = {n: z3.is_true(model.eval(v, model_completion=True)) for n, v in E.env.items()}
        return {'expr': E.inputs['expr'], 'val': val}

    def replay(self, inp):
        return run_latex(latex(inp['expr'], inp['val']), 'YES' if pyeval(inp['expr'], inp['val']) else 'NO')


def atoms_of(e):
    for x in e:
        if isinstance(x, list):
            if x[0] == 'atom':
                yield x[1]
            elif x[0] == 'not':
                yield from atoms_of([x[1]])
            elif x[0] == 'group':
                yield from atoms_of(x[1])


class Compare:
    name = 'ifthenelse.evaluate (number comparisons)'
    proves = ('n<m, n>m, n=m have the value of the integer relation for all integers, alone, negated, grouped and '
              'combined with a second comparison')
    assumptions = ['TeX.readInternalType/readNumber give the integer a literal denotes (property C05)']
    covers = ['compare-result']

    def run(self, E):
        num_model(E)
        vals = {'1': z3.Int('n1'), '22': z3.Int('n2'), '3': z3.Int('n3'), '-4': z3.Int('n4')}
        E.vals = vals

        def rel():
            return '<' if E.choose('lt') else ('>' if E.choose('gt') else '=')
        a, b = ['rel', '1', rel(), '22'], ['rel', '3', rel(), '-4']
        if E.choose('single'):
            e = [a]
            if E.choose('neg'):
                e = [['not', a]]
            if E.choose('group'):
                e = [['group', e]]
                if E.choose('neg-group'):
                    e = [['not', e[0]]]
        else:
            x = ['not', a] if E.choose('neg1') else a
            y = ['not', b] if E.choose('neg2') else b
            e = [x, 'and' if E.choose('and') else 'or', y]
        E.inputs['expr'] = e
        from dv import hooks
        node = object.__new__(ifthen.ifthenelse)
        r = hooks.call(ifthen.ifthenelse.evaluate, node, reader(E, vals), SList(tokens(e, False, {})))
        E.cover('compare-result')
        E.prove('evaluate#value-of-the-comparison', to_z3bool(hooks.attr(r, 'state')) == spec(e, vals))

    def concretize(self, E, model):
        return {'expr': E.inputs['expr'],
                'val': {k: model.eval(v, model_completion=True).as_long() for k, v in E.vals.items()}}

    def replay(self, inp):
        return run_latex(latex(inp['expr'], inp['val']), 'YES' if pyeval(inp['expr'], inp['val']) else 'NO')


CTX = 'context'


def node_of(cls, attrs, ctx=None):
    doc = Obj(None, {'context': ctx}, label='document')
    from dv.sym import Obj as O
    n = O(cls, {'ownerDocument': doc, 'parentNode': None}, {'parse': lambda s, tex: attrs}, label=cls.__name__)
    return n


class Atoms:
    name = 'ifthen atoms'
    proves = ('\\isodd is oddness, \\equal is equality of the two texts, \\isundefined is absence of the name, \\boolean is '
              'the value of \\if<name>, \\lengthtest is the relation of the two dimensions (equality up to rounding), and '
              '\\setboolean sets exactly the flag it names, for all arguments')
    assumptions = ['argument parsing (Macro.parse) by contract: property C05', 'readDimen by contract: property C05']
    covers = ['isodd', 'equal', 'isundefined', 'boolean', 'lengthtest', 'setboolean', 'newboolean']

    def run(self, E):
        from dv import hooks
        tex = Obj(None, {}, label='tex')
        which = 0
        while which < 6 and E.choose('which'):
            which += 1

        def result(cls, attrs, ctx=None, t=tex):
            r = hooks.callm(node_of(cls, attrs, ctx), 'invoke', t)
            l = r.items if isinstance(r, SList) else r
            return l

        def one(tag, r, goal):
            E.cover(tag)
            E.prove(tag + '#one-boolean-token', z3.BoolVal(r is not None and len(r) == 1))
            E.prove(tag + '#value', to_z3bool(hooks.attr(r[0], 'state')) == goal)

        def flag(name):
            c = E.fresh('flag', z3.BoolSort())
            o = Obj(None, {'state': SBool(c)}, {'setTrue': lambda s: s.f.__setitem__('state', True),
                                                'setFalse': lambda s: s.f.__setitem__('state', False)}, label='newif')
            return o, c
        if which == 0:
            n = z3.Int('n')
            one('isodd', result(ifthen.isodd, {'number': SInt(n)}), n % 2 == 1)
        elif which == 1:
            a, b = z3.String('a'), z3.String('b')
            one('equal', result(ifthen.equal, {'first': SStr(a), 'second': SStr(b)}), a == b)
        elif which in (2, 3):
            known = z3.Function('known', z3.StringSort(), z3.BoolSort())
            fl, c = flag('x')
            nm = z3.String('nm')
            wanted = []

            def get(s, k):
                wanted.append(k)
                return fl
            ctx = Obj(None, {}, {'__contains__': lambda s, k: SBool(known(str_e(k))), '__getitem__': get}, label='context')
            if which == 2:
                one('isundefined', result(ifthen.isundefined, {'name': SStr(nm)}, ctx), z3.Not(known(nm)))
            else:
                E.assume(known(z3.Concat(z3.StringVal('if'), nm)))
                r = result(ifthen.boolean, {'name': SStr(nm)}, ctx)
                one('boolean', r, c)
                E.prove('boolean#asks-for-if-name', z3.And([str_e(k) == z3.Concat(z3.StringVal('if'), nm) for k in wanted]))
        elif which == 4:
            x, y = z3.Real('x'), z3.Real('y')
            rel = '<' if E.choose('lt') else ('>' if E.choose('gt') else '=')
            vals = [x, y]
            t = Obj(None, {}, {'pushTokens': lambda s, k: None,
                               'readDimen': lambda s: SReal(vals.pop(0)),
                               'itertokens': lambda s: SList([Other(rel)]).dv_iter()}, label='tex')
            d = x - y
            r = result(ifthen.lengthtest, {'test': SList([])}, None, t)
            E.cover('lengthtest')
            v = to_z3bool(hooks.attr(r[0], 'state'))
            # dimensions are integral in TeX; a rounding error below 1/10000 sp is none
            E.prove('lengthtest#equal', z3.Implies(x == y, v == z3.BoolVal(rel == '=')))
            E.prove('lengthtest#different', z3.Implies(z3.Or(d >= z3.RealVal('1e-4'), -d >= z3.RealVal('1e-4')),
                                                       v == {'<': x < y, '>': x > y, '=': z3.BoolVal(False)}[rel]))
        elif which == 5:
            fl, c = flag('x')
            nm = z3.String('nm')
            asked = []

            def get(s, k):
                asked.append(k)
                return fl
            ctx = Obj(None, {}, {'__contains__': lambda s, k: True, '__getitem__': get}, label='context')
            v = ['true', 'false', 'TRUE', 'False'][0 if E.choose('v0') else 1 if E.choose('v1') else 2 if E.choose('v2') else 3]
            hooks.callm(node_of(ifthen.setboolean, {'name': SStr(nm), 'value': v}, ctx), 'invoke', tex)
            E.cover('setboolean')
            E.prove('setboolean#sets-the-value', to_z3bool(fl.f['state']) == z3.BoolVal(v.lower() == 'true'))
            E.prove('setboolean#names-the-flag', z3.And([str_e(k) == z3.Concat(z3.StringVal('if'), nm) for k in asked]))
        else:
            made = []
            nm = z3.String('nm')
            ctx = Obj(None, {}, {'newif': lambda s, k, *a: made.append(k)}, label='context')
            hooks.callm(node_of(ifthen.newboolean, {'name': SStr(nm)}, ctx), 'invoke', tex)
            E.cover('newboolean')
            E.prove('newboolean#creates-one-flag', z3.BoolVal(len(made) == 1))
            E.prove('newboolean#named-if-name', str_e(made[0]) == z3.Concat(z3.StringVal('if'), nm))


class Branch:
    failing = False
    name = 'ifthenelse.invoke'
    proves = ('\\ifthenelse expands to its second argument when the test holds and to its third otherwise, and leaves '
              '\\( and \\) in their normal meaning')
    assumptions = ['evaluate and parse by contract']
    covers = ['branch']

    def run(self, E):
        from dv import hooks
        v = z3.Bool('test')
        fragment = E.choose('fragment')
        for k in (BeginMath, EndMath):
            E.statics[(k, 'disableMath')] = False
        fails = self.failing and E.choose('parse-fails')
        then, els, test = SList([1]), SList([2]), (object.__new__(plasTeX.TeXFragment) if fragment else Other('x'))
        seen = []

        def parse(s, tex):
            E.prove('invoke#math-disabled-while-reading', z3.BoolVal(
                E.statics[(BeginMath, 'disableMath')] is True and E.statics[(EndMath, 'disableMath')] is True))
            if fails:
                raise ValueError('bad test')
            return {'test': test, 'then': then, 'else': els}

        def evaluate(s, tex, t):
            seen.append(t)
            return Obj(ifthen._boolToken, {'state': SBool(v)}, label='result')
        n = Obj(ifthen.ifthenelse, {}, {'parse': parse, 'evaluate': evaluate}, label='ifthenelse')
        try:
            r = hooks.callm(n, 'invoke', Obj(None, {}, label='tex'))
        except ValueError:
            r = None
        E.cover('branch')
        E.prove('invoke#math-enabled-afterwards', z3.BoolVal(
            E.statics[(BeginMath, 'disableMath')] is False and E.statics[(EndMath, 'disableMath')] is False))
        if fails:
            return
        if fragment:
            E.prove('invoke#evaluates-the-test', z3.BoolVal(len(seen) == 1 and seen[0] is test))
        E.prove('invoke#takes-the-right-branch', z3.And(z3.Implies(v, z3.BoolVal(r is then)), z3.Implies(z3.Not(v), z3.BoolVal(r is els))))


class While:
    name = 'whiledo.invoke'
    proves = ('\\whiledo expands to the expansions of its second argument for as long as the test holds, in order: the test '
              'is expanded and evaluated before every execution, the body is expanded exactly once after every true test '
              'and never after a false one, for any number of iterations; \\( and \\) have their normal meaning in the body '
              'and afterwards')
    assumptions = ['expandTokens, evaluate and parse by contract; Truth(k) is the value of the k-th test']
    covers = ['while-done']

    def run(self, E):
        from dv import hooks
        Truth = z3.Function('Truth', z3.IntSort(), z3.BoolSort())
        nt, nb = Cell(0, 'tests'), Cell(0, 'bodies')
        pend = Cell(False, 'true-test-pending')
        for k in (BeginMath, EndMath):
            E.statics[(k, 'disableMath')] = False
        fragment = E.choose('fragment')
        test, ops = SList([0]), SList([1])
        frag = object.__new__(plasTeX.TeXFragment) if fragment else Other('x')

        def off():
            return E.statics[(BeginMath, 'disableMath')] is False and E.statics[(EndMath, 'disableMath')] is False

        def expand(s, toks, normalize=False, parentNode=None):
            if toks is test:
                E.prove('whiledo#no-two-tests-without-a-body', z3.Not(pend.e))
                return frag
            E.prove('whiledo#expands-its-arguments-only', z3.BoolVal(toks is ops))
            E.prove('whiledo#body-only-after-a-true-test', pend.e)
            E.prove('whiledo#math-enabled-in-the-body', z3.BoolVal(off()))
            pend.set(z3.BoolVal(False))
            k = nb.e
            nb.set(k + 1)
            return SList([SInt(k)])

        def evaluate(s, tex, t):
            k = nt.e
            nt.set(k + 1)
            pend.set(Truth(k))
            return Obj(ifthen._boolToken, {'state': SBool(Truth(k))}, label='result')

        j = z3.Int('j')

        def inv(c):
            t = c.tok
            n = t.n() if t.items is None else z3.IntVal(len(t.items))
            out = [('math-enabled', z3.BoolVal(off())), ('as-many-bodies-as-tests', z3.And(nt.e == nb.e, nb.e >= 0, z3.Not(pend.e))), ('one-item-per-body', n == nb.e),
                   ('tests-so-far-true', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nt.e), Truth(j))))]
            if t.items is None:
                out.append(('bodies-in-order', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nb.e), z3.Select(t.arr, t.lo + j) == j))))
            return out
        E.loops[('plasTeX.Packages.ifthen:whiledo.invoke', 0)] = LoopSpec(
            inv, kinds={}, modifies=lambda c: [nt, nb, pend, c.tok.to_sym(KInt), StaticField(BeginMath, 'disableMath'), StaticField(EndMath, 'disableMath')], kind='while')
        n = Obj(ifthen.whiledo, {'parentNode': None}, {'parse': lambda s, tex: {'test': test, 'operations': ops},
                                                       'evaluate': evaluate}, label='whiledo')
        r = hooks.callm(n, 'invoke', Obj(None, {}, {'expandTokens': expand}, label='tex'))
        E.cover('while-done')
        E.prove('whiledo#last-test-false', z3.Not(Truth(nt.e - 1)))
        E.prove('whiledo#all-earlier-tests-true', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nt.e - 1), Truth(j))))
        E.prove('whiledo#one-body-per-true-test', nb.e == nt.e - 1)
        m = r.n() if r.items is None else z3.IntVal(len(r.items))
        E.prove('whiledo#result-is-the-bodies', m == nb.e)
        if r.items is None:
            E.prove('whiledo#bodies-in-order', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nb.e), z3.Select(r.arr, r.lo + j) == j)))
        E.prove('whiledo#math-enabled-afterwards', z3.BoolVal(off()))


CONTRACTS = [Evaluate, Compare, Atoms, Branch, While]
