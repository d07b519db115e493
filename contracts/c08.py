"""C08 proof layer: contracts on Counter, numToRoman, the representation properties, the
Macro methods that decide when a counter is stepped, lists and newcounter."""
import string

import z3

import plasTeX
from plasTeX.Base.LaTeX import Lists
from dv import hooks
from dv.core import LoopSpec
from dv.sym import (SInt, SBool, SStr, SList, SDict, SRef, Obj, Cell, Field, KInt, KStr, KBool, KRef, KOpt, RefSort,
                    heap, heap0, const_fun, str_e, int_e)

LEVEL = 'other'


def roman_tail(n):
    out = ''
    for v, s in ((900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'), (50, 'L'), (40, 'XL'),
                 (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')):
        k, n = divmod(n, v)
        out += s * k
    return out


class NumToRoman:
    name = 'numToRoman'
    proves = ('for every x >= 0: numToRoman(x) is M repeated x//1000 times followed by the standard numeral of x%1000 '
              '(case split complete over x%1000)')
    max_unroll = 12

    def run(self, E):
        x = SInt(z3.Int('x'))
        E.assume(x._e >= 0)
        r = hooks.call(plasTeX.numToRoman, x)
        # on every path x % 1000 is determined: read it off the model and prove it
        E.cover('returns')
        m = E._check()
        if str(m) != 'sat':
            return
        tail = E.model.eval(x._e % 1000, model_completion=True).as_long()
        E.prove('path-determines-remainder', x._e % 1000 == tail)
        want = z3.Concat(str_e(hooks.str_repeat('M', SInt(x._e / 1000))), z3.StringVal(roman_tail(tail)))
        E.prove('value', str_e(r) == want)

    def concretize(self, E, model):
        return model.eval(z3.Int('x'), model_completion=True).as_long()

    def replay(self, x):
        w = 'M' * (x // 1000) + roman_tail(x % 1000)
        g = plasTeX.numToRoman(x)
        return None if g == w else 'numToRoman(%d) = %r, expected %r' % (x, g, w)


class Representations:
    name = 'Counter representations'
    proves = 'arabic/Roman/roman for every value >= 0, Alph/alph for every value 1..26'
    max_unroll = 12

    def run(self, E):
        v = SInt(z3.Int('v'))
        c = Obj(plasTeX.Counter, {'value': v, 'name': 'x', 'resetby': None, 'counters': None})
        which = 0
        for k in range(4):
            if E.choose('rep'):
                which += 1
            else:
                break
        R = z3.Function('roman_of', z3.IntSort(), z3.StringSort())
        if which <= 2:
            E.assume(v._e >= 0)
        else:
            E.assume(z3.And(v._e >= 1, v._e <= 26))
        if which == 0:
            E.prove('arabic', str_e(hooks.attr(c, 'arabic')) == z3.IntToStr(v._e))
        elif which == 1:
            E.contracts['plasTeX:numToRoman'] = lambda x: SStr(R(int_e(x)))      # contract numToRoman
            E.prove('Roman', str_e(hooks.attr(c, 'Roman')) == R(v._e))
        elif which == 2:
            r = hooks.attr(c, 'roman')            # through the real body: a case mapping of its text
            m = E._check()
            tail = E.model.eval(v._e % 1000, model_completion=True).as_long()
            E.prove('remainder', v._e % 1000 == tail)
            E.prove('roman', str_e(r) == z3.Concat(str_e(hooks.str_repeat('m', SInt(v._e / 1000))),
                                                   z3.StringVal(roman_tail(tail).lower())))
        else:
            a = hooks.attr(c, 'Alph' if which == 3 else 'alph')
            letters = string.ascii_uppercase if which == 3 else string.ascii_lowercase
            E.prove('Alph' if which == 3 else 'alph', z3.And(*[
                z3.Implies(v._e == i + 1, str_e(a) == z3.StringVal(letters[i])) for i in range(26)]))
        E.cover('rep%d' % which)

    covers = ['rep0', 'rep1', 'rep2', 'rep3', 'rep4']


class CounterRef(SRef):
    pycls = plasTeX.Counter
    fields = {'value': KInt}
    consts = {'name': KStr, 'resetby': KOpt(KStr)}
    g_counters = lambda self: hooks.cur().the_counters

    def dv_isinstance(self, c):
        return issubclass(plasTeX.Counter, c)


KC = KRef(CounterRef)
# Under(x, n): counter x is declared, directly or transitively, within the counter named n
Under = z3.Function('Under', RefSort, z3.StringSort(), z3.BoolSort())
height = z3.Function('height', RefSort, z3.IntSort())


def val(E, e):
    return z3.Select(heap('value', KInt), e)


class CounterWorld:
    """All counters of a document: a dictionary name -> Counter; `within` is acyclic."""
    engine = {}

    def world(self, E):
        d = SDict.fresh(KStr, KC, 'counters')
        E.the_counters = d
        nm = const_fun('name', KStr)
        rb = const_fun('resetby', KOpt(KStr))
        O = KOpt(KStr).sort
        k, k2 = z3.Strings('k k2')
        x, c = z3.Consts('x c', RefSort)
        n = z3.String('n')
        E.assume(z3.ForAll([k], z3.Implies(d.has(k), z3.And(nm(d.get_e(k)) == k)), patterns=[d.get_e(k)]))
        # x is a registered counter
        isreg = lambda x: z3.And(d.has(nm(x)), d.get_e(nm(x)) == x)
        direct = lambda c, n: z3.And(isreg(c), O.is_some(rb(c)), O.val(rb(c)) == n, z3.Length(O.val(rb(c))) > 0)
        # definition of Under by unfolding at the top
        E.assume(z3.ForAll([x, n], Under(x, n) == z3.Exists([c], z3.And(direct(c, n), z3.Or(x == c, Under(x, nm(c))))),
                           patterns=[Under(x, n)]))
        self.isreg, self.direct, self.nm, self.d = isreg, direct, nm, d
        return d

    def spec_reset(self, E, H0, n, H1):
        x = z3.Const('x', RefSort)
        return z3.ForAll([x], z3.Select(H1, x) == z3.If(Under(x, n), z3.IntVal(0), z3.Select(H0, x)))

    def contract_reset(self, E):
        """resetcounters by contract (used at the recursive call and by the callers)."""
        def f(slf):
            H0 = heap('value', KInt)
            H1 = E.fresh('H_value', H0.sort())
            E.assume(self.spec_reset(E, H0, hooks.attr(slf, 'name')._e, H1))
            E.heap['value'] = H1
            E.touch(('heap', 'value'))
        return f


class ResetCounters(CounterWorld):
    name = 'Counter.resetcounters'
    proves = ('exactly the counters declared within this one, transitively, become 0; every other value is unchanged '
              '(any number of counters, any nesting; partial correctness of the recursion)')
    assumptions = ['the within relation is acyclic (termination of the recursion is not proved)',
                   'the registry maps each name to the counter of that name (invariant of newcounter, proved there)']

    def run(self, E):
        d = self.world(E)
        slf = CounterRef(E.fresh('self', RefSort))
        n = hooks.attr(slf, 'name')
        E.assume(z3.Length(n._e) > 0)
        E.assume(self.isreg(slf._e))
        H0 = heap('value', KInt)
        # hidden from the recursive call: run the body of the outer activation once
        real = plasTeX.Counter.resetcounters
        inner = self.contract_reset(E)
        state = {'outer': True}

        def by_contract(s):
            return inner(s)

        x = z3.Const('x', RefSort)
        k = z3.String('k')

        def inv(c):
            it = c.it
            seen = it.seen if hasattr(it, 'seen') else None
            H = heap('value', KInt)
            hit = z3.Exists([k], z3.And(z3.Select(seen, k), d.has(k), self.direct(d.get_e(k), n._e),
                                        z3.Or(x == d.get_e(k), Under(x, k))))
            return [('visited-subtrees-are-zero', z3.ForAll([x], z3.Select(H, x) == z3.If(hit, z3.IntVal(0), z3.Select(H0, x))))]
        E.loops[('plasTeX:Counter.resetcounters', 0)] = LoopSpec(inv, modifies=lambda c: [('heap', 'value')])
        g = E.instrument(real)
        E.contracts['plasTeX:Counter.resetcounters'] = by_contract
        g(slf)
        E.cover('returns')
        E.prove('exactly-the-dependents-are-zero', self.spec_reset(E, H0, n._e, heap('value', KInt)))


class StepSetAdd(CounterWorld):
    name = 'Counter.stepcounter/setcounter/addtocounter'
    proves = ('step: value+1 and exactly the dependents 0; set/add: only this value changes (all counters framed)')
    assumptions = ['resetcounters by its contract']

    def run(self, E):
        d = self.world(E)
        slf = CounterRef(E.fresh('self', RefSort))
        E.assume(self.isreg(slf._e))
        n = hooks.attr(slf, 'name')
        E.assume(z3.Length(n._e) > 0)
        E.assume(z3.Not(Under(slf._e, n._e)))          # acyclic
        E.contracts['plasTeX:Counter.resetcounters'] = self.contract_reset(E)
        H0 = heap('value', KInt)
        x = z3.Const('x', RefSort)
        arg = SInt(z3.Int('arg'))
        old = z3.Select(H0, slf._e)
        if E.choose('step'):
            hooks.callm(slf, 'stepcounter')
            E.prove('step', z3.ForAll([x], val(E, x) == z3.If(x == slf._e, old + 1, z3.If(
                Under(x, n._e), z3.IntVal(0), z3.Select(H0, x)))))
            E.cover('step')
        elif E.choose('set'):
            hooks.callm(slf, 'setcounter', arg)
            E.prove('set', z3.ForAll([x], val(E, x) == z3.If(x == slf._e, arg._e, z3.Select(H0, x))))
            E.cover('set')
        else:
            hooks.callm(slf, 'addtocounter', arg)
            E.prove('add', z3.ForAll([x], val(E, x) == z3.If(x == slf._e, old + arg._e, z3.Select(H0, x))))
            E.cover('add')
    covers = ['step', 'set', 'add']


class ArgRef(SRef):
    pycls = plasTeX.Argument
    consts = {'name': KStr, 'index': KInt}
    g_options = lambda self: {}


class Opaque(Obj):
    """A parsed argument value: only its truth value matters."""
    def __bool__(self):
        return bool(self.f['truth'])


class MacroParse:
    name = 'Macro.parse (when a macro steps its counter)'
    proves = ('for every argument list and every counter: a macro without arguments, or whose first argument is not the '
              'star, steps its counter exactly once before any argument is read; a starred form with the star present '
              'never steps; the label target is set before the non-star arguments are read')
    assumptions = ['tex.readArgumentAndSource by a contract that leaves this macro\'s counter alone',
                   'Counter.stepcounter by its contract; postParse by its contract']

    def run(self, E):
        M = plasTeX.Macro
        steps, labelled, starred = Cell(0, 'steps'), Cell(False, 'labelled'), Cell(False, 'starred')
        kind = 0 if E.choose('no-counter') else (1 if E.choose('empty-counter') else 2)
        counter = None if kind == 0 else '' if kind == 1 else SStr(z3.String('counter'))
        if kind == 2:
            E.assume(z3.Length(counter._e) > 0)

        def set_currentlabel(ctx, v):
            labelled.set(True)

        def get_counter(ds, nm):
            def step(c):
                steps.set(steps.e + 1)
            return Obj(None, {}, {'stepcounter': step}, label='counter object')
        counters = Obj(None, {}, {'__getitem__': get_counter}, label='counters')
        context = Obj(None, {'counters': counters}, {'set_currentlabel': set_currentlabel}, label='context')
        doc = Obj(None, {'context': context}, label='document')
        has_args = E.choose('has-args')
        args = SList.fresh(KRef(ArgRef), 'args')
        i = z3.Int('i')
        nm, ix = const_fun('name', KStr), const_fun('index', KInt)
        n = args.n()
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), ix(args.at(i)) == i)))
        if has_args:
            E.assume(n > 0)
        star0 = z3.And(n > 0, nm(args.at(0)) == z3.StringVal('*modifier*'))
        slf = Obj(M, {'counter': counter, 'ownerDocument': doc, 'macroMode': M.MODE_BEGIN, 'argSource': '',
                      'attributes': Obj(None, {}, {'__setitem__': lambda s, k, v: None}, label='attributes'),
                      'nodeName': 'm', 'args': 'x' if has_args else ''},
                  {'postParse': lambda s, t: None}, label='macro')
        slf.f['arguments'] = args
        E.contracts['plasTeX:Macro.arguments'] = lambda s: args
        cnt = z3.BoolVal(kind == 2)

        def expected_steps():
            return z3.If(z3.And(cnt, z3.Not(starred.e)), z3.IntVal(1), z3.IntVal(0))

        def read(tex, parentNode=None, name=None, **k):
            # contract of readArgumentAndSource; the k-th call
            first_is_star = z3.And(str_e(name) == z3.StringVal('*modifier*'), reads.e == 0)
            E.prove('stepped-before-argument-is-read',
                    z3.Implies(z3.Not(first_is_star), z3.And(steps.e == expected_steps(), labelled.e == z3.BoolVal(kind != 0))))
            truth = SBool(E.fresh('value', z3.BoolSort()))
            starred.set(z3.If(reads.e == 0, z3.And(star0, truth._e), starred.e))
            reads.set(reads.e + 1)
            return (Opaque(None, {'truth': truth}, label='value'), '')
        reads = Cell(0, 'reads')
        tex = Obj(None, {}, {'readArgumentAndSource': read}, label='tex')

        def inv(c):
            pos = getattr(c.it, 'pos', z3.IntVal(0))
            cf = slf.f['counter']
            now_empty = z3.BoolVal(True) if cf is None or cf == '' and isinstance(cf, str) else z3.Length(str_e(cf)) == 0
            return [('reads', reads.e == pos),
                    ('before-first', z3.Implies(pos == 0, z3.And(steps.e == 0, z3.Not(labelled.e), z3.Not(starred.e)))),
                    ('after-first', z3.Implies(pos > 0, z3.And(steps.e == expected_steps(),
                                                               labelled.e == z3.BoolVal(kind != 0)))),
                    ('starred-means-star', z3.Implies(starred.e, star0)),
                    ('counter-cleared-only-by-star', z3.And(*(
                        [now_empty if kind == 1 else z3.BoolVal(cf is None)] if kind != 2 else [z3.If(starred.e, now_empty, str_e(cf) == counter._e)])))]
        mods = [steps, labelled, starred, reads]
        if kind >= 1:
            mods.append(Field(slf, 'counter', KStr))
        elif kind == 0:
            mods.append(KeepNone(slf, 'counter'))
        E.loops[('plasTeX:Macro.parse', 0)] = LoopSpec(inv, modifies=lambda c: mods, kind='for')
        hooks.callm(slf, 'parse', tex)
        E.cover('args' if has_args else 'noargs')
        if has_args:
            E.prove('stepped-exactly-once-unless-starred', steps.e == expected_steps())
            E.prove('label-target-set', labelled.e == z3.BoolVal(kind != 0))
        else:
            E.prove('no-arguments:stepped-once', steps.e == z3.If(cnt, z3.IntVal(1), z3.IntVal(0)))
            E.prove('no-arguments:label-target', labelled.e == z3.BoolVal(kind != 0))
    covers = ['args', 'noargs']


class KeepNone:
    """modifies clause for a field that can only be None or become ''."""
    def __init__(self, obj, name):
        self.obj, self.name, self.serial = obj, name, -1

    def dv_havoc(self):
        if hooks.cur().choose('cleared'):
            self.obj.f[self.name] = ''

    def dv_same(self, t):
        return isinstance(t, tuple) and t[:3] == ('field', id(self.obj), self.name)


class PostParse:
    name = 'Macro.postParse (when a number is attached)'
    proves = ('a number is attached iff the macro has a counter and its level is within sec-num-depth or it is not a '
              'section level; the number is the value of \\the<counter>')

    def run(self, E):
        M = plasTeX.Macro
        created = []

        def create(doc, name):
            created.append(name)
            o = Obj(None, {}, {}, label='element')
            o.f['expand'] = lambda tex: ('expansion of', name)
            return o
        has = E.choose('counter')
        counter = SStr(z3.String('counter')) if has else (None if E.choose('none') else '')
        if has:
            E.assume(z3.Length(counter._e) > 0)
        depth, level = SInt(z3.Int('secnumdepth')), SInt(z3.Int('level'))
        doc = Obj(None, {'config': {'document': {'sec-num-depth': depth}}}, {'createElement': create}, label='document')
        slf = Obj(M, {'counter': counter, 'ownerDocument': doc, 'level': level, 'attributes': {}},
                  {'set_captionName': lambda s, v: None}, label='macro')
        slf.f['config'] = {'document': {'sec-num-depth': depth}}
        E.contracts['plasTeX:Macro.config'] = lambda s: {'document': {'sec-num-depth': depth}}
        hooks.callm(slf, 'postParse', Obj(None, {}, label='tex'))
        ref = slf.f.get('ref')
        numbered = z3.And(z3.BoolVal(has), z3.Or(depth._e >= level._e, level._e > M.ENDSECTIONS_LEVEL))
        E.prove('numbered-iff-within-depth', numbered == z3.BoolVal(ref is not None))
        if ref is not None:
            E.prove('number-is-the-counter', str_e(ref[1]) == z3.Concat(z3.StringVal('the'), str_e(counter)))
        E.cover('ref' if ref is not None else 'noref')
    covers = ['ref', 'noref']


class ListCounters:
    name = 'List.invoke / List.item.invoke'
    proves = ('entering a list zeroes the item counters of its level and all deeper ones, leaving it those below the enclosing level, and no other; an item at depth d '
              'uses the counter of level d only: with Counter.stepcounter this gives 1, 2, 3 ... in every list, restarting '
              'in nested lists, for nesting depth 1..6')
    assumptions = ['Environment.invoke / Command.invoke by contract (they do not touch the item counters)', 'the lists around are those whose contexts are on the stack (C04)']

    def run(self, E):
        L = Lists.List
        names = L.counters
        E.prove('six-levels', len(names) >= 6 and len(set(names)) == len(names))
        vals = [SInt(z3.Int('v%d' % i)) for i in range(len(names))]
        objs = {n: Obj(plasTeX.Counter, {'value': v, 'name': n}, {'resetcounters': lambda s: None}, label=n)
                for n, v in zip(names, vals)}
        counters = Obj(None, {}, {'__getitem__': lambda s, k: objs[k]}, label='counters')
        # the open lists, with groups and other environments among them
        d = 0
        while d < 6 and E.choose('nested-%d' % (d + 1)):
            d += 1
        item = lambda o: Obj(None, {'obj': o}, label='context item')
        around = lambda: [item(None), item(Obj(plasTeX.Environment, {}, label='environment')), item(Obj(L.item, {}, label='outer item'))]
        stack = around()
        for i in range(d):
            stack = stack + [item(Obj(type('sublist', (L,), {}) if i % 2 else L, {}, label='list %d' % i))] + around()
        doc = Obj(None, {'context': Obj(None, {'counters': counters, 'contexts': stack}, label='context')}, label='document')
        d0 = z3.IntVal(d)
        used = []

        def step_outer(s, tex):
            used.append(s.f.get('counter'))
            return None
        E.contracts['plasTeX:Environment.invoke'] = lambda s, tex: None
        E.contracts['plasTeX:Macro.invoke'] = step_outer
        if E.choose('item'):
            if d < 1:
                return
            it = Obj(L.item, {'ownerDocument': doc}, label='item')
            hooks.callm(it, 'invoke', Obj(None, {}, label='tex'))
            c = hooks.attr(it, 'counter')
            E.prove('item-uses-counter-of-its-level', z3.Or(*[z3.And(d0 == i + 1, z3.BoolVal(c == n))
                                                             for i, n in enumerate(names)]))
            E.prove('item-position', hooks.cmp('==', hooks.attr(it, 'position'), SInt(objs[c].f['value']._e + 1))._e)
            for n, v in zip(names, vals):
                E.prove('item-leaves-counters', int_e(objs[n].f['value']) == v._e)
            E.cover('item')
            return
        end = E.choose('end')
        if d < 1 if end else d > 5:
            return
        slf = Obj(L, {'ownerDocument': doc, 'macroMode': L.MODE_END if end else L.MODE_BEGIN}, label='list')
        hooks.callm(slf, 'invoke', Obj(None, {}, label='tex'))
        d1 = z3.IntVal(d - 1)
        for i, n in enumerate(names):
            E.prove('level-%d-restarts' % (i + 1), z3.Implies(i >= (d1 if end else d0), int_e(objs[n].f['value']) == 0))
            E.prove('outer-level-kept-%d' % (i + 1), z3.Implies(i < (d1 if end else d0), int_e(objs[n].f['value']) == vals[i]._e))
        E.cover('end' if end else 'begin')
    covers = ['item', 'begin', 'end']


class NewCounter:
    name = 'Context.newcounter'
    proves = ('a new name gets a Counter with the given parent and initial value and a \\the macro with the given format '
              '(default: the counter itself); an existing counter is left alone; no other counter changes')

    def run(self, E):
        from plasTeX.Context import Context
        d = {}
        exists = E.choose('exists')
        old = Obj(plasTeX.Counter, {'value': SInt(z3.Int('old')), 'name': 'foo', 'resetby': None}, label='old')
        other = Obj(plasTeX.Counter, {'value': SInt(z3.Int('other')), 'name': 'bar', 'resetby': None}, label='other')
        d['bar'] = other
        if exists:
            d['foo'] = old
        made = []
        glob = []
        E.classes[type] = lambda name, bases, ns: made.append((name, bases, ns)) or ('class', name)
        ctx = Obj(Context, {'counters': d}, {'addGlobal': lambda s, k, v: glob.append((k, v))}, label='context')
        resetby = SStr(z3.String('resetby'))
        init = SInt(z3.Int('init'))
        fmt = None if E.choose('default-format') else SStr(z3.String('fmt'))
        hooks.callm(ctx, 'newcounter', 'foo', resetby, init, fmt, True)
        E.prove('others-kept', d['bar'] is other and int_e(other.f['value']) is not None and
                z3.eq(int_e(other.f['value']), z3.Int('other')) and set(d) == {'foo', 'bar'})
        if exists:
            E.prove('existing-kept', d['foo'] is old and not glob)
            E.cover('exists')
            return
        c = d['foo']
        E.prove('registered-under-its-name', hooks.attr(c, 'name') == 'foo')
        E.prove('parent', str_e(hooks.attr(c, 'resetby')) == resetby._e)
        E.prove('initial', int_e(hooks.attr(c, 'value')) == init._e)
        E.prove('registry-shared', hooks.attr(c, 'counters') is d)
        E.prove('the-macro', [g[0] for g in glob] == ['thefoo'] and len(made) == 1 and made[0][2]['trimLeft'] is True)
        E.prove('format', str_e(made[0][2]['format']) == (z3.StringVal('${foo}') if fmt is None else fmt._e))
        E.cover('new')
    covers = ['exists', 'new']


CONTRACTS = [NumToRoman, Representations, ResetCounters, StepSetAdd, MacroParse, PostParse, ListCounters, NewCounter]
