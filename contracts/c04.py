"""C04: contracts on the context stack (plasTeX.Context: frames, lookup, push, pop, insertion, category tables) for stacks of any
depth and frames of any content, and on the commands that open and close groups."""
import importlib

import z3

import plasTeX
from plasTeX import Macro, Environment, Command
from plasTeX.Context import Context, ContextItem
from plasTeX.TeX import TeX, ArgumentContext
from plasTeX.Tokenizer import Token, EscapeSequence
Text = importlib.import_module('plasTeX.Base.TeX.Text')
Prim = importlib.import_module('plasTeX.Base.TeX.Primitives')
Arrays = importlib.import_module('plasTeX.Base.LaTeX.Arrays')
Envs = importlib.import_module('plasTeX.Base.LaTeX.Environments')
Math = importlib.import_module('plasTeX.Base.LaTeX.Math')
from dv import hooks
from dv.core import LoopSpec, OutOfReach, cur
from dv.sym import Sym, SInt, SBool, SStr, SList, SRef, Obj, KInt, KStr, KBool, KRef, KOpt, RefSort, opt_sort, heap, heap0, const_fun, int_e, str_e, Field
from contracts.cats import WhichCode, Catcode

LEVEL = 'other'
I, B, S, Ref = z3.IntSort(), z3.BoolSort(), z3.StringSort(), RefSort
OptV = opt_sort(Ref)
OwnS = z3.ArraySort(S, OptV)
TypeOf = z3.Function('TypeOf', Ref, I)
IsArg = z3.Function('IsArgumentContext', Ref, B)
NameOf = z3.Function('NameOf', Ref, S)
Locals = z3.Function('Locals', Ref, OwnS)
Look = z3.Function('Look', Ref, S, OptV)
j = z3.Int('j')
C = 'plasTeX.Context:'


class TypeId(Sym):
    def __init__(self, e):
        self.e = e

    def dv_eq(self, o):
        return SBool(self.e == o.e) if isinstance(o, TypeId) else False

    dv_is = __eq__ = dv_eq
    __hash__ = None


class ObjRef(SRef):
    """a macro instance that opened a frame"""
    pycls = Macro
    consts = {'macroMode': KInt, 'nodeName': KStr, 'level': KInt}

    def dv_type(self):
        return TypeId(TypeOf(self._e))

    def dv_isinstance(self, c):
        if c is ArgumentContext:
            return SBool(IsArg(self._e))
        raise OutOfReach('isinstance of a macro instance')

    def m_locals(self):
        return OwnMap(Locals(self._e))


KObj = KRef(ObjRef)
ObjRef.consts['parentNode'] = KOpt(KObj)
OPTO = KOpt(KObj).sort


class OwnMap(Sym):
    def __init__(self, e):
        self.e = e


class ValRef(SRef):
    """a macro class"""
    consts = {}

    def dv_isinstance(self, c):
        return c is type


KVal = KRef(ValRef)


class _KOwn:
    sort = OwnS


KOwn = _KOwn()


def own(f):
    return z3.Select(heap('own', KOwn), f)


class FrameRef(SRef):
    """one ContextItem: its own entries, category table, owner and enclosing frame"""
    pycls = ContextItem
    fields = {}

    def dv_isinstance(self, c):
        return issubclass(ContextItem, c)

    def dv_getitem(self, k):
        if cur().getitem_by_contract:
            e = Look(self._e, str_e(k))
            if cur().branch(OptV.is_none(e)):
                raise KeyError('symbolic key')
            return ValRef(OptV.val(e))
        return hooks.call(ContextItem.__getitem__, self, k)

    def dv_setitem(self, k, v):
        E = cur()
        E.heap['own'] = z3.Store(heap('own', KOwn), self._e, z3.Store(own(self._e), str_e(k), OptV.some(KVal.unwrap(v))))
        E.touch(('heap', 'own'))

    def m_update(self, m):
        if not isinstance(m, OwnMap):
            raise OutOfReach('update with %r' % (m,))
        E = cur()
        E.prove('update#frame-was-empty', own(self._e) == EMPTY, 'callee-precondition')
        E.heap['own'] = z3.Store(heap('own', KOwn), self._e, m.e)

    def m_keys(self):
        return Keys(self._e)

    def m_pop(self, k, *d):
        E = cur()
        e = z3.Select(own(self._e), str_e(k))
        if not d and E.branch(OptV.is_none(e)):
            raise KeyError('symbolic key')
        E.heap['own'] = z3.Store(heap('own', KOwn), self._e, z3.Store(own(self._e), str_e(k), OptV.none))
        E.touch(('heap', 'own'))
        return None

    def s_owner(self, v):
        pass

    def dv_iter(self):
        raise OutOfReach('iteration over a frame')


class Keys(Sym):
    """keys() of a frame, by contract: the names lookup finds"""
    def __init__(self, f):
        self.f = f

    def dv_iter(self):
        return self

    def dv_aslist(self):
        return self

    def dv_snapshot(self):
        return self

    def dv_contains(self, k):
        return SBool(OptV.is_some(Look(self.f, str_e(k))))


KFrame = KRef(FrameRef)
FrameRef.fields = {'parent': KOpt(KFrame), 'obj': KOpt(KObj), 'categories': KRef(SRef), 'currentlabel': KRef(SRef)}
OPTF = KOpt(KFrame).sort
EMPTY = z3.K(S, OptV.none)


def obj_of(f):
    return z3.Select(heap('obj', KOpt(KObj)), f)


def parent_of(f):
    return z3.Select(heap('parent', KOpt(KFrame)), f)


def dict_models(E):
    """the built-in dict underneath a frame"""
    def get(f, k):
        e = z3.Select(own(f._e), str_e(k))
        if E.branch(OptV.is_none(e)):
            raise KeyError('symbolic key')
        return ValRef(OptV.val(e))
    E.models[dict.__getitem__] = get
    E.models[dict.__contains__] = lambda f, k: SBool(OptV.is_some(z3.Select(own(f._e), str_e(k))))
    E.getitem_by_contract = True


class Lookup:
    name = 'ContextItem lookup'
    proves = ('for frames of any content and chains of any length: item access, get and membership see the entry of the innermost frame '
              'that has one (by the own contract of the enclosing frame), and fail only if no frame has it')
    assumptions = ['the built-in dict underneath (external)']
    covers = ['found', 'missing', 'get', 'in']

    def run(self, E):
        dict_models(E)
        f, k = z3.Const('frame', Ref), z3.String('key')
        fr = FrameRef(f)
        p = parent_of(f)
        E.assume(z3.Implies(OPTF.is_some(p), OPTF.val(p) != f))
        o = z3.Select(own(f), k)
        E.assume(Look(f, k) == z3.If(OptV.is_some(o), o, z3.If(OPTF.is_some(p), Look(OPTF.val(p), k), OptV.none)))
        want = Look(f, k)
        if E.choose('get'):
            E.contracts[C + 'ContextItem.__getitem__'] = lambda s, key: s.dv_getitem(key)
            d = 'default'
            r = hooks.call(ContextItem.get, fr, SStr(k), d)
            E.cover('get')
            E.prove('get', z3.And(OptV.is_some(want), OptV.val(want) == r._e) if isinstance(r, ValRef) else z3.And(z3.BoolVal(r is d), OptV.is_none(want)))
        elif E.choose('in'):
            r = hooks.call(ContextItem.has_key, fr, SStr(k))
            E.cover('in')
            r = r._e if isinstance(r, SBool) else z3.BoolVal(bool(r))
            E.prove('in', r == OptV.is_some(want))
            E.prove('in#operator', z3.BoolVal(ContextItem.__contains__ is ContextItem.has_key))
        else:
            try:
                r = hooks.call(ContextItem.__getitem__, fr, SStr(k))
            except KeyError:
                E.cover('missing')
                E.prove('missing', OptV.is_none(want))
                return
            E.cover('found')
            E.prove('innermost', z3.And(OptV.is_some(want), OptV.val(want) == r._e))


class Stack:
    def stack(self, E, name='contexts', least=1):
        dict_models(E)
        l = SList.fresh(KFrame, name)
        E.assume(l.n() >= least)
        a, b = z3.Ints('a b')
        E.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < l.n()), l.at(a) != l.at(b))))
        # representation invariant: every frame is enclosed by the one below it
        E.assume(z3.ForAll([a], z3.Implies(z3.And(0 < a, a < l.n()), parent_of(l.at(a)) == OPTF.some(l.at(a - 1)))))
        E.created = []

        def new(*a):
            e = E.fresh('newframe', Ref)
            E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l0.n()), l0.at(j) != e)))
            for x in E.created:
                E.assume(x != e)
            E.created.append(e)
            E.heap['own'] = z3.Store(heap('own', KOwn), e, EMPTY)
            for n in ('parent', 'obj'):
                E.heap[n] = z3.Store(heap(n, FrameRef.fields[n]), e, FrameRef.fields[n].sort.none)
            return FrameRef(e)
        E.classes[ContextItem] = new
        l0 = l.dv_snapshot()
        ctx = Obj(Context, {'contexts': l}, {}, label='context')
        cats = z3.Select(heap('categories', KRef(SRef)), l.at(l.n() - 1))
        ctx.f.update({'top': FrameRef(l.at(l.n() - 1)), 'categories': SRef(cats), 'depth': SInt(l.n()), 'currentlabel': SRef(z3.Const('current-label', KRef(SRef).sort))})
        return ctx, l, l0

    def mapped(self, E, ctx, l, tag):
        """mapMethods: lookups go to the innermost frame, insertion to the outermost one"""
        f = ctx.f
        top = l.at(l.n() - 1)

        def bound(m, e, name):
            g = getattr(m, 'func', None) or getattr(m, '__func__', None)
            o = getattr(m, 'obj', None) or getattr(m, '__self__', None)
            if isinstance(o, FrameRef) and getattr(g, '__name__', name) in (name, name.strip('_')):
                return o._e == e
            return None
        E.prove(tag + '#top', f['top']._e == top)
        E.prove(tag + '#depth', int_e(f['depth']) == l.n())
        E.prove(tag + '#categories', f['categories']._e == z3.Select(heap('categories', KRef(SRef)), top))
        E.prove(tag + '#enclosing-frame', z3.Implies(l.n() > 1, parent_of(top) == OPTF.some(l.at(l.n() - 2))))
        b = bound(f.get('__getitem__'), top, '__getitem__')
        if b is not None:
            E.prove(tag + '#lookup', b)

    def prefix(self, E, l, l0, n, tag):
        E.prove(tag + '#depth-of-the-stack', l.n() == n)
        E.prove(tag + '#frames-below-kept', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), l.at(j) == l0.at(j))))


class Push(Stack):
    name = 'Context.push / createContext / mapMethods'
    proves = ('for stacks of any depth: push adds exactly one frame, with the macros local to its command and the category codes in force, '
              'enclosed by the frame that was innermost; lookups go to it; the frames below and their entries do not change')
    assumptions = ['not the document environment, whose start is checked by the bounded layer', 'logging (external)']
    covers = ['group', 'command']

    def run(self, E):
        ctx, l, l0 = self.stack(E)
        own0 = heap('own', KOwn)
        cats = ctx.f['categories']._e
        o = z3.Const('o', Ref)
        ob = None
        if E.choose('command'):
            ob = ObjRef(o)
            E.assume(const_fun('level', KInt)(o) != Context.DOCUMENT_LEVEL if hasattr(Context, 'DOCUMENT_LEVEL') else const_fun('level', KInt)(o) != Macro.DOCUMENT_LEVEL)
        hooks.callm(ctx, 'push', *([ob] if ob is not None else []))
        l = ctx.f['contexts']
        E.cover('command' if ob is not None else 'group')
        n = l0.n()
        E.prove('one-frame', l.n() == n + 1)
        E.prove('frames-below-kept', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
            l.at(j) == l0.at(j), own(l.at(j)) == z3.Select(own0, l0.at(j)),
            obj_of(l.at(j)) == z3.Select(heap0('obj', KOpt(KObj)), l0.at(j)), parent_of(l.at(j)) == z3.Select(heap0('parent', KOpt(KFrame)), l0.at(j)),
            z3.Select(heap('categories', KRef(SRef)), l.at(j)) == z3.Select(heap0('categories', KRef(SRef)), l0.at(j))))))
        top = l.at(n)
        E.prove('new-frame', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), l.at(j) != top)))
        E.prove('opened-by', obj_of(top) == (OPTO.some(o) if ob is not None else OPTO.none))
        E.prove('its-local-macros', own(top) == (Locals(o) if ob is not None else EMPTY))
        E.prove('category-codes-in-force', z3.Select(heap('categories', KRef(SRef)), top) == cats)
        self.mapped(E, ctx, l, 'push')


def closes(f, obj):
    """the frame was opened by the command that obj ends (Context.pop: itself, its \\begin, or \\foo for \\endfoo)"""
    o = OPTO.val(obj_of(f))
    end = z3.And(TypeOf(obj) == TypeOf(o), const_fun('macroMode', KInt)(obj) == Macro.MODE_END)
    return z3.And(OPTO.is_some(obj_of(f)), z3.Or(o == obj, z3.And(z3.Not(stays(f, obj)), z3.Or(
        end, const_fun('nodeName', KStr)(obj) == z3.Concat(z3.StringVal('end'), const_fun('nodeName', KStr)(o))))))


def stays(f, obj):
    """the frame belongs to the parent node of obj, which obj does not end"""
    p = const_fun('parentNode', KOpt(KObj))(obj)
    return z3.And(OPTO.is_some(obj_of(f)), OPTO.is_some(p), OPTO.val(obj_of(f)) == OPTO.val(p), OPTO.val(obj_of(f)) != obj)


class Pop(Stack):
    name = 'Context.pop'
    proves = ('for stacks of any depth and content: pop() removes everything down to and including the innermost group frame, pop(command) '
              'everything down to and including the frame that command closes, never the frame of its parent node and never the outermost '
              'frame; the frames below stay as they are and lookups go to the new innermost one')
    covers = ['group', 'command']
    engine = {'quick_ms': 300}

    def run(self, E):
        ctx, l, l0 = self.stack(E)
        o = z3.Const('o', Ref)
        ob = ObjRef(o) if E.choose('command') else None

        def stop(f):
            return OPTO.is_none(obj_of(f)) if ob is None else z3.Or(closes(f, o), stays(f, o))

        def inv(c):
            l = ctx.f['contexts']
            return [('at-least-one', z3.And(l.n() >= 1, l.n() <= l0.n())),
                    ('prefix', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.n()), l.at(j) == l0.at(j)))),
                    ('nothing-to-stop-at-removed', z3.ForAll([j], z3.Implies(z3.And(l.n() <= j, j < l0.n()), z3.Not(stop(l0.at(j))))))]
        for i in (0, 1):
            E.loops[(C + 'Context.pop', i)] = LoopSpec(inv, modifies=lambda c: [ctx.f['contexts']], kind='while', kinds={'o': KOpt(KObj)},
                                                       decreases=lambda c: ctx.f['contexts'].n())
        hooks.callm(ctx, 'pop', *([ob] if ob is not None else []))
        l = ctx.f['contexts']
        E.cover('command' if ob is not None else 'group')
        n = l.n()
        E.prove('outermost-frame-stays', n >= 1)
        E.prove('frames-below-kept', z3.And(n <= l0.n(), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), l.at(j) == l0.at(j)))))
        last = l0.at(n)
        if ob is None:
            E.prove('closes-the-innermost-group', z3.If(n < l0.n(), z3.And(z3.Or(stop(last), n == 1), z3.ForAll([j], z3.Implies(
                z3.And(n < j, j < l0.n()), z3.Not(stop(l0.at(j)))))), l0.n() == 1))
        else:
            E.prove('closes-its-own-frame', z3.Or(
                z3.And(n < l0.n(), closes(last, o), z3.ForAll([j], z3.Implies(z3.And(n < j, j < l0.n()), z3.Not(stop(l0.at(j)))))),
                z3.And(z3.Or(n == 1, stays(l0.at(n - 1), o)), z3.ForAll([j], z3.Implies(z3.And(n <= j, j < l0.n()), z3.Not(stop(l0.at(j))))))))
        self.mapped(E, ctx, l, 'pop')


class Balanced(Stack):
    name = 'push and pop balance'
    proves = ('for stacks of any depth: what a group, a command or a macro argument pushes is removed again by its pop, also when frames '
              'were left open inside (of commands: whatever they are; of groups: frames of commands), and entries and category codes of '
              'the frames below are untouched')
    assumptions = ['frames left open inside a command are not those of its parent node, nor closed by it']
    covers = ['group', 'command', 'argument']
    engine = {'quick_ms': 300}

    def run(self, E):
        ctx, l, l0 = self.stack(E, least=2)
        o = z3.Const('o', Ref)
        kind = 'group' if E.choose('group') else 'command' if E.choose('command') else 'argument'
        p = z3.Int('p')            # where its frame is
        E.assume(z3.And(1 <= p, p < l0.n()))
        if kind == 'group':
            E.assume(OPTO.is_none(obj_of(l0.at(p))))
            E.assume(z3.ForAll([j], z3.Implies(z3.And(p < j, j < l0.n()), OPTO.is_some(obj_of(l0.at(j))))))
            stop = lambda f: OPTO.is_none(obj_of(f))
        else:
            E.assume(obj_of(l0.at(p)) == OPTO.some(o))
            stop = lambda f: z3.Or(closes(f, o), stays(f, o))
            if kind == 'argument':
                # the class made for arguments: its instances have no parent and end nothing
                E.prove('argument-frames', z3.BoolVal(ArgumentContext.macroMode != Macro.MODE_END and ArgumentContext().parentNode is None
                                                      and not ArgumentContext().nodeName.startswith('end')))
                E.assume(z3.And(OPTO.is_none(const_fun('parentNode', KOpt(KObj))(o)), const_fun('macroMode', KInt)(o) != Macro.MODE_END,
                                z3.Not(z3.PrefixOf(z3.StringVal('end'), const_fun('nodeName', KStr)(o)))))
                E.assume(z3.ForAll([j], z3.Implies(z3.And(p < j, j < l0.n()), obj_of(l0.at(j)) != OPTO.some(o))))
            else:
                E.assume(z3.ForAll([j], z3.Implies(z3.And(p < j, j < l0.n()), z3.Not(stop(l0.at(j))))))

        def inv(c):
            l = ctx.f['contexts']
            return [('at-least-one', z3.And(l.n() > p, l.n() <= l0.n())),
                    ('prefix', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.n()), l.at(j) == l0.at(j))))]
        for i in (0, 1):
            E.loops[(C + 'Context.pop', i)] = LoopSpec(inv, modifies=lambda c: [ctx.f['contexts']], kind='while', kinds={'o': KOpt(KObj)})
        if kind == 'argument':
            sub = Obj(TeX, {'_endcontext': ObjRef(o), 'ownerDocument': Obj(None, {'context': ctx}, {}, label='document')}, {}, label='subprocess')
            hooks.callm(sub, 'endSubProcess')
        else:
            hooks.callm(ctx, 'pop', *([] if kind == 'group' else [ObjRef(o)]))
        E.cover(kind)
        self.prefix(E, ctx.f['contexts'], l0, p, kind)
        E.prove(kind + '#entries-below-untouched', z3.BoolVal('own' not in E.heap or E.heap['own'].eq(heap0('own', KOwn))))


class Insert(Stack):
    name = 'Context.addLocal / addGlobal / let / newdef / chardef / removeLocals'
    proves = ('for stacks of any depth and frames of any content: local definitions (addLocal, \\let, \\def, \\chardef) change the entry of that '
              'name in the innermost frame, addGlobal in the outermost one, and nothing else; global ones (\\global, \\gdef) put the meaning into '
              'the outermost frame and remove the entry of the name from every other one, so that all lookups find it, and change nothing else')
    assumptions = ['ismacro holds of macro classes; macroName is a function of the class', 'the built-in dict underneath (external)',
                   'type() makes a new class of the given name (external)']
    covers = ['local', 'global', 'let', 'let-global', 'def', 'def-global', 'chardef', 'chardef-global']

    def run(self, E):
        ctx, l, l0 = self.stack(E)
        v, x = z3.Const('v', Ref), z3.Const('x', Ref)
        k = z3.String('k')
        E.contracts['plasTeX:ismacro'] = lambda o: True
        E.contracts['plasTeX:macroName'] = lambda o: SStr(NameOf(o._e))
        E.heap['own'] = own0 = heap('own', KOwn)

        def new(name, bases, d):
            E.prove('class-name', str_e(name) == k)
            E.assume(NameOf(v) == k)
            return ValRef(v)
        E.classes[type] = new
        what = None
        for w in self.covers:
            if what is None and (w == self.covers[-1] or E.choose(w)):
                what = w
        glob = what.endswith('-global')
        name, value, frame = NameOf(v), v, l0.at(l0.n() - 1)

        def inv(c):
            # the entries of frames 1 .. pos are gone
            h = heap('own', KOwn)
            i = z3.Int('i')
            return [('removed', z3.ForAll([i], z3.Implies(z3.And(1 <= i, i <= c.it.pos), z3.Select(h, l0.at(i)) == z3.Store(z3.Select(own0, l0.at(i)), rm, OptV.none)))),
                    ('others', z3.ForAll([y], z3.Implies(z3.ForAll([i], z3.Implies(z3.And(1 <= i, i <= c.it.pos), y != l0.at(i))),
                                                         z3.Select(h, y) == z3.Select(own0, y))))]
        y = z3.Const('y', Ref)
        rm = k
        for q in ('newdef', 'removeLocals'):
            E.loops[(C + 'Context.' + q, 0)] = LoopSpec(inv, kinds={'context': KFrame}, modifies=lambda c: [('heap', 'own')], kind='for')
        kw = {'local': False} if glob else {}
        if what.startswith('let'):
            rm = z3.StringVal('dest')
            E.assume(OptV.is_some(Look(frame, z3.StringVal('src'))))
            value, name = OptV.val(Look(frame, z3.StringVal('src'))), z3.StringVal('dest')
            ctx.methods['__getitem__'] = lambda o, key: ctx.f['top'].dv_getitem(key)
            hooks.callm(ctx, 'let', EscapeSequence('dest'), EscapeSequence('src'), **kw)
        elif what.startswith('def'):
            hooks.callm(ctx, 'newdef', SStr(k), [], [], **kw)
        elif what.startswith('chardef'):
            hooks.callm(ctx, 'chardef', SStr(k), 65, **kw)
        else:
            hooks.callm(ctx, 'addLocal' if what == 'local' else 'addGlobal', SStr(k), ValRef(v))
        if what == 'global' or glob:
            frame = l0.at(z3.IntVal(0))
        E.cover(what)
        E.prove(what + '#entry', own(frame) == z3.Store(z3.Select(own0, frame), name, OptV.some(value)))
        i = z3.Int('m')
        if glob:
            inner = z3.Exists([i], z3.And(1 <= i, i < l0.n(), x == l0.at(i)))
            m = E.fresh('m', I)
            E.assume(z3.Implies(z3.And(1 <= m, m < l0.n()), l0.at(m) != l0.at(0)))       # instance of the frames being distinct
            E.prove(what + '#local-entries-removed', z3.Implies(z3.And(1 <= m, m < l0.n()),
                    own(l0.at(m)) == z3.Store(z3.Select(own0, l0.at(m)), name, OptV.none)))
        else:
            inner = z3.BoolVal(False)
        E.prove(what + '#nothing-else', z3.Implies(z3.And(x != frame, z3.Not(inner)), own(x) == z3.Select(own0, x)))
        self.prefix(E, ctx.f['contexts'], l0, l0.n(), what)


class Trace:
    """Which frames a command opens and closes, in which order, by the contracts of push and pop."""
    def world(self, E):
        log = []

        def rec(n):
            def f(o, *a, **k):
                log.append((n,) + a)
            return f
        ctx = Obj(Context, {'contexts': SList([]), '_currenvir': ['env']}, {n: rec(n) for n in ('push', 'pop', 'append', 'setVerbatimCatcodes')}, label='context')
        doc = Obj(None, {'context': ctx}, {'createElement': lambda o, n: ('element', n)}, label='document')
        return log, ctx, doc


MATH, DISPLAY, MODE_END = 1, 2, Macro.MODE_END


class Formula(ObjRef):
    """an element made by the math commands; what they set on it is recorded"""
    consts = dict(ObjRef.consts, mathShift=KBool)

    def s_mathShift(self, v):
        self.log().append(('mathShift', v))

    def s_macroMode(self, v):
        self.log().append(('mode', v))

    def log(self):
        return cur().formula_log

    def dv_attr(self, n):
        if n in ('tagName', 'nodeName'):
            return 'math'
        return super().dv_attr(n)


Frame2 = type('Frame2', (FrameRef,), {})
Frame2.fields = dict(FrameRef.fields, obj=KOpt(KRef(Formula)))
KFrame2 = KRef(Frame2)


class MathShift:
    name = 'MathShift.invoke'
    proves = ('for stacks of any depth: $ ends the formula that is open above the innermost group or macro argument, and no other; otherwise '
              'it starts one. Inside $...$ it reads nothing, elsewhere the next token is consumed exactly if it is another $, which makes '
              'the formula a displayed one; the frame opened is that of the element returned')
    assumptions = ['push and pop by their own contracts', 'createElement returns a new element of the named class (external: dynamic classes)',
                   'itertokens and pushToken by contract (property C01)']
    covers = ['starts', 'ends', 'starts-display', 'ends-display']

    def run(self, E):
        from dv.tokens import Stream, catcode as tokcat
        l = SList.fresh(KFrame2, 'contexts')
        E.assume(l.n() >= 1)
        log = E.formula_log = []
        shift = const_fun('mathShift', KBool)
        st = Stream(E)
        E.models[id] = lambda o: 0         # only logged

        def f(i):
            return obj_of(l.at(i))

        def barrier(i):
            return z3.Or(OPTO.is_none(f(i)), IsArg(OPTO.val(f(i))))
        made = []

        def create(o, name):
            e = E.fresh('formula_' + str(name), Ref)
            E.assume(TypeOf(e) == (MATH if name == 'math' else DISPLAY))
            made.append(name)
            return Formula(e)
        ctx = Obj(Context, {'contexts': l}, {'push': lambda o, *a: log.append(('push',) + a), 'pop': lambda o, *a: log.append(('pop',) + a)}, label='context')
        doc = Obj(None, {'context': ctx}, {'createElement': create}, label='document')
        tex = Obj(TeX, {}, {'itertokens': lambda o: st.iter(), 'pushToken': lambda o, t: st.unread(t)}, label='tex')

        def inv(c):
            return [('no-formula-above-and-no-barrier', z3.And(z3.BoolVal(c.current is None), z3.ForAll([j], z3.Implies(
                z3.And(l.n() - c.it.pos <= j, j < l.n()), z3.And(z3.Not(barrier(j)), z3.Not(shift(OPTO.val(f(j)))))))))]
        E.loops[('plasTeX.Base.TeX.Primitives:MathShift.invoke', 0)] = LoopSpec(inv, kinds={'current': KOpt(KRef(Formula)), 'item': KFrame2})
        n = Obj(Prim.MathShift, {'ownerDocument': doc}, {}, label='command')
        r = hooks.callm(n, 'invoke', tex)
        k = z3.Int('k')
        above = z3.ForAll([j], z3.Implies(z3.And(k < j, j < l.n()), z3.And(z3.Not(barrier(j)), z3.Not(shift(OPTO.val(f(j)))))))
        # k: the frame at which the search ends, -1 for none
        E.assume(z3.And(-1 <= k, k < l.n(), above, z3.Implies(k >= 0, z3.Or(barrier(k), shift(OPTO.val(f(k)))))))
        inside = z3.And(k >= 0, z3.Not(barrier(k)))
        kind = TypeOf(OPTO.val(f(k)))
        r = list(r)
        E.prove('one-element', z3.BoolVal(len(r) == 1 and isinstance(r[0], Formula)))
        new = r[0]
        T0 = tokcat(st.T(0)) == Token.CC_MATHSHIFT
        dollar = z3.And(st.N > 0, T0)
        inmath = z3.And(inside, kind == MATH)
        E.prove('reads-another-dollar-only-outside', st.pos == z3.If(z3.And(z3.Not(inmath), dollar), 1, 0))
        E.prove('displayed-iff-two', TypeOf(new._e) == z3.If(z3.And(z3.Not(inmath), dollar), DISPLAY, MATH))
        ends = z3.And(inside, kind == TypeOf(new._e))
        opened = [x for x in log if x[0] in ('push', 'pop')]
        E.prove('frame', z3.BoolVal(len(opened) == 1 and isinstance(opened[0][1], Formula) and opened[0][1]._e.eq(new._e)))
        if opened[0][0] == 'pop':
            E.cover('ends' if made[-1] == 'math' else 'ends-display')
            E.prove('ends', z3.And(ends, z3.BoolVal(('mode', MODE_END) in log)))
        else:
            E.cover('starts' if made[-1] == 'math' else 'starts-display')
            E.prove('starts', z3.And(z3.Not(ends), z3.BoolVal(('mathShift', True) in log)))



class Openers(Trace):
    name = 'commands and groups'
    proves = ('{ and \\begingroup open one group, } and \\endgroup close one; a command opens its frame before and closes it after reading its '
              'arguments; \\begin{...} opens a frame in front of the arguments and leaves it open, \\end{...} closes it; cells and rows close '
              'the group of the cell before and open the next one; an array opens its cell group behind its own frame and closes both')
    assumptions = ['push and pop by their own contracts, argument reading by contract (property C05)']
    covers = ['groups', 'command', 'begin', 'end', 'environment', 'cells', 'array']

    def run(self, E):
        log, ctx, doc = self.world(E)

        def node(cls, mode=Macro.MODE_NONE, **f):
            d = {'macroMode': mode, 'ownerDocument': doc, 'parentNode': None, 'attributes': {}}
            d.update(f)
            return Obj(cls, d, {'parse': lambda o, tex: log.append(('parse',)) or {}, 'setLinkType': lambda o, *a: None}, label='command')
        tex = Obj(None, {'ownerDocument': doc}, {'textTokens': lambda o, s: SList(list(s))}, label='tex')

        def go(n):
            hooks.callm(n, 'invoke', tex)
            return log
        pick = []

        def ch(name):
            return not pick and E.choose(name) and (pick.append(name) or True)
        if ch('groups'):
            for cls, want in ((Text.bgroup, 'push'), (Text.begingroup, 'push'), (Text.egroup, 'pop'), (Text.endgroup, 'pop')):
                del log[:]
                E.prove('group#' + cls.__name__, z3.BoolVal(go(node(cls)) == [(want,)]))
            E.cover('groups')
        elif ch('command'):
            for mode, want in ((Macro.MODE_NONE, 'none'), (Macro.MODE_BEGIN, 'begin'), (Macro.MODE_END, 'end')):
                n = node(Command, mode)
                del log[:]
                go(n)
                w = {'none': [('push', n), ('parse',), ('pop', n)], 'begin': [('push', n), ('parse',)], 'end': [('pop', n)]}[want]
                E.prove('command#' + want, z3.BoolVal(log == w))
                E.cover({'none': 'command'}.get(want, want))
        elif ch('environment'):
            for s in (None, 'x'):
                n = node(type('env', (Environment,), {'str': s}))
                del log[:]
                E.prove('environment#begin', z3.BoolVal(go(n) == [('push', n), ('parse',)]))
                n = node(type('env', (Environment,), {'str': s}), Macro.MODE_END)
                del log[:]
                E.prove('environment#end', z3.BoolVal(go(n) == [('pop', n)]))
            E.cover('environment')
        elif ch('cells'):
            n = node(Arrays.Array.CellDelimiter)
            E.prove('cell', z3.BoolVal(go(n) == [('pop',), ('push',)]))
            for cls in (Arrays.Array.EndRow, Arrays.Array.cr, Arrays.Array.tabularnewline):
                n = node(cls)
                del log[:]
                go(n)
                E.prove('row', z3.BoolVal([x for x in log if x != ('parse',)] == [('pop',), ('push',)]))
            E.cover('cells')
        else:
            n = node(Arrays.Array, Macro.MODE_NONE)
            try:
                go(n)
            except AttributeError:
                raise OutOfReach('Array.invoke')
            frames = [x for x in log if x[0] in ('push', 'pop')]
            E.prove('array#begin', z3.BoolVal(frames == [('push', n), ('push',)]))
            n = node(Arrays.Array, Macro.MODE_END)
            del log[:]
            go(n)
            frames = [x for x in log if x[0] in ('push', 'pop')]
            E.prove('array#end', z3.BoolVal(frames in ([('pop',), ('pop', n)], [('pop', n)])))
            E.cover('array')



class MathCommands(Trace):
    name = '\\( \\) \\[ \\] \\begin \\end'
    proves = ('\\( and \\[ open the frame of the element they return, \\) and \\] close that of the matching kind; \\begin and \\end hand over '
              'to the command of the environment, in the mode that opens and closes its frame')
    assumptions = ['createElement by contract', 'push and pop by their own contracts']
    covers = ['math', 'begin', 'end']

    def run(self, E):
        log, ctx, doc = self.world(E)
        seen = []

        def create(o, name):
            n = Obj(Macro, {'name': name, 'macroMode': Macro.MODE_NONE, 'parentNode': None},
                    {'invoke': lambda o, tex: seen.append((name, o.f['macroMode'], o.f['parentNode']))}, label='element')
            return n
        doc.methods['createElement'] = create
        if E.choose('math'):
            for cls, what, mode in ((Math.BeginMath, 'math', Macro.MODE_BEGIN), (Math.EndMath, 'math', Macro.MODE_END),
                                    (Math.BeginDisplayMath, 'displaymath', Macro.MODE_BEGIN), (Math.EndDisplayMath, 'displaymath', Macro.MODE_END)):
                del log[:]
                r = list(hooks.callm(Obj(cls, {'ownerDocument': doc, 'disableMath': False}, {}, label='command'), 'invoke', None))
                E.prove(cls.__name__, z3.BoolVal(len(r) == 1 and r[0].f['name'] == what and r[0].f['macroMode'] == mode
                                                 and log == [('push' if mode == Macro.MODE_BEGIN else 'pop', r[0])]))
            E.cover('math')
            return
        x = z3.String('x')
        tex = Obj(None, {}, {'readArgument': lambda o, **k: SStr(x), 'textTokens': lambda o, s: s}, label='tex')
        cls, mode = (Envs.begin, Macro.MODE_BEGIN) if E.choose('begin') else (Envs.end, Macro.MODE_END)
        hooks.callm(Obj(cls, {'ownerDocument': doc, 'parentNode': 'parent'}, {}, label='command'), 'invoke', tex)
        E.cover(cls.__name__)
        E.prove(cls.__name__, z3.BoolVal(len(seen) == 1 and seen[0][1] == mode and isinstance(seen[0][0], SStr) and seen[0][0]._e.eq(x) and not log))


class GlobalPrefix(Trace):
    name = 'global_.invoke / DefCommand / let / chardef'
    proves = ('for every token list: \\global skips blanks and further prefixes only, executes the definition that follows exactly once, as a '
              'global one, and puts any other token back; \\def, \\let and \\chardef hand their locality to the context unchanged')
    assumptions = ['createElement by contract', 'itertokens and pushToken by contract (property C01)', 'argument reading by contract (property C05)']
    covers = ['definition', 'other', 'end', 'handed-over']

    def run(self, E):
        from dv.tokens import Stream, TokRef, KT, catcode as tokcat, macroname
        log, ctx, doc = self.world(E)
        if E.choose('handed-over'):
            for cls, meth in ((Prim.def_, 'newdef'), (Prim.gdef, 'newdef'), (Prim.let, 'let'), (Prim.chardef, 'chardef'), (Prim.mathchardef, 'mathchardef')):
                for loc in (True, False):
                    got = []
                    ctx.methods[meth] = lambda o, *a, **k: got.append((a, k.get('local', True)))
                    a = {'name': EscapeSequence('a'), 'value': EscapeSequence('b'), 'args': [], 'definition': 'D', 'command': 'a', 'num': 65}
                    n = Obj(cls, {'ownerDocument': doc, 'attributes': a, 'local': loc}, {'parse': lambda o, tex: a}, label='command')
                    hooks.callm(n, 'invoke', None)
                    E.prove('locality', z3.BoolVal(len(got) == 1 and got[0][1] == loc))
            E.prove('defaults', z3.BoolVal(Prim.def_.local and Prim.edef.local and Prim.let.local and Prim.chardef.local and not Prim.gdef.local and not Prim.xdef.local))
            E.cover('handed-over')
            return
        s = Stream(E)
        key = 'plasTeX.Base.TeX.Primitives:global_.invoke'
        skipped = lambda i: z3.Or(tokcat(s.T(i)) == Token.CC_SPACE, z3.And(tokcat(s.T(i)) == Token.CC_ESCAPE, z3.Or(*[
            macroname(s.T(i)) == z3.StringVal(x) for x in ('global', 'long', 'outer', 'protected', 'relax')])))
        one = []
        done = []
        kinds = {}

        def create(o, name):
            cls = None
            for c in (Prim.def_, Prim.let, Prim.chardef, Prim.mathchardef, Prim.expandafter):
                if E.choose(c.__name__):
                    cls = c
                    break
            n = Obj(cls or Command, {'local': True, 'nm': name}, {'invoke': lambda o, tex: done.append((o, o.f['local'])), 'locals': lambda o: {}}, label='element')
            kinds[id(n)] = cls
            one.append(n)
            return n
        doc.methods['createElement'] = create

        def pushes(o, ts):
            s.dv_havoc()
        tex = Obj(TeX, {}, {'itertokens': lambda o: s.iter(), 'pushToken': lambda o, t: s.unread(t), 'pushTokens': pushes}, label='tex')
        j = z3.Int('j')
        plain = z3.Bool('no_expandafter')
        E.loops[(key, 0)] = LoopSpec(lambda c: [], kinds={'tok': KT}, modifies=lambda c: [s], kind='for')
        n = Obj(Prim.global_, {'ownerDocument': doc}, {}, label='command')
        r = hooks.callm(n, 'invoke', tex)
        r = list(r) if r is not None else []
        last = one[-1] if one else None
        if last is not None and kinds[id(last)] not in (None, Prim.expandafter):
            E.cover('definition')
            E.prove('executed-once-and-globally', z3.BoolVal(done == [(last, False)] and any(x is last for x in r)))
            E.prove('name', last.f['nm']._e == macroname(s.T(s.pos - 1)))
        else:
            d = [x for x in done if kinds[id(x[0])] is not Prim.expandafter]
            E.cover('end' if last is None else 'other')
            E.prove('nothing-executed', z3.BoolVal(not d))
            E.prove('next-token-kept', z3.Implies(s.pos < s.N, z3.Not(skipped(s.pos))))


class SubProcess(Trace):
    name = 'TeX.createSubProcess / expandTokens'
    proves = 'the frame opened for a macro argument is the one closed after it, on return from expanding it'
    assumptions = ['parse by contract (leaves frames of its own only above)', 'push and pop by their own contracts']
    covers = ['argument']

    def run(self, E):
        log, ctx, doc = self.world(E)
        frag = Obj(None, {'parentNode': None}, {'normalize': lambda o, *a: None}, label='fragment')
        doc.methods['createDocumentFragment'] = lambda o: frag
        E.classes[TeX] = lambda *a, **k: Obj(TeX, {'ownerDocument': doc}, {'pushTokens': lambda o, t: log.append(('tokens', t)),
                                                                          'parse': lambda o, f: log.append(('parse', f)) or f}, label='subprocess')
        toks = SList(['t'])
        r = hooks.callm(Obj(TeX, {'ownerDocument': doc}, {}, label='tex'), 'expandTokens', toks)
        E.cover('argument')
        E.prove('balanced', z3.BoolVal([x[0] for x in log] == ['push', 'tokens', 'parse', 'pop'] and log[0][1] is log[3][1]
                                       and isinstance(log[0][1], ArgumentContext)))
        E.prove('expands-these-tokens', z3.BoolVal(log[1][1] is toks and r is frag))


CONTRACTS = [Lookup, Push, Pop, Balanced, Insert, Openers, MathShift, MathCommands, GlobalPrefix, SubProcess, WhichCode, Catcode]
