"""Symbolic values."""
import fractions

import z3

from dv.core import cur, OutOfReach, STOP, to_z3bool

RefSort = z3.DeclareSort('Ref')
Int, Bool, Str, Real = z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.RealSort()


class Sym:
    """Base of all symbolic proxies."""
    __slots__ = ()

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('dv_') or name == 'symbolic':
            raise AttributeError(name)
        raise OutOfReach('attribute %r of %s' % (name, type(self).__name__))


class SExpr(Sym):
    __slots__ = ('_e',)

    def __init__(self, e):
        self._e = e

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, str(self._e)[:80])

    def __hash__(self):
        raise OutOfReach('hash of a symbolic value')


def int_e(v):
    if isinstance(v, SInt):
        return v._e
    if isinstance(v, SBool):
        return z3.If(v._e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(int(v))
    raise OutOfReach('integer expected, got %r' % type(v))


def is_intlike(v):
    return isinstance(v, (SInt, SBool, int))


class SInt(SExpr):
    __slots__ = ()

    def __bool__(self):
        return cur().branch(self._e != 0)

    def __index__(self):
        v = z3.simplify(self._e)
        if z3.is_int_value(v):
            return v.as_long()
        raise OutOfReach('concrete integer needed')

    __int__ = __index__

    def __neg__(self):
        return SInt(-self._e)

    def __eq__(self, o):
        return SBool(self._e == int_e(o)) if is_intlike(o) else False

    def __ne__(self, o):
        return SBool(self._e != int_e(o)) if is_intlike(o) else True

    __hash__ = SExpr.__hash__


class SReal(SExpr):
    __slots__ = ()

    def __bool__(self):
        return cur().branch(self._e != 0)

    def __neg__(self):
        return SReal(-self._e)

    def __eq__(self, o):
        return SBool(self._e == real_e(o))

    __hash__ = SExpr.__hash__


def real_e(v):
    if isinstance(v, SReal):
        return v._e
    if isinstance(v, float):
        f = fractions.Fraction(v)
        return z3.Q(f.numerator, f.denominator)
    if isinstance(v, fractions.Fraction):
        return z3.Q(v.numerator, v.denominator)
    return z3.ToReal(int_e(v))


class SBool(SExpr):
    __slots__ = ()

    def __bool__(self):
        return cur().branch(self._e)

    def __invert__(self):
        return SBool(z3.Not(self._e))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(self._e == to_z3bool(o))
        if is_intlike(o):
            return SBool(int_e(self) == int_e(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r._e))

    __hash__ = SExpr.__hash__


def str_e(v):
    if isinstance(v, SStr):
        return v._e
    if isinstance(v, str):
        return z3.StringVal(esc(str.__str__(v)))
    raise OutOfReach('string expected, got %r' % type(v))


def esc(s):
    out = []
    for c in s:
        o = ord(c)
        if 32 <= o < 127 and c != '\\':
            out.append(c)
        else:
            out.append('\\u{%x}' % o)
    return ''.join(out)


def replace_all(s, a, b):
    ctx = s.ctx_ref()
    return z3.SeqRef(z3.Z3_mk_seq_replace_all(ctx, s.as_ast(), a.as_ast(), b.as_ast()), s.ctx)


class SStr(SExpr):
    __slots__ = ()

    def __bool__(self):
        return cur().branch(z3.Length(self._e) > 0)

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return SBool(self._e == str_e(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return True if r is False else SBool(z3.Not(r._e))

    __hash__ = SExpr.__hash__

    def dv_len(self):
        return SInt(z3.Length(self._e))

    def dv_contains(self, o):
        return SBool(z3.Contains(self._e, str_e(o)))

    def dv_getitem(self, i):
        E = cur()
        n = z3.Length(self._e)
        if isinstance(i, slice):
            if i.step is not None:
                raise OutOfReach('string slice step')
            lo = clamp(i.start, n, z3.IntVal(0))
            hi = clamp(i.stop, n, n)
            ln = z3.If(hi > lo, hi - lo, z3.IntVal(0))
            return SStr(z3.SubString(self._e, lo, ln))
        k = int_e(i)
        if E.branch(k < 0):
            k = k + n
        if E.branch(z3.Or(k < 0, k >= n)):
            raise IndexError('string index out of range')
        return SStr(z3.SubString(self._e, k, z3.IntVal(1)))

    def startswith(self, p):
        if isinstance(p, tuple):
            return SBool(z3.Or([z3.PrefixOf(str_e(x), self._e) for x in p]))
        return SBool(z3.PrefixOf(str_e(p), self._e))

    def endswith(self, p):
        return SBool(z3.SuffixOf(str_e(p), self._e))

    def replace(self, a, b):
        return SStr(replace_all(self._e, str_e(a), str_e(b)))

    def find(self, a):
        return SInt(z3.IndexOf(self._e, str_e(a), z3.IntVal(0)))

    def strip(self, chars=None):
        raise OutOfReach('str.strip')

    def lower(self):
        return SStr(map_case(self._e, 'lower'))

    def upper(self):
        return SStr(map_case(self._e, 'upper'))

    def dv_iter(self):
        raise OutOfReach('iteration over a symbolic string')


def map_case(e, how):
    """Case mapping distributed over concatenations of literals and repetitions."""
    if z3.is_string_value(e):
        v = z3_str(e)
        return z3.StringVal(esc(getattr(v, how)()))
    d = e.decl()
    if d.kind() == z3.Z3_OP_SEQ_CONCAT:
        return z3.Concat(*[map_case(c, how) for c in e.children()])
    if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name().startswith('rep_'):
        lit = bytes.fromhex(d.name()[4:]).decode('latin-1')
        from dv import hooks
        return hooks.str_repeat(getattr(lit, how)(), SInt(e.arg(0)))._e
    if d.kind() == z3.Z3_OP_ITE:
        return z3.If(e.arg(0), map_case(e.arg(1), how), map_case(e.arg(2), how))
    raise OutOfReach('str.%s of a symbolic string' % how)


def z3_str(e):
    import re as _re
    return _re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), e.as_string())


def clamp(i, n, default):
    if i is None:
        return default
    k = int_e(i)
    k = z3.If(k < 0, k + n, k)
    return z3.If(k < 0, z3.IntVal(0), z3.If(k > n, n, k))


# ------------------------------------------------------------------- kinds

class Kind:
    def fresh(self, name):
        return self.wrap(cur().fresh(name, self.sort))

    def array(self, name):
        return cur().fresh(name, z3.ArraySort(Int, self.sort))


class _KInt(Kind):
    sort = Int
    def wrap(self, e): return SInt(e)
    def unwrap(self, v): return int_e(v)
KInt = _KInt()


class _KBool(Kind):
    sort = Bool
    def wrap(self, e): return SBool(e)
    def unwrap(self, v):
        if isinstance(v, (bool, SBool)):
            return to_z3bool(v)
        raise OutOfReach('bool expected')
KBool = _KBool()


class _KStr(Kind):
    sort = Str
    def wrap(self, e): return SStr(e)
    def unwrap(self, v): return str_e(v)
KStr = _KStr()


class _KReal(Kind):
    sort = Real
    def wrap(self, e): return SReal(e)
    def unwrap(self, v): return real_e(v)
KReal = _KReal()


_opt = {}


def opt_sort(s):
    k = s.name() if hasattr(s, 'name') else str(s)
    if k not in _opt:
        d = z3.Datatype('Opt_' + str(k))
        d.declare('none')
        d.declare('some', ('val', s))
        _opt[k] = d.create()
    return _opt[k]


class KOpt(Kind):
    """None or a value of the inner kind; reading it forks the path."""
    def __init__(self, inner):
        self.inner = inner
        self.sort = opt_sort(inner.sort)

    def wrap(self, e):
        if cur().branch(self.sort.is_none(e)):
            return None
        return self.inner.wrap(self.sort.val(e))

    def unwrap(self, v):
        if v is None:
            return self.sort.none
        return self.sort.some(self.inner.unwrap(v))


class KRef(Kind):
    sort = RefSort

    def __init__(self, model):
        self.model = model

    def wrap(self, e):
        return self.model(e)

    def unwrap(self, v):
        if isinstance(v, SRef):
            return v._e
        lift = getattr(self.model, 'dv_lift', None)
        if lift is not None:
            return lift(v)
        raise OutOfReach('reference expected, got %r' % type(v))


class SOpaque(SExpr):
    """A value the code only passes around: equality, and `literal in value` through predicates."""
    __slots__ = ('kind',)

    def __init__(self, e, kind):
        SExpr.__init__(self, e)
        object.__setattr__(self, 'kind', kind)

    def __eq__(self, o):
        if isinstance(o, SOpaque) and o.kind is self.kind:
            return SBool(self._e == o._e)
        raise OutOfReach('comparison of an opaque value')

    def __ne__(self, o):
        return SBool(z3.Not(self.__eq__(o)._e))

    __hash__ = SExpr.__hash__

    def __bool__(self):
        raise OutOfReach('truth of an opaque value')

    def dv_isinstance(self, c):
        return issubclass(self.kind.pytype, c)

    def dv_contains(self, x):
        f = self.kind.contains.get(x) if isinstance(x, str) else None
        if f is None:
            raise OutOfReach('%r in an opaque value' % (x,))
        return SBool(f(self._e))


class KOpaque(Kind):
    def __init__(self, name, contains=None, pytype=str):
        self.sort = z3.DeclareSort(name)
        self.pytype = pytype
        self.contains = contains or {}

    def wrap(self, e):
        return SOpaque(e, self)

    def unwrap(self, v):
        if isinstance(v, SOpaque) and v.kind is self:
            return v._e
        raise OutOfReach('%s expected' % self.sort)


def kind_of(v):
    if isinstance(v, SOpaque):
        return v.kind
    if isinstance(v, (bool, SBool)):
        return KBool
    if isinstance(v, (int, SInt)):
        return KInt
    if isinstance(v, SStr) or type(v) is str:
        return KStr
    if isinstance(v, (SReal, float)):
        return KReal
    if isinstance(v, SRef):
        return KRef(type(v))
    return None


# ------------------------------------------------------------------- references

class SRef(Sym):
    """Symbolic object reference.  `fields`: mutable heap fields; `consts`: immutable
    attributes (uninterpreted functions); other attributes come from the real class."""
    pycls = None
    fields = {}
    consts = {}
    __slots__ = ('_e',)

    def __init__(self, e):
        object.__setattr__(self, '_e', e)

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self._e)

    def __hash__(self):
        raise OutOfReach('hash of a symbolic object')

    def dv_attr(self, name):
        cls = type(self)
        if name in cls.fields:
            kind = cls.fields[name]
            return kind.wrap(z3.Select(heap(name, kind), self._e))
        if name in cls.consts:
            kind = cls.consts[name]
            return kind.wrap(const_fun(name, kind)(self._e))
        m = getattr(cls, 'm_' + name, None)
        if m is not None:
            return m.__get__(self, cls)
        g = getattr(cls, 'g_' + name, None)
        if g is not None:
            return g(self)
        if cls.pycls is not None:
            from dv import hooks
            return hooks.class_attr(self, cls.pycls, name)
        raise OutOfReach('attribute %r of %s' % (name, cls.__name__))

    def dv_setattr(self, name, value):
        cls = type(self)
        s = getattr(cls, 's_' + name, None)
        if s is not None:
            return s(self, value)
        if name not in cls.fields:
            raise OutOfReach('assignment to attribute %r of %s' % (name, cls.__name__))
        kind = cls.fields[name]
        E = cur()
        E.heap[name] = z3.Store(heap(name, kind), self._e, kind.unwrap(value))
        E.touch(('heap', name))

    def dv_isinstance(self, c):
        raise OutOfReach('isinstance on %s' % type(self).__name__)

    def dv_eq(self, o):
        if isinstance(o, SRef):
            return SBool(self._e == o._e)
        return False

    def __eq__(self, o):
        return self.dv_eq(o)

    def __ne__(self, o):
        r = self.dv_eq(o)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r._e))

    def dv_is(self, o):
        if isinstance(o, SRef):
            return SBool(self._e == o._e)
        return False

    def __bool__(self):
        return True


def heap(name, kind):
    E = cur()
    if name not in E.heap:
        E.heap[name] = z3.Const('H0_' + name, z3.ArraySort(RefSort, kind.sort))
    return E.heap[name]


def heap0(name, kind):
    return z3.Const('H0_' + name, z3.ArraySort(RefSort, kind.sort))


def const_fun(name, kind):
    return z3.Function('at_' + name, RefSort, kind.sort)


class Obj(Sym):
    """One object of a real class with (possibly symbolic) instance fields.  Methods and
    class attributes come from the real class; `methods` are assumed (contract) methods."""

    def __init__(self, pycls, fields=None, methods=None, label=None, strict=True):
        d = self.__dict__
        d['pycls'] = pycls
        d['f'] = dict(fields or {})
        d['methods'] = dict(methods or {})
        d['label'] = label or (pycls.__name__ if pycls else 'obj')
        d['serial'] = cur().next_serial()
        d['strict'] = strict
        cur().objs.append(self)

    def __repr__(self):
        return '<Obj %s>' % self.label

    def __setattr__(self, name, v):
        raise OutOfReach('native attribute write on Obj')

    def __hash__(self):
        return id(self)

    def dv_attr(self, name):
        f = self.f
        if name == '__dict__':
            return f
        from dv import hooks
        if self.pycls is not None:
            c = hooks.lookup(self.pycls, name)
            if isinstance(c, property) and name not in self.methods:
                if name in f and c.fset is None:
                    return f[name]
                return hooks.call(c.fget, self)
        if name in f:
            return f[name]
        if name in self.methods:
            m = self.methods[name]
            return lambda *a, **k: m(self, *a, **k)
        if self.pycls is not None:
            st = cur().statics
            for k in self.pycls.__mro__:
                if (k, name) in st:
                    return st[(k, name)]
                if name in k.__dict__:
                    break
            return hooks.class_attr(self, self.pycls, name)
        raise AttributeError("%r has no attribute %r" % (self.label, name))

    def dv_setattr(self, name, v):
        from dv import hooks
        if self.pycls is not None:
            c = hooks.lookup(self.pycls, name)
            if isinstance(c, property) and ('set_' + name) not in self.methods:
                if c.fset is None:
                    raise AttributeError(name)
                hooks.call(c.fset, self, v)
                return
        if ('set_' + name) in self.methods:
            return self.methods['set_' + name](self, v)
        self.f[name] = v
        cur().touch(('field', id(self), name, self.serial))

    def dv_delattr(self, name):
        if name not in self.f:
            raise AttributeError(name)
        del self.f[name]
        cur().touch(('field', id(self), name, self.serial))

    def dv_isinstance(self, c):
        return self.pycls is not None and issubclass(self.pycls, c)

    def dv_type(self):
        return self.pycls

    def dv_is(self, o):
        return self is o

    def _dunder(self, name):
        from dv import hooks
        if name in self.methods:
            m = self.methods[name]
            return lambda *a: m(self, *a)
        if self.pycls is None:
            return None
        c = hooks.lookup(self.pycls, name)
        if c is None or c is getattr(object, name, None):
            return None
        if hooks.repo_function(c):
            return lambda *a: hooks.call(c, self, *a)
        raise OutOfReach('%s of %s' % (name, self.label))

    def dv_eq(self, o):
        if self is o:
            return True
        m = self._dunder('__eq__')
        if m is None:
            return False
        r = m(o)
        return False if r is NotImplemented else r

    def dv_order(self, op, o):
        m = self._dunder({'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[op])
        if m is None:
            raise TypeError('not orderable')
        return m(o)

    def dv_len(self):
        m = self._dunder('__len__')
        if m is None:
            raise TypeError('no len()')
        return m()

    def dv_iter(self):
        from dv import hooks
        m = self._dunder('__iter__')
        if m is None:
            raise TypeError('not iterable')
        return hooks.iter_(m())

    def dv_getitem(self, i):
        m = self._dunder('__getitem__')
        if m is None:
            raise TypeError('not subscriptable')
        return m(i)

    def dv_setitem(self, i, v):
        m = self._dunder('__setitem__')
        if m is None:
            raise TypeError('no item assignment')
        return m(i, v)

    def dv_contains(self, x):
        m = self._dunder('__contains__')
        if m is None:
            raise OutOfReach('in ' + self.label)
        return m(x)

    def dv_int(self):
        m = self._dunder('__int__')
        if m is None:
            raise TypeError('int()')
        return m()

    def __bool__(self):
        for n in ('__bool__', '__len__'):
            m = self._dunder(n)
            if m is not None:
                return bool(m())
        return True

    def dv_super(self, k, name):
        c = k.__dict__[name]
        raise OutOfReach('super().%s' % name)

    def dv_havoc_field(self, name, kind=None):
        k = kind or kind_of(self.f.get(name))
        if k is None:
            raise OutOfReach('havoc of field %s' % name)
        self.f[name] = k.fresh(name)
        cur().touch(('field', id(self), name, self.serial))

    def __call__(self, *a, **k):
        m = self._dunder('__call__')
        if m is None:
            raise TypeError('not callable')
        return m(*a, **k)


class Field:
    """A field of an Obj in a `modifies` clause."""
    def __init__(self, obj, name, kind=None, auto=False):
        self.obj, self.name, self.kind, self.auto = obj, name, kind, auto
        self.serial = -1

    def dv_havoc(self):
        if self.auto:
            from dv.core import UNDEF
            k = kind_of(self.obj.f.get(self.name))
            self.obj.f[self.name] = k.fresh(self.name) if k is not None else UNDEF
            cur().touch(('field', id(self.obj), self.name, self.obj.serial))
            return
        self.obj.dv_havoc_field(self.name, self.kind)

    def dv_same(self, t):
        return isinstance(t, tuple) and t[:3] == ('field', id(self.obj), self.name)


class StaticField:
    """A class attribute in a `modifies` clause.  It keeps its concrete value over the havoc, so the
    invariant has to state that value (entry and preservation are then checked like any other clause)."""
    serial = -1

    def __init__(self, owner, name):
        self.key = ('attr', id(owner), name)

    def dv_havoc(self):
        pass

    def dv_same(self, t):
        return t == self.key


class Cell(Sym):
    """Ghost variable."""
    def __init__(self, e, name='ghost'):
        d = self.__dict__
        d['e'] = e if z3.is_expr(e) else (z3.BoolVal(e) if isinstance(e, bool) else z3.IntVal(e))
        d['name'] = name
        d['serial'] = cur().next_serial()

    def set(self, e):
        self.__dict__['e'] = z3.simplify(e) if z3.is_expr(e) else (z3.BoolVal(e) if isinstance(e, bool) else z3.IntVal(e))
        cur().touch(self)

    def __setattr__(self, n, v):
        raise OutOfReach('Cell')

    def dv_havoc(self):
        self.set(cur().fresh('g_' + self.name, self.e.sort()))

    def dv_snapshot(self):
        return Cell(self.e, self.name)


# ------------------------------------------------------------------- lists

class SList(Sym):
    """Python list: concrete items until havocked / created symbolic, then (arr, lo, hi)."""
    __slots__ = ('items', 'arr', 'lo', 'hi', 'kind', 'serial', 'frozen')

    def __init__(self, items=None, kind=None, arr=None, lo=None, hi=None):
        self.items = list(items) if items is not None else None
        self.kind = kind
        self.arr, self.lo, self.hi = arr, lo, hi
        self.serial = cur().next_serial()
        self.frozen = False

    @classmethod
    def fresh(cls, kind, name, nonneg=True):
        E = cur()
        n = E.fresh('len_' + name, Int)
        E.assume(n >= 0)
        if E.mode == 'bounded':
            E.assume(n <= E.bound)
        return cls(kind=kind, arr=kind.array(name), lo=z3.IntVal(0), hi=n)

    def __repr__(self):
        return '<SList %s>' % (self.items if self.items is not None else 'sym')

    def __hash__(self):
        raise OutOfReach('hash of list')

    @property
    def concrete(self):
        return self.items is not None

    def touch(self):
        cur().touch(self)

    def dv_snapshot(self):
        return SList(self.items, self.kind, self.arr, self.lo, self.hi)

    def to_sym(self, kind=None):
        if self.items is None:
            return self
        kind = kind or self.kind
        if kind is None:
            for x in self.items:
                kind = kind_of(x)
                break
        if kind is None:
            raise OutOfReach('element kind of a list unknown')
        self.kind = kind
        arr = kind.array('lst')
        for i, x in enumerate(self.items):
            arr = z3.Store(arr, z3.IntVal(i), kind.unwrap(x))
        self.arr, self.lo, self.hi = arr, z3.IntVal(0), z3.IntVal(len(self.items))
        self.items = None
        return self

    def dv_havoc(self):
        E = cur()
        if self.kind is None:
            self.to_sym()
        self.items = None
        self.arr = self.kind.array('hl')
        self.lo = z3.IntVal(0)
        self.hi = E.fresh('hn', Int)
        E.assume(self.hi >= 0)
        self.touch()

    # spec-side accessors
    def n(self):
        if self.items is not None:
            return z3.IntVal(len(self.items))
        return self.hi - self.lo

    def at(self, i):
        """Raw z3 element at index i (spec use, no bounds check)."""
        if self.items is not None:
            s = self.dv_snapshot().to_sym(self.kind)
            return z3.Select(s.arr, i)
        return z3.Select(self.arr, self.lo + i)

    # python behaviour
    def __bool__(self):
        if self.items is not None:
            return bool(self.items)
        return cur().branch(self.hi > self.lo)

    def dv_len(self):
        if self.items is not None:
            return len(self.items)
        return SInt(self.hi - self.lo)

    def append(self, x):
        self.touch()
        if self.items is not None:
            self.items.append(x)
            return
        self.arr = z3.Store(self.arr, self.hi, self.kind.unwrap(x))
        self.hi = z3.simplify(self.hi + 1)

    def _idx(self, i, exc='list index out of range'):
        E = cur()
        k = int_e(i)
        n = self.hi - self.lo
        if z3.is_int_value(z3.simplify(k)):
            if z3.simplify(k).as_long() < 0:
                k = k + n
        elif E.branch(k < 0):
            k = k + n
        if E.branch(z3.Or(k < 0, k >= n)):
            raise IndexError(exc)
        return k

    def pop(self, i=-1):
        if self.items is not None and isinstance(i, int):
            self.touch()
            return self.items.pop(i)
        self.to_sym()
        E = cur()
        if isinstance(i, int) and i in (0, -1):
            if E.branch(self.hi <= self.lo):
                raise IndexError('pop from empty list')
            self.touch()
            if i == 0:
                v = z3.Select(self.arr, self.lo)
                self.lo = z3.simplify(self.lo + 1)
            else:
                v = z3.Select(self.arr, self.hi - 1)
                self.hi = z3.simplify(self.hi - 1)
            return self.kind.wrap(v)
        k = self._idx(i, 'pop index out of range')
        self.touch()
        a, lo = self.arr, self.lo
        v = z3.Select(a, lo + k)
        j = z3.Int('j!pop')
        self.arr = z3.Lambda([j], z3.If(j < lo + k, z3.Select(a, j), z3.Select(a, j + 1)))
        self.hi = z3.simplify(self.hi - 1)
        return self.kind.wrap(v)

    def insert(self, i, x):
        if self.items is not None and isinstance(i, int):
            self.touch()
            self.items.insert(i, x)
            return
        self.to_sym(kind_of(x) if self.kind is None else None)
        self.touch()
        if isinstance(i, int) and i == 0:
            self.lo = z3.simplify(self.lo - 1)
            self.arr = z3.Store(self.arr, self.lo, self.kind.unwrap(x))
            return
        n = self.hi - self.lo
        k = clamp(i, n, n)
        a, lo = self.arr, self.lo
        j = z3.Int('j!ins')
        self.arr = z3.Lambda([j], z3.If(j < lo + k, z3.Select(a, j),
                                        z3.If(j == lo + k, self.kind.unwrap(x), z3.Select(a, j - 1))))
        self.hi = z3.simplify(self.hi + 1)

    def extend(self, o):
        o = aslist(o)
        if self.items is not None and o.items is not None:
            self.touch()
            self.items.extend(o.items)
            return
        if o.items is not None:
            for x in o.items:
                self.append(x)
            return
        if self.items is not None and not self.items and self.kind is None:
            self.kind = o.kind
        if self.items is not None:
            self.to_sym(self.kind or o.kind)
        self.touch()
        a, hi, oa, olo = self.arr, self.hi, o.arr, o.lo
        j = z3.Int('j!ext')
        self.arr = z3.Lambda([j], z3.If(j < hi, z3.Select(a, j), z3.Select(oa, olo + (j - hi))))
        self.hi = z3.simplify(hi + o.n())

    def dv_add(self, o):
        r = self.dv_snapshot()
        r.serial = cur().next_serial()
        r.extend(o)
        return r

    def reverse(self):
        self.touch()
        if self.items is not None:
            self.items.reverse()
            return
        a, lo, hi = self.arr, self.lo, self.hi
        j = z3.Int('j!rev')
        self.arr = z3.Lambda([j], z3.Select(a, hi - 1 - (j - lo)))

    def clear(self):
        self.touch()
        if self.items is not None:
            self.items = []
        else:
            self.hi = self.lo

    def copy(self):
        return self.dv_snapshot()

    def remove(self, x):
        raise OutOfReach('list.remove')

    def index(self, x):
        raise OutOfReach('list.index')

    def dv_getitem(self, i):
        if isinstance(i, slice):
            if self.items is not None and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return SList(self.items[i], self.kind)
            if i.step is not None:
                raise OutOfReach('slice step')
            self.to_sym()
            n = self.n()
            lo = clamp(i.start, n, z3.IntVal(0))
            hi = clamp(i.stop, n, n)
            hi = z3.If(hi < lo, lo, hi)
            return SList(None, self.kind, self.arr, self.lo + lo, self.lo + hi)
        if self.items is not None and isinstance(i, int):
            return self.items[i]
        self.to_sym()
        k = self._idx(i)
        return self.kind.wrap(z3.Select(self.arr, self.lo + k))

    def dv_setitem(self, i, v):
        self.touch()
        if self.items is not None and isinstance(i, (int, slice)):
            if isinstance(i, slice):
                v = aslist(v)
                if v.items is None:
                    raise OutOfReach('slice assignment')
                self.items[i] = v.items
                return
            self.items[i] = v
            return
        if isinstance(i, slice):
            raise OutOfReach('slice assignment')
        self.to_sym()
        k = self._idx(i, 'list assignment index out of range')
        self.arr = z3.Store(self.arr, self.lo + k, self.kind.unwrap(v))

    def dv_delitem(self, i):
        self.touch()
        if self.items is not None and isinstance(i, (int, slice)):
            del self.items[i]
            return
        if isinstance(i, slice):
            if i.stop is None and i.step is None:     # del l[k:]
                self.to_sym()
                n = self.n()
                self.hi = self.lo + clamp(i.start, n, z3.IntVal(0))
                return
            raise OutOfReach('slice deletion')
        self.pop(i)

    def dv_contains(self, x):
        from dv import hooks
        if self.items is not None:
            for y in self.items:
                if bool(hooks.cmp('==', y, x)):
                    return True
            return False
        j = z3.Int(cur().fresh_name('j'))
        return SBool(z3.Exists([j], z3.And(self.lo <= j, j < self.hi, z3.Select(self.arr, j) == self.kind.unwrap(x))))

    def dv_eq(self, o):
        if not isinstance(o, (SList, list)):
            return False
        o = aslist(o)
        if self.items is not None and o.items is not None:
            if len(self.items) != len(o.items):
                return False
            from dv import hooks
            for a, b in zip(self.items, o.items):
                if not bool(hooks.cmp('==', a, b)):
                    return False
            return True
        if self.items is not None or o.items is not None:
            a, b = (self, o) if self.items is not None else (o, self)
            if cur().branch(b.n() != len(a.items)):
                return False
            from dv import hooks
            for i, x in enumerate(a.items):
                if not bool(hooks.cmp('==', b.dv_getitem(i), x)):
                    return False
            return True
        raise OutOfReach('equality of symbolic lists')

    def __eq__(self, o):
        return self.dv_eq(o)

    def dv_is(self, o):
        return self is o

    def dv_iter(self):
        if self.items is not None:
            return ConcreteListIter(self)
        return ListIter(self)

    def __iter__(self):
        it = self.dv_iter()
        while True:
            x = it.dv_next()
            if x is STOP:
                return
            yield x

    def __len__(self):
        if self.items is not None:
            return len(self.items)
        raise OutOfReach('len of symbolic list')

    def sort(self, **kw):
        if self.items is not None and not any(isinstance(x, Sym) for x in self.items):
            self.touch()
            self.items.sort(**kw)
            return
        raise OutOfReach('sort')


def aslist(o):
    if isinstance(o, SList):
        return o
    if isinstance(o, (list, tuple)):
        return SList(o)
    f = getattr(o, 'dv_aslist', None)
    if f is not None:
        return f()
    if isinstance(o, str):
        return SList(list(o))
    from dv import hooks
    it = hooks.iter_(o)
    if hasattr(it, 'dv_next') and getattr(it, 'symbolic', False):
        r = getattr(it, 'dv_rest', None)
        if r is not None:
            return r()
        raise OutOfReach('list of a symbolic iterator')
    out = []
    while True:
        x = it.dv_next() if hasattr(it, 'dv_next') else next(it, STOP)
        if x is STOP:
            return SList(out)
        out.append(x)


class ConcreteListIter(Sym):
    symbolic = False

    def __init__(self, l):
        self.l, self.i = l, 0

    def dv_next(self):
        if self.l.items is None:
            raise OutOfReach('list becomes symbolic while iterated')
        if self.i >= len(self.l.items):
            return STOP
        self.i += 1
        return self.l.items[self.i - 1]

    def dv_iter(self):
        return self

    def __iter__(self):
        while True:
            x = self.dv_next()
            if x is STOP:
                return
            yield x


class ListIter(Sym):
    """Iterator over a symbolic list (live view, like CPython)."""
    symbolic = True

    def __init__(self, l, pos=None):
        self.l = l
        self.pos = z3.IntVal(0) if pos is None else pos
        self.serial = cur().next_serial()

    def dv_iter(self):
        return self

    def dv_snapshot(self):
        return ListIter(self.l.dv_snapshot(), self.pos)

    def dv_havoc(self):
        E = cur()
        self.pos = E.fresh('pos', Int)
        E.assume(z3.And(self.pos >= 0, self.pos <= self.l.n()))
        E.touch(self)

    def dv_next(self):
        E = cur()
        if E.branch(self.pos >= self.l.n()):
            return STOP
        v = self.l.kind.wrap(self.l.at(self.pos))
        self.pos = z3.simplify(self.pos + 1)
        E.touch(self)
        return v

    def dv_rest(self):
        return SList(None, self.l.kind, self.l.arr, self.l.lo + self.pos, self.l.hi)

    def __iter__(self):
        while True:
            x = self.dv_next()
            if x is STOP:
                return
            yield x


# ------------------------------------------------------------------- dicts

class SDict(Sym):
    """Symbolic mapping (dom, val); iteration order is an enumeration of the domain."""

    def __init__(self, kk, vk, dom, val):
        self.kk, self.vk, self.dom, self.val = kk, vk, dom, val
        self.serial = cur().next_serial()

    @classmethod
    def fresh(cls, kk, vk, name):
        E = cur()
        return cls(kk, vk, E.fresh('dom_' + name, z3.ArraySort(kk.sort, Bool)),
                   E.fresh('val_' + name, z3.ArraySort(kk.sort, vk.sort)))

    @classmethod
    def empty(cls, kk, vk, name='d'):
        E = cur()
        return cls(kk, vk, z3.K(kk.sort, z3.BoolVal(False)), E.fresh('val_' + name, z3.ArraySort(kk.sort, vk.sort)))

    def dv_snapshot(self):
        return SDict(self.kk, self.vk, self.dom, self.val)

    def dv_havoc(self):
        E = cur()
        self.dom = E.fresh('hd', self.dom.sort())
        self.val = E.fresh('hv', self.val.sort())
        E.touch(self)

    def has(self, k):
        return z3.Select(self.dom, k)

    def get_e(self, k):
        return z3.Select(self.val, k)

    def dv_contains(self, k):
        return SBool(z3.Select(self.dom, self.kk.unwrap(k)))

    def dv_getitem(self, k):
        ke = self.kk.unwrap(k)
        if cur().branch(z3.Not(z3.Select(self.dom, ke))):
            raise KeyError(k if isinstance(k, str) else 'symbolic key')
        return self.vk.wrap(z3.Select(self.val, ke))

    def dv_setitem(self, k, v):
        ke = self.kk.unwrap(k)
        self.dom = z3.Store(self.dom, ke, z3.BoolVal(True))
        self.val = z3.Store(self.val, ke, self.vk.unwrap(v))
        cur().touch(self)

    def dv_delitem(self, k):
        ke = self.kk.unwrap(k)
        if cur().branch(z3.Not(z3.Select(self.dom, ke))):
            raise KeyError('symbolic key')
        self.dom = z3.Store(self.dom, ke, z3.BoolVal(False))
        cur().touch(self)

    def get(self, k, default=None):
        ke = self.kk.unwrap(k)
        if cur().branch(z3.Select(self.dom, ke)):
            return self.vk.wrap(z3.Select(self.val, ke))
        return default

    def setdefault(self, k, default=None):
        ke = self.kk.unwrap(k)
        if cur().branch(z3.Select(self.dom, ke)):
            return self.vk.wrap(z3.Select(self.val, ke))
        self.dv_setitem(k, default)
        return default

    def pop(self, k, *d):
        ke = self.kk.unwrap(k)
        if cur().branch(z3.Select(self.dom, ke)):
            v = self.vk.wrap(z3.Select(self.val, ke))
            self.dom = z3.Store(self.dom, ke, z3.BoolVal(False))
            cur().touch(self)
            return v
        if d:
            return d[0]
        raise KeyError('symbolic key')

    def has_key(self, k):
        return self.dv_contains(k)

    def keys(self):
        return DictView(self, 'keys')

    def values(self):
        return DictView(self, 'values')

    def items(self):
        return DictView(self, 'items')

    def copy(self):
        return self.dv_snapshot()

    def update(self, o):
        if isinstance(o, dict):
            for k, v in o.items():
                self.dv_setitem(k, v)
            return
        if isinstance(o, SDict):
            k = z3.Const('k!upd', self.kk.sort)
            d, v, od, ov = self.dom, self.val, o.dom, o.val
            self.dom = z3.Lambda([k], z3.Or(z3.Select(d, k), z3.Select(od, k)))
            self.val = z3.Lambda([k], z3.If(z3.Select(od, k), z3.Select(ov, k), z3.Select(v, k)))
            cur().touch(self)
            return
        raise OutOfReach('dict.update')

    def clear(self):
        self.dom = z3.K(self.kk.sort, z3.BoolVal(False))
        cur().touch(self)

    def dv_iter(self):
        return self.keys().dv_iter()

    def __bool__(self):
        k = z3.Const('k!ne', self.kk.sort)
        return cur().branch(z3.Exists([k], z3.Select(self.dom, k)))

    def __hash__(self):
        raise OutOfReach('hash of dict')


class DictView(Sym):
    def __init__(self, d, what):
        self.d, self.what = d, what

    def dv_contains(self, k):
        if self.what == 'keys':
            return self.d.dv_contains(k)
        raise OutOfReach('in dict.values()')

    def dv_aslist(self):
        return self

    def dv_iter(self):
        return DictIter(self.d.dv_snapshot(), self.what)

    def __bool__(self):
        return bool(self.d)


class DictIter(Sym):
    """Iterates the domain in an arbitrary order: `seen` is the set already produced."""
    symbolic = True

    def __init__(self, d, what, seen=None):
        self.d, self.what = d, what
        self.seen = z3.K(d.kk.sort, z3.BoolVal(False)) if seen is None else seen
        self.serial = cur().next_serial()

    def dv_iter(self):
        return self

    def dv_snapshot(self):
        return DictIter(self.d, self.what, self.seen)

    def dv_havoc(self):
        E = cur()
        self.seen = E.fresh('seen', self.seen.sort())
        k = z3.Const('k!seen', self.d.kk.sort)
        E.assume(z3.ForAll([k], z3.Implies(z3.Select(self.seen, k), z3.Select(self.d.dom, k))))
        E.touch(self)

    def dv_next(self):
        E = cur()
        k = z3.Const('k!rest', self.d.kk.sort)
        if not E.choose('dictiter'):
            E.assume(z3.ForAll([k], z3.Implies(z3.Select(self.d.dom, k), z3.Select(self.seen, k))))
            return STOP
        key = E.fresh('key', self.d.kk.sort)
        E.assume(z3.And(z3.Select(self.d.dom, key), z3.Not(z3.Select(self.seen, key))))
        self.seen = z3.Store(self.seen, key, z3.BoolVal(True))
        E.touch(self)
        kv = self.d.kk.wrap(key)
        if self.what == 'keys':
            return kv
        vv = self.d.vk.wrap(z3.Select(self.d.val, key))
        return vv if self.what == 'values' else (kv, vv)

    def __iter__(self):
        while True:
            x = self.dv_next()
            if x is STOP:
                return
            yield x
