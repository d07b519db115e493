"""Run-time hooks called by instrumented code."""
import ast
import builtins
import itertools
import logging
import operator
import re
import types

import z3

from dv import core
from dv.core import cur, OutOfReach, STOP, PathEnd, Loop, fkey
from dv.sym import (Sym, SInt, SBool, SStr, SReal, SRef, SList, SDict, DictView, Obj, int_e, is_intlike, str_e,
                    real_e, aslist, clamp)

BARE = (Exception, KeyboardInterrupt, SystemExit)
INLINE_PREFIX = ('plasTeX',)


class AbruptStop(Exception):
    pass


def is_sym(v, depth=2):
    if isinstance(v, Sym):
        return not (isinstance(v, SList) and v.items is not None and not any(is_sym(x, depth) for x in v.items))
    if depth and isinstance(v, (list, tuple, set)) and type(v) in (list, tuple, set):
        return any(is_sym(x, depth - 1) for x in v)
    if depth and type(v) is dict:
        return any(is_sym(x, depth - 1) for x in v.values()) or any(is_sym(x, depth - 1) for x in v)
    return False


def plain(v):
    """Fully concrete SLists become real lists before native calls."""
    if isinstance(v, SList) and v.items is not None:
        return [plain(x) for x in v.items]
    return v


def guard(f, *args):
    """Native operation with possibly symbolic operands."""
    try:
        return f(*args)
    except (TypeError, AttributeError, NotImplementedError):
        if any(is_sym(a) or isinstance(a, Sym) for a in args):
            raise OutOfReach('operation %s on symbolic operands %s' % (
                getattr(f, '__name__', f), [type(a).__name__ for a in args]))
        raise


# ------------------------------------------------------------------ expressions

PYOPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
         '%': operator.mod, '**': operator.pow, '|': operator.or_, '&': operator.and_, '^': operator.xor,
         '<<': operator.lshift, '>>': operator.rshift}


def bin(op, a, b):
    if op == '+':
        if hasattr(type(a), 'dv_add') and hasattr(type(a), 'seq_of'):
            return a.dv_add(b)
        if hasattr(type(b), 'dv_radd'):
            return b.dv_radd(a)
    if isinstance(a, SList) or isinstance(b, SList):
        if op == '+' and (isinstance(a, (SList, list)) and isinstance(b, (SList, list))):
            return aslist(a).dv_add(b)
        if op == '*' and isinstance(a, SList) and a.items is not None and isinstance(b, int):
            return SList(a.items * b)
    f = getattr(a, 'dv_bin', None)
    if f is not None:
        r = f(op, b, False)
        if r is not NotImplemented:
            return r
    f = getattr(b, 'dv_bin', None)
    if f is not None:
        r = f(op, a, True)
        if r is not NotImplemented:
            return r
    if isinstance(a, SReal) or isinstance(b, SReal) or \
            (isinstance(a, float) and isinstance(b, SInt)) or (isinstance(b, float) and isinstance(a, SInt)) or \
            (op == '/' and (isinstance(a, SInt) or isinstance(b, SInt))):
        x, y = real_e(a), real_e(b)
        if op == '+':
            return SReal(x + y)
        if op == '-':
            return SReal(x - y)
        if op == '*':
            return SReal(x * y)
        if op == '/':
            if cur().branch(y == 0):
                raise ZeroDivisionError('division by zero')
            return SReal(x / y)
        raise OutOfReach('real operator ' + op)
    if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
        if is_intlike(a) and is_intlike(b):
            return int_bin(op, a, b)
        if op == '*' and isinstance(a, str):
            return str_repeat(a, b)
        if op == '*' and isinstance(b, str):
            return str_repeat(b, a)
        if op == '%' and isinstance(a, str):
            return str_format(a, b)
    if isinstance(a, SStr) or isinstance(b, SStr):
        if op == '+' and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return SStr(z3.Concat(str_e(a), str_e(b)))
    if op == '%' and isinstance(a, str) and not isinstance(a, Sym):
        if is_sym(b) or isinstance(b, Sym):
            return str_format(a, b)
    return guard(PYOPS[op], a, b)


REPEAT = {}


def str_repeat(s, n):
    """s * n for a literal s: uninterpreted in n with the defining recursion at use."""
    E = cur()
    ne = int_e(n)
    f = z3.Function('rep_%s' % ''.join('%02x' % ord(c) for c in s), z3.IntSort(), z3.StringSort())
    E.assume(z3.Implies(ne <= 0, f(ne) == z3.StringVal('')))
    E.assume(z3.Length(f(ne)) == z3.If(ne > 0, ne * len(s), 0))
    return SStr(f(ne))


def str_of(v):
    if isinstance(v, SStr):
        return v._e
    if isinstance(v, SInt):
        e = v._e
        return z3.If(e < 0, z3.Concat(z3.StringVal('-'), z3.IntToStr(-e)), z3.IntToStr(e))
    if isinstance(v, Sym):
        f = getattr(v, 'dv_str', None)
        if f is not None:
            return str_e(f())
        raise OutOfReach('str() of %s' % type(v).__name__)
    return str_e(builtins.str(v))


FORMAT = re.compile(r'%([-0 +#]*)(\d*)(?:\.(\d*))?([sdrxfgeiuc%])')


def str_format(fmt, args):
    if not isinstance(args, tuple):
        args = (args,)
    parts = []
    k = 0
    pos = 0
    for m in FORMAT.finditer(fmt):
        if m.start() > pos:
            parts.append(str_e(fmt[pos:m.start()]))
        pos = m.end()
        flags, width, prec, conv = m.groups()
        if conv == '%':
            parts.append(str_e('%'))
            continue
        if k >= len(args):
            raise TypeError('not enough arguments for format string')
        v = args[k]
        k += 1
        if not isinstance(v, Sym):
            parts.append(str_e(m.group(0) % v))
            continue
        if conv == 'd' and isinstance(v, SInt) and (not width or flags == '0' or not flags and not width):
            pad = int(prec or 0) if prec is not None else int(width or 0)
            if width and prec is not None or pad > 9:
                raise OutOfReach('format %r' % fmt)
            if pad and not cur().branch(v._e >= 0):
                raise OutOfReach('zero padding of a negative number')
            d = str_of(v)
            z = z3.StringVal('')
            for n in range(1, pad):
                z = z3.If(z3.Length(d) == pad - n, z3.StringVal('0' * n), z)
            parts.append(z3.Concat(z, d) if pad > 1 else d)
            continue
        if flags or width or prec is not None or conv not in 'sd':
            raise OutOfReach('format %r' % fmt)
        parts.append(str_of(v))
    if fmt[pos:].count('%'):
        raise OutOfReach('format %r' % fmt)
    if pos < len(fmt):
        parts.append(str_e(fmt[pos:]))
    if len(parts) == 1:
        return SStr(parts[0])
    return SStr(z3.Concat(*parts)) if parts else ''


def fstr(*vals):
    if not any(is_sym(v) or isinstance(v, Sym) for v in vals):
        return ''.join(builtins.str(v) for v in vals)
    parts = [str_of(v) for v in vals]
    return SStr(z3.Concat(*parts) if len(parts) > 1 else parts[0])


def int_bin(op, a, b):
    x, y = int_e(a), int_e(b)
    E = cur()
    if op == '+':
        return SInt(x + y)
    if op == '-':
        return SInt(x - y)
    if op == '*':
        return SInt(x * y)
    if op in ('//', '%'):
        if E.branch(y == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if E.branch(y > 0):
            q, r = x / y, x % y           # z3: floor for positive divisor
        else:
            # Python floors: x // y == (-x) // (-y)
            q, r = (-x) / (-y), -((-x) % (-y))
        return SInt(q if op == '//' else r)
    if op == '&' and isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.And(core.to_z3bool(a), core.to_z3bool(b)))
    if op == '|' and isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.Or(core.to_z3bool(a), core.to_z3bool(b)))
    raise OutOfReach('integer operator ' + op)


def aug(op, a, b):
    f = getattr(a, 'dv_iadd', None) if op == '+' else None
    if f is not None:
        return f(b)
    if op == '+' and isinstance(a, SList):
        a.extend(b)
        return a
    if op == '+' and type(a) is list:
        a += list(aslist(b))
        return a
    return bin(op, a, b)


def neg(a):
    if isinstance(a, Sym):
        return -a
    return -a


def cmp(op, a, b):
    if op == 'is':
        return is_(a, b)
    if op == 'is not':
        r = is_(a, b)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r._e))
    if op in ('in', 'not in'):
        r = contains(b, a)
        if op == 'in':
            return r
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r._e))
    if op == '==':
        return eq(a, b)
    if op == '!=':
        f = getattr(a, 'dv_ne', None)
        if f is not None:
            return f(b)
        r = eq(a, b)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r._e))
    # ordering
    f = getattr(a, 'dv_order', None)
    if f is not None:
        return f(op, b)
    if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)) or isinstance(a, SReal) or isinstance(b, SReal):
        if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
            x, y = real_e(a), real_e(b)
        elif is_intlike(a) and is_intlike(b):
            x, y = int_e(a), int_e(b)
        else:
            raise OutOfReach('ordering of %s and %s' % (type(a).__name__, type(b).__name__))
        return SBool({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
    if isinstance(a, SStr) or isinstance(b, SStr):
        x, y = str_e(a), str_e(b)
        return SBool({'<': x < y, '<=': x <= y, '>': y < x, '>=': y <= x}[op])
    x, y = seq_items(a), seq_items(b)
    if x is not None and y is not None and isinstance(a, tuple) == isinstance(b, tuple) and (is_sym(x) or is_sym(y)):
        if op in ('>', '>='):
            x, y = y, x
        lt, same = lex_order(x, y)
        return SBool(lt if op in ('<', '>') else z3.Or(lt, same))
    return guard({'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[op], a, b)


def seq_items(a):
    """The items of a list or tuple of known length, else None."""
    if isinstance(a, SList):
        return list(a.items) if a.concrete else None
    return list(a) if type(a) in (list, tuple) else None


def bool_e(r):
    return z3.BoolVal(r) if isinstance(r, bool) else r._e


def lex_order(x, y):
    """(x < y, x == y) for sequences: decided by the first items that differ, then by the lengths."""
    n = min(len(x), len(y))
    lt, same = z3.BoolVal(len(x) < len(y)), z3.BoolVal(len(x) == len(y))
    for a, b in reversed(list(zip(x[:n], y[:n]))):
        p, q = seq_items(a), seq_items(b)
        if p is not None and q is not None and isinstance(a, tuple) == isinstance(b, tuple):
            l, e = lex_order(p, q)
        else:
            l, e = bool_e(cmp('<', a, b)), bool_e(eq(a, b))
        lt, same = z3.If(e, lt, l), z3.And(e, same)
    return lt, same


def eq(a, b):
    f = getattr(a, 'dv_eq', None)
    if f is not None:
        return f(b)
    f = getattr(b, 'dv_eq', None)
    if f is not None:
        return f(a)
    if isinstance(a, SReal) or isinstance(b, SReal):
        return SBool(real_e(a) == real_e(b))
    if isinstance(a, Sym):
        return a.__eq__(b)
    if isinstance(b, Sym):
        return b.__eq__(a)
    if is_sym(a) or is_sym(b):
        if type(a) is tuple and type(b) is tuple:
            return len(a) == len(b) and all(bool(eq(x, y)) for x, y in zip(a, b))
        if type(a) is list or type(b) is list:
            return aslist(a).dv_eq(b)
        raise OutOfReach('== on containers of symbolic values')
    return a == b


def is_(a, b):
    if a is b:
        return True
    f = getattr(a, 'dv_is', None)
    if f is not None and b is not None:
        return f(b)
    f = getattr(b, 'dv_is', None)
    if f is not None and a is not None:
        return f(a)
    if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool):
        return eq(a, b)
    return a is b


def contains(c, x):
    f = getattr(c, 'dv_contains', None)
    if f is not None:
        return f(x)
    f = getattr(x, 'dv_in', None)
    if f is not None:
        return f(c)
    if isinstance(x, Sym):
        if isinstance(c, str):
            if isinstance(x, SStr):
                if len(c) <= 80:
                    # substring test against a literal
                    return SBool(z3.Contains(str_e(c), x._e))
            raise OutOfReach('in str')
        if isinstance(c, (list, tuple)):
            for y in c:
                if bool(eq(x, y)):
                    return True
            return False
        if isinstance(c, (dict, set, frozenset)):
            for y in c:
                if bool(eq(x, y)):
                    return True
            return False
        raise OutOfReach('in %s' % type(c).__name__)
    if isinstance(c, (list, tuple)) and is_sym(c):
        for y in c:
            if bool(eq(x, y)):
                return True
        return False
    if hasattr(type(c), '__contains__') and isinstance(type(c).__contains__, types.FunctionType) and \
            type(c).__module__.split('.')[0] in INLINE_PREFIX:
        return bool(call(types.MethodType(type(c).__contains__, c), x))
    return guard(operator.contains, c, x)


def attr(o, name):
    if name == '__class__' and isinstance(o, Sym):
        return type_(o)
    f = getattr(o, 'dv_attr', None)
    if f is not None:
        return f(name)
    if isinstance(o, Sym):
        return getattr(o, name)
    st = cur().statics
    if st:
        if isinstance(o, type):
            for k in o.__mro__:
                if (k, name) in st:
                    return st[(k, name)]
                if name in k.__dict__:
                    break
        elif isinstance(o, types.ModuleType):
            if (o, name) in st:
                return st[(o, name)]
        elif name not in getattr(o, '__dict__', ()):
            for k in type(o).__mro__:
                if (k, name) in st:
                    return st[(k, name)]
                if name in k.__dict__:
                    break
    d = getattr(o, '__dict__', None)
    if d is not None and name in d and not isinstance(o, type):
        # data descriptors on the class win
        c = getattr(type(o), name, None)
        if not isinstance(c, property):
            return d[name]
    c = lookup(type(o), name)
    if isinstance(c, property) and c.fget is not None and repo_function(c.fget):
        return call(c.fget, o)
    return getattr(o, name)


def lookup(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            return k.__dict__[name]
    return None


def class_attr(obj, pycls, name):
    """Attribute of a symbolic object resolved on its real class."""
    c = lookup(pycls, name)
    if c is None and not any(name in k.__dict__ for k in pycls.__mro__):
        raise AttributeError("'%s' object has no attribute %r" % (pycls.__name__, name))
    if isinstance(c, property):
        return call(c.fget, obj)
    if isinstance(c, types.FunctionType):
        return BoundReal(obj, c)
    if isinstance(c, classmethod):
        return BoundReal(pycls, c.__func__)
    if isinstance(c, staticmethod):
        return c.__func__
    return c


class BoundReal(Sym):
    def __init__(self, obj, func):
        self.obj, self.func = obj, func

    def __call__(self, *a, **k):
        return call(self.func, self.obj, *a, **k)


class SuperProxy(Sym):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def dv_attr(self, name):
        py = type(self.obj).pycls if isinstance(self.obj, SRef) else self.obj.pycls if isinstance(self.obj, Obj) else type(self.obj)
        mro = list(py.__mro__)
        for k in mro[mro.index(self.cls) + 1:]:
            if name in k.__dict__:
                c = k.__dict__[name]
                if isinstance(c, types.FunctionType):
                    return BoundReal(self.obj, c)
                sm = getattr(self.obj, 'dv_super', None)
                if sm is not None:
                    return sm(k, name)
                raise OutOfReach('super().%s' % name)
        raise AttributeError(name)


def defining_class(key):
    mod, qn = key.split(':')
    import sys
    o = sys.modules[mod]
    for p in qn.split('.')[:-1]:
        o = getattr(o, p)
    return o


def setattr_(o, name, v):
    f = getattr(o, 'dv_setattr', None)
    if f is not None:
        return f(name, v)
    if isinstance(o, Sym):
        return object.__setattr__(o, name, v)
    c = lookup(type(o), name) if not isinstance(o, type) else None
    if isinstance(c, property) and c.fset is not None and repo_function(c.fset):
        return call(c.fset, o, v)
    E = cur()
    E.touch(('attr', id(o), name))
    if isinstance(o, type) or isinstance(o, types.ModuleType):
        E.class_writes = getattr(E, 'class_writes', [])
        if (o, name) in E.statics:
            E.statics[(o, name)] = v
            return
        h = getattr(E.contract, 'on_class_write', None)
        if h is None:
            raise OutOfReach('write to class/module attribute %s.%s' % (getattr(o, '__name__', o), name))
        return h(E, o, name, v)
    setattr(o, name, v)


def delattr_(o, name):
    f = getattr(o, 'dv_delattr', None)
    if f is not None:
        return f(name)
    delattr(o, name)


def getitem(o, i):
    f = getattr(o, 'dv_getitem', None)
    if f is not None:
        return f(i)
    if isinstance(i, Sym) or isinstance(i, slice) and is_sym((i.start, i.stop)):
        if isinstance(o, (list, tuple)) and isinstance(i, SInt):
            n = len(o)
            E = cur()
            for k in range(n):
                if E.branch(z3.Or(i._e == k, i._e == k - n)):
                    return o[k]
            raise IndexError('index out of range')
        if isinstance(o, str) and isinstance(i, SInt):
            if len(o) <= 64:
                n = len(o)
                for k in range(n):
                    if cur().branch(z3.Or(i._e == k, i._e == k - n)):
                        return o[k]
                raise IndexError('string index out of range')
            return SStr(str_e(o)).dv_getitem(i)
        if isinstance(o, dict):
            for k in o:
                if bool(eq(i, k)):
                    return o[k]
            raise KeyError('symbolic key')
        if hasattr(type(o), '__getitem__') and repo_function(type(o).__getitem__):
            return call(type(o).__getitem__, o, i)
        raise OutOfReach('symbolic index into %s' % type(o).__name__)
    g = type(o).__dict__.get('__getitem__') if not isinstance(o, type) else None
    g = g or (lookup(type(o), '__getitem__') if not isinstance(o, type) else None)
    if isinstance(g, types.FunctionType) and repo_function(g):
        return call(g, o, i)
    return o[i]


def setitem(o, i, v):
    f = getattr(o, 'dv_setitem', None)
    if f is not None:
        return f(i, v)
    if isinstance(i, Sym):
        raise OutOfReach('symbolic index store')
    cur().touch(('item', id(o)))
    g = lookup(type(o), '__setitem__')
    if isinstance(g, types.FunctionType) and repo_function(g):
        return call(g, o, i, v)
    o[i] = v


def delitem(o, i):
    f = getattr(o, 'dv_delitem', None)
    if f is not None:
        return f(i)
    if isinstance(i, Sym):
        raise OutOfReach('symbolic index delete')
    cur().touch(('item', id(o)))
    del o[i]


def unpack(v, n):
    f = getattr(v, 'dv_unpack', None)
    if f is not None:
        return f(n)
    if isinstance(v, SList):
        if v.items is None:
            if cur().branch(v.n() != n):
                raise ValueError('unpack')
            return [v.dv_getitem(i) for i in range(n)]
        v = v.items
    r = list(v)
    if len(r) != n:
        raise ValueError('not enough values to unpack')
    return r


def mklist(l):
    h = getattr(cur().contract, 'new_list', None)
    if h is not None:
        r = h(cur(), l)
        if r is not None:
            return r
    return SList(l)


def mkdict(d):
    h = getattr(cur().contract, 'new_dict', None)
    if h is not None:
        r = h(cur(), d)
        if r is not None:
            return r
    return d


def plain_iter(v):
    it = iter_(v)
    while True:
        x = it.dv_next() if hasattr(it, 'dv_next') else next(it, STOP)
        if x is STOP:
            return
        yield x


def iter_(v):
    if isinstance(v, (str, list, tuple, dict, range, set)) and not isinstance(v, Sym):
        return iter(v)
    f = getattr(v, 'dv_iter', None)
    if f is not None:
        return f()
    if isinstance(v, Sym):
        raise OutOfReach('iteration over %s' % type(v).__name__)
    g = lookup(type(v), '__iter__')
    if isinstance(g, types.FunctionType) and repo_function(g):
        return iter_(call(g, v))
    return iter(v)


def loop(key, idx, kind, it):
    if kind == 'for':
        it = iter_(it)
    else:
        it = None
    return Loop(key, idx, kind, it)


def comp(kind, it, elt, cond, ntuple):
    h = getattr(cur().contract, 'comprehension', None)
    it = iter_(it)
    if getattr(it, 'symbolic', False):
        if h is not None:
            r = h(cur(), kind, it, elt, cond)
            if r is not NotImplemented:
                return r
        r = sym_comp(kind, it, elt, cond)
        if r is not None:
            return r
    out = []
    n = 0
    while True:
        x = it.dv_next() if hasattr(it, 'dv_next') else next(it, STOP)
        if x is STOP:
            break
        n += 1
        if getattr(it, 'symbolic', False) and n > (cur().bound + 2 if cur().mode == 'bounded' else 60):
            if cur().mode == 'bounded':
                cur().end()
            raise OutOfReach('comprehension over an unbounded iterable')
        a = tuple(x) if ntuple else (x,)
        if cond is not None and not cond(*a):
            continue
        out.append(elt(*a))
    if kind == 'list':
        return SList(out)
    if kind == 'gen':
        return SList(out).dv_iter()
    if kind == 'set':
        return set(out)
    return mkdict(dict(out))


def sym_comp(kind, it, elt, cond):
    """Identity / map comprehension over a symbolic list: elementwise, if the element
    expression is evaluated without branching (otherwise not handled here)."""
    from dv.sym import ListIter, kind_of
    if cur().mode == 'bounded' or not isinstance(it, ListIter) or kind not in ('list', 'gen') or cond is not None:
        return None
    E = cur()
    j = E.fresh('jc', z3.IntSort())
    src = it.dv_rest()
    n0 = len(E.trace)
    v = elt(src.kind.wrap(z3.Select(src.arr, j)))
    if len(E.trace) != n0:
        raise OutOfReach('comprehension element branches')
    k = kind_of(v)
    if k is None:
        raise OutOfReach('comprehension element kind')
    e = k.unwrap(v)
    arr = z3.Lambda([j], e)
    r = SList(None, k, arr, src.lo, src.hi)
    return r if kind == 'list' else r.dv_iter()


# ------------------------------------------------------------------ calls

def repo_function(f):
    return isinstance(f, types.FunctionType) and (f.__module__ or '').split('.')[0] in INLINE_PREFIX


def callm(o, name, /, *a, **k):
    if not isinstance(o, Sym) and isinstance(o, str) and (is_sym(a) or any(isinstance(x, Sym) for x in a)):
        return str_method(o, name, a)
    if isinstance(o, logging.Logger):
        return None
    if isinstance(o, list) and type(o) is list and (is_sym(a) or True):
        cur().touch(('item', id(o)))
    return call(attr(o, name), *a, **k)


def str_method(s, name, a):
    if name == 'join':
        h = getattr(type(a[0]), 'dv_join', None)
        if h is not None:
            return h(a[0], s)
        src = aslist(a[0])
        if src.items is None:
            h = getattr(cur().contract, 'join', None)
            if h is not None:
                return h(cur(), s, src)
            raise OutOfReach('join of a symbolic list')
        if type(s) is str and all(isinstance(x, str) and not isinstance(x, Sym) for x in src.items):
            return s.join(src.items)
        parts = []
        for i, x in enumerate(src.items):
            if i and s:
                parts.append(str_e(s))
            parts.append(str_e(x) if isinstance(x, (str, SStr)) else str_of(x))
        if not parts:
            return ''
        return SStr(z3.Concat(*parts) if len(parts) > 1 else parts[0])
    if name in ('startswith', 'endswith', 'replace', 'find'):
        return getattr(SStr(str_e(s)), name)(*a)
    if name == 'format':
        raise OutOfReach('str.format')
    raise OutOfReach('str.%s with symbolic argument' % name)


def call(f, /, *a, **k):
    E = cur()
    if E.dead:
        raise PathEnd()
    if isinstance(f, BoundReal):
        a = (f.obj,) + a
        f = f.func
    if isinstance(f, types.MethodType):
        fn = f.__func__
        if fn.__module__ and fn.__module__.startswith(('dv', 'contracts')) and \
                not getattr(fn, '__dvkey__', None):
            return f(*a, **k)
        a = (f.__self__,) + a
        f = fn
    if isinstance(f, types.FunctionType):
        if getattr(f, '__dvkey__', None):
            return f(*a, **k)
        if (f.__module__ or '').startswith(('dv.', 'contracts')):
            return f(*a, **k)
        key = fkey(f)
        c = E.contracts.get(key)
        if c is None and a and isinstance(a[0], SRef):
            c = E.contracts.get('*:' + f.__name__)
        if c is None:
            c = E.models.get(f)
        if c is not None:
            E.functions.setdefault(key, 'by contract')
            return c(*a, **k)
        if f.__code__.co_filename.startswith('<dv:'):
            return f(*a, **k)
        if repo_function(f) and key not in E.native:
            g = E.instrument(f)
            E.calldepth = getattr(E, 'calldepth', 0) + 1
            try:
                if E.calldepth > 40:
                    raise OutOfReach('recursion without contract: ' + key)
                return g(*a, **k)
            finally:
                E.calldepth -= 1
        if is_sym(a) or is_sym(k):
            raise OutOfReach('call of %s with symbolic arguments' % key)
        return f(*[plain(x) for x in a], **k)
    if isinstance(f, type):
        h = BUILTINS.get(f)
        if h is not None:
            return h(*a, **k)
        m = E.classes.get(f)
        if m is not None:
            return m(*a, **k)
        for base in f.__mro__[1:]:
            m = E.classes.get((base, 'sub'))
            if m is not None:
                return m(f, *a, **k)
        if is_sym(a) or is_sym(k) or any(isinstance(x, Sym) for x in a):
            ini = lookup(f, '__init__')
            if f.__module__.split('.')[0] in INLINE_PREFIX and isinstance(ini, types.FunctionType) and \
                    lookup(f, '__new__') is object.__new__:
                o = object.__new__(f)
                call(ini, o, *a, **k)
                return o
            if issubclass(f, BaseException):
                return f('symbolic')
            raise OutOfReach('construction of %s with symbolic arguments' % f.__name__)
        return f(*a, **k)
    if isinstance(f, Sym):
        return f(*a, **k)
    h = None
    try:
        h = E.models.get(f) or BUILTINS.get(f)
    except TypeError:
        pass
    if h is not None:
        return h(*a, **k)
    if not callable(f):
        raise TypeError('%r object is not callable' % type(f).__name__)
    slf = getattr(f, '__self__', None)
    if isinstance(slf, logging.Logger):
        return None
    if isinstance(slf, re.Pattern) and f.__name__ == 'sub' and len(a) == 2 and callable(a[0]) and isinstance(a[1], str):
        return re_sub(slf, a[0], a[1])
    if f is re.sub and len(a) == 3 and callable(a[1]) and isinstance(a[0], str) and isinstance(a[2], str):
        return re_sub(re.compile(a[0]), a[1], a[2])
    if slf is not None and type(slf) is list and getattr(f, '__name__', '') in ('append', 'insert', 'extend', 'pop'):
        return f(*a, **k)
    if slf is not None and type(slf) is dict and (is_sym(a) or any(isinstance(x, Sym) for x in a)):
        if f.__name__ == 'get' and not isinstance(a[0], Sym):
            return f(*a)
        if f.__name__ in ('update', 'setdefault') and not isinstance(a[0], Sym):
            return f(*a)
        raise OutOfReach('dict.%s with symbolic argument' % f.__name__)
    if is_sym(a) or is_sym(k) or any(isinstance(x, Sym) and not isinstance(x, SList) for x in a):
        raise OutOfReach('call of %r with symbolic arguments' % getattr(f, '__name__', f))
    return f(*[plain(x) for x in a], **k)


def re_sub(pattern, fn, text):
    """re.sub of a concrete text by a function whose results may be symbolic."""
    parts = []
    pos = 0
    for m in pattern.finditer(text):
        if m.start() > pos:
            parts.append(str_e(text[pos:m.start()]))
        parts.append(str_e(call(fn, m)))
        pos = m.end()
    if pos < len(text):
        parts.append(str_e(text[pos:]))
    if not parts:
        return ''
    return SStr(z3.Concat(*parts) if len(parts) > 1 else parts[0])


def b_len(x):
    f = getattr(x, 'dv_len', None)
    if f is not None:
        return f()
    g = lookup(type(x), '__len__')
    if isinstance(g, types.FunctionType) and repo_function(g):
        return call(g, x)
    return len(x)


def type_(x):
    if isinstance(x, SInt):
        return int
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SStr):
        return str
    if isinstance(x, SList):
        return list
    f = getattr(x, 'dv_type', None)
    if f is not None:
        return f()
    if isinstance(x, Sym):
        raise OutOfReach('type() of %s' % type(x).__name__)
    return type(x)


def b_isinstance(x, c):
    if isinstance(x, Sym):
        if isinstance(c, (tuple, list)):
            for y in c:
                if bool(b_isinstance(x, y)):
                    return True
            return False
        if isinstance(x, SBool):
            return issubclass(bool, c)
        if isinstance(x, SInt):
            return issubclass(int, c)
        if isinstance(x, SReal):
            return issubclass(float, c)
        if isinstance(x, SStr):
            return issubclass(str, c)
        if isinstance(x, SList):
            return issubclass(list, c)
        if isinstance(x, SDict):
            return issubclass(dict, c)
        f = getattr(x, 'dv_isinstance', None)
        if f is not None:
            return f(c)
        raise OutOfReach('isinstance of %s' % type(x).__name__)
    return isinstance(x, c)


def b_getattr(o, name, *d):
    if isinstance(name, Sym):
        raise OutOfReach('getattr with symbolic name')
    try:
        return attr(o, name)
    except AttributeError:
        if d:
            return d[0]
        raise


def b_hasattr(o, name):
    try:
        attr(o, name)
        return True
    except AttributeError:
        return False


def b_setattr(o, name, v):
    return setattr_(o, name, v)


def b_str(x=''):
    if isinstance(x, SStr):
        return x
    if isinstance(x, Sym):
        f = getattr(x, 'dv_str', None)
        if f is not None:
            return f()
        return SStr(str_of(x))
    g = lookup(type(x), '__str__')
    if isinstance(g, types.FunctionType) and repo_function(g) and is_sym(vars(x) if hasattr(x, '__dict__') else None):
        return call(g, x)
    return builtins.str(x)


def b_int(x=0, base=None):
    if isinstance(x, (SInt, SBool)):
        return SInt(int_e(x))
    if isinstance(x, SReal) and base is None:
        return SInt(z3.If(x._e >= 0, z3.ToInt(x._e), -z3.ToInt(-x._e)))
    if isinstance(x, SStr):
        E = cur()
        m = E.models.get(int)
        if m is not None:
            return m(x) if base is None else m(x, base)
        if base is None:
            # only the digit strings are modelled
            if E.branch(z3.StrToInt(x._e) >= 0):
                return SInt(z3.StrToInt(x._e))
            raise OutOfReach('int() of a symbolic non-digit string')
        raise OutOfReach('int(str, base)')
    f = getattr(x, 'dv_int', None)
    if f is not None:
        return f() if base is None else f(base)
    g = lookup(type(x), '__int__')
    if isinstance(g, types.FunctionType) and repo_function(g):
        return call(g, x)
    return builtins.int(x) if base is None else builtins.int(x, base)


def b_float(x=0.0):
    if isinstance(x, SStr) and cur().models.get(float) is not None:
        return cur().models[float](x)
    if isinstance(x, SInt):
        return SReal(z3.ToReal(x._e))
    if isinstance(x, SReal):
        return x
    f = getattr(x, 'dv_float', None)
    if f is not None:
        return f()
    if isinstance(x, Sym):
        raise OutOfReach('float() of symbolic')
    return float(x)


def b_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return SBool(x._e != 0)
    return bool(x)


def b_list(x=None):
    if x is None:
        return SList([])
    r = aslist(x)
    if isinstance(r, DictView):
        return r
    r = r.dv_snapshot()
    return r


def b_iter(x, *s):
    return iter_(x)


def b_next(it, *d):
    if hasattr(it, 'dv_next'):
        v = it.dv_next()
        if v is STOP:
            if d:
                return d[0]
            raise StopIteration
        return v
    if isinstance(it, Obj) and isinstance(lookup(it.pycls, '__next__') if it.pycls else None, types.FunctionType):
        try:
            return callm(it, '__next__')
        except StopIteration:
            if d:
                return d[0]
            raise
    if isinstance(it, Sym):
        raise OutOfReach('next()')
    g = lookup(type(it), '__next__')
    if isinstance(g, types.FunctionType) and repo_function(g):
        try:
            return call(g, it)
        except StopIteration:
            if d:
                return d[0]
            raise
    return next(it, *d)


class SRange(Sym):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def dv_iter(self):
        return RangeIter(self.lo, self.hi, self.step)


class RangeIter(Sym):
    symbolic = True

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
        self.pos = lo
        self.serial = cur().next_serial()

    def dv_iter(self):
        return self

    def dv_snapshot(self):
        r = RangeIter(self.lo, self.hi, self.step)
        r.pos = self.pos
        return r

    def dv_havoc(self):
        E = cur()
        self.pos = E.fresh('rpos', z3.IntSort())
        if self.step > 0:
            E.assume(z3.And(self.pos >= self.lo, z3.Or(self.pos <= self.hi, self.pos == self.lo)))
        else:
            E.assume(z3.And(self.pos <= self.lo, z3.Or(self.pos >= self.hi, self.pos == self.lo)))
        if abs(self.step) != 1:
            E.assume((self.pos - self.lo) % self.step == 0)
        E.touch(self)

    def dv_next(self):
        E = cur()
        if E.branch(self.pos >= self.hi if self.step > 0 else self.pos <= self.hi):
            return STOP
        v = SInt(self.pos)
        self.pos = z3.simplify(self.pos + self.step)
        E.touch(self)
        return v

    def __iter__(self):
        while True:
            x = self.dv_next()
            if x is STOP:
                return
            yield x


def b_range(*a):
    if not any(isinstance(x, Sym) for x in a):
        return range(*a)
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if isinstance(step, Sym):
        raise OutOfReach('range step')
    return SRange(int_e(lo), int_e(hi), step)


class EnumIter(Sym):
    def __init__(self, it, start=0):
        self.it = it
        self.symbolic = getattr(it, 'symbolic', False)
        self.i = z3.IntVal(start)
        # how far the count is ahead of the position of the enumerated iterator
        self.off = self.i - it.pos if hasattr(it, 'pos') else None
        self.serial = cur().next_serial()

    def dv_iter(self):
        return self

    def dv_snapshot(self):
        r = EnumIter(core.snapshot(self.it))
        r.i, r.off = self.i, self.off
        return r

    def dv_havoc(self):
        self.it.dv_havoc()
        self.i = cur().fresh('enum', z3.IntSort())
        if self.off is not None:
            cur().assume(self.i == self.it.pos + self.off)
        cur().touch(self)

    def dv_next(self):
        v = self.it.dv_next() if hasattr(self.it, 'dv_next') else next(self.it, STOP)
        if v is STOP:
            return STOP
        i = z3.simplify(self.i)
        self.i = z3.simplify(self.i + 1)
        return (i.as_long() if z3.is_int_value(i) else SInt(i), v)

    def __iter__(self):
        while True:
            x = self.dv_next()
            if x is STOP:
                return
            yield x


def b_enumerate(x, start=0):
    return EnumIter(iter_(x), start)


def b_reversed(x):
    if isinstance(x, (list, tuple, str)) and not isinstance(x, Sym):
        return reversed(x)
    if isinstance(x, range):
        return reversed(x)
    r = aslist(x).dv_snapshot()
    r.reverse()
    return r.dv_iter()


def b_zip(*xs):
    its = [iter_(x) for x in xs]
    if any(getattr(i, 'symbolic', False) for i in its):
        raise OutOfReach('zip over symbolic iterables')
    out = []
    while True:
        row = []
        for i in its:
            v = i.dv_next() if hasattr(i, 'dv_next') else next(i, STOP)
            if v is STOP:
                return iter(out)
            row.append(v)
        out.append(tuple(row))


def b_sorted(x, key=None, reverse=False):
    r = aslist(x)
    if r.items is not None and not is_sym(r.items):
        return SList(sorted(plain(r), key=key, reverse=reverse))
    raise OutOfReach('sorted')


def minmax(name):
    def f(*a, **k):
        if len(a) == 1:
            a = tuple(aslist(a[0]).items or ())
        if any(isinstance(x, Sym) for x in a):
            if k:
                raise OutOfReach(name)
            r = a[0]
            for x in a[1:]:
                c = cmp('<' if name == 'min' else '>', x, r)
                r = x if bool(c) else r
            return r
        return getattr(builtins, name)(*a, **k)
    return f


def b_any(x):
    for y in plain_iter(x):
        if bool(y):
            return True
    return False


def b_all(x):
    for y in plain_iter(x):
        if not bool(y):
            return False
    return True


def b_abs(x):
    if isinstance(x, SInt):
        return SInt(z3.If(x._e < 0, -x._e, x._e))
    if isinstance(x, SReal):
        return SReal(z3.If(x._e < 0, -x._e, x._e))
    return abs(x)


def b_ord(x):
    if isinstance(x, SStr):
        E = cur()
        if E.branch(z3.Length(x._e) != 1):
            raise TypeError('ord() expected a character')
        return SInt(z3.StrToCode(x._e))
    f = getattr(x, 'dv_ord', None)
    if f is not None:
        return f()
    return ord(x)


def b_chr(x):
    if isinstance(x, SInt):
        E = cur()
        if E.branch(z3.Or(x._e < 0, x._e > 0x10ffff)):
            raise ValueError('chr() arg not in range')
        h = getattr(E.contract, 'chr', None)
        if h is not None:
            return h(E, x)
        return SStr(z3.StrFromCode(x._e))
    return chr(x)


def b_divmod(a, b):
    return (bin('//', a, b), bin('%', a, b))


def b_tuple(x=()):
    r = aslist(x)
    if r.items is None:
        raise OutOfReach('tuple of symbolic list')
    return tuple(r.items)


def b_dict(*a, **k):
    if a and isinstance(a[0], SDict):
        return a[0].dv_snapshot()
    return mkdict(dict(*a, **k))


def b_callable(x):
    return callable(x)


def b_super(c, o):
    if isinstance(o, (SRef, Obj)):
        return SuperProxy(c, o)
    return super(c, o)


def b_print(*a, **k):
    return None


def b_issubclass(a, b):
    f = getattr(a, 'dv_issubclass', None)
    if f is not None:
        return f(b)
    return issubclass(a, b)


def b_id(x):
    return id(x)


BUILTINS = {
    len: b_len, isinstance: b_isinstance, getattr: b_getattr, hasattr: b_hasattr, setattr: b_setattr, str: b_str,
    int: b_int, float: b_float, bool: b_bool, list: b_list, iter: b_iter, next: b_next, range: b_range,
    enumerate: b_enumerate, reversed: b_reversed, zip: b_zip, sorted: b_sorted, min: minmax('min'),
    max: minmax('max'), any: b_any, all: b_all, abs: b_abs, ord: b_ord, chr: b_chr, divmod: b_divmod,
    tuple: b_tuple, dict: b_dict, type: None, super: b_super, print: b_print, issubclass: b_issubclass,
}


def b_type(*a, **k):
    if len(a) == 1:
        return type_(a[0])
    h = cur().classes.get(type)
    if h is not None:
        return h(*a)
    if is_sym(a):
        raise OutOfReach('dynamic class creation')
    return type(*a, **k)


BUILTINS[type] = b_type
