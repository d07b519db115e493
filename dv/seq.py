"""Lists as z3 sequences: SSeq owns its content; HList is a reference into a heap of lists, so that lists of
lists and aliases of their elements are exact."""
import z3

from dv.core import cur, OutOfReach, STOP
from dv.sym import Sym, SInt, SBool, SList, Kind, Cell, int_e, clamp, ConcreteListIter

Int = z3.IntSort()


class SSeq(Sym):
    """list of elements of one kind, content = z3 sequence"""

    def __init__(self, kind, e=None):
        self.kind = kind
        self._e = z3.Empty(z3.SeqSort(kind.sort)) if e is None else e
        self.serial = cur().next_serial()

    @property
    def e(self):
        return self._e

    @e.setter
    def e(self, v):
        cur().touch(self)
        self._e = z3.simplify(v) if not z3.is_quantifier(v) else v

    @classmethod
    def fresh(cls, kind, name):
        return cls(kind, cur().fresh(name, z3.SeqSort(kind.sort)))

    def make(self, e):
        return SSeq(self.kind, e)

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self.e)

    def __hash__(self):
        raise OutOfReach('hash of list')

    def dv_snapshot(self):
        return SSeq(self.kind, self.e)

    def dv_havoc(self):
        self.e = cur().fresh('seq', z3.SeqSort(self.kind.sort))

    def n(self):
        return z3.Length(self.e)

    def at(self, i):
        return self.e[i]

    def unit(self, x):
        return z3.Unit(self.kind.unwrap(x))

    def seq_of(self, o):
        if isinstance(o, SSeq):
            return o.e
        if isinstance(o, SeqIter):
            r = o.rest_e()
            o.pos = o.l.n()
            return r
        from dv.sym import aslist
        l = aslist(o)
        if l.items is None:
            raise OutOfReach('array list used as a sequence')
        e = z3.Empty(z3.SeqSort(self.kind.sort))
        for x in l.items:
            e = z3.Concat(e, self.unit(x))
        return e

    def __bool__(self):
        return cur().branch(z3.Length(self.e) > 0)

    def dv_len(self):
        return SInt(z3.Length(self.e))

    def append(self, x):
        self.e = z3.Concat(self.e, self.unit(x))

    def extend(self, o):
        self.e = z3.Concat(self.e, self.seq_of(o))

    def dv_iadd(self, o):
        self.extend(o)
        return self

    def dv_add(self, o):
        return self.make(z3.Concat(self.e, self.seq_of(o)))

    def dv_radd(self, o):
        return self.make(z3.Concat(self.seq_of(o), self.e))

    def dv_aslist(self):
        raise OutOfReach('sequence used as an array list')

    def clear(self):
        self.e = z3.Empty(z3.SeqSort(self.kind.sort))

    def copy(self):
        return self.make(self.e)

    def idx(self, i, exc='list index out of range'):
        E = cur()
        k, n = int_e(i), z3.Length(self.e)
        if z3.is_int_value(z3.simplify(k)):
            if z3.simplify(k).as_long() < 0:
                k = k + n
        elif E.branch(k < 0):
            k = k + n
        if E.branch(z3.Or(k < 0, k >= n)):
            raise IndexError(exc)
        return k

    def pop(self, i=-1):
        k = self.idx(i, 'pop from empty list')
        e, n = self.e, z3.Length(self.e)
        v = self.kind.wrap(e[k])
        self.e = z3.Concat(z3.SubSeq(e, z3.IntVal(0), k), z3.SubSeq(e, k + 1, n - k - 1))
        return v

    def insert(self, i, x):
        e, n = self.e, z3.Length(self.e)
        if isinstance(i, int) and i == 0:
            self.e = z3.Concat(self.unit(x), e)
            return
        k = clamp(i, n, n)
        self.e = z3.Concat(z3.SubSeq(e, z3.IntVal(0), k), self.unit(x), z3.SubSeq(e, k, n - k))

    def bounds(self, s):
        if s.step is not None:
            raise OutOfReach('slice step')
        n = z3.Length(self.e)
        lo, hi = clamp(s.start, n, z3.IntVal(0)), clamp(s.stop, n, n)
        return lo, z3.If(hi < lo, lo, hi)

    def dv_getitem(self, i):
        if isinstance(i, slice):
            lo, hi = self.bounds(i)
            return self.make(z3.SubSeq(self.e, lo, hi - lo))
        k = self.idx(i)
        return self.kind.wrap(self.e[k])

    def dv_setitem(self, i, v):
        e, n = self.e, z3.Length(self.e)
        if isinstance(i, slice):
            lo, hi = self.bounds(i)
            self.e = z3.Concat(z3.SubSeq(e, z3.IntVal(0), lo), self.seq_of(v), z3.SubSeq(e, hi, n - hi))
            return
        k = self.idx(i, 'list assignment index out of range')
        self.e = z3.Concat(z3.SubSeq(e, z3.IntVal(0), k), self.unit(v), z3.SubSeq(e, k + 1, n - k - 1))

    def dv_delitem(self, i):
        if isinstance(i, slice):
            e, n = self.e, z3.Length(self.e)
            lo, hi = self.bounds(i)
            self.e = z3.Concat(z3.SubSeq(e, z3.IntVal(0), lo), z3.SubSeq(e, hi, n - hi))
            return
        self.pop(i)

    def dv_contains(self, x):
        return SBool(z3.Contains(self.e, self.unit(x)))

    def dv_eq(self, o):
        if isinstance(o, SSeq):
            return SBool(self.e == o.e)
        if isinstance(o, (list, SList)):
            return SBool(self.e == self.seq_of(o))
        return False

    def __eq__(self, o):
        return self.dv_eq(o)

    def dv_is(self, o):
        return self is o

    def dv_iter(self):
        return SeqIter(self)

    def __iter__(self):
        raise OutOfReach('iteration outside the instrumented code')

    def __len__(self):
        raise OutOfReach('len of symbolic list')


class SeqIter(Sym):
    symbolic = True

    def __init__(self, l, pos=None):
        self.l = l
        self.pos = z3.IntVal(0) if pos is None else pos
        self.serial = cur().next_serial()

    def rest_e(self):
        return z3.SubSeq(self.l.e, self.pos, self.l.n() - self.pos)

    def dv_iter(self):
        return self

    def dv_snapshot(self):
        return SeqIter(self.l.dv_snapshot(), self.pos)

    def dv_havoc(self):
        E = cur()
        self.pos = E.fresh('pos', Int)
        E.assume(z3.And(self.pos >= 0, self.pos <= self.l.n()))
        E.touch(self)

    def dv_next(self):
        E = cur()
        if E.branch(self.pos >= self.l.n()):
            return STOP
        v = self.l.kind.wrap(self.l.e[self.pos])
        self.pos = z3.simplify(self.pos + 1)
        E.touch(self)
        return v


def list_heap(E, kind):
    """(heap of list contents for this element kind, allocation counter)"""
    key = 'lists:%s' % kind.sort
    if key not in E.heap:
        E.heap[key] = z3.Const(key, z3.ArraySort(Int, z3.SeqSort(kind.sort)))
    return key


class HList(SSeq):
    def __init__(self, kind, ref):
        self.kind, self.ref = kind, ref
        self.key = list_heap(cur(), kind)
        self.serial = -1

    @property
    def e(self):
        return z3.Select(cur().heap[self.key], self.ref)

    @e.setter
    def e(self, v):
        E = cur()
        E.touch(('heap', self.key))
        E.heap[self.key] = z3.Store(E.heap[self.key], self.ref, v)

    @classmethod
    def new(cls, E, kind, e=None):
        if 'next' not in E.ghost:
            E.ghost['next'] = Cell(1000, 'next-list')
        c = E.ghost['next']
        r = c.e
        c.set(r + 1)
        l = cls(kind, r)
        l.e = z3.Empty(z3.SeqSort(kind.sort)) if e is None else e
        return l

    def make(self, e):
        return HList.new(cur(), self.kind, e)

    def dv_is(self, o):
        if not isinstance(o, HList):
            return False
        return cur().branch(self.ref == o.ref) if self.kind.sort == o.kind.sort else False


class KHList(Kind):
    """kind of list-valued elements and locals"""
    sort = Int

    def __init__(self, kind):
        self.kind = kind

    def wrap(self, e):
        return HList(self.kind, e)

    def unwrap(self, v):
        if isinstance(v, HList):
            return v.ref
        raise OutOfReach('list expected')


def heap_lists(kind):
    """new_list hook: every list literal is a heap list of `kind`, or a list of such lists."""
    def hook(E, items):
        if not items:
            return HList.new(E, kind)
        if all(isinstance(x, HList) for x in items):
            l = HList.new(E, KHList(kind))
            for x in items:
                l.append(x)
            return l
        return None
    return hook


def seqs(kind):
    """new_list hook: empty list literals are sequences of `kind`"""
    def hook(E, items):
        return SSeq(kind) if not items else None
    return hook
