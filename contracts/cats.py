"""Category tables (shared by C01 and C04): a table entry is a set of characters (z3 set), a table a list of 16 of them."""
import z3

import plasTeX.Context
from plasTeX.Context import Context, ContextItem
from plasTeX.Tokenizer import DEFAULT_CATEGORIES, VERBATIM_CATEGORIES
from dv import hooks
from dv.core import OutOfReach, cur
from dv.sym import Sym, SInt, SBool, SStr, SList, Obj, int_e

I = z3.IntSort()
SetS = z3.ArraySort(I, z3.BoolSort())


class Char(Sym):
    def __init__(self, e):
        self.e = e

    def __hash__(self):
        raise OutOfReach('hash of a character')

    def __bool__(self):
        return True

    def dv_eq(self, o):
        if isinstance(o, Char):
            return SBool(self.e == o.e)
        if isinstance(o, str):
            return len(o) == 1 and SBool(self.e == ord(o))
        raise OutOfReach('character == %r' % (o,))

    def dv_in(self, c):
        if isinstance(c, str):
            if len(c) > 40:
                raise OutOfReach('character in a long literal')
            return SBool(z3.Or([self.e == ord(x) for x in c]) if c else z3.BoolVal(False))
        raise OutOfReach('character in %s' % type(c).__name__)

    def dv_bin(self, op, o, swapped):
        return NotImplemented


class CharSet(Sym):
    """a string used as a set of characters"""
    def __init__(self, e):
        self.e = e

    def __hash__(self):
        raise OutOfReach('hash of a set')

    def __bool__(self):
        raise OutOfReach('truth of a category')

    def dv_contains(self, c):
        return SBool(z3.Select(self.e, code_of(c)))

    def replace(self, c, by):
        if by != '':
            raise OutOfReach('replace by %r' % (by,))
        return CharSet(z3.Store(self.e, code_of(c), z3.BoolVal(False)))

    def dv_bin(self, op, o, swapped):
        if op == '+':
            if isinstance(o, CharSet):
                raise OutOfReach('union of categories')
            return CharSet(z3.Store(self.e, code_of(o), z3.BoolVal(True)))
        return NotImplemented


def code_of(c):
    if isinstance(c, Char):
        return c.e
    if isinstance(c, str) and len(c) == 1:
        return z3.IntVal(ord(c))
    raise OutOfReach('character expected, got %r' % (c,))


def table(E, name='cat'):
    """an arbitrary category table: 16 disjoint sets; nothing is listed under 12"""
    t = [z3.Const('%s%d' % (name, i), SetS) for i in range(16)]
    return t, SList([CharSet(e) for e in t])


def disjoint(t, x):
    return z3.And([z3.Not(z3.And(z3.Select(t[i], x), z3.Select(t[j], x))) for i in range(16) for j in range(i)] + [z3.Not(z3.Select(t[12], x))])


def code_in(t, x):
    e = z3.IntVal(12)
    for i in range(16):
        e = z3.If(z3.Select(t[i], x), i, e)
    return e


def sets(l):
    if not isinstance(l, SList) or l.items is None or len(l.items) != 16 or not all(isinstance(x, CharSet) for x in l.items):
        raise OutOfReach('category table is %r' % (l,))
    return [x.e for x in l.items]


class WhichCode:
    name = 'Context.whichCode'
    proves = 'for every category table (16 disjoint sets) and every character: its code is the one whose set lists it, 12 if none does'
    covers = ['code']

    def run(self, E):
        t, l = table(E)
        x = z3.Int('x')
        E.assume(disjoint(t, x))
        ctx = Obj(Context, {'categories': l}, {}, label='context')
        r = hooks.callm(ctx, 'whichCode', Char(x))
        E.cover('code')
        E.prove('code', int_e(r) == code_in(t, x))


class Catcode:
    name = 'Context.catcode / setVerbatimCatcodes'
    proves = ('for every table, character and code: afterwards that character has that code and every other one its old code (so the sets stay '
              'disjoint), in the innermost frame and for lookups; the table shared with the other frames is not modified; the verbatim table '
              'makes every character a letter or other; the default and verbatim tables are disjoint')
    covers = ['catcode', 'verbatim']

    def run(self, E):
        t, l = table(E)
        x, y = z3.Ints('x y')
        E.assume(z3.And(disjoint(t, x), disjoint(t, y)))
        other, top = (Obj(ContextItem, {'categories': l}, {}, label=n) for n in ('outer frame', 'inner frame'))
        ctx = Obj(Context, {'categories': l, 'contexts': SList([other, top])}, {}, label='context')
        old = list(l.items)
        if E.choose('verbatim'):
            hooks.callm(ctx, 'setVerbatimCatcodes')
            E.cover('verbatim')
            c = ctx.f['categories']
            c = c.items if isinstance(c, SList) else c
            E.prove('verbatim#table', z3.BoolVal(list(c) == VERBATIM_CATEGORIES and len(c) == 16))
            E.prove('verbatim#fresh-table', z3.BoolVal(ctx.f['categories'] is not VERBATIM_CATEGORIES and ctx.f['categories'] is top.f['categories']))
            E.prove('verbatim#letter-or-other', z3.BoolVal(not ''.join(c[:11] + c[12:])))
            for tab in (DEFAULT_CATEGORIES, VERBATIM_CATEGORIES):
                s = ''.join(tab)
                E.prove('tables-are-disjoint', z3.BoolVal(len(set(s)) == len(s) and len(tab) == 16))
        else:
            k = 0
            while k < 15 and E.choose('code'):
                k += 1
            hooks.callm(ctx, 'catcode', Char(x), k)
            E.cover('catcode')
            new = sets(ctx.f['categories'])
            E.prove('catcode#set', code_in(new, x) == k)
            E.prove('catcode#others-keep-theirs', z3.Implies(x != y, code_in(new, y) == code_in(t, y)))
            E.prove('catcode#disjoint', z3.And(disjoint(new, x), disjoint(new, y)))
            E.prove('catcode#in-the-innermost-frame', z3.BoolVal(top.f['categories'] is ctx.f['categories']))
        E.prove('shared-table-not-modified', z3.BoolVal(other.f['categories'] is l and l.items == old if all(a is b for a, b in zip(l.items, old)) else False))
        E.prove('outer-frame-keeps-its-table', z3.BoolVal(other.f['categories'] is l and len(ctx.f['contexts'].items) == 2))
