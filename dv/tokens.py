"""Token streams: an input of N tokens T(0), T(1), ... read by position, shared by the contracts on TeX.*"""
import z3

from plasTeX.Tokenizer import Token
from dv.core import cur, OutOfReach, STOP
from dv.sym import Sym, SRef, SInt, SBool, SStr, Obj, KInt, KStr, KRef, RefSort, const_fun

Int = z3.IntSort()


class TokRef(SRef):
    """A token: category code, text, name of its control sequence ('' for a character)."""
    pycls = Token
    consts = {'catcode': KInt, 'macroName': KStr, 'text': KStr}

    def dv_eq(self, o):
        if isinstance(o, SRef):
            return SBool(self._e == o._e)
        if isinstance(o, Token):
            return SBool(z3.And(text(self._e) == z3.StringVal(str(o)), catcode(self._e) == o.catcode))
        if isinstance(o, str):
            return SBool(text(self._e) == z3.StringVal(o))
        if isinstance(o, SStr):
            return SBool(text(self._e) == o._e)
        return False

    def dv_str(self):
        return SStr(text(self._e))

    def dv_int(self, base=None):
        if base is not None:
            raise OutOfReach('int(token, base)')
        return SInt(value(self._e))

    def dv_isinstance(self, c):
        return issubclass(Token, c)

    @staticmethod
    def dv_lift(v):
        """a concrete token created by the code"""
        if isinstance(v, Token):
            e = z3.Const('tok_%s_%s' % (v.catcode, str(v)), RefSort)
            return e
        raise OutOfReach('token expected')


KT = KRef(TokRef)
catcode = const_fun('catcode', KInt)
text = const_fun('text', KStr)
macroname = const_fun('macroName', KStr)
value = z3.Function('digit_value', RefSort, Int)
SeqT = z3.SeqSort(RefSort)


def empty():
    return z3.Empty(SeqT)


class Stream:
    """The tokens not yet read are T(pos) ... T(N-1)."""

    def __init__(self, E, name='T'):
        self.T = z3.Function(name, Int, RefSort)
        self.N = z3.Int('N_' + name)
        E.assume(self.N >= 0)
        self.pos = z3.IntVal(0)
        self.serial = E.next_serial()

    def dv_havoc(self):
        E = cur()
        self.pos = E.fresh('pos', Int)
        E.assume(z3.And(self.pos >= 0, self.pos <= self.N))
        E.touch(self)

    def dv_snapshot(self):
        s = Stream.__new__(Stream)
        s.T, s.N, s.pos, s.serial = self.T, self.N, self.pos, self.serial
        return s

    def tok(self, i):
        return self.T(i)

    def read(self):
        E = cur()
        if E.branch(self.pos >= self.N):
            return STOP
        v = TokRef(self.T(self.pos))
        self.pos = z3.simplify(self.pos + 1)
        E.touch(self)
        return v

    def unread(self, t):
        """pushToken of the token read last"""
        E = cur()
        E.prove('pushes-back-the-token-read-last', z3.And(self.pos > 0, t._e == self.T(self.pos - 1)), 'callee-precondition')
        self.pos = z3.simplify(self.pos - 1)
        E.touch(self)

    def iter(self):
        return StreamIter(self)


class StreamIter(Sym):
    symbolic = True

    def __init__(self, s):
        self.s = s
        self.serial = s.serial

    @property
    def pos(self):
        return self.s.pos

    def dv_iter(self):
        return self

    def dv_havoc(self):
        self.s.dv_havoc()
        cur().touch(self)

    def dv_snapshot(self):
        return StreamIter(self.s.dv_snapshot())

    def dv_same(self, t):
        return t is self or t is self.s

    def dv_next(self):
        return self.s.read()
