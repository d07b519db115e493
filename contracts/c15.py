"""C15 proof layer: the generator body is verified as a generator: the driver asks for
names, checks the contract at every yield, rebinds the namespace arbitrarily, and resumes;
the wildcard loops are cut by invariants, so the result holds for every number of requests,
every wildcard list and every expansion function."""
import z3

from plasTeX import Filenames as F
from dv import hooks
from dv.core import LoopSpec, OutOfReach
from dv.sym import (Sym, SInt, SBool, SStr, SList, SDict, Obj, Cell, Field, KInt, KStr, KBool, KOpt, KOpaque, str_e, int_e,
                    replace_all)

LEVEL = 'other'

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
T = z3.DeclareSort('Template')
N = z3.DeclareSort('Name')
HasNum = z3.Function('HasNum', T, B)             # contains ${num}
HasNumW = z3.Function('HasNumW', T, B)           # contains ${num.w}
KT = KOpaque('Template', {'${num}': lambda e: HasNum(e), '${num.': lambda e: HasNumW(e)})
KN = KOpaque('Name')
Bound = z3.Function('Bound', T, I, B)            # template, namespace version: every variable is bound
Exp = z3.Function('Exp', T, I, I, N)             # template, number, namespace version: its expansion
Ext = z3.Function('WithExt', N, N)
GEN = 'plasTeX.Filenames:Filenames._newFilename'


def isnum(item):
    return z3.Or(HasNum(item), HasNumW(item))


def exp(item, num, ver):
    return Exp(item, z3.If(isnum(item), num, z3.IntVal(0)), ver)


class Generator:
    name = 'Filenames._newFilename'
    proves = ('every name issued is neither reserved nor issued before, and is recorded; static names are tried first, '
              'in order, each once; then every request goes through the alternatives in order and issues the first one '
              'that is bound and unused; the number starts at 1 and advances exactly when a bound numbered candidate is '
              'formed; the namespace is back to the initial one after every issued name and untouched otherwise; a '
              'refusal happens only when every bound alternative is unnumbered and taken; a pass that issues nothing '
              'and does not refuse has advanced the number')
    assumptions = ['expand and addExtension by their own contracts', 'at most 2 static names in the proof (unrolled); '
                   'the wildcard has any number of alternatives',
                   'no endless loop: every pass that neither issues nor refuses advances the number, and a template '
                   'with $num gives different names for different numbers (paper step)']
    engine = {}

    def run(self, E):
        ver = Cell(0, 'namespace')               # 0: the initial namespace
        reqver = Cell(0, 'namespace-of-the-request')
        want = Cell(1, 'next-number')
        last = Cell(z3.Const('no_candidate', N), 'last-candidate')
        pending = Cell(False, 'candidate-pending')
        pos = Cell(0, 'position')
        inv = SDict.fresh(KN, KOpt(KInt), 'invalid')
        n = 0
        while n < 2 and E.choose('static'):
            n += 1
        statics = [KT.wrap(z3.Const('static%d' % i, T)) for i in range(n)]
        wild = SList.fresh(KT, 'wild') if E.choose('wildcard') else None
        if wild is not None:
            E.assume(wild.n() >= 1)
        elif n == 0:
            return
        files = statics + ([wild] if wild is not None else [])
        if wild is None:
            alts, statics = [statics[-1]], statics[:-1]
        phase = Cell(False, 'wildcard-phase')

        ns = Obj(dict, {}, {'clear': lambda s: ver.set(z3.IntVal(-1)),
                            'update': lambda s, g: ver.set(z3.IntVal(0) if g == 'initial' else E.fresh('ver', I)),
                            'copy': lambda s: s}, label='variables')

        def alt(i):
            if wild is not None:
                return z3.Select(wild.arr, wild.lo + i)
            return alts[0]._e
        nalts = wild.n() if wild is not None else z3.IntVal(1)

        def resolved(why):
            # whatever candidate was formed before has been issued or was taken
            E.prove('candidate-issued-or-taken(%s)' % why, z3.Implies(pending.e, inv.has(Ext(last.e))))

        def expand(slf, item, num):
            item, num = KT.unwrap(item), int_e(num)
            resolved('next-candidate')
            E.prove('bindings-kept-during-the-request', ver.e == reqver.e)
            i = counters['static']
            if i < len(statics):
                E.prove('statics-in-order', item == statics[i]._e)
                counters['static'] += 1
            else:
                E.prove('alternatives-in-order', z3.And(pos.e < nalts, item == alt(pos.e)))
                pos.set(pos.e + 1)
            bound = Bound(item, ver.e)
            if not E.branch(bound):
                pending.set(False)
                raise KeyError('unbound')
            E.prove('next-number', z3.Implies(isnum(item), num == want.e))
            want.set(want.e + z3.If(isnum(item), z3.IntVal(1), z3.IntVal(0)))
            r = exp(item, num, ver.e)
            last.set(r)
            pending.set(True)
            return KN.wrap(r)
        counters = {'static': 0}
        E.contracts['plasTeX.Filenames:Filenames.expand'] = expand
        E.contracts['plasTeX.Filenames:Filenames.addExtension'] = lambda s, f: KN.wrap(Ext(KN.unwrap(f)))

        j = z3.Int('j')

        def dead(upto):
            """The alternatives before `upto` were tried in vain."""
            return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < upto, Bound(alt(j), ver.e)),
                                             z3.Or(isnum(alt(j)), inv.has(Ext(exp(alt(j), 0, ver.e))))))

        def anynum(upto):
            return z3.Exists([j], z3.And(0 <= j, j < upto, Bound(alt(j), ver.e), isnum(alt(j))))
        ghosts = [ver, reqver, want, last, pending, pos]

        def inv_while(c):
            pos.set(z3.IntVal(0))       # a pass starts at the first alternative
            return [('number', z3.And(int_e(c.num) == want.e, want.e >= 1)),
                    ('bindings-kept', ver.e == reqver.e),
                    ('resolved', z3.Implies(pending.e, inv.has(Ext(last.e)))),
                    ('statics-done', z3.BoolVal(counters['static'] == len(statics)))]

        def measure(c):
            return None

        def inv_for(c):
            p = c.it.pos
            return [('number', z3.And(int_e(c.num) == want.e, want.e >= 1, want.e >= int_e(c.entry.num))),
                    ('order', pos.e == p),
                    ('resolved', z3.Implies(pending.e, inv.has(Ext(last.e)))),
                    ('tried-in-vain', dead(p)),
                    ('numbered', z3.And(hooks.cmp('==', c.numbered, True)._e if isinstance(c.numbered, Sym) else z3.BoolVal(bool(c.numbered)),) == anynum(p)),
                    ('numbered-advanced', z3.Implies(anynum(p), int_e(c.num) > int_e(c.entry.num)))]
        if wild is not None:
            E.loops[(GEN, 3)] = LoopSpec(inv_for, modifies=lambda c: [want, last, pending, pos],
                                         kinds={'numbered': KBool, 'num': KInt, 'result': KN, 'item': KT}, kind='for')
        E.loops[(GEN, 2)] = LoopSpec(inv_while, modifies=lambda c: ghosts + [inv], kinds={'num': KInt, 'numbered': KBool, 'result': KN, 'item': KT},
                                     kind='while')
        slf = Obj(F.Filenames, {'files': files, 'variables': ns, 'invalid': inv, 'charsub': None,
                                'extension': SStr(z3.String('ext'))}, label='filenames')
        gen = hooks.callm(slf, '_newFilename', 'initial')
        for req in range(len(statics) + 2):
            # bindings made for this request
            nver = E.fresh('ver', I)
            E.assume(z3.Or(nver == ver.e, nver > 0))
            ver.set(nver)
            reqver.set(nver)
            ver0, num0 = ver.e, want.e
            dom0 = inv.dom
            r = next(gen)
            if r is None:
                E.cover('refused')
                resolved('refusal')
                E.prove('refused-only-in-the-wildcard-phase', counters['static'] == len(statics))
                k = z3.Int('k')
                E.prove('refused-only-when-nothing-is-left', z3.ForAll([k], z3.Implies(
                    z3.And(0 <= k, k < nalts, Bound(alt(k), ver.e)),
                    z3.And(z3.Not(isnum(alt(k))), inv.has(Ext(exp(alt(k), 0, ver.e)))))))
            else:
                E.cover('issued')
                E.prove('issued-the-candidate', z3.And(pending.e, KN.unwrap(r) == Ext(last.e)))
                # in the wildcard phase the state at the loop head is arbitrary: compare with
                # the set just before the name was recorded
                d = self.before(inv, r)
                E.prove('unique', d if d is not None else z3.BoolVal(False))
                E.prove('recorded', inv.has(KN.unwrap(r)))
                E.prove('namespace-reset', ver.e == 0)
                if counters['static'] <= len(statics) and pos.e is not None and z3.is_int_value(pos.e) and pos.e.as_long() == 0:
                    E.cover('static-issued')
        return
    covers = ['refused', 'issued', 'static-issued']

    @staticmethod
    def before(inv, r):
        """Not in the domain before the last update, which must be the update that records r."""
        d = inv.dom
        if not (z3.is_store(d)):
            return None
        old, key = d.arg(0), d.arg(1)
        return z3.And(key == KN.unwrap(r), z3.Not(z3.Select(old, KN.unwrap(r))))


class Next:
    name = 'Filenames.__next__ / __call__'
    proves = 'a refusal of the generator is reported as ValueError, every name is passed on unchanged'

    def run(self, E):
        refuse = E.choose('refuse')
        name = KN.wrap(z3.Const('name', N))

        class Gen(Sym):
            def dv_next(self):
                return None if refuse else name

            def dv_iter(self):
                return self
        slf = Obj(F.Filenames, {'newFilename': Gen()}, label='filenames')
        try:
            r = hooks.call(F.Filenames.__call__, slf)
        except ValueError:
            E.prove('error-only-on-refusal', refuse)
            E.cover('error')
            return
        E.prove('name-passed-on', z3.BoolVal(not refuse) if not isinstance(r, Sym) or r is None else z3.And(
            z3.BoolVal(not refuse), KN.unwrap(r) == name._e))
        E.cover('name')
    covers = ['error', 'name']


FirstWords = z3.Function('FirstWords', S, I, S)


class Words(Sym):
    """value.split()[:n], kept abstract."""
    def __init__(self, s, n=None):
        self.__dict__.update(s=s, n=n)

    def dv_getitem(self, i):
        if isinstance(i, slice) and i.start is None and i.step is None and self.n is None and isinstance(i.stop, int):
            return Words(self.s, i.stop)
        raise OutOfReach('split()[%r]' % (i,))

    def dv_join(self, sep):
        if sep == ' ' and self.n is not None:
            return SStr(FirstWords(self.s, z3.IntVal(self.n)))
        raise OutOfReach('join of words')


class Value(SStr):
    def split(self, *a):
        if a:
            raise OutOfReach('split with a separator')
        return Words(self._e)


TEMPLATES = [['${num}'], ['sect', '${num.4}', '.html'], ['${title}'], ['${title.3}'], ['a-', '${id}', '_', '${title.2}'],
             ['${title.1}', '-', '${title.3}', '-', '${title}'], ['${num.2}', '${num}', '${id.1}'], ['plain'],
             ['${ref}', 'x', '${name}', '${num.3}']]
CHARSUBS = [None, (': #$%^&*!~`"\'=?/{}[]()|<>;\\,.', '-'), (' ', '_'), ('?.', '')]


class Expand:
    name = 'Filenames.expand'
    proves = ('for every value of every variable and every number: the template with $num zero-padded to the width, every '
              'other variable cut to its first n words and then cleaned of the forbidden characters; KeyError exactly when '
              'a variable is missing')
    assumptions = ['%d templates x %d forbidden sets enumerated (values and numbers symbolic)' % (len(TEMPLATES), len(CHARSUBS)),
                   "' '.join(value.split()[:n]) is 'the first n words'", 'str.replace as SMT-LIB str.replace_all']
    bound = 1

    def run(self, E):
        import re
        ti = 0
        while ti < len(TEMPLATES) - 1 and E.choose('template'):
            ti += 1
        ci = 0
        while ci < len(CHARSUBS) - 1 and E.choose('charsub'):
            ci += 1
        t, cs = TEMPLATES[ti], CHARSUBS[ci]
        num = SInt(z3.Int('num'))
        E.assume(z3.And(num._e >= 1, num._e < 10000))
        keyre = re.compile(r'\$\{(\w+)(?:\.(\d+))?\}$')
        need = [keyre.match(p).group(1) for p in t if p.startswith('$')]
        vals, missing = {}, False
        for v in sorted(set(need) - {'num'}):
            if E.choose('bound'):
                vals[v] = Value(z3.String('v_' + v))
            else:
                missing = True
        slf = Obj(F.Filenames, {'variables': vals, 'charsub': cs}, label='filenames')
        try:
            r = hooks.callm(slf, 'expand', ''.join(t), num)
        except KeyError:
            E.prove('error-only-when-a-variable-is-missing', missing)
            E.cover('unbound')
            return
        E.prove('bound', not missing)
        out = []
        for p in t:
            m = keyre.match(p)
            if not m:
                out.append(z3.StringVal(p))
            elif m.group(1) == 'num':
                w = int(m.group(2) or 0)
                d = z3.IntToStr(num._e)
                k = z3.Length(d)
                pad = z3.StringVal('')
                for z in range(1, w):
                    pad = z3.If(k == w - z, z3.StringVal('0' * z), pad)
                out.append(z3.Concat(pad, d))
            else:
                e = vals[m.group(1)]._e
                if m.group(2):
                    e = FirstWords(e, z3.IntVal(int(m.group(2))))
                if cs:
                    for ch in cs[0]:
                        e = replace_all(e, z3.StringVal(ch), z3.StringVal(cs[1]))
                out.append(e)
        E.prove('expansion', str_e(r) == (z3.Concat(*out) if len(out) > 1 else out[0]))
        E.cover('bound')
    covers = ['unbound', 'bound']


class AddExtension:
    name = 'Filenames.addExtension'
    proves = 'the extension is added exactly when the name has none, and the name is otherwise unchanged'
    assumptions = ['os.path.splitext splits its argument in two parts, the second being the extension']

    def run(self, E):
        import os.path
        f, ext = SStr(z3.String('f')), SStr(z3.String('ext'))
        root, e = z3.String('root'), z3.String('e')

        def splitext(x):
            E.prove('splits-the-name', str_e(x) == f._e)
            E.assume(f._e == z3.Concat(root, e))
            return (SStr(root), SStr(e))
        E.models[os.path.splitext] = splitext
        slf = Obj(F.Filenames, {'extension': ext}, label='filenames')
        r = hooks.callm(slf, 'addExtension', f)
        E.prove('extension', str_e(r) == z3.If(e == z3.StringVal(''), z3.Concat(f._e, ext._e), f._e))
        E.cover('returns')
    covers = ['returns']


CONTRACTS = [Generator, Next, Expand, AddExtension]
