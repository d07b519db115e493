"""C16 proof layer: how each kind of option takes a value from a file and from the command line, interpolation on
access, the order in which files, sections and keys are read, and the order of the layers in main."""
import argparse
import configparser

import z3

from plasTeX import ConfigManager as CM
from plasTeX import Config, client
from dv import hooks
from dv.core import LoopSpec, OutOfReach, cur
from dv.sym import SInt, SBool, SStr, SReal, SList, SRef, Obj, Sym, Cell, KInt, KStr, KRef, int_e, str_e, const_fun, RefSort

LEVEL = 'other'
M = 'plasTeX.ConfigManager:'
S = z3.StringVal
I = z3.IntSort()
j = z3.Int('j')


def option(cls, value, name='opt', **methods):
    return Obj(cls, {'name': name, 'value': value, 'options': ['--opt'], 'description': ''}, methods, label='option')


class Scalar:
    name = 'ConfigOption.updateFromDict'
    proves = 'a command-line value replaces the value of a string, integer, float or boolean option, whatever it is; an option that was not given keeps its value'
    covers = ['given', 'absent']

    def run(self, E):
        kinds = [(CM.StringOption, SStr(z3.String('old')), SStr(z3.String('new'))), (CM.IntegerOption, SInt(z3.Int('old')), SInt(z3.Int('new'))),
                 (CM.FloatOption, SReal(z3.Real('old')), SReal(z3.Real('new'))), (CM.BooleanOption, SBool(z3.Bool('old')), SBool(z3.Bool('new')))]
        k = 0
        while k < 3 and E.choose('next'):
            k += 1
        cls, old, new = kinds[k]
        o = option(cls, old)
        given = E.choose('given')
        data = {'other': 'x', 'opt': new} if given else {'other': 'x', 'opt': None} if E.choose('none') else {'other': 'x'}
        hooks.callm(o, 'updateFromDict', data)
        E.cover('given' if given else 'absent')
        E.prove('given-replaces' if given else 'absent-keeps', o.f['value']._e == (new if given else old)._e)


class FromFile:
    name = 'setFromString'
    proves = ('a string from a file becomes the string itself, the integer it denotes, the float it denotes, or the truth value it spells, for every '
              'accepted spelling of booleans in any case; anything else is an error and not a boolean')
    assumptions = ['int(s) and float(s) are the numbers the string denotes; spellings of booleans enumerated']
    covers = ['str', 'int', 'float', 'bool', 'error']

    def run(self, E):
        s = z3.String('text')
        INT, FLOAT = z3.Function('int', z3.StringSort(), I), z3.Function('float', z3.StringSort(), z3.RealSort())
        E.models[int] = lambda v, base=10: SInt(INT(str_e(v)))
        E.models[float] = lambda v: SReal(FLOAT(str_e(v)))
        k = 0
        while k < 3 and E.choose('next'):
            k += 1
        if k == 0:
            o = option(CM.StringOption, 'old')
            hooks.callm(o, 'setFromString', SStr(s))
            E.cover('str')
            E.prove('string', str_e(o.f['value']) == s)
        elif k == 1:
            o = option(CM.IntegerOption, 4)
            hooks.callm(o, 'setFromString', SStr(s))
            E.cover('int')
            E.prove('integer', int_e(o.f['value']) == INT(s))
        elif k == 2:
            o = option(CM.FloatOption, 1.5)
            hooks.callm(o, 'setFromString', SStr(s))
            E.cover('float')
            E.prove('float', o.f['value']._e == FLOAT(s))
        else:
            words = [('yes', True), ('true', True), ('on', True), ('1', True), ('no', False), ('false', False), ('off', False), ('0', False), ('maybe', None), ('', None)]
            n = 0
            while n < len(words) - 1 and E.choose('word'):
                n += 1
            w, want = words[n]
            c = 0
            while c < 2 and E.choose('case'):
                c += 1
            w = [w, w.upper(), w.capitalize()][c]
            old = E.choose('old')
            o = option(CM.BooleanOption, old)
            try:
                hooks.callm(o, 'setFromString', w)
                got = o.f['value']
            except ValueError:
                got = None
            E.cover('bool' if want is not None else 'error')
            E.prove('boolean', z3.BoolVal(got is want))


class Entry(SRef):
    pass


class Grow(Sym):
    """A list that things are appended to; how many of the entries it got is a ghost."""
    def __init__(self, E, entries):
        self.__dict__['entries'] = entries
        self.__dict__['done'] = Cell(0, 'entries-taken')

    def dv_attr(self, n):
        if n == 'extend':
            return self.take
        raise OutOfReach('list.' + n)

    def take(self, x):
        E = cur()
        E.prove('entries-in-order', z3.And(self.done.e < self.entries.n(), x._e == self.entries.at(self.done.e)), 'callee-precondition')
        self.done.set(self.done.e + 1)

    def dv_bin(self, op, o, r=False):
        if op in ('+=', '+') and not r:
            self.take(o)
            return self
        raise OutOfReach('list ' + op)


class Lists:
    name = 'MultiStringOption.updateFromDict'
    proves = 'the lists given on the command line extend the value in the order they were given, each once, for any number of them'
    covers = ['given', 'absent']

    def run(self, E):
        entries = SList.fresh(KRef(Entry), 'entries')
        E.assume(entries.n() >= 0)
        g = Grow(E, entries)
        o = option(CM.MultiStringOption, g)
        given = E.choose('given')
        E.loops[(M + 'MultiStringOption.updateFromDict', 0)] = LoopSpec(lambda c: [('one-per-iteration', g.done.e == c.it.pos)], modifies=lambda c: [g.done], kind='for')
        hooks.callm(o, 'updateFromDict', {'opt': entries} if given else {'opt': None})
        E.cover('given' if given else 'absent')
        E.prove('all-given-none-else', g.done.e == (entries.n() if given else 0))
        E.prove('the-same-list', z3.BoolVal(o.f['value'] is g))


class Pairs:
    name = 'DictOption.updateFromDict'
    proves = 'each pair given on the command line is set, in order, with its own value converted as the option says, and nothing else'
    covers = ['given', 'absent']

    def run(self, E):
        K, V = const_fun('key', KStr), const_fun('val', KStr)

        class Pair(SRef):
            def __iter__(self):
                return iter((SStr(K(self._e)), SStr(V(self._e))))
        entries = SList.fresh(KRef(Pair), 'pairs')
        E.assume(entries.n() >= 0)
        done = Cell(0, 'pairs-set')

        def set_(o, k, v):
            E.prove('pairs-in-order', z3.And(done.e < entries.n(), str_e(k) == K(entries.at(done.e)), str_e(v) == V(entries.at(done.e))), 'callee-precondition')
            done.set(done.e + 1)
        o = option(CM.DictOption, {}, set=set_)
        given = E.choose('given')
        E.loops[(M + 'DictOption.updateFromDict', 0)] = LoopSpec(lambda c: [('one-per-iteration', done.e == c.it.pos)], kinds={'key': KStr, 'val': KStr},
                                                                 modifies=lambda c: [done], kind='for')
        hooks.callm(o, 'updateFromDict', {'opt': entries} if given else {'opt': None})
        E.cover('given' if given else 'absent')
        E.prove('all-given-none-else', done.e == (entries.n() if given else 0))


class Entries:
    name = 'DictOption.set / setFromString'
    proves = 'setting a key changes that key only, to the converted value; a comma separated string sets its pairs'
    assumptions = ['keys enumerated']
    covers = ['set', 'string']

    def run(self, E):
        v = z3.String('value')
        CONV = z3.Function('entryFromString', z3.StringSort(), I)
        old = z3.Int('old')
        d = {'a': SInt(old)}
        o = option(CM.DictOption, d, entryFromString=lambda o, s: SInt(CONV(str_e(s))))
        if E.choose('string'):
            hooks.callm(o, 'setFromString', 'b=1, c = x=2')
            E.cover('string')
            E.prove('string#pairs', z3.And(z3.BoolVal(set(d) == {'a', 'b', 'c'}), int_e(d['a']) == old, int_e(d['b']) == CONV(S('1')), int_e(d['c']) == CONV(S('x=2'))) if set(d) == {'a', 'b', 'c'} else z3.BoolVal(False))
            return
        k = 'a' if E.choose('present') else 'B'
        hooks.callm(o, 'set', k, SStr(v))
        E.cover('set')
        if set(d) != {'a', k}:
            E.prove('set#that-key-only', z3.BoolVal(False))
            return
        E.prove('set#converted', int_e(d[k]) == CONV(v))
        if k != 'a':
            E.prove('set#that-key-only', int_e(d['a']) == old)


class Wrapped(SStr):
    """A string whose % operator is what interpolation is."""
    def dv_bin(self, op, o, r=False):
        if op == '%' and not r:
            return SStr(z3.Function('interpolate', z3.StringSort(), z3.StringSort())(self._e))
        raise OutOfReach('str ' + op)


class Access:
    name = 'ConfigSection.__getitem__'
    proves = ('reading an option interpolates strings and every item of a list of strings against all sections, and gives other values as they were set; '
              'setting a plain value changes the value of that option only')
    covers = ['string', 'list', 'other', 'set']

    def run(self, E):
        ITP = z3.Function('interpolate', z3.StringSort(), z3.StringSort())
        parent = Obj(CM.ConfigManager, {}, {}, label='config')
        made = []

        def mk(p):
            made.append(p)
            return Obj(CM.InterpolationWrapper, {'inner': p}, {}, label='wrapper')
        E.classes[CM.InterpolationWrapper] = mk
        a, b = Wrapped(z3.String('a')), Wrapped(z3.String('b'))
        kinds = ['string', 'list', 'other', 'set']
        k = 0
        while k < 3 and E.choose('next'):
            k += 1
        kind = kinds[k]
        E.cover(kind)
        n = SInt(z3.Int('n'))
        v = {'string': a, 'list': [a, b], 'other': n, 'set': n}[kind]
        opt, opt2 = option(CM.ConfigOption, v), option(CM.ConfigOption, 7)
        sec = Obj(CM.ConfigSection, {'parent': parent, 'data': {'x': opt, 'y': opt2}, 'name': 's'}, {}, label='section')
        if kind == 'set':
            hooks.callm(sec, '__setitem__', 'y', SInt(z3.Int('m')))
            E.prove('set#that-option', int_e(opt2.f['value']) == z3.Int('m'))
            E.prove('set#no-other', z3.And(int_e(opt.f['value']) == n._e, z3.BoolVal(sec.f['data'] == {'x': opt, 'y': opt2} if False else list(sec.f['data']) == ['x', 'y'])))
            return
        r = hooks.callm(sec, '__getitem__', 'x')
        if kind == 'string':
            E.prove('string#interpolated', z3.And(str_e(r) == ITP(a._e), z3.BoolVal(all(p is parent for p in made) and made != [])))
        elif kind == 'list':
            l = r if isinstance(r, list) else r.items
            E.prove('list#every-item', z3.And(str_e(l[0]) == ITP(a._e), str_e(l[1]) == ITP(b._e)) if len(l) == 2 else z3.BoolVal(False))
        else:
            E.prove('other#as-it-was-set', int_e(r) == n._e)


class Lookup:
    name = 'InterpolationWrapper.__getitem__'
    proves = 'a %(name)s reference is the value of the first section that has the option, for any number of sections; an unknown name is an error'
    covers = ['found', 'missing']

    def run(self, E):
        HAS, VAL = const_fun('has', KInt), const_fun('val', KInt)

        class Sec(SRef):
            def dv_getitem(self, k):
                if cur().branch(HAS(self._e) == 1):
                    return SInt(VAL(self._e))
                raise KeyError(k)
        secs = SList.fresh(KRef(Sec), 'sections')
        E.assume(secs.n() >= 0)
        inner = Obj(CM.ConfigManager, {}, {'values': lambda o: secs}, label='config')
        w = Obj(CM.InterpolationWrapper, {'inner': inner}, {}, label='wrapper')
        E.loops[(M + 'InterpolationWrapper.__getitem__', 0)] = LoopSpec(lambda c: [('none-before', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.it.pos), HAS(secs.at(j)) != 1)))],
                                                                        kinds={'section': KRef(Sec)}, kind='for')
        try:
            r = hooks.callm(w, '__getitem__', 'key')
        except KeyError:
            E.cover('missing')
            E.prove('missing#no-section-has-it', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < secs.n()), HAS(secs.at(j)) != 1)))
            return
        E.cover('found')
        E.prove('found#first-section', z3.Exists([j], z3.And(0 <= j, j < secs.n(), HAS(secs.at(j)) == 1, int_e(r) == VAL(secs.at(j)),
                                                              z3.ForAll([z3.Int('k')], z3.Implies(z3.And(0 <= z3.Int('k'), z3.Int('k') < j), HAS(secs.at(z3.Int('k'))) != 1)))))


class Files:
    name = 'ConfigManager.read'
    proves = 'files are read in the order given, each by itself and once, for any number of files'
    assumptions = ['the contents of one file: see the next contract']
    covers = ['read', 'single']

    def run(self, E):
        names = SList.fresh(KStr, 'names')
        E.assume(names.n() >= 0)
        done = Cell(0, 'files-read')
        single = E.choose('single')

        def parser(**k):
            def read(o, f, *a, **k):
                if single:
                    E.prove('single#that-file', str_e(f) == S('only.cfg') if not isinstance(f, str) else z3.BoolVal(f == 'only.cfg'), 'callee-precondition')
                else:
                    E.prove('files-in-order', z3.And(done.e < names.n(), str_e(f) == names.at(done.e)), 'callee-precondition')
                done.set(done.e + 1)
            return Obj(configparser.ConfigParser, {'optionxform': None}, {'read': read, 'sections': lambda o: [], 'items': lambda o, *a: []}, label='file')
        E.classes[configparser.ConfigParser] = parser
        conf = Obj(CM.ConfigManager, {}, {'__contains__': lambda o, k: False}, label='config')
        E.loops[(M + 'ConfigManager.read', 0)] = LoopSpec(lambda c: [('one-per-iteration', done.e == c.it.pos)], kinds={'filename': KStr}, modifies=lambda c: [done], kind='for')
        hooks.callm(conf, 'read', 'only.cfg' if single else names)
        E.cover('single' if single else 'read')
        E.prove('all-files', done.e == (1 if single else names.n()))


class OneFile:
    name = 'ConfigManager.read (one file)'
    proves = ('the settings of a file go, in order and with their own values, to the option of that name in the section, in any case, or to the first '
              'dictionary option of the section under the name as it is written; unknown sections and names change nothing')
    assumptions = ['ConfigParser gives the sections, names and strings of the file; shapes enumerated: two sections, three settings']
    covers = ['read']

    def run(self, E):
        log = []

        def opt(cls, name):
            return Obj(cls, {'name': name, 'value': None}, {'setFromString': lambda o, s: log.append((name, 'set', s)), 'set': lambda o, k, v: log.append((name, k, v))}, label=name)
        plain, dct, dct2 = opt(CM.StringOption, 'plain'), opt(CM.DictOption, 'dct'), opt(CM.DictOption, 'dct2')
        secs = {'one': Obj(CM.ConfigSection, {'data': {'alpha': plain}}, {}, label='one'),
                'two': Obj(CM.ConfigSection, {'data': {'alpha': opt(CM.IntegerOption, 'int'), 'd': dct, 'e': dct2}}, {}, label='two')}
        order = ['one', 'two'] if E.choose('order') else ['two', 'nosuch', 'one']
        keys = [('alpha', 'v1'), ('Alpha', 'v2'), ('Beta', 'v3'), ('d', 'v4')]
        n = 1
        while n < 4 and E.choose('more'):
            n += 1
        items = {s: [(k, v + s) for k, v in keys[:n]] for s in order}
        xf = []

        def parser(**k):
            o = Obj(configparser.ConfigParser, {'optionxform': str.lower}, {
                'read': lambda o, f, *a, **k: [f],
                'sections': lambda o: list(order), '__contains__': lambda o, s: s in order,
                'items': lambda o, s, *a, **k: [((x if o.f['optionxform'] is str else x.lower()), v) for x, v in items[s]]}, label='file')
            xf.append(k.get('interpolation', 'default'))
            return o
        E.classes[configparser.ConfigParser] = parser
        conf = Obj(CM.ConfigManager, {}, {'__contains__': lambda o, k: k in secs, '__getitem__': lambda o, k: secs[k]}, label='config')
        hooks.callm(conf, 'read', ['f'])
        E.cover('read')
        want = []
        for s in order:
            for k, v in items[s]:
                if s == 'nosuch':
                    continue
                if k.lower() == 'alpha':
                    want.append(('plain' if s == 'one' else 'int', 'set', v))
                elif s == 'two':
                    want.append(('dct', 'set', v) if k == 'd' else ('dct', k, v))
        E.prove('each-setting-to-its-option', z3.BoolVal(log == want))
        E.prove('references-are-left-for-access', z3.BoolVal(xf == [None]))


class Layers:
    name = 'client.main'
    proves = ('main starts from the defaults with the sections of the renderers, reads the given files, then applies the command line, and runs the '
              'conversion of the given file with the result, in that order')
    covers = ['files', 'nofiles']

    def run(self, E):
        log = []
        files = E.choose('files')
        given = ['a', 'b'] if files else None
        conf = Obj(CM.ConfigManager, {}, {
            'registerArgparse': lambda o, p: log.append('register'), 'read': lambda o, f: log.append(('read', f)),
            'updateFromDict': lambda o, d: log.append(('cli', d))}, label='config')
        ns = {'config': given, 'file': 'doc.tex', 'theme': 'x'}
        E.models[Config.defaultConfig] = lambda *a, **k: (log.append('defaults'), conf)[1]
        E.models[client.collect_renderer_config] = lambda c: log.append('renderers')
        E.models[client.run] = lambda f, c: log.append(('run', f, c is conf))
        E.models[vars] = lambda o: ns
        E.models[print] = lambda *a, **k: None
        grp = Obj(None, {}, {'add_argument': lambda o, *a, **k: None}, label='group')
        E.classes[argparse.ArgumentParser] = lambda *a, **k: Obj(argparse.ArgumentParser, {}, {
            'add_argument_group': lambda o, *a, **k: grp, 'add_argument': lambda o, *a, **k: None, 'parse_args': lambda o, a: Obj(None, dict(ns), {}, label='ns')}, label='parser')
        hooks.call(client.main, ['x'])
        E.cover('files' if files else 'nofiles')
        want = ['defaults', 'renderers', 'register'] + ([('read', given)] if files else []) + [('cli', ns), ('run', 'doc.tex', True)]
        E.prove('layers-in-order', z3.BoolVal(log == want))


CONTRACTS = [Scalar, FromFile, Lists, Pairs, Entries, Access, Lookup, Files, OneFile, Layers]
