"""C20 proof layer: saving (whatever the file held before), restoring (whatever the file holds), what is kept of each
labelled object, and which files are read at the start of a run."""
import builtins
import glob
import os
import pickle

import z3

import plasTeX
from plasTeX import Context as CT, Compile as CP, Renderers as R
from plasTeX.Packages import xr as XR
from dv import hooks
from dv.core import LoopSpec, OutOfReach
from dv.sym import Sym, SDict, SRef, SStr, SBool, Obj, KRef, KStr, str_e, const_fun

LEVEL = 'other'


class File:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def read(self, *a):
        raise OutOfReach('the content of the file')


def file_models(E, content, written, exists=None):
    """content: fn() -> what is loaded, or raises; written: list."""
    E.models[builtins.open] = lambda fn, mode='r', *a, **k: (fn, mode, File())[2] if not reading(mode) else opened(E)
    E.models[os.path.exists] = lambda fn: E.choose('exists') if exists is None else exists
    E.models[os.path.isfile] = E.models[os.path.exists]

    def rm(fn):
        if E.choose('cannot-remove'):
            raise OSError('not allowed')
    E.models[os.remove] = rm
    E.models[os.unlink] = rm
    E.models[pickle.load] = lambda fh, *a, **k: content()
    E.models[pickle.dump] = lambda d, fh, *a, **k: written.append(d)


def reading(mode):
    return 'r' in mode


def opened(E):
    if E.choose('cannot-open'):
        raise OSError('not allowed')
    return File()


FAILURES = [pickle.UnpicklingError('x'), EOFError('x'), AttributeError('x'), ValueError('x'), MemoryError('x'), TypeError('x'), KeyError('x'), ImportError('x')]


def failure(E):
    k = 0
    while k < len(FAILURES) - 1 and E.choose('other-failure'):
        k += 1
    raise FAILURES[k]


class Save:
    name = 'Context.persist'
    proves = ('for any number of labels and whatever the file held before (no file, one that cannot be opened or read, any object): nothing is raised, and what is written holds under this '
              'renderer exactly the labels of this document, each with the data of its object, and under any other renderer what it held')
    assumptions = ['pickle.load returns an object or raises an Exception, pickle.dump writes the object it is given', 'the previous object is one of: not a mapping, or a mapping with any of this '
                   'renderer, another renderer, and values that are or are not mappings']
    covers = ['written', 'kept-other', 'previous-unreadable']

    def run(self, E):
        class Rec(SRef):
            pass

        class Node(SRef):
            def m_persist(self, attrs=None):
                return KRef(Rec).wrap(DATA(self._e))
        DATA = z3.Function('data-of', KRef(Node).sort, KRef(Rec).sort)
        labels = SDict.fresh(KStr, KRef(Node), 'labels')
        other = {'old': {'id': 'old'}}
        held = []

        def content():
            k = 0
            while k < 8 and E.choose('another-content'):
                k += 1
            if k == 0:
                E.cover('previous-unreadable')
                failure(E)
            c = [None, None, 5, ['HTML5'], {}, {'XHTML': other}, {'HTML5': {'gone': {}}, 'XHTML': other}, {'HTML5': 7}, {'HTML5': {'gone': 3}, 'XHTML': None}][k]
            held.append(c)
            return c
        written = []
        file_models(E, content, written)
        class Mapping(Sym):
            """a new mapping: constant keys as they are, symbolic keys in `sym`"""
            def __init__(self, d):
                self.native, self.sym = dict(d), SDict.empty(KStr, KRef(Rec), 'data')

            def side(self, k):
                return self.native if isinstance(k, str) else self.sym

            def dv_setitem(self, k, v):
                hooks.setitem(self.side(k), k, v)

            def dv_getitem(self, k):
                return hooks.getitem(self.side(k), k)

            def dv_contains(self, k):
                return hooks.contains(self.side(k), k)

            def dv_isinstance(self, c):
                return issubclass(dict, c)

            def keys(self):
                return self.native.keys()

            def items(self):
                return self.native.items()
        self.new_dict = lambda E, d: Mapping(d)

        def symbolic(d):
            if not isinstance(d, Mapping) or d.native:
                raise OutOfReach('the mapping written')
            return d.sym

        def inv(c):
            it = c.it
            d = symbolic(c._loc['data'])
            k = z3.Const('k!inv', z3.StringSort())
            return [('so-far', z3.ForAll([k], z3.Select(d.dom, k) == z3.Select(it.seen, k))),
                    ('its-data', z3.ForAll([k], z3.Implies(z3.Select(it.seen, k), z3.Select(d.val, k) == DATA(labels.get_e(k)))))]
        E.loops[('plasTeX.Context:Context.persist', 0)] = LoopSpec(inv, modifies=lambda c: [symbolic(c._loc['data'])], kind='for')
        ctx = Obj(CT.Context, {'persistentLabels': labels}, {}, label='context')
        hooks.call(CT.Context.__dict__['persist'], ctx, 'a.paux', 'HTML5')
        E.cover('written')
        if len(written) == 1 and not isinstance(written[0], (Mapping, dict)):
            raise OutOfReach('the mapping written')
        top = {} if not written else written[0].native if isinstance(written[0], Mapping) else written[0]
        E.prove('written#once', z3.BoolVal(len(written) == 1 and 'HTML5' in top))
        if 'HTML5' not in top:
            return
        d = symbolic(top['HTML5'])
        k = z3.Const('k!post', z3.StringSort())
        E.prove('written#exactly-the-labels', z3.ForAll([k], z3.Select(d.dom, k) == labels.has(k)))
        E.prove('written#data', z3.ForAll([k], z3.Implies(labels.has(k), z3.Select(d.val, k) == DATA(labels.get_e(k)))))
        if held and isinstance(held[0], dict) and isinstance(held[0].get('XHTML'), dict):
            E.cover('kept-other')
            E.prove('kept-other#unchanged', z3.BoolVal(top.get('XHTML') is other and other == {'old': {'id': 'old'}}))


class Restore:
    name = 'Context.restore'
    proves = ('for any number of saved labels and whatever the file holds: nothing is raised; every saved label whose data can be applied names an object with that data, the others and '
              'all labels that were not saved are as before; the warning flag is as before')
    assumptions = ['pickle.load returns an object or raises an Exception', 'whether an object can be made for, and given, a record depends only on the record']
    covers = ['restored', 'no-file', 'unreadable', 'no-data']

    def run(self, E):
        class Node(SRef):
            def m_restore(self, rec):
                if not isinstance(rec, Rec) or not E.branch(APPLIES(rec._e)):
                    raise TypeError('cannot be applied')
                E.assume(FROM(self._e) == rec._e)

        class Rec(SRef):
            def m_get(self, name, default=None):
                if not E.branch(MAPPING(self._e)):
                    raise AttributeError('get')
                E.prove('restored#asks-for-its-macro', z3.BoolVal(name == 'macroName'), 'callee-precondition')
                return ('macro of', self._e)
        APPLIES, MAPPING, KNOWN = (z3.Function(n, KRef(Rec).sort, z3.BoolSort()) for n in ('applies', 'mapping', 'known-macro'))
        FROM = z3.Function('restored-from', KRef(Node).sort, KRef(Rec).sort)

        def good(r):
            return z3.And(MAPPING(r), KNOWN(r), APPLIES(r))
        saved = SDict.fresh(KStr, KRef(Rec), 'saved')
        labels = SDict.fresh(KStr, KRef(Node), 'labels')
        dom0, val0 = labels.dom, labels.val
        loaded = []
        fail = []

        def content():
            k = 0
            while k < 5 and E.choose('another-content'):
                k += 1
            if k == 0:
                fail.append(1)
                failure(E)
            if k == 5:
                loaded.append(1)
                return {'XHTML': {'gone': 1}, 'HTML5': saved}
            return [None, None, ['HTML5'], {'XHTML': saved}, {'HTML5': 5}][k]
        file_models(E, content, [])

        def macro(self_, key):
            if not (isinstance(key, tuple) and key[0] == 'macro of'):
                raise OutOfReach('which macro')
            if not E.branch(KNOWN(key[1])):
                raise TypeError('unhashable')
            return lambda: KRef(Node).wrap(E.fresh('node', KRef(Node).sort))
        E.contracts['plasTeX.Context:Context.__getitem__'] = macro

        def inv(c):
            k = z3.Const('k!inv', z3.StringSort())
            s = c.it.seen
            took = z3.And(z3.Select(s, k), good(saved.get_e(k)))
            return [('which', z3.ForAll([k], z3.Select(labels.dom, k) == z3.Or(z3.Select(dom0, k), took))),
                    ('others', z3.ForAll([k], z3.Implies(z3.Not(took), z3.Select(labels.val, k) == z3.Select(val0, k)))),
                    ('own-data', z3.ForAll([k], z3.Implies(took, FROM(z3.Select(labels.val, k)) == saved.get_e(k))))]
        E.loops[('plasTeX.Context:Context.restore', 0)] = LoopSpec(inv, modifies=lambda c: [labels], kind='for')
        flag = E.choose('flag')
        ctx = Obj(CT.Context, {'labels': labels, 'warnOnUnrecognized': flag}, {'__getitem__': macro}, label='context')
        hooks.call(CT.Context.__dict__['restore'], ctx, 'a.paux', 'HTML5')
        E.prove('restored#flag', z3.BoolVal(hooks.attr(ctx, 'warnOnUnrecognized') is flag))
        k = z3.Const('k!post', z3.StringSort())
        if loaded:
            E.cover('restored')
            took = z3.And(saved.has(k), good(saved.get_e(k)))
            E.prove('restored#every-label', z3.ForAll([k], z3.Implies(took, z3.And(labels.has(k), FROM(labels.get_e(k)) == saved.get_e(k)))))
            E.prove('restored#no-other', z3.ForAll([k], z3.Implies(z3.Not(took), z3.And(labels.has(k) == z3.Select(dom0, k), labels.get_e(k) == z3.Select(val0, k)))))
        else:
            E.cover('unreadable' if fail else 'no-data')
            E.cover('no-file')
            E.prove('nothing#as-before', z3.ForAll([k], z3.And(labels.has(k) == z3.Select(dom0, k), labels.get_e(k) == z3.Select(val0, k))))


NAMES = ['macroName', 'ref', 'title', 'captionName', 'id', 'url']


class Kept:
    name = 'Macro.persist and Macro.restore'
    proves = ('the data of an object holds each of its number, title, caption name, identifier and address that it has, as text if it is a node, and nothing else; an object given such data has '
              'the same number, title, caption name and identifier, and that address overrides its own')
    assumptions = ['the text of a node is what str gives']
    covers = ['kept', 'given']

    def run(self, E):
        if E.choose('giving'):
            given = {n: 'value of ' + n for n in NAMES if E.choose('has-' + n)}
            m = Obj(None, {}, {}, label='node')
            hooks.call(plasTeX.Macro.__dict__['restore'], m, dict(given))
            E.cover('given')
            for n in NAMES:
                f = 'urloverride' if n == 'url' else n
                if n in given:
                    E.prove('given#' + n, z3.BoolVal(hooks.b_getattr(m, f, None) == given[n]))
                else:
                    E.prove('given#no-' + n, z3.BoolVal(hooks.b_getattr(m, f, None) is None))
            return
        class Text(Obj):
            def dv_str(self):
                return 'text of a node'
        text = Text(plasTeX.TeXFragment, {}, {}, label='text')
        has = {}
        for n in NAMES:
            has[n] = 'plain ' + n if E.choose('plain-' + n) else text if n in ('ref', 'title', 'captionName') and E.choose('node-' + n) else None
        m = Obj(None, dict(has, refAttributes=NAMES), {}, label='node')
        E.prove('kept#names', z3.BoolVal(set(NAMES) <= set(plasTeX.Macro.refAttributes)))
        res = hooks.call(plasTeX.Macro.__dict__['persist'], m)
        E.cover('kept')
        want = {n: 'text of a node' if v is text else v for n, v in has.items() if v is not None}
        E.prove('kept#exactly', z3.BoolVal(dict(res) == want))


class Address:
    name = 'Renderable.url of a restored object'
    proves = 'an object with an overriding address has that address'
    assumptions = []
    covers = ['override']

    def run(self, E):
        E.classes[R.URL] = lambda s: s
        s = SStr(z3.String('saved-url'))
        node = Obj(R.Renderable, {'urloverride': s, 'id': 'x', 'filename': None, 'config': {'document': {'base-url': 'http://ex.org/b' if E.choose('base') else ''}}}, {}, label='node')
        res = hooks.attr(node, 'url')
        E.cover('override')
        E.prove('override#address', str_e(res) == s._e)


class Config(dict):
    def __missing__(self, k):
        raise OutOfReach('another option: %s' % k)


class Start:
    name = 'Compile.parse'
    proves = ('at the start of a run, every .paux file of the working directory and the configured directories except that of the document itself is restored, once each, with the data of the '
              'configured renderer, before the document is parsed')
    assumptions = ['glob.glob lists the matching files; directories with 0 to 2 files each, one configured directory']
    covers = ['restored', 'own-skipped']
    scope = 'one configured directory, at most two files in a directory'

    def run(self, E):
        log = []
        here = ['/w/' + n for n in (['mydoc.paux'] if E.choose('other') else []) + (['doc.paux'] if E.choose('own') else [])]
        there = ['/lib/' + n for n in (['x.paux'] if E.choose('x') else []) + (['doc.paux'] if E.choose('own-there') else [])]
        E.models[glob.glob] = lambda p, *a, **k: {'/w/*.paux': here, '/lib/*.paux': there}[p]
        E.models[os.getcwd] = lambda: '/w'
        rname = 'HTML5' if E.choose('renderer') else 'XHTML'
        config = {'logging': {'logging': {}}, 'files': {'log': False, 'input-encoding': 'utf-8'}, 'document': {'title': ''}, 'general': {'renderer': rname, 'paux-dirs': ['/lib'], 'packages-dirs': [], 'plugins': [], 'debug': False},
                  'images': {'enabled': False}}
        ctx = Obj(None, {}, {'restore': lambda self_, f, r='none': log.append((f, r))}, label='context')
        doc = Obj(None, {'context': ctx, 'userdata': {}, 'config': config}, {}, label='document')
        tex = Obj(None, {'jobname': 'doc', 'ownerDocument': doc}, {'parse': lambda self_, *a: log.append('parse'), 'fileLogging': lambda self_: None}, label='tex')
        E.classes[plasTeX.TeXDocument] = lambda *a, **k: doc
        from plasTeX.TeX import TeX
        E.classes[TeX] = lambda *a, **k: tex
        E.models[CP.updateLogLevels] = lambda *a: None
        hooks.call(CP.parse, 'doc.tex', Config(config))
        want = [(f, rname) for f in here + there if not f.endswith('/doc.paux')]
        E.cover('restored' if want else 'own-skipped')
        if len(want) < len(here + there):
            E.cover('own-skipped')
        E.prove('restored#each-once', z3.BoolVal(sorted(x for x in log if x != 'parse') == sorted(want)))
        E.prove('restored#before-parsing', z3.BoolVal(log[-1:] == ['parse'] and log.count('parse') == 1))


class External:
    name = 'xr load_paux'
    proves = 'whatever the file of another document holds, the result is a mapping and nothing is raised'
    assumptions = ['pickle.load returns an object or raises an Exception']
    covers = ['loaded', 'nothing']

    def run(self, E):
        whole = {'HTML5': {'a': {'ref': '1'}}}

        def content():
            k = 0
            while k < 4 and E.choose('another-content'):
                k += 1
            if k == 0:
                failure(E)
            return [None, None, 5, ['HTML5'], whole][k]
        file_models(E, content, [])
        res = hooks.call(XR.load_paux, 'a.paux')
        E.cover('loaded' if res is whole else 'nothing')
        E.prove('loaded#mapping', z3.BoolVal(isinstance(res, dict) and (res is whole or res == {})))


CONTRACTS = [Save, Restore, Kept, Address, Start, External]
