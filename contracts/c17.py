"""C17 proof layer: the interpreter-wide switches are put back on every exit; registers, list nesting and the options of
document classes and packages write nothing to a class that other documents share (every class store reached during the
symbolic execution is an obligation)."""
import z3

import plasTeX
from plasTeX import CountCommand, DimenCommand, GlueCommand, MuDimenCommand, MuGlueCommand, ParameterCommand, Command
from plasTeX.Context import Context
from plasTeX.Packages import article, natbib, report
from dv import hooks
from dv.sym import SInt, SBool, Obj, int_e
from contracts import c05, c08, c19

LEVEL = 'other'
KINDS = [CountCommand, DimenCommand, MuDimenCommand, GlueCommand, MuGlueCommand]


def shared(label):
    def write(E, o, name, v):
        E.prove('%s#no-write-to-a-shared-class' % label, z3.BoolVal(False))
    return write


class Switches(c05.Failing):
    name = 'argument-scanning switch'


class MathSwitch(c19.Branch):
    name = 'ifthenelse: \\( and \\) switch'
    proves = 'the switch that disables \\( and \\) is off after \\ifthenelse, also when reading its test fails'
    failing = True


class ListNesting(c08.ListCounters):
    name = 'list nesting'
    proves = 'lists and items write nothing to a class; the nesting is that of the context stack of the document'
    on_class_write = staticmethod(shared('list'))


class Assign:
    name = 'register assignment'
    proves = ("assigning to a register of any kind (also through setlength and addtolength) stores the value on the document's own class of the register, "
              'writes to no other class, and leaves assignments enabled as before, also when reading the value fails')
    assumptions = ['Context.ownRegister by contract (proved below)', 'parse by contract']
    covers = ['assigned', 'disabled', 'failed', 'length']
    join = False

    def on_class_write(self, E, o, name, v):
        E.prove('assign#only-to-the-own-class', z3.BoolVal(o is self.own and name == 'value'))
        self.stored.append(v)

    def run(self, E):
        base = KINDS[0]
        for k in KINDS[1:]:
            if E.choose('not-' + base.__name__):
                base = k
            else:
                break
        cls = type('reg', (base,), {'value': base.new(3)})
        self.own = type('reg', (cls,), {'value': cls.value})
        self.stored = []
        asked = []

        def own(s, c):
            asked.append(c)
            return self.own
        ctx = Obj(None, {}, {'ownRegister': own}, label='context')
        doc = Obj(None, {'context': ctx}, label='document')
        lv = z3.Int('level')
        E.assume(lv <= 0)
        E.statics[(ParameterCommand, '_enablelevel')] = SInt(lv)
        E.statics[(ParameterCommand, 'enabled')] = SBool(lv >= 0)
        value = base.new(7)
        fails = [False]

        def parse(s, tex):
            E.prove('assign#scanning-disabled-while-reading', int_e(E.statics[(ParameterCommand, '_enablelevel')]) < lv)
            if E.choose('fails'):
                fails[0] = True
                raise ValueError('no number')
            return {'value': value}
        reg = Obj(cls, {'ownerDocument': doc}, {'parse': parse}, label='register')
        if hasattr(base, 'setlength') and E.choose('length'):
            for k in (plasTeX.dimen, plasTeX.mudimen, plasTeX.glue, plasTeX.muglue):
                E.classes[k] = lambda *a, **kw: value
            hooks.callm(reg, 'addtolength' if E.choose('add') else 'setlength', value)
            E.cover('length')
            E.prove('length#stored-once', z3.BoolVal(len(self.stored) == 1 and self.stored[0] is value and asked == [cls]))
            return
        try:
            hooks.callm(reg, 'invoke', Obj(None, {}, label='tex'))
        except ValueError:
            pass
        E.prove('assign#level-as-before', int_e(E.statics[(ParameterCommand, '_enablelevel')]) == lv)
        e = E.statics[(ParameterCommand, 'enabled')]
        E.prove('assign#enabled-as-before', (e._e if isinstance(e, SBool) else z3.BoolVal(e)) == (lv >= 0))
        if fails[0]:
            E.cover('failed')
            E.prove('assign#nothing-stored-on-failure', z3.BoolVal(self.stored == []))
        elif self.stored:
            E.cover('assigned')
            E.prove('assign#value-stored-once', z3.BoolVal(len(self.stored) == 1 and self.stored[0] is value and asked == [cls]))
            E.prove('assign#only-when-enabled', lv >= 0)
        else:
            E.cover('disabled')
            E.prove('assign#not-when-scanning', lv < 0)


class OwnRegister:
    name = 'Context.ownRegister'
    proves = ("the class a document may write to is one of its own: a new subclass with the value so far, the same one ever after; every name of the document bound to the "
              'register is bound to it, other names and the shared class are left alone')
    scope = 'up to three context frames of two names each'
    covers = ['new', 'known', 'own']

    def on_class_write(self, E, o, name, v):
        E.prove('own#no-write-to-a-shared-class', z3.BoolVal(False))

    def run(self, E):
        cls = type('hsize', (DimenCommand,), {'value': plasTeX.dimen('5pt')})
        other = type('vsize', (DimenCommand,), {'value': plasTeX.dimen('6pt')})
        otherown = type('vsize', (other,), {'value': plasTeX.dimen('7pt')})
        before = dict(vars(cls))
        frames = [{n: cls if E.choose('frame-%d-%s' % (i, n)) else other for n in ('hsize', 'alias')} for i in range(3)]
        for f in frames:
            f['mine'] = otherown
        snapshot = [dict(f) for f in frames]
        ctx = Obj(Context, {'contexts': frames, 'registers': {other: otherown}}, label='context')
        if E.choose('own'):
            r = hooks.callm(ctx, 'ownRegister', otherown)
            E.prove('own#itself', z3.BoolVal(r is otherown and frames == snapshot))
            E.cover('own')
            return
        if E.choose('known'):
            r = hooks.callm(ctx, 'ownRegister', other)
            E.prove('own#the-one-made-before', z3.BoolVal(r is otherown))
            E.cover('known')
            return
        r = hooks.callm(ctx, 'ownRegister', cls)
        E.cover('new')
        E.prove('own#not-the-shared-class', z3.BoolVal(isinstance(r, type) and r is not cls and issubclass(r, cls)))
        E.prove('own#value-so-far', z3.BoolVal(r.value == cls.value and type(r.value) is type(cls.value)))
        E.prove('own#shared-class-untouched', z3.BoolVal({k: v for k, v in vars(cls).items() if not k.startswith('@')} == before))
        E.prove('own#same-name', z3.BoolVal(plasTeX.macroName(r) == 'hsize'))
        E.prove('own#names-rebound', z3.BoolVal(all(f[k] is (r if s[k] is cls else s[k]) for f, s in zip(frames, snapshot) for k in s)))
        E.prove('own#same-ever-after', z3.BoolVal(hooks.callm(ctx, 'ownRegister', cls) is r and hooks.callm(ctx, 'ownRegister', r) is r))


def options_document(log):
    """A document with shared classes in its context; the \\the... macros are its own."""
    shared_, own = {}, {}
    for n in ('theindex', 'printindex', 'bibliography'):
        shared_[n] = type(n, (Command,), {'level': Command.CHAPTER_LEVEL, 'counter': 'chapter'})
    for n in ('thesection', 'theequation', 'thefigure', 'thetable', 'thesubsection'):
        own[n] = type(n, (plasTeX.TheCounter,), {'format': ''})
    macros = dict(shared_, **own)
    ctx = Obj(Context, {'languages': {}, 'terms': {}}, {'loadLanguage': lambda s, *a: None, '__getitem__': lambda s, k: macros[k], 'newcounter': lambda s, *a, **k: None, 'addGlobal': lambda s, k, v: (log.append((k, v)), macros.__setitem__(k, v))[0],
                            '__setitem__': lambda s, k, v: (log.append((k, v)), macros.__setitem__(k, v))[0]}, label='context')
    data = {}
    return Obj(None, {'context': ctx, 'userdata': data}, label='document'), shared_, own, data


class ClassOptions:
    name = 'document class options'
    proves = ('the options of article and report change macros of the document only: no class that other documents use is written to, and in article the '
              'index and the bibliography are sections')
    assumptions = ['Context.newcounter makes the \\the macro a class of the document (C08)']
    covers = ['article', 'report']

    def on_class_write(self, E, o, name, v):
        E.prove('class-options#no-write-to-a-shared-class', z3.BoolVal(o in self.own.values()))

    def run(self, E):
        log = []
        doc, shared_, self.own, _ = options_document(log)
        if E.choose('article'):
            hooks.call(article.ProcessOptions, {}, doc)
            E.cover('article')
            last = dict(log)
            for n, c in shared_.items():
                E.prove('article#%s-is-a-section' % n, z3.BoolVal(n in last and last[n] is not c and issubclass(last[n], c) and last[n].level == Command.SECTION_LEVEL and last[n].counter == 'section'))
        else:
            hooks.call(report.ProcessOptions, {}, doc)
            E.cover('report')
        for n, c in shared_.items():
            E.prove('class-options#%s-as-before' % n, z3.BoolVal(c.level == Command.CHAPTER_LEVEL and c.counter == 'chapter'))


class NatbibOptions:
    name = 'natbib options'
    proves = 'the options of natbib (sectionbib among them) are kept in the document and change no class'
    covers = ['options']

    def on_class_write(self, E, o, name, v):
        E.prove('natbib#no-write-to-a-shared-class', z3.BoolVal(False))

    def run(self, E):
        doc, _, self.own, data = options_document([])
        opts = {o: True for o in ('sectionbib', 'numbers', 'square') if E.choose(o)}
        hooks.call(natbib.ProcessOptions, opts, doc)
        E.cover('options')
        E.prove('natbib#options-kept-in-the-document', z3.BoolVal('natbib' in data and all(o in data['natbib'] for o in opts)))


CONTRACTS = [Switches, MathSwitch, ListNesting, Assign, OwnRegister, ClassOptions, NatbibOptions]
