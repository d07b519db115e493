"""C13 proof layer: which nodes get a file (Renderable.filename), in which order the names are asked for, the level a
template splits at, the routing of every child either into its parent's output or into its own file, and the footnotes
that belong to a file."""
import z3

from plasTeX import Renderers as R
from plasTeX.Base.LaTeX import Sectioning
from plasTeX.DOM import Node
from dv import hooks
from dv.core import LoopSpec
from dv.sym import SInt, SBool, SList, SRef, Obj, Cell, KInt, KRef, KOpt, int_e, const_fun
from contracts import c12

LEVEL = 'other'


class Routing(c12.Routing):
    pass


class FileOf:
    name = 'Renderable.filename'
    proves = ('a node whose name was given keeps it, and nothing is asked for it again; otherwise a node has a file exactly if it has a configuration and its level is at or '
              'above its split level; the name is then asked for exactly once, with the identifier, title, number and node name of that node, and recorded')
    assumptions = ['the name generator issues names that are not empty (C15)', 'the per-node override (filenameoverride) is a separate feature: not decided']
    covers = ['known', 'no-config', 'below', 'file']

    def run(self, E):
        lv, rl, sl = z3.Ints('level split-level own-split-level')
        known = E.choose('known')
        asked, bound = [], {}
        generator = Obj(None, {'variables': bound}, {'__call__': lambda s: (asked.append(dict(bound)), 'new-name')[1]}, label='newFilename')
        fields = {'level': SInt(lv), 'nodeName': 'section', 'ownerDocument': Obj(None, {}, label='document')}
        own = E.choose('own-split-level')
        if own:
            fields['splitlevel'] = SInt(sl)
        config = not E.choose('no-config')
        if config:
            fields['config'] = {}
        ident, gen = E.choose('id'), False
        if ident:
            fields['id'] = 'ident'
            gen = E.choose('generated-id')
            if gen:
                fields['@hasgenid'] = True
        title, ref = None, None
        k = 0
        while k < 3 and E.choose('title'):
            k += 1
        if k:
            title = fields['title'] = 'a title' if k == 1 else Obj(None, {'textContent': 'a title'}, label='title') if k == 2 else None
        k2 = 0
        while k2 < 4 and E.choose('ref'):
            k2 += 1
        if k2:
            fields['ref'] = ['', '1.2', Obj(None, {'textContent': '1.2'}, label='ref'), None][k2 - 1]
        node = Obj(None, fields, {}, label='node')
        files = Obj(None, {}, {'__getitem__': lambda s, n: stored[id(n)], '__setitem__': lambda s, n, v: stored.__setitem__(id(n), v)}, label='files')
        stored = {id(node): 'old-name'} if known else {}
        E.statics[(Node, 'renderer')] = Obj(None, {'files': files, 'level': SInt(rl), 'newFilename': generator, 'fileExtension': '.html'}, label='renderer')
        prop = R.Renderable.__dict__['filename'].fget
        res = hooks.call(prop, node)
        if known:
            E.cover('known')
            E.prove('known#same-name', z3.BoolVal(res == 'old-name' and not asked))
            return
        split = sl if own else rl
        if not config:
            E.cover('no-config')
            E.prove('no-config#no-file', z3.BoolVal(res is None and not asked and not stored))
        elif res is None:
            E.cover('below')
            E.prove('below#only-below-the-split-level', lv > split)
            E.prove('below#nothing-asked', z3.BoolVal(not asked and not stored))
        else:
            E.cover('file')
            E.prove('file#at-or-above-the-split-level', lv <= split)
            E.prove('file#one-name-recorded', z3.BoolVal(len(asked) == 1 and res == 'new-name' and stored == {id(node): 'new-name'}))
            want = {'name': 'section'}
            if ident and not gen:
                want['id'] = 'ident'
            if k in (1, 2):
                want['title'] = 'a title'
            if k2 in (2, 3):
                want['ref'] = '1.2'
            E.prove('file#name-from-this-node', z3.BoolVal(bool(asked) and asked[0] == want))
            again = hooks.call(prop, node)
            E.prove('file#asked-once', z3.BoolVal(again == 'new-name' and len(asked) == 1))


class NameOrder:
    name = 'Renderer.cacheFilenames'
    proves = 'for any tree: the name of a node is asked for before those of its children, and each child is visited exactly once, in order'
    assumptions = ['the recursive call by this contract']
    covers = ['visited']

    def run(self, E):
        class Child(SRef):
            pass
        kids = SList.fresh(KRef(Child), 'kids')
        E.assume(kids.n() >= 0)
        done = Cell(0, 'children-visited')
        named = []

        def name(o):
            named.append(1)
            return 'x'

        class TheNode(Obj):
            def dv_attr(self, n):
                if n == 'filename':
                    E.prove('order#before-its-children', done.e == 0)
                    named.append(1)
                    return 'x'
                return Obj.dv_attr(self, n)
        node = TheNode(Node, {'childNodes': kids}, {'hasChildNodes': lambda o: kids.n() > 0}, label='node')
        r = Obj(R.Renderer, {'files': {}}, {}, label='renderer')

        def recursive(s, child):
            E.prove('order#next-child', z3.And(done.e < kids.n(), child._e == kids.at(done.e)), 'callee-precondition')
            done.set(done.e + 1)
        real = R.Renderer.cacheFilenames
        r.methods['cacheFilenames'] = recursive
        E.loops[('plasTeX.Renderers:Renderer.cacheFilenames', 0)] = LoopSpec(lambda c: [('children-so-far', done.e == c.it.pos)], kinds={'child': KRef(Child)}, modifies=lambda c: [done], kind='for')
        hooks.call(real, r, node)
        E.cover('visited')
        E.prove('visited#own-name-asked-for', z3.BoolVal(len(named) >= 1))
        E.prove('visited#every-child', done.e == kids.n())


class Stop(Exception):
    pass


class SplitRule:
    name = 'Renderer.render (set-up)'
    proves = ('before anything is rendered, the names are asked for from the whole document, with the configured template, forbidden characters, substitute, '
              'job name and extension; the split level is the configured one unless the template names a single file, in which case only the document is a file')
    assumptions = ['the rest of render (images) is not decided here']
    covers = ['several', 'single']

    def run(self, E):
        lv = z3.Int('configured-level')
        steps = []
        wild, space = E.choose('brackets'), E.choose('several-names')
        text = ('index [$id, sect$num]' if space else '[$id]') if wild else ('a b' if space else ' index ')
        files = {'split-level': SInt(lv), 'filename': text, 'bad-chars': ': /', 'bad-chars-sub': '-'}
        made = []

        def make(*a, **k):
            made.append((a, k))
            return 'generator'
        E.classes[R.Filenames] = make

        def cache(s, node):
            steps.append(node)
            raise Stop()
        r = Obj(R.Renderer, {'fileExtension': '.html'}, {'keys': lambda s: ['x'], 'cacheFilenames': cache}, label='renderer')
        E.models[R.mixin] = lambda *a: None
        E.statics[(Node, 'renderer')] = None
        doc = Obj(None, {'config': {'files': files, 'images': {'imager': 'none'}}, 'userdata': {'jobname': 'job'} if E.choose('jobname') else {}}, label='document')
        try:
            hooks.callm(r, 'render', doc)
        except Stop:
            pass
        E.prove('names#whole-document', z3.BoolVal(steps == [doc]))
        E.prove('names#one-generator', z3.BoolVal(len(made) == 1 and r.f.get('newFilename') == 'generator'))
        if made:
            a = made[0][0]
            E.prove('names#configured', z3.BoolVal(not made[0][1] and a[0] == text and tuple(a[1]) == (': /', '-') and a[2] == {'jobname': doc.f['userdata'].get('jobname', '')} and a[3] == '.html'))
        E.prove('names#this-renderer', z3.BoolVal(E.statics[(Node, 'renderer')] is r))
        if wild or space:
            E.cover('several')
            E.prove('several#configured-level', int_e(r.f['level']) == lv)
        else:
            E.cover('single')
            E.prove('single#document-only', int_e(r.f['level']) <= -10)


class FileFootnotes:
    name = 'SectionUtils.footnotes'
    proves = ('for any number of footnotes and any nesting of sections: the footnotes of a file are, in order and each once, exactly those whose nearest section with a file '
              'is this one, numbered 1, 2, ... in that order')
    assumptions = ['the sections around a footnote are finitely many (termination is not decided)']
    covers = ['gathered']

    def run(self, E):
        class Sec(SRef):
            consts = {'isfile': KInt}

            def dv_is(self, o):
                return SBool(self._e == me) if o is this else SRef.dv_is(self, o)

            def g_filename(self):
                unfold(self._e)
                return 'file.html' if E.branch(const_fun('isfile', KInt)(self._e) != 0) else None
        Sec.consts['currentSection'] = KOpt(KRef(Sec))
        OPT = KOpt(KRef(Sec)).sort
        near = z3.Function('nearest-file', OPT, OPT)

        def unfold(s):
            E.assume(near(OPT.some(s)) == z3.If(const_fun('isfile', KInt)(s) != 0, OPT.some(s), near(const_fun('currentSection', KOpt(KRef(Sec)))(s))))

        class Note(SRef):
            consts = {'currentSection': KOpt(KRef(Sec))}

            def g_mark(self):
                return Obj(None, {'attributes': Obj(None, {}, {'__setitem__': lambda s, k, v: number(self, k, v)}, label='attributes')}, label='mark')
        E.assume(near(OPT.none) == OPT.none)
        notes = SList.fresh(KRef(Note), 'notes')
        E.assume(notes.n() >= 0)
        me = z3.Const('me', KRef(Sec).sort)
        E.assume(const_fun('isfile', KInt)(me) != 0)
        unfold(me)

        def mine(i):
            return near(const_fun('currentSection', KOpt(KRef(Sec)))(notes.at(i))) == OPT.some(me)
        count, at, seen = Cell(0, 'gathered'), Cell(0, 'belonging'), Cell(0, 'numbered')
        MINE = z3.Function('belonging-before', z3.IntSort(), z3.IntSort())
        E.assume(MINE(0) == 0)

        class Gathered(SList):
            """The list of results: its k-th entry is what was appended k-th."""
            __slots__ = ()

            def append(self, x):
                i = at.e
                E.prove('gathered#next-footnote-of-this-file', z3.And(i < notes.n(), x._e == notes.at(i), mine(i), count.e == MINE(i)), 'callee-precondition')
                E.assume(z3.Select(self.arr, count.e) == x._e)
                count.set(count.e + 1)

            def n(self):
                return count.e
        got = Gathered(None, KRef(Note), z3.Const('gathered', z3.ArraySort(z3.IntSort(), KRef(Note).sort)), z3.IntVal(0), None)
        self.new_list = lambda E, items: None if items else got

        def number(note, k, v):
            E.prove('number#in-order', z3.And(z3.BoolVal(k == 'num'), int_e(v) == seen.e + 1, seen.e < count.e, note._e == z3.Select(got.arr, seen.e)), 'callee-precondition')
            seen.set(seen.e + 1)
        F = 'plasTeX.Base.LaTeX.Sectioning:SectionUtils.footnotes'

        def head(c):
            at.set(c.it.pos)
            E.assume(MINE(c.it.pos + 1) == MINE(c.it.pos) + z3.If(mine(c.it.pos), 1, 0))
        E.loops[(F, 0)] = LoopSpec(lambda c: [('those-of-this-file-so-far', z3.And(count.e == MINE(c.it.pos), count.e >= 0))], kinds={'f': KRef(Note), 's': KOpt(KRef(Sec))},
                                   modifies=lambda c: [count, at], kind='for', head_hook=head)

        def place(it):
            return it.it.pos if isinstance(it, hooks.EnumIter) else it.pos

        def of(v):
            return OPT.none if v is None else OPT.some(v._e)
        E.loops[(F, 1)] = LoopSpec(lambda c: [('same-nearest-file', near(of(c._loc['s'])) == near(const_fun('currentSection', KOpt(KRef(Sec)))(notes.at(at.e))))],
                                   kinds={'s': KOpt(KRef(Sec))}, modifies=lambda c: [], kind='while')
        E.loops[(F, 2)] = LoopSpec(lambda c: [('numbered-so-far', seen.e == place(c.it))], kinds={'i': KInt, 'f': KRef(Note)}, modifies=lambda c: [seen], kind='for')
        doc = Obj(None, {'userdata': Obj(None, {}, {'get': lambda s, k, d=None: notes if k == 'footnotes' else d}, label='userdata')}, label='document')

        this = Obj(Sectioning.SectionUtils, {'ownerDocument': doc}, {}, label='section')
        res = hooks.call(Sectioning.SectionUtils.__dict__['footnotes']._func, this)
        E.cover('gathered')
        E.prove('gathered#result', z3.BoolVal(res is got))
        E.prove('gathered#every-footnote-of-this-file', count.e == MINE(notes.n()))
        E.prove('gathered#all-numbered', seen.e == count.e)

CONTRACTS = [FileOf, NameOrder, SplitRule, Routing, FileFootnotes]
