"""C14 proof layer: the address of a node (its own file, or the nearest enclosing file and its identifier), identifiers,
the entries of a table of contents, the order of the sections and the links between neighbours, index destinations."""
import z3

from plasTeX import Renderers as R
import plasTeX
from plasTeX.Base.LaTeX import Sectioning, Index
from dv import hooks
from dv.core import LoopSpec
from dv.sym import SInt, SBool, SStr, SList, SRef, Obj, Cell, KInt, KStr, KRef, KOpt, int_e, str_e, const_fun

LEVEL = 'other'


class UrlOf:
    name = 'Renderable.url'
    proves = ('for a node with a file the address is that file; otherwise, for any number of enclosing nodes, it is the file of the nearest enclosing node that has one, '
              "'#', and the identifier of the node itself; a base URL comes before it, with exactly one slash between")
    assumptions = ['file names are not empty (C15)', 'the chain of enclosing nodes is finite (termination is not decided)', 'URL(s) is the string s']
    covers = ['file', 'inside', 'base']

    def run(self, E):
        class Up(SRef):
            consts = {'isfile': KInt}

            def g_filename(self):
                unfold(self._e)
                return SStr(const_fun('file', KStr)(self._e)) if E.branch(const_fun('isfile', KInt)(self._e) != 0) else None
        Up.consts['parentNode'] = KOpt(KRef(Up))
        Up.consts['file'] = KStr
        OPT = KOpt(KRef(Up)).sort
        near = z3.Function('nearest-file', OPT, OPT)

        def unfold(s):
            E.assume(near(OPT.some(s)) == z3.If(const_fun('isfile', KInt)(s) != 0, OPT.some(s), near(const_fun('parentNode', KOpt(KRef(Up)))(s))))
        E.assume(near(OPT.none) == OPT.none)

        def of(v):
            return OPT.none if v is None else OPT.some(v._e)
        k = 0
        while k < 3 and E.choose('base'):
            k += 1
        base = ['', 'http://ex.org/b', 'http://ex.org/b/', '/b'][k]
        ident, mine = SStr(z3.String('ident')), SStr(z3.String('own-file'))
        E.assume(z3.Length(mine._e) > 0)
        first = z3.Const('parent', OPT)
        par = KOpt(KRef(Up)).wrap(first)
        own = E.choose('own-file')
        # the chain itself: the first step of the loop
        E.loops[('plasTeX.Renderers:Renderable.url', 0)] = LoopSpec(lambda c: [('same-nearest-file', near(of(c._loc['node'])) == near(first))], kinds={'node': KOpt(KRef(Up))},
                                                                     modifies=lambda c: [], kind='while')
        E.classes[R.URL] = lambda s: s
        config = {'document': {'base-url': base}}
        node = Obj(R.Renderable, {'config': config, 'parentNode': par, 'id': ident, 'filename': mine if own else None, 'urloverride': None}, {}, label='node')
        res = hooks.attr(node, 'url')
        head = z3.StringVal(base.rstrip('/') + '/' if base else '')
        if base:
            E.cover('base')
        if own:
            E.cover('file')
            E.prove('file#own-file', str_e(res) == z3.Concat(head, mine._e))
        else:
            E.cover('inside')
            f = z3.If(OPT.is_none(near(first)), z3.StringVal(''), const_fun('file', KStr)(OPT.val(near(first))))
            E.prove('inside#nearest-file-and-identifier', str_e(res) == z3.Concat(head, f, z3.StringVal('#'), ident._e))


class Ident:
    name = 'Macro.id'
    proves = ('the identifier of a node is the one a label gave it; without a label it is one from the generator, asked for once: every later question gets the same answer; '
              'labelid is the label and never a generated identifier')
    assumptions = ['the generator does not repeat an identifier (C13)']
    covers = ['label', 'generated']

    def run(self, E):
        m = Obj(plasTeX.Macro, {}, {}, label='node')
        if E.choose('label'):
            hooks.call(plasTeX.Macro.__dict__['id'].fset, m, 'lab')
            E.cover('label')
            E.prove('label#identifier', z3.BoolVal(hooks.attr(m, 'id') == 'lab' and hooks.attr(m, 'id') == 'lab'))
            if 'labelid' in plasTeX.Macro.__dict__:
                E.prove('label#labelid', z3.BoolVal(hooks.attr(m, 'labelid') == 'lab'))
        else:
            a = hooks.attr(m, 'id')
            E.cover('generated')
            E.prove('generated#there-is-one', z3.BoolVal(isinstance(a, str) and a != ''))
            E.prove('generated#same-again', z3.BoolVal(hooks.attr(m, 'id') == a))
            if 'labelid' in plasTeX.Macro.__dict__:
                E.prove('generated#no-label', z3.BoolVal(hooks.attr(m, 'labelid') is None))


def sections(E):
    class Sec(SRef):
        consts = {'isfile': KInt, 'level': KInt}

        def g_filename(self):
            return 'file.html' if E.branch(const_fun('isfile', KInt)(self._e) != 0) else None
    return Sec


class Contents:
    name = 'SectionUtils.tableofcontents'
    proves = ('for any number of subsections: the table of contents of a section is empty if its depth is below 1 or no subsection has a file; otherwise it lists the '
              'subsections with a file, or all of them if so configured, in order, each limited to that depth; the table without limit lists the same subsections')
    assumptions = ['a comprehension evaluates its condition and its element for each item, once and in order']
    covers = ['empty', 'files', 'all', 'full']

    def run(self, E):
        Sec = sections(E)
        subs = SList.fresh(KRef(Sec), 'subsections')
        E.assume(subs.n() >= 0)
        depth = z3.Int('toc-depth')
        nonfiles = E.choose('non-files')
        own = E.choose('own-depth')
        kept = []
        some = []

        def comp(E, kind, it, elt, cond):
            x = KRef(Sec).wrap(z3.Const('any-section-%d' % len(kept), KRef(Sec).sort))
            isfile = const_fun('isfile', KInt)(x._e) != 0
            ok = cond is None or bool(cond(x))
            v = elt(x) if ok else None
            kept.append((x, ok, v, isfile))
            if v is x:          # the list of subsections with a file, asked only whether it is empty
                n = z3.Int('with-file')
                some.append(n)
                r = SList.fresh(KRef(Sec), 'with-file')
                E.assume(r.n() >= 0)
                some[-1] = r.n()
                return r
            return 'listed'
        self.comprehension = comp
        made = []

        def toc(node, limit, level=1):
            made.append((node, limit, level))
            return made[-1]
        E.classes[Sectioning.TableOfContents] = toc
        s = Obj(Sectioning.SectionUtils, {'tocdepth': SInt(depth) if own else None, 'config': {'document': {'toc-depth': SInt(depth) if not own else SInt(z3.Int('unused')), 'toc-non-files': nonfiles}},
                                          'subsections': subs}, {}, label='section')
        full = E.choose('full')
        res = hooks.call(Sectioning.SectionUtils.__dict__['fulltableofcontents' if full else 'tableofcontents']._func, s)
        if res != 'listed':
            E.cover('empty')
            E.prove('empty#only-then', z3.And(z3.BoolVal(not full and isinstance(res, (list, SList))), z3.Or(depth < 1, z3.And(*[n == 0 for n in some]) if some else z3.BoolVal(False))))
            return
        x, ok, v, isfile = kept[-1]
        if not full:
            E.prove('listed#only-if', z3.And(depth >= 1, *[n != 0 for n in some]))
        E.cover('full' if full else 'all' if nonfiles else 'files')
        E.prove('listed#which', z3.BoolVal(ok) == (z3.BoolVal(True) if nonfiles else isfile))
        if ok:
            E.prove('listed#entry', z3.And(z3.BoolVal(len(made) == 1 and made[0][0] is x and made[0][2] == 1), z3.BoolVal(True) if full else int_e(made[0][1]) == depth))
            if full:
                E.prove('listed#no-limit', int_e(made[0][1]) >= 1000)


class Deeper:
    name = 'TableOfContents.__getattribute__'
    proves = ('an entry at level k of a table limited to n lists the entries below it exactly if k < n, each as an entry of level k+1 with the same limit and the same section; '
              'every other question goes to the section')
    assumptions = ['a comprehension evaluates its element for each item, once and in order']
    covers = ['below', 'limit', 'other']

    def run(self, E):
        lv, lim = z3.Ints('level limit')

        class Entry(SRef):
            def g__toc_node(self):
                return ('section of', self._e)
        subs = SList.fresh(KRef(Entry), 'entries')
        seen = []

        def comp(E, kind, it, elt, cond):
            x = KRef(Entry).wrap(z3.Const('any-entry', KRef(Entry).sort))
            seen.append((x, elt(x), cond))
            return 'listed'
        self.comprehension = comp
        real = Sectioning.TableOfContents
        node = Obj(None, {'fulltableofcontents': subs, 'title': 'the title'}, {}, label='section')
        made = []
        E.classes[real] = lambda *a: (made.append(a), a)[1]
        t = Obj(real, {'_toc_node': node, '_toc_limit': SInt(lim), '_toc_level': SInt(lv)}, {}, label='entry')
        f = real.__dict__['__getattribute__']
        if E.choose('other'):
            E.cover('other')
            E.prove('other#of-the-section', z3.BoolVal(hooks.call(f, t, 'title') == 'the title'))
            return
        res = hooks.call(f, t, 'tableofcontents' if E.choose('limited') else 'fulltableofcontents')
        if res == 'listed':
            E.cover('below')
            E.prove('below#within-the-limit', lv < lim)
            (x, v, cond), = seen
            E.prove('below#entry', z3.And(z3.BoolVal(cond is None and v[0][0] == 'section of' and z3.eq(v[0][1], x._e)), int_e(v[1]) == lim, int_e(v[2]) == lv + 1))
        else:
            E.cover('limit')
            E.prove('limit#nothing', z3.And(lv >= lim, z3.BoolVal(len(res) == 0 and not seen)))


class AllSections:
    name = 'SectionUtils.allSections'
    proves = 'for any tree of sections: the list is the section itself, then the lists of its subsections, each once and in order'
    assumptions = ['the recursive question by this contract']
    covers = ['gathered']

    def run(self, E):
        class Sec(SRef):
            def g_allSections(self):
                return ('sections of', self._e)
        subs = SList.fresh(KRef(Sec), 'subsections')
        E.assume(subs.n() >= 0)
        done = Cell(0, 'subsections-done')
        me = []

        class Out:
            pass

        def extend(o, l):
            E.prove('gathered#self-first', z3.BoolVal(me == [s]))
            E.prove('gathered#next-subsection', z3.And(z3.BoolVal(isinstance(l, tuple) and l[0] == 'sections of'), done.e < subs.n(), l[1] == subs.at(done.e)), 'callee-precondition')
            done.set(done.e + 1)
        out = Obj(None, {}, {'extend': extend}, label='sections')

        def new(E, items):
            me.extend(items)
            return out
        self.new_list = new
        s = Obj(Sectioning.SectionUtils, {'subsections': subs}, {}, label='section')
        E.loops[('plasTeX.Base.LaTeX.Sectioning:SectionUtils.allSections', 0)] = LoopSpec(lambda c: [('subsections-so-far', done.e == c.it.pos)], kinds={'item': KRef(Sec)},
                                                                                         modifies=lambda c: [done], kind='for')
        res = hooks.call(Sectioning.SectionUtils.__dict__['allSections']._func, s)
        E.cover('gathered')
        E.prove('gathered#this-list', z3.BoolVal(res is out and me == [s]))
        E.prove('gathered#every-subsection', done.e == subs.n())


class Neighbours:
    name = 'SectionUtils.links'
    proves = ('for any number of files: the link to the next file goes to the section that follows this one among those with a file, the link to the previous one to the '
              'section before it (none at the ends), the last link to the last of them; home, start, top and contents go to the document; up goes to the enclosing section')
    assumptions = ['a section occurs once among the sections of the document (C07)', 'documentSections gives the sections of the document in order (SectionUtils.allSections)',
                   'a comprehension keeps the items that satisfy its condition, in order']
    covers = ['links']

    def run(self, E):
        Sec = sections(E)
        files = SList.fresh(KRef(Sec), 'files')
        place = z3.Int('place')
        me = files.at(place)
        E.assume(z3.And(files.n() >= 1, place >= 0, place < files.n()))

        def dv_is(self, o):
            return SBool(self._e == me) if o is this else SRef.dv_is(self, o)
        Sec.dv_is = dv_is
        asked = []

        def comp(E, kind, it, elt, cond):
            x = KRef(Sec).wrap(z3.Const('any-section', KRef(Sec).sort))
            ok = cond is None or bool(cond(x))
            asked.append(ok)
            isfile = const_fun('isfile', KInt)(x._e) != 0
            E.prove('files#exactly-those-with-a-file', z3.BoolVal(ok) == isfile)
            if ok:
                E.prove('files#themselves', z3.BoolVal(elt(x) is x))
            return files
        self.comprehension = comp
        F = 'plasTeX.Base.LaTeX.Sectioning:SectionUtils.links'
        OPT = KOpt(KRef(Sec)).sort

        def of(v):
            return OPT.none if v is None else OPT.some(v._e)

        def once(i):
            return (files.at(i) == me) == (i == place)

        def inv(c):
            p = c.it.pos
            return [('place', z3.And(p >= 0, p <= files.n())),
                    ('passed', (c._loc['breaknext'] if isinstance(c._loc['breaknext'], bool) else c._loc['breaknext']._e) == (p > place)),
                    ('previous', of(c._loc['prev']) == z3.If(p == 0, OPT.none, z3.If(p <= place, OPT.some(files.at(p - 1)), z3.If(place == 0, OPT.none, OPT.some(files.at(place - 1)))))),
                    ('no-next-yet', z3.And(of(c._loc['next']) == OPT.none, p <= place + 1))]

        def head(c):
            E.assume(once(c.it.pos))
        from dv.sym import KBool
        E.loops[(F, 1)] = LoopSpec(inv, kinds={'item': KRef(Sec), 'prev': KOpt(KRef(Sec)), 'next': KOpt(KRef(Sec)), 'breaknext': KBool}, modifies=lambda c: [], kind='for', head_hook=head)
        level = plasTeX.Command.DOCUMENT_LEVEL
        # the enclosing sections: the document, and up to three others
        doc = Obj(None, {'level': level, 'parentNode': None}, {}, label='document')
        ups = [doc]
        while len(ups) < 4 and E.choose('deeper'):
            ups.append(Obj(None, {'level': len(ups) - 1, 'parentNode': ups[-1]}, {}, label='section%d' % len(ups)))
        top = len(ups) == 1 and E.choose('the-document')
        owner = Obj(None, {'userdata': {}}, {}, label='owner')
        this = Obj(Sectioning.SectionUtils, {'level': level if top else len(ups) - 1, 'parentNode': None if top else ups[-1], 'documentSections': SList.fresh(KRef(Sec), 'all'),
                                             'subsections': 'subsections', 'siblings': 'siblings', 'ownerDocument': owner, 'config': {'links': {'links': {}}}}, {}, label='section')
        nav = hooks.call(Sectioning.SectionUtils.__dict__['links']._func, this)
        E.cover('links')
        get = lambda k: nav[k] if k in nav else 'absent'
        home = this if top else doc
        E.prove('links#home', z3.BoolVal(all(get(k) is home for k in ('home', 'start', 'begin', 'first', 'top', 'origin', 'toc', 'contents', 'navigator', 'document'))))
        E.prove('links#up', z3.BoolVal(get('up') is (None if top else ups[-1]) and get('parent') is (None if top else ups[-1])))
        E.prove('links#below', z3.BoolVal(get('child') == 'subsections' and get('sibling') == 'siblings'))
        E.prove('links#breadcrumbs', z3.BoolVal(list(get('breadcrumbs')) == [this] if top else [id(x) for x in get('breadcrumbs')] == [id(x) for x in ups + [this]]))
        E.prove('links#last', of(get('last')) == OPT.some(files.at(files.n() - 1)))
        E.prove('links#next', z3.And(of(get('next')) == z3.If(place + 1 < files.n(), OPT.some(files.at(place + 1)), OPT.none)))
        E.prove('links#previous', z3.And(of(get('prev')) == z3.If(place > 0, OPT.some(files.at(place - 1)), OPT.none), of(get('previous')) == of(get('prev'))))


class IndexTarget:
    name = 'IndexDestination'
    proves = ('an entry that names a page links to the node it was written at; a cross reference ("see", "see also") links to nothing; all else is asked of that node')
    covers = ['page', 'see', 'other']

    def run(self, E):
        kinds = [Index.IndexEntry.TYPE_NORMAL, Index.IndexEntry.TYPE_SEE, Index.IndexEntry.TYPE_SEEALSO]
        k = 0
        while k < 2 and E.choose('kind'):
            k += 1
        node = Obj(None, {'url': 'the-url', 'currentSection': 'the-section'}, {}, label='node')
        d = Obj(Index.IndexDestination, {}, {}, label='destination')
        hooks.call(Index.IndexDestination.__init__, d, kinds[k], node)
        f = Index.IndexDestination.__dict__['__getattribute__']
        if E.choose('other'):
            E.cover('other')
            E.prove('other#of-the-node', z3.BoolVal(hooks.call(f, d, 'currentSection') == 'the-section'))
            return
        res = hooks.call(f, d, 'url')
        E.cover('see' if k else 'page')
        E.prove('url#target', z3.BoolVal(res == (None if k else 'the-url')))


CONTRACTS = [UrlOf, Ident, Contents, Deeper, AllSections, Neighbours, IndexTarget]
