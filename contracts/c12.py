"""C12 proof layer: the escaping hook for every character, the routing of everything a node renders through the hook or
a template, the replacement of image placeholders and the escaping of high characters."""
import builtins
import html
import os
import re

import z3

from plasTeX import Renderers as R
from plasTeX.Renderers import PageTemplate as PT
from plasTeX.Renderers import HTML5, XHTML
from plasTeX.DOM import Node
from dv import hooks
from dv.core import LoopSpec, OutOfReach, cur
from dv.sym import SInt, SBool, SStr, SList, SRef, Obj, Sym, Cell, KInt, KStr, KBool, KRef, int_e, str_e, const_fun

LEVEL = 'other'
S = z3.StringVal
j = z3.Int('j')
UNIT = re.compile(r'&(?:[A-Za-z][A-Za-z0-9]*|#[0-9]+|#[xX][0-9A-Fa-f]+);\Z')


class Mapped(Sym):
    """A string of any length, seen through one arbitrary character of it.  Replacing a single character acts on every
    character by itself, so what becomes of that one character is what becomes of each."""
    def __init__(self, c, piece=None, markup=False):
        self.__dict__.update(c=c, piece=piece, markup=markup)

    def isc(self, ch):
        return cur().branch(self.c == ord(ch))

    def dv_attr(self, n):
        if n == 'replace':
            return self.replace
        if n == 'translate':
            return self.translate
        if n == 'isMarkup' and self.piece is None:
            if self.markup:
                return True
            raise AttributeError(n)
        raise OutOfReach('str.' + n)

    def replace(self, a, b, *rest):
        if rest or not isinstance(a, str) or not isinstance(b, str) or len(a) != 1:
            raise OutOfReach('replacing more than a single character')
        if self.piece is None:
            return Mapped(self.c, b if self.isc(a) else None, self.markup)
        return Mapped(self.c, self.piece.replace(a, b), self.markup)

    def translate(self, table):
        if self.piece is None:
            for k, v in table.items():
                if cur().branch(self.c == k):
                    return Mapped(self.c, v if isinstance(v, str) else '' if v is None else chr(v), self.markup)
            return self
        return Mapped(self.c, self.piece.translate(table), self.markup)

    def dv_str(self):
        return self


class Hook:
    name = 'PageTemplate.textDefault'
    proves = ('for every character of a text that is not markup: <, > and & become a complete character reference of themselves, every other character '
              'either stays or becomes a complete reference of itself, so that parsing gives the same characters back and no tag or reference of the text; markup is left alone')
    assumptions = ['str.replace and str.translate act on each character by itself']
    covers = ['special', 'plain', 'markup']

    def run(self, E):
        c = z3.Int('char')
        E.assume(z3.And(c >= 0, c <= 0x10ffff))
        markup = E.choose('markup')
        t = Mapped(c, None, markup)
        r = Obj(HTML5.HTML5 if E.choose('html5') else XHTML.XHTML, {}, {}, label='renderer')
        out = hooks.callm(r, 'textDefault', t)
        if not isinstance(out, Mapped):
            raise OutOfReach('text turned into %r' % (out,))
        if markup:
            E.cover('markup')
            E.prove('markup#unchanged', z3.BoolVal(out.piece is None))
            return
        special = z3.Or([c == ord(x) for x in '<>&'])
        if out.piece is None:
            E.cover('plain')
            E.prove('unescaped-only-if-harmless', z3.Not(special))
        else:
            E.cover('special')
            p = out.piece
            complete = bool(UNIT.match(p)) or len(p) == 1 and p not in '<>&'
            E.prove('complete-reference', z3.BoolVal(complete))
            u = html.unescape(p)
            E.prove('reference-of-itself', c == ord(u) if len(u) == 1 else z3.BoolVal(False))

    def concretize(self, E, model):
        return {'char': model.eval(z3.Int('char'), model_completion=True).as_long()}

    def replay(self, inp):
        from bounded.rendering import tree
        from plasTeX.DOM import Text
        c = chr(inp['char'])
        for a, b in (('', ''), ('x', 'y'), ('&', 'lt;'), ('<', '>')):
            for cls in (HTML5.HTML5, XHTML.XHTML):
                t = a + c + b
                out = cls.textDefault(cls.__new__(cls), Text(t))
                n = tree('<p>%s</p>' % out)
                p = n.kids[0]
                if any(not isinstance(k, str) for k in p.kids) or p.all_text() != t.replace('\0', '�').replace('\r', '\n') and ord(c) > 31:
                    return 'the text %r is written as %r, which reads %r' % (t, out, p.all_text())
        return None


class Routing:
    name = 'Renderable.__str__'
    proves = ('what a node renders, for any number of children, is made of nothing but: the escaping hook applied to its text nodes and to children with '
              'a replacement string, and the results of templates for its other children; a child with a file of its own adds nothing, and its file gets '
              'the result of its layout for that child and nothing else; every child without a file adds exactly one piece, in order')
    assumptions = ['the template lookup (find) gives some callable', 'a layout is called with the child and its rendering (StaticNode)']
    covers = ['str', 'leaf', 'children']

    def run(self, E):
        ESC = z3.Function('escape', z3.IntSort(), z3.StringSort())

        class Child(SRef):
            consts = {'nodeType': KInt, 'isfile': KInt, 'hasstr': KInt, 'layout': KInt, 'modified': KInt, 'named': KInt}

            def c(self, n):
                return cur().branch(const_fun(n, KInt)(self._e) != 0)

            def g_str(self):
                return Piece('str', self) if self.c('hasstr') else None

            def g_nodeName(self):
                return 'name'

            def g_templateName(self):
                if self.c('named'):
                    return 'other'
                raise AttributeError('templateName')

            def g_attributes(self):
                return {'*modifier*': '*'} if self.c('modified') else {}

            def g_filename(self):
                return FileName(self) if self.c('isfile') else None

            def g_footnotes(self):
                return []

            def g_config(self):
                return {'files': {'output-encoding': 'utf-8'}}

        class Piece(Sym):
            def __init__(self, what, of):
                self.__dict__.update(what=what, of=of)

        class FileName(SStr):
            __slots__ = ('of',)

            def __init__(self, of):
                SStr.__init__(self, z3.Function('filename', Child_sort, z3.StringSort())(of._e))
                self.of = of

            def __bool__(self):
                return True

            def __format__(self, s):
                return 'file'
        kids = SList.fresh(KRef(Child), 'kids')
        E.assume(kids.n() >= 0)
        Child_sort = kids.arr.sort().range()
        PIECE = {k: z3.Function('piece-' + k, Child_sort, z3.StringSort()) for k in ('text', 'str', 'template', 'layout')}
        WRITTEN = []

        def hook(o, t):
            if isinstance(t, Child):
                return SStr(PIECE['text'](t._e))
            if isinstance(t, Piece):
                return SStr(PIECE['str'](t.of._e)) if t.of is not None else SStr(z3.String('escaped-own-string'))
            raise OutOfReach('hook applied to %r' % (t,))

        def template(names):
            def f(x):
                if isinstance(x, Child):
                    return SStr(PIECE['template'](x._e))
                if isinstance(x, Wrapped):
                    E.prove('layout-of-the-rendering', str_e(x.val) == PIECE['template'](x.of._e), 'callee-precondition')
                    return SStr(PIECE['layout'](x.of._e))
                raise OutOfReach('template applied to %r' % (x,))
            return f

        class Wrapped(Sym):
            def __init__(self, of, val):
                self.__dict__.update(of=of, val=val)
        E.classes[R.StaticNode] = Wrapped
        lay = E.choose('layouts')

        def find(o, names, default=None):
            if default is None and not lay:
                return None
            return template(names)

        class Out:
            def __init__(self, fn):
                self.fn = fn

            def __enter__(self):
                return Obj(None, {}, {'write': self.write}, label='file')

            def __exit__(self, *a):
                return False

            def write(self, o, v):
                of = self.fn.of
                E.prove('file-of-the-next-child', z3.And(added.e + wrote.e < kids.n(), of._e == kids.at(added.e + wrote.e), isfile(of._e)), 'callee-precondition')
                E.prove('file-gets-its-page', str_e(v) == (PIECE['layout'] if lay else PIECE['template'])(of._e), 'callee-precondition')
                wrote.set(wrote.e + 1)
        wrote = Cell(0, 'files-written')
        E.models[builtins.open] = lambda fn, mode='r', *a, **k: Out(fn) if isinstance(fn, FileName) else opened(fn)

        def opened(fn):
            raise OutOfReach('open %r' % (fn,))
        E.models[os.path.dirname] = lambda f: ''
        E.models[os.makedirs] = lambda *a, **k: None
        rend = Obj(R.Renderer, {'default': template(None)}, {'textDefault': hook, 'find': find, 'outputType': lambda o, s: s}, label='renderer')
        E.statics[(Node, 'renderer')] = rend
        shape = 0
        while shape < 2 and E.choose('shape'):
            shape += 1
        node = Obj(Node, {'childNodes': kids, 'str': Piece('str', None) if shape == 0 else None, 'nodeType': Node.ELEMENT_NODE, 'level': 1},
                   {'hasChildNodes': lambda o: shape == 2}, label='node')
        C = {k: const_fun(k, KInt) for k in Child.consts}

        def istext(x):
            return C['nodeType'](x) == Node.TEXT_NODE

        def isfile(x):
            return z3.And(z3.Not(istext(x)), C['hasstr'](x) == 0, C['isfile'](x) != 0)

        def expected(x):
            return z3.If(istext(x), PIECE['text'](x), z3.If(C['hasstr'](x) != 0, PIECE['str'](x), PIECE['template'](x)))
        added = Cell(0, 'pieces-added')

        class Acc(SList):
            """The list of pieces: how many it got is a ghost; every child adds to it or writes a file, in order."""
            __slots__ = ()

            def append(self, x):
                if not isinstance(x, SStr):
                    return SList.append(self, x)
                me = kids.at(added.e + wrote.e)
                E.prove('piece-of-the-next-child', z3.And(added.e + wrote.e < kids.n(), z3.Not(isfile(me)), str_e(x) == expected(me)), 'callee-precondition')
                added.set(added.e + 1)

            def dv_join(self, sep):
                self_.final.append(sep)
                return SStr(z3.String('everything'))
        self_ = self
        self.new_list = lambda E, items: Acc([]) if not items else None
        E.loops[('plasTeX.Renderers:Renderable.__str__', 0)] = LoopSpec(lambda c: [('one-piece-or-file-per-child', z3.And(added.e + wrote.e == c.it.pos, added.e >= 0, wrote.e >= 0))],
                                                                       kinds={'child': KRef(Child)}, modifies=lambda c: [added, wrote], kind='for')
        self.final = []

        res = hooks.call(R.Renderable.__str__, node)
        if shape == 0:
            E.cover('str')
            E.prove('str#through-the-hook', str_e(res) == z3.String('escaped-own-string'))
            return
        if shape == 1:
            E.cover('leaf')
            E.prove('leaf#nothing', str_e(res) == S(''))
            return
        E.cover('children')
        if len(self.final) != 1:
            raise OutOfReach('not one join')
        E.prove('children#nothing-else-added', z3.And(z3.BoolVal(self.final == ['']), str_e(res) == z3.String('everything')))
        E.prove('children#every-child', added.e + wrote.e == kids.n())


class Placeholder:
    name = 'PageTemplate.setImageData'
    proves = ('a stretch of text that looks like an image placeholder but does not name an image stays exactly as it was; the placeholder of an image '
              'becomes the dimension asked for, in the units asked for')
    covers = ['text', 'image']

    def run(self, E):
        known = {'bitmap': E.choose('bitmap'), 'vector': E.choose('vector'), 'static': E.choose('static')}
        dim = {'px': SStr(z3.String('in-px')), 'plain': SStr(z3.String('plain'))}

        class Length(Sym):
            def __init__(self, who):
                self.__dict__['who'] = who

            def dv_attr(self, n):
                if n == 'px':
                    return SStr(z3.String(self.who + '-px'))
                raise OutOfReach(n)

            def dv_str(self):
                return SStr(z3.String(self.who + '-plain'))

        def images(kind):
            return Obj(None, {}, {'get': lambda o, k, d=None: Obj(None, {'width': Length(kind), 'height': None, 'depth': None}, {}, label='img') if known[kind] else d}, label='images')
        r = Obj(HTML5.HTML5, {'imager': Obj(None, {'images': images('bitmap'), 'staticimages': images('static')}, {}, label='imager'),
                              'vectorImager': Obj(None, {'images': images('vector')}, {}, label='vectorimager')}, {}, label='renderer')
        units = E.choose('units')
        whole, name = SStr(z3.String('whole')), SStr(z3.String('name'))
        m = Obj(re.Match, {}, {'group': lambda o, *k: ([whole, name, 'width', 'px' if units else None][k[0] if k else 0])}, label='match')
        out = hooks.callm(r, 'setImageData', m)
        if not any(known.values()):
            E.cover('text')
            E.prove('text#unchanged', str_e(out) == whole._e)
        else:
            E.cover('image')
            who = 'bitmap' if known['bitmap'] else 'vector' if known['vector'] else 'static'
            E.prove('image#its-dimension', str_e(out) == z3.String('%s-%s' % (who, 'px' if units else 'plain')))


class HighChars:
    name = 'PageTemplate.processFileContent'
    proves = ('with high-character escaping every character above 127, in a page of any length, becomes the complete decimal reference of itself and '
              'every other character stays, in order; without it every character stays')
    assumptions = ['the replacement of image placeholders by its own contract', 'the reference is checked for every code point from 160 up, surrogates excepted (C1 controls have no reference)']
    covers = ['escaped', 'as it is']
    formats = {}

    def refers(self, fmt):
        if fmt not in self.formats:
            self.formats[fmt] = all(html.unescape(fmt % c) == chr(c) and (fmt % c).isascii() and fmt.endswith(';') for c in range(160, 0x110000)
                                    if not 0xd800 <= c < 0xe000 and not (c & 0xfffe == 0xfffe or 0xfdd0 <= c <= 0xfdef))
        return self.formats[fmt]

    def run(self, E):
        CODE = const_fun('code', KInt)
        contract = self

        class Code(SInt):
            __slots__ = ()

            def dv_bin(self, op, o, r=False):
                if op == '%' and r and isinstance(o, str):
                    E.prove('complete-reference-to-the-character', z3.BoolVal(contract.refers(o)))
                    return Ch(REF(self._e))
                raise OutOfReach('code ' + op)

        class Ch(SRef):
            def dv_ord(self):
                return Code(CODE(self._e))
        chars = SList.fresh(KRef(Ch), 'chars')
        REF = z3.Function('reference-to', z3.IntSort(), chars.arr.sort().range())
        orig, n, lo = chars.arr, chars.n(), chars.lo

        class Page(Sym):
            def dv_aslist(self):
                return chars

            def dv_iter(self):
                return hooks.iter_(chars)

        page = Page()
        E.models[re.sub] = lambda pat, fn, s, *a: s
        esc = E.choose('escape')
        doc = Obj(None, {'config': {'files': {'escape-high-chars': esc}}}, {}, label='document')
        r = Obj(PT.PageTemplate, {}, {'setImageData': lambda o, m: m}, label='renderer')
        at = lambda a, i: z3.Select(a, lo + i)

        def want(x):
            return z3.If(CODE(x) > 127, REF(CODE(x)), x)
        E.loops[('plasTeX.Renderers.PageTemplate:PageTemplate.processFileContent', 0)] = LoopSpec(
            lambda c: [('same-length', z3.And(c.s.n() == n, c.s.lo == lo)),
                       ('done-before-undone-after', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), c.s.at(j) == z3.If(j < getattr(c.it, 'it', c.it).pos, want(at(orig, j)), at(orig, j)))))],
            kinds={'item': KRef(Ch), 'i': KInt}, modifies=lambda c: [c.s], kind='for')
        self.joined = []

        def join(E, sep, parts):
            self.joined.append((sep, parts))
            return SStr(z3.String('page'))
        self.join = join
        out = hooks.callm(r, 'processFileContent', doc, page)
        if not esc:
            E.cover('as it is')
            E.prove('as-it-is', z3.BoolVal(out is page))
            return
        E.cover('escaped')
        if len(self.joined) != 1:
            raise OutOfReach('not one join')
        sep, parts = self.joined[0]
        E.prove('escaped#nothing-added', z3.And(z3.BoolVal(sep == ''), str_e(out) == z3.String('page'), parts.n() == n))
        E.prove('escaped#every-character', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), parts.at(j) == want(at(orig, j)))))


CONTRACTS = [Hook, Routing, Placeholder, HighChars]
