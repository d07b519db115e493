"""Shared by the rendering properties: run the real renderers in a scratch directory and parse what they wrote."""
import html.parser
import os

from bounded.common import scratch

VOID = {'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr'}


def configuration(renderer='HTML5', theme='default', **over):
    """over: files__split_level=3 style keys."""
    from plasTeX.Config import defaultConfig
    from plasTeX.Renderers.HTML5.Config import addConfig
    c = defaultConfig()
    addConfig(c)
    c['images']['enabled'] = False
    c['images']['imager'] = 'none'
    c['images']['vector-imager'] = 'none'
    c['general']['renderer'] = renderer
    c['general']['theme'] = theme
    c['general']['copy-theme-extras'] = False
    for k, v in over.items():
        a, b = k.split('__')
        c[a][b.replace('_', '-')] = v
    return c


def document(src, conf, jobname='job'):
    from plasTeX import TeXDocument
    from plasTeX.TeX import TeX
    doc = TeXDocument(config=conf)
    doc.userdata['jobname'] = jobname
    doc.userdata['working-dir'] = os.getcwd()
    tex = TeX(doc)
    tex.input(src)
    tex.parse()
    return doc


def render(src, conf, encoding='utf-8', jobname='job'):
    """Render in a scratch directory; returns ({file: text}, [other files])."""
    import importlib
    with scratch():
        doc = document(src, conf, jobname)
        cls = importlib.import_module('plasTeX.Renderers.' + conf['general']['renderer']).Renderer
        try:
            cls().render(doc)
        except BaseException:
            # a failed rendering leaves the mixins on Node
            cleanup()
            raise
        out = {}
        for root, _, files in os.walk('.'):
            for f in files:
                p = os.path.relpath(os.path.join(root, f), '.')
                if p.endswith(('.html', '.htm', '.xhtml')):
                    with open(p, 'rb') as fh:
                        out[p] = fh.read()
        return doc, out


def cleanup():
    from plasTeX.DOM import Node
    from plasTeX.Renderers import unmix
    if '_mixed_' in vars(Node):
        unmix(Node)
    if 'renderer' in vars(Node):
        del Node.renderer


class N:
    __slots__ = ('tag', 'attrs', 'kids', 'parent')

    def __init__(self, tag, attrs=(), parent=None):
        self.tag, self.attrs, self.kids, self.parent = tag, dict(attrs), [], parent

    def walk(self):
        yield self
        for k in self.kids:
            if isinstance(k, N):
                yield from k.walk()

    def all_text(self):
        return ''.join(k if isinstance(k, str) else k.all_text() for k in self.kids)

    def find(self, pred):
        return [n for n in self.walk() if pred(n)]


class Parser(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = self.cur = N('#root')

    def handle_starttag(self, tag, attrs):
        n = N(tag, [(k, v if v is not None else '') for k, v in attrs], self.cur)
        self.cur.kids.append(n)
        if tag not in VOID:
            self.cur = n

    def handle_startendtag(self, tag, attrs):
        n = N(tag, [(k, v if v is not None else '') for k, v in attrs], self.cur)
        self.cur.kids.append(n)

    def handle_endtag(self, tag):
        n = self.cur
        while n is not None and n.tag != tag:
            n = n.parent
        if n is not None and n.parent is not None:
            self.cur = n.parent

    def handle_data(self, data):
        if self.cur.kids and isinstance(self.cur.kids[-1], str):
            self.cur.kids[-1] += data
        else:
            self.cur.kids.append(data)

    def handle_comment(self, data):
        self.cur.kids.append(N('#comment:' + data.strip(), (), self.cur))

    def handle_decl(self, d):
        self.cur.kids.append(N('#decl:' + d, (), self.cur))

    def handle_pi(self, d):
        self.cur.kids.append(N('#pi:' + d, (), self.cur))

    def unknown_decl(self, d):
        self.cur.kids.append(N('#unknown:' + d, (), self.cur))


def tree(s):
    p = Parser()
    p.feed(s)
    p.close()
    return p.root
