"""C14 bounded stand-in: every hyperlink of every file written is followed, to a file that was written and to an element
with that identifier in it; references are marked in the source, so their text and target are known."""
import importlib
import os
import posixpath
import re
from urllib.parse import unquote, urlsplit

from bounded import docgen, rendering
from bounded.common import scratch

RULE = ('documents of the shared generator (labels on sections, items, figures, tables, equations and theorems, references before and after them, footnotes, index, bibliography, table '
        'of contents) with marker words; split level -10..6, toc depth, toc-non-files, base-url, breadcrumb and local toc levels varied; HTML5 default/minimal and XHTML; '
        'non-trivial: at least one link between two files')
BOUND = 'documents of at most 12 blocks'
BUDGET = {'quick': 35, 'thorough': 600}
BATCH = 20
CASE_LIMIT = 60
WARM = ('plasTeX.Renderers.HTML5', 'plasTeX.Renderers.XHTML')
ERROR_FAILS = True
ASSUMPTIONS = ['html.parser reads the identifiers and links of the files', 'reachability is asked only of themes with a table of contents, toc-depth at least 1 and a start page named index']
LEVEL = 'bounded'

BASES = ['', '', 'http://ex.org/base', 'http://ex.org/base/', '/base']
TEMPLATES = ['index [$id, sect$num(4)]', '[$id, sect$num(4)]', 'index [$title, sect$num]', '$num(3)', 'index [$ref-$num, n$num]', 'all', 'index chap/[sect$num(3)]', 'x/[$title, n$num]']
LABELS = ['l', 'sec:', 'x.y-', 'a_', 'L ']


def cases(rng, tier):
    while True:
        g = docgen.Gen(rng, docgen.ALL, size=rng.choice([3, 6, 12]))
        d = g.doc()
        r = rng.choice(['HTML5', 'HTML5', 'XHTML'])
        yield {'doc': d, 'renderer': r, 'theme': rng.choice(['default', 'minimal']) if r == 'HTML5' else 'default', 'template': rng.choice(TEMPLATES[:6]), 'split': rng.randint(-10, 6),
               'depth': rng.choice([0, 1, 2, 3, 9]), 'non_files': rng.random() < .5, 'base': rng.choice(BASES), 'labels': rng.choice(LABELS), 'crumbs': rng.choice([-10, 0, 2]),
               'local': rng.choice([-10, 0, 1, 3]), 'shown': rng.random() < .7, 'bbl': rng.random() < .3}


def label(case, l):
    return case['labels'] + l[1:]


class Writer(docgen.Writer):
    def __init__(self, case):
        docgen.Writer.__init__(self, case['doc'], lambda n: 'mk%dx' % n)
        self.case, self.refs = case, []

    def one(self, x):
        if x[0] in ('ref', 'pageref'):
            if not self.labels:
                return ''
            l = self.labels[int(x[1] * len(self.labels))]
            self.refs.append((x[0], l))
            n = len(self.refs)
            return 'rb%dx\\%s{%s}re%dx' % (n, x[0], label(self.case, l), n)
        return docgen.Writer.one(self, x)

    def toc(self, b):
        # short forms for the lists, on some
        return '[short]' if len(repr(b)) % 3 == 0 else ''

    def lab(self, l):
        return '\\label{%s}' % label(self.case, l) if l else ''


def source(case):
    if 'src' in case:
        return case['src']
    s = Writer(case).source()
    if case.get('bbl') and case['doc']['bib']:
        i, j = s.index('\\begin{thebibliography}'), s.index('\\end{thebibliography}') + len('\\end{thebibliography}')
        return s[:i] + '\\bibliography{refs}' + s[j:]
    return s


def bbl(case):
    s = Writer(case).source() if case.get('bbl') and 'src' not in case else case.get('src', '').partition('%%BBL')[2]
    i, j = s.find('\\begin{thebibliography}'), s.find('\\end{thebibliography}')
    return s[i:j] + '\\end{thebibliography}' if i >= 0 else None


def run(case):
    src = source(case)
    refs = re.findall(r'rb(\d+)x\\(ref|pageref|eqref|autoref|cref)\{(.*?)\}re', src)
    over = {'files__filename': case['template'], 'files__split_level': case['split'], 'document__toc_depth': case['depth'], 'document__toc_non_files': case['non_files'],
            'document__base_url': case['base'], 'html5__breadcrumbs_level': case['crumbs'], 'html5__localtoc_level': case['local'], 'html5__display_toc': case['shown']}
    conf = rendering.configuration(case['renderer'], case['theme'], **over)
    with scratch():
        b = bbl(case)
        if b:
            with open('job.bbl', 'w', encoding='utf-8') as f:
                f.write(b)
        doc = rendering.document(src.partition('%%BBL')[0], conf)
        numbers = {}
        for _, _, l in refs:
            node = doc.context.labels.get(l)
            ref = getattr(node, 'ref', None)
            numbers[l] = None if ref is None else getattr(ref, 'textContent', ref)
        try:
            importlib.import_module('plasTeX.Renderers.' + case['renderer']).Renderer().render(doc)
        except BaseException:
            rendering.cleanup()
            raise
        out = {}
        for r, _, fs in os.walk('.'):
            for f in fs:
                p = os.path.relpath(os.path.join(r, f), '.')
                if p.endswith('.html'):
                    with open(p, encoding='utf-8') as fh:
                        out[p] = rendering.tree(fh.read())
        return refs, numbers, out


def signature(case, msg):
    m = re.match(r"the identifier '(footnotes|doc_title)' is given to several elements", msg)
    return 'template-identifier-' + m[1] if m else None


def titles(d):
    """label -> number of the first marker of the title of the unit that carries it"""
    out = {}
    for b in d['blocks']:
        if b[0] == 'sec' and b[4]:
            out[b[4]] = first(b[3])
    return out


def first(l):
    for x in l:
        if x[0] == 't':
            return x[1]
        if x[0] == 'b':
            n = first(x[2])
            if n is not None:
                return n


def elements(n):
    for x in n.walk():
        if not isinstance(x, str):
            yield x


class Page:
    def __init__(self, tree):
        self.ids, self.twice, self.links = {}, [], []
        for e in elements(tree):
            i = e.attrs.get('id')
            if i is not None:
                if i in self.ids:
                    self.twice.append(i)
                self.ids[i] = e
            if e.tag == 'a' and e.attrs.get('name') is not None:
                self.ids.setdefault(e.attrs['name'], e)
            h = e.attrs.get('href')
            if h is not None and (e.tag in ('a', 'area') or e.tag == 'link' and e.attrs.get('rel') not in ('stylesheet', 'icon', 'shortcut icon')):
                self.links.append((h, e))


def resolve(case, page, href):
    """(file, fragment) of an internal link, None for an external one"""
    base = case['base'].rstrip('/')
    if base and (href == base or href.startswith(base + '/') or href.startswith(base + '#')):
        href = href[len(base):].lstrip('/')
        root = ''
    else:
        root = posixpath.dirname(page)
    u = urlsplit(href)
    if u.scheme or u.netloc:
        return None
    # file names are relative to the output directory when there is a base URL
    f = posixpath.normpath(posixpath.join(root, unquote(u.path))) if u.path else page
    return f, unquote(u.fragment)


def check(case):
    refs, numbers, out = run(case)
    pages = {p: Page(t) for p, t in out.items()}
    graph = {}
    for p, g in pages.items():
        if g.twice:
            return 'the identifier %r is given to several elements of %s' % (g.twice[0], p)
        for h, e in g.links:
            if e.tag == 'a' and not h:
                return 'an empty link in %s: %r' % (p, e.all_text()[:60])
            t = resolve(case, p, h)
            if t is None:
                continue
            f, frag = t
            if f not in pages:
                return '%s links to %r, but there is no file %s' % (p, h, f)
            if frag and frag not in pages[f].ids:
                return '%s links to %r, but no element of %s has that identifier' % (p, h, f)
            graph.setdefault(p, set()).add(f)
    # references
    text = {p: flat(t) for p, t in out.items()}
    heads = {label(case, l): n for l, n in titles(case['doc']).items()} if 'doc' in case else {}
    for n, kind, l in refs:
        found = [(p, re.findall(r'rb%sx(.*?)re%sx' % (n, n), s, re.S)) for p, s in text.items()]
        found = [(p, x) for p, xs in found for x in xs]
        if not found:
            return 'the reference %s (\\%s{%s}) is not in the output' % (n, kind, l)
        if numbers[l] is None or not numbers[l].strip():
            continue
        for p, x in found:
            m = re.fullmatch('\\s*\1a ([^\2]*)\2(.*?)\3\\s*', x, re.S)
            if not m:
                return 'the reference to %s (number %s) is written as %r' % (l, numbers[l], x)
            if kind == 'ref' and m[2].strip() != numbers[l].strip():
                return 'the reference to %s shows %r, its number is %r' % (l, m[2], numbers[l])
            f, frag = resolve(case, p, m[1])
            if frag:
                if frag != l:
                    return 'the reference to %s links to %r' % (l, m[1])
            else:
                h = heads.get(l)
                if 'doc' in case and (h is None or 'mk%dx' % h not in heading(out[f])):
                    return 'the reference to %s links to the file %s, which is not that of the labelled object' % (l, f)
    # every file from the start page
    if case['template'] != 'all' and has_toc(case):
        start = [p for p in out if p == startpage(case, out)]
        if start:
            seen, todo = set(start), list(start)
            while todo:
                for f in graph.get(todo.pop(), ()):
                    if f not in seen:
                        seen.add(f)
                        todo.append(f)
            lost = sorted(set(out) - seen)
            if lost:
                return 'with a table of contents, %s cannot be reached from %s' % (lost, start[0])
    return None


def has_toc(case):
    return case['depth'] >= 1 and (case['renderer'] == 'XHTML' or case['theme'] == 'default' and case['shown'])


def startpage(case, out):
    """The file of the document itself."""
    if case['template'].startswith('index'):
        return 'index.html'
    return None


def heading(t):
    for e in elements(t):
        if re.fullmatch('h[1-6]', e.tag) and e.attrs.get('id') != 'doc_title':
            return e.all_text()
    return ''


def flat(n):
    out = []

    def go(x):
        if isinstance(x, str):
            out.append(x)
        elif x.tag in ('script', 'style', 'title'):
            return
        elif x.tag == 'a' and x.attrs.get('href') is not None:
            out.append('\1a %s\2' % x.attrs['href'])
            for k in x.kids:
                go(k)
            out.append('\3')
        else:
            for k in x.kids:
                go(k)
    go(n)
    return ''.join(out)


def nontrivial(case):
    if 'src' in case:
        return True
    d = case['doc']
    return case['template'] != 'all' and case['split'] >= -1 and any(b[0] == 'sec' and docgen.LEVEL[b[1]] <= case['split'] for b in d['blocks'])


def shrinks(case):
    if 'doc' in case:
        for d in docgen.shrink(case['doc']):
            yield dict(case, doc=d)
    else:
        for l in lines(case['src']):
            yield dict(case, src=l)
    for k, v in (('bbl', False), ('labels', 'l'), ('base', ''), ('crumbs', -10), ('local', -10), ('template', 'index [$id, sect$num(4)]'), ('depth', 9), ('non_files', False), ('shown', True)):
        if case.get(k, v) != v:
            yield dict(case, **{k: v})


def lines(src):
    ls = src.split('\n')
    for i, l in enumerate(ls):
        if not l.startswith(('\\document', '\\begin{document', '\\end{document')):
            yield '\n'.join(ls[:i] + ls[i + 1:])


HEAD = '\\documentclass{%s}\n%s\\begin{document}\n'
MORE = [
    ('article', '', r'rb1x\ref{f}re1x'[0:0] + '\\section{A}\nText\\footnote{Note\\label{f}} and rb1x\\ref{f}re1x.\n\\section{B}\nrb2x\\ref{f}re2x\\footnote{rb3x\\ref{f}re3x}\n'),
    ('article', '', '\\section{A}\nText\\footnotemark\\footnotetext{Note} and \\footnotemark[4]\\footnotetext[4]{more}.\n'),
    ('article', '\\usepackage{amsmath}\n', '\\section{A}\n\\begin{align} a &= b \\label{e1} \\\\ c &= d \\label{e2} \\end{align}\nrb1x\\ref{e1}re1x rb2x\\ref{e2}re2x\n\\section{B}\nrb3x\\ref{e2}re3x\n'),
    ('article', '', '\\section{A}\n\\begin{eqnarray} a &=& b \\label{e1} \\\\ c &=& d \\label{e2} \\end{eqnarray}\nrb1x\\ref{e1}re1x rb2x\\ref{e2}re2x\n'),
    ('article', '\\usepackage{amsthm}\n\\newtheorem{thm}{Theorem}\n\\theoremstyle{remark}\n\\newtheorem{rem}[thm]{Remark}\n', '\\section{A}\nrb1x\\ref{t}re1x rb2x\\ref{r}re2x\n\\begin{thm}\\label{t} x\\end{thm}\n\\section{B}\n\\begin{rem}\\label{r} y\\end{rem}\n\\begin{proof} z\\end{proof}\n'),
    ('book', '', '\\chapter{A}\\label{a}\nrb1x\\ref{b}re1x\n\\appendix\n\\chapter{B}\\label{b}\nrb2x\\ref{a}re2x\n\\section{C}\\label{c}\nrb3x\\ref{c}re3x\n'),
    ('article', '', '\\section{A}\n\\begin{enumerate}\n\\item a\n\\begin{enumerate}\n\\item\\label{in} b\n\\item c\\label{in2}\n\\end{enumerate}\n\\item\\label{out} d\n\\end{enumerate}\nrb1x\\ref{in}re1x rb2x\\ref{in2}re2x rb3x\\ref{out}re3x\n'),
    ('article', '', '\\section{A}\n\\begin{figure}\n\\centering x\n\\caption{C}\n\\label{f}\n\\end{figure}\n\\begin{figure}\n y\n\\end{figure}\n\\begin{table}\n\\caption{D\\label{t}}\n z\n\\end{table}\n\\section{B}\nrb1x\\ref{f}re1x rb2x\\ref{t}re2x\n'),
    ('article', '', '\\section{\\label{s}A}\nrb1x\\ref{s}re1x\n\\subsection{B\\label{u}}\nrb2x\\ref{u}re2x\n\\section{C}\nrb3x\\ref{u}re3x\n'),
    ('article', '', '\\section{A}\nrb1x\\ref{none}re1x \\cite{none} \\pageref{none}\n'),
    ('article', '', '\\section{A}\n\\cite{k1,k2} \\cite[p.~1]{k3}\n\\section{B}\n\\cite{k2}\n\\bibliography{x}\n%%BBL\\begin{thebibliography}{9}\n\\bibitem{k1} One\n\\bibitem[L]{k2} Two\n\\bibitem{k3} Three\n\\end{thebibliography}\n'),
    ('article', '\\usepackage{makeidx}\n', '\\section{A}\nx\\index{a}\\index{b|see{a}}\\index{\\emph{c}}\\index{d@\\textbf{d}}\\index{a!b|textbf}\\footnote{\\index{a}}\n\\section{B}\n\\index{+}\\index{1}\\index{A}\\index{_}\n\\printindex\n'),
    ('article', '\\usepackage{hyperref}\n', '\\section{A}\\label{a}\nrb1x\\ref{a}re1x rb2x\\ref{b}re2x \\autoref{b} \\hyperref[a]{text} \\href{http://x.y/z}{out} \\hypertarget{t}{T} \\hyperlink{t}{L}\n\\section{B}\\label{b}\n\\hyperlink{t}{L}\n'),
    ('article', '\\usepackage{cleveref}\n', '\\section{A}\\label{a}\nrb1x\\ref{a}re1x \\cref{b} \\Cref{a}\n\\section{B}\\label{b}\n'),
    ('article', '\\usepackage{longtable}\n', '\\section{A}\n\\begin{longtable}{l}\n\\caption{C\\label{lt}}\\\\\n a \\\\\n\\end{longtable}\n\\section{B}\nrb1x\\ref{lt}re1x\n'),
    ('article', '\\usepackage{subfig}\n', '\\section{A}\n\\begin{figure}\n\\subfloat[S\\label{s1}]{x}\n\\subfloat[T]{y}\n\\caption{C}\\label{f}\n\\end{figure}\nrb1x\\ref{f}re1x\n'),
    ('article', '', '\\section{A}\\label{sec:a b}\nrb1x\\ref{sec:a b}re1x\n\\subsection{D}\\label{x.y/z}\nrb2x\\ref{x.y/z}re2x\n\\begin{equation}\\label{eq:\\"o}x\\end{equation}\n\\subsubsection{E}\\label{sec-caf\xe9}\nrb3x\\ref{sec-caf\xe9}re3x\n'),
    ('article', '', '\\section{A}\\label{footnotes}\nx\\footnote{n} rb1x\\ref{footnotes}re1x\n\\section{B}\\label{doc_title}\nrb2x\\ref{doc_title}re2x\n'),
    ('article', '', '\\section{A}\n\\begin{equation}\\label{A}x\\end{equation} \\index{apple} rb1x\\ref{A}re1x\n\\printindex\n'),
    ('article', '\\title{T}\\author{A\\thanks{th}}\n', '\\maketitle\n\\begin{abstract}abs\\footnote{x}\\end{abstract}\n\\tableofcontents\n\\section{A}\nx\n\\listoffigures\n'),
    ('article', '', '\\section{A}\n\\begin{description}\n\\item[x]\\label{d} y\n\\end{description}\nrb1x\\ref{d}re1x\n'),
    ('article', '\\newcounter{ctr}\n', '\\section{A}\n\\refstepcounter{ctr}\\label{c}x\nrb1x\\ref{c}re1x\n'),
]


def corners():
    full = {'cls': 'book', 'front': None, 'abstract': None, 'toc': True, 'bib': [['k1', None, [['t', 90]]], ['k2', [['t', 92]], [['t', 91]]]], 'index': True, 'labels': ['l1', 'l2', 'l3'], 'n': 99, 'blocks': [
        ['p', [['t', 1], ['fn', [['t', 2]]], ['ref', .1], ['ref', .5], ['ref', .9], ['cite', .1], ['cite', .9], ['idx', 'alpha']]],
        ['sec', 'part', False, [['t', 4]], 'l1'], ['p', [['t', 5], ['ref', .1], ['ref', .5], ['ref', .9]]],
        ['sec', 'chapter', False, [['t', 6]], None], ['p', [['t', 7], ['fn', [['t', 8]]], ['idx', 'beta!x']]],
        ['sec', 'section', False, [['t', 9]], 'l2'], ['p', [['t', 10], ['fn', [['t', 11]]], ['fn', [['t', 12]]], ['cite', .1], ['idx', 'beta']]],
        ['sec', 'subsection', False, [['t', 13]], None], ['list', 'itemize', [[None, [['t', 14]], None, [['list', 'enumerate', [[None, [['t', 15], ['fn', [['t', 16]]]], 'l4', []]]]]]]],
        ['sec', 'subsubsection', False, [['t', 17]], 'l3'], ['float', 'figure', [['t', 18]], 'l5', ['p', [['t', 19], ['ref', .99], ['ref', .7]]]],
        ['sec', 'paragraph', False, [['t', 20]], None], ['p', [['t', 21]]],
        ['sec', 'section', True, [['t', 22]], None], ['p', [['t', 23], ['ref', .3], ['pageref', .3]]], ['eq', 'l6'],
        ['sec', 'chapter', True, [['t', 25]], None], ['thm', None, [['t', 26]], 'l7'], ['thm', [['t', 28]], [['t', 29]], None], ['p', [['t', 27], ['idx', 'alpha']]]]}
    base = {'doc': full, 'renderer': 'HTML5', 'theme': 'minimal', 'template': TEMPLATES[0], 'split': 2, 'depth': 9, 'non_files': False, 'base': '', 'labels': 'l', 'crumbs': -10, 'local': 3, 'shown': True}
    for r, th in (('HTML5', 'default'), ('HTML5', 'minimal'), ('XHTML', 'default')):
        for split in (-10, -1, 0, 1, 2, 3, 6):
            for depth, nf in ((1, True), (3, False), (9, True)):
                yield dict(base, renderer=r, theme=th, split=split, depth=depth, non_files=nf, labels=LABELS[split % 4])
        for t in TEMPLATES[:6]:
            for b in set(BASES):
                yield dict(base, renderer=r, theme=th, template=t, base=b)
    base = {k: v for k, v in base.items() if k != 'doc'}
    for cls, pre, body in MORE:
        head, _, tail = body.partition('%%BBL')
        src = HEAD % (cls, pre) + head + '\\end{document}\n' + ('%%BBL' + tail if tail else '')
        for r, th in (('HTML5', 'default'), ('HTML5', 'minimal'), ('XHTML', 'default')):
            for split, nf in ((-10, False), (1, False), (1, True), (2, True)):
                yield dict(base, src=src, renderer=r, theme=th, split=split, non_files=nf)
