"""C17 bounded stand-in: B is processed after A1..Ak and alone, each in a process forked from one that has processed
nothing; tree, rendered files and every class attribute of the package must come out the same."""
import json
import os
import re
import sys
import types

from bounded import docgen, rendering
from bounded.common import scratch

RULE = ('histories of up to 4 documents and a last one: documents of the shared generator in article, book and report, with packages (hyperref, natbib, beamer, amsthm, verse, ...), '
        'register and counter assignments, redefinitions, category codes, conditionals, and lists, tables, math, arguments and groups left open at end of input; the last one '
        'compared (XML, rendered files, identifiers renumbered) with itself processed alone in a fresh process, class attributes of the whole package compared before and after; '
        'non-trivial: histories of two different documents')
BOUND = 'up to 4 documents of at most 5 blocks before the last'
BUDGET = {'quick': 35, 'thorough': 600}
BATCH = 20
CASE_LIMIT = 60
WARM = ('plasTeX.TeX', 'plasTeX.Packages.article', 'plasTeX.Packages.book', 'plasTeX.Packages.report', 'plasTeX.Packages.hyperref', 'plasTeX.Packages.natbib', 'plasTeX.Packages.beamer',
        'plasTeX.Packages.amsthm', 'plasTeX.Packages.ifthen', 'plasTeX.Packages.verse', 'plasTeX.Packages.longtable', 'plasTeX.Renderers.HTML5', 'plasTeX.Renderers.XHTML')
ERROR_FAILS = True

PACKAGES = ['hyperref', 'natbib', '[sectionbib]natbib', '[numbers]natbib', 'amsthm', 'verse', 'longtable', 'ifthen', 'color', 'graphicx', 'amsmath', 'float', 'url', 'enumerate', 'cleveref', 'subfig',
            'array', 'textcomp', 'babel', 'xspace', 'fancyhdr']
PRE = [r'\hsize=3pt', r'\parindent 7pt ', r'\tolerance=77', r'\parskip=3pt plus 1pt', r'\thinmuskip=9mu', r'\newcount\hsizex \hsizex=4', r'\textwidth=12pt', r'\advance\hsize by 3pt',
       r'\newcommand{\mac}{one}', r'\renewcommand{\textbf}[1]{(#1)}', r'\def\emph#1{[#1]}', r'\let\section=\subsection', r'\newcounter{ctr}[section]', r'\setcounter{section}{4}',
       r'\renewcommand{\thesection}{S\arabic{section}}', r'\newtheorem{lem}{Lemma}', r'\newtheorem*{nlem}{Lemma}', r'\newif\ifxx \xxtrue', r'\catcode`\@=11 \def\a@b{at}', r'\newenvironment{envx}{<}{>}',
       r'\setcounter{secnumdepth}{0}', r'\global\let\item=\relax', r'\def\labelenumi{L}', r'\chardef\chr=65 ', r'\newlength{\lenx}', r'\setlength{\lenx}{3pt}', r'\let\bgroup=\relax',
       r'\renewcommand{\labelitemi}{*}', r'\pagestyle{empty}', r'\DeclareMathOperator{\op}{op}', r'\makeindex', r'\title{A}\author{B}', r'\hyphenation{a-b}', r'\escapechar=-1 ', r'\appendix',
       r'\renewcommand{\figurename}{Abb}', r'\renewcommand{\refname}{Lit}', r'\lccode`\a=65 ', r'\year=1999 ', r'\bibliographystyle{nature}', r'\jot=5pt', r'\arraycolsep=9pt', r'\fboxsep=2pt', r'\numberwithin{equation}{section}',
       r'\appendix\numberwithin{section}{chapter}', r'\appendix\numberwithin{chapter}{part}']
BODY = [r'\the\hsize ', r'\the\tolerance ', r'\the\parindent ', r'\the\parskip ', r'\the\thinmuskip ', r'\the\textwidth ', r'\begin{enumerate}\item a \begin{enumerate}\item b\item c\end{enumerate}\item d\end{enumerate}',
        r'\begin{itemize}\item a\end{itemize}', r'\section{X}\label{sx}', r'\section*{Y}', r'See \ref{sx}.', r'See \ref*{sx}.', r'\pageref*{sx}', r'\begin{verse}[3pt] v\end{verse}', r'$a\le b$', r'\[ x \]', r'\(y\)',
        r'\ifthenelse{\equal{a}{a}}{yes}{no}', r'\ifthenelse{1<2 \and \( 3>2 \)}{y}{n}', r'\mac', r'\emph{e}', r'\textbf{b}', r'\textbf<1>{b}', r'\item<2>x', r'\begin{tabular}{lc} a & b \\ c & d \end{tabular}',
        r'\begin{equation}\label{e} x \end{equation}', r'\footnote{f}', r'\printindex', r'\index{a!b}', r'\begin{thebibliography}{9}\bibitem{k} K\end{thebibliography}\cite{k}', r'\begin{figure}\caption{c}\end{figure}',
        r'\ifxx t\else f\fi', r'\makeatletter\makeatother', r'\verb|v|', r'\hbox{h}', r'\begin{center}c\end{center}', r'\begin{lem}l\end{lem}', r'\thesection', r'\arabic{ctr}', r'\bibliography{none}',
        r'\begin{frame}<1>x\end{frame}', r'\begin{description}\item[t] d\end{description}', r'\hspace{3pt}', r'\ifdim\hsize<5pt s\else l\fi', r'\ifnum\tolerance=77 t\else d\fi', r'\url{http://x.y/z}', r'\unknownmacro{z}',
        r'\begin{longtable}{l}\caption{q}\\ a\end{longtable}', r'\newcommand{\late}{l}\late', r'\hsize=9pt', r'\tolerance=1 ', r'\today', r'\begin{quote}q\end{quote}', r'{\bf b}', r'{\em e}', r'\tableofcontents', r"a--b ``c''", r'\appendix', r'\chapter{C}']
OPEN = [r'\begin{itemize}\item x', r'\begin{enumerate}\item x \begin{enumerate}\item y', '$a', '$$a', r'\(a', r'\[a', r'\begin{tabular}{l} a &', r'\begin{array}{c} x', '{', r'\begin{equation} a', r'\begin{quote}', r'{\bf x',
        r'\begin{verbatim} x', r'\footnote{x', r'\ifx ab', r'\section{x', r'\hsize=', r'\tolerance', r'\hsize=3', r'\parskip=1pt plus', r'\ifnum 1<2 x', r'\mbox{$a', r'\begin{thebibliography}{9}\bibitem{k} K',
        r'\begin{description}\item[t', r'\ifthenelse{1<2', r'\ifthenelse{\equal{a}{a}', r'\def\x', r'\setcounter{section}', r'\textbf', r'\begin{figure}\caption{c', r'\kern', r'\advance\hsize by ']


def gen_doc(rng):
    """A document: [class or None, packages, preamble parts, body parts, closed?]"""
    cls = rng.choice(['article', 'article', 'book', 'report', 'beamer', 'amsart', 'memoir', None])
    pk = rng.sample(PACKAGES, k=rng.choice([0, 0, 1, 2]))
    pre = rng.sample(PRE, k=rng.choice([0, 1, 1, 2, 4]))
    if any('numberwithin' in p for p in pre) and 'amsmath' not in pk:
        pk.append('amsmath')
    if rng.random() < .25 and cls in ('article', 'book', 'report'):
        g = docgen.Gen(rng, docgen.ALL, size=5, classes=(cls,))
        d = g.doc()
        s = docgen.Writer(d, lambda n: 'w%d' % n).source()
        i, j = s.index('\\begin{document}') + len('\\begin{document}'), s.index('\\end{document}')
        thm = ['\\newtheorem{thm}{Theorem}'] if '\\begin{thm}' in s else []
        return [cls, pk, pre + thm, [s[i:j]], '']
    body = [rng.choice(BODY) for _ in range(rng.choice([1, 2, 4, 6]))]
    return [cls, pk, pre, body, rng.choice(OPEN) if rng.random() < .3 else '']


def cases(rng, tier):
    while True:
        yield {'before': [gen_doc(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]))], 'last': gen_doc(rng), 'render': rng.choice([None, None, None, 'HTML5', 'XHTML']), 'split': rng.choice([2, 0, -10]), 'subs': rng.random() < .15}


def corners():
    probe = [None, [], [], BODY, '']
    for o in OPEN:
        yield {'before': [['article', [], [], ['x'], o]], 'last': ['article', [], [], [BODY[6], BODY[0], BODY[14], BODY[17]], ''], 'render': None, 'split': 2}
    for cls in ('article', 'book', 'report', 'beamer'):
        for a in ('article', 'book', 'report', 'beamer', 'memoir', 'amsart'):
            yield {'before': [[a, ['hyperref', 'verse'] if a == 'book' else [], [], [r'\printindex', r'\ref{x}'], '']], 'last': [cls, [], [], BODY, ''], 'render': None, 'split': 2}
    for p in PACKAGES:
        yield {'before': [['report', [p], [], BODY[:25], '']], 'last': ['book', [], [], BODY, ''], 'render': None, 'split': 2}
    for p in PRE:
        yield {'before': [['article', ['amsmath'], [p], BODY, '']], 'last': ['article', [], [], BODY, ''], 'render': 'HTML5' if p == PRE[0] else None, 'split': 2}


def source(d):
    cls, pk, pre, body, end = d
    if cls is None:
        return '\n'.join(pre) + '\n' + '\n'.join(body) + end
    out = '\\documentclass{%s}\n' % cls
    for p in pk:
        o, n = re.match(r'(\[.*\])?(.*)', p).groups()
        out += '\\usepackage%s{%s}\n' % (o or '', n)
    out += '\n'.join(pre) + '\n\\begin{document}\n' + '\n'.join(body) + '\n' + end
    if not end:
        out += '\\end{document}\n'
    return out


IDS = re.compile(r'a\d{10}')


def norm(s):
    seen = {}
    s = IDS.sub(lambda m: seen.setdefault(m.group(0), 'ID%d' % len(seen)), s)
    return re.sub(r'0x[0-9a-f]{6,}', '0x', s)


def process(src, render, split, subs=False):
    """What a document comes to: [xml, {file: text}]"""
    import importlib
    conf = rendering.configuration(render or 'HTML5', 'default' if render != 'HTML5' else 'minimal', files__split_level=split, **({'document__disable_charsub': ['--', "''"]} if subs else {}))
    with scratch():
        try:
            doc = rendering.document(src, conf)
        except Exception as e:
            return ['error ' + type(e).__name__, {}]
        try:
            xml = doc.toXML()
        except Exception as e:
            xml = 'no XML: %s' % type(e).__name__
        out = {}
        if render:
            try:
                importlib.import_module('plasTeX.Renderers.' + render).Renderer().render(doc)
            except Exception as e:
                rendering.cleanup()
                return [norm(xml), {'error': type(e).__name__}]
            for f in sorted(os.listdir('.')):
                if f.endswith('.html'):
                    with open(f, encoding='utf-8') as fh:
                        out[f] = norm(fh.read())
        return [norm(xml), out]


CACHES = ('_mixed_', '__slotnames__', '@arguments', '@locals', '__doc__', '__dict__', '__weakref__', '__annotations__', '__abstractmethods__', '_abc_impl', '__parameters__', '__orig_bases__')


def plain(v, depth=0):
    """Comparable form of an attribute value, None for functions and the like."""
    if isinstance(v, (types.FunctionType, classmethod, staticmethod, property, types.ModuleType, types.BuiltinFunctionType, types.GetSetDescriptorType, types.MemberDescriptorType,
                      types.GeneratorType)):
        return None
    if isinstance(v, type):
        return 'class ' + v.__name__
    if isinstance(v, dict) and depth < 3:
        return sorted((str(k), plain(x, depth + 1)) for k, x in v.items())
    if isinstance(v, (list, tuple)) and depth < 3:
        return [plain(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(str(x) for x in v)
    if isinstance(v, (int, float, str, bytes, bool, type(None))):
        return '%s %r %r' % (type(v).__name__, v, sorted(getattr(v, '__dict__', {}).items(), key=str))
    return type(v).__name__


def snapshot(only=None):
    """{class: {attribute: value}} over every class of the package reachable from its modules"""
    seen = {}

    def go(c, path):
        if c in seen or not (c.__module__ or '').startswith('plasTeX'):
            return
        d = {}
        seen[c] = (path, d)
        for k, v in list(vars(c).items()):
            if k in CACHES:
                continue
            p = plain(v)
            if p is not None:
                d[k] = p
            if isinstance(v, type):
                go(v, path + '.' + k)
    for name, m in sorted(sys.modules.items()):
        if name.startswith('plasTeX') and m is not None:
            for k, v in list(vars(m).items()):
                if isinstance(v, type):
                    go(v, v.__module__ + '.' + v.__name__)
    out = {p: d for p, d in seen.values()}
    for name, m in sorted(sys.modules.items()):
        if name.startswith('plasTeX') and m is not None and name not in IGNORED:
            out['module ' + name] = {k: p for k, p in ((k, plain(v)) for k, v in list(vars(m).items()) if not k.startswith('__') and isinstance(v, (dict, list, set, tuple, int, float, str))) if p is not None}
    return out


def forked(f):
    """f() in a forked child, through JSON"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            out = json.dumps(f())
            with os.fdopen(w, 'w') as fh:
                fh.write(out)
            code = 0
        except BaseException as e:
            try:
                os.write(w, json.dumps({'failed': '%s: %s' % (type(e).__name__, e)}).encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as fh:
        s = fh.read()
    os.waitpid(pid, 0)
    return json.loads(s)


IGNORED = {'plasTeX.Logging'}


def check(case):
    last, render, split = source(case['last']), case['render'], case['split']
    before = [source(d) for d in case['before']]

    def alone():
        return process(last, render, split)

    def after():
        s0 = snapshot()
        res = []
        for i, d in enumerate(before):
            process(d, render if i == 0 else None, split, case.get('subs'))
        s1 = snapshot()
        for c in sorted(s0):
            if any(c.startswith(x) for x in IGNORED):
                continue
            for k in sorted(set(s0[c]) | set(s1.get(c, {}))):
                if s0[c].get(k) != s1.get(c, {}).get(k):
                    res.append('%s.%s: %s, was %s' % (c, k, str(s1.get(c, {}).get(k))[:80], str(s0[c].get(k))[:80]))
        return [res, process(last, render, split)]
    a = forked(alone)
    b = forked(after)
    for x in (a, b):
        if isinstance(x, dict):
            raise RuntimeError(x['failed'])
    changed, b = b
    if a[0] != b[0]:
        return 'after %r, %r gives another tree than alone: %s' % (before, last, diff(b[0], a[0]))
    if a[1] != b[1]:
        return 'after %r, %r is rendered differently than alone: %s' % (before, last, sorted(set(a[1]) ^ set(b[1])) or [diff(b[1][f], a[1][f]) for f in a[1] if a[1][f] != b[1][f]][:1])
    if changed:
        return 'after %r: %s' % (before, '; '.join(changed[:3]))
    return None


def diff(x, y):
    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
    return '%r, alone %r' % (x[max(0, i - 60):i + 60], y[max(0, i - 60):i + 60])


def nontrivial(case):
    return case['last'] not in case['before']


def shrinks(case):
    n = len(case['before'])
    if n > 1:
        for i in range(n):
            yield dict(case, before=case['before'][:i] + case['before'][i + 1:])
    if case['render']:
        yield dict(case, render=None)

    def smaller(d):
        cls, pk, pre, body, end = d
        for i in range(len(pk)):
            yield [cls, pk[:i] + pk[i + 1:], pre, body, end]
        for i in range(len(pre)):
            yield [cls, pk, pre[:i] + pre[i + 1:], body, end]
        for i in range(len(body)):
            yield [cls, pk, pre, body[:i] + body[i + 1:], end]
        if end:
            yield [cls, pk, pre, body, '']
        if cls is not None:
            yield [None, [], pre, body, end]
    for d in smaller(case['last']):
        yield dict(case, last=d)
    for i, d in enumerate(case['before']):
        for e in smaller(d):
            yield dict(case, before=case['before'][:i] + [e] + case['before'][i + 1:])
