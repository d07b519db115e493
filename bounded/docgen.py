"""Random documents as JSON trees, written out as LaTeX.  Every piece of text is a numbered leaf; what a leaf says is
decided by the property (a marker word, an adversarial string...)."""

SECTIONS = {'article': ['section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph'],
            'book': ['part', 'chapter', 'section', 'subsection', 'subsubsection', 'paragraph'],
            'report': ['part', 'chapter', 'section', 'subsection', 'subsubsection', 'paragraph']}
LEVEL = {'document': -100, 'part': -1, 'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5}
ALL = {'fn', 'ref', 'cite', 'idx', 'verb', 'list', 'tab', 'float', 'verbatim', 'env', 'eq', 'thm', 'front', 'bib', 'index', 'toc', 'star', 'mbox'}


class Gen:
    def __init__(self, rng, features=ALL, size=8, classes=('article', 'article', 'book', 'report')):
        self.rng, self.f, self.size = rng, set(features), size
        self.n = 0
        self.labels, self.keys = [], []
        self.cls = rng.choice(classes)
        self.kinds = rng.sample(SECTIONS[self.cls], k=rng.randint(1, len(SECTIONS[self.cls])))
        self.kinds.sort(key=SECTIONS[self.cls].index)

    def leaf(self):
        self.n += 1
        return ['t', self.n]

    def has(self, f, p):
        return f in self.f and self.rng.random() < p

    def label(self, p=.5):
        if 'ref' in self.f and self.rng.random() < p:
            l = 'l%d' % (len(self.labels) + 1)
            self.labels.append(l)
            return l

    def inlines(self, depth=0, n=None, title=False, cell=False, fn=True):
        rng = self.rng
        out = []
        for _ in range(n or rng.choice([1, 1, 2, 3])):
            c = rng.random()
            if depth < 2 and c < .15:
                out.append(['b', rng.choice(['emph', 'textbf', 'texttt', 'textit']), self.inlines(depth + 1, title=title, cell=cell, fn=fn)])
            elif not title and fn and c < .25 and 'fn' in self.f:
                out.append(['fn', self.inlines(depth + 1, fn=False)])
            elif not title and c < .33 and 'ref' in self.f:
                out.append([rng.choice(['ref', 'ref', 'pageref']), rng.random()])
            elif not title and c < .38 and 'bib' in self.f:
                out.append(['cite', rng.random()])
            elif not title and not cell and c < .45 and 'idx' in self.f:
                out.append(['idx', rng.choice(['alpha', 'beta', 'gamma', 'delta!one', 'delta!two', 'beta!x!y', 'Zeta', 'alpha|textbf', '12'])])
            elif not title and not cell and depth == 0 and c < .5 and 'verb' in self.f:
                self.n += 1
                out.append(['verb', self.n])
            elif depth < 2 and c < .53 and 'mbox' in self.f:
                out.append(['b', rng.choice(['mbox', 'fbox']), self.inlines(depth + 1, title=title, cell=cell, fn=False)])
            else:
                out.append(self.leaf())
        return out

    def block(self, depth=0):
        rng = self.rng
        c = rng.random()
        if depth < 2 and c < .15 and 'list' in self.f:
            kind = rng.choice(['itemize', 'enumerate', 'description'])
            items = []
            for _ in range(rng.randint(1, 3)):
                items.append([self.inlines(n=1, title=True) if kind == 'description' else None, self.inlines(),
                              self.label(.3) if kind == 'enumerate' else None, [self.block(depth + 1)] if rng.random() < .2 else []])
            return ['list', kind, items]
        if c < .23 and 'tab' in self.f:
            return self.tab()
        if depth == 0 and c < .33 and 'float' in self.f:
            kind = rng.choice(['figure', 'table'])
            return ['float', kind, self.inlines(n=rng.choice([1, 2]), title=True), self.label(.7), self.tab() if kind == 'table' and 'tab' in self.f else ['p', self.inlines(fn=False)]]
        if c < .4 and 'verbatim' in self.f and depth == 0:
            ls = []
            for _ in range(rng.randint(1, 3)):
                self.n += 1
                ls.append(self.n)
            return ['verbatim', ls]
        if depth < 2 and c < .48 and 'env' in self.f:
            return ['env', rng.choice(['quote', 'quotation', 'center', 'flushleft']), [self.block(depth + 1) for _ in range(rng.choice([1, 1, 2]))]]
        if depth == 0 and c < .54 and 'eq' in self.f:
            return ['eq', self.label(.8)]
        if depth == 0 and c < .6 and 'thm' in self.f:
            return ['thm', self.inlines(n=1, title=True) if rng.random() < .4 else None, self.inlines(), self.label(.6)]
        return ['p', self.inlines()]

    def tab(self):
        n = self.rng.randint(1, 3)
        return ['tab', n, [[self.inlines(n=1, cell=True, fn=False) if self.rng.random() < .85 else [] for _ in range(n)] for _ in range(self.rng.randint(1, 3))]]

    def doc(self):
        rng = self.rng
        blocks = []
        for _ in range(rng.randint(1, self.size)):
            if rng.random() < .4:
                k = rng.choice(self.kinds)
                star = self.has('star', .12)
                blocks.append(['sec', k, star, self.inlines(n=rng.choice([1, 1, 2]), title=True), None if star else self.label(.5)])
                if rng.random() < .15:
                    continue
            blocks.append(self.block())
        d = {'cls': self.cls, 'blocks': blocks, 'front': None, 'toc': self.has('toc', .3), 'bib': [], 'index': False, 'abstract': None}
        if self.has('front', .4):
            d['front'] = [self.inlines(n=1, title=True), self.inlines(n=1, title=True), self.inlines(n=1, title=True) if rng.random() < .5 else None]
            if self.cls == 'article' and rng.random() < .5:
                d['abstract'] = self.inlines()
        if 'bib' in self.f and rng.random() < .6:
            for i in range(rng.randint(1, 3)):
                d['bib'].append(['k%d' % (i + 1), self.inlines(n=1, title=True, fn=False) if rng.random() < .2 else None, self.inlines(n=1, title=True)])
        if 'index' in self.f and 'idx' in self.f and rng.random() < .6:
            d['index'] = True
        d['labels'] = self.labels
        d['n'] = self.n
        return d


def labels(d):
    return [x for b in d['blocks'] for x in block_labels(b)]


def block_labels(b):
    k = b[0]
    if k == 'sec':
        return [b[4]] if b[4] else []
    if k == 'list':
        return [l for it in b[2] for l in ([it[2]] if it[2] else []) + [x for y in it[3] for x in block_labels(y)]]
    if k == 'float':
        return [b[3]] if b[3] else []
    if k == 'env':
        return [x for y in b[2] for x in block_labels(y)]
    if k == 'eq':
        return [b[1]] if b[1] else []
    if k == 'thm':
        return [b[3]] if b[3] else []
    return []


class Writer:
    """leaf(n) is the LaTeX of leaf n in running text, raw(n) its characters in verbatim material."""
    def __init__(self, d, leaf, raw=None, packages='', preamble=''):
        self.d, self.leaf, self.raw = d, leaf, raw or leaf
        self.labels, self.keys = labels(d), [b[0] for b in d['bib']]
        self.packages, self.preamble = packages, preamble

    def inl(self, l):
        return ' '.join(x for x in (self.one(y) for y in l) if x)

    def one(self, x):
        k = x[0]
        if k == 't':
            return self.leaf(x[1])
        if k == 'b':
            return '\\%s{%s}' % (x[1], self.inl(x[2]))
        if k == 'fn':
            return '\\footnote{%s}' % self.inl(x[1])
        if k in ('ref', 'pageref'):
            return '\\%s{%s}' % (k, self.labels[int(x[1] * len(self.labels))]) if self.labels else ''
        if k == 'cite':
            return '\\cite{%s}' % self.keys[int(x[1] * len(self.keys))] if self.keys else ''
        if k == 'idx':
            return '\\index{%s}' % x[1]
        if k == 'verb':
            return '\\verb|%s|' % self.raw(x[1])
        raise ValueError(k)

    def lab(self, l):
        return '\\label{%s}' % l if l else ''

    def toc(self, b):
        return ''

    def block(self, b):
        k = b[0]
        if k == 'sec':
            return '\\%s%s%s{%s}%s\n' % (b[1], '*' if b[2] else '', '' if b[2] else self.toc(b), self.inl(b[3]), self.lab(b[4]))
        if k == 'p':
            return self.inl(b[1]) + '\n\n'
        if k == 'list':
            out = '\\begin{%s}\n' % b[1]
            for term, body, lab, more in b[2]:
                out += '\\item%s %s %s\n' % ('[%s]' % self.inl(term) if term else '', self.lab(lab), self.inl(body))
                for m in more:
                    out += '\n' + self.block(m)
            return out + '\\end{%s}\n' % b[1]
        if k == 'tab':
            return '\\begin{tabular}{%s}\n%s\n\\end{tabular}\n' % ('l' * b[1], '\\\\\n'.join(' & '.join(self.inl(c) for c in r) for r in b[2]))
        if k == 'float':
            return '\\begin{%s}\n%s\\caption%s{%s}%s\n\\end{%s}\n' % (b[1], self.block(b[4]), self.toc(b), self.inl(b[2]), self.lab(b[3]), b[1])
        if k == 'verbatim':
            return '\\begin{verbatim}\n%s\n\\end{verbatim}\n' % '\n'.join(self.raw(n) for n in b[1])
        if k == 'env':
            return '\\begin{%s}\n%s\\end{%s}\n' % (b[1], ''.join(self.block(x) for x in b[2]), b[1])
        if k == 'eq':
            return '\\begin{equation}%s a=b\\end{equation}\n' % self.lab(b[1])
        if k == 'thm':
            return '\\begin{thm}%s%s %s\\end{thm}\n' % ('[%s]' % self.inl(b[1]) if b[1] else '', self.lab(b[3]), self.inl(b[2]))
        raise ValueError(k)

    def source(self):
        d = self.d
        out = '\\documentclass{%s}\n%s' % (d['cls'], self.packages)
        if "'thm'" in repr(d['blocks']):
            out += '\\newtheorem{thm}{Theorem}\n'
        out += self.preamble
        if d['front']:
            t, a, dt = d['front']
            out += '\\title{%s}\n\\author{%s}\n%s' % (self.inl(t), self.inl(a), '\\date{%s}\n' % self.inl(dt) if dt else '')
        out += '\\begin{document}\n'
        if d['front']:
            out += '\\maketitle\n'
        if d['abstract']:
            out += '\\begin{abstract}\n%s\n\\end{abstract}\n' % self.inl(d['abstract'])
        if d['toc']:
            out += '\\tableofcontents\n'
        out += ''.join(self.block(b) for b in d['blocks'])
        if d['bib']:
            out += '\\begin{thebibliography}{9}\n' + ''.join('\\bibitem%s{%s} %s\n' % ('[%s]' % self.inl(lab) if lab else '', k, self.inl(t)) for k, lab, t in d['bib']) + '\\end{thebibliography}\n'
        if d['index']:
            out += '\\printindex\n'
        return out + '\\end{document}\n'


def shrink(d):
    """Smaller documents."""
    def sub(x):
        if isinstance(x, list) and x and isinstance(x[0], str):
            for i in range(1, len(x)):
                for y in many(x[i]):
                    yield x[:i] + [y] + x[i + 1:]

    def many(l):
        if isinstance(l, list) and (not l or isinstance(l[0], list)):
            if len(l) > 1:
                for i in range(len(l)):
                    yield l[:i] + l[i + 1:]
            for i, x in enumerate(l):
                for y in sub(x):
                    yield l[:i] + [y] + l[i + 1:]
    for k, empty in (('front', None), ('toc', False), ('abstract', None), ('index', False), ('bib', [])):
        if d[k]:
            yield dict(d, **{k: empty})
    for i in range(len(d['blocks'])):
        yield dict(d, blocks=d['blocks'][:i] + d['blocks'][i + 1:])
    for b in many(d['blocks']):
        yield dict(d, blocks=b)
