"""C09 bounded stand-in: documents whose labels are written in known objects; the labelled node, its identifier, its number
and what every reference resolves to are compared with what was written."""
import re

from bounded.common import parse, text

RULE = ('documents (article, book) of sections (starred too), equations, eqnarray rows, enumerate items nested to depth 3, figures, tables, theorems, bibliography items, nested in each '
        'other; labels at the start, after the content and after nested numbered objects, in titles and captions; 0-12 references (\\ref, \\pageref, \\cite) before, after and inside, several '
        'to one label, some to no label; non-trivial: a reference before its label')
BOUND = 'at most 8 blocks at the top, nesting to depth 3'
BUDGET = {'quick': 25, 'thorough': 600}
BATCH = 20
CASE_LIMIT = 30
ERROR_FAILS = True
ASSUMPTIONS = ['the object a label is written in is the innermost numbered object around it (theorem, item, equation, row, caption of the float), otherwise the last sectioning command']
LEVEL = 'bounded'

NAMES = ['l%d', 'sec:%d', 'a b %d', 'x_%d', 'fig.%d', '%d', 'L-%d', "eq'%d", 'l%d/x', 'é%d']
SECS = {'article': ['section', 'subsection', 'subsubsection', 'paragraph'], 'book': ['chapter', 'section', 'subsection', 'paragraph']}


class Gen:
    def __init__(self, rng):
        self.rng, self.n, self.labels, self.keys = rng, 0, 0, []

    def mark(self):
        self.n += 1
        return self.n

    def lab(self, p=.5):
        if self.rng.random() > p:
            return None
        self.labels += 1
        return self.labels

    def text(self):
        r = self.rng
        out = []
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            x = r.random()
            if x < .7:
                out.append(['ref', r.choice(['ref', 'ref', 'pageref']), r.random()])
            elif x < .8:
                out.append(['dangling', r.randint(1, 3)])
            elif x < .9:
                out.append(['cite', [r.random() for _ in range(r.choice([1, 1, 2]))]])
            else:
                out.append(['fn', [['ref', 'ref', r.random()]]])
        return out

    def blocks(self, depth, n):
        return [self.block(depth) for _ in range(n)]

    def block(self, depth):
        r = self.rng
        k = r.choice(['par', 'eq', 'rows', 'enum', 'enum', 'thm', 'thm', 'float', 'env'] if depth else ['par', 'sec', 'sec', 'sec', 'eq', 'rows', 'enum', 'thm', 'float', 'float', 'env'])
        if depth >= 3 and k in ('enum', 'thm', 'env'):
            k = 'eq'
        if k == 'par':
            return ['par', self.text(), self.lab(.15)]
        if k == 'sec':
            star = r.random() < .2
            return ['sec', r.randrange(4), star, self.mark(), self.text()[:1], self.lab(.6), r.choice(['after', 'after', 'line', 'title', 'par'] if not star else ['after', 'line'])]
        if k == 'eq':
            return ['eq', self.mark(), self.lab(.6), r.random() < .5]
        if k == 'rows':
            return ['rows', [[self.mark(), self.lab(.5), r.random() < .5] for _ in range(r.randint(1, 3))]]
        if k == 'enum':
            return ['enum', [[self.mark(), self.lab(.4), self.text(), self.blocks(depth + 1, r.choice([0, 0, 1, 1, 2])), self.lab(.3)] for _ in range(r.randint(1, 3))]]
        if k == 'thm':
            return ['thm', self.mark(), self.lab(.4), self.text(), self.blocks(depth + 1, r.choice([0, 0, 1, 2])), self.lab(.4)]
        if k == 'float':
            return ['float', r.choice(['figure', 'table']), self.mark(), self.text()[:1], self.lab(.7), r.choice(['in', 'after', 'after', 'line', 'center', 'aftercenter', 'end'])]
        return ['env', r.choice(['center', 'quote', 'itemize']), self.blocks(depth + 1, r.choice([1, 1, 2]))]

    def doc(self):
        r = self.rng
        d = {'cls': r.choice(['article', 'article', 'book']), 'blocks': self.blocks(0, r.randint(1, 8)), 'names': [r.randrange(len(NAMES)) for _ in range(4)], 'bib': []}
        d['bib'] = [[i, r.random() < .3] for i in range(r.choice([0, 0, 1, 3]))]
        return d


def cases(rng, tier):
    while True:
        yield Gen(rng).doc()


def corners():
    for names in range(len(NAMES)):
        yield {'cls': 'article', 'names': [names], 'bib': [[0, False], [1, True]],
               'blocks': [['par', [['ref', 'ref', .1], ['ref', 'ref', .1], ['ref', 'pageref', .5], ['dangling', 1], ['cite', [.1, .9]]], None], ['sec', 0, False, 1, [], 1, 'after'], ['eq', 2, 2, False],
                          ['par', [['ref', 'ref', .1], ['ref', 'ref', .6], ['dangling', 1]], None]]}
    yield {'cls': 'article', 'names': [0], 'bib': [], 'blocks': [['sec', 0, False, 1, [], None, 'after'], ['enum', [[2, None, [], [['eq', 3, 1, False]], 2], [4, None, [], [['thm', 5, None, [], [['enum', [[6, 3, [], [], None]]]], 4]], 5]]],
                                                                  ['par', [['ref', 'ref', .9]], 6]]}


class W:
    """Writes the source; records what each label names and what each reference asks for."""

    def __init__(self, case):
        self.case, self.refs, self.want, self.objects = case, [], {}, []
        self.count = {'equation': 0, 'figure': 0, 'table': 0, 'thm': 0}
        self.secs = {}
        self.section = None
        self.all = sorted(set(labels(case['blocks'])))
        self.forward = False

    def name(self, l):
        n = self.case['names']
        return NAMES[n[l % len(n)]] % l

    def lab(self, l, obj):
        if l is None or not obj:
            return ''
        self.want[self.name(l)] = obj
        return '\\label{%s}' % self.name(l)

    def inl(self, l):
        out = ''
        for x in l:
            if x[0] == 'ref' and self.all:
                nm = self.name(self.all[int(x[2] * len(self.all))])
                if nm not in self.want:
                    self.forward = True
                self.refs.append((x[1], nm))
                out += ' \\%s{%s}' % (x[1], nm)
            elif x[0] == 'dangling':
                self.refs.append(('ref', 'nope%d' % x[1]))
                out += ' \\ref{nope%d}' % x[1]
            elif x[0] == 'cite' and self.case['bib']:
                ks = [self.case['bib'][int(v * len(self.case['bib']))][0] for v in x[1]]
                self.refs.append(('cite', ['k%d' % k for k in ks]))
                out += ' \\cite{%s}' % ','.join('k%d' % k for k in ks)
            elif x[0] == 'fn':
                out += '\\footnote{note%s}' % self.inl(x[1])
        return out

    def blocks(self, l, obj):
        return ''.join(self.block(b, obj) for b in l)

    def block(self, b, obj):
        """obj: what a label written here names, None for the current section, False if that is not decided."""
        k = b[0]
        if k == 'par':
            return 'word' + self.inl(b[1]) + self.lab(b[2], self.section if obj is None else obj) + ' word\n\n'
        if k == 'sec':
            cls = SECS[self.case['cls']][b[1]]
            if b[2]:
                o = (cls, b[3], False)
            else:
                for j in range(b[1] + 1, 4):
                    self.secs[j] = 0
                self.secs[b[1]] = self.secs.get(b[1], 0) + 1
                if self.case['cls'] == 'book' and b[1] == 0:
                    self.count['equation'] = self.count['figure'] = self.count['table'] = 0
                numbered = b[1] <= (1 if self.case['cls'] == 'article' else 2)
                o = (cls, b[3], '.'.join(str(self.secs.get(j, 0)) for j in range(b[1] + 1)) if numbered else False)
            lab = self.lab(b[5], o)
            self.section = None if b[2] else o
            title = 'mk%dx' % b[3] + self.inl(b[4])
            w = b[6]
            return '\n\\%s%s{%s%s}%s%s\n\n' % (cls, '*' if b[2] else '', title, lab if w == 'title' else '', {'after': '', 'line': '\n', 'par': '\n\nword '}.get(w, ''), lab if w != 'title' else '')
        if k == 'eq':
            o = ('equation', b[1], self.number('equation'))
            lab = self.lab(b[2], o)
            return '\\begin{equation}%s mk%dx %s\\end{equation}\n' % (lab if b[3] else '', b[1], '' if b[3] else lab)
        if k == 'rows':
            rows = []
            for i, (m, l, first) in enumerate(b[1]):
                o = ('row', m, self.number('equation'))
                lab = self.lab(l, o)
                rows.append('%s mk%dx &=& b %s' % (lab if first else '', m, '' if first else lab))
            return '\\begin{eqnarray}\n%s\n\\end{eqnarray}\n' % '\\\\\n'.join(rows)
        if k == 'enum':
            out = '\\begin{enumerate}\n'
            for i, (m, l1, t, more, l2) in enumerate(b[1]):
                o = ('item', m, str(i + 1))
                out += '\\item %s mk%dx%s\n' % (self.lab(l1, o), m, self.inl(t)) + self.blocks(more, o) + self.lab(l2, o) + '\n'
            return out + '\\end{enumerate}\n'
        if k == 'thm':
            self.count['thm'] += 1
            o = ('thmenv', b[1], str(self.count['thm']))
            return '\\begin{thm}%s mk%dx%s\n' % (self.lab(b[2], o), b[1], self.inl(b[3])) + self.blocks(b[4], o) + self.lab(b[5], o) + '\n\\end{thm}\n'
        if k == 'float':
            o = ('caption', b[2], self.number(b[1]))
            lab, w = self.lab(b[4], o), b[5]
            cap = '\\caption{mk%dx%s%s}' % (b[2], self.inl(b[3]), lab if w == 'in' else '')
            after = {'after': lab, 'line': '\n' + lab, 'center': lab, 'end': '\nword\n\n' + lab}.get(w, '')
            body = '\\begin{center}%s%s\\end{center}' % (cap, after) if w in ('center', 'aftercenter') else cap + after
            return '\\begin{%s}\nword\n%s%s\n\\end{%s}\n' % (b[1], body, lab if w == 'aftercenter' else '', b[1])
        if b[1] == 'itemize':
            return '\\begin{itemize}\\item word\n\n%s\\end{itemize}\n' % self.blocks(b[2], False)
        return '\\begin{%s}\n%s\\end{%s}\n' % (b[1], self.blocks(b[2], obj), b[1])

    def number(self, c):
        self.count[c] += 1
        return ('%d.' % self.secs.get(0, 0) if self.case['cls'] == 'book' and self.secs.get(0) else '') + str(self.count[c])

    def source(self):
        body = self.blocks(self.case['blocks'], None)
        bib = ''
        if self.case['bib']:
            bib = '\\begin{thebibliography}{9}\n' + ''.join('\\bibitem%s{k%d} entry bib%dx\n' % ('[lab%d]' % k if l else '', k, k) for k, l in self.case['bib']) + '\\end{thebibliography}\n'
        return '\\documentclass{%s}\n\\newtheorem{thm}{Theorem}\n\\begin{document}\n%s%s\\end{document}\n' % (self.case['cls'], body, bib)


def labels(x):
    for b in x:
        k = b[0]
        if k == 'par':
            ls = [b[2]]
        elif k == 'sec':
            ls = [b[5]]
        elif k == 'eq':
            ls = [b[2]]
        elif k == 'rows':
            ls = [r[1] for r in b[1]]
        elif k == 'enum':
            ls = [l for it in b[1] for l in [it[1], it[4]] + list(labels(it[3]))]
        elif k == 'thm':
            ls = [b[2], b[5]] + list(labels(b[4]))
        elif k == 'float':
            ls = [b[4]]
        else:
            ls = list(labels(b[2]))
        yield from (l for l in ls if l is not None)


def source(case):
    return W(case).source()


def nontrivial(case):
    w = W(case)
    w.source()
    return w.forward


def shrinks(case):
    if case['bib']:
        yield dict(case, bib=[])
    if len(case['names']) > 1:
        yield dict(case, names=case['names'][:1])

    def many(l):
        if len(l) > 0:
            for i in range(len(l)):
                yield l[:i] + l[i + 1:]
        for i, b in enumerate(l):
            for j, x in enumerate(b):
                if isinstance(x, list) and x and isinstance(x[0], list):
                    for y in many(x):
                        yield l[:i] + [b[:j] + [y] + b[j + 1:]] + l[i + 1:]
                elif isinstance(x, int) and not isinstance(x, bool) and b[0] in ('par', 'eq', 'thm', 'float') and j in {'par': [2], 'eq': [2], 'thm': [2, 5], 'float': [4]}[b[0]]:
                    yield l[:i] + [b[:j] + [None] + b[j + 1:]] + l[i + 1:]
    for y in many(case['blocks']):
        if y:
            yield dict(case, blocks=y)


def first(s):
    m = re.search(r'mk(\d+)x', s)
    return m and int(m[1])


def inside(node, doc):
    n = 0
    while node is not None and n < 1000:
        if node is doc:
            return True
        node, n = node.parentNode, n + 1
    return False


def check(case):
    w = W(case)
    src = w.source()
    if len(set(w.want)) < len([1 for l in set(labels(case['blocks']))]) and len({w.name(l) for l in labels(case['blocks'])}) < len(set(labels(case['blocks']))):
        return ('undecided', 'two labels with one name')
    doc = parse(src)
    known = doc.context.labels
    ids = {}
    for l, (kind, m, number) in w.want.items():
        node = known.get(l)
        if node is None:
            return 'the label %r is not known' % l
        where = {'row': ('ArrayRow', 'eqnarray')}.get(kind, (kind,))
        t = text(node.title) if kind in sum(SECS.values(), []) and node.nodeName == kind else text(node)
        if node.nodeName not in where or first(t) != m:
            return 'the label %r written in %s mk%dx names %s with %r' % (l, kind, m, node.nodeName, t[:40])
        got = getattr(node, 'ref', None)
        got = None if got is None else text(got) if hasattr(got, 'textContent') else str(got)
        if number is not False and got != number:
            return 'the object %s mk%dx of label %r has the number %r, not %r' % (kind, m, l, got, number)
        if not inside(node, doc):
            return 'the object of label %r is not in the document' % l
        ids.setdefault(id(node), (node, []))[1].append(l)
    for node, ls in ids.values():
        if node.id not in ls:
            return 'the object labelled %r has the identifier %r' % (ls, node.id)
    seen = {}
    for node, ls in ids.values():
        if node.id in seen:
            return 'two objects have the identifier %r' % node.id
        seen[node.id] = node
    refs = [n for n in doc.getElementsByTagName('ref') + doc.getElementsByTagName('pageref')]
    want = sorted((k, l) for k, l in w.refs if k != 'cite')
    got = sorted((n.nodeName, str(n.attributes['label'] if isinstance(n.attributes['label'], str) else text(n.attributes['label']))) for n in refs)
    if got != want:
        return ('undecided', 'the references found are %s, not %s' % (got[:5], want[:5]))
    for n in refs:
        l = n.attributes['label']
        l = str(l) if isinstance(l, str) else text(l)
        target = n.idref.get('label')
        if l in w.want:
            if target is not known[l]:
                return 'the reference to %r resolves to %r, not to the object of that label' % (l, getattr(target, 'nodeName', target))
        else:
            if l in known:
                return 'the label %r, which is not written, is known' % l
            if target is not None and (getattr(target, 'ref', None) is not None or getattr(target, 'parentNode', None) is not None or any(target is x for x in known.values())):
                return 'the reference to %r, which is not written, resolves to an object' % l
    cites = sorted(x[1] for x in w.refs if x[0] == 'cite')
    nodes = doc.getElementsByTagName('cite')
    if sorted(list(map(str, n.attributes['bibkeys'])) for n in nodes) != cites:
        return ('undecided', 'citations')
    for n in nodes:
        items = n.bibitems
        if [str(k) for k in n.attributes['bibkeys']] != [x.attributes['key'] for x in items] or any(first2(text(x)) != x.attributes['key'] for x in items):
            return 'the citation of %s finds %s' % (n.attributes['bibkeys'], [text(x) for x in items])
        if any(x.id != x.attributes['key'] or not inside(x, doc) for x in items):
            return 'an item of the bibliography does not have its key as identifier'


def first2(s):
    m = re.search(r'bib(\d+)x', s)
    return m and 'k' + m[1]
