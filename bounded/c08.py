"""C08 bounded stand-in: random documents of numbered constructs against an independent
model of LaTeX's counter rules (article and book)."""
import string

from bounded import common

RULE = ('random article/book documents (<= 25 numbered constructs, list nesting <= 6, <= 4 theorem declarations, '
        '<= 2 user counters, numbering depth 0..5); non-trivial: at least three numbered objects and one reset, '
        'starred form, counter manipulation or shared counter')
BOUND = 'documents of at most 25 top-level constructs; representations for every value 1..4999'
BUDGET = {'quick': 40, 'thorough': 420}

SECS = {'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5}


def roman(n):
    out = ''
    for v, s in ((1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'), (50, 'L'), (40, 'XL'),
                 (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')):
        k, n = divmod(n, v)
        out += s * k
    return out


def rep(kind, v):
    if kind == 'arabic':
        return str(v)
    if kind == 'Roman':
        return roman(v)
    if kind == 'roman':
        return roman(v).lower()
    if kind == 'Alph':
        return string.ascii_uppercase[v - 1]
    if kind == 'alph':
        return string.ascii_lowercase[v - 1]


# ------------------------------------------------------------------ generation

def corners():
    yield dict(kind='rep', values=list(range(0, 700)))
    for a in range(700, 5000, 1100):
        yield dict(kind='rep', values=list(range(a, min(5000, a + 1100))))
    yield dict(kind='alph')
    for cls in ('article', 'book'):
        for depth in range(-1, 6):
            secs = [s for s in SECS if cls == 'book' or s != 'chapter']
            yield dict(kind='doc', cls=cls, depth=depth, ams=False, thms=[], ctrs=[],
                       body=[['sec', s, False] for s in secs] + [['sec', s, False] for s in secs[::-1]] +
                            [['sec', s, True] for s in secs] + [['sec', s, False] for s in secs])


def gen_doc(rng):
    cls = rng.choice(['article', 'book'])
    ams = rng.random() < .4
    secs = ['section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph']
    if cls == 'book':
        secs = ['chapter'] + secs
    withins = [s for s in secs if s in ('chapter', 'section', 'subsection')]
    ctrs = []
    for i in range(rng.choice([0, 0, 1, 2])):
        ctrs.append(['u' + 'ab'[i], rng.choice([None] + withins + [c[0] for c in ctrs])])
    thms = []
    for i in range(rng.choice([0, 1, 2, 3, 4])):
        name = 'thm' + 'abcd'[i]
        k = rng.random()
        own = [t[0] for t in thms if t[1] in ('own', 'within')]
        if k < .35 or (k < .6 and not own):
            thms.append([name, 'own', None])
        elif k < .6:
            thms.append([name, 'shared', rng.choice(own + ([rng.choice(['equation', 'section'])] if rng.random() < .15 else []))])
        elif k < .9:
            thms.append([name, 'within', rng.choice(withins + own)])
        else:
            thms.append([name, 'star', None] if ams else [name, 'own', None])
    user = [c[0] for c in ctrs] + [t[0] for t in thms if t[1] in ('own', 'within')]
    settable = [s for s in secs[:4]] + ['equation', 'figure', 'table'] + user
    nest = []
    weights = [rng.random() for _ in range(12)]

    def block(depth, inlist=0):
        k = rng.choices(range(9), [weights[0] * 2, weights[1], weights[2], weights[3], weights[4] * 2, weights[5] * 1.5,
                                   weights[6] * 1.5, weights[7], weights[8]])[0]
        if k in (0, 8) and (depth or inlist):
            k = 4
        if k == 0:
            return ['sec', rng.choices(secs, [len(secs) - i for i in range(len(secs))])[0], rng.random() < .15]
        if k == 1:
            return [rng.choice(['eq', 'eq', 'eq', 'dmath'])]
        if k == 2:
            return [rng.choice(['eqnarray', 'eqnarray', 'align']) if ams else 'eqnarray',
                    [rng.random() < .3 for _ in range(rng.randint(1, 4))]]
        if k == 3:
            return ['eqnarray*', rng.randint(1, 3)]
        if k == 4:
            if not thms:
                return ['eq']
            return ['thm', rng.choice(thms)[0], [block(depth + 1, inlist) for _ in range(rng.choice([0, 0, 0, 1, 2]))] if depth < 2 else []]
        if k == 5:
            if inlist >= 6:
                return ['eq']
            kinds = [t for t in ('enumerate', 'enumerate', 'itemize', 'description') if nest.count(t) < 4]
            kind = rng.choice(kinds)
            nest.append(kind)
            if inlist == 0 and rng.random() < .25:         # a chain of nested lists
                d = rng.randint(2, 6)
                ks = [kind]
                while len(ks) < d:
                    ks.append(rng.choice([t for t in ('enumerate', 'itemize') if ks.count(t) < 4]))
                inner = []
                for t in ks[::-1]:
                    pre, post = rng.randint(0, 2), rng.randint(0, 2)
                    items = [[] for _ in range(pre)] + [[inner] if inner else []] + [[] for _ in range(post)]
                    inner = ['list', t, items, [t == 'description'] * 4]
                nest.pop()
                return inner
            r = ['list', kind,
                 [[block(depth + 1, inlist + 1) for _ in range(rng.choice([0, 0, 0, 1]))] for _ in range(rng.randint(1, 4))],
                 [kind == 'description' or (kind == 'itemize' and rng.random() < .2) for _ in range(4)]]
            nest.pop()
            return r
        if k == 6:
            o = rng.random()
            if o < .12 and (not nest or set(nest) == {'enumerate'} and len(nest) < 5):
                return ['setenum', len(nest) or 1, rng.randint(0, 9)]
            c = rng.choice(settable)
            if o < .05:
                return ['setv', c, rng.choice(settable)]
            if o < .3:
                return ['set', c, rng.randint(0, 30)]
            if o < .6:
                return ['add', c, rng.randint(-1, 5)]
            if o < .8:
                return ['step', c, rng.choice(['', '', 'ref'])]
            if user and o < .9:
                return ['the', rng.choice(user)]
            return ['rep', c, rng.choice(['arabic', 'roman', 'Roman', 'alph', 'Alph'])]
        if k == 7:
            if depth or inlist:
                return ['eq']
            return [rng.choice(['figure', 'table']), rng.choice([0, 1, 1, 1, 2]), rng.random() < .1, rng.choice(['', '', '', '*'])]
        return ['appendix'] if rng.random() < .3 else ['sec', secs[0], False]
    body = [block(0) for _ in range(rng.randint(2, 25))]
    seen = False
    out = []
    for b in body:
        if b[0] == 'appendix':
            if seen:
                continue
            seen = True
        out.append(b)
    return dict(kind='doc', cls=cls, depth=rng.choice([2, 2, 3, 1, 0, 4, 5]), ams=ams, thms=thms, ctrs=ctrs, body=out)


def cases(rng, tier):
    while True:
        yield gen_doc(rng)


def alph(n):
    if not 1 <= n <= 26:
        raise Skip      # outside the range of \\Alph
    return string.ascii_uppercase[n - 1]


# ------------------------------------------------------------------ LaTeX model

class Model:
    def __init__(self, case):
        self.case = case
        self.v, self.within = {}, {}
        art = case['cls'] == 'article'
        for c, w in [('chapter', None), ('section', None if art else 'chapter'), ('subsection', 'section'),
                     ('subsubsection', 'subsection'), ('paragraph', 'subsubsection'), ('subparagraph', 'paragraph'),
                     ('equation', None if art else 'chapter'), ('figure', None if art else 'chapter'),
                     ('table', None if art else 'chapter')]:
            self.new(c, w)
        for c, w in case['ctrs']:
            self.new(c, w)
        self.thm = {}
        for name, k, arg in case['thms']:
            self.thm[name] = (k, arg)
            if k == 'own':
                self.new(name, None)
            elif k == 'within':
                self.new(name, arg)
        self.appendix = False
        self.out = []

    def new(self, c, w):
        self.v[c] = 0
        self.within[c] = w

    def step(self, c):
        self.v[c] += 1
        self.reset(c)

    def reset(self, c):
        for d, w in self.within.items():
            if w == c:
                self.v[d] = 0
                self.reset(d)

    def the(self, c):
        v = self.v
        art = self.case['cls'] == 'article'
        if c == 'chapter':
            return alph(v[c]) if self.appendix else str(v[c])
        if c == 'section' and art:
            return alph(v[c]) if self.appendix else str(v[c])
        if c in ('equation', 'figure', 'table'):
            if not art and self.appendix:
                alph(v['chapter'])
            if not art and v['chapter'] > 0:
                return self.the('chapter') + '.' + str(v[c])
            return str(v[c])
        if c in SECS or (c in self.thm and self.thm[c][0] == 'within'):
            return self.the(self.within[c]) + '.' + str(v[c])
        return str(v[c])

    def run(self, ops):
        for op in ops:
            k = op[0]
            if k == 'sec':
                if op[2]:
                    self.out.append((op[1], None))
                elif SECS[op[1]] > self.case['depth']:
                    # deeper than the configured depth: not printed (plasTeX reads the
                    # configured depth as a display depth; the counter still steps)
                    self.step(op[1])
                    self.out.append((op[1], None))
                else:
                    self.step(op[1])
                    self.out.append((op[1], self.the(op[1])))
                if self.v[op[1]] > 26 and self.appendix:
                    raise Skip
            elif k == 'eq':
                self.step('equation')
                self.out.append(('equation', self.the('equation')))
            elif k == 'dmath':
                self.out.append(('displaymath', None))
            elif k in ('eqnarray', 'align'):
                for non in op[1]:
                    if non:
                        self.out.append(('row', None))
                    else:
                        self.step('equation')
                        self.out.append(('row', self.the('equation')))
            elif k == 'eqnarray*':
                for _ in range(op[1]):
                    self.out.append(('row', None))
            elif k in ('figure', 'table'):
                for _ in range(op[1]):
                    if op[2]:
                        self.out.append(('caption', None))
                    else:
                        self.step(k)
                        self.out.append(('caption', self.the(k)))
            elif k == 'thm':
                kind, arg = self.thm[op[1]]
                if kind == 'star':
                    self.out.append(('thmenv', None))
                else:
                    c = arg if kind == 'shared' else op[1]
                    self.step(c)
                    self.out.append(('thmenv', self.the(c)))
                self.run(op[2])
            elif k == 'list':
                assert not op[2]
            elif k == 'set':
                self.v[op[1]] = op[2]
            elif k == 'setenum':
                pass
            elif k == 'setv':
                self.v[op[1]] = self.v[op[2]]
            elif k == 'add':
                self.v[op[1]] += op[2]
                if self.v[op[1]] < 0:
                    raise Skip
            elif k == 'step':
                self.step(op[1])
            elif k == 'the':
                self.out.append(('textbf', self.the(op[1])))
            elif k == 'rep':
                v = self.v[op[1]]
                if op[2] == 'arabic' or (1 <= v <= (26 if op[2].lower() == 'alph' else 4999)):
                    self.out.append(('textbf', rep(op[2], v)))
            elif k == 'appendix':
                self.appendix = True
                if self.case['cls'] == 'book':
                    self.v['chapter'] = 0
                    self.v['section'] = 0
                else:
                    self.v['section'] = 0
                    self.v['subsection'] = 0


class Skip(Exception):
    pass


def latex(case):
    m = Model(case)      # needed to drop representations outside their range
    o = [r'\documentclass{%s}' % case['cls']]
    if case['ams']:
        o.append(r'\usepackage{amsmath,amsthm}')
    for c, w in case['ctrs']:
        o.append(r'\newcounter{%s}%s' % (c, '[%s]' % w if w else ''))
    for name, k, arg in case['thms']:
        cap = name.capitalize()
        o.append({'own': r'\newtheorem{%s}{%s}' % (name, cap), 'shared': r'\newtheorem{%s}[%s]{%s}' % (name, arg, cap),
                  'within': r'\newtheorem{%s}{%s}[%s]' % (name, cap, arg),
                  'star': r'\newtheorem*{%s}{%s}' % (name, cap)}[k])
    o.append(r'\begin{document}')

    nums = []

    def emit(ops):
        for op in ops:
            k = op[0]
            n0 = len(m.out)
            if k in ('thm', 'list'):
                pass
            else:
                m.run([op])
            if k == 'sec':
                o.append('\\%s%s{Title}\n\nText.\n' % (op[1], '*' if op[2] else ''))
            elif k == 'eq':
                o.append(r'\begin{equation} x=y \end{equation}')
            elif k == 'dmath':
                o.append(r'\[ x=y \]')
            elif k in ('eqnarray', 'align'):
                o.append(r'\begin{%s} ' % k + ' \\\\ '.join('a & = & b' + (r' \nonumber' if x else '') for x in op[1]) +
                         r' \end{%s}' % k)
            elif k == 'eqnarray*':
                o.append(r'\begin{eqnarray*} ' + ' \\\\ '.join('a & = & b' for x in range(op[1])) + r' \end{eqnarray*}')
            elif k in ('figure', 'table'):
                o.append(r'\begin{%s%s}%s\end{%s%s}' % (k, op[3], ''.join('Body \\caption%s{Cap} ' % (
                    '*' if op[2] else ['', '[Short]'][i % 2]) for i in range(op[1])), k, op[3]))
            elif k == 'thm':
                m.run([['thm', op[1], []]])
                o.append(r'\begin{%s} Statement. ' % op[1])
                emit(op[2])
                o.append(r'\end{%s}' % op[1])
            elif k == 'list':
                o.append(r'\begin{%s}' % op[1])
                nums.append(0)
                for i, item in enumerate(op[2]):
                    if op[1] != 'enumerate':
                        m.out.append(('item', 'any'))
                    elif op[3][i % 4]:
                        m.out.append(('item', 'any'))       # \\item[x] has no number
                    else:
                        nums[-1] += 1
                        m.out.append(('item', str(nums[-1])))
                    o.append(r'\item%s text ' % ('[lab]' if op[3][i % 4] else ''))
                    emit(item)
                nums.pop()
                o.append(r'\end{%s}' % op[1])
            elif k == 'set':
                o.append(r'\setcounter{%s}{%d}' % (op[1], op[2]))
            elif k == 'add':
                o.append(r'\addtocounter{%s}{%d}' % (op[1], op[2]))
            elif k == 'step':
                o.append(r'\%sstepcounter{%s}' % (op[2], op[1]))
            elif k == 'setenum':
                if nums:
                    nums[-1] = op[2]
                o.append(r'\setcounter{%s}{%d}' % (['enumi', 'enumii', 'enumiii', 'enumiv'][op[1] - 1], op[2]))
            elif k == 'setv':
                o.append(r'\setcounter{%s}{\value{%s}}' % (op[1], op[2]))
            elif k == 'the':
                o.append(r'\textbf{\the%s}' % op[1])
            elif k == 'rep':
                if len(m.out) > n0:
                    o.append(r'\textbf{\%s{%s}}' % (op[2], op[1]))
            elif k == 'appendix':
                o.append(r'\appendix')
    emit(case['body'])
    o.append(r'\end{document}')
    return '\n'.join(o), m


def observe(doc, case):
    out = []
    secs = set(SECS)

    def ref(n):
        r = getattr(n, 'ref', None)
        if r is None:
            return None
        return r if isinstance(r, str) else str(r.textContent)

    def walk(n, star):
        name = n.nodeName
        if name in secs:
            out.append((name, ref(n)))
        elif name in ('equation', 'displaymath'):
            out.append((name, ref(n)))
        elif name == 'ArrayRow':
            out.append(('row', ref(n)))
        elif name == 'caption':
            out.append(('caption', ref(n)))
        elif name == 'thmenv':
            out.append(('thmenv', ref(n)))
        elif name == 'item':
            out.append(('item', ref(n)))
        elif name == 'textbf':
            out.append(('textbf', str(n.textContent)))
        for c in getattr(n, 'childNodes', []):
            if c.nodeType == c.ELEMENT_NODE or c.nodeType == c.DOCUMENT_FRAGMENT_NODE:
                walk(c, star)
    walk(doc, False)
    return out


def check(case):
    if case['kind'] == 'rep':
        from plasTeX import TeXDocument
        doc = TeXDocument()
        doc.context.newcounter('zz')
        c = doc.context.counters['zz']
        for v in case['values']:
            if v == 0:
                continue
            c.setcounter(v)
            for k in ('arabic', 'roman', 'Roman'):
                if str(getattr(c, k)) != rep(k, v):
                    return '%s of %d is %r' % (k, v, getattr(c, k))
        vs = case['values'][1::97]
        src = ''.join(r'\setcounter{zz}{%d}\textbf{\arabic{zz}}\textbf{\roman{zz}}\textbf{\Roman{zz}}' % v for v in vs)
        d = common.parse(r'\documentclass{article}\newcounter{zz}\begin{document}' + src + r'\end{document}')
        got = [str(n.textContent) for n in d.getElementsByTagName('textbf')]
        want = [rep(k, v) for v in vs for k in ('arabic', 'roman', 'Roman')]
        return None if got == want else 'representations in a document: %r' % [x for x in zip(got, want) if x[0] != x[1]][:3]
    if case['kind'] == 'alph':
        from plasTeX import TeXDocument
        doc = TeXDocument()
        doc.context.newcounter('zz')
        c = doc.context.counters['zz']
        for v in range(1, 27):
            c.setcounter(v)
            if c.alph != string.ascii_lowercase[v - 1] or c.Alph != string.ascii_uppercase[v - 1]:
                return 'alph of %d is %r / %r' % (v, c.alph, c.Alph)
        return
    try:
        src, m = latex(case)
    except Skip:
        return 'skip', None
    for v in m.v.values():
        if v > 26 and m.appendix:
            return 'skip', None
    doc = common.parse(src, common.config(document={'sec-num-depth': case['depth']}))
    got = observe(doc, case)
    want = m.out
    if len(got) != len(want):
        return 'number of objects: got %r want %r\n%s' % (got, want, src)
    for i, (g, w) in enumerate(zip(got, want)):
        if g[0] != w[0] or (w[1] != 'any' and g[1] != w[1]):
            return 'object %d: got %r, LaTeX gives %r\n%s' % (i, g, w, src)
    for c, v in m.v.items():
        if c in doc.context.counters and doc.context.counters[c].value != v:
            return 'counter %s is %d at the end, LaTeX has %d\n%s' % (c, doc.context.counters[c].value, v, src)


def nontrivial(case):
    if case['kind'] != 'doc':
        return True
    flat = str(case['body'])
    n = sum(flat.count("'%s'" % k) for k in ('sec', 'eq', 'eqnarray', 'thm', 'figure', 'table', 'list'))
    return n >= 3 and any(x in flat for x in ("'set'", "'add'", "'step'", 'True', "'appendix'", "'sec'")) or bool(case['thms'])


def shrinks(case):
    if case['kind'] != 'doc':
        return
    for b in common.list_shrinks(case['body']):
        if all(isinstance(x, list) and x and isinstance(x[0], str) and len(x) >= SHAPE.get(x[0], 1) for x in flat_ops(b)):
            yield dict(case, body=b)
    used = str(case['body']) + str([t[2] for t in case['thms']])
    for i, t in enumerate(case['thms']):
        if "'%s'" % t[0] not in used:
            yield dict(case, thms=case['thms'][:i] + case['thms'][i + 1:])
    if case['ams'] and not any(t[1] == 'star' for t in case['thms']):
        yield dict(case, ams=False)


SHAPE = {'sec': 3, 'eqnarray': 2, 'eqnarray*': 2, 'thm': 3, 'list': 4, 'set': 3, 'setv': 3, 'setenum': 3, 'align': 2, 'add': 3, 'step': 3, 'the': 2, 'rep': 3,
         'figure': 4, 'table': 4}


def flat_ops(ops):
    for o in ops:
        yield o
        if isinstance(o, list) and o and o[0] == 'thm' and len(o) == 3:
            yield from flat_ops(o[2])
        if isinstance(o, list) and o and o[0] == 'list' and len(o) == 4:
            for it in o[2]:
                yield from flat_ops(it)
        if isinstance(o, list) and o and o[0] in ('eqnarray', 'align') and len(o) == 2 and not o[1]:
            yield 'bad'
        if isinstance(o, list) and o and o[0] == 'list' and len(o) == 4 and not o[2]:
            yield 'bad'
