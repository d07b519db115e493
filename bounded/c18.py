"""C18 bounded stand-in: documents with random index entries; the tree, its page references, the letter groups and the
columns against an index built independently from the list of entries the document was generated from."""
import random
import re
import unicodedata

from bounded import rendering
from bounded.common import parse, text, config

RULE = ('documents with 0..14 \\index entries of 1..3 levels over mixed-case, accented, numeric and symbol keys, sort@display, quoted special characters, |see, |seealso, |textbf; '
        'scattered over sections, footnotes, lists, tables, macros, titles; index-columns 1..4; non-trivial: two entries of one path, or two with a common first level')
BOUND = 'at most 14 entries per document'
BUDGET = {'quick': 35, 'thorough': 600}
BATCH = 20
ERROR_FAILS = True
LEVEL = 'bounded'
ASSUMPTIONS = ['the collation key is that of pyuca', 'entries with equal sort keys and different display text may come in any order, as long as each path is one line']

# (source, text)
WORDS = [('alpha', 'alpha'), ('Alpha', 'Alpha'), ('beta', 'beta'), ('zeta', 'zeta'), ('al', 'al'), ('alp beta', 'alp beta'), ('\xe9t\xe9', '\xe9t\xe9'), ('\xc9cole', '\xc9cole'), ('ete', 'ete'),
         ("\\'etude", '\xe9tude'), ('\\"uber', '\xfcber'), ('\xe6ther', '\xe6ther'), ('\xf8re', '\xf8re'), ('\\l odz', '\u0142odz'), ('10', '10'), ('9', '9'), ('2x', '2x'), ('+', '+'), ('*x', '*x'),
         ('\\&', '&'), ('\\_', '_'), ('\\_a', '_a'), ('\\%', '%'), ('\\#b', '#b'), ('(', '('), ('"!', '!'), ('"@x', '@x'), ('a"|b', 'a|b'), ('""', '"'), ('b"!c', 'b!c'), ('/', '/'), ('A', 'A'), ('a', 'a'),
         ('b', 'b'), ('c', 'c'), ('Z', 'Z'), ('na\\"ive', 'na\xefve'), ('\xf1', '\xf1'), ('x.y', 'x.y'), ('-', '-')]
SHOWN = [('\\emph{alpha}', 'alpha'), ('\\textbf{beta}', 'beta'), ('$x$', None), ('$y$', None), ('\\emph{a}', 'a'), ('\\texttt{c}', 'c'), ('Alpha', 'Alpha'), ('zz', 'zz'), ('{\\it b}', 'b'), ('A', 'A'), ('a', 'a')]
FORMATS = [None, None, None, None, '|', '|textbf', '|emph', '|see{other}', '|see{other!b}', '|seealso{more@x|y}', '|textit']
PLACES = ['text', 'text', 'text', 'foot', 'item', 'cell', 'macro', 'group', 'bold', 'sec', 'twice']


def key(rng):
    w = rng.choice(WORDS) if rng.random() < .6 else rng.choice(WORDS[:6] + WORDS[30:34])
    r = rng.random()
    if r < .2:
        return [w, rng.choice(SHOWN)]
    if r < .3:
        return [None, rng.choice([s for s in SHOWN if s[1]])]
    return [None, w]


def cases(rng, tier):
    while True:
        n = rng.choice([0, 1, 2, 4, 8, 14])
        pool = [[key(rng) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.choice([1, 2, 4, 8]))]
        es = []
        for _ in range(n):
            p = rng.choice(pool)
            if rng.random() < .3:
                p = p[:rng.randint(1, len(p))]
            elif rng.random() < .2 and len(p) < 3:
                p = p + [key(rng)]
            es.append({'path': p, 'format': rng.choice(FORMATS), 'place': rng.choice(PLACES)})
        yield {'entries': es, 'columns': rng.randint(1, 4), 'cls': rng.choice(['article', 'book']), 'after': rng.choice([0, 0, 0, 1, 2]), 'render': rng.random() < .15}


def entry(e):
    return '!'.join((s[0] + '@' if s else '') + d[0] for s, d in e['path']) + (e['format'] or '')


def source(case):
    out = '\\documentclass{%s}\n\\usepackage{makeidx}\n\\makeindex\n\\newcommand{\\both}[2]{#1\\index{#2}}\n\\begin{document}\n' % case['cls']
    body = []
    k = max(len(case['entries']) - case['after'], 0)
    for i, e in enumerate(case['entries']):
        if i == k:
            body.append('\\printindex\n')
        x = '\\index{%s}' % entry(e)
        p = e['place']
        if i >= k and p in ('sec',):
            p = 'text'
        body.append({'text': 'w%s x\n' % x, 'foot': 'w\\footnote{n%s}\n' % x, 'item': '\\begin{itemize}\\item w%s\\end{itemize}\n' % x, 'cell': '\\begin{tabular}{l}a%s\\\\b\\end{tabular}\n' % x,
                     'macro': '\\both{w}{%s}\n' % entry(e), 'group': '{w%s}\n\n' % x, 'bold': '\\textbf{w%s}\n' % x, 'sec': '\n\\section{S}%s\n' % x, 'twice': '\nw%s\n\n' % x}[p])
    if k >= len(case['entries']):
        body.append('\\printindex\n')
    return out + ''.join(body) + 'end.\n\\end{document}\n'


def path(e):
    """((sort key, display source), ...)"""
    return tuple((s[1] if s else d[1], d[0]) for s, d in e['path'])


def collate(s):
    global COLLATOR
    try:
        return COLLATOR(s)
    except NameError:
        from pyuca.collator import Collator_10_0_0
        COLLATOR = Collator_10_0_0().sort_key
        return COLLATOR(s)


LETTERS = {'\xe6': 'A', '\xc6': 'A', '\xf8': 'O', '\xd8': 'O', '\u0142': 'L', '\u0141': 'L', '\u0153': 'O', '\xdf': 'S'}


def heading(sort):
    if not sort:
        return 'Symbols'
    c = LETTERS.get(sort[0]) or unicodedata.normalize('NFD', sort[0])[0].upper()
    return c if 'A' <= c <= 'Z' else '_ (Underscore)' if c == '_' else 'Symbols'


def lines(node):
    out = []
    for x in node:
        if hasattr(x, 'pages'):
            out.append(x)
    return out


def norm(src):
    return ''.join(src.split()).replace('{', '').replace('}', '').replace('\\(', '$').replace('\\)', '$')


def check(case):
    conf = config(document={'index-columns': case['columns']})
    src = source(case)
    doc = parse(src, conf)
    pi = doc.getElementsByTagName('printindex')
    if len(pi) != 1:
        return '%d \\printindex nodes' % len(pi)
    pi = pi[0]
    nodes = doc.userdata.get('index', [])
    if len(nodes) != len(case['entries']):
        return '%d entries recorded, the document has %d' % (len(nodes), len(case['entries']))
    number = {id(x.node): i for i, x in enumerate(nodes)}
    if len(number) != len(nodes):
        return 'two entries share a node'
    # the entry at each node, told by its own source
    want = {}
    for i, e in enumerate(case['entries']):
        want.setdefault(path(e), []).append(i)
    seen = {}

    def walk(x, up, sorts):
        prev = None
        for y in lines(x):
            if y.parentNode is not x:
                return 'an index line is not in its parent'
            me = up + (y,)
            sk = sorts + (y.sortkey,)
            if prev is not None and collate(prev) > collate(y.sortkey):
                return '%r comes before %r' % (prev, y.sortkey)
            prev = y.sortkey
            got = [number.get(id(p._cr_node)) for p in y.pages]
            r = match(case, me, sk, got)
            if isinstance(r, str):
                return r
            if r is not None:
                if r in seen:
                    return 'the path %r is on two lines' % (r,)
                seen[r] = got
                if got != want.get(r, []):
                    return 'the line %r refers to occurrences %r, the document has %r' % (r, got, want.get(r, []))
                for k, (p, i) in enumerate(zip(y.pages, got)):
                    f = case['entries'][i]['format'] or ''
                    kind = 'see' if f.startswith('|see{') else 'seealso' if f.startswith('|seealso') else 'normal'
                    if [w for w in ('see', 'seealso', 'normal') if getattr(p, w)] != [kind]:
                        return 'occurrence %d of %r is not %s' % (i, r, kind)
                    shown = ''.join(c.textContent for c in p._cr_node.childNodes)
                    if kind == 'normal' and shown != str(k + 1):
                        return 'occurrence %d of %r shows %r, it is number %d of the line' % (i, r, shown, k + 1)
                    if kind != 'normal' and ('other' if kind == 'see' else 'more') not in shown:
                        return 'occurrence %d of %r shows %r' % (i, r, shown)
            r = walk(y, me, sk)
            if r:
                return r
    r = walk(pi, (), ())
    if r:
        return r
    lost = [p for p in want if p not in seen]
    if lost:
        return 'no line for %r' % (lost[0],)
    # groups and columns
    tops = lines(pi)
    groups = pi.groups
    flat = [x for g in groups for col in g for x in col]
    if [id(x) for x in flat] != [id(x) for x in tops]:
        return 'the columns hold %r, the index %r' % ([x.sortkey for x in flat], [x.sortkey for x in tops])
    titles = [g.title for g in groups]
    if len(set(titles)) != len(titles):
        return 'headings %r' % titles
    for g in groups:
        if len(g) != case['columns']:
            return 'the group %s has %d columns, not %d' % (g.title, len(g), case['columns'])
        for col in g:
            for x in col:
                if heading(x.sortkey) != g.title:
                    return '%r is under the heading %s' % (x.sortkey, g.title)
    if case.get('render'):
        return rendered(case, src, tops)


def match(case, nodes, sorts, got):
    """the path of a line: told from its keys; a prefix that no entry names exactly has no pages"""
    n = len(nodes)
    cand = set()
    for e in case['entries']:
        p = path(e)[:n]
        if len(p) == n:
            cand.add(p)
    for p in sorted(cand):
        if all(same(n_, d) and nfc(s) == nfc(s_) for (s, d), s_, n_ in zip(p, sorts, nodes)):
            return p
    return 'no entry names the line %r' % ([(s, ''.join(getattr(k, 'source', str(k)) for k in x.key)) for s, x in zip(sorts, nodes)],)


def nfc(s):
    return unicodedata.normalize('NFC', s)


DISPLAY = {d: t for d, t in WORDS + SHOWN}


def same(node, display):
    src = ''.join(getattr(k, 'source', str(k)) for k in node.key)
    t = nfc(node.key.textContent)
    if display in dict(WORDS):
        return t == dict(WORDS)[display] and 'it' not in src.split('\\')[-1][:2] and not re.search(r'\\(emph|textbf|texttt|it)\b|\$', src)
    m = re.match(r'\{?\\(emph|textbf|texttt|it)\b', display)
    if m:
        return t == DISPLAY[display] and ('\\' + m[1]) in src
    if display.startswith('$'):
        return norm(src) == display
    return t == display


def rendered(case, src, tops):
    _, out = rendering.render(src, rendering.configuration('HTML5', 'minimal', files__split_level=-10, document__index_columns=case['columns']))
    t = rendering.tree([s for f, s in out.items() if f.endswith('.html')][0].decode('utf-8'))
    got = []
    for e in t.walk():
        if isinstance(e, str):
            continue
        if e.tag == 'li' and any(not isinstance(k, str) and k.attrs.get('class') == 'index-item' for k in e.kids):
            item = [k for k in e.kids if not isinstance(k, str) and k.attrs.get('class') == 'index-item'][0]
            got.append((item.all_text(), sum(1 for k in e.kids if not isinstance(k, str) and k.tag == 'a')))
    want = []

    def go(x):
        for y in lines(x) if not isinstance(x, list) else x:
            want.append((None, sum(1 for p in y.pages if p.normal)))
            go(y)
    go(tops)
    if [n for _, n in got] != [n for _, n in want]:
        return 'the rendered index has links %r, the index %r' % (got, want)


def nontrivial(case):
    ps = [path(e) for e in case['entries']]
    return len(set(p[0] for p in ps)) < len(ps)


def shrinks(case):
    es = case['entries']
    for i in range(len(es)):
        yield dict(case, entries=es[:i] + es[i + 1:], after=min(case['after'], len(es) - 1))
    for i, e in enumerate(es):
        for f in (dict(e, format=None), dict(e, place='text')):
            if f != e:
                yield dict(case, entries=es[:i] + [f] + es[i + 1:])
        if len(e['path']) > 1:
            for j in range(len(e['path'])):
                yield dict(case, entries=es[:i] + [dict(e, path=e['path'][:j] + e['path'][j + 1:])] + es[i + 1:])
        for j, (s, d) in enumerate(e['path']):
            if s:
                yield dict(case, entries=es[:i] + [dict(e, path=e['path'][:j] + [[None, d if d[1] else s]] + e['path'][j + 1:])] + es[i + 1:])
    for k, v in (('columns', 1), ('after', 0), ('render', False), ('cls', 'article')):
        if case[k] != v:
            yield dict(case, **{k: v})


def corners():
    def e(*p, **k):
        return {'path': [[None, x] if isinstance(x, tuple) else [x[0], x[1]] for x in p], 'format': k.get('format'), 'place': k.get('place', 'text')}
    a, b, em, A = ('a', 'a'), ('b', 'b'), ('\\emph{a}', 'a'), ('A', 'A')
    W = dict(WORDS)
    w = lambda s: (s, W[s])
    sets = [
        [e(a), e(a), e(a, b), e(a)], [e(a, b), e(a, b, ('c', 'c')), e(a)], [e(a, b), e(b, a), e(a, b)],
        [e([a, em]), e(a), e([a, em]), e(a)], [e([a, ('$x$', None)], b), e([a, ('$y$', None)], b), e([a, ('$x$', None)], ('c', 'c')), e([a, ('$y$', None)], a)],
        [e(em), e(a), e(A), e(em), e(a), e(A)], [e(w('\\_')), e(w('+')), e(w('\\&')), e(w('9')), e(w('10')), e(w('\\_a'))], [e(w('\xe9t\xe9')), e(w('ete')), e(w('\xe6ther')), e(w('\xf8re')), e(w('Z')), e(a)],
        [e(w('"!')), e(w('"@x')), e(w('a"|b')), e(w('""')), e(w('b"!c'))], [e(a, format='|textbf'), e(a, format='|see{other}'), e(a), e(a, format='|seealso{more}')],
        [e(a, format='|see{other}'), e(a, b, format='|see{other}')], [], [e(a)],
        [e(a, place=p) for p in PLACES], [e((c, c)) for c in 'qwertyuiopasdfghjklzxcvbnm'[:14]], [e(('a' + c, 'a' + c)) for c in 'abcdefghijklmn'],
        [e(('a' + c, 'a' + c), b) for c in 'abcde'] + [e(('aa', 'aa'), ('b%d' % i, 'b%d' % i)) for i in range(6)],
        [e([w('zeta'), a]), e([a, w('zeta')]), e(b)], [e(a, format='|textbf'), e(a, format='|textbf')]]
    for s in sets:
        for cols in (1, 2, 3, 4):
            for after in (0, 1):
                yield {'entries': s, 'columns': cols, 'cls': 'article', 'after': min(after, len(s)), 'render': cols == 2}
