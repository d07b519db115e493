"""C13 bounded stand-in: every piece of body text is a marker word; the files that must be written, and the markers each
must contain in which order, are computed from the document tree, and compared with the output directory."""
import importlib
import os
import re

from bounded import docgen, rendering
from bounded.common import scratch

RULE = ('documents of the shared generator whose body text leaves are distinct marker words and whose titles repeat and contain forbidden characters; split level -10..6, '
        'wildcard file name templates and single-file templates, forbidden-character settings, HTML5 default/minimal and XHTML; expected files and the marker sequence of each '
        'computed from the tree; rendered twice, names and contents must agree; non-trivial: at least two files')
BOUND = 'documents of at most 12 blocks'
BUDGET = {'quick': 35, 'thorough': 600}
BATCH = 20
CASE_LIMIT = 60
WARM = ('plasTeX.Renderers.HTML5', 'plasTeX.Renderers.XHTML')
ERROR_FAILS = True

TITLES = ['Intro', 'Intro', 'Results', 'a b c d', 'x: y', 'one, two', 'q?', 'A \\& B', '50\\%', 'caf\xe9', '\\emph{it} is', 'e=mc', 'under\\_score', '(x)', "what's", 'index', 'sect0001', '']
DOTTED = ['1.2 dots', 'v1.0', '.', '..', 'a/b', '/x', 'a/../b']
TEMPLATES = ['index [$id, sect$num(4)]', '[$id, sect$num(4)]', 'index [$title, sect$num]', '[$title(2), $num]', '[$title(1), $id, part$num(2)]', '$jobname-$num', 'a b c sec$num(3)',
             'index toc [$id, $title(3), n$num]', '$num(2)', '[$name-$ref, $name-$num]', 'index [$ref, s$num]', '[$name, f$num]', 'sub/file$num', 'index chap/[$id, sect$num(3)]',
             'index [$jobname-$id, $jobname-$num]', '[$id, $id, x$num(1)]', '$title $num', 'x[$num(3)]', 'index.htm [sec-$id.xml, sec-$num.htm]']
SINGLE = ['all', 'index', 'book.htm', '$jobname']
BAD = [None, None, ' ', ': /.', '-:/.', 'aeiou/.: ', ': #$%^&*!~`"\'=?/{}[]()|<>;\\,.']
SUBS = [None, None, '_', '-', '', 'X']


def leaf_kinds(d):
    """(title leaves, body leaves)"""
    title, body = set(), set()

    def go(x, s):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('t', 'verb') and isinstance(x[1], int):
                s.add(x[1])
            elif len(x) == 2 and x[0] == 'verbatim':
                s.update(x[1])
            elif len(x) == 5 and x[0] == 'sec':
                go(x[3], title)
            else:
                for y in x:
                    go(y, s)
    go(d['blocks'], body)
    go(d['abstract'], body)
    go(d['front'], title)
    for k, lab, t in d['bib']:
        go(lab, title)
        go(t, body)
    return title, body


def cases(rng, tier):
    while True:
        g = docgen.Gen(rng, docgen.ALL - {'eq'}, size=rng.choice([3, 6, 12]))
        d = g.doc()
        bad, sub = rng.choice(BAD), rng.choice(SUBS)
        title, body = leaf_kinds(d)
        full = bad is None or '.' in bad and '/' in bad
        safe = full and '.' not in (sub or '') and '/' not in (sub or '')
        titles = rng.sample(TITLES, k=rng.randint(1, len(TITLES))) + (rng.sample(DOTTED, k=2) if safe else [])
        template = rng.choice(SINGLE) if rng.random() < .1 else rng.choice(TEMPLATES)
        r = rng.choice(['HTML5', 'HTML5', 'XHTML'])
        yield {'doc': d, 'titles': {str(n): rng.choice(titles) for n in sorted(title)}, 'template': template, 'bad': bad, 'sub': sub, 'split': rng.randint(-10, 6),
               'renderer': r, 'theme': rng.choice(['default', 'minimal']) if r == 'HTML5' else 'default', 'labels': rng.choice(['l', 'sec:', 'm'])}


def label(case, l):
    n = int(l[1:])
    if case['labels'] == 'm':
        return 'x%s%d' % (':-_'[n % 3], n // 3)
    return case['labels'] + str(n)


def source(case):
    titles = case['titles']
    s = docgen.Writer(case['doc'], lambda n: titles[str(n)] if str(n) in titles else mark(n), mark).source()
    return re.sub(r'\\(label|ref|pageref)\{(l\d+)\}', lambda m: '\\%s{%s}' % (m[1], label(case, m[2])), s)


def mark(n):
    return 'mk%dx' % n


def single(t):
    return ' ' not in t.strip() and '[' not in t


def expected(case):
    """[(description of the unit, markers of its text, markers of its footnotes)] of the files, in document order."""
    d, split = case['doc'], case['split']
    if single(case['template']):
        split = -10
    files = [('document', [], [])]
    stack = [(docgen.LEVEL['document'], files[0])]

    def text(x, f):
        k = x[0]
        if k in ('t', 'verb'):
            if str(x[1]) not in case['titles']:
                f[1].append(x[1])
        elif k == 'b':
            for y in x[2]:
                text(y, f)
        elif k == 'fn':
            for y in x[1]:
                text(y, (None, f[2], None))

    def block(b, f):
        k = b[0]
        if k == 'p':
            for x in b[1]:
                text(x, f)
        elif k == 'list':
            for term, body, _, more in b[2]:
                for x in (term or []) + body:
                    text(x, f)
                for m in more:
                    block(m, f)
        elif k == 'tab':
            for r in b[2]:
                for c in r:
                    for x in c:
                        text(x, f)
        elif k == 'float':
            block(b[4], f)
            for x in b[2]:
                text(x, f)
        elif k == 'verbatim':
            f[1].extend(b[1])
        elif k == 'env':
            for y in b[2]:
                block(y, f)
        elif k == 'thm':
            for x in (b[1] or []) + b[2]:
                text(x, f)

    def unit(level, what):
        while stack[-1][0] >= level:
            stack.pop()
        f = stack[-1][1]
        if level <= split:
            f = (what, [], [])
            files.append(f)
        stack.append((level, f))
        return f
    for x in d['abstract'] or []:
        text(x, files[0])
    for b in d['blocks']:
        if b[0] == 'sec':
            unit(docgen.LEVEL[b[1]], '%s %s' % (b[1], [x for x in b[3]]))
        else:
            block(b, stack[-1][1])
    # the bibliography is an environment of the last unit
    for _, lab, t in d['bib']:
        for x in t:
            text(x, stack[-1][1])
    if d['index']:
        unit(1 if d['cls'] == 'article' else 0, 'index')
    return files


def run(case):
    over = {'files__filename': case['template'], 'files__split_level': case['split']}
    if case['bad'] is not None:
        # values are interpolated like those of a configuration file
        over['files__bad_chars'] = case['bad'].replace('%', '%%')
    if case['sub'] is not None:
        over['files__bad_chars_sub'] = case['sub']
    conf = rendering.configuration(case['renderer'], case['theme'], **over)
    with scratch():
        doc = rendering.document(source(case), conf)
        before = set(listing())
        try:
            importlib.import_module('plasTeX.Renderers.' + case['renderer']).Renderer().render(doc)
        except BaseException:
            rendering.cleanup()
            raise
        out = {}
        for p in listing():
            if p not in before and not p.endswith('.paux'):
                with open(p, encoding='utf-8') as f:
                    out[p] = f.read()
        return out, conf['files']['bad-chars'], conf['files']['bad-chars-sub']


def listing():
    return [os.path.relpath(os.path.join(r, f), '.') for r, _, fs in os.walk('.') for f in fs]


def check(case):
    out, bad, sub = run(case)
    exp = expected(case)
    seq = {p: [int(x) for x in re.findall(r'mk(\d+)x', s)] for p, s in out.items()}
    where = {}
    for p, l in seq.items():
        for m in l:
            where.setdefault(m, []).append(p)
    for n, (what, body, notes) in enumerate(exp):
        for m in body + notes:
            if len(where.get(m, [])) != 1:
                return 'the text %s of the %s appears %s' % (mark(m), what, 'nowhere' if m not in where else 'in %s' % where[m])
    if len(out) != len(exp):
        return 'files %s written for the units %s' % (sorted(out), [e[0] for e in exp])
    used = {}
    for what, body, notes in exp:
        if body or notes:
            ps = {where[m][0] for m in body + notes}
            if len(ps) != 1:
                return 'the text of the %s is in %s' % (what, sorted(ps))
            p = ps.pop()
            if p in used:
                return 'the text of the %s and of the %s is in %s' % (used[p], what, p)
            used[p] = what
            if seq[p] != body + notes:
                return 'the file %s of the %s has the markers %s, not %s followed by the footnotes %s' % (p, what, seq[p], body, notes)
    static = set(case['template']) | {'.'} | set('.html')
    for p in out:
        stem = p
        hit = [c for c in os.path.splitext(stem)[0] if c in bad and c not in static and c not in sub and c not in '0123456789job']
        if hit and case['bad'] != 'aeiou/.: ':
            return 'the file name %r contains the forbidden %r' % (p, hit)
    again, _, _ = run(case)
    if sorted(again) != sorted(out):
        return 'a second run writes %s, not %s' % (sorted(again), sorted(out))
    for p in out:
        if [int(x) for x in re.findall(r'mk(\d+)x', again[p])] != seq[p]:
            return 'a second run writes different text to %s' % p
    return None


def nontrivial(case):
    return len(expected(case)) > 1


def shrinks(case):
    for d in docgen.shrink(case['doc']):
        yield dict(case, doc=d)
    if case['labels'] != 'l':
        yield dict(case, labels='l')
    for k in ('bad', 'sub'):
        if case[k] is not None:
            yield dict(case, **{k: None})
    for n, t in case['titles'].items():
        if t != 'T':
            yield dict(case, titles=dict(case['titles'], **{n: 'T'}))
    if case['renderer'] != 'HTML5' or case['theme'] != 'minimal':
        yield dict(case, renderer='HTML5', theme='minimal')


def corners():
    full = {'cls': 'book', 'front': None, 'abstract': None, 'toc': True, 'bib': [['k1', None, [['t', 90]]]], 'index': True, 'labels': ['l1', 'l2', 'l3'], 'n': 99, 'blocks': [
        ['p', [['t', 1], ['fn', [['t', 2]]], ['t', 3]]],
        ['sec', 'part', False, [['t', 4]], 'l1'], ['p', [['t', 5]]],
        ['sec', 'chapter', False, [['t', 6]], None], ['p', [['t', 7], ['fn', [['t', 8]]]]],
        ['sec', 'section', False, [['t', 9]], 'l2'], ['p', [['t', 10], ['fn', [['t', 11]]], ['fn', [['t', 12]]]]],
        ['sec', 'subsection', False, [['t', 13]], None], ['list', 'itemize', [[None, [['t', 14]], None, [['list', 'enumerate', [[None, [['t', 15], ['fn', [['t', 16]]]], None, []]]]]]]],
        ['sec', 'subsubsection', False, [['t', 17]], 'l3'], ['float', 'figure', [['t', 18]], None, ['p', [['t', 19]]]],
        ['sec', 'paragraph', False, [['t', 20]], None], ['p', [['t', 21]]],
        ['sec', 'section', True, [['t', 22]], None], ['p', [['t', 23]]],
        ['sec', 'subsection', False, [['t', 24]], None],
        ['sec', 'chapter', True, [['t', 25]], None], ['thm', None, [['t', 26]], None], ['p', [['t', 27], ['idx', 'alpha']]]]}
    title, _ = leaf_kinds(full)
    for r, th in (('HTML5', 'default'), ('HTML5', 'minimal'), ('XHTML', 'default')):
        for split in range(-10, 7) if th == 'minimal' else (-10, 0, 2, 6):
            yield {'doc': full, 'titles': {str(n): TITLES[(n * 5) % 7] for n in sorted(title)}, 'template': TEMPLATES[split % len(TEMPLATES)], 'bad': None, 'sub': None, 'split': split,
                   'renderer': r, 'theme': th, 'labels': 'm'}
    for t in TEMPLATES + SINGLE:
        yield {'doc': full, 'titles': {str(n): TITLES[n % 3] for n in sorted(title)}, 'template': t, 'bad': None, 'sub': None, 'split': 2, 'renderer': 'HTML5', 'theme': 'minimal', 'labels': 'sec:'}
