"""C12 bounded stand-in: a random document is rendered twice, once with a neutral word for every piece of text and once
with adversarial text; parsed as HTML, both must be the same tree of elements and attributes, with the adversarial text
where the neutral word was.  Every piece must be displayed somewhere."""
import re

from bounded import docgen, rendering

RULE = ('documents of the shared generator (front matter, sections, footnotes, lists, tables, floats, verbatim, theorems, bibliography, contents) whose '
        'text leaves are markup metacharacters, tag-like, entity-like, script-like and template-like strings and non-ASCII characters; HTML5 and XHTML, '
        'default and minimal themes, high-character escaping, output encodings; non-trivial: a leaf with < > & or "')
BOUND = 'documents of at most 10 blocks'
BUDGET = {'quick': 35, 'thorough': 600}
BATCH = 20
CASE_LIMIT = 60
WARM = ('plasTeX.Renderers.HTML5', 'plasTeX.Renderers.XHTML')
ERROR_FAILS = True

PIECES = ['<', '>', '&', '"', '<b>', '</p>', '<script>alert(1)</script>', '&amp;', '&lt;', '&#60;', '&x-width;', '&img-height;&px;', '<!-- x', '-->', ']]>',
          '<?php ?>', '{{ obj }}', '{% raw %}', '${x}', '$y', 'é', 'ü', '中', '😀', '\u2028', 'a<b', '"x"', '" onclick="x', '%', '#', '_', '\\', 'x', 'word', '</title>',
          '<p></p>', '<td></td>', '=', '/>', '&nbsp', '&copy;', '\xa0', 'structure', '<a href="x">', '&"']
RAW_ONLY = ["'", '`', '--', "''", '~', '^', '{', '}', '\\x', '$']
FEATURES = docgen.ALL - {'idx', 'index', 'ref', 'mbox'} | {'ref'}


def gen_leaf(rng):
    return ''.join(rng.choice(PIECES) + rng.choice(['', '', ' ']) for _ in range(rng.choice([1, 1, 2, 3]))).strip() or 'x'


def raw_leaf(rng):
    s = ''.join(rng.choice(PIECES + RAW_ONLY) + rng.choice(['', ' ']) for _ in range(rng.choice([1, 1, 2, 3]))).strip() or 'x'
    return s.replace('|', '').replace('\u2028', '')


def leaves(d):
    """(running text leaves, verbatim leaves)"""
    t, v = set(), set()

    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 't':
                t.add(x[1])
            elif len(x) == 2 and x[0] == 'verb' and isinstance(x[1], int):
                v.add(x[1])
            elif len(x) == 2 and x[0] == 'verbatim':
                v.update(x[1])
            else:
                for y in x:
                    go(y)
    for k in ('blocks', 'front', 'abstract', 'bib'):
        go(d[k])
    return t, v


def cases(rng, tier):
    while True:
        g = docgen.Gen(rng, FEATURES, size=rng.choice([3, 6, 10]))
        d = g.doc()
        t, v = leaves(d)
        r = rng.choice(['HTML5', 'HTML5', 'XHTML'])
        yield {'doc': d, 'text': {str(n): (gen_leaf(rng) if n in t else raw_leaf(rng)) for n in sorted(t | v)},
               'renderer': r, 'theme': rng.choice(['default', 'default', 'minimal']), 'esc': rng.random() < .3,
               'enc': rng.choice(['utf-8'] * 4 + ['latin-1', 'ascii', 'utf-16']), 'split': rng.choice([2, 2, 1, 0, -10]), 'lt': rng.random() < .3}


def corners():
    n = 0
    for r, th in (('HTML5', 'default'), ('HTML5', 'minimal'), ('XHTML', 'default'), ('XHTML', 'minimal')):
        for s in ('"', '<b>', '&', '&amp;', '&x-width;', '<script>alert(1)</script>'):
            d = {'cls': 'article', 'front': [[['t', 1]], [['t', 2]], [['t', 3]]], 'abstract': [['t', 4]], 'toc': True, 'bib': [['k1', None, [['t', 5]]], ['k2', [['t', 6]], [['t', 7]]]],
                 'index': False, 'labels': ['l1'], 'n': 30, 'blocks': [
                     ['sec', 'section', False, [['t', 8]], 'l1'], ['p', [['t', 9], ['fn', [['t', 10]]], ['verb', 11], ['cite', .1], ['cite', .9]]],
                     ['sec', 'subsection', False, [['b', 'emph', [['t', 12]]]], None], ['list', 'itemize', [[None, [['t', 13]], None, []]]],
                     ['list', 'description', [[[['t', 14]], [['t', 15]], None, []]]], ['list', 'enumerate', [[None, [['t', 16]], None, []]]],
                     ['tab', 1, [[[['t', 17]]]]], ['float', 'figure', [['t', 18]], 'l2', ['p', [['t', 19]]]], ['float', 'table', [['t', 20]], None, ['tab', 1, [[[['t', 21]]]]]],
                     ['verbatim', [22, 23]], ['env', 'quote', [['p', [['t', 24]]]]], ['thm', [['t', 25]], [['t', 26]], None],
                     ['sec', 'section', True, [['t', 27]], None], ['p', [['t', 28]]]]}
            t, v = leaves(d)
            for esc in (False, True):
                yield {'doc': d, 'text': {str(n): s + 'é' for n in sorted(t | v)}, 'renderer': r, 'theme': th, 'esc': esc, 'enc': 'utf-8', 'split': 2, 'lt': False}


TEX = {'&': r'\&', '%': r'\%', '#': r'\#', '_': r'\_', '{': r'\{', '}': r'\}', '$': r'\$', '\\': r'\textbackslash{}', '\xa0': '~', ']': '{]}'}


def tex(s):
    return ''.join(TEX.get(c, c) for c in s).replace('--', '-{}-').replace('--', '-{}-').replace('?`', '?{}`')


def word(n):
    return 'Qq' + chr(97 + n // 26) + chr(97 + n % 26) + 'qQ'


def conf(case, esc, enc):
    return rendering.configuration(case['renderer'], case['theme'], files__escape_high_chars=esc, files__output_encoding=enc, files__split_level=case['split'],
                                   document__disable_charsub=["'"])


IDS = re.compile(r'a\d{10}')


def load(out, enc):
    """{file: normalised tree} with generated identifiers numbered in order of appearance."""
    seen = {}

    def norm(s):
        return IDS.sub(lambda m: seen.setdefault(m.group(0), 'ID%d' % len(seen)), s)
    res = {}
    for f in sorted(out):
        res[f] = norm(out[f].decode(enc))
    return {f: rendering.tree(s) for f, s in res.items()}


def flat(n, sub):
    """Tokens of a tree: ('<', tag, attrs), text, ('>', tag)."""
    out = []

    def go(x):
        if isinstance(x, str):
            out.append(sub(x))
            return
        out.append(('<', x.tag, tuple(sorted((k, ''.join(sub(v).split())) for k, v in x.attrs.items()))))
        for k in x.kids:
            go(k)
        out.append(('>', x.tag))
    go(n)
    return out


def check(case):
    d, texts = case['doc'], {int(k): v for k, v in case['text'].items()}
    t, v = leaves(d)
    w1 = docgen.Writer(d, word, packages='').source()
    w2 = docgen.Writer(d, lambda n: tex(texts[n]), raw=lambda n: texts[n]).source()
    _, o1 = rendering.render(w1, conf(case, False, 'utf-8'))
    try:
        _, o2 = rendering.render(w2, conf(case, case['esc'], case['enc']))
    except UnicodeEncodeError as e:
        return 'rendering with output encoding %s raises %s' % (case['enc'], e)
    if set(o1) != set(o2):
        return 'files %s, with neutral text %s' % (sorted(o2), sorted(o1))
    if case['esc']:
        for f in o2:
            bad = [c for c in o2[f].decode(case['enc']) if ord(c) > 127]
            if bad:
                return '%s has %r although high characters are escaped' % (f, bad[:3])
    t1, t2 = load(o1, 'utf-8'), load(o2, case['enc'])
    words = {word(n): texts[n] for n in t | v}
    pat = re.compile('|'.join(words) or '(?!)')

    def sub(s):
        # with the encoding of the page itself written as a word
        return pat.sub(lambda m: words[m.group(0)], s)
    # what the page says about its encoding differs, of course
    def enc(s):
        return re.sub(r'(?i)utf-8|latin-1|ascii|utf-16', 'ENC', s)
    shown = set()
    for f in sorted(t1):
        a, b = flat(t1[f], sub), flat(t2[f], lambda s: s)
        shown |= set(pat.findall(t1[f].all_text()))
        a, b = [x if isinstance(x, str) else (x[0], x[1]) + tuple((tuple((k, enc(y)) for k, y in x[2]),) if len(x) > 2 else ()) for x in a], \
            [x if isinstance(x, str) else (x[0], x[1]) + tuple((tuple((k, enc(y)) for k, y in x[2]),) if len(x) > 2 else ()) for x in b]
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            return '%s %s, %s: with the text inserted %s, but rendered %s' % (case['renderer'], case['theme'], f, show(a[i:i + 3]), show(b[i:i + 3]))
    hidden = [w for w in words if w not in shown]
    if hidden:
        return 'the text of %s does not appear in the output of %r' % (hidden[:3], w1)


def show(x):
    return repr(x)[:300]


def nontrivial(case):
    return any(set(x) & set('<>&"') for x in case['text'].values())


def shrinks(case):
    for d in docgen.shrink(case['doc']):
        yield dict(case, doc=d)
    for k, x in case['text'].items():
        if x != 'x':
            yield dict(case, text=dict(case['text'], **{k: 'x'}))
    if case['esc']:
        yield dict(case, esc=False)
    if case['enc'] != 'utf-8':
        yield dict(case, enc='utf-8')
    if case['split'] != -10:
        yield dict(case, split=-10)
