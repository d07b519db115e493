"""C20 bounded stand-in: histories of saving, damaging and restoring the file of label data, through Context.persist and
Context.restore and through whole runs of two documents; the expected content is kept beside, from the labelled objects."""
import os
import pickle
import re
import shutil

from bounded import docgen, rendering
from bounded.common import config, parse, scratch

RULE = ('documents of the shared generator with labels; histories of 2-8 steps save / truncate (every byte of the saved file in the enumerated part) / flip bits / empty / foreign content / '
        'remove, two renderer names, restored into a fresh context after each step; whole runs of plasTeX.Compile with HTML5 and XHTML where a second document refers to the labels of the '
        'first (found in the directory or through xr), with damage in between; non-trivial: a damaged file is restored and saved again')
BOUND = 'at most 8 labelled blocks, at most 8 steps'
BUDGET = {'quick': 30, 'thorough': 600}
BATCH = 10
CASE_LIMIT = 60
WARM = ('plasTeX.Renderers.HTML5', 'plasTeX.Renderers.XHTML')
ERROR_FAILS = True
ASSUMPTIONS = ['pickle.load raises only subclasses of Exception on damaged input', 'the attributes of the labelled objects at saving time are taken as their number, title and identifier']
LEVEL = 'bounded'

RENDERERS = ['HTML5', 'XHTML']
FOREIGN = [b'\n', b'hello', b'<html></html>', b'\x80', b'\x80\x04.', b'\x1f\x8b\x08\x00', pickle.dumps(None), pickle.dumps(5), pickle.dumps([]), pickle.dumps(['HTML5', 'XHTML']), pickle.dumps('HTML5'),
           pickle.dumps({}), pickle.dumps({'HTML5': None, 'XHTML': None}), pickle.dumps({'HTML5': [], 'XHTML': 3}), pickle.dumps({'HTML5': {'zz': 5}, 'XHTML': {'zz': None}}),
           pickle.dumps({'HTML5': {'zz': {'macroName': 5}}, 'XHTML': {'zz': {'macroName': None}}}), pickle.dumps({'HTML5': {5: {}}, 'XHTML': {None: {}}}), pickle.dumps({'Text': {'a': {'id': 'a', 'ref': '1'}}}),
           pickle.dumps({'HTML5': {'zz': {'childNodes': 5}}, 'XHTML': {'zz': {'parentNode': 5, 'textContent': 'x'}}}), b"c__builtin__\nopen\n.", b"cnot_a_module\nname\n.", b'(' * 50, b'I5\n.', b'N.']


def gen(rng, size):
    while True:
        g = docgen.Gen(rng, tuple(f for f in docgen.ALL if f not in ('toc', 'index')), size=size)
        d = g.doc()
        if docgen.labels(d):
            return d


def cases(rng, tier):
    while True:
        docs = [gen(rng, rng.choice([2, 4, 8])) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .85:
            steps = []
            for _ in range(rng.randint(2, 8)):
                x = rng.random()
                if x < .4 or not steps:
                    steps.append(['save', rng.randrange(len(docs)), rng.randrange(2)])
                elif x < .6:
                    steps.append(['cut', rng.random()])
                elif x < .8:
                    steps.append(['flip', [[rng.random(), rng.randrange(8)] for _ in range(rng.choice([1, 1, 1, 2, 5]))]])
                elif x < .85:
                    steps.append(['empty'])
                elif x < .95:
                    steps.append(['foreign', rng.randrange(len(FOREIGN))])
                else:
                    steps.append(['remove'])
            yield {'kind': 'api', 'docs': docs, 'steps': steps}
        else:
            steps = []
            for _ in range(rng.randint(1, 3)):
                steps.append(['run', rng.randrange(len(docs)), rng.randrange(2)])
                x = rng.random()
                if x < .3:
                    steps.append(['cut', rng.random()])
                elif x < .5:
                    steps.append(['flip', [[rng.random(), rng.randrange(8)]]])
                elif x < .6:
                    steps.append(['foreign', rng.randrange(len(FOREIGN))])
            yield {'kind': 'run', 'docs': docs, 'steps': steps, 'split': rng.choice([-10, 0, 2]), 'xr': rng.random() < .4, 'base': rng.choice(['', '', 'http://ex.org/b/']), 'name': rng.choice(['a', 'bb', 'a-b'])}


def small():
    t = lambda n: ['t', n]
    return {'cls': 'article', 'front': None, 'toc': False, 'abstract': None, 'index': False, 'bib': [], 'labels': ['l1', 'l2'], 'n': 3,
            'blocks': [['sec', 'section', False, [t(1)], 'l1'], ['p', [t(2)]], ['eq', 'l2']]}


def corners():
    d = small()
    yield {'kind': 'cuts', 'docs': [d], 'steps': []}
    for k in range(0, 16):
        yield {'kind': 'bits', 'docs': [d], 'steps': [], 'part': k}
    for k in range(len(FOREIGN)):
        yield {'kind': 'api', 'docs': [d], 'steps': [['foreign', k], ['save', 0, 0], ['foreign', k], ['save', 0, 1]]}
    other = dict(d, blocks=[['sec', 'section', False, [['t', 1]], 'l1']])
    yield {'kind': 'api', 'docs': [d, other], 'steps': [['save', 0, 0], ['save', 1, 0], ['save', 0, 1]]}
    yield {'kind': 'run', 'docs': [d, other], 'steps': [['run', 0, 0], ['run', 0, 1], ['cut', .5], ['run', 0, 0], ['run', 1, 1]], 'split': 2}
    for k in range(len(FOREIGN)):
        yield {'kind': 'run', 'docs': [d], 'steps': [['foreign', k], ['run', 0, k % 2]], 'split': 2}
        yield {'kind': 'run', 'docs': [d], 'steps': [['foreign', k], ['run', 0, k % 2], ['run', 0, 1 - k % 2]], 'split': 2, 'xr': True}


def nontrivial(case):
    k = [s[0] for s in case['steps']]
    return case['kind'] in ('cuts', 'bits') or any(x in ('cut', 'flip', 'empty', 'foreign') for x in k[:-1])


def shrinks(case):
    st = case['steps']
    for i in range(len(st)):
        yield dict(case, steps=st[:i] + st[i + 1:])
    for i, d in enumerate(case['docs']):
        for e in docgen.shrink(d):
            if docgen.labels(e):
                yield dict(case, docs=case['docs'][:i] + [e] + case['docs'][i + 1:])


def source(case):
    return '\n'.join(docsource(d) for d in case['docs']) + '\n%% ' + repr(case['steps'])


class W(docgen.Writer):
    def source(self):
        s = docgen.Writer.source(self)
        end = ''.join('\nrb%dx\\ref{%s}re\n' % (i, l) for i, l in enumerate(sorted(self.labels)))
        return s.replace('\\end{document}', end + '\\end{document}')


def docsource(d):
    return W(d, lambda n: 'mk%dx' % n).source()


def described(doc):
    """label -> what has to be found again"""
    out = {}
    for l, n in doc.context.labels.items():
        rec = {}
        for a in ('ref', 'title', 'captionName'):
            v = getattr(n, a, None)
            if v is not None:
                rec[a] = str(v)
        out[l] = rec
    return out


def got(ctx, had):
    out = {}
    for l, n in ctx.labels.items():
        if l in had and had[l] is n:
            continue
        rec = {'': n.id}
        for a in ('ref', 'title', 'captionName'):
            v = getattr(n, a, None)
            if v is not None:
                rec[a] = v
        out[l] = rec
    return out


def compare(g, want, what):
    if set(g) != set(want):
        return '%s: the restored labels are %s, not %s' % (what, sorted(map(repr, g)), sorted(map(repr, want)))
    for l, w in want.items():
        if g[l][''] != l:
            return '%s: the label %r has the identifier %r' % (what, l, g[l][''])
        for a in ('ref', 'title', 'captionName'):
            x, y = g[l].get(a), w.get(a)
            if (x or '') != (y or ''):
                return '%s: %s of label %r is %r, saved as %r' % (what, a, l, x, y)


def damage(s, data):
    if s[0] == 'cut':
        return data[:int(s[1] * len(data))]
    if s[0] == 'flip':
        b = bytearray(data)
        for p, bit in s[1]:
            if b:
                b[int(p * len(b))] ^= 1 << bit
        return bytes(b)
    if s[0] == 'empty':
        return b''
    return FOREIGN[s[1]]


def restored(f, r, want, what, docs=None):
    """want: dict, or None for 'anything that does not raise'."""
    doc = parse(r'\documentclass{article}\begin{document}x\end{document}')
    ctx = doc.context
    had, wou = dict(ctx.labels), ctx.warnOnUnrecognized
    try:
        ctx.restore(f, r)
    except Exception as e:
        return '%s: restoring for %s raises %s: %s' % (what, r, type(e).__name__, e)
    if ctx.warnOnUnrecognized != wou:
        return '%s: warnings about unknown macros stay off' % what
    if want is not None:
        return compare(got(ctx, had), want, what + ', for ' + r)


def saved(doc, f, r, what):
    try:
        doc.context.persist(f, r)
    except Exception as e:
        return '%s: saving for %s raises %s: %s' % (what, r, type(e).__name__, e)
    try:
        with open(f, 'rb') as h:
            pickle.load(h)
    except Exception as e:
        return '%s: the saved file for %s does not load: %s: %s' % (what, r, type(e).__name__, e)


def api(case):
    docs = [parse(docsource(d)) for d in case['docs']]
    wants = [described(d) for d in docs]
    with scratch():
        f = 'a.paux'
        expect = {r: {} for r in RENDERERS}
        for i, s in enumerate(case['steps']):
            what = 'step %d %s' % (i, s[0])
            if s[0] == 'save':
                r = RENDERERS[s[2]]
                msg = saved(docs[s[1]], f, r, what)
                if msg:
                    return msg
                expect[r] = wants[s[1]]
            elif s[0] == 'remove':
                if os.path.exists(f):
                    os.remove(f)
                expect = {r: {} for r in RENDERERS}
            elif s[0] == 'foreign' or os.path.exists(f):
                data = b''
                if os.path.exists(f):
                    with open(f, 'rb') as h:
                        data = h.read()
                new = damage(s, data)
                with open(f, 'wb') as h:
                    h.write(new)
                if new != data:
                    expect = {r: ({} if s[0] in ('cut', 'empty') else None) for r in RENDERERS}
            for r in RENDERERS:
                msg = restored(f, r, expect[r], what)
                if msg:
                    return msg


def enumerated(case):
    doc = parse(docsource(case['docs'][0]))
    want = described(doc)
    with scratch():
        f = 'a.paux'
        doc.context.persist(f, 'HTML5')
        doc.context.persist(f, 'XHTML')
        with open(f, 'rb') as h:
            data = h.read()
        if case['kind'] == 'cuts':
            todo = [(data[:n], 'cut at byte %d' % n) for n in range(len(data))]
        else:
            todo = []
            for n in range(len(data) * case['part'] // 16, len(data) * (case['part'] + 1) // 16):
                for bit in range(8):
                    b = bytearray(data)
                    b[n] ^= 1 << bit
                    todo.append((bytes(b), 'bit %d of byte %d flipped' % (bit, n)))
        for new, what in todo:
            with open(f, 'wb') as h:
                h.write(new)
            msg = restored(f, 'HTML5', {} if case['kind'] == 'cuts' else None, what) or saved(doc, f, 'HTML5', what) or restored(f, 'HTML5', want, what + ', saved again') \
                or restored(f, 'XHTML', {} if case['kind'] == 'cuts' else None, what + ', saved again')
            if msg:
                return msg


def anchors(dirname):
    """reference number -> (text, href) over the pages of a directory, resolved to the file they point to"""
    out = {}
    for root, _, files in os.walk(dirname):
        for f in files:
            if not f.endswith('.html'):
                continue
            with open(os.path.join(root, f), encoding='utf-8') as h:
                t = h.read()
            for n, body in re.findall(r'rb(\d+)x(.*?)re\b', t, re.S):
                href = re.search(r'href="([^"]*)"', body)
                out[int(n)] = (re.sub('<[^>]*>', '', body).strip(), href and href[1])
    return out


def whole(case):
    from plasTeX.Compile import run
    names = sorted({l for d in case['docs'] for l in docgen.labels(d)})
    name = case.get('name', 'a')
    with scratch():
        with open('b.tex', 'w') as h:
            h.write('\\documentclass{article}%s\\begin{document}\n' % ('\\usepackage{xr}\\externaldocument[xr-]{%s}' % name if case.get('xr') else '')
                    + ''.join('rb%dx\\ref{%s}re\n\n' % (i, ('xr-' if case.get('xr') else '') + l) for i, l in enumerate(names)) + '\\end{document}\n')
        state = {r: {} for r in RENDERERS}
        for i, s in enumerate(case['steps'] + [['none']]):
            what = 'step %d %s' % (i, s[0])
            if s[0] == 'run':
                r = RENDERERS[s[2]]
                with open(name + '.tex', 'w') as h:
                    h.write(docsource(case['docs'][s[1]]))
                msg = compiled(run, name, r, case, what)
                if msg:
                    return msg
                labels = sorted(docgen.labels(case['docs'][s[1]]))
                pages = anchors('out-%s-%s' % (name, r))
                state[r] = {l: pages.get(k) for k, l in enumerate(labels)}
                if None in state[r].values():
                    return ('undecided', 'a reference of the first document is not found in its pages')
            elif s[0] != 'none':
                data = b''
                if os.path.exists(name + '.paux'):
                    with open(name + '.paux', 'rb') as h:
                        data = h.read()
                new = damage(s, data)
                with open(name + '.paux', 'wb') as h:
                    h.write(new)
                if new != data:
                    state = {r: ({} if s[0] == 'cut' else None) for r in RENDERERS}
            for r in RENDERERS:
                if s[0] == 'run' and r != RENDERERS[s[2]]:
                    continue
                msg = compiled(run, 'b', r, case, what)
                if msg:
                    return msg
                if state[r] is None:
                    continue
                pages = anchors('out-b-' + r)
                for k, l in enumerate(names):
                    g = pages.get(k)
                    w = state[r].get(l)
                    if w is None:
                        if g is not None and g[1]:
                            return '%s: the reference to %r, which has no saved data, links to %r' % (what, l, g[1])
                    elif g != w:
                        return '%s: the reference to %r of the other document reads %r and links to %r; in its own document %r, %r' % (what, l, g and g[0], g and g[1], w[0], w[1])


def compiled(run, name, r, case, what):
    conf = rendering.configuration(r, 'default', files__split_level=case['split'], document__base_url=case.get('base', ''))
    conf['files']['directory'] = 'out-%s-%s' % (name, r)
    old = os.getcwd()
    shutil.rmtree(conf['files']['directory'], ignore_errors=True)
    try:
        run(name + '.tex', conf)
    except Exception as e:
        rendering.cleanup()
        return '%s: the run of %s.tex with %s raises %s: %s' % (what, name, r, type(e).__name__, e)
    finally:
        os.chdir(old)


def check(case):
    if case['kind'] == 'run':
        return whole(case)
    if case['kind'] == 'api':
        return api(case)
    return enumerated(case)
