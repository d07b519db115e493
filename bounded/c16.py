"""C16 bounded stand-in: random layerings of 0..3 configuration files and a command line over every option, run through
plasTeX.client.main (the conversion itself replaced by a recorder) and compared with an independent model of the
documented options: their types, defaults, flags, precedence and interpolation."""
import contextlib
import io
import os
import shlex

from bounded.common import scratch, list_shrinks

RULE = ('0..3 files, each with 0..6 settings over all sections and types, 0..8 command-line settings; booleans in all the '
        'spellings of files and as flags, lists with quoting, dictionaries through their section or their own key, '
        'names in mixed case, %(name)s references and %%; missing files; values read back with [] and get, set '
        'programmatically in part of the cases; non-trivial: at least two layers set something')
BOUND = 'at most 3 files of 6 settings, 8 command-line settings'
BUDGET = {'quick': 30, 'thorough': 420}
BATCH = 60
CASE_LIMIT = 20
ERROR_FAILS = True

MIN = -9223372036854775807
# section, key, type, default, flags on, flags off
OPTIONS = [(a, b, t, d, on, off) for a, b, t, d, on, off in [
    ('general', 'renderer', 'str', 'HTML5', ['--renderer'], []),
    ('general', 'theme', 'str', 'default', ['--theme'], []),
    ('general', 'extra-templates', 'list', [], ['--extra-templates'], []),
    ('general', 'copy-theme-extras', 'bool', True, ['--copy-theme-extras'], ['--no-theme-extras']),
    ('general', 'kpsewhich', 'str', 'kpsewhich', ['--kpsewhich'], []),
    ('general', 'xml', 'bool', False, ['--xml'], []),
    ('general', 'debug', 'bool', False, ['--debug'], []),
    ('general', 'paux-dirs', 'list', [], ['--paux-dirs'], []),
    ('general', 'plugins', 'list', [], ['--plugins'], []),
    ('general', 'load-tex-packages', 'bool', True, ['--load-tex-packages'], ['--no-load-tex-packages']),
    ('general', 'tex-packages', 'list', [], ['--tex-packages'], []),
    ('general', 'packages-dirs', 'list', [], ['--packages-dirs'], []),
    ('links', 'links', 'links', {}, ['--link'], []),
    ('counters', 'counters', 'ints', {}, ['--counter'], []),
    ('files', 'input-encoding', 'str', 'utf-8', ['--input-encoding'], []),
    ('files', 'output-encoding', 'str', 'utf-8', ['--output-encoding'], []),
    ('files', 'escape-high-chars', 'bool', False, ['--escape-high-chars'], []),
    ('files', 'split-level', 'int', 2, ['--split-level'], []),
    ('files', 'log', 'bool', False, ['--log'], []),
    ('files', 'filename', 'str', 'index [$id, sect$num(4)]', ['--filename'], []),
    ('files', 'bad-chars', 'str', ': #$%%^&*!~`"\'=?/{}[]()|<>;\\,.', ['--bad-filename-chars'], []),
    ('files', 'bad-chars-sub', 'str', '-', ['--bad-filename-chars-sub'], []),
    ('files', 'directory', 'str', '$jobname', ['--dir', '-d'], []),
    ('images', 'scales', 'floats', {}, ['--scales'], []),
    ('images', 'base-url', 'str', '', ['--image-base-url'], []),
    ('images', 'enabled', 'bool', True, ['--enable-images'], ['--disable-images']),
    ('images', 'imager', 'str', 'gspdfpng pdftoppm dvipng dvi2bitmap gsdvipng OSXCoreGraphics', ['--imager'], []),
    ('images', 'vector-imager', 'str', 'pdf2svg dvisvgm', ['--vector-imager'], []),
    ('images', 'filenames', 'str', 'images/img-$num(4)', ['--image-filenames'], []),
    ('images', 'baseline-padding', 'int', 0, ['--image-baseline-padding'], []),
    ('images', 'scale-factor', 'float', 1.0, ['--image-scale-factor'], []),
    ('images', 'vector-compiler', 'str', '', ['--vector-image-compiler'], []),
    ('images', 'compiler', 'str', '', ['--image-compiler'], []),
    ('images', 'cache', 'bool', False, ['--enable-image-cache'], ['--disable-image-cache']),
    ('images', 'save-file', 'bool', False, ['--save-image-file'], ['--delete-image-file']),
    ('images', 'transparent', 'bool', False, ['--transparent-images'], ['--opaque-images']),
    ('images', 'resolution', 'int', 0, ['--image-resolution'], []),
    ('document', 'base-url', 'str', '', ['--base-url'], []),
    ('document', 'title', 'str', '', ['--title'], []),
    ('document', 'toc-depth', 'int', 3, ['--toc-depth'], []),
    ('document', 'toc-non-files', 'bool', False, ['--toc-non-files'], []),
    ('document', 'sec-num-depth', 'int', 2, ['--sec-num-depth'], []),
    ('document', 'index-columns', 'int', 2, ['--index-columns'], []),
    ('document', 'lang-terms', 'list', [], ['--lang-terms'], []),
    ('document', 'disable-charsub', 'list', [], ['--disable-charsub'], []),
    ('logging', 'logging', 'strs', {}, ['--logging'], []),
    ('html5', 'extra-css', 'list', [], ['--extra-css'], []),
    ('html5', 'extra-js', 'list', [], ['--extra-js'], []),
    ('html5', 'theme-css', 'str', 'white', ['--theme-css'], []),
    ('html5', 'use-theme-css', 'bool', True, ['--use-theme-css'], ['--no-theme-css']),
    ('html5', 'use-theme-js', 'bool', True, ['--use-theme-js'], ['--no-theme-js']),
    ('html5', 'display-toc', 'bool', True, ['--display-toc'], ['--no-display-toc']),
    ('html5', 'localtoc-level', 'int', None, ['--localtoc-level'], []),
    ('html5', 'breadcrumbs-level', 'int', 10, ['--breadcrumbs-level'], []),
    ('html5', 'use-mathjax', 'bool', True, ['--use-mathjax'], ['--no-mathjax']),
    ('html5', 'mathjax-url', 'str', 'https://cdn.jsdelivr.net/npm/mathjax@3/es5/tex-chtml.js', ['--mathjax-url'], []),
    ('html5', 'mathjax-dollars', 'bool', False, ['--dollars'], ['--no-dollars']),
    ('html5', 'filters', 'list', [], ['--filters'], []),
    ('mathjax-macros', 'macros', 'strs', {}, ['--mj-macros'], []),
]]
INDEX = {(o[0], o[1]): i for i, o in enumerate(OPTIONS)}
DICTS = {o[0]: o for o in OPTIONS if o[2] in ('links', 'ints', 'floats', 'strs')}
# keys that name one option only
REFS = [i for i, o in enumerate(OPTIONS) if o[2] in ('str', 'int', 'float', 'bool') and o[1] not in ('base-url', 'localtoc-level')]
TRUE, FALSE = ['yes', 'true', 'on', '1', 'Yes', 'True', 'ON'], ['no', 'false', 'off', '0', 'No', 'False', 'OFF']
WORD = ['a', 'foo', 'Bar', 'x/y', 'my file', "it's", '$id', '1', 'é', 'a=b', 'a:b', 'a,b', '-', 'x;y', '[z]', 'utf-8', 'no', '~/x', '\\R', 'C#']


def words(rng):
    """Literal pieces of a string value and references: ['s', text] | ['%'] | ['r', option index]."""
    return rng.choice(WORD)


def gen_str(rng, i):
    out = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        c = rng.random()
        if c < .7:
            out.append(['s', words(rng)])
        elif c < .8:
            out.append(['%'])
        else:
            lower = [k for k in REFS if k < i]
            out.append(['r', rng.choice(lower), rng.choice(['s', 's', 's', 'd'])] if lower else ['s', 'q'])
    return [x if x[0] != 'r' or x[2] == 's' or OPTIONS[x[1]][2] == 'int' else x[:2] + ['s'] for x in out]


def raw(v):
    return ''.join(p[1] if p[0] == 's' else '%%' if p[0] == '%' else '%%(%s)%s' % (OPTIONS[p[1]][1], p[2]) for p in v)


def gen_value(rng, i, cli):
    t = OPTIONS[i][2]
    if t == 'str':
        return gen_str(rng, i)
    if t == 'int':
        return rng.choice([0, 1, 2, 3, 7, 10, -1, -3, 42])
    if t == 'float':
        return rng.choice([0.0, 0.5, 1.5, 2.0, 3.25, -1.5])
    if t == 'bool':
        b = rng.random() < .5
        if cli:
            return b or not OPTIONS[i][5]
        return [b, rng.choice(TRUE if b else FALSE)]
    if t == 'list':
        return [gen_str(rng, i) or [['s', 'z']] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    key = rng.choice(['next', 'Next', 'my.link', 'RR', 'rr', 'section', 'thmA', 'x-y', 'a b', 'é'])
    v = {'ints': lambda: rng.choice([0, 1, 4, -2, 12]), 'floats': lambda: rng.choice([0.5, 1.0, 2.25]),
         'strs': lambda: rng.choice(['INFO', 'debug', r'\mathbb{R}', 'x', 'a b']), 'links': lambda: rng.choice(['http://x.org/a?b=c', 'The Title', 'x'])}[t]()
    if t == 'links':
        if cli:
            return [key, v, rng.choice([None, 'T', 'Other Title'])]
        return [key + rng.choice(['-title', '-url']), v, 'own' if rng.random() < .2 else '']
    return [key, v, 'own' if not cli and rng.random() < .2 else '']


def cases(rng, tier):
    while True:
        yield gen(rng)


def gen(rng):
    files = []
    hot = [rng.randrange(len(OPTIONS)) for _ in range(5)]
    pick = lambda: rng.choice(hot) if rng.random() < .7 else rng.randrange(len(OPTIONS))
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        f, keys = [], set()
        for _ in range(rng.randint(0, 6)):
            i = pick()
            v = gen_value(rng, i, False)
            k = (i,) if OPTIONS[i][2] in ('str', 'int', 'float', 'bool', 'list') or v[2] == 'own' else (i, v[0])
            # a key is written once in a file
            if k in keys or (len(k) == 2 and k[1] == OPTIONS[i][1]):
                continue
            keys.add(k)
            f.append([i, v, rng.choice(['', '', '', 'upper'])])
        files.append(f)
    cli = [[i, gen_value(rng, i, True)] for i in [pick() for _ in range(rng.choice([0, 1, 2, 4, 8]))]]
    sets = [[i, gen_value(rng, i, True)] for i in [pick() for _ in range(rng.choice([0, 0, 0, 1, 2]))] if OPTIONS[i][2] in ('str', 'int', 'float', 'bool', 'list')]
    return {'files': files, 'cli': cli, 'set': sets, 'missing': rng.choice([None, None, 0, len(files)])}


def corners():
    n = INDEX
    yield {'files': [], 'cli': [], 'set': [], 'missing': None}
    for o in OPTIONS:
        i = n[o[0], o[1]]
        if o[2] == 'bool':
            for b, w in [(True, x) for x in TRUE] + [(False, x) for x in FALSE]:
                yield {'files': [[[i, [b, w], '']]], 'cli': [], 'set': [], 'missing': None}
            for c in ([True], [False], [True, False], [False, True]):
                c = [x for x in c if x or o[5]]
                yield {'files': [[[i, [True, 'on'], '']], [[i, [False, 'off'], '']]], 'cli': [[i, x] for x in c], 'set': [], 'missing': 1}


def line(o, v):
    """Lines of a configuration file for one setting."""
    t = o[2]
    if t == 'str':
        return [(o[1], raw(v))]
    if t in ('int', 'float'):
        return [(o[1], str(v))]
    if t == 'bool':
        return [(o[1], v[1])]
    if t == 'list':
        return [(o[1], ' '.join(shlex.quote(raw(x)) for x in v))]
    if v[2] == 'own':
        return [(o[1], '%s = %s' % (v[0], v[1]))]
    return [(v[0], str(v[1]))]


def args(o, v):
    t, flag = o[2], o[4][0]
    if t == 'bool':
        return [flag if v else o[5][0]]
    if t == 'str':
        r = raw(v)
        return [flag + '=' + r]
    if t in ('int', 'float'):
        return [flag, str(v)]
    if t == 'list':
        return [flag] + [raw(x) for x in v]
    if t == 'links':
        return [flag] + [str(x) for x in v if x is not None]
    return [flag, v[0], str(v[1])]


def readable(case):
    for f in case['files']:
        for i, v, up in f:
            for k, s in line(OPTIONS[i], v):
                if s != s.strip() or k != k.strip() or (OPTIONS[i][2] not in ('str', 'int', 'float', 'bool', 'list') and v[2] == 'own' and ',' in s):
                    return False
                # '#' and ';' comment lines, '=' and ':' delimiters in names
                if k[:1] in '#;[' or set(k) & set('=:'):
                    return False
    for i, v in case['cli']:
        o = OPTIONS[i]
        if o[2] == 'list' and any(raw(x).startswith('-') for x in v):
            return False
        if o[2] not in ('str', 'int', 'float', 'bool', 'list') and any(isinstance(x, str) and x.startswith('-') for x in v):
            return False
    return True


def copy(v):
    return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v


def model(case):
    """Stored values: strings and list items as pieces."""
    val = {i: [['s', o[3].replace('%%', '%')]] if o[2] == 'str' else copy(o[3]) for i, o in enumerate(OPTIONS)}

    def put(i, v, cli):
        o = OPTIONS[i]
        t = o[2]
        if t in ('str', 'int', 'float'):
            val[i] = v
        elif t == 'bool':
            val[i] = v if cli else v[0]
        elif t == 'list':
            val[i].extend(v)
        elif t == 'links' and cli:
            if v[2] is None:
                val[i][v[0] + '-title'] = v[1]
            else:
                val[i][v[0] + '-url'] = v[1]
                val[i][v[0] + '-title'] = v[2]
        else:
            val[i][v[0]] = v[1]
    for f in case['files']:
        for i, v, up in f:
            put(i, v, False)
    for i, v in case['cli']:
        put(i, v, True)
    for i, v in case['set']:
        val[i] = v

    def show(p):
        return ''.join(x[1] if x[0] == 's' else '%' if x[0] == '%' else str(read(x[1])) for x in p)

    def read(i):
        t = OPTIONS[i][2]
        if t == 'str':
            return show(val[i])
        if t == 'list':
            return [show(x) for x in val[i]]
        return val[i]
    return {i: read(i) for i in range(len(OPTIONS))}


def observe(case):
    from plasTeX import client
    argv = ['in.tex']
    names = []
    with scratch() as d:
        for n, f in enumerate(case['files']):
            lines, sec = [], {}
            for i, v, up in f:
                o = OPTIONS[i]
                for k, s in line(o, v):
                    sec.setdefault(o[0], []).append('%s = %s' % (k, s))
            for s, ls in sec.items():
                lines += ['[%s]' % s] + ls + ['']
            with open('f%d.cfg' % n, 'w', encoding='utf-8') as fh:
                fh.write('\n'.join(lines))
            names.append('f%d.cfg' % n)
        if case['missing'] is not None:
            names.insert(min(case['missing'], len(names)), 'nothere.cfg')
        for n in names:
            argv += ['--config', n]
        for i, v in case['cli']:
            argv += args(OPTIONS[i], v)
        seen = []
        old = client.run
        client.run = lambda filename, config: seen.append((filename, config))
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                client.main(argv)
        except SystemExit as e:
            return argv, 'exit', out.getvalue()[-300:]
        finally:
            client.run = old
        if len(seen) != 1 or seen[0][0] != 'in.tex':
            return argv, 'exit', 'run called with %r' % ([x[0] for x in seen],)
        return argv, 'config', seen[0][1]


def check(case):
    if not readable(case):
        return 'skip', None
    want = model(case)
    argv, kind, conf = observe(case)
    if kind == 'exit':
        return 'argv %r: %s' % (argv, conf)
    for i, v in case['set']:
        o = OPTIONS[i]
        conf[o[0]][o[1]] = raw(v) if o[2] == 'str' else [raw(x) for x in v] if o[2] == 'list' else v
    for i, o in enumerate(OPTIONS):
        w = want[i]
        for how in ('[]', 'get'):
            g = conf[o[0]][o[1]] if how == '[]' else conf[o[0]].get(o[1])
            if o[3] is None and w is None:
                continue
            if g != w or type(g) is not type(w):
                return '%s.%s read with %s is %r, expected %r (files %r, argv %r)' % (
                    o[0], o[1], how, g, w, [[(OPTIONS[a][:2], line(OPTIONS[a], b)) for a, b, c in f] for f in case['files']], argv)


def nontrivial(case):
    return sum(1 for f in case['files'] if f) + bool(case['cli']) >= 2


def shrinks(case):
    for k in ('files', 'cli', 'set'):
        for i in range(len(case[k])):
            yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
    for n, f in enumerate(case['files']):
        for i in range(len(f)):
            yield dict(case, files=case['files'][:n] + [f[:i] + f[i + 1:]] + case['files'][n + 1:])
    if case['missing'] is not None:
        yield dict(case, missing=None)
