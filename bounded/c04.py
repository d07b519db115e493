"""C04 bounded stand-in: (a) random balanced programs against an independent engine with a stack of frames (text, probes of
category codes and defined names in every place, state at the end); (b) histories of operations on the context interface,
exhaustive up to a bound and random beyond, against a list of plain dictionaries."""
import itertools
from bounded import common
from bounded.minitex import Engine, Gen, Undecided, flat, NAMES, PROBE, catcodes

RULE = ('(a) balanced programs of groups, \\begingroup, environments (built in and \\newenvironment), $...$, \\(...\\), \\[...\\], tabular rows and cells, itemize, '
        'text commands and macro calls with local and global definitions, \\let, \\catcode, \\makeatletter, \\verb: text, \\probe results (category codes of selected '
        'characters, defined names) and the state of the context at the end are compared; (b) histories of push, push(macro with local macros), pop, pop(end '
        'macro), addLocal, addGlobal, let, catcode, setVerbatimCatcodes on plasTeX.Context.Context: lookup of every name, keys, whichCode and depth are compared '
        'after every step; non-trivial: a definition or category code was made inside a group')
BOUND = '(a) at most 8 top-level items, nesting depth 4; (b) all histories of at most 5 operations out of 9, random histories of at most 40 operations'
BUDGET = {'quick': 40, 'thorough': 500}
MAX_CASES = {'quick': 3000}
ERROR_FAILS = True
TIMEOUT_FAILS = True
ENVS = ['center', 'quote', 'flushleft', 'flushright', 'itemize', 'tabular']
PRE = r'\def\ta{T}\def\tb{U}'
OPS = ['{', '}', ['B', 0], ['E', 0], ['L', 0, 0], ['G', 0, 1], ['A', 0, 1], ['T', '@', 11], ['V']]
CHARS = '@!\\{a'


class Gen4(Gen):
    def __init__(self, rng):
        Gen.__init__(self, rng, conds=.6, groups=6, defs=1.2, cats=1.6, lets=1.2, newifs=['ifsa'])
        self.envsigs = {}
        self.math = False
        self.inarg = 0

    def item(self, rank, nparams, depth, top=False):
        r = self.rng
        k = r.random()
        if k < .12:
            return '\\probe '
        if k < .15 and depth < 3 and len(self.params) < 1:
            return self.g_newenv(rank, nparams, depth)
        if k < .17 and not self.params and not self.inarg:
            return r.choice(['\\verb|a{$\\x#|', '\\verb+%&b@!+', '\\verb=^^M_=', '\\verb|/|'])
        if k < .19:
            return '\\def\\m%s{%s}' % (r.choice('abcdefgh'), self.word())
        return Gen.item(self, rank, nparams, depth, top)

    def in_body(self, i, n, depth):
        m, self.math = self.math, False
        out = Gen.in_body(self, i, n, depth)
        self.math = m
        return out

    def arg(self, *a, **k):
        self.inarg += 1
        out = Gen.arg(self, *a, **k)
        self.inarg -= 1
        return out

    def g_cat(self, rank, nparams, depth):
        r = self.rng
        if r.random() < .3:
            return r.choice(['\\makeatletter ', '\\makeatother '])
        c = r.choice('@!?/*+')
        return '\\catcode%s=%d\\relax ' % (r.choice(['%d' % ord(c), '`\\' + c]), r.choice([11, 12, 12, 9, 10]))

    def g_newenv(self, rank, nparams, depth):
        r = self.rng
        name = r.choice(['ea', 'eb', 'ec'])
        n = r.choice([0, 0, 1, 2])
        opt = self.word() if n and r.random() < .4 else None
        i = r.randrange(len(NAMES))
        b = self.in_body(i, n, depth + 1)
        m = self.in_body(i, 0, depth + 1)
        if r.random() < .3:
            b, m = [b, '\\begin{center}'], ['\\end{center}', m]
        cmd = '\\renewenvironment' if self.sig('env ' + name) else '\\newenvironment'
        self.sigs[-1]['env ' + name] = (n, opt is not None)
        return [cmd, '{', name, '}', '[%d]' % n if n else '', ['[', opt, ']'] if opt is not None else '', '{', b, '}{', m, '}']

    def scoped(self, f):
        self.sigs.append({})
        out = f()
        self.sigs.pop()
        return out

    def g_group(self, rank, nparams, depth):
        r = self.rng
        body = lambda d=1: self.scoped(lambda: self.items(rank, nparams, depth + d, r.choice([0, 1, 2, 3])))
        ks = ['brace', 'brace', 'bg', 'bgroup', 'text', 'mbox']
        if not self.math:
            ks += ['env', 'env', 'uenv', 'uenv', 'math', 'math', 'tab', 'list']
        k = r.choice(ks)
        if k == 'uenv':
            names = [n for n in ('ea', 'eb', 'ec') if self.sig('env ' + n)]
            if not names:
                k = 'env'
        if k == 'brace':
            return ['{', body(), '}']
        if k == 'bg':
            return ['\\begingroup ', body(), '\\endgroup ']
        if k == 'bgroup':
            return ['\\bgroup ', body(), '\\egroup ']
        if k in ('text', 'mbox'):
            m, self.math = self.math, False
            self.inarg += 1
            out = [r.choice(['\\textbf{', '\\emph{']) if k == 'text' else '\\mbox{', body(), '}']
            self.inarg -= 1
            self.math = m
            return out
        if k == 'env':
            e = r.choice(ENVS[:4])
            return ['\\begin{%s}' % e, body(), '\\end{%s}' % e]
        if k == 'uenv':
            e = r.choice(names)
            n, opt = self.sig('env ' + e)
            args = ['\\relax '] if opt and n == 1 else []
            if opt and r.random() < .5:
                args = ['[', self.word(), ']']
            args += [['{', self.word(), '}'] for _ in range(n - opt)]
            return ['\\begin{%s}' % e, args, body(), '\\end{%s}' % e]
        if k == 'math':
            self.math = True
            a, b = r.choice([('$', '$'), ('$', '$'), ('\\(', '\\)'), ('\\[', '\\]')])
            out = [a, 'x', body(), b]
            self.math = False
            return out
        if k == 'list':
            return ['\\begin{itemize}', [['\\item ', self.items(rank, nparams, depth + 1)] for _ in range(r.choice([1, 2]))], '\\end{itemize}']
        n = r.choice([1, 2, 3])
        rows = []
        for i in range(r.choice([1, 2, 3])):
            if i:
                rows.append('\\\\ q')
            for j in range(n):
                rows += ['&' if j else '', body()]
        return ['\\begin{tabular}{%s}' % ('c' * n), rows, '\\end{tabular}']


def corners():
    forms = [('{', '}'), ('\\begingroup ', '\\endgroup '), ('\\begin{center}', '\\end{center}'), ('$x', '$'), ('\\textbf{', '}'), ('\\mbox{', '}'), ('\\[x', '\\]'),
             ('\\begin{tabular}{cc}', '\\end{tabular}'), ('\\begin{tabular}{cc}a&', '\\\\ q&z\\end{tabular}'), ('\\begin{itemize}\\item ', '\\end{itemize}'),
             ('\\begin{ea}', '\\end{ea}'), ('\\begin{ed}', '\\end{ed}')]
    pre = r'\newenvironment{ea}{<}{\ma>}\newenvironment{ed}{\begin{center}\def\mc{I}}{\mc\end{center}}\def\ma{O}'
    inner = [r'\def\ma{N}\ma ', r'\gdef\ma{N}\ma ', r'\let\ma\ta\ma ', r'\makeatletter\probe ', '\\catcode`\\!=11\\relax\\probe ', r'\newcommand\mb{w}\mb\probe ', r'\renewcommand\ma{N}\ma ',
             r'\satrue ', r'\newenvironment{eb}{p}{q}\begin{eb}\ma\end{eb}', r'\makeatletter\makeatother\probe ', r'\catcode33=9\relax\catcode33=12\relax !\probe ', r'\stepcounter{ca}']
    for a, b in forms:
        for x in inner:
            tail = r'\ma\probe\ifdefined\mb D\else U\fi!'
            yield {'src': [pre, a, x, b, tail]}
            for c, d in forms:
                if not (a[0] in '$\\' and a[:2] in ('$x', '\\[')):
                    yield {'src': [pre, a, r'\def\ma{M}', c, x, d, r'\ma\probe ', b, tail]}
    for g in ([r'\raggedright ', r'\small '], [r'\bfseries ']):
        for x in (r'\def\ma{N}', r'\newcommand\mb{N}', r'\let\mb\ta ', r'\makeatletter ', r'\satrue '):
            yield {'src': [g, x], 'document': True}
            yield {'src': ['{', g, x, '}'], 'document': True}
    for n in range(1, 5):
        for h in itertools.product(range(len(OPS)), repeat=n):
            yield {'ops': [OPS[i] for i in h]}


def cases(rng, tier):
    while True:
        if rng.random() < .7:
            g = Gen4(rng)
            yield {'src': g.program(rng.randint(1, 8))}
        else:
            ops = []
            for _ in range(rng.choice([5, 8, 12, 20, 40])):
                k = rng.choice('{{}}BBEELLLGAACTTTVP')
                if k in '{}V':
                    ops.append(k if k != 'V' else ['V'])
                elif k in 'BE':
                    ops.append([k, rng.randrange(3)])
                elif k in 'LG':
                    ops.append([k, rng.randrange(4), rng.randrange(1000)])
                elif k == 'A':
                    ops.append([k, rng.randrange(4), rng.randrange(4)])
                elif k == 'C':
                    ops.append([k, rng.randrange(4), rng.choice('xy{$')])
                elif k == 'T':
                    ops.append([k, rng.choice(CHARS), rng.choice([11, 12, 13, 0, 1, 9, 15])])
                else:
                    ops.append(['D'] if rng.random() < .3 else ['V'])
            yield {'ops': ops}


def source(case):
    s = PRE + r'\newcounter{ca}\newcounter{cb}\newif\ifsa ' + flat(case['src'])
    if case.get('document'):
        s += r'\begin{document}\probe\ifdefined\ma\ma\fi\ifdefined\mb\mb\fi\end{document}'
    return s


class Engine4(Engine):
    def open(self, kind):
        self.used.add('open')
        if kind[:3] == 'env' or kind in '$([':
            inner = self.kinds
            while 'arg' in inner:
                inner = inner[inner.index('arg') + 1:]
            if any(k in '$([' for k in inner):
                raise Undecided('environment in math')
        Engine.open(self, kind)


def model(case):
    src = source(case)
    if case.get('document'):
        for w in (r'\raggedright', r'\small', r'\bfseries'):
            src = src.replace(w, r'\relax')
        src = src.replace(r'\begin{document}', '').replace(r'\end{document}', '')
    e = Engine4(src, ENVS)
    return e.run(), e


def nontrivial(case):
    if 'ops' in case:
        d = 0
        for o in case['ops']:
            d += o == '{' or o[0] == 'B'
            if d and o[0] in 'LGACTV':
                return True
        return False
    try:
        _, e = model(case)
    except (Undecided, RecursionError):
        return False
    return 'open' in e.used and bool({'def', 'let', 'newcommand', 'renewcommand', 'gdef', 'catcode', 'newenvironment'} & e.used)


def shrinks(case):
    k = 'ops' if 'ops' in case else 'src'
    if k == 'ops':
        for i in range(len(case[k])):
            yield {k: case[k][:i] + case[k][i + 1:]}
        return
    for s in common.list_shrinks(case[k]):
        yield dict(case, src=s)


def probe(doc, got):
    from plasTeX import Command

    class probe(Command):
        def invoke(self, tex):
            c = self.ownerDocument.context
            got.append(({x: int(c.whichCode(x)) for x in PROBE}, {n: n in c for n in NAMES}))
            return []
    doc.context.addGlobal('probe', probe)


def check(case):
    if 'ops' in case:
        return check_ops(case['ops'])
    src = source(case)
    try:
        want, e = model(case)
    except (Undecided, RecursionError) as ex:
        return ('undecided', str(ex))
    got, start = [], {}
    keep = {}

    def before(doc, tex):
        probe(doc, got)
        start.update({chr(i): int(doc.context.whichCode(chr(i))) for i in range(256)})
        keep['depth'] = len(doc.context.contexts)
    doc = common.parse(src, before=before)
    ctx = doc.context
    short = src[len(PRE) + 45:]
    text = ''.join(common.text(doc).split())
    if text != want:
        return 'program %s: got %r, TeX gives %r' % (short, text, want)
    if len(ctx.contexts) != keep['depth'] or ctx.depth != keep['depth']:
        return 'program %s: %d contexts (depth %d) at the end, %d at the start' % (short, len(ctx.contexts), ctx.depth, keep['depth'])
    if len(got) != len(e.probes):
        return 'program %s: %d probes ran, TeX runs %d' % (short, len(got), len(e.probes))
    for i, (g, w) in enumerate(zip(got, e.probes)):
        if g != w:
            d = [(k, a[k], b[k]) for a, b in zip(g, w) for k in a if a[k] != b[k]]
            return 'program %s: at probe %d (character or name, state, TeX): %r' % (short, i + 1, d)
    init = catcodes()
    for i in range(256):
        c = chr(i)
        w = start[c] if e.cats[0][c] == init[c] else e.cats[0][c]
        if int(ctx.whichCode(c)) != w:
            return 'program %s: category of %r is %r at the end, TeX has %r' % (short, c, int(ctx.whichCode(c)), w)
    g, w = {n: n in ctx for n in NAMES}, e.snapshot()[1]
    if g != w:
        return 'program %s: defined names at the end %r, TeX has %r' % (short, g, w)
    for c, v in e.counters.items():
        if ctx.counters[c].value != v:
            return 'program %s: counter %s is %r, TeX gives %r' % (short, c, ctx.counters[c].value, v)


# ------------------------------------------------------------------ context interface

def check_ops(ops):
    import plasTeX
    from plasTeX.Context import Context
    from plasTeX import Environment, Macro, Command
    from plasTeX.Tokenizer import EscapeSequence, Other, BeginGroup, MathShift
    tokens = {'x': Other('x'), 'y': Other('y'), '{': BeginGroup('{'), '$': MathShift('$')}
    names = ['na', 'nb', 'nc', 'nd']
    ctx = Context()
    kinds = []
    for i in range(3):
        local = type('l%d' % i, (Command,), {'macroName': 'na' if i == 1 else 'l%d' % i})
        # env1 and env2 inherit the local macros of env0
        kinds.append(type('env%d' % i, (kinds[0] if i else Environment,), {'nest%d' % i: local}))
    values = {}

    def value(name, v):
        if (name, v) not in values:
            values[name, v] = type(name, (Command,), {'v': v})
        return values[name, v]
    base = {chr(i): int(ctx.whichCode(chr(i))) for i in range(256)}
    # frame: [kind (None, class or 'document'), names, categories]
    model = [['bottom', {}, dict(base)]]
    unsure = {}
    trace = []

    def lookup(n):
        for f in reversed(model):
            if n in f[1]:
                return f[1][n]
    for o in ops:
        k = o if isinstance(o, str) else o[0]
        if k == '{':
            ctx.push()
            model.append([None, {}, model[-1][2]])
        elif k == '}':
            if not any(f[0] is None for f in model):
                continue
            ctx.pop()
            while model.pop()[0] is not None:
                pass
        elif k == 'B':
            obj = kinds[o[1]]()
            obj.macroMode = Macro.MODE_BEGIN
            ctx.push(obj)
            model.append([o[1], {macro(v): v for v in [vars(kinds[0])['nest0'], vars(kinds[o[1]])['nest%d' % o[1]]]}, model[-1][2]])
        elif k == 'E':
            if not any(f[0] == o[1] for f in model):
                continue
            obj = kinds[o[1]]()
            obj.macroMode = Macro.MODE_END
            ctx.pop(obj)
            while model.pop()[0] != o[1]:
                pass
        elif k == 'D':
            obj = plasTeX.Environment()
            obj.level = plasTeX.Macro.DOCUMENT_LEVEL
            if any(f[0] is None for f in model):
                continue
            continue
        elif k in 'LG':
            v = value(names[o[1]], o[2])
            if k == 'L':
                ctx.addLocal(names[o[1]], v)
                model[-1][1][names[o[1]]] = v
            else:
                if any(names[o[1]] in f[1] for f in model[1:]):
                    continue          # a global definition under a live local one: TeX and the interface differ
                ctx.addGlobal(names[o[1]], v)
                model[0][1][names[o[1]]] = v
        elif k == 'A':
            v = lookup(names[o[2]])
            if v is None:
                continue
            ctx.let(EscapeSequence(names[o[1]]), EscapeSequence(names[o[2]]))
            model[-1][1][names[o[1]]] = v
        elif k == 'C':
            ctx.let(EscapeSequence(names[o[1]]), tokens[o[2]])
            model[-1][1][names[o[1]]] = ('let', o[2])
        elif k == 'T':
            ctx.catcode(o[1], o[2])
            model[-1][2] = dict(model[-1][2])
            model[-1][2][o[1]] = o[2]
        elif k == 'V':
            ctx.setVerbatimCatcodes()
            model[-1][2] = {c: verbatim(c) for c in base}
        trace.append(o)
        where = 'history %r: after %r ' % (ops, trace)
        if len(ctx.contexts) != len(model) or ctx.depth != len(model):
            return where + 'the stack has %d frames (depth %d), expected %d' % (len(ctx.contexts), ctx.depth, len(model))
        if model[-1][0] == 'bottom' or True:
            allnames = names + ['l0', 'l1', 'l2']
            for n in allnames:
                w = lookup(n)
                if (n in ctx) != (w is not None):
                    return where + '%r in context is %r' % (n, n in ctx)
                if (n in list(ctx.keys())) != (w is not None):
                    return where + 'keys() and %r' % n
                g = ctx.get(n)
                if w is not None and ctx[n] is not g:
                    return where + 'get(%r) and [%r] differ' % (n, n)
                if isinstance(w, tuple):
                    if g is None or getattr(g, 'token', None) is not tokens[w[1]]:
                        return where + '%r is %r, expected \\let to %r' % (n, g, w[1])
                elif g is not w:
                    return where + '%r is %r, expected %r' % (n, show(g), show(w))
        for c in CHARS + 'z~':
            if int(ctx.whichCode(c)) != model[-1][2][c]:
                return where + 'category of %r is %r, expected %r' % (c, int(ctx.whichCode(c)), model[-1][2][c])
    # unwinding one frame at a time: every outer frame is intact
    while len(model) > 1:
        kind = model.pop()[0]
        if kind is None:
            ctx.pop()
        else:
            obj = kinds[kind]()
            obj.macroMode = Macro.MODE_END
            ctx.pop(obj)
        for c in base:
            if int(ctx.whichCode(c)) != model[-1][2][c]:
                return 'history %r: after unwinding to depth %d category of %r is %r, expected %r' % (ops, len(model), c, int(ctx.whichCode(c)), model[-1][2][c])
        for n in allnames if ops else []:
            w, g = lookup(n), ctx.get(n)
            if not (getattr(g, 'token', None) is tokens[w[1]] if isinstance(w, tuple) else g is w):
                return 'history %r: after unwinding to depth %d %r is %r, expected %r' % (ops, len(model), n, show(g), show(w))
    if len(ctx.contexts) != 1:
        return 'history %r: %d frames left' % (ops, len(ctx.contexts))


def macro(cls):
    return cls.macroName or cls.__name__


def show(x):
    return (x.__name__, getattr(x, 'v', None)) if isinstance(x, type) else x


def verbatim(c):
    """inside verbatim text: letters and other characters"""
    return 11 if c.isalpha() and ord(c) < 128 else 12
