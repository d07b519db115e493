"""C18 proof layer: the order of entries, the merge of sorted entries into the tree of lines, and the columns of a group."""
import z3

from plasTeX.Base.LaTeX import Index
from dv import hooks
from dv.sym import SInt, SBool, SStr, SList, Obj, KStr, int_e, str_e

LEVEL = 'other'
collation = z3.Function('collation', z3.StringSort(), z3.IntSort())
text_of = z3.Function('text-of-source', z3.StringSort(), z3.StringSort())


def levels(E, what, most=3):
    k = 1
    while k < most and E.choose(what):
        k += 1
    return k


class Less:
    name = 'IndexEntry.__lt__'
    proves = ('entries are ordered level by level, first by the collation key of the sort key; entries whose first levels are the same path are adjacent: at each level, different '
              'paths compare by a fixed order of (collation of sort key, collation of text, sort key, source), and a path comes before those below it')
    assumptions = ['the text of a key is determined by its source', 'the collation key is any function from texts to an ordered set', 'keys with the same source are the same key (DOM equality)', 'entries have 1 to 3 levels (as in the property)']
    covers = ['compared']
    scope = 'at most 3 levels, the quantifier of the property; keys are any strings'

    def run(self, E):
        def entry(n):
            k = levels(E, 'levels')
            sort = [z3.String('%s-sort%d' % (n, i)) for i in range(k)]
            src = [z3.String('%s-source%d' % (n, i)) for i in range(k)]
            txt = [text_of(x) for x in src]
            o = Obj(Index.IndexEntry, {'sortkey': [SStr(s) for s in sort], 'key': [Obj(None, {'textContent': SStr(t), 'source': SStr(s)}, {}, label='key') for t, s in zip(txt, src)]}, {}, label=n)
            return o, sort, txt, src
        E.contracts['pyuca.collator:BaseCollator.sort_key'] = lambda o, s: SInt(collation(str_e(s)))
        a, asort, atxt, asrc = entry('a')
        b, bsort, btxt, bsrc = entry('b')
        n, m = len(asort), len(bsort)
        res = hooks.callm(a, '__lt__', b)
        e = res._e if hasattr(res, '_e') else z3.BoolVal(bool(res))
        E.cover('compared')
        # the collation of the sort keys decides as soon as it differs
        same = z3.BoolVal(True)
        for i in range(min(n, m)):
            ca, cb = collation(asort[i]), collation(bsort[i])
            E.prove('compared#by-collation-level-%d' % i, z3.Implies(z3.And(same, ca != cb), e == (ca < cb)))
            same = z3.And(same, asort[i] == bsort[i], asrc[i] == bsrc[i])
        # the same path so far: the shorter first, and never both ways
        E.prove('compared#prefix-first', z3.Implies(same, e == z3.BoolVal(n < m)))
        if max(n, m) > 2:
            return
        back = hooks.callm(b, '__lt__', a)
        be = back._e if hasattr(back, '_e') else z3.BoolVal(bool(back))
        E.prove('compared#not-both-ways', z3.Not(z3.And(e, be)))
        # different paths are never equivalent, so a path cannot be split by another one
        E.prove('compared#different-paths-are-ordered', z3.Implies(z3.And(z3.Not(e), z3.Not(be)), z3.And(same, z3.BoolVal(n == m))))


class Adjacent:
    name = 'IndexEntry.__lt__ (three entries)'
    proves = ('an entry between two entries of the same path (at the first levels) has that path at those levels too: for one level, texts arbitrary')
    assumptions = Less.assumptions
    covers = ['between']
    scope = 'entries of one level; with level-by-level comparison this is the step for each level'

    def run(self, E):
        E.contracts['pyuca.collator:BaseCollator.sort_key'] = lambda o, s: SInt(collation(str_e(s)))
        es = []
        for n in 'abc':
            s, r = z3.String(n + '-sort'), z3.String(n + '-source')
            t = text_of(r)
            es.append((Obj(Index.IndexEntry, {'sortkey': [SStr(s)], 'key': [Obj(None, {'textContent': SStr(t), 'source': SStr(r)}, {}, label='key')]}, {}, label=n), s, t, r))
        (a, s1, t1, r1), (b, s2, t2, r2), (c, s3, t3, r3) = es
        E.assume(z3.And(s1 == s3, r1 == r3))

        def lt(x, y):
            v = hooks.callm(x, '__lt__', y)
            return v._e if hasattr(v, '_e') else z3.BoolVal(bool(v))
        E.assume(z3.And(z3.Not(lt(b, a)), z3.Not(lt(c, b))))
        E.cover('between')
        E.prove('between#same-path', z3.And(s2 == s1, r2 == r1))


class Merge:
    name = 'IndexUtils.digest (merge)'
    proves = ('for two consecutive entries with any keys of 1 to 3 levels: each entry adds exactly one page reference, to the line of exactly its path; lines are shared exactly '
              'as far as the paths agree from the top, a new line is added at the end of its parent, and nothing is added for levels that exist')
    assumptions = ['the state between entries is the line of the previous one: two consecutive entries from the start cover each step', 'entries with equal sort key and key are the same path']
    covers = ['merged']
    scope = 'two consecutive entries of 1 to 3 levels; keys are any strings'

    def run(self, E):
        made, events = [], []

        def line(path=()):
            o = Obj(None, {'pages': [], 'key': None, 'sortkey': None, 'kids': [], 'parentNode': None}, {}, label='line')
            o.methods['append'] = lambda s, x: o.f['kids'].append(x)
            return o

        def make(*a, **k):
            o = line()
            made.append(o)
            return o
        E.classes[Index.IndexUtils.Index] = make
        pages = []

        def dest(type, node):
            pages.append((type, node))
            return pages[-1]
        E.classes[Index.IndexDestination] = dest
        entries = []
        for n in 'ab':
            k = levels(E, 'levels')
            sort = [z3.String('%s-sort%d' % (n, i)) for i in range(k)]
            key = [z3.String('%s-key%d' % (n, i)) for i in range(k)]
            node = Obj(None, {}, {'append': lambda s, x: None}, label='node-' + n)
            entries.append((Obj(Index.IndexEntry, {'sortkey': [SStr(s) for s in sort], 'key': [SStr(s) for s in key], 'type': 'type-' + n, 'node': node, 'format': None}, {}, label=n), sort, key, node))
        recorded = [x[0] for x in entries]
        E.models[sorted] = lambda l, *a, **k: list(l)
        doc = Obj(None, {'userdata': {'index': recorded}}, {'createTextNode': lambda s, t: t}, label='document')
        root = Obj(Index.printindex, {'ownerDocument': doc, 'kids': [], 'childNodes': []}, {}, label='index')
        root.methods['append'] = lambda s, x: root.f['kids'].append(x)
        E.contracts['plasTeX:Macro.digest'] = lambda *a: None
        hooks.callm(root, 'digest', Tokens())
        E.cover('merged')

        def find(page):
            for o in made:
                if any(p is page for p in o.f['pages']):
                    return o
        E.prove('merged#one-page-each', z3.BoolVal(len(pages) == 2 and [p[1] for p in pages] == [x[3] for x in entries] and [p[0] for p in pages] == ['type-a', 'type-b']
                                                   and sum(len(o.f['pages']) for o in made) == 2))
        if len(pages) != 2:
            return
        chains = []
        for (o, sort, key, node), page in zip(entries, pages):
            x = find(page)
            chain = []
            while x is not None and x is not root and len(chain) < 9:
                chain.append(x)
                x = x.f['parentNode']
            chain.reverse()
            E.prove('merged#under-the-index', z3.BoolVal(x is root))
            E.prove('merged#its-path', z3.And(z3.BoolVal(len(chain) == len(sort)), *[z3.And(str_e(c.f['sortkey']) == s, str_e(c.f['key']) == k) for c, s, k in zip(chain, sort, key)]))
            up = root
            for c in chain:
                E.prove('merged#in-its-parent-once', z3.BoolVal(sum(1 for k in up.f['kids'] if k is c) == 1))
                E.prove('merged#at-the-end', z3.BoolVal([id(k) for k in up.f['kids']] == [id(k) for k in made if any(k is x for x in up.f['kids'])]))
                up = c
            chains.append(chain)
        (_, s1, k1, _), (_, s2, k2, _) = entries
        same = z3.BoolVal(True)
        for i in range(min(len(chains[0]), len(chains[1]))):
            same = z3.And(same, s1[i] == s2[i], k1[i] == k2[i])
            E.prove('merged#shared-exactly-when-equal', z3.BoolVal(chains[0][i] is chains[1][i]) == same)
        used = {id(c) for ch in chains for c in ch}
        E.prove('merged#no-other-lines', z3.BoolVal(all(id(o) in used for o in made)))


class Tokens:
    """the rest of the document: nothing, here"""
    def __iter__(self):
        return iter(())

    def push(self, x):
        raise AssertionError


class Columns:
    name = 'IndexUtils.splitColumns'
    proves = ('for up to 4 lines with any number of lines below them, and 1 to 4 columns: the columns, one after the other, hold exactly the lines in their order, and there are '
              'exactly as many columns as asked for')
    covers = ['split']
    scope = 'at most 4 lines in a group, at most 4 columns; the sizes are any positive integers'

    def run(self, E):
        n = 0
        while n < 4 and E.choose('lines'):
            n += 1
        cols = levels(E, 'columns', 4)
        items = []
        for i in range(n):
            t = z3.Int('size%d' % i)
            E.assume(t >= 1)
            items.append(Obj(None, {'totallen': SInt(t)}, {}, label='line%d' % i))
        u = Obj(Index.printindex, {}, {}, label='index')
        res = hooks.callm(u, 'splitColumns', list(items), cols)
        res = [list(c) for c in res]
        E.cover('split')
        E.prove('split#every-line-in-order', z3.BoolVal([id(x) for c in res for x in c] == [id(x) for x in items]))
        E.prove('split#columns', z3.BoolVal(len(res) == cols))


class Size:
    name = 'IndexUtils.Index.totallen'
    proves = 'a line counts itself and the counts of all lines below it'
    covers = ['size']
    scope = 'up to 4 lines directly below; their own counts are any integers'

    def run(self, E):
        n = 0
        while n < 4 and E.choose('below'):
            n += 1
        ts = [z3.Int('below%d' % i) for i in range(n)]
        kids = [Obj(None, {'totallen': SInt(t)}, {}, label='line') for t in ts]
        o = Obj(Index.IndexUtils.Index, {}, {'__iter__': lambda s: iter(kids)}, label='line')
        r = hooks.call(Index.IndexUtils.Index.__dict__['totallen'].fget, o)
        E.cover('size')
        E.prove('size#sum', int_e(r) == 1 + sum(ts, z3.IntVal(0)))


CONTRACTS = [Less, Adjacent, Merge, Columns, Size]
