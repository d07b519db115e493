"""C06 bounded stand-in: sequences of DOM edits applied to the real nodes and to a plain list-of-lists model;
after every operation every listed child, parent link, owner and derived view is compared with the model."""
import itertools

from bounded import common

RULE = ('operation sequences (append, insert, insertBefore/After, replaceChild, removeChild, pop, item assignment, '
        'extend, fragment insertion, normalize, cloneNode) over elements, text nodes, fragments and attribute-held '
        'fragments, arguments detached or fragments; non-trivial: at least two operations')
BOUND = ('all sequences of up to 3 operations over a small operation alphabet (thorough: 4), random sequences of up to '
         '40 operations over at most 40 nodes')
BUDGET = {'quick': 40, 'thorough': 500}
BATCH = 300
ERROR_FAILS = True


def nontrivial(case):
    return len(case['ops']) > 1


# spec of a new node: ['e', name, [children]], ['t', text], ['s', text] (a plain str argument), ['f', [children]],
# ['d', k] (the k-th detached root that is an element or text)

def gen_new(rng, depth=0, frag=True):
    k = rng.random()
    if depth == 0 and k < .25:
        return ['d', rng.randrange(4)]
    if frag and k < .5 and depth < 2:
        return ['f', [gen_new(rng, depth + 1, rng.random() < .15) for _ in range(rng.randrange(4))]]
    if k < .75:
        return ['t', rng.choice(['x', 'y', 'zz', 'x'])]
    if k < .8 and depth == 0:
        return ['s', rng.choice(['p', 'q'])]
    return ['e', rng.choice('ab'), [gen_new(rng, depth + 1, False) for _ in range(rng.choice([0, 0, 0, 1, 2]))] if depth < 2 else []] + (['self'] if rng.random() < .2 else [])


def gen_op(rng):
    t = rng.randrange(8)
    k = rng.randrange(15)
    i = rng.randint(-4, 5)
    if k < 2:
        return ['append', t, gen_new(rng)]
    if k < 4:
        return ['insert', t, i, gen_new(rng)]
    if k == 4:
        return ['before', t, rng.randrange(6), gen_new(rng)]
    if k == 5:
        return ['after', t, rng.randrange(6), gen_new(rng)]
    if k == 6:
        return ['replace', t, rng.randrange(6), gen_new(rng)]
    if k == 7:
        return ['remove', t, rng.randrange(6)]
    if k == 8:
        return ['pop', t, rng.choice([None, i])]
    if k == 9:
        return ['setitem', t, i, gen_new(rng)]
    if k == 10:
        return ['extend', t, rng.choice(['list', 'iadd', 'frag']), [gen_new(rng, 1) for _ in range(rng.randrange(4))]]
    if k == 11:
        return ['normalize', t]
    if k == 12:
        return ['clone', t]
    if k == 13:
        return ['attr', t, rng.choice(['one', 'two']), rng.choice([['f', [gen_new(rng, 1, False) for _ in range(rng.randrange(3))]], ['e', 'a', []]])]
    return ['append', t, gen_new(rng)]


def alphabet(t):
    F = ['f', [['t', 'x'], ['e', 'a', []]]]
    for n in (['e', 'a', []], ['t', 'x'], F, ['d', 0]):
        yield ['append', t, n]
        yield ['insert', t, 0, n]
        yield ['insert', t, -1, n]
        yield ['before', t, 1, n]
        yield ['after', t, 0, n]
        yield ['replace', t, 0, n]
        yield ['setitem', t, 0, n]
        yield ['setitem', t, -1, n]
    yield ['remove', t, 0]
    yield ['pop', t, None]
    yield ['pop', t, 0]
    yield ['extend', t, 'list', [['t', 'y'], ['e', 'b', []]]]
    yield ['normalize', t]
    yield ['clone', t]
    yield ['attr', t, 'one', F]


def corners():
    A, B = list(alphabet(0)), list(alphabet(1))
    for root in ('e', 'f'):
        for a in A:
            yield {'root': root, 'ops': [a]}
            for b in A + B:
                yield {'root': root, 'ops': [a, b]}
    for a in A[::3]:
        for b in A[1::2]:
            for c in (A + B)[::5]:
                yield {'root': 'e', 'ops': [a, b, c]}


def cases(rng, tier):
    A = list(alphabet(0)) + list(alphabet(1))
    n = 5 if tier == 'thorough' else 4
    while True:
        if rng.random() < .4:
            yield {'root': rng.choice('eef'), 'ops': [rng.choice(A) for _ in range(rng.randint(3, n))]}
        else:
            yield {'root': rng.choice('eef'), 'tex': rng.randrange(2), 'ops': [gen_op(rng) for _ in range(rng.choice([2, 4, 8, 12, 20, 40]))]}


def shrinks(case):
    ops = case['ops']
    for i in range(len(ops)):
        yield {'root': case['root'], 'tex': case.get('tex'), 'ops': ops[:i] + ops[i + 1:]}


class M:
    def __init__(self, kind, real, name=None, text=None):
        self.kind, self.real, self.name, self.text = kind, real, name, text
        self.kids, self.attrs, self.parent, self.selfheld = [], {}, None, False

    def content(self):
        return self.text if self.kind == 't' else ''.join(k.content() for k in self.kids)

    def flat(self):
        out = []
        for k in self.kids:
            out.append(k)
            out += k.flat()
        return out

    def byname(self, names):
        out = []
        for v in self.attrs.values():
            if v.name in names:
                out.append(v)
            out += v.byname(names)
        for k in self.kids:
            if k.name in names:
                out.append(k)
            out += k.byname(names)
        return out


class Bad(Exception):
    pass


_tex = []


def texdoc():
    # macros and TeX fragments instead of the plain DOM classes
    if not _tex:
        from plasTeX import TeXDocument
        from plasTeX import Command
        d = TeXDocument()
        for n in 'abr':
            d.context.addGlobal(n, type(n, (Command,), {'nodeName': n}))
        _tex.append(d)
    return _tex[0]


class World:
    def __init__(self, root, tex=False):
        from plasTeX.DOM import Document
        self.doc = texdoc() if tex else Document()
        self.log = []
        self.roots = []
        self.trash = []
        r = self.make(['e', 'r', []] if root == 'e' else ['f', []])
        self.roots.append(r)
        for s in (['t', 'x'], ['e', 'a', [['t', 'y']]], ['t', 'x']):
            self.put(r, len(r.kids), self.make(s))
            r.real.append(self.last.real)

    def make(self, s):
        d = self.doc
        if s[0] == 'e':
            m = M('e', d.createElement(s[1]), name=s[1])
            if len(s) > 3:
                # the children are held by the `self` attribute, as after the parsing of an argument
                f = d.createDocumentFragment()
                for c in s[2]:
                    k = self.make(c)
                    f.append(k.real)
                    self.put(m, len(m.kids), k)
                m.real.attributes['self'] = f
                m.selfheld = True
                return m
            for c in s[2]:
                k = self.make(c)
                m.real.append(k.real)
                self.put(m, len(m.kids), k)
        elif s[0] == 'f':
            m = M('f', d.createDocumentFragment(), name='#document-fragment')
            for c in s[1]:
                k = self.make(c)
                m.real.append(k.real)
                self.put(m, len(m.kids), k)
        elif s[0] == 's':
            m = M('t', s[1], text=s[1])
            m.fresh = True
        else:
            m = M('t', d.createTextNode(s[1]), text=s[1])
        return m

    def arg(self, s, target):
        if s[0] == 'd':
            top = target
            while top.parent is not None:
                top = top.parent
            c = [r for r in self.roots[1:] if r is not top and r.kind in 'et' and r.real is not None]
            if not c:
                return self.make(['e', 'b', []])
            m = c[s[1] % len(c)]
            self.roots = [r for r in self.roots if r is not m]
            return m
        return self.make(s)

    def put(self, t, i, m):
        """Model insertion; a fragment is replaced by its children."""
        self.last = m
        items = m.kids if m.kind == 'f' else [m]
        items = list(items)
        t.kids[i:i] = items
        for k in items:
            k.parent = t
        if m.kind == 'f':
            m.kids = []

    def drop(self, t, i):
        m = t.kids.pop(i)
        m.parent = None
        self.roots.append(m)
        return m

    def containers(self):
        out = []
        todo = list(self.roots)
        while todo:
            m = todo.pop(0)
            if m.kind in 'ef':
                out.append(m)
                todo += m.kids + list(m.attrs.values())
        return out


def apply(w, op):
    cs = w.containers()
    k = op[0]
    t = cs[op[1] % len(cs)]
    n = len(t.kids)
    r = t.real
    if k == 'append':
        m = w.arg(op[2], t)
        w.log.append('%s.append(%s)' % (t.name, m.kind))
        r.append(m.real)
        w.put(t, n, m)
    elif k == 'insert':
        m = w.arg(op[3], t)
        i = op[2]
        r.insert(i, m.real)
        i = max(0, n + i) if i < 0 else min(i, n)
        w.put(t, i, m)
    elif k in ('before', 'after', 'replace'):
        if not n:
            return
        m = w.arg(op[3], t)
        if m.kind == 't' and isinstance(m.real, str) and type(m.real) is str:
            m.real = w.doc.createTextNode(m.text)
        i = op[2] % n
        ref = t.kids[i]
        if k == 'before':
            r.insertBefore(m.real, ref.real)
            w.put(t, i, m)
        elif k == 'after':
            r.insertAfter(m.real, ref.real)
            w.put(t, i + 1, m)
        else:
            got = r.replaceChild(m.real, ref.real)
            if got is not ref.real:
                raise Bad('replaceChild does not return the old child')
            w.drop(t, i)
            w.put(t, i, m)
    elif k == 'remove':
        if not n:
            return
        i = op[2] % n
        if r.removeChild(t.kids[i].real) is not t.kids[i].real:
            raise Bad('removeChild does not return the child')
        w.drop(t, i)
    elif k == 'pop':
        i = op[2]
        if n == 0 or (i is not None and not -n <= i < n):
            try:
                r.pop() if i is None else r.pop(i)
            except IndexError:
                return
            raise Bad('pop(%r) of %d children raises nothing' % (i, n))
        got = r.pop() if i is None else r.pop(i)
        want = t.kids[-1 if i is None else i]
        if got is not want.real:
            raise Bad('pop(%r) returns another node' % i)
        w.drop(t, -1 if i is None else i)
    elif k == 'setitem':
        i = op[2]
        if not -n <= i < n:
            return
        m = w.arg(op[3], t)
        r[i] = m.real
        i %= n
        w.drop(t, i)
        w.put(t, i, m)
    elif k == 'extend':
        ms = [w.make(x) for x in op[3]]
        if op[2] == 'frag':
            f = w.doc.createDocumentFragment()
            for m in ms:
                f.append(m.real)
            r.extend(f)
        elif op[2] == 'iadd':
            r += [m.real for m in ms]
        else:
            r.extend([m.real for m in ms])
        for m in ms:
            w.put(t, len(t.kids), m)
    elif k == 'normalize':
        before = t.content()
        r.normalize()
        merge(t)
        bind(t, 'after normalize')
        snap = shape(t.real)
        r.normalize()
        if shape(t.real) != snap:
            raise Bad('normalize is not idempotent')
        bind(t, 'after the second normalize')
        if str(t.real.textContent) != before:
            raise Bad('normalize changes the text content')
    elif k == 'clone':
        c = r.cloneNode(True)
        if not (c == r):
            raise Bad('a deep clone is not equal to its original')
        m = mirror(t, c)
        w.roots.append(m)
    elif k == 'attr':
        if t.kind != 'e':
            return
        m = w.make(op[3])
        r.attributes[op[2]] = m.real
        if m.kind == 'e':
            m.attrheld = True
        m.held = True
        if op[2] in t.attrs:
            w.trash.append(t.attrs[op[2]])
        t.attrs[op[2]] = m
    for m in w.containers():
        for c in m.kids:
            if getattr(c, 'fresh', False):
                bind(m, 'after a str argument')
                for q in m.kids:
                    q.fresh = False


def merge(m):
    out = []
    for k in m.kids:
        if k.kind == 't' and out and out[-1].kind == 't':
            out[-1].text += k.text
        else:
            out.append(k)
        if k.kind != 't':
            merge(k)
    m.kids = out
    for v in m.attrs.values():
        merge(v)


def bind(m, when):
    """Text nodes are rebuilt by normalize (and made from str arguments): take the new ones over, by content."""
    real = list(m.real.childNodes)
    if len(real) != len(m.kids):
        raise Bad('%d children %s, expected %d' % (len(real), when, len(m.kids)))
    for k, x in zip(m.kids, real):
        if k.kind == 't':
            if x.nodeType != 3 or str(x) != k.text:
                raise Bad('text %r %s, expected %r' % (x, when, k.text))
            k.real = x
        elif x is not k.real:
            raise Bad('another child %s' % when)
        else:
            bind(k, when)
    for v in m.attrs.values():
        if v.kind != 't':
            bind(v, when)


def shape(x):
    if x.nodeType == 3:
        return str(x)
    return [x.nodeName, [shape(c) for c in x.childNodes], sorted((k, shape(v)) for k, v in (x.attributes or {}).items() if k != 'self')]


def mirror(t, c):
    """Model of a clone, built from the original's model; every node must be another object."""
    if c is t.real:
        raise Bad('a deep clone shares a node with its original')
    m = M(t.kind, c, t.name, t.text)
    m.selfheld = t.selfheld
    if t.selfheld and c.attributes['self'] is t.real.attributes['self']:
        raise Bad('a deep clone shares its children')
    if t.kind != 't':
        if len(c.childNodes) != len(t.kids):
            raise Bad('a deep clone has %d children, expected %d' % (len(c.childNodes), len(t.kids)))
        for k, x in zip(t.kids, c.childNodes):
            q = mirror(k, x)
            q.parent = m
            m.kids.append(q)
        for a, v in t.attrs.items():
            m.attrs[a] = mirror(v, c.attributes[a])
    return m


def same(xs, ms):
    return len(xs) == len(ms) and all(x is m.real for x, m in zip(xs, ms))


def verify(w):
    from plasTeX.DOM import Node
    for m in w.containers():
        r = m.real
        if r.ownerDocument is not w.doc:
            raise Bad('%s does not belong to its document' % m.name)
        if not same(list(r.childNodes), m.kids):
            raise Bad('children of %s: %r, expected %r' % (m.name, [repr(x) if x.nodeType != 3 else str(x) for x in r.childNodes], [k.text or k.name for k in m.kids]))
        if not same(list(r), m.kids) or len(r) != len(m.kids):
            raise Bad('iteration of %s' % m.name)
        for i, k in enumerate(m.kids):
            x = k.real
            if x.parentNode is not r and not (m.selfheld and x.parentNode is r.attributes['self']):
                raise Bad('parent link of child %d of %s is %r' % (i, m.name, getattr(x.parentNode, 'nodeName', x.parentNode)))
            if x.ownerDocument is not w.doc:
                raise Bad('owner of child %d of %s' % (i, m.name))
            if x.previousSibling is not (m.kids[i - 1].real if i else None):
                raise Bad('previousSibling of child %d of %s' % (i, m.name))
            if x.nextSibling is not (m.kids[i + 1].real if i + 1 < len(m.kids) else None):
                raise Bad('nextSibling of child %d of %s' % (i, m.name))
            if r[i] is not x:
                raise Bad('item %d of %s' % (i, m.name))
        if r.firstChild is not (m.kids[0].real if m.kids else None) or r.lastChild is not (m.kids[-1].real if m.kids else None):
            raise Bad('first/last child of %s' % m.name)
        if str(r.textContent) != m.content():
            raise Bad('text content of %s: %r, expected %r' % (m.name, str(r.textContent), m.content()))
        if not same(r.allChildNodes, m.flat()):
            raise Bad('allChildNodes of %s' % m.name)
        for v in m.attrs.values():
            if v.real.ownerDocument is not w.doc:
                raise Bad('owner of an attribute value of %s' % m.name)
            if v.kind == 'e' and v.real.parentNode is not r:
                raise Bad('parent link of an attribute element of %s' % m.name)
    tops = w.roots[:5]
    for m in tops:
        if m.kind == 't':
            continue
        for names in ('a', ['b', 'r'], ['a', 'b']):
            got = list(m.real.getElementsByTagName(names))
            if not same(got, m.byname([names] if isinstance(names, str) else names)):
                raise Bad('getElementsByTagName(%r): %d nodes, expected %d' % (names, len(got), len(m.byname([names] if isinstance(names, str) else names))))
    # document position
    seq = []
    for ti, m in enumerate(tops):
        seq += [(ti, m)] + [(ti, x) for x in m.flat()]
    step = max(1, len(seq) // 8)
    pos = {}
    for p, (ti, m) in enumerate(seq):
        pos[id(m)] = p
    pick = seq[:4] + seq[4::step]
    for (ta, a) in pick:
        for (tb, b) in pick:
            if a is b:
                continue
            got = a.real.compareDocumentPosition(b.real)
            if ta != tb:
                want = Node.DOCUMENT_POSITION_DISCONNECTED
            elif within(a, b):
                want = Node.DOCUMENT_POSITION_CONTAINS
            elif within(b, a):
                want = Node.DOCUMENT_POSITION_CONTAINED_BY
            elif pos[id(b)] < pos[id(a)]:
                want = Node.DOCUMENT_POSITION_PRECEDING
            else:
                want = Node.DOCUMENT_POSITION_FOLLOWING
            if got != want:
                raise Bad('compareDocumentPosition %r, expected %r' % (got, want))


def within(a, b):
    while a is not None:
        if a.parent is b:
            return True
        a = a.parent
    return False


def check(case):
    w = World(case['root'], case.get('tex'))
    try:
        verify(w)
        for i, op in enumerate(case['ops']):
            try:
                apply(w, op)
                verify(w)
            except Bad as e:
                raise Bad('after operation %d %r: %s' % (i + 1, op, e))
    except Bad as e:
        return str(e)
    except RecursionError:
        return 'the edited tree is cyclic (recursion)'
    return None
