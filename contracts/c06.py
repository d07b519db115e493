"""C06 proof layer: the editing methods of DOM.Node on a node with any number of children (a symbolic
list of references, parent and owner links on the heap), against list operations; callers are checked
against the contracts of insert/pop/append/removeChild.  Sibling navigation, textContent and normalize
are proved with loop invariants for every child list."""
import z3

from plasTeX import DOM
from plasTeX.DOM import Node
from dv import hooks
from dv.core import LoopSpec, OutOfReach, cur
from dv.sym import (SInt, SBool, SStr, SList, SRef, Obj, Cell, Kind, KInt, KStr, KBool, KRef, KOpt, RefSort, heap, heap0,
                    const_fun, int_e, str_e, clamp)

LEVEL = 'other'
FRAG, TEXT, ELEM = Node.DOCUMENT_FRAGMENT_NODE, Node.TEXT_NODE, Node.ELEMENT_NODE
K = 'plasTeX.DOM:Node.'
Ref, I, B, S = RefSort, z3.IntSort(), z3.BoolSort(), z3.StringSort()
SELF, OTHER, NEW, REF, DOC = z3.Consts('self other new ref doc', Ref)
Content = z3.Function('Content', Ref, S)
j = z3.Int('j')
r_ = z3.Const('r', Ref)


class NodeRef(SRef):
    """A node.  Child lists exist for the node edited and for one fragment/list argument."""
    pycls = Node
    fields = {}
    consts = {'nodeType': KInt}

    def g_childNodes(self):
        w = cur().world
        for e, l in w:
            if e is self._e or e.eq(self._e):
                return l
        raise OutOfReach('children of another node')

    def g__dom_childNodes(self):
        return self.g_childNodes()

    def m_hasChildNodes(self):
        self.g_childNodes()
        return True

    def g_attributes(self):
        return None

    def dv_isinstance(self, c):
        return issubclass(Node, c)

    def dv_type(self):
        return Node

    def dv_iter(self):
        return hooks.iter_(hooks.call(Node.__iter__, self))

    def dv_len(self):
        return hooks.call(Node.__len__, self)

    def dv_getitem(self, i):
        return hooks.call(Node.__getitem__, self, i)

    def __bool__(self):
        return bool(self.dv_len() != 0)


KN = KRef(NodeRef)
NodeRef.fields = {'parentNode': KOpt(KN), 'ownerDocument': KOpt(KN)}
nodeType = const_fun('nodeType', KInt)
OPT = KOpt(KN).sort


def parent(e):
    return z3.Select(heap('parentNode', KOpt(KN)), e)


def parent0(e):
    return z3.Select(heap0('parentNode', KOpt(KN)), e)


def owner(e):
    return z3.Select(heap('ownerDocument', KOpt(KN)), e)


def at(l, i):
    """i-th element of a list, also of a concrete one"""
    if l.items is None:
        return z3.Select(l.arr, l.lo + i)
    e = NEW
    for k, x in enumerate(l.items):
        e = z3.If(i == k, x._e, e)
    return e


def member(l, e):
    return z3.Exists([j], z3.And(0 <= j, j < l.n(), at(l, j) == e))


class World:
    def setup(self, E, frag=True):
        """A node with any children, and a new argument: a detached node or a fragment."""
        kids = SList.fresh(KN, 'kids')
        kids0 = kids.dv_snapshot()
        E.world = [(SELF, kids)]
        E.kids, E.kids0 = kids, kids0
        me = NodeRef(SELF)
        k1, k2 = z3.Ints('k1 k2')
        E.assume(z3.Distinct(SELF, NEW, DOC))
        E.assume(owner(SELF) == OPT.some(DOC))
        E.assume(nodeType(SELF) != TEXT)
        # tree: children are distinct, the node is not its own child, nor is the document one
        E.assume(z3.ForAll([k1, k2], z3.Implies(z3.And(0 <= k1, k1 < k2, k2 < kids.n()), at(kids0, k1) != at(kids0, k2))))
        E.assume(z3.ForAll([k1], z3.Implies(z3.And(0 <= k1, k1 < kids.n()), z3.And(
            at(kids0, k1) != SELF, at(kids0, k1) != NEW, parent(at(kids0, k1)) == OPT.some(SELF),
            owner(at(kids0, k1)) == OPT.some(DOC), nodeType(at(kids0, k1)) != FRAG))))
        new = NodeRef(NEW)
        if frag and E.choose('fragment'):
            E.assume(nodeType(NEW) == FRAG)
            items = SList.fresh(KN, 'items')
            E.world.append((NEW, items))
            E.assume(z3.ForAll([k1, k2], z3.Implies(z3.And(0 <= k1, k1 < k2, k2 < items.n()), at(items, k1) != at(items, k2))))
            E.assume(z3.ForAll([k1], z3.Implies(z3.And(0 <= k1, k1 < items.n()), z3.And(
                at(items, k1) != SELF, at(items, k1) != NEW, nodeType(at(items, k1)) != FRAG,
                z3.Not(member(kids0, at(items, k1)))))))
            E.isfrag = True
        else:
            E.assume(nodeType(NEW) != FRAG)
            items = SList([new], KN).to_sym()
            E.isfrag = False
        E.items = items.dv_snapshot()
        return me, new

    def posts(self, E, tag, k, removed=None):
        """children' = before[:k] + items + before[k(+1 if removed):], links of the inserted nodes, frame."""
        kids, kids0, items = E.kids, E.kids0, E.items
        n, m = kids0.n(), items.n()
        d = 1 if removed is not None else 0
        i = z3.Int('i')
        E.prove(tag + '#number-of-children', kids.n() == n + m - d)
        E.prove(tag + '#before', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), at(kids, i) == at(kids0, i))))
        E.prove(tag + '#inserted', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), at(kids, k + i) == at(items, i))))
        E.prove(tag + '#after', z3.ForAll([i], z3.Implies(z3.And(k + d <= i, i < n), at(kids, i + m - d) == at(kids0, i))))
        E.prove(tag + '#parent-links', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), parent(at(items, i)) == OPT.some(SELF))))
        E.prove(tag + '#owner-links', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), owner(at(items, i)) == OPT.some(DOC))))
        E.prove(tag + '#frame', z3.ForAll([r_], z3.Implies(
            z3.And(r_ != NEW, z3.Not(member(items, r_)), *([r_ != removed] if removed is not None else [])),
            parent(r_) == parent0(r_))))


def grows(c, k):
    """State while the items of a fragment are inserted one by one at k, k+1, ..."""
    E = cur()
    kids, kids0, items = E.kids, E.kids0, E.items
    p = c.it.pos
    i = z3.Int('i')
    return [('position', z3.And(0 <= p, p <= items.n())),
            ('number', kids.n() == kids0.n() + p),
            ('before', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), at(kids, i) == at(kids0, i)))),
            ('inserted', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p), at(kids, k + i) == at(items, i)))),
            ('after', z3.ForAll([i], z3.Implies(z3.And(k <= i, i < kids0.n()), at(kids, i + p) == at(kids0, i)))),
            ('parents', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p), z3.And(
                parent(at(items, i)) == OPT.some(SELF), owner(at(items, i)) == OPT.some(DOC))))),
            ('frame', z3.ForAll([r_], z3.Implies(z3.And(r_ != NEW, z3.Not(member(items, r_))), parent(r_) == parent0(r_)))),
            ('owner-of-the-node', owner(SELF) == OPT.some(DOC))]


MOD = lambda c: [cur().kids, ('heap', 'parentNode'), ('heap', 'ownerDocument')]


class Append(World):
    name = 'Node.append'
    proves = ('append adds the node, or the children of a fragment in order, at the end, for every child list; the nodes '
              'added name the node and its document; no other parent link changes')
    covers = ['append']

    def run(self, E):
        me, new = self.setup(E)
        E.loops[(K + 'append', 0)] = LoopSpec(lambda c: grows(c, E.kids0.n()), modifies=MOD, kind='for')
        r = hooks.call(Node.append, me, new)
        E.cover('append')
        self.posts(E, 'append', E.kids0.n())
        E.prove('append#returns-the-argument', z3.BoolVal(isinstance(r, NodeRef)) if not isinstance(r, NodeRef) else r._e == NEW)


class Insert(World):
    name = 'Node.insert'
    proves = ('insert(i, x) is list insertion at i (negative and out-of-range indices as for lists) of the node, or of all '
              'children of a fragment in order; links as for append; no other parent link changes')
    covers = ['insert']

    def run(self, E):
        me, new = self.setup(E)
        i = z3.Int('index')
        n = E.kids0.n()
        k = clamp(SInt(i), n, n)
        E.loops[(K + 'insert', 0)] = LoopSpec(
            lambda c: grows(c, k) + [('index', z3.Or(int_e(c.i) == k + c.it.pos, z3.And(i > n, k == n, int_e(c.i) >= n + c.it.pos)))],
            modifies=MOD, kind='for')
        hooks.call(Node.insert, me, SInt(i), new)
        E.cover('insert')
        self.posts(E, 'insert', k)


class Pop(World):
    name = 'Node.pop'
    proves = ('pop(i) removes and returns exactly the i-th child (list indexing, default the last) and clears its parent '
              'link; it raises IndexError, changing nothing, exactly when there is no such child')
    covers = ['pop', 'pop-error']

    def run(self, E):
        me, _ = self.setup(E, frag=False)
        i = z3.Int('index')
        n = E.kids0.n()
        default = E.choose('default')
        k = z3.If(i < 0, i + n, i) if not default else n - 1
        ok = z3.And(0 <= k, k < n)
        kids, kids0 = E.kids, E.kids0
        try:
            r = hooks.call(Node.pop, me) if default else hooks.call(Node.pop, me, SInt(i))
        except IndexError:
            E.cover('pop-error')
            E.prove('pop#error-only-out-of-range', z3.Not(ok))
            E.prove('pop#error-changes-nothing', kids.n() == n)
            return
        E.cover('pop')
        q = z3.Int('q')
        E.prove('pop#in-range', ok)
        E.prove('pop#returns-the-child', r._e == at(kids0, k))
        E.prove('pop#number', kids.n() == n - 1)
        E.prove('pop#before', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k), at(kids, q) == at(kids0, q))))
        E.prove('pop#after', z3.ForAll([q], z3.Implies(z3.And(k < q, q < n), at(kids, q - 1) == at(kids0, q))))
        E.prove('pop#parent-cleared', OPT.is_none(parent(at(kids0, k))))
        E.prove('pop#frame', z3.ForAll([r_], z3.Implies(r_ != at(kids0, k), parent(r_) == parent0(r_))))


def use_pop(E):
    def pop(self, index=-1):
        kids = E.kids
        n = kids.n()
        k = int_e(index)
        k = z3.If(k < 0, k + n, k)
        E.prove('callee:pop#index-in-range', z3.And(0 <= k, k < n), 'callee-precondition')
        v = kids.pop(index)
        E.heap['parentNode'] = z3.Store(heap('parentNode', KOpt(KN)), v._e, OPT.none)
        E.touch(('heap', 'parentNode'))
        return v
    E.contracts[K + 'pop'] = pop


def use_insert(E):
    """insert by its contract: children and links after the call are the specified ones, nothing else is known."""
    def insert(self, i, x, setParent=True):
        kids, items = E.kids, E.items
        E.prove('callee:insert#new-node-is-the-argument', x._e == NEW if isinstance(x, NodeRef) else z3.BoolVal(False), 'callee-precondition')
        n, m = kids.n(), items.n()
        k = clamp(i, n, n)
        a, lo, ia, ilo = kids.arr, kids.lo, items.arr, items.lo
        kids.arr = z3.Lambda([j], z3.If(j < lo + k, z3.Select(a, j), z3.If(j < lo + k + m, z3.Select(ia, ilo + (j - lo - k)), z3.Select(a, j - m))))
        kids.hi = z3.simplify(kids.hi + m)
        kids.touch()
        hp, ho = heap('parentNode', KOpt(KN)), heap('ownerDocument', KOpt(KN))
        np, no = E.fresh('H_parent', hp.sort()), E.fresh('H_owner', ho.sort())
        q = z3.Int('q')
        for new, old, val in ((np, hp, OPT.some(SELF)), (no, ho, OPT.some(DOC))):
            E.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), z3.Select(new, at(items, q)) == val)))
            E.assume(z3.ForAll([r_], z3.Implies(z3.And(r_ != NEW, z3.Not(member(items, r_))), z3.Select(new, r_) == z3.Select(old, r_))))
        E.heap['parentNode'], E.heap['ownerDocument'] = np, no
        E.touch(('heap', 'parentNode'))
        E.touch(('heap', 'ownerDocument'))
        return x
    E.contracts[K + 'insert'] = insert


def absent(E, fn):
    """for i, item in enumerate(self): if item is X — nothing found so far, nothing changed."""
    def inv(c):
        p = c.it.it.pos
        q = z3.Int('q')
        return [('not-found-so-far', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < p), at(E.kids0, q) != fn))),
                ('enumeration', c.it.i == p)]
    return inv


class Remove(World):
    name = 'Node.removeChild'
    proves = 'removeChild(x) pops the position of x; it raises NotFoundErr, changing nothing, exactly when x is not a child'
    covers = ['remove', 'remove-error']

    def run(self, E):
        me, _ = self.setup(E, frag=False)
        use_pop(E)
        E.loops[(K + 'removeChild', 0)] = LoopSpec(absent(E, REF), kind='for')
        kids, kids0, n = E.kids, E.kids0, E.kids0.n()
        try:
            r = hooks.call(Node.removeChild, me, NodeRef(REF))
        except DOM.NotFoundErr:
            E.cover('remove-error')
            E.prove('removeChild#error-only-if-absent', z3.Not(member(kids0, REF)))
            E.prove('removeChild#error-changes-nothing', kids.n() == n)
            return
        E.cover('remove')
        k, q = z3.Int('k'), z3.Int('q')
        E.prove('removeChild#returns-it', r._e == REF)
        E.prove('removeChild#was-a-child', member(kids0, REF))
        E.assume(z3.And(0 <= k, k < n, at(kids0, k) == REF))
        E.prove('removeChild#number', kids.n() == n - 1)
        E.prove('removeChild#before', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k), at(kids, q) == at(kids0, q))))
        E.prove('removeChild#after', z3.ForAll([q], z3.Implies(z3.And(k < q, q < n), at(kids, q - 1) == at(kids0, q))))
        E.prove('removeChild#parent-cleared', OPT.is_none(parent(REF)))


class Relative(World):
    """insertBefore / insertAfter / replaceChild"""
    which = None
    covers = ['done', 'error']

    def run(self, E):
        me, new = self.setup(E)
        use_pop(E)
        use_insert(E)

        def remove(self, x):
            # the argument is detached: by its contract removeChild reports that it is not a child
            E.prove('callee:removeChild#only-the-new-node', x._e == NEW, 'callee-precondition')
            raise DOM.NotFoundErr
        E.contracts[K + 'removeChild'] = remove
        E.loops[(K + self.which, 0)] = LoopSpec(absent(E, REF), kind='for')
        E.assume(REF != NEW)
        n = E.kids0.n()
        try:
            r = hooks.call(getattr(Node, self.which), me, new, NodeRef(REF))
        except DOM.NotFoundErr:
            E.cover('error')
            E.prove(self.which + '#error-only-if-absent', z3.Not(member(E.kids0, REF)))
            E.prove(self.which + '#error-changes-nothing', E.kids.n() == n)
            return
        E.cover('done')
        k = z3.Int('k')
        E.prove(self.which + '#was-a-child', member(E.kids0, REF))
        E.assume(z3.And(0 <= k, k < n, at(E.kids0, k) == REF))
        self.posts(E, self.which, k + (1 if self.which == 'insertAfter' else 0), REF if self.which == 'replaceChild' else None)
        E.prove(self.which + '#returns', r._e == (REF if self.which == 'replaceChild' else NEW))
        if self.which == 'replaceChild':
            E.prove('replaceChild#old-child-detached', OPT.is_none(parent(REF)))


def relative(n, text):
    return type(n, (Relative,), {'name': 'Node.' + n, 'which': n, 'proves': text})


InsertBefore = relative('insertBefore', 'insertBefore(x, ref) inserts x (or the children of a fragment) right before ref, or raises '
                        'NotFoundErr exactly when ref is not a child')
InsertAfter = relative('insertAfter', 'insertAfter(x, ref) inserts right after ref, or raises NotFoundErr exactly when ref is not a child')
ReplaceChild = relative('replaceChild', 'replaceChild(x, old) puts x (or the children of a fragment) at the place of old, which is detached, '
                        'or raises NotFoundErr exactly when old is not a child')


class SetItem(World):
    name = 'Node.__setitem__'
    proves = ('node[i] = x replaces the i-th child (list indexing) by x or by the children of a fragment; IndexError, changing '
              'nothing, exactly when there is no such child')
    covers = ['setitem', 'setitem-error']

    def run(self, E):
        me, new = self.setup(E)
        use_pop(E)
        i = z3.Int('index')
        n = E.kids0.n()
        k = z3.If(i < 0, i + n, i)
        ok = z3.And(0 <= k, k < n)
        if E.isfrag:
            # item by item
            def insert(self, i, x, setParent=True):
                E.prove('callee:insert#not-a-fragment', nodeType(x._e) != FRAG, 'callee-precondition')
                E.kids.insert(i, x)
                E.heap['parentNode'] = z3.Store(heap('parentNode', KOpt(KN)), x._e, OPT.some(SELF))
                E.heap['ownerDocument'] = z3.Store(heap('ownerDocument', KOpt(KN)), x._e, OPT.some(DOC))
                E.touch(('heap', 'parentNode'))
                E.touch(('heap', 'ownerDocument'))
                return x
            E.contracts[K + 'insert'] = insert
        else:
            use_insert(E)
        E.loops[(K + '__setitem__', 0)] = LoopSpec(
            lambda c: grows(c, k) + [('index', int_e(c.i) == k + c.it.pos), ('in-range', ok)], modifies=MOD, kind='for')
        try:
            hooks.call(Node.__setitem__, me, SInt(i), new)
        except IndexError:
            E.cover('setitem-error')
            E.prove('setitem#error-only-out-of-range', z3.Not(ok))
            E.prove('setitem#error-changes-nothing', E.kids.n() == n)
            return
        E.cover('setitem')
        E.prove('setitem#in-range', ok)
        self.posts(E, 'setitem', k, at(E.kids0, k))
        E.prove('setitem#old-child-detached', OPT.is_none(parent(at(E.kids0, k))))


class Extend(World):
    name = 'Node.extend'
    proves = 'extend appends the given nodes in order, for every list of detached nodes'
    covers = ['extend']

    def run(self, E):
        me, _ = self.setup(E)
        if not E.isfrag:
            E.end()

        def append(self, x, setParent=True):
            E.prove('callee:append#not-a-fragment', nodeType(x._e) != FRAG, 'callee-precondition')
            E.kids.append(x)
            E.heap['parentNode'] = z3.Store(heap('parentNode', KOpt(KN)), x._e, OPT.some(SELF))
            E.heap['ownerDocument'] = z3.Store(heap('ownerDocument', KOpt(KN)), x._e, OPT.some(DOC))
            E.touch(('heap', 'parentNode'))
            E.touch(('heap', 'ownerDocument'))
            return x
        E.contracts[K + 'append'] = append
        E.loops[(K + 'extend', 0)] = LoopSpec(lambda c: grows(c, E.kids0.n()), modifies=MOD, kind='for')
        r = hooks.call(Node.extend, me, E.items)
        E.cover('extend')
        self.posts(E, 'extend', E.kids0.n())
        E.prove('extend#returns-the-node', r._e == SELF)


class Siblings(World):
    name = 'sibling navigation'
    proves = ('previousSibling/nextSibling of the k-th child are the children k-1/k+1 (None at the ends) for every child list; '
              'without a parent both are None; firstChild/lastChild are the ends of the list')
    covers = ['previous', 'next', 'first', 'last', 'no-parent']

    def run(self, E):
        me, _ = self.setup(E, frag=False)
        kids, n = E.kids0, E.kids0.n()
        k, q = z3.Int('k'), z3.Int('q')
        which = 'previous' if E.choose('previous') else 'next' if E.choose('next') else 'first' if E.choose('first') else 'last'
        if which in ('first', 'last'):
            r = hooks.attr(me, which + 'Child')
            E.cover(which)
            if r is None:
                E.prove(which + 'Child#none-only-when-empty', n == 0)
            else:
                E.prove(which + 'Child#end-of-the-list', z3.And(n > 0, r._e == at(kids, 0 if which == 'first' else n - 1)))
            return
        f = {'previous': DOM._previousSibling, 'next': DOM._nextSibling}[which]
        if E.choose('detached'):
            E.heap['parentNode'] = z3.Store(heap('parentNode', KOpt(KN)), NEW, OPT.none)
            r = hooks.call(f, NodeRef(NEW))
            E.cover('no-parent')
            E.prove(which + '#detached-has-no-sibling', z3.BoolVal(r is None))
            return
        E.assume(z3.And(0 <= k, k < n, at(kids, k) == REF))
        E.world_parent = me

        def inv_prev(c):
            p = c.it.it.pos
            return [('passed', p <= k), ('last-seen', opt(c._loc['previous']) == seen(p))]

        def seen(p):
            return z3.If(p == 0, OPT.none, OPT.some(at(kids, p - 1)))

        def opt(v):
            return OPT.none if v is None else OPT.some(v._e)

        def inv_next(c):
            p = c.it.it.pos
            v = c._loc['next']
            b = v._e if hasattr(v, '_e') else z3.BoolVal(bool(v))
            return [('passed', p <= k + 1), ('seen-iff-passed', b == (p == k + 1))]
        E.loops[('plasTeX.DOM:_previousSibling', 0)] = LoopSpec(inv_prev, kinds={'previous': KOpt(KN)}, kind='for')
        E.loops[('plasTeX.DOM:_nextSibling', 0)] = LoopSpec(inv_next, kinds={'next': KBool}, kind='for')
        r = hooks.call(f, Child(REF))
        E.cover(which)
        if which == 'previous':
            E.prove('previousSibling#is-the-child-before', opt(r) == seen(k))
        else:
            E.prove('nextSibling#is-the-child-after', opt(r) == z3.If(k + 1 == n, OPT.none, OPT.some(at(kids, k + 1))))


class Child(NodeRef):
    """a child of the node edited (its parent link is known)"""
    fields = {}
    consts = {}

    def g_parentNode(self):
        E = cur()
        E.prove('sibling#parent-link-names-the-node', parent(self._e) == OPT.some(SELF), 'frame')
        return NodeRef(SELF)


class KContent(Kind):
    """a string, or a node standing for its text"""
    sort = S

    def wrap(self, e):
        return SStr(e)

    def unwrap(self, v):
        return Content(v._e) if isinstance(v, NodeRef) else str_e(v)


class TextContent(World):
    name = 'Node.textContent'
    proves = ('the text content of a node is the concatenation, in order and each exactly once, of the texts of its children, '
              'for every child list')
    assumptions = ['the text of a child is what its own textContent / str / characters give (induction over the tree)']
    covers = ['joined']

    def join(self, E, sep, src):
        q = z3.Int('q')
        E.cover('joined')
        E.prove('textContent#joined-without-separator', z3.BoolVal(sep == ''))
        E.prove('textContent#one-text-per-child', src.n() == E.kids0.n())
        E.prove('textContent#in-order', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < src.n()), at(src, q) == Content(at(E.kids0, q)))))
        return SStr(E.total)

    def run(self, E):
        me, _ = self.setup(E, frag=False)
        E.total = z3.String('total')
        made = []
        if not E.choose('empty'):
            E.assume(E.kids.n() > 0)
        doc = Obj(None, {}, {'createTextNode': lambda s, t: made.append(t) or t}, label='document')
        me = TextNode(SELF)
        E.document = doc
        E.kids.kind = KRef(TextNode)

        def inv(c):
            q, p = z3.Int('q'), c.it.pos
            c.output.to_sym(KContent())
            return [('one-per-child', c.output.n() == p),
                    ('in-order', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < p), at(c.output, q) == Content(at(E.kids0, q)))))]
        E.loops[(K + 'textContent', 0)] = LoopSpec(inv, modifies=lambda c: [c.output.to_sym(KContent())], kind='for')
        r = hooks.call(Node.textContent.fget, me)
        if r is None or not isinstance(r, SStr):
            raise OutOfReach('textContent result')
        E.prove('textContent#is-the-joined-text', r._e == E.total)


class TextNode(NodeRef):
    fields = {}
    consts = {'nodeType': KInt}

    def g_str(self):
        # a node with a `str` attribute of its own stands for that text
        if self._e.eq(SELF):
            return None
        if cur().branch(z3.Function('HasStr', Ref, B)(self._e)):
            return SStr(Content(self._e))
        return None

    def g_textContent(self):
        return SStr(Content(self._e))

    def g_ownerDocument(self):
        return cur().document


class Normalize(World):
    name = 'Node.normalize'
    proves = ('normalize keeps every non-text child exactly once and in order, merges each maximal run of text children into '
              'one text node holding their texts in order, leaves no two text nodes adjacent, normalizes every other child, '
              'and does not change the text content, for every child list')
    assumptions = ['appendText and append by contract; normalize of a child keeps the child\'s text (induction)']
    covers = ['normalized', 'attributes']

    def run(self, E):
        me, _ = self.setup(E, frag=False)
        Acc = z3.DeclareSort('Acc')
        Nil = z3.Const('Nil', Acc)
        Snoc = z3.Function('Snoc', Acc, Ref, Acc)
        P = z3.Function('TextOfFirst', I, S)
        Q = z3.Function('ElementsOfFirst', I, Acc)
        kids0 = E.kids0
        q = z3.Int('q')
        E.assume(z3.And(P(0) == z3.StringVal(''), Q(0) == Nil))
        E.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < kids0.n()), z3.And(
            P(q + 1) == z3.Concat(P(q), Content(at(kids0, q))),
            Q(q + 1) == z3.If(nodeType(at(kids0, q)) == TEXT, Q(q), Snoc(Q(q), at(kids0, q)))))))
        out, pend = Cell(z3.StringVal(''), 'text-emitted'), Cell(z3.StringVal(''), 'text-pending')
        last = Cell(False, 'last-is-text')
        kept, normed = Cell(Nil, 'kept'), Cell(Nil, 'normalized')
        subs = object()
        normed_attrs = []

        def append_text(self, text, charsubs=None, setParent=True):
            E.prove('normalize#substitutions-passed-on', z3.BoolVal(charsubs == [] or charsubs is E.charsubs))
            n = text.n()
            E.prove('normalize#no-adjacent-text', z3.Implies(n > 0, z3.Not(last.e)))
            out.set(z3.Concat(out.e, pend.e))
            last.set(z3.Or(last.e, n > 0))
            pend.set(z3.StringVal(''))
            text.clear()

        def append(self, x, setParent=True):
            E.prove('normalize#only-other-nodes-kept-as-they-are', nodeType(x._e) != TEXT)
            out.set(z3.Concat(out.e, Content(x._e)))
            kept.set(Snoc(kept.e, x._e))
            last.set(z3.BoolVal(False))
            return x

        def normalize(self, charsubs=None):
            normed.set(Snoc(normed.e, self._e))
        E.contracts[K + 'appendText'] = append_text
        E.contracts[K + 'append'] = append

        class Item(NodeRef):
            def m_normalize(self, charsubs=None):
                normalize(self, charsubs)

            fields = {}
            consts = {'nodeType': KInt}
        E.kids.kind = KRef(Item)

        class KText(Kind):
            sort = Ref

            def wrap(self, e):
                return Item(e)

            def unwrap(self, v):
                # appended to the pending run
                pend.set(z3.Concat(pend.e, Content(v._e)))
                return v._e

        def inv(c):
            p = c.it.pos
            return [('text-so-far', z3.Concat(out.e, pend.e) == P(p)), ('children-so-far', kept.e == Q(p)),
                    ('normalized-so-far', normed.e == kept.e), ('no-text-at-the-end', z3.Not(last.e)),
                    ('nothing-pending', z3.Implies(c.text.n() == 0, pend.e == z3.StringVal(''))),
                    ('text-size', c.text.n() >= 0)]
        E.loops[(K + 'normalize', 1)] = LoopSpec(lambda c: [], modifies=lambda c: [E.kids], kind='while')
        E.loops[(K + 'normalize', 2)] = LoopSpec(
            inv, modifies=lambda c: [out, pend, last, kept, normed, c.text.to_sym(KText())], kind='for')
        attrs = None
        if E.choose('attributes'):
            E.cover('attributes')
            a = Obj(Node, {}, {'normalize': lambda s, cs=None: normed_attrs.append('a')}, label='attribute-node')
            b = Obj(Node, {}, {'normalize': lambda s, cs=None: normed_attrs.append('b')}, label='raw-attribute-node')
            attrs = {'one': a, 'raw': b, 'text': 'abc', 'none': None}

        class Me(NodeRef):
            fields = {}
            consts = {'nodeType': KInt}
            g_attributes = lambda s: attrs
            g_nonNormalizedAttrs = lambda s: ['raw']
        E.charsubs = [('a', 'b')] if E.choose('subs') else None
        hooks.call(Node.normalize, Me(SELF), E.charsubs)
        E.cover('normalized')
        n = kids0.n()
        E.prove('normalize#text-unchanged', out.e == P(n))
        E.prove('normalize#children-kept-in-order', kept.e == Q(n))
        E.prove('normalize#children-normalized', normed.e == Q(n))
        if attrs is not None:
            E.prove('normalize#attributes-normalized', z3.BoolVal(normed_attrs == ['a']))


CONTRACTS = [Append, Insert, Pop, Remove, InsertBefore, InsertAfter, ReplaceChild, SetItem, Extend, Siblings, TextContent, Normalize]
