"""C08: ranges in a tree."""
import itertools

from . import g as G
from .core import expect, fail, rule, same, sub
from .m_node import CLASSES, Model, ident, printed, sending, spec, tree

from quickly.node import Range

rule('C08', "the range has at least one real boundary and both includes and excludes at least two nodes of the tree")


def boundaries(g):
    """(start, end, from_root): numbers that select nodes, -1 for no boundary."""
    kind = g.weighted(((5, 'both'), (1, 'start'), (1, 'end'), (1, 'root'), (1, 'none')))
    a = -1 if kind in ('end', 'none') else g.int(0, 60)
    b = -1 if kind in ('start', 'none') else g.int(0, 60)
    return (a, b, kind == 'root')


class Selection:
    """What is in the range, computed from the positions of the nodes in document order.

    start and end are nodes (or None), ancestor is the node the range starts at.
    """
    def __init__(self, m, ancestor, start, end):
        self.m, self.ancestor, self.start, self.end = m, ancestor, start, end
        self.update()

    def update(self):
        """Compute everything again."""
        m = self.m
        self.info = {}
        self.order = []
        for n, p, i, anc in m.walk(self.ancestor):
            self.info[id(n)] = n, p, i, anc
            self.order.append(n)
        self.pos = {id(n): i for i, n in enumerate(self.order)}
        lo = self.pos[id(self.start)] if self.start is not None else 0
        hi = self.pos[id(self.end)] if self.end is not None else len(self.order)
        #: nodes between the boundaries, not including the ancestor
        self.inside = [n for i, n in enumerate(self.order) if i and lo <= i <= hi]
        self.ids = {id(n) for n in self.inside}
        #: also those that have descendants in the range, in the same order
        above = {id(a) for n in self.inside for a in self.info[id(n)][3]}
        self.visible = [n for n in self.order[1:] if id(n) in self.ids or id(n) in above]
        self.vis = {id(n) for n in self.visible}

    def level(self, node):
        return [c for c in self.m.kids[id(node)] if id(c) in self.vis]

    def down(self, node, back=False, skip=()):
        k = self.level(node)
        for c in (reversed(k) if back else k):
            yield c
            if id(c) not in skip:
                yield from self.down(c, back, skip)

    def beyond(self, node, back=False, skip=()):
        """The nodes after (or before) the node, the ancestors of which are entered already."""
        while node is not self.ancestor:
            n, p, i, anc = self.info[id(node)]
            k = self.m.kids[id(p)]
            for c in (k[:i][::-1] if back else k[i+1:]):
                if id(c) in self.vis:
                    yield c
                    if id(c) not in skip:
                        yield from self.down(c, back, skip)
            node = p

    def complete(self, node):
        """True if the node and all descendants are inside, False if not, None if that's a matter of taste."""
        below = list(self.m.down(node))
        if (node is self.ancestor or id(node) in self.ids) and all(id(n) in self.ids for n in below):
            return True if below or node is not self.ancestor else None
        if below and (node is self.ancestor or id(node) in self.vis) and all(id(n) in self.vis for n in below):
            return None         # the node is an ancestor of the start node, and nothing of it is left out
        return False


def make(m, bounds):
    """(range, selection), or (None, None)."""
    nodes = [t[0] for t in m.walk()]
    a, b, root = bounds
    a = nodes[a % len(nodes)] if a >= 0 else None
    b = nodes[b % len(nodes)] if b >= 0 else None
    if a is None and b is None:
        n = nodes[abs(bounds[1]) % len(nodes)]
        return Range(n), Selection(m, n, None, None)
    pos = {id(n): i for i, n in enumerate(nodes)}
    if root and a is not None and b is not None and (pos[id(b)] < pos[id(a)] or b is m.root):
        a, b = b, a
    if a is not None and b is not None:
        r = a.range(b, root) if root else Range.from_nodes(a, b)
        anc = m.root if root else a.common_ancestor(b)
    else:
        r = Range.from_nodes(a, b)
        anc = m.root
    expect(r.ancestor() is anc, "the ancestor is %r, expected %r", r.ancestor(), anc)
    return r, Selection(m, anc, a, b)


def where(sel):
    return "range from %r to %r in %r" % (sel.start and sel.start.trail(), sel.end and sel.end.trail(), sel.ancestor)


def check_range(m, r, sel, picks=()):
    w = where(sel)
    expect(r.start_node() is (sel.start if r.start_trail is not None else None), "start node of the " + w)
    expect(r.end_node() is (sel.end if r.end_trail is not None else None), "end node of the " + w)
    same(bool(r), bool(sel.visible), "truth of the " + w)
    r.reset()
    expect(r.node is sel.ancestor and r.index == -1 and r.depth() == 0, "reset of the " + w)
    ident(r.copy(), sel.level(sel.ancestor), "iterating over the " + w)
    ident(r.copy().reversed(), sel.level(sel.ancestor)[::-1], "iterating backwards over the " + w)
    ident(r.copy().descendants(), sel.visible, "descendants of the " + w)
    ident(r.copy().descendants(True), sel.down(sel.ancestor, True), "reverse descendants of the " + w)
    ident(r.copy().forward(), sel.visible, "forward in the " + w)
    ident(r.copy().backward(), sel.down(sel.ancestor, True), "backward in the " + w)
    ident(r.copy().children(), sel.level(sel.ancestor), "children of the " + w)
    ident(r.copy().children(True), sel.level(sel.ancestor)[::-1], "children (backwards) of the " + w)
    ident(r.copy().nodes(), [n for n in sel.inside], "nodes of the " + w)
    for n in sel.order:
        want = sel.complete(n)
        if n is sel.end and n is not sel.ancestor:
            want = id(n) in sel.ids     # "Only the end node can have children outside the range."
        if want is not None:
            same(n in r, want, "%r at %r in the %s" % (n, n.trail(), w))
        if n is not sel.ancestor:
            same(r & n, id(n) in sel.vis, "%r at %r partly in the %s" % (n, n.trail(), w))
    want = sel.complete(sel.ancestor)
    if want is not None and sel.visible:
        same(r.is_full(), want, "is_full of the " + w)
    for n, p, i, anc in m.walk():
        if id(n) not in sel.info:
            expect(n not in r and not r & n and not r.copy().goto(n), "%r, outside the ancestor, in the %s", n, w)
    # the copy as a tree
    check_tree(r.copy().extract_tree(), sel.ancestor, sel, w)
    for at, c, mask in picks:
        n = sel.order[at % len(sel.order)]
        x = r.copy()
        ok = x.goto(n)
        if n is not sel.ancestor:
            same(ok, id(n) in sel.vis, "going to %r in the %s" % (n, w))
        if not ok:
            continue
        expect(x.node is n, "going to %r gives %r in the %s", n, x.node, w)
        anc = sel.info[id(n)][3]
        same(x.trail(), n.trail()[len(sel.ancestor.trail()):], "trail of %r in the %s" % (n, w))
        if n is not sel.ancestor:
            same(x.index, sel.info[id(n)][2], "index of %r in the %s" % (n, w))
            same(x.depth(), len(anc) - 1, "depth of %r in the %s" % (n, w))
        want = sel.complete(n)
        if want is not None and sel.visible:
            same(x.in_range(), want, "in_range at %r in the %s" % (n, w))
        cls = CLASSES[c % len(CLASSES)]
        arg = cls[0] if len(cls) == 1 else cls
        isin = lambda node: isinstance(node, cls)
        skip = {id(y) for k, y in enumerate(sel.order) if mask >> (k % 16) & 1}

        def at_node():
            y = r.copy()
            y.goto(n)
            return y
        ident(at_node().children(), sel.level(n), "children of %r in the %s", n, w)
        ident(at_node().children(True), sel.level(n)[::-1], "children (backwards) of %r in the %s", n, w)
        ident(at_node().descendants(), sel.down(n), "descendants of %r in the %s", n, w)
        ident(at_node().descendants(True), sel.down(n, True), "reverse descendants of %r in the %s", n, w)
        ident(sending(at_node().descendants(), skip), sel.down(n, False, skip), "descendants of %r with nodes not entered in the %s", n, w)
        ident(sending(at_node().descendants(True), skip), sel.down(n, True, skip), "reverse descendants of %r with nodes not entered in the %s", n, w)
        ident(at_node().from_here().descendants(), sel.down(n), "from_here() at %r in the %s", n, w)
        ident(at_node().ancestors(), anc, "ancestors of %r in the %s", n, w)
        if n is not sel.ancestor:
            ident(at_node().forward(), sel.beyond(n), "forward from %r in the %s", n, w)
            ident(at_node().backward(), sel.beyond(n, True), "backward from %r in the %s", n, w)
            ident(sending(at_node().forward(), skip), sel.beyond(n, False, skip), "forward from %r with nodes not entered in the %s", n, w)
            ident(sending(at_node().backward(), skip), sel.beyond(n, True, skip), "backward from %r with nodes not entered in the %s", n, w)
            ident(at_node() > arg, filter(isin, sel.beyond(n)), "%r > %r in the %s", n, arg, w)
            ident(at_node() < arg, filter(isin, sel.beyond(n, True)), "%r < %r in the %s", n, arg, w)
            for up in anc[:-1]:
                want = [y for y in sel.beyond(n) if any(q is up for q in sel.info[id(y)][3])]
                ident(at_node().forward(up), want, "forward from %r up to %r in the %s", n, up, w)
                want = [y for y in sel.beyond(n, True) if any(q is up for q in sel.info[id(y)][3])]
                ident(at_node().backward(up), want, "backward from %r up to %r in the %s", n, up, w)
        ident(at_node() / arg, filter(isin, sel.level(n)), "%r / %r in the %s", n, arg, w)
        ident(at_node() ^ arg, itertools.filterfalse(isin, sel.level(n)), "%r ^ %r in the %s", n, arg, w)
        ident(at_node() // arg, filter(isin, sel.down(n)), "%r // %r in the %s", n, arg, w)
        ident(at_node() << arg, filter(isin, anc), "%r << %r in the %s", n, arg, w)
        top = {id(y) for y in sel.order if isin(y)}
        ident(at_node().instances_of(arg), [y for y in sel.down(n, False, top) if id(y) in top], "instances of %r in %r in the %s", arg, n, w)
        check_tree(at_node().extract_tree(), n, sel, w)
        # listing
        y = at_node()
        if n is not sel.ancestor:
            list_level(y, sel, anc[0], n, w)
            path = (n, *anc)[::-1]
            pwd = printed(lambda: y.pwd)
            expect(len(pwd) == len(path) and all(t.endswith(repr(k)) for t, k in zip(pwd, path)), "pwd of %r in the %s", n, w)
        y.enter()
        list_level(y, sel, n, None, w)
        # the index
        level = [sel.info[id(k)][2] for k in sel.level(n)]
        for i in range(-1, len(m.kids[id(n)]) + 1):
            y = at_node()
            y.enter()
            try:
                y.index = i
            except ValueError:
                expect(i not in level, "index %d can't be set in %r in the %s", i, n, w)
            else:
                expect(i in level, "index %d, outside the range, could be set in %r in the %s", i, n, w)
                expect(y.node is m.kids[id(n)][i] and y.index == i, "setting index %d in %r in the %s", i, n, w)
                ident(y, [k for j, k in zip(level, sel.level(n)) if j > i], "iterating from index %d in %r in the %s", i, n, w)
        # stepwise
        y = at_node()
        depth = y.enter()
        for child in y:
            expect(y.node is child and y.index == sel.info[id(child)][2], "current node while iterating over %r in the %s", n, w)
            same(y.trail(), child.trail()[len(sel.ancestor.trail()):], "trail while iterating over %r in the %s" % (n, w))
        if n is not sel.ancestor:
            same(y.leave(), depth, "depth when leaving %r in the %s" % (n, w))
            expect(y.node is n, "not back at %r in the %s", n, w)
        else:
            same(y.leave(), 0, "leaving the ancestor")


def list_level(r, sel, node, current, w):
    """The children that ls displays."""
    lines = printed(lambda: r.ls)
    same(lines[0], repr(node), "first line of ls of the " + w)
    want = []
    for k in sel.level(node):
        t = '%3d %r' % (sel.info[id(k)][2], k)
        whole = sel.complete(k)
        if whole is None:
            whole = any(t + ' (partly)' in x for x in lines) is False
        want.append(t + ('' if whole else ' (partly)') + ('  <----' if k is current else ''))
    same([t for t in lines[1:] if t.lstrip()[:1].isdigit()], want, "ls at %r of the %s" % (node, w))


def check_tree(tree, node, sel, w):
    stack = [(tree, node)]
    while stack:
        t, n = stack.pop()
        k = sel.level(n)
        expect(type(t) is type(n) and t.label == n.label and t is not n, "extracted tree: %r is %r", n, t)
        same([(type(x), x.label) for x in t], [(type(x), x.label) for x in k], "extracted tree of the %s: children of %r" % (w, n))
        expect(all(x.parent is t for x in t), "extracted tree: parents")
        stack.extend(zip(t, k))


def picks(g, n=3):
    return [(g.int(0, 60), g.int(0, 11), g.int(0, 2**16 - 1)) for _ in range(n)]


def meaning(ctx, sel, m):
    total = sum(1 for _ in m.walk())
    ctx.nontrivial((sel.start is not None or sel.end is not None) and len(sel.inside) >= 2 and total - len(sel.inside) >= 3)
    ctx.label('start %s, end %s%s' % (sel.start is not None, sel.end is not None, '' if sel.visible else ', empty'))


@sub('C08', 'query', lambda: G.strategy(lambda g: (tree(g), boundaries(g), picks(g))), 2500, 75000)
def c08_query(case, ctx):
    """What is in a range."""
    s, bounds, pk = case
    m = Model(s)
    r, sel = make(m, bounds)
    check_range(m, r, sel, pk)
    m.check("after looking at a range")
    meaning(ctx, sel, m)


def edits(g):
    """(kind, where to go, index, index, new nodes)"""
    return [(g.choice(('item', 'slice', 'insert', 'delete', 'delslice', 'node', 'entered', 'wrong')), g.int(0, 60), g.int(0, 1), g.int(-4, 4), g.int(-4, 4),
             [spec(g, 2, 2) for _ in range(g.int(0, 3))]) for _ in range(g.int(1, 5))]


@sub('C08', 'edit', lambda: G.strategy(lambda g: (tree(g), boundaries(g), edits(g), picks(g, 1))), 2500, 75000)
def c08_edit(case, ctx):
    """A history of replacing, inserting and deleting nodes through the range."""
    s, bounds, history, pk = case
    m = Model(s)
    r, sel = make(m, bounds)
    if not sel.visible:
        return
    original = r.copy()
    trails = original.start_trail and list(original.start_trail), original.end_trail and list(original.end_trail)
    effect = 0
    for kind, at, step, i, j, new in history:
        # go to a node and iterate over its children until one of them is the current node
        here = [n for n in [sel.ancestor] + sel.visible if sel.level(n)]
        if not here:
            break
        here = here[at % len(here)]
        r.goto(here)
        r.enter()
        kids = m.kids[id(here)]
        level = sel.level(here)
        current = level[at % len(level)] if step else None
        if current is not None:
            for n in r:
                if n is current:
                    break
        new = [m.make(x) for x in new]
        if kind in ('item', 'node', 'entered') and not new:
            continue
        if kind == 'wrong':
            # not allowed
            for fn in (lambda: r.__setitem__(slice(i, j, 2), new), lambda: r.__delitem__(slice(None, None, -1))):
                try:
                    fn()
                except ValueError:
                    pass
                else:
                    fail("slice with a step is accepted")
            x = r.copy()
            x.reset()
            try:
                x.node = m.make((0, 0, []))
            except ValueError:
                pass
            else:
                fail("replaced the ancestor of the %s", where(sel))
            m.check("after invalid operations")
            continue
        if kind == 'entered':
            # replace a node that is entered already
            if here is sel.ancestor:
                continue
            r.goto(here)
            r.enter()
            current, here = here, sel.info[id(here)][1]
            kids = m.kids[id(here)]
        old = list(kids)
        if kind == 'item':
            i %= len(kids)
            r[i - len(kids) if j < 0 else i] = new[0]
            lo, hi, added = i, i + 1, new[:1]
        elif kind in ('node', 'entered'):
            if current is None:
                continue
            i = [x is current for x in kids].index(True)
            r.node = new[0]
            lo, hi, added = i, i + 1, new[:1]
        elif kind == 'slice':
            r[i:j] = iter(new) if at % 2 else new
            lo, hi, _ = slice(i, j).indices(len(kids))
            hi, added = max(lo, hi), new
        elif kind == 'insert':
            i %= len(kids) + 1
            r[i:i] = new
            lo, hi, added = i, i, new
        elif kind == 'delete':
            i %= len(kids)
            del r[i - len(kids) if j < 0 else i]
            lo, hi, added = i, i + 1, []
        else:
            del r[i:j]
            lo, hi, _ = slice(i, j).indices(len(kids))
            hi, added = max(lo, hi), []
        gone = kids[lo:hi]
        kids[lo:hi] = added
        what = "%s [%d:%d] of %r" % (kind, lo, hi, here)
        m.check("after " + what)
        effect += bool(gone or added)
        ctx.label(kind)
        lost = {id(n) for x in gone for n in [x] + list(m.down(x))}
        was_inside = [n for n in sel.inside if id(n) not in lost]
        # nodes on the boundaries that were removed; the boundary comes on the new nodes or the nearest node
        sel.end_lost = False
        if sel.start is not None and id(sel.start) in lost:
            ctx.label('start removed')
            follow = next((n for n in itertools.chain(added, old[hi:]) ), None)
            if follow is None:
                follow = next(m.beyond(m.info(), here, False), None)
            if follow is None or not any(follow is n for n, _, _, _ in m.walk(sel.ancestor)):
                return          # nothing is left after the start
            sel.start = follow
        if sel.end is not None and id(sel.end) in lost:
            ctx.label('end removed')
            if added:
                sel.end = added[-1]
            elif lo:
                sel.end = kids[lo-1]
                while m.kids[id(sel.end)]:
                    sel.end = m.kids[id(sel.end)][-1]
            else:
                sel.end = here
        sel.update()
        if not sel.visible:
            return
        expect(all(id(n) in sel.ids for n in was_inside), "%s: nodes that stay in the tree are not in the range anymore", what)
        # the rest of the iteration
        if current is not None:
            if any(n is current for n in kids):
                now = [n is current for n in kids].index(True)
            else:
                now = lo + len(added) - 1
            ident(r, [n for n in kids[now+1:] if id(n) in sel.vis], "iteration continued after %s in the %s", what, where(sel))
        else:
            ident(r, sel.level(here), "iteration after %s in the %s", what, where(sel))
        check_range(m, r, sel, pk)
    same((original.start_trail, original.end_trail), trails, "boundaries of a copy, after modifying through the range")
    meaning(ctx, sel, m)
