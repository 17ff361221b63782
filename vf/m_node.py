"""C07: tree navigation and manipulation."""
import contextlib
import io
import itertools

from . import g as G
from . import env                   # noqa: F401
from .core import enumerated, expect, fail, rule, same, sub

from quickly.node import DUMP_STYLES, Node

rule('C07', "the tree has at least six nodes and is at least two levels deep, and (for manipulations) at least four operations were done that had effect")


class A(Node):
    def __init__(self, label=0, *children):
        self.label = label
        super().__init__(*children)

    def __repr__(self):
        return '%s%s' % (type(self).__name__, self.label)

    def copy(self, with_children=True):
        return type(self)(self.label, *((n.copy() for n in self) if with_children else ()))

    def body_equals(self, other):
        return self.label == other.label


class B(A):
    pass


class C(A):
    pass


class D(B):
    pass


TYPES = (A, B, C, D)
CLASSES = ((A,), (B,), (C,), (D,), (C, D), (B, C))


def spec(g, depth=4, wide=3):
    """Random tree as (type, label, children)."""
    kids = g.many(lambda: spec(g, depth - 1, wide), 0, wide) if depth else []
    g.budget -= 1
    return (g.int(0, 3), g.int(0, 2), kids)


def tree(g):
    return (g.int(0, 3), g.int(0, 2), g.many(lambda: spec(g), 0, 4))


def build(s, kids):
    """Make nodes; kids maps id(node) -> own list of the children."""
    children = [build(c, kids) for c in s[2]]
    node = TYPES[s[0]](s[1], *children)
    kids[id(node)] = children
    return node


class Model:
    """The tree as plain lists, kept apart from the real nodes."""
    def __init__(self, s):
        self.kids = {}
        self.keep = []          # all nodes ever made: keeps ids unique
        self.root = self.make(s)

    def make(self, s):
        node = build(s, self.kids)
        self.keep.append(node)
        return node

    def walk(self, node=None):
        """(node, parent, index, ancestors) in document order, including the node itself."""
        stack = [(node or self.root, None, None, ())]
        while stack:
            n, p, i, anc = stack.pop()
            yield n, p, i, anc
            k = self.kids[id(n)]
            for j in range(len(k) - 1, -1, -1):
                stack.append((k[j], n, j, (n,) + anc))

    def info(self):
        return {id(n): (n, p, i, anc) for n, p, i, anc in self.walk()}

    def check(self, what):
        """The real tree has the structure of the model."""
        for n, p, i, anc in self.walk():
            real = list(iter(n))
            k = self.kids[id(n)]
            expect(len(real) == len(k) and len(n) == len(k) and all(x is y for x, y in zip(real, k)),
                   "%s: children of %r are %r, expected %r", what, n, real, k)
            if p is not None:
                expect(n.parent is p, "%s: parent of %r is %r, expected %r", what, n, n.parent, p)
        expect(self.root.parent is None, "%s: root has parent %r", what, self.root.parent)

    def down(self, node, reverse=False, skip=()):
        """Descendants in (reverse) order; not inside nodes of which the id is in skip."""
        k = self.kids[id(node)]
        for n in (reversed(k) if reverse else k):
            yield n
            if id(n) not in skip:
                yield from self.down(n, reverse, skip)

    def beyond(self, info, node, back, upto=None, skip=()):
        """forward() / backward()"""
        while True:
            n, p, i, anc = info[id(node)]
            if p is None or node is upto:
                return
            k = self.kids[id(p)]
            for x in (k[:i][::-1] if back else k[i+1:]):
                yield x
                if id(x) not in skip:
                    yield from self.down(x, back, skip)
            node = p


def sending(gen, skip):
    """Exhaust the generator and send False for the nodes in skip."""
    out = []
    try:
        n = next(gen)
        while True:
            out.append(n)
            if len(out) > 3000:
                fail("the iteration does not end")
            n = gen.send(False) if id(n) in skip else next(gen)
    except StopIteration:
        return out


def ident(actual, wanted, what, *args):
    actual, wanted = list(itertools.islice(actual, 3000)), list(wanted)
    if len(actual) != len(wanted) or any(x is not y for x, y in zip(actual, wanted)):
        fail("%s: got %r, expected %r", what % args if args else what, actual, wanted)


def printed(fn):
    """Lines that fn prints."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn()
    return out.getvalue().splitlines()


def listings(n, kids, ancestors):
    """ls and pwd."""
    width = len(str(len(kids)))
    lines = ['%*d %r' % (width, i, k) for i, k in enumerate(kids)]
    same(repr(n.ls).splitlines(), lines, "ls of %r" % n)
    for cls in (B, (C, D)):
        same(printed(lambda: n.ls / cls), [t for t, k in zip(lines, kids) if isinstance(k, cls)], "ls / %r of %r" % (cls, n))
        same(printed(lambda: n.ls ^ cls), [t for t, k in zip(lines, kids) if not isinstance(k, cls)], "ls ^ %r of %r" % (cls, n))
    for i in range(len(kids)):
        same(printed(lambda: n.ls[i]), lines[i:i+1], "ls[%d] of %r" % (i, n))
    for part in (slice(1, None), slice(0, 2), slice(None, None, 2)):
        same(printed(lambda: n.ls[part]), lines[part], "ls[%r] of %r" % (part, n))
    pwd = printed(lambda: n.pwd)
    path = (n, *ancestors)[::-1]
    same(len(pwd), len(path), "length of pwd of %r" % n)
    for i, (t, k) in enumerate(zip(pwd, path)):
        expect(t.endswith(repr(k)) and len(t) == len(repr(k)) + 3 * i, "pwd of %r: %r for %r", n, t, k)


def queries(m, picks):
    """Compare all queries; picks is a list of numbers that select nodes etc."""
    info = m.info()
    nodes = [t[0] for t in info.values()]
    ident(m.root.descendants(), m.down(m.root), "descendants")
    n, p, i, anc = list(info.values())[picks[0][0] % len(info)]
    listings(n, m.kids[id(n)], anc)
    for n, p, i, anc in info.values():
        ident(n.ancestors(), anc, "ancestors of %r", n)
        want = [(a, info[id(x)][2]) for a, x in zip(anc, (n,) + anc)]
        same([(id(a), j) for a, j in n.ancestors_with_index()], [(id(a), j) for a, j in want], "ancestors_with_index of %r" % n)
        same(n.trail(), [j for a, j in reversed(want)], "trail of %r" % n)
        same(n.depth(), len(anc), "depth of %r" % n)
        expect(n.root() is m.root, "root of %r is %r", n, n.root())
        same(n.is_root(), p is None, "is_root of %r" % n)
        h = max(len(x[3]) for x in info.values() if x[0] is n or any(a is n for a in x[3])) - len(anc)
        same(n.height(), h, "height of %r" % n)
        expect(bool(n), "%r is false", n)
        if p is not None:
            k = m.kids[id(p)]
            same(n.is_first(), i == 0, "is_first of %r" % n)
            same(n.is_last(), i == len(k) - 1, "is_last of %r" % n)
            ident(n.left_siblings(), k[:i][::-1], "left siblings of %r", n)
            ident(n.right_siblings(), k[i+1:], "right siblings of %r", n)
            expect(n.left_sibling() is (k[i-1] if i else None), "left sibling of %r: %r", n, n.left_sibling())
            expect(n.right_sibling() is (k[i+1] if i < len(k) - 1 else None), "right sibling of %r: %r", n, n.right_sibling())
        else:
            ident(n.left_siblings(), (), "left siblings of the root")
            ident(n.right_siblings(), (), "right siblings of the root")
            expect(n.left_sibling() is None and n.right_sibling() is None, "the root has siblings")
        ident(n.forward(), m.beyond(info, n, False), "forward from %r", n)
        ident(n.backward(), m.beyond(info, n, True), "backward from %r", n)
        ident(n.descendants(True), m.down(n, True), "reverse descendants of %r", n)
    for a, b, c, mask in picks:
        n, o = nodes[a % len(nodes)], nodes[b % len(nodes)]
        anc, oanc = (n,) + info[id(n)][3], (o,) + info[id(o)][3]
        common = next(x for x in anc if any(x is y for y in oanc))
        expect(n.common_ancestor(o) is common, "common ancestor of %r and %r: %r, expected %r", n, o, n.common_ancestor(o), common)
        x, t, u = n.common_ancestor_with_trail(o)
        expect(x is common, "common ancestor of %r and %r: %r, expected %r (with trail)", n, o, x, common)
        d = len(info[id(common)][3])
        same((t, u), (n.trail()[d:], o.trail()[d:]), "trails from the common ancestor of %r and %r" % (n, o))
        same(n.trail() < o.trail(), nodes.index(n) < nodes.index(o), "order of the trails of %r and %r" % (n, o))
        cls = CLASSES[c % len(CLASSES)]
        arg = cls[0] if len(cls) == 1 else cls
        inst = TYPES[c % 4](mask % 3)
        like = lambda x: type(x) is type(inst) and x.label == inst.label
        isin = lambda x: isinstance(x, cls)
        for what, op, source in (
                ('/', lambda arg: n / arg, m.kids[id(n)]),
                ('//', lambda arg: n // arg, list(m.down(n))),
                ('<<', lambda arg: n << arg, anc[1:]),
                ('>', lambda arg: n > arg, list(m.beyond(info, n, False))),
                ('<', lambda arg: n < arg, list(m.beyond(info, n, True)))):
            ident(op(arg), filter(isin, source), "%r %s %r", n, what, arg)
            if what not in '<>' or type(inst) is type(n) or not isinstance(inst, type(n)):      # see reflected below
                ident(op(inst), filter(like, source), "%r %s instance %r", n, what, inst)
        ident(n ^ arg, itertools.filterfalse(isin, m.kids[id(n)]), "%r ^ %r", n, arg)
        ident(n ^ inst, itertools.filterfalse(like, m.kids[id(n)]), "%r ^ instance %r", n, inst)
        # not entering nodes, and finding the topmost ones
        skip = {id(x) for k, x in enumerate(nodes) if mask >> (k % 16) & 1}
        for back in (False, True):
            ident(sending(n.descendants(back), skip), m.down(n, back, skip), "descendants of %r with nodes not entered", n)
        ident(sending(n.forward(), skip), m.beyond(info, n, False, None, skip), "forward from %r with nodes not entered", n)
        ident(sending(n.backward(), skip), m.beyond(info, n, True, None, skip), "backward from %r with nodes not entered", n)
        for up in anc[1:]:
            ident(n.forward(up), m.beyond(info, n, False, up), "forward from %r up to %r", n, up)
            ident(n.backward(up), m.beyond(info, n, True, up), "backward from %r up to %r", n, up)
        top = {id(x) for x in nodes if isin(x)}
        want = [x for x in m.down(n, False, top) if id(x) in top]
        ident(n.instances_of(arg), want, "instances of %r in %r", arg, n)
        ident(n.filter(isin), want, "filter in %r", n)
        ident(n.filter_descendants(isin, n.forward()),
              [x for x in m.beyond(info, n, False, None, top) if id(x) in top], "filter forward from %r", n)
        ident(n.filter_descendants(isin, n.backward()),
              [x for x in m.beyond(info, n, True, None, top) if id(x) in top], "filter backward from %r", n)
    f = io.StringIO()
    style = sorted(DUMP_STYLES)[sum(p[0] for p in picks) % len(DUMP_STYLES)]
    m.root.dump(f, style)
    lines = f.getvalue().splitlines()
    same(len(lines), len(nodes), "number of lines of the dump")
    piece = len(DUMP_STYLES[style][0])
    for line, (n, p, i, anc) in zip(lines, info.values()):
        want = []
        for j, x in enumerate((n,) + anc[:-1] if anc else ()):
            last = m.kids[id(info[id(x)][1])][-1] is x
            want.append(DUMP_STYLES[style][(2 if j == 0 else 0) + last])
        same(line, ''.join(reversed(want)) + repr(n), "line of the dump")
    return info


def picks(g, n=4):
    return [(g.int(0, 100), g.int(0, 100), g.int(0, 11), g.int(0, 2**16 - 1)) for _ in range(n)]


@sub('C07', 'query', lambda: G.strategy(lambda g: (tree(g), tree(g), picks(g))), 1500, 45000)
def c07_query(case, ctx):
    """All queries and traversals."""
    s, other, pk = case
    m = Model(s)
    m.check("after building")
    info = queries(m, pk)
    ctx.nontrivial(len(info) >= 6 and m.root.height() >= 2)
    # comparing
    o = Model(other)
    same(m.root.equals(o.root), s == other, "equals of %r and %r" % (s, other))
    expect(m.root.common_ancestor(o.root) is None, "common ancestor of two trees")
    same(m.root.common_ancestor_with_trail(o.root), (None, None, None), "common ancestor of two trees")
    # and a copy
    c = m.root.copy()
    mine = {id(t[0]) for t in info.values()}
    expect(c.equals(m.root) and m.root.equals(c), "the copy does not equal")
    expect(c.parent is None, "the copy has a parent")
    for x, y in itertools.zip_longest(c.descendants(), m.root.descendants()):
        expect(id(x) not in mine and type(x) is type(y) and x.label == y.label and x.trail() == y.trail(), "the copy differs")
    x = m.root.copy(False)
    expect(type(x) is type(m.root) and len(x) == 0 and x.parent is None and x.label == m.root.label, "copy without children")


@enumerated('C07', 'reflected', [])
def c07_reflected(case, ctx):
    """The > and < operators with an instance of a class that inherits the class of the node (a known finding)."""
    left, right = case
    kids = [TYPES[left](), TYPES[right](1), TYPES[left]()]
    root = A(0, *kids)
    ident(kids[0] > TYPES[right](1), kids[1:2], "%r > instance %r", kids[0], kids[1])
    ident(kids[2] < TYPES[right](1), kids[1:2], "%r < instance %r", kids[2], kids[1])
    expect(root, "keep the root")


OPS = ('append', 'extend', 'insert', 'set', 'slice', 'del', 'delslice', 'take', 'replace', 'pop', 'remove', 'reverse', 'clear', 'iadd', 'move',
       'filter', 'step')


def ops(g):
    return [(g.choice(OPS), g.int(0, 60), g.int(-4, 5), g.int(-4, 5), [spec(g, 2, 2) for _ in range(g.int(0, 2))], g.int(0, 60)) for _ in range(g.int(1, 12))]


@sub('C07', 'manipulate', lambda: G.strategy(lambda g: (tree(g), ops(g), picks(g, 2))), 2000, 60000)
def c07_manipulate(case, ctx):
    """A history of manipulations, against a model of plain lists."""
    s, history, pk = case
    m = Model(s)
    effect = 0
    for op, at, i, j, new, to in history:
        nodes = [t[0] for t in m.walk()]
        n = nodes[at % len(nodes)]
        k = m.kids[id(n)]
        before = len(nodes), [id(x) for x in nodes]
        new = [m.make(x) for x in new]
        what = "%s on %r" % (op, n)
        if op == 'append':
            for x in new:
                n.append(x)
            k.extend(new)
        elif op == 'extend':
            n.extend(iter(new) if i % 2 else new)
            k.extend(new)
        elif op == 'iadd':
            n += new
            k += new
        elif op == 'insert':
            for x in new:
                n.insert(i, x)
                k.insert(i, x)
        elif op == 'set':
            if new and k:
                i = i % len(k) - (len(k) if j < 0 else 0)
                n[i] = new[0]
                k[i] = new[0]
        elif op == 'slice':
            n[i:j] = iter(new) if at % 2 else new
            k[i:j] = new
        elif op == 'step':
            where = slice(None, None, 2 if i > 0 else -1)
            count = len(k[where])
            new += [m.make((1, 1, [])) for _ in range(count)]
            n[where] = new[:count]
            k[where] = new[:count]
        elif op == 'del':
            if k:
                del n[i % len(k)]
                del k[i % len(k)]
        elif op == 'delslice':
            del n[i:j]
            del k[i:j]
        elif op == 'take':
            got = n.take(i, j)
            ident(got, k[i:j], "taken nodes")
            del k[i:j]
            got = n.take(i % (len(k) + 1))
            ident(got, k[i % (len(k) + 1):], "taken nodes")
            del k[i % (len(k) + 1):]
        elif op == 'replace':
            parent = next((t[1] for t in m.walk() if t[0] is n), None)
            if new and parent is not None:
                pk_ = m.kids[id(parent)]
                pk_[[id(x) for x in pk_].index(id(n))] = new[0]
                n.replace_with(new[0])
        elif op == 'pop':
            if k:
                x = n.pop(i % len(k))
                expect(x is k.pop(i % len(k)), "popped node")
        elif op == 'remove':
            if k:
                x = k.pop(i % len(k))
                n.remove(x)
        elif op == 'reverse':
            n.reverse()
            k.reverse()
        elif op == 'clear':
            n.clear()
            k.clear()
        elif op == 'filter':
            cls = TYPES[i % 4]
            n[:] = n ^ cls
            k[:] = [x for x in k if not isinstance(x, cls)]
        elif op == 'move':
            target = nodes[to % len(nodes)]
            if n is not m.root and target is not n and not any(x is target for x in m.down(n)):
                parent = next(t[1] for t in m.walk() if t[0] is n)
                pkids = m.kids[id(parent)]
                pos = [id(x) for x in pkids].index(id(n))
                x = parent.take(pos, pos + 1)[0]
                del pkids[pos]
                target.insert(i, x)
                m.kids[id(target)].insert(i, x)
        m.check("after " + what)
        after = [t[0] for t in m.walk()]
        effect += before != (len(after), [id(x) for x in after])
        ctx.label(op)
    info = queries(m, pk)
    ctx.nontrivial(len(info) >= 6 and m.root.height() >= 2 and effect >= 4)
