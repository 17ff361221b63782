"""C09: copies, comparison and Python dumps."""
import io
import re
from fractions import Fraction

from . import g as G, gen_dom, gen_text
from .core import expect, fail, rule, same, sub
from .lib import Html, Latex, LilyPond, Scheme, base, document, element, htm, lily, read, same_head, same_tree, scm, show, tex
from .m_edit import VALUES

from quickly.node import Node

rule('C09', "the tree has at least 6 nodes of at least 4 types, and (copy) at least one change was made to one of the two trees, or "
            "(compare) the trees differ or one has other spacing than the other")

ROOTS = {'lilypond': LilyPond.root, 'scheme': Scheme.root, 'html': Html.root, 'latex': Latex.root}
READERS = {'lilypond': read.lily_document, 'scheme': read.scm_document, 'html': read.htm_document, 'latex': read.tex_document}
SPACES = ('space_before', 'space_after_head', 'space_between', 'space_before_tail', 'space_after')
SPACE_VALUES = ('', ' ', '\n', '\n\n', '  ', '\t')


NOT_TRANSFORMED = re.compile(r'style|script|!doctype|!(?=$)', re.I)     # these parts of Html can't be written


def source(g):
    """A tree: (language, text), or the specification of a tree built by hand."""
    if g.chance(40):
        return 'built', (gen_dom.document(g) if g.chance(60) else gen_dom.music(g))[0]
    lang, kind, text = gen_text.any_text(g)
    if lang == 'html':
        text = NOT_TRANSFORMED.sub('x', text)
    return lang, text


def make(src, origin=False):
    kind, text = src
    if kind == 'built':
        return gen_dom.build(text)
    return READERS[kind](text, origin)


def changes(g, lo=0, hi=4):
    """A list of (which tree, node number, kind of change, value)."""
    return [(g.int(0, 1), g.int(0, 400), g.choice(['head', 'head', 'space', 'space', 'remove', 'insert', 'reverse', 'clear']), g.int(0, 29)) for _ in range(g.int(lo, hi))]


def nodes_of(root):
    return [root] + list(root.descendants())


def change(root, at, kind, v):
    """Make a change to a tree; return the name of what was done, or None."""
    nodes = nodes_of(root)
    n = nodes[at * len(nodes) // 401]
    if kind == 'space':
        setattr(n, SPACES[v % 5], SPACE_VALUES[v // 5])
        return 'space'
    if kind == 'head':
        for k in range(len(nodes)):
            n = nodes[(at * len(nodes) // 401 + k) % len(nodes)]
            values = VALUES.get(type(n))
            if values:
                n.head = values[v % len(values)]
                return 'head'
            if isinstance(n, element.ToggleElement) or isinstance(n, element.MappingElement):
                values = sorted(type(n)._inverted_mapping, key=repr)
                n.head = values[v % len(values)]
                return 'head'
    if kind == 'remove' and n is not root:
        n.parent.remove(n)
        return 'remove'
    if kind == 'insert' and n is not root:
        n.parent.insert(n.parent.index(n), lily.Tie())
        return 'insert'
    if kind == 'reverse' and len(n) > 1:
        n.reverse()
        return 'reverse'
    if kind == 'clear' and len(n):
        n.clear()
        return 'clear'


def snapshot(root):
    """Everything that can be seen of a tree."""
    return [(id(n), type(n), n.head, tuple(getattr(n, s) for s in SPACES), [id(c) for c in n], id(n.parent),
             getattr(n, 'head_origin', None), getattr(n, 'tail_origin', None), modified(n)) for n in nodes_of(root)]


def unchanged(root, snap, what):
    now = snapshot(root)
    same(len(now), len(snap), "number of nodes after " + what)
    for a, b in zip(now, snap):
        if a != b and not (a[0] == b[0] and a[2] != a[2]):
            fail("%s: was %r, is now %r", what, b[1:], a[1:])


def consistent(root, what):
    for n in nodes_of(root):
        for c in n:
            expect(c.parent is n, "%s: wrong parent of %r", what, c)


def same_spacing(a, b, what):
    for x, y in zip(nodes_of(a), nodes_of(b)):
        for s in SPACES:
            same(getattr(y, s), getattr(x, s), "%s: %s of %r" % (what, s, x))


def is_copy(a, b, what):
    """b is an independent copy of a, with everything but the origin."""
    same_tree(a, b, what)
    expect(not {id(n) for n in nodes_of(a)} & {id(n) for n in nodes_of(b)}, "%s: shares a node", what)
    expect(b.parent is None, "%s: has a parent", what)
    consistent(b, what)
    same_spacing(a, b, what)
    expect(a.equals(b) and b.equals(a), "%s: does not compare equal\n%s", what, show(a))
    if not isinstance(a, htm.Text):         # the text depends on the parent
        same(b.write(), a.write(), "%s: text" % what)
        same(b.write_indented(), a.write_indented(), "%s: indented text" % what)


def big(d):
    nodes = nodes_of(d)
    return len(nodes) >= 6 and len({type(n) for n in nodes}) >= 4


@sub('C09', 'copy', lambda: G.strategy(lambda g: (source(g), changes(g), changes(g, 1), g.int(0, 400), g.chance(50))), 2500)
def c09_copy(case, ctx):
    src, before, after, at, origin = case
    d = make(src, origin)
    for _, i, kind, v in before:
        if kind in ('head', 'space'):
            change(d, i, kind, v)
    nodes = nodes_of(d)
    n = nodes[at * len(nodes) // 401] if at % 3 == 0 else d
    snap = snapshot(d)
    c = n.copy()
    is_copy(n, c, "copy of %r" % n)
    for x in nodes_of(c):
        for attr in ('head_origin', 'tail_origin'):
            expect(not getattr(x, attr, ()), "the copy %r has an origin", x)
    expect(c.pos is None and c.end is None, "the copy has a position")
    single = n.copy(False)
    expect(type(single) is type(n) and len(single) == 0 and single.parent is None and same_head(single.head, n.head), "copy without children: %r", single)
    for s in SPACES:
        same(getattr(single, s), getattr(n, s), "copy without children: %s" % s)
    unchanged(d, snap, "copying")
    done = independent(n, c, after)
    is_copy(n, n.copy(), "another copy of %r" % n)
    is_copy(c, c.copy(), "copy of the changed copy")
    ctx.label(src[0], *done)
    ctx.nontrivial(big(d) and done)


def independent(a, b, steps):
    """Changes of one tree are not visible in the other."""
    done = []
    for which, i, kind, v in steps:
        this, other = (a, b) if which else (b, a)
        s1, t1 = snapshot(other), other.write()
        what = change(this, i, kind, v)
        if what:
            unchanged(other, s1, "%s in the %s" % (what, 'original' if which else 'copy'))
            same(other.write(), t1, "text after changing the %s" % ('original' if which else 'copy'))
            consistent(this, what)
            done.append(what)
    return done


@sub('C09', 'origin', lambda: G.strategy(lambda g: (gen_text.any_text(g), changes(g), changes(g, 1), g.int(0, 400))), 1500)
def c09_origin(case, ctx):
    """A copy with origin has the same positions, and gives the same edits."""
    (lang, kind, text), before, after, at = case
    if lang == 'html':
        text = NOT_TRANSFORMED.sub('x', text)
    doc = document(ROOTS[lang], text)
    d = doc.get_transform(True)
    if d is None:
        return
    for _, i, k, v in before:
        if k in ('head', 'space'):
            change(d, i, k, v)
    snap = snapshot(d)
    c = d.copy_with_origin()
    unchanged(d, snap, "copying")
    is_copy(d, c, "copy with origin of %r" % text)
    for x, y in zip(nodes_of(d), nodes_of(c)):
        for attr in ('head_origin', 'tail_origin'):
            same(getattr(y, attr, None), getattr(x, attr, None), "%s of %r" % (attr, x))
        same((y.pos, y.end), (x.pos, x.end), "position of %r" % x)
        same(modified(y), modified(x), "modified state of %r" % x)
    context = doc.get_root(True)
    same(list(c.edits(context, source=text)), list(d.edits(context, source=text)), "edits")
    nodes = nodes_of(d)
    n = nodes[at * len(nodes) // 401]
    single = n.copy_with_origin(False)
    expect(type(single) is type(n) and len(single) == 0 and single.parent is None and same_head(single.head, n.head), "copy without children: %r", single)
    for attr in ('head_origin', 'tail_origin'):
        same(getattr(single, attr, None), getattr(n, attr, None), "copy without children: %s of %r" % (attr, n))
    same(modified(single), modified(n), "copy without children: modified state")
    done = independent(d, c, [x for x in after if x[2] != 'reverse'])       # text can't be moved
    # the same changes in both of them
    e = c.copy_with_origin()
    done2 = [(change(c, i, k, v), change(e, i, k, v)) for _, i, k, v in before + after if k != 'reverse']
    same_tree(c, e, "changes in the copy of the copy")
    same(list(e.edits(context, source=text)), list(c.edits(context, source=text)), "edits after %r" % (done2,))
    same(doc.text(), text, "text of the document")
    e2 = document(ROOTS[lang], text)
    t1 = list(e.edits(e2.get_root(True), source=text))
    with e2:
        for pos, end, new in t1:
            e2[pos:end] = new
    e.edit(doc)
    same(doc.text(), e2.text(), "text after writing back the copy")
    ctx.label(lang, *done)
    ctx.nontrivial(big(d) and done)


def modified(n):
    return [bool(p and p.modified) for p in (n.head_point(), n.tail_point())]


# ---- comparing -----------------------------------------------------------------------------------

def equal(a, b):
    """Our own comparison."""
    stack = [(a, b)]
    while stack:
        x, y = stack.pop()
        if type(x) is not type(y) or len(x) != len(y) or not same_head(x.head, y.head):
            return False
        stack.extend(zip(x, y))
    return True


@sub('C09', 'compare', lambda: G.strategy(lambda g: (source(g), source(g) if g.chance(20) else None, changes(g, 0, 3), g.int(0, 400), g.int(0, 400))), 2500)
def c09_compare(case, ctx):
    src, other, steps, i, j = case
    a = make(src)
    b = make(other if other else src, other is None)
    done = [x for _, at, kind, v in steps for x in [change(b, at, kind, v)] if x]
    want = equal(a, b)
    same(a.equals(b), want, "%s\n--- equals\n%s" % (show(a)[:1500], show(b)[:1500]))
    same(b.equals(a), want, "%s\n--- equals\n%s" % (show(b)[:1500], show(a)[:1500]))
    expect(a.equals(a) and b.equals(b), "a tree does not equal itself")
    if want and all(type(x.head) is type(y.head) for x, y in zip(nodes_of(a), nodes_of(b))):
        bare = b.copy()
        for n in nodes_of(bare):
            for s in SPACES:
                delattr(n, s)
        same(bare.write(), a.write(), "text of equal trees with the same spacing")
    # two nodes anywhere in the trees
    x, y = nodes_of(a), nodes_of(b)
    x, y = x[i * len(x) // 401], y[j * len(y) // 401]
    same(x.equals(y), equal(x, y), "%r equals %r" % (x, y))
    # the same node in a tree, and in itself
    same(x.equals(x.copy()), True, "%r equals its copy" % x)
    ctx.label('equal' if want else 'different', *done)
    ctx.nontrivial(big(a) and (done or other is not None))


# ---- Python dump ---------------------------------------------------------------------------------

NAMES = dict(lily=lily, scm=scm, htm=htm, tex=tex, base=base, Fraction=Fraction, nan=float('nan'), inf=float('inf'), infj=complex(0, float('inf')), nanj=complex(0, float('nan')))


def python(n, indent):
    f = io.StringIO()
    n.py_dump(f, **({} if indent is None else dict(indent_width=indent)))
    return f.getvalue()


@sub('C09', 'dump', lambda: G.strategy(lambda g: (source(g), g.int(0, 400), g.choice([None, 0, 1, 2, 8]))), 2000)
def c09_dump(case, ctx):
    """Executing the Python dump of a tree, or a part of it, gives an equal tree."""
    src, at, indent = case
    d = make(src, at % 2 == 1)
    nodes = nodes_of(d)
    for n in (d, nodes[at * len(nodes) // 401]):
        code = python(n, indent)
        try:
            again = eval(code, dict(NAMES))
        except (SyntaxError, NameError) as e:
            fail("%s in the dump:\n%s", e, code[:2000])
        expect(isinstance(again, element.Element), "the dump is no element but %r:\n%s", type(again), code[:2000])
        same_tree(n, again, "the dump %s" % code[:2000])
        expect(n.equals(again) and again.equals(n), "the dump does not compare equal\n%s", code)
        consistent(again, "dump")
        same(python(again, indent), code, "the dump of the result")
    ctx.label(src[0])
    ctx.nontrivial(big(d))
