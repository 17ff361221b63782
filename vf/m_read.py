"""C05: any text can be read, and nodes know their position."""
from . import g as G, gen_text
from .core import expect, fail, rule, same, sub
from .lib import Html, Latex, LilyPond, Scheme, base, document, element, htm, lily, read, same_tree, scm, tex

LANG = {
    'lilypond': (LilyPond.root, read.lily_document, lily.Document),
    'scheme': (Scheme.root, read.scm_document, scm.Document),
    'html': (Html.root, read.htm_document, htm.Document),
    'latex': (Latex.root, read.tex_document, tex.Document),
}

ONE = {'lilypond': read.lily, 'scheme': read.scm, 'html': read.htm, 'latex': read.tex}

rule('C05', "the tree has at least 5 nodes with an origin; of the texts that are not valid, at least two language elements")


def origin(node):
    """(head tokens, tail tokens) of the node itself."""
    return tuple(getattr(node, 'head_origin', ()) or ()), tuple(getattr(node, 'tail_origin', ()) or ())


def spans(root, text):
    """Check all nodes and return {id(node): (pos, end) or None}, computed from all tokens in the tree."""
    result = {}
    claimed = {}

    def visit(node, parent):
        if parent is not None:
            expect(node.parent is parent, "parent of %r is %r, not %r", node, node.parent, parent)
        expect(isinstance(node, element.Element), "%r in the tree", node)
        head, tail = origin(node)
        for t in head + tail:
            expect(text[t.pos:t.end] == t.text and t.text, "token %r of %r is not in the text", t, node)
            if t.pos in claimed:
                fail("token %r belongs to %r and %r", t, claimed[t.pos], node)
            claimed[t.pos] = node
        parts = [(t.pos, t.end) for t in head]
        for n in node:
            s = visit(n, node)
            if s:
                parts.append(s)
        parts += [(t.pos, t.end) for t in tail]
        for a, b in zip(parts, parts[1:]):
            expect(a[1] <= b[0], "%r: the part at %r comes before the part at %r\n%s", node, a, b, text)
        span = (parts[0][0], parts[-1][1]) if parts else None
        result[id(node)] = span
        if span:
            expect(0 <= span[0] < span[1] <= len(text), "%r: range %r not inside the text", node, span)
            same((node.pos, node.end), span, "range of %r in %r" % (node, text))
        else:
            expect(node.pos is None and node.end is None, "%r has a position but no origin", node)
        return span

    visit(root, None)
    return result


def preorder(node):
    for n in node:
        yield n
        yield from preorder(n)


def postorder_reversed(node):
    """The nodes from last to first, a node before its children."""
    for n in reversed(node):
        yield n
        yield from postorder_reversed(n)


def lookups(root, span, positions):
    order = [n for n in preorder(root) if span[id(n)]]
    back = [n for n in postorder_reversed(root) if span[id(n)]]
    for p, q in positions:
        # children
        found = None
        chain = []
        node = root
        while True:
            child = None
            for n in node:
                s = span[id(n)]
                if s and s[0] <= p <= s[1]:
                    child = n
            if node is root:
                found = child
            if child is None:
                break
            chain.append(child)
            node = child
        expect(root.find_child(p) is found, "find_child(%d): %r, expected %r", p, root.find_child(p), found)
        got = list(root.find_descendants(p))
        expect(len(got) == len(chain) and all(a is b for a, b in zip(got, chain)), "find_descendants(%d): %r, expected %r", p, got, chain)
        expect(root.find_descendant(p) is (chain[-1] if chain else None), "find_descendant(%d)", p)
        inside = []
        for n in chain:
            if span[id(n)][1] < q:
                break
            inside.append(n)
        got = list(root.find_descendants(p, q))
        expect(len(got) == len(inside) and all(a is b for a, b in zip(got, inside)), "find_descendants(%d, %d): %r, expected %r", p, q, got, inside)
        expect(root.find_descendant(p, q) is (inside[-1] if inside else None), "find_descendant(%d, %d)", p, q)
        right = next((n for n in order if span[id(n)][0] >= p), None)
        got = root.find_descendant_right(p)
        expect(got is right, "find_descendant_right(%d): %r, expected %r", p, got, right)
        left = next((n for n in back if span[id(n)][1] <= p), None)
        got = root.find_descendant_left(p)
        expect(got is left, "find_descendant_left(%d): %r, expected %r", p, got, left)


def check(case, ctx):
    (lang, kind, text), positions = case
    lexicon, reader, cls = LANG[lang]
    d = reader(text, True)
    expect(isinstance(d, cls), "%r was read from %r", d, text)
    d2 = reader(text)
    same_tree(d2, d, "tree without origin of %r" % text)
    expect(all(not any(origin(n)) for n in d2.descendants()), "origin was kept")
    d3 = document(lexicon, text).get_transform(True)
    if text:
        same_tree(d3, d, "tree of a document with %r" % text)
    # just one node
    for with_origin in (False, True):
        one = ONE[lang](text, with_origin) if with_origin else ONE[lang](text)
        if not len(d):
            same(one, None, "node read from %r" % text)
        else:
            same_tree(one, d[0], "first node of %r" % text)
            same([[t.text for t in o or ()] for o in origin(one)], [[t.text for t in o or ()] for o in origin(d[0])] if with_origin else [[], []], "origin of the first node of %r" % text)
    span = spans(d, text)
    n = len(text)
    lookups(d, span, [(p * n // 200, min(n, p * n // 200 + r)) for p, r in positions])
    # nodes of text
    for node in d.descendants():
        if isinstance(node, (lily.Note, lily.Rest, lily.Space, lily.Dynamic, tex.Text, scm.Identifier)) and node.head_origin:
            same(text[node.head_origin[0].pos:node.head_origin[-1].end].lstrip('\\'), node.head.lstrip('\\'), "head of %r" % node)
    ctx.label(kind, lang)
    ctx.nontrivial(sum(1 for s in span.values() if s) >= 5)


def _case(*langs):
    def fn(g):
        positions = [(g.int(0, 200), g.choice([0, 0, 1, 2, 5, 20])) for _ in range(g.int(2, 8))]
        return gen_text.any_text(g, langs), positions
    return lambda: G.strategy(fn)


@sub('C05', 'lilypond', _case('lilypond'), 4000)
def c05_lilypond(case, ctx):
    check(case, ctx)


@sub('C05', 'scheme', _case('scheme'), 1500)
def c05_scheme(case, ctx):
    check(case, ctx)


@sub('C05', 'html', _case('html'), 2500)
def c05_html(case, ctx):
    check(case, ctx)


@sub('C05', 'latex', _case('latex'), 2500)
def c05_latex(case, ctx):
    check(case, ctx)
