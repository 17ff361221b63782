"""C18: the same edit by way of a tree, a range, a document or a cursor."""
from fractions import Fraction

from . import g as G, gen_lily, gen_music, gen_rhythm
from .core import expect, fail, rule, same, sub
from .lib import LilyPond, lily, lydoc, parce, read, same_tree
from .m_rhythm import items

from quickly import rhythm
from quickly.dom.edit import Edit
from quickly.duration import Transform
from quickly.node import Range
from quickly.pitch import Pitch
from quickly.relative import Abs2rel, Rel2abs, abs2rel, rel2abs
from quickly.transpose import Transpose, Transposer, transpose

rule('C18', "the edit changes the music (or copies at least four durations); for a part: something is changed while something else that a full edit would change is not")

DURS = [(Fraction(1, 4), 1), (Fraction(1, 8), 1), None, (Fraction(3, 16), Fraction(1, 2)), None, (Fraction(1, 2), 1)]
FLAGS = [None, None, True, False]


def edit_spec(g, kinds='rp'):
    """An edit as plain data."""
    names = []
    if 'r' in kinds:
        names += ['remove', 'remove_scaling', 'remove_fraction_scaling', 'explicit', 'implicit', 'transform', 'copy', 'paste', 'per_line']
    if 'p' in kinds:
        names += ['transpose', 'transpose', 'rel2abs', 'rel2abs', 'abs2rel', 'abs2rel']
    n = g.choice(names)
    if n == 'transform':
        return n, g.int(0, 4) - 1, g.int(0, 2) - 1, g.choice([1, 2, Fraction(1, 3)])
    if n == 'copy':
        return n, g.chance(50)
    if n == 'paste':
        return n, [g.choice(DURS) for _ in range(g.int(1, 5))], g.chance(70)
    if n == 'transpose':
        return n, (g.int(0, 6), g.choice([0, 0, 1, -1]), 0), (g.int(0, 6), g.choice([0, 0, 1, -1]), g.int(0, 2) - 1), g.choice(FLAGS)
    if n == 'rel2abs':
        return n, g.choice(FLAGS)
    if n == 'abs2rel':
        return n, g.chance(50), g.choice(FLAGS)
    return (n,)


def pitch(t):
    return Pitch(t[2], t[0], Fraction(t[1], 2))


def make(spec):
    """The Edit."""
    n, *a = spec
    if n == 'transform':
        return rhythm.RhythmTransform(Transform(*a))
    if n == 'copy':
        return rhythm.CopyRhythm(*a)
    if n == 'paste':
        return rhythm.PasteRhythm(*a)
    if n == 'transpose':
        return Transpose(Transposer(pitch(a[0]), pitch(a[1])), None, a[2])
    if n == 'rel2abs':
        return Rel2abs(None, *a)
    if n == 'abs2rel':
        return Abs2rel(None, *a)
    return {'remove': rhythm.Remove, 'remove_scaling': rhythm.RemoveScaling,
            'remove_fraction_scaling': rhythm.RemoveFractionScaling, 'explicit': rhythm.RhythmExplicit,
            'implicit': rhythm.RhythmImplicit, 'per_line': rhythm.RhythmImplicitPerLine}[n]()


def call(spec, music):
    """The convenience function, None if there is none that can do the same."""
    n, *a = spec
    if n == 'transpose':
        return a[2] is None and (transpose(music, Transposer(pitch(a[0]), pitch(a[1]))),)
    if n == 'rel2abs':
        return a == [None] and (rel2abs(music),)
    if n == 'abs2rel':
        return a == [True, None] and (abs2rel(music),)
    if n == 'per_line':
        return (rhythm.implicit(music, True),)
    return (getattr(rhythm, n)(music, *a),)


def source(g, kind, opts_rhythm=gen_rhythm.ALL, opts_music=gen_music.ALL):
    if kind < 4:
        return gen_rhythm.text(g, opts_rhythm)
    if kind < 8:
        return gen_music.text(g, opts_music)
    return gen_lily.lily_document(g, g.choice([0, 1]))


def _full(g):
    kind = g.int(0, 9)
    kinds = 'r' if kind < 4 else 'p' if kind < 7 else 'r' if kind < 8 else 'rp'
    specs = edit_spec(g, kinds), edit_spec(g, kinds)
    return (source(g, kind), *specs)


def norm(text):
    """The tree of the text, without the scaling *1, that is not written."""
    return read.lily_document(read.lily_document(text).write())


def unwritable(text, *specs):
    """True if durations may get longer than a \\maxima."""
    return any(s[0] == 'transform' and s[1] < 0 for s in specs) and ('\\longa' in text or '\\maxima' in text)


@sub('C18', 'full', lambda: G.strategy(_full), 2000, 60000)
def c18_full(case, ctx):
    """The whole music by way of tree, range, tree with origin, document, cursor, full selection."""
    text, spec, other = case
    if unwritable(text, spec, other):
        ctx.label('skipped')
        return
    doc = lydoc(text)
    edit = make(spec)
    wanted = edit.edit(doc)
    new = doc.text()
    tree = norm(new)
    changes = edit.changes()
    where = "%s of %r, document becomes %r; by way of " % (spec, text, new)
    if spec[0] == 'copy':
        same((new, changes), (text, 0), "text after copying")
        ctx.nontrivial(len(wanted) >= 4)
    else:
        ctx.nontrivial(new != text)
        expect(changes > 0 or new == text, "no changes reported, but %r becomes %r", text, new)
    ctx.label(spec[0])

    def check_tree(what, dom, result):
        same(result, wanted, "result, " + where + what)
        if spec[0] != 'per_line':           # knows about lines only when there is a text
            same_tree(read.lily_document(dom.write()), tree, where + what)

    def check_text(what, d, result):
        same(result, wanted, "result, " + where + what)
        same(d.text(), new, where + what)

    dom = read.lily_document(text)
    check_tree("tree", dom, edit.edit(dom))
    dom = read.lily_document(text)
    check_tree("edit_node", dom, make(spec).edit_node(dom))
    dom = read.lily_document(text)
    check_tree("range", dom, make(spec).edit(Range(dom)))
    dom = read.lily_document(text)
    if len(dom):
        last = dom[-1]
        while len(last):
            last = last[-1]
        check_tree("range between nodes", dom, make(spec).edit(Range.from_nodes(dom[0], last, True)))
    # the tree of the document, written back by hand
    d = lydoc(text)
    dom = d.get_transform(True)
    same(make(spec).edit(dom), wanted, "result, " + where + "tree of the document")
    same(d.text(), text, where + "tree of the document, before writing it")
    n = dom.edit(d)
    if spec[0] != 'per_line':
        check_text("tree of the document", d, wanted)
        same(n, changes, "number of changes, " + where + "tree of the document")
    for what, select in (('cursor', lambda c: c), ('selection', lambda c: c.select(0, len(text))), ('select_all()', lambda c: c.select_all())):
        d = lydoc(text)
        e = make(spec)
        cursor = parce.Cursor(d)
        select(cursor)
        check_text(what, d, e.edit(cursor))
        same(e.changes(), changes, "number of changes, " + where + what)
    d = lydoc(text)
    f = call(spec, d)
    if f:
        check_text("function", d, f[0])
    # an Edit can be used again
    e = make(spec)
    e.edit(lydoc(text))
    d = lydoc(text)
    check_text("same edit again", d, e.edit(d))
    # one edit after another
    if spec[0] != 'per_line' and other[0] != 'per_line':
        make(other).edit(d)
        for step in (spec, other):
            dom = dom if step is other else read.lily_document(text)
            make(step).edit(dom)
        same_tree(norm(dom.write()), norm(d.text()), "%s after %s" % (other, where))


def _part(g):
    kind = g.int(0, 9)
    kinds = 'r' if kind < 4 else 'p' if kind < 7 else 'r' if kind < 8 else 'rp'
    spec = edit_spec(g, kinds)
    i, j, space = g.int(0, 200), g.int(0, 60), g.int(0, 3)
    return source(g, kind), spec, i, j, space


def music_nodes(dom):
    """Elements in music, not parts of elements."""
    return [n for n in dom.descendants() if n.pos is not None and isinstance(n, lily.Music)
            and isinstance(n.parent, (lily.MusicList, lily.Document, lily.Music)) and not isinstance(n.parent, lily.Durable)]


FREE = ('remove', 'remove_scaling', 'remove_fraction_scaling')


def path(node):
    p = []
    while node.parent is not None:
        p.append(next(i for i, n in enumerate(node.parent) if n is node))
        node = node.parent
    return p[::-1]


def at(dom, p):
    for i in p:
        dom = dom[i]
    return dom


@sub('C18', 'part', lambda: G.strategy(_part), 2400, 60000)
def c18_part(case, ctx):
    """A selection: the text outside it is not touched; a range between the same nodes gives the same music."""
    text, spec, i, j, space = case
    if unwritable(text, spec):
        ctx.label('skipped')
        return
    dom = read.lily_document(text, True)
    nodes = music_nodes(dom)
    if not nodes:
        return
    i %= len(nodes)
    first, last = nodes[i], nodes[min(i + j, len(nodes) - 1)]
    pos, end = first.pos, max(first.end, last.end)
    # a note is not selected by half
    for n in nodes:
        if isinstance(n, lily.Durable) and (n.pos < pos < n.end or n.pos < end < n.end):
            pos, end = min(pos, n.pos), max(end, n.end)
    if space & 1:
        while pos and text[pos - 1] in ' \n':
            pos -= 1
    if space & 2:
        while end < len(text) and text[end] in ' \n':
            end += 1
    d = lydoc(text)
    e = make(spec)
    result = e.edit(parce.Cursor(d).select(pos, end))
    new = d.text()
    where = "%s of %r in %r: %r" % (spec, text[pos:end], text, new)
    a, b = text[:pos], text[end:]
    if 'rel' in spec[0]:
        # an element is also in the selection when everything in it is (although its brackets are not)
        def inside(m):
            return m.pos >= pos and m.end <= end or len(m) > 0 and all(map(inside, m))
        spread = [m for m in dom.descendants() if inside(m)]
        a = text[:min([pos] + [m.pos for m in spread])]
        b = text[max([end] + [m.end for m in spread]):]
    # whitespace next to something that is modified may change
    a, b = a.rstrip(), b.lstrip()
    expect(new.startswith(a), "text before the selection is no longer %r, %s", a, where)
    expect(new.endswith(b), "text after the selection is no longer %r, %s", b, where)
    expect(len(new) >= len(a) + len(b), "text outside the selection, " + where)
    full = lydoc(text)
    make(spec).edit(full)
    ctx.nontrivial(text != new != full.text())
    ctx.label(spec[0])
    if spec[0] == 'copy':
        inside = [n for n in items(dom) if pos <= n.node.pos and n.node.end <= end]
        same(result, [(n.own if n.own or not spec[1] else n.effective) for n in inside], "durations, " + where)
        same(new, text, where)
    elif spec[0] in FREE:
        now, fully = (items(read.lily_document(t, True)) for t in (new, full.text()))
        for a, b, c in zip(items(dom), now, fully, strict=True):
            if pos <= a.node.pos and a.node.end <= end:
                same(b.own, c.own, "duration of %r, %s" % (a.node, where))
            else:
                same(b.own, a.own, "duration of %r, %s" % (a.node, where))
    # the same nodes in a tree
    if spec[0] != 'per_line':
        end_node = dom.find_descendant_left(end)
        start_node = dom.find_descendant_right(pos)
        if start_node and end_node and start_node.pos < end_node.end:
            while len(end_node):
                end_node = end_node[-1]
            tree = read.lily_document(text)
            a, b = at(tree, path(start_node)), at(tree, path(end_node))
            r = Range.from_nodes(a, b, any(n is a for n in [b, *b.ancestors()]))
            same(make(spec).edit(r), result, "result, " + where)
            same_tree(norm(tree.write()), norm(new), "range in the tree, " + where)


class Raise(Edit):
    """Let the notes in the range be an octave higher, remember what is asked for."""
    def __init__(self, document, **attrs):
        self.expected = document
        self.seen = []
        self.errors = []
        self.__dict__.update(attrs)

    def edit_range(self, r):
        if self.document() is not self.expected:
            self.errors.append("document() is %r" % self.document())
        self.root = r.ancestor().is_root()
        for n in [n for n in r.descendants() if isinstance(n, lily.Note)]:
            block = self.find_block(n)
            if self.expected is None or n.pos is None:
                if block is not None:
                    self.errors.append("find_block() without a document gives %r" % block)
            elif block is None or not block.pos <= n.pos <= block.pos + len(block.text()):
                self.errors.append("find_block() for %r at %d gives %r" % (n, n.pos, block))
            self.seen.append(n)
        for n in self.seen:
            n.octave += 1
        return self.seen


def _options(g):
    kind = g.int(4, 10)
    return source(g, kind), g.choice(['none', 'none', 'some', 'some', 'some', 'tail', 'empty']), g.int(0, 200), g.int(0, 60), g.chance(40), g.chance(40), g.chance(15)


@sub('C18', 'options', lambda: G.strategy(_options), 1500, 40000)
def c18_options(case, ctx):
    """What an Edit gets, with its options, from a cursor with and without selection."""
    text, kind, i, j, from_root, from_cursor, readonly = case
    dom = read.lily_document(text, True)
    nodes = [n for n in music_nodes(dom)]
    if not nodes:
        return
    i %= len(nodes)
    first, last = nodes[i], nodes[min(i + j, len(nodes) - 1)]
    pos, end = first.pos, max(first.end, last.end)
    for n in nodes:
        if isinstance(n, lily.Durable) and (n.pos < pos < n.end or n.pos < end < n.end):
            pos, end = min(pos, n.pos), max(end, n.end)
    d = lydoc(text)
    cursor = parce.Cursor(d)
    if kind == 'none':
        if from_cursor and j % 3:       # anywhere, also inside or after all music
            pos = (i * 61 + j) % (len(text) + 1) if j % 3 == 1 else text.rfind(text.strip()[-1:]) + 1
            pos = min([n.pos for n in nodes if isinstance(n, lily.Durable) and n.pos < pos < n.end], default=pos)
        cursor.select(pos)
        if from_cursor:
            lo, hi = pos, len(text)
        else:
            lo, hi = 0, len(text)
    elif kind == 'tail':
        cursor.select(pos, None)
        lo, hi = pos, len(text)
    elif kind == 'empty':       # a selection in which nothing is found
        k = min(n.pos for n in nodes)
        lo = hi = 0
        if k:
            cursor.select(0, k)
            lo, hi = 0, k
    else:
        cursor.select(pos, end)
        lo, hi = pos, end
    e = Raise(d, **{k: True for k, v in (('range_from_root', from_root), ('range_from_cursor', from_cursor), ('readonly', readonly)) if v})   # they are off by default
    if kind == 'empty' and not lo < hi:
        lo, hi = 0, len(text)
    result = e.edit(cursor)
    new = d.text()
    where = "%s selecting %r in %r (range_from_root=%r, range_from_cursor=%r, readonly=%r): %r" % (
        kind, text[cursor.pos:cursor.end] if cursor.has_selection() else cursor.pos, text, from_root, from_cursor, readonly, new)
    expect(result is e.seen, "the result of edit_range() is not returned, " + where)
    expect(not e.errors, "%s, %s", e.errors[:1], where)
    expect(e.document() is None and e.find_block(dom) is None, "document() after the edit, " + where)
    if from_root:
        expect(e.root, "the range does not start at the root, " + where)
    notes = [n for n in dom.descendants() if isinstance(n, lily.Note)]
    inside = [lo <= n.pos and n.end <= hi for n in notes]
    same([n.pos for n in e.seen], [n.pos for n, x in zip(notes, inside) if x], "notes in the range, " + where)
    ctx.nontrivial(len(set(inside)) == 2)
    ctx.label(kind)
    if readonly:
        same((new, e.changes()), (text, 0), "readonly, " + where)
        return
    expect((e.changes() > 0) == any(inside), "%d changes, %s", e.changes(), where)
    same(new == text, not any(inside), "unchanged, " + where)
    if any(inside):
        expect(new.startswith(text[:lo]), "text before the selection, " + where)
        expect(new.endswith(text[hi:]), "text after the selection, " + where)
    now = [n for n in read.lily_document(new).descendants() if isinstance(n, lily.Note)]
    same([n.octave for n in now], [n.octave + x for n, x in zip(notes, inside)], "octaves, " + where)
    # the document as a whole, the tree
    d = lydoc(text)
    e = Raise(d, range_from_root=from_root)
    e.edit(d)
    dom = read.lily_document(text, from_root)
    f = Raise(None, range_from_root=from_root)
    f.edit(dom)
    expect(not e.errors and not f.errors, "%s, %s", (e.errors + f.errors)[:1], where)
    same((len(e.seen), len(f.seen)), (len(notes), len(notes)), "number of notes, " + where)
    if i % 4 == 0:      # a document that is still being read in the background
        b = parce.Document(LilyPond.root, text, transformer=True)
        e = Raise(b, range_from_root=from_root)
        e.edit(b)
        same((b.text(), len(e.seen)), (d.text(), len(notes)), "document with a background worker, " + where)
    for other in (text, None, dom.write, [dom]):
        try:
            e.edit(other)
        except TypeError:
            pass
        else:
            fail("editing %r, which is no music" % (other,))
    same_tree(norm(dom.write()), norm(d.text()), "tree and document, " + where)
