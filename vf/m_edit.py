"""C06: writing modifications back to the text."""
import copy
import re
from fractions import Fraction

from . import g as G, gen_lily, gen_music, gen_rhythm, gen_scheme, gen_text
from .core import expect, fail, rule, same, sub
from .lib import Html, Latex, LilyPond, Scheme, base, document, lily, read, same_head, scm, show

from quickly.dom import element, htm, tex, util

rule('C06', "the tree has at least 8 nodes, and at least one modification was made (or the text has at least two comments or line breaks)")


ROOTS = {'lilypond': LilyPond.root, 'scheme': Scheme.root, 'html': Html.root, 'latex': Latex.root}


def pieces(node, text):
    """Yield (node, what, pos, end, text) for every piece of text of the tree."""
    if isinstance(node, base.Unknown):
        yield node, 'head', node.pos, node.end, text[node.pos:node.end]
        return
    try:
        o = node.head_origin
    except AttributeError:
        o = ()
    head = node.write_head()
    if o:
        yield node, 'head', o[0].pos, o[-1].end, head
    elif head:
        yield node, 'head', None, None, head
    for n in node:
        yield from pieces(n, text)
    try:
        o = node.tail_origin
    except AttributeError:
        o = ()
    tail = node.write_tail()
    if o:
        yield node, 'tail', o[0].pos, o[-1].end, tail
    elif tail:
        yield node, 'tail', None, None, tail


def loose(text):
    r"""A regular expression for new text; it may be spread."""
    return r'\s*' * text[:1].isspace() + r'\s*'.join(re.escape(c) for c in ''.join(text.split())) + r'\s*' * text[-1:].isspace()


def pattern(text, before, after, values):
    """The regular expression the new text must match, from the pieces of text before and after."""
    old = {(p, e, w): (p, e, t) for n, w, p, e, t in before}
    spans = sorted((p, e) for p, e, t in old.values())
    rank = {p: i for i, (p, e) in enumerate(spans)}
    out = []
    gap = False             # something was inserted or removed here
    prev = -1               # number of the last existing piece
    last_end = 0
    for n, w, p, e, t in after:
        if p is None:
            out += [r'\s*', loose(t), r'\s*']
            gap = True
            continue
        i = rank[p]
        if i <= prev:
            # moved: the order of the text is not the order of the tree
            out += [r'\s*', loose(t), r'\s*']
            gap = True
            continue
        space = text[last_end:p]
        if i == prev + 1 and not gap and (space or not out or out[-1] != '~'):
            out.append(re.escape(space))
        else:
            out.append(r'\s*')
        if old[p, e, w][2] == t and id(n) not in values:
            out.append(re.escape(text[p:e]))
        else:
            out += [loose(t), '~']
        gap, prev, last_end = False, i, e
    space = text[last_end:]
    out.append(re.escape(space) if prev == len(spans) - 1 and not gap else r'\s*')
    out = [x for i, x in enumerate(out) if x != '~' and not (x == r'\s*' and i and out[i - 1] == x)]
    return ''.join(out)


def tree_same(a, b):
    stack = [(a, b)]
    while stack:
        x, y = stack.pop()
        if type(x) is not type(y) or len(x) != len(y):
            return False
        if not same_head(x.head, y.head):
            # whitespace at the end of the line may become part of the comment
            if not isinstance(x, base.SinglelineComment) or x.head.rstrip() != y.head.rstrip():
                return False
        stack.extend(zip(x, y))
    return True


#: new values for the heads of elements
VALUES = {
    lily.Octave: [1, 2, -1, -3],
    lily.Duration: [Fraction(1, 8), Fraction(3, 32), Fraction(2), Fraction(1, 4)],
    lily.DurationScaling: [Fraction(2, 3), Fraction(3), Fraction(1, 7)],
    lily.Accidental: ['forced', 'cautionary'],
    lily.String: ['new', 'a "b" \\ c', '', 'two words', '% no {'],
    lily.Int: [3, 42, 0],
    lily.MarkupWord: ['word', 'x-y'],
    lily.LyricText: ['la', 'foo'],
    lily.Note: ['d', 'fis', 'bes', 'c'],
    lily.Tie: [],
    scm.Number: [1, 34, 0.5, -2],
    scm.Bool: [True, False],
    scm.Identifier: ['foo', 'ly:bar', 'a-b'],
    scm.String: ['new', 'a "b" \\ c', ''],
    scm.Hex: [31, 4],
    lily.Fraction: [(3, 8), (2, 2), (5, 4)],
    lily.Clef: [],
    lily.SinglelineComment: [' new', '% x'],
    lily.MultilineComment: [' new ', ' a\n  b '],
    scm.SinglelineComment: [' new', ';x'],
    lily.Symbol: ['sym', 'otherName'],
    htm.Text: ['new', 'some words', ' x < y & z ', 'a\nb', 'é'],
    htm.Comment: [' new ', 'x\ny'],
    htm.EntityRef: ['amp', '#123', 'euml'],
    htm.CData: ['x', 'a <b>'],
    htm.AttrName: ['class', 'my-id'],
    htm.TagName: ['p', 'b'],
    htm.Number: [12, 2.5],
    tex.Text: ['new', 'some words', 'é'],
    tex.Comment: [' new', 'x'],
    tex.Command: ['foo', 'bar'],
    tex.EnvironmentName: ['quote', 'figure*'],
}

#: names that determine how the contents is read
EMBEDS = ('lilypond', 'lilypondfile', 'musicxmlfile', 'begin', 'end', 'math', 'displaymath', 'equation', 'style', 'script')

MUSIC = ["c'4", 'r8', '<c e>2-.', '{ d e }', "\\relative c' { c }", '\\key d \\minor', '\\clef bass', 's1*3/4', '\\tempo 4 = 60', '|',
         'd^"text"_\\markup { x }', '% new comment\nf', '<< c d >>', '\\tuplet 3/2 { c d e }', 'c-\\tweak color #red ->', '\\new Staff { g }',
         '\\override NoteHead.color = #red', '\\foo', '#(bar "x")', '\\times 2/3 { c }', 'g1 % last\n']
TOP = ['{ c }', 'foo = { d }', 'bar = 4', '\\markup { x }', '\\version "2.24.0"', '% new\n', '\\score { { c } }', '\\header { title = "x" }', '#(define x 1)']
MARKUP = ['word', '"a b"', '\\bold x', '{ y z }', '\\column { a b }', '#(x)']
ASSIGN = ['new = 4', 'title = "New"', 'foo = \\markup { x }', 'line-width = 40\\mm']
SCHEME = ['1', '(a b)', "'foo", '"str"', '#t', '(lambda (x) x)']


def new_nodes(target, n):
    """New nodes that can be a child of the target, without origin."""
    if isinstance(target, lily.MusicList):
        return read.lily_document('{ %s }' % MUSIC[n % len(MUSIC)])[0][:]
    if isinstance(target, lily.Document):
        return read.lily_document(TOP[n % len(TOP)])[:]
    if isinstance(target, lily.MarkupList):
        return read.lily_document('\\markup { %s }' % MARKUP[n % len(MARKUP)])[0][0][:]
    if isinstance(target, (lily.Header, lily.Paper)):
        k = ASSIGN[n % len(ASSIGN)]
        return read.lily_document(('\\header { %s }' if isinstance(target, lily.Header) else '\\paper { %s }') % k)[0][:]
    if isinstance(target, (scm.List, scm.Vector)):
        return read.scm_document('(%s)' % SCHEME[n % len(SCHEME)])[0][:]
    if isinstance(target, lily.ChordBody):
        return read.lily_document('<%s>' % ["c'", 'd!', 'e-1'][n % 3])[0][0][:]
    if isinstance(target, lily.Articulations):
        return read.lily_document('{ c%s }' % ['-.', '^"x"', '\\p', '(', '_\\markup x'][n % 5])[0][0][0][:]
    return []


LISTS = (lily.MusicList, lily.Document, lily.MarkupList, lily.Header, lily.Paper, scm.List, scm.Vector, lily.ChordBody, lily.Articulations)
REMOVABLE = LISTS + (htm.Element, htm.Document, htm.OpenTag, htm.SingleTag, tex.Document, tex.Option, tex.Brace, tex.Environment, tex.Command, lily.Layout, lily.Score, lily.Book, lily.With, lily.Chord, lily.Note, lily.Rest, lily.Space, lily.Durable, lily.Tag)


def candidates(dom, kind):
    nodes = [n for n in dom.descendants()]
    if kind == 'value':
        return [n for n in nodes if VALUES.get(type(n)) and getattr(n, 'head_origin', None)
                and not (isinstance(n, (htm.TagName, tex.Command, tex.EnvironmentName)) and n.head in EMBEDS)]
    if kind == 'remove':
        return [n for n in nodes if isinstance(n.parent, REMOVABLE) and not isinstance(n, (htm.TagName, tex.EnvironmentName))]
    if kind == 'insert':
        return [n for n in [dom] + nodes if isinstance(n, LISTS)]
    if kind == 'dur':
        return [n for n in nodes if isinstance(n, lily.Durable)]
    if kind == 'oct':
        return [n for n in nodes if isinstance(n, lily.Pitchable)]


def apply(dom, op):
    """Do a modification; returns the kind if something was done."""
    kind, a, b, c = op
    if kind == 'replace':
        found = [n for n in candidates(dom, 'remove') if isinstance(n.parent, LISTS)]
        if found:
            n = found[a % len(found)]
            new = new_nodes(n.parent, c)
            if new:
                n.replace_with(new[0])
                return kind
        return
    if kind == 'move':
        found = candidates(dom, 'remove')
        if found and not any(dom // base.Unknown):      # those can not be moved
            n = found[a % len(found)]
            below = {id(x) for x in n.descendants()}
            targets = [n.parent] * 3 + [t for t in [dom, *dom.descendants()] if type(t) is type(n.parent) and t is not n and id(t) not in below]
            t = targets[b % len(targets)]
            how = c % 4
            if how == 0:
                n.parent.reverse()
            elif how == 1:
                n = n.copy()
                t.insert(b % (len(t) + 1), n)
            else:
                n.parent.remove(n)
                t.insert(b % (len(t) + 1), n)
            return kind
        return
    found = candidates(dom, kind)
    if not found:
        return
    n = found[a % len(found)]
    if kind == 'value':
        values = [v for v in VALUES[type(n)] if v != n.head]
        n.head = values[b % len(values)]
        return n
    elif kind == 'remove':
        n.parent.remove(n)
    elif kind == 'insert':
        i = b % (len(n) + 1)
        new = new_nodes(n, c)
        n[i:i] = new
        if not new:
            return
    elif kind == 'dur':
        if b % 4 == 0:
            del n.duration
        else:
            n.duration = [Fraction(1, 8), Fraction(3, 4), Fraction(1, 2)][b % 4 - 1]
            if c % 3 == 0:
                n.scaling = Fraction(2, 3)
    elif kind == 'oct':
        n.octave = b % 5 - 2
    return kind


def check_step(doc, reader, script, ctx):
    """Apply modifications to the tree of the document, write them back and check the text."""
    text = doc.text()
    dom = doc.get_transform(True)
    before = list(pieces(dom, text))
    done = [k for k in (apply(dom, op) for op in script) if k]
    values = {id(n) for n in done if not isinstance(n, str)}
    structure = [k for k in done if isinstance(k, str)]
    after = list(pieces(dom, text))
    writable = dom
    unknown = any(dom // base.Unknown)
    if unknown:
        writable = dom.copy_with_origin()
        util.replace_unknown(writable, text)
    rebuilt = reader(writable.write())
    if not tree_same(dom, rebuilt):
        ctx.label('modified tree can not be written')
        return None
    want = pattern(text, before, after, values)
    if unknown:         # parce can't change such a document: Transformer.invalidate_node() raises KeyError
        changes = list(dom.edits(doc.get_root(True), source=text))
        n, new = len(changes), text
        for pos, end, t in reversed(changes):
            new = new[:pos] + t + new[end:]
        # the tree with the parts filled in knows where they are
        filled = text
        for pos, end, t in reversed(list(writable.edits(doc.get_root(True), source=text))):
            filled = filled[:pos] + t + filled[end:]
        same(filled, new, "text after %r, when the parts that are not transformed are replaced with text" % (script,))
        for a, b in zip(dom.descendants(), writable.descendants()):
            same((a.pos, a.end), (b.pos, b.end), "range of %r, when the parts that are not transformed are replaced with text" % a)
        doc = document(doc.root_lexicon(), new)
    else:
        n = dom.edit(doc)
        new = doc.text()
    where = "%r becomes %r after %r" % (text, new, script)
    reread = reader(new)
    if not tree_same(reread, dom):
        fail("%s; it reads as\n%s\ninstead of\n%s", where, show(reread), show(dom))
    if want is None:
        ctx.label('text order')
    else:
        expect(re.fullmatch(want, new), "unmodified text is not preserved: %s; pattern %s", where, want)
    if not structure:
        # sometimes a space is added after a value
        expect(len(values) <= n <= 2 * len(values), "%d changes instead of %d reported: %s", n, len(values), where)
    expect(n > 0 or new == text, "no changes reported, but %s", where)
    if any(n.write_tail() and not getattr(n, 'tail_origin', None) for n in doc.get_transform(True).descendants() if isinstance(n, element.BlockElement)):
        ctx.label('broken text')        # e.g. the end of an environment was removed; a missing closing bracket is added when writing back
        return None
    # writing back the tree that is now read changes nothing
    again = doc.get_transform(True).edit(doc)
    same(doc.text(), new, "writing the new tree")
    # (an element that gets its old value again is called modified)
    if new != text and (len(script) == 1 and 'dur' not in structure and 'oct' not in structure or not values and set(structure) <= {'remove', 'insert', 'replace', 'move'}):
        same(again, 0, "number of changes, writing a tree that was not modified: " + where)
    elif again:
        return None
    for k in structure + ['value'] * bool(values):
        ctx.label(k)
    if unknown:
        ctx.label('parts that are not transformed')
        if done:
            ctx.nontrivial(len(before) >= 8)
        return None
    return len(done)


def ops(g, kinds=('value', 'value', 'remove', 'insert', 'replace', 'dur', 'oct'), hi=3):
    return [(g.choice(kinds), g.int(0, 300), g.int(0, 40), g.int(0, 40)) for _ in range(g.int(1, hi))]


def lily_text(g):
    k = g.int(0, 9)
    text = gen_lily.lily_document(g, g.choice([0, 1, 2, 2])) if k < 5 else gen_music.text(g) if k < 7 else gen_rhythm.text(g)
    return re.sub(r'#\\x[0-9a-f]+', '#\\\\x', text)        # parce does not know hexadecimal characters


def run(case, ctx, lexicon, reader):
    script, text = case
    doc = document(lexicon, text)
    dom = doc.get_transform(True)
    if dom is None:
        return
    ctx.label('nodes<8' if sum(1 for _ in dom.descendants()) < 8 else 'nodes>=8')
    same((dom.edit(doc), doc.text()), (0, text), "writing an unmodified tree")
    done = 0
    for step in script:
        if not len(doc.get_transform(True)):
            break
        k = check_step(doc, reader, step, ctx)
        if k is None:
            break
        done += k
    ctx.nontrivial(done and sum(1 for _ in dom.descendants()) >= 8)


@sub('C06', 'values', lambda: G.strategy(lambda g: ([ops(g, ['value'], 4)], lily_text(g))), 1600)
def c06_values(case, ctx):
    run(case, ctx, LilyPond.root, read.lily_document)


@sub('C06', 'history', lambda: G.strategy(lambda g: ([ops(g) for _ in range(g.int(1, 3))], lily_text(g))), 2000)
def c06_history(case, ctx):
    run(case, ctx, LilyPond.root, read.lily_document)


@sub('C06', 'structure', lambda: G.strategy(lambda g: ([ops(g, ['remove', 'insert', 'replace', 'remove'])], lily_text(g))), 2000)
def c06_structure(case, ctx):
    run(case, ctx, LilyPond.root, read.lily_document)


@sub('C06', 'moves', lambda: G.strategy(lambda g: ([ops(g, ['move', 'move', 'remove', 'insert', 'value'])], lily_text(g))), 1500)
def c06_moves(case, ctx):
    run(case, ctx, LilyPond.root, read.lily_document)


def scheme_text(g):
    text = ''.join(gen_scheme.expr(g, 3, True) + gen_scheme.sep(g, True) for _ in range(g.int(1, 3)))
    return re.sub(r'#\\x[0-9a-f]+', '1', text)        # parce does not know hexadecimal characters


@sub('C06', 'scheme', lambda: G.strategy(lambda g: ([ops(g, ['value', 'remove', 'insert', 'replace', 'move']) for _ in range(g.int(1, 2))], scheme_text(g))), 1000)
def c06_scheme(case, ctx):
    run(case, ctx, Scheme.root, read.scm_document)


def _host(lang):
    def gen(g):
        text = ''
        for _ in range(4):
            text = gen_text.valid(g, lang)
            if len(text) > 20:
                break
        return [ops(g, ['value', 'value', 'remove', 'move', 'insert', 'replace', 'dur', 'oct'][:g.choice([1, 4, 8])]) for _ in range(g.int(1, 2))], text
    return lambda: G.strategy(gen)


@sub('C06', 'html', _host('html'), 800, 20000)
def c06_html(case, ctx):
    run(case, ctx, Html.root, read.htm_document)


@sub('C06', 'latex', _host('latex'), 800, 20000)
def c06_latex(case, ctx):
    run(case, ctx, Latex.root, read.tex_document)


# ---- nothing modified ----------------------------------------------------------------------------

@sub('C06', 'unmodified', lambda: G.strategy(lambda g: (lambda lang: (lang, gen_text.valid(g, lang)))(g.choice(gen_text.LANGS))), 3000, 60000)
def c06_unmodified(case, ctx):
    lang, text = case
    doc = document(ROOTS[lang], text)
    tree = doc.get_transform(True)
    if tree is None:
        return
    same(tree.edit(doc), 0, "number of changes to %r" % text)
    same(doc.text(), text, "text")
    # also for every child on its own
    for n in tree:
        if n.pos is not None:
            same(n.edit(doc, start=n.pos, end=n.end), 0, "number of changes by %r to %r" % (n, text))
            same(doc.text(), text, "text after editing via %r" % n)
    # giving every element the value it has is no modification
    for n in tree.descendants():
        if isinstance(n, element.TextElement) and n.head == n.head:     # not NaN
            n.head = copy.copy(n.head)
    same(tree.edit(doc), 0, "number of changes after setting the same values in %r" % text)
    same(doc.text(), text, "text after setting the same values")
    ctx.label(lang)
    ctx.nontrivial(sum(1 for _ in tree.descendants()) >= 8)


# ---- only a part of the tree is written ----------------------------------------------------------

def _part(g):
    return g.int(0, 300), ops(g), ops(g, ['value', 'remove', 'insert']), g.chance(50), lily_text(g)


@sub('C06', 'part', lambda: G.strategy(_part), 1200, 40000)
def c06_part(case, ctx):
    """Writing one element, within its own range, does the same as writing the full tree, but nothing outside the element."""
    index, inside, outside, use = case[:4]
    text = case[4]

    def edit(part):
        """Modify the tree; returns node, modifications inside, modifications outside, number of changes, text."""
        doc = document(LilyPond.root, text)
        dom = doc.get_transform(True)
        found = [n for n in dom.descendants() if getattr(n, 'head_origin', None) and getattr(n, 'tail_origin', None)]
        if not found:
            return None
        node = found[index % len(found)]
        start, end = node.pos, node.end
        done = [k for k in (apply(node, op) for op in inside) if k]
        other = 0
        if part and use:
            within = {id(n) for n in [node, *node.ancestors(), *node.descendants()]}
            for kind, a, b, c in outside:
                for i in range(a, a + 20):
                    found = [n for n in candidates(dom, kind) if id(n) not in within] if kind != 'insert' else [node.parent]
                    if kind != 'insert' and not found:
                        break
                    n = found[i % len(found)]
                    if kind == 'value':
                        n.head = VALUES[type(n)][b % len(VALUES[type(n)])]
                    elif kind == 'remove':
                        n.parent.remove(n)
                    elif isinstance(n, LISTS):
                        new = new_nodes(n, c)
                        k = n.index(node) + (b & 1)
                        n[k:k] = new
                    other += 1
                    break
        n = node.edit(doc, start=start, end=end) if part else dom.edit(doc)
        return (start, end), len(done), other, n, doc.text()

    a = edit(False)
    if not a:
        return
    b = edit(True)
    where = "%r, modifying %r with %r" % (text, text[slice(*a[0])], inside)
    same(b[4], a[4], "text after writing only the element, and after writing the document: " + where)
    same(b[3], a[3], "number of changes: " + where)
    expect(a[4].startswith(text[:a[0][0]]) and a[4].endswith(text[a[0][1]:]), "%r has changes outside the element: %s", a[4], where)
    ctx.nontrivial(a[1] > 0 and a[4] != text)
    ctx.label('modified outside' if b[2] else 'modified inside')
