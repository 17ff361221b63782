"""C24: the DOM tree of a parce document follows every change of the text."""
from fractions import Fraction

import parce

from . import g as G
from . import gen_lily, gen_music, gen_rhythm, gen_text
from .core import expect, fail, rule, same, sub
from .lib import document, Html, Latex, LilyPond, Scheme, lily, read, same_head, show

from quickly import relative, rhythm
from quickly.pitch import Pitch
from quickly.transpose import Transposer, transpose

rule('C24', "at least two changes were made, and the text has at least 12 tokens after every change")

SNIPPETS = [' ', '\n', 'c', "d'4", ' <c e>4-. ', '-.', '(', ')', '4', '.', '\\f', ' { c d } ', ' % x\n', ' \\markup { a } ', '"s"',
            '\\foo ', ' \\relative c\' { c } ', '^"x"', '*2/3', ' | ', ',', '#red ', ' \\tweak color #red ', '\\new Voice ', ' r2 ',
            ' <>', '~', '!', '\\rest', '_', ' \\override A.b = #1 ', '=\'']
UNTRANSFORMED = ('css_style_attribute', 'css_style_tag', 'doctype', 'internal_dtd', 'script_tag')
BROKEN = ['{', '}', '<', '>', '"', '%{', '%}', '\\', '#', '<<', '>>', '\\lyricmode', '\\drummode {', '#{', '#}', '(', '@']


def tokens(root):
    """The structure of a parce tree."""
    def ctx(c):
        return (c.lexicon.fullname if c.lexicon else None, repr(c.lexicon.arg) if c.lexicon else None,
                [ctx(n) if n.is_context else (n.pos, n.text, n.action, n.group) for n in c])
    return ctx(root)


def same_tree_pos(a, b, what):
    stack = [(a, b)]
    while stack:
        x, y = stack.pop()
        if type(x) is not type(y) or len(x) != len(y) or not same_head(x.head, y.head) or (x.pos, x.end) != (y.pos, y.end):
            fail("%s: %r differs from %r\n%s\n-- versus\n%s", what, x, y, show(a)[:1500], show(b)[:1500])
        for c in x:
            expect(c.parent is x, "%s: wrong parent of %r", what, c)
        stack.extend(zip(x, y))


def compare(doc, lexicon, reader, what):
    dom = doc.get_transform(True)
    text = doc.text()
    what = '%s; text is now %r' % (what, text)
    if tokens(doc.get_root(True)) != tokens(parce.root(lexicon, text)):
        return False                # parce's incremental tokenizer gave another result
    if dom is None and not text:
        return True                 # a document that was always empty
    same_tree_pos(dom, reader(text, True), what)
    expect(not any(p.modified for p in dom.points()), "modified nodes in %s", what)
    return True


def untransformed(root):
    return any(n.is_context and (n.lexicon.name in UNTRANSFORMED or untransformed(n)) for n in root)


def change(g, broken):
    k = g.int(0, 3)
    ins = '' if k == 0 else ''.join(g.choice(SNIPPETS + BROKEN * broken) for _ in range(g.int(1, 2)))
    return (g.int(0, 200), 0 if k == 3 else g.int(0, 12), ins)


def steps(g, broken):
    return [[change(g, broken) for _ in range(1 if g.chance(80) else 2)] for _ in range(g.int(1, 4))]


def run(case, ctx, lexicon, reader):
    text, script = case
    doc = document(lexicon, text)
    compare(doc, lexicon, reader, 'initial %r' % text)
    big = True
    for changes in script:
        if lexicon is Html.root and untransformed(doc.get_root(True)):
            ctx.label('parts that are not transformed')
            return                  # parce.Transformer.invalidate_node() raises KeyError then
        n = len(doc.text())
        todo = {}
        for pos, rem, ins in changes:
            pos = pos * n // 200
            todo[pos] = (min(pos + rem, n), ins)
        with doc:
            last = n + 1
            for pos in sorted(todo, reverse=True):
                end, ins = todo[pos]
                end = min(end, last)
                doc[pos:end] = ins
                last = pos
        if not compare(doc, lexicon, reader, 'after %r to %r' % (script, text)):
            ctx.label('tokenizer differs')
            return
        big = big and sum(1 for _ in doc.get_root(True).tokens()) >= 12
    ctx.nontrivial(len(script) > 1 and big)


def _lily(g):
    text = gen_lily.lily_document(g, g.choice([0, 1, 2])) if g.chance(60) else gen_music.text(g)
    return text, steps(g, 0)


@sub('C24', 'lilypond', lambda: G.strategy(_lily), 1600)
def c24_lilypond(case, ctx):
    run(case, ctx, LilyPond.root, read.lily_document)


@sub('C24', 'broken', lambda: G.strategy(lambda g: (_lily(g)[0], steps(g, 1))), 1000)
def c24_broken(case, ctx):
    """Also changes that leave brackets, strings or comments open."""
    run(case, ctx, LilyPond.root, read.lily_document)


# ---- music edits in between ----------------------------------------------------------------------

EDITS = {
    'remove durations': lambda c, n: rhythm.remove(c),
    'transform': lambda c, n: rhythm.transform(c, [0, 1, -1][n % 3], [0, 1, -1, 2][n % 4], [1, 2, Fraction(2, 3)][n % 5 % 3]),
    'explicit': lambda c, n: rhythm.explicit(c),
    'implicit': lambda c, n: rhythm.implicit(c, n % 2 == 1),
    'remove scaling': lambda c, n: rhythm.remove_scaling(c),
    'remove fraction scaling': lambda c, n: rhythm.remove_fraction_scaling(c),
    'copy and paste': lambda c, n: rhythm.paste(c, rhythm.copy(c, n % 3 == 0)[n % 4:], n % 2 == 0),
    'paste': lambda c, n: rhythm.paste(c, RHYTHMS[n % len(RHYTHMS)], n % 2 == 0),
    'rel2abs': lambda c, n: relative.rel2abs(c),
    'abs2rel': lambda c, n: relative.abs2rel(c),
    'transpose': lambda c, n: transpose(c, Transposer(Pitch(0, 0, 0), Pitch(n % 3 - 1, n % 7, 0))),
    'nodes': lambda c, n: nodes(c, n),
}
RHYTHMS = [
    [(Fraction(1, 4), 1)],
    [(Fraction(1, 8), 1), None, (Fraction(3, 4), 2)],
    [(Fraction(1, 2), Fraction(2, 3)), (Fraction(1, 16), 1)],
]


def nodes(cursor, n):
    """Write modifications to the tree itself: change a note, remove one, add one."""
    doc = cursor.document()
    tree = doc.get_transform(True)
    notes = [x for x in tree.descendants() if isinstance(x, lily.Note) and isinstance(x.parent, lily.MusicList)] if tree is not None else ()
    if notes:
        x = notes[n % len(notes)]
        if n % 3 == 0:
            x.octave += 1
        elif n % 3 == 1:
            x.parent.remove(x)
        else:
            x.parent.insert(x.parent.index(x), lily.Rest(duration=Fraction(1, 2)))
        tree.edit(doc)


def _mixed(g):
    text = gen_music.text(g, ('relative', 'fixed', 'key', 'comments'), g.int(0, 2)) if g.chance(50) else gen_rhythm.text(g, (), g.int(0, 2))
    out = []
    for _ in range(g.int(1, 5)):
        if g.chance(60):
            out.append((g.choice(list(EDITS)), g.int(0, 20), g.choice([None, None, (g.int(0, 200), g.int(0, 60))])))
        else:
            out.append(change(g, 0))
    return text, out


@sub('C24', 'edits', lambda: G.strategy(_mixed), 1500)
def c24_edits(case, ctx):
    """Music edits and changes of the text in turn."""
    text, script = case
    doc = document(LilyPond.root, text)
    compare(doc, LilyPond.root, read.lily_document, 'initial %r' % text)
    done = 0
    for step in script:
        n = len(doc.text())
        before = doc.text()
        if isinstance(step[0], str):
            name, value, selection = step
            cursor = parce.Cursor(doc)
            if selection:
                pos = selection[0] * n // 200
                cursor.select(pos, min(n, pos + selection[1]))
            try:
                EDITS[name](cursor, value)
            except (IndexError, KeyError):      # a duration that can't be written, longer than \\maxima; a pitch name of another language
                ctx.label('impossible edit')
                return
            done += doc.text() != before
            if not compare(doc, LilyPond.root, read.lily_document, 'after %r in %r, was %r' % (step, script, before)):
                ctx.label('tokenizer differs')
                return
        else:
            pos, rem, ins = step
            pos = pos * n // 200
            doc[pos:min(pos + rem, n)] = ins
            if not compare(doc, LilyPond.root, read.lily_document, 'after %r in %r, was %r' % (step, script, before)):
                ctx.label('tokenizer differs')
                return
    ctx.label('%d edits wrote something' % done)
    ctx.nontrivial(done and len(script) > 1)


# ---- the other languages -------------------------------------------------------------------------

def _other(lang):
    def change(g):
        k = g.int(0, 3)
        ins = '' if k == 0 else ''.join(gen_text.token(g, lang) for _ in range(g.int(1, 2)))
        return (g.int(0, 200), 0 if k == 3 else g.int(0, 12), ins)
    return lambda: G.strategy(lambda g: (
        gen_text.valid(g, lang), [[change(g) for _ in range(1 if g.chance(80) else 2)] for _ in range(g.int(1, 4))]))


@sub('C24', 'scheme', _other('scheme'), 600)
def c24_scheme(case, ctx):
    run(case, ctx, Scheme.root, read.scm_document)


@sub('C24', 'html', _other('html'), 800)
def c24_html(case, ctx):
    run(case, ctx, Html.root, read.htm_document)


@sub('C24', 'latex', _other('latex'), 800)
def c24_latex(case, ctx):
    run(case, ctx, Latex.root, read.tex_document)
