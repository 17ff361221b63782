"""C14: transposing music."""
from fractions import Fraction

from . import g as G
from . import gen_music
from .core import expect, fail, rule, same, sub
from .lib import lily, lydoc, parce, read
from .sound import P, Interpreter, height, mask, shift

from quickly.pitch import Pitch
from quickly.transpose import Transpose, Transposer

rule('C14', "at least four pitches are transposed, and a mode other than plain absolute notes, or a selection, is involved")


def interval(g):
    alters = [0, 0, Fraction(1, 2), Fraction(-1, 2)]
    a = (g.int(-1, 1), g.int(0, 6), g.choice(alters))
    b = (a[0] + g.choice([0, 0, 0, -1, 1, -2, 2]), g.int(0, 6), g.choice(alters))
    return a, b


def quick(p):
    return Pitch(p[0], p[1], p[2])


def compare(before, after, a, b, selected, where):
    """before/after: interpreters; selected(event) -> True, False or None (either)."""
    same([e.kind for e in after.events], [e.kind for e in before.events], "kinds of pitches %s" % where)
    a, b = P(*a), P(*b)
    dirty, changed = set(), 0
    for e, f in zip(before.events, after.events):
        sel = selected(e)
        w = "%s %r written %r %s" % (e.kind, e.node.head, f.node.write(), where)
        if e.kind in ('from', 'to', 'fixed'):
            continue                        # not sounding themselves; they are checked by what they do to the notes
        moved = shift(e.pitch, a, b)
        if e.kind == 'tuning':
            same(f.pitch, e.pitch, w)
        elif e.kind in ('class', 'bass'):
            want = moved if sel else e.pitch
            if sel is not None:
                same((height(f.pitch) + f.outer) % 6, (height(want) + e.outer) % 6, "pitch class of " + w)
                if not sel or abs(moved.alter) <= 1:
                    same((f.pitch.step, f.pitch.alter), (want.step, want.alter), w)
                same(marks_of(f.node), marks_of(e.node), "octave marks of " + w)
        else:
            if sel is None:
                dirty.add(e.block)
                continue
            if not sel and e.block is not None and e.block in dirty:
                same((f.pitch.step, f.pitch.alter), (e.pitch.step, e.pitch.alter), w)
                continue
            want = moved if sel else e.pitch
            same(height(f.pitch) + f.outer, height(want) + e.outer, "sounding height of " + w)
            if not sel or abs(moved.alter) <= 1:
                same(f.pitch, want, w)
            if sel and e.block is not None:
                dirty.add(e.block)
            changed += bool(sel)
    return changed


def marks_of(node):
    return sum(m.head for m in node if isinstance(m, lily.Octave))


CASES = G.strategy(lambda g: (gen_music.text(g, gen_music.ALL if g.chance(70) else g.subset(gen_music.ALL)), interval(g)))


@sub('C14', 'full', CASES, 1600, 60000)
def c14_full(case, ctx):
    """Transposing a whole document, and back again."""
    text, (a, b) = case
    T = Transposer(quick(a), quick(b))
    doc = lydoc(text)
    dom = read.lily_document(text, True)
    before = Interpreter(dom)
    expect(not before.checks, "generator made a wrong octave check: %r", before.checks)
    m = mask(text, dom)
    Transpose(T).edit_document(doc)
    new = doc.text()
    dom2 = read.lily_document(new, True)
    where = "after transposing %r to %r from %r to %r" % (text, new, a, b)
    after = Interpreter(dom2)
    n = compare(before, after, a, b, lambda e: True, where)
    expect(not after.checks, "wrong octave check %r %s", after.checks, where)
    same(mask(new, dom2), m, "everything but the pitches %s" % where)
    # and back
    Transpose(Transposer(quick(b), quick(a))).edit_document(doc)
    back = Interpreter(read.lily_document(doc.text(), True))
    same([sounds(e) for e in back.events if e.kind not in ('from', 'to', 'fixed')],
         [sounds(e) for e in before.events if e.kind not in ('from', 'to', 'fixed')],
         "sounding heights after transposing back to %r, %s" % (doc.text(), where))
    for word in ('\\relative', '\\fixed', '\\transpose', 'chord', '\\key', '\\octaveCheck', '\\language', '\\score'):
        ctx.label(word) if word in text else None
    ctx.nontrivial(n >= 4 and any(e.kind in ('start', 'from', 'fixed', 'class', 'bass', 'check') or e.block for e in before.events))


def sounds(e):
    h = height(e.pitch) + e.outer
    return (e.kind, h % 6 if e.kind in ('class', 'bass') else h)


SELECT = G.strategy(lambda g: (gen_music.text(g, gen_music.ALL if g.chance(70) else g.subset(gen_music.ALL)), interval(g), g.int(0, 60), g.int(0, 30), g.int(0, 3)))


@sub('C14', 'selection', SELECT, 1600, 60000)
def c14_selection(case, ctx):
    """Transposing a cursor selection that starts and ends at a pitch."""
    text, (a, b), i, n, spread = case
    doc = lydoc(text)
    dom = read.lily_document(text, True)
    before = Interpreter(dom)
    expect(not before.checks, "generator made a wrong octave check: %r", before.checks)
    pitches = [e.node for e in before.events]
    if not pitches:
        return
    i %= len(pitches)
    j = min(i + n, len(pitches) - 1)
    pos, end = pitches[i].pos, max(pitches[j].end, pitches[i].end)
    if spread & 1:                  # include whitespace
        while pos and text[pos - 1] in ' \n':
            pos -= 1
    if spread & 2:                  # include closing brackets
        while end < len(text) and text[end] in ' \n}':
            end += 1
    m = mask(text, dom)
    spans = {id(e.node): (e.node.pos, e.node.end) for e in before.events}
    heads = {id(e.node): e.node.write() for e in before.events}

    def selected(e):
        p, q = spans[id(e.node)]
        return True if pos <= p and q <= end else None if pos <= p < end else False
    which = [selected(e) for e in before.events]
    Transpose(Transposer(quick(a), quick(b))).edit_cursor(parce.Cursor(doc).select(pos, end))
    new = doc.text()
    dom2 = read.lily_document(new, True)
    where = "after transposing %r in %r to %r from %r to %r" % (text[pos:end], text, new, a, b)
    after = Interpreter(dom2)
    compare(before, after, a, b, selected, where)
    same(mask(new, dom2), m, "everything but the pitches %s" % where)
    same(new[:pos], text[:pos], "text before the selection")
    same(new[len(new) - len(text) + end:], text[end:], "text after the selection")
    for s, e, f in zip(which, before.events, after.events):
        if s is False and not f.node // lily.Pitchable:
            same(f.node.write(), heads[id(e.node)], "text of a pitch outside the selection, %s" % where)
    # failing octave checks only for notes that follow a changed one
    for node, _, _ in after.checks:
        expect(node.pos >= pos, "octave check before the selection fails %s", where)
    k = sum(1 for s in which if s)
    ctx.label('partial') if k < len(which) else None
    ctx.label('in relative') if any(s and e.block for s, e in zip(which, before.events)) else None
    ctx.nontrivial(k >= 2 and k < len(which))
