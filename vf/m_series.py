"""C27: a series of different music edits has the combined effect of the edits."""
from fractions import Fraction

import parce

from . import g as G
from . import gen_music
from .core import expect, fail, rule, same, sub
from .lib import element, lily, lydoc, read, base
from .m_relative import convertible
from .m_rhythm import SCALES, items, others, removable, transformed, line_of
from .m_transpose import interval, quick
from .sound import Interpreter, P, height

from quickly import rhythm
from quickly.dom import edit
from quickly.relative import Abs2rel, Rel2abs
from quickly.transpose import Transpose, Transposer

rule('C27', "at least three edits of at least two kinds (transposing, converting octaves, changing the rhythm) changed the text")

OPTS = gen_music.ALL

KINDS = {'transpose': 'pitch', 'absolute': 'entry', 'relative': 'entry', 'explicit': 'rhythm', 'implicit': 'rhythm', 'per-line': 'rhythm',
         'remove': 'rhythm', 'remove_scaling': 'rhythm', 'remove_fraction_scaling': 'rhythm', 'transform': 'rhythm', 'paste': 'rhythm'}


def step(g):
    k = g.weighted([(5, 'transpose'), (4, 'absolute'), (4, 'relative'), (2, 'explicit'), (2, 'implicit'), (1, 'per-line'), (2, 'remove'),
                    (1, 'remove_scaling'), (1, 'remove_fraction_scaling'), (3, 'transform'), (2, 'paste')])
    if k == 'transpose':
        return k, interval(g)
    if k == 'relative':
        return k, g.chance(60)
    if k == 'transform':
        return k, (g.int(0, 3) - 1, g.int(0, 2) - 1, g.choice(SCALES))
    if k == 'paste':
        return k, (g.many(lambda: None if g.chance(20) else (g.choice([Fraction(1, 4), Fraction(1, 8), Fraction(3, 8), Fraction(1, 2)]),
                                                             g.choice([1, 1, Fraction(2, 3)])), 1, 4), g.chance(50))
    return k, None


def series(g):
    return (gen_music.text(g, OPTS if g.chance(60) else g.subset(OPTS), g.int(1, 3)), [step(g) for _ in range(g.int(2, 5))],
            g.choice([None, None, None, True, False]))


def apply(music, op, first, shared=None):
    """Do one edit on a node, document or cursor."""
    name, arg = op
    if name == 'transpose':
        t = Transpose(Transposer(quick(arg[0]), quick(arg[1])), relative_first_pitch_absolute=first)
    elif name == 'absolute':
        t = Rel2abs(first_pitch_absolute=first)
    elif name == 'relative':
        t = Abs2rel(start_pitch=arg, first_pitch_absolute=first)
    elif name == 'per-line':
        return rhythm.implicit(music, True)
    elif name == 'transform':
        log, dots, scale = arg
        return rhythm.transform(music, log, dots, scale)
    elif name == 'paste':
        return rhythm.paste(music, arg[0], arg[1])
    else:
        return getattr(rhythm, name)(music)
    t.edit(music)


class State:
    """What is heard and written in a text."""
    def __init__(self, text, first):
        self.text = text
        self.dom = read.lily_document(text, True)
        self.interp = Interpreter(self.dom, first)
        self.sound = [sounding(e) for e in self.interp.events if e.kind not in ('start', 'check', 'from', 'to', 'fixed')]
        checked = set(id(p) for n in self.dom // lily.OctaveCheck for p in n // lily.Pitchable)
        self.items = [i for i in items(self.dom)]
        self.others = others(self.dom)
        self.relatives = sum(1 for n in self.dom // lily.Relative)
        self.convertible = len(convertible(self.dom))
        self.words = words(text, self.dom)


def sounding(e):
    h = height(e.pitch) + e.outer
    kind = 'note' if e.kind == 'chord' else e.kind
    return kind, h % 6 if kind in ('class', 'bass') else h, marks(e) if kind in ('class', 'bass') else None


def marks(e):
    return sum(m.head for m in e.node if isinstance(m, lily.Octave))


def words(text, dom):
    """All tokens but pitches, durations, \\relative with its start pitch, \\absolute and octave checks."""
    skip = set()

    def add(n):
        skip.update(o.pos for o in n.head_origin)
        skip.update(o.pos for o in getattr(n, 'tail_origin', ()))
    for n in dom // (lily.Pitchable, lily.Octave, lily.OctCheck, lily.Duration, lily.DurationScaling, lily.OctaveCheck, lily.Relative):
        add(n)
        if isinstance(n, lily.OctaveCheck):
            for c in n // element.Element:
                add(c)
        elif isinstance(n, lily.Relative):
            kids = [c for c in n if not isinstance(c, base.Comment)]
            if len(kids) > 1 and isinstance(kids[0], lily.Pitchable):
                for c in kids[0] // element.Element:
                    add(c)
    return [t.text for t in parce.root(read.lilypond.LilyPond.root, text).tokens() if t.pos not in skip and t.text != '\\absolute']


def model(op, a, per_line_text=None):
    """What the edit does: (sound, written durations or a check, durations of commands)."""
    name, arg = op
    sound = a.sound
    if name == 'transpose':
        d = height(P(*arg[1])) - height(P(*arg[0]))
        sound = [(k, h if k == 'tuning' else (h + d) % 6 if k in ('class', 'bass') else h + d, m) for k, h, m in sound]
    return sound


def check(op, a, b, first, where):
    name, arg = op
    same(b.sound, model(op, a), "sound " + where)
    if first is None:
        expect(not b.interp.checks, "wrong octave check %r %s", b.interp.checks, where)
    same(b.words, a.words, "rest of the text " + where)
    if name == 'absolute':
        same(b.relatives, 0, "\\relative commands " + where)
    elif name == 'relative':
        same(b.relatives, a.relatives + a.convertible, "\\relative commands " + where)
        same(b.convertible, 0, "music that is not relative " + where)
    else:
        same(b.relatives, a.relatives, "\\relative commands " + where)
    # the pitches of octave checks are not music; they may disappear
    same(len(b.items), len(a.items), "number of things with a duration " + where)
    if KINDS[name] != 'rhythm':
        same([i.own for i in b.items], [i.own for i in a.items], "written durations " + where)
        same(b.others, a.others, "durations of commands " + where)
        return
    prev = None
    for n, (x, y) in enumerate(zip(a.items, b.items)):
        w = "duration of %r %s" % (x.node, where)
        if name in ('explicit', 'implicit', 'per-line'):
            same(y.effective, x.effective, w)
            if name == 'explicit':
                same(y.own, x.effective, w)
            elif name == 'implicit' and x.own is None:
                same(y.own, None, w)
            continue
        if name == 'transform':
            log, dots, scale = arg
            want = x.own and transformed(x.own, log, dots, Fraction(scale).limit_denominator())
        elif name == 'paste':
            durs, cycle = arg
            if not durs or n >= len(durs) and not cycle:
                want = x.own
            else:
                d = durs[n % len(durs)]
                if d:
                    want = prev = d[0], Fraction(d[1]).limit_denominator()
                elif removable(x.node):
                    want = None
                else:
                    want = prev or x.own
        elif x.own is None:
            want = None
        elif name == 'remove':
            want = None if removable(x.node) else x.own
        elif name == 'remove_scaling' or x.own[1].denominator != 1:
            want = x.own[0], 1
        else:
            want = x.own
        same(y.own, want, w)
    if name == 'transform':
        log, dots, scale = arg
        want = [(t, d and transformed(d, log, dots, Fraction(scale).limit_denominator(), t != 'Tempo')) for t, d in a.others]
        same(b.others, want, "durations of commands " + where)
    else:
        same(b.others, a.others, "durations of commands " + where)


def possible(op, a):
    """Whether the durations can be written (not longer than \\maxima, see C16)."""
    if op[0] == 'transform' and op[1][0] < 0:
        return not any(d and d[0] >= 4 for d in [i.own for i in a.items] + [d for _, d in a.others])
    return True


def settings(first):
    return {} if first is None else {'first_pitch_absolute': first}


def chain(case, ctx, music, get, put=None):
    text, ops, first = case
    a = State(text, first)
    kinds = []
    for n, op in enumerate(ops):
        if not possible(op, a):
            continue
        apply(music(), op, first)
        b = State(get(), first)
        where = "after %r (%d in %r) of %r: %r" % (op, n + 1, ops, a.text, b.text)
        check(op, a, b, first, where)
        if b.text != a.text:
            kinds.append(KINDS[op[0]])
            ctx.label(op[0])
        a = b
    ctx.nontrivial(len(kinds) >= 3 and len(set(kinds)) >= 2)
    return a


SERIES = lambda: G.strategy(series)             # noqa: E731


@sub('C27', 'document', SERIES, 1200, 40000)
def c27_document(case, ctx):
    """The edits are done in one document."""
    doc = lydoc(case[0])
    chain(case, ctx, lambda: doc, doc.text)


@sub('C27', 'cursor', SERIES, 600, 20000)
def c27_cursor(case, ctx):
    """The edits are done with one cursor, that has everything selected."""
    doc = lydoc(case[0])
    cursor = parce.Cursor(doc).select(0, len(case[0]))

    def everything():
        cursor.select(0, len(doc.text()))
        return cursor
    chain(case, ctx, everything, doc.text)


@sub('C27', 'tree', SERIES, 1200, 40000)
def c27_tree(case, ctx):
    """The edits are done on one tree, that is written out in between."""
    tree = read.lily_document(case[0])
    chain(case, ctx, lambda: tree, tree.write)


@sub('C27', 'routes', SERIES, 800, 25000)
def c27_routes(case, ctx):
    """All edits on one tree that is written back to the document at once, or done in turn in the document: the same words."""
    text, ops, first = case
    doc = lydoc(text)
    one = lydoc(text)
    tree = one.get_transform(True)
    a = State(text, first)
    kinds = []
    for op in ops:
        if op[0] == 'per-line' or not possible(op, a):
            continue            # needs the text
        apply(doc, op, first)
        apply(tree, op, first)
        b = State(doc.text(), first)
        if b.text != a.text:
            kinds.append(KINDS[op[0]])
        a = b
    tree.edit(one)
    where = "after %r of %r" % (ops, text)
    lex = read.lilypond.LilyPond.root
    expect(one.text() == doc.text() or plain(one.text(), lex) == plain(doc.text(), lex),
           "%s: %r when written back at once, %r in turn", where, one.text(), doc.text())
    b = State(one.text(), first)
    same(b.sound, a.sound, "sound %s, written back at once" % where)
    same([(i.own, i.effective) for i in b.items], [(i.own, i.effective) for i in a.items], "durations %s, written back at once" % where)
    ctx.label('same text') if one.text() == doc.text() else None
    ctx.nontrivial(len(kinds) >= 3 and len(set(kinds)) >= 2)


def plain(text, lexicon):
    return [t.text for t in parce.root(lexicon, text).tokens()]
