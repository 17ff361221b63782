"""C16: rhythm edits."""
import collections
import re
from fractions import Fraction

from . import g as G
from . import gen_rhythm
from .core import expect, fail, rule, same, sub
from .lib import base, element, lily, lydoc, parce, read, scm

from quickly import rhythm

rule('C16', "the music has at least four items that can have a duration, some with and some without, and the edit changes the text")

#: what can have a duration of its own
ITEMS = (lily.Note, lily.Chord, lily.Unpitched, lily.Rest, lily.PitchedRest, lily.Space, lily.Skip, lily.Q, lily.Drum,
         lily.LyricItem, lily.LyricText, lily.LyricSkip, lily.Figure)
OTHERS = (lily.Tempo, lily.Partial, lily.Tuplet, lily.After)
NAMED = {'\\breve': Fraction(2), '\\longa': Fraction(4), '\\maxima': Fraction(8)}

Item = collections.namedtuple('Item', 'node name own effective')


NOSCORE = tuple(o for o in gen_rhythm.ALL if o != 'score')


def read_duration(node):
    """(duration, scaling) from the text of the tokens of a Duration node; None if there is none."""
    for d in node:
        if isinstance(d, lily.Duration):
            text = ''.join(t.text for t in d.head_origin).replace(' ', '')
            num = text.rstrip('.')
            dots = len(text) - len(num)
            base_ = NAMED[num] if num in NAMED else Fraction(1, int(num))
            value = base_ * (2 - Fraction(1, 2 ** dots))
            scale = Fraction(1)
            for s in d:
                if isinstance(s, lily.DurationScaling):
                    for part in ''.join(t.text for t in s.head_origin).replace(' ', '').strip('*').split('*'):
                        scale *= Fraction(part)
            return value, scale
    return None


def name(node):
    """What an item is, apart from the duration."""
    if isinstance(node, (lily.LyricItem, lily.Chord, lily.Figure)):
        return [type(node).__name__] + [c.write() for c in node if not isinstance(c, (lily.Duration, lily.Articulations, base.Comment))]
    return type(node).__name__, node.head


def items(dom):
    """All items with their written and effective duration, in order."""
    prev = (Fraction(1, 4), Fraction(1))
    result = []
    outer = []      # music in Scheme starts with the current duration, but doesn't change it
    for n in dom.descendants():
        while outer and not any(p is outer[-1][0] for p in n.ancestors()):
            prev = outer.pop()[1]
        if isinstance(n, scm.LilyPond):
            outer.append((n, prev))
        if isinstance(n, ITEMS) and not isinstance(n.parent, lily.ChordBody):
            own = read_duration(n)
            if isinstance(n, lily.Skip):
                if own is None:
                    continue
                result.append(Item(n, name(n), own, own))
                continue
            if own:
                prev = own
            result.append(Item(n, name(n), own, prev))
    return result


def others(dom):
    return [(type(n).__name__, read_duration(n)) for n in dom.descendants() if isinstance(n, OTHERS)]


def next_thing(node):
    """The node that follows in the text, apart from comments; None if something closes first."""
    while True:
        p = node.parent
        if p is None:
            return None
        i = next(i for i, c in enumerate(p) if c is node) + 1
        rest = [c for c in p[i:] if not isinstance(c, base.Comment)]
        if rest:
            return rest[0]
        if isinstance(p, element.BlockElement):
            return None
        node = p


def is_bare(node):
    return isinstance(node, lily.Unpitched) or isinstance(node, lily.LyricItem) and not any(
        isinstance(c, (lily.Scheme, lily.String, lily.Symbol, lily.Markup)) for c in node)


def removable(node):
    """The duration can be left out without becoming something else."""
    if isinstance(node, lily.Skip) or is_bare(node):
        return False
    if any(isinstance(c, lily.Articulations) for c in node):
        return True
    return not is_bare(next_thing(node))


def tokens(text, dom, nodes=None):
    """Words of the text without the durations of the items."""
    skip = set()
    for i in items(dom):
        if nodes is not None and i.node not in nodes:
            continue
        for d in i.node:
            if isinstance(d, lily.Duration):
                skip.update(t.pos for t in d.head_origin)
                for s in d:
                    skip.update(t.pos for t in s.head_origin)
    return [t.text for t in parce.root(read.lilypond.LilyPond.root, text).tokens() if t.pos not in skip]


class Case:
    """One application of an edit to a text, by way of the tree or of the document."""
    def __init__(self, text, as_node):
        self.text = text
        self.dom = read.lily_document(text, True)
        self.before = items(self.dom)
        self.others = others(self.dom)
        self.words = tokens(text, self.dom)
        self.as_node = as_node
        self.music = read.lily_document(text) if as_node else lydoc(text)

    def done(self, what):
        self.new = self.music.write() if self.as_node else self.music.text()
        self.where = "%s %r: %r" % (what, self.text, self.new)
        self.dom2 = read.lily_document(self.new, True)
        self.after = items(self.dom2)
        same([i.name for i in self.after], [i.name for i in self.before], "music after " + self.where)
        if not self.as_node:
            same(tokens(self.new, self.dom2), self.words, "text without durations after " + self.where)
        return zip(self.before, self.after)

    def check_others(self):
        same(others(self.dom2), self.others, "durations of commands after " + self.where)

    def features(self, ctx):
        n = len(self.before)
        own = sum(1 for i in self.before if i.own)
        ctx.nontrivial(n >= 4 and 0 < own < n and self.new != self.text)
        for w in ('lyric', 'drum', 'figure', 'chordmode', '\\skip', '\\tuplet', '\\grace', '%'):
            ctx.label(w) if w in self.text else None
        ctx.label('unpitched') if any(is_bare(i.node) for i in self.before) else None


def effective(items):
    return [i.effective for i in items]


texts = lambda: G.strategy(lambda g: (gen_rhythm.text(g), g.chance(40)))            # noqa: E731


@sub('C16', 'explicit', texts, 1300, 40000)
def c16_explicit(case, ctx):
    """explicit(): every item gets its effective duration."""
    c = Case(*case)
    rhythm.explicit(c.music)
    for a, b in c.done("making explicit"):
        same(b.own, a.effective, "duration of %r after %s" % (a.node, c.where))
    c.check_others()
    c.features(ctx)


@sub('C16', 'implicit', texts, 1300, 40000)
def c16_implicit(case, ctx):
    """implicit(): repeated durations go, the effective durations stay."""
    c = Case(*case)
    rhythm.implicit(c.music)
    prevs = {}          # music in Scheme is on its own
    for a, b in c.done("making implicit"):
        prev = prevs.get(block(a.node))
        same(b.effective, a.effective, "duration of %r after %s" % (a.node, c.where))
        if a.own is None:
            same(b.own, None, "written duration of %r after %s" % (a.node, c.where))
        elif prev == a.own and removable(a.node):
            same(b.own, None, "repeated duration of %r after %s" % (a.node, c.where))
        else:
            same(b.own, a.own, "written duration of %r after %s" % (a.node, c.where))
        if a.own and not isinstance(a.node, lily.Skip):
            prevs[block(a.node)] = a.own
    c.check_others()
    c.features(ctx)


def block(node):
    """The music in Scheme the node is in, if any."""
    return next((id(n) for n in node.ancestors() if isinstance(n, scm.LilyPond)), None)


def line_of(text, pos):
    return text.count('\n', 0, pos)


@sub('C16', 'per-line', lambda: G.strategy(lambda g: gen_rhythm.text(g)), 1300, 40000)
def c16_per_line(case, ctx):
    """implicit(per_line=True) on a document: the first of each line has a duration, other repeated ones go."""
    text = case
    c = Case(text, False)
    rhythm.implicit(c.music, True)
    prevs = {}
    for a, b in c.done("making implicit per line"):
        prev, line = prevs.get(block(a.node), (None, None))
        same(b.effective, a.effective, "duration of %r after %s" % (a.node, c.where))
        here = line_of(text, a.node.pos)
        if isinstance(a.node, lily.Skip):
            same(b.own, a.own, "written duration of %r after %s" % (a.node, c.where))
            continue
        if prev is None:
            want = a.own
        elif here != line:
            want = prev if a.own is None else a.own
        elif a.own == prev and removable(a.node):
            want = None
        else:
            want = a.own
        same(b.own, want, "written duration of %r after %s" % (a.node, c.where))
        if a.own:
            prev, line = a.own, here
        elif prev:
            line = here
        prevs[block(a.node)] = prev, line
    c.check_others()
    c.features(ctx)


@sub('C16', 'remove', lambda: G.strategy(lambda g: (gen_rhythm.text(g), g.chance(40), g.choice(['remove', 'remove_scaling', 'remove_fraction_scaling']))), 1600, 50000)
def c16_remove(case, ctx):
    """The remove functions."""
    text, as_node, fn = case
    c = Case(text, as_node)
    getattr(rhythm, fn)(c.music)
    for a, b in c.done(fn):
        want = a.own
        if a.own is None:
            pass
        elif fn == 'remove':
            want = None if removable(a.node) else a.own
        elif fn == 'remove_scaling' or a.own[1].denominator != 1:
            want = a.own[0], 1
        same(b.own, want, "written duration of %r after %s" % (a.node, c.where))
    c.check_others()
    c.features(ctx)
    ctx.label(fn)


def log_dots(value):
    """A writable duration as log and number of dots."""
    for log in range(-3, 12):
        v = Fraction(1, 2) ** log if log >= 0 else Fraction(2) ** -log
        for dots in range(0, 9):
            if v * (2 - Fraction(1, 2 ** dots)) == value:
                return log, dots
    fail("not a duration: %r", value)


def make(log, dots):
    return (Fraction(2) ** -log) * (2 - Fraction(1, 2 ** dots))


def transformed(own, log, dots, scale, scaled=True):
    lo, do = log_dots(own[0])
    return make(lo + log, max(0, do + dots)), own[1] * scale if scaled else own[1]


SCALES = [1, Fraction(2, 3), 2, Fraction(1, 3), Fraction(5, 4), 0.5, 1 / 3]


@sub('C16', 'transform', lambda: G.strategy(lambda g: (gen_rhythm.text(g), g.chance(40), g.int(0, 4) - 1, g.int(0, 3) - 1, g.choice(SCALES))), 1300, 40000)
def c16_transform(case, ctx):
    """transform(): same shift for every written duration."""
    text, as_node, log, dots, scale = case
    c = Case(text, as_node)
    every = [i.own for i in c.before] + [d for _, d in c.others]
    if any(d and d[0] >= 4 for d in every) and log < 0:
        return
    # leave out what has the default value
    kw = {k: v for k, v, d in (('log', log, 0), ('dotcount', dots, 0), ('scale', scale, 1)) if v != d}
    rhythm.transform(c.music, **kw)
    scale = Fraction(scale).limit_denominator()
    c.as_node, as_node = True, c.as_node
    c.new = None
    c.as_node = as_node
    # the text of the commands changes as well
    c.words = None
    new = c.music.write() if as_node else c.music.text()
    c.new, c.where = new, "transforming (%s, %s, %s) %r: %r" % (log, dots, scale, text, new)
    c.dom2 = read.lily_document(new, True)
    c.after = items(c.dom2)
    same([i.name for i in c.after], [i.name for i in c.before], "music after " + c.where)
    for a, b in zip(c.before, c.after):
        same(b.own, a.own and transformed(a.own, log, dots, scale), "written duration of %r after %s" % (a.node, c.where))
    want = [(t, d and transformed(d, log, dots, scale, t != 'Tempo')) for t, d in c.others]
    same(others(c.dom2), want, "durations of commands after " + c.where)
    if not as_node:
        same(strip_durations(new), strip_durations(text), "text without durations after " + c.where)
    c.features(ctx)


def strip_durations(text):
    d = parce.root(read.lilypond.LilyPond.root, text)
    import parce.action as A
    return [t.text for t in d.tokens() if t.action not in A.Number.Duration and not re.fullmatch(r'[*.\d/]+|\\(breve|longa|maxima)', t.text)]


def durations(g):
    """A list of durations to paste."""
    def one():
        if g.chance(25):
            return None
        d = make(g.int(0, 6) if g.chance(80) else g.int(0, 10) - 3, g.int(0, 2) if g.chance(40) else 0)
        return (d, g.choice([1, 1, 1, Fraction(2, 3), 2, Fraction(1, 2), 0.5]))
    return g.many(one, 0, 6)


@sub('C16', 'paste', lambda: G.strategy(lambda g: (gen_rhythm.text(g), g.chance(40), durations(g), g.chance(70))), 1600, 40000)
def c16_paste(case, ctx):
    """paste(): the n-th item gets the n-th duration."""
    text, as_node, durs, cycle = case
    c = Case(text, as_node)
    rhythm.paste(c.music, durs, cycle)
    prev = None
    for i, (a, b) in enumerate(c.done("pasting %r (cycle=%r)" % (durs, cycle))):
        if not durs or i >= len(durs) and not cycle:
            want = a.own
        else:
            d = durs[i % len(durs)]
            if d:
                want = prev = d[0], Fraction(d[1]).limit_denominator()
            elif removable(a.node):
                want = None
            else:
                want = prev or a.own
        same(b.own, want, "duration of %r after %s" % (a.node, c.where))
    c.check_others()
    c.features(ctx)


@sub('C16', 'copy-paste', lambda: G.strategy(lambda g: (gen_rhythm.text(g), gen_rhythm.text(g), g.chance(40), g.chance(50))), 800, 25000)
def c16_copy(case, ctx):
    """copy() gives the durations, and pasting them transfers the rhythm."""
    text, target, as_node, explicit = case
    src = Case(text, as_node)
    durs = rhythm.copy(src.music, explicit)
    same(durs, [i.effective if explicit else i.own for i in src.before], "durations copied from %r" % text)
    same(src.music.write() if as_node else src.music.text(), read.lily_document(text).write() if as_node else text, "text after copying from it")
    c = Case(target, as_node)
    rhythm.paste(c.music, durs, False)
    if explicit:
        for i, (a, b) in enumerate(c.done("pasting %r" % (durs,))):
            same(b.own, durs[i] if i < len(durs) else a.own, "duration of %r after %s" % (a.node, c.where))
        c.check_others()
        c.features(ctx)
    # pasting it to itself changes nothing
    if not all(i.own or removable(i.node) for i in src.before):
        return          # c\\rest 4: it may get a duration, that's harmless
    again = Case(text, as_node)
    rhythm.paste(again.music, durs, False)
    for a, b in again.done("pasting the copied %r" % (durs,)):
        same(b.effective, a.effective, "duration of %r after %s" % (a.node, again.where))
        if not explicit and removable(a.node):
            same(b.own, a.own, "written duration of %r after %s" % (a.node, again.where))
    again.check_others()


@sub('C16', 'selection', lambda: G.strategy(lambda g: (gen_rhythm.text(g, NOSCORE), g.int(0, 10**6), g.int(0, 10**6), g.choice(['explicit', 'implicit', 'remove', 'remove_scaling']))), 1600, 40000)
def c16_selection(case, ctx):
    """With a selection only the items in it are changed; explicit and implicit still keep the effective durations."""
    text, i, j, fn = case
    i, j = sorted((i % (len(text) + 1), j % (len(text) + 1)))
    c = Case(text, False)
    getattr(rhythm, fn)(parce.Cursor(c.music, i, j))
    for a, b in c.done("%s of [%s:%s] in" % (fn, i, j)):
        where = "duration of %r after %s" % (a.node, c.where)
        if i == j:
            pass            # no selection
        elif a.node.end <= i or a.node.pos >= j:
            same(b.own, a.own, "written (outside the selection) " + where)
        elif fn == 'explicit':
            if i == j or a.node.pos >= i and a.node.end <= j:
                same(b.own, a.effective, "written " + where)
        elif fn == 'remove' and a.own and a.node.pos >= i and a.node.end <= j and removable(a.node):
            same(b.own, None, "written " + where)
        elif fn == 'remove_scaling' and a.own and a.node.pos >= i and a.node.end <= j:
            same(b.own, (a.own[0], 1), "written " + where)
        if fn in ('explicit', 'implicit'):
            same(b.effective, a.effective, where)
    c.check_others()
    c.features(ctx)
