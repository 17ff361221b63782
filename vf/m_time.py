"""C17: musical time."""
from fractions import Fraction

from . import g as G
from . import gen_rhythm
from .core import expect, rule, same, sub
from .lib import LilyPond, base, element, lily, lydoc, parce, read
from .m_rhythm import items, read_duration

from quickly.dom.scope import Scope
from quickly.time import Time

rule('C17', "the music takes time, at least four items are in it, and it is not just a flat list of notes: durations are implied or scaled, "
            "or there is parallel or grace music, a repeat or a variable")

GRACE = (lily.Grace, lily.Acciaccatura, lily.Appoggiatura, lily.SlashedGrace) if hasattr(lily, 'SlashedGrace') else (lily.Grace,)


#: everything that holds music that sounds where it is written
MUSIC = (lily.Music, lily.Tag, lily.KeepWithTag, lily.RemoveWithTag, lily.ApplyMusic, lily.Context, lily.Relative)


def children(node):
    return [c for c in node if not isinstance(c, base.Comment)]


class Clock:
    """Computes lengths and positions by walking through the music like LilyPond does.

    ``at`` maps id(node) -> (top, position); ``lengths`` id(node) -> length.
    """
    def __init__(self, *doms):
        """If there are more doms, it is the text of the first with includes replaced by the contents of the others."""
        self.effective = {id(i.node): i.effective for dom in doms for i in items(dom)}
        self.tops = list(self.flat(doms[0], doms[1:]))
        self.at, self.lengths, self.nodes, self.inner = {}, {}, [], set()
        self.repeats = []       # kind, count, turn
        self.unfold = 0         # in \\unfoldRepeats
        for dom in doms:
            self.run(dom)

    def flat(self, dom, files):
        """Toplevel nodes."""
        for n in dom:
            if isinstance(n, lily.Include):
                yield from self.flat(files[int(children(n)[0].head[1:-4])], files)
            else:
                yield n

    def run(self, node):
        for n in node:
            if isinstance(n, MUSIC):
                self.top = n
                self.length(n, (0, 0, Fraction(1)), Fraction(0))
            elif isinstance(n, lily.IdentifierRef):
                self.lengths[id(n)] = self.ref(n, (0, 0, Fraction(1)))
                self.nodes.append(n)
            else:
                self.run(n)

    # --- variables
    def value(self, ref):
        """The value of the last toplevel assignment of that name before the reference."""
        n = ref
        while not isinstance(n.parent, lily.Document):
            n = n.parent
        found = None
        for c in self.tops:
            if c is n:
                break
            if isinstance(c, lily.Assignment) and ''.join(x.head for x in children(children(c)[0])) == ref.head:
                found = children(c)[-1]
        return found

    def ref(self, node, ctx, depth=0):
        v = self.value(node)
        while isinstance(v, lily.IdentifierRef):
            v = self.value(v)
        if isinstance(v, lily.Music):
            return self.length(v, ctx, None)
        return Fraction(0)

    def durable(self, node, ctx):
        log, dots, scale = ctx
        value, factor = self.effective[id(node)]
        if log or dots:
            lo, do = log_dots(value)
            value = Fraction(2) ** -(lo + log) * (2 - Fraction(1, 2 ** (do + dots)))
        return value * factor * scale

    # --- walking
    def any(self, node, ctx, start):
        """Length of anything."""
        if isinstance(node, lily.IdentifierRef):
            n = self.ref(node, ctx)
        elif isinstance(node, MUSIC):
            return self.length(node, ctx, start)
        else:
            n = Fraction(0)
        self.note(node, n, start)
        return n

    def note(self, node, length, start):
        if start is not None:
            self.at[id(node)] = self.top, start
            self.lengths[id(node)] = length
            self.nodes.append(node)

    def sequence(self, nodes, ctx, start):
        total = Fraction(0)
        for n in nodes:
            total += self.any(n, ctx, None if start is None else start + total)
        return total

    def parallel(self, nodes, ctx, start):
        return max((self.any(n, ctx, start) for n in nodes), default=Fraction(0))

    def length(self, node, ctx, start):
        n = self._length(node, ctx, start)
        self.note(node, n, start)
        return n

    def _length(self, node, ctx, start):
        log, dots, scale = ctx
        if isinstance(node, lily.Chord):
            return self.durable(node, ctx) if children(children(node)[0]) else Fraction(0)
        if isinstance(node, lily.Skip) and read_duration(node) is None:
            return self.parallel(node, ctx, start)
        if isinstance(node, lily.Durable):
            return self.durable(node, ctx)
        if isinstance(node, lily.SimultaneousMusicList):
            return self.parallel(node, ctx, start)
        if isinstance(node, lily.MusicList):
            return self.sequence(node, ctx, start)
        if isinstance(node, (lily.Times, lily.Tuplet)):
            a, b = text_of(children(node)[0]).split('/')
            f = Fraction(int(a), int(b)) if isinstance(node, lily.Times) else Fraction(int(b), int(a))
            return self.parallel(node, (log, dots, scale * f), start)
        if isinstance(node, lily.ScaleDurations):
            return self.parallel(node, (log, dots, scale * Fraction(text_of(children(node)[0]).strip("#'()").replace('.', '/'))), start)
        if isinstance(node, lily.ShiftDurations):
            a, b = (int(text_of(c).replace('#', '')) for c in children(node)[:2])
            return self.parallel(node, (log + a, dots + b, scale), start)
        if isinstance(node, GRACE):
            return self.parallel(node, (log, dots, Fraction(0)), start)
        if isinstance(node, lily.AfterGrace):
            music = [n for n in node if isinstance(n, (lily.Music, lily.IdentifierRef))]
            return self.any(music[0], ctx, start) if music else Fraction(0)
        if isinstance(node, lily.Repeat):
            kids = children(node)
            kind, count = 'unfold' if self.unfold else kids[0].head, int(text_of(kids[1]).replace('#', ''))
            self.repeats.append([kind, count, 0])
            body = self.any(kids[2], ctx, start) if len(kids) > 2 else Fraction(0)
            nested = [n for n in (kids[2].descendants() if len(kids) > 2 else ())
                      if isinstance(n, lily.Alternative) and next(p for p in n.ancestors() if isinstance(p, lily.Repeat)) is node]
            total = body
            if kind != 'volta':
                for self.repeats[-1][2] in range(1, count):
                    total += self.any(kids[2], ctx, None) if nested else body
            self.repeats.pop()
            for n in nested:        # "length" has no clear meaning for the nodes in between
                for p in [children(n)[0], n] + list(n.ancestors()):
                    if p is node:
                        break
                    self.lengths[id(p)] = None
            alts = Fraction(0)
            for alt in kids[3:]:
                music = children(alt)[0]
                here = None if start is None else start + body
                self.note(alt, None, here)
                self.note(music, None, here)
                each, pos = [], here
                for n in music:
                    each.append((n, self.any(n, ctx, pos)))
                    pos = None if pos is None else pos + each[-1][1]
                each = [x for n, x in each if isinstance(n, (lily.Music, lily.IdentifierRef))]
                alts = sum(each)
                if kind != 'volta':
                    alts = sum(([each[0]] * (count - len(each)) if each else []) + each[:count])
            return total + alts
        if isinstance(node, lily.UnfoldRepeats):
            self.unfold += 1
            n = self.parallel(node, ctx, start)
            self.unfold -= 1
            return n
        if isinstance(node, lily.Alternative):      # in the music that is repeated
            kind, count, turn = self.repeats[-1]
            music = children(node)[0]
            self.note(music, None, start)
            each, pos = [], start
            for n in music:
                each.append((n, self.any(n, ctx, pos)))
                pos = None if pos is None else pos + each[-1][1]
            each = [x for n, x in each if isinstance(n, (lily.Music, lily.IdentifierRef))]
            if kind == 'volta' or not each:
                return sum(each, Fraction(0))
            return each[max(0, turn - max(0, count - len(each)))]
        return self.parallel(node, ctx, start)


def text_of(node):
    """The text of all tokens of a node."""
    toks = []
    for n in [node] + list(node.descendants()):
        toks.extend(getattr(n, 'head_origin', ()) or ())
    return ''.join(t.text for t in sorted(toks, key=lambda t: t.pos))


def log_dots(value):
    from .m_rhythm import log_dots as f
    return f(value)


OPTS = ('comments', 'aftergrace', 'after', 'partcombine', 'alternative', 'unfold', 'ref', 'scheme')


def features(ctx, clock):
    kinds = {type(n) for n in clock.nodes}
    n = sum(1 for n in clock.nodes if isinstance(n, lily.Durable))
    rich = kinds & {lily.Tuplet, lily.Times, lily.ScaleDurations, lily.ShiftDurations, lily.Repeat, lily.Grace, lily.AfterGrace,
                    lily.SimultaneousMusicList, lily.IdentifierRef, lily.PartCombine, lily.Skip}
    ctx.nontrivial(n >= 4 and bool(rich))
    for k in rich:
        ctx.label(k.__name__)


def usable(text):
    return not any(w in text for w in ('#-1',))


def case(g):
    return gen_rhythm.text(g, OPTS)


@sub('C17', 'length', lambda: G.strategy(case), 3000, 90000)
def c17_length(case, ctx):
    """Length and position of every node."""
    text = case.replace('#-1 #1', '#2 #1').replace('#0 #-1', '#-1 #0')
    dom = read.lily_document(text, True)
    clock = Clock(dom)
    t = Time()
    for n in clock.nodes:
        want = clock.lengths[id(n)]
        if want is None:
            continue
        same(t.length(n), want, "length of %r in %r" % (n, text))
    for n in reversed(clock.nodes):
        if id(n) in clock.at:
            top, pos = clock.at[id(n)]
            r = t.position(n)
            expect(r.node is top, "position of %r in %r: wrong node %r", n, text, r.node)
            same(r.time, pos, "position of %r in %r" % (n, text))
            if clock.lengths[id(n)] is not None:
                same(t.position(n, True).time, pos + clock.lengths[id(n)], "position including %r in %r" % (n, text))
    for n in clock.nodes[::3]:
        if clock.lengths[id(n)] is not None:
            same(Time().length(n), clock.lengths[id(n)], "length of %r in %r (asked separately)" % (n, text))
    features(ctx, clock)


@sub('C17', 'duration', lambda: G.strategy(lambda g: (case(g), [(g.int(0, 1000), g.int(0, 1000)) for _ in range(8)])), 1500, 45000)
def c17_duration(case, ctx):
    """Time between two nodes."""
    text, pairs = case
    text = text.replace('#-1 #1', '#2 #1').replace('#0 #-1', '#-1 #0')
    dom = read.lily_document(text, True)
    clock = Clock(dom)
    nodes = [n for n in clock.nodes if id(n) in clock.at and clock.lengths[id(n)] is not None]
    if not nodes:
        return
    t = Time()
    for i, j in pairs:
        a, b = nodes[i % len(nodes)], nodes[j % len(nodes)]
        (ta, pa), (tb, pb) = clock.at[id(a)], clock.at[id(b)]
        r = t.duration(a, b)
        if ta is not tb:
            same(r, None, "duration from %r to %r in %r" % (a, b, text))
        else:
            expect(r is not None and r.node is ta, "duration from %r to %r in %r: wrong result %r", a, b, text, r)
            same(r.time, pb + clock.lengths[id(b)] - pa, "duration from %r to %r in %r" % (a, b, text))
    features(ctx, clock)


def extent(node):
    """(pos, end) of a node including its descendants, None if there's no text."""
    lo, hi = [], []
    for n in [node] + list(node.descendants()):
        for t in list(getattr(n, 'head_origin', ()) or ()) + list(getattr(n, 'tail_origin', ()) or ()):
            lo.append(t.pos)
            hi.append(t.end)
    return (min(lo), max(hi)) if lo else None


@sub('C17', 'cursor', lambda: G.strategy(lambda g: (case(g), [(g.int(0, 1000), g.int(0, 1000), g.int(0, 3), g.int(0, 3)) for _ in range(8)])), 1500, 45000)
def c17_cursor(case, ctx):
    """Position and duration of a text cursor or selection."""
    text, pairs = case
    text = text.replace('#-1 #1', '#2 #1').replace('#0 #-1', '#-1 #0')
    doc = lydoc(text)
    dom = doc.get_transform(True)
    clock = Clock(dom)
    t = Time(wait=True)
    same(t.cursor_duration(parce.Cursor(doc, 0, 0)), None, "duration without selection")
    places = []
    for n in clock.nodes:
        if isinstance(n, lily.Music) and id(n) in clock.at and clock.lengths[id(n)] is not None:
            e = extent(n)
            if e:
                places.append((n, e))
    if not places:
        same(t.cursor_position(parce.Cursor(doc, 0, 0)), None, "position without music")
        return
    first, last = {}, {}
    for n, (i, j) in places:
        first[i] = n    # an outer node later overwrites an inner one
        last[j] = n
    for a, b, before, after in pairs:
        a, (i, _) = places[a % len(places)]
        b, (_, j) = places[b % len(places)]
        a, b = first[i], last[j]
        while before and i and text[i-1].isspace():
            i, before = i - 1, before - 1
        while after and j < len(text) and text[j].isspace():
            j, after = j + 1, after - 1
        r = t.cursor_position(parce.Cursor(doc, i, i))
        where = "at %d in %r" % (i, text)
        expect(r is not None, "no position " + where)
        top, pos = clock.at[id(a)]
        expect(r.node is top, "wrong node %r for the position " + where, r.node)
        same(r.time, pos, "position " + where)
        if before == after == 3:        # a document that is still being read in the background
            r = t.cursor_position(parce.Cursor(parce.Document(LilyPond.root, text, transformer=True), i, i))
            same(r and r.time, pos, "position in a new document " + where)
            if j > i:
                r = t.cursor_duration(parce.Cursor(parce.Document(LilyPond.root, text, transformer=True), i, j))
                same(r and r.time, getattr(t.cursor_duration(parce.Cursor(doc, i, j)), 'time', None), "duration in a new document " + where)
        if j <= i:
            continue
        r = t.cursor_duration(parce.Cursor(doc, i, j))
        where = "of selection [%d:%d] in %r" % (i, j, text)
        if clock.at[id(b)][0] is not top:
            same(r, None, "duration " + where)
            continue
        want = clock.at[id(b)][1] + clock.lengths[id(b)] - pos
        if want < 0:
            same(r, None, "duration " + where)
            continue
        expect(r is not None, "no duration " + where)
        expect(r.node is top, "wrong node %r for duration " + where, r.node)
        same(r.time, want, "duration " + where)
        ctx.label('selection')
    features(ctx, clock)


def _files(g):
    """Texts: the main document, and files f0.ily, f1.ily..."""
    r = gen_rhythm.Rhythm(g, OPTS, ['music', 'tune', 'mynotes'])
    parts = r.parts(2, 1, 3)
    refs = ['\\music', '{ c2 \\music \\tune d }', '\\tuplet 3/2 { \\tune e8 }', '<< \\mynotes { c1 \\music } >>', '{ \\grace { \\tune } d4. \\mynotes }']
    for _ in range(g.int(1, 4)):
        parts.insert(g.int(0, len(parts)), g.choice(['music', 'tune', 'mynotes']) + ' = ' + (g.choice(refs) if g.chance(35) else r.music(1)))
    parts.insert(g.int(len(parts) - 1, len(parts)), g.choice(refs))
    files = []
    for _ in range(g.int(1, 3)):
        # put some consecutive parts in a file
        i = g.int(0, len(parts) - 1)
        j = g.int(i + 1, min(len(parts), i + 3))
        files.append('\n'.join(parts[i:j]))
        parts[i:j] = ['\\include "f%d.ily"' % (len(files) - 1)]
    return '\n'.join(parts), files


@sub('C17', 'include', lambda: G.strategy(_files), 1200, 40000)
def c17_include(case, ctx):
    """Variables that are defined in included files."""
    text, files = ([t.replace('#-1 #1', '#2 #1').replace('#0 #-1', '#-1 #0') for t in c] if isinstance(c, list) else
                   c.replace('#-1 #1', '#2 #1').replace('#0 #-1', '#-1 #0') for c in case)
    doc = lydoc(text)
    doc.url = 'file:///d/main.ly'
    docs = {}
    for i, t in enumerate(files):
        docs['/d/f%d.ily' % i] = d = lydoc(t)
        d.url = 'file:///d/f%d.ily' % i

    def factory(path):
        try:
            return docs[path]
        except KeyError:
            raise OSError(path)
    scope = Scope(doc, factory=factory)
    dom = doc.get_transform(True)
    clock = Clock(dom, *(d.get_transform(True) for d in docs.values()))
    t = Time(scope, True)
    where = "in %r with files %r" % (text, files)
    refs = 0
    for n in clock.nodes:
        if n.root() is not dom or clock.lengths[id(n)] is None:
            continue
        same(t.length(n), clock.lengths[id(n)], "length of %r %s" % (n, where))
        if id(n) in clock.at:
            same(t.position(n, True).time, clock.at[id(n)][1] + clock.lengths[id(n)], "position including %r %s" % (n, where))
        refs += isinstance(n, lily.IdentifierRef) and bool(clock.lengths[id(n)])
    ctx.nontrivial(refs > 0)
    ctx.label("%d references" % min(refs, 3))
