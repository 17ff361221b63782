"""C15: converting music between absolute and relative entry keeps the sound."""
import itertools

from . import g as G
from . import gen_music
from .core import expect, rule, same, sub
from .lib import base, element, lily, lydoc, parce, read
from .sound import Interpreter, height

from quickly.relative import Abs2rel, Rel2abs, abs2rel, rel2abs

rule('C15', "at least four notes are in music that is converted, and more than one notation (nested \\relative, chords, "
            "\\fixed, \\transpose, octave checks, a language) is involved")

OPTS = gen_music.ALL


def tokens(text, dom, drop=()):
    """Words of the text (comments as one word), with the octaves and the ``drop`` nodes left out."""
    skip = set()
    for n in itertools.chain(dom // lily.Octave, drop):
        for o in list(n.head_origin):
            skip.add(o.pos)
    return [t.text for t in parce.root(read.lilypond.LilyPond.root, text).tokens() if t.pos not in skip and t.text != '\\absolute']


def origin_nodes(dom, commands=True, checks=True):
    """Nodes of every \\relative command, its start pitch, and octave checks in relative music."""
    for n in dom // lily.Relative:
        if commands:
            yield n
            kids = [c for c in n if not isinstance(c, base.Comment)]
            if len(kids) > 1 and isinstance(kids[0], lily.Pitchable):
                yield kids[0]
    if checks:
        for n in dom // lily.OctaveCheck:
            for p in n << (lily.Relative, lily.Absolute, lily.Fixed, lily.Transpose, lily.Markup):
                if isinstance(p, lily.Relative):
                    yield n
                    yield from n // element.Element
                break


def sound(interp, skip=()):
    return [out(e) for e in interp.events if e.kind not in skip]


def out(e):
    return ('note' if e.kind == 'chord' else e.kind), e.node.head, e.pitch, e.outer


def case(opts=OPTS):
    return G.strategy(lambda g: (gen_music.text(g, opts if g.chance(70) else g.subset(opts)), g.chance(50), g.choice([None, None, True, False])))


def features(ctx, text, n):
    k = sum(w in text for w in ('\\fixed', '\\transpose', '\\octaveCheck', '\\language', '<', '\\chord', '\\score')) + (text.count('\\relative') > 1)
    ctx.nontrivial(n >= 4 and k >= 2)
    for w in ('\\fixed', '\\transpose', '\\octaveCheck', '\\language', '\\chord', '\\score', '\\absolute'):
        ctx.label(w) if w in text else None


@sub('C15', 'rel2abs', lambda: case(), 1600, 60000)
def c15_rel2abs(case, ctx):
    """Making a whole document absolute."""
    text, node, first = case
    dom = read.lily_document(text, True)
    before = Interpreter(dom, first)
    want = tokens(text, dom, origin_nodes(dom))
    checked = list(n for n in origin_nodes(dom, False) if isinstance(n, lily.OctaveCheck))
    gone = set(id(c) for n in checked for c in n)
    old = [out(e) for e in before.events if e.kind != 'start' and id(e.node) not in gone]
    features(ctx, text, sum(1 for e in before.events if e.block))
    if node:
        Rel2abs(first_pitch_absolute=first).edit(dom)
        new = dom.write()
        dom2 = read.lily_document(new, True)
    else:
        doc = lydoc(text)
        Rel2abs(first_pitch_absolute=first).edit_document(doc)
        new = doc.text()
        dom2 = read.lily_document(new, True)
        same(tokens(new, dom2), want, "text without octaves after making %r absolute: %r" % (text, new))
    where = "after making %r absolute: %r" % (text, new)
    expect(not any(dom2 // lily.Relative), "\\relative left %s", where)
    after = Interpreter(dom2, first)
    same(sound(after), old, "pitches %s" % where)
    expect(first is not None or not after.checks, "wrong octave check %s", where)


def convertible(dom):
    """MusicLists that should get a \\relative."""
    def walk(n):
        for c in n:
            if isinstance(c, (lily.Relative, lily.Fixed)):
                pass
            elif isinstance(c, lily.MusicList) and any(isinstance(k, lily.Pitchable) for k in c):
                yield c
            elif isinstance(c, lily.ChordMode):
                yield c
            else:
                yield from walk(c)
    return list(walk(dom))


@sub('C15', 'abs2rel', lambda: case(), 1600, 60000)
def c15_abs2rel(case, ctx):
    """Making a whole document relative."""
    text, start, first = case
    dom = read.lily_document(text, True)
    before = Interpreter(dom, first)
    lists = convertible(dom)
    old = sound(before)
    want = tokens(text, dom)
    doc = lydoc(text)
    Abs2rel(start_pitch=start, first_pitch_absolute=first).edit_document(doc)
    new = doc.text()
    where = "after making %r relative: %r" % (text, new)
    dom2 = read.lily_document(new, True)
    fresh = [n for n, k in zip(dom2 // lily.Relative, range(10**6))]
    after = Interpreter(dom2, first)
    # the new \relative commands: in document order, the old ones are those that are followed by old music
    same(len(fresh), len(list(dom // lily.Relative)) + len(lists), "number of \\relative commands %s" % where)
    new_rel = [n for n in fresh if topmost(n) and not is_old(n, dom, fresh)]
    same(len(new_rel), len(lists), "new \\relative commands %s" % where)
    drop = []
    added = set()
    for r, l in zip(new_rel, lists):
        drop.append(r)
        if len(r) > 1:
            drop.append(r[0])
            added.add(id(r[0]))
            expect(start, "start pitch written %s", where)
        else:
            expect(not start or not any(affected(l)), "no start pitch written %s", where)
        same(type(r[-1]), type(l), "music in \\relative %s" % where)
    same(tokens(new, dom2, drop), want, "text without octaves %s" % where)
    same([out(e) for e in after.events if id(e.node) not in added], old, "pitches %s" % where)
    expect(first is not None or not after.checks, "wrong octave check %s", where)
    features(ctx, text, sum(1 for l in lists for n in l // lily.Pitchable))
    # and back
    Rel2abs(first_pitch_absolute=first).edit_document(doc)
    dom3 = read.lily_document(doc.text(), True)
    back = Interpreter(dom3, first)
    gone = set(id(c) for n in origin_nodes(dom2, False) for c in n)
    same(sound(back), [out(e) for e in after.events if e.kind != 'start' and id(e.node) not in gone],
         "pitches after making it absolute again %r %s" % (doc.text(), where))
    if '\\relative' not in text and '\\octaveCheck' not in text:
        same(' '.join(doc.text().split()), ' '.join(text.split()), "text after converting to relative and back")


@sub('C15', 'makerelative', lambda: G.strategy(lambda g: (gen_music.text(g, OPTS if g.chance(70) else g.subset(OPTS)), g.chance(50), g.choice([None, None, True, False]), g.int(0, 9))), 800, 30000)
def c15_makerelative(case, ctx):
    """Making one music list relative, that is then put back by the caller."""
    text, start, first, pick = case
    dom = read.lily_document(text)
    lists = [n for n in convertible(dom) if isinstance(n, lily.MusicList)]
    if not lists:
        return
    before = Interpreter(dom, first)
    old = sound(before)
    n = lists[pick % len(lists)]
    parent = n.parent
    i = parent.index(n)
    rel = Abs2rel(start_pitch=start, first_pitch_absolute=first).make_relative(n)
    where = "after making a list relative in %r" % text
    expect(type(rel) is lily.Relative and rel[-1] is n and n.parent is rel, "result %r %s", rel, where)
    same(len(rel), 2 if start and any(affected(n)) else 1, "children of the new node %s" % where)
    parent[i] = rel
    after = Interpreter(dom, first)
    same([out(e) for e in after.events if e.node is not rel[0]], old, "pitches %s: %r" % (where, dom.write()))
    expect(first is not None or not after.checks, "wrong octave check %s", where)
    features(ctx, text, sum(1 for _ in n // lily.Pitchable))


def affected(node):
    """Notes in node that are affected by a \\relative around it."""
    for n in node:
        if isinstance(n, (lily.Note, lily.PitchedRest)):
            yield n
        elif not isinstance(n, (lily.Relative, lily.Fixed, lily.Absolute, lily.Transpose, lily.Key, lily.Inversion, lily.AddInversion,
                                lily.Transposition, lily.StringTuning, lily.Markup)):
            yield from affected(n)


def topmost(rel):
    return not any(rel << (lily.Relative, lily.Fixed))


def is_old(rel, dom, fresh):
    """True if the \\relative command was in the text already (its rank among the topmost commands and lists tells)."""
    return rel in old_marks(dom, fresh)


def old_marks(dom, fresh):
    flags = []

    def walk(n, top):
        for c in n:
            if isinstance(c, lily.Relative):
                if top:
                    flags.append(True)
            elif isinstance(c, lily.Fixed):
                pass
            elif isinstance(c, lily.MusicList) and any(isinstance(k, lily.Pitchable) for k in c) or isinstance(c, lily.ChordMode):
                flags.append(False)
            else:
                walk(c, top)
    walk(dom, True)
    tops = [n for n in fresh if topmost(n)]
    return [n for n, old in zip(tops, flags) if old]


@sub('C15', 'selection', lambda: G.strategy(lambda g: (gen_music.text(g, OPTS if g.chance(70) else g.subset(OPTS)), g.chance(60), g.int(0, 60), g.int(0, 40), g.int(0, 3))),
     1600, 60000)
def c15_selection(case, ctx):
    """Converting the music in a cursor selection: all music sounds the same, and the text outside stays."""
    text, absolute, i, n, spread = case
    dom = read.lily_document(text, True)
    before = Interpreter(dom)
    pitches = [e.node for e in before.events]
    if not pitches:
        return
    i %= len(pitches)
    j = min(i + n, len(pitches) - 1)
    pos, end = pitches[i].pos, max(pitches[j].end, pitches[i].end)
    if spread & 1:                  # include opening brackets and commands
        k = text.rfind('\n', 0, pos) + 1
        b = max(text.rfind('{', k, pos), text.rfind('\\relative', k, pos))
        pos = b if b >= 0 else pos
    if spread & 2:                  # include closing brackets
        while end < len(text) and text[end] in ' \n}':
            end += 1
    doc = lydoc(text)
    cur = parce.Cursor(doc).select(pos, end)

    def inside(m):
        """In the selection; that's also the case when all its children are (although its brackets are not)."""
        return m.pos >= pos and m.end <= end or len(m) > 0 and all(map(inside, m))
    start, stop = pos, end
    spread = [m for m in dom.descendants() if inside(m)]
    pos = min([pos] + [m.pos for m in spread])
    end = max([end] + [m.end for m in spread])
    rels = [r for r in dom // lily.Relative if inside(r)]
    full = [r for r in dom // lily.Relative if r.pos >= start and r.end <= stop]
    old = sound(before, ('start', 'check'))
    (Rel2abs() if absolute else Abs2rel()).edit_cursor(cur)
    new = doc.text()
    where = "after making %r in %r %s: %r" % (text[pos:end], text, 'absolute' if absolute else 'relative', new)
    dom2 = read.lily_document(new, True)
    after = Interpreter(dom2)
    expect(new.startswith(text[:pos].rstrip()), "text before the selection %s", where)
    expect(new.endswith(text[end:].lstrip()), "text after the selection %s", where)
    same(sound(after, ('start', 'check')), old, "pitches %s" % where)
    if absolute:
        n = len(list(dom2 // lily.Relative))
        m = len(list(dom // lily.Relative))
        expect(m - len(rels) <= n <= m - len(full), "%d instead of %d (or at least %d) \\relative commands left %s", n, m - len(full), m - len(rels), where)
    expect(not after.checks, "wrong octave check %s", where)
    changed = new != text
    ctx.label('changed') if changed else None
    ctx.nontrivial(changed and len(pitches) > j - i + 1)
