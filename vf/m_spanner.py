"""C23: the other end of a spanner."""
from . import g as G
from .core import expect, rule, same, sub
from .lib import base, lily, read

rule('C23', "at least four spanners, of which one has its other end, and there are different ids, nested contexts, or ends that are missing")

KINDS = {
    lily.Slur: ('(', ')'), lily.PhrasingSlur: ('\\(', '\\)'), lily.Beam: ('[', ']'), lily.Ligature: ('\\[', '\\]'),
    lily.TextSpanner: ('\\startTextSpan', '\\stopTextSpan'), lily.TrillSpanner: ('\\startTrillSpan', '\\stopTrillSpan'),
    lily.Melisma: ('\\melisma', '\\melismaEnd')}
PAIRS = list(KINDS.values())
IDS = ['', '\\=1', '\\=2', '\\="a"', '\\=foo', "\\=#'foo", '\\=1 %{ x %}']
DIRS = ['', '^', '_', '-', '-\\tweak color #red ', '-\\tweak color #red ^']


def spanner(g):
    pair = PAIRS[min(g.int(0, 9), 9) % 7 if g.chance(60) else g.int(0, 1)]
    which = g.choice(pair)
    sid = g.choice(IDS) if g.chance(40) else ''
    how = g.choice(DIRS) if g.chance(25) else ''
    if pair[0] == '\\melisma':
        sid = how = ''
    return '%s%s%s' % (sid, how, which)


def item(g, depth):
    g.budget -= 1
    k = g.int(0, 13)
    if k <= 8 or not depth:
        return g.choice(['c', "d'4", 'r', '<c e>', 's', 'q' if g.chance(10) else 'e'])
    if k == 9:
        return '{ %s }' % music(g, depth - 1)
    if k == 10:
        return '<< { %s } { %s } >>' % (music(g, depth - 1), music(g, depth - 1))
    if k == 11:
        return '\\new Voice { %s }' % music(g, depth - 1)
    if k == 12:
        return '\\tuplet 3/2 { %s }' % music(g, depth - 1)
    return '\\foo'


def music(g, depth):
    out = []
    for _ in range(1 + g.int(0, 5)):
        x = item(g, depth)
        if x[0] in "cdr<se" and x != '<' and not x.startswith('<<'):
            for _ in range(g.weighted(((3, 0), (4, 1), (1, 2)))):
                x += (' ' if g.chance(30) else '') + spanner(g)
        out.append(x)
    return ' '.join(out)


def text(g):
    out = []
    for _ in range(1 + g.int(0, 2)):
        k = g.int(0, 4)
        m = music(g, 3)
        out.append(('{ %s }', 'foo = { %s }', '\\score { { %s } }', '\\score { \\new Staff << \\new Voice { %s } >> }', '\\relative { %s }')[k] % m)
    return '\n'.join(out)


def spanners(dom):
    """[(node, type, id, container)] in document order."""
    out = []

    def walk(n, sid, box):
        for c in n:
            s, b = sid, box
            if isinstance(c, (lily.Assignment, lily.New, lily.Score)):
                b = c
            if isinstance(c, lily.Articulations):
                s = None
            elif isinstance(c, lily.SpannerId):
                s = next((x for x in c if not isinstance(x, base.Comment)), None)
            if type(c) in KINDS:
                out.append((c, type(c), s.write() if s is not None else None, box))
            walk(c, s, b)
    walk(dom, None, dom)
    return out


@sub('C23', 'parallel', lambda: G.strategy(text, 40), 4000, 120000)
def c23_parallel(case, ctx):
    """find_parallel of all spanners, against a plain search."""
    dom = read.lily_document(case, True)
    sp = spanners(dom)
    found = missing = 0
    heads = {}
    for i, (n, t, sid, box) in enumerate(sp):
        want = None
        for m, *key in (sp[i+1:] if n.head == 'start' else sp[:i][::-1]):
            if key[0] is t and key[1] == sid and key[2] is box and m.head != n.head:
                want = m
                break
        got = n.find_parallel()
        expect(got is want, "other end of %r in %r: %r, expected %r", n, case, got, want)
        expect(n.find_parallel(100000) is want, "other end of %r in %r, with a limit", n, case)
        for limit in (1, 3, 10):
            x = n.find_parallel(limit)
            expect(x is None or x is want, "other end of %r in %r with limit %d: %r, expected %r", n, case, limit, x, want)
        found += want is not None
        missing += want is None
        heads.setdefault((t, sid, id(box)), []).append(n)
        ctx.label(t.__name__)
    for key, nodes in heads.items():
        names = [n.head for n in nodes]
        if names == ['start', 'stop'] * (len(names) // 2):      # properly paired
            for a, b in zip(nodes[::2], nodes[1::2]):
                expect(a.find_parallel() is b and b.find_parallel() is a, "%r and %r are a pair", a, b)
            ctx.label('paired')
    ids = {k[1] for k in heads}
    boxes = {k[2] for k in heads}
    ctx.nontrivial(len(sp) >= 4 and found and (len(ids) > 1 or len(boxes) > 1 or missing))


@sub('C23', 'pairs', lambda: G.strategy(lambda g: [(g.int(0, 6), g.int(0, 3), g.int(0, 7), g.int(0, 7), g.int(0, 2)) for _ in range(g.int(1, 4))]), 1500, 45000)
def c23_pairs(case, ctx):
    """Spanners that are written as pairs, overlapping ones with different ids, find each other."""
    notes = [['c'] for _ in range(8)]
    busy, pairs = {}, []
    for kind, sid, a, b, voice in case:
        if PAIRS[kind][0] == '\\melisma':
            sid = 0
        a, b = min(a, b), max(a, b)
        if a == b or any(a <= y and x <= b for x, y in busy.get((kind, sid), ())):
            continue
        busy.setdefault((kind, sid), []).append((a, b))
        pairs.append((kind, sid, a, b))
        notes[a].append((kind, sid, 0))
        notes[b].append((kind, sid, 1))
    ids = ['', '\\=1', '\\="x"', '\\=foo']
    text = '{ ' + ' '.join(n[0] + ''.join(ids[s] + PAIRS[k][e] + ' ' for k, s, e in n[1:]) for n in notes) + ' }'
    dom = read.lily_document(text, True)
    chords = [n for n in dom.descendants() if isinstance(n, lily.Note)]
    same(len(chords), 8, "notes in %r" % text)

    def find(i, kind, sid, end):
        k = notes[i][1:].index((kind, sid, end))
        return [n for n in chords[i].descendants() if type(n) in KINDS][k]
    for kind, sid, a, b in pairs:
        x, y = find(a, kind, sid, 0), find(b, kind, sid, 1)
        expect(x.head == 'start' and y.head == 'stop' and type(x) is type(y), "wrong nodes in %r", text)
        expect(x.find_parallel() is y, "the end of %r in %r is %r", x, text, x.find_parallel())
        expect(y.find_parallel() is x, "the start of %r in %r is %r", y, text, y.find_parallel())
    ctx.nontrivial(len(pairs) >= 2)
    ctx.label('%d pairs' % len(pairs))
