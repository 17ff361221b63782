"""C28: music embedded in HTML and LaTeX documents is understood and edited like music in a document of its own."""
import re

import parce

from . import g as G
from . import gen_music, gen_rhythm
from .core import expect, rule, same, sub
from .lib import Html, Latex, document, lily, lydoc, read, same_tree
from .m_series import apply, step

from quickly import rhythm
from quickly.dom import util
from quickly.pitch import PitchProcessor
from quickly.time import Time

rule('C28', "the document has at least two pieces of music, and at least one of them is changed by the edit or has a duration, language or version of its own")

HTML = ['<p>Text</p>', '\n', ' ', 'a &amp; b', '<br/>', '<!-- <lilypond>{ c4 }</lilypond> -->', '<b class="x">c d</b>', '<img src="c.png">\n']
TEX = ['Text', '\n', ' ', '\\textbf{c d}', '\\section{\\foo}', '% c4 d8\n', '$x$', '\\begin{itemize}\\item x\\end{itemize}', '\n\n']


def music(g):
    m = (gen_music.text(g, gen_music.ALL if g.chance(70) else g.subset(gen_music.ALL), g.int(0, 2)) if g.chance(65) else
         gen_rhythm.text(g, g.subset(('comments', 'ref', 'alternative', 'aftergrace')), g.int(0, 2)))
    return re.sub(r'\*1(/1)?(?!\d|/\d)', '', m)


def simple(g):
    """A few notes, some of them with a duration."""
    return '{ %s }' % ' '.join(g.choice(['c', 'e', 'g', "<c e>", 'r', 'fis', 's', "b'", 'a,']) + g.choice(['', '', '1', '2', '4.', '8', '16*2/3'])
                               for _ in range(g.int(1, 5)))


def case(g, music=music):
    host = g.choice(['html', 'latex'])
    text = lambda: ''.join(g.choice(HTML if host == 'html' else TEX) for _ in range(g.int(0, 3)))       # noqa: E731
    pieces = [text()]
    nest = []
    for _ in range(g.weighted([(2, 1), (5, 2), (4, 3), (1, 4)])):
        if g.chance(25):
            a, b = g.choice([('<div>', '</div>'), ('<p>', '</p>'), ('<td class="c">', '</td>')]) if host == 'html' else g.choice(
                [('\\begin{center}', '\\end{center}'), ('{', '}')])
            pieces[-1] += a
            nest.append(b)
        a, b = g.choice([('<lilypond>', '</lilypond>'), ('<lilypond fragment quote>', '</lilypond>'), ('<lilypond staffsize=16:', '/>')]) if host == 'html' else g.choice(
            [('\\begin{lilypond}', '\\end{lilypond}'), ('\\begin[quote]{lilypond}', '\\end{lilypond}'), ('\\lilypond{', '}')])
        pieces[-1] += a
        pieces.append(g.choice([' ', '\n']) + music(g) + g.choice([' ', '\n']) * 1)
        if '%' in pieces[-1]:
            pieces[-1] += '\n'
        pieces.append(b + text())
        if nest and g.chance(50):
            pieces[-1] += nest.pop()
    while nest:
        pieces[-1] += nest.pop()
    return host, pieces


HOSTS = {'html': (Html.root, read.htm_document), 'latex': (Latex.root, read.tex_document)}


class Host:
    def __init__(self, host, pieces):
        self.lexicon, self.reader = HOSTS[host]
        self.pieces = pieces
        self.text = ''.join(pieces)
        self.fragments = pieces[1::2]
        self.spans = []
        pos = 0
        for i, p in enumerate(pieces):
            if i & 1:
                self.spans.append((pos, pos + len(p)))
            pos += len(p)

    def docs(self, tree):
        return [n for n in tree.descendants() if isinstance(n, lily.Document)]

    def separate(self, tree):
        """Check that the pieces of music are read separately."""
        docs = self.docs(tree)
        same(len(docs), len(self.fragments), "number of pieces of music in %r" % self.text)
        for n, f in zip(docs, self.fragments):
            same_tree(n, read.lily_document(f), "music %r in %r" % (f, self.text))
        return docs


def squeeze(text):
    return ' '.join(text.split())


def own_edit(fragment, op, first, start=None, end=None):
    """The text after the edit, optionally of a part of it."""
    doc = lydoc(fragment)
    if start is None and end is None:
        apply(doc, op, first)
    else:
        start, end = start or 0, len(fragment) if end is None else end
        if start < end:
            apply(parce.Cursor(doc).select(start, end), op, first)
    return doc.text()


def edited(g):
    return case(g), step(g), g.choice([None, None, None, True, False]), g.choice(['document', 'tree', 'part', 'part']), g.int(0, 3), g.int(0, 3), g.int(0, 100), g.int(0, 100)


def across(g):
    host, pieces = case(g, simple)
    return ((host, pieces), g.choice([('explicit', None), ('implicit', None), ('per-line', None), ('remove', None),
                                            ('transform', (g.int(0, 2) - 1, g.int(0, 1), 1)), ('transpose', ((0, 0, 0), (0, g.int(1, 3), 0)))]), g.choice([None, True, False]), 'inner',
            g.int(0, 3), g.int(0, 3), g.int(0, 100), g.int(0, 100))


@sub('C28', 'edits', lambda: G.strategy(edited), 1400, 40000)
def c28_edits(case, ctx):
    """An edit of the document, or a part of it, edits each piece of music as if it was the only one."""
    (host, pieces), op, first, mode, i, j, p, q = case
    h = Host(host, pieces)
    doc = document(h.lexicon, h.text)
    tree = doc.get_transform(True)
    h.separate(tree)
    n = len(h.fragments)
    i, j = sorted((i % n, j % n)) if mode in ('part', 'inner') else (0, n - 1)
    start = end = None
    if mode == 'inner':         # start and end in the first and the last piece
        if n < 2:
            return
        if i == j:
            i, j = (i, i + 1) if i + 1 < n else (i - 1, i)
        start, end = between(h.fragments[i], p), between(h.fragments[j], q)
        ctx.label('inner ' + op[0])
    if op[0] == 'paste' and i != j or op[0] == 'per-line' and mode == 'tree':
        return                  # one series of durations; the text is needed
    try:
        want = [own_edit(f, op, first, start if k == i else None, end if k == j else None) if i <= k <= j else f for k, f in enumerate(h.fragments)]
    except IndexError:          # a duration that can't be written
        ctx.label('impossible edit')
        return
    where = "after %r of pieces %d (from %s) to %d (until %s) of %r" % (op, i, start, j, end, h.text)
    if mode == 'tree':
        tree = h.reader(h.text)
        apply(tree, op, first)
        docs = h.docs(tree)
    else:
        apply(doc if mode == 'document' else parce.Cursor(doc).select(h.spans[i][0] + (start or 0), h.spans[j][1] if end is None else h.spans[j][0] + end), op, first)
        new = doc.text()
        where += ': %r' % new
        tree = h.reader(new, True)
        docs = h.docs(tree)
        same(len(docs), n, "number of pieces of music " + where)
        rest, pos = [], 0
        for d, w in zip(docs, want):
            same(squeeze(new[d.pos:d.end]), squeeze(w), "music " + where)
            rest.append(new[pos:d.pos])
            pos = d.end
        rest.append(new[pos:])
        same([squeeze(r) for r in rest], [squeeze(r) for r in pieces[0::2]], "text around the music " + where)
    for d, w in zip(docs, want):
        same_tree(read.lily_document(d.write()) if mode == 'tree' else d, read.lily_document(w), "music %r %s" % (w, where))
    ctx.label(host, mode, op[0])
    ctx.nontrivial(n >= 2 and any(w != f for w, f in zip(want, h.fragments)))


sub('C28', 'across', lambda: G.strategy(across), 1200, 20000)(c28_edits)


@sub('C28', 'meaning', lambda: G.strategy(case), 900, 25000)
def c28_meaning(case, ctx):
    """Durations, time, language and version of music are those of the piece of music itself."""
    host, pieces = case
    h = Host(host, pieces)
    tree = h.reader(h.text, True)
    docs = h.separate(tree)
    getter = lily.duration_getter()
    time = Time()
    interesting = False
    same(rhythm.copy(tree), [d for f in h.fragments for d in rhythm.copy(read.lily_document(f))], "durations copied from %r" % h.text)
    same(rhythm.copy(tree, True), [d for f in h.fragments for d in rhythm.copy(read.lily_document(f), True)],
         "durations, made explicit, copied from %r" % h.text)
    for d, f in zip(docs, h.fragments):
        alone = read.lily_document(f, True)
        own_getter, own_time = lily.duration_getter(), Time()
        same(util.lilypond_version(d), util.lilypond_version(alone), "version of %r in %r" % (f, h.text))
        for a, b in zip(d.descendants(), alone.descendants()):
            what = "of %r in %r in %r" % (b, f, h.text)
            if isinstance(a, lily.Durable):
                same(lily.previous_duration(a), lily.previous_duration(b), "previous duration " + what)
                same(getter(a), own_getter(b), "duration " + what)
            if isinstance(a, lily.Music):
                same(time.position(a).time, own_time.position(b).time, "position " + what)
                same(time.length(a), own_time.length(b), "length " + what)
            if isinstance(a, lily.IdentifierRef):
                same(index(a.get_value(), d), index(b.get_value(), alone), "variable " + what)
            if isinstance(a, lily.Spanner):
                same(index(a.find_parallel(), d), index(b.find_parallel(), alone), "other end " + what)
            if isinstance(a, lily.Pitchable):
                same(language(a), language(b), "language " + what)
                same(util.lilypond_version(a), util.lilypond_version(b), "version " + what)
        interesting = interesting or any(w in f for w in ('\\language', '\\version', '8', '2.'))
    ctx.label(host)
    ctx.nontrivial(len(docs) >= 2 and interesting)


def between(text, percent):
    """A position in the text that isn't in a note."""
    spaces = [m.start() for m in re.finditer(r'\s(?![^<]*>)', text)]
    return spaces[percent * (len(spaces) - 1) // 100]


def index(node, doc):
    """What node it is in a document."""
    if node is None:
        return None
    for i, n in enumerate(doc.descendants()):
        if n is node:
            return i
    return 'outside the music'


def language(node):
    p = PitchProcessor()
    p.find_language(node)
    return p.language
