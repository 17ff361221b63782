"""C25: questions change nothing, and edits leave nothing behind."""
import io
from fractions import Fraction

from . import g as G, gen_dom, gen_music, gen_rhythm, gen_text, m_spanner, m_time
from .core import expect, fail, rule, same, sub
from .lib import base, document, element, lily, parce, read
from .m_copy import NOT_TRANSFORMED, READERS, ROOTS, nodes_of, snapshot

from quickly import rhythm
from quickly.dom import util
from quickly.dom.edit import Edit
from quickly.dom.indent import Indenter
from quickly.dom.scope import Scope
from quickly.duration import Transform
from quickly.node import Node, Range
from quickly.pitch import Pitch, PitchProcessor
from quickly.relative import Abs2rel, Rel2abs
from quickly.time import Time
from quickly.transpose import Transpose, Transposer

rule('C25', "(ask) the tree has at least 8 nodes and at least 6 of the questions were answered with something else than nothing; "
            "(reuse) at least two of the texts were changed by the edit")


# ---- questions -----------------------------------------------------------------------------------

def attributes(cls):
    """Names of everything that is computed when asked for."""
    out = []
    for c in cls.__mro__:
        for name, v in vars(c).items():
            if not name.startswith('__') and name not in ('parent', '_parent') and hasattr(type(v), '__get__') and not callable(v) \
                    and not isinstance(v, (staticmethod, classmethod)) and name not in out:
                out.append(name)
    return out


ATTRIBUTES = {}

CLASSES = [lily.Music, lily.Durable, lily.Note, lily.Pitchable, base.Comment, element.TextElement, (lily.Slur, lily.Tie, lily.MusicList), lily.Duration, lily.Number, element.HeadElement]


def files(dom):
    """The value of an answer in terms of node numbers."""
    return {id(n): i for i, n in enumerate(nodes_of(dom))}


def plain(v, ids, depth=0):
    """An answer in a form that can be compared between trees."""
    if isinstance(v, Range):
        return 'Range', plain(v.ancestor(), ids), v.start_trail, v.end_trail, v.trail()
    if isinstance(v, Node):
        if id(v) in ids:
            return 'node %d' % ids[id(v)]
        # a new node
        return type(v).__name__, repr(v.head) if isinstance(v, element.Element) else None, [plain(c, ids, depth + 1) for c in v]
    if isinstance(v, dict):
        return 'dict', [(plain(a, ids), plain(b, ids)) for a, b in v.items()]
    if isinstance(v, (list, tuple)) or type(v).__name__ in ('map', 'filter', 'generator'):
        return type(v).__name__, [plain(x, ids, depth + 1) for x in v]
    if isinstance(v, (Scope, Time)):
        return type(v).__name__
    if isinstance(v, (set, frozenset)):
        return sorted(map(repr, v))
    r = repr(v)
    return r if ' at 0x' not in r else type(v).__name__


def printed(f):
    out = io.StringIO()
    f(out)
    return out.getvalue()


class World:
    """A tree and everything needed to ask."""
    def __init__(self, lang, text, origin):
        self.text = text
        self.doc = None
        if lang == 'built':
            self.dom = gen_dom.build(text)
        elif origin:
            self.doc = document(ROOTS[lang], text)
            self.dom = self.doc.get_transform(True)
        else:
            self.dom = READERS[lang](text)
        if self.dom is None:
            self.dom = element.Element()
        self.nodes = nodes_of(self.dom)
        self.ids = files(self.dom)
        self.tools = None

    def new_tools(self):
        self.scope = Scope(self.doc) if self.doc else None
        self.time = Time(self.scope)
        self.wait = Time(self.scope, True)
        self.proc = PitchProcessor()
        return self


def _pos(w, k):
    return k * (len(w.text) + 2) // 401 if w.doc else k


QUESTIONS = {
    # the tree
    'ancestors': lambda w, n, m, k: list(n.ancestors()),
    'trail': lambda w, n, m, k: (n.trail(), n.depth(), n.height(), n.is_first(), n.is_last(), n.is_root(), n.root()),
    'siblings': lambda w, n, m, k: (n.left_sibling(), n.right_sibling(), list(n.left_siblings()), list(n.right_siblings())),
    'forward': lambda w, n, m, k: (list(n.forward(m)), list(n.backward(m))),
    'descendants': lambda w, n, m, k: (list(n.descendants()), list(n.descendants(True))),
    'common': lambda w, n, m, k: (n.common_ancestor(m), n.common_ancestor_with_trail(m)),
    'query': lambda w, n, m, k: (list(n / CLASSES[k % 10]), list(n // CLASSES[k % 10]), list(n << CLASSES[k % 10]), list(n > CLASSES[k % 10]),
                                 list(n < CLASSES[k % 10]), list(n ^ CLASSES[k % 10]), list(n.instances_of(CLASSES[k % 10]))),
    'dump': lambda w, n, m, k: printed(lambda f: n.dump(f)),
    'equals': lambda w, n, m, k: (n.equals(m), n.body_equals(m) if type(n) is type(m) else None, n == m, n in m),
    'range': lambda w, n, m, k: n.range(m),
    'ranged': lambda w, n, m, k: ranged(n, m, k),
    # the element
    'position': lambda w, n, m, k: (n.pos, n.end),
    'find': lambda w, n, m, k: (n.find_child(_pos(w, k)), n.find_descendant(_pos(w, k)), list(n.find_descendants(_pos(w, k))),
                                n.find_descendant_left(_pos(w, k)), n.find_descendant_right(_pos(w, k))),
    'write': lambda w, n, m, k: n.write(),
    'indented': lambda w, n, m, k: n.write_indented(indent_width=k % 5, start_indent=k % 3),
    'py_dump': lambda w, n, m, k: n.py_dump(),
    'repr': lambda w, n, m, k: repr(n),
    'points': lambda w, n, m, k: [(repr(p.text), p.pos, p.end, p.modified) for p in n.points()],
    'heads': lambda w, n, m, k: (n.write_head(), n.write_tail(), n.repr_head(), n.repr_tail()),
    'edits': lambda w, n, m, k: list(w.dom.edits(w.doc.get_root(True), source=w.text)) if w.doc else None,
    'copy': lambda w, n, m, k: (n.copy(), n.copy(False), n.copy_with_origin()),
    'signatures': lambda w, n, m, k: (repr(list(n.signatures())), repr(n.child_order())),
    'indenting': lambda w, n, m, k: (n.indent_children(), list(n.indent_align_indices() or ()), n.indent_override()),
    'concat': lambda w, n, m, k: n.concat_space(n[k % len(n) - 1], n[k % len(n)]) if len(n) else None,
    'attribute': lambda w, n, m, k: attribute(n, k),
    # music
    'version': lambda w, n, m, k: util.lilypond_version(n),
    'language': lambda w, n, m, k: (w.proc.find_language(n), list(w.proc.follow_language(n.descendants())))[1],
    'length': lambda w, n, m, k: w.time.length(n),
    'time': lambda w, n, m, k: (w.time.position(n, bool(k & 1)), w.time.duration(n, m)),
    'cursor': lambda w, n, m, k: w.time.cursor_position(parce.Cursor(w.doc, _pos(w, k), len(w.text))) if w.doc else None,
    'cursors': lambda w, n, m, k: w.time.cursor_duration(parce.Cursor(w.doc, _pos(w, k) // 2, _pos(w, k))) if w.doc else None,
    'value': lambda w, n, m, k: (n.get_value(w.scope), n.get_value_with_scope(w.scope), n.get_name()) if isinstance(n, lily.Reference) else None,
    'assignment': lambda w, n, m, k: value(n) if isinstance(n, (lily.Assignment, lily.Identifier)) else None,
    'variables': lambda w, n, m, k: (list(n.variables()), [n.get_variable(v) for v in n.variables()]) if isinstance(n, lily.HandleAssignments) else None,
    'parallel': lambda w, n, m, k: n.find_parallel() if isinstance(n, lily.Spanner) else None,
    'previous': lambda w, n, m, k: lily.previous_duration(n),
    'pitch': lambda w, n, m, k: (setattr(w.proc, 'language', 'nederlands'), w.proc.find_language(n), w.proc.read_node(n))[2] if isinstance(n, (lily.Note, lily.Pitch)) else None,
    'key': lambda w, n, m, k: key(w, n) if isinstance(n, lily.Key) else None,
    'rhythm': lambda w, n, m, k: rhythm.copy(n, bool(k & 1)),
    'list': lambda w, n, m, k: list(n.get_list()) if isinstance(n, lily.List) else None,
    'scope': lambda w, n, m, k: (list(w.scope.ancestors()), list(w.scope.urls('x.ily'))) if w.scope else None,
}


def value(n):
    return n.get_name(), n.get_value() if isinstance(n, lily.Assignment) else None


def key(w, n):
    w.proc.language = 'nederlands'
    w.proc.find_language(n)
    s = n.key_signature(w.proc, w.scope)
    return s and (repr(s), [s.pitch(i) for i in (3, 60, 61, 66)])


def attribute(n, k):
    """Several of the computed attributes."""
    names = ATTRIBUTES.get(type(n))
    if names is None:
        names = ATTRIBUTES[type(n)] = attributes(type(n))
    out = []
    for i in range(12):
        name = names[(k + i) % len(names)]
        try:
            out.append((name, getattr(n, name)))
        except AttributeError:      # write-only or absent
            out.append((name, AttributeError))
    return out


def ranged(n, m, k):
    if k % 2:
        r = Range.from_nodes(n, m)
    else:
        r = n.range(m)
    if r is None:
        return None
    here = r.trail()
    out = [list(r.nodes()), r.start_node(), r.end_node(), r.is_full(), m in r, r.intersects(m), r.in_range(), list(r.ancestors()), list(r / CLASSES[k % 10])]
    c = r.copy()
    c.enter(), c.goto(m)
    if r.trail() != here:
        fail("asking a range moves it: %r, was %r", r.trail(), here)
    return out


NAMES = sorted(QUESTIONS)
EXPECTED = (ValueError, TypeError, KeyError, AttributeError, IndexError, ZeroDivisionError, AssertionError, OverflowError, StopIteration, RuntimeError, SyntaxError)


def ask(w, q):
    name, i, j, k = q
    n, m = w.nodes[i * len(w.nodes) // 401], w.nodes[j * len(w.nodes) // 401]
    if name in TYPED:       # about some types of node only
        for x in range(len(w.nodes)):
            x = w.nodes[(i * len(w.nodes) // 401 + x) % len(w.nodes)]
            if isinstance(x, TYPED[name]):
                n = x
                break
    try:
        v = QUESTIONS[name](w, n, m, k)
        answer = plain(v, w.ids)
        nothing = v is None or v == [] or v == ()
    except EXPECTED as e:
        answer, nothing = (type(e).__name__, str(e) if ' at 0x' not in str(e) else ''), True
    return answer, nothing, n


TYPED = {'value': lily.Reference, 'assignment': (lily.Assignment, lily.Identifier), 'variables': lily.HandleAssignments, 'parallel': lily.Spanner,
         'pitch': (lily.Note, lily.Pitch), 'key': lily.Key, 'list': lily.List, 'length': lily.Music, 'time': lily.Music, 'previous': lily.Durable}


def _ask(g):
    k = g.int(0, 9)
    if k == 0:
        src = 'built', (gen_dom.document(g) if g.chance(60) else gen_dom.music(g))[0]
    elif k == 1:
        lang, kind, text = gen_text.any_text(g)
        src = lang, NOT_TRANSFORMED.sub('x', text) if lang == 'html' else text
    elif k == 2:
        lang = g.choice(['scheme', 'html', 'latex'])
        text = gen_text.valid(g, lang)
        src = lang, NOT_TRANSFORMED.sub('x', text) if lang == 'html' else text
    elif k == 3:
        src = 'lilypond', m_spanner.text(g)
    elif k < 6:
        src = 'lilypond', m_time.case(g)
    else:
        src = 'lilypond', g.choice([gen_music.text, gen_rhythm.text, lambda g: gen_text.valid(g, 'lilypond')])(g)
    return src, g.chance(80), [(g.choice(NAMES), g.int(0, 400), g.int(0, 400), g.int(0, 400)) for _ in range(g.int(4, 16))], g.int(0, 1000)


@sub('C25', 'ask', lambda: G.strategy(_ask), 2500, 70000)
def c25_ask(case, ctx):
    (lang, text), origin, questions, order = case
    w = World(lang, text, origin).new_tools()
    snap = snapshot(w.dom)
    answers, some = [], 0
    for q in questions:
        answer, nothing, n = ask(w, q)
        some += not nothing
        if not nothing:
            ctx.label(q[0])
        what = "asking %s of %r in %r" % (q, n, text)
        now = snapshot(w.dom)
        if now != snap:
            same(len(now), len(snap), "number of nodes after " + what)
            for a, b in zip(now, snap):
                if a != b and not (a[0] == b[0] and a[2] != a[2]):
                    fail("%s changes %r into %r", what, b[1:], a[1:])
        if w.doc:
            expect(w.doc.get_transform(True) is w.dom, "%s: the document has another tree", what)
            same(w.doc.text(), text, "text of the document after " + what)
        answers.append((q, answer, what))
    # again, with the same tools
    for q, answer, what in answers:
        same(ask(w, q)[0], answer, "again, " + what)
    # another tree, another order, new tools each time
    w2 = World(lang, text, origin)
    answers.sort(key=lambda a: (a[0][1] * 7 + order * a[0][2] + a[0][3]) % 11)
    for q, answer, what in answers:
        same(ask(w2.new_tools(), q)[0], answer, "before other questions, " + what)
    ctx.nontrivial(len(w.nodes) >= 8 and some >= 6)
    ctx.label('in ' + lang)


# ---- edits that are used more often ----------------------------------------------------------------

def transposer(t):
    return Transposer(Pitch(0, *t[0]), Pitch(t[2], *t[1]))


class Indent(Edit):
    """Just writes the tree."""
    readonly = True

    def __init__(self, indenter):
        self.indenter = indenter

    def edit_range(self, r):
        n = r.ancestor()
        if self.document():
            util.add_newlines(n, self.document().text())
        return self.indenter.write(n)


EDITS = {
    'rel2abs': lambda t: Rel2abs(),
    'rel2abs new': lambda t: Rel2abs(first_pitch_absolute=True),
    'abs2rel': lambda t: Abs2rel(),
    'abs2rel no start': lambda t: Abs2rel(start_pitch=False),
    'transpose': lambda t: Transpose(transposer(t)),
    'remove': lambda t: rhythm.Remove(),
    'scaling': lambda t: rhythm.RemoveScaling(),
    'fraction': lambda t: rhythm.RemoveFractionScaling(),
    'explicit': lambda t: rhythm.RhythmExplicit(),
    'implicit': lambda t: rhythm.RhythmImplicit(),
    'per line': lambda t: rhythm.RhythmImplicitPerLine(),
    'copy': lambda t: rhythm.CopyRhythm(),
    'paste': lambda t: rhythm.PasteRhythm([(Fraction(1, 4), 1), None, (Fraction(3, 8), Fraction(1, 3)), (Fraction(1, 16), 1)], t[2] > 0),
    'transform': lambda t: rhythm.RhythmTransform(Transform(t[2], abs(t[2]), Fraction(t[0][0] + 1, 2))),
    'indenter': lambda t: Indent(Indenter(t[0][0], t[1][0], 8 + 8 * t[2])),
    'copy explicit': lambda t: rhythm.CopyRhythm(True),
}


def _reuse(g):
    t = (g.int(0, 6), 0), (g.int(0, 6), 0), g.int(-1, 1)
    return g.choice(sorted(EDITS)), t, [(g.choice([gen_music.text, gen_rhythm.text, gen_music.text])(g), g.choice(['tree', 'document', 'cursor', 'range']), g.int(0, 400), g.int(0, 400))
                                        for _ in range(g.int(2, 4))]


def do(edit, text, kind, a, b):
    """The result and the new text."""
    try:
        if kind in ('tree', 'range'):
            dom = read.lily_document(text)
            if kind == 'tree':
                r = edit.edit(dom)
            else:
                nodes = [n for n in dom.descendants() if isinstance(n, lily.Music)]
                if not nodes:
                    return None, None
                r = edit.edit(nodes[a * len(nodes) // 401])
            new = dom.write()
        else:
            d = document(ROOTS['lilypond'], text)
            c = parce.Cursor(d)
            if kind == 'cursor':
                a, b = sorted((a, b))
                c.select(a * len(text) // 401, b * len(text) // 401)
                r = edit.edit(c)
            else:
                r = edit.edit(d)
            new = d.text(), edit.changes(), edit.document()
    except EXPECTED as e:
        return type(e).__name__, str(e)
    return repr(r) if r is not None else None, new


@sub('C25', 'reuse', lambda: G.strategy(_reuse), 1200, 40000)
def c25_reuse(case, ctx):
    """An edit that was used before does the same as a new one."""
    name, t, uses = case
    edit = EDITS[name](t)
    changed = 0
    for i, (text, kind, a, b) in enumerate(uses):
        got = do(edit, text, kind, a, b)
        fresh = do(EDITS[name](t), text, kind, a, b)
        same(got, fresh, "%s edits the %s of %r after %r" % (name, kind, text, uses[:i]))
        new = got[1][0] if isinstance(got[1], tuple) else got[1]
        changed += new != text or name.startswith(('copy', 'indent'))
    ctx.nontrivial(changed >= 2)
    ctx.label(name)
