"""C22: variables of blocks, and convenience attributes of elements."""
from fractions import Fraction

from quickly.datatypes import Properties

from . import g as G
from .core import enumerated, expect, rule, same, sub
from .lib import lily, read, same_head, same_tree, scm, show

rule('C22', "block: at least three operations that change something, with other content or comments in the block; "
            "other sub-checks: an attribute changed on an element that has other children, or at least three operations")

# ---- blocks ---------------------------------------------------------------------------------------------------

HEADER = ['title', 'subtitle', 'composer', 'poet', 'copyright', 'tagline', 'instrument']
PAPER = ['indent', 'line-width', 'ragged-right', 'top-margin', 'system-count', 'two-sided', 'page-breaking-system-system-spacing']
LAYOUT = ['indent', 'ragged-last', 'short-indent', 'line-width']
BLOCKS = {
    # name: (class, text, attributes)
    'header': (lily.Header, '\\header {%s}', HEADER),
    'paper': (lily.Paper, '\\paper {%s}', PAPER),
    'layout': (lily.Layout, '\\layout {%s}', LAYOUT),
    'midi': (lily.Midi, '\\midi {%s}', []),
    'with': (lily.With, '\\new Staff \\with {%s} { c }', []),
    'context': (lily.LayoutContext, '\\layout { \\context {%s} }', []),
    'score header': (lily.Header, '\\score { { c } \\header {%s} }', HEADER),
    'document': (lily.Document, '%s', []),
}
NAMES = ['foo', 'fooBar', 'foo-bar', 'instrumentName', 'x', 'bar', 'my name', 'x1', '', 'ähm', ('foo', 'bar'), ('foo', 'x y', 2), ('foo', 1), ('a b', 'c')]
OTHER = {
    'header': ['% comment\n', '%{ block %}', '#(define x 1)'],
    'paper': ['% comment\n', '#(set-paper-size "a4")', '%{ a = 1 %}', '\\foo'],
    'layout': ['% comment\n', '\\context { \\Voice indent = 3 }', '\\override Stem.length = #3', '\\context { \\Staff \\remove "X_engraver" foo = ##t }'],
    'midi': ['% comment\n', '\\tempo 4 = 60', '\\context { \\Score x = 2 }'],
    'with': ['% comment\n', '\\consists "X_engraver"', '\\override Stem.length = 3', '\\omit Clef'],
    'context': ['% comment\n', '\\Voice', '\\consists "X_engraver"', '\\override Stem.length = 3'],
    'document': ['% comment\n', '{ c d }', '\\header { title = "x" foo = "y" }', '\\version "2.20.0"', '\\score { { e } \\header { foo = 1 } }', '#(define x 1)'],
}
OTHER['score header'] = OTHER['header']


def pyvalue(g):
    # no negative numbers: parce sees the minus sign as a direction (a known finding)
    k = g.int(0, 6)
    if k <= 1:
        return ''.join(g.choice(['a', ' ', 'Title', 'é', '"', '\\', '.', '1', '%', '{', 'x y']) for _ in range(g.int(0, 3)))
    if k == 2:
        return g.int(0, 300)
    if k == 3:
        return g.int(0, 5000) / 100
    if k == 4:
        return g.chance(50)
    if k == 5:
        return (g.int(0, 300) if g.chance(50) else g.int(0, 5000) / 100, g.choice(['mm', 'cm', 'in', 'pt']))
    return ['el', g.int(0, len(ELEMENTS) - 1)]


ELEMENTS = [
    lambda: lily.Markup('markup', lily.MarkupList(lily.MarkupWord('a'), lily.MarkupWord('b'))),
    lambda: lily.MusicList(lily.Note('c'), lily.Note('d')),
    lambda: lily.Scheme('#', scm.Quote("'", scm.List(scm.Number(1), scm.Number(2)))),
    lambda: lily.Scheme('#', scm.Identifier('red')),
    lambda: lily.Scheme('#', scm.Number(5)),
    lambda: lily.Scheme('#', scm.String('hi there')),
    lambda: lily.String('x'),
]
# what reading such a variable gives: None: the node itself
ELVALUES = [None, None, None, None, 5, 'hi there', 'x']


TEXTVALUES = [('"x"', 'x'), ('"a b"', 'a b'), ('12', 12), ('1.5', 1.5), ('2\\mm', (2, 'mm')), ('#-3', -3), ('##t', True), ('##f', False),
              ('#12', 12), ('#"s"', 's'), ('#1.5', 1.5), ('\\markup { x }', None), ("#'(1 2)", None), ('word', 'word')]
TEXTNAMES = [(n, n) for n in ('foo', 'fooBar', 'foo-bar', 'instrumentName', 'title', 'line-width', 'indent', 'bar')] + [
    ('"my name"', 'my name'), ('foo.bar', ('foo', 'bar')), ('foo.bar.1', ('foo', 'bar', 1)), ('"x1"', 'x1')]


def text_item(g, kind):
    if g.chance(35):
        return g.choice(OTHER[kind]), None, None
    name, n = g.choice(TEXTNAMES)
    value, v = g.choice(TEXTVALUES)
    if kind in ('with', 'context', 'midi') and value == 'word':
        value, v = '"word"', 'word'
    eq = g.choice(['=', '=', '=', '= %{ c %}', '= % rem\n', '%{ d %} ='])
    if value[0] not in '"\\#':
        eq = '='        # parce only finds a number when it is right after the equal sign
    return '%s %s %s' % (name, eq, value), n, v


def op(g, kind):
    attrs = BLOCKS[kind][2]
    if attrs and g.chance(40):
        name = g.choice(attrs)
        return (g.choice(['setattr', 'setattr', 'setattr', 'delattr', 'noneattr']), name, pyvalue(g))
    return (g.choice(['set', 'set', 'set', 'unset']), g.choice(NAMES), pyvalue(g))


def block_case(g):
    kind = g.choice(sorted(BLOCKS))
    built = g.chance(40)
    if built:
        attrs = BLOCKS[kind][2]
        items = [(n, pyvalue(g)) for n in attrs if g.chance(25)]
        if kind == 'score header':
            kind = 'header'
    else:
        items = [text_item(g, kind) for _ in range(g.int(0, 4))]
    ops = [op(g, kind) for _ in range(g.int(1, 7))]
    if kind in ('header', 'score header', 'paper'):
        # parce does not see a list here when the name starts with a quoted part
        ops = [(o, ('foo', 'a b') if n == ('a b', 'c') else n, v) for o, n, v in ops]
    if kind in ('header', 'score header', 'paper', 'midi', 'with', 'context'):
        # no music here
        items = [(n, ['el', 0] if v == ['el', 1] else v) for n, v in items] if built else items
        ops = [(o, n, ['el', 0] if v == ['el', 1] else v) for o, n, v in ops]
    if not built and any(n is not None and '%' in t for t, n, v in items):
        # see text_item
        ops = [(o, n, 'num' if isinstance(v, (int, float, tuple)) and not isinstance(v, bool) else v) for o, n, v in ops]
    return kind, built, items, ops


def element_value(v):
    """(value to set, value to read or None, expected node class)"""
    if isinstance(v, list):
        el = ELEMENTS[v[1]]()
        return el, ELVALUES[v[1]]
    return v, v


def compare_value(got, wanted, what):
    if wanted is None or isinstance(wanted, (lily.element.Element)):
        expect(got is wanted, "%s: got %r, expected the node %r", what, got, wanted)
    else:
        expect(same_head(got, wanted) and type(got) is type(wanted), "%s: got %r, expected %r", what, got, wanted)


@sub('C22', 'block', lambda: G.strategy(block_case), 4000)
def c22_block(case, ctx):
    kind, built, items, ops = case
    cls, template, attrs = BLOCKS[kind]
    model = []          # [assignment node, name, value]
    if built:
        kw = {}
        for n, v in items:
            value, rd = element_value(v)
            kw[n.replace('-', '_')] = value
            model.append([None, n, value if rd is None else rd])
        block = cls(**kw)
        doc = block if cls is lily.Document else lily.Document(block)
        if cls is lily.With:
            doc[:] = [lily.New(lily.Symbol('Staff'), block, lily.MusicList(lily.Note('c')))]
        elif cls is lily.LayoutContext:
            doc[:] = [lily.Layout(block)]
        same(sorted(block.variables()), sorted(m[1] for m in model), "variables given to the constructor")
        order = block.variables()
        model.sort(key=lambda m: order.index(m[1]))
    else:
        text = template % (' %s ' % ' '.join(i[0] for i in items))
        doc = read.lily_document(text)
        block = doc if cls is lily.Document else next(doc // cls)
        model = [[None, n, v] for _, n, v in items if n is not None]
    nodes = [n for n in block if isinstance(n, lily.Assignment)]
    same(len(nodes), len(model), "number of assignments in %s" % show(doc))
    for m, n in zip(model, nodes):
        m[0] = n
        if m[2] is None:
            m[2] = n.get_value()
    changes = 0

    def check(block, what):
        names = list(dict.fromkeys(m[1] for m in model))
        what = "%s\n%s" % (what, doc.write())
        same(block.variables(), names, "variables() after %s" % what)
        for n in names:
            wanted = [m[2] for m in model if m[1] == n][-1]
            compare_value(block.get_variable(n), wanted, "get_variable(%r) after %s" % (n, what))
            if n in attrs:
                compare_value(getattr(block, n.replace('-', '_')), wanted, "attribute %s after %s" % (n, what))
        for n in attrs + ['nonexistent', ('foo', 99)]:
            if n not in names:
                expect(block.get_variable(n) is None, "get_variable(%r) after %s", n, what)
                if n in attrs:
                    expect(getattr(block, n.replace('-', '_')) is None, "attribute %s after %s", n, what)

    check(block, "start")
    for o, name, v in ops:
        what = (o, name, v)
        before = [(n, list(n.descendants()), n.write()) for n in block]
        found = [m for m in model if m[1] == name]
        if o in ('set', 'setattr'):
            value, rd = element_value(v)
            if o == 'set':
                block.set_variable(name, value)
            else:
                setattr(block, name.replace('-', '_'), value)
            touched = found[-1:]
            if found:
                found[-1][2] = value if rd is None else rd
            else:
                model.append([None, name, value if rd is None else rd])
            changes += 1
        else:
            if o == 'unset':
                block.unset_variable(name)
            elif o == 'delattr':
                delattr(block, name.replace('-', '_'))
            else:
                setattr(block, name.replace('-', '_'), None)
            touched = found
            model[:] = [m for m in model if m not in found]
            changes += bool(found)
        # other content is the same, and in the same order
        after = list(block)
        gone = [m[0] for m in touched]
        kept = [(n, d, w) for n, d, w in before if not any(n is x for x in gone)]
        if o in ('set', 'setattr') and found:
            expect(len(after) == len(before) and all(a is n or n is gone[0] for a, (n, d, w) in zip(after, before)), "order after %r:\n%s", what, doc.write())
            found[-1][0] = after[[n for n, d, w in before].index(gone[0])]
        else:
            new = 1 if o in ('set', 'setattr') else 0
            expect(len(after) == len(kept) + new and all(a is n for a, (n, d, w) in zip(after, kept)), "other content changed by %r:\n%s", what, doc.write())
            if new:
                model[-1][0] = after[-1]
        for n, d, w in kept:
            expect(n.parent is block and list(n.descendants()) == d and n.write() == w, "%r changed by %r", n, what)
        same([n for n in block if isinstance(n, lily.Assignment)], [m[0] for m in model], "assignments after %r" % (what,))
        check(block, what)
    # and in the text
    text = doc.write()
    doc2 = read.lily_document(text)
    same_tree_values(doc, doc2, text)
    ctx.nontrivial(changes >= 3 and len(block) > 1 and (built or any(i[1] is None or '%' in i[0] for i in items)))
    ctx.label(kind, 'built' if built else 'read')


def same_tree_values(doc, doc2, text):
    """The blocks have the same variables after reading the text."""
    blocks = [n for n in [doc, *doc.descendants()] if isinstance(n, lily.HandleAssignments) and list(n / lily.Assignment)]
    blocks2 = [n for n in [doc2, *doc2.descendants()] if isinstance(n, lily.HandleAssignments) and list(n / lily.Assignment)]
    same([type(b) for b in blocks2], [type(b) for b in blocks], "blocks in %r" % text)
    for b, b2 in zip(blocks, blocks2):
        names = b.variables()
        same(b2.variables(), names, "variables in the text %r" % text)
        for n in names:
            v, v2 = b.get_variable(n), b2.get_variable(n)
            if isinstance(v, lily.element.Element):
                expect(isinstance(v2, lily.element.Element), "value of %r in %r is %r", n, text, v2)
                same_tree(v, v2, "value of %r in %r" % (n, text))
            else:
                expect(v == v2 and type(v) is type(v2), "value of %r in %r is %r, not %r", n, text, v2, v)


# ---- elements -------------------------------------------------------------------------------------------------

NOTES = ['c', "c'4", 'c,!8*2/3-.', "cis''?=,2.\\rest", 'd=\'4(\\p', "e!\\rest", 'f,4*1/2*3', "g'16^\"x\" %{ c %} \\f", "<c' e>4", 'r2', 's4*3', '\\skip 4', 'q8']


def attr_value(g, name):
    if name == 'octave':
        return g.int(-4, 4)
    if name == 'accidental':
        return g.choice([None, 'cautionary', 'forced'])
    if name == 'oct_check':
        return g.choice([None, None, 0, 1, -1, 3, -3])
    if name == 'duration':
        return g.choice([None, Fraction(1, 4), Fraction(3, 8), Fraction(7, 16), Fraction(2), 4, 0.5, 0.375, Fraction(1, 128)])
    return g.choice([None, 1, Fraction(2, 3), 2, Fraction(1), 0.5, 1 / 3, Fraction(5, 7)])


def note_case(g):
    text = g.choice(NOTES)
    ops = []
    for _ in range(g.int(1, 6)):
        name = g.choice(['octave', 'accidental', 'oct_check', 'duration', 'scaling'])
        ops.append((name, 'del' if g.chance(20) else attr_value(g, name)))
    return text, ops


def state(n):
    s = {}
    if isinstance(n, lily.Pitchable):
        s.update(octave=n.octave, accidental=n.accidental, oct_check=n.oct_check)
    s.update(duration=n.duration, scaling=n.scaling)
    return s


@sub('C22', 'note', lambda: G.strategy(note_case), 2500)
def c22_note(case, ctx):
    text, ops = case
    doc = read.lily_document('{ b %s b }' % text)
    n = doc[0][1]
    parts = (lily.Octave, lily.Accidental, lily.OctCheck, lily.Duration)
    rest = lambda: [(c, c.write()) for c in n if not isinstance(c, parts)]
    done = 0
    for name, value in ops:
        old = state(n)
        if name not in old or value in (None, 'del') and name == 'duration' and n.duration_required:
            continue
        others = rest()
        wanted = dict(old)
        v = None if value == 'del' else value
        if name == 'octave':
            v = v or 0
        elif name == 'scaling':
            if old['duration'] is None:
                try:
                    n.scaling = value if value != 'del' else None
                except ValueError:
                    expect(value not in (1, None, 'del'), "ValueError setting scaling to %r", value)
                else:
                    expect(value in (1, None, 'del'), "no ValueError setting scaling to %r", value)
                same(state(n), old, "state after setting scaling without duration")
                continue
            v = 1 if v is None else Fraction(v).limit_denominator()
        elif name == 'duration':
            v = v if v is None else Fraction(v)
            wanted['scaling'] = None if v is None else 1 if old['scaling'] is None else old['scaling']
        wanted[name] = v
        if value == 'del':
            delattr(n, name)
        else:
            setattr(n, name, value)
        what = "%r = %r on %r" % (name, value, text)
        same(state(n), wanted, "state after %s" % what)
        same(rest(), others, "other children after %s" % what)
        for c in n:
            expect(c.parent is n, "parent of %r after %s", c, what)
        # the text means the same
        n2 = read.lily_document(doc.write())[0][1]
        same(state(n2), wanted, "state of the text %r after %s" % (doc.write(), what))
        same_tree(n2, n, "re-read tree after %s" % what)
        done += state(n) != old
    ctx.nontrivial(done and len(n) > 0)


def words_(g):
    return g.choice(['nederlands', 'english', 'deutsch', 'català', 'foo', 'a b', 'français'])


def element_case(g):
    kind = g.choice(['version', 'docversion', 'language', 'include', 'includelang', 'grobdir', 'grobstyle', 'tempo', 'idref', 'ident', 'list'])
    v = lambda: None
    if kind in ('version', 'docversion'):
        v = lambda: tuple(g.int(0, 30) for _ in range(g.int(1, 3)))
        start = g.choice(['\\version "2.20.1"', '\\version "2.18"', '% x\n\\version "2.19.80" { c }'] + ['{ c d }', '', '% x\n{ c }'] * (kind == 'docversion'))
    elif kind == 'language':
        v = lambda: words_(g)
        start = '\\language "%s" { c }' % words_(g)
    elif kind in ('include', 'includelang'):
        v = lambda: words_(g) + ('.ly' if kind == 'include' and g.chance(60) else '')
        start = '\\include "%s"' % g.choice(['english.ly', 'foo.ly', 'x'])
    elif kind in ('grobdir', 'grobstyle'):
        cls = lily.GrobDirection if kind == 'grobdir' else lily.GrobStyle
        start = '{ c %s d }' % g.choice(sorted(cls.mapping))
        v = lambda: g.choice(sorted(cls.mapping.values()))
    elif kind == 'tempo':
        start = '{ %s c }' % g.choice(['\\tempo 4 = 60', '\\tempo "Fast" 4. = 80-90', '\\tempo "x"', '\\tempo \\markup { x } 8 = 120', '\\tempo Allegro'])
        v = lambda: g.choice([Fraction(1, 4), Fraction(3, 8), Fraction(1, 2), 2, 0.25])
    else:
        start = ''
        def v():
            first = g.choice(['foo', 'x', 'fooBar', 'foo-bar', 'a b', 'é'])
            if g.chance(50):
                return first
            rest = [g.choice(['foo', 'bar', 1, 23, 'a b', 0]) for _ in range(g.int(1, 2))]
            if [type(x) for x in rest] == [int, int]:
                rest[0] = 'foo'     # foo.1.2 is tokenized as a float
            return (first, *rest)
    return kind, start, [v() for _ in range(g.int(1, 4))]


def siblings_of(n):
    return [(c, c.write()) for c in n.parent if c is not n] if n.parent else []


@sub('C22', 'element', lambda: G.strategy(element_case), 3000)
def c22_element(case, ctx):
    kind, start, values = case
    doc = read.lily_document(start)
    for v in values:
        what = "%r set to %r in %r" % (kind, v, start)
        if kind == 'docversion':
            others = [(n, n.write()) for n in doc if not isinstance(n, lily.Version)]
            doc.version = v
            same(doc.version, v, what)
            same(read.lily_document(doc.write()).version, v, "%s, in %r" % (what, doc.write()))
            same([(n, n.write()) for n in doc if not isinstance(n, lily.Version)], others, "other nodes, %s" % what)
            same(len(list(doc // lily.Version)), 1, "number of versions, %s" % what)
            continue
        if kind in ('idref', 'ident', 'list'):
            names(kind, v, what, ctx)
            continue
        cls, attr = {'version': (lily.Version, 'version'), 'language': (lily.Language, 'language'), 'include': (lily.Include, 'filename'),
                     'includelang': (lily.Include, 'language'), 'grobdir': (lily.GrobDirection, None), 'grobstyle': (lily.GrobStyle, None),
                     'tempo': (lily.Tempo, 'duration')}[kind]
        n = next(doc // cls)
        others = siblings_of(n), [(c, c.write()) for c in n if not isinstance(c, (lily.String, lily.Duration))]
        if attr is None:
            a = 'grob', 'direction' if kind == 'grobdir' else 'style'
            g0, d0 = getattr(n, a[0]), getattr(n, a[1])
            # change the parts in an order where each is valid
            setattr(n, a[0], v[0])
            same((getattr(n, a[0]), getattr(n, a[1])), (v[0], d0), "grob, %s" % what)
            setattr(n, a[1], v[1])
            same((getattr(n, a[0]), getattr(n, a[1])), v, what)
            get = lambda n: (getattr(n, a[0]), getattr(n, a[1]))
            same(n.write(), {v: k for k, v in cls.mapping.items()}[v], "text, %s" % what)
            expect(v[1] in cls.grobs[v[0]], "grobs of %s", cls)
            wanted = v
        else:
            setattr(n, attr, v)
            wanted = v
            if kind == 'includelang':
                from quickly.pitch import pitch_names
                same(n.filename, v + '.ly', what)
                wanted = v if v in pitch_names else None
            elif kind == 'tempo':
                wanted = Fraction(v)
            get = lambda n: getattr(n, attr)
            same(get(n), wanted, what)
        same((siblings_of(n), [(c, c.write()) for c in n if not isinstance(c, (lily.String, lily.Duration))]), others, "other nodes, %s" % what)
        text = doc.write()
        if kind == 'tempo' and not any(isinstance(c, lily.EqualSign) for c in n):
            continue        # a duration without a number is no complete tempo
        doc2 = read.lily_document(text)
        same(get(next(doc2 // cls)), wanted, "%s, in %r" % (what, text))
        same_tree(doc2, doc, what)
    ctx.label(kind)
    ctx.nontrivial(len(values) > 1)


def names(kind, v, what, ctx):
    if kind == 'idref':
        n = lily.IdentifierRef.with_name(v)
        same(n.get_name(), v, what)
        text = lily.Document(lily.MusicList(lily.Note('c'), n, lily.Note('d'))).write()
        same(next(read.lily_document(text) // lily.IdentifierRef).get_name(), v, "%s, in %r" % (what, text))
        m = lily.IdentifierRef('other')
        m.set_name(v)
        same(m.get_name(), v, "set_name: %s" % what)
        expect(m.equals(n), "set_name and with_name: %s", what)
    elif kind == 'ident':
        n = lily.Identifier.with_name(v)
        same(n.get_name(), v, what)
        text = lily.Document(lily.Assignment.with_name(v, lily.Int(1))).write()
        d = read.lily_document(text)
        same(d.variables(), [v], "%s, in %r" % (what, text))
        n.set_name('x')
        same(n.get_name(), 'x', "set_name")
        n.set_name(v)
        same(n.get_name(), v, "set_name: %s" % what)
    else:
        v = v if isinstance(v, tuple) else (v,)
        n = lily.List()
        n.set_list(v)
        same(n.get_list(), v, what)
        for a, b in zip(n[::2], v):
            same(type(a), lily.Int if isinstance(b, int) else type(a), "type of %r" % b)
        expect(all(isinstance(c, lily.Separator) for c in n[1::2]) and len(n) == 2 * len(v) - 1, "separators in %r", n.write())
        for c in n:
            expect(c.parent is n, "parent of %r", c)
        n.set_list(('foo', 'bar'))
        same(n.get_list(), ('foo', 'bar'), "set_list again")
        same(n.write(), 'foo.bar', "set_list again")


@enumerated('C22', 'toggles', [(c.__name__, m) for c in (lily.GrobDirection, lily.GrobStyle, lily.VoiceN, lily.Toggle) for m in sorted(c.mapping)])
def c22_toggles(case, ctx):
    """Every command of a table is read as the value that writes that command."""
    cls = getattr(lily, case[0])
    d = read.lily_document('{ %s c }' % case[1])
    n = d[0][0]
    same(type(n), cls, "node read from %r" % case[1])
    same(n.head, cls.mapping[case[1]], "head of %r" % case[1])
    m = cls.from_mapping(case[1])
    same(m.write(), case[1], "from_mapping")
    same(cls(n.head).write(), case[1], "built by hand")
    if cls is lily.GrobDirection:
        suffix = {1: 'Up', 0: 'Neutral', -1: 'Down'}[n.direction]
        same('\\' + n.grob[0].lower() + n.grob[1:] + suffix, case[1], "grob and direction of %r" % case[1])
    elif cls is lily.GrobStyle:
        same('\\' + n.grob[0].lower() + n.grob[1:] + n.style.title().replace('_', ''), case[1], "grob and style of %r" % case[1])
    elif cls is lily.Toggle:
        on = {True: 'On', False: 'Off'}
        same('\\' + n.prop + on[n.value], case[1], "property and value of %r" % case[1])
        for p in n.props:
            for v in (True, False, False, True):
                old = n.prop
                n.value = v
                same((n.prop, n.value, n.write()), (old, v, '\\' + old + on[v]), "after setting the value to %r" % v)
                n.prop = p
                same((n.prop, n.value, n.write()), (p, v, '\\' + p + on[v]), "after setting the property to %r" % p)
                same_tree(n, read.lily_document(n.write())[0], "read back")
                n.prop = old
            n.prop = p
    ctx.nontrivial()


# ---- properties -----------------------------------------------------------------------------------------------

PN = ['a', 'b', 'repeat_count', 'unfold']


def prop_case(g):
    d = lambda: {n: g.choice([None, 0, 1, 'x', False]) for n in PN if g.chance(40)}
    return d(), [(g.choice(['set', 'del', 'add', 'radd']), g.choice(PN), g.choice([None, 0, 2, 'y']), d()) for _ in range(g.int(0, 6))]


@sub('C22', 'properties', lambda: G.strategy(prop_case), 800)
def c22_properties(case, ctx):
    """quickly.datatypes.Properties is a mapping."""
    model, ops = case
    model = dict(model)
    p = Properties(**model)
    for o, name, value, other in [('', '', '', {})] + ops:
        if o == 'set':
            setattr(p, name, value)
            model[name] = value
        elif o == 'del':
            delattr(p, name)
            model.pop(name, None)
        elif o in ('add', 'radd'):
            q = Properties(**other)
            m, old = dict(model), dict(model)
            if o == 'add':
                r = p + q
                m.update(other)
            else:
                r = q + p
                m = {**other, **model}
            same(vars(p), old, "left operand of +")
            same(vars(q), other, "right operand of +")
            p, model = r, m
        same(vars(p), model, "properties")
        same(bool(p), bool(model), "truth")
        expect(p == Properties(**model) and not (p != Properties(**model)), "equality")
        expect(p != Properties(z=1, **model), "inequality")
        expect(not p == 1 and p != None and p != 'x' and p != model, "unequal to other things")      # noqa: E711
        same(repr(p), '<%s>' % ' '.join(['Properties'] + ['%s=%r' % i for i in model.items()]), "repr")
        for n in PN:
            same(getattr(p, n), model.get(n), n)
            same(n in p, n in model, "%s in properties" % n)
    ctx.nontrivial(len(ops) >= 3)
