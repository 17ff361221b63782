"""C01: read/write round trip of LilyPond; C02: documents built by hand; C04: HTML and LaTeX."""
import re

from quickly import rhythm
from quickly.dom import util

from . import gen_dom, g as G, gen_host, gen_lily
from .core import enumerated, rule, sub
from .lib import (
    Html, Latex, LilyPond, base, document, element, expect, htm, lily, lydoc, read, roundtrip, same, same_tree, scm, squeeze, tex, variety)

rule('C01', "the source has at least 4 different element types in its tree and at least 6 nodes")


def _c01(text, ctx):
    d = roundtrip(text, read.lily_document, LilyPond.root)
    n = sum(1 for _ in d.descendants())
    v = variety(d)
    ctx.nontrivial(v >= 4 and n >= 6)
    ctx.label('nodes<10' if n < 10 else 'nodes<40' if n < 40 else 'nodes>=40')


@sub('C01', 'documents', lambda: G.strategy(lambda g: gen_lily.lily_document(g, g.choice([0, 1, 1]))), 3600)
def c01_documents(text, ctx):
    _c01(text, ctx)


@sub('C01', 'comments', lambda: G.strategy(lambda g: gen_lily.lily_document(g, 2)), 1800)
def c01_comments(text, ctx):
    ctx.label('with comment' if '%' in text else 'without comment')
    _c01(text, ctx)


def _modes(g):
    p = gen_lily.Lily(g)
    out = []
    for i in range(g.int(1, 3)):
        out += g.choice([p.lyrics, p.drums, p.chords, p.figures])()
    return gen_lily.render(out, g, g.int(0, 2))


@sub('C01', 'modes', lambda: G.strategy(_modes), 1600)
def c01_modes(text, ctx):
    _c01(text, ctx)


def _commands(g):
    p = gen_lily.Lily(g)
    out = []
    for i in range(g.int(1, 6)):
        out += g.choice([p.command, p.override, p.note])()
    toks = p.braces(out)
    if g.chance(30):
        toks = g.choice(['\\new', '\\context']) and ['\\new', 'Staff'] + p.with_block() + toks
    return gen_lily.render(toks, g, g.int(0, 2))


@sub('C01', 'commands', lambda: G.strategy(_commands), 1600)
def c01_commands(text, ctx):
    _c01(text, ctx)


def _blocks(g):
    p = gen_lily.Lily(g)
    out = []
    for i in range(g.int(1, 3)):
        out += g.choice([p.header, p.paper, p.layout, p.midi, p.score, p.bookpart, p.assignment, p.markup_cmd])()
    return gen_lily.render(out, g, g.int(0, 2))


@sub('C01', 'blocks', lambda: G.strategy(_blocks), 1600)
def c01_blocks(text, ctx):
    _c01(text, ctx)


# ---- C02 ------------------------------------------------------------------------------------------

rule('C02', "the document has at least 6 nodes of at least 4 types")


def _attrs(spec, node):
    """Yield (node, attribute, value) for every attribute given to a constructor."""
    if isinstance(spec, tuple) and spec and spec[0] == 'C':
        for a, v in spec[3]:
            yield node, a, v
        nattr = len(node) - len(spec[4])
        if nattr == 0:
            for s, n in zip(spec[4], node):
                yield from _attrs(s, n)
        else:                               # children made by attributes
            for s in spec[4]:
                if s[0] == 'C':
                    match = [n for n in node if type(n).__name__ == s[1].split('.')[1]]
                    if len(match) == 1:
                        yield from _attrs(s, match[0])


def _c02(case, ctx):
    spec, text = case
    d = gen_dom.build(spec)
    w = d.write()
    d2 = read.lily_document(w)
    same_tree(d, d2, "tree read back from %r" % w)
    expect(d.equals(d2), "trees do not compare equal")
    got = ''.join(w.split())
    same(got, ''.join(text.split()), "content of %r" % w)
    for tree in (d, d2):
        for node, a, v in _attrs(spec, tree):
            same(getattr(node, a), v, "attribute %s of %r" % (a, node))
    same(d2.write(), w, "writing the tree read back")
    ctx.nontrivial(variety(d) >= 4 and sum(1 for _ in d.descendants()) >= 6)


@sub('C02', 'documents', lambda: G.strategy(gen_dom.document), 4000)
def c02_documents(case, ctx):
    _c02(case, ctx)


@sub('C02', 'music', lambda: G.strategy(gen_dom.music), 3000)
def c02_music(case, ctx):
    _c02(case, ctx)


# ---- C04 ------------------------------------------------------------------------------------------

rule('C04', "the text has embedded music and at least four other elements")


def _host(case, reader, root, ctx):
    pieces = case
    text = gen_host.text(pieces)
    fragments = [p[1] for p in pieces if not isinstance(p, str)]
    d = reader(text, True)
    docs = [n for n in d.descendants() if isinstance(n, lily.Document)]
    same(len(docs), len(fragments), "number of LilyPond documents in %r" % text)
    for n, f in zip(docs, fragments):
        same_tree(n, read.lily_document(f), "music %r in %r" % (f, text))
    util.replace_unknown(d, text)
    expect(not any(isinstance(n, base.Unknown) for n in d.descendants()), "opaque elements left")
    w = d.write()
    d2 = reader(w, True)
    util.replace_unknown(d2, w)
    same_tree(d2, d, "re-read tree of %r, written as %r" % (text, w))
    expect(d2.equals(d), "trees do not compare equal")
    same(d2.write(), w, "writing again")
    same(squeeze(w), squeeze(''.join(p if isinstance(p, str) else read.lily_document(p[1]).write() for p in pieces)), "content of %r" % w)
    # without origin the tree is the same
    same_tree(reader(text), reader(text, True), "tree without origin")
    # edit the music
    doc = document(root, text)
    rhythm.remove(doc)
    new = ''
    edited = []
    for p in pieces:
        if not isinstance(p, str):
            m = lydoc(p[1])
            rhythm.remove(m)
            edited.append(m.get_transform(True))
            p = re.escape(m.text().rstrip()) + r'\s*'      # whitespace before the closing delimiter may change
        else:
            p = re.escape(p)
        new += p
    expect(re.fullmatch(new, doc.text()), "text after removing durations in %r: %r", text, doc.text())
    docs = [n for n in reader(doc.text()).descendants() if isinstance(n, lily.Document)]
    same(len(docs), len(edited), "number of LilyPond documents in %r" % doc.text())
    for n, m in zip(docs, edited):
        if m is not None:           # empty document
            same_tree(n, m, "music after removing durations, now %r" % doc.text())
    ctx.label('%s fragments' % min(len(fragments), 3))
    ctx.nontrivial(fragments and sum(1 for n in d.descendants() if not isinstance(n, lily.Music)) >= 6)


@sub('C04', 'html', lambda: G.strategy(gen_host.html), 2500, 60000)
def c04_html(case, ctx):
    _host(case, read.htm_document, Html.root, ctx)


@sub('C04', 'latex', lambda: G.strategy(gen_host.latex), 2500, 60000)
def c04_latex(case, ctx):
    _host(case, read.tex_document, Latex.root, ctx)


def _built_html(g):
    """A specification: ('e', tag, attrs, children), ('t', text), ('c', comment), ('d', cdata), ('l', lilypond)."""
    def chars(alphabet):
        return ''.join(g.choice(alphabet) for _ in range(g.int(0, 6)))
    text = ['a', 'b ', ' ', '&', '<', '>', '"', "'", '&amp;', ';', '#', 'é', '\n', ']]>', '-', '</p>', 'lt']

    def element(depth):
        attrs = tuple((n, g.choice(['"', "'"]), chars(text)) for n in ('class', 'id', 'style', 'data-x') if g.chance(25))
        children = []
        for _ in range(g.int(0, 4) if depth else g.int(0, 1)):
            k = g.int(0, 9)
            if k <= 3 or not depth:
                t = chars(text)
                if t and not (children and children[-1][0] == 't'):
                    children.append(('t', t))
            elif k <= 6:
                children.append(element(depth - 1))
            elif k == 7:
                children.append(('c', ''.join(g.choice(['a', ' b', '<', '&', '"', '\n', '>']) for _ in range(g.int(0, 4))) + ' '))
            elif k == 8:
                children.append(('d', ''.join(g.choice(['a', ' b', '<', '&', '"', '\n', '>', ']']) for _ in range(g.int(0, 4))).replace(']]>', '') + ' '))
            else:
                children.append(('l', g.choice(["{ c' d e }", "\\relative { c4 d }", 'x = { c }'])))
        return ('e', g.choice(['p', 'div', 'x:y', 'H1']), attrs, tuple(children))
    return element(3)


def _build_html(spec):
    k = spec[0]
    if k == 't':
        return htm.Text(spec[1])
    if k == 'c':
        return htm.Comment(spec[1])
    if k == 'd':
        return htm.CData(spec[1])
    if k == 'l':
        return htm.m.lilypond(read.lily_document(spec[1]))
    node = htm.m(spec[1], *map(_build_html, spec[3]), **{name: text for name, quote, text in spec[2]})
    for attr, (name, quote, text) in zip(node[0][1:], spec[2]):
        if quote == "'":
            attr[2].replace_with(htm.SqString(*attr[2]))
    return node


def _plain(spec):
    return spec[1] if spec[0] == 't' else ''.join(map(_plain, spec[3])) if spec[0] == 'e' else ''


def _check_html(node, spec):
    if spec[0] == 'e':
        expect(isinstance(node, htm.Element), "%r is not an element (%r)", node, spec)
        same(node[0][0].head, spec[1], "tag name")
        attrs = [n for n in node[0][1:] if isinstance(n, htm.Attribute)]
        same(len(attrs), len(spec[2]), "number of attributes")
        for attr, (name, quote, text) in zip(attrs, spec[2]):
            same(attr[0].head, name, "attribute name")
            if name == 'style' and quote == '"':
                continue                        # not transformed
            same(htm.Element(*[n.copy() for n in attr[2]]).to_plaintext(), text, "attribute value")
        same(node.to_plaintext(), _plain(spec), "plain text")
        node = [n for n in node[1:-1] if not isinstance(n, (htm.Text, htm.EntityRef))]
        other = [s for s in spec[3] if s[0] != 't']
        same(len(node), len(other), "number of non-text nodes")
        for n, s in zip(node, other):
            _check_html(n, s)
    elif spec[0] in 'cd':
        same(node.head, spec[1], "text of %r" % node)


@sub('C04', 'built', lambda: G.strategy(_built_html), 2000, 40000)
def c04_built(spec, ctx):
    node = _build_html(spec)
    _check_html(node, spec)
    w = node.write()
    d = read.htm_document(w)
    same(len(d), 1, "elements in %r" % w)
    _check_html(d[0], spec)
    d2 = document(Html.root, w).get_transform(True)
    util.replace_unknown(d2, w)
    same(d2.write(), w, "writing again")
    ctx.label('markup in text' if '&' in _plain(spec) or '<' in _plain(spec) else 'plain')
    ctx.nontrivial(sum(1 for _ in d.descendants()) >= 8)


# ---- LaTeX built by hand

def _built_tex(g):
    """A specification: (kind, value, children)."""
    def words(first=None):
        alphabet = ['a', 'b', ' ', '.', '\n', '1', ',', '-', "''", '&', 'é', '=', '(', ')', ':', '\n  ']
        return (first or '') + ''.join(g.choice(alphabet) for _ in range(g.int(0 if first else 1, 6)))

    def lily():
        return ('l', g.choice(["{ c' d e }", "\\relative { c4 d }", 'x = { c }', "{ c % d\n e }", '']), ())

    def option():
        return ('o', '', (('t', g.choice(['11pt', 'a=b', 'staffsize=20', 'a, b=1cm']), ()),))

    def command():
        kids = [option()] if g.chance(25) else []
        if g.chance(60):
            kids.append(('b', '', content(0)))
        return ('c', g.choice(['textbf', 'section', 'emph', 'LaTeX', 'documentclass', 'x']), tuple(kids))

    def content(depth):
        kids = []
        g.budget -= 1
        for _ in range(g.int(0, 4 if depth else 2)):
            k = g.weighted([(5, 'text'), (4, 'command'), (1, 'comment'), (2, 'math'), (3, 'env' if depth else 'text'), (2, 'lilypond'), (2, 'lilyenv' if depth else 'lilypond'), (1, 'brace')])
            if k == 'text':
                if not (kids and kids[-1][0] == 't'):
                    kids.append(('t', words('.' if kids and kids[-1][0] == 'c' else None), ()))
            elif k == 'command':
                kids.append(command())
            elif k == 'comment':
                kids.append(('%', g.choice(['', ' a', '}', ' \\x', '$']), ()))
            elif k == 'math':
                kids.append(('m', g.choice(['MathInlineParen', 'MathInlineDollar', 'MathDisplayBracket', 'MathDisplayDollar']),
                             (('t', g.choice(['x^2', 'a + b', 'y_1']), ()),)))
            elif k == 'env' and g.budget > 0:
                if g.chance(15):        # commands are just text in math
                    kids.append(('e', g.choice(['equation', 'align*']), (('t', words(), ()),)))
                else:
                    kids.append(('e', g.choice(['center', 'document', 'itemize', 'figure*', 'x']), content(depth - 1)))
            elif k == 'lilypond':
                kids.append(('c', 'lilypond', ((option(),) if g.chance(30) else ()) + (('b', '', (lily(),)),)))
            elif k == 'lilyenv':
                kids.append(('v', 'lilypond', ((option(),) if g.chance(30) else (), lily())))
            elif k == 'brace' and not (kids and kids[-1][0] == 'c'):
                kids.append(('b', '', content(0)))
        return tuple(kids)
    return content(3), g.chance(50)


TEX = {'o': tex.Option, 'b': tex.Brace}


def _build_tex(spec, helper=True):
    k, value, kids = spec
    build = lambda kids: [_build_tex(n, helper) for n in kids]
    if k == 't':
        return tex.Text(value)
    if k == 'l':
        return read.lily_document(value)
    if k == '%':
        return tex.Comment(value)
    if k == 'c':
        return tex.Command(value, *build(kids))
    if k == 'm':
        return getattr(tex, value)(*build(kids))
    if k == 'e':
        if helper:
            return tex.Environment.with_name(value, *build(kids))
        return tex.Environment(tex.Command('begin', tex.EnvironmentName(value)), *build(kids), tex.Command('end', tex.EnvironmentName(value)))
    if k == 'v':
        options, music = kids
        return tex.Environment(tex.Command('begin', *build(options), tex.EnvironmentName(value), space_after='\n'), _build_tex(music),
                               tex.Command('end', tex.EnvironmentName(value), space_before='\n'))
    return TEX[k](*build(kids))


def _tex_shape(node, lilypond=True):
    """Structure without whitespace between words; adjacent text is joined."""
    result = []
    for n in node:
        if isinstance(n, lily.Document):
            if len(n):
                result.append(('lilypond', n.write().split()))
        elif isinstance(n, tex.Text):
            if not (result and result[-1][0] == 'text'):
                result.append(('text', ''))
            result[-1] = 'text', ' '.join((result[-1][1] + n.head).split())
        else:
            result.append((type(n).__name__, getattr(n, 'head', None), _tex_shape(n)))
    return [r for r in result if r != ('text', '')]


@sub('C04', 'environments', lambda: G.strategy(lambda g: (_word(g), [_word(g) for _ in range(g.int(0, 3))], g.choice(['before', 'after', None, None]), g.choice(['', '\n\n', '\n', ' ']))), 300, 3000)
def c04_environments(case, ctx):
    """Environment.with_name(): on separate lines, or with the spacing that is given."""
    name, words, which, space = case
    kw = {'space_' + which: space} if which else {}
    doc = tex.Document(tex.Brace(tex.Text('a')), tex.Environment.with_name(name, *map(tex.Text, words), **kw), tex.Brace(tex.Text('b')))
    begin, end = '\\begin{%s}' % name, '\\end{%s}' % name
    before = space if which == 'before' else '\n'
    after = space if which == 'after' else '\n'
    inner = ''.join(words)
    want = '{a}' + before + begin + ('\n' + inner + '\n' if words else '\n') + end + after + '{b}'
    same(doc.write(), want, "environment %r" % (case,))
    d = read.tex_document(want)
    env = list(d // tex.Environment)
    same([n.head for n in env[0] // tex.EnvironmentName], [name, name], "names in %r" % want)
    same(inner, ''.join(t.head for t in env[0] / tex.Text).strip(), "contents in %r" % want)
    ctx.nontrivial(len(words) > 1 or bool(kw))


def _word(g):
    return ''.join(g.choice('abcdefghxyz') for _ in range(g.int(1, 8)))


@sub('C04', 'builttex', lambda: G.strategy(_built_tex), 2500, 40000)
def c04_builttex(case, ctx):
    """A LaTeX document that is built by hand is read back the same, including the music."""
    specs, helper = case
    node = tex.Document(*(_build_tex(s, helper) for s in specs))
    w = node.write()
    d = read.tex_document(w, True)
    same(_tex_shape(d), _tex_shape(node), "structure after writing %r and reading" % w)
    music = [n for n in node // lily.Document if len(n)]
    again = [n for n in d // lily.Document if len(n)]
    same(len(again), len(music), "LilyPond documents in %r" % w)
    for a, b in zip(again, music):
        same_tree(a, b, "music in %r" % w)
    util.replace_unknown(d, w)
    same(squeeze(d.write()), squeeze(w), "writing again")
    same(read.tex_document(d.write()).write(), d.write(), "reading and writing again")
    ctx.label('music' if music else 'no music')
    ctx.nontrivial(music and sum(1 for n in node.descendants() if not isinstance(n, lily.Music)) >= 6)


# ---- layout elements -------------------------------------------------------------------------------

def _layout_item(g, depth, top):
    k = g.weighted([(4, 'note'), (2, 'nl'), (2, 'bl'), (2, 'line'), (2, 'col'), (2, 'music'), (1, 'comment'), (1, 'multi')])
    if k == 'note':
        if top:
            k = 'music'
        else:
            return k, g.choice('cdefgab')
    if k in ('nl', 'bl'):
        return k, None
    if k in ('comment', 'multi'):
        return k, g.choice(['x', ' a b', ''])
    if depth <= 0:
        return ('music', [('note', 'c')]) if top else ('note', 'd')
    return k, [_layout_item(g, depth - 1, top and k != 'music') for _ in range(g.weighted([(1, 0), (4, 1), (4, 2), (4, 3)]))]


def _layout_build(spec):
    k, v = spec
    if k == 'note':
        return lily.Note(v)
    if k == 'nl':
        return base.Newline()
    if k == 'bl':
        return base.BlankLine()
    if k == 'comment':
        return lily.SinglelineComment(v)
    if k == 'multi':
        return lily.MultilineComment(v)
    return {'line': base.Line, 'col': base.Column, 'music': lily.MusicList}[k](*map(_layout_build, v))


def _layout_flat(spec):
    """Yield pieces of text, and the number of newlines that are wanted between them."""
    k, v = spec
    if k == 'note':
        yield v
    elif k in ('nl', 'bl'):
        yield 1 if k == 'nl' else 2
    elif k == 'comment':
        yield '%' + v
        yield 1
    elif k == 'multi':
        yield '%{' + v + '%}'
    else:
        between = 1 if k == 'col' else 0
        if k == 'music':
            yield '{'
        else:
            yield 1
        for i, n in enumerate(v):
            if i:
                yield between
            yield from _layout_flat(n)
        if k == 'music':
            yield '}'
        else:
            yield 1


@sub('C02', 'layout', lambda: G.strategy(lambda g: [_layout_item(g, 3, True) for _ in range(g.int(1, 4))]), 1500, 40000)
def c02_layout(case, ctx):
    """Elements that only exist to write newlines."""
    flat = []
    for i, spec in enumerate(case):
        if i:
            flat.append(1 if case[i-1][0] in ('comment', 'nl') else 2)
        flat.extend(_layout_flat(spec))
    want, lines = [], 0
    for x in flat:
        if isinstance(x, str):
            want.append((lines if want else 0, x))
            lines = 0
        else:
            lines = max(lines, x)
    d = lily.Document(*map(_layout_build, case))
    for what, text in (('written', d.write()), ('written indented', d.write_indented())):
        pos = 0
        for lines, x in want:
            start = text.find(x, pos)
            expect(start >= 0 and not text[pos:start].strip(), "%r: %r is not there after %r, in %r", case, x, text[:pos], text)
            if pos:
                same(text.count('\n', pos, start), lines, "%s: newlines before %r (at %d) of %r, in %r" % (what, x, start, case, text))
            pos = start + len(x)
        expect(not text[pos:].strip(), "%r: superfluous text %r", case, text[pos:])
    # the same after reading, without the layout
    def strip(n):
        for c in list(n):
            strip(c)
            if isinstance(c, (base.Newline, base.BlankLine, base.Line, base.Column)):
                i = n.index(c)
                n[i:i+1] = list(c)
    text = d.write()
    strip(d)
    same_tree(read.lily_document(text), d, "%r, written as %r" % (case, text))
    ctx.nontrivial(len(want) >= 6 and len({n for n, x in want}) >= 2)


# ---- wrong heads -----------------------------------------------------------------------------------

HEADS = ['c', 'start', 'stop', 'x y', '\\foo', '\\', 'foo', 'major', '#', '$', '$@', '#@', '@', "'", '`', ',', ',@', ",,", '', 'p', 'ff', True, False, 'on', 'off',
         0, 1, -3, 2**70, 1.5, -0.0, (1, 2), (1, 2, 3), (1,), (1.5, 2), ('1', '2'), [1, 2], None, 'volta', 'bd', 'hh', '<', '\\<', '(', 1+2j]


CHECKED = (element.MappingElement, lily.Int, lily.Fraction, lily.Float, lily.Scheme, scm.Quote, base.BackslashCommand)


def _text_elements():
    seen = set()
    for m in (base, lily, scm, tex, htm):
        for name, c in sorted(vars(m).items()):
            if isinstance(c, type) and issubclass(c, element.TextElement) and c not in seen:
                seen.add(c)
                yield '%s.%s' % (c.__module__.split('.')[-1], name), c


def _valid_head(c, v):
    """True if the constructor should take the value (None: don't know)."""
    if not issubclass(c, CHECKED):
        return
    if isinstance(v, list):     # not hashable
        return False if issubclass(c, (lily.Int, lily.Fraction, lily.Float)) else None
    if issubclass(c, element.MappingElement):
        return any(v == x for x in c.mapping.values())
    if issubclass(c, lily.Int):
        return isinstance(v, int) and not isinstance(v, bool)
    if issubclass(c, lily.Fraction):
        return v == (1, 2)
    if issubclass(c, lily.Float):
        return isinstance(v, (int, float))
    if issubclass(c, lily.Scheme):
        return v in ('#', '$', '$@', '#@')
    if issubclass(c, scm.Quote):
        return v in ("'", '`', ',', ',@')
    if issubclass(c, base.BackslashCommand):
        return isinstance(v, str) and not v.startswith('\\')
    return None


@enumerated('C02', 'heads', [n for n, c in _text_elements()])
def c02_heads(name, ctx):
    """The constructor refuses a head that is not possible; also when the head was forgotten."""
    c = dict(_text_elements())[name]
    wrong = 0
    for v in HEADS + [element.Element(), lily.Note('c'), lily.MusicList(), scm.String('x')]:
        if isinstance(v, element.Element):
            valid = False
        else:
            valid = _valid_head(c, v)
        if valid is None:
            continue
        try:
            n = c(v)
        except TypeError:
            expect(not valid, "%s(%r) is refused", name, v)
            wrong += 1
        else:
            expect(valid, "%s(%r) is accepted", name, v)
            same(n.head, v, "head of %s" % name)
    ctx.nontrivial(wrong >= 4)
