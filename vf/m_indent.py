"""C20: indented output."""
import bisect

from . import gen_dom, g as G, gen_lily
from .core import expect, fail, rule, same, sub
from .lib import LilyPond, Scheme, base, lily, read, same_tree, scm, words
from .m_copy import SPACES, SPACE_VALUES
from parce.lang.scheme import scheme_is_indenting_keyword
from quickly.dom import indent, util

rule('C20', "the output has lines on at least three different indent levels, or at least two nested blocks are opened on one line")

def events(node, path=()):
    """Yield (kind, node, pos, end, index) in document order."""
    try:
        o = node.head_origin
    except AttributeError:
        o = ()
    yield ('head', node, o[0].pos, o[-1].end) if o else ('nohead', node, None, None)
    for n in node:
        yield from events(n)
    try:
        o = node.tail_origin
    except AttributeError:
        o = ()
    yield ('tail', node, o[0].pos, o[-1].end) if o else ('notail', node, None, None)


def positions(d):
    """The (pos, end) of every piece of text in the tree."""
    return [(p, e) for k, n, p, e in events(d) if p is not None]


def first_head(node):
    """The position of the first text of node, None if there is no text."""
    for k, n, p, e in events(node):
        if k == 'head':
            return p
        if k == 'tail':
            return None


def aligned_children(node):
    """The children that lines in the block may be aligned with, in order of preference."""
    if isinstance(node, scm.List):
        if len(node) and isinstance(node[0], scm.Identifier):
            if scheme_is_indenting_keyword(node[0].head):
                return
            yield from node[1:2]
        yield from node[:1]
    elif isinstance(node, (lily.MusicList, lily.ChordBody, lily.MarkupList)):
        yield from node[:1]


def check_levels(text, tree, width, start, align, ctx):
    """Check the indent of every line of the output with a model that works on the text positions."""
    lines = text.split('\n')
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln) + 1)

    def line_col(pos):
        n = bisect.bisect_right(starts, pos) - 1
        return n, pos - starts[n]

    evs = list(events(tree))
    last = -1
    for k, n, p, e in evs:
        if p is not None:
            if p < last or '\n' in text[p:e]:
                ctx.label('skipped: text over more lines')
                return
            last = p

    stack = []                # [node, level or None]
    current = -1              # current line
    seen = set()
    maxopen = 0

    def level(depth):
        """The level inside the innermost of that many blocks."""
        return stack[depth - 1][1] if depth else start

    for i, (k, n, p, e) in enumerate(evs):
        ln, col = line_col(p) if p is not None else (current, 0)
        if ln > current:
            # a new line: give a level to the blocks opened on the previous line
            maxopen = max(maxopen, sum(lv is None for _, lv in stack))
            for j, (b, lv) in enumerate(stack):
                if lv is None:
                    new = level(j) + width
                    indent = len(lines[current]) - len(lines[current].lstrip(' '))
                    for c in aligned_children(b):
                        cp = first_head(c)
                        if cp is not None and cp < p:
                            if line_col(cp)[1] - indent <= align:
                                new = line_col(cp)[1]
                            break
                    stack[j][1] = new
            depth = len(stack)
            if k == 'tail':
                for k2, n2, p2, e2 in evs[i:]:
                    if p2 is not None and (k2 == 'head' or line_col(p2)[0] != ln):
                        break
                    if k2 == 'tail' and n2.indent_children():
                        depth -= 1
            want = level(depth)
            h = text[p:p + 3]
            if k == 'head' and isinstance(n, base.Comment) and len(h) == 3 and len(set(h)) == 1:
                want = 0
            if col != want:
                fail("line %d is indented %d, expected %d (width %d, start %d, align %d) in\n%s",
                     ln + 1, col, want, width, start, align, text)
            seen.add(want)
            current = ln
        if n.indent_children():
            if k in ('head', 'nohead'):
                stack.append([n, None])
            else:
                stack.pop()
    ctx.nontrivial(len(seen) >= 3 or maxopen >= 2)
    ctx.label('levels: %s' % min(len(seen), 5))
    if maxopen >= 2:
        ctx.label('two blocks opened on one line')


def check_output(d, reader, lexicon, options, ctx):
    plain = d.write()
    out = d.write_indented(**options)
    ind = indent.Indenter(**{k: v for k, v in options.items() if v != DEFAULTS[k]})
    same(ind.write(d), out, "Indenter.write with %r" % options)
    same(d.write_indented(**{k: v for k, v in options.items() if v != DEFAULTS[k]}), out, "write_indented without the default options")
    expect(out == '' or out.endswith('\n'), "%r does not end with a newline", out)
    same(''.join(out.split()), ''.join(plain.split()), "output without whitespace")
    d2 = reader(out, True)
    same_tree(reader(plain), d2, "tree of the indented output\n%s" % out)
    same(words(out, lexicon), words(plain, lexicon), "words of the indented output")
    same(d.write(), plain, "plain output after indenting")
    check_levels(out, d2, options['indent_width'], options['start_indent'], options['max_align_indent'], ctx)


def check_newlines(text, plain, out, k, reader, ctx):
    """The newlines between the elements of out are those of text (at most k) or those of plain."""
    p0, p1, p2 = (positions(reader(t, True)) for t in (text, plain, out))
    if len({len(p0), len(p1), len(p2)}) > 1 or p0 != sorted(p0):
        ctx.label('newlines: skipped')
        return
    n = 0
    for i in range(1, len(p0)):
        n0, n1, n2 = (t.count('\n', p[i - 1][1], p[i][0]) for t, p in ((text, p0), (plain, p1), (out, p2)))
        n += n0 > 0
        if n2 != max(n1, min(n0, k)):
            fail("%d newlines between %r and %r in %r, expected %d; %d in %r", n2, out[slice(*p2[i - 1])],
                 out[slice(*p2[i])], out, max(n1, min(n0, k)), n0, text)
    ctx.label('newlines: %s' % ('none' if n == 0 else '1-3' if n < 4 else '>3'))


#: documented default values
DEFAULTS = dict(indent_width=2, start_indent=0, max_align_indent=16)


def options(g):
    return dict(indent_width=g.choice([2, 2, 0, 1, 3, 4, 8]),
                start_indent=g.choice([0, 0, 1, 4, 10]),
                max_align_indent=g.choice([16, 16, 0, 1, 2, 3, 5, 8, 30]))


def _lines(g, text):
    """Replace some spaces with newlines."""
    out = []
    com = string = False
    for i, c in enumerate(text):
        if c == ' ' and not com and not string and g.chance(40):
            c = g.choice(['\n', '\n\n', '\n\n\n\n', '\n  ', '\n' * 12])
        out.append(c)
        if c == '"' and not com and text[i - 1:i] != '\\':
            string = not string
        elif c == '%' and not string:
            com = True
        elif c == '\n':
            com = False
    return ''.join(out)


def _source(g):
    text = gen_lily.lily_document(g, g.choice([0, 1, 1, 2]))
    return _lines(g, text) if g.chance(70) else text, g.choice([None, 10, 10, 1, 2, 3]), options(g)


@sub('C20', 'source', lambda: G.strategy(_source), 1800)
def c20_source(case, ctx):
    text, k, opts = case
    _source_check(text, k, opts, read.lily_document, LilyPond.root, ctx)


def _source_check(text, k, opts, reader, lexicon, ctx):
    d = reader(text, True)
    if k is not None:
        h = len(text)
        if h % 3 == 0:
            # newlines that are asked for remain
            for i, n in enumerate(d.descendants()):
                if (i * 7 + h) % 5 == 0 and isinstance(n.parent, BREAK):
                    n.space_before = '\n' * (1 + i % 3)
        plain = d.write()
        if h % 4 == 0:
            # with other line ends
            util.add_newlines(d, text.replace('\n', '\u2029'), '\u2029', k)
        elif k == 10:
            util.add_newlines(d, text)
        else:
            util.add_newlines(d, text, max_blank_lines=k)
        check_newlines(text, plain, d.write(), k, reader, ctx)
    check_output(d, reader, lexicon, opts, ctx)


def _built(g):
    return g.choice([gen_dom.document, gen_dom.music])(g), g.choice([0, 10, 30, 60]), \
        [g.int(0, 99) for _ in range(30)], options(g)


@sub('C20', 'built', lambda: G.strategy(_built), 1500)
def c20_built(case, ctx):
    (spec, text), percent, numbers, opts = case
    d = gen_dom.build(spec)
    i = 0
    for n in d.descendants():
        for attr in ('space_before', 'space_between', 'space_after_head', 'space_before_tail', 'space_after'):
            # where a line break is possible and may be wanted
            if isinstance(n, BREAK) or attr in ('space_before', 'space_after') and isinstance(n.parent, BREAK):
                if numbers[i % len(numbers)] < percent:
                    setattr(n, attr, '\n' * (1 + i % 3))
                i += 1
    check_output(d, read.lily_document, LilyPond.root, opts, ctx)


BREAK = (lily.Document, lily.MusicList, lily.Block, lily.MarkupList, scm.List)


WORDS = ['define', 'let', 'lambda', 'foo', 'ly:music', 'if', '42', '"str"', "'(a . b)", '#t', 'begin', 'else']


def _scheme(g):
    def expr(depth):
        g.budget -= 1
        k = g.int(0, 9)
        if depth <= 0 or k <= 3 or g.budget < 0:
            return g.choice(WORDS)
        s = g.many(lambda: expr(depth - 1), 0, 5)
        out = g.choice(['(', '(', '(', '#('])
        for i, x in enumerate(s):
            if i:
                out += g.choice([' ', ' ', '\n', '\n  ', '\n\n', ' ; comment\n', '\n;;; comment\n', '\n;; comment\n'])
            out += x
        return out + g.choice(['', '', '', '\n']) + ')'
    return '\n'.join(g.many(lambda: expr(5), 1, 3)), g.choice([None, 10, 10, 1]), options(g)


@sub('C20', 'scheme', lambda: G.strategy(_scheme), 1500)
def c20_scheme(case, ctx):
    text, k, opts = case
    _source_check(text, k, opts, read.scm_document, Scheme.root, ctx)


def _nest(g):
    """Nested blocks, with line breaks at random places."""
    def nl(*s):
        return g.choice([' ', ' ', '\n', '\n', '\n\n', *s])

    def music(depth):
        g.budget -= 1
        k = g.int(0, 11)
        if depth <= 0 or k <= 2 or g.budget < 0:
            return g.choice(["c'4", 'r', 'R1*2', '<c e g>8', '<c\ne>', 'd-.', '\\foo', 's4^"x"'])
        if k <= 6:
            a, b = g.choice(['{}', '{}', ('<<', '>>')])
            return a + nl() + ''.join(music(depth - 1) + nl(' % comment\n', '\n%%% comment\n', '\n%% comment\n')
                                      for _ in range(g.int(0, 4))) + b
        if k == 7:
            return '\\new Staff' + nl() + music(depth - 1) if g.chance(50) else \
                '\\new Staff \\with {' + nl() + 'foo = 2' + nl() + '}' + nl() + '{ ' + music(depth - 1) + nl() + '}'
        if k == 8:
            return '\\times 2/3' + nl() + '{' + nl() + music(depth - 1) + nl() + '}'
        if k == 9:
            return 'c^\\markup {' + nl() + g.choice(['\\bold', 'word', '"s t"']) + ' { a' + nl() + 'b' + nl() + '} }'
        if k == 10:
            return '#(foo' + nl() + 'bar' + nl() + '(let' + nl() + '((a 1)' + nl() + '(b 2))' + nl() + 'x))'
        return '\\relative' + nl() + '{' + nl() + music(depth - 1) + nl() + '}'
    out = []
    for _ in range(g.int(1, 2)):
        m = music(5)
        out.append(g.choice(['', '\\score {' + nl(), 'music = ']) + m)
        if out[-1].startswith('\\score'):
            out[-1] += nl() + '\\layout {' + nl() + '}' + nl() + '}'
    return '\n'.join(out), g.choice([10, 10, 10, 1]), options(g)


@sub('C20', 'nested', lambda: G.strategy(_nest), 2400)
def c20_nested(case, ctx):
    text, k, opts = case
    _source_check(text, k, opts, read.lily_document, LilyPond.root, ctx)


def _broken(g):
    text, k, opts = g.choice([_source, _nest, _nest])(g)
    n = g.int(0, len(text))
    if g.chance(60):
        text = text[:n]
    else:
        text = text[:n] + text[n + g.int(1, 3):]
    return text, 10 if k is None else k, opts


@sub('C20', 'broken', lambda: G.strategy(_broken), 1200)
def c20_broken(case, ctx):
    text, k, opts = case
    d = read.lily_document(text, True)
    plain = d.write()
    util.add_newlines(d, text, max_blank_lines=k)
    out = d.write_indented(**opts)
    same(''.join(out.split()), ''.join(plain.split()), "output without whitespace of %r" % text)
    expect(out == '' or out.endswith('\n'), "%r does not end with a newline", out)
    start = ' ' * opts['start_indent']
    if not any('\n' in (n.write_head() or '') or n.indent_override() is not None for n in d.descendants()):
        for line in out.splitlines():
            expect(line.startswith(start), "line %r of %r does not start with %d spaces", line, out, len(start))
    ctx.nontrivial(out.count('\n') > 2 and len(d) > 0)


@sub('C20', 'space', lambda: G.strategy(lambda g: (gen_dom.document(g)[0], [(g.int(0, 400), g.int(0, 29)) for _ in range(g.int(0, 6))], options(g))), 1500, 40000)
def c20_space(case, ctx):
    """Apart from the indent, the output is what write() gives, with the newlines the elements ask for."""
    spec, spaces, opts = case
    d = gen_dom.build(spec)
    nodes = [d, *d.descendants()]
    for i, v in spaces:
        setattr(nodes[i * len(nodes) // 401], SPACES[v % 5], SPACE_VALUES[v // 5])
    a, b = d.write(), d.write_indented(**opts)
    a, b = ([x.strip() for x in t.strip().split('\n')] for t in (a, b))
    same(b, a, "lines of the indented text of %r" % d.py_dump())
    ctx.nontrivial(len(a) >= 4 and spaces)
