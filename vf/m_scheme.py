"""C03: Scheme expressions and values."""
import math
from fractions import Fraction

from . import g as G, gen_music, gen_scheme
from .core import enumerated, expect, fail, rule, same, sub
from .lib import LilyPond, base, document, element, lily, read, same_tree, scm, show, variety

rule('C03', "expressions: at least 4 types of nodes, and a list or vector in another one; numbers: not a plain decimal integer; "
            "values: a list, a pair, or a string or number that needs more than its digits or letters; lilypond: likewise")

DIGITS = '0123456789abcdef'


# ---- numbers: texts with the value they have ------------------------------------------------------

def uint(g, radix):
    """Return (text, value)."""
    n = g.choice([g.int(0, 9), g.int(0, 999), g.int(0, 10 ** 9), g.int(0, 10 ** 25)])
    text, m = '', n
    while m:
        text, m = DIGITS[m % radix] + text, m // radix
    text = g.choice(['', '', '', '0', '00']) + (text or '0')
    if g.chance(30):
        text = text.upper()
    return text, n


def real(g, radix, exact, signed=False):
    """Return (text, value); exact is True, False, or None when there is no prefix for exactness."""
    sign = g.choice(['+', '-']) if signed else g.choice(['', '', '-', '+'])
    s = -1 if sign == '-' else 1
    k = g.int(0, 9)
    if k <= 2 or k <= 6 and radix != 10:
        text, n = uint(g, radix)
        value = s * n
        if exact is False:
            value = float(value)
    elif k <= 4:
        (t1, n), (t2, d) = uint(g, radix), uint(g, radix)
        if not d:
            t2, d = '11', radix + 1
        text, value = t1 + '/' + t2, Fraction(s * n, d)
        if exact is False:
            value = s * (n / d)
    elif k <= 8 and radix == 10:
        a, b = uint(g, 10)[0], uint(g, 10)[0]
        text = g.choice([a + '.' + b, '.' + b, a + '.', a])
        exp = 0
        if '.' not in text or g.chance(40):
            exp = g.choice([g.int(0, 9), g.int(0, 30)])
            e = g.choice(['', '', '+', '-'])
            exp_text = e + str(exp)
            exp = -exp if e == '-' else exp
        else:
            exp_text = None
        whole, _, frac = text.partition('.')
        value = s * Fraction(int((whole + frac) or '0')) * Fraction(10) ** (exp - len(frac))
        if exact is not True:
            value = s * float(abs(value))
        if exp_text is not None:
            text += g.choice('eeeesfdlE') + exp_text
    elif exact:
        text, value = '1', s
    else:
        sign = sign or '+'
        kind = g.choice(['inf', 'inf', 'nan'])
        text, value = kind + '.0', math.nan if kind == 'nan' else math.inf if sign == '+' else -math.inf
    return sign + text, value


def number(g):
    """Return (text, name of the class, value)."""
    radix = g.choice([10, 10, 10, 10, 2, 8, 16, 16])
    exact = g.choice([None, None, None, True, False])
    prefix = {2: '#b', 8: '#o', 16: '#x'}.get(radix) or g.choice(['', '', '', '#d'])
    ex = {None: '', True: '#e', False: '#i'}[exact]
    pre = [prefix, ex] if g.chance(50) else [ex, prefix]
    pre = ''.join(p.upper() if g.chance(20) else p for p in pre)
    k = g.int(0, 9)
    if exact is True or k <= 6:
        text, value = real(g, radix, exact)
    elif k <= 8:
        t1, re = real(g, radix, exact) if g.chance(75) else ('', 0)
        t2, im = real(g, radix, exact, True) if g.chance(80) else g.choice([('+', 1), ('-', -1)])
        text, value = t1 + t2 + 'i', complex(re, im)
    else:
        (t1, r), (t2, phi) = real(g, radix, exact), real(g, radix, exact)
        text, value = t1 + '@' + t2, complex(r * math.cos(phi), r * math.sin(phi)) if phi == phi and abs(phi) != math.inf else math.nan
        if value != value or abs(r) == math.inf or r != r:
            return number(g)
    return pre + text, {2: 'Bin', 8: 'Oct', 10: 'Number', 16: 'Hex'}[radix], value


def same_value(got, want, text):
    """Numbers are equal, and as exact."""
    if isinstance(want, complex) and isinstance(got, complex) and '@' in text:
        expect(abs(got - want) <= 1e-9 * max(1, abs(want)), "value of %s: got %r, expected %r", text, got, want)
        return
    if want != want and not isinstance(want, complex):
        expect(isinstance(got, float) and got != got, "value of %s: got %r, expected NaN", text, got)
        return
    if isinstance(want, complex):
        expect(isinstance(got, complex) and repr(got.real + 0) == repr(want.real + 0) and repr(got.imag + 0) == repr(want.imag + 0),
               "value of %s: got %r, expected %r", text, got, want)
        return
    expect(got == want and not isinstance(got, (bool, complex)), "value of %s: got %r, expected %r", text, got, want)
    expect(isinstance(got, float) == isinstance(want, float), "exactness of %s: got %r, expected %r", text, got, want)


# ---- expressions: a structure, and its text -------------------------------------------------------

IDENTS = gen_scheme.IDENTS + ['define', 'lambda', 'let*', 'call-with-values', 'a@b', 'x->y', 'λ', 'über', '<', '>', '/', '=', '$x', '~a', '^', '&', ':key', 'a:b', 'if', 'x1', 'ly:music-property', '1-', '->', '-x', '+x', '1st']
CHARS = ['a', 'Z', '0', '(', ')', ';', '"', "'", '`', ',', 'space', 'newline', 'nul', 'tab', 'return', 'é', '#', '\\', '.', '{', '}', '%', '|', 'altmode', ' ']
STRING_PIECES = [('a', 'a'), ('B', 'B'), (' ', ' '), ('\\"', '"'), ('\\\\', '\\'), ('é', 'é'), (';', ';'), ('(', '('), (')', ')'), ('#', '#'), ("'", "'"),
                 ('{', '{'), ('}', '}'), ('%', '%'), ('\t', '\t'), ('|', '|'), ('\n', '\n'), ('\\|', '|'), ('#{', '#{'), ('!#', '!#'), ('text', 'text')]


def atom(g):
    k = g.int(0, 8)
    if k <= 2:
        return ('num',) + number(g)
    if k <= 4:
        return 'id', g.choice(IDENTS)
    if k == 5:
        return ('bool',) + g.choice([('#t', True), ('#f', False), ('#T', True), ('#F', False), ('#true', True), ('#false', False)])
    if k == 6:
        ps = g.many(lambda: g.choice(STRING_PIECES), 0, 6)
        return 'str', '"' + ''.join(p[0] for p in ps) + '"', ''.join(p[1] for p in ps)
    if k == 7:
        return 'char', g.choice(CHARS)
    return 'id', '#:' + g.choice(['key', 'foo-bar', 'x1'])


def comment(g):
    text = g.choice(['', ' x', ' a (b', ';; "x', ' #{ x', ' !'])
    return ('com', text) if g.chance(50) else ('mcom', text)


def expr(g, depth, opts):
    g.budget -= 1
    k = g.int(0, 11) if depth > 0 and g.budget > 0 else 0
    if k <= 4:
        return atom(g)
    if k <= 8:
        items = g.many(lambda: expr(g, depth - 1, opts), 0, 4)
        if len(items) > 1 and g.chance(25):
            items.insert(-1, ('dot',))
        return 'list', comments(g, items, opts)
    if k == 9:
        return 'vec', comments(g, g.many(lambda: expr(g, depth - 1, opts), 0, 3), opts)
    if k == 10:
        items = [expr(g, depth - 1, opts)]
        return 'quote', g.choice(["'", "'", '`', ',', ',@']), ([comment(g)] if 'comments' in opts and g.chance(10) else []) + items
    if 'lily' in opts:
        return 'lily', gen_music.Music(g, ('relative', 'fixed', 'chordmode')).music(1) if g.chance(40) else g.choice(['c', "{ c'4 }", '\\relative c\' { c }', '"x"', '#x', '\\markup { a }', ''])
    return atom(g)


def comments(g, items, opts):
    if 'comments' in opts and g.chance(30):
        items.insert(g.int(0, len(items)), comment(g))
    return items


def gap(g):
    return g.choice([' ', ' ', ' ', '  ', '\n', '\n   ', '\t'])


def render(g, items, top=False):
    """Write the items, with whitespace where that is needed, and sometimes more."""
    out = ''
    prev = None
    for x in items:
        t = text_of(g, x)
        if prev is not None:
            tight = (prev[0] in ('list', 'vec', 'str', 'lily', 'mcom') or x[0] == 'list' and prev[0] != 'char') and x[0] != 'dot' \
                and prev[0] != 'dot' and g.chance(15)
            if prev[0] != 'com' or g.chance(50):
                out += '' if tight else gap(g)
        elif g.chance(20):
            out += gap(g)
        out += t
        prev = x
    return out + (gap(g) if prev and (g.chance(10) or prev[0] == 'char') else '')


def text_of(g, x):
    kind = x[0]
    if kind in ('num', 'id', 'bool', 'str'):
        return x[1]
    if kind == 'char':
        return '#\\' + x[1]
    if kind == 'list':
        return '(' + render(g, x[1]) + ')'
    if kind == 'vec':
        return '#(' + render(g, x[1]) + ')'
    if kind == 'quote':
        return x[1] + (gap(g) if g.chance(10) or x[2][0][0] == 'mcom' else '') + render(g, x[2]).lstrip(' ' if x[1] == ',' else '') \
            if x[1] != ',' else ',' + (render(g, x[2]).lstrip() if x[2][0][0] != 'mcom' else ' ' + render(g, x[2]).lstrip())
    if kind == 'dot':
        return '.'
    if kind == 'com':
        return ';' + x[1] + '\n'
    if kind == 'mcom':
        return '#!' + x[1] + '!#'
    return '#{ ' + x[1] + '\n#}'


def check(node, x):
    """The node is what is described by x."""
    kind = x[0]
    children = ()
    if kind == 'num':
        cls = getattr(scm, x[2])
        expect(type(node) is cls, "%s became %r", x[1], node)
        same_value(node.head, x[3], x[1])
    elif kind == 'id':
        expect(type(node) is scm.Identifier and node.head == x[1], "identifier %r became %r", x[1], node)
    elif kind == 'bool':
        expect(type(node) is scm.Bool and node.head is x[2], "%r became %r", x[1], node)
    elif kind == 'str':
        expect(type(node) is scm.String and node.head == x[2], "string %s became %r", x[1], node)
    elif kind == 'char':
        expect(type(node) is scm.Char and node.head == x[1], "character %r became %r", x[1], node)
    elif kind == 'list':
        expect(type(node) is scm.List, "a list became %r", node)
        children = x[1]
    elif kind == 'vec':
        expect(type(node) is scm.Vector, "a vector became %r", node)
        children = x[1]
    elif kind == 'quote':
        expect(type(node) is scm.Quote and node.head == x[1], "quote %r became %r", x[1], node)
        children = x[2]
    elif kind == 'dot':
        expect(type(node) is scm.Dot, "a dot became %r", node)
    elif kind == 'com':
        expect(type(node) is scm.SinglelineComment and node.head == x[1], "comment %r became %r", x[1], node)
    elif kind == 'mcom':
        expect(type(node) is scm.MultilineComment and node.head == x[1], "comment %r became %r", x[1], node)
    else:
        expect(type(node) is scm.LilyPond, "LilyPond music became %r", node)
        same_tree(base.Document(*node.copy()), base.Document(*read.lily_document(x[1])), "music %r in Scheme" % x[1])
        return
    if len(node) != len(children):
        fail("children of %r: %d instead of %d\n%s", node, len(node), len(children), show(node))
    for n, c in zip(node, children):
        check(n, c)


def rewritten(d, text, reader):
    """Writing it, plain and indented, gives text that is read as the same tree."""
    w = d.write()
    d2 = reader(w)
    same_tree(d, d2, "re-read tree of %r, written as %r" % (text, w))
    expect(d.equals(d2), "trees of %r do not compare equal", text)
    same(d2.write(), w, "writing %r again" % text)
    for a, b in zip(d.descendants(), d2.descendants()):
        if isinstance(a.head, float) or isinstance(b.head, float):
            expect(type(a.head) is type(b.head), "%r became %r after writing %r", a, b, w)
    w = d.write_indented()
    same_tree(d, reader(w), "re-read tree of %r, written indented as %r" % (text, w))


def _expressions(g):
    opts = g.subset(['lily', 'comments'])
    items = comments(g, [expr(g, 4, opts) for _ in range(g.int(1, 3))], opts)
    return items, render(g, items)


@sub('C03', 'expressions', lambda: G.strategy(_expressions), 3000)
def c03_expressions(case, ctx):
    items, text = case
    d = read.scm_document(text)
    expect(type(d) is scm.Document, "%r", d)
    if len(d) != len(items):
        fail("%d expressions instead of %d in %r\n%s", len(d), len(items), text, show(d))
    for n, x in zip(d, items):
        check(n, x)
    rewritten(d, text, read.scm_document)
    if len(items) == 1 and items[0][0] not in ('com', 'mcom'):
        check(read.scm(text), items[0])
    nested = any(isinstance(n, (scm.List, scm.Vector)) for x in d for n in x.descendants())
    ctx.nontrivial(variety(d) >= 4 and nested)


@sub('C03', 'numbers', lambda: G.strategy(lambda g: [(('num',) + number(g)) for _ in range(g.int(1, 4))]), 3000)
def c03_numbers(items, ctx):
    """Every number has its value, in a document, list or vector, quoted, and in LilyPond."""
    text = ' '.join(x[1] for x in items)
    d = read.scm_document('%s\n(%s) #(%s)' % (text, text, text))
    same(len(d), len(items) + 2, "number of expressions in %r" % text)
    for nodes in (d[:-2], d[-2], d[-1]):
        same(len(nodes), len(items), "number of expressions in %r" % text)
        for n, x in zip(nodes, items):
            check(n, x)
    rewritten(d, text, read.scm_document)
    for x in items:
        check(read.scm("'%s" % x[1]), ('quote', "'", [x]))
        check(read.scm(x[1]), x)
        d = read.lily_document('{ \\foo #%s }\n#%s' % (x[1], x[1]))
        for n in (d[0][-1][-1] if isinstance(d[0][-1], lily.Scheme) is False and len(d[0][-1]) else d[0][-1], d[1]):
            expect(isinstance(n, lily.Scheme) and len(n) == 1, "#%s became %s", x[1], show(d))
            check(n[0], x)
            same_value(lily.create_value_from_element(n), x[3], '#' + x[1])
            same_value(lily.get_num_value(n), x[3], '#' + x[1])
            whole = not isinstance(x[3], complex) and x[3] == x[3] and abs(x[3]) != float('inf') and x[3] == int(x[3])
            if not isinstance(x[3], (Fraction, complex)):
                same_value(lily.get_int_value(n), int(x[3]) if whole else None, 'int of #' + x[1])
        ctx.label(x[2], 'inexact' if isinstance(x[3], float) else type(x[3]).__name__)
    ctx.nontrivial(not all(x[1].isdigit() for x in items))


# ---- from a Python value -------------------------------------------------------------------------

TEXT = ['a', 'b', ' ', '"', '\\', '\n', '\t', 'é', '%', '{', '}', '#', ';', '(', ')', '1', "'", '𝄞', '\\n', '|', 'ß', '\r', '\x0b', '\x00', '\u2028']


def string(g):
    return ''.join(g.many(lambda: g.choice(TEXT), 0, 6))


def simple(g):
    k = g.int(0, 5)
    if k <= 1:
        return g.choice([g.int(-9, 9), g.int(-10 ** 6, 10 ** 6), g.int(-10 ** 30, 10 ** 30)])
    if k == 2:
        return g.choice([0.0, -0.0, 0.5, -1.25, 1e300, 1e-300, 5e-324, 1e16, 1e22, 123456.789, float('inf'), float('-inf'), float('nan'), 0.1,
                         g.int(-10 ** 9, 10 ** 9) / g.int(1, 10 ** 6), g.int(1, 999) * 10.0 ** g.int(-30, 30)])
    if k == 3:
        return g.chance(50)
    if k == 4:
        f = Fraction(g.int(-999, 999), g.int(1, 99))
        return f if f.denominator != 1 else f + Fraction(1, 3)      # (an integer is read back as int)
    return string(g)


def value(g, depth):
    k = g.int(0, 9) if depth > 0 else 0
    if k <= 5:
        return simple(g)
    if k <= 7:
        return g.many(lambda: value(g, depth - 1), 0, 4)
    return tuple(g.many(lambda: value(g, depth - 1), 2, 4))


def back(node):
    """The Python value of a Scheme node."""
    if isinstance(node, scm.List):
        items = list(node)
        if len(items) > 2 and isinstance(items[-2], scm.Dot):
            return tuple(back(n) for n in items[:-2] + items[-1:])
        return [back(n) for n in items]
    expect(isinstance(node, (scm.String, scm.Number)), "unexpected %r", node)
    return node.head


@sub('C03', 'values', lambda: G.strategy(lambda g: (value(g, 3), g.choice(IDENTS))), 2500)
def c03_values(case, ctx):
    """A node made from a Python value, in a tree and after writing it, is read as that value."""
    v, ident = case
    node = scm.s(v)
    same(repr(back(node)), repr(v), "value of the node")
    w = node.write()
    again = read.scm(w)
    same_tree(node, again, "written as %r" % w)
    same(repr(back(again)), repr(v), "value of the node, written as %r" % w)
    for fn, char in ((scm.q, "'"), (scm.qq, '`'), (scm.uq, ',')):
        n = fn(v)
        expect(type(n) is scm.Quote and n.head == char and len(n) == 1, "%r became %r", v, n)
        same(n.write(), char + w, "quoted value")
        same_tree(n, read.scm(n.write()), "written as %r" % n.write())
    n = scm.p(scm.i(ident), v)
    same_tree(n, read.scm(n.write()), "written as %r" % n.write())
    same(n[0].head, ident, "identifier")
    expect(isinstance(n[1], scm.Dot) and len(n) == 3, "a pair became %r", n)
    n = scm.p(scm.i(ident), v, v, scm.i(ident))
    expect(isinstance(n[3], scm.Dot) and len(n) == 5, "a pair of four became %r", n)
    same(repr([back(x) for x in n[1:3]]), repr([v, v]), "values in a pair of four")
    same_tree(n, read.scm(n.write()), "written as %r" % n.write())
    ident_node = scm.i('x')
    expect(scm.s(ident_node) is ident_node, "an element is not kept")
    # as a Scheme value in LilyPond
    for n in (lily.Scheme('#', scm.s(v)), lily.Scheme('$', scm.s(v))):
        wanted = None if isinstance(v, (list, tuple)) else v
        same(repr(lily.create_value_from_element(n)), repr(wanted), "value of %r" % n.write())
        d = read.lily_document(n.write())
        expect(len(d) == 1, "%r became %s", n.write(), show(d))
        same_tree(n, d[0], "written as %r" % n.write())
        same(repr(lily.create_value_from_element(d[0])), repr(wanted), "value of %r" % n.write())
    ctx.nontrivial(isinstance(v, (list, tuple, Fraction, float)) or isinstance(v, str) and not v.isalnum())


UNITS = ['mm', 'cm', 'in', 'pt']


def lily_value(g):
    k = g.int(0, 4)
    if k == 0:
        return g.int(0, 10 ** 9)
    if k == 1:
        return g.choice([0.0, 0.5, 1.25, 12.0, 123456.789, 0.1, 0.001, 0.00001, 1e-7, 1e16, g.int(0, 10 ** 9) / g.int(1, 10 ** 6), g.int(1, 999) * 10.0 ** g.int(-20, 20)])
    if k == 2:
        return g.chance(50)
    if k == 3:
        return ''.join(g.many(lambda: g.choice([t for t in TEXT if t not in '\x00\r\x0b\u2028']), 0, 6))
    v = lily_value(g)
    return (v, g.choice(UNITS)) if isinstance(v, (int, float)) and not isinstance(v, bool) else v


@sub('C03', 'lilypond', lambda: G.strategy(lambda g: (lily_value(g), g.choice(['', ' ', '\n']))), 1500)
def c03_lilypond(case, ctx):
    """A LilyPond node made from a Python value gives that value, also after writing and reading it."""
    v, space = case
    node = lily.create_element_from_value(v)
    same(repr(lily.create_value_from_element(node)), repr(v), "value of the node")
    expect(lily.create_element_from_value(node) is node, "an element is not kept")
    text = 'foo = ' + node.write() + space
    d = read.lily_document(text)
    found = [n for n in d if isinstance(n, lily.Assignment)]
    expect(len(found) == 1, "%r became %s", text, show(d))
    n = found[0][-1]
    same_tree(node, n, "value written as %r" % node.write())
    same(repr(lily.create_value_from_element(n)), repr(v), "value read from %r" % node.write())
    num = v[0] if isinstance(v, tuple) else v
    if not isinstance(num, bool):
        same(lily.get_int_value(n), int(num) if isinstance(num, (int, float)) and num == int(num) else None, "int value of %r" % node.write())
    for wrong in (None, [v], (1, 'km'), (1, 2, 3), {}, b'a', ('a', 'mm')):
        try:
            lily.create_element_from_value(wrong)
        except ValueError:
            pass
        else:
            fail("%r has become an element", wrong)
    same(repr(lily.get_num_value(n)), repr(None if isinstance(num, str) else num), "numeric value of %r" % node.write())
    ctx.nontrivial(isinstance(v, (float, tuple)) or isinstance(v, str) and not v.isalnum())


@enumerated('C03', 'escapes', [(r'\\', '\\'), (r'\"', '"'), (r'\|', '|'), (r"'", "'"), (r'\\n', '\\n'), (r'\"n\\', '"n\\')])
def c03_escapes(case, ctx):
    """The escapes in Scheme strings (known_findings.jsonl has those that are not read as Scheme does)."""
    text, want = case
    for before, after in (('', ''), ('a', 'b'), ('\\\\', ' ')):
        n = read.scm('"%s%s%s"' % (before, text, after))
        expect(type(n) is scm.String, "%r", n)
        same(n.head, before.replace('\\\\', '\\') + want + after, 'value of "%s%s%s"' % (before, text, after))
    ctx.nontrivial()


INVALID = [sign + t for sign in ('', '-', '+') for t in ('1/0', '0/0', '12/0', '1/00')] + [
    '#x1/0', '#b2', '#xZZ', '#o8', '#xfg', '#b101/0', '#i1/0', '#b', '#o9/2', '#xg', '#b12', '#o18']


@enumerated('C03', 'invalid', INVALID)
def c03_invalid(case, ctx):
    """Text that starts like a number but has no value, or divides by zero, is not a number."""
    d = read.scm_document(case + ' ', True)
    n = d[0]
    expect(isinstance(n, scm.Number) and isinstance(n.head, float) and n.head != n.head, "%r was read as %r", case, n)
    same((n.pos, n.end), (0, len(case)), "position of %r" % case)
    again = read.scm_document(d.write())
    expect(again[0].head != again[0].head, "%r is written as %r", case, d.write())
    ctx.nontrivial()
