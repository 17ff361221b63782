"""C10: durations."""
from fractions import Fraction

from . import g as G
from .core import enumerated, expect, fail, rule, same, sub
from .lib import lily, read, same_tree

from quickly import duration as Dur

rule('C10', "a value with dots, a named duration, a transformation that changes something or a history with at least 3 operations")

NAMES = {-3: '\\maxima', -2: '\\longa', -1: '\\breve'}


def text_of(log, dots):
    return (NAMES[log] if log < 0 else str(2 ** log)) + '.' * dots


def value_of(log, dots):
    """2^-log * (1 + 1/2 + ... + 1/2^dots)"""
    return sum((Fraction(2) ** -(log + i) for i in range(dots + 1)), Fraction(0))


# (all tables here are made from the definition of a duration, not from the code under test)
WRITABLE = {value_of(l, d): (l, d) for l in range(-3, 11) for d in range(0, 41)}


@enumerated('C10', 'texts', [(l, d) for l in range(-3, 12) for d in range(0, 41)])
def c10_texts(case, ctx):
    log, dots = case
    text, value = text_of(log, dots), value_of(log, dots)
    for t in (text, ' ' + text + ' ', text.replace('.', ' .', 1), text.lstrip('\\')):
        got = Dur.from_string(t)
        same(got, value, "from_string(%r)" % t)
        expect(isinstance(got, Fraction), "from_string gave a %s", type(got))
    same(Dur.from_string(text.rstrip('.'), dots), value, "from_string with dotcount")
    same(Dur.from_string(text.rstrip('.'), dotcount=dots), value, "from_string with dotcount")
    same(Dur.to_string(value), text, "to_string(%r)" % value)
    if dots < 20:
        same(Dur.to_string(float(value)), text, "to_string(%r)" % float(value))
        same(Dur.is_writable(float(value)), log <= 10, "is_writable(%r)" % float(value))
    same(Dur.is_writable(value), log <= 10, "is_writable(%r)" % value)
    same(Dur.log_dotcount(value), (log, dots), "log_dotcount(%r)" % value)
    same(Dur.duration(log, dots), value, "duration%r" % (case,))
    d = lily.Duration.from_string(text)
    same(d.head, value, "Duration.from_string(%r)" % text)
    same(d.write(), text, "Duration.write")
    for note in ('c', 's', 'r', '<c e>', '\\skip '):
        src = '{ %s%s }' % (note, text)
        doc = read.lily_document(src)
        n = doc[0][0]
        same(n.duration, value, "duration of the first node of %r" % src)
        same(n.duration_scaling, (value, 1), "duration_scaling of the first node of %r" % src)
        same(doc.write(), src.replace(' ' + '{', '{'), "write")
    ctx.nontrivial(dots > 0 or log < 0)


def _value(g):
    k = g.int(0, 9)
    if k <= 3:
        return value_of(g.int(-3, 10), g.int(0, 8))
    if k == 4:
        return Fraction(g.int(0, 4096), 2 ** g.int(0, 14))
    if k == 5:
        return Fraction(g.int(0, 400), g.int(1, 400))
    if k == 6:
        return value_of(g.int(-3, 10), g.int(0, 8)) + g.choice([1, -1]) * Fraction(1, 2 ** g.int(6, 20))
    if k == 7:
        return Fraction(2) ** g.int(-14, 6)
    if k == 8:
        return value_of(g.int(-6, 14), g.int(0, 4))
    return Fraction(g.int(0, 20))


@sub('C10', 'writable', lambda: G.strategy(_value), 6000, shards=4)
def c10_writable(v, ctx):
    want = v in WRITABLE
    same(Dur.is_writable(v), want, "is_writable(%r)" % v)
    if want:
        log, dots = WRITABLE[v]
        same(Dur.to_string(v), text_of(log, dots), "to_string(%r)" % v)
        same(Dur.from_string(Dur.to_string(v)), v, "from_string(to_string(%r))" % v)
    elif v > 0:
        # truncated to the longest duration that fits
        log = 0
        while value_of(log, 0) > v:
            log += 1
        while value_of(log - 1, 0) <= v:
            log -= 1
        dots = 0
        while value_of(log, dots + 1) <= v:
            dots += 1
            if dots > 45:
                return
        same(Dur.log_dotcount(v), (log, dots), "log_dotcount(%r) (truncated)" % v)
        if log >= -3:
            same(Dur.to_string(v), text_of(log, dots), "to_string(%r)" % v)
        else:
            try:
                t = Dur.to_string(v)
            except IndexError:
                pass
            else:
                fail("to_string(%r) gave %r instead of raising IndexError", v, t)
    ctx.label('writable' if want else 'not writable')
    ctx.nontrivial(not want or v.numerator > 1)


ALPHA = ['1', '2', '4', '8', '16', '32', '64', '128', '3', '0', '5', '6', '9', '12', '24', '100', '-', '-4', '+4', '\\', 'breve', 'longa', 'maxima',
         'brev', '.', '..', ' ', 'x', '/', '*', '', '4.5', 'e', '_', '1e3']


def _text(g):
    return ''.join(g.many(lambda: g.choice(ALPHA), 0, 3))


@sub('C10', 'invalid', lambda: G.strategy(_text), 2500, shards=2)
def c10_invalid(text, ctx):
    base = text.rstrip(' .')
    base = base.strip()
    ok = base in ([str(2 ** n) for n in range(40)] + ['breve', 'longa', 'maxima', '\\breve', '\\longa', '\\maxima'])
    if not ok and base.lstrip('\\').lstrip('.+ ').lstrip('\\') in ([str(2 ** n) for n in range(40)] + ['breve', 'longa', 'maxima']) \
            or '_' in text or base.lstrip('+-.').startswith('0'):
        return              # a leading dot, plus sign or too many backslashes: lenient
    if ok:
        dots = text.count('.')
        same(Dur.to_string(Dur.from_string(text)), (base if base[0] in '\\0123456789' else '\\' + base) + '.' * dots, "from_string(%r)" % text)
    else:
        try:
            v = Dur.from_string(text)
        except ValueError:
            pass
        else:
            fail("from_string(%r) gave %r instead of raising ValueError", text, v)
    ctx.label('valid' if ok else 'invalid')
    ctx.nontrivial(not ok)


def _shift(g):
    return ((g.int(-3, 10), g.int(0, 4)), [(g.int(-3, 3), g.int(-2, 3), g.choice([Fraction(1), Fraction(2, 3), Fraction(3, 2), Fraction(1, 2), Fraction(4, 5)]))
            for _ in range(g.int(1, 4))], g.choice([Fraction(1), Fraction(1, 3), Fraction(5, 2)]))


@sub('C10', 'transform', lambda: G.strategy(_shift), 4000, shards=2)
def c10_transform(case, ctx):
    (log, dots), shifts, scaling = case
    v = value_of(log, dots)
    total = Dur.Transform()
    expect(not total, "Transform() should evaluate to False")
    same(total.transform(v, scaling), (v, scaling), "empty transform")
    clamped = False
    cur, curscale = v, scaling
    for a, b, s in shifts:
        t = Dur.Transform(a, b, s)
        same(bool(t), (a, b, s) != (0, 0, 1), "bool(%r)" % t)
        nd = max(0, dots + b)
        clamped = clamped or dots + b < 0
        log, dots = log + a, nd
        want = value_of(log, dots)
        same(Dur.shift_duration(cur, a, b), want, "shift_duration(%r, %r, %r)" % (cur, a, b))
        same(t.transform(cur, curscale), (want, curscale * s), "%r.transform(%r, %r)" % (t, cur, curscale))
        same(t.length(cur, curscale), want * curscale * s, "%r.length(%r, %r)" % (t, cur, curscale))
        same((t.transform(cur), t.length(cur)), ((want, s), want * s), "%r.transform(%r), length(%r)" % (t, cur, cur))
        cur, curscale = want, curscale * s
        total = total + t
    if not clamped:
        same(total.transform(v, scaling), (cur, curscale), "combined transform of %r: %r" % (v, shifts))
        same(total.length(v, scaling), cur * curscale, "length of combined transform")
        a = Dur.Transform(*shifts[0])
        b = Dur.Transform(*shifts[-1])
        x, y, z = a + b, b + a, a + b + total
        same((x.log, x.dotcount, x.scale), (y.log, y.dotcount, y.scale), "a + b, b + a")
        w = a + (b + total)
        same((w.log, w.dotcount, w.scale), (z.log, z.dotcount, z.scale), "(a + b) + c, a + (b + c)")
    ctx.label('clamped' if clamped else 'exact')
    ctx.nontrivial(any((a, b, s) != (0, 0, 1) for a, b, s in shifts))


# ---- attributes ----

SOURCES = ["c", "cis'", "c!", "c''?", "r", "R", "s", "\\skip ", "<c e g>", "<c e>", "q", "c'\\rest"]
ARTS = ["", "-.", "\\f", "( -4", "^\"x\"", ":16", "~"]


def _attrs(g):
    src = g.choice(SOURCES)
    dur = g.choice(['', '', '4', '8.', '2..', '\\breve', '16*2/3', '1*3', '4*0', '2*1/2*4/5'])
    if src.startswith('\\skip') and not dur:
        dur = '4'
    if src.endswith('\\rest'):
        src = src[:-5]
        art = '\\rest' + g.choice(ARTS)
    else:
        art = '' if src.startswith('\\skip') else g.choice(ARTS)
    build = g.choice(['text', 'hand'])

    def val():
        return g.choice([Fraction(1), Fraction(1, 2), Fraction(3, 8), Fraction(7, 4), Fraction(2), Fraction(4), Fraction(1, 1024), Fraction(12)])

    def sca():
        return g.choice([Fraction(1, 3), Fraction(2, 3), Fraction(1), Fraction(3), Fraction(5, 4), 1 / 3, 0.5, 2, 1, None, Fraction(0)])

    ops = []
    for _ in range(g.int(1, 6)):
        k = g.int(0, 7)
        if k <= 1:
            v = val()
            ops.append(('duration', g.choice([v, float(v)]) if g.chance(30) else v))
        elif k <= 3:
            ops.append(('scaling', sca()))
        elif k == 4:
            ops.append(('duration_scaling', (val(), sca())))
        elif k == 5:
            ops.append(g.choice([('duration', None), ('del duration', None), ('duration_scaling', None), ('del duration_scaling', None)]))
        elif k == 6:
            ops.append(('del scaling', None))
        else:
            ops.append(('head', val()))
    return src, dur, art, build, ops


def _exact(v):
    return v if isinstance(v, Fraction) else Fraction(v).limit_denominator(1000000)


@sub('C10', 'attributes', lambda: G.strategy(_attrs), 2500, shards=2)
def c10_attributes(case, ctx):
    src, dur, art, build, ops = case
    doc = read.lily_document('{ a8 %s%s%s b16 }' % (src, dur, art))
    if build == 'hand':
        doc = doc.copy()
    node = doc[0][1]
    model = [None, None]
    if dur:
        base, *sc = dur.split('*')
        model = [Dur.from_string(base), Fraction(1)]
        for s in sc:
            model[1] *= Fraction(s)
    required = src.startswith('\\skip')

    def verify(when):
        d, s = model
        same(node.duration, d, "duration %s" % when)
        same(node.scaling, s, "scaling %s" % when)
        same(node.duration_scaling, None if d is None else (d, s), "duration_scaling %s" % when)
        text = '' if d is None else text_of(*WRITABLE[d]) + ('*%s' % s if s != 1 else '')
        want = read.lily_document('{ a8 %s%s%s b16 }' % (src, text, art))
        same_tree(doc, want, "%s the document" % when)
        same(doc.write().split(), want.write().split(), "%s written text" % when)

    verify("initially")
    count = 0
    for op, v in ops:
        if op == 'duration':
            if v is None and required:
                continue
            node.duration = v
            if v is None:
                model = [None, None]
            else:
                model = [_exact(v), model[1] or Fraction(1) if model[1] is None else model[1]]
        elif op == 'head':
            if model[0] is None:
                continue
            for n in node / lily.Duration:
                n.head = v
            model[0] = v
        elif op == 'scaling':
            if model[0] is None:
                try:
                    node.scaling = v
                except ValueError:
                    expect(v not in (1, None), "ValueError when setting scaling to %r", v)
                else:
                    expect(v in (1, None), "no ValueError when setting scaling without duration")
            else:
                node.scaling = v
                model[1] = Fraction(1) if v is None else _exact(v)
        elif op == 'duration_scaling':
            if v is None:
                if required:
                    continue
                node.duration_scaling = None
                model = [None, None]
            else:
                node.duration_scaling = v
                model = [v[0], Fraction(1) if v[1] is None else _exact(v[1])]
        elif op == 'del scaling':
            del node.scaling
            if model[0] is not None:
                model[1] = Fraction(1)
        else:
            if required:
                continue
            delattr(node, op[4:])
            model = [None, None]
        count += 1
        verify("after %s = %r" % (op, v))
    ctx.label('%d operations' % count)
    ctx.nontrivial(count >= 3)


# ---- durations built from text or from parts, with more than one scaling ----

def _scales(g):
    """(log, dots, scaling texts, how it is built, operations)"""
    sc = g.many(lambda: g.choice(['2', '3', '2/3', '3/2', '1/3', '7/5', '1', '4', '0', '12/8']), 0, 4)
    ops = g.many(lambda: (g.choice(['scaling', 'del', 'text', 'tree']), g.choice([Fraction(1), Fraction(5, 4), Fraction(3), 2, 0.5, None])), 0, 4)
    return g.int(-3, 10), g.int(0, 3), sc, g.choice(['string', 'hand', 'read', 'spaced']), ops


@sub('C10', 'scalings', lambda: G.strategy(_scales), 1500)
def c10_scalings(case, ctx):
    log, dots, scales, how, ops = case
    text = text_of(log, dots)
    value, scaling = value_of(log, dots), Fraction(1)
    for s in scales:
        scaling *= Fraction(s)
    if how == 'string':
        full = '*'.join([text] + scales)
        d = lily.Duration.from_string(full)
        note = lily.Note('c', d)
    elif how == 'hand':
        d = lily.Duration(value, *(lily.DurationScaling(Fraction(s)) for s in scales))
        note = lily.Note('c', d)
    else:
        # keep the document, or the nodes will have no parent
        doc = read.lily_document('{ c%s }' % ('*' if how == 'read' else ' * ').join([text] + scales))
        note = doc[0][0]
        d = list(note / lily.Duration)[0]
    same(d.duration(), (value, scaling), "duration() of the Duration")
    expect(all(isinstance(v, (int, Fraction)) for v in d.duration()), "duration() gave no exact numbers: %r", d.duration())
    for op, v in [(None, None)] + ops:
        if op == 'scaling':
            note.scaling = v
            scaling = Fraction(1) if v is None else _exact(v)
        elif op == 'del':
            del note.scaling
            scaling = Fraction(1)
        elif op == 'text':
            note = read.lily_document('{ %s }' % note.write())[0][0].copy()
        elif op == 'tree':
            note = note.copy()
        w = "after %s = %r" % (op, v)
        same(note.duration_scaling, (value, scaling), "duration_scaling " + w)
        same((note.duration, note.scaling), (value, scaling), "duration, scaling " + w)
        same(note.write(), 'c' + text + _written(note, scaling), "written text " + w)
        again = read.lily_document('{ %s }' % note.write())[0][0]
        same(again.duration_scaling, (value, scaling), "duration_scaling after writing and reading, " + w)
        if op in ('scaling', 'del'):
            same(sum(1 for x in note / lily.Duration for _ in x / lily.DurationScaling), int(scaling != 1) if op == 'del' or v in (1, None) else 1,
                 "number of scalings " + w)
    ctx.label(how, '%d scalings' % len(scales))
    ctx.nontrivial(len(scales) > 1)


def _written(note, scaling):
    """The text of the scaling(s): one if there is one, all of them if a duration was given more by hand."""
    parts = [Fraction(s.head) for d in note / lily.Duration for s in d / lily.DurationScaling]
    if len(parts) <= 1:
        return '*%s' % scaling if scaling != 1 else ''
    return ''.join('*%s' % s for s in parts if s != 1)
