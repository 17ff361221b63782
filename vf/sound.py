"""An independent interpreter: the sounding pitch of every note in a DOM tree read from text.

It knows absolute, relative and fixed octave entry, nested \\transpose, keys, chord mode basses and pitch languages.
It shares no code with quickly.transpose or quickly.relative; pitch names come from parce's tables.
"""
from collections import namedtuple
from fractions import Fraction

from .lib import base, lily
from parce.lang.lilypond_words import pitch_names

SCALE = [0, 1, 2, Fraction(5, 2), Fraction(7, 2), Fraction(9, 2), Fraction(11, 2)]   # whole tones

P = namedtuple('P', 'octave step alter')        # octave -1 is the octave of the pitch name without marks

#: node, kind, pitch as written in its own context, height added by surrounding \transpose commands,
#: block: id of the \relative it is in (None otherwise)
Ev = namedtuple('Ev', 'node kind pitch outer block')


def height(p):
    return p.octave * 6 + SCALE[p.step] + Fraction(p.alter)


def nearest(p, last):
    """p (octave: number of marks) relative to last -> absolute."""
    o = last.octave
    d = (o * 7 + p.step) - (last.octave * 7 + last.step)
    if d > 3:
        o -= 1
    elif d < -3:
        o += 1
    return P(o + p.octave, p.step, p.alter)


def shift(p, a, b):
    """(step exact pitch, representable) of p moved by the interval from a to b."""
    n = p.octave * 7 + p.step + (b.octave * 7 + b.step) - (a.octave * 7 + a.step)
    o, s = divmod(n, 7)
    h = height(p) + height(b) - height(a)
    alter = h - o * 6 - SCALE[s]
    return P(o, s, alter)


class Interpreter:
    def __init__(self, doc, first_absolute=None, language='nederlands'):
        if first_absolute is None:
            version = ()
            for v in doc // lily.Version:
                version = tuple(int(x) for x in v[0].head.split('.'))
                break
            first_absolute = version >= (2, 18)
        self.first = P(-1, 3, 0) if first_absolute else P(0, 0, 0)
        self.language = language
        self.events = []
        self.checks = []            # failing octave checks
        self.blocks = 0
        self.doc = doc              # keep the tree alive
        self.outer = Fraction(0)
        self.walk(doc, 'abs')

    def name(self, node):
        o, s, a = pitch_names[self.language][node.head]
        for m in node:
            if isinstance(m, lily.Octave):
                o += m.head
        return P(o, s, Fraction(a))

    def marks(self, node):
        return self.name(node)._replace(octave=self.name(node).octave + 1)

    def emit(self, node, kind, pitch, block=None):
        self.events.append(Ev(node, kind, pitch, self.outer, block))

    def check(self, node, pitch):
        for m in node:
            if isinstance(m, lily.OctCheck) and m.head != pitch.octave + 1:
                self.checks.append((node, m.head, pitch))

    def note(self, n, mode, kind='note'):
        if isinstance(mode, dict):
            p = nearest(self.marks(n), mode['last'])
            mode['last'] = p
            self.check(n, p)
            self.emit(n, kind, p, mode['id'])
        elif mode == 'abs':
            self.emit(n, kind, self.name(n))
        else:
            p = self.name(n)
            p = p._replace(octave=p.octave + mode)
            self.emit(n, kind, p)

    def kids(self, node):
        return [n for n in node if not isinstance(n, base.Comment)]

    def walk(self, nodes, mode):
        for n in nodes:
            self.visit(n, mode)

    def visit(self, n, mode):
        if isinstance(n, (lily.Language, lily.Include)):
            for s in n // lily.String:
                word = s.head[:-3] if isinstance(n, lily.Include) and s.head.endswith('.ly') else s.head
                if word in pitch_names:
                    self.language = word
        elif isinstance(n, lily.Relative):
            kids = self.kids(n)
            last = self.first
            self.blocks += 1
            block = self.blocks
            if len(kids) > 1 and isinstance(kids[0], lily.Pitchable):
                start = kids.pop(0)
                last = self.name(start)
                self.emit(start, 'start', last, block)
            self.walk(kids, {'last': last, 'id': block})
        elif isinstance(n, lily.Fixed):
            kids = self.kids(n)
            start = kids.pop(0)
            p = self.name(start)
            self.emit(start, 'fixed', p)
            self.walk(kids, p.octave + 1)
        elif isinstance(n, (lily.Absolute, lily.Markup)):
            self.walk(n, 'abs')
        elif isinstance(n, lily.Transpose):
            a, b, *kids = self.kids(n)
            self.emit(a, 'from', self.name(a))
            self.emit(b, 'to', self.name(b))
            old = self.outer
            self.outer += height(self.name(b)) - height(self.name(a))
            self.walk(kids, 'abs' if isinstance(mode, dict) else mode)
            self.outer = old
        elif isinstance(n, lily.Key):
            for c in self.kids(n):
                if isinstance(c, lily.Pitchable):
                    self.emit(c, 'class', self.name(c)._replace(octave=0))
        elif isinstance(n, (lily.Inversion, lily.AddInversion)):
            for c in self.kids(n):
                if isinstance(c, lily.Pitchable):
                    self.emit(c, 'bass', self.name(c)._replace(octave=0))
        elif isinstance(n, (lily.Transposition, lily.StringTuning)):
            for c in n // lily.Pitchable:
                self.emit(c, 'tuning', self.name(c))
        elif isinstance(n, lily.OctaveCheck):
            for c in self.kids(n):
                p = self.name(c)
                if isinstance(mode, dict):
                    mode['last'] = p
                self.emit(c, 'check', p, mode['id'] if isinstance(mode, dict) else None)
        elif isinstance(n, lily.Chord) and isinstance(mode, dict):
            first = None
            last = mode['last']
            for body in n:
                if isinstance(body, lily.ChordBody):
                    for c in body:
                        if isinstance(c, lily.Pitchable):
                            self.note(c, mode, 'chord')
                            first = first or mode['last']
                            self.walk(c, 'abs')
            mode['last'] = first or last
            for c in n:
                if not isinstance(c, lily.ChordBody):
                    self.visit(c, 'abs')
        elif isinstance(n, lily.Pitchable):
            self.note(n, mode)
            self.walk(n, 'abs')         # e.g. scores in markup
        else:
            self.walk(n, mode)


def mask(text, doc, check_value=True):
    """The text with all pitch names and octave marks removed, and octave checks replaced by =."""
    spans = []
    for n in doc // (lily.Pitchable, lily.Octave, lily.OctCheck):
        o = n.head_origin
        spans.append((o[0].pos, o[-1].end, '=' if isinstance(n, lily.OctCheck) else ''))
    out, pos = [], 0
    for a, b, r in sorted(spans):
        out.append(text[pos:a] + '\0' * (r == '') + r)
        pos = b
    out.append(text[pos:])
    return ''.join(out).replace('\0\0', '\0')
