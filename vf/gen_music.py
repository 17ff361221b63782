"""Generate LilyPond texts with pitched music in all entry modes (for C14, C15, C18).

The generator chooses absolute pitches and spells them in the mode it is in, so octave checks can be correct.
"""
from fractions import Fraction

from parce.lang.lilypond_words import pitch_names
from . import g as G
from .sound import P, nearest

LANGS = ['nederlands', 'english', 'deutsch', 'italiano', 'français', 'svenska', 'norsk', 'suomi', 'català', 'español', 'português', 'vlaams']
NAMES = {l: {} for l in pitch_names}
for _l, _d in pitch_names.items():
    for _n, (_o, _s, _a) in _d.items():
        NAMES[_l].setdefault((_s, _a), []).append(_n)

DURS = ['', '4', '8', '2.', '16', '1', '4*2/3', '8..']
ARTS = ['', '-.', '->', '(', ')', '~', '\\p', '^"c d"', '\\fermata', '-3', '_\\markup { c d }', '\\<', '\\!']
MODES = ['\\major', '\\minor', '\\dorian']


class Music:
    def __init__(self, g, opts=()):
        self.g = g
        self.lang = 'nederlands'
        self.first = P(0, 0, 0)
        self.opts = opts            # features: 'chordmode', 'fixed', 'transpose', 'absolute', 'relative', 'key', 'check', 'language', 'comments', 'score'

    # --- pitches
    def name(self, step, alter):
        names = NAMES[self.lang].get((step, alter))
        if not names:
            return self.name(step, 0)
        return self.g.choice(names), alter

    def pick(self, near=P(0, 0, 0), spread=9):
        """An absolute pitch near another one."""
        g = self.g
        n = near.octave * 7 + near.step + g.choice([0, 1, -1, 2, -2, 3, -3, 4, -4, 5, 7, -7, 6, -6, 10, -9])
        o, s = divmod(n, 7)
        if not -4 <= o <= 4:
            o = 0
        return P(o, s, g.choice([0, 0, 0, Fraction(1, 2), Fraction(-1, 2), 1, -1]))

    def marks(self, n):
        return "'" * n if n > 0 else ',' * -n

    def spell(self, p, mode):
        """(text, real pitch); mode: 'abs', int (fixed), dict (relative)."""
        name, alter = self.name(p.step, p.alter)
        p = p._replace(alter=alter)
        if mode == 'abs':
            n = p.octave + 1
        elif isinstance(mode, dict):
            n = p.octave - nearest(P(0, p.step, p.alter), mode['last']).octave
        else:
            n = p.octave + 1 - mode
        return name + self.marks(n), p

    def arg(self, near=P(0, 0, 0)):
        return self.spell(self.pick(near), 'abs')

    def last(self, mode):
        return mode['last'] if isinstance(mode, dict) else P(0, 0, 0) if mode == 'abs' else P(mode - 1, 3, 0)

    # --- music
    def note(self, mode, chord=False):
        g = self.g
        text, p = self.spell(self.pick(self.last(mode)), mode)
        if isinstance(mode, dict):
            mode['last'] = p
        if g.chance(8):
            text += g.choice('!?')
        if isinstance(mode, dict) and 'check' in self.opts and g.chance(12):
            text += '=' + self.marks(p.octave + 1)
        return text

    def single(self, mode):
        g = self.g
        k = g.weighted([(14, 'note'), (4, 'chord'), (1, 'r'), (1, 'rest'), (1, 's'), (1, 'q')])
        if k == 'note':
            return self.note(mode) + g.choice(DURS) + (g.choice(ARTS) if g.chance(25) else '')
        if k == 'chord':
            last = mode['last'] if isinstance(mode, dict) else None
            first = None
            notes = []
            for _ in range(g.int(0, 4) if g.chance(85) else 0):
                notes.append(self.note(mode) + ('-1' if g.chance(5) else ''))
                if isinstance(mode, dict):
                    first = first or mode['last']
            if last:
                mode['last'] = first or last
            return '<' + ' '.join(notes) + '>' + g.choice(DURS) + (g.choice(ARTS) if g.chance(20) else '')
        if k == 'rest':
            t, p = self.spell(self.pick(self.last(mode)), mode)
            if isinstance(mode, dict):
                mode['last'] = p
            return t + g.choice(DURS) + '\\rest'
        return k + (g.choice(DURS) if k != 'q' else '')

    def seq(self, mode, depth, lo=0, hi=5):
        g = self.g
        items = g.many(lambda: self.item(mode, depth), lo, hi)
        sep = '\n  ' if g.chance(10) else ' '
        if 'comments' in self.opts and items and g.chance(10):
            items.insert(g.int(0, len(items)), g.choice(['% c d e\n', '%{ c d %}', '%{ e\n f %}']))
        return sep.join(items)

    def block(self, mode, depth):
        g = self.g
        if g.chance(12):
            return '<< ' + ' '.join(g.many(lambda: self.item(mode, depth - 1), 0, 3)) + ' >>'
        return '{ ' + self.seq(mode, depth) + ' }'

    def relative(self, depth):
        g = self.g
        c = ' %{ x %}' if 'comments' in self.opts and g.chance(6) else ''
        if g.chance(60):
            t, p = self.arg()
            return '\\relative' + c + ' ' + t + ' ' + self.relbody({'last': p}, depth)
        return '\\relative' + c + ' ' + self.relbody({'last': self.first}, depth)

    def relbody(self, mode, depth):
        if self.g.chance(10):
            return self.g.choice(['\\new Voice ', '\\new Staff = "c" ', '\\context Voice ', '\\tuplet 3/2 ', '\\grace ']) + self.block(mode, depth)
        return self.block(mode, depth)

    def item(self, mode, depth):
        g = self.g
        g.budget -= 1
        if depth <= 0 or g.budget <= 0 or g.chance(55):
            return self.single(mode)
        kinds = [(3, 'block'), (2, 'tuplet'), (1, 'grace'), (2, 'repeat'), (1, 'voice'), (1, 'tag'), (1, 'bar'), (1, 'lyrics'), (1, 'drums'), (1, 'clef')]
        for w, o in ((4, 'relative'), (2, 'fixed'), (1, 'absolute'), (2, 'transpose'), (2, 'key'), (1, 'transposition'), (1, 'score'), (1, 'chordmode')):
            if o in self.opts:
                kinds.append((w, o))
        if 'check' in self.opts and (isinstance(mode, dict) or mode == 'abs'):
            kinds.append((2, 'check'))
        k = g.weighted(kinds)
        d = depth - 1
        if k == 'block':
            return self.block(mode, d)
        if k == 'tuplet':
            return g.choice(['\\tuplet 3/2 ', '\\times 2/3 ', '\\scaleDurations 2/3 ']) + self.block(mode, d)
        if k == 'grace':
            return g.choice(['\\grace ', '\\acciaccatura ', '\\afterGrace c4 ' if False else '\\grace ']) + (self.single(mode) if g.chance(50) else self.block(mode, d))
        if k == 'repeat':
            t = '\\repeat ' + g.choice(['volta', 'unfold']) + ' 2 ' + self.block(mode, d)
            if g.chance(30):
                t += ' \\alternative { ' + self.block(mode, d) + ' ' + self.block(mode, d) + ' }'
            return t
        if k == 'voice':
            return '\\new ' + g.choice(['Voice', 'Staff', 'Voice = "d"']) + ' ' + self.block(mode, d)
        if k == 'tag':
            return "\\tag #'a " + self.block(mode, d)
        if k == 'bar':
            return g.choice(['|', '\\bar "|."', '\\break', '\\time 3/4', '\\tempo 4 = 60', '\\voiceOne', '\\set Staff.instrumentName = "c"'])
        if k == 'lyrics':
            return '\\new Lyrics \\lyricmode { c d -- e f4 }'
        if k == 'drums':
            return '\\drummode { bd4 sn <bd hh> }'
        if k == 'clef':
            return '\\clef ' + g.choice(['bass', '"treble_8"'])
        if k == 'relative':
            return self.relative(d)
        if k == 'fixed':
            t, p = self.arg()
            return '\\fixed ' + t + ' ' + self.block(p.octave + 1, d)
        if k == 'absolute':
            return '\\absolute ' + self.block('abs', d)
        if k == 'transpose':
            a, p = self.arg()
            b, _ = self.arg(p)
            return '\\transpose %s %s %s' % (a, b, self.block('abs' if isinstance(mode, dict) else mode, d))
        if k == 'key':
            return '\\key ' + self.name(g.int(0, 6), g.choice([0, Fraction(1, 2), Fraction(-1, 2)]))[0] + ' ' + g.choice(MODES)
        if k == 'transposition':
            if g.chance(30):
                return '\\set Staff.stringTunings = \\stringTuning <' + ' '.join(g.many(lambda: self.arg()[0], 0, 3)) + '>'
            return '\\transposition ' + self.arg()[0]
        if k == 'score':
            return (self.note(mode) + '-' if g.chance(60) else g.choice(['\\mark ', 'r4-', 's-', '\\set Staff.instrumentName = '])) + '\\markup { \\score { ' + self.block('abs', d) + ' } }'
        if k == 'chordmode':
            if isinstance(mode, dict):
                return self.single(mode)
            return self.chordmode(mode)
        if k == 'check' and mode == 'abs':
            t, p = self.spell(self.pick(), 'abs')
            return t + ' \\octaveCheck ' + self.spell(p, 'abs')[0]
        if k == 'check':
            t, _ = self.spell(mode['last'], 'abs')
            return '\\octaveCheck ' + t
        raise AssertionError(k)

    def chordmode(self, mode):
        g = self.g

        def chord():
            t, p = self.spell(self.pick(spread=6), 'abs' if isinstance(mode, dict) else mode)
            t += g.choice(['', '4', '2.']) + g.choice(['', ':7', ':m', ':maj7', ':sus4', ':m7.5-', ':1^3'])
            if g.chance(30):
                t += g.choice(['/', '/+']) + self.name(g.int(0, 6), g.choice([0, Fraction(-1, 2)]))[0]
            return t
        return g.choice(['\\chordmode', '\\chords']) + ' { ' + ' '.join(g.many(chord, 0, 4)) + ' }'

    def top(self, depth):
        g = self.g
        k = g.weighted([(4, 'music'), (2, 'assign'), (2, 'score'), (2, 'language'), (1, 'scheme'), (1, 'markup'), (1, 'comment')])
        if k == 'language' and 'language' in self.opts:
            self.lang = g.choice(LANGS)
            return g.choice(['\\language "%s"', '\\include "%s.ly"']) % self.lang
        if k == 'score':
            return '\\score {\n  ' + self.music(depth) + '\n  \\layout { }\n}'
        if k == 'assign':
            return 'music = ' + self.music(depth)
        if k == 'scheme':
            return '#(define c 5)'
        if k == 'markup':
            return '\\markup { c d }' if 'score' not in self.opts else '\\markup { c \\score { ' + self.music(depth - 1) + ' } }'
        if k == 'comment':
            return '% c d e'
        return self.music(depth)

    def music(self, depth):
        g = self.g
        kinds = [(2, 'block')]
        for w, o in ((4, 'relative'), (2, 'fixed'), (1, 'absolute'), (2, 'transpose'), (2, 'chordmode')):
            if o in self.opts:
                kinds.append((w, o))
        k = g.weighted(kinds)
        if k == 'relative':
            return self.relative(depth)
        if k == 'fixed':
            t, p = self.arg()
            return '\\fixed ' + t + ' ' + self.block(p.octave + 1, depth)
        if k == 'absolute':
            return '\\absolute ' + self.block('abs', depth)
        if k == 'transpose':
            a, p = self.arg()
            b, _ = self.arg(p)
            return '\\transpose %s %s %s' % (a, b, self.music(depth - 1) if depth > 0 else self.block('abs', 0))
        if k == 'chordmode':
            return self.chordmode('abs')
        return self.block('abs', depth)

    def document(self, depth=3):
        g = self.g
        parts = []
        v = g.choice([None, '2.12.0', '2.18', '2.17.97', '2.18.0', '2.24.3'])
        if v:
            parts.append('\\version "%s"' % v)
            if v >= '2.18':
                self.first = P(-1, 3, 0)
        if 'language' in self.opts and g.chance(35):
            self.lang = g.choice(LANGS)
            parts.append('\\language "%s"' % self.lang)
        parts.extend(g.many(lambda: self.top(depth), 1, 3))
        return '\n'.join(parts) + '\n' * g.int(0, 1)


ALL = ('relative', 'fixed', 'absolute', 'transpose', 'key', 'transposition', 'score', 'chordmode', 'check', 'language', 'comments')


def text(g, opts=ALL, depth=3):
    return Music(g, opts).document(depth)
