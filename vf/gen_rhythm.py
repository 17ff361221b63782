"""Generate LilyPond texts with durations in all entry modes (for C16, C17, C18).

Every item is written with or without its duration; nothing here depends on what a duration means.
"""
SHORT = ['4', '8', '16', '2', '1']
DURS = SHORT + ['4.', '8..', '\\breve', '\\longa', '32', '128', '2...', '4*2/3', '8*3', '4*2*1/3', '1*1/4', '16*3*1/2*5', '2*1/1']
PITCH = ['c', 'd', "e'", 'fis,', "g''", 'ces', 'bes!', "a'?"]
ARTS = ['-.', '->', '(', ')', '~', '\\p', '^"c 4"', '\\fermata', '-3', '_\\markup { c4 d }', '\\<', '\\!', '[', ']', '\\noBeam', ':32']
COMMENTS = ['%{ x4 %}', '% c4 d8\n', '%{ a\n b %}']
SCALES = ['\\tuplet 3/2', '\\times 2/3', '\\scaleDurations 3/4', '\\scaleDurations #1/2', "\\scaleDurations #'(2 . 3)", '\\shiftDurations #1 #0',
          '\\shiftDurations #-1 #1', '\\tuplet 5/4 4', '\\tuplet 3/2 8.', "\\shiftDurations #0 #-1", '\\shiftDurations 1 1', '\\scaleDurations 2']
GRACES = ['\\grace', '\\acciaccatura', '\\appoggiatura', '\\slashedGrace']


class Rhythm:
    def __init__(self, g, opts=(), names=()):
        self.g = g
        self.opts = opts
        self.names = list(names)      # variables that may be referenced

    def dur(self, percent=45):
        d = self.duration(percent)
        return ' ' + d if d.startswith('%') else d

    def duration(self, percent):
        g = self.g
        if not g.chance(percent):
            return ''
        d = g.choice(SHORT) if g.chance(65) else g.choice(DURS)
        if 'comments' in self.opts and g.chance(3):
            d = g.choice(COMMENTS) + d
        return d

    def art(self):
        return self.g.choice(ARTS) if self.g.chance(18) else ''

    def bare(self):
        g = self.g
        return (g.choice(SHORT) if g.chance(65) else g.choice(DURS)) + self.art()

    def note(self):
        g = self.g
        k = g.weighted([(12, 'note'), (4, 'chord'), (2, 'r'), (1, 'R'), (2, 's'), (1, 'q'), (3, 'bare'), (1, 'rest'), (1, 'skip')])
        if k == 'note':
            return g.choice(PITCH) + self.dur() + self.art()
        if k == 'chord':
            return '<' + ' '.join(g.choice(PITCH) + ('-1' if g.chance(6) else '') for _ in range(g.int(0, 3))) + '>' + self.dur() + self.art()
        if k == 'bare':
            return self.bare()
        if k == 'rest':
            return g.choice(PITCH[:5]) + self.dur() + '\\rest' + self.art()
        if k == 'skip':
            return self.skip()
        return k + self.dur() + self.art()

    def skip(self):
        return '\\skip ' + (self.g.choice(SHORT) if self.g.chance(65) else self.g.choice(DURS))

    def seq(self, item, lo=0, hi=6):
        g = self.g
        items = g.many(item, lo, hi)
        out = ''
        for i in items:
            if 'comments' in self.opts and g.chance(6):
                out += g.choice(COMMENTS) + ' '
            out += i + g.weighted([(12, ' '), (3, '\n  '), (1, '\n\n')])
        return out

    def block(self, depth):
        g = self.g
        if g.chance(15):
            return '<< ' + self.seq(lambda: self.item(depth - 1), 0, 3) + '>>'
        return '{ ' + self.seq(lambda: self.item(depth)) + '}'

    def item(self, depth):
        g = self.g
        g.budget -= 1
        if depth <= 0 or g.budget <= 0 or g.chance(65):
            return self.note()
        kinds = [(4, 'block'), (4, 'scale'), (3, 'grace'), (2, 'repeat'), (2, 'context'), (3, 'command'), (2, 'lyrics'), (2, 'drums'), (1, 'chords'),
                 (1, 'figures'), (1, 'relative'), (1, 'skip'), (2, 'partial')]
        for w, o in ((2, 'aftergrace'), (3, 'ref'), (1, 'score'), (1, 'after'), (1, 'partcombine'), (1, 'parallel'), (2, 'alternative'), (1, 'unfold'), (1, 'scheme')):
            if o in self.opts:
                kinds.append((w, o))
        return getattr(self, 'do_' + g.weighted(kinds))(depth - 1)

    def one(self, d):
        """A single music expression."""
        if 'ref' in self.opts and self.names and self.g.chance(12):
            return self.do_ref(d)
        return self.note() if self.g.chance(40) else self.block(d)

    def arg(self, d):
        """A block or a variable."""
        return self.do_ref(d) if 'ref' in self.opts and self.names and self.g.chance(12) else self.block(d)

    def do_block(self, d):
        return self.block(d)

    def do_scale(self, d):
        s = self.g.choice(SCALES)
        if s[-1].isdigit() and '#' not in s:
            return s + ' ' + self.block(d)
        return s + ' ' + (self.arg(d) if self.g.chance(70) else self.g.choice(PITCH) + self.dur() + self.art())

    def do_grace(self, d):
        return self.g.choice(GRACES) + ' ' + (self.arg(d) if self.g.chance(50) else self.g.choice(PITCH) + self.dur() + self.art())

    def do_aftergrace(self, d):
        return '\\afterGrace ' + self.g.choice(['', '15/16 ']) + (self.g.choice(PITCH) + self.dur() if self.g.chance(60) else self.arg(d)) + ' ' + self.arg(d)

    def do_unfold(self, d):
        return '\\unfoldRepeats ' + (self.do_alternative(d) if 'alternative' in self.opts and self.g.chance(60) else self.do_repeat(d) if self.g.chance(40) else self.arg(d))

    def hash(self, d):
        """Music in Scheme."""
        return '#{ ' + self.block(d) + self.g.choice([' ', ' ' + self.g.choice(PITCH) + self.dur() + ' ', ' ' + self.g.choice(PITCH) + self.dur() + ' ' + self.block(d) + ' ']) + '#}'

    def do_scheme(self, d):
        return self.g.choice(['#(foo %s)', '$(foo x %s 5)', '#(let ((a %s) (b #{ c16 #})) (foo a b))']) % self.hash(d)

    def do_repeat(self, d):
        return '\\repeat ' + self.g.choice(['volta', 'unfold', 'percent', 'tremolo']) + ' ' + self.g.choice(['2', '3', '4', '#3', '1']) + ' ' + self.one(d)

    def do_alternative(self, d):
        alts = self.g.many(lambda: self.block(d - 1), 0, 3)
        body, alts = self.block(d), ' \\alternative { ' + ' '.join(alts) + ' }'
        if body.startswith('{') and body.endswith('}') and self.g.chance(35):       # in the music
            body, alts = body[:-1] + self.note() + alts + ' }', ''
        return '\\repeat ' + self.g.choice(['volta', 'unfold']) + ' ' + self.g.choice('234') + ' ' + body + alts

    def do_context(self, d):
        return self.g.choice(['\\new Voice', '\\new Staff', '\\context Voice = "c4"', '\\new Staff \\with { fontSize = 2 }', "\\tag #'a"]) + ' ' + self.block(d)

    def do_command(self, d):
        return self.g.choice(['\\key c \\major', '\\clef bass', '\\time 3/4', '|', '\\bar "|."', '\\tempo 4 = 60', '\\tempo "c4" 8. = 100', '\\voiceOne',
                              '\\override NoteHead.color = #red', '\\set Staff.instrumentName = "c4"', '\\ottava #1', '\\once \\hide NoteHead'])

    def do_partial(self, d):
        return '\\partial ' + (self.g.choice(SHORT) if self.g.chance(65) else self.g.choice(DURS))

    def do_after(self, d):
        return '\\after ' + self.g.choice(SHORT) + ' ' + self.g.choice(['-.', '\\f', '(']) + ' ' + self.g.choice(PITCH) + self.dur()

    def do_skip(self, d):
        return '\\skip ' + self.block(d)

    def do_relative(self, d):
        return self.g.choice(["\\relative c' ", '\\relative ', '\\fixed c ', '\\transpose c d ', '\\absolute ']) + self.block(d)

    def do_ref(self, d):
        return '\\' + self.g.choice(self.names + ['unknown']) if self.names else self.note()

    def do_score(self, d):
        return self.g.choice(PITCH) + self.dur() + '^\\markup { c4 \\score { ' + self.block(d) + ' } }'

    def do_partcombine(self, d):
        return '\\partcombine ' + self.block(d) + ' ' + self.block(d)

    def do_lyrics(self, d):
        return self.g.choice(['\\new Lyrics \\lyricmode', '\\lyricmode', '\\lyrics']) + ' { ' + self.seq(self.lyric) + '}'

    def do_drums(self, d):
        return self.g.choice(['\\new DrumStaff \\drummode', '\\drummode', '\\drums']) + ' { ' + self.seq(self.drum) + '}'

    def do_chords(self, d):
        return self.g.choice(['\\chordmode', '\\chords']) + ' { ' + self.seq(self.chord) + '}'

    def do_figures(self, d):
        return self.g.choice(['\\figuremode', '\\figures']) + ' { ' + self.seq(self.figure) + '}'

    def lyric(self):
        g = self.g
        k = g.weighted([(8, 'word'), (2, 'string'), (2, 'bare'), (1, 'skip'), (1, 'markup'), (1, '--'), (1, '__'), (1, 'cmd')])
        if k == 'word':
            t = g.choice(['la', 'Al', 'be', "l'a", 'c']) + self.dur()
            return t + g.choice([' --', ' __']) if g.chance(10) else t
        if k == 'string':
            return g.choice(['"a b"', '"4"', '""']) + self.dur()
        if k == 'bare':
            return g.choice(SHORT)
        if k == 'skip':
            return g.choice(['_' + self.dur(), self.skip()])
        if k == 'markup':
            d = self.dur()
            return '\\markup ' + g.choice(['x', '{ x y }', '\\bold "x"']) + (d and ' ' + d)
        if k == 'cmd':
            return '\\set stanza = "4"'
        return 'x' + self.dur() + ' ' + k

    def drum(self):
        g = self.g
        k = g.weighted([(8, 'note'), (2, 'chord'), (1, 'r'), (1, 's'), (2, 'bare'), (1, 'skip')])
        if k == 'note':
            return g.choice(['bd', 'sn', 'hihat', 'tomh']) + self.dur() + self.art()
        if k == 'chord':
            return '<' + ' '.join(g.choice(['bd', 'sn', 'hh']) for _ in range(g.int(1, 3))) + '>' + self.dur() + self.art()
        if k == 'bare':
            return self.bare()
        if k == 'skip':
            return self.skip()
        return k + self.dur()

    def chord(self):
        g = self.g
        if g.chance(15):
            return g.choice('rs') + self.dur()
        return g.choice(['c', 'd', 'fis', "g'"]) + self.dur() + g.choice(['', '', ':m', ':maj7', ':7/g', '/+c'])

    def figure(self):
        g = self.g
        if g.chance(15):
            return g.choice('rs') + self.dur()
        return '<' + g.choice(['6', '6 4', '_', '5- 3', '[6 4]', '7!']) + '>' + self.dur()

    def music(self, depth):
        g = self.g
        kinds = [(8, 'block'), (2, 'scale'), (1, 'context'), (2, 'lyrics'), (2, 'drums'), (1, 'chords'), (1, 'figures'), (1, 'relative')]
        return getattr(self, 'do_' + g.weighted(kinds))(depth)

    def parts(self, depth=3, lo=1, hi=3):
        """The toplevel parts of a document."""
        g = self.g

        def top():
            k = g.weighted([(5, 'music'), (2, 'assign'), (1, 'score'), (1, 'other')])
            if k == 'assign' and 'scheme' in self.opts and g.chance(25):
                return 'func = #(define-music-function (x) (ly:music?) %s)' % self.hash(depth)
            if k == 'assign':
                value = self.music(depth)
                if 'ref' in self.opts and g.chance(15):
                    value = self.do_ref(0) if self.names else value
                return g.choice(['music', 'tune', 'mynotes']) + ' = ' + value
            if k == 'score':
                return '\\score {\n  ' + self.music(depth) + '\n  \\layout { indent = 4 }\n  \\midi { \\tempo 4 = 100 }\n}'
            if k == 'other':
                if 'ref' in self.opts and g.chance(40):
                    return g.choice(['music', 'tune']) + ' = ' + g.choice(['4', '"c4"', '\\markup { c4 d }', '#4', "#'(c d)", '5.5'])
                return g.choice(['\\header { title = "c4" }', '#(define c4 5)', '\\markup { c4 d }', '% c4', 'x = 4', '\\version "2.24.0"'])
            return self.music(depth)
        return g.many(top, lo, hi)

    def document(self, depth=3):
        return '\n'.join(self.parts(depth)) + '\n' * self.g.int(0, 1)


ALL = ('comments', 'aftergrace', 'score', 'after', 'partcombine', 'alternative', 'unfold', 'ref', 'scheme')


def text(g, opts=ALL, depth=3):
    if 'score' in opts and 'scheme' in opts:    # looking back from Scheme doesn't find durations in \\markup \\score in the right order
        no = g.choice(['score', 'scheme'])
        opts = [o for o in opts if o != no]
    return Rhythm(g, opts, ['music', 'tune']).document(depth)
