"""Generates LilyPond documents as they would be built by hand from DOM elements.

A production returns (spec, text): the spec describes the constructor calls, text is what the written
document must contain (without whitespace), composed here independently from the code under test.

spec: ('C', 'lily.Note', head or None, ((attribute, value), ...), (child spec, ...))
      ('M', name of a function in dom.markup, (argument, ...))  arguments: plain values or specs
      ('V', value)      lily.create_element_from_value(value)
      ('S', value)      lily.Scheme('#', scm.create_element_from_value(value))
"""
import keyword
from fractions import Fraction as F

from .gen_lily import ARTIC, CONTEXTS, CPROPS, DRUMS, DYN, GROBS, PROPS, SIMPLECMD, SYMS

NAMES = 'c d e f g a b cis es fis aes bes'.split()
DURS = [(F(1, 4), '4'), (F(1, 8), '8'), (F(1, 2), '2'), (F(1), '1'), (F(3, 8), '4.'), (F(2), '\\breve'), (F(7, 16), '4..'),
        (F(1, 16), '16'), (F(4), '\\longa'), (F(3, 2), '1.'), (F(8), '\\maxima'), (F(1, 64), '64'), (F(3, 128), '64.')]
SCALES = [(F(2, 3), '*2/3'), (F(2), '*2'), (F(1, 2), '*1/2'), (F(7, 5), '*7/5'), (F(0), '*0')]
ONOFF = ['autoBeam', 'cadenza', 'textLength', 'improvisation', 'markLength', 'mergeDifferentlyDotted', 'easyHeads', 'balloonLength']


def E(cls, head=None, attrs=(), *children):
    if '.' not in cls:
        cls = 'lily.' + cls
    return ('C', cls, head, tuple(attrs), tuple(children))


def cat(*parts):
    return ''.join(p[1] for p in parts)


def kids(*parts):
    return [p[0] for p in parts]


class Dom:
    def __init__(self, g):
        self.g = g

    # -- leaves
    def string(self):
        g = self.g
        s = ''.join(g.many(lambda: g.choice(['a', 'B', ' ', '1', '"', '\\', 'é', '%', '{', '#', '.', "'"]), 0, 5))
        return E('String', s), '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'

    def sym(self):
        s = self.g.choice(SYMS)
        return E('Symbol', s), s

    def int(self, lo=0, hi=40):
        n = self.g.int(lo, hi)
        return E('Int', n), str(n)

    def eq(self):
        return E('EqualSign'), '='

    def scheme(self):
        g = self.g
        k = g.int(0, 8)
        if k == 0:
            return E('Scheme', '#', (), E('scm.Identifier', 'red')), '#red'
        if k == 1:
            n = g.int(-20, 99)
            return ('S', n), '#%d' % n
        if k == 2:
            return ('S', True), '##t'
        if k == 3:
            return ('S', False), '##f'
        if k == 4:
            return ('S', 'str "x" \\'), '#"str \\"x\\" \\\\"'
        if k == 5:
            return ('S', 0.5), '#0.5'
        if k == 6:
            a, b = g.int(0, 9), g.int(0, 9)
            return E('Scheme', '#', (), E('scm.Quote', "'", (), E('scm.List', None, (), E('scm.Number', a), E('scm.Dot'),
                                                                   E('scm.Number', b)))), "#'(%d . %d)" % (a, b)
        if k == 7:
            return E('Scheme', '#', (), E('scm.Quote', "'", (), E('scm.Identifier', 'foo'))), "#'foo"
        return ('S', F(g.int(1, 9), 7)), None

    def scheme_(self):
        while True:
            s = self.scheme()
            if s[1] is not None:
                return s

    def pitch(self, cls='Pitch', **extra):
        g = self.g
        name = g.choice(NAMES)
        o = g.int(-3, 4) if g.chance(50) else 0
        attrs = [('octave', o)] if o else []
        return E(cls, name, attrs), name + ("'" * o if o > 0 else ',' * -o)

    def dur(self):
        g = self.g
        d, t = g.choice(DURS)
        if g.chance(30):
            s, st = g.choice(SCALES)
            return [('duration', d), ('scaling', s)], t + st
        return [('duration', d)], t

    def maybedur(self, percent=50):
        return self.dur() if self.g.chance(percent) else ([], '')

    # -- articulations
    def event(self, inner=False):
        g = self.g
        k = g.int(0, 14)
        if k <= 1:
            a = g.choice(ARTIC)
            return E('Articulation', a), a
        if k <= 3:
            d, t = g.choice([(1, '^'), (0, '-'), (-1, '_')])
            a = g.choice(['.', '>', '-', '+', '^', '!'])
            return E('Direction', d, (), E('Articulation', a)), t + a
        if k == 4:
            a = g.choice([d for d in DYN if d != '\\espressivo'])
            return E('Dynamic', a[1:]), a
        if k <= 6:
            c, on, off = g.choice([('Slur', '(', ')'), ('PhrasingSlur', '\\(', '\\)'), ('Beam', '[', ']'),
                                   ('TextSpanner', '\\startTextSpan', '\\stopTextSpan'), ('Ligature', '\\[', '\\]'),
                                   ('TrillSpanner', '\\startTrillSpan', '\\stopTrillSpan'), ('Melisma', '\\melisma', '\\melismaEnd')])
            return g.choice([(E(c, 'start'), on), (E(c, 'stop'), off)])
        if k == 7:
            return g.choice([(E('Tie'), '~'), (E('LaissezVibrer'), '\\laissezVibrer'), (E('RepeatTie'), '\\repeatTie'),
                             (E('Arpeggio'), '\\arpeggio'), (E('Glissando'), '\\glissando'), (E('PesOrFlexa'), '\\~')])
        if k == 8:
            d, t = g.choice([(1, '^'), (0, '-'), (-1, '_')])
            s = g.choice([self.string, self.markup])()
            return E('Direction', d, (), s[0]), t + s[1]
        if k == 9:
            n = g.choice('12345')
            return E('Direction', 0, (), E('Fingering', n)), '-' + n
        if k == 10:
            n = g.choice([(E('Int', 2), '2'), (E('Symbol', 'foo'), 'foo')])
            s = g.choice([(E('Slur', 'start'), '('), (E('PhrasingSlur', 'stop'), '\\)')])
            return E('SpannerId', None, (), n[0], s[0]), '\\=' + n[1] + s[1]
        if k == 11:
            return g.choice([(E('Tremolo', None, (), E('Duration', F(1, 16))), ':16'), (E('Tremolo'), ':')])
        if k == 12:
            return E('Modifier', 'noBeam'), '\\noBeam'
        if k == 13:
            s = self.scheme_()
            p = g.choice(PROPS)
            return E('Direction', 0, (), E('Tweak', None, (), E('Symbol', p), s[0], E('Direction', 0, (), E('Articulation', '>')))), \
                '-\\tweak' + p + s[1] + '->'
        d, t = g.choice([(1, '^'), (-1, '_')])
        return E('Direction', d, (), E('Slur', 'start')), t + '('

    def events(self):
        g = self.g
        if not g.chance(40):
            return [], ''
        es = g.many(self.event, 1, 3)
        return [E('Articulations', None, (), *kids(*es))], cat(*es)

    # -- music
    def note(self, chord=False):
        g = self.g
        g.budget -= 1
        name = g.choice(NAMES)
        attrs, t = [], name
        if g.chance(45):
            o = g.int(-3, 4)
            attrs.append(('octave', o))
            t += "'" * o if o > 0 else ',' * -o
        if g.chance(15):
            a, s = g.choice([('cautionary', '?'), ('forced', '!')])
            attrs.append(('accidental', a))
            t += s
        if g.chance(12):
            o = g.int(-2, 2)
            attrs.append(('oct_check', o))
            t += '=' + ("'" * o if o > 0 else ',' * -o)
        if chord:
            return E('Note', name, attrs), t
        d, dt = self.maybedur()
        if g.chance(30):
            attrs = d + attrs           # the order in which attributes are set does not matter
        else:
            attrs = attrs + d
        e, et = self.events()
        if g.chance(6):
            return E('PitchedRest', name, attrs, E('RestModifier'), *e), t + dt + '\\rest' + et
        return E('Note', name, attrs, *e), t + dt + et

    def durable(self):
        g = self.g
        k = g.int(0, 11)
        if k <= 5:
            return self.note()
        d, dt = self.maybedur()
        e, et = self.events()
        if k == 6:
            c, t = g.choice([('Rest', 'r'), ('Space', 's'), ('MultiMeasureRest', 'R')])
            return E(c, None, d, *e), t + dt + et
        if k <= 9:
            ns = [self.note(True) for _ in range(g.int(1, 3))]
            return E('Chord', None, d, E('ChordBody', None, (), *kids(*ns)), *e), '<' + cat(*ns) + '>' + dt + et
        if k == 10:
            return E('Q', None, d, *e), 'q' + dt + et
        d, dt = self.dur()
        return g.choice([(E('Skip', None, d), '\\skip' + dt), (E('Unpitched', None, d, *e), dt + et)])

    def items(self, lo=0, hi=6):
        its = self.g.many(self.item, lo, hi)
        # an unpitched note would become the duration of a note without one: that is a real difference in meaning
        out = []
        for it in its:
            if it[0][1] == 'lily.Unpitched' and out:
                continue
            # a variable after \\shape could be an articulation
            if it[0][1] == 'lily.IdentifierRef' and out and out[-1][0][1] == 'lily.Shape':
                continue
            out.append(it)
        return out

    def item(self):
        g = self.g
        g.budget -= 1
        if g.budget <= 0 or g.chance(60):
            return self.durable()
        return self.command() if g.chance(60) else self.music()

    def mlist(self, hi=5):
        its = self.items(0, hi)
        return E('MusicList', None, (), *kids(*its)), '{' + cat(*its) + '}'

    def slist(self):
        g = self.g
        if g.chance(50):
            its = self.items(0, 3)
        else:
            its = [self.mlist(2), (E('VoiceSeparator'), '\\\\'), self.mlist(2)]
        return E('SimultaneousMusicList', None, (), *kids(*its)), '<<' + cat(*its) + '>>'

    def music(self):
        g = self.g
        g.budget -= 2
        k = g.int(0, 9) if g.budget > 0 else 0
        if k <= 3:
            return self.mlist()
        if k == 4:
            return self.slist()
        if k == 5:
            s = g.choice(SYMS)
            return E('IdentifierRef', s), '\\' + s
        return self.prefix()

    def prefix(self):
        g = self.g
        k = g.int(0, 17)
        m = self.mlist()

        def cmd(cls, text, *parts):
            return E(cls, None, (), *kids(*parts)), text + cat(*parts)
        if k == 0:
            return cmd('Relative', '\\relative', *([self.pitch()] if g.chance(60) else []), m)
        if k == 1:
            return cmd('Fixed', '\\fixed', self.pitch(), m)
        if k == 2:
            return cmd('Transpose', '\\transpose', self.pitch(), self.pitch(), m)
        if k == 3:
            return cmd('Absolute', '\\absolute', m)
        if k == 4:
            c, t = g.choice([('Grace', '\\grace'), ('SlashedGrace', '\\slashedGrace'), ('Acciaccatura', '\\acciaccatura'), ('Appoggiatura', '\\appoggiatura')])
            return cmd(c, t, g.choice([m, self.durable()]) if g.chance(0) else m)
        if k == 5:
            d, dt = self.maybedur(40)
            if any(a == 'scaling' for a, _ in d):
                d, dt = [], ''
            return E('Tuplet', None, d, E('Fraction', (3, 2)), m[0]), '\\tuplet3/2' + dt + m[1]
        if k == 6:
            return cmd('Times', '\\times', (E('Fraction', (2, 3)), '2/3'), m)
        if k == 7:
            f = g.choice([(E('Fraction', (2, 3)), '2/3'), (E('Int', 2), '2'), self.scheme_()])
            return cmd('ScaleDurations', '\\scaleDurations', f, m)
        if k == 8:
            f = g.choice([(E('Int', 1), '1'), (('S', -1), '#-1'), (E('Int', 3), '3')])
            return cmd('ShiftDurations', '\\shiftDurations', f, (('S', 1), '#1'), m)
        if k in (9, 10):
            c, t = g.choice([('New', '\\new'), ('Context', '\\context')])
            x = g.choice(CONTEXTS)
            parts = [(E('Symbol', x), x)]
            if g.chance(50):
                parts += [self.eq(), g.choice([self.sym, self.string])()]
            if g.chance(35):
                parts += [self.with_()]
            return cmd(c, t, *parts, m)
        if k == 11:
            n = g.choice([2, 5, 13, 4])
            r = g.choice(['volta', 'unfold', 'percent', 'tremolo'])
            parts = [(E('Symbol', r), r), (E('Int', n), str(n)), m]
            if g.chance(30):
                a, b = self.mlist(1), self.mlist(1)
                parts.append((E('Alternative', None, (), E('MusicList', None, (), a[0], b[0])), '\\alternative{' + a[1] + b[1] + '}'))
            return cmd('Repeat', '\\repeat', *parts)
        if k == 12:
            c, t = g.choice([('Tag', '\\tag'), ('KeepWithTag', '\\keepWithTag'), ('RemoveWithTag', '\\removeWithTag')])
            return cmd(c, t, g.choice([self.sym(), self.string(), (E('Scheme', '#', (), E('scm.Quote', "'", (), E('scm.Identifier', 'foo'))), "#'foo")]), m)
        if k == 13:
            c, t = g.choice([('UnfoldRepeats', '\\unfoldRepeats'), ('Unfolded', '\\unfolded')])
            return cmd(c, t, m)
        if k == 14:
            return cmd('Volta', '\\volta', (E('List', None, (), E('Int', 1), E('Separator', ','), E('Int', 2)), '1,2'), m)
        if k == 15:
            c, t = g.choice([('Sequential', '\\sequential'), ('Simultaneous', '\\simultaneous')])
            return cmd(c, t, m)
        if k == 16:
            return self.mode()
        return cmd('AfterGrace', '\\afterGrace', *([(E('Fraction', (3, 4)), '3/4')] if g.chance(40) else []), self.mlist(2), m)

    def mode(self):
        g = self.g
        k = g.int(0, 3)
        if k == 0:
            def one():
                j = g.int(0, 6)
                d, dt = self.maybedur(30)
                if j <= 2:
                    w = g.choice(['hel', 'lo', 'é', 'foo,'])
                    return E('LyricText', w, d), w + dt
                if j == 3:
                    return g.choice([(E('LyricHyphen'), '--'), (E('LyricExtender'), '__'), (E('LyricSkip'), '_')])
                s = self.string()
                return E('LyricItem', None, d, s[0]), s[1] + dt
            its = g.many(one, 0, 5)
            h = g.choice(['lyricmode', 'lyrics', 'addlyrics'])
            return E('LyricMode', h, (), E('MusicList', None, (), *kids(*its))), '\\' + h + '{' + cat(*its) + '}'
        if k == 1:
            def one():
                n = g.choice(DRUMS)
                d, dt = self.maybedur()
                e, et = self.events()
                return E('Drum', n, d, *e), n + dt + et
            its = g.many(one, 0, 5)
            h = g.choice(['drummode', 'drums'])
            return E('DrumMode', h, (), E('MusicList', None, (), *kids(*its))), '\\' + h + '{' + cat(*its) + '}'
        if k == 2:
            def one():
                n = g.choice(NAMES)
                d, dt = self.maybedur()
                mods, t = [], ''
                if g.chance(60):
                    q = g.choice(['maj', 'm', 'dim', 'sus', ''])
                    st, c = g.choice([('7', [E('Step', 7)]), ('9-', [E('Step', 9, (), E('Alteration', '-'))]),
                                      ('7.9+', [E('Step', 7), E('Separator', '.'), E('Step', 9, (), E('Alteration', '+'))])])
                    mods.append(E('AddSteps', None, (), *([E('Qualifier', q)] if q else []), *c))
                    t += ':' + q + st
                if g.chance(30):
                    p = g.choice(NAMES)
                    c, s = g.choice([('Inversion', '/'), ('AddInversion', '/+')])
                    mods.append(E(c, None, (), E('Pitch', p)))
                    t += s + p
                return E('Note', n, d, *([E('ChordModifiers', None, (), *mods)] if mods else [])), n + dt + t
            its = g.many(one, 0, 4)
            h = g.choice(['chordmode', 'chords'])
            return E('ChordMode', h, (), E('MusicList', None, (), *kids(*its))), '\\' + h + '{' + cat(*its) + '}'

        def fig():
            if g.chance(15):
                return E('FigureSkip'), '_'
            n = g.int(1, 13)
            c, t = [], str(n)
            if g.chance(40):
                v, s = g.choice([(-1, '--'), (-0.5, '-'), (0, '!'), (0.5, '+'), (1, '++')])
                c.append(E('FigureAccidental', v))
                t += s
            if g.chance(25):
                v, s = g.choice([('augmented', '\\+'), ('diminished', '/'), ('raised', '\\\\'), ('end-of-line', '\\!')])
                c.append(E('FigureAlteration', v))
                t += s
            return E('FigureStep', n, (), *c), t

        def one():
            fs = g.many(fig, 1, 3)
            c, t = kids(*fs), cat(*fs)
            if g.chance(20):
                f = fig()
                c.append(E('FigureBracket', None, (), f[0]))
                t += '[' + f[1] + ']'
            d = [E('Duration', F(1, 4))] if g.chance(40) else []
            return E('Figure', None, (), E('FigureBody', None, (), *c), *d), '<' + t + '>' + ('4' if d else '')
        its = g.many(one, 0, 4)
        h = g.choice(['figuremode', 'figures'])
        return E('FigureMode', h, (), E('MusicList', None, (), *kids(*its))), '\\' + h + '{' + cat(*its) + '}'

    def path(self):
        g = self.g
        if g.chance(40):
            s = g.choice(CPROPS)
            return E('Symbol', s), s
        parts = [g.choice(['Staff', 'Score']), g.choice(GROBS), g.choice(PROPS)][g.int(0, 1):]
        c = []
        for x in parts:
            if c:
                c.append(E('Separator', '.'))
            c.append(E('Symbol', x))
        return E('List', None, (), *c), '.'.join(parts)

    def value(self):
        g = self.g
        return g.choice([self.scheme_, self.scheme_, self.string, self.int, self.markup])()

    def command(self):
        g = self.g
        k = g.int(0, 25)

        def cmd(cls, text, *parts):
            return E(cls, None, (), *kids(*parts)), text + cat(*parts)
        if k == 0:
            return cmd('Clef', '\\clef', g.choice([(E('Symbol', 'treble'), 'treble'), (E('String', 'bass_8'), '"bass_8"'), (E('String', 'G'), '"G"')]))
        if k == 1:
            md = g.choice(['major', 'minor', 'dorian'])
            return cmd('Key', '\\key', self.pitch(), (E('Mode', md), '\\' + md))
        if k == 2:
            a, b = g.int(1, 15), g.choice([1, 2, 4, 8, 16])
            return cmd('Time', '\\time', (E('Fraction', (a, b)), '%d/%d' % (a, b)))
        if k == 3:
            d, dt = g.choice(DURS[:5])
            n = self.int(20, 200)
            txt = [g.choice([(E('Symbol', 'Allegro'), 'Allegro'), self.string(), self.markup()])] if g.chance(50) else []
            return E('Tempo', None, (), *kids(*txt), E('Duration', d), E('EqualSign'), n[0]), '\\tempo' + cat(*txt) + dt + '=' + n[1]
        if k == 4:
            d, dt = self.dur()
            return E('Partial', None, d), '\\partial' + dt
        if k == 5:
            return cmd('Bar', '\\bar', self.string())
        if k == 6:
            return cmd('Mark', '\\mark', g.choice([(E('Default'), '\\default'), self.string(), self.scheme_()]))
        if k == 7:
            return E('PipeSymbol'), '|'
        if k in (8, 9):
            return cmd('Override', '\\override', self.path(), self.eq(), self.value())
        if k == 10:
            return cmd('Set', '\\set', self.path(), self.eq(), self.value())
        if k == 11:
            return g.choice([cmd('Unset', '\\unset', self.path()), cmd('Revert', '\\revert', self.path())])
        if k == 12:
            c, t = g.choice([('Once', '\\once'), ('Temporary', '\\temporary'), ('Undo', '\\undo')])
            return cmd(c, t, cmd('Override', '\\override', self.path(), self.eq(), self.value()))
        if k == 13:
            c, t = g.choice([('Omit', '\\omit'), ('Hide', '\\hide')])
            return cmd(c, t, self.path())
        if k == 14:
            gr = g.choice(['Slur', 'Stem', 'Tie', 'Dynamic', 'Tuplet', 'PhrasingSlur'])
            d, t = g.choice([(1, 'Up'), (0, 'Neutral'), (-1, 'Down')])
            return E('GrobDirection', (gr, d)), '\\' + gr[0].lower() + gr[1:] + t
        if k == 15:
            gr = g.choice(['Slur', 'Tie', 'PhrasingSlur'])
            d, t = g.choice([('dashed', 'Dashed'), ('dotted', 'Dotted'), ('half_dashed', 'HalfDashed'), ('half_solid', 'HalfSolid'), ('solid', 'Solid')])
            return E('GrobStyle', (gr, d)), '\\' + gr[0].lower() + gr[1:] + t
        if k == 16:
            p = g.choice(ONOFF)
            v = g.chance(50)
            return E('Toggle', (p, v)), '\\' + p + ('On' if v else 'Off')
        if k == 17:
            n, t = g.choice(list(enumerate(['One', 'Two', 'Three', 'Four', 'Five', 'Six'], 1)))
            return E('VoiceN', n), '\\voice' + t
        if k == 18:
            return g.choice([(E('Break', True), '\\break'), (E('Break', False), '\\noBreak'), (E('PageBreak', True), '\\pageBreak'),
                             (E('PageBreak', False), '\\noPageBreak'), (E('PageTurn', 'yes'), '\\pageTurn'), (E('PageTurn', 'no'), '\\noPageTurn'),
                             (E('PageTurn', 'allow'), '\\allowPageTurn'), (E('Breathe'), '\\breathe'), (E('InStaffSegno'), '\\inStaffSegno')])
        if k == 19:
            return cmd('Ottava', '\\ottava', g.choice([(('S', -1), '#-1'), (E('Int', 1), '1'), (('S', 0), '#0')]))
        if k == 20:
            return g.choice([cmd('Transposition', '\\transposition', self.pitch()), cmd('OctaveCheck', '\\octaveCheck', self.pitch())])
        if k == 21:
            return cmd('Label', '\\label', (E('Scheme', '#', (), E('scm.Quote', "'", (), E('scm.Identifier', 'foo'))), "#'foo"))
        if k == 22:
            return cmd('ApplyContext', '\\applyContext', self.scheme_())
        if k == 23:
            return cmd('Change', '\\change', (E('Symbol', 'Staff'), 'Staff'), self.eq(), self.string())
        if k == 24:
            return E('GrobDashPattern', 'Slur', (), E('Float', 0.3), E('Float', 0.75)), '\\slurDashPattern0.30.75'
        return cmd('Shape', '\\shape', (E('Scheme', '#', (), E('scm.Quote', "'", (), E('scm.List'))), "#'()"), (E('Symbol', 'Slur'), 'Slur'))

    # -- markup
    def markup(self):
        g = self.g
        n = g.int(0, 3)
        args = [self.mk(2) for _ in range(n)]
        kind = 'markup' if g.chance(85) else 'markuplist'
        t = cat(*args)
        if n != 1 or kind == 'markuplist':
            t = '{' + t + '}'
        return ('M', kind, tuple(kids(*args))), '\\' + kind + t

    #: markup commands that have an own function (in quickly/dom/markup.py), or have no function
    SPECIAL = frozenset('''char tied-lyric fret-diagram fret-diagram-terse fret-diagram-verbose fromproperty harp-pedal justify-field justify-string
        lookup musicglyph postscript rest score score-lines verbatim-file wordwrap-field wordwrap-string note override override-lines translate
        translate-scaled with-link with-url woodwind-diagram draw-squiggle-line epsfile filled-box note-by-number pad-to-box page-ref
        with-dimensions fill-with-pattern'''.split())

    def mkcommand(self, depth):
        """Any markup command, with as many arguments as LilyPond wants."""
        from parce.lang import lilypond_words as w
        g = self.g
        nargs = g.int(0, 4)
        n = g.choice(sorted(set(w.markup_commands_nargs[nargs]) - self.SPECIAL))
        args = [self.mk(0) if g.chance(60) else g.choice([(4, '#4'), (-1, '#-1'), (0.5, '#0.5'), (True, '##t'), (False, '##f')]) for _ in range(max(nargs - 1, 0))]
        t = cat(*args)
        if nargs:
            last = [self.mk(depth - 1) for _ in range(g.choice([1, 1, 0, 2, 3]))]
            t += cat(*last) if len(last) == 1 else '{' + cat(*last) + '}'
            args += last
        return ('M', n.replace('-', '_') + '_' * keyword.iskeyword(n), tuple(kids(*args))), '\\' + n + t

    def mk(self, depth):
        g = self.g
        g.budget -= 1
        k = g.int(0, 12) if depth and g.budget > 0 else g.int(0, 3)
        if k >= 11:
            return self.mkcommand(depth)
        if k <= 1:
            s = g.choice(['foo', 'a', 'Allegro', '50', 'é', "it's", '1.5'])
            return s, s
        if k == 2:
            s = g.choice(['foo bar', 'a"b', '', '#x', '%y', '{', 'a\\b', '$'])
            return s, '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
        if k == 3:
            n = g.choice(['flat', 'sharp', 'natural', 'null', 'eyeglasses'])
            return ('M', n, ()), '\\' + n
        if k <= 6:
            n = g.choice(['bold', 'italic', 'box', 'center-column', 'concat', 'line', 'column', 'small', 'fill-line', 'smallCaps', 'wordwrap'])
            c = [self.mk(depth - 1) for _ in range(g.int(0, 3))]
            t = cat(*c)
            return ('M', n.replace('-', '_'), tuple(kids(*c))), '\\' + n + (t if len(c) == 1 else '{' + t + '}')
        if k == 7:
            n = g.choice(['fontsize', 'raise_', 'lower', 'halign', 'magnify', 'rotate', 'pad_around'])
            v = g.choice([1, -2, 3, 0, 0.5, -1.5])
            c = self.mk(depth - 1)
            return ('M', n, (v, c[0])), '\\' + n.rstrip('_').replace('_', '-') + '#' + str(v) + c[1]
        if k == 8:
            c = self.mk(depth - 1)
            return g.choice([
                (('M', 'with_url', ('http://x/y', c[0])), '\\with-url#"http://x/y"' + c[1]),
                (('M', 'with_link', ('lab', c[0])), "\\with-link#'lab" + c[1]),
                (('M', 'override', ('baseline-skip', 3, c[0])), "\\override#'(baseline-skip . 3)" + c[1]),
                (('M', 'translate', (1, -2, c[0])), "\\translate#'(1 . -2)" + c[1]),
                (('M', 'override', ('thick', True, c[0])), "\\override#'(thick . #t)" + c[1]),
                (('M', 'pad_to_box', (0, 1, 2, 3, c[0])), "\\pad-to-box#'(0 . 2)#'(1 . 3)" + c[1]),
                (('M', 'with_dimensions', (0, 1, 2, 3, c[0])), "\\with-dimensions#'(0 . 2)#'(1 . 3)" + c[1]),
                (('M', 'override_lines', ('word-space', 1.5, c[0])), "\\override-lines#'(word-space . 1.5)" + c[1]),
                (('M', 'translate_scaled', (0.5, 0, c[0])), "\\translate-scaled#'(0.5 . 0)" + c[1]),
                (('M', 'fill_with_pattern', (1, 1, c[0], 'x', 'y')), "\\fill-with-pattern#1#1" + c[1] + 'xy'),
                (('M', 'fill_with_pattern', (1.5, -1, '.', 'x', c[0])), "\\fill-with-pattern#1.5#-1.x" + c[1]),
                (('M', 'page_ref', ('lab', 'g', c[0])), "\\page-ref#'labg" + c[1])])
        return g.choice([
            (('M', 'fret_diagram_verbose', (('S', ['a', 1]),)), '\\fret-diagram-verbose#("a" 1)'), (('M', 'justify_field', ('header:x',)), "\\justify-field#'header:x"),
            (('M', 'wordwrap_string', ('a "b',)), '\\wordwrap-string#"a \\"b"'), (('M', 'woodwind_diagram', ('oboe', ('S', []))), "\\woodwind-diagram#'oboe#()"),
            (('M', 'score_lines', (E('MusicList', None, (), E('Note', 'c')), E('Header'))), '\\score-lines{{c}\\header{}}'),
            (('M', 'hspace', (3,)), '\\hspace#3'), (('M', 'char', (9837,)), '\\char##x266d'),
            (('M', 'musicglyph', ('a.b',)), '\\musicglyph#"a.b"'), (('M', 'fret_diagram', ('s:1',)), '\\fret-diagram#"s:1"'),
            (('M', 'fret_diagram_terse', ('x',)), '\\fret-diagram-terse#"x"'), (('M', 'tied_lyric', ('a~b',)), '\\tied-lyric#"a~b"'),
            (('M', 'fromproperty', ('header:title',)), "\\fromproperty#'header:title"), (('M', 'harp_pedal', ('^v|',)), '\\harp-pedal"^v|"'),
            (('M', 'note', ('4..', 1)), '\\note{4..}#1'), (('M', 'rest', ('8',)), '\\rest{8}'), (('M', 'lookup', ('x',)), '\\lookup#"x"'),
            (('M', 'note_by_number', (2, 1, -1)), '\\note-by-number#2#1#-1'), (('M', 'filled_box', (0, 1, 2, 3, 0.5)), "\\filled-box#'(0 . 2)#'(1 . 3)#0.5"),
            (('M', 'epsfile', (0, 10, 'x.eps')), '\\epsfile#0#10#"x.eps"'), (('M', 'draw_squiggle_line', (0.5, 1, 2, True)), "\\draw-squiggle-line#0.5#'(1 . 2)##t"),
            (('M', 'justify_string', ('a b',)), '\\justify-string#"a b"'), (('M', 'wordwrap_field', ('header:x',)), "\\wordwrap-field#'header:x"),
            (('M', 'postscript', ('x y',)), '\\postscript#"x y"'), (('M', 'verbatim_file', ('f.ly',)), '\\verbatim-file#"f.ly"'),
            (('M', 'score', (E('MusicList', None, (), E('Note', 'c')), E('Layout'))), '\\score{{c}\\layout{}}')])

    # -- blocks
    def ident(self):
        g = self.g
        n = g.choice(SYMS + ['title', 'x y', 'c'])
        c = [E('Symbol', n) if n not in ('x y', 'c') else E('String', n)]
        t = n if n not in ('x y', 'c') else '"' + n + '"'
        if g.chance(15):
            c += [E('Separator', '.'), E('Symbol', 'sub')]
            t += '.sub'
        return E('Identifier', None, (), *c), t

    def assignment(self, value=None):
        i, v = self.ident(), (value or self.avalue)()
        return E('Assignment', None, (), i[0], E('EqualSign'), v[0]), i[1] + '=' + v[1]

    def avalue(self):
        g = self.g
        k = g.int(0, 8)
        if k <= 2:
            return self.music()
        if k == 3:
            return self.string()
        if k == 4:
            return self.scheme_()
        if k == 5:
            return self.markup()
        if k == 6:
            n = g.int(0, 99)
            return ('V', n), str(n)
        if k == 7:
            return g.choice([(('V', True), '##t'), (('V', 'a"b'), '"a\\"b"'), (('V', 1.5), '1.5'), (('V', False), '##f')])
        return self.with_()

    def pvalue(self):
        g = self.g
        return g.choice([(('V', (10, 'mm')), '10\\mm'), (('V', (1.5, 'cm')), '1.5\\cm'), (('V', True), '##t'), (('V', 'str'), '"str"'),
                         (('V', 7), '7'), (('V', (2, 'in')), '2\\in'), (('V', (0.25, 'pt')), '0.25\\pt'), (('V', 2.5), '2.5')])

    def with_(self):
        g = self.g

        def one():
            k = g.int(0, 4)
            s = g.choice([self.sym, self.string])()
            if k == 0:
                c, t = g.choice([('Consists', '\\consists'), ('Remove', '\\remove'), ('Alias', '\\alias'), ('Accepts', '\\accepts'),
                                 ('Denies', '\\denies'), ('Name', '\\name'), ('DefaultChild', '\\defaultchild')])
                return E(c, None, (), s[0]), t + s[1]
            if k == 1:
                p, v = self.path(), self.value()
                return E('Override', None, (), p[0], E('EqualSign'), v[0]), '\\override' + p[1] + '=' + v[1]
            if k == 2:
                n, v = g.choice(CPROPS), self.value()
                return E('Assignment', None, (), E('Identifier', None, (), E('Symbol', n)), E('EqualSign'), v[0]), n + '=' + v[1]
            if k == 3:
                n = g.choice(['Staff', 'Voice'])
                return E('MusicFunction', n), '\\' + n
            p = self.path()
            return E('Omit', None, (), p[0]), '\\omit' + p[1]
        its = g.many(one, 0, 3)
        return E('With', None, (), *kids(*its)), '\\with{' + cat(*its) + '}'

    HEADER = ['title', 'subtitle', 'composer', 'tagline', 'copyright', 'poet', 'dedication', 'meter', 'arranger', 'instrument']
    PAPER = ['top_margin', 'ragged_right', 'indent', 'line_width', 'system_count', 'print_page_number', 'two_sided', 'page_count']

    def block(self):
        g = self.g
        k = g.int(0, 6)
        if k <= 2:
            cls, head, names, vals = g.choice([
                ('Header', '\\header', self.HEADER, None), ('Paper', '\\paper', self.PAPER, self.pvalue),
                ('Layout', '\\layout', ['indent', 'line_width', 'ragged_right', 'short_indent', 'system_count'], self.pvalue)])
            attrs, t = [], ''
            for n in names:
                if g.chance(25):
                    if vals:
                        v = vals()
                        v, vt = v[0][1], v[1]
                    else:
                        v, vt = g.choice([('My "t"', '"My \\"t\\""'), (False, '##f'), ('x', '"x"'), (3, '3')])
                    attrs.append((n, v))
                    t += n.replace('_', '-') + '=' + vt
            return E(cls, None, attrs), head + '{' + t + '}'
        if k == 3:
            return E('Midi'), '\\midi{}'
        if k == 4:
            parts = [self.music()]
            for _ in range(g.int(0, 2)):
                parts.append(g.choice([(E('Layout'), '\\layout{}'), (E('Midi'), '\\midi{}'),
                                       (E('Header', None, [('piece', 'x')][:0] + [('title', 'x')]), '\\header{title="x"}')]))
            return E('Score', None, (), *kids(*parts)), '\\score{' + cat(*parts) + '}'
        if k == 5:
            its = self.with_()
            return E('Layout', None, (), E('LayoutContext', None, (), *its[0][4])), '\\layout{\\context' + its[1][len('\\with'):] + '}'
        c, t = g.choice([('Book', '\\book'), ('BookPart', '\\bookpart')])
        parts = g.many(lambda: g.choice([self.music, self.markup])(), 0, 2)
        return E(c, None, (), *kids(*parts)), t + '{' + cat(*parts) + '}'

    def toplevel(self):
        g = self.g
        k = g.int(0, 9)
        if k <= 2:
            return self.music()
        if k <= 4:
            return self.assignment()
        if k <= 6:
            return self.block()
        if k == 7:
            return g.choice([(E('Language', None, [('language', 'nederlands')]), '\\language"nederlands"'),
                             (E('Version', None, [('version', (2, 24, 3))]), '\\version"2.24.3"'),
                             (E('Include', None, [('filename', 'foo.ily')]), '\\include"foo.ily"'),
                             (E('Include', None, [('language', 'nederlands')]), '\\include"nederlands.ly"')])
        if k == 8:
            c = g.choice([' c1 ', 'x', ' é { } " '])
            return g.choice([(E('SinglelineComment', c), '%' + c), (E('MultilineComment', c), '%{' + c + '%}')])
        return self.markup()

    def document(self):
        its = self.g.many(self.toplevel, 1, 5)
        # a comment belongs to the preceding element when that could have more arguments
        its = [i for n, i in enumerate(its) if 'Comment' not in i[0][1] or n == 0 or its[n-1][0][1][5:] in
               ('Header', 'Paper', 'Layout', 'Midi', 'Score', 'Book', 'BookPart', 'Version', 'Language', 'Include', 'MusicList', 'Markup')]
        return E('Document', None, (), *kids(*its)), cat(*its)


def document(g):
    spec, text = Dom(g).document()
    return spec, text


def music(g):
    spec, text = Dom(g).mlist(8)
    return E('Document', None, (), spec), text


def build(spec):
    """Perform the constructor calls."""
    from .lib import lily, scm
    from quickly.dom import markup
    if isinstance(spec, tuple) and spec:
        if spec[0] == 'C':
            mod, name = spec[1].split('.')
            cls = getattr(dict(lily=lily, scm=scm)[mod], name)
            args = [] if spec[2] is None else [spec[2]]
            return cls(*args, *map(build, spec[4]), **dict(spec[3]))
        if spec[0] == 'M':
            return getattr(markup, spec[1])(*map(build, spec[2]))
        if spec[0] == 'V':
            return lily.create_element_from_value(spec[1])
        if spec[0] == 'S':
            return lily.Scheme('#', scm.create_element_from_value(spec[1]))
    return spec
