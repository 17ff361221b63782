"""Generates well-formed LilyPond source text.

Productions return lists of tokens. Between two tokens the layout step puts whitespace (or a comment);
OPT between two tokens means that they may also be glued together.  A production never relies on
whitespace that LilyPond itself does not need.
"""
from parce.lang import lilypond_words as W

from . import gen_scheme

OPT = '\0'          # the tokens around it may be written without whitespace between them
NOCOM = '\2'         # whitespace, but no comment, between the tokens around it
GLUE = '\1'         # the tokens around it are never separated

NOTES = {
    'nederlands': 'c d e f g a b cis dis eis fis gis ais bis ces des ees fes ges aes bes es as cisis eeses bih beh ases'.split(),
    'english': 'c d e f g a b cs ds fs gs bf ef bff fss dqs btqf'.split(),
    'italiano': 'do re mi fa sol la si dod reb solb fad sibb dosd misb'.split(),
    'deutsch': 'c d e f g a h b cis es as ges heses cisis his'.split(),
    'français': 'do ré re mi fa sol la si dod réb solb'.split(),
}
DRUMS = 'bd sn hh tomh cymr hho hhc cb ssh'.split()
WORDS = ['hello', 'wor', 'ld', 'é', "don't", 'foo,', 'Bar.', 'x', 'a_b', 'c~d', 'why?', 'ik', 'A']
MARKWORDS = ['foo', 'bar', 'Allegro', 'été', 'x.', "it's", 'a', '1', '2.5', 'b-c', '(x)', '!']
SYMS = ['foo', 'music', 'myVar', 'fooBar', 'melody', 'xx', 'theme', 'foo-bar']      # no note names
CONTEXTS = ['Staff', 'Voice', 'Score', 'Lyrics', 'PianoStaff', 'StaffGroup', 'DrumStaff', 'ChordNames', 'GrandStaff', 'MyCtx']
GROBS = ['NoteHead', 'Stem', 'Slur', 'TextSpanner', 'Beam', 'Rest', 'BarLine']
PROPS = ['color', 'length', 'thickness', 'direction', 'stencil', 'font-size', 'xx']
CPROPS = ['instrumentName', 'midiInstrument', 'fontSize', 'autoBeaming', 'currentBarNumber']
ARTIC = ['\\trill', '\\fermata', '\\prall', '\\mordent', '\\upbow', '\\staccato', '\\tenuto', '\\accent', '\\segno', '\\turn',
         '\\prallprall', '\\coda', '\\marcato', '\\flageolet', '\\open', '\\stopped', '\\thumb']
SPANS = ['\\startTextSpan', '\\stopTextSpan', '\\startTrillSpan', '\\stopTrillSpan', '\\melisma', '\\melismaEnd',
         '\\arpeggio', '\\glissando', '\\laissezVibrer', '\\repeatTie']
DYN = ['\\f', '\\p', '\\mf', '\\pp', '\\ff', '\\sfz', '\\<', '\\>', '\\!', '\\cresc', '\\dim', '\\espressivo', '\\fp', '\\n', '\\ppppp']
SIMPLECMD = ['\\break', '\\noBreak', '\\pageBreak', '\\noPageBreak', '\\pageTurn', '\\noPageTurn', '\\allowPageTurn',
             '\\voiceOne', '\\voiceTwo', '\\voiceThree', '\\voiceFour', '\\voiceFive', '\\voiceSix', '\\oneVoice', '\\inStaffSegno', '\\breathe']
UNITS = ['\\mm', '\\cm', '\\in', '\\pt']

_cmds = None


def toggle_commands():
    """All texts of the commands with a fixed mapping (GrobDirection etc.), as LilyPond defines them."""
    global _cmds
    if _cmds is None:
        out = []
        for grob in ('arpeggioArrow', 'bassFigureStaffAlignment', 'dots', 'dynamic', 'phrasingSlur', 'slur', 'stem',
                     'textSpanner', 'tie', 'tuplet'):
            for d in ('Up', 'Down', 'Neutral'):
                if (grob, d) not in (('arpeggioArrow', 'Neutral'),):
                    out.append('\\' + grob + d)
        for grob in ('phrasingSlur', 'slur', 'tie'):
            for s in ('Dashed', 'Dotted', 'HalfDashed', 'HalfSolid', 'Solid'):
                out.append('\\' + grob + s)
        for t in ('autoBeam', 'cadenza', 'textLength'):
            out += ['\\' + t + 'On', '\\' + t + 'Off']
        out += ['\\autoBreaksOn', '\\autoBreaksOff', '\\autoLineBreaksOn', '\\autoPageBreaksOff', '\\balloonLengthOn',
                '\\balloonLengthOff', '\\medianChordGridStyle', '\\bassFigureExtendersOn', '\\improvisationOn',
                '\\improvisationOff', '\\kievanOn', '\\kievanOff', '\\markLengthOn', '\\markLengthOff',
                '\\showStaffSwitch', '\\hideStaffSwitch', '\\startAcciaccaturaMusic', '\\newSpacingSection',
                '\\shiftOn', '\\shiftOnn', '\\shiftOff', '\\pointAndClickOn', '\\tupletUp', '\\numericTimeSignature',
                '\\defaultTimeSignature', '\\easyHeadsOn', '\\easyHeadsOff', '\\germanChords', '\\harmonicsOn',
                '\\sustainOn', '\\sustainOff', '\\xNotesOn', '\\xNotesOff', '\\mergeDifferentlyDottedOn']
        # (not in note context: spanner-like ones are postfix events)
        _cmds = [c for c in out if c not in ('\\sustainOn', '\\sustainOff', '\\medianChordGridStyle')]
    return _cmds

MARKUP_COMMANDS = [sorted(set(names) - {'score', 'score-lines'}) for names in W.markup_commands_nargs]


class Lily:
    """The productions; `g` is the source of choices."""
    def __init__(self, g, language='nederlands', quirks=True, canonical=True):
        self.g = g
        self.canonical = canonical
        self.names = NOTES[language]
        self.quirks = quirks

    # ---- small things
    def scheme(self, depth=2):
        g = self.g
        c = g.choice(['#', '#', '#', '#', '$', '#@', '$@']) if self.quirks else '#'
        return [c + gen_scheme.expr(g, depth, False, self.lily_in_scheme, self.canonical)]

    def schval(self):
        g = self.g
        return ['#' + g.choice(["'sym", '2', '-2', '0.5', '"str"', "red", "'(1 . 2)", "'(a b)", '#t', '#f', '(foo 1)', '1/2', "'()"])]

    def schsym(self):
        return ["#'" + self.g.choice(['foo', 'bar', 'x-y'])]

    def lily_in_scheme(self):
        old, self.g.budget = self.g.budget, min(self.g.budget, 4)
        toks = self.music_items(3)
        if 'q' in toks:             # not known at toplevel
            toks = self.braces(toks)
        self.g.budget = old
        return render(toks, None)

    def string(self):
        g = self.g
        if g.chance(20):
            return ['"' + ''.join(g.many(lambda: g.choice(['a', 'b ', '\\"', '\\\\', 'é', '%', '{', '<', "'", '#', '\\n', '\n', '|']), 0, 5)) + '"']
        return ['"' + ''.join(g.many(lambda: g.choice(['a', 'Piano', ' ', 'x', '1', '.', '-']), 0, 4)) + '"']

    def sym(self):
        return [self.g.choice(SYMS)]

    def symstr(self):
        return self.sym() if self.g.chance(50) else self.string()

    def tagarg(self):
        k = self.g.int(0, 2)
        return self.schsym() if k == 0 else self.sym() if k == 1 else self.string()

    # ---- pitches and durations
    def pitchtok(self):
        g = self.g
        s = g.choice(self.names)
        s += g.choice(['', '', '', '', "'", "''", ',', ',,', "'''"])
        return s

    def notetok(self):
        g = self.g
        s = self.pitchtok()
        if g.chance(15):
            s += g.choice(['!', '?', '!?'][:2] if not self.quirks else ['!', '?'])
        if g.chance(6):
            s += g.choice(['=', "='", '=,', "=''"])
        return s

    def dur(self):
        g = self.g
        s = g.choice(['4', '8', '2', '1', '16', '32', '64', '128', '\\breve', '\\longa', '\\maxima', '256'])
        s += g.choice(['', '', '', '', '.', '..', '...'])
        if g.chance(12):
            s += g.choice(['*2', '*1/2', '*2/3', '*3/4', '*5', '*0', '*11/7'])
        return [s]

    def optdur(self, percent=50):
        return [OPT] + self.dur() if self.g.chance(percent) else []

    # ---- events after a note
    def event(self):
        g = self.g
        k = g.int(0, 21)
        if k <= 2:
            return [g.choice(['-', '^', '_']) + g.choice(['.', '>', '-', '+', '^', '!', '_'])]
        if k <= 4:
            return [g.choice(['(', ')', '[', ']', '~', '\\(', '\\)', '\\[', '\\]', '\\~'])]
        if k <= 6:
            return [g.choice(DYN)]
        if k <= 8:
            return [g.choice(ARTIC)]
        if k == 9:
            return [g.choice(['-', '^', '_']) + g.choice('12345')]
        if k == 10:
            return [g.choice(['-', '^', '_']), GLUE] + self.string()
        if k == 11:
            return [g.choice(['-', '^', '_']), GLUE] + self.markup_cmd()
        if k == 12:
            return [g.choice(['^', '_', '-']) + g.choice(['(', '~', '[', '\\f', '\\trill', '\\<', ')', '\\('])]
        if k == 13:
            return [g.choice(SPANS)]
        if k == 14:
            return ['\\=' + g.choice(['1', '2', 'foo', '12']), OPT, g.choice(['(', ')', '\\(', '\\)'])]
        if k == 15:
            return [g.choice([':', ':8', ':16', ':32', ':64'])]
        if k == 16:
            return [g.choice(['-', '^', '_']) + '\\tweak'] + self.tweakpath() + self.schval() + [g.choice(['-.', '->', '-1', '(', '-^', '\\trill'])]
        if k == 17:
            return ['\\tweak'] + self.tweakpath() + self.tweakval() + [g.choice(['-.', '->', '-1', '('])]
        if k == 18:
            return [g.choice(['-', '^']) + '\\tag'] + self.schsym() + ['-.'] if g.chance(50) else ['\\tag'] + self.schsym() + ['-.']
        if k == 19:
            return ['-' + g.choice(['\\shape', '\\vshape']), "#'((0 . 0) (1 . 1))", g.choice(['(', '~'])]
        if k == 20:
            return ['\\noBeam']
        return ['-\\myArt' if self.quirks and g.chance(50) else '-\\fermata']

    def tweakval(self):
        g = self.g
        k = g.int(0, 3)
        if k == 0:
            return self.schval()
        if k == 1:
            return [str(g.int(0, 12))]
        if k == 2:
            return ['%d.%d' % (g.int(0, 9), g.int(0, 9))]
        return self.string()

    def tweakpath(self):
        g = self.g
        return [g.choice([g.choice(PROPS), g.choice(GROBS) + '.' + g.choice(PROPS), 'Slur.control-points'])]

    def events(self):
        g = self.g
        out = []
        for e in g.many(self.event, 0, 2) if g.chance(45) else []:
            if out or g.chance(50):
                out.append(OPT)
            out += e
        return out

    def note(self):
        g = self.g
        k = g.int(0, 19)
        if k <= 9:
            return [self.notetok()] + self.optdur() + self.events()
        if k <= 11:
            return [g.choice(['r', 's', 'R'])] + self.optdur() + self.events()
        if k <= 14:
            return self.chord() + self.optdur() + self.events()
        if k == 15:
            return ['q'] + self.optdur() + self.events()
        if k == 16:
            return ['\\skip'] + self.dur()
        if k == 17:
            return [self.notetok()] + self.optdur() + ['\\rest'] + self.events()
        if k == 18:
            return ['<>'] + self.events()
        return [self.pitchtok()] + self.dur() + self.dur() + self.events()     # an unpitched note

    def chord(self):
        g = self.g
        out = ['<']
        for i in range(g.int(1, 3)):
            if g.chance(8):
                out += ['\\tweak'] + self.tweakpath() + self.schval()
            out += [OPT if i == 0 else ' ', self.notetok()]
            if g.chance(12):
                out.append(g.choice(['-1', '-2', '^3', '-.']))
        return [t for t in out if t != ' '] + [OPT, '>']

    # ---- music
    def braces(self, body, a='{', b='}'):
        return [a, OPT] + body + [OPT, b] if not body or not body[-1].endswith('\\') else [a] + body + [b]

    def music_items(self, hi=6):
        out = []
        for m in self.g.many(self.music_item, 0, hi):
            out += m
        return out

    def music_item(self):
        g = self.g
        g.budget -= 1
        if g.budget <= 0 or g.chance(60):
            return self.note()
        return self.command() if g.chance(70) else self.music()

    def music(self):
        """One music expression as argument."""
        g = self.g
        g.budget -= 2
        k = g.int(0, 12) if g.budget > 0 else g.int(0, 4)
        if k <= 4 and g.budget > 0 and g.chance(25):
            k = 7
        if k <= 4 or k > 10:
            return self.braces(self.music_items(7))
        if k == 5:
            return self.braces(self.music_items(3), '<<', '>>')
        if k == 6:
            return ['<<'] + self.braces(self.music_items(2)) + ['\\\\'] + self.braces(self.music_items(2)) + ['>>']
        if k in (7, 9):
            return self.prefix()
        if k == 8:
            return [self.g.choice(['\\sequential', '\\simultaneous'])] + self.braces(self.music_items(3))
        return ['\\' + g.choice(SYMS)]

    def prefix(self):
        """A music function with music arguments."""
        g = self.g
        P = self.pitchtok
        k = g.int(0, 35)
        if k == 0:
            return ['\\relative'] + ([P()] if g.chance(60) else []) + self.music()
        if k == 1:
            return ['\\fixed', P()] + self.music()
        if k == 2:
            return ['\\absolute'] + self.music()
        if k == 3:
            return ['\\transpose', P(), P()] + self.music()
        if k == 4:
            out = ['\\repeat', g.choice(['volta', 'unfold', 'percent', 'tremolo', '"volta"', 'segno']), str(g.int(1, 9))] + self.music()
            if g.chance(30):
                out += ['\\alternative'] + self.braces(self.braces(self.music_items(1)) + self.braces(self.music_items(1)))
            return out
        if k == 5:
            return ['\\tuplet', g.choice(['3/2', '5/4', '6/4'])] + (self.dur() if g.chance(30) else []) + self.braces(self.music_items(3))
        if k == 6:
            return ['\\times', g.choice(['2/3', '4/5'])] + self.braces(self.music_items(3))
        if k == 7:
            return ['\\scaleDurations', g.choice(['2/3', '3/4', "#'(2 . 3)", '#2/3'])] + self.braces(self.music_items(3))
        if k == 8:
            return ['\\shiftDurations', g.choice(['#1', '#-1', '1']), g.choice(['#0', '0', '#1'])] + self.braces(self.music_items(3))
        if k == 9:
            return [g.choice(['\\grace', '\\acciaccatura', '\\appoggiatura', '\\slashedGrace'])] + self.music()
        if k == 10:
            return ['\\afterGrace'] + (['3/4'] if g.chance(30) else []) + [self.pitchtok(), OPT, '1'] + self.braces(self.music_items(2))
        if k <= 14:
            kind = g.choice(['\\new', '\\new', '\\context'])
            out = [kind, g.choice(CONTEXTS)]
            if g.chance(40):
                out += ['='] + self.symstr()
            if g.chance(25):
                out += self.with_block()
            return out + self.music()
        if k == 15:
            return [g.choice(['\\tag', '\\keepWithTag', '\\removeWithTag'])] + self.tagarg() + self.music()
        if k == 16:
            return [g.choice(['\\pushToTag', '\\appendToTag'])] + self.tagarg() + self.braces(self.music_items(1)) + self.music()
        if k == 17:
            return [g.choice(['\\unfoldRepeats', '\\unfolded'])] + self.music()
        if k == 18:
            return ['\\volta', g.choice(['1', '1,2', "#'(1 2)"])] + self.music()
        if k == 19:
            return ['\\quoteDuring'] + self.string() + self.music()
        if k == 20:
            return [g.choice(['\\partcombine', '\\partCombine'])] + self.braces(self.music_items(2)) + self.braces(self.music_items(2))
        if k in (21, 28, 29):
            return self.lyrics()
        if k in (22, 30, 31):
            return self.drums()
        if k in (23, 32, 33):
            return self.chords()
        if k in (24, 34, 35):
            return self.figures()
        if k == 25:
            return ['\\applyMusic'] + self.schval() + self.music()
        if k == 26:
            return ['\\notemode'] + self.braces(self.music_items(3))
        return ['\\after'] + self.dur() + [g.choice(['\\p', '\\f'])] + [self.pitchtok(), OPT, '1']

    def with_block(self):
        return ['\\with', NOCOM, '{'] + self.context_items() + ['}']

    def context_items(self):
        g = self.g
        def one():
            k = g.int(0, 6)
            if k == 0:
                return [g.choice(['\\consists', '\\remove'])] + (self.string() if g.chance(50) else [g.choice(['Bar', 'Foo_engraver'])])
            if k == 1:
                return self.override()
            if k == 2:
                return [g.choice(CPROPS), '='] + self.value()
            if k == 3:
                return [g.choice(['\\accepts', '\\denies', '\\alias', '\\name', '\\defaultchild']), g.choice(['Voice', 'Foo', '"Bar"'])]
            if k == 4:
                return ['\\' + g.choice(['Staff', 'Voice', 'Score'])]
            if k == 5:
                return [g.choice(['\\omit', '\\hide']), g.choice(GROBS)]
            return ['\\type', '"Engraver_group"']
        out = []
        for x in g.many(one, 0, 3):
            out += x
        return out

    def value(self):
        g = self.g
        k = g.int(0, 5)
        if k == 0:
            return self.string()
        if k == 1:
            return self.schval()
        if k == 2:
            return ['#' + str(g.int(-5, 20))]
        if k == 3:
            return self.markup_cmd()
        if k == 4:
            return self.scheme()
        return [str(g.int(0, 30))]

    def grobpath(self):
        g = self.g
        s = g.choice(GROBS) + '.' + g.choice(PROPS)
        if g.chance(30):
            s = g.choice(['Staff', 'Voice', 'Score']) + '.' + s
        if g.chance(10):
            s += '.left'
        return [s]

    def grobval(self):
        g = self.g
        return self.schval() if g.chance(60) else g.choice([['5'], ['1.5'], ['"x"'], ['##f'], ['#red']])

    def override(self):
        g = self.g
        k = g.int(0, 7)
        if k <= 2:
            return ['\\override'] + self.grobpath() + ['='] + self.grobval()
        if k == 3:
            return ['\\revert'] + self.grobpath()
        if k == 4:
            return ['\\set', g.choice(['', 'Staff.', 'Score.']) + g.choice(CPROPS), '='] + self.grobval()
        if k == 5:
            return ['\\unset', g.choice(['', 'Staff.']) + g.choice(CPROPS)]
        if k == 6:
            return ['\\override', g.choice(['', 'Staff.']) + g.choice(GROBS), "#'" + g.choice(PROPS), '='] + self.schval()
        return [g.choice(['\\omit', '\\hide']), g.choice(['', 'Staff.']) + g.choice(GROBS)]

    def command(self):
        g = self.g
        P = self.pitchtok
        k = g.int(0, 31)
        if k == 0:
            return ['\\clef'] + (self.string() if g.chance(20) else [g.choice(['treble', 'bass', '"bass_8"', '"treble^8"', 'alto', '"G"'])])
        if k == 1:
            return ['\\key', g.choice(self.names), g.choice(['\\major', '\\minor', '\\dorian', '\\mixolydian', '\\lydian'])]
        if k == 2:
            return ['\\time', g.choice(['3/4', '4/4', '6/8', '2/2', "#'(2 1) 3/4"])] if g.chance(90) else ['\\time', '2,1', '3/8']
        if k == 3:
            return ['\\tempo'] + g.choice([['4', '=', '120'], ['"Allegro"'], ['"Allegro"', '4.', '=', '60'], ['Allegro'], ['2.', '=', '40'], ['4', '=', '60-72']][:5])
        if k == 4:
            return ['\\partial'] + self.dur()
        if k == 5:
            return ['\\bar'] + (['"|."'] if g.chance(50) else ['"||"'])
        if k == 6:
            return ['\\mark'] + g.choice([['\\default'], ['"A"'], ['5'], ['#5'], ['\\markup', '{', 'x', '}']])
        if k <= 8:
            return ['|']
        if k <= 11:
            pre = g.choice([[], [], ['\\once'], ['\\temporary'], ['\\undo'], ['\\once', '\\temporary']])
            return pre + self.override()
        if k == 12:
            return ['\\ottava', g.choice(['1', '0', '#-1', '#1', '2', '-1'])]
        if k <= 15:
            return [g.choice(toggle_commands())]
        if k <= 17:
            return [g.choice(SIMPLECMD)]
        if k == 18:
            return self.scheme()
        if k == 19:
            return [g.choice(['\\music.foo', '\\foo.1', '\\"my var"', '\\fooBar'])]
        if k == 20:
            return ['\\change', g.choice(['Staff', 'Voice']), '='] + self.symstr()
        if k == 21:
            return ['\\octaveCheck', P()]
        if k == 22:
            return ['\\transposition', P()]
        if k == 23:
            return ['\\label'] + self.schsym()
        if k == 24:
            return [g.choice(['\\slurDashPattern', '\\tieDashPattern', '\\phrasingSlurDashPattern'])] + g.choice([['#0.3', '#0.75'], ['0.3', '0.75']])
        if k == 25:
            return [g.choice(['\\shape', '\\vshape']), "#'((0 . 0) (0 . 1))", g.choice(['Slur', 'Staff.Tie'])]
        if k == 26:
            return ['\\applyContext'] + self.schval()
        if k == 27:
            return ['\\applyOutput', g.choice(['Staff', 'Staff.NoteHead'])] + self.schval()
        if k == 28:
            return ['\\tweak'] + self.tweakpath() + self.tweakval() + [self.pitchtok()]
        if k == 29:
            return ['\\tagGroup', "#'(a b)"]
        if k == 30:
            return ['\\stringTuning'] + self.chord()
        return ['\\accidentalStyle', g.choice(['modern', 'Score.modern'])]

    # ---- other input modes
    def lyrics(self):
        g = self.g
        head = g.choice([['\\lyricmode'], ['\\lyrics'], ['\\lyricsto', NOCOM, '"x"', NOCOM], ['\\addlyrics'], ['\\lyricsto', NOCOM, 'foo', NOCOM]])
        def syl():
            g.budget -= 1
            k = g.int(0, 11)
            if k <= 5:
                return [g.choice(WORDS)] + (self.dur() if g.chance(25) else [])
            if k == 6:
                return self.string() + (self.dur() if g.chance(40) else [])
            if k == 7:
                return [g.choice(['--', '__', '_'])]
            if k == 8:
                return self.markup_cmd()
            if k == 9 and g.budget > 0:
                return ['{'] + [t for x in g.many(syl, 0, 2) for t in x] + ['}']
            if k == 10:
                return ['\\' + g.choice(SYMS)]
            return self.scheme()
        body = [t for x in g.many(syl, 0, 5) for t in x]
        return head + ['{'] + body + ['}']

    def drums(self):
        g = self.g
        def one():
            k = g.int(0, 6)
            if k <= 3:
                return [g.choice(DRUMS)] + self.optdur(40)[-1:] + self.events()
            if k == 4:
                return ['<', g.choice(DRUMS), g.choice(DRUMS), '>', OPT] + self.dur()
            if k == 5:
                return [g.choice(['r', 's', 'R'])] + self.optdur()
            return g.choice([self.override, lambda: [g.choice(toggle_commands())], lambda: ['|'], lambda: [g.choice(SIMPLECMD)]])()
        body = [t for x in g.many(one, 0, 4) for t in x]
        return [g.choice(['\\drummode', '\\drums'])] + ['{'] + body + ['}']

    def chords(self):
        g = self.g
        def one():
            if g.chance(15):
                return [g.choice(['r', 's']), OPT] + self.dur()
            out = [g.choice(self.names)] + self.optdur()
            k = g.int(0, 7)
            if k >= 3:
                m = g.choice(['maj7', 'm', 'm7', '7', 'dim', 'aug', 'sus4', 'maj', '9-', 'm7.5-', '7.9+.11', 'sus2', '5.8'])
                out += [OPT, ':' + m]
                if g.chance(25):
                    out += [OPT, '^' + g.choice(['3', '5.7'])]
            if k >= 6:
                out += [OPT, g.choice(['/', '/+'])+ g.choice(self.names)]
            return out
        body = [t for x in g.many(one, 0, 4) for t in x]
        return [g.choice(['\\chordmode', '\\chords'])] + ['{'] + body + ['}']

    def figures(self):
        g = self.g
        def fig():
            s = g.choice(['6', '4', '3', '5', '7', '11', '_'])
            if s != '_':
                s += g.choice(['', '', '+', '-', '!', '++', '--'])
                s += g.choice(['', '', '\\+', '/', '\\\\', '\\!'])
            return s
        def one():
            k = g.int(0, 6)
            if k == 0:
                return [g.choice(['r', 's']), OPT] + self.dur()
            out = ['<', OPT]
            n = g.int(0, 3)
            for i in range(n):
                if g.chance(15):
                    out += ['[', OPT, fig(), OPT, ']']
                elif g.chance(10):
                    out += ['"x"']
                else:
                    out += [fig()]
            return out + [OPT, '>'] + self.optdur(40)
        body = [t for x in g.many(one, 0, 4) for t in x]
        return [g.choice(['\\figuremode', '\\figures'])] + ['{'] + body + ['}']

    # ---- markup
    MK1 = ['\\bold', '\\italic', '\\line', '\\column', '\\center-column', '\\concat', '\\box', '\\small', '\\fill-line', '\\smallCaps', '\\number']
    MK2 = ['\\hspace', '\\vspace']

    def markup_cmd(self):
        return ['\\markup'] + self.markup_arg(2)

    def markup_arg(self, depth):
        g = self.g
        g.budget -= 1
        k = g.int(0, 9) if depth > 0 and g.budget > 0 else g.int(0, 1)
        if k == 0:
            return [g.choice(MARKWORDS)]
        if k == 1:
            return self.string()
        if k <= 4:
            return ['{'] + [t for x in g.many(lambda: self.markup_item(depth - 1), 0, 3) for t in x] + ['}']
        return self.markup_func(depth - 1)

    def markup_item(self, depth):
        return self.markup_arg(depth)

    def markup_func(self, depth):
        g = self.g
        k = g.int(0, 8)
        if k <= 3:
            return [g.choice(self.MK1)] + self.markup_arg(depth)
        if k == 4:
            return [g.choice(self.MK2), '#' + str(g.int(-2, 9))]
        if k == 5:
            return [g.choice(['\\with-color', '\\fontsize', '\\raise', '\\override', '\\halign', '\\with-url']),
                    g.choice(['#red', '#-1', '#1.5', "#'(a . 1)"])] + self.markup_arg(depth)
        if k == 6 and g.budget > 0:
            if g.chance(40):
                return ['\\score-lines', NOCOM, '{'] + self.music() + ['}']
            return ['\\score', NOCOM, '{'] + self.music() + (['\\layout', NOCOM, '{', '}'] if g.chance(50) else []) + ['}']
        n = g.int(0, 5)
        out = ['\\' + g.choice(MARKUP_COMMANDS[n])]
        for _ in range(n):
            out += [g.choice(['#1', "#'x", '#"s"', '#0.5'])] if g.chance(30) else self.markup_arg(min(depth, 1) if _ < n - 1 else depth)
        return out

    # ---- document
    def assign_name(self):
        g = self.g
        k = g.int(0, 7)
        if k <= 4:
            return self.sym()
        if k == 5:
            return ['"' + g.choice(['my var', 'x2', 'c']) + '"']
        return [g.choice(SYMS) + '.' + g.choice(['foo', '1', 'bar'])]

    def assignment(self):
        g = self.g
        k = g.int(0, 15)
        if k <= 4:
            v = self.music()
        elif k == 13:
            v = g.choice([['\\p'], ['-\\fermata'], ['^\\f'], ['('], ['\\<'], ['^', GLUE, '\\markup', '{', 'x', '}'],
                          ['_', GLUE, '"x"'], ['\\trill'], ['-4'], ['\\startTextSpan'], ['\\]']])
        elif k == 14:
            v = g.choice([['\\relative'], ['\\transpose', self.names[0], self.names[1]], ['\\fixed', self.names[0] + "'"], ['\\tag'] + self.schsym()]) + ['\\etc']
        elif k == 15:
            v = self.braces(['\\['] + self.note() + self.music_items(2))
        elif k == 5:
            v = self.string()
        elif k == 6:
            v = [str(g.int(0, 50))]
        elif k == 7:
            v = self.scheme()
        elif k == 8:
            v = self.markup_cmd()
        elif k == 9:
            v = [g.choice(['1.5', '0.25', '1/2', '##t', '##f'])]
        elif k == 10:
            v = [str(g.int(0, 30)), OPT, g.choice(UNITS)]
        elif k == 11:
            v = self.with_block()
        else:
            v = self.prefix()
        return self.assign_name() + ['='] + v

    def paperitems(self):
        g = self.g
        def one():
            k = g.int(0, 5)
            if k == 0:
                return [g.choice(['indent', 'top-margin', 'line-width']), '=', g.choice(['10', '1.5', '0']), OPT, g.choice(UNITS)]
            if k == 1:
                return [g.choice(['ragged-right', 'ragged-last']), '=', g.choice(['##t', '##f'])]
            if k == 2:
                return ['#(set-paper-size "a4")']
            if k == 3:
                return ['system-system-spacing.basic-distance', '=', '#' + str(g.int(0, 20))]
            if k == 4:
                return ['myfont', '='] + self.string()
            return ['page-count', '=', str(g.int(1, 9))]
        return [t for x in g.many(one, 0, 3) for t in x]

    def paper(self):
        return ['\\paper', NOCOM, '{'] + self.paperitems() + ['}']

    def header(self):
        g = self.g
        def one():
            return [g.choice(['title', 'subtitle', 'composer', 'tagline', 'piece']), '='] + g.choice(
                [self.string, self.markup_cmd, lambda: ['##f'], lambda: ['\\' + g.choice(SYMS)], self.string])()
        return ['\\header', NOCOM, '{'] + [t for x in g.many(one, 0, 3) for t in x] + ['}']

    def layout(self):
        g = self.g
        def one():
            k = g.int(0, 2)
            if k == 0:
                return ['indent', '=', '0', OPT, g.choice(UNITS)]
            if k == 1:
                return ['\\context', NOCOM, '{', '\\' + g.choice(['Staff', 'Voice', 'Score'])] + self.context_items() + ['}']
            return ['ragged-right', '=', '##t']
        return ['\\layout', NOCOM, '{'] + [t for x in g.many(one, 0, 3) for t in x] + ['}']

    def midi(self):
        g = self.g
        body = g.choice([[], ['\\tempo', '4', '=', '100'], ['\\context', NOCOM, '{', '\\Score', 'midiChannelMapping', '=', "#'instrument", '}']])
        return ['\\midi', NOCOM, '{'] + list(body) + ['}']

    def score(self):
        g = self.g
        out = ['\\score', NOCOM, '{'] + self.music()
        for f in (self.header, self.layout, self.midi):
            if g.chance(35):
                out += f()
        return out + ['}']

    def bookpart(self):
        g = self.g
        out = []
        for x in g.many(lambda: g.choice([self.score, self.markup_cmd, self.paper, self.header, self.music])(), 0, 3):
            out += x
        return ['\\bookpart', NOCOM, '{'] + out + ['}']

    def toplevel(self):
        g = self.g
        g.budget -= 2
        k = g.int(0, 15)
        if k <= 4:
            return self.music()
        if k <= 7:
            return self.assignment()
        if k == 8:
            return self.score()
        if k == 9:
            return g.choice([self.header, self.paper, self.layout, self.midi])()
        if k == 10:
            return self.markup_cmd() if g.chance(70) else ['\\markuplist', '{'] + self.markup_arg(1) + self.markup_arg(1) + ['}']
        if k == 11:
            return g.choice([['\\version', '"2.20.0"'], ['\\include', '"foo.ily"'], ['\\version', '"2.24.1"']])
        if k == 12:
            return ['#' + gen_scheme.expr(g, 3, False, self.lily_in_scheme, self.canonical)]
        if k == 13:
            return ['\\book', NOCOM, '{'] + g.choice([self.bookpart, self.score, self.paper])() + ['}']
        if k == 14:
            return self.prefix()
        return ['\\addQuote', '"x"'] + self.music()

    def document(self, hi=5):
        out = []
        for t in self.g.many(self.toplevel, 1, hi):
            out += t
        return out


COMMENTS = [' %{ c %} ', ' % line\n', '\n% own line\n', '%{x%}', ' %{ multi\nline %}\n', ' %%% three\n']

#: after another comment
COMMENTS2 = [' % second\n', '%{ next %} ', '\n\n  % last\n', '%{%}', '%\n']


def _needs_space(a, b):
    """True if the tokens would mean something else when written without whitespace between them."""
    if a[0] in '#$' or a.startswith(('\\tweak', '-\\', '^\\', '_\\')) and b[0].isalpha():
        return True
    if a in MARKWORDS and b[0] not in '{}"#\\%':
        return True
    if a[-1].isalnum() and b[0].isalnum():
        return not (a[-1] in NOTE_END and b[0].isdigit())
    return a[-1] in '.\\:-<' and b[0] not in '{}' or b[0] in '.'


NOTE_END = 'abcdefghlisorRéq'


def render(tokens, g, style=0):
    """Join the tokens. style: 0 single spaces, 1 varied whitespace, 2 varied whitespace and comments.

    Without g (or with style 0) OPT is glued."""
    out = []
    sep = ''
    first = True
    depth = 0
    for t in tokens:
        if t == OPT:
            sep = OPT
            continue
        if t == GLUE or t == NOCOM:
            sep = t
            continue
        if not first:
            if sep == GLUE:
                s = ''
            elif g is None or style == 0:
                s = '' if sep == OPT and g is None and not _needs_space(prev, t) else ' '
            else:
                k = g.int(0, 11)
                if sep == OPT and k <= 6 and not _needs_space(prev, t):
                    s = ''
                elif k <= 7:
                    s = ' '
                elif k == 8:
                    s = '\n'
                elif k == 9:
                    s = '\n' + '  ' * g.int(0, 3)
                elif k == 10:
                    s = g.choice(['  ', '\t', '\n\n', ' \n \n  '])
                else:
                    s = ' '
                    if style == 2 and sep != NOCOM:
                        s = g.choice(COMMENTS)
                        while g.chance(25):
                            s += g.choice(COMMENTS2)
                    if s[0] == '%' and prev[-1] not in '{}<>"]':
                        s = ' ' + s
            out.append(s)
        out.append(t)
        prev = t
        first = False
        sep = ''
    return ''.join(out)


def lily_document(g, style=None, hi=5, quirks=True):
    """Return LilyPond source text."""
    if style is None:
        style = g.choice([0, 1, 1])
    lang = 'nederlands'
    head = []
    if g.chance(15):
        lang = g.choice(['english', 'italiano', 'deutsch', 'français'])
        head = ['\\language', '"%s"' % lang]
    p = Lily(g, lang, quirks)
    toks = head + p.document(hi)
    text = render(toks, g, style)
    if style and g.chance(50):
        text += '\n'
    return text
