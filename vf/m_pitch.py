"""C11: pitch names; C12: pitch arithmetic; C13: transposing single pitches."""
import itertools
from fractions import Fraction

from . import g as G
from .core import enumerated, expect, fail, rule, same, sub
from .lib import lily, lydoc, read, same_tree

from parce.lang.lilypond_words import pitch_names
from quickly import key as Key
from quickly.dom.scope import Scope
from quickly.pitch import (MAJOR_SCALE, Pitch, PitchProcessor, determine_language, octave_from_string, octave_to_string)
from quickly.transpose import Transposer



def triple(p):
    return p.octave, p.note, p.alter


# ---- C11 -------------------------------------------------------------------------------------------

rule('C11', "a language other than the default, a name that has alternatives, or a document with a language command")

PREFS = ['prefer_long', 'prefer_accented', 'prefer_x', 'prefer_double_s', 'prefer_classic', 'prefer_deprecated']
LANGS = sorted(pitch_names)
ALTERNATIVES = {}           # (language, note, alter) -> names
for _l in LANGS:
    for _n, (_o, _s, _a) in pitch_names[_l].items():
        ALTERNATIVES.setdefault((_l, _s, _a), []).append(_n)


def processor(language, prefs=()):
    p = PitchProcessor(language)
    for name in PREFS:
        setattr(p, name, name in prefs)
    return p


def marks(n):
    return "'" * n if n > 0 else ',' * -n


# independent spelling rules of the well known languages: (language, base names, {suffix: alteration}, exceptions)
RULES = [
    ('nederlands', 'c d e f g a b', {'': 0, 'is': .5, 'isis': 1, 'es': -.5, 'eses': -1, 'ih': .25, 'eh': -.25, 'isih': .75, 'eseh': -.75}, {'es': (2, -.5), 'as': (5, -.5), 'eses': (2, -1), 'ases': (5, -1)}),
    ('english', 'c d e f g a b', {'': 0, 's': .5, 'ss': 1, 'x': 1, 'f': -.5, 'ff': -1, 'qs': .25, 'qf': -.25, 'tqs': .75, 'tqf': -.75,
                                  '-sharp': .5, '-flat': -.5, '-sharpsharp': 1, '-flatflat': -1, '-natural': 0}, {}),
    ('deutsch', 'c d e f g a h', {'': 0, 'is': .5, 'isis': 1}, {'b': (6, -.5), 'es': (2, -.5), 'as': (5, -.5), 'ces': (0, -.5), 'des': (1, -.5), 'fes': (3, -.5), 'ges': (4, -.5), 'heses': (6, -1), 'ceses': (0, -1)}),
    ('italiano', 'do re mi fa sol la si', {'': 0, 'd': .5, 'dd': 1, 'b': -.5, 'bb': -1, 'sd': .25, 'sb': -.25, 'dsd': .75, 'bsb': -.75}, {}),
    ('français', 'do ré mi fa sol la si', {'': 0, 'd': .5, 'dd': 1, 'x': 1, 'b': -.5, 'bb': -1}, {'re': (1, 0), 'rebb': (1, -1)}),
    ('español', 'do re mi fa sol la si', {'': 0, 's': .5, 'ss': 1, 'x': 1, 'b': -.5, 'bb': -1}, {}),
    ('português', 'do re mi fa sol la si', {'': 0, 's': .5, 'ss': 1, 'b': -.5, 'bb': -1}, {}),
    ('català', 'do re mi fa sol la si', {'': 0, 'd': .5, 'dd': 1, 's': .5, 'ss': 1, 'b': -.5, 'bb': -1}, {}),
    ('norsk', 'c d e f g a h', {'': 0, 'is': .5, 'isis': 1, 'iss': .5}, {'b': (6, -.5), 'es': (2, -.5), 'as': (5, -.5), 'ees': (2, -.5), 'ass': (5, -.5)}),
    ('suomi', 'c d e f g a h', {'': 0, 'is': .5, 'isis': 1}, {'b': (6, -.5), 'es': (2, -.5), 'as': (5, -.5)}),
    ('svenska', 'c d e f g a h', {'': 0, 'iss': .5, 'ississ': 1}, {'b': (6, -.5), 'ess': (2, -.5), 'ass': (5, -.5)}),
    ('vlaams', 'do re mi fa sol la si', {'': 0, 'k': .5, 'kk': 1, 'b': -.5, 'bb': -1}, {}),
]


def spellings():
    for lang, bases, suffixes, extra in RULES:
        for step, base in enumerate(bases.split()):
            for s, alter in suffixes.items():
                yield lang, base + s, step, alter
        for name, (step, alter) in extra.items():
            yield lang, name, step, alter


@enumerated('C11', 'spellings', sorted(spellings()), shards=2)
def c11_spellings(case, ctx):
    lang, name, step, alter = case
    p = processor(lang).pitch(name)
    same((p.octave, p.note, float(p.alter)), (-1, step, alter), "pitch(%r) in %s" % (name, lang))
    for o in range(-3, 5):
        n = lily.Note(name, octave=o)
        p = processor(lang).read_node(n)
        same((p.octave, p.note, float(p.alter)), (o - 1, step, alter), "read_node of %s%s in %s" % (name, marks(o), lang))
    ctx.nontrivial(lang != 'nederlands' or len(name) > 2)


@enumerated('C11', 'language', [(a, b) for a in [None] + LANGS for b in LANGS])
def c11_language(case, ctx):
    """Choosing the language."""
    first, second = case
    proc = PitchProcessor(first) if first else PitchProcessor()
    check = lambda lang: same((proc.language, proc.pitch(ALTERNATIVES[lang, 6, 0][0]).note), (lang, 6), "language")
    check(first or 'nederlands')
    proc.language = second
    check(second)
    for wrong in ('klingon', '', None, 'Nederlands'):
        try:
            proc.language = wrong
        except KeyError:
            check(second)
        else:
            fail("%r is accepted as language", wrong)
    del proc.language
    check('nederlands')
    ctx.nontrivial(second != 'nederlands')


@enumerated('C11', 'names', [(l, p) for l in LANGS for p in itertools.chain.from_iterable(itertools.combinations(PREFS, n) for n in range(7))], shards=8)
def c11_names(case, ctx):
    """Every pitch of the language, with all combinations of the preferences."""
    lang, prefs = case
    proc = processor(lang, prefs)
    for (l, note, alter), names in ALTERNATIVES.items():
        if l != lang:
            continue
        for octave in (-4, -1, 0, 1, 2, 6):
            pitch = Pitch(octave, note, alter)
            name, oct = proc.name_octave(pitch)
            expect(name in names, "%r written as %r in %s", (octave, note, alter), name, lang)
            q = proc.pitch(name)
            same((q.octave + oct, q.note, q.alter), (octave, note, alter), "pitch of %r %r in %s" % (name, oct, lang))
            same(proc.to_string(pitch), name + marks(oct), "to_string")
            same(abs(oct), min(abs(octave - pitch_names[lang][n][0]) for n in names), "number of octave marks for %r %r in %s" % (octave, name, lang))
            if octave in (-1, 1):
                node = proc.pitchable(pitch)
                expect(type(node) is lily.Note and node.write() == name + marks(oct), "pitchable wrote %r", node.write())
                same(triple(proc.read_node(node)), triple(pitch), "read_node(pitchable())")
                node = proc.pitchable(pitch, lily.Pitch)
                expect(type(node) is lily.Pitch, "pitchable(cls) gave %r", node)
        _documented(proc, lang, prefs, proc.name_octave(Pitch(-1, note, alter))[0], names)
        for wrong in ('zz', '', name.upper() if lang != 'bagpipe' else 'zzz'):
            try:
                proc.pitch(wrong)
            except KeyError:
                pass
            else:
                fail("pitch(%r) in %s did not raise KeyError", wrong, lang)
    for note, alter in ((0, 3), (3, Fraction(1, 3))):
        try:
            name = proc.to_string(Pitch(0, note, alter))
        except KeyError:
            pass
        else:
            fail("to_string of an unknown pitch gave %r in %s", name, lang)
    ctx.nontrivial(lang != 'nederlands' or bool(prefs))


def _documented(proc, lang, prefs, name, names):
    """The preferences do what their documentation says, when there is something to choose."""
    def choose(pref, test):
        yes, no = [n for n in names if test(n)], [n for n in names if not test(n)]
        if yes and no:
            same(test(name), pref in prefs, "the name %r out of %r in %s with %r, judged by %s" % (name, names, lang, prefs, pref))
    if lang == 'english':
        choose('prefer_long', lambda n: '-' in n)
        if '-' not in name:
            names = [n for n in names if '-' not in n]
            choose('prefer_x', lambda n: n.endswith('x'))
    elif lang == 'français':
        choose('prefer_accented', lambda n: 'é' in n)
        choose('prefer_x', lambda n: n.endswith('x'))
    elif lang in ('espanol', 'español'):
        choose('prefer_x', lambda n: n.endswith('x'))
    elif lang == 'norsk':
        choose('prefer_double_s', lambda n: 'ss' in n)
        choose('prefer_classic', lambda n: n[:2] in ('es', 'as'))
    elif lang == 'nederlands':
        choose('prefer_classic', lambda n: n[:2] in ('es', 'as'))
    elif lang == 'deutsch':
        choose('prefer_deprecated', lambda n: n in ('eeh', 'ases', 'aseh', 'aeh'))
    elif lang == 'suomi':
        choose('prefer_deprecated', lambda n: n in ('ases', 'bb', 'heses'))
    elif lang in ('catalan', 'català'):
        choose('prefer_deprecated', lambda n: n.endswith('s'))


def _distill(g):
    lang = g.choice(LANGS)
    prefs = tuple(g.subset(PREFS, 40))
    table = sorted((n, a) for l, n, a in ALTERNATIVES if l == lang)
    return lang, prefs, g.many(lambda: g.choice(table), 1, 8), g.many(lambda: g.choice(table), 0, 5), g.chance(50), tuple(g.subset(PREFS, 40))


@sub('C11', 'preferences', lambda: G.strategy(_distill), 3000, shards=4)
def c11_preferences(case, ctx):
    lang, prefs, pitches, others, inline, start = case
    proc = processor(lang, prefs)
    names = [proc.name_octave(Pitch(-1, n, a))[0] for n, a in pitches]
    fresh = processor('nederlands' if inline else lang, start)
    fresh.distill_preferences(iter([lang] + names if inline else names))
    same(fresh.language, 'nederlands' if inline else lang, "language after distill_preferences")
    fresh.language = lang
    choice = False
    if lang not in ('catalan', 'català', 'bagpipe', 'persian'):       # (no preferences are distilled in these)
        for (n, a), name in zip(pitches, names):
            if lang == 'english' and not any(abs(x) in (.5, 1) for _, x in pitches):
                break               # natural notes do not tell whether long names are preferred
            same(fresh.name_octave(Pitch(-1, n, a))[0], name, "name written in %s with the preferences distilled from %r" % (lang, names))
            choice = choice or len(ALTERNATIVES[lang, n, a]) > 1
    # a preference about which the names tell nothing must not change
    for name in PREFS:
        a, b = processor(lang, prefs), processor(lang, prefs)
        setattr(a, name, True)
        setattr(b, name, False)
        got = getattr(fresh, name)
        relevant = any(getattr_names(a, p) != getattr_names(b, p) for p in ((n, al) for (l, n, al) in ALTERNATIVES if l == lang))
        if not relevant and lang != 'persian' and lang != 'bagpipe' and not (name == 'prefer_x' and any(n.endswith('x') for n in names)) \
                and not (name == 'prefer_classic' and lang == 'norsk') and not (name == 'prefer_x' and lang in ('english', 'français')):
            same(got, name in start, "%s after analysing the %s names %r" % (name, lang, names))
    if all(len(ALTERNATIVES[lang, n, a]) == 1 for n, a in pitches):
        for name in PREFS:
            if name != 'prefer_classic':        # (eeseh tells something, although there is no other name)
                same(getattr(fresh, name), name in start, "%s after analysing the %s names %r, that have no alternatives" % (name, lang, names))
    ctx.nontrivial(choice)
    ctx.label('choice' if choice else 'no choice')


def getattr_names(proc, p):
    return proc.name_octave(Pitch(-1, *p))[0]


def _guess(g):
    langs = [g.choice(LANGS)] + ([g.choice(LANGS)] if g.chance(15) else [])
    names = [g.choice(sorted(pitch_names[g.choice(langs)])) for _ in range(g.int(0, 6))]
    return names + g.subset(['r', 'R', 's', 'q'], 20) + (['xyz'] if g.chance(4) else [])


@sub('C11', 'guess', lambda: G.strategy(_guess), 2500, shards=2)
def c11_guess(names, ctx):
    got = list(determine_language(iter(names)))
    wanted = set(names) - set('rRsq')
    ok = {l for l in LANGS if all(n in pitch_names[l] for n in wanted)}
    expect(len(got) == len(set(got)), "duplicates in %r", got)
    for l in got:
        expect(l in ok, "language %s does not have all names of %r", l, names)
    for l in ok:
        expect(l in got or any(pitch_names[l] is pitch_names[m] for m in got), "language %s has all the names of %r but was not reported: %r", l, names, got)
    ctx.nontrivial(bool(wanted) and len(got) < len(LANGS) - 4)
    ctx.label('%d languages' % min(3, len(got)))


# documents with language changes; the generator keeps the pitch each note denotes
SMALL = [l for l in LANGS if l not in ('bagpipe', 'arabic', 'persian')]


def _langdoc(g):
    lang = 'nederlands'
    toks, pitches = [], []
    depth = 0
    for _ in range(g.int(1, 14)):
        k = g.int(0, 9)
        if k == 0 and depth == 0 or k == 1 and depth == 0:
            lang = g.choice(SMALL)
            toks.append('\\language "%s"' % lang if k == 0 else '\\include "%s.ly"' % lang)
        elif k == 2 and depth == 0:
            toks.append(g.choice(['\\language "klingon"', '\\include "foo.ily"', '\\include "klingon.ly"', '\\language ""']))
        elif depth == 0 or k == 3:
            toks.append('{')
            depth += 1
        elif k <= 1 and depth or k == 4:
            toks.append('}')
            depth -= 1
        elif depth:
            names = sorted(n for n in pitch_names[lang] if n.isalpha())
            n = g.choice(names)
            o = g.int(-2, 3)
            toks.append(n + marks(o) + g.choice(['', '4', '!', '?8', '.'][:4]))
            oo, step, alter = pitch_names[lang][n]
            pitches.append((lang, oo + o, step, alter))
    toks += ['}'] * depth
    return ' '.join(toks), pitches


@sub('C11', 'documents', lambda: G.strategy(_langdoc), 2500, shards=4)
def c11_documents(case, ctx):
    text, pitches = case
    d = read.lily_document(text)
    proc = PitchProcessor()
    got = []
    yielded = []
    for n in proc.follow_language(d.descendants()):
        yielded.append(n)
        if isinstance(n, lily.Note):
            p = proc.read_node(n)
            got.append((proc.language, p.octave, p.note, p.alter))
    same(got, pitches, "pitches found with follow_language in %r" % text)
    known = [n for n in d.descendants() if isinstance(n, (lily.Language, lily.Include)) and n.language in pitch_names]
    want = [n for n in d.descendants() if not any(n is k for k in known)]
    expect(len(want) == len(yielded) and all(a is b for a, b in zip(want, yielded)), "follow_language yields the wrong nodes in %r", text)
    notes = [n for n in d.descendants() if isinstance(n, lily.Note)]
    for n, p in zip(notes, pitches):
        proc = PitchProcessor()
        proc.find_language(n)
        same(proc.language, p[0], "find_language of a note in %r" % text)
    ctx.nontrivial(bool(known) and bool(notes))
    ctx.label('%d language commands' % min(3, len(known)))


def _setpitch(g):
    lang = g.choice(SMALL)
    table = sorted(pitch_names[lang])
    steps = sorted((n, a) for l, n, a in ALTERNATIVES if l == lang)
    name = g.choice([n for n in table if n.isalpha()])
    rest = g.choice(['', '4', '8.', '!', '?', "=''", '!4', '?=,2', '-.', '4-.\\f', '( -1', '\\rest', '4\\rest-.'])
    return lang, name, g.int(-2, 3), rest, g.choice(steps), g.int(-4, 4), tuple(g.subset(PREFS, 40)), g.choice(['write', 'process', 'nowrite', 'same'])


@sub('C11', 'set', lambda: G.strategy(_setpitch), 2500, shards=4)
def c11_set(case, ctx):
    lang, name, o, rest, (step, alter), octave, prefs, how = case
    src = '\\language "%s" { %s%s%s }' % (lang, name, marks(o), rest)
    d = read.lily_document(src)
    node = [n for n in d.descendants() if isinstance(n, lily.Pitchable)][0]
    proc = processor(lang, prefs)
    old = proc.read_node(node)
    oo, s, a = pitch_names[lang][name]
    same(triple(old), (oo + o, s, a), "pitch of %r" % src)
    new = Pitch(octave, step, alter)
    if how == 'same':
        new = Pitch(octave, s, a)
        proc.write_node(node, new)
        same(node.head, name, "name after changing only the octave")
    elif how == 'write':
        proc.write_node(node, new)
    elif how == 'process':
        with proc.process(node) as p:
            same(triple(p), triple(old), "pitch in process()")
            p.octave, p.note, p.alter = octave, step, alter
    else:
        with proc.process(node, False) as p:
            p.octave, p.note, p.alter = octave, step, alter
        new = old
        same(d.write(), read.lily_document(src).write(), "text after process(write=False)")
    same(triple(proc.read_node(node)), triple(new), "pitch read after writing it to %r" % src)
    # the other parts
    d2 = read.lily_document('\\language "%s" { %s%s%s }' % (lang, node.head, marks(node.octave), rest))
    same_tree(read.lily_document(d.write()), d2, "document %r after writing the pitch %r" % (src, new))
    same(d.write().split(), d2.write().split(), "text after writing the pitch %r to %r" % (new, src))
    same_tree(d, d2, "tree after writing the pitch %r to %r" % (new, src))
    ctx.nontrivial(new != old)


@sub('C11', 'octaves', lambda: G.strategy(lambda g: (g.int(-12, 12), ''.join(g.many(lambda: g.choice("',"), 0, 8)))), 500, shards=1)
def c11_octaves(case, ctx):
    n, s = case
    same(octave_to_string(n), marks(n), "octave_to_string(%d)" % n)
    same(octave_from_string(marks(n)), n, "octave_from_string")
    same(octave_from_string(s), s.count("'") - s.count(','), "octave_from_string(%r)" % s)
    ctx.nontrivial(abs(n) > 1)


# ---- C12 -------------------------------------------------------------------------------------------

rule('C12', "an altered pitch, a key with accidentals, or an interval larger than a second")

NAT = [0, 2, 4, 5, 7, 9, 11]                        # semitones of the white keys
MODES = {'major': 0, 'ionian': 0, 'dorian': 1, 'phrygian': 2, 'lydian': 3, 'mixolydian': 4, 'aeolian': 5, 'minor': 5, 'locrian': 6}
MODE_FIFTHS = {'major': 0, 'ionian': 0, 'dorian': -2, 'phrygian': -4, 'lydian': 1, 'mixolydian': -1, 'aeolian': -3, 'minor': -3, 'locrian': -5}
FIFTHS = [0, 2, 4, -1, 1, 3, 5]                     # C D E F G A B on the line of fifths
ALTERS = [-1, -.5, 0, .5, 1]


def sound(p):
    """Height in semitones."""
    return (p.octave + 5) * 12 + NAT[p.note] + p.alter * 2


def fifths_alteration(step, sharps):
    """Alteration of a step in a signature with so many sharps (negative: flats), by the order of sharps FCGDAEB."""
    # the signature covers 7 adjacent places on the line of fifths, starting at sharps - 1
    pos = FIFTHS[step]
    n = 0
    while pos + 7 * n < sharps - 1:
        n += 1
    while pos + 7 * n > sharps + 5:
        n -= 1
    return n * .5


@enumerated('C12', 'keys', [(n, a, m) for n in range(7) for a in ALTERS for m in sorted(MODES)], shards=8)
def c12_keys(case, ctx):
    note, alter, mode = case
    sharps = FIFTHS[note] + int(alter * 14) + MODE_FIFTHS[mode]
    want = [fifths_alteration(s, sharps) for s in range(7)]
    got = Key.accidentals(note, alter, Key.alterations(MODES[mode]))
    same(got, want, "accidentals of %r" % (case,))
    sig = Key.KeySignature(note, alter, mode)
    same(sig.accidentals, want, "KeySignature%r.accidentals" % (case,))
    same((sig.note, sig.alter, sig.mode), case, "attributes")
    repr(sig)
    if mode == 'major':
        same(Key.accidentals(note, alter), want, "accidentals, default mode")
        same(Key.KeySignature(note, alter).accidentals, want, "KeySignature, default mode")
        same(Key.tonic(sharps), (note, alter), "tonic(%d)" % sharps)
    # the parallel description with a list of alterations
    custom = Key.KeySignature(note, alter, Key.alterations(MODES[mode]))
    same(custom.accidentals, want, "KeySignature with a list")
    _signature(sig, want)
    for key in range(36, 60):
        same(custom.pitch(key), sig.pitch(key), "pitch(%d) with a list as mode" % key)
    # chromatic scale: every semitone once, in order from C
    cs = list(Key.chromatic_scale(note, alter))
    same([(NAT[n] + int(a * 2)) % 12 for n, a in cs], list(range(12)), "sound of chromatic_scale(%r, %r)" % (note, alter))
    same(cs[(NAT[note] + int(alter * 2)) % 12], (note, alter), "the key note in chromatic_scale")
    same(cs, _chromatic(note, alter), "chromatic_scale(%r, %r)" % (note, alter))
    if not note and not alter:
        same(list(Key.chromatic_scale()), cs, "chromatic_scale()")
    if mode == 'major':
        for bits in range(32):
            flats = tuple(f for n, f in enumerate((.5, 1.5, 3, 4, 5)) if bits >> n & 1)
            same(list(Key.chromatic_scale(note, alter, flats=flats)), _chromatic(note, alter, flats), "chromatic_scale(%r, %r, flats=%r)" % (note, alter, flats))
    ctx.nontrivial(any(want))


def _chromatic(note, alter, flats=(1.5, 5)):
    """The (note, alter) for the keys C to B: the intervals from the tonic are naturals, flats where listed, else sharps."""
    result = {}
    for semis in range(12):
        if semis in NAT:
            step, a = NAT.index(semis), 0
        elif semis / 2 in flats:
            step, a = NAT.index(semis + 1), -1
        else:
            step, a = NAT.index(semis - 1), 1
        octave, n = divmod(note + step, 7)
        height = NAT[note] + int(alter * 2) + semis
        result[height % 12] = (n, (height - NAT[n] - 12 * octave) / 2)
    return [result[k] for k in range(12)]


@enumerated('C12', 'fifths', range(-40, 41))
def c12_fifths(case, ctx):
    note, alter = Key.tonic(case)
    expect(0 <= note < 7, "tonic(%d) is %r" % (case, (note, alter)))
    same(FIFTHS[note] + alter * 14, case, "place on the line of fifths of tonic(%d)" % case)
    ctx.nontrivial(abs(case) > 1)


def _scale(g):
    semis = list(range(1, 12))
    for _ in range(5):
        semis.pop(g.int(0, len(semis) - 1))
    return [0] + [n / 2 for n in semis], g.int(0, 6), g.choice(ALTERS), [g.choice([0, 0, .5, -.5]) for _ in range(7)], g.int(-9, 9), g.int(12, 108)


@sub('C12', 'scales', lambda: G.strategy(_scale), 1200, shards=2)
def c12_scales(case, ctx):
    # another default scale: seven ascending steps from C
    scale, note, alter, mode, offset, key = case
    high = lambda step: scale[step % 7] + step // 7 * 6
    want = [high(offset + i) - high(offset) - scale[i] for i in range(7)]
    same(Key.alterations(offset, scale), want, "alterations(%d, %r)" % (offset, scale))
    for m in (None, mode):
        accs = Key.accidentals(note, alter, m, scale)
        for i in range(7):
            n = note + i
            same(high(n) + accs[n % 7], high(note) + alter + scale[i] + (m[i] if m else 0), "height of step %d of the scale of accidentals%r" % (i, (note, alter, m, scale)))
    for flats in ((), None):
        cs = list(Key.chromatic_scale(note, alter, scale, flats))
        same([(scale[n] + a) * 2 % 12 for n, a in cs], list(range(12)), "sound of chromatic_scale(%r, %r, %r, %r)" % (note, alter, scale, flats))
        same(Key.KeySignature(note, alter, mode, scale).pitch(key, flats).to_midi(scale), key, "sound of the pitch for key %d, scale %r, flats %r" % (key, scale, flats))
    p = Pitch.from_midi(key, scale, ())
    same(p.to_midi(scale), key, "to_midi(from_midi(%d)) in scale %r" % (key, scale))
    same(p.alter, 0 if key % 12 / 2 in scale else p.alter, "from_midi of a plain step")
    expect(p.alter >= 0, "from_midi without flats has a flat: %r" % p)
    # the steps of a mode with the tonic at each step agree with each other
    same(Key.accidentals(0, 0, Key.alterations(offset, scale), scale), want, "accidentals of the mode on step %d" % offset)
    ctx.nontrivial(scale != [n / 2 for n in NAT])


def _signature(sig, accs, flats=None, keys=range(0, 128)):
    scale = {}
    other = _chromatic(sig.note, sig.alter, sig.flats if flats is None else flats)
    for step, a in enumerate(accs):
        scale.setdefault((NAT[step] + int(a * 2)) % 12, []).append((step, a))
    for key in keys:
        p = sig.pitch(key) if flats is None else sig.pitch(key, flats)
        same(sound(p), key, "sound of %r, the pitch for key %d in %r" % (p, key, sig))
        same(p.to_midi(), key, "to_midi of the pitch for key %d" % key)
        if len(scale.get(key % 12, ())) == 1:
            same((p.note, p.alter), scale[key % 12][0], "spelling of scale note %d in %r" % (key, sig))
        elif key % 12 not in scale:
            same((p.note, p.alter), other[key % 12], "spelling of chromatic note %d in %r, flats %r" % (key, sig, flats))


def _custom(g):
    # keep the scale in order: every step between its neighbours
    mode = [0] + [g.choice([0, -.5, .5, 0, -.5, .5, -1, 1, 1.5]) for _ in range(6)]
    flats = g.choice([None, (), (.5, 1.5, 3, 4, 5), (1.5, 4, 5), [.5, 3], (1.5,)])
    return g.int(0, 6), g.choice([0, .5, -.5]), mode, flats


@sub('C12', 'custom', lambda: G.strategy(_custom), 1600, shards=4)
def c12_custom(case, ctx):
    note, alter, mode, flats = case
    sig = Key.KeySignature(note, alter, list(mode))
    # step i of the mode: i steps above the tonic, the major interval plus the alteration
    want = [0] * 7
    for i in range(7):
        step = (note + i) % 7
        semis = NAT[note] + alter * 2 + NAT[i] + mode[i] * 2
        nat = NAT[step] + (12 if note + i >= 7 else 0)
        want[step] = (semis - nat) / 2
    same([float(a) for a in sig.accidentals], want, "accidentals of custom mode %r" % (case,))
    _signature(sig, want, flats, range(24, 72))
    if flats is not None:
        sig.flats = flats
        _signature(sig, want, None, range(24, 72))
    if flats is not None and not isinstance(flats, list):
        for key in range(0, 128):
            p = Pitch.from_midi(key, flats=flats)
            same(sound(p), key, "sound of from_midi(%d, flats=%r)" % (key, flats))
            if key % 12 not in NAT:
                same(p.alter, -.5 if key % 12 / 2 in flats else .5, "from_midi(%d, flats=%r)" % (key, flats))
            else:
                same((NAT[p.note], p.alter), (key % 12, 0), "from_midi of a white key")
    ctx.nontrivial(any(want))


@enumerated('C12', 'midi', range(-36, 160), shards=2)
def c12_midi(key, ctx):
    p = Pitch.from_midi(key)
    same(sound(p), key, "sound of from_midi(%d)" % key)
    expect(0 <= p.note <= 6 and -.5 <= p.alter <= .5, "from_midi(%d) gave %r", key, p)
    if key >= 0:
        same(p.to_midi(), key, "to_midi(from_midi(%d))" % key)
    d = key % 12
    same((p.note, p.alter), {1: (0, .5), 3: (2, -.5), 6: (3, .5), 8: (4, .5), 10: (6, -.5)}.get(d, (NAT.index(d) if d in NAT else None, 0)), "spelling of key %d" % key)
    if -10 < key < 100:
        for note, alter in itertools.product(range(7), ALTERS):
            q = Pitch(key // 12 - 3, note, alter)
            if sound(q) >= 0:
                same(q.to_midi(), sound(q), "to_midi of %r" % q)
                same(Pitch.from_midi(q.to_midi()).to_midi(), q.to_midi(), "from_midi")
    ctx.nontrivial(d not in NAT)


def _tonics(g):
    return g.int(-30, 30), g.int(-40, 40)


@sub('C12', 'tonic', lambda: G.strategy(_tonics), 400, shards=1)
def c12_tonic(case, ctx):
    sf, offset = case
    note, alter = Key.tonic(sf)
    same(FIFTHS[note] + alter * 14, sf, "place on the line of fifths of tonic(%d)" % sf)
    same(sum(Key.accidentals(note, alter)) * 2, sf, "number of accidentals in the key of tonic(%d)" % sf)
    note, alter = Key.tonic(sf + 3)
    same(sum(Key.accidentals(note, alter, Key.alterations(5))) * 2, sf, "number of accidentals in the minor key")
    o = offset % 7
    want = [((NAT[(i + o) % 7] + (12 if i + o >= 7 else 0)) - NAT[o] - NAT[i]) / 2 for i in range(7)]
    same(Key.alterations(offset), want, "alterations(%d)" % offset)
    ctx.nontrivial(abs(sf) > 1)


ANYALTER = [0, .5, -.5, 1, -1, .25, -.25, .75, -.75, Fraction(1, 4), Fraction(-1, 2), Fraction(1, 2)]


def _pitch(g, lo=-6, hi=7):
    return g.int(lo, hi), g.int(0, 6), g.choice(ANYALTER)


def nearest(prev, note):
    """The octave that puts the note within a fourth (three steps) of the previous pitch."""
    here = prev[0] * 7 + prev[1]
    return min(range(prev[0] - 2, prev[0] + 3), key=lambda o: abs(o * 7 + note - here))


@sub('C12', 'relative', lambda: G.strategy(lambda g: (_pitch(g), _pitch(g), g.choice([-1, -1, 0, 1]))), 3000, shards=2)
def c12_relative(case, ctx):
    a, b, default = case
    prev, p = Pitch(*a), Pitch(*b)
    p.make_relative(prev, default)
    same((p.note, p.alter), b[1:], "note and alter after make_relative")
    same(triple(prev), a, "the previous pitch")
    # number of octave marks: octave minus the octave of the name itself
    same(p.octave - default, b[0] - nearest(a, b[1]), "octave marks of %r relative to %r" % (b, a))
    p.make_absolute(prev, default)
    same(triple(p), b, "make_absolute(make_relative(...))")
    q = Pitch(*b)
    q.make_absolute(prev, default)
    same(q.octave, nearest(a, b[1]) + b[0] - default, "octave of %r made absolute from %r" % (b, a))
    q.make_relative(prev, default)
    same(triple(q), b, "make_relative(make_absolute(...))")
    if default == -1:
        r = Pitch(*b)
        r.make_absolute(prev)
        s = Pitch(*b)
        s.make_relative(prev)
        same(r.octave, nearest(a, b[1]) + b[0] + 1, "make_absolute with the default")
        same(s.octave, b[0] - nearest(a, b[1]) - 1, "make_relative with the default")
    ctx.nontrivial(a != b)


@sub('C12', 'order', lambda: G.strategy(lambda g: [_pitch(g, -1, 1) for _ in range(3)]), 2500, shards=2)
def c12_order(case, ctx):
    import functools
    ps = [Pitch(*c) for c in case]
    for x, cx in zip(ps, case):
        for y, cy in zip(ps, case):
            same((x == y, x != y, x < y, x > y, x <= y, x >= y), (cx == cy, cx != cy, cx < cy, cx > cy, cx <= cy, cx >= cy), "comparing %r and %r" % (x, y))
        c = x.copy()
        expect(c == x and c is not x and type(c) is Pitch, "copy of %r", x)
        c.octave += 1
        expect(c != x and c > x and x < c, "changing a copy")
        expect(x != cx and not x == cx and not x == None, "a pitch equals something else")         # noqa: E711
        try:
            x < 3
        except TypeError:
            pass
        else:
            fail("a pitch can be compared with a number")
    same([triple(p) for p in sorted(ps)], sorted(case), "sorted pitches")
    ctx.nontrivial(len({c for c in case}) == 3)
    ctx.label('format:' + ('?' if format(ps[0]) == '?' else 'known'))
    name = format(ps[0])
    if name != '?':
        n = name.rstrip("',")
        o, s, a = pitch_names['nederlands'][n]
        same((o + octave_from_string(name), s, a), case[0], "format(%r)" % ps[0])


# ---- C13 -------------------------------------------------------------------------------------------

rule('C13', "the two reference pitches differ and the pitch is altered, or the transposition changes the step")


def height(t):
    """Height of (octave, note, alter) in whole tones."""
    return t[0] * 6 + Fraction(NAT[t[1]], 2) + Fraction(t[2])


def steps(t):
    return t[0] * 7 + t[1]


def transposed(t, p):
    q = Pitch(*p)
    t.transpose(q)
    return triple(q)


def _interval(g):
    if g.chance(30):        # no quarter tones
        return tuple((g.int(-3, 4), g.int(0, 6), g.choice(ALTERS)) for _ in range(2))
    return _pitch(g, -3, 4), _pitch(g, -3, 4)


@sub('C13', 'one', lambda: G.strategy(lambda g: (_interval(g), _pitch(g))), 4000, shards=4)
def c13_one(case, ctx):
    (a, b), p = case
    t = Transposer(Pitch(*a), Pitch(*b))
    q = transposed(t, p)
    _interval_ok(q, p, height(b) - height(a), steps(b) - steps(a), "%r transposed from %r to %r" % (p, a, b))
    same(transposed(t, a), b, "from-pitch transposed") if abs(b[2]) <= 1 else None
    # back
    back = Transposer(Pitch(*b), Pitch(*a))
    r = transposed(back, q)
    same(height(r), height(p), "height of %r transposed forth and back" % (p,))
    if steps(q) - steps(p) == steps(b) - steps(a):
        same(r, p, "%r transposed forth and back" % (p,))
    repr(t)
    ctx.nontrivial(a != b and (p[2] != 0 or a[1] != b[1]))
    ctx.label('respelled' if steps(q) - steps(p) != steps(b) - steps(a) else 'plain')


def _interval_ok(q, p, interval, nsteps, what):
    expect(0 <= q[1] <= 6, "%s gave the invalid note %r", what, q)
    same(height(q) - height(p), interval, "interval of %s, giving %r" % (what, q))
    expect(-1 <= q[2] <= 1, "%s gave more than a double alteration: %r", what, q)
    want = steps(p) + nsteps
    alter = height(p) + interval - height((want // 7, want % 7, 0))
    if -1 <= alter <= 1:
        same((q[0], q[1], Fraction(q[2])), (want // 7, want % 7, alter), what)
    else:
        # as near as possible to the intended step
        got = steps(q)
        d = 1 if alter > 1 else -1
        expect((got - want) * d > 0, "%s moved to the wrong side: %r", what, q)
        for s in range(want, got, d):
            a = height(p) + interval - height((s // 7, s % 7, 0))
            expect(not -1 <= a <= 1, "%s gave %r while step %d was possible", what, q, s)


@sub('C13', 'sums', lambda: G.strategy(lambda g: ([_interval(g) for _ in range(g.int(2, 3))], _pitch(g, -2, 3), [g.choice('+-') for _ in range(3)])), 4000, shards=4)
def c13_sums(case, ctx):
    intervals, p, ops = case
    ts = [Transposer(Pitch(*a), Pitch(*b)) for a, b in intervals]
    total = ts[0]
    interval = height(intervals[0][1]) - height(intervals[0][0])
    nsteps = steps(intervals[0][1]) - steps(intervals[0][0])
    q = transposed(ts[0], p)
    plain = steps(q) - steps(p) == nsteps
    for t, (a, b), op in zip(ts[1:], intervals[1:], ops):
        before = vars(total).copy(), vars(t).copy()
        sign = 1 if op == '+' else -1
        total = total + t if op == '+' else total - t
        expect(type(total) is Transposer, "the result is a %s", type(total).__name__)
        interval += sign * (height(b) - height(a))
        nsteps += sign * (steps(b) - steps(a))
        u = t if op == '+' else Transposer(Pitch(*b), Pitch(*a))
        r = transposed(u, q)
        plain = plain and steps(r) - steps(q) == sign * (steps(b) - steps(a))
        q = r
    res = transposed(total, p)
    _interval_ok(res, p, interval, nsteps, "%r transposed with %r" % (p, case))
    same(height(res), height(q), "height after the sum, compared to one after the other")
    if plain:
        same(res, q, "sum of transpositions compared to one after the other")
    zero = total - total
    same(transposed(zero, p), p, "transposed by t - t")
    undone = (total + ts[0]) - ts[0]
    same(transposed(undone, p), res, "transposed by t + u - u")
    ctx.nontrivial(any(a != b for a, b in intervals))
    ctx.label('plain' if plain else 'respelled')


ALTNAMES = {-1: 'DOUBLE-FLAT', -.75: 'THREE-Q-FLAT', -.5: 'FLAT', -.25: 'SEMI-FLAT', 0: 'NATURAL',
            .25: 'SEMI-SHARP', .5: 'SHARP', .75: 'THREE-Q-SHARP', 1: 'DOUBLE-SHARP'}


def _keycommand(g):
    lang = g.choice(LANGS)
    name = g.choice(sorted(n for n, p in pitch_names[lang].items() if n.isalpha()))
    kind = g.choice(['name', 'name', 'alist', 'alist', 'numbers', 'unknown'])
    mode = g.choice(sorted(MODES)) if kind == 'name' else [g.choice([0, 0, .5, -.5, .5, -.5, .25, -1, 1, -.75]) for _ in range(7)]
    # how many variables are between, where the values are, what else is there
    return lang, name, kind, mode, g.int(0, 3), g.chance(50), [g.chance(50) for _ in range(7)], g.int(0, 2), g.chance(30)


@sub('C12', 'signature', lambda: G.strategy(_keycommand), 1500)
def c12_signature(case, ctx):
    r"""The key signature of a \key command in a document, also with variables."""
    lang, name, kind, mode, hops, include, bools, drop, comment = case
    if kind == 'name':
        value = '\\' + mode
        want = mode
    elif kind == 'alist':
        pairs = []
        for i, (a, b) in enumerate(zip(mode, bools)):
            if i >= 7 - drop:
                mode = mode[:i] + [0] + mode[i + 1:]        # steps that are not mentioned are natural
            else:
                pairs.append('({} . {})'.format(i, ',' + ALTNAMES[a] if b else Fraction(a)))
        value = '#' + ('`' if any(bools) else "'") + '(' + (' ' if comment else '\n').join(pairs) + ')'
        want = mode
    elif kind == 'numbers':
        value = "#'(" + ' '.join(str(Fraction(a)) for a in mode) + ')'
        want = mode
    else:
        value = '\\unknown'
        want = None
    if drop == 7 or kind == 'alist' and not pairs:
        return
    names = ['foo', 'baa', 'baz', 'qux'][:hops]
    lines = []
    ref = value
    for n in names:
        lines.append('{} = {}\n'.format(n, ref))
        ref = '\\' + n
    text = '\\language "{}"\n'.format(lang)
    if include and lines:
        text += '\\include "lib.ily"\n'
    else:
        text += ''.join(lines)
    text += '{ \\key ' + name + (' % comment\n' if comment else ' ') + ref + ' ' + name + ' }\n'
    doc = lydoc(text)
    lib = lydoc(''.join(lines))
    doc.url = 'file:///x/main.ly'
    lib.url = 'file:///x/lib.ily'

    def factory(filename):
        if filename == '/x/lib.ily':
            return lib
        raise OSError(filename)
    scope = Scope(doc, factory=factory)
    dom = doc.get_transform(True)
    processor = PitchProcessor()
    for key in dom // lily.Key:
        processor.find_language(key)
        same(processor.language, lang, "language in %r" % text)
        sig = key.key_signature(processor, scope)
        if want is None:
            same(sig, None, "key signature of the unknown key in %r" % text)
        else:
            octave, note, alter = pitch_names[lang][name]
            want = Key.KeySignature(note, alter, want)
            expect(sig is not None, "no key signature found in %r", text)
            exact = lambda accs: [round(float(a), 6) for a in accs]
            same((sig.note, sig.alter, exact(sig.accidentals)), (note, alter, exact(want.accidentals)), "key signature in %r" % text)
            for k in range(60, 72) if lang != 'persian' else ():
                same(sig.pitch(k)._as_tuple(), want.pitch(k)._as_tuple(), "MIDI key %d in the key signature of %r" % (k, text))
        break
    else:
        fail("no key in %r", text)
    ctx.nontrivial(hops > 0 or kind != 'name')
    ctx.label(kind)
    ctx.label('%d variables' % hops + (', included' if include and hops else ''))
