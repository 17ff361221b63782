"""Generates any text: valid, broken, half-typed or random, in all four languages."""
from parce.lang import lilypond_words as W

from . import gen_host, gen_lily, gen_music, gen_rhythm, gen_scheme

LY = ['{', '}', '<', '>', '<<', '>>', '(', ')', '[', ']', '#', '$', '"', '%', '%{', '%}', '\\', '\\\\', '=', '.', ',', "'", '-', '_', '^', '~', '|', '/',
      '*', ':', '!', '?', '@', '\n', ' ', '#{', '#}', '#(', '#\'', '##t', '$(', '--', '__', '\\<', '\\!', '\\(', '\\)', '-.', '->', '^"x"', '_\\f', '\\f', '-1', '-\\',
      'c', "d'", 'e,,', 'fis!', 'g?', 'ees4.', 'r', 'R1*2', 's', 'q', 'c4', '4.', '8', '1/2', '*2/3', '\\breve', 'c\\longa', '\\rest', '0', '12', '3.5', '-2', '4:32', ':m7', '/e', '/+g', ':sus4.9^3',
      'bd', 'hh4', 'foo', 'a.b', 'Staff', 'Staff.NoteHead', '"text"', '"a \\" b"', 'mis = ', 'foo.1 =', '% x\n', '%{ x %}', '=5', '\\=1(', '\\p', '\\bar "|."',
      '\\relative', '\\relative c\'', '\\fixed c', '\\transpose c d', '\\key d \\major', '\\time 3/4', '\\time 2,1 3/8', '\\clef "alto_8"', '\\tempo 4 = 60', '\\tempo "x" 4=60-70', '\\partial 4',
      '\\new Staff', '\\new', '\\context Voice = "x"', '\\with {', '\\with', '\\change Staff = "x"', '\\lyricsto "x"', '\\addlyrics {', '\\lyricmode {', '\\chordmode {', '\\drummode {', '\\figuremode {', '\\figures {', '\\drums {', '\\chords {', '\\lyrics {',
      '<6 4+>', '<_ 5->', '\\markup', '\\markup {', '\\markuplist {', '\\bold', '\\column {', '\\line', '\\score {', '\\score', '\\header {', '\\paper {', '\\layout {', '\\midi {', '\\book {', '\\bookpart {', '\\context {', '\\Staff',
      '\\override', '\\override Foo.bar = ', '\\revert A.b', '\\set a.b = ', '\\unset', '\\tweak color', '\\tweak', '\\once', '\\undo', '\\omit', '\\hide Stem', '\\repeat volta 2', '\\repeat', '\\alternative {', '\\tuplet 3/2', '\\tuplet', '\\times 2/3', '\\scaleDurations 1/2', '\\grace', '\\afterGrace', '\\acciaccatura', '\\magnifyMusic 0.5',
      '\\language "english"', '\\include "x.ily"', '\\version "2.24.0"', '\\tag #\'x', '\\keepWithTag', '\\pushToTag', '\\shape', '\\parallelMusic', '\\partCombine', '\\quoteDuring', '\\transposition', '\\octaveCheck', '\\ottava 1', '\\mark \\default', '\\mark', '\\rehearsalMark', '\\unfoldRepeats', '\\simultaneous', '\\sequential', '\\notemode', '\\etc', '\\default', '\\applyContext', '\\after 4', '\\volta 1', '\\skip 1', '\\rest', '\\stringTuning', '\\balloonText', '\\footnote', '\\unknown', '\\caesura', '\\defaultchild', '\\accepts', '\\denies "x"', '\\name', '\\alias Staff', '\\consists "X_engraver"', '\\remove']
SCM = ['(', ')', '#(', "'", '`', ',', ',@', '"', ';', '; x\n', '#!', '!#', '#|', '|#', '#;', '.', ' ', '\n', '#t', '#f', '#\\a', '#\\space', '#\\', '#:key', '#:', '1', '-2', '1.5', '1/2', '1/0', '#x', '#xff', '#b12', '#e1.5', '#i1/2', '1e3', '+inf.0', '+nan.0', '1+2i', '+i', '1@2', '#d1',
       'foo', 'define', '+', '-', '...', 'a.b', '#{', '#}', '{', '}', '"a"', '"a\\nb"', '[', ']', '#', '@', '#<', '|a b|', "#'", 'let', '\\', '#{ c #}', '#u8(', '#vu8(']
HTM = ['<', '>', '</', '/>', '<!--', '-->', '<![CDATA[', ']]>', '<!DOCTYPE', '<!DOCTYPE html>', '<?', '<?xml', '?>', '&', '&amp;', '&x', ';', '"', "'", '=', ' ', '\n', '<p>', '</p>', '<p', '<br>', '<br', '<br/>', '</br>', '<b class=', '<b class="x">', "<b id='y'", '<style>', '</style>', '<style', '<script>', '</script>', '<script src="x">',
       '<p style="', '<p style="color: red">', 'text', '<lilypond', '<lilypond>', '</lilypond>', '<lilypond :', '<lilypond staffsize=12:', '<lilypond staffsize=12mm foo>', '<lilypond/>', '<lilypondfile>', '<lilypondfile', '</lilypondfile>', '<musicxmlfile>', '{ c }', "c'4", '{', '}', ':', '<html>', '</html>', '<!', '[', ']', '<!ENTITY x "y">', '<!DOCTYPE x [', '12', '2.5', 'mm', 'quote', '<x:y/>', '<?php', 'var a = 1;', '{ color: red }', '%', '\\']
TEX = ['\\', '{', '}', '[', ']', '$', '$$', '\\(', '\\)', '\\[', '\\]', '%', '% x\n', '&', '~', '_', '^', '#', ' ', '\n', '\\\\', '\\%', '\\"o', '\\"{o}', '{\\ss}', '\\begin', '\\end', '\\begin{', '\\begin{x}', '\\end{x}', '\\begin[', '\\begin[a]{lilypond}', '\\begin{lilypond}', '\\begin{lilypond}[x]', '\\end{lilypond}', '\\lilypond', '\\lilypond{', '\\lilypond[', '\\lilypond[a]{', '\\lilypond {',
       'text', '\\foo', '\\foo{', '\\foo[', '\\foo[a]', '\\foo[a][b]{c}', '\\begin{math}', '\\end{math}', '\\begin{equation}', '\\end{equation}', '\\frac{1}{2}', 'x', '2', '=', '{ c }', "c'4", '\\relative', '\\end{document}', '\\begin{document}', '\\verb|x|', '*', '\\begin{x}[y]', '\\alpha']
SOUP = {'lilypond': LY, 'scheme': SCM, 'html': HTM, 'latex': TEX}
COMMANDS = sorted(set('\\' + c for name in ('keywords', 'music_commands', 'music_functions', 'articulations', 'dynamics', 'markup_commands', 'modes', 'spanners', 'markup_functions', 'all_articulations', 'lyric_commands') for c in getattr(W, name, ())))
LANGS = ('lilypond', 'scheme', 'html', 'latex')


def valid(g, lang):
    if lang == 'lilypond':
        k = g.int(0, 9)
        if k < 6:
            return gen_lily.lily_document(g, g.choice([1, 2, 0]))
        return gen_music.text(g) if k < 8 else gen_rhythm.text(g)
    if lang == 'scheme':
        return ' '.join(gen_scheme.expr(g, 4, True, lambda: gen_music.text(g) + '\n' if g.chance(20) else 'c') for _ in range(g.int(1, 4)))
    return gen_host.text(gen_host.html(g) if lang == 'html' else gen_host.latex(g))


def token(g, lang):
    if lang == 'lilypond' and g.chance(15):
        return g.choice(COMMANDS)
    if lang in ('html', 'latex') and g.chance(20):
        lang = 'lilypond'
    elif lang == 'lilypond' and g.chance(10):
        lang = 'scheme'
    return g.choice(SOUP[lang])


def soup(g, lang, n):
    return ''.join(token(g, lang) + g.choice(['', ' ', ' ', '\n']) for _ in range(g.int(1, n)))


def mutate(g, lang, text):
    for _ in range(g.weighted([(4, 1), (3, 2), (1, 4)])):
        n = len(text)
        k = g.int(0, 5)
        a = g.int(0, 400) * n // 400
        b = min(n, a + g.choice([1, 1, 2, 3, 6, 20]))
        if k == 0:
            text = text[:a]
        elif k == 1:
            text = text[:a] + text[b:]
        elif k == 2:
            text = text[:a] + soup(g, lang, 2) + text[a:]
        elif k == 3:
            text = text[a:]
        elif k == 4:
            text = text[:a] + soup(g, lang, 2) + text[b:]
        else:
            c = g.int(0, 400) * n // 400
            text = text[:c] + text[a:b] + text[c:]
    return text


def any_text(g, langs=LANGS):
    """Return (lang, kind, text)."""
    lang = g.choice(langs)
    kind = g.choice(['soup', 'soup', 'mutated', 'mutated', 'valid'])
    if kind == 'soup':
        return lang, kind, soup(g, lang, 14)
    text = valid(g, lang)
    return lang, kind, mutate(g, lang, text) if kind == 'mutated' else text
