"""Generates HTML and LaTeX texts with embedded LilyPond.

The generators return a list of pieces: strings, and ('music', text) for the embedded music.
"""
import re

from . import gen_lily, gen_music, gen_rhythm

WORDS = ['Some', 'music', 'Ünicode', 'a.b', '42', '(x)', 'e.g.', ';', '%', '#', "it's", '"quoted"', '=', '/', '\\', '{', '}']
ENTITIES = ['&amp;', '&lt;', '&gt;', '&quot;', '&euml;', '&#123;', '&#xed;', '&nbsp;']
TAGS = ['p', 'div', 'h1', 'b', 'html', 'body', 'td', 'ns:x', 'my-tag', 'H2']
VOID = ['br', 'hr', 'img', 'meta', 'input']


def music(g):
    k = g.int(0, 9)
    if k < 4:
        return gen_rhythm.text(g, ('comments',) if g.chance(50) else (), g.int(0, 2))
    if k < 7:
        return gen_music.text(g, ('relative', 'key', 'comments', 'fixed'), g.int(0, 2))
    if k < 9:
        return g.choice(["{ c' d e f }", '\\relative c\' { c4 d }', '<< { c } \\new Staff { d2 } >>', "c'4 d e", '', '{ <c e g>2 r }', 'x = { c }\n\\score { \\x }'])
    return gen_lily.lily_document(g, g.choice([0, 1]))


class Host:
    def __init__(self, g):
        self.g = g
        self.out = []

    def put(self, *texts):
        for t in texts:
            if t:
                self.out.append(t)

    def music(self, end=''):
        g = self.g
        m = g.choice(['', ' ', '\n']) + re.sub(r'\*1(/1)?(?!\d|/\d)', '', music(g))     # a scaling of 1 is not written
        if '%' in m and not m.endswith('\n'):
            m += '\n'
        m += g.choice(['', ' ', '\n']) or (' ' if re.search(r'[#$]|\\markup', m) else end)
        self.put(('music', m))

    def pieces(self):
        return tuple(self.out)


def text(pieces):
    return ''.join(p if isinstance(p, str) else p[1] for p in pieces)


class Html(Host):
    def ws(self):
        return self.g.choice(['', '', ' ', '\n', '\n  '])

    def words(self):
        g = self.g
        return ' '.join(g.choice(WORDS) if g.chance(85) else g.choice(ENTITIES) + g.choice(['', 'x']) for _ in range(g.int(1, 4)))

    def string(self):
        g = self.g
        q = g.choice('""\'')
        t = ''.join(g.choice(['a', 'B c', '=', '/x', '; ', ENTITIES[g.int(0, 3)], '"' if q == "'" else "'", '>', '', '%']) for _ in range(g.int(0, 3)))
        return q + t + q

    def attrs(self):
        g = self.g
        out = ''
        for _ in range(g.weighted([(5, 0), (3, 1), (2, 2), (1, 3)])):
            out += g.choice([' ', ' ', '\n'])
            k = g.int(0, 9)
            if k == 0:
                out += 'checked'
            elif k == 1:
                out += 'style="color: red; margin: 1px"'
            elif k == 2:
                out += 'href = ' + self.string()
            else:
                out += g.choice(['class', 'id', 'data-x', 'xml:lang', 'title']) + '=' + self.string()
        return out

    def item(self, depth):
        g = self.g
        g.budget -= 2
        k = g.int(0, 15) if depth > 0 and g.budget > 0 else g.int(0, 2)
        if k <= 2:
            self.put(self.words() if k < 2 else self.ws())
        elif k <= 5:
            tag = g.choice(TAGS)
            self.put('<' + tag + self.attrs() + g.choice(['', '', ' ']) + '>')
            self.items(depth - 1)
            self.put('</' + tag + g.choice(['', '', ' ']) + '>')
        elif k == 6:
            self.put('<' + g.choice(TAGS + VOID) + self.attrs() + g.choice(['/>', ' />']))
        elif k == 7:
            self.put('<' + g.choice(VOID) + self.attrs() + '>')
        elif k == 8:
            self.put('<!--' + g.choice([' x ', 'a <b> "c', '\n text\n', '', ' <lilypond>{ c }</lilypond> ']) + '-->')
        elif k == 9:
            self.put(g.choice(['<script>var a = 1 < 2; "</b>";</script>', '<style>p { color: red }</style>',
                               '<![CDATA[ a < b & c ]]>', '<?php echo "x"; ?>', '<?xml version="1.0" encoding=\'utf-8\'?>',
                               '<script src="x.js"></script>', '<style type="text/css"> b { margin: 0 } </style>']))
        elif k == 10:
            tag = g.choice(['lilypondfile', 'musicxmlfile'])
            self.put('<' + tag + self.options() + '>', g.choice(['file.ly', 'a b.xml', 'x/y.ly']), '</' + tag + '>')
        elif k == 11:
            self.put('<lilypond' + self.options() + g.choice([':', ' :', ': ']))
            self.music(' ')
            self.put('/>')
        else:
            self.put('<lilypond' + self.options() + '>')
            self.music()
            self.put('</lilypond>')

    def options(self):
        g = self.g
        out = ''
        for _ in range(g.weighted([(5, 0), (3, 1), (2, 2)])):
            out += ' ' + g.choice(['quote', 'staffsize=16', 'line-width=10cm', 'relative=2', 'fragment', 'noragged-right',
                                   'alt="some text"', "alt='x'", 'indent=2.5mm', 'foo', 'notime'])
        return out

    def items(self, depth):
        g = self.g
        for _ in range(g.int(0, 4) if depth > 0 else g.int(0, 1)):
            self.item(depth)

    def document(self):
        g = self.g
        if g.chance(20):
            self.put(g.choice(['<!DOCTYPE html>', '<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01//EN">', '<!doctype html>']), self.ws())
        for _ in range(g.int(1, 3)):
            self.item(4)
        return self.pieces()


class Latex(Host):
    WORDS = ['Some', 'text', 'Ünicode', '42', '(x)', "it's", '--', '``q\'\'', '\\"o', '\\%', '\\&', '~', 'a&b', '\\\\', '!', '*', '"', '<x>', '\\#']

    def words(self):
        g = self.g
        return g.choice(['', '', ' ', '\n']) + ' '.join(g.choice(self.WORDS) for _ in range(g.int(1, 4))) + g.choice(['', ' ', '\n', '\n\n'])

    def option(self):
        g = self.g
        return '[' + g.choice(['a4paper', '12pt,twoside', 'x={y}', '', 'quote,staffsize=26', 'a \\textbf{b}', 'line-width=10\\cm']) + ']'

    def options(self, percent=40):
        g = self.g
        return (self.option() + (self.option() if g.chance(20) else '')) if g.chance(percent) else ''

    def math(self):
        g = self.g
        body = ' '.join(g.choice(['x', 'a + b', '2', '\\alpha', 'x_1', 'y^2', '\\frac{1}{2}', 'x^{n+1}', '(a)', '[1, 2]', '= 3.5', '{a}', '\\%'])
                        for _ in range(g.int(0, 3)))
        a, b = g.choice([('$', '$'), ('$', '$'), ('\\(', '\\)'), ('\\[', '\\]'), ('$$', '$$')])
        if a == '$' and not body:
            body = 'x'
        return a + body + b

    def item(self, depth):
        g = self.g
        g.budget -= 2
        k = g.int(0, 14) if depth > 0 and g.budget > 0 else g.int(0, 2)
        if k <= 2:
            self.put(self.words())
        elif k == 3:
            self.put('\\' + g.choice(['documentclass', 'textbf', 'section', 'emph', 'foo']) + self.options())
            self.put('{')
            self.items(depth - 1)
            self.put('}')
        elif k == 4:
            self.put('\\' + g.choice(['LaTeX', 'today', 'item', 'maketitle', 'foo', 'par']) + g.choice([' ', '\n', '{}', self.option()]))
        elif k == 5:
            self.put('{')
            self.items(depth - 1)
            self.put('}')
        elif k == 6:
            self.put(self.math())
        elif k == 7:
            self.put('%' + g.choice([' comment', '', '% x', ' \\begin{lilypond} {', ' \\foo{']) + '\n')
        elif k <= 9:
            env = g.choice(['document', 'itemize', 'center', 'equation', 'tabular', 'math'])
            self.put('\\begin{' + env + '}')
            if env in ('equation', 'math'):
                self.put(g.choice([' x = 2 ', '\na^2 + \\beta\n', '']))
            else:
                self.put(self.options(15))
                self.items(depth - 1)
            self.put('\\end{' + env + '}')
        elif k == 10:
            self.put('\\lilypond' + g.choice(['', ' ']) + (self.option() + g.choice(['', ' ']) if g.chance(40) else '') + '{')
            self.music()
            self.put('}')
        else:
            k = g.int(0, 3)
            if k == 0:
                self.put('\\begin' + self.option() + '{lilypond}')
            elif k == 1:
                self.put('\\begin{lilypond}' + g.choice(['', '', ' ', '\n']) + self.option())
            else:
                self.put('\\begin{lilypond}')
            self.music()
            self.put('\\end{lilypond}')

    def items(self, depth):
        g = self.g
        for _ in range(g.int(0, 4) if depth > 0 else g.int(0, 1)):
            self.item(depth)

    def document(self):
        for _ in range(self.g.int(1, 4)):
            self.item(3)
        return self.pieces()


def html(g):
    return Html(g).document()


def latex(g):
    return Latex(g).document()
