"""C21: numbers as Roman numerals, letters and English words."""
import itertools
import string

from . import g as G
from .core import enumerated, expect, fail, rule, same, sub
from . import env                                  # noqa: F401

from quickly.numbering import int2letter, int2roman, int2text, letter2int, roman2int, text2int

rule('C21', "the number is at least 20 (needs more than one word, letter or numeral rule), or the input is invalid")

ONES = 'Zero One Two Three Four Five Six Seven Eight Nine Ten Eleven Twelve Thirteen Fourteen Fifteen Sixteen Seventeen Eighteen Nineteen'.split()
TENS = 'x x Twenty Thirty Forty Fifty Sixty Seventy Eighty Ninety'.split()
ROMAN = [['', 'I', 'II', 'III', 'IV', 'V', 'VI', 'VII', 'VIII', 'IX'], ['', 'X', 'XX', 'XXX', 'XL', 'L', 'LX', 'LXX', 'LXXX', 'XC'],
         ['', 'C', 'CC', 'CCC', 'CD', 'D', 'DC', 'DCC', 'DCCC', 'CM']]


def roman(n):
    """One numeral group for every decimal digit."""
    m, r = divmod(n, 1000)
    h, r = divmod(r, 100)
    t, o = divmod(r, 10)
    return 'M' * m + ROMAN[2][h] + ROMAN[1][t] + ROMAN[0][o]


def english(n):
    """List of words."""
    if n < 20:
        return [ONES[n]]
    if n < 100:
        return [TENS[n // 10]] + (english(n % 10) if n % 10 else [])
    for size, name in ((10 ** 6, 'Million'), (1000, 'Thousand'), (100, 'Hundred')):
        if n >= size:
            return english(n // size) + [name] + (english(n % size) if n % size else [])


def letters(n, chars):
    """Brute force definition by counting: bijective numeration."""
    out = ''
    while n:
        d = n % len(chars) or len(chars)
        out = chars[d - 1] + out
        n = (n - d) // len(chars)
    return out


def both(n, ctx):
    if n:
        r = roman(n)
        same(int2roman(n), r, "int2roman(%d)" % n)
        for t in (r, r.lower()):
            same(roman2int(t), n, "roman2int(%r)" % t)
    a = letters(n, string.ascii_uppercase)
    same(int2letter(n), a, "int2letter(%d)" % n)
    same(letter2int(a), n, "letter2int(%r)" % a)
    w = english(n)
    same(int2text(n), ''.join(w), "int2text(%d)" % n)
    for t in (''.join(w), ''.join(w).lower(), ' '.join(w), '-'.join(w).upper()):
        same(text2int(t), n, "text2int(%r)" % t)
    ctx.nontrivial(n >= 20)


BLOCK = 60


@enumerated('C21', 'small', range(0, 6000, BLOCK), shards=8)
def c21_small(start, ctx):
    for n in range(start, start + BLOCK):
        both(n, ctx)


def seq():
    for size in itertools.count(1):
        yield from map(''.join, itertools.product(string.ascii_uppercase, repeat=size))


@enumerated('C21', 'counting', [1])
def c21_counting(case, ctx):
    """The letter forms count up like spreadsheet columns; all forms are distinct."""
    seen = set()
    for n, want in zip(range(1, 20000), seq()):
        same(int2letter(n), want, "int2letter(%d)" % n)
    for n in range(0, 20000):
        for form in (int2text(n), n and n < 4000 and int2roman(n)):
            if form:
                expect(form not in seen, "the form %r is used twice", form)
                seen.add(form)
    ctx.nontrivial()


def _number(g):
    k = g.int(0, 5)
    if k == 0:
        return g.int(0, 300)
    if k == 1:
        return g.int(0, 99999)
    if k == 2:
        return g.choice([1, 10, 100, 1000, 10 ** 4, 10 ** 5, 10 ** 6, 10 ** 7, 10 ** 8]) * g.int(1, 9) + g.choice([0, 0, 1, 10, 12, 20, 100, 999])
    if k == 3:
        return 26 ** g.int(1, 5) + g.int(-30, 30)
    return g.int(0, 999999999)


@sub('C21', 'large', lambda: G.strategy(_number), 3000, shards=8)
def c21_large(n, ctx):
    if 0 <= n <= 999999999:
        if n > 200000:
            r = None
            w = english(n)
            same(int2text(n), ''.join(w), "int2text(%d)" % n)
            for t in (''.join(w), ' '.join(w).lower(), ''.join(w).upper()):
                same(text2int(t), n, "text2int(%r)" % t)
            same(int2letter(n), letters(n, string.ascii_uppercase), "int2letter(%d)" % n)
            same(letter2int(int2letter(n)), n, "letter2int")
            ctx.nontrivial()
        else:
            both(n, ctx)


def _chars(g):
    chars = g.choice([string.ascii_lowercase, 'AB', 'xyz', string.ascii_letters, 'αβγδ', '0123456789'])
    return chars, g.int(0, 100000), ''.join(g.many(lambda: g.choice('abcXYZ019-é AB'), 0, 6))


@sub('C21', 'chars', lambda: G.strategy(_chars), 1500, shards=2)
def c21_chars(case, ctx):
    chars, n, other = case
    a = letters(n, chars)
    same(int2letter(n, chars), a, "int2letter(%d, %r)" % (n, chars))
    same(letter2int(a, chars), n, "letter2int(%r, %r)" % (a, chars))
    for alphabet in (chars, string.ascii_uppercase):
        if all(c in alphabet for c in other):
            v = letter2int(other, alphabet)
            same(int2letter(v, alphabet), other, "int2letter(letter2int(%r, %r))" % (other, alphabet))
        else:
            try:
                v = letter2int(other, alphabet)
            except ValueError:
                pass
            else:
                fail("letter2int(%r, %r) gave %r instead of raising ValueError", other, alphabet, v)
    ctx.nontrivial(n >= len(chars))


JUNK = ['violin', 'part', 'Staff ', 'foo-', 'Ünï ', '', '12 ', 'a b c ', 'hundre ', '\n', 'music', '= ']
INVALID = 'ABEFGHJKNOPQRSTUWYZ1. é'


def _context(g):
    return g.choice(JUNK) + g.choice(JUNK), g.int(1, g.choice([20, 1000, 999999])), g.choice(['', ' x', '.', ' and', '!']), \
        ''.join(g.many(lambda: g.choice('IVXLCDMivxlcdm'), 0, 6)), g.choice(INVALID)


@sub('C21', 'context', lambda: G.strategy(_context), 1200, shards=2)
def c21_context(case, ctx):
    before, n, after, rom, bad = case
    text = before + ''.join(english(n)) + after
    same(text2int(text), n, "text2int(%r)" % text)
    same(text2int(before), 0, "text2int(%r)" % before)
    for t in (rom + bad, bad + rom):
        try:
            v = roman2int(t)
        except KeyError:
            pass
        else:
            fail("roman2int(%r) gave %r instead of raising KeyError", t, v)
    for m in (0, -n):
        try:
            v = int2roman(m)
        except ValueError:
            pass
        else:
            fail("int2roman(%d) gave %r instead of raising ValueError", m, v)
    same(int2letter(0), '', "int2letter(0)")
    same(letter2int(''), 0, "letter2int('')")
    ctx.nontrivial(n >= 20)
