"""Generates Scheme expressions as text."""

IDENTS = ['foo', 'x', 'list', 'a-b', 'set!', 'list->string', 'null?', '+', '-', '*', 'ly:music?', 'else', '1+',
          'string-append', '<=', 'a.b', '%x', '_', '...']
STRCH = ['a', 'B', ' ', '\\"', '\\\\', '\\n', 'é', ';', '(', ')', '#', "'", '{', '}', '%', '\t', '|']
CHARS = ['a', 'Z', '0', '(', ')', ';', '"', ' ', 'space', 'newline', 'nul', 'tab', 'é', '#', '\\', 'x']
# (text) of numbers; values are checked in m_scheme
def number(g, canonical=False):
    if canonical:
        return g.choice(['', '-']) + str(g.int(1, 999)) + g.choice(['', '', '.5', '/1009'])
    k = g.int(0, 9)
    n = str(g.int(0, 999))
    if k <= 3:
        return g.choice(['', '-', '+']) + n
    if k == 4:
        return g.choice(['', '-']) + n + '.' + str(g.int(0, 99))
    if k == 5:
        return g.choice(['', '-']) + n + '/' + str(g.int(1, 99))
    if k == 6:
        return '#x' + '%x' % g.int(0, 5000)
    if k == 7:
        return '#b' + '{:b}'.format(g.int(0, 500))
    if k == 8:
        return '#o' + '%o' % g.int(0, 5000)
    return g.choice(['', '-']) + n + 'e' + str(g.int(0, 20))


def string(g):
    return '"' + ''.join(g.many(lambda: g.choice(STRCH), 0, 6)) + '"'


def simple_string(g):
    return '"' + ''.join(g.many(lambda: g.choice('abc XYZ0159é;(){}'), 0, 6)) + '"'


def atom(g, canonical=False):
    k = g.int(0, 7)
    if k <= 1:
        return number(g, canonical)
    if k <= 3:
        return g.choice(IDENTS)
    if k == 4:
        return g.choice(['#t', '#f', '#t', '#f', '#true', '#false'][:4 if canonical else 6])
    if k == 5:
        return simple_string(g) if canonical else string(g)
    if k == 6:
        return '#\\' + g.choice(CHARS)
    return '#:' + g.choice(['key', 'foo-bar'])


def sep(g, wild):
    if not wild:
        return ' '
    s = g.choice([' ', ' ', '  ', '\n', '\n   ', ' ; comment\n', ' #! x !# ', '\t'])
    while s.strip() and g.chance(25):
        s += g.choice(['; second\n', ' #! next !# ', '\n ;; last\n', ' ;\n', '#!!#'])
    return s


def expr(g, depth=3, wild=False, lily=None, canonical=False):
    g.budget -= 1
    k = g.int(0, 11) if depth > 0 and g.budget > 0 else 0
    if k <= 4:
        return atom(g, canonical)
    if k <= 7:
        items = g.many(lambda: expr(g, depth - 1, wild, lily, canonical), 0, 4)
        s = sep(g, wild)
        if len(items) >= 2 and g.chance(25):
            items.insert(-1, '.')
        return '(' + (sep(g, wild) if wild and g.chance(30) else '') + s.join(items) \
            + (sep(g, wild) if wild and g.chance(30) else '') + ')'
    if k <= 9:
        return g.choice(["'", '`', ',', ',@', "'", "'"]) + expr(g, depth - 1, wild, lily, canonical)
    if k == 10:
        items = g.many(lambda: expr(g, depth - 1, wild, lily, canonical), 0, 3)
        return '#(' + sep(g, wild).join(items) + ')'
    if lily:
        return '#{ ' + lily() + ' #}'
    return atom(g, canonical)
