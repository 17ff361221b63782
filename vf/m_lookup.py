"""C19: variable references and included files.

The oracle executes the files forward, as LilyPond does: assignments store the value they have at that moment in
the current block (or the global scope), an include file is executed at the place of the include command.
"""
import os
import posixpath
import tempfile
from fractions import Fraction

from quickly.dom.scope import Scope
from quickly.time import Time

from . import g as G
from .core import expect, rule, same, sub
from .lib import document, lily, LilyPond, read

import quickly

rule('C19', "a reference was looked up (found or not) of which the name has at least two assignments, or one in another file; "
            "for urls: at least two directories are searched")

PATHS = ['/p/main.ly', '/p/a.ily', '/p/sub/b.ily', '/p/sub/a.ily', '/inc/a.ily', '/inc/c.ily', '/lib/sub/b.ily', '/lib/d.ily', '/lib/a.ily', '/lib/main.ly']
INCLUDES = ['a.ily', 'b.ily', 'sub/b.ily', 'c.ily', 'd.ily', 'sub/a.ily', 'main.ly', '../a.ily', 'missing.ily', '/inc/c.ily', './a.ily', '../sub/b.ily']
NAMES = ['foo', 'baz', 'qux', 'foo.baz', '"my x"', 'foo.1', 'foo."q"']


# ---- statements: ('set', name, value) ('inc', filename) ('block', kind, [statements]) ('use', name) ('muse', name) ('text', text)
# value: ('v', n) ('ref', name) ('music', n, [names]) ('markup', n, [names])

class Gen:
    def __init__(self, g):
        self.g = g
        self.n = 1

    def name(self):
        g = self.g
        return g.choice(['foo', 'foo', 'foo', 'foo', 'baz', 'baz', 'qux']) if g.chance(80) else g.choice(NAMES)

    def num(self):
        self.n += 1
        return self.n

    def value(self, music=True):
        g = self.g
        k = g.int(0, 9)
        if k <= 3 or not music and k >= 8:
            return ('v', self.num())
        if k <= 5:
            return ('ref', self.name())
        if k <= 7:
            return ('markup', self.num(), [g.choice(NAMES[:3]) for _ in range(g.int(0, 2))])
        return ('music', self.num(), [self.name() for _ in range(g.int(0, 3))])

    def statement(self, where):
        g = self.g
        k = g.int(0, 19)
        if where in ('header', 'lheader'):
            return ('set', self.name(), self.value(False)) if k else ('text', '% comment')
        if where == 'score':
            if k < 8:
                return ('use', [self.name() for _ in range(g.int(1, 3))])
            if k < 14:
                return self.block('header')
            return self.block('layout')
        if k < 9:
            return ('set', self.name(), self.value())
        if k < 12:
            return ('inc', g.choice(INCLUDES))
        if where == 'context':
            return ('set', self.name(), self.value())
        if k < 13 and where != 'layout':
            return ('use', [self.name() for _ in range(g.int(1, 3))])
        if k == 13:
            return ('muse', g.choice(NAMES[:3])) if where != 'layout' else ('text', '%{ comment %}')
        if k == 14:
            return ('text', g.choice(['% comment', '%{ foo = 1 %}', '#(define foo 1)']))
        return self.block('context' if where == 'layout' else g.choice(['header', 'layout', 'score']))

    def block(self, kind):
        return ('block', kind, [self.statement(kind) for _ in range(self.g.int(0, 4))])

    def file(self):
        g = self.g
        out = [self.statement('file') for _ in range(g.int(1, 6))]
        if g.chance(60):
            out.append(('use', [self.name() for _ in range(g.int(1, 3))]))
        # not too many includes
        n = 0
        for i, s in enumerate(out):
            if s[0] == 'inc':
                n += 1
                if n > 2:
                    out[i] = ('text', '% no include')
        return out


def ref_text(name):
    return '\\' + name


def value_text(v):
    if v[0] == 'v':
        return '"v%d"' % v[1]
    if v[0] == 'ref':
        return ref_text(v[1])
    if v[0] == 'music':
        return '{ s1*%d %s }' % (v[1], ' '.join(map(ref_text, v[2])))
    return '\\markup { v%d %s }' % (v[1], ' '.join(map(ref_text, v[2])))


BLOCK_TEXT = {'header': '\\header {\n%s\n}', 'layout': '\\layout {\n%s\n}', 'context': '\\context {\n%s\n}', 'score': '\\score {\n%s\n}'}


def render(statements):
    out = []
    for s in statements:
        if s[0] == 'set':
            out.append('%s = %s' % (s[1], value_text(s[2])))
        elif s[0] == 'inc':
            out.append('\\include "%s"' % s[1])
        elif s[0] == 'block':
            out.append(BLOCK_TEXT[s[1]] % render(s[2]))
        elif s[0] == 'use':
            out.append('{ %s }' % ' '.join(map(ref_text, s[1])))
        elif s[0] == 'muse':
            out.append('\\markup { x %s }' % ref_text(s[1]))
        else:
            out.append(s[1])
    return '\n'.join(out)


class Budget(Exception):
    pass


class Run:
    """Execute the files."""
    def __init__(self, files, include_path, relative, follow=True):
        self.files, self.include_path, self.relative, self.follow = files, include_path, relative, follow
        self.steps = 0
        self.lookups = []       # (chain, number of the reference in its file, value or None, count, length)
        self.uses = []          # music at a place: (chain, number of the first reference, number of references, length)

    def candidates(self, chain, name):
        """The files to be tried; chain: paths of the current file and the ones it is included from."""
        dirs = []
        if self.relative:
            dirs.append(chain[-1] and posixpath.dirname(chain[-1]))
        dirs.append(chain[0] and posixpath.dirname(chain[0]))
        dirs = [d for d in dirs if d]       # no directory when the document has no file name
        dirs += self.include_path
        out = []
        for d in dirs:
            p = posixpath.normpath(posixpath.join(d, name))
            if p not in chain and p not in out:
                out.append(p)
        return out

    def find(self, chain, name):
        for p in self.candidates(chain, name):
            if p in self.files:
                return p

    def count_refs(self, statements):
        n = 0
        for s in statements:
            if s[0] == 'set':
                v = s[2]
                n += 1 if v[0] == 'ref' else len(v[2]) if v[0] in ('music', 'markup') else 0
            elif s[0] == 'use':
                n += len(s[1])
            elif s[0] == 'muse':
                n += 1
            elif s[0] == 'block':
                n += self.count_refs(s[2])
        return n

    def run(self, main):
        self.envs = [{}]
        self.counts = {}
        self.execute(self.files[main], [(main, None)], 0, 0)
        return self

    def lookup(self, name, chain, num):
        """A value is a tuple (kind, unique number, path, length) or None."""
        found = None
        for env in reversed(self.envs):
            if name in env:
                found = env[name]
                break
        self.lookups.append((tuple(chain), num, found, self.counts.get(name, 0)))
        return found

    def execute(self, statements, chain, num, ninc):
        """chain: [(path, number of the include command in that file or None)...]; returns the counters."""
        path = chain[-1][0]
        for s in statements:
            self.steps += 1
            if self.steps > 1500:
                raise Budget
            if s[0] == 'set':
                v = s[2]
                if v[0] == 'v':
                    value = ('v', v[1], path, 0)
                elif v[0] == 'ref':
                    # the value is the reference node; resolve it when it is needed
                    value = ('ref', (path, num), path, None, self.lookup(v[1], chain, num))
                    num += 1
                else:
                    length = 0
                    for name in v[2]:
                        r = self.lookup(name, chain, num)
                        num += 1
                        length += final(r)[3] if final(r) else 0
                    value = (v[0], v[1], path, length + v[1] if v[0] == 'music' else 0)
                self.envs[-1][s[1]] = value
                self.counts[s[1]] = self.counts.get(s[1], 0) + 1
            elif s[0] == 'inc':
                if self.follow:
                    p = self.find([c[0] for c in chain], s[1])
                    if p:
                        last = chain[-1]
                        self.execute(self.files[p], chain[:-1] + [(last[0], ninc), (p, None)], 0, 0)
                ninc += 1
            elif s[0] == 'block':
                self.envs.append({})
                num, ninc = self.execute(s[2], chain, num, ninc)
                self.envs.pop()
            elif s[0] == 'use':
                length, first = 0, num
                for name in s[1]:
                    r = final(self.lookup(name, chain, num))
                    num += 1
                    length += r[3] if r else 0
                self.uses.append((tuple(chain), first, length))
            elif s[0] == 'muse':
                self.lookup(s[1], chain, num)
                num += 1
        return num, ninc


def final(value):
    while value and value[0] == 'ref':
        value = value[4]
    return value


def case(g):
    files = {}
    gen = Gen(g)
    for p in PATHS:
        if p == '/p/main.ly' or g.chance(55):
            files[p] = gen.file()
    if g.chance(50):
        main = files['/p/main.ly']
        main.insert(g.int(0, len(main)), ('inc', g.choice(INCLUDES)))
    return files, g.subset(['/inc', '/lib/', '/p/sub', '/none'], 60), g.chance(75)


def open_files(files):
    docs = {}

    def factory(path):
        if path not in files:
            raise FileNotFoundError(path)
        if path not in docs:
            docs[path] = document(LilyPond.root, render(files[path]))
            docs[path].url = path
        return docs[path]
    return factory


def nodes_of(dom):
    return [n for n in dom // (lily.IdentifierRef, lily.MarkupCommand) if not isinstance(n, lily.Markup)]


def locate(root, chain, number):
    """The scope of the file at the end of the chain, and the reference node."""
    scope = root
    for (path, ninc), (p2, _) in zip(chain, chain[1:]):
        dom = scope.document().get_transform(True)
        inc = list(dom // lily.Include)[ninc]
        scope = scope.include_scope(inc.filename, inc)
        expect(scope is not None and scope.document().url == p2, "including %r from %r gives %r, expected %r",
               inc.filename, path, scope and scope.document().url, p2)
    return scope, nodes_of(scope.document().get_transform(True))[number]


def matches(node, value):
    """Is this the node of the value?"""
    if value[0] == 'v':
        return isinstance(node, lily.String) and node.head == 'v%d' % value[1]
    if value[0] == 'music':
        return isinstance(node, lily.MusicList) and node[0].write() == 's1*%d' % value[1]
    if value[0] == 'markup':
        return isinstance(node, lily.Markup) and node[0][0].head == 'v%d' % value[1]
    return node is nodes_of(node.root())[value[1][1]]


def check(r, ctx, root, has_scope=True):
    """Compare the lookups of a Run."""
    interesting = False
    scopes = {}
    for chain, num, value, count in r.lookups[:60]:
        if not has_scope:
            node, scope = nodes_of(root)[num], None
        else:
            if chain not in scopes:
                scopes[chain] = locate(root, chain, num)[0]
            scope = scopes[chain]
            node = nodes_of(scope.document().get_transform(True))[num]
        what = "%s in %s" % (node.write(), ' > '.join(c[0] for c in chain))
        while True:
            result = node.get_value_with_scope(scope)
            if value is None:
                expect(result is None, "%s: found %r, expected nothing", what, result and (result[0].write(), result[1]))
                ctx.label('unknown name')
                break
            expect(result is not None, "%s: nothing found, expected %r", what, value)
            n, s = result
            expect(matches(n, value), "%s: found %r (%s), expected %r", what, n, n.write(), value)
            if has_scope:
                same(s.document().url, value[2], "file of the value of %s" % what)
            else:
                expect(s is None, "scope without scope")
            expect(node.get_value(scope) is n, "get_value() of %s", what)
            if count > 1 or value[2] != chain[-1][0]:
                interesting = True
            if value[0] != 'ref':
                ctx.label('found')
                break
            node, scope, value = n, s, value[4]
            ctx.label('value is a reference')
    for chain, first, length in r.uses[:30]:
        if has_scope:
            if chain not in scopes:
                scopes[chain] = locate(root, chain, first)[0]
            scope = scopes[chain]
            node = nodes_of(scope.document().get_transform(True))[first]
        else:
            scope, node = None, nodes_of(root)[first]
        music = node.parent
        same(Time(scope, True).length(music), Fraction(length), "length of %r in %r" % (music.write(), chain[-1][0]))
    return interesting


@sub('C19', 'execute', lambda: G.strategy(case), 1500)
def c19_execute(case, ctx):
    files, include_path, relative = case
    for p, s in files.items():
        r = Run(files, include_path, relative)
        same(len(nodes_of(read.lily_document(render(s)))), r.count_refs(s), "number of references in %r" % render(s))
    try:
        r = Run(files, include_path, relative).run('/p/main.ly')
    except Budget:
        ctx.label('too big')
        return
    factory = open_files(files)
    root = Scope(factory('/p/main.ly'), factory=factory)
    root.include_path = list(include_path)
    root.relative_include = relative
    ctx.nontrivial(check(r, ctx, root))


@sub('C19', 'noscope', lambda: G.strategy(lambda g: Gen(g).file() + Gen(g).file()), 1500)
def c19_noscope(case, ctx):
    """Without a scope only the document itself is searched."""
    r = Run({'/m.ly': case}, [], True, False).run('/m.ly')
    ctx.nontrivial(check(r, ctx, read.lily_document(render(case)), False))


# ---- urls -----------------------------------------------------------------------------------------------------

def url_case(g):
    chain = [g.choice(['/p/main.ly'] * 4 + [None, ''])]
    for _ in range(g.int(0, 3)):
        p = g.choice(PATHS + ['/p/x/y/z.ly', '/q/x.ly'])
        if p not in chain:
            chain.append(p)
    return (chain, g.choice(INCLUDES + ['my file.ly', 'é.ly', 'x/../a.ily', '../lib/d.ily']),
            [g.choice(['/inc', '/lib/', '/p', '/p/', '/p/sub', '/lib', '/q/r/']) for _ in range(g.int(0, 4))], g.chance(60))


@sub('C19', 'urls', lambda: G.strategy(url_case), 3000)
def c19_urls(case, ctx):
    chain, name, include_path, relative = case
    asked = []

    def factory(p):
        asked.append(p)
        raise OSError
    scope = None
    for p in chain:
        d = document(LilyPond.root, '')
        d.url = p
        if scope is None:
            root = scope = Scope(d, factory=factory)
            scope.include_path = include_path
            scope.relative_include = relative
        else:
            scope = Scope(d, scope, factory)
    wanted = Run({}, include_path, relative).candidates(chain, name)
    what = "including %r from %r" % (name, chain)
    same(scope.urls(name), wanted, "urls(): %s" % what)
    expect(scope.include_scope(name) is None, "include_scope() with no file: %s", what)
    same(asked, wanted, "files tried: %s" % what)
    same([s.document().url for s in scope.ancestors()], chain[:-1][::-1], "ancestors")
    expect(scope.root() is root, "root")
    # the first one that exists
    if wanted:
        for i, w in enumerate(wanted):
            def factory2(p, w=w):
                if p in wanted[i:]:
                    d = document(LilyPond.root, '')
                    d.url = p
                    return d
                raise FileNotFoundError(p)
            scope.factory = factory2
            node = lily.Include(lily.String(name))
            new = scope.include_scope(name, node)
            expect(new is not None and new.document().url == w, "include_scope() when %r exists: %s", wanted[i:], what)
            expect(new.parent is scope and new.node is node and new.relative_include == relative and new.include_path == include_path
                   and new.factory is factory2, "attributes of the new scope")
    ctx.nontrivial(len(wanted) > 1)


# ---- real files -----------------------------------------------------------------------------------------------

@sub('C19', 'disk', lambda: G.strategy(case), 160)
def c19_disk(case, ctx):
    """The same with files on disk, found by the default factory."""
    files, include_path, relative = case
    try:
        Run(files, include_path, relative).run('/p/main.ly')
    except Budget:
        return
    with tempfile.TemporaryDirectory(prefix='vf-c19') as d:
        d = os.path.realpath(d)
        fix = lambda s: [('inc', d + x[1]) if x[0] == 'inc' and x[1][0] == '/' else ('block', x[1], fix(x[2])) if x[0] == 'block' else x for x in s]
        files = {d + p: fix(s) for p, s in files.items()}
        for p, s in files.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', encoding='utf-8') as f:
                f.write(render(s))
        r = Run(files, [d + p for p in include_path], relative).run(d + '/p/main.ly')
        root = Scope(quickly.load(d + '/p/main.ly'))
        root.include_path = [d + p for p in include_path]
        root.relative_include = relative
        ctx.nontrivial(check(r, ctx, root))
