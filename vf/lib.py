"""Helpers shared by the checks."""
import re

from . import env                                       # noqa: F401
import parce
import parce.action as A
from parce.transform import Transformer
from parce.treebuilder import TreeBuilder
from parce.work import Worker
from quickly.dom import base, element, htm, lily, read, scm, tex         # noqa: F401
from quickly.lang.html import Html
from quickly.lang.latex import Latex
from quickly.lang.lilypond import LilyPond
from quickly.lang.scheme import Scheme

from .core import fail, expect, same                    # noqa: F401


def document(lexicon, text):
    """A parce document with a transformer.

    It does the work in the main thread: parce's background worker sometimes returns an outdated
    transform when a text is changed right after the previous transform became ready.
    """
    return parce.Document(lexicon, text, worker=Worker(TreeBuilder(lexicon), Transformer()))


def lydoc(text):
    """A LilyPond document."""
    return document(LilyPond.root, text)


def squeeze(s):
    r"""Remove whitespace (and the \n escape, which is written back as a newline)."""
    return ''.join(s.replace('\\n', '').split())


def words(text, lexicon=LilyPond.root):
    """(text of all non-comment tokens, sorted characters of the comments), both without whitespace."""
    com, rest = [], []
    for t in parce.root(lexicon, text).tokens():
        (com if t.action in A.Comment else rest).append(t.text)
    return squeeze(''.join(rest)), ''.join(sorted(squeeze(''.join(com))))


def show(node):
    """A dump of the tree in text, for messages."""
    def gen(n, depth):
        yield '  ' * depth + re.sub(r'\s*\[\d+:\d+\]', '', repr(n))
        for c in n:
            yield from gen(c, depth + 1)
    return '\n'.join(gen(node, 0))


def same_tree(a, b, what):
    """Both trees have the same types, heads and structure (own comparison, not Node.equals)."""
    stack = [(a, b)]
    while stack:
        x, y = stack.pop()
        if type(x) is not type(y) or len(x) != len(y) or not same_head(x.head, y.head):
            fail("%s: %r differs from %r\n%s\n-- versus\n%s", what, x, y, show(a)[:1500], show(b)[:1500])
        stack.extend(zip(x, y))


def same_head(x, y):
    if x != x and y != y:       # NaN, possibly as part of a complex number
        return repr(x) == repr(y)
    return x == y and (type(x) is type(y) or not isinstance(x, bool) and not isinstance(y, bool))


def roundtrip(text, reader, lexicon):
    """The C01 oracle; returns the tree."""
    d = reader(text)
    w = d.write()
    d2 = reader(w)
    same_tree(d, d2, "re-read tree of %r, written as %r" % (text, w))
    expect(d.equals(d2), "trees do not compare equal")
    same(d2.write(), w, "writing the re-read tree again")
    (t1, c1), (t2, c2) = words(text, lexicon), words(w, lexicon)
    same(t2, t1, "content of the written text %r" % w)
    same(c2, c1, "comments in the written text %r" % w)
    return d


def variety(d):
    return len({type(n) for n in d.descendants()})
