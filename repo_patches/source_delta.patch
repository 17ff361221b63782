From 0de57674f1f794f94d98dec8feb75147939f1680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 001/127] fix: do not insert whitespace between untouched
 adjacent elements in Element.edits()

---
 quickly/dom/element.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index aac57fa..fd992c9 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -627,6 +627,7 @@ class Element(Node, metaclass=ElementType):
         end = context.end if end is None else end
         tokens = context.tokens()
         insert_after = ''
+        changed = False     # True when the previous fragment is new or modified
         for point in self.points():
             space = collapse_whitespace((insert_after, point.space_before))
             if point.pos is None:
@@ -635,6 +636,7 @@ class Element(Node, metaclass=ElementType):
                 if text:
                     yield pos, pos, space + text
                     insert_after = point.space_after
+                    changed = True
             else:
                 # existing element
                 if point.pos > pos:
@@ -649,11 +651,13 @@ class Element(Node, metaclass=ElementType):
                         if space and del_end < pos:
                             del_end = pos   # unparsed space can be ditched
                         yield del_pos, del_end, space
-                elif space:
+                elif space and changed:
+                    # existing elements that touch are left alone
                     yield point.pos, point.pos, space
                 # modified?
                 if point.modified:
                     yield point.pos, point.end, point.text()
+                changed = point.modified
                 pos = point.end
                 insert_after = point.space_after
         if pos < end:
-- 
2.43.0


From fbd0af366583146adba0c47b0d7bcd0eea70f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 002/127] fix: keep the closing brace of a Score block's origin

---
 quickly/lang/lilypond.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 23b6996..2f195e9 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -103,8 +103,6 @@ class LilyPondTransform(base.Transform):
 
     def score(self, items):
         """A Score element."""
-        tail = (items.pop(),) if items[-1] == '}' else ()
-        head = items[:2]
         return self.create_block(lily.Score, items, music=True)
 
     def header(self, items):
-- 
2.43.0


From d39dcc03a043ead5f07153485c30e30815be3d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 003/127] fix: read the natural sign (!) in figure mode

---
 quickly/dom/lily.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 3d0a71f..609eeaa 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2503,13 +2503,13 @@ class FigureAccidental(element.MappingElement):
     r"""An accidental in figure mode.
 
     One of: -1, -0.5, 0, 0.5, 1, corresponding to:
-     ``'--'``, ``'-'``, ``''``, ``'+'`` or ``'++'``.
+     ``'--'``, ``'-'``, ``'!'``, ``'+'`` or ``'++'``.
 
     """
     mapping = {
         '--':  -1,
         '-':   -0.5,
-        '':     0,
+        '!':    0,
         '+':    0.5,
         '++':   1,
     }
-- 
2.43.0


From 7e270ad7a3dd59f48adc13e0f7c56827de538f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 004/127] fix: write whitespace after the tag commands and
 their arguments

---
 quickly/dom/lily.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 609eeaa..049752c 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2532,6 +2532,7 @@ class FigureAlteration(element.MappingElement):
 
 class Tag(element.HeadElement):
     r"""A ``\tag`` command."""
+    space_after_head = space_between = " "
     head = r'\tag'
 
     def signatures(self):
@@ -2540,6 +2541,7 @@ class Tag(element.HeadElement):
 
 class KeepWithTag(element.HeadElement):
     r"""A ``\keepWithTag`` command."""
+    space_after_head = space_between = " "
     head = r'\keepWithTag'
 
     def signatures(self):
@@ -2548,6 +2550,7 @@ class KeepWithTag(element.HeadElement):
 
 class RemoveWithTag(element.HeadElement):
     r"""A ``\removeWithTag`` command."""
+    space_after_head = space_between = " "
     head = r'\removeWithTag'
 
     def signatures(self):
@@ -2556,6 +2559,7 @@ class RemoveWithTag(element.HeadElement):
 
 class TagGroup(element.HeadElement):
     r"""A ``\tagGroup`` command."""
+    space_after_head = space_between = " "
     head = r'\tagGroup'
 
     def signatures(self):
@@ -2564,6 +2568,7 @@ class TagGroup(element.HeadElement):
 
 class PushToTag(element.HeadElement):
     r"""A ``\pushToTag`` command."""
+    space_after_head = space_between = " "
     head = r'\pushToTag'
 
     def signatures(self):
@@ -2572,6 +2577,7 @@ class PushToTag(element.HeadElement):
 
 class AppendToTag(element.HeadElement):
     r"""A ``\appendToTag`` command."""
+    space_after_head = space_between = " "
     head = r'\appendToTag'
 
     def signatures(self):
-- 
2.43.0


From 1c90edce7cbe2a3ca3f5a0b3c8d6a2873e9cf443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 005/127] fix: write whitespace between the nodes in a
 scm.LilyPond block

---
 quickly/dom/scm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index cd887d5..71b658a 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -65,6 +65,7 @@ from . import base, element
 
 class LilyPond(element.BlockElement):
     """A LilyPond block inside Scheme, between ``#{`` and ``#}``."""
+    space_after_head = space_between = space_before_tail = " "
     head = "#{"
     tail = "#}"
 
-- 
2.43.0


From b9c6afbe8b61a3497cb9d018216ea5af75e38192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 006/127] fix: end multiline Scheme comments with !#

---
 quickly/dom/scm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index 71b658a..e31f6b8 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -87,14 +87,14 @@ class SinglelineComment(base.SinglelineComment):
 
 
 class MultilineComment(base.MultilineComment):
-    """A multiline comment in Scheme after ``#!``."""
+    """A multiline comment in Scheme between ``#!`` and ``!#``."""
     @classmethod
     def read_head(cls, origin):
-        end = -1 if origin[-1] == "#!" else None
+        end = -1 if origin[-1] == "!#" else None
         return ''.join(t.text for t in origin[1:end])
 
     def write_head(self):
-        return '#!{}#!'.format(self.head)
+        return '#!{}!#'.format(self.head)
 
 
 class Char(element.TextElement):
-- 
2.43.0


From d843e3442becbc915f24eef0105e182e0e1bebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 007/127] fix: write inexact and complex Scheme numbers in any
 radix, and let NaN compare equal

---
 quickly/dom/scm.py | 48 +++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index e31f6b8..7e6aa8e 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -163,26 +163,38 @@ class Number(element.TextElement):
         return scheme_number(origin)
 
     def write_head(self):
-        v = self.head
-        if v == math.inf:
-            s = '+inf.0'
-        elif v == -math.inf:
-            s = '-inf.0'
-        elif v is math.nan:
-            s = '+nan.0'
-        elif isinstance(v, fractions.Fraction):
-            fmt = self._fmt[self.radix]
-            f = lambda n: format(n, fmt)
-            s = f(v.numerator)
+        fmt = self._fmt[self.radix]
+        prefix = self._prefix[self.radix]
+
+        def real(v):
+            """Return the text for the real value v, without prefix."""
+            if v == math.inf:
+                return '+inf.0'
+            elif v == -math.inf:
+                return '-inf.0'
+            elif v != v:
+                return '+nan.0'
+            elif isinstance(v, float) and self.radix == 10:
+                return str(v)
+            v = fractions.Fraction(v)
+            s = format(v.numerator, fmt)
             if v.denominator != 1:
-                s = '{}/{}'.format(s, f(v.denominator))
-        elif isinstance(v, float) and self.radix == 10:
-            s = str(v)
-        elif isinstance(v, complex):
-            s = '{}{:+}i'.format(v.real, v.imag)
+                s = '{}/{}'.format(s, format(v.denominator, fmt))
+            return s
+
+        v = self.head
+        if isinstance(v, complex):
+            imag = real(v.imag)
+            s = '{}{}{}i'.format(real(v.real), '' if imag[0] in '+-' else '+', imag)
         else:
-            s = format(int(v), self._fmt[self.radix])
-        return self._prefix[self.radix] + s
+            s = real(v)
+        if '/' in s and isinstance(v, (float, complex)):
+            prefix = '#i' + prefix  # there are no floats in other radixes
+        return prefix + s
+
+    def body_equals(self, other):
+        """Reimplemented to let NaN values compare equal."""
+        return super().body_equals(other) or (self.head != self.head and other.head != other.head)
 
     def repr_head(self):
         """Dump Scheme numbers in Scheme syntax."""
-- 
2.43.0


From 1d3d4a3259b9eab06a7b7fa961e9d337e58c0e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 008/127] fix: read Scheme keywords (#:key) and #true/#false

---
 quickly/lang/scheme.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/lang/scheme.py b/quickly/lang/scheme.py
index fa17024..631f064 100644
--- a/quickly/lang/scheme.py
+++ b/quickly/lang/scheme.py
@@ -36,6 +36,8 @@ class Scheme(parce.lang.scheme.SchemeLily):
     def common(cls, pop=0):
         from . import lilypond
         yield r"#{", a.Bracket.LilyPond.Start, pop, lilypond.LilyPond.schemelily
+        yield r"#:[^()\s;\"]+", a.Name, pop
+        yield r"#(?:true|false)\b", a.Literal.Number.Boolean, pop
         yield from super(parce.lang.scheme.SchemeLily, cls).common(pop)
 
 
-- 
2.43.0


From 0983ac2cbce06014bc33dc328941538b30f48a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 009/127] fix: read Scheme words that only start like a number
 as Identifier

---
 quickly/lang/scheme.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/scheme.py b/quickly/lang/scheme.py
index 631f064..e071be1 100644
--- a/quickly/lang/scheme.py
+++ b/quickly/lang/scheme.py
@@ -96,11 +96,18 @@ class SchemeTransform(base.Transform):
         16: scm.Hex,
     }
     def number(self, items):
-        """Create a Number node."""
+        """Create a Number node.
+
+        Text that starts like a number but isn't a valid one (e.g. ``1+`` or
+        ``->``) becomes an Identifier.
+
+        """
         radix = items.arg or 10
         try:
             return self.factory(self._radix_mapping[radix], items)
-        except (ValueError, ZeroDivisionError):
+        except (ValueError, ZeroDivisionError) as e:
+            if isinstance(e, ValueError) and items[0].text[:1] != '#':
+                return self.factory(scm.Identifier, items)
             return self.factory(scm.NaN, items)
 
     def string(self, items):
-- 
2.43.0


From a2976493baa4942a75e3db30724e1f2c0982f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 010/127] fix: read the \n and \t escapes in LilyPond strings

---
 quickly/dom/lily.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 049752c..0776838 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -662,6 +662,12 @@ class Symbol(element.TextElement):
 class String(base.String):
     r"""A quoted string."""
 
+    @classmethod
+    def read_head(cls, origin):
+        r"""Reimplemented to also read the escapes LilyPond supports, like ``\n``."""
+        unescape = lambda m: {'n': '\n', 't': '\t'}.get(m[1], m[1])
+        return ''.join(re.sub(r"""\\([nt\\'"])""", unescape, t.text) for t in origin[1:-1])
+
 
 class Scheme(element.TextElement):
     """A Scheme expression in LilyPond.
-- 
2.43.0


From 30f2b19813d269134a9d2cdeac51c7a9653a2b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 011/127] fix: read a number that could be a duration as value
 of a \tweak

---
 quickly/lang/lilypond.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 2f195e9..6fd3972 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -900,6 +900,8 @@ class MusicBuilder:
     @_action(a.Number.Duration)
     def duration_action(self, token):
         r"""Called for ``Number.Duration``."""
+        if token.text.isdigit() and self.add_tweak(self.factory(lily.Int, (token,))):
+            return
         if self._duration or self._articulations:
             yield from self.pending_music()
         self._duration = [token]
@@ -1145,8 +1147,9 @@ class MusicBuilder:
     @_context("duration")
     def duration(self, obj):
         """Called for ``duration`` context: dots, scaling."""
-        dots, self._scaling = obj
-        self._duration.extend(dots)
+        if self._duration:
+            dots, self._scaling = obj
+            self._duration.extend(dots)
 
     @_context("chord", "figure")
     def music_element(self, obj):
-- 
2.43.0


From dc4a9475ee52e94d0beca4efe2cf11a4af6a88e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 012/127] fix: do not lose a variable, string, Scheme or markup
 after a \tag, \tweak or \shape command

---
 quickly/lang/lilypond.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 6fd3972..c74c3a7 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1165,10 +1165,11 @@ class MusicBuilder:
     @_context("string", "scheme", "list")
     def string_scheme(self, obj):
         """Called for ``string``, ``scheme`` or ``list`` context."""
-        if self._events:
+        if self._events and self.add_event_argument(obj):
+            pass
+        elif self._events and (self._music or self._duration):
             # after a direction: an articulation
-            if not self.add_event_argument(obj):
-                self.add_articulation(obj)
+            self.add_articulation(obj)
         else:
             # toplevel expression
             yield from self.pending_music()
@@ -1178,7 +1179,7 @@ class MusicBuilder:
     def markup(self, obj):
         """Called for ``markup`` context: read arguments from items."""
         for node in self.transform.create_markup(obj, self.items):
-            if self._events:
+            if self._events and (self._music or self._duration):
                 # after a direction: add to the note
                 self.add_articulation(node)
             else:
@@ -1189,7 +1190,7 @@ class MusicBuilder:
     @_context("identifier_ref")
     def identifier_ref(self, obj):
         """Called for ``identifier_ref`` context: maybe articulation."""
-        if self._events:
+        if self._events and (self._music or self._duration):
             # after a direction: add as articulation
             self.add_articulation(obj)
         else:
-- 
2.43.0


From eefc78958d062c72d8435132603faec37bb6dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 013/127] fix: do not lose the contents of a \markup command
 that is followed by a comment

---
 quickly/lang/lilypond.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index c74c3a7..0904f07 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -457,9 +457,14 @@ class LilyPondTransform(base.Transform):
 
         """
         origin = markup[:1]     # the \markup or \markuplist command
+        args = []
         for mkup in self.read_markup_arguments(itertools.chain(markup[1:], items)):
-            yield self.factory(lily.Markup, origin, (), mkup)
-            break
+            args.append(mkup)
+            if not isinstance(mkup, base.Comment):
+                yield self.factory(lily.Markup, origin, (), *args)
+                break
+        else:
+            yield from args
 
     def read_markup_arguments(self, items):
         """Read from items and yield nodes that can occur in markup."""
-- 
2.43.0


From 82c7179c80936c12b55b5175a82c16fc2b87fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 014/127] fix: ignore comments when collecting the arguments of
 \tweak, \tag, \shape and \=

---
 quickly/lang/lilypond.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 0904f07..db7e1d9 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -793,7 +793,7 @@ class MusicBuilder:
     def add_spanner_id(self, node):
         """Return True if the node could be added to a spanner id that's being built."""
         e = self._events
-        if e and isinstance(e[-1], lily.SpannerId) and len(e[-1]) == 0:
+        if e and isinstance(e[-1], lily.SpannerId) and len(list(util.skip_comments(e[-1]))) == 0:
             e[-1].append(node)
             return True
         return False
@@ -801,7 +801,7 @@ class MusicBuilder:
     def add_tweak(self, node):
         """Return True if the node could be added to a Tweak that's being built."""
         e = self._events
-        if e and isinstance(e[-1], lily.Tweak) and len(e[-1]) < 2:
+        if e and isinstance(e[-1], lily.Tweak) and len(list(util.skip_comments(e[-1]))) < 2:
             e[-1].append(node)
             return True
         return False
@@ -809,7 +809,7 @@ class MusicBuilder:
     def add_tag(self, node):
         r"""Return True if the node could be added to a ``\tag`` command that's being built."""
         e = self._events
-        if e and isinstance(e[-1], lily.Tag) and len(e[-1]) < 1:
+        if e and isinstance(e[-1], lily.Tag) and len(list(util.skip_comments(e[-1]))) < 1:
             e[-1].append(node)
             return True
         return False
@@ -817,7 +817,7 @@ class MusicBuilder:
     def add_shape(self, node):
         r"""Return True if the node could be added to a ``\shape`` command that's being built."""
         e = self._events
-        if e and isinstance(e[-1], lily.Shape) and len(e[-1]) < 2:
+        if e and isinstance(e[-1], lily.Shape) and len(list(util.skip_comments(e[-1]))) < 2:
             e[-1].append(node)
             return True
         return False
-- 
2.43.0


From c388c53ae3ca4edf3a46f66409c990f99e223963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 015/127] fix: do not lose or reorder comments after a chord or
 rest, or at the end of a chord

---
 quickly/dom/util.py      | 9 +++++++--
 quickly/lang/lilypond.py | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index cf2c53b..f221163 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -157,10 +157,15 @@ def skip_comments(node):
 
 
 def pop_comments(node):
-    """Pop and return comments off the end of node (and/or its children)."""
+    """Pop and return comments off the end of node (and/or its children).
+
+    Comments before the closing delimiter of a block are left alone.
+
+    """
     from .base import Comment
+    from .element import BlockElement
     comments = []
-    while len(node):
+    while len(node) and not isinstance(node, BlockElement):
         if isinstance(node[-1], Comment):
             comments.append(node.pop())
         else:
diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index db7e1d9..4d10460 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -749,7 +749,7 @@ class MusicBuilder:
                 music = lily.Unpitched(dur)
         elif music:
             # move comment after pitch back to toplevel
-            self._comments[0:] = util.pop_comments(music)
+            self._comments[0:0] = util.pop_comments(music)
         if music:
             if self._modifier:
                 music.extend(self._comments)
@@ -1219,6 +1219,8 @@ class MusicBuilder:
         elif not self._music and not self._duration:
             # no pending music
             yield obj
+        elif not self._duration:
+            self._music.append(obj)     # moved back if no duration follows
         else:
             self._comments.append(obj)  # will be added after the duration
 
-- 
2.43.0


From 65f71d4effb0e6bf42ef7c67040d0df4f9ecf5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 016/127] fix: separate a comment from the text before it

---
 quickly/dom/lily.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 0776838..8bf0c30 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2395,6 +2395,8 @@ class PartCombine(element.HeadElement, Music):
 
 class MultilineComment(base.MultilineComment):
     r"""A multiline comment between ``%{`` and ``%}``."""
+    space_before = ' '
+
     @classmethod
     def read_head(cls, origin):
         end = -1 if origin[-1] == "%}" else None
@@ -2406,6 +2408,7 @@ class MultilineComment(base.MultilineComment):
 
 class SinglelineComment(base.SinglelineComment):
     r"""A singleline comment after ``%``."""
+    space_before = ' '
     space_after = '\n'
 
     @classmethod
-- 
2.43.0


From a74789706d5021f3af685d1a78834c20cc57c2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 017/127] fix: do not lose events that do not follow music,
 e.g. in an assignment

---
 quickly/lang/lilypond.py | 44 +++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 4d10460..d9848d9 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -690,6 +690,7 @@ class MusicBuilder:
         self.items = iter(items)
         self._events = []         # for direction and spanner-id
         self._comments = []       # for comments between pitch and duration...
+        self._unbound = []        # for events that have no preceding music
         self.reset()
 
     def reset(self):
@@ -738,6 +739,8 @@ class MusicBuilder:
 
     def pending_music(self):
         """Yield pending music."""
+        yield from self._unbound
+        self._unbound.clear()
         music = self._music
         if self._duration:
             dur = self.factory(lily.Duration, self._duration)
@@ -773,21 +776,27 @@ class MusicBuilder:
         self.reset()
 
     def add_articulation(self, art):
-        """Add an articulation or script."""
+        """Add an articulation or script.
+
+        If there is no music to add the articulation to (e.g. ``\\[`` may
+        precede a note, and an event may be assigned to a variable), it is
+        yielded on its own before the next music.
+
+        """
+        if self._events:
+            self._events[-1].append(art)
+            art = e = self._events[0]
+            for f in self._events[1:]:
+                e.append(f)
+                e = f
+            self._events.clear()
         if self._music or self._duration:
-            if self._events:
-                self._events[-1].append(art)
-                art = e = self._events[0]
-                for f in self._events[1:]:
-                    e.append(f)
-                    e = f
-                self._events.clear()
             if not self._articulations:
                 self._articulations = lily.Articulations()
             self._articulations.append(art)
             return True
         else:
-            print("Unbound event:", art) # TEMP
+            self._unbound.append(art)
             return False
 
     def add_spanner_id(self, node):
@@ -822,6 +831,16 @@ class MusicBuilder:
             return True
         return False
 
+    def accepts_articulation(self):
+        """Return True if a string, markup etc. is an articulation.
+
+        That is the case if there is music to add it to, or if it follows a
+        direction.
+
+        """
+        return self._events and (self._music or self._duration
+                or isinstance(self._events[0], lily.Direction))
+
     def add_event_argument(self, node):
         r"""Try to add the node as argument to a spanner_id, tweak, tag, or shape."""
         return self.add_spanner_id(node) or \
@@ -1172,7 +1191,7 @@ class MusicBuilder:
         """Called for ``string``, ``scheme`` or ``list`` context."""
         if self._events and self.add_event_argument(obj):
             pass
-        elif self._events and (self._music or self._duration):
+        elif self.accepts_articulation():
             # after a direction: an articulation
             self.add_articulation(obj)
         else:
@@ -1184,7 +1203,7 @@ class MusicBuilder:
     def markup(self, obj):
         """Called for ``markup`` context: read arguments from items."""
         for node in self.transform.create_markup(obj, self.items):
-            if self._events and (self._music or self._duration):
+            if self.accepts_articulation():
                 # after a direction: add to the note
                 self.add_articulation(node)
             else:
@@ -1195,7 +1214,7 @@ class MusicBuilder:
     @_context("identifier_ref")
     def identifier_ref(self, obj):
         """Called for ``identifier_ref`` context: maybe articulation."""
-        if self._events and (self._music or self._duration):
+        if self.accepts_articulation():
             # after a direction: add as articulation
             self.add_articulation(obj)
         else:
@@ -1218,6 +1237,7 @@ class MusicBuilder:
             self._articulations.append(obj)
         elif not self._music and not self._duration:
             # no pending music
+            yield from self.pending_music()
             yield obj
         elif not self._duration:
             self._music.append(obj)     # moved back if no duration follows
-- 
2.43.0


From ffddaf32ce03081eda1f133d8c45b9c7da126f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 018/127] fix: read \applyContext, \applyMusic and \applyOutput
 as their own element types

---
 quickly/lang/lilypond.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index d9848d9..2f768a9 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1082,7 +1082,8 @@ class MusicBuilder:
 
     _builtin_mapping = element.head_mapping(
         lily.Absolute, lily.Acciaccatura, lily.AddQuote, lily.AfterGrace,
-        lily.Alternative, lily.AppendToTag, lily.Appoggiatura, lily.Bar,
+        lily.Alternative, lily.AppendToTag, lily.ApplyContext, lily.ApplyMusic,
+        lily.ApplyOutput, lily.Appoggiatura, lily.Bar,
         lily.Break, lily.Breathe, lily.Clef, lily.Default, lily.Fixed,
         lily.Grace, lily.GrobDashPattern, lily.GrobDirection, lily.GrobStyle,
         lily.InStaffSegno, lily.KeepWithTag, lily.Key, lily.Label, lily.Mark,
-- 
2.43.0


From 474bacf5f2899d9db958a9f0da8a1227910fb198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 019/127] fix: make the markup functions fret_diagram*,
 woodwind_diagram and with_link work

---
 quickly/dom/markup.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/markup.py b/quickly/dom/markup.py
index 656fcda..f7d5146 100644
--- a/quickly/dom/markup.py
+++ b/quickly/dom/markup.py
@@ -111,15 +111,15 @@ def tied_lyric(text):
 
 
 def fret_diagram(s):
-    return c_('fret-diagram', _s(scm.String(s)))
+    return _c('fret-diagram', _s(scm.String(s)))
 
 
 def fret_diagram_terse(s):
-    return c_('fret-diagram-terse', _s(scm.String(s)))
+    return _c('fret-diagram-terse', _s(scm.String(s)))
 
 
 def fret_diagram_verbose(element):
-    return c_('fret-diagram-verbose', element)
+    return _c('fret-diagram-verbose', element)
 
 
 def fromproperty(name):
@@ -242,7 +242,7 @@ def translate_scaled(x, y, *args):
 
 
 def with_link(label, *args):
-    return _c('with-color', _sym(label), _create_list(args))
+    return _c('with-link', _sym(label), _create_list(args))
 
 
 def with_url(url, *args):
@@ -250,7 +250,7 @@ def with_url(url, *args):
 
 
 def woodwind_diagram(instrument, scheme_commands):
-    return _c('woodwind-diagram', _sym(label), scheme_commands)
+    return _c('woodwind-diagram', _sym(instrument), scheme_commands)
 
 
 def draw_squiggle_line(sqlength, x, y, eqend):
-- 
2.43.0


From c3832ee2d76206faa46e64dcf6af5f261121e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 020/127] fix: get the value of a boolean or number in Scheme
 from a variable

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 8bf0c30..8882a5b 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3464,7 +3464,7 @@ def create_value_from_element(node):
         if len(node) == 1:
             node = node[0]
             if isinstance(node, (scm.Bool, scm.Number, scm.String)):
-                return node.value
+                return node.head
 
 
 def get_num_value(node):
-- 
2.43.0


From 118d9c61a37cb573aad3a3cf778c031002154aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 021/127] fix: write whitespace between the arguments of a dash
 pattern command

---
 quickly/dom/lily.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 8882a5b..0f766be 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3034,6 +3034,7 @@ class GrobStyle(element.MappingElement):
 
 class GrobDashPattern(element.MappingElement, _ConvertUnpitchedToInt):
     r"""The commands ``\slur``- ``\tie``- and ``\phrasingSlurDashPattern``."""
+    space_after_head = space_between = " "
     mapping = {
         r'\phrasingSlurDashPattern': 'PhrasingSlur',
         r'\slurDashPattern': 'Slur',
-- 
2.43.0


From fcec48e5171705e8cf743b05cf0f72d280a08d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 022/127] fix: read known commands that parce does not know as
 their own element type

---
 quickly/lang/lilypond.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 2f768a9..846caa9 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -272,8 +272,11 @@ class LilyPondTransform(base.Transform):
     start_list = None   # lexicon never creates tokens
 
     def identifier_ref(self, items):
-        """An IdentifierRef element."""
-        node = self.factory(lily.IdentifierRef, items[:1])
+        """An IdentifierRef element, or a command we know but parce doesn't."""
+        cls = lily.IdentifierRef
+        if len(items) == 1:
+            cls = MusicBuilder._builtin_mapping.get(items[0].text, cls)
+        node = self.factory(cls, items[:1])
         node.extend(self._list_nodes(items[1:]))
         return node
 
@@ -1215,7 +1218,7 @@ class MusicBuilder:
     @_context("identifier_ref")
     def identifier_ref(self, obj):
         """Called for ``identifier_ref`` context: maybe articulation."""
-        if self.accepts_articulation():
+        if isinstance(obj, lily.IdentifierRef) and self.accepts_articulation():
             # after a direction: add as articulation
             self.add_articulation(obj)
         else:
-- 
2.43.0


From fa5268ee8901787ac145e7c59d1db5f989430b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 023/127] fix: keep comments out of the string, number, list or
 variable they follow

---
 quickly/lang/lilypond.py | 60 ++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 846caa9..3a4df6b 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -264,21 +264,41 @@ class LilyPondTransform(base.Transform):
             else:
                 yield i.obj # can be a Scheme or String
 
+    def _pop_comments(self, nodes):
+        """Remove the comments at the end of the nodes list and return them."""
+        index = len(nodes)
+        while index and isinstance(nodes[index-1], base.Comment):
+            index -= 1
+        comments = nodes[index:]
+        del nodes[index:]
+        return comments
+
     def list(self, items):
-        """A List, String, Int, Symbol, or Scheme element."""
+        """A list with one List, String, Int, Symbol, or Scheme element.
+
+        Comments that follow the element are added to the returned list.
+
+        """
         nodes = list(self._list_nodes(items))
-        return nodes[0] if len(nodes) == 1 else lily.List(*nodes)
+        comments = self._pop_comments(nodes)
+        node = nodes[0] if len(nodes) == 1 else lily.List(*nodes)
+        return [node, *comments]
 
     start_list = None   # lexicon never creates tokens
 
     def identifier_ref(self, items):
-        """An IdentifierRef element, or a command we know but parce doesn't."""
+        """A list with one IdentifierRef element.
+
+        Returns another element when it is a command we know but parce doesn't.
+        Comments that follow the element are added to the returned list.
+
+        """
+        nodes = list(self._list_nodes(items[1:]))
+        comments = self._pop_comments(nodes)
         cls = lily.IdentifierRef
-        if len(items) == 1:
+        if not nodes:
             cls = MusicBuilder._builtin_mapping.get(items[0].text, cls)
-        node = self.factory(cls, items[:1])
-        node.extend(self._list_nodes(items[1:]))
-        return node
+        return [self.factory(cls, items[:1], (), *nodes), *comments]
 
     def markup(self, items):
         """A list of flattened markup contents, the markup will be constructed later."""
@@ -391,6 +411,8 @@ class LilyPondTransform(base.Transform):
                 yield i.obj
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
+            elif i.name in ("list", "identifier_ref"):
+                yield from i.obj
 
     def handle_assignments(self, nodes):
         """Handle assignments that occur in the Element nodes.
@@ -489,6 +511,8 @@ class LilyPondTransform(base.Transform):
                     yield self.factory(lily.MarkupCommand, (i,), (), *args)
             elif isinstance(i.obj, element.Element):
                 yield i.obj
+            elif i.name in ("list", "identifier_ref"):
+                yield from i.obj
 
     def get_markup_argument_count(self, command):
         r"""Return the number of arguments of the markup command (without ``\``).
@@ -1190,9 +1214,24 @@ class MusicBuilder:
         """Called for ``script`` context: an articulation."""
         self.add_articulation(obj)
 
-    @_context("string", "scheme", "list")
+    @_context("list", "identifier_ref")
+    def list_context(self, obj):
+        """Called for ``list`` and ``identifier_ref`` context: an element and maybe comments."""
+        node, *comments = obj
+        if isinstance(node, lily.IdentifierRef):
+            yield from self.identifier_ref(node)
+        elif isinstance(node, (lily.List, lily.String, lily.Int, lily.Symbol, lily.Scheme)):
+            yield from self.string_scheme(node)
+        else:
+            # a command, like in name_builtin_action()
+            yield from self.pending_music()
+            yield node
+        for c in comments:
+            yield from self.comment(c) or ()
+
+    @_context("string", "scheme")
     def string_scheme(self, obj):
-        """Called for ``string``, ``scheme`` or ``list`` context."""
+        """Called for ``string`` or ``scheme`` context."""
         if self._events and self.add_event_argument(obj):
             pass
         elif self.accepts_articulation():
@@ -1215,10 +1254,9 @@ class MusicBuilder:
                 yield from self.pending_music()
                 yield node
 
-    @_context("identifier_ref")
     def identifier_ref(self, obj):
         """Called for ``identifier_ref`` context: maybe articulation."""
-        if isinstance(obj, lily.IdentifierRef) and self.accepts_articulation():
+        if self.accepts_articulation():
             # after a direction: add as articulation
             self.add_articulation(obj)
         else:
-- 
2.43.0


From 11842b34d785015c383b447d5d94fa15a74628f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 024/127] fix: compute durations longer than \maxima, e.g.
 after shifting

---
 quickly/duration.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quickly/duration.py b/quickly/duration.py
index 02b1f66..d6e4e10 100644
--- a/quickly/duration.py
+++ b/quickly/duration.py
@@ -126,9 +126,11 @@ def duration(log, dotcount=0):
     :func:`log_dotcount`.
 
     """
-    numer = ((2 << dotcount) - 1) << 3
-    denom = 1 << (dotcount + log + 3)
-    return fractions.Fraction(numer, denom)
+    numer = (2 << dotcount) - 1
+    shift = dotcount + log
+    if shift < 0:
+        return fractions.Fraction(numer << -shift)
+    return fractions.Fraction(numer, 1 << shift)
 
 
 def shift_duration(value, log, dotcount=0):
-- 
2.43.0


From 07fbc84eb269bffdd6d7fd1d925dc787901d7042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 025/127] fix: a zero or negative duration is not writable

---
 quickly/duration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/duration.py b/quickly/duration.py
index d6e4e10..6358772 100644
--- a/quickly/duration.py
+++ b/quickly/duration.py
@@ -239,6 +239,8 @@ def is_writable(value):
     than 8 flags and ``\\maxima`` is the longest available duration name.
 
     """
+    if value <= 0:
+        return False
     mantisse, exponent = math.frexp(value)
     return -10 < exponent < 5 and math.frexp(1 - mantisse)[0] == 0.5
 
-- 
2.43.0


From 6b722b2c9175e0057d90335560a5a9db284aa96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 026/127] fix: raise ValueError for a number that is no power
 of two in duration.from_string()

---
 quickly/duration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quickly/duration.py b/quickly/duration.py
index 6358772..e2654ab 100644
--- a/quickly/duration.py
+++ b/quickly/duration.py
@@ -225,9 +225,13 @@ def from_string(text, dotcount=None):
         dotcount = text.count('.')
     text = text.strip(' \t.')
     try:
-        log = int(text).bit_length() - 1
+        value = int(text)
     except ValueError:
         log = -1 - NAMED_DURATIONS.index(text.lstrip('\\'))
+    else:
+        log = value.bit_length() - 1
+        if value < 1 or value != 1 << log:
+            raise ValueError("invalid duration: {}".format(text))
     return duration(log, dotcount)
 
 
-- 
2.43.0


From 186d01cc2c6ac65630a9905e37967bcb97fdeedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 027/127] fix: make Transposers that result from addition or
 subtraction work

---
 quickly/transpose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index f83112f..433447e 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -89,6 +89,7 @@ class Transposer(AbstractTransposer):
 
     def __add__(self, other):
         t = type(self).__new__(type(self))
+        t.scale = self.scale
         doct, t.steps = divmod(self.steps + other.steps, 7)
         t.octave = self.octave + other.octave + doct
         t.alter = self.alter + other.alter - doct * 6
@@ -96,9 +97,10 @@ class Transposer(AbstractTransposer):
 
     def __sub__(self, other):
         t = type(self).__new__(type(self))
+        t.scale = self.scale
         doct, t.steps = divmod(self.steps - other.steps, 7)
         t.octave = self.octave - other.octave + doct
-        t.alter = self.alter - other.alter + doct * 6
+        t.alter = self.alter - other.alter - doct * 6
         return t
 
 
-- 
2.43.0


From f184d48b1abd53adf5bd46eb9abe6dbea2fd8c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 028/127] fix: the repr() of a KeySignature raised a TypeError

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 0017ce5..3ee014c 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -226,7 +226,7 @@ class KeySignature:
         self.flats = pitch.MAJOR_FLATS
 
     def __repr__(self):
-        p = pitch.Pitch(self.note, self.alter)
+        p = pitch.Pitch(-1, self.note, self.alter)
         return "<{} note,alter={},{} ({}) mode={}>".format(type(self).__name__,
             self.note, self.alter, p, self.mode)
 
-- 
2.43.0


From 1293c7359bbbd6d266d0bd4da3c02dcb1f19a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 029/127] fix: accept a list of flats in KeySignature.pitch()

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 3ee014c..f23e87d 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -323,7 +323,7 @@ class KeySignature:
         """
         if flats is None:
             flats = self.flats
-        return self._midi_reader(flats)(key)
+        return self._midi_reader(tuple(flats))(key)
 
     @cached_method
     def _midi_reader(self, flats):
-- 
2.43.0


From 444b082630009699c589951f65d409b4fc0e1d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 030/127] fix: rotate the chromatic scale of B double sharp
 correctly

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index f23e87d..ea44cd8 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -166,7 +166,7 @@ def chromatic_scale(note=0, alter=0, scale=None, flats=None):
 
     alter += scale[note] - scale[0]
     notes = list(transpose(chrom_scale()))
-    semitones = int(alter * 2)
+    semitones = int(alter * 2) % 12
     return notes[-semitones:] + notes[:-semitones]  # rotate so C-based pitch is at start
 
 
-- 
2.43.0


From b905ffe5dbc95ed41786172aae730dae29d4a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 031/127] =?UTF-8?q?fix:=20obey=20prefer=5Fdeprecated=20for?=
 =?UTF-8?q?=20the=20catal=C3=A0=20language=20name=20as=20well?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 quickly/pitch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index fd63359..59ba953 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -565,6 +565,7 @@ class PitchProcessor:
                 return name
 
     @_suitable("catalan")
+    @_suitable("català")
     def _catalan(self, names):
         for name in names:
             if self.prefer_deprecated == name.endswith('s'):
-- 
2.43.0


From bf44040e8f8a3b3f3fc6362aa9f5f2da172b32bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 032/127] fix: prefer_classic was inverted for norsk

---
 quickly/pitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 59ba953..52039d9 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -613,7 +613,7 @@ class PitchProcessor:
                 return subset[0]
             names = subset
         for name in names:
-            if self.prefer_classic == ('ee' in name or 'ae' in name):
+            if self.prefer_classic != ('ee' in name or 'ae' in name):
                 return name
 
     @_suitable("suomi")
-- 
2.43.0


From 5663801ab8856c447c45b0c38b1e78e535bc66c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 033/127] fix: do not use long English pitch names because of
 prefer_x

---
 quickly/pitch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 52039d9..e665e94 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -583,9 +583,11 @@ class PitchProcessor:
             for name in names:
                 if "-" in name:
                     return name
+        names = [name for name in names if "-" not in name]
         for name in names:
-            if "-" not in name and self.prefer_x == name.endswith('x'):
+            if self.prefer_x == name.endswith('x'):
                 return name
+        return names[-1]
 
     @_suitable("espanol")
     @_suitable("español")
-- 
2.43.0


From 4f886295e2e12ea656f8296d075f7af20bfa778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 034/127] fix: an \include command without filename has no
 language

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 0f766be..bf12f59 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2844,7 +2844,7 @@ class Include(element.HeadElement):
         """
         from .. import pitch
         filename = self.filename
-        if filename.endswith(".ly"):
+        if filename and filename.endswith(".ly"):
             language = filename[:-3]
             if language in pitch.pitch_names:
                 return language
-- 
2.43.0


From 8f71cf157f48038a961cf5f60f2dc838bbc56f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 035/127] fix: ignore unknown language names when following or
 finding the pitch language

---
 quickly/pitch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index e665e94..d23f6aa 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -454,7 +454,7 @@ class PitchProcessor:
         from .dom import lily
         for n in node < (lily.Language, lily.Include):
             lang = n.language
-            if lang:
+            if lang in pitch_names:
                 self.language = lang
                 break
 
@@ -472,7 +472,7 @@ class PitchProcessor:
         for n in nodes:
             if isinstance(n, (lily.Language, lily.Include)):
                 lang = n.language
-                if lang:
+                if lang in pitch_names:
                     self.language = lang
                     continue
             yield n
-- 
2.43.0


From 4919bee54603e639b768a32111b125d278386d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 036/127] fix: look at the alteration when distilling
 prefer_long

---
 quickly/pitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index d23f6aa..61d7157 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -516,7 +516,7 @@ class PitchProcessor:
                 elif language == "english":
                     if '-' in name:
                         prefer_long = True
-                    elif not prefer_long and pnames[name][1] in {-1, -0.5, 0.5, 1}:
+                    elif not prefer_long and pnames[name][2] in {-1, -0.5, 0.5, 1}:
                         prefer_long = False
                 elif language == "français":
                     if 'é' in name:
-- 
2.43.0


From 97ac4b52601705e2f3a46d23f6f93162309e6240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 037/127] fix: remove the Octave node when the octave is set to
 0

---
 quickly/dom/lily.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index bf12f59..7587c15 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -242,7 +242,10 @@ class Pitchable(element.TextElement, Music):
     @octave.setter
     def octave(self, num):
         for n in self / Octave:
-            n.head = num
+            if num == 0:
+                self.remove(n)
+            else:
+                n.head = num
             return
         if num != 0:
             self.add(Octave(num))
-- 
2.43.0


From c54de04f9828dbdfa83d6578edb5718c12fa9bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 038/127] fix: transpose an added bass note in chord mode like
 an inversion, without octave

---
 quickly/transpose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 433447e..e54ac2b 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -156,7 +156,7 @@ class Transpose(edit.Edit):
                 if isinstance(n, lily.Pitchable):
                     yield n
                     transpose_absolute(n)   # e.g. notes in markup scores
-                elif isinstance(n, (lily.Key, lily.Inversion)):
+                elif isinstance(n, (lily.Key, lily.Inversion, lily.AddInversion)):
                     transpose_no_octave(n)
                 elif isinstance(n, lily.Absolute):
                     transpose_absolute(n)
-- 
2.43.0


From 7de55158aa19358f397ee3178e4ade6aeba17242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 039/127] fix: correct octave when the transposed start pitch
 of \fixed gets in another octave

---
 quickly/transpose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index e54ac2b..a8300bc 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -202,9 +202,10 @@ class Transpose(edit.Edit):
             for note in nodes:
                 if isinstance(note, lily.Pitchable) and writable(note):
                     # we may change this note, modify the octave
-                    offset = self.transposer.octave
                     with processor.process(note) as p:
+                        offset = -p.octave
                         self.transposer.transpose(p)
+                        offset += p.octave
                 else:
                     offset = 0
                 for p in transpose_pitches(nodes):
-- 
2.43.0


From 4b9852b2b2c976b2d2f99855384bd447b6d7de72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 040/127] fix: octave checks after transposing a \relative with
 start pitch by an octave or more

---
 quickly/transpose.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index a8300bc..5fba18f 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -249,8 +249,6 @@ class Transpose(edit.Edit):
                     with processor.process(start_note) as p:
                         self.transposer.transpose(p)
                     last_pitch.transposed = p
-                    last_pitch.octave -= self.transposer.octave
-                    last_pitch.transposed.octave -= self.transposer.octave
             else:
                 last_pitch = Pitch(-1, 3, 0) if relative_first_pitch_absolute else Pitch(0, 0, 0)
 
-- 
2.43.0


From 78c088723ab00709b7d0fdae19b82f710d2b7452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 041/127] fix: transpose music of \transpose inside \relative
 as absolute music

---
 quickly/transpose.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 5fba18f..27ae3b4 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -165,10 +165,14 @@ class Transpose(edit.Edit):
                 elif isinstance(n, lily.Fixed):
                     transpose_fixed(n)
                 elif isinstance(n, lily.Transpose):
-                    pitches, rest = n[:2], n[2:]
+                    nodes = list(util.skip_comments(n))
+                    pitches, rest = nodes[:2], nodes[2:]
                     for p in transpose_pitches(pitches):
                         p.octave -= self.transposer.octave
-                    yield from notes(rest)
+                    if relative_mode:
+                        transpose_absolute(rest)    # not affected by \relative
+                    else:
+                        yield from notes(rest)
                 elif isinstance(n, (lily.Transposition, lily.StringTuning)):
                     pass    # don't change child nodes
                 elif relative_mode and isinstance(n, (lily.Chord, lily.OctaveCheck)):
-- 
2.43.0


From c12760c0cb73d43ab9d41591b71b72a080b4324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 042/127] fix: don't transpose only one of the pitches of a
 \transpose command

---
 quickly/transpose.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 27ae3b4..26f7a2a 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -167,8 +167,9 @@ class Transpose(edit.Edit):
                 elif isinstance(n, lily.Transpose):
                     nodes = list(util.skip_comments(n))
                     pitches, rest = nodes[:2], nodes[2:]
-                    for p in transpose_pitches(pitches):
-                        p.octave -= self.transposer.octave
+                    if all(map(writable, pitches)):     # keep the interval
+                        for p in transpose_pitches(pitches):
+                            p.octave -= self.transposer.octave
                     if relative_mode:
                         transpose_absolute(rest)    # not affected by \relative
                     else:
-- 
2.43.0


From c46c2f2b4453327cc0cd29a75d6b715bc07b3ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:38 +0000
Subject: [PATCH 043/127] fix: transpose a part of \relative, \fixed etc. in
 the context it is in

---
 quickly/transpose.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 26f7a2a..b125218 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -137,14 +137,23 @@ class Transpose(edit.Edit):
         node = r.ancestor()
         processor = self.processor or PitchProcessor()
 
-        if not node.is_root():
-            processor.find_language(node)
-
         relative_first_pitch_absolute = self.relative_first_pitch_absolute
         if relative_first_pitch_absolute is None:
             relative_first_pitch_absolute = util.lilypond_version(node) >= (2, 18)
 
-        writable = (lambda n: True) if r.is_full() else (lambda n: n in r)
+        # the meaning of the pitches can depend on a command the range is in
+        context = node
+        for context in node << (
+                lily.Relative, lily.Fixed, lily.Transpose, lily.Key,
+                lily.Inversion, lily.AddInversion, lily.OctaveCheck,
+                lily.Transposition, lily.StringTuning,
+            ):
+            pass
+
+        writable = (lambda n: True) if r.is_full() and context is node else (lambda n: n in r)
+
+        if not context.is_root():
+            processor.find_language(context)
 
         def notes(nodes, relative_mode=False):
             """Yield notes (lily.Pitchable) to be transposed.
@@ -278,7 +287,7 @@ class Transpose(edit.Edit):
                             last_pitch.transposed = p
                             processor.write_node(note, p)
         # Do it!
-        transpose_absolute((node,))
+        transpose_absolute((context,))
 
 
 def transpose(music, transposer):
-- 
2.43.0


From 2aef2338dfa5468434244eaa5d02599ddf576bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 044/127] fix: a Range whose end node lost children does not
 iterate past the end

---
 quickly/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index f7bfa95..c841e29 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -1303,7 +1303,7 @@ class Range(Common):
             self.end_trail = end_trail
             # for convenience, store start and end indices for the range
             self.start = start_trail[depth] if start_trail else 0
-            self.end = len(node) - 1 if end_trail is None else end_trail[depth] if len(end_trail) > depth else -1
+            self.end = len(node) - 1 if end_trail is None else min(end_trail[depth], len(node) - 1) if len(end_trail) > depth else -1
             self.index = -1 # so that iteration will start correctly
 
         def __iter__(self):
-- 
2.43.0


From 2e904a97ecded454f01673ee67dc9e6550b8012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 045/127] fix: edit exactly the nodes inside a cursor selection

---
 quickly/dom/edit.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 406392f..706efe5 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -102,7 +102,8 @@ class Edit:
         nodes that are within the cursor's selection. The ancestor of the range
         is by default the younghest common ancestor of the start and end nodes
         of the range. Set :attr:`range_from_root` to True if you want the
-        ancestor of the range to be the DOM tree root anyway.
+        ancestor of the range to be the DOM tree root anyway; this is also the
+        case when the start node is an ancestor of the end node.
 
         """
         d = cursor.document().get_transform(True)
@@ -110,12 +111,16 @@ class Edit:
         if cursor.has_selection():
             start_node = d.find_descendant_right(cursor.pos)
             end_node = d.find_descendant_left(cursor.end)
-            if end_node or start_node:
+            if start_node and end_node and start_node.pos < end_node.end:
+                start = start_node.pos
+                end = end_node.end
+                while len(end_node):    # all descendants are in the selection
+                    end_node = end_node[-1]
                 r = Range.from_nodes(start_node, end_node, self.range_from_root)
-                if start_node:
-                    start = start_node.pos
-                if end_node:
-                    end = end_node.end
+                if r.ancestor() is start_node:  # include the start node itself
+                    r = Range.from_nodes(start_node, end_node, True)
+            else:
+                r = Range(d, None, [])  # no nodes in the selection
         elif self.range_from_cursor:
             start_node = d.find_descendant_right(cursor.pos)
             if start_node:
-- 
2.43.0


From 4449c848ca3342ae30244b717b1f069ed54580e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 046/127] fix: a node is not in a Range when the end boundary
 is inside it

---
 quickly/node.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index c841e29..697c03f 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -827,8 +827,20 @@ class Range(Common):
             return self._stack[0].start_in_range() and self._stack[0].end_in_range()
         elif self.start_trail and trail < self.start_trail:
             return False
-        elif self.end_trail is not None and trail > self.end_trail:
-            return False
+        elif self.end_trail is not None:
+            if trail > self.end_trail:
+                return False
+            depth = len(trail)
+            if depth < len(self.end_trail) and trail == self.end_trail[:depth]:
+                # the end boundary is inside the node
+                node = self.ancestor()
+                for i in trail:
+                    node = node[i]
+                for i in self.end_trail[depth:]:
+                    if i < len(node) - 1:
+                        return False
+                    node = node[i]
+                return len(node) == 0
         return True
 
     def _trail_intersects(self, trail):
-- 
2.43.0


From 3b470a6c40304df4df88708820df0dceddeb18b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 047/127] fix: keep the start pitch of \fixed when not all of
 its music is transposed

---
 quickly/transpose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index b125218..279f01c 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -214,7 +214,7 @@ class Transpose(edit.Edit):
             r"""Transpose \fixed pitches: handle octave nicely."""
             nodes = util.skip_comments(node)
             for note in nodes:
-                if isinstance(note, lily.Pitchable) and writable(note):
+                if isinstance(note, lily.Pitchable) and writable(node):
                     # we may change this note, modify the octave
                     with processor.process(note) as p:
                         offset = -p.octave
-- 
2.43.0


From f3be29df72fa151aa121d6e83ac109b55840ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 048/127] fix: don't delete closing brackets when the selection
 ends after the parent of the start node

---
 quickly/dom/edit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 706efe5..f01f292 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -119,6 +119,7 @@ class Edit:
                 r = Range.from_nodes(start_node, end_node, self.range_from_root)
                 if r.ancestor() is start_node:  # include the start node itself
                     r = Range.from_nodes(start_node, end_node, True)
+                end = min(end, r.ancestor().end)
             else:
                 r = Range(d, None, [])  # no nodes in the selection
         elif self.range_from_cursor:
-- 
2.43.0


From 4c417cec33ab171d00c37d70b6a4528c3330e5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 049/127] fix: keep the whitespace after removed text that is
 attached to preceding text

---
 quickly/dom/element.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index fd992c9..f0b3669 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -642,14 +642,19 @@ class Element(Node, metaclass=ElementType):
                 if point.pos > pos:
                     # see if old content needs to be deleted between pos and point.pos
                     del_pos = del_end = pos
+                    attached = False    # True when there is no space before deleted content
                     for t in tokens:
                         if t.pos >= point.pos:
                             pos = t.pos
                             break
+                        attached = attached or t.pos == del_pos
                         del_end = t.end
                     if del_end > del_pos:
-                        if space and del_end < pos:
-                            del_end = pos   # unparsed space can be ditched
+                        if del_end < pos:
+                            if attached:
+                                space = ''      # the space after the deleted content remains
+                            elif space:
+                                del_end = pos   # unparsed space can be ditched
                         yield del_pos, del_end, space
                 elif space and changed:
                     # existing elements that touch are left alone
-- 
2.43.0


From f441e30b447836501482df0263b14d86b3a39b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 050/127] fix: read drum names in chords as drum notes

---
 quickly/dom/lily.py      |  2 +-
 quickly/lang/lilypond.py | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 7587c15..56ecf9a 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1461,7 +1461,7 @@ class Chord(Durable):
 
         """
         for body in self:
-            if any(body / Note):
+            if any(body / (Note, Drum)):
                 return super().time_length(context, end)
         return 0
 
diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 3a4df6b..0564e4c 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -194,12 +194,24 @@ class LilyPondTransform(base.Transform):
 
     def drummode(self, items):
         """A list of elements, contents of ``drummode`` context."""
-        return list(self.create_music(items))
+        return [self.drum_chords(node) for node in self.create_music(items)]
 
     def drumlist(self, items):
         """A MusicList or SimultaneousMusicList element, the ``{`` ... ``}`` or
         ``<<`` ... ``>>`` construct in drummode."""
-        return self.musiclist(items)
+        return self.drum_chords(self.musiclist(items))
+
+    @staticmethod
+    def drum_chords(node):
+        """Turn names in chords, which are read as notes or symbols, into Drum elements."""
+        for body in node // lily.ChordBody:
+            if not any(p for p in body << lily.InputMode):
+                for n in body:
+                    if isinstance(n, (lily.Note, lily.Symbol)):
+                        drum = lily.Drum(n.head, *n)
+                        drum.copy_origin_from(n)
+                        body[body.index(n)] = drum
+        return node
 
     def chordmode(self, items):
         """A list of elements, contents of ``chordmode`` context."""
-- 
2.43.0


From 14158001871d4882f8048e9c81c0eeecf610c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 051/127] fix: determine the notes to transpose before octaves
 are added to them

---
 quickly/transpose.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 279f01c..264a81f 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -22,6 +22,8 @@
 Transpose pitches.
 """
 
+import itertools
+
 from .dom import edit, lily, util
 from .pitch import Pitch, PitchProcessor
 
@@ -150,7 +152,12 @@ class Transpose(edit.Edit):
             ):
             pass
 
-        writable = (lambda n: True) if r.is_full() and context is node else (lambda n: n in r)
+        if r.is_full() and context is node:
+            writable = lambda n: True
+        else:
+            # collect them first, because adding an octave changes the trails
+            nodes = itertools.chain((context,), context // (lily.Pitchable, lily.Fixed))
+            writable = set(n for n in nodes if n in r).__contains__
 
         if not context.is_root():
             processor.find_language(context)
-- 
2.43.0


From b8be97ad230b15a8b23294eec4ce44014d48a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:28 +0000
Subject: [PATCH 052/127] fix: copy the spacing of an element

---
 quickly/dom/element.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index f0b3669..1924157 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -175,6 +175,14 @@ class Element(Node, metaclass=ElementType):
         for attribute, value in attrs.items():
             setattr(self, attribute, value)
 
+    def _space_attrs(self):
+        """Return a dictionary with the space attributes set on this instance.
+
+        Used to give a copy the same spacing.
+
+        """
+        return {'space_' + name: value for name, value in getattr(self, '_space', {}).items()}
+
     def copy(self, with_children=True):
         """Copy the node, without the origin.
 
@@ -183,7 +191,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return type(self)(*children, **getattr(self, '_spacing', {}))
+        return type(self)(*children, **self._space_attrs())
 
     def copy_with_origin(self, with_children=True):
         """Copy the node, with origin if available.
@@ -193,7 +201,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = type(self)(*children, **getattr(self, '_spacing', {}))
+        copy = type(self)(*children, **self._space_attrs())
         copy.copy_origin_from(self)
         return copy
 
@@ -929,11 +937,11 @@ class TextElement(HeadElement):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        return self._factory(self.head, *children, **self._space_attrs())
 
     def copy_with_origin(self, with_children=True):
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        copy = self._factory(self.head, *children, **self._space_attrs())
         copy.copy_origin_from(self)
         return copy
 
-- 
2.43.0


From c811f4824494ae4dad24fc10850bb7d09a55c77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 053/127] fix: don't modify nodes that are cached by the
 transformer

---
 quickly/lang/lilypond.py | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 0564e4c..8ebdcef 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -91,6 +91,11 @@ class LilyPondTransform(base.Transform):
     ## Element.copy_with_origin().
 
 
+    ## Also a node that's returned by a transform method should not get more
+    ## child nodes (e.g. arguments) when it is combined with other nodes,
+    ## because they would still be there when the cached node is used again. So
+    ## results of other contexts are passed through LilyPondTransform.fresh().
+
     ## transforming methods
     def root(self, items):
         """Concatenate all nodes in a Document object."""
@@ -407,6 +412,26 @@ class LilyPondTransform(base.Transform):
         return opts, nodes, tail_origin
 
     ## helper methods
+    def fresh(self, obj):
+        """Return ``obj``, the result of a transform method, in a form that can
+        be modified without modifying the result that's cached by the
+        transformer.
+
+        Elements are copied (with origin), unless they are block elements,
+        which never get more child nodes. Elements in a list are handled the
+        same way; other objects are returned unchanged.
+
+        """
+        if isinstance(obj, element.BlockElement):
+            return obj
+        if isinstance(obj, element.Element):
+            copy = obj.copy_with_origin(False)
+            copy.extend(self.fresh(n) for n in obj)
+            return copy
+        if isinstance(obj, list):
+            return [self.fresh(n) for n in obj]
+        return obj
+
     def common(self, items):
         """Find comment, string, scheme, markup and common tokens.
 
@@ -420,11 +445,11 @@ class LilyPondTransform(base.Transform):
                 if result:
                     yield result
             elif isinstance(i.obj, element.Element):
-                yield i.obj
+                yield self.fresh(i.obj)
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
             elif i.name in ("list", "identifier_ref"):
-                yield from i.obj
+                yield from self.fresh(i.obj)
 
     def handle_assignments(self, nodes):
         """Handle assignments that occur in the Element nodes.
@@ -522,9 +547,9 @@ class LilyPondTransform(base.Transform):
                                 break
                     yield self.factory(lily.MarkupCommand, (i,), (), *args)
             elif isinstance(i.obj, element.Element):
-                yield i.obj
+                yield self.fresh(i.obj)
             elif i.name in ("list", "identifier_ref"):
-                yield from i.obj
+                yield from self.fresh(i.obj)
 
     def get_markup_argument_count(self, command):
         r"""Return the number of arguments of the markup command (without ``\``).
@@ -562,7 +587,7 @@ class LilyPondTransform(base.Transform):
             elif isinstance(i.obj, element.Element):
                 if step:
                     yield step
-                step = i.obj
+                step = self.fresh(i.obj)
         if step:
             yield step
 
@@ -764,12 +789,12 @@ class MusicBuilder:
                 if not meth:
                     if isinstance(i.obj, element.Element):
                         yield from self.pending_music()
-                        yield i.obj
+                        yield self.transform.fresh(i.obj)
                     else:
                         # TEMP
                         print("Unknown item:", i)
                     continue
-                result = meth(i.obj)
+                result = meth(self.transform.fresh(i.obj))
             if result:
                 yield from result
 
-- 
2.43.0


From 158cdd86bdedb1689c30ca791feb866c170b88d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 054/127] fix: don't crash on a chord modifier without chord

---
 quickly/lang/lilypond.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 8ebdcef..a6e9b3c 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1215,7 +1215,8 @@ class MusicBuilder:
     @_context("chord_modifier")
     def chord_modifier(self, obj):
         """Called with the result of the ``chord_modifier`` context."""
-        self._modifier[-1].extend(obj)
+        if self._modifier:  # otherwise there is no chord to modify
+            self._modifier[-1].extend(obj)
 
     @_context("repeat", "lyricsto", "lyricmode", "drummode", "notemode",
               "chordmode", "figuremode")
-- 
2.43.0


From f3b4a936b70d6b5bcd6615839bacd30ed8fb7a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:06 +0000
Subject: [PATCH 055/127] fix: convert nested relative music, and notes after
 \octaveCheck, to absolute

---
 quickly/relative.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index e969e84..1849e04 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -66,24 +66,32 @@ class Rel2abs(edit.Edit):
 
         def notes(nodes):
             """Yield note/rest, chord and octavecheck; follow pitch language."""
-            for n in processor.follow_language(nodes):
+            for n in processor.follow_language(list(nodes)):
                 if isinstance(n, lily.Pitchable):
                     yield n
                     # music in markup expressions?
-                    for n in node.instances_of(lily.Relative):
-                        make_absolute(n)
+                    make_descendants_absolute(n)
                 elif isinstance(n, (lily.Chord, lily.OctaveCheck)):
                     yield n
                 elif isinstance(n, lily.Relative):
                     make_absolute(n)
                 elif isinstance(n, (
-                        lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
-                        lily.Transpose, lily.Transposition, lily.StringTuning,
+                        lily.Inversion, lily.AddInversion, lily.Key,
+                        lily.Absolute, lily.Fixed, lily.Transpose,
+                        lily.Transposition, lily.StringTuning, lily.Markup,
                     )):
-                    pass
+                    # not affected by this \relative, but can contain another
+                    make_descendants_absolute(n)
                 else:
                     yield from notes(n)
 
+        def make_descendants_absolute(node):
+            """Convert the relative music in this node to absolute music."""
+            nodes = list(node.instances_of((lily.Language, lily.Include, lily.Relative)))
+            for n in processor.follow_language(nodes):
+                if isinstance(n, lily.Relative):
+                    make_absolute(n)
+
         def make_absolute(node):
             """Convert this relative music to absolute music."""
             parent = node.parent
@@ -110,11 +118,15 @@ class Rel2abs(edit.Edit):
                 elif isinstance(n, lily.Chord):
                     # chord
                     stack = [last_pitch]
-                    for note in notes(n):
-                        with processor.process(note) as p:
-                            default_octave = p.octave - note.octave # the octave of the pitch name itself
-                            p.make_absolute(stack[-1], default_octave)
-                            stack.append(p)
+                    for c in n:
+                        if isinstance(c, lily.ChordBody):
+                            for note in notes(c):
+                                with processor.process(note) as p:
+                                    default_octave = p.octave - note.octave # the octave of the pitch name itself
+                                    p.make_absolute(stack[-1], default_octave)
+                                    stack.append(p)
+                        else:
+                            make_descendants_absolute(c)
                     last_pitch = stack[:2][-1]  # first note of chord, or the old if chord was empty
                 elif isinstance(n, lily.OctaveCheck):
                     # OctaveCheck, read last_pitch but remove
-- 
2.43.0


From 65f20a7d46f8dd5c2d820f28c4f7503e6c9c30a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:23 +0000
Subject: [PATCH 056/127] fix: keep comments when removing \relative

---
 quickly/relative.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 1849e04..03c001d 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -54,15 +54,11 @@ class Rel2abs(edit.Edit):
 
     def edit_range(self, r):
         """Do the pitch conversion."""
-        node = r.ancestor()
         processor = self.processor or PitchProcessor()
 
-        if not node.is_root():
-            processor.find_language(node)
-
         first_pitch_absolute = self.first_pitch_absolute
         if first_pitch_absolute is None:
-            first_pitch_absolute = util.lilypond_version(node) >= (2, 18)
+            first_pitch_absolute = util.lilypond_version(r.ancestor()) >= (2, 18)
 
         def notes(nodes):
             """Yield note/rest, chord and octavecheck; follow pitch language."""
@@ -97,9 +93,11 @@ class Rel2abs(edit.Edit):
             parent = node.parent
             index = parent.index(node)
 
-            nodes = list(util.skip_comments(node))
-            if len(nodes) > 1 and isinstance(nodes[0], lily.Pitch):
-                start_note, *nodes = nodes
+            nodes = list(node)
+            music = list(util.skip_comments(node))
+            if len(music) > 1 and isinstance(music[0], lily.Pitchable):
+                start_note = music[0]
+                nodes.remove(start_note)
                 last_pitch = processor.read_node(start_note)
             elif first_pitch_absolute:
                 last_pitch = Pitch(-1, 3, 0)
@@ -133,11 +131,12 @@ class Rel2abs(edit.Edit):
                     for note in notes(n):
                         last_pitch = processor.read_node(note)
                     n.parent.remove(n)
-        # Do it!
-        nodes = r.instances_of((lily.Language, lily.Include, lily.Relative))
-        for n in processor.follow_language(nodes):
-            if isinstance(n, lily.Relative) and r.in_range():
-                make_absolute(n)
+        # Do it! Collect the nodes first, as the tree is changed
+        language = processor.language
+        for n in list(r.filter(lambda n: isinstance(n, lily.Relative) and r.in_range())):
+            processor.language = language
+            processor.find_language(n)
+            make_absolute(n)
 
 
 def rel2abs(music):
-- 
2.43.0


From 11c9ce6ff9e9d52182c4b3ee8be4789abf09a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 057/127] fix: convert \relative music inside \fixed or other
 \relative music correctly

---
 quickly/relative.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 03c001d..85f50bd 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -104,25 +104,40 @@ class Rel2abs(edit.Edit):
             else:
                 last_pitch = Pitch(0, 0, 0)
 
-            parent[index:index+1] = nodes   # remove \relative node but keep its child(ren)
+            # the meaning of absolute pitches can depend on a command that's still there
+            offset = 0
+            replacement = nodes
+            for n in node << (lily.Absolute, lily.Fixed, lily.Relative, lily.Markup):
+                if isinstance(n, lily.Fixed):
+                    for pitch in n / lily.Pitchable:
+                        offset = processor.read_node(pitch).octave + 1
+                        break
+                elif isinstance(n, lily.Relative):
+                    replacement = [lily.Absolute(*nodes)]
+                break
+
+            def write_absolute(note, last_pitch):
+                """Write the note as absolute pitch, and return that Pitch."""
+                with processor.process(note) as p:
+                    default_octave = p.octave - note.octave # the octave of the pitch name itself
+                    p.make_absolute(last_pitch, default_octave)
+                    pitch = p.copy()
+                    p.octave -= offset
+                return pitch
+
+            parent[index:index+1] = replacement   # remove \relative node but keep its child(ren)
 
             for n in notes(nodes):
                 if isinstance(n, lily.Pitchable):
                     # note (or positioned rest)
-                    with processor.process(n) as p:
-                        default_octave = p.octave - n.octave # the octave of the pitch name itself
-                        p.make_absolute(last_pitch, default_octave)
-                        last_pitch = p
+                    last_pitch = write_absolute(n, last_pitch)
                 elif isinstance(n, lily.Chord):
                     # chord
                     stack = [last_pitch]
                     for c in n:
                         if isinstance(c, lily.ChordBody):
                             for note in notes(c):
-                                with processor.process(note) as p:
-                                    default_octave = p.octave - note.octave # the octave of the pitch name itself
-                                    p.make_absolute(stack[-1], default_octave)
-                                    stack.append(p)
+                                stack.append(write_absolute(note, stack[-1]))
                         else:
                             make_descendants_absolute(c)
                     last_pitch = stack[:2][-1]  # first note of chord, or the old if chord was empty
@@ -131,6 +146,7 @@ class Rel2abs(edit.Edit):
                     for note in notes(n):
                         last_pitch = processor.read_node(note)
                     n.parent.remove(n)
+
         # Do it! Collect the nodes first, as the tree is changed
         language = processor.language
         for n in list(r.filter(lambda n: isinstance(n, lily.Relative) and r.in_range())):
-- 
2.43.0


From 465447f323f4e7cfd0a322473df8b179827c382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 058/127] fix: make the notes in chords relative

---
 quickly/relative.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 85f50bd..b7cbac4 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -275,8 +275,9 @@ class Abs2rel(edit.Edit):
                     last_pitch = relative_note(n, last_pitch)
                 elif isinstance(n, lily.Chord):
                     stack = [last_pitch]
-                    for note in n / lily.Pitchable:
-                        stack.append(relative_note(note, last_pitch))
+                    for body in n / lily.ChordBody:
+                        for note in processor.follow_language(body / lily.Pitchable):
+                            stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
                 elif isinstance(n, (
                     lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
-- 
2.43.0


From eb1540f24273e97cff0550966cf88a909a736015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 059/127] fix: don't change absolute pitches that are not
 affected by \relative

---
 quickly/relative.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index b7cbac4..8b25d72 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -279,9 +279,16 @@ class Abs2rel(edit.Edit):
                         for note in processor.follow_language(body / lily.Pitchable):
                             stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
+                elif isinstance(n, lily.OctaveCheck):
+                    # the checked pitch is absolute and becomes the last pitch
+                    for note in n / lily.Pitchable:
+                        if last_pitch is None:
+                            get_first_pitch(processor.read_node(note))
+                        last_pitch = processor.read_node(note)
                 elif isinstance(n, (
-                    lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
-                    lily.Transpose, lily.Transposition, lily.StringTuning,
+                    lily.Inversion, lily.AddInversion, lily.Key, lily.Absolute,
+                    lily.Fixed, lily.Relative, lily.Transpose,
+                    lily.Transposition, lily.StringTuning, lily.Markup,
                 )):
                     pass
                 else:
-- 
2.43.0


From b445b8a84c10d06df39ff3059bb5f5ce6a70016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 060/127] fix: follow the pitch language, and leave \fixed
 music alone, when making music relative

---
 quickly/relative.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 8b25d72..c609089 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -219,14 +219,20 @@ class Abs2rel(edit.Edit):
 
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
-            for n in r.instances_of((lily.MusicList, lily.Relative, lily.ChordMode)):
+            nodes = r.instances_of((lily.MusicList, lily.Relative, lily.Fixed,
+                lily.ChordMode, lily.Language, lily.Include))
+            for n in processor.follow_language(nodes):
                 if isinstance(n, lily.MusicList):
                     if any(n / lily.Pitchable) and r.in_range():
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
                     else:
                         abs2rel()
                 elif isinstance(n, lily.ChordMode):
-                    r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
+                    if r.in_range():
+                        r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
+                elif isinstance(n, (lily.Relative, lily.Fixed)):
+                    for n in processor.follow_language(n // (lily.Language, lily.Include)):
+                        pass
 
         # Do it!
         abs2rel()
@@ -260,6 +266,10 @@ class Abs2rel(edit.Edit):
                 last_pitch = Pitch(0, 0, 0)
             return last_pitch
 
+        def follow_language(node):
+            for n in processor.follow_language(node // (lily.Language, lily.Include)):
+                pass
+
         def relative_note(node, last_pitch):
             with processor.process(node) as p:
                 default_octave = p.octave - node.octave
@@ -290,7 +300,7 @@ class Abs2rel(edit.Edit):
                     lily.Fixed, lily.Relative, lily.Transpose,
                     lily.Transposition, lily.StringTuning, lily.Markup,
                 )):
-                    pass
+                    follow_language(n)
                 else:
                     last_pitch = relative_notes(n, last_pitch)
             return last_pitch
-- 
2.43.0


From eca77edb4a12161a7cd18caeb924c395a8d47305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 061/127] fix: don't make a selection in \relative or \fixed
 music relative again

---
 quickly/relative.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quickly/relative.py b/quickly/relative.py
index c609089..a3b1064 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -22,6 +22,8 @@
 Utilities and functions to manipulate music written in relative pitches.
 """
 
+import itertools
+
 from .dom import edit, lily, util
 from .pitch import Pitch, PitchProcessor
 
@@ -234,6 +236,13 @@ class Abs2rel(edit.Edit):
                     for n in processor.follow_language(n // (lily.Language, lily.Include)):
                         pass
 
+        # don't change music that is in a \relative or \fixed command already
+        for n in itertools.chain((r.ancestor(),), r.ancestor().ancestors()):
+            if isinstance(n, (lily.Relative, lily.Fixed)):
+                return
+            elif isinstance(n, (lily.Absolute, lily.Markup)):
+                break
+
         # Do it!
         abs2rel()
 
-- 
2.43.0


From e1ac7f7f01ee169f9e344cab81ec7654a5e38df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 062/127] fix: insert new nodes at the right place when editing
 a selection

---
 quickly/dom/edit.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index f01f292..f6aa73a 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -112,14 +112,13 @@ class Edit:
             start_node = d.find_descendant_right(cursor.pos)
             end_node = d.find_descendant_left(cursor.end)
             if start_node and end_node and start_node.pos < end_node.end:
-                start = start_node.pos
-                end = end_node.end
                 while len(end_node):    # all descendants are in the selection
                     end_node = end_node[-1]
                 r = Range.from_nodes(start_node, end_node, self.range_from_root)
                 if r.ancestor() is start_node:  # include the start node itself
                     r = Range.from_nodes(start_node, end_node, True)
-                end = min(end, r.ancestor().end)
+                if not r.ancestor().is_root():
+                    start, end = r.ancestor().pos, r.ancestor().end
             else:
                 r = Range(d, None, [])  # no nodes in the selection
         elif self.range_from_cursor:
-- 
2.43.0


From 2889eddd313388cec6eac26b8968d143ad8a78ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 063/127] fix: make \relative music inside \fixed music
 \absolute

---
 quickly/relative.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index a3b1064..45878f2 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -106,15 +106,10 @@ class Rel2abs(edit.Edit):
             else:
                 last_pitch = Pitch(0, 0, 0)
 
-            # the meaning of absolute pitches can depend on a command that's still there
-            offset = 0
+            # keep absolute pitches absolute if the music is in a command that's still there
             replacement = nodes
             for n in node << (lily.Absolute, lily.Fixed, lily.Relative, lily.Markup):
-                if isinstance(n, lily.Fixed):
-                    for pitch in n / lily.Pitchable:
-                        offset = processor.read_node(pitch).octave + 1
-                        break
-                elif isinstance(n, lily.Relative):
+                if isinstance(n, (lily.Fixed, lily.Relative)):
                     replacement = [lily.Absolute(*nodes)]
                 break
 
@@ -123,9 +118,7 @@ class Rel2abs(edit.Edit):
                 with processor.process(note) as p:
                     default_octave = p.octave - note.octave # the octave of the pitch name itself
                     p.make_absolute(last_pitch, default_octave)
-                    pitch = p.copy()
-                    p.octave -= offset
-                return pitch
+                return p
 
             parent[index:index+1] = replacement   # remove \relative node but keep its child(ren)
 
-- 
2.43.0


From effd21c4012effd9a160a11ff3a0561dcdc60d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 064/127] fix: find the pitch language before the selection
 that's made relative

---
 quickly/relative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 45878f2..fa150ab 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -210,7 +210,7 @@ class Abs2rel(edit.Edit):
 
     def edit_range(self, r):
         """Do the pitch conversion."""
-        processor, first_pitch_absolute = self._get_settings(r.ancestor())
+        processor, first_pitch_absolute = self._get_settings(r.start_node() or r.ancestor())
 
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
-- 
2.43.0


From b953f71924a8c22d0a10a4b51f94a45715d7fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 065/127] fix: rhythm edits: leave notes in chords alone, look
 past comments and commands before removing a duration

---
 quickly/rhythm.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 9df764c..f11f31c 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -32,7 +32,7 @@ or any :class:`~.dom.element.Element` node (DOM tree).
 import itertools
 
 
-from .dom import edit, lily, util
+from .dom import base, edit, element, lily, util
 from .duration import duration
 
 
@@ -43,6 +43,9 @@ class EditRhythm(edit.Edit):
         """Yield all Durable instances in range."""
         for n in r.nodes():
             if isinstance(n, lily.Durable):
+                # the notes in a chord have no duration of their own
+                if isinstance(n.parent, lily.ChordBody):
+                    continue
                 # skip \skip with music instead of duration (which is legal
                 # as of LilyPond 2.23.6)
                 if isinstance(n, lily.Skip) and not any(n / lily.Duration):
@@ -54,7 +57,7 @@ class EditRhythm(edit.Edit):
         """Return True if the duration of this node may be removed.
 
         A duration may not be removed if ``node.duration_required`` is True,
-        or when the node's right sibling has only the duration visible, such as
+        or when the node that follows has only the duration visible, such as
         is the case with an unpitched note or an empty lyric item.
 
         In that case, the current duration may not be removed, because the next
@@ -66,13 +69,15 @@ class EditRhythm(edit.Edit):
             return False
         elif any(node / lily.Articulations):
             return True
-        n = node.right_sibling()
-        if n:
-            if isinstance(n, lily.Unpitched):
-                return False
-            elif isinstance(n, lily.LyricItem) and n.duration_required:
-                return False
-        return True
+        # find the next node, unless something is closed first
+        while True:
+            for n in node.right_siblings():
+                if not isinstance(n, base.Comment):
+                    return not (isinstance(n, (lily.Unpitched, lily.LyricItem))
+                                and n.duration_required)
+            node = node.parent
+            if node is None or isinstance(node, element.BlockElement):
+                return True
 
     def edit_range(self, r):
         """Perform our operations on all Durables in the range."""
-- 
2.43.0


From f71fec822e6fcb6502dc40541e1ad750494047fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 066/127] fix: bass figures take time

---
 quickly/dom/lily.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 56ecf9a..53dde2a 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2475,13 +2475,15 @@ class MarkupScoreLines(MarkupScore):
     head = r"\score-lines {"
 
 
-class Figure(Music):
+class Figure(Durable):
     """A bass figure in figure mode.
 
     Always has one FigureBody child, which contains the numbers etc.
     Can also have a duration child.
 
     """
+    def child_order(self):
+        yield FigureBody, Duration, Articulations, base.Comment
 
 
 class FigureBody(element.BlockElement):
-- 
2.43.0


From ed2f7fefaf409ae0c215eb742de24ce608c3379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 067/127] fix: a duration after \rest or chord modifiers is a
 new (unpitched) note

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index a6e9b3c..179ec28 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -990,7 +990,7 @@ class MusicBuilder:
         r"""Called for ``Number.Duration``."""
         if token.text.isdigit() and self.add_tweak(self.factory(lily.Int, (token,))):
             return
-        if self._duration or self._articulations:
+        if self._duration or self._articulations or self._modifier:
             yield from self.pending_music()
         self._duration = [token]
 
-- 
2.43.0


From ce58d809a6304a2133c8bd762f2d3696b33809d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 068/127] fix: rhythm copy: the duration of \skip is not
 repeated

---
 quickly/rhythm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index f11f31c..e11c57f 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -266,11 +266,13 @@ class CopyRhythm(EditRhythm):
                 prev = None
                 for n in self.durables(r):
                     dur = n.duration_scaling
-                    if dur:
+                    if not dur:
+                        if not prev:
+                            prev = lily.previous_duration(n)
+                        dur = prev
+                    elif n.duration_sets_previous:
                         prev = dur
-                    elif not prev:
-                        prev = lily.previous_duration(n)
-                    yield prev
+                    yield dur
             return list(durations())
         return [n.duration_scaling for n in self.durables(r)]
 
-- 
2.43.0


From 74ee87a0e7da64052f848c12ad59f5ad57f2174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 069/127] fix: keep a comment after \rest and an articulation
 at its place

---
 quickly/lang/lilypond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 179ec28..68b3de7 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1309,12 +1309,12 @@ class MusicBuilder:
         Comments are preserved as good as possible.
 
         """
-        if self._modifier:
-            self._modifier.append(obj)
-        elif self._events:
+        if self._events:
             self._events[-1].append(obj)
         elif self._articulations:
             self._articulations.append(obj)
+        elif self._modifier:
+            self._modifier.append(obj)
         elif not self._music and not self._duration:
             # no pending music
             yield from self.pending_music()
-- 
2.43.0


From 872d793b8f5341b17642a3db9d6b88587069e78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 070/127] fix: don't lose the end of the selection when adding
 durations

---
 quickly/rhythm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index e11c57f..b56ecbf 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -40,8 +40,13 @@ class EditRhythm(edit.Edit):
     """Base class for rhythm editing operations."""
     @staticmethod
     def durables(r):
-        """Yield all Durable instances in range."""
-        for n in r.nodes():
+        """Yield all Durable instances in range.
+
+        The nodes are collected first, because the range can lose track when
+        durations are added or removed.
+
+        """
+        for n in list(r.nodes()):
             if isinstance(n, lily.Durable):
                 # the notes in a chord have no duration of their own
                 if isinstance(n.parent, lily.ChordBody):
-- 
2.43.0


From 69deca7109d5ae472418ae2ea7546f1fb9d30b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 071/127] fix: read the duration of a lyric item after a
 comment

---
 quickly/lang/lilypond.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 68b3de7..8007f33 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -605,21 +605,30 @@ class LilyPondTransform(base.Transform):
 
         """
         p = None
+        comments = []   # between a LyricItem and its duration
         for n in nodes:
-            if isinstance(n, lily.Unpitched):
+            if p and isinstance(n, base.Comment):
+                comments.append(n)
+                continue
+            elif isinstance(n, lily.Unpitched):
                 p = p or lily.LyricItem()
+                p.extend(comments)
                 p.extend(n)
                 yield p
             else:
                 if p:
                     yield p
+                    yield from comments
+                    comments.clear()
                 if isinstance(n, (lily.String, lily.Symbol, lily.Scheme, lily.Markup)):
                     p = lily.LyricItem(n)
                     continue
                 yield n
             p = None
+            comments.clear()
         if p:
             yield p
+            yield from comments
 
     # dispatchers for common types
     _pitch = Dispatcher()
-- 
2.43.0


From 3a2ad8806b135b1575a8a7b0f91fd25b43ffdae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 072/127] fix: an undefined variable has no length

---
 quickly/time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quickly/time.py b/quickly/time.py
index 05b9a0b..8d8c160 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -352,9 +352,12 @@ class TimeContext:
         Returns 0 if the node can't be found or is no music.
 
         """
-        node, scope = node.get_value_with_scope(self.time.scope, self.time.wait)
+        scope = self.time.scope
         while isinstance(node, lily.Reference):
-            node, scope = node.get_value_with_scope(scope, self.time.wait)
+            result = node.get_value_with_scope(scope, self.time.wait)
+            if not result:
+                return 0
+            node, scope = result
         if isinstance(node, lily.Music):
             time = type(self.time)(scope, self.time.wait)
             return node.time_length(self.enter(node, time), None)
-- 
2.43.0


From 63d826dd7e6faf0ea374d1757d458f10a579cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 073/127] fix: no musical position when there is nothing right
 of the cursor

---
 quickly/time.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quickly/time.py b/quickly/time.py
index 8d8c160..5c9273d 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -247,9 +247,10 @@ class Time:
         dom = cursor.document().get_transform(self.wait)
         if dom:
             node = dom.find_descendant_right(cursor.pos)
-            c = self._music_child(node)
-            if c:
-                return self.position(c)
+            if node:
+                c = self._music_child(node)
+                if c:
+                    return self.position(c)
 
     def cursor_duration(self, cursor):
         """Return a :class:`Result` two-tuple(node, time) or None.
-- 
2.43.0


From cb4dc7e0da2ce54ad70b3b220e50b1b91b424180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 074/127] fix: Reference.get_value: pass the wait argument on

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 53dde2a..a763d86 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -423,7 +423,7 @@ class Reference(element.Element):
         :meth:`get_value_with_scope`.
 
         """
-        result = self.get_value_with_scope(scope)
+        result = self.get_value_with_scope(scope, wait)
         if result:
             return result[0]
 
-- 
2.43.0


From a6c3f95938a9d78185a4585540031317de5d330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 075/127] fix: musical length of repeats and alternatives

---
 quickly/dom/lily.py | 64 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index a763d86..45ba007 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -28,7 +28,7 @@ import fractions
 import itertools
 import re
 
-from .. import duration, pitch
+from .. import datatypes, duration, pitch
 from . import base, element, scm
 
 
@@ -1298,10 +1298,52 @@ class Transpose(element.HeadElement, Music):
 
 
 class Repeat(element.HeadElement, Music):
-    """Repeated music."""
+    """Repeated music.
+
+    Has a Symbol child (the type), a number, a music expression and optionally
+    an Alternative child.
+
+    """
     head = r'\repeat'
     space_between = space_after_head = " "
 
+    def is_sequential(self):
+        """Return True: the alternatives follow the music."""
+        return True
+
+    def repeat_count(self):
+        """The number of times this music is played if the repeats are unfolded."""
+        for value in filter_map(get_int_value, self):
+            return value
+        return 1
+
+    def unfolded(self):
+        """Return True if every repetition takes time.
+
+        This is the case for the ``unfold``, ``percent`` and ``tremolo`` types.
+
+        """
+        return any(n.head in ('unfold', 'percent', 'tremolo') for n in self / (Symbol, String))
+
+    def properties(self):
+        """Make the ``repeat_count`` available in :meth:`time_length`, None if
+        the repeats do not take time."""
+        return datatypes.Properties(
+            repeat_count=self.repeat_count() if self.unfolded() else None)
+
+    def time_length(self, context, end=None):
+        """Return the length of this expression, using a
+        :class:`~.time.TimeContext` handler.
+
+        Reimplemented to add the length of the repetitions.
+
+        """
+        length = super().time_length(context, end)
+        if end is None and self.unfolded():
+            length += (self.repeat_count() - 1) * sum(
+                context.length(n) for n in self if not isinstance(n, Alternative))
+        return length
+
     def signatures(self):
         yield Symbol, INT, MUSIC
         yield Symbol, INT, MUSIC, Alternative
@@ -1312,6 +1354,24 @@ class Alternative(element.HeadElement, Music):
     head = r'\alternative'
     space_between = space_after_head = " "
 
+    def time_length(self, context, end=None):
+        """Return the length of this expression, using a
+        :class:`~.time.TimeContext` handler.
+
+        Reimplemented to use every alternative as often as it is played if the
+        repeats take time: if there are less alternatives than repeats, the
+        first one is used more than once.
+
+        """
+        count = context.properties.repeat_count
+        if end is None and count:
+            for music in self / MusicList:
+                context = context.enter(music)
+                alts = [n for n in music if isinstance(n, (Music, Reference))]
+                first = [alts[0]] * (count - len(alts)) if alts else []
+                return sum(context.length(n) for n in (first + alts)[:count])
+        return super().time_length(context, end)
+
     def signatures(self):
         yield MusicList,
 
-- 
2.43.0


From c314e590c4a7261ed250aa8a3798b5de55799b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 076/127] fix: musical duration between two nodes in scaled
 music

---
 quickly/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/time.py b/quickly/time.py
index 5c9273d..53edb52 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -221,9 +221,9 @@ class Time:
         # common part, just follow transform
         index = -1
         for index, (pos, end) in enumerate(zip(start_trail, end_trail)):
-            context = context.enter(node)
             if pos != end:
                 break
+            context = context.enter(node)
             node = node[pos]
         else:
             index += 1
-- 
2.43.0


From 9b18ca94881fe08fe1007faf4c379e7c79bda21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 077/127] fix: tagged music takes time

---
 quickly/dom/lily.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 45ba007..26e0a42 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1224,7 +1224,7 @@ class ApplyContext(element.HeadElement):
         yield Scheme,
 
 
-class ApplyMusic(element.HeadElement):
+class ApplyMusic(element.HeadElement, Music):
     r"""The ``\applyMusic`` function."""
     space_between = space_after_head = " "
     head = r'\applyMusic'
@@ -2604,7 +2604,7 @@ class FigureAlteration(element.MappingElement):
     }
 
 
-class Tag(element.HeadElement):
+class Tag(element.HeadElement, Music):
     r"""A ``\tag`` command."""
     space_after_head = space_between = " "
     head = r'\tag'
@@ -2613,7 +2613,7 @@ class Tag(element.HeadElement):
         yield (Symbol, String, Scheme), MUSIC
 
 
-class KeepWithTag(element.HeadElement):
+class KeepWithTag(element.HeadElement, Music):
     r"""A ``\keepWithTag`` command."""
     space_after_head = space_between = " "
     head = r'\keepWithTag'
@@ -2622,7 +2622,7 @@ class KeepWithTag(element.HeadElement):
         yield (Symbol, String, Scheme), MUSIC
 
 
-class RemoveWithTag(element.HeadElement):
+class RemoveWithTag(element.HeadElement, Music):
     r"""A ``\removeWithTag`` command."""
     space_after_head = space_between = " "
     head = r'\removeWithTag'
-- 
2.43.0


From 0cfd738c7ff72b6ef347ee9cddf45cbd142351c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 078/127] fix: musical duration of a selection up to the end of
 an assignment

---
 quickly/time.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/time.py b/quickly/time.py
index 53edb52..87a5869 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -271,6 +271,9 @@ class Time:
                     start_node = self._music_child(n)
                     if start_node:
                         n = dom.find_descendant_left(end)
+                        # enter e.g. an assignment, when its value is selected
+                        while n and not isinstance(n, lily.Music) and len(n) and n[-1].end == n.end:
+                            n = n[-1]
                         if n:
                             end_node = self._music_child(n)
                             if end_node:
-- 
2.43.0


From 62a18d16f1b301ccf24d24e1082645bf22178408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 079/127] fix: set the parent of nodes added with +=

---
 quickly/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/node.py b/quickly/node.py
index 697c03f..8787bec 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -327,6 +327,11 @@ class Node(Common, list):
         for node in self[index:]:
             node._parent = weakref.ref(self)
 
+    def __iadd__(self, nodes):
+        """Append nodes to this node; the parent is set to this node."""
+        self.extend(nodes)
+        return self
+
     def insert(self, index, node):
         """Insert node in this node; the parent is set to this node."""
         node._parent = weakref.ref(self)
-- 
2.43.0


From 4b20af4bb5abb4a98f9486a43f7d503efb7c8417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 080/127] fix: no nodes are in an empty range

---
 quickly/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 8787bec..81b0088 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -856,7 +856,7 @@ class Range(Common):
 
         """
         return (not self.start_trail or trail >= self.start_trail[:len(trail)]) \
-           and (not self.end_trail or trail <= self.end_trail[:len(trail)])
+           and (self.end_trail is None or trail <= self.end_trail[:len(trail)])
 
     def intersects(self, node):
         """Return True if the node is partially or completely in our range.
@@ -1153,6 +1153,8 @@ class Range(Common):
         of the just yielded node will not be yielded.
 
         """
+        if not self:
+            return
         self._goto_trail(self.start_trail)
         if self.start_trail:
             node = self.node
-- 
2.43.0


From 392067ad39f16b5cb6da39e472dfe9ba46e6824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 081/127] fix: boundaries and iteration of a range when its
 nodes are replaced

---
 quickly/node.py | 110 ++++++++++++++++++++++++++----------------------
 1 file changed, 60 insertions(+), 50 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index 81b0088..e2629f7 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -756,10 +756,12 @@ class Range(Common):
         return cls(ancestor, start_trail, end_trail)
 
     def start_node(self):
-        """The start node, if specified."""
+        """The start node, if specified (and not removed)."""
         if self.start_trail is not None:
             n = self.ancestor()
             for i in self.start_trail:
+                if i >= len(n):
+                    return None
                 n = n[i]
             return n
 
@@ -773,7 +775,9 @@ class Range(Common):
 
     def copy(self):
         """Return a clean copy of this Range, initialized at the same ancestor."""
-        return type(self)(self.ancestor(), self.start_trail, self.end_trail)
+        start_trail = None if self.start_trail is None else list(self.start_trail)
+        end_trail = None if self.end_trail is None else list(self.end_trail)
+        return type(self)(self.ancestor(), start_trail, end_trail)
 
     def from_here(self):
         """Return a new Range, starting at the current :attr:`node`.
@@ -906,71 +910,77 @@ class Range(Common):
                 raise ValueError("can't use step other than 1 in slice")
             value = tuple(value)
             index, end, _ = i.indices(len(level.node))
-            removed = end - index
+            removed = max(0, end - index)
             added = len(value)
-            length = len(level.node) + added - removed
-
-            if length == 0:
-                # node has become empty
-                level.start = 0
-                level.index = -1
-                level.end = -1
-                if level.start_trail:
-                    level.start_trail[level.depth:] = [0]
-                if level.end_trail:
-                    del level.end_trail[level.depth:]
-            else:
-                # adjust start boundary if needed
-                if index <= level.start:
-                    if index + removed > level.start:
-                        level.start = index + added
-                        if adjust_start:
-                            # deleted node was on the start trail, truncate
-                            del level.start_trail[level.depth:]
-                            if 0 < level.start < length:
-                                level.start_trail.append(level.start)
-                    else:
-                        level.start += added - removed
-                        if adjust_start:
-                            level.start_trail[level.depth] = level.start
+            level.node[i] = value
+
+            # adjust start boundary if needed
+            if adjust_start and index <= level.start:
+                if index + removed > level.start:
+                    # deleted node was on the start trail, truncate
+                    level.start = index
+                    level.start_trail[level.depth:] = [index]
+                    self._normalize_start()
+                else:
+                    level.start += added - removed
+                    level.start_trail[level.depth] = level.start
 
-                # adjust end boundary
+            # adjust end boundary
+            if adjust_end:
                 if index <= level.end:
                     if index + removed > level.end:
-                        level.end = index + added
-                        if adjust_end:
-                            # deleted node was on the end trail, truncate
-                            del level.end_trail[level.depth:]
-                            if level.end < length:
-                                level.end_trail.append(level.end)
+                        # deleted node was on the end trail, truncate
+                        level.end = index + added - 1
+                        del level.end_trail[level.depth:]
+                        if level.end >= 0:
+                            level.end_trail.append(level.end)
+                            if not added:
+                                # the range now ends with the preceding node
+                                node = level.node[level.end]
+                                while len(node):
+                                    level.end_trail.append(len(node) - 1)
+                                    node = node[-1]
                     else:
                         level.end += added - removed
-                        if adjust_end:
-                            level.end_trail[level.depth] = level.end
-                elif length and level.end == -1 and level.end_trail is None:
-                    # end can be -1 if node was empty or because of empty end trail,
-                    # in this case it was because the node was empty, just move the end
-                    level.end = length - 1
-
-                # adjust level index
-                if index <= level.index:
-                    if index + removed > level.index:
-                        level.index = index + added
-                    else:
-                        level.index += added - removed
+                        level.end_trail[level.depth] = level.end
+            elif level.end_trail is None:
+                level.end = len(level.node) - 1
+
+            # adjust level index; iteration continues after the new nodes
+            if index <= level.index:
+                if index + removed > level.index:
+                    level.index = index + added - 1
+                else:
+                    level.index += added - removed
         else:
             # just replace node at i
+            if i < 0:
+                i += len(level.node)
             if adjust_start and i == level.start:
                 del level.start_trail[level.depth+1:]
             if adjust_end and i == level.end:
                 del level.end_trail[level.depth+1:]
+            level.node[i] = value
 
-        level.node[i] = value
+    def _normalize_start(self):
+        """(Internal) Let the start trail point to the next node if there is no
+        node at its end anymore.
+
+        If there is no next node, the range becomes empty.
+
+        """
+        trail = self.start_trail
+        for level in reversed(self._stack[:len(trail)]):
+            if level.start < len(level.node) or level.depth == 0:
+                break
+            trail.pop()
+            trail[-1] += 1
+            self._stack[level.depth-1].start += 1
 
     def __delitem__(self, i):
         """Delete Node(s) at index or slice. Slice step must be None or 1."""
         if not isinstance(i, slice):
-            i = slice(i, i+1)
+            i = slice(i, i + 1 or None)
         self[i] = ()
 
     @property
-- 
2.43.0


From 78353ff45604da29c39d61da595d4f7a64b1981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 082/127] fix: other end of a spanner with a direction after
 the id, or with nested contexts

---
 quickly/dom/lily.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 26e0a42..2fa9b52 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -746,22 +746,35 @@ class Spanner(element.MappingElement):
             <lily.Slur 'stop' [24:25]>
 
         """
-        upto = next(self << (Assignment, New, Document, Score), None)
+        container = lambda n: next(n << (Assignment, New, Document, Score), None)
+        upto = container(self)
         nodes = self.forward(upto) if self.head == "start" else self.backward(upto)
         if limit:
             nodes = itertools.islice(nodes, limit)
         cls, head = type(self), self.head
-        parallel = lambda n: type(n) is cls and n.head != head
+        parallel = lambda n: type(n) is cls and n.head != head and container(n) is upto
 
-        spanner_id = self.left_sibling() if isinstance(self.parent, SpannerId) else None
+        spanner_id = self._spanner_id()
         if spanner_id:
-            spanner_ok = lambda n: isinstance(n.parent, SpannerId) and spanner_id.equals(n.left_sibling())
+            spanner_ok = lambda n: spanner_id.equals(n._spanner_id())
         else:
-            spanner_ok = lambda n: not isinstance(n.parent, SpannerId)
+            spanner_ok = lambda n: not n._spanner_id()
 
         for n in filter(lambda n: parallel(n) and spanner_ok(n), nodes):
             return n
 
+    def _spanner_id(self):
+        r"""Return the node with the spanner id (see :class:`SpannerId`) if specified.
+
+        There may be a direction and/or tweaks between the id and the spanner.
+
+        """
+        for n in self.ancestors():
+            if isinstance(n, SpannerId):
+                return next(n ^ base.Comment, None)
+            if not isinstance(n, (Direction, Tweak)):
+                break
+
 
 class Block(HandleAssignments, element.BlockElement):
     """Base class for a block, e.g. score, paper, etc.
-- 
2.43.0


From b4ef531609ef6286fac44ac139e6bf5e0b67f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 083/127] fix: variables: IdentifierRef.with_name, comment
 after the equal sign, same name twice

---
 quickly/dom/lily.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 2fa9b52..b54f8ee 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -511,11 +511,15 @@ class _ConvertUnpitchedToInt(element.Element):
 class HandleAssignments(element.Element):
     """Mixin class to handle Assignment children in a convenient way."""
     def find_assignment(self, name):
-        """Find the Assignment with the specified name."""
-        for n in self/Assignment:
-            for v in n/Identifier:
-                if v.get_name() == name:
-                    return n
+        """Find the Assignment with the specified name.
+
+        If there are more, the last one is returned, because that's the one
+        that is in effect.
+
+        """
+        for n in reversed(self):
+            if isinstance(n, Assignment) and n.get_name() == name:
+                return n
 
     def get_variable(self, name):
         """Convenience method to find the value of the named variable.
@@ -565,14 +569,15 @@ class HandleAssignments(element.Element):
 
         """
         assignment = self.find_assignment(name)
-        if assignment:
+        while assignment:
             self.remove(assignment)
+            assignment = self.find_assignment(name)
 
     def variables(self):
         """Convenience method to return a list of the available variable names."""
-        return list(v.get_name()
+        return list(dict.fromkeys(v.get_name()
             for n in self/Assignment
-                for v in n/Identifier)
+                for v in n/Identifier))
 
 
 class Document(HandleAssignments, base.Document):
@@ -1035,7 +1040,9 @@ class Assignment(element.Element):
     def get_value(self):
         """Return the value after the equalsign."""
         for child in self / EqualSign:
-            return child.right_sibling()
+            for node in child.right_siblings():
+                if not isinstance(node, base.Comment):
+                    return node
 
 
 class Identifier(List):
@@ -1114,7 +1121,7 @@ class IdentifierRef(base.BackslashCommand, Reference):
         simple symbol.
 
         """
-        v = cls()
+        v = cls('')
         v.set_name(name)
         return v
 
-- 
2.43.0


From d968794ab8b36848253eeb66f1dd1f5a48fd8e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 084/127] fix: Key.key_signature with a variable for the mode

---
 quickly/dom/lily.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index b54f8ee..6b51633 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2249,8 +2249,10 @@ class Key(element.HeadElement, Music):
                 elif isinstance(n, Mode):
                     mode = n.head
                 elif isinstance(n, IdentifierRef):
-                    scope, n = n.get_value_with_scope(scope, wait)
-                    continue
+                    result = n.get_value_with_scope(scope, wait)
+                    if result:
+                        n, scope = result
+                        continue
                 elif isinstance(n, Scheme):
                     for n in n // scm.List:
                         mode = [n.head for n in n / scm.Number]
-- 
2.43.0


From 0cdfedb35903857e1364b8d5abdc2dd433170df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 085/127] fix: Scope: an empty include file is also found

---
 quickly/dom/scope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index 1bdcda1..16e4dbd 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -91,7 +91,7 @@ class Scope:
         """
         for u in self.urls(url):
             doc = self.get_document(u)
-            if doc:
+            if doc is not None:
                 return type(self)(doc, self, self.factory, node)
 
     def ancestors(self):
-- 
2.43.0


From 134f1d68027ad189a23bdb0bd9478c0137ccbff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 086/127] fix: align indented lines with the child of the
 block, not with a grandchild

---
 quickly/dom/indent.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index b8a59cf..f9b66dd 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -140,8 +140,9 @@ class Indenter:
     def output_node(self, node, index=-1):
         """*(Internal.)* Output one node and its children.
 
-        The index, if given, is the index of this node in its parent. This is
-        used to get additional indenting hints for the node.
+        The index, if given, is the index of this node in its parent, if that
+        indents its children. This is used to get additional indenting hints
+        for the node.
 
         """
         head = node.write_head()
@@ -161,10 +162,12 @@ class Indenter:
 
         if has_children:
             n = node[0]
-            self.output_node(n, 0)
+            # only a direct child of an indenting node can be aligned with; if
+            # that child has no head text, its first child represents it
+            self.output_node(n, 0 if indent else -1 if head else index)
             for i, m in enumerate(node[1:], 1):
                 self.add_whitespace(node.concat_space(n, m))
-                self.output_node(m, i)
+                self.output_node(m, i if indent else -1)
                 n = m
 
         if indent:
-- 
2.43.0


From 48207b0cda9383daffaae280fbca76f5424e51af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 087/127] fix: align indented lines correctly when the first
 node has space before

---
 quickly/dom/indent.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index f9b66dd..821736c 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -228,6 +228,9 @@ class Indenter:
 
     def output_space(self):
         """*(Internal.)* Output whitespace. Newlines start a new output line."""
+        if not any(block.line for block in self._output):
+            # no whitespace at the start, it would also influence the alignment
+            self._whitespace.clear()
         for c in util.collapse_whitespace(self._whitespace):
             if c == '\n':
                 self.create_new_block()
-- 
2.43.0


From a2892f34b192f9a37e2e6b2b5b90757690226639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 088/127] fix: align indented lines correctly after a block was
 closed on the previous line

---
 quickly/dom/indent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index 821736c..79264c3 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -210,14 +210,15 @@ class Indenter:
 
         if self._indenters:
             # add new indent levels
-            new_indent = current_indent = self.current_indent()
+            new_indent = self.current_indent()
+            line_indent = self._output[-1].indent
             for i in self._indenters:
                 new_indent += self.indent_width
                 pos = i.get_align_pos()
                 if pos is not None:
                     align_indent = self._output[-1].offset(pos)
                     if align_indent <= self.max_align_indent:
-                        new_indent = current_indent + align_indent
+                        new_indent = line_indent + align_indent
                 self._indent_stack.append(new_indent)
             self._indenters.clear()
 
-- 
2.43.0


From 77dabb61627631478e26eaa432413dbef1b12d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 089/127] fix: add_newlines: ignore newlines inside text,
 support missing closing delimiter

---
 quickly/dom/util.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index f221163..baa6d49 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -113,9 +113,11 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
         except AttributeError:
             pass
         else:
-            s = get_newlines(head_origin[0].pos)
-            if s and whitespace_key(s) > whitespace_key(node.space_before):
-                node.space_before = s
+            if head_origin:
+                s = get_newlines(head_origin[0].pos)
+                if s and whitespace_key(s) > whitespace_key(node.space_before):
+                    node.space_before = s
+                get_newlines(head_origin[-1].end)   # skip newlines in the text
 
         for n in node:
             handle_node(n)
@@ -125,9 +127,11 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
         except AttributeError:
             pass
         else:
-            s = get_newlines(tail_origin[0].pos)
-            if s and whitespace_key(s) > whitespace_key(node.space_before_tail):
-                node.space_before_tail = s
+            if tail_origin:
+                s = get_newlines(tail_origin[0].pos)
+                if s and whitespace_key(s) > whitespace_key(node.space_before_tail):
+                    node.space_before_tail = s
+                get_newlines(tail_origin[-1].end)
 
     current_block = -1
     next_block()
-- 
2.43.0


From a744ccd0d7cde46162b1315ec28638c266c349f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 090/127] fix: write a newline after a new singleline comment
 before existing text

---
 quickly/dom/element.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 1924157..02437a8 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -622,7 +622,7 @@ class Element(Node, metaclass=ElementType):
         return combine_text(
             (p.space_before, p.text(), p.space_after) for p in self.points())[1]
 
-    def edits(self, context, start=None, end=None):
+    def edits(self, context, start=None, end=None, source=None):
         """Yield three-tuples (pos, end, text) denoting text changes.
 
         The ``context`` is a parce Context. If ``start`` and/or ``end`` are not
@@ -630,21 +630,27 @@ class Element(Node, metaclass=ElementType):
         modified text fragments will still be written to the document, but no
         text outside the specified range will be deleted.
 
+        The ``source`` is the original text. If specified, it is used to see
+        whether there is a newline after new elements that need one, such as a
+        singleline comment.
+
         """
         pos = context.pos if start is None else start
         end = context.end if end is None else end
         tokens = context.tokens()
         insert_after = ''
         changed = False     # True when the previous fragment is new or modified
+        new = False         # True when the previous fragment is new
         for point in self.points():
             space = collapse_whitespace((insert_after, point.space_before))
+            newline = new and source is not None and '\n' in insert_after
             if point.pos is None:
                 # new element
                 text = point.text()
                 if text:
                     yield pos, pos, space + text
                     insert_after = point.space_after
-                    changed = True
+                    changed = new = True
             else:
                 # existing element
                 if point.pos > pos:
@@ -659,11 +665,15 @@ class Element(Node, metaclass=ElementType):
                         del_end = t.end
                     if del_end > del_pos:
                         if del_end < pos:
-                            if attached:
+                            if newline and '\n' not in source[del_end:pos]:
+                                del_end = pos   # a newline is needed after the new element
+                            elif attached:
                                 space = ''      # the space after the deleted content remains
                             elif space:
                                 del_end = pos   # unparsed space can be ditched
                         yield del_pos, del_end, space
+                    elif newline and '\n' not in source[del_pos:pos]:
+                        yield del_pos, pos, space
                 elif space and changed:
                     # existing elements that touch are left alone
                     yield point.pos, point.pos, space
@@ -671,6 +681,7 @@ class Element(Node, metaclass=ElementType):
                 if point.modified:
                     yield point.pos, point.end, point.text()
                 changed = point.modified
+                new = False
                 pos = point.end
                 insert_after = point.space_after
         if pos < end:
@@ -696,7 +707,7 @@ class Element(Node, metaclass=ElementType):
             context = document.builder().root
         n = 0
         with document:
-            for pos, end, text in self.edits(context, start, end):
+            for pos, end, text in self.edits(context, start, end, document.text()):
                 document[pos:end] = text
                 n += 1
         return n
-- 
2.43.0


From 9b06b909f48205c1adad98873be675faa1ef1111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 091/127] fix: editing an empty document

---
 quickly/dom/edit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index f6aa73a..d6e3009 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -107,6 +107,8 @@ class Edit:
 
         """
         d = cursor.document().get_transform(True)
+        if d is None:
+            d = Element()   # a document that is still empty
         r = start = end = None
         if cursor.has_selection():
             start_node = d.find_descendant_right(cursor.pos)
-- 
2.43.0


From 2ed2fa8bbba5f54c367a0eb6035342f37aa3f5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 092/127] fix: write Html text without escaping characters that
 do not need it, read CDATA and comments correctly

---
 quickly/dom/htm.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 1ce2463..78ddf41 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -206,11 +206,26 @@ class Document(base.Document, Element):
 class Text(element.TextElement):
     """Html/Xml text contents (Text or Whitespace)."""
     def write_head(self):
-        return html.escape(self.head)
+        """Write the text, only escaping characters that would not be read back."""
+        if isinstance(self.parent, ProcessingInstruction):
+            return self.head
+        text = self.head.replace('&', '&amp;').replace('<', '&lt;').replace(']]>', ']]&gt;')
+        if isinstance(self.parent, DqString):
+            text = text.replace('"', '&quot;')
+        elif isinstance(self.parent, SqString):
+            text = text.replace("'", '&#x27;')
+        return text
 
 
 class Comment(base.MultilineComment):
     """A Html/Xml comment node."""
+    @classmethod
+    def read_head(cls, origin):
+        end = -1 if len(origin) > 1 and origin[-1] == '-->' else None
+        return ''.join(t.text for t in origin[1:end])
+
+    def write_head(self):
+        return '<!--{}-->'.format(self.head)
 
 
 class EntityRef(element.TextElement):
@@ -235,12 +250,13 @@ class CData(element.TextElement):
     """
     @classmethod
     def read_head(cls, origin):
-        return origin[1]
+        end = -1 if len(origin) > 3 and origin[-1] == ']]>' else None
+        return ''.join(t.text for t in origin[3:end])
 
     def write_head(self):
         # handle the unlikely case literal ']]>' is in text
-        text = self.head.replace(']]>', ']]>]]&gt;<[CDATA[')
-        return "<[CDATA[{}]]>".format(text)
+        text = self.head.replace(']]>', ']]>]]&gt;<![CDATA[')
+        return "<![CDATA[{}]]>".format(text)
 
 
 class String(element.BlockElement):
-- 
2.43.0


From 6bd29a2b4905e22411f56349a266c3359a7da0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 093/127] fix: keep comments, CDATA and processing instructions
 in Html, read Html with style, script or doctype

---
 quickly/dom/read.py  | 4 +++-
 quickly/lang/html.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/read.py b/quickly/dom/read.py
index 86f30d1..24ddd1b 100644
--- a/quickly/dom/read.py
+++ b/quickly/dom/read.py
@@ -37,6 +37,7 @@ scratch.)
 """
 
 
+import parce
 from parce.transform import Transformer
 
 from ..lang import (
@@ -108,7 +109,8 @@ def htm_document(text, with_origin=False):
                ╰╴<htm.TagName 'html' [36:40]>
 
     """
-    return _transformer[with_origin].transform_text(html.Html.root, text)
+    # use transform_tree(), because transform_text() fails on untransformed contexts
+    return _transformer[with_origin].transform_tree(parce.root(html.Html.root, text))
 
 
 def htm(text, with_origin=False):
diff --git a/quickly/lang/html.py b/quickly/lang/html.py
index de80309..8592897 100644
--- a/quickly/lang/html.py
+++ b/quickly/lang/html.py
@@ -237,6 +237,8 @@ class HtmlTransform(base.Transform):
                 nodes[-1].extend(items[i].obj) # add contents and CloseTag
             elif items[i].name == "html_lilypond_tag":
                 nodes[-1].extend(items[i].obj[0]) # add contents and CloseTag
+            elif isinstance(items[i].obj, element.Element):
+                nodes.append(items[i].obj) # comment, cdata section or processing instruction
             i += 1
         return nodes
 
-- 
2.43.0


From 1e93f31b69238227286153cd0744d4665edb7867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 094/127] fix: broken LilyPond at the end of a Html tag or
 Latex environment

---
 quickly/lang/lilypond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 8007f33..94490c2 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -370,12 +370,12 @@ class LilyPondTransform(base.Transform):
         Returns a two-tuple: ``([list of elements], tail_origin)``.
 
         """
+        tail_origin = ()
+        close_tag = None
         if items:
             if items[-1] == '/>':
                 tail_origin = (items.pop(),)
-                close_tag = None
             elif items.peek(-3, a.Delimiter, a.Name.Tag, a.Delimiter):
-                tail_origin = ()
                 close_tag = self.factory(htm.CloseTag, items[-3:-2], items[-1:], self.factory(htm.TagName, items[-2:-1]))
                 del items[-3:]
         nodes = [lily.Document(*self.handle_assignments(self.create_music(items)))]
@@ -403,7 +403,7 @@ class LilyPondTransform(base.Transform):
             end = self.factory(tex.Command, items[-4:-3])
             end.append(self.factory(tex.EnvironmentName, items[-3:]))
             items = items[:-4]
-        elif items[-1] == '}' and items[-1].action is a.Delimiter.Brace:
+        elif items.peek(-1, a.Delimiter.Brace) and items[-1] == '}':
             # short form \lilypond { ... }
             tail_origin = (items.pop(),)
         nodes = [lily.Document(*self.handle_assignments(self.create_music(items)))]
-- 
2.43.0


From 9f670d8cd2076663f81fdafd3c06f675b910a710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:56 +0000
Subject: [PATCH 095/127] fix: don't add whitespace around Latex environments
 and comments that was not in the source

---
 quickly/dom/tex.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/tex.py b/quickly/dom/tex.py
index d3f34ff..07ee584 100644
--- a/quickly/dom/tex.py
+++ b/quickly/dom/tex.py
@@ -40,6 +40,10 @@ class Document(base.Document):
     """A full LaTeX source document."""
     space_between = ''
 
+    def concat_space(self, n, m):
+        """Reimplemented because text nodes have their own whitespace."""
+        return self.space_between
+
 
 class Option(element.BlockElement):
     """An option block: ``[`` ... ``]``."""
@@ -103,16 +107,17 @@ class Environment(element.Element):
     :meth:`EnvironmentName`.
 
     """
-    space_before = space_after = '\n'
-
     @classmethod
     def with_name(cls, name, *children, **kwargs):
         """Convenience method to create an :class:`Environment`.
 
         Zero or more child nodes can be specified, and keyboard arguments
-        are given to the constructor.
+        are given to the constructor. By default, the environment is put on
+        separate lines.
 
         """
+        kwargs.setdefault('space_before', '\n')
+        kwargs.setdefault('space_after', '\n')
         return cls(
             Command('begin', EnvironmentName(name), space_after='\n'),
             *children,
@@ -139,6 +144,14 @@ class Comment(base.SinglelineComment):
     r"""A singleline comment after ``%``."""
     space_after = '\n'
 
+    def head_point(self):
+        """Don't add a newline if the text that follows already has it."""
+        point = super().head_point()
+        text = self.right_sibling()
+        if isinstance(text, Text) and text.head.startswith('\n'):
+            point = point._replace(space_after='')
+        return point
+
     @classmethod
     def read_head(cls, origin):
         return ''.join(t.text for t in origin[1:])
-- 
2.43.0


From e3a464b36ef5a33cf4ed59ce689e9cbd94311dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 096/127] fix: braces in Latex math

---
 quickly/lang/latex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index f33f8ba..51d1e15 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -172,6 +172,8 @@ class LatexTransform(base.Transform):
     def math(self, items):
         """Process the ``math`` context; return a Math node."""
         head = items[:1]
+        if head[0] == '{':
+            return self.brace(items)    # braced expression inside math
         cls = self._math_mapping[head[0].text]
         tail = (items.pop(),) if len(items) > 1 and items[-1] == cls.tail else ()
         return self.factory(cls, head, tail, *self.common(items[1:]))
-- 
2.43.0


From 2816cfc682c57766db6d4e03e9b0e0ef4ef0e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 097/127] fix: use the entity resolver in nested elements in
 htm.Element.to_plaintext()

---
 quickly/dom/htm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 78ddf41..4ae0e22 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -183,7 +183,7 @@ class Element(element.Element):
 
         def to_text(obj):
             if isinstance(obj, Element):
-                return obj.to_plaintext()
+                return obj.to_plaintext(entity_resolver)
             elif isinstance(obj, Text):
                 return obj.head
             elif isinstance(obj, EntityRef):
-- 
2.43.0


From e5e061384772a1d2860203d2c3e4bfc5828b45cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:36 +0000
Subject: [PATCH 098/127] fix: options in broken Latex, whitespace before the
 options of a lilypond environment

---
 quickly/lang/latex.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 51d1e15..3a03c23 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -98,19 +98,28 @@ class LatexTransform(base.Transform):
             # opening bracket of short form LilyPond command
             command_head = (items.pop(),)
         i = 0
-        if items.peek(0, a.Delimiter.Bracket) and items[0].text == '[':
-            # complete first Option node
-            head_origin = items[0:1]
+        nodes = []
+        if items.peek(1, a.Delimiter.Bracket) and items[1].text == '[' and \
+           items[0].is_token and items[0].text.isspace():
+            # whitespace before the opening bracket
+            nodes.append(self.factory(tex.Text, items[:1]))
             i = 1
+        if items.peek(i, a.Delimiter.Bracket) and items[i].text == '[':
+            # complete first Option node
+            head_origin = items[i:i+1]
+            i += 1
         else:
             head_origin = ()
-        nodes = []
         pos = i
         while True:
             try:
                 i = items.index(']', pos)
             except ValueError:
-                nodes.append(self.factory(tex.Option, head_origin, (), *self.common(items[pos:])))
+                if head_origin:
+                    nodes.append(self.factory(tex.Option, head_origin, (), *self.common(items[pos:])))
+                else:
+                    # incomplete source text, head is in a previous context
+                    nodes.append( (self.common(items[pos:]), ()) )
                 break
             tail_origin = items[i],
             if head_origin:
-- 
2.43.0


From 07357ad5c9ee409390cc5ad166f413e6dfae0fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:36 +0000
Subject: [PATCH 099/127] fix: don't drop dots and scaling when reading a
 duration as a number

---
 quickly/dom/lily.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 6b51633..ee0bc45 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -501,7 +501,7 @@ class _ConvertUnpitchedToInt(element.Element):
     """Mixin class to convert Unpitched arguments to an Int."""
     def add_argument(self, node):
         """Reimplemented to read the Duration of an Unpitched node as a Int."""
-        if isinstance(node, Unpitched):
+        if isinstance(node, Unpitched) and len(node) == 1:
             for dur in node / Duration:
                 node = convert_duration_to_int(dur) or node
                 break
@@ -3477,13 +3477,16 @@ def convert_duration_to_int(node):
     origin token was seen as a duration by parce and the music builder.
 
     """
+    if len(node):
+        return      # a duration with scaling is not a number
     try:
         try:
             origin = node.head_origin
         except AttributeError:
             return Int(int(node.write()))
         else:
-            return Int.with_origin(origin)
+            if len(origin) == 1:    # no dots
+                return Int.with_origin(origin)
     except ValueError:
         return    # cannot convert
 
-- 
2.43.0


From e02bd71c839e13cfcf72eebc5c052a153644fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:36 +0000
Subject: [PATCH 100/127] fix: unterminated strings in Html

---
 quickly/lang/html.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/html.py b/quickly/lang/html.py
index 8592897..a38ac5a 100644
--- a/quickly/lang/html.py
+++ b/quickly/lang/html.py
@@ -138,14 +138,14 @@ class HtmlTransform(base.Transform):
     def dqstring(self, items):
         """Process the ``dqstring`` context."""
         head_origin = items[0],
-        tail_origin = (items.pop(),) if items[-1] == '"' else ()
+        tail_origin = (items.pop(),) if len(items) > 1 and items[-1] == '"' else ()
         children = (self._action(t.action, t) for t in items[1:])
         return self.factory(htm.DqString, head_origin, tail_origin, *children)
 
     def sqstring(self, items):
         """Process the ``sqstring`` context."""
         head_origin = items[0],
-        tail_origin = (items.pop(),) if items[-1] == "'" else ()
+        tail_origin = (items.pop(),) if len(items) > 1 and items[-1] == "'" else ()
         children = (self._action(t.action, t) for t in items[1:])
         return self.factory(htm.SqString, head_origin, tail_origin, *children)
 
-- 
2.43.0


From e375703592c372276c628cecf2d5366d2aec9623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 101/127] fix: keep elements of broken LilyPond music in source
 order

---
 quickly/lang/lilypond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 94490c2..f3e8644 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -936,7 +936,7 @@ class MusicBuilder:
     @_token(r'\rest')
     def rest_token(self, token):
         r"""Called for ``\rest``."""
-        if isinstance(self._music, lily.Note):
+        if isinstance(self._music, lily.Note) and not self._articulations:
             # make it a positioned rest, reuse old pitch token if possible
             note = self._music
             self._music = rest = lily.PitchedRest(note.head, *note)
@@ -999,7 +999,7 @@ class MusicBuilder:
         r"""Called for ``Number.Duration``."""
         if token.text.isdigit() and self.add_tweak(self.factory(lily.Int, (token,))):
             return
-        if self._duration or self._articulations or self._modifier:
+        if self._duration or self._articulations or self._modifier or self._events:
             yield from self.pending_music()
         self._duration = [token]
 
@@ -1236,7 +1236,7 @@ class MusicBuilder:
     @_context("pitch")
     def pitch(self, obj):
         """Called for ``pitch`` context: octave, accidental, octavecheck and/or comment."""
-        if self._music:
+        if self._music and not (self._duration or self._modifier or self._articulations or self._events):
             self._music.extend(obj)
         else:
             # only happens in erronous LilyPond input, but at least we keep the object
-- 
2.43.0


From aa57bc3faa591ffeca6b2f3d4ce2baa0ba33d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 102/127] fix: Latex environments without a name

---
 quickly/dom/tex.py    |  1 +
 quickly/lang/latex.py | 14 +++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/tex.py b/quickly/dom/tex.py
index 07ee584..336f2f5 100644
--- a/quickly/dom/tex.py
+++ b/quickly/dom/tex.py
@@ -135,6 +135,7 @@ class EnvironmentName(element.TextElement):
         for t in origin:
             if t.text not in "{}":
                 return t.text
+        return ''
 
     def write_head(self):
         return '{' + self.head + '}'
diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 3a03c23..79e81e8 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -169,6 +169,10 @@ class LatexTransform(base.Transform):
             end = self.factory(tex.Command, items[-4:-3])
             end.append(self.factory(tex.EnvironmentName, items[-3:]))
             items = items[:-4]
+        elif items.peek(-3, a.Name.Builtin, a.Delimiter, a.Delimiter):
+            end = self.factory(tex.Command, items[-3:-2])
+            end.append(self.factory(tex.EnvironmentName, items[-2:]))
+            items = items[:-3]
         nodes = self.common(items)
         if end:
             nodes.append(end)
@@ -250,6 +254,10 @@ class LatexTransform(base.Transform):
                 # no options, add the name
                 env[-1].append(self.factory(tex.EnvironmentName, items[i:i+3]))
                 i += 3
+            elif items.peek(i, a.Delimiter, a.Delimiter):
+                # empty name
+                env[-1].append(self.factory(tex.EnvironmentName, items[i:i+2]))
+                i += 2
             elif items.peek(i, a.Delimiter.Bracket, "environment_option"):
                 # environment options
                 options, env_name = items[i+1].obj
@@ -289,10 +297,10 @@ class LatexTransform(base.Transform):
                 node = t.obj
             else:
                 print("unknown object:", t.name) # TEMP
+            if text and (node or not t.is_token):
+                result.append(self.factory(tex.Text, text))
+                text = []
             if node:
-                if text:
-                    result.append(self.factory(tex.Text, text))
-                    text = []
                 result.append(node)
         if text:
             result.append(self.factory(tex.Text, text))
-- 
2.43.0


From d2095a8a4641204637b56188678b39563ad9b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 103/127] fix: don't add modifiers or alterations to elements
 that already ended

---
 quickly/lang/lilypond.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index f3e8644..cb04bf4 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -571,6 +571,8 @@ class LilyPondTransform(base.Transform):
                         yield step
                     cls = lily.FigureSkip if i == '_' else lily.FigureStep
                     step = self.factory(cls, (i,))
+                elif isinstance(step, element.BlockElement):
+                    pass    # nothing can be added to a FigureBracket
                 elif i.action is a.Text.Music.Pitch.Accidental:
                     if step:
                         step.append(self.factory(lily.FigureAccidental, (i,)))
@@ -936,7 +938,7 @@ class MusicBuilder:
     @_token(r'\rest')
     def rest_token(self, token):
         r"""Called for ``\rest``."""
-        if isinstance(self._music, lily.Note) and not self._articulations:
+        if isinstance(self._music, lily.Note) and not self._articulations and not self._events:
             # make it a positioned rest, reuse old pitch token if possible
             note = self._music
             self._music = rest = lily.PitchedRest(note.head, *note)
@@ -1081,7 +1083,7 @@ class MusicBuilder:
             # next item is the pitch of an inversion
             note = self.factory(lily.Pitch, (next(self.items),))
             elem.append(note)
-        if self._music and not self._articulations:
+        if self._music and not self._articulations and not self._events:
             if not self._modifier:
                 self._modifier = lily.ChordModifiers()
             self._modifier.append(elem)
@@ -1246,7 +1248,7 @@ class MusicBuilder:
     @_context("duration")
     def duration(self, obj):
         """Called for ``duration`` context: dots, scaling."""
-        if self._duration:
+        if self._duration and not self._modifier and not self._articulations and not self._events:
             dots, self._scaling = obj
             self._duration.extend(dots)
 
-- 
2.43.0


From 35d4aeefd00ba091f34c9728a25f1825e2cdc629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 104/127] fix: write LilyPond floats without exponent

---
 quickly/dom/lily.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index ee0bc45..211a089 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -24,6 +24,7 @@ Elements needed for LilyPond expressions.
 
 
 import collections
+import decimal
 import fractions
 import itertools
 import re
@@ -659,6 +660,15 @@ class Float(Number):
     def check_head(cls, head):
         return isinstance(head, (int, float))
 
+    def write_head(self):
+        """Reimplemented to never write an exponent, LilyPond can't read that."""
+        text = str(self.head)
+        if 'e' in text:
+            text = format(decimal.Decimal(text), 'f')
+            if '.' not in text:
+                text += '.0'
+        return text
+
     def signatures(self):
         yield Unit,
 
-- 
2.43.0


From 7d78809ac29b8a8dcee79ea1ca8e2bbcedb908bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 105/127] fix: inexact integers in Scheme in other radixes than
 decimal

---
 quickly/dom/scm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index 7e6aa8e..1269a25 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -160,7 +160,10 @@ class Number(element.TextElement):
     @classmethod
     def read_head(cls, origin):
         from parce.lang.scheme import scheme_number
-        return scheme_number(origin)
+        value = scheme_number(origin)
+        if isinstance(value, int) and any(t.text in ('#i', '#I') for t in origin[:2]):
+            value = float(value)    # scheme_number does this in radix 10 only
+        return value
 
     def write_head(self):
         fmt = self._fmt[self.radix]
@@ -188,7 +191,7 @@ class Number(element.TextElement):
             s = '{}{}{}i'.format(real(v.real), '' if imag[0] in '+-' else '+', imag)
         else:
             s = real(v)
-        if '/' in s and isinstance(v, (float, complex)):
+        if isinstance(v, float) and self.radix != 10 and math.isfinite(v) or '/' in s and isinstance(v, complex):
             prefix = '#i' + prefix  # there are no floats in other radixes
         return prefix + s
 
-- 
2.43.0


From aa1d9b4390da363d494acebf71d71b9b88d6d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 106/127] fix: comments between a Scheme quote and the quoted
 expression

---
 quickly/lang/scheme.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/quickly/lang/scheme.py b/quickly/lang/scheme.py
index e071be1..26dfb63 100644
--- a/quickly/lang/scheme.py
+++ b/quickly/lang/scheme.py
@@ -55,22 +55,25 @@ class SchemeTransform(base.Transform):
     ## helper method
     def common(self, items):
         """Yield dom nodes from tokens."""
-        quotes = []
+        quotes = []     # lists of a quote token and the comments after it
         def nodes():
             for i in items:
-                node = None
                 if i.is_token:
                     if i.action == a.Delimiter.Scheme.Quote:
-                        quotes.append(i)
+                        quotes.append([i])
                     else:
                         yield self.factory(self._common_mapping[i.action], (i,))
+                elif quotes and isinstance(i.obj, base.Comment):
+                    quotes[-1].append(i.obj)
                 elif isinstance(i.obj, element.Element):
                     yield i.obj
         for node in nodes():
-            for q in reversed(quotes):
-                node = self.factory(scm.Quote, (q,), (), node)
+            for q, *comments in reversed(quotes):
+                node = self.factory(scm.Quote, (q,), (), *comments, node)
             quotes.clear()
             yield node
+        for q, *comments in quotes:
+            yield from comments
 
     ### transforming methods
     def root(self, items):
-- 
2.43.0


From 69b75de02b18f5fe770a6dc8636b1af5d6c7c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 107/127] fix: Python dump of a part of a tree

---
 quickly/dom/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 02437a8..32e47f7 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -310,7 +310,7 @@ class Element(Node, metaclass=ElementType):
                         yield repr(node.head)
                         if len(node):
                             yield ','
-                    text = '),\n' if node.parent and not node.is_last() else ')'
+                    text = '),\n' if stack and not node.is_last() else ')'
                     if len(node):
                         yield '\n'
                         stack.append((gen, text))
-- 
2.43.0


From 146d256678bb54dae354615073f11d77ef104fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 108/127] fix: markup commands with more than four arguments

---
 quickly/lang/lilypond.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index cb04bf4..ad4b511 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -46,7 +46,7 @@ import itertools
 from parce import lexicon
 import parce.lang.lilypond
 import parce.action as a
-from parce.rule import ifarg, bygroup
+from parce.rule import MATCH, bygroup, call, ifarg, select
 from parce.util import Dispatcher
 from quickly.dom import base, element, htm, lily, scm, tex, util
 
@@ -59,6 +59,14 @@ class LilyPond(parce.lang.lilypond.LilyPond):
         from .scheme import Scheme
         return Scheme.scheme
 
+    @classmethod
+    def _markup_rules(cls, *extra_target):
+        """Reimplemented to support commands with more than four arguments."""
+        for rule in super()._markup_rules(*extra_target):
+            if extra_target and rule[0] == parce.lang.lilypond.RE_LILYPOND_COMMAND:
+                rule = *rule[:2], select(call(cls.get_markup_argument_count, MATCH[1]), -1, 0, 1, 2, 3, 4)
+            yield rule
+
     @lexicon
     def html_lilypond_tag(cls):
         """LilyPond from inside Html, contents of a <lilypond> </lilypond> tag."""
-- 
2.43.0


From b3fb0db14703e7a596f24bdd3d9bb67e2fe6300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 109/127] fix: don't add chord steps after an articulation

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index ad4b511..0b76473 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1234,7 +1234,7 @@ class MusicBuilder:
     @_context("chord_modifier")
     def chord_modifier(self, obj):
         """Called with the result of the ``chord_modifier`` context."""
-        if self._modifier:  # otherwise there is no chord to modify
+        if self._modifier and not self._articulations and not self._events:  # otherwise there is no chord to modify
             self._modifier[-1].extend(obj)
 
     @_context("repeat", "lyricsto", "lyricmode", "drummode", "notemode",
-- 
2.43.0


From 26d406325431fcc0203c3da8e039ceea975e191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 110/127] fix: reading a duration scaling that divides by zero

---
 quickly/dom/lily.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 211a089..1d86b32 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1901,7 +1901,10 @@ class DurationScaling(element.TextElement):
         scaling = 1
         for t in origin:
             if t != "*":
-                scaling *= fractions.Fraction(t.text)
+                try:
+                    scaling *= fractions.Fraction(t.text)
+                except ZeroDivisionError:
+                    pass    # e.g. 1/0, not a valid scaling
         return scaling
 
     def write_head(self):
-- 
2.43.0


From 3d95f702ea61e609c2e3d1a932a5da5dae362a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:04 +0000
Subject: [PATCH 111/127] fix: editing with a cursor that selects to the end of
 the document

---
 quickly/dom/edit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index d6e3009..26c7da6 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -111,8 +111,9 @@ class Edit:
             d = Element()   # a document that is still empty
         r = start = end = None
         if cursor.has_selection():
-            start_node = d.find_descendant_right(cursor.pos)
-            end_node = d.find_descendant_left(cursor.end)
+            sel_start, sel_end = cursor.selection()     # cursor.end can be None
+            start_node = d.find_descendant_right(sel_start)
+            end_node = d.find_descendant_left(sel_end)
             if start_node and end_node and start_node.pos < end_node.end:
                 while len(end_node):    # all descendants are in the selection
                     end_node = end_node[-1]
-- 
2.43.0


From c909596eeb6dbc63c570864fd55fb971704dbf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:59 +0000
Subject: [PATCH 112/127] fix: key signature of a \key command with an alist of
 alterations

---
 quickly/dom/lily.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 1d86b32..e3f5816 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2268,12 +2268,34 @@ class Key(element.HeadElement, Music):
                         continue
                 elif isinstance(n, Scheme):
                     for n in n // scm.List:
-                        mode = [n.head for n in n / scm.Number]
+                        if any(n / scm.List):
+                            mode = self._read_alterations(n)
+                        else:
+                            mode = [n.head for n in n / scm.Number]
+                        break
                 break
         if pitch and mode:
             from ..key import KeySignature
             return KeySignature(pitch.note, pitch.alter, mode)
 
+    #: The names LilyPond has for alterations.
+    _alterations = {
+        'DOUBLE-FLAT': -1, 'THREE-Q-FLAT': -.75, 'FLAT': -.5, 'SEMI-FLAT': -.25,
+        'NATURAL': 0,
+        'SEMI-SHARP': .25, 'SHARP': .5, 'THREE-Q-SHARP': .75, 'DOUBLE-SHARP': 1,
+    }
+
+    def _read_alterations(self, node):
+        """Return the list of 7 alterations from a Scheme list of pairs (step . alteration)."""
+        mode = [0] * 7
+        for pair in node / scm.List:
+            numbers = [n.head for n in pair / scm.Number]
+            numbers.extend(self._alterations[n.head]
+                for n in pair // scm.Identifier if n.head in self._alterations)
+            if len(numbers) == 2 and numbers[0] in range(7):
+                mode[numbers[0]] = numbers[1]
+        return mode
+
     def signatures(self):
         yield Pitchable, (Mode, IdentifierRef, Scheme)
 
-- 
2.43.0


From a17f882425b745b661b3c900b17e0beb55ca10d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:32 +0000
Subject: [PATCH 113/127] fix: octave of the pitch for a MIDI key in a key
 signature with a custom scale

---
 quickly/key.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/key.py b/quickly/key.py
index ea44cd8..50464b3 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -336,8 +336,8 @@ class KeySignature:
             step = int((base + alter) * 2) % 12
             steps[step] = (note, alter)
         # add octave
-        octave = lambda p: -1 if p > 6 else 1 if p < 0 else 0
-        steps = [(octave(note + alter) - 5, note, alter) for note, alter in steps]
+        octave = lambda note, alter: int((self.scale[note] + alter) // 6)
+        steps = [(-octave(note, alter) - 5, note, alter) for note, alter in steps]
 
         def from_midi(key):
             """Return a Pitch from the MIDI key number."""
-- 
2.43.0


From ac4e8d5a2815e76dee8157068cc544088ead53ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:19 +0000
Subject: [PATCH 114/127] fix: transposing music in markup that is not attached
 to a note

---
 quickly/transpose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 264a81f..db515b1 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -174,7 +174,7 @@ class Transpose(edit.Edit):
                     transpose_absolute(n)   # e.g. notes in markup scores
                 elif isinstance(n, (lily.Key, lily.Inversion, lily.AddInversion)):
                     transpose_no_octave(n)
-                elif isinstance(n, lily.Absolute):
+                elif isinstance(n, (lily.Absolute, lily.Markup)):
                     transpose_absolute(n)
                 elif isinstance(n, lily.Relative):
                     transpose_relative(n)
-- 
2.43.0


From 65037e3e87a85d8eebc72233342b9138b455883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 115/127] fix: don't edit the whole document when there is
 nothing right of the cursor

---
 quickly/dom/edit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 26c7da6..c193d06 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -128,6 +128,8 @@ class Edit:
             start_node = d.find_descendant_right(cursor.pos)
             if start_node:
                 r = Range.from_nodes(start_node)
+            else:
+                r = Range(d, None, [])  # no nodes right of the cursor
         if r is None:
             r = Range(d)
         self._document = cursor.document()
-- 
2.43.0


From e3aea382a2d8a98f8a69d519fe0ed08f8a173e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:53 +0000
Subject: [PATCH 116/127] fix: write the whitespace of elements without text,
 such as Newline

---
 quickly/dom/element.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 32e47f7..b7535cf 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -588,6 +588,10 @@ class Element(Node, metaclass=ElementType):
 
         if head_point:
             yield head_point
+        elif self.space_before or (self.space_after and not len(self)):
+            # no text, only a wish for whitespace
+            space_after = '' if len(self) else self.space_after
+            yield Point(None, None, str, False, self.space_before, space_after)
         children = iter(self)
         for n in children:
             # collapse the whitespace after each child (except the last) with
@@ -651,6 +655,8 @@ class Element(Node, metaclass=ElementType):
                     yield pos, pos, space + text
                     insert_after = point.space_after
                     changed = new = True
+                else:
+                    insert_after = collapse_whitespace((space, point.space_after))
             else:
                 # existing element
                 if point.pos > pos:
-- 
2.43.0


From 9aa94561a75f0868ae270a8ea4ccb0b66fe75218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 117/127] fix: write moved elements back instead of losing them
 and the text in between

---
 quickly/dom/element.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index b7535cf..a370779 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -645,11 +645,12 @@ class Element(Node, metaclass=ElementType):
         insert_after = ''
         changed = False     # True when the previous fragment is new or modified
         new = False         # True when the previous fragment is new
+        last = 0            # end of the last existing element
         for point in self.points():
             space = collapse_whitespace((insert_after, point.space_before))
             newline = new and source is not None and '\n' in insert_after
-            if point.pos is None:
-                # new element
+            if point.pos is None or point.pos < last:
+                # new element, or an existing one that was moved
                 text = point.text()
                 if text:
                     yield pos, pos, space + text
@@ -688,7 +689,7 @@ class Element(Node, metaclass=ElementType):
                     yield point.pos, point.end, point.text()
                 changed = point.modified
                 new = False
-                pos = point.end
+                pos = last = point.end
                 insert_after = point.space_after
         if pos < end:
             yield pos, end, ''
-- 
2.43.0


From a2ba073978b1cd0ced849b842366572ea7738598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 118/127] fix: setting the scaling of a duration removes all
 existing scalings

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index e3f5816..6d70150 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -149,7 +149,7 @@ class HandleDuration(element.Element):
     @scaling.setter
     def scaling(self, value):
         for d in self / Duration:
-            scaling = d / DurationScaling
+            scaling = iter(list(d / DurationScaling))
             for s in scaling:
                 if value in (1, None):
                     d.remove(s)
-- 
2.43.0


From 72b970c7a8636ba31063e768502f34d42f911e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 119/127] fix: a backslash command refuses a child or number as
 head with a TypeError

---
 quickly/dom/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/base.py b/quickly/dom/base.py
index 36b5e2f..946c6f0 100644
--- a/quickly/dom/base.py
+++ b/quickly/dom/base.py
@@ -89,8 +89,8 @@ class BackslashCommand(element.TextElement):
     """
     @classmethod
     def check_head(cls, head):
-        r"""Return False if the head value starts with a backslash (``\``)."""
-        return not head.startswith('\\')
+        r"""Return False if the head value is no text or starts with a backslash (``\``)."""
+        return isinstance(head, str) and not head.startswith('\\')
 
     @classmethod
     def read_head(cls, origin):
-- 
2.43.0


From 20d20c9c3afd259f47ee850423f91ccf21d3bc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:58 +0000
Subject: [PATCH 120/127] fix: transpose octave checks of notes outside
 relative music as well

---
 quickly/transpose.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index db515b1..f1b9516 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -201,7 +201,10 @@ class Transpose(edit.Edit):
             """Transpose the notes, and yield their pitches for extra changes."""
             for n in notes(nodes):
                 with processor.process(n, writable(n)) as p:
+                    octave = p.octave
                     self.transposer.transpose(p)
+                    if writable(n) and n.oct_check is not None:
+                        n.oct_check += p.octave - octave
                     yield p
 
         def transpose_no_octave(nodes):
-- 
2.43.0


From 2371e52a01615c37d71685ae9f136e9c011c9ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:02 +0000
Subject: [PATCH 121/127] fix: don't let durations and the version carry over
 to other music in a HTML or LaTeX document

---
 quickly/dom/lily.py | 10 +++++-----
 quickly/dom/util.py | 17 ++++++++++++++++-
 quickly/rhythm.py   | 10 ++++++++--
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 6d70150..649767f 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -30,7 +30,7 @@ import itertools
 import re
 
 from .. import datatypes, duration, pitch
-from . import base, element, scm
+from . import base, element, scm, util
 
 
 class Music(element.Element):
@@ -3464,8 +3464,8 @@ def duration_getter():
             return duration
 
         new = {durable}
-        for prev in durable < Durable:
-            if prev.duration_sets_previous:
+        for prev in durable.backward(util.lilypond_document(durable)):
+            if isinstance(prev, Durable) and prev.duration_sets_previous:
                 dur = prev.duration_scaling
                 if dur:
                     durables = new
@@ -3498,8 +3498,8 @@ def previous_duration(node):
     notes without duration.
 
     """
-    for n in node < Durable:
-        if n.duration_sets_previous:
+    for n in node.backward(util.lilypond_document(node)):
+        if isinstance(n, Durable) and n.duration_sets_previous:
             for d in n / Duration:
                 return d.duration()
     return fractions.Fraction(1, 4), 1
diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index baa6d49..97a625d 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -178,6 +178,21 @@ def pop_comments(node):
     return comments
 
 
+def lilypond_document(node):
+    """Return the :class:`.lily.Document` the node is in (or is).
+
+    This can be a document that is embedded in a HTML or LaTeX document. If
+    there is no such document, the root node is returned.
+
+    """
+    from . import lily
+    if isinstance(node, lily.Document):
+        return node
+    for n in node << lily.Document:
+        return n
+    return node.root()
+
+
 def lilypond_version(node):
     """Return the LilyPond version in the node's document as a tuple of ints.
 
@@ -185,7 +200,7 @@ def lilypond_version(node):
 
     """
     from . import lily
-    for v in node.root() // lily.Version:
+    for v in lilypond_document(node) // lily.Version:
         return v.version
     return ()
 
diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index b56ecbf..63f0f32 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -86,8 +86,11 @@ class EditRhythm(edit.Edit):
 
     def edit_range(self, r):
         """Perform our operations on all Durables in the range."""
-        prev = None
+        prev = document = None
         for n in self.durables(r):
+            doc = util.lilypond_document(n)
+            if doc is not document:     # another document in a HTML or LaTeX document
+                prev, document = None, doc
             prev = self.process(n, prev)
 
     def process(self, node, prev):
@@ -268,8 +271,11 @@ class CopyRhythm(EditRhythm):
         """Return the list of extracted durations."""
         if self.explicit:
             def durations():
-                prev = None
+                prev = document = None
                 for n in self.durables(r):
+                    doc = util.lilypond_document(n)
+                    if doc is not document:
+                        prev, document = None, doc
                     dur = n.duration_scaling
                     if not dur:
                         if not prev:
-- 
2.43.0


From d7f7290b9758e7415db4c1e6fb8a12fd1b682e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:06 +0000
Subject: [PATCH 122/127] fix: don't let the pitch language carry over to other
 music in a HTML or LaTeX document

---
 quickly/pitch.py     | 13 +++++++------
 quickly/relative.py  | 20 +++++++++++++++-----
 quickly/transpose.py | 11 +++++++++++
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 61d7157..9655165 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -451,12 +451,13 @@ class PitchProcessor:
         ``\language`` command with a valid language, that language is set.
 
         """
-        from .dom import lily
-        for n in node < (lily.Language, lily.Include):
-            lang = n.language
-            if lang in pitch_names:
-                self.language = lang
-                break
+        from .dom import lily, util
+        for n in node.backward(util.lilypond_document(node)):
+            if isinstance(n, (lily.Language, lily.Include)):
+                lang = n.language
+                if lang in pitch_names:
+                    self.language = lang
+                    break
 
     def follow_language(self, nodes):
         r"""Iterate over the DOM nodes and follow language changes.
diff --git a/quickly/relative.py b/quickly/relative.py
index fa150ab..eebc256 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -59,8 +59,6 @@ class Rel2abs(edit.Edit):
         processor = self.processor or PitchProcessor()
 
         first_pitch_absolute = self.first_pitch_absolute
-        if first_pitch_absolute is None:
-            first_pitch_absolute = util.lilypond_version(r.ancestor()) >= (2, 18)
 
         def notes(nodes):
             """Yield note/rest, chord and octavecheck; follow pitch language."""
@@ -147,6 +145,8 @@ class Rel2abs(edit.Edit):
         for n in list(r.filter(lambda n: isinstance(n, lily.Relative) and r.in_range())):
             processor.language = language
             processor.find_language(n)
+            if self.first_pitch_absolute is None:
+                first_pitch_absolute = util.lilypond_version(n) >= (2, 18)
             make_absolute(n)
 
 
@@ -210,14 +210,24 @@ class Abs2rel(edit.Edit):
 
     def edit_range(self, r):
         """Do the pitch conversion."""
-        processor, first_pitch_absolute = self._get_settings(r.start_node() or r.ancestor())
+        node = r.start_node() or r.ancestor()
+        language = self.processor and self.processor.language
+        processor, first_pitch_absolute = self._get_settings(node)
+        document = util.lilypond_document(node)
 
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
+            nonlocal processor, first_pitch_absolute
             nodes = r.instances_of((lily.MusicList, lily.Relative, lily.Fixed,
-                lily.ChordMode, lily.Language, lily.Include))
+                lily.ChordMode, lily.Language, lily.Include, lily.Document))
             for n in processor.follow_language(nodes):
-                if isinstance(n, lily.MusicList):
+                if isinstance(n, lily.Document):
+                    if n is not document:   # another document in a HTML or LaTeX document
+                        if self.processor:
+                            self.processor.language = language
+                        processor, first_pitch_absolute = self._get_settings(n)
+                    abs2rel()
+                elif isinstance(n, lily.MusicList):
                     if any(n / lily.Pitchable) and r.in_range():
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
                     else:
diff --git a/quickly/transpose.py b/quickly/transpose.py
index f1b9516..ee9579a 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -138,6 +138,7 @@ class Transpose(edit.Edit):
         """Perform the transposing on the specified range."""
         node = r.ancestor()
         processor = self.processor or PitchProcessor()
+        language = processor.language
 
         relative_first_pitch_absolute = self.relative_first_pitch_absolute
         if relative_first_pitch_absolute is None:
@@ -176,6 +177,8 @@ class Transpose(edit.Edit):
                     transpose_no_octave(n)
                 elif isinstance(n, (lily.Absolute, lily.Markup)):
                     transpose_absolute(n)
+                elif isinstance(n, lily.Document):
+                    transpose_document(n)
                 elif isinstance(n, lily.Relative):
                     transpose_relative(n)
                 elif isinstance(n, lily.Fixed):
@@ -220,6 +223,14 @@ class Transpose(edit.Edit):
             for p in transpose_pitches(nodes):
                 pass
 
+        def transpose_document(node):
+            """Transpose a document, e.g. embedded in HTML or LaTeX."""
+            nonlocal relative_first_pitch_absolute
+            processor.language = language
+            if self.relative_first_pitch_absolute is None:
+                relative_first_pitch_absolute = util.lilypond_version(node) >= (2, 18)
+            transpose_absolute(node)
+
         def transpose_fixed(node):
             r"""Transpose \fixed pitches: handle octave nicely."""
             nodes = util.skip_comments(node)
-- 
2.43.0


From c6abdb90d226774a94921e900e5962a217f5c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 123/127] fix: length of \afterGrace with a variable

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 649767f..440f567 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2495,7 +2495,7 @@ class AfterGrace(element.HeadElement, Music):
 
         """
         for n in self[:end]:
-            if isinstance(n, Music):
+            if isinstance(n, (Music, Reference)):
                 return context.length(n)
         return 0
 
-- 
2.43.0


From 672177a938886ccc238fc08d216bff71b59d1510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:30 +0000
Subject: [PATCH 124/127] fix: length of unfolded repeats with the alternatives
 within the music

---
 quickly/dom/lily.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 440f567..78b3003 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1370,8 +1370,10 @@ class Repeat(element.HeadElement, Music):
         """
         length = super().time_length(context, end)
         if end is None and self.unfolded():
-            length += (self.repeat_count() - 1) * sum(
-                context.length(n) for n in self if not isinstance(n, Alternative))
+            # all alternatives are already counted, also within the music
+            properties = context.properties + datatypes.Properties(repeat_count=0)
+            context = type(context)(context.time, context.transform, properties)
+            length += (self.repeat_count() - 1) * sum(map(context.length, self))
         return length
 
     def signatures(self):
@@ -1394,7 +1396,7 @@ class Alternative(element.HeadElement, Music):
 
         """
         count = context.properties.repeat_count
-        if end is None and count:
+        if end is None and count is not None:
             for music in self / MusicList:
                 context = context.enter(music)
                 alts = [n for n in music if isinstance(n, (Music, Reference))]
-- 
2.43.0


From 9bda64301f2c002c14455032a1fc5947260fce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:52 +0000
Subject: [PATCH 125/127] fix: durations of music in Scheme don't change the
 duration of the music after it

---
 quickly/dom/lily.py | 39 ++++++++++++++++++++++++---------------
 quickly/dom/util.py | 17 +++++++++++++++++
 quickly/rhythm.py   | 22 +++++++++-------------
 3 files changed, 50 insertions(+), 28 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 78b3003..f67d8d9 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3436,6 +3436,17 @@ def make_list_node(value):
         return Int(value)
 
 
+def preceding_durables(node):
+    """Yield the Durables before the node of which LilyPond would use the
+    duration if the node had no duration, in backward direction."""
+    document = util.lilypond_document(node)
+    blocks = {document, *(node << scm.LilyPond)}
+    for n in node.backward(document):
+        if (isinstance(n, Durable) and n.duration_sets_previous
+                and util.lilypond_block(n) in blocks):
+            yield n
+
+
 def duration_getter():
     """Return a callable that returns the (duration, scaling) tuple of a
     :class:`Durable`.
@@ -3466,17 +3477,16 @@ def duration_getter():
             return duration
 
         new = {durable}
-        for prev in durable.backward(util.lilypond_document(durable)):
-            if isinstance(prev, Durable) and prev.duration_sets_previous:
-                dur = prev.duration_scaling
-                if dur:
-                    durables = new
-                    duration = dur
-                    return dur
-                elif prev in durables:
-                    durables.update(new)
-                    return duration
-                new.add(prev)
+        for prev in preceding_durables(durable):
+            dur = prev.duration_scaling
+            if dur:
+                durables = new
+                duration = dur
+                return dur
+            elif prev in durables:
+                durables.update(new)
+                return duration
+            new.add(prev)
         durables = new
         duration = (fractions.Fraction(1, 4), 1)
         return duration
@@ -3500,10 +3510,9 @@ def previous_duration(node):
     notes without duration.
 
     """
-    for n in node.backward(util.lilypond_document(node)):
-        if isinstance(n, Durable) and n.duration_sets_previous:
-            for d in n / Duration:
-                return d.duration()
+    for n in preceding_durables(node):
+        for d in n / Duration:
+            return d.duration()
     return fractions.Fraction(1, 4), 1
 
 
diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index 97a625d..c3f3c7e 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -193,6 +193,23 @@ def lilypond_document(node):
     return node.root()
 
 
+def lilypond_block(node):
+    """Return the closest :class:`.lily.Document` or :class:`.scm.LilyPond`
+    block (``#{`` ... ``#}``) the node is in (or is).
+
+    If there is no such node, the root node is returned. LilyPond parses music
+    in Scheme separately: durations in it are not used for the music after it.
+
+    """
+    from . import lily, scm
+    cls = lily.Document, scm.LilyPond
+    if isinstance(node, cls):
+        return node
+    for n in node << cls:
+        return n
+    return node.root()
+
+
 def lilypond_version(node):
     """Return the LilyPond version in the node's document as a tuple of ints.
 
diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 63f0f32..bdca1a6 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -86,12 +86,10 @@ class EditRhythm(edit.Edit):
 
     def edit_range(self, r):
         """Perform our operations on all Durables in the range."""
-        prev = document = None
+        prev = {}   # for every block, as music can be in Scheme, HTML or LaTeX
         for n in self.durables(r):
-            doc = util.lilypond_document(n)
-            if doc is not document:     # another document in a HTML or LaTeX document
-                prev, document = None, doc
-            prev = self.process(n, prev)
+            block = util.lilypond_block(n)
+            prev[block] = self.process(n, prev.get(block))
 
     def process(self, node, prev):
         """Implement to perform an operation on the ``node``.
@@ -271,18 +269,16 @@ class CopyRhythm(EditRhythm):
         """Return the list of extracted durations."""
         if self.explicit:
             def durations():
-                prev = document = None
+                prev = {}   # for every block
                 for n in self.durables(r):
-                    doc = util.lilypond_document(n)
-                    if doc is not document:
-                        prev, document = None, doc
+                    block = util.lilypond_block(n)
                     dur = n.duration_scaling
                     if not dur:
-                        if not prev:
-                            prev = lily.previous_duration(n)
-                        dur = prev
+                        if block not in prev:
+                            prev[block] = lily.previous_duration(n)
+                        dur = prev[block]
                     elif n.duration_sets_previous:
-                        prev = dur
+                        prev[block] = dur
                     yield dur
             return list(durations())
         return [n.duration_scaling for n in self.durables(r)]
-- 
2.43.0


From ed10cfd440732d23788ecd505c350d7be1078c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:20 +0000
Subject: [PATCH 126/127] fix: length of \scaleDurations with a Scheme pair as
 fraction

---
 quickly/dom/lily.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index f67d8d9..f5e79bb 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3614,6 +3614,13 @@ def get_num_value(node):
         if len(node) == 1:
             if isinstance(node[0], scm.Number):
                 return node[0].head
+            elif isinstance(node[0], scm.Quote):
+                for pair in node[0] / scm.List:     # a fraction, like '(2 . 3)
+                    nodes = list(util.skip_comments(pair))
+                    if [type(n) for n in nodes] == [scm.Number, scm.Dot, scm.Number]:
+                        num, den = nodes[0].head, nodes[2].head
+                        if isinstance(num, int) and isinstance(den, int) and den:
+                            return fractions.Fraction(num, den)
 
 
 def get_int_value(node):
-- 
2.43.0


From 7be3092364d2b234848b1e554088eae96356e7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:02 +0000
Subject: [PATCH 127/127] fix: repeats in \unfoldRepeats take time

---
 quickly/dom/lily.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index f5e79bb..dcf42df 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1368,13 +1368,16 @@ class Repeat(element.HeadElement, Music):
         Reimplemented to add the length of the repetitions.
 
         """
-        length = super().time_length(context, end)
-        if end is None and self.unfolded():
-            # all alternatives are already counted, also within the music
-            properties = context.properties + datatypes.Properties(repeat_count=0)
-            context = type(context)(context.time, context.transform, properties)
-            length += (self.repeat_count() - 1) * sum(map(context.length, self))
-        return length
+        if end is None and (self.unfolded() or context.properties.unfold):
+            def length(repeat_count):
+                """Length of the child nodes, with all or no alternatives."""
+                properties = context.properties + datatypes.Properties(repeat_count=repeat_count)
+                c = type(context)(context.time, context.transform, properties)
+                return sum(map(c.length, self))
+
+            count = self.repeat_count()
+            return length(count) + (count - 1) * length(0)
+        return super().time_length(context, end)
 
     def signatures(self):
         yield Symbol, INT, MUSIC
@@ -1413,6 +1416,10 @@ class UnfoldRepeats(element.HeadElement, Music):
     space_between = space_after_head = " "
     head = r'\unfoldRepeats'
 
+    def properties(self):
+        """Make ``unfold`` available, so the repetitions take time."""
+        return datatypes.Properties(unfold=True)
+
     def signatures(self):
         yield MUSIC,
 
-- 
2.43.0

