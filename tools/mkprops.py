"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

prop('C01', 'LilyPond source survives reading into the DOM and writing out again',
 "For every well-formed LilyPond source text, writing out the document tree read from it gives text that reads back to an equal tree, so no music, markup, lyric, chord, figure, drum, assignment, block, command or Scheme content is lost, added or changed. Writing is stable: writing the re-read tree gives the same text again.",
 ['inputs', 'programs'], "all well-formed LilyPond sources in all input modes (notes, chords, lyrics, drums, figures, chord mode, markup, Scheme), any nesting and any whitespace/comment layout",
 "the tests compare a few hand-written fragments; the set of constructs, argument shapes and nestings is unbounded",
 ['quickly/lang/lilypond.py', 'quickly/dom/lily.py', 'quickly/dom/element.py', 'quickly/dom/util.py', 'quickly/dom/base.py'],
 [('text to tree', 'quickly/lang/lilypond.py LilyPondTransform / LilyPondAdHocTransform'), ('argument attachment', 'quickly/dom/element.py build_tree and signatures() in quickly/dom/lily.py'), ('tree to text', 'quickly/dom/element.py Element.write/points, write_head/read_head of each element')],
 ['quickly.dom.read.lily_document', 'Element.write', 'Node.equals'])

prop('C02', 'A LilyPond document built by hand writes out text that means the same tree',
 "Any sensible document assembled from DOM elements in code writes out LilyPond text which, when read back, gives a tree equal to the one that was built: whitespace is inserted wherever adjacent pieces would otherwise run together, and every element prints its own content exactly once. Values set through the convenience attributes and constructors appear in that text and read back with the same value; a head value that can't be written (or a child given where the head was forgotten) is refused by the constructor with a TypeError.",
 ['programs', 'inputs'], "all document trees built from the element constructors and convenience attributes, with any legal head values and child combinations",
 "the tests build two score templates and a handful of fragments; the element vocabulary (over 200 types) and its combinations are not sampled",
 ['quickly/dom/lily.py', 'quickly/dom/element.py', 'quickly/dom/util.py', 'quickly/dom/base.py', 'quickly/dom/markup.py'],
 [('space combination', 'quickly/dom/util.py collapse_whitespace/combine_text and the space_* properties'), ('head writers', 'write_head methods in quickly/dom'), ('markup builders', 'quickly/dom/markup.py')],
 ['Element.write', 'quickly.dom.read.lily_document', 'Node.equals'])

prop('C03', 'Scheme expressions and values survive reading, writing and conversion',
 "For every Scheme expression, writing the tree read from it gives text that reads back to an equal tree. Every number (decimal, fraction, hexadecimal, binary, octal, float, exponent, infinity, complex, exact/inexact), boolean, character and string is read as the value Scheme gives it, a tree made from a Python value reads back as that value, and simple values embedded in LilyPond are retrieved as the Python value they were created from.",
 ['inputs'], "all Scheme expressions: lists, dotted pairs, vectors, quotes, quasi-quotes, embedded LilyPond, comments, and numbers in every radix and format",
 "the tests read a fixed list of literals; numeric formats and nestings are unbounded",
 ['quickly/lang/scheme.py', 'quickly/dom/scm.py', 'quickly/dom/lily.py'],
 [('number readers', 'quickly/lang/scheme.py'), ('number writers', 'quickly/dom/scm.py Number classes'), ('value conversion', 'quickly/dom/scm.py create_element_from_value/…, quickly/dom/lily.py create_value_from_element')],
 ['quickly.dom.read.scm_document', 'Element.write', 'quickly.dom.scm.create_element_from_value'])

prop('C04', 'HTML and LaTeX documents with embedded music survive reading and writing',
 "For every well-formed HTML or LaTeX text, with or without embedded LilyPond, writing out the tree read from it (after filling in pieces the reader keeps as opaque text) gives text that reads back to an equal tree, and embedded music is recognised as a LilyPond document. Editing the embedded music through the tree changes only that music in the host text. Text, comments and attribute values given when building an HTML document by hand are read back unchanged from its written form, with all markup characters escaped as needed.",
 ['inputs', 'programs'], "all well-formed HTML and LaTeX host texts: nested elements, attributes, entities, comments, CDATA, environments, options, math, verbatim, lilypond-book tags, commands and environments",
 "the tests use four short documents",
 ['quickly/lang/html.py', 'quickly/lang/latex.py', 'quickly/dom/htm.py', 'quickly/dom/tex.py', 'quickly/dom/util.py'],
 [('HTML transform', 'quickly/lang/html.py'), ('LaTeX transform', 'quickly/lang/latex.py'), ('opaque text', 'quickly/dom/util.py replace_unknown')],
 ['quickly.dom.read.htm_document', 'quickly.dom.read.tex_document', 'Element.edit'])

prop('C05', 'Any text can be read, and every tree node knows where it came from',
 "Reading any text at all, including broken or half-typed LilyPond, Scheme, HTML or LaTeX, succeeds and yields a document tree. In that tree every node's text position lies inside the source, nodes that come from the text are in source order, a parent's range encloses its children's, and looking up the node at, left of or right of a text position gives exactly the node those ranges designate.",
 ['inputs'], "all texts (valid, truncated, mutated, random) in all four languages and all text positions",
 "the tests read only valid fragments and look up two positions",
 ['quickly/lang/lilypond.py', 'quickly/lang/scheme.py', 'quickly/lang/html.py', 'quickly/lang/latex.py', 'quickly/dom/element.py'],
 [('transforms', 'quickly/lang/*.py'), ('pos/end and find_* methods', 'quickly/dom/element.py')],
 ['parce.Document.get_transform', 'Element.pos', 'Element.end', 'Element.find_child', 'Element.find_descendant', 'Element.find_descendant_left', 'Element.find_descendant_right'])

prop('C06', 'Writing modifications back touches only what was modified',
 "Writing back a tree that was not modified leaves the source text exactly as it was, with zero changes reported. After any set of modifications (changed values, added, removed and moved nodes) the source is updated so that it reads as the modified tree, while comments, line breaks, indentation and all text belonging to unmodified elements are preserved character for character, and the number of changes returned is the number made.",
 ['inputs', 'histories'], "all well-formed source texts in the supported languages and all sequences of value changes, insertions and removals, including several successive edit rounds",
 "the tests change note names in four one-line documents",
 ['quickly/dom/element.py', 'quickly/dom/edit.py', 'quickly/lang/lilypond.py', 'quickly/dom/lily.py'],
 [('change computation', 'quickly/dom/element.py Element.edits/edit'), ('origin tokens', 'with_origin/head_origin/tail_origin'), ('modified flags', 'head/tail setters')],
 ['Element.edits', 'Element.edit', 'parce.Document.text'],
 [('_modified', 'which of head/tail changed since reading', 'quickly/dom/element.py')])

prop('C07', 'Tree navigation and manipulation keep a consistent tree',
 "After any sequence of tree manipulations (append, insert, extend, slice assignment, removal, replacement, taking, copying) every node's parent is the node that contains it, removed nodes have no stale role in the tree, and sibling, ancestor, root, depth, height, trail and common-ancestor queries agree with the actual structure. Every traversal (children, descendants, forward, backward, siblings, by type, by instance, by negation) yields exactly the nodes it is documented to yield, in document order or its reverse, each once.",
 ['histories'], "all sequences of tree operations on all tree shapes, and every query from every node",
 "the tests check a dozen queries on one fixed tree",
 ['quickly/node.py'],
 [('Node list subclass with weak parent', 'quickly/node.py Node')],
 ['quickly.node.Node public methods and operators'])

prop('C08', 'A tree range iterates, contains and edits exactly the selected nodes',
 "A range between two nodes yields, in forward, backward, typed and per-level iteration, exactly the nodes that lie between its boundaries in document order, and the containment test agrees with that. Replacing, inserting or deleting nodes through the range keeps its boundaries on the same surviving nodes, and extracting a range gives a tree with exactly the selected nodes and their ancestors.",
 ['inputs', 'histories'], "all trees, all pairs of boundary nodes (also open ends and boundaries nested in one another), and all sequences of edits made through the range",
 "the tests check one tree and a few fixed ranges",
 ['quickly/node.py'],
 [('Range trails', 'quickly/node.py Range')],
 ['quickly.node.Range public methods'])

prop('C09', 'Copies, comparison and Python dumps of a tree are faithful',
 "Copying any document tree gives an independent tree that compares equal and writes identical text, including individually set whitespace, and changing one never affects the other; a copy that keeps the origin still knows its text positions and can be written back. Two trees compare equal exactly when their types, values and structure are the same, and executing the Python dump of a tree rebuilds an equal tree.",
 ['inputs', 'programs'], "all document trees from all languages, with any individually modified spacing",
 "no test covers copying with spacing, origin copies or the Python dump",
 ['quickly/dom/element.py', 'quickly/node.py'],
 [('copy/copy_with_origin/equals/py_dump', 'quickly/dom/element.py, quickly/node.py')],
 ['Element.copy', 'Element.copy_with_origin', 'Node.equals', 'Element.py_dump'])

prop('C10', 'Note durations convert exactly between text, number and transformation',
 "Every writable note duration (breve, longa and maxima included, any dots) converts from text to an exact fraction and back to the same text, and a value is reported as writable exactly when such a text exists. Shifting, dotting and scaling durations follows musical arithmetic exactly, combining two transformations equals applying them one after the other (as long as no dot is taken away that is not there), and the duration and scaling attributes of a note read back what was set and leave everything else of the note alone.",
 ['inputs', 'histories'], "all duration texts, logs, dot counts, rational values and compositions of transformations; all sequences of duration/scaling attribute assignments",
 "the tests list about twenty values",
 ['quickly/duration.py', 'quickly/dom/lily.py'],
 [('log/dots arithmetic', 'quickly/duration.py'), ('Duration/DurationScaling/HandleDuration', 'quickly/dom/lily.py')],
 ['quickly.duration functions and Transform', 'HandleDuration properties'])

prop('C11', 'Pitch names are read and written correctly in every language',
 "In each supported pitch language every name reads as the pitch it denotes and every pitch the language can express is written as a name with as few octave marks as possible that reads back as the same pitch; the style preferences only choose between names of the same pitch. Language changes inside a document are followed, setting a pitch on a note keeps its other parts, and the language guesser and the preference analyser report only what is consistent with the names they are given.",
 ['inputs', 'configurations'], "all languages, all pitches with octaves, all preference combinations, all sets of names, all placements of language switches",
 "the tests check selected names in a few languages",
 ['quickly/pitch.py', 'quickly/dom/lily.py'],
 [('name tables and preferences', 'quickly/pitch.py PitchProcessor'), ('octave attributes', 'quickly/dom/lily.py Pitchable')],
 ['quickly.pitch.PitchProcessor', 'quickly.pitch.determine_language'])

prop('C12', 'Pitch arithmetic agrees with music theory: MIDI, key signatures, octaves',
 "Converting a MIDI key to a pitch, plainly or in any key signature, gives a pitch that sounds as that key; within a key signature the notes of its scale keep the spelling of the signature. Making a pitch relative to another and then absolute again is the identity and picks the nearest octave as LilyPond defines it, pitch ordering is total and consistent with equality, and the alterations, tonic and accidentals computed for a key agree with each other, also for the key signature that a \\key command in a document denotes.",
 ['inputs'], "all MIDI keys, all pitches, all tonics and modes (named or custom alteration lists), all accidental styles",
 "the tests check a few keys and ten MIDI values",
 ['quickly/pitch.py', 'quickly/key.py', 'quickly/dom/lily.py'],
 [('Pitch methods', 'quickly/pitch.py'), ('key functions', 'quickly/key.py'), ('key commands', 'quickly/dom/lily.py Key')],
 ['quickly.pitch.Pitch', 'quickly.key', 'quickly.dom.lily.Key.key_signature'])

prop('C13', 'Transposing moves every pitch by exactly the requested interval',
 "A transposition changes the sounding height of any pitch by exactly the interval between its two reference pitches, spelled on the corresponding scale step unless that would need more than a double alteration. Adding two transpositions equals applying both, subtracting reverts, and transposing by an interval and back gives the original sounding pitch.",
 ['inputs'], "all pairs of reference pitches, all pitches, all sums and differences of transpositions",
 "the tests do not transpose arbitrary pitches nor combine transpositions",
 ['quickly/transpose.py', 'quickly/pitch.py'],
 [('Transposer', 'quickly/transpose.py')],
 ['quickly.transpose.Transposer'])

prop('C14', 'Transposing music transposes exactly the sounding pitches selected',
 "After transposing a piece of music (absolute, relative, fixed octave, chord mode, key signatures, nested transpose commands, any pitch language), every selected sounding note is the original moved by the interval, every note outside the selection sounds as before (apart from relative music that continues after the selection), and rhythm, text and all other content is unchanged. Transposing back restores the sounding pitches.",
 ['inputs', 'programs'], "all music expressions mixing absolute, relative and fixed pitches, chords, octave checks, key changes, chord mode and language switches, all intervals, both LilyPond version conventions and all partial selections",
 "there is no test that transposes a document",
 ['quickly/transpose.py', 'quickly/pitch.py', 'quickly/dom/edit.py'],
 [('Transpose edit', 'quickly/transpose.py Transpose.edit_range')],
 ['quickly.transpose.transpose', 'parce.Document.text'])

prop('C15', 'Relative/absolute conversion preserves every sounding pitch',
 "Converting relative music to absolute, or absolute music to relative, with or without a start pitch, leaves every note and chord sounding exactly as before and changes nothing but octave marks, octave checks and the relative commands. Converting to relative and back restores the original absolute music.",
 ['inputs', 'programs', 'configurations'], "all music expressions with chords, rests, octave checks, nested and parallel music, mixed modes and pitch languages; both conversion directions, start-pitch settings and LilyPond version conventions",
 "there is no test of these conversions",
 ['quickly/relative.py', 'quickly/pitch.py'],
 [('Rel2abs/Abs2rel', 'quickly/relative.py')],
 ['quickly.relative.rel2abs', 'quickly.relative.abs2rel'])

prop('C16', 'Rhythm edits change written durations only as documented',
 "Making durations explicit or implicit (also per line) never changes the effective duration of any note, rest, chord, skip, drum or syllable; removing durations or scaling removes exactly those that may be removed and never lets a duration attach to another note; the rhythm transformation applies the same shift, dots and scaling to each written duration. Rhythm copied from one fragment and pasted into another gives each item the copied duration, and everything except durations stays the same.",
 ['inputs', 'programs'], "all music expressions with notes, chords, rests, skips, bare durations, drums, lyrics, tuplets and commands taking durations; all copied rhythm lists, cyclic or not",
 "the tests run each function on one or two fixed lines",
 ['quickly/rhythm.py', 'quickly/dom/lily.py', 'quickly/duration.py'],
 [('rhythm edits', 'quickly/rhythm.py'), ('duration attributes', 'quickly/dom/lily.py HandleDuration, previous_duration')],
 ['quickly.rhythm functions', 'parce.Document.text'])

prop('C17', 'Musical time computed for any node or cursor equals the real time',
 "The computed length of any music expression equals the time it takes in LilyPond, exactly: implied durations, dots, scaling, tuplets and other duration-changing commands, repeats with their alternatives, grace notes, parallel music, empty chords, skips and variables included. The position of a node equals the total of the music before it, lengths and positions add up, and the position and duration reported for a text cursor or selection agree with those of the nodes it denotes.",
 ['inputs', 'programs'], "all music expressions and all nodes and cursor positions within them, with variables in the same document or in included files",
 "the tests compute eleven lengths of fixed fragments",
 ['quickly/time.py', 'quickly/dom/lily.py', 'quickly/duration.py', 'quickly/datatypes.py'],
 [('Time/TimeContext', 'quickly/time.py'), ('time_length/transform per element', 'quickly/dom/lily.py')],
 ['quickly.time.Time'])

prop('C18', 'Every music edit behaves the same on tree, range, document and cursor',
 "Applying any music manipulation to a document tree, to a range covering it, to the source document or to a cursor without selection gives the same resulting music. With a cursor selection (or a partial range) only elements lying inside the selection are changed, and the text outside the selection is left untouched.",
 ['inputs', 'configurations'], "all manipulations (transpose, relative conversions, all rhythm edits), all documents and all selections",
 "the tests apply the manipulations to whole trees only, with one or two selections",
 ['quickly/dom/edit.py', 'quickly/node.py', 'quickly/dom/element.py'],
 [('Edit dispatch', 'quickly/dom/edit.py Edit')],
 ['Edit.edit', 'Edit.edit_node', 'Edit.edit_range', 'Edit.edit_document', 'Edit.edit_cursor'])

prop('C19', 'Variable references and included files resolve as LilyPond resolves them',
 "A variable or markup command reference resolves to the last assignment of that name before the reference, searching the enclosing blocks, then the document, then files included before that point, then the documents that include this one; unknown names resolve to nothing. Include files are searched in the documented order of directories and circular includes terminate.",
 ['inputs', 'configurations', 'histories'], "all sets of files with assignments, references and includes (nested, repeated, circular, missing), all search paths",
 "no test loads included files",
 ['quickly/dom/lily.py', 'quickly/dom/scope.py'],
 [('Lookup', 'quickly/dom/lily.py'), ('Scope', 'quickly/dom/scope.py')],
 ['Reference.get_value', 'Reference.get_value_with_scope', 'quickly.dom.scope.Scope'])

prop('C20', 'Indented output differs from plain output only in whitespace',
 "Pretty-printing any document tree gives text that reads back to an equal tree and contains the same words in the same order as the plain output. Each line starting inside nested blocks is indented by the configured width per level (or aligned with the first item of the block, up to the configured maximum), a line that starts with closing brackets returns to the level outside their blocks, and the starting indent applies to all lines; newlines between elements in the original text, when kept, are preserved up to the configured maximum number.",
 ['inputs', 'configurations'], "all document trees and all combinations of indent width, starting indent and alignment limit",
 "the tests print two templates",
 ['quickly/dom/indent.py', 'quickly/dom/util.py', 'quickly/dom/element.py'],
 [('Indenter', 'quickly/dom/indent.py'), ('add_newlines', 'quickly/dom/util.py')],
 ['Element.write_indented', 'quickly.dom.indent.Indenter', 'quickly.dom.util.add_newlines'])

prop('C21', 'Number names and numerals convert both ways without loss',
 "Converting any non-negative integer to letters or English words (up to 999999999), or any positive one to Roman numerals, and back gives the same integer, the forms follow the usual rules (subtractive Roman notation, spreadsheet-style letters, English number words), and distinct numbers get distinct forms. Parsing ignores unrelated text as documented.",
 ['inputs'], "all integers in the supported range of each notation",
 "the tests check about fifteen values",
 ['quickly/numbering.py'],
 [('conversions', 'quickly/numbering.py')],
 ['quickly.numbering functions'])

prop('C22', 'Block variables and element attributes behave like a dictionary',
 "For every block that holds assignments, setting, replacing, reading and deleting variables in any order behaves like a mapping from names to values: reading gives the last value set (with its type), deleting removes exactly that variable, other assignments and content are untouched, and the names listed are those present. The convenience attributes of notes, tempo, version, include, language and style elements likewise read back what was set and touch nothing else.",
 ['histories', 'inputs'], "all sequences of variable and attribute operations with all supported value types, on blocks built by hand or read from text",
 "the tests set a few header fields once",
 ['quickly/dom/lily.py', 'quickly/datatypes.py'],
 [('HandleAssignments/_Variable', 'quickly/dom/lily.py'), ('attribute properties', 'quickly/dom/lily.py Pitchable, Version, Include, Language, Grob*, Toggle'), ('Properties', 'quickly/datatypes.py')],
 ['Header/Paper/Layout attributes', 'HandleAssignments methods'])

prop('C23', 'Matching spanner ends are found correctly',
 "For any slur, phrasing slur, beam, ligature or other spanner in a piece of music, asking for its other end returns the nearest matching counterpart of the same kind and the same spanner id in the right direction within the same assignment, voice or document, and nothing when there is none; for properly paired spanners the relation is symmetric.",
 ['inputs'], "all music expressions with any arrangement of spanners, ids and enclosing contexts",
 "the tests check three slurs",
 ['quickly/dom/lily.py', 'quickly/node.py'],
 [('find_parallel', 'quickly/dom/lily.py Spanner')],
 ['Spanner.find_parallel'])

prop('C24', 'A document that is edited gives the same tree as its text read afresh',
 "After any series of edits to a document, typed in by the user or written by a music edit, the tree of the document has the same content and the same text positions as the tree that is read from the resulting text at once. Reading or querying a tree, or modifying it and writing the modifications back, never influences a tree that is obtained later.",
 ['histories'], "all series of insertions, deletions, replacements and music edits in a document, with the tree asked for in between",
 "the tests read a document once; no test changes the text after the tree was built",
 ['quickly/lang/lilypond.py', 'quickly/lang/scheme.py', 'quickly/lang/html.py', 'quickly/lang/latex.py', 'quickly/dom/element.py', 'quickly/dom/edit.py'],
 [('transforms, whose results are cached per context by parce', 'quickly/lang/*.py'), ('trees that share cached nodes', 'quickly/dom/element.py build_tree, copy_with_origin')],
 ['parce.Document.get_transform', 'Element.edit', 'quickly.dom.edit.Edit'])

prop('C25', 'Asking changes nothing, and no state is left behind',
 "Every query, on any node of any tree, leaves the tree (heads, spacing, structure, origins, modified state), its document and its text as they were, and gives the same answer whatever was asked before, with the same or with new helper objects (Time, Scope, PitchProcessor, Range). This holds for navigation, positions, writing, indenting, dumping, copying, comparing, computed attributes, musical time, variable lookup, spanners, pitch language, durations. An edit object (transpose, relative, rhythm) that was used for other documents does exactly the same as a new one.",
 ['inputs', 'histories'], "all trees of all languages, read or built, valid or broken, and all series of questions with all arguments; all series of uses of an edit object",
 "the tests ask each question once, of a tree that is thrown away",
 ['quickly/node.py', 'quickly/dom/element.py', 'quickly/dom/lily.py', 'quickly/dom/indent.py', 'quickly/time.py', 'quickly/dom/scope.py', 'quickly/rhythm.py', 'quickly/relative.py', 'quickly/transpose.py'],
 [('caches and helper objects with state', 'quickly/time.py Time, quickly/dom/scope.py Scope, quickly/pitch.py PitchProcessor'), ('edit objects', 'quickly/dom/edit.py Edit and its subclasses')],
 ['queries of Node, Element, Range, Time, Scope', 'Edit.edit'])

prop('C26', 'A file is recognised, loaded, edited and saved without loss',
 "Loading a file gives a document in the language that the given language name, the file name or the contents say (one this package builds trees for), with exactly the text of the file in the given or detected encoding and line end translation, its absolute path, and the tree of that text. An edit works as in a document that was never in a file, and the saved file has the edited text in the same encoding and loads back to it. A file that is missing or can't be decoded is an error, and no file is changed by loading.",
 ['inputs', 'fault_sequences'], "all files: any text in the four languages, any name, encoding, byte order mark and line ends; and files that are missing or broken",
 "no test loads a file",
 ['quickly/__init__.py', 'quickly/lang/lilypond.py', 'quickly/lang/scheme.py', 'quickly/lang/html.py', 'quickly/lang/latex.py'],
 [('registering the languages', 'quickly/__init__.py'), ('load', 'quickly/__init__.py load')],
 ['quickly.load', 'quickly.find', 'parce.Document.save'])

prop('C27', 'A series of different music edits has their combined effect',
 "When transpositions, conversions between absolute and relative entry and rhythm edits follow each other in any order on the same document, selection of everything, or tree, every note sounds at its original height plus the sum of the transpositions, and every duration is what the series of rhythm edits makes of it. No step undoes or disturbs what an earlier one did: octave checks stay right, conversions leave the rhythm alone, rhythm edits leave the pitches alone, and everything else in the text stays. Doing the edits on the tree and writing it back once gives the same words as doing them in the document one by one.",
 ['inputs', 'histories'], "all music texts and all series of the edits in any order with any arguments, on a document, a cursor or a tree, written back in between or at the end",
 "the tests do one edit on a fresh text; none does a second one on the result",
 ['quickly/transpose.py', 'quickly/relative.py', 'quickly/rhythm.py', 'quickly/dom/edit.py', 'quickly/dom/element.py', 'quickly/dom/lily.py', 'quickly/pitch.py', 'quickly/duration.py'],
 [('edits on a tree that was edited before', 'quickly/dom/edit.py Edit'), ('writing back modified nodes', 'quickly/dom/element.py Element.edits')],
 ['Transpose.edit', 'Rel2abs.edit', 'Abs2rel.edit', 'quickly.rhythm'])

prop('C28', 'Music embedded in HTML and LaTeX is understood and edited like music of its own',
 "Every piece of LilyPond music in a HTML or LaTeX document has the meaning it would have as a document of its own: durations, time positions and lengths, pitch language, LilyPond version, variables and the other ends of spanners never depend on the surrounding text or on other music in the document. Transposing, converting octaves or changing the rhythm of the document, of a selection, or of its tree, changes each piece of music exactly as the same edit of the same part changes it on its own. Music outside the selection, and all text around the music, stay as they are.",
 ['inputs'], "all HTML and LaTeX documents with any number of pieces of music, nested in any elements, and all edits with any arguments",
 "no test edits music in a HTML or LaTeX document",
 ['quickly/dom/htm.py', 'quickly/dom/tex.py', 'quickly/lang/html.py', 'quickly/lang/latex.py', 'quickly/rhythm.py', 'quickly/transpose.py', 'quickly/relative.py', 'quickly/pitch.py', 'quickly/dom/lily.py', 'quickly/dom/edit.py'],
 [('state that is followed through the tree: duration, language, version', 'quickly/rhythm.py EditRhythm, quickly/pitch.py PitchProcessor, quickly/dom/util.py lilypond_version')],
 ['Edit.edit', 'previous_duration', 'duration_getter', 'Time', 'PitchProcessor.find_language', 'lilypond_version'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P))
