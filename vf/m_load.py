"""C26: files are loaded in their own language, edited and saved."""
import codecs
import os
import shutil
import tempfile

import parce

from . import g as G
from . import gen_lily, gen_music, gen_rhythm, gen_text
from .core import enumerated, expect, rule, same, sub
from .lib import Html, Latex, LilyPond, Scheme, document, lily, read, show
from .m_live import EDITS, same_tree_pos

import quickly

rule('C26', "the file has at least 30 characters, and is not plain ASCII, has a name or encoding that matters, or is edited")

LEXICONS = {'lilypond': LilyPond.root, 'scheme': Scheme.root, 'html': Html.root, 'latex': Latex.root}
READERS = {'lilypond': read.lily_document, 'scheme': read.scm_document, 'html': read.htm_document, 'latex': read.tex_document}
ENDINGS = {'lilypond': ['.ly', '.ly', '.ily', '.lyi'], 'scheme': ['.scm'], 'html': ['.html', '.htm'], 'latex': ['.tex', '.lytex', '.sty', '.cls']}
NAMES = {'lilypond': ['lilypond', 'LilyPond'], 'scheme': ['scheme', 'Scheme', 'guile'], 'html': ['HTML', 'html'], 'latex': ['LaTeX', 'latex', 'TeX']}
STEMS = ['a', 'my music', 'a.b', 'música', '音', 'x.html-1', 'score-1', '.hidden', 'a#b', 'ly', '100%20', "it's"]
# text that makes the language clear, without a file name that does
CLEAR = {'lilypond': '\\version "2.24.0"\n', 'scheme': '(define x 1)\n', 'html': '<!DOCTYPE html>\n<html>', 'latex': '\\documentclass{article}\n'}
UNCLEAR = ['.txt', '', '.x', '.backup']
EXTRA = {'lilypond': ['% é\n', '%{ “音” %}\n', '% ÿ×\n'], 'scheme': ['; é\n', '; “音”\n'], 'html': ['<p>é</p>\n', '<p>“音”</p>\n'],
         'latex': ['% é\n', 'é\n', '“音”\n']}
DECLARE = {'lilypond': '% encoding: {}\n', 'scheme': '; encoding: {}\n', 'html': '<meta charset="{}">\n', 'latex': '% encoding: {}\n'}
BOMS = {'utf-8-bom': ('utf-8', codecs.BOM_UTF8), 'utf-16-le-bom': ('utf-16-le', codecs.BOM_UTF16_LE), 'utf-16-be-bom': ('utf-16-be', codecs.BOM_UTF16_BE)}


def _file(g):
    lang = g.weighted([(6, 'lilypond'), (2, 'scheme'), (2, 'html'), (2, 'latex')])
    text = gen_text.valid(g, lang)
    if g.chance(50):
        text = g.choice(EXTRA[lang]) + text
    how = g.weighted([(5, 'name'), (2, 'contents'), (2, 'lexicon'), (2, 'language'), (1, 'none')])
    if lang == 'html' and how == 'name':
        text = '<html>\n' + text
    ending = g.choice(ENDINGS[lang])
    if how == 'contents':
        text = CLEAR[lang] + text
        ending = g.choice(UNCLEAR)
    elif how != 'name':
        ending = g.choice(UNCLEAR + ['.ly', '.html', '.py'])
    enc = g.weighted([(4, None), (2, 'latin1'), (1, 'cp1252'), (1, 'utf-8'), (1, 'utf-8-bom'), (1, 'utf-16-le-bom'), (1, 'utf-16-be-bom'), (2, 'declared latin1'), (1, 'declared iso-8859-15')])
    return dict(lang=lang, text=text, how=how, arg=g.choice(NAMES[lang]) if how == 'language' else None, name=g.choice(STEMS) + ending, enc=enc,
                eol=g.choice(['\n', '\n', '\n', '\r\n', '\r']), newline=g.choice([None, None, None, '', '\n']),
                relative=g.chance(40), edit=(g.choice(list(EDITS)), g.int(0, 20)) if lang == 'lilypond' and g.chance(60) else None)


def _says_encoding(text):
    return 'coding' in text or 'charset' in text


@sub('C26', 'files', lambda: G.strategy(_file), 1500)
def c26_files(case, ctx):
    lang, text, how, enc = case['lang'], case['text'].replace('\r', ' '), case['how'], case['enc']
    if _says_encoding(text):
        ctx.label('names an encoding')
        return
    if how == 'contents' and any(m in text[len(CLEAR[lang]):] for m in ('\\version', '(define', '<html', '<HTML', '<!', '\\document')):
        ctx.label('not so clear')
        return
    codec, bom = BOMS.get(enc, (enc or 'utf-8', b''))
    declared = codec.startswith('declared ')
    if declared:
        codec = codec.split()[1]
        text = DECLARE[lang].format(codec) + text
        if how == 'none':
            how = 'lexicon'
    written = text.replace('\n', case['eol'])
    data = written.encode(codec, 'replace')
    written = data.decode(codec)
    # what Python makes of the line ends
    if case['newline'] is None:
        expected = written.replace('\r\n', '\n').replace('\r', '\n')
    else:
        expected = written
    top = tempfile.mkdtemp(prefix='vf-c26-')
    here = os.getcwd()
    try:
        os.mkdir(os.path.join(top, 'sub dir'))
        path = os.path.join(top, 'sub dir', case['name'])
        with open(path, 'wb') as f:
            f.write(bom + data)
        os.chdir(top)
        name = os.path.join('.', 'sub dir', case['name']) if case['relative'] else path
        args = {}
        if how == 'lexicon':
            args['lexicon'] = LEXICONS[lang]
        elif how == 'language':
            args['lexicon'] = case['arg']
        elif how == 'none':
            args['lexicon'] = None
        if enc and not bom and not declared:
            args['encoding'] = enc
        if case['newline'] is not None:
            args['newline'] = case['newline']
        what = 'load(%r, %r)' % (name, args)
        doc = quickly.load(name, **args)
        same(doc.text(), expected, "text of " + what)
        same(doc.url, path, "url of " + what)
        with open(path, 'rb') as f:
            same(f.read(), bom + data, "the file after " + what)
        expect(not doc.modified, "%s: the new document is modified", what)
        lexicon = None if how == 'none' else LEXICONS[lang]
        expect(doc.root_lexicon() is lexicon, "%s: root lexicon is %r, expected %r, contents %r", what, doc.root_lexicon(), lexicon, expected[:200])
        tree = doc.get_transform(True)
        if lexicon is None:
            expect(tree is None, "%s: tree is %r", what, tree)
        elif expected:
            same_tree_pos(tree, READERS[lang](expected, True), "tree of " + what)
        changed = False
        if case['edit'] and how != 'none':
            action, value = case['edit']
            other = document(LilyPond.root, expected)
            results = []
            for d in doc, other:
                try:
                    EDITS[action](parce.Cursor(d), value)
                except (IndexError, KeyError) as e:
                    results.append(type(e))
            same(results[:1], results[1:], "errors of %r in %s" % (action, what))
            same(doc.text(), other.text(), "the text after %r in %s" % (action, what))
            changed = doc.text() != expected
            if not results and changed:
                expect(doc.modified, "%s: not modified after %r", what, action)
                ctx.label('edited')
        # saving and loading again
        edited = doc.text()
        doc.save(newline='')
        with open(path, 'rb') as f:
            saved = f.read()
        same(saved.decode(codec), edited, "the text saved by " + what)
        args['newline'] = ''
        if bom:
            args.update(encoding=codec, lexicon=lexicon)    # parce does not write the byte order mark
        again = quickly.load(path, **args)
        same(again.text(), edited, "the text of the file saved and loaded again, " + what)
        if lexicon and edited:
            same_tree_pos(again.get_transform(True), READERS[lang](edited, True), "tree of the file saved and loaded again, " + what)
        same(sorted(os.listdir(os.path.dirname(path))), [case['name']], "files")
    finally:
        os.chdir(here)
        shutil.rmtree(top)
    ctx.label(how)
    ctx.label(enc or 'default')
    ctx.nontrivial(len(text) >= 30 and (how == 'name' or changed or not text.isascii() or bool(bom)))


# ---- finding a language --------------------------------------------------------------------------

MIMES = {'text/html': None, 'text/x-latex': 'latex', 'application/x-latex': 'latex', 'text/x-lilypond': 'lilypond',
         'text/x-script.scheme': 'scheme', 'text/x-script.guile': 'scheme'}
FIND = [(lang, dict(name=n)) for lang in NAMES for n in NAMES[lang]] \
     + [(lang, dict(filename=stem + e)) for lang in ENDINGS if lang != 'html' for e in sorted(set(ENDINGS[lang])) for stem in STEMS] \
     + [('html', dict(filename=stem + e, contents=CLEAR['html'])) for e in ENDINGS['html'] for stem in STEMS] \
     + [(lang, dict(mimetype=m)) for m, lang in MIMES.items() if lang] \
     + [(lang, dict(contents=t)) for lang, t in CLEAR.items()]


@enumerated('C26', 'find', FIND)
def c26_find(case, ctx):
    """The registry gives the languages of this package, that can be transformed to a DOM tree."""
    lang, args = case
    lexicon = quickly.find(**args)
    expect(lexicon is LEXICONS[lang], "find(%r) gives %r", args, lexicon)
    text = CLEAR[lang]
    tree = parce.Document(lexicon, text, transformer=True).get_transform(True)
    same(type(tree), type(READERS[lang](text)), "tree for find(%r)" % args)
    ctx.nontrivial(args)


# ---- files that can't be read --------------------------------------------------------------------

def _bad(g):
    text = gen_music.text(g) + '\n'
    pos = g.int(0, 40)
    return text, pos, g.choice([b'\xff', b'\xc3', b'\x80\x80', b'\xe9']), g.choice(['strict', None, 'replace', 'ignore', 'surrogateescape'])


@sub('C26', 'undecodable', lambda: G.strategy(_bad), 300)
def c26_undecodable(case, ctx):
    """Bytes that are not UTF-8 give an error, or what the error handler makes of them; a missing file gives an OSError."""
    text, pos, bad, errors = case
    data = text.encode('utf-8')
    pos = min(pos, len(data))
    data = data[:pos] + bad + data[pos:]
    try:
        expected = data.decode('utf-8', errors or 'strict').replace('\r\n', '\n').replace('\r', '\n')
    except UnicodeDecodeError:
        expected = None
    top = tempfile.mkdtemp(prefix='vf-c26-')
    try:
        path = os.path.join(top, 'a.ly')
        for name in (path, top):
            try:
                quickly.load(name)
            except OSError:
                pass
            else:
                expect(False, "loading %r, that is not a file, gives a document", name)
        same(os.listdir(top), [], "files after loading a missing file")
        with open(path, 'wb') as f:
            f.write(data)
        try:
            doc = quickly.load(path, errors=errors)
        except UnicodeDecodeError:
            expect(expected is None, "%r can't be loaded with errors=%r", data, errors)
        else:
            same(doc.text(), expected, "text of %r, loaded with errors=%r" % (data, errors))
            same_tree_pos(doc.get_transform(True), read.lily_document(expected, True), "tree of %r" % expected)
    finally:
        shutil.rmtree(top)
    ctx.label('error' if expected is None else errors)
    ctx.nontrivial(len(text) >= 30)
