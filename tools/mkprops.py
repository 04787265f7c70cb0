#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing; both files are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
S = 'src/main/c/'
def P(id, title, statement, over, qtext, why, files, mech):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech]))
L = []
def A(*a): L.append(P(*a))
A('C01', 'Text content survives printing as XMQ and parsing back',
  'Whatever text an element or attribute holds, printing the document as XMQ (indented or compact, with any escaping settings) and parsing the result gives exactly the same text. This includes leading and trailing whitespace and newlines, runs of quotes, tabs, carriage returns, text that looks like syntax, entity-like text and any UTF-8.',
  ['inputs', 'configurations'], 'every text of any length over all characters an XML document can hold, in an element or attribute at any nesting depth, times every combination of compact/indent/escape settings',
  'The tests print about two hundred fixed documents; whether quoting is needed and how many quotes, which lines are indented and which characters must become entities depends on combinations (quote next to newline next to space...) no list of samples settles.',
  ['parts/xmq_printer.c', 'parts/text.c', 'parts/xmq_parser.c', 'xmq.c'],
  [('choice of value form and quoting', 'parts/xmq_printer.c'), ('quote trimming when parsing', 'xmq.c'), ('text scanners', 'parts/text.c')])
A('C02', 'Comments survive printing as XMQ and parsing back',
  'A comment printed as XMQ and parsed back has the same text, for indented and for compact output, including comments with several lines and comments that contain comment markers. The printed comment never ends early and never swallows what follows it.',
  ['inputs', 'configurations'], 'every comment text of any length, at any nesting depth, in indented and compact output',
  'Tests contain a handful of comments; how many slashes delimit a comment depends on the runs of slashes and stars inside it, which is unbounded.',
  ['parts/xmq_printer.c', 'parts/xmq_parser.c', 'xmq.c'],
  [('slash counting and comment printing', 'parts/xmq_printer.c'), ('comment tokens', 'parts/xmq_parser.c'), ('comment trimming', 'xmq.c')])
A('C03', 'Document structure survives printing as XMQ and parsing back',
  'Elements, attributes, namespaces, comments, processing instructions and their order are the same after printing a document as XMQ and parsing the result, in indented and compact form. Formatting is stable: printing the parsed result again gives the same bytes.',
  ['inputs', 'programs', 'configurations'], 'every document tree the parser can produce, times compact/indent settings',
  'Whether two neighbouring tokens need a separator depends on the pair of neighbours and on their content; the tests hold a few hundred pairs.',
  ['parts/xmq_printer.c', 'parts/xmq_parser.c', 'xmq.c'],
  [('separators between printed tokens', 'parts/xmq_printer.c'), ('node printing', 'parts/xmq_printer.c'), ('tree building', 'xmq.c')])
A('C04', 'Parsing any bytes ends, stays in memory, and reports bad input',
  'For every byte sequence the XMQ and JSON parsers return, with a document or with an error, without reading or writing outside their memory, without undefined behaviour, without aborting and without looping for ever. A failed parse always says what was wrong.',
  ['inputs'], 'every byte sequence of every length given to the XMQ and JSON parsers (nesting depth within the stack limit), with every trim flag',
  'Tests feed well formed documents and a dozen errors; memory safety and termination are about all malformed inputs, of which they hold next to none.',
  ['parts/xmq_parser.c', 'parts/xmq_internals.c', 'parts/json.c', 'parts/text.c', 'xmq.c'],
  [('tokenizer loops', 'parts/xmq_parser.c'), ('JSON parser', 'parts/json.c'), ('position and error messages', 'parts/xmq_internals.c'), ('UTF-8 peeking', 'parts/text.c')])
A('C05', 'Tokens come in order, within the input, with exact line and column',
  'The tokenizer reports tokens in input order, without overlap and inside the input, each with the line and column (in code points, both from 1) of its first character. Whatever lies between two reported tokens is nothing or a delimiter of the token itself; no content character is lost or reported twice.',
  ['inputs'], 'every XMQ text of any length, including texts with multi byte characters, tabs and every newline arrangement',
  'Tests look at token streams of a few short ASCII lines; the position after a token depends on everything the token contains.',
  ['parts/xmq_parser.c', 'parts/xmq_internals.c'],
  [('position increment', 'parts/xmq_internals.c'), ('token eaters', 'parts/xmq_parser.c')])
A('C06', 'Multi-line quotes and comments lose exactly their incidental indentation',
  'Reading a multi line quote removes one leading newline, one trailing newline with the spaces around it, and from each following line exactly the indentation all lines that are not blank have in common (the first line counting with its column, a tab counting as eight columns and removed whole when it begins inside that indentation), and the spaces and tabs at the end of each line but the last; every other character is kept in order. A quote or comment on one line is kept as it is, apart from its delimiters and the spaces next to comment delimiters.',
  ['inputs'], 'every quote or comment text of any length and number of lines, starting in any column',
  'The common indentation is a minimum over an unbounded number of lines; tests hold a few dozen quotes of two to five lines.',
  ['xmq.c'], [('incidental indentation', 'xmq.c'), ('quote and comment delimiters', 'xmq.c')])
A('C07', 'UTF-8 encoding and decoding are exact and inverse',
  'Every code point from 0 to 0x10FFFF is encoded as the UTF-8 standard says and decodes back to itself; nothing else is encoded. Decoding never reads past the end of the text, accepts exactly a lead byte followed by its continuation bytes, and otherwise skips a single byte.',
  ['inputs'], 'all code points and all byte sequences, at every distance from the end of the buffer',
  'Tests touch a dozen characters of a million, and no truncated or malformed sequence.',
  ['parts/text.c', 'parts/utf8.c'], [('encoder and decoder', 'parts/text.c'), ('printing of characters', 'parts/utf8.c')])
A('C08', 'JSON strings are unescaped and escaped exactly',
  'Reading a JSON string gives exactly the characters it denotes, with all escapes of the JSON standard including surrogate pairs, and rejects malformed escapes. Writing a text as a JSON string gives a valid JSON string that denotes the same text.',
  ['inputs'], 'every text of any length over all characters an XML document can hold; every JSON string literal, valid or not',
  'Tests have a few escapes; a wrong digit, a lone surrogate or an escape at the end of the input are combinations they do not hold.',
  ['parts/json.c', 'parts/xmq_internals.c', 'xmq.c'], [('string reader and writer', 'parts/json.c')])
A('C09', 'JSON is accepted exactly when it is JSON',
  'The JSON reader accepts every text the JSON standard allows and rejects every text it does not allow, with three extensions the standard leaves to readers: a comma behind the last value of an array or object, raw control characters in strings, and the spaces XMQ knows (U+00A0, U+2000 to U+2003) between tokens. Numbers, true, false and null keep their exact spelling and kind.',
  ['inputs'], 'every byte sequence of any length: valid and invalid JSON',
  'Tests feed valid JSON files; rejection of everything else, and every spelling of a number, are outside of what they sample.',
  ['parts/json.c'], [('number grammar', 'parts/json.c'), ('array, object and value readers', 'parts/json.c')])
A('C10', 'JSON data survives conversion to a document and back',
  'A JSON value read into a document and written as JSON again is the same value: same keys in the same order, same array elements, same strings, numbers, booleans and nulls. The same holds when the document is printed as XMQ and parsed in between.',
  ['inputs', 'programs'], 'every JSON value of any size and nesting (keys starting with one of _ | / & ! ?, keys with an index suffix or colon, duplicate keys and a top level scalar aside)',
  'Keys that are no XML names, empty containers, mixed arrays and strings that look like numbers interact; tests hold a few dozen fixed files.',
  ['parts/json.c', 'xmq.c'], [('JSON to tree', 'parts/json.c'), ('tree to JSON', 'parts/json.c')])
A('C11', 'Content type detection and byte order marks',
  'The detected content type depends only on the content: leading whitespace and comments do not change it; content starting with < is HTML when the first tag behind comments is html or a doctype html, else XML; content starting with {, [, a double quote or a digit is JSON, and so is a lone true, false or null (at most a newline behind it); everything else is XMQ. Detection reads only the given bytes. When parsing a buffer or file of unknown type one UTF-8 byte order mark is skipped exactly once and a UTF-16 one is an error.',
  ['inputs'], 'every byte sequence of every length, including the empty one and those that end inside a mark, a comment or a keyword',
  'Tests feed files of each kind; what happens at each possible end of input is not among them.',
  ['xmq.c', 'parts/json.c'], [('content type detection', 'xmq.c'), ('byte order mark', 'xmq.c')])
A('C12', 'Comments with double hyphens survive conversion to XML and back',
  'The text written into an XML comment never contains two adjacent hyphens and never ends in one, whatever the XMQ comment holds. Reading it back gives the original comment text.',
  ['inputs'], 'every comment text of any length, with every arrangement of hyphens and of the character that separates them',
  'The tests contain two such comments; runs of hyphens of every length next to the separator character are unbounded.',
  ['xmq.c'], [('escaping of XML comments', 'xmq.c')])
A('C13', 'Output buffers hold exactly what was written',
  'Printing into memory yields exactly the bytes that were written, in order, whatever their number and sizes, and the result is within the allocated memory. Growing the buffer never loses or changes what is already there.',
  ['histories', 'inputs'], 'every sequence of writes of any sizes, in every state of the buffer',
  'The boundary between fitting and growing is met only at certain sizes modulo the growth step; tests write what they happen to write.',
  ['parts/membuffer.c', 'xmq.c'], [('growing buffer', 'parts/membuffer.c'), ('printing to memory', 'xmq.c')])
A('C14', 'Vectors, stacks and hash maps behave as such',
  'A vector returns at each index what was pushed there, a stack pops in reverse order and rocks from its bottom, and a hash map returns for each key the last value put under it and iterates over each key once. Each holds after every sequence of operations, and sizes always count the elements.',
  ['histories'], 'every sequence of operations of any length, with any keys, including colliding ones, and any capacity',
  'No test covers the collections on their own; growth boundaries, collisions and an emptied stack need particular histories.',
  ['parts/vector.c', 'parts/stack.c', 'parts/hashmap.c'], [('vector', 'parts/vector.c'), ('stack', 'parts/stack.c'), ('hash map', 'parts/hashmap.c')])
A('C15', 'Unicode categories hold exactly the code points of their tables',
  'A code point is reported to be in a unicode category exactly when the table of that category contains it, for every code point and every category, and an unknown category is reported as unknown. The tables are sorted, which the search relies on, and every character of the basic plane (ideographs aside) is in the category Unicode gives it.',
  ['inputs'], 'all 0x110000 code points times all categories and all category names',
  'Tests use three categories on a few characters; an off by one in a binary search shows on single code points only.',
  ['parts/text.c', 'parts/ixml.c'], [('table search', 'parts/text.c')])
A('C16', 'Colour and markup rendering never changes the content',
  'Rendering a document for a terminal, as HTML or for TeX yields the plain output with markup added: removing the markup and decoding the escapes of the target gives back the plain output. No character of the content appears in a form the target would interpret as markup.',
  ['inputs', 'configurations'], 'every document with every content, times every render format and colour setting',
  'Each character class takes its own path through the renderers and each syntax element has its own markup; tests render three documents.',
  ['parts/xmq_printer.c', 'parts/colors.c', 'xmq.c'], [('safe writers', 'xmq.c'), ('token writers', 'parts/xmq_printer.c')])
A('C17', 'Log lines quote their values so that they parse back',
  'A log line (not the human readable kind, which holds its single value as it is) built from keys and formatted values parses as XMQ to one element with the given name, holding exactly the given keys and values in order. A value quoted for a single line contains no newline and parses back to itself.',
  ['inputs', 'configurations'], 'every text value of any length (UTF-8 without control characters but tab, newline and carriage return), with one to many key value pairs; in human readable mode a single value is kept as it is',
  'Values are quoted according to their content; the tests use a few short words, and no value longer than a kilobyte.',
  ['xmq.c'], [('compact quoting', 'xmq.c'), ('line printing', 'xmq.c')])
A('C18', 'Typed getters return the value the content denotes',
  'Asking for a string returns the exact content of the node found, and asking for a number returns the number its content denotes in decimal, hexadecimal or octal. When the path matches nothing the result is zero or nothing, and the first match in document order counts.',
  ['inputs'], 'every content of the selected node, every int, long and double value, every path',
  'Tests read a handful of small numbers; limits, signs and prefixes are not covered.',
  ['xmq.c'], [('getters', 'xmq.c')])
A('C19', 'A parse error names the place where the input is wrong',
  'The error text of a failed XMQ parse starts with the source name, line and column of the offending place, and shows that line of the input with a caret under that column. Line and column are those of the input as given, also behind tabs and multi byte characters.',
  ['inputs'], 'every malformed XMQ text: every error kind at every line and column',
  'Tests check the text of a dozen errors, all in short ASCII lines.',
  ['parts/xmq_internals.c', 'parts/xmq_parser.c'], [('error message', 'parts/xmq_internals.c')])
A('C20', 'Colour definitions are read and rendered exactly',
  'A colour definition #RRGGBB with optional bold and underline marks is accepted exactly when it is well formed, and denotes the given components. The terminal, html and TeX forms made from it name the same components.',
  ['inputs'], 'every colour definition text; all 2^24 colours times the bold and underline marks',
  'Tests use the built in themes only.',
  ['parts/colors.c'], [('hex parsing', 'parts/colors.c'), ('colour strings', 'parts/colors.c')])
A('C21', 'Entities and character references denote the same characters throughout',
  'A decimal or hexadecimal character reference in XMQ denotes the character with that code point, and the predefined entities denote their characters, wherever they appear and to whichever format the document is written. Other entities are kept by name, and a reference that denotes no character is an error.',
  ['inputs'], 'every code point in decimal and hexadecimal spelling with any leading zeros, every entity name, in values, attributes and compounds',
  'Tests use about ten of a million references and none that is invalid.',
  ['xmq.c', 'parts/xml.c', 'parts/xmq_parser.c', 'parts/entities.c'], [('entity nodes', 'xmq.c'), ('entity decoding', 'parts/xml.c')])
A('C30', 'ixml grammars parse exactly their language',
  'A text parsed with an ixml grammar is accepted exactly when the grammar derives it, and the document shows a derivation.',
  ['inputs', 'programs'], 'every grammar and every input', 'Tests hold some hundred grammars.',
  ['parts/ixml.c', 'parts/yaep.c'], [('Earley parser', 'parts/yaep.c')])
A('C31', 'XML and HTML are read and written faithfully',
  'Reading XML or HTML yields the document it denotes and writing yields text that denotes the document.',
  ['inputs'], 'every XML and HTML text', 'Tests hold a few hundred documents.',
  ['xmq.c'], [('calls into libxml2', 'xmq.c')])
A('C32', 'XSLT transforms give the result the stylesheet defines',
  'Applying a stylesheet to a document gives the document the XSLT standard defines.',
  ['inputs', 'programs'], 'every stylesheet and document', 'Tests hold some transforms.',
  ['xmq-cli.c'], [('transform command', 'xmq-cli.c')])
A('C33', 'The command line runs its commands in order with their documented effect',
  'Every command sequence of the command line tool has the documented effect of its commands in the order given, and the pager shows the requested part of the document.',
  ['histories', 'configurations'], 'every sequence of commands and options, every terminal size', 'Tests run some dozens of command lines.',
  ['xmq-cli.c'], [('command table', 'xmq-cli.c')])
NA = {
 'C30': 'Correctness of the Earley parser (yaep.c, 9000 lines of pointer structures over arbitrary grammars) needs heap invariants over unbounded linked and hashed structures, which the only C deductive verifier installed (CBMC contracts, no quantified heap predicates) cannot express; no contract within reach decides it.',
 'C31': 'The work is done inside libxml2, which is an external library without source here; a contract on it would assume the property.',
 'C32': 'The work is done inside libxslt, an external library without source here; a contract on it would assume the property.',
 'C33': 'The effect of command sequences goes through libxml2/libxslt trees, the terminal and the file system; none of it can be put under CBMC contracts, and contracts assumed on those would be the property itself.',
}
from props import PROPS
with open(V + '/properties.jsonl', 'w') as f:
    for p in L:
        f.write(json.dumps(p) + '\n')
checks = []
na = []
for p in L:
    i = p['id']
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd='python3 lib/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 lib/check.py ' + i,
            technique=PROPS[i].get('technique', 'CBMC function and loop contracts on the real code (deductive, unbounded), executed contracts as bounded stand-in'),
            level=PROPS[i].get('level', 'proof'), level_note=PROPS[i]['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
json.dump(dict(version=1, setup_cmd='python3 lib/setup.py', checks=checks, not_applicable=na,
     notes='No hooks in /repo: contracts are inserted mechanically into a copy of the current sources on every run (lib/annot.py).'),
     open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(L), 'properties', len(checks), 'checks')

def design():
    import vf
    from props import PROPS
    D = open(V + '/tools/DESIGN.in.md').read()
    pr = {json.loads(l)['id']: json.loads(l) for l in open(V + '/properties.jsonl')}
    t = []
    for i, d in pr.items():
        if i not in PROPS:
            continue
        t.append('### %s %s\n%s\n' % (i, d['title'], PROPS[i].get('design', '')))
        for n in PROPS[i]['units']:
            u = vf.parse_unit('%s/units/%s.c' % (V, n))
            fs = ', '.join(list(u['spec']) + u['inline'])
            t.append('* `%s`%s: %s.%s' % (n, ' (x)' if u['noproof'] else '', u['title'], ' Under contract: %s.' % fs if fs and not u['noproof'] else ''))
        t.append('')
    D = D.replace('@@TABLE@@', '\n'.join(t))
    c = {}
    p = V + '/tools/caught.json'
    if os.path.exists(p):
        c = json.load(open(p))
    s = ['| change | property | what it breaks | caught by |', '|---|---|---|---|']
    for n in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
        m = json.load(open('%s/seeded/%s/meta.json' % (V, n)))
        s.append('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'].replace('|', '\\|'), c.get(n, '?')))
    D = D.replace('@@SEEDED@@', '\n'.join(s))
    open(V + '/DESIGN.md', 'w').write(D)
design()
