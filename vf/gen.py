"""Hypothesis strategies shared by the checks.  Every strategy yields JSON-serialisable values."""
from hypothesis import strategies as st

# ---------------------------------------------------------------- identifiers, numbers, text fragments

ODD_LETTERS = 'éÜßñøæŁžИванΩωҐїŞıİſẞǄǅǆǇǈϓﬀﬁŉǰΐK\u212aÅµªº٣४Ⅷⅷ中文字あア한ʰͅ𝔘𐐀𐐨'
ODD_CHARS = '→€«»…“”‘’±×÷§¶•°²½\u0301\u200b\u200d\ufeff\u00ad😀🎉\U0001f600\x00\x07\x1b\x7f\x85\u2028\u2029\xa0\u3000\x0b\x0c\x1c\x1f'

LOWER = ['a', 'x', 'get', 'set', 'foo', 'bar', 'value', 'index', 'name', 'parser', 'http', 'string', 'test', 'tokens',
         'running', 'flies', 'id', 'url', 'w', 't', 'eol', 'aaaa', 'lala', 'erer']
PART = LOWER + ['Foo', 'Bar', 'Value', 'Test', 'Printer', 'X', 'HTTP', 'URL', 'ID', 'XML', 'IO', 'ABC', 'Über', 'über',
                'STRASSE', 'straße', 'Ivan', 'Éé', 'É', 'ÀB', 'İx', 'ẞ', 'K', 'ſ', 'ǅa', '0', '1', '2', '42', '007',
                '1e', 'x1', '_', '__', '中', '变量', 'ΑΒΓ', 'αβγ', 'Αβγ', 'ŉ', 'ﬁ', '𝔘', '٣', 'ª', 'ǆ', 'Ǆ', 'Ω']

word_part = st.one_of(st.sampled_from(PART),
                      st.text('abcdefgXYZ', min_size=1, max_size=6),
                      st.text('abzABZ019_éÜß' + ODD_LETTERS, min_size=1, max_size=5))

KEYWORDS = ['if', 'else', 'for', 'while', 'return', 'class', 'public', 'static', 'void', 'int', 'new', 'null', 'true',
            'def', 'import', 'from', 'lambda', 'function', 'var', 'let', 'const', 'import static', 'package', 'goto',
            'not', 'and', 'or', 'in', 'is', 'instanceof', 'async', 'await', 'fn', 'pub', 'func', 'select', 'end']

NUMBERS = ['0', '1', '2', '10', '255', '007', '3.14', '0.345e+4', '1e10', '1E-5', '.5', '5.', '10L', '10l', '3f', '2.0D',
           '0x1F', '0XfF', '0xCAFEL', '0b101', '0B11', '1_000_000', '0x12_AB', '1e', '0o17', '1.2.3', '12ABC', '0.', '00',
           '1e5f', '9999999999999999999999', '1j', '1u8', '٣', '²', '½']

OPS = ['+', '-', '*', '/', '%', '=', '==', '!=', '<', '>', '<=', '>=', '&&', '||', '!', '&', '|', '^', '~', '<<', '>>>',
       '->', '=>', '::', '?', ':', '.', ',', ';', '(', ')', '{', '}', '[', ']', '@', '@@', '#', '$', '\\', '`', '++',
       '+=', '...', '@Override', '#include <a.h>', '$x', '@@@', '\'', '"']

WS = ['', ' ', ' ', '  ', '   ', '    ', '     ', '        ', '\t', '\t\t', ' \t', '\n', '\n', '\n\n', '\n    ', '\n\t',
      '\r\n', '\r', '\n        ', '\x0c', '\x0b', '\xa0', '\u2028', '\u3000', '\n\n\n', ' \n', '\x1c', '\x85']

MARKERS = ['<w>', '</w>', '<Cap>', '<CAPS>', '<EOF>', '<EOL>', '<comment>', '<str-literal>', '<non-en>',
           '<non-en-content>', '</t>', '÷', '\xf7', '@', '@@', '@@@', '\\n', '\\t', '\\xa0', '\\u00e9', '\\\\', '\\x',
           '\\N', '\\', 't', '</', '""']

STR_BODY = ['', ' ', '  ', '   ', '    ', '     ', 'a', 'hello', 'hello world', 'fooBar', 'foo_bar BAZ', '\\"', "\\'",
            '\\n', '\\\\', '%s', '${x}', '0x12', '10L', '1 2 3', 'Überraschung', 'é è', '日本語', '@', '@@', '/* x */',
            '// y', '\t', 'x\ty', '<w>', '</t>', '\xa0', '÷', 'http://a.b/c?d=e', '{', '}', ';', '=', '     ...     ',
            'a' * 40, 'lorem ipsum dolor sit amet consectetur adipiscing', 'ẞ', 'İ', 'MyFooÜ', '#', '\\', 'A.B-C']

COMMENT_BODY = ['', ' ', ' TODO', ' FIXME 10L', ' see fooBar_baz', ' Über alles', ' 日本', ' a "quoted" string', ' */', ' //',
                ' <comment>', '    indented', '\tx', ' http://x.y', ' @param x', ' 0XAB', ' İstanbul', ' </t> @ @@ ', ' #',
                ' ABCDef', '*', '**', ' x\xa0y']

SNIPPETS = [
    'void test_WordUeberraschungPrinter() {\n    if (eps >= 0.345e+4) { // FIXME 10L\n'
    '        printWord("     ...     Überraschung 0x12");\n    }\n}',
    'public class Foo extends Bar<Baz> {\n\tprivate int myField = 0; /* c */\n}\n',
    'import static java.util.List;\nimport   static a.b.C;\n',
    'def foo(x):\n    """docstring Über"""\n    return x + 1  # comment\n',
    "var x = `template ${y}`; // js\nlet re = /ab+c/gi;\n",
    '#include <stdio.h>\n#define MAX(a, b) ((a) > (b) ? (a) : (b))\nint main(void) { printf("hi\\n"); return 0; }\n',
    "x = 'single' + \"double\" + r'raw\\d' + b'bytes' + f'{x!r}'\n",
    '/** Javadoc {@link Foo#bar}\n * @param x the X\n */\n',
    '<html><body class="a">text &amp; more<!-- comment --></body></html>\n',
    '<?php echo "x"; # c\n?>\n', 'SELECT a, b FROM t WHERE x = \'y\' -- c\n', '{"a": [1, 2.5e3, null], "b": "c d"}\n',
    'char c = \'a\'; char d = \'\\n\'; String e = "";\n', '@Override public String toString() { return "" + 1L; }\n',
    'key: value # yaml\nlist:\n  - a\n', 'echo "$HOME" \'x\' # sh\n', '\\section{A} % tex\n', '--[[ lua ]] local x = 1\n',
    'main = putStrLn "hi" -- hs\n{- block -}\n', 'let x: &str = "a"; /* /* nested */ */ // rust\n', 'a' * 30, 'aB' * 10,
    'int été = 5;', '"unterminated', "'u", '/* unterminated', '//', '/**/', '/***/', '""', "''", '""""""', '"\\"', '`',
    '>>> print(1)\n1\n', '    \n    \n', '\n\n\n', '=begin\nx\n=end\n', 'q{a}', '<<EOS\nheredoc body\nEOS\n', '///', '"""a',
]

LINE_COMMENT = ['//', '#', '--', ';', '%', '///', '"']
BLOCK = [('/*', '*/'), ('/**', '*/'), ('"""', '"""'), ("'''", "'''"), ('<!--', '-->'), ('{-', '-}'), ('--[[', ']]'),
         ('/*', '')]
QUOTES = ['"', '"', '"', "'", "'", '`', '"""', "'''", 'r"', "b'", '']

identifier = st.one_of(
    st.sampled_from(['x', 'foo', 'fooBar', 'FooBar', 'foo_bar', 'FOO_BAR', '_x', '__init__', 'x1', 'HTTPServer', 'getURLFor',
                     'MyFooÜ', 'straße', 'Überraschung', 'a1b2', 'XMLHttpRequest2', 'İstanbul', 'K9', 'e', 'σς', 'ΣΑΣ',
                     'fooBAR', 'fooB', 'A', 'AB', 'Ab', 'aB', 'ABc', '_', '___', 'a_', 'iPhone', 'ǅur', 'ﬁsh', 'ŉ']),
    st.lists(word_part, min_size=1, max_size=5).map(''.join),
    st.lists(word_part, min_size=1, max_size=4).map('_'.join))
long_identifier = st.tuples(st.lists(word_part, min_size=5, max_size=22), st.sampled_from(['', '_'])).map(lambda t: t[1].join(t[0]))

string_body = st.one_of(*[st.lists(st.one_of(st.sampled_from(STR_BODY), identifier), max_size=5).map(''.join)] * 7,
                        st.lists(st.one_of(st.sampled_from(STR_BODY), identifier, st.just(' ')), min_size=6, max_size=24).map(''.join))
string_lit = st.builds(lambda q, b, closed: q + b + (q.lstrip('rb') if closed else ''),
                       st.sampled_from(QUOTES), string_body, st.sampled_from([True] * 9 + [False]))
comment_body = st.one_of(*[st.lists(st.one_of(st.sampled_from(COMMENT_BODY), identifier, string_lit), max_size=4).map(' '.join)] * 7,
                         st.lists(st.one_of(st.sampled_from(COMMENT_BODY), identifier), min_size=8, max_size=30).map(' '.join))
line_comment = st.builds(lambda m, b, nl: m + b + nl, st.sampled_from(LINE_COMMENT), comment_body,
                         st.sampled_from(['\n', '\n', '\n', '', '\r\n']))
block_comment = st.builds(lambda m, b, nl, b2: m[0] + b + nl + b2 + m[1], st.sampled_from(BLOCK), comment_body,
                          st.sampled_from(['', ' ', '\n', '\n * x\n', '\n\n', '\n\n\n', '\n    ', '\n        x\n', '\t', '\n \n']),
                          st.one_of(st.just(''), comment_body))
raw = st.one_of(st.text(st.characters(exclude_categories=['Cs']), max_size=6),
                st.text(ODD_LETTERS + ODD_CHARS, min_size=1, max_size=4),
                st.text(' \n\t"\'/*#\\@<>(){}aA0_.é', max_size=8))

piece = st.one_of(identifier, identifier, identifier, st.sampled_from(KEYWORDS), st.sampled_from(NUMBERS),
                  st.sampled_from(OPS), st.sampled_from(OPS), string_lit, string_lit, line_comment, block_comment,
                  st.sampled_from(SNIPPETS), st.sampled_from(MARKERS), raw, st.one_of(identifier, identifier, long_identifier))

ws = st.sampled_from(WS)


def _resolve(pieces):
    """a number stands for one of the earlier pieces, so that pieces occur more than once"""
    done = []
    for p, w in pieces:
        if isinstance(p, int):
            p = done[-1 - p % len(done)] if done else ''
        done.append(p)
    return ''.join(p + w for p, (_, w) in zip(done, pieces))


piece_or_again = st.one_of(*[piece] * 9, st.integers(0, 5))


def text(max_pieces=14):
    usual = st.lists(st.tuples(piece_or_again, ws), max_size=max_pieces)
    if max_pieces < 14:
        return usual.map(_resolve)
    return st.one_of(*[usual] * 14, st.lists(st.tuples(piece_or_again, ws), min_size=25, max_size=45)).map(_resolve)


HOLDERS = ['%s'] * 5 + ['s = "%s";', '/* %s */\n', '// %s\n', '{%s}']


def _long(t):
    before, unit, sep, n, holder, after = t
    unit = ''.join(p + w for p, w in unit)
    body = sep.join([unit] * min(n, 9000 // (len(unit + sep) or 1)))
    return _resolve(before) + holder.replace('%s', body) + _resolve(after)


def long_text():
    '''thousands of tokens, or a very long literal, comment or word: a few pieces repeated many times'''
    few = st.lists(st.tuples(piece, ws), max_size=4)
    unit = st.lists(st.tuples(st.one_of(piece, identifier, st.sampled_from(OPS + NUMBERS)), ws), min_size=1, max_size=4)
    return st.tuples(few, unit, st.sampled_from(['', ' ', '\n', '_']), st.integers(40, 2500), st.sampled_from(HOLDERS), few).map(_long)


ascii_piece = st.one_of(st.lists(st.sampled_from([p for p in PART if p.isascii()]), min_size=1, max_size=4).map(''.join),
                        st.sampled_from(KEYWORDS), st.sampled_from(OPS), st.sampled_from(['0', '1', '3.14', '0x1F', '10L']))


SEPARATORS = ['"a%sb"' % c for c in '\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029\xa0\ufeff\x00\x1a\u3000'] + [
    '/* a%sb */' % c for c in '\x0b\x0c\x1c\x85\u2028\u2029'] + ['\x0c', '\x85', '\u2028', '\ufeff', '\x1a']


def small_text(max_pieces=8):
    """mostly plain code, for expensive (file system) checks"""
    return st.lists(st.tuples(st.one_of(ascii_piece, ascii_piece, identifier, string_lit, line_comment, st.sampled_from(MARKERS),
                                        st.sampled_from(SNIPPETS), st.sampled_from(SEPARATORS)),
                              st.sampled_from(['', ' ', ' ', '\n', '\n    ', '\t', '\r\n'])),
                    max_size=max_pieces).map(lambda l: ''.join(p + w for p, w in l))


LANGS = ['py', 'python', 'js', 'c', 'cpp', 'cs', 'go', 'rb', 'php', 'html', 'xml', 'css', 'json', 'yaml', 'sh', 'bash', 'sql',
         'hs', 'haskell', 'rs', 'rust', 'kotlin', 'scala', 'swift', 'perl', 'pl', 'lua', 'r', 'tex', 'make', 'ini', 'md',
         'diff', 'text', 'pascal', 'vbnet', 'clojure', 'erlang', 'matlab', 'groovy', 'ts', 'typescript', 'jsp', 'objective-c',
         'dart', 'd', 'fsharp', 'ocaml', 'scheme', 'lisp', 'asm', 'cmake', 'docker', 'elixir', 'julia', 'nim', 'powershell',
         'prolog', 'fortran', 'ada', 'awk', 'batch', 'coffee-script', 'cuda', 'java', 'properties', 'scss', 'tcl', 'vim',
         'xslt', 'django', 'erb', 'pycon', 'toml', 'nasm', 'smali', 'cobol']
lang = st.one_of(st.sampled_from(['java', 'java', 'java', None]), st.sampled_from(['py', 'js', 'c', 'cpp', 'go', 'java']),
                 st.sampled_from(LANGS),
                 st.sampled_from(['', 'h', 'txt', 'unknownext', 'gradle', 'JAVA', 'Py', 'java ', 'pyx', 'é', '1k', 'hpp', '.java', '.py', 'Java']))
MAIN_LANGS = ['java', 'py', 'js', 'c', 'cpp', 'go', 'rb', 'php', 'cs', 'rs', 'sh', 'sql', 'hs', 'kotlin', 'scala', 'lua']
main_lang = st.one_of(st.just('java'), st.sampled_from(MAIN_LANGS))

mode = st.sampled_from(['nosplit', 'basic', 'chars', 'bpe'])
bpe_id = st.sampled_from(['1k', '5k', '10k'])
rare = st.sampled_from([False, False, False, True])
flip = st.booleans()
max_len = st.one_of(st.none(), st.none(), st.integers(2, 61), st.integers(2, 16), st.sampled_from([2, 3, 9, 10, 35, 36, 60, 61]))


def opts(*fields, always=None):
    """random subset of the option names given"""
    d = {}
    for f in fields:
        d[f] = max_len if f == 'max_str_length' else rare if f in ('no_com', 'no_str', 'ronin', 'stem') else flip
    return st.fixed_dictionaries(d).map(lambda o: {k: v for k, v in o.items() if v not in (False, None)} | (always or {}))


ALL_OPTS = ('no_spaces', 'no_unicode', 'no_case', 'no_com', 'no_str', 'full_strings', 'max_str_length', 'split_numbers',
            'append_eof')


def text_case(fields=ALL_OPTS, always=None, modes=mode, langs=lang, max_pieces=14):
    return st.fixed_dictionaries({'text': text(max_pieces), 'ext': langs, 'mode': modes, 'bpe': bpe_id,
                                  'opts': opts(*fields, always=always)})



def long_case(fields=ALL_OPTS, always=None, modes=mode):
    return st.fixed_dictionaries({'text': long_text(), 'ext': st.sampled_from(['java', 'java', 'py', 'js', 'c', 'go']), 'mode': modes,
                                  'bpe': bpe_id, 'opts': opts(*fields, always=always)})

# ---------------------------------------------------------------- datasets

STEMS = ['a', 'b', 'Main', 'x.test', 'with space', 'é', '日本', 'new\nline', "q'uote", 'dq"', 'back\\slash', '.hidden', '-n', '\udce9x',
         'a.b.c', 'UP', '_', 'a\tb', 'x.prep', 'name.java', 'a.parsed', 'b.prep.c', '.parsed', 'part.0', 'a.part', 'ready', '.ready', '']
EXTS = ['.java', '.java', '.java', '.py', '.py', '.js', '.c', '.txt', '', '.unknownext', '.JAVA', '.h', '.java.prep', '.\udcff', '.é',
        '.xml', '.md']
stem = st.one_of(st.sampled_from(STEMS[:3]), st.sampled_from(STEMS))
dir_name = st.one_of(st.sampled_from(['d', 'src', 'e']), st.sampled_from(['d', 'src', 'e', 'dir.java', 'é', 'a b', '.git', '\udcfed', 'x\ny', 'd.prep',
                                                                        'd.parsed', 'src.prepx', 'parsed']))
path = st.tuples(st.lists(dir_name, max_size=3), stem, st.sampled_from(EXTS)).map(lambda t: t[0] + [t[1] + t[2] or 'x'])


latin_text = st.lists(st.one_of(st.text(st.characters(min_codepoint=0x80, max_codepoint=0xff), min_size=1, max_size=5),
                                st.text(st.characters(min_codepoint=0x80, max_codepoint=0xff), min_size=1, max_size=5),
                                st.sampled_from(['foo', 'Bar', '"', '//', '\n', '=', '1', ';'])), min_size=1, max_size=8).map(' '.join)


def corpus_file(content=None, paths=path):
    if content is None:
        return st.one_of(*[corpus_file(small_text(), paths)] * 4, st.fixed_dictionaries({'path': paths, 'data': latin_text, 'enc': st.just('latin-1')}))
    return st.fixed_dictionaries({'path': paths, 'data': content,
                                  'enc': st.sampled_from(['utf-8', 'utf-8', 'utf-8', 'latin-1'])})


def corpus_opts():
    return opts('no_spaces', 'no_unicode', 'no_case', 'no_com', 'no_str', 'full_strings', 'max_str_length', 'split_numbers', 'ronin', 'stem')


corpus_cfg = st.fixed_dictionaries({'mode': mode, 'bpe': st.just('1k'), 'opts': corpus_opts()})
plain_word = st.sampled_from(['foo', 'bar', 'fooBar', 'x1', 'if', '(', ')', '{', '}', '0', '12', 'Über', '"s t"', '// c\n', '\n', '\n', '\t',
                              '@', '\\', 'FOO_BAR', '<EOF>', 'a_b', '='])
tiny_text = st.lists(plain_word, max_size=12).map(' '.join)
ncpu = st.sampled_from([1, 1, 2, 3])
dataset_name = st.sampled_from(['proj', 'proj', 'my corpus', 'p.java', 'dätä', 'a-1', 'x_1'])


@st.composite
def many_files(draw, lo=20, hi=110, exts=('.java', '.java', '.py')):
    """many small files: more than one chunk of work for every process"""
    contents = draw(st.lists(tiny_text, min_size=1, max_size=4))
    n, dirs, ext = draw(st.integers(lo, hi)), draw(st.sampled_from([1, 2, 7, 30])), draw(st.lists(st.sampled_from(exts), min_size=1, max_size=3))
    return [{'path': ['d%d' % (i % dirs), 'f%d%s' % (i, ext[i % len(ext)])], 'data': contents[i % len(contents)] + ' n%d' % (i % 11), 'enc': 'utf-8'}
            for i in range(n)]
