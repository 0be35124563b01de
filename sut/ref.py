"""Independent reference model of codeprep's documented text pipeline.

Trusted: pygments.lex (the documented tokenizer) and the `regex` module.  Nothing of codeprep is imported here.

`parse(text, ext)` -> list of nodes; `render(nodes, ...)` -> list of Full tokens.
"""
import regex
from pygments import lex
from pygments.lexers import get_lexer_by_name, guess_lexer
from pygments.token import Token
from pygments.util import ClassNotFound

NBSP = '\xa0'


class LexerFailure(Exception):
    pass


class Node(object):
    __slots__ = ('kind', 'text', 'subs', 'length')

    def __init__(self, kind, text='', subs=None, length=0):
        self.kind = kind      # nl tab op num kw word char sp str olc mlc eof
        self.text = text
        self.subs = subs
        self.length = length

    def __repr__(self):
        return 'N(%s,%r,%r)' % (self.kind, self.text, self.subs)


_WORDS = regex.compile(r'\w+|[^ ]|    ')
_STRING = regex.compile(r'\w+|[^ ]| +')
_WORD = regex.compile(r'\w+')
_NUM = regex.compile(
    r'0x([0-9a-fA-F]+_)*[0-9a-fA-F]+[lL]?'
    r'|0b([01]+_)*[01]+[lL]?'
    r'|([0-9]+_)*[0-9]+[lLfFdD]?'
    r'|[0-9]+\.[0-9]*([eE][-+]?[0-9]+)?[fFdD]?'
    r'|\.[0-9]+([eE][-+]?[0-9]+)?[fFdD]?'
    r'|[0-9]+[eE][-+]?[0-9]+[fFdD]?')
_PARTS = regex.compile(r'_|[0-9]+|[[:upper:]]?[[:lower:]]+|[[:upper:]]+(?![[:lower:]])|[^ ]')


def _leaf(t):
    if t == '\n':
        return Node('nl', '\n')
    if t == '\t':
        return Node('tab', '\t')
    if _NUM.fullmatch(t):
        return Node('num', t.lower())
    if _WORD.fullmatch(t):
        return Node('word', t)
    return Node('char', t)


def split_words(value):
    return [Node('tab', '\t') if m[0] == '    ' else _leaf(m[0]) for m in _WORDS.finditer(value)]


def split_str(value):
    return [Node('sp', m[0]) if m[0].strip(' ') == '' else _leaf(m[0]) for m in _STRING.finditer(value)]


def pick_lexer(text, ext):
    try:
        return get_lexer_by_name(ext or 'java')
    except ClassNotFound:
        return guess_lexer(text)


def tokens(text, ext):
    try:
        return list(lex(text, pick_lexer(text, ext)))
    except Exception as e:
        raise LexerFailure(repr(e))


def parse(text, ext, strip_trailing_newline=True):
    out = []
    for tt, v in tokens(text, ext):
        if v == '\n':
            out.append(Node('nl', '\n'))
        elif v == '\t':
            out.append(Node('tab', '\t'))
        elif v.strip() == '':
            out.extend(Node('tab', '\t') for _ in range(len(v) // 4))
        elif tt is Token.Operator or tt in Token.Punctuation:
            out.append(Node('op', v))
        elif tt in Token.Literal.Number:
            out.append(Node('num', v.lower(), length=1 if v in ('0', '1') else 0))    # 0 and 1 are atoms
        elif tt in Token.Name or tt is Token.Literal or tt is Token.Literal.Date:
            out.extend(split_words(v))
        elif tt in Token.Keyword:
            out.append(Node('kw', v))
        elif tt in Token.Literal.String:
            out.append(Node('str', v, split_str(v), len(v)))
        elif tt is Token.Comment.Single:
            out.append(Node('olc', v, split_words(v)))
        elif tt in Token.Comment:
            out.append(Node('mlc', v, split_words(v)))
        else:
            out.extend(split_words(v))
    if strip_trailing_newline and out and out[-1].kind == 'nl':
        out.pop()
    return out


def is_ascii(s):
    return all(ord(c) < 128 for c in s)


def ident_parts(w):
    return [m[0] for m in _PARTS.finditer(w)]


def nonascii_runs(s):
    return regex.sub('[^\x00-\x7f]+', '\xf7', s)


class Full(object):
    """one full token: `text` (joined), `subs` (expected subtokens; None when not predicted), `cls` (coarse type),
    `nonproc`: texts it contributes to the never-split set"""
    __slots__ = ('text', 'subs', 'cls', 'nonproc', 'splittable', 'word')

    def __init__(self, text, subs, cls, nonproc=(), splittable=False, word=False):
        self.text = text
        self.subs = subs
        self.cls = cls
        self.nonproc = nonproc
        self.splittable = splittable
        self.word = word            # an identifier (basic mode)

    def __repr__(self):
        return 'F(%r,%r,%s)' % (self.text, self.subs, self.cls)


DEFAULTS = dict(no_spaces=False, no_unicode=False, no_case=False, no_com=False, no_str=False, full_strings=False,
                max_str_length=None, split_numbers=False)


def _wrap(parts):
    if len(parts) == 1 or (len(parts) == 2 and parts[0] in ('<Cap>', '<CAPS>')):
        return parts
    return ['<w>'] + parts + ['</w>']


def case_parts(p):
    """expected `no_case` encoding of one identifier part"""
    if p.islower():
        return [p]
    if p.isupper() and p.lower().upper() == p:
        return ['<CAPS>', p.lower()]
    if p[0].isupper() and p[0].lower().upper() == p[0] and (p[0].lower() + p[1:])[0].upper() + p[1:] == p \
            and not p.isupper():
        return ['<Cap>', p[0].lower() + p[1:]]
    return [p]


def str_text(node):
    """joined text of a string literal: runs of spaces are kept as nbsp"""
    return ''.join(NBSP * len(s.text) if s.kind == 'sp' else s.text for s in node.subs)


def render(nodes, mode, opts):
    """mode: nosplit | basic | bpe (chars counts as bpe; subtokens of splittable tokens are not predicted here)"""
    o = dict(DEFAULTS)
    o.update(opts)
    out = []
    limit = o['max_str_length']

    def leaf(n, cls=None):
        k = n.kind
        if k in ('nl', 'tab'):
            if o['no_spaces']:
                return []
            return [Full(n.text, [n.text], cls or k, (n.text,))]
        if k in ('op', 'char', 'kw', 'eof'):
            return [Full(n.text, [n.text], cls or k, (n.text,))]
        if k == 'sp':
            t = NBSP * len(n.text)
            return [Full(t, [t], cls or 'sp')]
        if k == 'num':
            if mode == 'basic' and o['split_numbers']:
                parts = list(n.text)
                return [Full(n.text, parts if len(parts) == 1 else ['<w>'] + parts + ['</w>'], cls or 'num')]
            return [Full(n.text, [n.text], cls or 'num', splittable=not n.length)]
        if k == 'word':
            if o['no_unicode'] and not is_ascii(n.text):
                if mode == 'bpe':
                    return [Full(nonascii_runs(n.text), None, cls or 'noneng', splittable=True)]
                return [Full('<non-en>', ['<non-en>'], cls or 'noneng')]
            c = cls or ('word' if is_ascii(n.text) else 'noneng')
            # token type: words with non-ascii characters are reported as non-english, or as plain words
            if mode == 'basic':
                parts = []
                for p in ident_parts(n.text):
                    parts.extend(case_parts(p) if o['no_case'] else [p])
                return [Full(n.text, _wrap(parts), c, word=True)]
            return [Full(n.text, [n.text], c, splittable=True)]
        raise AssertionError(k)

    for n in nodes:
        if n.kind in ('olc', 'mlc'):
            if o['no_com']:
                out.append(Full('<comment>', ['<comment>'], n.kind))
                continue
            for s in n.subs:
                out.extend(leaf(s, n.kind))
            if n.kind == 'olc':
                out.append(Full('<EOL>', ['<EOL>'], 'olc'))
        elif n.kind == 'str':
            if o['no_str']:
                out.append(Full('<str-literal>', ['<str-literal>'], 'str'))
            elif limit is not None and n.length > limit:
                full = o['full_strings'] and mode == 'nosplit'
                out.append(Full('""', ['""'] if full else ['"', '"'], 'str', () if full else ('"',)))
            elif mode == 'bpe' or (o['full_strings'] and mode == 'nosplit'):
                t = str_text(n)
                if o['no_unicode']:
                    t = NBSP.join(nonascii_runs(x) for x in t.split(NBSP))
                out.append(Full(t, [t], 'str', splittable=True))
            else:
                for s in n.subs:
                    if s.kind != 'sp':
                        out.extend(leaf(s, 'str'))
        else:
            out.extend(leaf(n))
    return out


EOF_NODE = Node('eof', '<EOF>')


# ---------------------------------------------------------------- BPE reference

def bpe_symbols(word):
    """characters of a word in the encoder's alphabet: '@' is written '@@', the word end is a final '@'"""
    return ['@@' if c == '@' else c for c in word] + ['@']


def bpe_merge(symbols, ranks):
    """textbook BPE: repeatedly merge, left to right, every occurrence of the best-ranked adjacent pair"""
    symbols = list(symbols)
    while True:
        best = None
        for i in range(len(symbols) - 1):
            r = ranks.get((symbols[i], symbols[i + 1]))
            if r is not None and (best is None or r < best[0]):
                best = (r, (symbols[i], symbols[i + 1]))
        if best is None:
            return symbols
        a, b = best[1]
        res, i = [], 0
        while i < len(symbols):
            if i + 1 < len(symbols) and symbols[i] == a and symbols[i + 1] == b:
                res.append(a + b)
                i += 2
            else:
                res.append(symbols[i])
                i += 1
        symbols = res


def bpe_unescape(symbols):
    """inverse of bpe_symbols on an encoded word"""
    assert symbols and symbols[-1].endswith('@')
    s = symbols[:-1] + [symbols[-1][:-1]]
    return [x.replace('@@', '@') for x in s]


def bpe_subwords(word, ranks):
    return bpe_unescape(bpe_merge(bpe_symbols(word), ranks))


def read_ranks(path, n=None):
    ranks = {}
    with open(path, encoding='utf-8') as f:
        for i, line in enumerate(f):
            if n and i >= n:
                break
            a, b = line.rstrip('\n').encode('latin-1', 'backslashreplace').decode('unicode-escape').split(' ')[:2]
            ranks[(a, b)] = i
    return ranks
