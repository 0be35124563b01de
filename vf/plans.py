"""Registry of the checks: generators, budgets, and what the evidence says about them."""
from hypothesis import strategies as st

import gen


class Check(object):
    def __init__(self, id, rule, plan, level='exploration', assumptions=(), timeout=90, wall=None, history=True,
                 preload=False, shards=0, confirm_tries=1):
        self.id = id
        self.rule = rule
        self._plan = plan
        self.level = level
        self.assumptions = list(assumptions)
        self.timeout = timeout
        self.wall = wall or {'quick': 420, 'thorough': 3000}
        self.history = history
        self.preload = preload
        self.shards = shards
        self.confirm_tries = confirm_tries

    def plan(self, tier):
        """[(generator name, strategy, number of cases over all shards)]"""
        return [(name, s, q if tier == 'quick' else t) for name, s, q, t in self._plan]


CHECKS = {}


def add(*a, **k):
    c = Check(*a, **k)
    CHECKS[c.id] = c


LEXER = 'pygments.lex and the regex module are trusted; texts without lone surrogates; texts on which the lexer itself ' \
        'raises are skipped and counted'

TEXT_RULE = 'Random source text assembled from identifiers, keywords, numbers, operators, strings, comments, snippets of 16 ' \
            'languages, marker look-alikes and raw Unicode, in ~80 pygments languages, with random options; some texts of thousands of tokens. '

add('C01', TEXT_RULE + 'Non-trivial: at least 4 full tokens of at least 3 lexical classes.',
    [('any', gen.text_case(), 12000, 160000), ('long', gen.long_case(), 240, 4000)], assumptions=[LEXER])

add('C02', TEXT_RULE + 'Only content-preserving options. Non-trivial: at least 5 full tokens and 12 source characters.',
    [('any', gen.text_case(('no_spaces', 'full_strings', 'split_numbers')), 12000, 160000),
     ('long', gen.long_case(('no_spaces', 'full_strings', 'split_numbers')), 240, 4000)], assumptions=[LEXER])

add('C03', TEXT_RULE + 'Each text is split in all modes. Non-trivial: at least 4 full tokens and 4 extra subtokens.',
    [('any', gen.text_case(('no_spaces', 'no_unicode', 'no_com', 'no_str', 'max_str_length', 'append_eof')), 5500, 80000),
     ('limits', st.deferred(lambda: limit_case()).map(lambda c: dict(c, opts={k: v for k, v in c['opts'].items() if k not in
                                                                             ('full_strings', 'split_numbers')})), 1500, 20000),
     ('long', gen.long_case(('no_spaces', 'no_unicode', 'no_com', 'no_str', 'max_str_length', 'append_eof')), 80, 1500)],
    assumptions=[LEXER])

ident_text = st.lists(st.tuples(st.one_of(gen.identifier, gen.identifier, gen.identifier, st.sampled_from(gen.NUMBERS),
                                          gen.string_lit, gen.line_comment, gen.raw),
                                st.sampled_from([' ', ' ', '\n', '', '+', '.', '('])),
                      min_size=1, max_size=10).map(lambda l: ''.join(p + w for p, w in l))
ident_case = st.fixed_dictionaries({'text': ident_text, 'ext': gen.main_lang, 'mode': st.just('basic'), 'bpe': st.just('1k'),
                                    'opts': gen.opts('no_spaces', 'split_numbers')})

add('C04', TEXT_RULE + 'Mode basic, identifier-heavy. Non-trivial: some identifier or number is split in several parts.',
    [('identifiers', ident_case, 9000, 120000),
     ('any', gen.text_case(('no_spaces', 'split_numbers'), modes=st.just('basic')), 5000, 60000),
     ('long', gen.long_case(('no_spaces', 'split_numbers'), modes=st.just('basic')), 240, 4000)], assumptions=[LEXER])

add('C05', TEXT_RULE + 'basic with and without no_case. Non-trivial: at least 2 identifiers carry a case mark.',
    [('identifiers', ident_case, 9000, 120000),
     ('any', gen.text_case(('no_spaces', 'no_unicode', 'no_com', 'no_str', 'max_str_length', 'split_numbers', 'append_eof'),
                           modes=st.just('basic')), 4000, 60000),
     ('long', gen.long_case(('no_spaces', 'no_com', 'no_str', 'split_numbers'), modes=st.just('basic')), 160, 3000)],
    assumptions=[LEXER])

cs_opts = st.fixed_dictionaries({'no_com': gen.flip, 'no_str': gen.rare, 'full_strings': gen.flip, 'max_str_length': gen.max_len,
                                 'no_spaces': gen.flip, 'split_numbers': gen.rare}).map(
    lambda o: {k: v for k, v in o.items() if v not in (False, None)})
cs_text = st.lists(st.tuples(st.one_of(gen.string_lit, gen.string_lit, gen.line_comment, gen.block_comment, gen.identifier,
                                       st.sampled_from(gen.SNIPPETS), st.sampled_from(gen.OPS)),
                             st.sampled_from(['', ' ', '\n', ';', '\n    '])), min_size=1, max_size=10
                   ).map(lambda l: ''.join(p + w for p, w in l))


@st.composite
def limit_case(draw):
    """a limit close to the length of a string literal of the text"""
    body = draw(st.one_of(gen.string_body, st.integers(0, 75).map(lambda n: 'x' * n)))
    text = draw(cs_text)
    lit = '"%s"' % body.replace('"', '').replace('\\', '').replace('\n', '')
    d = draw(st.sampled_from([-2, -1, 0, 0, 1, 2]))
    limit = max(2, len(lit) + d)
    o = draw(cs_opts)
    o.pop('no_str', None)
    o['max_str_length'] = limit
    return {'text': draw(st.sampled_from(['', 'x = '])) + lit + draw(st.sampled_from([';', ';\n'])) + text,
            'ext': draw(gen.main_lang), 'mode': draw(gen.mode), 'bpe': draw(gen.bpe_id), 'opts': o}


add('C06', TEXT_RULE + 'Comment/string options only, limits near the length of a generated literal. Non-trivial: the text has a '
    'comment or string that the chosen options act on.',
    [('options', st.fixed_dictionaries({'text': cs_text, 'ext': gen.lang, 'mode': gen.mode, 'bpe': gen.bpe_id, 'opts': cs_opts}),
      6000, 80000),
     ('limits', limit_case(), 5000, 60000),
     ('any', gen.text_case(('no_com', 'no_str', 'full_strings', 'max_str_length'), langs=gen.lang), 3000, 40000),
     ('long', gen.long_case(('no_com', 'no_str', 'full_strings', 'max_str_length')), 160, 3000)],
    assumptions=[LEXER, 'limits of at least 2 characters (0 and 1 act as 2, which the existing tests fix)'])

uni_text = st.lists(st.tuples(st.one_of(gen.identifier, st.lists(gen.word_part, min_size=1, max_size=4).map(''.join),
                                        gen.string_lit, gen.line_comment, gen.raw,
                                        st.text('ab_é中Üß1A', min_size=1, max_size=8)),
                              st.sampled_from([' ', '\n', '', '+', '\xa0', ';'])), min_size=1, max_size=10
                    ).map(lambda l: ''.join(p + w for p, w in l))
add('C07', TEXT_RULE + 'no_unicode, text rich in non-ASCII identifiers and strings. Non-trivial: some word is affected.',
    [('unicode', st.fixed_dictionaries({'text': uni_text, 'ext': gen.main_lang, 'mode': gen.mode, 'bpe': gen.bpe_id,
                                        'opts': gen.opts('no_spaces', 'split_numbers', 'full_strings')}), 8000, 100000),
     ('any', gen.text_case(('no_spaces', 'full_strings', 'max_str_length', 'no_com', 'no_str')), 4000, 60000),
     ('long', gen.long_case(('no_spaces', 'full_strings', 'max_str_length')), 160, 3000)],
    assumptions=[LEXER])

add('C08', TEXT_RULE + 'Pairs of calls that differ in one of: no_spaces, append_eof, default language, trailing newline. '
    'Non-trivial: at least 5 full tokens and 2 newline/tab tokens.',
    [('any', gen.text_case(('no_unicode', 'no_case', 'no_com', 'no_str', 'full_strings', 'max_str_length', 'split_numbers')),
      5000, 60000),
     ('long', gen.long_case(('no_unicode', 'no_case', 'no_com', 'full_strings', 'split_numbers')), 120, 2000)], assumptions=[LEXER])

own_codes = st.tuples(st.sampled_from(['one', 'one', 'two']), st.sampled_from([1, 2, 3, 5, 8, 12, 13, 20])).map(lambda t: '%s-%d' % t)
own_words = st.lists(st.sampled_from(['getName', 'setName', 'theValue', 'lalala', 'names', 'getter', 'value', 'ValueOf', 'eulav', 'alala', 'return',
                                      'x_1', 'ünü', 'valuable', 'one']), min_size=1, max_size=6).map(' '.join)


def calls_on(texts):
    return st.lists(st.fixed_dictionaries({'text': st.one_of(st.sampled_from(texts), st.sampled_from(texts), gen.text(6)), 'ext': gen.lang,
                                           'mode': gen.mode, 'bpe': st.one_of(gen.bpe_id, own_codes), 'keep': gen.flip,
                                           'opts': gen.opts(*gen.ALL_OPTS)}), min_size=1, max_size=5)


calls = st.lists(st.one_of(gen.text(6), own_words, st.lists(gen.long_identifier, min_size=1, max_size=2).map(' '.join)), min_size=1, max_size=2
                 ).flatmap(calls_on)
sub_text = st.one_of(own_words, own_words, gen.text(4))
sub_calls = st.lists(sub_text, min_size=1, max_size=2).flatmap(lambda texts: st.lists(st.fixed_dictionaries({
    'text': st.sampled_from(texts), 'ext': st.sampled_from(['java', 'java', 'py']), 'mode': st.sampled_from(['bpe', 'bpe', 'bpe', 'bpe', 'chars', 'basic']),
    'bpe': st.one_of(own_codes, own_codes, own_codes, own_codes, gen.bpe_id), 'keep': gen.rare, 'opts': gen.opts('no_spaces', 'no_unicode')}),
    min_size=2, max_size=6))
add('C09', TEXT_RULE + 'Sequences of 1-5 calls, mostly on the same texts, in one long-lived process; results are compared with repeated calls and with a '
    'call in a fresh process; shipped and own subword codes. Non-trivial: at least 2 different modes or codes in the sequence.',
    [('histories', st.fixed_dictionaries({'calls': calls,
                                          'again': st.lists(st.integers(0, 4), min_size=1, max_size=2),
                                          'probe': st.integers(0, 4)}), 1400, 16000),
     ('own codes', st.fixed_dictionaries({'calls': sub_calls, 'again': st.lists(st.integers(0, 5), min_size=1, max_size=2),
                                          'probe': st.integers(0, 5)}), 800, 10000)],
    assumptions=[LEXER, 'force_reinit_bpe_data is switched off only where the process last used the same subword vocabulary, or none'])


@st.composite
def merges_and_word(draw):
    alphabet = draw(st.sampled_from(['ab', 'abc', 'ab@', 'a', 'abcdefg', 'é@a', 'a_A1', 'ab\xa0\t\n\\']))
    base = ['@@' if c == '@' else c for c in alphabet]
    pool = list(base) + ['@']
    pairs = []
    for _ in range(draw(st.integers(0, 12))):
        a = pool[draw(st.integers(0, len(pool) - 1))]
        b = pool[draw(st.integers(0, len(pool) - 1))]
        if a.endswith('@') and (len(a) - len(a.rstrip('@'))) % 2:     # the end mark is always last
            continue
        if (a, b) not in pairs and len(a + b) < 24:
            pairs.append((a, b))
            pool.append(a + b)
    if draw(st.booleans()):
        pairs = draw(st.permutations(pairs))
    word = draw(st.one_of(st.text(alphabet, max_size=24),
                          st.tuples(st.text(alphabet, min_size=1, max_size=3), st.integers(2, 9), st.text(alphabet, max_size=3)
                                    ).map(lambda t: t[0] * t[1] + t[2])))
    return {'kind': 'word', 'merges': [list(p) for p in pairs], 'word': word}


@st.composite
def long_word(draw):
    '''the encoder treats words of more than 5000 symbols in a special way'''
    case = draw(merges_and_word())
    units = st.text(sorted(set('ab' + ''.join(x for p in case['merges'] for x in p))), min_size=1, max_size=4)
    parts = [[draw(units), draw(st.integers(1, 3))], [draw(units), draw(st.integers(1200, 5300))], [draw(units), draw(st.integers(1, 3))]]
    return {'kind': 'word', 'merges': case['merges'], 'parts': draw(st.permutations(parts))}


varied_word = st.fixed_dictionaries({'kind': st.just('word'), 'varied': st.integers(20, 900), 'seed': st.integers(0, 10**6)})
varied_api = st.fixed_dictionaries({'kind': st.just('api'), 'mode': st.just('bpe'), 'bpe': gen.bpe_id, 'ext': st.just('java'), 'opts': gen.opts('no_unicode'),
                                    'text': st.sampled_from(['int LONG = 1;', 's = "LONG fin" + b;', '// LONG']),
                                    'varied': st.integers(100, 3000), 'seed': st.integers(0, 10**6)})


@st.composite
def long_api_case(draw):
    unit = draw(st.one_of(st.sampled_from(['get', 'value', 'x1', 'aB_', 'an', 'Ünü', '=']), st.text('abcdeinorst', min_size=1, max_size=6)))
    parts = [[draw(st.sampled_from(['', 'q', 'name'])), 1], [unit, draw(st.integers(900, 5300))], [draw(st.sampled_from(['', 'z', 'ing'])), 1]]
    return {'kind': 'api', 'mode': draw(st.sampled_from(['bpe', 'bpe', 'chars'])), 'bpe': draw(gen.bpe_id), 'ext': 'java',
            'text': draw(st.sampled_from(['int LONG = 1;', 's = "LONG fin" + b;', '// LONG'])), 'opts': draw(gen.opts('no_unicode')), 'parts': parts}


api_case = gen.text_case(('no_spaces', 'no_unicode', 'max_str_length', 'no_com', 'append_eof'),
                         modes=st.sampled_from(['bpe', 'bpe', 'bpe', 'chars'])).map(lambda c: dict(c, kind='api'))
add('C10', 'Words over small alphabets with random merge lists (built hierarchically, in random priority order), and texts through '
    'the bpe/chars API with the shipped merge lists. Non-trivial: at least two merges applied, or two tokens split.',
    [('words', merges_and_word(), 16000, 240000), ('api', api_case, 6000, 80000),
     ('long words', st.one_of(long_word(), long_word(), long_api_case()), 320, 6000),
     ('varied words', st.one_of(varied_word, varied_word, varied_api), 320, 6000)],
    assumptions=[LEXER, 'the shipped merge files are read as they are'])

learn_words = st.sampled_from(['a', 'ab', 'abc', 'ab@', 'aab', 'abcdef', 'aé_', 'xyX1', '\\ab', 'ab\t\n']).flatmap(
    lambda al: st.lists(st.tuples(st.one_of(st.text(al, min_size=1, max_size=12),
                                            st.tuples(st.text(al, min_size=1, max_size=3), st.integers(2, 5)).map(lambda t: t[0] * t[1])),
                                  st.one_of(st.integers(1, 5), st.integers(1, 1000))), min_size=1, max_size=8,
                        unique_by=lambda t: t[0]))
long_learn_words = st.lists(st.tuples(
    st.tuples(st.text('ab', max_size=2), st.sampled_from(['a', 'ab', 'abc', 'aab', 'ba', 'a@']), st.integers(20, 700), st.text('ab', max_size=2)).map(
        lambda t: t[0] + t[1] * t[2] + t[3]), st.integers(1, 9)), min_size=1, max_size=3, unique_by=lambda t: t[0])
add('C11', 'Word-frequency tables over small alphabets with many repeats and ties, 1-30 merges, also learned in two steps; and histories of the counter of pairs. '
    'Non-trivial: at least 2 words and 3 merges.',
    [('words', st.fixed_dictionaries({'words': learn_words, 'n': st.one_of(st.integers(1, 8), st.integers(1, 30)),
                                      'split': st.integers(0, 12)}), 16000, 240000),
     ('long words', st.fixed_dictionaries({'words': long_learn_words, 'n': st.integers(1, 12), 'split': st.integers(0, 3)}), 400, 8000),
     ('counter', st.fixed_dictionaries({'kind': st.just('counter'), 'auto': gen.flip,
                                        'start': st.lists(st.tuples(st.sampled_from('abcdefg'), st.integers(1, 9)), max_size=6, unique_by=lambda t: t[0]),
                                        'ops': st.lists(st.fixed_dictionaries({'op': st.sampled_from(['add', 'add', 'add', 'pop', 'remove']),
                                                                               'key': st.sampled_from('abcdefghi'), 'n': st.integers(-5, 9)}), max_size=16)}),
      6000, 80000)],
    assumptions=['positive frequencies, non-empty words without spaces'])

wild_alphabets = st.sampled_from(['a¤', 'a¦½b', 'a', 'ab', 'abc', 'aab', 'abcd', 'ab \n', 'ab ', 'é_aX', 'aÿ\r\n'])


def wild_pieces(al):
    return st.one_of(st.text(al, min_size=1, max_size=30).map(lambda t: [[t, 1]]), st.just([]),
                     st.lists(st.tuples(st.text(al, min_size=1, max_size=4), st.integers(1, 5)).map(list), min_size=1, max_size=5))


wild_text = wild_alphabets.flatmap(wild_pieces)
wild_enc = st.sampled_from(['utf-8', 'utf-8', 'latin-1'])
wild_n = st.one_of(st.none(), st.none(), st.integers(1, 12))
wild_files = wild_alphabets.flatmap(lambda al: st.lists(
    st.tuples(st.sampled_from(['a.py', 'b.py', 'd/a.py', 'd/e/c.py', 'x.java', 'd/y', '.py', 'zpy']), st.text(al, max_size=12), wild_enc).map(list),
    max_size=4, unique_by=lambda t: t[0]))
wild_long = st.tuples(wild_alphabets.flatmap(lambda al: st.text(al, min_size=1, max_size=3)), st.integers(2800, 9000), wild_text).map(
    lambda t: [[t[0], t[1]]] + t[2])
add('C12', 'Texts over small alphabets with many repeats and overlaps, from memory (also with statistics switched on), from a file (UTF-8 or '
    'ISO-8859-1, also longer than one read buffer) and from the Python files of a directory. Non-trivial: at least 4 merges.',
    [('texts', st.fixed_dictionaries({'text': wild_text, 'via': st.sampled_from(['text', 'text', 'text', 'file', 'stats']),
                                      'enc': wild_enc, 'n': wild_n}), 16000, 240000),
     ('directories', st.fixed_dictionaries({'text': st.just([]), 'via': st.just('dir'), 'files': wild_files, 'n': wild_n}), 3000, 40000),
     ('long files', st.fixed_dictionaries({'text': wild_long, 'via': st.sampled_from(['file', 'file', 'text']), 'enc': wild_enc,
                                           'n': st.integers(1, 3)}), 120, 2000)],
    assumptions=['sizes for the debug messages stubbed (sys.getsizeof does not exist on PyPy)'])

no_space_text = st.one_of(st.text(st.characters(exclude_categories=['Cs'], exclude_characters=' '), min_size=1, max_size=5),
                          st.text('ab@\\nuxN{}\t\n\r\xa0\x85\u2028é中\x00\x0b\x1c', min_size=1, max_size=5),
                          st.sampled_from(['a', '@', '@@', 'ab', '\\n', '\\u00e9', '\\N{DASH}', '\\x41', '\\', '\xa0', '\t', '1', '-1']))
any_text = st.one_of(st.text(st.characters(exclude_categories=['Cs']), max_size=12), gen.raw,
                     st.text('ab@\\nuxN{}4 \t\n\r\xa0\x85\u2028é中\x00', max_size=12))
list_op = st.fixed_dictionaries({'op': st.sampled_from(['append', 'append', 'append', 'append', 'add', 'add', 'wrong']), 'k': st.integers(0, 5), 'other': st.integers(0, 5),
                                 'pair': st.tuples(st.sampled_from('abcdeé'), st.sampled_from('abcd')).map(list), 'freq': st.integers(0, 9), 'free': gen.flip,
                                 'by': st.sampled_from([-1, 1, 5])})
add('C13', 'Merge lists, caches and texts over arbitrary Unicode (control characters, backslashes, separators), and caches made by '
    'learning that are then looked up repeatedly; merge lists put together in several ways. Non-trivial: at least 2 merges and 1 cache entry (2 hits).',
    [('artifacts', st.fixed_dictionaries({
        'kind': st.just('artifacts'), 'pairs': st.lists(st.tuples(no_space_text, no_space_text), max_size=8),
        'freqs': st.lists(st.one_of(st.integers(0, 9), st.integers(0, 10**9)), min_size=1, max_size=4), 'firsts': st.lists(st.one_of(st.integers(1, 9), st.integers(1, 70), st.integers(1, 700), st.just('all')), max_size=3), 'many': st.one_of(st.just(0), st.just(0), st.integers(1, 60), st.integers(1, 600)),
        'cache': st.lists(st.tuples(no_space_text, st.lists(no_space_text, min_size=1, max_size=4)), max_size=5,
                          unique_by=lambda t: t[0]),
        'texts': st.lists(any_text, max_size=4)}), 8000, 100000),
     ('cache', st.fixed_dictionaries({
         'kind': st.just('cache'), 'words': learn_words, 'n': st.integers(1, 12), 'persist': gen.flip, 'mutate': gen.flip,
         'lookups': st.lists(st.integers(0, 16), min_size=1, max_size=10), 'others': st.lists(st.text('abcé@_X1', min_size=1, max_size=9),
                                                                                             max_size=3)}), 6000, 80000),
     ('lists', st.fixed_dictionaries({'kind': st.just('lists'), 'many': st.one_of(st.just(0), st.just(0), st.just(0), st.integers(1, 300)), 'cut': st.tuples(st.integers(0, 6), st.integers(0, 6)).map(list),
                                      'ops': st.lists(list_op, max_size=14)}), 4000, 50000)],
    assumptions=['symbols without plain spaces (they cannot occur in tokens)'])

set_opts = gen.opts(*gen.ALL_OPTS)
setting = st.fixed_dictionaries({'mode': gen.mode, 'bpe': gen.bpe_id, 'opts': set_opts})


@st.composite
def setting_pair(draw):
    a = draw(setting)
    if draw(st.booleans()):
        b = draw(setting)
    else:
        b = dict(a, opts=dict(a['opts']))
        k = draw(st.sampled_from(['mode', 'bpe', 'none'] + list(gen.ALL_OPTS)))
        if k == 'mode':
            b['mode'] = draw(gen.mode)
        elif k == 'bpe':
            b['bpe'] = draw(gen.bpe_id)
        elif k == 'max_str_length':
            b['opts'][k] = draw(st.one_of(st.integers(2, 61), st.sampled_from([2, 3, 60, 61, None])))
            if b['opts'][k] is None:
                del b['opts'][k]
        elif k != 'none':
            if b['opts'].pop(k, None) is None:
                b['opts'][k] = True
    return {'kind': 'pair', 'a': a, 'b': b, 'text': draw(gen.text(8)), 'ext': draw(gen.main_lang)}


learn_setting = st.fixed_dictionaries({'end': gen.flip, 'base': st.sampled_from(['all', 'code', 'java']), 'unicode': st.sampled_from(['yes', 'no', 'bytes'])})
valid_setting = st.tuples(*[st.sampled_from(v) for v in ['uU', '0c', '0123456789AZaz', 's123456789', 's0', 'u']]).map(''.join)
damaged_setting = st.tuples(valid_setting, st.integers(0, 6), st.integers(0, 5), st.sampled_from('uU0c1s4l \n\x00_-')).map(
    lambda t: [t[0] + t[3], t[3] + t[0], t[0][:t[2]] + t[0][t[2] + 1:], t[0][:t[2]] + t[3] + t[0][t[2]:], t[0] * 2, t[0][::-1], t[0] + t[3] * 3][t[1]])

add('C23', 'Pairs of option sets, often differing in one option, with a generated text; raw encoded strings, valid and damaged; and settings of learned codes. '
    'Non-trivial: at least 2 options besides the mode, or a valid raw string.',
    [('pairs', setting_pair(), 5000, 60000),
     ('limits', st.fixed_dictionaries({'kind': st.just('limits'), 'a': setting}), 400, 4000),
     ('raw', st.fixed_dictionaries({'kind': st.just('raw'), 's': st.one_of(
         st.tuples(*[st.sampled_from(v) for v in ['uU', '0c', '0123456789AZaz', '0F123s456789', 's0', 'ul']]).map(''.join),
         st.tuples(*[st.sampled_from(v) for v in ['uUx', '0cC1', '0129AZaz-é', '0F123s456789ab', 's01', 'ulx']]).map(''.join),
         st.text('uU0cEF1s2l', max_size=8), damaged_setting)}), 5000, 60000),
     ('learning', st.fixed_dictionaries({'kind': st.just('learning'), 'configs': st.lists(learn_setting, min_size=1, max_size=4), 'bad': st.one_of(
         st.none(), st.fixed_dictionaries({'which': st.integers(0, 3), 'value': st.sampled_from([None, 'no', 'prefix', 'bytes', 'x', 'Yes', 'all'])}))}), 400, 4000)],
    assumptions=[LEXER, 'KF1 (limits of 62 and more are the same as none), limits 0 and 1 act as 2'])

mword = st.fixed_dictionaries({'subs': st.lists(st.sampled_from(['a', 'b', 'ab', 'é', '</t>', '<w>', '']), min_size=1, max_size=4),
                               'type': st.integers(0, 2)})
mwords = st.lists(mword, max_size=7)
add('C24', 'Lists of full tokens with arbitrary subtokens and types, lists of such parts to join, and API results that are then '
    'damaged in one place. Non-trivial: at least 3 full tokens, one of several subtokens (iter), 2 parts (join), 4 tokens (api).',
    [('iter', st.fixed_dictionaries({'kind': st.just('iter'), 'words': st.lists(mword, min_size=1, max_size=8)}), 5000, 50000),
     ('join', st.fixed_dictionaries({'kind': st.just('join'), 'parts': st.lists(
         st.fixed_dictionaries({'words': mwords, 'np': st.lists(st.sampled_from(['(', ')', '\n', 'if', '<EOF>']), max_size=3)}),
         max_size=5)}), 5000, 50000),
     ('api', st.tuples(gen.text_case(max_pieces=10), st.integers(0, 200)).map(lambda t: dict(t[0], kind='api', k=t[1])), 4000, 40000),
     ('long', st.tuples(gen.long_case(), st.integers(0, 200000)).map(lambda t: dict(t[0], kind='api', k=t[1])), 60, 800)],
    assumptions=[LEXER, 'texts containing the end mark itself are skipped in the damage test'])

CORPUS_ASSUME = ['process pools sized by os.cpu_count (1-3 here)', 'text API behaviour itself is decided by C01-C10']
big_unit = st.sampled_from(['é', 'x', 'xé', '中', '\U0001f600', 'ab', '\xff', ' ', '\r\n', '\n'])
big_cfg = st.fixed_dictionaries({'mode': st.sampled_from(['nosplit', 'nosplit', 'basic', 'chars']), 'bpe': st.just('1k'),
                                 'opts': gen.opts('no_spaces', 'no_com', 'full_strings')})
# a few lines, one of which is far longer than a read buffer
big_file = st.fixed_dictionaries({
    'path': st.sampled_from([['a.java'], ['b.java'], ['d', 'a.py']]), 'data': st.sampled_from(['x = 1\n// ', 'a\r\n# ', '"']),
    'more': st.tuples(big_unit, st.sampled_from([8190, 16383, 40000, 65535, 70001])).map(list), 'tail': st.sampled_from(['\n', '";\nz\n', '', '\r', 'é\n\n']),
    'enc': st.sampled_from(['utf-8', 'utf-8', 'utf-8', 'latin-1'])})
add('C14', 'Source trees of 0-6 files (odd names, nested directories, UTF-8 and ISO-8859-1 content, many languages) or a single file, '
    'all modes and options, 1-3 processes. Non-trivial: at least 2 files (or a single-file dataset) with 12 tokens in all.',
    [('trees', st.fixed_dictionaries({'name': gen.dataset_name, 'files': st.lists(gen.corpus_file(), max_size=6), 'cfg': gen.corpus_cfg,
                                      'ncpu': gen.ncpu, 'single': st.sampled_from([False, False, False, True]),
                                      'suppress': gen.rare}), 2400, 30000),
     ('many files', st.fixed_dictionaries({'name': gen.dataset_name, 'files': gen.many_files(), 'cfg': gen.corpus_cfg, 'ncpu': st.integers(1, 4),
                                           'single': st.just(False), 'suppress': gen.rare}), 40, 600),
     ('big files', st.fixed_dictionaries({'name': gen.dataset_name, 'files': st.lists(big_file, min_size=1, max_size=2), 'cfg': big_cfg,
                                          'ncpu': st.integers(1, 2), 'single': st.just(False), 'suppress': gen.rare}), 40, 600)],
    assumptions=[LEXER] + CORPUS_ASSUME)

FILTER_EXTS = ['java', 'java', 'py', 'js', 'c', 'txt', 'java.prep', 'h', 'JAVA', 'xml', 'md', 'va', 'é', 'y']
link = st.fixed_dictionaries({'at': st.integers(0, 8), 'name': st.sampled_from(['l1', 'l2', 'link.java', 'l é', '.l']),
                              'to': st.sampled_from(['dir', 'dir', 'file', 'nowhere'])})
small_file = gen.corpus_file(content=gen.tiny_text)
add('C15', 'Trees of 0-9 files with odd names, linked directories, linked and dangling files, with extension lists of 0-4 extensions '
    '(also repeated, or suffixes of each other). Non-trivial: the list keeps some files and drops others, or links are present.',
    [('trees', st.fixed_dictionaries({
        'name': gen.dataset_name, 'files': st.lists(small_file, max_size=9), 'outside': st.lists(st.lists(small_file, max_size=3), max_size=2),
        'links': st.lists(link, max_size=3), 'exts': st.one_of(st.none(), st.lists(st.sampled_from(FILTER_EXTS), min_size=1, max_size=4)),
        'cfg': st.fixed_dictionaries({'mode': st.sampled_from(['nosplit', 'nosplit', 'basic']), 'bpe': st.just('1k'),
                                      'opts': gen.opts('no_spaces')}),
        'form': st.sampled_from(['absolute', 'absolute', 'slash', 'relative', 'dot', 'updown', 'Path', '.', 'double', 'relative slash']),
        'ncpu': gen.ncpu, 'suppress': gen.rare}), 1600, 20000),
     ('many files', st.fixed_dictionaries({
         'name': gen.dataset_name, 'files': gen.many_files(60, 400, ('.java', '.py', '.txt', '.md', '.js', '.h')), 'outside': st.just([]),
         'links': st.lists(link, max_size=2), 'exts': st.sampled_from([['java'], ['py', 'h'], ['md']]),
         'cfg': st.just({'mode': 'nosplit', 'bpe': '1k', 'opts': {}}), 'form': st.sampled_from(['absolute', 'slash', '.']),
         'ncpu': gen.ncpu, 'suppress': gen.rare}), 40, 500)],
    assumptions=[LEXER] + CORPUS_ASSUME + ['no link cycles; extensions non-empty and without underscores; at most 1000 files'])

hist_cfg_plain = st.fixed_dictionaries({'mode': st.sampled_from(['nosplit', 'basic', 'chars']), 'bpe': st.just('1k'), 'opts': gen.opts('no_spaces')})

add('C18', 'Datasets of 1-14 files of repeated words, all modes, 1-4 processes, with the default or small partition constants. '
    'Non-trivial: at least 2 files and a word that occurs three times.',
    [('datasets', st.fixed_dictionaries({
        'files': st.lists(gen.corpus_file(content=st.one_of(gen.tiny_text, gen.tiny_text, gen.small_text(4))), min_size=1, max_size=14),
        'cfg': gen.corpus_cfg, 'ncpu': st.integers(1, 4), 'chunks': st.sampled_from([None, 1, 2, 3]),
        'groups': st.sampled_from([None, None, 1, 2, 3, 5]), 'again': gen.rare, 'tool': gen.rare}), 900, 10000),
     ('limit', st.fixed_dictionaries({'counts': st.lists(st.tuples(st.sampled_from(['a', 'b', 'foo', '(', '\\n', '\\xe9', 'x1', '</t>', '0', 'if']),
                                                                   st.one_of(st.integers(1, 4), st.integers(1, 3000))).map(list),
                                                         max_size=10, unique_by=lambda t: t[0]),
                                      'limit': st.integers(0, 11)}), 800, 10000),
     ('many files', st.fixed_dictionaries({
         'files': gen.many_files(15, 90), 'cfg': hist_cfg_plain, 'ncpu': st.integers(1, 4), 'chunks': st.sampled_from([None, None, 3, 7]),
         'groups': st.sampled_from([None, None, 20, 33]), 'again': gen.rare}), 48, 700)],
    assumptions=[LEXER] + CORPUS_ASSUME)


hist_path = st.tuples(st.lists(st.sampled_from(['d', 'e', 'lnk', 'é']), max_size=2), st.sampled_from(['a', 'b', 'c', 'x y']),
                      st.sampled_from(['.java', '.java', '.py', '.txt'])).map(lambda t: t[0] + [t[1] + t[2]])
hist_file = gen.corpus_file(content=gen.tiny_text, paths=hist_path)
k8 = st.integers(0, 8)
dt = st.sampled_from([1, 1, 2, 60, 3600, 4000, 43200, 86400, 30 * 86400, 365 * 86400])


def change_op(kinds=('write', 'edit', 'edit', 'delete', 'delete', 'old', 'rename', 'rmdir')):
    return st.fixed_dictionaries({'op': st.sampled_from(kinds), 'k': k8, 'dt': dt, 'path': hist_path, 'data': gen.tiny_text})


one_run = st.fixed_dictionaries({'cfg': st.integers(0, 1), 'out': st.sampled_from([0, 0, 0, 1]), 'exts': gen.rare, 'vocab': gen.rare,
                                 'suppress': gen.rare, 'size': gen.rare})
run_op = st.fixed_dictionaries({'op': st.just('run'), 'ncpu': st.sampled_from([1, 1, 1, 2]),
                                'runs': st.lists(one_run, min_size=1, max_size=2)})
interfere_op = st.fixed_dictionaries({'op': st.sampled_from(['tamper', 'delout', 'clearcache', 'dropout', 'tampercache', 'tampercache']),
                                      'k': st.integers(0, 400)})
hist_cfg = st.fixed_dictionaries({'mode': st.sampled_from(['nosplit', 'nosplit', 'basic', 'chars', 'bpe']), 'bpe': st.sampled_from(['1k', '1k', '5k']),
                                  'opts': gen.opts('no_spaces', 'no_com')})
wide_cfg = st.fixed_dictionaries({'mode': gen.mode, 'bpe': gen.bpe_id, 'opts': gen.corpus_opts()})


@st.composite
def two_cfgs(draw):
    if draw(st.booleans()):
        return [draw(hist_cfg), draw(hist_cfg)]
    a = draw(wide_cfg)
    if draw(gen.rare):
        return [a, draw(wide_cfg)]
    c = dict(a, opts=dict(a['opts']))
    k = draw(st.sampled_from(['mode', 'bpe', 'no_spaces', 'no_unicode', 'no_case', 'no_com', 'no_str', 'full_strings', 'max_str_length', 'split_numbers']))
    if k == 'mode':
        c['mode'] = draw(gen.mode)
    elif k == 'bpe':
        c['bpe'] = draw(gen.bpe_id)
    elif k == 'max_str_length':
        c['opts'][k] = draw(st.integers(2, 61))
    elif c['opts'].pop(k, None) is None:
        c['opts'][k] = True
    return [a, c]


@st.composite
def large_history(draw):
    '''many files that are not processed, but belong to the dataset'''
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        ops += draw(st.lists(change_op(), min_size=1, max_size=2))
        r = draw(run_op)
        ops.append(dict(r, runs=[dict(x, exts=True) for x in r['runs']]))
    first = {'op': 'run', 'ncpu': 1, 'runs': [dict(draw(one_run), exts=True, cfg=0)]}
    return {'files': draw(st.lists(hist_file, min_size=2, max_size=4)), 'linked': None, 'cfgs': [draw(hist_cfg)],
            'exts': draw(st.sampled_from([['java'], ['py', 'java']])), 'ops': [first] + ops,
            'filler': [draw(st.integers(30, 930)), draw(st.sampled_from([1, 5, 40]))], 'lean': True}


add('C16', 'Histories of up to 12 operations on a dataset: create, edit, delete, rename files and directories (also older files moved in, '
    'and inside a linked directory), clear caches, damage or remove results, and runs with two configurations, two output directories, '
    'with and without extensions, vocabulary, caching. Non-trivial: the dataset changes between two runs.',
    [('histories', st.fixed_dictionaries({
        'files': st.one_of(st.lists(hist_file, max_size=4), *[st.lists(hist_file, min_size=2, max_size=4)] * 3), 'linked': st.one_of(st.none(), st.none(), st.lists(hist_file, max_size=2)),
        'cfgs': two_cfgs(), 'exts': st.sampled_from([['java'], ['py', 'java'], ['txt']]),
        'ops': st.lists(st.tuples(st.lists(st.one_of(change_op(), change_op(), change_op(), interfere_op), max_size=2), run_op),
                        min_size=2, max_size=4).map(lambda segs: [o for ch, r in segs for o in ch + [r]])}), 900, 10000),
     ('large', large_history(), 48, 600)],
    level='exploration',
    assumptions=[LEXER] + CORPUS_ASSUME + ['changes of the dataset are at least one second apart and carry the modification times a file '
                                           'system gives them; at most 1000 files', 'KF2 (same directory name and modification second)'])


crash_files = st.lists(gen.corpus_file(content=gen.tiny_text, paths=hist_path), min_size=1, max_size=4)
crash_cfg = st.fixed_dictionaries({'mode': st.sampled_from(['nosplit', 'basic', 'chars', 'bpe']), 'bpe': st.just('1k'),
                                   'opts': gen.opts('no_spaces', 'no_com', 'no_unicode')})
crash = st.fixed_dictionaries({'at': st.integers(0, 999), 'mode': st.sampled_from(['kill', 'kill', 'torn', 'torn', 'fail']),
                               'err': st.sampled_from([28, 5, 122, 30]), 'other': gen.rare, 'change': gen.rare, 'data': gen.tiny_text})
add('C17', 'Datasets of 1-4 files; a run is killed before, or half way through, a generated file operation (or the operation fails '
    'with an I/O error), up to three times, with changes of the dataset or of the configuration in between; then it runs undisturbed. '
    'Non-trivial: at least one interruption happened and there is a file to preprocess.',
    [('crashes', st.fixed_dictionaries({
        'files': crash_files, 'cfgs': st.lists(crash_cfg, min_size=2, max_size=2), 'ncpu': st.sampled_from([1, 1, 1, 2]),
        'exts': st.sampled_from([None, None, None, ['java']]), 'suppress': gen.rare,
        'crashes': st.lists(crash, min_size=1, max_size=3)}), 700, 9000)],
    level='fault_enumeration', preload=True, confirm_tries=3,
    assumptions=[LEXER] + CORPUS_ASSUME + ['a crash ends all processes of the run at a system call; what the kernel accepted is kept '
                                           '(no power loss); changes of the dataset carry new modification times'])

kill = st.fixed_dictionaries({'at': st.integers(0, 999), 'mode': st.sampled_from(['kill', 'torn'])})
add('C19', 'Datasets of 1-6 files; a run with vocabulary and corpus size is killed before, or half way through, a generated file '
    'operation, up to four times in a row, with default or small partition constants; then it runs undisturbed. Non-trivial: at least '
    'one crash happened and there are two files.',
    [('crashes', st.fixed_dictionaries({
        'files': st.lists(gen.corpus_file(content=gen.tiny_text, paths=hist_path), min_size=1, max_size=6), 'cfg': crash_cfg,
        'ncpu': st.sampled_from([1, 1, 2, 3]), 'chunks': st.sampled_from([None, None, 1, 2]), 'groups': st.sampled_from([None, None, 2, 3]),
        'prepared': st.sampled_from([True, True, True, False]),
        'crashes': st.lists(kill, min_size=1, max_size=4)}), 560, 8000)],
    level='fault_enumeration', preload=True, confirm_tries=3,
    assumptions=[LEXER] + CORPUS_ASSUME + ['a crash ends all processes of the run at a system call; what the kernel accepted is kept '
                                           '(no power loss)'])


learn_text = st.one_of(gen.small_text(8), st.lists(st.one_of(st.sampled_from([
    'foo', 'fooBar', 'barFoo', 'lalala', 'aaaa', 'x_1', 'Über', 'if', 'for', 'public', 'class', '@Over', '"s t"', '"@@"', '0x12', '10L', '\n',
    '// c\n', 'select', 'def', '\t', '(', ')', '"a string that is rather long"', 'x\\y', '@', '@@']),
    gen.identifier), max_size=20).map(' '.join))
learn_file = gen.corpus_file(content=learn_text, paths=hist_path)
learn_name = st.sampled_from(['proj', 'proj', 'my corpus', 'a-1', 'x_1', 'p.java', 'c++', 'pr[o]j', 'dätä'])
learn_n = st.one_of(st.integers(1, 6), st.integers(1, 40))
use = st.fixed_dictionaries({'k': st.integers(0, 60), 'text': st.one_of(learn_text, gen.text(5)), 'ext': gen.main_lang,
                             'opts': gen.opts('no_spaces', 'no_unicode', 'no_com', 'append_eof')})
add('C20', 'Training corpora of 1-4 files of repeated identifiers, keywords, strings and odd characters; learn-bpe for 1-3 numbers of '
    'merges in any order, with and without extensions, id and --no-unicode; then texts and the corpus itself encoded with the learned '
    'ids. Non-trivial: at least 4 merges learned from at least 3 words.',
    [('learn', st.fixed_dictionaries({
        'name': learn_name, 'files': st.lists(learn_file, min_size=1, max_size=4), 'exts': st.sampled_from([None, None, ['java'], ['java', 'py']]),
        'no_unicode': gen.rare, 'id': st.sampled_from([None, None, 'my', 'a-b', 'py-10', 'ид', 'a b']), 'same_id': gen.flip,
        'ns': st.lists(learn_n, min_size=1, max_size=3), 'uses': st.lists(use, max_size=3), 'corpus': gen.rare,
        'ncpu': st.sampled_from([1, 1, 2])}), 560, 7000)],
    assumptions=[LEXER] + CORPUS_ASSUME + ['dataset names without "_-_"; which of several equally frequent pairs is merged first is free'])

english = st.sampled_from(['running', 'Running', 'RUNNING', 'flies', 'Flies', 'dying', 'Dying', 'DYING', 'skies', 'Skies', 'happiness', 'generalization',
                           'Values', 'hopping', 'caresses', 'ponies', 'agreed', 'is', 'as', 'sing', 'conflated', 'triplicate', 'x', 'S', 'ies', 'Sky',
                           'outings', 'News', 'proceed', 'probabilities', 'howe', 'Early', 'Y', 'ally', 'EED', 'ing'])
english_ident = st.one_of(st.lists(english, min_size=1, max_size=4).map(''.join), st.lists(english, min_size=1, max_size=4).map('_'.join),
                          st.lists(st.one_of(english, english, st.sampled_from(['1', '42', '_', 'X'])), min_size=1, max_size=5).map(''.join))
c25_text = st.one_of(st.lists(st.tuples(st.one_of(english_ident, english_ident, gen.identifier, gen.string_lit, gen.line_comment,
                                                  st.sampled_from(gen.NUMBERS), st.sampled_from(gen.OPS)),
                                        st.sampled_from(['', ' ', ' ', '\n', ';', '\t'])), max_size=10
                              ).map(lambda l: ''.join(p + w for p, w in l)), gen.text())


def c25_case(alg):
    t = c25_text.map(lambda x: x.encode('ascii', 'ignore').decode()) if alg == 'stem' else c25_text
    return st.fixed_dictionaries({
        'alg': st.just(alg), 'text': t, 'ext': gen.lang, 'mode': st.just('basic'),
        'opts': gen.opts('no_spaces', 'no_unicode', 'no_case', 'no_com', 'no_str', 'max_str_length', 'append_eof'),
        'redundant': st.lists(st.sampled_from(['split_numbers', 'ronin', 'stem']), max_size=2),
        'cuts': st.sampled_from(['', 'abc', 'aeiou', 'xyz', 'abcdefghijklmnopqrstuvwxyz', 'st', 'b1', 'éüß'])})


add('C25', TEXT_RULE + 'basic splitting with ronin and with stem; the package spiral is replaced by a splitter that cuts before generated '
    'letters. Non-trivial: at least one token differs from that of basic splitting with split numbers.',
    [('ronin', c25_case('ronin'), 7000, 90000), ('stem', c25_case('stem'), 7000, 90000)],
    assumptions=[LEXER, 'the Ronin splitter itself (package spiral) and the Porter stemmer (package nltk) are trusted; the former is not '
                        'installed here and is replaced by another splitter', 'stems: ASCII texts'])

style = st.fixed_dictionaries({'forms': st.lists(st.integers(0, 11), min_size=3, max_size=6),
                               'order': st.lists(st.integers(0, 5), min_size=1, max_size=6)})
cli_opts = gen.opts('no_spaces', 'no_unicode', 'no_case', 'no_com', 'no_str', 'full_strings', 'max_str_length', 'split_numbers', 'ronin', 'stem')
cli_ext = gen.lang.filter(lambda e: e != '')
add('C22', 'Text phase: ' + TEXT_RULE + 'the options in generated spellings and orders (long, short, joined, with = or a space). Corpus phase: '
    'datasets of 1-4 files through both. Custom phase: codes learned first. Non-trivial: at least 3 parts of text and one option; '
    'at least two files; at least two different encodings.',
    [('text', st.fixed_dictionaries({'what': st.just('text'), 'text': gen.text(), 'ext': cli_ext, 'mode': gen.mode, 'bpe': gen.bpe_id, 'opts': cli_opts,
                                     'style': style, 'verbose': gen.rare}), 4000, 60000),
     ('corpus', st.fixed_dictionaries({'what': st.just('corpus'), 'files': st.lists(small_file, min_size=1, max_size=4), 'mode': gen.mode,
                                       'bpe': gen.bpe_id, 'opts': gen.opts('no_spaces', 'no_unicode', 'no_case', 'no_com', 'no_str', 'full_strings',
                                                                           'max_str_length', 'split_numbers', 'ronin', 'stem'),
                                       'exts': st.sampled_from([None, None, ['java'], ['java', 'py']]), 'vocab': gen.flip, 'output': gen.flip,
                                       'relative': gen.rare, 'custom': st.sampled_from([0, 3, 6]), 'style': style,
                                       'ncpu': st.sampled_from([1, 1, 2])}), 260, 3000),
     ('custom', st.fixed_dictionaries({'what': st.just('custom'), 'training': gen.tiny_text, 'n': st.integers(1, 12), 'text': gen.text(6),
                                       'ext': cli_ext, 'mode': st.just('bpe'), 'opts': cli_opts, 'style': style}), 260, 3000)],
    assumptions=[LEXER, 'texts that do not begin with "-" and are no command or predefined id; options as the usage message allows them'])

reg_other = ['a', 'a-1', 'a-b-3', 'a b', 'é', 'e\u0301', 'É', 'A', '^', '1k', '0', '-', '[a]', 'a*', 'my']
reg_families = [('proj', ['_1', '_2', '_nounicode', 'x'], ['_1', '_2', '_9', '_007', '_99_1', '_x', '_nounicode', '_nounicode_3', '_']),
                ('a.b', ['_1', '', 'c'], ['_1', '_3', '_12']), ('c++', ['_1', ''], ['_2', '_4']), ('a(b', ['_1', ''], ['_1', '_5']),
                ('x$', ['_1', ''], ['_2']), ('p-1', ['_1', '-2'], ['_1', '-2', '_3'])]


def reg_case(family):
    base, suffixes, id_suffixes = family
    name = st.sampled_from([base] * 4 + [base + x for x in suffixes] + [base.upper(), base.capitalize(), base + ' ', ' ' + base] + reg_other[:3])
    known = st.sampled_from([None] * 6 + [base + x for x in id_suffixes] + ['my', 'My', 'a--b-c', 'x-', 'x--1', 'x-1', 'x-1-2', 'ид', '10', base.upper() + '_1', base.upper()] + [base.replace('.', 'x') + '_5'])
    ids = st.one_of(known, known, known, known, st.text('ab-_. 1é:', min_size=1, max_size=6).filter(lambda t: t[0] != '-'))
    op = st.fixed_dictionaries({'op': st.sampled_from(['learn', 'assign', 'assign']), 'ds': st.integers(0, 3), 'touch': gen.flip,
                                'no_unicode': gen.rare, 'id': ids, 'n': st.integers(1, 12)})
    return st.fixed_dictionaries({
        'datasets': st.lists(st.fixed_dictionaries({'name': st.one_of(name, name, name, st.sampled_from(reg_other)), 'text': gen.tiny_text}),
                             min_size=1, max_size=4),
        'ops': st.lists(op, min_size=3, max_size=8),
        'uses': st.lists(st.fixed_dictionaries({'id': k8, 'k': st.integers(0, 30), 'text': learn_text}), max_size=2),
        'bad': st.lists(st.fixed_dictionaries({'id': k8, 'form': st.integers(0, 12)}), max_size=3)})


add('C21', 'Up to 4 small datasets whose names resemble each other, contain special characters or are equal; up to 8 operations: learn-bpe '
    'with and without an explicit id, ids that are assigned but never learned, modifications; then lookups with valid, too large and '
    'malformed ids. Non-trivial: at least two ids are assigned.',
    [('ids', st.sampled_from(reg_families).flatmap(reg_case), 480, 6000)],
    assumptions=[LEXER, 'an explicit id is not that of other codes, is not empty and has no "/" or control characters; '
                        'dataset names without "_-_"'])


add('C26', 'Training corpora of 1-3 files; learn-bpe for 1-2 numbers of merges is killed before, or half way through, a generated file '
    'operation, up to four times; then it runs undisturbed. Non-trivial: at least one crash happened.',
    [('crashes', st.fixed_dictionaries({
        'files': st.lists(learn_file, min_size=1, max_size=3), 'no_unicode': gen.rare, 'id': st.sampled_from([None, 'my']),
        'ns': st.lists(st.integers(1, 12), min_size=1, max_size=2), 'ncpu': st.sampled_from([1, 1, 2]),
        'crashes': st.lists(kill, min_size=1, max_size=4)}), 420, 6000)],
    level='fault_enumeration', preload=True, confirm_tries=3,
    assumptions=[LEXER] + CORPUS_ASSUME + ['a crash ends all processes of the run at a system call; what the kernel accepted is kept '
                                           '(no power loss)'])
