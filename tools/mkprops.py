"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; the outputs are committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique, observe=(), level='exploration', note='', claimed=True,
         reason='', state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
                  technique=technique, observe=list(observe), level=level, note=note, claimed=claimed, reason=reason,
                  state=list(state)))


def M(name, where):
    return {'name': name, 'where': where}


TEXT_IN = ('every source text (no lone surrogates) that the pygments lexer itself accepts, every language, splitting mode and option '
           '(blanks that a lexer leaves inside a number literal, as the COBOL one does, are not judged)')
TEXT_NOTE = ('Sampled inputs only: thousands of generated texts per run over ~80 languages; trusts pygments.lex and the regex module, '
             'and skips texts the lexer itself rejects.')
API = ['codeprep.api.text.nosplit', 'codeprep.api.text.chars', 'codeprep.api.text.basic', 'codeprep.api.text.bpe']

prop('C01', 'Returned metadata describes exactly the returned tokens',
     'For any text, language, splitting mode and options, asking for metadata returns the same subtokens as not asking, and the '
     'metadata describes them: word boundaries start at 0, strictly increase and end at the number of subtokens, there is exactly '
     'one token type per full token and it is the right kind for that token, and in bpe/chars mode exactly the last subtoken of '
     'each full token carries the </t> mark. '
     'The set of non-processable tokens contains exactly the texts of the emitted tokens that are never split (keywords, '
     'operators, other non-word characters, newlines, tabs, special tokens).',
     ['inputs', 'configurations'], TEXT_IN,
     'The tests pin metadata for a few hand-built token lists and one sample text; nested containers, placeholders, dropped '
     'tokens and empty containers combine in unboundedly many ways with the options.',
     ['codeprep/preprocess/metadata.py', 'codeprep/preprocess/core.py', 'codeprep/tokens/containers.py', 'codeprep/tokens/rootclasses.py',
      'codeprep/pipeline/to_repr.py', 'codeprep/api/text.py'],
     [M('PreprocessingMetadata.update shifts boundaries and joins types', 'codeprep/preprocess/metadata.py'),
      M('insert_word_end_tokens_ marks the last subtoken', 'codeprep/pipeline/to_repr.py')],
     'property-based testing: generated texts x options, invariants plus an independent reference model', API, note=TEXT_NOTE)

prop('C02', 'Preprocessing with content-preserving options loses no source characters',
     'With options that keep content (no placeholder for comments, strings or non-ASCII text, no string length limit, case '
     'kept), the full tokens of every mode, concatenated in order, contain exactly the non-whitespace characters of the source '
     'text in source order, apart from the <EOL> mark that closes a one-line comment and the lower-casing of numbers. '
     'This holds in every mode and language, with or without no_spaces, split_numbers and full_strings, and for all Unicode text.',
     ['inputs', 'configurations'], TEXT_IN,
     'Tests compare a few fixed texts with fixed outputs; loss or distortion needs an unusual character, literal or lexer token kind.',
     ['codeprep/parse/core.py', 'codeprep/parse/matchers.py', 'codeprep/parse/subtokens.py', 'codeprep/tokens/word.py',
      'codeprep/tokens/containers.py', 'codeprep/bpepkg/bpe_encode.py'],
     [M('the last matcher accepts every lexer token', 'codeprep/parse/matchers.py'),
      M('Word keeps a canonic form plus capitalization', 'codeprep/tokens/word.py')],
     'property-based testing: source-to-token round trip on generated texts', API, note=TEXT_NOTE)

prop('C03', 'All splitting modes refine the same full tokens',
     'For any text and any options shared by the modes, the full tokens (subtokens of one word joined, wrapping and end marks '
     'removed) of basic, with or without split_numbers, are those of nosplit. '
     'Those of bpe (any shipped code list) and chars are those of nosplit with full_strings, or, when no_unicode is used, '
     'identical to each other.',
     ['inputs', 'configurations'], TEXT_IN + '; pairs of modes on the same text',
     'Tests never compare two modes on the same text; each mode has its own rendering path.',
     ['codeprep/tokens/containers.py', 'codeprep/tokens/numeric.py', 'codeprep/prepconfig.py', 'codeprep/pipeline/to_repr.py'],
     [M('splitting happens below one parsed token', 'codeprep/tokens/containers.py')],
     'metamorphic property-based testing across splitting modes', API, note=TEXT_NOTE)

prop('C04', 'basic splits by underscore, camelCase and digits, wrapping only split words',
     'In basic mode every identifier is cut exactly at underscores, between digits and non-digits, and at camelCase boundaries '
     '(an upper-case run before a lower-case letter leaves its last letter to the next part; other characters stand alone), in order '
     'and without loss. A word is wrapped in <w> ... </w> exactly when it has more than one part, numbers stay whole unless '
     'split_numbers asks for single characters, and everything else is emitted as it is.',
     ['inputs'], 'every text and language in basic mode; identifiers over all of Unicode',
     'Tests list about a dozen identifiers; the boundary rules interact for every mixture of case, digit, underscore and non-ASCII.',
     ['codeprep/parse/subtokens.py', 'codeprep/tokens/containers.py', 'codeprep/tokens/numeric.py'],
     [M('split_string / split_identifier pattern', 'codeprep/parse/subtokens.py'),
      M('wrap_in_word_boundaries', 'codeprep/tokens/containers.py')],
     'property-based testing against a reference tokenizer model', ['codeprep.api.text.basic'], note=TEXT_NOTE)

prop('C05', 'no_case lower-cases reversibly with <Cap> and <CAPS> marks',
     'With no_case, identifier parts are emitted in lower case, preceded by <Cap> (first letter was upper case) or <CAPS> (the '
     'whole part was upper case), and undoing the marks gives back exactly the parts basic emits without no_case. '
     'Parts whose case mapping is not reversible are emitted unchanged and unmarked, words are wrapped exactly when they have '
     'more than one part not counting the mark, and tokens other than identifiers, token types and token count are unaffected.',
     ['inputs'], 'every text and language in basic mode with and without no_case; identifiers over all of Unicode',
     'Tests use ASCII words only; Unicode case mapping has many irregular characters.',
     ['codeprep/tokens/word.py', 'codeprep/tokens/containers.py', 'codeprep/preprocess/placeholders.py'],
     [M('Word.from_ records the capitalization', 'codeprep/tokens/word.py')],
     'property-based round-trip testing of the case encoding', ['codeprep.api.text.basic'], note=TEXT_NOTE)

prop('C06', 'Comment and string options change exactly the comments and strings',
     'no_com replaces each comment, and nothing else, by one <comment> token; no_str replaces each string literal by one '
     '<str-literal> token; max_str_length n (at least 2) replaces exactly the literals longer than n characters including quotes by an '
     'empty literal (the two quote characters); full_strings and bpe/chars keep each remaining literal as one full token with spaces '
     'shown as non-breaking spaces, while the other modes split it on whitespace into tokens without the spaces.',
     ['inputs', 'configurations'], TEXT_IN + '; string limits around the actual literal lengths',
     'Tests check a couple of literals; limits, escapes, unterminated literals, prefixes and nesting are unbounded.',
     ['codeprep/tokens/containers.py', 'codeprep/api/common.py', 'codeprep/prepconfig.py', 'codeprep/parse/matchers.py'],
     [M('StringLiteral.preprocessed_repr / non_preprocessed_repr', 'codeprep/tokens/containers.py'),
      M('create_str_value / get_max_str_length', 'codeprep/api/common.py, codeprep/prepconfig.py')],
     'property-based testing against a reference model, limits generated near literal lengths', API,
     note=TEXT_NOTE + ' Known finding KF1: limits of 62 and more are treated as unlimited.')

prop('C07', 'no_unicode replaces non-ASCII text and keeps all ASCII text',
     'With no_unicode in nosplit and basic, each word (maximal run of word characters) with a non-ASCII character becomes one '
     '<non-en> token wherever it occurs (code, comment, split string), and all ASCII words and single non-word characters stay. '
     'In bpe/chars, and in whole (full_strings) literals, each maximal run of non-ASCII characters of a word is replaced by one '
     'division-sign character before splitting, and the ASCII characters around it are kept.',
     ['inputs', 'configurations'], TEXT_IN + '; text rich in non-ASCII words',
     'Tests use a few words; position, mixture and token kind of the non-ASCII characters vary without bound.',
     ['codeprep/noneng.py', 'codeprep/tokens/noneng.py', 'codeprep/tokens/containers.py', 'codeprep/parse/subtokens.py'],
     [M('NonEng / replace_non_ascii_seqs', 'codeprep/noneng.py, codeprep/tokens/noneng.py')],
     'property-based testing against a reference model', API, note=TEXT_NOTE)

prop('C08', 'no_spaces, append_eof, default language and trailing newline act locally',
     'no_spaces removes exactly the newline and tab tokens, and append_eof adds exactly one final <EOF> full token, changing no '
     'other token or type. An absent or empty language means java. '
     'Without no_spaces every source newline and every four-space or tab indentation is kept as a token, and ending the text with '
     'extra newlines does not change the result (for lexers that strip them).',
     ['inputs', 'configurations'], 'every text, language, mode and option; pairs of calls differing in one option',
     'Tests check these options on one text each and never relate two calls.',
     ['codeprep/api/text.py', 'codeprep/tokens/whitespace.py', 'codeprep/parse/core.py', 'codeprep/parse/matchers.py'],
     [M('preprocess() drops the final NewLine and adds the EOF token', 'codeprep/api/text.py'),
      M('NewLine/Tab in types_to_be_repr', 'codeprep/prepconfig.py')],
     'metamorphic property-based testing of pairs of calls', API, note=TEXT_NOTE)

prop('C09', 'Text API calls are total, deterministic and independent of earlier calls',
     'Every text API call on text the lexer accepts returns normally, and its tokens and metadata depend only on its arguments: '
     'repeating a call later in the same process, after any calls in other modes, languages, options or BPE codes, gives the '
     'same result, and so does a fresh process.',
     ['inputs', 'histories'], 'every sequence of text API calls with default re-initialisation of BPE data',
     'Each test makes one call; BPE data and caches are process-wide state shared by all calls.',
     ['codeprep/api/text.py', 'codeprep/pipeline/to_repr.py', 'codeprep/bpepkg/bpe_encode.py', 'codeprep/preprocess/metadata.py'],
     [M('init_bpe_data re-reads the merges when the call asks for BPE', 'codeprep/pipeline/to_repr.py')],
     'stateful property-based testing: generated call histories, differential against a fresh process', API, note=TEXT_NOTE,
     state=[{'name': 'global_bpe_data', 'meaning': 'merges in use', 'where': 'codeprep/pipeline/to_repr.py'}])

prop('C10', 'BPE encoding equals applying the merges one by one in priority order',
     'Encoding a word with a merge list gives exactly the result of repeatedly merging, left to right, all occurrences of the '
     'adjacent pair with the best priority until no listed pair is left, over the characters of the word plus its end mark. '
     'Escaping is lossless, including for words with the escape character. The bpe and chars modes apply exactly this encoding, with '
     'the requested merge list (none for chars), to words, numbers (the literals 0 and 1 stay whole) and whole string literals, and to '
     'nothing else.',
     ['inputs', 'configurations'], 'every word and every merge list; every text, language and shipped code list through the API',
     'Tests encode about ten words; overlapping repeats, ties and the escape character need generated words and merge lists.',
     ['codeprep/bpepkg/bpe_encode.py', 'codeprep/bpepkg/merge.py', 'codeprep/prepconfig.py', 'codeprep/tokens/numeric.py'],
     [M('encode() picks the best-priority pair per round', 'codeprep/bpepkg/bpe_encode.py')],
     'differential property-based testing against a naive BPE implementation',
     ['codeprep.bpepkg.bpe_encode.encode_word', 'codeprep.bpepkg.bpe_encode.get_bpe_subwords'] + API,
     note='Random words (up to ~40 characters) and merge lists (up to 12) plus API calls; sampled.')

E = None
exec(open(os.path.join(ROOT, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'props2.py')) else None

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
            'anchors': dict({'files': p['files'], 'mechanism': p['mechanism'], 'observe_at': p['observe'], 'hook_needed': None},
                            **({'state': p['state']} if p['state'] else {}))}) + '\n')
man = {'version': 1, 'setup_cmd': 'bash setup.sh',
       'checks': [{'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
                   'thorough_cmd': './check %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p['technique'], 'level': p['level'], 'level_note': p['note'] or 'Sampled, not exhaustive.'}
                  for p in P if p['claimed']],
       'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if not p['claimed']]}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
for p in P:
    assert p['statement'].count('. ') <= 2, (p['id'], p['statement'])
print(len(P), 'properties')
