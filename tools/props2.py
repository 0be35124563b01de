# C11-C26; executed by mkprops.py
CORPUS_API = ['codeprep.api.corpus.nosplit', 'codeprep.api.corpus.chars', 'codeprep.api.corpus.basic', 'codeprep.api.corpus.bpe']
DS_IN = 'every directory of source files (names and contents of any bytes), splitting mode, option and number of processes'
CRASH_NOTE = ('Crash points are sampled over the whole range of file operations of a run, with repeated crashes; a crash ends all processes at a '
              'system call and what the kernel accepted is kept (no power loss). ')

prop('C11', 'Learning BPE codes always merges a most frequent adjacent pair',
     'For any word counts and number n, learning gives at most n merges, each of them a pair that is most frequent (weighted by word '
     'count) in the segmentation so far and recorded with that frequency; it stops early only when no pair is left. '
     'The resulting segmentation of every word is what encoding it with the learned merges gives, and the subword counts and the word '
     'cache are those of that segmentation. '
     'Learning in two steps continues where the first step ended, and the joined merge list keeps the order.',
     ['inputs'], 'every multiset of words (all of Unicode, repeated and overlapping symbols) and every number of merges',
     'Tests learn a few merges on tiny vocabularies; the incremental pair statistics go wrong only for overlaps, repeated symbols and '
     'pairs that vanish.',
     ['codeprep/bpepkg/bpe_learn.py', 'codeprep/bpepkg/merge.py'],
     [M('incremental update of pair counts and index after each merge', 'codeprep/bpepkg/bpe_learn.py: do_merges, get_stats'),
      M('MergeList addition renumbers priorities', 'codeprep/bpepkg/merge.py')],
     'property-based testing: replay of every learned merge against recounted pair frequencies',
     ['codeprep.bpepkg.bpe_learn.do_merges'], note='Sampled: vocabularies of up to a dozen words and up to ~40 merges; ties may be resolved '
     'in any way.')

prop('C12', 'Learning BPE over a whole text merges a most frequent pair each time',
     'Learning merges over a running text (no word boundaries) yields, one after another, merges of a most frequent adjacent pair of '
     'the text merged so far, and reports for each how often it was merged. '
     'It yields the requested number of merges, or ends when at most one symbol is left. The text may be a string, a file in UTF-8 or '
     'ISO-8859-1, or the Python files of a directory; spaces count as non-breaking spaces.',
     ['inputs'], 'every text, given as a string, a file or a directory, with and without a limit',
     'Tests use one short text; the position lists must be kept right for overlapping occurrences and neighbours of every merge.',
     ['codeprep/bpepkg/wild_bpe.py'],
     [M('location index updated per merge', 'codeprep/bpepkg/wild_bpe.py: run')],
     'property-based testing: replay of every merge against recounted pair frequencies',
     ['codeprep.bpepkg.wild_bpe.run_from_text', 'codeprep.bpepkg.wild_bpe.run_from_file'], note='Sampled texts of up to ~60 characters, some of up to 27 000.')

prop('C13', 'BPE merges and caches survive storage; cached words encode the same',
     'Merge lists (also their first n entries), word caches and escaped texts read back from files exactly as they were written, for '
     'all Unicode content including white space, backslashes and the escape character. '
     'A merge list keeps its order and refuses a merge out of order, and two lists are joined in order. '
     'Looking a word up, with or without a cache, in any order and however often, gives what encoding it with the merges gives, whatever '
     'callers did with earlier results.',
     ['inputs', 'histories'], 'every merge list, word cache, escaped text and sequence of lookups',
     'Tests store one small list and look up single words; escaping has special cases per character class, and the cache is shared '
     'mutable state.',
     ['codeprep/bpepkg/merge.py', 'codeprep/bpepkg/cache.py', 'codeprep/util.py', 'codeprep/bpepkg/bpe_encode.py'],
     [M('dump_merges/read_merges, dump_bpe_cache/read_bpe_cache', 'codeprep/bpepkg/merge.py, codeprep/bpepkg/cache.py'),
      M('get_bpe_subwords looks words up in the cache', 'codeprep/bpepkg/bpe_encode.py')],
     'property-based testing: storage round trips and stateful lookups against a naive encoder',
     ['codeprep.bpepkg.merge.read_merges', 'codeprep.bpepkg.bpe_encode.get_bpe_subwords'], note='Sampled.',
     state=[{'name': 'merges_cache', 'meaning': 'subwords of known words', 'where': 'codeprep/bpepkg/bpe_encode.py'}])

prop('C14', 'A preprocessed corpus mirrors the source tree with the text API tokens',
     'Preprocessing a directory (or a single file) writes exactly one output file per source file at the same relative path with .prep '
     'appended, and its content is, token for token, what the text call with the same options and the language of the file extension '
     'returns for the decoded file, joined by single spaces. '
     'Sources are never changed, and the files listed by the result are exactly the files written, whatever the number of processes.',
     ['inputs', 'configurations', 'schedules'], DS_IN,
     'Tests preprocess one tiny directory and compare nothing with the text call; names, encodings, empty files, odd bytes and parallel '
     'execution are untested.',
     ['codeprep/pipeline/to_repr.py', 'codeprep/pipeline/dataset.py', 'codeprep/dirutils.py', 'codeprep/pipeline/stages.py',
      'codeprep/fileutils.py', 'codeprep/parse/core.py', 'codeprep/api/corpus.py'],
     [M('preprocess_and_write per file, atomically renamed', 'codeprep/pipeline/to_repr.py'),
      M('file list kept for the parallel workers', 'codeprep/dirutils.py')],
     'differential property-based testing: generated source trees, corpus call against text call', CORPUS_API,
     note='Trees of up to about 8 files with generated names and bytes; 1-3 processes; real processes, schedules as they come.')

prop('C15', 'Exactly the files with the requested extensions are processed',
     'Given a list of extensions, exactly the files whose names end in a dot and one of them are processed, at any depth and below linked '
     'directories; without a list every regular file is. '
     'Linked files are left out, running again gives the same files and the same result, and however the path is spelled the same files '
     'are found.',
     ['inputs', 'configurations'], 'every tree with nested, hidden, linked and oddly named files and every extension list',
     'Tests walk one fixed tree; file selection must hold for every name, depth and link structure.',
     ['codeprep/fileutils.py', 'codeprep/dirutils.py', 'codeprep/pipeline/dataset.py', 'codeprep/api/corpus.py'],
     [M('walk / walk_and_save with the extension filter', 'codeprep/fileutils.py, codeprep/dirutils.py')],
     'property-based testing against an independent directory walk', CORPUS_API, note='Generated trees with links; no cycles of links.')

prop('C16', 'Every run gives the result for the dataset as it is now',
     'In every history of changes to a dataset (files created, edited, deleted, renamed or moved in with older times), changes to '
     'results and caches (removed, damaged), and runs with any options, extensions and output directories, each run gives exactly the '
     'corpus, vocabulary and corpus size of the content at that time. '
     'Runs never change the dataset, nor the finished results of other runs.',
     ['histories'], 'every sequence of runs and changes, changes being at least a second apart',
     'Each test runs once on a fresh tree; stale reuse of a cached file list, corpus, or vocabulary needs a particular sequence.',
     ['codeprep/pipeline/dataset.py', 'codeprep/pipeline/stages.py', 'codeprep/dirutils.py', 'codeprep/fileutils.py',
      'codeprep/pipeline/vocab.py', 'codeprep/config.py'],
     [M('SubDataset: ready flags, archiving, path from the dataset timestamp', 'codeprep/pipeline/dataset.py'),
      M('get_timestamp over the tree', 'codeprep/fileutils.py')],
     'stateful property-based testing: generated histories against a model that recomputes from scratch', CORPUS_API,
     note='Histories of up to about 12 operations on up to 6 files. Known finding KF2: two datasets of the same directory name and '
          'modification second share cached results.',
     state=[{'name': 'dataset_caches', 'meaning': 'file lists, corpora and vocabularies kept from earlier runs',
             'where': '~/.cache/codeprep, ~/.config/codeprep and the output directory'}])

prop('C17', 'An interrupted preprocessing run leaves nothing torn; a rerun completes it',
     'However often a preprocessing run is killed, or fails with an I/O error, at any file operation, no output file is ever left '
     'incomplete under its final name. '
     'The next undisturbed run, also after the dataset or options have changed, gives exactly the corpus of an uninterrupted run, and '
     'one after that the same.',
     ['crash_points', 'fault_sequences', 'histories'], 'every file operation of a run as the point of interruption, repeatedly, with changes in between',
     'No test interrupts a run; completion is recorded by flag files, renames and cached lists whose order matters only at a crash.',
     ['codeprep/pipeline/dataset.py', 'codeprep/pipeline/to_repr.py', 'codeprep/pipeline/stages.py', 'codeprep/dirutils.py'],
     [M('write to a temporary name, then rename', 'codeprep/pipeline/to_repr.py'),
      M('ready flags written after the work', 'codeprep/pipeline/dataset.py')],
     'fault injection driven by generated crash points and sequences, checked against an uninterrupted run', CORPUS_API,
     level='fault_enumeration', note=CRASH_NOTE + 'Datasets of 1-4 files, up to three interruptions.')

prop('C18', 'The vocabulary is the exact token count of the corpus',
     'The calculated vocabulary lists every different token of the preprocessed corpus exactly once with its exact number of '
     'occurrences, in descending order, and its size is the number of entries; loading it gives the same counts, and the corpus size is '
     'the number of tokens. The statistics written with it end with that size; limited to n words, it keeps exactly those that are more '
     'frequent than the next ones. This holds for any number of files and processes, however the work is partitioned and merged, and for tokens with any characters.',
     ['inputs', 'schedules', 'configurations'], DS_IN + '; every partitioning into partial vocabularies',
     'The tests merge two hand-made vocabularies; losing or doubling a partial result depends on the number of files and processes '
     'and on scheduling.',
     ['codeprep/pipeline/vocab.py', 'codeprep/pipeline/vocabloader.py',
      'codeprep/api/corpus.py'],
     [M('partial vocabularies merged pairwise by several processes', 'codeprep/pipeline/vocab.py'),
      M('get_corpus_size', 'codeprep/api/corpus.py')],
     'property-based testing: exact recount of generated corpora, real processes', CORPUS_API + ['PreprocessedCorpus.load_vocab'],
     note='Up to 14 files (some datasets with up to 90), 1-4 processes, the partition constants also lowered so that several rounds of merging happen; schedules are '
          'those the system produces.')

prop('C19', 'An interrupted vocabulary calculation resumes to exact counts',
     'However often a calculation of the vocabulary or the corpus size is killed at any file operation, a vocabulary under its final name '
     'is complete and right. '
     'The next run gives exactly the counts of the corpus, with nothing counted twice or lost, and never hangs.',
     ['crash_points', 'fault_sequences'], 'every file operation of the calculation, in any of its processes, repeatedly',
     'One test simulates a single prepared state; partial results are stored, merged and deleted in many steps.',
     ['codeprep/pipeline/vocab.py', 'codeprep/pipeline/vocabloader.py'],
     [M('partial vocabularies kept with their files for resuming', 'codeprep/pipeline/vocab.py')],
     'fault injection driven by generated crash points and sequences, checked against an exact recount', CORPUS_API,
     level='fault_enumeration', note=CRASH_NOTE + 'Datasets of 1-6 files, up to four crashes, 1-3 processes.')

prop('C20', 'learn-bpe learns from exactly the corpus and its codes encode accordingly',
     'Learning custom codes counts exactly the splittable words of the corpus (all but keywords, operators and other tokens never split), '
     'each merge is a most frequent pair given the earlier ones, and asking for more, fewer or the same number of merges later extends or reuses '
     'what was learned. '
     'Using a learned id encodes words exactly with its first k merges, keeps never-split words of the corpus whole, and the stored '
     'subword vocabulary is that of the encoded corpus.',
     ['inputs', 'histories', 'configurations'], 'every training corpus, sequence of merge numbers, extension list and --no-unicode',
     'Tests of learning mock the data files; no test learns from a corpus and then encodes with the result.',
     ['codeprep/pipeline/bpelearner.py', 'codeprep/pipeline/bperegistry.py', 'codeprep/pipeline/vocabloader.py', 'codeprep/bpepkg/bpe_learn.py',
      'codeprep/cli/impl.py', 'codeprep/pipeline/to_repr.py'],
     [M('run: base vocabulary, non-splittable words, merges, archive', 'codeprep/pipeline/bpelearner.py'),
      M('load_bpe_merges / load_nonbpe_vocab', 'codeprep/pipeline/bperegistry.py')],
     'property-based testing: end-to-end learning on generated corpora against a reference learner check',
     ['codeprep.cli.spec.parse_and_run', 'codeprep.api.text.bpe'], note='Corpora of 1-4 small files, up to 40 merges, three learning steps.')

prop('C21', 'Custom code ids identify one set of codes; invalid ids are refused',
     'Every dataset gets an id of its own for its codes (an explicit one, or the dataset name made unique) that is kept on later runs; codes '
     'learned under different ids never mix, whatever characters the names have. '
     'Listing shows exactly the ids and numbers of merges available; any id with a number up to that resolves to exactly those first '
     'merges, and every other id or number is refused.',
     ['histories', 'inputs'], 'every sequence of learning and id assignment on datasets with similar, equal or odd names; every id string',
     'Tests resolve a few prepared ids; collisions need particular names and histories.',
     ['codeprep/pipeline/bperegistry.py', 'codeprep/pipeline/dataset.py', 'codeprep/pipeline/bpelearner.py'],
     [M('create_new_id_from, get_dataset_bpe_dir, parse_merge_list_id', 'codeprep/pipeline/bperegistry.py'),
      M('assign_bpe_codes_id', 'codeprep/pipeline/dataset.py')],
     'stateful property-based testing: generated registry histories against a model', ['codeprep.pipeline.bperegistry'],
     note='Up to 4 datasets and 8 operations; explicit ids are assumed not to be in use already.',
     state=[{'name': 'bpe_registry', 'meaning': 'ids of datasets and learned codes', 'where': '~/.config/codeprep/bpe'}])

prop('C22', 'The command line gives what the Python API gives',
     'Every command on a text prints exactly the tokens that the corresponding text call returns, and every command on a path writes '
     'exactly the corpus, in the place, and the vocabulary that the corresponding corpus call writes. '
     'This holds for all commands and allowed options, in long, short, joined and separated spelling and in any order, and for shipped '
     'and learned codes.',
     ['inputs', 'configurations', 'programs'], 'every allowed command line',
     'Tests check that options are passed to a mock for about twenty fixed command lines.',
     ['codeprep/cli/spec.py', 'codeprep/cli/impl.py', 'codeprep/prepconfig.py', 'codeprep/api/common.py'],
     [M('usage message parsed by docopt', 'codeprep/cli/spec.py'), M('options to prep config', 'codeprep/cli/impl.py')],
     'differential property-based testing: generated command lines against API calls', ['codeprep.cli.spec.parse_and_run'],
     note='Thousands of generated text commands and a few hundred corpus commands per run; docopt is trusted for the usage message itself.')

prop('C23', 'Settings are encoded without ambiguity and act the same when read back',
     'Any two combinations of options are encoded to the same settings string exactly if they mean the same, the string reads back to '
     'equal settings, and preprocessing driven by the re-read settings gives the tokens of the call with the options. '
     'Strings that encode no valid combination are refused. The settings of codes to learn (Unicode, word end) read back likewise.',
     ['configurations', 'inputs'], 'every pair of option combinations and every settings string',
     'Tests encode three combinations; the encoding names output and cache directories, so one ambiguity mixes up results.',
     ['codeprep/prepconfig.py', 'codeprep/api/common.py'],
     [M('PrepConfig.__str__/from_encoded_string/_check_invariants', 'codeprep/prepconfig.py')],
     'property-based testing: injectivity, round trip and differential text calls', ['codeprep.prepconfig.PrepConfig'] + API,
     note='Sampled pairs of combinations; string limits of 62 and more are one class (KF1).')

prop('C24', 'Metadata joins correctly, iterators follow it and damaged data is refused',
     'Joining the metadata of consecutive pieces, in any grouping, gives the metadata of the whole. '
     'The iterators over subtokens and over full tokens yield exactly the pieces the boundaries describe, with the right indices and formats, '
     'and refuse boundaries that do not match. '
     'The validity check accepts what the text calls return and refuses such data after any lost, added or moved subtoken, boundary or end mark.',
     ['inputs'], 'every list of words, grouping into pieces, result of a text call and single damage to it',
     'Tests join two or three hand-made objects and iterate over one.',
     ['codeprep/preprocess/metadata.py', 'codeprep/subtokens.py'],
     [M('PreprocessingMetadata.update', 'codeprep/preprocess/metadata.py'), M('SubtokenIterator, FullTokenIterator', 'codeprep/subtokens.py'),
      M('check_metadata_validity', 'codeprep/preprocess/metadata.py')],
     'property-based testing: algebraic laws, iterator models and mutation of valid data',
     ['codeprep.preprocess.metadata', 'codeprep.subtokens'], note='Sampled.')

prop('C25', 'ronin and stem refine the basic split of words and change nothing else',
     'With ronin, every word part of the basic split (with split numbers) is replaced by what the word splitter makes of it; with stem '
     'each resulting part is replaced by its Porter stem in the case of the part. '
     'Words are wrapped exactly when they have more than one part, and all other tokens, case marks and token types are those of basic.',
     ['inputs', 'configurations'], 'every text and language (stem: ASCII texts) and every option that goes with basic',
     'Tests stem three words and need the real splitter for ronin.',
     ['codeprep/tokens/word.py', 'codeprep/tokens/containers.py', 'codeprep/prepconfig.py', 'codeprep/stemming.py', 'codeprep/api/common.py'],
     [M('splitting and stemming in the rendering of identifiers', 'codeprep/tokens/containers.py')],
     'metamorphic property-based testing against basic splitting, with a stand-in word splitter', ['codeprep.api.text.basic'],
     note='The package spiral is not installed here and is replaced by a splitter that cuts before generated letters; nltk is trusted.')

prop('C26', 'Interrupted learning of codes leaves nothing wrong; a rerun learns right ones',
     'However often learn-bpe is killed at any file operation, the codes that can be used afterwards, if any, are complete and right ones '
     'for their number of merges. '
     'The next undisturbed run succeeds and learns exactly what an uninterrupted run would.',
     ['crash_points', 'fault_sequences'], 'every file operation of a learning run, repeatedly, also when codes were learned before',
     'No test interrupts learning; several dependent files are written in sequence.',
     ['codeprep/pipeline/bpelearner.py', 'codeprep/pipeline/bperegistry.py', 'codeprep/pipeline/vocab.py', 'codeprep/bpepkg/merge.py'],
     [M('merges, caches, vocabularies written per number of merges', 'codeprep/pipeline/bpelearner.py')],
     'fault injection driven by generated crash points and sequences, checked against the learner model', ['codeprep.cli.spec.parse_and_run'],
     level='fault_enumeration', note=CRASH_NOTE + 'Corpora of 1-3 files, one or two numbers of merges, up to four crashes.')
