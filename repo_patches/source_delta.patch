From 73118dbbe47b102fad73f7281fc49dd77eda2ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 01/26] fix: keep the case of words whose upper/lower case
 mapping is not reversible
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Word.from_ lower-cased words such as 'ẞ', 'K' (Kelvin sign) or 'ǅb' and rendered
them back with upper()/capitalize(), which produced different characters.
---
 codeprep/tokens/word.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/codeprep/tokens/word.py b/codeprep/tokens/word.py
index 3319e61..a9c01fc 100644
--- a/codeprep/tokens/word.py
+++ b/codeprep/tokens/word.py
@@ -51,7 +51,11 @@ class Word(ParsedSubtoken):
 
     @staticmethod
     def _is_strictly_upper(s) -> bool:
-        return s.isupper() and not s.lower().isupper()
+        return s.isupper() and not s.lower().isupper() and Word._lowering_is_reversible(s)
+
+    @staticmethod
+    def _lowering_is_reversible(s) -> bool:
+        return s.lower().upper() == s
 
     @staticmethod
     def _check_canonic_form_is_valid(canonic_form) -> None:
@@ -86,7 +90,7 @@ class Word(ParsedSubtoken):
         if self.capitalization == Word.Capitalization.UNDEFINED or self.capitalization == Word.Capitalization.NONE:
             return self.canonic_form
         elif self.capitalization == Word.Capitalization.FIRST_LETTER:
-            return self.canonic_form.capitalize()
+            return self.canonic_form[0].upper() + self.canonic_form[1:]
         elif self.capitalization == Word.Capitalization.ALL:
             return self.canonic_form.upper()
         else:
@@ -109,9 +113,9 @@ class Word(ParsedSubtoken):
 
         if s.islower() or not s:
             return cls(s, Word.Capitalization.NONE)
-        elif s.isupper():
+        elif s.isupper() and cls._lowering_is_reversible(s):
             return cls(s.lower(), Word.Capitalization.ALL)
-        elif s[0].isupper():
+        elif s[0].isupper() and cls._lowering_is_reversible(s[0]):
             return cls(s[0].lower() + s[1:], Word.Capitalization.FIRST_LETTER)
         else:
             return cls(s, Word.Capitalization.UNDEFINED)
-- 
2.43.0


From cdf1a39b8e6f39cd030f536428f5ac9b1eacbfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 02/26] fix: do not alter the cached subwords when unescaping
 them

---
 codeprep/bpepkg/bpe_encode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/bpe_encode.py b/codeprep/bpepkg/bpe_encode.py
index b253605..658aee2 100644
--- a/codeprep/bpepkg/bpe_encode.py
+++ b/codeprep/bpepkg/bpe_encode.py
@@ -40,7 +40,7 @@ def unescape(parts: List[str]):
     if parts[-1][-1] != ESCAPE_CHAR:
         raise ValueError(f"There should be {ESCAPE_CHAR} at the end, however this is what was passed: {parts}")
 
-    parts[-1] = parts[-1][:-1]
+    parts = parts[:-1] + [parts[-1][:-1]]
     return list(map(lambda p: p.replace(ESCAPE_CHAR + '@', ESCAPE_CHAR), parts))
 
 
-- 
2.43.0


From 64b15006920c4759a760196f0f23e000ecb7d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 03/26] fix: take the modification time of the root directory
 into account

---
 codeprep/dirutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index c4792e9..e065eac 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -59,6 +59,7 @@ def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFI
         if os.path.isfile(path) or len(os.listdir(path)) == 0:
             yield os.path.getmtime(path)
         else:
+            yield os.path.getmtime(path)
             for root, dirs, files in os.walk(path):
                 for dir in dirs:
                     if counter >= limit:
-- 
2.43.0


From aa015e6fb22bf1fdb19e4da69dde33423e32b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 04/26] fix: notice modifications below symlinked directories,
 whose files are part of the dataset

---
 codeprep/dirutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index e065eac..283a77d 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -60,7 +60,7 @@ def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFI
             yield os.path.getmtime(path)
         else:
             yield os.path.getmtime(path)
-            for root, dirs, files in os.walk(path):
+            for root, dirs, files in os.walk(path, followlinks=True):
                 for dir in dirs:
                     if counter >= limit:
                         return
-- 
2.43.0


From e86af79f35811c05b31b35f1b6690cb2e2de0d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 05/26] fix: do not fail on files whose extension is not valid
 UTF-8

---
 codeprep/pipeline/parse_projects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/parse_projects.py b/codeprep/pipeline/parse_projects.py
index 344bba6..9b72812 100644
--- a/codeprep/pipeline/parse_projects.py
+++ b/codeprep/pipeline/parse_projects.py
@@ -38,7 +38,7 @@ def preprocess_and_write(params: Tuple[bytes, bytes]) -> None:
             logger.error(f"File was found when scanning the directory, but cannot be read: {src_file_path}. "
                          f"Invalid symlink? Ignoring ...")
             return
-        extension_bin = os.path.splitext(src_file_path)[1].decode()[1:]
+        extension_bin = os.fsdecode(os.path.splitext(src_file_path)[1])[1:]
         parsed = [p for p in convert_text("\n".join(lines_from_file), extension_bin)]
         pickle.dump(parsed, f, pickle.HIGHEST_PROTOCOL)
 
-- 
2.43.0


From 00e2f71580adba2ffbe6c0250b6b3730470ee54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 06/26] fix: take the dataset name literally when looking for
 existing bpe codes ids

---
 codeprep/pipeline/bperegistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index a9503ad..cd60dac 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -111,7 +111,7 @@ def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id
             return id_base
         else:
             def extract_number(full_id: str, id_base: str) -> int:
-                m = regex.fullmatch(f"{id_base}_([0-9]+)", full_id)
+                m = regex.fullmatch(f"{regex.escape(id_base)}_([0-9]+)", full_id)
                 return int(m[1]) if m else 0
 
             numbers = list(map(lambda d: extract_number(d, id_base), existing_ids))
-- 
2.43.0


From 86f145e13114c7326345149f5ab837b83e4f1cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 07/26] fix: write the preprocessed corpus also when the
 vocabulary has been calculated before

---
 codeprep/pipeline/stages.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/codeprep/pipeline/stages.py b/codeprep/pipeline/stages.py
index eb13220..f06036b 100644
--- a/codeprep/pipeline/stages.py
+++ b/codeprep/pipeline/stages.py
@@ -52,17 +52,16 @@ def run_until_base_bpe_vocab(dataset: Dataset, custom_bpe_config: Optional[Custo
 
 
 def run_until_vocab(dataset: Dataset, custom_bpe_config: Optional[CustomBpeConfig]=None) -> None:
+    run_until_preprocessing(dataset, custom_bpe_config)
     logger.info(f'Checking first if vocabulary file exists: {dataset.path_to_vocab_file}')
     if os.path.exists(dataset.path_to_vocab_file):
         logger.info("Vocabulary is already computed and up-to-date")
         return
 
     if not is_path_ready(dataset.path_to_vocab_file):
-        run_until_preprocessing(dataset, custom_bpe_config)
         logger.info("Computing vocab...")
         calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
     elif is_path_outdated(dataset.path_to_vocab_file):
-        run_until_preprocessing(dataset, custom_bpe_config)
         logger.info("Computing vocab...")
         archive_path(dataset.path_to_bpe_vocab_file)
         calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
-- 
2.43.0


From 7aa41f3456a1beabd16d0e64004896ec49ed9ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 08/26] fix: close the files with partial vocabularies before
 they are read again

---
 codeprep/pipeline/vocab.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 0cdfa3d..94dcb17 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -197,7 +197,8 @@ class VocabMerger(multiprocessing.Process):
 
         first.renew_id()
         path_to_new_file = os.path.join(self.path_to_dump, f'{first_id}_{second_id}_{first.id}.{PARTVOCAB_EXT}')
-        pickle.dump(first, open(path_to_new_file, 'wb'))
+        with open(path_to_new_file, 'wb') as f:
+            pickle.dump(first, f)
         finish_file_dumping(path_to_new_file)
 
         return first, new_words
@@ -219,13 +220,15 @@ def create_and_dump_partial_vocab(param: Tuple[List[str], str, int]) -> PartialV
     partial_vocab = PartialVocab(vocab, chunk)
     path = os.path.join(path_to_dump, f'{partial_vocab.id}.{PARTVOCAB_EXT}')
     logger.debug(f"Dumping part vocab to {path}")
-    pickle.dump(partial_vocab, open(path, 'wb'))
+    with open(path, 'wb') as f:
+        pickle.dump(partial_vocab, f)
     return partial_vocab
 
 
 def finish_file_dumping(path_to_new_file: str) -> None:
     try:
-        pickle.load(open(path_to_new_file, 'rb'))
+        with open(path_to_new_file, 'rb') as f:
+            pickle.load(f)
     except EOFError:
         # file has not been written properly
         os.remove(path_to_new_file)
@@ -292,7 +295,8 @@ def load_partial_vocabs(path: str) -> List[PartialVocab]:
     task_list = []
     for file in os.listdir(path):
         if file.endswith(PARTVOCAB_EXT):
-            part_vocab = pickle.load(open(os.path.join(path, file), 'rb'))
+            with open(os.path.join(path, file), 'rb') as f:
+                part_vocab = pickle.load(f)
             if not isinstance(part_vocab, PartialVocab):
                 raise TypeError(f"Object {str(part_vocab)} must be VocabMerger version {part_vocab.VERSION}")
             task_list.append(part_vocab)
-- 
2.43.0


From aa5a5d3f1843e3a334da1a6bf7035522c6b9ab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 09/26] fix: discard partial vocabularies that were only partly
 written, whatever error reading them raises

---
 codeprep/pipeline/vocab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 94dcb17..b8c2fc6 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -229,7 +229,7 @@ def finish_file_dumping(path_to_new_file: str) -> None:
     try:
         with open(path_to_new_file, 'rb') as f:
             pickle.load(f)
-    except EOFError:
+    except Exception:
         # file has not been written properly
         os.remove(path_to_new_file)
         return
-- 
2.43.0


From 00e9e9435c31f0262385be7329805571d2ff9933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 10/26] fix: an interrupted run must not leave a partly written
 vocabulary file

---
 codeprep/pipeline/vocab.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index b8c2fc6..c0cd404 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -96,7 +96,9 @@ class PartialVocab(object):
 
     def write_vocab(self, path_to_vocab_file: str) -> None:
         sorted_vocab = sorted(self.merged_word_counts.items(), key=lambda x: x[1], reverse=True)
-        _dump_vocab_dict(sorted_vocab, path_to_vocab_file, to_literal=False)
+        not_finished_vocab_file = f'{path_to_vocab_file}.part'
+        _dump_vocab_dict(sorted_vocab, not_finished_vocab_file, to_literal=False)
+        os.rename(not_finished_vocab_file, path_to_vocab_file)
 
     def __generate_stats(self):
         d = defaultdict(list)
-- 
2.43.0


From 866f5776003b7fd739d3a7b38b3f44e77442d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 11/26] fix: an interrupted run must not leave a partly written
 corpus size file

---
 codeprep/api/corpus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codeprep/api/corpus.py b/codeprep/api/corpus.py
index b583a36..fb45d45 100644
--- a/codeprep/api/corpus.py
+++ b/codeprep/api/corpus.py
@@ -48,8 +48,10 @@ class PreprocessedCorpus(object):
     def get_corpus_size(self) -> int:
         if not os.path.exists(self._path_to_corpus_size_file):
             corpus_size = self._calc_corpus_size()
-            with open(self._path_to_corpus_size_file, 'w') as f:
+            not_finished_file = f'{self._path_to_corpus_size_file}.part'
+            with open(not_finished_file, 'w') as f:
                 f.write(f'{corpus_size}')
+            os.rename(not_finished_file, self._path_to_corpus_size_file)
         with open(self._path_to_corpus_size_file, 'r') as f:
             return int(f.read())
 
-- 
2.43.0


From a1f9374c63e34bc7270435cf620819c367ee023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 12/26] fix: an interrupted run must not leave an incomplete
 directory with learned bpe codes

---
 codeprep/pipeline/bpelearner.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/codeprep/pipeline/bpelearner.py b/codeprep/pipeline/bpelearner.py
index b819945..67b5b4f 100644
--- a/codeprep/pipeline/bpelearner.py
+++ b/codeprep/pipeline/bpelearner.py
@@ -68,9 +68,11 @@ def get_dir_with_most_merges(dataset_bpe_path, n_merges) -> Optional[str]:
     return dir_with_most_merges
 
 
-def save_results(split_base_vocab, merges, new_bpe_dir):
+def save_results(split_base_vocab, merges, final_bpe_dir):
 
-    os.makedirs(new_bpe_dir)
+    # the directory gets its final name only when all the files are there
+    new_bpe_dir = f'{final_bpe_dir}.part'
+    os.makedirs(new_bpe_dir, exist_ok=True)
 
     resulting_vocab = create_resulting_vocab(split_base_vocab)
     resulting_vocab_sorted = sorted(resulting_vocab.items(), key=lambda x: x[1], reverse=True)
@@ -81,7 +83,8 @@ def save_results(split_base_vocab, merges, new_bpe_dir):
 
     dump_merges(merges, os.path.join(new_bpe_dir, MERGES_FILE_NAME))
     _dump_vocab_dict(split_base_vocab.items(), os.path.join(new_bpe_dir, BPE_REASSEMBLED_VOCAB_FILE_NAME))
-    logger.info(f'Bpe output files are saved into {new_bpe_dir} folder')
+    os.rename(new_bpe_dir, final_bpe_dir)
+    logger.info(f'Bpe output files are saved into {final_bpe_dir} folder')
 
 
 def run(dataset: Dataset, n_merges: int, bpe_config: BpeConfig) -> None:
-- 
2.43.0


From 50dc80c9ebe3d6cced683b1bf5c2275121be11b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 13/26] fix: do not give an id that is already assigned to bpe
 codes which have not been learned yet

---
 codeprep/pipeline/bperegistry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index cd60dac..a7e8f59 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -192,7 +192,8 @@ def load_bpe_merges(merge_list_id: str, n_merges: int) -> MergeList:
 def format_available_merge_list_ids() -> str:
     res = ""
     for k, v in _get_all_custom_bpe_codes_and_max_merges().items():
-        res += f'{k}-[1..{v}]\n'
+        if v:
+            res += f'{k}-[1..{v}]\n'
     return res
 
 
@@ -227,8 +228,8 @@ def _get_all_custom_bpe_codes_and_max_merges() -> Dict[str, int]:
         path = os.path.join(USER_BPE_DIR, bpe_dir)
         code = get_codes_id_by_bpe_path(path)
         max_merges = get_max_merges(path)
-        if code and max_merges:
-            result[code] = max_merges
+        if code:
+            result[code] = max_merges or 0
     return result
 
 
-- 
2.43.0


From fbc4b4537db871a202d74273db781e6c7a2b9698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 14/26] fix: an interrupted run must not leave a partly written
 non-bpe vocabulary or bpe codes id

---
 codeprep/pipeline/bperegistry.py | 4 +++-
 codeprep/pipeline/vocabloader.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index a7e8f59..32931ef 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -121,8 +121,10 @@ def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id
 
 def write_bpe_codes_id(dataset_bpe_dir: str, bpe_codes_id: str) -> None:
     file_with_id = os.path.join(dataset_bpe_dir, BPE_CODES_ID_FILENAME)
-    with open(file_with_id, 'w') as f:
+    not_finished_file = f'{file_with_id}.part'
+    with open(not_finished_file, 'w') as f:
         f.write(bpe_codes_id)
+    os.rename(not_finished_file, file_with_id)
 
 
 def parse_merge_list_id(s: str) -> Tuple[str, int]:
diff --git a/codeprep/pipeline/vocabloader.py b/codeprep/pipeline/vocabloader.py
index ac8306b..e06f828 100644
--- a/codeprep/pipeline/vocabloader.py
+++ b/codeprep/pipeline/vocabloader.py
@@ -49,7 +49,9 @@ def gather_non_bpe_vocab(dataset: Dataset):
         non_bpe_tokens.update(_load_vocab_set(os.path.join(part_nonbpe_vocab_dir, file)))
 
     non_bpe_tokens.update(list(placeholders.values()))
-    with open(dataset.path_to_nonbpe_vocab_file, 'w') as f:
+    not_finished_file = f'{dataset.path_to_nonbpe_vocab_file}.part'
+    with open(not_finished_file, 'w') as f:
         for token in non_bpe_tokens:
             f.write(f'{to_literal_str(token)}\n')
+    os.rename(not_finished_file, dataset.path_to_nonbpe_vocab_file)
     shutil.rmtree(part_nonbpe_vocab_dir)
\ No newline at end of file
-- 
2.43.0


From cd11b8485bee4f3ab393ace28cbae3725fefabec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 15/26] fix: calculation of the vocabulary must not hang when
 processes are forked while the queues are being filled

---
 codeprep/pipeline/vocab.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index c0cd404..e835f14 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -279,12 +279,11 @@ def create_chunk_queue(chunk_sizes: Dict[int, int], num_mergers: int) -> Tuple[Q
     return list_to_queue(chunk_queue_list + [-1 for _ in range(num_mergers)]), len(chunk_queue_list)
 
 
-def mapify_tasks(tasks: List[PartialVocab]) -> Tuple[Dict[int, Queue], Dict[int, int]]:
+def mapify_tasks(tasks: List[PartialVocab]) -> Tuple[Dict[int, List[PartialVocab]], Dict[int, int]]:
     task_lists_in_chunks = defaultdict(list)
     for task in tasks:
         task_lists_in_chunks[task.chunk].append(task)
-    return {chunk: list_to_queue(task_list_in_chunk) for chunk, task_list_in_chunk in
-            task_lists_in_chunks.items()}, {k: len(v) for k, v in task_lists_in_chunks.items()}
+    return task_lists_in_chunks, {k: len(v) for k, v in task_lists_in_chunks.items()}
 
 
 def load_partial_vocabs(path: str) -> List[PartialVocab]:
@@ -377,7 +376,8 @@ def calc_vocab(path: str, file_iterator: Iterator[bytes], output_dir: str):
         task_list = create_partial_vocabs(file_iterator, path_to_dump)
 
     logger.debug(f"Using {n_processes} mergers, number of partial vocabs: {len(task_list)}")
-    tasks_queues, chunk_sizes = mapify_tasks(task_list)
+    task_lists_in_chunks, chunk_sizes = mapify_tasks(task_list)
+    tasks_queues = {chunk: Queue() for chunk in task_lists_in_chunks}
     chunk_queue, merges_to_be_done = create_chunk_queue(chunk_sizes, n_processes)
     logger.debug(f'==================    Starting merging    =================')
     logger.debug(f'Merges need to be done: {merges_to_be_done}')
@@ -391,6 +391,12 @@ def calc_vocab(path: str, file_iterator: Iterator[bytes], output_dir: str):
     for merger in mergers:
         merger.start()
 
+    # Threads that fill the queues import modules when they pickle the vocabs. A process forked at that moment would wait
+    # for the import lock forever. Therefore the queues are filled only when all the processes have been started
+    for chunk, task_list_in_chunk in task_lists_in_chunks.items():
+        for task in task_list_in_chunk:
+            tasks_queues[chunk].put_nowait(task)
+
     for merger in mergers:
         merger.join()
 
-- 
2.43.0


From 1ce810bed6c1c643a6f32a87b25ca9fc0f04fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 16/26] fix: do not fail when the results of a dataset without
 files have to be computed anew

When an outdated (or not properly finished) directory was archived, it was created again only together with the first file
written to it.
---
 codeprep/pipeline/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index 59f8c7e..49d7a03 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -73,6 +73,7 @@ class SubDataset(object):
 
     def archive(self) -> None:
         archive_path(self.path)
+        os.makedirs(self.path)
 
     def __eq__(self, o: object) -> bool:
         if isinstance(o, SubDataset):
-- 
2.43.0


From 83b5682b2e9a30b65c322380a0f3cc90acb2522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 17/26] fix: keep the words whole that are never split in the
 corpus that custom bpe codes were learned from

The words were looked up in their escaped form, but were stored in the cache as they are, so none of them was ever found.
---
 codeprep/pipeline/to_repr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 24de466..21739b0 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -14,7 +14,7 @@ from typing import Optional
 import time
 from tqdm import tqdm
 
-from codeprep.bpepkg.bpe_encode import read_merges, BpeData
+from codeprep.bpepkg.bpe_encode import read_merges, escape, BpeData
 from codeprep.bpepkg.cache import read_bpe_cache
 from codeprep.config import DEFAULT_BPE_DIR, NO_CASE_DIR, CASE_DIR, DEFAULT_BPE_CACHE_DIR, REWRITE_PREPROCESSED_FILE, \
     CHUNKSIZE, LIMIT_FILES_SCANNING
@@ -97,7 +97,7 @@ def init_bpe_data(prep_config: PrepConfig, custom_bpe_config: Optional[CustomBpe
         if custom_bpe_config.n_merges:
             logger.info(f'Using first {custom_bpe_config.n_merges} merges.')
         nonbpe_vocab = vocabloader.nonbpe(custom_bpe_config.merge_list_id)
-        global_bpe_data.merges_cache.update({s: [s] for s in nonbpe_vocab})
+        global_bpe_data.merges_cache.update({escape(s, merged=True): [escape(s, merged=True)] for s in nonbpe_vocab})
     else:
         bpe_n_merges_dict = {'4': '5k', '5': '1k', '6': '10k', '7': '20k', '8': '0'}
         bpe_n_merges = bpe_n_merges_dict[prep_config.get_param_value(PrepParam.SPLIT)]
-- 
2.43.0


From 2a91611c43a57d99c1c62077f345466f5f6c706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 18/26] fix: an interrupted run must not leave a partly written
 list of never-split words

---
 codeprep/pipeline/to_repr.py     | 5 ++++-
 codeprep/pipeline/vocabloader.py | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 21739b0..d618471 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -76,7 +76,10 @@ def preprocess_and_write(params: Tuple[bytes, bytes, PrepConfig, str], bpe_data:
         o.write(to_literal_str(to_token_str(repr)) + '\n')
 
     if part_nonbpe_vocab_folder:
-        save_metadata(metadata, os.path.join(part_nonbpe_vocab_folder, f'{os.path.basename(dest_file_path)}_-_{time.time()}'))
+        not_finished_nonbpe_vocab = os.path.join(part_nonbpe_vocab_folder, f'{os.getpid()}{NOT_FINISHED_EXTENSION}')
+        save_metadata(metadata, not_finished_nonbpe_vocab)
+        os.rename(not_finished_nonbpe_vocab,
+                  os.path.join(part_nonbpe_vocab_folder, f'{os.path.basename(dest_file_path)}_-_{time.time()}'))
 
     os.rename(not_finished_dest_file_path, dest_file_path)
 
diff --git a/codeprep/pipeline/vocabloader.py b/codeprep/pipeline/vocabloader.py
index e06f828..fb3d271 100644
--- a/codeprep/pipeline/vocabloader.py
+++ b/codeprep/pipeline/vocabloader.py
@@ -8,7 +8,7 @@ import shutil
 from typing import Set, Dict
 
 from codeprep.pipeline.bperegistry import get_bpe_dir, get_base_vocab_dir, RESULTING_VOCAB_FILE_NAME
-from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME
+from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME, NOT_FINISHED_EXTENSION
 from codeprep.preprocess.placeholders import placeholders
 from codeprep.util import to_literal_str
 from codeprep.pipeline.vocab import _load_vocab_dict, _load_vocab_set, VOCAB_FILENAME
@@ -46,6 +46,8 @@ def gather_non_bpe_vocab(dataset: Dataset):
     for idx, file in enumerate(os.listdir(part_nonbpe_vocab_dir)):
         if idx % 569 == 0:
             print(f'Files processed: {idx}', end='\r')
+        if file.endswith(NOT_FINISHED_EXTENSION): # writing was interrupted
+            continue
         non_bpe_tokens.update(_load_vocab_set(os.path.join(part_nonbpe_vocab_dir, file)))
 
     non_bpe_tokens.update(list(placeholders.values()))
-- 
2.43.0


From f7bf9186966229177494aa11619af441876c7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:14 +0000
Subject: [PATCH 19/26] fix: do not fail when results are archived a second
 time within the same second

---
 codeprep/pipeline/dataset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index 49d7a03..500a42a 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -321,7 +321,12 @@ def archive_path(path: str) -> None:
     timestamp = get_timestamp(path)
     if not os.path.exists(DEFAULT_PREP_DATASETS_DIR):
         os.makedirs(DEFAULT_PREP_DATASETS_DIR)
-    os.rename(path, os.path.join(DEFAULT_PREP_DATASETS_DIR, f'{os.path.basename(path)}.{ARCHIVED_EXT}.{timestamp}'))
+    archived_path = os.path.join(DEFAULT_PREP_DATASETS_DIR, f'{os.path.basename(path)}.{ARCHIVED_EXT}.{timestamp}')
+    n = 1
+    while os.path.exists(archived_path): # archived within the same second
+        n += 1
+        archived_path = os.path.join(DEFAULT_PREP_DATASETS_DIR, f'{os.path.basename(path)}.{ARCHIVED_EXT}.{timestamp}.{n}')
+    os.rename(path, archived_path)
     os.rename(modif_file, os.path.join(DEFAULT_PREP_DATASETS_DIR, f'{os.path.basename(modif_file)}.{ARCHIVED_EXT}.{timestamp}'))
 
 
-- 
2.43.0


From 9dfbe81610f7f00c7f60dfb0f774ba5a3938cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 20/26] fix: accept an empty text on the command line

---
 codeprep/cli/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/cli/impl.py b/codeprep/cli/impl.py
index 93b922d..5031c47 100644
--- a/codeprep/cli/impl.py
+++ b/codeprep/cli/impl.py
@@ -67,7 +67,7 @@ def handle_splitting(args: Dict) -> None:
     try:
         prep_config = create_prep_config_from_args(args)
         bpe_codes_id = get_option(args, '<bpe-codes-id>') or get_predefined_bpe_codes_id(args)
-        if args['<text>']:
+        if args['<text>'] is not None:
             prep_text = codeprep.api.text.preprocess(args['<text>'], prep_config, bpe_codes_id,
                                                      extension=args['--ext'])
             print(prep_text)
-- 
2.43.0


From 3cc50045305d3f5cc28dc50cc452a8f08fa2d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 21/26] fix: end without merges when learning BPE over an empty
 text

---
 codeprep/bpepkg/wild_bpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/wild_bpe.py b/codeprep/bpepkg/wild_bpe.py
index 96489e5..1514af6 100644
--- a/codeprep/bpepkg/wild_bpe.py
+++ b/codeprep/bpepkg/wild_bpe.py
@@ -109,7 +109,7 @@ def are_symmetric(pair1: str, pair2: str):
 def build_indices(it: Generator[str, None, None]) -> Tuple[Dict[str, List[int]], Dict[str, Dict[Side, Set[str]]]]:
     index = defaultdict(list)
     index_index = defaultdict(lambda: {Side.LEFT: set(), Side.RIGHT: set()})
-    first_char = next(it)
+    first_char = next(it, None)
     last_key = None
     for i, second_char in enumerate(it):
         key = ' '.join([first_char, second_char])
-- 
2.43.0


From afeda4e1858105054c0f3ec4f5ba20aaec4a43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 22/26] fix: escape spaces when learning BPE over a text, as it
 is done for files

---
 codeprep/bpepkg/wild_bpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/wild_bpe.py b/codeprep/bpepkg/wild_bpe.py
index 1514af6..d5870a5 100644
--- a/codeprep/bpepkg/wild_bpe.py
+++ b/codeprep/bpepkg/wild_bpe.py
@@ -501,7 +501,7 @@ def run_from_text(text: str, n_merges: int=sys.maxsize) -> Tuple[str, int, Optio
 ('there|is|a|thin|tooth|in| the', 1), ('there|is|a|thin|tooth|in|the |', 1), \
 ('there|is|a|thin|tooth|in|the| tooth', 1)]
     """
-    return run(iter(text), n_merges)
+    return run(map(escape_char, text), n_merges)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 25f70f0e316b2ceed925f244493f3d552bf58780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 23/26] fix: do not read the beginning of a file twice when it
 is not in UTF-8

---
 codeprep/bpepkg/wild_bpe.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/codeprep/bpepkg/wild_bpe.py b/codeprep/bpepkg/wild_bpe.py
index d5870a5..e67916c 100644
--- a/codeprep/bpepkg/wild_bpe.py
+++ b/codeprep/bpepkg/wild_bpe.py
@@ -51,10 +51,15 @@ class Side(Enum):
 
 
 def get_char_iterator_for_file(path_to_file: str):
+    encoding = 'utf-8'
     try:
-        yield from get_char_iterator_for_file_with_encoding(path_to_file, 'utf-8')
+        # the whole file is checked first, so that nothing is yielded twice if the encoding turns out to be wrong in the middle
+        with open(path_to_file, encoding=encoding) as f:
+            for _ in f:
+                pass
     except UnicodeDecodeError:
-        yield from get_char_iterator_for_file_with_encoding(path_to_file, 'ISO-8859-1')
+        encoding = 'ISO-8859-1'
+    yield from get_char_iterator_for_file_with_encoding(path_to_file, encoding)
 
 
 def escape_char(char: str):
-- 
2.43.0


From a55a7d605f475097dc01b14225affa28b22f935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 24/26] fix: do not fail when the vocabulary is limited to
 exactly its size

---
 codeprep/pipeline/vocab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index e835f14..c2ca30f 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -86,7 +86,7 @@ class PartialVocab(object):
 
     def limit_max_vocab(self, vocab_size_threshold: int) -> None:
         sorted_vocab = sorted(self.merged_word_counts.items(), key=lambda x: x[1], reverse=True)
-        if vocab_size_threshold > len(sorted_vocab):
+        if vocab_size_threshold >= len(sorted_vocab):
             return
         min_freq_excluded = sorted_vocab[vocab_size_threshold][1]
         adjusted_threshold = vocab_size_threshold - 1
-- 
2.43.0


From 90e48dd273f5db83c84f66c4829686bfe9d34118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 25/26] fix: write merges without a frequency so that they can
 be read back

---
 codeprep/bpepkg/merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/merge.py b/codeprep/bpepkg/merge.py
index 3a21c74..874d96d 100644
--- a/codeprep/bpepkg/merge.py
+++ b/codeprep/bpepkg/merge.py
@@ -170,4 +170,5 @@ def read_merges(file: str, n_merges: Optional[int] = None) -> MergeList:
 def dump_merges(merges: MergeList, file: str):
     with open(file, 'w') as f:
         for merge in merges:
-            f.write(f"{to_literal_str(' '.join(merge.pair))} {merge.freq}\n")
\ No newline at end of file
+            freq = f" {merge.freq}" if merge.freq is not None else ""
+            f.write(f"{to_literal_str(' '.join(merge.pair))}{freq}\n")
\ No newline at end of file
-- 
2.43.0


From 559dd0e21d9ae2bacd8deddd526fef25730330e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 26/26] fix: keep the white space at the ends of bpe codes ids,
 so that ids that differ in it are not mixed up

---
 codeprep/pipeline/bperegistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index 32931ef..6b03175 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -94,7 +94,7 @@ def get_codes_id_by_bpe_path(dataset_bpe_dir: str) -> Optional[str]:
         return None
     else:
         with open(file_with_id, 'r') as f:
-            return f.read().strip()
+            return f.read()
 
 
 def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id: Optional[str] = None) -> str:
-- 
2.43.0

