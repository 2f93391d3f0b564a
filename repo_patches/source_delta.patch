From e24cfd24bbaf0641b2ff9fd13617e7f7a0866f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 01/36] fix: byte scheme decodes bytes below 0x10 (tab,
 newline, ...)

Pieces of these bytes have one hex digit, so the concatenation was misread.
---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index b118a4a..1b2fbdd 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -583,7 +583,7 @@ class ByteScheme(EncoderScheme):
         return f'{code:x}'
 
     def compose_str(self, pieces: List[str]):
-        byte_arr = bytes.fromhex(''.join(pieces))
+        byte_arr = bytes.fromhex(''.join(piece.zfill(2) for piece in pieces))
         return str(byte_arr, encoding=self.encoding, errors=self.errors)
 
     def encode_str(self, line: str) -> List[str]:
-- 
2.43.0


From cce57af4d6c79e4ce0ed64e0be70a2e760366b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 02/36] fix: nlcodec encode (CLI) does not treat the line
 terminator as a part of the line

The byte scheme encoded it, so decode could not undo encode.
---
 nlcodec/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/__main__.py b/nlcodec/__main__.py
index 1db932b..92a989e 100644
--- a/nlcodec/__main__.py
+++ b/nlcodec/__main__.py
@@ -97,7 +97,7 @@ def main():
         scheme = load_scheme(args.pop('model'))
         inp, out, indices = args['inp'], args['out'], args.get('indices', False)
         if task == 'encode':
-            recs = encode(inp, scheme, indices=indices)
+            recs = encode((line.rstrip('\n') for line in inp), scheme, indices=indices)
             if indices:
                 recs = ([str(idx) for idx in seq] for seq in recs)
             recs = (' '.join(seq) for seq in recs)
-- 
2.43.0


From 47ab18221ae3daf2a35346abff66b93c227ab23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 03/36] fix: shrink_vocab saves the name of the scheme

class and byte models could not be loaded back, and a bpe model without merges
was loaded as char.
---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 1b2fbdd..7a66fa2 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -342,7 +342,7 @@ class EncoderScheme(abc.ABC):
             new_t = old_t.copy(idx=new_idx, kids=new_kids)
             new_table.append(new_t)
         if save_at:
-            Type.write_out(new_table, out=save_at)
+            Type.write_out(new_table, out=save_at, scheme=self.name)
         return mapping
 
     def save(self, out):
-- 
2.43.0


From 4be7f3195b23557a869dd4a489396e9ce9513ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 04/36] fix: shrink_vocab works on data without any tokens

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 7a66fa2..66f3786 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -308,7 +308,7 @@ class EncoderScheme(abc.ABC):
             with IO.reader(file) as lines:
                 for line in tqdm(lines):
                     freqs.update(self.encode(line))
-        assert len(self.table) > max(freqs.keys())
+        assert len(self.table) > max(freqs.keys(), default=-1)
         removals = [False] * len(self.table)
         for idx, typ in enumerate(self.table):
             if typ.level == Level.reserved:
-- 
2.43.0


From 70e9da730c85196d460f47de5515d0823e086e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 05/36] fix: vocabulary does not exceed vocab_size when it is
 smaller than the reserved types

The slice end was negative, so only a few of the types were cut.
---
 nlcodec/codec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 66f3786..beeb053 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -266,8 +266,9 @@ class EncoderScheme(abc.ABC):
 
         if vocab_size > 0 and len(vocab) + len(term_freqs) > vocab_size:
             log.info(f"Truncating vocab at size={vocab_size}")
-            unk_count += sum(f for t, f in term_freqs[vocab_size - len(vocab):])
-            term_freqs = term_freqs[:vocab_size - len(vocab)]
+            n_keep = max(0, vocab_size - len(vocab))
+            unk_count += sum(f for t, f in term_freqs[n_keep:])
+            term_freqs = term_freqs[:n_keep]
 
         # update reserved types with corpus freqs
         for idx, t in enumerate(vocab):
-- 
2.43.0


From cc7fec12a4efd06675ae4fe447b249395bced9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 06/36] fix: unknown line count (-1) is not added to the
 frequencies of reserved types

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index beeb053..d671be4 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -277,7 +277,7 @@ class EncoderScheme(abc.ABC):
                 freq = res_stats.pop(t.name)
             if idx == Reseved.UNK_IDX:
                 freq += unk_count
-            if idx in {Reseved.BOS_IDX, Reseved.EOS_IDX, Reseved.CLS_IDX} and line_count:
+            if idx in {Reseved.BOS_IDX, Reseved.EOS_IDX, Reseved.CLS_IDX} and line_count and line_count > 0:
                 freq += line_count
             if freq:
                 log.warning(f"Update frequency for reserved type {t} with {freq}")
-- 
2.43.0


From 1e1cad6d3e8e423ae2c59b6887b1b4e220539b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 07/36] fix: read and write vocabulary from streams that have
 no name, e.g. StringIO

---
 nlcodec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index d671be4..454fdd6 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -126,7 +126,7 @@ class Type:  # Type as in word type vs token
             wrtr.write(item.format() + '\n')
         if wrtr is not out:
             wrtr.close()
-        log.info(f"Wrote {len(table)} to {wrtr.name}")
+        log.info(f"Wrote {len(table)} to {getattr(wrtr, 'name', wrtr)}")
 
     @classmethod
     def read_vocab(cls, inp: Union[Path, str, TextIO]) -> Tuple[List['Type'], Optional[Dict]]:
@@ -150,7 +150,7 @@ class Type:  # Type as in word type vs token
             vocab[i] = v
         if rdr is not inp:
             rdr.close()
-        log.info(f"read {len(vocab)} types from {rdr.name}")
+        log.info(f"read {len(vocab)} types from {getattr(rdr, 'name', rdr)}")
         return vocab, meta
 
     def get_permutations(self, name=False) -> List[List[int]]:
-- 
2.43.0


From 04c29cd2faaf984c2a5e464786d40a7a367ae3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 08/36] fix: BPE learning stops when there are no more pairs to
 merge

It crashed with IndexError when all the words were merged before vocab_size was
reached.
---
 nlcodec/bpe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index cfb71ba..c28cc25 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -131,7 +131,7 @@ class BPELearn:
         log.info(f"logs every {log_every} seconds")
         for i in range(n_merges):
             # Using MaxHeap for faster lookup of max. But heap gets a bit dirty, so a bit of cleanup
-            max_pair, pair_freq = heap.pop()
+            max_pair, pair_freq = heap.pop() if len(heap) else (None, 0)
             while max_pair in heap_dirty:  # clean all max [airs until a clean value
                 freq_update = heap_dirty.pop(max_pair)
                 assert freq_update < 0  # only decrements are valid. increments make this wrong
@@ -139,9 +139,12 @@ class BPELearn:
                 assert corr_freq >= 0, f'{max_pair}:{pair_freq}, Δ={freq_update} = {corr_freq}'
                 if corr_freq > 0:  # exclude zero count
                     heap.push(max_pair, corr_freq)
-                max_pair, pair_freq = heap.pop()
+                max_pair, pair_freq = heap.pop() if len(heap) else (None, 0)
 
             # here the  actual loop begins
+            if max_pair is None:
+                log.warning(f"Early stop; no more pairs to merge")
+                break
             if pair_freq < min_co_evidence:
                 log.warning(f"Early stop; max evidence found is {pair_freq} "
                             f"but min required is {min_co_evidence}")
-- 
2.43.0


From 31708149a27db1f7b2ec7e1d248cd33ceaf6ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 09/36] fix: BPE learning is deterministic on repeats such as
 "a a a"

The pairs were merged in the order of a set of objects, i.e. by memory address.
---
 nlcodec/bpe.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index c28cc25..c4242ae 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -169,6 +169,8 @@ class BPELearn:
             uni[b] -= pair_freq
             heap_deltas = coll.defaultdict(int)
             update_nodes = bi_ixs.pop(max_pair)  # also removed from bi_ixs
+            if a == b:  # overlapping repeats like "x a a a y": the order of merges matters
+                update_nodes = self.left_to_right(update_nodes)
             for node in update_nodes:
                 # -- x a b y --
                 x_node, b_node = node.left, node.right
@@ -233,6 +235,18 @@ class BPELearn:
 
         return vocab
 
+    @staticmethod
+    def left_to_right(nodes: Set[LnNode]) -> List[LnNode]:
+        """Orders nodes such that each run of adjacent nodes goes from left to right"""
+        ordered = []
+        for node in nodes:
+            if node.left is not None and node.left in nodes:
+                continue  # not at the start of run
+            while node is not None and node in nodes:
+                ordered.append(node)
+                node = node.right
+        return ordered
+
     @classmethod
     def prepare_word(cls, word):
         # mark ending of sequences
-- 
2.43.0


From d59ee6899f5f6e778b6d74a919201fbb7dffb1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 10/36] fix: long types do not exceed the recursion limit

A vocabulary with a type of ~1000 characters (such as a rule "=====") could not
be used by BPE scheme.
---
 nlcodec/dstruct.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/nlcodec/dstruct.py b/nlcodec/dstruct.py
index 459cab4..8fdacd3 100644
--- a/nlcodec/dstruct.py
+++ b/nlcodec/dstruct.py
@@ -90,11 +90,20 @@ class TrNode(Generic[T, D]):  # Trie Node or Tree Node
         self.kids = dict() if kids is None else kids
 
     def get_node(self, idxs, create_missing: bool = True) -> 'TrNode[T, D]':
-        if not idxs:
-            return self
-        if create_missing and idxs[0] not in self.kids:  # make one
-            self.kids[idxs[0]] = TrNode(idx=idxs[0], parent=self)
-        return self.kids[idxs[0]].get_node(idxs=idxs[1:], create_missing=create_missing)
+        node = self
+        for idx in idxs:
+            if create_missing and idx not in node.kids:  # make one
+                node.kids[idx] = TrNode(idx=idx, parent=node)
+            node = node.kids[idx]
+        return node
+
+    def _nodes(self):
+        """self and all the nodes below it"""
+        stack = [self]
+        while stack:
+            node = stack.pop()
+            yield node
+            stack.extend(node.kids.values())
 
     @property
     def n_kids(self):
@@ -108,11 +117,11 @@ class TrNode(Generic[T, D]):  # Trie Node or Tree Node
     @property
     def size(self):
         """Number of nodes in the tree at this node. Counts self and all the kids"""
-        return 1 + sum(k.size for k in self.kids.values())
+        return sum(1 for _ in self._nodes())
 
     @property
     def data_node_count(self):
-        return (1 if self.has_data else 0) + sum(k.data_node_count for k in self.kids.values())
+        return sum(1 for node in self._nodes() if node.has_data)
 
 
 class MaxHeap:
-- 
2.43.0


From 7d83333e341bd0153977753b63fd5baa313c81d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 11/36] fix: SeqField uses an integer type that holds all of
 its values

The empty int8 array at the start (and int8 chunks) were promoted along with
uint64 to float64, which corrupted large integers.
---
 nlcodec/db/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index de71a5d..873dbcb 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -88,9 +88,12 @@ class SeqField:
 
         def shrink(self):
             if self.buffer:
-                dtype = best_dtype(mn=min(self.buffer), mx=max(self.buffer))
+                mn, mx = min(self.buffer), max(self.buffer)
+                if len(self.frozen):
+                    mn, mx = min(mn, int(self.frozen.min())), max(mx, int(self.frozen.max()))
+                dtype = best_dtype(mn=mn, mx=mx)
                 data = np.array(self.buffer, dtype=dtype)
-                self.frozen = np.concatenate((self.frozen, data))
+                self.frozen = np.concatenate((self.frozen.astype(dtype), data))
                 self.buffer = []
 
         def build(self):
-- 
2.43.0


From d1c02fa24fcefd89b896c25d8d7c22726d78ce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 12/36] fix: SeqField.items() yields (id, sequence) pairs

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 873dbcb..2b959a2 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -132,7 +132,7 @@ class SeqField:
     def items(self):
         for id, idx in self.ids.items():
             start, _len = self.refs[idx]
-            yield self.data[start: start + _len]
+            yield id, self.data[start: start + _len]
 
     def lengths(self):
         return ((id, self.refs[idx, 1]) for id, idx in self.ids.items())
-- 
2.43.0


From 60ac4b73ad3b9bfd4960a8e5044572c21e8d460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 13/36] fix: Db with shuffle=True can be iterated

random.shuffle() does not work on a set.
---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 2b959a2..414dce2 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -223,7 +223,7 @@ class Db:
     def __iter__(self):
         ids = self.ids
         if self.shuffle:
-            ids = copy.copy(ids)
+            ids = list(ids)
             random.shuffle(ids)
         for _id in ids:
             yield self[_id]
-- 
2.43.0


From d02676592ba96781ff57058394b897df40a1ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 14/36] fix: batches do not exceed max_sents

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 414dce2..c960a6f 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -251,7 +251,7 @@ class Db:
                 log.warning(f"Skipping record {_id}, either source or target is empty")
                 continue
 
-            if (len(batch) + 1) * max(max_len, _len) > max_toks or len(batch) > max_sents:
+            if (len(batch) + 1) * max(max_len, _len) > max_toks or len(batch) >= max_sents:
                 if _len > max_toks:
                     raise Exception(f'Unable to make a batch of {max_toks} toks'
                                     f' with a seq of len:{_len}')
-- 
2.43.0


From 123e1a1cd841b7110159b7e56be535e5ff99fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 15/36] fix: MultipartDb.Writer accepts empty partitions

spark jobs failed when some of the partitions had no records.
---
 nlcodec/db/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index c960a6f..075526e 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -381,8 +381,14 @@ class MultipartDb:
 
         def __call__(self, part_num: int, recs):
             # assume recs have ids created externally
-            part = Db.create(recs, field_names=self.field_names, has_id=True)
             part_path = self.path / f'part-{part_num:0{self.part_path_pad}d}'
+            recs = iter(recs)
+            first = list(itertools.islice(recs, 1))
+            if not first:
+                log.warning(f"Skipping {part_path}; it has no records")
+                return part_path, 0
+            recs = itertools.chain(first, recs)
+            part = Db.create(recs, field_names=self.field_names, has_id=True)
             part.save(part_path)
             meta_path = part_path.with_suffix('.meta')
             meta = dict(count=len(part), size=part_path.stat().st_size)
-- 
2.43.0


From 6a0e9c00bf71da9ca00b7177fb35ed2e239f8f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 16/36] fix: MultipartDb.load fails when some of the parts are
 missing

The result of exists() was not checked.
---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 075526e..8c8ea64 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -318,7 +318,7 @@ class MultipartDb:
         rec_counts = []
         for part_name, stats in meta['parts'].items():
             part_file = path / part_name
-            part_file.exists()
+            assert part_file.exists(), f'{part_file} is missing; looks like the db is corrupted'
             part_files.append(part_file)
             rec_counts.append(stats['count'])
         field_names = meta['field_names']
-- 
2.43.0


From e6ec59327c9c68ada3348464c8ee4e83d38abab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 17/36] fix: batching skips over a part in which all the
 records are empty

---
 nlcodec/db/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 8c8ea64..ffb2ee4 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -240,6 +240,8 @@ class Db:
                 rows.append((_id, max(lens)))
         if len(skip_counter) > 0:
             log.warning(f"Skipped :: {skip_counter}")
+        if not rows:
+            return []
         rows = np.array(rows)  # id, len
         np.random.shuffle(rows)  # in-place, along the first axis; for extra rand within len group
         rows = rows[rows[:, 1].argsort()]  # sort by second col wiz len
@@ -265,10 +267,10 @@ class Db:
             batches.append(np.array(batch))
         return batches
 
-    def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf')):
+    def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf'), allow_empty=False):
 
         batches = self._make_eq_len_batch_ids(max_toks=max_toks, max_sents=max_sents)
-        if not batches:
+        if not batches and not allow_empty:
             raise Exception(f'Found no data. Please check config data paths')
         log.info(f"length sorted random batches = {len(batches)}. Shuffling🔀...")
         # every pass introduce some randomness
@@ -358,10 +360,16 @@ class MultipartDb:
         buff = list(zip(self.part_paths, self.mem))
         random.shuffle(buff)
 
+        n_batches = 0
         for path, part in buff:
             if part is None:
                 part = Db.load(path, rec_type=self.rec_type)
-            yield from part.make_eq_len_ran_batches(max_toks=max_toks, max_sents=max_sents)
+            for batch in part.make_eq_len_ran_batches(max_toks=max_toks, max_sents=max_sents,
+                                                      allow_empty=True):
+                n_batches += 1
+                yield batch
+        if not n_batches:
+            raise Exception(f'Found no data. Please check config data paths')
 
     class Writer:
 
-- 
2.43.0


From 22094954343658ccb9ce8ceb19ab1191d06b014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 18/36] fix: BatchIterable accepts str as path of MultipartDb

---
 nlcodec/db/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index 1c9c092..db1b384 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -219,7 +219,7 @@ class BatchIterable(Iterable[Batch]):
         assert data_path.exists(), f'Invalid State: {data_path} is NOT found.'
         if data_path.is_file():
             self.data = Db.load(data_path, rec_type=IdExample)
-        elif self.data_path.is_dir():
+        elif data_path.is_dir():
             self.data = MultipartDb.load(data_path, rec_type=IdExample, keep_in_mem=keep_in_mem)
         else:
             raise Exception(f'Invalid State: {data_path} is should be a file or dir.')
-- 
2.43.0


From 7133774c838313fbfe54024b600e77ff3d4b96a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 19/36] fix: nlcodec-learn reuses the existing stats file

It failed with: learn_vocab() got multiple values for keyword argument inp
---
 nlcodec/learn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/learn.py b/nlcodec/learn.py
index ccf4457..9907896 100644
--- a/nlcodec/learn.py
+++ b/nlcodec/learn.py
@@ -72,10 +72,10 @@ def main():
         master = args.pop('spark_master')
         driver_mem = args.pop('driver_mem')
         dedup = args.pop('dedup')
+        inp = args.pop('inp')
         if stats_file.exists():
             log.warning(f"{stats_file} exists, reusing it. please delete it if this is wrong.")
         else:
-            inp = args.pop('inp')
             with spark.session(master=master, driver_mem=driver_mem) as session:
                 words, chars, line_count = word_counts(paths=inp, dedup=dedup, spark=session)
             with utils.IO.writer(words_file) as out:
-- 
2.43.0


From 69729e4e25bc0195681b29447ffe6e6972c15bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 20/36] fix: a word in corpus is not mistaken for the line
 counter of word_counts

---
 nlcodec/term_freq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/term_freq.py b/nlcodec/term_freq.py
index b51b6fe..d77898d 100644
--- a/nlcodec/term_freq.py
+++ b/nlcodec/term_freq.py
@@ -39,7 +39,7 @@ def word_counts(paths: List[Path], dedup=True, spark=None) \
         if dedup:
             log.info("Dropping duplicates")
             df = df.drop_duplicates()
-        SENT_TAG = '<!S!>'
+        SENT_TAG = '<! S !>'  # words do not have spaces, so this is not one of them
         # Tokenize
         # also include a special token, one per line to count lines
         # expand words as sep records
-- 
2.43.0


From 75fff950357f8c243a4bbc5ed329744756b041e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 21/36] fix: bitext: sequences of exactly the maximum length
 are not longer than the maximum

---
 nlcodec/spark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/spark.py b/nlcodec/spark.py
index 1f7cb03..6834ac4 100644
--- a/nlcodec/spark.py
+++ b/nlcodec/spark.py
@@ -107,7 +107,7 @@ def read_raw_bitext_tok(spark, src_path: Union[str, Path], tgt_path: Union[str,
     if truncate:
         tok_rdd = tok_rdd.map(lambda r: (r[0], r[1][:src_len], r[2][:tgt_len]))
     else:
-        tok_rdd = tok_rdd.filter(lambda r: len(r[1]) < src_len and len(r[2]) < tgt_len)
+        tok_rdd = tok_rdd.filter(lambda r: len(r[1]) <= src_len and len(r[2]) <= tgt_len)
 
     # dataframes doesnt support numpy arrays, so we cast them to python list
     a_row = tok_rdd.take(1)[0]
-- 
2.43.0


From db14cf9774303631c04fbaabfd68d404ae2e7398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 22/36] fix: quality estimation works with recent versions of
 numpy: np.float was removed

---
 nlcodec/qestim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index b01a057..171fc92 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -38,7 +38,7 @@ class QualityEstimator:
 
     @staticmethod
     def validate_distribution(distr):
-        assert distr.dtype == np.float
+        assert distr.dtype == float
         assert abs(np.sum(distr) - 1.0) < 1e-4  # sum to 1
         assert np.sum(distr < 0) == 0  # no negatives
 
-- 
2.43.0


From c8a0a018f129e07907af2f52c60f86440a8f98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 23/36] fix: quality estimation works with schemes that have no
 <unk> in their table

estimate crashed on byte scheme, and unknown labels were counted as the last
label of class scheme.
---
 nlcodec/qestim.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index 171fc92..5023831 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -89,17 +89,21 @@ class QualityEstimator:
     def _estimate(self, seqs: Iterator[List[int]]) -> CodecQuality:
         stats = [0] * self.codec.vocab_size
         # lengths = coll.defaultdict(int)
-        n_seqs = 0
+        n_seqs, n_oov = 0, 0
         for seq in tqdm(seqs):
             n_seqs += 1
             for tok in seq:
-                stats[tok] += 1
+                if tok >= 0:
+                    stats[tok] += 1
+                else:  # unknown, when there is no unk type
+                    n_oov += 1
 
-        n_toks = sum(stats)
+        n_toks = sum(stats) + n_oov
         mean_len = n_toks / n_seqs
         n_types = self.codec.vocab_size
 
-        unk_count = stats[self.codec.unk_idx]
+        unk_idx = getattr(self.codec, 'unk_idx', -1)
+        unk_count = stats[unk_idx] if unk_idx >= 0 else n_oov
 
         # exclude the reserved types which dont surface in prediction
         #excludes = [typ for typ in self.codec.table if typ.is_reserved and stats[typ.idx] == 0]
@@ -107,7 +111,6 @@ class QualityEstimator:
         #for typ in reversed(excludes):  # delete from right
         #    log.info(f'Remove type from balance check: {typ}')
         #    del stats[typ.idx]
-        n_toks = sum(stats)
         imb_measure = self.EMD_simple(stats=stats)
         return CodecQuality(n_types=n_types, imbalance=imb_measure, n_tokens=n_toks,
                             mean_seq_len=mean_len, unk_count=unk_count)
-- 
2.43.0


From 2a7b9c2d1685eccaad770e080edea3537f5cfd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 24/36] fix: bpe_len: right unigram counts on repeats such as
 "a a a"

The count was subtracted twice instead of being restored, and it depended on the
order of a set of objects.
---
 nlcodec/eval/bpe_len.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index 89dca0d..7861b39 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -13,7 +13,7 @@ import numpy as np
 from tqdm import tqdm
 
 from nlcodec import log, BPEScheme, Type, Level
-from nlcodec.bpe import Bigram, LnNode
+from nlcodec.bpe import Bigram, BPELearn, LnNode
 from nlcodec.utils import max_RSS
 
 NDArray = np.ndarray
@@ -162,13 +162,15 @@ class BpeTracker:
                 uni[new_type.idx] = freq
                 uni[a] -= freq
                 uni[b] -= freq
+                if a == b:
+                    update_nodes = BPELearn.left_to_right(update_nodes)
                 for u in update_nodes:
                     b_node = u.right
                     if u.is_unlinked or (a == b and new_type.idx in (u.val, b_node.val)):
                         # happens due to repeats like X A A A A Y
                         uni[new_type.idx] -= u.freq
                         uni[a] += u.freq
-                        uni[b] -= u.freq
+                        uni[b] += u.freq
                         continue
                     assert u.val == a
                     assert b_node.val == b, f'expected {a, b} found {u.val, b_node.val} at {b_node}'
-- 
2.43.0


From 1522f775d2c5dab055644c7372ff54bfdc5fa6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 25/36] fix: pr_measure: -n option is not ignored

---
 nlcodec/eval/pr_measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/eval/pr_measure.py b/nlcodec/eval/pr_measure.py
index 232a3d2..a1377ac 100644
--- a/nlcodec/eval/pr_measure.py
+++ b/nlcodec/eval/pr_measure.py
@@ -58,7 +58,7 @@ def main(model_path, cands, refs, n, out, freqs=None):
 
     cands = list(codec.encode_parallel(cands))
     refs = list(codec.encode_parallel(refs))
-    gram_recalls, ref_gram_freqs, gram_precisions, cand_gram_freqs = count_gram_recall(cands, refs)
+    gram_recalls, ref_gram_freqs, gram_precisions, cand_gram_freqs = count_gram_recall(cands, refs, n=n)
     if freqs:
         log.info(f"Loading precomputed gram freqs from {freqs}")
         freqs = [json.loads(l.strip()) for l in freqs]
-- 
2.43.0


From 8b7349262efe192b10ba0f36ebd181b2a48de203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 26/36] fix: adding BOS/EOS to a uint64 sequence does not turn
 it to floats

---
 nlcodec/db/batch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index db1b384..71e30a9 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -35,9 +35,9 @@ class IdExample:
         if exist:
             if seq[pos] != val:
                 if pos == 0:
-                    seq = np.append(np.int32(val), seq)
+                    seq = np.append(val, np.asarray(seq, dtype=int))
                 else:  # pos = -1
-                    seq = np.append(seq, np.int32(val))
+                    seq = np.append(np.asarray(seq, dtype=int), val)
                 # update
                 if side == 'x':
                     self.x = seq
@@ -131,9 +131,9 @@ class Batch:
         if exist:
             if seq[pos] != val:
                 if pos == 0:
-                    seq = np.append(np.int32(val), seq)
+                    seq = np.append(val, np.asarray(seq, dtype=int))
                 else:  # pos = -1
-                    seq = np.append(seq, np.int32(val))
+                    seq = np.append(np.asarray(seq, dtype=int), val)
                 # update
                 setattr(obj, field_name, seq)
         else:  # should not have val at pos
-- 
2.43.0


From 27199203fd3bf9c874647f2426602d197faf76fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 27/36] fix: gzip files: binary mode works, and carriage
 returns in text are not taken for line breaks

---
 nlcodec/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index b85072a..7ef82a1 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -90,7 +90,11 @@ class IO:
     def __enter__(self):
 
         if self.path.name.endswith(".gz"):  # gzip mode
-            self.fd = gzip.open(self.path, self.mode, encoding=self.encoding, errors=self.errors)
+            if 't' in self.mode:
+                self.fd = gzip.open(self.path, self.mode, encoding=self.encoding,
+                                    errors=self.errors, newline='\n')
+            else:  # binary mode doesnt take encoding or errors
+                self.fd = gzip.open(self.path, self.mode)
         else:
             if 'b' in self.mode:  # binary mode doesnt take encoding or errors
                 self.fd = self.path.open(self.mode)
-- 
2.43.0


From 1a827c6161b90e2cff93af4aea44d0ef45915993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:49 +0000
Subject: [PATCH 28/36] fix: a tab inside a class label does not break the
 saved vocabulary

---
 nlcodec/codec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 454fdd6..929e9cc 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -88,7 +88,9 @@ class Type:  # Type as in word type vs token
 
     @classmethod
     def parse(cls, line: str, vocab: List['Type'], delim='\t'):
-        cols = line.strip().split(delim)
+        cols = line.rstrip('\r\n').split(delim)
+        if len(cols) > 5:  # delim inside the name, e.g. of a class; the last three have no delim
+            cols = [cols[0], delim.join(cols[1:-3])] + cols[-3:]
         idx, name, level, freq = cols[:4]
         idx, level, freq = int(idx), int(level), int(freq)
         kids = None
@@ -136,7 +138,7 @@ class Type:  # Type as in word type vs token
         else:
             rdr = inp
 
-        lines = list(l.strip() for l in rdr)
+        lines = list(l.rstrip('\r\n') for l in rdr)
         meta = None
         if lines[0].startswith("#{"):
             # metadata such as version; not used as of now
-- 
2.43.0


From 1037deb6ad3505af46f3f378a6ee1108b004c179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:23 +0000
Subject: [PATCH 29/36] fix: parallel_map may hang when it is stopped early or
 by an error

Leaving the pool kills its workers; when one is killed while it sends
results the queue stays locked and the pool never ends (about 1 in 500
early stops with a quick mapper). Wait for the workers before leaving.
---
 nlcodec/codec.py | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 929e9cc..738f39c 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -5,6 +5,8 @@
 
 import abc
 import collections as coll
+import functools
+import itertools
 import json
 from dataclasses import dataclass, fields
 from datetime import datetime
@@ -23,6 +25,7 @@ N_CPUS = max(1, mp.cpu_count() - 1)
 N_CPUS = int(os.environ.get('NLCODEC_THREADS', str(N_CPUS)))
 
 assert N_CPUS >= 1
+WORKER_STOP_TIMEOUT = 5  # seconds to wait for the workers to finish what they are doing
 from nlcodec import DEF_WORD_MIN_FREQ as WORD_MIN_FREQ
 from nlcodec import DEF_CHAR_MIN_FREQ as CHAR_MIN_FREQ
 from nlcodec import DEF_CHAR_COVERAGE as CHAR_COVERAGE
@@ -178,6 +181,16 @@ class Type:  # Type as in word type vs token
             return [self.name if name else self.idx]
 
 
+def _init_worker(stopped):
+    """makes the flag of parallel_map() known to a worker process"""
+    _map_chunk.stopped = stopped
+
+
+def _map_chunk(mapper, chunk):
+    """work of a worker process; the flag tells that results are not needed anymore"""
+    return [mapper(item) for item in chunk if not _map_chunk.stopped.value]
+
+
 class EncoderScheme(abc.ABC):
 
     name = ''
@@ -236,8 +249,34 @@ class EncoderScheme(abc.ABC):
     def parallel_map(cls, mapper, collection, n_cpus=N_CPUS, name='', chunksize=1000):
         assert n_cpus > 1, f'at least 2 CPUs needed. chunksize={chunksize}'
         log.info(f"Going to use {n_cpus} parallel processes {name}")
-        with mp.Pool(processes=n_cpus) as pool:
-            yield from pool.imap(mapper, collection, chunksize=chunksize)
+        if chunksize < 1:
+            raise ValueError(f'chunksize should be at least 1, not {chunksize}')
+        stopped = mp.RawValue('b', False)
+
+        def make_chunks():
+            items = iter(collection)
+            while not stopped.value:
+                chunk = list(itertools.islice(items, chunksize))
+                if not chunk:
+                    break
+                yield chunk
+
+        with mp.Pool(processes=n_cpus, initializer=_init_worker, initargs=(stopped,)) as pool:
+            results = pool.imap(functools.partial(_map_chunk, mapper), make_chunks())
+            try:
+                for chunk in results:
+                    yield from chunk
+            finally:
+                # Upon errors and early stops: closing a pool kills its workers, and it hangs when
+                # one is killed while sending its results. So, wait until they have nothing to send.
+                stopped.value = True
+                while True:
+                    try:
+                        results.next(timeout=WORKER_STOP_TIMEOUT)
+                    except (StopIteration, mp.TimeoutError):
+                        break
+                    except Exception:
+                        pass  # an error of the items that nobody asks for
 
     @classmethod
     @abc.abstractmethod
-- 
2.43.0


From d3a02c3d828c945551aab49e64394b74d505c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:48 +0000
Subject: [PATCH 30/36] fix: batching of equal lengths keeps record ids as they
 are

---
 nlcodec/db/core.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index ffb2ee4..60f7fa0 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -237,14 +237,13 @@ class Db:
             if min(lens) < min_len:
                 skip_counter[f'len < {min_len}'] += 1
             else:
-                rows.append((_id, max(lens)))
+                rows.append((_id, int(max(lens))))
         if len(skip_counter) > 0:
             log.warning(f"Skipped :: {skip_counter}")
         if not rows:
             return []
-        rows = np.array(rows)  # id, len
-        np.random.shuffle(rows)  # in-place, along the first axis; for extra rand within len group
-        rows = rows[rows[:, 1].argsort()]  # sort by second col wiz len
+        np.random.shuffle(rows)  # in-place; for extra rand within len group
+        rows.sort(key=lambda row: row[1])  # sort by second col wiz len
         batches = []
         batch = []
         max_len = 0
@@ -257,14 +256,14 @@ class Db:
                 if _len > max_toks:
                     raise Exception(f'Unable to make a batch of {max_toks} toks'
                                     f' with a seq of len:{_len}')
-                batches.append(np.array(batch))
+                batches.append(batch)
                 batch = []  # new batch
                 max_len = 0
 
             batch.append(_id)  # this one can go in
             max_len = max(max_len, _len)
         if batch:
-            batches.append(np.array(batch))
+            batches.append(batch)
         return batches
 
     def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf'), allow_empty=False):
-- 
2.43.0


From d6075c1d81d91699042fc00047eb35e6d8b3baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:17 +0000
Subject: [PATCH 31/36] fix: pickle and copy the BPE codec without recursion
 over its trie

A vocabulary with an entry of some 1500 characters or more could not be
used by encode_parallel, and of 100 or more not by copy.deepcopy.
---
 nlcodec/codec.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 738f39c..eb0f55a 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -486,6 +486,16 @@ class BPEScheme(CharScheme):
                  f" but data_nodes={self.root.data_node_count}")
         assert self.unk_idx
 
+    def __getstate__(self):
+        # long types make the trie too deep for recursion of pickle and copy; so, it is made again
+        state = self.__dict__.copy()
+        del state['root']
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.root = self.make_vocab_prefix_trie(self.table)
+
     @classmethod
     def make_vocab_prefix_trie(cls, vocab: List[Type]):
         root: TrNode = TrNode[str, Type](idx='')
-- 
2.43.0


From ac3cb7b287f4e60c5b6ab9bcf0946fa87b1a8676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:17 +0000
Subject: [PATCH 32/36] fix: split deeply composed types without recursion

Types composed in more levels than the interpreter may recurse made the
stochastic split and the permutations fail.
---
 nlcodec/codec.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index eb0f55a..2e41b60 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -164,21 +164,32 @@ class Type:  # Type as in word type vs token
         :param name: get name of pieces instead of ids. default=False
         :return: List of permutations
         """
-        perms = [[self.name if name else self.idx]]
-        if self.kids:
-            left, right = self.kids
-            for left_kid in left.get_permutations(name=name):
-                for right_kid in right.get_permutations(name=name):
-                    perms.append(left_kid + right_kid)
-        return perms
+        stack, todo = [], [(self, False)]  # not recursive, since types maybe composed in many levels
+        while todo:
+            typ, is_ready = todo.pop()
+            if typ.kids and not is_ready:
+                left, right = typ.kids
+                todo += [(typ, True), (right, False), (left, False)]  # kids first
+                continue
+            perms = [[typ.name if name else typ.idx]]
+            if typ.kids:
+                right_perms, left_perms = stack.pop(), stack.pop()
+                for left_kid in left_perms:
+                    for right_kid in right_perms:
+                        perms.append(left_kid + right_kid)
+            stack.append(perms)
+        return stack.pop()
 
     def get_stochastic_split(self, name=False, split_ratio=0.1):
-        if self.kids and random.random() < split_ratio:
-            left, right = self.kids
-            return left.get_stochastic_split(name=name, split_ratio=split_ratio) \
-                   + right.get_stochastic_split(name=name, split_ratio=split_ratio)
-        else:
-            return [self.name if name else self.idx]
+        res, todo = [], [self]  # not recursive, since types maybe composed in many levels
+        while todo:
+            typ = todo.pop()
+            if typ.kids and random.random() < split_ratio:
+                left, right = typ.kids
+                todo += [right, left]
+            else:
+                res.append(typ.name if name else typ.idx)
+        return res
 
 
 def _init_worker(stopped):
-- 
2.43.0


From 9783d9d2363d417b92c1485b92abad3e51d0f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:17 +0000
Subject: [PATCH 33/36] fix: save and load names with lone surrogates

Stdin gives them for malformed bytes (C.UTF-8 locale); they were left out of
the model, which then could not be loaded.
---
 nlcodec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 2e41b60..2557958 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -115,7 +115,7 @@ class Type:  # Type as in word type vs token
     def write_out(cls, table: List['Type'], out: Union[Path, str, TextIO], **meta):
 
         if isinstance(out, Path) or isinstance(out, str):
-            wrtr = open(out, 'w', encoding='utf8', errors='ignore')
+            wrtr = open(out, 'w', encoding='utf8', errors='surrogatepass')
         else:
             wrtr = out
 
@@ -137,7 +137,7 @@ class Type:  # Type as in word type vs token
     def read_vocab(cls, inp: Union[Path, str, TextIO]) -> Tuple[List['Type'], Optional[Dict]]:
 
         if isinstance(inp, Path) or isinstance(inp, str):
-            rdr = open(inp, 'r', encoding='utf8', errors='ignore')
+            rdr = open(inp, 'r', encoding='utf8', errors='surrogatepass')
         else:
             rdr = inp
 
-- 
2.43.0


From 7cce153b53cecb218fbf3f238633d21f8ac05d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:17 +0000
Subject: [PATCH 34/36] fix: read hidden files and file names with special
 characters by spark

spark.read.text ignores files named _x or .x without an error, and takes
names for patterns.
---
 nlcodec/spark.py     | 21 +++++++++++++++++++--
 nlcodec/term_freq.py |  2 +-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/nlcodec/spark.py b/nlcodec/spark.py
index 6834ac4..83538e7 100644
--- a/nlcodec/spark.py
+++ b/nlcodec/spark.py
@@ -6,9 +6,11 @@
 from pathlib import Path
 from typing import Union, Tuple, Dict
 import os
+import re
 from contextlib import contextmanager
 
 from nlcodec import log
+from nlcodec.utils import IO
 from pyspark.sql import DataFrame, SparkSession
 from pyspark.sql.types import StructType, StructField, LongType
 from nlcodec.db.core import MultipartDb
@@ -46,6 +48,21 @@ def session(*args, **kwargs):
         spark.stop()
 
 
+def read_text(spark, path: Union[str, Path]) -> DataFrame:
+    """
+    reads lines of a text file. Unlike spark.read.text(), name of the file is not a pattern,
+     and the files that spark calls hidden are not ignored
+    """
+    if not os.path.isfile(path):
+        return spark.read.text(str(path))
+    path = Path(path)
+    if path.name.startswith(('_', '.')) or path.name.endswith('._COPYING_'):
+        with IO.reader(path) as lines:
+            rows = [(line.rstrip('\r\n'),) for line in lines]
+        return spark.createDataFrame(rows, 'value string')
+    return spark.read.text(re.sub(r'([\\*?\[\]{}])', r'\\\1', str(path)))
+
+
 def read_raw_bitext(spark, src_file: Union[str, Path], tgt_file: Union[str, Path],
                     src_name='src_raw', tgt_name='tgt_raw') -> Tuple[DataFrame, int]:
     """
@@ -62,8 +79,8 @@ def read_raw_bitext(spark, src_file: Union[str, Path], tgt_file: Union[str, Path
     if not isinstance(tgt_file, str):
         tgt_file = str(tgt_file)
 
-    src_df = spark.read.text(src_file).withColumnRenamed('value', src_name)
-    tgt_df = spark.read.text(tgt_file).withColumnRenamed('value', tgt_name)
+    src_df = read_text(spark, src_file).withColumnRenamed('value', src_name)
+    tgt_df = read_text(spark, tgt_file).withColumnRenamed('value', tgt_name)
 
     n_src, n_tgt = src_df.count(), tgt_df.count()
     assert n_src == n_tgt, f'{n_src} == {n_tgt} ?'
diff --git a/nlcodec/term_freq.py b/nlcodec/term_freq.py
index d77898d..cf8b699 100644
--- a/nlcodec/term_freq.py
+++ b/nlcodec/term_freq.py
@@ -30,7 +30,7 @@ def word_counts(paths: List[Path], dedup=True, spark=None) \
     try:
         for p in paths:
             p.exists()
-        dfs = [spark.read.text(str(p)) for p in paths]
+        dfs = [spark_util.read_text(spark, p) for p in paths]
         df = dfs[0]
         if len(dfs) > 1:
             for df2 in dfs[1:]:
-- 
2.43.0


From 203858843fad9c9c1808e75aa1f59feaf6ec4f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:15 +0000
Subject: [PATCH 35/36] fix: interrupted writing of statistics does not leave a
 stats file to be reused

---
 nlcodec/learn.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nlcodec/learn.py b/nlcodec/learn.py
index 9907896..4d9487d 100644
--- a/nlcodec/learn.py
+++ b/nlcodec/learn.py
@@ -78,10 +78,11 @@ def main():
         else:
             with spark.session(master=master, driver_mem=driver_mem) as session:
                 words, chars, line_count = word_counts(paths=inp, dedup=dedup, spark=session)
-            with utils.IO.writer(words_file) as out:
-                write_stats(words, out, line_count=line_count)
-            with utils.IO.writer(chars_file) as out:
-                write_stats(chars, out, line_count=line_count)
+            for stats, path in ((words, words_file), (chars, chars_file)):
+                tmp_path = path.with_suffix('.tmp.gz')  # incomplete stats shouldn't be reused
+                with utils.IO.writer(tmp_path) as out:
+                    write_stats(stats, out, line_count=line_count)
+                tmp_path.rename(path)
 
     assert stats_file.exists()
     with utils.log_resources(name=f"learning {args['level']} vocab"):
-- 
2.43.0


From dac2536c848562b61222941a4127ac94b83ebc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:16 +0000
Subject: [PATCH 36/36] fix: coverage is computed from counts, so rounding
 errors do not add up

---
 nlcodec/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index 7ef82a1..df1c3cb 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -34,10 +34,11 @@ def filter_types_coverage(types: Dict[str, int], coverage=1.0) -> Tuple[Dict[str
     assert  0 < coverage <= 1
     tot = sum(types.values())
     includes = {}
-    cum = 0
+    cum, count = 0, 0
     types  = sorted(types.items(), key=lambda x: x[1], reverse=True)
     for t, f in types:
-        cum += f / tot
+        count += f
+        cum = count / tot  # instead of sum of (f / tot), whose rounding errors grow
         includes[t] = f
         if cum >= coverage:
             break
-- 
2.43.0

