From c3592aa0e59fec09bbcb18bf9c161ab134ae485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 01/71] fix: iterating a DictSet restarts for persisted data
 and works over plain lists

---
 mabel/data/internals/dictset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 9536f78..42ff2b0 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -117,6 +117,10 @@ class DictSet(object):
         """
         if not hasattr(self._iterator, "__iter__"):  # pragma:no cover
             self._iterator = DumbIterator(self._iterator)
+        # start over where we can, e.g. this isn't possible for generators
+        iterator = iter(self._iterator)
+        if not hasattr(self._iterator, "__next__"):
+            return iterator
         return self
 
     def __next__(self):
-- 
2.43.0


From 67a83895aa29fff96dba75edbb66fba46e8de617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 02/71] fix: an empty DictSet can be held in DISK storage

---
 mabel/data/internals/storage_classes/storage_class_disk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/internals/storage_classes/storage_class_disk.py b/mabel/data/internals/storage_classes/storage_class_disk.py
index 21a5631..dc9cfdd 100644
--- a/mabel/data/internals/storage_classes/storage_class_disk.py
+++ b/mabel/data/internals/storage_classes/storage_class_disk.py
@@ -52,6 +52,9 @@ class StorageClassDisk(BaseStorageClass):
         """
         MMAP is by far the fastest way to read files in Python.
         """
+        # an empty file can't be memory mapped
+        if self.length == 0:
+            return
         with open(self.file, mode="rb") as file_obj:
             with mmap.mmap(file_obj.fileno(), length=0, access=mmap.ACCESS_READ) as mmap_obj:
                 line = mmap_obj.readline()
-- 
2.43.0


From 0d9e17b52d487ad9bc625543bc55d47f04a03904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 03/71] fix: COMPRESSED_MEMORY storage keeps empty records

---
 .../storage_classes/storage_class_compressed_memory.py        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
index f6671a3..d2cd137 100644
--- a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
+++ b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
@@ -63,9 +63,7 @@ class StorageClassCompressedMemory(BaseStorageClass):
         else:
             for batch in self.batches:
                 records = self.parse_json(self.decompressor.decompress(batch))
-                for record in records:
-                    if record:
-                        yield record
+                yield from records
 
     def __iter__(self):
         self.iterator = iter(self._inner_reader())
-- 
2.43.0


From 54313b02ec624add5fcbf578a97daeefaf8058ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 04/71] fix: Reader without filters keeps empty records

---
 mabel/data/readers/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/reader.py b/mabel/data/readers/reader.py
index c61ef60..5cada2c 100644
--- a/mabel/data/readers/reader.py
+++ b/mabel/data/readers/reader.py
@@ -15,6 +15,7 @@ from mabel.data.readers.internals.multiprocess_wrapper import processed_reader
 from mabel.data.readers.internals.parallel_reader import EXTENSION_TYPE
 from mabel.data.readers.internals.parallel_reader import KNOWN_EXTENSIONS
 from mabel.data.readers.internals.parallel_reader import ParallelReader
+from mabel.data.readers.internals.parallel_reader import no_filter
 from mabel.data.readers.internals.parallel_reader import pass_thru
 from mabel.errors import DataNotFoundError
 from mabel.errors import InvalidCombinationError
@@ -269,7 +270,7 @@ class _LowLevelReader(object):
         parallel = ParallelReader(
             reader=self.reader_class,
             columns=self.select,
-            filters=self.filters or pass_thru,
+            filters=self.filters or no_filter,
             override_format=self.override_format,
         )
 
-- 
2.43.0


From 6d2f7f739674853b9d3774b3d2a3db42892da953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 05/71] fix: get_items works for MEMORY storage, generators and
 no positions

---
 mabel/data/internals/dictset.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 42ff2b0..be89aba 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -329,9 +329,16 @@ class DictSet(object):
         way possible to do this.
         """
 
+        if not locations:
+            return
+
         # if there's no direct access to items, cycle through them
         # yielding the items we want
-        if self.storage_class in (STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY):
+        if self.storage_class in (
+            STORAGE_CLASS.MEMORY,
+            STORAGE_CLASS.DISK,
+            STORAGE_CLASS.COMPRESSED_MEMORY,
+        ):
             for r in self._iterator._inner_reader(*locations):
                 yield r
             return
@@ -342,7 +349,7 @@ class DictSet(object):
             return
 
         if self.storage_class == STORAGE_CLASS.NO_PERSISTANCE:
-            for i, r in iter(self._iterator):
+            for i, r in enumerate(iter(self._iterator)):
                 if i in locations:
                     yield r
 
-- 
2.43.0


From 7965969046377dd1f11f3eab0859bbc02486b018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 06/71] fix: take(0) returns no records

---
 mabel/data/internals/dictset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index be89aba..d0169d2 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -405,6 +405,8 @@ class DictSet(object):
 
         This returns a generator.
         """
+        if items == 0:
+            return
         for count, item in enumerate(iter(self._iterator)):
             if isinstance(item, dict):
                 yield item
-- 
2.43.0


From db933058e06c2a019dbe917865e19e9ac192d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 07/71] fix: SQL LIMIT 0 returns no records

---
 mabel/data/readers/internals/sql_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 2199ea5..acc0558 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -341,14 +341,14 @@ def SqlReader(sql_statement: str, **kwargs):
     # ORDER BY clause
     if sql.order_by:
         take = 10000  # the Query UI is currently set to 2000
-        if sql.limit:
+        if sql.limit is not None:
             take = int(sql.limit)
         reader = DictSet(
             reader.sort_and_take(column=sql.order_by, take=take, descending=sql.order_descending)
         )
 
     # LIMIT clause
-    if sql.limit:
+    if sql.limit is not None:
         reader = reader.take(sql.limit)
 
     return reader
-- 
2.43.0


From 5017875db18deffa1cf2e22427a48d274ce11c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 08/71] fix: SQL ORDER BY without a direction can be followed
 by LIMIT

---
 mabel/data/readers/internals/sql_reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index acc0558..d38e4cb 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -215,7 +215,6 @@ class SqlParser:
                     "DESC",
                 ):
                     self.order_descending = labeler.next_token_value().upper() == "DESC"
-                if labeler.has_next():
                     labeler.next()
             elif labeler.peek().upper() == "LIMIT":
                 labeler.next()
-- 
2.43.0


From 9ad623ce36713fa882795022184e1992a5c8d8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 09/71] fix: malformed SQL is refused with InvalidSqlError
 instead of hanging or IndexError

---
 mabel/data/readers/internals/sql_reader.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index d38e4cb..d29b6ab 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -118,7 +118,7 @@ class SqlParser:
         `valid_dataset_prefixes` parameter on the Reader.
         """
         # start with a letter
-        if not dataset[0].isalpha():
+        if not dataset or not dataset[0].isalpha():
             raise InvalidSqlError("Malformed FROM clause - must start with a letter.")
         # can't be attempting path traversal
         if ".." in dataset or "//" in dataset or "--" in dataset:
@@ -160,7 +160,7 @@ class SqlParser:
                 labeler.next()
                 while labeler.has_next() and labeler.next_token_type() == TOKENS.EMPTY:
                     labeler.next()
-                if labeler.next_token_value().upper() == "DISTINCT":
+                if labeler.has_next() and labeler.next_token_value().upper() == "DISTINCT":
                     labeler.next()
                     self.distinct = True
                     while labeler.has_next() and labeler.next_token_type() == TOKENS.EMPTY:
@@ -171,7 +171,7 @@ class SqlParser:
                 while labeler.has_next() and labeler.next_token_type() == TOKENS.EMPTY:
                     labeler.next()
 
-                if labeler.next_token_type() == TOKENS.LEFTPARENTHESES:
+                if labeler.has_next() and labeler.next_token_type() == TOKENS.LEFTPARENTHESES:
                     # we have a subquery - we're going to collect it based on matching
                     # parentheses
                     open_parentheses = 1
@@ -218,7 +218,12 @@ class SqlParser:
                     labeler.next()
             elif labeler.peek().upper() == "LIMIT":
                 labeler.next()
-                self.limit = int(self.collector(labeler))
+                limit = self.collector(labeler)
+                if not limit.isdigit():
+                    raise InvalidSqlError(f"Malformed LIMIT clause - `{limit}` is not a number.")
+                self.limit = int(limit)
+            else:
+                raise InvalidSqlError(f"Invalid statement - unexpected `{labeler.peek()}`.")
 
         # validate inputs (currently only the FROM clause)
         if isinstance(self.dataset, str):
-- 
2.43.0


From 5a8df54d914914fe6b72789772f01946f5846b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 10/71] fix: SQL WHERE and functions are applied to the result
 of a subquery

---
 mabel/data/readers/internals/sql_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index d29b6ab..58db3fc 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -276,6 +276,10 @@ def SqlReader(sql_statement: str, **kwargs):
         # to get back a dataset - which we then use as the
         # dataset for the outer query.
         reader = SqlReader("".join(sql.dataset), **kwargs)
+        if actual_select != "*":
+            reader = DictSet(map(Evaluator(actual_select), reader))
+        if sql.where_expression:
+            reader = reader.filter(sql.where_expression)
     else:
         reader = Reader(
             select=actual_select,
-- 
2.43.0


From d224b6bbebdc8ad3f42e4619161261d7db00be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 11/71] fix: quoted text in filters keeps its whitespace and
 anything that looks like syntax

---
 mabel/utils/token_labeler.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mabel/utils/token_labeler.py b/mabel/utils/token_labeler.py
index 041f4c6..35e89c3 100644
--- a/mabel/utils/token_labeler.py
+++ b/mabel/utils/token_labeler.py
@@ -16,6 +16,9 @@ from mabel.utils.text import like
 from mabel.utils.text import matches
 from mabel.utils.text import not_like
 
+# Text in quotes is kept as it is, whatever is between the quotes
+QUOTED_TEXT = r"\"[^\"]*\"|'[^']*'|`[^`]*`"
+
 # These are the characters we should escape in our regex
 REGEX_CHARACTERS = {ch: "\\" + ch for ch in ".^$*+?{}[]|()\\"}
 
@@ -204,7 +207,7 @@ def build_splitter():
     for item in ["(", ")", "[", "]", ",", "*"]:
         keywords.append("".join([REGEX_CHARACTERS.get(ch, ch) for ch in item]))
     splitter = re.compile(
-        r"(" + r"|".join(keywords) + r")",
+        r"(" + QUOTED_TEXT + r"|" + r"|".join(keywords) + r")",
         re.IGNORECASE,
     )
     return splitter
@@ -304,8 +307,10 @@ class Tokenizer:
         """
         Remove carriage returns and all whitespace to single spaces
         """
-        whitespace_cleaner = re.compile(r"\s+")
-        return whitespace_cleaner.sub(" ", string).strip()
+        whitespace_cleaner = re.compile(QUOTED_TEXT + r"|\s+")
+        return whitespace_cleaner.sub(
+            lambda match: match.group() if match.group().strip() else " ", string
+        ).strip()
 
     def tokenize(self, expression):
         expression = self.clean_statement(expression)
-- 
2.43.0


From 1fc08e65b9ca575f121a5bb8213e8b4752b22bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 12/71] fix: quoted text in SQL statements and select
 expressions is not taken for syntax

---
 mabel/data/readers/internals/inline_evaluator.py |  3 ++-
 mabel/data/readers/internals/sql_reader.py       | 13 +++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index 07319ba..25cbefa 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -24,6 +24,7 @@ import re
 
 from mabel.data.readers.internals.inline_functions import FUNCTIONS
 from mabel.utils.dates import parse_iso
+from mabel.utils.token_labeler import QUOTED_TEXT
 from mabel.utils.token_labeler import TOKENS
 from mabel.utils.token_labeler import get_token_type
 
@@ -229,7 +230,7 @@ class TokenSet(list):
 
 class Evaluator:
     def __init__(self, proforma):
-        reg = re.compile(r"(\(|\)|,|\bAS\b)", re.IGNORECASE)
+        reg = re.compile(r"(" + QUOTED_TEXT + r"|\(|\)|,|\bAS\b)", re.IGNORECASE)
         tokens = [t.strip() for t in reg.split(proforma) if t.strip() not in ("", ",")]
         self.tokens = build(tokens)
         self._iter = None
diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 58db3fc..09f1f8b 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -23,6 +23,7 @@ from orso.logging import get_logger
 
 from mabel.data.readers.internals.inline_evaluator import Evaluator
 from mabel.data.readers.internals.inline_evaluator import get_function_name
+from mabel.utils.token_labeler import QUOTED_TEXT
 from mabel.utils.token_labeler import TOKENS
 from mabel.utils.token_labeler import Tokenizer
 
@@ -76,7 +77,9 @@ class SqlParser:
 
     def sql_parts(self, string):
         reg = re.compile(
-            r"(\(|\)|,|"
+            r"("
+            + QUOTED_TEXT
+            + r"|\(|\)|,|"
             + r"|".join([r"\b" + i.replace(r" ", r"\s") + r"\b" for i in SQL_PARTS])
             + r"|\s)",
             re.IGNORECASE,
@@ -88,11 +91,13 @@ class SqlParser:
         """
         Remove carriage returns and all whitespace to single spaces
         """
-        _RE_COMBINE_WHITESPACE = re.compile(r"\s+")
-        return _RE_COMBINE_WHITESPACE.sub(" ", string).strip()
+        _RE_COMBINE_WHITESPACE = re.compile(QUOTED_TEXT + r"|\s+")
+        return _RE_COMBINE_WHITESPACE.sub(
+            lambda match: match.group() if match.group().strip() else " ", string
+        ).strip()
 
     def remove_comments(self, string):
-        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|--[^\r\n]*$)"
+        pattern = r"(\".*?\"|\'.*?\'|`.*?`)|(/\*.*?\*/|--[^\r\n]*$)"
         # first group captures quoted strings (double or single)
         # second group captures comments (//single-line or /* multi-line */)
         regex = re.compile(pattern, re.MULTILINE | re.DOTALL)
-- 
2.43.0


From 8d55ab423e468df6200033f240ba0fa95d63c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 13/71] fix: groups with different values are never merged

---
 mabel/data/internals/group_by.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index a6ac668..4fc061c 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -71,16 +71,9 @@ class GroupBy:
             return
 
         for record in self._dictset:
-            try:
-                group_key: int = xxh3_64_intdigest(
-                    "".join([str(record[column]) for column in self._columns]),
-                    HASH_SEED
-                )
-            except KeyError:
-                group_key: int = xxh3_64_intdigest(
-                    "".join([f"{record.get(column, '')}" for column in self._columns]),
-                    HASH_SEED,
-                )
+            group_key: int = xxh3_64_intdigest(
+                repr([record.get(column) for column in self._columns]), HASH_SEED
+            )
             if group_key not in self._group_keys.keys():
                 self._group_keys[group_key] = [
                     (column, record.get(column)) for column in self._columns
-- 
2.43.0


From aac2c228037f57c529bff32334ac1a710e0ca0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 14/71] fix: aggregations needed more than once are only
 accumulated once

---
 mabel/data/internals/group_by.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 4fc061c..c3b4232 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -110,9 +110,11 @@ class GroupBy:
         requested_aggs = aggregations.copy()
 
         # averages need the sum and the count
-        for func, col in aggregations:
+        for func, col in requested_aggs:
             if func == "AVG":
-                aggregations += [("SUM", col), ("COUNT", col)]
+                aggregations = aggregations + [("SUM", col), ("COUNT", col)]
+        # each aggregation is only to be calculated once
+        aggregations = list(dict.fromkeys(aggregations))
 
         columns_to_collect = {col for func, col in aggregations}
 
-- 
2.43.0


From 4389ecd4e1f5c5ac7fde3600fbfb0bfab946d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 15/71] fix: aggregations handle zero and empty values

---
 mabel/data/internals/group_by.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index c3b4232..0b0ed46 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -137,11 +137,8 @@ class GroupBy:
                 # the aggregation works by performing a simple calculation on
                 # the last known value and the value currently seen. This means
                 # we don't need a full copy of the data in memory.
-                if existing:
-                    if value or func == "COUNT":
-                        value = AGGREGATORS[func](existing, value)
-                    else:
-                        value = existing
+                if existing is not None:
+                    value = AGGREGATORS[func](existing, value)
                 elif func == "COUNT":
                     # the COUNT needs seeding with 1, the next cycles are just
                     # adding 1 to the last value.
-- 
2.43.0


From deb1649e48ba7f85b8f96ab1483f46749af82052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 16/71] fix: groups with only nulls are reported, and do not
 fail AVG

---
 mabel/data/internals/group_by.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 0b0ed46..b3b8a3f 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -147,6 +147,10 @@ class GroupBy:
                 # update the collector with the latest value
                 collector[record[0]][key] = value
 
+        # groups where there was nothing to collect still have a result
+        for group in self._group_keys:
+            collector[group]  # creates the entry
+
         # the order of the resulting data set is the order of the hashes - this
         # will appear random, but will ensure the order is consistent between
         # reruns.
@@ -155,11 +159,12 @@ class GroupBy:
         # We now need to expand out the hashed column names
         for group, results in collector.items():
             for func, col in requested_aggs:
-                if func == "AVG":
+                if func == "AVG" and f"COUNT({col})" in results:
                     results[f"AVG({col})"] = results[f"SUM({col})"] / results[f"COUNT({col})"]
 
             results = {
-                f"{func}({col})": results.get(f"{func}({col})") for func, col in requested_aggs
+                f"{func}({col})": results.get(f"{func}({col})", 0 if func == "COUNT" else None)
+                for func, col in requested_aggs
             }
 
             keys = self._group_keys[group]
-- 
2.43.0


From 668723a0f12227cc49a2a881e4641bee8e51921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 17/71] fix: distinct only removes records which are the same

---
 mabel/data/internals/dictset.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index d0169d2..583f863 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -299,13 +299,9 @@ class DictSet(object):
         def do_dedupe(data):
             for item in data:
                 if columns:
-                    hashed_item = hash("".join([str(item.get(c, "$$")) for c in columns]))
+                    hashed_item = hash(repr([item.get(c, ...) for c in columns]))
                 else:
-                    hashed_item = reduce(
-                        lambda x, y: x ^ y,
-                        [hash(f"{i},{v}") for i, v in enumerate(item.values())],
-                        0,
-                    )
+                    hashed_item = hash(repr(sorted(item.items(), key=lambda i: repr(i[0]))))
                 if hashed_item not in hash_list:
                     yield item
                     hash_list[hashed_item] = True
-- 
2.43.0


From b1d63550f9eba118704955b0dcabe78860c99e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 18/71] fix: flatten keeps every element of lists

---
 mabel/data/internals/records.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/records.py b/mabel/data/internals/records.py
index fc48701..e7cac4d 100644
--- a/mabel/data/internals/records.py
+++ b/mabel/data/internals/records.py
@@ -81,7 +81,7 @@ def flatten(dictionary: MutableMapping[Any, Any], separator: str = ".", parent_k
             items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())
         elif isinstance(value, list):
             for k, v in enumerate(value):
-                items.extend(flatten({str(k): v}, new_key).items())
+                items.extend(flatten({str(k): v}, separator, new_key).items())
         else:
             items.append((new_key, value))
     return dict(items)
-- 
2.43.0


From 14f2c60c9b2dd8fb8dffb6a56f1e6a2c9ffeb305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 19/71] fix: several groups or columns can be selected from a
 CollectedSet

---
 mabel/data/internals/collected_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/collected_set.py b/mabel/data/internals/collected_set.py
index 99361c0..831f48e 100644
--- a/mabel/data/internals/collected_set.py
+++ b/mabel/data/internals/collected_set.py
@@ -111,7 +111,7 @@ class CollectedSet:
             newg = CollectedSet([], None)
             for entry in item:
                 if entry in self._collections:
-                    newg._collections[entry].append(self._collections[entry])
+                    newg._collections[entry] = self._collections[entry]
             return newg
         else:
             return SubCollection(self._collections.get(item))
@@ -133,7 +133,7 @@ class SubCollection:
         Selector access to a value in a collection, support arrays
         """
         if isinstance(item, tuple):
-            return list(self.values.select(*item))
+            return list(self.values.select(item))
         else:
             return self.values.collect_list(item)
 
-- 
2.43.0


From 3a270372285dbca745f7779a718067d54e29a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 20/71] fix: HTML tables render lists of non-text values and
 escape every type

---
 mabel/data/internals/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index a999a1c..a6feed2 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -27,7 +27,7 @@ def html_table(dictset: Iterable[dict], limit: int = 5):
         if hasattr(htmlstring, "items"):
             return sanitize("{ " + ", ".join([f'"{k}": {v}' for k, v in htmlstring.items()]) + " }")
         if not isinstance(htmlstring, str):
-            return htmlstring
+            htmlstring = str(htmlstring)
         escapes = {'"': "&quot;", "'": "&#39;", "<": "&lt;", ">": "&gt;", "$": "&#x24;"}
         # This is done first to prevent escaping other escapes.
         htmlstring = htmlstring.replace("&", "&amp;")
-- 
2.43.0


From 7d312005e7dc27a503f8359d212d21747579d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 21/71] fix: LIKE matches text with line breaks

---
 mabel/utils/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/utils/text.py b/mabel/utils/text.py
index 794188d..c586861 100644
--- a/mabel/utils/text.py
+++ b/mabel/utils/text.py
@@ -36,7 +36,9 @@ def _sql_like_fragment_to_regex(fragment):
     """
     # https://codereview.stackexchange.com/a/36864/229677
     safe_fragment = "".join([REGEX_CHARACTERS.get(ch, ch) for ch in fragment])
-    return re.compile("^" + safe_fragment.replace("%", ".*?").replace("_", ".") + "$")
+    return re.compile(
+        "^" + safe_fragment.replace("%", ".*?").replace("_", ".") + r"\Z", re.DOTALL
+    )
 
 
 def like(x, y):
-- 
2.43.0


From eb7faa8e03d92df96c9139f380e2e5e12f412f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 22/71] fix: LIKE does not match null

---
 mabel/utils/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/utils/text.py b/mabel/utils/text.py
index c586861..1c3c011 100644
--- a/mabel/utils/text.py
+++ b/mabel/utils/text.py
@@ -42,6 +42,8 @@ def _sql_like_fragment_to_regex(fragment):
 
 
 def like(x, y):
+    if x is None:
+        return False
     return _sql_like_fragment_to_regex(y.lower()).match(str(x).lower())
 
 
-- 
2.43.0


From b62ed3bf955bc06ada7b75870a95d171b3203e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 23/71] fix: parse_iso returns None for numbers which are not
 timestamps

---
 mabel/utils/dates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/utils/dates.py b/mabel/utils/dates.py
index 61ffe07..f280d0f 100644
--- a/mabel/utils/dates.py
+++ b/mabel/utils/dates.py
@@ -130,7 +130,7 @@ def parse_iso(
                         )
                     )
         return None
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError, OSError):
         return None
 
 
-- 
2.43.0


From ddf04541ba8b75574380d06f00d50c664cc2e024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 24/71] fix: records which cannot be read back are refused when
 appended

---
 mabel/data/writers/internals/blob_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/writers/internals/blob_writer.py b/mabel/data/writers/internals/blob_writer.py
index 2ad72a9..cf959d7 100644
--- a/mabel/data/writers/internals/blob_writer.py
+++ b/mabel/data/writers/internals/blob_writer.py
@@ -80,6 +80,8 @@ class BlobWriter(object):
                 serialized = orjson.dumps(record) + b"\n"  # type:ignore
             except TypeError:
                 serialized = json.dumps(record).encode() + b"\n"
+                # don't accept what we wouldn't be able to read
+                orjson.loads(serialized)
 
         # the newline isn't counted so add 1 to get the actual length if this write
         # would exceed the blob size, close it so another blob will be created
-- 
2.43.0


From f1db866a015bf642c26f91eab9acf03635368f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 25/71] fix: writers accept pydantic models

---
 mabel/data/writers/database_writer.py | 2 +-
 mabel/data/writers/writer.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/database_writer.py b/mabel/data/writers/database_writer.py
index 28519ed..b88b97e 100644
--- a/mabel/data/writers/database_writer.py
+++ b/mabel/data/writers/database_writer.py
@@ -86,7 +86,7 @@ class DatabaseWriter:
             integer
                 The number of records in the current blob
         """
-        if "BaseModel" in str(type(record)):
+        if any("BaseModel" in str(base) for base in type(record).__mro__):
             if hasattr(record, "dict"):
                 record = record.dict()  # type.ignore
             if hasattr(record, "model_dump"):
diff --git a/mabel/data/writers/writer.py b/mabel/data/writers/writer.py
index 57ff917..8b6d217 100644
--- a/mabel/data/writers/writer.py
+++ b/mabel/data/writers/writer.py
@@ -128,7 +128,7 @@ class Writer:
             integer
                 The number of records in the current blob
         """
-        if "BaseModel" in str(type(record)):
+        if any("BaseModel" in str(base) for base in type(record).__mro__):
             if hasattr(record, "dict"):
                 record = record.dict()  # type.ignore
             if hasattr(record, "model_dump"):
-- 
2.43.0


From 664cc02243cfe0480ea88632bc165c8c16de0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 26/71] fix: the writer pool doesn't evict writers when under
 capacity

---
 mabel/data/writers/internals/writer_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 16dbefb..b14b77c 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -86,7 +86,7 @@ class WriterPool:
 
         # evict the oldest items, evicting can be time consuming so we're going to limit the
         evictees = sorted(self.writers, key=_inner_sort_key, reverse=False)[
-            : len(self.writers) - self.pool_size
+            : max(len(self.writers) - self.pool_size, 0)
         ][: self.pool_size]
         return [writer.get("identity") for writer in evictees]
 
-- 
2.43.0


From 898079e68928b999761103ec675994695d6f0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 27/71] fix: writers which fail to commit stay in the pool, and
 don't stop the pool attendant

---
 mabel/data/writers/internals/writer_pool.py |  3 ++-
 mabel/data/writers/stream_writer.py         | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index b14b77c..5d9d797 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -63,8 +63,9 @@ class WriterPool:
                 )
             else:
                 writer = writers[0]
-                self.writers = [w for w in self.writers if w.get("identity") != identity]
+                # if we can't commit, keep the writer so we don't lose its records
                 writer.get("writer").commit()
+                self.writers = [w for w in self.writers if w.get("identity") != identity]
         finally:
             lock.release()
 
diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index e158d7f..e6d69d5 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -171,6 +171,13 @@ class StreamWriter(Writer):
                     )
         return super().finalize()
 
+    def _evict_writer(self, identity):
+        try:
+            self.writer_pool.remove_writer(identity)
+        except Exception as err:
+            # the writer stays in the pool so will be tried again
+            get_logger().error(f"Error evicting `{identity}`, {type(err).__name__} - {err}")
+
     def pool_attendant(self):
         """
         Writer Pool Management
@@ -184,13 +191,13 @@ class StreamWriter(Writer):
                     get_logger().debug(
                         f"Evicting {blob_writer_identity} from the writer pool due to inactivity - limit is {self.idle_timeout_seconds} seconds, poolsize={len(self.writer_pool.writers)}"
                     )
-                    self.writer_pool.remove_writer(blob_writer_identity)
+                    self._evict_writer(blob_writer_identity)
                 # if we're over capacity, evict the LRU writers
                 for blob_writer_identity in self.writer_pool.nominate_writers_to_evict():
                     get_logger().debug(
                         f"Evicting {blob_writer_identity} from the writer pool due the pool being over its {self.writer_pool_capacity} capacity, poolsize={len(self.writer_pool.writers)}"
                     )
-                    self.writer_pool.remove_writer(blob_writer_identity)
+                    self._evict_writer(blob_writer_identity)
 
             time.sleep(0.1)
 
-- 
2.43.0


From d5ad8122494efdaced69806eb04ea2f03abe3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 28/71] fix: StreamWriter.finalize reports partitions which
 could not be committed

---
 mabel/data/writers/stream_writer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index e6d69d5..9220999 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -158,6 +158,7 @@ class StreamWriter(Writer):
 
     def finalize(self, **kwargs):
         self.run_pool_attendant = False
+        first_error = None
         with lock:
             for blob_writer_identity in self.writer_pool.writers:
                 try:
@@ -169,7 +170,11 @@ class StreamWriter(Writer):
                     get_logger().debug(
                         f"Error finalizing `{blob_writer_identity}`, {type(err).__name__} - {err}"
                     )
-        return super().finalize()
+                    first_error = first_error or err
+        result = super().finalize()
+        if first_error:
+            raise first_error
+        return result
 
     def _evict_writer(self, identity):
         try:
-- 
2.43.0


From 974c51e2f66ebdd18cf25cb9d1b8c68e37210223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 29/71] fix: a failed disk commit doesn't leave a partial blob
 behind

---
 mabel/adapters/disk/disk_writer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mabel/adapters/disk/disk_writer.py b/mabel/adapters/disk/disk_writer.py
index 3e9ce7e..47792eb 100644
--- a/mabel/adapters/disk/disk_writer.py
+++ b/mabel/adapters/disk/disk_writer.py
@@ -22,8 +22,13 @@ class DiskWriter(BaseInnerWriter):
             bucket, path, stem, ext = paths.get_parts(blob_name)
 
             os.makedirs(bucket + "/" + path, exist_ok=True)
-            with open(blob_name, mode="wb") as file:
-                file.write(byte_data)
+            try:
+                with open(blob_name, mode="wb") as file:
+                    file.write(byte_data)
+            except Exception:
+                # don't leave a partially written blob behind
+                paths.silent_remove(blob_name)
+                raise
 
             return blob_name
         except Exception as err:  # pragma: no cover
-- 
2.43.0


From 6859f41bf274164872955e69266d76a0ef2e18d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 30/71] fix: blob names are unique regardless of the clock, and
 in forked processes

---
 mabel/data/writers/internals/base_inner_writer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mabel/data/writers/internals/base_inner_writer.py b/mabel/data/writers/internals/base_inner_writer.py
index 71f56bc..0b0f26b 100644
--- a/mabel/data/writers/internals/base_inner_writer.py
+++ b/mabel/data/writers/internals/base_inner_writer.py
@@ -7,14 +7,15 @@ The primary activity is contained in the .commit() method.
 """
 
 import abc
+import itertools
 import os
 import time
 import uuid
-from functools import lru_cache
 
 from mabel.utils import paths
 
 STEM = "{stem}"
+BLOB_SEQUENCE = itertools.count()
 
 
 class BaseInnerWriter(abc.ABC):
@@ -37,10 +38,10 @@ class BaseInnerWriter(abc.ABC):
         self.filename_without_bucket = path + STEM + self.extension
 
     def _build_path(self):
-        blob_id = f"{time.time_ns():x}-{self._get_node()}"
+        # the clock can stand still or go back, the sequence never does
+        blob_id = f"{time.time_ns():x}-{next(BLOB_SEQUENCE):08x}-{self._get_node()}"
         return self.filename.replace(STEM, f"{blob_id}")
 
-    @lru_cache(1)
     def _get_node(self):
         return f"{uuid.getnode():x}-{os.getpid():x}"
 
-- 
2.43.0


From 244b5226f07d49b542aee58d9051f8b47b32a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 31/71] fix: partitions and frames whose names begin alike
 aren't confused when reading

---
 mabel/data/readers/internals/base_inner_reader.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 65bb7e8..10dd4c9 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -130,7 +130,7 @@ class BaseInnerReader(abc.ABC):
                     partition_filter = f"/by_{partition_filter_field}/{partition_filter_field}={partition_filter_value}/"
 
                     # If we can find the partition in the folder set, then prune to it
-                    if any([f"by_{partition_filter_field}" in by for by in list_of_partitions]):
+                    if f"by_{partition_filter_field}" in list_of_partitions:
                         # Do the pruning
                         cycle_blobs = [blob for blob in cycle_blobs if partition_filter in blob]
                         #  We only have one partition now
@@ -172,7 +172,8 @@ class BaseInnerReader(abc.ABC):
                     partitioned_blobs = [
                         blob
                         for blob in cycle_blobs
-                        if f"{chosen_partition}/{partitioned_folder}" in blob
+                        if chosen_partition == ""
+                        or safe_get_next(blob.split("/"), chosen_partition) == partitioned_folder
                     ]
 
                     # Work out if there's an as_at part
@@ -184,10 +185,10 @@ class BaseInnerReader(abc.ABC):
                         as_at = as_ats.pop()
 
                         is_complete = lambda blobs: any(
-                            [blob for blob in blobs if as_at + "/frame.complete" in blob]
+                            [blob for blob in blobs if f"/{as_at}/frame.complete" in blob]
                         )
                         is_invalid = lambda blobs: any(
-                            [blob for blob in blobs if (as_at + "/frame.ignore" in blob)]
+                            [blob for blob in blobs if f"/{as_at}/frame.ignore" in blob]
                         )
 
                         while not is_complete(partitioned_blobs) or is_invalid(partitioned_blobs):
@@ -214,7 +215,7 @@ class BaseInnerReader(abc.ABC):
                             partitioned_blobs = [
                                 blob
                                 for blob in partitioned_blobs
-                                if (as_at in blob) and ("/frame.complete" not in blob)
+                                if (f"/{as_at}/" in blob) and ("/frame.complete" not in blob)
                             ]
 
                     blobs += partitioned_blobs
-- 
2.43.0


From 2b4aecffa313203964aee7fbba394a7d0f8c2407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 32/71] fix: a cursor can be used after blobs have been added
 to the dataset

---
 mabel/data/readers/internals/cursor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/cursor.py b/mabel/data/readers/internals/cursor.py
index 8d6ab80..88ec23c 100644
--- a/mabel/data/readers/internals/cursor.py
+++ b/mabel/data/readers/internals/cursor.py
@@ -57,7 +57,9 @@ class Cursor:
         blob_map = bitarray()
         blob_map.frombytes(map_bytes)
         self.read_blobs = [
-            self.readable_blobs[i] for i in range(len(self.readable_blobs)) if blob_map[i]
+            self.readable_blobs[i]
+            for i in range(min(len(self.readable_blobs), len(blob_map)))
+            if blob_map[i]
         ]
 
     def next_blob(self, previous_blob=None):
-- 
2.43.0


From c7b328a595d5068b422c1fc30b26c4cf4eab2667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 33/71] fix: nulls, lists and dictionaries are the same when
 read with multiple processes

---
 mabel/data/readers/internals/multiprocess_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index 94de6ba..02cb0a0 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -25,14 +25,14 @@ MAXIMUM_SECONDS_PROCESSES_CAN_RUN = 600
 def fix_dict(obj: dict) -> dict:
     def fix_fields(dt):
         dt_type = type(dt)
-        if dt_type in (int, float, bool, str):
+        if dt is None or dt_type in (int, float, bool, str):
             return dt
         if hasattr(dt, "mini"):
             return dt.mini.decode("UTF8")
         if dt_type == dict:
-            return str(fix_dict(dt))
+            return fix_dict(dt)
         if dt_type in (list, tuple, set):
-            return str([fix_fields(i) for i in dt])
+            return [fix_fields(i) for i in dt]
         if dt_type in (datetime.date, datetime.datetime):
             return dt.isoformat()
         if dt_type == bytes:
-- 
2.43.0


From cf39fa3f02819f7fa30919cccd2eda76b4058f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 34/71] fix: slow starting processes and slow consumers don't
 stall or lose data in multi-process reads

---
 .../readers/internals/multiprocess_wrapper.py | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index 02cb0a0..a6b7fa4 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -54,10 +54,12 @@ def serialize(ob):
 
 
 def _inner_process(func, source_queue, reply_queue):  # pragma: no cover
-    try:
-        source = source_queue.get(timeout=1)
-    except Empty:  # pragma: no cover
-        source = TERMINATE_SIGNAL
+    source = None
+    while source is None:
+        try:
+            source = source_queue.get(timeout=1)
+        except Empty:  # pragma: no cover
+            source = None
 
     while source != TERMINATE_SIGNAL:
         # non blocking wait - this isn't thread aware in that it can trivially
@@ -66,10 +68,7 @@ def _inner_process(func, source_queue, reply_queue):  # pragma: no cover
         while reply_queue.full():
             time.sleep(1)
         # the empty list here is where the list of indicies should go
-        reply_queue.put(
-            lz4.frame.compress(b"\n".join(map(serialize, func(source, [])))),
-            timeout=30,
-        )
+        reply_queue.put(lz4.frame.compress(b"\n".join(map(serialize, func(source, [])))))
         source = None
         while source is None:
             try:
@@ -109,11 +108,7 @@ def processed_reader(func, items_to_read, support_files):  # pragma: no cover
     process_start_time = time.time()
     item_index = slots
 
-    while (
-        any({p.is_alive() for p in process_pool})
-        or not reply_queue.empty()
-        or not send_queue.empty()
-    ):
+    while any({p.is_alive() for p in process_pool}) or not reply_queue.empty():
         try:
             records = reply_queue.get(timeout=1)
             yield from map(json, [r for r in lz4.frame.decompress(records).split(b"\n") if r])
-- 
2.43.0


From 8c818cc50d6870443037241e3b022caf2acf2c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 35/71] fix: abandoning a multi-process read doesn't block on
 its processes

---
 mabel/data/readers/internals/multiprocess_wrapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index a6b7fa4..355df65 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -128,6 +128,11 @@ def processed_reader(func, items_to_read, support_files):  # pragma: no cover
             logging.error("GENERATOR EXIT DETECTED")
             break
 
+    # if we're stopping early, the processes are still waiting for work
+    for process in process_pool:
+        if process.is_alive():
+            process.terminate()
+
     reply_queue.close()
     send_queue.close()
     reply_queue.join_thread()
-- 
2.43.0


From d586ddedb15889fb6570a00208f673e23e1f9f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 36/71] fix: the GCS completion marker of an empty batch is
 stored with its frame

---
 mabel/adapters/google/google_cloud_storage_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mabel/adapters/google/google_cloud_storage_writer.py b/mabel/adapters/google/google_cloud_storage_writer.py
index f15d32b..a0bb815 100644
--- a/mabel/adapters/google/google_cloud_storage_writer.py
+++ b/mabel/adapters/google/google_cloud_storage_writer.py
@@ -27,6 +27,7 @@ class GoogleCloudStorageWriter(BaseInnerWriter):
 
         super().__init__(**kwargs)
         self.credentials = credentials
+        self.filename = self.filename_without_bucket
 
         predicate = retry.if_exception_type(
             ConnectionResetError, ProtocolError, InternalServerError, TooManyRequests
-- 
2.43.0


From 9ddf22a3a30b87749288a50aca8ddab5c973d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 37/71] fix: the MinIO reader lists each blob once

---
 mabel/adapters/minio/minio_reader.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/mabel/adapters/minio/minio_reader.py b/mabel/adapters/minio/minio_reader.py
index 5d3fffc..20c41ce 100644
--- a/mabel/adapters/minio/minio_reader.py
+++ b/mabel/adapters/minio/minio_reader.py
@@ -4,7 +4,6 @@ MinIo Reader - also works with AWS
 
 from ...data.readers.internals.base_inner_reader import BaseInnerReader
 from ...errors import MissingDependencyError
-from ...utils import dates
 from ...utils import paths
 
 try:
@@ -35,15 +34,13 @@ class MinIoReader(BaseInnerReader):
 
     def get_blobs_at_path(self, path):
         bucket, object_path, _, _ = paths.get_parts(path)
-        for cycle_date in dates.date_range(self.start_date, self.end_date):
-            cycle_path = paths.build_path(path=object_path, date=cycle_date)
-            blobs = self.minio.list_objects(bucket_name=bucket, prefix=cycle_path, recursive=True)
-
-            yield from [
-                bucket + "/" + blob.object_name
-                for blob in blobs
-                if not blob.object_name.endswith("/")
-            ]
+        blobs = self.minio.list_objects(bucket_name=bucket, prefix=object_path, recursive=True)
+
+        yield from [
+            bucket + "/" + blob.object_name
+            for blob in blobs
+            if not blob.object_name.endswith("/")
+        ]
 
     def get_blob_bytes(self, blob_name: str) -> bytes:
         try:
-- 
2.43.0


From 555f4ebbb75f6ed978ed6a347839dfa0d48f25d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 38/71] fix: the last line of a zstd blob doesn't need a line
 break to be read

---
 mabel/data/readers/internals/decompressors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index 00fc9ae..99c30c9 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -8,7 +8,7 @@ def zstd(stream):
     import zstandard  # type:ignore
 
     with zstandard.open(stream, "rb") as file:  # type:ignore
-        yield from file.read().split(b"\n")[:-1]
+        yield from file.read().splitlines()
 
 
 def lzma(stream):
-- 
2.43.0


From 41b7689654846f1abb10a5a89e41708092234f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 39/71] fix: line breaks in quoted CSV values are kept

---
 mabel/data/readers/internals/decompressors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index 99c30c9..a1d504d 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -73,5 +73,6 @@ def block(stream):
 
 def csv(stream):
     import csv
+    import io
 
-    yield from csv.DictReader(stream.read().decode("utf8").splitlines())
+    yield from csv.DictReader(io.StringIO(stream.read().decode("utf8"), newline=""))
-- 
2.43.0


From edad516381183e252541bb7d2576e64212291b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 40/71] fix: RIGHT of zero characters is empty

---
 mabel/data/readers/internals/inline_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 0168559..86be3e7 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -213,7 +213,7 @@ FUNCTIONS = {
     "LEN": len,
     "STRING": to_string,
     "LEFT": lambda x, y: str(x)[: int(y)],
-    "RIGHT": lambda x, y: str(x)[-int(y) :],
+    "RIGHT": lambda x, y: str(x)[-int(y) :] if int(y) != 0 else "",
     "MID": lambda x, y, z: str(x)[int(y) :][: int(z)],
     "CONCAT": concat,
     # NUMBERS
-- 
2.43.0


From 88e783233e7f7ec911bdb3a9d6420760da521925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 41/71] fix: MD5 doesn't return the result of a different value

---
 mabel/data/readers/internals/inline_functions.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 86be3e7..145e709 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -6,7 +6,6 @@ These are the function definitions, the processor which uses these is in the
 """
 
 import datetime
-from functools import lru_cache
 from math import trunc
 
 import orjson
@@ -182,7 +181,6 @@ def parse_number(parser, coerce):
     return inner
 
 
-@lru_cache(8)
 def get_md5(item):
     import hashlib
 
-- 
2.43.0


From 037ceb882f42fdf1ddd65150d1341f4156f76445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 42/71] fix: columns can be renamed with AS in select
 expressions

---
 mabel/data/readers/internals/inline_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index 25cbefa..2a11504 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -144,7 +144,7 @@ def evaluate_field(dict, token):
         if variable[0] == variable[-1] == "`":
             variable = variable[1:-1]
         return (
-            token["value"],
+            token["as"] or token["value"],
             dict.get(variable),
         )
     if token_type == TOKENS.FUNCTION:
-- 
2.43.0


From 8a904d98f638b5519dabea95f1fb80172f23c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 43/71] fix: records which break the schema are backed out when
 writing parquet

They were refused by append (the default format is parquet) and an empty blob
was stored in the BACKOUT folder.
---
 mabel/data/writers/internals/blob_writer.py | 2 +-
 mabel/data/writers/internals/writer_pool.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/internals/blob_writer.py b/mabel/data/writers/internals/blob_writer.py
index cf959d7..d5ceeb0 100644
--- a/mabel/data/writers/internals/blob_writer.py
+++ b/mabel/data/writers/internals/blob_writer.py
@@ -53,8 +53,8 @@ class BlobWriter(object):
             self.append = self.text_append
 
     def arrow_append(self, record: dict = {}):
-        self.records_in_buffer += 1
         self.wal.append(record)  # type:ignore
+        self.records_in_buffer += 1
         # if this write would exceed the blob size, close it
         if self.wal.nbytes() > self.maximum_blob_size:
             self.commit()
diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 5d9d797..f792ca3 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -41,10 +41,14 @@ class WriterPool:
 
     def create_writer(self, identity):
         # instantiate a new writer
+        kwargs = self.kwargs
+        if identity.endswith("/BACKOUT/") and kwargs.get("format") == "parquet":
+            # these records don't conform to the schema so can't be written as parquet
+            kwargs = {**kwargs, "format": "jsonl"}
         new_writer = {
             "identity": identity,
             "last_access": time.time(),
-            "writer": BlobWriter(dataset=identity, **self.kwargs),
+            "writer": BlobWriter(dataset=identity, **kwargs),
         }
         return new_writer
 
-- 
2.43.0


From 773037d0fe5e3cd7babc1e5477a900cb8fc7f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 44/71] fix: data in folders whose names include BACKOUT is
 readable

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 10dd4c9..595434c 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -100,7 +100,7 @@ class BaseInnerReader(abc.ABC):
 
                 # Remove any BACKOUT data - this is essentially a DEAD LETTER queue
                 # so we don't want to include in when reading
-                cycle_blobs = [blob for blob in cycle_blobs if "BACKOUT" not in blob]
+                cycle_blobs = [blob for blob in cycle_blobs if "BACKOUT" not in blob.split("/")]
 
                 # The partitions are stored in folders with the prefix 'by_', as in,
                 # partitioned **by** field name
-- 
2.43.0


From ce1cda480cdbe8e0815fe61fc85346e6af669752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:51 +0000
Subject: [PATCH 45/71] fix: a rejected database batch is not resent as a
 larger batch

---
 mabel/data/writers/database_writer.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/mabel/data/writers/database_writer.py b/mabel/data/writers/database_writer.py
index b88b97e..87002e7 100644
--- a/mabel/data/writers/database_writer.py
+++ b/mabel/data/writers/database_writer.py
@@ -121,15 +121,20 @@ class DatabaseWriter:
             try:
                 lock.acquire(blocking=True, timeout=10)
 
-                self.inner_writer.commit(self.wal)
-
-                get_logger().debug(
-                    {
-                        "action": "commit",
-                        "format": self.inner_writer.__class__.__name__,
-                        "records": len(self.wal),
-                    }
-                )
+                # the buffer holds more than one batch when an earlier commit failed
+                while len(self.wal) > 0:
+                    batch = self.wal.slice(0, BATCH_SIZE)
+                    self.inner_writer.commit(batch)
+                    self.wal = self.wal.slice(BATCH_SIZE)
+                    self.records_in_buffer = len(self.wal)
+
+                    get_logger().debug(
+                        {
+                            "action": "commit",
+                            "format": self.inner_writer.__class__.__name__,
+                            "records": len(batch),
+                        }
+                    )
             finally:
                 lock.release()
 
-- 
2.43.0


From 38eba67890314c69a5de2c1da324e194f3bce9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 46/71] fix: days with only unreadable blobs are stepped over
 by freshness_limit

---
 mabel/data/readers/reader.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mabel/data/readers/reader.py b/mabel/data/readers/reader.py
index 5cada2c..4b59a50 100644
--- a/mabel/data/readers/reader.py
+++ b/mabel/data/readers/reader.py
@@ -200,6 +200,14 @@ def Reader(
     )
 
 
+def _is_data(blob):
+    """is this a blob we have a handler to read records from"""
+    extension = f".{blob.split('.')[-1]}"
+    return (
+        extension in KNOWN_EXTENSIONS and KNOWN_EXTENSIONS[extension][2] == EXTENSION_TYPE.DATA
+    )
+
+
 class _LowLevelReader(object):
     def __init__(
         self,
@@ -237,7 +245,7 @@ class _LowLevelReader(object):
 
         # Handle stepping back if the option is set
         if self.freshness_limit > datetime.timedelta(seconds=1):
-            while not bool(blob_list) and self.freshness_limit >= datetime.timedelta(
+            while not any(_is_data(b) for b in blob_list) and self.freshness_limit >= datetime.timedelta(
                 days=self.reader_class.days_stepped_back
             ):
                 self.reader_class.step_back_a_day()
@@ -253,11 +261,7 @@ class _LowLevelReader(object):
 
         # Build lists of blobs we have handlers for, based on the file extensions
         supported_blobs = [b for b in blob_list if f".{ b.split('.')[-1] }" in KNOWN_EXTENSIONS]
-        readable_blobs = [
-            b
-            for b in supported_blobs
-            if KNOWN_EXTENSIONS[f".{b.split('.')[-1]}"][2] == EXTENSION_TYPE.DATA
-        ]
+        readable_blobs = [b for b in supported_blobs if _is_data(b)]
 
         # Log debug information or an error if there's no blobs to read
         message = f"Reader found {len(readable_blobs)} sources to read data from in `{self.reader_class.dataset}`."
-- 
2.43.0


From 344e3da11f2abc915deb8b4301d27302338d17b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:01 +0000
Subject: [PATCH 47/71] fix: arrays in parquet keep their declared element type

---
 mabel/data/writers/internals/blob_writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/blob_writer.py b/mabel/data/writers/internals/blob_writer.py
index d5ceeb0..2d6c26f 100644
--- a/mabel/data/writers/internals/blob_writer.py
+++ b/mabel/data/writers/internals/blob_writer.py
@@ -131,8 +131,12 @@ class BlobWriter(object):
             mabel_column = mabel_schema.find_column(column)
             if mabel_column and mabel_column.type in type_map:
                 index = table.column_names.index(column)
+                target_type = type_map[mabel_column.type]
+                if mabel_column.type == "ARRAY" and mabel_column.element_type:
+                    # the elements have a declared type too
+                    target_type = mabel_column.arrow_field.type
                 # update the schema
-                schema = schema.set(index, pyarrow.field(column, type_map[mabel_column.type]))
+                schema = schema.set(index, pyarrow.field(column, target_type))
         # apply the updated schema
         table = table.cast(target_schema=schema)
         return table
-- 
2.43.0


From 4c3220ad1f2865cacd3047c68b39801fad367ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:46 +0000
Subject: [PATCH 48/71] fix: flattening keeps empty keys apart

---
 mabel/data/internals/records.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/records.py b/mabel/data/internals/records.py
index e7cac4d..7b5eed9 100644
--- a/mabel/data/internals/records.py
+++ b/mabel/data/internals/records.py
@@ -76,7 +76,7 @@ def flatten(dictionary: MutableMapping[Any, Any], separator: str = ".", parent_k
     """
     items = []
     for key, value in dictionary.items():
-        new_key = str(parent_key) + separator + key if parent_key else key
+        new_key = str(parent_key) + separator + key if parent_key is not False else key
         if hasattr(value, "items"):
             items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())
         elif isinstance(value, list):
-- 
2.43.0


From 706b9a1f9aad091934716b2f6cd0cc534ede7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:46 +0000
Subject: [PATCH 49/71] fix: conditions after a comparison with NULL are not
 ignored

---
 mabel/data/internals/expression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 6c27015..144311b 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -163,6 +163,7 @@ class Expression(object):
                 n = TreeNode(token_type, self.tokenizer.next().lower() == "true")
                 return n
             if token_type == TOKENS.NULL:
+                self.tokenizer.next()
                 n = TreeNode(token_type, None)
                 return n
             if token_type == TOKENS.DATE:
-- 
2.43.0


From ed7a5df039f073048e3e15ef4b00558ae26ed4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:21 +0000
Subject: [PATCH 50/71] fix: LIKE, MATCHES and CONTAINS take text that looks
 like a date or number as text

---
 mabel/data/internals/expression.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 144311b..1f1ae3f 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -22,6 +22,10 @@ from mabel.utils.token_labeler import TOKENS
 from mabel.utils.token_labeler import Tokenizer
 
 
+# operators which look for the text on their right in the text on their left
+TEXT_OPERATORS = ("LIKE", "NOT LIKE", "MATCHES", "CONTAINS")
+
+
 class InvalidExpression(BaseException):
     pass
 
@@ -137,7 +141,15 @@ class Expression(object):
                     self.tokenizer.next_token_value().upper(),
                 )
                 self.tokenizer.next()
-                terminal2 = self.parse_terminal()
+                if (
+                    condition.value in TEXT_OPERATORS
+                    and self.tokenizer.has_next()
+                    and self.tokenizer.next_token_type() == TOKENS.DATE
+                ):
+                    # text to look for is text, even when it looks like a date
+                    terminal2 = TreeNode(TOKENS.LITERAL, str(self.tokenizer.next()[1:-1]))
+                else:
+                    terminal2 = self.parse_terminal()
                 condition.left = terminal1
                 condition.right = terminal2
                 return condition
@@ -215,7 +227,7 @@ class Expression(object):
     def __call__(self, variable_dict):
         return self.evaluate_recursive(self.root, variable_dict)
 
-    def evaluate_recursive(self, treeNode, variable_dict):
+    def evaluate_recursive(self, treeNode, variable_dict, interpret=True):
         if treeNode.token_type in (
             TOKENS.INTEGER,
             TOKENS.FLOAT,
@@ -230,15 +242,19 @@ class Expression(object):
                 treeNode.value = treeNode.value[1:-1]
             if treeNode.value in variable_dict:
                 value = variable_dict[treeNode.value]
-                return self.interpret_value(value)
+                return self.interpret_value(value) if interpret else value
             return None
 
-        left = self.evaluate_recursive(treeNode.left, variable_dict)
+        # text is searched as it is, even when it looks like a number or a date
+        interpret = not (
+            treeNode.token_type == TOKENS.OPERATOR and treeNode.value in TEXT_OPERATORS
+        )
+        left = self.evaluate_recursive(treeNode.left, variable_dict, interpret)
 
         if treeNode.token_type == TOKENS.NOT:
             return not left
 
-        right = self.evaluate_recursive(treeNode.right, variable_dict)
+        right = self.evaluate_recursive(treeNode.right, variable_dict, interpret)
 
         if treeNode.token_type == TOKENS.OPERATOR:
             try:
-- 
2.43.0


From 896fc68f3cc2df9a468e79b013e4d5d44d35e5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:07 +0000
Subject: [PATCH 51/71] fix: GROUP BY a function with more than one parameter

The clause was cut at every comma, those between the parentheses of a
function too, so all of the records ended up in one group.
---
 mabel/data/readers/internals/sql_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 09f1f8b..72db1f4 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -301,7 +301,7 @@ def SqlReader(sql_statement: str, **kwargs):
 
         # convert the clause into something we can pass to GroupBy
         if sql.group_by:
-            groups = [group.strip() for group in sql.group_by.split(",") if group.strip() != ""]
+            groups = Evaluator(sql.group_by).fields()
         else:
             groups = ["*"]  # we're not really grouping
 
-- 
2.43.0


From 555f2f1cd9e209b9c7e1a3012800f204240558ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:10 +0000
Subject: [PATCH 52/71] fix: SELECT can swap names and use a column more than
 once

Renames were done one after the other, each taking away the column it
renamed, so `a, a AS x` lost a, `a AS b, b AS a` lost b, an aggregate
could only be selected once, and a rename which hid a column changed what
GROUP BY grouped.
---
 mabel/data/readers/internals/sql_reader.py | 54 +++++++++++++---------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 72db1f4..7bd1c94 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -267,6 +267,29 @@ def SqlReader(sql_statement: str, **kwargs):
     elif sql.select_expression != "*":
         actual_select = sql.select_expression + ", *"
 
+    grouping = sql.group_by or any(
+        [t["type"] == TOKENS.AGGREGATOR for t in sql.select_evaluator.tokens]  # type:ignore
+    )
+    if grouping:
+        # convert the clause into something we can pass to GroupBy
+        groups = ["*"]  # we're not really grouping
+        if sql.group_by:
+            group_evaluator = Evaluator(sql.group_by)
+            groups = group_evaluator.fields()
+            # we group what was read, so have the functions evaluated as it is read, and
+            # leave the renames which would hide a column we group by until later
+            reading = [g for g in group_evaluator.tokens if g["type"] == TOKENS.FUNCTION]
+            reading += [
+                t
+                for t in sql.select_evaluator.tokens  # type:ignore
+                if t["type"] == TOKENS.FUNCTION
+                or (t["type"] == TOKENS.VARIABLE and t["as"] and t["as"] not in groups)
+            ]
+            actual_select = ", ".join(
+                [get_function_name(t) + (f" AS {t['as']}" if t["as"] else "") for t in reading]
+                + ["*"]
+            )
+
     reducer = None
     if sql.select_expression == "COUNT(*)":
         reducer = lambda x: {"*": "*"}
@@ -294,25 +317,13 @@ def SqlReader(sql_statement: str, **kwargs):
         )
 
     # GROUP BY clause
-    if sql.group_by or any(
-        [t["type"] == TOKENS.AGGREGATOR for t in sql.select_evaluator.tokens]  # type:ignore
-    ):
+    if grouping:
         from ...internals.group_by import GroupBy
 
-        # convert the clause into something we can pass to GroupBy
-        if sql.group_by:
-            groups = Evaluator(sql.group_by).fields()
-        else:
-            groups = ["*"]  # we're not really grouping
-
         aggregations = []
-        renames = []
         for t in sql.select_evaluator.tokens:  # type:ignore
             if t["type"] == TOKENS.AGGREGATOR:
                 aggregations.append((t["value"], t["parameters"][0]["value"]))
-                if t["as"]:
-                    t["raw"] = get_function_name(t)
-                    renames.append(t)
             elif t["type"] == TOKENS.VARIABLE and t["value"] not in groups:
                 raise InvalidSqlError(
                     "Invalid SQL - SELECT clause in a statement with a GROUP BY clause must be made of aggregations or items from the GROUP BY clause."
@@ -332,16 +343,17 @@ def SqlReader(sql_statement: str, **kwargs):
         reader = reader.filter(sql.having)
 
     # SELECT clause
-    renames = {}  # type:ignore
-    for t in sql.select_evaluator.tokens:  # type:ignore
-        if t["as"]:
-            renames[get_function_name(t)] = t["as"]
+    # columns and functions were renamed as they were read, what has been aggregated
+    # since then has not; the renames may swap names or use a column more than once
+    renames = [  # type:ignore
+        (get_function_name(t), t["as"])
+        for t in sql.select_evaluator.tokens  # type:ignore
+        if t["as"] and (grouping or t["type"] not in (TOKENS.VARIABLE, TOKENS.FUNCTION))
+    ]
 
     def _perform_renames(row):
-        for k, v in [(k, v) for k, v in row.items()]:
-            if k in renames:
-                row[renames[k]] = row.pop(k, row.get(renames[k]))
-        return row
+        renamed = {new: row[old] for old, new in renames if old in row}
+        return {**row, **renamed}
 
     if renames:
         reader = DictSet(map(_perform_renames, reader))
-- 
2.43.0


From 47ce705b864c925d05ad731ca8a3574c929bfe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:23 +0000
Subject: [PATCH 53/71] =?UTF-8?q?fix:=20a=20SQL=20LIMIT=20of=20characters?=
 =?UTF-8?q?=20like=20=C2=B2=20is=20refused?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

isdigit is true for characters int cannot convert, so the statement failed
with a ValueError and not the InvalidSqlError of other malformed limits.
---
 mabel/data/readers/internals/sql_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 7bd1c94..fdf2be9 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -224,7 +224,7 @@ class SqlParser:
             elif labeler.peek().upper() == "LIMIT":
                 labeler.next()
                 limit = self.collector(labeler)
-                if not limit.isdigit():
+                if not limit.isdecimal():
                     raise InvalidSqlError(f"Malformed LIMIT clause - `{limit}` is not a number.")
                 self.limit = int(limit)
             else:
-- 
2.43.0


From a634b7120a44234e2abc89157f1e6a7bb15d65ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:40 +0000
Subject: [PATCH 54/71] fix: DATE, TIME, HOUR, MINUTE, SECOND and DAYSDIFF take
 dates without a time

The functions failed for the dates which parquet has (dropping the rest of
the blob) as they only worked for values with a time.
---
 .../readers/internals/inline_functions.py     | 46 ++++++++++---------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 145e709..b973e90 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -14,6 +14,17 @@ from orso.cityhash import CityHash64
 from mabel.utils.dates import parse_iso
 
 
+def as_datetime(value):
+    """
+    The date and time of text or of a date (which is its midnight), None for the rest
+    """
+    if isinstance(value, (str, datetime.date)) and not isinstance(value, datetime.datetime):
+        value = parse_iso(value)
+    if isinstance(value, datetime.datetime):
+        return value
+    return None
+
+
 def get_year(input):
     """
     Convert input to a datetime object and extract the Year part
@@ -51,9 +62,8 @@ def get_date(input):
     """
     Convert input to a datetime object and extract the Date part
     """
-    if isinstance(input, str):
-        input = parse_iso(input)
-    if isinstance(input, (datetime.date, datetime.datetime)):
+    input = as_datetime(input)
+    if input is not None:
         return input.date()
     return None
 
@@ -62,9 +72,8 @@ def get_time(input):
     """
     Convert input to a datetime object and extract the Time part
     """
-    if isinstance(input, str):
-        input = parse_iso(input)
-    if isinstance(input, (datetime.date, datetime.datetime)):
+    input = as_datetime(input)
+    if input is not None:
         return input.time()
     return None
 
@@ -84,9 +93,8 @@ def get_hour(input):
     """
     Convert input to a datetime object and extract the Hour part
     """
-    if isinstance(input, str):
-        input = parse_iso(input)
-    if isinstance(input, (datetime.date, datetime.datetime)):
+    input = as_datetime(input)
+    if input is not None:
         return input.hour
     return None
 
@@ -95,9 +103,8 @@ def get_minute(input):
     """
     Convert input to a datetime object and extract the Minute part
     """
-    if isinstance(input, str):
-        input = parse_iso(input)
-    if isinstance(input, (datetime.date, datetime.datetime)):
+    input = as_datetime(input)
+    if input is not None:
         return input.minute
     return None
 
@@ -106,9 +113,8 @@ def get_second(input):
     """
     Convert input to a datetime object and extract the Seconds part
     """
-    if isinstance(input, str):
-        input = parse_iso(input)
-    if isinstance(input, (datetime.date, datetime.datetime)):
+    input = as_datetime(input)
+    if input is not None:
         return input.second
     return None
 
@@ -161,13 +167,9 @@ def add_days(start_date, day_count):
 
 
 def diff_days(start_date, end_date):
-    if isinstance(start_date, str):
-        start_date = parse_iso(start_date)
-    if isinstance(end_date, str):
-        end_date = parse_iso(end_date)
-    if isinstance(start_date, (datetime.date, datetime.datetime)) and isinstance(
-        end_date, (datetime.date, datetime.datetime)
-    ):
+    start_date = as_datetime(start_date)
+    end_date = as_datetime(end_date)
+    if start_date is not None and end_date is not None:
         return (end_date - start_date).days
     return None
 
-- 
2.43.0


From b7203e2d3b389439e0b596b42e2316c053b5392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:40 +0000
Subject: [PATCH 55/71] fix: INTEGER and TRUNC keep all of the digits of whole
 numbers

Numbers went through a float, so large whole numbers, such as identifiers,
came out as other numbers.
---
 .../data/readers/internals/inline_functions.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index b973e90..ba194f2 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -183,6 +183,20 @@ def parse_number(parser, coerce):
     return inner
 
 
+def exact_number(val):
+    """
+    Whole numbers are kept as they are, as floats can't hold all of the larger ones
+    """
+    if isinstance(val, int):
+        return val
+    if isinstance(val, str):
+        try:
+            return int(val)
+        except ValueError:
+            pass
+    return float(val)
+
+
 def get_md5(item):
     import hashlib
 
@@ -218,8 +232,8 @@ FUNCTIONS = {
     "CONCAT": concat,
     # NUMBERS
     "ROUND": round,
-    "TRUNC": parse_number(float, trunc),
-    "INTEGER": parse_number(float, int),
+    "TRUNC": parse_number(exact_number, trunc),
+    "INTEGER": parse_number(exact_number, int),
     "DOUBLE": parse_number(float, float),
     # BOOLEAN
     "BOOLEAN": lambda x: str(x).upper() != "FALSE",
-- 
2.43.0


From 59017db236b12b5e21d8bae186a88dbcabab0f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:01 +0000
Subject: [PATCH 56/71] fix: literals in a select expression take the name they
 are given

`1 AS one` was called `1` by Reader, and SQL didn't return TRUE, FALSE and
NULL at all.
---
 .../readers/internals/inline_evaluator.py     |  5 ++--
 mabel/data/readers/internals/sql_reader.py    | 25 +++++++++----------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index 2a11504..d146e51 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -72,7 +72,8 @@ def get_fields(tokens):
                 TOKENS.LITERAL,
                 TOKENS.DATE,
                 TOKENS.FLOAT,
-                TOKENS.DATE,
+                TOKENS.BOOLEAN,
+                TOKENS.NULL,
             ):
                 if token["as"]:
                     yield token["as"]
@@ -244,7 +245,7 @@ class Evaluator:
                 builder = dic.copy()
         for field in self.tokens:
             (k, v) = evaluate_field(dic, field)
-            builder[k] = v
+            builder[field["as"] or k] = v
         return builder
 
     def __iter__(self):
diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index fdf2be9..d29b63c 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -272,23 +272,22 @@ def SqlReader(sql_statement: str, **kwargs):
     )
     if grouping:
         # convert the clause into something we can pass to GroupBy
-        groups = ["*"]  # we're not really grouping
+        groups, reading = ["*"], []  # we're not really grouping
         if sql.group_by:
             group_evaluator = Evaluator(sql.group_by)
             groups = group_evaluator.fields()
-            # we group what was read, so have the functions evaluated as it is read, and
-            # leave the renames which would hide a column we group by until later
             reading = [g for g in group_evaluator.tokens if g["type"] == TOKENS.FUNCTION]
-            reading += [
-                t
-                for t in sql.select_evaluator.tokens  # type:ignore
-                if t["type"] == TOKENS.FUNCTION
-                or (t["type"] == TOKENS.VARIABLE and t["as"] and t["as"] not in groups)
-            ]
-            actual_select = ", ".join(
-                [get_function_name(t) + (f" AS {t['as']}" if t["as"] else "") for t in reading]
-                + ["*"]
-            )
+        # we group what was read, so have the functions evaluated as it is read, and
+        # leave the renames which would hide a column we group by until later
+        reading += [
+            t
+            for t in sql.select_evaluator.tokens  # type:ignore
+            if t["type"] == TOKENS.FUNCTION
+            or (t["type"] == TOKENS.VARIABLE and t["as"] and t["as"] not in groups)
+        ]
+        actual_select = ", ".join(
+            [get_function_name(t) + (f" AS {t['as']}" if t["as"] else "") for t in reading] + ["*"]
+        )
 
     reducer = None
     if sql.select_expression == "COUNT(*)":
-- 
2.43.0


From 64d52e83d72077aff40014cbf75e451e9c7c4a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 57/71] fix: * in a select expression doesn't add a column
 called *

Selecting * together with a function gave each record a column '*' with
the value '*', as well as the columns it has.
---
 mabel/data/readers/internals/inline_evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index d146e51..df2311d 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -244,6 +244,8 @@ class Evaluator:
             else:
                 builder = dic.copy()
         for field in self.tokens:
+            if field["type"] == TOKENS.EVERYTHING:
+                continue
             (k, v) = evaluate_field(dic, field)
             builder[field["as"] or k] = v
         return builder
-- 
2.43.0


From 315b0ddb2b5761bb55248402df9ccb07e5d93749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:06 +0000
Subject: [PATCH 58/71] fix: parse_iso only accepts digits where a date has
 digits

int also accepts spaces and underscores, so text like '2020-01- 1' or
'2_20-01-01' was taken for a date.
---
 mabel/utils/dates.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mabel/utils/dates.py b/mabel/utils/dates.py
index f280d0f..7d79cb6 100644
--- a/mabel/utils/dates.py
+++ b/mabel/utils/dates.py
@@ -40,6 +40,13 @@ def parse_delta(delta: str) -> datetime.timedelta:
     return datetime.timedelta(seconds=0)
 
 
+def _digits(text: str) -> int:
+    # int on its own also accepts spaces, signs and underscores
+    if not (text.isascii() and text.isdigit()):
+        raise ValueError("not a number")
+    return int(text)
+
+
 def parse_iso(
     value: Union[str, int, float, datetime.datetime, datetime.date],
 ) -> Optional[datetime.datetime]:
@@ -96,7 +103,7 @@ def parse_iso(
                 return None
             if val_len == 10:
                 # YYYY-MM-DD
-                return datetime.datetime(*map(int, [value[:4], value[5:7], value[8:10]]))
+                return datetime.datetime(*map(_digits, [value[:4], value[5:7], value[8:10]]))
             if val_len >= 16:
                 if not (value[10] in ("T", " ") and value[13] in DATE_SEPARATORS):
                     return None
@@ -104,7 +111,7 @@ def parse_iso(
                     # YYYY-MM-DD HH:MM:SS
                     return datetime.datetime(
                         *map(  # type:ignore
-                            int,
+                            _digits,
                             [
                                 value[:4],  # YYYY
                                 value[5:7],  # MM
@@ -119,7 +126,7 @@ def parse_iso(
                     # YYYY-MM-DD HH:MM
                     return datetime.datetime(
                         *map(  # type:ignore
-                            int,
+                            _digits,
                             [
                                 value[:4],
                                 value[5:7],
-- 
2.43.0


From 034625eab2660904aad3a6ff3a6df7ac575188c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:06 +0000
Subject: [PATCH 59/71] fix: parse_iso understands numpy datetimes with
 nanoseconds

They came out as a number of nanoseconds which was then taken for a
timestamp in seconds, so the result was None or another time.
---
 mabel/utils/dates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/utils/dates.py b/mabel/utils/dates.py
index 7d79cb6..bf64c68 100644
--- a/mabel/utils/dates.py
+++ b/mabel/utils/dates.py
@@ -79,7 +79,8 @@ def parse_iso(
 
         if numpy:
             if isinstance(value, numpy.datetime64):
-                value = value.astype(datetime.datetime)
+                # Python has no nanoseconds, finer values would come out as an integer
+                value = value.astype("datetime64[us]").astype(datetime.datetime)
                 input_type = type(value)
 
         if hasattr(value, "to_pydatetime"):
-- 
2.43.0


From 71e4357104d4522f40bdcb89ec4512298629d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:44 +0000
Subject: [PATCH 60/71] fix: a dataset whose last name has a dot in it is a
 folder like any other

---
 mabel/adapters/google/google_cloud_storage_reader.py | 2 +-
 mabel/adapters/minio/minio_reader.py                 | 2 +-
 mabel/data/writers/internals/base_inner_writer.py    | 2 +-
 mabel/data/writers/writer.py                         | 2 +-
 mabel/utils/paths.py                                 | 5 +++--
 5 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/mabel/adapters/google/google_cloud_storage_reader.py b/mabel/adapters/google/google_cloud_storage_reader.py
index 4f5d735..1d1d3b8 100644
--- a/mabel/adapters/google/google_cloud_storage_reader.py
+++ b/mabel/adapters/google/google_cloud_storage_reader.py
@@ -37,7 +37,7 @@ class GoogleCloudStorageReader(BaseInnerReader):
         return stream
 
     def get_blobs_at_path(self, path):
-        bucket, object_path, name, extension = paths.get_parts(path)
+        bucket, object_path, name, extension = paths.get_parts(f"{path}/")
 
         # this means we're testing
         if os.environ.get("STORAGE_EMULATOR_HOST") is not None:
diff --git a/mabel/adapters/minio/minio_reader.py b/mabel/adapters/minio/minio_reader.py
index 20c41ce..f4a37c8 100644
--- a/mabel/adapters/minio/minio_reader.py
+++ b/mabel/adapters/minio/minio_reader.py
@@ -33,7 +33,7 @@ class MinIoReader(BaseInnerReader):
         self.minio = Minio(end_point, access_key, secret_key, secure=secure)
 
     def get_blobs_at_path(self, path):
-        bucket, object_path, _, _ = paths.get_parts(path)
+        bucket, object_path, _, _ = paths.get_parts(f"{path}/")
         blobs = self.minio.list_objects(bucket_name=bucket, prefix=object_path, recursive=True)
 
         yield from [
diff --git a/mabel/data/writers/internals/base_inner_writer.py b/mabel/data/writers/internals/base_inner_writer.py
index 0b0f26b..7bebfb4 100644
--- a/mabel/data/writers/internals/base_inner_writer.py
+++ b/mabel/data/writers/internals/base_inner_writer.py
@@ -21,7 +21,7 @@ BLOB_SEQUENCE = itertools.count()
 class BaseInnerWriter(abc.ABC):
     def __init__(self, **kwargs):
         dataset = kwargs.get("dataset")
-        self.bucket, path, _, _ = paths.get_parts(dataset)
+        self.bucket, path, _, _ = paths.get_parts(f"{dataset}/")
 
         if self.bucket == "/":
             self.bucket = ""
diff --git a/mabel/data/writers/writer.py b/mabel/data/writers/writer.py
index 8b6d217..b17dc3a 100644
--- a/mabel/data/writers/writer.py
+++ b/mabel/data/writers/writer.py
@@ -94,7 +94,7 @@ class Writer:
             self.dataset_template += "/" + "/".join(partitions)
             self.date_partitions = None
 
-        self.dataset = paths.build_path(self.dataset_template, self.batch_date)
+        self.dataset = paths.build_path(self.dataset_template + "/", self.batch_date)
 
         # add the values to kwargs
         # kwargs["raw_path"] = True  # we've just added the dates
diff --git a/mabel/utils/paths.py b/mabel/utils/paths.py
index 4e923c9..5c604b8 100644
--- a/mabel/utils/paths.py
+++ b/mabel/utils/paths.py
@@ -21,8 +21,9 @@ def get_parts(path_string: str):
         parts = "partitions"  # type:ignore
         stem = None
         suffix = None
-    elif path.suffix == "":
-        parts = pathlib.PurePosixPath("/".join(path.parts[1:-1])) / path.stem  # type:ignore
+    elif path.suffix == "" or str(path_string).endswith("/"):
+        # a trailing / says it's a folder, even when there's a dot in its name
+        parts = pathlib.PurePosixPath("/".join(path.parts[1:-1])) / path.name  # type:ignore
         stem = None
         suffix = None
     else:
-- 
2.43.0


From a4bea3e39461fde0bb889d870a0a12a9f72763e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:12 +0000
Subject: [PATCH 61/71] fix: read csv blobs with fields longer than 128K
 characters

---
 mabel/data/readers/internals/decompressors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index a1d504d..213d32f 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -75,4 +75,6 @@ def csv(stream):
     import csv
     import io
 
+    # by default long fields are refused, taking the rest of the file with them
+    csv.field_size_limit(2**31 - 1)
     yield from csv.DictReader(io.StringIO(stream.read().decode("utf8"), newline=""))
-- 
2.43.0


From d04da2e16f4d75c140e657a2781be8d4c87b0873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:37 +0000
Subject: [PATCH 62/71] fix: folders of the dataset itself aren't taken for
 partitions or frames

---
 .../readers/internals/base_inner_reader.py    | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 595434c..ad52d7a 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -102,11 +102,15 @@ class BaseInnerReader(abc.ABC):
                 # so we don't want to include in when reading
                 cycle_blobs = [blob for blob in cycle_blobs if "BACKOUT" not in blob.split("/")]
 
+                # The folders of the dataset itself aren't partitions or frames
+                root = f"{cycle_path.as_posix()}/"
+                inside = lambda blob: blob[len(root) :] if blob.startswith(root) else blob
+
                 # The partitions are stored in folders with the prefix 'by_', as in,
                 # partitioned **by** field name
                 list_of_partitions = {
-                    self._extract_by(blob) for blob in cycle_blobs if "/by_" in blob
-                }
+                    self._extract_by(inside(blob)) for blob in cycle_blobs if "/by_" in blob
+                } - {None}
 
                 # If we've been provided a partition_filter search hint, try to use this
                 # first to prune data
@@ -165,7 +169,8 @@ class BaseInnerReader(abc.ABC):
                     partitioned_folders = {""}
                 else:
                     partitioned_folders = {
-                        safe_get_next(blob.split("/"), chosen_partition) for blob in cycle_blobs
+                        safe_get_next(inside(blob).split("/"), chosen_partition)
+                        for blob in cycle_blobs
                     }
 
                 for partitioned_folder in partitioned_folders:
@@ -173,13 +178,16 @@ class BaseInnerReader(abc.ABC):
                         blob
                         for blob in cycle_blobs
                         if chosen_partition == ""
-                        or safe_get_next(blob.split("/"), chosen_partition) == partitioned_folder
+                        or safe_get_next(inside(blob).split("/"), chosen_partition)
+                        == partitioned_folder
                     ]
 
                     # Work out if there's an as_at part
                     as_ats = {
-                        self._extract_as_at(blob) for blob in partitioned_blobs if "as_at_" in blob
-                    }
+                        self._extract_as_at(inside(blob))
+                        for blob in partitioned_blobs
+                        if "as_at_" in blob
+                    } - {""}
                     if as_ats:
                         as_ats = sorted(as_ats)
                         as_at = as_ats.pop()
-- 
2.43.0


From 01e8165de8f0397fc4e7e52ab1ce8473591f733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:04 +0000
Subject: [PATCH 63/71] fix: a StreamWriter applies the expectations it is
 given

---
 mabel/data/writers/stream_writer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index 9220999..c3b9d90 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -113,9 +113,14 @@ class StreamWriter(Writer):
         if hasattr(record, "dump_model"):
             record = record.dump_model()
 
-        elif self.schema:
+        elif self.schema or self.expectations:
             try:
-                self.schema.validate(record)
+                if self.expectations:
+                    import data_expectations as de  # type: ignore
+
+                    de.evaluate_record(self.expectations, record)
+                if self.schema:
+                    self.schema.validate(record)
             except Exception as e:
                 identity += "/BACKOUT/"
                 get_logger().warning(
-- 
2.43.0


From 4b277f1e6b06bd8eda01ca6d685a4b7c9c78cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:07 +0000
Subject: [PATCH 64/71] fix: a comment in a SQL statement separates the words
 around it

---
 mabel/data/readers/internals/sql_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index d29b63c..a58f249 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -106,7 +106,7 @@ class SqlParser:
             # if the 2nd group (capturing comments) is not None,
             # it means we have captured a non-quoted (real) comment string.
             if match.group(2) is not None:
-                return ""  # so we will return empty to remove the comment
+                return " "  # a comment separates what is before it from what is after it
             else:  # otherwise, we will return the 1st group
                 return match.group(1)  # captured quoted-string
 
-- 
2.43.0


From 14d282c2a8ca5f57b6bb361355eb24c07dda5f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:07 +0000
Subject: [PATCH 65/71] fix: the hash of a DictSet doesn't depend on the order
 of nested keys

---
 mabel/data/internals/dictset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 583f863..824dcf6 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -534,8 +534,9 @@ class DictSet(object):
         """
         # The seed is the mission duration of the Apollo 11 mission.
         #   703115 = 8 days, 3 hours, 18 minutes, 35 seconds
-        ordered = map(lambda record: dict(sorted(record.items())), iter(self._iterator))
-        serialized = map(orjson.dumps, ordered)
+        serialized = map(
+            lambda record: orjson.dumps(record, option=orjson.OPT_SORT_KEYS), iter(self._iterator)
+        )
         hashed = map(CityHash64, serialized)
         return reduce(lambda x, y: x ^ y, hashed, seed)
 
-- 
2.43.0


From 98d829e7d93538097e507ab18d46ee410498c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:07 +0000
Subject: [PATCH 66/71] fix: sample selects the portion of the records it is
 asked for

---
 mabel/data/internals/dictset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 824dcf6..ad2185f 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -142,10 +142,10 @@ class DictSet(object):
         """
 
         def inner_sampler(dictset):
-            selector = int(1 / fraction)
+            threshold = fraction * 65536
             for row in dictset:
                 random_value = int.from_bytes(os.urandom(2), "big")
-                if random_value % selector == 0:
+                if random_value < threshold:
                     yield row
 
         return DictSet(inner_sampler(iter(self._iterator)), storage_class=self.storage_class)
-- 
2.43.0


From a578695b1ccdd3b5a4587bf75afe4a4ab87a5606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:07 +0000
Subject: [PATCH 67/71] fix: types of columns without values and of DictSets
 which aren't persisted

---
 mabel/data/internals/dictset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index ad2185f..e43b6c0 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -185,13 +185,14 @@ class DictSet(object):
         )
 
     def types(self, number_of_rows: int = 100):
-        top = self.take(number_of_rows)
+        # hold the rows, we go over them more than once
+        top = DictSet(list(self.itake(number_of_rows)))
         response = {}
         for key in top.keys():
             key_type = {type(val).__name__ for val in top.collect_list(key) if val != None}
             if len(key_type) == 0:  # pragma: no cover
                 response[key] = "empty"
-            if len(key_type) == 1:
+            elif len(key_type) == 1:
                 response[key] = key_type.pop()
             elif sorted(key_type) == ["float", "int"]:
                 response[key] = "numeric"
-- 
2.43.0


From 3cbdb4879743b54f8c788479c0a70d5e4bdf5dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:54 +0000
Subject: [PATCH 68/71] fix: collect_list of a column without a name

---
 mabel/data/internals/dictset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index e43b6c0..0707f5d 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -166,7 +166,7 @@ class DictSet(object):
                 else:
                     yield l.as_dict()
 
-        if not key:
+        if key is None:
             return list(asdic(iter(self._iterator)))
         return [record[key] for record in iter(self._iterator) if key in record]
 
-- 
2.43.0


From 76c1e20f2849702c0c8b06129a203f42a713dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:18 +0000
Subject: [PATCH 69/71] fix: collect_set removes duplicates of records with
 lists and objects in them

---
 mabel/data/internals/collected_set.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mabel/data/internals/collected_set.py b/mabel/data/internals/collected_set.py
index 831f48e..31f6680 100644
--- a/mabel/data/internals/collected_set.py
+++ b/mabel/data/internals/collected_set.py
@@ -32,9 +32,7 @@ class CollectedSet:
             key = my_item.pop(column, None)
             collections.setdefault(key, []).append(my_item)
         if dedupe:
-            collections = {
-                k: {frozenset(i.items()): i for i in v}.values() for k, v in collections.items()
-            }
+            collections = {k: list(DictSet(v).distinct()) for k, v in collections.items()}
 
         self._collections = collections
 
-- 
2.43.0


From 9dc77529edbcd8c82ac2c2a432cc2de055d415d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:05 +0000
Subject: [PATCH 70/71] fix: datasets with frame.complete in their name can be
 read

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index ad52d7a..3f9808e 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -223,7 +223,7 @@ class BaseInnerReader(abc.ABC):
                             partitioned_blobs = [
                                 blob
                                 for blob in partitioned_blobs
-                                if (f"/{as_at}/" in blob) and ("/frame.complete" not in blob)
+                                if (f"/{as_at}/" in blob) and not blob.endswith("/frame.complete")
                             ]
 
                     blobs += partitioned_blobs
-- 
2.43.0


From 47c82c30361c4ddc280c866b700a5a8277180d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:27 +0000
Subject: [PATCH 71/71] fix: error reports number the lines of code as the file
 does, and end when an error is its own cause

---
 mabel/errors/render_error_stack.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mabel/errors/render_error_stack.py b/mabel/errors/render_error_stack.py
index 2b3aa5b..6ffb389 100644
--- a/mabel/errors/render_error_stack.py
+++ b/mabel/errors/render_error_stack.py
@@ -69,8 +69,10 @@ def _build_error_stack():
 
     stacks = []
     is_cause = False
+    seen = set()  # an exception can be its own cause
 
-    while True:
+    while id(exc_value) not in seen:
+        seen.add(id(exc_value))
         stack = Stack(exc_type=str(exc_type.__name__), exc_value=str(exc_value), is_cause=is_cause)
 
         stacks.append(stack)
@@ -122,8 +124,9 @@ def _read_from_code(filename: str, line: int, extend_by: int) -> Generator:
         with open(filename, "rt", encoding="utf-8") as code_file:
             code = code_file.read()
 
-        lines = code.splitlines()
-        start_line = max(line - extend_by, 0)
+        # not splitlines, which has more line ends than Python's line numbers
+        lines = code.split("\n")
+        start_line = max(line - extend_by, 1)
         end_line = min(line + extend_by + 1, len(lines) + 1)
 
         path = pathlib.Path(filename)
-- 
2.43.0

