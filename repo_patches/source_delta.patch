From 912965b4700576ba53f273a07c71474db00956e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 01/51] fix: use at least one worker process on a single-CPU
 machine

With cpu_count() == 1 the number of workers became 0, no process consumed
the jobs and collecting the results blocked forever.
---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 616e9a0..9e02907 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -85,7 +85,7 @@ class Paralleler(object):
 
     def __init__(self, workers=0, **kwargs):
         # the number of CPU cores used by the program
-        self.workers = workers if 0 < workers < mp.cpu_count() else mp.cpu_count()-1
+        self.workers = workers if 0 < workers < mp.cpu_count() else max(1, mp.cpu_count()-1)
         # add other possible arguments to the `__dict__` of the class
         self.__dict__.update(kwargs)
         # set default tmpdir
-- 
2.43.0


From 1a2996ea8a653039eb3821642d71c151d92db710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 02/51] fix: raise when a worker process failed instead of
 hanging or dropping its share

A worker that raised or was killed never put its results in the result queue:
item frequencies, tokens and dependencies blocked forever on the missing
result, collocates silently returned the counts of the other workers only.
---
 nephosem/core/handler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 9e02907..0b042fb 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -148,6 +148,12 @@ class Paralleler(object):
         for worker in workers:
             worker.join()
 
+        # a worker that failed did not deliver (all of) its results
+        failed = [worker.exitcode for worker in workers if worker.exitcode != 0]
+        if failed:
+            raise RuntimeError("{} of {} worker processes failed (exit codes: {})!".format(
+                len(failed), len(workers), failed))
+
         # merge results of different sub-processes
         result = self._process_results(res_queue, n=len(fnames))
         
-- 
2.43.0


From 6166fabcf9c346a2c1421937c04a18f6595c94e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 03/51] fix: read all results of the token workers

Idle workers put an extra result in the queue, so that reading only as many
results as there are files lost the tokens of the workers finishing last.
---
 nephosem/models/typetoken.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index b16b9de..f0b4b48 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -644,7 +644,8 @@ class TokenHandler(BaseHandler):
         type2toks = defaultdict(list)
         logger.info("Merging results")
 
-        for _ in trange(n):
+        # a worker without any job still sends its dict, so there may be more than n results
+        for _ in trange(res_queue.qsize()):
             res = res_queue.get()
             # when data in res_queue is a `type2toks` dict
             if isinstance(res, dict):
-- 
2.43.0


From 70540e7019f702e6c781962a95fe78a4f0cd02d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 04/51] fix: count the collocates of the last words of a short
 article

In an article with at most right-span words, the updates needed to move the
first word to the centre were counted against the words still to process, so
that the last word(s) were never treated as target.
---
 nephosem/models/typetoken.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index f0b4b48..adc0a0e 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -433,10 +433,9 @@ class ColFreqHandler(BaseHandler):
             while win.node is None and i < win.right_span:
                 win.update(None)
                 i += 1
-            while win.node and i < win.right_span:
+            while win.node:
                 self.update_one_match(matrix, win)
                 win.update(None)
-                i += 1
             return
 
         # normal cases:
-- 
2.43.0


From 6612cf036caac2c1458cb9dc9ebbddf7e5b6e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 05/51] fix: allow right-span 0 when retrieving tokens

The right window is empty then and win.right[-1] raised an IndexError at
every separator that follows an empty window.
---
 nephosem/models/typetoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index adc0a0e..4e1c038 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -623,7 +623,7 @@ class TokenHandler(BaseHandler):
         # handle special cases:
         # [None, ..., None] None [None, .., match, match, .., match]
         # TODO: check                                           ^ must be not None???
-        if win.node is None and win.right[-1] is not None:
+        if win.node is None and win.right and win.right[-1] is not None:
             # update at most right_span times
             while win.node is None:
                 win.update(None)
-- 
2.43.0


From cc7e767a18d643595952536938ecb5bf96ae0ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 06/51] fix: do not require output-path when tmp-path is not
 set

The condition was inverted: without either setting the handler looked up the
missing output-path and raised a KeyError.
---
 nephosem/core/handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 0b042fb..349c03f 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -261,8 +261,8 @@ class BaseHandler(Paralleler):
         if 'tmp-path' not in self.settings:
             # if 'tmp-path' is not set in the settings
             logger.warning("Not provide the temporary path!")
-            if 'output-path' not in self.settings:
-                # if 'output-path' is not set in the settings, use /output-path/tmp
+            if 'output-path' in self.settings:
+                # if 'output-path' is set in the settings, use /output-path/tmp
                 _tmpdir = os.path.join(self.settings['output-path'], 'tmp')
                 logger.warning("Use a sub tmp directory of the output-path: '/output-path/tmp'!")
             else:
-- 
2.43.0


From fce5a786e5da98707e9997ba60012a1cfdf63d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 07/51] fix: do not empty ~/tmp when a handler is constructed

~/tmp is also the default output directory and is shared by all sessions of a
user: constructing a handler deleted results and the temporary files of
builds still running.
---
 nephosem/core/handler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 349c03f..f35ba0c 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -42,7 +42,7 @@ import multiprocessing as mp
 import nephosem
 from nephosem import progbar, trange
 from nephosem.core.terms import CorpusFormatter, Window
-from nephosem.utils import read_fnames, read_fnames_of_corpus, make_dir, clean_dir
+from nephosem.utils import read_fnames, read_fnames_of_corpus, make_dir
 
 logger = logging.getLogger(__name__)
 homedir = os.path.expanduser('~')
@@ -91,7 +91,6 @@ class Paralleler(object):
         # set default tmpdir
         self.tmpdir = nephosem.tmpdir
         make_dir(self.tmpdir)
-        clean_dir(self.tmpdir)
 
     @property
     def pid(self):
-- 
2.43.0


From 8d1107bde46e921fd1537db1a599caff4a3234be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 08/51] fix: make_dir no longer fails when another process
 creates the directory first

---
 nephosem/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index ad8cd8c..9fc42a3 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -85,9 +85,7 @@ def is_string(text):
 
 def make_dir(dirname):
     """Create directory if not exist."""
-    if not os.path.exists(dirname):
-        os.makedirs(dirname)
-    # os.makedirs(dirname, exist_ok=True)  # only for Python3
+    os.makedirs(dirname, exist_ok=True)
 
 
 def clean_dir(dirname):
-- 
2.43.0


From d5e4f3430390433c3dbacf0f482cdf588f257996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 09/51] fix: resolve base names in a .fnames file against the
 corpus path

The encoding was passed as the directory name, so base names were looked up
in a directory called 'utf-8'.
---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index f35ba0c..e1867ba 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -296,7 +296,7 @@ class BaseHandler(Paralleler):
                 pass  # do nothing, already a list of (string) file names
             elif isinstance(fnames, str):
                 # read file names recorded in the `fnames` ('xx.fnames') file
-                fnames = read_fnames(fnames, self.encoding)
+                fnames = read_fnames(fnames, dirname=self.corpus_path)
             else:
                 raise ValueError("Not support other types of 'fnames' (only str or a list of strings)!")
         if len(fnames) <= 0:
-- 
2.43.0


From a3c51f82d12e6d4e93bdffeb6dbbc4f878d6a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 10/51] fix: give every worker its own temporary folder

The folder was named after the pid only: a worker with a reused pid (or one
with the same pid on another machine sharing the directory) wrote into,
overwrote or lost its folder to another one.
---
 nephosem/core/handler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index e1867ba..88fcc4e 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -36,6 +36,7 @@ except ImportError:
 import codecs
 import logging
 import os
+import tempfile
 from copy import deepcopy
 import multiprocessing as mp
 
@@ -100,10 +101,11 @@ class Paralleler(object):
     def subtmpdir(self):
         """When the class is instanced in a subprocess, a temporary folder for this subprocess
         will be created for its temporary files.
+        The pid alone does not identify a process (pids are reused, and the temporary directory
+        may be shared by several machines), so a new folder is created every time.
         """
-        subtmpdir = os.path.join(self.tmpdir, str(self.pid))
-        make_dir(subtmpdir)  # create the folder if not exist
-        return subtmpdir
+        make_dir(self.tmpdir)  # create the folder if not exist
+        return tempfile.mkdtemp(prefix='{}.'.format(self.pid), dir=self.tmpdir)
 
     def process(self, fnames, **kwargs):
         """Process files in the fnames list.
-- 
2.43.0


From 5096321d5a52bfd85f4992974b216079b8c29890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 11/51] fix: retrieve_tokens no longer repeats the tokens of
 earlier calls

The worker processes started from the tokens found by the previous call on
the same handler, so every worker returned those again.
---
 nephosem/models/typetoken.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 4e1c038..d8226ec 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -523,6 +523,9 @@ class TokenHandler(BaseHandler):
         """
         fnames = self.prepare_fnames(fnames)
         logger.info("Scanning tokens of queries in corpus...")
+        # start without tokens, the handler may have been used before
+        self.type2toks = {w: TypeNode(type_str=w, type_fmt=self.formatter.type_format)
+                          for w in self.type2toks}
         res = self.process(fnames)
         self.type2toks = res
         logger.info("Creating matrix...")
-- 
2.43.0


From d84b9b63ee5e9dcf82031582f8ad2dd7ae1006c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 12/51] fix: build_dependency no longer counts the matches of
 earlier calls

Matches of a previous (or failed) call on the same handler stayed in the
macros and were counted again, once more for every corpus file.
---
 nephosem/models/deprel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 0fa64e8..d14c0e4 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -138,6 +138,10 @@ class DepRelHandler(BaseHandler):
         """
         fnames = self.prepare_fnames(fnames)
         logger.info("Building dependency features...")
+        # start without matches, the handler may have been used before
+        for macro in self.macros:
+            macro.matched_nodes = []
+            macro.matched_edges = []
         _res = self.process(fnames)
 
         logger.info("Building matrix...")
-- 
2.43.0


From d4889fdfe693b9bc51e68f255fb94270f3d93159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 13/51] fix: without targets, match all targets

When no targets are given the filter is an empty vocabulary, which rejected
every match although all targets should be processed.
---
 nephosem/specutils/deputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index e00daba..aa3e9a3 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -247,7 +247,7 @@ def add_match(sentence, lmatches, macro):
         # remap feature node to sentence node label (type)
         matched_nodes = {fn: sentence.nodes[sn] for fn, sn in nodemapping.items()}
         # if the target filter is given, check whether the matched target node appear in the target filter
-        if macro.target_filter is not None:
+        if macro.target_filter:
             target_node_dict = matched_nodes[macro.target_idx]
             # example of target_node_dict: {'FORM': 'Het', 'LEMMA': 'het', 'POS': 'det'}
             vals = [target_node_dict[attr] for attr, _idx in macro.target_node_attrs.items() if attr not in ['FID', 'LID', 'fid', 'lid']]
-- 
2.43.0


From cf76466755b36777a336adb497c15cec8b132dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 14/51] fix: skip empty sentences

Two successive separator lines yielded an empty sentence, for which
SentenceGraph raises a ValueError.
---
 nephosem/models/deprel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index d14c0e4..06077cb 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -305,7 +305,8 @@ def read_sentence(filename, formatter=None, encoding='utf-8'):
                 sentence.append((lid, line))  # add line index
             # if line.startswith(end_bound):  # end of a sentence
             if formatter.separator_line_machine(line):
-                yield sentence
+                if len(sentence) > 0:  # e.g. two successive separator lines
+                    yield sentence
                 sentence = []
         if len(sentence) > 0:  # if file does not end with a '</s' line
             yield sentence
-- 
2.43.0


From 3380b6390b2b7d28d6e4302ca4fbccfce9d27ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 15/51] fix: TypeNode.sample

It always raised a ValueError, because type_fmt is not set for a TypeNode
made from a type string (its format is), and asking for more tokens than
there are raised as well, although the default is 300.
---
 nephosem/core/terms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index ce1679a..3d3f88a 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -252,13 +252,14 @@ class TypeNode(ItemNode):
         -------
         A new TypeNode object
         """
+        n = min(n, self.freq)  # select all tokens if there are not that many
         if method == 'random':
             sample_indices = set(random.sample(range(self.freq), n))
             sample_tokens = [h for i, h in enumerate(self.tokens) if i in sample_indices]
         else:  # RETRIEVAL_METHOD_FIRST assumed
             sample_tokens = self.tokens[:n]
 
-        wn = TypeNode(type_str=self.type, type_fmt=self.type_fmt, tokens=sample_tokens)
+        wn = TypeNode(type_str=self.type, type_fmt=self.format, tokens=sample_tokens)
         return wn
 
     @classmethod
-- 
2.43.0


From f605f85900ccc346a6313b584c62da4d16e7a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 16/51] fix: keep the previous vocabulary file when saving
 fails

The file was truncated before writing: an item that cannot be encoded, a full
disk or a killed process left a truncated file in place of the old one.
---
 nephosem/utils.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 9fc42a3..ec6378f 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -33,6 +33,8 @@ import operator
 import shutil
 import json
 import logging
+import uuid
+from contextlib import contextmanager
 from functools import wraps
 
 import numpy as np
@@ -103,6 +105,30 @@ def clean_dir(dirname):
             logger.exception(e)
 
 
+@contextmanager
+def replace_file(filename, mode='wb', encoding=None):
+    """Open a temporary file for writing which replaces `filename` when it is completely written.
+    If anything goes wrong, `filename` is left as it was.
+
+    Parameters
+    ----------
+    filename : str
+    mode : str
+        'wb', or 'w' with an encoding
+    encoding : str, optional
+    """
+    filename = os.path.realpath(filename)
+    tmp_fname = '{}.{}.tmp'.format(filename, uuid.uuid4().hex[:8])
+    try:
+        with codecs.open(tmp_fname, mode, encoding) as fout:
+            yield fout
+        os.replace(tmp_fname, filename)
+    except BaseException:
+        if os.path.exists(tmp_fname):
+            os.remove(tmp_fname)
+        raise
+
+
 def sizeof(filename, suffix='B'):
     num = os.path.getsize(filename)
     return sizeof_fmt(num, suffix=suffix)
@@ -217,7 +243,7 @@ def sort_dict(freq_dict, sorting='freq', descending=True):
 
 def save_dict_json(freq_dict, filename, encoding='utf-8'):
     """Save frequency dict to json file."""
-    with codecs.open(filename, 'w', encoding) as fout:
+    with replace_file(filename, 'w', encoding) as fout:
         json.dump(freq_dict, fout, ensure_ascii=False, indent=4)
         # ensure_ascii = False : show human readable characters in file.
 
@@ -235,7 +261,7 @@ def save_dict_plain(freq_dict, filename, encoding='utf-8', order='freq'):
         'freq', 'alpha'
 
     """
-    with codecs.open(filename, 'w', encoding) as fout:
+    with replace_file(filename, 'w', encoding) as fout:
         if len(freq_dict.keys()) == 0:
             return
         if order not in ['freq', 'alpha']:
-- 
2.43.0


From be3270b5b1df6ff55309827479db31610e2ef894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 17/51] fix: a matrix saved unpacked as 'xx.pac' can be loaded
 under that name

load() strips the extension in both cases, save() did so only when packing.
---
 nephosem/core/matrix.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 9ee1bf9..a29a506 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1320,16 +1320,11 @@ class TypeTokenMatrix(BaseMatrix):
         meta_data.update(self.meta_data)
 
         basename, ext = os.path.splitext(filename)
-        if pack:
-            if ext != '.pac':
-                # filename: '/xxx/BrownNouns.wcmx.freq'
-                # not provide '.pac', then assume filename is a base name
-                basename = filename
-                filename = '{}.pac'.format(basename)
-        else:
-            # assume filename is a base name
+        if ext != '.pac':
             # filename: '/xxx/BrownNouns.wcmx.freq'
+            # not provide '.pac', then assume filename is a base name
             basename = filename
+        filename = '{}.pac'.format(basename)
 
         meta_fname = "{}.meta".format(basename)
         if verbose:
-- 
2.43.0


From 1e2a4dcecbf5cfe221d78d94716d8d947aa3dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 18/51] fix: save sparse matrices of any format

The arrays of a csc matrix were stored as they are and read back as those of
a csr matrix, i.e. as another matrix; other formats raised after the old file
was overwritten.
---
 nephosem/core/matrix.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index a29a506..c60b4f3 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1335,12 +1335,13 @@ class TypeTokenMatrix(BaseMatrix):
             json.dump(meta_data, outf, ensure_ascii=False, indent=4)
 
         if isinstance(self.matrix, sp.spmatrix):
+            matrix = self.matrix.tocsr()  # loaded as a csr matrix
             mx_fname = "{}.npz".format(basename)
             np.savez(mx_fname,
-                     data=self.matrix.data,
-                     indices=self.matrix.indices,
-                     indptr=self.matrix.indptr,
-                     shape=self.matrix.shape)
+                     data=matrix.data,
+                     indices=matrix.indices,
+                     indptr=matrix.indptr,
+                     shape=matrix.shape)
         elif isinstance(self.matrix, np.ndarray):
             mx_fname = "{}.npy".format(basename)
             np.save(mx_fname, self.matrix)
-- 
2.43.0


From 66f2e766b78a8aed27c8dfa6f255b72fb65b2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 19/51] fix: a failed save of a matrix keeps the old one

Meta data and values were written over the old files one after the other, and
a packed save did so next to the package and removed them afterwards: a crash
or an I/O error in between mixed the labels of one matrix with the values of
another, left a truncated package, and saving packed destroyed a matrix saved
unpacked under that name. Also remove the .npz (.npy) file of an earlier
matrix when saving a dense (sparse) one, since load() would prefer it.
---
 nephosem/core/matrix.py | 50 +++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index c60b4f3..521fdb9 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -56,7 +56,7 @@ import scipy.sparse as sp
 
 from nephosem.specutils import mxutils
 # import transform_spmatrix_to_dict, transform_dict_to_spmatrix, get_largest_k, get_smallest_k, centroid_of_cluster
-from nephosem.utils import is_string
+from nephosem.utils import is_string, replace_file
 
 __all__ = ['TypeTokenMatrix']
 
@@ -1330,37 +1330,53 @@ class TypeTokenMatrix(BaseMatrix):
         if verbose:
             logger.info("\nSaving matrix...")
 
-        # save meta data
-        with codecs.open(meta_fname, 'w', encoding) as outf:
-            json.dump(meta_data, outf, ensure_ascii=False, indent=4)
-
+        meta_bytes = json.dumps(meta_data, ensure_ascii=False, indent=4).encode(encoding)
         if isinstance(self.matrix, sp.spmatrix):
             matrix = self.matrix.tocsr()  # loaded as a csr matrix
             mx_fname = "{}.npz".format(basename)
-            np.savez(mx_fname,
-                     data=matrix.data,
-                     indices=matrix.indices,
-                     indptr=matrix.indptr,
-                     shape=matrix.shape)
+            other_fname = "{}.npy".format(basename)
         elif isinstance(self.matrix, np.ndarray):
+            matrix = self.matrix
             mx_fname = "{}.npy".format(basename)
-            np.save(mx_fname, self.matrix)
+            other_fname = "{}.npz".format(basename)
         else:
             raise ValueError
 
-        # package these two files into one named as filename
+        # The existing files are only replaced when everything is written,
+        # so that a save that fails does not leave a mixture of two matrices.
         if pack:
-            with zipfile.ZipFile(filename, 'w', allowZip64=True) as inf:
-                inf.write(meta_fname, os.path.basename(meta_fname))
-                inf.write(mx_fname, os.path.basename(mx_fname))
-            os.remove(meta_fname)
-            os.remove(mx_fname)
+            # package meta data and matrix into one file
+            with replace_file(filename) as outf:
+                with zipfile.ZipFile(outf, 'w', allowZip64=True) as zf:
+                    zf.writestr(os.path.basename(meta_fname), meta_bytes)
+                    with zf.open(os.path.basename(mx_fname), 'w', force_zip64=True) as mxf:
+                        self._write_matrix(mxf, matrix)
             if verbose:
                 print("Stored in file:\n  {}".format(filename))
         else:
+            with replace_file(meta_fname) as outf:
+                outf.write(meta_bytes)
+                with replace_file(mx_fname) as mxf:
+                    self._write_matrix(mxf, matrix)
+                    # without its meta data, the old matrix cannot be taken for the new one
+                    if os.path.exists(meta_fname):
+                        os.remove(meta_fname)
+                if os.path.exists(other_fname):
+                    os.remove(other_fname)
             if verbose:
                 print("Stored in files:\n  {}\n  {}".format(meta_fname, mx_fname))
 
+    @staticmethod
+    def _write_matrix(outf, matrix):
+        if isinstance(matrix, sp.spmatrix):
+            np.savez(outf,
+                     data=matrix.data,
+                     indices=matrix.indices,
+                     indptr=matrix.indptr,
+                     shape=matrix.shape)
+        else:
+            np.save(outf, matrix)
+
     @classmethod
     def load(cls, filename, encoding='utf-8', pack=True):
         """
-- 
2.43.0


From d0f8f3e5da6fefc7c7347da4cb7e5a260df841af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 20/51] fix: loading a packed matrix does not write anything

The package was extracted next to itself and the extracted files were removed
afterwards: this failed in a read-only directory, destroyed a matrix saved
unpacked under the same name, and failed or returned another matrix when two
processes loaded (or saved) in the directory at the same time.
---
 nephosem/core/matrix.py | 59 +++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 521fdb9..dad3037 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -35,6 +35,7 @@ Construct a TypeTokenMatrix with a Python dict e.g.
 """
 
 import codecs
+import io
 import json
 import logging
 import os
@@ -1377,6 +1378,13 @@ class TypeTokenMatrix(BaseMatrix):
         else:
             np.save(outf, matrix)
 
+    @staticmethod
+    def _read_matrix(file, issparse):
+        if not issparse:
+            return np.load(file)
+        with np.load(file) as mx:
+            return sp.csr_matrix((mx['data'], mx['indices'], mx['indptr']), shape=mx['shape'])
+
     @classmethod
     def load(cls, filename, encoding='utf-8', pack=True):
         """
@@ -1397,40 +1405,33 @@ class TypeTokenMatrix(BaseMatrix):
         if ext != '.pac':
             basename = filename
         if pack:
-            zip_fname = "{}.pac".format(basename)
-            dest_dir = os.path.dirname(zip_fname)
-            with zipfile.ZipFile(zip_fname) as zf:
-                zf.extractall(dest_dir)
-
-        meta_fname = "{}.meta".format(basename)
-        sp_fname = "{}.npz".format(basename)
-        np_fname = "{}.npy".format(basename)
-        issparse = True
-        if os.path.exists(sp_fname):
-            mx_fname = sp_fname
-        elif os.path.exists(np_fname):
-            mx_fname = np_fname
-            issparse = False
+            # read from the package, without unpacking it next to it
+            with zipfile.ZipFile("{}.pac".format(basename)) as zf:
+                members = {os.path.splitext(name)[1]: name for name in zf.namelist()}
+                ext = '.npz' if '.npz' in members else '.npy'
+                if '.meta' not in members or ext not in members:
+                    raise ValueError("No such matrix file!")
+                meta_data = json.loads(zf.read(members['.meta']).decode(encoding))
+                matrix = cls._read_matrix(io.BytesIO(zf.read(members[ext])), ext == '.npz')
         else:
-            raise ValueError("No such matrix file!")
+            meta_fname = "{}.meta".format(basename)
+            sp_fname = "{}.npz".format(basename)
+            np_fname = "{}.npy".format(basename)
+            if os.path.exists(sp_fname):
+                mx_fname = sp_fname
+            elif os.path.exists(np_fname):
+                mx_fname = np_fname
+            else:
+                raise ValueError("No such matrix file!")
 
-        # TODO: check passed encoding with the encoding in meta data
-        # load meta data
-        with codecs.open(meta_fname, 'r', encoding) as inf:
-            meta_data = json.load(inf)
+            # TODO: check passed encoding with the encoding in meta data
+            # load meta data
+            with codecs.open(meta_fname, 'r', encoding) as inf:
+                meta_data = json.load(inf)
+            matrix = cls._read_matrix(mx_fname, mx_fname == sp_fname)
         if meta_data is None:
             raise(AttributeError("Matrix meta data load error!"))
 
-        # load matrix
-        matrix = np.load(mx_fname)
-        if issparse:
-            matrix = sp.csr_matrix((matrix['data'], matrix['indices'], matrix['indptr']), shape=matrix['shape'])
-
-        # clean files
-        if pack:
-            os.remove(meta_fname)
-            os.remove(mx_fname)
-
         return TypeTokenMatrix(matrix, meta_data['row_items'], meta_data['col_items'], deep=False)
 
     def describe(self):
-- 
2.43.0


From 6c6d6e297af4e0590f31fd96cd88e2f7e9e0b84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 21/51] fix: CBC uses at least one process on a single-CPU
 machine

With cpu_count() == 1 Pool(processes=0) raised, the error was swallowed and the
clustering came back empty.
---
 nephosem/models/cbc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index beeff6c..abd233a 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -143,7 +143,7 @@ class CBC(object):
         self.score_metric = score_metric
         self.highest_score = highest_score
         self.num_iter = num_iter
-        self.workers = workers if workers > 0 else cpu_count() - 1
+        self.workers = workers if workers > 0 else max(1, cpu_count() - 1)
 
     def cluster(self, num_eles=-1, multicore=True):
         """Main method of Cluster by Committee.
@@ -246,7 +246,7 @@ def major_steps(cbc, eles=None, multicore=True):
 
     # step 1
     logger.info("\nstep 1 ...")
-    num_workers = cpu_count() - 1
+    num_workers = max(1, cpu_count() - 1)
     args = (eles,)
     kwargs = {
         'distmx': distmx, 'k': cbc.k,
@@ -306,7 +306,7 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
     distmx_fname = os.path.join(tmpdir, 'distmx')
     distmx.save(distmx_fname, pack=False)
 
-    num_cores = cpu_count() - 1
+    num_cores = max(1, cpu_count() - 1)
     num_eles = len(elements)
     data_group = [[] for _ in range(num_cores)]
     for i in range(num_eles):
-- 
2.43.0


From bfe39118cc0d589821bb2e36f1720305cdd9db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 22/51] fix: multi-core CBC gives the result of single-core CBC

Every task wrote its clusters to L/<pid>, so when one pool worker took two tasks
the second overwrote the first. The files were merged in directory order and
the elements dealt out round-robin, which changed the order of equally scored
clusters and with it the committees. Errors in the tasks were dropped. Take the
results from the pool, in the order of the elements.
---
 nephosem/models/cbc.py | 39 +++++++++------------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index abd233a..c25ca1b 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -292,7 +292,6 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
                         score_metric='without_size', highest_score=False):
     """
     ~/.cbc/.10933/
-                 /L/  : folder for temporary L(s)
                  /distmx.meta
                  /distmx.npy
     """
@@ -300,20 +299,17 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
     tmpdir = os.path.join(homedir, '.cbc', '{}'.format(datetime.datetime.now().strftime("%Y.%m.%d.%H.%M")))
     make_dir(tmpdir)
     clean_dir(tmpdir)
-    L_tmpdir = os.path.join(tmpdir, 'L')
-    make_dir(L_tmpdir)
-    clean_dir(L_tmpdir)
     distmx_fname = os.path.join(tmpdir, 'distmx')
     distmx.save(distmx_fname, pack=False)
 
     num_cores = max(1, cpu_count() - 1)
+    # consecutive parts of the elements, so that the merged results are in the order of the elements
     num_eles = len(elements)
-    data_group = [[] for _ in range(num_cores)]
-    for i in range(num_eles):
-        idx = i % num_cores
-        data_group[idx].append(elements[i])
+    bounds = [i * num_eles // num_cores for i in range(num_cores + 1)]
+    data_group = [elements[bounds[i]:bounds[i+1]] for i in range(num_cores)]
 
     pool = Pool(processes=num_cores)
+    results = []
     for i in range(num_cores):
         args = (data_group[i], tmpdir,)
         kwargs = {
@@ -321,26 +317,17 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
             'prune_method': prune_method, 't': t,
             'score_metric': score_metric, 'highest_score': highest_score,
         }
-        try:
-            pool.apply_async(cbc_step1_call, args=args, kwds=kwargs)
-        except Exception as err:
-            logger.exception("Error:", err)
+        results.append(pool.apply_async(cbc_step1_call, args=args, kwds=kwargs))
     pool.close()
     pool.join()
 
-    # merge results
+    # merge results (get() raises the error of a failed sub-process)
     L = []
-    for fname in os.listdir(L_tmpdir):
-        fname = os.path.join(L_tmpdir, fname)
-        # load json results of sub-processes L(s)
-        with codecs.open(fname, 'r') as inf:
-            procL = json.load(inf)
-        L.extend(procL)
-        os.remove(fname)
+    for result in results:
+        L.extend(result.get())
     try:
         os.remove(distmx_fname + '.meta')
         os.remove(distmx_fname + '.npy')
-        os.rmdir(L_tmpdir)
         os.rmdir(tmpdir)
     except Exception as err:
         logger.exception("clean tmp folder error: {}".format(err))
@@ -354,11 +341,7 @@ def cbc_step1_call(elements, tmpdir_proc, k=100,
     # print(pid, len(elements), tmpdir_proc, k, prune_method, t, score_metric, highest_score)
     # load distance matrix inside tmp directory
     tmp_distmx_fname = os.path.join(tmpdir_proc, 'distmx')
-    try:
-        distmx = TypeTokenMatrix.load(tmp_distmx_fname, pack=False)
-    except Exception as err:
-        logger.exception("Matrix load error: ".format(err))
-        return []
+    distmx = TypeTokenMatrix.load(tmp_distmx_fname, pack=False)
     logger.info("Starting subprocess {}...".format(pid))
 
     L = []
@@ -380,10 +363,6 @@ def cbc_step1_call(elements, tmpdir_proc, k=100,
             logger.exception("Cannot find highest scoring cluster for element: {}\nError: {}".format(e, err))
         L.extend(clusters)
 
-    tmp_proc_fname = os.path.join(tmpdir_proc, 'L', '{}'.format(pid))
-    with codecs.open(tmp_proc_fname, 'w') as outf:
-        json.dump(L, outf, ensure_ascii=False, indent=4)
-
     return L
 
 
-- 
2.43.0


From 8142d2758c6e5179fe745e4429ae5bdbe0f4533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 23/51] fix: give every multi-core CBC its own temporary folder

The folder was named after the current minute and emptied first, so two
clusterings started in the same minute deleted or used each other's distances.
---
 nephosem/models/cbc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index c25ca1b..8ba2664 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -38,6 +38,7 @@ import logging
 import math
 import operator
 import os
+import tempfile
 from collections import defaultdict
 from copy import deepcopy
 from multiprocessing import cpu_count, Pool
@@ -51,7 +52,7 @@ from nephosem import progbar
 from nephosem.core.matrix import TypeTokenMatrix
 from nephosem.specutils.mxcalc import calc_association, calc_distance
 from nephosem.specutils.mxutils import centroid_of_cluster, sum_of_cluster
-from nephosem.utils import make_dir, clean_dir
+from nephosem.utils import make_dir
 
 __all__ = ['CBC']
 
@@ -296,9 +297,10 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
                  /distmx.npy
     """
     homedir = os.path.expanduser('~')
-    tmpdir = os.path.join(homedir, '.cbc', '{}'.format(datetime.datetime.now().strftime("%Y.%m.%d.%H.%M")))
-    make_dir(tmpdir)
-    clean_dir(tmpdir)
+    make_dir(os.path.join(homedir, '.cbc'))
+    # a folder of its own: other clusterings may run at the same time
+    tmpdir = tempfile.mkdtemp(prefix=datetime.datetime.now().strftime("%Y.%m.%d.%H.%M."),
+                              dir=os.path.join(homedir, '.cbc'))
     distmx_fname = os.path.join(tmpdir, 'distmx')
     distmx.save(distmx_fname, pack=False)
 
-- 
2.43.0


From 87223decdc331acc02f23c841ebf3581080673ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 24/51] fix: CBC.cluster raises instead of returning no
 residues on an error

An error in a recursion was logged and turned into 'no committees, no residues',
which looks like a finished clustering. Not finding any committee is not an
error.
---
 nephosem/models/cbc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 8ba2664..c80ac84 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -188,7 +188,7 @@ class CBC(object):
                 curC, curR = major_steps(self, eles=residues, multicore=multicore)
             except Exception as err:
                 logger.exception(err)
-                curC, curR = [], []
+                raise
 
             Cs.append(curC)
             Rs.append(curR)
@@ -462,10 +462,12 @@ def cbc_step2(L, elements=None, freqmx=None, ppmimx=None, theta=0.35):
         A tuple of merged (with singletons) committees (element strings) and committee matrix.
     """
     if not L or len(L) <= 0:
-        return L
+        return [], None
 
     # clean clusters
     committees, singletons = clean_clusters(L)
+    if len(committees) <= 0:
+        return [], None
 
     # transform cluster elements from str to int
     e2id = {e: i for i, e in enumerate(elements)}
-- 
2.43.0


From 4409bd127dc7c3e4045afda8f958a30af6afefec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:42 +0000
Subject: [PATCH 25/51] fix: restore nested objects when SaveLoad.save fails

When storing a part of an object failed, the attributes already set aside in
its nested objects stayed deleted.
---
 nephosem/utils.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index ec6378f..e5fe43d 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -700,21 +700,22 @@ class SaveLoad(object):
                 elif isinstance(val, sparse_matrices) and val.nnz >= sep_limit:
                     separately.append(attrib)
 
-        # whatever's in `separately` or `ignore` at this point won't get pickled
-        for attrib in separately + list(ignore):
-            if hasattr(self, attrib):
-                asides[attrib] = getattr(self, attrib)
-                delattr(self, attrib)
-
         recursive_saveloads = []
         restores = []
-        for attrib, val in iteritems(self.__dict__):
-            if hasattr(val, '_save_specials'):  # better than 'isinstance(val, SaveLoad)' if IPython reloading
-                recursive_saveloads.append(attrib)
-                cfname = '.'.join((fname, attrib))
-                restores.extend(val._save_specials(cfname, None, sep_limit, ignore, pickle_protocol, compress, subname))
-
         try:
+            # whatever's in `separately` or `ignore` at this point won't get pickled
+            for attrib in separately + list(ignore):
+                if hasattr(self, attrib):
+                    asides[attrib] = getattr(self, attrib)
+                    delattr(self, attrib)
+
+            for attrib, val in iteritems(self.__dict__):
+                if hasattr(val, '_save_specials'):  # better than 'isinstance(val, SaveLoad)' if IPython reloading
+                    recursive_saveloads.append(attrib)
+                    cfname = '.'.join((fname, attrib))
+                    restores.extend(
+                        val._save_specials(cfname, None, sep_limit, ignore, pickle_protocol, compress, subname))
+
             numpys, scipys, ignoreds = [], [], []
             for attrib, val in iteritems(asides):
                 if isinstance(val, np.ndarray) and attrib not in ignore:
@@ -758,10 +759,11 @@ class SaveLoad(object):
             self.__dict__['__scipys'] = scipys
             self.__dict__['__ignoreds'] = ignoreds
             self.__dict__['__recursive_saveloads'] = recursive_saveloads
-        except Exception:
-            # restore the attributes if exception-interrupted
-            for attrib, val in iteritems(asides):
-                setattr(self, attrib, val)
+        except BaseException:
+            # restore the attributes (also those of nested objects) if exception-interrupted
+            for obj, obj_asides in restores + [(self, asides)]:
+                for attrib, val in iteritems(obj_asides):
+                    setattr(obj, attrib, val)
             raise
         return restores + [(self, asides)]
 
-- 
2.43.0


From ff5fa239e29b7373f6ca51075f94796f706ce99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 26/51] fix: an object saved to a handle does not refer to the
 files of an earlier save

The names of the attributes an earlier save had stored separately were pickled
along, so loading looked for files that do not belong to this save.
---
 nephosem/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index e5fe43d..ccfff98 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -796,6 +796,9 @@ class SaveLoad(object):
             Load object from file.
 
         """
+        # forget what an earlier save stored separately
+        for attrib in ('__numpys', '__scipys', '__ignoreds', '__recursive_saveloads'):
+            self.__dict__.pop(attrib, None)
         try:
             _pickle.dump(self, fname_or_handle, protocol=pickle_protocol)
             logger.info("saved %s object", self.__class__.__name__)
-- 
2.43.0


From 330029f7e09b2d021dbefec55b0c6457b083ec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 27/51] fix: separately saved object and 0-d arrays load back

Loading arrays of objects was refused and 0-d arrays came back with one
dimension.
---
 nephosem/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index ccfff98..426d707 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -575,9 +575,9 @@ class SaveLoad(object):
                 if mmap:
                     raise mmap_error(attrib, subname(fname, attrib))
 
-                val = np.load(subname(fname, attrib))['val']
+                val = np.load(subname(fname, attrib), allow_pickle=True)['val']
             else:
-                val = np.load(subname(fname, attrib), mmap_mode=mmap)
+                val = np.load(subname(fname, attrib), mmap_mode=mmap, allow_pickle=True)
 
             setattr(self, attrib, val)
 
@@ -723,9 +723,9 @@ class SaveLoad(object):
                     logger.info("storing np array '%s' to %s", attrib, subname(fname, attrib))
 
                     if compress:
-                        np.savez_compressed(subname(fname, attrib), val=np.ascontiguousarray(val))
+                        np.savez_compressed(subname(fname, attrib), val=np.asarray(val, order='C'))
                     else:
-                        np.save(subname(fname, attrib), np.ascontiguousarray(val))
+                        np.save(subname(fname, attrib), np.asarray(val, order='C'))
 
                 elif isinstance(val, (sp.csr_matrix, sp.csc_matrix)) and attrib not in ignore:
                     scipys.append(attrib)
-- 
2.43.0


From a69aed22f2aab9e6083d9870a9ca7f951a83fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 28/51] fix: attributes listed in separately that are no arrays
 are saved too

They were treated like ignored attributes and came back as None.
---
 nephosem/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 426d707..6369b97 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -699,6 +699,10 @@ class SaveLoad(object):
                     separately.append(attrib)
                 elif isinstance(val, sparse_matrices) and val.nnz >= sep_limit:
                     separately.append(attrib)
+        else:
+            # only arrays can be stored separately, everything else stays in the main file
+            separately = [attrib for attrib in separately
+                          if isinstance(getattr(self, attrib, None), (np.ndarray,) + sparse_matrices)]
 
         recursive_saveloads = []
         restores = []
-- 
2.43.0


From 1d87e474f05eff76c8dcec20f59f0c9f7fb6ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 29/51] fix: plain vocabulary files load back exactly

Frequencies like 1e-07 could not be read, and items lost white space at their
start (so the empty item was lost altogether).
---
 nephosem/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 6369b97..a8e131a 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -288,10 +288,14 @@ def load_dict_plain(filename, encoding='utf-8'):
     res_dict = dict()
     with codecs.open(filename, 'r', encoding) as fin:
         for line in fin:
-            pair = line.strip().split('\t')
+            # white space at the start of an item belongs to it
+            pair = line.rstrip('\r\n').split('\t')
             if len(pair) < 2:
                 continue
-            res_dict[pair[0]] = float(pair[1]) if '.' in pair[1] else int(pair[1])
+            try:
+                res_dict[pair[0]] = int(pair[1])
+            except ValueError:  # also '1e-07', which has no '.'
+                res_dict[pair[0]] = float(pair[1])
     return res_dict
 
 
-- 
2.43.0


From 5ff642ad11b7556a1fb7fa5ee02744a57b413fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 30/51] fix: raise when a corpus folder cannot be listed

os.walk ignores folders it cannot list, so a missing or unreadable corpus folder
was silently left out of the result.
---
 nephosem/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index a8e131a..addfaeb 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -192,8 +192,12 @@ def read_fnames_of_corpus(corpus_path):
     """
     # TODO: skip other files which are not corpus file in corpus_path folder.
     #       such as meta file of the corpus
+    def raise_error(err):
+        raise err
+
     fnames = []
-    for root, dirs, files in sorted(os.walk(corpus_path)):
+    # a folder that cannot be listed must not be left out silently
+    for root, dirs, files in sorted(os.walk(corpus_path, onerror=raise_error)):
         cur_fnames = [os.path.join(root, f) for f in files]
         fnames.extend(cur_fnames)
     return fnames
-- 
2.43.0


From 4739864c2523bc83c607ed07f7a0f06505fe3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 31/51] fix: raise when a corpus file ends in the middle of a
 character

codecs.open() silently ignores the bytes of an incomplete character at the
end of a file, so a truncated (e.g. UTF-16) corpus file was counted as if
it were complete.
---
 nephosem/core/handler.py     | 3 ++-
 nephosem/models/deprel.py    | 2 ++
 nephosem/models/typetoken.py | 3 ++-
 nephosem/utils.py            | 7 +++++++
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 88fcc4e..b0d0418 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -43,7 +43,7 @@ import multiprocessing as mp
 import nephosem
 from nephosem import progbar, trange
 from nephosem.core.terms import CorpusFormatter, Window
-from nephosem.utils import read_fnames, read_fnames_of_corpus, make_dir
+from nephosem.utils import read_fnames, read_fnames_of_corpus, make_dir, check_decoded
 
 logger = logging.getLogger(__name__)
 homedir = os.path.expanduser('~')
@@ -343,6 +343,7 @@ class BaseHandler(Paralleler):
                     win.update((match, lid))  # append the current match to the right window
                     # if it's a normal line, draws the type from the match
                     self.update_one_match(data, win, lid=lid, fid=fname)
+            check_decoded(fin, input_encoding)
         # deal with the final right window
         self.process_right_window(data, win, fid=fname)
 
diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 06077cb..373fb00 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -35,6 +35,7 @@ from nephosem.core.matrix import TypeTokenMatrix
 from nephosem.core.handler import BaseHandler
 from nephosem.core.graph import SentenceGraph, MacroGraph
 from nephosem.specutils import mxutils
+from nephosem.utils import check_decoded
 
 logger = logging.getLogger(__name__)
 homedir = os.path.expanduser('~')
@@ -308,5 +309,6 @@ def read_sentence(filename, formatter=None, encoding='utf-8'):
                 if len(sentence) > 0:  # e.g. two successive separator lines
                     yield sentence
                 sentence = []
+        check_decoded(fin, encoding)
         if len(sentence) > 0:  # if file does not end with a '</s' line
             yield sentence
diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index d8226ec..a522a2c 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -64,7 +64,7 @@ from nephosem.core.vocab import Vocab
 from nephosem.core.matrix import TypeTokenMatrix
 from nephosem.core.handler import BaseHandler
 from nephosem.specutils import mxcalc, mxutils
-from nephosem.utils import count_values
+from nephosem.utils import count_values, check_decoded
 
 __all__ = ['ItemFreqHandler', 'ColFreqHandler', 'TokenHandler', 'TypeToken']
 
@@ -164,6 +164,7 @@ class ItemFreqHandler(BaseHandler):
                 # when the current line is a normal (matche) line, draw the type string from the match object
                 item_str = self.formatter.get_type(match)
                 data.increment(item_str, 1)  # update the vocab
+            check_decoded(fin, self.input_encoding)
 
     def _process_results(self, res_queue, n=0):
         """Get all results (frequency dicts) from result queue,
diff --git a/nephosem/utils.py b/nephosem/utils.py
index addfaeb..5aa2f5d 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -278,6 +278,13 @@ def save_dict_plain(freq_dict, filename, encoding='utf-8', order='freq'):
             fout.write('{}\t{}\n'.format(key, value))
 
 
+def check_decoded(fin, encoding):
+    """Raise UnicodeDecodeError if a file, opened by `codecs.open` and read to its end,
+    ends in the middle of a character (the reader silently ignores such bytes).
+    """
+    fin.reader.bytebuffer.decode(encoding)
+
+
 def load_dict_json(filename, encoding='utf-8'):
     """Load dict from json file."""
     with codecs.open(filename, 'r', encoding) as fin:
-- 
2.43.0


From 25a4fb638bdc2293857a0ba767bb45c967e3327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:12 +0000
Subject: [PATCH 32/51] fix: a dense matrix of different row and column items
 may happen to be symmetric

---
 nephosem/core/matrix.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index dad3037..bcca18c 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -691,9 +691,8 @@ class TypeTokenMatrix(BaseMatrix):
         if isinstance(self.matrix, sp.spmatrix):
             self._mxbehavior = SparseMatrix(self.matrix)
         elif isinstance(self.matrix, np.ndarray):
-            if check_symmetric(self.matrix):
-                if self.row_items != self.col_items:
-                    raise ValueError("The row items and column items are not equal!")
+            # a matrix of different row and column items may happen to be symmetric
+            if check_symmetric(self.matrix) and self.row_items == self.col_items:
                 self._mxbehavior = SquareMatrix(self.matrix)
             else:
                 self._mxbehavior = NormalMatrix(self.matrix)
-- 
2.43.0


From e9ce0fe6abeb47fc3a088b1eb9b0cabf8d1f0981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:12 +0000
Subject: [PATCH 33/51] fix: select (or sample) only the rows or only the
 columns of a square matrix

---
 nephosem/core/matrix.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index bcca18c..60ff6d2 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -594,9 +594,8 @@ class SquareMatrix(BaseMatrix):
         -------
 
         """
-        submx = self.matrix[row]
-        submx = submx[:, col]
-        return submx
+        submx = self.matrix if row is None else self.matrix[row]
+        return submx if col is None else submx[:, col]
 
     def merge(self, *args):
         raise NotImplementedError
-- 
2.43.0


From 78c6d03c8ba93d8fca12ec71a6e5c618f24cdcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:25 +0000
Subject: [PATCH 34/51] fix: select (or sample) rows and columns of sparse
 matrices of any format

---
 nephosem/core/matrix.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 60ff6d2..20fce64 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -272,18 +272,20 @@ class SparseMatrix(BaseMatrix):
 
         """
         # TODO: may have problem with explicit zeros
+        # not all sparse formats support slicing
+        matrix = self.matrix if self.matrix.format in ('csr', 'csc', 'lil', 'dok') else self.matrix.tocsr()
         if row is not None:
             if col is not None:
                 # submatrix on both row and column
-                submx = self.matrix[row, :]
+                submx = matrix[row, :]
                 submx = submx[:, col]
                 # slicing on columns of a csc_matrix is faster (seems not)
                 # submx = submx.tocsc()
                 # submx = submx[:, col].tocsr()
             else:
-                submx = self.matrix[row, :]  # select rows
+                submx = matrix[row, :]  # select rows
         elif col is not None:
-            submx = self.matrix[:, col]
+            submx = matrix[:, col]
             # transform to csc?
             # no need, even slower than directly slicing it
             # submx = self.matrix.tocsc()
-- 
2.43.0


From d41910ede1bc8444d1f8e631726f2f897e17c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:25 +0000
Subject: [PATCH 35/51] fix: selecting appearances of words (select_subsets)
 used an undefined class

---
 nephosem/core/vocab.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/nephosem/core/vocab.py b/nephosem/core/vocab.py
index a76d0c3..63dcc46 100644
--- a/nephosem/core/vocab.py
+++ b/nephosem/core/vocab.py
@@ -51,6 +51,26 @@ __all__ = ['Vocab']
 logger = logging.getLogger(__name__)
 
 
+class WordDict(object):
+    """Appearances of a word selected by :func:`Vocab.select_subsets`.
+
+    Attributes
+    ----------
+    word : str
+    selected : set of int
+        Indices (1-based) of the selected appearances.
+    n_sel : int
+        Number of selected appearances.
+    n_found : int
+        Number of appearances already found in the corpus (selected or not).
+    """
+    def __init__(self, word):
+        self.word = word
+        self.selected = set()
+        self.n_sel = 0
+        self.n_found = 0
+
+
 class Vocab(object):
 
     def __init__(self, data=None, encoding='utf-8'):
-- 
2.43.0


From 2d1e3f548b8e107c81e0c2ce23ba972c342c34bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:45 +0000
Subject: [PATCH 36/51] fix: tell tokens of equally named files apart in
 dependency matrices

In token mode the file id of a token was the base name of the file, so that
tokens at the same line of files with the same name in different folders of
the corpus were counted as one token. Use the path relative to the corpus,
as the other handlers do.
---
 nephosem/models/deprel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 373fb00..f7d576d 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -258,11 +258,12 @@ class DepRelHandler(BaseHandler):
             2.2 so the matching should be a target-feature matching
             2.3 this is a way of speeding up the process when the targets are provided
         """
-        basename = os.path.basename(fname).rsplit('.', 1)[0]  # for filename in token
+        # for filename in token: files of the same name in different folders are different files
+        fid = os.path.splitext(os.path.relpath(fname, start=self.settings['corpus-path']))[0]
         # read each sentence from the corpus file
         sentences = read_sentence(fname, formatter=self.formatter, encoding=self.input_encoding)
         for s in sentences:
-            ss = SentenceGraph(sentence=s, formatter=self.formatter, fname=basename, mode=self.mode)
+            ss = SentenceGraph(sentence=s, formatter=self.formatter, fname=fid, mode=self.mode)
             if ss.istree:
                 for macro in macros:
                     ss.match_pattern(macro)
-- 
2.43.0


From e030774026505f20b00fb090046b2657b8ddff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 37/51] fix: raise when a configuration file cannot be read

ConfigParser.read() ignores a file that does not exist or that fails while it
is read, so that the default settings (or half of the file) were used silently.
---
 nephosem/conf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nephosem/conf.py b/nephosem/conf.py
index 0752841..9ab5ca1 100644
--- a/nephosem/conf.py
+++ b/nephosem/conf.py
@@ -82,7 +82,9 @@ class ConfigLoader(object):
         # ConfigParser parses INI files which are expected to be parsed case-insensitively
         # disable this behaviour by replacing the RawConfigParser.optionxform() function
         config.optionxform = str
-        config.read(config_file)
+        # `ConfigParser.read` would ignore a file it cannot (completely) read
+        with open(config_file) as inf:
+            config.read_file(inf)
         sections = config.sections()  # sections in config file -> [Corpus-Format], [Span], ...
 
         for sect in sections:
-- 
2.43.0


From 83b1264ec8d9c89b870899a4c57c95dd9733002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 38/51] fix: two processes importing the package at once raced
 for creating ~/tmp

---
 nephosem/logging.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/logging.py b/nephosem/logging.py
index f707522..8a1227f 100644
--- a/nephosem/logging.py
+++ b/nephosem/logging.py
@@ -119,8 +119,7 @@ def init_logging():
     # do not use system temporary folder, users might not have privilege.
     homedir = os.path.expanduser('~')
     tmpdir = os.path.join(homedir, 'tmp')
-    if not os.path.exists(tmpdir):
-        os.makedirs(tmpdir)
+    os.makedirs(tmpdir, exist_ok=True)  # another process may be creating it
 
     # create a file handler
     file_handler = logging.FileHandler('{}/nephosem.log'.format(tmpdir))  # ~/tmp/nephosem.log
-- 
2.43.0


From 8fc0e413c6cad5e291825a77d0b789f03f4af67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 39/51] fix: graphs of a graphml file with several tags on a
 line were dropped silently

The file was split line by line: a graph whose closing tag does not start a
line was merged with the next one, of which nothing remained.
---
 nephosem/core/graph.py | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index e09e67a..a7ffe35 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -545,32 +545,18 @@ class PatternGraph(DiGraph):
 
     @classmethod
     def read_graphml(cls, fname):
-        with open(fname) as fin:
-            graphs = []
-            header = []
-            ender = None
-            graphml = []
-            line = fin.readline()
-            while line:
-                sline = line.strip()
-                if sline.startswith('<graph') and not sline.startswith('<graphml'):
-                    break
-                header.append(line)
-                line = fin.readline()
-            while line:
-                sline = line.strip()
-                if sline.startswith('</graphml'):
-                    ender = line
-                    break
-                graphml.append(line)
-                if sline.startswith('</graph'):
-                    graphs.append(graphml)
-                    graphml = []
-                # start of a graph
-                line = fin.readline()
-        graphs = [''.join(header + gml + [ender]) for gml in graphs]
-
         doc = minidom.parse(fname)
+        # split it into graphml strings of one graph each, however the file is laid out
+        root = doc.documentElement
+        elements = [e for e in root.childNodes if e.nodeName == 'graph']
+        for element in elements:
+            root.removeChild(element)
+        graphs = []
+        for element in elements:
+            root.appendChild(element)
+            graphs.append(root.toxml())
+            root.removeChild(element)
+
         attrs = doc.getElementsByTagName('key')
         defaults = {}
         for attr in attrs:
-- 
2.43.0


From 75fef8915fe6f15b6ba512943b24a27326c22069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 40/51] fix: matrices could not be made from data frames (and
 csv files)

DataFrame.as_matrix was removed from pandas; `values` exists in all versions.
---
 nephosem/core/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 20fce64..a28cbbd 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1309,7 +1309,7 @@ class TypeTokenMatrix(BaseMatrix):
     def from_dataframe(cls, df, issparse=True):
         row_items = df.index.tolist()
         col_items = df.columns.tolist()
-        mx = df.as_matrix()
+        mx = df.values
         if issparse:
             mx = sp.csr_matrix(mx)
         return cls(mx, row_items, col_items)
-- 
2.43.0


From c571bd4976adcd93fc9c6a9be15211dafd66831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 41/51] fix: TokenVectorizer looked up the types in the matrix
 instead of the retrieved tokens

---
 nephosem/models/typetoken.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index a522a2c..840795e 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -851,7 +851,8 @@ class TokenVectorizer(object):
             query_dict.update(queries)
 
         tokhan = TokenHandler(Vocab(query_dict), settings=self.settings)
-        typenodes = tokhan.retrieve_tokens(fnames=fnames)
+        tokhan.retrieve_tokens(fnames=fnames)
+        typenodes = tokhan.type2toks
 
         self.concepts = dict()
         for concept, variants in self.concept_queries.items():
-- 
2.43.0


From d4110b117d6bec8e9400a9a643232730c1694a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:32 +0000
Subject: [PATCH 42/51] fix: sparse matrices had no data frame (and could not
 be exported as csv)

pandas.SparseDataFrame was removed from pandas.
---
 nephosem/core/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index a28cbbd..95176fd 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -153,7 +153,7 @@ class SparseMatrix(BaseMatrix):
 
     @property
     def dataframe(self):
-        return pd.SparseDataFrame(self.matrix).to_dense()
+        return pd.DataFrame(self.matrix.toarray())
 
     def __getitem__(self, arg):
         return self._get_value(arg)
-- 
2.43.0


From 5cd614220dd433da744350af9616d3f7697a2bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:25 +0000
Subject: [PATCH 43/51] fix: clustering without given association or distance
 matrices raised

---
 nephosem/models/cbc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index c80ac84..e3a0438 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -50,7 +50,8 @@ from sklearn.metrics.pairwise import cosine_similarity
 
 from nephosem import progbar
 from nephosem.core.matrix import TypeTokenMatrix
-from nephosem.specutils.mxcalc import calc_association, calc_distance
+from nephosem.core.vocab import Vocab
+from nephosem.specutils.mxcalc import compute_association, compute_distance
 from nephosem.specutils.mxutils import centroid_of_cluster, sum_of_cluster
 from nephosem.utils import make_dir
 
@@ -124,11 +125,11 @@ class CBC(object):
         # prepare matrices if not provided
         if measmx is None:
             print("calculating ppmi matrix...")
-            measmx = calc_association(freqmx, meas='ppmi')
+            measmx = compute_association(freqmx, nfreq=Vocab(freqmx.sum(axis=1)), cfreq=Vocab(freqmx.sum(axis=0)), meas='ppmi')
             print("done.")
         if distmx is None:
             print("calculating distance matrix...")
-            distmx = calc_distance(measmx)
+            distmx = compute_distance(measmx)
             print("done.")
 
         self.elements = elements
-- 
2.43.0


From 32e0ea8f7a3c15959458696a823c4fbcaa72936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:17 +0000
Subject: [PATCH 44/51] fix: row labels like '1990' or 'nan' came back from csv
 files as numbers

---
 nephosem/core/matrix.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 95176fd..931f93a 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1302,7 +1302,12 @@ class TypeTokenMatrix(BaseMatrix):
         encoding : str, default 'utf-8'
             Encoding to use for UTF when reading/writing (ex. ‘utf-8’).
         """
-        df = pd.read_csv(filename, sep=sep, index_col=index_col, header=header, encoding=encoding)
+        if isinstance(index_col, str) or (type(index_col) is int and index_col >= 0):
+            # row labels like '1990' or 'nan' are strings, too (converters do not work on index columns)
+            df = pd.read_csv(filename, sep=sep, header=header, encoding=encoding, converters={index_col: str})
+            df = df.set_index(index_col if isinstance(index_col, str) else df.columns[index_col])
+        else:
+            df = pd.read_csv(filename, sep=sep, index_col=index_col, header=header, encoding=encoding)
         return cls.from_dataframe(df, issparse=issparse)
 
     @classmethod
-- 
2.43.0


From ff266a7de78599a2b7981c9f70ff125a63dfd462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:33 +0000
Subject: [PATCH 45/51] fix: TypeNode.load could not load what TypeNode.save
 wrote

It passed the values to the wrong parameters and raised; the formats needed
to show the type and its tokens are now saved with them.
---
 nephosem/core/terms.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 3d3f88a..dfe0da9 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -223,8 +223,10 @@ class TypeNode(ItemNode):
         if verbose:
             print("Saving tokens of {}/{}".format(self.lemma, self.pos))
         data = dict()
+        data['word'] = self.word
         data['lemma'] = self.lemma
         data['pos'] = self.pos
+        data['type-format'] = self.format
         data['tokens'] = [tok.json_data for tok in self.tokens]
         with codecs.open(filename, 'w', encoding=encoding) as outf:
             json.dump(data, outf, indent=4)
@@ -236,7 +238,8 @@ class TypeNode(ItemNode):
         with codecs.open(filename, 'r', encoding=encoding) as inf:
             data = json.load(inf)
         tokens = [TokenNode.gen_token_from_json_data(tok) for tok in data['tokens']]
-        return cls(data['lemma'], data['pos'], tokens=tokens)
+        return cls(word=data.get('word'), lemma=data['lemma'], pos=data['pos'],
+                   type_fmt=data.get('type-format', 'lemma/pos'), tokens=tokens)
 
     def sample(self, n=300, method='random'):
         """Select n tokens/appearances from all.
@@ -389,6 +392,7 @@ class TokenNode(ItemNode):
         data['lemma'] = self.lemma
         data['fid'] = self.fid
         data['lid'] = self.lid
+        data['token-format'] = self.format
         # data['token'] = self.connector.join([self.word, self.pos, self.fid, str(self.lid)])
         data['left-collocates'] = [str(it) for it in self.lcollocs]
         data['right-collocates'] = [str(it) for it in self.rcollocs]
@@ -401,9 +405,14 @@ class TokenNode(ItemNode):
         lemma = json_data['lemma']
         fid = json_data['fid']
         lid = json_data['lid']
-        lcollocs = [ItemNode(item=col.split('\t')) for col in json_data['left-collocates']]
-        rcollocs = [ItemNode(item=col.split('\t')) for col in json_data['right-collocates']]
-        return cls(word, pos, lemma, fid, lid, lcollocs=lcollocs, rcollocs=rcollocs)
+        token_fmt = json_data.get('token-format', 'word/pos/fid/lid')
+        # see ItemNode.__str__()
+        lcollocs, rcollocs = [
+            [ItemNode(**dict(zip(('word', 'pos', 'lemma'), col.split('\t')))) for col in json_data[side]]
+            for side in ('left-collocates', 'right-collocates')
+        ]
+        return cls(word=word, pos=pos, lemma=lemma, fid=fid, lid=lid, token_fmt=token_fmt,
+                   lcollocs=lcollocs, rcollocs=rcollocs)
 
     def __str__(self):
         return self.token
-- 
2.43.0


From 7f9f804de34be1827d76d4a80a40161d9ba3c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:05 +0000
Subject: [PATCH 46/51] fix: token weights could not be computed with numpy
 1.24 and later

The alias np.bool is gone; it was for the builtin bool.
---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 5f52e36..6cb912a 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -506,7 +506,7 @@ def compute_token_weights(tcPositionMTX, twMTX, booleanize = True, tokenFormat='
     missing_types = []
     tokens = tcPositionMTX.row_items
     types = set(twMTX.row_items)  # set of target types
-    tcmx_type = np.bool if booleanize else tcPositionMTX.matrix.dtype
+    tcmx_type = bool if booleanize else tcPositionMTX.matrix.dtype
     bool_tcmx = tcPositionMTX.matrix.astype(tcmx_type, copy=True).toarray()
     twmx = twMTX.matrix.toarray()  # transform to dense matrix (numpy.ndarray)
     resmx = np.zeros(bool_tcmx.shape)
-- 
2.43.0


From c78cc3a4b91fe6d5147dd4ce72616a96c669bdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:05 +0000
Subject: [PATCH 47/51] fix: row (or column) sums of a matrix of one row (or
 column) raised

np.squeeze made a scalar of the only sum.
---
 nephosem/core/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 931f93a..c34bc85 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -866,7 +866,7 @@ class TypeTokenMatrix(BaseMatrix):
             return self.matrix.sum()
         items = self.row_items if axis == 1 else self.col_items
         # sum of each rows / columns of matrix (normally collocate frequency matrix)
-        sums = np.squeeze(np.asarray(self.matrix.sum(axis=axis))).tolist()
+        sums = np.asarray(self.matrix.sum(axis=axis)).ravel().tolist()
         freq_dict = {k: v for k, v in zip(items, sums)}
         return freq_dict
 
-- 
2.43.0


From 03014e9aca18361130153788dc44680ddb9bb836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 48/51] fix: token vectors by multiplication ignored every
 non-zero factor

The test for zeros skipped the products of two non-zero values and
multiplied by the zeros, so every component came out as 0 or 1.
---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 6cb912a..37796e5 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -615,7 +615,7 @@ def dot_multiplication(mtx_l, mtx_r):
     for i in range(m):
         for k in range(n):
             for j in range(mtx_l.shape[1]):
-                if mtx_l[i, j] == 0.0 or mtx_r[j, k]:
+                if mtx_l[i, j] == 0.0 or mtx_r[j, k] == 0.0:
                     continue
                 product_mtx[i, k] *= mtx_l[i, j] * mtx_r[j, k]
     return product_mtx
-- 
2.43.0


From f77e63bb11d468dc17ba8f04f724cd45d68ccbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:23 +0000
Subject: [PATCH 49/51] fix: a list of file names or queries ending in the
 middle of a character was read as if complete

---
 nephosem/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 5aa2f5d..d8d6dca 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -169,6 +169,7 @@ def read_fnames(filename, dirname='', encoding='utf-8'):
                 if len(line) <= 0 or line.startswith('#'):
                     continue
                 fnames.append(line)
+            check_decoded(inf, encoding)
     except IOError as e:
         raise IOError("Cannot read filenames!\n{}".format(e))
 
@@ -475,6 +476,7 @@ def read_word_queries(fname, encoding='utf-8', wquery_default_key='_DEFAULT_'):
                     if item[wquery_default_key] is None:
                         item[wquery_default_key] = item_word_str
                 retval.append(item)
+        check_decoded(inf, encoding)
     return retval
 
 
-- 
2.43.0


From e27ac97742b54090c4f8a23b29a15d4f8c24dfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:44 +0000
Subject: [PATCH 50/51] fix: console log shows messages with their arguments
 filled in

---
 nephosem/logging.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nephosem/logging.py b/nephosem/logging.py
index 8a1227f..3259320 100644
--- a/nephosem/logging.py
+++ b/nephosem/logging.py
@@ -40,13 +40,13 @@ __all__ = ['DefaultFormatter']
 class DefaultFormatter(logging.Formatter):
     """This class inherits `logging.Formatter` and is used for setting the format of a handler."""
 
-    err_fmt = "ERROR: %(msg)s"
-    wrn_fmt = "WARNING: %(msg)s"
-    dbg_fmt = "DEBUG: %(module)s: %(lineno)d: %(msg)s"
-    info_fmt = "%(msg)s"
+    err_fmt = "ERROR: %(message)s"
+    wrn_fmt = "WARNING: %(message)s"
+    dbg_fmt = "DEBUG: %(module)s: %(lineno)d: %(message)s"
+    info_fmt = "%(message)s"
 
     def __init__(self):
-        fmt_ = "%(levelno)d: %(msg)s"
+        fmt_ = "%(levelno)d: %(message)s"
         if _python_version < 3:
             super(DefaultFormatter, self).__init__(fmt_)
         else:
-- 
2.43.0


From 71cbcc8b0545772ef7c16fed2d6008942f71dcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:21 +0000
Subject: [PATCH 51/51] fix: the message about a sentence that is not a tree
 could not be formatted and was lost

---
 nephosem/specutils/deputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index aa3e9a3..1e0b698 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -174,7 +174,7 @@ def tree_match(sentence, macro):
     try:
         assert sentence.istree
     except Exception as err:
-        logger.error(err, str(sentence.fid))
+        logger.error("Sentence of {} is not a tree. {}".format(sentence.fid, err))
         return False
 
     num_curr_matches = len(macro.matched_nodes)
-- 
2.43.0

