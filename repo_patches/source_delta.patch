From c7c0e172b45740e3e38849f0f5a1b67a61cded09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 01/39] fix: store shear factors and corner radius of beam
 sections as floats, not integers

---
 freesif/sequentialparser/parsers.py | 42 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index a1b33bd..bfe8b7f 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1009,8 +1009,8 @@ class GBOX_rec(tb.IsDescription):
     t_b = tb.Float32Col(pos=3)
     tt = tb.Float32Col(pos=4)
     by = tb.Float32Col(pos=5)
-    sfy = tb.Int32Col(pos=6)
-    sfz = tb.Int32Col(pos=7)
+    sfy = tb.Float32Col(pos=6)
+    sfz = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
 
@@ -1026,8 +1026,8 @@ class GCHAN_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     empty = tb.Int32Col(pos=7)
     k = tb.Int32Col(pos=8)
     nloby = tb.Int32Col(pos=9)
@@ -1045,11 +1045,11 @@ class GCHANR_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     empty = tb.Int32Col(pos=7)
     k = tb.Int32Col(pos=8)
-    r = tb.Int32Col(pos=9)
+    r = tb.Float32Col(pos=9)
     nloby = tb.Int32Col(pos=10)
     nlobz = tb.Int32Col(pos=11)
 
@@ -1066,8 +1066,8 @@ class GDOBO_rec(tb.IsDescription):
     by = tb.Float32Col(pos=3)
     tt = tb.Float32Col(pos=4)
     t_b = tb.Float32Col(pos=5)
-    sfy = tb.Int32Col(pos=6)
-    sfz = tb.Int32Col(pos=7)
+    sfy = tb.Float32Col(pos=6)
+    sfz = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
 
@@ -1085,8 +1085,8 @@ class GIORH_rec(tb.IsDescription):
     tt = tb.Float32Col(pos=4)
     bb = tb.Float32Col(pos=5)
     t_b = tb.Float32Col(pos=6)
-    sfy = tb.Int32Col(pos=7)
-    sfz = tb.Int32Col(pos=8)
+    sfy = tb.Float32Col(pos=7)
+    sfz = tb.Float32Col(pos=8)
     nlobyt = tb.Int32Col(pos=9)
     nlobyb = tb.Int32Col(pos=10)
     nlobz = tb.Int32Col(pos=11)
@@ -1105,8 +1105,8 @@ class GIORHR_rec(tb.IsDescription):
     tt = tb.Float32Col(pos=4)
     bb = tb.Float32Col(pos=5)
     t_b = tb.Float32Col(pos=6)
-    sfy = tb.Int32Col(pos=7)
-    sfz = tb.Int32Col(pos=8)
+    sfy = tb.Float32Col(pos=7)
+    sfz = tb.Float32Col(pos=8)
     rt = tb.Float32Col(pos=9)
     rb = tb.Float32Col(pos=10)
     nlobyt = tb.Int32Col(pos=11)
@@ -1125,8 +1125,8 @@ class GLSEC_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     k = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
@@ -1143,8 +1143,8 @@ class GLSECR_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     k = tb.Float32Col(pos=7)
     r = tb.Float32Col(pos=8)
     nloby = tb.Int32Col(pos=9)
@@ -1161,8 +1161,8 @@ class GPIPE_rec(tb.IsDescription):
     di = tb.Float32Col(pos=1)
     dy = tb.Float32Col(pos=2)
     t = tb.Float32Col(pos=3)
-    sfy = tb.Int32Col(pos=4)
-    sfz = tb.Int32Col(pos=5)
+    sfy = tb.Float32Col(pos=4)
+    sfz = tb.Float32Col(pos=5)
     ncir = tb.Int32Col(pos=6)
     nrad = tb.Int32Col(pos=7)
 
@@ -1182,8 +1182,8 @@ class GUSYI_rec(tb.IsDescription):
     bb = tb.Float32Col(pos=6)
     b2 = tb.Float32Col(pos=7)
     t_b = tb.Float32Col(pos=8)
-    sfy = tb.Int32Col(pos=9)
-    sfz = tb.Int32Col(pos=10)
+    sfy = tb.Float32Col(pos=9)
+    sfz = tb.Float32Col(pos=10)
     nlobyt = tb.Int32Col(pos=11)
     nlobyb = tb.Int32Col(pos=12)
     nlobz = tb.Int32Col(pos=13)
-- 
2.43.0


From 6e41b1382975cd70dfa2478bee6fa6e5d3820eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 02/39] fix: GIORHR without its optional last line swallowed
 the following record

---
 freesif/sequentialparser/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index bfe8b7f..293be91 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1114,7 +1114,7 @@ class GIORHR_rec(tb.IsDescription):
     nlobz = tb.Int32Col(pos=13)
 
 descriptors['GIORHR'] = GIORHR_rec
-readers['GIORHR'] = reader_optionalfields('GIORHR', GIORHR_rec, 8, 3)
+readers['GIORHR'] = reader_optionalfields('GIORHR', GIORHR_rec, 8, 2)
 
 
 # ---GLSEC------------------------------------------------------------------- #
-- 
2.43.0


From e078a8fa558af8d8d098e59440d01a37e0602e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 03/39] fix: read all values of complex node results (the
 imaginary half was dropped)

---
 freesif/sequentialparser/parsers.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 293be91..caa810d 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1888,8 +1888,9 @@ atoms['RVNODDIS'] = [('dis', tb.Float32Atom(), ())]
 atoms['RVNODVEL'] = [('vel', tb.Float32Atom(), ())]
 
 # each row in a 'rvnodres' vlarray will have nres 32-bit floats, where
-# nres = (nfield - 5) / (icompl + 1). If results are complex the dtype should
-# be changed from float32 to complex64 before use
+# nres = nfield - 5 (both real and imaginary parts if the result is complex).
+# If results are complex the dtype should be changed from float32 to complex64
+# before use
 
 
 def rvnodres_reader(rec_name, rec, in_file, out_file):
@@ -1902,10 +1903,7 @@ def rvnodres_reader(rec_name, rec, in_file, out_file):
     while rec_name == rvnodres_rec_name:
 
         rec += in_file.read_floats(1)
-        nfield = int(rec[0])
-        ires = int(rec[1])
-        icompl = rdresref_data[ires]
-        nres = (nfield - 5) // (icompl + 1)
+        nres = int(rec[0]) - 5  # nfield - 5
 
         res.add(in_file.read_floats(nres))
         recs.add(rec)
-- 
2.43.0


From 242a85ce95c534b0138c634c724d6ca7a7f540ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 04/39] fix: names of W1MOTION, W1SFORCE, W2MDRIFT, TDLOAD and
 WINPUT were missing or misspelt in the list of record names

---
 freesif/sequentialparser/sequentialfiles.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 85d2aa5..eb3f805 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -36,12 +36,13 @@ allowed_record_names_str = set([
 'RSUMMASS', 'RSUMREAC', 'RSUPTRAN', 'RVABSCIS', 'RVELNFOR', 'RVFORCES',
 'RVNODACC', 'RVNODDIS', 'RVNODVEL', 'RVNODREA', 'RVORDINA', 'RVSTRAIN',
 'RVSTRESS', 'TNODE', 'TELEMENT', 'TDRESREF', 'TDSERIES', 'TDSUPNAM',
-'W1EXFORC', 'W1MATRIX', 'WIMOTION','WISFORCE', 'W2EXFDIF', 'W2EXFSUM',
-'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFI', 'WBODCON', 'WBODY', 'WDRESREF',
+'W1EXFORC', 'W1MATRIX', 'W1MOTION', 'W1SFORCE', 'W2EXFDIF', 'W2EXFSUM',
+'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFT', 'WBODCON', 'WBODY', 'WDRESREF',
 'WFKPOINT', 'WFLUIDKN', 'WGLOBDEF', 'WGRESPON', 'WSCATTER', 'WSECTION',
 'WSURFACE', 'TDBODNAM', 'TDRSNAM', 'TDSCATTER', 'TDSCONC', 'SCONCEPT',
 'SCONMESH', 'SCONPLIS', 'SPROSELE', 'SPROMATR', 'SPROSEGM', 'SPROHYDR',
-'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE'])
+'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE',
+'TDLOAD', 'WINPUT'])
 
 allowed_record_names_b = set([
 b'DATE', b'IDENT', b'IEND', b'TDMATER', b'TDSECT', b'TDSETNAM', b'TDSUPNAM',
@@ -68,12 +69,13 @@ b'RDRESREF', b'RDSERIES', b'RDSTRAIN', b'RDSTRESS', b'RDTRANS', b'RSUMLOAD',
 b'RSUMMASS', b'RSUMREAC', b'RSUPTRAN', b'RVABSCIS', b'RVELNFOR', b'RVFORCES',
 b'RVNODACC', b'RVNODDIS', b'RVNODVEL', b'RVNODREA', b'RVORDINA', b'RVSTRAIN',
 b'RVSTRESS', b'TNODE', b'TELEMENT', b'TDRESREF', b'TDSERIES', b'TDSUPNAM',
-b'W1EXFORC', b'W1MATRIX', b'WIMOTION','WISFORCE', b'W2EXFDIF', b'W2EXFSUM',
-b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFI', b'WBODCON', b'WBODY', b'WDRESREF',
+b'W1EXFORC', b'W1MATRIX', b'W1MOTION', b'W1SFORCE', b'W2EXFDIF', b'W2EXFSUM',
+b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFT', b'WBODCON', b'WBODY', b'WDRESREF',
 b'WFKPOINT', b'WFLUIDKN', b'WGLOBDEF', b'WGRESPON', b'WSCATTER', b'WSECTION',
 b'WSURFACE', b'TDBODNAM', b'TDRSNAM', b'TDSCATTER', b'TDSCONC', b'SCONCEPT',
 b'SCONMESH', b'SCONPLIS', b'SPROSELE', b'SPROMATR', b'SPROSEGM', b'SPROHYDR',
-b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE'])
+b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE',
+b'TDLOAD', b'WINPUT'])
 
 
 class SequentialFile(object):
-- 
2.43.0


From 386ee991782ee4b7b257bf33d835fbd7475f0fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 05/39] fix: recognise any record name as start of the next
 record on formatted files; skip TSLAYER records

---
 freesif/sequentialparser/sequentialfiles.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index eb3f805..cfe16c4 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -121,7 +121,7 @@ class SequentialFile(object):
             return self.read_headerrec()
 
         # workaround to handle TDxxxxxx records (on unformatted files):
-        if rec_name[:2] == 'TD':
+        if rec_name[:2] == 'TD' or rec_name == 'TSLAYER':
             for i in range(int(rec[2]) // 100):
                 self.read_stringrec()
             for i in range(int(rec[3]) // 100):
@@ -138,7 +138,7 @@ class SequentialFile(object):
 #            return string_rec[:8].decode().strip(), self.tofloatrec(string_rec[8:])
             return self.skip_contrecs(string_rec)
 
-        elif string_rec[:8].strip() in self.allowed_record_names: # no cont. records
+        elif self.is_headerrec(string_rec): # no cont. records
             return self.strip_recname(string_rec[:8]), self.tofloatrec(string_rec[8:])
 
         else:  # type 2 record
@@ -251,6 +251,9 @@ class UnformattedFile(SequentialFile):
 
         return False
 
+    def is_headerrec(self, string_rec):
+        return string_rec[:8].strip() in self.allowed_record_names
+
     def strip_recname(self, rec_name):
         return rec_name.decode().strip()
 
@@ -332,13 +335,14 @@ class FormattedFile(SequentialFile):
         """
 
         pos = self.f.tell()
-        rec_name = self.f.read(8).strip()
+        string_rec = self.f.read(8)
         self.f.seek(pos)
 
-        if not self.hasrest and rec_name in self.allowed_record_names:
-            return True
+        return not self.hasrest and self.is_headerrec(string_rec)
 
-        return False
+    def is_headerrec(self, string_rec):
+        # continuation records always have 8 leading blanks
+        return string_rec[:8].strip() != ''
 
     def strip_recname(self, rec_name):
         return rec_name.strip()
-- 
2.43.0


From 8cd09e8d38c58610cd3ad24d3bb80c1daec1aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:46 +0000
Subject: [PATCH 06/39] fix: lower level superelements lost the reference to
 their top level (hierarchy transformations never worked)

---
 freesif/data/file.py      | 4 ++--
 freesif/data/strucdata.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index d136794..78cc5ff 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -104,10 +104,10 @@ class File(object):
                 level = subgr._f_getattr('LEVEL')
                 key = gr._v_name + '/' + subgr._v_name
                 if level == 'INTERLEVEL':
-                    self._data[key] = InterLevelData(subgr, data)
+                    self._data[key] = InterLevelData(subgr, self, data)
 
                 elif level == 'FIRSTLEVEL':
-                    self._data[key] = FirstLevelData(subgr, data)
+                    self._data[key] = FirstLevelData(subgr, self, data)
 
         _open_files.add(self)
         self._isopen = True
diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index a279c34..2c3b4f4 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -321,8 +321,8 @@ class FirstLevelData(StrucData):
             [ 0. ,  0. ,  0. ,  0. ,  1.5,  0. ,  0. ,  0. ,  0. ,  0. ]])
 
 
-    def __init__(self, tbgroup, toplevel=None):
-        super(FirstLevelData, self).__init__(tbgroup, toplevel)
+    def __init__(self, tbgroup, fileinstance, toplevel=None):
+        super(FirstLevelData, self).__init__(tbgroup, fileinstance, toplevel)
         if self._filetype == 'R':
             self._index = tbgroup._f_getattr('INDEX')
 
-- 
2.43.0


From 8a29acc79c57f84a0c29b889ab8814813c628d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 07/39] fix: close_all_files raised as soon as it had closed
 the first file

---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 78cc5ff..94e1320 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -44,7 +44,7 @@ def open_sif(filename):
 
 def close_all_files():
     global _open_files
-    for f in _open_files:
+    for f in list(_open_files):  # close() removes f from the set
         f.close()
     _open_files = set()
 
-- 
2.43.0


From ad3c9be2d69e2b397445fcbb96a0549f00202220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 08/39] fix: iterating over a File raised TypeError

---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 94e1320..56c6abc 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -159,7 +159,7 @@ class File(object):
         return s
 
     def __iter__(self):  # NOT dict behaviour! values instead of keys
-        return self.values()
+        return iter(self.values())
 
     def _check_isopen(self):
         if not self._isopen:
-- 
2.43.0


From 0424744141d234db4863c86a5121d68a0a2d7f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 09/39] fix: repr of a File with more than one dataset raised
 TypeError

---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 56c6abc..ff6a1c1 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -154,7 +154,7 @@ class File(object):
             return '<Closed File object>'
 
         s = ''
-        for d in sorted(self._data.values()):
+        for _, d in sorted(self._data.items()):
             s += '{!r}\n'.format(d)
         return s
 
-- 
2.43.0


From d0c51d0f68c8a6d74d8d94622f84c1081d144aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 10/39] fix: a failed conversion left the files open (the hdf5
 file could not be converted to again)

---
 freesif/sequentialparser/sif2hdf5.py | 33 ++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index d2b8070..892ab29 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -229,6 +229,30 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     else:
         out_file = tb.open_file(hdf5name, 'a' if append else 'w')
 
+    # do not leave the files open if the conversion fails
+    try:
+        _convert(in_file, out_file, only, filetypeid, is_formatted, fdir,
+                 fileprefix, extension)
+    except Exception:
+        in_file.close()
+        out_file.close()
+        raise
+
+    if in_memory:
+        # TODO: is it possible to change mode to 'r' here ?
+        return out_file
+
+    out_file.close()
+
+    # return hdf5 file name (full path)
+    return path.abspath(hdf5name)
+
+
+def _convert(in_file, out_file, only, filetypeid, is_formatted, fdir,
+             fileprefix, extension):
+    """Parse the (top level) file and any lower level files.
+    """
+
     # TODO: check if group name allready exist
 
     # set filetypeid
@@ -293,12 +317,3 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
             else:
                 print('file not found: ' + fname)
-
-    if in_memory:
-        # TODO: is it possible to change mode to 'r' here ?
-        return out_file
-
-    out_file.close()
-
-    # return hdf5 file name (full path)
-    return path.abspath(hdf5name)
-- 
2.43.0


From 3071719def6c0ff6228a22a4791c70799b8c53be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 11/39] fix: element types of a previously converted file
 leaked into the next conversion

---
 freesif/sequentialparser/parsers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index caa810d..ea571aa 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -138,6 +138,7 @@ def reset(reset_toplevel=True):
 
     global rec_size, current_ihref, current_seltyp, tables, record_names, \
         rdpoints_data, nsp_data, rdresref_data, lenrec_data, has_hierarch, \
+        elem_data, \
         hierarch_table, record_count, attoplevel, filetypeid, current_indsel, \
         current_hrec, hierarch_ihsref, toplevel_hrec
 
@@ -149,6 +150,7 @@ def reset(reset_toplevel=True):
     attoplevel = False
     tables = {}
     record_names = []
+    elem_data = {}
     rdpoints_data = {}
     nsp_data = {}
     rdresref_data = {}
-- 
2.43.0


From fa7d7a88979bd1c8a3222c14da1edab793edc091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 12/39] fix: hydrodynamic getters handed out the internal
 arrays (changing a result changed later answers)

---
 freesif/data/hydrodata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index f5df243..cd2e710 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -122,13 +122,13 @@ class HydroData(SifData):
         """Get angular frequencies.
         """
         self._assert_domaintype('frequency')
-        return self._angfreqs
+        return self._angfreqs.copy()
 
     def get_periods(self):
         """Get periods.
         """
         self._assert_domaintype('frequency')
-        return self._periods
+        return self._periods.copy()
 
     def get_directions(self, unit='degrees'):
         """Get wave directions in 'degrees' (default) or 'radians'
@@ -138,7 +138,7 @@ class HydroData(SifData):
         if unit == 'degrees':
             return self._directions * 180. / np.pi
         elif unit == 'radians':
-            return self._directions
+            return self._directions.copy()
         else:
             raise ValueError("unit must be 'degrees' or 'radians'")
 
@@ -146,7 +146,7 @@ class HydroData(SifData):
         """Get time instants.
         """
         self._assert_domaintype('time')
-        return self._timesteps
+        return self._timesteps.copy()
 
     def get_sections(self):
         """Get section definitions
-- 
2.43.0


From 4314f306f48393d1b0bf5599fba75bb1a1e3e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 13/39] fix: lower case Sesam file names were accepted but
 produced unusable data

---
 freesif/data/file.py                 |  2 +-
 freesif/sequentialparser/sif2hdf5.py | 17 ++++++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index ff6a1c1..8525599 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -39,7 +39,7 @@ def open_sif(filename):
 
     tbfile = sif2hdf5(filename, in_memory=True)
     prefix, letter, idno, ext = parse_sifname(filename)
-    groupname = prefix + letter + idno
+    groupname = prefix + letter.upper() + idno
     return File(tbfile)[groupname]
 
 def close_all_files():
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 892ab29..f37d130 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -198,7 +198,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     parsers.reset()
 
     # filetype identifier (T, L, R or G)
-    filetypeid = letter
+    filetypeid = letter.upper()
 
     # set group name prefix
     if usefileprefix:
@@ -232,7 +232,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     # do not leave the files open if the conversion fails
     try:
         _convert(in_file, out_file, only, filetypeid, is_formatted, fdir,
-                 fileprefix, extension)
+                 fileprefix, letter, extension)
     except Exception:
         in_file.close()
         out_file.close()
@@ -249,7 +249,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
 
 def _convert(in_file, out_file, only, filetypeid, is_formatted, fdir,
-             fileprefix, extension):
+             fileprefix, letter, extension):
     """Parse the (top level) file and any lower level files.
     """
 
@@ -280,12 +280,14 @@ def _convert(in_file, out_file, only, filetypeid, is_formatted, fdir,
         # generate candidate file names
         fnames = []
         ihref = []
-        if extension in ('SIF', 'SIU'):  # structural results files
+        if extension.upper() in ('SIF', 'SIU'):  # structural results files
             for r in hierarch_table[1:]:
                 if r['islevl'] == 1:  # 1st level
                     fnames.append(fileprefix +
-                                  'R' + str(r['iselty']) +
-                                  'H' + str(r['ihref']) +
+                                  ('R' if letter.isupper() else 'r') +
+                                  str(r['iselty']) +
+                                  ('H' if letter.isupper() else 'h') +
+                                  str(r['ihref']) +
                                   '.' + extension)
                     ihref.append(r['ihref'])
 
@@ -293,7 +295,8 @@ def _convert(in_file, out_file, only, filetypeid, is_formatted, fdir,
             for r in hierarch_table[1:]:
                 if r['indsel'] == 1:  # skip additional repetitions
                     fnames.append(fileprefix +
-                                  'T' + str(r['iselty']) +
+                                  ('T' if letter.isupper() else 't') +
+                                  str(r['iselty']) +
                                   '.' + extension)
                     ihref.append(r['ihref'])
 
-- 
2.43.0


From 7daf1bc1c393ae5bae18923a4d6abd7762288a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 14/39] fix: open_sif failed when the superelement number in
 the file differs from the file name

---
 freesif/data/file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 8525599..afc19ce 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -5,7 +5,6 @@
 
 import tables as tb
 from os import path
-from .helpers import parse_sifname
 from .strucdata import TopLevelData, InterLevelData, FirstLevelData
 from .hydrodata import HydroData
 from ..sequentialparser.sif2hdf5 import sif2hdf5
@@ -37,10 +36,11 @@ def open_sif(filename):
     # this prevents files with the same name (at different paths) to be open
     # at the same time.
 
+    # the (only) top level group is named after the superelement number stored
+    # in the file, which is not necessarily the number in the file name
+
     tbfile = sif2hdf5(filename, in_memory=True)
-    prefix, letter, idno, ext = parse_sifname(filename)
-    groupname = prefix + letter.upper() + idno
-    return File(tbfile)[groupname]
+    return next(iter(File(tbfile)))
 
 def close_all_files():
     global _open_files
-- 
2.43.0


From 31965eb48442b1aa05c749723e7016139766da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 15/39] fix: disconnected node results were shifted when the
 model has nodes outside all elements

---
 freesif/data/strucdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 2c3b4f4..4516800 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -570,7 +570,8 @@ class FirstLevelData(StrucData):
         # disconnect
         if disconnected:
             indices = self._get_nodeindices(sets, kind, disconnected)
-            indices = self._update_connectivity(indices)
+            if sets or kind:  # data is limited to nodes of these elements
+                indices = self._update_connectivity(indices)
             axis = 0 if nres == 1 else 1
             return data.take(indices, axis=axis)
 
-- 
2.43.0


From 835630e48afd0480b9d66f5f959c09e5a6b408e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 16/39] fix: VtuWriter reordered the caller's arrays in place
 (writing the same elements twice corrupted them)

---
 freesif/utils/writers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 27079c9..c7ff2fe 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -106,8 +106,9 @@ class VtuWriter(object):
         self._close_piece()
         self._piece_open = True
 
-        _reorder_connectivity_vtk(cells)
         connectivity, offsets, types = cells
+        connectivity = connectivity.copy()  # do not modify the caller's array
+        _reorder_connectivity_vtk((connectivity, offsets, types))
 
         # keep reference to offsets and types
         self._current_offsets = offsets
@@ -146,6 +147,7 @@ class VtuWriter(object):
     def add_data_cellpoints(self, arr, name, compnames=None):
         """
         """
+        arr = arr.copy()  # do not modify the caller's array
         _reorder_cellpointdata_vtk(
             arr, self._current_offsets, self._current_types)
         self.add_data(arr, name, compnames)
-- 
2.43.0


From 78790f8be4ee4d3d8d78cffa886ddb4bab68dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 17/39] fix: escape array and component names in vtu files

---
 freesif/utils/writers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index c7ff2fe..4d8c5ab 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -6,6 +6,7 @@
 import numpy as np
 from struct import pack
 from base64 import b64encode
+from xml.sax.saxutils import escape
 
 from ..exceptions import VtkError
 
@@ -229,7 +230,8 @@ class VtuWriter(object):
         s += b'<%s' % tag.encode()
         if kwargs:
             s += b' '
-            s += b' '.join([b'%s="%s"' % (str(k).encode(), str(v).encode())
+            s += b' '.join([b'%s="%s"' % (str(k).encode(),
+                                          escape(str(v), {'"': '&quot;'}).encode())
                 for k, v in list(kwargs.items())])
         if selfclosing:
             s += b' />\n'
-- 
2.43.0


From 3e7e18f01db19d55d173f9dcae29c7368e23c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 18/39] fix: SCONMESH with NUMREP > 1 was only refused as the
 first record of a block, else silently misread

---
 freesif/sequentialparser/parsers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index ea571aa..72a86f8 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1334,16 +1334,16 @@ atoms['SCONMESH'] = [('irferep', tb.Int32Atom(), ())]
 def sconmesh_reader(rec_name, rec, in_file, out_file):
     """..."""
 
-    # assume numrep is allways 1. Throw NotImplementedError if above 1
-    if int(rec[2]) > 1:
-        raise NotImplementedError('SCONMESH: NUMREP > 1 not implemented')
-
     table, irferep_arr = get_table(rec_name, out_file)
     irfereps = vldata(irferep_arr)
     recs = recdata(table, irfereps)
 
     while rec_name == 'SCONMESH':
 
+        # assume numrep is allways 1. Throw NotImplementedError if above 1
+        if int(rec[2]) > 1:
+            raise NotImplementedError('SCONMESH: NUMREP > 1 not implemented')
+
         rec += in_file.read_floats(1)
 
         nferep = int(rec[4])
-- 
2.43.0


From f2d593278f142f330ade0a050c734c84777637db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 19/39] fix: a WDRESREF record without some reference type
 inherited the previous record's reference

---
 freesif/sequentialparser/parsers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 72a86f8..f2fa888 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -2040,6 +2040,10 @@ def wdresref_reader(rec_name, rec, in_file, out_file):
     times = vldata(time_arr)
     recs = recdata(table, dirs, freqs, times)
     while rec_name == 'WDRESREF':
+
+        for vl in (dirs, freqs, times):
+            vl.add(None)  # a reference type may be absent on a record
+
         for _ in range(int(rec[3])):
             irefty = int(in_file.read_floats(1)[0])
             dat = []
-- 
2.43.0


From 84d79c0bd8fd4fd64ee4bed888b296dd824bf5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 20/39] fix: sectional force RAOs were scrambled when records
 are ordered by result reference number

---
 freesif/data/hydrodata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index cd2e710..a0ac9b6 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -252,7 +252,9 @@ class HydroData(SifData):
         """
 
         self._assert_domaintype('frequency')
-        data = self._get_results('w1sforce', bodyid, 'data')
+        data, isect = self._get_results('w1sforce', bodyid, 'data', 'isect')
+        # records may be ordered by section or by result reference number
+        data = data[np.argsort(isect, kind='stable')]
 
         # reshape data to (section, dof, direction, frequency)
         data.shape = (self._nsections, self._ndirs, self._nfreqs, 6)
-- 
2.43.0


From 68bca78e15cdd976aa0f24426609997a0224360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 21/39] fix: a failed conversion left an incomplete dataset
 that made the whole hdf5 file impossible to open

---
 freesif/sequentialparser/sif2hdf5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index f37d130..e09e7f4 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -229,12 +229,16 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     else:
         out_file = tb.open_file(hdf5name, 'a' if append else 'w')
 
-    # do not leave the files open if the conversion fails
+    # do not leave the files open, nor an incomplete dataset (a file with such a
+    # dataset cannot be opened), if the conversion fails
+    existing = set(out_file.root._v_children)
     try:
         _convert(in_file, out_file, only, filetypeid, is_formatted, fdir,
                  fileprefix, letter, extension)
     except Exception:
         in_file.close()
+        for name in set(out_file.root._v_children) - existing:
+            out_file.remove_node('/', name, recursive=True)
         out_file.close()
         raise
 
-- 
2.43.0


From 49242de1c932aee58c685198c6dc05c4fd1945f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 22/39] fix: sectional force RAOs could not be read when
 several bodies have sections

---
 freesif/data/hydrodata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index a0ac9b6..49dca92 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -256,8 +256,9 @@ class HydroData(SifData):
         # records may be ordered by section or by result reference number
         data = data[np.argsort(isect, kind='stable')]
 
-        # reshape data to (section, dof, direction, frequency)
-        data.shape = (self._nsections, self._ndirs, self._nfreqs, 6)
+        # reshape data to (section, dof, direction, frequency). the number of
+        # sections is that of this body (not of all bodies on the file)
+        data.shape = (-1, self._ndirs, self._nfreqs, 6)
         return np.rollaxis(data, 3, 1)
 
     def get_fluidkinematics_raos(self, kind='elevation'):
-- 
2.43.0


From 75030ed520ca04013b07e33bade4c08032a2d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 23/39] fix: partly present optional section fields (or an
 unknown record after absent ones) swallowed the following record

---
 freesif/sequentialparser/parsers.py         |  5 +++--
 freesif/sequentialparser/sequentialfiles.py | 13 +++++--------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index f2fa888..bf6215a 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -392,8 +392,9 @@ def reader_optionalfields(record_name, descriptor, skipfirst=0, noptf=0):
 
             rec += in_file.read_floats(n_add_fl, skipfirst)
 
-            if not in_file.at_headerrec():
-                rec += in_file.read_floats(noptf, skipfirst)
+            # any number of the optional fields may be present
+            while len(rec) < ncols and not in_file.at_headerrec():
+                rec += in_file.read_floats(1, skipfirst)
 
             # pad or remove values to match ncols
             if len(rec) != ncols:
diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index cfe16c4..2841630 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -232,8 +232,7 @@ class UnformattedFile(SequentialFile):
 
         self.floatrest = floats[n:]
 
-        if len(self.floatrest) > 0:
-            self.hasrest = True
+        self.hasrest = len(self.floatrest) > 0
 
         return floats[:n]
 
@@ -246,10 +245,9 @@ class UnformattedFile(SequentialFile):
         rec_name = self.f.read(9)[1:].strip()
         self.f.seek(pos)
 
-        if not self.hasrest and rec_name in self.allowed_record_names:
-            return True
-
-        return False
+        # only used for input records, whose continuation records always have 8
+        # leading blanks
+        return not self.hasrest and rec_name != b''
 
     def is_headerrec(self, string_rec):
         return string_rec[:8].strip() in self.allowed_record_names
@@ -325,8 +323,7 @@ class FormattedFile(SequentialFile):
 
         self.floatrest = floats[n:]
 
-        if len(self.floatrest) > 0:
-            self.hasrest = True
+        self.hasrest = len(self.floatrest) > 0
 
         return floats[:n]
 
-- 
2.43.0


From b0f9407a9855f2e175c76ff1230fefb42d2668fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:35 +0000
Subject: [PATCH 24/39] fix: close the HDF5 file when its datasets cannot be
 opened

---
 freesif/data/file.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index afc19ce..f7b8f3e 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -81,6 +81,17 @@ class File(object):
             self.filename = self._tbfile.filename
 
         self._data = {}
+        try:
+            self._load_data()
+        except Exception:
+            # do not leave the file open if it cannot be used
+            self._tbfile.close()
+            raise
+
+        _open_files.add(self)
+        self._isopen = True
+
+    def _load_data(self):
         # loop over independent (top level or non-hierarhcy) groups
         for gr in self._tbfile.root._f_iter_nodes('Group'):
 
@@ -109,9 +120,6 @@ class File(object):
                 elif level == 'FIRSTLEVEL':
                     self._data[key] = FirstLevelData(subgr, self, data)
 
-        _open_files.add(self)
-        self._isopen = True
-
     def __getitem__(self, name):  # dict interface
         self._check_isopen()
         return self._data[name]
-- 
2.43.0


From fd15b668bf79c24adbbc502d3811c07341d81d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 25/39] fix: VtuWriter wrote big-endian arrays as if they were
 little-endian

---
 freesif/utils/writers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 4d8c5ab..5733e44 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -194,6 +194,8 @@ class VtuWriter(object):
 #        self._file.write(b64encode(arr.T.ravel().tostring(order='F')))
 
         header = pack('<Q', nbytes)
+        # byte_order is LittleEndian
+        arr = arr.astype(arr.dtype.newbyteorder('<'), copy=False)
         arrstr = arr.ravel().tostring()
         self._file.write(b64encode(header + arrstr))
 
-- 
2.43.0


From 94f990cd2bda1a648066bd642833b9f40a0eb48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 26/39] fix: line breaks and tabs in VTU names were read back
 as blanks

---
 freesif/utils/writers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 5733e44..0d4a8f9 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -26,6 +26,9 @@ sesam2vtk_elementtypeid = {15 : 3,
                            26 : 22,
                            28 : 23}
 
+# characters an xml parser would otherwise change in attribute values
+_attr_entities = {'"': '&quot;', '\n': '&#10;', '\r': '&#13;', '\t': '&#9;'}
+
 # get vtk ids from sesam ids
 typeidmapper = np.vectorize(lambda x: sesam2vtk_elementtypeid[x])
 
@@ -233,7 +236,7 @@ class VtuWriter(object):
         if kwargs:
             s += b' '
             s += b' '.join([b'%s="%s"' % (str(k).encode(),
-                                          escape(str(v), {'"': '&quot;'}).encode())
+                                          escape(str(v), _attr_entities).encode())
                 for k, v in list(kwargs.items())])
         if selfclosing:
             s += b' />\n'
-- 
2.43.0


From de197e9256d268c65ad7caaed908f9d3b43427d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:49 +0000
Subject: [PATCH 27/39] fix: a refused VTU piece left the writer and the file
 damaged

---
 freesif/utils/writers.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 0d4a8f9..ddd254d 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -106,11 +106,18 @@ class VtuWriter(object):
     def new_piece(self, points, cells):
         """
         """
+        connectivity, offsets, types = cells
+
+        # refuse what cannot be written before anything is written
+        vtktypes = typeidmapper(types)
+        if points.ndim not in (1, 2):
+            raise VtkError('array must be 1d or 2d')
+        if points.dtype.name not in numpy2vtk_datatype:
+            raise VtkError('array type not supported')
+
         self._close_data()
         self._close_piece()
-        self._piece_open = True
 
-        connectivity, offsets, types = cells
         connectivity = connectivity.copy()  # do not modify the caller's array
         _reorder_connectivity_vtk((connectivity, offsets, types))
 
@@ -118,10 +125,9 @@ class VtuWriter(object):
         self._current_offsets = offsets
         self._current_types = types
 
-        types = typeidmapper(types)
-
         self._open_element('Piece', NumberOfPoints=len(points),
                            NumberOfCells=len(offsets))
+        self._piece_open = True
 
         # write points
         self._open_element('Points')
@@ -132,7 +138,7 @@ class VtuWriter(object):
         self._open_element('Cells')
         self._write_array(connectivity, 'connectivity')
         self._write_array(offsets, 'offsets')
-        self._write_array(types, 'types')
+        self._write_array(vtktypes, 'types')
         self._close_element('Cells')
 
     def start_pointdata(self):
-- 
2.43.0


From 53d4399efec4337b52e67fb57cc8ef732794f1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:59 +0000
Subject: [PATCH 28/39] fix: all three optional fields of GIORHR and GUSYI may
 be absent

---
 freesif/sequentialparser/parsers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index bf6215a..986677f 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1117,7 +1117,7 @@ class GIORHR_rec(tb.IsDescription):
     nlobz = tb.Int32Col(pos=13)
 
 descriptors['GIORHR'] = GIORHR_rec
-readers['GIORHR'] = reader_optionalfields('GIORHR', GIORHR_rec, 8, 2)
+readers['GIORHR'] = reader_optionalfields('GIORHR', GIORHR_rec, 8, 3)
 
 
 # ---GLSEC------------------------------------------------------------------- #
@@ -1192,7 +1192,7 @@ class GUSYI_rec(tb.IsDescription):
     nlobz = tb.Int32Col(pos=13)
 
 descriptors['GUSYI'] = GUSYI_rec
-readers['GUSYI'] = reader_optionalfields('GUSYI', GUSYI_rec, 8, 2)
+readers['GUSYI'] = reader_optionalfields('GUSYI', GUSYI_rec, 8, 3)
 
 
 # ---GSETMEMB---------------------------------------------------------------- #
-- 
2.43.0


From 2582f71f2f8f1de0a07370d098a848c156bb6012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 29/39] fix: frequency-dependent matrices that are not on the
 file were returned as empty arrays instead of refused

---
 freesif/data/hydrodata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index 49dca92..0df4d53 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -8,7 +8,7 @@ from __future__ import division
 import numpy as np
 from .sifdata import SifData
 from .helpers import getrow
-from ..exceptions import ResultError, NoSuchRecordError
+from ..exceptions import ResultError, NoSuchRecordError, ConditionError
 
 
 class HydroData(SifData):
@@ -331,7 +331,11 @@ class HydroData(SifData):
         if mtyp in (11, 22, 31, 32):  # freq indep
             return getrow(w1matrix, cond)['hmat']
         elif mtyp in (12, 21):  # freq dep
-            return np.rollaxis(w1matrix.read_where(cond)['hmat'], 0, 3)
+            hmat = w1matrix.read_where(cond)['hmat']
+            if len(hmat) == 0:
+                raise ConditionError('Table "{}" has no row fulfilling '
+                                     'condition'.format(w1matrix.name))
+            return np.rollaxis(hmat, 0, 3)
         else:
             raise ValueError('mtyp must be 11, 12, 21, 22, 31 or 32, '
                              'got {}'.format(mtyp))
-- 
2.43.0


From eac7ddbc12f7468233d8e3543a88d589541246a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 30/39] fix: read every file of a hierarchy with the reader for
 its own format

The lower level files were read as formatted or unformatted files
depending on the top level file only, so that a hierarchy of model files
(all named .FEM) written in different formats could not be converted.
---
 freesif/sequentialparser/sif2hdf5.py | 39 ++++++++++++++--------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index e09e7f4..d808a51 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -210,18 +210,8 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     if not hdf5name or in_memory:
         hdf5name = fname[:-3] + 'h5'
 
-    # determine formatting
-    with open(sifname, 'rb') as f:
-        if f.read(1) == b'K':  # file is unformatted
-            is_formatted = False
-        else:
-            is_formatted = True
-
     # open files
-    if is_formatted:
-        in_file = FormattedFile(sifname)
-    else:
-        in_file = UnformattedFile(sifname)
+    in_file = _open_sequential_file(sifname)
 
     if in_memory:
         out_file = tb.open_file(hdf5name, 'w', driver='H5FD_CORE',
@@ -233,8 +223,8 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     # dataset cannot be opened), if the conversion fails
     existing = set(out_file.root._v_children)
     try:
-        _convert(in_file, out_file, only, filetypeid, is_formatted, fdir,
-                 fileprefix, letter, extension)
+        _convert(in_file, out_file, only, filetypeid, fdir, fileprefix, letter,
+                 extension)
     except Exception:
         in_file.close()
         for name in set(out_file.root._v_children) - existing:
@@ -252,8 +242,21 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     return path.abspath(hdf5name)
 
 
-def _convert(in_file, out_file, only, filetypeid, is_formatted, fdir,
-             fileprefix, letter, extension):
+def _open_sequential_file(name):
+    """Open a formatted or unformatted file.
+    """
+    # determine formatting
+    with open(name, 'rb') as f:
+        is_formatted = f.read(1) != b'K'
+
+    if is_formatted:
+        return FormattedFile(name)
+    else:
+        return UnformattedFile(name)
+
+
+def _convert(in_file, out_file, only, filetypeid, fdir, fileprefix, letter,
+             extension):
     """Parse the (top level) file and any lower level files.
     """
 
@@ -312,10 +315,8 @@ def _convert(in_file, out_file, only, filetypeid, is_formatted, fdir,
         for i, fname in enumerate(fnames):
             fname_fullpath = path.join(fdir, fname)
             if path.isfile(fname_fullpath):
-                if is_formatted:
-                    in_file = FormattedFile(fname_fullpath)
-                else:
-                    in_file = UnformattedFile(fname_fullpath)
+                # the files of a hierarchy may be formatted differently
+                in_file = _open_sequential_file(fname_fullpath)
 
                 parsers.reset(reset_toplevel=False)
                 parsers.set_current_ihref(ihref[i])
-- 
2.43.0


From 81a694799d64fa440971e31708da43fbbba529ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:09 +0000
Subject: [PATCH 31/39] fix: refuse body number 0 instead of answering with the
 results of all bodies

---
 freesif/data/hydrodata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index 0df4d53..d3dcd24 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -101,7 +101,7 @@ class HydroData(SifData):
         """
 
         res = self._get_record(rec_name)
-        if bodyid:
+        if bodyid is not None:
             ibcond = self._get_ibcond(bodyid)
             # get all records for this ibcond
             res_recs = res.read_where('ibcond=={}'.format(ibcond))
-- 
2.43.0


From 4615c052cdafee670d21a84f9e927e83d8f741f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 32/39] fix: accept a result case number that is a numpy
 integer

---
 freesif/data/strucdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 4516800..bed4c63 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -161,7 +161,7 @@ class StrucData(SifData):
 
         if isinstance(rescases, (list, tuple, np.ndarray)):
             rescases = set(rescases)
-        elif isinstance(rescases, int):
+        elif isinstance(rescases, (int, np.integer)):
             rescases = set([rescases])
         elif rescases is None:
             indices = rdresref.get_where_list('irno=={}'.format(run))
-- 
2.43.0


From 300718ed063094d0a64103e92b2b19c3eddfb041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:17 +0000
Subject: [PATCH 33/39] fix: do not scale the coordinates with a level number
 that is a numpy integer

---
 freesif/data/strucdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index bed4c63..3036067 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -468,7 +468,7 @@ class FirstLevelData(StrucData):
                                                                   index, 'top')
                     else:
                         raise ValueError('legal string argument: "top"')
-                elif isinstance(trans, int):
+                elif isinstance(trans, (int, np.integer)):
                     trans = self._toplevel.get_transformation(self._seltyp,
                                                               index, trans)
             elif self._has_record('rsuptran') and trans=='top':
-- 
2.43.0


From e8af3446e03787cd95d9e1dfd3fdbbe4615980fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:05 +0000
Subject: [PATCH 34/39] fix: do not leave the files and an incomplete dataset
 behind when a conversion is interrupted

---
 freesif/sequentialparser/sif2hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index d808a51..d2227be 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -225,7 +225,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     try:
         _convert(in_file, out_file, only, filetypeid, fdir, fileprefix, letter,
                  extension)
-    except Exception:
+    except BaseException:  # also if interrupted
         in_file.close()
         for name in set(out_file.root._v_children) - existing:
             out_file.remove_node('/', name, recursive=True)
-- 
2.43.0


From 1f51f7cc405ed62daad04967fbc0b3408ea92d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:08 +0000
Subject: [PATCH 35/39] fix: close a lower level file that cannot be read

---
 freesif/sequentialparser/sif2hdf5.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index d2227be..88ffa9f 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -318,10 +318,12 @@ def _convert(in_file, out_file, only, filetypeid, fdir, fileprefix, letter,
                 # the files of a hierarchy may be formatted differently
                 in_file = _open_sequential_file(fname_fullpath)
 
-                parsers.reset(reset_toplevel=False)
-                parsers.set_current_ihref(ihref[i])
-                parsers.parse_file(in_file, out_file, only)
-                in_file.close()
+                try:
+                    parsers.reset(reset_toplevel=False)
+                    parsers.set_current_ihref(ihref[i])
+                    parsers.parse_file(in_file, out_file, only)
+                finally:
+                    in_file.close()
 
             else:
                 print('file not found: ' + fname)
-- 
2.43.0


From 2a305247a5f64c9ea69ca66db72f6610c9e2ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:14 +0000
Subject: [PATCH 36/39] fix: VtuWriter orders element node data by the elements
 as they were when the piece was begun

---
 freesif/utils/writers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index ddd254d..4fc1538 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -121,9 +121,9 @@ class VtuWriter(object):
         connectivity = connectivity.copy()  # do not modify the caller's array
         _reorder_connectivity_vtk((connectivity, offsets, types))
 
-        # keep reference to offsets and types
-        self._current_offsets = offsets
-        self._current_types = types
+        # keep offsets and types (the caller may change its arrays)
+        self._current_offsets = np.array(offsets)
+        self._current_types = np.array(types)
 
         self._open_element('Piece', NumberOfPoints=len(points),
                            NumberOfCells=len(offsets))
-- 
2.43.0


From 4e07d76e2976fd0a30bf9cd34b648ed18e8b6330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 37/39] fix: find_elemres_indices refuses a node that is not
 one of the element's, instead of answering with another element's

---
 freesif/calc/general.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freesif/calc/general.py b/freesif/calc/general.py
index 2bc5a78..6921c7f 100644
--- a/freesif/calc/general.py
+++ b/freesif/calc/general.py
@@ -30,5 +30,10 @@ def find_elemres_indices(pairs, elems, elemnumb, nodenumb):
         elind, = np.where(elemnumb==elno)[0]
         tmp_arr = offset[elind] - nodeind_arr
         tmp_ind = tmp_arr[tmp_arr>0].argmin()
+        # the node closest to the end of the element may be that of an element
+        # before it
+        if tmp_arr[tmp_ind] > np.diff(offset, prepend=0)[elind]:
+            raise ValueError('node {} is not a node of element {}'.format(
+                nodeno, elno))
         indices.append(nodeind_arr[tmp_ind])
     return np.array(indices)
-- 
2.43.0


From caf2e80f983008b2057903fe8345c5760ec25470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 38/39] fix: sif2hdf5 refuses a list of prefixes of another
 length than the list of files, instead of leaving files out

---
 freesif/sequentialparser/sif2hdf5.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 88ffa9f..5973a3a 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -157,6 +157,11 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
         elif isinstance(prefix, str):
             prefix = [prefix for _ in sifname]
 
+        # each file must have a prefix, or it would be left out
+        elif len(prefix) != len(sifname):
+            raise ValueError('{} prefixes for {} files.'.format(
+                len(prefix), len(sifname)))
+
         if hdf5name:
             sif2hdf5(sifname[0], hdf5name, append, usefileprefix, prefix[0],
                      only)
-- 
2.43.0


From 72782591e0f6bddab3b15c55bff100566c1263f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 39/39] fix: a selection of no elements is answered with empty
 arrays, instead of failing in np.concatenate

---
 freesif/data/sifdata.py   | 2 ++
 freesif/data/strucdata.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/freesif/data/sifdata.py b/freesif/data/sifdata.py
index 621a53c..bf822b2 100644
--- a/freesif/data/sifdata.py
+++ b/freesif/data/sifdata.py
@@ -105,6 +105,8 @@ class SifData(object):
             datalist.append(arr[start:stop])
             offset += stop - start
             offsetlist.append(offset)
+        if not datalist:  # nothing is selected
+            return arr[:0], np.array([], 'int64')
         return np.concatenate(datalist), np.array(offsetlist)
 
     def _has_record(self, rec_name):
diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 3036067..e22ec9d 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -46,6 +46,8 @@ class StrucData(SifData):
             cond = '(isref=={})&(istype=={})'.format(isref, istype)
             for r in gsetmemb.where(cond):
                 setmembs.append(irmemb[r['irmemb_start']:r['irmemb_stop']])
+        if not setmembs:  # e.g. sets of nodes only
+            return np.array([], 'int64')
         return np.unique(np.concatenate(setmembs)) - 1
 
     def _get_elementkind_indices(self, kind, elemindices=None):
@@ -116,6 +118,8 @@ class StrucData(SifData):
         connectivity need to be updated to match the node array for the subset.
         """
 
+        if not len(con):
+            return con
         nodeindices = np.unique(con)
         indexmap = dict(zip(nodeindices, np.arange(len(nodeindices))))
         indexmapper = np.vectorize(lambda x: indexmap[x])
-- 
2.43.0

