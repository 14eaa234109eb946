From e3e4e67925985de80effd462a91f47b595d60c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:48 +0000
Subject: [PATCH 1/4] fix: slice the trimmed line when a record is read

Record.read validated line.strip() but took the section codes and all
fields from the untrimmed line, so a record with blanks in front of it was
rejected or decoded with every field shifted.
---
 src/arinc424/record.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index c962139..ef2ef68 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -123,8 +123,8 @@ class Record():
     # remove any surrounding whitespace
     self.raw = line.strip()
 
-    identifier_1 = line[4:6]
-    identifier_2 = line[4] + line[12]
+    identifier_1 = self.raw[4:6]
+    identifier_2 = self.raw[4] + self.raw[12]
 
     if identifier_1 in records:
       self.ident = identifier_1
@@ -157,7 +157,7 @@ class Record():
           raise ValueError("no hasattr(self.definition, 'app_idx')")
 
     # read the record into a record object based on identifier
-    self.fields = self.definition.read(line, self.primary())
+    self.fields = self.definition.read(self.raw, self.primary())
     if not self.fields:
       return False
 
-- 
2.43.0


From bef10127a852d9ee065a27543d908646774b555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:46 +0000
Subject: [PATCH 2/4] fix: report a bad VOR/NDB frequency instead of ending the
 process

field_034 called exit(), so one damaged frequency column in a data file
terminated the host program, with exit status 0. Raise ValueError like the
other field decoders do.
---
 src/arinc424/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 6b40cf6..2ec142e 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -494,7 +494,7 @@ def field_034(value, record):
     if value.isnumeric() is False:
       print(f'Unsupported VOR/NDB Frequency: "{value}"')
       print(f'from record type "{record.ident}": "{record.raw}"')
-      exit()
+      raise ValueError("Invalid VOR/NDB Frequency:", value)
     else:
       return "{:.2f}".format(float(value)/100)
   return value
-- 
2.43.0


From 1ccceaa4a81b17df2708b13313c257ca246d7281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:48 +0000
Subject: [PATCH 3/4] fix: a failed read no longer leaves a record half
 overwritten

Record.read set raw, ident, continuation and definition before it knew that
the line could be read, so a reused object whose read was rejected or raised
reported a mix of two lines; and the continuation number of an earlier line
survived into sections that have none.
---
 src/arinc424/record.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index ef2ef68..2ed735c 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -116,6 +116,15 @@ class Record():
     return True
 
   def read(self, line) -> bool:
+    # read into a fresh record and take its state over only if that succeeds:
+    # nothing of an earlier line may remain, nothing of a failed one may stick
+    r = Record()
+    if r._read(line) is False:
+      return False
+    self.__dict__.update(r.__dict__)
+    return True
+
+  def _read(self, line) -> bool:
 
     if self.validate(line) is False:
       return False
-- 
2.43.0


From 529813b5c33c6431683faa6ddba4eaf4d0d486b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:47 +0000
Subject: [PATCH 4/4] fix: decode files as UTF-8 whatever the locale and
 environment

open() without an encoding takes the one of the locale, so the same file was
delivered completely, with wrong characters, with records missing (their
length changes) or not at all, depending on LANG, LC_ALL, PYTHONUTF8 and
the platform.
---
 src/arinc424/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/__init__.py b/src/arinc424/__init__.py
index 9f9395b..22a8a82 100644
--- a/src/arinc424/__init__.py
+++ b/src/arinc424/__init__.py
@@ -20,7 +20,7 @@ def search(file, filters):
   Search an ARINC-424 file and find all the
   records that contain given substrings.
   """
-  with open(file) as f:
+  with open(file, encoding='utf-8') as f:
     count = 0
     for line in f.readlines():
       r = Record()
@@ -41,7 +41,7 @@ def read_file(path, output=True):
   """
   Parse all ARINC-424 records within a file.
   """
-  with open(path) as f:
+  with open(path, encoding='utf-8') as f:
     for line in f.readlines():
       parse(line, output)
 
-- 
2.43.0

