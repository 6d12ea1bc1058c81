From 5ff03fc7bdc2d44caaae9099f3d20d1659753114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 01/55] fix: parse release manifests given as a file object

---
 cdtb/patcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 24e3fc4..beeaac4 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -85,7 +85,7 @@ class PatcherManifest:
                 with open(path_or_f, "rb") as f:
                     self.parse_rman(f)
             else:
-                self.parse_rman(f)
+                self.parse_rman(path_or_f)
 
     def filter_files(self, langs=True) -> List[PatcherFile]:
         """Filter files from the manifest with provided filters"""
-- 
2.43.0


From d0132012a58bfa10d67e5cd59d50c47ef48acb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 02/55] fix: never leave a partially written file under its
 final name

---
 cdtb/tools.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index c45fdad..e8ee893 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -3,6 +3,7 @@ import os
 import re
 import shutil
 import struct
+import uuid
 from contextlib import contextmanager
 
 import pyzstd
@@ -23,18 +24,26 @@ except ImportError:
 def write_file_or_remove(path, binary=True):
     """Open a file for writing, create its parent directory if needed
 
+    Data is written to a temporary file, renamed once complete: there is never
+    a partially written file at `path`, even if the process is killed.
     If the writing fails, the file is removed.
     """
+    dirname = os.path.dirname(path)
+    # keep the extension, it may be used to guess the file format
+    ext = os.path.splitext(path)[1][-16:]
+    tmp_path = os.path.join(dirname, f".{uuid.uuid4().hex}{ext}")
     try:
-        os.makedirs(os.path.dirname(path), exist_ok=True)
-        with open(path, 'wb' if binary else 'w') as f:
+        os.makedirs(dirname, exist_ok=True)
+        with open(tmp_path, 'wb' if binary else 'w') as f:
             yield f
+        os.replace(tmp_path, path)
     except:
         # remove partially written file
-        try:
-            os.remove(path)
-        except OSError:
-            pass
+        for p in (tmp_path, path):
+            try:
+                os.remove(p)
+            except OSError:
+                pass
         raise
 
 @contextmanager
-- 
2.43.0


From dd8e6a1f362bfbde033c336d7d41c4dd4c66ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 03/55] fix: never leave a truncated cached patch version

---
 cdtb/patcher.py | 2 +-
 cdtb/rads.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index beeaac4..d2a30d9 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -603,7 +603,7 @@ class PatcherReleaseElement:
             if version is None:
                 logger.warning(f"failed to retrieve patch version of {self}")
             else:
-                with open(cache, 'w') as f:
+                with write_file_or_remove(cache, binary=False) as f:
                     f.write(f"{version}\n")
         return version
 
diff --git a/cdtb/rads.py b/cdtb/rads.py
index 3cdce6d..a101258 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -327,7 +327,7 @@ class RadsSolutionVersion:
             if version is None:
                 logger.warning(f"failed to retrieve patch version for {self}")
             else:
-                with open(cache, 'w') as f:
+                with write_file_or_remove(cache, binary=False) as f:
                     f.write(f"{version}\n")
         return version
 
-- 
2.43.0


From 51034ca1c2dd65b47df7a1dac7434972b24ac33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 04/55] fix: latest patch of an empty storage is None

---
 cdtb/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/storage.py b/cdtb/storage.py
index 15506ff..ced0e2a 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -313,7 +313,7 @@ class Storage(metaclass=StorageRegister):
 
         it = self.patches(stored=stored)
         if version is None:
-            return next(it)
+            return next(it, None)
         for p in it:
             if p.version == version:
                 return p
-- 
2.43.0


From dd679c6a3b2fa6551883b59dca65be827e6ebd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 05/55] fix: support lists of languages in patcher storages

---
 cdtb/patcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index d2a30d9..4fcf00c 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -69,8 +69,9 @@ class PatcherFile:
         elif langs is True:
             return lambda f: True
         else:
-            lang = langs.lower()  # compare lowercased
-            return lambda f: f.flags is not None and any(f.lower() == lang for f in f.flags)
+            # compare lowercased
+            langs = {lang.lower() for lang in ([langs] if isinstance(langs, str) else langs)}
+            return lambda f: f.flags is not None and any(f.lower() in langs for f in f.flags)
 
 
 class PatcherManifest:
-- 
2.43.0


From 1823cd4857e8c6683dc55cdd908d67e3b516d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 06/55] fix: don't report paths of links, they are never
 extracted

---
 cdtb/patcher.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 4fcf00c..8177983 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -648,12 +648,16 @@ class PatcherPatchElement(PatchElement):
         self.elem.download_bundles(langs=langs)
         self.elem.extract(langs=langs)
 
+    def _files(self, langs):
+        # links are not extracted
+        return (f for f in self.elem.manif.filter_files(langs=langs) if not f.link)
+
     def fspaths(self, langs=True):
-        return (self.elem.extract_path(f) for f in self.elem.manif.filter_files(langs=langs))
+        return (self.elem.extract_path(f) for f in self._files(langs))
 
     def relpaths(self, langs=True):
-        return (f.name.lower() for f in self.elem.manif.filter_files(langs=langs))
+        return (f.name.lower() for f in self._files(langs))
 
     def paths(self, langs=True):
-        for f in self.elem.manif.filter_files(langs=langs):
+        for f in self._files(langs):
             yield (self.elem.extract_path(f), f.name.lower())
-- 
2.43.0


From e839b97411979adf8d4d042b26405d0b98d50dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 07/55] fix: sort patch elements when game and client are not
 updated by the same release

---
 cdtb/patcher.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 8177983..106a3a7 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -3,6 +3,7 @@ import re
 import io
 import json
 import time
+import heapq
 import hashlib
 import logging
 from typing import List, Optional, Generator
@@ -352,9 +353,15 @@ class PatcherStorage(Storage):
             # add latest release to the storage, if any
             self.fetch_latest_update()
 
-        for release in self.iter_releases():
-            for elem in release.elements():
-                yield PatcherPatchElement(elem)
+        def gen_elements(name):
+            for release in releases:
+                elem = release.element(name)
+                if elem is not None:
+                    yield PatcherPatchElement(elem)
+
+        # versions of game and client are not always changed by the same release
+        releases = list(self.iter_releases())
+        yield from heapq.merge(*(gen_elements(name) for name in PatchElement.names), key=lambda e: e.version, reverse=True)
 
     def fetch_latest_update(self):
         """Fetch the latest release from the CDN"""
-- 
2.43.0


From d9ae8989ace18473481bd9ffe0c6e9c625751d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 08/55] fix: never record an update twice or over a previous
 one

---
 cdtb/patcher.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 106a3a7..6e79116 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -371,16 +371,16 @@ class PatcherStorage(Storage):
             'game_patch_url': self.get_latest_game_manifest(),
         }
 
-        latest_timestamp = self.latest_timestamp()
-        if latest_timestamp is None:
-            latest_release = None
-        else:
-            latest_release = PatcherRelease(self, latest_timestamp)
+        # `latest.timestamp` may be outdated if a previous update has been interrupted
+        latest_release = next(self.iter_releases(), None)
         if latest_release and release_info == latest_release.data:
             return  # already up to date
 
         # Create the release information file and update `latest.timestamp`
         timestamp = int(time.time())
+        if latest_release:
+            # don't overwrite it, even if clock moved backward
+            timestamp = max(timestamp, latest_release.version + 1)
         base = self.base_release_path()
         with write_file_or_remove(f"{base}/{timestamp}/release.json", binary=False) as f:
             json.dump(release_info, f)
-- 
2.43.0


From e08d7b5d264bb754b1ebcda52a05d694eb8e5865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 09/55] fix: extract again files with an unexpected size

---
 cdtb/patcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 6e79116..233494b 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -459,7 +459,7 @@ class PatcherStorage(Storage):
         else:
             real_output = output
 
-        if not os.path.isfile(real_output):
+        if not os.path.isfile(real_output) or os.path.getsize(real_output) != file.size:
             logger.debug(f"extract {file.name} to {real_output}")
             with write_file_or_remove(real_output) as f:
                 for chunk in file.chunks:
-- 
2.43.0


From b6c9aa8d6ab04796b1d8478987ff3c3dfd75a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 10/55] fix: require --from, instead of refusing it, to update
 exported patches

---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index b35c851..8ec5f64 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -270,7 +270,7 @@ def command_export(parser, args):
         # multiple patches (update only)
         if args.previous:
             parser.error("patch version required with --previous or --full")
-        if args.first:
+        if not args.first:
             parser.error("--from is required when no patch is provided")
         exporters = CdragonRawPatchExporter.from_directory(storage, args.output, PatchVersion(args.first), symlinks=symlinks)
         for exporter in exporters:
-- 
2.43.0


From 1ccf415145f40f0d708fe052a08ae981ee54c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 11/55] fix: report an error when exporting the oldest patch
 without a previous one

---
 cdtb/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 8ec5f64..61600ba 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -293,9 +293,9 @@ def command_export(parser, args):
             it = storage.patches(stored=True)
             for v in it:
                 if v.version == patch.version:
-                    previous_patch = next(it)
                     break
-            else:
+            previous_patch = next(it, None)
+            if previous_patch is None:
                 parser.error("cannot guess previous patch")
 
         exporter = CdragonRawPatchExporter(os.path.join(args.output, str(patch.version)), patch, previous_patch, symlinks=symlinks)
-- 
2.43.0


From faba33110c168262eb6c360183f3d4a6619be2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 12/55] fix: don't ignore --patchline when using the default
 storage

---
 cdtb/__main__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 61600ba..a8ae3c0 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -62,11 +62,11 @@ def parse_storage_args(parser, args) -> Storage:
         conf = storage_conf_from_path(path)
         if conf is None:
             parser.error(f"cannot retrieve storage configuration from '{path}'")
-        if args.patchline is not None:
-            if conf['type'] == 'patcher':
-                conf['patchline'] = args.patchline
-            else:
-                parser.error("--patchline is only supported for 'patcher' storage")
+    if args.patchline is not None:
+        if conf['type'] == 'patcher':
+            conf['patchline'] = args.patchline
+        else:
+            parser.error("--patchline is only supported for 'patcher' storage")
     return Storage.from_conf(conf)
 
 
-- 
2.43.0


From 71c588ff9300df82efd6c1a6f1debfb9f3196142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 13/55] fix: accept game and client components to guess hashes

---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index a8ae3c0..9f968d0 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -200,7 +200,7 @@ def command_hashes_guess(parser, args):
         if isinstance(component, Patch):
             elements = component.elements
         else:
-            elements = [component.elements]
+            elements = [component]
         for elem in elements:
             wads.extend(Wad(p) for p in elem.fspaths() if p.endswith('.wad') or p.endswith('.wad.client'))
 
-- 
2.43.0


From 22c7c0c1072c4ccc7bf93c4f4ea1e0ee89d9f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:58 +0000
Subject: [PATCH 14/55] fix: extract empty RADS files sharing their offset with
 another file

---
 cdtb/rads.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index a101258..4c8c707 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -512,7 +512,8 @@ class RadsProjectVersion:
         for package, files in files_by_package.items():
             with self.project.storage.stream(f"{package_files_path}/{package}") as reader:
                 # sort files by offset to extract while streaming the bin file
-                for pkgfile in sorted(files, key=lambda f: f.offset):
+                # (empty files first, they may share their offset with another file)
+                for pkgfile in sorted(files, key=lambda f: (f.offset, f.size)):
                     logger.debug(f"extracting {pkgfile.path}")
                     reader.skip_to(pkgfile.offset)
                     fspath = self.project.storage.fspath(pkgfile.extract_path)
-- 
2.43.0


From f9256d1cf9a0962bc04225c374b19eb4dac2f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 15/55] fix: accept language names when selecting RADS projects

Languages given on the command line are strings, not Language values.
---
 cdtb/rads.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 4c8c707..742e2c4 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -289,10 +289,10 @@ class RadsSolutionVersion:
             return dependencies[None]
         elif langs is True:
             return list({pv for pvs in dependencies.values() for pv in pvs})
-        elif isinstance(langs, Language):
-            return dependencies[langs]
+        elif isinstance(langs, (str, Language)):
+            return dependencies[Language(langs)]
         else:
-            return list({pv for lang in langs for pv in dependencies[lang]})
+            return list({pv for lang in langs for pv in dependencies[Language(lang)]})
 
     def filepaths(self, langs) -> Generator[str, None, None]:
         """Generate the extract path of files in the solution version"""
-- 
2.43.0


From 6c5dd933cd3f322d17f4d8d56e0021e650211a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 16/55] fix: reject a solution manifest cut within its last
 dependency list

---
 cdtb/rads.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 742e2c4..d9afb5c 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -277,6 +277,7 @@ class RadsSolutionVersion:
             unk1, ndeps = int(unk1), int(ndeps)
             assert unk1 == 0
             deps, idx = lines[idx:idx+ndeps], idx + ndeps
+            assert len(deps) == ndeps, "unexpected end of solutionmanifest"
             langs[Language(lang)] = [projects[name] for name in deps]
 
         langs[None] = list(projects[name] for name in required_projects)
-- 
2.43.0


From 43adfadccc2b735b33623bd7cb7a1a4a1f93ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:26 +0000
Subject: [PATCH 17/55] fix: report entries with subchunks outside of the
 subchunk table as unreadable

---
 cdtb/wad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdtb/wad.py b/cdtb/wad.py
index 4c49e78..dd3b533 100644
--- a/cdtb/wad.py
+++ b/cdtb/wad.py
@@ -109,6 +109,8 @@ class WadFileHeader:
                 chunks_data = []
                 offset = 0
                 for index in range(self.first_subchunk_index, self.first_subchunk_index + self.subchunk_count):
+                    if len(subchunk_toc) < 16*(index+1):
+                        raise MalformedSubchunkError(data)
                     compressed_size, uncompressed_size, subchunk_hash = struct.unpack('<IIQ', subchunk_toc[16*index:16*(index+1)])
                     # ensure wad data matches with the subchunktoc data
                     subchunk_data = data[offset:offset+compressed_size]
-- 
2.43.0


From 5442a0b99ea88b767af025b12f8b064d868e3a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:01 +0000
Subject: [PATCH 18/55] fix: don't link files moved to another path, or from
 WAD v1, to the previous patch

---
 cdtb/export.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index e8422f0..b5f34bf 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -191,19 +191,22 @@ class Exporter:
             self_wad = self.wads.get(path)
             if self_wad is None:
                 continue  # not exported
-            if self_wad.path == other_wad.path:
-                # same path: WADs are identical
-                logger.debug(f"filter identical WAD file: {path}")
+            # same path: WADs are identical
+            # otherwise, compare the sha256 hashes to find the common files
+            # note: they are not available in WAD v1, don't assume files are identical
+            logger.debug(f"filter WAD file: {path}")
+            same_wad = self_wad.path == other_wad.path
+            # the same file may be exported to another path by the other exporter
+            other_files = {(wf.path_hash, wf.path): wf for wf in other_wad.files}
+            def is_same(wf):
+                other_wf = other_files.get((wf.path_hash, wf.path))
+                if other_wf is None:
+                    return False
+                return same_wad or (wf.sha256 is not None and wf.sha256 == other_wf.sha256)
+            # change the files from the wad so it only extract these
+            self_wad.files = [wf for wf in self_wad.files if not is_same(wf)]
+            if not self_wad.files:
                 del self.wads[path]
-            else:
-                # compare the sha256 hashes to find the common files
-                # don't resolve hashes: we just need the sha256
-                logger.debug(f"filter modified WAD file: {path}")
-                other_sha256 = {wf.path_hash: wf.sha256 for wf in other_wad.files}
-                # change the files from the wad so it only extract these
-                self_wad.files = [wf for wf in self_wad.files if wf.sha256 != other_sha256.get(wf.path_hash)]
-                if not self_wad.files:
-                    del self.wads[path]
 
     def export(self, overwrite=True):
         """Export files to the output
-- 
2.43.0


From 8402682b66461d9853e87da654d2a254a00f3c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:01 +0000
Subject: [PATCH 19/55] fix: update symlinks set from a previous patch which
 has changed

---
 cdtb/export.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index b5f34bf..6b8563b 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -226,7 +226,7 @@ class Exporter:
 
         This method is intended to be used to clean-up files that should not be
         extracted/symlinked. Parent directories are removed (if empty).
-        Note: symlinks are assumed to point to the right location.
+        Note: location pointed to by symlinks is not checked.
         """
 
         # collect files to remove
@@ -485,13 +485,16 @@ class CdragonRawPatchExporter:
         logger.info(f"creating symlinks for patch {self.patch.version}")
         for link in symlinks:
             dst = os.path.join(dst_output, link)
-            if os.path.lexists(dst):
-                if not os.path.islink(dst):
-                    raise RuntimeError(f"symlink target already exists: {dst}")
-                continue  # already set
             dst_dir = os.path.dirname(dst)
             os.makedirs(dst_dir, exist_ok=True)
             src = os.path.relpath(os.path.realpath(os.path.join(src_output, link)), os.path.realpath(dst_dir))
+            if os.path.lexists(dst):
+                if not os.path.islink(dst):
+                    raise RuntimeError(f"symlink target already exists: {dst}")
+                if os.readlink(dst) == src:
+                    continue  # already set
+                # previous patch changed since the link has been created
+                os.remove(dst)
             logger.info(f"create symlink {dst}")
             try:
                 os.symlink(src, dst)
-- 
2.43.0


From 9041312e492c704c88c8765cde4bee79743a6b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:01 +0000
Subject: [PATCH 20/55] fix: don't list "cdragon" as an exported file

---
 cdtb/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 6b8563b..742c669 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -345,7 +345,7 @@ class CdragonRawPatchExporter:
         # collect list of paths to extract (new ones, previous ones)
         new_paths = set(exporter.all_converted_exported_paths())
         symlinked_paths = None
-        changed_paths = new_paths  # default: use all new paths
+        changed_paths = set(new_paths)  # default: use all new paths
         if self.prev_patch:
             prev_paths = set(prev_exporter.all_converted_exported_paths())
             # filter out files from previous patch
-- 
2.43.0


From 0a781f2b4b61160163b4c9081dcb7b31b73607a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:01 +0000
Subject: [PATCH 21/55] fix: don't remove parents of the output directory when
 cleaning it

---
 cdtb/export.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 742c669..f401106 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -256,10 +256,13 @@ class Exporter:
             dirs_to_remove.add(os.path.dirname(path))
 
         for path in dirs_to_remove:
-            try:
-                os.removedirs(path)
-            except OSError:
-                pass
+            # don't remove the output directory, nor its parents
+            while path != self.output:
+                try:
+                    os.rmdir(path)
+                except OSError:
+                    break
+                path = os.path.dirname(path)
 
 
     def _get_converter(self, path):
-- 
2.43.0


From f1291da0377caed8f71223bcf4b6fe42735b0b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:01 +0000
Subject: [PATCH 22/55] fix: never leave outdated or truncated lists of
 exported files

---
 cdtb/export.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index f401106..81e9c3a 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -373,24 +373,27 @@ class CdragonRawPatchExporter:
         # write additional txt files
         os.makedirs(os.path.join(self.output, "cdragon"), exist_ok=True)
 
+        links_path = os.path.join(self.output, "cdragon/files.links.txt")
         if symlinked_paths:
-            with open(os.path.join(self.output, "cdragon/files.links.txt"), 'w', newline='\n') as f:
-                for link in sorted(symlinked_paths):
-                    print(link, file=f)
+            self._write_lines(links_path, sorted(symlinked_paths))
+        elif os.path.lexists(links_path):
+            # from a previous export
+            os.remove(links_path)
 
-        with open(os.path.join(self.output, "cdragon/files.unknown.txt"), 'w', newline='\n') as f:
-            for h in unknown_hashes:
-                print(f"{h:016x}", file=f)
-
-        with open(os.path.join(self.output, "cdragon/files.exported.txt"), 'w', newline='\n') as f:
-            for path in sorted(new_paths):
-                print(path, file=f)
+        self._write_lines(os.path.join(self.output, "cdragon/files.unknown.txt"), (f"{h:016x}" for h in unknown_hashes))
+        self._write_lines(os.path.join(self.output, "cdragon/files.exported.txt"), sorted(new_paths))
 
         logger.info("export TFT data files")
         self.export_tft_data()
         logger.info("export Arena data files")
         self.export_arena_data()
 
+    @staticmethod
+    def _write_lines(path, lines):
+        with write_file_or_remove(path) as f:
+            for line in lines:
+                f.write(f"{line}\n".encode('utf-8'))
+
     def export_tft_data(self):
         if self.patch.version != 'main' and self.patch.version < PatchVersion('9.14'):
             return  # no supported TFT data before 9.14
-- 
2.43.0


From 713c43c99e789f2dee765364aa848945b751c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 23/55] fix: don't abort an export on invalid data, nor ignore
 errors when writing images

---
 cdtb/export.py | 103 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 64 insertions(+), 39 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 81e9c3a..3238207 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -4,6 +4,7 @@ import re
 import shutil
 import struct
 import logging
+from contextlib import contextmanager
 from io import BytesIO
 from typing import Dict, List
 from PIL import Image
@@ -597,6 +598,19 @@ class FileConverter:
 class FileConversionError(RuntimeError):
     pass
 
+@contextmanager
+def conversion_errors(message):
+    """Report errors raised when parsing invalid data as a `FileConversionError`
+
+    This must not be used around code writing files: errors on output must not be ignored.
+    """
+    try:
+        yield
+    except FileConversionError:
+        raise
+    except Exception as e:
+        raise FileConversionError(f"{message}: {e}") from e
+
 class CopyConverter(FileConverter):
     """Converter that copy as-is (no actual conversion)"""
 
@@ -626,13 +640,17 @@ class ImageConverter(FileConverter):
 
     def convert(self, fin, output, path):
         output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')
+        data = fin.read()
         with write_file_or_remove(output_path) as fout:
-            try:
-                im = Image.open(fin)
-                im.save(fout)
-            except (OSError, NotImplementedError):
-                # "OSError: cannot identify image file" happen for some files with a wrong extension
-                raise FileConversionError("cannot convert image to PNG")
+            # "OSError: cannot identify image file" happen for some files with a wrong extension
+            fout.write(self.to_png(data))
+
+    @staticmethod
+    def to_png(data):
+        with conversion_errors("cannot convert image to PNG"):
+            fpng = BytesIO()
+            Image.open(BytesIO(data)).save(fpng, format='PNG')
+            return fpng.getvalue()
 
 class TexConverter(FileConverter):
     def __init__(self):
@@ -646,13 +664,9 @@ class TexConverter(FileConverter):
 
     def convert(self, fin, output, path):
         output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')
-        fdds = BytesIO(self.tex_to_dds(fin.read()))
+        data = fin.read()
         with write_file_or_remove(output_path) as fout:
-            try:
-                im = Image.open(fdds)
-                im.save(fout)
-            except (OSError, NotImplementedError):
-                raise FileConversionError("cannot convert image to PNG")
+            fout.write(ImageConverter.to_png(self.tex_to_dds(data)))
 
     @staticmethod
     def tex_to_dds(data):
@@ -732,14 +746,14 @@ class BinConverter(FileConverter):
 
     def convert(self, fin, output, path):
         output_path = os.path.join(output, path)
+        data = fin.read()
         with write_file_or_remove(output_path) as fout:
-            shutil.copyfileobj(fin, fout)
+            fout.write(data)
         with write_file_or_remove(output_path + '.json') as fout:
-            try:
-                binfile = BinFile(output_path, btype_version=self.btype_version)
-            except ValueError as e:
-                raise FileConversionError(f"failed to parse bin file: {e}")
-            fout.write(json_dumps(binfile.to_serializable()).encode('ascii'))
+            with conversion_errors("failed to parse bin file"):
+                binfile = BinFile(BytesIO(data), btype_version=self.btype_version)
+                json_data = json_dumps(binfile.to_serializable()).encode('ascii')
+            fout.write(json_data)
 
 class SknConverter(FileConverter):
     def __init__(self):
@@ -754,16 +768,18 @@ class SknConverter(FileConverter):
 
     def convert(self, fin, output, path):
         output_path = os.path.join(output, path)
+        data = fin.read()
         with write_file_or_remove(output_path) as fout:
-            shutil.copyfileobj(fin, fout)
+            fout.write(data)
         obj_output_path = os.path.join(output, os.path.splitext(path)[0])
         shutil.rmtree(obj_output_path, ignore_errors=True)
+        with conversion_errors("failed to parse skn file"):
+            sknfile = SknFile(BytesIO(data))
+            objs = {entry["name"] + ".obj": sknfile.to_obj(entry) for entry in sknfile.entries}
         with write_dir_or_remove(obj_output_path):
-            sknfile = SknFile(output_path)
-            for entry in sknfile.entries:
-                name = os.path.join(obj_output_path, entry["name"] + ".obj")
-                with open(name, "w") as f:
-                    f.write(sknfile.to_obj(entry))
+            for name, content in objs.items():
+                with open(os.path.join(obj_output_path, name), "w") as f:
+                    f.write(content)
 
 class RstConverter(FileConverter):
     def __init__(self, regex, game_version=1502):
@@ -780,20 +796,21 @@ class RstConverter(FileConverter):
 
     def convert(self, fin, output, path):
         output_path = os.path.join(output, path)
+        data = fin.read()
         with write_file_or_remove(output_path) as fout:
-            shutil.copyfileobj(fin, fout)
-
-        rstfile = RstFile(output_path, self.game_version)
-        hashes = {key_to_rsthash(hash, bits=rstfile.hash_bits): value for hash, value in self.hashes.items()}
-        rst_json = {"entries": {}, "version": rstfile.version}
-        for key, value in rstfile.entries.items():
-            if key in hashes:
-                key = hashes[key]
-            else:
-                key = f"{{{key:010x}}}"
-            rst_json["entries"][key] = value
+            fout.write(data)
 
         with write_file_or_remove(output_path + '.json', False) as fout:
+            with conversion_errors("failed to parse string table"):
+                rstfile = RstFile(BytesIO(data), self.game_version)
+            hashes = {key_to_rsthash(hash, bits=rstfile.hash_bits): value for hash, value in self.hashes.items()}
+            rst_json = {"entries": {}, "version": rstfile.version}
+            for key, value in rstfile.entries.items():
+                if key in hashes:
+                    key = hashes[key]
+                else:
+                    key = f"{{{key:010x}}}"
+                rst_json["entries"][key] = value
             json_dump(rst_json, fout, ensure_ascii=False)
 
 class AtlasInfoConverter(FileConverter):
@@ -808,19 +825,24 @@ class AtlasInfoConverter(FileConverter):
 
     def convert(self, fin, output, path):
         output_path = os.path.join(output, path)
+        data = fin.read()
+        hashes = hashfile_game.load() if data.startswith(b'IMAA') else None
 
         with write_file_or_remove(output_path + ".json", False) as fout:
-            json_dump(self.parse_atlasinfo(fin), fout, ensure_ascii=False)
+            with conversion_errors("failed to parse atlas info"):
+                atlas_info = self.parse_atlasinfo(BytesIO(data), hashes)
+            json_dump(atlas_info, fout, ensure_ascii=False)
 
     @staticmethod
-    def parse_atlasinfo(f):
+    def parse_atlasinfo(f, hashes=None):
         parser = BinaryParser(f)
         atlas_info = {}
 
         maybe_magic = parser.raw(4)
         if maybe_magic == b'IMAA':
             # patch 16.17+, everything is hash based
-            hashes = hashfile_game.load()
+            if hashes is None:
+                hashes = hashfile_game.load()
             atlas_count, = parser.unpack("<L")
             atlas_hashes = [parser.unpack("<Q")[0] for _ in range(atlas_count)]
             atlas_paths = [convert_cdragon_path(hashes[atlas_hash]) if atlas_hash in hashes else f'{{{atlas_hash:016x}}}' for atlas_hash in atlas_hashes]
@@ -853,9 +875,12 @@ class ChampionSkinInfoConverter(FileConverter):
 
     def convert(self, fin, output, path):
         output_path = os.path.join(output, path)
+        data = fin.read()
 
         with write_file_or_remove(output_path + ".json", False) as fout:
-            json_dump(self.parse_championskininfo(fin), fout, ensure_ascii=False)
+            with conversion_errors("failed to parse champion skin info"):
+                skin_info = self.parse_championskininfo(BytesIO(data))
+            json_dump(skin_info, fout, ensure_ascii=False)
 
     @staticmethod
     def parse_championskininfo(f):
-- 
2.43.0


From 7f038892ef99ceef8dfb3bec369df0c4fef0fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 24/55] fix: ignore plain files converted to an invalid path,
 as files from WADs

---
 cdtb/export.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 3238207..efe4d5f 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -280,11 +280,22 @@ class Exporter:
         if not overwrite and converter.converted_paths_exist(self.output, export_path):
             return
 
+        with open(source_path, 'rb') as fin:
+            self._convert_file(converter, fin, export_path)
+
+    def _convert_file(self, converter, fin, path):
+        """Convert a file to the output, ignore files that cannot be converted"""
+
         try:
-            with open(source_path, 'rb') as fin:
-                converter.convert(fin, self.output, export_path)
+            converter.convert(fin, self.output, path)
         except FileConversionError as e:
-            logger.warning(f"cannot convert file '{source_path}': {e}")
+            logger.warning(f"cannot convert file '{path}': {e}")
+        except OSError as e:
+            # Path components longer than 255 are not supported, ignore such files
+            if e.errno in (errno.EINVAL, errno.ENAMETOOLONG):
+                logger.warning(f"ignore file with invalid path: {path}")
+            else:
+                raise
 
     def _export_wad(self, wad, overwrite=True):
         logger.info(f"export {wad.path} ({len(wad.files)})")
@@ -303,16 +314,7 @@ class Exporter:
                 if data is None:
                     continue
 
-                try:
-                    converter.convert(BytesIO(data), self.output, wadfile.path)
-                except FileConversionError as e:
-                    logger.warning(f"cannot convert file '{wadfile.path}': {e}")
-                except OSError as e:
-                    # Path components longer than 255 are not supported, ignore such files
-                    if e.errno in (errno.EINVAL, errno.ENAMETOOLONG):
-                        logger.warning(f"ignore file with invalid path: {wadfile.path}")
-                    else:
-                        raise
+                self._convert_file(converter, BytesIO(data), wadfile.path)
 
 
 class CdragonRawPatchExporter:
-- 
2.43.0


From 1ac91be3506dcc3b8690e3a2c16098b23149486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:07 +0000
Subject: [PATCH 25/55] fix: don't abort an export on invalid numbers in atlas
 info

---
 cdtb/export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index efe4d5f..3e58657 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -832,8 +832,9 @@ class AtlasInfoConverter(FileConverter):
 
         with write_file_or_remove(output_path + ".json", False) as fout:
             with conversion_errors("failed to parse atlas info"):
-                atlas_info = self.parse_atlasinfo(BytesIO(data), hashes)
-            json_dump(atlas_info, fout, ensure_ascii=False)
+                # numbers may be invalid
+                json_data = json_dumps(self.parse_atlasinfo(BytesIO(data), hashes), ensure_ascii=False)
+            fout.write(json_data)
 
     @staticmethod
     def parse_atlasinfo(f, hashes=None):
-- 
2.43.0


From 6a4b5086ce3f226e90f41ac7174ec470d4647db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:07 +0000
Subject: [PATCH 26/55] fix: refuse submesh names which are not filenames

---
 cdtb/sknfile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cdtb/sknfile.py b/cdtb/sknfile.py
index 18b9f4f..5d00271 100644
--- a/cdtb/sknfile.py
+++ b/cdtb/sknfile.py
@@ -1,3 +1,4 @@
+import os
 from .tools import BinaryParser
 
 
@@ -52,8 +53,12 @@ class SknFile:
             del entry["index_count"]
 
     def read_object(self, f):
+        name = f.unpack("64s")[0].split(b"\0", 1)[0].decode("utf-8")
+        if os.path.basename(name) != name:
+            # used as a filename, don't allow to write anywhere
+            raise ValueError(f"invalid submesh name: {name!r}")
         return {
-            "name": f.unpack("64s")[0].split(b"\0", 1)[0].decode("utf-8"),
+            "name": name,
             "start_vertex": f.unpack("<I")[0],
             "vertex_count": f.unpack("<I")[0],
             "start_index": f.unpack("<I")[0],
-- 
2.43.0


From 4d9574705b19720e91fdc3376d3b381b6ee9ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:07 +0000
Subject: [PATCH 27/55] fix: remove extra slash in faces of OBJ files

---
 cdtb/sknfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/sknfile.py b/cdtb/sknfile.py
index 5d00271..170ea5e 100644
--- a/cdtb/sknfile.py
+++ b/cdtb/sknfile.py
@@ -85,6 +85,6 @@ class SknFile:
 
         for i in range(0, len(entry["indices"]), 3):
             a, b, c = entry["indices"][i : i + 3]
-            content += "f {0}/{0}/{0} {1}/{1}/{1}/ {2}/{2}/{2}\n".format(a, b, c)
+            content += "f {0}/{0}/{0} {1}/{1}/{1} {2}/{2}/{2}\n".format(a, b, c)
 
         return content
-- 
2.43.0


From 57cc49f953df81c805c666172b651e90ec85a03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 28/55] fix: don't abort an export on empty directories in
 place of symlinks

---
 cdtb/export.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cdtb/export.py b/cdtb/export.py
index 3e58657..8b03e9e 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -497,6 +497,13 @@ class CdragonRawPatchExporter:
             dst_dir = os.path.dirname(dst)
             os.makedirs(dst_dir, exist_ok=True)
             src = os.path.relpath(os.path.realpath(os.path.join(src_output, link)), os.path.realpath(dst_dir))
+            if os.path.isdir(dst) and not os.path.islink(dst):
+                # empty directories (e.g. from an aborted export) are not cleaned up
+                for path, _, _ in os.walk(dst, topdown=False):
+                    try:
+                        os.rmdir(path)
+                    except OSError:
+                        pass
             if os.path.lexists(dst):
                 if not os.path.islink(dst):
                     raise RuntimeError(f"symlink target already exists: {dst}")
-- 
2.43.0


From 9409680d56ce202ff40eea5a1fb5c5f099b860ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 29/55] fix: don't abort an export on a file in place of the
 directory of a mesh

---
 cdtb/export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdtb/export.py b/cdtb/export.py
index 8b03e9e..a55735c 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -781,6 +781,8 @@ class SknConverter(FileConverter):
         with write_file_or_remove(output_path) as fout:
             fout.write(data)
         obj_output_path = os.path.join(output, os.path.splitext(path)[0])
+        if os.path.isfile(obj_output_path):
+            os.remove(obj_output_path)
         shutil.rmtree(obj_output_path, ignore_errors=True)
         with conversion_errors("failed to parse skn file"):
             sknfile = SknFile(BytesIO(data))
-- 
2.43.0


From 4761f77869ca9b2afacd81e24f58ffeec2d280a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 30/55] fix: don't lose a hash list when saving it fails

---
 cdtb/hashes.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 7619e1f..0f63228 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -9,6 +9,7 @@ import time
 import json
 import struct
 import logging
+import uuid
 from contextlib import contextmanager
 from pathlib import Path
 from typing import Dict
@@ -69,9 +70,20 @@ class HashFile:
         return self.hashes
 
     def save(self):
-        with open(self.filename, 'w', newline='') as f:
-            for h, s in sorted(self.hashes.items(), key=lambda kv: kv[1]):
-                print(self.line_format.format(h, s), file=f)
+        lines = [self.line_format.format(h, s) for h, s in sorted(self.hashes.items(), key=lambda kv: kv[1])]
+        # write to a temporary file: the previous list must not be lost on failure
+        tmp_filename = f"{self.filename}.{uuid.uuid4().hex}.tmp"
+        try:
+            with open(tmp_filename, 'w', newline='') as f:
+                for line in lines:
+                    print(line, file=f)
+            os.replace(tmp_filename, self.filename)
+        except:
+            try:
+                os.remove(tmp_filename)
+            except OSError:
+                pass
+            raise
 
 hashfile_lcu = HashFile(default_hash_dir / "hashes.lcu.txt")
 hashfile_game = HashFile(default_hash_dir / "hashes.game.txt")
-- 
2.43.0


From f2374b1c3f01446521aa2715d870c095beb7dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 31/55] fix: search for LCU hashes in WADs with redirections or
 subchunks

---
 cdtb/hashes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 0f63228..a639ae2 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -371,8 +371,13 @@ class HashGuesser:
                 # skip non-text files as soon as possible
                 if wadfile.ext in ('png', 'jpg', 'ttf', 'webm', 'ogg', 'dds', 'tga'):
                     continue
+                if wadfile.type == 2:
+                    continue # redirection; contains no actual content
+                data = wad.read_file_data(f, wadfile)
+                if not data:
+                    continue
                 try:
-                    data = wadfile.read_data(f).decode('utf-8-sig')
+                    data = data.decode('utf-8-sig')
                 except UnicodeDecodeError:
                     continue
                 if data:
-- 
2.43.0


From fbb143319abafb41f0430e81de3379e9e48b5d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 32/55] fix: don't abort the search for LCU hashes on JSON
 files with a single value

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index a639ae2..3c36354 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -471,7 +471,7 @@ class LcuHashGuesser(HashGuesser):
                 except (json.JSONDecodeError, UnicodeDecodeError):
                     pass
 
-            if jdata is not None:
+            if isinstance(jdata, (dict, list)):
                 if wadfile.path == 'plugins/rcp-fe-lol-loot/global/default/trans.json':
                     # names of hextech items, keys are also image names
                     self.check_iter(f"plugins/rcp-be-lol-game-data/global/default/v1/hextech-images/{k}.png" for k in jdata)
-- 
2.43.0


From b27d6b809ed09964969111e20027aa05408af6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 33/55] fix: don't iterate over known hashes while adding some

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 3c36354..bf89702 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -566,7 +566,7 @@ class LcuHashGuesser(HashGuesser):
         self.check_iter(f'plugins/rcp-be-sanitizer/global/default/{p}' for p in paths)
 
         # plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/{name}.png -> {name}_splash.png
-        for p in self.known.values():
+        for p in list(self.known.values()):
             if p.startswith('plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/'):
                 self.check(p.replace('.png', '_splash.png'))
 
-- 
2.43.0


From 66b83cb466d24ee7ef0a92f26569b4ef5626fa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 34/55] fix: support percent signs in paths when guessing
 hashes

---
 cdtb/hashes.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index bf89702..770b765 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -181,6 +181,11 @@ def progress_iterator(sequence, formatter=None):
 
 
 
+def _escape_format(path):
+    """Escape a path to use it in a '%' format"""
+    return path.replace('%', '%%')
+
+
 class HashGuesser:
     """
     Guess hashes from files
@@ -301,7 +306,7 @@ class HashGuesser:
         for path in paths:
             for m in re_extract.finditer(path):
                 match = m.group(1) + m.group(2)
-                temp_formats.add(format_part % (path[:m.start()], path[m.span()[0]+len(match):]))
+                temp_formats.add(format_part % (_escape_format(path[:m.start()]), _escape_format(path[m.span()[0]+len(match):])))
 
         formats = {fmt.replace("{sep}", sep) for fmt in temp_formats for sep in "-_"}
 
@@ -318,8 +323,8 @@ class HashGuesser:
         formats = set()
         for path in paths:
             for m in re_extract.finditer(path):
-                formats.update('%s%%s%s%s' % (path[:m.start()], sep, path[m.start():]) for sep in "-_")
-                formats.update('%s%s%%s%s' % (path[:m.end()], sep, path[m.end():]) for sep in "-_")
+                formats.update('%s%%s%s%s' % (_escape_format(path[:m.start()]), sep, _escape_format(path[m.start():])) for sep in "-_")
+                formats.update('%s%s%%s%s' % (_escape_format(path[:m.end()]), sep, _escape_format(path[m.end():])) for sep in "-_")
 
         logger.debug(f"add basename word: {len(formats)} formats, {len(words)} words")
         for fmt in progress_iterator(sorted(formats)):
@@ -341,7 +346,7 @@ class HashGuesser:
         formats = set()
         for path in paths:
             for m in re_extract.finditer(path):
-                formats.add('%s%s%s' % (path[:m.start()], fmt, path[m.end():]))
+                formats.add('%s%s%s' % (_escape_format(path[:m.start()]), fmt, _escape_format(path[m.end():])))
 
         nrange = range(nmax)
         logger.debug(f"substitute numbers: {len(formats)} formats, nmax = {nmax}")
@@ -449,7 +454,7 @@ class LcuHashGuesser(HashGuesser):
 
         all_paths = [p for p in self.known.values() if p.startswith('plugins/')]
         plugins = {p.split('/', 2)[1] for p in all_paths}
-        formats = {re.sub(r'^plugins/([^/]+)/', r'plugins/%s/', p) for p in all_paths}
+        formats = {re.sub(r'^plugins/([^/]+)/', r'plugins/%s/', _escape_format(p)) for p in all_paths}
 
         logger.debug(f"substitute plugin: {len(formats)} formats, {len(plugins)} plugins")
         for fmt in progress_iterator(sorted(formats)):
@@ -670,7 +675,7 @@ class GameHashGuesser(HashGuesser):
                 continue
             c = characters.setdefault(char, (set(), set()))
             c[0].add(skin)
-            c[1].add(re.subn(r'(?:base|skin\d+)', '%s', p))
+            c[1].add(re.subn(r'(?:base|skin\d+)', '%s', _escape_format(p)))
 
         # generate all combinations
         logger.debug(f"substitute skin numbers: {len(characters)} characters")
@@ -691,7 +696,7 @@ class GameHashGuesser(HashGuesser):
             prefix, suffix, ext = m.groups()
             if suffix:
                 suffixes.add(suffix)
-            formats.add(f"{prefix}%s{ext}")
+            formats.add(f"{_escape_format(prefix)}%s{_escape_format(ext)}")
 
         # generate all combinations
         logger.debug(f"substitute suffixes: {len(formats)} formats, {len(suffixes)} suffixes")
-- 
2.43.0


From 94d13a1dbdb77ff86471343b4fced780b2b96809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 35/55] fix: try all skins at once when substituting several
 skin numbers

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 770b765..a05fd53 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -681,7 +681,7 @@ class GameHashGuesser(HashGuesser):
         logger.debug(f"substitute skin numbers: {len(characters)} characters")
         for char, (skins, formats) in progress_iterator(characters.items(), lambda v: v[0]):
             for fmt, nocc in formats:
-                self.check_iter(fmt % p for p in itertools.combinations(skins, nocc))
+                self.check_iter(fmt % p for p in itertools.product(skins, repeat=nocc))
 
     def substitute_suffixes(self):
         """Replace `.suffix.ext` using all known suffixes"""
-- 
2.43.0


From e472eb941f0045c703bc5cc1f802661019da1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 36/55] fix: don't ignore directories of new paths when
 checking basenames

---
 cdtb/hashes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index a05fd53..1681e49 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -226,6 +226,7 @@ class HashGuesser:
         print("%016x %s" % (h, p))
         self.known[h] = p
         self.unknown.remove(h)
+        self.__directory_list = None  # may be in a new directory
 
     def check(self, p):
         """Check a single hash, print and add to known on match"""
-- 
2.43.0


From 54ad19b82ce3f7cbd09d79104a2aa0307c77479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 37/55] fix: find LCU paths mentioned as relative paths

---
 cdtb/hashes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 1681e49..8c06204 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -515,7 +515,8 @@ class LcuHashGuesser(HashGuesser):
                             for m in re.finditer(r'\blol-game-data/assets/([a-zA-Z0-9/_.@-]+)', data))
 
             # relative path starting with ./ or ../ (e.g. require() use)
-            relpaths |= {m.group(1) for m in re.finditer(r'[^a-zA-Z0-9/_.\\-]((?:\.|\.\.)/[a-zA-Z0-9/_.-]+)', data)}
+            # they are checked in all directories: leading components don't matter
+            relpaths |= {m.group(1) for m in re.finditer(r'[^a-zA-Z0-9/_.\\-](?:\.\.?/)+([a-zA-Z0-9/_.-]+)', data)}
             # basename or subpath (check for an extension)
             relpaths |= {m.group(1) for m in re.finditer(r'''["']([a-zA-Z0-9][a-zA-Z0-9/_.@-]*\.(?:js|json|webm|html|[a-z]{3}))\b''', data)}
             # template ID to template path
-- 
2.43.0


From 0b43cae31ea07a0040719ede26f6fe8c904a99dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 38/55] fix: don't abort the search for game hashes on names
 which are not ASCII

---
 cdtb/hashes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 8c06204..164f55a 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -873,7 +873,10 @@ class GameHashGuesser(HashGuesser):
                 elif wadfile.ext == 'preload':
                     # preload files
                     for m in re.finditer(br'Name="([^"]+)"', data):
-                        path = m.group(1).lower().decode('ascii')
+                        try:
+                            path = m.group(1).lower().decode('ascii')
+                        except UnicodeDecodeError:
+                            continue
                         if path.endswith('.lua'):
                             self.check(path)
                             self.check(path[:-4] + '.luabin')
@@ -889,7 +892,10 @@ class GameHashGuesser(HashGuesser):
                     if wadfile.path:
                         dirname = os.path.dirname(wadfile.path)
                         for m in re.finditer(br'#include "([^"]+)"', data):
-                            subpath = m.group(1).lower().decode('ascii')
+                            try:
+                                subpath = m.group(1).lower().decode('ascii')
+                            except UnicodeDecodeError:
+                                continue
                             self.check(os.path.normpath(f"{dirname}/{subpath}").replace('\\', '/'))
 
                 elif wadfile.ext == 'atlas':
-- 
2.43.0


From 384523e8982cab1ec68398b6b3d0e31b9b3d770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 39/55] fix: don't fail on files directly in plugins/ when
 substituting plugins

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 164f55a..d12ac20 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -453,7 +453,7 @@ class LcuHashGuesser(HashGuesser):
     def substitute_plugin(self):
         """Guess hashes by changing plugin name"""
 
-        all_paths = [p for p in self.known.values() if p.startswith('plugins/')]
+        all_paths = [p for p in self.known.values() if re.match(r'plugins/[^/]+/', p)]
         plugins = {p.split('/', 2)[1] for p in all_paths}
         formats = {re.sub(r'^plugins/([^/]+)/', r'plugins/%s/', _escape_format(p)) for p in all_paths}
 
-- 
2.43.0


From 6dd46eaa04f6d3e49790e77a9ea05b2666170777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 40/55] fix: reject BIN files cut inside a string

---
 cdtb/binfile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cdtb/binfile.py b/cdtb/binfile.py
index 4f94fad..f4776f2 100644
--- a/cdtb/binfile.py
+++ b/cdtb/binfile.py
@@ -489,7 +489,11 @@ class BinReader:
         return self.read_fmt('<4B')
 
     def read_string(self):
-        return self.f.read(self.read_fmt('<H')[0]).decode('utf-8')
+        length, = self.read_fmt('<H')
+        data = self.f.read(length)
+        if len(data) != length:
+            raise ValueError("truncated string")
+        return data.decode('utf-8')
 
     def read_hash(self):
         return BinHashValue(self.read_fmt('<L')[0])
-- 
2.43.0


From 0ebd9bff6ecbc1d3ba23c2bdec62f38abdebc3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 41/55] fix: don't fail on font configurations which are not
 UTF-8

---
 cdtb/rstfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/rstfile.py b/cdtb/rstfile.py
index cd74ae5..64eb2ac 100644
--- a/cdtb/rstfile.py
+++ b/cdtb/rstfile.py
@@ -67,7 +67,7 @@ class RstFile:
         if version == 2:
             if parser.unpack("<B")[0]:
                 n, = parser.unpack("<L")
-                self.font_config = parser.raw(n).decode("utf-8")
+                self.font_config = parser.raw(n).decode("utf-8", "replace")
             else:
                 self.font_config = None
         elif version == 3:
-- 
2.43.0


From 815b26fcc8705e90dfa8253adf0eec0047c8210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 42/55] fix: keep the last byte of an unterminated text of a
 string table

---
 cdtb/rstfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/rstfile.py b/cdtb/rstfile.py
index 64eb2ac..2b97009 100644
--- a/cdtb/rstfile.py
+++ b/cdtb/rstfile.py
@@ -102,5 +102,5 @@ class RstFile:
                 self.entries[h] = d.decode('utf-8', 'replace')
             else:
                 end = data.find(b"\0", i)
-                d = data[i:end]
+                d = data[i:end] if end >= 0 else data[i:]
                 self.entries[h] = d.decode('utf-8', 'replace')
-- 
2.43.0


From 1f1eb47598280f78acc2caf4fc254ad57341e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 43/55] fix: reject binary files cut inside a string

---
 cdtb/tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index e8ee893..edd2c0b 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -88,7 +88,11 @@ class BinaryParser:
 
     def unpack_string(self):
         """Unpack string prefixed by its 32-bit length"""
-        return self.f.read(self.unpack('<L')[0]).decode('utf-8')
+        length, = self.unpack('<L')
+        data = self.f.read(length)
+        if len(data) != length:
+            raise ValueError("truncated string")
+        return data.decode('utf-8')
 
 def stringtable_paths(base_dir, game):
     """
-- 
2.43.0


From eb2a3e8c4fb65b7a7e6de99d1aa27e1cf08e37e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 44/55] fix: generate TFT and Arena data with the formats of
 the exported patch

---
 cdtb/arenadata.py | 2 +-
 cdtb/export.py    | 3 ++-
 cdtb/tftdata.py   | 4 ++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cdtb/arenadata.py b/cdtb/arenadata.py
index 9538546..b159cf3 100644
--- a/cdtb/arenadata.py
+++ b/cdtb/arenadata.py
@@ -15,7 +15,7 @@ class ArenaTransformer:
         """Parse bin data into template data"""
         map30_file = os.path.join(self.input_dir, "data", "maps", "shipping", "map30", "map30.bin")
 
-        map30 = BinFile(map30_file)
+        map30 = BinFile(map30_file, btype_version=self.game_version)
 
         augments = self.parse_augments(map30)
 
diff --git a/cdtb/export.py b/cdtb/export.py
index a55735c..d1741bc 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -410,8 +410,9 @@ class CdragonRawPatchExporter:
         if self.patch.version != 'main' and self.patch.version < PatchVersion('13.14'):
             return  # no supported Arena data before 13.14
         # don't import in module to be able to execute arenadata module
+        game_version = self.patch.version.as_int()
         from .arenadata import ArenaTransformer
-        transformer = ArenaTransformer(os.path.join(self.output, "game"))
+        transformer = ArenaTransformer(os.path.join(self.output, "game"), game_version)
         transformer.export(os.path.join(self.output, "cdragon/arena"), langs=None)
 
     def _create_exporter(self, patch):
diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index d47d604..cbfac73 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -41,7 +41,7 @@ class TftTransformer:
         """Parse bin data into template data"""
         map22_file = os.path.join(self.input_dir, "data", "maps", "shipping", "map22", "map22.bin")
 
-        map22 = BinFile(map22_file)
+        map22 = BinFile(map22_file, btype_version=self.game_version)
 
         character_names = self.parse_character_names(map22)
         traits = self.parse_traits(map22)
@@ -262,7 +262,7 @@ class TftTransformer:
             if not os.path.exists(self_path):
                 continue
 
-            tft_bin = BinFile(self_path)
+            tft_bin = BinFile(self_path, btype_version=self.game_version)
             record = next((x for x in tft_bin.entries if x.type == "TFTCharacterRecord"), {})
             if "spells" in record:
                 spell_ref = next((s for s in record.getv("spells") if s.h != 0), None)
-- 
2.43.0


From 9afc6fa21d8c3cce6fd8da1eda80e2c8ee14065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 45/55] fix: support TFT data without sets

---
 cdtb/tftdata.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index cbfac73..a083064 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -131,7 +131,7 @@ class TftTransformer:
         return {x.path: x.getv("name").lower() for x in map22.entries if x.type == "Character" or x.type == "TftCharacter"}
 
     def parse_sets(self, map22, character_names, traits):
-        """Parse character sets to a list of `(name, number, characters, traits, augments, items)`"""
+        """Parse character sets to a list of `(number, mutator, name, characters, traits, augments, items)`"""
         character_lists = {x.path: x for x in map22.entries if x.type == "MapCharacterList" or x.type == "TftCharacterList"}
         trait_lists = {x.path: x for x in map22.entries if x.type == "TftTraitList"}
         set_collection = [x for x in map22.entries if x.type == "TFTSetData"]
@@ -140,13 +140,11 @@ class TftTransformer:
 
         if not set_collection:
             # backward compatibility
-            longest_character_list = max(character_lists.values(), key=lambda v: len(v.fields[0].value))
-            longest_trait_list = max(trait_lists.values(), key=lambda v: len(v.fields[0].value))
-            champion_list = longest_character_list.fields[0].value
-            trait_list = longest_trait_list.fields[0].value
-            set_characters = [character_names.get(char) for char in champion_list]
-            set_traits = [traits.get(trait) for trait in trait_list]
-            return [(1, "Base", set_characters, set_traits)]
+            champion_list = max((v.fields[0].value.values for v in character_lists.values()), key=len)
+            trait_list = max((v.fields[0].value.values for v in trait_lists.values()), key=len)
+            set_characters = [character_names[char] for char in champion_list if char in character_names]
+            set_traits = [traits[trait] for trait in trait_list if trait in traits]
+            return [(1, None, "Base", set_characters, set_traits, [], [])]
 
         sets = []
         for item in set_collection:
-- 
2.43.0


From 56914c904dbe5e1b838065ef3f8042de90a514d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 46/55] fix: read the first and last translations of font
 configurations

---
 cdtb/tftdata.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index a083064..07d0787 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -1,4 +1,5 @@
 import os
+import re
 import copy
 from .storage import PatchVersion
 from .binfile import BinFile, BinEmbedded
@@ -12,14 +13,13 @@ def load_translations(path, game_version=1502):
             f.seek(0)
             return RstFile(f, game_version)
         else:
+            f.seek(0)
+            # Files may contain invalid characters, as string tables
+            data = f.read().decode("utf-8-sig", "replace")
             translations = {}
-            for line in f:
-                if line.startswith(b'tr "'):
-                    line = line.decode()
-                    key, val = line.split("=", 1)
-                    key = key[4:-2]
-                    val = val[2:-2]
-                    translations[key] = val
+            for line in data.split("\n"):
+                if m := re.match(r'tr "(.*?)" = "(.*)"\s*$', line):
+                    translations[m.group(1)] = m.group(2)
             return translations
 
 def collect_effects(data):
-- 
2.43.0


From a3d282cdc57aab43d04859c064af657db44a141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 47/55] fix: don't translate TFT data shared by several sets
 again

---
 cdtb/tftdata.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index 07d0787..f643ae4 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -75,11 +75,20 @@ class TftTransformer:
             instance = copy.deepcopy(template)
             replacements = load_translations(stringtables[lang], self.game_version)
 
+            # data may be shared (e.g. between sets), don't translate it again
+            translated = set()
+
             def replace_in_data(entry):
+                if id(entry) in translated:
+                    return
+                translated.add(id(entry))
                 for key in ("name", "desc"):
                     if key in entry and entry[key] in replacements:
                         entry[key] = replacements[entry[key]]
             def replace_list(l):
+                if id(l) in translated:
+                    return
+                translated.add(id(l))
                 l[:] = [replacements.get(v, v) for v in l]
 
             def replace_set_data(entry):
-- 
2.43.0


From a96a69fe66f45e80f8612c8dabf80fbf99044ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 48/55] fix: use former fields for icons of TFT champions

---
 cdtb/tftdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index f643ae4..d79bd96 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -318,7 +318,7 @@ class TftTransformer:
                 "characterName": record.getv("mCharacterName"),
                 "name": champ.getv("mDisplayNameTra"),
                 "cost": cost,
-                "icon": str(champ.getv("PcSplashPath")) or champ.getv("mIconPath"),
+                "icon": str(champ.getv("PcSplashPath") or champ.getv("mIconPath")),
                 "tileIcon": str(champ.getv("TeamPlannerPortraitPath")),
                 "squareIcon": str(champ.getv("SquareSplashPath")),
                 "traits": [traits[h]["name"] for h in champ_traits if h in traits],
@@ -338,7 +338,7 @@ class TftTransformer:
                 "ability": {
                     "name": champ.getv("mAbilityNameTra") or spell_key_name,
                     "desc": champ.getv("mDescriptionTra") or spell_key_tooltip,
-                    "icon": str(champ.getv("AbilityIconPath")) or champ.getv("mPortraitIconPath"),
+                    "icon": str(champ.getv("AbilityIconPath") or champ.getv("mPortraitIconPath")),
                     "variables": ability_variables,
                 },
             }, champ_traits)
-- 
2.43.0


From ffcad57ce76d740a6011640e4ab64971b9152819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 49/55] fix: don't depend on the locale to write text files

---
 cdtb/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index edd2c0b..0f76f7a 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -34,7 +34,7 @@ def write_file_or_remove(path, binary=True):
     tmp_path = os.path.join(dirname, f".{uuid.uuid4().hex}{ext}")
     try:
         os.makedirs(dirname, exist_ok=True)
-        with open(tmp_path, 'wb' if binary else 'w') as f:
+        with open(tmp_path, 'wb') if binary else open(tmp_path, 'w', encoding='utf-8') as f:
             yield f
         os.replace(tmp_path, path)
     except:
-- 
2.43.0


From bdd4f455e5f587e6b80cd3c6fcd8ab418cd7a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 50/55] fix: never leave truncated TFT and Arena data files

---
 cdtb/arenadata.py | 4 ++--
 cdtb/tftdata.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cdtb/arenadata.py b/cdtb/arenadata.py
index b159cf3..69530e3 100644
--- a/cdtb/arenadata.py
+++ b/cdtb/arenadata.py
@@ -3,7 +3,7 @@ import copy
 from .storage import PatchVersion
 from .binfile import BinFile
 from .rstfile import RstFile
-from .tools import convert_cdragon_path, json_dump, stringtable_paths
+from .tools import convert_cdragon_path, json_dump, stringtable_paths, write_file_or_remove
 
 
 class ArenaTransformer:
@@ -49,7 +49,7 @@ class ArenaTransformer:
             for augment in instance["augments"]:
                 replace_in_data(augment)
 
-            with open(os.path.join(output, f"{lang}.json"), "w", encoding="utf-8") as f:
+            with write_file_or_remove(os.path.join(output, f"{lang}.json"), False) as f:
                 json_dump(instance, f, indent=4, sort_keys=True, ensure_ascii=False)
 
     def parse_augments(self, map30):
diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index d79bd96..56efc14 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -4,7 +4,7 @@ import copy
 from .storage import PatchVersion
 from .binfile import BinFile, BinEmbedded
 from .rstfile import RstFile
-from .tools import json_dump, stringtable_paths
+from .tools import json_dump, stringtable_paths, write_file_or_remove
 
 
 def load_translations(path, game_version=1502):
@@ -107,7 +107,7 @@ class TftTransformer:
             for data in instance["items"]:
                 replace_in_data(data)
 
-            with open(os.path.join(output, f"{lang}.json"), "w", encoding="utf-8") as f:
+            with write_file_or_remove(os.path.join(output, f"{lang}.json"), False) as f:
                 json_dump(instance, f, indent=4, sort_keys=True, ensure_ascii=False)
 
     def build_output_sets(self, sets, champs):
-- 
2.43.0


From 80f54c479d3552f9d0eecc692e03688b58c2af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 51/55] fix: update latest.timestamp after an interrupted
 update

If an update was interrupted after recording the release, latest.timestamp
was left outdated or missing until the next release.
---
 cdtb/patcher.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 233494b..c0de433 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -374,17 +374,19 @@ class PatcherStorage(Storage):
         # `latest.timestamp` may be outdated if a previous update has been interrupted
         latest_release = next(self.iter_releases(), None)
         if latest_release and release_info == latest_release.data:
-            return  # already up to date
-
-        # Create the release information file and update `latest.timestamp`
-        timestamp = int(time.time())
-        if latest_release:
-            # don't overwrite it, even if clock moved backward
-            timestamp = max(timestamp, latest_release.version + 1)
-        base = self.base_release_path()
-        with write_file_or_remove(f"{base}/{timestamp}/release.json", binary=False) as f:
-            json.dump(release_info, f)
-        with write_file_or_remove(f"{base}/latest.timestamp", binary=False) as f:
+            if self.latest_timestamp() == latest_release.version:
+                return  # already up to date
+            timestamp = latest_release.version
+        else:
+            # Create the release information file
+            timestamp = int(time.time())
+            if latest_release:
+                # don't overwrite it, even if clock moved backward
+                timestamp = max(timestamp, latest_release.version + 1)
+            with write_file_or_remove(f"{self.base_release_path()}/{timestamp}/release.json", binary=False) as f:
+                json.dump(release_info, f)
+        # Update `latest.timestamp`
+        with write_file_or_remove(f"{self.base_release_path()}/latest.timestamp", binary=False) as f:
             print(f"{timestamp}", file=f)
 
     def get_latest_client_manifest(self):
@@ -416,7 +418,10 @@ class PatcherStorage(Storage):
         if not os.path.exists(path):
             return None
         with open(path) as f:
-            return int(f.read().strip())
+            try:
+                return int(f.read().strip())
+            except ValueError:
+                return None  # not completely written
 
     def download_manifest(self, id_or_url):
         """Download a manifest from its ID or full URL if needed, return its path in the storage"""
-- 
2.43.0


From 430267f47fb6cceb941b503c69a94908c9756233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 52/55] fix: refuse TEX files too short for their largest level

---
 cdtb/export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdtb/export.py b/cdtb/export.py
index d1741bc..8af57fb 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -733,6 +733,8 @@ class TexConverter(FileConverter):
             block_width = (width + block_size - 1) // block_size
             block_height = (height + block_size - 1) // block_size
             mipmap_size = bytes_per_block * block_width * block_height
+            if len(data) < 12 + mipmap_size:
+                raise FileConversionError("truncated TEX file")
             pixels = data[-mipmap_size:]
         else:
             pixels = data[12:]
-- 
2.43.0


From d14c9580a33d672cca485475f93aee72cc8fe96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 53/55] fix: skip links below directories whose name is too
 long

The directory of a link was created before names refused by the file system
were handled, which aborted exports.
---
 cdtb/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 8af57fb..1466e82 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -496,7 +496,6 @@ class CdragonRawPatchExporter:
         for link in symlinks:
             dst = os.path.join(dst_output, link)
             dst_dir = os.path.dirname(dst)
-            os.makedirs(dst_dir, exist_ok=True)
             src = os.path.relpath(os.path.realpath(os.path.join(src_output, link)), os.path.realpath(dst_dir))
             if os.path.isdir(dst) and not os.path.islink(dst):
                 # empty directories (e.g. from an aborted export) are not cleaned up
@@ -514,6 +513,7 @@ class CdragonRawPatchExporter:
                 os.remove(dst)
             logger.info(f"create symlink {dst}")
             try:
+                os.makedirs(dst_dir, exist_ok=True)
                 os.symlink(src, dst)
             except OSError as e:
                 # Path components longer than 255 are not supported, ignore such files
-- 
2.43.0


From 047f881c4fe3b52c9263f1941b46cbfa1c91cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 54/55] fix: remove earlier exports of WAD entries which cannot
 be read anymore

The content exported from another patch or an earlier release was kept under
the name of the unreadable entry.
---
 cdtb/export.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 1466e82..6782d9b 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -219,8 +219,9 @@ class Exporter:
         for export_path, source_path in self.plain_files.items():
             self._export_plain_file(export_path, source_path, overwrite)
 
+        exported_paths = set()
         for wad in self.wads.values():
-            self._export_wad(wad, overwrite)
+            self._export_wad(wad, exported_paths, overwrite)
 
     def clean_output_dir(self, kept_files, kept_symlinks):
         """Remove regular files (or directories) and symlinks from output, except given ones
@@ -297,7 +298,17 @@ class Exporter:
             else:
                 raise
 
-    def _export_wad(self, wad, overwrite=True):
+    def _remove_converted_paths(self, converter, path):
+        """Remove files a path has been converted to by an earlier export"""
+
+        for converted_path in converter.converted_paths(path):
+            full_path = os.path.join(self.output, converted_path)
+            if os.path.isdir(full_path) and not os.path.islink(full_path):
+                shutil.rmtree(full_path)
+            elif os.path.lexists(full_path):
+                os.remove(full_path)
+
+    def _export_wad(self, wad, exported_paths, overwrite=True):
         logger.info(f"export {wad.path} ({len(wad.files)})")
         # similar to Wad.extract()
         # unknown files are skipped
@@ -312,8 +323,12 @@ class Exporter:
 
                 data = wad.read_file_data(fwad, wadfile)
                 if data is None:
+                    # it may have been exported from another WAD
+                    if wadfile.path not in exported_paths:
+                        self._remove_converted_paths(converter, wadfile.path)
                     continue
 
+                exported_paths.add(wadfile.path)
                 self._convert_file(converter, BytesIO(data), wadfile.path)
 
 
-- 
2.43.0


From 37fa4ee6df1f9a44aa936feb877d6202de0fc468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:26 +0000
Subject: [PATCH 55/55] fix: give hashed values of BIN files the hash of the
 number they are equal to

---
 cdtb/binfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/binfile.py b/cdtb/binfile.py
index f4776f2..8aa07b3 100644
--- a/cdtb/binfile.py
+++ b/cdtb/binfile.py
@@ -58,7 +58,7 @@ class BinHashBase:
     to_serializable = __str__
 
     def __hash__(self):
-        return self.h
+        return hash(self.h)
 
     @classmethod
     def compute_hash(cls, s):
-- 
2.43.0

