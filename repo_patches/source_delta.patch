From 4a67258337c901671eb875ee840cb1689fbebb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 01/54] fix: PatcherManifest: allow to parse an open file

---
 cdtb/patcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 24e3fc4..beeaac4 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -85,7 +85,7 @@ class PatcherManifest:
                 with open(path_or_f, "rb") as f:
                     self.parse_rman(f)
             else:
-                self.parse_rman(f)
+                self.parse_rman(path_or_f)
 
     def filter_files(self, langs=True) -> List[PatcherFile]:
         """Filter files from the manifest with provided filters"""
-- 
2.43.0


From a6bd67899e59a6025cd3fb946f45eb05607d1529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 02/54] fix: report subchunks missing from the subchunktoc as
 malformed

---
 cdtb/wad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdtb/wad.py b/cdtb/wad.py
index 4c49e78..dd3b533 100644
--- a/cdtb/wad.py
+++ b/cdtb/wad.py
@@ -109,6 +109,8 @@ class WadFileHeader:
                 chunks_data = []
                 offset = 0
                 for index in range(self.first_subchunk_index, self.first_subchunk_index + self.subchunk_count):
+                    if len(subchunk_toc) < 16*(index+1):
+                        raise MalformedSubchunkError(data)
                     compressed_size, uncompressed_size, subchunk_hash = struct.unpack('<IIQ', subchunk_toc[16*index:16*(index+1)])
                     # ensure wad data matches with the subchunktoc data
                     subchunk_data = data[offset:offset+compressed_size]
-- 
2.43.0


From 2c12d1385158a50da81e089dcb9d5f8c95f49eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 03/54] fix: SknFile: don't write malformed OBJ faces

---
 cdtb/sknfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/sknfile.py b/cdtb/sknfile.py
index 18b9f4f..793f6c1 100644
--- a/cdtb/sknfile.py
+++ b/cdtb/sknfile.py
@@ -80,6 +80,6 @@ class SknFile:
 
         for i in range(0, len(entry["indices"]), 3):
             a, b, c = entry["indices"][i : i + 3]
-            content += "f {0}/{0}/{0} {1}/{1}/{1}/ {2}/{2}/{2}\n".format(a, b, c)
+            content += "f {0}/{0}/{0} {1}/{1}/{1} {2}/{2}/{2}\n".format(a, b, c)
 
         return content
-- 
2.43.0


From 404068eb2dcf54a172dc4fcd347802da0f547544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 04/54] fix: don't abort exports on malformed files

---
 cdtb/export.py | 65 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index e8422f0..cfaac85 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -4,6 +4,7 @@ import re
 import shutil
 import struct
 import logging
+from contextlib import contextmanager
 from io import BytesIO
 from typing import Dict, List
 from PIL import Image
@@ -585,6 +586,16 @@ class FileConverter:
 class FileConversionError(RuntimeError):
     pass
 
+@contextmanager
+def conversion_errors(message):
+    """Report any error due to the content of a malformed file as a FileConversionError"""
+    try:
+        yield
+    except (FileConversionError, FileNotFoundError):
+        raise  # note: hash files may be missing
+    except Exception as e:
+        raise FileConversionError(f"{message}: {e!r}")
+
 class CopyConverter(FileConverter):
     """Converter that copy as-is (no actual conversion)"""
 
@@ -614,13 +625,14 @@ class ImageConverter(FileConverter):
 
     def convert(self, fin, output, path):
         output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')
+        # convert in memory: errors when writing the file are not conversion errors
+        fpng = BytesIO()
+        with conversion_errors("cannot convert image to PNG"):
+            # "OSError: cannot identify image file" happen for some files with a wrong extension
+            im = Image.open(fin)
+            im.save(fpng, 'PNG')
         with write_file_or_remove(output_path) as fout:
-            try:
-                im = Image.open(fin)
-                im.save(fout)
-            except (OSError, NotImplementedError):
-                # "OSError: cannot identify image file" happen for some files with a wrong extension
-                raise FileConversionError("cannot convert image to PNG")
+            fout.write(fpng.getvalue())
 
 class TexConverter(FileConverter):
     def __init__(self):
@@ -635,12 +647,12 @@ class TexConverter(FileConverter):
     def convert(self, fin, output, path):
         output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')
         fdds = BytesIO(self.tex_to_dds(fin.read()))
+        fpng = BytesIO()
+        with conversion_errors("cannot convert image to PNG"):
+            im = Image.open(fdds)
+            im.save(fpng, 'PNG')
         with write_file_or_remove(output_path) as fout:
-            try:
-                im = Image.open(fdds)
-                im.save(fout)
-            except (OSError, NotImplementedError):
-                raise FileConversionError("cannot convert image to PNG")
+            fout.write(fpng.getvalue())
 
     @staticmethod
     def tex_to_dds(data):
@@ -723,11 +735,10 @@ class BinConverter(FileConverter):
         with write_file_or_remove(output_path) as fout:
             shutil.copyfileobj(fin, fout)
         with write_file_or_remove(output_path + '.json') as fout:
-            try:
+            with conversion_errors("failed to parse bin file"):
                 binfile = BinFile(output_path, btype_version=self.btype_version)
-            except ValueError as e:
-                raise FileConversionError(f"failed to parse bin file: {e}")
-            fout.write(json_dumps(binfile.to_serializable()).encode('ascii'))
+                data = json_dumps(binfile.to_serializable()).encode('ascii')
+            fout.write(data)
 
 class SknConverter(FileConverter):
     def __init__(self):
@@ -747,11 +758,14 @@ class SknConverter(FileConverter):
         obj_output_path = os.path.join(output, os.path.splitext(path)[0])
         shutil.rmtree(obj_output_path, ignore_errors=True)
         with write_dir_or_remove(obj_output_path):
-            sknfile = SknFile(output_path)
-            for entry in sknfile.entries:
-                name = os.path.join(obj_output_path, entry["name"] + ".obj")
-                with open(name, "w") as f:
-                    f.write(sknfile.to_obj(entry))
+            with conversion_errors("failed to parse skn file"):
+                sknfile = SknFile(output_path)
+                objs = [(entry["name"], sknfile.to_obj(entry)) for entry in sknfile.entries]
+            for name, obj in objs:
+                if '/' in name or '\\' in name:
+                    raise FileConversionError(f"invalid name in skn file: {name!r}")
+                with open(os.path.join(obj_output_path, name + ".obj"), "w") as f:
+                    f.write(obj)
 
 class RstConverter(FileConverter):
     def __init__(self, regex, game_version=1502):
@@ -771,7 +785,8 @@ class RstConverter(FileConverter):
         with write_file_or_remove(output_path) as fout:
             shutil.copyfileobj(fin, fout)
 
-        rstfile = RstFile(output_path, self.game_version)
+        with conversion_errors("failed to parse stringtable"):
+            rstfile = RstFile(output_path, self.game_version)
         hashes = {key_to_rsthash(hash, bits=rstfile.hash_bits): value for hash, value in self.hashes.items()}
         rst_json = {"entries": {}, "version": rstfile.version}
         for key, value in rstfile.entries.items():
@@ -798,7 +813,9 @@ class AtlasInfoConverter(FileConverter):
         output_path = os.path.join(output, path)
 
         with write_file_or_remove(output_path + ".json", False) as fout:
-            json_dump(self.parse_atlasinfo(fin), fout, ensure_ascii=False)
+            with conversion_errors("failed to parse atlas info"):
+                atlas_info = self.parse_atlasinfo(fin)
+            json_dump(atlas_info, fout, ensure_ascii=False)
 
     @staticmethod
     def parse_atlasinfo(f):
@@ -843,7 +860,9 @@ class ChampionSkinInfoConverter(FileConverter):
         output_path = os.path.join(output, path)
 
         with write_file_or_remove(output_path + ".json", False) as fout:
-            json_dump(self.parse_championskininfo(fin), fout, ensure_ascii=False)
+            with conversion_errors("failed to parse champion skins"):
+                skin_info = self.parse_championskininfo(fin)
+            json_dump(skin_info, fout, ensure_ascii=False)
 
     @staticmethod
     def parse_championskininfo(f):
-- 
2.43.0


From d9ad143508e1ceedc7723a5c219e098afe2d6a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 05/54] fix: don't list "cdragon" in exported files

---
 cdtb/export.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index cfaac85..ffbc26d 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -357,8 +357,7 @@ class CdragonRawPatchExporter:
                 symlinked_paths = reduce_common_paths(new_paths - changed_paths, prev_paths, changed_paths)
 
         # exclude generated "cdragon" files
-        changed_paths.add("cdragon")
-        exporter.clean_output_dir(changed_paths, set(symlinked_paths or []))
+        exporter.clean_output_dir(changed_paths | {"cdragon"}, set(symlinked_paths or []))
 
         # extract files, create symlinks if needed
         exporter.export(overwrite=overwrite)
-- 
2.43.0


From 5dbca9128147b785347995a055c512c0bf99cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 06/54] fix: remove list of links of a previous export if there
 are no more links

---
 cdtb/export.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index ffbc26d..e515ff5 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -367,10 +367,14 @@ class CdragonRawPatchExporter:
         # write additional txt files
         os.makedirs(os.path.join(self.output, "cdragon"), exist_ok=True)
 
+        links_path = os.path.join(self.output, "cdragon/files.links.txt")
         if symlinked_paths:
-            with open(os.path.join(self.output, "cdragon/files.links.txt"), 'w', newline='\n') as f:
+            with open(links_path, 'w', newline='\n') as f:
                 for link in sorted(symlinked_paths):
                     print(link, file=f)
+        elif os.path.exists(links_path):
+            # from a previous export
+            os.remove(links_path)
 
         with open(os.path.join(self.output, "cdragon/files.unknown.txt"), 'w', newline='\n') as f:
             for h in unknown_hashes:
-- 
2.43.0


From d0ba70fe68c83fe15226412c4090314466058948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 07/54] fix: don't lose files of old WADs and moved files in
 exports with links

---
 cdtb/export.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index e515ff5..6467f89 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -192,19 +192,22 @@ class Exporter:
             self_wad = self.wads.get(path)
             if self_wad is None:
                 continue  # not exported
+            # note: export paths must be compared too, they depend on the patch
             if self_wad.path == other_wad.path:
                 # same path: WADs are identical
                 logger.debug(f"filter identical WAD file: {path}")
-                del self.wads[path]
+                other_paths = {(wf.path_hash, wf.path) for wf in other_wad.files}
+                self_wad.files = [wf for wf in self_wad.files if (wf.path_hash, wf.path) not in other_paths]
             else:
                 # compare the sha256 hashes to find the common files
                 # don't resolve hashes: we just need the sha256
+                # old WADs don't have sha256 hashes: assume files are modified
                 logger.debug(f"filter modified WAD file: {path}")
-                other_sha256 = {wf.path_hash: wf.sha256 for wf in other_wad.files}
+                other_sha256 = {(wf.path_hash, wf.path): wf.sha256 for wf in other_wad.files}
                 # change the files from the wad so it only extract these
-                self_wad.files = [wf for wf in self_wad.files if wf.sha256 != other_sha256.get(wf.path_hash)]
-                if not self_wad.files:
-                    del self.wads[path]
+                self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or wf.sha256 != other_sha256.get((wf.path_hash, wf.path))]
+            if not self_wad.files:
+                del self.wads[path]
 
     def export(self, overwrite=True):
         """Export files to the output
-- 
2.43.0


From 534c16732a6c6660347ffde5a5a146544c6bb2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:04 +0000
Subject: [PATCH 08/54] fix: don't abort exports with links because of
 remaining empty directories

---
 cdtb/export.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cdtb/export.py b/cdtb/export.py
index 6467f89..2ed32bc 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -262,6 +262,13 @@ class Exporter:
             except OSError:
                 pass
 
+        # remaining empty directories must not prevent the creation of symlinks
+        for path in kept_symlinks:
+            full_path = os.path.join(self.output, path)
+            if os.path.isdir(full_path) and not os.path.islink(full_path):
+                for base, _, _ in os.walk(full_path, topdown=False):
+                    os.rmdir(base)
+
 
     def _get_converter(self, path):
         """Get converter that handles the given path, or None"""
-- 
2.43.0


From 436c07452d23c2c00c537b680a1f2aafe6aaa910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 09/54] fix: remove previous outputs of files which cannot be
 exported

---
 cdtb/export.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cdtb/export.py b/cdtb/export.py
index 2ed32bc..953b51e 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -289,6 +289,17 @@ class Exporter:
                 converter.convert(fin, self.output, export_path)
         except FileConversionError as e:
             logger.warning(f"cannot convert file '{source_path}': {e}")
+            self._remove_previous_files(p for p in converter.converted_paths(export_path) if p != export_path)
+
+    def _remove_previous_files(self, paths):
+        """Remove exported files of a previous export, which cannot be exported anymore"""
+
+        for path in paths:
+            full_path = os.path.join(self.output, path)
+            if os.path.isdir(full_path):
+                shutil.rmtree(full_path)
+            elif os.path.exists(full_path):
+                os.remove(full_path)
 
     def _export_wad(self, wad, overwrite=True):
         logger.info(f"export {wad.path} ({len(wad.files)})")
@@ -305,12 +316,14 @@ class Exporter:
 
                 data = wad.read_file_data(fwad, wadfile)
                 if data is None:
+                    self._remove_previous_files(converter.converted_paths(wadfile.path))
                     continue
 
                 try:
                     converter.convert(BytesIO(data), self.output, wadfile.path)
                 except FileConversionError as e:
                     logger.warning(f"cannot convert file '{wadfile.path}': {e}")
+                    self._remove_previous_files(p for p in converter.converted_paths(wadfile.path) if p != wadfile.path)
                 except OSError as e:
                     # Path components longer than 255 are not supported, ignore such files
                     if e.errno in (errno.EINVAL, errno.ENAMETOOLONG):
-- 
2.43.0


From b195a74b6e126d328b36722a15fce773edcf45ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 10/54] fix: never leave partially written files when
 interrupted

---
 cdtb/patcher.py |  2 +-
 cdtb/rads.py    |  2 +-
 cdtb/tools.py   | 15 +++++++++++----
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index beeaac4..d2a30d9 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -603,7 +603,7 @@ class PatcherReleaseElement:
             if version is None:
                 logger.warning(f"failed to retrieve patch version of {self}")
             else:
-                with open(cache, 'w') as f:
+                with write_file_or_remove(cache, binary=False) as f:
                     f.write(f"{version}\n")
         return version
 
diff --git a/cdtb/rads.py b/cdtb/rads.py
index 3cdce6d..a101258 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -327,7 +327,7 @@ class RadsSolutionVersion:
             if version is None:
                 logger.warning(f"failed to retrieve patch version for {self}")
             else:
-                with open(cache, 'w') as f:
+                with write_file_or_remove(cache, binary=False) as f:
                     f.write(f"{version}\n")
         return version
 
diff --git a/cdtb/tools.py b/cdtb/tools.py
index c45fdad..677e1d5 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -6,6 +6,7 @@ import struct
 from contextlib import contextmanager
 
 import pyzstd
+from xxhash import xxh64_hexdigest
 zstd_decompress = pyzstd.decompress
 try:
     import ujson
@@ -23,16 +24,22 @@ except ImportError:
 def write_file_or_remove(path, binary=True):
     """Open a file for writing, create its parent directory if needed
 
-    If the writing fails, the file is removed.
+    Data is written to a temporary file, moved to `path` once complete. This way,
+    the file is never partially written, even if the process is killed.
+    If the writing fails, the temporary file is removed and `path` is left unchanged.
     """
+    dirname, basename = os.path.split(path)
+    # use a short name: file name may already have the maximum length
+    tmp_path = os.path.join(dirname, f".{xxh64_hexdigest(os.fsencode(basename))}.part")
     try:
-        os.makedirs(os.path.dirname(path), exist_ok=True)
-        with open(path, 'wb' if binary else 'w') as f:
+        os.makedirs(dirname, exist_ok=True)
+        with open(tmp_path, 'wb' if binary else 'w') as f:
             yield f
+        os.replace(tmp_path, path)
     except:
         # remove partially written file
         try:
-            os.remove(path)
+            os.remove(tmp_path)
         except OSError:
             pass
         raise
-- 
2.43.0


From 781a5c979bf773356ca453d526b9a83155df6b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:16 +0000
Subject: [PATCH 11/54] fix: don't fail on long numbers or deep nesting when
 guessing extensions

---
 cdtb/wad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/wad.py b/cdtb/wad.py
index dd3b533..0ed6147 100644
--- a/cdtb/wad.py
+++ b/cdtb/wad.py
@@ -172,7 +172,8 @@ class WadFileHeader:
         try:
             json.loads(data)
             return 'json'
-        except (json.JSONDecodeError, UnicodeDecodeError):
+        except (ValueError, RecursionError):
+            # includes JSONDecodeError, UnicodeDecodeError, and errors on very long numbers
             pass
 
         # Unknown
-- 
2.43.0


From c7203815a5b6a4720f2a40968c569082807a2506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:22 +0000
Subject: [PATCH 12/54] fix: export: allow to update all exported patches with
 --from

---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index b35c851..8ec5f64 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -270,7 +270,7 @@ def command_export(parser, args):
         # multiple patches (update only)
         if args.previous:
             parser.error("patch version required with --previous or --full")
-        if args.first:
+        if not args.first:
             parser.error("--from is required when no patch is provided")
         exporters = CdragonRawPatchExporter.from_directory(storage, args.output, PatchVersion(args.first), symlinks=symlinks)
         for exporter in exporters:
-- 
2.43.0


From 6f3d72502e8b702b2052fba55eb89e26de4e8df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:22 +0000
Subject: [PATCH 13/54] fix: don't raise StopIteration when looking up the
 latest patch of an empty storage

---
 cdtb/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/storage.py b/cdtb/storage.py
index 15506ff..ced0e2a 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -313,7 +313,7 @@ class Storage(metaclass=StorageRegister):
 
         it = self.patches(stored=stored)
         if version is None:
-            return next(it)
+            return next(it, None)
         for p in it:
             if p.version == version:
                 return p
-- 
2.43.0


From ebfdc393e7ef9f7b522bff37fa858ec380281689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:22 +0000
Subject: [PATCH 14/54] fix: export: report an error when there is no previous
 patch to guess

---
 cdtb/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 8ec5f64..69c9daf 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -293,9 +293,11 @@ def command_export(parser, args):
             it = storage.patches(stored=True)
             for v in it:
                 if v.version == patch.version:
-                    previous_patch = next(it)
+                    previous_patch = next(it, None)
                     break
             else:
+                previous_patch = None
+            if previous_patch is None:
                 parser.error("cannot guess previous patch")
 
         exporter = CdragonRawPatchExporter(os.path.join(args.output, str(patch.version)), patch, previous_patch, symlinks=symlinks)
-- 
2.43.0


From 1357caef47becc46bb273102fd05c9d636df486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:22 +0000
Subject: [PATCH 15/54] fix: ignore directories not named after a patch when
 updating exported patches

---
 cdtb/export.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 953b51e..d663309 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -543,8 +543,10 @@ class CdragonRawPatchExporter:
                 continue
             try:
                 version = PatchVersion(path)
-            except (ValueError, TypeError):
+            except (ValueError, TypeError, AssertionError):
                 continue
+            if str(version) != path:
+                continue  # e.g. '8.9.1', not the directory of a patch
             versions.add(version)
 
         if not versions:
-- 
2.43.0


From 55b8d306c1b7034526b9827bcff279d4ec2be3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 16/54] fix: ignore directories older than the first patch when
 updating exported patches

---
 cdtb/export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index d663309..d103d17 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -547,6 +547,8 @@ class CdragonRawPatchExporter:
                 continue
             if str(version) != path:
                 continue  # e.g. '8.9.1', not the directory of a patch
+            if first and version < first:
+                continue
             versions.add(version)
 
         if not versions:
@@ -555,8 +557,6 @@ class CdragonRawPatchExporter:
         # get patches from versions (latest to oldest)
         patches = []
         for patch in storage.patches(stored=True):
-            if first and patch.version < first:
-                break
             if patch.version in versions:
                 patches.append(patch)
                 versions.remove(patch.version)
-- 
2.43.0


From 6e13861b53ee2ed9cb2a241ef1acda48d0448c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 17/54] fix: patcher: support lists of languages

---
 cdtb/patcher.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index d2a30d9..182831e 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -69,8 +69,11 @@ class PatcherFile:
         elif langs is True:
             return lambda f: True
         else:
-            lang = langs.lower()  # compare lowercased
-            return lambda f: f.flags is not None and any(f.lower() == lang for f in f.flags)
+            # single language, or list of languages
+            if isinstance(langs, str):
+                langs = [langs]
+            langs = {lang.lower() for lang in langs}  # compare lowercased
+            return lambda f: f.flags is not None and any(f.lower() in langs for f in f.flags)
 
 
 class PatcherManifest:
-- 
2.43.0


From 1b0e9e1ffc93238724b05f04912e645828de392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 18/54] fix: patcher: don't list links, which are not
 extracted, in files of an element

---
 cdtb/patcher.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 182831e..3d4f386 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -650,12 +650,16 @@ class PatcherPatchElement(PatchElement):
         self.elem.download_bundles(langs=langs)
         self.elem.extract(langs=langs)
 
+    def _extracted_files(self, langs):
+        # links are not extracted
+        return (f for f in self.elem.manif.filter_files(langs=langs) if not f.link)
+
     def fspaths(self, langs=True):
-        return (self.elem.extract_path(f) for f in self.elem.manif.filter_files(langs=langs))
+        return (self.elem.extract_path(f) for f in self._extracted_files(langs))
 
     def relpaths(self, langs=True):
-        return (f.name.lower() for f in self.elem.manif.filter_files(langs=langs))
+        return (f.name.lower() for f in self._extracted_files(langs))
 
     def paths(self, langs=True):
-        for f in self.elem.manif.filter_files(langs=langs):
+        for f in self._extracted_files(langs):
             yield (self.elem.extract_path(f), f.name.lower())
-- 
2.43.0


From 69020ef3636be2b626030dc650876d8f6ed5a936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:53 +0000
Subject: [PATCH 19/54] fix: patcher: restore damaged files when extracting
 without symlinks

---
 cdtb/patcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 3d4f386..24bd615 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -454,7 +454,8 @@ class PatcherStorage(Storage):
         else:
             real_output = output
 
-        if not os.path.isfile(real_output):
+        # files of the shared store are complete, don't extract them again
+        if not self.use_extract_symlinks or not os.path.isfile(real_output):
             logger.debug(f"extract {file.name} to {real_output}")
             with write_file_or_remove(real_output) as f:
                 for chunk in file.chunks:
-- 
2.43.0


From 132e48ef7183f505ffd107fcdc269da4e3184ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:23 +0000
Subject: [PATCH 20/54] fix: patcher: don't list patches several times when an
 element is ahead of the other one

---
 cdtb/patcher.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 24bd615..b5d1bab 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -1,6 +1,7 @@
 import os
 import re
 import io
+import heapq
 import json
 import time
 import hashlib
@@ -354,9 +355,17 @@ class PatcherStorage(Storage):
             # add latest release to the storage, if any
             self.fetch_latest_update()
 
-        for release in self.iter_releases():
-            for elem in release.elements():
-                yield PatcherPatchElement(elem)
+        def gen_elements(name):
+            for release in self.iter_releases():
+                elem = release.element(name)
+                if elem is None:
+                    continue
+                patch_elem = PatcherPatchElement(elem)
+                if patch_elem.version is not None:
+                    yield patch_elem
+
+        # an element can be ahead of the other one in a release
+        yield from heapq.merge(*(gen_elements(name) for name in PatchElement.names), key=lambda e: e.version, reverse=True)
 
     def fetch_latest_update(self):
         """Fetch the latest release from the CDN"""
-- 
2.43.0


From 0d53bb5a2b7c3db9b91322d3f48670686154425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 21/54] fix: rads: extract empty files listed after the next
 file of their package

---
 cdtb/rads.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index a101258..db26760 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -512,7 +512,8 @@ class RadsProjectVersion:
         for package, files in files_by_package.items():
             with self.project.storage.stream(f"{package_files_path}/{package}") as reader:
                 # sort files by offset to extract while streaming the bin file
-                for pkgfile in sorted(files, key=lambda f: f.offset):
+                # (empty files have the same offset as the next file)
+                for pkgfile in sorted(files, key=lambda f: (f.offset, f.size)):
                     logger.debug(f"extracting {pkgfile.path}")
                     reader.skip_to(pkgfile.offset)
                     fspath = self.project.storage.fspath(pkgfile.extract_path)
-- 
2.43.0


From 91f5c387790c797cfd8649cd1b3fba99246f81b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:14 +0000
Subject: [PATCH 22/54] fix: rads: support language codes

---
 cdtb/rads.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index db26760..1716fb5 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -289,10 +289,15 @@ class RadsSolutionVersion:
             return dependencies[None]
         elif langs is True:
             return list({pv for pvs in dependencies.values() for pv in pvs})
-        elif isinstance(langs, Language):
-            return dependencies[langs]
+        elif isinstance(langs, (Language, str)):
+            return dependencies[self._parse_lang(langs)]
         else:
-            return list({pv for lang in langs for pv in dependencies[lang]})
+            return list({pv for lang in langs for pv in dependencies[self._parse_lang(lang)]})
+
+    @staticmethod
+    def _parse_lang(lang: Union[Language, str]) -> Language:
+        """Convert a language code to a Language instance, if needed"""
+        return lang if isinstance(lang, Language) else Language(lang.lower())
 
     def filepaths(self, langs) -> Generator[str, None, None]:
         """Generate the extract path of files in the solution version"""
-- 
2.43.0


From d25a959955e5d2d451a6a6e3ce20e67a935f028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:13 +0000
Subject: [PATCH 23/54] fix: don't iterate over known hashes while adding to
 them when guessing patterns

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 7619e1f..9cfe560 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -549,7 +549,7 @@ class LcuHashGuesser(HashGuesser):
         self.check_iter(f'plugins/rcp-be-sanitizer/global/default/{p}' for p in paths)
 
         # plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/{name}.png -> {name}_splash.png
-        for p in self.known.values():
+        for p in list(self.known.values()):
             if p.startswith('plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/'):
                 self.check(p.replace('.png', '_splash.png'))
 
-- 
2.43.0


From 1f213df33aa668ad43899bf3d99b42a113b463ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 24/54] fix: don't look for file name suffixes in directory
 names when guessing hashes

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 9cfe560..2630d45 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -666,7 +666,7 @@ class GameHashGuesser(HashGuesser):
 
         suffixes = {""}
         formats = set()
-        re_suffix = re.compile(r'^(.*?)(\.[^.]+)?(\.[^.]+)$')
+        re_suffix = re.compile(r'^(.*?)(\.[^./]+)?(\.[^./]+)$')
         for p in self.known.values():
             m = re_suffix.search(p)
             if not m:
-- 
2.43.0


From 8c550e68dd771a4b47b44586e213359366674056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 25/54] fix: check paths using the same skin at several places
 when guessing skin numbers

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 2630d45..b3ba579 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -659,7 +659,7 @@ class GameHashGuesser(HashGuesser):
         logger.debug(f"substitute skin numbers: {len(characters)} characters")
         for char, (skins, formats) in progress_iterator(characters.items(), lambda v: v[0]):
             for fmt, nocc in formats:
-                self.check_iter(fmt % p for p in itertools.combinations(skins, nocc))
+                self.check_iter(fmt % p for p in itertools.product(skins, repeat=nocc))
 
     def substitute_suffixes(self):
         """Replace `.suffix.ext` using all known suffixes"""
-- 
2.43.0


From 1fa094968415e5f480d75b0fd9034bd4da715020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:37 +0000
Subject: [PATCH 26/54] fix: don't fail on redirections and subchunked entries
 when searching for hashes in LCU WADs

---
 cdtb/hashes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index b3ba579..881b45e 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -359,8 +359,11 @@ class HashGuesser:
                 # skip non-text files as soon as possible
                 if wadfile.ext in ('png', 'jpg', 'ttf', 'webm', 'ogg', 'dds', 'tga'):
                     continue
+                data = wad.read_file_data(f, wadfile)
+                if data is None:
+                    continue  # file redirection or unreadable subchunks
                 try:
-                    data = wadfile.read_data(f).decode('utf-8-sig')
+                    data = data.decode('utf-8-sig')
                 except UnicodeDecodeError:
                     continue
                 if data:
-- 
2.43.0


From 064fe15e19db4a2c742c247b83eb6fe40dba6911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 27/54] fix: don't fail on JSON values other than objects when
 searching for hashes in LCU WADs

---
 cdtb/hashes.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 881b45e..67a160b 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -454,10 +454,12 @@ class LcuHashGuesser(HashGuesser):
                 # parse specific information from known json files
                 try:
                     jdata = json.loads(data)
-                except (json.JSONDecodeError, UnicodeDecodeError):
+                except (ValueError, RecursionError):
+                    # includes JSONDecodeError, and errors on very long numbers
                     pass
 
-            if jdata is not None:
+            # only objects have known keys, but any JSON value may be found
+            if isinstance(jdata, dict):
                 if wadfile.path == 'plugins/rcp-fe-lol-loot/global/default/trans.json':
                     # names of hextech items, keys are also image names
                     self.check_iter(f"plugins/rcp-be-lol-game-data/global/default/v1/hextech-images/{k}.png" for k in jdata)
@@ -475,13 +477,14 @@ class LcuHashGuesser(HashGuesser):
                     self.check_iter(f"plugins/rcp-fe-lol-splash/global/default/splash-assets/{name}/config.json" for name in names)
                     self.check_iter(f"plugins/rcp-fe-lol-splash/global/default/splash-assets/{name}/{path.lower()}" for name in names for path in jdata['files'].values())
                     continue  # no more data to parse
-                elif wadfile.path == 'plugins/rcp-be-lol-game-data/global/default/v1/champion-summary.json':
-                    champion_ids = [v['id'] for v in jdata]
-                    self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json' for cid in champion_ids)
-                    self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champion-splashes/{cid}/metadata.json' for cid in champion_ids)
                 elif 'recommendedItemDefaults' in jdata:
                     # plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json
                     self.check_iter(f'plugins/rcp-be-lol-game-data/global/default{p.lower()}' for p in jdata['recommendedItemDefaults'])
+            elif isinstance(jdata, list):
+                if wadfile.path == 'plugins/rcp-be-lol-game-data/global/default/v1/champion-summary.json':
+                    champion_ids = [v['id'] for v in jdata]
+                    self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json' for cid in champion_ids)
+                    self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champion-splashes/{cid}/metadata.json' for cid in champion_ids)
 
             # search for known paths formats
             # /fe/{plugin}/{subpath} -> plugins/rcp-fe-{plugin}/global/default/{subpath}
-- 
2.43.0


From c57ffbcfacdc72c3e3298ad9e680d29438044c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:09 +0000
Subject: [PATCH 28/54] fix: resolve relative paths when searching for hashes
 in LCU WADs

---
 cdtb/hashes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 67a160b..3198db7 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -498,7 +498,8 @@ class LcuHashGuesser(HashGuesser):
                             for m in re.finditer(r'\blol-game-data/assets/([a-zA-Z0-9/_.@-]+)', data))
 
             # relative path starting with ./ or ../ (e.g. require() use)
-            relpaths |= {m.group(1) for m in re.finditer(r'[^a-zA-Z0-9/_.\\-]((?:\.|\.\.)/[a-zA-Z0-9/_.-]+)', data)}
+            # the leading part is dropped: parent directories are checked too
+            relpaths |= {m.group(1) for m in re.finditer(r'[^a-zA-Z0-9/_.\\-](?:\.\.?/)+([a-zA-Z0-9/_.-]+)', data)}
             # basename or subpath (check for an extension)
             relpaths |= {m.group(1) for m in re.finditer(r'''["']([a-zA-Z0-9][a-zA-Z0-9/_.@-]*\.(?:js|json|webm|html|[a-z]{3}))\b''', data)}
             # template ID to template path
-- 
2.43.0


From a8b135c55b8f19c3e933430fb9772ba1cbdc37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:09 +0000
Subject: [PATCH 29/54] fix: don't fail on non-ASCII names when searching for
 hashes in preload and shader files

---
 cdtb/hashes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 3198db7..43b90cf 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -856,7 +856,10 @@ class GameHashGuesser(HashGuesser):
                 elif wadfile.ext == 'preload':
                     # preload files
                     for m in re.finditer(br'Name="([^"]+)"', data):
-                        path = m.group(1).lower().decode('ascii')
+                        try:
+                            path = m.group(1).lower().decode('ascii')
+                        except UnicodeDecodeError:
+                            continue
                         if path.endswith('.lua'):
                             self.check(path)
                             self.check(path[:-4] + '.luabin')
@@ -872,7 +875,10 @@ class GameHashGuesser(HashGuesser):
                     if wadfile.path:
                         dirname = os.path.dirname(wadfile.path)
                         for m in re.finditer(br'#include "([^"]+)"', data):
-                            subpath = m.group(1).lower().decode('ascii')
+                            try:
+                                subpath = m.group(1).lower().decode('ascii')
+                            except UnicodeDecodeError:
+                                continue
                             self.check(os.path.normpath(f"{dirname}/{subpath}").replace('\\', '/'))
 
                 elif wadfile.ext == 'atlas':
-- 
2.43.0


From c9b62ef3a238dce3717c69ddd7fe19a2f12d7e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:33 +0000
Subject: [PATCH 30/54] fix: accept game and client components when guessing
 hashes

---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 69c9daf..05000a1 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -200,7 +200,7 @@ def command_hashes_guess(parser, args):
         if isinstance(component, Patch):
             elements = component.elements
         else:
-            elements = [component.elements]
+            elements = [component]
         for elem in elements:
             wads.extend(Wad(p) for p in elem.fspaths() if p.endswith('.wad') or p.endswith('.wad.client'))
 
-- 
2.43.0


From 1a727ea55f3f79b7aa616b3f32f753dcb440fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 31/54] fix: refuse malformed versions, keep text and numbers
 of versions consistent

---
 cdtb/storage.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cdtb/storage.py b/cdtb/storage.py
index ced0e2a..f2fc5db 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -24,13 +24,16 @@ class BaseVersion:
         if not v:
             raise ValueError(v)
         if isinstance(v, str):
-            self.s = v
-            self.t = tuple(int(x) for x in v.split('.'))
+            numbers = v.split('.')
         elif isinstance(v, tuple):
-            self.s = '.'.join(str(int(x)) for x in v)
-            self.t = v
+            numbers = [str(x) for x in v]
         else:
             raise TypeError(v)
+        # int() also accepts signs, spaces and underscores
+        if not all(x.isascii() and x.isdigit() for x in numbers):
+            raise ValueError(v)
+        self.t = tuple(int(x) for x in numbers)
+        self.s = '.'.join(str(x) for x in self.t)
 
     def __repr__(self):
         return f"{self.__class__.__qualname__}({self.s!r})"
-- 
2.43.0


From 83f73c15c6c79854aa7a0b69d9cb9f57daa744c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 32/54] fix: tell which component is not found

---
 cdtb/__main__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 05000a1..0d84506 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -32,16 +32,16 @@ from cdtb.tools import json_dump
 def parse_component_arg(parser, storage: Storage, component: str):
     """Wrapper around parse_storage_component() to parse CLI arguments into patch elements"""
     try:
-        component = parse_storage_component(storage, component)
+        parsed = parse_storage_component(storage, component)
     except ValueError:
         parser.error(f"invalid component: {component}")
-    if component is None:
+    if parsed is None:
         parser.error(f"component not found: {component}")
 
-    if isinstance(component, Patch):
-        return list(component.elements)
+    if isinstance(parsed, Patch):
+        return list(parsed.elements)
     else:
-        return [component]
+        return [parsed]
 
 def parse_component_args(parser, storage: Storage, components):
     return [e for c in components for e in parse_component_arg(parser, storage, c)]
-- 
2.43.0


From effd927a84de0b5f591076be477081711bcbae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 33/54] fix: don't ignore --patchline with the default storage

---
 cdtb/__main__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 0d84506..aaa2c20 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -62,11 +62,11 @@ def parse_storage_args(parser, args) -> Storage:
         conf = storage_conf_from_path(path)
         if conf is None:
             parser.error(f"cannot retrieve storage configuration from '{path}'")
-        if args.patchline is not None:
-            if conf['type'] == 'patcher':
-                conf['patchline'] = args.patchline
-            else:
-                parser.error("--patchline is only supported for 'patcher' storage")
+    if args.patchline is not None:
+        if conf['type'] == 'patcher':
+            conf['patchline'] = args.patchline
+        else:
+            parser.error("--patchline is only supported for 'patcher' storage")
     return Storage.from_conf(conf)
 
 
-- 
2.43.0


From bdcc9222b5f4ebf4d6d8cbc50183f84365db7240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 34/54] fix: refuse components followed by a newline

---
 cdtb/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/storage.py b/cdtb/storage.py
index f2fc5db..b7d3495 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -460,7 +460,7 @@ def get_content_metadata_version(path) -> str:
 def parse_storage_component(storage: Storage, component: str) -> Union[None, Patch, PatchElement]:
     """Parse a component string representation to patch elements"""
 
-    m = re.match(fr'^(patch|{"|".join(PatchElement.names)})=(|[0-9]+(?:\.[0-9]+\.?)*|main)$', component)
+    m = re.fullmatch(fr'(patch|{"|".join(PatchElement.names)})=(|[0-9]+(?:\.[0-9]+\.?)*|main)', component)
     if not m:
         raise ValueError(f"invalid component: {component}")
     name, version = m.group(1, 2)
-- 
2.43.0


From b9dc5152a6d42af74411aeee5fd6b63d5084c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 35/54] fix: parse TFT data of patches before 10.8

---
 cdtb/tftdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index d47d604..cbfac73 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -41,7 +41,7 @@ class TftTransformer:
         """Parse bin data into template data"""
         map22_file = os.path.join(self.input_dir, "data", "maps", "shipping", "map22", "map22.bin")
 
-        map22 = BinFile(map22_file)
+        map22 = BinFile(map22_file, btype_version=self.game_version)
 
         character_names = self.parse_character_names(map22)
         traits = self.parse_traits(map22)
@@ -262,7 +262,7 @@ class TftTransformer:
             if not os.path.exists(self_path):
                 continue
 
-            tft_bin = BinFile(self_path)
+            tft_bin = BinFile(self_path, btype_version=self.game_version)
             record = next((x for x in tft_bin.entries if x.type == "TFTCharacterRecord"), {})
             if "spells" in record:
                 spell_ref = next((s for s in record.getv("spells") if s.h != 0), None)
-- 
2.43.0


From c300dbfe8f21ccf0cd4a2397156555e0eb65d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 36/54] fix: use icons of old TFT champions

---
 cdtb/tftdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index cbfac73..30cbc7e 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -311,7 +311,7 @@ class TftTransformer:
                 "characterName": record.getv("mCharacterName"),
                 "name": champ.getv("mDisplayNameTra"),
                 "cost": cost,
-                "icon": str(champ.getv("PcSplashPath")) or champ.getv("mIconPath"),
+                "icon": str(champ.getv("PcSplashPath", champ.getv("mIconPath"))),
                 "tileIcon": str(champ.getv("TeamPlannerPortraitPath")),
                 "squareIcon": str(champ.getv("SquareSplashPath")),
                 "traits": [traits[h]["name"] for h in champ_traits if h in traits],
@@ -331,7 +331,7 @@ class TftTransformer:
                 "ability": {
                     "name": champ.getv("mAbilityNameTra") or spell_key_name,
                     "desc": champ.getv("mDescriptionTra") or spell_key_tooltip,
-                    "icon": str(champ.getv("AbilityIconPath")) or champ.getv("mPortraitIconPath"),
+                    "icon": str(champ.getv("AbilityIconPath", champ.getv("mPortraitIconPath"))),
                     "variables": ability_variables,
                 },
             }, champ_traits)
-- 
2.43.0


From fd5648e0f90cc8532928e8932bd8314aba0840b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 37/54] fix: export TFT data without set data

---
 cdtb/tftdata.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index 30cbc7e..94b9336 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -131,7 +131,7 @@ class TftTransformer:
         return {x.path: x.getv("name").lower() for x in map22.entries if x.type == "Character" or x.type == "TftCharacter"}
 
     def parse_sets(self, map22, character_names, traits):
-        """Parse character sets to a list of `(name, number, characters, traits, augments, items)`"""
+        """Parse character sets to a list of `(number, mutator, name, characters, traits, augments, items)`"""
         character_lists = {x.path: x for x in map22.entries if x.type == "MapCharacterList" or x.type == "TftCharacterList"}
         trait_lists = {x.path: x for x in map22.entries if x.type == "TftTraitList"}
         set_collection = [x for x in map22.entries if x.type == "TFTSetData"]
@@ -140,13 +140,11 @@ class TftTransformer:
 
         if not set_collection:
             # backward compatibility
-            longest_character_list = max(character_lists.values(), key=lambda v: len(v.fields[0].value))
-            longest_trait_list = max(trait_lists.values(), key=lambda v: len(v.fields[0].value))
-            champion_list = longest_character_list.fields[0].value
-            trait_list = longest_trait_list.fields[0].value
-            set_characters = [character_names.get(char) for char in champion_list]
-            set_traits = [traits.get(trait) for trait in trait_list]
-            return [(1, "Base", set_characters, set_traits)]
+            champion_list = max((v.getv("Characters", []) for v in character_lists.values()), key=len)
+            trait_list = max((v.getv("mTraits", []) for v in trait_lists.values()), key=len)
+            set_characters = [character_names[char] for char in champion_list if char in character_names]
+            set_traits = [traits[trait] for trait in trait_list if trait in traits]
+            return [(1, None, "Base", set_characters, set_traits, [], [])]
 
         sets = []
         for item in set_collection:
-- 
2.43.0


From eea4495317c44c63e44dd7dabe5d01d92e126ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 38/54] fix: ignore dangling references in TFT data

---
 cdtb/tftdata.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index 94b9336..fe395cb 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -229,12 +229,12 @@ class TftTransformer:
         for item in items:
             if item["id"] is not None:
                 # patchs < 13.5: mId exist and "from" is a list of those IDs
-                item["from"] = [items_by_hash[h]["id"] for h in item["composition"]]
+                item["from"] = [items_by_hash[h]["id"] for h in item["composition"] if h in items_by_hash]
             else:
                 item["from"] = None
-            item["composition"] = [items_by_hash[h]["apiName"] for h in item["composition"]]
-            item["incompatibleTraits"] = [traits_by_hash[h] for h in item["incompatibleTraits"]]
-            item["associatedTraits"] = [traits_by_hash[h] for h in item["associatedTraits"]]
+            item["composition"] = [items_by_hash[h]["apiName"] for h in item["composition"] if h in items_by_hash]
+            item["incompatibleTraits"] = [traits_by_hash[h] for h in item["incompatibleTraits"] if h in traits_by_hash]
+            item["associatedTraits"] = [traits_by_hash[h] for h in item["associatedTraits"] if h in traits_by_hash]
         return items
 
     def parse_champs(self, map22, traits):
@@ -298,7 +298,7 @@ class TftTransformer:
                 cost = rarity + int(rarity / 6)
 
             role_key = record.getv("CharacterRole")
-            role = role_entries[role_key].getv("name") if role_key is not None else None
+            role = role_entries[role_key].getv("name") if role_key in role_entries else None
             if (ability_resource_info := record.getv("primaryAbilityResource")) is not None:
                 mana = mana_struct.getv("BaseValue", 100) if (mana_struct := ability_resource_info.getv(0x726ee5cd)) is not None else ability_resource_info.getv("arBase", 100)
             else:
-- 
2.43.0


From 7be04251603531aa1ca01c768908e4457b70b868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 39/54] fix: accept sets without name and empty lists in TFT
 data

---
 cdtb/tftdata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index fe395cb..f782ff4 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -159,7 +159,7 @@ class TftTransformer:
             if set_trait_lists is None:
                 continue
             set_info = item.getv("ScriptData")
-            set_name = set_info["SetName"].getv("mValue")
+            set_name = set_info["SetName"].getv("mValue") if set_info and "SetName" in set_info else None
 
             if set_number is None or set_name is None:
                 continue
@@ -167,13 +167,13 @@ class TftTransformer:
             for char_list in char_lists:
                 if char_list not in character_lists:
                     continue
-                set_characters += [character_names[char] for char in character_lists[char_list].getv("Characters") if char in character_names]
+                set_characters += [character_names[char] for char in character_lists[char_list].getv("Characters", []) if char in character_names]
 
             set_trait_paths = []
             for trait_list in set_trait_lists:
                 if trait_list not in trait_lists:
                     continue
-                set_trait_paths += trait_lists[trait_list].getv("mTraits")
+                set_trait_paths += trait_lists[trait_list].getv("mTraits", [])
             set_traits = [traits[path] for path in set(set_trait_paths) if path in traits]
 
             set_augment_ids = set()
-- 
2.43.0


From 40e19856f4719bf217393c0d08a526a353c8d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 40/54] fix: ignore dangling spells in Arena data

---
 cdtb/arenadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdtb/arenadata.py b/cdtb/arenadata.py
index 9538546..0d63b33 100644
--- a/cdtb/arenadata.py
+++ b/cdtb/arenadata.py
@@ -64,9 +64,9 @@ class ArenaTransformer:
                 continue
             augment_datavalues = {}
             augment_calculations = {}
-            augment_spellobject = augment.getv("RootSpell")
-            if augment_spellobject:
-                augment_spell = spellobject_entries[augment_spellobject].getv('mSpell')
+            augment_spellobject = spellobject_entries.get(augment.getv("RootSpell"))
+            if augment_spellobject and 'mSpell' in augment_spellobject:
+                augment_spell = augment_spellobject.getv('mSpell')
                 for datavalue in augment_spell.getv("DataValues", augment_spell.getv('mDataValues', [])):
                     augment_datavalues[datavalue.getv("name", datavalue.getv("mName"))] = datavalue.getv("values", datavalue.getv("mValues", [0])[0])
 
-- 
2.43.0


From dc520dfbf06263faca5262ebf7458fb86d88f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 41/54] fix: don't translate shared TFT data several times

---
 cdtb/tftdata.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index f782ff4..af82f81 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -82,19 +82,16 @@ class TftTransformer:
             def replace_list(l):
                 l[:] = [replacements.get(v, v) for v in l]
 
-            def replace_set_data(entry):
-                for trait_data in entry["traits"]:
-                    replace_in_data(trait_data)
-                for champ_data in entry["champions"]:
-                    replace_in_data(champ_data)
-                    replace_list(champ_data["traits"])
-                    if "ability" in champ_data:
-                        replace_in_data(champ_data["ability"])
-
-            for set_data in instance["sets"].values():
-                replace_set_data(set_data)
-            for set_data in instance["setData"]:
-                replace_set_data(set_data)
+            # traits and champions are shared between sets: replace them only once
+            set_entries = [*instance["sets"].values(), *instance["setData"]]
+            for trait_data in {id(v): v for entry in set_entries for v in entry["traits"]}.values():
+                replace_in_data(trait_data)
+            for champ_data in {id(v): v for entry in set_entries for v in entry["champions"]}.values():
+                replace_in_data(champ_data)
+                replace_list(champ_data["traits"])
+                if "ability" in champ_data:
+                    replace_in_data(champ_data["ability"])
+
             for data in instance["items"]:
                 replace_in_data(data)
 
-- 
2.43.0


From a411a5dac8f70d4fb4906238b1f478d6a863a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 42/54] fix: read Arena translations of the exported patch
 version

---
 cdtb/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index d103d17..5d3149f 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -426,7 +426,7 @@ class CdragonRawPatchExporter:
             return  # no supported Arena data before 13.14
         # don't import in module to be able to execute arenadata module
         from .arenadata import ArenaTransformer
-        transformer = ArenaTransformer(os.path.join(self.output, "game"))
+        transformer = ArenaTransformer(os.path.join(self.output, "game"), self.patch.version.as_int())
         transformer.export(os.path.join(self.output, "cdragon/arena"), langs=None)
 
     def _create_exporter(self, patch):
-- 
2.43.0


From 8b5eab6c8fa1ae5cc8f858bededed7aeb5b5b4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 43/54] fix: don't lose or truncate translations of old TFT
 data

---
 cdtb/tftdata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index af82f81..25d946e 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -12,13 +12,14 @@ def load_translations(path, game_version=1502):
             f.seek(0)
             return RstFile(f, game_version)
         else:
+            f.seek(0)
             translations = {}
             for line in f:
                 if line.startswith(b'tr "'):
-                    line = line.decode()
+                    line = line.decode().rstrip("\r\n")
                     key, val = line.split("=", 1)
                     key = key[4:-2]
-                    val = val[2:-2]
+                    val = val[2:-1]
                     translations[key] = val
             return translations
 
-- 
2.43.0


From 2ade2dcbf78e1c6b7cc257912c235a86d8e170c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 44/54] fix: guess type of patcher storages whose first
 download was interrupted

---
 cdtb/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/storage.py b/cdtb/storage.py
index b7d3495..113b59a 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -168,7 +168,8 @@ def storage_conf_from_path(path):
 def guess_storage_conf(path):
     """Try to guess storage configuration from path"""
 
-    if os.path.isdir(os.path.join(path, 'channels')):
+    # 'channels' does not exist yet if the very first download has been interrupted
+    if any(os.path.isdir(os.path.join(path, name)) for name in ('channels', 'cdtb')) or not os.listdir(path):
         return {'type': 'patcher', 'path': path}
     return None
 
-- 
2.43.0


From 46fd622819bafc4b59b61f8cf61ac52baa2377b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 45/54] fix: don't record a release twice when recording it was
 interrupted

---
 cdtb/patcher.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index b5d1bab..2b4780c 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -375,19 +375,18 @@ class PatcherStorage(Storage):
             'game_patch_url': self.get_latest_game_manifest(),
         }
 
-        latest_timestamp = self.latest_timestamp()
-        if latest_timestamp is None:
-            latest_release = None
-        else:
-            latest_release = PatcherRelease(self, latest_timestamp)
+        # Don't rely on `latest.timestamp`, it may not have been updated if a previous call was interrupted
+        latest_release = next(self.iter_releases(), None)
+        base = self.base_release_path()
         if latest_release and release_info == latest_release.data:
-            return  # already up to date
+            timestamp = latest_release.version
+            if self.latest_timestamp() == timestamp:
+                return  # already up to date
+        else:
+            timestamp = int(time.time())
+            with write_file_or_remove(f"{base}/{timestamp}/release.json", binary=False) as f:
+                json.dump(release_info, f)
 
-        # Create the release information file and update `latest.timestamp`
-        timestamp = int(time.time())
-        base = self.base_release_path()
-        with write_file_or_remove(f"{base}/{timestamp}/release.json", binary=False) as f:
-            json.dump(release_info, f)
         with write_file_or_remove(f"{base}/latest.timestamp", binary=False) as f:
             print(f"{timestamp}", file=f)
 
-- 
2.43.0


From d59d22bda7dd027c59c18acdb3d7253b29ad618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 46/54] fix: don't leave a truncated hash file if its saving is
 interrupted

---
 cdtb/hashes.py | 3 ++-
 cdtb/tools.py  | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 43b90cf..a217832 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -69,7 +69,8 @@ class HashFile:
         return self.hashes
 
     def save(self):
-        with open(self.filename, 'w', newline='') as f:
+        # if the file is a link, update its target
+        with write_file_or_remove(os.path.realpath(self.filename), binary=False, newline='') as f:
             for h, s in sorted(self.hashes.items(), key=lambda kv: kv[1]):
                 print(self.line_format.format(h, s), file=f)
 
diff --git a/cdtb/tools.py b/cdtb/tools.py
index 677e1d5..9c9fdaa 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -21,7 +21,7 @@ except ImportError:
 
 
 @contextmanager
-def write_file_or_remove(path, binary=True):
+def write_file_or_remove(path, binary=True, newline=None):
     """Open a file for writing, create its parent directory if needed
 
     Data is written to a temporary file, moved to `path` once complete. This way,
@@ -33,7 +33,7 @@ def write_file_or_remove(path, binary=True):
     tmp_path = os.path.join(dirname, f".{xxh64_hexdigest(os.fsencode(basename))}.part")
     try:
         os.makedirs(dirname, exist_ok=True)
-        with open(tmp_path, 'wb' if binary else 'w') as f:
+        with open(tmp_path, 'wb' if binary else 'w', newline=newline) as f:
             yield f
         os.replace(tmp_path, path)
     except:
-- 
2.43.0


From ee0203bdc50d68b56523d2a9ffd7279d13a9b55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:12 +0000
Subject: [PATCH 47/54] fix: look for the file with the RADS patch version in
 the storage, not in the current directory

---
 cdtb/rads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 1716fb5..8d4a4e9 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -384,7 +384,7 @@ class RadsSolutionVersion:
         for path in filepaths:
             if path.endswith(path_suffix):
                 fspath = self.solution.storage.fspath(path)
-                if not os.path.isfile(path):
+                if not os.path.isfile(fspath):
                     pv.extract([path])
                 break
         else:
-- 
2.43.0


From c0bbdf7ed39d1eddf96ff9e5538e931808c6bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 48/54] fix: find the string tables in directories whose name
 has glob special characters

---
 cdtb/tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index 9c9fdaa..eb653a8 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -102,13 +102,13 @@ def stringtable_paths(base_dir, game):
     #   (game is either `lol` or `tft`)
 
     # Find the current format in order from newest to oldest
-    lang_dict = {re.search(rf"(.._..)/data/menu/en_us/{game}\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, f"??_??/data/menu/en_us/{game}.stringtable"))}
+    lang_dict = {re.search(rf"(.._..)/data/menu/en_us/{game}\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(glob.escape(base_dir), f"??_??/data/menu/en_us/{game}.stringtable"))}
     if not lang_dict:
-        lang_dict = {re.search(r"(.._..)/data/menu/en_us/main\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, "??_??/data/menu/en_us/main.stringtable"))}
+        lang_dict = {re.search(r"(.._..)/data/menu/en_us/main\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(glob.escape(base_dir), "??_??/data/menu/en_us/main.stringtable"))}
     if not lang_dict:
-        lang_dict = {re.search(r"data/menu/main_(.._..)\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, "data/menu/main_??_??.stringtable"))}
+        lang_dict = {re.search(r"data/menu/main_(.._..)\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(glob.escape(base_dir), "data/menu/main_??_??.stringtable"))}
     if not lang_dict:
-        lang_dict = {re.search(r"data/menu/fontconfig_(.._..)\.txt$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, "data/menu/fontconfig_??_??.txt"))}
+        lang_dict = {re.search(r"data/menu/fontconfig_(.._..)\.txt$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(glob.escape(base_dir), "data/menu/fontconfig_??_??.txt"))}
     if lang_dict:
         return lang_dict
     else:
-- 
2.43.0


From d81e02e368394815db41d7fd3764003ed1efb411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 49/54] fix: find the lists of unknown hashes in directories
 whose name has glob special characters

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index a217832..7cde244 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -198,7 +198,7 @@ class HashGuesser:
         """Load unknown hashes from 'export/*.unknown.txt' files"""
 
         unknown = set()
-        for p in glob.glob(f"{path}/*.unknown.txt"):
+        for p in glob.glob(f"{glob.escape(path)}/*.unknown.txt"):
             with open(p) as f:
                 unknown |= {int(h, 16) for h in f}
         return unknown
-- 
2.43.0


From acd13147f1f3ac9bb63ef460172a791b3165d136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 50/54] fix: refresh hash lists when their directory is the
 current one, don't replace symlinks

---
 cdtb/hashes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 7cde244..dd3f2e8 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -107,7 +107,8 @@ def update_default_hashfile(basename):
     logger.debug(f"update hash file from {url}")
     r = requests.get(url)
     r.raise_for_status()
-    with write_file_or_remove(path) as f:
+    # use the absolute path, and don't replace symlinks
+    with write_file_or_remove(os.path.realpath(path)) as f:
         f.write(r.content)
 
 
-- 
2.43.0


From 8dd0adb78a6c76b62b7b6a27a048ea2e1d8edbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 51/54] fix: update exported patches when the directory has an
 export of the beta too

---
 cdtb/export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 5d3149f..4b8b914 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -547,8 +547,8 @@ class CdragonRawPatchExporter:
                 continue
             if str(version) != path:
                 continue  # e.g. '8.9.1', not the directory of a patch
-            if first and version < first:
-                continue
+            if first and ((version == "main") != (first == "main") or version < first):
+                continue  # note: "main" is not comparable with other versions
             versions.add(version)
 
         if not versions:
-- 
2.43.0


From d971dde66965225a20d5ddfeeb3a1a12b68acd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 52/54] fix: size of empty files in manifests which don't store
 default values

---
 cdtb/patcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 2b4780c..d6b6db6 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -225,7 +225,7 @@ class PatcherManifest:
         chunk_count, = parser.unpack('<L')  # _ == 0
         chunk_ids = list(parser.unpack(f'<{chunk_count}Q'))
 
-        return (fields['name'], fields['link'], flag_ids, fields['directory_id'], fields['file_size'], chunk_ids)
+        return (fields['name'], fields['link'], flag_ids, fields['directory_id'], fields['file_size'] or 0, chunk_ids)
 
     @classmethod
     def _parse_directory(cls, parser):
-- 
2.43.0


From 25ab3b5677a575276c78c9d658a1104c856ece32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:15 +0000
Subject: [PATCH 53/54] fix: replace links to another previous patch when
 exporting again

---
 cdtb/export.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 4b8b914..3bbb0dc 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -509,13 +509,15 @@ class CdragonRawPatchExporter:
         logger.info(f"creating symlinks for patch {self.patch.version}")
         for link in symlinks:
             dst = os.path.join(dst_output, link)
-            if os.path.lexists(dst):
-                if not os.path.islink(dst):
-                    raise RuntimeError(f"symlink target already exists: {dst}")
-                continue  # already set
             dst_dir = os.path.dirname(dst)
             os.makedirs(dst_dir, exist_ok=True)
             src = os.path.relpath(os.path.realpath(os.path.join(src_output, link)), os.path.realpath(dst_dir))
+            if os.path.lexists(dst):
+                if not os.path.islink(dst):
+                    raise RuntimeError(f"symlink target already exists: {dst}")
+                if os.readlink(dst) == src:
+                    continue  # already set
+                os.remove(dst)  # from an export linked to another patch
             logger.info(f"create symlink {dst}")
             try:
                 os.symlink(src, dst)
-- 
2.43.0


From 651e6a90fe510a355355f7d6205608deff00d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:54 +0000
Subject: [PATCH 54/54] fix: export patches which have no game data yet

---
 cdtb/export.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cdtb/export.py b/cdtb/export.py
index 3bbb0dc..b1ff750 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -415,6 +415,9 @@ class CdragonRawPatchExporter:
     def export_tft_data(self):
         if self.patch.version != 'main' and self.patch.version < PatchVersion('9.14'):
             return  # no supported TFT data before 9.14
+        if not os.path.exists(os.path.join(self.output, "game/data/maps/shipping/map22/map22.bin")):
+            logger.warning(f"no TFT data in patch {self.patch.version}")
+            return  # e.g. only the client is already updated
         # don't import in module to be able to execute tftdata module
         game_version = self.patch.version.as_int()
         from .tftdata import TftTransformer
@@ -424,6 +427,9 @@ class CdragonRawPatchExporter:
     def export_arena_data(self):
         if self.patch.version != 'main' and self.patch.version < PatchVersion('13.14'):
             return  # no supported Arena data before 13.14
+        if not os.path.exists(os.path.join(self.output, "game/data/maps/shipping/map30/map30.bin")):
+            logger.warning(f"no Arena data in patch {self.patch.version}")
+            return  # e.g. only the client is already updated
         # don't import in module to be able to execute arenadata module
         from .arenadata import ArenaTransformer
         transformer = ArenaTransformer(os.path.join(self.output, "game"), self.patch.version.as_int())
-- 
2.43.0

