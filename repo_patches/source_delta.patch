From 08aa86d886cf967cf90aaa169846ac8f400f5c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:30 +0000
Subject: [PATCH 1/9] fix: convert NaN floats to null when NaN is not allowed

NaN never compares equal to itself, so NaN values got through and json.dump
failed with --convert-nan-to-null.
---
 palworld_save_tools/archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 0a5dc3b..bd66f5b 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -333,7 +333,7 @@ class FArchiveReader:
         val = FArchiveReader.unpack_float(self.data.read(4))[0]
         if self.allow_nan:
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
+        if not math.isfinite(val):
             return None
         return val
 
@@ -343,7 +343,7 @@ class FArchiveReader:
         val = FArchiveReader.unpack_double(self.data.read(8))[0]
         if self.allow_nan:
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
+        if not math.isfinite(val):
             return None
         return val
 
-- 
2.43.0


From 5991ae24e8b51645cb5c80dff33d3d26857ef7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:30 +0000
Subject: [PATCH 2/9] fix: write back work entries that were kept as raw bytes

Encoding a work entry of an unknown type failed with KeyError 'transform'.
---
 palworld_save_tools/rawdata/work.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index 5915f05..aa2509c 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -159,11 +159,13 @@ def encode(
     del properties["custom_type"]
     for work_element in properties["value"]["values"]:
         work_type = work_element["WorkableType"]["value"]["value"]
-        work_element["RawData"]["value"] = {
-            "values": [
-                b for b in encode_bytes(work_element["RawData"]["value"], work_type)
-            ]
-        }
+        # Work that could not be decoded is kept as raw bytes
+        if "values" not in work_element["RawData"]["value"]:
+            work_element["RawData"]["value"] = {
+                "values": [
+                    b for b in encode_bytes(work_element["RawData"]["value"], work_type)
+                ]
+            }
         for work_assign in work_element["WorkAssignMap"]["value"]:
             work_assign["value"]["RawData"]["value"] = {
                 "values": [
-- 
2.43.0


From cad50860720a7d114ba6b221a7af1f11d66aff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:30 +0000
Subject: [PATCH 3/9] fix: write back work transforms of an unknown type

The raw data is a list of ints once it has been through JSON.
---
 palworld_save_tools/rawdata/work.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index aa2509c..8485614 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -250,7 +250,7 @@ def encode_bytes(p: dict[str, Any], work_type: str) -> bytes:
         print(
             f"Unknown EPalWorkTransformType, please report this: {transform_type}: {work_type}"
         )
-        writer.write(p["transform"]["raw_data"])
+        writer.write(bytes(p["transform"]["raw_data"]))
 
     encoded_bytes = writer.bytes()
     return encoded_bytes
-- 
2.43.0


From ce8fe6bc8f346754313ff21a754a6e56e39f456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:30 +0000
Subject: [PATCH 4/9] fix: keep base camp modules with left over data as raw
 bytes

The data that was not decoded was lost when converting back to SAV.
---
 palworld_save_tools/rawdata/base_camp_module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index 023ca4f..3297609 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -89,7 +89,10 @@ def decode_bytes(
         return {"values": b_bytes}
 
     if not reader.eof():
-        print(f"Warning: EOF not reached for {module_type}")
+        print(
+            f"Warning: EOF not reached for {module_type}, falling back to raw bytes"
+        )
+        return {"values": b_bytes}
 
     return data
 
-- 
2.43.0


From 2f930f605267e17f67abefe2c584fd904122b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:30 +0000
Subject: [PATCH 5/9] fix: write arrays of Guid

The reader accepts them, the writer did not.
---
 palworld_save_tools/archive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index bd66f5b..9a6e56f 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -963,6 +963,8 @@ class FArchiveWriter:
                 self.fstring(values[i])
             elif array_type == "BoolProperty":
                 self.bool(values[i])
+            elif array_type == "Guid":
+                self.guid(values[i])
             elif array_type == "ByteProperty":
                 self.byte(values[i])
             else:
-- 
2.43.0


From 21b0d4df4d9ea626f747876ee33e6d761556d371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:30 +0000
Subject: [PATCH 6/9] fix: reject strings that extend past the end of the data

A truncated string was silently read as a shorter one.
---
 palworld_save_tools/archive.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 9a6e56f..c314cc9 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -277,11 +277,20 @@ class FArchiveReader:
         encoding: str
         if size < 0:
             size = -size
-            data = reader.read(size * 2)[:-2]
+            length = size * 2
+            data = reader.read(length)
+            terminator_length = 2
             encoding = "utf-16-le"
         else:
-            data = reader.read(size)[:-1]
+            length = size
+            data = reader.read(length)
+            terminator_length = 1
             encoding = "ascii"
+        if len(data) != length:
+            raise Exception(
+                f"could not read {length} bytes for {encoding} string, got {len(data)}"
+            )
+        data = data[:-terminator_length]
 
         try:
             return data.decode(encoding)
-- 
2.43.0


From aefbdd38707549cea77121ca7e1232973e94c60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:30 +0000
Subject: [PATCH 7/9] fix: make --to-json and --from-json override the file
 extension

--to-json on a .json file, or --from-json on a .sav file, ran both conversions.
---
 palworld_save_tools/commands/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 772ef9d..2ab7f0f 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -63,7 +63,7 @@ def main():
         print(f"{args.filename} is not a file")
         exit(1)
 
-    if args.to_json or args.filename.endswith(".sav"):
+    if args.to_json or (not args.from_json and args.filename.endswith(".sav")):
         if not args.output:
             output_path = args.filename + ".json"
         else:
@@ -77,7 +77,7 @@ def main():
             custom_properties_keys=args.custom_properties,
         )
 
-    if args.from_json or args.filename.endswith(".json"):
+    if args.from_json or (not args.to_json and args.filename.endswith(".json")):
         if not args.output:
             output_path = args.filename.replace(".json", "")
         else:
-- 
2.43.0


From 172b06354652be915f4176d5937ff01f77ec07f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:30 +0000
Subject: [PATCH 8/9] fix: only strip the .json suffix for the default SAV
 output path

.json anywhere else in the path, such as in a directory name, was removed too.
---
 palworld_save_tools/commands/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 2ab7f0f..36f0844 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -79,7 +79,7 @@ def main():
 
     if args.from_json or (not args.to_json and args.filename.endswith(".json")):
         if not args.output:
-            output_path = args.filename.replace(".json", "")
+            output_path = args.filename.removesuffix(".json")
         else:
             output_path = args.output
         convert_json_to_sav(args.filename, output_path, force=args.force)
-- 
2.43.0


From d08bd8fdd77a87c4292251e368bc47232502e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:24 +0000
Subject: [PATCH 9/9] fix: refuse a GUID cut short by the end of the data when
 it is read

A short read gave a UUID object that only failed when it was converted to
text, while the JSON output was being written: an existing output was
truncated, and the error came without the real cause. A map object concrete
model too short for its two leading GUIDs is still kept as raw bytes.
---
 palworld_save_tools/archive.py                    | 10 ++++++++--
 palworld_save_tools/rawdata/map_concrete_model.py |  4 ++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index c314cc9..a59f9e6 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -369,12 +369,18 @@ class FArchiveReader:
 
     def guid(self) -> UUID:
         # in the hot loop, avoid function calls
-        return UUID(self.data.read(16))
+        b = self.data.read(16)
+        if len(b) != 16:
+            raise Exception("could not read 16 bytes for uuid")
+        return UUID(b)
 
     def optional_guid(self) -> Optional[UUID]:
         # in the hot loop, avoid function calls
         if self.data.read(1)[0]:
-            return UUID(self.data.read(16))
+            b = self.data.read(16)
+            if len(b) != 16:
+                raise Exception("could not read 16 bytes for uuid")
+            return UUID(b)
         return None
 
     def tarray(self, type_reader: Callable[["FArchiveReader"], Any]) -> list[Any]:
diff --git a/palworld_save_tools/rawdata/map_concrete_model.py b/palworld_save_tools/rawdata/map_concrete_model.py
index 74938bb..40a950e 100644
--- a/palworld_save_tools/rawdata/map_concrete_model.py
+++ b/palworld_save_tools/rawdata/map_concrete_model.py
@@ -352,6 +352,10 @@ def decode_bytes(
         print(f"Warning: Map object '{object_id}' not in database, skipping")
         return {"values": m_bytes}
 
+    if len(m_bytes) < 32:
+        print(f"Warning: Map object '{object_id}' is too short, skipping")
+        return {"values": m_bytes}
+
     # Base handling
     data["instance_id"] = reader.guid()
     data["model_instance_id"] = reader.guid()
-- 
2.43.0

