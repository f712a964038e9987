From a7e6183d028cabfb05e5e3f49db9088b2756f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 01/32] fix: write the second container of a file relative to
 its own start

Block offsets were absolute, so the table of contents of the second container
overwrote the first one; the table block now also declares its reserved size,
which is what the reader uses to find where the next container starts.
---
 src/v8unpack/container.py     | 5 +++--
 src/v8unpack/container_doc.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 23ec4c6..be608dd 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -238,10 +238,11 @@ class Container:
             doc = Document(self)
 
             if total_blocks == 1:
-                doc.write_block(f, doc_size=doc_size, offset=self.header_size)
+                doc.write_block(f, doc_size=doc_size, offset=self.header_size,
+                                min_block_size=self.index_block_size)
             else:
                 f.seek(0)
-                next_block_offset = file_size(self.file)
+                next_block_offset = file_size(self.file) - self.offset
                 doc.write_block(io.BytesIO(f.read(self.index_block_size)),
                                 doc_size=doc_size, offset=self.header_size,
                                 min_block_size=self.index_block_size,
diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 1c0b601..40ab5e4 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -142,10 +142,11 @@ class Document:
         :return: смещение записанных данных (байт)
         :rtype: int
         """
+        # смещения внутри контейнера считаются от его начала, а не от начала файла
         if offset is not None:
-            self.container.file.seek(offset)
+            self.container.file.seek(offset + self.container.offset)
         else:
-            offset = file_size(self.container.file)
+            offset = file_size(self.container.file) - self.container.offset
         block_size = file_size(data)
         min_block_size = max(min_block_size, block_size)
         if not next_block_offset:
-- 
2.43.0


From fd668df93d7e771d693983bfeabe1eca5ff95b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 02/32] fix: pick versions of exactly the requested file

A prefix/suffix match took versions of other files (ab.7.bsl for a.bsl) and
returned names that do not exist.
---
 src/v8unpack/helper.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 109a329..b1311ce 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -367,14 +367,16 @@ def get_near_descent_file_name(path, file_name, descent):
                 is_without_descent = True
                 continue
 
-            if len(_entity) - 1 != size:
+            if len(_entity) - 1 != size or _entity[:-2] != name[:-1] or _entity[-1] != endswith:
                 continue
             full_path = os.path.join(path, entity)
             if os.path.isfile(full_path):
                 try:
-                    descents.append(int(_entity[-2]))
+                    _descent = int(_entity[-2])
                 except ValueError:  # если во втором разряде не число, значит не наш вариант
-                    pass
+                    continue
+                if str(_descent) == _entity[-2]:  # 007 это часть имени, а не номер версии
+                    descents.append(_descent)
     if not descents:
         if is_without_descent:
             return path, file_name
-- 
2.43.0


From 793857e64d9a2ed71f7ee5889754834fc6c1b2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 03/32] fix: keep names whose numeric part is not a version
 number

remove_descent_from_filename returned None for names like a.007.bsl.
---
 src/v8unpack/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index b1311ce..f064a15 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -398,7 +398,8 @@ def remove_descent_from_filename(file_name):
         if str(int(_descent)) == _descent:
             return '.'.join(_name)
     except Exception:
-        return file_name
+        pass
+    return file_name
 
 
 def makedirs(name, exist_ok=False):
-- 
2.43.0


From 9ac0546e0e4465f2cd9d96006538cf245de8dc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 04/32] fix: keep the files of other versions when unpacking
 with descent

---
 src/v8unpack/organizer_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index db2b2c9..45fb4bd 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -17,7 +17,10 @@ class OrganizerFile:
         print(f'{"Организуем код":30}')
         tasks_code_file = []
         tasks_form_elem = []
-        helper.clear_dir(dest_dir)
+        if descent is None:
+            helper.clear_dir(dest_dir)
+        else:  # в режиме наследования рядом лежат файлы других версий
+            helper.makedirs(dest_dir, exist_ok=True)
         cls._unpack(src_dir, os.path.abspath(dest_dir), '', tasks_code_file, tasks_form_elem, index,
                     descent)
         helper.run_in_pool(cls.unpack_code_file, tasks_code_file, pool=pool,
-- 
2.43.0


From 93dd70700b084754ed3d6607000ba62754752d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 05/32] fix: take the last container regardless of the
 directory listing order

---
 src/v8unpack/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/decoder.py b/src/v8unpack/decoder.py
index 445971c..63e423b 100644
--- a/src/v8unpack/decoder.py
+++ b/src/v8unpack/decoder.py
@@ -196,7 +196,7 @@ def encode(src_dir, dest_dir, *, pool=None, options=None, file_name=None):
 
 
 def decode(src_dir, dest_dir, *, pool=None, options=None):
-    containers = os.listdir(src_dir)
+    containers = sorted(os.listdir(src_dir))
     containers_count = len(containers)
     if containers_count not in [1, 2]:
         raise NotImplementedError(f'Количество контейнеров {containers_count}')
-- 
2.43.0


From 9cc3c76acf08b7e8277f2a3496b947fde93e6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 06/32] fix: keep encrypted modules when decoding and encoding

---
 src/v8unpack/MetaObject/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index f7e9ce2..eea2014 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -300,17 +300,15 @@ class MetaObject:
                     self.code[code_name], encoding = self.read_raw_code(_obj_code_dir, 'text',
                                                                         uncomment_directive=uncomment_directive)
                     self.header[f'code_encoding_{code_name}'] = encoding  # можно безболезненно поменять на utf-8-sig
-                except FileNotFoundError as err:
+                    if self.code[code_name] is None:
+                        raise FileNotFoundError(os.path.join(_obj_code_dir, 'text'))
+                except FileNotFoundError:
                     # todo могут быть зашифрованные модули тогда файл будет # image.json - зашифрованный контент
-                    not_encrypted = True
                     for encrypted_type in self.encrypted_types:
                         if os.path.isfile(os.path.join(_obj_code_dir, encrypted_type)):
                             self.code[code_name] = helper.bin_read(_obj_code_dir, encrypted_type)
                             self.header[f'code_encoding_{code_name}'] = encrypted_type
-                            not_encrypted = False
                             break
-                    if not_encrypted:
-                        raise err from err
             else:
                 code_file_name = f'{self.header["uuid"]}.{self.ext_code[code_name]}'
                 self.code[code_name], encoding = self.read_raw_code(src_dir, code_file_name,
@@ -358,7 +356,8 @@ class MetaObject:
                 helper.makedirs(_code_dir)
                 helper.brace_file_write(self.header[f'code_info_{code_name}'], _code_dir, 'info')
                 if encoding in self.encrypted_types:
-                    helper.bin_write(self.code[code_name], _code_dir, 'text')
+                    # зашифрованный модуль лежит в image, в text может быть только текст в неизвестной кодировке
+                    helper.bin_write(self.code[code_name], _code_dir, 'image' if encoding == 'image' else 'text')
                 else:
                     self.write_raw_code(self.code[code_name], _code_dir, 'text', encoding=encoding,
                                         comment_directive=comment_directive)
-- 
2.43.0


From 7e2e2cfc19a9ee0a90301b3e06cf763436883a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 07/32] fix: allow an include area to be called root

---
 src/v8unpack/organizer_code.py      | 4 ++--
 src/v8unpack/organizer_file.py      | 2 +-
 src/v8unpack/organizer_form_elem.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 19f0c2a..37016ff 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -21,9 +21,9 @@ class OrganizerCode:
     def unpack(cls, params):
         src_dir, path, file_name, dest_dir, index, descent = params
         self = cls()
-        self.code_areas = {'root': dict(data='')}
+        self.code_areas = {None: dict(data='')}  # None - корень, область может называться root
         _path = ['']
-        _include_path = ['root']
+        _include_path = [None]
         with open(os.path.join(src_dir, path, file_name), 'r', encoding='utf-8-sig') as file:
             line = file.readline()
             while line:
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 45fb4bd..5b48734 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -87,7 +87,7 @@ class OrganizerFile:
             code_areas = OrganizerCode.unpack(params)
             for elem in code_areas:
                 _file = code_areas[elem]
-                if elem == 'root':
+                if elem is None:
                     _file['path'], _file['file_name'] = get_dest_path(dest_dir, path, file_name, index, descent)
                 else:
                     if _file['area_type'] == 'includr':
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 0c2978f..b42891b 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -17,7 +17,7 @@ class OrganizerFormElem:
         areas = {}
         elements = helper.json_read(os.path.join(src_dir, path), file_name)
         cls._unpack_get_areas(elements['tree'], '', elements['data'], areas)
-        areas['root'] = elements
+        areas[None] = elements  # область может называться root
         cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas)
 
     @staticmethod
@@ -111,7 +111,7 @@ class OrganizerFormElem:
     def _unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas):
         try:
             for elem in areas:
-                if elem == 'root':
+                if elem is None:
                     dest_entry_path, dest_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
                 else:
                     dest_entry_path, dest_file_name = OrganizerCode.parse_include_path(
-- 
2.43.0


From c952a4a168795b4817625c95a9c02d160bd64d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 08/32] fix: look for nested include areas where unpacking put
 them

---
 src/v8unpack/organizer_code.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 37016ff..819f2ca 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -69,12 +69,13 @@ class OrganizerCode:
     def pack(cls, params):
         src_dir, src_path, src_file_name, dest_dir, dest_path, dest_file_name, index_code_areas, \
         descent, pack_get_descent_filename = params
-        data = cls.pack_file(src_dir, src_path, src_file_name, index_code_areas, descent, pack_get_descent_filename)
+        data = cls.pack_file(src_dir, src_path, src_file_name, index_code_areas, descent, pack_get_descent_filename,
+                             root_path=dest_path)
         helper.txt_write(data, os.path.join(dest_dir, dest_path), dest_file_name)
 
     @classmethod
     def pack_file(cls, src_dir, path, file_name, index_code_areas, descent, pack_get_descent_filename,
-                  dynamic_directive=None):
+                  dynamic_directive=None, root_path=None):
         normcase_src = os.path.normcase('\\src\\')
         try:
             data = ''
@@ -97,13 +98,14 @@ class OrganizerCode:
 
                             current_dynamic_directive = area_name_parts[1] if len(area_name_parts) > 1 else dynamic_directive
 
-                            _path, _file_name = cls.parse_include_path(include_path, path, file_name, index_code_areas,
-                                                                       descent)
+                            _path, _file_name = cls.parse_include_path(include_path,
+                                                                       path if root_path is None else root_path,
+                                                                       file_name, index_code_areas, descent)
                             _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
                             if _src_abs_path.startswith(src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
                                 _path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
                             data += cls.pack_file(src_dir, _path, _file_name, index_code_areas, descent,
-                                                  pack_get_descent_filename, current_dynamic_directive)
+                                                  pack_get_descent_filename, current_dynamic_directive, root_path)
                     line = file.readline()
                 return data
         except ExtException as err:
-- 
2.43.0


From e5662c3b18ab5e8690d02f54c48b35a8d5bfed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 09/32] fix: do not take a sibling folder for a part of the
 sources folder

---
 src/v8unpack/helper.py         | 4 ++++
 src/v8unpack/organizer_code.py | 4 ++--
 src/v8unpack/organizer_file.py | 4 ++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index f064a15..8612321 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -402,6 +402,10 @@ def remove_descent_from_filename(file_name):
     return file_name
 
 
+def is_inside(path, folder):
+    return path == folder or path.startswith(os.path.join(folder, ''))
+
+
 def makedirs(name, exist_ok=False):
     for i in range(3):
         try:
diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 819f2ca..cc13e0d 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -80,7 +80,7 @@ class OrganizerCode:
         try:
             data = ''
             _src_abs_path = os.path.abspath(os.path.join(src_dir, path))
-            if _src_abs_path.startswith(src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
+            if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
                 _src_abs_path, file_name = pack_get_descent_filename(_src_abs_path, file_name, descent)
 
             with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8') as file:
@@ -102,7 +102,7 @@ class OrganizerCode:
                                                                        path if root_path is None else root_path,
                                                                        file_name, index_code_areas, descent)
                             _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
-                            if _src_abs_path.startswith(src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
+                            if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
                                 _path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
                             data += cls.pack_file(src_dir, _path, _file_name, index_code_areas, descent,
                                                   pack_get_descent_filename, current_dynamic_directive, root_path)
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 5b48734..83a5f17 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -65,7 +65,7 @@ class OrganizerFile:
             src_full_path = os.path.join(src_path, src_file_name)
 
             # файлы вне папки исходников не версионируются
-            if dest_full_path.startswith(dest_dir) or os.path.normcase(dest_entry_path).find('\\src\\') >= 0:
+            if helper.is_inside(dest_full_path, dest_dir) or os.path.normcase(dest_entry_path).find('\\src\\') >= 0:
                 descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(src_path, src_file_name,
                                                                                             None,
                                                                                             dest_full_path,
@@ -95,7 +95,7 @@ class OrganizerFile:
                     _file['path'], _file['file_name'] = OrganizerCode.parse_include_path(
                         elem, path, file_name, index.get('Области include') if index else None, descent)
                 _file['dest_path'] = os.path.abspath(os.path.join(dest_dir, _file['path']))
-                if _file['dest_path'].startswith(dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
+                if helper.is_inside(_file['dest_path'], dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
                     descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(
                         None, None, _file['data'], _file['dest_path'], _file['file_name'], descent,
                         cls.equal_code_file)
-- 
2.43.0


From fac7361f35a5b6aef50fc6588ad8d6eae3a3b6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 10/32] fix: strip the prefix only from the names it is
 returned to

---
 src/v8unpack/MetaDataObject/__init__.py           | 1 +
 src/v8unpack/MetaDataObject/core/IncludeSimple.py | 1 +
 src/v8unpack/helper.py                            | 4 +++-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index d0ef541..2afe7ae 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -51,6 +51,7 @@ class MetaDataObject(MetaObject):
             header_data = cls.brace_file_read(src_dir, file_name)
             self = cls.get_handler(header_data, options)
             self.parent_container_uuid = parent_container_uuid
+            self.path = dest_path
             # self = cls()
             # if parent_type:
             #     self.title = parent_type
diff --git a/src/v8unpack/MetaDataObject/core/IncludeSimple.py b/src/v8unpack/MetaDataObject/core/IncludeSimple.py
index 7d047e6..ba1a02a 100644
--- a/src/v8unpack/MetaDataObject/core/IncludeSimple.py
+++ b/src/v8unpack/MetaDataObject/core/IncludeSimple.py
@@ -19,6 +19,7 @@ class IncludeSimple(MetaDataObject):
     def decode_internal_include(cls, parent, header_data, src_dir, dest_dir, dest_path, options):
         try:
             self = cls(options=options)
+            self.path = dest_path
             self.decode_header(header_data)
             self.set_write_decode_mode(dest_dir, dest_path)
             self.decode_code(src_dir)
diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 8612321..9b5580c 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -122,7 +122,9 @@ def decode_header(meta_obj, header: list, *, id_in_separate_file=True):
 
     prefix = meta_obj.options.get('prefix', '')
     obj['name'] = str_decode(header[2])
-    if prefix and obj['name'].startswith(prefix):
+    # encode_header вернет префикс только собственному объекту верхнего уровня, только у него и убираем
+    is_top_level = os.sep not in getattr(meta_obj, 'path', os.sep)
+    if prefix and is_top_level and (len(header) < 6 or header[5] == '0') and obj['name'].startswith(prefix):
         obj['name'] = obj['name'][len(prefix):]
         header[2] = str_encode(obj['name'])
     obj['name2'] = {}
-- 
2.43.0


From e4370d8e95cb22405069e4803eec21d294f29dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 11/32] fix: extract and build with an empty index instead of
 doing nothing

---
 src/v8unpack/v8unpack.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 4bd1cc6..20996ca 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -25,8 +25,6 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
-        if not index and index is not None:
-            return
 
         print(f"Начали")
 
@@ -79,8 +77,6 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
-        if not index and index is not None:
-            return
 
         print(f"Начали")
 
-- 
2.43.0


From a496db22189deb3a3b6915d2763ed38f3ecf81df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 12/32] fix: do not give a payload the extension of the tool's
 own files

---
 src/v8unpack/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 9b5580c..5e0c30c 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -325,7 +325,8 @@ def get_extension_from_comment(comment: str) -> str:
     res = 'bin'
     if comment:
         ext = comment.split(" ")[-1]
-        if len(ext) < 6 and ext.isalnum():
+        # json, bsl и c1b64 заняты файлами самого распаковщика
+        if len(ext) < 6 and ext.isalnum() and ext.lower() not in ('json', 'bsl', 'c1b64'):
             return ext
     return res
 
-- 
2.43.0


From 179f66b6f6d40e9df1d7710d73d4b70d9d813f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 13/32] fix: build forms whose elements could not be parsed

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 1ed03de..db5abce 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -195,6 +195,8 @@ class FormCore(SimpleNameFolder):
                 form_element_decoder(self).decode(src_dir, dest_dir, dest_path, self.form[0][0])
             except Exception as err:
                 self.form = json.loads(backup)
+                self.elements_tree, self.elements_data = [], {}
+                self.props, self.params, self.commands = [], [], []
                 pass  # todo если какие то елементы формы не разбираются, не прерываем
                 # raise ExtException(parent=err, message='Ошибка при разборе формы')
 
@@ -289,6 +291,8 @@ class FormCore(SimpleNameFolder):
         # except:
         #     return
         try:
+            if not any(helper.json_read(src_dir, f'{file_name}.elem.json').values()):
+                return  # элементы формы не разобрались, форма осталась целой
             form_element_decoder(self).encode(src_dir, file_name, dest_dir, self.form[0][0])
         except Exception as err:
             raise ExtException(parent=err, action='Сборка формы') from None
-- 
2.43.0


From c045ee045110a7f944a809cf31fd4e1cf54a85a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 14/32] fix: keep form props intact when one of them could not
 be parsed

---
 .../MetaDataObject/Form/FormElements4/FormElement.py        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 9506912..bcc74b7 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -1,3 +1,4 @@
+import copy
 from enum import Enum
 
 from v8unpack import helper
@@ -261,10 +262,12 @@ class _FormRoot:
 
     @classmethod
     def decode_list(cls, form, raw_data):
+        backup = None
         try:
             if len(raw_data) <= cls.index:
                 return
             items = raw_data[cls.index]
+            backup = copy.deepcopy(items)
             index_element_count = 1
             element_count = int(items[index_element_count])
             if not element_count:
@@ -277,7 +280,8 @@ class _FormRoot:
             del items[index_element_count + 1:index_element_count + 1 + element_count]
             return result
         except Exception as err:
-            pass
+            if backup is not None:  # часть элементов уже могла быть изменена
+                raw_data[cls.index] = backup
 
     @classmethod
     def encode_list(cls, form, src_dir, file_name, version, raw_data):
-- 
2.43.0


From c0ece925586e3eadf6905d52f42883a510761886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 15/32] fix: use the same paths for children of read-only form
 areas in both directions

---
 src/v8unpack/MetaDataObject/Form/FormElements4/Group.py | 4 ++--
 src/v8unpack/MetaDataObject/Form/FormElements4/Table.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
index 33b38d2..8aff13d 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
@@ -24,8 +24,8 @@ class Group(FormElement):
 
         data = super().decode(form, path, raw_data)
         index = calc_offset([(3, 1), (1, 1), (17, 0)], raw_data)
-        new_path = f"{path}/{data['name']}" if path else data['name']
-        new_path = new_path.replace('includr_', 'include_')
+        name_for_child = f"include_{data['name'][8:]}" if data['name'][:8] == 'includr_' else data['name']
+        new_path = f"{path}/{name_for_child}" if path else name_for_child
         data['child'] = cls.decode_list(form, raw_data, index, new_path)
         return data
 
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
index 739930d..f7a6b7e 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
@@ -34,7 +34,9 @@ class Table(FormElement):
             index = calc_offset([
                 (4, 1), (50, 2), (7, 0)
             ], raw_data)
-            data['child'] = cls.decode_list(form, raw_data, index, f"{path}/{data['name']}" if path else data['name'])
+            name_for_child = f"include_{data['name'][8:]}" if data['name'][:8] == 'includr_' else data['name']
+            data['child'] = cls.decode_list(form, raw_data, index,
+                                            f"{path}/{name_for_child}" if path else name_for_child)
         except Exception as err:
             raise ExtException(parent=err)
 
@@ -59,6 +61,7 @@ class Table(FormElement):
             index = calc_offset([
                 (4, 1), (50, 2), (7, 0)
             ], raw_data)
-            cls.encode_list(form, child, raw_data, index, f"{path}/{data['name']}" if path else data['name'])
+            name_for_child = f"include_{data['name'][8:]}" if data['name'][:8] == 'includr_' else data['name']
+            cls.encode_list(form, child, raw_data, index, f"{path}/{name_for_child}" if path else name_for_child)
         except Exception as err:
             raise ExtException(parent=err)
\ No newline at end of file
-- 
2.43.0


From c4fbc9f64db0bcfd04cc8feedfa2962f99281422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 16/32] fix: restore the pages of read-only form areas

---
 src/v8unpack/organizer_form_elem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index b42891b..103d73f 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -188,12 +188,12 @@ class OrganizerFormElem:
                     if child:
                         cls._append_area_data(child, old_path, root_data, data, append_path)
 
-            pages = data.pop(f'{path}/-pages-', None)
+            pages = data.pop(f'{_path}/-pages-', None)
             if pages is not None:
                 new_path = f'{append_path}/{_path}/-pages-' if append_path else f'{_path}/-pages-'
                 root_data[new_path] = pages
                 for name in pages:
-                    old_path = f'{path}/{name}'
+                    old_path = f'{_path}/{name}'
                     new_path = f'{append_path}/{_path}/{name}' if append_path else f'{_path}/{name}'
                     try:
                         root_data[new_path] = data.pop(old_path)
-- 
2.43.0


From e0499571245999fc2c9e239e788eb1189cf9fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 17/32] fix: do not wrap long quoted strings as base64

---
 src/v8unpack/json_container_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/json_container_decoder.py b/src/v8unpack/json_container_decoder.py
index c560d0e..1935b63 100644
--- a/src/v8unpack/json_container_decoder.py
+++ b/src/v8unpack/json_container_decoder.py
@@ -335,7 +335,7 @@ class JsonContainerDecoder:
                     is_base64 = False
                     if j > 64:  # base64 нужно переносить
                         try:
-                            b64decode(elem)
+                            b64decode(elem, validate=True)
                             is_base64 = True
                         except ValueError:
                             pass
-- 
2.43.0


From 4b363dcf2677651defe81d8ba67608a8fc8bc9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 18/32] fix: leave files of later versions out when building an
 earlier one

---
 src/v8unpack/organizer_file_ce.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_file_ce.py b/src/v8unpack/organizer_file_ce.py
index e6c9f04..495550f 100644
--- a/src/v8unpack/organizer_file_ce.py
+++ b/src/v8unpack/organizer_file_ce.py
@@ -57,5 +57,7 @@ class OrganizerFileCE(OrganizerFile):
                 entry = helper.remove_descent_from_filename(entry)
                 if entry not in _index:
                     _index[entry] = 1
-                    result.append(entry)
+                    # файлы, которые появились только в следующих версиях, в эту версию не входят
+                    if helper.get_near_descent_file_name(_dir, entry, descent)[1]:
+                        result.append(entry)
         return result
-- 
2.43.0


From 652656853777cf49df7d194cd530632411270857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 19/32] fix: leave files with an empty index entry in place
 when building

---
 src/v8unpack/organizer_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 83a5f17..c4d7202 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -210,6 +210,7 @@ class OrganizerFile:
                 if entry == 'Области include':
                     continue
                 if not index[entry]:
+                    completed_entry.append(entry)  # остаётся на месте, в том числе если описано до *
                     continue
                 if entry.startswith("*"):
                     all_path = index[entry]
-- 
2.43.0


From 8faef1454bfab7d73f95873029d36b43b7f1dee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 20/32] fix: find the versions of files whose names have no
 extension

---
 src/v8unpack/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 5e0c30c..58005c2 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -389,13 +389,13 @@ def get_near_descent_file_name(path, file_name, descent):
         if is_without_descent:
             return path, file_name
         return '', ''
-    return path, f'{startswith}.{descents[0]}.{endswith}'
+    return path, '.'.join([*name[:-1], str(descents[0]), endswith])
 
 
 def remove_descent_from_filename(file_name):
     _name = file_name.split('.')
     try:
-        if len(_name) < 3:
+        if len(_name) < 2:
             return file_name
         _descent = _name.pop(-2)
         if str(int(_descent)) == _descent:
-- 
2.43.0


From 0601e48a31f6c30363b8e1aa73bcde6522834ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 21/32] fix: read the names of form item additions where they
 are

---
 src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py b/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
index d9376f1..15c93b3 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
@@ -5,4 +5,4 @@ from v8unpack.helper import calc_offset
 class ItemAddition(FormElement):
     @classmethod
     def get_name_node_offset(cls, raw_data):
-        return calc_offset([(3, 1), (3, 0)], raw_data)
+        return calc_offset([(3, 1), (1, 1), (2, 0)], raw_data)
-- 
2.43.0


From 9a82505e236abad27615f39cd68eed86d52229ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 22/32] fix: assemble forms beside files of empty areas

---
 src/v8unpack/organizer_form_elem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 103d73f..5eb7e91 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -148,7 +148,7 @@ class OrganizerFormElem:
 
     @classmethod
     def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent):
-        for elem in tree:
+        for elem in tree or []:
             try:
                 name: str = elem['name']
                 new_path = cls.get_old_path(elem, path, name)
-- 
2.43.0


From b84fce26e595e9e772d67a1851fa72aed68655d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 23/32] fix: keep nested form areas in the file of the outer
 one

---
 src/v8unpack/organizer_form_elem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 5eb7e91..d7ef335 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -153,7 +153,7 @@ class OrganizerFormElem:
                 name: str = elem['name']
                 new_path = cls.get_old_path(elem, path, name)
                 area_type = cls.is_area(name)
-                if area_type:
+                if area_type and isinstance(elem.get('child'), str):  # вложенные области остаются в файле внешней
                     area_name = name[8:]
                     _path, _file_name = OrganizerCode.parse_include_path(
                         area_name, src_path, file_name, index_code_areas, descent, file_extension=file_name[-9::])
-- 
2.43.0


From 00047b5b63750a1699b27abd803532190bae93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 24/32] fix: move nested read-only form areas with their outer
 area

---
 src/v8unpack/organizer_form_elem.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index d7ef335..7e978a3 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -40,6 +40,13 @@ class OrganizerFormElem:
             _old_path.append(_name)
         return '/'.join(_old_path)
 
+    @classmethod
+    def get_child_path(cls, _elem, _path):
+        name = _elem['name']
+        if cls.is_area(name):  # дочерние элементы областей только для чтения лежат по пути обычной области
+            name = f'include_{name[8:]}'
+        return cls.get_old_path(_elem, _path, name)
+
     @classmethod
     def _unpack_get_areas(cls, tree, path, root_data, areas):
 
@@ -89,7 +96,7 @@ class OrganizerFormElem:
                         raise KeyNotFound(message='Не найден элемент формы', detail=old_path)
                     child = elem.get('child')
                     if child:
-                        cls._pop_area_data(child, old_path, root_data, data, remove_path)
+                        cls._pop_area_data(child, cls.get_child_path(elem, path), root_data, data, remove_path)
 
             pages = root_data.pop(f'{path}/-pages-', None)
             if pages is not None:
@@ -186,7 +193,7 @@ class OrganizerFormElem:
                         raise KeyNotFound(message='Не найден элемент формы', detail=old_path)
                     child = elem.get('child')
                     if child:
-                        cls._append_area_data(child, old_path, root_data, data, append_path)
+                        cls._append_area_data(child, cls.get_child_path(elem, _path), root_data, data, append_path)
 
             pages = data.pop(f'{_path}/-pages-', None)
             if pages is not None:
-- 
2.43.0


From 27a28b6821e80bf72071e6f10038aebe0d860b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 25/32] fix: keep line breaks and encoding of text templates
 byte for byte

---
 src/v8unpack/MetaDataObject/Template.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Template.py b/src/v8unpack/MetaDataObject/Template.py
index db5bfac..824c259 100644
--- a/src/v8unpack/MetaDataObject/Template.py
+++ b/src/v8unpack/MetaDataObject/Template.py
@@ -97,12 +97,8 @@ class Template2(Simple):
         self.decode_scheme_data(src_dir, dest_dir, write, extension='mxl')
 
     def decode_text_data(self, src_dir, dest_dir, write):
-        try:
-            self.data, encoding = helper.txt_read_detect_encoding(src_dir, f'{self.header["uuid"]}.0')
-        except FileNotFoundError:
-            return
-        if write:
-            helper.txt_write(self.data, self.new_dest_dir, f'{self.new_dest_file_name}.txt', encoding=encoding)
+        # без перекодирования: переводы строк и кодировка текста макета должны сохраниться как есть
+        self.decode_scheme_data(src_dir, dest_dir, write, extension='txt')
 
     def decode_extension_data(self, src_dir, dest_dir, write):
         self.decode_base64_data(src_dir, dest_dir, write)
@@ -185,10 +181,12 @@ class Template2(Simple):
 
     def encode_text_data(self, src_dir, file_name, dest_dir):
         try:
-            raw_data, encoding = helper.txt_read_detect_encoding(src_dir, f'{file_name}.txt')
-            file_name = f'{self.header["uuid"]}.0'
-            helper.txt_write(raw_data, dest_dir, file_name, encoding=encoding)
-            self.file_list.append(file_name)
+            dest_file_name = f'{self.header["uuid"]}.0'
+            shutil.copy2(
+                os.path.join(src_dir, f'{file_name}.txt'),
+                os.path.join(dest_dir, dest_file_name)
+            )
+            self.file_list.append(dest_file_name)
         except FileNotFoundError:
             pass
 
-- 
2.43.0


From 9c4f95d1e992e1a5ee25f318fdd378c2371bc2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 26/32] fix: keep the description of a common picture that has
 no picture data

---
 src/v8unpack/MetaDataObject/CommonPicture.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/CommonPicture.py b/src/v8unpack/MetaDataObject/CommonPicture.py
index 3f1c8e9..9dc9f78 100644
--- a/src/v8unpack/MetaDataObject/CommonPicture.py
+++ b/src/v8unpack/MetaDataObject/CommonPicture.py
@@ -32,12 +32,15 @@ class CommonPicture(Simple):
     def encode_object(self, src_dir, file_name, dest_dir):
         super().encode_object(src_dir, file_name, dest_dir)
 
+        info = self.header.get('info')
+        if not info:
+            return
         extension = helper.get_extension_from_comment(self.header['comment'])
         try:
             bin_data = helper.bin_read(src_dir, f'{file_name}.{extension}')
-            self.header['info'][0][2][0][0] += b64encode(bin_data).decode(encoding='utf-8')
-            file_name = f'{self.header["uuid"]}.0'
-            helper.brace_file_write(self.header['info'], dest_dir, file_name)
-            self.file_list.append(file_name)
+            info[0][2][0][0] += b64encode(bin_data).decode(encoding='utf-8')
         except FileNotFoundError:
             pass
+        file_name = f'{self.header["uuid"]}.0'
+        helper.brace_file_write(info, dest_dir, file_name)
+        self.file_list.append(file_name)
-- 
2.43.0


From 88413d9f683b506518e427bac36fab0a395d768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 27/32] fix: an empty encrypted module can be built again

---
 src/v8unpack/MetaObject/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index eea2014..1359e54 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -336,7 +336,7 @@ class MetaObject:
                     else:
                         self.code[code_name] = helper.txt_read(src_dir, f'{file_name}.{code_name}.bsl')
                 except FileNotFoundError:
-                    self.code[code_name] = ''
+                    self.code[code_name] = b'' if encoding in self.encrypted_types else ''
 
     def write_encode_code(self, dest_dir, *, comment_directive=False):
         for code_name in self.code:
-- 
2.43.0


From ab01f8c71fe9cc081e56538f512434ee81d967c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:09 +0000
Subject: [PATCH 28/32] fix: a value following the pages of a panel of an
 ordinary form was dropped

---
 src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
index f1da6e9..795866b 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
@@ -288,7 +288,7 @@ class Panel(FormElement):
                     "page_format_version": page_format_version,
                     "raw": raw_page
                 }
-            del pages_raw_data[1:1 + 2 + page_count]
+            del pages_raw_data[1:2 + page_count]
             self.elements_data[self.calc_id(path, '-pages-', None)] = self.pages
 
             decode_info()
-- 
2.43.0


From b9d9e85a5f09de4db92cb5cebdbba295ac1972ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:38 +0000
Subject: [PATCH 29/32] fix: an ordinary form with a panel named includr...
 could not be built, its elements being tied to one another

---
 src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
index 795866b..23e1ff9 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
@@ -475,7 +475,7 @@ class Panel(FormElement):
                 elem_raw_data = elem[-3]
                 elem_id = elem[1]
                 offset = 6
-                _path = path.replace('includr', 'include')
+                _path = path.replace('includr_', 'include_')
                 for anchor_border in range(6):
                     border = 1 if anchor_border > 3 else anchor_border
                     for j in range(1, 3):
-- 
2.43.0


From f8d3407fb7fe213e9d4ffd9cd721f8a411117e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:12 +0000
Subject: [PATCH 30/32] fix: a module sent elsewhere by the index was also
 taken from a copy left in the sources, and the copy could win

---
 src/v8unpack/organizer_file.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index c4d7202..5e1edfc 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -147,6 +147,9 @@ class OrganizerFile:
                 cls._pack_index(src_dir, dest_dir, tasks_code_file, tasks_form_elem, index, index_code_areas, [''],
                                 descent)
             cls._pack(src_dir, dest_dir, '', tasks_code_file, tasks_form_elem, index, index_code_areas, descent)
+            # файл, который берётся по индексу, из исходников уже не берём
+            tasks_code_file = cls._first_by_dest(tasks_code_file)
+            tasks_form_elem = cls._first_by_dest(tasks_form_elem)
             helper.run_in_pool(OrganizerCode.pack, tasks_code_file, pool=pool, title=f'{"Собираем код из файлов":30}')
             helper.run_in_pool(OrganizerFormElem.pack, tasks_form_elem, pool=pool,
                                title=f'{"Собираем элементы форм":30}')
@@ -154,6 +157,13 @@ class OrganizerFile:
             raise ExtException(parent=err)
         print(f'{"Собираем код - готово":30}: {datetime.now() - begin}')
 
+    @staticmethod
+    def _first_by_dest(tasks):
+        result = {}
+        for task in tasks:
+            result.setdefault(task[3:6], task)  # dest_dir, dest_path, dest_file_name
+        return list(result.values())
+
     @classmethod
     def _pack_index_elem(cls, entry: str, src_dir: str, dest_dir: str, tasks_code_file: list, tasks_form_elem,
                          index_entry: str, index_code_areas: dict, path: list, descent=None):
-- 
2.43.0


From 04ad94cce412ddfb222c4d4e53aa6c6d6409f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:47 +0000
Subject: [PATCH 31/32] fix: elements of a form were not kept by version:
 unpacking another version overwrote them

---
 src/v8unpack/organizer_file.py      |  3 ++-
 src/v8unpack/organizer_form_elem.py | 32 +++++++++++++++++++++--------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 5e1edfc..ce84750 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -43,7 +43,8 @@ class OrganizerFile:
                 if entry.endswith('.bsl'):
                     tasks_code_file.append((src_dir, path, entry, dest_dir, index, descent))
                 elif entry.endswith('.elem.json'):
-                    tasks_form_elem.append((src_dir, path, entry, dest_dir, index, descent))
+                    tasks_form_elem.append((src_dir, path, entry, dest_dir, index, descent,
+                                            cls.unpack_get_descent_filename))
                 else:
                     src_path = os.path.join(src_dir, path)
                     cls.unpack_file(src_path, entry, dest_dir, path, entry, index, descent)
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 7e978a3..bb06b06 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -13,12 +13,12 @@ class OrganizerFormElem:
 
     @classmethod
     def unpack(cls, params):
-        src_dir, path, file_name, dest_dir, index, descent = params
+        src_dir, path, file_name, dest_dir, index, descent, unpack_get_descent_filename = params
         areas = {}
         elements = helper.json_read(os.path.join(src_dir, path), file_name)
         cls._unpack_get_areas(elements['tree'], '', elements['data'], areas)
         areas[None] = elements  # область может называться root
-        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas)
+        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, unpack_get_descent_filename)
 
     @staticmethod
     def is_area(name):
@@ -114,8 +114,14 @@ class OrganizerFormElem:
         except Exception as err:
             raise ExtException(parent=err)
 
-    @staticmethod
-    def _unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas):
+    @classmethod
+    def equal_elem_file(cls, src_path, src_file_name, src_data, near_descent_path, near_descent_file_name):
+        return helper.json_read(near_descent_path, near_descent_file_name) == src_data
+
+    @classmethod
+    def _unpack_write_areas(cls, src_dir, path, file_name, dest_dir, index, descent, areas,
+                            unpack_get_descent_filename):
+        normcase_src = os.path.normcase('\\src\\')
         try:
             for elem in areas:
                 if elem is None:
@@ -125,8 +131,12 @@ class OrganizerFormElem:
                         elem, path, elem, index.get('Области include') if index else None, descent,
                         file_extension=file_name[-9::])
                 dest_path = os.path.abspath(os.path.join(dest_dir, dest_entry_path))
+                if helper.is_inside(dest_path, dest_dir) or os.path.normcase(dest_entry_path).find(normcase_src) >= 0:
+                    dest_path, dest_file_name = unpack_get_descent_filename(
+                        None, None, areas[elem], dest_path, dest_file_name, descent, cls.equal_elem_file)
 
-                helper.json_write(areas[elem], dest_path, dest_file_name)
+                if dest_file_name:  # если элементы не менялись, ничего с ними не делаем
+                    helper.json_write(areas[elem], dest_path, dest_file_name)
         except Exception as err:
             raise ExtException(
                 parent=err,
@@ -140,8 +150,8 @@ class OrganizerFormElem:
             descent, pack_get_descent_filename = params
         elements = helper.json_read(os.path.join(src_dir, src_path), src_file_name)
         try:
-            cls._pack_get_areas(src_dir, src_path, src_file_name, elements['tree'], '', elements['data'],
-                                index_code_areas, descent)
+            cls._pack_get_areas(src_dir, src_path, dest_file_name, elements['tree'], '', elements['data'],
+                                index_code_areas, descent, pack_get_descent_filename)
         except Exception as err:
             raise ExtException(parent=err, message='Ошибка сборки элементов формы',
                                detail=f'{os.path.join(src_path, src_file_name)}')
@@ -154,7 +164,9 @@ class OrganizerFormElem:
         return elem_class.get_class_form_elem(elem_type)
 
     @classmethod
-    def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent):
+    def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent,
+                        pack_get_descent_filename):
+        normcase_src = os.path.normcase('\\src\\')
         for elem in tree or []:
             try:
                 name: str = elem['name']
@@ -165,6 +177,8 @@ class OrganizerFormElem:
                     _path, _file_name = OrganizerCode.parse_include_path(
                         area_name, src_path, file_name, index_code_areas, descent, file_extension=file_name[-9::])
                     _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
+                    if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
+                        _src_abs_path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
 
                     include_elements = helper.json_read(_src_abs_path, _file_name)
                     cls._append_area_data(include_elements['tree'], name, root_data, include_elements['data'],
@@ -174,7 +188,7 @@ class OrganizerFormElem:
                 child = elem.get('child')
                 if child:
                     cls._pack_get_areas(src_dir, src_path, file_name, child, new_path, root_data, index_code_areas,
-                                        descent)
+                                        descent, pack_get_descent_filename)
             except Exception as err:
                 raise ExtException(parent=err, message='Ошибка сборки области формы', detail=elem['name'])
 
-- 
2.43.0


From 20abfed81bf80c478bd491aa5738d5062e87c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:44 +0000
Subject: [PATCH 32/32] fix: a form sent elsewhere by the index could not find
 its areas that lie in its own folder

---
 src/v8unpack/organizer_form_elem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index bb06b06..e283780 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -150,7 +150,7 @@ class OrganizerFormElem:
             descent, pack_get_descent_filename = params
         elements = helper.json_read(os.path.join(src_dir, src_path), src_file_name)
         try:
-            cls._pack_get_areas(src_dir, src_path, dest_file_name, elements['tree'], '', elements['data'],
+            cls._pack_get_areas(src_dir, dest_path, dest_file_name, elements['tree'], '', elements['data'],
                                 index_code_areas, descent, pack_get_descent_filename)
         except Exception as err:
             raise ExtException(parent=err, message='Ошибка сборки элементов формы',
-- 
2.43.0

