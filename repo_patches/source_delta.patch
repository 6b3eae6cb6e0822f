From e35d09cc097c6fe8481c2c4df02c9e7751315d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 01/74] fix: bipush operand is a signed byte

---
 javatools/opcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index 6914b1d..8238396 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -282,7 +282,7 @@ OP_athrow = __op('athrow', 0xbf)
 
 OP_baload = __op('baload', 0x33)
 OP_bastore = __op('bastore', 0x54)
-OP_bipush = __op('bipush', 0x10, fmt='>B')
+OP_bipush = __op('bipush', 0x10, fmt='>b')
 
 OP_caload = __op('caload', 0x34)
 OP_castore = __op('castore', 0x55)
-- 
2.43.0


From e1c31b696382e6a4f7d589507124166c9594ac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 02/74] fix: multianewarray's first operand is a constant pool
 index

---
 javatools/opcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index 8238396..e477718 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -457,7 +457,7 @@ OP_lxor = __op('lxor', 0x83)
 
 OP_monitorentry = __op('monitorentry', 0xc2)
 OP_monitorexit = __op('monitorexit', 0xc3)
-OP_multianewarray = __op('multianewarray', 0xc5, fmt='>HB')
+OP_multianewarray = __op('multianewarray', 0xc5, fmt='>HB', const=True)
 
 OP_new = __op('new', 0xbb, fmt='>H', const=True)
 OP_newarray = __op('newarray', 0xbc, fmt='>B')
-- 
2.43.0


From 73788ee8ef3e0286942d68a08841663fe1174c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 03/74] fix: recognise the (always empty) Deprecated and
 Synthetic attributes

---
 javatools/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 4cb55db..e36a96e 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -692,7 +692,7 @@ class JavaClassInfo(object):
         reference: http://docs.oracle.com/javase/specs/jvms/se7/html/jvms-4.html#jvms-4.7.15
         """  # noqa
 
-        return bool(self.get_attribute("Deprecated"))
+        return self.get_attribute("Deprecated") is not None
 
 
     def get_super(self):
@@ -1234,7 +1234,7 @@ class JavaMemberInfo(object):
         """  # noqa
 
         return ((self.access_flags & ACC_SYNTHETIC) or
-                bool(self.get_attribute("Synthetic")))
+                (self.get_attribute("Synthetic") is not None))
 
 
     def is_enum(self):
@@ -1260,7 +1260,7 @@ class JavaMemberInfo(object):
         reference: http://docs.oracle.com/javase/specs/jvms/se5.0/html/ClassFile.doc.html#78232
         """  # noqa
 
-        return bool(self.get_attribute("Deprecated"))
+        return self.get_attribute("Deprecated") is not None
 
 
     def _get_annotations(self, python_attr_name, java_attr_name,
-- 
2.43.0


From 0b3c02ad38d63fb60f2b5e303270a051e2f89686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 04/74] fix: render MethodType, MethodHandle, Module, Package
 and Dynamic constants

---
 javatools/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index e36a96e..dcfbd6a 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -398,13 +398,17 @@ class JavaConstantPool(object):
             result = "Dynamic %r %r" % (v[0], self.deref_const(v[1]))
 
         elif t == CONST_MethodType:
-            result = "MethodType %r %r" % (v[0], self.deref_const(v[1]))
+            result = "MethodType %s" % self.deref_const(v)
+
+        elif t == CONST_MethodHandle:
+            result = "MethodHandle %r %s" % (v[0],
+                                             self.pretty_deref_const(v[1]))
 
         elif t == CONST_Module:
-            result = "Module %s" % self.deref_cons(v[0])
+            result = "Module %s" % self.deref_const(v)
 
         elif t == CONST_Package:
-            result = "Package %s" % self.deref_cons(v[0])
+            result = "Package %s" % self.deref_const(v)
 
         elif not t:
             # the skipped-type, meaning the prior index was a
@@ -2220,6 +2224,9 @@ def _pretty_const_type_val(typecode, val):
     elif typecode == CONST_InvokeDynamic:
         typestr = "InvokeDynamic"
         val = repr(val)
+    elif typecode == CONST_Dynamic:
+        typestr = "Dynamic"
+        val = repr(val)
     elif typecode == CONST_Module:
         typestr = "Module"
     elif typecode == CONST_Package:
-- 
2.43.0


From afcee39f4c6e646dfdf9e00d4896282e8f7a23d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 05/74] fix: keep supplementary characters of modified UTF-8
 constants

---
 javatools/__init__.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index dcfbd6a..68735f4 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -2116,6 +2116,23 @@ def platform_from_version(major, minor):
 # Utility functions for the constants pool
 
 
+def _decode_modified_utf8(data):
+    """
+    decode java's modified utf-8 encoding, where NUL is encoded in two
+    bytes and supplementary characters as a pair of surrogates, each
+    in three bytes. We want at least some data, so unpaired surrogates
+    are replaced, and unknown bytes are ignored.
+    """
+
+    data = data.replace(b"\xC0\x80", b"\x00")
+    try:
+        return (data.decode("utf8", "surrogatepass")
+                .encode("utf-16-le", "surrogatepass")
+                .decode("utf-16-le", "replace"))
+    except UnicodeDecodeError:
+        return data.decode("utf8", "ignore")
+
+
 def _unpack_const_item(unpacker):
     """
     unpack a constant pool item, which will consist of a type byte
@@ -2131,11 +2148,7 @@ def _unpack_const_item(unpacker):
         try:
             val = val.decode("utf8")
         except UnicodeDecodeError:
-            # easiest hack to handle java's modified utf-8 encoding
-            # also we want at least some data, thus we ignore
-            # unknown characters
-            val = val.replace(b"\xC0\x80", b"\x00") \
-                     .decode("utf8", errors="ignore")
+            val = _decode_modified_utf8(val)
 
     elif typecode == CONST_Integer:
         (val,) = unpacker.unpack(">i")
-- 
2.43.0


From 48fbfc28545d47696797d344bd82b8f145b78dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 06/74] fix: required classes referenced only through
 multi-dimensional arrays

---
 javatools/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 68735f4..4103837 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -983,9 +983,9 @@ class JavaClassInfo(object):
                     # the event that this was a method or field on the
                     # array, we'll throw away that as well, and just
                     # emit the type contained in the array.
-                    t = _typeseq(pv)[0]
-                    if t[1] == "L":
-                        pv = _pretty_type(t[1:])
+                    t = _typeseq(pv)[0].lstrip("[")
+                    if t[0] == "L":
+                        pv = _pretty_type(t)
                     else:
                         pv = None
 
-- 
2.43.0


From 9798ef8de3ad53391f5ccf02443780e2e5823f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 07/74] fix: accept already read magic numbers given as bytes

---
 javatools/__init__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 4103837..b7902c2 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -505,7 +505,9 @@ class JavaClassInfo(object):
         # only unpack the magic bytes if it wasn't specified
         magic = magic or unpacker.unpack_struct(_BBBB)
 
-        if isinstance(magic, (str, buffer)):
+        if isinstance(magic, (bytes, buffer)):
+            magic = tuple(bytearray(magic))
+        elif isinstance(magic, str):
             magic = tuple(ord(m) for m in magic)
         else:
             magic = tuple(magic)
@@ -2466,10 +2468,6 @@ def unpack_class(data, magic=None):
     """
 
     with unpack(data) as up:
-        magic = magic or up.unpack_struct(_BBBB)
-        if magic != JAVA_CLASS_MAGIC:
-            raise ClassUnpackException("Not a Java class file")
-
         o = JavaClassInfo()
         o.unpack(up, magic=magic)
 
-- 
2.43.0


From 3faf19c9f5c140a268cd36b923096fb66975f271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 08/74] fix: anonymous inner classes have no name

---
 javatools/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index b7902c2..38b9f48 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1906,9 +1906,12 @@ class JavaInnerClassInfo(object):
 
     def get_name(self):
         """
-        the name of this inner-class
+        the name of this inner-class, or None if it is anonymous
         """
 
+        if not self.name_ref:
+            return None
+
         return self.cpool.deref_const(self.name_ref)
 
 
-- 
2.43.0


From e53b3b2fd65b1396f84f723fb405d706b490c0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 09/74] fix: bridge lookup with argument types given as a list

---
 javatools/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 38b9f48..b8722a0 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -601,6 +601,9 @@ class JavaClassInfo(object):
         those in arg_types.
         """
 
+        # as in get_method
+        arg_types = tuple(arg_types)
+
         for m in self.get_methods_by_name(name):
             if ((m.is_bridge() and
                  m.get_arg_type_descriptors() == arg_types)):
-- 
2.43.0


From e1c95d896f4c99b7fc0c211a512cd708a84b02fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:37 +0000
Subject: [PATCH 10/74] fix: compare constants exactly in class comparison

A NaN constant made a class differ from itself, 0.0 and -0.0 were taken
for the same, as were loading a String and loading the Class of that
name, or an int and the float equal to it.
---
 javatools/__init__.py  | 34 ++++++++++++++++++++++++++++++++--
 javatools/classdiff.py |  7 ++++---
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index b8722a0..2480971 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -182,7 +182,8 @@ class JavaConstantPool(object):
 
     def __eq__(self, other):
         return (isinstance(other, JavaConstantPool) and
-                (self.consts == other.consts))
+                (_const_identity(self.consts) ==
+                 _const_identity(other.consts)))
 
 
     def __ne__(self, other):
@@ -232,6 +233,17 @@ class JavaConstantPool(object):
         return self.consts[index]
 
 
+    def identify_const(self, index):
+        """
+        the type and dereferenced value of the constant at index, in a
+        form which is equal only to that of the same constant, whether
+        in this pool or another
+        """
+
+        return (self.consts[index][0],
+                _const_identity(self.deref_const(index)))
+
+
     def deref_const(self, index):
         """
         returns the dereferenced value from the const pool. For simple
@@ -2002,7 +2014,8 @@ def _annotation_val_eq(left_tag, left_data, left_cpool,
     rconst = right_cpool.deref_const
 
     if left_tag in 'BCDFIJSZs':
-        return lconst(left_data) == rconst(right_data)
+        return (_const_identity(lconst(left_data)) ==
+                _const_identity(rconst(right_data)))
 
     elif left_tag == 'e':
         return ((lconst(left_data[0]) == rconst(right_data[0])) and
@@ -2124,6 +2137,23 @@ def platform_from_version(major, minor):
 # Utility functions for the constants pool
 
 
+def _const_identity(value):
+    """
+    a form of a constant (or a sequence of them) which is equal only to
+    that of the same constant. The float NaN isn't equal to itself, and
+    0.0 is equal to -0.0, but neither is so for Java constants.
+    """
+
+    if isinstance(value, float):
+        return (float, repr(value))
+
+    elif isinstance(value, (list, tuple)):
+        return [_const_identity(v) for v in value]
+
+    else:
+        return value
+
+
 def _decode_modified_utf8(data):
     """
     decode java's modified utf-8 encoding, where NUL is encoded in two
diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 5323bd6..4b6309d 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -445,8 +445,8 @@ class CodeConstantsChange(GenericChange):
 
             if has_const_arg(l[1]):
                 largs, rargs = list(largs), list(rargs)
-                largs[0] = left.cpool.deref_const(largs[0])
-                rargs[0] = right.cpool.deref_const(rargs[0])
+                largs[0] = left.cpool.identify_const(largs[0])
+                rargs[0] = right.cpool.identify_const(rargs[0])
 
             if largs != rargs:
                 offsets.append(l[0])
@@ -723,7 +723,8 @@ class FieldConstvalueChange(GenericChange):
 
 
     def fn_data(self, c):
-        return c.deref_constantvalue()
+        index = c.get_constantvalue()
+        return index and c.cpool.identify_const(index)
 
 
     def fn_pretty(self, c):
-- 
2.43.0


From a2236cb562c417278a825d585f0538373721d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 11/74] fix: pair up members which share an identifier

Fields of the same name, and methods of the same name and arguments,
replaced each other, so that a class with such members was reported to
differ from itself.
---
 javatools/classdiff.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 4b6309d..7195b74 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -305,20 +305,34 @@ class ClassMembersChange(SuperChange):
         li = {}
 
         for member in self.ldata:
-            li[member.get_identifier()] = member
-
-        for member in self.rdata:
-            key = member.get_identifier()
-            lf = li.get(key, None)
-
-            if lf:
-                del li[key]
-                yield self.member_changed(lf, member)
+            li.setdefault(member.get_identifier(), []).append(member)
+
+        # several members may share an identifier (eg. methods which
+        # differ only in return type), so those of the same descriptor
+        # are paired up first
+        pairs = {}
+
+        for index, member in enumerate(self.rdata):
+            rest = li.get(member.get_identifier(), ())
+            for lf in rest:
+                if lf.get_descriptor() == member.get_descriptor():
+                    rest.remove(lf)
+                    pairs[index] = lf
+                    break
+
+        for index, member in enumerate(self.rdata):
+            rest = li.get(member.get_identifier())
+            if index not in pairs and rest:
+                pairs[index] = rest.pop(0)
+
+            if index in pairs:
+                yield self.member_changed(pairs[index], member)
             else:
                 yield self.member_added(None, member)
 
-        for member in li.values():
-            yield self.member_removed(member, None)
+        for rest in li.values():
+            for member in rest:
+                yield self.member_removed(member, None)
 
 
 class CodeAbsoluteLinesChange(GenericChange):
-- 
2.43.0


From 0172537c1160d5899beef7da0a9347201c82b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:18 +0000
Subject: [PATCH 12/74] fix: check the code of a method which became abstract
 or concrete

Its code change had no changed sub-change, and so counted as ignored
whatever the options were.
---
 javatools/classdiff.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 7195b74..f65d3ff 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -629,11 +629,11 @@ class MethodCodeChange(SuperChange):
 
 
     def check_impl(self):
-        # if one side has gone abstract, don't bother trying to check
-        # any deeper, they're different unless they're both abstract.
+        # if both sides are abstract there's nothing to check. If only
+        # one is, then the sub-changes will show it.
 
-        if None in (self.ldata, self.rdata):
-            return (self.ldata != self.rdata), None
+        if self.ldata is self.rdata is None:
+            return False, None
         else:
             return super(MethodCodeChange, self).check_impl()
 
-- 
2.43.0


From 25ef7271688127232f1c5c73fa332a2daa52e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:32 +0000
Subject: [PATCH 13/74] fix: make the ignore options for class comparison
 effective

--ignore-added and --ignore-platform had no effect, nor had lines,
version or platform when given as a value of --ignore.
---
 javatools/classdiff.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index f65d3ff..271d041 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -130,8 +130,11 @@ class ClassPlatformChange(GenericChange):
         lver = self.ldata.version
         rver = self.rdata.version
 
-        return ((o.ignore_version_up and lver < rver) or
-                (o.ignore_version_down and lver > rver))
+        # the platform follows from the version
+        up = o.ignore_version_up or o.ignore_platform_up
+        down = o.ignore_version_down or o.ignore_platform_down
+
+        return (up and lver < rver) or (down and lver > rver)
 
 
 class ClassSuperclassChange(GenericChange):
@@ -275,6 +278,10 @@ class MemberAdded(Addition):
         return "%s: %s" % (self.label, self.rdata.pretty_descriptor())
 
 
+    def is_ignored(self, o):
+        return o.ignore_added
+
+
 @add_metaclass(ABCMeta)
 class MemberRemoved(Removal):
     """
@@ -1049,7 +1056,16 @@ class _opt_cb_ignore(Action):
         ign = (i for i in ign if i)
         for i in ign:
             ignore.append(i)
-            setattr(options, "ignore_" + i.replace("-", "_"), True)
+            i = i.replace("-", "_")
+            setattr(options, "ignore_" + i, True)
+
+            # these stand for a pair of more specific options
+            if i == "lines":
+                options.ignore_absolute_lines = True
+                options.ignore_relative_lines = True
+            elif i in ("version", "platform"):
+                setattr(options, "ignore_" + i + "_up", True)
+                setattr(options, "ignore_" + i + "_down", True)
 
 
 class _opt_cb_ign_lines(Action):
-- 
2.43.0


From 0cc83e938a94d9f0ef27de9f028f3a233d57076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 14/74] fix: keep the archives open while comparing them

ziputils.compare returned a generator working on archives which were
closed by the time it was first advanced.
---
 javatools/ziputils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 4b92ca3..23b6fbc 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -54,7 +54,8 @@ def compare(left, right):
     """
 
     with open_zip(left) as lz, open_zip(right) as rz:
-        return compare_zips(lz, rz)
+        for event in compare_zips(lz, rz):
+            yield event
 
 
 def compare_zips(left, right):
-- 
2.43.0


From 40e13a3621519d95dfdfb9861df06d705ebda3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 15/74] fix: read entries of exploded archives as bytes

open_zip_entry defaults to mode 'r', which for a ZipFile gives bytes but
for an ExplodedZipFile gave decoded text, so the same content compared
as different (or failed to decode).
---
 javatools/ziputils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 23b6fbc..baf618d 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -289,8 +289,9 @@ class ExplodedZipFile(object):
         return self.members.values()
 
 
-    def open(self, name, mode='rb'):
-        return open(join(self.fn, name), mode)
+    def open(self, name, mode='r'):
+        # as with ZipFile, entries are always read as bytes
+        return open(join(self.fn, name), mode.replace("b", "") + "b")
 
 
     def read(self, name):
-- 
2.43.0


From f5135bcc90c0a7815a3897b172271562d027bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 16/74] fix: is_zipstream accepts bytes

---
 javatools/ziputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index baf618d..25eea4e 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -191,7 +191,7 @@ def is_zipstream(data):
     rewound after being tested.
     """
 
-    if isinstance(data, (str, buffer)):
+    if isinstance(data, (bytes, bytearray, buffer)):
         data = BytesIO(data)
 
     if hasattr(data, "read"):
-- 
2.43.0


From 1881978575c6e43d923e0b144b7496bfb0f65d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 17/74] fix: create directories at every depth in copydir

---
 javatools/dirutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index b5c2174..06d18d0 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -70,7 +70,7 @@ def copydir(orig, dest):
     for root, dirs, files in walk(orig):
         for d in dirs:
             # ensure directories exist
-            makedirsp(join(dest, d))
+            makedirsp(join(dest, relpath(join(root, d), orig)))
 
         for f in files:
             root_f = join(root, f)
-- 
2.43.0


From 4299c3a04b17b7e1295a21f40c291fe31c242b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 18/74] fix: compare directories by content and report files
 replaced by directories

---
 javatools/dirutils.py | 89 ++++++++++++++++++++++++++-----------------
 javatools/distdiff.py |  2 +-
 2 files changed, 56 insertions(+), 35 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index 06d18d0..4a30a1e 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -36,6 +36,9 @@ SAME = "same"
 BOTH = SAME  # meh, synonyms
 
 
+_CHUNKSIZE = 2 ** 14
+
+
 def fnmatches(entry, *pattern_list):
     """
     returns true if entry matches any of the glob patterns, false
@@ -93,52 +96,70 @@ def compare(left, right):
     return _gen_from_dircmp(dc, left, right)
 
 
+def _gen_from_path(event, path, base):
+    """
+    event for the file at path, or for each of the files beneath the
+    directory at path, with filenames relative to base
+    """
+
+    if isdir(path):
+        for r, _ds, fs in walk(path):
+            for f in fs:
+                yield (event, relpath(join(r, f), base))
+    else:
+        yield (event, relpath(path, base))
+
+
+def _different_files(left, right):
+    """
+    true if the contents of the files left and right differ. Unlike
+    those of the filecmp module this does not consult the size and
+    modification time
+    """
+
+    with open(left, "rb") as lfd, open(right, "rb") as rfd:
+        while True:
+            ldata = lfd.read(_CHUNKSIZE)
+            if ldata != rfd.read(_CHUNKSIZE):
+                return True
+            if not ldata:
+                return False
+
+
 def _gen_from_dircmp(dc, lpath, rpath):
     """
     do the work of comparing the dircmp
     """
 
-    left_only = dc.left_only
-    left_only.sort()
+    # names which are a directory on one side but not on the other
+    # have nothing in common
+    mixed = [f for f in dc.common_funny
+             if isdir(join(dc.left, f)) != isdir(join(dc.right, f))]
 
-    for f in left_only:
-        fp = join(dc.left, f)
-        if isdir(fp):
-            for r, _ds, fs in walk(fp):
-                r = relpath(r, lpath)
-                for f in fs:
-                    yield (LEFT, join(r, f))
-        else:
-            yield (LEFT, relpath(fp, lpath))
-
-    right_only = dc.right_only
-    right_only.sort()
-
-    for f in right_only:
-        fp = join(dc.right, f)
-        if isdir(fp):
-            for r, _ds, fs in walk(fp):
-                r = relpath(r, rpath)
-                for f in fs:
-                    yield (RIGHT, join(r, f))
-        else:
-            yield (RIGHT, relpath(fp, rpath))
+    for f in sorted(dc.left_only + mixed):
+        for event in _gen_from_path(LEFT, join(dc.left, f), lpath):
+            yield event
 
-    diff_files = dc.diff_files
-    diff_files.sort()
+    for f in sorted(dc.right_only + mixed):
+        for event in _gen_from_path(RIGHT, join(dc.right, f), rpath):
+            yield event
 
-    for f in diff_files:
-        yield (DIFF, join(relpath(dc.right, rpath), f))
+    diff_files = list()
+    same_files = list()
 
-    same_files = dc.same_files
-    same_files.sort()
+    for f in sorted(dc.common_files):
+        if _different_files(join(dc.left, f), join(dc.right, f)):
+            diff_files.append(f)
+        else:
+            same_files.append(f)
+
+    for f in diff_files:
+        yield (DIFF, relpath(join(dc.right, f), rpath))
 
     for f in same_files:
-        yield (BOTH, join(relpath(dc.left, lpath), f))
+        yield (BOTH, relpath(join(dc.left, f), lpath))
 
-    subdirs = dc.subdirs.values()
-    subdirs = sorted(subdirs)
-    for sub in subdirs:
+    for _name, sub in sorted(dc.subdirs.items()):
         for event in _gen_from_dircmp(sub, lpath, rpath):
             yield event
 
diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 5da4d79..3e7e55a 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -344,7 +344,7 @@ class DistChange(SuperChange):
                 elif event == SAME:
                     yield DistTextChange(ld, rd, entry, False)
 
-            elif deep and fnmatches(entry, "*/MANIFEST.MF"):
+            elif deep and fnmatches(entry, "MANIFEST.MF", "*/MANIFEST.MF"):
                 if event == LEFT:
                     yield DistContentRemoved(ld, rd, entry)
                 elif event == RIGHT:
-- 
2.43.0


From 973cda8970983aee1ab60167394eae39d2c9608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 19/74] fix: join folded manifest lines before decoding and
 reject malformed ones

---
 javatools/manifest.py | 56 +++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 7f27418..2a2c10b 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -374,17 +374,19 @@ class Manifest(ManifestSection):
         :type data: bytes
         """
 
-        # we want at least some data, thus we ignore unknown characters
-        data = data.decode('utf-8', errors="ignore")
         self.linesep = detect_linesep(data)
 
         # the first section is the main one for the manifest. It's
         # also where we will check for our newline separator
         sections = parse_sections(data)
-        self.load(next(sections))
+        self.load(next(sections, ()))
 
         # and all following sections are considered sub-sections
         for section in sections:
+            if ManifestSection.primary_key not in (k for k, _vals in section):
+                raise MalformedManifest("section without a %s"
+                                        % ManifestSection.primary_key)
+
             next_section = ManifestSection(None)
             next_section.load(section)
             self.sub_sections[next_section.primary()] = next_section
@@ -695,9 +697,15 @@ def b64_encoded_digest(data, algorithm):
 
 def detect_linesep(data):
     """
-    :type data: unicode in Py2, str in Py3
+    :type data: bytes
     """
-    return "\r\n" if "\r\n" in data else "\n"
+
+    if b"\r\n" in data:
+        return "\r\n"
+    elif b"\r" in data and b"\n" not in data:
+        return "\r"
+    else:
+        return "\n"
 
 
 def parse_sections(data):
@@ -706,12 +714,13 @@ def parse_sections(data):
 
     [ (key, [val, ...]), ... ]
 
-    where key is a string and val is a string representing a single
-    line of any value associated with the key. Multiple vals may be
-    present if the value is long enough to require line continuations
-    in which case simply concatenate the vals together to get the full
-    value.
-    :type data: unicode in Py2, str in Py3
+    where key is a string and val is a string. Simply concatenate the
+    vals together to get the full value. Lines are separated by CR LF,
+    LF, or CR only. The lines of a value which is long enough to
+    require line continuations may be split in the middle of a
+    multi-byte character, and are therefore joined before decoding.
+
+    :type data: bytes
     """
 
     if not data:
@@ -722,15 +731,15 @@ def parse_sections(data):
 
     for lineno, line in enumerate(data.splitlines()):
         # Clean up the line
-        cleanline = line.replace('\x00', '')
+        cleanline = line.replace(b'\x00', b'')
 
         if not cleanline:
             # blank line means end of current section (if any)
             if curr:
-                yield curr
+                yield _decode_section(curr)
                 curr = None
 
-        elif cleanline[0] == ' ':
+        elif cleanline[:1] == b' ':
             # line beginning with a space means a continuation
             if curr is None:
                 raise MalformedManifest("bad line continuation, "
@@ -744,18 +753,23 @@ def parse_sections(data):
             if curr is None:
                 curr = list()
 
-            try:
-                key, val = cleanline.split(':', 1)
-                curr.append((key, [val[1:]]))
-            except ValueError:
+            key, colon, val = cleanline.partition(b':')
+            if not colon or (val and val[:1] != b' '):
                 raise MalformedManifest(
-                    "Invalid manifest line: %i; line contents: %s"
+                    "Invalid manifest line: %i; line contents: %r"
                     % (lineno, cleanline))
-
+            curr.append((key, [val[1:]]))
 
     # yield and leftovers
     if curr:
-        yield curr
+        yield _decode_section(curr)
+
+
+def _decode_section(section):
+    # we want at least some data, thus we ignore unknown characters
+    return [(key.decode('utf-8', 'ignore'),
+             [b"".join(vals).decode('utf-8', 'ignore')])
+            for key, vals in section]
 
 
 def write_key_val(stream, key, val, linesep=os.linesep):
-- 
2.43.0


From 9db896e19bd41057e4fe44bc0ad79a91de9a2c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 20/74] fix: write empty values to manifests

---
 javatools/manifest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 2a2c10b..7efdede 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -785,8 +785,8 @@ def write_key_val(stream, key, val, linesep=os.linesep):
     if hasattr(stream, 'buffer'):
         stream = stream.buffer
 
-    key = key.encode('utf-8') or ""
-    val = val.encode('utf-8') or ""
+    key = key.encode('utf-8')
+    val = val.encode('utf-8')
     linesep = linesep.encode('utf-8')
 
     if not (0 < len(key) < 69):
-- 
2.43.0


From 8ebaffbc6c69a89b9db8c4bd89b078301fbf0112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 21/74] fix: do not collect the children of a childless change
 again

---
 javatools/change.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/javatools/change.py b/javatools/change.py
index ba4fbcd..84600b2 100644
--- a/javatools/change.py
+++ b/javatools/change.py
@@ -409,7 +409,7 @@ class SuperChange(GenericChange):
 
     def __init__(self, ldata, rdata):
         super(SuperChange, self).__init__(ldata, rdata)
-        self.changes = tuple()
+        self.changes = None
 
 
     def fn_pretty(self, c):
@@ -423,9 +423,9 @@ class SuperChange(GenericChange):
 
         super(SuperChange, self).clear()
 
-        for c in self.changes:
+        for c in self.changes or ():
             c.clear()
-        self.changes = tuple()
+        self.changes = None
 
 
     def collect_impl(self):
@@ -449,7 +449,7 @@ class SuperChange(GenericChange):
         time, unless force is True
         """
 
-        if force or not self.changes:
+        if force or self.changes is None:
             self.changes = tuple(self.collect_impl())
         return self.changes
 
-- 
2.43.0


From 9c10f2401d5000bc6e9ed0b790f94fdff6728ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 22/74] fix: --ignore-jar-entry covers signature entries too

---
 javatools/jardiff.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/javatools/jardiff.py b/javatools/jardiff.py
index 08d09c6..0c03ef5 100644
--- a/javatools/jardiff.py
+++ b/javatools/jardiff.py
@@ -206,7 +206,8 @@ class JarSignatureFileChange(JarContentChange):
     label = "Jar Signature File"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileChange, self).is_ignored(options)
 
     def collect_impl(self):
         if self.is_change():
@@ -226,7 +227,8 @@ class JarSignatureFileAdded(JarContentAdded):
     label = "Jar Signature File Added"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileAdded, self).is_ignored(options)
 
 
 class JarSignatureFileRemoved(JarContentRemoved):
@@ -234,7 +236,8 @@ class JarSignatureFileRemoved(JarContentRemoved):
     label = "Jar Signature File Removed"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileRemoved, self).is_ignored(options)
 
 
 class JarSignatureBlockFileChange(JarContentChange):
@@ -242,7 +245,8 @@ class JarSignatureBlockFileChange(JarContentChange):
     label = "Jar Signature Block File"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileChange, self).is_ignored(options)
 
     def collect_impl(self):
         if self.is_change():
@@ -258,7 +262,8 @@ class JarSignatureBlockFileAdded(JarContentAdded):
 
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileAdded, self).is_ignored(options)
 
 
 class JarSignatureBlockFileRemoved(JarContentRemoved):
@@ -267,7 +272,8 @@ class JarSignatureBlockFileRemoved(JarContentRemoved):
 
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileRemoved, self).is_ignored(options)
 
 
 class GenericFileChange(GenericChange):
-- 
2.43.0


From acbb86e9abdcf5338537d72821c7cfad5872ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 23/74] fix: --ignore-manifest-key is case-insensitive as
 documented

---
 javatools/manifest.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 7efdede..09b1f30 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -141,11 +141,14 @@ class ManifestSectionChange(GenericChange):
         if getattr(options, "ignore_manifest_subsections", False):
             return True
 
-        ikeys = set(getattr(options, "ignore_manifest_key", set()))
+        # attribute names are case-insensitive
+        ikeys = set(k.lower() for k in
+                    getattr(options, "ignore_manifest_key", set()))
         if ikeys:
             lset = set(self.ldata.items())
             rset = set(self.rdata.items())
-            changed = set(k for k, _v in lset.symmetric_difference(rset))
+            changed = set(k.lower() for k, _v in
+                          lset.symmetric_difference(rset))
             return changed.issubset(ikeys)
 
         else:
@@ -189,11 +192,14 @@ class ManifestMainChange(GenericChange):
 
 
     def is_ignored(self, options):
-        ikeys = set(getattr(options, "ignore_manifest_key", set()))
+        # attribute names are case-insensitive
+        ikeys = set(k.lower() for k in
+                    getattr(options, "ignore_manifest_key", set()))
         if ikeys:
             lset = set(self.ldata.items())
             rset = set(self.rdata.items())
-            changed = set(k for k, _v in lset.symmetric_difference(rset))
+            changed = set(k.lower() for k, _v in
+                          lset.symmetric_difference(rset))
             return changed.issubset(ikeys)
 
         else:
-- 
2.43.0


From 6d70a4cb6e584ba02a71a98c1975c1f82b6b2f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 24/74] fix: report differing files without a specific
 comparison as changed

---
 javatools/distdiff.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 3e7e55a..1942b68 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -107,6 +107,17 @@ class DistContentChange(SuperChange):
         return tuple()
 
 
+    def check_impl(self):
+        """
+        Without more concrete children the verdict is the one given when
+        the contents were compared
+        """
+
+        if not self.collect():
+            return self.changed, None
+        return super(DistContentChange, self).check_impl()
+
+
     def get_description(self):
         c = "has changed" if self.is_change() else "is unchanged"
         return "%s %s: %s" % (self.label, c, self.entry)
-- 
2.43.0


From 5fbd12dc319d07140fa667e063ac7422fc77a7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:57 +0000
Subject: [PATCH 25/74] fix: compare text files as bytes

---
 javatools/distdiff.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 1942b68..58cc8e5 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -146,6 +146,12 @@ class DistContentRemoved(DistContentChange, Removal):
         return "%s: %s" % (self.label, self.entry)
 
 
+class TextDataChange(GenericChange):
+
+    def fn_pretty(self, side_data):
+        return side_data.decode("utf-8", "replace")
+
+
 class DistTextChange(DistContentChange):
 
     label = "Distributed Text"
@@ -160,17 +166,19 @@ class DistTextChange(DistContentChange):
         # if the file matches what we would consider a text file,
         # check if the only difference is in the trailing whitespace,
         # and if so, set lineending to true so we can optionally
-        # ignore the change later.
-        with self.open_left(mode="rt") as lfd:
-            with self.open_right(mode="rt") as rfd:
-                for li, ri in zip_longest(lfd, rfd, fillvalue=""):
-                    if li.rstrip() != ri.rstrip():
-                        self.lineending = False
-                        break
-                else:
-                    # we went through every line, and they were all
-                    # equal when stripped of their trailing whitespace
-                    self.lineending = True
+        # ignore the change later. The files are read as bytes, since
+        # their encoding is unknown.
+        with self.open_left() as lfd, self.open_right() as rfd:
+            for li, ri in zip_longest(lfd.read().splitlines(),
+                                      rfd.read().splitlines(),
+                                      fillvalue=b""):
+                if li.rstrip() != ri.rstrip():
+                    self.lineending = False
+                    break
+            else:
+                # we went through every line, and they were all
+                # equal when stripped of their trailing whitespace
+                self.lineending = True
 
         return super(DistTextChange, self).check()
 
@@ -180,13 +188,11 @@ class DistTextChange(DistContentChange):
                 (self.lineending and options.ignore_trailing_whitespace))
 
     def collect_impl(self):
-        with self.open_left(mode="rt") as lfd, \
-             self.open_right(mode="rt") as rfd:
-
+        with self.open_left() as lfd, self.open_right() as rfd:
             left = lfd.read()
             right = rfd.read()
             if left != right:
-                yield GenericChange(left, right)
+                yield TextDataChange(left, right)
 
 
 class DistManifestChange(DistContentChange):
-- 
2.43.0


From 9d882c47c93c7eac9c51ffb61e161b5dcd327f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:22 +0000
Subject: [PATCH 26/74] fix: surface failures of helper processes in distdiff

A helper whose check raised ended without a result, leaving the parent
waiting on the results queue forever. Helpers now report a failed check,
and the parent notices helpers which have died.
---
 javatools/distdiff.py | 77 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 64 insertions(+), 13 deletions(-)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 58cc8e5..85e3375 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -31,6 +31,8 @@ from argparse import ArgumentParser
 from multiprocessing import cpu_count
 from os.path import join
 from six.moves import range, zip_longest
+from six.moves.queue import Empty
+from traceback import format_exc
 
 from . import unpack_classfile
 from .change import GenericChange, SuperChange, Addition, Removal
@@ -449,6 +451,7 @@ class DistReport(DistChange):
         task_count = 0
         tasks = Queue()
         results = Queue()
+        processes = list()
 
         try:
             # as soon as we start using the tasks queue, we need to be
@@ -478,6 +481,7 @@ class DistReport(DistChange):
                 tasks.put(None)
                 process = Process(target=func, args=(tasks, results, options))
                 process.daemon = False
+                processes.append(process)
                 process.start()
 
             # while the helpers are running, perform our checks
@@ -486,9 +490,16 @@ class DistReport(DistChange):
                     change.check()
 
             # get all of the results and feed them back into our change
+            failures = list()
             for _i in range(0, task_count):
-                index, change = results.get()
-                changes[index] = change
+                index, change, failure = _mp_next_result(results, processes)
+                if failure:
+                    failures.append(failure)
+                else:
+                    changes[index] = change
+
+            if failures:
+                raise DistReportFailure(failures[0])
 
         except KeyboardInterrupt:
             # drain the tasks queue so it will exit gracefully
@@ -496,6 +507,14 @@ class DistReport(DistChange):
                 pass
             raise
 
+        except Exception:
+            # don't leave helpers behind which wait for us to read
+            # their results, nor wait for them to read our tasks.
+            for process in processes:
+                process.terminate()
+            tasks.cancel_join_thread()
+            raise
+
         # complete the check by setting our internal collection of
         # child changes and returning our overall status
         c = False
@@ -541,6 +560,32 @@ class DistReport(DistChange):
         self.reporter.run(self)
 
 
+class DistReportFailure(Exception):
+    """
+    Indicates that a helper process could not complete its check
+    """
+    pass
+
+
+def _mp_next_result(results, processes):
+    """
+    the next of the results from the helper processes. Raises a
+    DistReportFailure rather than waiting for a result which no helper
+    is left to provide.
+    """
+
+    while True:
+        # looked at before waiting, as the last thing a helper does
+        # before it ends is to provide its results
+        codes = [process.exitcode for process in processes]
+
+        try:
+            return results.get(timeout=1)
+        except Empty:
+            if None not in codes or any(codes):
+                raise DistReportFailure("a helper process ended early")
+
+
 def _mp_run_check(tasks, results, options):
     """
     a helper function for multiprocessing with DistReport.
@@ -548,19 +593,25 @@ def _mp_run_check(tasks, results, options):
 
     try:
         for index, change in iter(tasks.get, None):
-            # this is the part that takes up all of our time and
-            # produces side-effects like writing out files for all of
-            # the report formats.
-            change.check()
+            try:
+                # this is the part that takes up all of our time and
+                # produces side-effects like writing out files for all
+                # of the report formats.
+                change.check()
+
+                # rather than serializing the completed change (which
+                # could be rather large now that it's been realized),
+                # we send back only what we want, which is the squashed
+                # overview, and throw away the used bits.
+                squashed = squash(change, options=options)
+                change.clear()
 
-            # rather than serializing the completed change (which
-            # could be rather large now that it's been realized), we
-            # send back only what we want, which is the squashed
-            # overview, and throw away the used bits.
-            squashed = squash(change, options=options)
-            change.clear()
+            except Exception:
+                # the parent is waiting for a result for every task
+                results.put((index, None, format_exc()))
 
-            results.put((index, squashed))
+            else:
+                results.put((index, squashed, None))
 
     except KeyboardInterrupt:
         # prevent a billion lines of backtrace from hitting the user
-- 
2.43.0


From 5b3af98b4df8ac235a220491e6287bd9e73a7a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 27/74] fix: decode the SourceDebugExtension attribute as text

The bytes of the attribute were passed to str, which gives their Python
representation rather than the text.
---
 javatools/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 2480971..2bea145 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -800,7 +800,7 @@ class JavaClassInfo(object):
         """  # noqa
 
         buff = self.get_attribute("SourceDebugExtension")
-        return (buff and str(buff)) or None
+        return (buff and _decode_modified_utf8(bytes(buff))) or None
 
 
     def get_innerclasses(self):
-- 
2.43.0


From 6636c53211cb0a5fedade974fb5702f8bdf1a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 28/74] fix: decode the AnnotationDefault attribute as an
 element value

The attribute holds an element value: a tag followed by its data. It was
read as a constant pool index made of the tag and half of the data.
---
 javatools/__init__.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 2bea145..fa63fcb 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1361,8 +1361,9 @@ class JavaMemberInfo(object):
 
     def get_annotationdefault(self):
         """
-        The AnnotationDefault attribute, only present upon fields in an
-        annotaion.
+        The AnnotationDefault attribute, only present upon methods in an
+        annotation. A tuple of tag and data, as for the values of a
+        JavaAnnotation
 
         reference: http://docs.oracle.com/javase/specs/jvms/se7/html/jvms-4.html#jvms-4.7.20
         """  # noqa
@@ -1372,9 +1373,7 @@ class JavaMemberInfo(object):
             return None
 
         with unpack(buff) as up:
-            (ti, ) = up.unpack_struct(_H)
-
-        return ti
+            return _unpack_annotation_val(up, self.cpool)
 
 
     def deref_annotationdefault(self):
@@ -1382,11 +1381,17 @@ class JavaMemberInfo(object):
         dereferences the AnnotationDefault attribute
         """
 
-        index = self.get_annotationdefault()
-        if index is None:
+        val = self.get_annotationdefault()
+        if val is None:
             return None
+
+        tag, data = val
+        if tag in 'BCDFIJSZsc':
+            return self.deref_const(data)
+        elif tag == 'e':
+            return tuple(self.deref_const(ref) for ref in data)
         else:
-            return self.deref_const(index)
+            return data
 
 
     def get_code(self):
-- 
2.43.0


From 218fb77d34f1d851605d662320943519aa0a8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:28 +0000
Subject: [PATCH 29/74] fix: verify manifest digests over the bytes of the
 manifest as they are

---
 javatools/manifest.py | 71 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 68 insertions(+), 3 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 09b1f30..77f9ea2 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -330,6 +330,9 @@ class Manifest(ManifestSection):
         self.sub_sections = OrderedDict([])
         self.linesep = linesep
 
+        # the bytes this manifest was parsed from, if any
+        self._parsed_data = None
+
 
     def create_section(self, name, overwrite=True):
         """
@@ -381,6 +384,7 @@ class Manifest(ManifestSection):
         """
 
         self.linesep = detect_linesep(data)
+        self._parsed_data = bytes(data)
 
         # the first section is the main one for the manifest. It's
         # also where we will check for our newline separator
@@ -438,6 +442,43 @@ class Manifest(ManifestSection):
         return stream.getvalue()
 
 
+    def get_digest_data(self):
+        """
+        The bytes which the digests of a signature file are computed over:
+        those this manifest was parsed from, or, if it was not parsed
+        or has been modified since, those it would be stored as. Other
+        implementations may order the sections and fold long lines
+        differently than this one.
+
+        :return: the whole manifest, its main section, and a dict of
+          its sub-sections by name
+        """
+
+        data = self._parsed_data
+        if data is not None:
+            parsed = self.__class__()
+            parsed.parse(data)
+            if parsed != self or parsed.sub_sections != self.sub_sections:
+                data = None
+
+        if data is None:
+            return (self.get_data(), self.get_main_section(),
+                    dict((name, sect.get_data(self.linesep or os.linesep))
+                         for name, sect in self.sub_sections.items()))
+
+        raw_sections = split_sections(data)
+        raw_main = next(raw_sections, b"")
+
+        subs = dict()
+        for raw in raw_sections:
+            sect = ManifestSection(None)
+            sect.load(next(parse_sections(raw)))
+            name = sect.primary()
+            subs[name] = subs.get(name, b"") + raw
+
+        return data, raw_main, subs
+
+
     def verify_jar_checksums(self, jar_file, strict=True):
         """
         Verify checksums, present in the manifest, against the JAR content.
@@ -564,9 +605,10 @@ class SignatureManifest(Manifest):
         # We allow mismatching digests and require just one to be correct.
         # We see no security risk: it is the signer of the .SF file
         # who shall check, what is being signed.
+        whole_mf_data = manifest.get_digest_data()[0]
         for java_digest in self.keys_with_suffix("-Digest-Manifest"):
             whole_mf_digest = b64_encoded_digest(
-                manifest.get_data(),
+                whole_mf_data,
                 _get_digest(java_digest))
 
             # It is enough for at least one digest to be correct
@@ -582,10 +624,11 @@ class SignatureManifest(Manifest):
         # checksum for the main section matches,
         # plus checksum for every subsection matches.
 
+        main_data = manifest.get_digest_data()[1]
         keys = self.keys_with_suffix("-Digest-Manifest-Main-Attributes")
         for java_digest in keys:
             mf_main_attr_digest = b64_encoded_digest(
-                manifest.get_main_section(),
+                main_data,
                 _get_digest(java_digest))
 
             attr = java_digest + "-Digest-Manifest-Main-Attributes"
@@ -613,6 +656,7 @@ class SignatureManifest(Manifest):
         # fail?
 
         failures = []
+        sub_data = manifest.get_digest_data()[2]
 
         for s in manifest.sub_sections.values():
             sf_section = self.create_section(s.primary(), overwrite=False)
@@ -624,7 +668,7 @@ class SignatureManifest(Manifest):
 
             for java_digest in digests:
                 section_digest = b64_encoded_digest(
-                    s.get_data(manifest.linesep),
+                    sub_data[s.primary()],
                     _get_digest(java_digest))
 
                 if section_digest == sf_section.get(java_digest + "-Digest"):
@@ -714,6 +758,27 @@ def detect_linesep(data):
         return "\n"
 
 
+def split_sections(data):
+    """
+    yields the bytes of one section at a time, up to and including the
+    blank line ending it.
+
+    :type data: bytes
+    """
+
+    curr = b""
+
+    for line in data.splitlines(True):
+        if line.replace(b"\x00", b"").rstrip(b"\r\n"):
+            curr += line
+        elif curr:
+            yield curr + line
+            curr = b""
+
+    if curr:
+        yield curr
+
+
 def parse_sections(data):
     """
     yields one section at a time in the form
-- 
2.43.0


From 87ec20f86464dfc8597f9ec0ec8b3dda6b29c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:28 +0000
Subject: [PATCH 30/74] fix: keys_with_suffix removes the suffix only

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 77f9ea2..3e646b4 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -308,7 +308,7 @@ class ManifestSection(OrderedDict):
         """
         :return: list of keys ending with given :suffix:.
         """
-        return [k.rstrip(suffix) for k in self.keys() if k.endswith(suffix)]
+        return [k[:-len(suffix)] for k in self.keys() if k.endswith(suffix)]
 
 
 class Manifest(ManifestSection):
-- 
2.43.0


From a9271243d18cad51456da623732de340aff5123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 31/74] fix: verification of digests leaves the manifest as it
 is and honours strict=False

---
 javatools/manifest.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 3e646b4..537d701 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -492,11 +492,14 @@ class Manifest(ManifestSection):
             if file_skips_verification(filename):
                 continue
 
-            file_section = self.create_section(filename, overwrite=False)
+            file_section = self.sub_sections.get(filename)
+            if file_section is None:
+                file_section = ManifestSection(filename)
 
             digests = file_section.keys_with_suffix("-Digest")
-            if not digests and strict:
-                verify_failures.append(filename)
+            if not digests:
+                if strict:
+                    verify_failures.append(filename)
                 continue
 
             for java_digest in digests:
@@ -659,11 +662,14 @@ class SignatureManifest(Manifest):
         sub_data = manifest.get_digest_data()[2]
 
         for s in manifest.sub_sections.values():
-            sf_section = self.create_section(s.primary(), overwrite=False)
+            sf_section = self.sub_sections.get(s.primary())
+            if sf_section is None:
+                sf_section = ManifestSection(s.primary())
 
             digests = s.keys_with_suffix("-Digest")
-            if not digests and strict:
-                failures.append(s.primary())
+            if not digests:
+                if strict:
+                    failures.append(s.primary())
                 continue
 
             for java_digest in digests:
-- 
2.43.0


From a3ec3a9c6d158370a50dc08837f54ec4ff12ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:05 +0000
Subject: [PATCH 32/74] fix: check manifest sections by the digests the
 signature file holds

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 537d701..de6db70 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -666,7 +666,7 @@ class SignatureManifest(Manifest):
             if sf_section is None:
                 sf_section = ManifestSection(s.primary())
 
-            digests = s.keys_with_suffix("-Digest")
+            digests = sf_section.keys_with_suffix("-Digest")
             if not digests:
                 if strict:
                     failures.append(s.primary())
-- 
2.43.0


From f14702f60a8ffae2d85ba092a574742d234be795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:07 +0000
Subject: [PATCH 33/74] fix: verify every entry of a jar with several entries
 of one name

---
 javatools/manifest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index de6db70..81b1ffe 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -488,7 +488,8 @@ class Manifest(ManifestSection):
         verify_failures = []
 
         zip_file = ZipFile(jar_file)
-        for filename in zip_file.namelist():
+        for info in zip_file.infolist():
+            filename = info.filename
             if file_skips_verification(filename):
                 continue
 
@@ -505,7 +506,7 @@ class Manifest(ManifestSection):
             for java_digest in digests:
                 read_digest = file_section.get(java_digest + "-Digest")
                 calculated_digest = b64_encoded_digest(
-                    zip_file.read(filename),
+                    zip_file.read(info),
                     _get_digest(java_digest))
 
                 if calculated_digest == read_digest:
-- 
2.43.0


From d8340a7ca2f1c4332dee1fea80c8353d123d36cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 34/74] fix: skip digests by unsupported algorithms when
 verifying

---
 javatools/manifest.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 81b1ffe..42a8141 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -311,6 +311,15 @@ class ManifestSection(OrderedDict):
         return [k[:-len(suffix)] for k in self.keys() if k.endswith(suffix)]
 
 
+    def digests_with_suffix(self, suffix):
+        """
+        :return: list of the supported digest algorithms for which there
+        is a key ending with given :suffix:.
+        """
+        return [k for k in self.keys_with_suffix(suffix)
+                if k in JAVA_TO_OPENSSL_DIGESTS]
+
+
 class Manifest(ManifestSection):
     """
     Represents a Java Manifest as an ordered dictionary containing
@@ -497,7 +506,7 @@ class Manifest(ManifestSection):
             if file_section is None:
                 file_section = ManifestSection(filename)
 
-            digests = file_section.keys_with_suffix("-Digest")
+            digests = file_section.digests_with_suffix("-Digest")
             if not digests:
                 if strict:
                     verify_failures.append(filename)
@@ -610,7 +619,7 @@ class SignatureManifest(Manifest):
         # We see no security risk: it is the signer of the .SF file
         # who shall check, what is being signed.
         whole_mf_data = manifest.get_digest_data()[0]
-        for java_digest in self.keys_with_suffix("-Digest-Manifest"):
+        for java_digest in self.digests_with_suffix("-Digest-Manifest"):
             whole_mf_digest = b64_encoded_digest(
                 whole_mf_data,
                 _get_digest(java_digest))
@@ -629,7 +638,7 @@ class SignatureManifest(Manifest):
         # plus checksum for every subsection matches.
 
         main_data = manifest.get_digest_data()[1]
-        keys = self.keys_with_suffix("-Digest-Manifest-Main-Attributes")
+        keys = self.digests_with_suffix("-Digest-Manifest-Main-Attributes")
         for java_digest in keys:
             mf_main_attr_digest = b64_encoded_digest(
                 main_data,
@@ -667,7 +676,7 @@ class SignatureManifest(Manifest):
             if sf_section is None:
                 sf_section = ManifestSection(s.primary())
 
-            digests = sf_section.keys_with_suffix("-Digest")
+            digests = sf_section.digests_with_suffix("-Digest")
             if not digests:
                 if strict:
                     failures.append(s.primary())
-- 
2.43.0


From b6e0cfe63ead0cffb575d5a14603c30bcfb68994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:11 +0000
Subject: [PATCH 35/74] fix: digest the manifest in the order its sections are
 written

---
 javatools/manifest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 42a8141..98cab88 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -594,16 +594,16 @@ class SignatureManifest(Manifest):
         sect_key = java_algorithm + "-Digest"
 
         digest = _get_digest(java_algorithm)
-        accum = manifest.get_main_section()
-        self[main_key] = b64_encoded_digest(accum, digest)
+        self[main_key] = b64_encoded_digest(manifest.get_main_section(),
+                                            digest)
 
         for sub_section in manifest.sub_sections.values():
             sub_data = sub_section.get_data(linesep)
             sf_sect = self.create_section(sub_section.primary())
             sf_sect[sect_key] = b64_encoded_digest(sub_data, digest)
-            accum += sub_data
 
-        self[all_key] = b64_encoded_digest(accum, digest)
+        # the sections are not necessarily written in their own order
+        self[all_key] = b64_encoded_digest(manifest.get_data(), digest)
 
 
     def verify_manifest_main_checksum(self, manifest):
-- 
2.43.0


From 01111e4da98fa285ed89361983607f90b4c74e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:13 +0000
Subject: [PATCH 36/74] fix: signing keeps the other attributes of the entries
 in the manifest

---
 javatools/manifest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 98cab88..23fbe56 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -545,7 +545,10 @@ class Manifest(ManifestSection):
             for entry in jar.namelist():
                 if file_skips_verification(entry):
                     continue
-                section = self.create_section(entry)
+                section = self.create_section(entry, overwrite=False)
+                for key in section.keys_with_suffix("-Digest"):
+                    # digests of an earlier content of the entry
+                    del section[key + "-Digest"]
                 section[key_digest] = b64_encoded_digest(jar.read(entry),
                                                          digest)
 
-- 
2.43.0


From 344b063c764268d61a8b04bdf9bc3d5f2f0da2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:33 +0000
Subject: [PATCH 37/74] fix: list the files of a directory under their relative
 names

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 23fbe56..bdd3862 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -959,7 +959,8 @@ def directory_generator(dirname, trim=0):
 
     for dirpath, dirnames, filenames in walk(dirname):
         for fname in filenames:
-            yield join(dirpath, fname[trim:]), file_chunk(join(dirpath, fname))
+            fpath = join(dirpath, fname)
+            yield fpath[trim:], file_chunk(fpath)
 
 
 def multi_path_generator(pathnames):
-- 
2.43.0


From 957878ad6b01944f00a2d2dbfb74ba95e530ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:35 +0000
Subject: [PATCH 38/74] fix: manifest create -r processes the given path, not
 its characters

---
 javatools/manifest.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index bdd3862..0174c4c 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -1056,10 +1056,8 @@ def cli_create(argument_list):
     requested_digests = args.digest.split(",")
     use_digests = [_get_digest(digest) for digest in requested_digests]
 
-    if args.recursive:
-        entries = multi_path_generator(args.content)
-    else:
-        entries = single_path_generator(args.content)
+    # directories are always processed recursively
+    entries = single_path_generator(args.content)
 
     mf = Manifest()
 
-- 
2.43.0


From 5cb8f03517f9c36110a46a0c1b181599df888736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:37 +0000
Subject: [PATCH 39/74] fix: manifest create accepts several ignore options

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 0174c4c..5090c52 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -1063,7 +1063,8 @@ def cli_create(argument_list):
 
     ignores = ["META-INF/*"]
     if args.ignore:
-        ignores.extend(*args.ignore)
+        for patterns in args.ignore:
+            ignores.extend(patterns)
 
     for name, chunks in entries:
         # skip the stuff that we were told to ignore
-- 
2.43.0


From c77cbd6c10369333e7f56e5cf708d68296e3897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 40/74] fix: created manifests cover the entries in META-INF
 which are verified

---
 javatools/manifest.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 5090c52..e148d58 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -1061,12 +1061,16 @@ def cli_create(argument_list):
 
     mf = Manifest()
 
-    ignores = ["META-INF/*"]
+    ignores = []
     if args.ignore:
         for patterns in args.ignore:
             ignores.extend(patterns)
 
     for name, chunks in entries:
+        # the manifest itself and signature files are never listed
+        if file_skips_verification(name):
+            continue
+
         # skip the stuff that we were told to ignore
         if ignores and fnmatches(name, *ignores):
             continue
-- 
2.43.0


From b4d3897da0eed76a950cefd73f82f246ca14b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:41 +0000
Subject: [PATCH 41/74] fix: query manifest sections whose name holds a colon

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index e148d58..90d9ce3 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -1123,7 +1123,8 @@ def cli_query(args):
     mf.load_from_jar(args[0])
 
     for q in args[1:]:
-        s = q.split(':', 1)
+        # the names of sections may hold colons, keys cannot
+        s = q.rsplit(':', 1)
         if len(s) > 1:
             mfs = mf.sub_sections.get(s[0])
             if mfs:
-- 
2.43.0


From 4968b2a75c9d55086f5a1bd6b85d9f88816c84d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:06 +0000
Subject: [PATCH 42/74] fix: recognise the key usages which permit signing

---
 javatools/crypto.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/javatools/crypto.py b/javatools/crypto.py
index da896b9..03789ea 100644
--- a/javatools/crypto.py
+++ b/javatools/crypto.py
@@ -170,8 +170,9 @@ def ignore_missing_email_protection_eku_cb(ok, ctx):
     cert = ctx.get_current_cert()
     try:
         key_usage = cert.get_ext('keyUsage').get_value()
-        if 'digitalSignature' not in key_usage \
-                and 'nonRepudiation' not in key_usage:
+        # the value is in the form OpenSSL prints it
+        if 'Digital Signature' not in key_usage \
+                and 'Non Repudiation' not in key_usage:
             return ok
     except LookupError:
         pass
-- 
2.43.0


From 6052d8a972066c68423a4103bd5c9d2ab92ff56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:07 +0000
Subject: [PATCH 43/74] fix: a malformed signature block fails the verification
 of the block

---
 javatools/crypto.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/javatools/crypto.py b/javatools/crypto.py
index 03789ea..8f79548 100644
--- a/javatools/crypto.py
+++ b/javatools/crypto.py
@@ -200,7 +200,10 @@ def verify_signature_block(certificate_file, content, signature):
     """
 
     sig_bio = BIO.MemoryBuffer(signature)
-    pkcs7 = SMIME.PKCS7(m2.pkcs7_read_bio_der(sig_bio._ptr()), 1)
+    try:
+        pkcs7 = SMIME.PKCS7(m2.pkcs7_read_bio_der(sig_bio._ptr()), 1)
+    except SMIME.PKCS7_Error as message:
+        raise SignatureBlockVerificationError(message)
     signers_cert_stack = pkcs7.get0_signers(X509.X509_Stack())
     trusted_cert_store = X509.X509_Store()
     trusted_cert_store.set_verify_cb(ignore_missing_email_protection_eku_cb)
-- 
2.43.0


From 4351dec4e8c430bdc42556f57948819e0425fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:09 +0000
Subject: [PATCH 44/74] fix: pair signature files and blocks whatever their
 case

---
 javatools/jarutil.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 5507fc3..eeffdc1 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -128,9 +128,13 @@ def verify(certificate, jar_file, sf_name=None):
     # TODO: what about "SIG-*"?
     signature_extensions = ("RSA", "DSA", "EC")
     for extension in signature_extensions:
+        # the names of signature related files are case-insensitive
         candidate_filename = "META-INF/%s.%s" % (key_alias, extension)
-        if candidate_filename in file_list:
-            sig_block_filename = candidate_filename
+        candidates = [f for f in file_list
+                      if f.upper() == candidate_filename.upper()]
+        if candidates:
+            sig_block_filename = candidate_filename \
+                if candidate_filename in candidates else candidates[0]
             break
 
     if sig_block_filename is None:
-- 
2.43.0


From 03262fa918127d89e7e4d82e2045ce9eb792ef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:11 +0000
Subject: [PATCH 45/74] fix: report a missing or malformed manifest when
 verifying a jar

---
 javatools/jarutil.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index eeffdc1..3cebf8b 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -37,7 +37,9 @@ from .crypto import (
     CryptoDisabled, CannotFindKeyTypeError, SignatureBlockVerificationError,
     private_key_type, verify_signature_block,
 )
-from .manifest import file_matches_sigfile, Manifest, SignatureManifest
+from .manifest import (
+    file_matches_sigfile, MalformedManifest, Manifest, SignatureManifest,
+)
 
 
 __all__ = (
@@ -337,7 +339,8 @@ def cli_verify_jar_signature(argument_list):
         print("Verification of jar signatures requires M2Crypto")
         return -1
 
-    except VerificationError as error_message:
+    except (VerificationError, MissingManifestError,
+            MalformedManifest) as error_message:
         print(error_message)
         return 1
 
-- 
2.43.0


From ad4b8e6394e0cc171f789f1baa8f056152760938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:13 +0000
Subject: [PATCH 46/74] fix: sign with the default digest when none is given

---
 javatools/jarutil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 3cebf8b..ef70690 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -190,6 +190,9 @@ def sign(jar_file, cert_file, key_file, key_alias,
     :return None
     """
 
+    if digest is None:
+        digest = "SHA-256"
+
     mf = Manifest()
     mf.load_from_jar(jar_file)
     mf.add_jar_entries(jar_file, digest)
@@ -198,7 +201,7 @@ def sign(jar_file, cert_file, key_file, key_alias,
     # style of the manifest it'll be digesting.
     sf = SignatureManifest(linesep=mf.linesep)
 
-    sf_digest_algorithm = "SHA-256" if digest is None else digest
+    sf_digest_algorithm = digest
     sf.digest_manifest(mf, sf_digest_algorithm)
 
     sig_digest_algorithm = digest  # No point to make it different
-- 
2.43.0


From 73c6bbc28f41fb785b2a163bf98ced21687fb6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:00 +0000
Subject: [PATCH 47/74] fix: signing again by the same name replaces the
 earlier signature

---
 javatools/jarutil.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index ef70690..cd4fbc9 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -212,6 +212,11 @@ def sign(jar_file, cert_file, key_file, key_alias,
 
     # We might just add new entries to the original JAR, but jarsigner puts
     # all META-INF/ to the beginning of the archive. Let's do the same.
+    # An earlier signature by the same name is replaced.
+    replaced = ["META-INF/MANIFEST.MF"]
+    replaced.extend(("META-INF/%s.%s" % (key_alias, ext)).upper()
+                    for ext in ("SF", "RSA", "DSA", "EC"))
+
     with NamedTemporaryFile() as new_jar_file:
         new_jar = ZipFile(new_jar_file, "w", ZIP_DEFLATED)
         new_jar.writestr("META-INF/MANIFEST.MF", mf.get_data())
@@ -221,7 +226,7 @@ def sign(jar_file, cert_file, key_file, key_alias,
         jar = ZipFile(jar_file, "a")
         for entry in jar.namelist():
             # TODO: In Py2, namelist() can be of type unicode
-            if not entry.upper() == "META-INF/MANIFEST.MF":
+            if entry.upper() not in replaced:
                 new_jar.writestr(entry, jar.read(entry))
 
         new_jar.close()
-- 
2.43.0


From 9169bdc29547c31e44d88a16bc0a29556214990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:02 +0000
Subject: [PATCH 48/74] fix: a failure while writing the signed jar leaves the
 original intact

---
 javatools/jarutil.py | 47 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index cd4fbc9..6b5e590 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -29,8 +29,8 @@ import argparse
 import os
 import sys
 
-from shutil import copyfile
-from tempfile import NamedTemporaryFile
+from shutil import copyfile, copymode
+from tempfile import mkstemp, NamedTemporaryFile
 from zipfile import ZipFile, ZIP_DEFLATED
 
 from .crypto import (
@@ -223,7 +223,7 @@ def sign(jar_file, cert_file, key_file, key_alias,
         new_jar.writestr("META-INF/%s.SF" % key_alias, sf.get_data())
         new_jar.writestr("META-INF/%s.%s" % (key_alias, sig_block_extension),
                          sigdata)
-        jar = ZipFile(jar_file, "a")
+        jar = ZipFile(jar_file)
         for entry in jar.namelist():
             # TODO: In Py2, namelist() can be of type unicode
             if entry.upper() not in replaced:
@@ -231,7 +231,46 @@ def sign(jar_file, cert_file, key_file, key_alias,
 
         new_jar.close()
         new_jar_file.flush()
-        copyfile(new_jar_file.name, jar_file if output is None else output)
+        _replace_file(new_jar_file.name,
+                      jar_file if output is None else output)
+
+
+def _replace_file(source, target):
+    """
+    Copies source to target, in such a way that if it fails at any point
+    then the target is left as it was.
+    """
+
+    target = os.path.realpath(target)
+    existing = os.path.exists(target)
+
+    if existing:
+        # the target has to be writable in itself
+        open(target, "r+b").close()
+
+        if not os.path.isfile(target):
+            # eg. a device
+            copyfile(source, target)
+            return
+
+    fd, partial = mkstemp(dir=os.path.dirname(target))
+    try:
+        os.close(fd)
+        copyfile(source, partial)
+
+        if existing:
+            copymode(target, partial)
+        else:
+            umask = os.umask(0)
+            os.umask(umask)
+            os.chmod(partial, 0o666 & ~umask)
+
+        # replaces the target atomically
+        os.rename(partial, target)
+
+    except BaseException:
+        os.unlink(partial)
+        raise
 
 
 def create_jar(jar_file, entries):
-- 
2.43.0


From 09fdba1dd1277d533bd99fd3b8b049c6f3221457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:31 +0000
Subject: [PATCH 49/74] fix: jarutil create records the main class in the
 manifest

---
 javatools/jarutil.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 6b5e590..4d45f74 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -273,20 +273,26 @@ def _replace_file(source, target):
         raise
 
 
-def create_jar(jar_file, entries):
+def create_jar(jar_file, entries, main_class=None):
     """
     Create JAR from given entries.
     :param jar_file: filename of the created JAR
     :type jar_file: str
     :param entries: files to put into the JAR
     :type entries: list[str]
+    :param main_class: application entry point, recorded in the manifest
+    :type main_class: str
     :return: None
     """
 
+    manifest = Manifest()
+    if main_class:
+        manifest["Main-Class"] = main_class
+
     # 'jar' adds separate entries for directories, also for empty ones.
     with ZipFile(jar_file, "w") as jar:
         jar.writestr("META-INF/", "")
-        jar.writestr("META-INF/MANIFEST.MF", Manifest().get_data())
+        jar.writestr("META-INF/MANIFEST.MF", manifest.get_data())
         for entry in entries:
             jar.write(entry)
             if os.path.isdir(entry):
@@ -309,7 +315,7 @@ def cli_create_jar(argument_list):
                         help="Specify application entry point")
 
     args, entries = parser.parse_known_args(argument_list)
-    create_jar(args.jar_file, entries)
+    create_jar(args.jar_file, entries, args.main_class)
     return 0
 
 
-- 
2.43.0


From 15578ad5bcdbe97439fb4029cb947227df6dd3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:32 +0000
Subject: [PATCH 50/74] fix: a created jar has each name once, and not itself

---
 javatools/jarutil.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 4d45f74..c36403a 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -275,7 +275,8 @@ def _replace_file(source, target):
 
 def create_jar(jar_file, entries, main_class=None):
     """
-    Create JAR from given entries.
+    Create JAR from given entries. Each name is put into the JAR once,
+    and the JAR isn't put into itself.
     :param jar_file: filename of the created JAR
     :type jar_file: str
     :param entries: files to put into the JAR
@@ -293,12 +294,26 @@ def create_jar(jar_file, entries, main_class=None):
     with ZipFile(jar_file, "w") as jar:
         jar.writestr("META-INF/", "")
         jar.writestr("META-INF/MANIFEST.MF", manifest.get_data())
+        added = set(jar.namelist())
+
+        def add(path):
+            name = os.path.normpath(os.path.splitdrive(path)[1])
+            name = name.lstrip(os.sep).replace(os.sep, "/")
+            if os.path.isdir(path):
+                if name in ("", os.curdir):
+                    return
+                name += "/"
+
+            if name not in added and not os.path.samefile(path, jar_file):
+                jar.write(path, name)
+                added.add(name)
+
         for entry in entries:
-            jar.write(entry)
+            add(entry)
             if os.path.isdir(entry):
                 for root, dirs, files in os.walk(entry):
                     for filename in dirs + files:
-                        jar.write(os.path.join(root, filename))
+                        add(os.path.join(root, filename))
 
 
 def cli_create_jar(argument_list):
-- 
2.43.0


From 22baebdfd6d9d6a32649c644f6438600c6e36174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:01 +0000
Subject: [PATCH 51/74] fix: DistInfo finds the contents of a zipped
 distribution

---
 javatools/distinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/distinfo.py b/javatools/distinfo.py
index 843b47f..4778dc6 100644
--- a/javatools/distinfo.py
+++ b/javatools/distinfo.py
@@ -153,7 +153,7 @@ class DistInfo(object):
 
 
     def get_jarinfo(self, entry):
-        return JarInfo(join(self.base_path, entry))
+        return JarInfo(join(self._working_path(), entry))
 
 
     def get_classes(self):
@@ -167,7 +167,7 @@ class DistInfo(object):
 
 
     def get_classinfo(self, entry):
-        return unpack_classfile(join(self.base_path, entry))
+        return unpack_classfile(join(self._working_path(), entry))
 
 
     def get_contents(self):
-- 
2.43.0


From 460d196327ca1d677a9476e9998c4f6812503205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:10 +0000
Subject: [PATCH 52/74] fix: a half-unpacked distribution is neither kept nor
 used

---
 javatools/distinfo.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/javatools/distinfo.py b/javatools/distinfo.py
index 4778dc6..bb0517d 100644
--- a/javatools/distinfo.py
+++ b/javatools/distinfo.py
@@ -77,9 +77,15 @@ class DistInfo(object):
             return self.base_path
 
         else:
-            self.tmpdir = mkdtemp()
-            with open_zip(self.base_path, "r") as zf:
-                zf.extractall(path=self.tmpdir)
+            tmpdir = mkdtemp()
+            try:
+                with open_zip(self.base_path, "r") as zf:
+                    zf.extractall(path=tmpdir)
+            except BaseException:
+                rmtree(tmpdir, ignore_errors=True)
+                raise
+
+            self.tmpdir = tmpdir
             return self.tmpdir
 
 
-- 
2.43.0


From a69bc8702e7fd9aa81a64e35596191c06fe40ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:10 +0000
Subject: [PATCH 53/74] fix: DistInfo closes a jar it could not read

---
 javatools/distinfo.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/javatools/distinfo.py b/javatools/distinfo.py
index bb0517d..e519117 100644
--- a/javatools/distinfo.py
+++ b/javatools/distinfo.py
@@ -96,13 +96,12 @@ class DistInfo(object):
         p = set()
 
         for entry in self.get_jars():
-            ji = self.get_jarinfo(entry)
-            for sym, data in ji.get_requires().items():
-                req.setdefault(sym, []).append((REQ_BY_JAR, entry, data))
-            for sym, data in ji.get_provides().items():
-                prov.setdefault(sym, []).append((PROV_BY_JAR, entry, data))
-                p.add(sym)
-            ji.close()
+            with self.get_jarinfo(entry) as ji:
+                for sym, data in ji.get_requires().items():
+                    req.setdefault(sym, []).append((REQ_BY_JAR, entry, data))
+                for sym, data in ji.get_provides().items():
+                    prov.setdefault(sym, []).append((PROV_BY_JAR, entry, data))
+                    p.add(sym)
 
         for entry in self.get_classes():
             ci = self.get_classinfo(entry)
-- 
2.43.0


From 13517f9795ce50953e680df05ea7a54b6fb8e5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:13 +0000
Subject: [PATCH 54/74] fix: classinfo --json of classes with visible members

---
 javatools/classinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index ac8b84b..01127a1 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -327,7 +327,7 @@ def cli_simplify_fields(options, info):
     fields = list()
     for field in info.fields:
         if should_show(options, field):
-            fields.append(cli_simplify_field(options, field))
+            fields.append(cli_simplify_field(field))
     return fields
 
 
@@ -335,7 +335,7 @@ def cli_simplify_methods(options, info):
     methods = list()
     for method in info.methods:
         if should_show(options, method):
-            methods.append(cli_simplify_method(options, method))
+            methods.append(cli_simplify_method(method))
     return methods
 
 
-- 
2.43.0


From 96776b9d42e714d2af8a31a512621293f8588753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:13 +0000
Subject: [PATCH 55/74] fix: classinfo printed the minor version as the major
 and vice versa

---
 javatools/classinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index 01127a1..62327b3 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -244,8 +244,8 @@ def cli_print_classinfo(options, info):
         if info.get_enclosingmethod():
             print("  EnclosingMethod:", info.get_enclosingmethod())
         major, minor = info.get_version()
-        print("  minor version:", major)
-        print("  major version:", minor)
+        print("  minor version:", minor)
+        print("  major version:", major)
         platform = platform_from_version(*info.version) or "unknown"
         print("  Platform:", platform)
 
-- 
2.43.0


From 8eaa91df03fae808c356a38825996c64eb110f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:13 +0000
Subject: [PATCH 56/74] fix: classinfo numbered every annotation 0

---
 javatools/classinfo.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index 62327b3..3ff2ca6 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -83,8 +83,7 @@ def print_field(options, field):
     if options.verbose:
         if field.get_annotations():
             print("  RuntimeVisibleAnnotations:")
-            index = 0
-            for anno in field.get_annotations():
+            for index, anno in enumerate(field.get_annotations()):
                 print("  %i: %s" % (index, anno.pretty_annotation()))
 
         cv = field.get_constantvalue()
@@ -106,8 +105,7 @@ def print_method(options, method):
 
     if method.get_annotations():
         print("  RuntimeVisibleAnnotations:")
-        index = 0
-        for anno in method.get_annotations():
+        for index, anno in enumerate(method.get_annotations()):
             print("  %i: %s" % (index, anno.pretty_annotation()))
 
     code = method.get_code()
@@ -237,8 +235,7 @@ def cli_print_classinfo(options, info):
 
         if info.get_annotations():
             print("  RuntimeVisibleAnnotations:")
-            index = 0
-            for anno in info.get_annotations():
+            for index, anno in enumerate(info.get_annotations()):
                 print("  %i: %s" % (index, anno.pretty_annotation()))
 
         if info.get_enclosingmethod():
-- 
2.43.0


From 3f62727a13264f29d3cb1f6cb4241218774ae53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:13 +0000
Subject: [PATCH 57/74] fix: classinfo printed an Exceptions header for methods
 without any

---
 javatools/classinfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index 3ff2ca6..1668fd6 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -187,7 +187,7 @@ def print_method(options, method):
                 print("   %s" % "\t".join(line))
 
     if options.verbose:
-        exps = method.pretty_exceptions()
+        exps = tuple(method.pretty_exceptions())
         if exps:
             print("  Exceptions:")
             for e in exps:
-- 
2.43.0


From 46bad96fc4c2dec7d2ebf16515214ca15ecdf159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:13 +0000
Subject: [PATCH 58/74] fix: jarinfo --zip of a jar without content

---
 javatools/jarinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/jarinfo.py b/javatools/jarinfo.py
index 3bb0a12..773be6c 100644
--- a/javatools/jarinfo.py
+++ b/javatools/jarinfo.py
@@ -200,7 +200,7 @@ def cli_jar_zip_info(jarinfo):
     zipfile = jarinfo.get_zipfile()
 
     files, dirs, comp, uncomp = zip_entry_rollup(zipfile)
-    prcnt = (float(comp) / float(uncomp)) * 100
+    prcnt = (float(comp) / float(uncomp)) * 100 if uncomp else 0.0
 
     print("Contains %i files, %i directories" % (files, dirs))
     print("Uncompressed size is %i" % uncomp)
@@ -263,7 +263,7 @@ def cli_jarinfo_json(options, info):
     if options.zip:
         zipfile = info.get_zipfile()
         filec, dirc, totalc, totalu = zip_entry_rollup(zipfile)
-        prcnt = (float(totalc) / float(totalu)) * 100
+        prcnt = (float(totalc) / float(totalu)) * 100 if totalu else 0.0
 
         data["zip.type"] = zipfile.__class__.__name__
         data["zip.file_count"] = filec
-- 
2.43.0


From 251b0f0eaa0bf599657f71dd956c5cb7e251a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:13 +0000
Subject: [PATCH 59/74] fix: jarinfo --manifest of exploded jars, and of jars
 without a manifest

---
 javatools/jarinfo.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/javatools/jarinfo.py b/javatools/jarinfo.py
index 773be6c..d55598c 100644
--- a/javatools/jarinfo.py
+++ b/javatools/jarinfo.py
@@ -164,8 +164,16 @@ class JarInfo(object):
 
 
     def get_manifest(self):
+        # Can't be imported at top level:
+        from .jarutil import MissingManifestError
+
+        jar = self.get_zipfile()
+        if "META-INF/MANIFEST.MF" not in jar.namelist():
+            raise MissingManifestError(
+                "META-INF/MANIFEST.MF not found in %s" % self.filename)
+
         mf = Manifest()
-        mf.load_from_jar(self.filename)
+        mf.parse(jar.read("META-INF/MANIFEST.MF"))
         return mf
 
 
@@ -176,9 +184,12 @@ class JarInfo(object):
 
 
 def cli_jar_manifest_info(jarinfo):
-    mf = jarinfo.get_manifest()
+    # Can't be imported at top level:
+    from .jarutil import MissingManifestError
 
-    if not mf:
+    try:
+        mf = jarinfo.get_manifest()
+    except MissingManifestError:
         print("Manifest not present.")
         print()
         return
-- 
2.43.0


From 687840e1095770d3e8f2c529f0926f9917e2bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:03 +0000
Subject: [PATCH 60/74] fix: line numbers are looked up in tables of any order

---
 javatools/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index fa63fcb..03ad065 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1756,15 +1756,15 @@ class JavaCodeInfo(object):
         returns the line number given a code offset
         """
 
-        prev_line = 0
+        prev_offset = prev_line = 0
 
+        # the entries of the table may be in any order
         for (offset, line) in self.get_linenumbertable():
-            if offset < code_offset:
-                prev_line = line
-            elif offset == code_offset:
+            if offset == code_offset:
                 return line
-            else:
-                return prev_line
+            elif prev_offset <= offset < code_offset:
+                prev_offset = offset
+                prev_line = line
 
         return prev_line
 
-- 
2.43.0


From d02edad2efdfc90192e18f41fece7cc621b45bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:00 +0000
Subject: [PATCH 61/74] fix: sub-reports stay inside of the report directory

---
 javatools/report.py | 50 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/javatools/report.py b/javatools/report.py
index 195bb8d..00ac723 100644
--- a/javatools/report.py
+++ b/javatools/report.py
@@ -24,6 +24,7 @@ Classes for representing changes as formatted text.
 from __future__ import print_function
 
 
+import os
 import sys
 
 from abc import ABCMeta, abstractmethod
@@ -32,8 +33,9 @@ from Cheetah.DummyTransaction import DummyTransaction
 from functools import partial
 from json import dump, JSONEncoder
 from os.path import exists, join, relpath
-from six import add_metaclass
+from six import PY2, add_metaclass
 from six.moves import range
+from six.moves.urllib.parse import quote
 
 from .dirutils import copydir, makedirsp
 
@@ -41,6 +43,11 @@ from .dirutils import copydir, makedirsp
 _BUFFERING = 2 ** 16
 
 
+# HTML reports declare themselves as UTF-8, and the others are ASCII
+_ENCODING = {} if PY2 else {"encoding": "utf-8",
+                            "errors": "xmlcharrefreplace"}
+
+
 __all__ = (
     "Reporter", "ReportFormat",
     "quick_report", "add_general_report_optgroup",
@@ -49,6 +56,39 @@ __all__ = (
     "CheetahReportFormat", "add_html_report_optgroup", )
 
 
+# what the files of the sub-reports of a directory are named after
+_REPORT_NAMES = ("DistReport.", "JarReport.", "JavaClassReport.")
+
+
+def entry_subpath(entry):
+    """
+    the path, relative to the directory of the report mentioning it, of
+    the directory for the sub-report on the given entry. Always strictly
+    beneath the directory it is relative to, never the name of one of
+    the report files, and different for different entries.
+    """
+
+    def escape(part):
+        part = part.replace("%", "%25")
+        if part in (".", "..") or part.startswith(_REPORT_NAMES):
+            part = part.replace(".", "%2E")
+        return part or "%"
+
+    return "/".join(escape(part) for part in entry.split("/"))
+
+
+def path_uri(path):
+    """
+    the relative URI reference for a relative path
+    """
+
+    if not isinstance(path, bytes):
+        encode = getattr(os, "fsencode", None)
+        path = encode(path) if encode else path.encode("utf-8")
+
+    return quote(path)
+
+
 class Reporter(object):
     """
     Collects multiple report formats for use in presenting a change
@@ -109,7 +149,7 @@ class Reporter(object):
         the same output formats
         """
 
-        newbase = join(self.basedir, subpath)
+        newbase = join(self.basedir, entry_subpath(subpath))
         r = Reporter(newbase, entry, self.options)
 
         crumbs = list(self.breadcrumbs)
@@ -214,7 +254,7 @@ class ReportFormat(object):
             makedirsp(basedir)
 
             fn = join(basedir, entry + self.extension)
-            with open(fn, "wt", _BUFFERING) as out:
+            with open(fn, "wt", _BUFFERING, **_ENCODING) as out:
                 self.run_impl(change, entry, out)
             return fn
 
@@ -418,7 +458,7 @@ class CheetahReportFormat(ReportFormat):
             return uri
 
         elif exists(uri):
-            return relpath(uri, self.basedir)
+            return path_uri(relpath(uri, self.basedir))
 
         else:
             return uri
@@ -511,7 +551,7 @@ class CheetahReportFormat(ReportFormat):
         template.change = change
         template.entry = entry
         template.options = options
-        template.breadcrumbs = self.breadcrumbs
+        template.breadcrumbs = [(path_uri(p), e) for p, e in self.breadcrumbs]
         template.javascripts = javascripts
         template.stylesheets = stylesheets
 
-- 
2.43.0


From 5c550d13235bde98be05b4556a54b3a005ed62fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:00 +0000
Subject: [PATCH 62/74] fix: links to sub-reports resolve

---
 javatools/cheetah/change_SquashedChange.tmpl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/cheetah/change_SquashedChange.tmpl b/javatools/cheetah/change_SquashedChange.tmpl
index 216885e..b210bcb 100644
--- a/javatools/cheetah/change_SquashedChange.tmpl
+++ b/javatools/cheetah/change_SquashedChange.tmpl
@@ -1,5 +1,6 @@
 #extends javatools.cheetah.change_Change
 #from javatools.cheetah import xml_entity_escape as escape
+#from javatools.report import entry_subpath, path_uri
 #implements respond
 
 
@@ -27,7 +28,7 @@ cl = " ".join(cl)
 <%
 change = getattr(self, "change")
 oc = change.origclass
-uri = "%s/%s.html" % (change.entry, oc.report_name)
+uri = path_uri("%s/%s.html" % (entry_subpath(change.entry), oc.report_name))
 %>
 $escape($change.entry)
 <span class="moreinfo">[<a href="<%= uri %>">details</a>]</span>
-- 
2.43.0


From 9a4c05acdae0af3e2ba3d1a742e1c80ca5a3b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:01 +0000
Subject: [PATCH 63/74] fix: markup of the HTML reports is well formed

---
 javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl | 2 +-
 javatools/cheetah/classdiff_FieldChange.tmpl             | 4 ++--
 javatools/cheetah/classdiff_MethodAdded.tmpl             | 2 +-
 javatools/cheetah/classdiff_MethodChange.tmpl            | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl b/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
index 480fb0f..acd0cb3 100644
--- a/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
+++ b/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
@@ -67,8 +67,8 @@ row_class = (" is_changed")[(lt, lv) == (rt, rv)]
 #else
 <td class="const-type is_changed"><%= rt or "" %></td>
 <td class="const-value is_changed"><%= escape(str(rv or "")) %></td>
-</tr>
 #end if
+</tr>
 #end for
 
 </table>
diff --git a/javatools/cheetah/classdiff_FieldChange.tmpl b/javatools/cheetah/classdiff_FieldChange.tmpl
index e48d100..d9fe146 100644
--- a/javatools/cheetah/classdiff_FieldChange.tmpl
+++ b/javatools/cheetah/classdiff_FieldChange.tmpl
@@ -65,7 +65,7 @@ $render_change(data.pop("FieldInvisibleAnnotationsChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= escape(subch.pretty_ldata()) %>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -85,7 +85,7 @@ $render_change(data.pop("FieldInvisibleAnnotationsChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %>
+<td><%= subch.pretty_ldata() %></td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/classdiff_MethodAdded.tmpl b/javatools/cheetah/classdiff_MethodAdded.tmpl
index 9cbd415..ad72d75 100644
--- a/javatools/cheetah/classdiff_MethodAdded.tmpl
+++ b/javatools/cheetah/classdiff_MethodAdded.tmpl
@@ -12,7 +12,7 @@ b = ", ".join(info.pretty_arg_types())
 c = info.pretty_type()
 %>
 <h3><%= escape("%s(%s):%s" % (a, b, c)) %></h3>
-<div class="description">Method Added</div
+<div class="description">Method Added</div>
 #end block
 
 
diff --git a/javatools/cheetah/classdiff_MethodChange.tmpl b/javatools/cheetah/classdiff_MethodChange.tmpl
index fb17872..8de6a91 100644
--- a/javatools/cheetah/classdiff_MethodChange.tmpl
+++ b/javatools/cheetah/classdiff_MethodChange.tmpl
@@ -70,7 +70,7 @@ $render_change(data.pop("MethodCodeChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= escape(subch.pretty_ldata()) %>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -90,7 +90,7 @@ $render_change(data.pop("MethodCodeChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %>
+<td><%= subch.pretty_ldata() %></td>
 </tr>
 #end if
 #end def
-- 
2.43.0


From caa5b414ce4f51bc87f687eed24f41756a57f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:10 +0000
Subject: [PATCH 64/74] fix: values in HTML reports are escaped

---
 .../cheetah/classdiff_AnnotationsChange.tmpl   |  8 ++++----
 .../cheetah/classdiff_ClassInfoChange.tmpl     | 18 +++++++++---------
 javatools/cheetah/classdiff_FieldChange.tmpl   |  6 +++---
 javatools/cheetah/classdiff_MethodChange.tmpl  | 18 +++++++++---------
 4 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/javatools/cheetah/classdiff_AnnotationsChange.tmpl b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
index d969e17..7b7c916 100644
--- a/javatools/cheetah/classdiff_AnnotationsChange.tmpl
+++ b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
@@ -32,7 +32,7 @@ $render_annotations($change.get_ldata())
 #for index in range(0, len(annos))
 <tr>
 <td class="const-index"><%= index %></td>
-<td class="const-value"><%= annos[index].pretty_annotation() %></td>
+<td class="const-value"><%= escape(annos[index].pretty_annotation()) %></td>
 </tr>
 #end for
 </table>
@@ -56,14 +56,14 @@ $render_annotations($change.get_ldata())
 <tr>
 <td class="const-index"><%= index %></td>
 <td class="const-value">
-<%= (la and la.pretty_annotation()) or "" %></td>
+<%= escape((la and la.pretty_annotation()) or "") %></td>
 
 #if (la == ra)
 <td class="const-value is_unchanged">
-<%= (ra and ra.pretty_annotation()) or "" %></td>
+<%= escape((ra and ra.pretty_annotation()) or "") %></td>
 #else
 <td class="const-value is_changed">
-<%= (ra and ra.pretty_annotation()) or "" %></td>
+<%= escape((ra and ra.pretty_annotation()) or "") %></td>
 #end if
 </tr>
 <% index += 1 %>
diff --git a/javatools/cheetah/classdiff_ClassInfoChange.tmpl b/javatools/cheetah/classdiff_ClassInfoChange.tmpl
index 94329f4..f477a4f 100644
--- a/javatools/cheetah/classdiff_ClassInfoChange.tmpl
+++ b/javatools/cheetah/classdiff_ClassInfoChange.tmpl
@@ -39,15 +39,15 @@ $sub_deprecation(data["ClassDeprecationChange"][0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 <tr>
-<td><%= subch.pretty_rdata() %></td>
+<td><%= escape(subch.pretty_rdata()) %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -83,15 +83,15 @@ $sub_deprecation(data["ClassDeprecationChange"][0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 <tr>
-<td class="is_changed"><%= subch.pretty_rdata() %></td>
+<td class="is_changed"><%= escape(subch.pretty_rdata()) %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -103,16 +103,16 @@ $sub_deprecation(data["ClassDeprecationChange"][0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= ", ".join(subch.pretty_ldata()) or "(None)" %></td>
+<td><%= escape(", ".join(subch.pretty_ldata())) or "(None)" %></td>
 </tr>
 <tr>
 <td class="is_changed">
-<%= ", ".join(subch.pretty_rdata()) or "(None)" %></td>
+<%= escape(", ".join(subch.pretty_rdata())) or "(None)" %></td>
 </tr>
 #elif subch.get_ldata()
 <tr>
 <th>$label</th>
-<td><%= ", ".join(subch.pretty_ldata()) %></td>
+<td><%= escape(", ".join(subch.pretty_ldata())) %></td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/classdiff_FieldChange.tmpl b/javatools/cheetah/classdiff_FieldChange.tmpl
index d9fe146..1b3a888 100644
--- a/javatools/cheetah/classdiff_FieldChange.tmpl
+++ b/javatools/cheetah/classdiff_FieldChange.tmpl
@@ -77,15 +77,15 @@ $render_change(data.pop("FieldInvisibleAnnotationsChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 <tr>
-<td><%= subch.pretty_rdata() %></td>
+<td><%= escape(subch.pretty_rdata()) %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/classdiff_MethodChange.tmpl b/javatools/cheetah/classdiff_MethodChange.tmpl
index 8de6a91..8a21a84 100644
--- a/javatools/cheetah/classdiff_MethodChange.tmpl
+++ b/javatools/cheetah/classdiff_MethodChange.tmpl
@@ -82,15 +82,15 @@ $render_change(data.pop("MethodCodeChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 <tr>
-<td><%= subch.pretty_rdata() %></td>
+<td><%= escape(subch.pretty_rdata()) %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -102,15 +102,15 @@ $render_change(data.pop("MethodCodeChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 <tr>
-<td>(<%= ", ".join(subch.pretty_rdata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_rdata())) %>)</td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 #end if
 #end def
@@ -167,15 +167,15 @@ $render_change(data.pop("MethodCodeChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 <tr>
-<td class="is_changed">(<%= ", ".join(subch.pretty_rdata()) %>)</td>
+<td class="is_changed">(<%= escape(", ".join(subch.pretty_rdata())) %>)</td>
 </tr>
 #elif subch.get_ldata()
 <tr>
 <th>$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 #end if
 #end def
-- 
2.43.0


From c5adc606470bca1de2fb6d54dc8d82c2ac15fb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:24 +0000
Subject: [PATCH 65/74] fix: merged constant pools mention each index once

---
 javatools/classdiff.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 271d041..b8fadc1 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -919,19 +919,20 @@ def pretty_merge_constants(left_cpool, right_cpool):
     lsize = len(left_cpool.consts)
     rsize = len(right_cpool.consts)
 
-    index = 1
-    for index in range(1, min(lsize, rsize)):
+    common = max(1, min(lsize, rsize))
+
+    for index in range(1, common):
         lt, lv = left_cpool.pretty_const(index)
         rt, rv = right_cpool.pretty_const(index)
         yield (index, lt, lv, rt, rv)
 
     if lsize > rsize:
-        for index in range(index, lsize):
+        for index in range(common, lsize):
             lt, lv = left_cpool.pretty_const(index)
             yield (index, lt, lv, None, None)
 
     elif rsize > lsize:
-        for index in range(index, rsize):
+        for index in range(common, rsize):
             rt, rv = right_cpool.pretty_const(index)
             yield (index, None, None, rt, rv)
 
-- 
2.43.0


From b54a62507bba8e3d43c6e3c1ad33a894a7b2f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:32 +0000
Subject: [PATCH 66/74] fix: JSON reports hold no NaN or Infinity

---
 javatools/classdiff.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index b8fadc1..07ff1e5 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -29,6 +29,7 @@ import sys
 
 from abc import ABCMeta
 from argparse import ArgumentParser, Action
+from math import isinf, isnan
 from six import add_metaclass
 
 from . import unpack_classfile
@@ -439,6 +440,9 @@ class CodeConstantsChange(GenericChange):
             if offset in self.offsets and has_const_arg(code):
                 name = get_opname_by_code(code)
                 data = c.cpool.pretty_deref_const(args[0])
+                if isinstance(data, float) and (isnan(data) or isinf(data)):
+                    # JSON has no numbers for these
+                    data = str(data)
                 pr.append((offset, name, data))
 
         return pr
-- 
2.43.0


From 6436d9e1b64d20a02d06e934c86699b3d4998f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:41 +0000
Subject: [PATCH 67/74] fix: HTML reports show constants which are zero

---
 javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl b/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
index acd0cb3..e169fe5 100644
--- a/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
+++ b/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
@@ -60,13 +60,13 @@ row_class = (" is_changed")[(lt, lv) == (rt, rv)]
 <tr>
 <td class="const-index"><%= index %></td>
 <td class="const-type"><%= lt or "" %></td>
-<td class="const-value"><%= escape(str(lv or "")) %></td>
+<td class="const-value"><%= escape("" if lv is None else str(lv)) %></td>
 #if (lt, lv) == (rt, rv)
 <td class="const-type empty"></td>
 <td class="const-value empty"></td>
 #else
 <td class="const-type is_changed"><%= rt or "" %></td>
-<td class="const-value is_changed"><%= escape(str(rv or "")) %></td>
+<td class="const-value is_changed"><%= escape("" if rv is None else str(rv)) %></td>
 #end if
 </tr>
 #end for
-- 
2.43.0


From e6a5d45f54a37850d14655c4d50e7bfc0c0e7a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:05 +0000
Subject: [PATCH 68/74] fix: HTML reports show annotations without elements

---
 javatools/cheetah/classdiff_AnnotationsChange.tmpl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/cheetah/classdiff_AnnotationsChange.tmpl b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
index 7b7c916..dfa329c 100644
--- a/javatools/cheetah/classdiff_AnnotationsChange.tmpl
+++ b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
@@ -56,14 +56,14 @@ $render_annotations($change.get_ldata())
 <tr>
 <td class="const-index"><%= index %></td>
 <td class="const-value">
-<%= escape((la and la.pretty_annotation()) or "") %></td>
+<%= "" if la is None else escape(la.pretty_annotation()) %></td>
 
 #if (la == ra)
 <td class="const-value is_unchanged">
-<%= escape((ra and ra.pretty_annotation()) or "") %></td>
+<%= "" if ra is None else escape(ra.pretty_annotation()) %></td>
 #else
 <td class="const-value is_changed">
-<%= escape((ra and ra.pretty_annotation()) or "") %></td>
+<%= "" if ra is None else escape(ra.pretty_annotation()) %></td>
 #end if
 </tr>
 <% index += 1 %>
-- 
2.43.0


From f1037bc82d4b50b813a4b5856c5b98490e6b59d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:05 +0000
Subject: [PATCH 69/74] fix: links to copied style sheets resolve

---
 javatools/report.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/javatools/report.py b/javatools/report.py
index 00ac723..4433d88 100644
--- a/javatools/report.py
+++ b/javatools/report.py
@@ -32,7 +32,7 @@ from argparse import Action
 from Cheetah.DummyTransaction import DummyTransaction
 from functools import partial
 from json import dump, JSONEncoder
-from os.path import exists, join, relpath
+from os.path import exists, isabs, join, relpath
 from six import PY2, add_metaclass
 from six.moves import range
 from six.moves.urllib.parse import quote
@@ -497,6 +497,8 @@ class CheetahReportFormat(ReportFormat):
 
         # copy the contents of our data source to datadir
         for _orig, copied in copydir(datasrc, datadir):
+            if isabs(copied):
+                copied = path_uri(copied)
             if copied.endswith(".js"):
                 javascripts.append(copied)
             elif copied.endswith(".css"):
-- 
2.43.0


From fcf8b0409e4b666feb1d5e7e0dd853bb1619732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:06 +0000
Subject: [PATCH 70/74] fix: code of a line returned to was lost in HTML
 reports

---
 javatools/classdiff.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 07ff1e5..c020dba 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -951,22 +951,19 @@ def merge_code(left_code, right_code):
 
     data = dict()
 
-    code_lines = (left_code and left_code.iter_code_by_lines()) or tuple()
-    for abs_line, rel_line, dis in code_lines:
-        assert rel_line is not None
+    for side, code in enumerate((left_code, right_code)):
+        code_lines = (code and code.iter_code_by_lines()) or tuple()
 
-        data[rel_line] = [(abs_line, dis), None]
+        for abs_line, rel_line, dis in code_lines:
+            assert rel_line is not None
 
-    code_lines = (right_code and right_code.iter_code_by_lines()) or tuple()
-    for abs_line, rel_line, dis in code_lines:
-        assert rel_line is not None
+            found = data.setdefault(rel_line, [None, None])
 
-        found = data.get(rel_line, None)
-        if found is None:
-            found = [None, (abs_line, dis)]
-            data[rel_line] = found
-        else:
-            found[1] = (abs_line, dis)
+            # code may return to a line it has left
+            if found[side] is not None:
+                dis = list(found[side][1]) + list(dis)
+
+            found[side] = (abs_line, dis)
 
     return data
 
-- 
2.43.0


From 56bd68c2826b2674652ee3b6fadf2f925e2b720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:10 +0000
Subject: [PATCH 71/74] fix: entries and sections of a comparison came in
 another order each run

---
 javatools/manifest.py | 6 +++---
 javatools/ziputils.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 90d9ce3..26caf59 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -218,13 +218,13 @@ class ManifestChange(SuperChange):
         l_sections = set(lm.sub_sections.keys())
         r_sections = set(rm.sub_sections.keys())
 
-        for s in l_sections.intersection(r_sections):
+        for s in sorted(l_sections.intersection(r_sections)):
             yield ManifestSectionChange(lm.sub_sections[s], rm.sub_sections[s])
 
-        for s in l_sections.difference(r_sections):
+        for s in sorted(l_sections.difference(r_sections)):
             yield ManifestSectionRemoved(lm.sub_sections[s], None)
 
-        for s in r_sections.difference(l_sections):
+        for s in sorted(r_sections.difference(l_sections)):
             yield ManifestSectionAdded(None, rm.sub_sections[s])
 
 
diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 25eea4e..8a208aa 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -67,7 +67,7 @@ def compare_zips(left, right):
     ll = set(left.namelist())
     rl = set(right.namelist())
 
-    for f in ll:
+    for f in sorted(ll):
         if f in rl:
             rl.remove(f)
 
@@ -84,7 +84,7 @@ def compare_zips(left, right):
         else:
             yield LEFT, f
 
-    for f in rl:
+    for f in sorted(rl):
         yield RIGHT, f
 
 
-- 
2.43.0


From 4a5f69b15f0c5e3fee9e6f33bf4c2fe92f8ba13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:10 +0000
Subject: [PATCH 72/74] fix: a class's provides and requires came in another
 order each run

---
 javatools/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 03ad065..5ce18aa 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1025,7 +1025,8 @@ class JavaClassInfo(object):
                 self._provides = set(self._get_provides(False))
             provides = self._provides
 
-        return [prov for prov in provides if not fnmatches(prov, *ignored)]
+        return [prov for prov in sorted(provides)
+                if not fnmatches(prov, *ignored)]
 
 
     def get_requires(self, ignored=tuple()):
@@ -1038,7 +1039,8 @@ class JavaClassInfo(object):
             self._requires = set(self._get_requires())
 
         requires = self._requires
-        return [req for req in requires if not fnmatches(req, *ignored)]
+        return [req for req in sorted(requires)
+                if not fnmatches(req, *ignored)]
 
 
 class JavaMemberInfo(object):
-- 
2.43.0


From f33edea72758caa4594a78015b40bdde19527e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:10 +0000
Subject: [PATCH 73/74] fix: files of a distribution were listed in the order
 they lie on disk

---
 javatools/dirutils.py | 5 +++--
 javatools/distinfo.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index 4a30a1e..bb4e16d 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -103,8 +103,9 @@ def _gen_from_path(event, path, base):
     """
 
     if isdir(path):
-        for r, _ds, fs in walk(path):
-            for f in fs:
+        for r, ds, fs in walk(path):
+            ds.sort()
+            for f in sorted(fs):
                 yield (event, relpath(join(r, f), base))
     else:
         yield (event, relpath(path, base))
diff --git a/javatools/distinfo.py b/javatools/distinfo.py
index e519117..bd73456 100644
--- a/javatools/distinfo.py
+++ b/javatools/distinfo.py
@@ -196,8 +196,9 @@ class DistInfo(object):
 def _collect_dist(pathn):
     from os.path import join, relpath
     from os import walk
-    for r, _ds, fs in walk(pathn):
-        for f in fs:
+    for r, ds, fs in walk(pathn):
+        ds.sort()
+        for f in sorted(fs):
             yield relpath(join(r, f), pathn)
 
 
-- 
2.43.0


From 979d44cac5846f21ffea72d5ac7310d0aa2168a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:55 +0000
Subject: [PATCH 74/74] fix: line breaks in manifest keys or values were
 written as other lines

A section named after an entry whose name holds a line break was written
as a broken line, or as attributes of its own.  What the format cannot
hold is refused, as keys that are too long always were.
---
 javatools/manifest.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 26caf59..a3c0410 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -255,11 +255,17 @@ class ManifestSection(OrderedDict):
         # our keys should always be strings, as should our values. We
         # also have an upper limit on the length we can permit for
         # keys, per the JAR MANIFEST specification.
-        k = str(k)
+        # What the format cannot express would be read back as something
+        # else: line breaks and NUL, colons in a key, a space before it.
+        k, v = str(k), str(v)
         if len(k) > 68:
             raise ManifestKeyException("key too long", k)
+        elif k[:1] == " " or set(k) & set(":\r\n\0"):
+            raise ManifestKeyException("bad key", k)
+        elif set(v) & set("\r\n\0"):
+            raise ManifestKeyException("line break or NUL in value", k)
         else:
-            OrderedDict.__setitem__(self, k, str(v))
+            OrderedDict.__setitem__(self, k, v)
 
 
     def primary(self):
-- 
2.43.0

