From 8e14d7951328369316e76b71befead4d35e2047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 01/49] fix: validation must not stop at a link whose target is
 not available

---
 punx/validate.py                                   | 10 +++++++---
 punx/validations/hdf5_group_items_in_base_class.py |  4 +++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index a9de31f..95a3e9e 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -292,10 +292,14 @@ class Data_File_Validator(object):
         obj = get_subject(parent, group)
         parent = self.classpaths[obj.classpath][-1]
         for item in group:
-            if utils.isHdf5Group(group[item]):
-                self._group_address_catalog_(parent, group[item])
+            child = group.get(item)
+            if child is None:
+                logger.log(INFORMATIVE, "link target not available: " + item)
+                continue  # soft or external link, no HDF5 object to validate
+            if utils.isHdf5Group(child):
+                self._group_address_catalog_(parent, child)
             else:
-                get_subject(parent, group[item])
+                get_subject(parent, child)
 
     def validate_item_name(self, v_item):
         from .validations import item_name
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index b98be6f..73b2029 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -119,7 +119,9 @@ def verify_group_attributes(validator, v_item, base_class):
 def verify_group_children(validator, v_item, base_class):
     """verify the group's children (groups, fields)"""
     for child_name in v_item.h5_object:
-        obj = v_item.h5_object[child_name]
+        obj = v_item.h5_object.get(child_name)
+        if obj is None:
+            continue  # soft or external link, target is not available
         v_sub_item = validator.addresses[obj.name]
         # TODO: need an algorithm to know if v_item is defined in base class
 
-- 
2.43.0


From b2c42117a01dcd21d69cf521654a62641e08383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 02/49] fix: validation must end when a group links back to one
 of its parents

---
 punx/validate.py                                   | 8 +++++++-
 punx/validations/hdf5_group_items_in_base_class.py | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index 95a3e9e..fa11180 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -289,6 +289,12 @@ class Data_File_Validator(object):
                 addClasspath(av)
             return v
 
+        def is_ancestor(v, o):
+            """is ``o`` the same HDF5 group as ``v`` or one of its parents?"""
+            while v is not None and v.h5_object != o:
+                v = v.parent
+            return v is not None
+
         obj = get_subject(parent, group)
         parent = self.classpaths[obj.classpath][-1]
         for item in group:
@@ -296,7 +302,7 @@ class Data_File_Validator(object):
             if child is None:
                 logger.log(INFORMATIVE, "link target not available: " + item)
                 continue  # soft or external link, no HDF5 object to validate
-            if utils.isHdf5Group(child):
+            if utils.isHdf5Group(child) and not is_ancestor(parent, child):
                 self._group_address_catalog_(parent, child)
             else:
                 get_subject(parent, child)
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index 73b2029..8574c73 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -122,7 +122,9 @@ def verify_group_children(validator, v_item, base_class):
         obj = v_item.h5_object.get(child_name)
         if obj is None:
             continue  # soft or external link, target is not available
-        v_sub_item = validator.addresses[obj.name]
+        v_sub_item = validator.addresses.get(obj.name)
+        if v_sub_item is None:
+            continue  # group that links back to one of its parent groups
         # TODO: need an algorithm to know if v_item is defined in base class
 
         if utils.isNeXusDataset(obj):
-- 
2.43.0


From e0dcbe78fa50ce826d6f71cd1cb366fb20fe3366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 03/49] fix: report content of an external link at its address
 in the validated file

The address of each item was taken from the name known to the file at the
other end of the link, which replaced items of the validated file that
happen to have that same address (such as the file root).
---
 punx/validate.py                              | 26 +++++++++++--------
 punx/validations/default_plot.py              | 19 ++++++--------
 .../hdf5_group_items_in_base_class.py         |  2 +-
 3 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index fa11180..c236cfa 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -267,7 +267,7 @@ class Data_File_Validator(object):
         """
         self._group_address_catalog_(None, self.h5)
 
-    def _group_address_catalog_(self, parent, group):
+    def _group_address_catalog_(self, parent, group, h5_address=None):
         """
         catalog this group's address and all its contents
         """
@@ -278,8 +278,8 @@ class Data_File_Validator(object):
             self.classpaths[v.classpath].append(v)
             logger.log(INFORMATIVE, "NeXus classpath: " + v.classpath)
 
-        def get_subject(parent, o):
-            v = ValidationItem(parent, o)
+        def get_subject(parent, o, h5_address=None):
+            v = ValidationItem(parent, o, h5_address=h5_address)
             self.addresses[v.h5_address] = v
             logger.log(INFORMATIVE, "HDF5 address: " + v.h5_address)
             addClasspath(v)
@@ -295,17 +295,16 @@ class Data_File_Validator(object):
                 v = v.parent
             return v is not None
 
-        obj = get_subject(parent, group)
-        parent = self.classpaths[obj.classpath][-1]
+        parent = get_subject(parent, group, h5_address)
         for item in group:
             child = group.get(item)
             if child is None:
                 logger.log(INFORMATIVE, "link target not available: " + item)
                 continue  # soft or external link, no HDF5 object to validate
             if utils.isHdf5Group(child) and not is_ancestor(parent, child):
-                self._group_address_catalog_(parent, child)
+                self._group_address_catalog_(parent, child, parent.child_address(item))
             else:
-                get_subject(parent, child)
+                get_subject(parent, child, parent.child_address(item))
 
     def validate_item_name(self, v_item):
         from .validations import item_name
@@ -404,17 +403,18 @@ class ValidationItem(object):
 
     """HDF5 data file object for validation"""
 
-    def __init__(self, parent, obj, attribute_name=None):
+    def __init__(self, parent, obj, attribute_name=None, h5_address=None):
         assert isinstance(parent, (ValidationItem, type(None)))
         self.parent = parent
         self.validations = {}  # validation findings go here
         self.h5_object = obj
         if hasattr(obj, "name"):
-            self.h5_address = obj.name
-            if obj.name == SLASH:
+            # obj.name is the address in the *other* file for an external link
+            self.h5_address = h5_address or obj.name
+            if self.h5_address == SLASH:
                 self.name = SLASH
             else:
-                self.name = obj.name.split(SLASH)[-1]
+                self.name = self.h5_address.split(SLASH)[-1]
             self.classpath = self.determine_NeXus_classpath()
         else:
             self.name = attribute_name
@@ -426,6 +426,10 @@ class ValidationItem(object):
                 self.classpath = str(parent.classpath) + "@" + str(self.name)
         self.object_type = self.identify_object_type()
 
+    def child_address(self, child_name):
+        """HDF5 address (in the file being validated) of a child of this group"""
+        return self.h5_address.rstrip(SLASH) + SLASH + child_name
+
     def __str__(self, *args, **kwargs):
         try:
             terms = collections.OrderedDict()
diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 3fc38a8..cb5005b 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -62,15 +62,12 @@ def default_plot_v3(validator):
     # Assume the attribute values are tested elsewhere
     def build_h5_address(v_item, pointer):
         "create the HDF5 address"
-        if isinstance(v_item.h5_object, str):
-            parent = v_item.parent or v_item
-            addr = parent.h5_object.name
-        else:
-            addr = v_item.h5_object.name
-        if not addr.endswith("/"):
-            addr += "/"
-        addr += utils.decode_byte_string(pointer)
-        return addr
+        return v_item.child_address(str(utils.decode_byte_string(pointer)))
+
+    def h5_object_at(addr):
+        "HDF5 group or dataset at this address of the data file, or None"
+        obj = getattr(validator.addresses.get(addr), "h5_object", None)
+        return obj if hasattr(obj, "attrs") else None
 
     def attribute_points_at_target(v_item, attribute_name, v_target):
         "test if attribute value actually points at target"
@@ -78,7 +75,7 @@ def default_plot_v3(validator):
         if pointer is None:
             return False
         addr = build_h5_address(v_item, pointer)
-        if addr not in v_item.h5_object:
+        if h5_object_at(addr) is None:
             return False
         return v_target == addr
 
@@ -103,7 +100,7 @@ def default_plot_v3(validator):
             c = "field described by @signal does not exist"
             validator.record_finding(v_item, test_name + ", NXdata@signal", status, c)
             return None  # fail to identify as plottable since @signal is misleading
-        t4 = utils.isNeXusDataset(validator.addresses[signal_h5_addr].h5_object)
+        t4 = utils.isNeXusDataset(h5_object_at(signal_h5_addr))
         if t3 and t4:
             status = finding.OK
             c = "correct default plot setup in /NXentry/NXdata"
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index 8574c73..cbee519 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -122,7 +122,7 @@ def verify_group_children(validator, v_item, base_class):
         obj = v_item.h5_object.get(child_name)
         if obj is None:
             continue  # soft or external link, target is not available
-        v_sub_item = validator.addresses.get(obj.name)
+        v_sub_item = validator.addresses.get(v_item.child_address(child_name))
         if v_sub_item is None:
             continue  # group that links back to one of its parent groups
         # TODO: need an algorithm to know if v_item is defined in base class
-- 
2.43.0


From 2e46fe69d654bb03876a1abe40644fb0323ea86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 04/49] fix: class path of items below a group whose NX_class
 ends with a slash

---
 punx/validate.py | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index c236cfa..2eaa039 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -492,27 +492,23 @@ class ValidationItem(object):
                 logger.log(INFORMATIVE, "%s is not NeXus content", h5_obj.name)
                 return CLASSPATH_OF_NON_NEXUS_CONTENT
 
-            if not classpath.endswith(SLASH):
-
-                if utils.isHdf5Group(h5_obj):
-                    nx_class = utils.decode_byte_string(
-                        h5_obj.attrs.get("NX_class"))
-
-                    if isinstance(nx_class, str) and nx_class.startswith("NX"):
-                        self.nx_class = nx_class  # only for groups
-                        logger.log(
-                            INFORMATIVE,
-                            "NeXus base class: " + nx_class,
-                        )
-                    else:
-                        logger.log(
-                            INFORMATIVE,
-                            "HDF5 group is not NeXus: " + self.h5_address,
-                        )
-                        return CLASSPATH_OF_NON_NEXUS_CONTENT
+            if utils.isHdf5Group(h5_obj):
+                nx_class = utils.decode_byte_string(
+                    h5_obj.attrs.get("NX_class"))
+
+                if isinstance(nx_class, str) and nx_class.startswith("NX"):
+                    self.nx_class = nx_class  # only for groups
+                    logger.log(
+                        INFORMATIVE,
+                        "NeXus base class: " + nx_class,
+                    )
                 else:
-                    nx_class = self.name
-
-                classpath += SLASH + nx_class
+                    logger.log(
+                        INFORMATIVE,
+                        "HDF5 group is not NeXus: " + self.h5_address,
+                    )
+                    return CLASSPATH_OF_NON_NEXUS_CONTENT
+            else:
+                nx_class = self.name
 
-            return classpath
+            return classpath + SLASH + nx_class
-- 
2.43.0


From c89ffed87fe6ee8153f5f57070b5f2c8748cf6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 05/49] fix: default plot when the name of a field looks like
 NXdata@signal

---
 punx/validate.py                 |  1 +
 punx/validations/default_plot.py | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index 2eaa039..7254573 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -424,6 +424,7 @@ class ValidationItem(object):
             else:
                 self.h5_address = "%s@%s" % (parent.h5_address, self.name)
                 self.classpath = str(parent.classpath) + "@" + str(self.name)
+        self.is_attribute = attribute_name is not None
         self.object_type = self.identify_object_type()
 
     def child_address(self, child_name):
diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index cb5005b..1d36d0d 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -86,11 +86,12 @@ def default_plot_v3(validator):
     h5_address = None
     niac2014_path = []
     for v_item in short_list:
+        if not v_item.is_attribute:
+            continue  # group or field with "@" in its name
         # check existence of @default attributes, as well
-        _root, entry, data = v_item.h5_address.split("@")[0].split("/")  # noqa
-        nxdata = validator.addresses["/" + entry + "/" + data]
-        nxentry = validator.addresses["/" + entry]
-        nxroot = validator.addresses["/"]
+        nxdata = v_item.parent
+        nxentry = nxdata.parent
+        nxroot = nxentry.parent
         signal_h5_addr = build_h5_address(nxdata, nxdata.h5_object.attrs["signal"])
         t1 = attribute_points_at_target(nxroot, "default", nxentry.h5_address)
         t2 = attribute_points_at_target(nxentry, "default", nxdata.h5_address)
@@ -132,7 +133,7 @@ def default_plot_v2(validator):
     for k, v in validator.classpaths.items():
         if k.endswith("@signal"):
             for v_item in v:
-                if utils.isNeXusDataset(v_item.parent.h5_object):
+                if v_item.is_attribute and utils.isNeXusDataset(v_item.parent.h5_object):
                     signal = str(v_item.h5_object)
                     if signal == "1":
                         status = finding.OK
-- 
2.43.0


From 6f5968aed1511840369bf9a2d903e2d442cf960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 06/49] fix: validate group with NX_class that is a contributed
 definition of one group

---
 punx/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index 7254573..e03516b 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -392,7 +392,7 @@ class Data_File_Validator(object):
             and len(nxdl_def.links) == 0
             and len(nxdl_def.groups) == 1
         ):  # maybe ...
-            entry_group = nxdl_def.groups.values()[0]
+            entry_group = list(nxdl_def.groups.values())[0]
             # TODO: test entry_group.NX_class == "NXentry" but that attribute is not ready yet!
             # assume OK
             return "definition" not in entry_group.fields
-- 
2.43.0


From ee26c2780314a55a53243fe164ee72b72fa9cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 07/49] fix: find v2 default plot when field @signal is a
 fixed-length string

---
 punx/validations/default_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 1d36d0d..2eaf5bc 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -134,7 +134,7 @@ def default_plot_v2(validator):
         if k.endswith("@signal"):
             for v_item in v:
                 if v_item.is_attribute and utils.isNeXusDataset(v_item.parent.h5_object):
-                    signal = str(v_item.h5_object)
+                    signal = str(utils.decode_byte_string(v_item.h5_object))
                     if signal == "1":
                         status = finding.OK
                         c = "found field with @signal=1: " + v_item.h5_address
-- 
2.43.0


From b88cb5d91363d1f34cd7f6ffacc30d7b4b6dc693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 08/49] fix: only text can be a valid name, and the whole text
 must match the pattern

Names with a trailing newline were accepted and attribute values that
are not text stopped the validation.
---
 punx/validations/item_name.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 9d31d90..8f65964 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -110,10 +110,13 @@ def handle_NX_class(validator, v_item):
     status = finding.ERROR
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
-            validator.regexp_cache[k] = re.compile("^" + p + "$")
+            validator.regexp_cache[k] = re.compile(p)
         s = utils.decode_byte_string(v_item.h5_object)
-        m = validator.regexp_cache[k].match(s)
-        matches = m is not None and m.string == s
+        # only text can match, and all of the text must match
+        matches = (
+            isinstance(s, str)
+            and validator.regexp_cache[k].fullmatch(s) is not None
+        )
         msg = "checking %s with %s: %s" % (v_item.h5_address, k, str(matches))
         logger.debug(msg)
         if matches:
@@ -154,11 +157,14 @@ def validItemName_match_key(validator, text):
     patterns = getValidItemNamePatterns(validator)
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
-            validator.regexp_cache[k] = re.compile("^" + p + "$")
+            validator.regexp_cache[k] = re.compile(p)
 
         s = utils.decode_byte_string(text)
-        m = validator.regexp_cache[k].match(s)
-        matches = m is not None and m.string == s
+        # only text can match, and all of the text must match
+        matches = (
+            isinstance(s, str)
+            and validator.regexp_cache[k].fullmatch(s) is not None
+        )
         logger.debug("checking %s with %s: %s", s, k, str(matches))
         if matches:
             return k
-- 
2.43.0


From 59f3f156ecae6dcbedd5f7ccf20aae42883d02b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 09/49] fix: attribute values that are not text must not stop
 the validation

Such values cannot name an item of the file, a class, or an allowed value.
The @axes attribute of a field refers to fields of the same group.
---
 punx/utils.py                                 |  2 +-
 punx/validations/attribute.py                 | 20 +++++++++++--------
 .../hdf5_group_items_in_base_class.py         | 12 +++++------
 punx/validations/item_name.py                 |  2 +-
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 319fd0a..60c68f8 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -144,7 +144,7 @@ def isNeXusDataset(obj):
 def isNeXusLink(obj):
     """Is `obj` linked to another NeXus item?"""
     target = decode_byte_string(obj.attrs.get("target", ""))
-    return len(target) > 0 and target != obj.name
+    return isinstance(target, str) and len(target) > 0 and target != obj.name
 
 
 def setup_logger(log_name, level=None):
diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index 9c809a8..81b84c1 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -80,7 +80,9 @@ def axes_handler(validator, v_item):
         # check axis_name names local field (in this group)
         test_name = f"axes['{axis_name}'] exists"
         h5parent = v_item.parent.h5_object
-        if h5parent.get(axis_name) is not None:
+        if not hasattr(h5parent, "get"):  # attribute of a field
+            h5parent = v_item.parent.parent.h5_object
+        if isinstance(axis_name, str) and h5parent.get(axis_name) is not None:
             status = finding.OK
             k = "found field for named axis"
         else:
@@ -95,9 +97,11 @@ def axes_handler(validator, v_item):
 def nxclass_handler(validator, v_item):
     """validate @NX_class"""
     nx_class = utils.decode_byte_string(v_item.h5_object)
-    nxdl = validator.manager.classes.get(nx_class)
+    nxdl = None
+    if isinstance(nx_class, str):
+        nxdl = validator.manager.classes.get(nx_class)
     if nxdl is None:
-        c = "not a recognized NXDL class: " + nx_class
+        c = "not a recognized NXDL class: " + str(nx_class)
         status = finding.ERROR
     elif isBaseClassNXDL(nxdl):
         c = "recognized NXDL base class: " + nx_class
@@ -121,7 +125,7 @@ def signal_handler(validator, v_item):
     signal = utils.decode_byte_string(v_item.h5_object)
     if utils.isNeXusDataset(v_item.parent.h5_object):
         if (
-            str(signal).isdigit() and int(signal) == 1
+            str(signal).isdecimal() and int(signal) == 1
         ):  # could error if signal is other text!
             status = finding.OK
             c = "found plottable data marker"
@@ -131,7 +135,7 @@ def signal_handler(validator, v_item):
         validator.record_finding(v_item, TEST_NAME, status, c)
     elif utils.isHdf5Group(v_item.parent.h5_object):
         k = item_name.validItemName_match_key(validator, signal)
-        test_name = "valid name @signal=" + signal
+        test_name = "valid name @signal=" + str(signal)
         if k is None:
             status = finding.ERROR
             k = "not a valid NeXus name"
@@ -142,10 +146,10 @@ def signal_handler(validator, v_item):
                 status = finding.NOTE
         validator.record_finding(v_item, test_name, status, k)
 
-        test = signal in v_item.parent.h5_object
+        test = isinstance(signal, str) and signal in v_item.parent.h5_object
         status = finding.TF_RESULT[test]
         c = {True: "found", False: "not found"}[test]
-        c += ": @signal=" + signal
+        c += ": @signal=" + str(signal)
         validator.record_finding(v_item, TEST_NAME, status, c)
     else:
         generic_handler(validator, v_item)
@@ -155,7 +159,7 @@ def target_handler(validator, v_item):
     """validate @target"""
     target = utils.decode_byte_string(v_item.h5_object)
 
-    if not target.startswith("/"):
+    if not isinstance(target, str) or not target.startswith("/"):
         status = finding.ERROR
         c = 'value be must absolute HDF5 address, start with "/"'
         validator.record_finding(v_item, TEST_NAME, status, c)
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index cbee519..f7efb00 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -22,7 +22,7 @@ def verify(validator, v_item, base_class):
 
 def child_exists(validator, test_name, v, v_item, a_item):
     """Is v a child of v_item?"""
-    found = v in v_item.h5_object
+    found = isinstance(v, str) and v in v_item.h5_object
     if found:
         status = finding.OK
         c = "found"
@@ -32,7 +32,7 @@ def child_exists(validator, test_name, v, v_item, a_item):
     c += ": " + v_item.h5_address
     if not c.endswith("/"):
         c += "/"
-    c += v
+    c += str(v)
     validator.record_finding(a_item, test_name, status, c)
 
 
@@ -67,13 +67,13 @@ def verify_group_attributes(validator, v_item, base_class):
         spec = base_class.attributes[k]
 
         if len(spec.enumerations) > 0:
-            match = v in spec.enumerations
+            match = isinstance(v, str) and v in spec.enumerations
             status = finding.TF_RESULT[match]
             if match:
                 c = "found"
             else:
                 c = "not found"
-            c += ": " + v
+            c += ": " + str(v)
             test_name = "attribute value enumeration"
             validator.record_finding(a_item, test_name, status, c)
             # TODO: ...
@@ -95,14 +95,14 @@ def verify_group_attributes(validator, v_item, base_class):
 
         elif k == "target":
             test_name = "value of @target"
-            found = v in v_item.manager.addresses
+            found = isinstance(v, str) and v in validator.addresses
             if found:
                 status = finding.OK
                 c = "found"
             else:
                 status = finding.ERROR
                 c = "not found"
-            c += ": " + v_item.h5_address + "/@target = " + v
+            c += ": " + v_item.h5_address + "/@target = " + str(v)
             validator.record_finding(a_item, test_name, status, c)
 
         elif k == "axes":
diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 8f65964..829ede2 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -36,7 +36,7 @@ def isNeXusLinkTarget(v_item):
     if "target" in v_item.h5_object.attrs:
         source_name = utils.decode_byte_string(v_item.h5_address)
         target_name = utils.decode_byte_string(v_item.h5_object.attrs["target"])
-        return target_name != source_name
+        return isinstance(target_name, str) and target_name != source_name
     return False  # no @target attribute at all
 
 
-- 
2.43.0


From 95afec2f7bc96fc05fa224fdb5485d5c45e4bbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 10/49] fix: decode text from HDF5 as UTF-8, no matter which
 encoding the console has

Text with other bytes (such as Latin-1 units) raised UnicodeDecodeError.
---
 punx/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 60c68f8..75e8109 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -30,7 +30,6 @@ import h5py
 import logging
 import os
 import numpy
-import sys
 
 
 def decode_byte_string(value):
@@ -44,11 +43,13 @@ def decode_byte_string(value):
     """
     if (isinstance(value, numpy.ndarray) and value.dtype.kind in ['O', 'S']):
         if value.size > 0:
+            if value.dtype.kind == 'S':
+                value = numpy.char.decode(value, "utf8", "replace")
             return value.astype('U').tolist()
         else:
             return None
     elif isinstance(value, (bytes, numpy.bytes_)):
-        return value.decode(sys.stdout.encoding or "utf8")
+        return value.decode("utf8", "replace")
     else:
         return value
 
-- 
2.43.0


From 9cdb419587c5863b2914d4bcd31f775395e55de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 11/49] fix: tree view when NX_class or target attributes are
 not text

---
 punx/h5tree.py | 21 +++++++++------------
 punx/utils.py  |  2 +-
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index e0c0b12..8d1e2f3 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -101,13 +101,13 @@ class Hdf5TreeView(object):
             contents will not be used.
         """
         s = []
-        nxclass = obj.attrs.get("NX_class", "")
-        if len(nxclass) > 0:
-            if isinstance(
-                nxclass, numpy.ndarray
-            ):  # attribute reported as DATATYPE SIMPLE
-                nxclass = nxclass[0]  # convert as if DATATYPE SCALAR
-            nxclass = ":" + utils.decode_byte_string(nxclass)
+        nxclass = utils.decode_byte_string(obj.attrs.get("NX_class", ""))
+        if isinstance(nxclass, list):  # attribute reported as DATATYPE SIMPLE
+            nxclass = nxclass[0]  # convert as if DATATYPE SCALAR
+        if isinstance(nxclass, str) and len(nxclass) > 0:
+            nxclass = ":" + nxclass
+        else:
+            nxclass = ""
         s += [indentation + name + nxclass]
         extra_attrs = {}
         if isinstance(md, h5py.ExternalLink):
@@ -206,11 +206,8 @@ class Hdf5TreeView(object):
         """return a [formatted_string] with the contents and structure of a dataset"""
         shape = dset.shape
         # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
-        if self.isNeXus:
-            if "target" in dset.attrs:
-                target_addr = utils.decode_byte_string(dset.attrs["target"])
-                if target_addr != dset.name:
-                    return self._renderLinkedObject(dset, name, indentation)
+        if self.isNeXus and utils.isNeXusLink(dset):
+            return self._renderLinkedObject(dset, name, indentation)
         txType = self._renderDsType(dset)
         txShape = self._renderDsShape(dset)
         s = []
diff --git a/punx/utils.py b/punx/utils.py
index 75e8109..6512122 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -131,7 +131,7 @@ def isNeXusGroup(obj, NXtype):
     nxclass = None
     if isHdf5Group(obj):
         nxclass = obj.attrs.get("NX_class", None)
-        if isinstance(nxclass, numpy.ndarray):
+        if isinstance(nxclass, numpy.ndarray) and nxclass.size > 0:
             nxclass = nxclass[0]
         nxclass = decode_byte_string(nxclass)
     return nxclass == str(NXtype)
-- 
2.43.0


From 3935b329a7cbb62f6bd2d373ebeb5c5b7ded3f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 12/49] fix: tree view of external links when the file is
 relative to the data file

HDF5 looks for the external file relative to the file with the link, not
relative to the current working directory.  Also handle a link to an
address that is not available in the external file.
---
 punx/h5tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 8d1e2f3..693c8c3 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -123,7 +123,7 @@ class Hdf5TreeView(object):
             # for external links if file is not available
             if (
                 isinstance(link_info, h5py.ExternalLink)
-                and not os.path.exists(link_info.filename)
+                and obj.get(itemname) is None
             ):
                 classref = None
                 logger.debug(
-- 
2.43.0


From eade2ddef32068c35d4929d1881c7f9dff727b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 13/49] fix: tree view must end when a group links back to one
 of its parents

---
 punx/h5tree.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 693c8c3..dc1b981 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -87,7 +87,7 @@ class Hdf5TreeView(object):
             tree_string_list = self._renderGroup(f, txt, indentation="")
         return tree_string_list
 
-    def _renderGroup(self, obj, name, indentation="  ", md=None):
+    def _renderGroup(self, obj, name, indentation="  ", md=None, parents=()):
         """return a [formatted_string] with the contents of the group
 
         Parameters
@@ -99,8 +99,11 @@ class Hdf5TreeView(object):
             If group was an ExternalLink, then keys ``filename`` and ``path``
             describe the external link point.  If not ExternalLink, the dictionary
             contents will not be used.
+        parents : tuple
+            the groups (from the root) which contain this group
         """
         s = []
+        parents = parents + (obj,)
         nxclass = utils.decode_byte_string(obj.attrs.get("NX_class", ""))
         if isinstance(nxclass, list):  # attribute reported as DATATYPE SIMPLE
             nxclass = nxclass[0]  # convert as if DATATYPE SCALAR
@@ -170,7 +173,11 @@ class Hdf5TreeView(object):
                     raise Exception(msg)
 
         for value, itemname, md in groups:  # show things that look like groups
-            g = self._renderGroup(value, itemname, indentation + "  ", md)
+            if value in parents:  # do not show the content again (and again)
+                addr = parents[parents.index(value)].name
+                s += [f"{indentation}  {itemname} --> {addr}"]
+                continue
+            g = self._renderGroup(value, itemname, indentation + "  ", md, parents)
             s += g
 
         return s
-- 
2.43.0


From a5dc748064fa94b127ffa8770e07c161454803dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 14/49] fix: tree view did not show the value of a scalar
 dataset

---
 punx/h5tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index dc1b981..ed6b7bd 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -301,6 +301,8 @@ class Hdf5TreeView(object):
         r = ""
         if len(shape) > 0:
             r = self._renderNdArray(obj, indentation + "  ")
+        else:
+            r = str(obj[()])
         return r
 
     def _decideNumShown(self, n):
-- 
2.43.0


From 39cd212df66acb8080c04f0ebc5c65274f8c2381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 15/49] fix: tree view of a file which contains a named data
 type

---
 punx/h5tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index ed6b7bd..c0f5ea9 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -163,6 +163,9 @@ class Hdf5TreeView(object):
                         # When "classref" is defined, then external data is available
                         s += [self._renderSingleAttribute(indentation + "  ", "file", link_info.filename)]
                         s += [self._renderSingleAttribute(indentation + "  ", "path", link_info.path)]
+                elif isinstance(value, h5py.Datatype):  # a named data type
+                    s += [f"{indentation}  {itemname}:{value.dtype}"]
+                    s += self._renderAttributes(value, indentation + "  ")
                 else:
                     msg = (
                         "unidentified %s: %s, %s",
-- 
2.43.0


From b7999058932b659456c13d2c0def8d6ee2781d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 16/49] fix: tree view of empty datasets and of
 multi-dimensional string datasets

---
 punx/h5tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index c0f5ea9..4007c2d 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -223,7 +223,7 @@ class Hdf5TreeView(object):
         s = []
         if dset.dtype.kind == "S":
             if isinstance(dset[()], numpy.ndarray):
-                ss = ['"' + utils.decode_byte_string(ss) + '"' for ss in dset[()]]
+                ss = ['"' + utils.decode_byte_string(ss) + '"' for ss in dset[()].flat]
                 if len(ss) > 1:
                     value = " = [%s]" % ", ".join(ss)
                 else:
@@ -245,7 +245,7 @@ class Hdf5TreeView(object):
 
             if self.array_items_shown > 2:
                 value = self._renderArray(dset, indentation + "  ")
-                if len(dset.shape) < 2:
+                if len(dset.shape or ()) < 2:
                     # show the array inline with the field
                     s += [
                         "%s%s:%s%s = %s"
@@ -276,7 +276,7 @@ class Hdf5TreeView(object):
         t = str(obj.dtype)
         # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
         if obj.dtype.kind == "S":  # fixed-length string
-            if len(obj.shape):
+            if obj.shape:
                 t = "char[%s]" % ",".join([str(o.dtype.itemsize) for o in obj])
             else:
                 t = "CHAR"
@@ -288,7 +288,7 @@ class Hdf5TreeView(object):
 
     def _renderDsShape(self, obj):
         """return the shape of the HDF5 dataset"""
-        s = obj.shape
+        s = obj.shape or ()  # shape is None if there is no dataspace
         l = []
         for dim in s:
             l.append(str(dim))
@@ -300,7 +300,7 @@ class Hdf5TreeView(object):
 
     def _renderArray(self, obj, indentation="  "):
         """nicely format an array up to arbitrary rank"""
-        shape = obj.shape
+        shape = obj.shape or ()
         r = ""
         if len(shape) > 0:
             r = self._renderNdArray(obj, indentation + "  ")
-- 
2.43.0


From f3a3dc1330dab9f94a31c4f2b2f6b65854abb8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 17/49] fix: check of application definition with missing
 fields or with no NXentry

A missing field with enumerations, a definition without groups, or an empty
definition field stopped the validation.  A missing field was reported at an
address that does not exist: /entry@None
---
 punx/validations/application_definition.py | 29 ++++++++++++++--------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 171c76d..ec7d24f 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -15,14 +15,20 @@ from .. import utils
 from ..validate import ValidationItem
 
 
+def first_value(h5_obj):
+    """
+    return the (first) value of a HDF5 dataset as text, or None if no value
+    """
+    if not utils.isHdf5Dataset(h5_obj) or not h5_obj.size:
+        return None
+    return str(utils.decode_byte_string(numpy.ravel(h5_obj[()])[0]))
+
+
 def verify(validator, v_item):
     """
     Verify items specified in application definition are present in HDF5 data file
     """
-    item = v_item.h5_object["definition"][()]
-    if isinstance(item, (list, tuple, numpy.ndarray)):
-        item = item[0]
-    ad_name = str(utils.decode_byte_string(item))
+    ad_name = str(first_value(v_item.h5_object["definition"]))
     key = "NeXus application definition"
 
     ad = validator.manager.classes.get(ad_name)
@@ -46,6 +52,8 @@ def verify(validator, v_item):
     validator.record_finding(v_item, key, finding.TODO, c)
 
     # TODO: groups, attributes, links, type, ... in separate functions
+    if len(ad.groups) == 0:
+        return  # such as a base class
     ad_entry = list(ad.groups.values())[
         0
     ]  # only 1 at this level of the application definition (ad)
@@ -57,16 +65,17 @@ def verify(validator, v_item):
         if h5_obj is None:
             msg += " not"
         msg += " found"
-        v_obj = ValidationItem(v_item, h5_obj)
+        v_obj = v_item
+        if h5_obj is not None:
+            v_obj = ValidationItem(
+                v_item, h5_obj, h5_address=v_item.child_address(field)
+            )
         validator.record_finding(v_obj, "NXDL field", status, msg)
 
-        if len(spec.enumerations) > 0:
+        if h5_obj is not None and len(spec.enumerations) > 0:
             found = False
             for enum in spec.enumerations:
-                obj = h5_obj[()]
-                if isinstance(obj, (list, tuple, numpy.ndarray)):
-                    obj = obj[0]
-                found = enum == utils.decode_byte_string(obj)
+                found = enum == first_value(h5_obj)
                 if found:
                     break
             msg = "%s:%s" % (ad_name, field)
-- 
2.43.0


From 597968f8852e748d3fba4bc61fc70b6ec0532026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 18/49] fix: status when there is no default plot depended on
 files validated before

The minOccurs attribute of the NXDL group was only set after some NXentry
group had been validated with the same instance of NXDL_Manager.
---
 punx/validations/default_plot.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 2eaf5bc..c041cc4 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -37,10 +37,11 @@ def verify(validator):
     if status is None:
         c = "no default plot described"
         data_group = validator.manager.classes["NXentry"].groups["data"]
-        if hasattr(data_group, "minOccurs"):
-            minOccurs = data_group.minOccurs
-        else:
-            minOccurs = 1
+        minOccurs = 1
+        for v_item in validator.addresses.values():
+            if getattr(v_item, "nx_class", None) == "NXentry":
+                # NXDL attribute, see also: base_class_items_in_hdf5_group.py
+                minOccurs = int(data_group.attributes.get("minOccurs", 0))
         if minOccurs > 0:
             status = finding.ERROR
         else:
-- 
2.43.0


From c9be5f6566dfa66c3147bb34202c1b6e1ad93077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 19/49] fix: defaults of base classes changed after reading an
 application definition

---
 punx/nxdl_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index fed1769..4291639 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -29,6 +29,7 @@ name).
 from __future__ import print_function
 
 import collections
+import copy
 import lxml.etree
 import os
 
@@ -203,7 +204,8 @@ class NXDL__base(object):
             Instance of nxdl_schema.NXDL_schema__element.
         """
         for k, v in sorted(defaults.attributes.items()):
-            self.xml_attributes[k] = v
+            # own copy: defaults are changed for application definitions
+            self.xml_attributes[k] = copy.copy(v)
 
     def parse_attributes(self, xml_node):
         """
-- 
2.43.0


From 814809ba485cc690cb071166c125af5ffb411250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 20/49] fix: each XML Schema is read independent of those read
 before

---
 punx/schema_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 58dc20f..26e042b 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -371,6 +371,10 @@ class Schema_Root(_Mixin):
             schema_root=schema_root,
         )
 
+        self.attrs = {}
+        self.children = {}
+        _GroupParsing().started = False  # each XML Schema has its own group
+
         self.schema_manager = schema_manager
         element_type = element_node.attrib.get("type")
         if element_type is None:
-- 
2.43.0


From 8e66174985f5cbb90fe7e9267213b416b633d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 21/49] fix: validate NXDL files with the XML Schema of their
 own file set

---
 punx/nxdl_manager.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 4291639..0da0bae 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -159,15 +159,20 @@ def get_NXDL_file_list(nxdl_dir):
     return nxdl_file_list
 
 
-def validate_xml_tree(xml_tree):
+def validate_xml_tree(xml_tree, file_set=None):
     """
     Validate an NXDL XML file against its NeXus NXDL XML Schema file.
 
-    :param str xml_file_name: name of XML file
+    :param obj xml_tree: parsed content of XML file
+    :param obj file_set: instance of NXDL_File_Set (default: the default file set)
     """
     from . import schema_manager
 
-    schema = schema_manager.get_default_schema_manager().lxml_schema
+    if file_set is None:
+        manager = schema_manager.get_default_schema_manager()
+    else:
+        manager = file_set.schema_manager
+    schema = manager.lxml_schema
     try:
         result = schema.assertValid(xml_tree)
     except lxml.etree.DocumentInvalid as exc:
@@ -442,7 +447,7 @@ class NXDL__definition(NXDL__base):  # lgtm [py/missing-call-to-init]
         lxml_tree = lxml.etree.parse(self.file_name)
 
         try:
-            validate_xml_tree(lxml_tree)
+            validate_xml_tree(lxml_tree, self.nxdl_manager.nxdl_file_set)
         except InvalidNxdlFile as exc:
             msg = "NXDL file is not valid: " + self.file_name
             msg += "\n" + str(exc)
-- 
2.43.0


From d814beedf1e465c472300a1f72c35b711601817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 22/49] fix: findings of previous file were kept when next file
 is not HDF5

---
 punx/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index e03516b..be3d4e2 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -228,13 +228,13 @@ class Data_File_Validator(object):
 
         if self.h5 is not None:
             self.close()  # left open from previous call to validate()
+        self.__init_local__()  # forget results from previous call to validate()
         try:
             self.h5 = h5py.File(fname, "r")
         except IOError:
             logger.error("Could not open as HDF5: " + fname)
             raise HDF5_Open_Error(fname)
 
-        self.__init_local__()
         self.build_address_catalog()
 
         # 1. check all objects in file (name is valid, ...)
-- 
2.43.0


From ac3dc166bb9f2ba21cb8ae3ff216e980861dd1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 23/49] fix: retry the download of NeXus definitions after a
 connection error

---
 punx/cache_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 1446758..bcd0003 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -150,13 +150,14 @@ def download_NeXus_zip_archive(url):
     # disable warnings about GitHub self-signed https certificates
     disable_warnings(InsecureRequestWarning)
 
-    for _retry in range(GITHUB_RETRY_COUNT):  # noqa
+    for retry in range(GITHUB_RETRY_COUNT):
         try:
             print(f"Requesting download from {url}")
             archive = requests.get(url, verify=False)
             return zipfile.ZipFile(io.BytesIO(archive.content))
         except requests.exceptions.ConnectionError as _exc:
-            raise IOError(f"ConnectionError from {url}\n{_exc}")
+            if retry + 1 == GITHUB_RETRY_COUNT:
+                raise IOError(f"ConnectionError from {url}\n{_exc}")
 
 
 def download_file_set(file_set_name, cache_path, replace=False):
-- 
2.43.0


From 1c704d5922f4b2c17a2f463e038b0ed2492cdc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 24/49] fix: install a NeXus file set completely or not at all

---
 punx/cache_manager.py | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index bcd0003..a912eaf 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -68,6 +68,7 @@ import pathlib
 import pyRestTable
 import requests
 import shutil
+import tempfile
 
 from PyQt5 import QtCore
 from requests.packages.urllib3 import disable_warnings
@@ -196,10 +197,26 @@ def download_file_set(file_set_name, cache_path, replace=False):
         print(f"Could not download file set: {file_set_name}")
         return
 
+    # stage the new file set where no other file set can be affected
+    staging_path = pathlib.Path(tempfile.mkdtemp(prefix=".install-", dir=cache_path))
+    try:
+        _install_file_set(
+            file_set_name, url, zip_content, staging_path, NXDL_refs_dir_name
+        )
+    finally:
+        shutil.rmtree(staging_path, ignore_errors=True)
+
+
+def _install_file_set(
+    file_set_name, url, zip_content, staging_path, NXDL_refs_dir_name
+):
+    """
+    Extract NXDL file set into ``staging_path``, move it once it is complete.
+    """
     NXDL_categories = "base_classes applications contributed_definitions".split()
     NXDL_file_endings_list = ".xsd .xml .xsl".split()
 
-    download_path = cache_path / zip_content.filelist[0].filename.split("/")[0]
+    download_path = staging_path / zip_content.filelist[0].filename.split("/")[0]
     allowed_parents = NXDL_categories  # directories
     allowed_parents.append(download_path.name)
 
@@ -207,7 +224,7 @@ def download_file_set(file_set_name, cache_path, replace=False):
     dt = (1980, 1, 1, 1, 1, 1)  # start with pre-NeXus date
     for item in zip_content.namelist():
         if is_extractable(item, NXDL_file_endings_list, allowed_parents):
-            zip_content.extract(item, cache_path)
+            zip_content.extract(item, staging_path)
             dt = max(zip_content.getinfo(item).date_time, dt)
             item_count += 1
             print(f"{item_count} Extracted: {item}")
@@ -233,9 +250,16 @@ def download_file_set(file_set_name, cache_path, replace=False):
     print(f"Created: {infofile}")
 
     # last, rename the ``download_path`` directory to ``file_set_name``
-    if NXDL_refs_dir_name.exists():
-        shutil.rmtree(NXDL_refs_dir_name, ignore_errors=True)
-    shutil.move(download_path, NXDL_refs_dir_name)
+    old_path = pathlib.Path(tempfile.mkdtemp(dir=staging_path)) / "old"
+    try:
+        if NXDL_refs_dir_name.exists():
+            NXDL_refs_dir_name.rename(old_path)
+        shutil.move(download_path, NXDL_refs_dir_name)
+    except BaseException:
+        if old_path.exists():  # keep what was installed before
+            shutil.rmtree(NXDL_refs_dir_name, ignore_errors=True)
+            old_path.rename(NXDL_refs_dir_name)
+        raise
     print(f"Installed in directory: {NXDL_refs_dir_name}")
 
 
-- 
2.43.0


From bc7d3e10c7b21dc30a47601ac345fe402a59c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 25/49] fix: only file sets of the punx package are in the
 source cache

---
 punx/cache_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index a912eaf..81ca6f4 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -545,7 +545,10 @@ class NXDL_File_Set(object):
 
         self.info = file_name
         self.path = os.path.abspath(os.path.dirname(file_name))
-        if self.path.find(os.path.join("punx", "cache")) > 0:
+        source_cache_path = os.path.join(
+            os.path.dirname(os.path.abspath(__file__)), SOURCE_CACHE_SUBDIR
+        )
+        if os.path.dirname(self.path) == source_cache_path:
             self.cache = "source"
         else:
             self.cache = "user"
-- 
2.43.0


From 1518855f0577ada2362867813db021cede1935c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 26/49] fix: do not validate with another NXDL file set when
 the named one is unknown

---
 punx/nxdl_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 0da0bae..5c10ef4 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -79,6 +79,8 @@ class NXDL_Manager(object):
             file_set = cm.default_file_set
         elif isinstance(file_set, str):
             cm = cache_manager.CacheManager()
+            if file_set not in cm.all_file_sets:
+                raise KeyError(f"unknown NXDL file set: {file_set}")
             cm.select_NXDL_file_set(file_set)
             file_set = cm.default_file_set
         assert isinstance(file_set, cache_manager.NXDL_File_Set)
-- 
2.43.0


From 0d46823aae49f0bb70355f8a906d74cd1c183b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 27/49] fix: validate subcommand failed with any NXDL file

---
 punx/main.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/punx/main.py b/punx/main.py
index a6c069a..903c5a9 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -58,6 +58,7 @@ main user interface file
 
 import argparse
 import logging
+import lxml.etree
 import os
 import pathlib
 import sys
@@ -73,7 +74,7 @@ logging.basicConfig(
 
 
 from .__init__ import __version__, __package_name__, __url__
-from .__init__ import FileNotFound, HDF5_Open_Error, SchemaNotFound
+from .__init__ import FileNotFound, HDF5_Open_Error, InvalidNxdlFile, SchemaNotFound
 from . import finding
 from . import utils
 
@@ -194,12 +195,6 @@ def func_validate(args):
 
     cm = cache_manager.CacheManager()
 
-    if args.infile.endswith(".nxdl.xml"):
-        result = validate.validate_xml(args.infile)
-        if result is None:
-            print(args.infile, " validates")
-        return
-
     file_sets = list(cm.all_file_sets.keys())
     if args.file_set_name not in file_sets:
         exit_message(
@@ -207,6 +202,21 @@ def func_validate(args):
             f"  Either install it or use one of these: {', '.join(file_sets)}"
         )
 
+    if args.infile.endswith(".nxdl.xml"):
+        from . import nxdl_manager
+
+        try:
+            nxdl_manager.validate_xml_tree(
+                lxml.etree.parse(args.infile),
+                cm.select_NXDL_file_set(args.file_set_name),
+            )
+        except (IOError, lxml.etree.XMLSyntaxError) as exc:
+            exit_message(f"Could not read as XML: {args.infile}\n{exc}")
+        except InvalidNxdlFile as exc:
+            exit_message(f"NXDL file is not valid: {args.infile}\n{exc}")
+        print(args.infile, " validates")
+        return
+
     validator = validate.Data_File_Validator(args.file_set_name)
 
     # determine which findings are to be reported
-- 
2.43.0


From 6f6e50b1cec11d4cf5781809a4db5a0f1c730f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:04 +0000
Subject: [PATCH 28/49] fix: tree subcommand reports files that do not exist or
 are not HDF5

---
 punx/main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/punx/main.py b/punx/main.py
index 903c5a9..1b2808f 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -169,6 +169,8 @@ def func_tree(args):
             exit_message("File not found: " + args.infile)
         except Exception as exc:
             exit_message(str(exc))
+        if mc.nxdl_file is None:
+            exit_message("File not found: " + args.infile)
         report = mc.report(args.show_attributes)
         print("\n".join(report or ""))
 
@@ -179,6 +181,10 @@ def func_tree(args):
             mc = h5tree.Hdf5TreeView(os.path.abspath(args.infile))
         except FileNotFound:
             exit_message("File not found: " + args.infile)
+        except OSError:
+            exit_message("Could not open as HDF5: " + args.infile)
+        if mc.filename is None:
+            exit_message("File not found: " + args.infile)
         mc.array_items_shown = args.max_array_items
         try:
             report = mc.report(args.show_attributes)
-- 
2.43.0


From 0709392269ffd7aec533255bc37de55653665749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 29/49] fix: demonstrate subcommand needed a NXDL file set that
 is not installed

---
 punx/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/main.py b/punx/main.py
index 1b2808f..4dd5442 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -135,7 +135,7 @@ def func_demo(args):
     print("")
     print("console> punx validate " + args.infile)
     args.report = ",".join(sorted(finding.VALID_STATUS_DICT.keys()))
-    args.file_set_name = cache_manager.GITHUB_NXDL_BRANCH
+    args.file_set_name = cache_manager.CacheManager().default_file_set.ref
     func_validate(args)
     del args.report
 
-- 
2.43.0


From e0ef7c5ffaf0a101da8f131876c69da86967f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 30/49] fix: print_report failed when the data file was given
 as pathlib.Path

---
 punx/validate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/punx/validate.py b/punx/validate.py
index be3d4e2..7cf50f0 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -224,6 +224,7 @@ class Data_File_Validator(object):
 
         if not os.path.exists(fname):
             raise FileNotFound(fname)
+        fname = os.fspath(fname)  # pathlib.Path is accepted
         self.fname = fname
 
         if self.h5 is not None:
-- 
2.43.0


From b920f1aef39b21df763a7f2a8e43db57dc231d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 31/49] fix: finding_summary failed when only some statuses
 were requested

---
 punx/validate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index 7cf50f0..d2b0133 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -167,7 +167,8 @@ class Data_File_Validator(object):
         for status in report_statuses:
             summary[status] = 0
         for f in self.validations:
-            summary[f.status] += 1
+            if f.status in summary:
+                summary[f.status] += 1
         return summary
 
     def print_report(self, statuses=None):
-- 
2.43.0


From 33b40b9fdfbfbd22f46825611647e9ab34f8cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:31 +0000
Subject: [PATCH 32/49] fix: validation must not stop at a group with a slash
 in its NX_class

---
 punx/validations/application_definition.py | 2 +-
 punx/validations/default_plot.py           | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index ec7d24f..4447326 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -28,7 +28,7 @@ def verify(validator, v_item):
     """
     Verify items specified in application definition are present in HDF5 data file
     """
-    ad_name = str(first_value(v_item.h5_object["definition"]))
+    ad_name = str(first_value(v_item.h5_object.get("definition")))
     key = "NeXus application definition"
 
     ad = validator.manager.classes.get(ad_name)
diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index c041cc4..8ab3c11 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -72,6 +72,8 @@ def default_plot_v3(validator):
 
     def attribute_points_at_target(v_item, attribute_name, v_target):
         "test if attribute value actually points at target"
+        if v_item is None:
+            return False
         pointer = v_item.h5_object.attrs.get(attribute_name)
         if pointer is None:
             return False
-- 
2.43.0


From 76b68a5a72fa0ff333780bdb2c9deacc1a52f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 33/49] fix: validation and tree view must not stop at a soft
 link that leads to itself

---
 punx/h5tree.py                                |  2 +-
 punx/utils.py                                 | 23 +++++++++++++++----
 punx/validate.py                              |  2 +-
 punx/validations/application_definition.py    |  2 +-
 punx/validations/attribute.py                 | 10 ++++----
 .../hdf5_group_items_in_base_class.py         |  4 ++--
 6 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 4007c2d..c4622fc 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -126,7 +126,7 @@ class Hdf5TreeView(object):
             # for external links if file is not available
             if (
                 isinstance(link_info, h5py.ExternalLink)
-                and obj.get(itemname) is None
+                and utils.getHdf5Item(obj, itemname) is None
             ):
                 classref = None
                 logger.debug(
diff --git a/punx/utils.py b/punx/utils.py
index 6512122..e29b70e 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -110,6 +110,22 @@ def __isHdf5ExternalLink(obj):
     return isinstance(obj, h5py.ExternalLink)
 
 
+def getHdf5Item(group, path):
+    """Return HDF5 object at ``path`` of HDF5 ``group``, None if not available."""
+    try:
+        return group.get(path)
+    except RuntimeError:  # link that leads to itself
+        return None
+
+
+def hasHdf5Item(group, path):
+    """Is there something at ``path`` of HDF5 ``group``?"""
+    try:
+        return path in group
+    except RuntimeError:  # link that leads to itself
+        return False
+
+
 def isNeXusFile(filename):
     """Is `filename` is a NeXus HDF5 file?"""
     if not os.path.exists(filename):
@@ -118,11 +134,8 @@ def isNeXusFile(filename):
     with h5py.File(filename, "r") as root:
         if isHdf5FileObject(root):
             for item in root:
-                try:
-                    if isNeXusGroup(root[item], "NXentry"):
-                        return True
-                except KeyError:
-                    pass
+                if isNeXusGroup(getHdf5Item(root, item), "NXentry"):
+                    return True
     return False
 
 
diff --git a/punx/validate.py b/punx/validate.py
index d2b0133..809fe29 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -299,7 +299,7 @@ class Data_File_Validator(object):
 
         parent = get_subject(parent, group, h5_address)
         for item in group:
-            child = group.get(item)
+            child = utils.getHdf5Item(group, item)
             if child is None:
                 logger.log(INFORMATIVE, "link target not available: " + item)
                 continue  # soft or external link, no HDF5 object to validate
diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 4447326..5961c76 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -60,7 +60,7 @@ def verify(validator, v_item):
     for field, spec in ad_entry.fields.items():
 
         msg = "%s:%s" % (ad_name, field)
-        h5_obj = v_item.h5_object.get(field)
+        h5_obj = utils.getHdf5Item(v_item.h5_object, field)
         status = finding.TF_RESULT[h5_obj is not None]
         if h5_obj is None:
             msg += " not"
diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index 81b84c1..25e6062 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -82,7 +82,7 @@ def axes_handler(validator, v_item):
         h5parent = v_item.parent.h5_object
         if not hasattr(h5parent, "get"):  # attribute of a field
             h5parent = v_item.parent.parent.h5_object
-        if isinstance(axis_name, str) and h5parent.get(axis_name) is not None:
+        if isinstance(axis_name, str) and utils.getHdf5Item(h5parent, axis_name) is not None:
             status = finding.OK
             k = "found field for named axis"
         else:
@@ -146,7 +146,9 @@ def signal_handler(validator, v_item):
                 status = finding.NOTE
         validator.record_finding(v_item, test_name, status, k)
 
-        test = isinstance(signal, str) and signal in v_item.parent.h5_object
+        test = isinstance(signal, str) and utils.hasHdf5Item(
+            v_item.parent.h5_object, signal
+        )
         status = finding.TF_RESULT[test]
         c = {True: "found", False: "not found"}[test]
         c += ": @signal=" + str(signal)
@@ -174,13 +176,13 @@ def target_handler(validator, v_item):
             return
         else:
             addr += "/" + p
-            if addr not in validator.h5:
+            if not utils.hasHdf5Item(validator.h5, addr):
                 status = finding.ERROR
                 c = "partial HDF5 address not found in file: " + addr
                 validator.record_finding(v_item, TEST_NAME, status, c)
                 return
 
-    test = target in validator.h5
+    test = utils.hasHdf5Item(validator.h5, target)
     status = finding.TF_RESULT[test]
     c = {True: "found", False: "not found"}[test]
     c += ": @target=" + target
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index f7efb00..d0778c0 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -22,7 +22,7 @@ def verify(validator, v_item, base_class):
 
 def child_exists(validator, test_name, v, v_item, a_item):
     """Is v a child of v_item?"""
-    found = isinstance(v, str) and v in v_item.h5_object
+    found = isinstance(v, str) and utils.hasHdf5Item(v_item.h5_object, v)
     if found:
         status = finding.OK
         c = "found"
@@ -119,7 +119,7 @@ def verify_group_attributes(validator, v_item, base_class):
 def verify_group_children(validator, v_item, base_class):
     """verify the group's children (groups, fields)"""
     for child_name in v_item.h5_object:
-        obj = v_item.h5_object.get(child_name)
+        obj = utils.getHdf5Item(v_item.h5_object, child_name)
         if obj is None:
             continue  # soft or external link, target is not available
         v_sub_item = validator.addresses.get(v_item.child_address(child_name))
-- 
2.43.0


From a50eccb81e6e833f507c6cabfcd242cd5990d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 34/49] fix: names of fields with '@' in a linked group were
 not validated

---
 punx/validations/item_name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 829ede2..7ecab09 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -75,7 +75,7 @@ def verify(validator, v_item):
         handle_NX_class(validator, v_item)
 
     # attribute
-    elif v_item.classpath.find("@") > -1 and isNeXusLinkTarget(v_item.parent):
+    elif v_item.is_attribute and isNeXusLinkTarget(v_item.parent):
         # Do not validate the attributes of linked items.
         # They will be validated with the source item.
         pass
-- 
2.43.0


From 2667d76da8ae2aae843369abc892c228d24cd87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:15 +0000
Subject: [PATCH 35/49] fix: tree view failed when NX_class is neither text nor
 a number

---
 punx/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/utils.py b/punx/utils.py
index e29b70e..f583dd9 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -147,7 +147,7 @@ def isNeXusGroup(obj, NXtype):
         if isinstance(nxclass, numpy.ndarray) and nxclass.size > 0:
             nxclass = nxclass[0]
         nxclass = decode_byte_string(nxclass)
-    return nxclass == str(NXtype)
+    return isinstance(nxclass, str) and nxclass == str(NXtype)
 
 
 def isNeXusDataset(obj):
-- 
2.43.0


From 6b217ba0dff38a943902a3045f35e81a48603a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:33 +0000
Subject: [PATCH 36/49] fix: attributes with arrays of variable length stopped
 the tree view and the validation

---
 punx/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/punx/utils.py b/punx/utils.py
index f583dd9..c447a21 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -43,6 +43,8 @@ def decode_byte_string(value):
     """
     if (isinstance(value, numpy.ndarray) and value.dtype.kind in ['O', 'S']):
         if value.size > 0:
+            if isinstance(value.flat[0], numpy.ndarray):
+                return value  # not text: arrays of variable length
             if value.dtype.kind == 'S':
                 value = numpy.char.decode(value, "utf8", "replace")
             return value.astype('U').tolist()
-- 
2.43.0


From a77f1d9403f994e136da8306d78de4df7e9c962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:52 +0000
Subject: [PATCH 37/49] fix: text that is not UTF-8 stopped the validation when
 used as a name

---
 punx/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/punx/utils.py b/punx/utils.py
index c447a21..8c81dc8 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -47,15 +47,23 @@ def decode_byte_string(value):
                 return value  # not text: arrays of variable length
             if value.dtype.kind == 'S':
                 value = numpy.char.decode(value, "utf8", "replace")
-            return value.astype('U').tolist()
+            text = value.astype('U')
+            return numpy.reshape([_replace(t) for t in text.flat], text.shape).tolist()
         else:
             return None
     elif isinstance(value, (bytes, numpy.bytes_)):
         return value.decode("utf8", "replace")
+    elif isinstance(value, str):
+        return _replace(value)
     else:
         return value
 
 
+def _replace(text):
+    """Replace what is not UTF-8 in text that h5py read (it is kept as surrogates)."""
+    return text.encode("utf8", "surrogateescape").decode("utf8", "replace")
+
+
 def string_list_to_hdf5(string_list):
     """
     converts string lists (incl unicode) to h5py-compatible
-- 
2.43.0


From a3ab73244cae46a8336979fc9855126a71957ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:36 +0000
Subject: [PATCH 38/49] fix: a file set was put inside another one installed at
 the same time

---
 punx/cache_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 81ca6f4..a8ec8de 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -254,7 +254,7 @@ def _install_file_set(
     try:
         if NXDL_refs_dir_name.exists():
             NXDL_refs_dir_name.rename(old_path)
-        shutil.move(download_path, NXDL_refs_dir_name)
+        download_path.rename(NXDL_refs_dir_name)
     except BaseException:
         if old_path.exists():  # keep what was installed before
             shutil.rmtree(NXDL_refs_dir_name, ignore_errors=True)
-- 
2.43.0


From 8e88e6bbecac5df23f8f97b83fdd7fa46af9f062 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 01:12:37 +0000
Subject: [PATCH 39/49] fix: a failing update removed the file set that was
 installed at the same time

---
 punx/cache_manager.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index a8ec8de..70b628b 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -256,9 +256,8 @@ def _install_file_set(
             NXDL_refs_dir_name.rename(old_path)
         download_path.rename(NXDL_refs_dir_name)
     except BaseException:
-        if old_path.exists():  # keep what was installed before
-            shutil.rmtree(NXDL_refs_dir_name, ignore_errors=True)
-            old_path.rename(NXDL_refs_dir_name)
+        if old_path.exists() and not NXDL_refs_dir_name.exists():
+            old_path.rename(NXDL_refs_dir_name)  # keep what was installed before
         raise
     print(f"Installed in directory: {NXDL_refs_dir_name}")
 
-- 
2.43.0


From b34e104c9555d6b71b9615fcc09d45c36a40e18b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 01:12:37 +0000
Subject: [PATCH 40/49] fix: archive without a top directory was installed
 outside of its staging folder

---
 punx/cache_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 70b628b..18ba2e3 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -216,7 +216,10 @@ def _install_file_set(
     NXDL_categories = "base_classes applications contributed_definitions".split()
     NXDL_file_endings_list = ".xsd .xml .xsl".split()
 
-    download_path = staging_path / zip_content.filelist[0].filename.split("/")[0]
+    top_directory = zip_content.filelist[0].filename.split("/")[0]
+    if top_directory in ("", ".", ".."):
+        raise ValueError("no directory with NXDL content downloaded")
+    download_path = staging_path / top_directory
     allowed_parents = NXDL_categories  # directories
     allowed_parents.append(download_path.name)
 
-- 
2.43.0


From 2aa774e42f4e49c851a148912cfe426d881a08fb Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 01:30:13 +0000
Subject: [PATCH 41/49] fix: a processing instruction among the symbols of a
 NXDL file stopped its loading

---
 punx/nxdl_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 5c10ef4..9fefae2 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -692,7 +692,7 @@ class NXDL__symbols(NXDL__base):
     def parse_nxdl_xml(self, symbols_node):
         """parse the XML content"""
         for node in symbols_node:
-            if isinstance(node, lxml.etree._Comment):
+            if not isinstance(node.tag, str):  # comment or processing instruction
                 continue
 
             element_type = node.tag.split("}")[-1]
-- 
2.43.0


From f0ea8e142b0c93c6f0bc0d1ce658da95edddd389 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 42/49] fix: files that are missing or no HDF5 ended the
 validate command with a traceback

The exceptions imported from .__init__ are not those of the package: that
module is loaded a second time, and its classes are others.  Import from
the package.
---
 punx/main.py         | 4 ++--
 punx/nxdl_manager.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/punx/main.py b/punx/main.py
index 4dd5442..fcb3bc0 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -73,8 +73,8 @@ logging.basicConfig(
 )
 
 
-from .__init__ import __version__, __package_name__, __url__
-from .__init__ import FileNotFound, HDF5_Open_Error, InvalidNxdlFile, SchemaNotFound
+from . import __version__, __package_name__, __url__
+from . import FileNotFound, HDF5_Open_Error, InvalidNxdlFile, SchemaNotFound
 from . import finding
 from . import utils
 
diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 9fefae2..b49c46e 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -33,7 +33,7 @@ import copy
 import lxml.etree
 import os
 
-from .__init__ import FileNotFound, InvalidNxdlFile
+from . import FileNotFound, InvalidNxdlFile
 from . import nxdl_schema
 from . import cache_manager
 from . import utils
-- 
2.43.0


From c44a3fc19adb7649b9ec44c13050baf36609f6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:49 +0000
Subject: [PATCH 43/49] fix: groups and fields with @ in their addresses were
 checked as the attributes of their name

---
 punx/validations/attribute.py | 4 +++-
 punx/validations/item_name.py | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index 25e6062..167d1e7 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -25,7 +25,9 @@ def verify(validator, v_item):
     if v_item.h5_address.find("@") < 0:
         return
 
-    handler = HANDLER_DICT.get(v_item.name) or generic_handler
+    handler = generic_handler
+    if v_item.is_attribute:  # not a group or field with "@" in its address
+        handler = HANDLER_DICT.get(v_item.name) or generic_handler
     handler(validator, v_item)
 
 
diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 7ecab09..fe2b173 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -71,7 +71,11 @@ def verify(validator, v_item):
     if v_item.name in v_item.validations:
         return  # do not repeat this
 
-    if v_item.h5_address is not None and v_item.h5_address.endswith("@NX_class"):
+    if (
+        v_item.is_attribute
+        and v_item.name == "NX_class"
+        and v_item.h5_address is not None
+    ):
         handle_NX_class(validator, v_item)
 
     # attribute
-- 
2.43.0


From 8d690685a9a6060c12c7929ac07e18b294108347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:40 +0000
Subject: [PATCH 44/49] fix: attributes whose names only end with @signal took
 part in the choice of the default plot

---
 punx/validations/default_plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 8ab3c11..7240f6d 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -136,7 +136,11 @@ def default_plot_v2(validator):
     for k, v in validator.classpaths.items():
         if k.endswith("@signal"):
             for v_item in v:
-                if v_item.is_attribute and utils.isNeXusDataset(v_item.parent.h5_object):
+                if (
+                    v_item.is_attribute
+                    and v_item.name == "signal"  # not a name that ends with @signal
+                    and utils.isNeXusDataset(v_item.parent.h5_object)
+                ):
                     signal = str(utils.decode_byte_string(v_item.h5_object))
                     if signal == "1":
                         status = finding.OK
-- 
2.43.0


From 65c993aa11366824bf60a3cc0f961231ef164a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:40 +0000
Subject: [PATCH 45/49] fix: install told the default file set as it was before
 the installation

---
 punx/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/punx/main.py b/punx/main.py
index fcb3bc0..aace3ae 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -275,7 +275,8 @@ def func_install(args):
         )
 
     print(cm.table_of_caches())
-    print(f"default file set: {cm.default_file_set.ref}")
+    # cm chose its default before the installation
+    print(f"default file set: {cm.select_NXDL_file_set().ref}")
 
 
 class MyArgumentParser(argparse.ArgumentParser):
-- 
2.43.0


From 19428d4c4460fa15d46cfb11a6a12ef88463130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:53 +0000
Subject: [PATCH 46/49] fix: schema attributes of type NX_BOOLEAN without
 default value, or with default 1

An NXDL schema (nxdl.xsd) may declare such an attribute without a default:
then there is nothing to be converted.  The text "1" stands for true.
---
 punx/schema_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 26e042b..60509fe 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -443,8 +443,8 @@ class Schema_Attribute(_Mixin):
 
         self.type = xml_obj.attrib.get("type", "str")
         defalt = xml_obj.attrib.get("default")
-        if self.type in ("nx:NX_BOOLEAN",):
-            self.default_value = defalt.lower() in ("true", "y", 1)
+        if self.type in ("nx:NX_BOOLEAN",) and defalt is not None:
+            self.default_value = defalt.lower() in ("true", "y", "1")
         else:
             self.default_value = defalt
 
-- 
2.43.0


From 3a3f9c1d4b1dee2816278bb664f2f4b0f8e7ddf0 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 06:28:08 +0000
Subject: [PATCH 47/49] fix: schema declarations that share a line were taken
 for one

---
 punx/nxdl_schema.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/punx/nxdl_schema.py b/punx/nxdl_schema.py
index 55112d6..2427474 100644
--- a/punx/nxdl_schema.py
+++ b/punx/nxdl_schema.py
@@ -74,6 +74,7 @@ def get_reference_keys(xml_node):
     """reference an xml_node in the catalog: ``catalog[section][line]``"""
     section = xml_node.tag.split("}")[-1]
     line = "Line %d" % xml_node.sourceline
+    line += " " + xml_node.getroottree().getpath(xml_node)  # one of several on that line
     return section, line
 
 
@@ -459,7 +460,8 @@ class NXDL_item_catalog(object):
 
         nodes = root.xpath("xs:element", namespaces=self.ns)
         assert len(nodes) == 1
-        self.definition_element = self.db["element"]["Line %d" % nodes[0].sourceline]
+        section, line = get_reference_keys(nodes[0])
+        self.definition_element = self.db[section][line]
         reference_type_name = nodes[0].attrib["type"].split(":")[-1]
         self.definition_element.children += self.db["schema"][
             reference_type_name
-- 
2.43.0


From f4f1e691681e164ae2058bc99243a598d0d22c2f Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 06:28:08 +0000
Subject: [PATCH 48/49] fix: comments in a schema stopped the loading of its
 file set

---
 punx/nxdl_schema.py    | 3 ++-
 punx/schema_manager.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/punx/nxdl_schema.py b/punx/nxdl_schema.py
index 2427474..3fae40c 100644
--- a/punx/nxdl_schema.py
+++ b/punx/nxdl_schema.py
@@ -442,7 +442,8 @@ class NXDL_item_catalog(object):
     def __init__(self, nxdl_file_name):
         self.db = {}
 
-        doc = lxml.etree.parse(nxdl_file_name)
+        parser = lxml.etree.XMLParser(remove_comments=True, remove_pis=True)
+        doc = lxml.etree.parse(nxdl_file_name, parser)
         root = doc.getroot()
         self.ns = get_xml_namespace_dictionary()
 
diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 60509fe..0ab2fa4 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -113,7 +113,8 @@ class SchemaManager(object):
         if not os.path.exists(self.schema_file):
             raise FileNotFound("XML Schema file: " + self.schema_file)
 
-        self.lxml_tree = lxml.etree.parse(self.schema_file)
+        parser = lxml.etree.XMLParser(remove_comments=True, remove_pis=True)
+        self.lxml_tree = lxml.etree.parse(self.schema_file, parser)
         self.lxml_schema = lxml.etree.XMLSchema(self.lxml_tree)
         self.lxml_root = self.lxml_tree.getroot()
 
@@ -180,7 +181,8 @@ class SchemaManager(object):
         self.types_file = os.path.join(path, "nxdlTypes.xsd")
         if not os.path.exists(self.types_file):
             raise FileNotFound(self.types_file)
-        lxml_types_tree = lxml.etree.parse(self.types_file)
+        parser = lxml.etree.XMLParser(remove_comments=True, remove_pis=True)
+        lxml_types_tree = lxml.etree.parse(self.types_file, parser)
 
         db = {}
         root = lxml_types_tree.getroot()
-- 
2.43.0


From 631b3c2a32786a7adebde52cfae73e5e59fe349b Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 06:30:03 +0000
Subject: [PATCH 49/49] fix: a schema type could not follow the types built on
 it

---
 punx/nxdl_schema.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/punx/nxdl_schema.py b/punx/nxdl_schema.py
index 3fae40c..d0dda3e 100644
--- a/punx/nxdl_schema.py
+++ b/punx/nxdl_schema.py
@@ -527,7 +527,16 @@ class NXDL_item_catalog(object):
 
     def _parse_nxdl_complexType_nodes(self, root):
         # only look at root node children: 'xs:complexType', not '//xs:complexType'
-        for node in root.xpath("xs:complexType", namespaces=self.ns):
+        nodes = root.xpath("xs:complexType", namespaces=self.ns)
+        named = {node.attrib.get("name"): node for node in nodes}
+
+        def extensions(node):
+            """how many types is this one built on?  (these must be parsed before it)"""
+            base = node.xpath("string(xs:complexContent/xs:extension/@base)", namespaces=self.ns)
+            base = named.get(base.split(":")[-1])
+            return 0 if base is None else 1 + extensions(base)
+
+        for node in sorted(nodes, key=extensions):
             if "name" in node.attrib:
                 obj = NXDL_schema__complexType()
                 obj.parse(node, self.db)
-- 
2.43.0

