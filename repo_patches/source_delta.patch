From 8d312f8b96778d82ee3cd42b4dd5d898951d6dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:59 +0000
Subject: [PATCH 001/119] fix: renumber lines after dropping blank lines

---
 ciscoconfparse/ciscoconfparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 998817f..b17a4ac 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5827,6 +5827,8 @@ class ConfigList(MutableSequence):
                 if obj.text.strip() != "" or obj.blank_line_keep is True
             ]
             self._list = retval
+            # linenums are list indexes; renumber after dropping blank lines
+            self.reassign_linenums()
 
         return retval
 
-- 
2.43.0


From 9e011fb3d30c5b7f92a3858d346f05b301257d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 002/119] fix: keep parent and children consistent for closing
 braces; accept unmatched ones

---
 ciscoconfparse/ciscoconfparse.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index b17a4ac..95fb31a 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -540,14 +540,24 @@ def assign_parent_to_closing_braces(input_list=None, keep_blank_lines=False):
                     opening_brace_objs.append(obj)
 
                 elif len(obj.text.strip()) >= 1 and obj.text.strip()[0] == "}":
+                    # An unmatched closing brace is plain text (ref banners)
                     if len(opening_brace_objs) >= 1:
-                        obj.parent = opening_brace_objs.pop()
-                    else:
-                        raise ValueError
+                        move_child_to_parent(opening_brace_objs.pop(), obj)
 
     return input_list
 
 
+@logger.catch(reraise=True)
+def move_child_to_parent(parentobj=None, childobj=None):
+    """Make `childobj` a child of `parentobj`, and of no other object.  Children stay sorted by line number."""
+    oldparent = childobj.parent
+    if oldparent is not childobj:
+        oldparent.children = [obj for obj in oldparent.children if obj is not childobj]
+    childobj.parent = parentobj
+    parentobj.children.append(childobj)
+    parentobj.children.sort(key=lambda obj: obj.linenum)
+
+
 # This method was copied from the same method in git commit below...
 # https://raw.githubusercontent.com/mpenning/ciscoconfparse/bb3f77436023873da344377d3c839387f5131e7f/ciscoconfparse/ciscoconfparse.py
 @logger.catch(reraise=True)
-- 
2.43.0


From 6abadf3f8f85cca5dd6602ad4f4a8feb4be7275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 003/119] fix: list every banner and macro body line as a child
 exactly once

---
 ciscoconfparse/ciscoconfparse.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 95fb31a..b593291 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5633,9 +5633,8 @@ class ConfigList(MutableSequence):
                                 ),
                             )
                         # blank_line_keep for Github Issue #229
-                        parent.children.append(obj)
+                        move_child_to_parent(parent, obj)
                         parent.child_indent = 0
-                        obj.parent = parent
                         break
                     else:
                         # all non-banner-parent lines should hit this condition
@@ -5645,9 +5644,8 @@ class ConfigList(MutableSequence):
                     # Commenting the following lines out; fix Github issue #115
                     # elif obj.is_comment and (obj.indent == 0):
                     #    break
-                    parent.children.append(obj)
+                    move_child_to_parent(parent, obj)
                     parent.child_indent = 0
-                    obj.parent = parent
                     obj.blank_line_keep = True
 
                 except IndexError:
@@ -5675,8 +5673,7 @@ class ConfigList(MutableSequence):
                 cobj = self._list[idx]
                 # blank_line_keep for Github Issue #229
                 cobj.blank_line_keep = True
-                cobj.parent = pobj
-                pobj.children.append(cobj)
+                move_child_to_parent(pobj, cobj)
                 # If we hit the end of the macro, break out of the loop
                 if cobj.text.rstrip() == "@":
                     finished = True
-- 
2.43.0


From bc62b0323fc6a874f11cb9af58cc7d0324ec10df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:26 +0000
Subject: [PATCH 004/119] fix: accept a macro which is not terminated

---
 ciscoconfparse/ciscoconfparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index b593291..714a25a 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5670,6 +5670,9 @@ class ConfigList(MutableSequence):
             finished = False
             while not finished:
                 idx += 1
+                if idx >= len(self._list):
+                    # the macro's closing "@" is missing
+                    break
                 cobj = self._list[idx]
                 # blank_line_keep for Github Issue #229
                 cobj.blank_line_keep = True
-- 
2.43.0


From c79e7ae9274881c701fe279b39fe342b6e573ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 005/119] fix: look for the closing banner delimiter only after
 the opening one

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 714a25a..8989c9e 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5598,7 +5598,7 @@ class ConfigList(MutableSequence):
             while bannerdelimit is not None:
                 ## Check whether the banner line has both begin and end delimter
                 if idx == parent.linenum:
-                    parts = parent.text.split(bannerdelimit)
+                    parts = parent.text[mm.start("bchar"):].split(bannerdelimit)
                     if len(parts) > 2:
                         ## banner has both begin and end delimiter on one line
                         if self.debug > 0:
-- 
2.43.0


From b4616133594725c39d619520bf63812f2d3e619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:11 +0000
Subject: [PATCH 006/119] fix: do not confuse lines whose line number and text
 concatenate to the same string

---
 ciscoconfparse/ccp_abc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index bab75bf..1931f24 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -129,7 +129,7 @@ class BaseCfgLine(metaclass=ABCMeta):
     def __hash__(self):
         ##   I inlined the hash() argument below for speed... whenever I change
         ##   self.__eq__() I *must* change this
-        return hash(str(self.linenum) + self.text)
+        return hash((self.linenum, self.text))
 
     # On BaseCfgLine()
     @logger.catch(reraise=True)
@@ -150,8 +150,8 @@ class BaseCfgLine(metaclass=ABCMeta):
             ##   I added hash_arg() inline below for speed... whenever I change
             ##   self.__hash__() I *must* change this
             # FIXME
-            return hash(str(self.linenum) + self.text) == hash(
-                str(val.linenum) + val.text
+            return hash((self.linenum, self.text)) == hash(
+                (val.linenum, val.text)
             )
         except Exception:
             return False
-- 
2.43.0


From 6a9d18fdc9edc8ea502682bc8f562faed9f63fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 007/119] fix: accept a pathlib.Path configuration

---
 ciscoconfparse/ciscoconfparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 8989c9e..6b0d599 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -735,7 +735,10 @@ class CiscoConfParse(object):
         self.encoding = encoding or ENCODING
         self.read_only = read_only
 
-        if len(config) > 0:
+        if isinstance(config, pathlib.Path):
+            # A path is not iterable; there are no elements to check
+            elements_have_len = None
+        elif len(config) > 0:
             try:
                 correct_element_types = []
                 for ii in config:
-- 
2.43.0


From 60a974bdf31fba657047c713daa7f10df22574a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:41 +0000
Subject: [PATCH 008/119] fix: a newline at the end of a file starts no further
 line

---
 ciscoconfparse/ciscoconfparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 6b0d599..a50562b 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -910,6 +910,9 @@ class CiscoConfParse(object):
                 text = fh.read()
             rgx = re.compile(linesplit_rgx)
             config_lines = rgx.split(text)
+            if config_lines[-1] == "":
+                # The newline which ends the last line does not start another
+                config_lines.pop()
             return config_lines
 
         except OSError:
-- 
2.43.0


From e55576c2c6bbc5d405ef9c66238645ac36c16082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 009/119] fix: exactmatch requires the whole line to match
 every alternative

---
 ciscoconfparse/ciscoconfparse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index a50562b..d79a9f6 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1425,7 +1425,7 @@ class CiscoConfParse(object):
 
         elif exactmatch is True:
             # Return objects whose text attribute matches linespec exactly
-            linespec_re = re.compile("^{}$".format(dnaspec))
+            linespec_re = re.compile("^(?:{})$".format(dnaspec))
 
         return list(
             filter(lambda obj: linespec_re.search(obj.dna), self.ConfigObjs),
@@ -1512,7 +1512,7 @@ class CiscoConfParse(object):
         else:
             # Return the lines in self.ioscfg, which match (exactly) linespec
             return list(
-                filter(re.compile("^%s$" % linespec).search, self.ioscfg),
+                filter(re.compile("^(?:%s)$" % linespec).search, self.ioscfg),
             )
 
     # This method is on CiscoConfParse()
@@ -1560,7 +1560,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             parentobjs = self._find_line_OBJ(linespec)
         else:
-            parentobjs = self._find_line_OBJ("^%s$" % linespec)
+            parentobjs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         allobjs = set()
         for parent in parentobjs:
@@ -1640,7 +1640,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             parentobjs = self._find_line_OBJ(linespec)
         else:
-            parentobjs = self._find_line_OBJ("^%s$" % linespec)
+            parentobjs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         allobjs = set()
         for parent in parentobjs:
@@ -1753,7 +1753,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             objs = self._find_line_OBJ(linespec)
         else:
-            objs = self._find_line_OBJ("^%s$" % linespec)
+            objs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         for obj in objs:
             tmp.add(obj)
@@ -3953,7 +3953,7 @@ class CiscoConfParse(object):
             linespec_re = re.compile(linespec)
         elif exactmatch:
             # Return objects whose text attribute matches linespec exactly
-            linespec_re = re.compile("^%s$" % linespec)
+            linespec_re = re.compile("^(?:%s)$" % linespec)
 
         return list(
             filter(lambda obj: linespec_re.search(obj.text), self.ConfigObjs),
-- 
2.43.0


From b9de537d5cf0cedca408b3bbeafc72c0bcd9bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:32 +0000
Subject: [PATCH 010/119] fix: a BaseCfgLine childspec is the childspec

---
 ciscoconfparse/ciscoconfparse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index d79a9f6..dfd26cb 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1933,7 +1933,7 @@ class CiscoConfParse(object):
             raise InvalidParameters(error)
 
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws:
             parentspec = build_space_tolerant_regex(parentspec)
@@ -2332,7 +2332,7 @@ class CiscoConfParse(object):
             logger.error(error)
             raise InvalidParameters(error)
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws is True:
             parentspec = build_space_tolerant_regex(parentspec)
@@ -2710,7 +2710,7 @@ class CiscoConfParse(object):
             raise InvalidParameters(error)
 
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws:
             parentspec = build_space_tolerant_regex(parentspec)
-- 
2.43.0


From da33a6a5f13b271efce142a891c578d53009f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:01 +0000
Subject: [PATCH 011/119] fix: escape_chars and ignore_ws work together

---
 ciscoconfparse/ciscoconfparse.py | 37 ++++++++++++++++----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index dfd26cb..fe9b651 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -483,21 +483,22 @@ def cfgobj_from_text(
 @logger.catch(reraise=True)
 def build_space_tolerant_regex(linespec):
     r"""SEMI-PRIVATE: Accept a string, and return a string with all spaces replaced with '\s+'."""
-    # Define backslash with manual Unicode...
-    backslash = "\x5c"
-    # escaped_space = "\\s+" (not a raw string)
-    escaped_space = (backslash + backslash + "s+").translate("utf-8")
+    # Escaped characters are left alone, unless they are escaped whitespace
+    space_rgx = re.compile(r"(\\\S)|(?:\\?\s)+")
+
+    def tolerate_space(mm):
+        return mm.group(1) or r"\s+"
 
     enforce_valid_types(linespec, (str,), "linespec parameter must be a string.")
     if isinstance(linespec, str):
-        linespec = re.sub(r"\s+", escaped_space, linespec)
+        linespec = space_rgx.sub(tolerate_space, linespec)
 
     elif isinstance(linespec, Sequence):
         for idx, tmp in enumerate(linespec):
             # Ensure this list element is a string...
             if not isinstance(tmp, str):
                 raise ValueError("tmp parameter must be a string.")
-            linespec[idx] = re.sub(r"\s+", escaped_space, tmp)
+            linespec[idx] = space_rgx.sub(tolerate_space, tmp)
 
     return linespec
 
@@ -1935,10 +1936,6 @@ class CiscoConfParse(object):
         if isinstance(childspec, BaseCfgLine):
             childspec = childspec.text
 
-        if ignore_ws:
-            parentspec = build_space_tolerant_regex(parentspec)
-            childspec = build_space_tolerant_regex(childspec)
-
         if escape_chars is True:
             ###################################################################
             # Escape regex to avoid embedded parenthesis problems
@@ -1946,6 +1943,10 @@ class CiscoConfParse(object):
             parentspec = re.escape(parentspec)
             childspec = re.escape(childspec)
 
+        if ignore_ws:
+            parentspec = build_space_tolerant_regex(parentspec)
+            childspec = build_space_tolerant_regex(childspec)
+
         return list(
             filter(
                 lambda x: x.re_search_children(childspec, recurse=recurse),
@@ -2334,10 +2335,6 @@ class CiscoConfParse(object):
         if isinstance(childspec, BaseCfgLine):
             childspec = childspec.text
 
-        if ignore_ws is True:
-            parentspec = build_space_tolerant_regex(parentspec)
-            childspec = build_space_tolerant_regex(childspec)
-
         if escape_chars is True:
             ###################################################################
             # Escape regex to avoid embedded parenthesis problems
@@ -2345,6 +2342,10 @@ class CiscoConfParse(object):
             parentspec = re.escape(parentspec)
             childspec = re.escape(childspec)
 
+        if ignore_ws is True:
+            parentspec = build_space_tolerant_regex(parentspec)
+            childspec = build_space_tolerant_regex(childspec)
+
         return [
             obj
             for obj in self.find_objects(parentspec)
@@ -2712,10 +2713,6 @@ class CiscoConfParse(object):
         if isinstance(childspec, BaseCfgLine):
             childspec = childspec.text
 
-        if ignore_ws:
-            parentspec = build_space_tolerant_regex(parentspec)
-            childspec = build_space_tolerant_regex(childspec)
-
         if escape_chars is True:
             ######################################################################
             # Escape regex to avoid embedded parenthesis problems
@@ -2723,6 +2720,10 @@ class CiscoConfParse(object):
             parentspec = re.escape(parentspec)
             childspec = re.escape(childspec)
 
+        if ignore_ws:
+            parentspec = build_space_tolerant_regex(parentspec)
+            childspec = build_space_tolerant_regex(childspec)
+
         retval = set()
         parents = self.find_objects(parentspec)
         if recurse is False:
-- 
2.43.0


From 9192db417f240fcf802c43b919e036cd3380abd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 012/119] fix: find_child_objects uses the childspec as given

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index fe9b651..39425cf 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2732,7 +2732,7 @@ class CiscoConfParse(object):
                 # If recurse is False, only search direct children
                 ##############################################################
                 for child in parent.children:
-                    if child.re_match(rf"({childspec})", default=False):
+                    if child.re_match(childspec, group=0, default=None) is not None:
                         retval.add(child)
         else:
             for parent in parents:
@@ -2741,7 +2741,7 @@ class CiscoConfParse(object):
                 #    of the children
                 ##############################################################
                 for child in parent.all_children:
-                    if child.re_match(rf"({childspec})", default=False):
+                    if child.re_match(childspec, group=0, default=None) is not None:
                         retval.add(child)
 
         return sorted(retval)
-- 
2.43.0


From 7c1400bbea35e5b2f3d865cf92b60220e4368ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 013/119] fix: find_object_branches accepts a single-level
 branchspec

---
 ciscoconfparse/ciscoconfparse.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 39425cf..e2fc9e4 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1252,8 +1252,6 @@ class CiscoConfParse(object):
                 # Ensure we have the most recent branches...
                 branches = new_branches
 
-        branches = new_branches
-
         # If regex_groups is True, assign regexp matches to the return matrix.
         if regex_groups is True:
             return_matrix = []
-- 
2.43.0


From 7377403bc996dd387c09bd023105dedd6b62cab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 014/119] fix: re_match_iter_typed with groupdict looks at
 every child

---
 ciscoconfparse/ccp_abc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 1931f24..2ea75ae 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1389,12 +1389,13 @@ class BaseCfgLine(metaclass=ABCMeta):
             if recurse is False:
                 for cobj in self.children:
                     mm = re.search(regex, cobj.text)
-                    return self.get_typed_dict(
-                        regex=mm,
-                        type_dict=groupdict,
-                        default=default,
-                        debug=debug,
-                    )
+                    if isinstance(mm, re.Match):
+                        return self.get_typed_dict(
+                            regex=mm,
+                            type_dict=groupdict,
+                            default=default,
+                            debug=debug,
+                        )
                 return self.get_typed_dict(
                     regex=mm,
                     type_dict=groupdict,
-- 
2.43.0


From 50105885b2387fedd6ccdaf6a090c1dff67acabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 015/119] fix: find_object_branches applies regex_flags at
 every level

---
 ciscoconfparse/ciscoconfparse.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index e2fc9e4..76ba7ee 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1181,10 +1181,7 @@ class CiscoConfParse(object):
 
             # Get the child objects from parent objects
             if parent_obj is None:
-                children = self._find_line_OBJ(
-                    linespec=childspec,
-                    exactmatch=False,
-                )
+                children = self.ConfigObjs
             else:
                 children = parent_obj.children
 
@@ -1272,7 +1269,7 @@ class CiscoConfParse(object):
                         return_row[idx] = (None,)
 
                     else:
-                        regex_result = re.search(branchspec[idx], element.text)
+                        regex_result = re.search(branchspec[idx], element.text, regex_flags)
                         if regex_result is not None:
                             # Save all the regex capture groups in matched_capture...
                             matched_capture = regex_result.groups()
-- 
2.43.0


From 15cadb3b1532582a0a2c4d831283969b2aec4352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 016/119] fix: insert one new line at each line an insertion
 refers to

---
 ciscoconfparse/ccp_abc.py        | 12 ++--
 ciscoconfparse/ciscoconfparse.py | 99 ++++++++++++++------------------
 2 files changed, 49 insertions(+), 62 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 2ea75ae..28ae206 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -806,10 +806,10 @@ class BaseCfgLine(metaclass=ABCMeta):
             calling_filename, calling_lineno, calling_function, insertstr
         )
         if isinstance(insertstr, str) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr, atomic=False)
+            retval = self.confobj.insert_before(exist_val=self, new_val=insertstr, atomic=False)
 
         elif isinstance(insertstr, BaseCfgLine) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr.text, atomic=False)
+            retval = self.confobj.insert_before(exist_val=self, new_val=insertstr.text, atomic=False)
 
         else:
             raise ValueError(error)
@@ -825,7 +825,7 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         # Fail if insertstr is not the correct object type...
         #   only strings and *CfgLine() are allowed...
-        if not isinstance(insertstr, str) and not isinstance(insertstr, "BaseCfgLine"):
+        if not isinstance(insertstr, str) and not isinstance(insertstr, BaseCfgLine):
             error = "Cannot insert object type - %s" % type(insertstr)
             logger.error(error)
             raise NotImplementedError(error)
@@ -840,11 +840,11 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         if isinstance(insertstr, str) is True:
             # Handle insertion of a plain-text line
-            retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr, atomic=False)
+            retval = self.confobj.insert_after(exist_val=self, new_val=insertstr, atomic=False)
 
-        elif isinstance(insertstr, "BaseCfgLine"):
+        elif isinstance(insertstr, BaseCfgLine):
             # Handle insertion of a configuration line obj such as IOSCfgLine()
-            retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr.text, atomic=False)
+            retval = self.confobj.insert_after(exist_val=self, new_val=insertstr.text, atomic=False)
 
         else:
             error = "FATAL CALL: in {} line {} {}(insertstr='{}')".format(
diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 76ba7ee..412074a 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2895,11 +2895,11 @@ class CiscoConfParse(object):
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_before(
-                    exist_val, new_val_indent * " " + new_val.lstrip()
+                    _obj, new_val_indent * " " + new_val.lstrip()
                 )
             else:
                 # Does not force an indent on ``new_val``...
-                self.ConfigObjs.insert_before(exist_val, new_val)
+                self.ConfigObjs.insert_before(_obj, new_val)
 
         if atomic is True:
             self.atomic()
@@ -3013,11 +3013,11 @@ class CiscoConfParse(object):
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_after(
-                    exist_val, new_val_indent * " " + new_val.lstrip()
+                    _obj, new_val_indent * " " + new_val.lstrip()
                 )
             else:
                 # Does not force an indent on ``new_val``...
-                self.ConfigObjs.insert_after(exist_val, new_val)
+                self.ConfigObjs.insert_after(_obj, new_val)
 
         if atomic is True:
             self.atomic()
@@ -5230,6 +5230,37 @@ class ConfigList(MutableSequence):
         )
         return bool(matching_conftext)
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _new_line_obj(self, text):
+        """Build a new line object which belongs to this ConfigList()"""
+        if self.factory:
+            obj = config_line_factory(
+                all_lines=self._list,
+                line=text,
+                comment_delimiter=self.comment_delimiter,
+                syntax=self.syntax,
+            )
+        else:
+            obj = CFGLINE[self.syntax](
+                all_lines=self._list,
+                line=text,
+                comment_delimiter=self.comment_delimiter,
+            )
+        obj.confobj = self
+        return obj
+
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _insert_indexes(self, exist_val):
+        """Return the indexes of the lines which exist_val refers to; a string is a regular expression, an object refers to itself (or, if it is no longer in this ConfigList(), to lines with the same text)"""
+        if isinstance(exist_val, str):
+            return [idx for idx, obj in enumerate(self._list) if re.search(exist_val, obj.text)]
+        retval = [idx for idx, obj in enumerate(self._list) if obj is exist_val]
+        if retval == []:
+            retval = [idx for idx, obj in enumerate(self._list) if obj.text == exist_val.text]
+        return retval
+
     # This method is on ConfigList()
     @ junos_unsupported
     @ logger.catch(reraise=True)
@@ -5321,7 +5352,8 @@ class ConfigList(MutableSequence):
 
         # Matches "IOSCfgLine", "NXOSCfgLine" and "ASACfgLine"... (and others)
         elif isinstance(exist_val, BaseCfgLine):
-            exist_val = exist_val.text
+            # An object stands for that line, not for lines which look like it
+            pass
 
         else:
             logger.error(error)
@@ -5338,35 +5370,12 @@ class ConfigList(MutableSequence):
             logger.error(error)
             raise ValueError(error)
 
-        if self.factory is False:
-            new_obj = CFGLINE[self.syntax](
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-            )
-
-        elif self.factory is True:
-            new_obj = config_line_factory(
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-                syntax=self.syntax,
-            )
-
-        else:
-            logger.error(error)
-            raise ValueError(error)
-
         # Find all config lines which need to be modified... store in all_idx
 
-        all_idx = [
-            idx
-            for idx, list_obj in enumerate(self._list)
-            if re.search(exist_val, list_obj.text)
-        ]
+        all_idx = self._insert_indexes(exist_val)
         for idx in sorted(all_idx, reverse=True):
             # insert at idx - 0 implements 'insert_before()'...
-            self._list.insert(idx, new_obj)
+            self._list.insert(idx, self._new_line_obj(new_val))
 
         if atomic:
             # Reparse the whole config as a text list
@@ -5443,7 +5452,8 @@ class ConfigList(MutableSequence):
 
         # Matches "IOSCfgLine", "NXOSCfgLine" and "ASACfgLine"... (and others)
         elif isinstance(exist_val, BaseCfgLine):
-            exist_val = exist_val.text
+            # An object stands for that line, not for lines which look like it
+            pass
 
         else:
             logger.error(err_txt)
@@ -5460,34 +5470,11 @@ class ConfigList(MutableSequence):
             logger.error(err_txt)
             raise ValueError(err_txt)
 
-        if self.factory is False:
-            new_obj = CFGLINE[self.syntax](
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-            )
-
-        elif self.factory is True:
-            new_obj = config_line_factory(
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-                syntax=self.syntax,
-            )
-
-        else:
-            logger.error(err_txt)
-            raise ValueError(err_txt)
-
         # Find all config lines which need to be modified... store in all_idx
 
-        all_idx = [
-            idx
-            for idx, list_obj in enumerate(self._list)
-            if re.search(exist_val, list_obj._text)
-        ]
+        all_idx = self._insert_indexes(exist_val)
         for idx in sorted(all_idx, reverse=True):
-            self._list.insert(idx + 1, new_obj)
+            self._list.insert(idx + 1, self._new_line_obj(new_val))
 
         if atomic is True:
             # Reparse the whole config as a text list
-- 
2.43.0


From 49a1d8ffa1ec74f0605671802255e041b4045afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 017/119] fix: insert and prepend_line work with factory=True

---
 ciscoconfparse/ciscoconfparse.py | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 412074a..ad0de29 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5493,23 +5493,7 @@ class ConfigList(MutableSequence):
 
         # Coerce a string into the appropriate object
         if getattr(val, "capitalize", False):
-            if self.factory:
-                obj = config_line_factory(
-                    text=val,
-                    comment_delimiter=self.comment_delimiter,
-                    syntax=self.syntax,
-                )
-
-            elif self.factory is False:
-                obj = CFGLINE[self.syntax](
-                    text=val,
-                    comment_delimiter=self.comment_delimiter,
-                )
-
-            else:
-                err_txt = 'insert() cannot insert "{}"'.format(val)
-                logger.error(err_txt)
-                raise ValueError(err_txt)
+            obj = self._new_line_obj(val)
         else:
             err_txt = 'insert() cannot insert "{}"'.format(val)
             logger.error(err_txt)
-- 
2.43.0


From 09a12a76f478b622ad8e8698e54f24b1f1741426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:56 +0000
Subject: [PATCH 018/119] fix: append_line appends the given text

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index ad0de29..8ec6a70 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3108,7 +3108,7 @@ class CiscoConfParse(object):
             logger.error(error)
             raise InvalidParameters(error)
         elif isinstance(linespec, (int, str, float)):
-            self.ConfigObjs.append(IOSCfgLine(str(linespec)))
+            self.ConfigObjs.append(IOSCfgLine(line=str(linespec)))
         elif isinstance(linespec, IOSCfgLine):
             self.ConfigObjs.append(linespec)
         else:
-- 
2.43.0


From 2c970d81e42895cfc711689321132aabbe6ae246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 019/119] fix: insert_after_child commits after the last
 insertion

---
 ciscoconfparse/ciscoconfparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 8ec6a70..85e68a6 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3060,11 +3060,14 @@ class CiscoConfParse(object):
                         self.ConfigObjs.insert_after(
                             cobj,
                             insertstr,
-                            atomic=atomic,
+                            atomic=False,
                         ),
                     )
                 else:
                     pass
+        # reparse once all lines are inserted; the line objects are replaced
+        if atomic:
+            self.atomic()
         return retval
 
     # This method is on CiscoConfParse()
-- 
2.43.0


From 3adf209823e45a16a5a26e2a6941684b8d03bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 020/119] fix: junos_unsupported passes return values on

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 8fc9724..5482ce3 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -464,7 +464,7 @@ def junos_unsupported(func):
                 syntax = args[0].confobj.syntax
         if syntax == "junos":
             logger.warning(warn, UnsupportedFeatureWarning)
-        func(*args, **kwargs)
+        return func(*args, **kwargs)
 
     return wrapper
 
-- 
2.43.0


From 11c7bd14c98e1eae60355c211dbf64eb64527e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 021/119] fix: delete removes exactly the targeted lines and
 unlinks them

---
 ciscoconfparse/ccp_abc.py | 66 +++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 28ae206..09cebe0 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -670,6 +670,17 @@ class BaseCfgLine(metaclass=ABCMeta):
         if self.confobj.debug >= 1:
             logger.info("{}.delete(recurse={}) was called.".format(self, recurse))
 
+        # linenums could be stale after list operations such as pop()...
+        self.confobj.reassign_linenums()
+
+        if not any(obj is self for obj in self.confobj._list):
+            # This object was already deleted (linenum is -1), or it was
+            # replaced when the configuration was reparsed...
+            for obj in self.confobj._list:
+                if obj == self:
+                    return obj.delete(recurse=recurse)
+            return True
+
         # Build a set of all IOSCfgLine() object instances to be deleted...
         delete_these = set(
             {
@@ -678,45 +689,34 @@ class BaseCfgLine(metaclass=ABCMeta):
         )
 
         if recurse is True:
-            if self.confobj.debug >= 1:
-                logger.debug(
-                    "Executing <IOSCfgLine line #{}>.delete(recurse=True)".format(
-                        self.linenum
-                    )
-                )
-
             # NOTE - 1.5.30 changed this from iterating over self.children
             #        to self.all_children
             for child in self.all_children:
                 delete_these.add(child)
 
-            # reverse is important here so we can delete a range of line numbers
-            # without clobbering the line numbers that haven't been deleted
-            # yet...
-            for obj in sorted(delete_these, reverse=True):
-                linenum = obj.linenum
-                if self.confobj.debug >= 1:
-                    logger.debug(
-                        "    Deleting <IOSCfgLine(line # {})>.".format(linenum)
-                    )
-                del self.confobj._list[linenum]
+        delete_ids = {id(obj) for obj in delete_these}
+        if self.confobj.debug >= 1:
+            logger.debug("    Deleting {}.".format(delete_these))
+        self.confobj._list[:] = [
+            obj for obj in self.confobj._list if id(obj) not in delete_ids
+        ]
+        for obj in delete_these:
+            obj.linenum = -1
 
-        else:
-            if self.confobj.debug >= 1:
-                logger.debug(
-                    "Executing <IOSCfgLine line #{}>.delete(recurse=False)".format(
-                        self.linenum
-                    )
-                )
-            ## Consistency check to refuse deletion of the wrong object...
-            ##    only delete if the line numbers are consistent
-            text = self.text
-            linenum = self.linenum
-            assert self.confobj._list[linenum].text == text
+        # The parent must not refer to a deleted child...
+        if self.parent is not self:
+            self.parent.children = [
+                obj for obj in self.parent.children if obj is not self
+            ]
 
-            if self.confobj.debug >= 1:
-                logger.debug("    Deleting <IOSCfgLine(line # {})>.".format(linenum))
-            del self.confobj._list[linenum]
+        if recurse is not True:
+            # The children belong to the closest remaining ancestor...
+            for child in self.children:
+                child.parent = child if self.parent is self else self.parent
+                if self.parent is not self:
+                    self.parent.children.append(child)
+            self.children = []
+            self.parent.children.sort()
 
         self.confobj.reassign_linenums()
         return True
@@ -772,7 +772,7 @@ class BaseCfgLine(metaclass=ABCMeta):
         """
         # if / else in a list comprehension... ref ---> https://stackoverflow.com/a/9442777/667301
         retval = [
-            (obj.delete() if obj.re_search(linespec) else obj) for obj in self.children
+            (obj.delete() if obj.re_search(linespec) else obj) for obj in list(self.children)
         ]
         return retval
 
-- 
2.43.0


From a737685f2e3b1f6186fef0734ae2f3d615a44c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:40 +0000
Subject: [PATCH 022/119] fix: re_sub and text assignment keep indent and
 family consistent

---
 ciscoconfparse/ccp_abc.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 09cebe0..e1017a3 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -395,7 +395,7 @@ class BaseCfgLine(metaclass=ABCMeta):
     @text.setter
     @logger.catch(reraise=True)
     def text(self, newtext=None):
-        """Set self.text, self.indent, self.line_id (and all comments' self.parent)"""
+        """Set self.text, self.indent, self.line_id"""
         # FIXME - children do not associate correctly if this is used as-is...
         if not isinstance(newtext, str):
             error = f"text=`{newtext}` is an invalid config line"
@@ -420,11 +420,9 @@ class BaseCfgLine(metaclass=ABCMeta):
         self._text = newtext_
         self.line_id = self.calculate_line_id()
 
+        # self.parent does not change here; that happens when the configuration
+        # is reparsed.  Otherwise self would still be one of parent's children
         self.set_comment_bool()
-        if self.is_comment is True:
-            # VERY IMPORTANT: due to old behavior, comment parents MUST be self
-            #
-            self.parent = self
 
     # On BaseCfgLine()
     @logger.catch(reraise=True)
@@ -1089,9 +1087,9 @@ class BaseCfgLine(metaclass=ABCMeta):
             self.delete()
             return
 
-        self._text = retval
-        self.set_comment_bool()
-        return retval
+        # the indent follows the text
+        self.text = retval
+        return self.text
 
     # On BaseCfgLine()
     def re_match(self, regex, group=1, default=""):
-- 
2.43.0


From 303b94125a90cd38dbef9dc0247c25a7bc16ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 023/119] fix: replace_all_children replaces once in every
 descendant

---
 ciscoconfparse/ciscoconfparse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 85e68a6..9341d6c 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3337,6 +3337,7 @@ class CiscoConfParse(object):
     ):
         """Replace lines matching `childspec` within all children (recursive) of lines whilch match `parentspec`"""
         retval = list()
+        seen = set()
         ## Since we are replacing text, we *must* operate on ConfigObjs
         childspec_re = re.compile(childspec)
         if excludespec:
@@ -3345,7 +3346,11 @@ class CiscoConfParse(object):
             if excludespec and excludespec_re.search(pobj.text):
                 # Exclude replacements on pobj lines which match excludespec
                 continue
-            for cobj in self._find_all_child_OBJ(pobj):
+            for cobj in pobj.all_children:
+                if id(cobj) in seen:
+                    # An offspring of several matching parents
+                    continue
+                seen.add(id(cobj))
                 if excludespec and excludespec_re.search(cobj.text):
                     # Exclude replacements on pobj lines which match excludespec
                     continue
-- 
2.43.0


From ca6057de6e2d6c59572797b25cf32221cd4b9428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:06 +0000
Subject: [PATCH 024/119] fix: replacements honour atomic=True without the
 factory

---
 ciscoconfparse/ciscoconfparse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 9341d6c..7eb8c5f 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3232,7 +3232,7 @@ class CiscoConfParse(object):
                 continue
             retval.append(obj.re_sub(linespec, replacestr))
 
-        if self.factory and atomic:
+        if atomic:
             self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
 
         return retval
@@ -3320,7 +3320,7 @@ class CiscoConfParse(object):
                 else:
                     pass
 
-        if self.factory and atomic:
+        if atomic:
             self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
         return retval
 
@@ -3359,7 +3359,7 @@ class CiscoConfParse(object):
                 else:
                     pass
 
-        if self.factory and atomic:
+        if atomic:
             self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
 
         return retval
-- 
2.43.0


From 18106fe6aa760cc4168496a360ce8f9058d8876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:31 +0000
Subject: [PATCH 025/119] fix: nxos static routes start with the word route

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 1f67686..bbc2c88 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2151,7 +2151,7 @@ class NXOSRouteLine(BaseNXOSRouteLine):
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
-        if (line[0:8] == "ip route") or (line[0:11] == "ipv6 route "):
+        if (line[0:9] == "ip route ") or (line[0:11] == "ipv6 route "):
             return True
         return False
 
-- 
2.43.0


From 8dd4209727b6aab6bbfee36febf77ae67da205cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:02 +0000
Subject: [PATCH 026/119] fix: accept the longest IPv6 text form in IPv6Obj

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 5482ce3..78d1245 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -80,7 +80,7 @@ IPV4_MAXINT = 4294967295
 # Maximum ipv6 as an integer
 IPV6_MAXINT = 340282366920938463463374607431768211455
 IPV4_MAXSTR_LEN = 31  # String length with periods, slash, and netmask
-IPV6_MAXSTR_LEN = 39 + 4  # String length with colons, slash and masklen
+IPV6_MAXSTR_LEN = 45 + 4  # String length with colons, slash and masklen
 
 IPV4_MAX_PREFIXLEN = 32
 IPV6_MAX_PREFIXLEN = 128
-- 
2.43.0


From dec3acc261d41ef7469bb5ecae339e49ababd7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:08 +0000
Subject: [PATCH 027/119] fix: IPv6Obj rejects malformed addresses

---
 ciscoconfparse/ccp_util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 78d1245..7ab9a5c 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -107,7 +107,7 @@ _IPV6_REGEX_STR = r"""(?!:::\S+?$)             # Negative Lookahead for 3 colons
 |(?P<opt9>:(?::{0}){{1,7}})                    # ipv6 with leading double colons
 |(?P<opt10>(?:{0}:){{1,7}}:)                   # ipv6 with trailing double colons
 |(?P<opt11>(?:::))                             # ipv6 bare double colons (default route)
-)([/\s](?P<masklen>\d+))*                      # match 'masklen' and end 'addr' group
+)([/\s](?P<masklen>\d+))?                      # match 'masklen' and end 'addr' group
 """.format(_IPV6_RGX_CLS)
 
 _IPV6_REGEX_STR_COMPRESSED1 = r"""(?!:::\S+?$)(?P<addr1>(?P<opt1_1>{0}(?::{0}){{7}})|(?P<opt1_2>(?:{0}:){{1}}(?::{0}){{1,6}})|(?P<opt1_3>(?:{0}:){{2}}(?::{0}){{1,5}})|(?P<opt1_4>(?:{0}:){{3}}(?::{0}){{1,4}})|(?P<opt1_5>(?:{0}:){{4}}(?::{0}){{1,3}})|(?P<opt1_6>(?:{0}:){{5}}(?::{0}){{1,2}})|(?P<opt1_7>(?:{0}:){{6}}(?::{0}){{1,1}})|(?P<opt1_8>:(?::{0}){{1,7}})|(?P<opt1_9>(?:{0}:){{1,7}}:)|(?P<opt1_10>(?:::)))""".format(_IPV6_RGX_CLS)
@@ -1867,7 +1867,9 @@ class IPv6Obj(object):
             else:
                 raise NotImplementedError(v6addr_prefixlen.strip())
 
-            v6_str_rgx = _RGX_IPV6ADDR.search(v6addr_prefixlen.strip())
+            v6_str_rgx = _RGX_IPV6ADDR.fullmatch(v6addr_prefixlen.strip())
+            if v6_str_rgx is None:
+                raise AddressValueError(f"Could not parse '{v6addr_prefixlen}' into an IPv6 Address")
             # Example 'v6_groupdict'
             #     v6_groupdict = {'addr': '2b00:cd80:14:10::1', 'opt1': None, 'opt2': None, 'opt3': None, 'opt4': None, 'opt5': '2b00:cd80:14:10::1', 'opt6': None, 'opt7': None, 'opt8': None, 'opt9': None, 'opt10': None, 'masklen': '64'}
             v6_groupdict = v6_str_rgx.groupdict()
-- 
2.43.0


From 07a77c4fcdf770801c551d1c05e27e6f7a6f647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:15 +0000
Subject: [PATCH 028/119] fix: add the missing IPv6Obj.prefixlength setter

---
 ciscoconfparse/ccp_util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 7ab9a5c..1ebac09 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2201,6 +2201,11 @@ class IPv6Obj(object):
         """Returns the length of the network mask as an integer."""
         return self.prefixlen
 
+    @prefixlength.setter
+    def prefixlength(self, arg):
+        """prefixlength setter method"""
+        self.network_object = IPv6Network(f"{str(self.ip_object)}/{arg}", strict=False)
+
     # On IPv6Obj()
     @property
     def compressed(self):
-- 
2.43.0


From 89f49e4c0c338b3d6f1d68ac781e998f1d982f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:22 +0000
Subject: [PATCH 029/119] fix: network_offset covers exactly the addresses of
 the network

---
 ciscoconfparse/ccp_util.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 1ebac09..79b0718 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1553,10 +1553,8 @@ class IPv4Obj(object):
     # On IPv4Obj()
     @property
     def network_offset(self):
-        """Returns the integer difference between host number and network number.  This must be less than `numhosts`"""
+        """Returns the integer difference between host number and network number."""
         offset = self.as_decimal - self.as_decimal_network
-        if offset > self.numhosts:
-            raise RequirementFailure()
         return offset
 
     # do NOT wrap with @logger.catch(...)
@@ -1580,7 +1578,7 @@ class IPv4Obj(object):
             arg = int(arg)
             # get the max offset for this subnet...
             max_offset = self.as_decimal_broadcast - self.as_decimal_network
-            if arg <= max_offset:
+            if 0 <= arg <= max_offset:
                 self.ip_object = IPv4Address(self.as_decimal_network + arg)
             else:
                 raise AddressValueError(f"{self}.network_offset({arg=}) exceeds the boundaries of '{self.as_cidr_net}'")
@@ -2240,10 +2238,8 @@ class IPv6Obj(object):
     # On IPv6Obj()
     @property
     def network_offset(self):
-        """Returns the integer difference between host number and network number.  This must be less than `numhosts`"""
+        """Returns the integer difference between host number and network number."""
         offset = self.as_decimal - self.as_decimal_network
-        if offset > self.numhosts:
-            raise RequirementFailure()
         return offset
 
     # do NOT wrap with @logger.catch(...)
@@ -2267,7 +2263,7 @@ class IPv6Obj(object):
             arg = int(arg)
             # get the max offset for this subnet...
             max_offset = self.as_decimal_network_maxint - self.as_decimal_network
-            if arg <= max_offset:
+            if 0 <= arg <= max_offset:
                 self.ip_object = IPv6Address(self.as_decimal_network + arg)
             else:
                 raise AddressValueError(f"{self}.network_offset({arg=}) exceeds the boundaries of '{self.as_cidr_net}'")
-- 
2.43.0


From 1d3f7e3d964d86314ae8795c56fe0502606a880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 030/119] fix: subtraction may yield the highest IP address

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 79b0718..70c6da3 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1321,7 +1321,7 @@ class IPv4Obj(object):
 
         orig_prefixlen = self.prefixlen
         total = self.as_decimal - val
-        if total >= IPV4_MAXINT:
+        if total > IPV4_MAXINT:
             raise RequirementFailure("Max IPv4 integer exceeded")
         if total < 0:
             raise RequirementFailure("Min IPv4 integer exceeded")
@@ -2038,7 +2038,7 @@ class IPv6Obj(object):
 
         orig_prefixlen = self.prefixlen
         total = self.as_decimal - val
-        if total >= IPV6_MAXINT:
+        if total > IPV6_MAXINT:
             raise RequirementFailure("Max IPv6 integer exceeded")
         if total < 0:
             raise RequirementFailure("Min IPv6 integer exceeded")
-- 
2.43.0


From 120df7e375fa92118d8bc4a9dd1662c4d96522c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 031/119] fix: IPv6Obj containment compares the last addresses

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 70c6da3..7d19f52 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2059,7 +2059,7 @@ class IPv6Obj(object):
             else:
                 # NOTE: We cannot use the same algorithm as IPv4Obj.__contains__() b/c IPv6Obj has no broadcast
                 comparison_01 = (self.as_decimal_network <= val.as_decimal_network)
-                comparison_02 = (self.as_decimal_network + self.numhosts - 1) >= (val.as_decimal_network + val.numhosts - 1)
+                comparison_02 = self.as_decimal_network_maxint >= val.as_decimal_network_maxint
                 return comparison_01 and comparison_02
 
         except BaseException as eee:
-- 
2.43.0


From 350260829a0dcf8ddc84ae2df4763175e1081fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:52 +0000
Subject: [PATCH 032/119] fix: IPv4 and IPv6 objects are never equal

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 7d19f52..476a91f 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1186,7 +1186,7 @@ class IPv4Obj(object):
                         return False
 
             # Compare objects numerically...
-            if self.as_decimal == val.as_decimal and self.prefixlen == val.prefixlen:
+            if self.version == val.version and self.as_decimal == val.as_decimal and self.prefixlen == val.prefixlen:
                 return True
             return False
         except AttributeError as eee:
@@ -1927,7 +1927,7 @@ class IPv6Obj(object):
                         return False
 
             # Compare objects numerically...
-            if self.as_decimal == val.as_decimal and self.prefixlen == val.prefixlen:
+            if self.version == val.version and self.as_decimal == val.as_decimal and self.prefixlen == val.prefixlen:
                 return True
             return False
         except BaseException as eee:
-- 
2.43.0


From ea2e3e37039879500a7bef6879da7578bfdcfff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:03 +0000
Subject: [PATCH 033/119] fix: order interface components numerically, with
 missing components first

---
 ciscoconfparse/ccp_util.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 476a91f..8859927 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2958,6 +2958,19 @@ def reverse_dns_lookup(input_str, timeout=3.0, server="4.2.2.2", proto="udp"):
     return retval
 
 
+def _interface_sort_key(sort_list):
+    """Return a key which orders interface components: a missing component is first, numbers are compared as numbers and words are last."""
+    retval = []
+    for component in sort_list:
+        if component is None:
+            retval.append((0, 0, ""))
+        elif str(component).isdigit():
+            retval.append((1, int(component), ""))
+        else:
+            retval.append((2, 0, str(component)))
+    return retval
+
+
 class CiscoIOSInterface(object):
     interface_name = None
     interface_dict = None
@@ -3498,7 +3511,7 @@ class CiscoIOSInterface(object):
     @logger.catch(reraise=True)
     def __gt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list > other.sort_list:
+        if _interface_sort_key(self.sort_list) > _interface_sort_key(other.sort_list):
             return True
         return False
 
@@ -3506,7 +3519,7 @@ class CiscoIOSInterface(object):
     @logger.catch(reraise=True)
     def __lt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list < other.sort_list:
+        if _interface_sort_key(self.sort_list) < _interface_sort_key(other.sort_list):
             return True
         return False
 
@@ -4382,7 +4395,7 @@ class CiscoIOSXRInterface(object):
     @logger.catch(reraise=True)
     def __gt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list > other.sort_list:
+        if _interface_sort_key(self.sort_list) > _interface_sort_key(other.sort_list):
             return True
         return False
 
@@ -4390,7 +4403,7 @@ class CiscoIOSXRInterface(object):
     @logger.catch(reraise=True)
     def __lt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list < other.sort_list:
+        if _interface_sort_key(self.sort_list) < _interface_sort_key(other.sort_list):
             return True
         return False
 
-- 
2.43.0


From cb7e981931a30a7cbbc4a7f758bb80bcb286ea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 034/119] fix: accept the dict of
 CiscoIOSXRInterface.as_dict(), which has a processor key

---
 ciscoconfparse/ccp_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 8859927..d28dec9 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4147,13 +4147,13 @@ class CiscoIOSXRInterface(object):
             logger.error(error)
             raise ValueError(error)
 
-        if len(interface_dict.keys()) != 8:
-            error = f"CiscoIOSXRInterface() `interface_dict`: must have exactly 8 dictionary keys, but {len(interface_dict.keys())} were found."
+        if len(interface_dict.keys()) != 9:
+            error = f"CiscoIOSXRInterface() `interface_dict`: must have exactly 9 dictionary keys, but {len(interface_dict.keys())} were found."
             logger.error(error)
             raise ValueError(error)
 
         for attr_name in set(interface_dict.keys()):
-            if attr_name not in {"prefix", "slot", "card", "port", "digit_separator", "subinterface", "channel", "interface_class"}:
+            if attr_name not in {"prefix", "slot", "card", "processor", "port", "digit_separator", "subinterface", "channel", "interface_class"}:
                 error = f"'{attr_name}' is not a valid `attribute_dict` key"
                 logger.critical(error)
                 raise KeyError(error)
-- 
2.43.0


From 9d4f483d33baac767b10c37996d6dbb04e8a68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:16 +0000
Subject: [PATCH 035/119] fix: keep the subinterface, channel and class of long
 IOS-XR interface names

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index d28dec9..4d7cdf3 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4071,7 +4071,7 @@ class CiscoIOSXRInterface(object):
             raise InvalidCiscoInterface(error)
 
         re_intf_short = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<port_subinterface_channel>[\d\:\.^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$", interface_name.strip())
-        re_intf_long = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<slot_card_port_subinterface_channel>(?P<slot>[a-zA-Z0-9]+)(?P<sep1>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<card>[a-zA-Z0-9]+)?(?P<sep2>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<processor>[a-zA-Z0-9]+)?(?P<sep3>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<port>[a-zA-Z0-9]+)?)", interface_name.strip())
+        re_intf_long = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<slot_card_port_subinterface_channel>(?P<slot>[a-zA-Z0-9]+)(?P<sep1>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<card>[a-zA-Z0-9]+)?(?P<sep2>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<processor>[a-zA-Z0-9]+)?(?P<sep3>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<port>[a-zA-Z0-9]+)?(?:\.\d+)?(?:\:\d+)?(?:\s+[a-zA-Z\-]+)?)", interface_name.strip())
         re_any = re.search(r".*", interface_name.strip())
         if isinstance(re_intf_short, re.Match):
 
-- 
2.43.0


From 4e0157daeea94c457b520efeff2922b4a5b460b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:31 +0000
Subject: [PATCH 036/119] fix: support every component combination in
 slot_card_port_subinterface_channel

---
 ciscoconfparse/ccp_util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 4d7cdf3..4fa65ee 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -3679,6 +3679,9 @@ class CiscoIOSInterface(object):
             return f"{self.slot}{self.digit_separator}{self.port}{_interface_class}"
         elif self.slot is None and self.card is None and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
             return f"{self.port}{_interface_class}"
+        elif isinstance(self.port, (int, str)):
+            # Any other combination of slot, card, subinterface and channel...
+            return self.render_as_string()[len(self.prefix):]
         else:
             error = "Could not construct a return value for CiscoIOSInterface().slot_card_port_subinterface_channel.  digit_separator: {self.digit_separator} sort_list: {self.sort_list}"
             logger.error(error)
-- 
2.43.0


From c1a76997a9a5cafd065800dac4e520209c8e0044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:34 +0000
Subject: [PATCH 037/119] fix: read IOS-XR interface classes which contain
 digits, such as l2transport

---
 ciscoconfparse/ccp_util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 4fa65ee..a62c31d 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4073,8 +4073,8 @@ class CiscoIOSXRInterface(object):
             logger.critical(error)
             raise InvalidCiscoInterface(error)
 
-        re_intf_short = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<port_subinterface_channel>[\d\:\.^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$", interface_name.strip())
-        re_intf_long = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<slot_card_port_subinterface_channel>(?P<slot>[a-zA-Z0-9]+)(?P<sep1>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<card>[a-zA-Z0-9]+)?(?P<sep2>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<processor>[a-zA-Z0-9]+)?(?P<sep3>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<port>[a-zA-Z0-9]+)?(?:\.\d+)?(?:\:\d+)?(?:\s+[a-zA-Z\-]+)?)", interface_name.strip())
+        re_intf_short = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<port_subinterface_channel>[\d\:\.^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-][a-zA-Z0-9\-]*){0,1}$", interface_name.strip())
+        re_intf_long = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<slot_card_port_subinterface_channel>(?P<slot>[a-zA-Z0-9]+)(?P<sep1>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<card>[a-zA-Z0-9]+)?(?P<sep2>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<processor>[a-zA-Z0-9]+)?(?P<sep3>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<port>[a-zA-Z0-9]+)?(?:\.\d+)?(?:\:\d+)?(?:\s+[a-zA-Z\-][a-zA-Z0-9\-]*)?)", interface_name.strip())
         re_any = re.search(r".*", interface_name.strip())
         if isinstance(re_intf_short, re.Match):
 
@@ -4214,7 +4214,7 @@ class CiscoIOSXRInterface(object):
         else:
             _channel = None
 
-        re_interface_class = re.search(r"(?P<interface_class>\s+[a-zA-Z\-]+)$", _slot_card_port_subinterface_channel)
+        re_interface_class = re.search(r"(?P<interface_class>\s+[a-zA-Z\-][a-zA-Z0-9\-]*)$", _slot_card_port_subinterface_channel)
         if isinstance(re_interface_class, re.Match):
             _interface_class = str(re_interface_class.groupdict()["interface_class"])
         else:
@@ -4320,7 +4320,7 @@ class CiscoIOSXRInterface(object):
                 else:
                     _channel = None
 
-                re_interface_class = re.search(r"(?P<interface_class>\s+[a-zA-Z\-]+)$", _slot_card_port_subinterface_channel)
+                re_interface_class = re.search(r"(?P<interface_class>\s+[a-zA-Z\-][a-zA-Z0-9\-]*)$", _slot_card_port_subinterface_channel)
                 if isinstance(re_interface_class, re.Match):
                     _interface_class = str(re_interface_class.groupdict()["interface_class"])
                 else:
-- 
2.43.0


From 50e96c8b17628981cd8df2a03a4ce9fbcc4758c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:57 +0000
Subject: [PATCH 038/119] fix: CiscoRange().as_list() must not change the range

---
 ciscoconfparse/ccp_util.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index a62c31d..4f72dce 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5410,17 +5410,6 @@ class CiscoRange(MutableSequence):
     @logger.catch(reraise=True)
     def as_list(self, result_type="auto"):
         """Return a list of sorted components; an empty string is automatically rejected.  This method is tricky to test due to the requirement for the `.sort_list` attribute on all elements; avoid using the ordered nature of `as_list` and use `as_set`."""
-        # WAS DEEPCOPY
-        yy_list = copy.deepcopy(self._list)
-        for ii in self._list:
-            if isinstance(ii, str) and ii == "":
-                # Reject an empty string...
-                continue
-            if getattr(ii, "sort_list", None) is not None:
-                # Require the .sort_list attribute...
-                yy_list.append(ii)
-
-        self._list = yy_list
         try:
             # Disable linter qa checks on this embedded list syntax...
             retval = sorted(set(self._list), reverse=self.reverse) # noqa
@@ -5429,10 +5418,10 @@ class CiscoRange(MutableSequence):
                     result_type = self.member_type
                     return [result_type(ii) for ii in retval]
                 else:
-                    return set()
+                    return list()
             elif result_type is None:
                 return [CiscoIOSInterface(ii) for ii in retval]
-            elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+            elif result_type in (CiscoIOSInterface, CiscoIOSXRInterface):
                 return [result_type(ii) for ii in retval]
             elif result_type is str:
                 return [str(ii) for ii in retval]
-- 
2.43.0


From c177dc53ad26172fece24062334b44b507899b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:03 +0000
Subject: [PATCH 039/119] fix: CiscoRange().as_set() with the default
 result_type

---
 ciscoconfparse/ccp_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 4f72dce..2a16d4f 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5448,13 +5448,13 @@ class CiscoRange(MutableSequence):
         retval = set(self._list)
         if result_type == "auto":
             if len(self._list) > 0:
-                result_type = type(self.as_list[0])
+                result_type = self.member_type
                 return set([result_type(ii) for ii in retval])
             else:
-                return list()
+                return set()
         elif result_type is None:
             return set([CiscoIOSInterface(ii) for ii in retval])
-        elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+        elif result_type in (CiscoIOSInterface, CiscoIOSXRInterface):
             return set([result_type(ii) for ii in retval])
         elif result_type is str:
             return set([str(ii) for ii in retval])
-- 
2.43.0


From b96486c1e19f91fe34242ddebfe898c487dece5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:10 +0000
Subject: [PATCH 040/119] fix: keep integer CiscoRange() members in ascending
 order

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 2a16d4f..0ca74ce 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4874,7 +4874,7 @@ class CiscoRange(MutableSequence):
                 continue
 
         # De-duplicate the list of integers and return it...
-        return list(set([int(ii) for ii in integers]))
+        return sorted(set([int(ii) for ii in integers]))
 
     # This method is on CiscoRange()
     @logger.catch(reraise=True)
-- 
2.43.0


From 1e1eff7bf9fa04b4d1caf2f3a638aa3ed5f63086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:34 +0000
Subject: [PATCH 041/119] fix: support a hyphen in the interface type or class
 of a CiscoRange()

---
 ciscoconfparse/ccp_util.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 0ca74ce..4315e0a 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4904,6 +4904,9 @@ class CiscoRange(MutableSequence):
             _result_type = CiscoIOSInterface
 
         for idx, _csv_part in enumerate(csv_parts):
+            # Split the begin and end ordinals, such as '1' and '3' in 'Port-channel1-3'
+            _range_parts = re.split(r"(?<=\d)\s*-\s*(?=\d)", _csv_part)
+
 
             if debug is True:
                 logger.info(f"    CiscoRange() idx: {idx} for --> _csv_part: {_csv_part} <--")
@@ -4913,7 +4916,7 @@ class CiscoRange(MutableSequence):
             ##################################################################
             if idx == 0:
                 # Set the begin_obj...
-                begin_obj = _result_type(_csv_part.split("-")[0])
+                begin_obj = _result_type(_range_parts[0])
                 self.begin_obj = begin_obj
                 self.this_obj = _result_type(interface_dict=begin_obj.as_dict(), debug=debug)
                 intf_dict = begin_obj.as_dict()
@@ -4957,15 +4960,15 @@ class CiscoRange(MutableSequence):
 
             if idx > 0:
                 if self.iterate_attribute == 'channel' and isinstance(begin_obj.channel, int):
-                    self.this_obj.channel = _result_type(_csv_part.split("-")[0].strip(), debug=debug).channel
+                    self.this_obj.channel = _result_type(_range_parts[0].strip(), debug=debug).channel
                 elif self.iterate_attribute == 'subinterface' and isinstance(begin_obj.subinterface, int):
-                    self.this_obj.subinterface = _result_type(_csv_part.split("-")[0].strip(), debug=debug).subinterface
+                    self.this_obj.subinterface = _result_type(_range_parts[0].strip(), debug=debug).subinterface
                 elif self.iterate_attribute == 'port' and isinstance(begin_obj.port, int):
-                    self.this_obj.port = _result_type(_csv_part.split("-")[0].strip(), debug=debug).port
+                    self.this_obj.port = _result_type(_range_parts[0].strip(), debug=debug).port
                 elif self.iterate_attribute == 'card' and isinstance(begin_obj.card, int):
-                    self.this_obj.card = _result_type(_csv_part.split("-")[0].strip(), debug=debug).card
+                    self.this_obj.card = _result_type(_range_parts[0].strip(), debug=debug).card
                 elif self.iterate_attribute == 'slot' and isinstance(begin_obj.card, int):
-                    self.this_obj.slot = _result_type(_csv_part.split("-")[0].strip(), debug=debug).slot
+                    self.this_obj.slot = _result_type(_range_parts[0].strip(), debug=debug).slot
                 else:
                     raise NotImplementedError()
 
@@ -4985,14 +4988,14 @@ class CiscoRange(MutableSequence):
             # Set the end_ordinal... keep this separate from begin_obj logic...
             if self.iterate_attribute is None:
                 raise ValueError()
-            if "-" in _csv_part:
-                if len(_csv_part.split("-")) == 2:
+            if len(_range_parts) > 1:
+                if len(_range_parts) == 2:
                     # Append a whole range of interfaces...
-                    obj = _result_type(_csv_part.split("-")[0].strip(), debug=debug)
+                    obj = _result_type(_range_parts[0].strip(), debug=debug)
                     begin_ordinal = getattr(obj, self.iterate_attribute)
                     # parse end_ordinal from 'Eth1/2-4 multipoint'
                     #     ref: https://stackoverflow.com/a/1450900
-                    end_ordinal = int("".join(filter(str.isdigit, _csv_part.split("-")[1].strip())))
+                    end_ordinal = int(re.match(r"\d+", _range_parts[1]).group(0))
                     if debug is True:
                         logger.info(f"CiscoRange(text={text}, debug=True) : end_ordinal={end_ordinal}")
                 else:
-- 
2.43.0


From 114cd24c5f42be0a7d64692d914ea1e126c554ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:17 +0000
Subject: [PATCH 042/119] fix: compress a CiscoRange() of interfaces

---
 ciscoconfparse/ccp_util.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 4315e0a..d40e19c 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5489,27 +5489,28 @@ class CiscoRange(MutableSequence):
             retval = list()
 
         # Handle CiscoIOSInterface() instances...
-        if isinstance(self.member_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+        suffix_str = ""
+        if self.member_type in (CiscoIOSInterface, CiscoIOSXRInterface):
             # Build a magic attribute dict so we can intelligently prepend slot/card/port/etc...
             magic_string = "3141592653591892234109876543212345678"
-            this_obj = self.member_type(self.text.split(",")[0])
-            magic_dict = this_obj.as_dict()
+            magic_dict = self._list[0].as_dict()
             for attr_name in ("channel", "subinterface", "port", "card", "slot",):
                 if magic_dict[attr_name] is not None:
-                    if attr_name == self.iterate_attribute:
-                        magic_dict[attr_name] = int(magic_string)
-                        break
+                    iterate_attribute = attr_name
+                    magic_dict[attr_name] = int(magic_string)
+                    break
             if debug is True:
                 logger.info(f"CiscoRange() calling {self.member_type}(interface_dict={magic_dict}).as_compressed_str()")
             obj = self.member_type(interface_dict=magic_dict, debug=debug)
             if debug is True:
                 logger.success(f"    CiscoRange() call to {self.member_type}().as_compressed_str() with `interface_dict` parameter succeeded")
-            prefix_str = str(obj).replace(magic_string, "")
+            # The interface class, if any, is rendered after the range...
+            prefix_str, suffix_str = str(obj).split(magic_string)
 
             # Build a list of the relevant string iteration pieces...
             input_str = []
             for _, component in enumerate(self.as_list()):
-                input_str.append(getattr(self.member_type(component), self.iterate_attribute))
+                input_str.append(getattr(component, iterate_attribute))
         # Handle str() instances...
         elif self.member_type is str:
             prefix_str = ""
@@ -5560,7 +5561,7 @@ class CiscoRange(MutableSequence):
             else:
                 retval += "," + str(range_list[ii])
 
-        return retval
+        return retval + suffix_str
 
 
 ##############################################################################
-- 
2.43.0


From 3299f33a1cb22a4eb5fa280f3ebe2be5fb2235b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:24 +0000
Subject: [PATCH 043/119] fix: hash an empty CiscoRange()

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index d40e19c..a6d1450 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5153,7 +5153,7 @@ class CiscoRange(MutableSequence):
     def __hash__(self):
         """Return a deterministic identifier for CiscoRange() implementations"""
         if len(self._list) == 0:
-            return hash(self._list)
+            return hash(str(self._list))
         else:
             return hash(str(self._list)) * hash(self.member_type)
 
-- 
2.43.0


From 4c1023d03be86604ecd4e7d65143b872ea897f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:30 +0000
Subject: [PATCH 044/119] fix: CiscoRange().append() must not duplicate a
 member when errors are ignored

---
 ciscoconfparse/ccp_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index a6d1450..855d849 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5323,6 +5323,10 @@ class CiscoRange(MutableSequence):
             else:
                 new_list.append(val)
 
+            if new_list[-1] in self._list:
+                # Ignore a member which is already in the range...
+                return self
+
             if sort is True:
                 retval = self.attribute_sort(new_list, attribute="sort_list", reverse=False)
             else:
-- 
2.43.0


From 032422929e87a277d77ba0653b27b4f5dea1c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 045/119] fix: CiscoRange().remove() of interfaces

---
 ciscoconfparse/ccp_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 855d849..2015915 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5352,6 +5352,7 @@ class CiscoRange(MutableSequence):
         length_before = len(self._list)
         # WAS DEEPCOPY
         list_before = copy.deepcopy(self._list)
+        new_list = list_before
 
         # Ignore absent arg if ignore_errors is True
         if arg not in self._list and ignore_errors is True:
@@ -5364,7 +5365,7 @@ class CiscoRange(MutableSequence):
         elif len(self._list) > 0:
 
             # Try removing some common result types...
-            for result_type in [None, int, str, float, 0]:
+            for result_type in [None, int, str, float, CiscoIOSInterface, CiscoIOSXRInterface, 0]:
                 if len(self._list) > 0 and result_type is not type(self._list[0]):
                     # Skip this result_type...
                     continue
@@ -5376,7 +5377,7 @@ class CiscoRange(MutableSequence):
                 elif result_type is None:
                     # These are CiscoIOSInterface() or CiscoIOSXRInterface()
                     new_list = [CiscoIOSInterface(ii) for ii in list_before if ii != arg]
-                elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+                elif result_type in (CiscoIOSInterface, CiscoIOSXRInterface):
                     # These are CiscoIOSInterface() or CiscoIOSXRInterface()
                     new_list = [result_type(ii) for ii in list_before if ii != arg]
                 else:
-- 
2.43.0


From 2a12ddfb694f3616b7e16cda671242674bf22ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:42 +0000
Subject: [PATCH 046/119] fix: support a list of subinterfaces or channels in
 CiscoRange()

---
 ciscoconfparse/ccp_util.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 2015915..10c26d4 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4889,6 +4889,15 @@ class CiscoRange(MutableSequence):
         self.result_type = float
         raise NotImplementedError("parse_floats() is not yet supported")
 
+    # This method is on CiscoRange()
+    @logger.catch(reraise=True)
+    def _get_ordinal(self, obj):
+        """Return the ordinal of obj; a lone number, such as '7' in 'Eth1/1.5,7', is parsed as a port, but it is a subinterface in this case."""
+        retval = getattr(obj, self.iterate_attribute)
+        if retval is None and obj.prefix == "" and obj.slot is None:
+            retval = obj.port
+        return retval
+
     # This method is on CiscoRange()
     @logger.catch(reraise=True)
     def parse_cisco_interfaces(self, text, result_type, debug=False):
@@ -4960,9 +4969,9 @@ class CiscoRange(MutableSequence):
 
             if idx > 0:
                 if self.iterate_attribute == 'channel' and isinstance(begin_obj.channel, int):
-                    self.this_obj.channel = _result_type(_range_parts[0].strip(), debug=debug).channel
+                    self.this_obj.channel = self._get_ordinal(_result_type(_range_parts[0].strip(), debug=debug))
                 elif self.iterate_attribute == 'subinterface' and isinstance(begin_obj.subinterface, int):
-                    self.this_obj.subinterface = _result_type(_range_parts[0].strip(), debug=debug).subinterface
+                    self.this_obj.subinterface = self._get_ordinal(_result_type(_range_parts[0].strip(), debug=debug))
                 elif self.iterate_attribute == 'port' and isinstance(begin_obj.port, int):
                     self.this_obj.port = _result_type(_range_parts[0].strip(), debug=debug).port
                 elif self.iterate_attribute == 'card' and isinstance(begin_obj.card, int):
@@ -4992,7 +5001,7 @@ class CiscoRange(MutableSequence):
                 if len(_range_parts) == 2:
                     # Append a whole range of interfaces...
                     obj = _result_type(_range_parts[0].strip(), debug=debug)
-                    begin_ordinal = getattr(obj, self.iterate_attribute)
+                    begin_ordinal = self._get_ordinal(obj)
                     # parse end_ordinal from 'Eth1/2-4 multipoint'
                     #     ref: https://stackoverflow.com/a/1450900
                     end_ordinal = int(re.match(r"\d+", _range_parts[1]).group(0))
-- 
2.43.0


From 2b5d03705e0feb6ae3d5c1d35b4ead0dd7b3bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:24 +0000
Subject: [PATCH 047/119] fix: sort CiscoRange() interface members numerically

---
 ciscoconfparse/ccp_util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 10c26d4..044a013 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5275,7 +5275,10 @@ class CiscoRange(MutableSequence):
                 if isinstance(target_list, list):
                     if isinstance(target_list[0], (CiscoIOSInterface, CiscoIOSXRInterface)):
                         # Sort CiscoIOSInterface() or CiscoIOSXRInterface members
-                        new_list = sorted(target_list, key=lambda x: getattr(x, attribute), reverse=reverse)
+                        if attribute == "sort_list":
+                            new_list = sorted(target_list, key=lambda x: _interface_sort_key(x.sort_list), reverse=reverse)
+                        else:
+                            new_list = sorted(target_list, key=lambda x: getattr(x, attribute), reverse=reverse)
                     elif isinstance(target_list[0], (int, float)):
                         # Sort int or float members
                         new_list = sorted(target_list, reverse=reverse)
-- 
2.43.0


From 25ebcaa087cdd3a48303f3925beb7cff73a60248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:22 +0000
Subject: [PATCH 048/119] fix: accept CiscoConfParse() instances in HDiff()

---
 ciscoconfparse/ciscoconfparse.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 7eb8c5f..bf31a5b 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4302,17 +4302,23 @@ class HDiff(object):
 
         # TODO - incorporate difflib.get_close_matches() to reorder the
         #     diff (in unified format)
-        if not isinstance(self.before_config, CiscoConfParse):
-            self.parse_before = CiscoConfParse(
-                self.before_config, syntax=self.syntax,
-                ignore_blank_lines=self.ignore_blank_lines,
-            )
+        before_config = self.before_config
+        if isinstance(before_config, CiscoConfParse):
+            # Parse a copy, because the diff normalizes the whitespace in the text
+            before_config = before_config.ioscfg
+        self.parse_before = CiscoConfParse(
+            before_config, syntax=self.syntax,
+            ignore_blank_lines=self.ignore_blank_lines,
+        )
 
-        if not isinstance(self.after_config, CiscoConfParse):
-            self.parse_after = CiscoConfParse(
-                self.after_config, syntax=self.syntax,
-                ignore_blank_lines=self.ignore_blank_lines,
-            )
+        after_config = self.after_config
+        if isinstance(after_config, CiscoConfParse):
+            # Parse a copy, because the diff normalizes the whitespace in the text
+            after_config = after_config.ioscfg
+        self.parse_after = CiscoConfParse(
+            after_config, syntax=self.syntax,
+            ignore_blank_lines=self.ignore_blank_lines,
+        )
 
     @ logger.catch(reraise=True)
     def build_diff_obj_lists(self):
-- 
2.43.0


From 56f11309561e74a4959b6ac2d01bae4b11cff51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 049/119] fix: HDiff() must place an added line below its own
 parent

---
 ciscoconfparse/ciscoconfparse.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index bf31a5b..9aed868 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4822,7 +4822,6 @@ class HDiff(object):
 
                 # Calculate values associated with lines...
                 line_id_len = len(line_dict["diff_id_list"])
-                line_id_csv = ",".join([str(ii) for ii in line_dict["diff_id_list"]])
 
                 # check retval and find where we should "add" the
                 # line_dict...
@@ -4840,13 +4839,11 @@ class HDiff(object):
                         )
 
                     this_id_len = len(this_dict["diff_id_list"])
-                    this_id_csv = ",".join(
-                        [str(ii) for ii in this_dict["diff_id_list"]]
-                    )
 
-                    # if this_dict (as a string csv) is a substring of line's csv,
-                    # check whether this_dict should be line's parent...
-                    if this_id_csv in line_id_csv:
+                    # if this_dict is listed directly above line_dict's own id,
+                    # this_dict is line_dict's parent...
+                    # (the oldest ancestor is the last id in the list).
+                    if list(this_dict["diff_id_list"]) == list(line_dict["diff_id_list"])[1:]:
 
                         # If the length of this_dict["diff_id_list"] is one element
                         # longer than line_dict["diff_id_list"], it's a pretty
-- 
2.43.0


From 33bea7f3db897bcfb9d2fd054cddda85577e019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:30 +0000
Subject: [PATCH 050/119] fix: HDiff() must keep the order of the lines which
 are added to a section

---
 ciscoconfparse/ciscoconfparse.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 9aed868..97c66f6 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4855,7 +4855,17 @@ class HDiff(object):
                                         loop_idx + 1, this_dict
                                     )
                                 )
-                            retval.insert(loop_idx + 1, line_dict)
+                            # Keep the order of the lines which are added
+                            # to the same parent...
+                            insert_idx = loop_idx + 1
+                            while (
+                                insert_idx < len(retval)
+                                and retval[insert_idx]["diff_word"] == "add"
+                                and retval[insert_idx]["diff_id_list"][-this_id_len:]
+                                == this_dict["diff_id_list"]
+                            ):
+                                insert_idx += 1
+                            retval.insert(insert_idx, line_dict)
                             lines[diff_id_list] = len(retval) - 1
                             break
                 else:
-- 
2.43.0


From 9919178e07bf81e0ba6c55a776e67b571126a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:04 +0000
Subject: [PATCH 051/119] fix: req_cfgspec_all_diff(ignore_ws=True) must
 compare lines up to white space

---
 ciscoconfparse/ciscoconfparse.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 97c66f6..e9279ac 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3541,11 +3541,6 @@ class CiscoConfParse(object):
         deprecation_warn_str = "`req_cfgspec_all_diff()` will be deprecated and removed in future versions."
         warnings.warn(deprecation_warn_str, DeprecationWarning)
 
-        rgx = dict()
-        if ignore_ws is True:
-            for line in cfgspec:
-                rgx[line] = build_space_tolerant_regex(line)
-
         skip_cfgspec = dict()
         retval = list()
         matches = self._find_line_OBJ("[a-zA-Z]")
@@ -3553,10 +3548,7 @@ class CiscoConfParse(object):
         for lineobj in matches:
             for reqline in cfgspec:
                 if ignore_ws:
-                    if re.search(
-                        r"^" + rgx[reqline] + "$",
-                        lineobj.text.strip(),
-                    ):
+                    if lineobj.text.split() == reqline.split():
                         skip_cfgspec[reqline] = True
                 else:
                     if lineobj.text.strip() == reqline.strip():
-- 
2.43.0


From 8bd4fa16ef5ab78dfa0226b61af39c5b73975b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:29 +0000
Subject: [PATCH 052/119] fix: Diff() must accept a missing configuration

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index e9279ac..e855b9f 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4040,7 +4040,7 @@ class Diff(object):
         # Handle old_config
         ######################################################################
         if old_config is None:
-            old_config = []
+            old_config = ""
         elif isinstance(old_config, str) and len(old_config.splitlines()) == 1 and os.path.isfile(old_config):
             # load the old config from a file as a string...
             old_config = open(old_config).read()
@@ -4057,7 +4057,7 @@ class Diff(object):
         # Handle new_config
         ######################################################################
         if new_config is None:
-            new_config = []
+            new_config = ""
         elif isinstance(new_config, str) and len(new_config.splitlines()) == 1 and os.path.isfile(new_config):
             # load the new config from a file as a list...
             new_config = open(new_config).read().splitlines()
-- 
2.43.0


From 601bd2365ac18d4d712c2d3d96e8f16cc472f517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:34 +0000
Subject: [PATCH 053/119] fix: Diff() must accept a file path as the new
 configuration

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index e855b9f..de2b3af 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4059,8 +4059,8 @@ class Diff(object):
         if new_config is None:
             new_config = ""
         elif isinstance(new_config, str) and len(new_config.splitlines()) == 1 and os.path.isfile(new_config):
-            # load the new config from a file as a list...
-            new_config = open(new_config).read().splitlines()
+            # load the new config from a file as a string...
+            new_config = open(new_config).read()
         elif isinstance(new_config, str):
             pass
         elif isinstance(new_config, (list, tuple)):
-- 
2.43.0


From cf68de18ee41d2fc0d41214c7fcc5c014b5d0222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:45 +0000
Subject: [PATCH 054/119] fix: CiscoPassword().decrypt() must accept an empty
 password

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index de2b3af..2b7bba2 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -6061,9 +6061,9 @@ class CiscoPassword(object):
         )
 
         dp = ""
-        regex = re.compile("^(..)(.+)")
+        regex = re.compile("^(..)(.*)")
         ep = ep or self.ep
-        if not (len(ep) & 1):
+        if len(ep) > 0 and not (len(ep) & 1):
             result = regex.search(ep)
             try:
                 s, e = int(result.group(1)), result.group(2)
-- 
2.43.0


From b8273682a1b6782fcf87af7b2f2ed25a162ca8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:21 +0000
Subject: [PATCH 055/119] fix: trunk_vlans_allowed applies the vlan statements
 in configuration order

---
 ciscoconfparse/models_cisco.py | 72 ++++++++--------------------------
 1 file changed, 16 insertions(+), 56 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index c112094..a7fcb73 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2209,15 +2209,8 @@ class BaseIOSIntfLine(IOSCfgLine):
         else:
             return 0
 
-        _all_vlans = "1-4094"
-        _max_number_vlans = 4094
         # Default to allow allow all vlans...
-        vdict = {
-            "allowed": _all_vlans,
-            "add": None,
-            "except": None,
-            "remove": None,
-        }
+        actions = [("allowed", "all")]
 
         ## Iterate over switchport trunk statements
         for obj in self.children:
@@ -2229,10 +2222,7 @@ class BaseIOSIntfLine(IOSCfgLine):
                     result_type=str,
                 ).lower()
                 if add_str != "_nomatch_":
-                    if vdict["add"] is None:
-                        vdict["add"] = add_str
-                    else:
-                        vdict["add"] += f",{add_str}"
+                    actions.append(("add", add_str))
 
             elif obj.text.split()[0:5] == ["switchport", "trunk", "allowed", "vlan", "except"]:
                 exc_str = obj.re_match_typed(
@@ -2241,10 +2231,7 @@ class BaseIOSIntfLine(IOSCfgLine):
                     result_type=str,
                 ).lower()
                 if exc_str != "_nomatch_":
-                    if vdict["except"] is None:
-                        vdict["except"] = exc_str
-                    else:
-                        vdict["except"] += f",{exc_str}"
+                    actions.append(("except", exc_str))
 
             elif obj.text.split()[0:5] == ["switchport", "trunk", "allowed", "vlan", "remove"]:
                 rem_str = obj.re_match_typed(
@@ -2253,10 +2240,7 @@ class BaseIOSIntfLine(IOSCfgLine):
                     result_type=str,
                 ).lower()
                 if rem_str != "_nomatch_":
-                    if vdict["remove"] is None:
-                        vdict["remove"] = rem_str
-                    else:
-                        vdict["remove"] += f",{rem_str}"
+                    actions.append(("remove", rem_str))
 
             elif obj.text.split()[0:4] == ["switchport", "trunk", "allowed", "vlan"]:
                 ## For every child object, check whether the vlan list is modified
@@ -2267,48 +2251,24 @@ class BaseIOSIntfLine(IOSCfgLine):
                     result_type=str,
                 ).lower()
                 if allowed_str != "_nomatch_":
-                    if allowed_str == "none":
-                        # Replace the default allow of 1-4094...
-                        vdict["allowed"] = ""
-                    elif allowed_str == "all":
-                        # Specify an initial list of vlans...
-                        vdict["allowed"] = _all_vlans
-                    else:
-                        # handle **double allowed** statements here...
-                        if vdict["allowed"] == _all_vlans:
-                            vdict["allowed"] = f"{allowed_str}"
-                        elif vdict["allowed"] == "":
-                            vdict["allowed"] = f"{allowed_str}"
-                        else:
-                            vdict["allowed"] += f",{allowed_str}"
-
-        ## Analyze each vdict in sequence and apply to retval sequentially
-        if isinstance(vdict["allowed"], str):
-            if vdict["allowed"] == _all_vlans:
-                if len(retval) != _max_number_vlans:
-                    retval = CiscoRange(f"1-{MAX_VLAN}", result_type=int)
-            elif vdict["allowed"] == "":
-                retval = CiscoRange(result_type=int)
-            elif vdict["allowed"] != "_nomatch_":
-                retval = CiscoRange(vdict["allowed"], result_type=int)
-
-        # Inspect vdict keys in a specific order to ensure best results...
-        for key in ["allowed", "add", "except", "remove"]:
-            _value = vdict[key]
-
-            if isinstance(_value, str):
-                _value = _value.strip()
-            elif _value is None:
-                # There is nothing to be done if _value is None...
-                continue
+                    actions.append(("allowed", allowed_str))
+
+        # Apply the vlan statements in the order of the configuration...
+        has_vlan_list = False
+        for key, _value in actions:
+            _value = _value.strip()
 
             if _value == "":
                 continue
             elif _value != "_nomatch_":
                 ## allowed in the key overrides previous values
                 if key == "allowed":
-                    # When considering 'allowed', reset retval to be empty...
-                    retval = CiscoRange(result_type=int)
+                    # handle **double allowed** statements here... otherwise
+                    # reset retval to be empty...
+                    double_allowed = has_vlan_list and _value[0].isdigit()
+                    has_vlan_list = _value[0].isdigit()
+                    if not double_allowed:
+                        retval = CiscoRange(result_type=int)
                     if _value.lower() == "none":
                         continue
                     elif _value.lower() == "all":
-- 
2.43.0


From 752052332f7cfec679d995444890576f76321dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:27 +0000
Subject: [PATCH 056/119] fix: has_dtp: re_match() returns an empty string (not
 None) without a match

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index a7fcb73..c968189 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2178,7 +2178,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ##   default value is True
         for obj in self.children:
             switch = obj.re_match(r"^\s*(switchport\snoneg\S*)\s*$")
-            if (switch is not None):
+            if switch:
                 return False
         return True
 
-- 
2.43.0


From d4fd1b0a00a1f30e4472adf1838af9a6b18ce252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:54 +0000
Subject: [PATCH 057/119] fix: is_switchport copes with blank child lines

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index c968189..d4452a0 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2103,7 +2103,7 @@ class BaseIOSIntfLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def is_switchport(self):
         for _obj in self.children:
-            if _obj.text.strip().split()[0] == "switchport":
+            if _obj.text.strip().split()[0:1] == ["switchport"]:
                 return True
         return False
 
-- 
2.43.0


From ea3bb014996ad99fb48b42978fed42cdeec80cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:00 +0000
Subject: [PATCH 058/119] fix: ipv4_addr_object is the primary address

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index d4452a0..f24cc52 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1380,7 +1380,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         r"""Return a ccp_util.IPv4Obj object representing the address on this interface; if there is no address, return IPv4Obj()"""
 
         retval = self.re_match_iter_typed(
-            r"^\s+ip\s+address\s+(?P<v4addr>\S+)\s+(?P<v4netmask>\d+\.\d+\.\d+\.\d+)",
+            r"^\s+ip\s+address\s+(?P<v4addr>\S+)\s+(?P<v4netmask>\d+\.\d+\.\d+\.\d+)\s*$",
             groupdict={"v4addr": str, "v4netmask": str},
             default="",
         )
-- 
2.43.0


From 792775b57d97643c88b0688662eae6a04620a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:06 +0000
Subject: [PATCH 059/119] fix: ip_network_object uses ipv4_netmask

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index f24cc52..e3ad90a 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1493,7 +1493,7 @@ class BaseIOSIntfLine(IOSCfgLine):
     def ip_network_object(self):
         # Simplified on 2014-12-02
         try:
-            return IPv4Obj(f"{self.ipv4_addr}/{self.ipv4_mask}", strict=False)
+            return IPv4Obj(f"{self.ipv4_addr}/{self.ipv4_netmask}", strict=False)
         except DynamicAddressException as e:
             raise DynamicAddressException(e)
         except BaseException:
-- 
2.43.0


From ad2a1e6e3ef1f3ef9e48978f2d55f48975c4f90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:37 +0000
Subject: [PATCH 060/119] fix: ip_helper_addresses looks at ip helper-address
 commands only

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index e3ad90a..c9491a4 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2085,7 +2085,7 @@ class BaseIOSIntfLine(IOSCfgLine):
            >>>"""
         retval = list()
         for child in self.children:
-            if "helper-address" in child.text:
+            if child.text.split()[0:2] == ["ip", "helper-address"]:
                 addr = child.re_match_typed(
                     r"ip\s+helper-address\s.*?(\d+\.\d+\.\d+\.\d+)"
                 )
-- 
2.43.0


From 27cdb1872bf5b923d2c9f65c7085afe53a4011d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:43 +0000
Subject: [PATCH 061/119] fix: has_hsrp_preempt looks for preempt

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index c9491a4..6235892 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2481,7 +2481,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
         retval = self.re_match_iter_typed(
-            r"^\s*standby\s+(\d+\s+)*(use-bia)",
+            r"^\s*standby\s+(\d+\s+)*(preempt)",
             group=2,
             result_type=bool,
             default=False,
-- 
2.43.0


From 36d9b1596fa693241af8d5150342cfb2037d9b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 062/119] fix: hsrp_interfaces looks at standby commands only

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 6235892..74e35c2 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -918,7 +918,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         retval = set()
         for obj in self.children:
             # Get each HSRP group number...
-            if re.search(r"standby\s+(?P<group>\d+)\s+ip", obj.text.strip()):
+            if re.search(r"^standby\s+(?P<group>\d+)\s+ip", obj.text.strip()):
                 group = int(obj.text.split()[1])
                 retval.add(HSRPInterfaceGroup(group=group, parent=self))
         # Return a sorted list of HSRPInterfaceGroup() instances...
-- 
2.43.0


From ead476239de188b9a6c5068c26d2a3e206eaa72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:54 +0000
Subject: [PATCH 063/119] fix: preempt_delay compares all five words

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 74e35c2..3687c53 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -354,7 +354,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
         ##     before they put them into production
         for obj in self._parent.children:
             obj_parts = obj.text.lower().strip().split()
-            if obj_parts[0:4] == ["standby", str(self._group), "preempt", "delay", "minimum"]:
+            if obj_parts[0:5] == ["standby", str(self._group), "preempt", "delay", "minimum"]:
                 return int(obj_parts[5])
         # The default hello timer is 3 seconds...
         return 0
-- 
2.43.0


From 73cb49c6f428d0b2106dc20c675b153d56161da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:01 +0000
Subject: [PATCH 064/119] fix: authentication_md5_keychain searches the
 interface for its group

---
 ciscoconfparse/models_cisco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 3687c53..c5df573 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -456,8 +456,8 @@ class HSRPInterfaceGroup(BaseCfgLine):
         """Return the string text of the MD5 key-chain if this HSRP group is configured with an MD5 authentication key-chain; otherwise return an empty string."""
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
-        retval = self.re_match_iter_typed(
-            r"^\s*standby\s+{self.group}\s+authentication\s+md5\s+key-chain\s+(\S+)",
+        retval = self._parent.re_match_iter_typed(
+            rf"^\s*standby\s+{self.group}\s+authentication\s+md5\s+key-chain\s+(\S+)",
             group=1,
             result_type=str,
             default="",
-- 
2.43.0


From 31522b09b72f6a77adf254003c1a59eb16039d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:08 +0000
Subject: [PATCH 065/119] fix: use_bia looks at standby commands only

---
 ciscoconfparse/models_cisco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index c5df573..0369463 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -432,7 +432,8 @@ class HSRPInterfaceGroup(BaseCfgLine):
     def use_bia(self):
         """Return True if the router is configured with `standby use-bia`; `standby use-bia` helps avoid instability when introducing new HSRP routers.  Return False if the router is not configured with `standby use-bia`."""
         for obj in self._parent.children:
-            if "use-bia" in obj.text:
+            obj_parts = obj.text.lower().strip().split()
+            if obj_parts[0:1] == ["standby"] and "use-bia" in obj_parts:
                 return True
         return False
 
-- 
2.43.0


From 8e6ad9050d075890e3c99da2482d0dee75928366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:14 +0000
Subject: [PATCH 066/119] fix: in_ipv4_subnets without any subnet is False

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 0369463..1a6cfee 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1893,7 +1893,7 @@ class BaseIOSIntfLine(IOSCfgLine):
             tmp = self.in_ipv4_subnet(ipv4network=subnet)
             if self.ipv4_addr_object in subnet:
                 return tmp
-        return tmp
+        return False
 
     # This method is on BaseIOSIntfLine()
     @property
-- 
2.43.0


From 1521859520f2630e07e38826adc6d9d59eec6785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:29 +0000
Subject: [PATCH 067/119] fix: a tracked interface without a decrement gets the
 default

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 1a6cfee..0e3147f 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -323,7 +323,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
                     groupdict={"intf": str, "decr": str},
                 )
                 interface = _gg["intf"]
-                if isinstance(_gg["decr"], str) and _gg["decr"] != "None":
+                if isinstance(_gg["decr"], str) and _gg["decr"] not in ("", "None"):
                     decrement = int(_gg["decr"].strip())
                 retval.append(
                     TrackingInterface(
-- 
2.43.0


From d0bbb937a74e7a8afb796b11dd4d69b3cc5d5606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:47 +0000
Subject: [PATCH 068/119] fix: HSRPInterfaceGroup.ipv4 is the primary virtual
 address

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 0e3147f..55280bc 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -247,7 +247,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
         ##     before they put them into production
         for obj in self._parent.children:
             obj_parts = obj.text.lower().strip().split()
-            if obj_parts[0:3] == ["standby", str(self._group), "ip"]:
+            if obj_parts[0:3] == ["standby", str(self._group), "ip"] and obj_parts[-1] != "secondary":
                 return obj_parts[-1]
         error = f"{self} does not have an HSRP ip configured"
         logger.error(error)
-- 
2.43.0


From caf7ef9861594bd620ef5f4236a85fa0a811b014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:54 +0000
Subject: [PATCH 069/119] fix: TrackingInterface has the group, name and
 interface its methods use

---
 ciscoconfparse/models_cisco.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 55280bc..a0cfa4c 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -89,7 +89,7 @@ class TrackingInterface(BaseCfgLine):
     @logger.catch(reraise=True)
     def __hash__(self):
         """Return a hash value based on the Tracking interface group, interface name and decrement / weighting."""
-        if self._name is None or self._group is None:
+        if self.name is None or self._group is None:
             error = f"Cannot hash TrackingInterface() {self}"
             logger.critical(error)
             raise ValueError(error)
@@ -101,7 +101,7 @@ class TrackingInterface(BaseCfgLine):
     def __eq__(self, other):
         """Return True or False based on whether this Tracking interface is equal to the other instance; both instances must be a TrackingInterface() instance to compare True"""
         if isinstance(other, TrackingInterface):
-            if self.name == other.name and self.group == other.group and self._interface == other._linterface and self._decrement == other._decrement and self._weighting == other._weighting:
+            if self.name == other.name and self.group == other.group and self._interface == other._interface and self._decrement == other._decrement and self._weighting == other._weighting:
                 return True
             else:
                 return False
@@ -152,6 +152,12 @@ class TrackingInterface(BaseCfgLine):
         else:
             return None
 
+    # This method is on TrackingInterface()
+    @property
+    @logger.catch(reraise=True)
+    def group(self):
+        return self.tracking_interface_group
+
     # This method is on TrackingInterface()
     @property
     @logger.catch(reraise=True)
-- 
2.43.0


From fd65eb469e57caa8f4277122c6fcf9d41b2e34a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:21 +0000
Subject: [PATCH 070/119] fix: tracking object numbers are read like interface
 names

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index a0cfa4c..2cc87dc 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -325,7 +325,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
                 interface = None
                 decrement = 10
                 _gg = obj.re_match_iter_typed(
-                    r"standby\s(\d+)\s+track\s+(?P<intf>\S.+?)(?P<decr>\s+\d+)*$",
+                    r"standby\s(\d+)\s+track\s+(?P<intf>\S.*?)(\s+decrement)?(?P<decr>\s+\d+)*$",
                     groupdict={"intf": str, "decr": str},
                 )
                 interface = _gg["intf"]
-- 
2.43.0


From 29cfb783dbde960882aced3f3d3b0c19344df6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:43 +0000
Subject: [PATCH 071/119] fix: ipv6_addr ends at the first blank

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 2cc87dc..8daa404 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1771,7 +1771,7 @@ class BaseIOSIntfLine(IOSCfgLine):
     def ipv6_addr(self):
         r"""Return a string with the interface's IPv6 address, or '' if there is none"""
         retval = self.re_match_iter_typed(
-            r"^\s+ipv6\s+address\s+(?P<v6addr>[^\/]+)",
+            r"^\s+ipv6\s+address\s+(?P<v6addr>[^\/\s]+)",
             result_type=str,
             default="",
         )
-- 
2.43.0


From 6f5762d4219cc3ee9dc2c91f9cc5082967c7618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:00 +0000
Subject: [PATCH 072/119] fix: is_subintf allows a blank before the interface
 number

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 8daa404..aebdbb7 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -717,7 +717,7 @@ class IOSCfgLine(BaseCfgLine):
            True
            >>>
         """
-        intf_regex = r"^interface\s+(\S+?\.\d+)"
+        intf_regex = r"^interface\s+(\S+?(?:\s+\d\S*?)?\.\d+)"
         if self.re_match(intf_regex):
             return True
         return False
-- 
2.43.0


From bea2be9b3deca2ae3ec605efb3d683be6fd8f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:06 +0000
Subject: [PATCH 073/119] fix: hsrp_track reads tracking object numbers

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index aebdbb7..9261626 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2460,7 +2460,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
         retval = self.re_match_iter_typed(
-            r"^\s*standby\s+(\d+\s+)*track\s(\S+.+?)\s+\d+\s*",
+            r"^\s*standby\s+(\d+\s+)*track\s(\S+.*?)(?:\s+decrement)?\s+\d+\s*",
             group=2,
             result_type=str,
             default="",
-- 
2.43.0


From 0b3c0750e374e85cbc3aa64617cb75a0f8245311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:32 +0000
Subject: [PATCH 074/119] fix: the error of HSRPInterfaceGroup.ipv4 does not
 print the group (which needs ipv4)

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 9261626..dd69011 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -255,7 +255,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
             obj_parts = obj.text.lower().strip().split()
             if obj_parts[0:3] == ["standby", str(self._group), "ip"] and obj_parts[-1] != "secondary":
                 return obj_parts[-1]
-        error = f"{self} does not have an HSRP ip configured"
+        error = f"HSRP group {self._group} of '{self.interface_name}' does not have an HSRP ip configured"
         logger.error(error)
         raise ValueError(error)
 
-- 
2.43.0


From aa41b9f6849d5c439fe08fe84dd6efd3663ecb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:58 +0000
Subject: [PATCH 075/119] fix: static route options are read in any order

---
 ciscoconfparse/models_cisco.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index dd69011..a997a28 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2920,11 +2920,13 @@ _RE_IP_ROUTE = re.compile(
 (?:\s+(?P<dhcp>dhcp))?           # DHCP keyword       (FIXME: add unit test)
 (?:\s+(?P<global>global))?       # Global keyword
 (?:\s+(?P<ad>\d+))?              # Administrative distance
-(?:\s+(?P<mcast>multicast))?     # Multicast Keyword  (FIXME: add unit test)
-(?:\s+name\s+(?P<name>\S+))?     # Route name
-(?:\s+(?P<permanent>permanent))? # Permanent Keyword  (exclusive of track)
-(?:\s+track\s+(?P<track>\d+))?   # Track object (exclusive of permanent)
-(?:\s+tag\s+(?P<tag>\d+))?       # Route tag
+(?:                              # Options in any order...
+   \s+(?P<mcast>multicast)       # Multicast Keyword  (FIXME: add unit test)
+  |\s+name\s+(?P<name>\S+)       # Route name
+  |\s+(?P<permanent>permanent)   # Permanent Keyword  (exclusive of track)
+  |\s+track\s+(?P<track>\d+)     # Track object (exclusive of permanent)
+  |\s+tag\s+(?P<tag>\d+)         # Route tag
+)*
 """,
     re.VERBOSE,
 )
@@ -2939,10 +2941,12 @@ _RE_IPV6_ROUTE = re.compile(
 )
 (?:\s+nexthop-vrf\s+(?P<nexthop_vrf>\S+))?
 (?:\s+(?P<ad>\d+))?              # Administrative distance
-(?:\s+(?:(?P<ucast>unicast)|(?P<mcast>multicast)))?
-(?:\s+tag\s+(?P<tag>\d+))?       # Route tag
-(?:\s+track\s+(?P<track>\d+))?   # Track object
-(?:\s+name\s+(?P<name>\S+))?     # Route name
+(?:                              # Options in any order...
+   \s+(?:(?P<ucast>unicast)|(?P<mcast>multicast))
+  |\s+tag\s+(?P<tag>\d+)         # Route tag
+  |\s+track\s+(?P<track>\d+)     # Track object
+  |\s+name\s+(?P<name>\S+)       # Route name
+)*
 """.format(
         _IPV6_REGEX_STR_COMPRESSED1,
         _IPV6_REGEX_STR_COMPRESSED2,
-- 
2.43.0


From b270f22f3219073f23748080e49d2197938bf4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:04 +0000
Subject: [PATCH 076/119] fix: ipv6 routes with a vrf report network and
 nexthop_str

---
 ciscoconfparse/models_cisco.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index a997a28..e9e3d10 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3004,13 +3004,7 @@ class IOSRouteLine(IOSCfgLine):
         if self._address_family == "ip":
             return self.route_info["prefix"]
         elif self._address_family == "ipv6":
-            retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*(\S+?)\/\d+",
-                group=2,
-                result_type=str,
-                default="",
-            )
-        return retval
+            return self.route_info["prefix"]
 
     @property
     @logger.catch(reraise=True)
@@ -3046,17 +3040,14 @@ class IOSRouteLine(IOSCfgLine):
     def nexthop_str(self):
         if self._address_family == "ip":
             if self.next_hop_interface:
-                return self.next_hop_interface + " " + self.next_hop_addr
+                return (self.next_hop_interface + " " + self.next_hop_addr).strip()
             else:
                 return self.next_hop_addr
         elif self._address_family == "ipv6":
-            retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*\S+\s+(\S+)",
-                group=2,
-                result_type=str,
-                default="",
-            )
-        return retval
+            if self.next_hop_interface:
+                return (self.next_hop_interface + " " + self.next_hop_addr).strip()
+            else:
+                return self.next_hop_addr
 
     @property
     @logger.catch(reraise=True)
-- 
2.43.0


From 80ca8f6ed31ca7404905215f59fe6f545bc4b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 077/119] fix: ip route next-hop interfaces may hold a blank

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index e9e3d10..5370f9e 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2915,7 +2915,7 @@ _RE_IP_ROUTE = re.compile(
 (?P<prefix>\d+\.\d+\.\d+\.\d+)          # Prefix detection
 \s+
 (?P<netmask>\d+\.\d+\.\d+\.\d+)         # Netmask detection
-(?:\s+(?P<nh_intf>[^\d]\S+))?           # NH intf
+(?:\s+(?P<nh_intf>[^\d\s]\S+(?:\s+\d\S*?\/\S+)?))? # NH intf
 (?:\s+(?P<nh_addr>\d+\.\d+\.\d+\.\d+))? # NH addr
 (?:\s+(?P<dhcp>dhcp))?           # DHCP keyword       (FIXME: add unit test)
 (?:\s+(?P<global>global))?       # Global keyword
-- 
2.43.0


From 1ff475465d4767b32e7755c673cc19fdc7e958db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:57 +0000
Subject: [PATCH 078/119] fix: L4Object reads neq with numeric and named ports

---
 ciscoconfparse/ccp_util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 044a013..fe03d9d 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2470,7 +2470,7 @@ class L4Object(object):
         else:
             raise NotImplementedError(f"This syntax is unknown: '{syntax}'")
 
-        if "eq " in port_spec.strip():
+        if re.search(r"^eq\s", port_spec):
             port_tmp = re.split(r"\s+", port_spec)[-1].strip()
             eq_port = int(ports.get(port_tmp, port_tmp))
             if not (1 <= eq_port <= 65535):
@@ -2502,9 +2502,12 @@ class L4Object(object):
                 raise RequirementFailure()
             self.port_list = sorted(range(low_port + 1, 65536))
         elif "neq " in port_spec.strip():
-            port_str = re.split(r"\s+", port_spec)[-1]
+            port_tmp = re.split(r"\s+", port_spec)[-1]
+            neq_port = int(ports.get(port_tmp, port_tmp))
+            if not (1 <= neq_port <= 65535):
+                raise RequirementFailure()
             tmp = set(range(1, 65536))
-            tmp.remove(int(port_str))
+            tmp.remove(neq_port)
             self.port_list = sorted(tmp)
         else:
             raise NotImplementedError(f"This port_spec is unknown: '{port_spec}'")
-- 
2.43.0


From 566865e810265dce857a1b18723edbb2a885810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 079/119] fix: ftp is port 21, ftp-data port 20

---
 ciscoconfparse/protocol_values.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/protocol_values.py b/ciscoconfparse/protocol_values.py
index 730134c..b5fb662 100644
--- a/ciscoconfparse/protocol_values.py
+++ b/ciscoconfparse/protocol_values.py
@@ -64,8 +64,8 @@ ASA_TCP_PORTS = {
     "echo": 7,
     "exec": 512,
     "finger": 79,
-    "ftp": 20,
-    "ftp-data": 21,
+    "ftp": 21,
+    "ftp-data": 20,
     "gopher": 70,
     "h323": 1720,
     "hostname": 101,
-- 
2.43.0


From a588c64b5aac40d58fdc2240b6634894ef2a1a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:12 +0000
Subject: [PATCH 080/119] fix: service-object ports with operators expand

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index ec3ebc9..c67b5fd 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -771,7 +771,7 @@ class ASAObjGroupNetwork(ASACfgLine):
 ##
 _RE_PORTOBJ_STR = r"""(?:                            # Non-capturing parentesis
  # service-object udp destination eq dns
- (^\s*service-object\s+(?P<protocol>{})\s+(?P<src_dst>\S+)\s+(?P<s_port>\S+))
+ (^\s*service-object\s+(?P<protocol>{})\s+(?P<src_dst>\S+)\s+(?P<s_port>\S.*))
 |(^\s*port-object\s+(?P<operator>eq|range)\s+(?P<p_port>\S.+))
 |(^\s*group-object\s+(?P<groupobject>\S+))
 )                                                   # Close non-capture parens
-- 
2.43.0


From a9a6f0dd3002a977f4685b67743368f86667b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:18 +0000
Subject: [PATCH 081/119] fix: port-object accepts one-character ports

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index c67b5fd..bc74264 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -772,7 +772,7 @@ class ASAObjGroupNetwork(ASACfgLine):
 _RE_PORTOBJ_STR = r"""(?:                            # Non-capturing parentesis
  # service-object udp destination eq dns
  (^\s*service-object\s+(?P<protocol>{})\s+(?P<src_dst>\S+)\s+(?P<s_port>\S.*))
-|(^\s*port-object\s+(?P<operator>eq|range)\s+(?P<p_port>\S.+))
+|(^\s*port-object\s+(?P<operator>eq|range)\s+(?P<p_port>\S.*))
 |(^\s*group-object\s+(?P<groupobject>\S+))
 )                                                   # Close non-capture parens
 """.format(
-- 
2.43.0


From 8f876c2a5c19adc575b272c9efd8701246cf25bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:25 +0000
Subject: [PATCH 082/119] fix: group-object in service groups expands

---
 ciscoconfparse/ciscoconfparse.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 2b7bba2..088bbe6 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5955,6 +5955,20 @@ class ConfigList(MutableSequence):
             retval[name] = obj
         return retval
 
+    @ property
+    @ logger.catch(reraise=True)
+    def object_group_service(self):
+        """Return a dictionary of name to object-group service mappings"""
+        if self.syntax != "asa":
+            raise RequirementFailure()
+
+        retval = {}
+        obj_rgx = self._RE_OBJSVC
+        for obj in self.ccp_ref.find_objects(obj_rgx):
+            name = obj.re_match_typed(obj_rgx, group=1, result_type=str)
+            retval[name] = obj
+        return retval
+
     # This method was on ASAConfigList(); now tentatively on ConfigList()
     @ property
     @ logger.catch(reraise=True)
-- 
2.43.0


From a19362f011bd52719ea6fafc297a62cf7391f633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:32 +0000
Subject: [PATCH 083/119] fix: L4Object repr uses as_compressed_str

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index fe03d9d..5ae6754 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2520,7 +2520,7 @@ class L4Object(object):
     def __repr__(self):
         crobj = CiscoRange()
         crobj._list = self.port_list
-        return f"<L4Object {self.protocol} ports: {crobj.compressed_str}>"
+        return f"<L4Object {self.protocol} ports: {crobj.as_compressed_str()}>"
 
 
 class DNSResponse(object):
-- 
2.43.0


From 49fc83638b2dc12abd4ea819a059d769446211ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:40 +0000
Subject: [PATCH 084/119] fix: L4Object refuses ranges outside 1..65535

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 5ae6754..2e13225 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2486,7 +2486,7 @@ class L4Object(object):
             port_tmp = re.split(r"\s+", port_spec)[1:]
             low_port = int(ports.get(port_tmp[0], port_tmp[0]))
             high_port = int(ports.get(port_tmp[1], port_tmp[1]))
-            if low_port > high_port:
+            if not (1 <= low_port <= high_port <= 65535):
                 raise RequirementFailure()
             self.port_list = sorted(range(low_port, high_port + 1))
         elif "lt " in port_spec.strip():
-- 
2.43.0


From 30fb25db311286c7467655393948838c76bf7f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:48 +0000
Subject: [PATCH 085/119] fix: access-list remarks may hold one character

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index bc74264..99c0889 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -1145,7 +1145,7 @@ _ACL_ICMP_PROTOCOLS = "alternate-address|conversion-error|echo-reply|echo|inform
 _ACL_LOGLEVELS = r"alerts|critical|debugging|emergencies|errors|informational|notifications|warnings|[0-7]"
 _RE_ACLOBJECT_STR = r"""(?:                         # Non-capturing parenthesis
 # remark
- (^access-list\s+(?P<acl_name0>\S+)\s+(?P<action0>remark)\s+(?P<remark>\S.+?)$)
+ (^access-list\s+(?P<acl_name0>\S+)\s+(?P<action0>remark)\s+(?P<remark>\S.*?)$)
 
 # extended service object with source network object, destination network object
 |(?:^access-list\s+(?P<acl_name1>\S+)
-- 
2.43.0


From d1bd1833814412f51f9203a042aad875408d715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:55 +0000
Subject: [PATCH 086/119] fix: ASA has_ip_pim_sparse_mode regex compiles

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 99c0889..dce69f5 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -520,7 +520,7 @@ class BaseASAIntfLine(ASACfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*ip\spim\s(sparse-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From cfb18397d1c37a40659d85a2a452b4963015556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:03 +0000
Subject: [PATCH 087/119] fix: ASA descriptions may hold one character

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index dce69f5..df42920 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -260,7 +260,7 @@ class BaseASAIntfLine(ASACfgLine):
     @logger.catch(reraise=True)
     def description(self):
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From def699db6b56a654071ff8072e987576d2a0a56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:11 +0000
Subject: [PATCH 088/119] fix: icmp access-list entries with any4 read the rest
 of the line

---
 ciscoconfparse/models_asa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index df42920..cb9c02b 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -1247,7 +1247,7 @@ _RE_ACLOBJECT_STR = r"""(?:                         # Non-capturing parenthesis
   \s+(?P<protocol4>icmp)
   (?:\s+       # any, any4, host foo, object-group FOO or 10.0.0.0 255.255.255.0
      (?:
-       (?P<src_network4a>any|any4)
+       (?P<src_network4a>any4|any)
       |(?:host\s+(?P<src_network4b>\S+))
       |(?:object\s+(?P<src_object4>\S+))
       |(?:object-group\s+(?P<src_networkobject4>\S+))
@@ -1256,7 +1256,7 @@ _RE_ACLOBJECT_STR = r"""(?:                         # Non-capturing parenthesis
   )
   (?:\s+       # any, any4, host foo, object-group FOO or 10.0.0.0 255.255.255.0
      (?:
-       (?P<dst_network4a>any|any4)
+       (?P<dst_network4a>any4|any)
       |(?:host\s+(?P<dst_network4b>\S+))
       |(?:object\s+(?P<dst_object4>\S+))
       |(?:object-group\s+(?P<dst_networkobject4>\S+))
-- 
2.43.0


From e7848fd0f049e9c3dddff86f814b896422af3211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:19 +0000
Subject: [PATCH 089/119] fix: ASA name lines may hold several blanks

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index cb9c02b..84b86db 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -572,7 +572,7 @@ class BaseASAIntfLine(ASACfgLine):
 ##-------------  ASA name
 ##
 
-_RE_NAMEOBJECT_STR = r"^name\s+(?P<addr>\d+\.\d+\.\d+\.\d+)\s(?P<name>\S+)"
+_RE_NAMEOBJECT_STR = r"^name\s+(?P<addr>\d+\.\d+\.\d+\.\d+)\s+(?P<name>\S+)"
 _RE_NAMEOBJECT = re.compile(_RE_NAMEOBJECT_STR, re.VERBOSE)
 
 
-- 
2.43.0


From c502184e00748223d462f838d2e16339179a78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:45 +0000
Subject: [PATCH 090/119] fix: NX-OS is_vpc_peerlink reports a boolean

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index bbc2c88..86e6f82 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -286,7 +286,7 @@ urn -1 if it's not configured in a port-channel
     def is_vpc_peerlink(self):
         """Return a boolean indicating whether this port is configured as a vpc peer-link port"""
         retval = self.re_match_iter_typed(
-            r"^\s*vpc\s+peer-link", result_type=str, default=""
+            r"^\s*(vpc\s+peer-link)\s*$", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From 19de2ef843a63ceb4b19ed71befbe7b3c4e9d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:51 +0000
Subject: [PATCH 091/119] fix: NX-OS hsrp timers without hsrp

---
 ciscoconfparse/models_nxos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 86e6f82..517c06e 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1545,7 +1545,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                     return timer_msec / 1000.0
                 return 0.0
 
-        return retval
+        return 0.0
 
     @property
     def hsrp_hold_timer(self):
@@ -1569,7 +1569,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                     return timer_msec / 1000.0
                 return 0.0
 
-        return retval
+        return 0.0
 
     @property
     def has_hsrp_track(self):
-- 
2.43.0


From 723a601f6deabdf73ec3002d9fff7369f0abc7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:58 +0000
Subject: [PATCH 092/119] fix: NX-OS hsrp_priority reports the default

---
 ciscoconfparse/models_nxos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 517c06e..755e3c2 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1522,6 +1522,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                 )
                 if retval != DEFAULT_PRI:
                     return retval
+        return DEFAULT_PRI
 
     @property
     def hsrp_hello_timer(self):
-- 
2.43.0


From 14eb98e6f5db037fa40ad2541a6a32f716cbf98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:03 +0000
Subject: [PATCH 093/119] fix: NX-OS and IOS-XR has_dtp looks for nonegotiate

---
 ciscoconfparse/models_iosxr.py | 2 +-
 ciscoconfparse/models_nxos.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 96124a5..bb16ee9 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1524,7 +1524,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
         ##   default value is True
         for obj in self.children:
             switch = obj.re_match(r"^\s*(switchport\snoneg\S*)\s*$")
-            if (switch is not None):
+            if switch:
                 return False
         return True
 
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 755e3c2..5791e73 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1300,7 +1300,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         ##   default value is True
         for obj in self.children:
             switch = obj.re_match(r"^\s*(switchport\snoneg\S*)\s*$")
-            if (switch is not None):
+            if switch:
                 return False
         return True
 
-- 
2.43.0


From d3aee717c016e2eb58bf746f3187b18571bc6274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:09 +0000
Subject: [PATCH 094/119] fix: NX-OS has_ip_pim regexes compile

---
 ciscoconfparse/models_nxos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 5791e73..772a8c2 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1131,7 +1131,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\sdense-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\sdense-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
@@ -1146,7 +1146,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\ssparse-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
@@ -1161,7 +1161,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-dense-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\ssparse-dense-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From b7efa448a324dcc9c021256bdf7d618c08630ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:15 +0000
Subject: [PATCH 095/119] fix: NX-OS ip_helper_addresses without vrf

---
 ciscoconfparse/models_nxos.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 772a8c2..a479423 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1212,13 +1212,9 @@ class BaseNXOSIntfLine(NXOSCfgLine):
            >>>"""
         retval = list()
 
+        vrf = self.vrf
         for child in self.children:
-            if "vrf member" in child.text:
-                vrf = child.re_match_typed(r"vrf\s+member\s+(\S+)", default="")
-                break
-
-        for child in self.children:
-            if "dhcp relay address" in child.text:
+            if child.text.split()[0:4] == ["ip", "dhcp", "relay", "address"]:
                 addr = child.re_match_typed(
                     r"ip\s+dhcp\s+relay\s+address\s+(\d+\.\d+\.\d+\.\d+)"
                 )
-- 
2.43.0


From d43ff1cd617173c4347948313f43ffdf41c88e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:22 +0000
Subject: [PATCH 096/119] fix: NX-OS and IOS-XR in_ipv4_subnets with an empty
 list

---
 ciscoconfparse/models_iosxr.py | 2 +-
 ciscoconfparse/models_nxos.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index bb16ee9..1376aac 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1239,7 +1239,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
             tmp = self.in_ipv4_subnet(ipv4network=subnet)
             if self.ipv4_addr_object in subnet:
                 return tmp
-        return tmp
+        return False
 
     # This method is on BaseIOSXRIntfLine()
     @property
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index a479423..88e580c 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1044,7 +1044,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             tmp = self.in_ipv4_subnet(ipv4network=subnet)
             if self.ipv4_addr_object in subnet:
                 return tmp
-        return tmp
+        return False
 
     @property
     def has_no_icmp_unreachables(self):
-- 
2.43.0


From d41b0badfd35187172d721bb6210230a27d25a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:29 +0000
Subject: [PATCH 097/119] fix: NX-OS and IOS-XR trunk encapsulation and
 storm-control regexes

---
 ciscoconfparse/models_iosxr.py | 4 ++--
 ciscoconfparse/models_nxos.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 1376aac..a32a755 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1474,7 +1474,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     @logger.catch(reraise=True)
     def manual_switch_trunk_encap(self):
         retval = self.re_match_iter_typed(
-            r"^\s*(switchport\s+trunk\s+encap\s+(\S+))\s*$", result_type=str, default=""
+            r"^\s*switchport\s+trunk\s+encap\s+(\S+)\s*$", result_type=str, default=""
         )
         return retval
 
@@ -1508,7 +1508,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
         if not self.is_switchport:
             return False
         retval = self.re_match_iter_typed(
-            r"^\s*(storm-control)\s*$", result_type=bool, default=False
+            r"^\s*(storm-control)\s", result_type=bool, default=False
         )
         return retval
 
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 88e580c..3d7f841 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1244,7 +1244,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
     def manual_switch_trunk_encap(self):
         """Return a string with the switchport encapsulation type; if there is no manual trunk encapsulation, return ''."""
         retval = self.re_match_iter_typed(
-            r"^\s*(switchport\s+trunk\s+encapsulation\s+(\S+))\s*$",
+            r"^\s*switchport\s+trunk\s+encapsulation\s+(\S+)\s*$",
             result_type=str,
             default="",
         )
@@ -1282,7 +1282,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         if not self.is_switchport:
             return False
         retval = self.re_match_iter_typed(
-            r"^\s*(storm-control)\s*$", result_type=bool, default=False
+            r"^\s*(storm-control)\s", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From e288165ee0ce02df768f4d3b285d38db50d42f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:36 +0000
Subject: [PATCH 098/119] fix: NX-OS and IOS-XR descriptions may hold one
 character

---
 ciscoconfparse/models_iosxr.py | 2 +-
 ciscoconfparse/models_nxos.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index a32a755..7a7ffe5 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -785,7 +785,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
 
         """
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 3d7f841..545a023 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -672,7 +672,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
 
         """
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From 18c3e3d49057e6dd3273732c3964af87d0a7ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:43 +0000
Subject: [PATCH 099/119] fix: NX-OS trunk_vlans_allowed applies VLAN ranges

---
 ciscoconfparse/models_nxos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 545a023..0606afb 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1403,12 +1403,12 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                         else:
                             retval = CiscoRange(val, result_type=int)
                     elif "add" in key:
-                        retval.append(val)
+                        retval = retval + CiscoRange(val, result_type=int)
                     elif "except" in key:
                         retval = CiscoRange("1-{}".format(MAX_VLAN), result_type=int)
-                        retval.remove(val)
+                        retval = retval - CiscoRange(val, result_type=int)
                     elif "remove" in key:
-                        retval.remove(val)
+                        retval = retval - CiscoRange(val, result_type=int)
 
         return retval
 
-- 
2.43.0


From 1661bd9efedf3f9cb8a619957a4227aabe8fa83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:50 +0000
Subject: [PATCH 100/119] fix: IOS-XR vrf regex group

---
 ciscoconfparse/models_iosxr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 7a7ffe5..be05662 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1104,7 +1104,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     def vrf(self):
         # See Github Issue #235...
         retval = self.re_match_iter_typed(
-            r"^\s*vrf\s(\S+)$", result_type=str, group=2, default=""
+            r"^\s*vrf\s(\S+)$", result_type=str, group=1, default=""
         )
         return retval
 
-- 
2.43.0


From f025dea7fac88b2e2fc8971a6f03dba9e7375041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:57 +0000
Subject: [PATCH 101/119] fix: NX-OS has_ip_arp_synchronize regex is anchored

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 0606afb..0781b6d 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1859,7 +1859,7 @@ class NXOSvPCLine(BaseCfgLine):
     @property
     def has_ip_arp_synchronize(self):
         retval = self.re_match_iter_typed(
-            r"(ip\s+arp\s+synchronize)", result_type=bool, default=False
+            r"^\s+(ip\s+arp\s+synchronize)", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From 5d860e5893590146d58acd8c5e35ab70795142dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:05 +0000
Subject: [PATCH 102/119] fix: NX-OS peer-keepalive timeout is not hold-timeout

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 0781b6d..596b045 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1878,7 +1878,7 @@ class NXOSvPCLine(BaseCfgLine):
             r"peer-keepalive\s+.*?interval\s+(\d+)", result_type=int, default=-1
         )
         timeout = self.re_match_iter_typed(
-            r"peer-keepalive\s+.*?timeout\s+(\d+)", result_type=int, default=-1
+            r"peer-keepalive\s+.*?\stimeout\s+(\d+)", result_type=int, default=-1
         )
         prec = self.re_match_iter_typed(
             r"peer-keepalive\s+.*?precedence\s+(\S+)", result_type=str, default=""
-- 
2.43.0


From 38a809eee7ac2b0d5cab91e61eabb56a31c01f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:12 +0000
Subject: [PATCH 103/119] fix: NX-OS nexthop_str of ipv6 routes

---
 ciscoconfparse/models_nxos.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 596b045..dde2d6d 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2204,17 +2204,11 @@ class NXOSRouteLine(BaseNXOSRouteLine):
     def nexthop_str(self):
         if self._address_family == "ip":
             if self.next_hop_interface:
-                return self.next_hop_interface + " " + self.next_hop_addr
+                return (self.next_hop_interface + " " + self.next_hop_addr).strip()
             else:
                 return self.next_hop_addr
         elif self._address_family == "ipv6":
-            retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*\S+\s+(\S+)",
-                group=2,
-                result_type=str,
-                default="",
-            )
-        return retval
+            return (self.next_hop_interface + " " + self.next_hop_addr).strip()
 
     @property
     def next_hop_interface(self):
-- 
2.43.0


From c69984baa5aa676cc8aa32ae9a2bbd4cce751dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:20 +0000
Subject: [PATCH 104/119] fix: NX-OS ipv6 routes have no tracking object

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index dde2d6d..a24b6ca 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2251,7 +2251,7 @@ class NXOSRouteLine(BaseNXOSRouteLine):
 
     @property
     def tracking_object_name(self):
-        return self.route_info["track_group"]
+        return self.route_info.get("track_group", None)
 
 
 ################################
-- 
2.43.0


From d6994c0815734eea4f1ede9470c079a494e9d753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:29 +0000
Subject: [PATCH 105/119] fix: NX-OS ip route with several blanks

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index a24b6ca..e17dac0 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2094,7 +2094,7 @@ _RE_IP_ROUTE = re.compile(
 (?P<prefix>\d+\.\d+\.\d+\.\d+)          # Prefix detection
 \/
 (?P<masklen>\d+)                        # Netmask detection
-(?:\s+(?P<nh_intf>[^\d]\S+))?           # NH intf
+(?:\s+(?P<nh_intf>[^\d\s]\S+))?         # NH intf
 (?:\s+(?P<nh_addr>\d+\.\d+\.\d+\.\d+))? # NH addr
 (?:\s+track\s+(?P<track_group>\d+))?    # Tracking object
 (?:\s+name\s+(?P<name>\S+))?     # Route name
-- 
2.43.0


From de0f1ea4b69f5941ed64aa4863043bbcb88e6479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:35 +0000
Subject: [PATCH 106/119] fix: NX-OS ipv6 routes with a vrf report network

---
 ciscoconfparse/models_nxos.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index e17dac0..ee81956 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2170,13 +2170,7 @@ class NXOSRouteLine(BaseNXOSRouteLine):
         if self._address_family == "ip":
             return self.route_info["prefix"]
         elif self._address_family == "ipv6":
-            retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*(\S+?)\/\d+",
-                group=2,
-                result_type=str,
-                default="",
-            )
-        return retval
+            return self.route_info["prefix"]
 
     @property
     def netmask(self):
-- 
2.43.0


From b69fc25a8260399df0ba79e4d560d52c32bb4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:32 +0000
Subject: [PATCH 107/119] fix: fix: line ranges and exec-timeouts of access
 lines

---
 ciscoconfparse/models_cisco.py | 8 ++++----
 ciscoconfparse/models_nxos.py  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 5370f9e..b7dc958 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2801,9 +2801,9 @@ class IOSAccessLine(IOSCfgLine):
         ## line con 0 => [0]
         ## line 33 48 => [33, 48]
         retval = self.re_match_typed(
-            r"([a-zA-Z]+\s+)*(\d+\s*\d*)$", group=2, result_type=str, default=""
+            r"([a-zA-Z]+\s+)*(\d+\s*\d*)\s*$", group=2, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
     @logger.catch(reraise=True)
@@ -2814,7 +2814,7 @@ class IOSAccessLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def manual_exectimeout_seconds(self):
         tmp = self.parse_exectimeout
-        if len(tmp > 0):
+        if len(tmp) < 2:
             return 0
         return tmp[1]
 
@@ -2824,7 +2824,7 @@ class IOSAccessLine(IOSCfgLine):
         retval = self.re_match_iter_typed(
             r"^\s*exec-timeout\s+(\d+\s*\d*)\s*$", group=1, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
 
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index ee81956..e208451 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1995,9 +1995,9 @@ class NXOSAccessLine(BaseCfgLine):
         ## line con 0 => [0]
         ## line 33 48 => [33, 48]
         retval = self.re_match_typed(
-            r"([a-zA-Z]+\s+)*(\d+\s*\d*)$", group=2, result_type=str, default=""
+            r"([a-zA-Z]+\s+)*(\d+\s*\d*)\s*$", group=2, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
     def manual_exectimeout_minutes(self):
@@ -2006,7 +2006,7 @@ class NXOSAccessLine(BaseCfgLine):
 
     def manual_exectimeout_seconds(self):
         tmp = self.parse_exectimeout
-        if len(tmp > 0):
+        if len(tmp) < 2:
             return 0
         return tmp[1]
 
@@ -2015,7 +2015,7 @@ class NXOSAccessLine(BaseCfgLine):
         retval = self.re_match_iter_typed(
             r"^\s*exec-timeout\s+(\d+\s*\d*)\s*$", group=1, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
 
-- 
2.43.0


From e9e96b4002763206a9794e0000d653280e9573af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:38 +0000
Subject: [PATCH 108/119] fix: fix: groups and methods of AAA lines

---
 ciscoconfparse/models_cisco.py | 16 ++++++++--------
 ciscoconfparse/models_nxos.py  | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index b7dc958..5f2c5f0 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3226,13 +3226,13 @@ class IOSAaaLoginAuthenticationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication login"
 
-        regex = r"^aaa\sauthentication\slogin\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\s+authentication\s+login\s+(\S+)(?:\s+group\s+(\S+))?(?:\s+(\S.*?))?\s*$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3252,13 +3252,13 @@ class IOSAaaEnableAuthenticationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication enable"
 
-        regex = r"^aaa\s+authentication\s+enable\s+(\S+)\s+group\s+(\S+)(.+?)$"
+        regex = r"^aaa\s+authentication\s+enable\s+(\S+)(?:\s+group\s+(\S+))?(?:\s+(\S.*?))?\s*$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3278,14 +3278,14 @@ class IOSAaaCommandsAuthorizationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization commands"
 
-        regex = r"^aaa\s+authorization\s+commands\s+(\d+)\s+(\S+)\s+group\s+(\S+)(.+?)$"
+        regex = r"^aaa\s+authorization\s+commands\s+(\d+)\s+(\S+)(?:\s+group\s+(\S+))?(?:\s+(\S.*?))?\s*$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3305,14 +3305,14 @@ class IOSAaaConsoleAuthorizationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization console"
 
-        regex = r"^aaa\s+authorization\s+console\s+(\d+)\s+(\S+)\s+group\s+(\S+)(.+?)$"
+        regex = r"^aaa\s+authorization\s+console\s+(\d+)\s+(\S+)(?:\s+group\s+(\S+))?(?:\s+(\S.*?))?\s*$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     @logger.catch(reraise=True)
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index e208451..5bbe6cb 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2311,13 +2311,13 @@ class NXOSAaaLoginAuthenticationLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication login"
 
-        regex = r"^aaa\sauthentication\slogin\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\s+authentication\s+login\s+(\S+)(?:\s+group\s+(\S+))?(?:\s+(\S.*?))?\s*$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2334,13 +2334,13 @@ class NXOSAaaEnableAuthenticationLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication enable"
 
-        regex = r"^aaa\sauthentication\senable\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\s+authentication\s+enable\s+(\S+)(?:\s+group\s+(\S+))?(?:\s+(\S.*?))?\s*$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2357,14 +2357,14 @@ class NXOSAaaCommandsAuthorizationLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization commands"
 
-        regex = r"^aaa\sauthorization\scommands\s(\d+)\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\s+authorization\s+commands\s+(\d+)\s+(\S+)(?:\s+group\s+(\S+))?(?:\s+(\S.*?))?\s*$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2381,14 +2381,14 @@ class NXOSAaaConsoleAuthorizationLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization console"
 
-        regex = r"^aaa\s+authorization\s+console\s+(\d+)\s(\S+)\s+group\s+(\S+)(.+?)$"
+        regex = r"^aaa\s+authorization\s+console\s+(\d+)\s+(\S+)(?:\s+group\s+(\S+))?(?:\s+(\S.*?))?\s*$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
-- 
2.43.0


From bf4e48fca42b8fdbb2dbbaa8cb32d5606ad18aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:43 +0000
Subject: [PATCH 109/119] fix: fix: AAA accounting lines with none, broadcast
 or several groups

---
 ciscoconfparse/models_cisco.py | 4 ++--
 ciscoconfparse/models_nxos.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 5f2c5f0..c81916f 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3332,7 +3332,7 @@ class IOSAaaCommandsAccountingLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa accounting commands"
 
-        regex = r"^aaa\s+accounting\s+commands\s+(\d+)\s+(\S+)\s+(none|stop\-only|start\-stop)\s+group\s+(\S+)$"
+        regex = r"^aaa\s+accounting\s+commands\s+(\d+)\s+(\S+)\s+(none|stop\-only|start\-stop)(?:\s+broadcast)?(?:\s+group\s+(\S+))?(?:\s|$)"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
@@ -3360,7 +3360,7 @@ class IOSAaaExecAccountingLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa accounting exec"
 
-        regex = r"^aaa\s+accounting\s+exec\s+(\S+)\s+(none|stop\-only|start\-stop)\s+group\s(\S+)$"
+        regex = r"^aaa\s+accounting\s+exec\s+(\S+)\s+(none|stop\-only|start\-stop)(?:\s+broadcast)?(?:\s+group\s+(\S+))?(?:\s|$)"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 5bbe6cb..d1b9b20 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2405,7 +2405,7 @@ class NXOSAaaCommandsAccountingLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa accounting commands"
 
-        regex = r"^aaa\saccounting\scommands\s(\d+)\s(\S+)\s(none|stop\-only|start\-stop)\sgroup\s(\S+)$"
+        regex = r"^aaa\s+accounting\s+commands\s+(\d+)\s+(\S+)\s+(none|stop\-only|start\-stop)(?:\s+broadcast)?(?:\s+group\s+(\S+))?(?:\s|$)"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
@@ -2430,7 +2430,7 @@ class NXOSAaaExecAccountingLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa accounting exec"
 
-        regex = r"^aaa\saccounting\sexec\s(\S+)\s(none|stop\-only|start\-stop)\sgroup\s(\S+)$"
+        regex = r"^aaa\s+accounting\s+exec\s+(\S+)\s+(none|stop\-only|start\-stop)(?:\s+broadcast)?(?:\s+group\s+(\S+))?(?:\s|$)"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
-- 
2.43.0


From 46da3bd94102431255fb376c33c6313c239efc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:50 +0000
Subject: [PATCH 110/119] fix: fix: server-private without options

---
 ciscoconfparse/models_cisco.py | 2 +-
 ciscoconfparse/models_nxos.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index c81916f..a0fa916 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3208,7 +3208,7 @@ class IOSAaaGroupServerLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def server_private(self, re=re):
         retval = set([])
-        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)\s")
+        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)(?:\s|$)")
         for cobj in self.children:
             mm = rgx_priv.search(cobj.text)
             if (mm is not None):
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index d1b9b20..2ad9788 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2295,7 +2295,7 @@ class NXOSAaaGroupServerLine(BaseCfgLine):
     @property
     def server_private(self, re=re):
         retval = set()
-        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)\s")
+        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)(?:\s|$)")
         for cobj in self.children:
             mm = rgx_priv.search(cobj.text)
             if (mm is not None):
-- 
2.43.0


From f952cb930b568475d143692c47a87649a7487e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:57 +0000
Subject: [PATCH 111/119] fix: fix: reset() of interfaces and access lines

---
 ciscoconfparse/models_cisco.py | 8 ++++++--
 ciscoconfparse/models_iosxr.py | 4 +++-
 ciscoconfparse/models_nxos.py  | 8 ++++++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index a0fa916..b306235 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -936,7 +936,9 @@ class BaseIOSIntfLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.confobj.insert_before(
+            exist_val=self, new_val=self.build_reset_string(), atomic=atomic
+        )
 
     # This method is on BaseIOSIntfLine()
     @logger.catch(reraise=True)
@@ -2782,7 +2784,9 @@ class IOSAccessLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.confobj.insert_before(
+            exist_val=self, new_val=self.build_reset_string(), atomic=atomic
+        )
 
     @logger.catch(reraise=True)
     def build_reset_string(self):
diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index be05662..e7e1e39 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -409,7 +409,9 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     @logger.catch(reraise=True)
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.confobj.insert_before(
+            exist_val=self, new_val=self.build_reset_string(), atomic=atomic
+        )
 
     # This method is on BaseIOSXRIntfLine()
     @logger.catch(reraise=True)
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 2ad9788..83cb8c6 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -343,7 +343,9 @@ class BaseNXOSIntfLine(NXOSCfgLine):
 
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.confobj.insert_before(
+            exist_val=self, new_val=self.build_reset_string(), atomic=atomic
+        )
 
     def build_reset_string(self):
         # IOS interfaces are defaulted like this...
@@ -1979,7 +1981,9 @@ class NXOSAccessLine(BaseCfgLine):
 
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.confobj.insert_before(
+            exist_val=self, new_val=self.build_reset_string(), atomic=atomic
+        )
 
     def build_reset_string(self):
         # IOS interfaces are defaulted like this...
-- 
2.43.0


From 3227d5a3fa84b7ad47302deeb9318c3e0e26e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:28 +0000
Subject: [PATCH 112/119] fix: fix: teredo and sixtofour of IPv6Obj

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 2e13225..254391a 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2424,12 +2424,12 @@ class IPv6Obj(object):
     # On IPv6Obj()
     @property
     def teredo(self):
-        return self.network_object.teredo
+        return self.ip_object.teredo
 
     # On IPv6Obj()
     @property
     def sixtofour(self):
-        return self.network_object.sixtofour
+        return self.ip_object.sixtofour
 
 
 class L4Object(object):
-- 
2.43.0


From fb8752f6a4b556dde6e184f5f0afc7cd4696912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:59 +0000
Subject: [PATCH 113/119] fix: only unit lines are junos subinterfaces

---
 ciscoconfparse/models_junos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index 53acb37..06d5d09 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -183,7 +183,7 @@ class JunosCfgLine(BaseCfgLine):
                 ##############################################################
                 for unitobj in intfobj.children:
                     if unitobj is self:
-                        return True
+                        return bool(re.search(r"^\s*unit\s", self.text))
             return False
         return False
 
@@ -226,7 +226,7 @@ class JunosCfgLine(BaseCfgLine):
            >>>
         """
         if self.is_intf is True:
-            if "unit" in self.intf_name:
+            if re.search(r"^\s*unit\s", self.text):
                 return True
         return False
 
-- 
2.43.0


From b8add79b16d39f1033ac37108af83a9397d9a766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:06 +0000
Subject: [PATCH 114/119] fix: is_switchport of junos interfaces reads
 commands, not descriptions

---
 ciscoconfparse/models_junos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index 06d5d09..ae4cf0a 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -237,7 +237,7 @@ class JunosCfgLine(BaseCfgLine):
         """Return True if this is a switchport interface"""
         if self.is_intf is True:
             for cobj in self.all_children:
-                if "family ethernet-switching" in cobj.text:
+                if re.search(r"^\s*family\s+ethernet-switching\b", cobj.text):
                     return True
         return False
 
-- 
2.43.0


From 46dde7de807765e69e8954b2c0162a296c791ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:42 +0000
Subject: [PATCH 115/119] fix: add_uncfgtext() keeps the command when it
 withdraws a no line

---
 ciscoconfparse/ccp_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index e1017a3..9269d8b 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -607,7 +607,7 @@ class BaseCfgLine(metaclass=ABCMeta):
         deprecation_warn_str = "add_uncfgtext() is deprecated and will be removed."
         warnings.warn(deprecation_warn_str, DeprecationWarning)
         ## remove any preceeding "no " from Cisco IOS commands...
-        conftext = re.sub(r"^(\s*)(no\s+)(\S.*)?$", "\3", unconftext)
+        conftext = re.sub(r"^\s*(?:no\s+)?", "", unconftext)
         myindent = self.parent.child_indent
 
         # write access to self.uncfgtext is not supported
-- 
2.43.0


From 777da83f59c6f8fe82e62b6cf7d19b41909bc23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:47 +0000
Subject: [PATCH 116/119] fix: add_uncfgtext() indents the withdrawn line like
 the line itself

---
 ciscoconfparse/ccp_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 9269d8b..29a8112 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -608,7 +608,7 @@ class BaseCfgLine(metaclass=ABCMeta):
         warnings.warn(deprecation_warn_str, DeprecationWarning)
         ## remove any preceeding "no " from Cisco IOS commands...
         conftext = re.sub(r"^\s*(?:no\s+)?", "", unconftext)
-        myindent = self.parent.child_indent
+        myindent = self.indent
 
         # write access to self.uncfgtext is not supported
         self._uncfgtext_to_be_deprecated = myindent * " " + "no " + conftext
-- 
2.43.0


From 46dcf0b0779711555719f3934eb83734a3ede767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:52 +0000
Subject: [PATCH 117/119] fix: ConfigList().sort() needs no positional argument

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 088bbe6..969ac3c 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5220,7 +5220,7 @@ class ConfigList(MutableSequence):
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-    def sort(self, _unknown_arg, *args, **kwds):
+    def sort(self, _unknown_arg=None, *args, **kwds):
         self._list.sort(*args, **kwds)
 
     # This method is on ConfigList()
-- 
2.43.0


From bac384bcb8037782b2a1a45215b05de5e47dfdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:00 +0000
Subject: [PATCH 118/119] fix: ConfigList() slices, sums, products and copies

---
 ciscoconfparse/ciscoconfparse.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 969ac3c..1dc6531 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5066,7 +5066,7 @@ class ConfigList(MutableSequence):
     @ logger.catch(reraise=True)
     def __getitem__(self, ii):
         if isinstance(ii, slice):
-            return self.__class__(self._list[ii])
+            return self._new_list(self._list[ii])
         else:
             return self._list[ii]
 
@@ -5086,19 +5086,19 @@ class ConfigList(MutableSequence):
     @ logger.catch(reraise=True)
     def __add__(self, other):
         if isinstance(other, ConfigList):
-            return self.__class__(self._list + other._list)
+            return self._new_list(self._list + other._list)
         elif isinstance(other, type(self._list)):
-            return self.__class__(self._list + other)
-        return self.__class__(self._list + list(other))
+            return self._new_list(self._list + other)
+        return self._new_list(self._list + list(other))
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __radd__(self, other):
         if isinstance(other, ConfigList):
-            return self.__class__(other._list + self._list)
+            return self._new_list(other._list + self._list)
         elif isinstance(other, type(self._list)):
-            return self.__class__(other + self._list)
-        return self.__class__(list(other) + self._list)
+            return self._new_list(other + self._list)
+        return self._new_list(list(other) + self._list)
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
@@ -5114,7 +5114,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __mul__(self, val):
-        return self.__class__(self._list * val)
+        return self._new_list(self._list * val)
 
     __rmul__ = __mul__
 
@@ -5132,6 +5132,13 @@ class ConfigList(MutableSequence):
         inst.__dict__["_list"] = self.__dict__["_list"][:]
         return inst
 
+    # This method is on ConfigList()
+    def _new_list(self, objs):
+        """Return a ConfigList() like this one which holds the objects in ``objs``"""
+        inst = self.__copy__()
+        inst._list = objs
+        return inst
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __str__(self):
@@ -5201,7 +5208,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def copy(self):
-        return self.__class__(self)
+        return self._new_list(self._list[:])
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-- 
2.43.0


From 6b37c6bf5e3c0cebde4e487b1f2a058e4278152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:37 +0000
Subject: [PATCH 119/119] fix: blank lines which are dropped do not decide the
 parent of a comment

---
 ciscoconfparse/ciscoconfparse.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 1dc6531..39870cf 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5875,7 +5875,13 @@ class ConfigList(MutableSequence):
                 ),
             )
 
-        if childobj.is_comment and (_list[idx - 1].indent > indent):
+        above = idx - 1
+        if self.ignore_blank_lines is True:
+            # Blank lines which are dropped later do not count
+            while above > 0 and _list[above].text.strip() == "":
+                above -= 1
+
+        if childobj.is_comment and (_list[above].indent > indent):
             ## I *really* hate making this exception, but legacy
             ##   ciscoconfparse never marked a comment as a child
             ##   when the line immediately above it was indented more
-- 
2.43.0

