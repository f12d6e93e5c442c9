From ada4c928c7b82261bc2a80bb53806ee8215970e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:25 +0000
Subject: [PATCH 01/75] fix: write every child of a term, also when several
 have the same name

Term.rows kept terminal children in a dict by name, so all but the last of several
children with the same name (the columns of a table, for instance) were missing from
as_csv() and as_lines(), and a child named like the term's value name replaced the value.
---
 metatab/terms.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 057042f..a2ea877 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -621,8 +621,15 @@ class Term(object):
 
         properties = {tvm: self.value}
 
+        names = [c.record_term_lc for c in self.children]
+
+        def is_property(c):
+            # A property has one slot, so it can't hold one of several children with the same name, nor
+            # a child that has the name of the term's own value.
+            return c.is_terminal and names.count(c.record_term_lc) == 1 and c.record_term_lc != tvm.lower()
+
         for c in self.children:
-            if c.is_terminal:
+            if is_property(c):
                 if c.record_term_lc:
                     # This is rare, but can happen if a property child is not given
                     # a property name by the section -- the "Section" term has a blank column.
@@ -630,9 +637,9 @@ class Term(object):
 
         yield (self.qualified_term, properties)
 
-        # The non-terminal children have to get yielded normally -- they can't be arg-children
+        # The other children have to get yielded normally -- they can't be arg-children
         for c in self.children:
-            if not c.is_terminal:
+            if not is_property(c):
                 for row in c.rows:
                     yield row
 
-- 
2.43.0


From 638544aa79d9ad5277ce3429cbce9a62d6159cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:41 +0000
Subject: [PATCH 02/75] fix: only remove a leading 'root.' from the term names
 that are written

A parent term with a name that ends in 'root' (Taproot.Depth) lost that part of its name.
---
 metatab/doc.py   | 2 +-
 metatab/terms.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 1db299e..7aebc24 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -803,7 +803,7 @@ class MetatabDoc(object):
             for row in s.rows:
                 term, value = row
 
-                term = term.replace('root.', '').title()
+                term = (term[len('root.'):] if term.startswith('root.') else term).title()
 
                 try:
                     yield [term] + value
diff --git a/metatab/terms.py b/metatab/terms.py
index a2ea877..17f82c6 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -958,7 +958,7 @@ class SectionTerm(Term):
             if not isinstance(value, (list, tuple)):
                 value = [value]
 
-            term = term.replace('root.', '').title()
+            term = (term[len('root.'):] if term.startswith('root.') else term).title()
             yield (term, value[0])
 
             children = list(zip(self.property_names, value[1:]))
-- 
2.43.0


From 0c90545eb70a52c43f802622f81f66e9a591c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:01 +0000
Subject: [PATCH 03/75] fix: escape pipe characters in the values of the Lines
 format

TextRowGenerator reads a bare pipe as a column separator, so 'a|b' was read back as a value
'a' with a property 'b'.
---
 metatab/terms.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 17f82c6..da69293 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -947,9 +947,13 @@ class SectionTerm(Term):
     def lines(self):
         """Iterate over all of the rows as text lines"""
 
+        def escape(v):
+            # A bare pipe character separates columns
+            return v.replace('|', r'\|') if isinstance(v, str) else v
+
         # Yield the section header
         if self.name != 'Root':
-            yield ('Section', '|'.join([self.value] + self.property_names))
+            yield ('Section', '|'.join(escape(e) for e in [self.value] + self.property_names))
 
         # Yield all of the rows for terms in the section
         for row in self.rows:
@@ -959,14 +963,14 @@ class SectionTerm(Term):
                 value = [value]
 
             term = (term[len('root.'):] if term.startswith('root.') else term).title()
-            yield (term, value[0])
+            yield (term, escape(value[0]))
 
             children = list(zip(self.property_names, value[1:]))
 
             for prop, value in children:
                 if value and value.strip():
                     child_t = '.' + (prop.title())
-                    yield ("    "+child_t, value)
+                    yield ("    "+child_t, escape(value))
 
     def as_lines(self):
         return '\n'.join( '{}: {}'.format(t,v if v is not None else '') for t, v  in self.lines )
-- 
2.43.0


From 2c6bc43d2b0c3f9610c2470b4be5cb281085d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:01 +0000
Subject: [PATCH 04/75] fix: get_or_new_section() replaced an existing section
 with a capitalized name

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 7aebc24..e0f3369 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -271,7 +271,7 @@ class MetatabDoc(object):
 
     def get_or_new_section(self, name, params=None):
         """Create a new section or return an existing one of the same name"""
-        if name not in self.sections:
+        if name.lower() not in self.sections:
             self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)
 
         return self.sections[name.lower()]
-- 
2.43.0


From 0f7ba1c18c46762da72cdd2ddb9b7c1d4b6f3d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:01 +0000
Subject: [PATCH 05/75] fix: deleting a section by a capitalized name left its
 terms in the document

---
 metatab/doc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index e0f3369..a8fcc6c 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -317,9 +317,8 @@ class MetatabDoc(object):
     def __delitem__(self, item):
 
         try:
-            if item in self.sections:
-                for t in self.sections[item]:
-                    self.terms.remove(t)
+            for t in self.sections[item.lower()]:
+                self.terms.remove(t)
 
             del self.sections[item.lower()]
         except KeyError:
-- 
2.43.0


From 68c858edbf966b85380e04eb0069a85dcfdfec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:01 +0000
Subject: [PATCH 06/75] fix: deleting terms from a section by name had no
 effect

SectionTerm has no delete_term(), and parsed terms have a qualified name, so
del doc['Root']['Title'] did nothing, or raised AttributeError.
---
 metatab/terms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index da69293..ea7e722 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -892,9 +892,9 @@ class SectionTerm(Term):
 
     def __delitem__(self, item):
         """Delete all terms that match the given name"""
-        for t in self.terms:
-            if t.term.lower() == item.lower():
-                self.delete_term(item)
+        for t in list(self.terms):
+            if t.term_is(item):
+                self.remove_term(t)
 
         return
 
-- 
2.43.0


From d179432bfa583d8194586248e65814178cfef746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:21 +0000
Subject: [PATCH 07/75] fix: get_or_new_term() without a value replaced the
 value of the existing term with False

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index ea7e722..dabee8f 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -800,7 +800,7 @@ class SectionTerm(Term):
             t = self.new_term(term, value, **kwargs)
 
         else:
-            if value is not None:
+            if value is not False:
                 t.value = value
 
             for k, v in kwargs.items():
-- 
2.43.0


From 62868a8da4b75092f10ccb5ce1fe565063f30278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:08 +0000
Subject: [PATCH 08/75] fix: adding or moving a term to a section takes it out
 of its previous section

SectionTerm.add_term() left the term in both sections, with its section set to the old one, and
failed on a new term that has no section.
---
 metatab/terms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index dabee8f..3f276c6 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -752,6 +752,13 @@ class SectionTerm(Term):
         """Add a term to this section and set it's ownership. Should only be used on root level terms"""
         if t not in self.terms:
             if t.parent_term_lc == 'root':
+
+                # A term is in only one section of the document
+                if t.section is not None and t.section is not self and t.section.doc is self.doc:
+                    t.section.remove_term(t, remove_from_doc=False)
+
+                t._section = self
+
                 self.terms.append(t)
 
                 self.doc.add_term(t, add_section=False)
-- 
2.43.0


From 5d7dfb771fba9c5d19bca26e34adeedc522259e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:08 +0000
Subject: [PATCH 09/75] fix: adding a term from another document took over the
 other document's section

The section object became part of both documents, with all of its terms, and the other document's
section searched the wrong document from then on.
---
 metatab/doc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index a8fcc6c..1ed13dc 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -242,13 +242,17 @@ class MetatabDoc(object):
 
     def add_section(self, s):
 
-        s.doc = self
-
         assert isinstance(s, SectionTerm), str(s)
 
         # Coalesce sections, and if a foreign term is added with a foreign section
         # it will get re-assigned to the local section
         if s.value.lower() not in self.sections:
+
+            if s.doc is not None and s.doc is not self:
+                # The other document keeps its section, and the terms in it.
+                s = SectionTerm(None, s.value, term_args=list(s.property_names), doc=self)
+
+            s.doc = self
             self.sections[s.value.lower()] = s
 
         return self.sections[s.value.lower()]
-- 
2.43.0


From f6728c8c9f5c467a6ac7478ccb26c8c126fe4336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:08 +0000
Subject: [PATCH 10/75] fix: removing a term of a deleted section brought the
 section back

---
 metatab/doc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 1ed13dc..ecfba09 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -230,8 +230,10 @@ class MetatabDoc(object):
             pass
 
         if t.section and t.parent_term_lc == 'root':
-            t.section = self.add_section(t.section)
-            t.section.remove_term(t, remove_from_doc=False)
+            section = self.get_section(t.section.value, default=None)
+
+            if section:
+                section.remove_term(t, remove_from_doc=False)
 
         if t.parent:
             try:
-- 
2.43.0


From ac3c4a9ea79034e9aea977e32ede250a46087763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:08 +0000
Subject: [PATCH 11/75] fix: a child added to a term of a document gets the
 term's section and document

Without them, as_csv() and as_lines() raise AttributeError when the child has children.
---
 metatab/terms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 3f276c6..b42368b 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -168,6 +168,12 @@ class Term(object):
         assert isinstance(child, Term)
         self.children.append(child)
         child.parent = self
+
+        if child.section is None and self.section is not None:
+            child._section = self.section
+            child.doc = self.doc
+            child.set_ownership()
+
         assert not child.term_is("Datafile.Section")
 
     def new_child(self, term, value, **kwargs):
-- 
2.43.0


From ecdfaa6b7cfae49e5959e55fec78a36e330a4cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:05 +0000
Subject: [PATCH 12/75] fix: adding a term whose value is named 'section' to a
 document replaced its value

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index ecfba09..d578a4d 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -190,7 +190,7 @@ class MetatabDoc(object):
             self.terms.append(t)
 
         if add_section and t.section and t.parent_term_lc == 'root':
-            t.section = self.add_section(t.section)
+            t._section = self.add_section(t.section)
             t.section.add_term(t)
 
         if not t.child_property_type or t.child_property_type == 'any':
-- 
2.43.0


From 730f56db71bcb6fc87631bb85028e7a06b418bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:59 +0000
Subject: [PATCH 13/75] fix: includes in an included document, and in a
 document in the current directory, are resolved

---
 metatab/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index efb820d..d20bb13 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -314,9 +314,11 @@ class TermParser(object):
         if isinstance(ref, Source):
             row_gen = ref
             ref_path = row_gen.__class__.__name__
+            ref_dir = dirname(ref_path)
         else:
             row_gen = get_generator(ref)
             ref_path = ref.path
+            ref_dir = dirname(ref_path) or '.'
 
 
         try:
@@ -343,9 +345,9 @@ class TermParser(object):
                 if t.term_is('include') or t.term_is('declare'):
 
                     if t.term_is('include'):
-                        resolved = self.find_include_doc(dirname(ref_path), t.value.strip())
+                        resolved = self.find_include_doc(ref_dir, t.value.strip())
                     else:
-                        resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
+                        resolved = self.find_declare_doc(ref_dir, t.value.strip())
 
                     if row_gen.ref == resolved:
                         raise IncludeError("Include loop for '{}' ".format(resolved))
@@ -354,9 +356,9 @@ class TermParser(object):
 
                     try:
 
-                        sub_gen = get_generator(resolved.get_resource().get_target())
+                        target = resolved.get_resource().get_target()
 
-                        for t in self.generate_terms(sub_gen, root, file_type=t.record_term_lc):
+                        for t in self.generate_terms(target, root, file_type=t.record_term_lc):
                             yield t
 
                         if last_section:
-- 
2.43.0


From e11ec5558effb9cb420c24ceb647a64a66f18fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:02 +0000
Subject: [PATCH 14/75] fix: a document that includes itself through another
 document is an include error

---
 metatab/parser.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index d20bb13..6f86e1c 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -19,7 +19,7 @@ METATAB_ASSETS_URL = 'http://assets.metatab.org/'
 from .terms import Term, SectionTerm, RootSectionTerm
 
 from .exc import IncludeError, DeclarationError, ParserError, GenerateError
-from os.path import dirname, join, exists
+from os.path import dirname, join, exists, realpath
 from .util import declaration_path, import_name_or_class
 
 from functools import lru_cache
@@ -298,13 +298,14 @@ class TermParser(object):
 
         return parse_app_url(path)
 
-    def generate_terms(self, ref, root, file_type=None):
+    def generate_terms(self, ref, root, file_type=None, open_paths=()):
         """An generator that yields term objects, handling includes and argument
         children.
         :param file_type:
         :param doc:
         :param root:
         :param ref:
+        :param open_paths: Paths of the documents that are being read, which can't be included again
 
         """
 
@@ -320,6 +321,11 @@ class TermParser(object):
             ref_path = ref.path
             ref_dir = dirname(ref_path) or '.'
 
+            if realpath(ref_path) in open_paths:
+                raise IncludeError("Include loop for '{}' ".format(ref))
+
+            open_paths = open_paths + (realpath(ref_path),)
+
 
         try:
             for line_n, row in enumerate(row_gen, 1):
@@ -349,16 +355,13 @@ class TermParser(object):
                     else:
                         resolved = self.find_declare_doc(ref_dir, t.value.strip())
 
-                    if row_gen.ref == resolved:
-                        raise IncludeError("Include loop for '{}' ".format(resolved))
-
                     yield t
 
                     try:
 
                         target = resolved.get_resource().get_target()
 
-                        for t in self.generate_terms(target, root, file_type=t.record_term_lc):
+                        for t in self.generate_terms(target, root, t.record_term_lc, open_paths):
                             yield t
 
                         if last_section:
-- 
2.43.0


From 5f5c242cfd0e89a2e10532675905b9554f844c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:30 +0000
Subject: [PATCH 15/75] fix: an Include or Declare of a missing document, or of
 no document, is an include error

---
 metatab/parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 6f86e1c..8966d4f 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -8,7 +8,7 @@ objects.
 """
 
 from rowgenerators import Source, get_generator, Url, parse_app_url
-from rowgenerators.exceptions import DownloadError
+from rowgenerators.exceptions import DownloadError, RowGeneratorError
 
 ROOT_TERM = 'root'  # No parent term -- no '.' --  in term cell
 
@@ -350,6 +350,9 @@ class TermParser(object):
 
                 if t.term_is('include') or t.term_is('declare'):
 
+                    if not t.value:
+                        raise IncludeError("No document name in '{}' term, row {}".format(row[0], line_n))
+
                     if t.term_is('include'):
                         resolved = self.find_include_doc(ref_dir, t.value.strip())
                     else:
@@ -371,7 +374,7 @@ class TermParser(object):
                         e.term = t
                         raise
 
-                    except (OSError,  FileNotFoundError, GenerateError, DownloadError) as e:
+                    except (OSError,  FileNotFoundError, GenerateError, DownloadError, RowGeneratorError) as e:
                         e = IncludeError("Failed to Include; {}".format(e))
                         e.term = t
                         raise e
-- 
2.43.0


From 7b8cad07a5065d2b3bb9ccfd5fddc83f1743be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:49 +0000
Subject: [PATCH 16/75] fix: column names leaked into the Root section from
 declared and included documents

---
 metatab/parser.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 8966d4f..61a8dab 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -453,27 +453,24 @@ class TermParser(object):
 
                 t.section = last_section
 
-                def munge_param_map(t):
-                    return [p.lower() if p else i for i, p in enumerate(t.args)]
+                def munge_param_map(names):
+                    return [p.lower() if p else i for i, p in enumerate(names)]
 
                 if t.term_is('root.header'):
-                    self._param_map = munge_param_map(t)
+                    self._param_map = munge_param_map(t.args)
                     default_term_value_name = t.value.lower()
                     last_section.header_args = t.args
                     last_section.default_term_value_name = default_term_value_name
                     continue
 
-                elif t.term_is('root.section'):
-                    self._param_map = munge_param_map(t)
+                elif t.term_is('root.section') or t.term_is('root.root'):
+                    # A section that is re-asserted may have the names from a header
+                    self._param_map = munge_param_map(t.property_names)
                     # Parentage should not persist across sections
                     last_parent_term = self.root.record_term
 
                     last_section = t
-                    default_term_value_name = '@value'
-                    t.section = None
-
-                elif t.term_is('root.root'):
-                    last_section = t
+                    default_term_value_name = t.default_term_value_name
                     t.section = None
 
                 else:
-- 
2.43.0


From ff18b843fed9b4b733a6ff4da46f69214b77d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:52 +0000
Subject: [PATCH 17/75] fix: a Header without a value name, or a Section
 without a name, ended parsing with an AttributeError

---
 metatab/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 61a8dab..a520f83 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -383,6 +383,9 @@ class TermParser(object):
 
                 elif t.term_is('section'):
 
+                    if not t.value:
+                        raise ParserError("Section has no name, row {} in '{}'".format(line_n, ref_path))
+
                     # If there is already a section in the document, emit the existing section,
                     # rather than a new one.
                     try:
@@ -458,7 +461,7 @@ class TermParser(object):
 
                 if t.term_is('root.header'):
                     self._param_map = munge_param_map(t.args)
-                    default_term_value_name = t.value.lower()
+                    default_term_value_name = (t.value or '@value').lower()
                     last_section.header_args = t.args
                     last_section.default_term_value_name = default_term_value_name
                     continue
-- 
2.43.0


From 6729211aac452689286e97f3ccfa801271fedee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:16 +0000
Subject: [PATCH 18/75] fix: the module that the row generator entry points
 name was missing

---
 metatab/rowgenerators.py | 6 ++++++
 1 file changed, 6 insertions(+)
 create mode 100644 metatab/rowgenerators.py

diff --git a/metatab/rowgenerators.py b/metatab/rowgenerators.py
new file mode 100644
index 0000000..32dbaff
--- /dev/null
+++ b/metatab/rowgenerators.py
@@ -0,0 +1,6 @@
+# Copyright (c) 2017 Civic Knowledge. This file is licensed under the terms of the
+# MIT License, included in this distribution as LICENSE.txt
+
+"""The module name of the row generators in the package's entry points"""
+
+from .rowgen import MetatabRowGenerator, TextRowGenerator, YamlMetatabSource
-- 
2.43.0


From d36e58e6b2f1614e7ead152707ecb9a25150783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:02 +0000
Subject: [PATCH 19/75] fix: util.flatten() failed on Python 3.10 and later

---
 metatab/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/util.py b/metatab/util.py
index 368ef30..4bf42a8 100644
--- a/metatab/util.py
+++ b/metatab/util.py
@@ -55,13 +55,13 @@ def flatten(d, sep='.'):
     """Flatten a data structure into tuples"""
 
     def _flatten(e, parent_key='', sep='.'):
-        import collections
+        from collections import abc
 
         prefix = parent_key + sep if parent_key else ''
 
-        if isinstance(e, collections.MutableMapping):
+        if isinstance(e, abc.MutableMapping):
             return tuple((prefix + k2, v2) for k, v in e.items() for k2, v2 in _flatten(v, k, sep))
-        elif isinstance(e, collections.MutableSequence):
+        elif isinstance(e, abc.MutableSequence):
             return tuple((prefix + k2, v2) for i, v in enumerate(e) for k2, v2 in _flatten(v, str(i), sep))
         else:
             return (parent_key, (e,)),
-- 
2.43.0


From 15b184bf4978bcb330f563df5a04f893fe2e8fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:17 +0000
Subject: [PATCH 20/75] fix: as_version() changed the version of the document,
 and failed if it has none

---
 metatab/doc.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index d578a4d..fbcedba 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -128,7 +128,22 @@ class MetatabDoc(object):
 
         """
 
-        return self._generate_identity_name(ver)
+        version = self['Root'].find_first('Root.Version')
+
+        if not version:
+            return self._generate_identity_name(ver)
+
+        # Generating the name sets the version, but this document keeps its version
+        children = list(version.children)
+        values = [(t, t.value) for t in [version] + children]
+
+        try:
+            return self._generate_identity_name(ver)
+        finally:
+            version.children = children
+
+            for t, value in values:
+                t.value = value
 
     @property
     def doc_dir(self):
@@ -744,7 +759,7 @@ class MetatabDoc(object):
 
             try:
                 int(mv)
-            except ValueError:
+            except (ValueError, TypeError):
                 raise MetatabError(
                     "When specifying version math, version value in Root.Version or Version.Patch  term must be an integer")
 
@@ -767,6 +782,8 @@ class MetatabDoc(object):
 
         if mv is None:
             version = None
+        elif not self['Root'].find_first('Root.Version'):
+            version = mv
         else:
             set_ver(mv)
             version = self.update_version()
-- 
2.43.0


From 08260098f59ec4309817efa2f16a7664d97acd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:05 +0000
Subject: [PATCH 21/75] fix: find() expands derived terms in a list of terms
 and for an unqualified name, in a fixed order

---
 metatab/doc.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index fbcedba..acba960 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -395,18 +395,15 @@ class MetatabDoc(object):
         # Try to replace the term with the list of its derived terms; that is, replace the super-class with all
         # of the derived classes, but only do this expansion once.
         if _expand_derived:
-            try:
-                try:
-                    # Term is a string
-                    term = list(self.derived_terms[term.lower()]) + [term]
-                except AttributeError:  # Term is hopefully a list
-                    terms = []
-                    for t in term:
-                        terms.append(term)
-                        for dt in self.derived_terms[t.lower()]:
-                            terms.append(dt)
-            except KeyError as e:
-                pass
+
+            def expand(t):
+                t = Term.normalize_term(t)
+                return sorted(self.derived_terms.get(t, [])) + [t]
+
+            if not isinstance(term, str):
+                term = list(OrderedDict.fromkeys(e for t in term for e in expand(t)))
+            elif Term.normalize_term(term) in self.derived_terms:
+                term = expand(term)
 
         # Find any of a list of terms
         if isinstance(term, (list, tuple)):
-- 
2.43.0


From 09cbdc23e00e57c724d553570888e4a2dc3e8fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:31 +0000
Subject: [PATCH 22/75] fix: as_dict() failed on a concatenated term that has
 children

---
 metatab/terms.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index b42368b..6b2c365 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -584,13 +584,11 @@ class Term(object):
                     else:
                         s = ''
 
-                    d[c.record_term_lc] =s + (cls._convert_to_dict(c, replace_value_names) or '')
+                    d[c.record_term_lc] = s + (c.value or '')
 
                 elif c.child_property_type == 'bconcat':  # Concat with a blank
 
-                    d[c.record_term_lc] = d.get(c.record_term_lc, '') +  (cls._convert_to_dict(c,
-                                                                                               replace_value_names)
-                                                                          or '')
+                    d[c.record_term_lc] = d.get(c.record_term_lc, '') + (c.value or '')
 
                 else:
                     try:
-- 
2.43.0


From 1565a2334fcb8bfb5fd37c1bbcca622e5c860006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:31 +0000
Subject: [PATCH 23/75] fix: as_dict() of an empty document was a string

---
 metatab/terms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 6b2c365..21b54c7 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -1004,6 +1004,9 @@ class RootSectionTerm(SectionTerm):
         super().__init__('Root.Root', 'Root', [], 0, 0, file_name, file_type, None, doc, None)
 
     def as_dict(self, replace_value_names=True):
+        if not self.terms:
+            return {}
+
         d = super(RootSectionTerm, self).as_dict(replace_value_names)
 
         if replace_value_names and '@value' in d:
-- 
2.43.0


From a12e95957fed59b748d6f108ad558bcf69264fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:31 +0000
Subject: [PATCH 24/75] fix: the name and identifier that writing a document
 creates were not in the written file

---
 metatab/doc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index acba960..0bad0c7 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -908,8 +908,6 @@ class MetatabDoc(object):
 
     def _write(self, content, path: pathlib.Path, ext=None):
 
-        self.cleanse()
-
         debug_logger.debug("writing doc {}".format(str(path)))
 
         with path.open('wb') as f:
@@ -924,6 +922,8 @@ class MetatabDoc(object):
         if path.suffix != '.csv':
             raise MetatabError("Writing CSV file, but extension is wrong: {} ".format(str(path)))
 
+        self.cleanse()
+
         return self._write(self.as_csv(), path)
 
     def write_lines(self, path=None):
@@ -933,6 +933,8 @@ class MetatabDoc(object):
         if path.suffix != '.txt':
             raise MetatabError("Writing line (txt) file, but extension is wrong: {} ".format(str(path)))
 
+        self.cleanse()
+
         return self._write(self.as_lines(), path)
 
     def write(self, path=None):
-- 
2.43.0


From c5900216a2f2a40e715579288837677f9855562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:30 +0000
Subject: [PATCH 25/75] fix: declarations loaded before parsing are applied,
 and those of a second document add to the inheritance

---
 metatab/parser.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index a520f83..5d52206 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -81,6 +81,11 @@ class TermParser(object):
 
         self.install_declare_terms()
 
+        # Declarations that were loaded into the document before parsing
+        if self.doc:
+            self._declared_terms.update(self.doc.decl_terms)
+            self._declared_sections.update(self.doc.decl_sections)
+
     @property
     def path(self):
         """Return the path from the row generator, if it is avilable"""
@@ -122,14 +127,13 @@ class TermParser(object):
     def super_terms(self):
         """Return a dictionary mapping term names to their super terms"""
 
-        # If the doc already has super terms, we've already parsed something, so
-        # assume we parsed the declaration, and can use re-use the old decls.
-        if self.doc and self.doc.super_terms:
-            return self.doc.super_terms
+        # If the doc already has super terms, we've already parsed something, and re-use the old decls.
+        super_terms = dict(self.doc.super_terms) if self.doc else {}
 
+        super_terms.update((k.lower(), Term.normalize_term(v['inheritsfrom']))
+                           for k, v in self._declared_terms.items() if v.get('inheritsfrom'))
 
-        return  {k.lower(): v['inheritsfrom'].lower()
-                         for k, v in self._declared_terms.items() if 'inheritsfrom' in v}
+        return super_terms
 
     @property
     def declare_dict(self):
-- 
2.43.0


From f79df4162f6179a6f8ce7b7ea747690104eb56df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:42 +0000
Subject: [PATCH 26/75] fix: declarations loaded without a document lost the
 inheritance of terms

---
 metatab/doc.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 0bad0c7..37359c6 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -183,12 +183,23 @@ class MetatabDoc(object):
 
         list(term_interp)
 
-        dd = term_interp.declare_dict
+        self._update_declarations(term_interp)
+
+        return self
+
+    def _update_declarations(self, terms):
+        """Add the declarations of a term parser to the document's declarations"""
+
+        dd = terms.declare_dict
 
         self.decl_terms.update(dd['terms'])
         self.decl_sections.update(dd['sections'])
 
-        return self
+        self.super_terms.update(terms.super_terms())
+
+        kf = lambda e: e[1]  # Sort on the value
+        self.derived_terms = {k: set(e[0] for e in g)
+                              for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}
 
     def add_term(self, t, add_section=True):
         t.doc = self
@@ -507,17 +518,7 @@ class MetatabDoc(object):
                 assert t.parent is not None
 
         try:
-            dd = terms.declare_dict
-
-            self.decl_terms.update(dd['terms'])
-            self.decl_sections.update(dd['sections'])
-
-            self.super_terms.update(terms.super_terms())
-
-            kf = lambda e: e[1]  # Sort on the value
-            self.derived_terms = {k: set(e[0] for e in g)
-                                  for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}
-
+            self._update_declarations(terms)
         except AttributeError as e:
             pass
 
-- 
2.43.0


From 6e6138d5d003dfaf756645acd8d82511c513be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:42 +0000
Subject: [PATCH 27/75] fix: load_rows() gave the term parser the wrong
 arguments

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 37359c6..b5bc92e 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -531,7 +531,7 @@ class MetatabDoc(object):
 
     def load_rows(self, row_generator):
 
-        term_interp = TermParser(self, row_generator)
+        term_interp = TermParser(row_generator, resolver=self.resolver, doc=self)
 
         return self.load_terms(term_interp)
 
-- 
2.43.0


From fe73798583bc765b69aa54b11c2640ffe87aed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:42 +0000
Subject: [PATCH 28/75] fix: the column of a section term was its row

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 21b54c7..3b35ce0 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -703,7 +703,7 @@ class SectionTerm(Term):
         assert section is None
 
         super().__init__(term, value, term_args=section_args,
-                         row=row, col=row, file_name=file_name, file_type=file_type,
+                         row=row, col=col, file_name=file_name, file_type=file_type,
                          parent=parent, doc=doc, section=section)
 
         self.header_args = []  # Set for each header encoundered
-- 
2.43.0


From 7a4a27349127f157a5ab17627373376b7a1c7c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:59 +0000
Subject: [PATCH 29/75] fix: the identifier is the name of a datapackage
 without a name

---
 metatab/datapackage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 356ead5..07854e7 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -25,8 +25,8 @@ def convert_to_datapackage(doc):
         pass
 
     if not 'name' in dp:
-        if 'indentifier' in dp:
-            dp['name'] = dp['indentifier']
+        if 'identifier' in dp:
+            dp['name'] = dp['identifier']
         else:
             raise ConversionError("Datapackage.json requires a Name or Identity term")
 
-- 
2.43.0


From fbd4e8fc8be6b399cde0248ff8502f0e58ea18b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:50 +0000
Subject: [PATCH 30/75] fix: the column names of the Root section and the value
 names of headers were not written

---
 metatab/doc.py   |  4 +++-
 metatab/terms.py | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index b5bc92e..36a005e 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -817,7 +817,9 @@ class MetatabDoc(object):
             # Yield the section header
             if s.name != 'Root':
                 yield ['']  # Unecessary, but makes for nice formatting. Should actually be done just before write
-                yield ['Section', s.value] + s.property_names
+
+            for term, values in s.header_rows:
+                yield [term] + values
 
             # Yield all of the rows for terms in the section
             for row in s.rows:
diff --git a/metatab/terms.py b/metatab/terms.py
index 3b35ce0..c1f6671 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -935,6 +935,17 @@ class SectionTerm(Term):
 
         return term, args, lower_d
 
+    @property
+    def header_rows(self):
+        """Yield the rows that start the section, with its name, value name and column names"""
+
+        if self.name != 'Root':
+            yield 'Section', [self.value] + self.property_names
+
+        # A Section row has no value name, and the Root section has no Section row
+        if self.default_term_value_name != '@value' or (self.name == 'Root' and self.property_names):
+            yield 'Header', [self.default_term_value_name] + self.property_names
+
     @property
     def rows(self):
         """Yield rows for the section"""
@@ -963,8 +974,8 @@ class SectionTerm(Term):
             return v.replace('|', r'\|') if isinstance(v, str) else v
 
         # Yield the section header
-        if self.name != 'Root':
-            yield ('Section', '|'.join(escape(e) for e in [self.value] + self.property_names))
+        for term, values in self.header_rows:
+            yield (term, '|'.join(escape(e) for e in values))
 
         # Yield all of the rows for terms in the section
         for row in self.rows:
-- 
2.43.0


From b4537c144eb00dfdf52b1084eecc634ab47cbb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:54 +0000
Subject: [PATCH 31/75] fix: the terms of the Root section were written to
 another section if it is not the first

---
 metatab/terms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index c1f6671..8f53b9b 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -939,11 +939,14 @@ class SectionTerm(Term):
     def header_rows(self):
         """Yield the rows that start the section, with its name, value name and column names"""
 
-        if self.name != 'Root':
+        # The rows before the first Section row are in the Root section
+        is_root = self.name == 'Root' and self is next(iter(self.doc), None)
+
+        if not is_root:
             yield 'Section', [self.value] + self.property_names
 
         # A Section row has no value name, and the Root section has no Section row
-        if self.default_term_value_name != '@value' or (self.name == 'Root' and self.property_names):
+        if self.default_term_value_name != '@value' or (is_root and self.property_names):
             yield 'Header', [self.default_term_value_name] + self.property_names
 
     @property
-- 
2.43.0


From 2a70fb3852b36532c3ee9f509463eec201cde98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:21 +0000
Subject: [PATCH 32/75] fix: the column names of a Section row that continues a
 section were ignored

---
 metatab/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metatab/parser.py b/metatab/parser.py
index 5d52206..17058b3 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -396,6 +396,13 @@ class TermParser(object):
                         last_section = self.doc[t.name]
                         t = last_section
 
+                        # Column names in the new row are a new header for the section
+                        names = [str(e).strip() if e else '' for e in row[2:]]
+
+                        if any(names):
+                            t.header_args = names
+                            t.default_term_value_name = '@value'
+
                     except (KeyError, TypeError): # TypeError -> self.doc is None
                         last_section = t
 
-- 
2.43.0


From d6056ac29039f081d5fbf67e5f89daf1ecaf6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:30 +0000
Subject: [PATCH 33/75] fix: a term with the same name as its parent became its
 own child

---
 metatab/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 17058b3..a0f30ec 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -518,16 +518,16 @@ class TermParser(object):
                         last_term_map[last_parent_term].add_child(t)
 
                     else:
-                        last_parent_term = t.record_term
-                        last_term_map[ELIDED_TERM] = t
-                        last_term_map[t.record_term] = t
-
                         try:
                             last_term_map[t.parent_term].add_child(t)
                         except KeyError:
                             raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                               .format(t.parent_term, t.term, t.row))
 
+                        last_parent_term = t.record_term
+                        last_term_map[ELIDED_TERM] = t
+                        last_term_map[t.record_term] = t
+
                     if t.parent_term_lc == 'root':
                         last_section.add_term(t)
 
-- 
2.43.0


From 3932dc264882c5007288854430966d8ed494b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:37 +0000
Subject: [PATCH 34/75] fix: the cells of a row with an elided parent became
 children of another term

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index a0f30ec..1f2a3f3 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -515,7 +515,7 @@ class TermParser(object):
                         last_term_map[last_parent_term].add_child(t)
 
                     elif t.is_arg_child:
-                        last_term_map[last_parent_term].add_child(t)
+                        t.parent.add_child(t)  # The term of the same row
 
                     else:
                         try:
-- 
2.43.0


From eefa34657bf5be75b702a6471472dddddaca1b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:48 +0000
Subject: [PATCH 35/75] fix: blank cells in a Section row replaced the declared
 column names

---
 metatab/terms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 8f53b9b..1814e86 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -691,7 +691,11 @@ class SectionTerm(Term):
         self.doc = doc
 
         self.default_term_value_name = '@value'
-        section_args = term_args if term_args else self.doc.section_args(value) if self.doc else []
+        if not term_args or not any(str(e).strip() for e in term_args):
+            # Blank cells are not column names
+            term_args = self.doc.section_args(value)
+
+        section_args = term_args
 
         self.terms = []  # Separate from children. Sections have contained terms, but no children.
 
-- 
2.43.0


From 26d298f4049205a9ddade6948c1eb18911a62e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:05 +0000
Subject: [PATCH 36/75] fix: an include in an included document made the Root
 section current

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 1f2a3f3..c4fddb8 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -368,7 +368,7 @@ class TermParser(object):
 
                         target = resolved.get_resource().get_target()
 
-                        for t in self.generate_terms(target, root, t.record_term_lc, open_paths):
+                        for t in self.generate_terms(target, last_section, t.record_term_lc, open_paths):
                             yield t
 
                         if last_section:
-- 
2.43.0


From 6f4b6279a6bc806d9f0a07b003c6ed3b2f37fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:16 +0000
Subject: [PATCH 37/75] fix: a column named Section made a term of the section

---
 metatab/terms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 1814e86..8b4c9d1 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -363,8 +363,10 @@ class Term(object):
     def __setattr__(self, item, value):
         """ """
 
-        if '_Term__initialised' not in self.__dict__:
-            # Not initialized yet; set attributes normally.
+        prop = getattr(type(self), item, None)
+
+        if '_Term__initialised' not in self.__dict__ or (isinstance(prop, property) and prop.fset):
+            # Not initialized yet, or a property of the class; set attributes normally.
             return object.__setattr__(self, item, value)
 
         elif item in self.__dict__ and not (item.lower() == self.term_value_name.lower() or item.lower() == 'value'):
-- 
2.43.0


From 96ba85946299c29d49e15325a7689997b82f0584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:28 +0000
Subject: [PATCH 38/75] fix: a Section column or child of a term ended with an
 AssertionError

---
 metatab/terms.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 8b4c9d1..603fe5e 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -174,8 +174,6 @@ class Term(object):
             child.doc = self.doc
             child.set_ownership()
 
-        assert not child.term_is("Datafile.Section")
-
     def new_child(self, term, value, **kwargs):
         """Create a new term and add it to this term as a child. Creates grandchildren from the kwargs.
 
@@ -192,7 +190,6 @@ class Term(object):
 
         c.term_value_name = self.doc.decl_terms.get(c.join, {}).get('termvaluename', c.term_value_name)
 
-        assert not c.term_is("*.Section")
         self.children.append(c)
         return c
 
@@ -270,7 +267,6 @@ class Term(object):
         if c is None:
             tc = self.doc.get_term_class(term.lower())
             c = tc(term, value, parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
-            assert not c.term_is("Datafile.Section"), (self, c)
             self.children.append(c)
 
         else:
-- 
2.43.0


From c43035d8ccf7827f1b616040057c3eacb3482f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:01 +0000
Subject: [PATCH 39/75] fix: testing if a term has a property ended with an
 AttributeError

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 603fe5e..30b31b9 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -323,7 +323,7 @@ class Term(object):
         if item.lower() == 'value':
             return True
 
-        return item.lower() in self._common_properties or item.lower() in self.properties
+        return item.lower() in self._common_properties or item.lower() in self.props
 
     def __getattr__(self, item):
         """Maps values to attributes.
-- 
2.43.0


From ebd05979b0e733576112c8d989db4e4a10a5a9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:42 +0000
Subject: [PATCH 40/75] fix: the rows of a declaration document could become
 terms and column names of the document

---
 metatab/parser.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index c4fddb8..9eecd53 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -368,7 +368,16 @@ class TermParser(object):
 
                         target = resolved.get_resource().get_target()
 
-                        for t in self.generate_terms(target, last_section, t.record_term_lc, open_paths):
+                        if file_type == 'declare' or t.term_is('declare'):
+                            # Declarations are not in the sections of the document
+                            include_type = 'declare'
+                            section = SectionTerm(None, 'Declare', file_type=include_type, doc=self.doc)
+                            yield section
+                        else:
+                            include_type = 'include'
+                            section = last_section
+
+                        for t in self.generate_terms(target, section, include_type, open_paths):
                             yield t
 
                         if last_section:
@@ -393,6 +402,9 @@ class TermParser(object):
                     # If there is already a section in the document, emit the existing section,
                     # rather than a new one.
                     try:
+                        if file_type == 'declare':
+                            raise KeyError(t.name)
+
                         last_section = self.doc[t.name]
                         t = last_section
 
-- 
2.43.0


From 51027dcc2e5c435c79cb71462a0287f3b0c96fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:10 +0000
Subject: [PATCH 41/75] fix: a declared child term with spaces around the dot
 was not inherited

---
 metatab/parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 9eecd53..2a565f5 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -599,12 +599,13 @@ class TermParser(object):
         # of the term that the input term inherits from. Then yield each of those terms
         # after chang the term name to be a child of the input term.
         for st_name in section_terms:
-            if st_name.lower().startswith(ih_r.lower() + '.'):
-                st_p, st_r = Term.split_term(st_name)
+            st_p, st_r = Term.split_term(st_name)
+
+            if '.' in st_name and st_p.lower() == ih_r.lower():
                 # Yield the term, but replace the parent part
                 subtype_name = t_r + '.' + st_r
 
-                subtype_d = dict(self._declared_terms[st_name.lower()].items())
+                subtype_d = dict(self._declared_terms[Term.normalize_term(st_name)].items())
                 subtype_d['inheritsfrom'] = '';
                 subtype_d['term'] = subtype_name
 
-- 
2.43.0


From fb31bdd01fc40cff3b74865508fd0ebc7e580a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:15 +0000
Subject: [PATCH 42/75] fix: find() gave top level terms in the order they were
 added, not in document order

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 36a005e..900c46d 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -431,7 +431,7 @@ class MetatabDoc(object):
                 term = 'root.' + term
 
             if term.startswith('root.'):
-                term_gen = self.terms  # Just the root level terms
+                term_gen = [t for s in self for t in s]  # Just the root level terms, in document order
             else:
                 term_gen = self.all_terms  # All terms, root level and children.
 
-- 
2.43.0


From 23ac31282f049848f6ae798b5b78359692bcaaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:14 +0000
Subject: [PATCH 43/75] fix: setting a new property to a value with surrounding
 space ended with an AssertionError

---
 metatab/terms.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 30b31b9..31ca4c2 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -16,6 +16,13 @@ from metatab.parser import ROOT_TERM, ELIDED_TERM
 EMPTY_SOURCE_HEADER = '_NONE_'  # Marker for a column that is in the destination table but not in the source
 
 
+def strip_if_str(v):
+    try:
+        return v.strip()
+    except AttributeError:
+        return v
+
+
 class Term(object):
     """Term object represent a row in a Metatab file, and handle interpeting the
         row into the parts of a term
@@ -52,12 +59,6 @@ class Term(object):
 
         """
 
-        def strip_if_str(v):
-            try:
-                return v.strip()
-            except AttributeError:
-                return v
-
         self.parent = parent  # If set, term was generated from term args
 
         self._term = None
@@ -262,6 +263,8 @@ class Term(object):
 
         term = self.record_term + '.' + rt
 
+        value = strip_if_str(value)
+
         c = self.find_first(rt)
 
         if c is None:
@@ -312,9 +315,10 @@ class Term(object):
                 self.remove_child(child)
 
         else:
+            value = strip_if_str(value)
+
             c = self.get_or_new_child(item, value)
 
-            # There is a bug where these two values may be different by a trailing space
             assert self[item].value == value or (self[item].value is None and value == ''), \
                 "Item value '{}' is different from set value '{}' ".format(self[item].value, value)
 
-- 
2.43.0


From e5f33e14b48b8c1e42d9bfe0b4dd45a127eef4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:14 +0000
Subject: [PATCH 44/75] fix: writing Lines failed on a property that was set to
 a number

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 31ca4c2..439cd24 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -999,7 +999,7 @@ class SectionTerm(Term):
             children = list(zip(self.property_names, value[1:]))
 
             for prop, value in children:
-                if value and value.strip():
+                if value and str(value).strip():
                     child_t = '.' + (prop.title())
                     yield ("    "+child_t, escape(value))
 
-- 
2.43.0


From 405e595702b726bb7242b0b15ac4701b8dba720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:20 +0000
Subject: [PATCH 45/75] fix: including a file that is not text is an include
 error, which names the file

---
 metatab/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 2a565f5..77803af 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -387,8 +387,8 @@ class TermParser(object):
                         e.term = t
                         raise
 
-                    except (OSError,  FileNotFoundError, GenerateError, DownloadError, RowGeneratorError) as e:
-                        e = IncludeError("Failed to Include; {}".format(e))
+                    except (OSError,  FileNotFoundError, UnicodeError, GenerateError, DownloadError, RowGeneratorError) as e:
+                        e = IncludeError("Failed to Include '{}'; {}".format(resolved, e))
                         e.term = t
                         raise e
 
-- 
2.43.0


From cd00d7c6c9cbc3aa9341bd3b1854aededb10d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:37 +0000
Subject: [PATCH 46/75] fix: child terms created through the interface did not
 get their declared type

---
 metatab/terms.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 439cd24..b4ab13a 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -189,11 +189,18 @@ class Term(object):
         c = tc(term, str(value) if value is not None else None,
                parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
 
-        c.term_value_name = self.doc.decl_terms.get(c.join, {}).get('termvaluename', c.term_value_name)
+        c.set_declared()
 
         self.children.append(c)
         return c
 
+    def set_declared(self):
+        """Set the value name and child property type from the declaration of the term"""
+        decl = self.doc.decl_terms.get(self.join_lc, {})
+
+        self.term_value_name = decl.get('termvaluename', self.term_value_name)
+        self.child_property_type = decl.get('childpropertytype', self.child_property_type)
+
     def remove_child(self, child):
         """Remove the term from this term's children. """
         assert isinstance(child, Term)
@@ -270,6 +277,7 @@ class Term(object):
         if c is None:
             tc = self.doc.get_term_class(term.lower())
             c = tc(term, value, parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
+            c.set_declared()
             self.children.append(c)
 
         else:
-- 
2.43.0


From 8ca36fd9fb6db33f15861b8ab23a23b043192819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:25 +0000
Subject: [PATCH 47/75] fix: a term that is declared again without InheritsFrom
 still inherited

---
 metatab/doc.py    |  2 +-
 metatab/parser.py | 10 +++-------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 900c46d..938f223 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -195,7 +195,7 @@ class MetatabDoc(object):
         self.decl_terms.update(dd['terms'])
         self.decl_sections.update(dd['sections'])
 
-        self.super_terms.update(terms.super_terms())
+        self.super_terms = dict(terms.super_terms())
 
         kf = lambda e: e[1]  # Sort on the value
         self.derived_terms = {k: set(e[0] for e in g)
diff --git a/metatab/parser.py b/metatab/parser.py
index 77803af..978e80a 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -127,13 +127,9 @@ class TermParser(object):
     def super_terms(self):
         """Return a dictionary mapping term names to their super terms"""
 
-        # If the doc already has super terms, we've already parsed something, and re-use the old decls.
-        super_terms = dict(self.doc.super_terms) if self.doc else {}
-
-        super_terms.update((k.lower(), Term.normalize_term(v['inheritsfrom']))
-                           for k, v in self._declared_terms.items() if v.get('inheritsfrom'))
-
-        return super_terms
+        # The declared terms include those that the document already has
+        return {k.lower(): Term.normalize_term(v['inheritsfrom'])
+                for k, v in self._declared_terms.items() if v.get('inheritsfrom')}
 
     @property
     def declare_dict(self):
-- 
2.43.0


From 24cbd3241d6135d98b0a9c9cb905e3943d0d77a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:35 +0000
Subject: [PATCH 48/75] fix: the declarations of a term were not applied to
 rows that elide the parent

---
 metatab/parser.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 978e80a..536baa4 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -499,6 +499,13 @@ class TermParser(object):
 
                     # Case for normal, value-bearing terms
 
+                    has_elided_parent = t.has_elided_parent
+
+                    if has_elided_parent:
+                        # Elided parent terms refer to the last term that can be a parent. The declarations
+                        # of the term are those for its full name
+                        t.parent_term = last_parent_term # After this t.has_elided_parent will be False
+
                     t.child_property_type = self._declared_terms \
                         .get(t.join, {}) \
                         .get('childpropertytype', 'any')
@@ -516,10 +523,7 @@ class TermParser(object):
                     # Only terms with the term name in the first column can be parents of
                     # other terms. This rule excludes argument terms and terms with an elided parent
 
-                    if t.has_elided_parent:
-                        # Elided parent terms refer to the last term that can be a parent
-                        t.parent_term = last_parent_term # After this t.has_elided_parent will be False
-
+                    if has_elided_parent:
                         last_term_map[last_parent_term].add_child(t)
 
                     elif t.is_arg_child:
-- 
2.43.0


From 42d82b1750d44c866ba41d4686c981bdb2ae5c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:35 +0000
Subject: [PATCH 49/75] fix: all_props gave properties that were removed the
 value they had in the row

---
 metatab/terms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index b4ab13a..a127cdd 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -547,7 +547,9 @@ class Term(object):
         """Return a dictionary with the values of all children, and place holders for all of the section
         argumemts. It combines props and arg_props"""
 
-        d = self.arg_props
+        # The arguments are those of the row the term was read from, and the properties may have changed since then
+        d = dict.fromkeys(self.arg_props, '')
+        d[self.term_value_name.lower()] = self.value
         d.update(self.props)
 
         return d
-- 
2.43.0


From 52f54d02a9162cfa0ef78599396273212558544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:57 +0000
Subject: [PATCH 50/75] fix: the item 'value' of a term could be set but not
 read

---
 metatab/terms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index a127cdd..135f4f3 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -305,6 +305,10 @@ class Term(object):
         else:
 
             c = self.find_first(item)
+
+            if c is None and item.lower() == 'value':
+                return self  # Another name for the value, if there is no property with this name
+
             if c is None:
                 raise KeyError("Failed to find child term '{}' in term '{}'".format(item, repr(self)))
 
@@ -314,7 +318,8 @@ class Term(object):
         """Set the term's value or one of it's properties. If the item name is a property, and the value
         is None, remove the child. """
 
-        if item.lower() == self.term_value_name.lower() or item.lower() == 'value':
+        if item.lower() == self.term_value_name.lower() or \
+                (item.lower() == 'value' and self.find_first(item) is None):
             self.value = value
 
         elif value is None:
-- 
2.43.0


From 418be6b3ef01fa1a1db88168569dcb7004eeefeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:22 +0000
Subject: [PATCH 51/75] fix: a Version.Build without a value made the version
 end in .None

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 938f223..9295e69 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -653,7 +653,7 @@ class MetatabDoc(object):
         version.value = templ.format(*values)
 
         build = version.find_first('Version.Build')
-        if build:
+        if build and build.value:
             templ += '.{}'
             values = values + (build.value,)
 
-- 
2.43.0


From 19d41a8b60fb617ef3dc06d6130f0c5fe29aa8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:35 +0000
Subject: [PATCH 52/75] fix: writing a document that can not be encoded
 truncated the existing file

---
 metatab/doc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 9295e69..057c587 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -913,8 +913,10 @@ class MetatabDoc(object):
 
         debug_logger.debug("writing doc {}".format(str(path)))
 
+        content = content.encode('utf8')  # Before the file is truncated, because it can fail
+
         with path.open('wb') as f:
-            f.write(content.encode('utf8'))
+            f.write(content)
 
         return path
 
-- 
2.43.0


From ced9b682c7e41ee7215f9d63f575270e0d78a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:40 +0000
Subject: [PATCH 53/75] fix: writing a document that was not read from a file,
 without a path, ended with an AttributeError

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 057c587..f7b8aa4 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -887,7 +887,7 @@ class MetatabDoc(object):
         if path:
             u = parse_app_url(str(path))
         else:
-            u = self.ref
+            u = self.ref or parse_app_url(DEFAULT_METATAB_FILE)
 
         if u.scheme != 'file':
             raise MetatabError("Can't write file to URL '{}'".format(str(path)))
-- 
2.43.0


From 29878ab3937b141d1062bd6b44bc296cca947ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:24 +0000
Subject: [PATCH 54/75] fix: the -t option printed terms with the column names
 of the last section

---
 metatab/cli.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/metatab/cli.py b/metatab/cli.py
index 1463823..42ae20f 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -9,7 +9,7 @@ import json
 import sys
 from genericpath import exists
 
-from metatab import  DEFAULT_METATAB_FILE, MetatabDoc, parse_app_url
+from metatab import  DEFAULT_METATAB_FILE, MetatabDoc, TermParser, parse_app_url
 from rowgenerators.util import get_cache, clean_cache
 from os.path import dirname
 from rowgenerators.util import fs_join as join
@@ -129,8 +129,15 @@ def metatab():
 
 
     elif args.out_type == 'terms':
-        for t in doc._term_parser:
-            print(t)
+        # Read the file again, because the sections of the document have the column names of its last headers
+        new_doc = MetatabDoc(cache=cache)
+
+        def print_terms(terms):
+            for t in terms:
+                print(t)
+                yield t
+
+        new_doc.load_terms(print_terms(TermParser(metadata_url, doc=new_doc)))
 
     elif args.out_type == 'json':
         write_or_print(json.dumps(doc.as_dict(), indent=4))
-- 
2.43.0


From c04cc72b96f22c6962940072704f97913dd73c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:44 +0000
Subject: [PATCH 55/75] fix: the registered class was not used for terms with
 an elided parent, in columns or created with an unqualified name

---
 metatab/doc.py    |  2 +-
 metatab/parser.py | 25 ++++++++++++++++++-------
 metatab/terms.py  |  2 +-
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index f7b8aa4..d1ad6ec 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -233,7 +233,7 @@ class MetatabDoc(object):
 
     def get_term_class(self, term_name):
 
-        tnl = term_name.lower()
+        tnl = Term.normalize_term(term_name)
 
         try:
             return import_name_or_class(TermParser.term_classes[tnl])
diff --git a/metatab/parser.py b/metatab/parser.py
index 536baa4..1d6f609 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -66,6 +66,8 @@ class TermParser(object):
 
         self._param_map = []  # Current parameter map, the args of the last Section term
 
+        self._last_parent_term = ROOT_TERM  # Name of the last term that can be a parent, for elided parents
+
         # _sections and _terms are loaded from Declare documents, in
         # handle_declare and import_declare_doc. The Declare doc information
         # can also be loaded before parsing, so the Declare term can be eliminated.
@@ -335,7 +337,13 @@ class TermParser(object):
 
                 tt = Term(row[0], None) # Just to get the qualified name constructed property
 
-                term_class = self.get_term_class(tt.join_lc)
+                if tt.has_elided_parent:
+                    term_class = self.get_term_class(self._last_parent_term + '.' + tt.record_term_lc)
+
+                    if issubclass(term_class, SectionTerm):
+                        term_class = Term  # Only an unelided name starts a section
+                else:
+                    term_class = self.get_term_class(tt.join_lc)
 
                 t = term_class(tt.join_lc,
                          row[1] if len(row) > 1 else '',
@@ -423,7 +431,10 @@ class TermParser(object):
 
                             term_name = t.record_term_lc + '.' + str(col)
 
-                            term_class = self.get_term_class(term_name)
+                            # The class is for the name of the column, which the term gets later
+                            col_name = self._param_map[col] if col < len(self._param_map) else col
+
+                            term_class = self.get_term_class('{}.{}'.format(t.record_term_lc, col_name))
 
                             yield term_class(term_name, str(value), [],
                                        row=line_n,
@@ -440,7 +451,7 @@ class TermParser(object):
 
     def __iter__(self):
 
-        last_parent_term = 'root'
+        self._last_parent_term = ROOT_TERM
         last_term_map = {}
         default_term_value_name = '@value'
         last_section = None
@@ -489,7 +500,7 @@ class TermParser(object):
                     # A section that is re-asserted may have the names from a header
                     self._param_map = munge_param_map(t.property_names)
                     # Parentage should not persist across sections
-                    last_parent_term = self.root.record_term
+                    self._last_parent_term = self.root.record_term
 
                     last_section = t
                     default_term_value_name = t.default_term_value_name
@@ -504,7 +515,7 @@ class TermParser(object):
                     if has_elided_parent:
                         # Elided parent terms refer to the last term that can be a parent. The declarations
                         # of the term are those for its full name
-                        t.parent_term = last_parent_term # After this t.has_elided_parent will be False
+                        t.parent_term = self._last_parent_term # After this t.has_elided_parent will be False
 
                     t.child_property_type = self._declared_terms \
                         .get(t.join, {}) \
@@ -524,7 +535,7 @@ class TermParser(object):
                     # other terms. This rule excludes argument terms and terms with an elided parent
 
                     if has_elided_parent:
-                        last_term_map[last_parent_term].add_child(t)
+                        last_term_map[self._last_parent_term].add_child(t)
 
                     elif t.is_arg_child:
                         t.parent.add_child(t)  # The term of the same row
@@ -536,7 +547,7 @@ class TermParser(object):
                             raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                               .format(t.parent_term, t.term, t.row))
 
-                        last_parent_term = t.record_term
+                        self._last_parent_term = t.record_term
                         last_term_map[ELIDED_TERM] = t
                         last_term_map[t.record_term] = t
 
diff --git a/metatab/terms.py b/metatab/terms.py
index 135f4f3..25ce9bf 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -184,7 +184,7 @@ class Term(object):
 
         """
 
-        tc = self.doc.get_term_class(term.lower())
+        tc = self.doc.get_term_class(self.record_term + '.' + self.split_term(term)[1])
 
         c = tc(term, str(value) if value is not None else None,
                parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
-- 
2.43.0


From 42c01fc0338b1d91ddc077e0f0a04f2e2b33f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:12 +0000
Subject: [PATCH 56/75] fix: the class of a row with a declared synonym was not
 the one of its term

---
 metatab/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 1d6f609..5f4c7f3 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -343,7 +343,8 @@ class TermParser(object):
                     if issubclass(term_class, SectionTerm):
                         term_class = Term  # Only an unelided name starts a section
                 else:
-                    term_class = self.get_term_class(tt.join_lc)
+                    # A synonym will be substituted by its term
+                    term_class = self.get_term_class(self.synonyms.get(tt.join_lc, tt.join_lc))
 
                 t = term_class(tt.join_lc,
                          row[1] if len(row) > 1 else '',
-- 
2.43.0


From 4043b5e431af98cd907115b5b007d04be7b7a81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:12 +0000
Subject: [PATCH 57/75] fix: set_terms took a text value with two characters
 for a value and its properties

---
 metatab/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 25ce9bf..1191251 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -861,9 +861,9 @@ class SectionTerm(Term):
             self.add_term(t)
 
         for k,v in kw_terms.items():
-            try:
+            if isinstance(v, (tuple, list)):
                 value, props = v
-            except (ValueError, TypeError) as e:
+            else:
                 value, props = v,{}
 
             self.new_term(k,value,**props)
-- 
2.43.0


From 57de5c8732423ad5ea48788487cb16ee82726d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:12 +0000
Subject: [PATCH 58/75] fix: an iteration over the rows of a document could not
 be ended early

---
 metatab/doc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index d1ad6ec..a829f18 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -827,10 +827,7 @@ class MetatabDoc(object):
 
                 term = (term[len('root.'):] if term.startswith('root.') else term).title()
 
-                try:
-                    yield [term] + value
-                except:
-                    yield [term] + [value]
+                yield [term] + (value if isinstance(value, list) else [value])
 
     @property
     def lines(self):
-- 
2.43.0


From 37f379fdda5b866c1f3c106f52248bc38c41ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:33 +0000
Subject: [PATCH 59/75] fix: data files with properties in their own rows, or
 without a name, were lost or failed in datapackages

---
 metatab/datapackage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 07854e7..321c648 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -35,7 +35,7 @@ def convert_to_datapackage(doc):
     except KeyError as e:
         raise ConversionError("Failed to get schemas: " + str(e))
 
-    file_resources = [fr.arg_props for fr in doc['resources'] if fr.term_is('root.datafile')]
+    file_resources = [dict(fr.all_props, url=fr.value) for fr in doc['resources'] if fr.term_is('root.datafile')]
 
     dp['resources'] = []
 
@@ -60,7 +60,7 @@ def convert_to_datapackage(doc):
 
         dr = dict(
             path=r['url'],
-            name=r['name'],
+            name=r.get('name', ''),
             schema={'fields': [mkdict(c) for c in columns]}
         )
 
-- 
2.43.0


From 157cf2cea787884338d8e0164fce436388a47db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:33 +0000
Subject: [PATCH 60/75] fix: a column without properties, or an undeclared one,
 failed in datapackages

---
 metatab/datapackage.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 321c648..8c1aa52 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -31,7 +31,7 @@ def convert_to_datapackage(doc):
             raise ConversionError("Datapackage.json requires a Name or Identity term")
 
     try:
-        table_schemas = {t.value: t.as_dict()['column'] for t in doc['schema']}
+        table_schemas = {t.value: list(t.find('column')) for t in doc['schema'] if t.term_is('root.table')}
     except KeyError as e:
         raise ConversionError("Failed to get schemas: " + str(e))
 
@@ -47,9 +47,17 @@ def convert_to_datapackage(doc):
         except KeyError as e:
             continue
 
-        def mkdict(c):
+        def mkdict(column):
             d = {}
 
+            c = column.as_dict()
+
+            if not isinstance(c, dict):  # A column with no properties
+                c = {}
+
+            if column.value:
+                c['name'] = column.value
+
             for prop in ('name', 'title', 'description'):
                 if c.get(prop):
                     d[prop] = c[prop]
-- 
2.43.0


From c92fc2698322af8410ab5e5c3f2e592125c1e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:50 +0000
Subject: [PATCH 61/75] fix: a blank name, or the Identity section, gave a
 wrong datapackage or failed

---
 metatab/datapackage.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 8c1aa52..e9b18d9 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -20,12 +20,15 @@ def convert_to_datapackage(doc):
     dp = doc['root'].as_dict()
 
     try:
-        dp.update(doc['identity'].as_dict())
+        identity = doc['identity']
+        identity = identity.as_dict() if identity.terms else {}
+        identity.pop('@value', None)  # The name of the section
+        dp.update(identity)
     except KeyError as e:
         pass
 
-    if not 'name' in dp:
-        if 'identifier' in dp:
+    if not dp.get('name'):
+        if dp.get('identifier'):
             dp['name'] = dp['identifier']
         else:
             raise ConversionError("Datapackage.json requires a Name or Identity term")
-- 
2.43.0


From 5c21d7ba738dd590b6c5c5fd06d2b927873ef759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:50 +0000
Subject: [PATCH 62/75] fix: a document without a Resources section did not end
 in a conversion error

---
 metatab/datapackage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index e9b18d9..405e0cb 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -38,7 +38,10 @@ def convert_to_datapackage(doc):
     except KeyError as e:
         raise ConversionError("Failed to get schemas: " + str(e))
 
-    file_resources = [dict(fr.all_props, url=fr.value) for fr in doc['resources'] if fr.term_is('root.datafile')]
+    try:
+        file_resources = [dict(fr.all_props, url=fr.value) for fr in doc['resources'] if fr.term_is('root.datafile')]
+    except KeyError as e:
+        raise ConversionError("Failed to get resources: " + str(e))
 
     dp['resources'] = []
 
-- 
2.43.0


From ecc9b35adca1da6815a7be8d9681dba4c3816919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:00 +0000
Subject: [PATCH 63/75] fix: schema cleanup failed for a document without a
 Schema section

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index a829f18..6537238 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -559,7 +559,7 @@ class MetatabDoc(object):
     def clean_unused_schema_terms(self):
 
         # Remove unused columns in the schema, and add new ones
-        schema_section = self.get_section('Schema')
+        schema_section = self.get_section('Schema', default=None)
 
         if schema_section:
             used_args = set()
-- 
2.43.0


From 30322da51efd36168a4f41fcdd9a475b307086c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:00 +0000
Subject: [PATCH 64/75] fix: adding and removing a column had no effect on a
 section with a header

---
 metatab/terms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 1191251..8377cdf 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -756,7 +756,8 @@ class SectionTerm(Term):
     def add_arg(self,arg, prepend=False):
         """Append an arg to the arg list"""
 
-        self.args = [arg_.strip() for arg_ in self.args if arg_.strip()]
+        self.args = [arg_.strip() for arg_ in self.property_names if arg_.strip()]
+        self.header_args = []
 
         if arg.lower() not in [e.lower() for e in self.args]:
             if prepend:
@@ -767,7 +768,8 @@ class SectionTerm(Term):
     def remove_arg(self, arg):
         """Remove an arg to the arg list"""
 
-        self.args = [arg_.strip() for arg_ in self.args if arg_.strip()]
+        self.args = [arg_.strip() for arg_ in self.property_names if arg_.strip()]
+        self.header_args = []
 
         for arg_ in list(self.args):
             if arg_.lower() == arg.lower():
-- 
2.43.0


From 7f0a147ea6c7ba5b5b6155de948baeef01cd3f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:00 +0000
Subject: [PATCH 65/75] fix: schema cleanup added columns in any order and
 removed properties that have properties

---
 metatab/doc.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 6537238..e905b35 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -562,29 +562,29 @@ class MetatabDoc(object):
         schema_section = self.get_section('Schema', default=None)
 
         if schema_section:
-            used_args = set()
-            section_args = [e.lower() for e in schema_section.args]
+            used_args = []  # In the order of their first use
+            section_args = [e.strip().lower() for e in schema_section.property_names]
 
             for table in schema_section.find('Root.Table'):
                 for column in table.find('Table.Column'):
-                    for k, v in column.props.items():
-                        if v and v.strip():
-                            used_args.add(k)
+                    for c in column.children:
+                        if c.value and str(c.value).strip() and c.record_term_lc not in used_args:
+                            used_args.append(c.record_term_lc)
 
-            for arg in set(section_args) - used_args:
+            for arg in set(section_args) - set(used_args):
                 try:
                     schema_section.remove_arg(arg.title())
                 except ValueError as e:
                     pass
 
-            for arg in used_args - set(section_args):
+            for arg in used_args:
                 schema_section.add_arg(arg)
 
             # Remove any empty properties
             for t in schema_section.find('Root.Table'):
                 for c in t.find('Table.Column'):
                     for child in list(c.children):
-                        if not child.value or not child.value.strip():
+                        if child.is_terminal and (not child.value or not str(child.value).strip()):
                             c.remove_child(child)
 
     def ensure_identifier(self):
-- 
2.43.0


From 9cac1f57f6aeeb62f19242360fffa22882e30cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:17 +0000
Subject: [PATCH 66/75] fix: the document of a Metatab reference to a Lines
 file could not be loaded from the reference

---
 metatab/appurl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 479926a..d3b1722 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -93,7 +93,7 @@ class MetatabUrl(InnerFile, Url):
         """Return the metatab document for the URL"""
         from metatab import MetatabDoc
         t = self.get_resource().get_target()
-        return MetatabDoc(t.inner)
+        return MetatabDoc(t)
 
     @property
     def generator(self):
-- 
2.43.0


From 099bfae297a59cf0e02b400f78f5db1c9885e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:12 +0000
Subject: [PATCH 67/75] fix: a Metatab reference to a ZIP package or
 spreadsheet loaded its first file or sheet, not the metadata

---
 metatab/appurl.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index d3b1722..ed1e700 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -44,6 +44,12 @@ class MetatabUrl(InnerFile, Url):
 
         self.fragment = [frag, None]
 
+        # The target of the URL; in a spreadsheet it is a sheet, not a file
+        if self.resource_format == 'xlsx':
+            self._parts['target_file'], self._parts['target_segment'] = None, frag
+        else:
+            self._parts['target_file'], self._parts['target_segment'] = frag or None, None
+
     @classmethod
     def _match(cls, url, **kwargs):
         return url.proto == 'metatab'
-- 
2.43.0


From fad7e628796b485966c5b2f580239244190cf00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:42 +0000
Subject: [PATCH 68/75] fix: the file of a Metatab reference included its
 scheme or query, or lost the start of its name

---
 metatab/appurl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index ed1e700..edc351c 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -66,13 +66,13 @@ class MetatabUrl(InnerFile, Url):
     @property
     def resource_file(self):
 
-        assert basename(self.resource_url)
+        assert basename(self.path)
 
-        return basename(self.resource_url)
+        return basename(self.path)
 
     @property
     def target_file(self):
-        if self.path.endswith(DEFAULT_METATAB_FILE):
+        if basename(self.path) == DEFAULT_METATAB_FILE:
             return DEFAULT_METATAB_FILE
         elif self.resource_format in self.simple_file_formats:
             return self.resource_file
-- 
2.43.0


From 34a67e6d63a6ecb867e72ec3b05f4ad7bb2690d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:38 +0000
Subject: [PATCH 69/75] fix: a Header row without column names replaces the
 names of the section

The rows after it had no column names, but the section kept those of the
Section row, so that rows in a continuation of the section, or after an
Include row, were named by them.
---
 metatab/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 5f4c7f3..05013e0 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -493,7 +493,8 @@ class TermParser(object):
                 if t.term_is('root.header'):
                     self._param_map = munge_param_map(t.args)
                     default_term_value_name = (t.value or '@value').lower()
-                    last_section.header_args = t.args
+                    # A header without column names replaces the names of the Section row too
+                    last_section.header_args = t.args or [''] * len(last_section.args)
                     last_section.default_term_value_name = default_term_value_name
                     continue
 
-- 
2.43.0


From e6e64968e764c562443279d1257cb06f65aa0e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:40 +0000
Subject: [PATCH 70/75] fix: a document from the web could not be printed, only
 written in place was meant to be refused

---
 metatab/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/cli.py b/metatab/cli.py
index 42ae20f..756d645 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -92,7 +92,7 @@ def metatab():
     def write_or_print(t):
         from pathlib import Path
 
-        if metadata_url.scheme != 'file':
+        if args.write_in_place and metadata_url.scheme != 'file':
             err("Can only use -w with local files")
             return
 
-- 
2.43.0


From 7b1a20e8a3a5ea5d9f3470747a2bf7e7aaf031ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:10 +0000
Subject: [PATCH 71/75] fix: updating the name used and changed terms of other
 sections

---
 metatab/doc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index e905b35..aa7a7fd 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -668,7 +668,7 @@ class MetatabDoc(object):
 
         self.ensure_identifier()
 
-        name_term = self.find_first('Root.Name')
+        name_term = self.find_first('Root.Name', section='Root')
 
         if not name_term:
             if create_term:
@@ -679,9 +679,9 @@ class MetatabDoc(object):
 
         orig_name = name_term.value
 
-        identifier = self.get_value('Root.Identifier')
+        identifier = self.get_value('Root.Identifier', section='Root')
 
-        datasetname = self.get_value('Root.Dataset')
+        datasetname = self.get_value('Root.Dataset', section='Root')
 
         if datasetname:
 
-- 
2.43.0


From 71627b4877fa8a5288310cdeec0d437974448021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:46 +0000
Subject: [PATCH 72/75] fix: a local file whose name starts with http could not
 be included

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 05013e0..ff0c0df 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -289,7 +289,7 @@ class TermParser(object):
 
         include_ref = name.strip('/')
 
-        if include_ref.startswith('http'):
+        if include_ref.startswith(('http:', 'https:')):
             path = include_ref
         else:
             if not d:
-- 
2.43.0


From d58f8637e5d9382bda464662cdeb88bd0dc21d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:46 +0000
Subject: [PATCH 73/75] fix: a file that is not what its name says, or a bad
 URL, is an include error

---
 metatab/parser.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index ff0c0df..3ea430e 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -362,10 +362,13 @@ class TermParser(object):
                     if not t.value:
                         raise IncludeError("No document name in '{}' term, row {}".format(row[0], line_n))
 
-                    if t.term_is('include'):
-                        resolved = self.find_include_doc(ref_dir, t.value.strip())
-                    else:
-                        resolved = self.find_declare_doc(ref_dir, t.value.strip())
+                    try:
+                        if t.term_is('include'):
+                            resolved = self.find_include_doc(ref_dir, t.value.strip())
+                        else:
+                            resolved = self.find_declare_doc(ref_dir, t.value.strip())
+                    except ValueError as e:  # Not a valid URL
+                        raise IncludeError("Can't find '{}'; {}".format(t.value, e))
 
                     yield t
 
@@ -392,7 +395,10 @@ class TermParser(object):
                         e.term = t
                         raise
 
-                    except (OSError,  FileNotFoundError, UnicodeError, GenerateError, DownloadError, RowGeneratorError) as e:
+                    except ParserError:
+                        raise
+
+                    except Exception as e:  # Each kind of file has errors of its own
                         e = IncludeError("Failed to Include '{}'; {}".format(resolved, e))
                         e.term = t
                         raise e
-- 
2.43.0


From d5774c69c727c1a66afeebda2875bf1927da2bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:10 +0000
Subject: [PATCH 74/75] fix: include errors did not record the row that failed

---
 metatab/parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 3ea430e..8bce8ec 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -225,7 +225,7 @@ class TermParser(object):
         for e in self.errors:
 
             errors.append({
-                'file': e.term.file_name,
+                'file': e.term.file_name if e.term else '<unknown>',
                 'row': e.term.row if e.term else '<unknown>',
                 'col': e.term.col if e.term else '<unknown>',
                 'term': e.term.join if e.term else '<unknown>',
@@ -372,6 +372,8 @@ class TermParser(object):
 
                     yield t
 
+                    include_term = t
+
                     try:
 
                         target = resolved.get_resource().get_target()
@@ -392,7 +394,8 @@ class TermParser(object):
                             yield last_section  # Re-assert the last section
 
                     except IncludeError as e:
-                        e.term = t
+                        if getattr(e, 'term', None) is None:
+                            e.term = include_term
                         raise
 
                     except ParserError:
@@ -400,7 +403,7 @@ class TermParser(object):
 
                     except Exception as e:  # Each kind of file has errors of its own
                         e = IncludeError("Failed to Include '{}'; {}".format(resolved, e))
-                        e.term = t
+                        e.term = include_term
                         raise e
 
                     continue  # Already yielded the include/declare term, and includes can't have children
@@ -453,7 +456,7 @@ class TermParser(object):
                                        #section=last_section)
         except IncludeError as e:
             exc = IncludeError(str(e) + "; in '{}' ".format(ref_path))
-            exc.term = e.term if hasattr(e, 'term') else None
+            exc.term = t if getattr(e, 'term', None) is None else e.term
             raise exc
 
     def __iter__(self):
-- 
2.43.0


From 85364024099011f548c021382031907ae7563895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:09 +0000
Subject: [PATCH 75/75] fix: a section replaced by new_section left its terms
 in the document

---
 metatab/doc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index aa7a7fd..387eea5 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -290,7 +290,11 @@ class MetatabDoc(object):
         return self.decl_sections.get(section_name.lower(), {}).get('args', [])
 
     def new_section(self, name, params=None):
-        """Return a new section"""
+        """Return a new section, which replaces a section that has the same name"""
+
+        for t in list(self.sections.get(name.lower(), [])):
+            self.remove_term(t)
+
         self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)
 
         # Set the default arguments
-- 
2.43.0

