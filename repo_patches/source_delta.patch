From 32169fc416b66974d817dddc95f27fc79365a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:54 +0000
Subject: [PATCH 01/64] fix: attach a child with the name of its parent to the
 parent, not to itself

---
 metatab/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index efb820d..d78661d 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -499,16 +499,18 @@ class TermParser(object):
                         last_term_map[last_parent_term].add_child(t)
 
                     else:
-                        last_parent_term = t.record_term
-                        last_term_map[ELIDED_TERM] = t
-                        last_term_map[t.record_term] = t
-
+                        # Look up the parent before this term is recorded, because the parent
+                        # may have the same name
                         try:
                             last_term_map[t.parent_term].add_child(t)
                         except KeyError:
                             raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                               .format(t.parent_term, t.term, t.row))
 
+                        last_parent_term = t.record_term
+                        last_term_map[ELIDED_TERM] = t
+                        last_term_map[t.record_term] = t
+
                     if t.parent_term_lc == 'root':
                         last_section.add_term(t)
 
-- 
2.43.0


From f782f3ba77337c97e2a89394f23929854ccb351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:54 +0000
Subject: [PATCH 02/64] fix: columns and parentage of a section end when the
 document returns to the Root section

---
 metatab/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metatab/parser.py b/metatab/parser.py
index d78661d..bba0189 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -465,7 +465,11 @@ class TermParser(object):
                     t.section = None
 
                 elif t.term_is('root.root'):
+                    self._param_map = munge_param_map(t)
+                    last_parent_term = self.root.record_term
+
                     last_section = t
+                    default_term_value_name = '@value'
                     t.section = None
 
                 else:
-- 
2.43.0


From 65d09fb20b4fb14bbd0e04627bc1513332bf5a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:20 +0000
Subject: [PATCH 03/64] fix: write all of the children of a term when several
 have the same name

---
 metatab/terms.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 057042f..aec30cd 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -620,21 +620,29 @@ class Term(object):
         # if the section has any.
 
         properties = {tvm: self.value}
+        used_names = {tvm.lower()}
+        other_children = []
 
         for c in self.children:
-            if c.is_terminal:
+            # A property can hold only one value, so only the first of the children with the same name can
+            # be a property. The others, and all of the children that follow a non-terminal
+            # child of the same name, have to be yielded as rows.
+            if c.is_terminal and c.record_term_lc not in used_names:
                 if c.record_term_lc:
                     # This is rare, but can happen if a property child is not given
                     # a property name by the section -- the "Section" term has a blank column.
                     properties[c.record_term_lc] = c.value
+            else:
+                other_children.append(c)
+
+            used_names.add(c.record_term_lc)
 
         yield (self.qualified_term, properties)
 
-        # The non-terminal children have to get yielded normally -- they can't be arg-children
-        for c in self.children:
-            if not c.is_terminal:
-                for row in c.rows:
-                    yield row
+        # The other children have to get yielded normally -- they can't be arg-children
+        for c in other_children:
+            for row in c.rows:
+                yield row
 
     @property
     def descendents(self):
-- 
2.43.0


From b6ef8b90c5727ebef2cf365231d2cd7cd30f4ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:20 +0000
Subject: [PATCH 04/64] fix: only remove 'root.' from the start of term names
 when writing

---
 metatab/doc.py   | 2 +-
 metatab/terms.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 1db299e..7aebc24 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -803,7 +803,7 @@ class MetatabDoc(object):
             for row in s.rows:
                 term, value = row
 
-                term = term.replace('root.', '').title()
+                term = (term[len('root.'):] if term.startswith('root.') else term).title()
 
                 try:
                     yield [term] + value
diff --git a/metatab/terms.py b/metatab/terms.py
index aec30cd..98ce8ad 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -959,7 +959,7 @@ class SectionTerm(Term):
             if not isinstance(value, (list, tuple)):
                 value = [value]
 
-            term = term.replace('root.', '').title()
+            term = (term[len('root.'):] if term.startswith('root.') else term).title()
             yield (term, value[0])
 
             children = list(zip(self.property_names, value[1:]))
-- 
2.43.0


From f51853ff2297e7ca11376e6cfeb2647fd7b07779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:20 +0000
Subject: [PATCH 05/64] fix: escape pipe characters in the Lines format

---
 metatab/terms.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 98ce8ad..a2ee3fb 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -948,9 +948,13 @@ class SectionTerm(Term):
     def lines(self):
         """Iterate over all of the rows as text lines"""
 
+        def escape(v):
+            # The pipe character separates columns
+            return v.replace('|', '\\|') if isinstance(v, str) else v
+
         # Yield the section header
         if self.name != 'Root':
-            yield ('Section', '|'.join([self.value] + self.property_names))
+            yield ('Section', '|'.join(escape(e) for e in [self.value] + self.property_names))
 
         # Yield all of the rows for terms in the section
         for row in self.rows:
@@ -960,14 +964,14 @@ class SectionTerm(Term):
                 value = [value]
 
             term = (term[len('root.'):] if term.startswith('root.') else term).title()
-            yield (term, value[0])
+            yield (term, escape(value[0]))
 
             children = list(zip(self.property_names, value[1:]))
 
             for prop, value in children:
                 if value and value.strip():
                     child_t = '.' + (prop.title())
-                    yield ("    "+child_t, value)
+                    yield ("    "+child_t, escape(value))
 
     def as_lines(self):
         return '\n'.join( '{}: {}'.format(t,v if v is not None else '') for t, v  in self.lines )
-- 
2.43.0


From bf0c59b69e11674c7f732f5bef5737d87b2c6bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:45 +0000
Subject: [PATCH 06/64] fix: write a header for the Root section when it is not
 the first section

---
 metatab/doc.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 7aebc24..8d7958f 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -792,10 +792,10 @@ class MetatabDoc(object):
     def rows(self):
         """Iterate over all of the rows"""
 
-        for s_name, s in self.sections.items():
+        for i, (s_name, s) in enumerate(self.sections.items()):
 
-            # Yield the section header
-            if s.name != 'Root':
+            # Yield the section header. The Root section needs one only if it isn't first
+            if s.name != 'Root' or i > 0:
                 yield ['']  # Unecessary, but makes for nice formatting. Should actually be done just before write
                 yield ['Section', s.value] + s.property_names
 
@@ -814,7 +814,12 @@ class MetatabDoc(object):
     def lines(self):
         """Iterate over all of the rows as text lines"""
 
-        for s_name, s in self.sections.items():
+        for i, (s_name, s) in enumerate(self.sections.items()):
+
+            # The Root section needs a header only if it isn't first
+            if s.name == 'Root' and i > 0:
+                yield ('Section', s.name)
+
             yield from s.lines
 
     @property
-- 
2.43.0


From f5643591fc4210bd144082c4e6dffeb4f3d58306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:34 +0000
Subject: [PATCH 07/64] fix: find() includes derived terms for lists and
 unqualified names, in document order, and searches lists of sections

---
 metatab/doc.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 8d7958f..3e1beaf 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -368,30 +368,15 @@ class MetatabDoc(object):
                 return False
 
             if isinstance(section, (list, tuple)):
-                return any(in_section(t, e) for e in section)
+                return any(in_section(term, e) for e in section)
             else:
                 return section.lower() == term.section.name.lower()
 
-        # Try to replace the term with the list of its derived terms; that is, replace the super-class with all
-        # of the derived classes, but only do this expansion once.
-        if _expand_derived:
-            try:
-                try:
-                    # Term is a string
-                    term = list(self.derived_terms[term.lower()]) + [term]
-                except AttributeError:  # Term is hopefully a list
-                    terms = []
-                    for t in term:
-                        terms.append(term)
-                        for dt in self.derived_terms[t.lower()]:
-                            terms.append(dt)
-            except KeyError as e:
-                pass
-
         # Find any of a list of terms
         if isinstance(term, (list, tuple)):
             return list(
-                itertools.chain(*[self.find(e, value=value, section=section, _expand_derived=False) for e in term]))
+                itertools.chain(*[self.find(e, value=value, section=section,
+                                            _expand_derived=_expand_derived) for e in term]))
 
         else:
 
@@ -402,7 +387,13 @@ class MetatabDoc(object):
             if not '.' in term:
                 term = 'root.' + term
 
-            if term.startswith('root.'):
+            names = [term]
+
+            # A super-class also matches all of the derived classes, but only do this expansion once.
+            if _expand_derived:
+                names.extend(self.derived_terms.get(term, []))
+
+            if all(n.startswith('root.') for n in names):
                 term_gen = self.terms  # Just the root level terms
             else:
                 term_gen = self.all_terms  # All terms, root level and children.
@@ -414,7 +405,7 @@ class MetatabDoc(object):
 
                 assert t.section or t.join_lc == 'root.root' or t.join_lc == 'root.section', t
 
-                if (t.term_is(term)
+                if (t.term_is(names)
                         and in_section(t, section)
                         and (value is False or value == t.value)):
                     found.append(t)
-- 
2.43.0


From 47822a140a40026c1fe6edf61b5bcd1ceb93cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:53 +0000
Subject: [PATCH 08/64] fix: deleting a section removes its terms whatever the
 case of the name

---
 metatab/doc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 3e1beaf..9e42c0b 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -317,9 +317,8 @@ class MetatabDoc(object):
     def __delitem__(self, item):
 
         try:
-            if item in self.sections:
-                for t in self.sections[item]:
-                    self.terms.remove(t)
+            for t in self.sections[item.lower()]:
+                self.terms.remove(t)
 
             del self.sections[item.lower()]
         except KeyError:
-- 
2.43.0


From 03a079caf0d99b33e95a5ecb587e444930af2018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:53 +0000
Subject: [PATCH 09/64] fix: get_or_new_section() returns the existing section
 whatever the case of the name

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 9e42c0b..85fe740 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -271,7 +271,7 @@ class MetatabDoc(object):
 
     def get_or_new_section(self, name, params=None):
         """Create a new section or return an existing one of the same name"""
-        if name not in self.sections:
+        if name.lower() not in self.sections:
             self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)
 
         return self.sections[name.lower()]
-- 
2.43.0


From 45a5919f1e88ff18f4d6f0cb2c12e7ee9571fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:53 +0000
Subject: [PATCH 10/64] fix: deleting terms from a section called a method that
 does not exist

---
 metatab/terms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index a2ee3fb..cf81783 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -893,9 +893,9 @@ class SectionTerm(Term):
 
     def __delitem__(self, item):
         """Delete all terms that match the given name"""
-        for t in self.terms:
-            if t.term.lower() == item.lower():
-                self.delete_term(item)
+        for t in list(self.terms):
+            if t.term_is(item):
+                self.remove_term(t)
 
         return
 
-- 
2.43.0


From f8d2b5809be80967ba2d0dd85313aaa01c3ab496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:53 +0000
Subject: [PATCH 11/64] fix: get_or_new_term() without a value keeps the value
 of the existing term

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index cf81783..8b8a312 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -801,7 +801,7 @@ class SectionTerm(Term):
             t = self.new_term(term, value, **kwargs)
 
         else:
-            if value is not None:
+            if value is not None and value is not False:
                 t.value = value
 
             for k, v in kwargs.items():
-- 
2.43.0


From a70191a29a9c837e64cb0b99ac439fd6b41e1ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:53 +0000
Subject: [PATCH 12/64] fix: moving a term to another section removes it from
 the section it was in

---
 metatab/terms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 8b8a312..c3941b6 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -753,6 +753,11 @@ class SectionTerm(Term):
         """Add a term to this section and set it's ownership. Should only be used on root level terms"""
         if t not in self.terms:
             if t.parent_term_lc == 'root':
+                # A term is in one section; when it is moved it leaves the other one
+                if t.section is not None and t.section is not self:
+                    t.section.remove_term(t, remove_from_doc=False)
+
+                t._section = self  # not .section, which may be the name of the value
                 self.terms.append(t)
 
                 self.doc.add_term(t, add_section=False)
-- 
2.43.0


From 9789cb76643719ebab861d9704a3a20cca3bf2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:53 +0000
Subject: [PATCH 13/64] fix: testing whether a term has a property failed with
 an AttributeError

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index c3941b6..cc2cd14 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -321,7 +321,7 @@ class Term(object):
         if item.lower() == 'value':
             return True
 
-        return item.lower() in self._common_properties or item.lower() in self.properties
+        return item.lower() in self._common_properties or item.lower() in self.props
 
     def __getattr__(self, item):
         """Maps values to attributes.
-- 
2.43.0


From b479effeb0194ac1006894d3068debaeed1b1c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:53 +0000
Subject: [PATCH 14/64] fix: setting a property to a value with surrounding
 white space

---
 metatab/terms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index cc2cd14..8e44d33 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -310,6 +310,9 @@ class Term(object):
                 self.remove_child(child)
 
         else:
+            # Term values never have surrounding white space
+            value = value.strip() if isinstance(value, str) else value
+
             c = self.get_or_new_child(item, value)
 
             # There is a bug where these two values may be different by a trailing space
-- 
2.43.0


From 63c7d162de5430f720d61bfb6930fdd74a9f03dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:37 +0000
Subject: [PATCH 15/64] fix: set_terms() with a value of two characters

---
 metatab/terms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 8e44d33..6556635 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -838,10 +838,11 @@ class SectionTerm(Term):
             self.add_term(t)
 
         for k,v in kw_terms.items():
-            try:
+            # A string of two characters can also be unpacked, but it is a value
+            if isinstance(v, (list, tuple)) and len(v) == 2:
                 value, props = v
-            except (ValueError, TypeError) as e:
-                value, props = v,{}
+            else:
+                value, props = v, {}
 
             self.new_term(k,value,**props)
 
-- 
2.43.0


From 102499fe3b0b5da56de948f8bfe0e6668f2ff472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:31 +0000
Subject: [PATCH 16/64] fix: the dict form of an empty document is an empty
 dict, not the string Root

---
 metatab/terms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 6556635..658f112 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -1003,6 +1003,9 @@ class RootSectionTerm(SectionTerm):
         super().__init__('Root.Root', 'Root', [], 0, 0, file_name, file_type, None, doc, None)
 
     def as_dict(self, replace_value_names=True):
+        if not self.terms:
+            return {}
+
         d = super(RootSectionTerm, self).as_dict(replace_value_names)
 
         if replace_value_names and '@value' in d:
-- 
2.43.0


From 18cf6a511e03268bb9bc5d0e257a7ef15273846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:50 +0000
Subject: [PATCH 17/64] fix: as_version() changed the version of the document

---
 metatab/doc.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 85fe740..e9df9d6 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -128,7 +128,19 @@ class MetatabDoc(object):
 
         """
 
-        return self._generate_identity_name(ver)
+        # Generating the name sets the version terms; the document must not change
+        version = self['Root'].find_first('Root.Version')
+        children = list(version.children) if version else []
+        values = [(t, t.value) for t in [version] + children] if version else []
+
+        try:
+            return self._generate_identity_name(ver)
+        finally:
+            for t, v in values:
+                t.value = v
+
+            if version:
+                version.children = children
 
     @property
     def doc_dir(self):
-- 
2.43.0


From 2fc893263ea6c8cf70692302e51da9035944d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:50 +0000
Subject: [PATCH 18/64] fix: report version math without a version as a
 MetatabError

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index e9df9d6..49a5931 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -741,7 +741,7 @@ class MetatabDoc(object):
 
             try:
                 int(mv)
-            except ValueError:
+            except (ValueError, TypeError):
                 raise MetatabError(
                     "When specifying version math, version value in Root.Version or Version.Patch  term must be an integer")
 
-- 
2.43.0


From b0850a0d50d3e25977e7ead272fa4e7e9c7cf174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:06 +0000
Subject: [PATCH 19/64] fix: setting the section of a term created a child when
 the section has a Section column

---
 metatab/terms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 658f112..8fd0c9e 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -364,6 +364,10 @@ class Term(object):
             # Not initialized yet; set attributes normally.
             return object.__setattr__(self, item, value)
 
+        elif item == 'section':
+            # The section the term is in, even when the section also has a column of that name
+            object.__setattr__(self, item, value)
+
         elif item in self.__dict__ and not (item.lower() == self.term_value_name.lower() or item.lower() == 'value'):
             # Value already exists as an attribute in the object, and the name is not
             # the value name
-- 
2.43.0


From 45e269c2cfe8e3c1979214dfb48d896d26ddcebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:55 +0000
Subject: [PATCH 20/64] fix: rows of a declaration outside of its own sections
 were added to the sections of the document

---
 metatab/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index bba0189..7640cc5 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -515,7 +515,8 @@ class TermParser(object):
                         last_term_map[ELIDED_TERM] = t
                         last_term_map[t.record_term] = t
 
-                    if t.parent_term_lc == 'root':
+                    # Declare terms aren't part of the document, so they don't go in its sections
+                    if t.parent_term_lc == 'root' and not (t.file_type == 'declare' and last_section.name in self.doc):
                         last_section.add_term(t)
 
                 if t.file_type == 'declare':
-- 
2.43.0


From 2f7712765ddf775735b2a625b598fca80c295da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:16 +0000
Subject: [PATCH 21/64] fix: declarations that a document already has did not
 apply to the rows loaded into it

---
 metatab/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metatab/parser.py b/metatab/parser.py
index 7640cc5..dd8ddbd 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -81,6 +81,11 @@ class TermParser(object):
 
         self.install_declare_terms()
 
+        # Declarations that were loaded into the document before parsing
+        if self.doc:
+            self._declared_terms.update(self.doc.decl_terms)
+            self._declared_sections.update(self.doc.decl_sections)
+
     @property
     def path(self):
         """Return the path from the row generator, if it is avilable"""
-- 
2.43.0


From 835f90d4c767e558b2ffe99672b84fff252247ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:16 +0000
Subject: [PATCH 22/64] fix: derived terms of declarations loaded with the decl
 argument were not found

---
 metatab/doc.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 49a5931..42eb1a7 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -180,12 +180,23 @@ class MetatabDoc(object):
 
         list(term_interp)
 
-        dd = term_interp.declare_dict
+        self._update_declarations(term_interp)
+
+        return self
+
+    def _update_declarations(self, terms):
+        """Update the declared terms and sections, and the super and derived terms, from a term parser"""
+
+        dd = terms.declare_dict
 
         self.decl_terms.update(dd['terms'])
         self.decl_sections.update(dd['sections'])
 
-        return self
+        self.super_terms.update(terms.super_terms())
+
+        kf = lambda e: e[1]  # Sort on the value
+        self.derived_terms = {k: set(e[0] for e in g)
+                              for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}
 
     def add_term(self, t, add_section=True):
         t.doc = self
@@ -492,16 +503,7 @@ class MetatabDoc(object):
                 assert t.parent is not None
 
         try:
-            dd = terms.declare_dict
-
-            self.decl_terms.update(dd['terms'])
-            self.decl_sections.update(dd['sections'])
-
-            self.super_terms.update(terms.super_terms())
-
-            kf = lambda e: e[1]  # Sort on the value
-            self.derived_terms = {k: set(e[0] for e in g)
-                                  for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}
+            self._update_declarations(terms)
 
         except AttributeError as e:
             pass
-- 
2.43.0


From d9109121ed869a3d800de2b77462ba2a78a1383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:39 +0000
Subject: [PATCH 23/64] fix: load_rows() called the parser with the wrong
 arguments

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 42eb1a7..0d08e59 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -517,7 +517,7 @@ class MetatabDoc(object):
 
     def load_rows(self, row_generator):
 
-        term_interp = TermParser(self, row_generator)
+        term_interp = TermParser(row_generator, resolver=self.resolver, doc=self)
 
         return self.load_terms(term_interp)
 
-- 
2.43.0


From 397c0dbcd7e90e6a56e322c821efb9e1b042b8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:50 +0000
Subject: [PATCH 24/64] fix: includes relative to an included document, in the
 section of the Include row, and detection of include loops

---
 metatab/parser.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index dd8ddbd..31123b0 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -19,7 +19,7 @@ METATAB_ASSETS_URL = 'http://assets.metatab.org/'
 from .terms import Term, SectionTerm, RootSectionTerm
 
 from .exc import IncludeError, DeclarationError, ParserError, GenerateError
-from os.path import dirname, join, exists
+from os.path import dirname, join, exists, normpath
 from .util import declaration_path, import_name_or_class
 
 from functools import lru_cache
@@ -299,17 +299,18 @@ class TermParser(object):
                 raise IncludeError("Can't include '{}' because don't know current path "
                                    .format(name))
 
-            path = join(d, include_ref)
+            path = normpath(join(d, include_ref))
 
         return parse_app_url(path)
 
-    def generate_terms(self, ref, root, file_type=None):
+    def generate_terms(self, ref, root, file_type=None, parents=()):
         """An generator that yields term objects, handling includes and argument
         children.
         :param file_type:
         :param doc:
         :param root:
         :param ref:
+        :param parents: The documents that include this one
 
         """
 
@@ -319,10 +320,13 @@ class TermParser(object):
         if isinstance(ref, Source):
             row_gen = ref
             ref_path = row_gen.__class__.__name__
+            ref_dir = ''
         else:
             row_gen = get_generator(ref)
             ref_path = ref.path
+            ref_dir = dirname(ref_path) or '.'
 
+        parents = parents + (str(ref),)
 
         try:
             for line_n, row in enumerate(row_gen, 1):
@@ -348,20 +352,20 @@ class TermParser(object):
                 if t.term_is('include') or t.term_is('declare'):
 
                     if t.term_is('include'):
-                        resolved = self.find_include_doc(dirname(ref_path), t.value.strip())
+                        resolved = self.find_include_doc(ref_dir, t.value.strip())
                     else:
-                        resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
+                        resolved = self.find_declare_doc(ref_dir, t.value.strip())
 
-                    if row_gen.ref == resolved:
+                    if str(resolved) in parents:
                         raise IncludeError("Include loop for '{}' ".format(resolved))
 
                     yield t
 
                     try:
 
-                        sub_gen = get_generator(resolved.get_resource().get_target())
+                        target = resolved.get_resource().get_target()
 
-                        for t in self.generate_terms(sub_gen, root, file_type=t.record_term_lc):
+                        for t in self.generate_terms(target, last_section, file_type=t.record_term_lc, parents=parents):
                             yield t
 
                         if last_section:
-- 
2.43.0


From 49eda60a858073aff134d22b5e4256c13fad937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:50 +0000
Subject: [PATCH 25/64] fix: errors_as_dict() failed for an error without a
 term

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 31123b0..009b782 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -228,7 +228,7 @@ class TermParser(object):
         for e in self.errors:
 
             errors.append({
-                'file': e.term.file_name,
+                'file': e.term.file_name if e.term else '<unknown>',
                 'row': e.term.row if e.term else '<unknown>',
                 'col': e.term.col if e.term else '<unknown>',
                 'term': e.term.join if e.term else '<unknown>',
-- 
2.43.0


From f9d94acc0cb23a9f6dea217fd29371b16d2fb992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:10 +0000
Subject: [PATCH 26/64] fix: including a file that does not exist is an
 IncludeError

---
 metatab/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 009b782..e106e80 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -8,7 +8,7 @@ objects.
 """
 
 from rowgenerators import Source, get_generator, Url, parse_app_url
-from rowgenerators.exceptions import DownloadError
+from rowgenerators.exceptions import RowGeneratorError
 
 ROOT_TERM = 'root'  # No parent term -- no '.' --  in term cell
 
@@ -375,7 +375,7 @@ class TermParser(object):
                         e.term = t
                         raise
 
-                    except (OSError,  FileNotFoundError, GenerateError, DownloadError) as e:
+                    except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as e:
                         e = IncludeError("Failed to Include; {}".format(e))
                         e.term = t
                         raise e
-- 
2.43.0


From 35013bd15b798ed0f4b9c6bfdd1e1ae98754c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:40 +0000
Subject: [PATCH 27/64] fix: the class registered for a term is used when the
 term is made with an unqualified name

---
 metatab/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 8fd0c9e..b883696 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -179,7 +179,7 @@ class Term(object):
 
         """
 
-        tc = self.doc.get_term_class(term.lower())
+        tc = self.doc.get_term_class(self.record_term + '.' + self.split_term(term)[1])
 
         c = tc(term, str(value) if value is not None else None,
                parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
@@ -784,7 +784,7 @@ class SectionTerm(Term):
     def new_term(self, term, value, **kwargs):
         """Create a new root-level term in this section"""
 
-        tc = self.doc.get_term_class(term.lower())
+        tc = self.doc.get_term_class(self.normalize_term(term))
 
         t = tc(term, value, doc=self.doc, parent=None, section=self).new_children(**kwargs)
 
-- 
2.43.0


From 1bb019f5bc76e59196fb56414e90a8f85dbd34bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:08 +0000
Subject: [PATCH 28/64] fix: the module that the row generators are registered
 under does not exist, so Lines files could not be opened

---
 metatab/rowgenerators.py | 6 ++++++
 1 file changed, 6 insertions(+)
 create mode 100644 metatab/rowgenerators.py

diff --git a/metatab/rowgenerators.py b/metatab/rowgenerators.py
new file mode 100644
index 0000000..4735eaf
--- /dev/null
+++ b/metatab/rowgenerators.py
@@ -0,0 +1,6 @@
+# Copyright (c) 2017 Civic Knowledge. This file is licensed under the terms of the
+# MIT License, included in this distribution as LICENSE.txt
+
+"""The name under which the row generators are registered as entry points"""
+
+from .rowgen import YamlMetatabSource, MetatabRowGenerator, TextRowGenerator
-- 
2.43.0


From 9e55c73793bd41c6e082332a8ba930ab19768f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:03 +0000
Subject: [PATCH 29/64] fix: files were written without the identifier and name
 that writing gives the document

---
 metatab/doc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 0d08e59..49eac0a 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -898,8 +898,6 @@ class MetatabDoc(object):
 
     def _write(self, content, path: pathlib.Path, ext=None):
 
-        self.cleanse()
-
         debug_logger.debug("writing doc {}".format(str(path)))
 
         with path.open('wb') as f:
@@ -914,6 +912,8 @@ class MetatabDoc(object):
         if path.suffix != '.csv':
             raise MetatabError("Writing CSV file, but extension is wrong: {} ".format(str(path)))
 
+        self.cleanse()  # Before rendering, so the file has what is changed
+
         return self._write(self.as_csv(), path)
 
     def write_lines(self, path=None):
@@ -923,6 +923,8 @@ class MetatabDoc(object):
         if path.suffix != '.txt':
             raise MetatabError("Writing line (txt) file, but extension is wrong: {} ".format(str(path)))
 
+        self.cleanse()  # Before rendering, so the file has what is changed
+
         return self._write(self.as_lines(), path)
 
     def write(self, path=None):
-- 
2.43.0


From 1cae1a884100502f16fb7a0b9e697bf9773b6034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:03 +0000
Subject: [PATCH 30/64] fix: a document that cannot be encoded destroyed the
 file it was written to

---
 metatab/doc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 49eac0a..6b1663e 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -900,8 +900,10 @@ class MetatabDoc(object):
 
         debug_logger.debug("writing doc {}".format(str(path)))
 
+        content = content.encode('utf8')  # If it can't be encoded, an existing file must not be truncated
+
         with path.open('wb') as f:
-            f.write(content.encode('utf8'))
+            f.write(content)
 
         return path
 
-- 
2.43.0


From dd199d34d2cd9418b39a4e111f80eb1d2fa0f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:03 +0000
Subject: [PATCH 31/64] fix: writing a document without a file or path failed,
 instead of writing the default file

---
 metatab/doc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metatab/doc.py b/metatab/doc.py
index 6b1663e..5eb7def 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -873,6 +873,8 @@ class MetatabDoc(object):
 
         if path:
             u = parse_app_url(str(path))
+        elif self.ref is None:
+            return pathlib.Path(DEFAULT_METATAB_FILE)  # The document wasn't read from a file
         else:
             u = self.ref
 
-- 
2.43.0


From 3cb6141edd8d681fe3d5551b8dd9cee5973a9a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:31 +0000
Subject: [PATCH 32/64] fix: the metatab program failed with a traceback for a
 file that does not exist

---
 metatab/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/cli.py b/metatab/cli.py
index 1463823..234a1b8 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -10,6 +10,7 @@ import sys
 from genericpath import exists
 
 from metatab import  DEFAULT_METATAB_FILE, MetatabDoc, parse_app_url
+from rowgenerators.exceptions import RowGeneratorError
 from rowgenerators.util import get_cache, clean_cache
 from os.path import dirname
 from rowgenerators.util import fs_join as join
@@ -85,7 +86,7 @@ def metatab():
     metadata_url = parse_app_url(args.file, proto='metatab')
     try:
         doc = MetatabDoc(metadata_url, cache=cache)
-    except IOError as e:
+    except (IOError, RowGeneratorError) as e:
 
         err("Failed to open '{}': {}".format(metadata_url, e))
 
-- 
2.43.0


From d9503dce960137723c91d7423c3cdca5c87fc59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:31 +0000
Subject: [PATCH 33/64] fix: metatab --find-first failed with a traceback when
 there is no such term

---
 metatab/cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metatab/cli.py b/metatab/cli.py
index 234a1b8..f1ca113 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -126,6 +126,10 @@ def metatab():
     elif args.find_first:
 
         t = doc.find_first(args.find_first)
+
+        if t is None:
+            err("No term for '{}'".format(args.find_first))
+
         print(t.value)
 
 
-- 
2.43.0


From 740e5a46fa0e27256bfaa3022d39da831f544c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:23 +0000
Subject: [PATCH 34/64] fix: the identifier was not used as the name of a
 datapackage

---
 metatab/datapackage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 356ead5..07854e7 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -25,8 +25,8 @@ def convert_to_datapackage(doc):
         pass
 
     if not 'name' in dp:
-        if 'indentifier' in dp:
-            dp['name'] = dp['indentifier']
+        if 'identifier' in dp:
+            dp['name'] = dp['identifier']
         else:
             raise ConversionError("Datapackage.json requires a Name or Identity term")
 
-- 
2.43.0


From 2a9a2d25a540f45f206e680394d9e30bfd38160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:23 +0000
Subject: [PATCH 35/64] fix: columns without properties and tables without
 columns in datapackage conversion

---
 metatab/datapackage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 07854e7..0080a8a 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -32,7 +32,7 @@ def convert_to_datapackage(doc):
 
     try:
         table_schemas = {t.value: t.as_dict()['column'] for t in doc['schema']}
-    except KeyError as e:
+    except (KeyError, TypeError) as e:  # TypeError -> the table has no children, so it isn't a dict
         raise ConversionError("Failed to get schemas: " + str(e))
 
     file_resources = [fr.arg_props for fr in doc['resources'] if fr.term_is('root.datafile')]
@@ -50,6 +50,9 @@ def convert_to_datapackage(doc):
         def mkdict(c):
             d = {}
 
+            if not isinstance(c, dict):  # A column without properties is just its name
+                c = {'name': c}
+
             for prop in ('name', 'title', 'description'):
                 if c.get(prop):
                     d[prop] = c[prop]
-- 
2.43.0


From 13b537433d24e426d6f26f90f0d38700e4753bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:23 +0000
Subject: [PATCH 36/64] fix: resources of a datapackage that have their
 properties in rows were ignored

---
 metatab/datapackage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 0080a8a..1cf85ef 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -35,7 +35,7 @@ def convert_to_datapackage(doc):
     except (KeyError, TypeError) as e:  # TypeError -> the table has no children, so it isn't a dict
         raise ConversionError("Failed to get schemas: " + str(e))
 
-    file_resources = [fr.arg_props for fr in doc['resources'] if fr.term_is('root.datafile')]
+    file_resources = [fr.all_props for fr in doc['resources'] if fr.term_is('root.datafile')]
 
     dp['resources'] = []
 
-- 
2.43.0


From 06492f60b4eba45ff51f2e90f896706f915b071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:42 +0000
Subject: [PATCH 37/64] fix: cleaning the schema failed for a document without
 one

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 5eb7def..0c1d8a7 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -545,7 +545,7 @@ class MetatabDoc(object):
     def clean_unused_schema_terms(self):
 
         # Remove unused columns in the schema, and add new ones
-        schema_section = self.get_section('Schema')
+        schema_section = self.get_section('Schema', None)
 
         if schema_section:
             used_args = set()
-- 
2.43.0


From ff60d21b6791390912f4b29b0c0d1f7285175208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:42 +0000
Subject: [PATCH 38/64] fix: a Header row without a value name failed

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index e106e80..23e241a 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -459,7 +459,7 @@ class TermParser(object):
 
                 if t.term_is('root.header'):
                     self._param_map = munge_param_map(t)
-                    default_term_value_name = t.value.lower()
+                    default_term_value_name = (t.value or '@value').lower()
                     last_section.header_args = t.args
                     last_section.default_term_value_name = default_term_value_name
                     continue
-- 
2.43.0


From 272b7791927610e2f89981fac3d114b7b1db3b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:42 +0000
Subject: [PATCH 39/64] fix: a schema column was removed although it is used,
 when a column has an empty property of that name too

---
 metatab/doc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 0c1d8a7..0920346 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -553,9 +553,9 @@ class MetatabDoc(object):
 
             for table in schema_section.find('Root.Table'):
                 for column in table.find('Table.Column'):
-                    for k, v in column.props.items():
-                        if v and v.strip():
-                            used_args.add(k)
+                    for child in column.children:  # Not .props, where a later value replaces an earlier one
+                        if child.value and child.value.strip():
+                            used_args.add(child.record_term_lc)
 
             for arg in set(section_args) - used_args:
                 try:
-- 
2.43.0


From 0269ef6da2bd779225d198a1c80e7c7851c45805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:42 +0000
Subject: [PATCH 40/64] fix: the order of columns that cleaning adds to the
 schema depended on the hash seed

---
 metatab/doc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 0920346..8381a35 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -548,23 +548,24 @@ class MetatabDoc(object):
         schema_section = self.get_section('Schema', None)
 
         if schema_section:
-            used_args = set()
+            used_args = OrderedDict()  # Ordered, so new columns are always added in the same order
             section_args = [e.lower() for e in schema_section.args]
 
             for table in schema_section.find('Root.Table'):
                 for column in table.find('Table.Column'):
                     for child in column.children:  # Not .props, where a later value replaces an earlier one
                         if child.value and child.value.strip():
-                            used_args.add(child.record_term_lc)
+                            used_args[child.record_term_lc] = True
 
-            for arg in set(section_args) - used_args:
+            for arg in set(section_args) - set(used_args):
                 try:
                     schema_section.remove_arg(arg.title())
                 except ValueError as e:
                     pass
 
-            for arg in used_args - set(section_args):
-                schema_section.add_arg(arg)
+            for arg in used_args:
+                if arg not in section_args:
+                    schema_section.add_arg(arg)
 
             # Remove any empty properties
             for t in schema_section.find('Root.Table'):
-- 
2.43.0


From 942b03f020e9ff5281c565bcdae74a95c0716987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:42 +0000
Subject: [PATCH 41/64] fix: cleaning the schema lost the properties of
 properties without a value

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 8381a35..9c062fb 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -571,7 +571,7 @@ class MetatabDoc(object):
             for t in schema_section.find('Root.Table'):
                 for c in t.find('Table.Column'):
                     for child in list(c.children):
-                        if not child.value or not child.value.strip():
+                        if child.is_terminal and (not child.value or not child.value.strip()):
                             c.remove_child(child)
 
     def ensure_identifier(self):
-- 
2.43.0


From 6a3c3af61a964424563a9d10c01145da34da1228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:14 +0000
Subject: [PATCH 42/64] fix: the column of a section term was the number of its
 row

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index b883696..f91f7f6 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -707,7 +707,7 @@ class SectionTerm(Term):
         assert section is None
 
         super().__init__(term, value, term_args=section_args,
-                         row=row, col=row, file_name=file_name, file_type=file_type,
+                         row=row, col=col, file_name=file_name, file_type=file_type,
                          parent=parent, doc=doc, section=section)
 
         self.header_args = []  # Set for each header encoundered
-- 
2.43.0


From e9ba6bc8ea892ab37e582af30e0a336906e76e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:14 +0000
Subject: [PATCH 43/64] fix: the path of a document that was read from a file
 was always None

---
 metatab/doc.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 9c062fb..1c4a907 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -97,15 +97,10 @@ class MetatabDoc(object):
     def path(self):
         """Return the path to the file, if the ref is a file"""
 
-        if not isinstance(self.ref, str):
+        if self.ref is None or self.ref.scheme != 'file':
             return None
 
-        u = parse_app_url(self.ref)
-
-        if u.inner.proto != 'file':
-            return None
-
-        return u.path
+        return self.ref.path
 
     @property
     def cache(self):
-- 
2.43.0


From 20c3b433e21a669b78d3e0ea121ffafe61babe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:14 +0000
Subject: [PATCH 44/64] fix: a document read from a row generator had no mtime

---
 metatab/doc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metatab/doc.py b/metatab/doc.py
index 1c4a907..055f9fa 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -75,6 +75,7 @@ class MetatabDoc(object):
 
             except AppUrlError as e:  # ref is probably a generator, not a string or Url
                 self._ref = None
+                self._mtime = time()
 
             self._term_parser = TermParser(ref, resolver=self.resolver, doc=self)
 
-- 
2.43.0


From 1c84089a8ddb188063acf9347d60e1fbe5a1fdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:27 +0000
Subject: [PATCH 45/64] fix: includes and declarations were not found in a
 directory with a blank in its name

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 23e241a..d72d9ec 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -323,7 +323,7 @@ class TermParser(object):
             ref_dir = ''
         else:
             row_gen = get_generator(ref)
-            ref_path = ref.path
+            ref_path = str(ref.fspath)  # Not .path, in which characters like blanks are quoted
             ref_dir = dirname(ref_path) or '.'
 
         parents = parents + (str(ref),)
-- 
2.43.0


From 53772730517e26cc9604ea69b292fcb1e0532b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:27 +0000
Subject: [PATCH 46/64] fix: the mtime of a document in a file with a blank in
 its name was 0

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 055f9fa..632caa5 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -67,7 +67,7 @@ class MetatabDoc(object):
 
                 if self._ref.scheme == 'file':
                     try:
-                        self._mtime = getmtime(self._ref.path)
+                        self._mtime = getmtime(str(self._ref.fspath))
                     except (FileNotFoundError, OSError):
                         self._mtime = 0
                 else:
-- 
2.43.0


From 9408ddbc6107b94fe322e729c052a715c2cd4b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:27 +0000
Subject: [PATCH 47/64] fix: the path of a document had quoted characters

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 632caa5..977db02 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -101,7 +101,7 @@ class MetatabDoc(object):
         if self.ref is None or self.ref.scheme != 'file':
             return None
 
-        return self.ref.path
+        return str(self.ref.fspath)
 
     @property
     def cache(self):
-- 
2.43.0


From e872959f2fafc59093c534c92b0f83b080b3036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:27 +0000
Subject: [PATCH 48/64] fix: the directory of a document had quoted characters

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 977db02..745e212 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -147,7 +147,7 @@ class MetatabDoc(object):
             return None
 
         u = parse_app_url(self.ref)
-        return abspath(dirname(u.path))
+        return abspath(dirname(str(u.fspath)))
 
     @classmethod
     def register_term_class(cls, term_name, class_or_name):
-- 
2.43.0


From b519f8583ef9945921c96cf466d6010d7f4e3fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:15 +0000
Subject: [PATCH 49/64] fix: metatab --show-declaration failed for a file with
 a blank in its path

---
 metatab/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/cli.py b/metatab/cli.py
index f1ca113..67276b3 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -109,7 +109,7 @@ def metatab():
 
     if args.show_declaration:
 
-        decl_doc = MetatabDoc('', cache=cache, decl=metadata_url.path)
+        decl_doc = MetatabDoc('', cache=cache, decl=str(metadata_url.fspath))
 
         d = {
             'terms': decl_doc.decl_terms,
-- 
2.43.0


From 6ee32d0b0791d498b8566df47276471a5b3fe668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:14 +0000
Subject: [PATCH 50/64] fix: the error for an Include loop had no place, that
 of a nested Include could have a wrong one

---
 metatab/parser.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index d72d9ec..2775d98 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -359,6 +359,8 @@ class TermParser(object):
                     if str(resolved) in parents:
                         raise IncludeError("Include loop for '{}' ".format(resolved))
 
+                    include = t
+
                     yield t
 
                     try:
@@ -371,13 +373,9 @@ class TermParser(object):
                         if last_section:
                             yield last_section  # Re-assert the last section
 
-                    except IncludeError as e:
-                        e.term = t
-                        raise
-
                     except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as e:
                         e = IncludeError("Failed to Include; {}".format(e))
-                        e.term = t
+                        e.term = include
                         raise e
 
                     continue  # Already yielded the include/declare term, and includes can't have children
@@ -414,7 +412,7 @@ class TermParser(object):
                                        #section=last_section)
         except IncludeError as e:
             exc = IncludeError(str(e) + "; in '{}' ".format(ref_path))
-            exc.term = e.term if hasattr(e, 'term') else None
+            exc.term = e.term if hasattr(e, 'term') else t
             raise exc
 
     def __iter__(self):
-- 
2.43.0


From 6780d4c2e66c7ed1824650deb39dbc8fdc0940cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:50 +0000
Subject: [PATCH 51/64] fix: flatten() failed, collections.MutableMapping does
 not exist any more

---
 metatab/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/util.py b/metatab/util.py
index 368ef30..67c410b 100644
--- a/metatab/util.py
+++ b/metatab/util.py
@@ -55,13 +55,13 @@ def flatten(d, sep='.'):
     """Flatten a data structure into tuples"""
 
     def _flatten(e, parent_key='', sep='.'):
-        import collections
+        import collections.abc
 
         prefix = parent_key + sep if parent_key else ''
 
-        if isinstance(e, collections.MutableMapping):
+        if isinstance(e, collections.abc.MutableMapping):
             return tuple((prefix + k2, v2) for k, v in e.items() for k2, v2 in _flatten(v, k, sep))
-        elif isinstance(e, collections.MutableSequence):
+        elif isinstance(e, collections.abc.MutableSequence):
             return tuple((prefix + k2, v2) for i, v in enumerate(e) for k2, v2 in _flatten(v, str(i), sep))
         else:
             return (parent_key, (e,)),
-- 
2.43.0


From d272fc1999518e8ebcb112656d2d528584d40fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:05 +0000
Subject: [PATCH 52/64] fix: a second iteration over a term parser, like
 metatab -t does, used the columns of the last section for the first rows

---
 metatab/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metatab/parser.py b/metatab/parser.py
index 2775d98..4807bef 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -423,6 +423,7 @@ class TermParser(object):
         last_section = None
 
         last_section = self.root
+        self._param_map = []  # May be left over from an earlier iteration
         last_term_map[ELIDED_TERM] = self.root
         last_term_map[self.root.record_term] = self.root
 
-- 
2.43.0


From 057d0f4d343294f20f25435879d88acbead8f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:57 +0000
Subject: [PATCH 53/64] fix: the number 0 was lost as the value of a term

---
 metatab/terms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index f91f7f6..7d5f691 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -65,7 +65,8 @@ class Term(object):
 
         self._orig_term = term
 
-        self.value = strip_if_str(value) if value else None
+        # No text is no value, but the number 0 is a value
+        self.value = None if value is None or value is False or value == '' else strip_if_str(value)
         self.args = [strip_if_str(x) for x in (term_args or [])]
 
         self._section = None
-- 
2.43.0


From b80042398322efbad9e02d85c8941a4c8e107282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:57 +0000
Subject: [PATCH 54/64] fix: as_lines() failed for numbers in section columns,
 and lost the number 0

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 7d5f691..b59ebf4 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -983,7 +983,7 @@ class SectionTerm(Term):
             children = list(zip(self.property_names, value[1:]))
 
             for prop, value in children:
-                if value and value.strip():
+                if value is not None and str(value).strip():
                     child_t = '.' + (prop.title())
                     yield ("    "+child_t, escape(value))
 
-- 
2.43.0


From bada1e721181edd8ec1471c096b14f7843107e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:57 +0000
Subject: [PATCH 55/64] fix: the number 0 was lost in the dict form of a term
 with children

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index b59ebf4..261348a 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -605,7 +605,7 @@ class Term(object):
 
                         d[c.record_term_lc] = [d[c.record_term]] + [cls._convert_to_dict(c, replace_value_names)]
 
-            if term.value:
+            if term.value is not None and term.value != '':
                 if replace_value_names:
                     d[term.term_value_name.lower()] = term.value
                 else:
-- 
2.43.0


From 5140a5fae5431e15bf0e55e754ba3c4d54e6c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:57 +0000
Subject: [PATCH 56/64] fix: clean_unused_schema_terms() failed for properties
 that are numbers

---
 metatab/doc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 745e212..9e18d1e 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -550,7 +550,7 @@ class MetatabDoc(object):
             for table in schema_section.find('Root.Table'):
                 for column in table.find('Table.Column'):
                     for child in column.children:  # Not .props, where a later value replaces an earlier one
-                        if child.value and child.value.strip():
+                        if child.value is not None and str(child.value).strip():
                             used_args[child.record_term_lc] = True
 
             for arg in set(section_args) - set(used_args):
@@ -567,7 +567,7 @@ class MetatabDoc(object):
             for t in schema_section.find('Root.Table'):
                 for c in t.find('Table.Column'):
                     for child in list(c.children):
-                        if child.is_terminal and (not child.value or not child.value.strip()):
+                        if child.is_terminal and (child.value is None or not str(child.value).strip()):
                             c.remove_child(child)
 
     def ensure_identifier(self):
-- 
2.43.0


From cf050e0326e0f04ea61b3bafef6c4dc64419e143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:57 +0000
Subject: [PATCH 57/64] fix: the number 0, like that of a version, was left out
 of the name of a document

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 9e18d1e..506accd 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -769,7 +769,7 @@ class MetatabDoc(object):
 
         parts = [slugify(str(e).replace('-', '_')) for e in (
             origin, datasetname, time, space, grain, variant, version)
-                 if e and str(e).strip()]
+                 if e is not None and str(e).strip()]
 
         return '-'.join(parts)
 
-- 
2.43.0


From 7906b1d7acaec4c3cb3fcd9d7f69f6f2e61d0c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:14 +0000
Subject: [PATCH 58/64] fix: update_name() changed a Name, and used a Dataset,
 of a section other than Root

---
 metatab/doc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 506accd..7e9e54c 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -651,7 +651,7 @@ class MetatabDoc(object):
 
         self.ensure_identifier()
 
-        name_term = self.find_first('Root.Name')
+        name_term = self.find_first('Root.Name', section='Root')
 
         if not name_term:
             if create_term:
@@ -662,9 +662,9 @@ class MetatabDoc(object):
 
         orig_name = name_term.value
 
-        identifier = self.get_value('Root.Identifier')
+        identifier = self.get_value('Root.Identifier', section='Root')
 
-        datasetname = self.get_value('Root.Dataset')
+        datasetname = self.get_value('Root.Dataset', section='Root')
 
         if datasetname:
 
-- 
2.43.0


From 7483ddd2ee872df369c80f5f05037e41fec3938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:14 +0000
Subject: [PATCH 59/64] fix: new_section() for a name that is in use left the
 terms of the old section in the document

---
 metatab/doc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 7e9e54c..67f3a9f 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -277,7 +277,10 @@ class MetatabDoc(object):
         return self.decl_sections.get(section_name.lower(), {}).get('args', [])
 
     def new_section(self, name, params=None):
-        """Return a new section"""
+        """Return a new section. It replaces a section of the same name, with its terms"""
+        for t in self.sections.get(name.lower(), []):
+            self.terms.remove(t)
+
         self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)
 
         # Set the default arguments
-- 
2.43.0


From c9e7b18d0887ed98ec62c3ee82064db2bde25b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:27 +0000
Subject: [PATCH 60/64] fix: a cell that is None made a property with the text
 None

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 4807bef..63583eb 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -396,7 +396,7 @@ class TermParser(object):
                 # Yield any child terms, from the term row arguments
                 if not t.term_is('section') and not t.term_is('header'):
                     for col, value in enumerate(t.args, 0):
-                        if str(value).strip():
+                        if value is not None and str(value).strip():
 
                             term_name = t.record_term_lc + '.' + str(col)
 
-- 
2.43.0


From 5b4e7e5a73f7a0a54405913292bff49bf992af5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:16 +0000
Subject: [PATCH 61/64] fix: a term that was moved to a section of another
 document stayed in the list of terms of the old document

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 261348a..7624328 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -763,7 +763,7 @@ class SectionTerm(Term):
             if t.parent_term_lc == 'root':
                 # A term is in one section; when it is moved it leaves the other one
                 if t.section is not None and t.section is not self:
-                    t.section.remove_term(t, remove_from_doc=False)
+                    t.section.remove_term(t, remove_from_doc=t.section.doc is not self.doc)
 
                 t._section = self  # not .section, which may be the name of the value
                 self.terms.append(t)
-- 
2.43.0


From b29f6272801053150f4a281e7e68a700b3da6142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:09 +0000
Subject: [PATCH 62/64] fix: joining a path to a metatab URL printed the type
 of the URL

---
 metatab/appurl.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 479926a..28d11be 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -122,8 +122,6 @@ class MetatabUrl(InnerFile, Url):
 
     def join_target(self, tf):
 
-        print("Type=", type(self))
-
         if self.target_file == DEFAULT_METATAB_FILE:
             return self.inner.join_dir(tf)
         else:
-- 
2.43.0


From 4adc433ed6d7a9ab2112421bb46ad631f177f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:09 +0000
Subject: [PATCH 63/64] fix: the target file of a metatab URL was wrong for a
 file whose name ends with the default name

---
 metatab/appurl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 28d11be..d5da2ba 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -66,7 +66,7 @@ class MetatabUrl(InnerFile, Url):
 
     @property
     def target_file(self):
-        if self.path.endswith(DEFAULT_METATAB_FILE):
+        if basename(self.path) == DEFAULT_METATAB_FILE:
             return DEFAULT_METATAB_FILE
         elif self.resource_format in self.simple_file_formats:
             return self.resource_file
-- 
2.43.0


From c5e7f72f79d3b0321692536df0b8465786ade5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:09 +0000
Subject: [PATCH 64/64] fix: the document of a metatab URL of a Lines file
 could not be opened

---
 metatab/appurl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index d5da2ba..def25f7 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -93,7 +93,7 @@ class MetatabUrl(InnerFile, Url):
         """Return the metatab document for the URL"""
         from metatab import MetatabDoc
         t = self.get_resource().get_target()
-        return MetatabDoc(t.inner)
+        return MetatabDoc(t)
 
     @property
     def generator(self):
-- 
2.43.0

