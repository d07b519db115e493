From fe15634b5aabbbfc38c48c01926dd092f308f19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:34 +0000
Subject: [PATCH 01/76] fix: \theequation in the book class omits the chapter
 before the first chapter

---
 plasTeX/Packages/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index b78b1a5..bf2b026 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -27,7 +27,7 @@ def ProcessOptions(options, document):
                        format='${thesubparagraph}.${subsubparagraph}')
 
     context.newcounter('equation', resetby='chapter',
-                       format='${thechapter}.${equation}')
+                       format='${thechapter}.${equation}', trimLeft=True)
 
     context.newcounter('secnumdepth')
     context.newcounter('tocdepth')
-- 
2.43.0


From 2b60b9c1542ce2005e808dd1927b559f637856de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 02/76] fix: \setcounter and \addtocounter do not reset the
 counters declared within

---
 plasTeX/Packages/article.py | 1 +
 plasTeX/Packages/book.py    | 1 +
 plasTeX/__init__.py         | 2 --
 3 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index dd4607d..83a85c5 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -19,4 +19,5 @@ class appendix(Command): # type: ignore
 
     def invoke(self, tex):
         self.ownerDocument.context.counters['section'].setcounter(0)
+        self.ownerDocument.context.counters['subsection'].setcounter(0)
         self.ownerDocument.context['thesection'] = type(self).thesection 
diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index bf2b026..7d5a0c4 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -70,4 +70,5 @@ class appendix(Command):
 
     def invoke(self, tex):
         self.ownerDocument.context.counters['chapter'].setcounter(0)
+        self.ownerDocument.context.counters['section'].setcounter(0)
         self.ownerDocument.context['thechapter'] = type(self).thechapter
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 9934cc9..3bf5c0b 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1585,11 +1585,9 @@ class Counter(object):
 
     def addtocounter(self, other):
         self.value += int(other)
-        self.resetcounters()
 
     def setcounter(self, other):
         self.value = int(other)
-        self.resetcounters()
 
     def stepcounter(self):
         self.value += 1
-- 
2.43.0


From b78112816ff90bb4b83462410ee4b991b803d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 03/76] fix: \newcounter{x}[within] is reset when its parent is
 stepped

---
 plasTeX/Base/LaTeX/Numbering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Numbering.py b/plasTeX/Base/LaTeX/Numbering.py
index 2de5263..5ee639e 100644
--- a/plasTeX/Base/LaTeX/Numbering.py
+++ b/plasTeX/Base/LaTeX/Numbering.py
@@ -7,7 +7,7 @@ from plasTeX import Command
 
 
 class newcounter(Command):
-    args = 'name:str [ within ]'
+    args = 'name:str [ within:str ]'
     def invoke(self, tex):
         a = self.parse(tex)
         self.ownerDocument.context.newcounter(a['name'], a['within'])
-- 
2.43.0


From 05db11a4bc5381cd7f99c9f38b067f4ca157319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:18 +0000
Subject: [PATCH 04/76] fix: lists nested more than four deep number their
 items from a counter of their own

---
 plasTeX/Base/LaTeX/Lists.py | 4 +++-
 plasTeX/Packages/book.py    | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index 0a989d7..51b33f8 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -10,11 +10,13 @@ class enuminame(Command): str = ''
 class enumiiname(Command): str = ''
 class enumiiiname(Command): str = ''
 class enumivname(Command): str = ''
+class enumvname(Command): str = ''
+class enumviname(Command): str = ''
 
 class List(Environment):
     """ Base class for all list-based environments """
     depth = 0
-    counters = ['enumi','enumii','enumiii','enumiv']
+    counters = ['enumi','enumii','enumiii','enumiv','enumv','enumvi']
     blockType = True
 
     class item(Command):
diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index 7d5a0c4..29cedfb 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -7,6 +7,9 @@ def ProcessOptions(options, document):
     context.newcounter('enumii', resetby='enumi')
     context.newcounter('enumiii', resetby='enumii')
     context.newcounter('enumiv', resetby='enumiii')
+    # lists of different kinds can be nested six deep
+    context.newcounter('enumv', resetby='enumiv')
+    context.newcounter('enumvi', resetby='enumv')
 
     # Sections
     context.newcounter('part', resetby='volume',
-- 
2.43.0


From 2c3d12d23356501c30ddf1fd0a259a8b83b67f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 05/76] fix: entering an enumerate list restarts its counter

---
 plasTeX/Base/LaTeX/Lists.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index 51b33f8..9973294 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -53,11 +53,13 @@ class List(Environment):
     def invoke(self, tex):
         """ Set list nesting depth """
         if self.macroMode != Environment.MODE_END:
+            first = List.depth
             List.depth += 1
         else:
             List.depth -= 1
+            first = List.depth
         try:
-            for i in range(List.depth, len(List.counters)):
+            for i in range(first, len(List.counters)):
                 self.ownerDocument.context.counters[List.counters[i]].setcounter(0)
         except (IndexError, KeyError):
             pass
-- 
2.43.0


From 16baff29dc69b9af9e88492928b86d6ed50b2f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 06/76] fix: a label after a starred unnumbered command
 (\hspace*) still attaches to the enclosing numbered object

---
 plasTeX/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 3bf5c0b..7d8b0c4 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -533,7 +533,7 @@ class Macro(Element):
         """
         # If there was a '*', unset the counter for this instance
         if arg.index == 0 and arg.name == '*modifier*':
-            if value:
+            if value and self.counter is not None:
                 self.counter = ''
             self.refstepcounter(tex)
 
-- 
2.43.0


From bc8735dd18da7e6fec5682f1777e535b25b7e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 07/76] fix: $name(n) in a filename template limits each
 occurrence to n words before the forbidden characters are replaced, and
 accepts an empty value

---
 plasTeX/Filenames.py | 89 ++++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 53 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 3323e23..113bc51 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -1,4 +1,4 @@
-import re, string, os.path
+import re, os.path
 
 class Filenames(object):
 
@@ -137,6 +137,36 @@ class Filenames(object):
             return filename + self.extension
         return filename
 
+    # Locate all key names and formats in the string
+    keysre = re.compile(r'\$\{(\w+)(?:\.(\d+))?}')
+
+    def expand(self, item, num):
+        """
+        Substitute all of the variables in a filename template
+
+        Arguments:
+        item -- the template, as normalized by parseFilenames
+        num -- the value of $num
+
+        Returns:
+        the filename.  If one of the variables isn't bound, KeyError is raised.
+
+        """
+        def getvalue(m):
+            key, format = m.groups()
+            # Supply a file number as needed
+            if key == 'num':
+                return ('%%.%sd' % (format or '')) % num
+            value = self.variables[key]
+            # Limit other variables to specified number of words
+            if format:
+                value = ' '.join(value.split()[:int(format)])
+            if self.charsub:
+                for char in self.charsub[0]:
+                    value = value.replace(char, self.charsub[1])
+            return value
+        return self.keysre.sub(getvalue, item)
+
     def _newFilename(self):
         """ Generator that generates new filenames """
         g = self.variables.copy()
@@ -159,36 +189,12 @@ class Filenames(object):
         # Initialize file number counter
         num = 1
 
-        # Locate all key names and formats in the string
-        keysre = re.compile(r'\$\{(\w+)(?:\.(\d+))?}')
-
         # Return static filenames
         for item in static:
-            currentns = self.variables.copy()
-            for key, value in list(currentns.items()):
-                if self.charsub:
-                    for char in self.charsub[0]:
-                        value = value.replace(char, self.charsub[1])
-                currentns[key] = value
-            for key, format in keysre.findall(item):
-                # Supply a file number as needed
-                if key == 'num':
-                    currentns['num'] = ('%%.%sd' % format) % num
-                # Limit other variables to specified number of words
-                elif format and key in currentns:
-                    value = currentns[key].split()
-                    newvalue = []
-                    for i in range(int(format)):
-                        newvalue.append(value.pop(0))
-                        if not value:
-                            break
-                    currentns[key] = ' '.join(newvalue)
             try:
-                # Strip formats
-                item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
                 # Do variable substitution
-                result = string.Template(item).substitute(currentns)
-                if 'num' in currentns:
+                result = self.expand(item, num)
+                if '${num}' in item or '${num.' in item:
                     num += 1
                 self.variables.clear()
                 self.variables.update(g)
@@ -206,31 +212,10 @@ class Filenames(object):
         while 1:
             passes += 1
             for item in wildcard:
-                currentns = self.variables.copy()
-                for key, value in list(currentns.items()):
-                    if self.charsub:
-                        for char in self.charsub[0]:
-                            value = value.replace(char, self.charsub[1])
-                    currentns[key] = value
-                for key, format in keysre.findall(item):
-                    # Supply a file number as needed
-                    if key == 'num':
-                        currentns['num'] = ('%%.%sd' % format) % num
-                    # Limit other variables to specified number of words
-                    elif format and key in currentns:
-                        value = currentns[key].split()
-                        newvalue = []
-                        for i in range(int(format)):
-                            newvalue.append(value.pop(0))
-                            if not value:
-                                break
-                        currentns[key] = ' '.join(newvalue)
                 try:
-                    # Strip formats
-                    item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
                     # Do variable substitution
-                    result = string.Template(item).substitute(currentns)
-                    if 'num' in currentns:
+                    result = self.expand(item, num)
+                    if '${num}' in item or '${num.' in item:
                         num += 1
                     self.variables.clear()
                     self.variables.update(g)
@@ -241,9 +226,7 @@ class Filenames(object):
                     else:
                         continue
                     break
-                except KeyError as key:
-                    if 'num' in self.variables:
-                        del self.variables['num']
+                except KeyError:
                     continue
             else:
                 # We tried 100 different names and still don't have a unique
-- 
2.43.0


From 4cb11f3ccad223864a0fd5515dca87283c76f13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 08/76] fix: a filename that is already taken does not unbind
 the variables of the request

---
 plasTeX/Filenames.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 113bc51..14f0b77 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -196,10 +196,10 @@ class Filenames(object):
                 result = self.expand(item, num)
                 if '${num}' in item or '${num.' in item:
                     num += 1
-                self.variables.clear()
-                self.variables.update(g)
                 result = self.addExtension(result)
                 if result not in self.invalid:
+                    self.variables.clear()
+                    self.variables.update(g)
                     self.invalid[result] = None
                     yield result
             except KeyError:
@@ -217,10 +217,10 @@ class Filenames(object):
                     result = self.expand(item, num)
                     if '${num}' in item or '${num.' in item:
                         num += 1
-                    self.variables.clear()
-                    self.variables.update(g)
                     result = self.addExtension(result)
                     if result not in self.invalid:
+                        self.variables.clear()
+                        self.variables.update(g)
                         self.invalid[result] = None
                         yield result
                     else:
-- 
2.43.0


From 3e8c6eaf56a84d4b77e058ad63c812401af63c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 09/76] fix: the filename generator reports an error only when
 no unused name can be formed, and does so for every such request

---
 plasTeX/Filenames.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 14f0b77..8b282a2 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -127,8 +127,10 @@ class Filenames(object):
         return next(self)
 
     def __next__(self):
-        for name in self.newFilename:
-            return name
+        name = next(self.newFilename)
+        if name is None:
+            raise ValueError('Filename could not be created.')
+        return name
 
     def addExtension(self, filename):
         """ Add a file extension to the filename if none exists """
@@ -208,15 +210,15 @@ class Filenames(object):
         # We've reached the wildcard stage.  The wildcard gives us
         # multiple alternatives of filenames to choose from.  Keep trying
         # each one with the current namespace until one works.
-        passes = 0
         while 1:
-            passes += 1
+            numbered = False
             for item in wildcard:
                 try:
                     # Do variable substitution
                     result = self.expand(item, num)
                     if '${num}' in item or '${num.' in item:
                         num += 1
+                        numbered = True
                     result = self.addExtension(result)
                     if result not in self.invalid:
                         self.variables.clear()
@@ -229,9 +231,7 @@ class Filenames(object):
                 except KeyError:
                     continue
             else:
-                # We tried 100 different names and still don't have a unique
-                # one, we better just bail out.
-                if passes > 100:
-                    break
-
-        raise ValueError('Filename could not be created.')
+                # None of the alternatives gives an unused name, and only
+                # the next file number could change that.
+                if not numbered:
+                    yield None
-- 
2.43.0


From 41a06e7856ffe222258dbde71fb502520cb1224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 10/76] fix: variables bound before the first filename request
 are not made permanent

---
 plasTeX/Filenames.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 8b282a2..9213235 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -77,7 +77,7 @@ class Filenames(object):
         self.variables = variables or {}
         self.extension = extension
         self.invalid = invalid or {}
-        self.newFilename = self._newFilename()
+        self.newFilename = self._newFilename(self.variables.copy())
 
     def parseFilenames(self, spec):
         """ Parse and expand the filename string """
@@ -169,9 +169,8 @@ class Filenames(object):
             return value
         return self.keysre.sub(getvalue, item)
 
-    def _newFilename(self):
-        """ Generator that generates new filenames """
-        g = self.variables.copy()
+    def _newFilename(self, g):
+        """ Generator that generates new filenames, `g' is the initial namespace """
 
         # Split filenames into static and wildcard groups
         static = []
-- 
2.43.0


From 08fd54968c11123d2eb5ea5ef6233d23d2834231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 11/76] fix: $jobname_[...] in a filename template is the
 variable jobname followed by an underscore, as documented

---
 plasTeX/Filenames.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 9213235..773c020 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -83,7 +83,7 @@ class Filenames(object):
         """ Parse and expand the filename string """
         # Normalize string before parsing
         spec = spec.strip()
-        spec = re.sub(r'\$(\w+)', r'${\1}', spec)
+        spec = re.sub(r'\$(\w*[^\W_])', r'${\1}', spec)
         spec = re.sub(r'\${\s*(\w+)\s*}', r'${\1}', spec)
         spec = re.sub(r'\}\(\s*(\d+)\s*\)', r'.\1}', spec)
         spec = re.sub(r'\[\s*', r'[', spec)
-- 
2.43.0


From 174a5621bce083592af8610dd07fc92e65ca9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:56 +0000
Subject: [PATCH 12/76] fix: \not in ifthen tests binds tightest and may follow
 another operator

---
 plasTeX/Packages/ifthen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 645172b..f9e04fb 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -80,8 +80,10 @@ class ifthenelse(Command):
     def prec(self, tok: Union[Token, number]) -> int:
         """Return the operator precedence for the given token"""
         if tok in ['>', '<', '=']:
+            return 3
+        if isinstance(tok, (_not, NOT)):
             return 2
-        if isinstance(tok, (_and, AND, _or, OR, _not, NOT)):
+        if isinstance(tok, (_and, AND, _or, OR)):
             return 1
         return 0
 
@@ -113,6 +115,9 @@ class ifthenelse(Command):
                         break
                     postfix.append(stack.pop())
                 stack.pop()  # (
+            elif isinstance(tok, (_not, NOT)):
+                # Prefix operator, its operand is yet to come
+                stack.append(tok)
             else:
                 # Handle operators and precedence
                 while stack and self.prec(tok) <= self.prec(stack[-1]):
-- 
2.43.0


From f6884af98d930c692b0d0572d01ba58554557867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:45 +0000
Subject: [PATCH 13/76] fix: \( \) groups expressions in \whiledo tests

---
 plasTeX/Packages/ifthen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index f9e04fb..9e78c2e 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -193,7 +193,10 @@ class whiledo(ifthenelse):
         a = self.parse(tex)
         tok: List[Token] = []
         while True:
+            # Here too, \( and \) group expressions
+            BeginMath.disableMath = EndMath.disableMath = True
             expanded = tex.expandTokens(a['test'], parentNode=self.parentNode)
+            BeginMath.disableMath = EndMath.disableMath = False
             if isinstance(expanded, TeXFragment):
                 test_result = self.evaluate(tex, expanded)
             else:
-- 
2.43.0


From b5c8678714faf9eddaced846db143f2b00f984da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 14/76] fix: \newboolean, \setboolean and \boolean work on the
 \if... of that name, as \newif defines it

---
 plasTeX/Packages/ifthen.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 9e78c2e..3fb239a 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -213,8 +213,9 @@ class boolean(Command):
 
     def invoke(self, tex):
         a = self.parse(tex)
-        if a['name'] in self.ownerDocument.context:
-            if self.ownerDocument.context[a['name']].state:
+        name = 'if' + a['name']
+        if name in self.ownerDocument.context:
+            if self.ownerDocument.context[name].state:
                 return [_true()]
             else:
                 return [_false()]
@@ -291,7 +292,7 @@ class newboolean(Command):
     args = 'name:str'
 
     def invoke(self, tex):
-        self.ownerDocument.context.newif(self.parse(tex)['name'])
+        self.ownerDocument.context.newif('if' + self.parse(tex)['name'])
 
 
 class provideboolean(newboolean):
@@ -304,10 +305,11 @@ class setboolean(Command):
 
     def invoke(self, tex):
         a = self.parse(tex)
-        if a['name'] in self.ownerDocument.context:
+        name = 'if' + a['name']
+        if name in self.ownerDocument.context:
             if a['value'].lower() == 'true':
-                self.ownerDocument.context[a['name']].setTrue()
+                self.ownerDocument.context[name].setTrue()
             elif a['value'].lower() == 'false':
-                self.ownerDocument.context[a['name']].setFalse()
+                self.ownerDocument.context[name].setFalse()
         else:
             raise ValueError("Boolean %s not defined" % a['name'])
-- 
2.43.0


From e06caa1a952ecf5cf21ae4dbd8ed1c0beda5e215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 15/76] fix: restore \( and \) when reading an ifthen test
 raises

An exception while the test of \ifthenelse or \whiledo was read left math
disabled for every document processed afterwards in the same process.
---
 plasTeX/Packages/ifthen.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 3fb239a..1cd03e2 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -69,8 +69,10 @@ class ifthenelse(Command):
     def invoke(self, tex) -> List[Token]:
         # Temporarily disable entering math mode with \( and \)
         BeginMath.disableMath = EndMath.disableMath = True
-        a = self.parse(tex)
-        BeginMath.disableMath = EndMath.disableMath = False
+        try:
+            a = self.parse(tex)
+        finally:
+            BeginMath.disableMath = EndMath.disableMath = False
         if isinstance(a['test'], TeXFragment):
             test_result = self.evaluate(tex, a['test'])
         else:
@@ -195,8 +197,10 @@ class whiledo(ifthenelse):
         while True:
             # Here too, \( and \) group expressions
             BeginMath.disableMath = EndMath.disableMath = True
-            expanded = tex.expandTokens(a['test'], parentNode=self.parentNode)
-            BeginMath.disableMath = EndMath.disableMath = False
+            try:
+                expanded = tex.expandTokens(a['test'], parentNode=self.parentNode)
+            finally:
+                BeginMath.disableMath = EndMath.disableMath = False
             if isinstance(expanded, TeXFragment):
                 test_result = self.evaluate(tex, expanded)
             else:
-- 
2.43.0


From 21e5c992f62401b1eca702c707b5c1116bef86c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:23 +0000
Subject: [PATCH 16/76] fix: lengths equal up to rounding are neither greater
 nor less in \lengthtest

\lengthtest{20mm>2cm} was true, and so was \lengthtest{20mm=2cm}: < and >
saw the floating point noise that = ignores.
---
 plasTeX/Packages/ifthen.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 1cd03e2..15570f9 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -265,9 +265,8 @@ class lengthtest(Command):
     """
     Evaluate a length test and return a _boolToken depending on the result
 
-    The < and > relations are implemented directly. However, equals tests if
-    the lengths are just very close. This is to ensure that the result of tests
-    such as "1cm=10mm" match in LaTeX and plasTeX.
+    Lengths that are just very close count as equal. This is to ensure that the
+    result of tests such as "1cm=10mm" or "20mm>2cm" match in LaTeX and plasTeX.
 
     The workaround is required because LaTeX dimension calculations are
     internally handled by integer arithmetic rather than floating point
@@ -282,12 +281,13 @@ class lengthtest(Command):
         a = tex.readDimen()
         relation = next(tex.itertokens())
         b = tex.readDimen()
+        close = abs(a - b) < 1e-6
         if relation == '<':
-            return [_true() if a < b else _false()]
+            return [_true() if a < b and not close else _false()]
         elif relation == '>':
-            return [_true() if a > b else _false()]
+            return [_true() if a > b and not close else _false()]
         elif relation == '=':
-            return [_true() if abs(a - b) < 1e-6 else _false()]
+            return [_true() if close else _false()]
         raise ValueError('"%s" is not a valid relation' % relation)
 
 
-- 
2.43.0


From 31d294357780fac26370634fbc5d4a10d093d65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 17/76] fix: children added to a document fragment name the
 fragment as their parent

append() and insert() gave them the parent of the fragment, which does not list
them (None for a detached fragment), while items present when a fragment is
stored as an attribute name the fragment.
---
 plasTeX/DOM/__init__.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 4ac8ad8..a35a4e1 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -921,10 +921,7 @@ class Node(object):
             self.childNodes.append(newChild)
 
         if setParent:
-            if self.nodeType == self.DOCUMENT_FRAGMENT_NODE:
-                newChild.parentNode = self.parentNode
-            else:
-                newChild.parentNode = self
+            newChild.parentNode = self
         newChild.ownerDocument = self.ownerDocument
         return newChild
 
@@ -951,10 +948,7 @@ class Node(object):
         else:
             self.childNodes.insert(i, newChild)
         if setParent:
-            if self.nodeType == self.DOCUMENT_FRAGMENT_NODE:
-                newChild.parentNode = self.parentNode
-            else:
-                newChild.parentNode = self
+            newChild.parentNode = self
         newChild.ownerDocument = self.ownerDocument
         return newChild
 
-- 
2.43.0


From c955ae003483275310944afd04803258c5eea865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 18/76] fix: a child removed from the tree no longer names its
 former parent

compareDocumentPosition reported removed nodes as contained in the node they
had been removed from.
---
 plasTeX/DOM/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index a35a4e1..8f84622 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -897,8 +897,11 @@ class Node(object):
         the item removed from the list
 
         """
-        try: return self.childNodes.pop(index)
+        try: child = self.childNodes.pop(index)
         except: raise IndexError('object has no childNodes')
+        if child.parentNode is self:
+            child.parentNode = None
+        return child
 
     def append(self, newChild, setParent=True):
         """
-- 
2.43.0


From 6850a93c8cc2e2a50cc6850aba626b5f9faddeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 19/76] fix: compareDocumentPosition compares below the deepest
 common ancestor

The paths were compared at the root only, so that of two nodes below the same
child of the root the second always counted as following.
---
 plasTeX/DOM/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 8f84622..08dc397 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -492,6 +492,9 @@ def _compareDocumentPosition(self, other):
             if sparent is oparent:
                 s = sparents[i+1]
                 o = oparents[j+1]
+                # The paths part further down the tree
+                if s is o:
+                    continue
                 for item in sparent:
                    if item is s:
                        return Node.DOCUMENT_POSITION_FOLLOWING
-- 
2.43.0


From 2278b5f9ae8736e69d7f14b8c941af5dfe6a9b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 20/76] fix: negative indices in item assignment and fragment
 insertion

node[-1] = x replaced the first child and node.insert(-1, fragment) spread the
fragment over both ends of the list.  An index out of range is refused before
anything is changed.
---
 plasTeX/DOM/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 08dc397..5fa332f 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -948,6 +948,8 @@ class Node(object):
         if type(newChild) == str:
             newChild = self.ownerDocument.createTextNode(newChild)
         if newChild.nodeType == Node.DOCUMENT_FRAGMENT_NODE:
+            if i < 0:
+                i = max(0, i + len(self))
             for item in newChild:
                 self.insert(i, item, setParent=setParent)
                 i += 1
@@ -969,6 +971,11 @@ class Node(object):
         """
         if type(node) == str:
             node = self.ownerDocument.createTextNode(node)
+        if not isinstance(i, slice):
+            if i < 0:
+                i += len(self)
+            if not 0 <= i < len(self):
+                raise IndexError('child index out of range')
         # If a DocumentFragment is being inserted, but it isn't replacing
         # a slice, we need to put each child in manually.
         if node.nodeType == Node.DOCUMENT_FRAGMENT_NODE \
-- 
2.43.0


From 8b3a1dbbf4848ec6dc90d391ef4977e2ee83b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 21/76] fix: a cloned node shares nothing with its original

cloneNode moved the attribute nodes of the original into the clone (endlessly
if the children are held by the `self` attribute) and, unless deep, the
children as well; the clone named a parent that does not list it.
---
 plasTeX/DOM/__init__.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 5fa332f..95442ca 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -557,6 +557,16 @@ def xmlstr(obj):
     else:
         return xmlstr(str(obj))
 
+def _cloneValue(value):
+    """ Deep copy of an attribute value """
+    if isinstance(value, Node):
+        return value.cloneNode(True)
+    if type(value) is list:
+        return [_cloneValue(x) for x in value]
+    if type(value) is dict:
+        return {k: _cloneValue(v) for k, v in value.items()}
+    return value
+
 class Node(object):
     """
     Node
@@ -1050,20 +1060,19 @@ class Node(object):
         except: pass
 #       node.nodeValue = self.nodeValue
 #       node.nodeType = self.nodeType
-        node.parentNode = self.parentNode
+        node.parentNode = None
         node.ownerDocument = self.ownerDocument
-        if deep:
-            if node.attributes is not None and self.attributes is not None:
-                node.attributes.update(self.attributes)
-            if self.hasChildNodes():
+        attributes = self.attributes
+        if node.attributes is not None and attributes is not None:
+            for key, value in attributes.items():
+                # Without `deep` there are no children, in any form
+                if deep or key != 'self':
+                    node.attributes[key] = _cloneValue(value)
+        if deep and self.hasChildNodes():
+            # The `self` attribute acts as the children and is there already
+            if not (attributes and attributes.get('self') is self.childNodes):
                 for x in self.childNodes:
                     node.append(x.cloneNode(deep))
-        else:
-            if node.attributes is not None and self.attributes is not None:
-                node.attributes.update(self.attributes)
-            if self.hasChildNodes():
-                for x in self.childNodes:
-                    node.append(x)
         return node
 
     def normalize(self, charsubs=None):
@@ -1683,7 +1692,7 @@ class CharacterData(str, Node):
     def cloneNode(self, deep=True):
         o = type(self)(self)
         o.ownerDocument = self.ownerDocument
-        o.parentNode = self.parentNode
+        o.parentNode = None
         return o
 
     @property
-- 
2.43.0


From 7216857866609f0938ad5bc3584527226b7eb985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 22/76] fix: getElementsByTagName finds every element once

Elements in the `self` attribute were listed twice (it holds the child nodes),
and those below an element in a list or dictionary attribute not at all.
---
 plasTeX/DOM/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 95442ca..1e4b08e 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -1287,6 +1287,9 @@ def _getElementsByTagName(self, tagname):
     # Look in attributes dictionary for document fragments as well
     if self.attributes and list(self.attributes.keys()):
         for item in list(self.attributes.values()):
+            # The `self` attribute may act as the child nodes
+            if item is self.childNodes:
+                continue
             if getattr(item, 'tagName', None) in tagname:
                  output.append(item)
             if hasattr(item, 'getElementsByTagName'):
@@ -1295,14 +1298,14 @@ def _getElementsByTagName(self, tagname):
                 for e in item:
                     if getattr(e, 'tagName', None) in tagname:
                         output.append(e)
-                    if hasattr(item, 'getElementsByTagName'):
-                        output += item.getElementsByTagName(tagname)
+                    if hasattr(e, 'getElementsByTagName'):
+                        output += e.getElementsByTagName(tagname)
             elif isinstance(item, dict):
                 for e in list(item.values()):
                     if getattr(e, 'tagName', None) in tagname:
                         output.append(e)
-                    if hasattr(item, 'getElementsByTagName'):
-                        output += item.getElementsByTagName(tagname)
+                    if hasattr(e, 'getElementsByTagName'):
+                        output += e.getElementsByTagName(tagname)
 
     # Now look in the child elements
     for item in self:
-- 
2.43.0


From 38a134dbd9701929a9012fe65b62adfb75719ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:37 +0000
Subject: [PATCH 23/76] fix: a fragment stored as an attribute names its
 element as the parent

Its children had no parent chain to the element (and the document), although
any other node stored as an attribute has one.
---
 plasTeX/DOM/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 1e4b08e..44ec655 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -406,6 +406,8 @@ class NamedNodeMap(dict):
             return
 
         elif nodeType == Node.DOCUMENT_FRAGMENT_NODE:
+            value.parentNode = parent
+            value.ownerDocument = self.ownerDocument
             for item in value:
                 self._resetPosition(item, parent=value)
 
-- 
2.43.0


From df0e48a5d80c78bacbfc502e831aba294a4ff00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:55 +0000
Subject: [PATCH 24/76] fix: compareDocumentPosition of children held by the
 self attribute

Some of them name the element as the parent and some the fragment in its
attribute, which was taken for a child of its own.
---
 plasTeX/DOM/__init__.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 44ec655..84f483d 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -475,16 +475,24 @@ def _compareDocumentPosition(self, other):
     while parent is not None:
         if parent is other:
             return Node.DOCUMENT_POSITION_CONTAINS
-        sparents.append(parent)
-        parent = parent.parentNode
+        # The fragment in the `self` attribute acts as the child nodes
+        # of its parent, it is not a container of its own
+        container = parent.parentNode
+        if container is None or container.childNodes is not parent:
+            sparents.append(parent)
+        parent = container
 
     oparents = []
     parent = other
     while parent is not None:
         if parent is self:
             return Node.DOCUMENT_POSITION_CONTAINED_BY
-        oparents.append(parent)
-        parent = parent.parentNode
+        # The fragment in the `self` attribute acts as the child nodes
+        # of its parent, it is not a container of its own
+        container = parent.parentNode
+        if container is None or container.childNodes is not parent:
+            oparents.append(parent)
+        parent = container
 
     sparents.reverse()
     oparents.reverse()
-- 
2.43.0


From 830975ecb0d085f2687a54b46cdc64dc90621c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:48 +0000
Subject: [PATCH 25/76] fix: \let to a character is scoped and redefined like
 any other definition, and applies to names in bodies read earlier

---
 plasTeX/Context.py   | 15 ++++-----------
 plasTeX/Tokenizer.py | 12 ------------
 plasTeX/__init__.py  |  7 +++++++
 3 files changed, 11 insertions(+), 23 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index aaca1e9..66ab18d 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -36,7 +36,6 @@ class ContextItem(dict):
     def __init__(self, data=None):
         dict.__init__(self, data or {})
         self.categories = None # type: Optional[List[str]]
-        self.lets = {}
         self.obj = None
         self.parent = None
         self.owner = None
@@ -1164,14 +1163,6 @@ class Context(object):
         else:
             self.addGlobal(name, newclass)
 
-    def get_let(self, command):
-        for context in reversed(self.contexts):
-            try:
-                return context.lets[command]
-            except KeyError:
-                pass
-        return command
-
     def let(self, dest, source):
         """
         Create a \\let
@@ -1189,8 +1180,10 @@ class Context(object):
         # \expandafter\let\csname foo\endcsname=1
         if source.catcode == Token.CC_ESCAPE:
             self.top[dest.nodeName] = self[source.nodeName]
-        else:
-            self.top.lets[dest.nodeName] = source
+        # \let\bgroup={ is what \bgroup means anyway
+        elif dest.nodeName != source.macroName:
+            self.top[dest.nodeName] = type(dest.nodeName,
+                (plasTeX.LetCharacter,), {'token':source})
 
     def chardef(self, name, num):
         """
diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index b5d17e2..abf1260 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -452,17 +452,6 @@ class Tokenizer(object):
 
                 else: token = EscapeSequence()
 
-                # Check for any \let aliases
-                token = context.get_let(token)
-
-                # TODO: This action should be generalized so that the
-                #       tokens are processed recursively
-                if token is not token and token.catcode == CC_COMMENT:
-                    self.readline()
-                    self.lineNumber += 1
-                    self.state = STATE_N
-                    continue
-
             elif code == CC_COMMENT:
                 self.readline()
                 self.lineNumber += 1
@@ -471,7 +460,6 @@ class Tokenizer(object):
 
             elif code == CC_ACTIVE:
                 token = EscapeSequence('active::%s' % char)
-                token = context.get_let(token)
                 self.state = STATE_M
 
             else:
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 7d8b0c4..2fa2623 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1093,6 +1093,13 @@ class IfFalse(Macro):
         type(self).ifclass.setFalse()
         return []
 
+class LetCharacter(Macro):
+    """ Base class for names that are made equal to a character by \\let """
+    token = None # type: Optional[Token]
+    def invoke(self, tex):
+        token = type(self).token
+        return [type(token)(token)]
+
 def expandDef(definition, params):
     # Walk through the definition and expand parameters
     if not definition:
-- 
2.43.0


From 3abf3f60d8d94ffae9f6a8305e54a3d9f4653887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:36 +0000
Subject: [PATCH 26/76] fix: \def parameters with delimiters of several tokens,
 #{ and ## follow TeX's rules

---
 plasTeX/__init__.py | 140 +++++++++++++++++++++++++++-----------------
 1 file changed, 86 insertions(+), 54 deletions(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 2fa2623..9b95889 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1175,72 +1175,104 @@ class Definition(Macro):
     definition = None # type: Optional[str]
 
     def invoke(self, tex):
-        if not self.args: return self.definition
-
         name = macroName(self)
+
+        # Split the argument string into the tokens in front of the first
+        # parameter, and the tokens delimiting each of the parameters
+        prefix = delimiter = [] # type: List[Token]
+        delimiters = []
+        upToBrace = False
         argIter = iter(self.args)
-        inparam = False
-        params = [None]
         for a in argIter:
+            if a.catcode != Token.CC_PARAMETER:
+                delimiter.append(a)
+                continue
+            for a in argIter:
+                if a.catcode == Token.CC_PARAMETER:
+                    continue
+                if a not in string.digits:
+                    raise ValueError('Invalid arg string: %s' % ''.join(self.args))
+                delimiter = []
+                delimiters.append(delimiter)
+                break
+            # A `#' right before the definition: the last parameter
+            # ends at the next brace
+            else:
+                upToBrace = True
 
-            # Beginning a new parameter
-            if a.catcode == Token.CC_PARAMETER:
-
-                # Adjacent parameters, just get the next token
-                if inparam:
-                    params.append(tex.readArgument(parentNode=self,
-                                                   name='#%s' % len(params)))
-
-                # Get the parameter number
-                for a in argIter:
-                    # Numbered parameter
-                    if a in string.digits:
-                        inparam = True
-
-                    elif a.catcode == Token.CC_PARAMETER:
-                        continue
-
-                    # Handle #{ case here
-                    elif a.catcode == Token.CC_BGROUP:
-                        param = []
-                        for t in tex.itertokens():
-                            if t.catcode == Token.CC_BGROUP:
-                                tex.pushToken(t)
-                            else:
-                                param.append(t)
-                        inparam = False
-                        params.append(param)
-
-                    else:
-                        raise ValueError('Invalid arg string: %s' % ''.join(self.args))
+        # Make sure that the tokens in front match
+        for a in prefix:
+            for t in tex.itertokens():
+                if t == a:
                     break
+                log.info('Arguments of "%s" don\'t match definition. Got "%s" but was expecting "%s" (%s).' % (name, t, a, ''.join(self.args)))
+                break
 
-            # In a parameter, so get everything up to a token that matches `a`
-            elif inparam:
-                param = []
-                for t in tex.itertokens():
-                    if t == a:
-                        break
-                    param.append(t)
-                inparam = False
-                params.append(param)
-
-            # Not in a parameter, just make sure the token matches
+        params = [None]
+        for delimiter in delimiters:
+            brace = upToBrace and delimiter is delimiters[-1]
+            if delimiter or brace:
+                params.append(self.readDelimited(tex, delimiter, brace))
             else:
-                for t in tex.itertokens():
-                    if t == a:
-                        break
-                    log.info('Arguments of "%s" don\'t match definition. Got "%s" but was expecting "%s" (%s).' % (name, t, a, ''.join(self.args)))
-                    break
-
-        if inparam:
-            params.append(tex.readArgument(parentNode=self,
-                                           name='#%s' % len(params)))
+                params.append(tex.readArgument(parentNode=self,
+                                               name='#%s' % len(params)))
 
         deflog.debug2('expanding %s %s', self.definition, params)
 
         return expandDef(self.definition, params)
 
+    @staticmethod
+    def readDelimited(tex, delimiter, brace=False):
+        """
+        Read the tokens up to a delimiter that is not inside braces
+
+        Required Arguments:
+        tex -- the TeX instance to read from
+        delimiter -- list of tokens
+
+        Keyword Arguments:
+        brace -- the delimiter also includes the opening brace that
+            follows it.  This brace is not removed from the input.
+
+        Returns: list of tokens
+
+        """
+        param = [] # type: List[Token]
+        start = 0      # position after the last token inside braces
+        depth = 0
+        for t in tex.itertokens():
+            complete = len(param) - start >= len(delimiter) and \
+                       param[len(param)-len(delimiter):] == delimiter
+            if t.catcode == Token.CC_BGROUP:
+                if brace and not depth and complete:
+                    tex.pushToken(t)
+                    del param[len(param)-len(delimiter):]
+                    break
+                depth += 1
+            elif t.catcode == Token.CC_EGROUP:
+                depth -= 1
+            param.append(t)
+            if depth or t.catcode == Token.CC_EGROUP:
+                start = len(param)
+            elif not brace and len(param) - start >= len(delimiter) and \
+                 param[-len(delimiter):] == delimiter:
+                del param[-len(delimiter):]
+                break
+
+        # An argument that is a single group is the content of that group
+        if len(param) > 1 and param[0].catcode == Token.CC_BGROUP and \
+           param[-1].catcode == Token.CC_EGROUP:
+            depth = 0
+            for t in param[:-1]:
+                if t.catcode == Token.CC_BGROUP:
+                    depth += 1
+                elif t.catcode == Token.CC_EGROUP:
+                    depth -= 1
+                if not depth:
+                    return param
+            return param[1:-1]
+        return param
+
 
 class number(int):
     """ Class used for parameter and count values """
-- 
2.43.0


From 4cef922628526a1f0487adcd7d15084a913d4a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 27/76] fix: brackets inside braces do not end an optional
 argument

---
 plasTeX/TeX.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 31d8073..7d28923 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -882,9 +882,19 @@ class TeX(object):
             if t.catcode != Token.CC_ESCAPE and \
                (t == begin or str(t) == str(begin)):
                 level = 1
+                braces = 0
                 for t in tokens:
                     source.append(t)
-                    if t.catcode != Token.CC_ESCAPE and \
+                    # Delimiters inside braces don't count
+                    if t.catcode == Token.CC_BGROUP:
+                        toks.append(t)
+                        braces += 1
+                    elif t.catcode == Token.CC_EGROUP:
+                        toks.append(t)
+                        braces -= 1
+                    elif braces > 0:
+                        toks.append(t)
+                    elif t.catcode != Token.CC_ESCAPE and \
                        (t == begin or str(t) == str(begin)):
                         toks.append(t)
                         level += 1
-- 
2.43.0


From 0430f1ec482084b31804c5bc112b9e7672a1dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 28/76] fix: \gdef replaces the local definitions of the name

---
 plasTeX/Context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 66ab18d..0a59459 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1161,6 +1161,9 @@ class Context(object):
         if local:
             self.addLocal(name, newclass)
         else:
+            # A global definition replaces the local ones as well
+            for context in self.contexts[1:]:
+                context.pop(name, None)
             self.addGlobal(name, newclass)
 
     def let(self, dest, source):
-- 
2.43.0


From c629179c6655025bb2c9e2cfc1e6cd024f6ad56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:49 +0000
Subject: [PATCH 29/76] fix: \newcommand and \renewcommand are local to the
 group, \providecommand keeps an existing definition

---
 plasTeX/Base/LaTeX/Definitions.py | 13 ++++++++++---
 plasTeX/Context.py                | 10 +++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Definitions.py b/plasTeX/Base/LaTeX/Definitions.py
index 75380ee..647af8d 100644
--- a/plasTeX/Base/LaTeX/Definitions.py
+++ b/plasTeX/Base/LaTeX/Definitions.py
@@ -3,7 +3,7 @@ C.8 Definitions, Numbering, and Programming
 
 """
 
-from plasTeX import Command, Environment
+from plasTeX import Command, Environment, UnrecognizedMacro
 from plasTeX.Logging import getLogger
 
 deflog = getLogger('parse.definitions')
@@ -19,7 +19,7 @@ class newcommand(Command):
         self.parse(tex)
         a = self.attributes
         args = (a['name'], a['nargs'], a['definition'])
-        kwargs = {'opt':a['opt']}
+        kwargs = {'opt':a['opt'], 'local':True}
         deflog.debug('command %s %s %s', *args)
         self.ownerDocument.context.newcommand(*args, **kwargs)
 
@@ -27,7 +27,14 @@ class renewcommand(newcommand):
     pass
 
 class providecommand(newcommand):
-    pass
+    def invoke(self, tex):
+        # Only the first definition counts
+        self.parse(tex)
+        a = self.attributes
+        context = self.ownerDocument.context
+        current = context.get(str(a['name']))
+        if current is None or issubclass(current, UnrecognizedMacro):
+            context.newcommand(a['name'], a['nargs'], a['definition'], opt=a['opt'], local=True)
 
 class DeclareRobustCommand(newcommand):
     pass
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 0a59459..8a24cf3 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1039,7 +1039,7 @@ class Context(object):
         newclass = type(falsename, (plasTeX.IfFalse,), {'ifclass':ifclass})
         self.addGlobal(falsename, newclass)
 
-    def newcommand(self, name, nargs=0, definition=None, opt=None):
+    def newcommand(self, name, nargs=0, definition=None, opt=None, local=False):
         """
         Create a \\newcommand
 
@@ -1049,6 +1049,7 @@ class Context(object):
         definition -- string containing the LaTeX definition
         opt -- string containing the LaTeX code to use in the
             optional argument
+        local -- indicates whether this macro is local or global
 
         Examples::
             c.newcommand('bold', 1, r'\\textbf{#1}')
@@ -1057,7 +1058,7 @@ class Context(object):
         """
         # Macro already exists
         if name in list(self.keys()):
-            if not issubclass(self[name], (plasTeX.NewCommand, plasTeX.UnrecognizedMacro, plasTeX.Definition, relax)):
+            if not issubclass(self[name], (plasTeX.NewCommand, plasTeX.UnrecognizedMacro, plasTeX.Definition, plasTeX.LetCharacter, relax)):
                 if not issubclass(self[name], plasTeX.TheCounter):
                     return
             macrolog.debug('redefining command "%s"', name)
@@ -1076,7 +1077,10 @@ class Context(object):
         newclass = type(name, (plasTeX.NewCommand,),
                        {'nargs':nargs, 'opt':opt, 'definition':definition})
 
-        self.addGlobal(name, newclass)
+        if local:
+            self.addLocal(name, newclass)
+        else:
+            self.addGlobal(name, newclass)
 
     def newenvironment(self, name, nargs=0, def_before=None, def_after=None, opt=None):
         """
-- 
2.43.0


From 54e34717ee0f9ae6045bc922e14481ac1ac21bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:16 +0000
Subject: [PATCH 30/76] fix: \ifcase outside its cases takes the \else branch,
 and only conditionals are counted while skipping

---
 plasTeX/TeX.py | 48 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 7d28923..3a4ca8d 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -18,8 +18,8 @@ from typing import Optional, List
 import contextlib, string, os, sys, plasTeX, subprocess
 from plasTeX.Tokenizer import Tokenizer, Token, EscapeSequence, Other
 from plasTeX import TeXDocument
-from plasTeX.Base.TeX.Primitives import MathShift
-from plasTeX import ParameterCommand, Macro
+from plasTeX.Base.TeX.Primitives import MathShift, IfCommand
+from plasTeX import ParameterCommand, Macro, NewIf, UnrecognizedMacro
 from plasTeX import glue, muglue, mudimen, dimen, number
 from plasTeX.Logging import getLogger, disableLogging, fileLogging
 
@@ -540,13 +540,14 @@ class TeX(object):
 
         """
         # Since the true content always comes first, we need to set
-        # True to case 0 and False to case 1.
-        elsefound = False
+        # True to case 0.  False is not a case, it selects the else portion.
         if isinstance(which, bool):
             if which: which = 0
-            else: which = 1
+            else: which = -1
 
         cases = [[]]
+        elsecase = []
+        current = cases[0]
         nesting = 0
         correctly_terminated = False
         iterator = self.itertokens()
@@ -554,35 +555,48 @@ class TeX(object):
         for t in iterator:
             name = getattr(t, 'macroName', '') or ''
             if name == 'newif':
-                cases[-1].append(t)
-                cases[-1].append(next(iterator))
+                current.append(t)
+                current.append(next(iterator))
                 continue
-            elif name.startswith('if'):
-                cases[-1].append(t)
+            elif self.isConditional(name):
+                current.append(t)
                 nesting += 1
             elif name == 'fi':
                 if not nesting:
                     correctly_terminated = True
                     break
-                cases[-1].append(t)
+                current.append(t)
                 nesting -= 1
             elif not(nesting) and name == 'else':
-                cases.append([])
+                current = elsecase
                 continue
             elif not(nesting) and name == 'or':
-                cases.append([])
+                current = []
+                cases.append(current)
                 continue
             else:
-                cases[-1].append(t)
+                current.append(t)
 
         if not correctly_terminated:
             log.warning(r'\end occurred when \if was incomplete')
 
-        # else case for ifs without elses
-        cases.append([])
-
         # Push if-selected tokens back into tokenizer
-        self.pushTokens(cases[which])
+        if 0 <= which < len(cases):
+            self.pushTokens(cases[which])
+        else:
+            self.pushTokens(elsecase)
+
+    def isConditional(self, name):
+        """
+        Does the macro with the given name start an `if' block?
+
+        Not every name that starts with `if' does (e.g. \\iff, \\ifthenelse).
+
+        """
+        macro = self.ownerDocument.context.get(name)
+        if not isinstance(macro, type) or issubclass(macro, UnrecognizedMacro):
+            return name.startswith('if')
+        return issubclass(macro, (IfCommand, NewIf))
 
     def readArgument(self, *args, **kwargs):
         """
-- 
2.43.0


From 1602df87993a0b9d7f7a701b67c348aee5f1cf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:21 +0000
Subject: [PATCH 31/76] fix: dimensions equal up to rounding are neither
 greater nor less in \ifdim

---
 plasTeX/Base/TeX/Primitives.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 288f62e..839d583 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -220,21 +220,28 @@ class ifnum(IfCommand):
         raise ValueError('"%s" is not a valid relation' % relation)
 
 class ifdim(IfCommand):
-    """ Compare two dimensions """
+    """
+    Compare two dimensions
+
+    Dimensions that are just very close count as equal: TeX computes them with
+    integer arithmetic, and 10mm is the same length as 1cm there.
+
+    """
     args = 'a:Dimen rel:Tok b:Dimen'
     def invoke(self, tex):
         self.parse(tex)
         attrs = self.attributes
         relation = attrs['rel']
         a, b = attrs['a'], attrs['b']
+        close = abs(a - b) < 1e-6
         if relation == '<':
-            tex.processIfContent(a < b)
+            tex.processIfContent(a < b and not close)
             return []
         elif relation == '>':
-            tex.processIfContent(a > b)
+            tex.processIfContent(a > b and not close)
             return []
         elif relation == '=':
-            tex.processIfContent(a == b)
+            tex.processIfContent(close)
             return []
         raise ValueError('"%s" is not a valid relation' % relation)
 
-- 
2.43.0


From 569abbad9f1cb44588703792cbb48078a719346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 32/76] fix: \expandafter of a macro with an empty expansion

---
 plasTeX/Base/TeX/Primitives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 839d583..e2a42dc 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -514,7 +514,9 @@ class expandafter(Command):
         if isinstance(aftertok, Macro):
             expanded = aftertok.invoke(tex)
 
-        expanded = expanded or [aftertok]
+        # The expansion of a macro may be empty
+        if expanded is None:
+            expanded = [aftertok]
 
         return [nexttok] + expanded
 
-- 
2.43.0


From 165e45b8fe7cffca8c246d78854abc0635ad4fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 33/76] fix: ^^ notation with hexadecimal digits, non-ASCII
 characters and at the end of the input

---
 plasTeX/Tokenizer.py | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index abf1260..be01eda 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -254,6 +254,7 @@ class Tokenizer(object):
         CC_SUPER = Token.CC_SUPER
         CC_IGNORED = Token.CC_IGNORED
         CC_INVALID = Token.CC_INVALID
+        HEX_DIGITS = '0123456789abcdef'
 
         def _read1():
             if mybuffer:
@@ -271,21 +272,37 @@ class Tokenizer(object):
 
             code = whichCode(token)
 
-            if code == CC_SUPER:
-
-                # Handle characters like ^^M, ^^@, etc.
+            # Handle characters like ^^M, ^^@, ^^5e, etc.
+            while code == CC_SUPER:
                 next_char = _read1()
 
                 if next_char != token:
-                    self.pushChar(next_char)
+                    if next_char:
+                        mybuffer.insert(0, next_char)
+                    break
+
+                # This isn't the notation without an ASCII character
+                ascii_char = _read1()
+                if not ascii_char or ord(ascii_char) >= 128:
+                    mybuffer[0:0] = [c for c in (next_char, ascii_char) if c]
+                    break
+
+                num = ord(ascii_char)
+                if num >= 64:
+                    num -= 64
                 else:
-                    next_char = _read1()
-                    num = ord(next_char)
-                    if num >= 64:
-                        token = chr(num-64)
-                    else:
-                        token = chr(num+64)
-                    code = whichCode(token)
+                    num += 64
+
+                # Two lowercase hexadecimal digits
+                if ascii_char in HEX_DIGITS:
+                    hex_char = _read1()
+                    if hex_char and hex_char in HEX_DIGITS:
+                        num = int(ascii_char + hex_char, 16)
+                    elif hex_char:
+                        mybuffer.insert(0, hex_char)
+
+                token = chr(num)
+                code = whichCode(token)
 
             # Just go to the next character if you see one of these...
             if code in (CC_IGNORED, CC_INVALID):
-- 
2.43.0


From 48a46933cba274b2526d95df8885511814f79345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 34/76] fix: characters that end a control word, control
 symbols and the state after them follow the category codes

---
 plasTeX/Tokenizer.py | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index be01eda..2f6d4bf 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -238,8 +238,7 @@ class Tokenizer(object):
         Get the next character in the stream and its category code
 
         This function handles automatically converts characters like
-        ^^M, ^^@, etc. into the correct character.  It also bypasses
-        ignored and invalid characters.
+        ^^M, ^^@, etc. into the correct character.
 
         If you are iterating through the characters in a TeX instance
         and you go too far, you can put the character back with
@@ -252,8 +251,6 @@ class Tokenizer(object):
 
         whichCode = self.context.whichCode
         CC_SUPER = Token.CC_SUPER
-        CC_IGNORED = Token.CC_IGNORED
-        CC_INVALID = Token.CC_INVALID
         HEX_DIGITS = '0123456789abcdef'
 
         def _read1():
@@ -304,10 +301,6 @@ class Tokenizer(object):
                 token = chr(num)
                 code = whichCode(token)
 
-            # Just go to the next character if you see one of these...
-            if code in (CC_IGNORED, CC_INVALID):
-                continue
-
             yield (code, token)
 
     def pushChar(self, char: str):
@@ -376,6 +369,8 @@ class Tokenizer(object):
         CC_EOL = Token.CC_EOL
         CC_COMMENT = Token.CC_COMMENT
         CC_ACTIVE = Token.CC_ACTIVE
+        CC_IGNORED = Token.CC_IGNORED
+        CC_INVALID = Token.CC_INVALID
         prev = None
 
         while 1:
@@ -441,34 +436,28 @@ class Tokenizer(object):
                                 pushChar(next_char_)
                                 break
                         token = EscapeSequence(''.join(word))
+                        # Absorb following whitespace
+                        self.state = STATE_S
 
-                    elif next_code == CC_EOL:
+                    elif next_code == CC_EOL and ord(next_char) == 10:
                         #pushChar(token)
                         #token = EscapeSequence()
                         token = Space(' ')
-                        self.state = STATE_S
+                        self.state = STATE_N
 
                     else:
                         token = EscapeSequence(next_char)
-#
-# Because we can implement macros both in LaTeX and Python, we don't
-# always want the whitespace to be eaten.  For example, implementing
-# \chardef\%=`% would be \char{`%} in TeX, but in Python it's just
-# another macro class that would eat whitspace incorrectly.  So we
-# have to do this kind of thing in the parse() method of Macro.
-#
-                    if next_code != CC_EOL:
-# HACK: I couldn't get the parse() thing to work so I'm just not
-#       going to parse whitespace after EscapeSequences that end in
-#       non-letter characters as a half-assed solution.
-                        if token[-1] in encoding.stringletters():
-                            # Absorb following whitespace
+                        # Whitespace is not absorbed after other characters
+                        if next_code == CC_SPACE:
                             self.state = STATE_S
 
                     break
 
                 else: token = EscapeSequence()
 
+            elif code in (CC_IGNORED, CC_INVALID):
+                continue
+
             elif code == CC_COMMENT:
                 self.readline()
                 self.lineNumber += 1
-- 
2.43.0


From 25b485533a5d60e53c60b025f3081fbbbed9c461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 35/76] fix: the rest of a line is dropped after any
 end-of-line character, including characters already read ahead

---
 plasTeX/Tokenizer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 2f6d4bf..b81d577 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -217,7 +217,6 @@ class Tokenizer(object):
         self.source = source
         self.seek = source.seek
         self.read = source.read
-        self.readline = source.readline
         self.tell = source.tell
         self.lineNumber = 1
 
@@ -399,6 +398,12 @@ class Tokenizer(object):
 
             # End of line
             elif code == CC_EOL:
+                # The rest of the line is dropped
+                # ord(token) != 10 is the same as saying token != '\n'
+                # but it is much faster.
+                if ord(char) != 10:
+                    self.lineNumber += 1
+                    self.readline()
                 state = self.state
                 if state == STATE_S:
                     self.state = STATE_N
@@ -408,11 +413,6 @@ class Tokenizer(object):
                     code = CC_SPACE
                     self.state = STATE_N
                 elif state == STATE_N:
-                    # ord(token) != 10 is the same as saying token != '\n'
-                    # but it is much faster.
-                    if ord(char) != 10:
-                        self.lineNumber += 1
-                        self.readline()
                     token = EscapeSequence('par')
                     # Prevent adjacent paragraphs
                     if prev == token:
-- 
2.43.0


From 2f25afdcf051cf001198ad1fb0dfd5b9a252f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 36/76] fix: an optional argument of a \newcommand macro that
 is a single group is its content

---
 plasTeX/__init__.py | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 9b95889..3438795 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1133,6 +1133,29 @@ def expandDef(definition, params):
         previous = t
     return output
 
+def ungroup(param):
+    """
+    Remove the braces of an argument that is a single group
+
+    Required Arguments:
+    param -- list of tokens
+
+    Returns: list of tokens
+
+    """
+    if len(param) > 1 and param[0].catcode == Token.CC_BGROUP and \
+       param[-1].catcode == Token.CC_EGROUP:
+        depth = 0
+        for t in param[:-1]:
+            if t.catcode == Token.CC_BGROUP:
+                depth += 1
+            elif t.catcode == Token.CC_EGROUP:
+                depth -= 1
+            if not depth:
+                return param
+        return param[1:-1]
+    return param
+
 class NewCommand(Macro):
     """ Superclass for all \newcommand/\newenvironment type commands """
     nargs = 0
@@ -1152,9 +1175,9 @@ class NewCommand(Macro):
         nargs = self.nargs
         if self.opt is not None:
             nargs -= 1
-            params.append(tex.readArgument('[]', default=self.opt,
-                                           parentNode=self,
-                                           name='#%s' % len(params)))
+            params.append(ungroup(tex.readArgument('[]', default=self.opt,
+                                                   parentNode=self,
+                                                   name='#%s' % len(params))))
 
         # Get mandatory arguments
         for i in range(nargs):
@@ -1259,19 +1282,7 @@ class Definition(Macro):
                 del param[-len(delimiter):]
                 break
 
-        # An argument that is a single group is the content of that group
-        if len(param) > 1 and param[0].catcode == Token.CC_BGROUP and \
-           param[-1].catcode == Token.CC_EGROUP:
-            depth = 0
-            for t in param[:-1]:
-                if t.catcode == Token.CC_BGROUP:
-                    depth += 1
-                elif t.catcode == Token.CC_EGROUP:
-                    depth -= 1
-                if not depth:
-                    return param
-            return param[1:-1]
-        return param
+        return ungroup(param)
 
 
 class number(int):
-- 
2.43.0


From 1350e7c4c9822f892637e08c13699d3882380a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 37/76] fix: what is changed after a declaration in the
 preamble stays in force in the document

---
 plasTeX/Context.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 8a24cf3..7f44099 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -667,7 +667,15 @@ class Context(object):
                 # at the global context.
                 if context.level == context.DOCUMENT_LEVEL:
                     while len(self.contexts) > 1:
-                        self.contexts.pop()
+                        item = self.contexts.pop()
+                        # A declaration (e.g. raggedright) opens no group:
+                        # what was changed after it is still in force
+                        if item.obj is not None:
+                            self.contexts[-1].categories = item.categories
+                            macros = item.obj.locals()
+                            for key, value in item.items():
+                                if macros.get(key) is not value:
+                                    dict.__setitem__(self.contexts[-1], key, value)
             stacklog.debug('pushing %s onto %s', name, self.top)
             self.contexts.append(self.createContext(context))
 
-- 
2.43.0


From 3ca6baf962294c6d178ee4847bb5b04132885577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 38/76] fix: \newenvironment and \renewenvironment are local to
 the group

---
 plasTeX/Base/LaTeX/Definitions.py |  2 +-
 plasTeX/Context.py                | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Definitions.py b/plasTeX/Base/LaTeX/Definitions.py
index 647af8d..4111e79 100644
--- a/plasTeX/Base/LaTeX/Definitions.py
+++ b/plasTeX/Base/LaTeX/Definitions.py
@@ -53,7 +53,7 @@ class newenvironment(Command):
         self.parse(tex)
         a = self.attributes
         args = (a['name'], a['nargs'], a['begin'], a['end'])
-        kwargs = {'opt':a['opt']}
+        kwargs = {'opt':a['opt'], 'local':True}
         deflog.debug('environment %s %s %s', *args)
         self.ownerDocument.context.newenvironment(*args, **kwargs)
 
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 7f44099..b87ef93 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1090,7 +1090,8 @@ class Context(object):
         else:
             self.addGlobal(name, newclass)
 
-    def newenvironment(self, name, nargs=0, def_before=None, def_after=None, opt=None):
+    def newenvironment(self, name, nargs=0, def_before=None, def_after=None, opt=None,
+                       local=False):
         """
         Create a \\newenvironment
 
@@ -1103,6 +1104,8 @@ class Context(object):
             environment
         opt -- string containing the LaTeX code to use in the
             optional argument
+        local -- boolean indicating whether or not the environment is
+            only defined in the current group
 
         Examples::
             c.newenvironment('mylist', 0, [r'\\begin{itemize}', r'\\end{itemize}'])
@@ -1132,12 +1135,13 @@ class Context(object):
         # Begin portion
         newclass = type(name, (plasTeX.NewCommand,),
                        {'nargs':nargs, 'opt':opt, 'definition':def_before})
-        self.addGlobal(name, newclass)
+        define = self.addLocal if local else self.addGlobal
+        define(name, newclass)
 
         # End portion
         newclass = type('end' + name, (plasTeX.NewCommand,),
                        {'nargs':0, 'opt':None, 'definition':def_after})
-        self.addGlobal('end' + name, newclass)
+        define('end' + name, newclass)
 
     def newdef(self, name, args=None, definition=None, local=True):
         """
-- 
2.43.0


From ab348005f5014382831e221fd5f638711642d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 39/76] fix: $ is matched by the groups and arguments that are
 open, not by state shared between documents

---
 plasTeX/Base/TeX/Primitives.py | 59 ++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index e2a42dc..ad192c7 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -45,11 +45,6 @@ class BoxCommand(Command):
     """ Base class for box-type commands """
     args = 'self'
     mathMode = False
-    def parse(self, tex):
-        MathShift.inEnv.append(None)
-        Command.parse(self, tex)
-        MathShift.inEnv.pop()
-        return self.attributes
 
 class hbox(BoxCommand): pass
 class vbox(BoxCommand): pass
@@ -64,41 +59,49 @@ class MathShift(Command):
 
     """
     macroName = 'active::$'
-    inEnv = []
 
     def invoke(self, tex):
         r"""
         This gets a bit tricky because we need to keep track of both
-        our beginning and ending.  We also have to take into
-        account \mbox{}es.
+        our beginning and ending.
 
         """
-        inEnv = type(self).inEnv
+        from plasTeX.TeX import ArgumentContext
+        context = self.ownerDocument.context
+
+        # See which environment we are in.  Groups and macro arguments
+        # (e.g. \mbox{}) have to be closed before the environment around
+        # them, so a '$' in these starts a new one.
+        current = None
+        for item in reversed(context.contexts):
+            if item.obj is None or isinstance(item.obj, ArgumentContext):
+                break
+            if getattr(item.obj, 'mathShift', False):
+                current = item.obj
+                break
 
-        current = self.ownerDocument.createElement('math')
-        for t in tex.itertokens():
-            if t.catcode == Token.CC_MATHSHIFT:
-                # Case where we have $   $$    $ construction
-                if inEnv and inEnv[-1] is not None and type(inEnv[-1]) is type(current):
-                    tex.pushToken(t)
+        env = self.ownerDocument.createElement('math')
+
+        # The end of $ ... $ is the next '$'
+        if type(current) is not type(env):
+            for t in tex.itertokens():
+                if t.catcode == Token.CC_MATHSHIFT:
+                    env = self.ownerDocument.createElement('displaymath')
                 else:
-                    current = self.ownerDocument.createElement('displaymath')
-            else:
-                tex.pushToken(t)
-            break
+                    tex.pushToken(t)
+                break
 
         # See if this is the end of the environment
-        if inEnv and inEnv[-1] is not None and type(inEnv[-1]) is type(current):
-            inEnv.pop()
-            current.macroMode = Command.MODE_END
-            self.ownerDocument.context.pop(current)
-            return [current]
+        if current is not None and type(current) is type(env):
+            env.macroMode = Command.MODE_END
+            context.pop(env)
+            return [env]
 
-        inEnv.append(current)
-        mathshiftlog.debug('%s (%s)' % (current.tagName, id(current)))
-        self.ownerDocument.context.push(current)
+        env.mathShift = True
+        mathshiftlog.debug('%s (%s)' % (env.tagName, id(env)))
+        context.push(env)
 
-        return [current]
+        return [env]
 
 class AlignmentChar(Command):
     """ The '&' character in TeX """
-- 
2.43.0


From beb0626601dcfa79bb97fab6aa2096953e4bf5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 40/76] fix: \global definitions and \let survive the group,
 \chardef is local

---
 plasTeX/Base/TeX/Primitives.py | 33 +++++++++++++++++++++---
 plasTeX/Context.py             | 47 ++++++++++++++++++++++++++--------
 2 files changed, 67 insertions(+), 13 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index ad192c7..7f6c6bb 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -17,7 +17,31 @@ class protect(Command):
     pass
 
 class global_(Command):
+    """ Makes the definition that follows global """
     macroName = 'global'
+    prefixes = ['global', 'long', 'outer', 'protected', 'relax']
+
+    def invoke(self, tex):
+        for tok in tex.itertokens():
+            if tok.catcode == Token.CC_SPACE or \
+               tok.catcode == Token.CC_ESCAPE and tok.macroName in self.prefixes:
+                continue
+            obj = None
+            if isinstance(tok, Macro):
+                obj = tok
+            elif tok.catcode == Token.CC_ESCAPE:
+                obj = self.ownerDocument.createElement(tok.macroName)
+                obj.contextDepth = tok.contextDepth
+                obj.parentNode = tok.parentNode
+            if isinstance(obj, expandafter):
+                tex.pushTokens(obj.invoke(tex))
+                continue
+            if isinstance(obj, (DefCommand, let, chardef, mathchardef)):
+                obj.local = False
+                obj.invoke(tex)
+                return [self, obj]
+            tex.pushToken(tok)
+            break
 
 class par(Command):
     """ Paragraph """
@@ -378,10 +402,11 @@ class ifcsname(IfCommand):
 
 class let(Command):
     """ \\let """
+    local = True
     args = 'name:Tok = value:Tok'
     def invoke(self, tex):
         a = self.parse(tex)
-        self.ownerDocument.context.let(a['name'], a['value'])
+        self.ownerDocument.context.let(a['name'], a['value'], local=self.local)
 
 class char(Command):
     """ \\char """
@@ -390,16 +415,18 @@ class char(Command):
         return tex.textTokens(chr(self.parse(tex)['char']))
 
 class chardef(Command):
+    local = True
     args = 'command:cs = num:Number'
     def invoke(self, tex):
         a = self.parse(tex)
-        self.ownerDocument.context.chardef(a['command'], a['num'])
+        self.ownerDocument.context.chardef(a['command'], a['num'], local=self.local)
 
 class mathchardef(Command):
+    local = True
     args = 'command:cs = num:Number'
     def invoke(self, tex):
         a = self.parse(tex)
-        self.ownerDocument.context.mathchardef(a['command'], a['num'])
+        self.ownerDocument.context.mathchardef(a['command'], a['num'], local=self.local)
 
 class NameDef(Command):
     macroName = '@namedef'
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index b87ef93..409e71f 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1177,12 +1177,15 @@ class Context(object):
         if local:
             self.addLocal(name, newclass)
         else:
-            # A global definition replaces the local ones as well
-            for context in self.contexts[1:]:
-                context.pop(name, None)
+            self.removeLocals(name)
             self.addGlobal(name, newclass)
 
-    def let(self, dest, source):
+    def removeLocals(self, name):
+        """ Remove the local definitions that a global one replaces """
+        for context in self.contexts[1:]:
+            context.pop(name, None)
+
+    def let(self, dest, source, local=True):
         """
         Create a \\let
 
@@ -1190,6 +1193,9 @@ class Context(object):
         dest -- the command sequence to create
         source -- the token to set the command sequence equivalent to
 
+        Keyword Arguments:
+        local -- indicates whether this alias is local or global
+
         Examples::
             c.let('bgroup', BeginGroup('{'))
 
@@ -1198,13 +1204,20 @@ class Context(object):
         # EscapeSequence, e.g. when we do
         # \expandafter\let\csname foo\endcsname=1
         if source.catcode == Token.CC_ESCAPE:
-            self.top[dest.nodeName] = self[source.nodeName]
+            value = self[source.nodeName]
         # \let\bgroup={ is what \bgroup means anyway
         elif dest.nodeName != source.macroName:
-            self.top[dest.nodeName] = type(dest.nodeName,
+            value = type(dest.nodeName,
                 (plasTeX.LetCharacter,), {'token':source})
+        else:
+            return
+        if local:
+            self.top[dest.nodeName] = value
+        else:
+            self.removeLocals(dest.nodeName)
+            self.contexts[0][dest.nodeName] = value
 
-    def chardef(self, name, num):
+    def chardef(self, name, num, local=True):
         """
         Create a \\chardef
 
@@ -1212,14 +1225,21 @@ class Context(object):
         name -- name of command to create
         num -- character number to use
 
+        Keyword Arguments:
+        local -- indicates whether this definition is local or global
+
         """
         # Generate a new chardef class
         macrolog.debug('creating chardef (8-bit) %s', name)
         newclass = type(name, (plasTeX.Command,),
                                 {'str':chr(num)})
-        self.addGlobal(name, newclass)
+        if local:
+            self.addLocal(name, newclass)
+        else:
+            self.removeLocals(name)
+            self.addGlobal(name, newclass)
 
-    def mathchardef(self, name, num):
+    def mathchardef(self, name, num, local=True):
         """
         Create a \\mathchardef
 
@@ -1227,9 +1247,16 @@ class Context(object):
         name -- name of command to create
         num -- character number to use
 
+        Keyword Arguments:
+        local -- indicates whether this definition is local or global
+
         """
         # Generate a new chardef class
         macrolog.debug('creating mathchardef (16-bit) %s', name)
         newclass = type(name, (plasTeX.Command,),
                                 {'str':chr(num)})
-        self.addGlobal(name, newclass)
+        if local:
+            self.addLocal(name, newclass)
+        else:
+            self.removeLocals(name)
+            self.addGlobal(name, newclass)
-- 
2.43.0


From a707d3e99103445778299c99c8f1d7de636dba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 41/76] fix: a number ends where it does in TeX and the command
 after it is not run before the value is used

---
 plasTeX/Base/LaTeX/Numbering.py |  5 ++++
 plasTeX/Base/TeX/Numbers.py     |  2 ++
 plasTeX/Base/TeX/Primitives.py  |  7 +++++
 plasTeX/TeX.py                  | 46 ++++++++++++++++++++++++++++-----
 plasTeX/__init__.py             |  6 +++++
 5 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Numbering.py b/plasTeX/Base/LaTeX/Numbering.py
index 5ee639e..3241390 100644
--- a/plasTeX/Base/LaTeX/Numbering.py
+++ b/plasTeX/Base/LaTeX/Numbering.py
@@ -25,6 +25,7 @@ class addtocounter(Command):
         self.ownerDocument.context.counters[a['name']].addtocounter(a['value'])
 
 class value(Command):
+    expandable = True
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
@@ -32,6 +33,7 @@ class value(Command):
 
 class arabic(Command):
     """ Return arabic representation """
+    expandable = True
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
@@ -39,6 +41,7 @@ class arabic(Command):
 
 class Roman(Command):
     """ Return uppercase roman representation """
+    expandable = True
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
@@ -52,6 +55,7 @@ class roman(Roman):
 
 class Alph(Command):
     """ Return the uppercase letter representation """
+    expandable = True
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
@@ -65,6 +69,7 @@ class alph(Alph):
 
 class fnsymbol(Command):
     """ Return the symbol representation """
+    expandable = True
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
diff --git a/plasTeX/Base/TeX/Numbers.py b/plasTeX/Base/TeX/Numbers.py
index 505b51d..47eb4a6 100644
--- a/plasTeX/Base/TeX/Numbers.py
+++ b/plasTeX/Base/TeX/Numbers.py
@@ -1,12 +1,14 @@
 from plasTeX import Command, numToRoman
 
 class number(Command):
+    expandable = True
     args = 'num:number'
     def invoke(self, tex):
         a = self.parse(tex)
         return tex.textTokens(str(a['num']))
 
 class romannumeral(Command):
+    expandable = True
     args = 'num:number'
     def invoke(self, tex):
         a = self.parse(tex)
diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 7f6c6bb..edb8bf6 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -207,6 +207,7 @@ class gdef(DefCommand):
     local = False
 
 class IfCommand(Command):
+    expandable = True
     pass
 
 class if_(IfCommand):
@@ -221,9 +222,11 @@ class if_(IfCommand):
         return []
 
 class else_(Command):
+    expandable = True
     macroName = 'else'
 
 class fi(Command):
+    expandable = True
     pass
 
 class ifnum(IfCommand):
@@ -449,6 +452,7 @@ class catcode(Command):
 
 class csname(Command):
     """ \\csname """
+    expandable = True
     def invoke(self, tex):
         name = []
         for t in tex:
@@ -462,6 +466,7 @@ class endcsname(Command):
 
 class input(Command):
     """ \\input """
+    expandable = True
     args = 'name:str'
 
     def invoke(self, tex):
@@ -530,6 +535,7 @@ class noligs_(Command):
     macroName = '@noligs'
 
 class expandafter(Command):
+    expandable = True
     def invoke(self, tex):
         nexttok = next(tex.itertokens())
         aftertok = next(tex.itertokens())
@@ -588,6 +594,7 @@ class hfil(Command):
     pass
 
 class the(Command):
+    expandable = True
     args = 'arg:cs'
     def invoke(self, tex):
         result = Command.invoke(self, tex)
diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 3a4ca8d..a929f6d 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -339,6 +339,36 @@ class TeX(object):
 
             yield token
 
+    def expandableTokens(self):
+        """
+        Iterate over tokens, expanding macros without executing commands
+
+        This is what continues a number or a dimension that has already
+        begun: macros have to be expanded to see whether it goes on, but a
+        command that follows it must not take effect before the value is used.
+        Parameters are returned as elements, all other commands as they are.
+
+        """
+        context = self.ownerDocument.context
+        for token in self.itertokens():
+            if token.nodeType != Macro.ELEMENT_NODE and \
+               token.macroName is not None:
+                macro = context.get(token.macroName)
+                if not isinstance(macro, type):
+                    pass
+                elif issubclass(macro, ParameterCommand):
+                    obj = self.ownerDocument.createElement(token.macroName)
+                    obj.contextDepth = token.contextDepth
+                    obj.parentNode = token.parentNode
+                    token = obj
+                elif macro.expandable:
+                    obj = self.ownerDocument.createElement(token.macroName)
+                    obj.contextDepth = token.contextDepth
+                    obj.parentNode = token.parentNode
+                    self.pushTokens(obj.invoke(self) or [])
+                    continue
+            yield token
+
     def createSubProcess(self):
         """
         Create a TeX instance using the same document context
@@ -1463,7 +1493,7 @@ class TeX(object):
                 break
             if t in string.digits:
                 num = t + self.readSequence(string.digits, False)
-                for t in self:
+                for t in self.expandableTokens():
                     if t.nodeType == Token.ELEMENT_NODE:
                         self.pushToken(t)
                         return sign * float(num)
@@ -1525,7 +1555,7 @@ class TeX(object):
         self.readOptionalSpaces()
         ParameterCommand.disable()
         # internal unit
-        for t in self:
+        for t in self.expandableTokens():
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand):
                 ParameterCommand.enable()
@@ -1598,11 +1628,12 @@ class TeX(object):
 
         """
         output = []
-        for t in self:
+        for t in self.expandableTokens():
             if t.nodeType == Macro.ELEMENT_NODE:
                 self.pushToken(t)
                 break
-            if t not in chars:
+            if t.catcode in [Token.CC_ESCAPE, Token.CC_ACTIVE] or \
+               t not in chars:
                 if optspace and t.catcode == Token.CC_SPACE:
                     pass
                 else:
@@ -1636,8 +1667,11 @@ class TeX(object):
             # integer constant
             elif t in string.digits:
                 num = number(sign * int(t + self.readSequence(string.digits,
-                                                              optspace=optspace)))
-                for t in self:
+                                                              optspace=False)))
+                # A space ends the number
+                if optspace and self.readOneOptionalSpace() is not None:
+                    break
+                for t in self.expandableTokens():
                     if t.nodeType == Macro.ELEMENT_NODE and \
                        isinstance(t, ParameterCommand):
                         num = number(num * number(t))
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 3438795..898808f 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -117,6 +117,7 @@ class Macro(Element):
 
     macroName = None # type: Optional[str] # TeX macro name (instead of class name)
     macroMode = MODE_NONE  # begin, end, or none
+    expandable = False     # may it be expanded to see what follows?
     mathMode = None # type: Optional[bool]
 
     # Node variables
@@ -1062,6 +1063,7 @@ class UnrecognizedMacro(Macro):
 
 class NewIf(Macro):
     """ Base class for all generated \\newifs """
+    expandable = True
 
     state = False
 
@@ -1095,6 +1097,7 @@ class IfFalse(Macro):
 
 class LetCharacter(Macro):
     """ Base class for names that are made equal to a character by \\let """
+    expandable = True
     token = None # type: Optional[Token]
     def invoke(self, tex):
         token = type(self).token
@@ -1158,6 +1161,7 @@ def ungroup(param):
 
 class NewCommand(Macro):
     """ Superclass for all \newcommand/\newenvironment type commands """
+    expandable = True
     nargs = 0
     opt = None
     definition = None
@@ -1194,6 +1198,7 @@ class NewCommand(Macro):
 
 class Definition(Macro):
     """ Superclass for all \\def-type commands """
+    expandable = True
     args = '' # type: str
     definition = None # type: Optional[str]
 
@@ -1682,6 +1687,7 @@ class Counter(object):
 
 class TheCounter(Command):
     """ Base class for \\thecounter commands """
+    expandable = True
     format = None
     trimLeft = False
 
-- 
2.43.0


From 2f34c2d51d464d86fb05d5052c4d5e858c8ec5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 42/76] fix: hexadecimal constants and character codes end
 where TeX ends them

---
 plasTeX/TeX.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index a929f6d..f4dd008 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1684,12 +1684,15 @@ class TeX(object):
                                                    default='0', optspace=optspace), 8))
             # hex constant
             elif t == '"':
-                num = number(sign * int('0x' + self.readSequence(string.hexdigits,
+                num = number(sign * int('0x' + self.readSequence('0123456789ABCDEF',
                                                default='0', optspace=optspace), 16))
             # character token
             elif t == '`':
                 for t in self.itertokens():
-                    num = number(sign * ord(t))
+                    # The name of an active character is `active::x'
+                    num = number(sign * ord(t[8:] if t.startswith('active::') else t))
+                    if optspace:
+                        self.readOneOptionalSpace()
                     break
             break
         ParameterCommand.enable()
-- 
2.43.0


From 0a7a4c4ab60ff531118b70bbd9c30da52c36e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 43/76] fix: an argument that cannot be read leaves parameters,
 warnings and category codes as they were

---
 plasTeX/TeX.py      | 434 ++++++++++++++++++++++----------------------
 plasTeX/__init__.py |   8 +-
 2 files changed, 221 insertions(+), 221 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index f4dd008..c06f151 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -691,141 +691,133 @@ class TeX(object):
 
         # Disable expansion of parameters
         ParameterCommand.disable()
+        try:
+            if charsubs is None:
+                charsubs = getattr(self.ownerDocument, 'charsubs', [])
 
-        if charsubs is None:
-            charsubs = getattr(self.ownerDocument, 'charsubs', [])
+            if type in ['Dimen','Length','Dimension']:
+                n = self.readDimen()
+                return n, n.source
 
-        if type in ['Dimen','Length','Dimension']:
-            n = self.readDimen()
-            ParameterCommand.enable()
-            return n, n.source
+            if type in ['MuDimen','MuLength']:
+                n = self.readMuDimen()
+                return n, n.source
 
-        if type in ['MuDimen','MuLength']:
-            n = self.readMuDimen()
-            ParameterCommand.enable()
-            return n, n.source
+            if type in ['Glue','Skip']:
+                n = self.readGlue()
+                return n, n.source
 
-        if type in ['Glue','Skip']:
-            n = self.readGlue()
-            ParameterCommand.enable()
-            return n, n.source
+            if type in ['MuGlue','MuSkip']:
+                n = self.readMuGlue()
+                return n, n.source
 
-        if type in ['MuGlue','MuSkip']:
-            n = self.readMuGlue()
-            ParameterCommand.enable()
-            return n, n.source
-
-        if type in ['Number','Int','Integer']:
-            n = self.readNumber()
-            ParameterCommand.enable()
-            return n, n.source
+            if type in ['Number','Int','Integer']:
+                n = self.readNumber()
+                return n, n.source
 
-        if type in ['Token','Tok']:
-            for tok in self.itertokens():
-                ParameterCommand.enable()
-                return tok, tok.source
+            if type in ['Token','Tok']:
+                for tok in self.itertokens():
+                    return tok, tok.source
 
-        if type in ['XTok','XToken']:
-            self.ownerDocument.context.warnOnUnrecognized = False
-            for t in self.itertokens():
-                if t.catcode == Token.CC_BGROUP:
-                    self.pushToken(t)
-                    toks, source = self.readToken(True)
-                    if len(toks) == 1:
-                        ParameterCommand.enable()
-                        return toks[0], toks[0].source
-                    ParameterCommand.enable()
-                    return toks, source
-                else:
-                    toks = self.expandTokens([t], parentNode=parentNode)
-                    if len(toks) == 1:
-                        ParameterCommand.enable()
-                        return toks[0], toks[0].source
-                    ParameterCommand.enable()
-                    return toks, self.source(toks)
-
-        # Definition argument string
-        if type in ['Args']:
-            args = []
-            for t in self.itertokens():
-                if t.catcode == Token.CC_BGROUP:
-                    self.pushToken(t)
-                    break
-                else:
-                    args.append(t)
-            else: pass
-            ParameterCommand.enable()
-            return args, self.source(args)
+            if type in ['XTok','XToken']:
+                warn = self.ownerDocument.context.warnOnUnrecognized
+                self.ownerDocument.context.warnOnUnrecognized = False
+                try:
+                    for t in self.itertokens():
+                        if t.catcode == Token.CC_BGROUP:
+                            self.pushToken(t)
+                            toks, source = self.readToken(True)
+                            if len(toks) == 1:
+                                return toks[0], toks[0].source
+                            return toks, source
+                        else:
+                            toks = self.expandTokens([t], parentNode=parentNode)
+                            if len(toks) == 1:
+                                return toks[0], toks[0].source
+                            return toks, self.source(toks)
+                finally:
+                    self.ownerDocument.context.warnOnUnrecognized = warn
+
+            # Definition argument string
+            if type in ['Args']:
+                args = []
+                for t in self.itertokens():
+                    if t.catcode == Token.CC_BGROUP:
+                        self.pushToken(t)
+                        break
+                    else:
+                        args.append(t)
+                else: pass
+                return args, self.source(args)
 
-        if type in ['any']:
-            toks = []
-            for t in self.itertokens():
-                if t is None or t == '':
-                    continue
-                if t.catcode == Token.CC_SPACE:
-                    break
-                toks.append(t)
-            return self.expandTokens(toks, parentNode=parentNode), self.source(toks)
+            if type in ['any']:
+                toks = []
+                for t in self.itertokens():
+                    if t is None or t == '':
+                        continue
+                    if t.catcode == Token.CC_SPACE:
+                        break
+                    toks.append(t)
+                return self.expandTokens(toks, parentNode=parentNode), self.source(toks)
 
-        if type in ['cs']:
-            expanded = False
+            if type in ['cs']:
+                expanded = False
 
-        priorcodes = {}
+            priorcodes = {}
 
-        try:
-            # Set catcodes for this argument type
             try:
-                if isinstance(self.argtypes[type], (list,tuple)):
-                    for key, value in list(self.argtypes[type][1].items()):
-                        priorcodes[key] = self.ownerDocument.context.whichCode(key)
-                        self.ownerDocument.context.catcode(key, value)
-            except KeyError:
-                pass
-
-            # Get a TeX token (i.e. {...})
-            if spec is None:
-                toks, source = self.readToken(expanded, parentNode=parentNode)
-
-            # Get a single character argument
-            elif len(spec) == 1:
-                toks, source = self.readCharacter(spec)
+                # Set catcodes for this argument type
+                try:
+                    if isinstance(self.argtypes[type], (list,tuple)):
+                        for key, value in list(self.argtypes[type][1].items()):
+                            priorcodes[key] = self.ownerDocument.context.whichCode(key)
+                            self.ownerDocument.context.catcode(key, value)
+                except KeyError:
+                    pass
 
-            # Get an argument grouped by the given characters (e.g. [...], (...))
-            elif len(spec) == 2:
-                toks, source = self.readGrouping(spec, expanded, parentNode=parentNode)
+                # Get a TeX token (i.e. {...})
+                if spec is None:
+                    toks, source = self.readToken(expanded, parentNode=parentNode)
 
-            # This isn't a correct value
-            else:
-                raise ValueError('Unrecognized specifier "%s"' % spec)
+                # Get a single character argument
+                elif len(spec) == 1:
+                    toks, source = self.readCharacter(spec)
 
-        except Exception as msg:
-            log.error('Error while reading argument "%s" of %s%s (%s)' % \
-                          (name, parentNode.nodeName, self.lineInfo, msg))
-            raise
+                # Get an argument grouped by the given characters (e.g. [...], (...))
+                elif len(spec) == 2:
+                    toks, source = self.readGrouping(spec, expanded, parentNode=parentNode)
 
-        # Set catcodes back to original values
-        for key, value in list(priorcodes.items()):
-            self.ownerDocument.context.catcode(key, value)
-
-        if toks is None:
+                # This isn't a correct value
+                else:
+                    raise ValueError('Unrecognized specifier "%s"' % spec)
+
+            except Exception as msg:
+                log.error('Error while reading argument "%s" of %s%s (%s)' % \
+                              (name, parentNode.nodeName, self.lineInfo, msg))
+                raise
+
+            finally:
+                # Set catcodes back to original values
+                for key, value in list(priorcodes.items()):
+                    self.ownerDocument.context.catcode(key, value)
+
+            if toks is None:
+                return default, ''
+            res = self.cast(toks, type, subtype, delim, parentNode, name)
+
+            # Normalize any document fragments
+            if expanded and \
+               getattr(res,'nodeType',None) == Macro.DOCUMENT_FRAGMENT_NODE:
+                res.normalize(charsubs)
+
+            if False and parentNode is not None:
+                log.warning('%s %s: %s', parentNode.nodeName, name, source)
+                log.warning('categories: %s', self.ownerDocument.context.categories)
+                log.warning('stack: %s', self.ownerDocument.context.top)
+
+            return res, source
+        finally:
             ParameterCommand.enable()
-            return default, ''
-        res = self.cast(toks, type, subtype, delim, parentNode, name)
-
-        # Normalize any document fragments
-        if expanded and \
-           getattr(res,'nodeType',None) == Macro.DOCUMENT_FRAGMENT_NODE:
-            res.normalize(charsubs)
-
-        # Re-enable Parameters
-        ParameterCommand.enable()
-
-        if False and parentNode is not None:
-            log.warning('%s %s: %s', parentNode.nodeName, name, source)
-            log.warning('categories: %s', self.ownerDocument.context.categories)
-            log.warning('stack: %s', self.ownerDocument.context.top)
-
-        return res, source
 
     def readToken(self, expanded=False, parentNode=None):
         """
@@ -1525,17 +1517,18 @@ class TeX(object):
 
         """
         ParameterCommand.disable()
-        sign = self.readOptionalSigns()
-        for t in self:
-            if t.nodeType == Macro.ELEMENT_NODE and \
-               isinstance(t, ParameterCommand):
-                ParameterCommand.enable()
-                return dimen(sign * dimen(t))
-            self.pushToken(t)
-            break
-        num = dimen(sign * self.readDecimal() * self.readUnitOfMeasure(units=units))
-        ParameterCommand.enable()
-        return num
+        try:
+            sign = self.readOptionalSigns()
+            for t in self:
+                if t.nodeType == Macro.ELEMENT_NODE and \
+                   isinstance(t, ParameterCommand):
+                    return dimen(sign * dimen(t))
+                self.pushToken(t)
+                break
+            num = dimen(sign * self.readDecimal() * self.readUnitOfMeasure(units=units))
+            return num
+        finally:
+            ParameterCommand.enable()
 
     def readMuDimen(self):
         """ Read a mudimen from the stream """
@@ -1554,22 +1547,23 @@ class TeX(object):
         """
         self.readOptionalSpaces()
         ParameterCommand.disable()
-        # internal unit
-        for t in self.expandableTokens():
-            if t.nodeType == Macro.ELEMENT_NODE and \
-               isinstance(t, ParameterCommand):
-                ParameterCommand.enable()
-                return dimen(t)
-            self.pushToken(t)
-            break
-        true = self.readKeyword(['true'])
-        unit = self.readKeyword(units)
-        if unit is None:
-            log.warning('Missing unit (expecting %s)%s, treating as `%s`',
-                        ', '.join(units), self.lineInfo, units[0])
-            unit = units[0]
-        ParameterCommand.enable()
-        return dimen('1%s' % unit)
+        try:
+            # internal unit
+            for t in self.expandableTokens():
+                if t.nodeType == Macro.ELEMENT_NODE and \
+                   isinstance(t, ParameterCommand):
+                    return dimen(t)
+                self.pushToken(t)
+                break
+            true = self.readKeyword(['true'])
+            unit = self.readKeyword(units)
+            if unit is None:
+                log.warning('Missing unit (expecting %s)%s, treating as `%s`',
+                            ', '.join(units), self.lineInfo, units[0])
+                unit = units[0]
+            return dimen('1%s' % unit)
+        finally:
+            ParameterCommand.enable()
 
     def readOptionalSigns(self):
         """
@@ -1653,73 +1647,76 @@ class TeX(object):
 
         """
         ParameterCommand.disable()
-        num = None
-        sign = self.readOptionalSigns()
-
-        for t in self:
-            # internal/coerced integers
-            if t.nodeType == Macro.ELEMENT_NODE:
-                if isinstance(t, ParameterCommand):
-                    num = number(sign * number(t))
-                else:
-                    self.pushToken(t)
-                    break
-            # integer constant
-            elif t in string.digits:
-                num = number(sign * int(t + self.readSequence(string.digits,
-                                                              optspace=False)))
-                # A space ends the number
-                if optspace and self.readOneOptionalSpace() is not None:
-                    break
-                for t in self.expandableTokens():
-                    if t.nodeType == Macro.ELEMENT_NODE and \
-                       isinstance(t, ParameterCommand):
-                        num = number(num * number(t))
+        try:
+            num = None
+            sign = self.readOptionalSigns()
+
+            for t in self:
+                # internal/coerced integers
+                if t.nodeType == Macro.ELEMENT_NODE:
+                    if isinstance(t, ParameterCommand):
+                        num = number(sign * number(t))
                     else:
                         self.pushToken(t)
-                    break
-            # octal constant
-            elif t == "'":
-                num = number(sign * int('0' + self.readSequence(string.octdigits,
-                                                   default='0', optspace=optspace), 8))
-            # hex constant
-            elif t == '"':
-                num = number(sign * int('0x' + self.readSequence('0123456789ABCDEF',
-                                               default='0', optspace=optspace), 16))
-            # character token
-            elif t == '`':
-                for t in self.itertokens():
-                    # The name of an active character is `active::x'
-                    num = number(sign * ord(t[8:] if t.startswith('active::') else t))
-                    if optspace:
-                        self.readOneOptionalSpace()
-                    break
-            break
-        ParameterCommand.enable()
-        if num is not None:
-            return num
-        log.warning('Missing number%s, treating as `0`. (%s)', self.lineInfo, t)
-        return number(0)
+                        break
+                # integer constant
+                elif t in string.digits:
+                    num = number(sign * int(t + self.readSequence(string.digits,
+                                                                  optspace=False)))
+                    # A space ends the number
+                    if optspace and self.readOneOptionalSpace() is not None:
+                        break
+                    for t in self.expandableTokens():
+                        if t.nodeType == Macro.ELEMENT_NODE and \
+                           isinstance(t, ParameterCommand):
+                            num = number(num * number(t))
+                        else:
+                            self.pushToken(t)
+                        break
+                # octal constant
+                elif t == "'":
+                    num = number(sign * int('0' + self.readSequence(string.octdigits,
+                                                       default='0', optspace=optspace), 8))
+                # hex constant
+                elif t == '"':
+                    num = number(sign * int('0x' + self.readSequence('0123456789ABCDEF',
+                                                   default='0', optspace=optspace), 16))
+                # character token
+                elif t == '`':
+                    for t in self.itertokens():
+                        # The name of an active character is `active::x'
+                        num = number(sign * ord(t[8:] if t.startswith('active::') else t))
+                        if optspace:
+                            self.readOneOptionalSpace()
+                        break
+                break
+            if num is not None:
+                return num
+            log.warning('Missing number%s, treating as `0`. (%s)', self.lineInfo, t)
+            return number(0)
+        finally:
+            ParameterCommand.enable()
 
     readNumber = readInteger
 
     def readGlue(self):
         """ Read a glue parameter from the stream """
         ParameterCommand.disable()
-        sign = self.readOptionalSigns()
-        # internal/coerced glue
-        for t in self:
-            if t.nodeType == Macro.ELEMENT_NODE and \
-               isinstance(t, ParameterCommand):
-                ParameterCommand.enable()
-                return glue(sign * glue(t))
-            self.pushToken(t)
-            break
-        dim = self.readDimen()
-        stretch = self.readStretch()
-        shrink = self.readShrink()
-        ParameterCommand.enable()
-        return glue(sign*dim, stretch, shrink)
+        try:
+            sign = self.readOptionalSigns()
+            # internal/coerced glue
+            for t in self:
+                if t.nodeType == Macro.ELEMENT_NODE and \
+                   isinstance(t, ParameterCommand):
+                    return glue(sign * glue(t))
+                self.pushToken(t)
+                break
+            dim = self.readDimen()
+            stretch = self.readStretch()
+            shrink = self.readShrink()
+            return glue(sign*dim, stretch, shrink)
+        finally:
+            ParameterCommand.enable()
 
     def readStretch(self):
         """ Read a stretch parameter from the stream """
@@ -1736,20 +1733,21 @@ class TeX(object):
     def readMuGlue(self):
         """ Read a muglue parameter from the stream """
         ParameterCommand.disable()
-        sign = self.readOptionalSigns()
-        # internal/coerced muglue
-        for t in self:
-            if t.nodeType == Macro.ELEMENT_NODE and \
-               isinstance(t, ParameterCommand):
-                ParameterCommand.enable()
-                return muglue(sign * muglue(t))
-            self.pushToken(t)
-            break
-        dim = self.readMuDimen()
-        stretch = self.readMuStretch()
-        shrink = self.readMuShrink()
-        ParameterCommand.enable()
-        return muglue(sign*dim, stretch, shrink)
+        try:
+            sign = self.readOptionalSigns()
+            # internal/coerced muglue
+            for t in self:
+                if t.nodeType == Macro.ELEMENT_NODE and \
+                   isinstance(t, ParameterCommand):
+                    return muglue(sign * muglue(t))
+                self.pushToken(t)
+                break
+            dim = self.readMuDimen()
+            stretch = self.readMuStretch()
+            shrink = self.readMuShrink()
+            return muglue(sign*dim, stretch, shrink)
+        finally:
+            ParameterCommand.enable()
 
     def readMuStretch(self):
         """ Read a mustretch parameter from the stream """
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 898808f..3f8c448 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1490,9 +1490,11 @@ class ParameterCommand(Command):
         if ParameterCommand.enabled:
             # Disable invoke() in parameters nested in our arguments.
             # We don't want them to invoke, we want them to set our value.
-            ParameterCommand.enabled = False
-            type(self).value = self.parse(tex)['value']
-            ParameterCommand.enabled = True
+            ParameterCommand.disable()
+            try:
+                type(self).value = self.parse(tex)['value']
+            finally:
+                ParameterCommand.enable()
 
     @classmethod
     def enable(cls):
-- 
2.43.0


From 7d5bae37a5983d94560bc0edf94aa29a26657456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 44/76] fix: control sequences are not taken for the
 characters, keywords and delimiters of arguments

---
 plasTeX/TeX.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index c06f151..5a5e6fb 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -889,7 +889,7 @@ class TeX(object):
 
         """
         for t in self.itertokens():
-            if t == char:
+            if t.catcode != Token.CC_ESCAPE and t == char:
                 return t, self.source([t])
             else:
                 self.pushToken(t)
@@ -1256,7 +1256,7 @@ class TeX(object):
             current = tokens.pop(0)
 
             # Item delimiter
-            if current == delim:
+            if current.catcode != Token.CC_ESCAPE and current == delim:
                 listarg.append([])
 
             # Found grouping
@@ -1309,14 +1309,17 @@ class TeX(object):
         while tokens:
             current = tokens.pop(0)
 
-            if current.nodeType == Macro.ELEMENT_NODE:
-                currentvalue.append(current)
+            # Elements and control sequences don't delimit anything
+            if current.nodeType == Macro.ELEMENT_NODE or \
+               current.catcode == Token.CC_ESCAPE:
+                (currentkey if currentvalue is None else currentvalue).append(current)
                 continue
 
             # Found grouping
             elif current.catcode == Token.CC_BGROUP:
                 level = 1
-                currentvalue.append(current)
+                group = currentkey if currentvalue is None else currentvalue
+                group.append(current)
                 while tokens:
                     current = tokens.pop(0)
                     if current.catcode == Token.CC_BGROUP:
@@ -1325,8 +1328,8 @@ class TeX(object):
                         level -= 1
                         if not level:
                             break
-                    currentvalue.append(current)
-                currentvalue.append(current)
+                    group.append(current)
+                group.append(current)
                 continue
 
             # Found end-of-key delimiter
@@ -1462,10 +1465,10 @@ class TeX(object):
             matched = []
             letters = list(word.upper())
             for t in self.itertokens():
-                if t.nodeType == Token.ELEMENT_NODE:
-                    break
                 matched.append(t)
-                if t.upper() == letters[0]:
+                if t.nodeType != Token.ELEMENT_NODE and \
+                   t.catcode != Token.CC_ESCAPE and \
+                   t.upper() == letters[0]:
                     letters.pop(0)
                     if not letters:
                         if optspace:
-- 
2.43.0


From 006ebd5b6f0b792bb914e286f501c5305c6044c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 45/76] fix: the factor of fil, fill and filll does not change
 the order

---
 plasTeX/TeX.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 5a5e6fb..578eeb2 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1528,8 +1528,13 @@ class TeX(object):
                     return dimen(sign * dimen(t))
                 self.pushToken(t)
                 break
-            num = dimen(sign * self.readDecimal() * self.readUnitOfMeasure(units=units))
-            return num
+            num = sign * self.readDecimal()
+            unit = self.readUnitOfMeasure(units=units)
+            # The order of infinity is an offset, not a factor
+            for order in ['fil','fill','filll']:
+                if order in units and unit == dimen('1' + order):
+                    return dimen('%r%s' % (num, order))
+            return dimen(num * unit)
         finally:
             ParameterCommand.enable()
 
-- 
2.43.0


From 9ea1055aec6b2d326ae70c5b7510200a5cf2e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 46/76] fix: glue registers keep their stretch and shrink, a
 dimension register can be stretched

---
 plasTeX/TeX.py      | 10 ++++++----
 plasTeX/__init__.py | 16 +++++++++++-----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 578eeb2..aaa5746 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1715,8 +1715,9 @@ class TeX(object):
             # internal/coerced glue
             for t in self:
                 if t.nodeType == Macro.ELEMENT_NODE and \
-                   isinstance(t, ParameterCommand):
-                    return glue(sign * glue(t))
+                   isinstance(t, ParameterCommand) and \
+                   isinstance(type(t).value, glue):
+                    return glue(t, sign=sign)
                 self.pushToken(t)
                 break
             dim = self.readDimen()
@@ -1746,8 +1747,9 @@ class TeX(object):
             # internal/coerced muglue
             for t in self:
                 if t.nodeType == Macro.ELEMENT_NODE and \
-                   isinstance(t, ParameterCommand):
-                    return muglue(sign * muglue(t))
+                   isinstance(t, ParameterCommand) and \
+                   isinstance(type(t).value, glue):
+                    return muglue(t, sign=sign)
                 self.pushToken(t)
                 break
             dim = self.readMuDimen()
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 3f8c448..cd3f5b9 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1452,16 +1452,22 @@ class mudimen(dimen):
 
 class glue(dimen):
     """ Class used for glue values """
-    def __new__(cls, g, plus=None, minus=None):
-        return dimen.__new__(cls, g)
+    def __new__(cls, g, plus=None, minus=None, sign=1):
+        return dimen.__new__(cls, sign * dimen(g))
 
-    def __init__(self, g, plus=None, minus=None):
+    def __init__(self, g, plus=None, minus=None, sign=1):
         # super(glue, self).__init__(g)
+        if isinstance(g, Macro):
+            g = type(g).value
         self.stretch = self.shrink = None
+        if plus is None:
+            plus = getattr(g, 'stretch', None)
         if plus is not None:
-            self.stretch = dimen(plus)
+            self.stretch = dimen(sign * dimen(plus))
+        if minus is None:
+            minus = getattr(g, 'shrink', None)
         if minus is not None:
-            self.shrink = dimen(minus)
+            self.shrink = dimen(sign * dimen(minus))
 
     @property
     def source(self):
-- 
2.43.0


From c68ec762e5360260f5cbe33bf555bc7054909871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 47/76] fix: an integer register is the factor of a dimension

---
 plasTeX/TeX.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index aaa5746..e3e3ec5 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1522,13 +1522,19 @@ class TeX(object):
         ParameterCommand.disable()
         try:
             sign = self.readOptionalSigns()
+            num = None
             for t in self:
                 if t.nodeType == Macro.ELEMENT_NODE and \
                    isinstance(t, ParameterCommand):
-                    return dimen(sign * dimen(t))
-                self.pushToken(t)
+                    if isinstance(type(t).value, dimen):
+                        return dimen(sign * dimen(t))
+                    # An internal integer is a factor
+                    num = sign * number(t)
+                else:
+                    self.pushToken(t)
                 break
-            num = sign * self.readDecimal()
+            if num is None:
+                num = sign * self.readDecimal()
             unit = self.readUnitOfMeasure(units=units)
             # The order of infinity is an offset, not a factor
             for order in ['fil','fill','filll']:
-- 
2.43.0


From 072d3e0e0593b31beb1500626ef6b181efc5047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 48/76] fix: an optional argument in braces ends at its closing
 brace

---
 plasTeX/TeX.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index e3e3ec5..974ac35 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -922,24 +922,22 @@ class TeX(object):
                 for t in tokens:
                     source.append(t)
                     # Delimiters inside braces don't count
-                    if t.catcode == Token.CC_BGROUP:
-                        toks.append(t)
-                        braces += 1
-                    elif t.catcode == Token.CC_EGROUP:
-                        toks.append(t)
-                        braces -= 1
-                    elif braces > 0:
-                        toks.append(t)
-                    elif t.catcode != Token.CC_ESCAPE and \
+                    if not braces and t.catcode != Token.CC_ESCAPE and \
                        (t == begin or str(t) == str(begin)):
                         toks.append(t)
                         level += 1
-                    elif t.catcode != Token.CC_ESCAPE and \
+                    elif not braces and t.catcode != Token.CC_ESCAPE and \
                          (t == end or str(t) == str(end)):
                         level -= 1
                         if level == 0:
                             break
                         toks.append(t)
+                    elif t.catcode == Token.CC_BGROUP:
+                        toks.append(t)
+                        braces += 1
+                    elif t.catcode == Token.CC_EGROUP:
+                        toks.append(t)
+                        braces -= 1
                     else:
                         toks.append(t)
             else:
-- 
2.43.0


From 32cda3017f8014b45dc851b50bbf7cb287dfd4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 49/76] fix: an integer register without a unit is in scaled
 points

---
 plasTeX/TeX.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 974ac35..4580d85 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1520,7 +1520,7 @@ class TeX(object):
         ParameterCommand.disable()
         try:
             sign = self.readOptionalSigns()
-            num = None
+            num = default = None
             for t in self:
                 if t.nodeType == Macro.ELEMENT_NODE and \
                    isinstance(t, ParameterCommand):
@@ -1528,12 +1528,13 @@ class TeX(object):
                         return dimen(sign * dimen(t))
                     # An internal integer is a factor
                     num = sign * number(t)
+                    default = 'sp' if 'sp' in units else units[0]
                 else:
                     self.pushToken(t)
                 break
             if num is None:
                 num = sign * self.readDecimal()
-            unit = self.readUnitOfMeasure(units=units)
+            unit = self.readUnitOfMeasure(units=units, default=default)
             # The order of infinity is an offset, not a factor
             for order in ['fil','fill','filll']:
                 if order in units and unit == dimen('1' + order):
@@ -1546,13 +1547,16 @@ class TeX(object):
         """ Read a mudimen from the stream """
         return mudimen(self.readDimen(units=mudimen.units))
 
-    def readUnitOfMeasure(self, units):
+    def readUnitOfMeasure(self, units, default=None):
         """
         Read a unit of measure from the stream
 
         Required Arguments:
         units -- list of acceptable units of measure
 
+        Keyword Arguments:
+        default -- unit to use if there is none
+
         Returns:
         `dimen' instance
 
@@ -1569,7 +1573,9 @@ class TeX(object):
                 break
             true = self.readKeyword(['true'])
             unit = self.readKeyword(units)
-            if unit is None:
+            if unit is None and default is not None:
+                unit = default
+            elif unit is None:
                 log.warning('Missing unit (expecting %s)%s, treating as `%s`',
                             ', '.join(units), self.lineInfo, units[0])
                 unit = units[0]
-- 
2.43.0


From daa3eaf0adde1bb2f0fe23931783380b3ff3c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 50/76] fix: a string argument with groups in it is the text of
 the argument

---
 plasTeX/TeX.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 4580d85..b5ec76a 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1063,7 +1063,11 @@ class TeX(object):
         self.cast()
 
         """
-        return type(self.normalize(tokens))
+        value = self.normalize(tokens)
+        # There were groups or other elements in the argument
+        if not isinstance(value, str) and hasattr(value, 'textContent'):
+            value = value.textContent
+        return type(value)
 
     def castLabel(self, tokens, **kwargs):
         """
-- 
2.43.0


From 432f4414b0f147c36a802026c9defb0005271bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 51/76] fix: numeric arguments are read from what is written,
 not from its expansion

---
 plasTeX/TeX.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index b5ec76a..0e5bafa 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -760,7 +760,9 @@ class TeX(object):
                     toks.append(t)
                 return self.expandTokens(toks, parentNode=parentNode), self.source(toks)
 
-            if type in ['cs']:
+            # Numbers are expanded while they are read
+            if type in ['cs','dimen','dimension','length',
+                        'number','count','int',int,'float',float,'double']:
                 expanded = False
 
             priorcodes = {}
-- 
2.43.0


From c493d7f5f09618ff18419d0284e0cdf14275c38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 52/76] fix: booleans in configuration files may be false (no,
 false, off)

---
 plasTeX/ConfigManager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index 83f917b..a3adde0 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -55,6 +55,12 @@ class BooleanOption(ConfigOption[bool]):
         if disables:
             group.add_argument(*disables, dest=self.name, help=self.description + formatDefault(self.value), action='store_false', default=None)
 
+    def setFromString(self, string: str):
+        try:
+            self.value = ConfigParser.BOOLEAN_STATES[string.strip().lower()]
+        except KeyError:
+            raise ValueError("Not a boolean: %s" % string)
+
 class MultiStringOption(ConfigOption[List[str]]):
     def registerArgparse(self, group: ArgumentGroup):
         group.add_argument(*self.options, dest=self.name, type=str, nargs="*", help=self.description, action="append")
-- 
2.43.0


From 65d67eea31a52ec3833c9fba4d46b9cc5291d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 53/76] fix: names in dictionary options of configuration files
 keep their case

---
 plasTeX/ConfigManager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index a3adde0..fb5ce5a 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -280,6 +280,8 @@ class ConfigManager(Dict[str, ConfigSection]):
 
         for filename in filenames:
             data = ConfigParser(interpolation=None)
+            # Keep the case of the keys of dictionary options
+            data.optionxform = str # type: ignore
             data.read(filename)
 
             for section in data.sections():
@@ -292,6 +294,8 @@ class ConfigManager(Dict[str, ConfigSection]):
                 for key, val in data.items(section):
                     if key in self[section].data:
                         self[section].data[key].setFromString(val)
+                    elif key.lower() in self[section].data:
+                        self[section].data[key.lower()].setFromString(val)
                     else:
                         if dictObject is not None:
                             dictObject.set(key, val)
-- 
2.43.0


From 83ac458c8cb1397dfa5513372b05b54fb998b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 54/76] fix: the documented defaults of the configuration
 options are the defaults

---
 Doc/command.tex | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/Doc/command.tex b/Doc/command.tex
index f179284..e73e309 100644
--- a/Doc/command.tex
+++ b/Doc/command.tex
@@ -128,7 +128,7 @@ a \class{Renderer} class.
 \end{configuration}
 
 \begin{configuration}{Packages directories}
-\options{\longprogramopt{packages-dir=\optval{directories}}}
+\options{\longprogramopt{packages-dirs=\optval{directories}}}
 \config{general}{packages-dirs}
 \default{[]}
 specifies a list of directories where python implementations
@@ -144,7 +144,7 @@ specifies which theme to use.
 
 \begin{configuration}{Extra theme files}
 \options{\longprogramopt{copy-theme-extras} or
-         \longprogramopt{ignore-theme-extras}}
+         \longprogramopt{no-theme-extras}}
 \config{general}{copy-theme-extras}
 \default{yes}
 indicates whether or not extra files that belong to a theme (if there are
@@ -196,7 +196,7 @@ specifies a list of files that contain language terms
 \begin{configuration}{Section number depth}
 \options{\longprogramopt{sec-num-depth=\optval{integer}}}
 \config{document}{sec-num-depth}
-\default{6}
+\default{2}
 specifies the section level depth that should appear in section numbers.
 This value overrides the value of the secnumdepth counter in the document.
 \end{configuration}
@@ -544,7 +544,6 @@ specifies a base URL to prepend to the path of all images.
 \begin{configuration}{\LaTeX\ program to use to compile image document}
 \options{\longprogramopt{image-compiler=\optval{program}}}
 \config{images}{compiler}
-\default{latex}
 specifies which program to use to compile the images \LaTeX\ document. If
 unspecified, the default is specified by the imager. Note that not all imagers
 are compatible with all compilers. Specifically, some imagers need compilers
@@ -554,7 +553,6 @@ that produces pdf's and others need dvi's.
 \begin{configuration}{\LaTeX\ program to use to compile vector image document}
 \options{\longprogramopt{vector-image-compiler=\optval{program}}}
 \config{images}{vector-compiler}
-\default{latex}
 specifies which program to use to compile the vector images \LaTeX\ document. If
 unspecified, this uses the value of \longprogramopt{image-compiler}.
 \end{configuration}
@@ -571,7 +569,7 @@ indicates whether or not images should be generated.
 \options{\longprogramopt{enable-image-cache} or
          \longprogramopt{disable-image-cache}}
 \config{images}{cache}
-\default{yes}
+\default{no}
 indicates whether or not images should use a cache between runs.
 \end{configuration}
 
@@ -591,7 +589,7 @@ You can use the value of ``none'' to turn the imager off.
 \begin{configuration}{Image filenames}
 \options{\longprogramopt{image-filenames=\optval{filename-template}}}
 \config{images}{filenames}
-\default{images/img-\$num(4).png}
+\default{images/img-\$num(4)}
 specifies the image naming template to use to generate filenames.  This
 template is the same as the templates used by the \longprogramopt{filename}
 option.
@@ -734,7 +732,7 @@ some filter is expected to handle mathematics (see
 \begin{configuration}{MathJax library url}
 \options{\longprogramopt{mathjax-url=\optval{url}}}
 \config{html5}{mathjax-url}
-\default{http://cdn.mathjax.org/mathjax/latest/MathJax.js?config=TeX-AMS_CHTML}
+\default{https://cdn.jsdelivr.net/npm/mathjax@3/es5/tex-chtml.js}
 specifies where to find the MathJax javascript lib (including the config
 information as in the default value).
 \end{configuration}
-- 
2.43.0


From 1c3a6e770c1090c8be493917d5ccdf734e90a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 55/76] fix: HTML5 templates escape the text they put into
 attributes

---
 plasTeX/Renderers/HTML5/FontSelection.jinja2s      |  2 +-
 plasTeX/Renderers/HTML5/Index.jinja2s              |  2 +-
 plasTeX/Renderers/HTML5/Pictures.jinja2s           |  2 +-
 plasTeX/Renderers/HTML5/Tabbing.jinja2s            |  2 +-
 .../HTML5/Themes/default/default-layout.jinja2     | 14 +++++++-------
 .../HTML5/Themes/default/document-layout.jinja2    | 14 +++++++-------
 plasTeX/Renderers/HTML5/graphicx.jinja2s           |  4 ++--
 plasTeX/Renderers/HTML5/hyperref.jinja2s           |  4 ++--
 plasTeX/Renderers/HTML5/url.jinja2s                |  2 +-
 9 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/FontSelection.jinja2s b/plasTeX/Renderers/HTML5/FontSelection.jinja2s
index 3b72b22..f9c2a8a 100644
--- a/plasTeX/Renderers/HTML5/FontSelection.jinja2s
+++ b/plasTeX/Renderers/HTML5/FontSelection.jinja2s
@@ -84,5 +84,5 @@ name: Huge
 name: symbol
 {% if obj.renderer.vectorImager.enabled %}
 <object type="image/svg+xml" data="{{ obj.vectorImage.url }}" style="width: {{ obj.vectorImage.width.em }}; height: {{ obj.vectorImage.height.em }} vertical-align: {{ obj.vectorImage.depth.em }}">
-  <img src="obj.image.url" alt="{{ obj.source }}" style="vertical-align: {{ obj.image.depth.px }}; width:{{obj.image.width.px}}; height:{{obj.image.height.px}}" class="symbol gen" />
+  <img src="obj.image.url" alt="{{ obj.source | e }}" style="vertical-align: {{ obj.image.depth.px }}; width:{{obj.image.width.px}}; height:{{obj.image.height.px}}" class="symbol gen" />
 </object>
diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index 99253a7..9a8523a 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -19,7 +19,7 @@ name: theindex printindex
   <li>
     <span class="index-item">{{ item.key }}</span>,
     {% for page in item.pages %}
-    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
+    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags | e }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
     {% endfor %}
     {% if item %}
       <ul class="index-subitem-{{ loop.depth }}">
diff --git a/plasTeX/Renderers/HTML5/Pictures.jinja2s b/plasTeX/Renderers/HTML5/Pictures.jinja2s
index 2296bf9..82bf863 100644
--- a/plasTeX/Renderers/HTML5/Pictures.jinja2s
+++ b/plasTeX/Renderers/HTML5/Pictures.jinja2s
@@ -3,7 +3,7 @@ name: picture
 {% if obj.renderer.vectorImager.enabled %}
 <object type="image/svg+xml" data="{{ obj.vectorImage.url }}" style="width: {{ obj.vectorImage.width.em }}; height: {{ obj.vectorImage.height.em }};">
 {% endif %}
-<img src="{{ obj.image.url }}" alt="{{ obj.source }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="picture gen" />
+<img src="{{ obj.image.url }}" alt="{{ obj.source | e }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="picture gen" />
 {% if obj.renderer.vectorImager.enabled %}
 </object>
 {% endif %}
diff --git a/plasTeX/Renderers/HTML5/Tabbing.jinja2s b/plasTeX/Renderers/HTML5/Tabbing.jinja2s
index 4e413bc..65fdf53 100644
--- a/plasTeX/Renderers/HTML5/Tabbing.jinja2s
+++ b/plasTeX/Renderers/HTML5/Tabbing.jinja2s
@@ -3,7 +3,7 @@ name: tabbing
 {% if obj.renderer.vectorImager.enabled %}
 <object type="image/svg+xml" data="{{ obj.vectorImage.url }}" style="width: {{ obj.vectorImage.width.em }}; height: {{ obj.vectorImage.height.em }};">
 {% endif %}
-<img src="{{ obj.image.url }}" alt="{{ obj.source }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="tabbing gen" />
+<img src="{{ obj.image.url }}" alt="{{ obj.source | e }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="tabbing gen" />
 {% if obj.renderer.vectorImager.enabled %}
 </object>
 {% endif %}
diff --git a/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2 b/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
index c31176a..f13b95c 100755
--- a/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
+++ b/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
@@ -3,7 +3,7 @@
 {% set toc = doc.tableofcontents if config.html5['display-toc'] else None %}
 {% set rendererdata = obj.ownerDocument.rendererdata['html5'] %}
 {% macro tocEntry(section) %}
-<span class="toc_ref">{{ section.ref.textContent }}</span> <span class="toc_entry">{{ section.tocEntry }}</span>{% endmacro %}
+<span class="toc_ref">{{ section.ref.textContent | e }}</span> <span class="toc_entry">{{ section.tocEntry }}</span>{% endmacro %}
 {% macro isActive(section) %}
 {% if section in links.breadcrumbs %} active{% endif %}
 {% endmacro %}
@@ -47,13 +47,13 @@
 {% endif %}
 {% endif %}
 {% if links.next.url %}
-<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent }}" />
+<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent | e }}" />
 {% endif %}
 {% if links.prev.url %}
-<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent }}" />
+<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent | e }}" />
 {% endif %}
 {% if links.up.url %}
-<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent }}" />
+<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent | e }}" />
 {% endif %}
 {% for css in rendererdata.get('css', []) %}
 <link rel="stylesheet" href="styles/{{ css }}" />
@@ -144,13 +144,13 @@
   {{ icon(nav['icon'], id=nav['id'], class=nav['class']) }}
 {% endfor %}
   {% if links.prev.url %}
-  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags }}">{{ icon('arrow-left')}}</a>
+  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags | e }}">{{ icon('arrow-left')}}</a>
   {% endif %}
   {% if links.up.url %}
-  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags }}">{{ icon('arrow-up')}}</a>
+  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags | e }}">{{ icon('arrow-up')}}</a>
   {% endif %}
   {% if links.next.url %}
-  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags }}">{{ icon('arrow-right')}}</a>
+  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags | e }}">{{ icon('arrow-right')}}</a>
   {% endif %}
   {% if links.index.url %}
   <a href="{{ links.index.url }}" class="index">Index</a>
diff --git a/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2 b/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
index a7aa818..3f09bbd 100755
--- a/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
+++ b/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
@@ -3,7 +3,7 @@
 {% set toc = doc.tableofcontents if config.html5['display-toc'] else None %}
 {% set rendererdata = obj.ownerDocument.rendererdata['html5'] %}
 {% macro tocEntry(section) %}
-<span class="toc_ref">{{ section.ref.textContent }}</span> <span class="toc_entry">{{ section.tocEntry }}</span>{% endmacro %}
+<span class="toc_ref">{{ section.ref.textContent | e }}</span> <span class="toc_entry">{{ section.tocEntry }}</span>{% endmacro %}
 {% macro isActive(section) %}
 {% if section in links.breadcrumbs %} active{% endif %}
 {% endmacro %}
@@ -47,13 +47,13 @@
 {% endif %}
 {% endif %}
 {% if links.next.url %}
-<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent }}" />
+<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent | e }}" />
 {% endif %}
 {% if links.prev.url %}
-<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent }}" />
+<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent | e }}" />
 {% endif %}
 {% if links.up.url %}
-<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent }}" />
+<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent | e }}" />
 {% endif %}
 {% for css in rendererdata.get('css', []) %}
 <link rel="stylesheet" href="styles/{{ css }}" />
@@ -143,13 +143,13 @@
   {{ icon(nav['icon'], id=nav['id'], class=nav['class']) }}
 {% endfor %}
   {% if links.prev.url %}
-  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags }}">{{ icon('arrow-left')}}</a>
+  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags | e }}">{{ icon('arrow-left')}}</a>
   {% endif %}
   {% if links.up.url %}
-  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags }}">{{ icon('arrow-up')}}</a>
+  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags | e }}">{{ icon('arrow-up')}}</a>
   {% endif %}
   {% if links.next.url %}
-  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags }}">{{ icon('arrow-right')}}</a>
+  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags | e }}">{{ icon('arrow-right')}}</a>
   {% endif %}
   {% if links.index.url %}
   <a href="{{ links.index.url }}" class="index">Index</a>
diff --git a/plasTeX/Renderers/HTML5/graphicx.jinja2s b/plasTeX/Renderers/HTML5/graphicx.jinja2s
index e39a01f..5b63e6d 100755
--- a/plasTeX/Renderers/HTML5/graphicx.jinja2s
+++ b/plasTeX/Renderers/HTML5/graphicx.jinja2s
@@ -5,9 +5,9 @@ name: includegraphics rotatebox scalebox reflectbox resizebox
 {% set image = obj.image %}
 {% endif %}
 {% if obj.style %}
-<img src="{{ image.url}}" alt="{{ obj.source }}" style="{{ obj.style.inline}}" />
+<img src="{{ image.url}}" alt="{{ obj.source | e }}" style="{{ obj.style.inline}}" />
 {% else %}
-<img src="{{ image.url}}" alt="{{ obj.source }}" style="width: {{ image.width.px }}; height: {{ image.height.px }}" />
+<img src="{{ image.url}}" alt="{{ obj.source | e }}" style="width: {{ image.width.px }}; height: {{ image.height.px }}" />
 {% endif %}
 
 name: DeclareGraphicsExtensions graphicspath
diff --git a/plasTeX/Renderers/HTML5/hyperref.jinja2s b/plasTeX/Renderers/HTML5/hyperref.jinja2s
index 437e7a9..c086c30 100644
--- a/plasTeX/Renderers/HTML5/hyperref.jinja2s
+++ b/plasTeX/Renderers/HTML5/hyperref.jinja2s
@@ -1,8 +1,8 @@
 name: href
-<a href ="{{ obj.attributes.url}}">{{ obj }}</a>
+<a href="{{ obj.attributes.url | string | replace('"', '&quot;') }}">{{ obj }}</a>
 
 name: url
-<a href="{{ obj.attributes.url or obj }}">{{ obj.attributes.url or obj }}</a>
+<a href="{{ (obj.attributes.url or obj) | string | replace('"', '&quot;') }}">{{ obj.attributes.url or obj }}</a>
 
 name: nolinkurl
 {{ obj.attributes.url }}
diff --git a/plasTeX/Renderers/HTML5/url.jinja2s b/plasTeX/Renderers/HTML5/url.jinja2s
index e345a49..a866c94 100644
--- a/plasTeX/Renderers/HTML5/url.jinja2s
+++ b/plasTeX/Renderers/HTML5/url.jinja2s
@@ -1,4 +1,4 @@
 name: -url email path
-<a href="{{ obj }}">{{ obj }}</a>
+<a href="{{ obj | string | replace('"', '&quot;') }}">{{ obj }}</a>
 
 name: urldef urlstyle DeclareUrlCommand
-- 
2.43.0


From 1d80c692dd19766a33077d7af0365cf0bd6d35a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 56/76] fix: text is written in any output encoding, and is not
 taken for an image placeholder

---
 plasTeX/Renderers/PageTemplate/__init__.py | 9 +++++++--
 plasTeX/Renderers/__init__.py              | 6 +++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Renderers/PageTemplate/__init__.py b/plasTeX/Renderers/PageTemplate/__init__.py
index 527118f..fa8e1fe 100644
--- a/plasTeX/Renderers/PageTemplate/__init__.py
+++ b/plasTeX/Renderers/PageTemplate/__init__.py
@@ -280,6 +280,8 @@ class PageTemplate(BaseRenderer):
 
     outputType = str
     fileExtension = '.xml'
+    # Characters that the output encoding lacks become numeric references
+    encodingErrors = 'xmlcharrefreplace'
 
     def __init__(self, *args, **kwargs):
         BaseRenderer.__init__(self, *args, **kwargs)
@@ -604,7 +606,7 @@ class PageTemplate(BaseRenderer):
 
     def processFileContent(self, document, s):
         # Add width, height, and depth to images
-        s = re.sub(r'&amp;(\S+)-(width|height|depth);(?:&amp;([a-z]+);)?',
+        s = re.sub(r'&amp;([^\s&;]+)-(width|height|depth);(?:&amp;([a-z]+);)?',
                    self.setImageData, s)
 
         # Convert characters >127 to entities
@@ -639,7 +641,10 @@ class PageTemplate(BaseRenderer):
 
         try:
             img = self.imager.images.get(filename, self.vectorImager.images.get(filename, self.imager.staticimages.get(filename)))
-            if img is not None and getattr(img, parameter) is not None:
+            if img is None:
+                # Not a placeholder, just text that looks like one
+                return m.group(0)
+            if getattr(img, parameter) is not None:
                 if units:
                     return getattr(getattr(img, parameter), units)
                 return str(getattr(img, parameter))
diff --git a/plasTeX/Renderers/__init__.py b/plasTeX/Renderers/__init__.py
index 002e955..31cc7bb 100644
--- a/plasTeX/Renderers/__init__.py
+++ b/plasTeX/Renderers/__init__.py
@@ -199,7 +199,7 @@ class Renderable(object):
                 # Write the file content
 
                 enc = child.config['files']['output-encoding']
-                with open(filename, 'w', encoding=enc) as f:
+                with open(filename, 'w', encoding=enc, errors=r.encodingErrors) as f:
                     f.write(val)
 
                 status.info(' ] ')
@@ -557,7 +557,7 @@ class Renderer(dict):
         errs = self.encodingErrors
         for f in files:
             try:
-                with open(f, 'r', encoding=encoding, errors=errs) as fd:
+                with open(f, 'r', encoding=encoding, errors='replace') as fd:
                     s = fd.read()
 
             except IOError as msg:
@@ -568,7 +568,7 @@ class Renderer(dict):
             if isinstance(postProcess, collections.abc.Callable):
                 s = postProcess(document, s)
 
-            with open(f, 'w', encoding=encoding) as fd:
+            with open(f, 'w', encoding=encoding, errors=errs) as fd:
                 fd.write(''.join(s))
 
     def find(self, keys, default=None):
-- 
2.43.0


From 0243bdb891285a8e7693066270dafc1cc728bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 57/76] fix: XHTML shows the heading and note of a theorem, and
 gives it its identifier

---
 plasTeX/Renderers/XHTML/Thms.zpts | 12 ++++++++++++
 1 file changed, 12 insertions(+)
 create mode 100644 plasTeX/Renderers/XHTML/Thms.zpts

diff --git a/plasTeX/Renderers/XHTML/Thms.zpts b/plasTeX/Renderers/XHTML/Thms.zpts
new file mode 100644
index 0000000..ef515b6
--- /dev/null
+++ b/plasTeX/Renderers/XHTML/Thms.zpts
@@ -0,0 +1,12 @@
+name: thmenv
+<div tal:attributes="id self/id; class string:theorem ${self/thmName}">
+<p class="theoremheading"><b><span tal:replace="self/caption">Theorem</span> <span tal:condition="self/ref" tal:replace="self/ref">1</span></b>
+<span tal:condition="self/title" tal:omit-tag="">(<span tal:replace="self/title">Note</span>)</span></p>
+<div class="theorembody" tal:content="self">Body text</div>
+</div>
+
+name: proof
+<div class="proof" tal:attributes="id self/id">
+<p class="proofheading"><i tal:condition="self/caption" tal:content="self/caption">Proof</i><i tal:condition="not:self/caption" tal:content="self/ownerDocument/context/terms/proof">Proof</i></p>
+<div class="proofbody" tal:content="self">Body text</div>
+</div>
-- 
2.43.0


From a57fd91caad8ecafc455af93ebb5ed72ed39eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 58/76] fix: packages and document classes change their own
 document only

---
 plasTeX/Packages/article.py  | 11 ++----
 plasTeX/Packages/beamer.py   | 75 +++++++++++++++++++++---------------
 plasTeX/Packages/hyperref.py |  9 +++--
 plasTeX/Packages/natbib.py   | 13 ++++++-
 plasTeX/Packages/verse.py    |  5 ++-
 5 files changed, 67 insertions(+), 46 deletions(-)

diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index 83a85c5..aba1b62 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -1,16 +1,13 @@
 from plasTeX.Packages.report import *
-from plasTeX import Environment
 from plasTeX.Packages import report
 
 def ProcessOptions(options, document): # type: ignore
     report.ProcessOptions(options, document)
     document.context['thesection'].format = '${section}'
-    document.context['theindex'].counter = 'section'
-    document.context['theindex'].level = Environment.SECTION_LEVEL
-    document.context['printindex'].counter = 'section'
-    document.context['printindex'].level = Command.SECTION_LEVEL
-    document.context['bibliography'].counter = 'section'
-    document.context['bibliography'].level = Command.SECTION_LEVEL
+    # The classes themselves are shared with other documents
+    for name in ['theindex', 'printindex', 'bibliography']:
+        document.context.addGlobal(name, type(name, (document.context[name],),
+            {'counter': 'section', 'level': Command.SECTION_LEVEL}))
 
 class appendix(Command): # type: ignore
 
diff --git a/plasTeX/Packages/beamer.py b/plasTeX/Packages/beamer.py
index 716cd5e..d1b782a 100644
--- a/plasTeX/Packages/beamer.py
+++ b/plasTeX/Packages/beamer.py
@@ -2,7 +2,7 @@ from plasTeX import Command, Environment
 from plasTeX.Base import textbf, textit, textsl, textrm, textsf
 from plasTeX.Base import List, label, newcommand, newenvironment
 from plasTeX.Base import renewcommand, renewenvironment
-from plasTeX.Base import itemize, enumerate_, description
+from plasTeX.Base import itemize, enumerate_, description, trivlist, ConfigurableList
 from plasTeX.Base import part, section, subsection, subsubsection
 from plasTeX.Base import tableofcontents, thebibliography
 from plasTeX.Base import abstract, verse, quotation, quote, footnote, footnotetext
@@ -138,37 +138,48 @@ class overlayarea(Environment):
 class overprint(Environment):
     args = 'width'
 
-List.item.args = '< alert >' + List.item.args + '< alert2 >'
-textbf.args = '< overlay >' + textbf.args
-textit.args = '< overlay >' + textit.args
-textsl.args = '< overlay >' + textsl.args
-textrm.args = '< overlay >' + textrm.args
-textsf.args = '< overlay >' + textsf.args
-color.args = '< overlay >' + color.args
-label.args = '< overlay >' + label.args
-includegraphics.args = '< overlay >' + includegraphics.args
-newcommand.args = '< overlay >' + newcommand.args
-renewcommand.args = '< overlay >' + renewcommand.args
-newenvironment.args = '< overlay >' + newenvironment.args
-renewenvironment.args = '< overlay >' + renewenvironment.args
-itemize.args = '[ overlay ]'
-enumerate_.args = '[ overlay ] [ template ]'
-description.args = '[ overlay ] [ longtext ]'
-section.args = '< overlay >' + section.args
-subsection.args = '< overlay >' + subsection.args
-subsubsection.args = '< overlay >' + subsubsection.args
-part.args = '< overlay >' + part.args
-thebibliography.bibitem.args = '< overlay >' + thebibliography.bibitem.args
-appendix.args = '< overlay >' + appendix.args
-hypertarget.args = '< overlay >' + hypertarget.args
-hyperlink.args = '< overlay >' + hyperlink.args + '< overlay2 >'
-tableofcontents.args = '[ options:dict ]' + tableofcontents.args
-abstract.args = '< overlay >' + abstract.args
-verse.args = '< overlay >' + verse.args
-quotation.args = '< overlay >' + quotation.args
-quote.args = '< overlay >' + quote.args
-footnote.args = '< overlay > [ options:dict ] self' # modify options int -> dict
-footnotetext.args = '< overlay > [ options:dict ] self' # modify options int -> dict
+def withArgs(cls, args, **members):
+    """
+    The macro with other arguments (the class itself is shared with
+    documents that don't use this package)
+
+    """
+    return type(cls.__name__, (cls,), dict(members, args=args))
+
+listItem = {'item': withArgs(List.item, '< alert >' + List.item.args + '< alert2 >')}
+textbf = withArgs(textbf, '< overlay >' + textbf.args)
+textit = withArgs(textit, '< overlay >' + textit.args)
+textsl = withArgs(textsl, '< overlay >' + textsl.args)
+textrm = withArgs(textrm, '< overlay >' + textrm.args)
+textsf = withArgs(textsf, '< overlay >' + textsf.args)
+color = withArgs(color, '< overlay >' + color.args)
+label = withArgs(label, '< overlay >' + label.args)
+includegraphics = withArgs(includegraphics, '< overlay >' + includegraphics.args)
+newcommand = withArgs(newcommand, '< overlay >' + newcommand.args)
+renewcommand = withArgs(renewcommand, '< overlay >' + renewcommand.args)
+newenvironment = withArgs(newenvironment, '< overlay >' + newenvironment.args)
+renewenvironment = withArgs(renewenvironment, '< overlay >' + renewenvironment.args)
+itemize = withArgs(itemize, '[ overlay ]', **listItem)
+enumerate_ = withArgs(enumerate_, '[ overlay ] [ template ]', **listItem)
+trivlist = withArgs(trivlist, trivlist.args, **listItem)
+ConfigurableList = withArgs(ConfigurableList, ConfigurableList.args, **listItem)
+description = withArgs(description, '[ overlay ] [ longtext ]', **listItem)
+section = withArgs(section, '< overlay >' + section.args)
+subsection = withArgs(subsection, '< overlay >' + subsection.args)
+subsubsection = withArgs(subsubsection, '< overlay >' + subsubsection.args)
+part = withArgs(part, '< overlay >' + part.args)
+thebibliography = withArgs(thebibliography, thebibliography.args,
+    bibitem=withArgs(thebibliography.bibitem, '< overlay >' + thebibliography.bibitem.args))
+appendix = withArgs(appendix, '< overlay >' + appendix.args)
+hypertarget = withArgs(hypertarget, '< overlay >' + hypertarget.args)
+hyperlink = withArgs(hyperlink, '< overlay >' + hyperlink.args + '< overlay2 >')
+tableofcontents = withArgs(tableofcontents, '[ options:dict ]' + tableofcontents.args)
+abstract = withArgs(abstract, '< overlay >' + abstract.args)
+verse = withArgs(verse, '< overlay >' + verse.args)
+quotation = withArgs(quotation, '< overlay >' + quotation.args)
+quote = withArgs(quote, '< overlay >' + quote.args)
+footnote = withArgs(footnote, '< overlay > [ options:dict ] self') # modify options int -> dict
+footnotetext = withArgs(footnotetext, '< overlay > [ options:dict ] self') # modify options int -> dict
 
 class resetcounteronoverlays(Command):
     args = 'counter'
diff --git a/plasTeX/Packages/hyperref.py b/plasTeX/Packages/hyperref.py
index 46b276e..7be7c87 100644
--- a/plasTeX/Packages/hyperref.py
+++ b/plasTeX/Packages/hyperref.py
@@ -9,7 +9,7 @@ TO DO:
 """
 
 from plasTeX import Command, Environment
-from plasTeX.Base.LaTeX.Crossref import ref, pageref
+from plasTeX.Base.LaTeX import Crossref
 import urllib.parse
 
 def addBaseURL(self, urlarg):
@@ -21,8 +21,11 @@ def addBaseURL(self, urlarg):
 
 # Basic macros
 
-ref.args = '* %s' % ref.args
-pageref.args = '* %s' % pageref.args
+class ref(Crossref.ref):
+    args = '* %s' % Crossref.ref.args
+
+class pageref(Crossref.pageref):
+    args = '* %s' % Crossref.pageref.args
 
 class href(Command):
     args = 'url:url self'
diff --git a/plasTeX/Packages/natbib.py b/plasTeX/Packages/natbib.py
index 6be9f62..c1aa8e5 100644
--- a/plasTeX/Packages/natbib.py
+++ b/plasTeX/Packages/natbib.py
@@ -16,6 +16,9 @@ def ProcessOptions(options, document):
     """ Process package options """
     options = options or dict()
     new_options = dict()
+    # The document class decides which kind of section the bibliography is
+    level = document.context['bibliography'].level
+    counter = document.context['bibliography'].counter
     punct = {'post': bstyleoption(', '),
              'open': bstyleoption('('),
              'close':bstyleoption(')'),
@@ -50,7 +53,7 @@ def ProcessOptions(options, document):
         elif key == 'colon':
             punct['sep'] = ';'
         elif key == 'sectionbib':
-            Base.bibliography.level = Base.section.level
+            level = Base.section.level
         elif key == 'sort':
             pass
         elif key in ['sort&compress','sortandcompress']:
@@ -59,10 +62,16 @@ def ProcessOptions(options, document):
             pass
         elif key == 'nonamebreak':
             pass
-    document.userdata['natbib'] = {**options, **new_options, 'punctuation': punct}
+    document.userdata['natbib'] = {**options, **new_options, 'punctuation': punct,
+                                   'level': level, 'counter': counter}
 
 class bibliography(Base.bibliography):
 
+    def invoke(self, tex):
+        self.level = self.ownerDocument.userdata['natbib']['level']
+        self.counter = self.ownerDocument.userdata['natbib']['counter']
+        return Base.bibliography.invoke(self, tex)
+
     class setcounter(Base.Command):
         # Added so that setcounters in the aux file don't mess counters up
         args = 'name:nox num:nox'
diff --git a/plasTeX/Packages/verse.py b/plasTeX/Packages/verse.py
index 2259395..4a60844 100644
--- a/plasTeX/Packages/verse.py
+++ b/plasTeX/Packages/verse.py
@@ -1,6 +1,7 @@
-from plasTeX.Base.LaTeX.Quotations import verse
+from plasTeX.Base.LaTeX import Quotations
 
-verse.args = '[ width:nox ]'
+class verse(Quotations.verse):
+    args = '[ width:nox ]'
 
 class altverse(verse):
     pass
-- 
2.43.0


From 785b098a8df5dbfdb3506ffe026115f3f9c22f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 59/76] fix: a register assignment is not seen by other
 documents

---
 plasTeX/Context.py  | 28 ++++++++++++++++++++++++++++
 plasTeX/__init__.py | 21 ++++++++++++---------
 2 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 409e71f..d3fb870 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -183,6 +183,9 @@ class Context(object):
         self.counters = Counters()
         self.counters.context = self
 
+        # Register classes of this document, by the class they replace
+        self.registers = {} # type: Dict[type, type]
+
         # Imported packages and their options
         self.packages = {}
 
@@ -944,6 +947,31 @@ class Context(object):
         """
         self.writes[name] = open(file, 'w')
 
+    def ownRegister(self, cls):
+        """
+        Get this document's own class of a register
+
+        The value of a register is stored on its class, and the classes
+        of the builtin registers and those of packages are shared with
+        other documents.
+
+        Required Arguments:
+        cls -- the class of the register
+
+        Returns: class that may be assigned a value
+
+        """
+        if cls in list(self.registers.values()):
+            return cls
+        if cls not in self.registers:
+            new = type(cls.__name__, (cls,), {'value': cls.value})
+            self.registers[cls] = new
+            for item in self.contexts:
+                for key, value in list(item.items()):
+                    if value is cls:
+                        item[key] = new
+        return self.registers[cls]
+
     def newcount(self, name, initial=0):
         """
         Create a new count (like \\newcount)
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index cd3f5b9..3de7d4a 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1498,7 +1498,7 @@ class ParameterCommand(Command):
             # We don't want them to invoke, we want them to set our value.
             ParameterCommand.disable()
             try:
-                type(self).value = self.parse(tex)['value']
+                self.setvalue(self.parse(tex)['value'])
             finally:
                 ParameterCommand.enable()
 
@@ -1512,6 +1512,9 @@ class ParameterCommand(Command):
         ParameterCommand._enablelevel -= 1
         ParameterCommand.enabled = ParameterCommand._enablelevel >= 0
 
+    def setvalue(self, value):
+        self.ownerDocument.context.ownRegister(type(self)).value = value
+
     def __dimen__(self):
         return dimen(type(self).value)
 
@@ -1543,10 +1546,10 @@ class DimenCommand(RegisterCommand):
     value = dimen(0)
 
     def setlength(self, len):
-        type(self).value = dimen(len)
+        self.setvalue(dimen(len))
 
     def addtolength(self, len):
-        type(self).value = dimen(type(self).value + len)
+        self.setvalue(dimen(type(self).value + len))
 
     @classmethod
     def new(cls, *args, **kwargs):
@@ -1557,10 +1560,10 @@ class MuDimenCommand(RegisterCommand):
     value = mudimen(0)
 
     def setlength(self, len):
-        type(self).value = mudimen(len)
+        self.setvalue(mudimen(len))
 
     def addtolength(self, len):
-        type(self).value = mudimen(type(self).value + len)
+        self.setvalue(mudimen(type(self).value + len))
 
     @classmethod
     def new(cls, *args, **kwargs):
@@ -1571,10 +1574,10 @@ class GlueCommand(RegisterCommand):
     value = glue(0)
 
     def setlength(self, len):
-        type(self).value = glue(len)
+        self.setvalue(glue(len))
 
     def addtolength(self, len):
-        type(self).value = glue(type(self).value + len)
+        self.setvalue(glue(type(self).value + len))
 
     @classmethod
     def new(cls, *args, **kwargs):
@@ -1585,10 +1588,10 @@ class MuGlueCommand(RegisterCommand):
     value = muglue(0)
 
     def setlength(self, len):
-        type(self).value = muglue(len)
+        self.setvalue(muglue(len))
 
     def addtolength(self, len):
-        type(self).value = muglue(type(self).value + len)
+        self.setvalue(muglue(type(self).value + len))
 
     @classmethod
     def new(cls, *args, **kwargs):
-- 
2.43.0


From 5199f1558f37d2f418c3325a0a0a9c121039f78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 60/76] fix: a list left open does not change the nesting of
 lists in other documents

---
 plasTeX/Base/LaTeX/Lists.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index 9973294..9c67d6a 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -13,9 +13,12 @@ class enumivname(Command): str = ''
 class enumvname(Command): str = ''
 class enumviname(Command): str = ''
 
+def listDepth(document):
+    """ Number of lists that are open """
+    return len([x for x in document.context.contexts if isinstance(x.obj, List)])
+
 class List(Environment):
     """ Base class for all list-based environments """
-    depth = 0
     counters = ['enumi','enumii','enumiii','enumiv','enumv','enumvi']
     blockType = True
 
@@ -28,7 +31,7 @@ class List(Environment):
         def invoke(self, tex):
             """ Set up counter for this list depth """
             try:
-                self.counter = List.counters[List.depth-1]
+                self.counter = List.counters[listDepth(self.ownerDocument)-1]
                 self.position = self.ownerDocument.context.counters[self.counter].value + 1
             except (KeyError, IndexError):
                 pass
@@ -52,12 +55,9 @@ class List(Environment):
 
     def invoke(self, tex):
         """ Set list nesting depth """
-        if self.macroMode != Environment.MODE_END:
-            first = List.depth
-            List.depth += 1
-        else:
-            List.depth -= 1
-            first = List.depth
+        first = listDepth(self.ownerDocument)
+        if self.macroMode == Environment.MODE_END:
+            first -= 1
         try:
             for i in range(first, len(List.counters)):
                 self.ownerDocument.context.counters[List.counters[i]].setcounter(0)
-- 
2.43.0


From ecab072de5540217bab639df1c45c5139329cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 61/76] fix: reading column specifications leaves nothing of a
 document on the Array class

---
 plasTeX/Base/LaTeX/Arrays.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index ea80bed..9701561 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -522,11 +522,12 @@ class Array(Environment):
         before = None
         leftborder = None
 
-        tex.pushToken(Array)
+        end = Array()
+        tex.pushToken(end)
         tex.pushTokens(colspec)
 
         for tok in tex.itertokens():
-            if tok is Array:
+            if tok is end:
                 break
 
             if tok.isElementContentWhitespace:
-- 
2.43.0


From e6820d632e8f8ef1f0e0ebb1610c34d87864c567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 62/76] fix: numberwithin changes the format in its own
 document only

---
 plasTeX/Packages/amsmath.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 5f81799..8dd366f 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -137,8 +137,11 @@ class numberwithin(Command):
         target_cnt.resetby = control
 
         # Formatting
-        ctx['the'+target].format = '{}.${{{}}}'.format(
-                ctx['the'+control].format, target)
+        # The present class may be shared with other documents
+        the = ctx['the'+target]
+        ctx.addGlobal('the'+target, type('the'+target, (the,),
+                {'format': '{}.${{{}}}'.format(
+                    ctx['the'+control].format, target)}))
 
 class eqref(Command):
     args = 'label:idref'
-- 
2.43.0


From ff827ede68943bdc5ad91d833a948ac511d43f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 63/76] fix: labelled list items carry the identifier of their
 label

---
 plasTeX/Renderers/HTML5/Lists.jinja2s |  6 +++---
 plasTeX/Renderers/XHTML/Lists.zpts    | 10 +++++-----
 plasTeX/__init__.py                   |  7 +++++++
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Lists.jinja2s b/plasTeX/Renderers/HTML5/Lists.jinja2s
index 6f387ee..f462835 100644
--- a/plasTeX/Renderers/HTML5/Lists.jinja2s
+++ b/plasTeX/Renderers/HTML5/Lists.jinja2s
@@ -1,21 +1,21 @@
 name: itemize
 <ul class="itemize">
 {% for item in obj %}
-  <li>{{ item }}</li>
+  <li{% if item.labelid %} id="{{ item.labelid }}"{% endif %}>{{ item }}</li>
 {% endfor %}
 </ul>
 
 name: enumerate
 <ol class="enumerate">
 {% for item in obj %}
-  <li>{{ item }}</li>
+  <li{% if item.labelid %} id="{{ item.labelid }}"{% endif %}>{{ item }}</li>
 {% endfor %}
 </ol>
 
 name: list trivlist description
 <dl class="{{ obj.nodeName }}">
 {% for item in obj %}
-  <dt>{{ item.attributes.term or obj.attributes.defaultlabel }}</dt>
+  <dt{% if item.labelid %} id="{{ item.labelid }}"{% endif %}>{{ item.attributes.term or obj.attributes.defaultlabel }}</dt>
   <dd>{{ item }}</dd>
 {% endfor %}
 </dl>
diff --git a/plasTeX/Renderers/XHTML/Lists.zpts b/plasTeX/Renderers/XHTML/Lists.zpts
index 11c1d9c..4387bfb 100644
--- a/plasTeX/Renderers/XHTML/Lists.zpts
+++ b/plasTeX/Renderers/XHTML/Lists.zpts
@@ -1,25 +1,25 @@
 name: itemize
 <ul class="itemize">
-<li tal:repeat="item self" tal:content="item"></li>
+<li tal:repeat="item self" tal:content="item" tal:attributes="id item/labelid"></li>
 </ul>
 
 name: enumerate
 <ol class="enumerate">
-<li tal:repeat="item self" tal:content="item" tal:attributes="value item/position"></li>
+<li tal:repeat="item self" tal:content="item" tal:attributes="value item/position; id item/labelid"></li>
 </ol>
 
 name: description
 type: xml
 <dl class="description">
 <metal:block tal:repeat="item self">
-    <dt tal:content="item/attributes/term"></dt>
+    <dt tal:content="item/attributes/term" tal:attributes="id item/labelid"></dt>
     <dd tal:content="item"></dd>
 </metal:block>
 </dl>
 
 name: list trivlist
 <table class="list" cellspacing="0" cellpadding="2">
-<tr tal:repeat="item self">
+<tr tal:repeat="item self" tal:attributes="id item/labelid">
 <td tal:content="item/attributes/term | self/attributes/defaultlabel"></td>
 <td tal:content="item"></td>
 </tr>
@@ -29,7 +29,7 @@ name: list
 type: xml
 <dl class="description">
 <metal:block tal:repeat="item self">
-    <dt tal:content="item/attributes/term"></dt>
+    <dt tal:content="item/attributes/term" tal:attributes="id item/labelid"></dt>
     <dd tal:content="item"></dd>
 </metal:block>
 </dl>
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 3de7d4a..5379c57 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -343,6 +343,13 @@ class Macro(Element):
         else:
             delattr(self, '@id')
 
+    @property
+    def labelid(self):
+        """ The identifier given by a label, or None if there is no label """
+        if getattr(self, '@hasgenid', None) is None:
+            return getattr(self, '@id', None)
+        return None
+
     def expand(self, tex):
         """ Fully expand the macro """
         result = self.invoke(tex)
-- 
2.43.0


From c77e57f8c64657ef7da736526b7662956c04eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 64/76] fix: headings of the index and the bibliography are
 link targets; index groups have their own identifiers

---
 plasTeX/Renderers/HTML5/Bibliography.jinja2s | 2 +-
 plasTeX/Renderers/HTML5/Index.jinja2s        | 8 ++++----
 plasTeX/Renderers/XHTML/Bibliography.zpts    | 2 +-
 plasTeX/Renderers/XHTML/Index.zpts           | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Bibliography.jinja2s b/plasTeX/Renderers/HTML5/Bibliography.jinja2s
index 623b66d..11a21d3 100644
--- a/plasTeX/Renderers/HTML5/Bibliography.jinja2s
+++ b/plasTeX/Renderers/HTML5/Bibliography.jinja2s
@@ -10,7 +10,7 @@ name: bibliographystyle
 
 name: bibliography
 <div class="bibliography">
-<h1>{{ obj.title }}</h1>
+<h1{% if obj.config['document']['toc-non-files'] %} id="{{ obj.id }}"{% endif %}>{{ obj.title }}</h1>
 {{ obj }}
 </div>
 
diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index 9a8523a..e1c22e4 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -1,10 +1,10 @@
 name: theindex printindex
 {% set groups = obj.groups %}
-<h1>{{ obj.title }}</h1>
+<h1 id="{{ obj.id }}">{{ obj.title }}</h1>
 
 <nav class="index-groups">
 {% for group in groups %}
-<a href="#{{ group.id }}" class="{% if loop.last %}index-group-last{% else %}index-group{% endif %}">{{ group.title }}</a>
+<a href="#IDXGROUP.{{ group.id }}" class="{% if loop.last %}index-group-last{% else %}index-group{% endif %}">{{ group.title }}</a>
 {% endfor %}
 </nav>
 
@@ -12,14 +12,14 @@ name: theindex printindex
 {% for group in groups %}
 <section class="theindex">
 
-<h2 id="{{ group.id}}">{{ group.title }}</h2>
+<h2 id="IDXGROUP.{{ group.id}}">{{ group.title }}</h2>
 {% for column in group %}
 <ul class="index-column">
 {% for item in column recursive %}
   <li>
     <span class="index-item">{{ item.key }}</span>,
     {% for page in item.pages %}
-    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags | e }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
+    {% if page.url %}<a href="{{ page.url }}" title="{{ page.currentSection.title | striptags | e }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>{% else %}{{ page }}{% endif %}
     {% endfor %}
     {% if item %}
       <ul class="index-subitem-{{ loop.depth }}">
diff --git a/plasTeX/Renderers/XHTML/Bibliography.zpts b/plasTeX/Renderers/XHTML/Bibliography.zpts
index 50b8656..7871623 100644
--- a/plasTeX/Renderers/XHTML/Bibliography.zpts
+++ b/plasTeX/Renderers/XHTML/Bibliography.zpts
@@ -13,7 +13,7 @@ name: bibliographystyle
 
 name: bibliography
 <div>
-<h1 tal:content="self/title">Bibliography</h1>
+<h1 tal:content="self/title" tal:attributes="id self/id">Bibliography</h1>
 
 <div tal:replace="self"></div>
 </div>
diff --git a/plasTeX/Renderers/XHTML/Index.zpts b/plasTeX/Renderers/XHTML/Index.zpts
index e3f5efd..a4f41c0 100644
--- a/plasTeX/Renderers/XHTML/Index.zpts
+++ b/plasTeX/Renderers/XHTML/Index.zpts
@@ -1,5 +1,5 @@
 name: theindex printindex
-<h1 tal:content="self/title"></h1>
+<h1 tal:content="self/title" tal:attributes="id self/id"></h1>
 
 <div tal:define="groups self/groups">
 
-- 
2.43.0


From 5c536d7750086a9bf324eee2910109582f8b7984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 65/76] fix: the caption of a longtable belongs to the table

---
 plasTeX/Packages/longtable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plasTeX/Packages/longtable.py b/plasTeX/Packages/longtable.py
index d335c16..a979858 100644
--- a/plasTeX/Packages/longtable.py
+++ b/plasTeX/Packages/longtable.py
@@ -137,5 +137,9 @@ class longtable(tabular):
         for i in removeRows:
             self.pop(i)
 
+        # The rows are gone, but the caption is still part of the table
+        if removeRows and getattr(self, 'title', None) is not None:
+            self.title.parentNode = self
+
 class LongTableStar(longtable):
     macroName = 'longtable*'
-- 
2.43.0


From 5dd0998e76490ad61502d6746f5011a23b85c7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 66/76] fix: labelled rows of displayed math are link targets

---
 plasTeX/Renderers/HTML5/Math.jinja2s | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plasTeX/Renderers/HTML5/Math.jinja2s b/plasTeX/Renderers/HTML5/Math.jinja2s
index 26cad1b..e8302b6 100644
--- a/plasTeX/Renderers/HTML5/Math.jinja2s
+++ b/plasTeX/Renderers/HTML5/Math.jinja2s
@@ -6,6 +6,7 @@ name: ensuremath
 
 name: displaymath equation* eqnarray eqnarray* align align* gather gather* flalign flalign* multline multline* alignat alignat* split
 <div class="displaymath" id="{{ obj.id }}">
+{% for row in obj if row.labelid %}<a id="{{ row.labelid }}"></a>{% endfor %}
   {{ obj.mathjax_source }}
 </div>
 
-- 
2.43.0


From 80fb885ad9fe47bf3f7f8c8f9f349cc2f957a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:23 +0000
Subject: [PATCH 67/76] fix: find the Unicode collator in current versions of
 pyuca

---
 plasTeX/Base/LaTeX/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 3f46fb7..96da0bf 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -14,7 +14,7 @@ from typing import Optional
 log = getLogger()
 
 try:
-    from pyuca import Collator_10_0_0
+    from pyuca.collator import Collator_10_0_0
     collator = Collator_10_0_0().sort_key
 except ImportError:
     collator = lambda x: x.lower()
-- 
2.43.0


From 2d930d1421dd46a3ca102349d6d6c9b6238bdfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 68/76] fix: index entries with the same path are adjacent in
 the sorted index

---
 plasTeX/Base/LaTeX/Index.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 96da0bf..7de0400 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -408,12 +408,11 @@ class IndexEntry(object):
         return not(self.see) and not(self.seealso)
 
     def __lt__(self, other):
-        key_self = list(zip([collator(x) for x in self.sortkey if isinstance(x, str)],
-                            [collator(x.textContent) for x in self.key],
-                            self.key))
-        key_other = list(zip([collator(x) for x in other.sortkey if isinstance(x, str)],
-                             [collator(x.textContent) for x in other.key],
-                             other.key))
+        # Different texts with the same collation key must still be in a
+        # fixed order, or equal entries may be separated by them.
+        key_self, key_other = [
+            [(collator(sk), collator(k.textContent), sk, k.source)
+             for sk, k in zip(x.sortkey, x.key)] for x in (self, other)]
         if key_self < key_other:
             return True
         elif key_self > key_other:
-- 
2.43.0


From ad301650ff3ac8fd90e93c15f253aa0940d47882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 69/76] fix: the index lists entries that come after it in the
 document

---
 plasTeX/Base/LaTeX/Index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 7de0400..c8f9484 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -173,6 +173,10 @@ class IndexUtils(object):
                 self.pop()
         else:
             Command.digest(self, tokens)
+        # Read the rest of the document first, it may contain more entries
+        rest = list(tokens)
+        while rest:
+            tokens.push(rest.pop())
         doc = self.ownerDocument
         current = self
         entries = sorted(self.ownerDocument.userdata.get('index', []))
-- 
2.43.0


From 91ae978c27b16af2bf40f1e1e7759b6ce1ccd49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 70/76] fix: index entries that begin with a ligature are
 listed under their letter

---
 plasTeX/Base/LaTeX/Index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index c8f9484..af314b7 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -85,6 +85,9 @@ class IndexUtils(object):
         for item in self:
             try:
                 label = title = unidecode(item.sortkey[0]).upper()
+                # Ligatures go with their first letter
+                if item.sortkey[0].isalpha():
+                    label = title = title[:1]
                 if title in encoding.stringletters():
                     pass
                 elif title == '_':
-- 
2.43.0


From e5d45c75aac4ec383620ccd5f5fb90c2a9443c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 71/76] fix: an index entry with an empty format has no extra
 level

---
 plasTeX/Base/LaTeX/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index af314b7..d24cd2c 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -323,7 +323,7 @@ class index(Command):
             current.append(tok)
 
         # Make sure to get the stuff at the end
-        if not format:
+        if current is not format:
             key.append(current)
             if len(sortkey) < len(key):
                 sortkey.append(current)
-- 
2.43.0


From 871c1e09880b6a6df43c0c6b5794cee5ed3a406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:57 +0000
Subject: [PATCH 72/76] fix: separators in the format of an index entry belong
 to the format

---
 plasTeX/Base/LaTeX/Index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index d24cd2c..86b3713 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -300,6 +300,9 @@ class index(Command):
                     for tok in entry:
                         current.append(tok)
                         break
+                # The rest belongs to the format
+                elif current is format:
+                    current.append(tok)
                 # Entry separator
                 elif tok == '!':
                     key.append(current)
-- 
2.43.0


From 522f053c10bb40d53a43015e9a47c758f07bb956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:50 +0000
Subject: [PATCH 73/76] fix: a damaged file of saved labels never stops a run,
 and is complete again after the next save

---
 plasTeX/Context.py | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index d3fb870..6c61c5f 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -242,18 +242,18 @@ class Context(object):
 
         """
         import pickle
+        # Keep what was saved for other renderers.  Our own data is replaced,
+        # so labels that have disappeared from the document don't stay.
+        d = {}
         if os.path.exists(filename):
             try:
                 with open(filename, 'rb') as fh:
-                    d = pickle.load(fh)
-                    if rtype not in list(d.keys()):
-                        d[rtype] = {}
-            except:
-                os.remove(filename)
-                d = {rtype:{}}
-        else:
-            d = {rtype:{}}
-        data = d[rtype]
+                    old = pickle.load(fh)
+                if isinstance(old, dict):
+                    d = {k: v for k, v in old.items() if isinstance(v, dict)}
+            except Exception as msg:
+                log.warning('Could not read old auxiliary information. (%s)' % msg)
+        data = d[rtype] = {}
         for key, value in list(self.persistentLabels.items()):
             data[key] = value.persist()
         try:
@@ -279,18 +279,26 @@ class Context(object):
         if not os.path.exists(filename):
             return
         try:
-            d = pickle.load(open(filename, 'rb'))
+            with open(filename, 'rb') as fh:
+                d = pickle.load(fh)
             try: data = d[rtype]
             except KeyError: return
-            wou = self.warnOnUnrecognized
-            self.warnOnUnrecognized = False
-            for key, value in list(data.items()):
-                n = self[value.get('macroName', 'Macro')]()
-                n.restore(value)
-                self.labels[key] = n
-            self.warnOnUnrecognized = wou
+            items = list(data.items())
         except Exception as msg:
             log.warning('Could not load auxiliary information. (%s)' % msg)
+            return
+        wou = self.warnOnUnrecognized
+        self.warnOnUnrecognized = False
+        try:
+            for key, value in items:
+                try:
+                    n = self[value.get('macroName', 'Macro')]()
+                    n.restore(value)
+                    self.labels[key] = n
+                except Exception as msg:
+                    log.warning('Could not load auxiliary information for label %s. (%s)' % (key, msg))
+        finally:
+            self.warnOnUnrecognized = wou
 
     @property
     def isMathMode(self):
-- 
2.43.0


From 3566d00f8b6326f66ba6c332fb8e240f2d0c9a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:07 +0000
Subject: [PATCH 74/76] fix: xr reads damaged label files without failing, and
 only the labels saved for the renderer in use

---
 plasTeX/Packages/xr.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Packages/xr.py b/plasTeX/Packages/xr.py
index 00a10c7..ed7100d 100644
--- a/plasTeX/Packages/xr.py
+++ b/plasTeX/Packages/xr.py
@@ -11,8 +11,12 @@ def load_paux(name: str) -> Dict:
         log.warning('Could not find {}'.format(name))
         return dict()
     try:
-        data = pickle.load(open(name, 'rb'))
-    except:
+        with open(name, 'rb') as fh:
+            data = pickle.load(fh)
+    except Exception:
+        log.warning('Failed to load {}'.format(name))
+        return dict()
+    if not isinstance(data, dict):
         log.warning('Failed to load {}'.format(name))
         return dict()
     return data
@@ -29,8 +33,14 @@ class externaldocument(Command):
         if url:
             url = url.textContent.rstrip('/') + '/'
         labels = self.ownerDocument.context.labels
-        for block in load_paux(pauxname).values():
-            for lbl, val in block.items():
-                labels[prefix + lbl] = val
-                if url:
-                    labels[prefix + lbl]['url'] = url + labels[prefix + lbl]['url']
+        # Locations depend on the renderer, so only use what was saved for ours
+        block = load_paux(pauxname).get(self.config['general']['renderer'])
+        if not isinstance(block, dict):
+            return
+        for lbl, val in block.items():
+            if not isinstance(lbl, str) or not isinstance(val, dict):
+                continue
+            val = dict(val)
+            if url:
+                val['url'] = url + str(val.get('url', ''))
+            labels[prefix + lbl] = val
-- 
2.43.0


From 0214bad1e2a458e0e7ba7546535d9ab846cc80ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 75/76] fix: a label after a nested equation, list, theorem or
 float belongs to the object it is written in

---
 plasTeX/Base/LaTeX/Floats.py |  1 +
 plasTeX/Base/LaTeX/Lists.py  |  1 +
 plasTeX/Base/LaTeX/Math.py   |  1 +
 plasTeX/Context.py           | 20 ++++++++++++++++++--
 plasTeX/__init__.py          |  4 ++++
 5 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Floats.py b/plasTeX/Base/LaTeX/Floats.py
index ced2516..b19404d 100644
--- a/plasTeX/Base/LaTeX/Floats.py
+++ b/plasTeX/Base/LaTeX/Floats.py
@@ -25,6 +25,7 @@ class Caption(Command):
 
 class Float(Environment):
     blockType = True
+    labelScope = True
     forcePars = True
     args = '[ loc:str ]'
 
diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index 9c67d6a..a7edd19 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -21,6 +21,7 @@ class List(Environment):
     """ Base class for all list-based environments """
     counters = ['enumi','enumii','enumiii','enumiv','enumv','enumvi']
     blockType = True
+    labelScope = True
 
     class item(Command):
         args = '[ term ]'
diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 60f41bb..a3eab41 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -144,6 +144,7 @@ class equation(MathEnvironment):
 class EqnarrayStar(Array, MathEnvironmentPre, NoCharSubEnvironment):
     macroName = 'eqnarray*' # type: Optional[str]
     blockType = True
+    labelScope = True
     mathMode = True
 
     class lefteqn(Command):
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 6c61c5f..1cc8f88 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -37,6 +37,7 @@ class ContextItem(dict):
         dict.__init__(self, data or {})
         self.categories = None # type: Optional[List[str]]
         self.obj = None
+        self.currentlabel = None
         self.parent = None
         self.owner = None
 
@@ -734,6 +735,7 @@ class Context(object):
         newcontext = ContextItem()
         newcontext.categories = self.categories
         newcontext.obj = obj
+        newcontext.currentlabel = self.currentlabel
 
         if obj is not None:
 
@@ -759,6 +761,20 @@ class Context(object):
 #           elif isinstance(value, Context):
 #               self.importMacros(value)
 
+    def restoreLabel(self, item):
+        """
+        Go back to the labelable object that was current before an environment
+
+        Labels that come after an equation, a list, a theorem, etc. belong
+        to the object that this one is in.
+
+        Required Arguments:
+        item -- ContextItem instance removed from stack
+
+        """
+        if item.obj.counter or item.obj.labelScope:
+            self.currentlabel = item.currentlabel
+
     def pop(self, obj=None):
         """
         Remove a context from the stack
@@ -792,11 +808,11 @@ class Context(object):
                     break
                 # Found the \begin to our \end
                 elif type(obj) == type(o) and obj.macroMode == obj.MODE_END:
-                    self.contexts.pop()
+                    self.restoreLabel(self.contexts.pop())
                     break
                 # Found the \foo to our \endfoo
                 elif obj.nodeName == ('end%s' % o.nodeName):
-                    self.contexts.pop()
+                    self.restoreLabel(self.contexts.pop())
                     break
                 self.contexts.pop()
 
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 5379c57..e8d38c2 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -128,6 +128,10 @@ class Macro(Element):
     # Counter associated with this macro
     counter = None # type: Optional[str]
 
+    # Do labels after the end of this environment belong to the object around
+    # it?  This is always the case for environments with a counter.
+    labelScope = False
+
     # Value to return when macro is referred to by \ref
     ref = None # type: Optional[str]
 
-- 
2.43.0


From 066a245820cea3c75b5cb36c770f625a6cfdf01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:33 +0000
Subject: [PATCH 76/76] fix: a label with an underscore in mathematics keeps
 its name

---
 plasTeX/Base/LaTeX/Crossref.py | 4 ++++
 plasTeX/Packages/amsmath.py    | 1 +
 2 files changed, 5 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Crossref.py b/plasTeX/Base/LaTeX/Crossref.py
index 0db1ca5..645b6b7 100644
--- a/plasTeX/Base/LaTeX/Crossref.py
+++ b/plasTeX/Base/LaTeX/Crossref.py
@@ -8,9 +8,13 @@ from plasTeX import Command
 
 class label(Command):
     args = 'label:id'
+    # The name is plain text, also in mathematics
+    mathMode = False
 
 class ref(Command):
     args = 'label:idref'
+    mathMode = False
 
 class pageref(Command):
     args = 'label:idref'
+    mathMode = False
diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 8dd366f..e543ed9 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -145,3 +145,4 @@ class numberwithin(Command):
 
 class eqref(Command):
     args = 'label:idref'
+    mathMode = False
-- 
2.43.0

