From 43cc4af05ee76a1c4804f622494edfe7c21fd643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 001/159] fix: order dev releases after comparing the pre and
 post release parts (pep440)

---
 pkm/src/pkm/api/versions/version.py | 31 ++++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 74b6711..0d112fc 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -254,6 +254,13 @@ class StandardVersion(Version):
         return VersionParser(txt.lower()).read_version()
 
 
+def _pre_release_order(v: StandardVersion) -> Tuple[str, int]:
+    # pep440: "X.devN" comes before the pre releases of X, which come before X itself
+    if v.pre_release is not None:
+        return v.pre_release
+    return ('', 0) if v.dev_release is not None and v.post_release is None else ('z', 0)
+
+
 def _less(v1: Version, v2: Version) -> bool:
     swap = False
 
@@ -288,20 +295,9 @@ def _less(v1: Version, v2: Version) -> bool:
             continue
         return s < o
 
-    if v1.dev_release != v2.dev_release:
-        if (v1.dev_release is None) ^ (v2.dev_release is None):
-            return v2.dev_release is None
-
-        if v1.dev_release != v2.dev_release:
-            return v1.dev_release < v2.dev_release
-
-    if v1.pre_release != v2.pre_release:
-        if (v1.pre_release is None) ^ (v2.pre_release is None):
-            return v2.pre_release is None
-
-        for s, o in zip(v1.pre_release, v2.pre_release):
-            if s == o: continue  # noqa
-            return s < o
+    pre1, pre2 = _pre_release_order(v1), _pre_release_order(v2)
+    if pre1 != pre2:
+        return pre1 < pre2
 
     if v1.post_release != v2.post_release:
         if (v1.post_release is None) ^ (v2.post_release is None):
@@ -311,6 +307,13 @@ def _less(v1: Version, v2: Version) -> bool:
         if s != o:
             return s < o
 
+    if v1.dev_release != v2.dev_release:
+        if (v1.dev_release is None) ^ (v2.dev_release is None):
+            return v2.dev_release is None
+
+        if v1.dev_release != v2.dev_release:
+            return v1.dev_release < v2.dev_release
+
     my_local_segments = (v1.local_label or "").split('.')
     other_local_segments = (v2.local_label or "").split('.')
 
-- 
2.43.0


From d3ad28d02df179955e2b76274f5ed2136f9d5b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 002/159] fix: compare numeric local version segments by their
 value

---
 pkm/src/pkm/api/versions/version.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 0d112fc..4ddd538 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -321,9 +321,9 @@ def _less(v1: Version, v2: Version) -> bool:
         if m == o:
             continue
 
-        m_num, o_num = m.isnumeric(), o.isnumeric()
+        m_num, o_num = m.isdecimal(), o.isdecimal()
         if m_num and o_num:
-            return int(m_num) < int(o_num)
+            return (int(m), m) < (int(o), o)
         if m_num or o_num:
             return o_num
 
-- 
2.43.0


From e523fbfe627ef158455360fcf72f051a0656540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 003/159] fix: hash equal versions with explicit and implicit
 epoch 0 alike

---
 pkm/src/pkm/api/versions/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 4ddd538..eabfd73 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -134,7 +134,7 @@ class StandardVersion(Version):
 
     def __hash__(self):
         s = self.standartize()
-        return hash((s.release, s.epoch, s.dev_release, s.post_release, s.pre_release, s.local_label))
+        return hash((s.release, s.epoch or 0, s.dev_release, s.post_release, s.pre_release, s.local_label))
 
     def is_pre_or_dev_release(self) -> bool:
         return self.pre_release is not None or self.dev_release is not None
-- 
2.43.0


From 1eaf8352394ee7de5c87c8697929c4d917f7d025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 004/159] fix: order and hash url versions consistently with
 their equality

---
 pkm/src/pkm/api/versions/version.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index eabfd73..19390e6 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -64,6 +64,9 @@ class UrlVersion(Version):
     def __eq__(self, other) -> bool:
         return isinstance(other, UrlVersion) and self.protocol == other.protocol and self.url == other.url
 
+    def __hash__(self):
+        return hash((self.protocol, self.url))
+
     def __str__(self):
         if self._protocol:
             return self._protocol + "+" + self.url
@@ -270,7 +273,7 @@ def _less(v1: Version, v2: Version) -> bool:
         if swap: return not _less(v2, v1)  # noqa
 
         if isinstance(v2, UrlVersion):
-            return str(v1) < str(v2)
+            return (v1.url, v1.protocol) < (v2.url, v2.protocol)
 
         return True
 
-- 
2.43.0


From a3dfd254493609eaa9d7cd94afc4bff807e0f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 005/159] fix: parse all the pep440 spellings of pre, post and
 dev releases

---
 pkm/src/pkm/api/versions/version_parser.py | 42 +++++++++++++---------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 235a9f3..ad9290a 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -1,6 +1,6 @@
 from dataclasses import replace
 from pathlib import Path
-from typing import List
+from typing import List, Optional
 
 from pkm.api.versions.version import Version, NamedVersion, StandardVersion, UrlVersion
 from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions, VersionMatch
@@ -24,12 +24,25 @@ def parse_specifier(specifier_str: str) -> VersionSpecifier:
 
 
 _PRE_RELEASE_TYPE_NORMALIZER = {
-    'a': 'a', 'b': 'b', 'rc': 'rc', 'c': 'rc', 'alpha': 'a', 'beta': 'b', 'preview': 'rc'
+    'alpha': 'a', 'beta': 'b', 'preview': 'rc', 'pre': 'rc', 'rc': 'rc', 'a': 'a', 'b': 'b', 'c': 'rc'
 }
 
 
 class VersionParser(SimpleParser):
 
+    def _match_suffix(self, *names: str) -> Optional[str]:
+        position = self.position
+        self.match_any('.', '-', '_')
+        if name := self.match_any(*names):
+            return name
+
+        self.position = position
+        return None
+
+    def _read_suffix_number(self) -> int:
+        self.match_any('.', '-', '_')
+        return int(self.read_digits()) if self.peek().isdigit() else 0
+
     def read_version(self) -> StandardVersion:
         self.match_ws()
 
@@ -48,27 +61,24 @@ class VersionParser(SimpleParser):
         while self.match('.') and self.is_not_empty() and self.peek().isdigit():
             release.append(int(self.read_digits()))
 
+        if self.peek_prev() == '.':
+            self.position -= 1
+
         pre_release = None
-        # pre_release_type = self.peek_prev() != '.' and self.match_any(*_PRE_RELEASE_TYPE_NORMALIZER.keys())
-        pre_release_type = self.match_any(*_PRE_RELEASE_TYPE_NORMALIZER.keys())
+        pre_release_type = self._match_suffix(*_PRE_RELEASE_TYPE_NORMALIZER.keys())
         if pre_release_type:
-            self.match_any('.', '-', '_')
-            pre_release_num = 0 if not self.peek().isdigit() else int(self.read_digits())
-            pre_release = (_PRE_RELEASE_TYPE_NORMALIZER[pre_release_type], pre_release_num)
+            pre_release = (_PRE_RELEASE_TYPE_NORMALIZER[pre_release_type], self._read_suffix_number())
 
         post_release = None
-
-        if (prev := self.peek_prev()).isdigit() or prev in _PRE_RELEASE_TYPE_NORMALIZER:
-            self.match_any('.', '-', '_')
-        if self.match_any('post', 'r', 'rev') or (self.peek_prev() == '-' and self.peek().isdigit()):
+        if self._match_suffix('post', 'rev', 'r'):
+            post_release = self._read_suffix_number()
+        elif self.peek() == '-' and self.peek(2)[1:].isdigit():
             self.match('-')
-            post_release = 0 if not self.peek().isdigit() else int(self.read_digits())
+            post_release = int(self.read_digits())
 
         dev_release = None
-        if self.peek_prev().isdigit():
-            self.match_any('.', '-', '_')
-        if self.match('dev'):
-            dev_release = 0 if not self.peek().isdigit() else int(self.read_digits())
+        if self._match_suffix('dev'):
+            dev_release = self._read_suffix_number()
 
         local_label = None
         if self.match('+'):
-- 
2.43.0


From 261b018759d54914ca9bbc7be6409062fdfd0573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 006/159] fix: the union of overlapping version ranges keeps
 the larger upper bound

---
 pkm/src/pkm/api/versions/version_specifiers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 18408b6..3ec0079 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -562,15 +562,18 @@ class StandardVersionRange(VersionSpecifier):
             return other._union_with(self)
 
         imin, imax = self.includes_min, other.includes_max
+        max_ = other.max
         if not other.min or not self.max or other.min < self.max:
             if self.min == other.min:
                 imin = self.includes_min or other.includes_min
             if self.max == other.max:
                 imax = self.includes_max or other.includes_max
+            elif max_ and (not self.max or self.max > max_):
+                max_, imax = self.max, self.includes_max
         elif (not self.includes_max and not other.includes_min) or other.min != self.max:
             return VersionsUnion([self, other])
 
-        return VersionSpecifier.create_range(self.min, other.max, imin, imax)
+        return VersionSpecifier.create_range(self.min, max_, imin, imax)
 
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion, HetroVersionIntersection, VersionMatch)):
-- 
2.43.0


From 64cf15cd2e50e1e6ecadbe1148cf003ec43314af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 007/159] fix: unions of version specifiers with a blacklist,
 and unions that merge into a single segment

---
 .../pkm/api/versions/version_specifiers.py    | 41 ++++++++-----------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 3ec0079..ba7d2e2 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -207,7 +207,7 @@ class VersionsUnion(VersionSpecifier):
             return other.union_with(self)
 
         new_segments = [*self.segments]
-        other_segments = other.segments if isinstance(other, VersionsUnion) else [other]
+        other_segments = [*other.segments] if isinstance(other, VersionsUnion) else [other]
 
         while other_segments:
             os = other_segments.pop()
@@ -224,7 +224,7 @@ class VersionsUnion(VersionSpecifier):
             else:
                 new_segments.append(os)
 
-        return VersionsUnion(new_segments)
+        return VersionsUnion(new_segments) if len(new_segments) > 1 else new_segments[0]
 
     def intersect_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_AllowAll, _RestrictAll)):
@@ -263,27 +263,20 @@ class HetroVersionIntersection(VersionSpecifier):
             return other.union_with(self)
 
         if isinstance(other, HetroVersionIntersection):
-            standard_spec = self.standard_spec.union_with(other.standard_spec)
-            if len(other.blacklist.union(self.blacklist)) != len(self.blacklist):
-                return standard_spec
+            blacklist = {it for it in self.blacklist if not other.allows_version(it)}
+            blacklist.update(it for it in other.blacklist if not self.allows_version(it))
+            return HetroVersionIntersection.create(blacklist, self.standard_spec.union_with(other.standard_spec))
 
-            return HetroVersionIntersection.create(
-                self.blacklist if len(self.blacklist) < len(other.blacklist) else other.blacklist, standard_spec)
+        if isinstance(other, VersionMatch) and not other.allow:
+            return AllowAllVersions if self.allows_version(other.version) else other
 
-        if isinstance(other, VersionMatch):
-            if isinstance(other.version, StandardVersion) and other.allow:
-                return HetroVersionIntersection.create(self.blacklist, self.standard_spec.union_with(other))
-
-            blacklist = set(self.blacklist)
-            if other.allow:
-                blacklist.remove(other.version)
-            else:
-                blacklist.add(other.version)
+        if isinstance(other, (VersionMatch, StandardVersionRange)):
+            blacklist = {it for it in self.blacklist if not other.allows_version(it)}
+            standard_spec = self.standard_spec
+            if not isinstance(other, VersionMatch) or isinstance(other.version, StandardVersion):
+                standard_spec = standard_spec.union_with(other)
 
-            return HetroVersionIntersection.create(blacklist, self.standard_spec)
-
-        if isinstance(other, StandardVersionRange):
-            return HetroVersionIntersection.create(self.blacklist, self.standard_spec.union_with(other))
+            return HetroVersionIntersection.create(blacklist, standard_spec)
 
         raise UnsupportedOperationException()
 
@@ -314,10 +307,10 @@ class HetroVersionIntersection(VersionSpecifier):
         raise UnsupportedOperationException()
 
     def inverse(self) -> VersionSpecifier:
-        union = [*(VersionMatch(it) for it in self.blacklist)]
-        if self.standard_spec is not AllowAllVersions:
-            union.append(self.standard_spec.inverse())
-        return VersionsUnion(union)
+        result = self.standard_spec.inverse()
+        for it in self.blacklist:
+            result = result.union_with(VersionMatch(it))
+        return result
 
     def __str__(self) -> str:
         result = ", ".join(f"!={it}" for it in self.blacklist)
-- 
2.43.0


From 0f44aca9134cac3c53ef8387ccaa3122157c3c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 008/159] fix: keep the case of urls and arbitrary version
 names in requirements

---
 pkm/src/pkm/api/versions/version.py        |  7 ++++---
 pkm/src/pkm/api/versions/version_parser.py | 23 ++++++++++++++++------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 19390e6..6339240 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -77,9 +77,10 @@ class UrlVersion(Version):
 
     @classmethod
     def parse(cls, txt: str) -> UrlVersion:
-        match = VERSION_URL_RX.match(txt.lower())
+        match = VERSION_URL_RX.match(txt)
         parsed_url = Url.parse(match.group('url'))
-        return cls(match.group('url'), match.group('repo'), parsed_url.scheme)
+        protocol = match.group('repo')
+        return cls(match.group('url'), protocol and protocol.lower(), parsed_url.scheme)
 
 
 @dataclass(frozen=True)
@@ -254,7 +255,7 @@ class StandardVersion(Version):
     @classmethod
     def parse(cls, txt: str) -> "StandardVersion":
         from pkm.api.versions.version_parser import VersionParser
-        return VersionParser(txt.lower()).read_version()
+        return VersionParser(txt).read_version()
 
 
 def _pre_release_order(v: StandardVersion) -> Tuple[str, int]:
diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index ad9290a..831413e 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -1,6 +1,6 @@
 from dataclasses import replace
 from pathlib import Path
-from typing import List, Optional
+from typing import Callable, List, Optional
 
 from pkm.api.versions.version import Version, NamedVersion, StandardVersion, UrlVersion
 from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions, VersionMatch
@@ -11,16 +11,16 @@ def parse_version(version_str: str) -> Version:
     try:
         lowered_vstr = version_str.lower()
         if '://' in lowered_vstr:
-            return UrlVersion.parse(lowered_vstr)
+            return UrlVersion.parse(version_str)
 
-        return VersionParser(lowered_vstr).read_version()
+        return VersionParser(version_str).read_version()
     except ValueError:
         ...
     return NamedVersion(version_str)
 
 
 def parse_specifier(specifier_str: str) -> VersionSpecifier:
-    return VersionParser(specifier_str.lower()).read_specifier()
+    return VersionParser(specifier_str).read_specifier()
 
 
 _PRE_RELEASE_TYPE_NORMALIZER = {
@@ -30,6 +30,17 @@ _PRE_RELEASE_TYPE_NORMALIZER = {
 
 class VersionParser(SimpleParser):
 
+    def __init__(self, text: str, file_name: Optional[str] = None):
+        lowered = text.lower()
+        super().__init__(lowered, file_name)
+        # urls and arbitrary version names are case-sensitive
+        self._cased_text = text if len(text) == len(lowered) else lowered
+
+    def _until_cased(self, predicate: Callable[[int, str], bool]) -> str:
+        position = self.position
+        self.until(predicate)
+        return self._cased_text[position: self.position]
+
     def _match_suffix(self, *names: str) -> Optional[str]:
         position = self.position
         self.match_any('.', '-', '_')
@@ -108,7 +119,7 @@ class VersionParser(SimpleParser):
 
         if self.match('@'):
             self.match_ws()
-            url = self.until(lambda i, s: s[i].isspace())
+            url = self._until_cased(lambda i, s: s[i].isspace())
             if "://" not in url:
                 url = Path(url).resolve().as_uri()
 
@@ -116,7 +127,7 @@ class VersionParser(SimpleParser):
 
         if self.match('==='):
             self.match_ws()
-            version_str = self.until(lambda i, t: t[i].isspace() or t[i] == ',')
+            version_str = self._until_cased(lambda i, t: t[i].isspace() or t[i] == ',')
             return VersionMatch(NamedVersion(version_str))
 
         exclusion_inclusion = self.match_any('==', '!=')
-- 
2.43.0


From 0e90c9a326aed89287f9db167b1ea00e682c0f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 009/159] fix: print version ranges as '~=' only when they are,
 and excluded versions in order

---
 pkm/src/pkm/api/versions/version_specifiers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index ba7d2e2..5b80461 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -313,7 +313,7 @@ class HetroVersionIntersection(VersionSpecifier):
         return result
 
     def __str__(self) -> str:
-        result = ", ".join(f"!={it}" for it in self.blacklist)
+        result = ", ".join(str(VersionMatch(it, False)) for it in sorted(self.blacklist))
         if self.standard_spec is not AllowAllVersions:
             result += f", {self.standard_spec}"
         return result
@@ -529,7 +529,7 @@ class StandardVersionRange(VersionSpecifier):
         if self.includes_min and (not self.includes_max) \
                 and self.min and self.max \
                 and len(smr := self.min.release) > 1 \
-                and self.max.release == (*smr[:-2], smr[-2] + 1, 0):
+                and self.max == StandardVersion((*smr[:-2], smr[-2] + 1, 0), epoch=self.min.epoch):
 
             return f"~={self.min}"
 
-- 
2.43.0


From 92afa275f683b61f629cf63da7ae1ebf69cc9349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 010/159] fix: identify package names as PEP 503 does, and read
 requirement names that start with a digit

---
 pkm/src/pkm/api/dependencies/dependency.py | 2 +-
 pkm/src/pkm/api/packages/package.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index da92f0b..255b129 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -91,7 +91,7 @@ class PEP508DependencyParser(SimpleParser):
         return self.subparser(VersionParser).read_specifier()
 
     def _read_identifier(self) -> str:
-        if (p := self.peek()).isalpha() or p == '_':
+        if (p := self.peek()).isalnum() or p == '_':
             return self.until(lambda i, t: not t[i].isalnum() and t[i] not in '_-.')
         self.raise_err('expecting identifier')
 
diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 7e4c57f..32dce18 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -69,7 +69,7 @@ class PackageDescriptor:
 
     @staticmethod
     def package_name_key(package_name: str) -> str:
-        return PackageDescriptor.normalize_src_package_name(package_name).lower()
+        return re.sub("[-_.]+", '_', PackageDescriptor.normalize_name(package_name)).lower()
 
     @staticmethod
     def normalize_src_package_name(package_name: str) -> str:
-- 
2.43.0


From 224aa744e785a4c6cf527429738ab6b39bc94206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 011/159] fix: read the names of source distributions that
 contain hyphens or local versions

---
 pkm/src/pkm/api/packages/package.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 32dce18..dcc507c 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -103,7 +103,14 @@ class PackageDescriptor:
         :param name: the file name
         :return: the resulted package descriptor
         """
-        parts = name.split("-")
+        for sdist_suffix in ('.tar.gz', '.tar.bz2', '.zip'):
+            if name.endswith(sdist_suffix):
+                # nothing follows the version of a source distribution and its package name may contain hyphens
+                parts = name[:-len(sdist_suffix)].rsplit("-", 1)
+                break
+        else:
+            parts = name.split("-")
+
         version = Version.parse(parts[1])
         return PackageDescriptor(parts[0], version)
 
-- 
2.43.0


From 36dd3fb399fc7e88a1d0b8e881422a9510362e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 012/159] fix: read the dependencies of a local distribution
 from its metadata

---
 pkm/src/pkm/api/distributions/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/distribution.py b/pkm/src/pkm/api/distributions/distribution.py
index 951743c..e950757 100644
--- a/pkm/src/pkm/api/distributions/distribution.py
+++ b/pkm/src/pkm/api/distributions/distribution.py
@@ -88,7 +88,7 @@ class _DistributionPackage(Package, Serializable):
     def dependencies(
             self, target: "PackageInstallationTarget",
             extras: Optional[List[str]] = None) -> List["Dependency"]:
-        return [d for d in self.published_metadata.dependencies if d.is_applicable_for(target.env, extras)]
+        return [d for d in self._metadata(target.env).dependencies if d.is_applicable_for(target.env, extras)]
 
     def is_compatible_with(self, env: "Environment") -> bool:
         from pkm.api.distributions.wheel_distribution import WheelDistribution
-- 
2.43.0


From 5c421ab144e8af1e27477c0e905c65a9e550d7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 013/159] fix: find packages of file system repositories by any
 spelling of their names

---
 pkm/src/pkm/repositories/file_system_repository.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/repositories/file_system_repository.py b/pkm/src/pkm/repositories/file_system_repository.py
index 55a5b08..5fdec5d 100644
--- a/pkm/src/pkm/repositories/file_system_repository.py
+++ b/pkm/src/pkm/repositories/file_system_repository.py
@@ -22,7 +22,7 @@ class PackagesDictRepository(AbstractRepository):
         self._packages = packages
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
-        all_packages = self._packages.get(dependency.package_name) or []
+        all_packages = self._packages.get(dependency.package_name_key) or []
         return self._sorted_by_version([p for p in all_packages if dependency.version_spec.allows_version(p.version)])
 
 
@@ -40,21 +40,21 @@ class FileSystemRepositoryBuilder(RepositoryBuilder):
             if ProjectGroup.is_valid(path):
                 project_group = ProjectGroup.load(path)
                 for project in project_group.project_children_recursive:
-                    packages[project.name].append(project)
+                    packages[project.name_key].append(project)
             else:
                 try:
                     project = Project.load(path)
-                    packages[project.name].append(project)
+                    packages[project.name_key].append(project)
                 except MalformedPackageException:
                     pass
 
             for dist in path.iterdir():
                 if _is_distribution(dist):
                     package = Distribution.package_from(dist)
-                    packages[package.name].append(package)
+                    packages[package.name_key].append(package)
         elif _is_distribution(path):
             package = Distribution.package_from(path)
-            packages[package.name].append(package)
+            packages[package.name_key].append(package)
 
         return PackagesDictRepository(name, packages)
 
-- 
2.43.0


From 6e679e8ce862cb8a1eb25b43cc5b76a8b72f4a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 014/159] fix: separate the url of a printed requirement from
 its marker

---
 pkm/src/pkm/api/dependencies/dependency.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index 255b129..d7440ee 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -59,6 +59,8 @@ class Dependency:
         version_str = "" if self.version_spec is AllowAllVersions else f" {str(self.version_spec)}"
 
         marker_str = f";{self.env_marker}" if self.env_marker else ''
+        if marker_str and self.required_url():
+            marker_str = ' ' + marker_str  # otherwise, the marker is read as a part of the url
 
         return f"{self.package_name}{extras_str}{version_str}{marker_str}"
 
-- 
2.43.0


From a0e3fcb82b657c6ea21e5192eefa01435eb7d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 015/159] fix: evaluate environment markers with '===', with
 the letter J and with values that are not versions

---
 pkm/src/pkm/api/dependencies/env_markers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 8c98a18..037c63d 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -1,6 +1,6 @@
 from typing import Callable, Optional, List, Sequence, TYPE_CHECKING
 
-from pkm.api.versions.version import Version
+from pkm.api.versions.version import StandardVersion
 from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.utils.parsers import SimpleParser
 
@@ -33,7 +33,7 @@ class EnvironmentMarker:
 
 
 _MARKER_STR_CHARS = set(
-    ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIZKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
+    ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
 
 
 class PEP508EnvMarkerParser(SimpleParser):
@@ -64,7 +64,7 @@ class PEP508EnvMarkerParser(SimpleParser):
             return lambda e, x: e.markers[v_ident]
 
     def _read_marker_op(self) -> _MARKER_OP_T:
-        version_or_string_op = self.match_any("<=", "<", ">=", ">", "!=", "==", "===", "~=")
+        version_or_string_op = self.match_any("<=", "<", ">=", ">", "!=", "===", "==", "~=")
         if version_or_string_op:
             def _op(a: Sequence[str], b: Sequence[str]) -> bool:
 
@@ -74,8 +74,11 @@ class PEP508EnvMarkerParser(SimpleParser):
                     elif isinstance(b, _EXTRAS_COLLECTION_T):
                         return a in b
 
+                if version_or_string_op == '===':
+                    return str(a) == str(b)
+
                 try:
-                    a_ver = Version.parse(str(a))
+                    a_ver = StandardVersion.parse(str(a))
                     spec = VersionSpecifier.parse(f"{version_or_string_op} {b}")
                     return spec.allows_version(a_ver)
                 except ValueError:
-- 
2.43.0


From b2afc5ec4c9542593b048f0a0ba13107e9d53f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:32 +0000
Subject: [PATCH 016/159] fix: bumping to a pre release of a final or later pre
 version goes up, unknown particles are refused

---
 pkm/src/pkm/api/versions/version.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 6339240..3ededbe 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -176,19 +176,19 @@ class StandardVersion(Version):
                 return None
 
         def bump_pre_release(v: StandardVersion, p: str) -> Optional[Version]:
+            if p not in ('a', 'b', 'rc'):
+                return None
+
             pre_release = v.pre_release
-            if pre_release:
-                if pre_release[0] > p:
-                    v = bump_release(v, 'patch')
-                    pre_release = None
-                elif pre_release[0] < p:
-                    pre_release = (p, 0)
-                else:
-                    pre_release = (p, pre_release[1] + 1)
-            else:
+            if pre_release is None or pre_release[0] > p:
+                # the pre releases of this release come before this version
+                v, pre_release = bump_release(v, 'patch'), (p, 0)
+            elif pre_release[0] < p:
                 pre_release = (p, 0)
+            else:
+                pre_release = (p, pre_release[1] + 1)
 
-            return replace(v, pre_release=pre_release)
+            return replace(v, pre_release=pre_release, post_release=None, dev_release=None, local_label=None)
 
         new_version = bump_release(version, particle) or bump_pre_release(version, particle)
         if not new_version:
-- 
2.43.0


From 472d785ddc26e6be30e27ab14c2e5a9f46035afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:53 +0000
Subject: [PATCH 017/159] fix: score wheel tags of musl systems, and musllinux
 tags

---
 pkm/src/pkm/api/environments/environment_introspection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 124eb5a..9c687c3 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -294,7 +294,7 @@ class EnvironmentIntrospection:
             my_glibc_version = None
             my_musl_version = None
             if (elf := _ElfData.read(Path(self.interpreter_path))) and elf.have_compatible_abi(my_arch):
-                my_glibc_version = self._glibc_version.release[:2]
+                my_glibc_version = self._glibc_version and self._glibc_version.release[:2]
                 my_musl_version = elf.compute_musl_version()
 
             def linux_score(plt: str) -> Optional[Tuple]:
@@ -316,7 +316,7 @@ class EnvironmentIntrospection:
                     return None
 
                 if my_musl_version is not None and plt_no_arch.startswith("musllinux_"):
-                    musl_ver = tuple(int(it) for it in plt_no_arch.split("_"))[1:3]
+                    musl_ver = tuple(int(it) for it in plt_no_arch.split("_")[1:3])
                     if len(musl_ver) != 2 or musl_ver[0] != my_musl_version[0] or musl_ver[1] > my_musl_version[1]:
                         return None
                     return (1, *vdscore(my_musl_version, musl_ver))
-- 
2.43.0


From 1627b824a49848051354bdbe1f4fc68f1686d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 018/159] fix: abi tags of pypy, and native wheels of another
 word size than the interpreter

---
 pkm/src/pkm/api/environments/environment_introspection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 9c687c3..b210fa4 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -182,6 +182,8 @@ class EnvironmentIntrospection:
 
     def _compute_generic_abis(self) -> Iterator[str]:
         if abi := self._data['sysconfig']['vars'].get("SOABI"):
+            if abi.startswith('pypy'):
+                abi = '-'.join(abi.split('-')[:2])  # the rest is the platform, which is not part of pypy's abi tag
             yield _normalize_string(abi)
 
     @property
@@ -289,6 +291,7 @@ class EnvironmentIntrospection:
                 elif my_platform == "linux_aarch64":
                     my_linux = "linux_armv7l"
 
+            my_platform = my_linux  # a 32 bit interpreter cannot load 64 bit binaries
             _, my_arch = my_linux.split("_", 1)
 
             my_glibc_version = None
-- 
2.43.0


From 47208a13e99813d33376e2d6b0b88aa2bb1db6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 019/159] fix: a tag of an unknown form in a compressed tag set
 does not hide the compatible ones

---
 pkm/src/pkm/api/environments/environment_introspection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index b210fa4..009479e 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -154,7 +154,10 @@ class EnvironmentIntrospection:
             for interpreter in interpreters.split("."):
                 for abi in abis.split("."):
                     for platform_ in platforms.split("."):
-                        score = self._compatibility_tag_scorer(interpreter, abi, platform_)
+                        try:
+                            score = self._compatibility_tag_scorer(interpreter, abi, platform_)
+                        except ValueError:  # a tag of an unknown form, the others may still be compatible
+                            continue
 
                         if score is not None and (max_score is None or max_score < score):
                             max_score = score
-- 
2.43.0


From e51bf89d8bc0ab4198b4505abcc921217d835adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 020/159] fix: conflict resolution excludes only what the
 conflicting assignment itself ruled out

---
 pkm/src/pkm/resolution/pubgrub.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index d877a77..f1e0673 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -668,8 +668,7 @@ class Solver(Generic[PKG_T]):
             if not satisfier.term.satisfies(term.constraint) or not prior_cause_terms:
                 prior_cause_terms.add(
                     Term(satisfier.term.package,
-                         # satisfier.term.constraint.difference_from(term.constraint).inverse()))
-                         satisfier.accumulated.difference_from(term.constraint).inverse()))
+                         satisfier.term.constraint.difference_from(term.constraint).inverse()))
 
             prev_incompatibility = incompatibility
             incompatibility = Incompatibility.create(
-- 
2.43.0


From b3a775e937dc3bcae72945f8995a228fd08debca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 021/159] fix: compare version specifiers of different forms,
 and the intersection of a version with its exclusion is empty

---
 pkm/src/pkm/api/versions/version_specifiers.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 5b80461..e0ef635 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -14,7 +14,13 @@ from pkm.utils.seqs import seq
 class VersionSpecifier(ABC):
 
     def allows_all(self, other: VersionSpecifier) -> bool:
-        return self.intersect_with(other) == other
+        if self.intersect_with(other) == other:
+            return True
+        if isinstance(other, VersionMatch) and other.allow:
+            return False
+
+        # the same versions may be described in more than one form (<2 and <=2, !=2)
+        return other.difference_from(self) is RestrictAllVersions
 
     def allows_any(self, other: VersionSpecifier) -> bool:
         return self.intersect_with(other) is not RestrictAllVersions
@@ -343,6 +349,13 @@ class HetroVersionIntersection(VersionSpecifier):
 
     @classmethod
     def create(cls, blacklist: Set[Version], standard_spec: VersionSpecifier) -> VersionSpecifier:
+        segments = standard_spec.segments if isinstance(standard_spec, VersionsUnion) else [standard_spec]
+        segments = [it for it in segments if not (
+                isinstance(it, VersionMatch) and it.allow and
+                any(not VersionMatch(black, False).allows_version(it.version) for black in blacklist))]
+        if len(segments) == 0:
+            return RestrictAllVersions
+        standard_spec = VersionsUnion(segments) if len(segments) > 1 else segments[0]
         blacklist = {it for it in blacklist if not isinstance(it, StandardVersion) or standard_spec.allows_version(it)}
 
         if standard_spec is RestrictAllVersions:
-- 
2.43.0


From f4f6fe5b0d76bcbcae21ce01adb483fa8649aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 022/159] fix: do not change incompatibilities that assignments
 were derived from

---
 pkm/src/pkm/resolution/pubgrub.py | 47 ++++++++-----------------------
 1 file changed, 12 insertions(+), 35 deletions(-)

diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index f1e0673..30c610f 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import warnings
 from abc import ABC, abstractmethod
 from collections import defaultdict, Counter
-from dataclasses import dataclass, replace
+from dataclasses import dataclass
 from itertools import chain
 from typing import List, Dict, Iterable, Tuple, Optional, cast, DefaultDict, Union, Any, TypeVar, Protocol, Generic, Set
 
@@ -427,11 +427,6 @@ class Incompatibility:
         sorted_terms = sorted(normalized_terms, key=lambda x: str(x.package))
         return cls(tuple(sorted_terms), internal_cause, external_cause)
 
-    def update_inavailability(self, new_constraint: VersionSpecifier):
-        assert len(self.terms) == 1, 'attempting to update terms for non inavailability incompatability'
-        self.terms = (replace(self.terms[0], constraint=new_constraint),)
-        self.external_cause = f'Compatible version for {self.terms[0]} not found'
-
 
 class DependencyIncompatibility(Incompatibility):
     def __init__(self, dependant: Term, dependency: Term):
@@ -454,15 +449,6 @@ class DependencyIncompatibility(Incompatibility):
 
         return IncompatibilitySatisfaction.create_unsatisfied(self)
 
-    def update_dependant(self, new_dependant: Term):
-        package = str(new_dependant.package)
-        assert package == str(self.dependant.package), \
-            "attempting to update dependency incompatibility with a term that does not belongs to it"
-
-        self.dependant = new_dependant
-        self.terms = tuple(sorted([self.dependency.negate(), new_dependant], key=lambda x: str(x.package)))
-        self.external_cause = f"{new_dependant} depends on {self.dependency}"
-
 
 @dataclass
 class _PackageVersion:
@@ -500,17 +486,14 @@ class _PackageVersion:
 
                 last_requiring = nxt
 
+            effective_range = self.effective_constraint_range
             if last_requiring is not self:
-                incompatibility = last_requiring.dependencies[dependency.term.package].incompatibility
-                if incompatibility:
-                    result.append(incompatibility)
-                    incompatibility.update_dependant(
-                        Term(self.term.package,
-                             incompatibility.dependant.constraint.union_with(self.effective_constraint_range)))
-                    continue
-
-            nt = Term(self.term.package, self.effective_constraint_range)
-            dependency.incompatibility = DependencyIncompatibility(nt, dependency.term)
+                if incompatibility := last_requiring.dependencies[dependency.term.package].incompatibility:
+                    # assignments may have been derived from the existing incompatibility: leave it as is
+                    effective_range = incompatibility.dependant.constraint.union_with(effective_range)
+
+            dependency.incompatibility = DependencyIncompatibility(
+                Term(self.term.package, effective_range), dependency.term)
             result.append(dependency.incompatibility)
 
         return result
@@ -564,7 +547,6 @@ class Solver(Generic[PKG_T]):
         self._problem = problem
         self._solution = PartialSolution(root_package)
         self._package_versions: Dict[PKG, List[_PackageVersion]] = {}
-        self._package_availability_incompatibilities: Dict[PKG, Incompatibility] = {}
         self._package_trouble_level: Counter[PKG] = Counter()
 
         # incompatibilities by package
@@ -781,15 +763,10 @@ class Solver(Generic[PKG_T]):
             if not versions:
                 acc_assignment = self._solution.assignments_by_package[package][-1].accumulated
 
-                if ic := self._package_availability_incompatibilities.get(package):
-                    ic.update_inavailability(ic.terms[0].constraint.union_with(acc_assignment))
-                else:
-                    # print(f"could not find version that match {acc_assignment}")
-                    ic = Incompatibility.create(
-                        [Term(package, acc_assignment)],
-                        external_cause=f'Compatible version for [{package} {acc_assignment}] not found')
-                    self._package_availability_incompatibilities[package] = ic
-                    self._add_incompatibility(ic)
+                # print(f"could not find version that match {acc_assignment}")
+                self._add_incompatibility(Incompatibility.create(
+                    [Term(package, acc_assignment)],
+                    external_cause=f'Compatible version for [{package} {acc_assignment}] not found'))
                 return package
 
             version = versions.pop(0)
-- 
2.43.0


From 20695324061a7e2d16fd2529372822613b6144ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 023/159] fix: resolution tells a package that must be absent
 from one without versions, and handles packages that depend on themselves

---
 pkm/src/pkm/resolution/pubgrub.py | 107 ++++++++++++------------------
 1 file changed, 42 insertions(+), 65 deletions(-)

diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index 30c610f..492aeaa 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -43,17 +43,25 @@ class MalformedPackageException(Exception):
 class Term:
     package: PKG
     constraint: VersionSpecifier
+    # if True, the term also holds when the package is not part of the solution at all
+    or_absent: bool = False
 
     def negate(self) -> "Term":
-        return Term(self.package, self.constraint.inverse())
+        return Term(self.package, self.constraint.inverse(), not self.or_absent)
 
     def intersect(self, other: "Term") -> "Term":
         assert self.package == other.package, 'cannot intersect terms of different packages'
-        return Term(self.package, self.constraint.intersect_with(other.constraint))
+        return Term(
+            self.package, self.constraint.intersect_with(other.constraint), self.or_absent and other.or_absent)
 
-    def satisfies(self, constraint: VersionSpecifier) -> bool:
-        """self ⊆ term"""
-        return constraint.allows_all(self.constraint)
+    def satisfies(self, other: "Term") -> bool:
+        """self ⊆ other"""
+        return (other.or_absent or not self.or_absent) and (
+                self.constraint is RestrictAllVersions or other.constraint.allows_all(self.constraint))
+
+    def overlaps(self, other: "Term") -> bool:
+        """self ∩ other ≠ ∅"""
+        return (self.or_absent and other.or_absent) or self.constraint.allows_any(other.constraint)
 
     @classmethod
     def join(cls, package: PKG, terms: Iterable["Term"]) -> "Term":
@@ -63,18 +71,11 @@ class Term:
         if not first_term:
             return Term.create(package, "*")
 
-        next_term = next(terms_iter, None)
-        if not next_term:
-            return first_term
-
-        package = first_term.package
-        constraint = first_term.constraint
-
-        while next_term is not None:
-            constraint = constraint.intersect_with(next_term.constraint)
-            next_term = next(terms_iter, None)
+        result = first_term
+        for term in terms_iter:
+            result = result.intersect(term)
 
-        return cls(package, constraint)
+        return result
 
     def __repr__(self):
         return f"[{self.package} {self.constraint}]"
@@ -90,7 +91,11 @@ class Assignment:
     decision_level: int
     order_index: int
     cause: Optional["Incompatibility"]
-    accumulated: VersionSpecifier
+    accumulated_term: Term
+
+    @property
+    def accumulated(self) -> VersionSpecifier:
+        return self.accumulated_term.constraint
 
     def is_decision(self) -> bool:
         return self.cause is None
@@ -127,13 +132,6 @@ class PartialSolution:
     def _decision_level(self) -> int:
         return max(0, len(self._decisions) - 1)
 
-    def requiering_decision(self, package: PKG):
-        decision_level = self._required_packages[package]
-        result = next((acc for acc in self._decisions.values() if acc.decision_level == decision_level), None)
-        assert result, f"requiring decision could not be found for package {package} " \
-                       f"- no decider for level {decision_level}"
-        return result
-
     def backtrack(self, decision_level: int):
         # print(f"backtrack to decision_level: {decision_level}")
 
@@ -172,16 +170,16 @@ class PartialSolution:
     def make_assignment(self, assignment_value: Term, cause: Optional["Incompatibility"] = None):
         package_assignments = self.assignments_by_package[assignment_value.package]
 
-        accumulated_constraint = assignment_value.constraint
+        accumulated_term = assignment_value
         if package_assignments:
-            accumulated_constraint = package_assignments[-1].accumulated.intersect_with(accumulated_constraint)
+            accumulated_term = package_assignments[-1].accumulated_term.intersect(accumulated_term)
 
         dlevel = self._decision_level
 
         if cause is None and assignment_value.package != self._root_package:
             dlevel += 1
 
-        return Assignment(assignment_value, dlevel, len(self._assignments_by_order), cause, accumulated_constraint)
+        return Assignment(assignment_value, dlevel, len(self._assignments_by_order), cause, accumulated_term)
 
     def assign(self, assignment_value: Union[Term, Assignment], cause: Optional["Incompatibility"] = None):
         assignment = self.make_assignment(assignment_value, cause) \
@@ -230,16 +228,15 @@ class IncompatibilitySatisfaction:
     ) -> Optional[Assignment]:
 
         if package_assignments := solution.assignments_by_package[term.package]:
-            if term.constraint.allows_all(package_assignments[-1].accumulated):
+            if package_assignments[-1].accumulated_term.satisfies(term):
                 for assignment in package_assignments:
                     if assignment is next_satisfier:
                         return None
 
-                    acc = assignment.accumulated
+                    acc = assignment.accumulated_term
                     if next_satisfier:
-                        if term.constraint.allows_all(acc.intersect_with(next_satisfier.term.constraint)):
-                            return assignment
-                    elif term.constraint.allows_all(acc):
+                        acc = acc.intersect(next_satisfier.term)
+                    if acc.satisfies(term):
                         return assignment
         return None
 
@@ -259,9 +256,6 @@ class IncompatibilitySatisfaction:
         satisfier = satisfiers.pop(satisfier_index)
 
         for term in incompatibility.terms:
-            if solution.requires(term.package):
-                satisfiers.append(solution.requiering_decision(term.package))
-
             if term.package == satisfier.term.package:
                 if prev_satisfier := cls.find_satisfier(solution, term, satisfier):
                     satisfiers.append(prev_satisfier)
@@ -293,19 +287,13 @@ class Incompatibility:
         return next((term for term in self.terms if term.package == package), None)
 
     def check_satisfaction(self, solution: "PartialSolution") -> IncompatibilitySatisfaction:
-        assignments = solution.assignments_by_package
         undecided_term: Optional[Term] = None
         satisfiers: List[Assignment] = []
 
-        for term in self.terms:
-            package_assignments = assignments[term.package]
-            if package_assignments and package_assignments[-1].accumulated is RestrictAllVersions:
-                return IncompatibilitySatisfaction.create_unsatisfied(self)
-
         for term in self.terms:
             satisfier = IncompatibilitySatisfaction.find_satisfier(solution, term)
             if not satisfier and (assignments := solution.assignments_by_package[term.package]) \
-                    and not assignments[-1].accumulated.allows_any(term.constraint):
+                    and not assignments[-1].accumulated_term.overlaps(term):
                 return IncompatibilitySatisfaction.create_unsatisfied(self)
 
             if not satisfier:
@@ -424,31 +412,24 @@ class Incompatibility:
         normalized_terms = [Term.join(package, terms)
                             for package, terms in grouped_terms.items()]
 
-        sorted_terms = sorted(normalized_terms, key=lambda x: str(x.package))
+        # terms that always hold do not add anything to the incompatibility
+        restricting_terms = [it for it in normalized_terms
+                             if not (it.or_absent and it.constraint is AllowAllVersions)]
+
+        sorted_terms = sorted(restricting_terms, key=lambda x: str(x.package))
         return cls(tuple(sorted_terms), internal_cause, external_cause)
 
 
 class DependencyIncompatibility(Incompatibility):
     def __init__(self, dependant: Term, dependency: Term):
         super().__init__(
-            tuple(sorted([dependency.negate(), dependant], key=lambda x: str(x.package))), None,
+            Incompatibility.create([dependency.negate(), dependant]).terms, None,
             f"{dependant} depends on {dependency}")
 
         self.dependant = dependant
         self.dependency = dependency
         self.added = False
 
-    def check_satisfaction(self, solution: "PartialSolution") -> IncompatibilitySatisfaction:
-        if dependant_assignments := solution.assignments_by_package[self.dependant.package]:
-            dependant_assignment = dependant_assignments[-1]
-            acc = dependant_assignment.accumulated
-
-            if acc.allows_any(self.dependant.constraint) or \
-                    (acc is not RestrictAllVersions and self.dependant.constraint.allows_all(acc)):
-                return super().check_satisfaction(solution)
-
-        return IncompatibilitySatisfaction.create_unsatisfied(self)
-
 
 @dataclass
 class _PackageVersion:
@@ -647,20 +628,13 @@ class Solver(Generic[PKG_T]):
                 if term.package != satisfier.term.package}
 
             assert satisfier.cause != incompatibility  # this massup the error reporting...
-            if not satisfier.term.satisfies(term.constraint) or not prior_cause_terms:
-                prior_cause_terms.add(
-                    Term(satisfier.term.package,
-                         satisfier.term.constraint.difference_from(term.constraint).inverse()))
+            if not satisfier.term.satisfies(term):
+                prior_cause_terms.add(satisfier.term.intersect(term.negate()).negate())
 
             prev_incompatibility = incompatibility
             incompatibility = Incompatibility.create(
                 list(prior_cause_terms), internal_cause=(satisfier.cause, incompatibility))
 
-            if len(prior_cause_terms) == 0:
-                self._solution.backtrack(0)
-                self._solution.assign(Term(term.package, RestrictAllVersions), cause=incompatibility)
-                return term.package
-
             # print(f"root cause: {incompatibility}")
 
             if not self._is_tautology(incompatibility):
@@ -705,7 +679,10 @@ class Solver(Generic[PKG_T]):
 
         minor_adjustment_dlevel = -1
         for conflict in conflicts:
-            dependency: Term = find_first(conflict.terms, lambda it: it.package != package)
+            dependency: Optional[Term] = find_first(conflict.terms, lambda it: it.package != package)
+            if dependency is None:
+                return False  # the package conflicts with itself, no adjustment can help
+
             dependency_assignments = self._solution.assignments_by_package[dependency.package]
             dependency_requirement = dependency.constraint.inverse()
             if len(dependency_assignments) > 1 and dependency_assignments[-1].is_decision():
-- 
2.43.0


From 887387dc0796961ccd0e8427680d11591680f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 024/159] fix: resolve the spellings of a package name as one
 package, and overrides given under any spelling

---
 pkm/src/pkm/resolution/dependency_resolver.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/resolution/dependency_resolver.py b/pkm/src/pkm/resolution/dependency_resolver.py
index 02e58b8..4f38209 100644
--- a/pkm/src/pkm/resolution/dependency_resolver.py
+++ b/pkm/src/pkm/resolution/dependency_resolver.py
@@ -55,7 +55,9 @@ class _PkmPackageInstallationProblem(Problem):
         self._target = target
         self._repo = repo
         self._root = root
-        self._dependency_overrides = dependency_overrides or {}
+        self._dependency_overrides = {
+            PackageDescriptor.package_name_key(name): dependency
+            for name, dependency in (dependency_overrides or {}).items()}
 
         from pkm.api.pkm import pkm
         self._threads = pkm.threads
@@ -91,7 +93,7 @@ class _PkmPackageInstallationProblem(Problem):
 
         for d in dependencies:
             if d.is_applicable_for(self._target.env, package.extras):
-                if o := self._dependency_overrides.get(d.package_name):
+                if o := self._dependency_overrides.get(d.package_name_key):
                     result.append(Term(_Pkg.of(o), o.version_spec))
                 else:
                     result.append(Term(_Pkg.of(d), d.version_spec))
@@ -104,8 +106,8 @@ class _PkmPackageInstallationProblem(Problem):
         # make versions unique
         packages = list({p.version: p for p in all_packages if p.is_compatible_with(self._target.env)}.values())
 
-        for package in packages:
-            self.opened_packages[replace(package.descriptor, name=package.descriptor.name.lower())] = package
+        for p in packages:
+            self.opened_packages[PackageDescriptor(package.name, p.version)] = p
 
         return cast(List[StandardVersion], [p.version for p in packages if isinstance(p.version, StandardVersion)])
 
@@ -139,4 +141,4 @@ class _Pkg:
 
     @classmethod
     def of(cls, d: Dependency) -> _Pkg:
-        return _Pkg(d.package_name.lower(), d.extras)
+        return _Pkg(d.package_name_key.replace('_', '-'), d.extras or None)
-- 
2.43.0


From ebd8ebd4aa3fe49430f0660022daf5cb8abe54bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 025/159] fix: all the requirements of a package on another one
 count, not only the last

---
 pkm/src/pkm/resolution/pubgrub.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index 492aeaa..8af8eff 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -446,9 +446,11 @@ class _PackageVersion:
     def fetch_dependencies_info(self, problem: Problem):
         if not self.dependencies:
             version_dependencies = problem.get_dependencies(self.term.package, self.version)
-            self.dependencies = {
-                d.package: PackageDependency(d)
-                for d in version_dependencies}
+            requirements: Dict[PKG, Term] = {}
+            for d in version_dependencies:  # a package may be required more than once, all its requirements count
+                requirements[d.package] = requirements[d.package].intersect(d) if d.package in requirements else d
+
+            self.dependencies = {package: PackageDependency(term) for package, term in requirements.items()}
 
     def compute_incompatibilities(self) -> List[Incompatibility]:
         result: List[Incompatibility] = []
-- 
2.43.0


From 453ccf65228940fe83c2193e611ce4f6977b26f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 026/159] fix: open packages that are required by an arbitrary
 version name

---
 pkm/src/pkm/resolution/dependency_resolver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/resolution/dependency_resolver.py b/pkm/src/pkm/resolution/dependency_resolver.py
index 4f38209..9be2042 100644
--- a/pkm/src/pkm/resolution/dependency_resolver.py
+++ b/pkm/src/pkm/resolution/dependency_resolver.py
@@ -5,7 +5,7 @@ from typing import List, Dict, Optional, TYPE_CHECKING, cast
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.packages.package import PackageDescriptor, Package
-from pkm.api.versions.version import Version, UrlVersion, StandardVersion
+from pkm.api.versions.version import Version, StandardVersion
 from pkm.api.versions.version_specifiers import VersionMatch
 from pkm.build.external_builders import BuildError
 from pkm.resolution.pubgrub import Problem, MalformedPackageException, Term, Solver
@@ -73,9 +73,9 @@ class _PkmPackageInstallationProblem(Problem):
         descriptor = PackageDescriptor(package.name, version)
 
         try:
-            if isinstance(version, UrlVersion) and descriptor not in self.opened_packages:
-                self.opened_packages[descriptor] = single_or_raise(
-                    self._repo.match(f"{package} @ {version}", self._target.env))
+            if not isinstance(version, StandardVersion) and descriptor not in self.opened_packages:
+                self.opened_packages[descriptor] = single_or_raise(self._repo.match(
+                    Dependency(package.name, VersionMatch(version), package.extras), self._target.env))
 
             dependencies = self.opened_packages[descriptor].dependencies(self._target, package.extras)
 
-- 
2.43.0


From 6f78a6c6e2ac5d89ec33b07b2771b3c220833cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 027/159] fix: dependency overrides hold also when preinstalled
 packages have to be updated

---
 pkm/src/pkm/api/packages/package_installation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 84b9aa3..6ed9063 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -187,7 +187,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
             installation_repo = _InstallationRepository(
                 repository, preinstalled_packages, user_request, unspecified_spec_packages, False)
             installation = resolve_dependencies(
-                user_request.to_dependency(), self, installation_repo)
+                user_request.to_dependency(), self, installation_repo, dependencies_override)
 
         user_requests = {**pre_requested_deps}
         if user_requested:
-- 
2.43.0


From b03bf7743eaffb14016ca446c1d82fd0330a9437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 028/159] fix: find the packages to update under any spelling,
 and keep what the user requested when updating

---
 pkm/src/pkm/api/packages/package_installation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 6ed9063..27277bd 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -146,9 +146,10 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
 
         self.reload()
 
-        updates = set(updates or ())
-        preinstalled_packages = [p for p in self.site_packages.installed_packages() if p.name_key not in updates]
-        pre_requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
+        updates = {PackageDescriptor.package_name_key(name) for name in updates or ()}
+        installed_packages = list(self.site_packages.installed_packages())
+        preinstalled_packages = [p for p in installed_packages if p.name_key not in updates]
+        pre_requested_deps = {p.name_key: p.user_request for p in installed_packages if p.user_request}
         unspecified_spec_packages = \
             unspecified_spec_packages or [
                 d.package_name_key
@@ -165,7 +166,8 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         try:
             # first we try the fast path: only adding packages without updating
             # but requiring latest matching versions of new user requested packages
-            user_request = _UserRequestPackage(list(new_deps.values()))
+            # (when packages are updated, what was requested before should still work with the updated packages)
+            user_request = _UserRequestPackage(list((all_deps if updates else new_deps).values()))
             installation_repo = _InstallationRepository(
                 repository, preinstalled_packages, user_request, unspecified_spec_packages, True)
 
@@ -173,7 +175,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
                 user_request.to_dependency(), self, installation_repo, dependencies_override)
 
             installation_names = {i.name_key for i in installation}
-            for preinstalled in preinstalled_packages:
+            for preinstalled in installed_packages:
                 if preinstalled.name_key not in installation_names:
                     installation.append(preinstalled)
 
-- 
2.43.0


From cba2a17559b4e593076c8252ac549ab707be7963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 029/159] fix: report packages that are not found as such, not
 as an empty max()

---
 pkm/src/pkm/api/packages/package_installation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 27277bd..5bd109f 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -441,7 +441,7 @@ class _InstallationRepository(Repository, ABC):
         packages = self._repo.match(dependency, env)
         if installed:
             packages.sort(key=lambda it: 0 if installed.version == it.version else 1)
-        elif self._fast_plan_mode and dependency.package_name_key in self._unspecified_spec_packages:
+        elif packages and self._fast_plan_mode and dependency.package_name_key in self._unspecified_spec_packages:
             max_version_package = max(packages, key=lambda it: it.version)
             if not isinstance(max_version_package.version, StandardVersion):
                 unspecified_limit = VersionMatch(max_version_package.version)
-- 
2.43.0


From d97a7d6e412f3f150115b51a8534fbb192c22b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 030/159] fix: apply store modes to packages under any spelling
 of their names

---
 pkm/src/pkm/api/packages/package_installation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 5bd109f..d609288 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -107,7 +107,8 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         plan = self.plan_installation(
             dependencies, repository, user_requested, dependencies_override, updates
         )
-        plan.store_modes = store_mode
+        plan.store_modes = {
+            PackageDescriptor.package_name_key(name): mode for name, mode in (store_mode or {}).items()}
         plan.execute()
 
     def force_remove(self, package: str) -> bool:
-- 
2.43.0


From a31a86a9f8b15ae4e379a21fc8cbb74103aa918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 031/159] fix: install by all the given dependencies on a
 package that are applicable, not by the last one

---
 pkm/src/pkm/api/packages/package_installation.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index d609288..9db50ce 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -151,14 +151,20 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         installed_packages = list(self.site_packages.installed_packages())
         preinstalled_packages = [p for p in installed_packages if p.name_key not in updates]
         pre_requested_deps = {p.name_key: p.user_request for p in installed_packages if p.user_request}
+
+        new_deps: Dict[str, Dependency] = {}
+        for d in dependencies:
+            if d.is_applicable_for(self.env, []):
+                same_package = new_deps.get(d.package_name_key)
+                new_deps[d.package_name_key] = _both_dependencies(same_package, d) if same_package else d
+
         unspecified_spec_packages = \
             unspecified_spec_packages or [
                 d.package_name_key
-                for d in dependencies if d.version_spec is AllowAllVersions]
+                for d in new_deps.values() if d.version_spec is AllowAllVersions]
 
         unspecified_spec_packages = set(unspecified_spec_packages)
 
-        new_deps = {d.package_name_key: d for d in dependencies}
         all_deps = {**pre_requested_deps, **new_deps}
 
         run_slow_path = False
@@ -199,6 +205,11 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         return InstallationPlan(self, installation, user_requests)
 
 
+def _both_dependencies(d1: Dependency, d2: Dependency) -> Dependency:
+    extras = list(dict.fromkeys([*(d1.extras or ()), *(d2.extras or ())]))
+    return Dependency(d1.package_name, d1.version_spec.intersect_with(d2.version_spec), extras or None)
+
+
 class PackageOperation(Enum):
     INSTALL = "install"
     UPDATE = "update"
-- 
2.43.0


From fe933d6c0363970fc793f62a816eca9d56357b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 032/159] fix: a package that is requested from a url is
 installed from there, also when it is installed already

---
 pkm/src/pkm/api/packages/package_installation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 9db50ce..5b4a12c 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -256,11 +256,13 @@ class InstallationPlan:
                     new_user_request = self.user_requests.get(preinstalled_package.name_key)
                     user_request_matching = \
                         (not new_user_request) or preinstalled_package.user_request == new_user_request
+                    from_new_url = not user_request_matching and new_user_request.required_url() \
+                        and package_to_install is not preinstalled_package
 
                     if store_mode_matching and user_request_matching:
                         operations[package_to_install] = PackageOperation.SKIP
                         continue
-                    if store_mode_matching and not user_request_matching:
+                    if store_mode_matching and not user_request_matching and not from_new_url:
                         # note that i am attaching the operation to the preinstalled package instead of the real package
                         # this is for performance reasons - no need to really reinstall the package, only change the
                         # user request flag
@@ -447,7 +449,8 @@ class _InstallationRepository(Repository, ABC):
 
         if installed := self._installed_packages.get(dependency.package_name_key):
             # installed = _UpdatableInstalledPackage(installed, self._repo)
-            if self._fast_plan_mode:
+            url, installed_request = dependency.required_url(), installed.user_request
+            if self._fast_plan_mode and (not url or (installed_request and installed_request.required_url() == url)):
                 return [installed]
 
         packages = self._repo.match(dependency, env)
-- 
2.43.0


From 3a04b307c6253181741ee0f9e14c331543e89873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 033/159] fix: uninstall packages under any spelling of their
 names, and do not report others as removed

---
 pkm/src/pkm/api/packages/package_installation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 5b4a12c..7649bf6 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -73,9 +73,10 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         self.reload()
 
         preinstalled_packages = list(self.site_packages.installed_packages())
-        requested_deps = {p.name: p.user_request for p in preinstalled_packages if p.user_request}
+        installed_keys = {p.name_key for p in preinstalled_packages}
+        requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
         for package_name in packages_to_remove:
-            requested_deps.pop(package_name, None)
+            requested_deps.pop(PackageDescriptor.package_name_key(package_name), None)
 
         user_request = _UserRequestPackage(list(requested_deps.values()))
         installation_repo = _RemovalRepository(preinstalled_packages, user_request)
@@ -83,14 +84,14 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         installation = resolve_dependencies(user_request.to_dependency(), self, installation_repo)
         InstallationPlan(self, installation, {}).execute()
 
-        kept = {p.name for p in installation}
+        kept = {p.name_key for p in installation}
 
         for p in packages_to_remove:
-            if p in kept:
+            if PackageDescriptor.package_name_key(p) in kept:
                 self.site_packages.installed_package(p).dist_info.unmark_as_user_requested()
 
         self.reload()
-        return {p for p in packages_to_remove if p not in kept}
+        return {p for p in packages_to_remove if PackageDescriptor.package_name_key(p) in installed_keys - kept}
 
     def install(
             self, dependencies: List[Dependency], repository: Optional[Repository] = None, user_requested: bool = True,
-- 
2.43.0


From c8eb71df0f72bebfc57d4d4e326091ab7f51eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 034/159] fix: uninstalling does not remove unrelated packages
 that were not requested by the user

---
 pkm/src/pkm/api/packages/package_installation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 7649bf6..09b1516 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -82,6 +82,13 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         installation_repo = _RemovalRepository(preinstalled_packages, user_request)
 
         installation = resolve_dependencies(user_request.to_dependency(), self, installation_repo)
+
+        # what nothing needed already before is not related to this removal
+        keys_to_remove = {PackageDescriptor.package_name_key(name) for name in packages_to_remove}
+        kept = {p.name_key for p in installation}
+        installation.extend(
+            p for p in self.site_packages.find_orphan_packages() if p.name_key not in keys_to_remove | kept)
+
         InstallationPlan(self, installation, {}).execute()
 
         kept = {p.name_key for p in installation}
-- 
2.43.0


From e03f14c7cf886818e3b9c1d0ff0a1194ef9909e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 035/159] fix: packages can be uninstalled from an environment
 with unmet requirements

---
 pkm/src/pkm/api/packages/package_installation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 09b1516..8d7729c 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from _ast import Set
 from abc import ABC
 from concurrent.futures import ThreadPoolExecutor
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from enum import Enum
 from pathlib import Path
 from typing import List, Dict, Optional, Union, Set, TYPE_CHECKING
@@ -78,7 +78,8 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         for package_name in packages_to_remove:
             requested_deps.pop(PackageDescriptor.package_name_key(package_name), None)
 
-        user_request = _UserRequestPackage(list(requested_deps.values()))
+        user_request = _UserRequestPackage([
+            _as_installed(request, self.site_packages) for request in requested_deps.values()])
         installation_repo = _RemovalRepository(preinstalled_packages, user_request)
 
         installation = resolve_dependencies(user_request.to_dependency(), self, installation_repo)
@@ -384,6 +385,11 @@ class _UserRequestPackage(Package):
         return Dependency(self.name, VersionMatch(self.version))
 
 
+def _as_installed(dependency: Dependency, site: SitePackages) -> Dependency:
+    # packages can be removed also when what is installed does not match the requirements on it
+    return replace(dependency, version_spec=VersionMatch(site.installed_package(dependency.package_name).version))
+
+
 class _RemovalRepository(AbstractRepository):
 
     def __init__(self, preinstalled: List[InstalledPackage], user_request: Package):
@@ -421,10 +427,11 @@ class _RemovalPackage(Package, Serializable):
     def dependencies(
             self, target: "PackageInstallationTarget", extras: Optional[List[str]] = None) -> List["Dependency"]:
         sitep = target.site_packages
-        return [d for d in self.package.dependencies(target, extras) if sitep.installed_package(d.package_name)]
+        return [_as_installed(d, sitep)
+                for d in self.package.dependencies(target, extras) if sitep.installed_package(d.package_name)]
 
     def is_compatible_with(self, env: "Environment") -> bool:
-        return self.package.is_compatible_with(env)
+        return True  # it is already there
 
     def install_to(self, target: "PackageInstallationTarget", user_request: Optional["Dependency"] = None,
                    store_mode: StoreMode = StoreMode.AUTO):
-- 
2.43.0


From d317caeb42ada5d1f271a57bed874a6fa0773cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 036/159] fix: roll back copy transactions in the reverse order
 of what was done, partial copies included

---
 pkm/src/pkm/utils/files.py | 62 +++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index cef9a65..f435fcc 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -5,7 +5,7 @@ import shutil
 from contextlib import contextmanager
 from pathlib import Path
 from tempfile import mkdtemp
-from typing import Optional, Callable, ContextManager, Iterator, List, Set
+from typing import Optional, Callable, ContextManager, Iterator, List, Set, Tuple
 
 from pkm.utils.commons import UnsupportedOperationException
 
@@ -116,6 +116,13 @@ def name_without_ext(path: Path) -> str:
         return name
 
 
+def _remove_if_empty(directory: Path) -> bool:
+    if is_empty_directory(directory):
+        directory.rmdir()
+        return True
+    return False
+
+
 class CopyTransaction:
     """
     a context manager for copy transactions,
@@ -126,7 +133,8 @@ class CopyTransaction:
 
     def __init__(self):
         self._copied_files: Set[Path] = set()
-        self._overwritten_files: List[Path] = []  # source overwrite, temp location
+        # what was done so far, in order: (created path, None) or (removed path, temp location)
+        self._journal: List[Tuple[Path, Optional[Path]]] = []
         self._temp_dir: Optional[Path] = None
 
     def copy_tree(self, source: Path, target: Path,
@@ -168,7 +176,7 @@ class CopyTransaction:
             if not target.parent.exists():
                 self.mkdir(target.parent)
             target.mkdir()
-            self._copied_files.add(target)
+            self.touch(target)
 
         return target
 
@@ -184,16 +192,9 @@ class CopyTransaction:
         if target.exists():
             self.rm(target)
 
-        try:
-            shutil.copy(source, target)
-        except FileNotFoundError:
-            if not target.exists():
-                self.mkdir(target.parent)
-                shutil.copy(source, target)
-            else:
-                raise
-
-        self._copied_files.add(target)
+        self.mkdir(target.parent)
+        self.touch(target)  # before copying, so that a partial copy will also be rolled back
+        shutil.copy(source, target)
 
     @property
     def copied_files(self) -> Iterator[Path]:
@@ -207,7 +208,8 @@ class CopyTransaction:
         mark the given `paths` as copied in this transaction
         :param paths: list of path to mark
         """
-        self._copied_files.update(paths)
+        for path in paths:
+            self.touch(path)
 
     def touch(self, path: Path, fs_touch: bool = False):
         """
@@ -216,6 +218,7 @@ class CopyTransaction:
         :param fs_touch: if true will also touch the path in the filesystem
         """
         self._copied_files.add(path)
+        self._journal.append((path, None))
         if fs_touch:
             path.touch(exist_ok=True)
 
@@ -225,7 +228,7 @@ class CopyTransaction:
         :param path: the path to mark
         """
         self.touch(path)
-        self._copied_files.update(path.rglob("*"))
+        self.touch_all(list(path.rglob("*")))
 
     def rm(self, path: Path):
         """
@@ -233,9 +236,9 @@ class CopyTransaction:
         works for both files and directories
         :param path: the path to remove
         """
-        temp = self._temp_dir / str(len(self._overwritten_files))
+        temp = self._temp_dir / str(len(self._journal))
         shutil.move(path, temp)
-        self._overwritten_files.append(path)
+        self._journal.append((path, temp))
 
     def __enter__(self) -> CopyTransaction:
         self._temp_dir = Path(mkdtemp())
@@ -254,17 +257,20 @@ class CopyTransaction:
         self._temp_dir = None
 
     def _rollback(self):
-        for file in self._copied_files:
-            if not file.is_dir():
-                file.unlink(missing_ok=True)
-
-        for file in self._copied_files:
-            if file.is_dir() and is_empty_directory(file):
-                file.rmdir()
-
-        for i, path in enumerate(self._overwritten_files):
-            restore_path = self._temp_dir / str(i)
-            shutil.move(restore_path, path)
+        left_directories: List[Path] = []  # those that were not empty yet
+        for path, restore_path in reversed(self._journal):
+            if restore_path:
+                if path.is_dir():
+                    shutil.rmtree(path)
+                shutil.move(restore_path, path)
+                left_directories = [d for d in left_directories if d != path and path not in d.parents]
+            elif not path.is_dir():
+                path.unlink(missing_ok=True)
+            elif not _remove_if_empty(path):
+                left_directories.append(path)
+
+        for directory in left_directories:
+            _remove_if_empty(directory)
 
         self._commit()
 
-- 
2.43.0


From c28ccd3fe73563baf77b38a38152f07fbd4326e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 037/159] fix: copy_tree copies files in inner directories also
 by the given function, and can be rolled back then

---
 pkm/src/pkm/utils/files.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index f435fcc..116aff3 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -151,8 +151,10 @@ class CopyTransaction:
 
         if file_copy:
             def cp(s, d):
-                file_copy(s, d)
+                if d.exists():
+                    self.rm(d)
                 self.touch(d)
+                file_copy(s, d)
         else:
             cp = self.copy
 
@@ -162,7 +164,7 @@ class CopyTransaction:
                 continue
 
             if file.is_dir():
-                self.copy_tree(file, target / file.name, accept)
+                self.copy_tree(file, target / file.name, accept, file_copy)
             else:
                 cp(file, target / file.name)
 
-- 
2.43.0


From 714339e0bf23b325fa6e7f51f591acbf4fe06586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 038/159] fix: install the headers of wheels, and refuse wheel
 data for unknown paths

---
 pkm/src/pkm/api/distributions/wheel_distribution.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index b42c0ed..73b0d7e 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -109,7 +109,7 @@ class WheelDistribution(Distribution):
                 if d.is_dir():
                     if d == data_dir:
                         for k in d.iterdir():
-                            target_path = getattr(target, k.name) or Path(target.data, k.name)
+                            target_path = _install_scheme_path(package, target, k.name)
                             if k.name == 'scripts':
                                 ct.copy_tree(
                                     k, Path(target_path),
@@ -179,6 +179,15 @@ class WheelDistribution(Distribution):
                 self._package, tmp_path, target, user_request, installation_mode)
 
 
+def _install_scheme_path(package: PackageDescriptor, target: "PackageInstallationTarget", key: str) -> Path:
+    if key == 'headers':
+        version = '.'.join(str(it) for it in target.env.interpreter_version.release[:2])
+        return Path(target.data, 'include', 'site', f'python{version}', package.name)
+    if key in ('purelib', 'platlib', 'scripts', 'data'):
+        return Path(getattr(target, key))
+    raise InstallationException(f"wheel for {package} contains data for an unknown installation path: {key}")
+
+
 def _find_dist_info(unpacked_wheel: Path, package: PackageDescriptor) -> DistInfo:
     dist_info = list(unpacked_wheel.glob("*.dist-info"))
     if not dist_info:
-- 
2.43.0


From 8a793b0efb26ad9c8b3456bf4f6789e446acbb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 039/159] fix: everything a wheel installation writes is rolled
 back when it fails

---
 .../api/distributions/wheel_distribution.py   | 25 ++++++++++---------
 pkm/src/pkm/utils/files.py                    | 24 ++++++++++--------
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index 73b0d7e..afabd9d 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -5,7 +5,7 @@ import warnings
 from dataclasses import replace
 from pathlib import Path
 from tempfile import TemporaryDirectory
-from typing import Optional, TYPE_CHECKING, List, Dict
+from typing import Optional, TYPE_CHECKING, Dict
 from zipfile import ZipFile
 
 from pkm.api.dependencies.dependency import Dependency
@@ -124,22 +124,20 @@ class WheelDistribution(Distribution):
 
             # build entry points
             scripts_path = Path(target.scripts)
-            for entrypoint in entrypoints:
-                if entrypoint.is_script():
-                    ct.touch(Executables.generate_for_entrypoint(target.env, entrypoint, scripts_path))
+            if scripts := [it for it in entrypoints if it.is_script()]:
+                with temp_dir() as generated_scripts:
+                    for entrypoint in scripts:
+                        Executables.generate_for_entrypoint(target.env, entrypoint, generated_scripts)
+                    ct.copy_tree(generated_scripts, scripts_path)
 
             #  compile py to pyc
-            new_pyc_files: List[str] = []
             with warnings.catch_warnings():
                 warnings.filterwarnings('ignore')
-                for cc in ct.copied_files:
+                for cc in list(ct.copied_files):
                     if cc.suffix == '.py':
+                        # write the compiled file in the transaction, so that it will be added to record
+                        ct.overwrite(Path(importlib.util.cache_from_source(str(cc))))
                         compileall.compile_file(cc, force=True, quiet=2)
-                        new_pyc_files.append(importlib.util.cache_from_source(str(cc)))
-
-            # mark the compiled files in the transaction, so that they will be added to record
-            for npf in new_pyc_files:
-                ct.touch(Path(npf))
 
             # build the new records file
             new_dist_info = DistInfo.load(site_packages / dist_info.path.name)
@@ -150,13 +148,16 @@ class WheelDistribution(Distribution):
             } if not skip_record_verification else None
             new_record_file.sign_files(ct.copied_files, site_packages, precomputed_hashes)
 
+            ct.overwrite(new_dist_info.record_path())
             new_record_file.save()
 
             # and finally, mark the installer and the requested flag
-            (new_dist_info.path / "INSTALLER").write_text(f"pkm")
+            ct.overwrite(new_dist_info.path / "INSTALLER").write_text(f"pkm")
             if user_request:
+                ct.overwrite(new_dist_info.user_requested_path())
                 new_dist_info.mark_as_user_requested(user_request)
             if installation_info:
+                ct.overwrite(new_dist_info.installation_info_path())
                 new_dist_info.save_installation_info(installation_info)
 
     def install_to(self, target: "PackageInstallationTarget", user_request: Optional[Dependency] = None,
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index 116aff3..b951295 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -151,10 +151,7 @@ class CopyTransaction:
 
         if file_copy:
             def cp(s, d):
-                if d.exists():
-                    self.rm(d)
-                self.touch(d)
-                file_copy(s, d)
+                file_copy(s, self.overwrite(d))
         else:
             cp = self.copy
 
@@ -191,12 +188,7 @@ class CopyTransaction:
         if source.is_dir():
             raise UnsupportedOperationException("copy should not work with directories, use copy_tree or mkdir instead")
 
-        if target.exists():
-            self.rm(target)
-
-        self.mkdir(target.parent)
-        self.touch(target)  # before copying, so that a partial copy will also be rolled back
-        shutil.copy(source, target)
+        shutil.copy(source, self.overwrite(target))
 
     @property
     def copied_files(self) -> Iterator[Path]:
@@ -232,6 +224,18 @@ class CopyTransaction:
         self.touch(path)
         self.touch_all(list(path.rglob("*")))
 
+    def overwrite(self, path: Path) -> Path:
+        """
+        prepare the given `path` to be written by the caller (rollback supported operation)
+        :param path: the path that is about to be written
+        :return: `path` to be used with chaining
+        """
+        if path.exists():
+            self.rm(path)
+        self.mkdir(path.parent)
+        self.touch(path)
+        return path
+
     def rm(self, path: Path):
         """
         remove the given path (rollback supported operation)
-- 
2.43.0


From 66c03960458d3be7d8873164223f1a5278d4f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 040/159] fix: values in WHEEL files may contain colons

---
 pkm/src/pkm/config/configfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index 7682f8d..fa1df95 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -89,7 +89,7 @@ class WheelFileConfigIO(ConfigIO):
     def read(self, path: Path) -> _RAW_CONFIG_T:
         seperator_rx = re.compile("\\s*:\\s*")
         lines = (line.strip() for line in path.read_text().splitlines())
-        kvs = (seperator_rx.split(kv) for kv in lines if kv)
+        kvs = (seperator_rx.split(kv, maxsplit=1) for kv in lines if kv)
         return {k: v for k, v in kvs}
 
 
-- 
2.43.0


From 24e3f9bdcc98fc0b943ede0772ca46558c5a1085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 041/159] fix: uninstalling from a site that is reached over a
 symbolic link removes the empty directories also

---
 pkm/src/pkm/api/packages/site_packages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index 47ac6a5..7170c08 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -215,7 +215,7 @@ class InstalledPackage(Package, Serializable):
             installed_file.unlink(missing_ok=True)
             parents_to_check.add(installed_file.parent)
 
-        installation_site = self.dist_info.path.parent
+        installation_site = self.dist_info.path.parent.resolve()  # as the installed files are
         while parents_to_check:
             parent = parents_to_check.pop()  # noqa : pycharm does not know's about set's pop method?
 
-- 
2.43.0


From ed6c551bda3f6d9d8c561ae6441608e675e84bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 042/159] fix: a path is not inside of a directory whose name
 its own name starts with

---
 pkm/src/pkm/utils/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index b951295..f74ec4c 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -288,7 +288,8 @@ def is_relative_to(path: Path, root: Path) -> bool:
     :param root: the path that may contain `path`
     """
 
-    return str(path.absolute()).startswith(str(root.absolute()))
+    path, root = path.absolute(), root.absolute()
+    return path == root or root in path.parents
 
 
 def dir_size(directory: Path) -> int:
-- 
2.43.0


From 4e59b72fc8927475361d11ed468cd82357296217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 043/159] fix: a url that no repository handles is not found,
 instead of failing with raise []

---
 pkm/src/pkm/api/repositories/repository_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 93f9ade..29908b8 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -164,7 +164,7 @@ class _CompositeRepository(AbstractRepository):
             for repo in self._url_handlers[url.protocol]:
                 if match := repo.match(dependency, env):
                     return match
-            raise []
+            return []
 
         if repo_name := self._package_binding.get(dependency.package_name):
             if not (repo := first_or_none(it for it in self._package_search_list if it.name == repo_name)):
-- 
2.43.0


From 23a5c64cc5117d186fd7c53f0046ab9c38dafc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 044/159] fix: package bindings hold for any spelling of the
 package name

---
 pkm/src/pkm/api/repositories/repository_loader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 29908b8..b7790d9 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -8,7 +8,7 @@ from typing import List, Dict, Iterable, Optional, Set, Mapping
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration, \
     RepositoriesConfigInheritanceMode
 from pkm.api.repositories.repository import Repository, RepositoryBuilder, AbstractRepository
@@ -103,13 +103,13 @@ class RepositoryLoader:
         package_binding: Dict[str, str] = {}
         for package, binding in config.package_bindings.items():
             if isinstance(binding, str):
-                package_binding[package] = binding
+                package_binding[PackageDescriptor.package_name_key(package)] = binding
             else:
                 type_ = binding.pop('type')
                 binding = self.build(name, type_, **binding)
                 binding_only_repositories.add(binding.name)
                 package_search_list.append(binding)
-                package_binding[package] = binding.name
+                package_binding[PackageDescriptor.package_name_key(package)] = binding.name
 
         if not package_search_list:
             if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
@@ -166,7 +166,7 @@ class _CompositeRepository(AbstractRepository):
                     return match
             return []
 
-        if repo_name := self._package_binding.get(dependency.package_name):
+        if repo_name := self._package_binding.get(dependency.package_name_key):
             if not (repo := first_or_none(it for it in self._package_search_list if it.name == repo_name)):
                 raise NoSuchElementException(f"package: {dependency.package_name} is bound to "
                                              f"repository: {repo_name}, but this repository is not defined")
-- 
2.43.0


From 5144a27dee2ee44f456a22897c208f6721b33114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 045/159] fix: repositories of the same type and arguments are
 told apart by their names, inline bindings too

---
 pkm/src/pkm/api/repositories/repository_loader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index b7790d9..b92e45c 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -10,8 +10,9 @@ from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
 from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration, \
-    RepositoriesConfigInheritanceMode
+    RepositoriesConfigInheritanceMode, RepositoryInstanceConfig
 from pkm.api.repositories.repository import Repository, RepositoryBuilder, AbstractRepository
+from pkm.config.configclass import ConfigCodec
 from pkm.repositories.file_repository import FileRepository
 from pkm.repositories.pypi_repository import PypiRepositoryBuilder
 from pkm.utils.commons import NoSuchElementException
@@ -105,8 +106,8 @@ class RepositoryLoader:
             if isinstance(binding, str):
                 package_binding[PackageDescriptor.package_name_key(package)] = binding
             else:
-                type_ = binding.pop('type')
-                binding = self.build(name, type_, **binding)
+                definition = ConfigCodec().parse(dict(binding), RepositoryInstanceConfig)
+                binding = self.build(f"{name} ({package})", definition.type, **definition.args)
                 binding_only_repositories.add(binding.name)
                 package_search_list.append(binding)
                 package_binding[PackageDescriptor.package_name_key(package)] = binding.name
@@ -119,7 +120,7 @@ class RepositoryLoader:
         return _CompositeRepository(name, package_search_list, binding_only_repositories, package_binding)
 
     def build(self, name: str, builder: str, **args) -> Repository:
-        key = _CachedRepositoryKey(builder, args)
+        key = _CachedRepositoryKey(name, builder, args)
         if not (cached := self._cached_instances.get(key)):
             if not (builder := self._builders.get(builder)):
                 raise KeyError(f"unknown repository type: {builder}")
@@ -131,13 +132,14 @@ class RepositoryLoader:
 
 @dataclass(eq=True)
 class _CachedRepositoryKey:
+    name: str
     builder: str
     args: Dict[str, str]
 
     def __hash__(self):
         return HashBuilder() \
-            .regular(self.builder) \
-            .unordered_mapping(self.args) \
+            .regulars(self.name, self.builder) \
+            .unordered_mapping(self.args, value_hash=lambda v: hash(str(v))) \
             .build()
 
 
-- 
2.43.0


From b2e48431b16af253d512f23324de8b6b66db9b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 046/159] fix: name the unknown repository type in the error
 message

---
 pkm/src/pkm/api/repositories/repository_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index b92e45c..84e6737 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -122,9 +122,9 @@ class RepositoryLoader:
     def build(self, name: str, builder: str, **args) -> Repository:
         key = _CachedRepositoryKey(name, builder, args)
         if not (cached := self._cached_instances.get(key)):
-            if not (builder := self._builders.get(builder)):
+            if not (repo_builder := self._builders.get(builder)):
                 raise KeyError(f"unknown repository type: {builder}")
-            cached = builder.build(name, **{k.replace("-", "_"): v for k, v in args.items()})
+            cached = repo_builder.build(name, **{k.replace("-", "_"): v for k, v in args.items()})
             self._cached_instances[key] = cached
 
         return cached
-- 
2.43.0


From 91b57f01a5d5784197a81e210c94a2d27403efe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 047/159] fix: contexts without repositories that inherit none
 have an empty repository, not None

---
 pkm/src/pkm/api/repositories/repository_loader.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 84e6737..b2f384a 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -86,7 +86,7 @@ class RepositoryLoader:
     def global_repo(self) -> Repository:
         return self._global_repo
 
-    def load(self, name: str, config: RepositoriesConfiguration, next_in_context: Repository) -> Repository:
+    def load(self, name: str, config: RepositoriesConfiguration, next_in_context: Optional[Repository]) -> Repository:
         package_search_list = []
         binding_only_repositories = set()
 
@@ -96,7 +96,7 @@ class RepositoryLoader:
             if definition.bind_only:
                 binding_only_repositories.add(defined_name)
 
-        if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
+        if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_CONTEXT and next_in_context:
             package_search_list.append(next_in_context)
         elif config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
             package_search_list.append(self.global_repo)
@@ -115,7 +115,6 @@ class RepositoryLoader:
         if not package_search_list:
             if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
                 return self.global_repo
-            return next_in_context
 
         return _CompositeRepository(name, package_search_list, binding_only_repositories, package_binding)
 
-- 
2.43.0


From 581a33ead4741696bd2daba447740f8566160e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 048/159] fix: contexts that inherit the global repositories
 keep using their own ones first

---
 pkm/src/pkm/api/repositories/repository_management.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index fe0d330..676b375 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -56,7 +56,7 @@ class RepositoryManagement(ABC):
 
     def package_lookup_chain(self) -> List[RepositoryManagement]:
         if self.configuration.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
-            return [pkm.repository_management]
+            return [self, pkm.repository_management]
         elif self.configuration.inheritance_mode != RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
             return [self]
 
-- 
2.43.0


From b5b91862b752b4a3ef4c177e58ae608c0545125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 049/159] fix: bind packages to unnamed repositories, and
 replace bindings under any spelling of the package

---
 .../api/repositories/repository_management.py | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index 676b375..3131a1e 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -7,7 +7,7 @@ from typing import Dict, List, Optional, Tuple, Iterable, Union, Set
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
 from pkm.api.environments.environments_zoo import EnvironmentsZoo
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.pkm import HasAttachedRepository, Pkm, pkm
 from pkm.api.projects.project import Project
 from pkm.api.projects.project_group import ProjectGroup
@@ -15,6 +15,7 @@ from pkm.api.repositories.repositories_configuration import RepositoriesConfigur
     RepositoriesConfigInheritanceMode
 from pkm.api.repositories.repository import Repository, AbstractRepository, RepositoryPublisher
 from pkm.api.repositories.repository_loader import RepositoryLoader, REPOSITORIES_CONFIGURATION_PATH
+from pkm.config.configclass import ConfigCodec
 from pkm.repositories.shared_pacakges_repo import SharedPackagesRepository
 from pkm.resolution.packages_lock import LockPrioritizingRepository
 from pkm.utils.commons import NoSuchElementException
@@ -99,17 +100,18 @@ class RepositoryManagement(ABC):
     def register_bindings(self, packages: List[str], repo: Optional[Union[str, RepositoryInstanceConfig]]):
         if repo:
             if isinstance(repo, RepositoryInstanceConfig):
-                repo = repo.to_config()
+                repo = ConfigCodec().unparse(repo)
 
-            self.configuration.package_bindings = {
-                **self.configuration.package_bindings,
-                **{p: repo for p in packages}
-            }
+            new_bindings = {p: repo for p in packages}
         else:
-            self.configuration.package_bindings = {
-                p: r for p, r in self.configuration.package_bindings.items()
-                if p not in packages
-            }
+            new_bindings = {}
+
+        package_keys = {PackageDescriptor.package_name_key(p) for p in packages}
+        self.configuration.package_bindings = {
+            **{p: r for p, r in self.configuration.package_bindings.items()
+               if PackageDescriptor.package_name_key(p) not in package_keys},
+            **new_bindings
+        }
 
         self._update_config()
 
-- 
2.43.0


From a654124465dd14f08b3c75a2ef29cd589cdb748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 050/159] fix: repositories of projects match only projects
 whose version is asked for, and accept package names without a base

---
 pkm/src/pkm/api/repositories/repository_management.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index 3131a1e..0cac1ff 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -268,7 +268,8 @@ class ProjectsRepository(AbstractRepository):
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         if not dependency.required_url():
             if matched_projects := self._packages.get(dependency.package_name_key):
-                return self._sorted_by_version([project for project in matched_projects])
+                return self._sorted_by_version(
+                    [project for project in matched_projects if dependency.version_spec.allows_version(project.version)])
         if self._base_repo:
             return self._base_repo.match(dependency, env)
         return []
@@ -279,7 +280,7 @@ class ProjectsRepository(AbstractRepository):
         return ProjectsRepository(name, grouped_projects, base)
 
     def accept_non_url_packages(self) -> bool:
-        return self._base_repo and self._base_repo.accept_non_url_packages()
+        return True
 
     def accepted_url_protocols(self) -> Iterable[str]:
         if self._base_repo:
-- 
2.43.0


From 09818d2fa16d43aed97b811fba483b24080efb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 051/159] fix: containers of local projects write a valid
 repository configuration

---
 pkm/src/pkm/api/environments/package_containers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 284a062..a0cfaff 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -123,10 +123,9 @@ class PackageContainers:
 
             if isinstance(app, Project):
                 repocfg = RepositoriesConfiguration.load(tdir / REPOSITORIES_CONFIGURATION_PATH)
-                repocfg.repositories = [RepositoryInstanceConfig.from_config('wrapped-project', {
-                    'type': FILE_SYSTEM_REPOSITORY_TYPE,
-                    'path': app.path
-                })]
+                repocfg.repos = {
+                    'wrapped-project': RepositoryInstanceConfig(
+                        FILE_SYSTEM_REPOSITORY_TYPE, False, {'path': str(app.path)})}
 
                 repocfg.save()
                 app = app.descriptor.to_dependency()
-- 
2.43.0


From bb6ddc456d05e8a64faed881a7e719e120ef0ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 052/159] fix: package bindings can be read and written (there
 is no codec for Mapping)

---
 pkm/src/pkm/api/repositories/repositories_configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repositories_configuration.py b/pkm/src/pkm/api/repositories/repositories_configuration.py
index 99f9925..23d3af0 100644
--- a/pkm/src/pkm/api/repositories/repositories_configuration.py
+++ b/pkm/src/pkm/api/repositories/repositories_configuration.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from enum import Enum
-from typing import Any, Dict, Mapping
+from typing import Any, Dict
 
 from pkm.config.configclass import config, config_field, ConfigFile
 from pkm.config.configfiles import TomlConfigIO
@@ -29,7 +29,7 @@ class RepositoryInstanceConfig:
 class RepositoriesConfiguration(ConfigFile):
     repos: Dict[str, RepositoryInstanceConfig] = config_field(default_factory=dict)
     inheritance: str = "context"
-    package_bindings: Mapping[str, Any] = config_field(key="package-bindings", default_factory=dict)
+    package_bindings: Dict[str, Any] = config_field(key="package-bindings", default_factory=dict)
 
     @cached_property
     def inheritance_mode(self) -> RepositoriesConfigInheritanceMode:
-- 
2.43.0


From 893f1b6567e0bd95fbc92d3c33ba569fa578795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 053/159] fix: packages are locked under any spelling of their
 names

---
 pkm/src/pkm/resolution/packages_lock.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index 348b0bd..e330d20 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -38,7 +38,7 @@ class PackagesLock:
     def __init__(self, locked_packages: Optional[List[_LockedVersion]] = None, lock_file: Optional[Path] = None):
         locked_packages = unone(locked_packages, list)
         self._locked_packages: Dict[str, List[_LockedVersion]] = \
-            groupby(locked_packages, lambda it: it.package.name)
+            groupby(locked_packages, lambda it: it.package.name_key)
         self._lock_file = lock_file
 
     def unlock_packages(self, package_names: Iterable[str]) -> PackagesLock:
@@ -49,7 +49,7 @@ class PackagesLock:
         :return self (for chaining support)
         """
         for pn in package_names:
-            self._locked_packages.pop(pn, None)
+            self._locked_packages.pop(PackageDescriptor.package_name_key(pn), None)
 
         return self
 
@@ -71,7 +71,7 @@ class PackagesLock:
         """
 
         relevant_locks = [lp for lst in self._locked_packages.values() for lp in lst] if not package else \
-            [lp for lp in (self._locked_packages.get(package) or ())]
+            [lp for lp in (self._locked_packages.get(PackageDescriptor.package_name_key(package)) or ())]
 
         if not relevant_locks:
             return []
@@ -102,7 +102,7 @@ class PackagesLock:
         for package in env.site_packages.installed_packages():
             new_locks.append(_LockedVersion(env_hash, package.descriptor))
 
-        self._locked_packages = groupby(new_locks, lambda it: it.package.name)
+        self._locked_packages = groupby(new_locks, lambda it: it.package.name_key)
         return self
 
     def save(self, lock_file: Optional[Path] = None):
-- 
2.43.0


From f405031e675d67722bdaa754b6168175a71318cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 054/159] fix: the version that is locked for an environment is
 preferred over those locked for other ones

---
 pkm/src/pkm/resolution/packages_lock.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index e330d20..0a0561b 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -120,8 +120,9 @@ class PackagesLock:
 
     def sort_packages_by_lock_preference(self, env: Environment, packages: List[Package]) -> List[Package]:
         if packages:
-            locked_versions = {lp.version for lp in self.locked_versions(env, packages[0].name)}
-            packages.sort(key=lambda it: 0 if it.version in locked_versions else 1)
+            locked_versions = [lp.version for lp in self.locked_versions(env, packages[0].name)]
+            packages.sort(key=lambda it: locked_versions.index(it.version)
+                          if it.version in locked_versions else len(locked_versions))
 
         return packages
 
-- 
2.43.0


From 78081ad8841deb3cb6f5a6fbfadeef1dbb980bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 055/159] fix: pages of simple repositories are asked for by
 the normalized name of the package

---
 pkm/src/pkm/repositories/simple_repository.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index e704b85..843f59a 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -31,8 +31,9 @@ class SimpleRepository(AbstractRepository):
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         # monitor.on_dependency_match(dependency)
-        if not (version_to_package := self._packages.get(dependency.package_name)):
-            data = pkm.httpclient.fetch_resource(f"{self._url}/{dependency.package_name}").data
+        if not (version_to_package := self._packages.get(dependency.package_name_key)):
+            page_url = f"{self._url}/{dependency.package_name_key.replace('_', '-')}/"
+            data = pkm.httpclient.fetch_resource(page_url).data
             extractor = _HtmlArtifactsExtractor(self._base_url)
             extractor.feed(data.read_text())
 
@@ -47,7 +48,7 @@ class SimpleRepository(AbstractRepository):
 
                 for version_str, version_artifacts in grouped_by_version.items()
             }
-            self._packages[dependency.package_name] = version_to_package
+            self._packages[dependency.package_name_key] = version_to_package
 
         packages = [p for p in version_to_package.values() if dependency.version_spec.allows_version(p.version)]
         return self._sorted_by_version(packages)
-- 
2.43.0


From ee4e9509ef4599532a3f19f3b222477552557e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 056/159] fix: pages of simple repositories are asked for
 updates instead of being cached forever

---
 pkm/src/pkm/repositories/simple_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index 843f59a..1c7bcb5 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -33,7 +33,7 @@ class SimpleRepository(AbstractRepository):
         # monitor.on_dependency_match(dependency)
         if not (version_to_package := self._packages.get(dependency.package_name_key)):
             page_url = f"{self._url}/{dependency.package_name_key.replace('_', '-')}/"
-            data = pkm.httpclient.fetch_resource(page_url).data
+            data = pkm.httpclient.fetch_resource(page_url, CacheDirective.ask_for_update()).data
             extractor = _HtmlArtifactsExtractor(self._base_url)
             extractor.feed(data.read_text())
 
-- 
2.43.0


From f3df29378e1a5d5fb8ba6e140c5caade0547b0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 057/159] fix: links of simple repositories are relative to
 their page

---
 pkm/src/pkm/repositories/simple_repository.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index 1c7bcb5..f247f53 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -1,6 +1,7 @@
 from html.parser import HTMLParser
 from pathlib import Path
 from typing import List, Union, Tuple, Dict, Optional, Callable
+from urllib.parse import urljoin
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.wheel_distribution import InstallationException
@@ -26,7 +27,6 @@ class SimpleRepository(AbstractRepository):
     def __init__(self, name: str, url: str):
         super().__init__(name)
         self._url = url
-        self._base_url = Url.parse(url).connection_part()
         self._packages: Dict[str, Dict[str, Package]] = {}  # name -> version -> package
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
@@ -34,7 +34,7 @@ class SimpleRepository(AbstractRepository):
         if not (version_to_package := self._packages.get(dependency.package_name_key)):
             page_url = f"{self._url}/{dependency.package_name_key.replace('_', '-')}/"
             data = pkm.httpclient.fetch_resource(page_url, CacheDirective.ask_for_update()).data
-            extractor = _HtmlArtifactsExtractor(self._base_url)
+            extractor = _HtmlArtifactsExtractor(page_url)
             extractor.feed(data.read_text())
 
             all_artifacts = extractor.artifacts
@@ -67,11 +67,11 @@ def _extract_version(filename: str) -> str:
 
 class _HtmlArtifactsExtractor(HTMLParser):
 
-    def __init__(self, base_url: str, *, convert_charrefs: bool = ...) -> None:
+    def __init__(self, page_url: str, *, convert_charrefs: bool = ...) -> None:
         super().__init__(convert_charrefs=convert_charrefs)
         self._text_handler: Optional[Callable[[str], None]] = None
         self.artifacts: List[PackageArtifact] = []
-        self._base_url = base_url
+        self._page_url = page_url
 
     def handle_data(self, data: str) -> None:
         if self._text_handler:
@@ -92,10 +92,8 @@ class _HtmlArtifactsExtractor(HTMLParser):
             if requires_python_str := attrs.get('data-requires-python'):
                 requires_python = VersionSpecifier.parse(requires_python_str)
 
-            url = attrs.get('href')
-            if not url.startswith('http'):
-                url = f"{self._base_url}/{url.lstrip('/')}"
-
+            url = urljoin(self._page_url, attrs['href'].strip())
+            text = text.strip()
             if endswith_any(text, _DISTRIBUTION_EXTENSIONS):
                 self.artifacts.append(PackageArtifact(text, requires_python, {'url': url}))
 
-- 
2.43.0


From 65f1c4959669e235016b02c4fb2d41436cd784e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 058/159] fix: yanked files of simple repositories are not used

---
 pkm/src/pkm/repositories/simple_repository.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index f247f53..73f2bb8 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -83,11 +83,11 @@ class _HtmlArtifactsExtractor(HTMLParser):
 
     def handle_starttag(self, tag: str, attrs: List[Tuple[str, Union[str, None]]]) -> None:
         self._text_handler = \
-            lambda txt: self.handle_element(tag, {kv[0]: kv[1] for kv in attrs if kv[1] is not None}, txt)
+            lambda txt: self.handle_element(tag, {kv[0]: kv[1] or '' for kv in attrs}, txt)
 
     def handle_element(self, tag: str, attrs: Dict[str, str], text: str):
         self._text_handler = None
-        if tag == 'a' and 'href' in attrs:
+        if tag == 'a' and 'href' in attrs and 'data-yanked' not in attrs:
             requires_python = None
             if requires_python_str := attrs.get('data-requires-python'):
                 requires_python = VersionSpecifier.parse(requires_python_str)
-- 
2.43.0


From df34ae313f50077418ebfbf1f8bd138a59c666e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 059/159] fix: files of simple repositories that cannot be
 understood are passed over, those of one version make one package

---
 pkm/src/pkm/repositories/simple_repository.py | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index 73f2bb8..d18546c 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -27,7 +27,7 @@ class SimpleRepository(AbstractRepository):
     def __init__(self, name: str, url: str):
         super().__init__(name)
         self._url = url
-        self._packages: Dict[str, Dict[str, Package]] = {}  # name -> version -> package
+        self._packages: Dict[str, Dict[Version, Package]] = {}  # name -> version -> package
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         # monitor.on_dependency_match(dependency)
@@ -37,16 +37,13 @@ class SimpleRepository(AbstractRepository):
             extractor = _HtmlArtifactsExtractor(page_url)
             extractor.feed(data.read_text())
 
-            all_artifacts = extractor.artifacts
-            grouped_by_version: Dict[str, List[PackageArtifact]] = groupby(
-                all_artifacts, lambda a: _extract_version(a.file_name))
+            all_artifacts = [a for a in extractor.artifacts if '-' in a.file_name]
+            grouped_by_version: Dict[Version, List[PackageArtifact]] = groupby(
+                all_artifacts, lambda a: Version.parse(_extract_version(a.file_name)))
 
             version_to_package = {
-                version_str: _SimplePackage(
-                    PackageDescriptor(dependency.package_name, Version.parse(version_str)),
-                    version_artifacts)
-
-                for version_str, version_artifacts in grouped_by_version.items()
+                version: _SimplePackage(PackageDescriptor(dependency.package_name, version), version_artifacts)
+                for version, version_artifacts in grouped_by_version.items()
             }
             self._packages[dependency.package_name_key] = version_to_package
 
@@ -90,7 +87,10 @@ class _HtmlArtifactsExtractor(HTMLParser):
         if tag == 'a' and 'href' in attrs and 'data-yanked' not in attrs:
             requires_python = None
             if requires_python_str := attrs.get('data-requires-python'):
-                requires_python = VersionSpecifier.parse(requires_python_str)
+                try:
+                    requires_python = VersionSpecifier.parse(requires_python_str)
+                except ValueError:
+                    return  # it is not known where this artifact can be used
 
             url = urljoin(self._page_url, attrs['href'].strip())
             text = text.strip()
-- 
2.43.0


From dc4a46034ae6824ed2c879c427f083ae8b59cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 060/159] fix: packages that a repository does not have are
 searched in the following ones

---
 pkm/src/pkm/repositories/pypi_repository.py   |  2 ++
 pkm/src/pkm/repositories/simple_repository.py | 10 ++++++++--
 pkm/src/pkm/utils/http/http_client.py         |  4 ++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 6577c9f..2edf715 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -51,6 +51,8 @@ class PyPiRepository(AbstractRepository, Serializable):
                                 resource_name=f"matching packages for {dependency}") \
                 .read_data_as_json()
         except HttpException as e:
+            if e.is_not_found:
+                return []  # this repository does not have the package, others may
             raise InstallationException(
                 f"package: '{dependency.package_name}' could not be retrieved from repository: '{self.name}'") from e
 
diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index d18546c..cc1f354 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -13,7 +13,7 @@ from pkm.api.repositories.repository import Repository, RepositoryBuilder, Abstr
 from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.utils.http.cache_directive import CacheDirective
-from pkm.utils.http.http_client import Url
+from pkm.utils.http.http_client import HttpException, Url
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import groupby
 from pkm.utils.strings import endswith_any, without_suffix
@@ -33,7 +33,13 @@ class SimpleRepository(AbstractRepository):
         # monitor.on_dependency_match(dependency)
         if not (version_to_package := self._packages.get(dependency.package_name_key)):
             page_url = f"{self._url}/{dependency.package_name_key.replace('_', '-')}/"
-            data = pkm.httpclient.fetch_resource(page_url, CacheDirective.ask_for_update()).data
+            try:
+                data = pkm.httpclient.fetch_resource(page_url, CacheDirective.ask_for_update()).data
+            except HttpException as e:
+                if e.is_not_found:
+                    return []  # this repository does not have the package, others may
+                raise
+
             extractor = _HtmlArtifactsExtractor(page_url)
             extractor.feed(data.read_text())
 
diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 4e4140b..350db80 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -50,6 +50,10 @@ class HttpException(IOError):
         super().__init__(msg)
         self.response = response
 
+    @property
+    def is_not_found(self) -> bool:
+        return self.response is not None and self.response.status in (404, 410)
+
 
 @dataclass(frozen=True, eq=True)
 class Url:
-- 
2.43.0


From 148a5a60ddca78bb1c4464b4b1e26b636011cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 061/159] fix: all the versions of a package of PyPI have
 metadata, with their own version

---
 pkm/src/pkm/repositories/pypi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 2edf715..7228a71 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -73,7 +73,7 @@ class PyPiRepository(AbstractRepository, Serializable):
                 if dependency.version_spec.allows_version(version):
                     packages.append(PypiPackage(
                         PackageDescriptor(dependency.package_name, version),
-                        relevant_artifacts, self, PackageMetadata.from_config(package_info)
+                        relevant_artifacts, self, PackageMetadata.from_config({**package_info, 'Version': version_str})
                     ))
 
         return self._sorted_by_version(packages)
-- 
2.43.0


From 8d220f414eb597c749ffa44c5db4e5da0e24a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 062/159] fix: files of PyPI whose required python version is
 malformed are passed over

---
 pkm/src/pkm/repositories/pypi_repository.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 7228a71..a7563c3 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -134,9 +134,12 @@ def _create_artifact_from_pypi_release(release: Dict[str, Any]) -> Optional[Pack
     if not file_name:
         return None
 
-    return PackageArtifact(
-        file_name, VersionSpecifier.parse(requires_python) if requires_python else None, release
-    )
+    try:
+        python_spec = VersionSpecifier.parse(requires_python) if requires_python else None
+    except ValueError:
+        return None  # it is not known where this artifact can be used
+
+    return PackageArtifact(file_name, python_spec, release)
 
 
 # https://warehouse.pypa.io/api-reference/legacy.html
-- 
2.43.0


From 6645445cb10d2e0da65e3f430b4226ade3c03600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 063/159] fix: files of indexes that supply no digests can be
 retrieved

---
 pkm/src/pkm/repositories/pypi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index a7563c3..692d88c 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -104,7 +104,7 @@ class PypiPackage(AbstractPackage, Serializable):
             raise FileNotFoundError(f'cannot find requested artifact: {artifact.file_name}')
 
         # validate package hash if available
-        if digests := artifact.other_info['digests']:
+        if digests := artifact.other_info.get('digests'):
             hash_function = 'sha256'
             if hash_function not in digests:
                 hash_function = first_or_none(digests.keys())
-- 
2.43.0


From 0df5922aa5452a9f656e755c48ce8d67f3598fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 064/159] fix: directories of archives are not projects, and
 archives without a version do not break their repository

---
 pkm/src/pkm/repositories/file_system_repository.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/repositories/file_system_repository.py b/pkm/src/pkm/repositories/file_system_repository.py
index 5fdec5d..29473a6 100644
--- a/pkm/src/pkm/repositories/file_system_repository.py
+++ b/pkm/src/pkm/repositories/file_system_repository.py
@@ -13,6 +13,7 @@ from pkm.resolution.pubgrub import MalformedPackageException
 from pkm.utils.strings import endswith_any
 
 FILE_SYSTEM_REPOSITORY_TYPE = "file-system"
+_PROJECT_FILES = ('pyproject.toml', 'setup.py', 'setup.cfg')
 
 
 class PackagesDictRepository(AbstractRepository):
@@ -41,7 +42,7 @@ class FileSystemRepositoryBuilder(RepositoryBuilder):
                 project_group = ProjectGroup.load(path)
                 for project in project_group.project_children_recursive:
                     packages[project.name_key].append(project)
-            else:
+            elif any((path / it).exists() for it in _PROJECT_FILES):
                 try:
                     project = Project.load(path)
                     packages[project.name_key].append(project)
@@ -60,4 +61,4 @@ class FileSystemRepositoryBuilder(RepositoryBuilder):
 
 
 def _is_distribution(path: Path) -> bool:
-    return (not path.is_dir()) and endswith_any(path.name, ('.tar.gz', '.whl')) is not None
+    return (not path.is_dir()) and endswith_any(path.name, ('.tar.gz', '.whl')) is not None and '-' in path.name
-- 
2.43.0


From 24ec35c59cc4f999605a94357588b016f35cdb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 065/159] fix: a fetch that is served from the cache, or fails
 early, does not answer the later ones

---
 pkm/src/pkm/utils/http/http_client.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 350db80..de5d716 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -440,11 +440,6 @@ class HttpClient:
                                     raise
                                 else:
                                     raise HttpException(str(e), response) from e
-                            finally:
-                                # print(f"thread: {threading.current_thread().ident} attempting to release task")
-                                with self._fetch_lock:
-                                    del self._fetch_inprogress[url]
-                                # print(f"thread: {threading.current_thread().ident} succss to release task")
 
                         # print(f"[END] GET {url} resulted with cache files: {cache_files}")
                         return cache_files
@@ -458,8 +453,11 @@ class HttpClient:
 
             try:
                 deffered.complete(_fetch())
-            except Exception as e:
+            except BaseException as e:
                 deffered.fail(e)
+            finally:
+                with self._fetch_lock:
+                    del self._fetch_inprogress[url]
 
             return promise.result()
 
-- 
2.43.0


From a1517144119792aebb2fbbd5de04241403c37d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 066/159] fix: updates are asked for only when there is data
 that may be up to date

---
 pkm/src/pkm/utils/http/http_client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index de5d716..7226096 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -422,7 +422,8 @@ class HttpClient:
 
                             # noinspection PyShadowingNames
                             try:
-                                cache.add_headers(fetch_info, headers)
+                                if cache_files.exists():
+                                    cache.add_headers(fetch_info, headers)
                                 with self._request("GET", parsed_url, headers=headers) as response:
                                     clength = int(response.headers.get('content-length', '-1'))
                                     mop.notify(FetchResourceDownloadStartEvent(clength, cache_files.data))
-- 
2.43.0


From 42e135bd735589dfb039146c2f64d59e36fc0edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 067/159] fix: truncated downloads are not saved as complete
 ones

---
 pkm/src/pkm/utils/http/http_client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 7226096..e86cf6b 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -255,6 +255,9 @@ class FetchedResource:
             with open(self.data, 'wb') as df:
                 shutil.copyfileobj(response, df)
 
+            if response.length:
+                raise HttpException(f"connection closed, {response.length} bytes are missing")
+
             rheaders = response.headers
             last_modified = rheaders.get('last-modified', rheaders.get('date'))
 
-- 
2.43.0


From 41b935e4eca6077e8e59b2009178a743d506b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 068/159] fix: redirections may be relative or have a query

---
 pkm/src/pkm/utils/http/http_client.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index e86cf6b..23eaae5 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -5,7 +5,7 @@ import shutil
 import socket
 from collections import deque
 from contextlib import contextmanager
-from dataclasses import dataclass, replace
+from dataclasses import dataclass
 from datetime import datetime
 from datetime import timezone
 from gzip import GzipFile
@@ -14,7 +14,7 @@ from pathlib import Path
 from socket import AddressFamily
 from threading import Lock
 from typing import Deque, Dict, Type, Optional, cast, Any, ContextManager, IO, Union, Iterable
-from urllib.parse import urlsplit
+from urllib.parse import urljoin, urlsplit
 
 from pkm.config.configclass import ConfigFile, config, config_field
 from pkm.config.configfiles import TomlConfigIO
@@ -347,10 +347,7 @@ class HttpClient:
                             if not (new_location := response.headers.get("Location")):
                                 raise HttpException(
                                     "server responded with redirect but without supplying a new location")
-                            if new_location.startswith("/"):
-                                url = replace(url, path=new_location)
-                            else:
-                                url = Url.parse(new_location)
+                            url = Url.parse(urljoin(str(url), new_location))
                             response.read()
                         else:
                             if response.headers.get('Content-Encoding') == 'gzip':
-- 
2.43.0


From edd69069314ecfb34dcbeafb4d4ba3ed19beb143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 069/159] fix: fragments of urls are not sent to the server

---
 pkm/src/pkm/utils/http/http_client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 23eaae5..8e86b26 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -69,8 +69,7 @@ class Url:
 
     def resource_part(self) -> str:
         query_str = "" if not self.query_string else f"?{self.query_string}"
-        fragment_str = "" if not self.fragment else f"#{self.fragment}"
-        return f"{self.path}{query_str}{fragment_str}"
+        return f"{self.path or '/'}{query_str}"
 
     def __str__(self):
         default_port = (self.scheme == 'https' and self.port == 443) or (self.scheme == 'http' and self.port == 80)
-- 
2.43.0


From fc908957092d9d3789c769a09c98034e09c19bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 070/159] fix: connections that failed or have an unread answer
 are not reused

---
 pkm/src/pkm/utils/http/http_client.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 8e86b26..aeb97fd 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -111,6 +111,9 @@ class _ConnectionProxy(Closeable):
     def __del__(self):
         self.close()
 
+    def disconnect(self):
+        self._conn.close()  # the next request that uses this connection connects again
+
     def close(self):
         if self._conn is not None:
             # noinspection PyProtectedMember
@@ -336,6 +339,7 @@ class HttpClient:
 
         while num_connection_retries < self._max_connection_retries and num_redirects_performed <= max_redirects:
             with self._pool.connection_for(url) as conn:
+                answered = reusable = False
                 try:
                     # print(f"[CONN] using connection {conn.number} to connect to {str(url)}")  # noqa
                     conn.request(mtd, url.resource_part(), headers=headers, body=payload)
@@ -348,14 +352,25 @@ class HttpClient:
                                     "server responded with redirect but without supplying a new location")
                             url = Url.parse(urljoin(str(url), new_location))
                             response.read()
+                            reusable = True
                         else:
-                            if response.headers.get('Content-Encoding') == 'gzip':
-                                yield cast(HTTPResponse, _GzipResponseWrapper(response))
-                            else:
-                                yield response
+                            answered = True
+                            try:
+                                if response.headers.get('Content-Encoding') == 'gzip':
+                                    yield cast(HTTPResponse, _GzipResponseWrapper(response))
+                                else:
+                                    yield response
+                            finally:
+                                # what is left of the body must not be taken for the answer of the next request
+                                reusable = response.length == 0 or (response.length is None and response.isclosed())
                             return
                 except ConnectionError:
+                    if answered:
+                        raise  # whoever uses the answer cannot start again
                     num_connection_retries += 1
+                finally:
+                    if not reusable:
+                        conn.disconnect()
 
         error = "max redirects reached" if num_redirects_performed > self._max_redirects else "connection failed"
         raise HttpException(error)
-- 
2.43.0


From f9e6259dda5da19357e2bde896e4a4d31f5bc379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 071/159] fix: cached resources are kept inside the workspace
 of their client

---
 pkm/src/pkm/utils/http/http_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index aeb97fd..b498659 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -312,7 +312,7 @@ class HttpClient:
 
     def _resource_files_of(self, url: Url) -> FetchedResource:
         url_hash = hashlib.md5(str(url).encode('ascii')).hexdigest()
-        url_path = Path(url.path.lstrip('/'))
+        url_path = Path(*(part for part in Path(url.path.lstrip('/')).parts if part != '..'))
 
         if url_path.parent:
             cache_dir = self.workspace / url.host / url_path.parent / url_hash
-- 
2.43.0


From 256f1671a7ca4324bc69d6edffc8b9ff03ede67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 072/159] fix: toml documents may end with a comment

---
 pkm/src/pkm/config/toml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index c3498b3..1f36deb 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -407,7 +407,7 @@ class _TomlParser(SimpleParser):
             result += self.match_ws(allow_new_lines)
             n = self.peek()
             if n == '#':  # comment
-                result += self.until_match('\n')
+                result += self.until(lambda i, t: t[i] == '\n')
             else:
                 break
 
-- 
2.43.0


From 06f90d16db7c859583f432f2fc60ce5357ed2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 073/159] fix: toml strings may end with an escaped backslash,
 and multiline ones follow the toml specification

---
 pkm/src/pkm/config/toml.py | 42 +++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 1f36deb..a850afa 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -10,6 +10,7 @@ from pkm.utils.parsers import SimpleParser
 _KEY_RX = re.compile(r'[a-zA-Z\d\-_]+')
 KEY_T = Tuple
 DUMPS_T = Callable[[Dict[str, Any]], str]
+_ESCAPES = {'b': '\b', 't': '\t', 'n': '\n', 'f': '\f', 'r': '\r', '"': '"', '\\': '\\'}
 
 
 class _ValueSignature:
@@ -415,31 +416,44 @@ class _TomlParser(SimpleParser):
 
     def read_multiline_basic_str(self) -> str:
         self.match_or_err('"""', 'multiline basic string expected')
-        s = '"""' + self.until_match('"""')
-        while s[-1] == '\\':
-            s += self.next(3) + self.until_match('"""')
-
-        s += '"""'
-        self.match_or_err('"""', 'multiline basic string ending expected')
-
-        return eval(s)
+        self.match('\n')  # a newline that follows the opening is not a part of the string
+        return self._read_basic_str_content('"""')
 
     def read_multiline_literal_str(self) -> str:
         self.match_or_err("'''", 'multiline literal string expected')
+        self.match('\n')  # a newline that follows the opening is not a part of the string
         string = self.until_match("'''")
+        while self.peek(4) == "''''":  # quotes may also be the last characters of the string
+            string += self.next()
         self.match_or_err("'''", "missing multiline literal string closing")
         return string
 
     def read_basic_str(self) -> str:
         self.match_or_err('"', 'basic string expected')
-        s = '"' + self.until_match('"')
-        while s[-1] == '\\':
-            s += self.next() + self.until_match('"')
+        return self._read_basic_str_content('"')
 
-        s += '"'
-        self.match_or_err('"', 'basic string ending expected')
+    def _read_basic_str_content(self, ending: str) -> str:
+        multiline = len(ending) > 1
+        result = ''
+        # quotes may also be the last characters of a multiline string
+        while self.peek(len(ending)) != ending or (multiline and self.peek(len(ending) + 1) == ending + '"'):
+            c = self.next()
+            if not c or (c == '\n' and not multiline):
+                self.raise_err('basic string ending expected')
+            elif c != '\\':
+                result += c
+            elif (escaped := self.next()) and escaped in _ESCAPES:
+                result += _ESCAPES[escaped]
+            elif escaped and escaped in 'uU':
+                digits = self.next(4 if escaped == 'u' else 8)
+                result += chr(int(digits, 16))
+            elif multiline and escaped.isspace():
+                self.match_ws()  # the string continues in the following line
+            else:
+                self.raise_err('unknown escape sequence')
 
-        return eval(s)
+        self.next(len(ending))
+        return result
 
     def read_literal_str(self) -> str:
         self.match_or_err("'", 'literal string expected')
-- 
2.43.0


From b1faf08b5ee78f3ca2b1a32d6fc8bf5d61686de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 074/159] fix: toml dates and all forms of numbers are read,
 also at the end of the document

---
 pkm/src/pkm/config/toml.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index a850afa..561855c 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -9,6 +9,10 @@ from pkm.utils.parsers import SimpleParser
 
 _KEY_RX = re.compile(r'[a-zA-Z\d\-_]+')
 KEY_T = Tuple
+_DATE_RX = re.compile(
+    r'\d{4}-\d\d-\d\d(?:[Tt ]\d\d:\d\d:\d\d(?:\.\d+)?(?:[Zz]|[+-]\d\d:\d\d)?)?|\d\d:\d\d:\d\d(?:\.\d+)?')
+_NUMBER_RX = re.compile(
+    r'0x[\da-fA-F_]+|0o[0-7_]+|0b[01_]+|[+-]?(?:inf|nan|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d[\d_]*)?)')
 DUMPS_T = Callable[[Dict[str, Any]], str]
 _ESCAPES = {'b': '\b', 't': '\t', 'n': '\n', 'f': '\f', 'r': '\r', '"': '"', '\\': '\\'}
 
@@ -543,25 +547,19 @@ class _TomlParser(SimpleParser):
             dtable_key = (*table_key, *key[0:i])
             self.style.update_value_auto_display(dtable_key, {}, display)
 
-    def read_date(self) -> TimeLiteral:
-        ts = self.until(lambda s, i: s[i].isnumeric() or s[i] in '-.: TZ')
-        return TimeLiteral(ts)
-
     def read_number_or_date(self) -> Union[Number, TimeLiteral]:
-        pos = self.position
-
-        sign = (self.match('-') and '-') or (self.match('+') and '+') or ''
-        nstr = sign + self.until(lambda i, s: not s[i].isnumeric() and s[i] not in '.e')
-
-        n = self.peek()
-        if n in '-:':
-            self.position = pos
-            return self.read_date()
+        if date := _DATE_RX.match(self.text[self.position:]):
+            return TimeLiteral(self.next(len(date.group())))
 
-        if not nstr:
+        if not (number := _NUMBER_RX.match(self.text[self.position:])):
             self.raise_err("number expected")
 
-        return eval(nstr)
+        nstr = self.next(len(number.group())).replace('_', '')
+        if nstr[:2] in ('0x', '0o', '0b'):
+            return int(nstr, 0)
+        if any(it in nstr for it in '.eEn'):
+            return float(nstr)
+        return int(nstr)
 
     def read_bool(self) -> bool:
         if self.match('true'):
@@ -619,7 +617,7 @@ class _TomlParser(SimpleParser):
         p = self.position
         n = self.peek()
         result = None
-        if n in "+-" or n.isnumeric():
+        if n in "+-in" or n.isnumeric():
             result = self.read_number_or_date()
             value_str = self.text[p:self.position]
         elif n in '\'"':
-- 
2.43.0


From 9d854d676b2ba9965c061701833482b7f3eb93cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 075/159] fix: toml inline tables may be empty

---
 pkm/src/pkm/config/toml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 561855c..4a29be3 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -679,6 +679,10 @@ class _TomlParser(SimpleParser):
             if not key_start or key_start == '[':
                 break
 
+            if inline and key_start == '}':
+                self.read_non_data()
+                break
+
             k = self.read_key(base_key=table_key)
             self.match_or_err('=', 'expecting assignment')
             v = self.read_inline_value((*table_key, *k))
-- 
2.43.0


From dc6dd0a6e9bfeea3190448b89fb98b10a0fb0561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 076/159] fix: toml tables that follow their sub-tables do not
 replace them

---
 pkm/src/pkm/config/toml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 4a29be3..95ec1d9 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -656,7 +656,10 @@ class _TomlParser(SimpleParser):
 
         if isinstance(data, MutableMapping):
             if len(key) == 1:
-                data[key[0]] = value
+                if isinstance(value, MutableMapping) and isinstance(existing := data.get(key[0]), MutableMapping):
+                    existing.update(value)  # the header of a table may follow those of its sub-tables
+                else:
+                    data[key[0]] = value
                 return
 
             if key[0] not in data:
-- 
2.43.0


From 3796d422a484adea9b9618444de89c18e3d8eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 077/159] fix: toml table headers may contain spaces, what is
 neither an assignment nor a header is refused

---
 pkm/src/pkm/config/toml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 95ec1d9..06bd5ba 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -523,6 +523,7 @@ class _TomlParser(SimpleParser):
         key = tuple(parts)
 
         if table_key:
+            self.match_ws(False)
             self.match_or_err(']', 'expecting table key termination')
 
         if table_list_key:
@@ -703,6 +704,8 @@ class _TomlParser(SimpleParser):
 
     def read_regular_table(self) -> Tuple[KEY_T, Dict[str, Any]]:
         prolog = self.read_non_data()
+        if self.peek() != '[':
+            self.raise_err('expecting table key')
         key = self.read_key()
         self._mark_internal_tables((), key[:-1], 'hidden')
 
-- 
2.43.0


From 44917938c052341a18583370d63d526d9f50c751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 078/159] fix: toml keys with more than one dot are written as
 they were read

---
 pkm/src/pkm/config/toml.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 06bd5ba..85d2098 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -369,22 +369,19 @@ class _Writer:
         result += f"}}{vstyle.epilog}"
         return result
 
-    def _write_dotted_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
-        subkey = self._write_key_part(key)
+    def _write_dotted_table(
+            self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle, offset: Optional[int] = None) -> str:
         result = ""
+        if offset is None:
+            offset = len(key) - 1
 
         def _write_assignment(partial_key: str, item: Any) -> str:
             item_key = (*key, partial_key)
-            key_style = self.style.key_style(item_key)
-            key_str = self._write_key(item_key, len(key), 'assignment')
-            if not key_style.key_str:
-                key_str = f"{subkey}.{key_str}"
-            item_style = self.style.value_style(item_key, item, 'inline')
-            value_str = self._write_value(item, item_key, item_style)
+            if isinstance(item, Mapping) and (item_style := self.style.value_style(item_key, item)).display == 'dotted':
+                return self._write_dotted_table(item, item_key, item_style, offset).rstrip('\n')
 
-            if isinstance(item, Mapping) and item_style.display == 'dotted':
-                return value_str
-            return f"{key_str}={value_str}"
+            key_str = self._write_key(item_key, offset, 'assignment')
+            return f"{key_str}={self._write_value(item, item_key, self.style.value_style(item_key, item, 'inline'))}"
 
         result += '\n'.join(_write_assignment(k, v) for k, v in data.items())
         result += '\n'
-- 
2.43.0


From 2b1deb7540e2ff9d61d0b19ed634878699143c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 079/159] fix: comments after toml lists, inline tables and
 items of lists are kept

---
 pkm/src/pkm/config/toml.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 85d2098..1cafe77 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -585,7 +585,7 @@ class _TomlParser(SimpleParser):
             next_ = self.read_inline_value(item_key)
             item_style = self.style.value_style(item_key, next_)
             item_style.prolog = item_prolog
-            item_style.epilog = self.read_non_data()
+            item_style.epilog += self.read_non_data()
             result.append(next_)
 
             p = self.position
@@ -594,8 +594,7 @@ class _TomlParser(SimpleParser):
 
         content_trailing = content_trailing or self.read_non_data()
         self.match_or_err(']', 'expecting list end')
-        epilog = self.read_non_data(False)
-        self.style.set_value_style(key, result, _ValueStyle(prolog=prolog, epilog=epilog, display='inline',
+        self.style.set_value_style(key, result, _ValueStyle(prolog=prolog, display='inline',
                                                             content_trailing=content_trailing))
         return result
 
@@ -604,8 +603,7 @@ class _TomlParser(SimpleParser):
         self.match_or_err('{', 'expecting inline-table start')
         result = self.read_table_assignments(key, inline=True)
         self.match_or_err('}', 'expecting inline-table end')
-        epilog = self.read_non_data(False)
-        self.style.set_value_style(key, result, _ValueStyle(prolog=prolog, epilog=epilog, display='inline'))
+        self.style.set_value_style(key, result, _ValueStyle(prolog=prolog, display='inline'))
         return result
 
     def read_inline_value(self, key: KEY_T) -> Any:
-- 
2.43.0


From 017128ed6ea231cc21f988f2bca37e3c92549c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 080/159] fix: toml tables that are replaced by values, and the
 other way around, are written as what they are

---
 pkm/src/pkm/config/toml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 1cafe77..1c4eeab 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -107,6 +107,7 @@ class _StyleSheet:
         if display != 'auto' and result.display != display:
             result = copy(result)
             result.display = display
+            result.key_str = None  # it was written for the other display
             if display == 'assignment':
                 result.epilog = ' '
 
-- 
2.43.0


From ee079c7f38bd2245fa0acbe66552208c50276fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 081/159] fix: empty toml tables are written

---
 pkm/src/pkm/config/toml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 1c4eeab..0e42772 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -118,6 +118,9 @@ class _StyleSheet:
         if not predefined_style or not predefined_style.value_sig.is_similar_to(value):
             predefined_style = _DEFAULT_VALUE_STYLE
 
+        if predefined_style.display in ('hidden', 'dotted') and not value:
+            predefined_style = _DEFAULT_VALUE_STYLE  # there is nothing in it that would make it appear
+
         if isinstance(value, (Table, Array)):
             predefined_style = _ValueStyle(**value.style)
 
@@ -133,7 +136,7 @@ class _StyleSheet:
             if isinstance(value, Mapping):
                 is_root = not key
                 is_first_level = len(key) == 1
-                has_no_assignments = all(
+                has_no_assignments = len(value) > 0 and all(
                     isinstance(it, Mapping) or
                     (isinstance(it, List) and self.value_style((*key, k), it).display == 'table-array')
                     for k, it in value.items())
-- 
2.43.0


From 0884cd1d00c0813ecf303cc3424e41dbae279636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 082/159] fix: control characters are escaped in toml strings

---
 pkm/src/pkm/config/toml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 0e42772..2c9094a 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -242,6 +242,7 @@ class _Writer:
         value_str = vstyle.value_str
         if value_str is None:
             escaped = data.translate({
+                **{c: f'\\u{c:04x}' for c in (*range(32), 127)},
                 ord('\b'): '\\b',
                 ord('\t'): '\\t',
                 ord('\n'): '\\n',
-- 
2.43.0


From f97adb9f590395117e7dc8f6afa899cf2af40aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 083/159] fix: sub-tables of toml arrays of tables are written
 as they were read

---
 pkm/src/pkm/config/toml.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 2c9094a..85be094 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -83,9 +83,19 @@ class _StyleSheet:
 
     def lastify(self, key: KEY_T) -> KEY_T:
         lk = len(key) + 1
-        index = sum(len(k) == lk and k[:-1] == key for k in self.keys.keys())
+        index = sum(len(k) == lk and k[:-1] == key and isinstance(k[-1], int) for k in self.keys.keys())
         return *key, index
 
+    def last_items(self, key: KEY_T) -> KEY_T:
+        result = ()
+        for part in key[:-1]:
+            result = (*result, part)
+            *_, index = self.lastify(result)
+            if index > 0:  # an array of tables - its last one is the one that is meant
+                result = (*result, index - 1)
+
+        return *result, *key[-1:]
+
     def set_key_style(self, key: KEY_T, style: _KeyStyle):
         self.keys[key] = style
 
@@ -525,6 +535,7 @@ class _TomlParser(SimpleParser):
         key = tuple(parts)
 
         if table_key:
+            key = self.style.last_items(key)
             self.match_ws(False)
             self.match_or_err(']', 'expecting table key termination')
 
@@ -653,7 +664,7 @@ class _TomlParser(SimpleParser):
                 data.append(value)
                 return
 
-            return self._enter(data[-1], key, value)
+            return self._enter(data[-1], key[1:] if isinstance(key[0], Number) else key, value)
 
         if isinstance(data, MutableMapping):
             if len(key) == 1:
-- 
2.43.0


From 739e29f5499b64b1bca39f9279d8a7625be937a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 084/159] fix: dotted toml keys inside of inline tables are
 written correctly

---
 pkm/src/pkm/config/toml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 85be094..2baf4ae 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -69,6 +69,7 @@ class _KeyStyle:
     prolog: str = ''
     epilog: str = ''
     key_str: Optional[str] = None
+    offset: int = 0  # where in the key key_str starts
     display: str = 'auto'
 
 
@@ -275,7 +276,7 @@ class _Writer:
         result = key_style.prolog
 
         key_str = key_style.key_str
-        if not key_str:
+        if not key_str or key_style.offset != offset:
             key_str = ''
             if display == 'table':
                 key_str += '['
@@ -553,7 +554,7 @@ class _TomlParser(SimpleParser):
             display = 'table-array-item'
 
         self.style.set_key_style((*base_key, *key),
-                                 _KeyStyle(prolog=prolog, epilog=epilog, key_str=key_str, display=display))
+                                 _KeyStyle(prolog=prolog, epilog=epilog, key_str=key_str, offset=len(base_key), display=display))
         return key
 
     def _mark_internal_tables(self, table_key: KEY_T, key: KEY_T, display: str):
-- 
2.43.0


From 667d097af061c7c466aad8ea727604acfa9f9e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 085/159] fix: toml tables with comments that have to be
 written inline are written in one line

---
 pkm/src/pkm/config/toml.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 2baf4ae..5475a32 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -267,12 +267,20 @@ class _Writer:
 
         return f'{vstyle.prolog}{value_str}{vstyle.epilog}'
 
-    def _write_key(self, key: KEY_T, offset: int, display: str) -> str:
+    def _one_line(self, style: Any) -> Any:
+        result = copy(style)
+        result.prolog, result.epilog = (
+            ' ' if '\n' in it or '#' in it else it for it in (result.prolog, result.epilog))
+        return result
+
+    def _write_key(self, key: KEY_T, offset: int, display: str, one_line: bool = False) -> str:
 
         if not key:
             return ''
 
         key_style = self.style.key_style(key, display)
+        if one_line:
+            key_style = self._one_line(key_style)
         result = key_style.prolog
 
         key_str = key_style.key_str
@@ -376,9 +384,9 @@ class _Writer:
 
         def _write_assignment(partial_key: str, item: Any) -> str:
             item_key = (*key, partial_key)
-            item_style = self.style.value_style(item_key, item, 'inline')
+            item_style = self._one_line(self.style.value_style(item_key, item, 'inline'))
 
-            return f"{self._write_key(item_key, len(key), 'assignment')}" \
+            return f"{self._write_key(item_key, len(key), 'assignment', one_line=True)}" \
                    f"={self._write_value(item, item_key, item_style)}"
 
         result += ', '.join(_write_assignment(k, v) for k, v in data.items())
-- 
2.43.0


From aae8aa6385f90540a6ca1e96d14a96abe22fe40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 086/159] fix: toml keys with digits of other scripts are
 quoted

---
 pkm/src/pkm/config/toml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 5475a32..1fd77f3 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -7,7 +7,7 @@ from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, MutableMapp
 
 from pkm.utils.parsers import SimpleParser
 
-_KEY_RX = re.compile(r'[a-zA-Z\d\-_]+')
+_KEY_RX = re.compile(r'[a-zA-Z0-9\-_]+')
 KEY_T = Tuple
 _DATE_RX = re.compile(
     r'\d{4}-\d\d-\d\d(?:[Tt ]\d\d:\d\d:\d\d(?:\.\d+)?(?:[Zz]|[+-]\d\d:\d\d)?)?|\d\d:\d\d:\d\d(?:\.\d+)?')
-- 
2.43.0


From 4319aaaeb2db3ede7ea1b319070de855a7c842b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 087/159] fix: contact information is kept as it was written in
 the project configuration

---
 .../api/projects/pyproject_configuration.py   | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 4ae90da..b91e891 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import re
 from collections import defaultdict
 from dataclasses import dataclass, replace
-from email.header import Charset  # noqa
 from email.utils import specialsre, escapesre  # noqa
 from pathlib import Path
 from typing import List, Optional, Union, Dict, Mapping, Any, Iterator, Type
@@ -29,29 +28,23 @@ class BuildSystemConfig:
     backend_path: List[str] = config_field(key='backend-path')
 
 
-_contect_info_charset = Charset('utf-8')
-
-
 @dataclass(eq=True)
 @config
 class ContactInfo:
     name: str = None
     email: str = None
 
-    def __post_init__(self):
+    def __str__(self) -> str:
         """
-        adjusted from source of email.utils.formataddr, make sure the given name is according to rfc822
+        :return: this contact as it should appear in the package metadata, following pep-621
         """
-        try:
-            self.name.encode('ascii')
-        except UnicodeEncodeError:
-            self.name = _contect_info_charset.header_encode(self.name)
-        else:
-            quotes = ''
-            if specialsre.search(self.name):
-                quotes = '"'
-            name = escapesre.sub(r'\\\g<0>', self.name)
-            self.name = f"{quotes}{name}{quotes}"
+        if not self.name or not self.email:
+            return self.name or self.email or ''
+
+        # adjusted from source of email.utils.formataddr
+        quotes = '"' if specialsre.search(self.name) else ''
+        name = escapesre.sub(r'\\\g<0>', self.name)
+        return f"{quotes}{name}{quotes} <{self.email}>"
 
 
 def _entrypoints_from_config(group: str, ep: Dict[str, str]) -> List[EntryPoint]:
-- 
2.43.0


From 43cd60576a6a9634b65398be04fb362a1d7098e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 088/159] fix: package metadata describes all the authors,
 maintainers, keywords and urls of the project

---
 pkm/src/pkm/api/packages/package_metadata.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 84360f6..2be0ca8 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -101,11 +101,11 @@ class PackageMetadata(ConfigFile):
         #    with the format {name} <{email}> (with appropriate quoting, e.g. using email.headerregistry.Address).
         # 4. Multiple values should be separated by commas.
 
-        author_names = [a.name for a in (prjc.authors or []) if a.name]
-        author_emails = [a.email for a in (prjc.authors or []) if a.email]
+        author_names = [str(a) for a in (prjc.authors or []) if a.name and not a.email]
+        author_emails = [str(a) for a in (prjc.authors or []) if a.email]
 
-        maintainer_names = [a.name for a in (prjc.authors or []) if a.name]
-        maintainer_emails = [a.email for a in (prjc.authors or []) if a.email]
+        maintainer_names = [str(a) for a in (prjc.maintainers or []) if a.name and not a.email]
+        maintainer_emails = [str(a) for a in (prjc.maintainers or []) if a.email]
 
         extras = list((prjc.optional_dependencies or {}).keys())
         all_deps = prjc.all_dependencies
@@ -114,9 +114,11 @@ class PackageMetadata(ConfigFile):
             'Metadata-Version': _METADATA_VERSION,
             'Name': prjc.name, 'Version': str(prjc.version),
             'Summary': prjc.description, 'Description': prjc.readme_content(),
-            'Description-Content-Type': prjc.readme_content_type(), 'Keywords': prjc.keywords or [],
-            'Author': ', '.join(author_names), 'Author-email': ', '.join(author_emails),
-            'Maintainer': ', '.join(maintainer_names), 'Maintainer-email': ', '.join(maintainer_emails),
+            'Description-Content-Type': prjc.readme_content_type(), 'Keywords': ','.join(prjc.keywords or []) or None,
+            'Author': ', '.join(author_names) or None, 'Author-email': ', '.join(author_emails) or None,
+            'Maintainer': ', '.join(maintainer_names) or None,
+            'Maintainer-email': ', '.join(maintainer_emails) or None,
+            'Project-URL': [f"{label}, {url}" for label, url in (prjc.urls or {}).items()],
             'License': prjc.license_content(), 'Classifier': prjc.classifiers,
             'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': str(prjc.requires_python),
             'Provides-Extra': extras,
-- 
2.43.0


From 40a87b0e04b28c87a045db8c860925f7dbadecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 089/159] fix: entry points of projects can be loaded, gui
 scripts belong to the gui scripts group

---
 pkm/src/pkm/api/projects/pyproject_configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index b91e891..f89c7a2 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -158,13 +158,13 @@ class ProjectConfig:
     def entry_points(self) -> Mapping[str, List[EntryPoint]]:
         result: Dict[str, List[EntryPoint]] = defaultdict(list)
         if self._entry_points:
-            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self.entry_points.values()})
+            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self._entry_points.items()})
         if self._scripts:
             result[EntryPoint.G_CONSOLE_SCRIPTS] \
                 .extend(_entrypoints_from_config(EntryPoint.G_CONSOLE_SCRIPTS, self._scripts))
         if self._gui_scripts:
             result[EntryPoint.G_GUI_SCRIPTS] \
-                .extend(_entrypoints_from_config(EntryPoint.G_CONSOLE_SCRIPTS, self._gui_scripts))
+                .extend(_entrypoints_from_config(EntryPoint.G_GUI_SCRIPTS, self._gui_scripts))
 
         return result
 
-- 
2.43.0


From 74b5071d038a86538a3b1962304eb203126e46d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 090/159] fix: optional dependencies that have an environment
 marker are only required with their extra

---
 pkm/src/pkm/api/projects/pyproject_configuration.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index f89c7a2..ae336b5 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -187,10 +187,11 @@ class ProjectConfig:
         all_deps = [d for d in (self.dependencies or [])]
         optional_deps = self.optional_dependencies or {}
         for od_group, deps in optional_deps.items():
-            extra_rx = re.compile(f'extra\\s*==\\s*(\'{od_group}\'|"{od_group}")')
+            group_rx = re.escape(od_group)
+            extra_rx = re.compile(f'extra\\s*==\\s*(\'{group_rx}\'|"{group_rx}")')
             for dep in deps:
-                if not dep.env_marker or not extra_rx.match(str(dep.env_marker)):
-                    new_marker = (str(dep.env_marker).rstrip(';') + ';') if dep.env_marker else ''
+                if not dep.env_marker or not extra_rx.fullmatch(str(dep.env_marker).strip()):
+                    new_marker = f"({dep.env_marker}) and " if dep.env_marker else ''
                     new_marker = f"{new_marker}extra==\'{od_group}\'"
                     all_deps.append(replace(dep, env_marker=EnvironmentMarker.parse_pep508(new_marker)))
                 else:
-- 
2.43.0


From f5003e79bf34ac5806d4a877dddb5a5277b4b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 091/159] fix: configuration values that equal their defaults
 are not invented when saving projects

---
 pkm/src/pkm/api/packages/package_metadata.py      |  3 ++-
 .../pkm/api/projects/pyproject_configuration.py   | 15 +++++++++------
 pkm/src/pkm/config/configclass.py                 | 13 +++++++++----
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 2be0ca8..26fb34f 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -89,7 +89,8 @@ class PackageMetadata(ConfigFile):
     summary: str = config_field(key="Summary")
     description: str = config_field(key="Description")
     dependencies: List[Dependency] = config_field(key="Requires-Dist", default_factory=list)
-    required_python_spec: VersionSpecifier = config_field(key="Requires-Python", default=AllowAllVersions)
+    required_python_spec: VersionSpecifier = config_field(
+        key="Requires-Python", default=AllowAllVersions, omit_default=True)
     leftovers = config_field(leftover=True)
 
     @classmethod
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index ae336b5..2427245 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -136,19 +136,22 @@ class ProjectConfig:
     # data in the corresponding field means that a user tool provides it dynamically
     dynamic: List[str] = None
     # The Python version requirements of the project.
-    requires_python: VersionSpecifier = config_field(key="requires-python", default=AllowAllVersions)
+    requires_python: VersionSpecifier = config_field(
+        key="requires-python", default=AllowAllVersions, omit_default=True)
     # The dependencies of the project.
-    dependencies: List[Dependency] = config_field(default_factory=list)
+    dependencies: List[Dependency] = config_field(default_factory=list, omit_default=True)
     # The optional dependencies of the project, grouped by the 'extra' name that provides them.
-    optional_dependencies: Dict[str, List[Dependency]] = config_field(key="optional-dependencies", default_factory=dict)
+    optional_dependencies: Dict[str, List[Dependency]] = config_field(
+        key="optional-dependencies", default_factory=dict, omit_default=True)
     # The actual text or Path to a text file containing the full description of this project.
     readme: Union[Path, str, None] = config_field(codec=_TextOrFileConfigFieldCodec(True))
     # The project licence identifier or path to the actual licence file
     license: Union[str, Path, None] = config_field(codec=_TextOrFileConfigFieldCodec(False))
     # list of entry points, following https://packaging.python.org/en/latest/specifications/entry-points/.
-    _entry_points: Dict[str, Dict[str, str]] = config_field(key="entry-points", default_factory=dict)
-    _scripts: Dict[str, str] = config_field(key="scripts", default_factory=dict)
-    _gui_scripts: Dict[str, str] = config_field(key="gui-scripts", default_factory=dict)
+    _entry_points: Dict[str, Dict[str, str]] = config_field(
+        key="entry-points", default_factory=dict, omit_default=True)
+    _scripts: Dict[str, str] = config_field(key="scripts", default_factory=dict, omit_default=True)
+    _gui_scripts: Dict[str, str] = config_field(key="gui-scripts", default_factory=dict, omit_default=True)
 
     leftovers = config_field(leftover=True)
 
diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index 39b3f94..bb9310e 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -315,10 +315,8 @@ class ConfigCodec:
                 if value is None:
                     if schema.required:
                         raise ValueError(f"required field is missing: {field}")
-                    elif schema.default_factory:
-                        value = schema.default_factory()
                     else:
-                        value = schema.default
+                        value = schema.default_value()
                 else:
                     codec = schema.codec or self.field_codec_for_or_none(schema.type)
                     if not codec:
@@ -345,6 +343,8 @@ class ConfigCodec:
         for field, schema in field_schema.items():
             value = getattr(config_object, field, None)
             if value is not None:
+                if schema.omit_default and value == schema.default_value():
+                    continue
                 if schema.leftover:
                     target_config.update(value)
                     continue
@@ -374,6 +374,10 @@ class ConfigField:
     type: Type[_T] = None
     leftover: bool = False
     key: str = None
+    omit_default: bool = False
+
+    def default_value(self) -> Any:
+        return self.default_factory() if self.default_factory else self.default
 
     def to_dataclass_field(self) -> dataclasses.Field:
         if self.default_factory:
@@ -384,7 +388,8 @@ class ConfigField:
 
 def config_field(
         *, required: bool = False, codec: ConfigFieldCodec = None, default: Any = None,
-        default_factory: Callable[[], Any] = None, leftover: bool = False, key: str = None) -> Any:
+        default_factory: Callable[[], Any] = None, leftover: bool = False, key: str = None,
+        omit_default: bool = False) -> Any:
     return ConfigField(**locals())
 
 
-- 
2.43.0


From 584e66a5b7b43fea8ea3b5c29dd8b1c70e29a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 092/159] fix: optional configuration fields are parsed by the
 codec of their actual type

---
 pkm/src/pkm/config/configclass.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index bb9310e..a729a76 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -393,6 +393,14 @@ def config_field(
     return ConfigField(**locals())
 
 
+def _remove_optional(type_: Type) -> Type:
+    if typing.get_origin(type_) is typing.Union:
+        actual_types = [t for t in typing.get_args(type_) if t is not type(None)]
+        if len(actual_types) == 1:
+            return actual_types[0]
+    return type_
+
+
 def config(cls: Type[_T] = None, *, io: ConfigIO = None) -> Type[_T]:
     """
     important note: if you want to apply both config and dataclass, use first dataclass and then config
@@ -403,6 +411,7 @@ def config(cls: Type[_T] = None, *, io: ConfigIO = None) -> Type[_T]:
 
         config_schema = {}
         for field, type_ in annotated_fields.items():
+            type_ = _remove_optional(type_)
             schema = getattr(cls_, field, None)
             if schema or not field.startswith("_"):
 
-- 
2.43.0


From c13234f140c27da33fc29c9598e2ee4ae3ce8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 093/159] fix: saving a configuration does not overwrite its
 nested tables with the unrecognized ones

---
 pkm/src/pkm/config/configclass.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index a729a76..9535f45 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -269,6 +269,15 @@ def _shove_key(config_: _RAW_CONFIG_T, key: str, value: Any):
     config_[parts[-1]] = value
 
 
+def _merge(target: _RAW_CONFIG_T, source: _RAW_CONFIG_T):
+    for key, value in source.items():
+        target_value = target.get(key)
+        if isinstance(target_value, dict) and isinstance(value, Mapping):
+            _merge(target_value, value)
+        else:
+            target[key] = {**value} if isinstance(value, Mapping) else value
+
+
 class ConfigCodec:
 
     def __init__(self, field_codecs: Mapping[Type, ConfigFieldCodec] = None):
@@ -346,7 +355,7 @@ class ConfigCodec:
                 if schema.omit_default and value == schema.default_value():
                     continue
                 if schema.leftover:
-                    target_config.update(value)
+                    _merge(target_config, value)
                     continue
                 elif codec := schema.codec or self.field_codec_for_or_none(schema.type):
                     try:
-- 
2.43.0


From d3f8770d8ce622b548b9b8d607651a828cb85f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 094/159] fix: readme and license files are looked for in the
 directory of the project

---
 pkm/src/pkm/api/packages/package_metadata.py  | 13 +++++++++----
 pkm/src/pkm/api/projects/project.py           |  4 ++--
 .../api/projects/pyproject_configuration.py   | 19 ++++++++++++++-----
 pkm/src/pkm/build/pkm_builders.py             |  4 ++--
 4 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 26fb34f..6a2e014 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -5,7 +5,7 @@ from dataclasses import dataclass
 from email.message import EmailMessage
 from email.parser import Parser
 from pathlib import Path
-from typing import List, TYPE_CHECKING, Dict, Any
+from typing import List, TYPE_CHECKING, Dict, Any, Optional
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.versions.version import Version
@@ -94,7 +94,12 @@ class PackageMetadata(ConfigFile):
     leftovers = config_field(leftover=True)
 
     @classmethod
-    def from_project_config(cls, prjc: "ProjectConfig") -> PackageMetadata:
+    def from_project_config(cls, prjc: "ProjectConfig", root: Optional[Path] = None) -> PackageMetadata:
+        """
+        :param prjc: the project configuration to create the metadata from
+        :param root: the directory of the project, the files that are named by the configuration are relative to it
+        :return: the created metadata
+        """
         # filling authors and maintainers according to pep-621:
         # 1. If only name is provided, the value goes in Author/Maintainer as appropriate.
         # 2. If only email is provided, the value goes in Author-email/Maintainer-email as appropriate.
@@ -114,13 +119,13 @@ class PackageMetadata(ConfigFile):
         data = {
             'Metadata-Version': _METADATA_VERSION,
             'Name': prjc.name, 'Version': str(prjc.version),
-            'Summary': prjc.description, 'Description': prjc.readme_content(),
+            'Summary': prjc.description, 'Description': prjc.readme_content(root),
             'Description-Content-Type': prjc.readme_content_type(), 'Keywords': ','.join(prjc.keywords or []) or None,
             'Author': ', '.join(author_names) or None, 'Author-email': ', '.join(author_emails) or None,
             'Maintainer': ', '.join(maintainer_names) or None,
             'Maintainer-email': ', '.join(maintainer_emails) or None,
             'Project-URL': [f"{label}, {url}" for label, url in (prjc.urls or {}).items()],
-            'License': prjc.license_content(), 'Classifier': prjc.classifiers,
+            'License': prjc.license_content(root), 'Classifier': prjc.classifiers,
             'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': str(prjc.requires_python),
             'Provides-Extra': extras,
             # 'Dynamic': prjc.dynamic or [], add back when pypi supports metadata version 2.2
diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 46b8458..70014b4 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -84,7 +84,7 @@ class Project(Package, HasAttachedRepository, Serializable):
 
     @cached_property
     def published_metadata(self) -> Optional[PackageMetadata]:
-        return PackageMetadata.from_project_config(self.config.project)
+        return PackageMetadata.from_project_config(self.config.project, self.path)
 
     def compute_metadata(self, env: Environment) -> PackageMetadata:
         if self.config.project.dynamic:
@@ -340,7 +340,7 @@ class Project(Package, HasAttachedRepository, Serializable):
         if not publisher:
             raise UnsupportedOperationException(f"the given repository ({repository.name}) is not publishable")
 
-        metadata = PackageMetadata.from_project_config(self._pyproject.project)
+        metadata = PackageMetadata.from_project_config(self._pyproject.project, self.path)
         for distribution in distributions_dir.iterdir():
             if distribution.is_file():
                 publisher.publish(auth_args, metadata, distribution)
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 2427245..f0c7bad 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -204,15 +204,20 @@ class ProjectConfig:
     def package_descriptor(self) -> PackageDescriptor:
         return PackageDescriptor(self.name, self.version)
 
-    def readme_content(self) -> str:
+    def readme_content(self, root: Optional[Path] = None) -> str:
+        """
+        :param root: the project directory, readme file is relative to it
+        :return: the text of the project readme
+        """
         if not self.readme:
             return ""
 
         if isinstance(self.readme, str):
             return self.readme
 
-        if self.readme.exists():
-            return self.readme.read_text()
+        readme_file = (root or Path()) / self.readme
+        if readme_file.exists():
+            return readme_file.read_text(encoding='utf-8')
 
         return ""
 
@@ -236,14 +241,18 @@ class ProjectConfig:
 
         return 'text/plain'
 
-    def license_content(self) -> str:
+    def license_content(self, root: Optional[Path] = None) -> str:
+        """
+        :param root: the project directory, license file is relative to it
+        :return: the text of the project license
+        """
         if not self.license:
             return ""
 
         if isinstance(self.license, str):
             return self.license
 
-        return self.license.read_text()
+        return ((root or Path()) / self.license).read_text(encoding='utf-8')
 
 
 _LEGACY_PROJECT_DYNAMIC = [
diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index cf530d4..59f6a7f 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -132,9 +132,9 @@ class _BuildContext:
         dst.mkdir(exist_ok=True, parents=True)
         project_config: ProjectConfig = self.pyproject.project
 
-        PackageMetadata.from_project_config(project_config).save(di.metadata_path())
+        PackageMetadata.from_project_config(project_config, self.project.path).save(di.metadata_path())
         di.license_path().write_text(
-            project_config.license_content())
+            project_config.license_content(self.project.path), encoding='utf-8')
 
         # TODO: probably later we will want to add the version of pkm in the generator..
         WheelFileConfiguration.create(generator="pkm", purelib=True).save(di.wheel_path())
-- 
2.43.0


From 4097610349de73d07bb8e90146e0e77eb5512dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 095/159] fix: readme string names a file, as defined by pep
 621, and its content type is kept

---
 .../api/projects/pyproject_configuration.py   | 61 +++++++++++--------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index f0c7bad..84a35c7 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -5,7 +5,7 @@ from collections import defaultdict
 from dataclasses import dataclass, replace
 from email.utils import specialsre, escapesre  # noqa
 from pathlib import Path
-from typing import List, Optional, Union, Dict, Mapping, Any, Iterator, Type
+from typing import List, Optional, Dict, Mapping, Any, Iterator, Type
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.dependencies.env_markers import EnvironmentMarker
@@ -82,30 +82,38 @@ class PkmProjectConfig:
     group: Optional[str] = None  # TODO: remove group and use conventions only?
 
 
+@dataclass(eq=True, frozen=True)
+class TextOrFile:
+    text: Optional[str] = None
+    file: Optional[Path] = None
+    content_type: Optional[str] = None
+
+
 class _TextOrFileConfigFieldCodec(ConfigFieldCodec):
 
-    def __init__(self, allows_raw_text: bool):
-        self._allows_raw_text = allows_raw_text
+    def __init__(self, allows_raw_path: bool):
+        self._allows_raw_path = allows_raw_path
 
-    def parse(self, parent: ConfigCodec, type_: Type, v: Any) -> Union[Path, str, None]:
-        if self._allows_raw_text and isinstance(v, str):
-            return v
+    def parse(self, parent: ConfigCodec, type_: Type, v: Any) -> TextOrFile:
+        if self._allows_raw_path and isinstance(v, str):
+            return TextOrFile(file=Path(v))
 
         if not isinstance(v, Mapping):
             raise ValueError(f"malformed value: {v}")
 
         if 'text' in v:
-            return v['text']
+            return TextOrFile(text=v['text'], content_type=v.get('content-type'))
         else:
-            return Path(v['file'])
+            return TextOrFile(file=Path(v['file']), content_type=v.get('content-type'))
 
-    def unparse(self, parent: ConfigCodec, type_: Type, v: Union[Path, str, None]) -> Any:
-        if isinstance(v, Path):
-            return {'file': str(v)}
-        elif self._allows_raw_text:
-            return v
-        else:
-            return {'text': v}
+    def unparse(self, parent: ConfigCodec, type_: Type, v: TextOrFile) -> Any:
+        if self._allows_raw_path and v.file and not v.content_type:
+            return str(v.file)
+
+        result = {'file': str(v.file)} if v.file else {'text': v.text}
+        if v.content_type:
+            result['content-type'] = v.content_type
+        return result
 
 
 @dataclass(eq=True)
@@ -144,9 +152,9 @@ class ProjectConfig:
     optional_dependencies: Dict[str, List[Dependency]] = config_field(
         key="optional-dependencies", default_factory=dict, omit_default=True)
     # The actual text or Path to a text file containing the full description of this project.
-    readme: Union[Path, str, None] = config_field(codec=_TextOrFileConfigFieldCodec(True))
+    readme: Optional[TextOrFile] = config_field(codec=_TextOrFileConfigFieldCodec(True))
     # The project licence identifier or path to the actual licence file
-    license: Union[str, Path, None] = config_field(codec=_TextOrFileConfigFieldCodec(False))
+    license: Optional[TextOrFile] = config_field(codec=_TextOrFileConfigFieldCodec(False))
     # list of entry points, following https://packaging.python.org/en/latest/specifications/entry-points/.
     _entry_points: Dict[str, Dict[str, str]] = config_field(
         key="entry-points", default_factory=dict, omit_default=True)
@@ -212,10 +220,10 @@ class ProjectConfig:
         if not self.readme:
             return ""
 
-        if isinstance(self.readme, str):
-            return self.readme
+        if not self.readme.file:
+            return self.readme.text
 
-        readme_file = (root or Path()) / self.readme
+        readme_file = (root or Path()) / self.readme.file
         if readme_file.exists():
             return readme_file.read_text(encoding='utf-8')
 
@@ -232,8 +240,11 @@ class ProjectConfig:
             yield from gui_scripts
 
     def readme_content_type(self) -> str:
-        if self.readme and isinstance(self.readme, Path):
-            readme_suffix = self.readme.suffix
+        if self.readme and self.readme.content_type:
+            return self.readme.content_type
+
+        if self.readme and self.readme.file:
+            readme_suffix = self.readme.file.suffix
             if readme_suffix == '.md':
                 return 'text/markdown'
             elif readme_suffix == '.rst':
@@ -249,10 +260,10 @@ class ProjectConfig:
         if not self.license:
             return ""
 
-        if isinstance(self.license, str):
-            return self.license
+        if not self.license.file:
+            return self.license.text
 
-        return ((root or Path()) / self.license).read_text(encoding='utf-8')
+        return ((root or Path()) / self.license.file).read_text(encoding='utf-8')
 
 
 _LEGACY_PROJECT_DYNAMIC = [
-- 
2.43.0


From eea022c7ea86889ca639b0d137b7de95eac15f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 096/159] fix: package metadata fields are written without
 being folded or encoded, and read with their description

---
 pkm/src/pkm/api/packages/package_metadata.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 6a2e014..e8e8900 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import warnings
 from dataclasses import dataclass
+from email import policy
 from email.message import EmailMessage
 from email.parser import Parser
 from pathlib import Path
@@ -23,11 +24,14 @@ _MULTI_FIELDS = {
     'Obsoletes-Dist', 'Requires-External', 'Project-URL', 'Dynamic'
 }
 
+# package metadata is a utf-8 file, encoding or folding its fields changes their values
+_METADATA_POLICY = policy.default.clone(max_line_length=None, utf8=True, cte_type='8bit')
+
 
 class PackageMetadataIO(ConfigIO):
 
     def write(self, path: Path, data: Dict[str, Any]):
-        msg = EmailMessage()
+        msg = EmailMessage(policy=_METADATA_POLICY)
         for key, value in data.items():
             if value is None:
                 continue
@@ -50,14 +54,14 @@ class PackageMetadataIO(ConfigIO):
         if payload := data.get("Description"):
             msg.set_payload(payload)
 
-        path.write_text(msg.as_string())
+        path.write_text(msg.as_string(), encoding='utf-8')
 
     def read(self, path: Path) -> Dict[str, Any]:
         if not path.exists():
             return {}
 
         parser = Parser()
-        with path.open('r', errors="ignore") as path_fd:
+        with path.open('r', encoding='utf-8', errors="ignore") as path_fd:
             content = parser.parse(path_fd)
 
             data = {}
@@ -72,6 +76,9 @@ class PackageMetadataIO(ConfigIO):
                 else:
                     data[key] = value
 
+            if description := content.get_payload():
+                data['Description'] = description
+
         return data
 
 
-- 
2.43.0


From a16210ac45be28ba431ceb0f2a57a2f58c8cc106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 097/159] fix: projects and their metadata follow the changes
 in their configuration

---
 pkm/src/pkm/api/projects/project.py                 | 5 ++---
 pkm/src/pkm/api/projects/pyproject_configuration.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 70014b4..f61f563 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -37,7 +37,6 @@ class Project(Package, HasAttachedRepository, Serializable):
     def __init__(self, pyproject: PyProjectConfiguration, group: Optional["ProjectGroup"] = None):
         self._path = pyproject.path.absolute().parent
         self._pyproject = pyproject
-        self._descriptor = pyproject.project.package_descriptor()
         if group:
             self.group = group  # noqa
 
@@ -82,7 +81,7 @@ class Project(Package, HasAttachedRepository, Serializable):
         """
         return self._path
 
-    @cached_property
+    @property
     def published_metadata(self) -> Optional[PackageMetadata]:
         return PackageMetadata.from_project_config(self.config.project, self.path)
 
@@ -96,7 +95,7 @@ class Project(Package, HasAttachedRepository, Serializable):
 
     @property
     def descriptor(self) -> PackageDescriptor:
-        return self._descriptor
+        return self._pyproject.project.package_descriptor()
 
     def dependencies(
             self, target: "PackageInstallationTarget", extras: Optional[List[str]] = None) -> List["Dependency"]:
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 84a35c7..c7f4f75 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -15,7 +15,6 @@ from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions
 from pkm.config.configclass import config, config_field, ConfigFieldCodec, ConfigCodec, ConfigFile
 from pkm.config.configfiles import TomlConfigIO
-from pkm.utils.properties import cached_property
 
 
 @dataclass(eq=True)
@@ -165,7 +164,7 @@ class ProjectConfig:
 
     # all_fields: Dict[str, Any]
 
-    @cached_property
+    @property
     def entry_points(self) -> Mapping[str, List[EntryPoint]]:
         result: Dict[str, List[EntryPoint]] = defaultdict(list)
         if self._entry_points:
@@ -193,7 +192,7 @@ class ProjectConfig:
         """
         return (d := self.dynamic) and field in d  # noqa
 
-    @cached_property
+    @property
     def all_dependencies(self) -> List[Dependency]:
         all_deps = [d for d in (self.dependencies or [])]
         optional_deps = self.optional_dependencies or {}
-- 
2.43.0


From b59c5acc5890cad321e551f3f51c3baf3f082805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 098/159] fix: source distributions keep the configured
 location of the packages, the readme and the license

---
 pkm/src/pkm/build/pkm_builders.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index 59f6a7f..b83ae95 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -41,10 +41,12 @@ def build_sdist(project: Project, target_dir: Optional[Path] = None) -> Path:
         shutil.copy(dist_info_path / "METADATA", data_dir / "PKG-INFO")
         bc.pyproject.save(data_dir / 'pyproject.toml')
 
-        if bc.pyproject.pkm_project.packages:
-            bc.copy_sources(data_dir)
+        if packages := bc.pyproject.pkm_project.packages:
+            for package in packages:
+                bc.copy_package(project.path / package, data_dir / package)
         else:
             bc.copy_sources(data_dir / 'src')
+        bc.copy_described_files(data_dir)
 
         with tarfile.open(sdist_path, 'w:gz', format=tarfile.PAX_FORMAT) as sdist:
             for file in data_dir.glob('*'):
@@ -156,9 +158,20 @@ class _BuildContext:
             return
 
         for package_dir in dirs.src_packages:
-            destination = dst / package_dir.name
-            if package_dir.exists():
-                shutil.copytree(package_dir, destination, ignore=ignore_patterns('__pycache__'))
-            else:
-                raise FileNotFoundError(f"the package {package_dir}, which is specified in pyproject.toml"
-                                        " has no corresponding directory in project")
+            self.copy_package(package_dir, dst / package_dir.name)
+
+    def copy_package(self, package_dir: Path, destination: Path):
+        if package_dir.exists():
+            shutil.copytree(package_dir, destination, ignore=ignore_patterns('__pycache__'))
+        else:
+            raise FileNotFoundError(f"the package {package_dir}, which is specified in pyproject.toml"
+                                    " has no corresponding directory in project")
+
+    def copy_described_files(self, dst: Path):
+        """
+        copy the files that are named by the project configuration (readme and license) into `dst`
+        """
+        for described in (self.pyproject.project.readme, self.pyproject.project.license):
+            if described and described.file and (source := self.project.path / described.file).exists():
+                (dst / described.file).parent.mkdir(parents=True, exist_ok=True)
+                shutil.copy(source, dst / described.file)
-- 
2.43.0


From 873a9f7b4affee1e4e2ed04f33e8cefe6257e706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 099/159] fix: only importable directories are the packages of
 a project

---
 pkm/src/pkm/api/projects/project.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index f61f563..6b31adb 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -386,7 +386,9 @@ class ProjectDirectories:
         else:
             if not (src_dir := project_path / 'src').exists():
                 src_dir = project_path
-            packages = [p for p in src_dir.iterdir() if p.is_dir()]
+            non_packages = {'__pycache__'} if src_dir != project_path else {'__pycache__', 'dist', 'etc'}
+            packages = [
+                p for p in src_dir.iterdir() if p.is_dir() and p.name.isidentifier() and p.name not in non_packages]
 
         etc_pkm = project_path / 'etc' / 'pkm'
         etc_pkm.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 4098df476a518614e3802445245eb07cb8c84642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 100/159] fix: wheels of projects can be named for every range
 of required python versions

---
 pkm/src/pkm/api/distributions/wheel_distribution.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index afabd9d..8aee271 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -74,11 +74,13 @@ class WheelDistribution(Distribution):
         project_config = project.config.project
         req = project_config.requires_python
 
-        min_interpreter: StandardVersion = req.min \
-            if req and isinstance(req, StandardVersionRange) else \
-            StandardVersion((Environment.current().interpreter_version.release[0],))
+        current_major = Environment.current().interpreter_version.release[0]
+        min_interpreter = req.min if isinstance(req, StandardVersionRange) else None
+        min_release = min_interpreter.release[:2] if min_interpreter else (current_major,)
 
-        req_interpreter = 'py' + ''.join(str(it) for it in min_interpreter.release[:2])
+        req_interpreter = 'py' + ''.join(str(it) for it in min_release)
+        if min_release[0] < current_major and req.allows_version(Environment.current().interpreter_version):
+            req_interpreter += f".py{current_major}"
         return f"{project.descriptor.expected_src_package_name}-{project.version}-{req_interpreter}-none-any.whl"
 
     @classmethod
-- 
2.43.0


From df18e52f4e0ad4f0a96c9c6f40613f3fb7e4ad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 101/159] fix: project groups find their root, parent and
 children

---
 pkm/src/pkm/api/projects/project_group.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index ee85537..fb44800 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -17,6 +17,10 @@ if TYPE_CHECKING:
     from pkm.api.repositories.repository_management import RepositoryManagement
 
 
+def _group_config_file(path: Path) -> Path:
+    return path / 'pyproject-group.toml' if path.is_dir() else path
+
+
 class ProjectGroup(HasAttachedRepository, Serializable):
     """
     project group, like the name implies, is a group of projects
@@ -57,18 +61,18 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         :return: the parent of this project group (if such exists)
         """
         if not (parent := self._config.parent):
-            return ProjectGroup._find_group(self.path.resolve())
+            return ProjectGroup._find_group(self.path)
         else:
-            return ProjectGroup(PyProjectGroupConfiguration.load(
-                ensure_exists(parent, lambda: f"{self.path}'s parent path {parent} doesn't exists")
-            ))
+            parent_path = self.path / parent
+            ensure_exists(parent_path, lambda: f"{self.path}'s parent path {parent} doesn't exists")
+            return ProjectGroup(PyProjectGroupConfiguration.load(_group_config_file(parent_path)))
 
     @cached_property
     def root(self) -> Optional["ProjectGroup"]:
         """
         :return: the top most parent of this project group
         """
-        return parent.root if (parent := self.parent) else None
+        return parent.root if (parent := self.parent) else self
 
     @cached_property
     def children(self) -> Iterable[Union[Project, "ProjectGroup"]]:
@@ -79,7 +83,7 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         for child in self._config.resolved_children:
             if (child / 'pyproject.toml').exists():
                 result.append(Project.load(child, group=self))
-            elif (child / 'pyproject-group.toml').exists:
+            elif (child / 'pyproject-group.toml').exists():
                 result.append(
                     ProjectGroup(PyProjectGroupConfiguration.load(child / 'pyproject-group.toml'), parent=self))
 
@@ -137,6 +141,7 @@ class ProjectGroup(HasAttachedRepository, Serializable):
 
     @classmethod
     def _find_group(cls, path: Path) -> Optional["ProjectGroup"]:
+        path = path.resolve()
         for path_parent in path.parents:
             if (group_config_file := (path_parent / 'pyproject-group.toml')).exists():
                 group_config = PyProjectGroupConfiguration.load(group_config_file)
@@ -151,7 +156,7 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         :return: the project group if such defined
         """
         if (pkm_project := project.config.pkm_project) and (group := pkm_project.group):
-            return ProjectGroup(PyProjectGroupConfiguration.load(Path(project.path, group)))
+            return ProjectGroup(PyProjectGroupConfiguration.load(_group_config_file(Path(project.path, group))))
         return cls._find_group(project.path)
 
     @classmethod
-- 
2.43.0


From 5e6a3783d65d6ff7505817a1396361d53a86675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 102/159] fix: projects are added to groups by their path
 relative to the group

---
 pkm/src/pkm/api/projects/project_group.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index fb44800..cff7078 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -8,7 +8,7 @@ from pkm.api.projects.environments_config import EnvironmentsConfiguration, ENVI
 from pkm.api.projects.project import Project
 from pkm.config.configclass import config, ConfigFile, config_field
 from pkm.config.configfiles import TomlConfigIO
-from pkm.utils.files import ensure_exists
+from pkm.utils.files import ensure_exists, path_to
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import single_or_raise
 from pkm.utils.properties import cached_property
@@ -111,8 +111,10 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         """
 
         project_path = project if isinstance(project, Path) else project.path
-        self._config.children.append(project_path)
-        self._config.save()
+        if project_path.resolve() not in self._config.resolved_children:
+            self._config.children.append(path_to(self.path.resolve(), project_path.resolve()))
+            self._config.save()
+        del self.children, self.project_children_recursive
 
     def remove(self, project: Union[str, Path]):
         """
@@ -127,6 +129,7 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         self._config.children = [
             p for p, rp in zip(self._config.children, self._config.resolved_children) if rp != project]
         self._config.save()
+        del self.children, self.project_children_recursive
 
     def build_all(self):
         """
-- 
2.43.0


From 3399c97995db4178e58692b4a342b5126a8877ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 103/159] fix: object references accept extras without an
 object and surrounding spaces

---
 pkm/src/pkm/utils/entrypoints.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/utils/entrypoints.py b/pkm/src/pkm/utils/entrypoints.py
index da1afdd..ff60e6c 100644
--- a/pkm/src/pkm/utils/entrypoints.py
+++ b/pkm/src/pkm/utils/entrypoints.py
@@ -11,7 +11,8 @@ from pkm.api.packages.package import PackageDescriptor
 from pkm.utils.commons import UnsupportedOperationException
 
 # noinspection RegExpRedundantEscape
-_OBJ_REF_RX = re.compile(r"(?P<mdl>[^:]*)(:(?P<obj>[^\[]*)\s*(\[\s*(?P<ext>[^\]]*)\s*\])?)?")
+_OBJ_REF_RX = re.compile(
+    r"\s*(?P<mdl>[^:\[\]\s]+)\s*(:\s*(?P<obj>[^:\[\]]*?)\s*)?(\[\s*(?P<ext>[^\]]*?)\s*\]\s*)?")
 _EXT_DELIM_RX = re.compile("\\s*,\\s*")
 
 
@@ -50,12 +51,12 @@ class ObjectReference:
 
     @classmethod
     def parse(cls, refstr: str) -> "ObjectReference":
-        if not (match := _OBJ_REF_RX.match(refstr)):
+        if not (match := _OBJ_REF_RX.fullmatch(refstr)):
             raise ValueError(f"could not parse object reference from string: '{refstr}'")
 
         module_path = match.group('mdl')
-        object_path = match.group('obj')
-        extras = _EXT_DELIM_RX.split(ext.strip()) if (ext := match.group('ext')) else None
+        object_path = match.group('obj') or None
+        extras = _EXT_DELIM_RX.split(ext) if (ext := match.group('ext')) else None
 
         return ObjectReference(module_path, object_path, extras)
 
-- 
2.43.0


From 2edc3309b29b8a32ac401ebd9aa49b275bd8abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 104/159] fix: ini configuration values are kept as they are

---
 pkm/src/pkm/config/configfiles.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index fa1df95..2df8693 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -37,6 +37,10 @@ class JsonConfigIO(ConfigIO):
 class _CaseSensitiveConfigParser(configparser.ConfigParser):
     optionxform = staticmethod(str)
 
+    def __init__(self):
+        # values may contain '%' and names may contain ':'
+        super().__init__(delimiters=('=',), interpolation=None)
+
 
 class INIConfigIO(ConfigIO):
     def write(self, path: Path, data: _RAW_CONFIG_T):
@@ -50,13 +54,13 @@ class INIConfigIO(ConfigIO):
             else:
                 cp.set("", key_or_section, value_or_content)
 
-        with path.open("w") as out:
+        with path.open("w", encoding='utf-8') as out:
             cp.write(out)
 
     def read(self, path: Path) -> _RAW_CONFIG_T:
         data = {}
         cp = _CaseSensitiveConfigParser()
-        cp.read(str(path))
+        cp.read(str(path), encoding='utf-8')
         for section_name, section_values in cp.items():
             if section_name and section_name != cp.default_section:
                 data[section_name] = {**section_values}
-- 
2.43.0


From 7a23084ada519c55c9717d0396b869197eb9a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 105/159] fix: blank lines in record files are not records

---
 pkm/src/pkm/config/configfiles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index 2df8693..cea4087 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -105,12 +105,12 @@ class CSVConfigIO(ConfigIO):
         self._headers = headers
 
     def write(self, path: Path, data: _RAW_CONFIG_T):
-        with path.open('w+', newline='') as new_record_fd:
+        with path.open('w+', newline='', encoding='utf-8') as new_record_fd:
             for record in data['records']:
                 csv.writer(new_record_fd).writerow(record[c] for c in self._headers)
 
     def read(self, path: Path) -> _RAW_CONFIG_T:
-        with path.open('r', newline='') as records_fd:
+        with path.open('r', newline='', encoding='utf-8') as records_fd:
             return {
                 "records": [
-                    {self._headers[i]: c for i, c in enumerate(record)} for record in csv.reader(records_fd)]}
+                    {self._headers[i]: c for i, c in enumerate(record)} for record in csv.reader(records_fd) if record]}
-- 
2.43.0


From 9dfc7dadaabff671bbe9f3079b347c016bfe35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 106/159] fix: scripts of entry points call the referenced
 function, and only when they are run

---
 pkm/src/pkm/utils/entrypoints.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/utils/entrypoints.py b/pkm/src/pkm/utils/entrypoints.py
index ff60e6c..7b2dc86 100644
--- a/pkm/src/pkm/utils/entrypoints.py
+++ b/pkm/src/pkm/utils/entrypoints.py
@@ -39,7 +39,7 @@ class ObjectReference:
 
     def import_object(self) -> Any:
         module = self.import_module()
-        return reduce(getattr, self.object_path.split("."), module)
+        return reduce(getattr, self.object_path.split("."), module) if self.object_path else module
 
     def execution_script_snippet(self) -> str:
         if not self.object_path:
@@ -47,7 +47,12 @@ class ObjectReference:
                 f"{str(self)} cannot be used as script generator - "
                 f"it must be of the format module.path:zero.arg.function.path")
 
-        return f"import sys;import {self.module_path};sys.exit({self.module_path}.{self.object_path}())"
+        # note that `import module.path` does not work when the package has an attribute with the name of the module,
+        # and that the script may be imported by child processes (see the main guard in the multiprocessing docs)
+        imported, *attributes = self.object_path.split('.')
+        function = '.'.join(['entry_point', *attributes])
+        return f"import sys\nfrom {self.module_path} import {imported} as entry_point\n" \
+               f"if __name__ == '__main__':\n    sys.exit({function}())\n"
 
     @classmethod
     def parse(cls, refstr: str) -> "ObjectReference":
-- 
2.43.0


From c86b2b143b8e4ec5039156215a99818e11d7bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 107/159] fix: windows script launchers are created

---
 pkm/src/pkm/launchers/__init__.py    | 8 ++++----
 pkm/src/pkm/launchers/executables.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/launchers/__init__.py b/pkm/src/pkm/launchers/__init__.py
index f0746cd..44b9c0c 100644
--- a/pkm/src/pkm/launchers/__init__.py
+++ b/pkm/src/pkm/launchers/__init__.py
@@ -31,8 +31,8 @@ def build_windows_script_launcher(
 
     op_plat = env.operating_platform
     arch_suffix = '-arm' if op_plat.has_arm_cpu() else ''
-    launcher_kind = 't' if is_gui else 'w'
-    launcher_name = f"{launcher_kind}{arch_suffix}{op_plat.os_bits}.exe"
+    launcher_kind = 'w' if is_gui else 't'
+    launcher_name = f"{launcher_kind}{op_plat.os_bits}{arch_suffix}.exe"
 
     launcher_data = resources.read_binary('pkm.launchers', launcher_name)
 
@@ -40,7 +40,7 @@ def build_windows_script_launcher(
     with result_file.open('wb') as result_fd:
         result_fd.write(launcher_data)
         result_fd.write(f"#!{env.interpreter_path.absolute()}\r\n".encode())
-        with ZipFile(result_fd) as result_zip_fd:
+        with ZipFile(result_fd, 'w') as result_zip_fd:
             result_zip_fd.writestr("__main__.py", script.encode())
 
     return result_file
@@ -61,5 +61,5 @@ def build_windows_entrypoint_launcher(
 
     return build_windows_script_launcher(
         env, target_dir, entrypoint.name, entrypoint.ref.execution_script_snippet(),
-        entrypoint.group == EntryPoint.G_CONSOLE_SCRIPTS
+        entrypoint.group == EntryPoint.G_GUI_SCRIPTS
     )
diff --git a/pkm/src/pkm/launchers/executables.py b/pkm/src/pkm/launchers/executables.py
index c04d77c..5079e7a 100644
--- a/pkm/src/pkm/launchers/executables.py
+++ b/pkm/src/pkm/launchers/executables.py
@@ -72,4 +72,4 @@ class Executables:
 
         return Executables.generate(
             env, target_dir, entrypoint.name, entrypoint.ref.execution_script_snippet(),
-            entrypoint.group == EntryPoint.G_CONSOLE_SCRIPTS)
+            entrypoint.group == EntryPoint.G_GUI_SCRIPTS)
-- 
2.43.0


From 722c3916b2d37b4b408c4a4f01d3c4dbfbe2aba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 108/159] fix: scripts that ask for pythonw run with an
 interpreter that exists

---
 pkm/src/pkm/launchers/executables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/launchers/executables.py b/pkm/src/pkm/launchers/executables.py
index 5079e7a..d7367e0 100644
--- a/pkm/src/pkm/launchers/executables.py
+++ b/pkm/src/pkm/launchers/executables.py
@@ -25,9 +25,11 @@ class Executables:
         with source.open('rb') as script_fd, target.open('wb+') as target_fd:
             first_line = script_fd.readline()
             if first_line.startswith(b"#!python"):
-                w = 'w' if first_line.startswith(b"#!pythonw") else ''
+                gui_interpreter_path = interpreter_path.with_name(f"{interpreter_path.stem}w{interpreter_path.suffix}")
+                if first_line.startswith(b"#!pythonw") and gui_interpreter_path.exists():
+                    interpreter_path = gui_interpreter_path
                 target_fd.write(
-                    f"#!{interpreter_path.absolute()}{w}{os.linesep}".encode(sys.getfilesystemencoding()))
+                    f"#!{interpreter_path.absolute()}{os.linesep}".encode(sys.getfilesystemencoding()))
             else:
                 target_fd.write(first_line)
 
-- 
2.43.0


From 617094f93345a182bcf213b47ba41907def6e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 109/159] fix: generated scripts are written as utf-8, the
 encoding of python sources

---
 pkm/src/pkm/launchers/executables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/launchers/executables.py b/pkm/src/pkm/launchers/executables.py
index d7367e0..34cc42a 100644
--- a/pkm/src/pkm/launchers/executables.py
+++ b/pkm/src/pkm/launchers/executables.py
@@ -56,7 +56,7 @@ class Executables:
             source = f"#!{env.interpreter_path.absolute()}\n{script}"
 
             result_script_path = target_dir / file_name
-            result_script_path.write_text(source)
+            result_script_path.write_text(source, encoding='utf-8')
 
             st = os.stat(result_script_path)
             os.chmod(result_script_path, st.st_mode | stat.S_IEXEC)
-- 
2.43.0


From 0aeb63dcb716d5d755d70f01f1e4e394445d9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 110/159] fix: environments do not have to be writable in order
 to be used

---
 pkm/src/pkm/api/environments/environment_introspection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 009479e..e979d99 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -421,8 +421,11 @@ class EnvironmentIntrospection:
         if save_if_recomputed:
             data = result._data
             data['introspection'] = current_introspection_sentinal
-            path.parent.mkdir(exist_ok=True, parents=True)
-            path.write_text(json.dumps(data))
+            try:
+                path.parent.mkdir(exist_ok=True, parents=True)
+                path.write_text(json.dumps(data))
+            except OSError as err:
+                warnings.warn(f"could not save env introspection: {err}")
 
         return result
 
-- 
2.43.0


From 47d35abf4817f27b0b24edd6c06ac42bd8bd39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 111/159] fix: windows and arm platforms are recognized

---
 pkm/src/pkm/api/environments/environment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment.py b/pkm/src/pkm/api/environments/environment.py
index 3997669..d0cb9b3 100644
--- a/pkm/src/pkm/api/environments/environment.py
+++ b/pkm/src/pkm/api/environments/environment.py
@@ -359,10 +359,10 @@ class OperatingPlatform:
     python_interpreter_bits: int  # 32 or 64
 
     def has_windows_os(self) -> bool:
-        return self.os == 'Windows'
+        return self.os == 'windows'
 
     def has_x86_cpu(self) -> bool:
         return self.machine in ("i386", "amd64", "x86", "x86_64")
 
     def has_arm_cpu(self) -> bool:
-        return 'armv71' in self.machine or 'aarch64' in self.machine
+        return self.machine.startswith('arm') or 'aarch64' in self.machine
-- 
2.43.0


From da13546379e269bd47bbcbcba16b241c4e469509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 112/159] fix: commands can be executed in an environment with
 the default variables and arguments

---
 pkm/src/pkm/api/environments/environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment.py b/pkm/src/pkm/api/environments/environment.py
index d0cb9b3..fc9934f 100644
--- a/pkm/src/pkm/api/environments/environment.py
+++ b/pkm/src/pkm/api/environments/environment.py
@@ -206,8 +206,9 @@ class Environment(HasAttachedRepository, Serializable):
         :param env: environment variables
         """
 
+        env = dict(os.environ) if env is None else env
         with self.activate(env):
-            execvpe(cmd, args, env)
+            execvpe(cmd, args or [], env)
 
     def run_proc(self, args: List[str], **subprocess_run_kwargs) -> CompletedProcess:
         """
-- 
2.43.0


From 32f5898168547b697d4843b2ed3dc8e570e27962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 113/159] fix: records without a hash or a size can be saved

---
 pkm/src/pkm/config/configfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index cea4087..80db972 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -107,7 +107,7 @@ class CSVConfigIO(ConfigIO):
     def write(self, path: Path, data: _RAW_CONFIG_T):
         with path.open('w+', newline='', encoding='utf-8') as new_record_fd:
             for record in data['records']:
-                csv.writer(new_record_fd).writerow(record[c] for c in self._headers)
+                csv.writer(new_record_fd).writerow(record.get(c, '') for c in self._headers)
 
     def read(self, path: Path) -> _RAW_CONFIG_T:
         with path.open('r', newline='', encoding='utf-8') as records_fd:
-- 
2.43.0


From 2176bdfce5f6cc6650900637046bdbfb35a2ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 114/159] fix: links between artifacts do not keep the dist
 directory from being cleaned

---
 pkm/src/pkm/api/projects/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 6b31adb..6e21faa 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -370,7 +370,7 @@ class ProjectDirectories:
         keep_versions = set(str(p) for p in (keep_versions or []))
 
         for file in self.dist.iterdir():
-            if file.is_dir():
+            if file.is_dir() and not file.is_symlink():
                 if file.name in keep_versions:
                     continue
                 shutil.rmtree(file)
-- 
2.43.0


From 948e5d789a48d43cf6b1e52bfe986feae47333fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 115/159] fix: projects can be removed by name from groups that
 have groups in them

---
 pkm/src/pkm/api/projects/project_group.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index cff7078..8d18c33 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -46,6 +46,13 @@ class ProjectGroup(HasAttachedRepository, Serializable):
     def config(self) -> "PyProjectGroupConfiguration":
         return self._config
 
+    @property
+    def name(self) -> str:
+        """
+        :return: the name of this group
+        """
+        return self._config.name
+
     @cached_property
     def environments_config(self) -> EnvironmentsConfiguration:
         return EnvironmentsConfiguration.load(self.path / ENVIRONMENT_CONFIGURATION_PATH)
-- 
2.43.0


From 29342ad136f703fbe26e33b7267f91aaa3ba4c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 116/159] fix: relative environment paths are relative to the
 project or group that configures them

---
 pkm/src/pkm/api/projects/project.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 6e21faa..14a717c 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -209,18 +209,18 @@ class Project(Package, HasAttachedRepository, Serializable):
         :return: the virtual environment that is attached to this project
         """
 
-        cfg = self.environments_config.attached_env
+        cfg, cfg_path = self.environments_config.attached_env, self.path
         if not cfg and self.group:
-            cfg = self.group.environments_config.attached_env
+            cfg, cfg_path = self.group.environments_config.attached_env, self.group.path
 
         cfg = cfg or AttachedEnvironmentConfig()
 
         if not cfg.path and not cfg.zoo:
             env_path = self.path / ".venv"
         elif cfg.path:
-            env_path = cfg.path
+            env_path = cfg_path / cfg.path
         else:
-            env_path = cfg.zoo / self.name
+            env_path = cfg_path / cfg.zoo / self.name
 
         from pkm.api.environments.environment import Environment
 
-- 
2.43.0


From 0aaedbf1940b8be8847165f3f5a0af01455c9fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 117/159] fix: configured environment paths that hold other
 files are not deleted

---
 pkm/src/pkm/api/projects/project.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 14a717c..77f1a2b 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -226,6 +226,9 @@ class Project(Package, HasAttachedRepository, Serializable):
 
         if not Environment.is_venv_path(env_path):
             if env_path.exists():
+                if (cfg.path or cfg.zoo) and not (env_path / 'pyvenv.cfg').exists() and any(env_path.iterdir()):
+                    raise FileExistsError(f"{env_path} is configured as the environment of {self.name} "
+                                          f"but contains files that do not belong to an environment")
                 shutil.rmtree(env_path)
 
             return EnvironmentBuilder.create_matching(
-- 
2.43.0


From e97e3d1b98108b7f0a745aa913344ce3978398da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 118/159] fix: the requirements that are generalized from
 installed versions are valid and end at the next major version

---
 pkm/src/pkm/api/packages/package.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index dcc507c..b21e19a 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -50,9 +50,10 @@ class PackageDescriptor:
         if generalize:
             installed_version = self.version
             if isinstance(installed_version, StandardVersion):
+                # note that pep440 does not allow local labels in ranges
                 spec = StandardVersionRange(
-                    installed_version,
-                    replace(installed_version, release=(installed_version.release[0] + 1,)),
+                    replace(installed_version, local_label=None),
+                    StandardVersion(epoch=installed_version.epoch, release=(installed_version.release[0] + 1,)),
                     True, False)
 
         return Dependency(self.name, spec)
-- 
2.43.0


From a552107e18b435b510c896c32c7b4d02c32e1466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 119/159] fix: requirements that are added to a project keep
 their extras and markers

---
 pkm-cli/src/pkm_cli/controllers/prj_controller.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/controllers/prj_controller.py b/pkm-cli/src/pkm_cli/controllers/prj_controller.py
index 061c83b..5c8cdf4 100644
--- a/pkm-cli/src/pkm_cli/controllers/prj_controller.py
+++ b/pkm-cli/src/pkm_cli/controllers/prj_controller.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+from dataclasses import replace
 from typing import Optional, List, Iterable, Dict
 
 from pkm.api.dependencies.dependency import Dependency
@@ -71,12 +72,14 @@ class PrjController:
             Display.print("Updating pyproject & lock")
             site_packages = self.prj.attached_environment.site_packages
             for dependency in dependencies:
-                if dependency.version_spec is AllowAllVersions:
+                if dependency.version_spec is AllowAllVersions and dependency.is_applicable_for(
+                        self.prj.attached_environment, [optional_group] if optional_group else []):
                     installed = site_packages.installed_package(dependency.package_name)
                     assert installed, f"could not find {dependency.package_name}"
                     dependency_index = seq(configured_dependencies) \
                         .index_of_matching(lambda it: it.package_name_key == dependency.package_name_key)
-                    configured_dependencies[dependency_index] = installed.descriptor.to_dependency(generalize=True)
+                    configured_dependencies[dependency_index] = replace(
+                        dependency, version_spec=installed.descriptor.to_dependency(generalize=True).version_spec)
 
             self.prj.config.save()
             self.prj.lock.update_lock(self.prj.attached_environment).save()
-- 
2.43.0


From 92814f28b893aa27ca59e29f756b258be7a190e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 120/159] fix: the output of programs does not have to be
 utf-8, and the programs that are monitored are waited for

---
 pkm/src/pkm/utils/processes.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pkm/src/pkm/utils/processes.py b/pkm/src/pkm/utils/processes.py
index 26063e4..d4d198e 100644
--- a/pkm/src/pkm/utils/processes.py
+++ b/pkm/src/pkm/utils/processes.py
@@ -23,21 +23,15 @@ def monitored_run(execution_name: str, cmd: List[str], **subprocess_run_kwargs)
     with ProcessExecutionMonitoredOp(execution_name, cmd) as mpo:
         subprocess_run_kwargs['stdout'] = subprocess.PIPE
         subprocess_run_kwargs['stderr'] = subprocess.STDOUT
-        proc = subprocess.Popen(cmd, **subprocess_run_kwargs)
-        stdout = proc.stdout
 
-        def decode(line):  # noqa
-            nonlocal decode
-            if hasattr(line, 'decode'):
-                decode = lambda line: line.decode()  # noqa
-            else:
-                decode = lambda line: line  # noqa
-
-            return decode(line)
+        def decode(line):
+            return line.decode(errors='replace') if hasattr(line, 'decode') else line
 
-        while (line := stdout.readline()) or (rcode := proc.poll()) is None:
-            ProcessExecutionOutputLineEvent(decode(line).strip()).notify(mpo)
+        with subprocess.Popen(cmd, **subprocess_run_kwargs) as proc:
+            while line := proc.stdout.readline():
+                ProcessExecutionOutputLineEvent(decode(line).strip()).notify(mpo)
 
+        rcode = proc.returncode
         ProcessExecutionExitEvent(rcode).notify(mpo)
         return CompletedProcess(cmd, rcode)
 
-- 
2.43.0


From e676bd812698b1e75ad8bf98f364db58841ac119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 121/159] fix: commands are given exactly the variables that
 are asked for

---
 pkm/src/pkm/api/environments/environment.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment.py b/pkm/src/pkm/api/environments/environment.py
index fc9934f..a4851dc 100644
--- a/pkm/src/pkm/api/environments/environment.py
+++ b/pkm/src/pkm/api/environments/environment.py
@@ -188,12 +188,12 @@ class Environment(HasAttachedRepository, Serializable):
             if old_path is not None:
                 env["PATH"] = old_path
             else:
-                del env["PATH"]
+                env.pop("PATH", None)
 
             if old_venv is not None:
                 env["VIRTUAL_ENV"] = old_venv
             else:
-                del env["VIRTUAL_ENV"]
+                env.pop("VIRTUAL_ENV", None)
 
     def exec_proc(self, cmd: str, args: Optional[List[str]] = None,
                   env: Optional[Dict[str, str]] = None) -> NoReturn:
@@ -219,11 +219,8 @@ class Environment(HasAttachedRepository, Serializable):
         :param subprocess_run_kwargs: any argument that is accepted by `subprocess.run` (aside from args)
         :return: a `CompletedProcess` instance describing the completion of the requested process
         """
-        env = {}
-        if extra_env := subprocess_run_kwargs.get('env'):
-            env.update(extra_env)
-        else:
-            env.update(os.environ)
+        requested_env = subprocess_run_kwargs.get('env')
+        env = dict(os.environ if requested_env is None else requested_env)
 
         subprocess_run_kwargs['env'] = env
         with self.activate(env):
-- 
2.43.0


From 348a16a451befdfa8363c69dd2721da42d14a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 122/159] fix: promises answer whether they have failed with a
 boolean

---
 pkm/src/pkm/utils/promises.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/promises.py b/pkm/src/pkm/utils/promises.py
index e432a52..9e83fd7 100644
--- a/pkm/src/pkm/utils/promises.py
+++ b/pkm/src/pkm/utils/promises.py
@@ -194,7 +194,7 @@ class _SimplePromise(Promise[_T]):
         return self._done
 
     def is_failed(self) -> bool:
-        return self._done and self._err
+        return self._done and self._err is not None
 
     def request_cancel(self) -> bool:
         return False
-- 
2.43.0


From 37892a1e0b3940a1ed8a8de49954fdab8c1b351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 123/159] fix: exclusions in lists of version clauses also
 exclude the local versions

---
 .../pkm/api/versions/version_specifiers.py    | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index e0ef635..0474398 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -259,24 +259,37 @@ class HetroVersionIntersection(VersionSpecifier):
         return HashBuilder().unordered_seq(self.blacklist).regular(self.standard_spec).build()
 
     def allows_version(self, version: Version) -> bool:
-        if version in self.blacklist:
+        if not all(VersionMatch(it, False).allows_version(version) for it in self.blacklist):
             return False
 
         return not isinstance(version, StandardVersion) or self.standard_spec.allows_version(version)
 
+    def _allows_part_of_blacklist(self, other: VersionSpecifier) -> bool:
+        # a blacklisted version stands for its local versions too, of which other may allow only some
+        return any(not other.allows_version(it) and other.allows_any(VersionMatch(it)) for it in self.blacklist)
+
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion)):
             return other.union_with(self)
 
         if isinstance(other, HetroVersionIntersection):
+            if self._allows_part_of_blacklist(other) or other._allows_part_of_blacklist(self):
+                return VersionsUnion([self, other])
+
             blacklist = {it for it in self.blacklist if not other.allows_version(it)}
             blacklist.update(it for it in other.blacklist if not self.allows_version(it))
             return HetroVersionIntersection.create(blacklist, self.standard_spec.union_with(other.standard_spec))
 
         if isinstance(other, VersionMatch) and not other.allow:
-            return AllowAllVersions if self.allows_version(other.version) else other
+            excluded = other.inverse()
+            if self.allows_all(excluded):
+                return AllowAllVersions
+            return VersionsUnion([self, other]) if self.allows_any(excluded) else other
 
         if isinstance(other, (VersionMatch, StandardVersionRange)):
+            if self._allows_part_of_blacklist(other):
+                return VersionsUnion([self, other])
+
             blacklist = {it for it in self.blacklist if not other.allows_version(it)}
             standard_spec = self.standard_spec
             if not isinstance(other, VersionMatch) or isinstance(other.version, StandardVersion):
@@ -296,9 +309,7 @@ class HetroVersionIntersection(VersionSpecifier):
 
         if isinstance(other, VersionMatch):
             if isinstance(other.version, StandardVersion) and other.allow:
-                if self.standard_spec.allows_version(other.version) and other.version not in self.blacklist:
-                    return other
-                return RestrictAllVersions
+                return HetroVersionIntersection.create(self.blacklist, self.standard_spec.intersect_with(other))
 
             if other.allow:
                 if other.version in self.blacklist:
@@ -465,6 +476,9 @@ class VersionMatch(VersionSpecifier):
                 return RestrictAllVersions
             if self.allow or other.allow:
                 if my_ver == ot_ver:
+                    allowed, excluded = (self, other) if self.allow else (other, self)
+                    if excluded.version.is_local() and not allowed.version.is_local():
+                        return HetroVersionIntersection({excluded.version}, allowed)
                     return RestrictAllVersions
                 return self if self.allow else other
             return HetroVersionIntersection({self.version, other.version}, AllowAllVersions)
-- 
2.43.0


From b3aa38e1b11911fb219e2437568fd2867d7423ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 124/159] fix: unions of single versions and exclusions are
 simplified

---
 pkm/src/pkm/api/versions/version_specifiers.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 0474398..43fe8b6 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -369,6 +369,9 @@ class HetroVersionIntersection(VersionSpecifier):
         standard_spec = VersionsUnion(segments) if len(segments) > 1 else segments[0]
         blacklist = {it for it in blacklist if not isinstance(it, StandardVersion) or standard_spec.allows_version(it)}
 
+        # local versions are also excluded by their public version
+        blacklist = {it for it in blacklist if not it.is_local() or it.without_local() not in blacklist}
+
         if standard_spec is RestrictAllVersions:
             return RestrictAllVersions
         if len(blacklist) == 0:
@@ -437,11 +440,17 @@ class VersionMatch(VersionSpecifier):
             return other.union_with(self)
 
         if isinstance(other, VersionMatch):
-            if self == other:
+            overlap = self.intersect_with(other)
+            if overlap == self:
+                return other
+            if overlap == other:
                 return self
 
-            if self.version == other.version:
-                if self.allow != other.allow:
+            if not self.allow and not other.allow:
+                return AllowAllVersions  # they exclude different versions
+            if self.allow != other.allow:
+                allowed, excluded = (self, other) if self.allow else (other, self)
+                if allowed.allows_version(excluded.version):
                     return AllowAllVersions
 
         if isinstance(other, StandardVersionRange):
@@ -481,7 +490,7 @@ class VersionMatch(VersionSpecifier):
                         return HetroVersionIntersection({excluded.version}, allowed)
                     return RestrictAllVersions
                 return self if self.allow else other
-            return HetroVersionIntersection({self.version, other.version}, AllowAllVersions)
+            return HetroVersionIntersection.create({self.version, other.version}, AllowAllVersions)
 
         if isinstance(other, StandardVersionRange) and isinstance(self.version, StandardVersion):
             if other.allows_version(self.version):
-- 
2.43.0


From 9924dfd75ae08232b67c3c0e1df921759d60c5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 125/159] fix: toml values replaced by equal ones of another
 type are written

---
 pkm/src/pkm/config/toml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 1fd77f3..bc3c7f8 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -29,7 +29,9 @@ class _ValueSignature:
             # return type(other) == type(self._value)
             return isinstance(other, type(self._value))
 
-        return id(self._value) == id(other) or self._value == other
+        # 1, 1.0 and true are equal but are not the same value
+        return id(self._value) == id(other) or \
+            (type(self._value) is type(other) and repr(self._value) == repr(other))
 
 
 _none_signature = _ValueSignature(None)
-- 
2.43.0


From 3ddb5795a4ea7971c4d132bbfda22fa170d08a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 126/159] fix: command lines are not cut at arguments that are
 empty, nor lose a lone dash

---
 pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py b/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
index 3817edb..7cce6e4 100644
--- a/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
+++ b/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
@@ -585,10 +585,10 @@ class DynamicCommandLine:
         self._expand_positional_dynamics()
 
         try:
-            while next_ := self._buffer.peek_or_none():
+            while (next_ := self._buffer.peek_or_none()) is not None:
                 node = self._command.ast
 
-                if next_.startswith("-"):  # long option
+                if next_.startswith("-") and next_ != "-":  # long option
                     self._read_option_or_flag()
                 elif next_.startswith("+"):
                     raise CommandParsingError(
-- 
2.43.0


From d7ac3379165983f2e2ce7302e2a7d8cf7ae8496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 127/159] fix: values after the equals sign of an option are
 taken as they are, and refused by flags

---
 .../pkm_cli/api/dynamic_cli/command_parser.py | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py b/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
index 7cce6e4..9f13cde 100644
--- a/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
+++ b/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
@@ -398,8 +398,9 @@ def command_definitions_from(env: Union[Iterable[Any], Dict[str, Any]]) -> List[
 
 class ArgumentsBuffer:
     def __init__(self, args: List[str], index: int = 0):
-        self._args = args
+        self._args = list(args)
         self._index = index
+        self._assigned_value_index: Optional[int] = None
 
     def skip(self):
         self._index += 1
@@ -425,14 +426,23 @@ class ArgumentsBuffer:
         if not (option_ := self.peek_or_none()):
             raise CommandParsingError("option expected")
 
-        okey, _, oval = option_.partition("=")
-        if oval:
-            self._args[self._index] = oval.strip()
-        else:
-            self._index += 1
+        okey, assignment, oval = option_.partition("=")
+        self._args[self._index:self._index + 1] = [okey, oval] if assignment else [okey]
+        self._index += 1
+        self._assigned_value_index = self._index if assignment else None
 
         return okey.strip()
 
+    def is_at_assigned_value(self) -> bool:
+        """
+        :return: True if the next argument is the `value` of an option that was given as `option=value`
+        """
+        return self._assigned_value_index == self._index
+
+    def ensure_assigned_value_read(self, option_: str):
+        if self.is_at_assigned_value():
+            raise CommandParsingError(f"{option_} does not accept a value")
+
     def remaining(self) -> int:
         return len(self._args) - self._index
 
@@ -505,12 +515,14 @@ class DynamicCommandLine:
 
             subfields_map: Dict[str, ArgumentDef] = {name: it for it in subfields for name in it.defined_names}
 
-            while (next_ := self._buffer.peek_or_none()) and next_.startswith("+"):
+            while (next_ := self._buffer.peek_or_none()) and next_.startswith("+") \
+                    and not self._buffer.is_at_assigned_value():
                 option_ = self._buffer.next_option_key()
                 if not (option_def := subfields_map.get(option_)):
                     raise CommandParsingError(f"unrecognized field: {option_} for target: {arg_def.display_name}")
 
                 value[option_def.field_name] = option_def.read_value(self._command, self._buffer)
+                self._buffer.ensure_assigned_value_read(option_)
 
             for subfield in subfields:
                 if subfield.field_name not in value:
@@ -555,7 +567,6 @@ class DynamicCommandLine:
     def _get_option(self, key: str) -> OptionDef:
         node = self._command.ast
         if not (option_def := node.options.get(key) or self._global_options.get(key)):
-            print(f"options: {node.options} as ast: {node.path} | cdef={node.command_def}")
             raise CommandParsingError(f"unknown option: {key}")
         return option_def
 
@@ -581,6 +592,8 @@ class DynamicCommandLine:
             if need_value:
                 self._read_option_value(need_value)
 
+        self._buffer.ensure_assigned_value_read(next_)
+
     def parse(self) -> Command:
         self._expand_positional_dynamics()
 
-- 
2.43.0


From cfba881786b618732698aaf9815feec6a82d9183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 128/159] fix: values that an argument cannot have are reported
 as parsing errors

---
 pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py b/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
index 9f13cde..882fdcb 100644
--- a/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
+++ b/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
@@ -142,7 +142,12 @@ class DefaultArgumentReader(ArgumentReader):
 
     def read(self, cmd: Command, argument: ArgumentDef, buf: ArgumentsBuffer) -> Any:
         v = buf.next_or_raise(f"value is expected for {argument.display_name}")
-        return self.type(v)
+        try:
+            if self.type is bool:
+                return {'true': True, 'yes': True, 'false': False, 'no': False}[v.lower()]
+            return self.type(v)
+        except (ValueError, KeyError) as e:
+            raise CommandParsingError(f"illegal value for argument {argument.display_name}: {v}") from e
 
     def value_hint(self) -> str:
         return camel_case_to_upper_snake_case(self.type.__name__)
-- 
2.43.0


From 69b9fa7f66555fc6aa275252997330f8d9733927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 129/159] fix: the contexts of all the parents of a command are
 open while it executes

---
 .../pkm_cli/api/dynamic_cli/command_parser.py | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py b/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
index 882fdcb..090d35a 100644
--- a/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
+++ b/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import inspect
 import re
 from abc import abstractmethod
+from contextlib import ExitStack
 from dataclasses import dataclass, field, replace
 from types import FunctionType, GeneratorType
 from typing import List, Protocol, Optional, Dict, Callable, TypeVar, Iterable, Any, Tuple, Union, Mapping, Literal, \
@@ -65,16 +66,26 @@ class Command:
         if self.parse_error:
             raise self.parse_error
 
-        parent_context = None
-        if self.parent and (parent_context := as_instance(self.parent.execute(), GeneratorType)):
-            next(parent_context, None)
+        contexts: List[GeneratorType] = []
         try:
-            if (cmd_def := self.ast.command_def) and not cmd_def.dynamic:
-                return cmd_def.execution(self)
-            return None
+            for parent in self.parents():
+                # noinspection PyProtectedMember
+                if parent_context := as_instance(parent._execute(), GeneratorType):
+                    next(parent_context, None)
+                    contexts.append(parent_context)
+            return self._execute()
         finally:
-            if parent_context:
-                next(parent_context, None)
+            with ExitStack() as stack:
+                for context in contexts:
+                    stack.callback(next, context, None)
+
+    def _execute(self) -> Any:
+        if self.parse_error:
+            raise self.parse_error
+
+        if (cmd_def := self.ast.command_def) and not cmd_def.dynamic:
+            return cmd_def.execution(self)
+        return None
 
     def print_help(self):
         from pkm_cli.api.dynamic_cli.help_generator import generate_usage, generate_arguments_overview
-- 
2.43.0


From 87f760d99560fe37ee8619df6c83b683fc1d0071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 130/159] fix: commands and fields of methods follow the
 signatures of the methods

---
 .../pkm_cli/api/dynamic_cli/method_parser.py    | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/dynamic_cli/method_parser.py b/pkm-cli/src/pkm_cli/api/dynamic_cli/method_parser.py
index 5380e19..35bdfc0 100644
--- a/pkm-cli/src/pkm_cli/api/dynamic_cli/method_parser.py
+++ b/pkm-cli/src/pkm_cli/api/dynamic_cli/method_parser.py
@@ -29,15 +29,17 @@ def fields_from_method(mtd: Func) -> List[OptionDef]:
     def field_name(arg_: str) -> str:
         return f"+{arg_.replace('_', '-')}"
 
-    for arg in args_spec.args:
+    arg_defaults = args_spec.defaults or ()
+    positional_defaults = ([MISSING] * (len(args_spec.args) - len(arg_defaults))) + list(arg_defaults)
+    for arg, default in zip(args_spec.args, positional_defaults):
         fields.append(
-            option(field_name(arg), reader=arg_types.get(arg, str), help=doc.get(arg, "")))
+            option(field_name(arg), reader=arg_types.get(arg, str), default=default, help=doc.get(arg, "")))
 
     if arg := args_spec.varargs:
         fields.append(option(
             field_name(arg), reader=arg_types.get(arg, str), repeatable=True, help=doc.get(arg, "")))
 
-    kwdefaults = args_spec.kwonlydefaults
+    kwdefaults = args_spec.kwonlydefaults or {}
     missing = object()
     for kwarg in args_spec.kwonlyargs:
         kwarg_type = arg_types.get(kwarg, str)
@@ -74,9 +76,9 @@ def command_definition_from_method(mtd: Func, path: str = "") -> CommandDef:
 
     if arg := args_spec.varargs:
         cli_args.append(positional(
-            arg.replace("_", "-"), reader=arg_types.get(arg, str), n_values="*", help=doc.get(arg, "")))
+            arg.replace("_", "-"), reader=arg_types.get(arg, str), n_values="*", default=(), help=doc.get(arg, "")))
 
-    kwdefaults = args_spec.kwonlydefaults
+    kwdefaults = args_spec.kwonlydefaults or {}
     option_names = _generate_option_names(args_spec.kwonlyargs)
     missing = object()
     for kwarg in args_spec.kwonlyargs:
@@ -95,7 +97,10 @@ def command_definition_from_method(mtd: Func, path: str = "") -> CommandDef:
     allowed_args = {it.field_name for it in cli_args}
 
     def execution(cmd: Command):
-        return mtd(**{k: v for k, v in cmd.arguments.items() if k in allowed_args})
+        args = {k: v for k, v in cmd.arguments.items() if k in allowed_args}
+        if args_spec.varargs:
+            return mtd(*(args.pop(it) for it in args_spec.args), *args.pop(args_spec.varargs), **args)
+        return mtd(**args)
 
     desc = doc.get("", "")
     short_desc = _doc_to_short_desc(desc)
-- 
2.43.0


From b74431b9bd62ce9623f9c693aba399679154a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 131/159] fix: uploads are complete forms, also when they are
 sent again after a connection failure

---
 pkm/src/pkm/utils/http/mfd_payload.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkm/src/pkm/utils/http/mfd_payload.py b/pkm/src/pkm/utils/http/mfd_payload.py
index 8404434..208e7f9 100644
--- a/pkm/src/pkm/utils/http/mfd_payload.py
+++ b/pkm/src/pkm/utils/http/mfd_payload.py
@@ -54,6 +54,8 @@ class MultipartFormDataPayload:
 
             payload = field.payload
             if isinstance(payload, IOBase):
+                if payload.seekable():  # the payload may already have been sent on a connection that failed
+                    payload.seek(0)
                 yield from chunks(payload, chunk_size)
             elif isinstance(payload, str):
                 yield payload.encode()
@@ -64,6 +66,8 @@ class MultipartFormDataPayload:
 
             yield newline
 
+        yield f"--{self._boundary}--\r\n".encode()
+
 
 def _guess_content_type(filename: Optional[str], default="application/octet-stream"):
     if filename:
-- 
2.43.0


From d93ade6387a5d231858a12245d6325c4391d0a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 132/159] fix: wheels that have a build tag are uploaded with
 their python tag

---
 pkm/src/pkm/repositories/pypi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 692d88c..276fce2 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -158,7 +158,7 @@ class PyPiPublisher(RepositoryPublisher):
 
         data = {k.replace('-', '_').lower(): v for k, v in package_meta.to_config().items()}
         file_type = 'bdist_wheel' if distribution.suffix == '.whl' else 'sdist'
-        py_version = distribution.name.split("-")[2] if distribution.suffix == '.whl' else 'source'
+        py_version = distribution.name.split("-")[-3] if distribution.suffix == '.whl' else 'source'
 
         md5, sha256, blake2 = hashlib.md5(), hashlib.sha256(), hashlib.blake2b(digest_size=256 // 8)
         with distribution.open('rb') as d_fd:
-- 
2.43.0


From 24cbaf9950878c59f7d8a6bc870d8da6e8fd42de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 133/159] fix: results of builds are kept in the cache whole,
 or not at all

---
 pkm/src/pkm/build/source_build_cache.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/build/source_build_cache.py b/pkm/src/pkm/build/source_build_cache.py
index ae5fb75..493c3d7 100644
--- a/pkm/src/pkm/build/source_build_cache.py
+++ b/pkm/src/pkm/build/source_build_cache.py
@@ -77,15 +77,21 @@ class SourceBuildCache:
                 if not wheel_metadata_path.exists():
                     raise BuildError("build backend did not create a wheel METADATA file")
 
-                cache_dir.mkdir(parents=True, exist_ok=True)
-                shutil.copy(wheel_metadata_path, metadata_file)
+                _put(wheel_metadata_path, metadata_file)
                 return PackageMetadata.load(wheel_metadata_path)
             else:
                 if not metadata_file.exists():
-                    metadata = WheelDistribution(dist.owner_package, output).extract_metadata()
-                    metadata.save(metadata_file)
+                    WheelDistribution(dist.owner_package, output).extract_metadata(target.env).save(tdir / 'METADATA')
+                    _put(tdir / 'METADATA', metadata_file)
 
                 cached_output = cache_dir / output.name
-                cache_dir.mkdir(parents=True, exist_ok=True)
-                shutil.move(output, cached_output)
-                return cached_output
+                _put(output, cached_output)
+                return PackageMetadata.load(metadata_file) if metadata else cached_output
+
+
+def _put(file: Path, cached_file: Path):
+    # the file appears in the cache only when all of it is there
+    cached_file.parent.mkdir(parents=True, exist_ok=True)
+    partial_file = cached_file.with_name(f"{cached_file.name}.part")
+    shutil.copy(file, partial_file)
+    partial_file.replace(cached_file)
-- 
2.43.0


From fcb98a52b0fe86af47db25848f022e415ea1146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 134/159] fix: a package whose build ended can be built again
 for the same build environment

---
 pkm/src/pkm/build/external_builders.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/build/external_builders.py b/pkm/src/pkm/build/external_builders.py
index 526008b..1917ad6 100644
--- a/pkm/src/pkm/build/external_builders.py
+++ b/pkm/src/pkm/build/external_builders.py
@@ -8,7 +8,6 @@ from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.build_monitors import BuildPackageMonitoredOp, BuildPackageHookExecutionEvent
 from pkm.api.packages.package import PackageDescriptor
 from pkm.api.projects.pyproject_configuration import BuildSystemConfig
-from pkm.utils.dicts import put_if_absent
 from pkm.utils.files import temp_dir
 
 if TYPE_CHECKING:
@@ -95,7 +94,7 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
     if not target_env or (current_build_path := getattr(target_env, _CURRENT_BUILD_PATH_ATTR, None)) is None:
         current_build_path = dict()
 
-    if not put_if_absent(current_build_path, project.descriptor, True):
+    if project.descriptor in current_build_path:
         def pstr(p: PackageDescriptor):
             return f"{p.name} {p.version}"
 
@@ -103,6 +102,9 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
             f"build cycle detected: "
             f"{' -> '.join(pstr(it) for it in current_build_path.keys())} -> {pstr(project.descriptor)}")
 
+    # this path is only of the builds that are nested in this one
+    current_build_path = {**current_build_path, project.descriptor: True}
+
     interpreter_path = target_env.interpreter_path if target_env else project.attached_environment.interpreter_path
 
     target_dir.mkdir(exist_ok=True, parents=True)
-- 
2.43.0


From 4b339826bf188ced4b0bbe4bd1fad686729b758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 135/159] fix: archives are unpacked below the directory they
 are unpacked in

---
 pkm/src/pkm/utils/archives.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/utils/archives.py b/pkm/src/pkm/utils/archives.py
index ec77799..5e8639c 100644
--- a/pkm/src/pkm/utils/archives.py
+++ b/pkm/src/pkm/utils/archives.py
@@ -6,6 +6,13 @@ from zipfile import ZipFile
 from pkm.utils.strings import endswith_any
 
 
+def _extract_tar(tar: tarfile.TarFile, target_directory: Path):
+    if hasattr(tarfile, 'data_filter'):
+        tar.extractall(target_directory, filter='data')
+    else:
+        tar.extractall(target_directory)
+
+
 def extract_archive(archive_path: Path, target_directory: Path):
     target_directory.mkdir(exist_ok=True, parents=True)
 
@@ -14,9 +21,9 @@ def extract_archive(archive_path: Path, target_directory: Path):
             z.extractall(target_directory)
     elif archive_path.name.endswith('.tar.gz'):
         with tarfile.open(archive_path) as tar:
-            tar.extractall(target_directory)
+            _extract_tar(tar, target_directory)
     elif archive_path.name.endswith(".tar.bz2"):
         with tarfile.open(archive_path, 'r:bz2') as tar:
-            tar.extractall(target_directory)
+            _extract_tar(tar, target_directory)
     else:
         raise UnsupportedOperation(f"does not support archive {archive_path.name}")
-- 
2.43.0


From adce5437a29a405b232a2b2f0254fc06c33ba235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 136/159] fix: virtual environments are configured in the
 format of pyvenv.cfg

---
 pkm/src/pkm/api/environments/environment_builder.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment_builder.py b/pkm/src/pkm/api/environments/environment_builder.py
index e821235..fa8afe7 100644
--- a/pkm/src/pkm/api/environments/environment_builder.py
+++ b/pkm/src/pkm/api/environments/environment_builder.py
@@ -112,8 +112,18 @@ def _introspection_for(interpreter_path: Path) -> EnvironmentIntrospection:
     return intro
 
 
+class _PyVEnvConfigIO(WheelFileConfigIO):
+    def write(self, path: Path, data: Dict[str, str]):
+        path.write_text(''.join(f'{k} = {v}\n' for k, v in data.items()), encoding='utf-8')
+
+    def read(self, path: Path) -> Dict[str, str]:
+        lines = (line.strip() for line in path.read_text(encoding='utf-8').splitlines())
+        kvs = (_PYVENV_SEP_RX.split(line, maxsplit=1) for line in lines)
+        return {kv[0]: kv[1] for kv in kvs if len(kv) == 2}
+
+
 @dataclass
-@config(io=WheelFileConfigIO())
+@config(io=_PyVEnvConfigIO())
 class PyVEnvConfiguration(ConfigFile):
     home: Path
     version: Version
-- 
2.43.0


From 9d1663fe83049fd0d3130f3fe485d8cd886f3a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 137/159] fix: shared packages can be linked to more than one
 environment, with the extras that are asked

---
 pkm/src/pkm/repositories/shared_pacakges_repo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index dfa145f..6161140 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -83,7 +83,7 @@ class SharedPackagesRepository(AbstractRepository):
 class _SharedPackageArtifact:
     path: Path
     metadata: PackageMetadata
-    compatibility_tags: str
+    compatibility_tag: str
 
 
 class _SharedPackage(Package):
@@ -130,7 +130,7 @@ class _SharedPackage(Package):
         if artifact := self._shared_artifact_for(target.env):
             deps = artifact.metadata.dependencies
         else:
-            deps = self._package.dependencies(target)
+            deps = self._package.dependencies(target, extras)
 
         return [d for d in deps if d.is_applicable_for(target.env, extras)]
 
-- 
2.43.0


From 0e4bff50b5171f2be055d2edfeeb4b8294d17f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 138/159] fix: shared packages are requested only in the
 environments whose users requested them

---
 .../pkm/repositories/shared_pacakges_repo.py    | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index 6161140..cdf1273 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -141,11 +141,11 @@ class _SharedPackage(Package):
             self, target: "PackageInstallationTarget", user_request: Optional["Dependency"] = None,
             store_mode: StoreMode = StoreMode.AUTO):
         if shared := self._shared_artifact_for(target.env):
-            _link_shared(self.descriptor, shared, target)
+            _link_shared(self.descriptor, shared, target, user_request)
         else:
             self._package.install_to(target, user_request, store_mode)
             if shared := _move_to_shared(self._package.descriptor, target, self._shared_path):
-                _link_shared(self.descriptor, shared, target)
+                _link_shared(self.descriptor, shared, target, user_request)
 
 
 def _copy_records(root: Path, shared: Path, records: List[Path]) -> List[Path]:
@@ -219,7 +219,8 @@ def _move_to_shared(package: PackageDescriptor,
     return _SharedPackageArtifact(shared_target, dist_info.load_metadata_cfg(), shared_target.name)
 
 
-def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, target: PackageInstallationTarget):
+def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, target: PackageInstallationTarget,
+                 user_request: Optional[Dependency]):
     with CopyTransaction() as ct:
 
         package_prefix = f"{package.expected_src_package_name}-{package.version}"
@@ -247,10 +248,12 @@ def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, tar
 
         # we are almost done, copy dist-info
         distinfo_path = site_path / f"{package_prefix}.dist-info"
-        ct.copy_tree(shared_distinfo.path, distinfo_path, lambda it: it.name != "RECORD")
-        shared_marker = (distinfo_path / "SHARED")
-        shared_marker.write_text(str(shared.path.absolute()))
-        ct.touch(shared_marker)
+        ct.copy_tree(shared_distinfo.path, distinfo_path, lambda it: it.name not in ("RECORD", "REQUESTED"))
+        ct.overwrite(distinfo_path / "SHARED").write_text(str(shared.path.absolute()))
+        if user_request:
+            linked_distinfo = DistInfo.load(distinfo_path)
+            ct.overwrite(linked_distinfo.user_requested_path())
+            linked_distinfo.mark_as_user_requested(user_request)
 
         # and finally, sign the installation
         record_path = distinfo_path / "RECORD"
-- 
2.43.0


From 96f5d610d4cb70f60a14565c0d4897aff7262bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 139/159] fix: linking a shared package leaves nothing behind
 when it fails

---
 .../pkm/repositories/shared_pacakges_repo.py   | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index cdf1273..d7e3d84 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -16,7 +16,7 @@ from pkm.api.packages.site_packages import InstalledPackage
 from pkm.api.repositories.repository import AbstractRepository, Repository
 from pkm.launchers.executables import Executables
 from pkm.utils.commons import NoSuchElementException
-from pkm.utils.files import CopyTransaction, is_empty_directory, is_relative_to
+from pkm.utils.files import CopyTransaction, is_empty_directory, is_relative_to, temp_dir
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import first_or_none
 
@@ -229,22 +229,22 @@ def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, tar
         site_path = Path(getattr(target, site_name))
 
         # first link the site data
-        purelib_link = PthLink(site_path / f"{package_prefix}.pth", [shared.path / site_name])
-        purelib_link.save()
-        ct.touch(purelib_link.path)
+        PthLink(ct.overwrite(site_path / f"{package_prefix}.pth"), [shared.path / site_name]).save()
 
         # now create all script entrypoints
         shared_distinfo = DistInfo.load(shared.path / "dist-info", non_standard_name_ok=True)
         bin_dir = Path(target.scripts)
         for entrypoint in shared_distinfo.load_entrypoints_cfg().entrypoints:
             if entrypoint.is_script():
-                ct.touch(Executables.generate_for_entrypoint(target.env, entrypoint, bin_dir))
+                with temp_dir() as generated_scripts:
+                    Executables.generate_for_entrypoint(target.env, entrypoint, generated_scripts)
+                    ct.copy_tree(generated_scripts, bin_dir)
 
         # then, patch non entrypoint scripts
         for script in (shared.path / 'bin').iterdir():
             target_script = bin_dir / script.name
-            Executables.patch_shabang_for_interpreter(script, target_script, target.env.interpreter_path)
-            ct.touch(target_script)
+            Executables.patch_shabang_for_interpreter(
+                script, ct.overwrite(target_script), target.env.interpreter_path)
 
         # we are almost done, copy dist-info
         distinfo_path = site_path / f"{package_prefix}.dist-info"
@@ -257,4 +257,6 @@ def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, tar
 
         # and finally, sign the installation
         record_path = distinfo_path / "RECORD"
-        RecordsFileConfiguration.load(record_path).sign_files(ct.copied_files, site_path).save()
+        record_file = RecordsFileConfiguration.load(record_path).sign_files(ct.copied_files, site_path)
+        ct.overwrite(record_path)
+        record_file.save()
-- 
2.43.0


From 36afab6fd37b3eeff80402536552a5237a831fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 140/159] fix: packages are shared whole or not at all

---
 .../pkm/repositories/shared_pacakges_repo.py  | 46 ++++++++++++++-----
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index d7e3d84..e8825b7 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -1,4 +1,6 @@
+import os
 import shutil
+import sys
 import warnings
 from dataclasses import dataclass
 from pathlib import Path
@@ -98,7 +100,7 @@ class _SharedPackage(Package):
         if shared_path.exists():
             self._artifacts = [
                 _SharedPackageArtifact(artifact, PackageMetadata.load(artifact / "dist-info/METADATA"), artifact.name)
-                for artifact in shared_path.iterdir()
+                for artifact in shared_path.iterdir() if not artifact.name.startswith(".")
             ]
         else:
             self._artifacts = []
@@ -140,7 +142,7 @@ class _SharedPackage(Package):
     def install_to(
             self, target: "PackageInstallationTarget", user_request: Optional["Dependency"] = None,
             store_mode: StoreMode = StoreMode.AUTO):
-        if shared := self._shared_artifact_for(target.env):
+        if store_mode != StoreMode.EDITABLE and (shared := self._shared_artifact_for(target.env)):
             _link_shared(self.descriptor, shared, target, user_request)
         else:
             self._package.install_to(target, user_request, store_mode)
@@ -180,43 +182,65 @@ def _move_to_shared(package: PackageDescriptor,
     dist_info = DistInfo.load(dist_info_path)
 
     iinfo = dist_info.load_installation_info()
-    if iinfo.compatibility_tag:
-        compatibility_tags = iinfo.compatibility_tag
-        shared_target = shared_path / compatibility_tags
-    else:
+    if not iinfo or not iinfo.compatibility_tag or iinfo.containerized \
+            or iinfo.store_mode == StoreMode.EDITABLE:
         return None  # TODO should probably notify the user that sharing is impossible for this package
 
     records = list(dist_info.installed_files())
+    site_path = dist_info.path.parent.resolve()  # as the installed files are
 
     # filter dist info records:
     records = [
         r for r in records
-        if not is_relative_to(r, dist_info.path)]
+        if not is_relative_to(r, site_path / dist_info.path.name)]
+
+    if any(r.suffix == ".pth" and r.parent == site_path for r in records):
+        return None  # python reads path configuration files only in the site itself
+
+    # the artifact is collected aside, it is used only when all of it is there
+    artifact_path = shared_path / iinfo.compatibility_tag
+    shared_target = shared_path / f".{iinfo.compatibility_tag}.partial"
+    if shared_target.exists():
+        shutil.rmtree(shared_target)
 
     # copy site
     shared_purelib = shared_target / site
-    records = _copy_records(dist_info.path.parent, shared_purelib, records)
+    records = _copy_records(site_path, shared_purelib, records)
 
     # copy scripts
     script_entrypoints = {e.name for e in dist_info.load_entrypoints_cfg().entrypoints if e.is_script()}
-    bin_path = Path(target.scripts)
+    bin_path = Path(target.scripts).resolve()
     shared_bin = shared_target / "bin"
 
     # filter script entrypoints - they should be re-generated
     records = [r for r in records if not is_relative_to(r, bin_path) or r.stem not in script_entrypoints]
     records = _copy_records(bin_path, shared_bin, records)
 
+    # scripts should not keep using the interpreter of the environment that they were taken from
+    env_shabang = f"#!{target.env.interpreter_path.absolute()}{os.linesep}".encode(sys.getfilesystemencoding())
+    for script in shared_bin.iterdir():
+        if (script_content := script.read_bytes()).startswith(env_shabang):
+            script.write_bytes(f"#!python{os.linesep}".encode() + script_content[len(env_shabang):])
+
     # copy dist-info
     shutil.copytree(dist_info.path, shared_target / 'dist-info')
 
     if records:
         warnings.warn(f"{len(records)} unsharable records found in package: {package.name} {package.version}: "
-                      f"{', '.join(str(r) for r in records)}")
+                      f"{', '.join(str(r) for r in records)}, the package will not be shared")
+        shutil.rmtree(shared_target)
+        return None
+
+    if artifact_path.exists():  # it was shared in the meanwhile
+        shutil.rmtree(shared_target)
+    else:
+        shared_target.rename(artifact_path)
+    metadata = dist_info.load_metadata_cfg()
 
     # uninstall the original package
     InstalledPackage(dist_info).uninstall()
 
-    return _SharedPackageArtifact(shared_target, dist_info.load_metadata_cfg(), shared_target.name)
+    return _SharedPackageArtifact(artifact_path, metadata, artifact_path.name)
 
 
 def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, target: PackageInstallationTarget,
-- 
2.43.0


From f8be987983110f03f78e72d70a90a0eaaee31702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 141/159] fix: packages that a zoo excludes from sharing are
 not shared

---
 pkm/src/pkm/api/repositories/repository_management.py | 3 ++-
 pkm/src/pkm/repositories/shared_pacakges_repo.py      | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index 0cac1ff..c933e85 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -208,7 +208,8 @@ class ZooRepositoryManagement(RepositoryManagement):
 
     def _wrap_attached_repository(self, inherited: Optional[Repository]) -> Repository:
         if self.zoo.config.package_sharing.enabled:
-            inherited = SharedPackagesRepository(self.zoo.path / ".zoo/shared", inherited)
+            inherited = SharedPackagesRepository(
+                self.zoo.path / ".zoo/shared", inherited, self.zoo.config.package_sharing.exclude)
 
         return inherited
 
diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index e8825b7..b0de63d 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -25,10 +25,11 @@ from pkm.utils.iterators import first_or_none
 
 class SharedPackagesRepository(AbstractRepository):
 
-    def __init__(self, workspace: Path, base_repository: Repository):
+    def __init__(self, workspace: Path, base_repository: Repository, exclude: Iterable[str] = ()):
         super().__init__("shared")
         self._workspace = workspace
         self._base_repo = base_repository
+        self._exclude = {PackageDescriptor.package_name_key(it) for it in exclude}
 
     def remove_unused_packages(self, package_users: Iterator[Environment]):
         used_packages: Set[str] = set()
@@ -61,6 +62,9 @@ class SharedPackagesRepository(AbstractRepository):
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         packages_dir = self._workspace / dependency.package_name
         packages = self._base_repo.match(dependency, env)
+        if dependency.package_name_key in self._exclude:
+            return packages
+
         return self._sort_by_priority([
             _SharedPackage(p, packages_dir / str(p.version))
             for p in packages
-- 
2.43.0


From e8a455471d2c05ffce0cc33a1c4da533758f0447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 142/159] fix: leaving the context of a zoo restores the path
 as it was

---
 pkm/src/pkm/api/environments/environments_zoo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index dfc264d..bcf2be2 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -70,7 +70,7 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
         try:
             yield
         finally:
-            if prev_path:
+            if prev_path is not None:
                 env["PATH"] = prev_path
             else:
                 del env["PATH"]
-- 
2.43.0


From a3a14853a41debf3f3630391e198e43ec9b29376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 143/159] fix: scripts can be exported from a zoo that was
 configured by hand or checked out

---
 pkm/src/pkm/api/environments/environments_zoo.py | 4 +++-
 pkm/src/pkm/repositories/shared_pacakges_repo.py | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index bcf2be2..55afab9 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -99,15 +99,17 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
                 and not (script_file := env_scripts / f"{script_name}.exe").exists():
             raise NoSuchElementException(f"script {script_name} could not be find in environment {env_name}")
 
+        self._bin_path.mkdir(exist_ok=True, parents=True)
         shutil.copy(script_file, self._bin_path / script_file.name)
 
     def export_all_scripts(self, env_name: str, package: str):
         env = self.load_environment(env_name)
         env_scripts = env.installation_target.scripts
         bin_path = self._bin_path
+        bin_path.mkdir(exist_ok=True, parents=True)
 
         for file in env.site_packages.installed_package(package).dist_info.installed_files():
-            if is_relative_to(file, Path(env_scripts)):
+            if is_relative_to(file, Path(env_scripts).resolve()):
                 shutil.copy(file, bin_path / file.name)
 
     @classmethod
diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index b0de63d..2474b41 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -38,6 +38,9 @@ class SharedPackagesRepository(AbstractRepository):
                 if (shared_marker := used_package.dist_info.path / "SHARED").exists():
                     used_packages.add(shared_marker.read_text())
 
+        if not self._workspace.exists():
+            return
+
         for package_dir in self._workspace.iterdir():
             if not package_dir.is_dir():
                 continue
-- 
2.43.0


From 940bf4254ad5f9c673f07218f50f99865bf4e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 144/159] fix: zoos share packages as they are configured, also
 when nothing is configured

---
 pkm/src/pkm/api/environments/environments_zoo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index 55afab9..c19a279 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -139,4 +139,5 @@ class PackageSharingConfig:
 
 @config(io=TomlConfigIO())
 class EnvironmentZooConfiguration(ConfigFile):
-    package_sharing: PackageSharingConfig
+    package_sharing: PackageSharingConfig = config_field(
+        key="package-sharing", default_factory=PackageSharingConfig)
-- 
2.43.0


From a71aab3685f355777fba0be54e4505e74447f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 145/159] fix: packages can be installed in environments, and
 bound to repositories, from the command line

---
 pkm-cli/src/pkm_cli/main.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/main.py b/pkm-cli/src/pkm_cli/main.py
index 1a8b3be..2a11554 100644
--- a/pkm-cli/src/pkm_cli/main.py
+++ b/pkm-cli/src/pkm_cli/main.py
@@ -53,9 +53,9 @@ class AvailableRepositorySelectionReader(ArgumentReader):
 
         name = buf.next_or_raise("expecting repository name")
         repos_by_name = dict(har.repository_management.all_repositories())
-        if not (repo := repos_by_name.get(name, None)):
+        if name not in repos_by_name:
             raise ValueError(f"undefined repository: {name} given for {argument.display_name}")
-        return repo
+        return name
 
 
 @command(
@@ -153,8 +153,9 @@ def pkm_install(cmd: Command):
                    for d in dependencies):
                 contex.repository_management.register_bindings([d.package_name for d in dependencies], repo)
                 cmd.force = True
-        elif repo_type := cmd.unnamed_repo:
-            instance_config = RepositoryInstanceConfig(repo_type, True, getattr(args, 'unnamed_repo_extras', {}))
+        elif repo_def := cmd.unnamed_repo:
+            repo_args = {k.replace('_', '-'): v for k, v in repo_def.items() if k != 'value' and v is not None}
+            instance_config = RepositoryInstanceConfig(repo_def['value'], True, repo_args)
             contex.repository_management.register_bindings([d.package_name for d in dependencies], instance_config)
             cmd.force = True
 
@@ -192,7 +193,7 @@ def pkm_install(cmd: Command):
 
             if dependencies:
                 force(target)
-                updates = [d.package_name for d in dependencies] if args.update else None
+                updates = [d.package_name for d in dependencies] if cmd.update else None
                 store_modes = {d.package_name: store_mode for d in dependencies}
                 target.install(dependencies, updates=updates, store_mode=store_modes)
 
-- 
2.43.0


From 07681425ff0b58f2bef53e930ac852a373ee58ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 146/159] fix: a project is installed when no packages are
 given

---
 pkm-cli/src/pkm_cli/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm-cli/src/pkm_cli/main.py b/pkm-cli/src/pkm_cli/main.py
index 2a11554..b476001 100644
--- a/pkm-cli/src/pkm_cli/main.py
+++ b/pkm-cli/src/pkm_cli/main.py
@@ -138,7 +138,7 @@ def pkm_new(_: Command, next_args: ArgumentsBuffer) -> List[CommandDef]:
            help="bind the given packages to a specific repository by name"),
     option('-R, --unnamed-repo', fields_provider=RepositoryInstanceFieldsProvider(), default=None,
            help="bind the given packages to a new unnamed repositry given its configuration"),
-    positional('packages', n_values="*", help="the packages to install (support pep508 dependency syntax)"))
+    positional('packages', n_values="*", default=[], help="the packages to install (support pep508 dependency syntax)"))
 def pkm_install(cmd: Command):
     """
     install packages under the current context
-- 
2.43.0


From e9854ee834e7d2b6ebcfa9d5a4f4934693570b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 147/159] fix: the site that is asked for the global context is
 used

---
 pkm-cli/src/pkm_cli/utils/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm-cli/src/pkm_cli/utils/context.py b/pkm-cli/src/pkm_cli/utils/context.py
index a40a87e..834b94d 100644
--- a/pkm-cli/src/pkm_cli/utils/context.py
+++ b/pkm-cli/src/pkm_cli/utils/context.py
@@ -152,15 +152,17 @@ class Context:
 
     @classmethod
     def of(cls, command: Command) -> Context:
+        site = getattr(command, 'site', None)
         command = command.parent_by_path("pkm")
         if prec := _CONTEXT_SYM.getattr(command, None):
+            prec._site = site or prec._site
             return prec
 
         cwd = Path.cwd()
         if context := command.context:
             result = cls(Path(context), False, False, None)
         elif command.global_context:
-            result = cls(cwd, False, True, getattr(command, 'site', None))
+            result = cls(cwd, False, True, site)
         else:
             result = cls(cwd, True, False, None)
 
-- 
2.43.0


From 0e37243ccc10315b0eefda97226f1caa7fb0487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 148/159] fix: commands run without the tasks attached to them
 when that is asked

---
 pkm-cli/src/pkm_cli/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkm-cli/src/pkm_cli/main.py b/pkm-cli/src/pkm_cli/main.py
index b476001..bb9e4aa 100644
--- a/pkm-cli/src/pkm_cli/main.py
+++ b/pkm-cli/src/pkm_cli/main.py
@@ -218,6 +218,10 @@ def main(args: Optional[List[str]] = None):
         context = Context.of(cmd)
 
         def with_tasks(p: Project):
+            if cmd.without_tasks:
+                cmd.execute()
+                return
+
             global tasks
             tasks = TasksRunner(p)
             with tasks.run_attached(cmd):
-- 
2.43.0


From 21cdf2c8eb81d7cce33c842d96bac2bb527aa201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 149/159] fix: refused command lines end with an error status

---
 pkm-cli/src/pkm_cli/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkm-cli/src/pkm_cli/main.py b/pkm-cli/src/pkm_cli/main.py
index bb9e4aa..6af6bbe 100644
--- a/pkm-cli/src/pkm_cli/main.py
+++ b/pkm-cli/src/pkm_cli/main.py
@@ -213,6 +213,8 @@ def main(args: Optional[List[str]] = None):
         cmd.print_help()
         if getattr(cmd, 'verbose', True) and cmd.parse_error:
             raise cmd.parse_error
+        if cmd.parse_error:
+            sys.exit(2)
     else:
         global context
         context = Context.of(cmd)
-- 
2.43.0


From 7f6c28e818d19dcbd15da70d58bc8493c97a40a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 150/159] fix: pkm without a command shows the help

---
 pkm-cli/src/pkm_cli/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm-cli/src/pkm_cli/main.py b/pkm-cli/src/pkm_cli/main.py
index 6af6bbe..58c3b37 100644
--- a/pkm-cli/src/pkm_cli/main.py
+++ b/pkm-cli/src/pkm_cli/main.py
@@ -209,7 +209,7 @@ def main(args: Optional[List[str]] = None):
     args = args if args is not None else sys.argv
     cmd = parse(args)
 
-    if cmd.parse_error or cmd.help:
+    if cmd.parse_error or cmd.help or len(cmd.path) < 2:
         cmd.print_help()
         if getattr(cmd, 'verbose', True) and cmd.parse_error:
             raise cmd.parse_error
-- 
2.43.0


From 90ebe74bd3046dceb726d1cc2e857e158de03893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 151/159] fix: installs that are refused bind no packages to
 repositories

---
 pkm-cli/src/pkm_cli/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/main.py b/pkm-cli/src/pkm_cli/main.py
index 58c3b37..fcc631b 100644
--- a/pkm-cli/src/pkm_cli/main.py
+++ b/pkm-cli/src/pkm_cli/main.py
@@ -165,10 +165,10 @@ def pkm_install(cmd: Command):
                 target.force_remove(d.package_name)
 
     def on_project(project: Project):
-        register_repo_bindings(project)
         if cmd.app:
             raise UnsupportedOperationException("application install as project dependency is not supported")
 
+        register_repo_bindings(project)
         force(project.attached_environment.installation_target)
         ctrl = PrjController(project)
         if dependencies:
@@ -179,10 +179,11 @@ def pkm_install(cmd: Command):
 
     def on_environment(env: Environment):
         nonlocal dependencies
-        register_repo_bindings(env)
         if cmd.optional:
             raise UnsupportedOperationException("optional dependencies are only supported inside projects")
 
+        register_repo_bindings(env)
+
         if dependencies:
             target = env.installation_target
             if cmd.app:
-- 
2.43.0


From 6ec0282c6a17ff8d5467c4e426cc62c3221801f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 152/159] fix: templates of the working directory are found and
 used

---
 pkm-cli/src/pkm_cli/api/templates/template_runner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/templates/template_runner.py b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
index a038369..192b807 100644
--- a/pkm-cli/src/pkm_cli/api/templates/template_runner.py
+++ b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
@@ -45,14 +45,14 @@ class TemplateRunner:
 
     @contextmanager
     def load_template(self, name: str) -> ContextManager[Template]:
-        name = name.replace('-', '_')
-        renderer_name = f"{name}.render"
-
         local_template_file = Path(*name.split("."), "render.py")
         if local_template_file.exists():
-            yield Template(iu.spec_from_file_location(str(local_template_file.resolve())), self)
+            yield Template(iu.spec_from_file_location(f"{name}.render", str(local_template_file.resolve())), self)
             return
 
+        name = name.replace('-', '_')
+        renderer_name = f"{name}.render"
+
         try:
             if template_spec := iu.find_spec(f"pkm_templates.{renderer_name}"):
                 yield Template(template_spec, self)
-- 
2.43.0


From acc5d709328a5bacc70469f5f16b916a02ec05be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 153/159] fix: templates can render other templates

---
 pkm-cli/src/pkm_cli/api/templates/template_runner.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/templates/template_runner.py b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
index 192b807..1e3a629 100644
--- a/pkm-cli/src/pkm_cli/api/templates/template_runner.py
+++ b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
@@ -191,8 +191,7 @@ class _TemplateExtendedBuiltins:
         self._allow_overwrite = None
 
     def render_template(self, name: str, **kwargs):
-        # noinspection PyProtectedMember
-        with self._runner._load_template(name) as t:
+        with self._runner.load_template(name) as t:
             t.execute(self._target_dir, kwargs, self._allow_overwrite)
 
     def confirm(self, prompt: str, default: bool = True) -> bool:
-- 
2.43.0


From 34efb14b0c371055ed2272a090458c0246e93e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 154/159] fix: files that templates ignore are those of all
 their ignore files, and always the files of the template itself

---
 .../src/pkm_cli/api/templates/template_runner.py  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/templates/template_runner.py b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
index 1e3a629..e10383c 100644
--- a/pkm-cli/src/pkm_cli/api/templates/template_runner.py
+++ b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
@@ -8,7 +8,7 @@ from contextlib import contextmanager
 from importlib.machinery import ModuleSpec
 from pathlib import Path
 from types import ModuleType
-from typing import List, Any, Optional, ContextManager, Set, Mapping, Dict
+from typing import List, Any, Optional, ContextManager, Set, Mapping, Dict, Sequence
 
 import questionary as q
 from jinja2 import FileSystemLoader
@@ -114,18 +114,21 @@ class Template:
         if callable(post_render := getattr(module, "post_render", None)):
             post_render(context)
 
-    def _load_ignored_files(self, template_root: Path) -> Set[Path]:
-        result = {self._template_dir / file for file in ("render.py", "__pycache__", ".templateignore")}
+    def _load_ignored_files(self, template_root: Path, patterns: Sequence[str] = ()) -> Set[Path]:
+        result = {template_root / file for file in ("__pycache__", ".templateignore")}
+        result.add(self._template_dir / "render.py")
 
-        ignore_file = self._template_dir / ".templateignore"
+        ignore_file = template_root / ".templateignore"
 
         if ignore_file.exists():
             lines = ignore_file.read_text().splitlines()
-            result = {f.resolve() for line in lines if line.strip() for f in template_root.glob(line)}
+            patterns = [*patterns, *(line.strip() for line in lines if line.strip())]
+
+        result.update(f for pattern in patterns for f in template_root.glob(pattern))
 
         for sub_dir in template_root.iterdir():
             if sub_dir.is_dir():
-                result.update(self._load_ignored_files(sub_dir))
+                result.update(self._load_ignored_files(sub_dir, patterns))
 
         return result
 
-- 
2.43.0


From 424eaeb29b2d28ff6fab239a2ec3af137ad34123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 155/159] fix: files beside a preserved directory of a template
 are rendered

---
 pkm-cli/src/pkm_cli/api/templates/template_runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/templates/template_runner.py b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
index e10383c..e3b1a10 100644
--- a/pkm-cli/src/pkm_cli/api/templates/template_runner.py
+++ b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
@@ -152,8 +152,8 @@ class Template:
 
             if template_child.is_dir():
                 if (template_child / ".templatepreserve").exists():
-                    shutil.copytree(str(template_child.absolute()), str(target_child.absolute()))
-                    return
+                    shutil.copytree(str(template_child.absolute()), str(target_child.absolute()), dirs_exist_ok=True)
+                    continue
 
                 target_child.mkdir(exist_ok=True)
                 self._render(template_child, target_child, context, ignored_files)
-- 
2.43.0


From 1b697492985c2b06e9ca3e7fb370c600814ae500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 156/159] fix: templated files without a name are not rendered

---
 pkm-cli/src/pkm_cli/api/templates/template_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm-cli/src/pkm_cli/api/templates/template_runner.py b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
index e3b1a10..d840d85 100644
--- a/pkm-cli/src/pkm_cli/api/templates/template_runner.py
+++ b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
@@ -142,7 +142,7 @@ class Template:
 
             name = jinja.from_string(template_child.name).render(context)
 
-            if not name:  # empty names indicate unneeded files
+            if not name or (name == ".tmpl" and not template_child.is_dir()):  # empty names indicate unneeded files
                 continue
 
             target_child = (target_dir / name).resolve()
-- 
2.43.0


From b69d23b76d62463da01cb8439e6ffa1049849a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 157/159] fix: templates write nothing outside of the directory
 they are rendered into

---
 pkm-cli/src/pkm_cli/api/templates/template_runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkm-cli/src/pkm_cli/api/templates/template_runner.py b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
index d840d85..862e9f7 100644
--- a/pkm-cli/src/pkm_cli/api/templates/template_runner.py
+++ b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import importlib.util as iu
 import importlib.resources as ir
 import inspect
+import os
 import shutil
 from contextlib import contextmanager
 from importlib.machinery import ModuleSpec
@@ -146,6 +147,8 @@ class Template:
                 continue
 
             target_child = (target_dir / name).resolve()
+            if not Path(os.path.normpath(target_dir / name)).is_relative_to(os.path.normpath(target_dir)):
+                raise IOError(f"template renders a file outside of its target directory: {name}")
 
             if not target_child.parent.exists():
                 target_child.parent.mkdir(parents=True)
-- 
2.43.0


From 02bc58624550ded9f41293b1e07a6c20dba3a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 158/159] fix: a template that cannot be rendered completely
 leaves existing directories as they are

---
 pkm-cli/src/pkm_cli/api/templates/template_runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm-cli/src/pkm_cli/api/templates/template_runner.py b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
index 862e9f7..33ac578 100644
--- a/pkm-cli/src/pkm_cli/api/templates/template_runner.py
+++ b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
@@ -108,7 +108,8 @@ class Template:
                 self._render(self._template_dir, tdir, context, ignored_files)
                 for file in tdir.rglob("*"):
                     relative_file = file.relative_to(tdir)
-                    if (target_file := target_dir / relative_file).exists() and not target_file.is_dir():
+                    target_file = target_dir / relative_file
+                    if os.path.lexists(target_file) and not (file.is_dir() and target_file.is_dir()):
                         raise IOError(f"file already exists: {target_file}")
 
                 shutil.copytree(tdir, target_dir, dirs_exist_ok=True)
-- 
2.43.0


From 9a9f8b92841434e57e78dd79e900e48fe899a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 159/159] fix: new projects have the license that was chosen,
 and any text as their description and author

---
 pkm-cli/src/pkm_cli/api/templates/template_runner.py        | 1 +
 .../project/{{project_name}}/pyproject.toml.tmpl            | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/templates/template_runner.py b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
index 33ac578..ae0cb32 100644
--- a/pkm-cli/src/pkm_cli/api/templates/template_runner.py
+++ b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
@@ -27,6 +27,7 @@ class TemplateRunner:
 
     def __init__(self):
         self.jinja_context = SandboxedEnvironment(loader=FileSystemLoader("/"))
+        self.jinja_context.policies["json.dumps_kwargs"] = {"ensure_ascii": False}
 
     @staticmethod
     def templates_in_namespace() -> List[str]:
diff --git a/pkm-cli/src/pkm_templates/project/{{project_name}}/pyproject.toml.tmpl b/pkm-cli/src/pkm_templates/project/{{project_name}}/pyproject.toml.tmpl
index b9de7cb..4834e38 100644
--- a/pkm-cli/src/pkm_templates/project/{{project_name}}/pyproject.toml.tmpl
+++ b/pkm-cli/src/pkm_templates/project/{{project_name}}/pyproject.toml.tmpl
@@ -1,11 +1,11 @@
 [project]
 name = "{{project_name}}"
 version = "{{version}}"
-description = "{{description}}"
+description = {{description|tojson}}
 readme = "README.{{readme_file_ext}}"
 requires-python= "~={{required_python}}"
-authors = [{name="{{author}}"}]
-license.text = "{{license}}"
+authors = [{name={{author|tojson}}}]
+license.text = {{license_text|tojson}}
 dependencies = []
 
 [build-system]
-- 
2.43.0

