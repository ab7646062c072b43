From f5bed5911b935dbe6a54b5ed3c52a85113f59962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 01/59] fix: explicit y of a child in a horizontal box is
 relative to the height of its parent

---
 elsie/boxtree/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index dd2039b..7de68a5 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -162,7 +162,7 @@ class Layout:
                 w = w.compute(rect.width, fill_unit)
                 h = h.compute(rect.height, None)
                 if child._y is not None:
-                    y = child._y.compute(rect.y, rect.width, h)
+                    y = child._y.compute(rect.y, rect.height, h)
                 else:
                     y = rect.y + (rect.height - h) / 2
                 if child._x is None:
-- 
2.43.0


From 5c2691f79e97e3955b519a255557457a6fc02efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 02/59] fix: scale_to_fit text keeps its size when the deck is
 rendered again

---
 elsie/text/textboxitem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textboxitem.py b/elsie/text/textboxitem.py
index b92b1c4..7958525 100644
--- a/elsie/text/textboxitem.py
+++ b/elsie/text/textboxitem.py
@@ -35,8 +35,10 @@ class TextBoxItem(BoxItem):
 
         if scale_to_fit:
 
+            original_size = self._text_size
+
             def callback(rect):
-                tw, th = self._text_size
+                tw, th = original_size
                 if tw > 0.00001 and th > 0.00001:
                     scale = min(rect.width / tw, rect.height / th)
                     self._text_size = (tw * scale, th * scale)
-- 
2.43.0


From f34c7cbe59e5a5d406836ad8cb5a013542e34cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 03/59] fix: a pruned cache file is no longer considered to be
 present

---
 elsie/utils/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 2ba5f68..6915ee6 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -62,6 +62,7 @@ class FsCache:
     def remove_unused(self):
         for filename in self.cache_files.difference(self.touched_files):
             os.remove(self._full_path(filename))
+        self.cache_files.intersection_update(self.touched_files)
 
     def get(self, input_data, data_type, constructor):
         cache_file = self._get_filename(input_data, data_type)
-- 
2.43.0


From 155d8741e918204fa7f4e0b650e672c75cd821e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 04/59] fix: FsCache.ensure survives a failed constructor and
 claims the file under the lock

---
 elsie/utils/cache.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 6915ee6..e9b300e 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -41,22 +41,23 @@ class FsCache:
         full_path = self._full_path(cache_file)
         with self.lock:
             self.touched_files.add(cache_file)
-            condition = self.in_progress.get(cache_file)
-            if condition is not None:
-                if wait_on_collision:
-                    condition.wait()
-                    assert cache_file in self.cache_files
-                return full_path
+            while cache_file in self.in_progress:
+                if not wait_on_collision:
+                    return full_path
+                self.in_progress[cache_file].wait()
             if cache_file in self.cache_files:
                 return full_path
+            condition = threading.Condition(self.lock)
+            self.in_progress[cache_file] = condition
 
-        condition = threading.Condition(self.lock)
-        self.in_progress[cache_file] = condition
-        constructor(input_data, full_path, data_type)
-        with self.lock:
-            self.cache_files.add(cache_file)
-            del self.in_progress[cache_file]
-            condition.notify_all()
+        try:
+            constructor(input_data, full_path, data_type)
+            with self.lock:
+                self.cache_files.add(cache_file)
+        finally:
+            with self.lock:
+                del self.in_progress[cache_file]
+                condition.notify_all()
         return full_path
 
     def remove_unused(self):
-- 
2.43.0


From 1269dfce700db52af78ef6d32872966dd5daf31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 05/59] fix: cache files are written atomically, so that an
 interrupted run leaves no truncated entry

---
 elsie/render/backends/svg/backend.py | 4 +++-
 elsie/utils/cache.py                 | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 3135c28..8206fa2 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -137,5 +137,7 @@ class InkscapeBackend(Backend):
             "inkscape": self.inkscape_version,
             "queries": list(cache.items()),
         }
-        with open(cache_file, "w") as f:
+        tmp_file = cache_file + ".tmp"
+        with open(tmp_file, "w") as f:
             json.dump(cache_config, f)
+        os.replace(tmp_file, cache_file)
diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index e9b300e..2d677d6 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -51,7 +51,9 @@ class FsCache:
             self.in_progress[cache_file] = condition
 
         try:
-            constructor(input_data, full_path, data_type)
+            tmp_path = self._full_path("tmp." + cache_file)
+            constructor(input_data, tmp_path, data_type)
+            os.replace(tmp_path, full_path)
             with self.lock:
                 self.cache_files.add(cache_file)
         finally:
@@ -75,8 +77,10 @@ class FsCache:
                 return f.read()
 
         result = constructor(input_data)
-        with open(full_path, "w") as f:
+        tmp_path = self._full_path("tmp." + cache_file)
+        with open(tmp_path, "w") as f:
             f.write(result)
+        os.replace(tmp_path, full_path)
         self.cache_files.add(cache_file)
         return result
 
-- 
2.43.0


From 3832ffce73010d32b394fb2faafca1632e773947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 06/59] fix: report the death of the Inkscape process instead
 of waiting forever for its prompt

---
 elsie/render/inkscape.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 87ef6b6..57e57c1 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -37,6 +37,8 @@ class InkscapeShell:
         stdout = self.process.stdout
         while True:
             character = stdout.read(1)
+            if not character:
+                raise Exception("Inkscape process terminated unexpectedly")
             if (
                 character == " "
                 and chars
-- 
2.43.0


From d95b6ec1199e80f6dc48cf3bb27ab0973424b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 07/59] fix: do not let Inkscape block on a full stderr pipe
 that nobody reads

---
 elsie/render/inkscape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 57e57c1..f667965 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -22,7 +22,7 @@ class InkscapeShell:
             [inkscape_bin, "--shell"],
             stdout=subprocess.PIPE,
             stdin=subprocess.PIPE,
-            stderr=subprocess.PIPE,
+            stderr=subprocess.DEVNULL,
             universal_newlines=True,
         )
         self.wait_for_prompt()
-- 
2.43.0


From ac0d1e44533c7acd76332a234c33614cbc1402c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 08/59] fix: allow a line break inside of a dummy or suppressed
 inline style

---
 elsie/render/backends/svg/draw.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 6b52060..744f2b3 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -82,14 +82,13 @@ def draw_text(
             for _ in active_styles:
                 xml.close("tspan")  # tspan
             for j, s in enumerate(active_styles):
-                if s is None:
-                    continue
                 xml.element("tspan")
                 xml.set("xml:space", "preserve")
                 if j == 0:
                     xml.set("x", x)
                     xml.set("dy", line_size * value)
-                set_font_from_style(xml, s)
+                if s is not None:
+                    set_font_from_style(xml, s)
         elif token_type == "begin":
             is_dummy = value and value[0] == "#"
             s = styles.get(value, None)
-- 
2.43.0


From 188b93ab90fee3449276b427d481a40fc310509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 09/59] fix: after an inline style ends, compare priorities
 with the innermost effective style

---
 elsie/render/backends/svg/draw.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 744f2b3..e3a7c0a 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -109,8 +109,7 @@ def draw_text(
         elif token_type == "end":
             xml.close("tspan")
             active_styles.pop()
-            if active_styles and active_styles[-1] is not None:
-                current_priority = active_styles[-1].priority
+            current_priority = [s for s in active_styles if s is not None][-1].priority
         else:
             raise Exception("Invalid token")
 
-- 
2.43.0


From 0f86228a038fc14277efafc48cacdf369b8057c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 10/59] fix: escape an apostrophe in an XML attribute as an
 entity

---
 elsie/utils/sxml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/utils/sxml.py b/elsie/utils/sxml.py
index a190d65..385de41 100644
--- a/elsie/utils/sxml.py
+++ b/elsie/utils/sxml.py
@@ -22,9 +22,10 @@ class Xml:
 
     def set(self, name, value, escape=True):
         assert self.is_open
+        value = escape_text(str(value))
         if escape:
-            value = str(value).replace("'", "\\'")
-        self.chunks.append(" {}='{}'".format(name, escape_text(value)))
+            value = value.replace("'", "&apos;")
+        self.chunks.append(" {}='{}'".format(name, value))
 
     def text(self, text):
         self._close()
-- 
2.43.0


From b25f51e30279fea5a60369119c30c6e6e3bfa83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 11/59] fix: a repeated escape character is a literal escape
 character, as documented

---
 elsie/text/textparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 81860e0..977c919 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -65,6 +65,9 @@ def parse_text(text, escape_char="~", begin_char="{", end_char="}"):
             result.append(("text", text[start:i]))
             i += 1
             start = i
+            if text[i : i + 1] == escape_char:
+                i += 1  # repeated escape_char is a literal escape_char
+                continue
             while i < len(text) and text[i] != begin_char:
                 i += 1
             result.append(("begin", text[start:i]))
-- 
2.43.0


From eb25fdb7736782bf02e8302a8dc974865c8b6f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 12/59] fix: external PDF pages work together with name
 policies and slide_postprocessing

---
 elsie/slides/slide.py     | 2 ++
 elsie/slides/slidedeck.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/elsie/slides/slide.py b/elsie/slides/slide.py
index 541636f..5733bf1 100644
--- a/elsie/slides/slide.py
+++ b/elsie/slides/slide.py
@@ -68,6 +68,8 @@ class Slide:
 
 
 class ExternPdfSlide:
+    name = None
+
     def __init__(self, filename):
         self.filename = os.path.abspath(filename)
 
diff --git a/elsie/slides/slidedeck.py b/elsie/slides/slidedeck.py
index e948eca..a2497ee 100644
--- a/elsie/slides/slidedeck.py
+++ b/elsie/slides/slidedeck.py
@@ -331,7 +331,9 @@ class SlideDeck(StyleContainer):
                 )
 
         if slide_postprocessing:
-            slide_postprocessing([slide.box() for slide in select_slides])
+            slide_postprocessing(
+                [slide.box() for slide in select_slides if isinstance(slide, Slide)]
+            )
 
         if prune_cache:
             self.backend.prune_cache()
-- 
2.43.0


From 436d8c42f40eacc81792db9f1284c228c75774d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 13/59] fix: grouping more slides per page keeps external PDF
 pages in their order

---
 elsie/render/render.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elsie/render/render.py b/elsie/render/render.py
index 62574f7..3c970d9 100644
--- a/elsie/render/render.py
+++ b/elsie/render/render.py
@@ -91,6 +91,9 @@ def per_page_grouping(backend, units, count_x, count_y, width, height):
     for unit in units:
         svg = unit.get_svg()
         if svg is None:
+            close()
+            xml = new()
+            idx = 0
             new_units.append(unit)
             continue
 
-- 
2.43.0


From 70c99647786108c83d7dcc854f04740a83c27da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 14/59] fix: SVG image fragments follow their labels also when
 all of them end in the first fragment

---
 elsie/boxtree/boxmixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 369e28f..bfbc454 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -616,7 +616,7 @@ class BoxMixin:
 
         image_data = None
 
-        if image_steps == 1 and not select_fragments:
+        if not fragments and select_fragments is None:
             image_data = et.tostring(root).decode()
 
         def draw(ctx):
-- 
2.43.0


From 8c9d4c3e43b95cd42451aed03ca5f8566a7824b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 15/59] fix: a rejected box() call leaves the slide unchanged

---
 elsie/boxtree/boxmixin.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index bfbc454..ce263e7 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -134,6 +134,7 @@ class BoxMixin:
             Name of the box (used for debugging purposes).
         """
         box = self._get_box()
+        show = ShowInfo.parse(show, box.slide.max_step)
         layout = box.layout.add(
             x=x,
             y=y,
@@ -153,11 +154,13 @@ class BoxMixin:
         if z_level is None:
             z_level = box.z_level
 
-        show = ShowInfo.parse(show, box.slide.max_step)
-        box.slide.max_step = max(box.slide.max_step, show.max_step())
-
         new_box = box.__class__(box.slide, layout, box._styles, show, z_level, name)
-        box.add_child(new_box, prepend, above, below)
+        try:
+            box.add_child(new_box, prepend, above, below)
+        except Exception:
+            box.layout.children.remove(layout)
+            raise
+        box.slide.max_step = max(box.slide.max_step, show.max_step())
         return new_box
 
     def overlay(self, **kwargs) -> "Box":
-- 
2.43.0


From 84a8537addf5ae8bc93bf47e34168dcc16538eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 16/59] fix: rendering a deck again does not throw away its
 query cache

---
 elsie/render/backends/svg/backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 8206fa2..15603fa 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -80,8 +80,7 @@ class InkscapeBackend(Backend):
         return SvgRenderUnit(slide, step, ctx.render(), self.inkscape)
 
     def prune_cache(self):
-        self.query_cache = self.used_query_cache
-        self.used_query_cache = {}
+        self.query_cache = dict(self.used_query_cache)
 
     def save_cache(self):
         self._save_query_cache(self.query_cache)
-- 
2.43.0


From 57ddd1ad0cf37d6ad8781cf285d31365146e79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 17/59] fix: files exported with and without text_to_path do
 not share cache entries

---
 elsie/render/backends/svg/backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 15603fa..31708bc 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -69,7 +69,10 @@ class InkscapeBackend(Backend):
         self.used_query_cache = {}
 
     def get_version(self, elsie_version: str) -> str:
-        return f"{elsie_version}/{self.inkscape_version}"
+        version = f"{elsie_version}/{self.inkscape_version}"
+        if self.inkscape.text_to_path:
+            version += "/text-to-path"
+        return version
 
     def create_render_unit(self, slide, step, export_type):
         ctx = SvgRenderingContext(slide, step, slide.debug_boxes)
-- 
2.43.0


From 384395c6a129c1f9ad0a90f0fa63f3bd832fceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 18/59] fix: Cairo: the dash pattern of an ellipse does not
 leak to later shapes

---
 elsie/render/backends/cairo/rcontext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 4c91287..0f30bbc 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -132,7 +132,8 @@ class CairoRenderingContext(RenderingContext):
                 draw()
         # Do not apply transform to stroke (https://www.cairographics.org/cookbook/ellipses/)
         if color:
-            stroke_shape(self.ctx, lambda: ..., color=color, **kwargs)
+            with ctx_scope(self.ctx):
+                stroke_shape(self.ctx, lambda: ..., color=color, **kwargs)
 
     def draw_polygon(self, points, rotation=None, **kwargs):
         with ctx_scope(self.ctx):
-- 
2.43.0


From 3627c532336d8eddae971dedcf7443df5462c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 19/59] fix: Cairo: a path command after S reflects the second
 control point of that S

---
 elsie/render/backends/cairo/shapes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/shapes.py b/elsie/render/backends/cairo/shapes.py
index 0afe8ae..857d414 100644
--- a/elsie/render/backends/cairo/shapes.py
+++ b/elsie/render/backends/cairo/shapes.py
@@ -28,9 +28,10 @@ def draw_path(ctx: cairocffi.Context, commands):
             last_quadratic_cp = None
             ctx.curve_to(*args[0], *args[1], *args[2])
         elif name == "S":
-            last_cubic_cp = reflect(last_cubic_cp or location, location)
+            first_cp = reflect(last_cubic_cp or location, location)
+            last_cubic_cp = args[0]
             last_quadratic_cp = None
-            ctx.curve_to(*last_cubic_cp, *args[0], *args[1])
+            ctx.curve_to(*first_cp, *args[0], *args[1])
         elif name == "Q":
             last_cubic_cp = None
             last_quadratic_cp = args[0]
-- 
2.43.0


From 87a61f062c76df05ae5eb917910d1f98ccacb24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 20/59] fix: Cairo: draw all segments of a path command with
 repeated arguments

---
 elsie/render/backends/cairo/shapes.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/shapes.py b/elsie/render/backends/cairo/shapes.py
index 857d414..3791fdf 100644
--- a/elsie/render/backends/cairo/shapes.py
+++ b/elsie/render/backends/cairo/shapes.py
@@ -1,5 +1,7 @@
 import cairocffi
 
+from ....shapes.path import COMMAND_NARGS
+
 
 def reflect(cp, anchor):
     """
@@ -10,10 +12,22 @@ def reflect(cp, anchor):
     return (anchor[0] + neg[0], anchor[1] + neg[1])
 
 
+def split_commands(commands):
+    """
+    Split commands with repeated arguments into single segments, as SVG does.
+    """
+    for name, args in commands:
+        nargs = COMMAND_NARGS[name]
+        for i in range(0, len(args), nargs):
+            yield name, args[i : i + nargs]
+            if name == "M":
+                name = "L"
+
+
 def draw_path(ctx: cairocffi.Context, commands):
     last_cubic_cp = None
     last_quadratic_cp = None
-    for name, args in commands:
+    for name, args in split_commands(commands):
         location = ctx.get_current_point()
         if name == "M":
             last_cubic_cp = None
-- 
2.43.0


From 762e9671941d67097d442575231cf64f6ef6fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 21/59] fix: renaming ids in SVG rewrites each reference
 exactly once

---
 elsie/render/backends/svg/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index a123166..e20b059 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -1,3 +1,4 @@
+import re
 from typing import TYPE_CHECKING, Tuple
 
 if TYPE_CHECKING:
@@ -46,11 +47,13 @@ def rename_ids(root, suffix):
             ids.append("#" + e_id)
             e.set("id", e_id + suffix)
 
+    if not ids:
+        return
+    ids.sort(key=len, reverse=True)  # an id may be a prefix of another one
+    pattern = re.compile("|".join(re.escape(e_id) for e_id in ids))
     for e in root.iter():
         for name, value in e.attrib.items():
-            for e_id in ids:
-                if e_id in value:
-                    e.set(name, value.replace(e_id, e_id + suffix))
+            e.set(name, pattern.sub(lambda match: match.group() + suffix, value))
 
 
 def apply_rotation(xml: "Xml", rotation: float, center: Tuple[float, float]):
-- 
2.43.0


From 5fd71e9bfe4ab290d36c47660126338b85dac505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 22/59] fix: markdown() accepts a blank text

---
 elsie/text/textparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 977c919..97e6f60 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -295,5 +295,7 @@ def _tokens_merge_helper(tokens1, tokens2):
 def trim_indent(text: str) -> str:
     """Find the smallest common indent from the left in the text and remove it from the text."""
     lines = text.splitlines(keepends=False)
-    min_indent = min(len(line) - len(line.lstrip()) for line in lines if line.strip())
+    min_indent = min(
+        (len(line) - len(line.lstrip()) for line in lines if line.strip()), default=0
+    )
     return "\n".join(line[min_indent:] for line in lines)
-- 
2.43.0


From 466bf0f24eb207cac3dab5a062e5ac7627478bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 23/59] fix: merging styles keeps the nesting order of reopened
 styles

---
 elsie/text/textparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 97e6f60..c06bf37 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -188,7 +188,7 @@ def tokens_merge(tokens1, tokens2):
             else:
                 break
         del opened[pos]
-        result.extend(reopen)
+        result.extend(reversed(reopen))
     assert not opened
     return normalize_tokens(result)
 
-- 
2.43.0


From e4ee97ae82de682fba46ecbcd1ba99cf5efac6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 24/59] fix: SVG sizes in inches and picas are converted to
 pixels

---
 elsie/render/backends/svg/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index e20b059..44be9d1 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -34,6 +34,10 @@ def svg_size_to_pixels(text):
         factor = 37.7953
     elif suffix == "pt":
         factor = 1.33333
+    elif suffix == "in":
+        factor = 96.0
+    elif suffix == "pc":
+        factor = 16.0
     else:
         factor = 1.0
     return float(text) * factor
-- 
2.43.0


From 849db00c8bfaaf983053fca9d6fd0774a2d6d433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 25/59] fix: code with use_styles may start with a line break
 inside of a style

---
 elsie/boxtree/boxmixin.py | 2 +-
 elsie/text/highlight.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index ce263e7..49c2359 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -734,7 +734,7 @@ class BoxMixin:
                     text, escape_char, begin_char=begin_char, end_char=end_char
                 )
                 text = tokens_to_text_without_style(ptext)
-            parsed_text = highlight_code(text, language)
+            parsed_text = highlight_code(text, language, stripnl=not use_styles)
             if use_styles:
                 parsed_text = tokens_merge(parsed_text, ptext)
                 if start_newlines:
diff --git a/elsie/text/highlight.py b/elsie/text/highlight.py
index de12711..443d0f4 100644
--- a/elsie/text/highlight.py
+++ b/elsie/text/highlight.py
@@ -30,8 +30,8 @@ class MyFormatter(Formatter):
                 stream.append(("end", None))
 
 
-def highlight_code(code, language):
-    lexer = get_lexer_by_name(language)
+def highlight_code(code, language, stripnl=True):
+    lexer = get_lexer_by_name(language, stripnl=stripnl)
     formatter = MyFormatter()
     highlight(code, lexer, formatter)
     return normalize_tokens(formatter.stream)
-- 
2.43.0


From faf42162c02e343ee6f675818a427c8d84d05d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 26/59] fix: a file left by an interrupted export is not taken
 for the result of the next one

---
 elsie/utils/cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 2d677d6..36dda7d 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -52,6 +52,8 @@ class FsCache:
 
         try:
             tmp_path = self._full_path("tmp." + cache_file)
+            if os.path.exists(tmp_path):  # left by an interrupted run
+                os.remove(tmp_path)
             constructor(input_data, tmp_path, data_type)
             os.replace(tmp_path, full_path)
             with self.lock:
-- 
2.43.0


From e0e9e7d6e297989701834b5f3014cec909409f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 27/59] fix: decks sharing a cache directory do not fail after
 another one pruned it

---
 elsie/utils/cache.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 36dda7d..ed19cfc 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -1,3 +1,4 @@
+import contextlib
 import hashlib
 import os
 import tempfile
@@ -45,7 +46,7 @@ class FsCache:
                 if not wait_on_collision:
                     return full_path
                 self.in_progress[cache_file].wait()
-            if cache_file in self.cache_files:
+            if cache_file in self.cache_files and os.path.isfile(full_path):
                 return full_path
             condition = threading.Condition(self.lock)
             self.in_progress[cache_file] = condition
@@ -66,7 +67,8 @@ class FsCache:
 
     def remove_unused(self):
         for filename in self.cache_files.difference(self.touched_files):
-            os.remove(self._full_path(filename))
+            with contextlib.suppress(FileNotFoundError):
+                os.remove(self._full_path(filename))
         self.cache_files.intersection_update(self.touched_files)
 
     def get(self, input_data, data_type, constructor):
@@ -74,7 +76,7 @@ class FsCache:
         self.touched_files.add(cache_file)
         full_path = os.path.join(self.cache_dir, cache_file)
 
-        if cache_file in self.cache_files:
+        if cache_file in self.cache_files and os.path.isfile(full_path):
             with open(full_path, "r") as f:
                 return f.read()
 
-- 
2.43.0


From ed51c57c9c37c0649b15b578976018f9d8923daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 28/59] fix: ORA images without optional attributes (e.g. root
 stack without visibility) are shown

---
 elsie/render/ora.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/elsie/render/ora.py b/elsie/render/ora.py
index 1bd7297..aa1acde 100644
--- a/elsie/render/ora.py
+++ b/elsie/render/ora.py
@@ -62,20 +62,21 @@ def convert_ora_to_svg(filename):
 
 
 def _check_visibility(element):
-    return element.get("visibility") == "visible"
+    # All these attributes are optional in OpenRaster; e.g. GIMP does not write them for the root stack
+    return element.get("visibility", "visible") == "visible"
 
 
 def _stack_to_svg(element, xml, sources):
     if not _check_visibility(element):
         return
     xml.element("g")
-    x, y = element.get("x"), element.get("y")
+    x, y = element.get("x", "0"), element.get("y", "0")
     if x != "0" or y != "0":
         xml.set("transform", "translate({}, {})".format(x, y))
-    opacity = float(element.get("opacity"))
+    opacity = float(element.get("opacity", 1))
     if opacity < 0.9999:
         xml.set("opacity", opacity)
-    xml.set("inkscape:label", element.get("name"))
+    xml.set("inkscape:label", element.get("name", ""))
     _children_to_svg(element, xml, sources)
     xml.close("g")
 
@@ -87,14 +88,14 @@ def _layer_to_svg(element, xml, sources):
     if source is None:
         return
     data, mime, x, y, image_width, image_height = source
-    extra_args = [("inkscape:label", element.get("name"))]
-    opacity = float(element.get("opacity"))
+    extra_args = [("inkscape:label", element.get("name", ""))]
+    opacity = float(element.get("opacity", 1))
     if opacity is not None and opacity < 0.9999:
         extra_args.append(("opacity", opacity))
     draw_bitmap(
         xml,
-        float(element.get("x")) + x,
-        float(element.get("y")) + y,
+        float(element.get("x", 0)) + x,
+        float(element.get("y", 0)) + y,
         image_width,
         image_height,
         mime,
-- 
2.43.0


From 32c43d3efb40fb925c00755ce753665ca1ed9036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 29/59] fix: an inline style with bold=False or italic=False
 applies within bold or italic text

---
 elsie/render/backends/svg/draw.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index e3a7c0a..cf4d47f 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -16,10 +16,10 @@ def set_font_from_style(xml, style):
         s += "fill:{};".format(style.color)
     if style.opacity is not None:
         s += f"fill-opacity:{style.opacity};"
-    if style.bold:
-        s += "font-weight: bold;"
-    if style.italic:
-        s += "font-style: italic;"
+    if style.bold is not None:
+        s += "font-weight: {};".format("bold" if style.bold else "normal")
+    if style.italic is not None:
+        s += "font-style: {};".format("italic" if style.italic else "normal")
     if s:
         xml.set("style", s)
 
-- 
2.43.0


From 08210472a6f520e8c209685a80dacf30f054c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 30/59] fix: changing a style object after set_style or
 update_style does not change the stored style

---
 elsie/text/stylecontainer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/text/stylecontainer.py b/elsie/text/stylecontainer.py
index 15dda3c..2488386 100644
--- a/elsie/text/stylecontainer.py
+++ b/elsie/text/stylecontainer.py
@@ -18,7 +18,7 @@ class StyleContainer:
         old_style.update(style)
         self._styles = self._styles.copy()
         self._styles[style_name] = old_style
-        return old_style
+        return old_style.copy()
 
     def set_style(self, style_name: str, style: TextStyle, base="default"):
         """
@@ -41,7 +41,7 @@ class StyleContainer:
             base_style.update(style)
             style = base_style
         self._styles = self._styles.copy()
-        self._styles[style_name] = style
+        self._styles[style_name] = style.copy()
         return style
 
     def get_style(self, style: Union[str, TextStyle], full_style=False) -> TextStyle:
-- 
2.43.0


From fa363c0c10725c0c30a22011dbd821507908fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 31/59] fix: code with token types of its own lexer (e.g. YAML)
 is shown in the styles of their parent types

---
 elsie/text/highlight.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elsie/text/highlight.py b/elsie/text/highlight.py
index 443d0f4..7eb11c6 100644
--- a/elsie/text/highlight.py
+++ b/elsie/text/highlight.py
@@ -2,6 +2,7 @@ from pygments import highlight
 from pygments.formatter import Formatter
 from pygments.lexers import get_lexer_by_name
 from pygments.styles import get_style_by_name
+from pygments.token import STANDARD_TYPES
 
 from .textparser import NEWLINE_1, normalize_tokens
 from .textstyle import TextStyle
@@ -15,6 +16,8 @@ class MyFormatter(Formatter):
     def format(self, tokensource, outfile):
         stream = self.stream
         for ttype, value in tokensource:
+            while ttype not in STANDARD_TYPES:
+                ttype = ttype.parent
             if value == "\n":
                 stream.append(NEWLINE_1)
             else:
-- 
2.43.0


From b07d7887b71c31319ae0e90b41d8b34b250345a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 32/59] fix: code with a line break in front of an empty style
 block at its end is accepted

---
 elsie/text/textparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index c06bf37..f8f0e99 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -254,6 +254,12 @@ def _tokens_merge_helper(tokens1, tokens2):
             new_block(1)
             continue
 
+        if (n1, n2) == ("<END>", "newline"):
+            # line break in front of an empty block at the end of the text
+            result.append(last[1])
+            read(1)
+            continue
+
         if n1 == "<END>" or n2 == "<END>":
             assert n1 == "<END>" and n2 == "<END>"
             break
-- 
2.43.0


From 626f956619eb874e5147189432118765abd3c3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 33/59] fix: empty tokens of a lexer (e.g. Sass) do not break
 code with use_styles

---
 elsie/text/highlight.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/text/highlight.py b/elsie/text/highlight.py
index 7eb11c6..1cd5d8d 100644
--- a/elsie/text/highlight.py
+++ b/elsie/text/highlight.py
@@ -16,6 +16,8 @@ class MyFormatter(Formatter):
     def format(self, tokensource, outfile):
         stream = self.stream
         for ttype, value in tokensource:
+            if not value:
+                continue  # some lexers produce empty tokens
             while ttype not in STANDARD_TYPES:
                 ttype = ttype.parent
             if value == "\n":
-- 
2.43.0


From c5fa2db54dfdd7f2af4b837b6391b3404c86d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 34/59] fix: keep the text that follows a hidden element of an
 image

---
 elsie/render/image.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/elsie/render/image.py b/elsie/render/image.py
index bb50de6..d3a0ece 100644
--- a/elsie/render/image.py
+++ b/elsie/render/image.py
@@ -19,6 +19,17 @@ def get_image_steps(root):
     return steps
 
 
+def remove_element(parent, element):
+    # The text following the element is a part of its parent, it has to stay there
+    if element.tail:
+        previous = element.getprevious()
+        if previous is not None:
+            previous.tail = (previous.tail or "") + element.tail
+        else:
+            parent.text = (parent.text or "") + element.tail
+    parent.remove(element)
+
+
 def create_image_data(root, step):
     hidden = []
 
@@ -33,5 +44,5 @@ def create_image_data(root, step):
     root = deepcopy(root)
     find_hidden_elements(root)
     for element, child in hidden:
-        element.remove(child)
+        remove_element(element, child)
     return et.tostring(root).decode()
-- 
2.43.0


From c73559519aa9997282e85711612cbbb1b3b7e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 35/59] fix: the size an image asks for does not count the
 padding of its box

---
 elsie/boxtree/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index 7de68a5..2fb093d 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -220,7 +220,7 @@ class Layout:
             self.ensure_height(image_height)
             return
         minx, miny = self.min_children_size()
-        size_x = max(self._width.min_size, minx)
-        size_y = max(self._height.min_size, miny)
+        size_x = max(self._width.min_size - self.p_left - self.p_right, minx)
+        size_y = max(self._height.min_size - self.p_top - self.p_bottom, miny)
         self.ensure_width(size_y * image_width / image_height)
         self.ensure_height(size_x * image_height / image_width)
-- 
2.43.0


From 1b75df4e076c038a4c4eebaf2d9752f4d32756d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:19 +0000
Subject: [PATCH 36/59] fix: the content of Markdown list items and quotes
 stays in order around nested lists

---
 elsie/ext/markdown.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index 9047981..6fcaed6 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -101,7 +101,8 @@ def build_blank_line(ctx: MarkdownContext, blank_line: BlankLine):
 def build_quote(ctx: MarkdownContext, quote: Quote):
     container = ctx.box.sbox()
     container.update_style("default", container.get_style(MD_BLOCKQUOTE_STYLE))
-    parent_ctx = ctx.copy(box=container)
+    # Lists inside of the quote have to stay in the box of the quote
+    parent_ctx = ctx.copy(box=container, active_list=None)
     for child in quote.children:
         build(parent_ctx, child)
 
@@ -126,7 +127,19 @@ def build_list_top(ctx: MarkdownContext, list_node: List):
     for child in list_node.children:
         assert isinstance(child, ListItem)
         box = new_list.item()
-        build_children(ctx.copy(box=box, active_list=new_list), child)
+        build_list_item(ctx.copy(box=box, active_list=new_list), child)
+
+
+def build_list_item(ctx: MarkdownContext, item: ListItem):
+    # Sublists of the active list are placed below the whole item. A list that is followed by other
+    # content of the item therefore has to stay inside of the box of the item.
+    last_content = -1
+    for i, node in enumerate(item.children):
+        if not isinstance(node, (List, BlankLine)):
+            last_content = i
+    inner_ctx = ctx.copy(active_list=None)
+    for i, node in enumerate(item.children):
+        build(inner_ctx if i < last_content else ctx, node)
 
 
 MD_BUILD_FNS = {
-- 
2.43.0


From 50d4f470435a8ee1943ef37c65a5f521c1212085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:19 +0000
Subject: [PATCH 37/59] fix: a sublist of an ordered list may start at zero (as
 a list may)

---
 elsie/ext/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 82f8e3a..15728db 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -158,7 +158,7 @@ class ListBuilder:
         self, default_label, start=None, indent=None, label=None, level=None, **box_args
     ):
         start = start if start is not None else 1
-        assert start >= 1
+        assert start >= 0
         indent = indent if indent is not None else self.default_indent
         level = level if level is not None else self.level
 
-- 
2.43.0


From 334b21d966550d82799a59117e49eaeba3adb0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:19 +0000
Subject: [PATCH 38/59] fix: only whole ids of LaTeX pictures are renamed,
 other values that look like them stay

---
 elsie/render/backends/svg/utils.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index 44be9d1..da2f049 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -43,21 +43,34 @@ def svg_size_to_pixels(text):
     return float(text) * factor
 
 
+URL_REFERENCE = re.compile(r"""url\(\s*(["']?)#(.*?)\1\s*\)""")
+
+
 def rename_ids(root, suffix):
-    ids = []
+    ids = set()
     for e in root.iter():
         e_id = e.get("id")
         if e_id:
-            ids.append("#" + e_id)
+            ids.add(e_id)
             e.set("id", e_id + suffix)
 
     if not ids:
         return
-    ids.sort(key=len, reverse=True)  # an id may be a prefix of another one
-    pattern = re.compile("|".join(re.escape(e_id) for e_id in ids))
+
+    def rename_url(match):
+        e_id = match.group(2)
+        if e_id not in ids:
+            return match.group()
+        return match.group().replace("#" + e_id, "#" + e_id + suffix)
+
+    # Only whole ids are renamed, "#abc" may also be a color or another id
     for e in root.iter():
         for name, value in e.attrib.items():
-            e.set(name, pattern.sub(lambda match: match.group() + suffix, value))
+            if name == "href" or name.endswith("}href"):
+                if value.startswith("#") and value[1:] in ids:
+                    e.set(name, value + suffix)
+            elif "url(" in value:
+                e.set(name, URL_REFERENCE.sub(rename_url, value))
 
 
 def apply_rotation(xml: "Xml", rotation: float, center: Tuple[float, float]):
-- 
2.43.0


From 4ba5ffbd39b7967501ae9ac495334b95b98efe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 39/59] fix: a zero corner radius of a rect is written into SVG

Left out, it takes the value of the other radius and the corners get round.
---
 elsie/render/backends/svg/draw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index cf4d47f..f2f6bc1 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -145,9 +145,9 @@ def draw_rect(xml, rect: Rect, rx=None, ry=None, rotation=None, **kwargs):
     xml.set("y", rect.y)
     xml.set("width", rect.width)
     xml.set("height", rect.height)
-    if rx:
+    if rx is not None:
         xml.set("rx", rx)
-    if ry:
+    if ry is not None:
         xml.set("ry", ry)
     if rotation:
         apply_rotation(xml, rotation, rect.mid_point)
-- 
2.43.0


From adfa7bf91fd90fde61d2d9e013bcec40a9c6a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 40/59] fix: dash patterns separated by commas with the Cairo
 backend

---
 elsie/render/backends/cairo/draw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/draw.py b/elsie/render/backends/cairo/draw.py
index ad6268e..29e7bc4 100644
--- a/elsie/render/backends/cairo/draw.py
+++ b/elsie/render/backends/cairo/draw.py
@@ -42,7 +42,8 @@ def stroke_shape(ctx, callback, color, stroke_width=None, stroke_dasharray=None)
     stroke_width = stroke_width or 1
     ctx.set_line_width(stroke_width)
     if stroke_dasharray:
-        ctx.set_dash([float(v) for v in stroke_dasharray.split()])
+        dashes = str(stroke_dasharray).replace(",", " ").split()
+        ctx.set_dash([float(v) for v in dashes])
     callback()
     ctx.stroke()
 
-- 
2.43.0


From 34e70fef26d26fa7a1b2b9990d3442b823a1a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 41/59] fix: close the outline of polygons with the Cairo
 backend

The last corner was left open instead of being joined.
---
 elsie/render/backends/cairo/rcontext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 0f30bbc..338335b 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -141,8 +141,9 @@ class CairoRenderingContext(RenderingContext):
 
             def draw():
                 self.ctx.move_to(*points[0])
-                for p in points[1:] + [points[0]]:
+                for p in points[1:]:
                     self.ctx.line_to(*p)
+                self.ctx.close_path()
 
             fill_stroke_shape(self.ctx, draw, **kwargs)
 
-- 
2.43.0


From 6e627d8cbf3c7e42995462a8f94daace14e98424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 42/59] fix: lines without a color with the Cairo backend

Nothing is painted for them, as with SVG; they crashed before.
---
 elsie/render/backends/cairo/rcontext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 338335b..362ec82 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -155,7 +155,7 @@ class CairoRenderingContext(RenderingContext):
                 for p in points[1:]:
                     self.ctx.line_to(*p)
 
-            stroke_shape(self.ctx, draw, **kwargs)
+            fill_stroke_shape(self.ctx, draw, **kwargs)
 
     def draw_path(self, commands, **kwargs):
         with ctx_scope(self.ctx):
-- 
2.43.0


From 9c0b42b13091d19cdb36a5854b315670e3d3772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 43/59] fix: SVG images respect the view box of the slide with
 the Cairo backend

---
 elsie/render/backends/cairo/rcontext.py |  1 +
 elsie/render/backends/cairo/svg.py      | 24 +++++++++++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 362ec82..21d0a22 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -258,4 +258,5 @@ class CairoRenderingContext(RenderingContext):
             height=height,
             rotation=rotation,
             dpi=self.cairosvg_dpi,
+            matrix=self.ctx.get_matrix(),
         )
diff --git a/elsie/render/backends/cairo/svg.py b/elsie/render/backends/cairo/svg.py
index fb0663e..3e2c017 100644
--- a/elsie/render/backends/cairo/svg.py
+++ b/elsie/render/backends/cairo/svg.py
@@ -26,6 +26,7 @@ class CairoSurface(Surface):
         map_rgba=None,
         map_image=None,
         rotation=None,
+        matrix=None,
     ):
         self.surface = surface
         self.cairo = None
@@ -85,10 +86,14 @@ class CairoSurface(Surface):
             raise ValueError("The SVG size is undefined")
 
         self.context = cairo.Context(self.cairo)
-        # We must scale the context as the surface size is using physical units
-        self.context.scale(
-            self.device_units_per_user_units, self.device_units_per_user_units
-        )
+        if matrix is not None:
+            # The image is placed in the coordinates of the slide
+            self.context.set_matrix(matrix)
+        else:
+            # We must scale the context as the surface size is using physical units
+            self.context.scale(
+                self.device_units_per_user_units, self.device_units_per_user_units
+            )
         center = (x + width / 2, y + height / 2)
         transform(self.context, center, rotation=rotation)
         self.context.translate(x, y)
@@ -108,7 +113,15 @@ class CairoSurface(Surface):
 
 
 def render_svg(
-    surface: cairo.Surface, svg: str, x, y, width, height, rotation=None, dpi=96
+    surface: cairo.Surface,
+    svg: str,
+    x,
+    y,
+    width,
+    height,
+    rotation=None,
+    dpi=96,
+    matrix=None,
 ):
     tree = Tree(bytestring=svg.encode())
     instance = CairoSurface(
@@ -120,5 +133,6 @@ def render_svg(
         dpi=dpi,
         output_width=width,
         output_height=height,
+        matrix=matrix,
     )
     instance.draw(tree)
-- 
2.43.0


From 4c9208e23579c222440ba14ccab62eed74938ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 44/59] fix: shape of rounded corners with the Cairo backend

Two of the four corners were not quarters of an ellipse.
---
 elsie/render/backends/cairo/draw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/draw.py b/elsie/render/backends/cairo/draw.py
index 29e7bc4..0c7fe1a 100644
--- a/elsie/render/backends/cairo/draw.py
+++ b/elsie/render/backends/cairo/draw.py
@@ -21,11 +21,11 @@ def rounded_rectangle(ctx: cairo.Context, x, y, w, h, rx, ry):
     ctx.new_path()
     ctx.move_to(x + rx, y)
     ctx.rel_line_to(w - 2 * rx, 0.0)
-    ctx.rel_curve_to(c1, 0.0, rx, c2, rx, ry)
+    ctx.rel_curve_to(c1, 0.0, rx, ry - c2, rx, ry)
     ctx.rel_line_to(0, h - 2 * ry)
     ctx.rel_curve_to(0.0, c2, c1 - rx, ry, -rx, ry)
     ctx.rel_line_to(-w + 2 * rx, 0)
-    ctx.rel_curve_to(-c1, 0, -rx, -c2, -rx, -ry)
+    ctx.rel_curve_to(-c1, 0, -rx, c2 - ry, -rx, -ry)
     ctx.rel_line_to(0, -h + 2 * ry)
     ctx.rel_curve_to(0.0, -c2, rx - c1, -ry, rx, -ry)
     ctx.close_path()
-- 
2.43.0


From 07fd0d1bcfd89881e600abd95724f82158473852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 45/59] fix: ellipses drawn after texts and images with the
 Cairo backend

They were connected by a line with the place where the text or the image was
drawn.
---
 elsie/render/backends/cairo/rcontext.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 21d0a22..360f659 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -120,6 +120,7 @@ class CairoRenderingContext(RenderingContext):
         center = rect.mid_point
 
         def draw():
+            self.ctx.new_path()
             self.ctx.arc(center[0], center[1], dim_larger / 2.0, 0, 2 * math.pi)
 
         with ctx_scope(self.ctx):
-- 
2.43.0


From d799fddeef3e59a9cf44a48ace5342745c37ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 46/59] fix: ellipses of no width or height crash the Cairo
 backend

---
 elsie/render/backends/cairo/rcontext.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 360f659..2ee9bb3 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -111,6 +111,8 @@ class CairoRenderingContext(RenderingContext):
     def draw_ellipse(
         self, rect: Rect, rotation=None, color=None, bg_color=None, **kwargs
     ):
+        if not rect.width or not rect.height:
+            return  # as in SVG, nothing is drawn
         dim_larger = rect.width
         dim_smaller = rect.height
         if dim_larger < dim_smaller:
-- 
2.43.0


From df0ba51f8ab870f0db44a470689290699af4ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 47/59] fix: translucent pixels of PNG pages exported by the
 Cairo backend

---
 elsie/render/backends/cairo/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/backend.py b/elsie/render/backends/cairo/backend.py
index f9e475a..d8cab6f 100644
--- a/elsie/render/backends/cairo/backend.py
+++ b/elsie/render/backends/cairo/backend.py
@@ -71,7 +71,7 @@ class CairoRenderUnit(RenderUnit):
                 (self.ctx.width, self.ctx.height),
                 self.ctx.surface.get_data(),
                 "raw",
-                "BGRA",
+                "BGRa",
                 0,
                 1,
             )
-- 
2.43.0


From 43ddb8f7e8822e2af807354aa6b30455453eb375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 48/59] fix: SVG images in mm or pt in PNG pages exported by
 the Cairo backend

---
 elsie/render/backends/cairo/rcontext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 2ee9bb3..23886cf 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -71,7 +71,7 @@ class CairoRenderingContext(RenderingContext):
             )
             self.reference_ctx = cairo.Context(reference_surface)
             self.reference_ctx.scale(RESOLUTION_SCALE, RESOLUTION_SCALE)
-            self.cairosvg_dpi = CAIRO_DPI
+            self.cairosvg_dpi = TARGET_DPI
         else:
             assert False
 
-- 
2.43.0


From 830498d4109473550e8d67b6843d67413b73737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:40 +0000
Subject: [PATCH 49/59] fix: lines of texts drawn by the Cairo backend

---
 elsie/render/backends/cairo/rcontext.py | 52 ++++++++++++-------------
 elsie/render/backends/cairo/text.py     | 34 ++++++++++++----
 2 files changed, 53 insertions(+), 33 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 23886cf..aa5f4e1 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -25,7 +25,7 @@ from .text import (
     compute_subtext_extents,
     from_pango_units,
     get_extents,
-    to_pango_units,
+    split_lines,
 )
 from .utils import normalize_svg
 
@@ -75,12 +75,12 @@ class CairoRenderingContext(RenderingContext):
         else:
             assert False
 
-        self.line_scaling = 1.0
-        if viewbox:
-            self.line_scaling = apply_viewbox(self.ctx, width, height, viewbox)
-
+        # Texts are measured independently of the view box
         self.pctx = pangocairocffi.create_context(self.reference_ctx)
 
+        if viewbox:
+            apply_viewbox(self.ctx, width, height, viewbox)
+
     def draw_rect(
         self,
         rect: Rect,
@@ -169,9 +169,7 @@ class CairoRenderingContext(RenderingContext):
             fill_stroke_shape(self.ctx, draw, **kwargs)
 
     def compute_text_extents(self, parsed_text, style: TextStyle, styles) -> Rect:
-        layout = build_layout(
-            self.ctx, self.pctx, parsed_text, style, styles, RESOLUTION_SCALE
-        )
+        layout = build_layout(self.pctx, parsed_text, style, styles, RESOLUTION_SCALE)
         return get_extents(layout)
 
     def compute_subtext_extents(
@@ -179,9 +177,7 @@ class CairoRenderingContext(RenderingContext):
     ) -> Rect:
         from ....text.textboxitem import text_x_in_rect
 
-        layout = build_layout(
-            self.ctx, self.pctx, parsed_text, style, styles, RESOLUTION_SCALE
-        )
+        layout = build_layout(self.pctx, parsed_text, style, styles, RESOLUTION_SCALE)
         extents = get_extents(layout)
         start_x = text_x_in_rect(Rect(x=0, width=extents.width), style)
         x, width = compute_subtext_extents(layout, parsed_text, id_index)
@@ -199,25 +195,29 @@ class CairoRenderingContext(RenderingContext):
         scale=None,
         **kwargs,
     ):
+        from ....text.textboxitem import text_x_in_rect
+
         # TODO: try basic Cairo text API
+        if scale is None:
+            scale = 1.0
+        full_style = styles["default"].compose(style)
+        line_height = full_style.size * full_style.line_spacing
         with ctx_scope(self.ctx):
-            layout = build_layout(
-                self.reference_ctx,
-                self.pctx,
-                parsed_text,
-                style,
-                styles,
-                resolution_scale=RESOLUTION_SCALE,
-                spacing_scale=self.line_scaling,
-                text_scale=scale,
-            )
-            layout.set_width(to_pango_units(rect.width))
-            baseline = from_pango_units(layout.get_baseline())
-
             if rotation is not None:
                 transform(self.ctx, rect.mid_point, rotation=rotation)
-            self.ctx.move_to(rect.x, y - baseline)
-            pangocairocffi.show_layout(self.ctx, layout)
+            self.ctx.translate(x, y)
+            self.ctx.scale(scale, scale)
+            for i, line in enumerate(split_lines(parsed_text)):
+                # Each line has its own layout, so that it is never wrapped and the
+                # distance of lines does not depend on the fonts of their parts
+                layout = build_layout(self.pctx, line, style, styles, RESOLUTION_SCALE)
+                extents = get_extents(layout)
+                baseline = from_pango_units(layout.get_baseline())
+                self.ctx.move_to(
+                    -text_x_in_rect(Rect(x=0, width=extents.width), full_style),
+                    i * line_height - baseline,
+                )
+                pangocairocffi.show_layout(self.ctx, layout)
 
     def draw_bitmap(self, x, y, width, height, data, rotation=None, **kwargs):
         assert isinstance(data, bytes)
diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 70f1cb9..0c2bc58 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -1,7 +1,5 @@
 from typing import List, Tuple
 
-import cairocffi as cairo
-import pangocairocffi
 import pangocffi
 from pangocffi import Attribute, AttrList, FontDescription, Layout, Rectangle, ffi
 
@@ -56,6 +54,28 @@ def style_to_attributes(
     return attrs
 
 
+def split_lines(parsed_text) -> list:
+    """
+    Splits tokens into lines. Blocks that span several lines are opened in each of them.
+    """
+    lines = []
+    line, opened = [], []
+    for token in parsed_text:
+        name, value = token
+        if name == "newline":
+            for _ in range(value):
+                lines.append(line + [("end", None)] * len(opened))
+                line = opened[:]
+            continue
+        if name == "begin":
+            opened.append(token)
+        elif name == "end":
+            opened.pop()
+        line.append(token)
+    lines.append(line)
+    return lines
+
+
 INVISIBLE_SPACE = "⠀"  # this is not a normal space, but U+2800
 
 
@@ -128,7 +148,6 @@ def get_text_height(pctx: pangocffi.Context, style: TextStyle, resolution_scale:
 
 
 def build_layout(
-    ctx: cairo.Context,
     pctx: pangocffi.Context,
     parsed_text,
     style: TextStyle,
@@ -139,7 +158,7 @@ def build_layout(
 ) -> pangocffi.Layout:
     # TODO: fix letter spacing
     style = styles["default"].compose(style)
-    layout = pangocairocffi.create_layout(ctx)
+    layout = Layout(pctx)
     layout.set_ellipsize(pangocffi.EllipsizeMode.NONE)
 
     layout.set_alignment(get_pango_alignment(style))
@@ -183,10 +202,11 @@ def get_byte_range(parsed_text, id_index) -> Tuple[int, int]:
         elif type == "begin":
             if i == id_index:
                 start = byte_count
-            stack.append(value)
+                start_depth = depth
+            depth += 1
         elif type == "end":
-            stack.pop()
-            if start is not None and not stack:
+            depth -= 1
+            if start is not None and depth == start_depth:
                 return (start, byte_count)
     assert False
 
-- 
2.43.0


From cff9d2d490d301b3b967d039a908014683ec52a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:40 +0000
Subject: [PATCH 50/59] fix: inline boxes of nested styles with the Cairo
 backend

---
 elsie/render/backends/cairo/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 0c2bc58..89daefc 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -190,9 +190,10 @@ def get_extents(layout: pangocffi.Layout, ink=True) -> Rect:
 
 
 def get_byte_range(parsed_text, id_index) -> Tuple[int, int]:
-    stack = []
+    depth = 0
     byte_count = 0
     start = None
+    start_depth = None
 
     for i, (type, value) in enumerate(parsed_text):
         if type == "text":
-- 
2.43.0


From c7cf077f122e77a64b2de1f76f034853194b4edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:40 +0000
Subject: [PATCH 51/59] fix: opacity of texts with the Cairo backend

---
 elsie/render/backends/cairo/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 89daefc..58c8ced 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -43,6 +43,10 @@ def style_to_attributes(
             *to_pango_color(get_rgb_color(style.color)), **kwargs
         ),
     ]
+    if style.opacity is not None:
+        # 0 means that alpha is not set in Pango
+        alpha = max(int(style.opacity * (2**16 - 1)), 1)
+        attrs.append(Attribute.from_foreground_alpha(alpha, **kwargs))
     if text_scale is not None:
         attrs.append(attr_from_scale(text_scale, **kwargs))
 
-- 
2.43.0


From d38d76c32955245d8033c192b945b3bc4c5bc556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:09 +0000
Subject: [PATCH 52/59] fix: black pixels of ORA layers without an alpha
 channel

---
 elsie/render/ora.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/ora.py b/elsie/render/ora.py
index aa1acde..f4c1dc5 100644
--- a/elsie/render/ora.py
+++ b/elsie/render/ora.py
@@ -25,7 +25,8 @@ def convert_ora_to_svg(filename):
             if src is not None and src not in sources:
                 with archive.open(src) as f:
                     img = Image.open(f)
-                    box = img.getbbox()
+                    # The bounding box of an image without alpha channel leaves out black pixels
+                    box = img.convert("RGBA").getbbox()
 
                     if box is None:
                         sources[src] = None
-- 
2.43.0


From 0797fdafa824ff98de664c52860e77deadd49d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:16 +0000
Subject: [PATCH 53/59] fix: debug files of slides with the same index after a
 slide was replaced

---
 elsie/slides/slidedeck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elsie/slides/slidedeck.py b/elsie/slides/slidedeck.py
index a2497ee..f2ace67 100644
--- a/elsie/slides/slidedeck.py
+++ b/elsie/slides/slidedeck.py
@@ -78,6 +78,7 @@ class SlideDeck(StyleContainer):
         self.debug = debug
         self.bg_color = bg_color
         self._slides = []
+        self._slide_counter = 0
         styles = {
             "default": TextStyle(
                 font="sans-serif",
@@ -150,7 +151,7 @@ class SlideDeck(StyleContainer):
 
         slide = Slide(
             self,
-            len(self._slides),
+            self._slide_counter,
             self.width,
             self.height,
             self._styles.copy(),
@@ -161,6 +162,7 @@ class SlideDeck(StyleContainer):
             debug_boxes,
         )
         self._slides.append(slide)
+        self._slide_counter += 1
         box = slide.box()
         if bg_color is None:
             bg_color = self.bg_color
@@ -214,6 +216,7 @@ class SlideDeck(StyleContainer):
     def add_pdf(self, filename: str):
         """Adds raw PDF into the resulting slides."""
         self._slides.append(ExternPdfSlide(filename))
+        self._slide_counter += 1
 
     def _show_progress(self, name, value=0, max_value=0, first=False, last=False):
         if not first:
-- 
2.43.0


From 1f24feab4bb60902d4383f72a9451665c2fba684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 54/59] fix: images changed when the list passed as
 select_fragments was changed later

---
 elsie/boxtree/boxmixin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 49c2359..e987373 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -608,6 +608,7 @@ class BoxMixin:
         )
 
         if select_fragments is not None:
+            select_fragments = list(select_fragments)
             image_steps = len(select_fragments)
         else:
             if fragments:
-- 
2.43.0


From 4e19cb943bca6f222030d22b09d81d3891195668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:12 +0000
Subject: [PATCH 55/59] fix: a rejected call of image() left its size request
 in the box

---
 elsie/boxtree/boxmixin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index e987373..27d863b 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -603,10 +603,6 @@ class BoxMixin:
         image_width = svg_size_to_pixels(root.get("width"))
         image_height = svg_size_to_pixels(root.get("height"))
 
-        self._get_box().layout.set_image_size_request(
-            image_width * (scale or 1), image_height * (scale or 1)
-        )
-
         if select_fragments is not None:
             select_fragments = list(select_fragments)
             image_steps = len(select_fragments)
@@ -615,8 +611,12 @@ class BoxMixin:
                 image_steps = get_image_steps(root)
             else:
                 image_steps = 1
+        last_step = show_begin - 1 + image_steps
 
-        self._get_box()._ensure_steps(show_begin - 1 + image_steps)
+        self._get_box().layout.set_image_size_request(
+            image_width * (scale or 1), image_height * (scale or 1)
+        )
+        self._get_box()._ensure_steps(last_step)
 
         image_data = None
 
-- 
2.43.0


From da41175cb3321eabecf8560ab31678480e29df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:19 +0000
Subject: [PATCH 56/59] fix: rejected items of a list were counted

---
 elsie/ext/list.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 15728db..5b0c616 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -131,27 +131,31 @@ class ListBuilder:
             Additional arguments that will be passed to the box of the list item.
             These arguments will be combined with the `box_args` of the current list.
         """
-        self.level[-1] += 1
-
         label_padding = (
             label_padding if label_padding is not None else self.label_padding
         )
+        actual_label = label if label is not None else self.label
+        if not (
+            actual_label is None
+            or callable(actual_label)
+            or isinstance(actual_label, str)
+        ):
+            raise Exception("Label must be either a string or a function")
 
         args = dict(self.box_args)
         args.update(box_args)
         box_args["horizontal"] = True
         box, _ = self._create_box(self.parent, indent=0, **box_args)
         box.update_style("default", TextStyle(align="left"))
+        # Only items that were really created are counted
+        self.level[-1] += 1
 
-        actual_label = label if label is not None else self.label
         if actual_label is not None:
             label_box = box.box(y="[0%]")
             if callable(actual_label):
                 actual_label(label_box, self.level)
-            elif isinstance(actual_label, str):
-                label_box.text(actual_label)
             else:
-                raise Exception("Label must be either a string or a function")
+                label_box.text(actual_label)
         return box.box(p_left=label_padding, width="fill")
 
     def _create_sublist(
-- 
2.43.0


From 9013a9c8718a36953a3b4013474bd62b5372ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:54 +0000
Subject: [PATCH 57/59] fix: shapes with stroke_width=0 were drawn with a line
 of width 1

---
 elsie/render/backends/cairo/draw.py | 3 ++-
 elsie/render/backends/svg/draw.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/draw.py b/elsie/render/backends/cairo/draw.py
index 0c7fe1a..d7ea159 100644
--- a/elsie/render/backends/cairo/draw.py
+++ b/elsie/render/backends/cairo/draw.py
@@ -39,7 +39,8 @@ def fill_shape(ctx, callback, bg_color):
 
 def stroke_shape(ctx, callback, color, stroke_width=None, stroke_dasharray=None):
     ctx.set_source_rgb(*get_rgb_color(color))
-    stroke_width = stroke_width or 1
+    if stroke_width is None:
+        stroke_width = 1
     ctx.set_line_width(stroke_width)
     if stroke_dasharray:
         dashes = str(stroke_dasharray).replace(",", " ").split()
diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index f2f6bc1..9eec2ba 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -34,7 +34,8 @@ def set_paint_style(
         styles.append("fill:none")
 
     if color:
-        stroke_width = stroke_width or 1
+        if stroke_width is None:
+            stroke_width = 1
         styles.append(f"stroke:{color}")
         styles.append(f"stroke-width:{stroke_width}")
         if stroke_dasharray:
-- 
2.43.0


From e19461d33197a0ec1a69d672a2d177badf5c97a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:54 +0000
Subject: [PATCH 58/59] fix: the label of the root element of an SVG image was
 ignored

---
 elsie/render/image.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elsie/render/image.py b/elsie/render/image.py
index d3a0ece..5f7d14b 100644
--- a/elsie/render/image.py
+++ b/elsie/render/image.py
@@ -42,6 +42,11 @@ def create_image_data(root, step):
             find_hidden_elements(child)
 
     root = deepcopy(root)
+    show_info = parse_show_info_from_label(root)
+    if show_info is not None and not show_info.is_visible(step):
+        # The root encloses the whole image
+        root.text = None
+        del root[:]
     find_hidden_elements(root)
     for element, child in hidden:
         remove_element(element, child)
-- 
2.43.0


From 7121365edb9a8c0827628318ec3d9695d25a8a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:54 +0000
Subject: [PATCH 59/59] fix: the Cairo backend failed for texts with a line
 spacing below 1

---
 elsie/render/backends/cairo/text.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 58c8ced..44669e0 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -172,7 +172,6 @@ def build_layout(
 
     height = get_text_height(pctx, style, resolution_scale)
 
-    assert style.line_spacing >= 1.0
     spacing = (style.line_spacing * style.size) - height
     layout.set_spacing(to_pango_units(spacing * spacing_scale))
 
-- 
2.43.0

