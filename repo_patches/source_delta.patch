From 63d6c6ae3b6fc36339e7e27ec13eb3f61cf59c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:35 +0000
Subject: [PATCH 01/34] fix: honour signed when the bits to read are already
 buffered

---
 dustmaker/bitio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 534cc32..8a7e67d 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -113,6 +113,8 @@ class BitIOReader(BitIO):
             self._bits = self._bits >> bits
             self._bits_left -= bits
             self._tell += bits
+            if signed and (result & (1 << bits >> 1)):
+                result -= 1 << bits
             return result
 
         # Read in needed data from underlying stream.
@@ -131,7 +133,7 @@ class BitIOReader(BitIO):
 
         # Remove the extra data
         result = result & (1 << bits) - 1
-        if signed and (result & (1 << bits - 1)):
+        if signed and (result & (1 << bits >> 1)):
             result -= 1 << bits
 
         self._tell += bits
-- 
2.43.0


From 7e3d2225600ea2f681092aa2d9f2b4f21f1fd5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:48 +0000
Subject: [PATCH 02/34] fix: move past the lead byte when aligning after an
 unaligned seek

---
 dustmaker/bitio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 8a7e67d..87f3e8e 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -57,6 +57,9 @@ class BitIO:
         not require :attr:`data` to support seek itself.
         """
         self._tell += self._bits_left
+        if self._bits == -1:
+            # We did a seek mid-byte and the lead byte was never consumed.
+            self.data.seek(self._tell >> 3)
         self._bits = 0
         self._bits_left = 0
 
-- 
2.43.0


From c7563780ccf1513cf707fd78c20e8603d628235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:58 +0000
Subject: [PATCH 03/34] fix: flush trailing bits only once and move to the byte
 boundary

---
 dustmaker/bitio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 87f3e8e..bd383e4 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -240,6 +240,9 @@ class BitIOWriter(BitIO):
         """
         if self._bits_left != 0 and self._bits != -1:
             self.data.write(bytes((self._bits,)))
+            self._tell += self._bits_left
+            self._bits = 0
+            self._bits_left = 0
 
     def align(self) -> None:
         """Seeks the stream forward to the nearest byte boundary. This does
-- 
2.43.0


From b9e3796449a0fb3a62ae004adf3716290dabc9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:14 +0000
Subject: [PATCH 04/34] fix: leave an unbuffered stream open and complete when
 not owned

---
 dustmaker/bitio.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index bd383e4..535c3aa 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -159,7 +159,8 @@ class BitIOWriter(BitIO):
     """Bit writer wrapper for a data stream."""
 
     def __init__(self, data: BinaryIO, *, noclose: bool = False) -> None:
-        if not isinstance(data, io.BufferedIOBase):
+        self._wrapped = not isinstance(data, io.BufferedIOBase)
+        if self._wrapped:
             data = io.BufferedWriter(data)  # type: ignore
         super().__init__(data, noclose=noclose)
 
@@ -225,6 +226,11 @@ class BitIOWriter(BitIO):
         """
         try:
             self.flush()
+            if self._wrapped and self._noclose:
+                # Hand the caller's stream back, our own buffer would close it
+                # once collected.
+                self.data = self.data.detach()  # type: ignore
+                self._wrapped = False
         finally:
             super().close()
 
-- 
2.43.0


From 8161a1a6b14e6cdf7f5b4814526609b13c6331ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:19 +0000
Subject: [PATCH 05/34] fix: make struct and array variables hashable

---
 dustmaker/variable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dustmaker/variable.py b/dustmaker/variable.py
index fac7d69..e79583b 100644
--- a/dustmaker/variable.py
+++ b/dustmaker/variable.py
@@ -179,6 +179,9 @@ class VariableStruct(Variable):
             assert isinstance(key, str) and isinstance(val, Variable)
             val._assert_types()
 
+    def __hash__(self):
+        return hash((self._vtype, frozenset(self.value.items())))
+
 
 class VariableArray(Variable, collections.abc.MutableSequence):
     """Represents an array variable. Arrays are stored a bit differently
@@ -261,3 +264,6 @@ class VariableArray(Variable, collections.abc.MutableSequence):
         for elem in self.value[1]:
             assert isinstance(elem, self.value[0])
             elem._assert_types()
+
+    def __hash__(self):
+        return hash((self._vtype, self.value[0], tuple(self.value[1])))
-- 
2.43.0


From d4f048900150d4d4af5b7396c874fcacb1fbb138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:34 +0000
Subject: [PATCH 06/34] fix: store props and entities at negative positions in
 the right segment

---
 dustmaker/dfwriter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 90201b9..2dfbd70 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -109,12 +109,13 @@ def _compute_region_map(level: Level) -> _RegionMap:
         rmap.get_segment(tx, ty).tiles[layer].append((tx & 0xF, ty & 0xF, tile))
 
     for id_num, (x, y, entity) in level.entities.items():
-        rmap.get_segment(int(x / 48), int(y / 48)).entities.append(
+        rmap.get_segment(floor(x / 48), floor(y / 48)).entities.append(
             (id_num, x, y, entity)
         )
 
+    # Prop positions are stored truncated to a whole pixel
     for id_num, (layer, x, y, prop) in level.props.items():
-        rmap.get_segment(int(x / 48), int(y / 48)).props.append(
+        rmap.get_segment(int(x) // 48, int(y) // 48).props.append(
             (id_num, layer, x, y, prop)
         )
 
@@ -127,7 +128,7 @@ def _compute_region_map(level: Level) -> _RegionMap:
         seg.tiles[layer].append((x & 0xF, y & 0xF, tile))
 
     for id_num, (layer, x, y, prop) in level.backdrop.props.items():
-        seg = rmap.get_region(int(x / 48), int(y / 48)).backdrop
+        seg = rmap.get_region(int(x) // 48, int(y) // 48).backdrop
         seg.present = True
         seg.props.append((id_num, layer, x, y, prop))
 
-- 
2.43.0


From 0f3aeba60ab65c71df1ed05ddbb22d7477ad6fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:31 +0000
Subject: [PATCH 07/34] fix: write a prop position that truncates to zero
 without a sign

---
 dustmaker/dfwriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 2dfbd70..300e804 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -335,8 +335,8 @@ class DFWriter(BitIOWriter):
                 y_scale = (scale_lg % 7) ^ 0x4
                 x_int = int(abs(x))
                 y_int = int(abs(y))
-                x_sgn = 1 if x < 0 else 0
-                y_sgn = 1 if y < 0 else 0
+                x_sgn = 1 if x <= -1 else 0
+                y_sgn = 1 if y <= -1 else 0
                 self.write(1, x_sgn)
                 self.write(27, x_int)
                 self.write(4, x_scale)
-- 
2.43.0


From 9b59d9b3352a1cf474f3c950cb48b1108c4f616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:27 +0000
Subject: [PATCH 08/34] fix: raise at the end of the data instead of reading
 zeros or looping

---
 dustmaker/bitio.py    | 5 +++++
 dustmaker/dfreader.py | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 535c3aa..2f59e2a 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -104,6 +104,9 @@ class BitIOReader(BitIO):
             bits (int): The number of bits to read in
             signed (bool): Wether the most significant bit should be interpretted
                 as a sign bit.
+
+        Raises:
+            EOFError: If the stream ends before `bits` bits could be read.
         """
         bytes_needed = (bits - self._bits_left + 7) >> 3
         if self._bits == -1:
@@ -122,6 +125,8 @@ class BitIOReader(BitIO):
 
         # Read in needed data from underlying stream.
         new_bytes = self.data.read(bytes_needed)
+        if len(new_bytes) < bytes_needed:
+            raise EOFError("unexpected end of stream")
 
         if self._bits == -1:
             self._bits = new_bytes[0] >> (8 - self._bits_left)
diff --git a/dustmaker/dfreader.py b/dustmaker/dfreader.py
index 6a754df..ccc56b8 100644
--- a/dustmaker/dfreader.py
+++ b/dustmaker/dfreader.py
@@ -513,7 +513,10 @@ class DFReader(BitIOReader):
             input_data = bytearray()
             decomp = zlib.decompressobj()
             while not decomp.eof:
-                input_data += decomp.decompress(self.read_bytes(1))
+                chunk = self.read_bytes(1)
+                if not chunk:
+                    raise LevelParseException("unexpected end of replay")
+                input_data += decomp.decompress(chunk)
 
         with DFReader(io.BytesIO(input_data)) as sub_reader:
             inputs_len = sub_reader.read(32)  # pylint: disable=unused-variable
-- 
2.43.0


From 3f24502923a19a23120228763f47e46db3699180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:48 +0000
Subject: [PATCH 09/34] fix: never report a maximum id below the documented
 floor

---
 dustmaker/level.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index cfd88d0..a2601ac 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -252,8 +252,7 @@ class Level:
         """
         init = 100 if reset else self._next_id - 1
 
-        # pylint: disable=nested-min-max
-        mx_id = max(max(self.props, default=init), max(self.entities, default=init))
+        mx_id = max((init, *self.props, *self.entities))
 
         if self.backdrop is not None:
             mx_id = max(mx_id, self.backdrop.calculate_max_id())
-- 
2.43.0


From 22a1aacebac9fa03308d15e572816dc1d59a46fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:56 +0000
Subject: [PATCH 10/34] fix: keep merged ids from being handed out again

---
 dustmaker/level.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index a2601ac..f596198 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -274,6 +274,8 @@ class Level:
         self.tiles.update(copy.deepcopy(other_level.tiles))
         self.props.update(copy.deepcopy(other_level.props))
         self.entities.update(copy.deepcopy(other_level.entities))
+        for id_num in (*other_level.props, *other_level.entities):
+            self._note_id(id_num)
         if self.backdrop is not None and other_level.backdrop is not None:
             self.backdrop.merge(other_level.backdrop, remap_ids=False)
 
-- 
2.43.0


From dd8727af222a42c99ca1e3e209d58274b4f5617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:45 +0000
Subject: [PATCH 11/34] fix: remap the string list id of custom score books

---
 dustmaker/entity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 683fdb1..7e50546 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -845,6 +845,11 @@ class CustomScoreBook(Entity):
 
     TYPE_IDENTIFIER = "custom_score_book"
 
+    def remap_ids(self, id_map: Dict[int, int]) -> None:
+        """Remap the string list ID."""
+        super().remap_ids(id_map)
+        self.level_list = id_map.get(self.level_list, 0)
+
     level_list = bind_prop("level_list_id", VariableInt, 0, "ID of StringList entity")
 
 
-- 
2.43.0


From ea9b42ddebf021c714bd4c0ef04e647f1e2aa557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:50 +0000
Subject: [PATCH 12/34] fix: use the vertical offset of the left factor in
 matrix products

---
 dustmaker/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/transform.py b/dustmaker/transform.py
index c2f8891..83f4fa8 100644
--- a/dustmaker/transform.py
+++ b/dustmaker/transform.py
@@ -85,7 +85,7 @@ class TxMatrix(tuple):
                 (
                     ml[1][0] * mr[0][0] + ml[1][1] * mr[1][0],
                     ml[1][0] * mr[0][1] + ml[1][1] * mr[1][1],
-                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[0][2],
+                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[1][2],
                 ),
                 (0, 0, 1),
             )
-- 
2.43.0


From 6210bc213dd6b5e65da1a15681ff1b436e727b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:54 +0000
Subject: [PATCH 13/34] fix: keep transformed tiles in place relative to props
 and entities

---
 dustmaker/level.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index f596198..e91dfec 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -303,7 +303,11 @@ class Level:
         def _transform_tiles():
             for (layer, x, y), tile in self.tiles.items():
                 tile.transform(mat)
-                tx, ty = mat.sample(x * 48, y * 48)
+                # The tile covers the whole square from (x, y) to (x + 1, y + 1), it is
+                # the top-left corner of the transformed square that positions it.
+                corner_a = mat.sample(x * 48, y * 48)
+                corner_b = mat.sample((x + 1) * 48, (y + 1) * 48)
+                tx, ty = map(min, corner_a, corner_b)
 
                 yield (layer, int(round(tx / 48.0)), int(round(ty / 48.0))), tile
 
-- 
2.43.0


From f5d4d4a5f5ebd2e156c8bb3ccd6b69e477c7e604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:03 +0000
Subject: [PATCH 14/34] fix: do not merge tiles when translating by half a tile

---
 dustmaker/level.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index e91dfec..bcf0d87 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -309,7 +309,13 @@ class Level:
                 corner_b = mat.sample((x + 1) * 48, (y + 1) * 48)
                 tx, ty = map(min, corner_a, corner_b)
 
-                yield (layer, int(round(tx / 48.0)), int(round(ty / 48.0))), tile
+                # Do not use round(), it rounds alternate ties in opposite directions
+                # which would put two tiles in the same place.
+                yield (
+                    layer,
+                    math.floor(tx / 48.0 + 0.5),
+                    math.floor(ty / 48.0 + 0.5),
+                ), tile
 
         def _transform_props():
             for id_num, (layer, x, y, prop) in self.props.items():
-- 
2.43.0


From 1f7f47be77b2cb75b6b86a12f93c1b23bc160cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:16 +0000
Subject: [PATCH 15/34] fix: transform backdrop tiles in their own, larger grid

---
 dustmaker/level.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index bcf0d87..53d071e 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -300,21 +300,24 @@ class Level:
             script persist data.
         """
 
+        # Backdrop tiles are 16 times as large as normal tiles.
+        tile_size = 48.0 if self.parent is None else 48.0 * 16
+
         def _transform_tiles():
             for (layer, x, y), tile in self.tiles.items():
                 tile.transform(mat)
                 # The tile covers the whole square from (x, y) to (x + 1, y + 1), it is
                 # the top-left corner of the transformed square that positions it.
-                corner_a = mat.sample(x * 48, y * 48)
-                corner_b = mat.sample((x + 1) * 48, (y + 1) * 48)
+                corner_a = mat.sample(x * tile_size, y * tile_size)
+                corner_b = mat.sample((x + 1) * tile_size, (y + 1) * tile_size)
                 tx, ty = map(min, corner_a, corner_b)
 
                 # Do not use round(), it rounds alternate ties in opposite directions
                 # which would put two tiles in the same place.
                 yield (
                     layer,
-                    math.floor(tx / 48.0 + 0.5),
-                    math.floor(ty / 48.0 + 0.5),
+                    math.floor(tx / tile_size + 0.5),
+                    math.floor(ty / tile_size + 0.5),
                 ), tile
 
         def _transform_props():
-- 
2.43.0


From 144bbd4cd193b50144b3c42f509d68ec842f08f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:50 +0000
Subject: [PATCH 16/34] fix: keep the tile flags when upscaling a tile

---
 dustmaker/tile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustmaker/tile.py b/dustmaker/tile.py
index 13b18f6..5cc94c1 100644
--- a/dustmaker/tile.py
+++ b/dustmaker/tile.py
@@ -350,7 +350,7 @@ class Tile:
         if self.shape == TileShape.FULL:
             for dx in range(factor):
                 for dy in range(factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dx == 0:
@@ -368,7 +368,7 @@ class Tile:
             for dx in range(factor):
                 ddx = dx + (factor if self.shape == TileShape.SMALL_1 else 0)
                 for dy in range(ddx // 2, factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dy == ddx // 2:
@@ -384,7 +384,7 @@ class Tile:
         elif self.shape == TileShape.HALF_A:
             for dx in range(factor):
                 for dy in range(dx, factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dx == dy:
-- 
2.43.0


From 89c141b433795ad5888a799f9a8807edac1489eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:58 +0000
Subject: [PATCH 17/34] fix: enlarge the backdrop tiles when upscaling a level

---
 dustmaker/level.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 53d071e..c3d7971 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -376,11 +376,13 @@ class Level:
                 to :meth:`transform` along with the upscaling.
         """
         self.transform(mat * factor)
-        self.tiles = {
-            (layer, x + dx, y + dy): ntile
-            for (layer, x, y), tile in self.tiles.items()
-            for dx, dy, ntile in tile.upscale(factor)
-        }
+        for level in (self, self.backdrop):
+            if level is not None:
+                level.tiles = {
+                    (layer, x + dx, y + dy): ntile
+                    for (layer, x, y), tile in level.tiles.items()
+                    for dx, dy, ntile in tile.upscale(factor)
+                }
 
     def calculate_edge_visibility(
         self,
-- 
2.43.0


From e3cf2bc3be07f1cac2a0913258d519779e9cd2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:53 +0000
Subject: [PATCH 18/34] fix: round edge join angles down as documented

---
 dustmaker/level.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index c3d7971..9ccab58 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -580,7 +580,8 @@ class Level:
                     if delta_angle > math.pi:
                         delta_angle -= 2 * math.pi
 
-                    angle = -int(round(delta_angle * 180 / math.pi / 2))
+                    # Round down towards zero, ignoring any floating point error
+                    angle = -int(round(delta_angle * 180 / math.pi / 2, 6))
 
                     # Set caps and angles based on joiner
                     caps[dr] = False
-- 
2.43.0


From 44792036df817a371e87f359fafa7caa3d1abf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:12 +0000
Subject: [PATCH 19/34] fix: join edges with the edge leading furthest away as
 documented

---
 dustmaker/level.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 9ccab58..689fbf2 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -544,7 +544,8 @@ class Level:
                     else:  # Slants
                         # No caps allowed on slant half edges
                         continue
-                    if dr:
+                    if not dr:
+                        # Look at the tiles furthest away from our tile first
                         ddirs = ddirs[::-1]
 
                     for dx, dy in ddirs:
-- 
2.43.0


From 885c30a18f266abb2d90e6f7ddc2ca01d764f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:27 +0000
Subject: [PATCH 20/34] fix: use a float as the default of float typed speed
 properties

---
 dustmaker/entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 7e50546..f454a50 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -361,7 +361,7 @@ class AmbienceTrigger(Trigger):
 
     TYPE_IDENTIFIER = "ambience_trigger"
 
-    speed = bind_prop("ambience_speed", VariableFloat, 5)
+    speed = bind_prop("ambience_speed", VariableFloat, 5.0)
     sound_names = bind_prop_arr("sound_ambience_names", VariableString)
     sound_vols = bind_prop_arr("sound_ambience_vol", VariableFloat)
 
@@ -371,7 +371,7 @@ class MusicTrigger(Trigger):
 
     TYPE_IDENTIFIER = "music_trigger"
 
-    speed = bind_prop("music_speed", VariableFloat, 5)
+    speed = bind_prop("music_speed", VariableFloat, 5.0)
     sound_names = bind_prop_arr("sound_music_names", VariableString)
     sound_vols = bind_prop_arr("sound_music_vol", VariableFloat)
 
-- 
2.43.0


From 86110856b07bdd4607eee3e0a0b127627fac1108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:34 +0000
Subject: [PATCH 21/34] fix: accept all documented fog sublayers

---
 dustmaker/entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index f454a50..033559c 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -329,7 +329,7 @@ class FogTrigger(Trigger):
         assert 0 <= layer <= 20
         if sublayer is None:
             return layer
-        assert 0 <= sublayer <= 20
+        assert 0 <= sublayer <= 24
         return (sublayer + 1) * 21 + layer
 
     speed = bind_prop("fog_speed", VariableFloat, 5.0)
-- 
2.43.0


From efb6552e9c0c4384a19c78bd0fec573b46a90ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:42 +0000
Subject: [PATCH 22/34] fix: refuse to store anything but an array in an array
 property

---
 dustmaker/entity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 033559c..d5717b3 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -75,6 +75,8 @@ def bind_prop(
 
     def _set(self, val: T) -> None:
         """set the property"""
+        if objtype and not isinstance(val, prop_type):
+            raise ValueError("unexpected property type")
         self.variables[prop_name] = val if objtype else prop_type(val)
 
     def _del(self) -> None:
-- 
2.43.0


From fe47c828c5a1a16dd852e8d7a730d230f0997a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:25 +0000
Subject: [PATCH 23/34] fix: convert arrays of arrays to JSON variable schemas

---
 dustmaker/cmd/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index 6c35489..eeec975 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -54,6 +54,9 @@ def merge_schema(lhs: Any, rhs: Any) -> Any:
                 result[subkey] = merge_schema(r_subschema, subschema)
         return result
     if isinstance(lhs, list) and isinstance(rhs, list):
+        if not lhs or not rhs:
+            # An empty list is an array schema with a yet unknown element type
+            return lhs or rhs
         return [merge_schema(lhs[0], rhs[0])]
     if not isinstance(lhs, str) or not isinstance(rhs, str):
         raise ValueError("unmergable schemas")
-- 
2.43.0


From e1be62c0f278ef326746489ab3d6495405787ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:46 +0000
Subject: [PATCH 24/34] fix: variables tool can update a level without regions

---
 dustmaker/cmd/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index eeec975..ef9a1c5 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -210,7 +210,7 @@ class Variables(CliUtility):
 
         with DFWriter(open(args.object, "wb")) as writer:
             if header == b"DF_LVL":
-                assert level and region_offsets and region_data
+                assert level is not None and region_data is not None
                 level.variables = variables.value
                 writer.write_level_ex(level, region_offsets, region_data)
             else:
-- 
2.43.0


From 8d221a6a4af86505d360896b97bc41f423535bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:14 +0000
Subject: [PATCH 25/34] fix: a failing variables update leaves the existing
 file intact

---
 dustmaker/cmd/variables.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index ef9a1c5..14c7106 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -3,6 +3,7 @@
 Sample script to manipulate level variables.
 """
 import argparse
+import io
 import json
 import sys
 from typing import Any, Dict, Tuple, Type
@@ -208,7 +209,9 @@ class Variables(CliUtility):
 
         variables = json_to_variables(jdata["schema"], jdata["vars"])
 
-        with DFWriter(open(args.object, "wb")) as writer:
+        # Serialize in memory so that a failure leaves the existing file intact.
+        output = io.BytesIO()
+        with DFWriter(output, noclose=True) as writer:
             if header == b"DF_LVL":
                 assert level is not None and region_data is not None
                 level.variables = variables.value
@@ -216,6 +219,9 @@ class Variables(CliUtility):
             else:
                 writer.write_var_file(header, variables.value)
 
+        with open(args.object, "wb") as fout:
+            fout.write(output.getvalue())
+
         return 0
 
     @staticmethod
-- 
2.43.0


From 4a07148eeb1f5b982067fd30d4fb1c686fec6bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:47 +0000
Subject: [PATCH 26/34] fix: transform tool shifts by the given pixels when
 also upscaling

---
 dustmaker/cmd/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustmaker/cmd/transform.py b/dustmaker/cmd/transform.py
index 96fb739..05d22f8 100755
--- a/dustmaker/cmd/transform.py
+++ b/dustmaker/cmd/transform.py
@@ -81,9 +81,6 @@ class Transform(CliUtility):
         if args.hflip:
             mat = TxMatrix.HFLIP * mat
 
-        # Add in the translations
-        mat = mat.translate(args.translate_x, args.translate_y)
-
         if args.upscale > 1:
             # Need dustmod level type for proper scaling of entities/props
             if level.level_type == LevelType.NORMAL:
@@ -92,6 +89,9 @@ class Transform(CliUtility):
         else:
             level.transform(mat)
 
+        # Shift last, by pixels of the resulting level
+        level.translate(args.translate_x, args.translate_y)
+
         with DFWriter(open(args.output_level, "wb")) as writer:
             writer.write_level(level)
 
-- 
2.43.0


From 4aebdcefd20d86d8be95edd5d8685b65c785b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:30 +0000
Subject: [PATCH 27/34] fix: tiles are hashable

---
 dustmaker/tile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustmaker/tile.py b/dustmaker/tile.py
index 5cc94c1..a42ad58 100644
--- a/dustmaker/tile.py
+++ b/dustmaker/tile.py
@@ -34,7 +34,7 @@ class TileSide(IntEnum):
     RIGHT = 3
 
 
-@dataclass
+@dataclass(unsafe_hash=True)
 class TileEdgeData:
     """Data class for data stored on each tile edge. Many attributes are stored
     as pairs of data to correspond to the two corners of the tile edge. These
@@ -180,7 +180,7 @@ class Tile:
         return (
             self.shape,
             self.tile_flags,
-            self.edge_data,
+            tuple(self.edge_data),
             self.sprite_set,
             self.sprite_tile,
             self.sprite_palette,
-- 
2.43.0


From b7776fa065040da231977ceaf67411a337811be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:39 +0000
Subject: [PATCH 28/34] fix: a failing thumbnail update leaves the level file
 intact

---
 dustmaker/cmd/thumbnail.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dustmaker/cmd/thumbnail.py b/dustmaker/cmd/thumbnail.py
index bdb487d..da2343f 100755
--- a/dustmaker/cmd/thumbnail.py
+++ b/dustmaker/cmd/thumbnail.py
@@ -97,9 +97,15 @@ class Thumbnail(CliUtility):
                 level.sshot = fimg.read()
 
         level.variables["icon_taken"] = VariableBool(True)
-        with DFWriter(open(args.level, "wb")) as writer:
+
+        # Serialize in memory so that a failure leaves the existing file intact.
+        output = io.BytesIO()
+        with DFWriter(output, noclose=True) as writer:
             writer.write_level_ex(level, region_offsets, region_data)
 
+        with open(args.level, "wb") as fout:
+            fout.write(output.getvalue())
+
         return 0
 
 
-- 
2.43.0


From e8a6615e9b8d99c28ca89d3433701d36f39e21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:39 +0000
Subject: [PATCH 29/34] fix: a level that cannot be written leaves the
 transform tool's output intact

---
 dustmaker/cmd/transform.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dustmaker/cmd/transform.py b/dustmaker/cmd/transform.py
index 05d22f8..1f47d94 100755
--- a/dustmaker/cmd/transform.py
+++ b/dustmaker/cmd/transform.py
@@ -5,8 +5,9 @@ Sample script to perform level transforms
 import argparse
 import sys
 
-from dustmaker import DFReader, DFWriter
+from dustmaker import DFReader
 from dustmaker.cmd.common import CliUtility, run_utility
+from dustmaker.dfwriter import write_level
 from dustmaker.level import LevelType
 from dustmaker.transform import TxMatrix
 
@@ -92,8 +93,10 @@ class Transform(CliUtility):
         # Shift last, by pixels of the resulting level
         level.translate(args.translate_x, args.translate_y)
 
-        with DFWriter(open(args.output_level, "wb")) as writer:
-            writer.write_level(level)
+        # Serialize in memory so that a failure leaves an existing file intact.
+        level_data = write_level(level)
+        with open(args.output_level, "wb") as fout:
+            fout.write(level_data)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From ba6f5cbd8ea7874bec50fa1809913978632f39ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:58 +0000
Subject: [PATCH 30/34] fix: calculate_max_id without reset honours the
 documented floor of 100

---
 dustmaker/level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 689fbf2..d50d50c 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -250,7 +250,7 @@ class Level:
                 allocator will be reset based off this result. Otherwise the max
                 ID will be at least one less than the next ID.
         """
-        init = 100 if reset else self._next_id - 1
+        init = 100 if reset else max(100, self._next_id - 1)
 
         mx_id = max((init, *self.props, *self.entities))
 
-- 
2.43.0


From db26cf4060470ace50fb71f4735f4c5c69168f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:39 +0000
Subject: [PATCH 31/34] fix: refuse integers that do not fit their field
 instead of damaging the next one

---
 dustmaker/bitio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 2f59e2a..ce71ace 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -175,9 +175,14 @@ class BitIOWriter(BitIO):
         Note:
             If the last byte is partially completed it will not be written
             until the stream is closed or flushed.
+
+        Raises:
+            ValueError: If `val` does not fit into `bits` bits.
         """
         if val < 0:
             val += 1 << bits
+        if val < 0 or val >> bits:
+            raise ValueError(f"value does not fit into {bits} bits")
 
         if self._bits == -1:
             # Mid seek write will lose data.
-- 
2.43.0


From 0172694969d93154823fe19ffc322c6c5c8b3f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:39 +0000
Subject: [PATCH 32/34] fix: store the largest prop scale correctly and refuse
 scales the format cannot hold

---
 dustmaker/dfwriter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 300e804..0b33e01 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -331,8 +331,11 @@ class DFWriter(BitIOWriter):
                 self.write(8, prop.layer_sub)
 
                 scale_lg = int(round(log(prop.scale) / log(50.0) * 24.0)) + 32
-                x_scale = (scale_lg // 7) ^ 0x4
-                y_scale = (scale_lg % 7) ^ 0x4
+                if not 0 <= scale_lg <= 56:
+                    raise ValueError("prop scale out of range")
+                x_scale = min(scale_lg // 7, 7)
+                y_scale = (scale_lg - 7 * x_scale) ^ 0x4
+                x_scale ^= 0x4
                 x_int = int(abs(x))
                 y_int = int(abs(y))
                 x_sgn = 1 if x <= -1 else 0
-- 
2.43.0


From c7b905be3abe53e4c762d558fc40e3ffd77227f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:08 +0000
Subject: [PATCH 33/34] fix: refuse content outside of the region coordinates
 instead of moving it elsewhere

---
 dustmaker/dfwriter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 0b33e01..dccc9ad 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -407,6 +407,9 @@ class DFWriter(BitIOWriter):
 
     def _write_region(self, x: int, y: int, region: _LevelRegion) -> None:
         """Writes a level region to the output stream"""
+        if not -0x8000 <= min(x, y) <= max(x, y) <= 0x7FFF:
+            raise ValueError("region coordinate out of range")
+
         segments_io = io.BytesIO()
         with DFWriter(segments_io) as segments_writer:
             for coord, segment in sorted(region.segment_map.items()):
-- 
2.43.0


From 64704e904b58a009c29249ba8e96fe823c5c8614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:03 +0000
Subject: [PATCH 34/34] fix: write the first region offset even if the stream
 holds older data

---
 dustmaker/dfwriter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index dccc9ad..65217c0 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -557,6 +557,10 @@ class DFWriter(BitIOWriter):
         rmap = _compute_region_map(level)
         region_dir_index = self.bit_tell()
         region_data_index = (region_dir_index + 32 * len(rmap.region_map) + 7) & ~0x7
+        if rmap.region_map:
+            # The first region always has offset zero. The stream might hold older
+            # data here so this cannot be left to the seek.
+            self.write(32, 0)
         self.bit_seek(region_data_index)
         region_offsets = []
 
-- 
2.43.0

