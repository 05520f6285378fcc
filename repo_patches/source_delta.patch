From 087313ef3585c93362580bd48737c7f9fc4df5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 01/27] fix: read the generating process of templates 4.47 and
 4.83 from the right octet

Type of generating process is 6 octets before the unit of time in the
whole aerosol family (octet 25 in 4.47, octet 26 in 4.83). 4.254 has no
such octet.
---
 src/datatypes/sections.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index 242550d..be8e2fc 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -374,8 +374,7 @@ impl ProdDefinition {
             let index = match self.prod_tmpl_num() {
                 0..=39 => Some(2),
                 40..=43 => Some(4),
-                44..=46 => Some(15),
-                47 => Some(2),
+                44..=47 => Some(15),
                 48..=49 => Some(26),
                 51 => Some(2),
                 // 53 and 54 is variable and not supported as of now
@@ -388,12 +387,10 @@ impl ProdDefinition {
                 70..=73 => Some(7),
                 76..=79 => Some(5),
                 80..=81 => Some(27),
-                82 => Some(16),
-                83 => Some(2),
-                84 => Some(16),
+                82..=84 => Some(16),
                 85 => Some(15),
                 86..=91 => Some(2),
-                254 => Some(2),
+                // 254 has no octet for the generating process
                 1000..=1101 => Some(2),
                 _ => None,
             }?;
-- 
2.43.0


From 55ed24816737f4f10d6325dbd7989bd9c073757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 02/27] fix: read the 2-octet forecast time of template 4.44

The fixed surface that follows is already read from octet 34, so octets
34 and 35 were taken for a part of the forecast time.
---
 src/datatypes/sections.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index be8e2fc..a8e9c81 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -433,8 +433,16 @@ impl ProdDefinition {
             let unit_index = START_OF_PROD_TEMPLATE + unit_index;
             let unit = self.payload.get(unit_index).copied();
             let start = unit_index + 1;
-            let end = unit_index + 5;
-            let time = u32::from_be_bytes(self.payload[start..end].try_into().unwrap());
+            let time = if self.prod_tmpl_num() == 44 {
+                // the only template whose forecast time is 2 octets long
+                let end = unit_index + 3;
+                u32::from(u16::from_be_bytes(
+                    self.payload[start..end].try_into().unwrap(),
+                ))
+            } else {
+                let end = unit_index + 5;
+                u32::from_be_bytes(self.payload[start..end].try_into().unwrap())
+            };
             unit.map(|v| ForecastTime::from_numbers(v, time))
         } else {
             None
-- 
2.43.0


From af9657ac8d5981fcc959a5920473f947649b7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 03/27] fix: scale earth radii by negative powers of ten

---
 src/grid/earth.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/grid/earth.rs b/src/grid/earth.rs
index e526f9b..9ecd1f8 100644
--- a/src/grid/earth.rs
+++ b/src/grid/earth.rs
@@ -1,4 +1,4 @@
-use crate::helpers::read_as;
+use crate::helpers::{read_as, GribInt};
 
 #[derive(Debug, PartialEq, Eq)]
 pub struct EarthShapeDefinition {
@@ -19,7 +19,7 @@ impl EarthShapeDefinition {
                 let radius = f64::from(self.scaled_value_of_radius_of_spherical_earth)
                     * f64::powf(
                         10.,
-                        f64::from(self.scale_factor_of_radius_of_spherical_earth),
+                        -f64::from(self.scale_factor_of_radius_of_spherical_earth.as_grib_int()),
                     );
                 (radius, radius)
             }
@@ -40,9 +40,15 @@ impl EarthShapeDefinition {
 
     fn radii_defined(&self) -> (f64, f64) {
         let major = f64::from(self.scaled_value_of_earth_major_axis)
-            * f64::powf(10., f64::from(self.scale_factor_of_earth_major_axis));
+            * f64::powf(
+                10.,
+                -f64::from(self.scale_factor_of_earth_major_axis.as_grib_int()),
+            );
         let minor = f64::from(self.scaled_value_of_earth_minor_axis)
-            * f64::powf(10., f64::from(self.scale_factor_of_earth_minor_axis));
+            * f64::powf(
+                10.,
+                -f64::from(self.scale_factor_of_earth_minor_axis.as_grib_int()),
+            );
         (major, minor)
     }
 
-- 
2.43.0


From e3df1c0e6275638b755cfe46e775741467416902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 04/27] fix: read the decimal scale factor of template 5.200 as
 a sign-magnitude integer

---
 src/decoder/run_length.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index 33888c1..85739f2 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -1,7 +1,7 @@
 use crate::{
     decoder::{stream::NBitwiseIterator, DecodeError, Grib2SubmessageDecoder},
     error::*,
-    helpers::read_as,
+    helpers::{read_as, GribInt},
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -19,7 +19,7 @@ pub(crate) fn decode(
     let nbit = read_as!(u8, sect5_data, 6);
     let maxv = read_as!(u16, sect5_data, 7);
     let max_level = read_as!(u16, sect5_data, 9);
-    let num_digits = read_as!(u8, sect5_data, 11);
+    let num_digits = read_as!(u8, sect5_data, 11).as_grib_int();
 
     let mut level_map = Vec::with_capacity(max_level.into());
     level_map.push(f32::NAN);
-- 
2.43.0


From e1e0536a7a3897fc8435a7de1a236510c8d7c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:40 +0000
Subject: [PATCH 05/27] fix: count the points of a bit map beyond the first
 eight

---
 src/decoder/bitmap.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decoder/bitmap.rs b/src/decoder/bitmap.rs
index 23eeff5..cd7dd59 100644
--- a/src/decoder/bitmap.rs
+++ b/src/decoder/bitmap.rs
@@ -39,15 +39,15 @@ where
         if offset >= self.len {
             return None;
         }
-        let byte = if self.offset < 7 {
-            self.offset += 1;
+        self.offset += 1;
+        let bit_offset = offset % 8;
+        let byte = if bit_offset < 7 {
             self.bitmap.peek()?
         } else {
-            self.offset = 0;
             self.bitmap.next()?
         };
 
-        if has_zero_at_offset(byte, &offset) {
+        if has_zero_at_offset(byte, &bit_offset) {
             Some(f32::NAN)
         } else {
             self.values.next()
-- 
2.43.0


From 5f652531b73c7a11520586a20ba5b2f4d92c7112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 06/27] fix: yield no grid indices when rows or columns are
 empty

---
 src/grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grid.rs b/src/grid.rs
index c77eea0..1adc545 100644
--- a/src/grid.rs
+++ b/src/grid.rs
@@ -78,7 +78,7 @@ impl Iterator for GridPointIndexIterator {
     type Item = (usize, usize);
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.major_pos == self.major_len {
+        if self.major_pos == self.major_len || self.minor_len == 0 {
             return None;
         }
 
-- 
2.43.0


From ac9787ea4859d7a3e3a6cac6c9fa6c48799388e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:45 +0000
Subject: [PATCH 07/27] fix: compute coordinates of grids with a single or no
 row or column

---
 src/grid/gaussian.rs |  9 ++++++---
 src/grid/helpers.rs  | 17 +++++++++++++----
 src/grid/latlon.rs   | 11 +++++++----
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index 9a439d6..cc30172 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -74,7 +74,7 @@ impl GaussianGridDefinition {
         let lon = evenly_spaced_longitudes(
             self.first_point_lon,
             self.last_point_lon,
-            (self.ni - 1) as usize,
+            self.ni.saturating_sub(1) as usize,
             self.scanning_mode,
         );
 
@@ -83,8 +83,11 @@ impl GaussianGridDefinition {
     }
 
     pub(crate) fn is_consistent_for_j(&self) -> bool {
-        let lat_diff = self.last_point_lat - self.first_point_lat;
-        !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
+        let (first, last) = (self.first_point_lat, self.last_point_lat);
+        if self.nj <= 1 && first == last {
+            return true;
+        }
+        !((last > first) ^ self.scanning_mode.scans_positively_for_j())
     }
 
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
diff --git a/src/grid/helpers.rs b/src/grid/helpers.rs
index 1ec1d55..dad2638 100644
--- a/src/grid/helpers.rs
+++ b/src/grid/helpers.rs
@@ -11,13 +11,18 @@ pub(crate) fn evenly_spaced_longitudes(
     div: usize,
     scanning_mode: ScanningMode,
 ) -> Vec<f32> {
-    let diff = end_microdegree - start_microdegree;
-    let is_consistent = !((diff > 0) ^ scanning_mode.scans_positively_for_i());
+    let is_positive = scanning_mode.scans_positively_for_i();
+    let is_consistent = div == 0
+        || if is_positive {
+            start_microdegree < end_microdegree
+        } else {
+            start_microdegree > end_microdegree
+        };
 
     let (start, end) = (start_microdegree as f32, end_microdegree as f32);
     let (start, end) = if is_consistent {
         (start, end)
-    } else if start_microdegree > end_microdegree {
+    } else if is_positive {
         (start, end + 360_000_000_f32)
     } else {
         (start + 360_000_000_f32, end)
@@ -39,7 +44,11 @@ pub(crate) fn evenly_spaced_degrees(
     end_microdegree: f32,
     div: usize,
 ) -> Vec<f32> {
-    let delta = (end_microdegree - start_microdegree) / div as f32;
+    let delta = if div == 0 {
+        0.0
+    } else {
+        (end_microdegree - start_microdegree) / div as f32
+    };
     (0..=div)
         .map(move |x| (start_microdegree + x as f32 * delta) / 1_000_000_f32)
         .collect()
diff --git a/src/grid/latlon.rs b/src/grid/latlon.rs
index ca60a1e..9915a8b 100644
--- a/src/grid/latlon.rs
+++ b/src/grid/latlon.rs
@@ -122,12 +122,12 @@ impl LatLonGridDefinition {
         let lat = evenly_spaced_degrees(
             self.first_point_lat as f32,
             self.last_point_lat as f32,
-            (self.nj - 1) as usize,
+            self.nj.saturating_sub(1) as usize,
         );
         let lon = evenly_spaced_longitudes(
             self.first_point_lon,
             self.last_point_lon,
-            (self.ni - 1) as usize,
+            self.ni.saturating_sub(1) as usize,
             self.scanning_mode,
         );
 
@@ -136,8 +136,11 @@ impl LatLonGridDefinition {
     }
 
     pub(crate) fn is_consistent_for_j(&self) -> bool {
-        let lat_diff = self.last_point_lat - self.first_point_lat;
-        !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
+        let (first, last) = (self.first_point_lat, self.last_point_lat);
+        if self.nj <= 1 && first == last {
+            return true;
+        }
+        !((last > first) ^ self.scanning_mode.scans_positively_for_j())
     }
 
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
-- 
2.43.0


From cd8842dc65daf65668e0f9e540e29ff2d2fee3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:32 +0000
Subject: [PATCH 08/27] fix: let SubmessageIterator::nth advance from the
 current position

---
 src/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index de57476..801bdc5 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -327,12 +327,12 @@ impl<'a, R> Iterator for SubmessageIterator<'a, R> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.context.submessages.len() - self.pos;
+        let size = self.context.submessages.len().saturating_sub(self.pos);
         (size, Some(size))
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.pos = n;
+        self.pos = self.pos.saturating_add(n);
         self.next()
     }
 }
-- 
2.43.0


From 1bd652038a3f8909f36e20de438bfbcb83537d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:43 +0000
Subject: [PATCH 09/27] fix: borrow the reader only while decoding, so that
 several submessages can be held

---
 src/context.rs | 6 +++---
 src/decoder.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 801bdc5..d0428e2 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,5 +1,5 @@
 use std::{
-    cell::{RefCell, RefMut},
+    cell::RefCell,
     collections::HashSet,
     fmt::{self, Display, Formatter},
     io::{Cursor, Read, Seek},
@@ -321,7 +321,7 @@ impl<'a, R> Iterator for SubmessageIterator<'a, R> {
                 self.new_submessage_section(submessage_index.6)?,
                 self.new_submessage_section(submessage_index.7)?,
                 self.new_submessage_section(submessage_index.8)?,
-                self.context.reader.borrow_mut(),
+                &self.context.reader,
             ),
         ))
     }
@@ -359,7 +359,7 @@ pub struct SubMessage<'a, R>(
     pub SubMessageSection<'a>,
     pub SubMessageSection<'a>,
     pub SubMessageSection<'a>,
-    pub(crate) RefMut<'a, R>,
+    pub(crate) &'a RefCell<R>,
 );
 
 impl<R> SubMessage<'_, R> {
diff --git a/src/decoder.rs b/src/decoder.rs
index 5ece124..e650bf5 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -76,7 +76,7 @@ impl Grib2SubmessageDecoder {
 
     /// Sets up a decoder for grid point values of `submessage`.
     pub fn from<R: Grib2Read>(submessage: SubMessage<R>) -> Result<Self, GribError> {
-        let mut reader = submessage.9;
+        let mut reader = submessage.9.borrow_mut();
         let sect5 = submessage.5.body;
         let sect6 = submessage.6.body;
         let sect7 = submessage.7.body;
-- 
2.43.0


From 2f4314498f17d3f2a2346d7a1916cc801ecd0bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:49 +0000
Subject: [PATCH 10/27] fix: ignore descending code ranges instead of
 underflowing

---
 gen/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gen/src/lib.rs b/gen/src/lib.rs
index a42eb0b..eaf257f 100644
--- a/gen/src/lib.rs
+++ b/gen/src/lib.rs
@@ -51,6 +51,9 @@ impl FromStr for CodeRange {
 
         let pos = read_hyphen(input, pos)?;
         let (end, _pos) = read_number(input, pos)?;
+        if end < start {
+            return Err(CodeRangeParseError::DescendingRange);
+        }
 
         Ok(CodeRange { start, end })
     }
@@ -59,6 +62,7 @@ impl FromStr for CodeRange {
 pub enum CodeRangeParseError {
     NumberNotFound,
     HyphenNotFound,
+    DescendingRange,
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
-- 
2.43.0


From 4722ef01f050e7eace508dc778f5ef81627fb9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:51 +0000
Subject: [PATCH 11/27] fix: keep code table rows whose subtitle reappears
 later in the file

---
 gen/src/grib2_codeflag_csv.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/gen/src/grib2_codeflag_csv.rs b/gen/src/grib2_codeflag_csv.rs
index 7baecf4..c809b40 100644
--- a/gen/src/grib2_codeflag_csv.rs
+++ b/gen/src/grib2_codeflag_csv.rs
@@ -78,15 +78,16 @@ impl CodeDB {
             let record: Record = record?;
             let category = record.subtitle.parse::<OptArg>()?;
 
-            let current = out_tables.last();
-            if current.is_none() || category != current.unwrap().0 {
-                let new_codetable = CodeTable::new(record.title);
-                out_tables.push((category, new_codetable));
-            }
+            let index = match out_tables.iter().position(|(c, _)| *c == category) {
+                Some(index) => index,
+                None => {
+                    let new_codetable = CodeTable::new(record.title);
+                    out_tables.push((category, new_codetable));
+                    out_tables.len() - 1
+                }
+            };
 
-            out_tables
-                .last_mut()
-                .unwrap()
+            out_tables[index]
                 .1
                 .data
                 .push((record.code_flag, record.description));
-- 
2.43.0


From 6d583fd0feecf07797a60e085d6e3f655264663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 12/27] fix: keep the variant of a parameter code whose line is
 repeated

A line repeating both the name and the code of an earlier one was taken
for an alias of itself: the code was mapped to itself and its variant
left out, while the generated conversion still referred to it.
---
 codegen/src/param_codes.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/codegen/src/param_codes.rs b/codegen/src/param_codes.rs
index ae6ccbb..87480b8 100644
--- a/codegen/src/param_codes.rs
+++ b/codegen/src/param_codes.rs
@@ -1,6 +1,6 @@
 use std::{
     borrow::Cow,
-    collections::{hash_map::Entry, HashMap},
+    collections::{hash_map::Entry, HashMap, HashSet},
     fmt,
     str::FromStr,
 };
@@ -37,7 +37,10 @@ impl Wgrib2Table {
             let value = code.id();
             match table.entry(key.to_string()) {
                 Entry::Occupied(first_value) => {
-                    remapper.insert(value, *first_value.get());
+                    // a line repeating a code must not make the code an alias of itself
+                    if *first_value.get() != value {
+                        remapper.insert(value, *first_value.get());
+                    }
                 }
                 Entry::Vacant(entry) => {
                     entry.insert(value);
@@ -59,10 +62,10 @@ impl Wgrib2Table {
             }
         }
 
-        let entries = self
-            .codes
-            .iter()
-            .filter(|entry| !self.remapper.contains_key(&entry.id()));
+        let mut defined = HashSet::new();
+        let entries = self.codes.iter().filter(|entry| {
+            !self.remapper.contains_key(&entry.id()) && defined.insert(entry.id())
+        });
         let variant_idents =
             entries.map(|ent| ent.enum_variant(merger.get(&ent.id()).unwrap_or(&vec![])));
         let mapper = self.codes.iter().map(|entry| {
-- 
2.43.0


From 16ec5bb1055e28b8a743696d69729c86b3f274d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 13/27] fix: do not take a short read for the end of data

Read::read may return fewer bytes than asked for at any time. Section 0,
section headers and Section 8 are now read until the buffer is full or no
more data are available.
---
 src/reader.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1f63572..30a60d8 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -196,6 +196,21 @@ impl<R> SeekableGrib2Reader<R> {
     }
 }
 
+impl<R: Read> SeekableGrib2Reader<R> {
+    /// Fills the buffer, stopping only at the end of data. Returns the number
+    /// of bytes read.
+    fn read_as_much_as_possible(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let mut size = 0;
+        while size < buf.len() {
+            match self.read(&mut buf[size..])? {
+                0 => break,
+                n => size += n,
+            }
+        }
+        Ok(size)
+    }
+}
+
 impl<R: Read> Read for SeekableGrib2Reader<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         self.reader.read(buf)
@@ -233,7 +248,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
         let mut offset = 0;
 
         loop {
-            let size = self.read(&mut buf[..])?;
+            let size = self.read_as_much_as_possible(&mut buf[..])?;
             if size < SECT0_IS_SIZE {
                 return Ok(None);
             }
@@ -256,7 +271,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect8(&mut self) -> Result<Option<()>, ParseError> {
         let mut buf = [0; SECT8_ES_SIZE];
-        let size = self.read(&mut buf[..])?;
+        let size = self.read_as_much_as_possible(&mut buf[..])?;
         check_size!(size, buf.len());
 
         if buf[..] != SECT8_ES_MAGIC[..] {
@@ -268,7 +283,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect_header(&mut self) -> Result<Option<SectHeader>, ParseError> {
         let mut buf = [0; SECT_HEADER_SIZE];
-        let size = self.read(&mut buf[..])?;
+        let size = self.read_as_much_as_possible(&mut buf[..])?;
         check_size!(size, buf.len());
 
         let sect_size = read_as!(u32, buf, 0) as usize;
-- 
2.43.0


From 6f39bcfcbb6d8e0819bf651c3479ddc8ec2f872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:16 +0000
Subject: [PATCH 14/27] fix: report impossible message and section sizes as
 errors

A total length below 16 octets or too big for an offset, a section
shorter than its header or longer than the rest of its message, and a
Section 6 without Octet 6 made size computations underflow or overflow: a
panic, or in release builds wrapped offsets.
---
 src/reader.rs | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 30a60d8..36a531e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -90,19 +90,24 @@ where
             .reader
             .read_sect0()
             .transpose()?
-            .map(|(offset, indicator)| {
-                self.whole_size += offset;
-                let offset = self.whole_size;
+            .and_then(|(offset, indicator)| {
+                let offset = self.whole_size + offset;
                 let message_size = indicator.total_length as usize;
-                self.whole_size += message_size;
+                let rest_size = message_size
+                    .checked_sub(SECT0_IS_SIZE)
+                    .ok_or_else(new_invalid_size_err)?;
+                let whole_size = offset
+                    .checked_add(message_size)
+                    .ok_or_else(new_invalid_size_err)?;
+                self.rest_size = rest_size;
+                self.whole_size = whole_size;
                 let sect_info = SectionInfo {
                     num: 0,
                     offset,
                     size: SECT0_IS_SIZE,
                     body: Some(SectionBody::Section0(indicator)),
                 };
-                self.rest_size = message_size - SECT0_IS_SIZE;
-                sect_info
+                Ok(sect_info)
             });
         Some(result)
     }
@@ -138,7 +143,10 @@ where
                     Ok(body) => {
                         let body = Some(body);
                         let (size, num) = header;
-                        self.rest_size -= size;
+                        self.rest_size = match self.rest_size.checked_sub(size) {
+                            Some(rest_size) => rest_size,
+                            None => return Some(Err(new_invalid_size_err())),
+                        };
                         Some(Ok(SectionInfo {
                             num,
                             offset,
@@ -294,7 +302,9 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect_payload(&mut self, header: &SectHeader) -> Result<SectionBody, ParseError> {
         let (size, num) = header;
-        let body_size = size - SECT_HEADER_SIZE;
+        let body_size = size
+            .checked_sub(SECT_HEADER_SIZE)
+            .ok_or_else(new_invalid_size_err)?;
         let body = match num {
             1 => SectionBody::Section1(Identification::from_payload(
                 self.read_slice_without_offset_check(body_size)?,
@@ -323,7 +333,10 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
         let body_offset = sect.offset + SECT_HEADER_SIZE;
         self.seek(SeekFrom::Start(body_offset as u64))?;
 
-        let body_size = sect.size - SECT_HEADER_SIZE;
+        let body_size = sect
+            .size
+            .checked_sub(SECT_HEADER_SIZE)
+            .ok_or_else(new_invalid_size_err)?;
         let mut buf = vec![0; body_size];
         self.read_exact(buf.as_mut_slice())?;
 
@@ -334,7 +347,9 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
         let mut buf = [0; 1]; // octet 6
         self.read_exact(&mut buf[..])?;
 
-        let len_extra = body_size - buf.len();
+        let len_extra = body_size
+            .checked_sub(buf.len())
+            .ok_or_else(new_invalid_size_err)?;
         if len_extra > 0 {
             let mut buf = vec![0; len_extra];
             self.read_exact(&mut buf[..])?;
@@ -360,6 +375,10 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
 type SectHeader = (usize, u8);
 
+fn new_invalid_size_err() -> ParseError {
+    ParseError::ReadError("invalid message or section size".to_owned())
+}
+
 #[cfg(test)]
 mod tests {
     use std::io::{Cursor, Write};
-- 
2.43.0


From d8eab2def24b2c3bb2d5e5c1787e4a2f6721a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:01 +0000
Subject: [PATCH 15/27] fix: report failures to write buffered output data

---
 cli/src/commands/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/commands/decode.rs b/cli/src/commands/decode.rs
index 5050629..2e743c9 100644
--- a/cli/src/commands/decode.rs
+++ b/cli/src/commands/decode.rs
@@ -37,7 +37,8 @@ fn write_output(
 ) -> Result<()> {
     File::create(out_path).and_then(|f| {
         let mut stream = BufWriter::new(f);
-        values.try_for_each(|f| stream.write_all(&to_bytes(&f)))
+        values.try_for_each(|f| stream.write_all(&to_bytes(&f)))?;
+        stream.flush()
     })?;
     Ok(())
 }
-- 
2.43.0


From 77968ff4b116e7ca8bd896f3410291df189ce376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:01 +0000
Subject: [PATCH 16/27] fix: report submessage indices that are too large as
 errors

---
 cli/src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/cli.rs b/cli/src/cli.rs
index 74c0517..aac21d9 100644
--- a/cli/src/cli.rs
+++ b/cli/src/cli.rs
@@ -80,9 +80,9 @@ impl std::str::FromStr for CliMessageIndex {
             )
         })?;
         let message_index = cap.get(1).unwrap();
-        let message_index = usize::from_str(message_index.as_str()).unwrap();
+        let message_index = usize::from_str(message_index.as_str())?;
         let submessage_index = cap.get(2).unwrap();
-        let submessage_index = usize::from_str(submessage_index.as_str()).unwrap();
+        let submessage_index = usize::from_str(submessage_index.as_str())?;
         let inner = (message_index, submessage_index);
         Ok(Self(inner))
     }
-- 
2.43.0


From 997978c110cf164f2a2e4c11a49daebd0271980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:19 +0000
Subject: [PATCH 17/27] fix: refuse grid definitions shorter than their
 template

---
 src/datatypes/sections.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index a8e9c81..8b893dc 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -275,19 +275,19 @@ impl TryFrom<&GridDefinition> for GridDefinitionTemplateValues {
                     )));
                 }
                 Ok(GridDefinitionTemplateValues::Template0(
-                    LatLonGridDefinition::from_buf(&buf[25..]),
+                    LatLonGridDefinition::from_buf(template_octets(buf, 25, 42)?),
                 ))
             }
             20 => {
                 let buf = &value.payload;
                 Ok(GridDefinitionTemplateValues::Template20(
-                    PolarStereographicGridDefinition::from_buf(&buf[9..]),
+                    PolarStereographicGridDefinition::from_buf(template_octets(buf, 9, 51)?),
                 ))
             }
             30 => {
                 let buf = &value.payload;
                 Ok(GridDefinitionTemplateValues::Template30(
-                    LambertGridDefinition::from_buf(&buf[9..]),
+                    LambertGridDefinition::from_buf(template_octets(buf, 9, 59)?),
                 ))
             }
             40 => {
@@ -298,7 +298,7 @@ impl TryFrom<&GridDefinition> for GridDefinitionTemplateValues {
                     )));
                 }
                 Ok(GridDefinitionTemplateValues::Template40(
-                    GaussianGridDefinition::from_buf(&buf[25..]),
+                    GaussianGridDefinition::from_buf(template_octets(buf, 25, 42)?),
                 ))
             }
             _ => Err(GribError::NotSupported(format!("template {num}"))),
@@ -306,6 +306,20 @@ impl TryFrom<&GridDefinition> for GridDefinitionTemplateValues {
     }
 }
 
+/// Returns the octets from `start`, or an error if there are fewer than `size`.
+fn template_octets(payload: &[u8], start: usize, size: usize) -> Result<&[u8], GribError> {
+    payload
+        .get(start..)
+        .filter(|buf| buf.len() >= size)
+        .ok_or_else(|| {
+            GribError::InvalidValueError(format!(
+                "grid definition is too short: {} < {}",
+                payload.len(),
+                start + size
+            ))
+        })
+}
+
 const START_OF_PROD_TEMPLATE: usize = 4;
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
-- 
2.43.0


From fb0b01d94916da460191cae3d05de22d47e01ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:19 +0000
Subject: [PATCH 18/27] fix: report no forecast time or surface when a product
 definition is too short

---
 src/datatypes/sections.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index 8b893dc..f379d2c 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -451,11 +451,11 @@ impl ProdDefinition {
                 // the only template whose forecast time is 2 octets long
                 let end = unit_index + 3;
                 u32::from(u16::from_be_bytes(
-                    self.payload[start..end].try_into().unwrap(),
+                    self.payload.get(start..end)?.try_into().unwrap(),
                 ))
             } else {
                 let end = unit_index + 5;
-                u32::from_be_bytes(self.payload[start..end].try_into().unwrap())
+                u32::from_be_bytes(self.payload.get(start..end)?.try_into().unwrap())
             };
             unit.map(|v| ForecastTime::from_numbers(v, time))
         } else {
@@ -507,7 +507,7 @@ impl ProdDefinition {
         let start = index + 2;
         let end = index + 6;
         let scaled_value =
-            u32::from_be_bytes(self.payload[start..end].try_into().unwrap()).as_grib_int();
+            u32::from_be_bytes(self.payload.get(start..end)?.try_into().unwrap()).as_grib_int();
         surface_type
             .zip(scale_factor)
             .map(|(stype, factor)| FixedSurface::new(stype, factor, scaled_value))
-- 
2.43.0


From f2b3ff0e46882cb4103962e23860650e34006468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:53 +0000
Subject: [PATCH 19/27] fix: compute Gaussian latitudes of large grids without
 integer overflow

---
 src/grid/gaussian.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index cc30172..f58e103 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -158,7 +158,8 @@ pub fn compute_gaussian_latitudes(div: usize) -> impl Iterator<Item = Option<f64
 //   Gauss-Legendre quadrature, Journal of Computational and Applied Mathematics,
 //   Volume 59, Issue 2, 1995, Pages 245-252, ISSN 0377-0427, https://doi.org/10.1016/0377-0427(94)00030-5.
 fn legendre_roots_iterator(n: usize) -> impl Iterator<Item = Option<f64>> {
-    let coeff = 1.0_f64 - 1.0 / (8 * n * n) as f64 + 1.0 / (8 * n * n * n) as f64;
+    let n_f64 = n as f64;
+    let coeff = 1.0_f64 - 1.0 / (8.0 * n_f64.powi(2)) + 1.0 / (8.0 * n_f64.powi(3));
     (0..n).map(move |i| {
         let guess = coeff * ((4 * i + 3) as f64 * std::f64::consts::PI / (4 * n + 2) as f64).cos();
         find_root(guess, |x| {
-- 
2.43.0


From a5b3cfa1cda30a9ce6582844b3cce211c2fddeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:56 +0000
Subject: [PATCH 20/27] fix: list submessages that represent more points than
 their grid has

---
 cli/src/commands/list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/commands/list.rs b/cli/src/commands/list.rs
index 885d54d..61923b2 100644
--- a/cli/src/commands/list.rs
+++ b/cli/src/commands/list.rs
@@ -123,7 +123,7 @@ impl<R> Display for ListView<'_, R> {
                         forecast_time,
                         surfaces.0,
                         surfaces.1,
-                        num_grid_points - num_points_represented,
+                        num_grid_points.saturating_sub(num_points_represented),
                         num_grid_points,
                         grid_type,
                     )?;
-- 
2.43.0


From bb89fddd679c408706489dc72f09f5c8d54492cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:58 +0000
Subject: [PATCH 21/27] fix: refuse data representation sections shorter than
 their template

---
 src/decoder.rs            | 8 ++++++++
 src/decoder/complex.rs    | 4 ++--
 src/decoder/jpeg2000.rs   | 2 +-
 src/decoder/png.rs        | 2 +-
 src/decoder/run_length.rs | 4 +++-
 src/decoder/simple.rs     | 2 +-
 6 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index e650bf5..bd997e6 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -120,6 +120,14 @@ impl Grib2SubmessageDecoder {
         ))
     }
 
+    /// Returns the payload of Section 5 if it has at least `size` octets.
+    pub(crate) fn sect5_payload_of(&self, size: usize) -> Result<&[u8], GribError> {
+        if self.sect5_payload.len() < size {
+            return Err(GribError::DecodeError(DecodeError::LengthMismatch));
+        }
+        Ok(&self.sect5_payload)
+    }
+
     /// Dispatches a decoding process and gets an iterator of decoded values.
     pub fn dispatch(
         &self,
diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 34d09eb..0928fb2 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -33,7 +33,7 @@ pub(crate) fn decode_7_2(
     SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i32>> + '_>,
     GribError,
 > {
-    let sect5_data = &target.sect5_payload;
+    let sect5_data = target.sect5_payload_of(42)?;
     let simple_param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
     let complex_param = ComplexPackingParam::from_buf(&sect5_data[16..42]);
 
@@ -59,7 +59,7 @@ pub(crate) fn decode_7_3(
     SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i32>> + '_>,
     GribError,
 > {
-    let sect5_data = &target.sect5_payload;
+    let sect5_data = target.sect5_payload_of(44)?;
     let simple_param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
     let complex_param = ComplexPackingParam::from_buf(&sect5_data[16..42]);
     let spdiff_order = read_as!(u8, sect5_data, 42);
diff --git a/src/decoder/jpeg2000.rs b/src/decoder/jpeg2000.rs
index e6c1cf6..2e4e01e 100644
--- a/src/decoder/jpeg2000.rs
+++ b/src/decoder/jpeg2000.rs
@@ -23,7 +23,7 @@ pub enum Jpeg2000CodeStreamDecodeError {
 pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<SimplePackingDecodeIteratorWrapper<impl Iterator<Item = i32>>, GribError> {
-    let sect5_data = &target.sect5_payload;
+    let sect5_data = target.sect5_payload_of(16)?;
     let simple_param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
 
     if simple_param.nbit == 0 {
diff --git a/src/decoder/png.rs b/src/decoder/png.rs
index 3ed7a36..68861a1 100644
--- a/src/decoder/png.rs
+++ b/src/decoder/png.rs
@@ -16,7 +16,7 @@ pub enum PngDecodeError {
 pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<SimplePackingDecodeIteratorWrapper<impl Iterator<Item = u32> + '_>, GribError> {
-    let sect5_data = &target.sect5_payload;
+    let sect5_data = target.sect5_payload_of(16)?;
     let param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
 
     let buf = read_image_buffer(&target.sect7_payload).map_err(|e| {
diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index 85739f2..ac6acc0 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -15,12 +15,14 @@ pub enum RunLengthEncodingDecodeError {
 pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<std::vec::IntoIter<f32>, GribError> {
-    let sect5_data = &target.sect5_payload;
+    let sect5_data = target.sect5_payload_of(12)?;
     let nbit = read_as!(u8, sect5_data, 6);
     let maxv = read_as!(u16, sect5_data, 7);
     let max_level = read_as!(u16, sect5_data, 9);
     let num_digits = read_as!(u8, sect5_data, 11).as_grib_int();
 
+    let sect5_data = target.sect5_payload_of(12 + 2 * usize::from(max_level))?;
+
     let mut level_map = Vec::with_capacity(max_level.into());
     level_map.push(f32::NAN);
     let mut pos = 12;
diff --git a/src/decoder/simple.rs b/src/decoder/simple.rs
index b7aeecc..e9d16b5 100644
--- a/src/decoder/simple.rs
+++ b/src/decoder/simple.rs
@@ -48,7 +48,7 @@ pub enum SimplePackingDecodeError {
 pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<SimplePackingDecodeIteratorWrapper<impl Iterator<Item = u32> + '_>, GribError> {
-    let sect5_data = &target.sect5_payload;
+    let sect5_data = target.sect5_payload_of(16)?;
     let param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
 
     let decoder = if param.nbit == 0 {
-- 
2.43.0


From d26894b04b9d94d5eb29cacc1c1f255409c53a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:58 +0000
Subject: [PATCH 22/27] fix: refuse complex packing data shorter than the group
 descriptions

---
 src/decoder/complex.rs      | 37 +++++++++++++++++++++++--------------
 src/decoder/complex/diff.rs |  8 +++++++-
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 0928fb2..7d0f734 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -47,7 +47,7 @@ pub(crate) fn decode_7_2(
 
     let sect7_data = &target.sect7_payload;
 
-    let unpacked_data = decode_complex_packing(complex_param, sect7_data, 0, simple_param.nbit, 0);
+    let unpacked_data = decode_complex_packing(complex_param, sect7_data, 0, simple_param.nbit, 0)?;
     let decoder = SimplePackingDecodeIterator::new(unpacked_data, &simple_param);
     let decoder = SimplePackingDecodeIteratorWrapper::SimplePacking(decoder);
     Ok(decoder)
@@ -91,7 +91,7 @@ pub(crate) fn decode_7_3(
         sect7_params.len(),
         simple_param.nbit,
         sect7_params.minimum(),
-    );
+    )?;
     let first_values = sect7_params.first_values();
     let first_values = first_values.collect::<Vec<_>>().into_iter();
     let spdiff_unpacked = match spdiff_order {
@@ -114,11 +114,19 @@ fn decode_complex_packing(
     sect7_offset: usize,
     nbit: u8,
     z_min: i32,
-) -> impl Iterator<Item = DecodedValue<i32>> + '_ {
+) -> Result<impl Iterator<Item = DecodedValue<i32>> + '_, GribError> {
     fn get_octet_length(nbit: u8, ngroup: u32) -> usize {
-        let total_bit: u32 = ngroup * u32::from(nbit);
-        let total_octet = (total_bit + 0b111) >> 3;
-        total_octet as usize
+        let total_bit = ngroup as usize * usize::from(nbit);
+        (total_bit + 0b111) >> 3
+    }
+
+    fn get_octets(
+        data: &[u8],
+        range: impl std::slice::SliceIndex<[u8], Output = [u8]>,
+    ) -> Result<&[u8], GribError> {
+        data.get(range).ok_or(GribError::DecodeError(
+            DecodeError::ComplexPackingDecodeError(ComplexPackingDecodeError::LengthMismatch),
+        ))
     }
 
     let params_end_octet = sect7_offset;
@@ -129,14 +137,14 @@ fn decode_complex_packing(
         + get_octet_length(complex_param.group_len_nbit, complex_param.ngroup);
 
     let group_refs_iter = BitStream::new(
-        &sect7_data[params_end_octet..group_refs_end_octet],
+        get_octets(sect7_data, params_end_octet..group_refs_end_octet)?,
         usize::from(nbit),
         complex_param.ngroup as usize,
     );
     let group_refs_iter = group_refs_iter.take(complex_param.ngroup as usize);
 
     let group_widths_iter = BitStream::new(
-        &sect7_data[group_refs_end_octet..group_widths_end_octet],
+        get_octets(sect7_data, group_refs_end_octet..group_widths_end_octet)?,
         usize::from(complex_param.group_width_nbit),
         complex_param.ngroup as usize,
     );
@@ -145,25 +153,26 @@ fn decode_complex_packing(
         .map(move |v| u32::from(complex_param.group_width_ref) + v);
 
     let group_lens_iter = BitStream::new(
-        &sect7_data[group_widths_end_octet..group_lens_end_octet],
+        get_octets(sect7_data, group_widths_end_octet..group_lens_end_octet)?,
         usize::from(complex_param.group_len_nbit),
-        (complex_param.ngroup - 1) as usize,
+        complex_param.ngroup.saturating_sub(1) as usize,
     );
     let group_lens_iter = group_lens_iter
-        .take((complex_param.ngroup - 1) as usize)
+        .take(complex_param.ngroup.saturating_sub(1) as usize)
         .map(move |v| complex_param.group_len_ref + u32::from(complex_param.group_len_inc) * v)
         .chain(iter::once(complex_param.group_len_last));
 
-    ComplexPackingValueDecodeIterator::new(
+    let iter = ComplexPackingValueDecodeIterator::new(
         group_refs_iter,
         group_widths_iter,
         group_lens_iter,
         complex_param.missing_value_management_used,
         nbit,
         z_min,
-        sect7_data[group_lens_end_octet..].to_vec(),
+        get_octets(sect7_data, group_lens_end_octet..)?.to_vec(),
     )
-    .flatten()
+    .flatten();
+    Ok(iter)
 }
 
 #[derive(Clone)]
diff --git a/src/decoder/complex/diff.rs b/src/decoder/complex/diff.rs
index b7c94c3..a88cf48 100644
--- a/src/decoder/complex/diff.rs
+++ b/src/decoder/complex/diff.rs
@@ -24,7 +24,13 @@ impl<'a> SpatialDifferencingExtraDescriptors<'a> {
         let byte_length = usize::from(spdiff_order + 1) * num_octets;
 
         Ok(Self {
-            slice: &parent_slice[..byte_length],
+            slice: parent_slice
+                .get(..byte_length)
+                .ok_or(GribError::DecodeError(
+                    DecodeError::ComplexPackingDecodeError(
+                        ComplexPackingDecodeError::LengthMismatch,
+                    ),
+                ))?,
             num_octets,
         })
     }
-- 
2.43.0


From 808cd9fff52221063155d795392ebe8557b6208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:58 +0000
Subject: [PATCH 23/27] fix: report malformed run lengths as errors

---
 src/decoder/run_length.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index ac6acc0..ef93a52 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -65,28 +65,35 @@ fn rleunpack(
     maxv: u16,
     expected_len: Option<usize>,
 ) -> Result<Box<[u16]>, RunLengthEncodingDecodeError> {
+    if nbit == 0 || nbit > 16 {
+        return Err(RunLengthEncodingDecodeError::NotSupported);
+    }
+
     let mut out_buf = match expected_len {
         Some(sz) => Vec::with_capacity(sz),
         None => Vec::new(),
     };
 
-    let rlbase = maxv + 1;
-    let lngu: usize = ((1u16 << nbit) - rlbase).into();
+    let rlbase = u32::from(maxv) + 1;
+    let lngu = (1u32 << nbit).saturating_sub(rlbase) as usize;
     let mut cached = None;
     let mut exp: usize = 1;
     let iter = NBitwiseIterator::new(input, usize::from(nbit));
 
     for value in iter {
-        let value = value as u16;
         if rlbase > value {
+            let value = value as u16;
             out_buf.push(value);
             cached = Some(value);
             exp = 1;
         } else {
             let prev = cached.ok_or(RunLengthEncodingDecodeError::InvalidFirstValue)?;
-            let length: usize = ((value - rlbase) as usize) * exp;
+            let length = ((value - rlbase) as usize).saturating_mul(exp);
+            if matches!(expected_len, Some(len) if length > len) {
+                return Err(RunLengthEncodingDecodeError::LengthMismatch);
+            }
             out_buf.append(&mut vec![prev; length]);
-            exp *= lngu;
+            exp = exp.saturating_mul(lngu);
         }
     }
 
-- 
2.43.0


From 9db8f2bb1f33a7476d6f42c6d7e5f556fbee1297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:48 +0000
Subject: [PATCH 24/27] fix: decode complex packing groups of any width and
 length without overflow

---
 src/decoder/complex.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 7d0f734..fbdc64c 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -150,7 +150,7 @@ fn decode_complex_packing(
     );
     let group_widths_iter = group_widths_iter
         .take(complex_param.ngroup as usize)
-        .map(move |v| u32::from(complex_param.group_width_ref) + v);
+        .map(move |v| u32::from(complex_param.group_width_ref).saturating_add(v));
 
     let group_lens_iter = BitStream::new(
         get_octets(sect7_data, group_widths_end_octet..group_lens_end_octet)?,
@@ -159,7 +159,11 @@ fn decode_complex_packing(
     );
     let group_lens_iter = group_lens_iter
         .take(complex_param.ngroup.saturating_sub(1) as usize)
-        .map(move |v| complex_param.group_len_ref + u32::from(complex_param.group_len_inc) * v)
+        .map(move |v| {
+            u32::from(complex_param.group_len_inc)
+                .saturating_mul(v)
+                .saturating_add(complex_param.group_len_ref)
+        })
         .chain(iter::once(complex_param.group_len_last));
 
     let iter = ComplexPackingValueDecodeIterator::new(
@@ -234,8 +238,8 @@ where
                 // associated field width is 0, and no incremental data are physically present."
                 let _ref = _ref.to_i32().unwrap();
                 let length = length.to_usize().unwrap();
-                let missing1 = (1 << self.nbit) - 1;
-                let missing2 = missing1 - 1;
+                let missing1 = max_value(self.nbit.into()) as i32;
+                let missing2 = missing1.wrapping_sub(1);
 
                 if self.missing_value_management > 0 && _ref == missing1 {
                     Some(vec![Missing1; length])
@@ -254,10 +258,10 @@ where
                 let bits = self.start_offset_bits + width * length;
                 let (pos_end, offset_bits) = (self.pos + bits / 8, bits % 8);
                 let offset_byte = usize::from(offset_bits > 0);
-                let missing1 = (1 << width) - 1;
-                let missing2 = missing1 - 1;
+                let missing1 = max_value(width);
+                let missing2 = missing1.wrapping_sub(1);
                 let group_values =
-                    NBitwiseIterator::new(&self.data[self.pos..pos_end + offset_byte], width)
+                    NBitwiseIterator::new(self.data.get(self.pos..pos_end + offset_byte)?, width)
                         .with_offset(self.start_offset_bits)
                         .take(length)
                         .map(|v| {
@@ -279,5 +283,14 @@ where
     }
 }
 
+// Returns the maximum value of an unsigned integer field with the given width.
+fn max_value(nbit: usize) -> u32 {
+    match nbit {
+        0 => 0,
+        1..=31 => (1 << nbit) - 1,
+        _ => u32::MAX,
+    }
+}
+
 mod diff;
 mod missing;
-- 
2.43.0


From 99ea07ec4d6cce2822c78f7cdd144caa1328d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:46 +0000
Subject: [PATCH 25/27] fix: end the values of complex packing at group
 references beyond 32-bit signed integers

---
 src/decoder/complex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index fbdc64c..32f2f37 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -236,7 +236,7 @@ where
             (Some(_ref), Some(width), Some(length)) if width.to_usize().unwrap() == 0 => {
                 // The specification states as follows: "For groups with a constant value,
                 // associated field width is 0, and no incremental data are physically present."
-                let _ref = _ref.to_i32().unwrap();
+                let _ref = _ref.to_i32()?;
                 let length = length.to_usize().unwrap();
                 let missing1 = max_value(self.nbit.into()) as i32;
                 let missing2 = missing1.wrapping_sub(1);
@@ -251,7 +251,7 @@ where
             }
             (Some(_ref), Some(width), Some(length)) => {
                 let (_ref, width, length) = (
-                    _ref.to_i32().unwrap(),
+                    _ref.to_i32()?,
                     width.to_usize().unwrap(),
                     length.to_usize().unwrap(),
                 );
-- 
2.43.0


From 852738ee54c0a17ae2d519af33279602ebdf0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:03 +0000
Subject: [PATCH 26/27] fix: report the end of JPEG 2000 code streams to the
 library

---
 src/decoder/jpeg2000/ext.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decoder/jpeg2000/ext.rs b/src/decoder/jpeg2000/ext.rs
index 9b71972..a96eafb 100644
--- a/src/decoder/jpeg2000/ext.rs
+++ b/src/decoder/jpeg2000/ext.rs
@@ -62,6 +62,12 @@ impl Stream {
 
             let bytes_left = len - offset;
 
+            // The library expects `(OPJ_SIZE_T)-1` at the end of the stream. With any other value,
+            // including 0, it keeps asking for more.
+            if bytes_left == 0 {
+                return usize::MAX;
+            }
+
             let bytes_read = std::cmp::min(bytes_left, p_nb_bytes);
 
             let slice = &(*user_data).buf[offset..offset + bytes_read];
-- 
2.43.0


From 0526741aa53135c7c2ce33d07e4c01058a83e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:03 +0000
Subject: [PATCH 27/27] fix: read JPEG 2000 pixels within their component's
 dimensions

---
 src/decoder/jpeg2000.rs     | 13 +++----------
 src/decoder/jpeg2000/ext.rs | 23 -----------------------
 2 files changed, 3 insertions(+), 33 deletions(-)

diff --git a/src/decoder/jpeg2000.rs b/src/decoder/jpeg2000.rs
index 2e4e01e..d89f816 100644
--- a/src/decoder/jpeg2000.rs
+++ b/src/decoder/jpeg2000.rs
@@ -70,17 +70,10 @@ fn decode_jp2(stream: Stream) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeS
     drop(codec);
     drop(stream);
 
-    let width = image.width();
-    let height = image.height();
-    let factor = image.factor();
-
-    let width = value_for_discard_level(width, factor);
-    let height = value_for_discard_level(height, factor);
-
     if let [comp_gray] = image.components() {
-        let vec = unsafe {
-            std::slice::from_raw_parts(comp_gray.data, (width * height) as usize).to_vec()
-        };
+        // The component can be smaller than the image if it is sub-sampled.
+        let len = comp_gray.w as usize * comp_gray.h as usize;
+        let vec = unsafe { std::slice::from_raw_parts(comp_gray.data, len).to_vec() };
         Ok(vec.into_iter())
     } else {
         Err(Jpeg2000CodeStreamDecodeError::NotSupported)
diff --git a/src/decoder/jpeg2000/ext.rs b/src/decoder/jpeg2000/ext.rs
index a96eafb..b53aa95 100644
--- a/src/decoder/jpeg2000/ext.rs
+++ b/src/decoder/jpeg2000/ext.rs
@@ -136,14 +136,6 @@ impl Image {
         Image(ptr::null_mut())
     }
 
-    pub(crate) fn width(&self) -> u32 {
-        unsafe { (*self.0).x1 - (*self.0).x0 }
-    }
-
-    pub(crate) fn height(&self) -> u32 {
-        unsafe { (*self.0).y1 - (*self.0).y0 }
-    }
-
     pub(crate) fn num_components(&self) -> u32 {
         unsafe { (*self.0).numcomps }
     }
@@ -152,19 +144,4 @@ impl Image {
         let comps_len = self.num_components();
         unsafe { std::slice::from_raw_parts((*self.0).comps, comps_len as usize) }
     }
-
-    pub(crate) fn factor(&self) -> u32 {
-        unsafe { (*(*self.0).comps).factor }
-    }
-}
-
-pub(crate) fn value_for_discard_level(u: u32, discard_level: u32) -> u32 {
-    let div = 1 << discard_level;
-    let quot = u / div;
-    let rem = u % div;
-    if rem > 0 {
-        quot + 1
-    } else {
-        quot
-    }
 }
-- 
2.43.0

