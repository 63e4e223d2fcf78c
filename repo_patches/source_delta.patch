From 93e4839e9ebf537e0543d6b430496737ba8d12a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:58 +0000
Subject: [PATCH 01/18] fix: empty lists in footprint and layout files are
 reported as errors

A bare () where a named list is expected made the readers index past the
end of the list and panic.
---
 src/footprint/de.rs | 16 ++++++++--------
 src/layout/de.rs    |  8 ++++----
 src/lib.rs          |  8 ++++++++
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 45d7328..57d3c16 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -3,7 +3,7 @@
 use Sexp;
 use footprint;
 use footprint::data::*;
-use wrap;
+use {list_name, wrap};
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
 
@@ -130,7 +130,7 @@ where
 
 impl FromSexp for Xy {
     fn from_sexp(s: &Sexp) -> Result<Xy, SexpError> {
-        let name: &str = &s.list_name()?[..];
+        let name: &str = &list_name(s)?[..];
         let t: Result<XyType, SexpError> = match name {
             "xy" => Ok(XyType::Xy),
             "start" => Ok(XyType::Start),
@@ -195,7 +195,7 @@ impl FromSexp for Drill {
 
 impl FromSexp for Part {
     fn from_sexp(s: &Sexp) -> Result<Part, SexpError> {
-        let name = &(s.list_name()?)[..];
+        let name = &(list_name(s)?)[..];
         match name {
             "thickness" => parse_part_float(s, Part::Thickness),
             "net" => wrap(s, from_sexp, Part::Net),
@@ -385,19 +385,19 @@ impl FromSexp for Model {
 }
 
 fn parse_string_element(s: &Sexp) -> Result<String, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     Ok(i.s("element")?)
 }
 
 fn parse_float_element(s: &Sexp) -> Result<f64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     Ok(i.f("element")?)
 }
 
 fn parse_stamp_element(s: &Sexp) -> Result<i64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let s = i.s("element")?;
     let i = i64::from_str_radix(&s, 16)?;
@@ -412,7 +412,7 @@ impl FromSexp for Element {
                 _ => Err(format!("unknown element in module: {}", s).into()),
             },
             Sexp::List(_) => {
-                let name = s.list_name()?;
+                let name = list_name(s)?;
                 match &name[..] {
                     "solder_mask_margin" => wrap(s, parse_float_element, Element::SolderMaskMargin),
                     "layer" => wrap(s, from_sexp, Element::Layer),
@@ -434,7 +434,7 @@ impl FromSexp for Element {
                     _ => Err(format!("unknown element in module: {}", name).into()),
                 }
             }
-            Sexp::Empty => unreachable!(),
+            Sexp::Empty => Err("empty element in module".into()),
         }
     }
 }
diff --git a/src/layout/de.rs b/src/layout/de.rs
index eaca0e1..ba0bad3 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -5,7 +5,7 @@
 
 // from parent
 use footprint;
-use wrap;
+use {list_name, wrap};
 use Sexp;
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
@@ -190,7 +190,7 @@ impl FromSexp for NetClass {
         let mut diff_pair_width = None;
         let mut nets = vec![];
         for x in i.iter {
-            let list_name = x.list_name()?;
+            let list_name = list_name(x)?;
             let xn = &list_name[..];
             match xn {
                 "add_net" => {
@@ -231,7 +231,7 @@ impl FromSexp for Setup {
         let mut pcbplotparams = vec![];
         let i = IterAtom::new(s, "setup")?;
         for v in i.iter {
-            let n = v.list_name()?;
+            let n = list_name(v)?;
             if n == "pcbplotparams" {
                 let i2 = IterAtom::new(v, "pcbplotparams")?;
                 for y in i2.iter {
@@ -465,7 +465,7 @@ impl FromSexp for Layout {
         let mut layout = Layout::default();
         // TODO: read in order instead of matching on iter
         for e in i.iter {
-            match (e.list_name()?).as_str() {
+            match (list_name(e)?).as_str() {
                 "version" => layout.version = Version::from_sexp(e)?.0,
                 "host" => layout.host = from_sexp(e)?,
                 "general" => layout.general = from_sexp(e)?,
diff --git a/src/lib.rs b/src/lib.rs
index 4c7f9c2..ee0a8ce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -236,6 +236,14 @@ pub fn read_fp_lib_table(name: &Path) -> Result<fp_lib_table::FpLibTable, KicadE
     }
 }
 
+/// name of a list; an error when the list is empty
+fn list_name(s: &Sexp) -> result::Result<&String, SexpError> {
+    if s.list()?.is_empty() {
+        return Err("expected a named list, got ()".into());
+    }
+    s.list_name()
+}
+
 fn wrap<X, Y, F, G>(s: &Sexp, make: F, wrapper: G) -> result::Result<Y,SexpError>
 where
     F: Fn(&Sexp) -> result::Result<X,SexpError>,
-- 
2.43.0


From e933417db6d07912e67fe070891c85183ca4be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:58 +0000
Subject: [PATCH 02/18] fix: keep font sizes that are not positive when writing
 a footprint

A font size with both values zero or less was left out of the output, so
reading it back gave a size of zero.
---
 src/footprint/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index a986475..3a445f8 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -71,7 +71,7 @@ impl IntoSexp for At {
 impl IntoSexp for Font {
     fn into_sexp(&self) -> Sexp {
         let mut v = Sexp::start("font");
-        if self.size.x > 0.0 || self.size.y > 0.0 {
+        if self.size.x != 0.0 || self.size.y != 0.0 {
             let mut v1 = Sexp::start("size");
             v1.push(self.size.x);
             v1.push(self.size.y);
-- 
2.43.0


From df9c0d4c5a748416f2dd32563b9a30acf392c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:58 +0000
Subject: [PATCH 03/18] fix: always write the width of a drill, and its height
 when it differs

A drill of width zero was written as (drill), which can not be read, and
a height of zero or close to the width was dropped.
---
 src/footprint/ser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index 3a445f8..79538e8 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -3,7 +3,6 @@
 use Sexp;
 use symbolic_expressions::IntoSexp;
 use footprint::data::*;
-use std::f64;
 
 impl IntoSexp for Module {
     fn into_sexp(&self) -> Sexp {
@@ -139,10 +138,8 @@ impl IntoSexp for Drill {
         if let Some(ref s) = self.shape {
             v.push(s)
         }
-        if self.width > 0.0 {
-            v.push(self.width);
-        }
-        if self.height > 0.0 && (self.height - self.width).abs() > f64::EPSILON {
+        v.push(self.width);
+        if self.height != self.width {
             v.push(self.height);
         }
         if self.offset_x != 0.0 || self.offset_y != 0.0 {
-- 
2.43.0


From e80f636c1a46e015d2dabfa2801f7da3fa41bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:58 +0000
Subject: [PATCH 04/18] fix: read and write both the size and the rect_delta of
 a pad

The reader took only one of the two, so no pad with a size and a
rect_delta could be read. KiCad puts rect_delta right after the size.
---
 src/footprint/de.rs  | 15 +++++++++------
 src/footprint/ser.rs |  6 +++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 57d3c16..1580ac1 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -246,13 +246,16 @@ impl FromSexp for Pad {
         if let Some(at) = i.maybe_t::<At>() {
             pad.at = at;
         }
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::Size {
-                pad.size = xy;
-            } else if xy.t == XyType::RectDelta {
-                pad.rect_delta = Some(xy);
+        // size and rect_delta
+        for _ in 0..2 {
+            if let Some(xy) = i.maybe_t::<Xy>() {
+                if xy.t == XyType::Size {
+                    pad.size = xy;
+                } else if xy.t == XyType::RectDelta {
+                    pad.rect_delta = Some(xy);
+                }
+                // else ignore
             }
-            // else ignore
         }
         pad.drill = i.maybe_t::<Drill>();
         if let Some(layers) = i.maybe_t::<Layers>() {
diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index 79538e8..0024b67 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -197,12 +197,12 @@ impl IntoSexp for Pad {
         v.push(self.shape.into_sexp());
         v.push(self.at.into_sexp());
         v.push(self.size.into_sexp());
-        if let Some(ref drill) = self.drill {
-            v.push(drill.into_sexp());
-        }
         if let Some(ref rect_delta) = self.rect_delta {
             v.push(rect_delta.into_sexp());
         }
+        if let Some(ref drill) = self.drill {
+            v.push(drill.into_sexp());
+        }
         v.push(self.layers.into_sexp());
         if let Some(ref net) = self.net {
             v.push(net.into_sexp());
-- 
2.43.0


From 5b1703acaa524ba4e40c64c104503f25a4cb30b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:58 +0000
Subject: [PATCH 05/18] fix: read back tedit and tstamp values with the top bit
 set

They are written as the 64 bit hexadecimal pattern, which the reader
rejected as out of range.
---
 src/footprint/de.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 1580ac1..2fc37ff 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -403,8 +403,11 @@ fn parse_stamp_element(s: &Sexp) -> Result<i64, SexpError> {
     let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let s = i.s("element")?;
-    let i = i64::from_str_radix(&s, 16)?;
-    Ok(i)
+    match i64::from_str_radix(&s, 16) {
+        Ok(i) => Ok(i),
+        // the writer emits negative stamps as their 64 bit pattern
+        Err(_) => Ok(u64::from_str_radix(&s, 16)? as i64),
+    }
 }
 
 impl FromSexp for Element {
-- 
2.43.0


From 0972ea94a9c9bb40ec821bb4fce589684a48fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:46 +0000
Subject: [PATCH 06/18] fix: a negative zone priority is an error, not a huge
 number that cannot be read back

---
 src/layout/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index ba0bad3..31f4186 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -341,7 +341,11 @@ impl FromSexp for Zone {
         let layer = i.t("layer")?;
         let tstamp = i.s_in_list("tstamp")?;
         let hatch = i.t("hatch")?;
-        let priority = i.maybe_i_in_list("priority").unwrap_or(0) as u64;
+        let priority = i.maybe_i_in_list("priority").unwrap_or(0);
+        if priority < 0 {
+            return Err(format!("zone: negative priority {}", priority).into());
+        }
+        let priority = priority as u64;
         let connect_pads = i.t("connect_pads")?;
         let min_thickness = i.f_in_list("min_thickness")?;
         let keepout = i.maybe_t();
-- 
2.43.0


From c7169415a81c564e19d203e2c309dc61050fc77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:41 +0000
Subject: [PATCH 07/18] fix: order the corners of the bounding box of footprint
 lines and arcs

The box of a line or arc was made from its start and end as they are.
When the end lies left of or above the start the corners were in the wrong
order, and the box of the whole footprint did not contain the end point.
---
 src/footprint/data.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index a701e10..99b1e70 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1218,7 +1218,11 @@ impl Default for FpLine {
 
 impl BoundingBox for FpLine {
     fn bounding_box(&self) -> Bound {
-        Bound::new(self.start.x, self.start.y, self.end.x, self.end.y)
+        let x1 = self.start.x.min(self.end.x);
+        let y1 = self.start.y.min(self.end.y);
+        let x2 = self.start.x.max(self.end.x);
+        let y2 = self.start.y.max(self.end.y);
+        Bound::new(x1, y1, x2, y2)
     }
 }
 
@@ -1318,7 +1322,11 @@ impl Flip for FpArc {
 impl BoundingBox for FpArc {
     fn bounding_box(&self) -> Bound {
         // perhaps not correct
-        Bound::new(self.start.x, self.start.y, self.end.x, self.end.y)
+        let x1 = self.start.x.min(self.end.x);
+        let y1 = self.start.y.min(self.end.y);
+        let x2 = self.start.x.max(self.end.x);
+        let y2 = self.start.y.max(self.end.y);
+        Bound::new(x1, y1, x2, y2)
     }
 }
 
-- 
2.43.0


From bab6db44ca329f1dc24112a0b32a3982100afd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:41 +0000
Subject: [PATCH 08/18] fix: bounding box of a schematic component

The box mixed up the x and y position of the component.
---
 src/schematic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 86d3170..912b356 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -433,7 +433,7 @@ impl Default for Component {
 impl BoundingBox for Component {
     fn bounding_box(&self) -> Bound {
         debug!("Component bound calculation is poor");
-        Bound::new_from_i64(self.y, self.y, self.x, self.y)
+        Bound::new_from_i64(self.x, self.y, self.x, self.y)
     }
 }
 
-- 
2.43.0


From a9acdc73ec17620e0ce240ac59d17bd95eb682d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:04 +0000
Subject: [PATCH 09/18] fix: sort key of an empty reference

reference_ord panicked on an empty text. It now gives the smallest key.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ee0a8ce..85f1fc0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -355,7 +355,7 @@ pub trait Adjust {
 /// ordering used for ordering by component reference
 /// to e.g. avoid U1 U101 U2 and get U1 U2 U101
 pub fn reference_ord(r: &str) -> (char, i64) {
-    let c = r.chars().nth(0).unwrap();
+    let c = r.chars().nth(0).unwrap_or('\0');
     let mut s = String::new();
     for c in r.chars() {
         if c >= '0' && c <= '9' {
-- 
2.43.0


From b5731877bc3002836bfd92b3e4ee2e8c89d43e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:04 +0000
Subject: [PATCH 10/18] fix: only recognise complete unnamed net names

A name such as Net-(R1-Pad1)x or Net-(a(b-c was taken for an automatically
generated net name, and renaming its component lost the other text.
---
 src/layout/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/data.rs b/src/layout/data.rs
index 8a7b6ce..cc329b4 100644
--- a/src/layout/data.rs
+++ b/src/layout/data.rs
@@ -904,7 +904,7 @@ impl NetName {
     pub fn is_unnamed_net(&self) -> Option<(String, String)> {
         if self.0.starts_with("Net-(") {
             let v: Vec<&str> = self.0.split(|c| c == '-' || c == '(' || c == ')').collect();
-            if v.len() != 5 {
+            if v.len() != 5 || self.0 != format!("Net-({}-{})", v[2], v[3]) {
                 None
             } else {
                 Some((v[2].into(), v[3].into()))
-- 
2.43.0


From 54cd901d858861578e4b50f308307484dbea1a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:03 +0000
Subject: [PATCH 11/18] fix: pin grid checks use mil units

Symbol coordinates are in mil, as in the other pin length checks, but the
grid checks tested for 10 and 5 instead of 100 and 50. A pin at 10 10 with
length 105 was reported as being on the 100mil and 50mil grids.
---
 src/symbol_lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index f815958..da002d3 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -942,7 +942,7 @@ impl CheckFix for Pin {
         let mut v = vec![];
         let name = format!("{}:{}", self.name, self.number);
         // 4.1 Using a 100mil grid, pin origin must lie on grid nodes (IEC-60617)
-        if (self.x % 10) != 0 {
+        if (self.x % 100) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
@@ -950,7 +950,7 @@ impl CheckFix for Pin {
                 "pin x not on 100mil grid",
             ));
         }
-        if (self.y % 10) != 0 {
+        if (self.y % 100) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
@@ -959,7 +959,7 @@ impl CheckFix for Pin {
             ));
         }
         // 4.1 Pin length can be incremented in steps of 50mils (1.27mm) if required e.g. for long pin numbers
-        if (self.len % 5) != 0 {
+        if (self.len % 50) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
-- 
2.43.0


From 62dc34ae2d95861a9ea2b03dd263a1440892918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:27 +0000
Subject: [PATCH 12/18] fix: write bold symbol fields as bold

---
 src/symbol_lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index da002d3..4ccfc32 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -400,7 +400,7 @@ impl fmt::Display for Field {
             self.hjustify,
             self.vjustify,
             if self.italic { "I" } else { "N" },
-            if self.bold { "I" } else { "N" },
+            if self.bold { "B" } else { "N" },
         )?;
         if self.i > 3 {
             write!(f, " \"{}\"", self.name)?
-- 
2.43.0


From 960ebc2c82db19ebd7c870f2206e0f5b562fbf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:38 +0000
Subject: [PATCH 13/18] fix: a symbol with fewer than two fields can be written

---
 src/symbol_lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 4ccfc32..7969954 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -331,7 +331,12 @@ impl Symbol {
 
 impl fmt::Display for Symbol {
     fn fmt(&self, f: &mut fmt::Formatter) -> result::Result<(), fmt::Error> {
-        writeln!(f, "# {}", &&self.fields[1].value)?;
+        // a symbol without a value field is introduced by its name
+        let title = match self.fields.get(1) {
+            Some(field) => &field.value,
+            None => &self.name,
+        };
+        writeln!(f, "# {}", title)?;
         writeln!(f, "#")?;
         writeln!(
             f,
-- 
2.43.0


From 018d99f54866f4c5c635c1b9110580f8684f914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:15 +0000
Subject: [PATCH 14/18] fix: report a truncated schematic or symbol library as
 an error

---
 src/schematic.rs  | 11 ++++++++++-
 src/symbol_lib.rs |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 912b356..a20b064 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -249,7 +249,7 @@ impl ParseState {
     }
 
     fn here(&self) -> String {
-        (self.v[self.i]).clone()
+        self.v.get(self.i).cloned().unwrap_or_default()
     }
 
     fn next(&mut self) {
@@ -1279,6 +1279,9 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
     let mut d = Component::default();
     p.next();
     loop {
+        if p.eof() {
+            return str_error("end of file reached in component".to_string());
+        }
         let s = p.here();
         if s == "$EndComp" {
             break;
@@ -1374,6 +1377,9 @@ fn parse_sheet(p: &mut ParseState) -> Result<Sheet, KicadError> {
     let mut s = Sheet::default();
     p.next();
     loop {
+        if p.eof() {
+            return str_error("end of file reached in sheet".to_string());
+        }
         let st = p.here();
         if st == "$EndSheet" {
             break;
@@ -1483,6 +1489,9 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     };
     let thickness = i64_from_string(p, &String::from(v[index + 1]))?;
     p.next();
+    if p.eof() {
+        return str_error("end of file reached in text".to_string());
+    }
     let text = p.here();
     Ok(Text {
         t: t,
diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 7969954..22ff591 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -614,7 +614,7 @@ impl ParseState {
     }
 
     fn here(&self) -> String {
-        (self.v[self.i]).clone()
+        self.v.get(self.i).cloned().unwrap_or_default()
     }
 
     fn next(&mut self) {
@@ -681,7 +681,7 @@ fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
     p.next();
     loop {
         let s2 = p.here();
-        if char_at(&s2, 0) == 'F' {
+        if s2.starts_with('F') {
             let f = parse_field(p, &s2)?;
             s.fields.push(f);
             p.next();
-- 
2.43.0


From 0b712aa3d1b977545413a30cd5f01dddd61aa75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:17 +0000
Subject: [PATCH 15/18] fix: report a too short style or justification as an
 error

---
 src/schematic.rs  | 18 ++++++++++--------
 src/symbol_lib.rs | 20 +++++++++++---------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index a20b064..40225d4 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -746,15 +746,15 @@ impl ComponentField {
         let c = ComponentField {
             i: i,
             value: v[2].clone(),
-            orientation: Orientation::new(char_at(&v[3], 0))?,
+            orientation: Orientation::new(char_at(&v[3], 0)?)?,
             x: f64_from_string(p, &v[4])?,
             y: f64_from_string(p, &v[5])?,
             size: i64_from_string(p, &v[6])?,
             visible: bool_from_string(&v[7], "0000", "0001")?,
-            hjustify: Justify::new(char_at(&v[8], 0))?,
-            vjustify: Justify::new(char_at(&v[9], 0))?,
-            italic: bool_from(&char_at(&v[9], 1), &'I', &'N')?,
-            bold: bool_from(&char_at(&v[9], 2), &'B', &'N')?,
+            hjustify: Justify::new(char_at(&v[8], 0)?)?,
+            vjustify: Justify::new(char_at(&v[9], 0)?)?,
+            italic: bool_from(&char_at(&v[9], 1)?, &'I', &'N')?,
+            bold: bool_from(&char_at(&v[9], 2)?, &'B', &'N')?,
             name: name,
         };
         Ok(c)
@@ -1126,9 +1126,11 @@ impl fmt::Display for Text {
     }
 }
 
-fn char_at(s: &str, p: usize) -> char {
-    let v: Vec<char> = s.chars().collect();
-    v[..][p]
+fn char_at(s: &str, p: usize) -> Result<char, KicadError> {
+    match s.chars().nth(p) {
+        Some(c) => Ok(c),
+        None => str_error(format!("missing character {} in '{}'", p, s)),
+    }
 }
 
 
diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 22ff591..5b54d52 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -290,7 +290,7 @@ impl Symbol {
 
     /// set the name of the symbol
     pub fn set_name(&mut self, name: &str) {
-        if char_at(&self.name, 0) == '~' {
+        if self.name.starts_with('~') {
             self.name = format!("~{}", name)
         } else {
             self.name = name.to_string()
@@ -657,9 +657,11 @@ fn bool_from_string(s: &str, t: &'static str, f: &'static str) -> Result<bool, K
     str_error(format!("unknown boolean {}, expected {} or {}", s, t, f))
 }
 
-fn char_at(s: &str, p: usize) -> char {
-    let v: Vec<char> = s.chars().collect();
-    v[..][p]
+fn char_at(s: &str, p: usize) -> Result<char, KicadError> {
+    match s.chars().nth(p) {
+        Some(c) => Ok(c),
+        None => str_error(format!("missing character {} in '{}'", p, s)),
+    }
 }
 
 fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
@@ -766,12 +768,12 @@ fn parse_field(p: &mut ParseState, line: &str) -> Result<Field, KicadError> {
     f.x = f64_from_string(p, &v[2])?;
     f.y = f64_from_string(p, &v[3])?;
     f.dimension = i64_from_string(p, &v[4])?;
-    f.orientation = schematic::Orientation::new(char_at(&v[5], 0))?;
+    f.orientation = schematic::Orientation::new(char_at(&v[5], 0)?)?;
     f.visible = bool_from_string(&v[6], "V", "I")?;
-    f.hjustify = schematic::Justify::new(char_at(&v[7], 0))?;
-    f.vjustify = schematic::Justify::new(char_at(&v[8], 0))?;
-    f.italic = bool_from(char_at(&v[8], 1), 'I', 'N')?;
-    f.bold = bool_from(char_at(&v[8], 2), 'B', 'N')?;
+    f.hjustify = schematic::Justify::new(char_at(&v[7], 0)?)?;
+    f.vjustify = schematic::Justify::new(char_at(&v[8], 0)?)?;
+    f.italic = bool_from(char_at(&v[8], 1)?, 'I', 'N')?;
+    f.bold = bool_from(char_at(&v[8], 2)?, 'B', 'N')?;
     f.name = name;
     Ok(f)
 }
-- 
2.43.0


From 2c59214f01add5529c4f31ce3b43e680c27dd1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:17 +0000
Subject: [PATCH 16/18] fix: keep a blank line in a schematic instead of
 aborting

---
 src/schematic.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 40225d4..145191f 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1563,8 +1563,7 @@ pub fn parse(filename: Option<PathBuf>, s: &str) -> Result<Schematic, KicadError
                     let w = parse_text(p)?;
                     sch.append_text(w)
                 }
-                Some(_) => sch.append_other(p.here()),
-                None => unreachable!(),
+                _ => sch.append_other(p.here()),
             }
         }
         p.next()
-- 
2.43.0


From 64b3c8bf0998a6b376f473e0861f727ca41b10f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:18 +0000
Subject: [PATCH 17/18] fix: report a label without a shape as an error

---
 src/schematic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/schematic.rs b/src/schematic.rs
index 145191f..878ce83 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1480,6 +1480,9 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     let size = i64_from_string(p, &String::from(v[5]))?;
     let mut index = 6;
     let shape = if !t.is_local() {
+        if v.len() < 9 {
+            return str_error(format!("expecting 9 elements in {}", s));
+        }
         index = 7;
         Some(v[6].into())
     } else {
-- 
2.43.0


From 981e6f4c3e9d9cdabd2ea0ca2beac3376c2d6592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:47 +0000
Subject: [PATCH 18/18] Entry points for verification behind cfg(kicad_verif)

---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 85f1fc0..2b54cd3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -79,6 +79,18 @@ fn parse_split_quote_aware(s: &str) -> Result<Vec<String>, KicadError> {
     parse_split_quote_aware_int(None, s)
 }
 
+/// entry points for verification
+#[cfg(kicad_verif)]
+pub mod verif {
+    use KicadError;
+    pub use formatter::KicadFormatter;
+
+    /// split a line into fields
+    pub fn split(n: Option<usize>, s: &str) -> Result<Vec<String>, KicadError> {
+        ::parse_split_quote_aware_int(n, s)
+    }
+}
+
 /// types of Kicad files that can be found
 #[derive(Debug)]
 pub enum KicadFile {
-- 
2.43.0

