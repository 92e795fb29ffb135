From 9e6affe386d03f35eb25152bc8ee2e5b0674723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:24 +0000
Subject: [PATCH 01/32] fix: reject trailing content in simple footprint
 elements

---
 src/footprint/de.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 45d7328..c70eb2f 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -64,9 +64,9 @@ impl FromSexp for Justify {
         let mut i = IterAtom::new(s, "justify")?;
         let s = i.s("mirror")?;
         match &s[..] {
-            "mirror" => Ok(Justify::Mirror),
-            "left" => Ok(Justify::Left),
-            "right" => Ok(Justify::Right),
+            "mirror" => i.close(Justify::Mirror),
+            "left" => i.close(Justify::Left),
+            "right" => i.close(Justify::Right),
             _ => Err(format!("unknown justify: {}", s).into()),
         }
     }
@@ -109,8 +109,8 @@ where
     F: Fn(f64) -> Part,
 {
     let v = e.list()?;
-    if v.len() < 2 {
-        return Err(format!("not enough elements in {}", e).into());
+    if v.len() != 2 {
+        return Err(format!("wrong number of elements in {}", e).into());
     }
     let f = v[1].f()?;
     Ok(make(f))
@@ -121,8 +121,8 @@ where
     F: Fn(i64) -> Part,
 {
     let v = e.list()?;
-    if v.len() < 2 {
-        return Err(format!("not enough elements in {}", e).into());
+    if v.len() != 2 {
+        return Err(format!("wrong number of elements in {}", e).into());
     }
     let i = v[1].i()?;
     Ok(make(i))
@@ -387,21 +387,23 @@ impl FromSexp for Model {
 fn parse_string_element(s: &Sexp) -> Result<String, SexpError> {
     let name = s.list_name()?;
     let mut i = IterAtom::new(s, name)?;
-    Ok(i.s("element")?)
+    let r = i.s("element")?;
+    i.close(r)
 }
 
 fn parse_float_element(s: &Sexp) -> Result<f64, SexpError> {
     let name = s.list_name()?;
     let mut i = IterAtom::new(s, name)?;
-    Ok(i.f("element")?)
+    let r = i.f("element")?;
+    i.close(r)
 }
 
 fn parse_stamp_element(s: &Sexp) -> Result<i64, SexpError> {
     let name = s.list_name()?;
     let mut i = IterAtom::new(s, name)?;
     let s = i.s("element")?;
-    let i = i64::from_str_radix(&s, 16)?;
-    Ok(i)
+    let r = i64::from_str_radix(&s, 16)?;
+    i.close(r)
 }
 
 impl FromSexp for Element {
-- 
2.43.0


From 971a8c0f0b80acd55c99c27309624755a4ff9f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:45 +0000
Subject: [PATCH 02/32] fix: reject misplaced points in footprint graphics
 instead of dropping them

---
 src/footprint/de.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index c70eb2f..43b2bda 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -78,6 +78,9 @@ impl FromSexp for Font {
         let mut i = IterAtom::new(s, "font")?;
         let mut font = Font::default();
         if let Some(xy) = i.maybe_t::<Xy>() {
+            if xy.t != XyType::Size {
+                return Err(format!("unexpected point in font: {:?}", xy).into());
+            }
             font.size.x = xy.x;
             font.size.y = xy.y;
         }
@@ -300,11 +303,15 @@ impl FromSexp for FpLine {
         if let Some(xy) = i.maybe_t::<Xy>() {
             if xy.t == XyType::Start {
                 fp_line.start = xy;
+            } else {
+                return Err(format!("unexpected point in fp_line: {:?}", xy).into());
             }
         }
         if let Some(xy) = i.maybe_t::<Xy>() {
             if xy.t == XyType::End {
                 fp_line.end = xy;
+            } else {
+                return Err(format!("unexpected point in fp_line: {:?}", xy).into());
             }
         }
         if let Some(layer) = i.maybe_t::<Layer>() {
@@ -325,11 +332,15 @@ impl FromSexp for FpCircle {
         if let Some(xy) = i.maybe_t::<Xy>() {
             if xy.t == XyType::Center {
                 fp_circle.center = xy;
+            } else {
+                return Err(format!("unexpected point in fp_circle: {:?}", xy).into());
             }
         }
         if let Some(xy) = i.maybe_t::<Xy>() {
             if xy.t == XyType::End {
                 fp_circle.end = xy;
+            } else {
+                return Err(format!("unexpected point in fp_circle: {:?}", xy).into());
             }
         }
         if let Some(layer) = i.maybe_t::<Layer>() {
@@ -350,11 +361,15 @@ impl FromSexp for FpArc {
         if let Some(xy) = i.maybe_t::<Xy>() {
             if xy.t == XyType::Start {
                 fp_arc.start = xy;
+            } else {
+                return Err(format!("unexpected point in fp_arc: {:?}", xy).into());
             }
         }
         if let Some(xy) = i.maybe_t::<Xy>() {
             if xy.t == XyType::End {
                 fp_arc.end = xy;
+            } else {
+                return Err(format!("unexpected point in fp_arc: {:?}", xy).into());
             }
         }
         if let Some(angle) = i.maybe_f_in_list("angle") {
-- 
2.43.0


From 5fcd1d9a5177b8e1bb1bb9cd642352dc89bcfc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:46 +0000
Subject: [PATCH 03/32] fix: read back the rect_delta of a pad

---
 src/footprint/de.rs  | 10 +++++++++-
 src/footprint/ser.rs |  6 +++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 43b2bda..0c56212 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -254,8 +254,16 @@ impl FromSexp for Pad {
                 pad.size = xy;
             } else if xy.t == XyType::RectDelta {
                 pad.rect_delta = Some(xy);
+            } else {
+                return Err(format!("unexpected point in pad: {:?}", xy).into());
+            }
+        }
+        if let Some(xy) = i.maybe_t::<Xy>() {
+            if xy.t == XyType::RectDelta && pad.rect_delta.is_none() {
+                pad.rect_delta = Some(xy);
+            } else {
+                return Err(format!("unexpected point in pad: {:?}", xy).into());
             }
-            // else ignore
         }
         pad.drill = i.maybe_t::<Drill>();
         if let Some(layers) = i.maybe_t::<Layers>() {
diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index a986475..bc13b88 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -200,12 +200,12 @@ impl IntoSexp for Pad {
         v.push(self.shape.into_sexp());
         v.push(self.at.into_sexp());
         v.push(self.size.into_sexp());
-        if let Some(ref drill) = self.drill {
-            v.push(drill.into_sexp());
-        }
         if let Some(ref rect_delta) = self.rect_delta {
             v.push(rect_delta.into_sexp());
         }
+        if let Some(ref drill) = self.drill {
+            v.push(drill.into_sexp());
+        }
         v.push(self.layers.into_sexp());
         if let Some(ref net) = self.net {
             v.push(net.into_sexp());
-- 
2.43.0


From 5af11fd247ffac438f2138195fbea2fcd1b6c195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:48 +0000
Subject: [PATCH 04/32] fix: write every non-zero font size

---
 src/footprint/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index bc13b88..0ee8bd0 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -71,7 +71,7 @@ impl IntoSexp for At {
 impl IntoSexp for Font {
     fn into_sexp(&self) -> Sexp {
         let mut v = Sexp::start("font");
-        if self.size.x > 0.0 || self.size.y > 0.0 {
+        if self.size.x != 0.0 || self.size.y != 0.0 {
             let mut v1 = Sexp::start("size");
             v1.push(self.size.x);
             v1.push(self.size.y);
-- 
2.43.0


From 2ccb51ba88008793e7b7b3803aa8accd1f37cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:49 +0000
Subject: [PATCH 05/32] fix: make every drill value readable after writing

---
 src/footprint/de.rs  | 2 +-
 src/footprint/ser.rs | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 0c56212..e63486e 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -187,7 +187,7 @@ impl FromSexp for Drill {
         let mut i = IterAtom::new(s, "drill")?;
         let mut drill = Drill::default();
         drill.shape = i.maybe_literal_s("oval");
-        drill.width = i.f("width")?;
+        drill.width = i.maybe_f().unwrap_or(0.0);
         drill.height = i.maybe_f().unwrap_or(drill.width);
         let offset: Offset = i.maybe_t().unwrap_or(Offset(0.0, 0.0));
         drill.offset_x = offset.0;
diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index 0ee8bd0..8c5c60c 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -3,7 +3,6 @@
 use Sexp;
 use symbolic_expressions::IntoSexp;
 use footprint::data::*;
-use std::f64;
 
 impl IntoSexp for Module {
     fn into_sexp(&self) -> Sexp {
@@ -139,10 +138,10 @@ impl IntoSexp for Drill {
         if let Some(ref s) = self.shape {
             v.push(s)
         }
-        if self.width > 0.0 {
+        if self.width != 0.0 || self.height != 0.0 {
             v.push(self.width);
         }
-        if self.height > 0.0 && (self.height - self.width).abs() > f64::EPSILON {
+        if self.height != self.width {
             v.push(self.height);
         }
         if self.offset_x != 0.0 || self.offset_y != 0.0 {
-- 
2.43.0


From 8864f43c9b6f9b296108f91a7be1a9a0dbf4b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:50 +0000
Subject: [PATCH 06/32] fix: report an empty module element instead of
 panicking

---
 src/footprint/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index e63486e..6f56702 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -459,7 +459,7 @@ impl FromSexp for Element {
                     _ => Err(format!("unknown element in module: {}", name).into()),
                 }
             }
-            Sexp::Empty => unreachable!(),
+            Sexp::Empty => Err("empty element in module".into()),
         }
     }
 }
-- 
2.43.0


From 67274a884b4d64f8bedcd9c4cc611e09424eafc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:49 +0000
Subject: [PATCH 07/32] fix: reject unknown words and repeated fills in board
 sections

---
 src/fp_lib_table.rs |  2 +-
 src/layout/de.rs    | 33 +++++++++++++++++++++++++++------
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/fp_lib_table.rs b/src/fp_lib_table.rs
index 308b23d..e017ddc 100644
--- a/src/fp_lib_table.rs
+++ b/src/fp_lib_table.rs
@@ -78,7 +78,7 @@ impl FromSexp for Lib {
         let uri = i.s_in_list("uri")?;
         let options = i.s_in_list("options")?;
         let descr = i.s_in_list("descr")?;
-        Ok(Lib {
+        i.close(Lib {
             name: name,
             type_: type_,
             uri: uri,
diff --git a/src/layout/de.rs b/src/layout/de.rs
index eaca0e1..662cf8f 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -134,7 +134,7 @@ impl FromSexp for Layer {
         let num = i.i("num")?;
         let layer = footprint::Layer::from_string(&i.s("layer")?)?;
         let layer_type = i.t("layer_type")?;
-        let hide = i.maybe_s().is_some();
+        let hide = i.maybe_literal_s("hide").is_some();
         i.close(Layer {
             num: num,
             layer: layer,
@@ -341,7 +341,11 @@ impl FromSexp for Zone {
         let layer = i.t("layer")?;
         let tstamp = i.s_in_list("tstamp")?;
         let hatch = i.t("hatch")?;
-        let priority = i.maybe_i_in_list("priority").unwrap_or(0) as u64;
+        let priority = i.maybe_i_in_list("priority").unwrap_or(0);
+        if priority < 0 {
+            return Err(format!("negative zone priority {}", priority).into());
+        }
+        let priority = priority as u64;
         let connect_pads = i.t("connect_pads")?;
         let min_thickness = i.f_in_list("min_thickness")?;
         let keepout = i.maybe_t();
@@ -356,6 +360,9 @@ impl FromSexp for Zone {
             } else if let Ok(p) = FilledPolygon::from_sexp(x) {
                 filled_polygons.push(p.0)
             } else if let Ok(p) = FillSegments::from_sexp(x) {
+                if fill_segments.is_some() {
+                    return Err("zone: more than one fill_segments".into());
+                }
                 fill_segments = Some(p.0);
             } else {
                 others.push(x.clone());
@@ -400,13 +407,22 @@ impl FromSexp for ConnectPads {
         i.close(connect_pads)
     }
 }
+
+fn parse_allowed(s: &str) -> Result<bool, SexpError> {
+    match s {
+        "allowed" => Ok(true),
+        "not_allowed" => Ok(false),
+        _ => Err(format!("unknown keepout setting {}", s).into()),
+    }
+}
+
 impl FromSexp for Keepout {
     fn from_sexp(s: &Sexp) -> Result<Keepout, SexpError> {
         let mut keepout = Keepout::default();
         let mut i = IterAtom::new(s, "keepout")?;
-        keepout.tracks = !i.s_in_list("tracks")?.starts_with("not");
-        keepout.vias = !i.s_in_list("vias")?.starts_with("not");
-        keepout.copperpour = !i.s_in_list("copperpour")?.starts_with("not");
+        keepout.tracks = parse_allowed(&i.s_in_list("tracks")?)?;
+        keepout.vias = parse_allowed(&i.s_in_list("vias")?)?;
+        keepout.copperpour = parse_allowed(&i.s_in_list("copperpour")?)?;
         i.close(keepout)
     }
 }
@@ -417,7 +433,12 @@ impl FromSexp for Fill {
         let mut fill = Fill::default();
         let mut i = IterAtom::new(s, "fill")?;
         fill.filled = i.maybe_literal_s("yes").is_some();
-        fill.segment = i.maybe_s_in_list("mode").is_some();
+        if let Some(mode) = i.maybe_s_in_list("mode") {
+            if mode != "segment" {
+                return Err(format!("unknown fill mode {}", mode).into());
+            }
+            fill.segment = true;
+        }
         fill.arc_segments = i.i_in_list("arc_segments")?;
         fill.thermal_gap = i.f_in_list("thermal_gap")?;
         fill.thermal_bridge_width = i.f_in_list("thermal_bridge_width")?;
-- 
2.43.0


From e7585c52892af9b7c283cf0d12150fdae290083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:50 +0000
Subject: [PATCH 08/32] fix: reject repeated pad settings

---
 src/footprint/de.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 6f56702..8258726 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -272,13 +272,13 @@ impl FromSexp for Pad {
         let parts = i.vec()?;
         for part in parts {
             match part {
-                Part::Net(n) => pad.set_net(n),
-                Part::SolderPasteMargin(n) => pad.solder_paste_margin = Some(n),
-                Part::SolderMaskMargin(n) => pad.solder_mask_margin = Some(n),
-                Part::Clearance(n) => pad.clearance = Some(n),
-                Part::ThermalGap(n) => pad.thermal_gap = Some(n),
-                Part::ZoneConnect(n) => pad.zone_connect = Some(n),
-                ref x => return Err(format!("pad: unknown {:?}", x).into()),
+                Part::Net(n) if pad.net.is_none() => pad.set_net(n),
+                Part::SolderPasteMargin(n) if pad.solder_paste_margin.is_none() => pad.solder_paste_margin = Some(n),
+                Part::SolderMaskMargin(n) if pad.solder_mask_margin.is_none() => pad.solder_mask_margin = Some(n),
+                Part::Clearance(n) if pad.clearance.is_none() => pad.clearance = Some(n),
+                Part::ThermalGap(n) if pad.thermal_gap.is_none() => pad.thermal_gap = Some(n),
+                Part::ZoneConnect(n) if pad.zone_connect.is_none() => pad.zone_connect = Some(n),
+                ref x => return Err(format!("pad: unknown or repeated {:?}", x).into()),
             }
         }
         Ok(pad)
-- 
2.43.0


From 87fdb10a93cbf7d9a4cc4aab10559b811d639bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:51 +0000
Subject: [PATCH 09/32] fix: report an empty list instead of panicking

---
 src/footprint/de.rs | 14 +++++++-------
 src/layout/de.rs    | 12 ++++++------
 src/lib.rs          |  7 +++++++
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 8258726..ca9fdbf 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -3,7 +3,7 @@
 use Sexp;
 use footprint;
 use footprint::data::*;
-use wrap;
+use {list_name, wrap};
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
 
@@ -133,7 +133,7 @@ where
 
 impl FromSexp for Xy {
     fn from_sexp(s: &Sexp) -> Result<Xy, SexpError> {
-        let name: &str = &s.list_name()?[..];
+        let name: &str = &list_name(s)?[..];
         let t: Result<XyType, SexpError> = match name {
             "xy" => Ok(XyType::Xy),
             "start" => Ok(XyType::Start),
@@ -198,7 +198,7 @@ impl FromSexp for Drill {
 
 impl FromSexp for Part {
     fn from_sexp(s: &Sexp) -> Result<Part, SexpError> {
-        let name = &(s.list_name()?)[..];
+        let name = &(list_name(s)?)[..];
         match name {
             "thickness" => parse_part_float(s, Part::Thickness),
             "net" => wrap(s, from_sexp, Part::Net),
@@ -408,21 +408,21 @@ impl FromSexp for Model {
 }
 
 fn parse_string_element(s: &Sexp) -> Result<String, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let r = i.s("element")?;
     i.close(r)
 }
 
 fn parse_float_element(s: &Sexp) -> Result<f64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let r = i.f("element")?;
     i.close(r)
 }
 
 fn parse_stamp_element(s: &Sexp) -> Result<i64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let s = i.s("element")?;
     let r = i64::from_str_radix(&s, 16)?;
@@ -437,7 +437,7 @@ impl FromSexp for Element {
                 _ => Err(format!("unknown element in module: {}", s).into()),
             },
             Sexp::List(_) => {
-                let name = s.list_name()?;
+                let name = list_name(s)?;
                 match &name[..] {
                     "solder_mask_margin" => wrap(s, parse_float_element, Element::SolderMaskMargin),
                     "layer" => wrap(s, from_sexp, Element::Layer),
diff --git a/src/layout/de.rs b/src/layout/de.rs
index 662cf8f..9d83239 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -5,7 +5,7 @@
 
 // from parent
 use footprint;
-use wrap;
+use {list_name, wrap};
 use Sexp;
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
@@ -190,8 +190,8 @@ impl FromSexp for NetClass {
         let mut diff_pair_width = None;
         let mut nets = vec![];
         for x in i.iter {
-            let list_name = x.list_name()?;
-            let xn = &list_name[..];
+            let name = list_name(x)?;
+            let xn = &name[..];
             match xn {
                 "add_net" => {
                     let l1 = x.named_value_s("add_net")?;
@@ -205,7 +205,7 @@ impl FromSexp for NetClass {
                 "uvia_drill" => uvia_drill = parse(x, xn)?,
                 "diff_pair_gap" => diff_pair_gap = Some(parse(x, xn)?),
                 "diff_pair_width" => diff_pair_width = Some(parse(x, xn)?),
-                _ => return Err(format!("unknown net_class field {}", list_name).into()),
+                _ => return Err(format!("unknown net_class field {}", name).into()),
             }
         }
         let net_class = NetClass {
@@ -231,7 +231,7 @@ impl FromSexp for Setup {
         let mut pcbplotparams = vec![];
         let i = IterAtom::new(s, "setup")?;
         for v in i.iter {
-            let n = v.list_name()?;
+            let n = list_name(v)?;
             if n == "pcbplotparams" {
                 let i2 = IterAtom::new(v, "pcbplotparams")?;
                 for y in i2.iter {
@@ -486,7 +486,7 @@ impl FromSexp for Layout {
         let mut layout = Layout::default();
         // TODO: read in order instead of matching on iter
         for e in i.iter {
-            match (e.list_name()?).as_str() {
+            match (list_name(e)?).as_str() {
                 "version" => layout.version = Version::from_sexp(e)?.0,
                 "host" => layout.host = from_sexp(e)?,
                 "general" => layout.general = from_sexp(e)?,
diff --git a/src/lib.rs b/src/lib.rs
index 4c7f9c2..8d196b1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -244,6 +244,13 @@ where
     Ok(wrapper(make(s)?))
 }
 
+fn list_name(s: &Sexp) -> result::Result<&String, SexpError> {
+    if s.list()?.is_empty() {
+        return Err("empty list".into());
+    }
+    s.list_name()
+}
+
 #[derive(Debug)]
 /// A bounding box
 pub struct Bound {
-- 
2.43.0


From a331595a9ea5ed8c21257e5e23bb84a3d94972c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:58 +0000
Subject: [PATCH 10/32] fix: keep left and right justification when text
 effects are flipped

---
 src/footprint/data.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index a701e10..bab4821 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -644,7 +644,8 @@ impl Flip for Effects {
     fn flip(&mut self) {
         self.justify = match self.justify {
             None => Some(Justify::Mirror),
-            Some(_) => None,
+            Some(Justify::Mirror) => None,
+            Some(ref other) => Some(other.clone()),
         }
     }
 }
-- 
2.43.0


From c4ba0b313e276fc853dff16974a23828e28de540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:59 +0000
Subject: [PATCH 11/32] fix: mirror the sweep of an arc when it is flipped

---
 src/footprint/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index bab4821..cd3ce1f 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1312,6 +1312,7 @@ impl Flip for FpArc {
     fn flip(&mut self) {
         self.start.flip();
         self.end.flip();
+        self.angle = -self.angle;
         self.layer.flip()
     }
 }
-- 
2.43.0


From 0a611b5ccfe9b04bcd3b5db11bcaebdaf596c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:01 +0000
Subject: [PATCH 12/32] fix: mirror the drill offset when a pad is flipped

---
 src/footprint/data.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index cd3ce1f..f08a565 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1030,6 +1030,9 @@ impl Flip for Pad {
     fn flip(&mut self) {
         self.at.flip();
         self.layers.flip();
+        if let Some(ref mut drill) = self.drill {
+            drill.offset_y = -drill.offset_y;
+        }
     }
 }
 
-- 
2.43.0


From 0e592fd4b5bf9fb86ab6896cc1cc7787dc8d53bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:03 +0000
Subject: [PATCH 13/32] fix: rename a symbol through its field number 1

Symbol::set_name changed whichever field was second in the list.
It panicked when the symbol had fewer than two fields or an empty name.
It now changes the field that carries number 1.
---
 src/symbol_lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index f815958..69c0a0c 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -290,13 +290,16 @@ impl Symbol {
 
     /// set the name of the symbol
     pub fn set_name(&mut self, name: &str) {
-        if char_at(&self.name, 0) == '~' {
+        if self.name.starts_with('~') {
             self.name = format!("~{}", name)
         } else {
             self.name = name.to_string()
         }
-        let field = &mut self.fields[1];
-        field.value = name.to_string()
+        for field in &mut self.fields {
+            if field.i == 1 {
+                field.value = name.to_string()
+            }
+        }
     }
 
     /// get the list of pins on the symbol
-- 
2.43.0


From d104ce052f359ff9f0eaa9425d9fcb5c38b62179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:00 +0000
Subject: [PATCH 14/32] fix: write bold symbol fields with the letter the
 reader expects

A bold field of a symbol was written with the style letter I.
The reader accepts only B or N there, so a library with a bold field could not be read back.
---
 src/symbol_lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 69c0a0c..c282bb2 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -403,7 +403,7 @@ impl fmt::Display for Field {
             self.hjustify,
             self.vjustify,
             if self.italic { "I" } else { "N" },
-            if self.bold { "I" } else { "N" },
+            if self.bold { "B" } else { "N" },
         )?;
         if self.i > 3 {
             write!(f, " \"{}\"", self.name)?
-- 
2.43.0


From 1d5cf42d203530509a5f17f6b182870692e08989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:10 +0000
Subject: [PATCH 15/32] fix: reject unknown wire types and text styles

---
 src/schematic.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 86d3170..d8b18c9 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1404,7 +1404,8 @@ fn parse_wire(p: &mut ParseState) -> Result<Wire, KicadError> {
     let t = match v[1] {
         "Notes" => WireType::Notes,
         "Bus" => WireType::Bus,
-        _ => WireType::Wire,
+        "Wire" => WireType::Wire,
+        x => return Err(format!("Unknown wire type {} at {}", x, t).into()),
     };
     p.next();
     let s = p.here();
@@ -1479,7 +1480,8 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     };
     let italic = match v[index] {
         "Italic" => true,
-        _ => false,
+        "~" => false,
+        x => return Err(format!("Unknown text style {} at {}", x, s).into()),
     };
     let thickness = i64_from_string(p, &String::from(v[index + 1]))?;
     p.next();
-- 
2.43.0


From 8cab2783c65849375eee09e99e49245bf60e7e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:11 +0000
Subject: [PATCH 16/32] fix: keep the whole name of a layer with more than one
 dot

---
 src/footprint/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index f08a565..7b3506c 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -951,7 +951,7 @@ impl Layer {
             };
             sp[1]
         } else {
-            sp[0]
+            s
         };
 
         let t = match s_t {
-- 
2.43.0


From 8f31c907e10150d105a686b935175992b3d65f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:50 +0000
Subject: [PATCH 17/32] fix: reject unknown lines in component and sheet
 sections instead of dropping them

---
 src/schematic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index d8b18c9..2d9b540 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1290,7 +1290,7 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
             Some("F") => parse_component_f(p, &mut d)?,
             Some("1") | Some("0") => parse_component_rotation(p, &mut d)?,
             Some("AR") => parse_component_ar(p, &mut d)?,
-            _ => println!("skipping unknown component line {}", s),
+            _ => return str_error(format!("unknown component line {}", s)),
         }
         p.next()
     }
@@ -1384,9 +1384,9 @@ fn parse_sheet(p: &mut ParseState) -> Result<Sheet, KicadError> {
             Some(x) => if x.starts_with('F') {
                 parse_sheet_f(p, &mut s, x)?
             } else {
-                println!("skipping unknown sheet line {}", st)
+                return str_error(format!("unknown sheet line {}", st));
             },
-            _ => println!("skipping unknown sheet line {}", st),
+            _ => return str_error(format!("unknown sheet line {}", st)),
         }
         p.next();
     }
-- 
2.43.0


From 12202a5a8cbdef269d90d41143a3d745c0b24284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:44 +0000
Subject: [PATCH 18/32] fix: report truncated schematics and symbol libraries
 as errors instead of panicking

---
 src/schematic.rs  | 3 +++
 src/symbol_lib.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/schematic.rs b/src/schematic.rs
index 2d9b540..74e0f99 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -249,6 +249,9 @@ impl ParseState {
     }
 
     fn here(&self) -> String {
+        if self.eof() {
+            return String::new();
+        }
         (self.v[self.i]).clone()
     }
 
diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index c282bb2..25febf3 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -612,6 +612,9 @@ impl ParseState {
     }
 
     fn here(&self) -> String {
+        if self.eof() {
+            return String::new();
+        }
         (self.v[self.i]).clone()
     }
 
-- 
2.43.0


From e6a5628fbe518e59e07a67edf851327d7ab9c4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:47 +0000
Subject: [PATCH 19/32] fix: reject empty columns and lines instead of
 panicking on their first character

---
 src/schematic.rs  | 3 +++
 src/symbol_lib.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/schematic.rs b/src/schematic.rs
index 74e0f99..4868afc 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1131,6 +1131,9 @@ impl fmt::Display for Text {
 
 fn char_at(s: &str, p: usize) -> char {
     let v: Vec<char> = s.chars().collect();
+    if p >= v.len() {
+        return ' ';
+    }
     v[..][p]
 }
 
diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 25febf3..4c0172b 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -660,6 +660,9 @@ fn bool_from_string(s: &str, t: &'static str, f: &'static str) -> Result<bool, K
 
 fn char_at(s: &str, p: usize) -> char {
     let v: Vec<char> = s.chars().collect();
+    if p >= v.len() {
+        return ' ';
+    }
     v[..][p]
 }
 
-- 
2.43.0


From c893c348c5520098c6324c2f5fe03c2d9e690ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:49 +0000
Subject: [PATCH 20/32] fix: reject text lines of schematics with missing or
 extra columns

---
 src/schematic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/schematic.rs b/src/schematic.rs
index 4868afc..23ca463 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1484,6 +1484,9 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     } else {
         None
     };
+    if v.len() != index + 2 {
+        return str_error(format!("unexpected elements in {}", s));
+    }
     let italic = match v[index] {
         "Italic" => true,
         "~" => false,
-- 
2.43.0


From a06d97c51ae8685325324a68dc568c5fe082a03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:50 +0000
Subject: [PATCH 21/32] fix: keep blank lines of schematics instead of
 panicking on them

---
 src/schematic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 23ca463..c3f6b49 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1564,7 +1564,7 @@ pub fn parse(filename: Option<PathBuf>, s: &str) -> Result<Schematic, KicadError
                     sch.append_text(w)
                 }
                 Some(_) => sch.append_other(p.here()),
-                None => unreachable!(),
+                None => sch.append_other(p.here()),
             }
         }
         p.next()
-- 
2.43.0


From 6a9e2fb081db3fdf899616d22131cd3fc21aa711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:51 +0000
Subject: [PATCH 22/32] fix: print symbols with less than two fields

---
 src/symbol_lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 4c0172b..e424130 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -334,7 +334,11 @@ impl Symbol {
 
 impl fmt::Display for Symbol {
     fn fmt(&self, f: &mut fmt::Formatter) -> result::Result<(), fmt::Error> {
-        writeln!(f, "# {}", &&self.fields[1].value)?;
+        let title = match self.fields.get(1) {
+            Some(field) => &field.value,
+            None => &self.name,
+        };
+        writeln!(f, "# {}", title)?;
         writeln!(f, "#")?;
         writeln!(
             f,
-- 
2.43.0


From cd1b034319780079a0b9fe3ea47aaf0813288554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:52 +0000
Subject: [PATCH 23/32] fix: accept file names that are not UTF-8

---
 src/lib.rs        | 2 +-
 src/symbol_lib.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8d196b1..6b35da0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -121,7 +121,7 @@ pub enum Expected {
 impl fmt::Display for KicadFile {
     fn fmt(&self, f: &mut fmt::Formatter) -> std::result::Result<(), fmt::Error> {
         match *self {
-            KicadFile::Unknown(ref x) => write!(f, "unknown: {}", x.to_str().unwrap()),
+            KicadFile::Unknown(ref x) => write!(f, "unknown: {}", x.display()),
             KicadFile::Module(_) => write!(f, "module"),
             KicadFile::Schematic(_) => write!(f, "schematic"),
             KicadFile::Layout(_) => write!(f, "layout"),
diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index e424130..ddf68bf 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -855,8 +855,7 @@ pub fn parse_str(s: &str) -> Result<SymbolLib, KicadError> {
 
 /// parse a file to a symbol lib
 pub fn parse_file(filename: &PathBuf) -> Result<SymbolLib, KicadError> {
-    let name = filename.to_str().unwrap();
-    let s = read_file(name)?;
+    let s = read_file(filename)?;
     parse(&s[..])
 }
 
-- 
2.43.0


From 289c1a6fd78768a5dca1238b548cb5dffdd83c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:03 +0000
Subject: [PATCH 24/32] fix: reject repeated settings in a net class instead of
 keeping the last

---
 src/layout/de.rs | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index 9d83239..1e649ba 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -180,12 +180,12 @@ impl FromSexp for NetClass {
         let mut i = IterAtom::new(s, "net_class")?;
         let name = i.s("name")?;
         let desc = i.s("desc")?;
-        let mut clearance = 0.1524;
-        let mut trace_width = 0.2032;
-        let mut via_dia = 0.675;
-        let mut via_drill = 0.25;
-        let mut uvia_dia = 0.508;
-        let mut uvia_drill = 0.127;
+        let mut clearance = None;
+        let mut trace_width = None;
+        let mut via_dia = None;
+        let mut via_drill = None;
+        let mut uvia_dia = None;
+        let mut uvia_drill = None;
         let mut diff_pair_gap = None;
         let mut diff_pair_width = None;
         let mut nets = vec![];
@@ -197,29 +197,29 @@ impl FromSexp for NetClass {
                     let l1 = x.named_value_s("add_net")?;
                     nets.push(l1)
                 }
-                "clearance" => clearance = parse(x, xn)?,
-                "trace_width" => trace_width = parse(x, xn)?,
-                "via_dia" => via_dia = parse(x, xn)?,
-                "via_drill" => via_drill = parse(x, xn)?,
-                "uvia_dia" => uvia_dia = parse(x, xn)?,
-                "uvia_drill" => uvia_drill = parse(x, xn)?,
-                "diff_pair_gap" => diff_pair_gap = Some(parse(x, xn)?),
-                "diff_pair_width" => diff_pair_width = Some(parse(x, xn)?),
-                _ => return Err(format!("unknown net_class field {}", name).into()),
+                "clearance" if clearance.is_none() => clearance = Some(parse(x, xn)?),
+                "trace_width" if trace_width.is_none() => trace_width = Some(parse(x, xn)?),
+                "via_dia" if via_dia.is_none() => via_dia = Some(parse(x, xn)?),
+                "via_drill" if via_drill.is_none() => via_drill = Some(parse(x, xn)?),
+                "uvia_dia" if uvia_dia.is_none() => uvia_dia = Some(parse(x, xn)?),
+                "uvia_drill" if uvia_drill.is_none() => uvia_drill = Some(parse(x, xn)?),
+                "diff_pair_gap" if diff_pair_gap.is_none() => diff_pair_gap = Some(parse(x, xn)?),
+                "diff_pair_width" if diff_pair_width.is_none() => diff_pair_width = Some(parse(x, xn)?),
+                _ => return Err(format!("unknown or repeated net_class field {}", name).into()),
             }
         }
         let net_class = NetClass {
             name: name,
             desc: desc,
-            clearance: clearance,
-            via_dia: via_dia,
-            via_drill: via_drill,
-            uvia_dia: uvia_dia,
-            uvia_drill: uvia_drill,
+            clearance: clearance.unwrap_or(0.1524),
+            via_dia: via_dia.unwrap_or(0.675),
+            via_drill: via_drill.unwrap_or(0.25),
+            uvia_dia: uvia_dia.unwrap_or(0.508),
+            uvia_drill: uvia_drill.unwrap_or(0.127),
             diff_pair_gap: diff_pair_gap,
             diff_pair_width: diff_pair_width,
             nets: nets.into_iter().map(|x| x.into()).collect(),
-            trace_width: trace_width,
+            trace_width: trace_width.unwrap_or(0.2032),
         };
         Ok(net_class)
     }
-- 
2.43.0


From 09d43f344ffa431180d7dd1ce5b45dfbf498dd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:04 +0000
Subject: [PATCH 25/32] fix: reject repeated sections of a board instead of
 keeping the last

---
 src/layout/de.rs | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index 1e649ba..797e243 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -484,14 +484,20 @@ impl FromSexp for Layout {
     fn from_sexp(s: &Sexp) -> Result<Layout, SexpError> {
         let i = IterAtom::new(s, "kicad_pcb")?;
         let mut layout = Layout::default();
+        let mut version = None;
+        let mut host = None;
+        let mut general = None;
+        let mut page = None;
+        let mut layers = None;
+        let mut setup = None;
         // TODO: read in order instead of matching on iter
         for e in i.iter {
             match (list_name(e)?).as_str() {
-                "version" => layout.version = Version::from_sexp(e)?.0,
-                "host" => layout.host = from_sexp(e)?,
-                "general" => layout.general = from_sexp(e)?,
-                "page" => layout.page = Page::from_sexp(e)?.0,
-                "layers" => layout.layers = LayerVec::from_sexp(e)?.0,
+                "version" if version.is_none() => version = Some(Version::from_sexp(e)?.0),
+                "host" if host.is_none() => host = Some(from_sexp(e)?),
+                "general" if general.is_none() => general = Some(from_sexp(e)?),
+                "page" if page.is_none() => page = Some(Page::from_sexp(e)?.0),
+                "layers" if layers.is_none() => layers = Some(LayerVec::from_sexp(e)?.0),
                 "module" => {
                     let module = wrap(e, from_sexp, Element::Module)?;
                     layout.elements.push(module)
@@ -536,13 +542,34 @@ impl FromSexp for Layout {
                     let g = wrap(e, from_sexp, Element::Via)?;
                     layout.elements.push(g)
                 }
-                "setup" => layout.setup = from_sexp(e)?,
+                "setup" if setup.is_none() => setup = Some(from_sexp(e)?),
+                "version" | "host" | "general" | "page" | "layers" | "setup" => {
+                    return Err(format!("repeated section {}", e).into());
+                }
                 _ => {
                     // println!("unimplemented: {}", e);
                     layout.elements.push(parse_other(e))
                 }
             }
         }
+        if let Some(version) = version {
+            layout.version = version;
+        }
+        if let Some(host) = host {
+            layout.host = host;
+        }
+        if let Some(general) = general {
+            layout.general = general;
+        }
+        if let Some(page) = page {
+            layout.page = page;
+        }
+        if let Some(layers) = layers {
+            layout.layers = layers;
+        }
+        if let Some(setup) = setup {
+            layout.setup = setup;
+        }
         Ok(layout)
     }
 }
-- 
2.43.0


From f89bb29e7964db8e9f4818874cca4e736a41c32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:19 +0000
Subject: [PATCH 26/32] fix: check symbol pins against the 100 and 50 mil grids
 that the messages name

---
 src/symbol_lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index ddf68bf..6fa9b9a 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -954,7 +954,7 @@ impl CheckFix for Pin {
         let mut v = vec![];
         let name = format!("{}:{}", self.name, self.number);
         // 4.1 Using a 100mil grid, pin origin must lie on grid nodes (IEC-60617)
-        if (self.x % 10) != 0 {
+        if (self.x % 100) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
@@ -962,7 +962,7 @@ impl CheckFix for Pin {
                 "pin x not on 100mil grid",
             ));
         }
-        if (self.y % 10) != 0 {
+        if (self.y % 100) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
@@ -971,7 +971,7 @@ impl CheckFix for Pin {
             ));
         }
         // 4.1 Pin length can be incremented in steps of 50mils (1.27mm) if required e.g. for long pin numbers
-        if (self.len % 5) != 0 {
+        if (self.len % 50) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
-- 
2.43.0


From f4bbe79ed58e268913cdde72c60205475572a9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:20 +0000
Subject: [PATCH 27/32] fix: report the font of the value and of the second
 reference under rule 7.4

---
 src/footprint/data.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index 7b3506c..27b6157 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1498,7 +1498,7 @@ impl CheckFix for Module {
             if (value.effects.font.size.y - font_size).abs() > EPSILON {
                 v.push(CheckFixData::info(
                     7,
-                    3,
+                    4,
                     name.clone(),
                     format!("value label should have height {}", font_size),
                 ));
@@ -1508,7 +1508,7 @@ impl CheckFix for Module {
             if (value.effects.font.size.x - font_size).abs() > EPSILON {
                 v.push(CheckFixData::info(
                     7,
-                    3,
+                    4,
                     name.clone(),
                     format!("value label should have width {}", font_size),
                 ));
@@ -1517,7 +1517,7 @@ impl CheckFix for Module {
             if (value.effects.font.thickness - font_thickness).abs() > EPSILON {
                 v.push(CheckFixData::info(
                     7,
-                    3,
+                    4,
                     name.clone(),
                     format!("value label thickness should be {}", font_thickness),
                 ))
@@ -1561,7 +1561,7 @@ impl CheckFix for Module {
             if (reference.effects.font.size.y - font_size).abs() > EPSILON {
                 v.push(CheckFixData::info(
                     7,
-                    3,
+                    4,
                     name.clone(),
                     format!("reference 2 label should have height {}", font_size),
                 ));
@@ -1571,7 +1571,7 @@ impl CheckFix for Module {
             if (reference.effects.font.size.x - font_size).abs() > EPSILON {
                 v.push(CheckFixData::info(
                     7,
-                    3,
+                    4,
                     name.clone(),
                     format!("reference 2 label should have width {}", font_size),
                 ));
@@ -1580,7 +1580,7 @@ impl CheckFix for Module {
             if (reference.effects.font.thickness - font_thickness).abs() > EPSILON {
                 v.push(CheckFixData::info(
                     7,
-                    3,
+                    4,
                     name.clone(),
                     format!("reference 2 label thickness should be {}", font_thickness),
                 ))
-- 
2.43.0


From ef876c6a19c48e89915f9e89ecd6ed23022c69e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:08 +0000
Subject: [PATCH 28/32] fix: order the corners of the boxes of footprint lines
 and arcs

---
 src/footprint/data.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index 27b6157..a50b23d 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1222,7 +1222,9 @@ impl Default for FpLine {
 
 impl BoundingBox for FpLine {
     fn bounding_box(&self) -> Bound {
-        Bound::new(self.start.x, self.start.y, self.end.x, self.end.y)
+        let mut b = Bound::new(self.start.x, self.start.y, self.end.x, self.end.y);
+        b.swap_if_needed();
+        b
     }
 }
 
@@ -1323,7 +1325,9 @@ impl Flip for FpArc {
 impl BoundingBox for FpArc {
     fn bounding_box(&self) -> Bound {
         // perhaps not correct
-        Bound::new(self.start.x, self.start.y, self.end.x, self.end.y)
+        let mut b = Bound::new(self.start.x, self.start.y, self.end.x, self.end.y);
+        b.swap_if_needed();
+        b
     }
 }
 
-- 
2.43.0


From c9568bcf687c7192be3e4c75a9ebd466db05c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:09 +0000
Subject: [PATCH 29/32] fix: place the box of a schematic component at its x
 coordinate

---
 src/schematic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index c3f6b49..b10114b 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -436,7 +436,7 @@ impl Default for Component {
 impl BoundingBox for Component {
     fn bounding_box(&self) -> Bound {
         debug!("Component bound calculation is poor");
-        Bound::new_from_i64(self.y, self.y, self.x, self.y)
+        Bound::new_from_i64(self.x, self.y, self.x, self.y)
     }
 }
 
-- 
2.43.0


From aaab752f8b342953af90778917cd1e5c7c5b05c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:58:25 +0000
Subject: [PATCH 30/32] fix: reject extra columns in schematic lines with a
 fixed number of columns

---
 src/lib.rs       | 10 ++++++++--
 src/schematic.rs |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6b35da0..551399d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -34,7 +34,9 @@ fn parse_split_quote_aware_int(n_opt: Option<usize>, s: &str) -> Result<Vec<Stri
         if let Some(n) = n_opt {
             if i == n {
                 // if we're in the nth. just keep collecting in current string
-                s2.push(c);
+                if c != ' ' || !s2.is_empty() {
+                    s2.push(c);
+                }
                 continue;
             }
         }
@@ -73,7 +75,11 @@ fn parse_split_quote_aware_int(n_opt: Option<usize>, s: &str) -> Result<Vec<Stri
 }
 
 fn parse_split_quote_aware_n(n: usize, s: &str) -> Result<Vec<String>, KicadError> {
-    parse_split_quote_aware_int(Some(n), s)
+    let v = parse_split_quote_aware_int(Some(n), s)?;
+    if v.len() > n {
+        return str_error(format!("unexpected elements in {}", s));
+    }
+    Ok(v)
 }
 fn parse_split_quote_aware(s: &str) -> Result<Vec<String>, KicadError> {
     parse_split_quote_aware_int(None, s)
diff --git a/src/schematic.rs b/src/schematic.rs
index b10114b..1eab73a 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -13,6 +13,7 @@ use {Bound, BoundingBox, KicadError};
 use util::read_file;
 use str_error;
 use parse_split_quote_aware;
+use parse_split_quote_aware_int;
 use parse_split_quote_aware_n;
 
 /// a Kicad schematic
@@ -1192,7 +1193,7 @@ where
 
 fn parse_description(p: &mut ParseState) -> Result<Description, KicadError> {
     let mut d = Description::default();
-    let v = parse_split_quote_aware_n(4, &p.here())?;
+    let v = parse_split_quote_aware_int(Some(4), &p.here())?;
     d.size = v[1].clone();
     d.dimx = i64_from_string(p, &v[2])?;
     d.dimy = i64_from_string(p, &v[3])?;
-- 
2.43.0


From 069bab9217c4a3c15fe5032749ea13d745a881f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:13 +0000
Subject: [PATCH 31/32] fix: reject extra columns behind $Comp and $Sheet

---
 src/schematic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 1eab73a..8e57edd 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1284,7 +1284,7 @@ fn parse_component_rotation(p: &mut ParseState, d: &mut Component) -> Result<(),
 
 fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
     let mut d = Component::default();
-    p.next();
+    assume_line!(p, "$Comp");
     loop {
         let s = p.here();
         if s == "$EndComp" {
@@ -1379,7 +1379,7 @@ fn parse_sheet_f(p: &mut ParseState, s: &mut Sheet, f: &str) -> Result<(), Kicad
 
 fn parse_sheet(p: &mut ParseState) -> Result<Sheet, KicadError> {
     let mut s = Sheet::default();
-    p.next();
+    assume_line!(p, "$Sheet");
     loop {
         let st = p.here();
         if st == "$EndSheet" {
-- 
2.43.0


From cd07c60fbd831588001289201bce1d12f8dbf1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:15 +0000
Subject: [PATCH 32/32] fix: reject unknown words in wire, connection and DEF
 lines

---
 src/schematic.rs  | 3 +++
 src/symbol_lib.rs | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/schematic.rs b/src/schematic.rs
index 8e57edd..10a5267 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1414,6 +1414,7 @@ fn parse_wire(p: &mut ParseState) -> Result<Wire, KicadError> {
         "Wire" => WireType::Wire,
         x => return Err(format!("Unknown wire type {} at {}", x, t).into()),
     };
+    assume_string("Line", v[2])?;
     p.next();
     let s = p.here();
     let v: Vec<&str> = s.split_whitespace().collect();
@@ -1440,6 +1441,7 @@ fn parse_connection(p: &mut ParseState) -> Result<Connection, KicadError> {
     if v.len() != 4 {
         return str_error(format!("expecting 4 elements in {}", s));
     }
+    assume_string("~", v[1])?;
     let x1 = i64_from_string(p, &String::from(v[2]))?;
     let y1 = i64_from_string(p, &String::from(v[3]))?;
     Ok(Connection { x: x1, y: y1 })
@@ -1452,6 +1454,7 @@ fn parse_no_connect(p: &mut ParseState) -> Result<NoConnect, KicadError> {
     if v.len() != 4 {
         return str_error(format!("expecting 4 elements in {}", s));
     }
+    assume_string("~", v[1])?;
     let x1 = i64_from_string(p, &String::from(v[2]))?;
     let y1 = i64_from_string(p, &String::from(v[3]))?;
     Ok(NoConnect { x: x1, y: y1 })
diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 6fa9b9a..8185f0e 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -679,6 +679,7 @@ fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
         return str_error(format!("unexpected elements in {}", s));
     }
     assume_string("DEF", &v[0])?;
+    assume_string("0", &v[3])?;
     let mut s = Symbol::new(v[1].clone(), v[2].clone());
     s.text_offset = f64_from_string(p, &v[4])?;
     s.draw_pinnumber = bool_from_string(&v[5], "Y", "N")?;
-- 
2.43.0

