From 93df0938a08aac0ab3c8269e0696b08d62c882ce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 01/31] fix: reparent_children moved only the first child

---
 victor/src/dom/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index b93a81d..6ebcfc6 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -202,8 +202,8 @@ impl TreeSink for Sink {
         let mut next_child = self.document[node].first_child;
         while let Some(child) = next_child {
             debug_assert_eq!(self.document[child].parent, Some(node));
+            next_child = self.document[child].next_sibling;
             self.document.append(new_parent, child);
-            next_child = self.document[child].next_sibling
         }
     }
 }
-- 
2.43.0


From 7df38dfd0436baa58c4b3fd920fae57f4b55d0b6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 02/31] fix: hang or panic when unsetting the boxes of a
 display:none subtree

The traversal did not go up more than one level and looked at the siblings
of the base element, outside of the subtree.
---
 victor/src/layout/dom_traversal.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/victor/src/layout/dom_traversal.rs b/victor/src/layout/dom_traversal.rs
index 848e89b..73a5fb1 100644
--- a/victor/src/layout/dom_traversal.rs
+++ b/victor/src/layout/dom_traversal.rs
@@ -327,18 +327,18 @@ impl Context<'_> {
             }
             let mut next_is_a_sibling_of = node_id;
             node_id = loop {
+                if next_is_a_sibling_of == base_element {
+                    // Don’t go outside the subtree
+                    return;
+                }
                 if let Some(sibling) = self.document[next_is_a_sibling_of].next_sibling {
                     break sibling;
                 } else {
-                    next_is_a_sibling_of = node
+                    next_is_a_sibling_of = self.document[next_is_a_sibling_of]
                         .parent
                         .expect("reached the root while traversing only a subtree");
                 }
             };
-            if next_is_a_sibling_of == base_element {
-                // Don’t go outside the subtree
-                return;
-            }
         }
     }
 }
-- 
2.43.0


From c2a4200e4b5a05a2a48822ecefec2b8adb68d363 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 03/31] fix: panic on a block-level box inside an inline box

ongoing_inline_boxes_stack still holds the (now emptied) inline boxes being split.
---
 victor/src/layout/flow/construct.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 4acfc93..4729d5d 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -470,11 +470,6 @@ impl<'a> BlockContainerBuilder<'a> {
     }
 
     fn end_ongoing_inline_formatting_context(&mut self) {
-        assert!(
-            self.ongoing_inline_boxes_stack.is_empty(),
-            "there should be no ongoing inline level boxes",
-        );
-
         if self
             .ongoing_inline_formatting_context
             .inline_level_boxes
-- 
2.43.0


From a47bb2a0d9e64b9c960e29d4d06125c6ed203142 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 04/31] fix: class selectors ignored elements with more than
 one class

---
 victor/src/style/selectors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/victor/src/style/selectors.rs b/victor/src/style/selectors.rs
index 07228b6..55a3417 100644
--- a/victor/src/style/selectors.rs
+++ b/victor/src/style/selectors.rs
@@ -232,7 +232,8 @@ impl<'a> selectors::Element for NodeRef<'a> {
             .unwrap()
             .get_attr(&local_name!("class"))
             .map_or(false, |attr| {
-                case_sensitivity.eq(class.as_bytes(), attr.as_bytes())
+                attr.split_ascii_whitespace()
+                    .any(|c| case_sensitivity.eq(class.as_bytes(), c.as_bytes()))
             })
     }
 
-- 
2.43.0


From 5cf0e15c272bd0a369a0212c4ec98e3b1b769a07 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 05/31] =?UTF-8?q?fix:=20vertical=20offsets=20of=20abspos?=
 =?UTF-8?q?=20boxes=20were=20relative=20to=20the=20containing=20block?=
 =?UTF-8?q?=E2=80=99s=20width?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 victor/src/layout/positioned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index 9794d1a..9fa376a 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -217,7 +217,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         );
 
         let (block_anchor, block_size, margin_block_start, margin_block_end) = solve_axis(
-            cbis,
+            cbbs,
             pb.block_sum(),
             computed_margin.block_start,
             computed_margin.block_end,
-- 
2.43.0


From f28c76ae066cc35aeb0745f684f460af9f452b29 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 06/31] =?UTF-8?q?fix:=20right-anchored=20abspos=20boxes=20?=
 =?UTF-8?q?were=20placed=20relative=20to=20the=20containing=20block?=
 =?UTF-8?q?=E2=80=99s=20height?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 victor/src/layout/positioned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index 9fa376a..fa65ed2 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -263,7 +263,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
 
         let inline_start = match inline_anchor {
             Anchor::Start(start) => start + pb.inline_start + margin.inline_start,
-            Anchor::End(end) => cbbs - end - pb.inline_end - margin.inline_end - inline_size,
+            Anchor::End(end) => cbis - end - pb.inline_end - margin.inline_end - inline_size,
         };
 
         let block_size = block_size.auto_is(|| flow_children.block_size);
-- 
2.43.0


From 0c0c521dc1e62960156fc3825054473683f2e820 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 07/31] fix: panic on a declaration with trailing tokens after
 a valid value

---
 victor/src/style/declaration_block.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/victor/src/style/declaration_block.rs b/victor/src/style/declaration_block.rs
index 68699de..47feb30 100644
--- a/victor/src/style/declaration_block.rs
+++ b/victor/src/style/declaration_block.rs
@@ -100,6 +100,11 @@ impl<'i> DeclarationParser<'i> for LonghandDeclarationParser {
                 parsed = (data.parse)(parser, &mut self.block.declarations)?
             }
             let important = parser.r#try(cssparser::parse_important).is_ok();
+            if let Err(error) = parser.expect_exhausted() {
+                // Trailing tokens make the whole declaration invalid.
+                self.block.declarations.truncate(previous_len);
+                return Err(error.into());
+            }
             let count = self.block.declarations.len() - previous_len;
             assert!(count > 0);
             self.block.important.extend(repeat(important).take(count));
-- 
2.43.0


From bcf9497b82b53f0a1d01de381f3c175628ad85be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 08/31] fix: border-right-color was named border-color-right

---
 victor/src/style/properties/definitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/style/properties/definitions.rs b/victor/src/style/properties/definitions.rs
index ad414d2..2568cfe 100644
--- a/victor/src/style/properties/definitions.rs
+++ b/victor/src/style/properties/definitions.rs
@@ -43,7 +43,7 @@ properties! {
         border_top_color { "border-top-color", Color, initial = Color::CurrentColor }
         border_left_color { "border-left-color", Color, initial = Color::CurrentColor }
         border_bottom_color { "border-bottom-color", Color, initial = Color::CurrentColor }
-        border_right_color { "border-color-right", Color, initial = Color::CurrentColor }
+        border_right_color { "border-right-color", Color, initial = Color::CurrentColor }
 
         border_top_style { "border-top-style", LineStyle, initial = LineStyle::None }
         border_left_style { "border-left-style", LineStyle, initial = LineStyle::None }
-- 
2.43.0


From 88cec479a0567192c71b3f81076f66b7eb902fb6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 09/31] fix: CSS keywords are ASCII case-insensitive

---
 proc-macros/src/style.rs        | 2 +-
 victor/src/style/values/box_.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/style.rs b/proc-macros/src/style.rs
index 901ac09..bf615e5 100644
--- a/proc-macros/src/style.rs
+++ b/proc-macros/src/style.rs
@@ -158,7 +158,7 @@ pub fn derive_parse(input: TokenStream) -> TokenStream {
     if !unit_variants.is_empty() {
         parse.extend(quote! {
             if let Ok(ident) = parser.r#try(|parser| parser.expect_ident_cloned()) {
-                match &*ident {
+                match &*ident.to_ascii_lowercase() {
                     #(
                         #keywords => return Ok(#unit_variants),
                     )*
diff --git a/victor/src/style/values/box_.rs b/victor/src/style/values/box_.rs
index 4a5184d..7d5fd2a 100644
--- a/victor/src/style/values/box_.rs
+++ b/victor/src/style/values/box_.rs
@@ -78,7 +78,7 @@ impl Display {
 impl super::Parse for Display {
     fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> Result<Self, PropertyParseError<'i>> {
         let ident = parser.expect_ident()?;
-        match &**ident {
+        match &*ident.to_ascii_lowercase() {
             "none" => Ok(Display::None),
             "contents" => Ok(Display::Contents),
             "block" => Ok(Display::GeneratingBox(
-- 
2.43.0


From 28d6f2adf91ed9f7f4be6ba222ffddd5186f08b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 10/31] fix: style sheets apply in tree order, only if in the
 document, and with type=""

---
 victor/src/dom/html.rs |  9 ++-------
 victor/src/dom/mod.rs  | 14 ++++++++------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index 6ebcfc6..51f5916 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -106,17 +106,12 @@ impl TreeSink for Sink {
             ..
         }: ElementFlags,
     ) -> NodeId {
-        let is_style = name.expanded() == expanded_name!(html "style");
-        let element = self.new_node(NodeData::Element(ElementData {
+        self.new_node(NodeData::Element(ElementData {
             name,
             attrs: attrs.into_iter().map(Attribute::from).collect(),
             mathml_annotation_xml_integration_point,
             layout_data: Default::default(),
-        }));
-        if is_style {
-            self.document.style_elements.push(element)
-        }
-        element
+        }))
     }
 
     fn create_comment(&mut self, text: StrTendril) -> NodeId {
diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index 8603d44..bf98f4a 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -13,7 +13,6 @@ pub use self::xml::XmlError;
 
 pub struct Document {
     nodes: Vec<Node>,
-    style_elements: Vec<NodeId>,
 }
 
 pub struct Node {
@@ -36,7 +35,6 @@ impl Document {
         let document_node = Node::new(NodeData::Document);
         Document {
             nodes: vec![dummy, document_node],
-            style_elements: Vec::new(),
         }
     }
 
@@ -46,11 +44,15 @@ impl Document {
 
     pub(crate) fn parse_stylesheets(&self) -> StyleSet {
         let mut style_set = StyleSetBuilder::new();
-        for &id in &self.style_elements {
-            let element = &self[id];
+        // Only elements that are in the document, in tree order
+        for id in self.nodes() {
+            let element = match self[id].as_element() {
+                Some(e) if e.name.expanded() == expanded_name!(html "style") => e,
+                _ => continue,
+            };
             // https://html.spec.whatwg.org/multipage/semantics.html#update-a-style-block
-            if let Some(type_attr) = element.as_element().unwrap().get_attr(&local_name!("type")) {
-                if !type_attr.eq_ignore_ascii_case("text/css") {
+            if let Some(type_attr) = element.get_attr(&local_name!("type")) {
+                if !type_attr.is_empty() && !type_attr.eq_ignore_ascii_case("text/css") {
                     continue;
                 }
             }
-- 
2.43.0


From d8231dd3fdc6a5cd042b3c26731df23857543f26 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 11/31] fix: static positions of abspos boxes ignored the
 padding of their containing block

---
 victor/src/layout/flow/mod.rs   |  2 +-
 victor/src/layout/positioned.rs | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index a810dfb..ba43573 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -420,7 +420,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     };
     if style.box_.position.is_relatively_positioned() {
         AbsolutelyPositionedFragment::in_positioned_containing_block(
-            &nested_abspos,
+            &mut nested_abspos,
             &mut flow_children.fragments,
             &content_rect.size,
             &padding,
diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index fa65ed2..a55ab7f 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -83,7 +83,7 @@ impl AbsolutelyPositionedBox {
 
 impl<'a> AbsolutelyPositionedFragment<'a> {
     pub(super) fn in_positioned_containing_block(
-        absolute: &[Self],
+        absolute: &mut [Self],
         fragments: &mut Vec<Fragment>,
         content_rect_size: &Vec2<Length>,
         padding: &Sides<Length>,
@@ -98,6 +98,15 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
             start_corner: Vec2::zero(),
         }
         .inflate(&padding);
+        // Static positions are relative to the content rect
+        for a in absolute.iter_mut() {
+            if let AbsoluteBoxOffsets::StaticStart { start } = &mut a.inline_start {
+                *start -= padding_rect.start_corner.inline;
+            }
+            if let AbsoluteBoxOffsets::StaticStart { start } = &mut a.block_start {
+                *start -= padding_rect.start_corner.block;
+            }
+        }
         let containing_block = DefiniteContainingBlock {
             size: padding_rect.size.clone(),
             mode,
@@ -284,7 +293,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         };
 
         AbsolutelyPositionedFragment::in_positioned_containing_block(
-            &absolutely_positioned_fragments,
+            &mut absolutely_positioned_fragments,
             &mut flow_children.fragments,
             &content_rect.size,
             &padding,
-- 
2.43.0


From 0912902f235ee195d4b78b987bfe6a56a9c3ba13 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 12/31] fix: percentages of relative offsets were relative to
 the box itself

---
 victor/src/layout/flow/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index ba43573..457fc1c 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -406,7 +406,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
             && flow_children
                 .collapsible_margins_in_children
                 .collapsed_through;
-    let relative_adjustement = relative_adjustement(style, inline_size, block_size);
+    let relative_adjustement = relative_adjustement(style, cbis, containing_block.block_size);
     let block_size = block_size.auto_is(|| flow_children.block_size);
     let content_rect = Rect {
         start_corner: Vec2 {
-- 
2.43.0


From 6eccb77b03a853f6462316269dbddd5981ad052d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 13/31] fix: an auto margin opposite to a specified one, or
 with no space left, broke the width equation

---
 victor/src/layout/flow/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index 457fc1c..5832cbb 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -322,20 +322,20 @@ fn layout_in_flow_non_replaced_block_level<'a>(
             &mut computed_margin.inline_start,
             &mut computed_margin.inline_end,
         ) {
-            (s @ &mut Auto, e @ &mut Auto) => {
+            (s @ &mut Auto, e @ &mut Auto) if inline_margins.px > 0. => {
                 *s = Length(inline_margins / 2.);
                 *e = Length(inline_margins / 2.);
             }
-            (s @ &mut Auto, _) => {
-                *s = Length(inline_margins);
+            (s @ &mut Auto, &mut Length(e)) if (inline_margins - e).px > 0. => {
+                *s = Length(inline_margins - e);
             }
-            (_, e @ &mut Auto) => {
-                *e = Length(inline_margins);
-            }
-            (_, e @ _) => {
+            (s, e) => {
                 // Either the inline-end margin is auto,
                 // or we’re over-constrained and we do as if it were.
-                *e = Length(inline_margins);
+                // Other auto margins are zero.
+                let start = s.auto_is(crate::geom::Length::zero);
+                *s = Length(start);
+                *e = Length(inline_margins - start);
             }
         }
     }
-- 
2.43.0


From 5cf939218101c1160693d23e49d61c300e59fc07 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 14/31] fix: the width of nested inline boxes included the
 space before them

---
 victor/src/layout/flow/inline.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 5c39bb9..e52fe1b 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -233,7 +233,7 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
             children: take(&mut nesting_level.fragments_so_far),
             content_rect: Rect {
                 size: Vec2 {
-                    inline: *inline_position - self.start_corner.inline,
+                    inline: *inline_position - nesting_level.inline_start,
                     block: nesting_level.max_block_size_of_fragments_so_far,
                 },
                 start_corner: self.start_corner.clone(),
@@ -325,19 +325,19 @@ impl TextRun {
                 break;
             } else {
                 // New line
-                ifc.current_nesting_level.inline_start = Length::zero();
                 let mut nesting_level = &mut ifc.current_nesting_level;
                 for partial in ifc.partial_inline_boxes_stack.iter_mut().rev() {
                     partial.finish_layout(nesting_level, &mut ifc.inline_position, true);
+                    nesting_level.inline_start = Length::zero();
                     partial.start_corner.inline = Length::zero();
                     partial.padding.inline_start = Length::zero();
                     partial.border.inline_start = Length::zero();
                     partial.margin.inline_start = Length::zero();
-                    partial.parent_nesting_level.inline_start = Length::zero();
                     nesting_level = &mut partial.parent_nesting_level;
                 }
                 ifc.line_boxes
                     .finish_line(nesting_level, ifc.containing_block);
+                nesting_level.inline_start = Length::zero();
                 ifc.inline_position = Length::zero();
             }
         }
-- 
2.43.0


From ab721e0f271f216a1a495c7424dfd376ecf5d634 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 15/31] fix: the horizontal shift of a relatively positioned
 inline box was lost after a line break

---
 victor/src/layout/flow/inline.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index e52fe1b..f64a82b 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -45,6 +45,7 @@ struct InlineNestingLevelState<'box_tree> {
 struct PartialInlineBoxFragment<'box_tree> {
     style: Arc<ComputedValues>,
     start_corner: Vec2<Length>,
+    relative_adjustement_inline: Length,
     padding: Sides<Length>,
     border: Sides<Length>,
     margin: Sides<Length>,
@@ -196,14 +197,16 @@ impl InlineBox {
             block: padding.block_start + border.block_start + margin.block_start,
             inline: ifc.inline_position - ifc.current_nesting_level.inline_start,
         };
-        start_corner += &relative_adjustement(
+        let relative_adjustement = relative_adjustement(
             &style,
             ifc.containing_block.inline_size,
             ifc.containing_block.block_size,
         );
+        start_corner += &relative_adjustement;
         PartialInlineBoxFragment {
             style,
             start_corner,
+            relative_adjustement_inline: relative_adjustement.inline,
             padding,
             border,
             margin,
@@ -329,7 +332,7 @@ impl TextRun {
                 for partial in ifc.partial_inline_boxes_stack.iter_mut().rev() {
                     partial.finish_layout(nesting_level, &mut ifc.inline_position, true);
                     nesting_level.inline_start = Length::zero();
-                    partial.start_corner.inline = Length::zero();
+                    partial.start_corner.inline = partial.relative_adjustement_inline;
                     partial.padding.inline_start = Length::zero();
                     partial.border.inline_start = Length::zero();
                     partial.margin.inline_start = Length::zero();
-- 
2.43.0


From c2a796c5ecbdbf6136e0ec9821e87c7c6b214341 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 16/31] fix: the height of an inline box depended on its
 previous lines

---
 victor/src/layout/flow/inline.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index f64a82b..347686a 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -237,7 +237,10 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
             content_rect: Rect {
                 size: Vec2 {
                     inline: *inline_position - nesting_level.inline_start,
-                    block: nesting_level.max_block_size_of_fragments_so_far,
+                    block: std::mem::replace(
+                        &mut nesting_level.max_block_size_of_fragments_so_far,
+                        Length::zero(),
+                    ),
                 },
                 start_corner: self.start_corner.clone(),
             },
-- 
2.43.0


From 4e0a3ab6b86ece4c61059caa3847b88d60be09d7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 17/31] fix: every line of a text run was limited to the space
 left on its first line

---
 victor/src/layout/flow/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 347686a..cb1d65f 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -275,9 +275,9 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
 
 impl TextRun {
     fn layout(&self, ifc: &mut InlineFormattingContextState) {
-        let available = ifc.containing_block.inline_size - ifc.inline_position;
         let mut chars = self.text.chars();
         loop {
+            let available = ifc.containing_block.inline_size - ifc.inline_position;
             let mut shaped = ShapedSegment::new_with_naive_shaping(BITSTREAM_VERA_SANS.clone());
             let mut last_break_opportunity = None;
             loop {
-- 
2.43.0


From c789e4e234a438c7e0ad28a7cdad34dc4820c4f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 18/31] fix: white space at the start of an inline box was
 always collapsed

---
 victor/src/layout/flow/construct.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 4729d5d..bb8fb0f 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -267,8 +267,18 @@ impl<'a> BlockContainerBuilder<'a> {
         if !text.starts_with(|c: char| c.is_ascii_whitespace()) {
             return (false, text);
         }
-        let mut inline_level_boxes = self.current_inline_level_boxes().iter().rev();
-        let mut stack = Vec::new();
+        // Also look at what comes before the ongoing inline boxes
+        let mut stack = vec![self
+            .ongoing_inline_formatting_context
+            .inline_level_boxes
+            .iter()
+            .rev()];
+        stack.extend(
+            self.ongoing_inline_boxes_stack
+                .iter()
+                .map(|ongoing| ongoing.children.iter().rev()),
+        );
+        let mut inline_level_boxes = stack.pop().unwrap();
         let preserved = loop {
             match inline_level_boxes.next().map(|b| &**b) {
                 Some(InlineLevelBox::TextRun(r)) => break !r.text.ends_with(' '),
-- 
2.43.0


From 6356143d8a6920a777ab358e8d25aff2c27d80de Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 19/31] fix: text next to a display:contents element was merged
 into one style

---
 victor/src/layout/flow/construct.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index bb8fb0f..431dd7a 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -200,9 +200,16 @@ impl<'a> TraversalHandler<'a> for BlockContainerBuilder<'a> {
             // context with the parent style of that builder.
             let inlines = self.current_inline_level_boxes();
 
-            fn last_text(inlines: &mut [Arc<InlineLevelBox>]) -> Option<&mut String> {
+            fn last_text<'b>(
+                inlines: &'b mut [Arc<InlineLevelBox>],
+                style: &Arc<ComputedValues>,
+            ) -> Option<&'b mut String> {
                 let last = inlines.last_mut()?;
-                if let InlineLevelBox::TextRun(_) = &**last {
+                if let InlineLevelBox::TextRun(run) = &**last {
+                    if !Arc::ptr_eq(&run.parent_style, style) {
+                        // Text of a `display: contents` element, or next to one
+                        return None;
+                    }
                     // We never clone text run boxes, so the refcount is 1 and unwrap succeeds:
                     let last = Arc::get_mut(last).unwrap();
                     if let InlineLevelBox::TextRun(TextRun { text, .. }) = last {
@@ -217,7 +224,7 @@ impl<'a> TraversalHandler<'a> for BlockContainerBuilder<'a> {
 
             let mut new_text_run_contents;
             let output;
-            if let Some(text) = last_text(inlines) {
+            if let Some(text) = last_text(inlines, parent_style) {
                 // Append to the existing text run
                 new_text_run_contents = None;
                 output = text;
-- 
2.43.0


From 8c626c99b357cb96cd935703d22f6a58a4a68afc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 20/31] fix: very small, very large, and non-finite numbers
 were not in PDF syntax

---
 victor/src/pdf/object.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 1e17745..d51457c 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -153,7 +153,7 @@ impl<'a> Object<'a> {
             // https://www.adobe.com/content/dam/acom/en/devnet/pdf/PDF32000_2008.pdf#G6.1965566
             Object::I32(value) => itoa::write(w, value).map(|_| ()),
             Object::Usize(value) => itoa::write(w, value).map(|_| ()),
-            Object::Float(value) => dtoa::write(w, value).map(|_| ()),
+            Object::Float(value) => write_float(value, w),
             Object::Name(value) => write_name(value, w),
             Object::Dictionary(ref value) => value.write(w),
             Object::LiteralString(value) => {
@@ -231,6 +231,21 @@ impl<'a> Dictionary<'a> {
     }
 }
 
+fn write_float<W: Write>(value: f32, w: &mut W) -> io::Result<()> {
+    // PDF has no notation for exponents, infinities, or NaN
+    let value = if value.is_nan() {
+        0.
+    } else {
+        value.max(std::f32::MIN).min(std::f32::MAX)
+    };
+    let abs = value.abs();
+    if abs == 0. || (abs >= 1e-5 && abs < 1e16) {
+        dtoa::write(w, value).map(|_| ())
+    } else {
+        write!(w, "{}", value)
+    }
+}
+
 fn write_hex<W: Write>(byte: u8, w: &mut W) -> io::Result<()> {
     const HEX_DIGITS: [u8; 16] = *b"0123456789ABCDEF";
     w.write_all(&[
-- 
2.43.0


From f380d5a6f8e4941da0720cd618be9fa502e0381b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 21/31] fix: number signs in PDF names were not escaped

---
 victor/src/pdf/object.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index d51457c..2a594f0 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -280,7 +280,7 @@ enum CharKind {
 kind = ['r'] * 256
 for byte in [0, 0x09, 0x0A, 0x0C, 0x0D, 0x20]:
     kind[byte] = 'W'
-for char in "()<>[]{}/%":
+for char in "()<>[]{}/%#":  # '#' is the escape character of names
     kind[ord(char)] = 'D'
 
 for line in range(32):
@@ -301,7 +301,7 @@ static KIND: [CharKind; 256] = {
         r, W, W, r, W, W, r, r, // \x08 \t \n \x0b \x0c \r \x0e \x0f
         r, r, r, r, r, r, r, r, // \x10 …
         r, r, r, r, r, r, r, r, // \x18 …
-        W, r, r, r, r, D, r, r, //   ! " # $ % & '
+        W, r, r, D, r, D, r, r, //   ! " # $ % & '
         D, D, r, r, r, r, r, D, // ( ) * + , - . /
         r, r, r, r, r, r, r, r, // 0 1 2 3 4 5 6 7
         r, r, r, r, D, r, D, r, // 8 9 : ; < = > ?
-- 
2.43.0


From ffb05c1fb7d7c7c8d8769ed0e184074db1223af7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 22/31] fix: carriage returns in PDF strings were not escaped

---
 victor/src/pdf/object.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 2a594f0..bcbf144 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -161,6 +161,8 @@ impl<'a> Object<'a> {
                 for &byte in value {
                     match byte {
                         b'\\' | b'(' | b')' => w.write_all(&[b'\\', byte])?,
+                        // An unescaped carriage return would be read as a line feed
+                        b'\r' => w.write_all(b"\\r")?,
                         _ => w.write_all(&[byte])?,
                     }
                 }
-- 
2.43.0


From 235efb334cef9d5d53a76049a294af61a7024c78 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 23/31] fix: write errors at the end of a PDF file were ignored

---
 victor/src/pdf/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/victor/src/pdf/mod.rs b/victor/src/pdf/mod.rs
index f5636a7..33d7d21 100644
--- a/victor/src/pdf/mod.rs
+++ b/victor/src/pdf/mod.rs
@@ -33,7 +33,10 @@ impl Document {
 
     /// Encode this document to PDF and write it into the file with the given name.
     pub fn write_to_pdf_file<P: AsRef<path::Path>>(&self, filename: P) -> Result<(), io::Error> {
-        self.write_to_pdf(&mut io::BufWriter::new(fs::File::create(filename)?))
+        let mut stream = io::BufWriter::new(fs::File::create(filename)?);
+        self.write_to_pdf(&mut stream)?;
+        // Dropping a `BufWriter` would ignore errors
+        stream.flush()
     }
 
     /// Encode this document to PDF and return a vector of bytes
-- 
2.43.0


From 3a7ad754fa3b79fdbd5a95033a38381eb053f635 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 24/31] fix: blank page after a text that fills its last page

---
 victor/src/text_plain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/victor/src/text_plain.rs b/victor/src/text_plain.rs
index 7061da5..e1d4225 100644
--- a/victor/src/text_plain.rs
+++ b/victor/src/text_plain.rs
@@ -125,6 +125,10 @@ pub fn layout(text: &str, style: &Style) -> Result<Document, FontError> {
             y += line_height;
             if y > max_y {
                 // We’ve reached the bottom of the page
+                match segments.next() {
+                    Some(item) => segments.rewind(item),
+                    None => break 'pages,
+                }
                 break;
             }
         }
-- 
2.43.0


From 9a41cd75852eea105042c5a17b8f6549ccba4b0e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 25/31] fix: write errors at the end of a PNG file were ignored

---
 lester/src/cairo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lester/src/cairo.rs b/lester/src/cairo.rs
index 07955dd..8495855 100644
--- a/lester/src/cairo.rs
+++ b/lester/src/cairo.rs
@@ -133,7 +133,10 @@ impl ImageSurface {
 
     /// Encode this image to PNG and write it into the file with the given name.
     pub fn write_to_png_file<P: AsRef<path::Path>>(&self, filename: P) -> Result<(), LesterError> {
-        self.write_to_png(io::BufWriter::new(fs::File::create(filename)?))
+        let mut stream = io::BufWriter::new(fs::File::create(filename)?);
+        self.write_to_png(&mut stream)?;
+        // Dropping a `BufWriter` would ignore errors
+        Ok(stream.flush()?)
     }
 }
 
-- 
2.43.0


From ec958b3bd2c1ce88dabcdf122cac17e658610df2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 26/31] fix: backwards iteration of font data started one past
 the end and missed the first item

---
 victor/src/fonts/parsing.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/victor/src/fonts/parsing.rs b/victor/src/fonts/parsing.rs
index 580ad9d..9afba31 100644
--- a/victor/src/fonts/parsing.rs
+++ b/victor/src/fonts/parsing.rs
@@ -275,13 +275,12 @@ impl<T> Iterator for SliceIter<T> {
 impl<T> DoubleEndedIterator for SliceIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         if self.start != self.end {
-            let next = self.end;
-            let byte_position = next.byte_position - mem::size_of::<T>() as u32;
+            let byte_position = self.end.byte_position - mem::size_of::<T>() as u32;
             self.end = Position {
                 byte_position,
                 ty: PhantomData,
             };
-            Some(next)
+            Some(self.end)
         } else {
             None
         }
-- 
2.43.0


From c60f4a4767b6d9a785487c38931155af9d430735 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 27/31] fix: integer overflow on large offsets in fonts

---
 victor/src/fonts/parsing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/victor/src/fonts/parsing.rs b/victor/src/fonts/parsing.rs
index 9afba31..df67aff 100644
--- a/victor/src/fonts/parsing.rs
+++ b/victor/src/fonts/parsing.rs
@@ -44,13 +44,14 @@ impl<T> Position<T> {
 
     pub(in crate::fonts) fn offset_bytes<U, O: Into<u32>>(self, by: O) -> Position<U> {
         Position {
-            byte_position: self.byte_position + by.into(),
+            // Saturated positions are beyond EOF
+            byte_position: self.byte_position.saturating_add(by.into()),
             ty: PhantomData,
         }
     }
 
     pub(in crate::fonts) fn offset<O: Into<u32>>(self, by: O) -> Position<T> {
-        self.offset_bytes(mem::size_of::<T>() as u32 * by.into())
+        self.offset_bytes((mem::size_of::<T>() as u32).saturating_mul(by.into()))
     }
 
     pub(in crate::fonts) fn followed_by<U>(self) -> Position<U> {
-- 
2.43.0


From 294e15ee31ad1ab778390df2b4c412b9270a26d3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 28/31] fix: panics and very long loops on malformed character
 maps, glyph IDs truncated in ToUnicode

---
 victor/src/fonts/cmap.rs | 45 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/victor/src/fonts/cmap.rs b/victor/src/fonts/cmap.rs
index 3e3d729..034aecb 100644
--- a/victor/src/fonts/cmap.rs
+++ b/victor/src/fonts/cmap.rs
@@ -131,22 +131,20 @@ impl Format4 {
     where
         F: FnMut(u32, u16),
     {
+        // In a valid font segments are sorted, go through every code point only once anyway.
+        let mut first_unseen: u32 = 0;
         for segment_index in 0..self.segment_count {
-            let start_code = self.start_codes.offset(segment_index).read_from(bytes)?;
-            let end_code = self.end_codes.offset(segment_index).read_from(bytes)?;
-            let mut code_point = start_code;
-            loop {
+            let start_code: u16 = self.start_codes.offset(segment_index).read_from(bytes)?;
+            let end_code: u16 = self.end_codes.offset(segment_index).read_from(bytes)?;
+            for code_point in first_unseen.max(start_code.into())..=end_code.into() {
+                let code_point = code_point as u16;
                 if let Some(glyph_id) =
                     self.glyph_id(bytes, segment_index, start_code, code_point)?
                 {
                     f(u32::from(code_point), glyph_id)
                 }
-
-                if code_point == end_code {
-                    break;
-                }
-                code_point += 1
             }
+            first_unseen = first_unseen.max(u32::from(end_code) + 1);
         }
         Ok(())
     }
@@ -214,8 +212,10 @@ impl Format12 {
 
         if let Some(index) = result? {
             let group = self.groups.get_unchecked(index);
-            let id32 = group.start_glyph_id().read_from(bytes)?
-                + (code_point - group.start_char_code().read_from(bytes)?);
+            let id32: u32 = group
+                .start_glyph_id()
+                .read_from(bytes)?
+                .saturating_add(code_point - group.start_char_code().read_from(bytes)?);
             // Glyph IDs are 16 bits in PDF.
             // For now, pretend that glyphs with larger IDs are missing.
             // FIXME: Maybe this will be unnecessary with PDF font subsetting?
@@ -231,20 +231,21 @@ impl Format12 {
     where
         F: FnMut(u32, u16),
     {
+        // In a valid font groups are sorted, go through every code point only once anyway.
+        let mut first_unseen: u32 = 0;
         for group in self.groups {
-            let start_code = group.start_char_code().read_from(bytes)?;
-            let end_code = group.end_char_code().read_from(bytes)?;
-            let start_glyph_id = group.start_glyph_id().read_from(bytes)?;
-            let mut code_point = start_code;
-            loop {
-                let glyph_id = (code_point - start_code) + start_glyph_id;
-                f(code_point, glyph_id as u16);
-
-                if code_point == end_code {
-                    break;
+            let start_code: u32 = group.start_char_code().read_from(bytes)?;
+            let end_code: u32 = group.end_char_code().read_from(bytes)?;
+            let end_code = end_code.min(char::MAX.into());
+            let start_glyph_id: u32 = group.start_glyph_id().read_from(bytes)?;
+            for code_point in first_unseen.max(start_code)..=end_code {
+                let glyph_id = (code_point - start_code).saturating_add(start_glyph_id);
+                // Same as in `get`
+                if glyph_id <= 0xFFFF {
+                    f(code_point, glyph_id as u16);
                 }
-                code_point += 1;
             }
+            first_unseen = first_unseen.max(end_code + 1);
         }
         Ok(())
     }
-- 
2.43.0


From e5129d9472df1b420cbfee858368f2eaadd5dc23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 29/31] Hook for verification: serialization of PDF names and
 strings, behind --cfg victor_verif

---
 victor/src/pdf/mod.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/victor/src/pdf/mod.rs b/victor/src/pdf/mod.rs
index 33d7d21..577b13b 100644
--- a/victor/src/pdf/mod.rs
+++ b/victor/src/pdf/mod.rs
@@ -75,3 +75,20 @@ impl<'doc> Page<'doc> {
         Ok(self)
     }
 }
+
+/// Serialize a PDF name (without its slash), literal string, or hexadecimal string.
+///
+/// For the verification harness only: the public API cannot reach every byte in each of these.
+#[cfg(victor_verif)]
+pub fn verif_serialize(kind: &str, bytes: &[u8]) -> Vec<u8> {
+    let mut serialized = Vec::new();
+    let object = match kind {
+        "name" => object::Object::Name(bytes),
+        "string" => object::Object::LiteralString(bytes),
+        "hex" => object::Object::HexString(bytes),
+        _ => panic!("unknown kind of object"),
+    };
+    // Writing to a vector does not fail
+    object.write(&mut serialized).unwrap();
+    serialized
+}
-- 
2.43.0


From 6b9e411f1b1732d27de94426c1c304ae176e96a1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 30/31] fix: accept only one root element in XML, a second one
 made rendering panic

---
 victor/src/dom/xml.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/victor/src/dom/xml.rs b/victor/src/dom/xml.rs
index 400ccc4..af555f4 100644
--- a/victor/src/dom/xml.rs
+++ b/victor/src/dom/xml.rs
@@ -6,11 +6,21 @@ impl Document {
         let mut document = Document::new();
         let mut current = Document::document_node_id();
         let mut ancestors = Vec::new();
-        for event in xml_rs::EventReader::new(utf8_bytes) {
-            match event.map_err(XmlError)? {
+        let mut has_root_element = false;
+        let mut reader = xml_rs::EventReader::new(utf8_bytes);
+        loop {
+            match reader.next().map_err(XmlError)? {
                 XmlEvent::StartElement {
                     name, attributes, ..
                 } => {
+                    if ancestors.is_empty() {
+                        // The parser lets this through
+                        if has_root_element {
+                            let message = "Unexpected second root element";
+                            return Err(XmlError((&reader, message).into()));
+                        }
+                        has_root_element = true
+                    }
                     let id = document.push_node(Node::new(NodeData::Element(ElementData {
                         name: convert_name(name),
                         attrs: attributes
@@ -51,10 +61,10 @@ impl Document {
                     }));
                     document.append(current, id);
                 }
-                XmlEvent::StartDocument { .. } | XmlEvent::EndDocument | XmlEvent::Comment(_) => {}
+                XmlEvent::EndDocument => return Ok(document),
+                XmlEvent::StartDocument { .. } | XmlEvent::Comment(_) => {}
             }
         }
-        Ok(document)
     }
 }
 
-- 
2.43.0


From b5a6c45fbd9af103ad32d2650de83005e904af13 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 31/31] Hook for verification: dump of the nodes of a document,
 behind --cfg victor_verif

---
 victor/src/dom/mod.rs   |  2 ++
 victor/src/dom/verif.rs | 51 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 53 insertions(+)
 create mode 100644 victor/src/dom/verif.rs

diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index bf98f4a..fe082a1 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -1,6 +1,8 @@
 //! This is *a* Document Object Model, but is not necessarily compatible with *the* DOM.
 
 mod html;
+#[cfg(victor_verif)]
+mod verif;
 mod xml;
 
 use crate::style::{StyleSet, StyleSetBuilder};
diff --git a/victor/src/dom/verif.rs b/victor/src/dom/verif.rs
new file mode 100644
index 0000000..fb1fbe2
--- /dev/null
+++ b/victor/src/dom/verif.rs
@@ -0,0 +1,51 @@
+//! For verification only: the links and data of every node
+
+use super::*;
+
+impl Document {
+    /// One list of fields per node, in order of creation starting at the document node:
+    /// parent, previous sibling, next sibling, first child and last child
+    /// (numbers as of `NodeId`, 0 for none), the kind of node, then its strings
+    pub fn verif_dump(&self) -> Vec<([usize; 5], char, Vec<String>)> {
+        let index = |id: Option<NodeId>| id.map_or(0, |id| id.0.get());
+        let data = |data: &NodeData| match data {
+            NodeData::Document => ('D', Vec::new()),
+            NodeData::Doctype {
+                _name,
+                _public_id,
+                _system_id,
+            } => (
+                'Y',
+                vec![_name.clone(), _public_id.clone(), _system_id.clone()],
+            ),
+            NodeData::Text { contents } => ('T', vec![contents.clone()]),
+            NodeData::Comment { _contents } => ('C', vec![_contents.clone()]),
+            NodeData::ProcessingInstruction { _target, _contents } => {
+                ('P', vec![_target.clone(), _contents.clone()])
+            }
+            NodeData::Element(e) => {
+                let mut strings = vec![e.name.ns.to_string(), e.name.local.to_string()];
+                for a in &e.attrs {
+                    strings.push(a.name.ns.to_string());
+                    strings.push(a.name.local.to_string());
+                    strings.push(a.value.clone());
+                }
+                ('E', strings)
+            }
+        };
+        self.nodes[1..]
+            .iter()
+            .map(|n| {
+                let (kind, strings) = data(&n.data);
+                let links = [
+                    index(n.parent),
+                    index(n.previous_sibling),
+                    index(n.next_sibling),
+                    index(n.first_child),
+                    index(n.last_child),
+                ];
+                (links, kind, strings)
+            })
+            .collect()
+    }
+}
-- 
2.43.0

