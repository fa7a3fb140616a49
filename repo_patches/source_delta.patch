From ebcaca2affc0af87f74aedbd2d8318cc0fcaff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:42 +0000
Subject: [PATCH 001/110] fix: detach nodes from their old place when they are
 appended, prepended or replace a child

---
 crates/oxvg_ast/src/element.rs | 1 +
 crates/oxvg_ast/src/node.rs    | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index b120247..4f6c95f 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -325,6 +325,7 @@ impl<'input, 'arena> Element<'input, 'arena> {
     ///
     /// [MDN | prepend](https://developer.mozilla.org/en-US/docs/Web/API/Element/prepend)
     pub fn prepend(&self, node: Ref<'input, 'arena>) {
+        node.remove();
         if let Some(first_node) = self.first_child.get() {
             first_node.previous_sibling.set(Some(node));
             node.next_sibling.set(Some(first_node));
diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 5973cfc..41b77e9 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -426,6 +426,7 @@ impl<'input, 'arena> Node<'input, 'arena> {
     ///
     /// [MDN | appendChild](https://developer.mozilla.org/en-US/docs/Web/API/Node/appendChild)
     pub fn append_child(&'arena self, a_child: Ref<'input, 'arena>) {
+        a_child.remove();
         a_child.parent.set(Some(self));
         if let Some(child) = self.last_child.replace(Some(a_child)) {
             child.next_sibling.set(Some(a_child));
@@ -702,6 +703,7 @@ impl<'input, 'arena> Node<'input, 'arena> {
         debug_assert_eq!(old_child.parent.get(), Some(self));
         debug_assert!(self.child_nodes_iter().contains(old_child));
 
+        new_child.remove();
         let previous_sibling = old_child.previous_sibling.take();
         let next_sibling = old_child.next_sibling.take();
         old_child.parent.set(None);
-- 
2.43.0


From 2fe9fe6ecc21d28bf2a3507a3cc50fc0a07acace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:42 +0000
Subject: [PATCH 002/110] fix: unlink old children when emptying or replacing
 the children of a node

---
 crates/oxvg_ast/src/element.rs | 22 ++++------------------
 crates/oxvg_ast/src/node.rs    |  7 ++++++-
 2 files changed, 10 insertions(+), 19 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index 4f6c95f..64f17cb 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -350,25 +350,11 @@ impl<'input, 'arena> Element<'input, 'arena> {
     ///
     /// [MDN | replaceChildren](https://developer.mozilla.org/en-US/docs/Web/API/Element/replaceChildren)
     pub fn replace_children(&self, children: impl std::iter::Iterator<Item = Ref<'input, 'arena>>) {
-        let mut children = children.peekable();
-        let first = children.peek().copied();
-        self.first_child.set(first);
-        first.inspect(|first| {
-            first.previous_sibling.set(None);
-        });
-        let mut last = first;
-        for (a, b) in children.tuple_windows() {
-            // NOTE: This only runs if children >= 2
-            a.parent.set(Some(self));
-            a.next_sibling.set(Some(b));
-            b.previous_sibling.set(Some(a));
-            last = Some(b);
+        let children = children.collect_vec();
+        self.empty();
+        for child in children {
+            self.append(child);
         }
-        last.inspect(|last| {
-            last.parent.set(Some(self));
-            last.next_sibling.set(None);
-        });
-        self.last_child.set(last);
     }
 
     /// Replaces this element in the children list of it's parent with another.
diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 41b77e9..f8cba1d 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -274,8 +274,13 @@ impl<'input, 'arena> Node<'input, 'arena> {
 
     /// Removes all child nodes
     pub fn empty(&self) {
-        self.first_child.set(None);
         self.last_child.set(None);
+        let mut current = self.first_child.take();
+        while let Some(child) = current {
+            current = child.next_sibling.take();
+            child.previous_sibling.set(None);
+            child.parent.set(None);
+        }
     }
 
     /// Does a breadth-first search to find an element from the current node, returning this node
-- 
2.43.0


From f41d87cc45a628e5216f2001d969143eb04b3dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:42 +0000
Subject: [PATCH 003/110] fix: keep the children of an element when it is
 renamed

---
 crates/oxvg_ast/src/element.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index 64f17cb..9bbf7f5 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -400,7 +400,7 @@ impl<'input, 'arena> Element<'input, 'arena> {
                 element_id: Box::new(new_name),
             }
         }
-        let replacement = allocator.alloc(NodeData::Element {
+        let replacement: Ref<'input, 'arena> = allocator.alloc(NodeData::Element {
             name: new_name,
             attrs: attrs.clone(),
             #[cfg(feature = "selectors")]
@@ -410,8 +410,11 @@ impl<'input, 'arena> Element<'input, 'arena> {
             #[cfg(feature = "range")]
             ranges: std::collections::HashMap::new(),
         });
+        while let Some(child) = self.first_child() {
+            replacement.append_child(child);
+        }
         self.replace_with(replacement);
-        Self(&*replacement)
+        Self(replacement)
     }
 
     /// Returns the element immediately following this one in it's parent's child list.
-- 
2.43.0


From 4655cd20673bbab6b9ef970079ac843e73a1d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:42 +0000
Subject: [PATCH 004/110] fix: inserting before an element no longer clears the
 children of its parent

---
 crates/oxvg_ast/src/element.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index 9bbf7f5..d077c63 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -478,8 +478,6 @@ impl<'input, 'arena> Element<'input, 'arena> {
     /// [MDN | before](https://developer.mozilla.org/en-US/docs/Web/API/Element/before)
     pub fn before(&self, node: Ref<'input, 'arena>) -> Option<()> {
         let parent = self.parent_node()?;
-        node.remove();
-        node.set_parent_node(&parent);
         parent.insert_before(node, self);
         Some(())
     }
-- 
2.43.0


From c237b968652451c83fa54ca05b8ed6172349bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:42 +0000
Subject: [PATCH 005/110] fix: sorting child elements resets the first back
 link and orders non-elements consistently

---
 crates/oxvg_ast/src/element.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index d077c63..36fe103 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -669,23 +669,18 @@ impl<'input, 'arena> Element<'input, 'arena> {
         F: FnMut(Self, Self) -> std::cmp::Ordering,
     {
         let mut children: Vec<_> = self.child_nodes_iter().collect();
-        children.sort_by(|a, b| {
-            let Some(a) = Element::new(a) else {
-                return std::cmp::Ordering::Less;
-            };
-            let Some(b) = Element::new(b) else {
-                return std::cmp::Ordering::Greater;
-            };
-            f(a, b)
+        children.sort_by(|a, b| match (Element::new(a), Element::new(b)) {
+            (Some(a), Some(b)) => f(a, b),
+            (a, b) => a.is_some().cmp(&b.is_some()),
         });
 
         self.first_child.set(children.first().copied());
         self.last_child.set(children.last().copied());
         for i in 0..children.len() {
             let child = children[i];
-            if i > 0 {
-                child.previous_sibling.set(children.get(i - 1).copied());
-            }
+            child
+                .previous_sibling
+                .set(i.checked_sub(1).map(|i| children[i]));
             child.next_sibling.set(children.get(i + 1).copied());
         }
     }
-- 
2.43.0


From e4fe220c7e2588f0ad93880e455bd9cf3c16e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:42 +0000
Subject: [PATCH 006/110] fix: relink the remaining siblings when filtering the
 children of a node

---
 crates/oxvg_ast/src/node.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index f8cba1d..acefd67 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -350,16 +350,18 @@ impl<'input, 'arena> Node<'input, 'arena> {
     {
         self.last_child.set(None);
         let mut current = self.first_child.take();
-        let mut previously_retained = None;
+        let mut previously_retained: Option<Ref<'input, 'arena>> = None;
         while let Some(child) = current {
             current = child.next_sibling.get();
             let retain = f(child);
             if retain {
                 child.previous_sibling.set(previously_retained);
-                if previously_retained.is_none() {
+                child.next_sibling.set(None);
+                if let Some(previous) = previously_retained.replace(child) {
+                    previous.next_sibling.set(Some(child));
+                } else {
                     self.first_child.set(Some(child));
                 }
-                previously_retained = Some(child);
                 self.last_child.set(Some(child));
             } else {
                 child.parent.set(None);
-- 
2.43.0


From ac4a43bdaf199f3c7ca89f1d897efd8a7a54f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:53 +0000
Subject: [PATCH 007/110] fix: match each selector of a list on its own when
 computing styles

---
 crates/oxvg_ast/src/style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 24510c5..21892c0 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -299,11 +299,11 @@ impl<'input> ComputedStyles<'input> {
                             selector: r.selectors.clone(),
                         }
                     })?;
+                    selector.pop();
                     if !select.matches_naive(&SelectElement::new(element)) {
                         continue;
                     }
                     self.add_declarations(&r.declarations, specificity + s.specificity(), mode);
-                    selector.pop();
                 }
                 Ok(())
             }
-- 
2.43.0


From d971ff6a297e03b1f47431c929840e5846ed4120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:53 +0000
Subject: [PATCH 008/110] fix: let the more specific selector win when
 computing styles

---
 crates/oxvg_ast/src/style.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 21892c0..5a8828d 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -513,6 +513,9 @@ impl<'input> ComputedStyles<'input> {
     ) {
         for d in declarations {
             let id = d.property_id();
+            if record.get(&id).is_some_and(|(other, _)| *other > specificity) {
+                continue;
+            }
             record.insert(id, (specificity, mode.style(Static::Css(d.clone()))));
         }
     }
-- 
2.43.0


From 17a72e88ef9a997172c0d8f395e79472b4726b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:53 +0000
Subject: [PATCH 009/110] fix: let the last of repeated inline declarations win
 when computing styles

---
 crates/oxvg_ast/src/style.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 5a8828d..c8bb6f8 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -436,7 +436,7 @@ impl<'input> ComputedStyles<'input> {
                 inline
                     .important_declarations
                     .iter()
-                    .find(|css| css.property_id() == *id)
+                    .rfind(|css| css.property_id() == *id)
                     .cloned()
                     .map(|css| (css, Mode::Static))
             })
@@ -457,7 +457,7 @@ impl<'input> ComputedStyles<'input> {
                     inline
                         .declarations
                         .iter()
-                        .find(|css| css.property_id() == *id)
+                        .rfind(|css| css.property_id() == *id)
                         .cloned()
                         .map(|css| (css, Mode::Static))
                 })
-- 
2.43.0


From 60db4ef325e76700b36f3505df27c3e200921cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:58 +0000
Subject: [PATCH 010/110] fix: style rules of a parent override its
 presentation attributes when inherited

---
 crates/oxvg_ast/src/style.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index c8bb6f8..7553a34 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -213,12 +213,6 @@ impl<'input> ComputedStyles<'input> {
         }
         let parent_styles = ComputedStyles::default().with_all(parent, styles)?;
         self.inherited.extend(parent_styles.inherited);
-        self.inherited.extend(
-            parent_styles
-                .declarations
-                .into_iter()
-                .map(|(id, value)| (id.name().to_string(), value.1)),
-        );
         self.inherited
             .extend(parent_styles.attr.into_iter().map(|attr| {
                 (
@@ -226,6 +220,12 @@ impl<'input> ComputedStyles<'input> {
                     Style::Static(Static::Attr(attr.clone())),
                 )
             }));
+        self.inherited.extend(
+            parent_styles
+                .declarations
+                .into_iter()
+                .map(|(id, value)| (id.name().to_string(), value.1)),
+        );
         let (inline, important_inline) = parent_styles
             .inline
             .map(|style| (style.declarations, style.important_declarations))
-- 
2.43.0


From 75efc233df49cf838a2a9325b1a835cfde4d3da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:48 +0000
Subject: [PATCH 011/110] fix: only collapse groups when every attribute has
 the same effect on the child

---
 .../src/jobs/collapse_groups.rs               | 152 +++++++++++++++---
 1 file changed, 131 insertions(+), 21 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index 4726c2d..b182e72 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -1,17 +1,20 @@
 use std::mem;
 
-use lightningcss::{properties::PropertyId, vendor_prefix::VendorPrefix};
+use lightningcss::{
+    properties::PropertyId, vendor_prefix::VendorPrefix, visit_types, visitor::Visit as _,
+};
 use oxvg_ast::{
     element::Element,
-    get_attribute, has_attribute, is_element,
-    visitor::{Context, PrepareOutcome, Visitor},
+    get_attribute, has_attribute, is_attribute, is_element,
+    visitor::{Context, ContextFlags, PrepareOutcome, Visitor},
 };
 use oxvg_collections::{
     atom::Atom,
-    attribute::{Attr, inheritable::Inheritable},
+    attribute::{Attr, AttributeGroup, AttributeInfo, inheritable::Inheritable},
     content_type::ContentType,
     element::ElementCategory,
 };
+use parcel_selectors::parser::Component;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
@@ -45,20 +48,28 @@ impl<'input, 'arena> Visitor<'input, 'arena> for CollapseGroups {
 
     fn prepare(
         &self,
-        _document: Element<'input, 'arena>,
-        _context: &mut Context<'input, 'arena, '_>,
+        document: Element<'input, 'arena>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> Result<PrepareOutcome, Self::Error> {
-        Ok(if self.0 {
-            PrepareOutcome::none
-        } else {
+        if !self.0 {
+            return Ok(PrepareOutcome::skip);
+        }
+        context.query_has_stylesheet(document);
+        let mut has_structural_selector = HasStructuralSelector(false);
+        for rules in &context.query_has_stylesheet_result {
+            rules.borrow_mut().visit(&mut has_structural_selector)?;
+        }
+        Ok(if has_structural_selector.0 {
             PrepareOutcome::skip
+        } else {
+            PrepareOutcome::none
         })
     }
 
     fn exit_element(
         &self,
         element: Element<'input, 'arena>,
-        _context: &mut Context<'input, 'arena, '_>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
         let Some(parent) = Element::parent_element(&element) else {
             return Ok(());
@@ -71,7 +82,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for CollapseGroups {
             return Ok(());
         }
 
-        move_attributes_to_child(element);
+        move_attributes_to_child(element, context);
         flatten_when_all_attributes_moved(element);
         Ok(())
     }
@@ -83,7 +94,10 @@ impl Default for CollapseGroups {
     }
 }
 
-fn move_attributes_to_child(element: Element) {
+fn move_attributes_to_child<'input, 'arena>(
+    element: Element<'input, 'arena>,
+    context: &Context<'input, 'arena, '_>,
+) {
     log::debug!("collapse_groups: move_attributes_to_child");
 
     let mut children = element.children_iter();
@@ -113,15 +127,35 @@ fn move_attributes_to_child(element: Element) {
         return;
     }
 
-    let mut removals = Vec::default();
     let first_child_attrs = first_child.attributes();
+    if element
+        .attributes()
+        .into_iter()
+        .any(|attr| has_animated_attr(first_child, attr.local_name()))
+    {
+        log::debug!("collapse_groups: not moving attrs: has animated_attr");
+        return;
+    }
+    // Attributes may depend on one another, so when some cannot move the only one that can is an id
+    // that nothing refers to.
+    let has_stylesheet = context
+        .flags
+        .contains(ContextFlags::query_has_stylesheet_result);
+    let can_move_all = element
+        .attributes()
+        .into_iter()
+        .all(|attr| can_move_attribute(&attr, first_child, has_stylesheet));
+
+    let can_move_id = can_move_all || !is_referenced(element, context.root);
+
+    let mut removals = Vec::default();
     for mut attr in attrs.into_iter_mut() {
+        if !can_move_all && !(can_move_id && is_attribute!(attr, Id)) {
+            log::debug!("collapse_groups: cancelled moves: cannot move {attr:?}");
+            break;
+        }
         let name = attr.name().clone();
         let child_attr = first_child_attrs.get_named_item_mut(&name);
-        if has_animated_attr(first_child, name.local_name()) {
-            log::debug!("collapse_groups: canelled moves: has animated_attr");
-            return;
-        }
 
         removals.push(name);
         let Some(mut child_attr) = child_attr else {
@@ -142,10 +176,6 @@ fn move_attributes_to_child(element: Element) {
                 log::debug!("collapse_groups: moved {attr:?}: is explicit inherit");
                 *child_attr = attr.clone();
             }
-        } else if *attr != *child_attr {
-            log::debug!("collapse_groups: removing {attr:?}: inheritable attr is not inherited");
-            removals.pop();
-            break;
         }
     }
 
@@ -154,6 +184,86 @@ fn move_attributes_to_child(element: Element) {
     }
 }
 
+/// Whether the attribute has the same effect when it's on the only child instead of the group
+fn can_move_attribute<'input>(
+    attr: &Attr<'input>,
+    child: Element<'input, '_>,
+    has_stylesheet: bool,
+) -> bool {
+    let name = attr.name();
+    let child_attr = child.get_attribute(name);
+    match attr {
+        Attr::Transform(_) => {
+            if child
+                .qual_name()
+                .categories()
+                .intersects(ElementCategory::NeverRendered)
+                || is_element!(child, Svg)
+            {
+                return false;
+            }
+            child_attr.is_none_or(|child_attr| {
+                matches!(attr, Attr::Transform(Inheritable::Defined(_)))
+                    && matches!(&*child_attr, Attr::Transform(Inheritable::Defined(_)))
+            })
+        }
+        Attr::Style(_) => {
+            !has_stylesheet
+                && !child.attributes().into_iter().any(|attr| {
+                    attr.name()
+                        .attribute_group()
+                        .contains(AttributeGroup::Presentation)
+                        || is_attribute!(attr, Style | Transform)
+                })
+        }
+        Attr::Class(_) if has_stylesheet => false,
+        _ if name.info().contains(AttributeInfo::Inheritable) => true,
+        _ if name
+            .attribute_group()
+            .contains(AttributeGroup::Presentation) =>
+        {
+            child_attr.is_none() && !has_stylesheet && !has_attribute!(child, Style)
+        }
+        _ => child_attr.is_none_or(|child_attr| *attr == *child_attr),
+    }
+}
+
+fn is_referenced<'input>(element: Element<'input, '_>, root: Element<'input, '_>) -> bool {
+    let Some(id) = get_attribute!(element, Id).map(|id| id.to_string()) else {
+        return false;
+    };
+    let mut is_referenced = false;
+    for element in root.breadth_first() {
+        for mut attr in element.attributes().into_iter_mut() {
+            attr.value_mut().visit_url(|url| {
+                is_referenced |= url.strip_prefix('#') == Some(&*id);
+            });
+        }
+    }
+    is_referenced
+}
+
+/// Finds whether any selector may match differently once groups are removed
+struct HasStructuralSelector(bool);
+
+impl<'input> lightningcss::visitor::Visitor<'input> for HasStructuralSelector {
+    type Error = JobsError<'input>;
+
+    fn visit_types(&self) -> lightningcss::visitor::VisitTypes {
+        visit_types!(SELECTORS)
+    }
+
+    fn visit_selector(
+        &mut self,
+        selector: &mut lightningcss::selector::Selector<'input>,
+    ) -> Result<(), Self::Error> {
+        self.0 |= !selector
+            .iter_raw_match_order()
+            .all(|component| matches!(component, Component::Class(_)));
+        Ok(())
+    }
+}
+
 fn flatten_when_all_attributes_moved(element: Element) {
     if !element.attributes().is_empty() {
         log::debug!("skipping flatten: has attributes");
-- 
2.43.0


From b74c1ebbbaeb3d84fb2a6d0d0c590b4e2e698cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:04 +0000
Subject: [PATCH 012/110] fix: flip the sweep of arcs when the applied
 transform mirrors

---
 crates/oxvg_optimiser/src/jobs/apply_transforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index abd0260..8c044b6 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -423,7 +423,7 @@ fn transform_arc(cursor: [f64; 2], args: &mut [f64; 7], matrix: &[f64; 6]) {
             / std::f64::consts::PI;
     }
 
-    if (matrix[0] < 0.0) != (matrix[3] < 0.0) {
+    if matrix[0] * matrix[3] - matrix[1] * matrix[2] < 0.0 {
         args[4] = 1.0 - args[4];
     }
 }
-- 
2.43.0


From 0118068c6c96a1c731bcb4a27626d99ef69bcfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:35 +0000
Subject: [PATCH 013/110] fix: keep transforms of paths whose styles refer to
 other elements

---
 .../src/jobs/apply_transforms.rs               | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index 8c044b6..b6a7a73 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -8,7 +8,7 @@ use lightningcss::properties::{
 use oxvg_ast::{
     element::Element,
     get_attribute, get_attribute_mut, get_computed_style, get_computed_style_css, has_attribute,
-    is_attribute,
+    has_computed_style, is_attribute,
     style::{ComputedStyle, ComputedStyles, Mode},
     visitor::{Context, PrepareOutcome, Visitor},
 };
@@ -134,6 +134,22 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
             return Ok(());
         }
 
+        // The referenced content would be affected by the element's transform
+        if has_computed_style!(
+            computed_styles,
+            ClipPath | Mask | Filter | MarkerStart | MarkerMid | MarkerEnd
+        ) || matches!(
+            get_computed_style!(computed_styles, Fill),
+            ComputedStyle::Some((Inheritable::Defined(SVGPaint::Url { .. }), _))
+                | ComputedStyle::Unparsed
+        ) || matches!(
+            get_computed_style!(computed_styles, Stroke),
+            ComputedStyle::Some((Inheritable::Defined(SVGPaint::Url { .. }), _))
+        ) {
+            log::debug!("run: element style has url reference");
+            return Ok(());
+        }
+
         let stroke = get_computed_style!(computed_styles, Stroke);
         if matches!(
             stroke,
-- 
2.43.0


From d37208035a97e4890f59160113c25995ae9e7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:09 +0000
Subject: [PATCH 014/110] fix: keep transforms of paths that may be drawn
 through a use

---
 crates/oxvg_optimiser/src/jobs/apply_transforms.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index b6a7a73..7b1cb87 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -113,6 +113,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
             log::debug!("run: element has no transform");
             return Ok(());
         };
+        if std::iter::successors(Element::parent_element(&element), Element::parent_element)
+            .any(|parent| !parent.is_root() && has_attribute!(parent, Id))
+        {
+            log::debug!("run: element may inherit styles from where its ancestor is used");
+            return Ok(());
+        }
         let Some(transform) = transform_attr.option_ref() else {
             log::debug!("run: cannot handle inherit transform");
             return Ok(());
-- 
2.43.0


From f0059578f8cff4ec0436bceaa2d494ca4b6aa104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:13 +0000
Subject: [PATCH 015/110] fix: scale inherited dashes when applying transforms
 to stroked paths

---
 .../src/jobs/apply_transforms.rs              | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index 7b1cb87..104c678 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -188,7 +188,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
 
         drop(transform_attr);
         if let Some((Inheritable::Defined(stroke), Mode::Static)) = stroke.option()
-            && self.apply_stroked(&matrix, &stroke, stroke_width, element)
+            && self.apply_stroked(&matrix, &stroke, stroke_width, &computed_styles, element)
         {
             return Ok(());
         }
@@ -212,6 +212,7 @@ impl ApplyTransforms {
         matrix: &[f64; 6],
         stroke: &SVGPaint,
         stroke_width: Option<Inheritable<LengthPercentage>>,
+        computed_styles: &ComputedStyles,
         element: Element,
     ) -> bool {
         if matches!(stroke, SVGPaint::None) {
@@ -250,17 +251,19 @@ impl ApplyTransforms {
         };
         element.set_attribute(Attr::StrokeWidth(Inheritable::Defined(stroke_width)));
 
-        if let Some(Inheritable::Defined(LengthPercentage(stroke_dashoffset))) =
-            get_attribute_mut!(element, StrokeDashoffset).as_deref_mut()
+        if let ComputedStyle::Some((Inheritable::Defined(stroke_dashoffset), _)) =
+            get_computed_style!(computed_styles, StrokeDashoffset)
         {
-            *stroke_dashoffset = stroke_dashoffset.clone().mul(scale);
+            element.set_attribute(Attr::StrokeDashoffset(Inheritable::Defined(
+                LengthPercentage(stroke_dashoffset.0.mul(scale)),
+            )));
         }
-        if let Some(Inheritable::Defined(StrokeDasharray::Values(stroke_dasharray))) =
-            get_attribute_mut!(element, StrokeDasharray).as_deref_mut()
+        if let ComputedStyle::Some((Inheritable::Defined(StrokeDasharray::Values(dashes)), _)) =
+            get_computed_style!(computed_styles, StrokeDasharray)
         {
-            for dash in stroke_dasharray.iter_mut() {
-                *dash = dash.clone().mul(scale);
-            }
+            element.set_attribute(Attr::StrokeDasharray(Inheritable::Defined(
+                StrokeDasharray::Values(dashes.into_iter().map(|dash| dash.mul(scale)).collect()),
+            )));
         }
 
         false
-- 
2.43.0


From 02ca161c8e6a5d8d409145fc256905e129281ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:18 +0000
Subject: [PATCH 016/110] fix: keep transforms when scaled strokes may be
 overridden by a stylesheet

---
 .../src/jobs/apply_transforms.rs              | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index 104c678..d41432a 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -10,7 +10,7 @@ use oxvg_ast::{
     get_attribute, get_attribute_mut, get_computed_style, get_computed_style_css, has_attribute,
     has_computed_style, is_attribute,
     style::{ComputedStyle, ComputedStyles, Mode},
-    visitor::{Context, PrepareOutcome, Visitor},
+    visitor::{Context, ContextFlags, PrepareOutcome, Visitor},
 };
 use oxvg_collections::attribute::{
     Attr, AttrId,
@@ -188,7 +188,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
 
         drop(transform_attr);
         if let Some((Inheritable::Defined(stroke), Mode::Static)) = stroke.option()
-            && self.apply_stroked(&matrix, &stroke, stroke_width, &computed_styles, element)
+            && self.apply_stroked(
+                &matrix,
+                &stroke,
+                stroke_width,
+                &computed_styles,
+                element,
+                context,
+            )
         {
             return Ok(());
         }
@@ -214,6 +221,7 @@ impl ApplyTransforms {
         stroke_width: Option<Inheritable<LengthPercentage>>,
         computed_styles: &ComputedStyles,
         element: Element,
+        context: &Context,
     ) -> bool {
         if matches!(stroke, SVGPaint::None) {
             return false;
@@ -242,6 +250,13 @@ impl ApplyTransforms {
         if scale == 1.0 {
             return false;
         }
+        if context
+            .flags
+            .contains(ContextFlags::query_has_stylesheet_result)
+        {
+            log::debug!("apply_stroked: stroke attributes may be overridden by stylesheet");
+            return true;
+        }
         let scale = scale as f32;
 
         let stroke_width = match stroke_width {
-- 
2.43.0


From b7849db6dac5b6101331d78d006587dacd427cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:58 +0000
Subject: [PATCH 017/110] fix: keep hidden elements whose content may still be
 visible

---
 .../src/jobs/remove_hidden_elems.rs           | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 36eea70..ccd41bc 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -336,19 +336,26 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
 
     fn is_hidden_style(
         &self,
-        element: Element,
+        element: Element<'input, 'arena>,
         computed_styles: &ComputedStyles,
-        context: &mut Context,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> bool {
         let mut is_hidden = false;
         if self.options.is_hidden.unwrap_or(true)
             && let Some((Inheritable::Defined(Visibility::Hidden), Mode::Static)) =
                 get_computed_style!(computed_styles, Visibility).option()
-            && !element.breadth_first().any(|child| {
-                matches!(
-                    get_attribute!(child, Visibility).as_deref(),
-                    Some(Inheritable::Defined(Visibility::Visible) | Inheritable::Inherited)
-                )
+            && !is_element!(element, Use)
+            && element.breadth_first().all(|child| {
+                // Used content may have its own visibility
+                !is_element!(child, Use)
+                    && ComputedStyles::default()
+                        .with_all(child, &context.query_has_stylesheet_result)
+                        .is_ok_and(|computed_styles| {
+                            matches!(
+                                get_computed_style!(computed_styles, Visibility).option(),
+                                Some((Inheritable::Defined(Visibility::Hidden), Mode::Static))
+                            )
+                        })
             })
         {
             is_hidden = true;
-- 
2.43.0


From 87c53f2f497e52fc5e95ca4dfa0e75e12f73cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:26 +0000
Subject: [PATCH 018/110] fix: don't slice references that may be empty when
 removing hidden elements

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index ccd41bc..917f702 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -192,7 +192,9 @@ impl<'input, 'arena> Data<'input, 'arena> {
                     let (Attr::Href(value) | Attr::XLinkHref(value)) = &*attr else {
                         continue;
                     };
-                    let id = &value[1..];
+                    let Some(id) = value.strip_prefix('#') else {
+                        continue;
+                    };
 
                     let mut references_by_id = self.references_by_id.borrow_mut();
                     let refs = references_by_id.get_mut(id);
-- 
2.43.0


From 87253489683bd2c8ce89241609ac40094c72a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:21 +0000
Subject: [PATCH 019/110] fix: keep default styles of elements that may be
 drawn through a use

---
 .../oxvg_optimiser/src/jobs/remove_unknowns_and_defaults.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_unknowns_and_defaults.rs b/crates/oxvg_optimiser/src/jobs/remove_unknowns_and_defaults.rs
index 69acef1..249e6e8 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_unknowns_and_defaults.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_unknowns_and_defaults.rs
@@ -199,6 +199,10 @@ impl RemoveUnknownsAndDefaults {
     ) {
         let element_name = element.qual_name();
         let has_id = has_attribute!(element, Id);
+        // May inherit other values from wherever the ancestor is used
+        let has_id_ancestor =
+            std::iter::successors(Element::parent_element(&element), Element::parent_element)
+                .any(|parent| !parent.is_root() && has_attribute!(parent, Id));
 
         element.attributes().retain(|attr| {
             let name = attr.name().unaliased();
@@ -227,6 +231,8 @@ impl RemoveUnknownsAndDefaults {
                 return false;
             }
 
+            let has_id = has_id
+                || (has_id_ancestor && name.info().contains(AttributeInfo::Inheritable));
             let inherited_value = if name.prefix().is_empty() {
                 if inheritable {
                     inherited_styles.get(name.unaliased())
-- 
2.43.0


From 289998e1a9844807f36555d7434021474edebebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:48 +0000
Subject: [PATCH 020/110] fix: keep strokes and fills that depend on an inline
 style

---
 .../src/jobs/remove_useless_stroke_and_fill.rs              | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
index ee89cce..03b08da 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
@@ -3,7 +3,7 @@ use std::cell::Cell;
 use lightningcss::{properties::svg::SVGPaint, traits::Zero, values::alpha::AlphaValue};
 use oxvg_ast::{
     element::Element,
-    get_computed_style, has_computed_style, is_attribute, set_attribute,
+    get_computed_style, has_attribute, has_computed_style, is_attribute, set_attribute,
     style::{ComputedStyles, Mode},
     visitor::{Context, ContextFlags, PrepareOutcome, Visitor},
 };
@@ -111,6 +111,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
         {
             return Ok(());
         }
+        if has_attribute!(element, Style) {
+            log::debug!("style would override changed attributes");
+            return Ok(());
+        }
 
         let computed_styles = ComputedStyles::default()
             .with_all(element, &context.query_has_stylesheet_result)
-- 
2.43.0


From 7f055a7c576afff8f1d34fbdb465724ec6253292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:48 +0000
Subject: [PATCH 021/110] fix: keep strokes that size markers at the start or
 middle of an element

---
 .../oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
index 03b08da..8771e14 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
@@ -160,7 +160,9 @@ impl State<'_> {
             }
         });
 
-        if !is_stroke_width_zero && has_computed_style!(computed_styles, MarkerEnd) {
+        if !is_stroke_width_zero
+            && has_computed_style!(computed_styles, MarkerStart | MarkerMid | MarkerEnd)
+        {
             log::debug!("skipping stroke removal, has marker");
             return;
         }
-- 
2.43.0


From 7674eb4be59e85bd2217a1ab7a97f7c49ffb39ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:27 +0000
Subject: [PATCH 022/110] fix: keep transforms of paths whose fill depends on
 conditional rules

---
 crates/oxvg_optimiser/src/jobs/apply_transforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index d41432a..3aa8f63 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -146,7 +146,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
             ClipPath | Mask | Filter | MarkerStart | MarkerMid | MarkerEnd
         ) || matches!(
             get_computed_style!(computed_styles, Fill),
-            ComputedStyle::Some((Inheritable::Defined(SVGPaint::Url { .. }), _))
+            ComputedStyle::Some((Inheritable::Defined(SVGPaint::Url { .. }), _) | (_, Mode::Dynamic))
                 | ComputedStyle::Unparsed
         ) || matches!(
             get_computed_style!(computed_styles, Stroke),
-- 
2.43.0


From b8411acac02c456ac77073933db8a13b1b674f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:55 +0000
Subject: [PATCH 023/110] fix: don't move vector-effect from groups, where it
 has no effect

---
 crates/oxvg_optimiser/src/jobs/collapse_groups.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index b182e72..6373706 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -217,6 +217,8 @@ fn can_move_attribute<'input>(
                 })
         }
         Attr::Class(_) if has_stylesheet => false,
+        // Has no effect on groups
+        Attr::VectorEffect(_) => false,
         _ if name.info().contains(AttributeInfo::Inheritable) => true,
         _ if name
             .attribute_group()
-- 
2.43.0


From 0aa122015cd700ac79c82b147553fafe06ce9274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:33 +0000
Subject: [PATCH 024/110] fix: keep transforms of groups clipped, masked or
 filtered by a stylesheet

---
 .../src/jobs/move_group_attrs_to_elems.rs       | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs b/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs
index 7354a20..856a34b 100644
--- a/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs
@@ -2,7 +2,9 @@ use std::mem;
 
 use oxvg_ast::{
     element::Element,
-    get_attribute_mut, has_attribute, is_attribute, is_element, remove_attribute, set_attribute,
+    get_attribute_mut, has_attribute, has_computed_style, is_attribute, is_element,
+    remove_attribute, set_attribute,
+    style::ComputedStyles,
     visitor::{Context, PrepareOutcome, Visitor},
 };
 use oxvg_collections::attribute::{
@@ -40,9 +42,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveGroupAttrsToElems {
 
     fn prepare(
         &self,
-        _document: Element<'input, 'arena>,
-        _context: &mut Context<'input, 'arena, '_>,
+        document: Element<'input, 'arena>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> Result<PrepareOutcome, Self::Error> {
+        context.query_has_stylesheet(document);
         Ok(if self.0 {
             PrepareOutcome::none
         } else {
@@ -53,7 +56,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveGroupAttrsToElems {
     fn element(
         &self,
         element: Element<'input, 'arena>,
-        _context: &mut Context<'input, 'arena, '_>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
         if !is_element!(element, G) {
             return Ok(());
@@ -77,6 +80,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveGroupAttrsToElems {
         }) {
             return Ok(());
         }
+        let computed_styles = ComputedStyles::default()
+            .with_all(element, &context.query_has_stylesheet_result)
+            .map_err(JobsError::ComputedStylesError)?;
+        if has_computed_style!(computed_styles, ClipPath | Filter | Mask) {
+            return Ok(());
+        }
         if element.children_iter().any(|e| {
             let name = e.qual_name();
             !(is_element!(name, G | Text) || name.expected_attributes().contains(&AttrId::D))
-- 
2.43.0


From c72145fe8a480b822fa27b3d20cf652332edddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:02 +0000
Subject: [PATCH 025/110] fix: don't move attributes to groups whose style may
 override them

---
 crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
index 58a7668..fa5350a 100644
--- a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
@@ -71,6 +71,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveElemsAttrsToGroup {
             return Ok(());
         }
 
+        if has_attribute!(element, Style) {
+            log::debug!("not moving attrs, group style may override");
+            return Ok(());
+        }
+
         let every_child_is_path = element
             .children_iter()
             .all(|e| e.qual_name().expected_attributes().contains(&AttrId::D));
-- 
2.43.0


From d1ab24e26863f02f2e1d6e83478b695145be326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:34 +0000
Subject: [PATCH 026/110] fix: don't move attributes from elements that may be
 used outside of their group

---
 crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
index fa5350a..08a43d5 100644
--- a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
@@ -76,6 +76,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveElemsAttrsToGroup {
             return Ok(());
         }
 
+        if element.children_iter().any(|e| has_attribute!(e, Id)) {
+            log::debug!("not moving attrs, child may be used outside of the group");
+            return Ok(());
+        }
+
         let every_child_is_path = element
             .children_iter()
             .all(|e| e.qual_name().expected_attributes().contains(&AttrId::D));
-- 
2.43.0


From cf87dcc9cac5a9a9672e2c5b2f49efc86fd7a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:39 +0000
Subject: [PATCH 027/110] fix: keep elements that are rendered by reference
 regardless of display

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 917f702..9fd68f6 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -368,7 +368,11 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
             && let Some((Inheritable::Defined(Display::Keyword(DisplayKeyword::None)), _)) =
                 get_computed_style!(computed_styles, Display).option()
         {
-            is_hidden = !is_element!(element, Marker);
+            // Elements that are only rendered through references aren't affected by `display`
+            is_hidden = !element
+                .qual_name()
+                .info()
+                .contains(ElementInfo::NonRendering);
         }
         if is_hidden {
             // Protect references that may use non-visible data
-- 
2.43.0


From 76f7abe3102dad13591165acf198966638951a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:14 +0000
Subject: [PATCH 028/110] fix: keep transparent elements whose content is used
 elsewhere

---
 .../src/jobs/remove_hidden_elems.rs           | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 9fd68f6..40d70b0 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -99,6 +99,7 @@ pub struct RemoveHiddenElems {
 struct Data<'input, 'arena> {
     opacity_zero: bool,
     non_rendered_nodes: RefCell<HashSet<HashableElement<'input, 'arena>>>,
+    transparent_nodes: RefCell<Vec<Element<'input, 'arena>>>,
     removed_def_ids: RefCell<HashSet<Atom<'input>>>,
     all_defs: RefCell<HashSet<HashableElement<'input, 'arena>>>,
     all_references: RefCell<HashSet<String>>,
@@ -156,13 +157,20 @@ impl<'input, 'arena> Visitor<'input, 'arena> for Data<'input, 'arena> {
                 context.flags.visit_skip();
                 return Ok(());
             }
-            self.remove_element(element);
+            self.transparent_nodes.borrow_mut().push(element);
         }
         Ok(())
     }
 }
 
 impl<'input, 'arena> Data<'input, 'arena> {
+    fn is_content_used(&self, element: Element<'input, 'arena>) -> bool {
+        let references_by_id = self.references_by_id.borrow();
+        element.breadth_first().any(|child| {
+            get_attribute!(child, Id).is_some_and(|id| references_by_id.contains_key(id.0.as_str()))
+        })
+    }
+
     fn remove_element(&self, element: Element<'input, 'arena>) {
         if let Some(parent) = Element::parent_element(&element)
             && is_element!(parent, Defs)
@@ -226,6 +234,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveHiddenElems {
             ..Data::default()
         };
         data.start_with_context(document, context)?;
+        for element in data.transparent_nodes.take() {
+            if !data.is_content_used(element) {
+                data.remove_element(element);
+            }
+        }
         log::debug!("data collected");
         State {
             options: self,
@@ -339,7 +352,7 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
     fn is_hidden_style(
         &self,
         element: Element<'input, 'arena>,
-        computed_styles: &ComputedStyles,
+        computed_styles: &ComputedStyles<'input>,
         context: &mut Context<'input, 'arena, '_>,
     ) -> bool {
         let mut is_hidden = false;
@@ -383,14 +396,7 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
                 context.flags.visit_skip();
                 return false;
             }
-            return !element.breadth_first().any(|child| {
-                if let Some(id) = get_attribute!(child, Id)
-                    && references_by_id.contains_key(id.0.as_str())
-                {
-                    return true;
-                }
-                false
-            });
+            return !self.data.is_content_used(element);
         }
         is_hidden
     }
-- 
2.43.0


From 797d6a7388d12eb5fe9dcfd3cea8157c926eb5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:09 +0000
Subject: [PATCH 029/110] fix: keep gradients, clips and the like when they
 inherit hidden visibility

---
 .../src/jobs/remove_hidden_elems.rs              | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 40d70b0..5821b19 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -355,6 +355,16 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
         computed_styles: &ComputedStyles<'input>,
         context: &mut Context<'input, 'arena, '_>,
     ) -> bool {
+        // Elements that are only rendered through references aren't hidden themselves
+        if is_element!(element, Stop)
+            || element
+                .qual_name()
+                .info()
+                .contains(ElementInfo::NonRendering)
+        {
+            return false;
+        }
+
         let mut is_hidden = false;
         if self.options.is_hidden.unwrap_or(true)
             && let Some((Inheritable::Defined(Visibility::Hidden), Mode::Static)) =
@@ -381,11 +391,7 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
             && let Some((Inheritable::Defined(Display::Keyword(DisplayKeyword::None)), _)) =
                 get_computed_style!(computed_styles, Display).option()
         {
-            // Elements that are only rendered through references aren't affected by `display`
-            is_hidden = !element
-                .qual_name()
-                .info()
-                .contains(ElementInfo::NonRendering);
+            is_hidden = true;
         }
         if is_hidden {
             // Protect references that may use non-visible data
-- 
2.43.0


From 3779f1b7e302a1a3d6bf5d8b13cd7e6e420343ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:49 +0000
Subject: [PATCH 030/110] fix: don't inline styles over rules that take
 precedence and can't be inlined

---
 .../oxvg_optimiser/src/jobs/inline_styles.rs  | 109 +++++++++++++++++-
 1 file changed, 104 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/inline_styles.rs b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
index e41f6da..4264c9d 100644
--- a/crates/oxvg_optimiser/src/jobs/inline_styles.rs
+++ b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
@@ -112,6 +112,20 @@ struct FindDynamicTokens<'a, 'o, 'input, 'arena> {
 struct CollectMatchingSelectors<'a, 'o, 'input, 'arena> {
     find_removable_tokens: &'a mut FindRemovableTokens<'o, 'input, 'arena>,
     root: Element<'input, 'arena>,
+    /// Every selector visited so far, in order of appearance.
+    selectors: Vec<VisitedSelector<'input, 'arena>>,
+    /// Indices of selectors which would take precedence over others if inlined.
+    conflicts: &'a HashSet<usize>,
+}
+
+/// What's needed to tell which of the selectors takes precedence
+struct VisitedSelector<'input, 'arena> {
+    /// The elements that match, or `None` if it may be any
+    matches: Option<Vec<Element<'input, 'arena>>>,
+    specificity: u32,
+    properties: Vec<String>,
+    important_properties: Vec<String>,
+    is_inlined: bool,
 }
 
 struct InlinePresentationAttributes<'a, 'o, 'input, 'arena> {
@@ -389,17 +403,90 @@ impl<'o, 'input, 'arena> FindRemovableTokens<'o, 'input, 'arena> {
         // First pass to find dynamic tokens, which will skip inlining.
         stylesheet.visit(self)?;
         // Second pass will take matching selectors from the stylesheet
-        let mut collect_matching_selectors = CollectMatchingSelectors {
-            find_removable_tokens: self,
-            root,
+        let original = stylesheet.clone();
+        let mut conflicts = HashSet::new();
+        loop {
+            let mut collect_matching_selectors = CollectMatchingSelectors {
+                find_removable_tokens: self,
+                root,
+                selectors: Vec::new(),
+                conflicts: &conflicts,
+            };
+            stylesheet.visit(&mut collect_matching_selectors)?;
+            let new_conflicts = collect_matching_selectors.find_conflicts();
+            if new_conflicts.is_empty() {
+                return Ok(());
+            }
+            conflicts.extend(new_conflicts);
+            *stylesheet = original.clone();
+            self.inlines.clear();
+        }
+    }
+}
+
+impl<'input, 'arena> VisitedSelector<'input, 'arena> {
+    fn new(
+        matches: Option<Vec<Element<'input, 'arena>>>,
+        specificity: u32,
+        declarations: &DeclarationBlock<'input>,
+    ) -> Self {
+        let names = |properties: &[Property<'input>]| {
+            properties
+                .iter()
+                .map(|property| property.property_id().name().to_string())
+                .collect()
         };
-        stylesheet.visit(&mut collect_matching_selectors)?;
+        Self {
+            matches,
+            specificity,
+            properties: names(&declarations.declarations),
+            important_properties: names(&declarations.important_declarations),
+            is_inlined: false,
+        }
+    }
 
-        Ok(())
+    fn shares_element(&self, other: &Self) -> bool {
+        match (&self.matches, &other.matches) {
+            (Some(matches), Some(other)) => matches.iter().any(|m| other.contains(m)),
+            _ => true,
+        }
+    }
+
+    fn shares_property(&self, other: &Self) -> bool {
+        fn is_same(a: &str, b: &str) -> bool {
+            let is_longhand = |a: &str, b: &str| {
+                a.strip_prefix(b)
+                    .is_some_and(|rest| rest.is_empty() || rest.starts_with('-'))
+            };
+            is_longhand(a, b) || is_longhand(b, a)
+        }
+        let any_same =
+            |a: &[String], b: &[String]| a.iter().any(|a| b.iter().any(|b| is_same(a, b)));
+        any_same(&self.properties, &other.properties)
+            || any_same(&self.important_properties, &other.important_properties)
     }
 }
 
 impl<'input, 'arena> CollectMatchingSelectors<'_, '_, 'input, 'arena> {
+    /// Finds the inlined selectors that are overridden by a selector that remains in the stylesheet,
+    /// as they'd override it when they're inlined.
+    fn find_conflicts(&self) -> Vec<usize> {
+        let selectors = self.selectors.iter().enumerate();
+        selectors
+            .clone()
+            .filter(|(i, inlined)| {
+                inlined.is_inlined
+                    && selectors.clone().any(|(j, retained)| {
+                        !retained.is_inlined
+                            && (retained.specificity, j) > (inlined.specificity, *i)
+                            && retained.shares_element(inlined)
+                            && retained.shares_property(inlined)
+                    })
+            })
+            .map(|(i, _)| i)
+            .collect()
+    }
+
     fn strip_allowed_pseudos(&self, selector: String) -> String {
         let mut new_selector = None;
         for pseudo in &self.find_removable_tokens.options.use_pseudos {
@@ -522,6 +609,12 @@ impl<'input> visitor::Visitor<'input> for CollectMatchingSelectors<'_, '_, 'inpu
         let declarations = &style.declarations;
 
         style.selectors.0.retain(|selector| {
+            let index = self.selectors.len();
+            self.selectors.push(VisitedSelector::new(
+                None,
+                selector.specificity(),
+                declarations,
+            ));
             let selector_iter = &mut selector.iter();
             let tail: Vec<_> = selector_iter.map(Token::from).collect();
             if tail.iter().any(|token| {
@@ -552,6 +645,11 @@ impl<'input> visitor::Visitor<'input> for CollectMatchingSelectors<'_, '_, 'inpu
                 return true;
             };
             let matches: Vec<_> = matches.collect();
+            self.selectors[index].matches = Some(matches.clone());
+            if self.conflicts.contains(&index) {
+                log::debug!("retained selector: overridden by another selector");
+                return true;
+            }
             let Some(matching_tokens) = self.is_selector_removable(selector, &matches) else {
                 return true;
             };
@@ -563,6 +661,7 @@ impl<'input> visitor::Visitor<'input> for CollectMatchingSelectors<'_, '_, 'inpu
                     declarations: declarations.clone(),
                 });
             }
+            self.selectors[index].is_inlined = true;
             false
         });
         if style.selectors.0.is_empty() {
-- 
2.43.0


From 484e4ac8ee1f82788f0f3e7aa52130b9489b5aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:45 +0000
Subject: [PATCH 031/110] fix: keep classes and ids that rules left by inlining
 still select

---
 crates/oxvg_optimiser/src/jobs/inline_styles.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/inline_styles.rs b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
index 4264c9d..481b9dc 100644
--- a/crates/oxvg_optimiser/src/jobs/inline_styles.rs
+++ b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
@@ -101,6 +101,8 @@ struct FindRemovableTokens<'o, 'input, 'arena> {
     options: &'o InlineStyles,
     /// Which tokens cannot be minified due to appearing as a parent token or within a preserved media query
     dynamically_referenced: HashSet<Token<'input>>,
+    /// Which tokens are still matched by selectors that can't be inlined
+    retained: HashSet<Token<'input>>,
     inlines: Vec<RemovedToken<'input, 'arena>>,
 }
 
@@ -305,6 +307,9 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
         self.dynamically_referenced
             .borrow_mut()
             .extend(find_removable_tokens.dynamically_referenced);
+        self.dynamically_referenced
+            .borrow_mut()
+            .extend(find_removable_tokens.retained);
         self.inlined
             .borrow_mut()
             .extend(find_removable_tokens.inlines);
@@ -391,6 +396,7 @@ impl<'o, 'input, 'arena> FindRemovableTokens<'o, 'input, 'arena> {
         Self {
             options,
             dynamically_referenced: HashSet::new(),
+            retained: HashSet::new(),
             inlines: Vec::new(),
         }
     }
@@ -648,9 +654,11 @@ impl<'input> visitor::Visitor<'input> for CollectMatchingSelectors<'_, '_, 'inpu
             self.selectors[index].matches = Some(matches.clone());
             if self.conflicts.contains(&index) {
                 log::debug!("retained selector: overridden by another selector");
+                self.find_removable_tokens.retained.extend(tail);
                 return true;
             }
             let Some(matching_tokens) = self.is_selector_removable(selector, &matches) else {
+                self.find_removable_tokens.retained.extend(tail);
                 return true;
             };
             for m in matches {
-- 
2.43.0


From f4e3e885590df12d3db114960a822e64c8ad2c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:27 +0000
Subject: [PATCH 032/110] fix: keep classes and ids that are selected by
 negation when inlining styles

---
 crates/oxvg_optimiser/src/jobs/inline_styles.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/inline_styles.rs b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
index 481b9dc..4e387e7 100644
--- a/crates/oxvg_optimiser/src/jobs/inline_styles.rs
+++ b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
@@ -756,6 +756,21 @@ impl<'input> visitor::Visitor<'input> for FindDynamicTokens<'_, '_, 'input, '_>
                     .insert(token.into());
             }
         });
+        // Nested selectors, mark tokens as dynamic
+        for token in selector.iter_raw_match_order() {
+            if let Component::Negation(selectors)
+            | Component::Is(selectors)
+            | Component::Where(selectors)
+            | Component::Has(selectors) = token
+            {
+                self.find_removable_tokens.dynamically_referenced.extend(
+                    selectors
+                        .iter()
+                        .flat_map(Selector::iter_raw_match_order)
+                        .map(Token::from),
+                );
+            }
+        }
         // Combinators, mark tokens as dynamic
         while iter.next_sequence().is_some() {
             iter.for_each(|token| {
-- 
2.43.0


From 6c4bbc6ff32e1410e27808528f64fdcf2f3bfbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:23 +0000
Subject: [PATCH 033/110] fix: resolve presentation attributes that explicitly
 inherit from the parent

---
 crates/oxvg_ast/src/style.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 7553a34..0884bf4 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -14,7 +14,8 @@ use lightningcss::{
 };
 #[cfg(feature = "selectors")]
 use oxvg_collections::{
-    attribute::{Attr, AttrId, AttributeGroup, AttributeInfo},
+    attribute::{Attr, AttrId, AttributeGroup, AttributeInfo, inheritable::Inheritable},
+    content_type::ContentType,
     name::Prefix,
 };
 #[cfg(feature = "selectors")]
@@ -328,6 +329,14 @@ impl<'input> ComputedStyles<'input> {
                     .attribute_group()
                     .contains(AttributeGroup::Presentation)
             })
+            .filter(|attr| {
+                // An explicit `inherit` is the same as leaving out an inheritable attribute
+                let ContentType::Inheritable(value) = attr.value() else {
+                    return true;
+                };
+                !attr.name().info().contains(AttributeInfo::Inheritable)
+                    || value != Inheritable::Inherited
+            })
             .map(|attr| attr.clone())
             .collect();
         ComputedStyles { attr, ..self }
-- 
2.43.0


From 491dd2950b7d694607d5ac02eb90c186c8975889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:23 +0000
Subject: [PATCH 034/110] fix: don't collapse attributes onto children that are
 used elsewhere

---
 crates/oxvg_optimiser/src/jobs/collapse_groups.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index 6373706..3396ebb 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -119,6 +119,9 @@ fn move_attributes_to_child<'input, 'arena>(
     if is_group_identifiable(element, first_child) {
         log::debug!("collapse_groups: not moving attrs: identifiable");
         return;
+    } else if is_referenced(first_child, context.root) {
+        log::debug!("collapse_groups: not moving attrs: child is used elsewhere");
+        return;
     } else if is_position_visually_unstable(element, first_child) {
         log::debug!("collapse_groups: not moving attrs: visually unstable");
         return;
-- 
2.43.0


From 018a921e779e859b7924fd9c467d277d5474c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:39 +0000
Subject: [PATCH 035/110] fix: don't move attributes that explicitly inherit to
 the group

---
 .../src/jobs/move_elems_attrs_to_group.rs             | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
index 08a43d5..a67a7e6 100644
--- a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
@@ -5,9 +5,12 @@ use oxvg_ast::{
     get_attribute_mut, has_attribute, is_attribute, is_element,
     visitor::{Context, ContextFlags, PrepareOutcome, Visitor},
 };
-use oxvg_collections::attribute::{
-    Attr, AttrId, AttributeInfo,
-    inheritable::{self, Inheritable},
+use oxvg_collections::{
+    attribute::{
+        Attr, AttrId, AttributeInfo,
+        inheritable::{self, Inheritable},
+    },
+    content_type::ContentType,
 };
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -129,6 +132,8 @@ fn get_common_attributes<'input>(
         .filter(|a| {
             is_attribute!(a, Transform) || a.name().info().contains(AttributeInfo::Inheritable)
         })
+        // On the group, it'd inherit from the group's parent instead
+        .filter(|a| !matches!(a.value(), ContentType::Inheritable(v) if v == Inheritable::Inherited))
         .map(|a| (a.name().clone(), a.clone()))
         .collect();
     parent.children_iter().for_each(|e| {
-- 
2.43.0


From f018f592831620c6467fc4abe7dfa8fb925b3e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:03 +0000
Subject: [PATCH 036/110] fix: don't merge paths whose paint depends on
 conditional rules

---
 crates/oxvg_optimiser/src/jobs/merge_paths.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/merge_paths.rs b/crates/oxvg_optimiser/src/jobs/merge_paths.rs
index ebfca3d..b5517b9 100644
--- a/crates/oxvg_optimiser/src/jobs/merge_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/merge_paths.rs
@@ -139,15 +139,15 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MergePaths {
                 )
                 || has_computed_style_css!(computed_styles, MaskImage(None))
                 || get_computed_style!(computed_styles, Fill).option().is_some_and(|(fill, mode)| {
-                    matches!(mode, Mode::Static)
-                        && matches!(fill.option(), Some(SVGPaint::Url { url,.. }) if url.url.starts_with('#'))
+                    matches!(mode, Mode::Dynamic)
+                        || matches!(fill.option(), Some(SVGPaint::Url { url,.. }) if url.url.starts_with('#'))
                 })
                 || get_computed_style!(computed_styles, Filter).option().is_some_and(|(filter, mode)| {
-                    matches!(mode, Mode::Static)
-                        && matches!(filter, Inheritable::Defined(FilterList::Filters(filters)) if filters.iter().any(|filter| matches!(filter, Filter::Url(url) if url.url.starts_with('#'))))
+                    matches!(mode, Mode::Dynamic)
+                        || matches!(filter, Inheritable::Defined(FilterList::Filters(filters)) if filters.iter().any(|filter| matches!(filter, Filter::Url(url) if url.url.starts_with('#'))))
                 })
                 || get_computed_style!(computed_styles, Stroke).option().is_some_and(|(stroke, mode)| {
-                    matches!(mode, Mode::Static) && matches!(stroke.option(), Some(SVGPaint::Url { url,.. }) if url.url.starts_with('#'))
+                    matches!(mode, Mode::Dynamic) || matches!(stroke.option(), Some(SVGPaint::Url { url,.. }) if url.url.starts_with('#'))
                 })
             {
                 log::debug!("ending merge, has forbidden style or reference");
-- 
2.43.0


From e948c4f4dd6425dd7606b96ce9659a7abcaf4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:01 +0000
Subject: [PATCH 037/110] fix: identify elements by their node when matching
 selectors

---
 crates/oxvg_ast/src/selectors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index 0779cdf..1ec239e 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -345,7 +345,8 @@ impl selectors::Element for SelectElement<'_, '_> {
     type Impl = SelectorImpl;
 
     fn opaque(&self) -> selectors::OpaqueElement {
-        selectors::OpaqueElement::new(self)
+        // The wrapper is temporary, so identify the element by its node
+        selectors::OpaqueElement::new(&*self.element.0)
     }
 
     fn parent_element(&self) -> Option<Self> {
-- 
2.43.0


From ead440ed38b7b6c2366d87717a949dc90851f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:34 +0000
Subject: [PATCH 038/110] fix: match names in selectors case-sensitively

---
 crates/oxvg_ast/src/selectors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index 1ec239e..c9caf4f 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -378,7 +378,7 @@ impl selectors::Element for SelectElement<'_, '_> {
     }
 
     fn is_html_element_in_html_document(&self) -> bool {
-        true
+        false
     }
 
     fn has_local_name(
-- 
2.43.0


From 3a4cfe304182516bc17e05e476c9dc8e41bc84ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:04 +0000
Subject: [PATCH 039/110] fix: elements with only comments match :empty

---
 crates/oxvg_ast/src/selectors.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index c9caf4f..cb2f7b7 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -521,12 +521,14 @@ impl selectors::Element for SelectElement<'_, '_> {
     }
 
     fn is_empty(&self) -> bool {
-        !self.element.has_child_nodes()
-            || self.element.child_nodes_iter().all(|child| {
-                child.node_type() == node::Type::Text
-                    && child
-                        .text_content()
-                        .is_none_or(|string| string.trim().is_empty())
+        self.element
+            .child_nodes_iter()
+            .all(|child| match child.node_type() {
+                node::Type::Comment | node::Type::ProcessingInstruction => true,
+                node::Type::Text => child
+                    .text_content()
+                    .is_none_or(|string| string.trim().is_empty()),
+                _ => false,
             })
     }
 
-- 
2.43.0


From f7567b0bd89c1047d9d72d6c448a6941b44bd3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:35 +0000
Subject: [PATCH 040/110] fix: apply the marker shorthand to each marker of an
 element

---
 crates/oxvg_ast/src/style.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 0884bf4..3cff8e3 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -346,8 +346,14 @@ impl<'input> ComputedStyles<'input> {
         let Some(style) = get_attribute_mut!(element, Style) else {
             return self;
         };
+        let expand = |declarations: &[Property<'input>]| {
+            declarations.iter().flat_map(Self::longhands).collect()
+        };
         ComputedStyles {
-            inline: Some(style.0.clone()),
+            inline: Some(DeclarationBlock {
+                declarations: expand(&style.0.declarations),
+                important_declarations: expand(&style.0.important_declarations),
+            }),
             ..self
         }
     }
@@ -520,12 +526,24 @@ impl<'input> ComputedStyles<'input> {
         specificity: u32,
         mode: Mode,
     ) {
-        for d in declarations {
+        for d in declarations.iter().flat_map(Self::longhands) {
             let id = d.property_id();
             if record.get(&id).is_some_and(|(other, _)| *other > specificity) {
                 continue;
             }
-            record.insert(id, (specificity, mode.style(Static::Css(d.clone()))));
+            record.insert(id, (specificity, mode.style(Static::Css(d))));
+        }
+    }
+
+    /// Splits shorthands into the properties that may be written as attributes
+    fn longhands(property: &Property<'input>) -> Vec<Property<'input>> {
+        match property {
+            Property::Marker(marker) => vec![
+                Property::MarkerStart(marker.clone()),
+                Property::MarkerMid(marker.clone()),
+                Property::MarkerEnd(marker.clone()),
+            ],
+            _ => vec![property.clone()],
         }
     }
 }
-- 
2.43.0


From 0f4c72d8565433c9d9567ab3a1d3675364b6606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:51 +0000
Subject: [PATCH 041/110] fix: apply style elements in document order

---
 crates/oxvg_ast/src/style.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 3cff8e3..fb5c493 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -135,13 +135,18 @@ pub struct ComputedStyles<'input> {
     important_declarations: HashMap<PropertyId<'input>, (u32, Style<'input>)>,
 }
 
-/// Gathers `<style>` declarations from the document
+/// Gathers `<style>` declarations from the document, in document order
 pub fn root<'input, 'arena>(
     root: Element<'input, 'arena>,
 ) -> impl Iterator<Item = RefCell<CssRuleList<'input>>> + use<'input, 'arena> {
-    root.breadth_first()
-        .filter_map(|node| node.first_child())
-        .filter_map(|node| node.style().cloned())
+    let mut queue = vec![root];
+    std::iter::from_fn(move || {
+        let element = queue.pop()?;
+        queue.extend(element.children_iter().rev());
+        Some(element)
+    })
+    .filter_map(|node| node.first_child())
+    .filter_map(|node| node.style().cloned())
 }
 
 impl<T> ComputedStyle<T> {
-- 
2.43.0


From e3991ddd2bb757cc6fdf57339ecf4f6a444581bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:02 +0000
Subject: [PATCH 042/110] fix: keep class tokens unique when replacing one with
 another that is present

---
 crates/oxvg_ast/src/class_list.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_ast/src/class_list.rs b/crates/oxvg_ast/src/class_list.rs
index 2ff4423..416b7a4 100644
--- a/crates/oxvg_ast/src/class_list.rs
+++ b/crates/oxvg_ast/src/class_list.rs
@@ -147,14 +147,18 @@ impl<'a, 'input: 'a> ClassList<'a, 'input> {
         let Some(mut attr) = self.attr() else {
             return false;
         };
-        let Some(token) = attr
-            .list
-            .iter_mut()
-            .find(|token| token.0.as_str() == old_token)
-        else {
+        if !attr.list.iter().any(|token| token.0.as_str() == old_token) {
             return false;
-        };
-        *token = NonWhitespace(new_token);
+        }
+        let new_token = NonWhitespace(new_token);
+        let mut replaced = false;
+        attr.list.retain_mut(|token| {
+            if token.0.as_str() != old_token && *token != new_token {
+                return true;
+            }
+            *token = new_token.clone();
+            !std::mem::replace(&mut replaced, true)
+        });
         true
     }
 
-- 
2.43.0


From d6eb05ac53ba9032821b74ace75b6a1e1a5583a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:34 +0000
Subject: [PATCH 043/110] fix: keep url references when ids are not prefixed

---
 crates/oxvg_optimiser/src/jobs/prefix_ids.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/prefix_ids.rs b/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
index fcfdaae..2f12464 100644
--- a/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
@@ -141,9 +141,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for PrefixIds {
                     Self::prefix_id(class, &mut prefix_generator);
                 });
             }
-            value.visit_url(|url| {
-                Self::prefix_reference(url, &mut prefix_generator);
-            });
+            if self.prefix_ids {
+                value.visit_url(|url| {
+                    Self::prefix_reference(url, &mut prefix_generator);
+                });
+            }
         }
 
         Ok(())
-- 
2.43.0


From df9536b03a2d7acc6d57c282d94a71bd45c107e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:21 +0000
Subject: [PATCH 044/110] fix: keep numeric ids that are referenced

---
 crates/oxvg_optimiser/src/jobs/cleanup_ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
index ee95858..01b1ca7 100644
--- a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
@@ -312,7 +312,7 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
                 };
                 log::debug!("CleanupIds: prepare_id: found id: {id}");
                 let id = id.to_string();
-                if self.replaceable_ids.contains(&id) || id.chars().all(char::is_numeric) {
+                if self.replaceable_ids.contains(&id) {
                     log::debug!("CleanupIds: prepare_id: removed redundant id: {id}");
                     return false;
                 }
-- 
2.43.0


From 35414f7664cec30630c89025d7b85968772c72ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:15 +0000
Subject: [PATCH 045/110] fix: keep the first of duplicate ids in document
 order

---
 crates/oxvg_optimiser/src/jobs/cleanup_ids.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
index 01b1ca7..91cbd54 100644
--- a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
@@ -305,7 +305,9 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
             self.options.preserve_prefixes
         );
         // Find ids
-        for element in root.breadth_first() {
+        let mut queue: Vec<_> = root.children_iter().rev().collect();
+        while let Some(element) = queue.pop() {
+            queue.extend(element.children_iter().rev());
             element.attributes().retain(|attr| {
                 let Attr::Id(NonWhitespace(id)) = attr else {
                     return true;
-- 
2.43.0


From a39fff9e4cb981405a4f726aea6654ebba2817fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:47 +0000
Subject: [PATCH 046/110] fix: keep referenced ids when removing without
 minifying

---
 crates/oxvg_optimiser/src/jobs/cleanup_ids.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
index 91cbd54..d253c23 100644
--- a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
@@ -219,7 +219,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
                     generated_id.next();
                 }
                 if !is_attribute!(name, Id) {
-                    used_ids.insert(minified_id.clone());
+                    used_ids.insert(if self.options.minify {
+                        minified_id.clone()
+                    } else {
+                        referenced_id.clone()
+                    });
                 }
                 if self.options.minify {
                     log::debug!(
@@ -247,7 +251,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
                     generated_id.next();
                 }
                 if !is_attribute!(name, Id) {
-                    used_ids.insert(minified_id.clone());
+                    used_ids.insert(if self.options.minify {
+                        minified_id.clone()
+                    } else {
+                        referenced_id.clone()
+                    });
                 }
                 if self.options.minify {
                     log::debug!(
-- 
2.43.0


From 473c615d1c59e6248ec0d580d0e6b2b2496a972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:06 +0000
Subject: [PATCH 047/110] fix: rename each reference of an attribute once

---
 crates/oxvg_optimiser/src/jobs/cleanup_ids.rs | 44 +++++++++----------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
index d253c23..ba30a82 100644
--- a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
@@ -32,7 +32,6 @@ struct GeneratedId {
 struct RefRename<'input, 'arena> {
     element_ref: Element<'input, 'arena>,
     name: AttrId<'input>,
-    referenced_id: String,
 }
 
 #[derive(Debug, Clone)]
@@ -143,31 +142,30 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
         // Find references in attributes
         let mut ref_renames = self.ref_renames.borrow_mut();
         let mut generated_id = self.generated_id.borrow_mut();
-        let mut track_reference = |reference: &str, attr: &AttrId<'input>| {
+        let mut track_reference = |reference: &str, is_renamed: &mut bool| {
             if self.replaceable_ids.contains(reference) {
-                ref_renames.push(RefRename {
-                    element_ref: element,
-                    name: attr.clone(),
-                    referenced_id: reference.to_string(),
-                });
+                *is_renamed = true;
             } else {
                 generated_id.insert_prevent_collision(reference.to_string());
             }
         };
         for mut attr in element.attributes().into_iter_mut() {
             let name = attr.name().clone();
+            let mut is_renamed = false;
             let mut value = attr.value_mut();
             value.visit_url(|reference| {
                 if !reference.starts_with('#') {
                     return;
                 }
-                if let Ok(reference) = urlencoding::decode(&reference[1..]) {
-                    track_reference(&reference, &name);
-                } else {
-                    track_reference(&reference[1..], &name);
-                }
+                track_reference(&decode_reference(&reference[1..]), &mut is_renamed);
             });
-            value.visit_id(|reference| track_reference(&reference, &name));
+            value.visit_id(|reference| track_reference(&reference, &mut is_renamed));
+            if is_renamed {
+                ref_renames.push(RefRename {
+                    element_ref: element,
+                    name,
+                });
+            }
         }
         Ok(())
     }
@@ -186,15 +184,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
         let mut minified_ids = BTreeMap::new();
         let mut used_ids = HashSet::new();
         let mut generated_id = self.generated_id.borrow_mut();
-        for RefRename {
-            element_ref,
-            name,
-            referenced_id,
-        } in &*self.ref_renames.borrow()
-        {
-            if !self.replaceable_ids.contains(referenced_id) {
-                continue;
-            }
+        for RefRename { element_ref, name } in &*self.ref_renames.borrow() {
             let element = element_ref;
             let Some(mut attr) = element.get_attribute_node_mut(name) else {
                 log::debug!("CleanupIds::breakdown: {name:?} attribute missing");
@@ -205,7 +195,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
                 if !reference.starts_with('#') {
                     return;
                 }
-                if &reference[1..] != referenced_id && urlencoding::decode(&reference[1..]).ok().is_none_or(|reference| &*reference != referenced_id) {
+                let referenced_id = &decode_reference(&reference[1..]);
+                if !self.replaceable_ids.contains(referenced_id) {
                     return;
                 }
                 let minified_id = minified_ids
@@ -237,7 +228,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
                 }
             });
             value.visit_id(|reference| {
-                if &*reference != referenced_id {
+                let referenced_id = &reference.to_string();
+                if !self.replaceable_ids.contains(referenced_id) {
                     return;
                 }
                 let minified_id = minified_ids
@@ -354,6 +346,10 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
     }
 }
 
+fn decode_reference(reference: &str) -> String {
+    urlencoding::decode(reference).map_or_else(|_| reference.to_string(), Into::into)
+}
+
 impl GeneratedId {
     fn set_prevent_collision(&mut self, ids: Vec<String>) {
         self.prevent_collision = ids.into_iter().collect();
-- 
2.43.0


From 9bf093cee96c74dad9f03ab099346a083747b4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:46 +0000
Subject: [PATCH 048/110] fix: avoid ids in use when naming reused paths

---
 crates/oxvg_optimiser/src/jobs/reuse_paths.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/reuse_paths.rs b/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
index c0bab58..33d1f19 100644
--- a/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
@@ -166,10 +166,15 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
             if is_id_protected {
                 remove_attribute!(list[0], Id);
             } else {
-                set_attribute!(
-                    reusable_path,
-                    Id(NonWhitespace(format!("reuse-{index}").into()))
-                );
+                let mut id = format!("reuse-{index}");
+                while element
+                    .breadth_first()
+                    .any(|e| get_attribute!(e, Id).is_some_and(|used| used.0.as_str() == id))
+                {
+                    index += 1;
+                    id = format!("reuse-{index}");
+                }
+                set_attribute!(reusable_path, Id(NonWhitespace(id.into())));
                 index += 1;
             }
 
-- 
2.43.0


From 3392a62e8a544d1eba0c2ff1a32e94efe78f140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:31 +0000
Subject: [PATCH 049/110] fix: keep gradients whose colour isn't known

---
 .../oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index 31bb659..25f8948 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -126,7 +126,6 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
         let mut gradients_to_detach = self.gradients_to_detach.borrow_mut();
         let Some(effective_node) = effective_node else {
             log::debug!("no effective nodes for gradient");
-            gradients_to_detach.insert(element.id(), element);
             return Ok(());
         };
 
@@ -146,9 +145,13 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
             self.effected_defs.borrow_mut().insert(parent.id(), parent);
         }
 
+        let color = get_color(context, &effective_stops)?;
+        if color.is_none() {
+            log::debug!("skipping, colour of gradient isn't known");
+            return Ok(());
+        }
         gradients_to_detach.insert(element.id(), element);
 
-        let color = get_color(context, &effective_stops)?;
         let Some(id) = get_attribute!(element, Id) else {
             log::debug!("skipping reference updates, no id");
             return Ok(());
-- 
2.43.0


From 1e83c6e7059cc95e57d6751302e8808104af49c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:20 +0000
Subject: [PATCH 050/110] fix: convert one-stop gradients used by style sheets

---
 crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index 25f8948..1a1120a 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -277,6 +277,11 @@ fn update_style_references<'input>(
     url: &str,
 ) -> Result<(), JobsError<'input>> {
     for element in context.root.breadth_first() {
+        for child in element.child_nodes_iter() {
+            if let Some(css) = child.style() {
+                css.borrow_mut().visit(&mut VisitPaint { url, color })?;
+            }
+        }
         let mut style = get_attribute_mut!(element, Style);
         let Some(oxvg_collections::attribute::core_attrs::Style(style)) = style.as_deref_mut()
         else {
-- 
2.43.0


From 694e5971665261b70ff3a70c89b6ea801c2dacd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:46 +0000
Subject: [PATCH 051/110] fix: keep one-stop gradients that are referenced
 other than as a paint

---
 .../src/jobs/convert_one_stop_gradients.rs    | 39 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index 1a1120a..914802b 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -1,6 +1,6 @@
 use std::{
     cell::{Cell, RefCell},
-    collections::HashMap,
+    collections::{HashMap, HashSet},
 };
 
 use lightningcss::{
@@ -173,6 +173,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
             return Ok(());
         }
 
+        self.retain_unreferenced(element);
         for gradient in self.gradients_to_detach.borrow().values() {
             if has_attribute!(gradient, XLinkHref) {
                 self.xlink_href_count.set(self.xlink_href_count.get() - 1);
@@ -199,6 +200,42 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
     }
 }
 
+impl<'input, 'arena> State<'input, 'arena> {
+    /// Keeps gradients that are still referenced by something other than a paint
+    fn retain_unreferenced(&self, root: Element<'input, 'arena>) {
+        let mut gradients_to_detach = self.gradients_to_detach.borrow_mut();
+        loop {
+            let mut references = HashSet::new();
+            for element in root.breadth_first() {
+                if gradients_to_detach.contains_key(&element.id()) {
+                    continue;
+                }
+                for mut attr in element.attributes().into_iter_mut() {
+                    if matches!(attr.unaliased(), Attr::Id(_)) {
+                        continue;
+                    }
+                    let mut value = attr.value_mut();
+                    value.visit_url(|url| {
+                        if let Some(id) = url.strip_prefix('#') {
+                            references.insert(id.to_string());
+                        }
+                    });
+                    value.visit_id(|id| {
+                        references.insert(id.to_string());
+                    });
+                }
+            }
+            let len = gradients_to_detach.len();
+            gradients_to_detach.retain(|_, gradient| {
+                get_attribute!(gradient, Id).is_none_or(|id| !references.contains(id.0.as_str()))
+            });
+            if gradients_to_detach.len() == len {
+                return;
+            }
+        }
+    }
+}
+
 fn get_color<'input, 'arena>(
     context: &mut Context<'input, 'arena, '_>,
     effective_stops: &[Element<'input, 'arena>],
-- 
2.43.0


From fc6e3f2f0df30b18430920ff4cf5fa9fd6acdc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:22 +0000
Subject: [PATCH 052/110] fix: prefix ids and classes of nested selectors

---
 crates/oxvg_optimiser/src/jobs/prefix_ids.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/prefix_ids.rs b/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
index 2f12464..bd4dabb 100644
--- a/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
@@ -173,8 +173,20 @@ impl<'input> lightningcss::visitor::Visitor<'input> for CssVisitor<'_, '_> {
             {
                 return Ok(());
             }
-            if let Component::ID(Ident(ident)) | Component::Class(Ident(ident)) = c {
-                PrefixIds::prefix_id(Reference::Css(ident), self.generator);
+            match c {
+                Component::ID(Ident(ident)) | Component::Class(Ident(ident)) => {
+                    PrefixIds::prefix_id(Reference::Css(ident), self.generator);
+                }
+                Component::Negation(selectors)
+                | Component::Is(selectors)
+                | Component::Where(selectors)
+                | Component::Any(_, selectors)
+                | Component::Has(selectors) => {
+                    selectors
+                        .iter_mut()
+                        .try_for_each(|selector| self.visit_selector(selector))?;
+                }
+                _ => {}
             }
             Ok(())
         })
-- 
2.43.0


From db3cdb6923f4224364fef9fa43d80f41c6cb376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:39 +0000
Subject: [PATCH 053/110] fix: write processing instructions anywhere in the
 document

---
 crates/oxvg_ast/src/xmlwriter.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index d673cc1..75f8c2a 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -478,17 +478,24 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         }
     }
 
-    /// Writes an XML declaration.
+    /// Writes an XML declaration or processing instruction.
     ///
     /// `<?xml version="1.0" encoding="UTF-8" standalone="no"?>`
     ///
     /// # Errors
     ///
-    /// - When called twice.
+    /// - When an XML declaration isn't the first thing written.
     #[inline(never)]
     pub fn write_declaration(&mut self, target: &Atom, value: &Option<Atom>) -> Result {
+        if self.state == State::Attributes {
+            self.write_open_element()?;
+        }
         if self.state != State::Empty {
-            return Err(XmlWriterError::DeclarationAlreadyWritten);
+            if target.as_str() == "xml" {
+                return Err(XmlWriterError::DeclarationAlreadyWritten);
+            }
+            self.write_new_line()?;
+            self.write_node_indent()?;
         }
         self.fmt_writer
             .writer
-- 
2.43.0


From 6cb0067a618b8c248e8a40d75e5b6029cb6b5895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:23 +0000
Subject: [PATCH 054/110] fix: add classes to root elements without losing or
 reordering any

---
 .../src/jobs/add_classes_to_s_v_g_element.rs  | 52 ++++---------------
 1 file changed, 11 insertions(+), 41 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
index 4b603e0..f22fd75 100644
--- a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
+++ b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
@@ -1,17 +1,8 @@
-use std::collections::HashSet;
-
 use oxvg_ast::{
     element::Element,
-    get_attribute_mut, is_element,
+    is_element,
     visitor::{Context, Visitor},
 };
-use oxvg_collections::{
-    atom::Atom,
-    attribute::{
-        core_attrs::NonWhitespace,
-        list_of::{ListOf, Space},
-    },
-};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
@@ -94,38 +85,17 @@ impl<'input, 'arena> Visitor<'input, 'arena> for AddClassesToSVGElement {
             return Ok(());
         }
 
-        let Some(mut class) = get_attribute_mut!(element, Class) else {
-            return Ok(());
+        let names: Vec<&str> = match (&self.class_names, &self.class_name) {
+            (Some(names), _) => names
+                .iter()
+                .flat_map(|name| name.split_whitespace())
+                .collect(),
+            (None, Some(name)) => name.split_whitespace().collect(),
+            (None, None) => return Ok(()),
         };
-
-        match &self.class_names {
-            Some(names) => {
-                let mut set = HashSet::new();
-                for item in class.list.drain(..) {
-                    set.insert(item);
-                }
-                set.extend(
-                    names
-                        .iter()
-                        .map(|name| &*context.info.allocator.alloc_str(name))
-                        .map(Into::into),
-                );
-                class.list = set.into_iter().collect();
-            }
-            None => match &self.class_name {
-                Some(name) => {
-                    *class = ListOf {
-                        list: name
-                            .split_whitespace()
-                            .map(Atom::from)
-                            .map(Atom::into_owned)
-                            .map(NonWhitespace)
-                            .collect(),
-                        separator: Space,
-                    }
-                }
-                None => return Ok(()),
-            },
+        let mut class_list = element.class_list();
+        for name in names {
+            class_list.add((&*context.info.allocator.alloc_str(name)).into());
         }
         Ok(())
     }
-- 
2.43.0


From 9d35e4f9df8b148462ad1487905f12a5ddf10951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:13 +0000
Subject: [PATCH 055/110] fix: keep namespaces of names in the scope they're
 declared in

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 76 +++++++++++++-------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 81341af..5399108 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -6,7 +6,9 @@
 //!
 //! - Default PI is skipped
 //! - Duplicate namespace uris are merged
-use std::{cell::RefCell, collections::HashMap, fmt::Display};
+#[cfg(feature = "range")]
+use std::collections::HashMap;
+use std::{cell::RefCell, fmt::Display};
 
 use lightningcss::{
     rules::CssRuleList,
@@ -36,34 +38,42 @@ pub enum ParseError {
     IO(std::io::Error),
 }
 
+/// The namespaces in scope of the current element, with the innermost declarations last.
 #[derive(Debug, Default)]
-struct NamespaceMap<'input> {
-    prefix_to_uri: HashMap<Option<&'input str>, Option<&'input str>>,
-    uri_to_prefix: HashMap<Option<&'input str>, Option<&'input str>>,
-}
+struct NamespaceMap<'input>(Vec<(Option<&'input str>, &'input str)>);
 
-#[allow(clippy::ref_option)]
 impl<'input> NamespaceMap<'input> {
     fn new() -> Self {
         Self::default()
     }
 
-    fn insert(
-        &mut self,
-        prefix: Option<&'input str>,
-        uri: Option<&'input str>,
-    ) -> Option<(Option<&'input str>, Option<&'input str>)> {
-        let p = self.uri_to_prefix.insert(uri, prefix);
-        let u = self.prefix_to_uri.insert(prefix, uri);
-        Some((p?, u?))
+    fn insert(&mut self, prefix: Option<&'input str>, uri: &'input str) {
+        self.0.push((prefix, uri));
     }
 
+    /// Returns the prefix, if any, for the name of an element
     fn get_by_uri(&self, uri: Option<&'input str>) -> Option<&'input str> {
-        self.uri_to_prefix.get(&uri).copied().flatten()
+        let uri = uri?;
+        if self.get_by_prefix(None) == Some(uri) {
+            return None;
+        }
+        self.get_prefix(uri)
+    }
+
+    /// Returns the innermost prefix which isn't shadowed
+    fn get_prefix(&self, uri: &str) -> Option<&'input str> {
+        self.0
+            .iter()
+            .rev()
+            .filter(|(prefix, u)| *u == uri && self.get_by_prefix(*prefix) == Some(uri))
+            .find_map(|(prefix, _)| *prefix)
     }
 
-    fn get_by_prefix(&self, prefix: Option<&'input str>) -> Option<&'input str> {
-        self.prefix_to_uri.get(&prefix).copied().flatten()
+    fn get_by_prefix(&self, prefix: Option<&str>) -> Option<&'input str> {
+        self.0
+            .iter()
+            .rev()
+            .find_map(|(p, uri)| (*p == prefix).then_some(*uri))
     }
 }
 
@@ -84,7 +94,7 @@ where
     let mut allocator = Allocator::new(arena, values);
 
     let mut namespace_map = NamespaceMap::new();
-    namespace_map.insert(Some("xml"), Some("http://www.w3.org/XML/1998/namespace"));
+    namespace_map.insert(Some("xml"), "http://www.w3.org/XML/1998/namespace");
 
     let document = allocator.alloc(NodeData::Document);
     let document = parse_xml_node_children(
@@ -200,14 +210,15 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         return Err(ParseError::NodesLimitReached);
     }
 
-    let mut popped_ns: Vec<(Option<&'a str>, Option<&'a str>)> = vec![];
+    let scope = namespace_map.0.len();
     let child = match node.node_type() {
         roxmltree::NodeType::Root => create_root(allocator),
         roxmltree::NodeType::PI => parse_pi(allocator, node.pi().unwrap()),
         roxmltree::NodeType::Element => {
-            let (child, style) = parse_element(allocator, node, namespace_map, &mut popped_ns);
+            let (child, style) = parse_element(allocator, node, namespace_map);
             if let Some(style) = style {
                 attach_child(child, style);
+                namespace_map.0.truncate(scope);
                 return Ok(child);
             }
             child
@@ -216,9 +227,7 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         roxmltree::NodeType::Text => parse_text(allocator, node),
     };
     parse_xml_node_children(child, allocator, node, depth + 1, namespace_map)?;
-    for (prefix, value) in popped_ns {
-        namespace_map.insert(prefix, value);
-    }
+    namespace_map.0.truncate(scope);
     Ok(child)
 }
 
@@ -226,10 +235,7 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     arena: &mut Allocator<'a, 'arena>,
     xml_node: roxmltree::Node<'a, 'input>,
     namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: &mut Vec<(Option<&'a str>, Option<&'a str>)>,
 ) -> (Ref<'a, 'arena>, Option<Ref<'a, 'arena>>) {
-    let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
-
     let xml_node_namespaces = xml_node.namespaces();
     let xml_node_attributes = xml_node.attributes();
     #[cfg(feature = "range")]
@@ -237,7 +243,8 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     #[cfg(feature = "range")]
     let range = xml_node.range();
     let mut attrs = Vec::with_capacity(xml_node_attributes.len() + xml_node_namespaces.len());
-    attrs.extend(xml_node_namespaces.filter_map(|ns| find_new_xmlns(ns, namespace_map, popped_ns)));
+    attrs.extend(xml_node_namespaces.filter_map(|ns| find_new_xmlns(ns, namespace_map)));
+    let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
     attrs.extend(xml_node_attributes.map(|attr| {
         #[cfg(feature = "range")]
         let range = crate::node::Ranges {
@@ -335,7 +342,7 @@ fn parse_attr<'a, 'input: 'a>(
     value: &'input str,
 ) -> Attr<'a> {
     let ns = attr.namespace();
-    let prefix = namespace_map.get_by_uri(ns);
+    let prefix = ns.and_then(|ns| namespace_map.get_prefix(ns));
     let ns = ns.map_or_else(
         || namespace_map.get_by_prefix(None).unwrap_or_default().into(),
         Into::into,
@@ -365,18 +372,13 @@ fn parse_expanded_name<'a, 'input: 'a>(
 fn find_new_xmlns<'a, 'input: 'a>(
     ns: &'a roxmltree::Namespace<'input>,
     namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: &mut Vec<(Option<&'a str>, Option<&'a str>)>,
 ) -> Option<Attr<'a>> {
     if find_xml_uri(ns, namespace_map) {
         return None;
     }
     let uri = ns.uri();
     if let Some(prefix) = ns.name() {
-        if namespace_map.get_by_prefix(None) != Some(uri)
-            && let Some(popped) = namespace_map.insert(Some(prefix), Some(uri))
-        {
-            popped_ns.push(popped);
-        }
+        namespace_map.insert(Some(prefix), uri);
         // return `xmlns:ns="uri"`
         Some(Attr::Unparsed {
             attr_id: AttrId::Unknown(QualName {
@@ -385,10 +387,8 @@ fn find_new_xmlns<'a, 'input: 'a>(
             }),
             value: uri.into(),
         })
-    } else if !ns.uri().is_empty() {
-        if let Some(popped) = namespace_map.insert(None, Some(uri)) {
-            popped_ns.push(popped);
-        }
+    } else if !ns.uri().is_empty() || namespace_map.get_by_prefix(None).is_some() {
+        namespace_map.insert(None, uri);
         // return `xmlns="uri"`
         Some(Attr::XMLNS(uri.into()))
     } else {
-- 
2.43.0


From 59a6cd916e4b77d02b9286fc4451d1f7963bd059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:20 +0000
Subject: [PATCH 056/110] fix: escape ampersands in style sheets

---
 crates/oxvg_ast/src/xmlwriter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index 75f8c2a..bf2e5c4 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -430,7 +430,9 @@ impl<W: Write> fmt::Write for FmtWriter<W> {
             Escape::Text => self.write_escaped(s, false),
             // We don't bother escaping double hyphen (--) in comment as it's
             // unlikely to ever happen, and even libxml2 does not do it.
-            Escape::Comment | Escape::CData | Escape::Style => self.writer.write_all(s.as_bytes()),
+            Escape::Comment | Escape::CData => self.writer.write_all(s.as_bytes()),
+            // Comparisons and combinators are left readable
+            Escape::Style => self.writer.write_all(s.replace('&', "&amp;").as_bytes()),
         };
         if let Err(error) = error.as_ref() {
             self.error_kind = Some(error.kind());
-- 
2.43.0


From 8e2f9f6e56ea221f79fd28da17ba7c92aa1e9c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:59 +0000
Subject: [PATCH 057/110] fix: escape line breaks and tabs in attribute values

---
 crates/oxvg_ast/src/xmlwriter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index bf2e5c4..895cb22 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -392,6 +392,10 @@ impl<W: Write> FmtWriter<W> {
                 b'<' => Some(b"&lt;"),
                 b'"' if escape_quotes && !self.use_single_quote => Some(b"&quot;"),
                 b'\'' if escape_quotes && self.use_single_quote => Some(b"&apos;"),
+                // These would be normalised to spaces when read again
+                b'\n' if escape_quotes => Some(b"&#10;"),
+                b'\t' if escape_quotes => Some(b"&#9;"),
+                b'\r' => Some(b"&#13;"),
                 _ => None,
             };
             if let Some(escaped_char) = escaped_char {
-- 
2.43.0


From 8ff83e3b9b5e1a880298907950a1fd35f5c9c320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:36 +0000
Subject: [PATCH 058/110] fix: keep spaces between the contents of text

---
 crates/oxvg_ast/src/xmlwriter.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index 895cb22..80023c4 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -822,6 +822,15 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         match space {
             Space::Default => {
                 if text.trim_start().is_empty() {
+                    if is_first || is_last || self.opt.indent != Indent::None || !self.is_in_text()
+                    {
+                        return Ok(());
+                    }
+                    self.before_write_text(false)?;
+                    self.fmt_writer
+                        .write_char(' ')
+                        .map_err(|_| self.fmt_writer.take_err())?;
+                    self.state = State::Document;
                     return Ok(());
                 }
                 self.before_write_text(false)?;
@@ -1140,6 +1149,14 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         Ok(())
     }
 
+    fn is_in_text(&self) -> bool {
+        self.depth_stack.iter().any(|data| {
+            data.element_name
+                .as_ref()
+                .is_some_and(|name| is_element!(name, Text))
+        })
+    }
+
     fn is_text_content_element(&self) -> bool {
         self.depth_stack.iter().rev().any(is_text_content_element)
     }
-- 
2.43.0


From 958a66def990a0a4a66fe9212dcfa199de0db1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:37 +0000
Subject: [PATCH 059/110] fix: end the scope of xml:space with its element

---
 crates/oxvg_ast/src/xmlwriter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index 80023c4..f09d9f4 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -348,6 +348,8 @@ enum State {
 struct DepthData<'input> {
     element_name: Option<ElementId<'input>>,
     has_children: bool,
+    /// The value of `preserve_whitespaces` outside the element
+    preserve_whitespaces: bool,
 }
 
 /// This wrapper writer is so that we can make sure formatted strings are properly escaped too,
@@ -566,6 +568,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
             self.depth_stack.push(DepthData {
                 element_name: None,
                 has_children: false,
+                preserve_whitespaces: self.preserve_whitespaces,
             });
         }
 
@@ -607,6 +610,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         self.depth_stack.push(DepthData {
             element_name: Some(name.clone()),
             has_children: false,
+            preserve_whitespaces: self.preserve_whitespaces,
         });
 
         self.state = State::Attributes;
@@ -975,6 +979,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
             self.depth_stack.push(DepthData {
                 element_name: None,
                 has_children: false,
+                preserve_whitespaces: self.preserve_whitespaces,
             });
         }
 
@@ -1018,7 +1023,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
                     .map_err(XmlWriterError::IO)?;
 
                 // Write the previous opening element name as closing element now.
-                let Some(element_name) = depth.element_name else {
+                let Some(element_name) = &depth.element_name else {
                     return Err(XmlWriterError::ClosedUnopenedElement);
                 };
                 self.fmt_writer
@@ -1036,6 +1041,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
                     .write_all(b"/>")
                     .map_err(XmlWriterError::IO)?;
             }
+            self.preserve_whitespaces = depth.preserve_whitespaces;
         }
 
         self.state = State::Document;
-- 
2.43.0


From b98a0dd5ca6a60befc71e5fa943c1de7c2c9fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:21 +0000
Subject: [PATCH 060/110] fix: keep style sheets that can't be parsed

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 5399108..5de4a86 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -297,7 +297,8 @@ fn parse_style<'a, 'input: 'a, 'arena>(
             ..ParserOptions::default()
         };
         let style = StyleSheet::parse(style, options);
-        let Ok(style) = style else { continue };
+        // Keep what can't be parsed as text
+        let Ok(style) = style else { return None };
         rules.0.extend(style.rules.0);
     }
     if rules.0.is_empty() {
-- 
2.43.0


From c617473d3e2e36f6dd63e9213317a910b4d89e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:09 +0000
Subject: [PATCH 061/110] fix: keep other attributes when removing XLink

---
 .../oxvg_optimiser/src/jobs/remove_xlink.rs   | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
index ca9e1c4..c78e06d 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
@@ -122,7 +122,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
         element: Element<'input, 'arena>,
         _context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
+        let is_legacy = !self.options.include_legacy
+            && element.qual_name().info().contains(ElementInfo::Legacy);
         element.attributes().retain(|attr| {
+            if is_prefix!(attr, XLink) {
+                return is_legacy;
+            }
             let Attr::Unparsed {
                 attr_id: AttrId::Unknown(QualName { prefix, .. }),
                 value,
@@ -130,25 +135,16 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
             else {
                 return true;
             };
-            if is_prefix!(prefix, XMLNS) && value == NS::XLink.uri() {
-                return false;
+            if !is_prefix!(prefix, XMLNS) || value != NS::XLink.uri() {
+                return true;
             }
 
             self.xlink_prefix_stack.borrow_mut().pop();
-            let overridden_prefixes = self
-                .overridden_prefix_stack
-                .borrow_mut()
-                .pop()
-                .unwrap_or(false);
-            let used_in_legacy_element = self
-                .used_in_legacy_element_stack
+            self.overridden_prefix_stack.borrow_mut().pop();
+            self.used_in_legacy_element_stack
                 .borrow_mut()
                 .pop()
-                .unwrap_or(false);
-            if !self.options.include_legacy && !overridden_prefixes && !used_in_legacy_element {
-                return false;
-            }
-            true
+                .unwrap_or(false)
         });
 
         Ok(())
@@ -199,6 +195,7 @@ impl<'input> State<'_, 'input> {
             .create_element(ElementId::Title, &context.info.allocator);
         title_element.set_text_content(title, &context.info.allocator);
         element.insert(0, title_element.0);
+        let _ = title_element.set_local_name(ElementId::Title, &context.info.allocator);
     }
 
     fn handle_href(
@@ -206,16 +203,19 @@ impl<'input> State<'_, 'input> {
         used_in_legacy_element: &mut [bool],
         include_legacy: bool,
     ) {
-        let used_in_legacy_element = used_in_legacy_element.last_mut();
-        if has_attribute!(element, Href) {
-            return;
-        }
         if !include_legacy && element.qual_name().info().contains(ElementInfo::Legacy) {
-            if let Some(value) = used_in_legacy_element {
-                *value = true;
+            if element
+                .attributes()
+                .into_iter()
+                .any(|attr| is_prefix!(attr, XLink))
+            {
+                used_in_legacy_element.fill(true);
             }
             return;
         }
+        if has_attribute!(element, Href) {
+            return;
+        }
 
         let Some(href) = remove_attribute!(element, XLinkHref) else {
             return;
-- 
2.43.0


From 364fba218708394b59a64c90dc267da5a2b33623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:07 +0000
Subject: [PATCH 062/110] fix: keep the xlink declaration while XLink
 attributes remain

---
 .../src/jobs/convert_one_stop_gradients.rs    | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index 914802b..856d3a3 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -1,5 +1,5 @@
 use std::{
-    cell::{Cell, RefCell},
+    cell::RefCell,
     collections::{HashMap, HashSet},
 };
 
@@ -11,7 +11,7 @@ use lightningcss::{
 };
 use oxvg_ast::{
     element::Element,
-    get_attribute, get_attribute_mut, has_attribute, is_element,
+    get_attribute, get_attribute_mut, is_element,
     node::AllocationID,
     style::{ComputedStyles, Mode},
     visitor::{Context, PrepareOutcome, Visitor},
@@ -24,6 +24,7 @@ use oxvg_collections::{
         inheritable::Inheritable,
     },
     content_type::ContentType,
+    is_prefix,
     name::{Prefix, QualName},
 };
 #[cfg(feature = "serde")]
@@ -56,7 +57,6 @@ struct State<'input, 'arena> {
     /// All defs and their associated parent
     all_defs: RefCell<HashMap<AllocationID, Element<'input, 'arena>>>,
     gradients_to_detach: RefCell<HashMap<AllocationID, Element<'input, 'arena>>>,
-    xlink_href_count: Cell<usize>,
 }
 
 impl<'input, 'arena> Visitor<'input, 'arena> for ConvertOneStopGradients {
@@ -91,9 +91,6 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
         element: Element<'input, 'arena>,
         context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
-        if has_attribute!(element, XLinkHref) {
-            self.xlink_href_count.set(self.xlink_href_count.get() + 1);
-        }
         if is_element!(element, Defs) {
             self.all_defs.borrow_mut().insert(element.id(), element);
             return Ok(());
@@ -175,14 +172,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
 
         self.retain_unreferenced(element);
         for gradient in self.gradients_to_detach.borrow().values() {
-            if has_attribute!(gradient, XLinkHref) {
-                self.xlink_href_count.set(self.xlink_href_count.get() - 1);
-            }
-
             gradient.remove();
         }
 
-        if self.xlink_href_count.get() == 0 {
+        if !element.breadth_first().any(|e| {
+            e.attributes()
+                .into_iter()
+                .any(|attr| is_prefix!(attr, XLink))
+        }) {
             element.remove_attribute(&AttrId::Unknown(QualName {
                 prefix: Prefix::XMLNS,
                 local: Atom::Static("xlink"),
-- 
2.43.0


From 8f02b9850f0e7123a4f7fcedb8af6cb79462c60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:50 +0000
Subject: [PATCH 063/110] fix: create reused paths in the document's namespaces

---
 crates/oxvg_optimiser/src/jobs/reuse_paths.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/reuse_paths.rs b/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
index 33d1f19..bd84714 100644
--- a/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
@@ -121,7 +121,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
             return Ok(());
         }
         let mut paths = self.paths.borrow_mut();
-        if paths.is_empty() {
+        if paths.iter().all(|(_, list)| list.len() == 1) {
             return Ok(());
         }
 
@@ -133,6 +133,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
             drop(defs);
             let defs = document.create_element(ElementId::Defs, &context.info.allocator);
             element.insert(0, &defs);
+            let defs = defs.set_local_name(ElementId::Defs, &context.info.allocator);
             self.defs.replace(Some(defs));
             defs
         };
@@ -146,6 +147,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
 
             let reusable_path = document.create_element(ElementId::Path, &context.info.allocator);
             defs.append(reusable_path.0);
+            let reusable_path =
+                reusable_path.set_local_name(ElementId::Path, &context.info.allocator);
 
             let mut is_id_protected = false;
             for attr in list[0].attributes() {
@@ -234,6 +237,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
 
 impl<'input, 'arena> State<'input, 'arena> {
     fn add_path(&self, element: Element<'input, 'arena>) {
+        let xmlns = element.find_xmlns(Some("xlink"));
+        if &xmlns != NS::XLink.uri() && &xmlns != NS::SVG.uri() {
+            log::debug!("not reusing path, `xlink` is bound to another namespace");
+            return;
+        }
         let Some(path::Path(path, _)) = get_attribute!(element, D).as_deref().cloned() else {
             return;
         };
-- 
2.43.0


From 87681ca16160e232dd4eba0be72469b4e7fa38a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:32:26 +0000
Subject: [PATCH 064/110] fix: don't panic on style attributes that can't be
 parsed

---
 crates/oxvg_optimiser/src/jobs/minify_styles.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/minify_styles.rs b/crates/oxvg_optimiser/src/jobs/minify_styles.rs
index 73deda8..3fe4815 100644
--- a/crates/oxvg_optimiser/src/jobs/minify_styles.rs
+++ b/crates/oxvg_optimiser/src/jobs/minify_styles.rs
@@ -183,8 +183,9 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
         }
 
         for element_with_style in self.elements_with_style.borrow().values() {
-            let mut style_sheet =
-                get_attribute_mut!(element_with_style, Style).expect("element without style used");
+            let Some(mut style_sheet) = get_attribute_mut!(element_with_style, Style) else {
+                continue;
+            };
 
             minify_style::style(&mut style_sheet.0);
             if style_sheet.0.is_empty() {
-- 
2.43.0


From 4e588e8e64864192fb9e5060e74c95ff1a12a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:01 +0000
Subject: [PATCH 065/110] fix: don't panic on style and attributes under other
 prefixes

---
 crates/oxvg_ast/src/node.rs  | 1 -
 crates/oxvg_ast/src/style.rs | 3 ++-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index acefd67..2c5f9b8 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -525,7 +525,6 @@ impl<'input, 'arena> Node<'input, 'arena> {
         match &self.node_data {
             NodeData::Style(style) => Some(style),
             NodeData::Element { name, .. } if is_element!(name, Style) => {
-                debug_assert!(self.child_node_count() <= 1);
                 self.first_child().and_then(Node::style)
             }
             _ => None,
diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index fb5c493..459c74f 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -32,7 +32,8 @@ macro_rules! get_computed_style {
             }
             Some((
                 oxvg_collections::attribute::Attr::Unparsed { .. }
-                | oxvg_collections::attribute::Attr::CSSUnknown { .. },
+                | oxvg_collections::attribute::Attr::CSSUnknown { .. }
+                | oxvg_collections::attribute::Attr::Aliased { .. },
                 _,
             )) => $crate::style::ComputedStyle::Unparsed,
             Some(attr) => {
-- 
2.43.0


From 47b40595879f8672553dd68ea89faf3ad8d62863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:21 +0000
Subject: [PATCH 066/110] fix: restore insert actions from the embedded state

---
 crates/oxvg_actions/src/state.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_actions/src/state.rs b/crates/oxvg_actions/src/state.rs
index a181c5e..0f28472 100644
--- a/crates/oxvg_actions/src/state.rs
+++ b/crates/oxvg_actions/src/state.rs
@@ -374,6 +374,12 @@ impl<'input> Action<'input> {
                 };
                 Ok(Self::SkewY(y))
             }
+            Self::INSERT => {
+                let Some(name) = args.next().transpose()? else {
+                    return Err(Error::MissingStateAttribute(Self::ARG));
+                };
+                Ok(Self::Insert(name))
+            }
             Self::FORGET => Ok(Self::Forget),
             Self::SELECT => {
                 let Some(string) = args.next().transpose()? else {
-- 
2.43.0


From 9bece694e70b833446074aad687edfb91ce94470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:42 +0000
Subject: [PATCH 067/110] fix: record that nothing is selected after deselect

---
 crates/oxvg_actions/src/effects.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/oxvg_actions/src/effects.rs b/crates/oxvg_actions/src/effects.rs
index b45badd..b045866 100644
--- a/crates/oxvg_actions/src/effects.rs
+++ b/crates/oxvg_actions/src/effects.rs
@@ -63,6 +63,7 @@ impl<'input> Actor<'input, '_> {
         if selections.list.is_empty() {
             state_selections.remove_attribute(&create_oxvg_attr_id(StateElement::SELECTION_IDS));
             state_selections.remove();
+            self.state.selection = None;
             return Ok(());
         }
 
-- 
2.43.0


From 86c23312838bb6278f12c6a9973c5c0df42ff930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:05 +0000
Subject: [PATCH 068/110] fix: select each element once

---
 crates/oxvg_actions/src/effects.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/oxvg_actions/src/effects.rs b/crates/oxvg_actions/src/effects.rs
index b045866..b44486c 100644
--- a/crates/oxvg_actions/src/effects.rs
+++ b/crates/oxvg_actions/src/effects.rs
@@ -3,6 +3,8 @@
 //! Some code style rules regarding effects:
 //! - Effect should be called only for action methods, not in utility functions used by actions.
 //! - Effects should called when all relevant actions make an effect, as specified in `./spec/`.
+use std::collections::HashSet;
+
 use oxvg_collections::{
     atom::Atom,
     attribute::{
@@ -67,6 +69,9 @@ impl<'input> Actor<'input, '_> {
             return Ok(());
         }
 
+        let mut selections = selections.clone();
+        let mut seen = HashSet::new();
+        selections.list.retain(|id| seen.insert(*id));
         let selections: Atom = selections
             .to_value_string(PrinterOptions::default())
             .map_err(|err| Error::SerializeError(err.to_string()))?
-- 
2.43.0


From 4742241b291425424b0bd856a0259466a5fba7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:32 +0000
Subject: [PATCH 069/110] fix: select as if the embedded state weren't there

---
 crates/oxvg_actions/src/actions/state.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_actions/src/actions/state.rs b/crates/oxvg_actions/src/actions/state.rs
index 2a5e649..e23cd11 100644
--- a/crates/oxvg_actions/src/actions/state.rs
+++ b/crates/oxvg_actions/src/actions/state.rs
@@ -91,19 +91,22 @@ impl<'input> Actor<'input, '_> {
     fn select_internal(
         &mut self,
         query: &str,
-    ) -> Result<ListOf<Integer, SpaceOrComma>, Error<'static>> {
+    ) -> Result<ListOf<Integer, SpaceOrComma>, Error<'input>> {
         if query.chars().next().is_some_and(|c| c.is_ascii_digit()) {
             ListOf::parse_string(query).map_err(|err| Error::ParseError(err.to_string()))
         } else {
             let Some(root) = self.root.element() else {
                 return Err(Error::NoRootElement);
             };
-            let elements = root
-                .select(query)
-                .map_err(|_| Error::InvalidSelector(query.to_string()))?;
-
+            // The state isn't part of the drawing, so it mustn't affect what's selected
+            self.effect_state(StateEffect::Remove)?;
             #[allow(clippy::cast_possible_wrap)]
-            Ok(elements.map(|e| e.id() as Integer).collect())
+            let selections = root
+                .select(query)
+                .map(|elements| elements.map(|e| e.id() as Integer).collect())
+                .map_err(|_| Error::InvalidSelector(query.to_string()));
+            self.effect_state(StateEffect::Embed)?;
+            selections
         }
     }
 }
-- 
2.43.0


From a3a4414251496abb47be78114602803ab325e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:01 +0000
Subject: [PATCH 070/110] fix: embed state after every recorded action

---
 crates/oxvg_actions/src/actions.rs           | 2 --
 crates/oxvg_actions/src/actions/transform.rs | 2 +-
 crates/oxvg_actions/src/effects.rs           | 2 ++
 crates/oxvg_actions/src/state.rs             | 1 -
 4 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_actions/src/actions.rs b/crates/oxvg_actions/src/actions.rs
index 061efcc..b4f6e99 100644
--- a/crates/oxvg_actions/src/actions.rs
+++ b/crates/oxvg_actions/src/actions.rs
@@ -17,7 +17,6 @@ mod structure;
 mod transform;
 
 use crate::{
-    effects::StateEffect,
     error::Error,
     state::{DerivedState, State, StateElement},
     utils::get_oxvg_attr,
@@ -164,7 +163,6 @@ impl<'input, 'arena> Actor<'input, 'arena> {
     ///
     /// If serialization fails, or if the document is missing a root element.
     pub fn snapshot(&mut self) -> Result<String, Error<'input>> {
-        self.effect_state(StateEffect::Embed)?;
         self.root
             .serialize()
             .map_err(|err| Error::SerializeError(err.to_string()))
diff --git a/crates/oxvg_actions/src/actions/transform.rs b/crates/oxvg_actions/src/actions/transform.rs
index 64fed81..e4671a4 100644
--- a/crates/oxvg_actions/src/actions/transform.rs
+++ b/crates/oxvg_actions/src/actions/transform.rs
@@ -93,7 +93,7 @@ impl<'input> Actor<'input, '_> {
     ///
     #[doc = include_str!("../spec/manipulate/skewX.md")]
     pub fn skew_x(&mut self, angle: Number) -> Result<(), Error<'input>> {
-        self.state.record(&Action::SkewX(angle), &self.allocator);
+        self.effect_history(&Action::SkewX(angle));
         self.append_transform(&SVGTransform::SkewX(angle))
     }
 
diff --git a/crates/oxvg_actions/src/effects.rs b/crates/oxvg_actions/src/effects.rs
index b44486c..acabc2e 100644
--- a/crates/oxvg_actions/src/effects.rs
+++ b/crates/oxvg_actions/src/effects.rs
@@ -41,6 +41,8 @@ impl<'input> Actor<'input, '_> {
     /// Must be called at the start of an action that affects history.
     pub(crate) fn effect_history(&mut self, action: &Action<'input>) {
         self.state.record(action, &self.allocator);
+        // Can only fail without a root element, which is required by `Actor::new`
+        let _ = self.effect_state(StateEffect::Embed);
     }
 
     // TODO: pub fn clipboard
diff --git a/crates/oxvg_actions/src/state.rs b/crates/oxvg_actions/src/state.rs
index 0f28472..5572df1 100644
--- a/crates/oxvg_actions/src/state.rs
+++ b/crates/oxvg_actions/src/state.rs
@@ -94,7 +94,6 @@ impl<'input, 'arena> State<'input, 'arena> {
             selection: None,
         };
 
-        state_element.remove();
         for element in state_element.children_iter() {
             state.debed_field(element)?;
         }
-- 
2.43.0


From 358caf89ba0df3b294ea1c994e62b2e73bcdc691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:26 +0000
Subject: [PATCH 071/110] fix: insert only where the element is permitted

---
 crates/oxvg_actions/src/actions/structure/creation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_actions/src/actions/structure/creation.rs b/crates/oxvg_actions/src/actions/structure/creation.rs
index 903dbf8..35367cb 100644
--- a/crates/oxvg_actions/src/actions/structure/creation.rs
+++ b/crates/oxvg_actions/src/actions/structure/creation.rs
@@ -43,7 +43,11 @@ impl<'input> Actor<'input, '_> {
             .into_iter()
             .filter_map(|s| self.allocator.get(s as usize))
             .filter_map(Node::element)
+            .filter(|selected| selected.qual_name().is_permitted_child(&element))
             .collect::<Vec<_>>();
+        if selections.is_empty() {
+            return Ok(());
+        }
         let mut new_elements = Vec::with_capacity(selections.len());
         for selected in selections {
             let element = document.create_element(element.clone(), &self.allocator);
-- 
2.43.0


From 1bcb0d5c693791ce82b2bfeb8b1b244cb6225fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:17 +0000
Subject: [PATCH 072/110] fix: enable jobs that are selected by name only

---
 .../oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_dimensions.rs       | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_raster_images.rs    | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_scripts.rs          | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_style_element.rs    | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs        | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/reuse_paths.rs             | 8 +++++++-
 8 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index 856d3a3..65b4f5d 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -38,7 +38,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Converts `linearGradient` and `radialGradient` nodes that are a solid colour
 /// to the equivalent colour.
@@ -326,6 +326,12 @@ fn update_style_references<'input>(
     Ok(())
 }
 
+impl Default for ConvertOneStopGradients {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 #[test]
 fn convert_one_stop_gradients() -> anyhow::Result<()> {
     use crate::test_config;
diff --git a/crates/oxvg_optimiser/src/jobs/remove_dimensions.rs b/crates/oxvg_optimiser/src/jobs/remove_dimensions.rs
index 71370da..bb28a81 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_dimensions.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_dimensions.rs
@@ -16,7 +16,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes `width` and `height` from the `<svg>` and replaces it with `viewBox` if missing.
 ///
@@ -100,6 +100,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveDimensions {
     }
 }
 
+impl Default for RemoveDimensions {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 #[test]
 fn remove_dimensions() -> anyhow::Result<()> {
     use crate::test_config;
diff --git a/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs b/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
index 937498f..337f64c 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
@@ -23,7 +23,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Clone, Default, Debug)]
+#[derive(Clone, Debug)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// For SVGs with a `viewBox` attribute, removes `<path>` element outside of it's bounds.
 ///
@@ -165,6 +165,12 @@ fn gather(element: Element) -> Result<ViewBox, GatherViewboxDataError> {
     Ok((*viewbox).clone())
 }
 
+impl Default for RemoveOffCanvasPaths {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 #[test]
 fn remove_off_canvas_paths() -> anyhow::Result<()> {
     use crate::test_config;
diff --git a/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs b/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
index e4ab2b1..b038c9b 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
@@ -14,7 +14,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes inline JPEGs, PNGs, and GIFs from the document.
 ///
@@ -69,6 +69,12 @@ fn is_raster_image(href: &str) -> bool {
         .any(|ext| ext.starts_with("jpeg") || matches!(ext.get(0..3), Some("jpg" | "png" | "gif")))
 }
 
+impl Default for RemoveRasterImages {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 #[test]
 fn remove_raster_images() -> anyhow::Result<()> {
     use crate::test_config;
diff --git a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
index 7f16c73..1c38943 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
@@ -15,7 +15,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes `<script>` elements, event attributes, and javascript `href`s from the document.
 ///
@@ -96,6 +96,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveScripts {
     }
 }
 
+impl Default for RemoveScripts {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 #[test]
 fn remove_scripts() -> anyhow::Result<()> {
     use crate::test_config;
diff --git a/crates/oxvg_optimiser/src/jobs/remove_style_element.rs b/crates/oxvg_optimiser/src/jobs/remove_style_element.rs
index 450d1c5..87344d6 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_style_element.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_style_element.rs
@@ -14,7 +14,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes all `<style>` elements from the document.
 ///
@@ -57,6 +57,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveStyleElement {
     }
 }
 
+impl Default for RemoveStyleElement {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 #[test]
 fn remove_style_element() -> anyhow::Result<()> {
     use crate::test_config;
diff --git a/crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs b/crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs
index 23fecfc..9a7fd09 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs
@@ -14,7 +14,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Clone, Default, Debug)]
+#[derive(Clone, Debug)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes the `xmlns` attribute from `<svg>`.
 ///
@@ -62,6 +62,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveXMLNS {
     }
 }
 
+impl Default for RemoveXMLNS {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 #[test]
 fn remove_xmlns() -> anyhow::Result<()> {
     use crate::test_config;
diff --git a/crates/oxvg_optimiser/src/jobs/reuse_paths.rs b/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
index bd84714..b628b1c 100644
--- a/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
@@ -37,7 +37,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Default, Clone, Debug)]
+#[derive(Clone, Debug)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// For duplicate `<path>` elements, replaces it with a `<use>` that references a single
 /// `<path>` definition.
@@ -309,6 +309,12 @@ impl<'input> lightningcss::visitor::Visitor<'input> for HasId<'_> {
     }
 }
 
+impl Default for ReusePaths {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 #[test]
 fn reuse_paths() -> anyhow::Result<()> {
     use crate::test_config;
-- 
2.43.0


From b22bac16e837d3a472e1a9c98c82098ad18a4693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:56 +0000
Subject: [PATCH 073/110] fix: only log failed prechecks when not failing fast

---
 crates/oxvg_optimiser/src/jobs/precheck.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/precheck.rs b/crates/oxvg_optimiser/src/jobs/precheck.rs
index d763da8..d6237f2 100644
--- a/crates/oxvg_optimiser/src/jobs/precheck.rs
+++ b/crates/oxvg_optimiser/src/jobs/precheck.rs
@@ -53,11 +53,17 @@ impl<'input, 'arena> Visitor<'input, 'arena> for Precheck {
         element: Element<'input, 'arena>,
         _context: &mut oxvg_ast::visitor::Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
-        if self.preclean_checks {
-            Self::check(element).map_err(JobsError::Precheck)?;
+        if !self.preclean_checks {
+            return Ok(());
+        }
+        match Self::check(element) {
+            Err(e) if self.fail_fast => Err(JobsError::Precheck(e)),
+            Err(e) => {
+                log::error!("precheck failed {e}");
+                Ok(())
+            }
+            Ok(()) => Ok(()),
         }
-
-        Ok(())
     }
 }
 
-- 
2.43.0


From c071324d3e7bcd50afbbbfa54c5e2fe692e041ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:48 +0000
Subject: [PATCH 074/110] fix: read removeUseless and makeArcs of SVGO's path
 options

---
 crates/oxvg_optimiser/src/jobs/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/mod.rs b/crates/oxvg_optimiser/src/jobs/mod.rs
index daf22da..44d8c6a 100644
--- a/crates/oxvg_optimiser/src/jobs/mod.rs
+++ b/crates/oxvg_optimiser/src/jobs/mod.rs
@@ -177,10 +177,10 @@ macro_rules! jobs {
                                         convert_path_data.tolerance.precision = params.remove("floatPrecision").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.tolerance.precision);
                                         convert_path_data.close_segments = params.remove("convertToZ").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.close_segments);
                                         convert_path_data.join_nodes = params.remove("collapseRepeated").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.join_nodes);
-                                        convert_path_data.remove_empty_segments = params.remove("removeUseless").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.remove_empty_segments);
+                                        convert_path_data.remove_empty_segments = params.get("removeUseless").cloned().map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.remove_empty_segments);
                                         convert_path_data.remove_zero_segments = params.remove("removeUseless").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.remove_zero_segments);
                                         convert_path_data.straight_curves = params.remove("straightCurves").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.straight_curves);
-                                        convert_path_data.arc_curves = make_arcs.is_some();
+                                        convert_path_data.arc_curves = make_arcs.is_some_and(|make_arcs| make_arcs != serde_json::Value::Bool(false));
                                         convert_path_data.smart_arc_rounding = params.remove("smartArcRounding").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.smart_arc_rounding);
                                         oxvg_config.convert_path_data = Some(convert_path_data);
 
-- 
2.43.0


From 6d31eeb75122d099987ac2f3cb029346ad0d6fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:09 +0000
Subject: [PATCH 075/110] fix: omit jobs when no preset is extended

---
 crates/oxvg/src/config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg/src/config.rs b/crates/oxvg/src/config.rs
index 9ea1f34..4ab9dfb 100644
--- a/crates/oxvg/src/config.rs
+++ b/crates/oxvg/src/config.rs
@@ -67,10 +67,10 @@ impl Optimise {
     /// Creates a job configuration where the user-configured jobs extends the preset
     /// specified in `extends`
     pub fn resolve_jobs(&self) -> oxvg_optimiser::Jobs {
-        let Some(extends) = &self.extends else {
-            return self.jobs.clone();
+        let mut result = match &self.extends {
+            Some(extends) => extends.extend(&self.jobs),
+            None => self.jobs.clone(),
         };
-        let mut result = extends.extend(&self.jobs);
         if let Some(omit) = self.omit.as_ref() {
             for omit in omit {
                 result.omit(omit);
-- 
2.43.0


From 5e4869bd96d13cb69eb93fe26253739f6f14b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:42 +0000
Subject: [PATCH 076/110] fix: accept includeLegacy like other options

---
 crates/oxvg_optimiser/src/jobs/remove_xlink.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
index c78e06d..ab52b2d 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
@@ -24,6 +24,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[derive(Clone, Debug, Default)]
+#[cfg_attr(feature = "serde", serde(rename_all = "camelCase"))]
 /// Replaces `xlink` prefixed attributes to the native SVG equivalent.
 ///
 /// # Correctness
@@ -36,7 +37,10 @@ use crate::error::JobsError;
 ///
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveXlink {
-    #[cfg_attr(feature = "serde", serde(default = "bool::default"))]
+    #[cfg_attr(
+        feature = "serde",
+        serde(default = "bool::default", alias = "include_legacy")
+    )]
     /// Whether to also convert xlink attributes for legacy elements which don't
     /// support the SVG 2 `href` attribute (e.g. `<cursor>`).
     ///
-- 
2.43.0


From 9f0a2330274f2883df2b40dd2bc8e014f32cbc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:03 +0000
Subject: [PATCH 077/110] fix: write to the input when output is given without
 a value

---
 crates/oxvg/src/walk.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index 5422beb..85530ca 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -134,9 +134,12 @@ impl Walk {
 
     fn handle_path<F: Fn() -> FnVisitor>(&self, path: &PathBuf, f: F) {
         let output_path = |input: &PathBuf| {
-            let Some(output) = self.output.as_ref().and_then(|output| output.first()) else {
+            let Some(output) = self.output.as_ref() else {
                 return Ok(None);
             };
+            let Some(output) = output.first() else {
+                return Ok(Some(input.clone()));
+            };
             input.strip_prefix(path).map(|p| {
                 Some(if p.as_os_str().is_empty() {
                     output.clone()
-- 
2.43.0


From 6fbebabd6d06ac0430281f951f339130dd09c0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:26 +0000
Subject: [PATCH 078/110] fix: keep outputs of several files apart

---
 crates/oxvg/src/walk.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index 85530ca..9227882 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -141,10 +141,14 @@ impl Walk {
                 return Ok(Some(input.clone()));
             };
             input.strip_prefix(path).map(|p| {
-                Some(if p.as_os_str().is_empty() {
-                    output.clone()
-                } else {
+                Some(if !p.as_os_str().is_empty() {
                     output.join(p)
+                } else if let Some(name) = input.file_name()
+                    && (self.paths.len() > 1 || output.is_dir())
+                {
+                    output.join(name)
+                } else {
+                    output.clone()
                 })
             })
         };
-- 
2.43.0


From 9fb03cf50e9cd4307bcfd9d06228e1fd8e84b5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:50 +0000
Subject: [PATCH 079/110] fix: report files that can't be read

---
 crates/oxvg/src/walk.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index 9227882..3576619 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -163,8 +163,12 @@ impl Walk {
             .run(|| {
                 let mut visitor = f();
                 Box::new(move |path| {
-                    let Ok(path) = path else {
-                        return WalkState::Continue;
+                    let path = match path {
+                        Ok(path) => path,
+                        Err(err) => {
+                            eprintln!("{err}");
+                            return WalkState::Continue;
+                        }
                     };
                     if path.file_type().is_none_or(|f| !f.is_file()) {
                         return WalkState::Continue;
@@ -176,8 +180,12 @@ impl Walk {
                     let Ok(output_path) = output_path(&path) else {
                         return WalkState::Continue;
                     };
-                    let Ok(file) = std::fs::read_to_string(path.clone()) else {
-                        return WalkState::Continue;
+                    let file = match std::fs::read_to_string(&path) {
+                        Ok(file) => file,
+                        Err(err) => {
+                            eprintln!("{}: {err}", path.display());
+                            return WalkState::Continue;
+                        }
                     };
                     visitor(&file, Some(&path), output_path.as_ref());
                     WalkState::Continue
-- 
2.43.0


From 2dffe078bc8627cc78c8ddcf239107223de18b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:40:11 +0000
Subject: [PATCH 080/110] fix: don't mix documents on standard output

---
 crates/oxvg/src/walk.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index 3576619..b5e6b1a 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -65,7 +65,8 @@ impl Output<'_, '_, '_> {
         if let Some(output) = self.destination {
             if is_stdin && output.metadata().is_ok_and(|f| f.is_dir()) {
                 eprintln!("Cannot use dir as output with stdin. Printing result to stdout instead");
-                self.dom.serialize_into(std::io::stdout(), self.options)?;
+                self.dom
+                    .serialize_into(std::io::stdout().lock(), self.options)?;
             } else {
                 if let Some(parent) = output.parent() {
                     std::fs::create_dir_all(parent)?;
@@ -86,7 +87,9 @@ impl Output<'_, '_, '_> {
                 }
             }
         } else {
-            self.dom.serialize_into(std::io::stdout(), self.options)?;
+            // Locked so that documents of other threads aren't printed amidst this one
+            self.dom
+                .serialize_into(std::io::stdout().lock(), self.options)?;
         }
         Ok(())
     }
-- 
2.43.0


From 1bb383eda3e5bcbb7fb1d2d69774d4194c0955c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:43:45 +0000
Subject: [PATCH 081/110] fix: keep empty xmlns declarations

---
 crates/oxvg_optimiser/src/jobs/remove_empty_attrs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_empty_attrs.rs b/crates/oxvg_optimiser/src/jobs/remove_empty_attrs.rs
index da1e6b7..4008596 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_empty_attrs.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_empty_attrs.rs
@@ -2,7 +2,7 @@ use oxvg_ast::{
     element::Element,
     visitor::{Context, PrepareOutcome, Visitor},
 };
-use oxvg_collections::attribute::AttributeGroup;
+use oxvg_collections::attribute::{Attr, AttributeGroup};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
@@ -50,6 +50,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveEmptyAttrs {
         _context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
         element.attributes().retain(|a| {
+            // `xmlns=""` undeclares the namespace
+            if matches!(a, Attr::XMLNS(_)) {
+                return true;
+            }
             if a.name()
                 .attribute_group()
                 .contains(AttributeGroup::ConditionalProcessing)
-- 
2.43.0


From d6bc461a95d2cb8b6a0bdf7b38d7f94a529d8f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:44:30 +0000
Subject: [PATCH 082/110] fix: only reuse paths whose prefixes are safe to move

---
 crates/oxvg_optimiser/src/jobs/reuse_paths.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/reuse_paths.rs b/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
index b628b1c..e9bd0ab 100644
--- a/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
@@ -242,6 +242,18 @@ impl<'input, 'arena> State<'input, 'arena> {
             log::debug!("not reusing path, `xlink` is bound to another namespace");
             return;
         }
+        if element.find_xmlns(None).is_empty() {
+            log::debug!("not reusing path, it's not in the SVG namespace");
+            return;
+        }
+        if element
+            .attributes()
+            .into_iter()
+            .any(|attr| matches!(&*attr, Attr::Aliased { .. }))
+        {
+            log::debug!("not reusing path, its prefixes may be undeclared elsewhere");
+            return;
+        }
         let Some(path::Path(path, _)) = get_attribute!(element, D).as_deref().cloned() else {
             return;
         };
-- 
2.43.0


From afab876d483375c88ef3cfdd845647c9aaf82f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:41:57 +0000
Subject: [PATCH 083/110] fix: report configuration files that can't be read

---
 crates/oxvg/src/config.rs | 9 ++++++---
 crates/oxvg/src/main.rs   | 9 ++++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg/src/config.rs b/crates/oxvg/src/config.rs
index 4ab9dfb..817b6a8 100644
--- a/crates/oxvg/src/config.rs
+++ b/crates/oxvg/src/config.rs
@@ -1,5 +1,5 @@
 //! Types for the configuration file usable by OXVG
-use std::{env::current_dir, fs::read_to_string, path::PathBuf};
+use std::{env::current_dir, fs::read_to_string, io::ErrorKind, path::PathBuf};
 
 use etcetera::{choose_base_strategy, BaseStrategy};
 use oxvg_lint::Rules;
@@ -48,12 +48,15 @@ impl Config {
     /// Tries loading the configuration from well-known paths
     ///
     /// # Errors
-    /// When the config is missing
+    /// When the config is missing or cannot be read
     ///
     /// # Panics
     /// When the config exists but cannot be parsed
     pub fn load() -> std::io::Result<Self> {
-        let (file, path) = Self::load_local().or_else(|_| Self::load_base())?;
+        let (file, path) = match Self::load_local() {
+            Err(err) if err.kind() == ErrorKind::NotFound => Self::load_base()?,
+            result => result?,
+        };
         Ok(serde_json::from_str(&file).unwrap_or_else(|err| {
             panic!(
                 "Configuration at {} cannot be parsed: {err}",
diff --git a/crates/oxvg/src/main.rs b/crates/oxvg/src/main.rs
index dc57141..08d3dcf 100644
--- a/crates/oxvg/src/main.rs
+++ b/crates/oxvg/src/main.rs
@@ -1,5 +1,7 @@
 //! Oxvg is a toolchain for transforming, optimising, and linting SVG documents.
 
+use std::io::ErrorKind;
+
 use clap::Parser;
 use oxvg::{
     args::{Args, Command, RunCommand},
@@ -10,7 +12,12 @@ use oxvg::{
 #[tokio::main]
 async fn main() -> anyhow::Result<()> {
     let args = Args::parse();
-    let config = Config::load().unwrap_or_default();
+    let config = match Config::load() {
+        Err(err) if matches!(err.kind(), ErrorKind::IsADirectory | ErrorKind::InvalidData) => {
+            return Err(err.into());
+        }
+        config => config.unwrap_or_default(),
+    };
 
     match args.command {
         Command::Optimise(args) => args.run(config).await,
-- 
2.43.0


From 6f9a5bb97013d3ff6e87e13dc9ab22b725b0709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:42:25 +0000
Subject: [PATCH 084/110] fix: count ids used by selectors as referenced

---
 crates/oxvg_lint/src/rules/mod.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_lint/src/rules/mod.rs b/crates/oxvg_lint/src/rules/mod.rs
index a016456..7444a5c 100644
--- a/crates/oxvg_lint/src/rules/mod.rs
+++ b/crates/oxvg_lint/src/rules/mod.rs
@@ -5,7 +5,10 @@ use std::{
     ops::Range,
 };
 
-use lightningcss::visitor::Visit as _;
+use lightningcss::{
+    selector::{Component, Selector},
+    visitor::{Visit as _, Visitor as _},
+};
 use oxvg_ast::{
     element::Element,
     node::Ranges,
@@ -220,7 +223,7 @@ impl<'i> lightningcss::visitor::Visitor<'i> for Reporter<'_, '_> {
     type Error = ();
 
     fn visit_types(&self) -> lightningcss::visitor::VisitTypes {
-        lightningcss::visit_types!(URLS)
+        lightningcss::visit_types!(URLS | SELECTORS)
     }
     fn visit_url(
         &mut self,
@@ -231,6 +234,26 @@ impl<'i> lightningcss::visitor::Visitor<'i> for Reporter<'_, '_> {
         }
         Ok(())
     }
+    fn visit_selector(&mut self, selector: &mut Selector<'i>) -> Result<(), Self::Error> {
+        for component in selector.iter_mut_raw_match_order() {
+            match component {
+                Component::ID(id) => {
+                    self.referenced_ids.borrow_mut().insert(id.0.to_string());
+                }
+                Component::Negation(selectors)
+                | Component::Is(selectors)
+                | Component::Where(selectors)
+                | Component::Any(_, selectors)
+                | Component::Has(selectors) => {
+                    for selector in selectors.iter_mut() {
+                        self.visit_selector(selector)?;
+                    }
+                }
+                _ => {}
+            }
+        }
+        Ok(())
+    }
 }
 impl<'input> Reporter<'_, 'input> {
     fn track_id_references(&self, element: Element<'input, '_>) {
-- 
2.43.0


From 4af04d4df8b6d0216a7018c3771e2889e892af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:42:51 +0000
Subject: [PATCH 085/110] fix: exit with an error for lint problems at the
 given level

---
 crates/oxvg/src/commands/lint.rs | 38 ++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg/src/commands/lint.rs b/crates/oxvg/src/commands/lint.rs
index 650aed0..1e5c9d4 100644
--- a/crates/oxvg/src/commands/lint.rs
+++ b/crates/oxvg/src/commands/lint.rs
@@ -1,5 +1,13 @@
-use std::{future, path::PathBuf};
+use std::{
+    future,
+    path::PathBuf,
+    sync::{
+        Arc,
+        atomic::{AtomicBool, Ordering},
+    },
+};
 
+use anyhow::anyhow;
 use clap::Subcommand;
 use oxvg_lint::{Rules, Severity, error::LintingError};
 
@@ -26,17 +34,33 @@ impl RunCommand for Check {
 impl Check {
     fn walk(mut self, rules: &Rules) -> anyhow::Result<()> {
         self.walk.output = None;
+        let level = self.level;
+        let is_failed = Arc::new(AtomicBool::new(false));
         self.walk.run(|| {
             let rules = rules.clone();
+            let is_failed = is_failed.clone();
             Box::new(move |source, path, _| {
-                let result = rules.lint_with_path(source, path);
-                match result {
-                    Err(LintingError::Reported { .. }) => {}
-                    Err(err) => eprintln!("{err}"),
-                    _ => {}
+                let (errors, warnings) = match rules.lint_with_path(source, path) {
+                    Ok(()) => return,
+                    Err(LintingError::Reported { errors, warnings }) => (errors, warnings),
+                    Err(err) => {
+                        eprintln!("{err}");
+                        (1, 0)
+                    }
+                };
+                if match level {
+                    Severity::Off => false,
+                    Severity::Warn => errors + warnings > 0,
+                    Severity::Error => errors > 0,
+                } {
+                    is_failed.store(true, Ordering::Relaxed);
                 }
             })
-        })
+        })?;
+        if is_failed.load(Ordering::Relaxed) {
+            return Err(anyhow!("Problems were found in the given documents"));
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 28f65602dd43805b2fdb70699088387ee4f6558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:43:16 +0000
Subject: [PATCH 086/110] fix: use the specified config when linting

---
 crates/oxvg/src/commands/lint.rs | 14 ++++++++++++--
 crates/oxvg/src/config.rs        | 10 +++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg/src/commands/lint.rs b/crates/oxvg/src/commands/lint.rs
index 1e5c9d4..02aa756 100644
--- a/crates/oxvg/src/commands/lint.rs
+++ b/crates/oxvg/src/commands/lint.rs
@@ -28,7 +28,8 @@ pub struct Check {
 }
 impl RunCommand for Check {
     fn run(self, config: Config) -> impl Future<Output = anyhow::Result<()>> + Send {
-        future::ready(self.walk(&config.lint.unwrap_or_else(Rules::recommended)))
+        let rules = resolve_rules(self.config.as_ref(), config);
+        future::ready(rules.and_then(|rules| self.walk(&rules)))
     }
 }
 impl Check {
@@ -72,11 +73,20 @@ pub struct Serve {
 }
 impl RunCommand for Serve {
     async fn run(self, config: Config) -> anyhow::Result<()> {
-        lsp::serve(config.lint.unwrap_or_else(Rules::recommended)).await;
+        lsp::serve(resolve_rules(self.config.as_ref(), config)?).await;
         Ok(())
     }
 }
 
+/// Returns the rules of the specified config if there is one, or of the given config otherwise
+fn resolve_rules(path: Option<&Vec<PathBuf>>, config: Config) -> anyhow::Result<Rules> {
+    let config = match path.and_then(|path| path.first()) {
+        Some(path) => Config::load_from(path)?,
+        None => config,
+    };
+    Ok(config.lint.unwrap_or_else(Rules::recommended))
+}
+
 #[derive(Subcommand)]
 /// Run analysis against input files and reports any problems that it may detect.
 pub enum Lint {
diff --git a/crates/oxvg/src/config.rs b/crates/oxvg/src/config.rs
index 817b6a8..b6a3d6d 100644
--- a/crates/oxvg/src/config.rs
+++ b/crates/oxvg/src/config.rs
@@ -1,5 +1,5 @@
 //! Types for the configuration file usable by OXVG
-use std::{env::current_dir, fs::read_to_string, io::ErrorKind, path::PathBuf};
+use std::{env::current_dir, fs::read_to_string, io::ErrorKind, path::{Path, PathBuf}};
 
 use etcetera::{choose_base_strategy, BaseStrategy};
 use oxvg_lint::Rules;
@@ -45,6 +45,14 @@ impl Config {
         Ok((read_to_string(&path)?, path))
     }
 
+    /// Loads the configuration from the given path
+    ///
+    /// # Errors
+    /// When the config cannot be read or parsed
+    pub fn load_from(path: &Path) -> anyhow::Result<Self> {
+        Ok(serde_json::from_str(&read_to_string(path)?)?)
+    }
+
     /// Tries loading the configuration from well-known paths
     ///
     /// # Errors
-- 
2.43.0


From 9c5d44aad0c91a6cc5834fdcc297483b4d931c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:43:41 +0000
Subject: [PATCH 087/110] fix: write text that JSX can't hold literally as
 strings

---
 crates/oxvg_jsx/src/swc.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/crates/oxvg_jsx/src/swc.rs b/crates/oxvg_jsx/src/swc.rs
index 675e2e7..aed3679 100644
--- a/crates/oxvg_jsx/src/swc.rs
+++ b/crates/oxvg_jsx/src/swc.rs
@@ -91,25 +91,12 @@ pub fn to_jsx<'input>(
         },
         NodeData::Style(style) => style
             .borrow()
-            .0
             .to_css_string(PrinterOptions::default())
             .map_err(|_| BuildError::PrinterError)
-            .map(|value| {
-                let value: swc_core::atoms::Atom = value.into();
-                JSXElementChild::JSXText(JSXText {
-                    value: value.clone(),
-                    raw: value,
-                    span: DUMMY_SP,
-                })
-            }),
-        NodeData::PI { value, .. } | NodeData::Text(value) => {
+            .map(|value| text_to_jsx(&value)),
+        NodeData::Text(value) => {
             if let Some(value) = value.borrow().as_ref() {
-                let value: swc_core::atoms::Atom = value.trim().into();
-                Ok(JSXElementChild::JSXText(JSXText {
-                    value: value.clone(),
-                    raw: value,
-                    span: DUMMY_SP,
-                }))
+                Ok(text_to_jsx(value))
             } else {
                 Ok(JSXElementChild::JSXExprContainer(JSXExprContainer {
                     expr: JSXExpr::JSXEmptyExpr(JSXEmptyExpr { span: DUMMY_SP }),
@@ -117,7 +104,7 @@ pub fn to_jsx<'input>(
                 }))
             }
         }
-        NodeData::Comment(_) => Ok(JSXElementChild::JSXExprContainer(JSXExprContainer {
+        NodeData::PI { .. } | NodeData::Comment(_) => Ok(JSXElementChild::JSXExprContainer(JSXExprContainer {
             expr: JSXExpr::JSXEmptyExpr(JSXEmptyExpr { span: DUMMY_SP }),
             span: DUMMY_SP,
         })),
@@ -224,6 +211,23 @@ pub fn element_to_jsx<'input>(
     })))
 }
 
+/// Text that JSX would read differently is written as a string expression.
+fn text_to_jsx(value: &str) -> JSXElementChild {
+    let is_break = value.trim().is_empty() && value.contains('\n');
+    if !is_break && value.contains(['{', '}', '<', '>', '&', '\n', '\r', '\t']) {
+        return JSXElementChild::JSXExprContainer(JSXExprContainer {
+            expr: JSXExpr::Expr(Box::new(Expr::Lit(Lit::Str(value.into())))),
+            span: DUMMY_SP,
+        });
+    }
+    let value: swc_core::atoms::Atom = if is_break { "" } else { value }.into();
+    JSXElementChild::JSXText(JSXText {
+        value: value.clone(),
+        raw: value,
+        span: DUMMY_SP,
+    })
+}
+
 fn attr_to_jsx<'input>(attr: &Attr<'input>) -> Result<JSXAttrOrSpread, BuildError<'input>> {
     Ok(JSXAttrOrSpread::JSXAttr(JSXAttr {
         name: JSXAttrName::Ident(IdentName::new(
-- 
2.43.0


From 261523993c505d9778d4137916f514a70b092a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:44:09 +0000
Subject: [PATCH 088/110] fix: write JSX attribute strings with character
 references

---
 crates/oxvg_jsx/src/swc.rs        | 33 ++++++++++++++++++++++++++-----
 crates/oxvg_jsx/src/swc/preset.rs |  7 +++++--
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_jsx/src/swc.rs b/crates/oxvg_jsx/src/swc.rs
index aed3679..75a5e92 100644
--- a/crates/oxvg_jsx/src/swc.rs
+++ b/crates/oxvg_jsx/src/swc.rs
@@ -27,7 +27,7 @@ use swc_core::{
         Expr, Ident, IdentName, JSXAttr, JSXAttrName, JSXAttrOrSpread, JSXAttrValue,
         JSXClosingElement, JSXClosingFragment, JSXElement, JSXElementChild, JSXElementName,
         JSXEmptyExpr, JSXExpr, JSXExprContainer, JSXFragment, JSXOpeningElement,
-        JSXOpeningFragment, JSXText, KeyValueProp, Lit, ObjectLit, Prop, PropName, PropOrSpread,
+        JSXOpeningFragment, JSXText, KeyValueProp, Lit, ObjectLit, Prop, PropName, PropOrSpread, Str,
     },
 };
 
@@ -304,14 +304,37 @@ fn attr_value_to_svg<'input>(attr: &Attr<'input>) -> Result<JSXAttrValue, BuildE
                 }))),
             })
         }
-        value => JSXAttrValue::Str(
-            value
+        value => str_to_jsx(
+            &value
                 .to_value_string(PrinterOptions {
                     minify: true,
                     ..PrinterOptions::default()
                 })
-                .map_err(|_| BuildError::PrinterError)?
-                .into(),
+                .map_err(|_| BuildError::PrinterError)?,
         ),
     })
 }
+
+/// JSX strings have character references instead of escapes.
+fn str_to_jsx(value: &str) -> JSXAttrValue {
+    let mut str: Str = value.into();
+    if value.contains(['&', '\\'])
+        || value.contains(char::is_control)
+        || (value.contains('"') && value.contains('\''))
+    {
+        let mut raw = String::from('"');
+        for char in value.chars() {
+            match char {
+                '&' => raw.push_str("&amp;"),
+                '"' => raw.push_str("&quot;"),
+                char if char.is_control() => {
+                    raw.push_str(&format!("&#{};", u32::from(char)));
+                }
+                char => raw.push(char),
+            }
+        }
+        raw.push('"');
+        str.raw = Some(raw.into());
+    }
+    JSXAttrValue::Str(str)
+}
diff --git a/crates/oxvg_jsx/src/swc/preset.rs b/crates/oxvg_jsx/src/swc/preset.rs
index c0ef524..f44492d 100644
--- a/crates/oxvg_jsx/src/swc/preset.rs
+++ b/crates/oxvg_jsx/src/swc/preset.rs
@@ -7,7 +7,7 @@ use swc_core::{
         BinExpr, BinaryOp, CondExpr, EsVersion, Expr, IdentName, JSXAttr, JSXAttrName,
         JSXAttrOrSpread, JSXAttrValue, JSXClosingElement, JSXElement, JSXElementChild,
         JSXElementName, JSXEmptyExpr, JSXExpr, JSXExprContainer, JSXOpeningElement, Lit, Null,
-        Number, SpreadElement,
+        Number, SpreadElement, Str,
     },
 };
 use swc_ecma_lexer::{common::parser::Parser as _, Lexer, Parser, StringInput, Syntax};
@@ -212,7 +212,10 @@ fn replace_element_conditionally(
                                 span: DUMMY_SP,
                                 op: BinaryOp::LogicalOr,
                                 left: Box::new(Expr::Ident(id.into())),
-                                right: Box::new(Expr::Lit(Lit::Str(s.clone()))),
+                                right: Box::new(Expr::Lit(Lit::Str(Str {
+                                    raw: None,
+                                    ..s.clone()
+                                }))),
                             }))),
                         }));
                         existing_id.clone_from(value);
-- 
2.43.0


From 832d57721956090d8cb4bbc178e49d0cc19eb1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:44:32 +0000
Subject: [PATCH 089/110] fix: close native elements left without children

---
 crates/oxvg_jsx/src/swc/preset.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/oxvg_jsx/src/swc/preset.rs b/crates/oxvg_jsx/src/swc/preset.rs
index f44492d..f856258 100644
--- a/crates/oxvg_jsx/src/swc/preset.rs
+++ b/crates/oxvg_jsx/src/swc/preset.rs
@@ -498,6 +498,7 @@ fn convert_tree_to_react_native<S: std::hash::BuildHasher>(
                     .children
                     .retain_mut(|e| convert_tree_to_react_native(e, native_idents));
                 if element.children.is_empty() {
+                    element.opening.self_closing = true;
                     element.closing = None;
                 }
                 true
-- 
2.43.0


From 0647c8f96fa64a370a2eb28f6555499a044f9aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:44:58 +0000
Subject: [PATCH 090/110] fix: keep the digits of numbers in JSX attributes

---
 crates/oxvg_jsx/src/swc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_jsx/src/swc.rs b/crates/oxvg_jsx/src/swc.rs
index 75a5e92..f035513 100644
--- a/crates/oxvg_jsx/src/swc.rs
+++ b/crates/oxvg_jsx/src/swc.rs
@@ -239,6 +239,11 @@ fn attr_to_jsx<'input>(attr: &Attr<'input>) -> Result<JSXAttrOrSpread, BuildErro
     }))
 }
 
+/// Widens a number such that it's written with the same digits
+fn number(value: f32) -> f64 {
+    value.to_string().parse().unwrap_or_else(|_| value.into())
+}
+
 fn attr_value_to_svg<'input>(attr: &Attr<'input>) -> Result<JSXAttrValue, BuildError<'input>> {
     Ok(match attr.value() {
         ContentType::TrueFalse(value) => JSXAttrValue::JSXExprContainer(JSXExprContainer {
@@ -257,7 +262,7 @@ fn attr_value_to_svg<'input>(attr: &Attr<'input>) -> Result<JSXAttrValue, BuildE
         }
         ContentType::Number(value) => JSXAttrValue::JSXExprContainer(JSXExprContainer {
             span: DUMMY_SP,
-            expr: JSXExpr::Expr(Box::new(Expr::Lit(Lit::Num((*value as f64).into())))),
+            expr: JSXExpr::Expr(Box::new(Expr::Lit(Lit::Num(number(*value).into())))),
         }),
         ContentType::Integer(value) => JSXAttrValue::JSXExprContainer(JSXExprContainer {
             span: DUMMY_SP,
@@ -268,7 +273,7 @@ fn attr_value_to_svg<'input>(attr: &Attr<'input>) -> Result<JSXAttrValue, BuildE
         {
             JSXAttrValue::JSXExprContainer(JSXExprContainer {
                 span: DUMMY_SP,
-                expr: JSXExpr::Expr(Box::new(Expr::Lit(Lit::Num((*value as f64).into())))),
+                expr: JSXExpr::Expr(Box::new(Expr::Lit(Lit::Num(number(*value).into())))),
             })
         }
         ContentType::Style(value) => {
-- 
2.43.0


From a189942d723eaa3ba071ff47143354a93166d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:45:21 +0000
Subject: [PATCH 091/110] fix: keep data attributes in JSX

---
 crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs b/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs
index 7a44aa5..c7c1e24 100644
--- a/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs
+++ b/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs
@@ -289,7 +289,11 @@ pub fn attr_to_jsx_str<'input>(attr: &AttrId<'input>) -> Result<Atom<'input>, Bu
                 "srcset" => "srcSet",
                 "usemap" => "useMap",
                 str => {
-                    if str.chars().all(char::is_alphanumeric) {
+                    let is_data = str.starts_with("data-");
+                    if str
+                        .chars()
+                        .all(|c| c.is_alphanumeric() || (is_data && matches!(c, '-' | '_')))
+                    {
                         return Ok(local_name.clone());
                     }
                     return Err(BuildError::InvalidJSXName(local_name.clone()));
-- 
2.43.0


From 5b487d4c79962d85121d36fdc8dec678c5d98c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:45:46 +0000
Subject: [PATCH 092/110] fix: keep vendor prefixes and important declarations
 in JSX styles

---
 crates/oxvg_jsx/src/swc.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_jsx/src/swc.rs b/crates/oxvg_jsx/src/swc.rs
index f035513..7925d69 100644
--- a/crates/oxvg_jsx/src/swc.rs
+++ b/crates/oxvg_jsx/src/swc.rs
@@ -18,6 +18,7 @@ use lightningcss::{
     printer::PrinterOptions,
     properties::{custom::CustomPropertyName, PropertyId},
     traits::ToCss as _,
+    vendor_prefix::VendorPrefix,
     values::{length::LengthValue, percentage::DimensionPercentage},
 };
 use oxvg_serialize::ToValue as _;
@@ -244,6 +245,22 @@ fn number(value: f32) -> f64 {
     value.to_string().parse().unwrap_or_else(|_| value.into())
 }
 
+fn prefix_to_jsx_str(prefix: VendorPrefix) -> Option<&'static str> {
+    if prefix.contains(VendorPrefix::None) {
+        None
+    } else if prefix.contains(VendorPrefix::WebKit) {
+        Some("Webkit")
+    } else if prefix.contains(VendorPrefix::Moz) {
+        Some("Moz")
+    } else if prefix.contains(VendorPrefix::Ms) {
+        Some("ms")
+    } else if prefix.contains(VendorPrefix::O) {
+        Some("O")
+    } else {
+        None
+    }
+}
+
 fn attr_value_to_svg<'input>(attr: &Attr<'input>) -> Result<JSXAttrValue, BuildError<'input>> {
     Ok(match attr.value() {
         ContentType::TrueFalse(value) => JSXAttrValue::JSXExprContainer(JSXExprContainer {
@@ -280,12 +297,16 @@ fn attr_value_to_svg<'input>(attr: &Attr<'input>) -> Result<JSXAttrValue, BuildE
             let props = value
                 .declarations
                 .iter()
+                .chain(&value.important_declarations)
                 .map(|decl| {
                     let name = match decl.property_id() {
                         PropertyId::Custom(CustomPropertyName::Custom(name)) => {
                             name.0.as_ref().to_string()
                         }
-                        id => id.name().to_case(Case::Camel),
+                        id => match prefix_to_jsx_str(id.prefix()) {
+                            Some(prefix) => format!("{prefix}{}", id.name().to_case(Case::Pascal)),
+                            None => id.name().to_case(Case::Camel),
+                        },
                     };
                     Ok(PropOrSpread::Prop(Box::new(Prop::KeyValue(KeyValueProp {
                         key: if Ident::verify_symbol(&name).is_err() {
-- 
2.43.0


From cf85bd54ece1f91447bcb8f541ab7367d4786045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:51:48 +0000
Subject: [PATCH 093/110] fix: import wrappers from preact/compat for preact

---
 crates/oxvg_jsx/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_jsx/src/config.rs b/crates/oxvg_jsx/src/config.rs
index e8f1b37..f4b6ce1 100644
--- a/crates/oxvg_jsx/src/config.rs
+++ b/crates/oxvg_jsx/src/config.rs
@@ -292,7 +292,7 @@ impl TemplateContextOptions {
                 default_specifier: None,
             },
             JSXRuntime::ClassicPreact => JsxRuntimeImport {
-                source_namespace: Some("preact".into()),
+                source_namespace: Some("preact/compat".into()),
                 source: "preact/compat".into(),
                 specifiers: Some(vec!["h".into()]),
                 namespace: None,
-- 
2.43.0


From e688680ef16408d760c91235187f29baaca432f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:52:12 +0000
Subject: [PATCH 094/110] fix: keep aria attributes of any element in JSX

---
 crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs b/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs
index c7c1e24..76bfc7f 100644
--- a/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs
+++ b/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs
@@ -289,10 +289,10 @@ pub fn attr_to_jsx_str<'input>(attr: &AttrId<'input>) -> Result<Atom<'input>, Bu
                 "srcset" => "srcSet",
                 "usemap" => "useMap",
                 str => {
-                    let is_data = str.starts_with("data-");
+                    let is_hyphenated = str.starts_with("data-") || str.starts_with("aria-");
                     if str
                         .chars()
-                        .all(|c| c.is_alphanumeric() || (is_data && matches!(c, '-' | '_')))
+                        .all(|c| c.is_alphanumeric() || (is_hyphenated && matches!(c, '-' | '_')))
                     {
                         return Ok(local_name.clone());
                     }
-- 
2.43.0


From eb58153bd0fcf680936da4fefdeec2c9dae8b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:52:58 +0000
Subject: [PATCH 095/110] fix: keep lists of values that aren't recognised

---
 crates/oxvg_collections/src/attribute/list_of.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_collections/src/attribute/list_of.rs b/crates/oxvg_collections/src/attribute/list_of.rs
index 3dd9dd6..5c5a2e6 100644
--- a/crates/oxvg_collections/src/attribute/list_of.rs
+++ b/crates/oxvg_collections/src/attribute/list_of.rs
@@ -278,10 +278,11 @@ impl<'input, T: Parse<'input> + std::fmt::Debug + PartialEq, S: Separator> Parse
         }
         let mut start = Parser::new(take_matches(input, quote.as_ref()));
         quote = None;
+        let is_empty = start.is_empty();
         let mut list = match T::parse(&mut start) {
             Ok(first) if start.is_empty() => vec![first],
             Ok(_) => return Err(Error::ExpectedDone),
-            Err(_) if start.is_empty() => {
+            Err(_) if is_empty => {
                 return Ok(Self {
                     list: vec![],
                     separator: S::new(),
-- 
2.43.0


From 4b0893316684e4d08dd3e47ca5b71e0303095e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:54 +0000
Subject: [PATCH 096/110] fix: separate font families with commas

---
 crates/oxvg_collections/src/attribute.rs              | 4 ++--
 crates/oxvg_collections/src/attribute/presentation.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute.rs b/crates/oxvg_collections/src/attribute.rs
index 294df98..115f12f 100644
--- a/crates/oxvg_collections/src/attribute.rs
+++ b/crates/oxvg_collections/src/attribute.rs
@@ -31,7 +31,7 @@ use lightningcss::{
     },
     vendor_prefix::VendorPrefix,
 };
-use list_of::{ListOf, Semicolon, Separators, Space, SpaceOrComma};
+use list_of::{Comma, ListOf, Semicolon, Separators, Space, SpaceOrComma};
 use path::{Path, Points};
 use presentation::{
     AlignmentBaseline, BaselineShift, Clip, ClipPath, ColorInterpolation, ColorProfile,
@@ -2695,7 +2695,7 @@ try_from_into_property! {
     Font(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
     FontFamily(value) => Inheritable::Defined(FontFamily(ListOf {
         list: value,
-        separator: SpaceOrComma,
+        separator: Comma,
     })) => value.option().ok_or(())?.0.list,
     FontSize(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
     FontStretch(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
diff --git a/crates/oxvg_collections/src/attribute/presentation.rs b/crates/oxvg_collections/src/attribute/presentation.rs
index 2ba4496..60d190a 100644
--- a/crates/oxvg_collections/src/attribute/presentation.rs
+++ b/crates/oxvg_collections/src/attribute/presentation.rs
@@ -3,7 +3,7 @@ use std::ops::{Deref, DerefMut};
 
 use super::{
     core_attrs::{Angle, Anything, Length, Number, Percentage},
-    list_of::{ListOf, SpaceOrComma},
+    list_of::{Comma, ListOf, SpaceOrComma},
 };
 use lightningcss::values::length::LengthValue;
 pub use lightningcss::{
@@ -420,7 +420,7 @@ fn enable_background() {
 ///
 /// [w3 | SVG 1.1](https://www.w3.org/TR/2011/REC-SVG11-20110816/text.html#FontFamilyProperty)
 pub struct FontFamily<'input>(
-    pub ListOf<lightningcss::properties::font::FontFamily<'input>, SpaceOrComma>,
+    pub ListOf<lightningcss::properties::font::FontFamily<'input>, Comma>,
 );
 #[cfg(feature = "parse")]
 impl<'input> Parse<'input> for FontFamily<'input> {
-- 
2.43.0


From ca161b70cbff8cbc5dbb592a05327a7881d5d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:07:18 +0000
Subject: [PATCH 097/110] fix: publish diagnostics for documents without
 problems

---
 crates/oxvg/src/commands/lint/lsp.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg/src/commands/lint/lsp.rs b/crates/oxvg/src/commands/lint/lsp.rs
index 74e4fbc..0e85034 100644
--- a/crates/oxvg/src/commands/lint/lsp.rs
+++ b/crates/oxvg/src/commands/lint/lsp.rs
@@ -84,16 +84,18 @@ impl Backend {
 
     async fn lint(&self, uri: &Uri, source: &str) {
         let uri = uri.clone();
-        let Ok(Err(diagnostics)) = parse_with_options(
+        // An empty list clears the problems published for earlier versions of the document
+        let diagnostics = parse_with_options(
             source,
             ParsingOptions {
                 allow_dtd: true,
                 ..ParsingOptions::default()
             },
             |dom, allocator| self.analyse(dom, allocator, source, &uri),
-        ) else {
-            return;
-        };
+        )
+        .ok()
+        .and_then(std::result::Result::err)
+        .unwrap_or_default();
 
         let result = PublishDiagnosticsParams {
             uri,
-- 
2.43.0


From c3f69e38bf254853941ae5c9bd3039e9e5ae0f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:07:42 +0000
Subject: [PATCH 098/110] fix: report diagnostic positions in UTF-16 code units

---
 crates/oxvg/src/commands/lint/lsp.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/oxvg/src/commands/lint/lsp.rs b/crates/oxvg/src/commands/lint/lsp.rs
index 0e85034..49cdbbf 100644
--- a/crates/oxvg/src/commands/lint/lsp.rs
+++ b/crates/oxvg/src/commands/lint/lsp.rs
@@ -21,6 +21,13 @@ struct Backend {
 
 static NAME: &str = "oxvg lint";
 
+/// Returns the position for an offset in the source, with the column in UTF-16 code units
+fn to_position(offset: usize, source: &str) -> Position {
+    let (line, col) = Ranges::to_line_and_col(offset, source.as_bytes());
+    let character = source[offset - col..offset].encode_utf16().count();
+    Position::new(line as u32, character as u32)
+}
+
 fn error_to_diagnostic(
     Error {
         problem,
@@ -32,14 +39,10 @@ fn error_to_diagnostic(
     uri: &Uri,
 ) -> Diagnostic {
     let range = match range {
-        Some(range) => {
-            let start = Ranges::to_line_and_col(range.start, source.as_bytes());
-            let end = Ranges::to_line_and_col(range.end, source.as_bytes());
-            Range {
-                start: Position::new(start.0 as u32, start.1 as u32),
-                end: Position::new(end.0 as u32, end.1 as u32),
-            }
-        }
+        Some(range) => Range {
+            start: to_position(range.start, source),
+            end: to_position(range.end, source),
+        },
         None => Range::default(),
     };
     Diagnostic {
-- 
2.43.0


From 6fb4ef1398091a105c8a401470c47a502da8e482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:51:54 +0000
Subject: [PATCH 099/110] fix: keep elements that are hidden only under a
 condition

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 5821b19..08dff30 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -388,8 +388,10 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
 
         if !is_hidden
             && self.options.display_none.unwrap_or(true)
-            && let Some((Inheritable::Defined(Display::Keyword(DisplayKeyword::None)), _)) =
-                get_computed_style!(computed_styles, Display).option()
+            && let Some((
+                Inheritable::Defined(Display::Keyword(DisplayKeyword::None)),
+                Mode::Static,
+            )) = get_computed_style!(computed_styles, Display).option()
         {
             is_hidden = true;
         }
-- 
2.43.0


From 12419591e0bc5d51c5903183f56727398a789e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:52:49 +0000
Subject: [PATCH 100/110] fix: recognise script links written with xlink:href

---
 crates/oxvg_ast/src/visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/visitor.rs b/crates/oxvg_ast/src/visitor.rs
index 1bcb041..51066d1 100644
--- a/crates/oxvg_ast/src/visitor.rs
+++ b/crates/oxvg_ast/src/visitor.rs
@@ -390,7 +390,7 @@ pub fn has_scripts(root: Element<'_, '_>) -> bool {
     root.breadth_first().any(|element| {
         is_element!(element, Script)
             || element.attributes().into_iter().any(|attr| {
-                if let Attr::Href(href) = &*attr {
+                if let Attr::Href(href) | Attr::XLinkHref(href) = attr.unaliased() {
                     is_element!(element, A) && href.trim_start().starts_with("javascript:")
                 } else {
                     attr.name().attribute_group().intersects(event)
-- 
2.43.0


From fef6c3a2b9aa50ed4f1c4c8c273a4c365c145e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:53:30 +0000
Subject: [PATCH 101/110] fix: keep strokes and fills of documents with
 animations

---
 .../src/jobs/remove_useless_stroke_and_fill.rs    | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
index 8771e14..0b630d9 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
@@ -80,10 +80,19 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
     ) -> Result<PrepareOutcome, Self::Error> {
         context.query_has_script(document);
         context.query_has_stylesheet(document);
+        let has_animation = document.breadth_first().any(|element| {
+            element
+                .qual_name()
+                .categories()
+                .intersects(ElementCategory::Animation)
+        });
         Ok(
-            if context.flags.intersects(
-                ContextFlags::query_has_stylesheet_result | ContextFlags::query_has_script_result,
-            ) {
+            if has_animation
+                || context.flags.intersects(
+                    ContextFlags::query_has_stylesheet_result
+                        | ContextFlags::query_has_script_result,
+                )
+            {
                 PrepareOutcome::skip
             } else {
                 PrepareOutcome::none
-- 
2.43.0


From e54091e7a52fa1be25b892078a33175fa8f560e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:54:09 +0000
Subject: [PATCH 102/110] fix: keep group styles apart from animated children

---
 crates/oxvg_optimiser/src/jobs/collapse_groups.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index 3396ebb..c29286b 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -296,7 +296,8 @@ fn has_animated_attr<'input>(element: Element<'input, '_>, local_name: &Atom<'in
             .qual_name()
             .categories()
             .intersects(ElementCategory::Animation)
-            && get_attribute!(child, AttributeName).is_some_and(|attr| &*attr == local_name)
+            && (&**local_name == "style"
+                || get_attribute!(child, AttributeName).is_some_and(|attr| &*attr == local_name))
         {
             return true;
         }
-- 
2.43.0


From f4570948593a6ffcbc9350b7ebe964b25451fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:55:00 +0000
Subject: [PATCH 103/110] fix: keep decimals of transforms beside whole-number
 matrices

---
 crates/oxvg_optimiser/src/jobs/convert_transform.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_transform.rs b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
index 344ee73..37be5d1 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_transform.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
@@ -153,7 +153,11 @@ impl ConvertTransform {
                 number_of_decimals = arg_decimal_digits;
             }
         }
-        if is_matrix_data && number_of_decimals < transform_precision {
+        let is_only_matrix_data = data
+            .0
+            .iter()
+            .all(|t| matches!(t, SVGTransform::Matrix(_)));
+        if is_matrix_data && is_only_matrix_data && number_of_decimals < transform_precision {
             transform_precision = number_of_decimals;
         }
         if !is_matrix_data {
-- 
2.43.0


From b186768c05ce1e434a42fb915aad6e90dbfc82a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:55:38 +0000
Subject: [PATCH 104/110] fix: keep rects without a size when converting shapes
 to paths

---
 crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
index f78f6ea..e4accb0 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
@@ -236,6 +236,10 @@ impl ConvertShapeToPath {
         let Some(height) = get_attribute!(element, HeightRect).and_then(lp_px) else {
             return;
         };
+        // Without a size the rect isn't rendered, but the stroke of a path would be
+        if width <= 0.0 || height <= 0.0 {
+            return;
+        }
 
         let mut path = Path(vec![
             Data::MoveTo([x, y]),
-- 
2.43.0


From 4696745075f8dffa315025ae03b0b063a78ef78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:46:17 +0000
Subject: [PATCH 105/110] fix: judge closed segments by their own start

---
 crates/oxvg_path/src/paths/segment/convert.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index d7812ee..a9685e8 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -205,8 +205,11 @@ impl Segment {
         }
 
         let tolerance_squared = tolerance.positional * tolerance.positional;
-        result.closed =
-            start.distance_squared(result.data().last().unwrap().end_point()) < tolerance_squared;
+        // `start` may already be the start of the next segment
+        result.closed = result
+            .start
+            .distance_squared(result.data().last().unwrap().end_point())
+            < tolerance_squared;
         result
     }
 }
-- 
2.43.0


From 3e0013c818ff4a3e720b8f3d309d988f2db414e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:47:06 +0000
Subject: [PATCH 106/110] fix: reflect control points only of the same kind of
 curve

---
 crates/oxvg_path/src/paths/segment/convert.rs | 68 +++++++++++++------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index a9685e8..f0cea93 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -10,13 +10,36 @@ use crate::{
     paths::segment::{Data, IterStartCursorItem, Path, Segment},
 };
 
+/// The control point that a following smooth command of the same kind reflects.
+#[derive(Clone, Copy)]
+pub(crate) enum Control {
+    Cubic(Point),
+    Quadratic(Point),
+}
+
+impl Control {
+    fn cubic(self) -> Option<Point> {
+        match self {
+            Self::Cubic(point) => Some(point),
+            Self::Quadratic(_) => None,
+        }
+    }
+
+    fn quadratic(self) -> Option<Point> {
+        match self {
+            Self::Cubic(_) => None,
+            Self::Quadratic(point) => Some(point),
+        }
+    }
+}
+
 impl Data {
     #[allow(clippy::too_many_lines)]
-    pub(crate) fn take(
+    fn take(
         command: &command::Data,
         start: &mut Point,
         cursor: &mut Point,
-        control: &mut Option<Point>,
+        control: &mut Option<Control>,
         z_end: &mut bool,
     ) -> Option<Self> {
         let last_control = control.take();
@@ -60,7 +83,7 @@ impl Data {
                 let end_control = *cursor + Point::new(a[2], a[3]);
                 let end_point = *cursor + Point::new(a[4], a[5]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end_point;
                 Some(Self::CurveTo(Curve::new(
                     start_control,
@@ -72,14 +95,14 @@ impl Data {
                 let end_control = Point::new(a[2], a[3]);
                 let end_point = Point::new(a[4], a[5]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end_point;
                 Some(Data::CurveTo(Curve::from(*a)))
             }
             command::Data::QuadraticBezierBy(a) => {
                 let quad_control = *cursor + Point::new(a[0], a[1]);
                 let end = *cursor + Point::new(a[2], a[3]);
-                *control = Some(quad_control);
+                *control = Some(Control::Quadratic(quad_control));
 
                 let start = *cursor;
                 *cursor = end;
@@ -88,14 +111,14 @@ impl Data {
             command::Data::QuadraticBezierTo(a) => {
                 let quad_control = Point::new(a[0], a[1]);
                 let end = Point::new(a[2], a[3]);
-                *control = Some(quad_control);
+                *control = Some(Control::Quadratic(quad_control));
 
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(quad_control, start, end)))
             }
             command::Data::SmoothBezierBy(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(prev_cp) = last_control.and_then(Control::cubic) {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
@@ -103,12 +126,12 @@ impl Data {
                 let end_control = *cursor + Point::new(a[0], a[1]);
                 let end = *cursor + Point::new(a[2], a[3]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new(start_control, end_control, end)))
             }
             command::Data::SmoothBezierTo(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(prev_cp) = last_control.and_then(Control::cubic) {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
@@ -116,32 +139,32 @@ impl Data {
                 let end_control = Point::new(a[0], a[1]);
                 let end = Point::new(a[2], a[3]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new(start_control, end_control, end)))
             }
             command::Data::SmoothQuadraticBezierBy(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(prev_cp) = last_control.and_then(Control::quadratic) {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
                 };
                 let end = *cursor + Point::from(*a);
 
-                *control = Some(start_control);
+                *control = Some(Control::Quadratic(start_control));
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(start_control, start, end)))
             }
             command::Data::SmoothQuadraticBezierTo(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(prev_cp) = last_control.and_then(Control::quadratic) {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
                 };
                 let end = Point::from(*a);
 
-                *control = Some(start_control);
+                *control = Some(Control::Quadratic(start_control));
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(start_control, start, end)))
@@ -363,14 +386,14 @@ impl Path {
     #[allow(clippy::too_many_arguments)]
     pub(crate) fn to_svg_curve(
         previous: Option<&command::Data>,
-        control: Option<Point>,
+        control: Option<Control>,
         start: Point,
         curve: &Curve,
         next: Option<&Data>,
         implicit: Option<&ID>,
         tolerance_squared: ToleranceSquared,
         precision: TolerancePrecision,
-    ) -> (command::Data, Option<Point>) {
+    ) -> (command::Data, Option<Control>) {
         let start_control = curve.start_control;
         let end_control = curve.end_control;
         let to = curve.end_point;
@@ -378,8 +401,11 @@ impl Path {
 
         let mut candidates = Vec::with_capacity(4);
 
-        let (_, smooth_bezier, quadratic_bezier, smooth_quadratic_bezier) =
-            curve.types(start, control, tolerance_squared);
+        let cubic_control = control.and_then(Control::cubic);
+        let quadratic_control = control.and_then(Control::quadratic);
+        let smooth_bezier = curve.smooth_bezier(start, cubic_control, tolerance_squared);
+        let (_, _, quadratic_bezier, smooth_quadratic_bezier) =
+            curve.types(start, quadratic_control, tolerance_squared);
         if let Some(SmoothBezierTo {
             end_control,
             end_point: _,
@@ -461,13 +487,13 @@ impl Path {
         let result = compactest_vec(previous, candidates, implicit, precision);
         let control = match result.id().as_explicit() {
             ID::QuadraticBezierTo | ID::QuadraticBezierBy => {
-                quadratic_bezier.map(|q| q.quad_control)
+                quadratic_bezier.map(|q| Control::Quadratic(q.quad_control))
             }
             ID::SmoothQuadraticBezierTo | ID::SmoothQuadraticBezierBy => {
-                control.map(|c| c.reflect(start))
+                quadratic_control.map(|c| Control::Quadratic(c.reflect(start)))
             }
             ID::CubicBezierTo | ID::CubicBezierBy | ID::SmoothBezierBy | ID::SmoothBezierTo => {
-                Some(quadratic_bezier.map_or(end_control, |q| q.quad_control))
+                Some(Control::Cubic(end_control))
             }
             _ => None,
         };
-- 
2.43.0


From d73fa31249f780a40974b7d9dd1098aee96061f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:47:36 +0000
Subject: [PATCH 107/110] fix: close paths only at the end of closed segments

---
 crates/oxvg_path/src/paths/segment/convert.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index f0cea93..c024e8a 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -301,6 +301,7 @@ impl Path {
                     segment_start,
                     start,
                     *to,
+                    close,
                     implicit.as_ref(),
                     precision,
                 ),
@@ -360,11 +361,12 @@ impl Path {
         segment_start: Point,
         start: Point,
         to: Point,
+        close: bool,
         implicit: Option<&ID>,
         precision: TolerancePrecision,
     ) -> command::Data {
         let by = to - start;
-        if start == to {
+        if close && start == to {
             command::Data::ClosePath
         } else if precision.round(to.x) == precision.round(start.x) {
             let v_to = command::Data::VerticalLineTo([to.y]);
@@ -374,7 +376,7 @@ impl Path {
             let h_to = command::Data::HorizontalLineTo([to.x]);
             let h_by = command::Data::HorizontalLineBy([by.x]);
             compactest(previous, h_by, h_to, implicit, precision)
-        } else if to == segment_start {
+        } else if close && to == segment_start {
             command::Data::ClosePath
         } else {
             let l_to = command::Data::LineTo(to.into());
-- 
2.43.0


From acbd5e86c711bc7371ddd04b8c6551e5628006a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:48:05 +0000
Subject: [PATCH 108/110] fix: end path data at arguments after a close command

---
 crates/oxvg_path/src/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/parser.rs b/crates/oxvg_path/src/parser.rs
index 83c8048..353930b 100644
--- a/crates/oxvg_path/src/parser.rs
+++ b/crates/oxvg_path/src/parser.rs
@@ -33,12 +33,21 @@ impl<'input> Path {
             if !list.is_empty() {
                 input.skip_char(',');
                 input.skip_whitespace();
+                if input.is_empty() {
+                    break;
+                }
             }
             let mut command_id = input
                 .try_parse(command::ID::parse)
                 .or_else(|_| {
                     if let Some(last) = list.last() {
-                        Ok(command::ID::Implicit(Box::new(last.id().next_implicit())))
+                        match last.id().next_implicit() {
+                            // Takes no arguments, so it would never consume the input
+                            command::ID::ClosePath => {
+                                Err(oxvg_parse::error::Error::Path(PathError::NoCommand))
+                            }
+                            id => Ok(command::ID::Implicit(Box::new(id))),
+                        }
                     } else if allow_implicit_start {
                         Ok(command::ID::MoveTo)
                     } else {
-- 
2.43.0


From 4ea986aff75ead2ba27cbebc45834ed60c62cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:55:22 +0000
Subject: [PATCH 109/110] fix: keep ellipses that rules select when converting
 shapes

---
 crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
index e4accb0..d8e95c7 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
@@ -181,7 +181,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
             }
 
             ElementId::Ellipse
-                if convert_arcs && !self.referenced_shapes.contains(ReferencedShapes::Circle) =>
+                if convert_arcs && !self.referenced_shapes.contains(ReferencedShapes::Ellipse) =>
             {
                 ConvertShapeToPath::ellipse_to_path(element, precision, context.info);
             }
-- 
2.43.0


From f70a59bd614139d2fe240bbe69c091f787a7abe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:56:33 +0000
Subject: [PATCH 110/110] fix: keep ellipses when rules select ellipses or
 circles

---
 .../src/jobs/convert_ellipse_to_circle.rs     | 41 ++++++++++++++++---
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs b/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
index b77ad6c..c4a82ff 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
@@ -1,3 +1,4 @@
+use lightningcss::{selector::Component, visit_types, visitor::Visit as _};
 use oxvg_ast::{
     element::Element,
     get_attribute, is_element, remove_attribute, set_attribute,
@@ -38,13 +39,21 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ConvertEllipseToCircle {
 
     fn prepare(
         &self,
-        _document: Element<'input, 'arena>,
-        _context: &mut Context<'input, 'arena, '_>,
+        document: Element<'input, 'arena>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> Result<PrepareOutcome, Self::Error> {
-        Ok(if self.0 {
-            PrepareOutcome::none
-        } else {
+        if !self.0 {
+            return Ok(PrepareOutcome::skip);
+        }
+        context.query_has_stylesheet(document);
+        let mut referenced = ReferencedNames(false);
+        for styles in &context.query_has_stylesheet_result {
+            styles.borrow_mut().0.visit(&mut referenced)?;
+        }
+        Ok(if referenced.0 {
             PrepareOutcome::skip
+        } else {
+            PrepareOutcome::none
         })
     }
 
@@ -96,6 +105,28 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ConvertEllipseToCircle {
     }
 }
 
+/// Whether a selector tells `<ellipse>` and `<circle>` from other elements
+struct ReferencedNames(bool);
+
+impl<'input> lightningcss::visitor::Visitor<'input> for ReferencedNames {
+    type Error = JobsError<'input>;
+
+    fn visit_types(&self) -> lightningcss::visitor::VisitTypes {
+        visit_types!(SELECTORS)
+    }
+
+    fn visit_selector(
+        &mut self,
+        selector: &mut lightningcss::selector::Selector<'input>,
+    ) -> Result<(), Self::Error> {
+        self.0 |= selector.iter_raw_match_order().any(|component| {
+            matches!(component, Component::LocalName(name)
+                if matches!(&*name.lower_name.0, "ellipse" | "circle"))
+        });
+        Ok(())
+    }
+}
+
 impl Default for ConvertEllipseToCircle {
     fn default() -> Self {
         Self(true)
-- 
2.43.0

