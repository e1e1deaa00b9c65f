From fa56ba3748cdf3ee9862301482ba13279d96bae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:56 +0000
Subject: [PATCH 01/56] fix: write the end of a number range once and also
 without branch numbers

ArticleNumber::num_str wrote the range inside the branch-number loop, so
'5:8' lost its end and '3_2_10:12' repeated it.
---
 src/article_number.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 65b3a53..c77100c 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -25,15 +25,15 @@ impl ArticleNumber {
     for n in self.eda_numbers.iter() {
       s.push('_');
       s.push_str(&n.to_string());
-      if !self.range_end_numbers.is_empty() {
-        let l = &self.range_end_numbers;
-        let mut l = l.iter();
-        s.push(':');
-        s.push_str(&l.next().unwrap().to_string());
-        for n in l {
-          s.push('_');
-          s.push_str(&n.to_string());
-        }
+    }
+    if !self.range_end_numbers.is_empty() {
+      let l = &self.range_end_numbers;
+      let mut l = l.iter();
+      s.push(':');
+      s.push_str(&l.next().unwrap().to_string());
+      for n in l {
+        s.push('_');
+        s.push_str(&n.to_string());
       }
     }
     s
-- 
2.43.0


From 00d8a5f35b1b069d528fa7d6e188b3541df83f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:59 +0000
Subject: [PATCH 02/56] fix: keep the Num attribute of a law that has no number

A law without a number was written without the required Num attribute, and
reading such a document panicked; it is now written as Num="" (which reads
back as no number) and a missing Num is reported as an error.
---
 src/law.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 6a8c383..c85b940 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -61,11 +61,11 @@ impl Parser for Law {
         }
       };
       let year = get_attribute_with_parse(element, "Year")?;
-      let num_str = element.attributes.get("Num").unwrap();
+      let num_str = get_attribute(element, "Num")?;
       let num = if num_str.is_empty() {
         None
       } else {
-        Some(ArticleNumber::from_str(num_str)?)
+        Some(ArticleNumber::from_str(&num_str)?)
       };
       let promulgate_month_str = element.attributes.get("PromulgateMonth").and_then(|s| {
         if s.is_empty() {
@@ -206,9 +206,8 @@ impl ToXmlElement for Law {
     }
     e.attributes
       .insert("Year".to_string(), self.year.to_string());
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str()).unwrap_or_default();
+    e.attributes.insert("Num".to_string(), num_str);
     if let Some(n) = &self.promulgate_month {
       e.attributes
         .insert("PromulgateMonth".to_string(), n.to_string());
-- 
2.43.0


From 1e88fc2ce3593ba2c670c1e9703de1ae33e02d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 03/56] fix: keep the Num attribute of items and subitems
 without a number

They were written without the attribute that reading them requires, so the
written document was refused.
---
 src/paragraph.rs | 55 +++++++++++++++++++-----------------------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index baa7a5e..0e1b3e1 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -289,9 +289,8 @@ impl ToXmlElement for Item {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str()).unwrap_or_default();
+    e.attributes.insert("Num".to_string(), num_str);
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -433,9 +432,8 @@ impl ToXmlElement for Subitem1 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str()).unwrap_or_default();
+    e.attributes.insert("Num".to_string(), num_str);
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -577,9 +575,8 @@ impl ToXmlElement for Subitem2 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str()).unwrap_or_default();
+    e.attributes.insert("Num".to_string(), num_str);
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -721,9 +718,8 @@ impl ToXmlElement for Subitem3 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str()).unwrap_or_default();
+    e.attributes.insert("Num".to_string(), num_str);
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -865,9 +861,8 @@ impl ToXmlElement for Subitem4 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str()).unwrap_or_default();
+    e.attributes.insert("Num".to_string(), num_str);
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1009,9 +1004,8 @@ impl ToXmlElement for Subitem5 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str()).unwrap_or_default();
+    e.attributes.insert("Num".to_string(), num_str);
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1153,9 +1147,8 @@ impl ToXmlElement for Subitem6 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str()).unwrap_or_default();
+    e.attributes.insert("Num".to_string(), num_str);
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1297,9 +1290,8 @@ impl ToXmlElement for Subitem7 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str()).unwrap_or_default();
+    e.attributes.insert("Num".to_string(), num_str);
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1441,9 +1433,8 @@ impl ToXmlElement for Subitem8 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str()).unwrap_or_default();
+    e.attributes.insert("Num".to_string(), num_str);
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1585,9 +1576,8 @@ impl ToXmlElement for Subitem9 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str()).unwrap_or_default();
+    e.attributes.insert("Num".to_string(), num_str);
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1717,9 +1707,8 @@ impl ToXmlElement for Subitem10 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str()).unwrap_or_default();
+    e.attributes.insert("Num".to_string(), num_str);
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
-- 
2.43.0


From 596d9c061ea2f6188df77f1576ec379d4ea43ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:47 +0000
Subject: [PATCH 04/56] fix: read LineStyle "double" as Double

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 9d4a2cb..0191e5c 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -105,7 +105,7 @@ impl LineStyle {
       Some("solid") => Some(LineStyle::Solid),
       Some("none") => Some(LineStyle::None),
       Some("dotted") => Some(LineStyle::Dotted),
-      Some("double") => Some(LineStyle::Dotted),
+      Some("double") => Some(LineStyle::Double),
       _ => None,
     }
   }
-- 
2.43.0


From b916030f0f923e685eb85840700ae9a2a4eddde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:49 +0000
Subject: [PATCH 05/56] fix: write the RemarksLabel of Remarks

---
 src/remarks.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/remarks.rs b/src/remarks.rs
index 3cc1b79..3ce447c 100644
--- a/src/remarks.rs
+++ b/src/remarks.rs
@@ -56,6 +56,8 @@ impl Parser for Remarks {
 impl ToXmlElement for Remarks {
   fn to_xml_element(&self) -> Element {
     let mut e = Element::new("Remarks");
+    e.children
+      .push(XMLNode::Element(self.label.to_xml_element()));
     for n in self.children.iter() {
       match n {
         RemarksContents::Item(v) => {
-- 
2.43.0


From 5a40ca2ae3a2a607ff644fa60a1fca8c1074b55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 06/56] fix: write RelatedArticleNum of Appdx and
 SupplProvisionAppdx under its own name

---
 src/appdx.rs           | 2 +-
 src/suppl_provision.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/appdx.rs b/src/appdx.rs
index 6d17c9b..d739d31 100644
--- a/src/appdx.rs
+++ b/src/appdx.rs
@@ -401,7 +401,7 @@ impl ToXmlElement for Appdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index c7c5f69..249028d 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -355,7 +355,7 @@ impl ToXmlElement for SupplProvisionAppdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
-- 
2.43.0


From 6a3d74849b930af7109796afc6e3a461e7f25867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:53 +0000
Subject: [PATCH 07/56] fix: write SupplProvisionAppdx as SupplProvisionAppdx

---
 src/suppl_provision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 249028d..249a385 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -347,7 +347,7 @@ impl Parser for SupplProvisionAppdx {
 
 impl ToXmlElement for SupplProvisionAppdx {
   fn to_xml_element(&self) -> Element {
-    let mut e = Element::new("Appdx");
+    let mut e = Element::new("SupplProvisionAppdx");
     if let Some(v) = &self.arith_formula_num {
       e.children.push(XMLNode::Element(
         v.to_xml_element_with_name("ArithFormulaNum"),
-- 
2.43.0


From fd435b61287f583a3c98a7c97adf8c306ca5686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:55 +0000
Subject: [PATCH 08/56] fix: write SupplProvisionAppdxTableTitle with its
 correct name

---
 src/suppl_provision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 249a385..a013743 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -210,7 +210,7 @@ impl ToXmlElement for SupplProvisionAppdxTable {
     e.children.push(XMLNode::Element(
       self
         .title
-        .to_xml_element_with_name("SupplProvisionAppdxTableitle"),
+        .to_xml_element_with_name("SupplProvisionAppdxTableTitle"),
     ));
     if let Some(t) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-- 
2.43.0


From 8f4aa08b5df8d2ec9b8152037fa976ddc0e9c355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:18 +0000
Subject: [PATCH 09/56] fix: write the NewProvision of an AmendProvision as
 NewProvision

---
 src/law.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/law.rs b/src/law.rs
index c85b940..6108a75 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -891,7 +891,7 @@ impl ToXmlElement for AmendProvision {
       e.children.push(XMLNode::Element(se));
     }
     for v in self.new_provision.iter() {
-      let mut se = Element::new("AmendProvisionSentence");
+      let mut se = Element::new("NewProvision");
       match v {
         NewProvision::LawTitle(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
         NewProvision::Preamble(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
-- 
2.43.0


From 465c9ae4c61ba5b44bb3a3394a1001a2864cf505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:20 +0000
Subject: [PATCH 10/56] fix: write TOCPreambleLabel under its own name

---
 src/table_of_contents.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index 8417bf2..9fffb87 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -89,8 +89,9 @@ impl ToXmlElement for TOC {
         .push(XMLNode::Element(label.to_xml_element_with_name("TOCLabel")));
     }
     if let Some(label) = &self.toc_preamble_label {
-      e.children
-        .push(XMLNode::Element(label.to_xml_element_with_name("TOCLabel")));
+      e.children.push(XMLNode::Element(
+        label.to_xml_element_with_name("TOCPreambleLabel"),
+      ));
     }
     for v in self.toc_main_contents.iter() {
       match v {
-- 
2.43.0


From a3af3cb07f93015bd5458a71fadbb54618100283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:22 +0000
Subject: [PATCH 11/56] fix: write Align and Valign of TableColumn as Align and
 Valign

---
 src/table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 9a9c7b7..b1cab15 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -309,10 +309,10 @@ impl ToXmlElement for TableColumn {
       e.attributes.insert("colspan".to_string(), s.clone());
     }
     if let Some(a) = &self.align {
-      e.attributes.insert("rowspan".to_string(), a.to_attribute());
+      e.attributes.insert("Align".to_string(), a.to_attribute());
     }
     if let Some(v) = &self.valign {
-      e.attributes.insert("rowspan".to_string(), v.to_attribute());
+      e.attributes.insert("Valign".to_string(), v.to_attribute());
     }
     for n in self.contents.iter() {
       match n {
-- 
2.43.0


From 4694c0bfe55069e2dd1cbbf478d7ebe65552c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:23 +0000
Subject: [PATCH 12/56] fix: write the Num attribute of ArithFormula

---
 src/contents.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/contents.rs b/src/contents.rs
index bde732d..0c9625b 100644
--- a/src/contents.rs
+++ b/src/contents.rs
@@ -312,6 +312,10 @@ impl Parser for ArithFormula {
 
 impl ToXmlElement for ArithFormula {
   fn to_xml_element(&self) -> Element {
-    self.contentes.to_xml_element_with_name("ArithFormula")
+    let mut e = self.contentes.to_xml_element_with_name("ArithFormula");
+    if let Some(num) = self.num {
+      e.attributes.insert("Num".to_string(), num.to_string());
+    }
+    e
   }
 }
-- 
2.43.0


From 0e8582f2ae5fcc9222db7ac44b99e944e46be184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:32 +0000
Subject: [PATCH 13/56] fix: read documents with comments and processing
 instructions

---
 src/lib.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63925fa..fb4d2fa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -49,15 +49,35 @@ use koyomi::{era, Date};
 use result::*;
 use std::io::{Read, Write};
 use to_xml::ToXmlElement;
-use xmltree::Element;
+use xmltree::{Element, XMLNode};
 
 /// XML文字列を法律の構造体に変換する
 pub fn parse_xml(xml: &[u8]) -> Result<law::Law> {
-  let element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
+  let mut element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
+  remove_misc(&mut element);
   let law = law::Law::parser(&element)?;
   Ok(law)
 }
 
+/// コメントと処理命令を取り除き、それらで分断された文字列を繋げる
+fn remove_misc(element: &mut Element) {
+  let mut children: Vec<XMLNode> = Vec::new();
+  for node in std::mem::take(&mut element.children) {
+    match node {
+      XMLNode::Element(mut e) => {
+        remove_misc(&mut e);
+        children.push(XMLNode::Element(e));
+      }
+      XMLNode::Text(s) | XMLNode::CData(s) => match children.last_mut() {
+        Some(XMLNode::Text(t)) => t.push_str(&s),
+        _ => children.push(XMLNode::Text(s)),
+      },
+      XMLNode::Comment(_) | XMLNode::ProcessingInstruction(_, _) => (),
+    }
+  }
+  element.children = children;
+}
+
 /// ファイルのパスから法律の構造体に変換する
 pub fn parse_xml_file(path: &str) -> Result<law::Law> {
   let mut file = std::fs::File::open(path).map_err(|_| result::Error::Io)?;
-- 
2.43.0


From 8ae25f09a605e8d45c47ad8e0301641a38b10056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:34 +0000
Subject: [PATCH 14/56] fix: do not panic on an Article without Paragraph

---
 src/article.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/article.rs b/src/article.rs
index 5316e62..baec35f 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -651,7 +651,9 @@ impl Parser for Article {
             break;
           }
         }
-        let next = children.next().unwrap();
+        let Some(next) = children.next() else {
+          break;
+        };
         if let XMLNode::Element(e) = next {
           match e.name.as_str() {
             "ArticleCaption" => {
-- 
2.43.0


From 08ab22b7a0a862eada41d2c3eab8bd9d1df9111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:23 +0000
Subject: [PATCH 15/56] fix: refuse unknown or unreadable elements inside
 titles and labels

---
 src/appdx.rs             | 26 +++++++++++++++++++-------
 src/article.rs           | 14 +++++++-------
 src/class.rs             |  4 ++--
 src/law.rs               | 30 ++++++++++++++++++------------
 src/paragraph.rs         | 24 ++++++++++++------------
 src/remarks.rs           |  2 +-
 src/structs.rs           |  8 ++++----
 src/suppl_provision.rs   | 10 +++++-----
 src/table.rs             |  2 +-
 src/table_of_contents.rs | 32 ++++++++++++++++----------------
 src/text.rs              | 26 +++++++++++++++++++++++++-
 11 files changed, 110 insertions(+), 68 deletions(-)

diff --git a/src/appdx.rs b/src/appdx.rs
index d739d31..807fc8c 100644
--- a/src/appdx.rs
+++ b/src/appdx.rs
@@ -36,7 +36,9 @@ impl Parser for AppdxTable {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => {
+              related_article_num = Some(Text::try_from_children(&e.children)?)
+            }
             "TableStruct" => {
               let v = TableStruct::parser(e)?;
               children.push(AppdxTableContents::TableStruct(v))
@@ -125,7 +127,9 @@ impl Parser for AppdxNote {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => {
+              related_article_num = Some(Text::try_from_children(&e.children)?)
+            }
             "TableStruct" => {
               let v = TableStruct::parser(e)?;
               children.push(AppdxNoteContents::TableStruct(v))
@@ -220,7 +224,9 @@ impl Parser for AppdxStyle {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => {
+              related_article_num = Some(Text::try_from_children(&e.children)?)
+            }
             "StyleStruct" => {
               let v = StyleStruct::parser(e)?;
               children.push(v)
@@ -296,7 +302,9 @@ impl Parser for AppdxFormat {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => {
+              related_article_num = Some(Text::try_from_children(&e.children)?)
+            }
             "FormatStruct" => {
               let v = FormatStruct::parser(e)?;
               children.push(v)
@@ -365,8 +373,10 @@ impl Parser for Appdx {
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
-            "ArithFormulaNum" => arith_formula_num = Some(Text::from_children(&e.children)),
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "ArithFormulaNum" => arith_formula_num = Some(Text::try_from_children(&e.children)?),
+            "RelatedArticleNum" => {
+              related_article_num = Some(Text::try_from_children(&e.children)?)
+            }
             "ArithFormula" => {
               let v = ArithFormula::parser(e)?;
               arith_formula.push(v)
@@ -436,7 +446,9 @@ impl Parser for AppdxFig {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => {
+              related_article_num = Some(Text::try_from_children(&e.children)?)
+            }
             "TableStruct" => {
               let v = TableStruct::parser(e)?;
               children.push(AppdxFigContents::TableStruct(v))
diff --git a/src/article.rs b/src/article.rs
index baec35f..e29f046 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -63,7 +63,7 @@ impl Parser for Part {
         .ok_or(Error::missing_required_tag("PartTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "PartTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::try_from_children(&title_element.children)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -181,7 +181,7 @@ impl Parser for Chapter {
         .ok_or(Error::missing_required_tag("ChapterTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "ChapterTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::try_from_children(&title_element.children)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -299,7 +299,7 @@ impl Parser for Section {
         .ok_or(Error::missing_required_tag("SectionTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "SectionTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::try_from_children(&title_element.children)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -425,7 +425,7 @@ impl Parser for Subsection {
         .ok_or(Error::missing_required_tag("SubsectionTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "SubsectionTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::try_from_children(&title_element.children)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -545,7 +545,7 @@ impl Parser for Division {
         .ok_or(Error::missing_required_tag("DivisionTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "DivisionTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::try_from_children(&title_element.children)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -661,7 +661,7 @@ impl Parser for Article {
               caption = Some(v);
             }
             "ArticleTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::try_from_children(&e.children)?;
             }
             s => return Err(Error::unexpected_tag(element, s)),
           }
@@ -676,7 +676,7 @@ impl Parser for Article {
               let v = Paragraph::parser(e)?;
               paragraph.push(v);
             }
-            "SupplNote" => suppl_note = Some(Text::from_children(&e.children)),
+            "SupplNote" => suppl_note = Some(Text::try_from_children(&e.children)?),
 
             s => return Err(Error::unexpected_tag(element, s)),
           }
diff --git a/src/class.rs b/src/class.rs
index cf7a79a..518c1ba 100644
--- a/src/class.rs
+++ b/src/class.rs
@@ -31,7 +31,7 @@ impl Parser for Class {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ClassTitle" => {
-              class_title = Some(Text::from_children(&e.children));
+              class_title = Some(Text::try_from_children(&e.children)?);
             }
             "ClassSentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -168,7 +168,7 @@ impl Caption {
 
 impl Parser for Caption {
   fn parser(element: &Element) -> Result<Self> {
-    let text = text::Text::from_children(&element.children);
+    let text = text::Text::try_from_children(&element.children)?;
     let common_caption = get_attribute_opt_with_parse::<bool>(element, "CommonCaption")?;
     Ok(Caption::new(text, common_caption))
   }
diff --git a/src/law.rs b/src/law.rs
index 6108a75..844c36a 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -353,7 +353,7 @@ impl Parser for LawBody {
               let v = LawTitle::parser(e)?;
               law_title = Some(v);
             }
-            "EnactStatement" => enact_statement.push(Text::from_children(&e.children)),
+            "EnactStatement" => enact_statement.push(Text::try_from_children(&e.children)?),
             "TOC" => {
               let v = TOC::parser(e)?;
               toc = Some(v);
@@ -489,7 +489,7 @@ impl Parser for LawTitle {
       let kana = get_attribute_opt_with_parse(element, "Kana")?;
       let abbrev = get_attribute_opt_with_parse(element, "Abbrev")?;
       let abbrev_kana = get_attribute_opt_with_parse(element, "AbbrevKana")?;
-      let text = Text::from_children(&element.children);
+      let text = Text::try_from_children(&element.children)?;
       Ok(LawTitle {
         kana,
         abbrev,
@@ -688,48 +688,54 @@ impl Parser for AmendProvision {
                       new_provision.push(NewProvision::Part(v));
                     }
                     "PartTitle" => {
-                      new_provision.push(NewProvision::PartTitle(Text::from_children(&e.children)));
+                      new_provision.push(NewProvision::PartTitle(Text::try_from_children(
+                        &e.children,
+                      )?));
                     }
                     "Chapter" => {
                       let v = Chapter::parser(e)?;
                       new_provision.push(NewProvision::Chapter(v));
                     }
                     "ChapterTitle" => {
-                      new_provision
-                        .push(NewProvision::ChapterTitle(Text::from_children(&e.children)));
+                      new_provision.push(NewProvision::ChapterTitle(Text::try_from_children(
+                        &e.children,
+                      )?));
                     }
                     "Section" => {
                       let v = Section::parser(e)?;
                       new_provision.push(NewProvision::Section(v));
                     }
                     "SectionTitle" => {
-                      new_provision
-                        .push(NewProvision::SectionTitle(Text::from_children(&e.children)));
+                      new_provision.push(NewProvision::SectionTitle(Text::try_from_children(
+                        &e.children,
+                      )?));
                     }
                     "Subsection" => {
                       let v = Subsection::parser(e)?;
                       new_provision.push(NewProvision::Subsection(v));
                     }
                     "SubsectionTitle" => {
-                      new_provision.push(NewProvision::SubsectionTitle(Text::from_children(
+                      new_provision.push(NewProvision::SubsectionTitle(Text::try_from_children(
                         &e.children,
-                      )));
+                      )?));
                     }
                     "Division" => {
                       let v = Division::parser(e)?;
                       new_provision.push(NewProvision::Division(v));
                     }
                     "DivisionTitle" => {
-                      new_provision.push(NewProvision::DivisionTitle(Text::from_children(
+                      new_provision.push(NewProvision::DivisionTitle(Text::try_from_children(
                         &e.children,
-                      )));
+                      )?));
                     }
                     "Article" => {
                       let v = Article::parser(e)?;
                       new_provision.push(NewProvision::Article(v));
                     }
                     "SupplNote" => {
-                      new_provision.push(NewProvision::SupplNote(Text::from_children(&e.children)));
+                      new_provision.push(NewProvision::SupplNote(Text::try_from_children(
+                        &e.children,
+                      )?));
                     }
                     "Paragraph" => {
                       let v = Paragraph::parser(e)?;
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 0e1b3e1..91c61b2 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -51,7 +51,7 @@ impl Parser for Paragraph {
               caption = Some(v);
             }
             "ParagraphNum" => {
-              paragraph_num = Text::from_children(&e.children);
+              paragraph_num = Text::try_from_children(&e.children)?;
             }
             "ParagraphSentence" => {
               for node in e.children.iter() {
@@ -208,7 +208,7 @@ impl Parser for Item {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ItemTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "ItemSentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -351,7 +351,7 @@ impl Parser for Subitem1 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem1Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem1Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -494,7 +494,7 @@ impl Parser for Subitem2 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem2Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem2Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -637,7 +637,7 @@ impl Parser for Subitem3 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem3Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem3Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -780,7 +780,7 @@ impl Parser for Subitem4 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem4Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem4Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -923,7 +923,7 @@ impl Parser for Subitem5 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem5Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem5Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1066,7 +1066,7 @@ impl Parser for Subitem6 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem6Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem6Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1209,7 +1209,7 @@ impl Parser for Subitem7 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem7Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem7Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1352,7 +1352,7 @@ impl Parser for Subitem8 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem8Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem8Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1495,7 +1495,7 @@ impl Parser for Subitem9 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem9Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem9Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1634,7 +1634,7 @@ impl Parser for Subitem10 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem10Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem10Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
diff --git a/src/remarks.rs b/src/remarks.rs
index 3ce447c..214bf2f 100644
--- a/src/remarks.rs
+++ b/src/remarks.rs
@@ -82,7 +82,7 @@ impl Parser for RemarksLabel {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "RemarksLabel" {
       let line_break = get_attribute_opt_with_parse(element, "LineBreak")?.unwrap_or(false);
-      let text = Text::from_children(&element.children);
+      let text = Text::try_from_children(&element.children)?;
       Ok(RemarksLabel { text, line_break })
     } else {
       Err(Error::wrong_tag_name(element, "RemarksLabel"))
diff --git a/src/structs.rs b/src/structs.rs
index 49713ed..ddc62c4 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -80,7 +80,7 @@ impl Parser for NoteStruct {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "NoteStructTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Remarks" => {
               if let Ok(r) = Remarks::parser(e) {
@@ -156,7 +156,7 @@ impl Parser for StyleStruct {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "StyleStructTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Remarks" => {
               if let Ok(r) = Remarks::parser(e) {
@@ -232,7 +232,7 @@ impl Parser for FormatStruct {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "FormatStructTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Remarks" => {
               if let Ok(r) = Remarks::parser(e) {
@@ -308,7 +308,7 @@ impl Parser for FigStruct {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "FigStructTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Remarks" => {
               if let Ok(r) = Remarks::parser(e) {
diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index a013743..67c3f7f 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -44,7 +44,7 @@ impl Parser for SupplProvision {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SupplProvisionLabel" => {
-              label = Text::from_children(&e.children);
+              label = Text::try_from_children(&e.children)?;
             }
             "Chapter" => {
               let v = Chapter::parser(e)?;
@@ -176,7 +176,7 @@ impl Parser for SupplProvisionAppdxTable {
               title = Some(v);
             }
             "RelatedArticleNum" => {
-              related_article_num = Some(Text::from_children(&e.children));
+              related_article_num = Some(Text::try_from_children(&e.children)?);
             }
             "TableStruct" => {
               let v = TableStruct::parser(e)?;
@@ -250,7 +250,7 @@ impl Parser for SupplProvisionAppdxStyle {
               title = Some(v);
             }
             "RelatedArticleNum" => {
-              related_article_num = Some(Text::from_children(&e.children));
+              related_article_num = Some(Text::try_from_children(&e.children)?);
             }
             "StyleStruct" => {
               let v = StyleStruct::parser(e)?;
@@ -320,10 +320,10 @@ impl Parser for SupplProvisionAppdx {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ArithFormulaNum" => {
-              arith_formula_num = Some(Text::from_children(&e.children));
+              arith_formula_num = Some(Text::try_from_children(&e.children)?);
             }
             "RelatedArticleNum" => {
-              related_article_num = Some(Text::from_children(&e.children));
+              related_article_num = Some(Text::try_from_children(&e.children)?);
             }
             "ArithFormula" => {
               let v = ArithFormula::parser(e)?;
diff --git a/src/table.rs b/src/table.rs
index b1cab15..9dd1dd2 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -86,7 +86,7 @@ impl Parser for TableHeaderRow {
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
           if e.name.as_str() == "TableHeaderColumn" {
-            let text = Text::from_children(&e.children);
+            let text = Text::try_from_children(&e.children)?;
             columns.push(text);
           }
         }
diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index 9fffb87..ff10f72 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -36,10 +36,10 @@ impl Parser for TOC {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "TOCLabel" => {
-              label = Some(Text::from_children(&e.children));
+              label = Some(Text::try_from_children(&e.children)?);
             }
             "TOCPreambleLabel" => {
-              preamble_label = Some(Text::from_children(&e.children));
+              preamble_label = Some(Text::try_from_children(&e.children)?);
             }
             "TOCPart" => {
               let v = TOCPart::parser(e)?;
@@ -62,7 +62,7 @@ impl Parser for TOC {
               suppl_provision = Some(v);
             }
             "TOCAppdxTableLabel" => {
-              appdx_table_lable.push(Text::from_children(&e.children));
+              appdx_table_lable.push(Text::try_from_children(&e.children)?);
             }
             s => return Err(Error::unexpected_tag(element, s)),
           }
@@ -152,10 +152,10 @@ impl Parser for TOCPart {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "PartTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::try_from_children(&e.children)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::try_from_children(&e.children)?);
             }
             "TOCChapter" => {
               let v = TOCChapter::parser(e)?;
@@ -228,10 +228,10 @@ impl Parser for TOCChapter {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ChapterTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::try_from_children(&e.children)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::try_from_children(&e.children)?);
             }
             "TOCSection" => {
               let v = TOCSection::parser(e)?;
@@ -304,10 +304,10 @@ impl Parser for TOCSection {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SectionTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::try_from_children(&e.children)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::try_from_children(&e.children)?);
             }
             "TOCSubsection" => {
               let v = TOCSubsection::parser(e)?;
@@ -398,10 +398,10 @@ impl Parser for TOCSubsection {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SubsectionTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::try_from_children(&e.children)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::try_from_children(&e.children)?);
             }
             "TOCDivision" => {
               let v = TOCDivision::parser(e)?;
@@ -473,10 +473,10 @@ impl Parser for TOCDivision {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "DivisionTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::try_from_children(&e.children)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::try_from_children(&e.children)?);
             }
             s => return Err(Error::unexpected_tag(element, s)),
           }
@@ -540,7 +540,7 @@ impl Parser for TOCArticle {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ArticleTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::try_from_children(&e.children)?;
             }
             "ArticleCaption" => {
               let v = Caption::parser(e)?;
@@ -609,10 +609,10 @@ impl Parser for TOCSupplProvision {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SupplProvisionLabel" => {
-              label = Text::from_children(&e.children);
+              label = Text::try_from_children(&e.children)?;
             }
             "ArticleRange" => {
-              range = Some(Text::from_children(&e.children));
+              range = Some(Text::try_from_children(&e.children)?);
             }
             "TOCArticle" => {
               let v = TOCArticle::parser(e)?;
diff --git a/src/text.rs b/src/text.rs
index a154f0b..5c1923c 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -57,6 +57,30 @@ impl Text {
     text
   }
 
+  /// Node列からの生成。知らない要素や読めない要素があればエラーにする
+  pub(crate) fn try_from_children(children: &[XMLNode]) -> result::Result<Self> {
+    let mut text = Text::new();
+    for node in children {
+      if let XMLNode::Element(element) = node {
+        match element.name.as_str() {
+          "Ruby" => text.add_ruby(Ruby::parser(element)?),
+          "Line" => text.add_line(Line::parser(element)?),
+          "Sup" => text.add_sup(Sup::parser(element)?),
+          "Sub" => text.add_sub(Sub::parser(element)?),
+          s => {
+            return Err(Error::UnexpectedTag {
+              wrong_name: s.to_string(),
+              tag: "Text".to_string(),
+            })
+          }
+        }
+      } else if let XMLNode::Text(s) = node {
+        text.add_string(s)
+      }
+    }
+    Ok(text)
+  }
+
   /// 値から
   pub fn from_value<T: ToString>(t: T) -> Self {
     Text {
@@ -191,7 +215,7 @@ pub struct TextWithWritingMode {
 impl Parser for TextWithWritingMode {
   fn parser(element: &Element) -> result::Result<Self> {
     let writing_mode = element.attributes.get("WritingMode").map(|s| s.as_str());
-    let text = Text::from_children(&element.children);
+    let text = Text::try_from_children(&element.children)?;
     match writing_mode {
       Some("vertical") => Ok(TextWithWritingMode {
         contents: text.contents,
-- 
2.43.0


From eed98d88ab0a7a09e02e03c771ae688b35b68fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:48 +0000
Subject: [PATCH 16/56] fix: refuse a structure whose Remarks cannot be read

---
 src/structs.rs | 55 +++++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index ddc62c4..4307051 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -83,12 +83,11 @@ impl Parser for NoteStruct {
               title = Some(Text::try_from_children(&e.children)?);
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if note.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  note_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if note.is_none() {
+                title_remarks.push(r);
+              } else {
+                note_remarks.push(r);
               }
             }
             "Note" => {
@@ -159,12 +158,11 @@ impl Parser for StyleStruct {
               title = Some(Text::try_from_children(&e.children)?);
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if style.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  style_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if style.is_none() {
+                title_remarks.push(r);
+              } else {
+                style_remarks.push(r);
               }
             }
             "Style" => {
@@ -235,12 +233,11 @@ impl Parser for FormatStruct {
               title = Some(Text::try_from_children(&e.children)?);
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if format.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  format_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if format.is_none() {
+                title_remarks.push(r);
+              } else {
+                format_remarks.push(r);
               }
             }
             "Format" => {
@@ -311,12 +308,11 @@ impl Parser for FigStruct {
               title = Some(Text::try_from_children(&e.children)?);
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if fig.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  fig_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if fig.is_none() {
+                title_remarks.push(r);
+              } else {
+                fig_remarks.push(r);
               }
             }
             "Fig" => {
@@ -387,12 +383,11 @@ impl Parser for TableStruct {
               title = Some(v);
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if table.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  table_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if table.is_none() {
+                title_remarks.push(r);
+              } else {
+                table_remarks.push(r);
               }
             }
             "Table" => {
-- 
2.43.0


From ecadece707dcfdb4ec96e8905cc2b61410b0c2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:52 +0000
Subject: [PATCH 17/56] fix: refuse unknown values of WritingMode, Border,
 Align and Valign attributes

---
 src/class.rs    |  1 +
 src/lib.rs      | 16 ++++++++++++++++
 src/sentence.rs |  6 +-----
 src/table.rs    | 24 +++++++++++-------------
 src/text.rs     | 31 ++++++++++++++++---------------
 5 files changed, 45 insertions(+), 33 deletions(-)

diff --git a/src/class.rs b/src/class.rs
index 518c1ba..9a76d8d 100644
--- a/src/class.rs
+++ b/src/class.rs
@@ -200,6 +200,7 @@ impl Parser for Column {
       let num = get_attribute_opt_with_parse(element, "Num")?;
       let line_break = get_attribute_opt_with_parse(element, "LineBreak")?.unwrap_or(false);
       let align = Align::from_attribute(element.attributes.get("Align"));
+      let align = check_attribute(element, "Align", align)?;
       let mut sentence = Vec::new();
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
diff --git a/src/lib.rs b/src/lib.rs
index fb4d2fa..9188f04 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -189,6 +189,22 @@ pub(crate) fn get_attribute(element: &Element, name: &str) -> Result<String> {
   }
 }
 
+/// 属性が書かれているのに値として解釈できなかったときにエラーにする
+pub(crate) fn check_attribute<T>(
+  element: &Element,
+  name: &str,
+  value: Option<T>,
+) -> Result<Option<T>> {
+  if value.is_none() && element.attributes.contains_key(name) {
+    Err(Error::AttributeParseError {
+      tag_name: element.name.to_string(),
+      attribute_name: name.to_string(),
+    })
+  } else {
+    Ok(value)
+  }
+}
+
 pub(crate) fn get_attribute_with_parse<T>(element: &Element, name: &str) -> Result<T>
 where
   T: std::str::FromStr,
diff --git a/src/sentence.rs b/src/sentence.rs
index 11bc531..7edad96 100644
--- a/src/sentence.rs
+++ b/src/sentence.rs
@@ -54,11 +54,7 @@ impl Parser for Sentence {
           })
         }
       };
-      let writing_mode = match element.attributes.get("WritingMode").map(|s| s.as_str()) {
-        Some("vertical") => text::WritingMode::Vertical,
-        Some("horizontal") => text::WritingMode::Horizontal,
-        _ => text::WritingMode::Vertical,
-      };
+      let writing_mode = WritingMode::parse_attribute(element)?;
       let mut contents = Vec::new();
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
diff --git a/src/table.rs b/src/table.rs
index 9dd1dd2..2ac7c2a 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -24,11 +24,7 @@ pub struct Table {
 impl Parser for Table {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Table" {
-      let writing_mode = match element.attributes.get("WritingMode").map(|s| s.as_str()) {
-        Some("vetical") => WritingMode::Vertical,
-        Some("horizontal") => WritingMode::Horizontal,
-        _ => WritingMode::Vertical,
-      };
+      let writing_mode = WritingMode::parse_attribute(element)?;
       let mut table_header_row = Vec::new();
       let mut table_row = Vec::new();
       for node in element.children.iter() {
@@ -162,18 +158,20 @@ pub struct TableColumn {
 impl Parser for TableColumn {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "TableColumn" {
-      let border_top =
-        LineStyle::from_attribute(element.attributes.get("BorderTop")).unwrap_or(LineStyle::Solid);
-      let border_bottom = LineStyle::from_attribute(element.attributes.get("BorderBottom"))
-        .unwrap_or(LineStyle::Solid);
-      let border_left =
-        LineStyle::from_attribute(element.attributes.get("BorderLeft")).unwrap_or(LineStyle::Solid);
-      let border_right = LineStyle::from_attribute(element.attributes.get("BorderRight"))
-        .unwrap_or(LineStyle::Solid);
+      let border = |name: &str| -> result::Result<LineStyle> {
+        let style = LineStyle::from_attribute(element.attributes.get(name));
+        Ok(check_attribute(element, name, style)?.unwrap_or(LineStyle::Solid))
+      };
+      let border_top = border("BorderTop")?;
+      let border_bottom = border("BorderBottom")?;
+      let border_left = border("BorderLeft")?;
+      let border_right = border("BorderRight")?;
       let rowspan = get_attribute_opt_with_parse(element, "rowspan")?;
       let colspan = get_attribute_opt_with_parse(element, "colspan")?;
       let align = Align::from_attribute(element.attributes.get("Align"));
+      let align = check_attribute(element, "Align", align)?;
       let valign = Position::from_attribute(element.attributes.get("Valign"));
+      let valign = check_attribute(element, "Valign", valign)?;
       let mut contents = Vec::new();
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
diff --git a/src/text.rs b/src/text.rs
index 5c1923c..330ea91 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -205,6 +205,17 @@ pub enum WritingMode {
   Horizontal,
 }
 
+impl WritingMode {
+  pub(crate) fn parse_attribute(element: &Element) -> result::Result<Self> {
+    let writing_mode = match element.attributes.get("WritingMode").map(|s| s.as_str()) {
+      Some("vertical") => Some(WritingMode::Vertical),
+      Some("horizontal") => Some(WritingMode::Horizontal),
+      _ => None,
+    };
+    Ok(check_attribute(element, "WritingMode", writing_mode)?.unwrap_or(WritingMode::Vertical))
+  }
+}
+
 /// 段落方向の情報がついたテキスト
 #[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq, Eq)]
 pub struct TextWithWritingMode {
@@ -214,22 +225,12 @@ pub struct TextWithWritingMode {
 
 impl Parser for TextWithWritingMode {
   fn parser(element: &Element) -> result::Result<Self> {
-    let writing_mode = element.attributes.get("WritingMode").map(|s| s.as_str());
+    let writing_mode = WritingMode::parse_attribute(element)?;
     let text = Text::try_from_children(&element.children)?;
-    match writing_mode {
-      Some("vertical") => Ok(TextWithWritingMode {
-        contents: text.contents,
-        writing_mode: WritingMode::Vertical,
-      }),
-      Some("horizontal") => Ok(TextWithWritingMode {
-        contents: text.contents,
-        writing_mode: WritingMode::Horizontal,
-      }),
-      _ => Ok(TextWithWritingMode {
-        contents: text.contents,
-        writing_mode: WritingMode::Vertical,
-      }),
-    }
+    Ok(TextWithWritingMode {
+      contents: text.contents,
+      writing_mode,
+    })
   }
 }
 
-- 
2.43.0


From 3fa80ca8a93d95cbc69780dae7aa2404852a1169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:13 +0000
Subject: [PATCH 18/56] fix: refuse unknown elements in Preamble,
 TableHeaderRow and TableRow

---
 src/law.rs   | 6 ++----
 src/table.rs | 8 ++++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 844c36a..46e7f1f 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -531,10 +531,8 @@ impl Parser for Preamble {
       let mut children = Vec::new();
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
-          if e.name.as_str() == "Paragraph" {
-            let v = Paragraph::parser(e)?;
-            children.push(v)
-          }
+          let v = Paragraph::parser(e)?;
+          children.push(v)
         }
       }
       Ok(Preamble { children })
diff --git a/src/table.rs b/src/table.rs
index 2ac7c2a..07e7cf0 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -84,6 +84,8 @@ impl Parser for TableHeaderRow {
           if e.name.as_str() == "TableHeaderColumn" {
             let text = Text::try_from_children(&e.children)?;
             columns.push(text);
+          } else {
+            return Err(Error::unexpected_tag(element, &e.name));
           }
         }
       }
@@ -117,10 +119,8 @@ impl Parser for TableRow {
       let mut columns = Vec::new();
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
-          if e.name.as_str() == "TableColumn" {
-            let v = TableColumn::parser(e)?;
-            columns.push(v);
-          }
+          let v = TableColumn::parser(e)?;
+          columns.push(v);
         }
       }
       Ok(TableRow { columns })
-- 
2.43.0


From 31a74336f9338c965ed4e9dbb7562af38ab05468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:16 +0000
Subject: [PATCH 19/56] fix: refuse elements inside LawNum, Ruby, Rt, Sup and
 Sub

---
 src/law.rs  | 12 +-----------
 src/text.rs | 55 ++++++++++++++++++++---------------------------------
 2 files changed, 22 insertions(+), 45 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 46e7f1f..8505821 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -134,17 +134,7 @@ impl Parser for Law {
         .ok_or(Error::missing_required_tag("LawNum"))?;
       let law_num_element_tag_name = law_num_element.name.clone();
       let law_num = if law_num_element_tag_name == "LawNum" {
-        law_num_element
-          .children
-          .iter()
-          .map(|n| {
-            if let XMLNode::Text(s) = n {
-              s.clone()
-            } else {
-              String::new()
-            }
-          })
-          .collect::<String>()
+        text_only(law_num_element)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: law_num_element_tag_name,
diff --git a/src/text.rs b/src/text.rs
index 330ea91..a2e5be4 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -308,18 +308,12 @@ impl Parser for Ruby {
       for children_node in children.iter() {
         if let XMLNode::Element(element) = children_node {
           if "Rt" == element.name.as_str() {
-            let s = element
-              .children
-              .iter()
-              .map(|n| {
-                if let XMLNode::Text(s) = n {
-                  s.clone()
-                } else {
-                  String::new()
-                }
-              })
-              .collect::<String>();
-            ruby = Some(s)
+            ruby = Some(text_only(element)?)
+          } else {
+            return Err(Error::UnexpectedTag {
+              wrong_name: element.name.clone(),
+              tag: "Ruby".to_string(),
+            });
           }
         } else if let XMLNode::Text(s) = children_node {
           text.add_string(s)
@@ -346,6 +340,19 @@ impl ToXmlElement for Ruby {
   }
 }
 
+/// 文字列だけを含む要素の中身
+pub(crate) fn text_only(element: &Element) -> result::Result<String> {
+  let mut text = String::new();
+  for node in element.children.iter() {
+    match node {
+      XMLNode::Text(s) => text.push_str(s),
+      XMLNode::Element(e) => return Err(Error::unexpected_tag(element, &e.name)),
+      _ => (),
+    }
+  }
+  Ok(text)
+}
+
 /// 上付き文字
 #[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq, Eq)]
 pub struct Sup {
@@ -355,17 +362,7 @@ pub struct Sup {
 impl Parser for Sup {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Sup" {
-      let text = element
-        .children
-        .first()
-        .and_then(|n| {
-          if let XMLNode::Text(s) = n {
-            Some(s.clone())
-          } else {
-            None
-          }
-        })
-        .unwrap_or_default();
+      let text = text_only(element)?;
       Ok(Sup { text })
     } else {
       Err(Error::wrong_tag_name(element, "Sup"))
@@ -390,17 +387,7 @@ pub struct Sub {
 impl Parser for Sub {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Sub" {
-      let text = element
-        .children
-        .first()
-        .and_then(|n| {
-          if let XMLNode::Text(s) = n {
-            Some(s.clone())
-          } else {
-            None
-          }
-        })
-        .unwrap_or_default();
+      let text = text_only(element)?;
       Ok(Sub { text })
     } else {
       Err(Error::wrong_tag_name(element, "Sub"))
-- 
2.43.0


From 05619732ea0a27f85b8d0eb3b0e2bdccb0191e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:03 +0000
Subject: [PATCH 20/56] fix: refuse number attributes with more than one range
 end

---
 src/article_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index c77100c..368b38e 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -41,7 +41,7 @@ impl ArticleNumber {
 
   /// "1_2"などの文字列から生成する
   pub fn from_num_str(num_str: &str) -> Result<Self> {
-    let mut num_s_lst = num_str.split(':');
+    let mut num_s_lst = num_str.splitn(2, ':');
     let num_str = num_s_lst.next().unwrap();
     let n_lst = num_str.split('_').map(|s| {
       s.parse::<usize>()
-- 
2.43.0


From 20c15682e2de62d0bddd35e1c4ad7bab5be64db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:06 +0000
Subject: [PATCH 21/56] fix: refuse elements after LawBody and inside Fig

---
 src/fig.rs | 3 +++
 src/law.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/fig.rs b/src/fig.rs
index 2e70b33..0f4121c 100644
--- a/src/fig.rs
+++ b/src/fig.rs
@@ -21,6 +21,9 @@ impl Parser for Fig {
         attribute_name: "src".to_string(),
       })?
       .clone();
+    if let Some(e) = element.children.iter().find_map(|n| n.as_element()) {
+      return Err(result::Error::unexpected_tag(element, &e.name));
+    }
     Ok(Fig { src })
   }
 }
diff --git a/src/law.rs b/src/law.rs
index 8505821..79fdcb3 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -152,6 +152,9 @@ impl Parser for Law {
         })
         .ok_or(Error::missing_required_tag("LawBody"))?;
       let law_body = LawBody::parser(law_body_element)?;
+      if let Some(e) = children.find_map(|n| n.as_element()) {
+        return Err(Error::unexpected_tag(element, &e.name));
+      }
       Ok(Law {
         era,
         year,
-- 
2.43.0


From 99030db807b89957bccadcdc008e1b26d93d3cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:08 +0000
Subject: [PATCH 22/56] fix: refuse elements other than Sentence in
 AmendProvisionSentence

---
 src/law.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 79fdcb3..4cbfa8b 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -644,17 +644,13 @@ impl Parser for AmendProvision {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "AmendProvisionSentence" => {
-              let n = e
-                .children
-                .first()
-                .and_then(|n| {
-                  if let XMLNode::Element(e) = n {
-                    Some(e)
-                  } else {
-                    None
-                  }
-                })
+              let mut children = e.children.iter().filter_map(|n| n.as_element());
+              let n = children
+                .next()
                 .ok_or(Error::missing_required_tag("AmendProvision"))?;
+              if let Some(n) = children.find(|n| n.name != "Sentence") {
+                return Err(Error::unexpected_tag(e, &n.name));
+              }
               let v = Sentence::parser(n)?;
               sentence = Some(v)
             }
-- 
2.43.0


From f7fce6d0d6b099f173b10b67680ded3feb7bf25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:41 +0000
Subject: [PATCH 23/56] fix: refuse unreadable Num attributes of items and
 subitems

---
 src/lib.rs       | 12 ++++++++++++
 src/paragraph.rs | 33 +++++++++++----------------------
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9188f04..9b113a0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -228,6 +228,18 @@ where
   }
 }
 
+/// 番号を表す必須の属性を読む。値が空の場合は番号が無いものとする
+pub(crate) fn get_number_attribute(
+  element: &Element,
+  name: &str,
+) -> Result<Option<article_number::ArticleNumber>> {
+  if get_attribute(element, name)?.is_empty() {
+    Ok(None)
+  } else {
+    get_attribute_with_parse(element, name).map(Some)
+  }
+}
+
 pub(crate) fn get_attribute_opt_with_parse<T>(element: &Element, name: &str) -> Result<Option<T>>
 where
   T: std::str::FromStr,
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 91c61b2..cf361fb 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -196,8 +196,7 @@ impl Item {
 impl Parser for Item {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Item" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_number_attribute(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -339,8 +338,7 @@ impl Subitem1 {
 impl Parser for Subitem1 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem1" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_number_attribute(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -482,8 +480,7 @@ impl Subitem2 {
 impl Parser for Subitem2 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem2" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_number_attribute(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -625,8 +622,7 @@ impl Subitem3 {
 impl Parser for Subitem3 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem3" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_number_attribute(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -768,8 +764,7 @@ impl Subitem4 {
 impl Parser for Subitem4 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem4" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_number_attribute(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -911,8 +906,7 @@ impl Subitem5 {
 impl Parser for Subitem5 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem5" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_number_attribute(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1054,8 +1048,7 @@ impl Subitem6 {
 impl Parser for Subitem6 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem6" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_number_attribute(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1197,8 +1190,7 @@ impl Subitem7 {
 impl Parser for Subitem7 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem7" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_number_attribute(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1340,8 +1332,7 @@ impl Subitem8 {
 impl Parser for Subitem8 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem8" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_number_attribute(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1483,8 +1474,7 @@ impl Subitem9 {
 impl Parser for Subitem9 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem9" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_number_attribute(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1623,8 +1613,7 @@ impl Subitem10 {
 impl Parser for Subitem10 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem10" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_number_attribute(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
-- 
2.43.0


From 4466581e99b3cb6beff39fb6478e9fd7caf331b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:30 +0000
Subject: [PATCH 24/56] fix: refuse elements after Sublist3Sentence

---
 src/list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/list.rs b/src/list.rs
index 5ddb1bd..10a948a 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -291,6 +291,11 @@ impl Parser for Sublist3 {
       } else {
         return Err(Error::wrong_tag_name(element, "Sublist3Sentence"));
       }
+      for node in children {
+        if let XMLNode::Element(e) = node {
+          return Err(Error::unexpected_tag(element, e.name.as_str()));
+        }
+      }
       Ok(Sublist3::new(sentence))
     } else {
       Err(Error::wrong_tag_name(element, "Sublist3"))
-- 
2.43.0


From df464bc0dac46979353d20dfe1a1657edc798b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:49 +0000
Subject: [PATCH 25/56] fix: do not panic on or misread kanji numerals with
 misplaced digits

---
 src/article_number.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 368b38e..6120ad3 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -221,9 +221,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num") {
       parse_zenkaku_num(zenkaku_num.as_str())?
     } else if let Some(kansuji) = caps.name("kansuji") {
-      let kansuji = Kansuji::try_from(kansuji.as_str()).ok()?;
-      let n: u128 = kansuji.into();
-      n as usize
+      parse_kansuji(kansuji.as_str())?
     } else {
       return None;
     };
@@ -238,9 +236,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
       } else if let Some(n) = parse_zenkaku_num(s) {
         eda_numbers.push(n)
       } else {
-        let kansuji = Kansuji::try_from(s).ok()?;
-        let n: u128 = kansuji.into();
-        eda_numbers.push(n as usize)
+        eda_numbers.push(parse_kansuji(s)?)
       }
     }
     let mut num_str = base_number.to_string();
@@ -253,9 +249,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num_2") {
       range_end_numbers.push(parse_zenkaku_num(zenkaku_num.as_str())?)
     } else if let Some(kansuji) = caps.name("kansuji_2") {
-      let kansuji = Kansuji::try_from(kansuji.as_str()).ok()?;
-      let n: u128 = kansuji.into();
-      range_end_numbers.push(n as usize)
+      range_end_numbers.push(parse_kansuji(kansuji.as_str())?)
     };
     if let Some(s) = &caps.name("eda_str_2") {
       let eda_numbers_2 = s
@@ -269,9 +263,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
         } else if let Some(n) = parse_zenkaku_num(s) {
           range_end_numbers.push(n);
         } else {
-          let kansuji = Kansuji::try_from(*s).ok()?;
-          let n: u128 = kansuji.into();
-          range_end_numbers.push(n as usize);
+          range_end_numbers.push(parse_kansuji(s)?);
         }
       }
     }
@@ -449,9 +441,7 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
         parse_iroha_hiragana(s.as_str()).unwrap(),
       )
     } else if let Some(s) = caps.name("paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
-      let n: u128 = kansuji.into();
-      (ParenKansuji, n as usize)
+      (ParenKansuji, parse_kansuji(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_num") {
       (ParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
     } else if let Some(s) = caps.name("paren_zenkaku_upper") {
@@ -485,9 +475,7 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
         parse_iroha_hiragana(s.as_str()).unwrap(),
       )
     } else if let Some(s) = caps.name("no_paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
-      let n: u128 = kansuji.into();
-      (NoParenKansuji, n as usize)
+      (NoParenKansuji, parse_kansuji(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_num") {
       (NoParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
     } else if let Some(s) = caps.name("no_paren_zenkaku_upper") {
@@ -611,6 +599,19 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
   }
 }
 
+/// 漢数字を読む。桁の並びが正しくないものや大きすぎるものは数字とみなさない
+fn parse_kansuji(str: &str) -> Option<usize> {
+  let kansuji = Kansuji::try_from(str).ok()?;
+  let normalized = str
+    .replace("一千", "千")
+    .replace("一百", "百")
+    .replace("一十", "十");
+  if kansuji.to_string() != normalized {
+    return None;
+  }
+  usize::try_from(u128::from(kansuji)).ok()
+}
+
 fn parse_zenkaku_num(str: &str) -> Option<usize> {
   str
     .replace('０', "0")
-- 
2.43.0


From 84ad7f7acf4402945d288fd13af1bb61377d5ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:51 +0000
Subject: [PATCH 26/56] =?UTF-8?q?fix:=20do=20not=20panic=20on=20paragraph?=
 =?UTF-8?q?=20numbers=20that=20are=20too=20large=20or=20use=20=E3=83=8E?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/article_number.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 6120ad3..71d84e9 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -217,7 +217,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
   if let Some(caps) = re_article.captures(str) {
     // 編-条
     let base_number = if let Some(arabic_num) = caps.name("arabic_num") {
-      arabic_num.as_str().parse::<usize>().unwrap()
+      arabic_num.as_str().parse::<usize>().ok()?
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num") {
       parse_zenkaku_num(zenkaku_num.as_str())?
     } else if let Some(kansuji) = caps.name("kansuji") {
@@ -245,7 +245,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     }
     let mut range_end_numbers = Vec::new();
     if let Some(arabic_num) = caps.name("arabic_num_2") {
-      range_end_numbers.push(arabic_num.as_str().parse::<usize>().unwrap())
+      range_end_numbers.push(arabic_num.as_str().parse::<usize>().ok()?)
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num_2") {
       range_end_numbers.push(parse_zenkaku_num(zenkaku_num.as_str())?)
     } else if let Some(kansuji) = caps.name("kansuji_2") {
@@ -277,19 +277,13 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     let base_number = if let Ok(n) = &caps["num"].parse::<usize>() {
       *n
     } else {
-      parse_zenkaku_num(&caps["num"]).unwrap()
+      parse_zenkaku_num(&caps["num"])?
     };
     let eda_numbers = &caps["eda_str"]
-      .split('の')
+      .split(['の', 'ノ'])
       .filter(|s| !s.is_empty())
-      .map(|s| {
-        if let Ok(n) = s.parse::<usize>() {
-          n
-        } else {
-          parse_zenkaku_num(s).unwrap()
-        }
-      })
-      .collect::<Vec<usize>>();
+      .map(|s| s.parse::<usize>().ok().or_else(|| parse_zenkaku_num(s)))
+      .collect::<Option<Vec<usize>>>()?;
     let mut range_end_numbers = Vec::new();
     if let Some(m) = caps.name("num_2") {
       if let Ok(n) = m.as_str().parse::<usize>() {
-- 
2.43.0


From 17f7c6de5a6344afef9f0387486da5b3e2d67a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:53 +0000
Subject: [PATCH 27/56] fix: read the branch numbers at the end of a number
 range

---
 src/article_number.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 71d84e9..0f41205 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -254,7 +254,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     if let Some(s) = &caps.name("eda_str_2") {
       let eda_numbers_2 = s
         .as_str()
-        .split('の')
+        .split(['の', 'ノ'])
         .filter(|s| !s.is_empty())
         .collect::<Vec<_>>();
       for s in eda_numbers_2.iter() {
@@ -292,6 +292,11 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
         range_end_numbers.push(parse_zenkaku_num(m.as_str())?);
       }
     }
+    if let Some(m) = caps.name("eda_str_2") {
+      for s in m.as_str().split(['の', 'ノ']).filter(|s| !s.is_empty()) {
+        range_end_numbers.push(s.parse::<usize>().ok().or_else(|| parse_zenkaku_num(s))?);
+      }
+    }
     Some(ArticleNumber {
       base_number,
       eda_numbers: eda_numbers.clone(),
-- 
2.43.0


From c10ed9307b37b2cb6ddc2a81ff5c97aaac70f9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:55 +0000
Subject: [PATCH 28/56] fix: do not read text that only starts like a number as
 a number

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 0f41205..8363cc3 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -209,9 +209,9 @@ impl FromStr for ArticleNumber {
 }
 
 pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
-  let re_article = Regex::new(r"^(第)?((?<arabic_num>[0-9]+)|(?<zenkaku_num>[０-９]+)|(?<kansuji>[一二三四五六七八九十百千]+))(?<suffix>(編|章|節|款|目|条|項|号))(?<eda_str>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*)(から(第((?<arabic_num_2>[0-9]+)|(?<zenkaku_num_2>[０-９]+)|(?<kansuji_2>[一二三四五六七八九十百千]+))(?<suffix_2>(編|章|節|款|目|条|項|号))(?<eda_str_2>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*))まで)?").unwrap();
+  let re_article = Regex::new(r"^(第)?((?<arabic_num>[0-9]+)|(?<zenkaku_num>[０-９]+)|(?<kansuji>[一二三四五六七八九十百千]+))(?<suffix>(編|章|節|款|目|条|項|号))(?<eda_str>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*)(から(第((?<arabic_num_2>[0-9]+)|(?<zenkaku_num_2>[０-９]+)|(?<kansuji_2>[一二三四五六七八九十百千]+))(?<suffix_2>(編|章|節|款|目|条|項|号))(?<eda_str_2>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*))まで)?$").unwrap();
   let re_paragraph = Regex::new(
-    r"^(?<num>([０-９]+|[0-9]+))(?<eda_str>((の|ノ)([０-９]+|[0-9]+))*)(から(?<num_2>([０-９]+|[0-9]+))(?<eda_str_2>((の|ノ)([０-９]+|[0-9]+))*)まで)?",
+    r"^(?<num>([０-９]+|[0-9]+))(?<eda_str>((の|ノ)([０-９]+|[0-9]+))*)(から(?<num_2>([０-９]+|[0-9]+))(?<eda_str_2>((の|ノ)([０-９]+|[0-9]+))*)まで)?$",
   )
   .unwrap();
   if let Some(caps) = re_article.captures(str) {
-- 
2.43.0


From fd91f2ed6f9fcfe114b059170ffc79fa85a2acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 29/56] fix: write roman item labels in parentheses in the
 right case

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 8363cc3..b168538 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -382,10 +382,10 @@ impl ItemPattern {
       }
       ItemPattern::ParenZenkakuNum => format!("（{}）", to_zenkaku_num(n)),
       ItemPattern::ParenZenkakuRomanUpper => {
-        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
       }
       ItemPattern::ParenZenkakuRomanLower => {
-        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
       }
       ItemPattern::ParenZenkakuUpper => {
         format!("（{}）", to_zenkaku_alphabet_upper(n))
-- 
2.43.0


From e4ef1b9997dff4e87e1a578317705e3aba2573f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:59 +0000
Subject: [PATCH 30/56] fix: convert all letters of roman numerals

---
 src/article_number.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index b168538..915d86a 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -857,36 +857,51 @@ fn parse_roman(str: &str) -> Option<usize> {
   roman::from(
     &str
       .replace('i', "I")
+      .replace('v', "V")
       .replace('x', "X")
       .replace('l', "L")
       .replace('c', "C")
+      .replace('d', "D")
+      .replace('m', "M")
       .replace('ｉ', "I")
+      .replace('ｖ', "V")
       .replace('ｘ', "X")
       .replace('ｌ', "L")
       .replace('ｃ', "C")
+      .replace('ｄ', "D")
+      .replace('ｍ', "M")
       .replace('Ｉ', "I")
+      .replace('Ｖ', "V")
       .replace('Ｘ', "X")
       .replace('Ｌ', "L")
-      .replace('Ｃ', "C"),
+      .replace('Ｃ', "C")
+      .replace('Ｄ', "D")
+      .replace('Ｍ', "M"),
   )
   .map(|n| n as usize)
 }
 
 fn to_zenkaku_roman_upper(n: usize) -> Option<String> {
-  roman::to(n as i32).map(|s| {
+  i32::try_from(n).ok().and_then(roman::to).map(|s| {
     s.replace('I', "Ｉ")
+      .replace('V', "Ｖ")
       .replace('X', "Ｘ")
       .replace('L', "Ｌ")
       .replace('C', "Ｃ")
+      .replace('D', "Ｄ")
+      .replace('M', "Ｍ")
   })
 }
 
 fn to_zenkaku_roman_lower(n: usize) -> Option<String> {
-  roman::to(n as i32).map(|s| {
+  i32::try_from(n).ok().and_then(roman::to).map(|s| {
     s.replace('I', "ｉ")
+      .replace('V', "ｖ")
       .replace('X', "ｘ")
       .replace('L', "ｌ")
       .replace('C', "ｃ")
+      .replace('D', "ｄ")
+      .replace('M', "ｍ")
   })
 }
 
-- 
2.43.0


From ad932e415400cc78fc1351eebd4ba91677f6d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:40 +0000
Subject: [PATCH 31/56] fix: write numbers as letters instead of panicking

---
 src/article_number.rs | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 915d86a..8f6d14e 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -905,42 +905,38 @@ fn to_zenkaku_roman_lower(n: usize) -> Option<String> {
   })
 }
 
+/// "ａ"は1、"ｚ"は26、"ａａ"は27とする
 fn parse_zenkaku_alphabet(str: &str) -> Option<usize> {
-  let s = str
-    .chars()
-    .map(|c| {
-      let v = c as u32;
-      let n =
+  str.chars().try_fold(0_usize, |n, c| {
+    let v = c as u32;
+    let m =
     // 大文字
     if v < 0xFF41 {
       v - 0xFF20
     } else {
       v - 0xFF40
     };
-      n.to_string()
-    })
-    .collect::<String>();
-  s.parse::<usize>().ok()
+    n.checked_mul(26)?.checked_add(m as usize)
+  })
 }
 
 fn to_zenkaku_alphabet_upper(n: usize) -> String {
-  n.to_string()
-    .chars()
-    .map(|s| {
-      let ns = s.to_string().parse::<u32>().unwrap();
-      char::from_digit(ns + 0xFF20, 10).unwrap()
-    })
-    .collect::<String>()
+  to_zenkaku_alphabet(n, 0xFF20)
 }
 
 fn to_zenkaku_alphabet_lower(n: usize) -> String {
-  n.to_string()
-    .chars()
-    .map(|s| {
-      let ns = s.to_string().parse::<u32>().unwrap();
-      char::from_digit(ns + 0xFF40, 10).unwrap()
-    })
-    .collect::<String>()
+  to_zenkaku_alphabet(n, 0xFF40)
+}
+
+fn to_zenkaku_alphabet(n: usize, base: u32) -> String {
+  let mut n = n;
+  let mut chars = Vec::new();
+  while n > 0 {
+    let m = (n - 1) % 26 + 1;
+    chars.push(char::from_u32(base + m as u32).unwrap());
+    n = (n - m) / 26;
+  }
+  chars.iter().rev().collect()
 }
 
 #[test]
-- 
2.43.0


From 3e0ecc23b2981b1dd00b583d5d4d35051033ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:41 +0000
Subject: [PATCH 32/56] fix: do not panic on text that is not an item label

---
 src/article_number.rs | 56 +++++++++++++------------------------------
 1 file changed, 16 insertions(+), 40 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 8f6d14e..0a4c1e4 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -426,74 +426,50 @@ impl ItemPattern {
 
 fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   use ItemPattern::*;
-  let re_item = Regex::new(r"^(?<str>(（((?<paren_iroha_katakana>[ア-ン]+)|(?<paren_iroha_hiragana>[あ-ん]+)|(?<paren_kansuji>[一二三四五六七八九十百千]+)|(?<paren_zenkaku_num>[０-９]+)|(?<paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<paren_zenkaku_lower>[ａ-ｚ]+))）|((?<no_paren_iroha_katakana>[ア-ン]+)|(?<no_paren_iroha_hiragana>[あ-ん]+)|(?<no_paren_kansuji>[一二三四五六七八九十百千]+)|(?<no_paren_zenkaku_num>[０-９]+)|(?<no_paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<no_paren_zenkaku_lower>[ａ-ｚ]+))))").unwrap();
+  let re_item = Regex::new(r"^(?<str>(（((?<paren_iroha_katakana>[ア-ン])|(?<paren_iroha_hiragana>[あ-ん])|(?<paren_kansuji>[一二三四五六七八九十百千]+)|(?<paren_zenkaku_num>[０-９]+)|(?<paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<paren_zenkaku_lower>[ａ-ｚ]+))）|((?<no_paren_iroha_katakana>[ア-ン])|(?<no_paren_iroha_hiragana>[あ-ん])|(?<no_paren_kansuji>[一二三四五六七八九十百千]+)|(?<no_paren_zenkaku_num>[０-９]+)|(?<no_paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<no_paren_zenkaku_lower>[ａ-ｚ]+))))$").unwrap();
   let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
-      (
-        ParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
-      )
+      (ParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
     } else if let Some(s) = caps.name("paren_iroha_hiragana") {
-      (
-        ParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
-      )
+      (ParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)
     } else if let Some(s) = caps.name("paren_kansuji") {
       (ParenKansuji, parse_kansuji(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_num") {
-      (ParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (ParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
-        (
-          ParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (ParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
-        (
-          ParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (ParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
       }
     }
     // 括弧なし
     else if let Some(s) = caps.name("no_paren_iroha_katakana") {
-      (
-        NoParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
-      )
+      (NoParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_iroha_hiragana") {
-      (
-        NoParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
-      )
+      (NoParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_kansuji") {
       (NoParenKansuji, parse_kansuji(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_num") {
-      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
-        (
-          NoParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (NoParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("no_paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
-        (
-          NoParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (NoParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else {
       unreachable!()
@@ -548,7 +524,7 @@ fn check_parse_article_number() {
 }
 
 pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
-  let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
+  let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
   if let Some(caps) = re_item.captures(str.trim()) {
     println!("ok!!!");
     if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {
-- 
2.43.0


From ad4498dac14f936d9844fd8da27881130f36cf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:44 +0000
Subject: [PATCH 33/56] fix: tell letter labels from roman numeral labels

---
 src/article_number.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 0a4c1e4..35bca92 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -427,7 +427,11 @@ impl ItemPattern {
 fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   use ItemPattern::*;
   let re_item = Regex::new(r"^(?<str>(（((?<paren_iroha_katakana>[ア-ン])|(?<paren_iroha_hiragana>[あ-ん])|(?<paren_kansuji>[一二三四五六七八九十百千]+)|(?<paren_zenkaku_num>[０-９]+)|(?<paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<paren_zenkaku_lower>[ａ-ｚ]+))）|((?<no_paren_iroha_katakana>[ア-ン])|(?<no_paren_iroha_hiragana>[あ-ん])|(?<no_paren_kansuji>[一二三四五六七八九十百千]+)|(?<no_paren_zenkaku_num>[０-９]+)|(?<no_paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<no_paren_zenkaku_lower>[ａ-ｚ]+))))$").unwrap();
-  let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
+  // 一文字の場合、一桁のローマ数字の並びに現れるもの以外はアルファベットとみなす
+  let is_roman = |s: &str| {
+    parse_roman(s).is_some()
+      && (s.chars().count() > 1 || ["ｉ", "ｖ", "ｘ", "Ｉ", "Ｖ", "Ｘ"].contains(&s))
+  };
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
       (ParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
@@ -438,13 +442,13 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
     } else if let Some(s) = caps.name("paren_zenkaku_num") {
       (ParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_upper") {
-      if re_is_roman.is_match(s.as_str()) {
+      if is_roman(s.as_str()) {
         (ParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
         (ParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("paren_zenkaku_lower") {
-      if re_is_roman.is_match(s.as_str()) {
+      if is_roman(s.as_str()) {
         (ParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
         (ParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
@@ -460,13 +464,13 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
     } else if let Some(s) = caps.name("no_paren_zenkaku_num") {
       (NoParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_upper") {
-      if re_is_roman.is_match(s.as_str()) {
+      if is_roman(s.as_str()) {
         (NoParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
         (NoParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("no_paren_zenkaku_lower") {
-      if re_is_roman.is_match(s.as_str()) {
+      if is_roman(s.as_str()) {
         (NoParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
         (NoParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
-- 
2.43.0


From 58c537661f10afc649034fa58c24c2181946b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:46 +0000
Subject: [PATCH 34/56] fix: read all branch numbers and the range of item
 labels

---
 src/article_number.rs | 45 ++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 35bca92..d8f1fea 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -527,40 +527,33 @@ fn check_parse_article_number() {
   }
 }
 
+/// "の二の三"のような枝番号の並びを読む
+fn parse_item_eda_numbers(str: &str) -> Option<Vec<usize>> {
+  let re_eda = Regex::new(
+    r"の(（[^）]+）|[ア-ン]|[あ-ん]|[一二三四五六七八九十百千]+|[０-９]+|[Ａ-Ｚ]+|[ａ-ｚ]+)",
+  )
+  .unwrap();
+  re_eda
+    .captures_iter(str)
+    .map(|caps| parse_item_number_base(&caps[1]).map(|v| v.1))
+    .collect()
+}
+
 pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
   let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
   if let Some(caps) = re_item.captures(str.trim()) {
     println!("ok!!!");
     if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {
-      let eda_numbers = if let Some(m) = &caps.name("eda_numbers") {
-        m.as_str()
-          .split('の')
-          .filter(|s| !s.is_empty())
-          .map(parse_item_number_base)
-          .filter(|v| v.is_some())
-          .map(|v| v.unwrap().1)
-          .collect::<Vec<_>>()
-      } else {
-        Vec::new()
+      let eda_numbers = match caps.name("eda_numbers") {
+        Some(m) => parse_item_eda_numbers(m.as_str())?,
+        None => Vec::new(),
       };
       let mut range_end_numbers = Vec::new();
-      if let Some(m) = &caps.name("base_number_2") {
-        if let Some((_, base_number2)) = parse_item_number_base(m.as_str()) {
-          range_end_numbers.push(base_number2);
-        }
+      if let Some(m) = &caps.name("base_number2") {
+        range_end_numbers.push(parse_item_number_base(m.as_str())?.1);
       }
-      if let Some(m) = &caps.name("eda_number_2") {
-        let eda_numbers2 = &m
-          .as_str()
-          .split('の')
-          .filter(|s| !s.is_empty())
-          .map(parse_item_number_base)
-          .filter(|v| v.is_some())
-          .map(|v| v.unwrap().1)
-          .collect::<Vec<_>>();
-        for v in eda_numbers2.iter() {
-          range_end_numbers.push(*v)
-        }
+      if let Some(m) = &caps.name("eda_numbers2") {
+        range_end_numbers.extend(parse_item_eda_numbers(m.as_str())?);
       }
       Some(ItemNumber {
         str: str.to_string(),
-- 
2.43.0


From 40db4ea883631b0e1b52b9172cd99feaf802abbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:49 +0000
Subject: [PATCH 35/56] fix: do not print debug output while reading numbers
 and lines

---
 src/article_number.rs  | 2 --
 src/parse_from_text.rs | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index d8f1fea..16978d5 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -542,7 +542,6 @@ fn parse_item_eda_numbers(str: &str) -> Option<Vec<usize>> {
 pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
   let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
   if let Some(caps) = re_item.captures(str.trim()) {
-    println!("ok!!!");
     if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {
       let eda_numbers = match caps.name("eda_numbers") {
         Some(m) => parse_item_eda_numbers(m.as_str())?,
@@ -566,7 +565,6 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
       None
     }
   } else {
-    println!("err!!");
     None
   }
 }
diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index af25bc6..89377dc 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -945,7 +945,6 @@ fn parse_line_contents(line: &str) -> LineContents {
   if let Some(caps) = re_caption.captures(line) {
     Caption(caps["caption"].to_string())
   } else if let Some((s, text)) = split_number(line) {
-    println!("{s}: {text}");
     if let Some(article_number) = article_number::parse_article_number(&s) {
       if s.contains('編') {
         Part(article_number, text)
@@ -965,7 +964,6 @@ fn parse_line_contents(line: &str) -> LineContents {
     } else if let Some(item_number) = article_number::parse_item_number(&s) {
       Item(item_number, text)
     } else {
-      println!("text!!!{s}: {text}");
       Text(line.to_string())
     }
   } else if let Some(caps) = re_suppl_provision.captures(line) {
-- 
2.43.0


From bdffa614e77bf05937f1749879d07ff36b1e6538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:51 +0000
Subject: [PATCH 36/56] fix: do not split lines that have no separator

---
 src/article_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 16978d5..5b48023 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -485,7 +485,7 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
 }
 
 pub fn split_number(str: &str) -> Option<(String, String)> {
-  let re = Regex::new(r"^(?<s>[^\s　]+)[\s　]*(?<text>.+)$").unwrap();
+  let re = Regex::new(r"^(?<s>[^\s　]+)[\s　]+(?<text>.+)$").unwrap();
   re.captures(str).map(|caps| {
     let s = &caps["s"];
     let text = &caps["text"];
-- 
2.43.0


From 150a912553c86ea8ca71a56f07e9385601c5397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:24 +0000
Subject: [PATCH 37/56] fix: close several levels of subitems at once

---
 src/parse_from_text.rs | 87 +++++++++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 39 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 89377dc..fbbc7e9 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -259,7 +259,7 @@ fn parse_paragraph(
     let mut subitem1 = Vec::new();
     if let Some(LineContents::Item(item_number_sub1, _)) = lines.peek() {
       if item_number_sub1.pattern != item_number.pattern {
-        subitem1 = parse_subitem1(item_number.pattern, item_number_sub1.pattern, lines);
+        subitem1 = parse_subitem1(&[item_number.pattern], item_number_sub1.pattern, lines);
       }
     }
     let item = paragraph::Item {
@@ -296,13 +296,13 @@ fn parse_paragraph(
 }
 
 fn parse_subitem1(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem1> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -313,8 +313,9 @@ fn parse_subitem1(
       }
       let mut subitem2 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem2 = parse_subitem2(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let parent_patterns = [parent_patterns, &[now_pat]].concat();
+          subitem2 = parse_subitem2(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem1 {
@@ -340,13 +341,13 @@ fn parse_subitem1(
 }
 
 fn parse_subitem2(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem2> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -357,8 +358,9 @@ fn parse_subitem2(
       }
       let mut subitem3 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem3 = parse_subitem3(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let parent_patterns = [parent_patterns, &[now_pat]].concat();
+          subitem3 = parse_subitem3(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem2 {
@@ -384,13 +386,13 @@ fn parse_subitem2(
 }
 
 fn parse_subitem3(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem3> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -401,8 +403,9 @@ fn parse_subitem3(
       }
       let mut subitem4 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem4 = parse_subitem4(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let parent_patterns = [parent_patterns, &[now_pat]].concat();
+          subitem4 = parse_subitem4(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem3 {
@@ -428,13 +431,13 @@ fn parse_subitem3(
 }
 
 fn parse_subitem4(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem4> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -445,8 +448,9 @@ fn parse_subitem4(
       }
       let mut subitem5 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem5 = parse_subitem5(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let parent_patterns = [parent_patterns, &[now_pat]].concat();
+          subitem5 = parse_subitem5(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem4 {
@@ -472,13 +476,13 @@ fn parse_subitem4(
 }
 
 fn parse_subitem5(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem5> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -489,8 +493,9 @@ fn parse_subitem5(
       }
       let mut subitem6 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem6 = parse_subitem6(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let parent_patterns = [parent_patterns, &[now_pat]].concat();
+          subitem6 = parse_subitem6(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem5 {
@@ -516,13 +521,13 @@ fn parse_subitem5(
 }
 
 fn parse_subitem6(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem6> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -533,8 +538,9 @@ fn parse_subitem6(
       }
       let mut subitem7 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem7 = parse_subitem7(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let parent_patterns = [parent_patterns, &[now_pat]].concat();
+          subitem7 = parse_subitem7(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem6 {
@@ -560,13 +566,13 @@ fn parse_subitem6(
 }
 
 fn parse_subitem7(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem7> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -577,8 +583,9 @@ fn parse_subitem7(
       }
       let mut subitem8 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem8 = parse_subitem8(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let parent_patterns = [parent_patterns, &[now_pat]].concat();
+          subitem8 = parse_subitem8(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem7 {
@@ -604,13 +611,13 @@ fn parse_subitem7(
 }
 
 fn parse_subitem8(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem8> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -621,8 +628,9 @@ fn parse_subitem8(
       }
       let mut subitem9 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem9 = parse_subitem9(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let parent_patterns = [parent_patterns, &[now_pat]].concat();
+          subitem9 = parse_subitem9(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem8 {
@@ -648,13 +656,13 @@ fn parse_subitem8(
 }
 
 fn parse_subitem9(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem9> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -665,8 +673,9 @@ fn parse_subitem9(
       }
       let mut subitem10 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem10 = parse_subitem10(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let parent_patterns = [parent_patterns, &[now_pat]].concat();
+          subitem10 = parse_subitem10(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem9 {
@@ -692,13 +701,13 @@ fn parse_subitem9(
 }
 
 fn parse_subitem10(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem10> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
-- 
2.43.0


From 8949aa67e1de3646cfd2cf8fc82b08dfffe8219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 38/56] fix: do not panic on items nested deeper than Subitem10

---
 src/parse_from_text.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index fbbc7e9..2dc7b2c 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -675,7 +675,7 @@ fn parse_subitem9(
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
         if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
           let parent_patterns = [parent_patterns, &[now_pat]].concat();
-          subitem10 = parse_subitem10(&parent_patterns, item_number.pattern, lines);
+          subitem10 = parse_subitem10(&parent_patterns, lines);
         }
       }
       v.push(paragraph::Subitem9 {
@@ -702,14 +702,14 @@ fn parse_subitem9(
 
 fn parse_subitem10(
   parent_patterns: &[ItemPattern],
-  now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem10> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
     if parent_patterns.contains(&item_number.pattern) {
       break;
-    } else if item_number.pattern == now_pat {
+    } else {
+      // これより深い階層は無いため、同じ階層に並べる
       lines.next();
       let mut sentence_text = vec![text];
       while let Some(LineContents::Text(s)) = lines.peek() {
@@ -730,8 +730,6 @@ fn parse_subitem10(
         delete: text.trim() == "削除" || text.trim() == "（削除）",
         hide: false,
       })
-    } else {
-      unreachable!()
     }
   }
   v
-- 
2.43.0


From 7251b341b88300f001554bc4a53038c0d052de33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:28 +0000
Subject: [PATCH 39/56] fix: do not make empty sentences of blank lines

---
 src/parse_from_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 2dc7b2c..0603039 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -747,7 +747,7 @@ fn text_to_sentence(num: usize, text: &str) -> sentence::Sentence {
 
 pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   let mut lines = Vec::new();
-  for line in text.lines().map(|s| s.trim()) {
+  for line in text.lines().map(|s| s.trim()).filter(|s| !s.is_empty()) {
     let line_contents = parse_line_contents(line);
     lines.push(line_contents)
   }
-- 
2.43.0


From 56293a6a9ab3bc15e2e596cbcd2886eb368adff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:30 +0000
Subject: [PATCH 40/56] fix: recognise the headings of supplementary provisions
 in text

---
 src/parse_from_text.rs | 61 +++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 0603039..e754a3f 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -756,7 +756,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   let mut main_provision_children = Vec::new();
   let mut suppl_provision = Vec::new();
   let mut suppl_provision_children = Vec::new();
-  let mut suppl_provision_law_num_opt: Option<Option<String>> = None;
+  let mut suppl_provision_opt: Option<(Option<String>, Option<bool>)> = None;
 
   let mut caption_opt = None;
   let mut lines = lines.iter().peekable();
@@ -773,7 +773,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
       LineContents::Chapter(n, text) => {
         lines.next();
         let chap = parse_chapter(n, text, &mut lines);
-        if suppl_provision_law_num_opt.is_some() {
+        if suppl_provision_opt.is_some() {
           suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Chapter(
             chap,
           ))
@@ -798,7 +798,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
       LineContents::Article(n, text) => {
         lines.next();
         let article = parse_article(caption_opt, n, text, &mut lines);
-        if suppl_provision_law_num_opt.is_some() {
+        if suppl_provision_opt.is_some() {
           suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Article(
             article,
           ))
@@ -814,20 +814,21 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
           lines.next();
         }
       }
-      LineContents::SupplProvision(law_num) => {
-        if let Some(amend_law_num) = suppl_provision_law_num_opt {
-          if !suppl_provision_children.is_empty() {
-            suppl_provision.push(suppl_provision::SupplProvision {
-              label: text::Text::from_value("附則"),
-              children: suppl_provision_children,
-              suppl_provision_type: None,
-              amend_law_num,
-              extract: None,
-            })
-          }
+      LineContents::SupplProvision(law_num, extract) => {
+        lines.next();
+        if let Some((amend_law_num, extract)) = suppl_provision_opt {
+          suppl_provision.push(suppl_provision::SupplProvision {
+            label: text::Text::from_value("附則"),
+            children: suppl_provision_children,
+            suppl_provision_type: None,
+            amend_law_num,
+            extract,
+          })
         }
-        suppl_provision_law_num_opt = Some(law_num.clone());
+        suppl_provision_opt = Some((law_num.clone(), *extract));
         suppl_provision_children = Vec::new();
+        caption_opt = None;
+        is_preamble = false;
       }
       _ => break,
     }
@@ -870,16 +871,14 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
     extract: None,
   };
 
-  if let Some(amend_law_num) = suppl_provision_law_num_opt {
-    if !suppl_provision_children.is_empty() {
-      suppl_provision.push(suppl_provision::SupplProvision {
-        label: text::Text::from_value("附則"),
-        children: suppl_provision_children,
-        suppl_provision_type: None,
-        amend_law_num,
-        extract: None,
-      })
-    }
+  if let Some((amend_law_num, extract)) = suppl_provision_opt {
+    suppl_provision.push(suppl_provision::SupplProvision {
+      label: text::Text::from_value("附則"),
+      children: suppl_provision_children,
+      suppl_provision_type: None,
+      amend_law_num,
+      extract,
+    })
   }
 
   let law_title = law::LawTitle {
@@ -937,8 +936,8 @@ enum LineContents {
   /// - <https://elaws.e-gov.go.jp/document?lawid=403M50000400049#Mp-At_9>
   /// - <https://note.com/lawyer_alpaca/n/ne09c189e813b#Gcaq9>
   Item(article_number::ItemNumber, String),
-  /// 附則：附則（昭和三一年四月二日法律第六三号）
-  SupplProvision(Option<String>),
+  /// 附則：附則（昭和三一年四月二日法律第六三号）　抄
+  SupplProvision(Option<String>, Option<bool>),
   /// その他テキスト
   Text(String),
 }
@@ -948,9 +947,12 @@ fn parse_line_contents(line: &str) -> LineContents {
   let line = line.trim();
   let re_caption = Regex::new("^（(?<caption>[^）]+)）$").unwrap();
   let re_suppl_provision =
-    Regex::new(r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?[^（）]*$").unwrap();
+    Regex::new(r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?([　\s]*)(?<extract>抄)?$").unwrap();
   if let Some(caps) = re_caption.captures(line) {
     Caption(caps["caption"].to_string())
+  } else if let Some(caps) = re_suppl_provision.captures(line) {
+    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
+    SupplProvision(law_num, caps.name("extract").map(|_| true))
   } else if let Some((s, text)) = split_number(line) {
     if let Some(article_number) = article_number::parse_article_number(&s) {
       if s.contains('編') {
@@ -973,9 +975,6 @@ fn parse_line_contents(line: &str) -> LineContents {
     } else {
       Text(line.to_string())
     }
-  } else if let Some(caps) = re_suppl_provision.captures(line) {
-    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
-    SupplProvision(law_num)
   } else {
     Text(line.to_string())
   }
-- 
2.43.0


From 67fdffc8073422066323e5b57eac525950d89e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:32 +0000
Subject: [PATCH 41/56] fix: keep divisions that are directly under a section
 of a text

---
 src/parse_from_text.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index e754a3f..059d416 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -115,6 +115,12 @@ fn parse_section(
         children.push(article::SectionContents::Subsection(subsec));
         caption_opt = None;
       }
+      Some(LineContents::Division(n, title)) => {
+        lines.next();
+        let div = parse_division(n, title, lines);
+        children.push(article::SectionContents::Division(div));
+        caption_opt = None;
+      }
       _ => break,
     }
   }
-- 
2.43.0


From 7df4184174377ebbc11cfa31a4cf0363e404170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:35 +0000
Subject: [PATCH 42/56] fix: keep the captions of paragraphs and parenthesised
 lines that are no captions

---
 src/parse_from_text.rs | 44 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 059d416..75a2cc5 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -215,16 +215,26 @@ fn parse_article(
   text: &str,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> article::Article {
-  let caption = caption_opt.map(|s| class::Caption {
-    text: text::Text::from_value(s),
-    common_caption: None,
-  });
+  let caption = caption_opt.map(|s| text_to_caption(s));
   let para = parse_paragraph(&ArticleNumber::from_num_str("1").unwrap(), text, lines);
   let mut paragraph = vec![para];
-  while let Some(LineContents::Paragraph(n, text)) = lines.peek() {
-    lines.next();
-    let para = parse_paragraph(n, text, lines);
-    paragraph.push(para)
+  loop {
+    let mut next_lines = lines.clone();
+    let caption_opt = match next_lines.peek() {
+      Some(LineContents::Caption(cap)) => {
+        next_lines.next();
+        Some(cap)
+      }
+      _ => None,
+    };
+    if let Some(LineContents::Paragraph(n, text)) = next_lines.next() {
+      *lines = next_lines;
+      let mut para = parse_paragraph(n, text, lines);
+      para.caption = caption_opt.map(|s| text_to_caption(s));
+      paragraph.push(para)
+    } else {
+      break;
+    }
   }
   let article = article::Article {
     caption,
@@ -741,6 +751,13 @@ fn parse_subitem10(
   v
 }
 
+fn text_to_caption(text: &str) -> class::Caption {
+  class::Caption {
+    text: text::Text::from_value(text),
+    common_caption: None,
+  }
+}
+
 fn text_to_sentence(num: usize, text: &str) -> sentence::Sentence {
   sentence::Sentence {
     contents: vec![sentence::SentenceElement::String(text.to_string())],
@@ -757,6 +774,17 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
     let line_contents = parse_line_contents(line);
     lines.push(line_contents)
   }
+  // 条や項の直前に無いものは見出しではない
+  for i in 0..lines.len() {
+    if let LineContents::Caption(s) = &lines[i] {
+      if !matches!(
+        lines.get(i + 1),
+        Some(LineContents::Article(_, _) | LineContents::Paragraph(_, _))
+      ) {
+        lines[i] = LineContents::Text(format!("（{s}）"));
+      }
+    }
+  }
   let mut preamble_text_list: Vec<String> = Vec::new();
   let mut is_preamble = true;
   let mut main_provision_children = Vec::new();
-- 
2.43.0


From 73f534888cb05bdce4e1a78727d29d32a97f4e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:37 +0000
Subject: [PATCH 43/56] fix: keep paragraphs outside articles and refuse lines
 that have no place instead of dropping them or looping

---
 src/parse_from_text.rs | 58 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 5 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 75a2cc5..51caf0d 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -751,6 +751,11 @@ fn parse_subitem10(
   v
 }
 
+/// 法令の構造のどこにも置けない行があったときのエラー
+fn misplaced_line(text: &str) -> Error {
+  Error::ParsingError("LawBody".to_string(), text.to_string())
+}
+
 fn text_to_caption(text: &str) -> class::Caption {
   class::Caption {
     text: text::Text::from_value(text),
@@ -797,6 +802,9 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
 
   while let Some(line_contents) = lines.peek() {
     match line_contents {
+      LineContents::Part(_, s) | LineContents::Section(_, s) if suppl_provision_opt.is_some() => {
+        return Err(misplaced_line(s))
+      }
       LineContents::Part(n, text) => {
         lines.next();
         let part = parse_part(n, text, &mut lines);
@@ -842,11 +850,48 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         caption_opt = None;
         is_preamble = false;
       }
-      LineContents::Text(s) => {
-        if is_preamble {
-          preamble_text_list.push(s.to_string());
-          lines.next();
+      LineContents::Paragraph(n, text) => {
+        lines.next();
+        let mut para = parse_paragraph(n, text, &mut lines);
+        para.caption = caption_opt.map(|s| text_to_caption(s));
+        if suppl_provision_opt.is_some() {
+          if let Some(suppl_provision::SupplProvisionChildrenElement::Chapter(_)) =
+            suppl_provision_children.last()
+          {
+            return Err(misplaced_line(text));
+          }
+          suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Paragraph(
+            para,
+          ))
+        } else {
+          if !matches!(
+            main_provision_children.last(),
+            None | Some(law::MainProvisionContents::Paragraph(_))
+          ) {
+            return Err(misplaced_line(text));
+          }
+          main_provision_children.push(law::MainProvisionContents::Paragraph(para));
         }
+        caption_opt = None;
+        is_preamble = false;
+      }
+      LineContents::Text(s) if is_preamble => {
+        preamble_text_list.push(s.to_string());
+        lines.next();
+      }
+      LineContents::Item(n, s) if is_preamble => {
+        preamble_text_list.push(format!("{}　{s}", n.str));
+        lines.next();
+      }
+      LineContents::Text(s)
+        if suppl_provision_opt.is_some() && suppl_provision_children.is_empty() =>
+      {
+        lines.next();
+        let n = ArticleNumber::from_num_str("1").unwrap();
+        let para = parse_paragraph(&n, s, &mut lines);
+        suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Paragraph(
+          para,
+        ));
       }
       LineContents::SupplProvision(law_num, extract) => {
         lines.next();
@@ -864,7 +909,10 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         caption_opt = None;
         is_preamble = false;
       }
-      _ => break,
+      LineContents::Subsection(_, s)
+      | LineContents::Division(_, s)
+      | LineContents::Item(_, s)
+      | LineContents::Text(s) => return Err(misplaced_line(s)),
     }
   }
 
-- 
2.43.0


From 1d3c61d3079e80910d222247d315517f0bdfb50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:40 +0000
Subject: [PATCH 44/56] fix: refuse dates that do not exist or lie before Meiji
 instead of panicking

---
 src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9b113a0..4ebbee2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -100,13 +100,14 @@ pub fn parse_text(
   law_num: String,
   title: &str,
 ) -> Result<law::Law> {
+  let date_error = || Error::ParsingError("Date".to_string(), format!("{year} {month:?} {day:?}"));
   let date = Date::from_ymd(
-    year as i32,
-    month.unwrap_or(1) as u32,
-    day.unwrap_or(1) as u32,
+    i32::try_from(year).map_err(|_| date_error())?,
+    u32::try_from(month.unwrap_or(1)).map_err(|_| date_error())?,
+    u32::try_from(day.unwrap_or(1)).map_err(|_| date_error())?,
   )
-  .unwrap();
-  let e = era(&date).unwrap();
+  .map_err(|_| date_error())?;
+  let e = era(&date).ok_or_else(date_error)?;
   let era = match e.name().as_str() {
     "明治" => law::Era::Meiji,
     "大正" => law::Era::Taisho,
-- 
2.43.0


From 86dece7f77580c431aadfb01f3fa3d9c1732b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:42 +0000
Subject: [PATCH 45/56] fix: record the year of the era of laws read from text

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4ebbee2..59ea4e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -119,7 +119,7 @@ pub fn parse_text(
   let body = parse_from_text::parse_body(title, text)?;
   Ok(law::Law {
     era,
-    year,
+    year: e.year() as usize,
     num,
     promulgate_month: month,
     promulgate_day: day,
-- 
2.43.0


From 61d5d62bd2f0699b62b709533d8c89e8553b8bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:22 +0000
Subject: [PATCH 46/56] fix: read a law from text into the same empty titles as
 from XML

---
 src/text.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index a2e5be4..4f25f88 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -83,8 +83,13 @@ impl Text {
 
   /// 値から
   pub fn from_value<T: ToString>(t: T) -> Self {
+    let s = t.to_string();
+    if s.is_empty() {
+      // 空の文字列は要素を持たない（XMLから読み込んだ場合と同じ）
+      return Text::new();
+    }
     Text {
-      contents: vec![TextElement::Text(t.to_string())],
+      contents: vec![TextElement::Text(s)],
     }
   }
 
-- 
2.43.0


From b06ab79d4212316a424f23f46ba24cbe1ad0bd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:31 +0000
Subject: [PATCH 47/56] fix: list articles with the numbers of the containers
 they are in

---
 src/utils.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6b1029d..6582825 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -211,7 +211,7 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_part(Some(t.num.clone()));
+            w.set_part(Some(part.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -219,7 +219,7 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
       }
       PartContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_part(Some(t.num.clone()));
+        w.set_part(Some(part.num.clone()));
         v.push(w)
       }
     }
@@ -227,16 +227,16 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
   v
 }
 
-fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
+fn article_list_from_chapter(chapter: &Chapter) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in chapter.children.iter() {
     match contents {
       ChapterContents::Section(t) => {
         let mut v2 = article_list_from_section(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_chapter(Some(t.num.clone()));
+            w.set_chapter(Some(chapter.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -244,7 +244,7 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
       }
       ChapterContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_chapter(Some(t.num.clone()));
+        w.set_chapter(Some(chapter.num.clone()));
         v.push(w)
       }
     }
@@ -252,16 +252,16 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
   v
 }
 
-fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
+fn article_list_from_section(section: &Section) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in section.children.iter() {
     match contents {
       SectionContents::Subsection(t) => {
         let mut v2 = article_list_from_subsection(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_section(Some(t.num.clone()));
+            w.set_section(Some(section.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -272,7 +272,7 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_section(Some(t.num.clone()));
+            w.set_section(Some(section.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -280,7 +280,7 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
       }
       SectionContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_section(Some(t.num.clone()));
+        w.set_section(Some(section.num.clone()));
         v.push(w)
       }
     }
@@ -289,16 +289,16 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
 }
 
 #[allow(clippy::too_many_arguments)]
-fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
+fn article_list_from_subsection(subsection: &Subsection) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in subsection.children.iter() {
     match contents {
       SubsectionContents::Division(t) => {
         let mut v2 = article_list_from_division(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_subsection(Some(t.num.clone()));
+            w.set_subsection(Some(subsection.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -306,7 +306,7 @@ fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
       }
       SubsectionContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_subsection(Some(t.num.clone()));
+        w.set_subsection(Some(subsection.num.clone()));
         v.push(w)
       }
     }
-- 
2.43.0


From dfeea02d3fc73f8056059d56d29905fd8c8b95d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:21 +0000
Subject: [PATCH 48/56] fix: set the article number and not the division number
 of a contents entry

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6582825..19f4296 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -940,7 +940,7 @@ impl Toc {
     self.division_number = num;
   }
   pub fn set_article(&mut self, num: Option<ArticleNumber>) {
-    self.division_number = num;
+    self.article_number = num;
   }
   pub fn set_title(&mut self, title: Option<String>) {
     self.title = title;
-- 
2.43.0


From 6add131fc6b66e94c62b52d02f335bfdab422d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:23 +0000
Subject: [PATCH 49/56] fix: do not carry numbers of earlier siblings into
 contents entries

---
 src/utils.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 19f4296..148ff0e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1029,12 +1029,13 @@ fn toc_list_from_part(t: &Part) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       PartContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       PartContents::Chapter(t) => {
-        let mut toc_list = toc_list_from_chapter(t, &mut toc);
+        let mut toc_list = toc_list_from_chapter(t, &mut toc.clone());
         v.append(&mut toc_list);
       }
     }
@@ -1051,9 +1052,10 @@ fn toc_list_from_chapter(t: &Chapter, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       ChapterContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       ChapterContents::Section(t) => {
         let mut toc_list = toc_list_from_section(t, &mut toc.clone());
@@ -1073,9 +1075,10 @@ fn toc_list_from_section(t: &Section, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       SectionContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       SectionContents::Subsection(t) => {
         let mut toc_list = toc_list_from_subsection(t, &mut toc.clone());
@@ -1099,9 +1102,10 @@ fn toc_list_from_subsection(t: &Subsection, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       SubsectionContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       SubsectionContents::Division(t) => {
         let mut toc_list = toc_list_from_division(t, &mut toc.clone());
@@ -1119,9 +1123,10 @@ fn toc_list_from_division(t: &Division, toc: &mut Toc) -> Vec<Toc> {
   toc.set_title(Some(t.division_title.to_string()));
   v.push(toc.clone());
   for t in t.children.iter() {
+    let mut toc = toc.clone();
     toc.set_article(Some(t.num.clone()));
     toc.set_title(Some(t.title.to_string()));
-    v.push(toc.clone());
+    v.push(toc);
   }
   v
 }
-- 
2.43.0


From 9b7e3f670ea1dcb3d2cf196d181a4a49a015ad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:25 +0000
Subject: [PATCH 50/56] fix: extract the text of tables in Subitem6

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 148ff0e..4d3708b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -629,7 +629,7 @@ fn text_list_from_subitem6(
         })
         .collect::<Vec<_>>()
         .join(" "),
-      SentenceOrColumnOrTable::Table(_) => String::new(),
+      SentenceOrColumnOrTable::Table(table) => table_to_str(table),
     };
     v.push((
       TextIndex {
-- 
2.43.0


From c3d5452b919d46cacc7289396d6a925c85c777e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:27 +0000
Subject: [PATCH 51/56] fix: separate the columns and rows of table headers

---
 src/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 4d3708b..704ea76 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -807,10 +807,11 @@ pub fn table_to_str(table: &Table) -> String {
         .columns
         .iter()
         .map(|text| text.to_string())
-        .collect::<String>()
+        .collect::<Vec<_>>()
+        .join(" ")
     })
     .collect::<Vec<_>>()
-    .join(" ");
+    .join("\n");
   let row = table
     .table_row
     .iter()
-- 
2.43.0


From d183452d260cec6a4d81191a328f90023ee8ab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:30 +0000
Subject: [PATCH 52/56] fix: refuse repeated elements that may occur only once
 instead of dropping all but the last

---
 src/lib.rs | 79 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 59ea4e6..9fbf583 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,6 +55,7 @@ use xmltree::{Element, XMLNode};
 pub fn parse_xml(xml: &[u8]) -> Result<law::Law> {
   let mut element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
   remove_misc(&mut element);
+  check_single_children(&element)?;
   let law = law::Law::parser(&element)?;
   Ok(law)
 }
@@ -78,6 +79,84 @@ fn remove_misc(element: &mut Element) {
   element.children = children;
 }
 
+/// 要素の中に高々一つしか現れない子要素の名前
+fn single_children(tag: &str) -> &'static [&'static str] {
+  match tag {
+    "Law" => &["LawNum", "LawBody"],
+    "LawBody" => &["LawTitle", "TOC", "Preamble", "MainProvision"],
+    "TOC" => &["TOCLabel", "TOCPreambleLabel", "TOCSupplProvision"],
+    "TOCPart" => &["PartTitle", "ArticleRange"],
+    "TOCChapter" => &["ChapterTitle", "ArticleRange"],
+    "TOCSection" => &["SectionTitle", "ArticleRange"],
+    "TOCSubsection" => &["SubsectionTitle", "ArticleRange"],
+    "TOCDivision" => &["DivisionTitle", "ArticleRange"],
+    "TOCArticle" => &["ArticleTitle", "ArticleCaption"],
+    "TOCSupplProvision" => &["SupplProvisionLabel", "ArticleRange"],
+    "Part" => &["PartTitle"],
+    "Chapter" => &["ChapterTitle"],
+    "Section" => &["SectionTitle"],
+    "Subsection" => &["SubsectionTitle"],
+    "Division" => &["DivisionTitle"],
+    "Article" => &["ArticleCaption", "ArticleTitle", "SupplNote"],
+    "Paragraph" => &["ParagraphCaption", "ParagraphNum", "ParagraphSentence"],
+    "Class" => &["ClassTitle", "ClassSentence"],
+    "Item" => &["ItemTitle", "ItemSentence"],
+    "Subitem1" => &["Subitem1Title", "Subitem1Sentence"],
+    "Subitem2" => &["Subitem2Title", "Subitem2Sentence"],
+    "Subitem3" => &["Subitem3Title", "Subitem3Sentence"],
+    "Subitem4" => &["Subitem4Title", "Subitem4Sentence"],
+    "Subitem5" => &["Subitem5Title", "Subitem5Sentence"],
+    "Subitem6" => &["Subitem6Title", "Subitem6Sentence"],
+    "Subitem7" => &["Subitem7Title", "Subitem7Sentence"],
+    "Subitem8" => &["Subitem8Title", "Subitem8Sentence"],
+    "Subitem9" => &["Subitem9Title", "Subitem9Sentence"],
+    "Subitem10" => &["Subitem10Title", "Subitem10Sentence"],
+    "List" => &["ListSentence"],
+    "Sublist1" => &["Sublist1Sentence"],
+    "Sublist2" => &["Sublist2Sentence"],
+    "Sublist3" => &["Sublist3Sentence"],
+    "AmendProvision" => &["AmendProvisionSentence"],
+    "SupplProvision" => &["SupplProvisionLabel"],
+    "SupplProvisionAppdxTable" => &["SupplProvisionAppdxTableTitle", "RelatedArticleNum"],
+    "SupplProvisionAppdxStyle" => &["SupplProvisionAppdxStyleTitle", "RelatedArticleNum"],
+    "SupplProvisionAppdx" => &["ArithFormulaNum", "RelatedArticleNum"],
+    "AppdxTable" => &["AppdxTableTitle", "RelatedArticleNum", "Remarks"],
+    "AppdxNote" => &["AppdxNoteTitle", "RelatedArticleNum", "Remarks"],
+    "AppdxStyle" => &["AppdxStyleTitle", "RelatedArticleNum", "Remarks"],
+    "AppdxFormat" => &["AppdxFormatTitle", "RelatedArticleNum", "Remarks"],
+    "Appdx" => &["ArithFormulaNum", "RelatedArticleNum", "Remarks"],
+    "AppdxFig" => &["AppdxFigTitle", "RelatedArticleNum"],
+    "TableStruct" => &["TableStructTitle", "Table"],
+    "FigStruct" => &["FigStructTitle", "Fig"],
+    "NoteStruct" => &["NoteStructTitle", "Note"],
+    "StyleStruct" => &["StyleStructTitle", "Style"],
+    "FormatStruct" => &["FormatStructTitle", "Format"],
+    "Remarks" => &["RemarksLabel"],
+    "Ruby" => &["Rt"],
+    _ => &[],
+  }
+}
+
+/// 高々一つしか現れない要素が繰り返されていればエラーにする
+fn check_single_children(element: &Element) -> Result<()> {
+  for name in single_children(&element.name) {
+    let mut same = element
+      .children
+      .iter()
+      .filter_map(|n| n.as_element())
+      .filter(|e| e.name == *name);
+    if same.nth(1).is_some() {
+      return Err(Error::unexpected_tag(element, name));
+    }
+  }
+  for node in element.children.iter() {
+    if let XMLNode::Element(e) = node {
+      check_single_children(e)?;
+    }
+  }
+  Ok(())
+}
+
 /// ファイルのパスから法律の構造体に変換する
 pub fn parse_xml_file(path: &str) -> Result<law::Law> {
   let mut file = std::fs::File::open(path).map_err(|_| result::Error::Io)?;
-- 
2.43.0


From 482a2ccc0efb4427c6a7458cec65abb32f55e893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:26 +0000
Subject: [PATCH 53/56] fix: refuse mixtures of sentences, columns and tables
 instead of keeping only one kind

---
 src/class.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/class.rs b/src/class.rs
index 9a76d8d..70c8f5a 100644
--- a/src/class.rs
+++ b/src/class.rs
@@ -128,6 +128,9 @@ impl SentenceOrColumnOrTable {
             column_list.push(v);
           }
           "Table" => {
+            if sentence_opt.is_some() {
+              return Err(Error::unexpected_tag(element, "Table"));
+            }
             let v = Table::parser(e)?;
             sentence_opt = Some(SentenceOrColumnOrTable::Table(v));
           }
@@ -135,6 +138,13 @@ impl SentenceOrColumnOrTable {
         }
       }
     }
+    // 文・欄・表は混在できない
+    if !column_list.is_empty() && (sentence_opt.is_some() || !sentence_list.is_empty()) {
+      return Err(Error::unexpected_tag(element, "Column"));
+    }
+    if !sentence_list.is_empty() && sentence_opt.is_some() {
+      return Err(Error::unexpected_tag(element, "Sentence"));
+    }
     if !sentence_list.is_empty() {
       sentence_opt = Some(SentenceOrColumnOrTable::Sentence(sentence_list.clone()));
     }
-- 
2.43.0


From 18a0170d126272fc3b5724c59e3e4342375d64f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:40 +0000
Subject: [PATCH 54/56] fix: keep text that consists of white space when
 writing XML

---
 src/lib.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9fbf583..2687922 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -238,12 +238,27 @@ fn gen_config() -> xmltree::EmitterConfig {
   xmltree::EmitterConfig::new().perform_indent(true)
 }
 
+/// 空白だけの文字列はXMLとして読み込むときに無視されるため、CDATAセクションとして書き出す
+fn protect_blank_text(mut element: Element) -> Element {
+  for node in element.children.iter_mut() {
+    match node {
+      XMLNode::Element(e) => *e = protect_blank_text(std::mem::replace(e, Element::new(""))),
+      XMLNode::Text(s)
+        if !s.is_empty() && s.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r')) =>
+      {
+        *node = XMLNode::CData(std::mem::take(s))
+      }
+      _ => (),
+    }
+  }
+  element
+}
+
 /// XML文字列に変換する
 pub fn to_xml(law: &law::Law) -> result::Result<String> {
   let mut s = WritableString::new();
   let config = gen_config();
-  law
-    .to_xml_element()
+  protect_blank_text(law.to_xml_element())
     .write_with_config(&mut s, config)
     .map_err(|_| result::Error::Io)?;
   Ok(s.string())
@@ -252,8 +267,7 @@ pub fn to_xml(law: &law::Law) -> result::Result<String> {
 /// XML文字列をファイルに書き出す
 pub fn write_file<W: Write>(law: &law::Law, w: &mut W) -> result::Result<()> {
   let config = gen_config();
-  law
-    .to_xml_element()
+  protect_blank_text(law.to_xml_element())
     .write_with_config(w, config)
     .map_err(|_| result::Error::Io)
 }
-- 
2.43.0


From ea0e37379988c009430a828ef0286fed711c1527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:16 +0000
Subject: [PATCH 55/56] fix: name the element that stands in place of the
 sentence of a list in the error

---
 src/list.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index 10a948a..4af7328 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -22,6 +22,14 @@ impl List {
   }
 }
 
+/// 先頭の要素が期待した要素ではないときのエラー
+fn wrong_first_child(node: Option<&XMLNode>, expected: &str) -> Error {
+  match node.and_then(|n| n.as_element()) {
+    Some(e) => Error::wrong_tag_name(e, expected),
+    None => Error::missing_required_tag(expected),
+  }
+}
+
 impl Parser for List {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "List" {
@@ -53,7 +61,7 @@ impl Parser for List {
           }
         }
       } else {
-        return Err(Error::wrong_tag_name(element, "LiseSentence"));
+        return Err(wrong_first_child(list_sentence, "ListSentence"));
       }
       let mut sublist = Vec::new();
       for node in children {
@@ -136,7 +144,7 @@ impl Parser for Sublist1 {
           }
         }
       } else {
-        return Err(Error::wrong_tag_name(element, "Sublist1Sentence"));
+        return Err(wrong_first_child(list_sentence, "Sublist1Sentence"));
       }
       let mut sublist = Vec::new();
       for node in children {
@@ -213,7 +221,7 @@ impl Parser for Sublist2 {
           }
         }
       } else {
-        return Err(Error::wrong_tag_name(element, "Sublist2Sentence"));
+        return Err(wrong_first_child(list_sentence, "Sublist2Sentence"));
       }
       let mut sublist = Vec::new();
       for node in children {
@@ -289,7 +297,7 @@ impl Parser for Sublist3 {
           }
         }
       } else {
-        return Err(Error::wrong_tag_name(element, "Sublist3Sentence"));
+        return Err(wrong_first_child(list_sentence, "Sublist3Sentence"));
       }
       for node in children {
         if let XMLNode::Element(e) = node {
-- 
2.43.0


From c1c9373a44876e4eb1b6d32aa3872bb0d804e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:16 +0000
Subject: [PATCH 56/56] fix: spell SupplProvision in errors as in the documents

---
 src/suppl_provision.rs   | 14 +++++++-------
 src/table_of_contents.rs |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 67c3f7f..b03b3d0 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -31,7 +31,7 @@ impl Parser for SupplProvision {
         None => None,
         _ => {
           return Err(Error::AttributeParseError {
-            tag_name: "SupplProbision".to_string(),
+            tag_name: "SupplProvision".to_string(),
             attribute_name: "Type".to_string(),
           })
         }
@@ -82,7 +82,7 @@ impl Parser for SupplProvision {
         extract,
       })
     } else {
-      Err(Error::wrong_tag_name(element, "SupplProbision"))
+      Err(Error::wrong_tag_name(element, "SupplProvision"))
     }
   }
 }
@@ -195,11 +195,11 @@ impl Parser for SupplProvisionAppdxTable {
         })
       } else {
         Err(Error::MissingRequiredTag {
-          tag_name: "SupplProbisionAddxTableTitle".to_string(),
+          tag_name: "SupplProvisionAppdxTableTitle".to_string(),
         })
       }
     } else {
-      Err(Error::wrong_tag_name(element, "SupplProbisionAppdxTable"))
+      Err(Error::wrong_tag_name(element, "SupplProvisionAppdxTable"))
     }
   }
 }
@@ -269,11 +269,11 @@ impl Parser for SupplProvisionAppdxStyle {
         })
       } else {
         Err(Error::MissingRequiredTag {
-          tag_name: "SupplProbivionAppdxStyle".to_string(),
+          tag_name: "SupplProvisionAppdxStyle".to_string(),
         })
       }
     } else {
-      Err(Error::wrong_tag_name(element, "SupplProbisionAppdxStyle"))
+      Err(Error::wrong_tag_name(element, "SupplProvisionAppdxStyle"))
     }
   }
 }
@@ -340,7 +340,7 @@ impl Parser for SupplProvisionAppdx {
         num,
       })
     } else {
-      Err(Error::wrong_tag_name(element, "SupplProbisionAppdx"))
+      Err(Error::wrong_tag_name(element, "SupplProvisionAppdx"))
     }
   }
 }
diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index ff10f72..c7bcda5 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -632,7 +632,7 @@ impl Parser for TOCSupplProvision {
         children,
       })
     } else {
-      Err(Error::wrong_tag_name(element, "TOCSupplProbision"))
+      Err(Error::wrong_tag_name(element, "TOCSupplProvision"))
     }
   }
 }
-- 
2.43.0

