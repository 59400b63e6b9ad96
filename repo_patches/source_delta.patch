From b3019273ac82da85d2a5fc2a85c5d042616c736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 01/68] fix: parse processor begindatetime/enddatetime with the
 format they are serialised in

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ee16ac6..2c57d92 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -487,13 +487,13 @@ impl Processor {
                     b"host" => { processor.host = value; },
                     b"user" => { processor.user = value; },
                     b"begindatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.begindatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
                         };
                     },
                     b"enddatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.enddatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
                         };
-- 
2.43.0


From 5779f6913c348bc19f07db092cd9f99cc3225080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 02/68] fix: parse declarations that are written as empty
 elements (no annotators)

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 2c57d92..dfebd6d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -131,6 +131,11 @@ impl Document {
                                 }
                             }
                         },
+                        (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
+                            //declaration without annotators
+                            let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
+                            doc.add_declaration(declaration).map_err(FoliaError::add_parseerror("Error adding declaration"))?;
+                        },
                         _ => {
                         }
                     }
-- 
2.43.0


From 16c20fbc3a6e955e102c9cef5963950a4aa853b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:44 +0000
Subject: [PATCH 03/68] fix: parse documents with an empty body, as serialised
 for new documents

---
 src/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index dfebd6d..7a13b37 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -296,10 +296,15 @@ impl Document {
         };
 
         //find body
+        let mut emptybody = false;
         loop {
             let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
+            if let (_, Event::Empty(_)) = e {
+                //the body has no content (<text/>), there will be no end tag
+                emptybody = true;
+            }
             match e {
-                (ref ns, Event::Start(ref e)) => {
+                (ref ns, Event::Start(ref e)) | (ref ns, Event::Empty(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"text") if ns == NSFOLIA => {
                             if let Ok((attribs,_))  =  ElementData::parse_attributes(&reader, e.attributes(), ElementType::Text) {
@@ -335,7 +340,9 @@ impl Document {
         if let Some(body) = body {
             doc.add(body,None).map_err(FoliaError::add_parseerror("Error adding body"))?;
             doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
-            doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
+            if !emptybody {
+                doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
+            }
             Ok(doc)
         } else {
             Err(FoliaError::ParseError("No body found".to_string()))
-- 
2.43.0


From bab6e338a61c18f81e743d2b540db9d3ef749dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 04/68] fix: reject truncated documents instead of loading the
 part that was read

---
 src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7a13b37..a4db2c2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -343,6 +343,16 @@ impl Document {
             if !emptybody {
                 doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
             }
+            //the document must be complete
+            loop {
+                match reader.read_namespaced_event(&mut buf, &mut nsbuf)? {
+                    (Some(ns), Event::End(ref e)) if ns == NSFOLIA && e.local_name() == b"FoLiA" => break,
+                    (_, Event::Eof) => {
+                        return Err(FoliaError::ParseError("Premature end of document".to_string()));
+                    },
+                    (_,_) => {}
+                }
+            }
             Ok(doc)
         } else {
             Err(FoliaError::ParseError("No body found".to_string()))
@@ -451,7 +461,7 @@ impl Document {
                         }
                     },
                     (_, Event::Eof) => {
-                        break;
+                        return Err(FoliaError::ParseError("Premature end of document".to_string()));
                     }
                     (_,_) => {}
                 }
-- 
2.43.0


From e7631b7d12a50a3fc9143363e86913d094188626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 05/68] fix: keep submetadata when parsing and serialising

---
 src/parser.rs     | 63 ++++++++++++++++++++++++++++++-----------------
 src/serialiser.rs |  6 ++++-
 2 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a4db2c2..a58c43d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -86,7 +86,6 @@ impl Document {
         let mut parsedeclarations = false;
         let mut parseprovenance = false;
         let mut submetadata: Option<String> = None;
-        let mut submetadata_type: Option<String> = None;
         let mut text: Option<String> = None;
         let mut meta_id: Option<String> = None;
         let mut declaration_key: Option<DecKey> = None;
@@ -131,6 +130,11 @@ impl Document {
                                 }
                             }
                         },
+                        (Some(ns), b"submetadata") if ns == NSFOLIA => {
+                            //submetadata without key/value pairs (e.g. external metadata)
+                            let (submetadata_id, data) = Metadata::parse_submetadata(&reader, &e)?;
+                            doc.submetadata.insert(submetadata_id, data);
+                        },
                         (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
                             //declaration without annotators
                             let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
@@ -167,25 +171,9 @@ impl Document {
                             parseprovenance = true;
                         },
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
-                            for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping submetadata attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"xml:id" => {
-                                            submetadata = Some(value.clone());
-                                        },
-                                        b"type" => {
-                                            submetadata_type = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
-                                    }
-                                }
-                            }
-                            if submetadata.is_none() {
-                                return Err(FoliaError::ParseError("Submetadata has no ID".to_string()));
-                            }
+                            let (submetadata_id, data) = Metadata::parse_submetadata(&reader, &e)?;
+                            doc.submetadata.insert(submetadata_id.clone(), data);
+                            submetadata = Some(submetadata_id);
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
@@ -269,9 +257,6 @@ impl Document {
                                 if let Some(submetadata_id) = &submetadata {
                                     let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
                                     if let Some(submetadata) = submetadata_opt {
-                                        if submetadata.metadatatype.is_none() && submetadata_type.is_some() {
-                                            submetadata.metadatatype = submetadata_type.clone();
-                                        }
                                         submetadata.data.insert(meta_id.clone(), text.clone());
                                     }
                                 } else {
@@ -542,6 +527,38 @@ impl Processor {
     }
 }
 
+impl Metadata {
+    ///Parse the attributes of a submetadata block, returns its ID along with the metadata (still
+    ///without any key/value pairs)
+    pub(crate) fn parse_submetadata<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(String, Metadata), FoliaError> {
+        let mut id: Option<String> = None;
+        let mut metadata = Metadata::default();
+        for attrib in event.attributes() {
+            let attrib = attrib.expect("unwrapping submetadata attribute");
+            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+                match attrib.key {
+                    b"xml:id" => {
+                        id = Some(value);
+                    },
+                    b"type" => {
+                        metadata.metadatatype = Some(value);
+                    },
+                    b"src" => {
+                        metadata.src = Some(value);
+                    },
+                    otherwise => {
+                        eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                    }
+                }
+            }
+        }
+        match id {
+            Some(id) => Ok((id, metadata)),
+            None => Err(FoliaError::ParseError("Submetadata has no ID".to_string()))
+        }
+    }
+}
+
 impl ElementData {
     fn parse_attributes<R: BufRead>(reader: &Reader<R>, attribiter: quick_xml::events::attributes::Attributes, elementtype: ElementType) -> Result<(Vec<Attribute>,Vec<ElementData>), FoliaError> {
         let mut attributes: Vec<Attribute> = Vec::new();
diff --git a/src/serialiser.rs b/src/serialiser.rs
index 128c497..684eccf 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -81,9 +81,11 @@ impl Document {
             if let Some(metadatatype) = &submetadata.metadatatype {
                 submetadata_start.push_attribute(("type", metadatatype.as_str() ));
             }
-            if let Some(src) = &self.metadata.src {
+            if let Some(src) = &submetadata.src {
                 submetadata_start.push_attribute(("src", src.as_str() ));
             }
+            writer.write_event(Event::Start(submetadata_start)).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             for (meta_id, value) in submetadata.data.iter() {
                 let mut meta_start = BytesStart::borrowed_name(b"meta");
                 meta_start.push_attribute(("id", meta_id.as_str() ));
@@ -92,6 +94,8 @@ impl Document {
                 writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
                 writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             }
+            writer.write_event(Event::End(BytesEnd::borrowed(b"submetadata"))).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         }
         writer.write_event(Event::End(BytesEnd::borrowed(b"metadata"))).map_err(to_serialisation_error)?;
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
-- 
2.43.0


From 54a8301ac01800ad8047548b4b23de041712db38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 06/68] fix: keep empty, CDATA and interrupted metadata values
 when parsing

---
 src/parser.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a58c43d..ea3e57d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -176,6 +176,7 @@ impl Document {
                             submetadata = Some(submetadata_id);
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
+                            meta_id = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib.expect("unwrapping meta attribute");
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
@@ -189,7 +190,7 @@ impl Document {
                                     }
                                 }
                             }
-                            text = None;
+                            text = Some(String::new());
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             let processor = Processor::parse(&reader, &e).map_err(FoliaError::add_parseerror("Error parsing processor"))?;
@@ -223,7 +224,15 @@ impl Document {
                 },
                 (None, Event::Text(s)) => {
                     let text_s = s.unescape_and_decode(reader)?;
-                    text = Some(text_s);
+                    if let Some(text) = text.as_mut() {
+                        text.push_str(&text_s);
+                    }
+                },
+                (None, Event::CData(s)) => {
+                    let text_s = reader.decode(&s)?;
+                    if let Some(text) = text.as_mut() {
+                        text.push_str(&text_s);
+                    }
                 },
                 (ref ns, Event::End(ref e)) => {
                     match (*ns, e.local_name())  {
@@ -253,7 +262,7 @@ impl Document {
                             processor_stack.pop();
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
-                            if let (Some(text), Some(meta_id)) = (&text, &meta_id) {
+                            if let (Some(text), Some(meta_id)) = (text.take(), &meta_id) {
                                 if let Some(submetadata_id) = &submetadata {
                                     let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
                                     if let Some(submetadata) = submetadata_opt {
-- 
2.43.0


From 0becadfb24ab584317783038483f7c91f5196d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 07/68] fix: accept annotators written with a separate end tag

---
 src/parser.rs | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ea3e57d..9828f0c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -107,20 +107,7 @@ impl Document {
                             }
                         },
                         (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
-                            let mut processor_id: Option<String> = None;
-                            for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping annotator attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"processor" => {
-                                            processor_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
-                                    }
-                                }
-                            }
+                            let processor_id = Declaration::parse_annotator(&reader, &e)?;
                             if let Some(processor_id) = processor_id {
                                 if let Some(declaration_key) = declaration_key {
                                     //add to a temporary structure because we don't know about the
@@ -203,6 +190,13 @@ impl Document {
                                 processor_stack.push(processor_key);
                             }
                         },
+                        (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
+                            //(equivalent to the empty tag above)
+                            let processor_id = Declaration::parse_annotator(&reader, &e)?;
+                            if let (Some(processor_id), Some(declaration_key)) = (processor_id, declaration_key) {
+                                annotators.push((declaration_key, processor_id));
+                            }
+                        },
                         (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
                             let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
                             let result = doc.add_declaration(declaration).map_err(FoliaError::add_parseerror("Error adding declaration"))?;
@@ -620,6 +614,25 @@ impl ElementData {
 }
 
 impl Declaration {
+    ///Parse an annotator under a declaration, returns the processor ID it refers to (if any)
+    pub(crate) fn parse_annotator<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Option<String>, FoliaError> {
+        let mut processor_id: Option<String> = None;
+        for attrib in event.attributes() {
+            let attrib = attrib.expect("unwrapping annotator attribute");
+            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+                match attrib.key {
+                    b"processor" => {
+                        processor_id = Some(value);
+                    },
+                    otherwise => {
+                        eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
+                    }
+                }
+            }
+        }
+        Ok(processor_id)
+    }
+
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart, tag: &[u8]) -> Result<Declaration, FoliaError> {
         let declaration_type = get_declaration_type(str::from_utf8(tag).expect("utf-8 decoding"))?;
         let mut set: Option<String> = None;
-- 
2.43.0


From ec2b3e591e34d86edd06fd820dc6c91278c76e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:55 +0000
Subject: [PATCH 08/68] fix: keep the metadata of processors with the processor

---
 src/parser.rs     | 7 ++++++-
 src/serialiser.rs | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9828f0c..ad2b9a8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -257,7 +257,12 @@ impl Document {
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             if let (Some(text), Some(meta_id)) = (text.take(), &meta_id) {
-                                if let Some(submetadata_id) = &submetadata {
+                                if let Some(processor_key) = processor_stack.last() {
+                                    //metadata on a processor
+                                    if let Some(processor) = doc.get_mut_processor(*processor_key) {
+                                        processor.metadata.data.insert(meta_id.clone(), text.clone());
+                                    }
+                                } else if let Some(submetadata_id) = &submetadata {
                                     let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
                                     if let Some(submetadata) = submetadata_opt {
                                         submetadata.data.insert(meta_id.clone(), text.clone());
diff --git a/src/serialiser.rs b/src/serialiser.rs
index 684eccf..3806194 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -192,10 +192,17 @@ impl Document {
             if !processor.resourcelink.is_empty() {
                 processor_start.push_attribute(("resourcelink", processor.resourcelink.as_str() ));
             }
-            if processor.processors.is_empty() {
+            if processor.processors.is_empty() && processor.metadata.data.is_empty() {
                 writer.write_event(Event::Empty(processor_start)).map_err(to_serialisation_error)?;
             } else {
                 writer.write_event(Event::Start(processor_start)).map_err(to_serialisation_error)?;
+                for (meta_id, value) in processor.metadata.data.iter() {
+                    let mut meta_start = BytesStart::borrowed_name(b"meta");
+                    meta_start.push_attribute(("id", meta_id.as_str() ));
+                    writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::Text(BytesText::from_plain_str(value))).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
+                }
                 for subprocessor_key in processor.processors.iter() {
                     self.xml_processor(writer, *subprocessor_key)?;
                 }
-- 
2.43.0


From b950f03417ad31628ed4dee4cbb3c12966c665f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 09/68] fix: serialise comments without escaping, as they are
 parsed

---
 src/serialiser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 3806194..ec7e31b 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -300,7 +300,11 @@ impl Document {
                 },
                 DataType::Comment(comment) => {
                     //eprintln!("[DEBUG] (processing comment)");
-                    let text = BytesText::from_plain_str(comment.as_str());
+                    if comment.contains("--") || comment.ends_with('-') {
+                        return Err(FoliaError::SerialisationError("XML comments can not contain a double hyphen nor end in a hyphen".to_string()));
+                    }
+                    //there is no escaping in XML comments
+                    let text = BytesText::from_escaped_str(comment.as_str());
                     writer.write_event(Event::Comment(text)).map_err(to_serialisation_error)?;
                 }
                 DataType::SpanReference(_) | DataType::AddElement(_) => {
-- 
2.43.0


From 90f96079d7c19a8778c7e4b973b0443a2939d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 10/68] fix: do not insert line breaks into elements where they
 alter the text

---
 src/serialiser.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index ec7e31b..f527244 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -219,14 +219,15 @@ impl Document {
         let dec_is_default: Vec<bool> = self.declarationstore.default_mask();
 
         //Select children
-        let mut stack: Vec<(BytesEnd,ElementType,String)> = vec![];
+        //(the boolean indicates whether whitespace is significant in the element, in which case we can't add any)
+        let mut stack: Vec<(BytesEnd,ElementType,bool)> = vec![];
         let mut previous_depth = 0;
         let mut last_start: String = "<ROOT>".to_string();
         for item in self.select_data_by_key(root_key,Selector::all_data(),Recursion::Always, true, false) {
             while item.depth < previous_depth {
-                if let Some((end,elementtype,_tagstring)) = stack.pop() {
+                if let Some((end,elementtype,_)) = stack.pop() {
                     writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
-                    if !ElementGroup::TextMarkup.contains(elementtype) {
+                    if !ElementGroup::TextMarkup.contains(elementtype) && !stack.last().map_or(false, |(_,_,preserve)| *preserve) {
                         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                     }
                     //eprintln!("[DEBUG] <-- Popped end tag {} ({})", tagstring.as_str(), item.depth);
@@ -279,6 +280,7 @@ impl Document {
                                 }
                             }
                         }
+                        let mut preserve = stack.last().map_or(false, |(_,_,preserve)| *preserve);
                         if element.data.is_empty() {
                             writer.write_event(Event::Empty(start)).map_err(to_serialisation_error)?;
                         } else {
@@ -286,9 +288,11 @@ impl Document {
                             let end = BytesEnd::owned(tag.to_vec());
                             //eprintln!("[DEBUG] --> Pushed start tag {} ({})", tagstring.as_str(), item.depth);
                             last_start = tagstring.clone();
-                            stack.push((end,element.elementtype(),tagstring));
+                            let properties = self.props(element.elementtype());
+                            preserve = preserve || properties.textcontainer || properties.phoncontainer || element.data.data.iter().any(|data| if let DataType::Text(_) = data { true } else { false });
+                            stack.push((end,element.elementtype(),preserve));
                         }
-                        if !ElementGroup::TextMarkup.contains(element.elementtype()) && element.elementtype() != ElementType::TextContent && element.elementtype() != ElementType::PhonContent {
+                        if !ElementGroup::TextMarkup.contains(element.elementtype()) && element.elementtype() != ElementType::TextContent && element.elementtype() != ElementType::PhonContent && !preserve {
                             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                         }
                     }
@@ -315,7 +319,7 @@ impl Document {
         }
 
         //don't forget the final closing elements
-        while let Some((end, _elementtype, _tagstring)) = stack.pop() {
+        while let Some((end, _elementtype, _)) = stack.pop() {
             writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
             //eprintln!("[DEBUG] <-- Popped final end tag {}", tagstring.as_str());
         }
-- 
2.43.0


From 97ccb5c59c984185a33a9cb36cc67c402068ebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 11/68] fix: iterate selections without recursion (stack
 overflow on large documents)

---
 src/select.rs | 50 ++++++++++++++++++--------------------------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index c20a593..cb1b248 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -408,7 +408,7 @@ impl<'a> Iterator for SelectIterator<'a> {
                 }
             }
         };
-        if let Some((key,cursor)) = self.stack.pop() {
+        while let Some((key,cursor)) = self.stack.pop() {
             if let Some(parent) = self.document.get_elementdata(key) {
                 if let Some(item) = parent.get_data_at(cursor) {
                     //increment the cursor and push back to the stack
@@ -445,14 +445,12 @@ impl<'a> Iterator for SelectIterator<'a> {
                         }
                     }
                 }
-                self.next() //recurse
             } else {
                 unreachable!("selector tried to get an element which no longer exists")
             }
-        } else {
-            //stack is empty, we are done (None stops iteration)
-            None
         }
+        //stack is empty, we are done (None stops iteration)
+        None
     }
 
 }
@@ -581,21 +579,13 @@ impl<'a> Iterator for SelectElementsIterator<'a> {
     type Item = SelectElementsItem<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let selectitem = self.iterator.next();
-        if let Some(selectitem) = selectitem {
-            match *selectitem {
-                DataType::Element(key) | DataType::SpanReference(key) => {
-                    let element = self.iterator.document.get_element(key).expect("Getting key from elementstore for SelectElementsIterator");
-                    Some(Self::Item { element: element })
-                },
-                _ => {
-                    //recurse
-                    self.next()
-                }
+        while let Some(selectitem) = self.iterator.next() {
+            if let DataType::Element(key) | DataType::SpanReference(key) = *selectitem {
+                let element = self.iterator.document.get_element(key).expect("Getting key from elementstore for SelectElementsIterator");
+                return Some(Self::Item { element: element });
             }
-        } else {
-            None
         }
+        None
     }
 
 }
@@ -659,20 +649,16 @@ impl<'a> Iterator for AncestorIterator<'a> {
     type Item = SelectElementsItem<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(element) = self.document.get_elementdata(self.key) {
-            if let Some(parent_key) = element.parent {
-                self.key = parent_key;
-                if self.selector.matches(&self.document, &DataType::Element(parent_key)) {
-                    return Some(SelectElementsItem {
-                        element: self.document.get_element(parent_key).expect("Parent no longer exists")
-                    });
-                } else {
-                    let parent_type = self.document.get_elementdata(parent_key).expect("Parent no longer exists").elementtype;
-                    if self.recursion.eval(parent_type) {
-                        //recurse
-                        return self.next();
-                    }
-                }
+        while let Some(parent_key) = self.document.get_elementdata(self.key).and_then(|element| element.parent) {
+            self.key = parent_key;
+            if self.selector.matches(&self.document, &DataType::Element(parent_key)) {
+                return Some(SelectElementsItem {
+                    element: self.document.get_element(parent_key).expect("Parent no longer exists")
+                });
+            }
+            let parent_type = self.document.get_elementdata(parent_key).expect("Parent no longer exists").elementtype;
+            if !self.recursion.eval(parent_type) {
+                break;
             }
         }
         None
-- 
2.43.0


From 0c46b8f5377f3aafe9d849c9154256e163b2fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 12/68] fix: do not yield span references when a selection
 excludes them

---
 src/select.rs     | 7 +++++++
 src/serialiser.rs | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index cb1b248..9e4e70c 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -422,6 +422,13 @@ impl<'a> Iterator for SelectIterator<'a> {
                         };
                     }
 
+                    //span references are only a part of the selection if we were asked for them
+                    if !self.spanreferences {
+                        if let DataType::SpanReference(_) = item {
+                            continue;
+                        }
+                    }
+
                     //return the current one
                     if self.selector.matches(self.document, item) {
                         let mut returnitem: bool = true;
diff --git a/src/serialiser.rs b/src/serialiser.rs
index f527244..a1dd1d2 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -281,7 +281,9 @@ impl Document {
                             }
                         }
                         let mut preserve = stack.last().map_or(false, |(_,_,preserve)| *preserve);
-                        if element.data.is_empty() {
+                        //(span references are not serialised, so they don't count as content)
+                        let is_empty = element.data.data.iter().all(|data| match data { DataType::SpanReference(_) | DataType::AddElement(_) => true, _ => false });
+                        if is_empty {
                             writer.write_event(Event::Empty(start)).map_err(to_serialisation_error)?;
                         } else {
                             writer.write_event(Event::Start(start)).map_err(to_serialisation_error)?;
-- 
2.43.0


From 6505e0e978de165f2141b05eb346c9719a69229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 13/68] fix: selecting or serialising an orphan does not start
 from the document body

---
 src/select.rs     | 13 ++++++++-----
 src/serialiser.rs |  7 +++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 9e4e70c..78e0a4e 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -396,14 +396,17 @@ impl<'a> Iterator for SelectIterator<'a> {
                         //root element, just return the self key as parent key
                         *key
                     };
-                    let item: &'a DataType  = if parent_key == *key {
-                        &self.document.elementstore.root
+                    let item: Option<&'a DataType>  = if parent_key == *key {
+                        //(an orphan that is not the root element is not a data item of anything)
+                        Some(&self.document.elementstore.root).filter(|root| **root == DataType::Element(*key))
                     } else {
                         let index = self.document.get_elementdata(parent_key).expect("unwrapping parent key").index(&DataType::Element(*key)).expect("unwrapping child key");
-                        self.document.get_elementdata(parent_key).expect("unwrapping parent key").get_data_at(index).expect("unwrapping child key")
+                        Some(self.document.get_elementdata(parent_key).expect("unwrapping parent key").get_data_at(index).expect("unwrapping child key"))
                     };
-                    if self.selector.matches(self.document, item) {
-                        return Some(SelectItem { data: item, parent_key: parent_key, cursor: 0, depth: 0});
+                    if let Some(item) = item {
+                        if self.selector.matches(self.document, item) {
+                            return Some(SelectItem { data: item, parent_key: parent_key, cursor: 0, depth: 0});
+                        }
                     }
                 }
             }
diff --git a/src/serialiser.rs b/src/serialiser.rs
index a1dd1d2..4388f6a 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -215,6 +215,13 @@ impl Document {
 
     ///Serialize elements to XML
     pub(crate) fn xml_elements(&self, writer: &mut Writer<Cursor<Vec<u8>>>, root_key: ElementKey) -> Result<(), FoliaError> {
+        match self.get_elementdata(root_key) {
+            None => return Err(FoliaError::SerialisationError(format!("Element to serialise does not exist: {}", root_key))),
+            Some(element) => if element.parent_key().is_none() && self.elementstore.root != DataType::Element(root_key) {
+                return Err(FoliaError::SerialisationError("Unable to serialise orphaned elements".to_string()));
+            }
+        }
+
         //caches declarations that are defaults
         let dec_is_default: Vec<bool> = self.declarationstore.default_mask();
 
-- 
2.43.0


From 4bc4cddce9c8afa541d0b1d4b6d886f118758aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:08 +0000
Subject: [PATCH 14/68] fix: selector unions keep all their members, also if
 one of them is unmatchable

---
 src/select.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 78e0a4e..3738234 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -192,7 +192,10 @@ impl Selector {
     ///Add another selector, the resulting selection will then consist of the union
     ///of the selectors. This can be chained multiple times.
     pub fn and(mut self, selector: Selector) -> Self {
-        self.next = Some(Box::new(selector));
+        self.next = match self.next {
+            Some(next) => Some(Box::new(next.and(selector))),
+            None => Some(Box::new(selector)),
+        };
         self
     }
 
@@ -201,9 +204,12 @@ impl Selector {
     ///made to sets or classes that don't exist in the document, then it is unmatchable and there
     ///is no sense in actually performing any matching.
     pub fn matchable(&self) -> bool {
-        self.set != Cmp::Unmatchable &&
+        (self.set != Cmp::Unmatchable &&
         self.class != Cmp::Unmatchable &&
-        self.processor != Cmp::Unmatchable
+        self.subset != Cmp::Unmatchable &&
+        self.processor != Cmp::Unmatchable) ||
+        //a union is matchable as soon as one of its selectors is
+        self.next.as_ref().map_or(false, |next| next.matchable())
     }
 
     ///Tests if the selector matches against the specified data item, given an element store.
-- 
2.43.0


From 74d1376c65bea0a9fbddbe1da40da438871d2faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 15/68] fix: queries on annotator, annotator type and
 confidence are applied

---
 src/select.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index 3738234..a69a6a5 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -143,6 +143,9 @@ impl Selector {
             Cmp::None => Cmp::None,
             Cmp::Unmatchable => Cmp::Unmatchable,
         };
+        selector.annotator = query.annotator.clone();
+        selector.annotatortype = query.annotatortype.clone();
+        selector.confidence = query.confidence.clone();
         Ok(selector)
     }
 
@@ -234,7 +237,8 @@ impl Selector {
                     (self.class == Cmp::Any || self.class.matches(element.class_key().as_ref())) &&
                     (self.processor == Cmp::Any || self.processor.matches(element.processor_key().as_ref())) &&
                     (self.annotator == Cmp::Any || self.annotator.matches(element.annotator().map(|s| s.to_string()).as_ref())) &&
-                    (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref()))
+                    (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref())) &&
+                    (self.confidence == Cmp::Any || self.confidence.matches(element.elementdata().confidence().as_ref()))
                 } else {
                     //element does not exist, can never match
                     false
-- 
2.43.0


From ddb4523808617f6ba8f0cedf99c9372cafa3c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 16/68] fix: queries on class without set use the default set,
 or fail if there is none

---
 src/select.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index a69a6a5..49412d7 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -105,7 +105,23 @@ impl Selector {
         selector.class = match &query.class {
             Cmp::Is(class) => {
                 let mut result: Cmp<ClassKey> = Cmp::Unmatchable; //will try to falsify this
-                if let Cmp::Is(deckey) = selector.set {
+                //without an explicit set, the class is a class of the only set that is declared for the type (if any)
+                let deckey: Option<DecKey> = match (&selector.set, elementtype_source) {
+                    (Cmp::Is(deckey), _) => Some(*deckey),
+                    (Cmp::Any, Cmp::Is(elementtype)) | (Cmp::Some, Cmp::Is(elementtype)) => {
+                        let declared = document.declarations().any(|declaration| declaration.as_ref().map_or(false, |declaration| Some(declaration.annotationtype) == elementtype.annotationtype()));
+                        let default_key = elementtype.annotationtype().and_then(|annotationtype| document.declarationstore.get_default_key(annotationtype));
+                        if default_key.is_none() && (declared || elementtype.annotationtype().is_none()) {
+                            return Err(FoliaError::QueryError(format!("Selector::from_query() can't match on class {} without a set, there is no default. Add a .set() call.", class)));
+                        }
+                        default_key
+                    },
+                    (Cmp::Any, _) | (Cmp::Some, _) => {
+                        return Err(FoliaError::QueryError(format!("Selector::from_query() can't match on class {} without an element type and a set. Add a .element() and .set() call.", class)));
+                    },
+                    _ => None
+                };
+                if let Some(deckey) = deckey {
                     if let Some(declaration) = document.get_declaration(deckey) {
                         match selector.subset {
                             Cmp::Is(_) | Cmp::Some =>  {
-- 
2.43.0


From 704155b49c89cea75889864f1b48368d77173d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:41 +0000
Subject: [PATCH 17/68] fix: resolve features and classes of elements without
 annotation type in the annotation they are part of

---
 src/document.rs | 67 ++++++++++++++++++++++++++++---------------------
 src/parser.rs   |  9 +++----
 2 files changed, 43 insertions(+), 33 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 066c882..50ba9e8 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -659,6 +659,20 @@ impl Document {
         <Self as Store<Processor,ProcKey>>::get_mut_by_id(self, id)
     }
 
+    ///Resolves the annotation type that applies in the specified context, i.e. that of the closest
+    ///element (the context element itself or one of its ancestors) that has one, along with that element's
+    ///declaration (if any)
+    fn get_annotation_context(&self, context: Option<ElementKey>) -> Option<(AnnotationType, Option<DecKey>)> {
+        let mut context = context;
+        while let Some(element) = context.and_then(|key| self.get_elementdata(key)) {
+            if let Some(annotationtype) = element.elementtype.annotationtype() {
+                return Some((annotationtype, element.declaration_key().unwrap_or(None)));
+            }
+            context = element.parent_key();
+        }
+        None
+    }
+
     //************** Higher level element retrieval methods ****************
     //
     pub fn get_element(&self, key: ElementKey) -> Option<Element> {
@@ -817,38 +831,35 @@ impl Store<ElementData,ElementKey> for Document {
                     test_declaration_has_processor = !declaration.processors.contains(&processor_key.expect("proc key"));
                 }
             }
-        } else {
-            match element.elementtype {
-                ElementType::Feature => {
-                    if let Some(parent_key) = context {
-                        //get the declaration key from the parent context:
-                        let parent = self.get_elementdata(parent_key).ok_or( FoliaError::InternalError("Context for feature does not exist!".to_string()))?;
-
-                        let annotationtype = parent.elementtype.annotationtype().expect(format!("Unwrapping annotation type of parent {}", element.elementtype).as_str() );
-                        let deckey = self.declare(annotationtype, &element.set().unwrap().map(|s| s.to_string()),  &None, &None)?;
-                        declaration_key  = Some(deckey);
-
-                        if let Some(declaration) = self.get_mut_declaration(deckey) {
-                            if let Ok(Some(class)) = element.class() {
-                                if let Ok(clskey) = declaration.add_subclass(Cow::Borrowed(class)) {
-                                    class_key = Some(clskey);
-                                }
-                            }
-                            if let Ok(Some(subset)) = element.subset() {
-                                if let Ok(subsetkey) = declaration.add_subset(Cow::Borrowed(subset)) {
-                                    subset_key = Some(subsetkey);
-                                }
-                            }
-                        }
-
+        } else if let Some((annotationtype, context_deckey)) = self.get_annotation_context(context) {
+            //The element has no annotation type of its own (e.g. features, span roles, table
+            //cells, list items): its set and class pertain to the annotation it is a part of
+            let deckey = match (element.set().unwrap().map(|s| s.to_string()), context_deckey) {
+                (None, Some(context_deckey)) => context_deckey,
+                (set, _) => self.declare(annotationtype, &set, &None, &None)?
+            };
+            declaration_key  = Some(deckey);
 
-                    } else {
-                        return Err(FoliaError::InternalError("No context provided for feature".to_string()));
+            if let Some(declaration) = self.get_mut_declaration(deckey) {
+                if element.elementtype == ElementType::Feature {
+                    if let Ok(Some(class)) = element.class() {
+                        if let Ok(clskey) = declaration.add_subclass(Cow::Borrowed(class)) {
+                            class_key = Some(clskey);
+                        }
+                    }
+                    if let Ok(Some(subset)) = element.subset() {
+                        if let Ok(subsetkey) = declaration.add_subset(Cow::Borrowed(subset)) {
+                            subset_key = Some(subsetkey);
+                        }
+                    }
+                } else if let Ok(Some(class)) = element.class() {
+                    if let Ok(clskey) = declaration.add_class(Cow::Borrowed(class)) {
+                        class_key = Some(clskey);
                     }
-                }
-                _ => {
                 }
             }
+        } else if element.elementtype == ElementType::Feature {
+            return Err(FoliaError::EncodeError("Feature has no context with an annotation type".to_string()));
         }
 
         //is there an explicitly provided processor? this overrides the earlier default
diff --git a/src/parser.rs b/src/parser.rs
index ad2b9a8..cb91a4e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -391,6 +391,10 @@ impl Document {
                         let key = self.add(elem,stack.last().map(|key| *key))
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error adding <{}>", tagname))  )?;
+                        //add element to parent (the previous one in the stack)
+                        if let Some(parent_key) = stack.last() {
+                            self.attach_element(*parent_key, key)?;
+                        }
                         stack.push(key);
                         //add immediate children (limited to those derived from XML attributes)
                         for child in children {
@@ -417,11 +421,6 @@ impl Document {
                         } else {
                             return Err(FoliaError::InternalError(format!("ID from stack does not exist! {}", key )));
                         }
-
-                        //add element to parent (the previous one in the stack)
-                        if let Some(parent_key) = stack.last() {
-                            self.attach_element(*parent_key, key)?;
-                        }
                     },
                     (None, Event::Text(s)) => {
                         let text = s.unescape_and_decode(reader)?;
-- 
2.43.0


From a3a666b602e39553280aa803deab8f3733d1e397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:36 +0000
Subject: [PATCH 18/68] fix: get_features returns the requested features
 regardless of set

---
 src/element.rs | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index 5a28f83..a1b1e94 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -555,18 +555,38 @@ impl<'a> Element<'a> {
     ///High-level function to get a particular feature by annotation type and set, returns an
     ///iterator.
     pub fn get_features(&self, subset: Cmp<String>) -> SelectElementsIterator {
-        self.select(
-                Selector::from_query(self.document().expect("Unwrapping document on element for get_features()"),
-                    &Query::select()
-                           .element(Cmp::Is(ElementType::Feature))
-                           .contexttype(Cmp::Is(self.elementtype()))
-                           .set(match self.set() {
-                               Some(set) => Cmp::Is(set.to_string()),
-                               None => Cmp::None,
-                            })
-                           .subset(subset)
-                ).expect("Compiling query for get_features()")
-        , Recursion::No)
+        //features are encoded using the declaration of the annotation they are part of
+        let document = self.document().expect("Unwrapping document on element for get_features()");
+        let mut selector = Selector::elements().element(Cmp::Is(ElementType::Feature));
+        selector.contexttype = Cmp::Is(self.elementtype());
+        selector.subset = match &subset {
+            Cmp::Any => Cmp::Any,
+            Cmp::Some => Cmp::Some,
+            Cmp::None => Cmp::None,
+            Cmp::Is(_) | Cmp::Unmatchable => Cmp::Unmatchable,
+        };
+        if let Cmp::Is(subset) = &subset {
+            let mut declaration_keys: Vec<DecKey> = Vec::new();
+            for data in self.elementdata().data.iter() {
+                if let DataType::Element(key) = data {
+                    if let Some(declaration_key) = document.get_element(*key).and_then(|element| element.declaration_key()) {
+                        if !declaration_keys.contains(&declaration_key) {
+                            declaration_keys.push(declaration_key);
+                        }
+                    }
+                }
+            }
+            for declaration_key in declaration_keys {
+                if let Some(subset_key) = document.get_declaration(declaration_key).and_then(|declaration| declaration.subset_key(subset)) {
+                    let mut selector_in_set = selector.clone();
+                    selector_in_set.next = None;
+                    selector_in_set.set = Cmp::Is(declaration_key);
+                    selector_in_set.subset = Cmp::Is(subset_key);
+                    selector = selector.and(selector_in_set);
+                }
+            }
+        }
+        self.select(selector, Recursion::No)
     }
 
 
-- 
2.43.0


From cefb918f16c2811e99fd0cef515590b850664b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 19/68] fix: text() returns text of the requested text class
 only

---
 src/text.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 150e25d..c14a8ef 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -61,6 +61,19 @@ impl<'a> Element<'a> {
     ///Returns the text content of a given element
     pub fn text_by_key(&self, set: DecKey, textclass: ClassKey, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>) -> Result<String,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
+        let declaration = doc.get_declaration(set).ok_or(FoliaError::KeyError(format!("No such declaration key: {}", set)))?;
+        let textclass = declaration.get_class(textclass).ok_or(FoliaError::KeyError(format!("No such class key: {}", textclass)))?;
+        self.text_by_class(declaration.set.as_ref().map(String::as_str), textclass, strict, retaintokenisation, previousdelimiter)
+    }
+
+    ///Tests if this text content element carries the text of the specified set and class. Text content
+    ///without an explicit class has the class "current".
+    fn is_textclass(&self, set: Option<&str>, textclass: &str) -> bool {
+        self.class().unwrap_or("current") == textclass && (self.set().is_none() || self.set() == set)
+    }
+
+    fn text_by_class(&self, set: Option<&str>, textclass: &str, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>) -> Result<String,FoliaError> {
+        let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
 
         let properties = doc.props(self.elementtype());
 
@@ -81,7 +94,7 @@ impl<'a> Element<'a> {
                                         text += textdelimiter;
                                     }
                                 }
-                                let textpart = element.text_by_key(set,textclass,strict, retaintokenisation,None)?;
+                                let textpart = element.text_by_class(set,textclass,strict, retaintokenisation,None)?;
                                 text += &textpart;
                             }
                         }
@@ -104,7 +117,7 @@ impl<'a> Element<'a> {
                            element.elementtype() == ElementType::Correction ||
                            ElementGroup::Span.contains(element.elementtype()) {
 
-                           if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
+                           if let Ok(textpart) = element.text_by_class(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
                                //delimiter will be buffered and only printed upon next iteration
                                text += &textpart;
                                if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
@@ -114,7 +127,7 @@ impl<'a> Element<'a> {
                         } else if element.elementtype() == ElementType::WordReference {
                             //follow the reference
                             if let Some(element) = element.resolve() {
-                               if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
+                               if let Ok(textpart) = element.text_by_class(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
                                    //delimiter will be buffered and only printed upon next iteration
                                    text += &textpart;
                                    if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
@@ -122,14 +135,14 @@ impl<'a> Element<'a> {
                                    }
                                }
                             }
-                        } else if element.elementtype() == ElementType::TextContent {
+                        } else if element.elementtype() == ElementType::TextContent && element.is_textclass(set, textclass) {
                             textcontent_element = Some(element);
                         }
                     }
                 }
             }
             if text.is_empty() && textcontent_element.is_some() {
-                if let Ok(parttext) = textcontent_element.unwrap().text_by_key(set,textclass,false,retaintokenisation, None) {
+                if let Ok(parttext) = textcontent_element.unwrap().text_by_class(set,textclass,false,retaintokenisation, None) {
                     text = parttext
                 }
             }
@@ -195,11 +208,12 @@ impl<'a> Element<'a> {
     ///fallback to the default text set and "current class".
     pub fn text(&self, textparameters: &TextParameters) -> Result<String,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
-        if let Some(dec_key) = doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &textparameters.set.as_ref().map(|s| s.as_str())).as_str()) {
-            let class_key = doc.class_key(dec_key, &textparameters.textclass.as_ref().map(|s| s.as_str()).expect("unwrapping textclass")  )?;
-            self.text_by_key(dec_key, class_key,textparameters.strict,textparameters.retaintokenisation, None)
+        let set: &str = textparameters.set.as_ref().map(String::as_str).unwrap_or(DEFAULT_TEXT_SET);
+        let textclass: &str = textparameters.textclass.as_ref().map(String::as_str).unwrap_or("current");
+        if doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &Some(set)).as_str()).is_some() {
+            self.text_by_class(Some(set), textclass, textparameters.strict, textparameters.retaintokenisation, None)
         } else {
-            Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", textparameters.set.as_ref().map(|s| s.as_str()).expect("unwrapping set"))))
+            Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", set)))
         }
     }
 }
-- 
2.43.0


From 99c4356d2a8b26c2f8e06e8e870db710ffca38f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 20/68] fix: elements without text (e.g. linebreaks) do not
 void the text they are in

---
 src/text.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index c14a8ef..11ce829 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -94,8 +94,11 @@ impl<'a> Element<'a> {
                                         text += textdelimiter;
                                     }
                                 }
-                                let textpart = element.text_by_class(set,textclass,strict, retaintokenisation,None)?;
-                                text += &textpart;
+                                match element.text_by_class(set,textclass,strict, retaintokenisation,None) {
+                                    Ok(textpart) => text += &textpart,
+                                    Err(FoliaError::NoTextError(_)) => {}, //(e.g. a linebreak)
+                                    Err(e) => return Err(e)
+                                }
                             }
                         }
                     },
-- 
2.43.0


From 4f3c87a71617bd88fb60af1954f8a879295f41db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:42 +0000
Subject: [PATCH 21/68] fix: text() includes the new or current text of
 corrections

---
 src/text.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/text.rs b/src/text.rs
index 11ce829..0f1f335 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -118,6 +118,9 @@ impl<'a> Element<'a> {
                     if let Some(element) = doc.get_element(*element_key) {
                         if ElementGroup::Structure.contains(element.elementtype()) ||
                            element.elementtype() == ElementType::Correction ||
+                           //of a correction, we take the text as it is now
+                           element.elementtype() == ElementType::New ||
+                           element.elementtype() == ElementType::Current ||
                            ElementGroup::Span.contains(element.elementtype()) {
 
                            if let Ok(textpart) = element.text_by_class(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
@@ -171,6 +174,10 @@ impl<'a> Element<'a> {
             for item in self.elementdata().data.iter().rev() {
                 if let DataType::Element(element_key) = item {
                     if let Some(element) = doc.get_element(*element_key) {
+                        if self.elementtype() == ElementType::Correction && element.elementtype() != ElementType::New && element.elementtype() != ElementType::Current {
+                            //does not contribute to the text
+                            continue;
+                        }
                         //recurse
                         match element.get_textdelimiter(retaintokenisation) {
                             Ok(Cow::Borrowed(s)) => {
-- 
2.43.0


From eec90266d458f0949154281fd5305023c4a155d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 22/68] fix: nested spans are delimited in the text of a span

---
 src/text.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/text.rs b/src/text.rs
index 0f1f335..088114f 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -169,6 +169,14 @@ impl<'a> Element<'a> {
     pub fn get_textdelimiter(&self, retaintokenisation: bool) -> Result<Cow<str>,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
         let properties =  doc.props(self.elementtype());
+        if self.elementtype() == ElementType::WordReference {
+            //the delimiter is that of the element that is referred to
+            if let Some(element) = self.resolve() {
+                if doc.props(element.elementtype()).textdelimiter.is_some() {
+                    return element.get_textdelimiter(retaintokenisation).map(|s| Cow::Owned(s.into_owned()));
+                }
+            }
+        }
         if properties.textdelimiter.is_none() {
             //no text delimiter of itself, recurse into children to inherit delimiter
             for item in self.elementdata().data.iter().rev() {
-- 
2.43.0


From d1466bd7b9bde4c5b1744cce3f223f5b512e3904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 23/68] fix: text() terminates on circular references

---
 src/text.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 088114f..3585a01 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -63,7 +63,7 @@ impl<'a> Element<'a> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
         let declaration = doc.get_declaration(set).ok_or(FoliaError::KeyError(format!("No such declaration key: {}", set)))?;
         let textclass = declaration.get_class(textclass).ok_or(FoliaError::KeyError(format!("No such class key: {}", textclass)))?;
-        self.text_by_class(declaration.set.as_ref().map(String::as_str), textclass, strict, retaintokenisation, previousdelimiter)
+        self.text_by_class(declaration.set.as_ref().map(String::as_str), textclass, strict, retaintokenisation, previousdelimiter, &mut Vec::new())
     }
 
     ///Tests if this text content element carries the text of the specified set and class. Text content
@@ -72,7 +72,7 @@ impl<'a> Element<'a> {
         self.class().unwrap_or("current") == textclass && (self.set().is_none() || self.set() == set)
     }
 
-    fn text_by_class(&self, set: Option<&str>, textclass: &str, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>) -> Result<String,FoliaError> {
+    fn text_by_class(&self, set: Option<&str>, textclass: &str, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>, references: &mut Vec<ElementKey>) -> Result<String,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
 
         let properties = doc.props(self.elementtype());
@@ -94,7 +94,7 @@ impl<'a> Element<'a> {
                                         text += textdelimiter;
                                     }
                                 }
-                                match element.text_by_class(set,textclass,strict, retaintokenisation,None) {
+                                match element.text_by_class(set,textclass,strict, retaintokenisation,None, references) {
                                     Ok(textpart) => text += &textpart,
                                     Err(FoliaError::NoTextError(_)) => {}, //(e.g. a linebreak)
                                     Err(e) => return Err(e)
@@ -123,7 +123,7 @@ impl<'a> Element<'a> {
                            element.elementtype() == ElementType::Current ||
                            ElementGroup::Span.contains(element.elementtype()) {
 
-                           if let Ok(textpart) = element.text_by_class(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
+                           if let Ok(textpart) = element.text_by_class(set,textclass,false, retaintokenisation, Some(delimiter.clone()), references) {
                                //delimiter will be buffered and only printed upon next iteration
                                text += &textpart;
                                if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
@@ -133,7 +133,15 @@ impl<'a> Element<'a> {
                         } else if element.elementtype() == ElementType::WordReference {
                             //follow the reference
                             if let Some(element) = element.resolve() {
-                               if let Ok(textpart) = element.text_by_class(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
+                               let element_key = element.key().expect("unwrapping key");
+                               if references.contains(&element_key) {
+                                   //we are already following this reference (references may be circular)
+                                   continue;
+                               }
+                               references.push(element_key);
+                               let result = element.text_by_class(set,textclass,false, retaintokenisation, Some(delimiter.clone()), references);
+                               references.pop();
+                               if let Ok(textpart) = result {
                                    //delimiter will be buffered and only printed upon next iteration
                                    text += &textpart;
                                    if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
@@ -148,7 +156,7 @@ impl<'a> Element<'a> {
                 }
             }
             if text.is_empty() && textcontent_element.is_some() {
-                if let Ok(parttext) = textcontent_element.unwrap().text_by_class(set,textclass,false,retaintokenisation, None) {
+                if let Ok(parttext) = textcontent_element.unwrap().text_by_class(set,textclass,false,retaintokenisation, None, references) {
                     text = parttext
                 }
             }
@@ -229,7 +237,7 @@ impl<'a> Element<'a> {
         let set: &str = textparameters.set.as_ref().map(String::as_str).unwrap_or(DEFAULT_TEXT_SET);
         let textclass: &str = textparameters.textclass.as_ref().map(String::as_str).unwrap_or("current");
         if doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &Some(set)).as_str()).is_some() {
-            self.text_by_class(Some(set), textclass, textparameters.strict, textparameters.retaintokenisation, None)
+            self.text_by_class(Some(set), textclass, textparameters.strict, textparameters.retaintokenisation, None, &mut Vec::new())
         } else {
             Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", set)))
         }
-- 
2.43.0


From fedc737a974f91423372151dd69fe099433670d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 24/68] fix: layers without set keep their attributes when the
 set is inferred

---
 src/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 50ba9e8..c93cd33 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -366,7 +366,9 @@ impl Document {
         }
         if let Some(add_attributes) = add_attributes {
             if let Some(element) = self.get_mut_elementdata(element_key) {
-                element.set_attribs(add_attributes);
+                for attribute in add_attributes {
+                    element.set_attrib(attribute);
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 5d797f57101380d94ecb95dc67c752b88eb2506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:27 +0000
Subject: [PATCH 25/68] fix: reuse the layer of the common ancestor when
 annotating from a word

---
 src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index c93cd33..06c35f1 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -549,7 +549,7 @@ impl Document {
                             suitable = props.accepted_data.contains(&AcceptedData::AcceptElementGroup(ElementGroup::Layer)) || props.accepted_data.contains(&AcceptedData::AcceptElementType(layertype));
                         };
                         if suitable {
-                            let mut layer_key: Option<ElementKey> = self.get_layer_key(parent_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
+                            let mut layer_key: Option<ElementKey> = self.get_layer_key(*ancestor_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
                             if layer_key.is_none() {
                                 //no layer found yet, add a new one
                                 let layerdata = match set {
-- 
2.43.0


From 4e812c148dbaa3a591ba140fb8da63afd64c6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:27 +0000
Subject: [PATCH 26/68] fix: elements without common ancestors have no common
 ancestors

---
 src/select.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index 49412d7..79bb374 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -730,10 +730,12 @@ impl Document {
 
     pub fn common_ancestors(&self, selector: Selector, elements: &[ElementKey]) -> Vec<ElementKey> {
         let mut result: Vec<ElementKey> = Vec::new();
+        let mut first = true;
         for sibling_key in elements {
             if let Some(sibling) = self.get_element(*sibling_key) {
                 let ancestors: Vec<ElementKey> = sibling.ancestors(selector.clone()).map(|e| e.key().expect("get key")).collect();
-                if result.is_empty() {
+                if first {
+                    first = false;
                     result = ancestors.into_iter().collect();
                 } else {
                     result = result.into_iter().filter(|a| ancestors.contains(a)).collect();
-- 
2.43.0


From f81cb2e73477edcf5367e288b3fe54029547cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 27/68] fix: refuse to attach an element to itself or to one of
 its descendants

---
 src/document.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 06c35f1..ef8a769 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -270,6 +270,14 @@ impl Document {
         if !self.get(parent_key).is_some() {
             return Err(FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key)));
         };
+        //an element can't become part of itself
+        let mut ancestor_key = Some(parent_key);
+        while let Some(key) = ancestor_key {
+            if key == child_key {
+                return Err(FoliaError::ValidationError(format!("Can't attach element {} to {}, as it would become part of itself", child_key, parent_key)));
+            }
+            ancestor_key = self.get_elementdata(key).and_then(|ancestor| ancestor.parent_key());
+        }
 
         let oldparent_key = if let Some(child) = self.get_mut(child_key) {
             //add the new parent and return the old parent
-- 
2.43.0


From 9a845b3906b6af3664a08d722117e30bf2434a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 28/68] fix: adding elements is atomic, keeps IDs unique and
 links nested elements to their parents

---
 src/document.rs | 123 +++++++++++++++++++++++++-----------------------
 src/parser.rs   |   6 +++
 2 files changed, 70 insertions(+), 59 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index ef8a769..4dace5f 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -172,8 +172,8 @@ impl Document {
     ///Add an element to the document (but the element will be an orphan unless it is the very
     ///first one, you may want to use ``add_element_to`` or ``annotate`` instead)
     pub fn add_element(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,_) = self.add_children(element)?;
-        <Self as Store<ElementData,ElementKey>>::add(self, element, None)
+        self.check_new_element(None, &element)?;
+        self.insert_element(None, element)
     }
 
     ///Add a declaration. It is strongly recommended to use ``declare()`` instead
@@ -196,71 +196,76 @@ impl Document {
     ///takes care of adding and attaching for you. You may want to use ``annotate`` instead
     ///as that is an even higher-level function.
     pub fn add_element_to(&mut self, parent_key: ElementKey, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,added_subelements) = self.add_children(element)?;
-        match <Self as Store<ElementData,ElementKey>>::add(self, element, Some(parent_key)) {
-            Ok(child_key) => {
-                if let Some(added_subelements) = added_subelements {
-                    for subchild_key in added_subelements.iter() {
-                        if let Some(subchilddata) = self.get_mut_elementdata(*subchild_key) {
-                            subchilddata.set_parent_key(Some(child_key));
-                        }
-                        self.post_add(*subchild_key, None)?;
-                    }
-                }
-                self.attach_element(parent_key, child_key)?;
-                self.post_add(child_key, None)?;
-                Ok(child_key)
-            },
-            Err(err) => {
-                Err(FoliaError::InternalError(format!("Unable to add element to parent: {}", err)))
+        self.check_new_element(Some(parent_key), &element)?;
+        self.insert_element(Some(parent_key), element)
+    }
+
+    ///Inserts a new element (and its hitherto 'unborn' children), attaching it to its parent (if any).
+    fn insert_element(&mut self, parent_key: Option<ElementKey>, mut element: ElementData) -> Result<ElementKey,FoliaError> {
+        let data = std::mem::replace(&mut element.data, Vec::new());
+        let key = <Self as Store<ElementData,ElementKey>>::add(self, element, parent_key)?;
+        if let Some(parent_key) = parent_key {
+            self.attach_element(parent_key, key)?;
+        }
+        for item in data {
+            if let DataType::AddElement(child) = item {
+                self.insert_element(Some(key), child)?;
+            } else if let Some(element) = self.get_mut_elementdata(key) {
+                element.push(item);
             }
         }
+        if parent_key.is_some() {
+            self.post_add(key, None)?;
+        }
+        Ok(key)
     }
 
-    ///Before we can add an element, we need to create and add its hitherto 'unborn' children.
-    pub(crate) fn add_children(&mut self, mut element: ElementData) -> Result<(ElementData, Option<Vec<ElementKey>>),FoliaError> {
-        let mut has_unborn_children = false;
-        for child in element.data.iter() {
-            if let DataType::AddElement(_) = child {
-                has_unborn_children = true;
+    ///Checks whether a new element, including its hitherto 'unborn' children, can be inserted under the
+    ///specified parent. Nothing is inserted if this check fails.
+    fn check_new_element(&self, parent_key: Option<ElementKey>, element: &ElementData) -> Result<(),FoliaError> {
+        let mut has_context = false;
+        let mut in_span = false;
+        if let Some(parent_key) = parent_key {
+            let parent = self.get_elementdata(parent_key).ok_or_else(||
+                FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key))
+            )?;
+            has_context = self.get_annotation_context(Some(parent_key)).is_some();
+            in_span = ElementGroup::Span.contains(parent.elementtype) ||
+                      self.ancestors_by_key(parent_key, Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span))).next().is_some();
+        } else if element.elementtype == ElementType::WordReference {
+            //orphans do not refer to anything yet
+            in_span = true;
+        }
+        self.check_new_elements(element, has_context, in_span, &mut Vec::new())
+    }
+
+    fn check_new_elements<'a>(&self, element: &'a ElementData, has_context: bool, in_span: bool, ids: &mut Vec<&'a str>) -> Result<(),FoliaError> {
+        if let Some(id) = element.id() {
+            if self.get_element_key_by_id(id).is_some() || ids.contains(&id) {
+                return Err(FoliaError::ValidationError(format!("An element with ID {} already exists", id)));
             }
+            ids.push(id);
         }
-        if has_unborn_children {
-            let mut added_elements: Vec<ElementKey> = Vec::new();
-            let mut new_data: Vec<DataType> = Vec::new();
-            for child in element.data {
-                if let DataType::AddElement(child_elementdata) = child {
-                    //first we do a recursion step to add the grandchildren, if any
-                    let child_key = match self.add_children(child_elementdata) {
-                        Ok((child_elementdata_new, Some(added_grandchildren))) => {
-                            let child_key = <Self as Store<ElementData,ElementKey>>::add(self, child_elementdata_new, None)?;
-                            for grandchild_key in added_grandchildren {
-                                if let Some(subchilddata) = self.get_mut_elementdata(grandchild_key) {
-                                    subchilddata.set_parent_key(Some(child_key));
-                                }
-                                self.post_add(grandchild_key, None)?;
-                            }
-                            child_key
-                        },
-                        Ok((child_elementdata_new, None)) => {
-                            let child_key = <Self as Store<ElementData,ElementKey>>::add(self, child_elementdata_new, None)?;
-                            child_key
-                        }
-                        Err(e) => {
-                            return Err(e);
-                        }
-                    };
-                    new_data.push(DataType::Element(child_key));
-                    added_elements.push(child_key);
-                } else {
-                    new_data.push(child);
-                }
+        if element.elementtype == ElementType::Feature && element.encodable() && !has_context {
+            return Err(FoliaError::EncodeError("Feature has no context with an annotation type".to_string()));
+        }
+        if element.elementtype == ElementType::WordReference {
+            let idref = element.idref().ok_or_else(|| FoliaError::ValidationError("Wref element does not reference anything!".to_string()))?;
+            if self.get_element_key_by_id(idref).is_none() && !ids.contains(&idref) {
+                return Err(FoliaError::ValidationError(format!("Wref element references an element that does not exist (idref={})", idref)));
+            }
+            if !in_span {
+                return Err(FoliaError::ValidationError(format!("Wref is not part of a span (idref={})", idref)));
             }
-            element.data = new_data;
-            Ok((element, Some(added_elements)))
-        } else {
-            Ok((element, None))
         }
+        let has_context = has_context || element.elementtype.annotationtype().is_some();
+        let in_span = in_span || ElementGroup::Span.contains(element.elementtype);
+        for item in element.data.iter() {
+            if let DataType::AddElement(child) = item {
+                self.check_new_elements(child, has_context, in_span, ids)?;
+            }
+        }
+        Ok(())
     }
 
     ///Adds the child element to the parent element, automatically takes care
diff --git a/src/parser.rs b/src/parser.rs
index cb91a4e..65cf39b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -366,6 +366,9 @@ impl Document {
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}/>", tagname))  )?;
+                        if elem.id().map_or(false, |id| self.get_element_key_by_id(id).is_some()) {
+                            return Err(FoliaError::ParseError(format!("Duplicate ID: {}", elem.id().unwrap())));
+                        }
                         let key = self.add(elem,stack.last().map(|key| *key))
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error adding <{}/>", tagname))  )?;
@@ -388,6 +391,9 @@ impl Document {
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}>", tagname))  )?;
+                        if elem.id().map_or(false, |id| self.get_element_key_by_id(id).is_some()) {
+                            return Err(FoliaError::ParseError(format!("Duplicate ID: {}", elem.id().unwrap())));
+                        }
                         let key = self.add(elem,stack.last().map(|key| *key))
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error adding <{}>", tagname))  )?;
-- 
2.43.0


From 28a51775a396eef9c185841a8d5e7a6dc11088ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:10 +0000
Subject: [PATCH 29/68] fix: existing elements added as part of a new element
 are moved to it

---
 src/document.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 4dace5f..5acf030 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -208,10 +208,16 @@ impl Document {
             self.attach_element(parent_key, key)?;
         }
         for item in data {
-            if let DataType::AddElement(child) = item {
-                self.insert_element(Some(key), child)?;
-            } else if let Some(element) = self.get_mut_elementdata(key) {
-                element.push(item);
+            match item {
+                DataType::AddElement(child) => {
+                    self.insert_element(Some(key), child)?;
+                },
+                DataType::Element(child_key) => {
+                    self.attach_element(key, child_key)?;
+                },
+                _ => if let Some(element) = self.get_mut_elementdata(key) {
+                    element.push(item);
+                }
             }
         }
         if parent_key.is_some() {
@@ -236,10 +242,10 @@ impl Document {
             //orphans do not refer to anything yet
             in_span = true;
         }
-        self.check_new_elements(element, has_context, in_span, &mut Vec::new())
+        self.check_new_elements(element, parent_key, has_context, in_span, &mut Vec::new())
     }
 
-    fn check_new_elements<'a>(&self, element: &'a ElementData, has_context: bool, in_span: bool, ids: &mut Vec<&'a str>) -> Result<(),FoliaError> {
+    fn check_new_elements<'a>(&self, element: &'a ElementData, parent_key: Option<ElementKey>, has_context: bool, in_span: bool, ids: &mut Vec<&'a str>) -> Result<(),FoliaError> {
         if let Some(id) = element.id() {
             if self.get_element_key_by_id(id).is_some() || ids.contains(&id) {
                 return Err(FoliaError::ValidationError(format!("An element with ID {} already exists", id)));
@@ -261,8 +267,24 @@ impl Document {
         let has_context = has_context || element.elementtype.annotationtype().is_some();
         let in_span = in_span || ElementGroup::Span.contains(element.elementtype);
         for item in element.data.iter() {
-            if let DataType::AddElement(child) = item {
-                self.check_new_elements(child, has_context, in_span, ids)?;
+            match item {
+                DataType::AddElement(child) => {
+                    self.check_new_elements(child, parent_key, has_context, in_span, ids)?;
+                },
+                DataType::Element(child_key) => {
+                    //an existing element, it will be moved
+                    if self.get_elementdata(*child_key).is_none() {
+                        return Err(FoliaError::KeyError(format!("Child does not exist: {}", child_key)));
+                    }
+                    let mut ancestor_key = parent_key;
+                    while let Some(key) = ancestor_key {
+                        if key == *child_key {
+                            return Err(FoliaError::ValidationError(format!("Can't attach element {} as it would become part of itself", child_key)));
+                        }
+                        ancestor_key = self.get_elementdata(key).and_then(|ancestor| ancestor.parent_key());
+                    }
+                },
+                _ => {}
             }
         }
         Ok(())
-- 
2.43.0


From a7daa373eba442800972e131a283329734be3030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 30/68] fix: annotate validates everything before adding
 anything

---
 src/document.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 5acf030..f59b6a9 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -540,12 +540,16 @@ impl Document {
         let parent = self.get_element(parent_key).ok_or(
             FoliaError::InternalError(format!("Specified element key not found: {:?}", parent_key))
         )?;
+        //test everything that is to be added before we add anything
+        self.check_new_element(Some(parent_key), &element)?;
+        self.check_children_addable(&element)?;
         if ElementGroup::Span.contains(element.elementtype) {
             let mut addspanfromspanned = false;
             let mut addspanfromstructure = false;
             let layertype = element.elementtype.annotationtype().expect("annotation type").layertype().ok_or(
                 FoliaError::InternalError(format!("No layer type found for specified span type {:?}",element.elementtype))
             )?;
+            self.check_type_addable(layertype, &element)?;
             let props = self.props(parent.elementtype());
             if props.wrefable {
                 addspanfromspanned = true
@@ -793,7 +797,12 @@ impl Document {
         let parent = self.get_element(parent_key).ok_or(
             FoliaError::InternalError(format!("Specified parent element key not found"))
         )?;
-        let props = self.props(parent.elementtype());
+        self.check_type_addable(parent.elementtype(), element)
+    }
+
+    ///Checks whether the specification allows the element under a parent of the specified type
+    fn check_type_addable(&self, parenttype: ElementType, element: &ElementData) -> Result<(), FoliaError> {
+        let props = self.props(parenttype);
         for accepted_data in props.accepted_data.iter() {
             match accepted_data {
                 AcceptedData::AcceptElementType(et) => if *et == element.elementtype {
@@ -804,7 +813,18 @@ impl Document {
                 }
             }
         }
-        Err(FoliaError::ValidationError(format!("Can't add element type {:?} to {:?}", element.elementtype, parent.elementtype())))
+        Err(FoliaError::ValidationError(format!("Can't add element type {:?} to {:?}", element.elementtype, parenttype)))
+    }
+
+    ///Checks whether the specification allows all hitherto 'unborn' children of the element
+    fn check_children_addable(&self, element: &ElementData) -> Result<(), FoliaError> {
+        for item in element.data.iter() {
+            if let DataType::AddElement(child) = item {
+                self.check_type_addable(element.elementtype, child)?;
+                self.check_children_addable(child)?;
+            }
+        }
+        Ok(())
     }
 
 }
-- 
2.43.0


From 9f91f295a5f75a1bfc90d158d9da40b242ea27df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 31/68] fix: annotate validates the element in the place where
 it is added

---
 src/document.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/document.rs b/src/document.rs
index f59b6a9..9cbfcf3 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -588,6 +588,7 @@ impl Document {
                             suitable = props.accepted_data.contains(&AcceptedData::AcceptElementGroup(ElementGroup::Layer)) || props.accepted_data.contains(&AcceptedData::AcceptElementType(layertype));
                         };
                         if suitable {
+                            self.check_new_element(Some(*ancestor_key), &element)?;
                             let mut layer_key: Option<ElementKey> = self.get_layer_key(*ancestor_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
                             if layer_key.is_none() {
                                 //no layer found yet, add a new one
-- 
2.43.0


From 60b9749dbdf14fc2898a647a1dfb638e23dd7612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 32/68] fix: associate the active processor with existing
 declarations too

---
 src/document.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 9cbfcf3..d3b3d67 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -493,13 +493,12 @@ impl Document {
     ///associated with the declaration.
     pub fn declare(&mut self, annotationtype: AnnotationType, set: &Option<String>, alias: &Option<String>, format: &Option<String>) -> Result<DecKey,FoliaError> {
         //first we simply check the index
-        if let Some(found_key) = <Self as Store<Declaration,DecKey>>::id_to_key(self,Declaration::index_id(annotationtype, &set.as_ref().map(String::as_str)  ).as_str()) {
-            return Ok(found_key);
-        }
+        let mut declaration_key: Option<DecKey> = <Self as Store<Declaration,DecKey>>::id_to_key(self,Declaration::index_id(annotationtype, &set.as_ref().map(String::as_str)  ).as_str());
 
         //If not found, we search for a default
-        let mut declaration_key: Option<DecKey> = None;
-        if let Some(default_key) = self.declarationstore.get_default_key(annotationtype) {
+        if declaration_key.is_some() {
+            //already found
+        } else         if let Some(default_key) = self.declarationstore.get_default_key(annotationtype) {
             if let Some(declaration) = self.get_declaration(default_key) {
                 if set.is_some() {
                     //there is an explicit set defined, only return the default if the sets are not
-- 
2.43.0


From 7887d3841e8ee6ba7cebd66b084b2e8ba95d9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 33/68] fix: loading a document does not attribute its
 annotations to the processor it is loaded with, nor change their sets

---
 src/parser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 65cf39b..54700d0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -332,10 +332,21 @@ impl Document {
 
         if let Some(body) = body {
             doc.add(body,None).map_err(FoliaError::add_parseerror("Error adding body"))?;
-            doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
+            //the annotations in the document were not made by the processor we load it with, and their
+            //sets follow from the declarations in the document, so whatever might interfere with those
+            //is applied after loading.
+            let (declare, declare_after): (Vec<_>, Vec<_>) = properties.declare.iter().cloned().partition(|(annotationtype,_)|
+                !doc.declarations().any(|declaration| declaration.as_ref().map_or(false, |declaration| declaration.annotationtype == *annotationtype))
+            );
+            doc.apply_properties(DocumentProperties { declare: declare, processor: None, ..properties.clone() }).map_err(FoliaError::add_parseerror("Error applying properties"))?;
             if !emptybody {
                 doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
             }
+            doc.apply_properties(DocumentProperties { declare: declare_after, processor: None, ..properties.clone() }).map_err(FoliaError::add_parseerror("Error applying properties"))?;
+            if let Some(processor) = properties.processor {
+                let processor_key = doc.add_processor(processor).map_err(FoliaError::add_parseerror("Error applying properties"))?;
+                doc.activate_processor(processor_key);
+            }
             //the document must be complete
             loop {
                 match reader.read_namespaced_event(&mut buf, &mut nsbuf)? {
-- 
2.43.0


From 99f89b44c19aa4eccb6b3fd66d902769400cf3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 34/68] fix: processors occur only once in the provenance chain
 and have only one parent

---
 src/document.rs | 47 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index d3b3d67..bf87f0c 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -434,11 +434,18 @@ impl Document {
 
     ///Add an element to the provenance chain
     ///Returns the key
-    pub fn add_processor(&mut self, processor: Processor) -> Result<ProcKey, FoliaError> {
+    pub fn add_processor(&mut self, mut processor: Processor) -> Result<ProcKey, FoliaError> {
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
+        let existing_subprocessors: Vec<ProcKey> = self.take_existing_subprocessors(&mut processor)?;
+        processor.parent = None; //determined by where we add it
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
-            self.provenancestore.chain.push(child_key);
+            if self.get_processor(child_key).map_or(false, |processor| processor.parent.is_none()) && !self.provenancestore.chain.contains(&child_key) {
+                self.provenancestore.chain.push(child_key);
+            }
+            for subprocessor_key in existing_subprocessors {
+                self.attach_processor(child_key, subprocessor_key)?;
+            }
             for subprocessor in pending_subprocessors {
                 self.add_subprocessor(child_key, subprocessor)?;
             }
@@ -448,11 +455,19 @@ impl Document {
 
     ///Add a processor as a subprocessor
     ///Returns the key
-    pub fn add_subprocessor(&mut self, parent_key: ProcKey, processor: Processor) -> Result<ProcKey, FoliaError> {
+    pub fn add_subprocessor(&mut self, parent_key: ProcKey, mut processor: Processor) -> Result<ProcKey, FoliaError> {
+        if !self.get_processor(parent_key).is_some() {
+            return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
+        };
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
+        let existing_subprocessors: Vec<ProcKey> = self.take_existing_subprocessors(&mut processor)?;
+        processor.parent = None; //determined by where we add it
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
             self.attach_processor(parent_key, child_key)?;
+            for subprocessor_key in existing_subprocessors {
+                self.attach_processor(child_key, subprocessor_key)?;
+            }
             for subprocessor in pending_subprocessors {
                 self.add_subprocessor(child_key, subprocessor)?;
             }
@@ -460,6 +475,14 @@ impl Document {
         child_key
     }
 
+    ///Takes the existing subprocessors from a new processor (they are attached once it is added)
+    fn take_existing_subprocessors(&self, processor: &mut Processor) -> Result<Vec<ProcKey>, FoliaError> {
+        if let Some(missing) = processor.processors.iter().find(|key| self.get_processor(**key).is_none()) {
+            return Err(FoliaError::InternalError(format!("Child does not exist: {}", missing)));
+        }
+        Ok(std::mem::replace(&mut processor.processors, vec!()))
+    }
+
     ///Adds the processor element to the parent element, automatically takes care
     ///of removing the old parent (if any).
     pub fn attach_processor(&mut self, parent_key: ProcKey, child_key: ProcKey) -> Result<(),FoliaError> {
@@ -467,15 +490,29 @@ impl Document {
         if !self.get_processor(parent_key).is_some() {
             return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
         };
+        //a processor can't become part of itself
+        let mut ancestor_key = Some(parent_key);
+        while let Some(key) = ancestor_key {
+            if key == child_key {
+                return Err(FoliaError::ValidationError(format!("Can't attach processor {} to {}, as it would become part of itself", child_key, parent_key)));
+            }
+            ancestor_key = self.get_processor(key).and_then(|ancestor| ancestor.parent);
+        }
 
-        if let Some(child) = self.get_mut_processor(child_key) {
+        let oldparent_key = if let Some(child) = self.get_mut_processor(child_key) {
             //add the new parent and return the old parent
-            child.parent = Some(parent_key);
+            child.parent.replace(parent_key)
         } else {
             //child does not exist
             return Err(FoliaError::InternalError(format!("Child does not exist: {}", child_key)));
         };
 
+        //detach the child from wherever it was
+        self.provenancestore.chain.retain(|key| *key != child_key);
+        if let Some(oldparent) = oldparent_key.and_then(|key| self.get_mut_processor(key)) {
+            oldparent.processors.retain(|key| *key != child_key);
+        }
+
         if let Some(parent) = self.get_mut_processor(parent_key) {
             parent.processors.push(child_key);
         }
-- 
2.43.0


From 1f957305f812c8d1c1cc70d3f8a81b27eb415d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 35/68] fix: displaying an attribute type terminates

---
 src/attrib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 1b8508d..00dc547 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -64,7 +64,7 @@ impl Into<&str> for AttribType {
 
 impl fmt::Display for AttribType {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{}", self)
+        write!(f, "{}", Into::<&str>::into(*self))
     }
 }
 
-- 
2.43.0


From d3e0c1e4ab2f35fcce885846b54b267538904de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 36/68] fix: keep the tag attribute

---
 src/attrib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 00dc547..ea1bad6 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -100,6 +100,7 @@ pub enum Attribute {
     PageNr(String), //used by linebreak
     NewPage(bool), //used by linebreak
     XLinkType(String),
+    Tag(String),
 
     Processor(String),
     ProcessorRef(ProcKey), //encoded form
@@ -148,7 +149,7 @@ impl Attribute {
             Attribute::Id(s) | Attribute::Set(s) | Attribute::Class(s) | Attribute::Annotator(s) |
             Attribute::N(s) | Attribute::BeginTime(s) | Attribute::EndTime(s) |
             Attribute::Src(s) | Attribute::Speaker(s) | Attribute::Textclass(s) | Attribute::Metadata(s) | Attribute::Idref(s) |
-            Attribute::Processor(s) | Attribute::Href(s) | Attribute::Format(s) | Attribute::Subset(s) | Attribute::Text(s)| Attribute::Type(s) | Attribute::Ref(s) | Attribute::Original(s) | Attribute::Auth(s) | Attribute::XLinkType(s) | Attribute::PageNr(s)
+            Attribute::Processor(s) | Attribute::Href(s) | Attribute::Format(s) | Attribute::Subset(s) | Attribute::Text(s)| Attribute::Type(s) | Attribute::Ref(s) | Attribute::Original(s) | Attribute::Auth(s) | Attribute::XLinkType(s) | Attribute::PageNr(s) | Attribute::Tag(s)
                 => Ok(&s),
             Attribute::AnnotatorType(t) => Ok(t.as_str()),
             Attribute::Space(b) => { if *b { Ok("yes") } else { Ok("no") } },
@@ -225,7 +226,8 @@ impl Attribute {
             Attribute::Original(_) => AttribType::ORIGINAL,
             Attribute::LineNr(_) => AttribType::LINENR,
             Attribute::PageNr(_) => AttribType::PAGENR,
-            Attribute::NewPage(_) => AttribType::NEWPAGE
+            Attribute::NewPage(_) => AttribType::NEWPAGE,
+            Attribute::Tag(_) => AttribType::TAG
         }
     }
 
@@ -318,6 +320,9 @@ impl Attribute {
                 b"type" => {
                     Ok(Attribute::Type(value))
                 },
+                b"tag" => {
+                    Ok(Attribute::Tag(value))
+                },
                 b"auth" => {
                     Ok(Attribute::Auth(value))
                 },
-- 
2.43.0


From 752f836d46ebf629ef45c140f3ce6c6fe7366043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 37/68] fix: accept namespace declarations on elements

---
 src/attrib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index ea1bad6..7baa92b 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -370,7 +370,7 @@ impl Attribute {
                         _ => Err(FoliaError::ParseError(format!("Invalid space value: '{}'", value)))
                     }
                 },
-                b"typegroup" => { //used for explicit mode, does not need to be parsed
+                b"xmlns" | b"typegroup" => { //used for explicit mode (and a namespace declaration is not an attribute), does not need to be parsed
                     Ok(Attribute::Ignore)
                 },
                 attrib_key => {
-- 
2.43.0


From 940369335e7f3d6d481762ed21fd2b1d40e51ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 38/68] fix: report malformed attributes and tags as parse
 errors rather than panicking

---
 src/attrib.rs |  2 +-
 src/parser.rs | 58 +++++++++++++++++++++++++++------------------------
 2 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 7baa92b..09a451b 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -377,7 +377,7 @@ impl Attribute {
                     if attrib_key.contains(&58) { //58 is a colon, we assume alien namespaces and ignore it
                         Ok(Attribute::Ignore)
                     } else {
-                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", std::str::from_utf8(attrib.key).expect("unable to parse attribute name"))))
+                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", String::from_utf8_lossy(attrib.key))))
                     }
                 }
             }
diff --git a/src/parser.rs b/src/parser.rs
index 54700d0..af64c0a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -53,13 +53,13 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"FoLiA") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib: quick_xml::events::attributes::Attribute = attrib.unwrap();
+                                let attrib: quick_xml::events::attributes::Attribute = attrib?;
                                 match attrib.key {
                                     b"xml:id" => {
-                                        doc.id = attrib.unescape_and_decode_value(&reader).expect("Parsing ID")
+                                        doc.id = attrib.unescape_and_decode_value(&reader)?
                                     }
                                     b"version" => {
-                                        doc.version = attrib.unescape_and_decode_value(&reader).expect("Parsing version")
+                                        doc.version = attrib.unescape_and_decode_value(&reader)?
                                     },
                                     b"generator" | b"form " => {},  //we can ignore these
                                     _ => {}
@@ -135,7 +135,7 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping metadata attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"src" => {
@@ -145,7 +145,7 @@ impl Document {
                                             doc.metadata.metadatatype = Some(value);
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -165,14 +165,14 @@ impl Document {
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             meta_id = None;
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping meta attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"id" | b"xml:id" => {
                                             meta_id = Some(value.clone());
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -203,13 +203,13 @@ impl Document {
                             declaration_key = Some(result);
                         },
                         (Some(ns), tag) if ns == NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  String::from_utf8_lossy(tag)).to_string()));
                         },
                         (Some(ns),tag) if ns != NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                         _ => {
                             unreachable!()
@@ -315,10 +315,10 @@ impl Document {
                             //just ignore everything else for now
                         },*/
                         (Some(ns),tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                     }
                 },
@@ -373,7 +373,7 @@ impl Document {
                     (Some(ns), Event::Empty(ref e)) if ns == NSFOLIA => {
                         //EMPTY TAG FOUND (<tag/>)
                         //eprintln!("EMPTY TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
+                        let tagname = decode_tag(e.local_name())?;
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}/>", tagname))  )?;
@@ -398,7 +398,7 @@ impl Document {
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
                         //eprintln!("START TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
+                        let tagname = decode_tag(e.local_name())?;
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}>", tagname))  )?;
@@ -430,7 +430,7 @@ impl Document {
                         if let Some(elem) = self.get_elementdata(key) {
 
                             //verify we actually close the right thing (otherwise we have malformed XML)
-                            let elementname = str::from_utf8(e.local_name()).expect("Decoding XML tag from utf-8");
+                            let elementname = decode_tag(e.local_name())?;
                             let elementtype = ElementType::from_str(elementname)?;
                             if elem.elementtype != elementtype {
                                 return Err(FoliaError::ParseError(format!("Malformed XML? Invalid element closed: {}, expected: {}", elementname, elem.elementtype.to_string() )));
@@ -482,6 +482,10 @@ impl Document {
     }
 }
 
+fn decode_tag(tag: &[u8]) -> Result<&str, FoliaError> {
+    str::from_utf8(tag).map_err(|_| FoliaError::ParseError("Tag is not valid utf-8".to_string()))
+}
+
 fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
     if let Some(index) = tag.find("-") {
         let (declaration_type_string, suffix) = tag.split_at(index);
@@ -507,7 +511,7 @@ impl Processor {
         let mut processor = Processor::default();
         for attrib in event.attributes()  {
             if let Ok(attrib) = attrib {
-                let value = attrib.unescape_and_decode_value(&reader).expect("Parsing attribute value for processor");
+                let value = attrib.unescape_and_decode_value(&reader)?;
                 match  attrib.key {
                     b"xml:id" => { processor.id = value; },
                     b"name" => { processor.name = value; },
@@ -542,7 +546,7 @@ impl Processor {
                         }
                     }},
                     tag => {
-                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", str::from_utf8(tag).unwrap() )));
+                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
                     }
                 }
             }
@@ -558,7 +562,7 @@ impl Metadata {
         let mut id: Option<String> = None;
         let mut metadata = Metadata::default();
         for attrib in event.attributes() {
-            let attrib = attrib.expect("unwrapping submetadata attribute");
+            let attrib = attrib?;
             if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                 match attrib.key {
                     b"xml:id" => {
@@ -571,7 +575,7 @@ impl Metadata {
                         metadata.src = Some(value);
                     },
                     otherwise => {
-                        eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                        eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
                     }
                 }
             }
@@ -588,7 +592,7 @@ impl ElementData {
         let mut attributes: Vec<Attribute> = Vec::new();
         let mut children: Vec<ElementData> = Vec::new();
         'outerloop: for attrib in attribiter {
-            let attrib = &attrib.expect("Parsing XML attribute");
+            let attrib = &attrib?;
             match Attribute::parse(&reader, attrib) {
                 //normal behaviour
                 Ok(attrib) => { attributes.push(attrib); },
@@ -602,7 +606,7 @@ impl ElementData {
                             if let AcceptedData::AcceptElementType(acceptedtype) = accepteddata {
                                 if featuregroup.contains(*acceptedtype) {
                                     let properties = Properties::new(*acceptedtype);
-                                    if properties.subset.is_some() && str::from_utf8(attrib.key).unwrap() == properties.subset.unwrap() {
+                                    if properties.subset.is_some() && attrib.key == properties.subset.unwrap().as_bytes() {
                                         let child = ElementData::new(ElementType::Feature).
                                                                 with_attribs(vec![
                                                                     Attribute::Subset(properties.subset.unwrap().to_string()),
@@ -626,7 +630,7 @@ impl ElementData {
     ///Parse this element from XML, note that this does not handle the child elements, those are
     ///appended by the main parser in Document::parse_body()
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(ElementData,Vec<ElementData>), FoliaError> {
-        let elementname = str::from_utf8(event.local_name()).expect("utf-8 decoding");
+        let elementname = decode_tag(event.local_name())?;
         let elementtype = ElementType::from_str(elementname)?;
         let (attributes, children) = ElementData::parse_attributes(reader, event.attributes(), elementtype)
                                      .map_err(FoliaError::add_parseerror_string(format!("Error parsing attributes for {}", elementname)))?;
@@ -639,14 +643,14 @@ impl Declaration {
     pub(crate) fn parse_annotator<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Option<String>, FoliaError> {
         let mut processor_id: Option<String> = None;
         for attrib in event.attributes() {
-            let attrib = attrib.expect("unwrapping annotator attribute");
+            let attrib = attrib?;
             if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                 match attrib.key {
                     b"processor" => {
                         processor_id = Some(value);
                     },
                     otherwise => {
-                        eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
+                        eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
                     }
                 }
             }
@@ -655,12 +659,12 @@ impl Declaration {
     }
 
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart, tag: &[u8]) -> Result<Declaration, FoliaError> {
-        let declaration_type = get_declaration_type(str::from_utf8(tag).expect("utf-8 decoding"))?;
+        let declaration_type = get_declaration_type(decode_tag(tag)?)?;
         let mut set: Option<String> = None;
         let mut alias: Option<String> = None;
         let mut format: Option<String> = None;
         for attrib in event.attributes() {
-            let attrib = attrib.expect("unwrapping declaration attribute");
+            let attrib = attrib?;
             if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                 match attrib.key {
                     b"set" => {
@@ -679,7 +683,7 @@ impl Declaration {
                         //TODO: handle old-style default
                     },
                     otherwise => {
-                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",str::from_utf8(otherwise).unwrap());
+                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
                     }
                 }
             }
-- 
2.43.0


From 4612cf8ef24423f199f3918b7e9e4a53aad7983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:40 +0000
Subject: [PATCH 39/68] fix: keep metadata with an empty value that is written
 as an empty element

---
 src/parser.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index af64c0a..639626c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -122,6 +122,25 @@ impl Document {
                             let (submetadata_id, data) = Metadata::parse_submetadata(&reader, &e)?;
                             doc.submetadata.insert(submetadata_id, data);
                         },
+                        (Some(ns), b"meta") if ns == NSFOLIA => {
+                            //metadata with an empty value
+                            let mut empty_meta_id: Option<String> = None;
+                            for attrib in e.attributes() {
+                                let attrib = attrib?;
+                                if attrib.key == b"id" || attrib.key == b"xml:id" {
+                                    empty_meta_id = Some(attrib.unescape_and_decode_value(&reader)?);
+                                }
+                            }
+                            if let Some(empty_meta_id) = empty_meta_id {
+                                if let Some(processor) = processor_stack.last().map(|key| *key).and_then(|key| doc.get_mut_processor(key)) {
+                                    processor.metadata.data.insert(empty_meta_id, String::new());
+                                } else if let Some(submetadata) = submetadata.as_ref().and_then(|id| doc.submetadata.get_mut(id)) {
+                                    submetadata.data.insert(empty_meta_id, String::new());
+                                } else {
+                                    doc.metadata.data.insert(empty_meta_id, String::new());
+                                }
+                            }
+                        },
                         (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
                             //declaration without annotators
                             let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
-- 
2.43.0


From e56d7531cb4a44b60d682efcb534bf2d2d5e5f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 40/68] fix: resolve annotators if declarations come after the
 provenance

---
 src/parser.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 639626c..50c3bc0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -253,15 +253,7 @@ impl Document {
                             submetadata = None;
                         },
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
-                            break;
-                        },
-                        (Some(ns), b"annotations") if ns == NSFOLIA => {
-                            parsedeclarations = false;
-                        },
-                        (Some(ns), b"provenance") if ns == NSFOLIA => {
-                            parseprovenance = false;
-
-                            //we are done with provenance, we can now assign processors to
+                            //we are done with the declarations and provenance, we can now assign processors to
                             //declarations using our temporary structure
                             for (dec_key, processor_id) in annotators.iter() {
                                 if let Some(processor_key) = doc.get_processor_key_by_id(processor_id) {
@@ -270,6 +262,13 @@ impl Document {
                                     }
                                 }
                             }
+                            break;
+                        },
+                        (Some(ns), b"annotations") if ns == NSFOLIA => {
+                            parsedeclarations = false;
+                        },
+                        (Some(ns), b"provenance") if ns == NSFOLIA => {
+                            parseprovenance = false;
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             processor_stack.pop();
-- 
2.43.0


From 80f3e5f23a18aec2dbb6aefa7d16cecf7f1d51ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 41/68] fix: accept metadata that is written as an empty
 element

---
 src/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 50c3bc0..1be2b92 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -117,6 +117,18 @@ impl Document {
                                 }
                             }
                         },
+                        (Some(ns), b"metadata") if ns == NSFOLIA => {
+                            //no declarations nor anything else
+                            for attrib in e.attributes() {
+                                let attrib = attrib?;
+                                match attrib.key {
+                                    b"src" => { doc.metadata.src = Some(attrib.unescape_and_decode_value(&reader)?); },
+                                    b"type" => { doc.metadata.metadatatype = Some(attrib.unescape_and_decode_value(&reader)?); },
+                                    _ => {}
+                                }
+                            }
+                            break;
+                        },
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
                             //submetadata without key/value pairs (e.g. external metadata)
                             let (submetadata_id, data) = Metadata::parse_submetadata(&reader, &e)?;
-- 
2.43.0


From 711c183d1c7bf5f6844db35e6e8a3032e0d240c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 42/68] fix: indentation does not alter text with markup

---
 src/serialiser.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 4388f6a..34551bd 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -27,6 +27,11 @@ fn to_serialisation_error(err: quick_xml::Error) -> FoliaError {
     FoliaError::SerialisationError(format!("{}",err))
 }
 
+///Prevents the writer from inserting whitespace prior to the next event
+fn suppress_indent(writer: &mut Writer<Cursor<Vec<u8>>>) -> Result<(), FoliaError> {
+    writer.write_event(Event::Text(BytesText::from_plain(b""))).map_err(to_serialisation_error)
+}
+
 impl Document {
     ///Serialises a document to XML (vector of bytes, utf-8)
     pub fn xml(&self, root_key: ElementKey, indent: usize) -> Result<Vec<u8>, FoliaError> {
@@ -232,7 +237,10 @@ impl Document {
         let mut last_start: String = "<ROOT>".to_string();
         for item in self.select_data_by_key(root_key,Selector::all_data(),Recursion::Always, true, false) {
             while item.depth < previous_depth {
-                if let Some((end,elementtype,_)) = stack.pop() {
+                if let Some((end,elementtype,preserve)) = stack.pop() {
+                    if preserve {
+                        suppress_indent(writer)?;
+                    }
                     writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
                     if !ElementGroup::TextMarkup.contains(elementtype) && !stack.last().map_or(false, |(_,_,preserve)| *preserve) {
                         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
@@ -243,6 +251,9 @@ impl Document {
                 }
                 previous_depth -= 1;
             }
+            if stack.last().map_or(false, |(_,_,preserve)| *preserve) {
+                suppress_indent(writer)?;
+            }
             match item.data {
                 DataType::Element(key) => {
                     if let Some(element) = self.get_element(*key) {
@@ -328,7 +339,10 @@ impl Document {
         }
 
         //don't forget the final closing elements
-        while let Some((end, _elementtype, _)) = stack.pop() {
+        while let Some((end, _elementtype, preserve)) = stack.pop() {
+            if preserve {
+                suppress_indent(writer)?;
+            }
             writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
             //eprintln!("[DEBUG] <-- Popped final end tag {}", tagstring.as_str());
         }
-- 
2.43.0


From 66f00edd143ff541b4bc955423ea0098c70debfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 43/68] fix: keep whitespace in text content

---
 src/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1be2b92..9dd2dd4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -471,7 +471,7 @@ impl Document {
                     },
                     (None, Event::Text(s)) => {
                         let text = s.unescape_and_decode(reader)?;
-                        if text.trim() != "" {
+                        if text.trim() != "" || (!text.is_empty() && self.is_textual(stack.last())) {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
                                     parent.push(DataType::Text(text));
@@ -481,7 +481,7 @@ impl Document {
                     },
                     (None, Event::CData(s)) => {
                         let text = reader.decode(&s)?;
-                        if text.trim() != "" {
+                        if text.trim() != "" || (!text.is_empty() && self.is_textual(stack.last())) {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
                                     parent.push(DataType::Text(text.to_string()));
@@ -510,6 +510,14 @@ impl Document {
             Err(FoliaError::InternalError("No root element".to_string()))
         }
     }
+
+    ///Tests if whitespace is significant in this element
+    fn is_textual(&self, key: Option<&ElementKey>) -> bool {
+        key.and_then(|key| self.get_elementdata(*key)).map_or(false, |element| {
+            let properties = self.props(element.elementtype);
+            properties.textcontainer || properties.phoncontainer
+        })
+    }
 }
 
 fn decode_tag(tag: &[u8]) -> Result<&str, FoliaError> {
-- 
2.43.0


From 442af60d6f8300436493e7120d3980ccbb14f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 44/68] fix: accept references to words that come later in the
 document

---
 src/parser.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9dd2dd4..d41f5b3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -397,6 +397,7 @@ impl Document {
     pub(crate) fn parse_elements<R: BufRead>(&mut self, reader: &mut Reader<R>, mut buf: &mut Vec<u8>, mut nsbuf: &mut Vec<u8>) -> Result<(), FoliaError> {
         if !self.elementstore.items.is_empty() {
             let mut stack: Vec<ElementKey> = vec![0]; //0 is the root/body element, we always start with it
+            let mut forward_references: Vec<(ElementKey,Vec<ElementKey>)> = Vec::new(); //references to elements that are yet to come
             loop {
                 let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
                 match e {
@@ -423,7 +424,11 @@ impl Document {
                             let child_key = self.add(child, Some(key))?;
                             self.attach_element(key, child_key)?;
                         }
-                        self.post_add(key, Some(&stack))?;
+                        if self.is_forward_reference(key) {
+                            forward_references.push((key, stack.clone()));
+                        } else {
+                            self.post_add(key, Some(&stack))?;
+                        }
                     },
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
@@ -456,7 +461,11 @@ impl Document {
                             break;
                         }
                         let key = stack.pop().unwrap();
-                        self.post_add(key, Some(&stack))?;
+                        if self.is_forward_reference(key) {
+                            forward_references.push((key, stack.clone()));
+                        } else {
+                            self.post_add(key, Some(&stack))?;
+                        }
                         if let Some(elem) = self.get_elementdata(key) {
 
                             //verify we actually close the right thing (otherwise we have malformed XML)
@@ -505,12 +514,22 @@ impl Document {
                     (_,_) => {}
                 }
             };
+            for (key, stack) in forward_references {
+                self.post_add(key, Some(&stack))?;
+            }
             Ok(())
         } else {
             Err(FoliaError::InternalError("No root element".to_string()))
         }
     }
 
+    ///Tests if this is a reference to an element that is not parsed yet
+    fn is_forward_reference(&self, key: ElementKey) -> bool {
+        self.get_elementdata(key).map_or(false, |element| {
+            element.elementtype == ElementType::WordReference && element.idref().map_or(false, |idref| self.get_element_key_by_id(idref).is_none())
+        })
+    }
+
     ///Tests if whitespace is significant in this element
     fn is_textual(&self, key: Option<&ElementKey>) -> bool {
         key.and_then(|key| self.get_elementdata(*key)).map_or(false, |element| {
-- 
2.43.0


From d8abb38637a4ed29cacaa5a731478f52d857943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:38 +0000
Subject: [PATCH 45/68] fix: resolve set aliases

---
 src/document.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index bf87f0c..32412f3 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -532,6 +532,13 @@ impl Document {
         //first we simply check the index
         let mut declaration_key: Option<DecKey> = <Self as Store<Declaration,DecKey>>::id_to_key(self,Declaration::index_id(annotationtype, &set.as_ref().map(String::as_str)  ).as_str());
 
+        //The set may be an alias
+        if declaration_key.is_none() && set.is_some() {
+            declaration_key = self.declarations().filter_map(|declaration| declaration.as_ref())
+                .find(|declaration| declaration.annotationtype == annotationtype && declaration.alias == *set)
+                .and_then(|declaration| declaration.key);
+        }
+
         //If not found, we search for a default
         if declaration_key.is_some() {
             //already found
-- 
2.43.0


From f1abe9111d6a9ef418d568b656bb925c5942d4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:56 +0000
Subject: [PATCH 46/68] fix: annotations without set, class and processor
 inherit those of the declaration

---
 src/element.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/element.rs b/src/element.rs
index a1b1e94..ffae6b3 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -92,7 +92,9 @@ impl Storable<ElementKey> for ElementData {
                     return true
             }
         }
-        false
+        //annotations without any of those inherit the set and processor from the declaration (if not encoded already)
+        self.elementtype.annotationtype().map_or(false, |annotationtype| annotationtype.elementtype() == self.elementtype) &&
+            !self.attribs.iter().any(|attrib| attrib.decodable())
     }
 
     ///Returns the key of the current element
-- 
2.43.0


From d8338422242d95a3f4ce9401a5d8d20894052edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 47/68] fix: an annotator that is listed twice counts once

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index d41f5b3..0d3e6b6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -270,7 +270,9 @@ impl Document {
                             for (dec_key, processor_id) in annotators.iter() {
                                 if let Some(processor_key) = doc.get_processor_key_by_id(processor_id) {
                                     if let Some(declaration) = doc.get_mut_declaration(*dec_key) {
-                                        declaration.processors.push(processor_key);
+                                        if !declaration.processors.contains(&processor_key) {
+                                            declaration.processors.push(processor_key);
+                                        }
                                     }
                                 }
                             }
-- 
2.43.0


From 5583aa5267129eef595d3f20f15a6e178d83993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 48/68] fix: refuse malformed attribute values in the metadata

---
 src/parser.rs | 190 ++++++++++++++++++++++++--------------------------
 1 file changed, 92 insertions(+), 98 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0d3e6b6..3d271cd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -167,17 +167,16 @@ impl Document {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"src" => {
-                                            doc.metadata.src = Some(value);
-                                        },
-                                        b"type" => {
-                                            doc.metadata.metadatatype = Some(value);
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
-                                        }
+                                let value = attrib.unescape_and_decode_value(&reader)?;
+                                match attrib.key {
+                                    b"src" => {
+                                        doc.metadata.src = Some(value);
+                                    },
+                                    b"type" => {
+                                        doc.metadata.metadatatype = Some(value);
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -197,14 +196,13 @@ impl Document {
                             meta_id = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"id" | b"xml:id" => {
-                                            meta_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
-                                        }
+                                let value = attrib.unescape_and_decode_value(&reader)?;
+                                match attrib.key {
+                                    b"id" | b"xml:id" => {
+                                        meta_id = Some(value.clone());
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -569,44 +567,43 @@ impl Processor {
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Processor, FoliaError> {
         let mut processor = Processor::default();
         for attrib in event.attributes()  {
-            if let Ok(attrib) = attrib {
-                let value = attrib.unescape_and_decode_value(&reader)?;
-                match  attrib.key {
-                    b"xml:id" => { processor.id = value; },
-                    b"name" => { processor.name = value; },
-                    b"version" => { processor.version = value; },
-                    b"folia_version" => { processor.folia_version = value; },
-                    b"document_version" => { processor.document_version = value; },
-                    b"command" => { processor.command = value; },
-                    b"host" => { processor.host = value; },
-                    b"user" => { processor.user = value; },
-                    b"begindatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
-                            Ok(dt) => processor.begindatetime = Some(dt),
-                            Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
-                        };
-                    },
-                    b"enddatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
-                            Ok(dt) => processor.enddatetime = Some(dt),
-                            Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
-                        };
-                    },
-                    b"src" => { processor.src = value; },
-                    b"format" => { processor.format = value; },
-                    b"resourcelink" => { processor.resourcelink = value; },
-                    b"type" => { match value.as_str() {
-                        "manual" => processor.processortype = ProcessorType::Manual,
-                        "auto" => processor.processortype = ProcessorType::Auto,
-                        "generator" => processor.processortype = ProcessorType::Generator,
-                        "datasource" => processor.processortype = ProcessorType::DataSource,
-                        _ => {
-                            return Err(FoliaError::ParseError(format!("Invalid processor type: {:?}", value )));
-                        }
-                    }},
-                    tag => {
-                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
+            let attrib = attrib?;
+            let value = attrib.unescape_and_decode_value(&reader)?;
+            match  attrib.key {
+                b"xml:id" => { processor.id = value; },
+                b"name" => { processor.name = value; },
+                b"version" => { processor.version = value; },
+                b"folia_version" => { processor.folia_version = value; },
+                b"document_version" => { processor.document_version = value; },
+                b"command" => { processor.command = value; },
+                b"host" => { processor.host = value; },
+                b"user" => { processor.user = value; },
+                b"begindatetime" => {
+                    match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
+                        Ok(dt) => processor.begindatetime = Some(dt),
+                        Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
+                    };
+                },
+                b"enddatetime" => {
+                    match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
+                        Ok(dt) => processor.enddatetime = Some(dt),
+                        Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
+                    };
+                },
+                b"src" => { processor.src = value; },
+                b"format" => { processor.format = value; },
+                b"resourcelink" => { processor.resourcelink = value; },
+                b"type" => { match value.as_str() {
+                    "manual" => processor.processortype = ProcessorType::Manual,
+                    "auto" => processor.processortype = ProcessorType::Auto,
+                    "generator" => processor.processortype = ProcessorType::Generator,
+                    "datasource" => processor.processortype = ProcessorType::DataSource,
+                    _ => {
+                        return Err(FoliaError::ParseError(format!("Invalid processor type: {:?}", value )));
                     }
+                }},
+                tag => {
+                    return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
                 }
             }
         }
@@ -622,20 +619,19 @@ impl Metadata {
         let mut metadata = Metadata::default();
         for attrib in event.attributes() {
             let attrib = attrib?;
-            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                match attrib.key {
-                    b"xml:id" => {
-                        id = Some(value);
-                    },
-                    b"type" => {
-                        metadata.metadatatype = Some(value);
-                    },
-                    b"src" => {
-                        metadata.src = Some(value);
-                    },
-                    otherwise => {
-                        eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
-                    }
+            let value = attrib.unescape_and_decode_value(&reader)?;
+            match attrib.key {
+                b"xml:id" => {
+                    id = Some(value);
+                },
+                b"type" => {
+                    metadata.metadatatype = Some(value);
+                },
+                b"src" => {
+                    metadata.src = Some(value);
+                },
+                otherwise => {
+                    eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
                 }
             }
         }
@@ -703,14 +699,13 @@ impl Declaration {
         let mut processor_id: Option<String> = None;
         for attrib in event.attributes() {
             let attrib = attrib?;
-            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                match attrib.key {
-                    b"processor" => {
-                        processor_id = Some(value);
-                    },
-                    otherwise => {
-                        eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
-                    }
+            let value = attrib.unescape_and_decode_value(&reader)?;
+            match attrib.key {
+                b"processor" => {
+                    processor_id = Some(value);
+                },
+                otherwise => {
+                    eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
                 }
             }
         }
@@ -724,26 +719,25 @@ impl Declaration {
         let mut format: Option<String> = None;
         for attrib in event.attributes() {
             let attrib = attrib?;
-            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                match attrib.key {
-                    b"set" => {
-                        set = Some(value.clone());
-                    },
-                    b"alias" => {
-                        alias = Some(value.clone());
-                    },
-                    b"format" => {
-                        format = Some(value.clone());
-                    },
-                    b"annotator" => {
-                        //TODO: handle old-style default
-                    },
-                    b"annotatortype" => {
-                        //TODO: handle old-style default
-                    },
-                    otherwise => {
-                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
-                    }
+            let value = attrib.unescape_and_decode_value(&reader)?;
+            match attrib.key {
+                b"set" => {
+                    set = Some(value.clone());
+                },
+                b"alias" => {
+                    alias = Some(value.clone());
+                },
+                b"format" => {
+                    format = Some(value.clone());
+                },
+                b"annotator" => {
+                    //TODO: handle old-style default
+                },
+                b"annotatortype" => {
+                    //TODO: handle old-style default
+                },
+                otherwise => {
+                    eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
                 }
             }
         }
-- 
2.43.0


From cb3d47b2a4c321675ce046e03701fcf2712df7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 49/68] fix: serialise the set of a feature if it differs from
 that of its annotation

---
 src/document.rs   | 2 +-
 src/serialiser.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 32412f3..a63e087 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -747,7 +747,7 @@ impl Document {
     ///Resolves the annotation type that applies in the specified context, i.e. that of the closest
     ///element (the context element itself or one of its ancestors) that has one, along with that element's
     ///declaration (if any)
-    fn get_annotation_context(&self, context: Option<ElementKey>) -> Option<(AnnotationType, Option<DecKey>)> {
+    pub(crate) fn get_annotation_context(&self, context: Option<ElementKey>) -> Option<(AnnotationType, Option<DecKey>)> {
         let mut context = context;
         while let Some(element) = context.and_then(|key| self.get_elementdata(key)) {
             if let Some(annotationtype) = element.elementtype.annotationtype() {
diff --git a/src/serialiser.rs b/src/serialiser.rs
index 34551bd..155b8ac 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -267,8 +267,11 @@ impl Document {
                             }
                         }
                         if let Some(declaration_key) = element.declaration_key() {
+                            //features are in the set of the annotation they are part of, unless specified otherwise
+                            let inherits_set = element.elementtype() == ElementType::Feature &&
+                                self.get_annotation_context(element.parent_key()).map_or(false, |(_,context_key)| context_key == Some(declaration_key));
                             //check if the declaration is the default, no need to serialise set then
-                            if !dec_is_default.get(declaration_key as usize).expect("checking default")  && element.elementtype() != ElementType::Feature {
+                            if !dec_is_default.get(declaration_key as usize).expect("checking default")  && !inherits_set {
                                 //decode encoded attributes
                                 if let Some(set) = element.set() {
                                     start.push_attribute(("set", set) );
-- 
2.43.0


From 67e0d10f15a717354ad6bbe29fd6a98f2010d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 50/68] fix: the class of a feature without subset is not one
 of the annotation's classes

---
 src/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index ffae6b3..8d5fd05 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -309,8 +309,8 @@ pub trait ReadElement {
     fn class(&self) -> Option<&str> {
         if let Some(class_key) =  self.class_key() {
             if let Some(declaration) = self.get_declaration() {
-                if self.subset_key().is_some() { //we have a subset (this happens on ElementType::Feature only)
-                    //class is a subclass
+                if self.elementtype() == ElementType::Feature {
+                    //class is a subclass (also if there is no subset)
                     return declaration.get_subclass(class_key);
                 } else {
                     //class is a normal class
-- 
2.43.0


From da8178b79c329ffb6d27bdf4480e087fe97dab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 51/68] fix: do not escape CDATA

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3d271cd..8d7e94b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -252,7 +252,7 @@ impl Document {
                     }
                 },
                 (None, Event::CData(s)) => {
-                    let text_s = reader.decode(&s)?;
+                    let text_s = s.unescape_and_decode(reader)?; //(quick-xml escapes CDATA)
                     if let Some(text) = text.as_mut() {
                         text.push_str(&text_s);
                     }
@@ -489,7 +489,7 @@ impl Document {
                         }
                     },
                     (None, Event::CData(s)) => {
-                        let text = reader.decode(&s)?;
+                        let text = s.unescape_and_decode(reader)?; //(quick-xml escapes CDATA)
                         if text.trim() != "" || (!text.is_empty() && self.is_textual(stack.last())) {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
-- 
2.43.0


From 483c1efcea2717c7db1572062205d96b3a8d15a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 52/68] fix: serialise the set and processor of elements that
 would otherwise lose them

---
 src/serialiser.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 155b8ac..e17ead9 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -19,6 +19,7 @@ use crate::store::*;
 use crate::elementstore::*;
 use crate::metadata::*;
 use crate::select::*;
+use crate::query::*;
 use crate::document::Document;
 
 const NL: &[u8] = b"\n";
@@ -219,6 +220,21 @@ impl Document {
     }
 
     ///Serialize elements to XML
+    ///Tests if an element has its declaration even if it has no set, class or processor: it is the
+    ///annotation itself or a layer that takes its set from the annotations in it
+    fn implies_declaration(&self, element: &Element) -> bool {
+        let annotationtype = match element.elementtype().annotationtype() {
+            Some(annotationtype) => annotationtype,
+            None => return false
+        };
+        annotationtype.elementtype() == element.elementtype() || (
+            ElementGroup::Layer.contains(element.elementtype()) &&
+            element.select(Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span)), Recursion::Always).any(|span|
+                span.elementtype().annotationtype() == Some(annotationtype) && span.declaration_key() == element.declaration_key()
+            )
+        )
+    }
+
     pub(crate) fn xml_elements(&self, writer: &mut Writer<Cursor<Vec<u8>>>, root_key: ElementKey) -> Result<(), FoliaError> {
         match self.get_elementdata(root_key) {
             None => return Err(FoliaError::SerialisationError(format!("Element to serialise does not exist: {}", root_key))),
@@ -271,10 +287,15 @@ impl Document {
                             let inherits_set = element.elementtype() == ElementType::Feature &&
                                 self.get_annotation_context(element.parent_key()).map_or(false, |(_,context_key)| context_key == Some(declaration_key));
                             //check if the declaration is the default, no need to serialise set then
-                            if !dec_is_default.get(declaration_key as usize).expect("checking default")  && !inherits_set {
+                            let is_default_set = inherits_set || *dec_is_default.get(declaration_key as usize).expect("checking default");
+                            //...unless nothing else would associate the element with its declaration
+                            let implied = element.class().is_some() || element.subset().is_some() || self.implies_declaration(&element);
+                            let mut has_set = false;
+                            if !is_default_set || !(implied || element.processor().is_some()) {
                                 //decode encoded attributes
                                 if let Some(set) = element.set() {
                                     start.push_attribute(("set", set) );
+                                    has_set = true;
                                 }
                             }
                             if let Some(subset) = element.subset() {
@@ -296,7 +317,8 @@ impl Document {
                                     false
                                 };
 
-                                if !is_default {
+                                //(elements without annotation type have no default processor)
+                                if !is_default || element.elementtype().annotationtype().is_none() || !(implied || has_set) {
                                     start.push_attribute(("processor", processor) );
                                 }
                             }
-- 
2.43.0


From b0fc64ad5608f3b13086f3d7c39b4d906f28285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 53/68] fix: reuse the annotation layer when the set of a span
 annotation is given by its alias

---
 src/document.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index a63e087..c7c1390 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -605,7 +605,16 @@ impl Document {
                 //get the set
                 let set_ref = &element.set()?;
                 if let Some(s) = set_ref {
-                    set = Some(s.to_string());
+                    //the set may be an alias
+                    let annotationtype = element.elementtype.annotationtype();
+                    let declaration = self.declarations().filter_map(|declaration| declaration.as_ref())
+                        .filter(|declaration| Some(declaration.annotationtype) == annotationtype)
+                        .find(|declaration| declaration.alias.as_ref().map(String::as_str) == Some(*s));
+                    let declared = self.get_declaration_by_id(&Declaration::index_id(annotationtype.expect("annotation type"), set_ref)).is_some();
+                    set = match declaration {
+                        Some(declaration) if !declared => declaration.set.clone(),
+                        _ => Some(s.to_string())
+                    };
                 } else {
                     if let Some(s) = self.get_default_set(element.elementtype.annotationtype().expect("annotation type")) {
                         set = Some(s.to_string());
-- 
2.43.0


From 4f6c59e0e29c936c4b155013b86a20309df83cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:37 +0000
Subject: [PATCH 54/68] fix: match sets, and classes of features, in queries by
 what they are

---
 src/document.rs |  2 +-
 src/select.rs   | 75 ++++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 66 insertions(+), 11 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index c7c1390..71a9511 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -382,7 +382,7 @@ impl Document {
                         //Do we have a set already?
                         if !element.has_attrib(AttribType::SET) {
                             //Find out the set from the child elements
-                            let query = Query::select().elementgroup(Cmp::Is(ElementGroup::Span)).set(Cmp::Some);
+                            let query = Query::select().elementgroup(Cmp::Is(ElementGroup::Span));
                             let selector = Selector::from_query(self, &query)?;
                             for spanelement in self.get_element(element_key).expect("getting element").select(selector, Recursion::Always) {
                                 if spanelement.elementtype().annotationtype() == elementtype.annotationtype() {
diff --git a/src/select.rs b/src/select.rs
index 79bb374..d983b51 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -41,6 +41,36 @@ impl Selector {
     ///Builds a new selector given a query and a document (effectively encoding the query into a
     ///selector for the specified document)
     pub fn from_query(document: &Document, query: &Query) -> Result<Self,FoliaError> {
+        let elementtype_source: &Cmp<ElementType> = match &query.subset {
+            Cmp::Some | Cmp::Is(_) =>  &query.contexttype,
+            _ => &query.elementtype,
+        };
+        let annotationtype = match elementtype_source {
+            Cmp::Is(elementtype) => elementtype.annotationtype(),
+            _ => None
+        };
+        if let (Cmp::Is(set), None) = (&query.set, annotationtype) {
+            //the set may be declared for various annotation types
+            let mut selectors: Vec<Selector> = Vec::new();
+            for declaration in document.declarations().filter_map(|declaration| declaration.as_ref()) {
+                if let (true, Some(dec_key)) = (declaration.set.as_ref() == Some(set), declaration.key) {
+                    selectors.push(Self::from_query_with_set(document, query, Some(dec_key))?);
+                    if let (Cmp::Is(_), Cmp::Any) | (Cmp::Is(_), Cmp::Some) = (&query.class, &query.elementtype) {
+                        //features have classes of their own
+                        let query = query.clone().element(Cmp::Is(ElementType::Feature));
+                        selectors.push(Self::from_query_with_set(document, &query, Some(dec_key))?);
+                    }
+                }
+            }
+            if let Some(selector) = selectors.pop() {
+                return Ok(selectors.into_iter().fold(selector, |selector, next| selector.and(next)));
+            }
+        }
+        Self::from_query_with_set(document, query, None)
+    }
+
+    ///Builds a new selector given a query and a document and (optionally) the declaration that holds the query's set.
+    fn from_query_with_set(document: &Document, query: &Query, dec_key: Option<DecKey>) -> Result<Self,FoliaError> {
         let mut selector = Selector::default();
         selector.elementtype = query.elementtype.clone();
         selector.elementgroup = query.elementgroup.clone();
@@ -57,7 +87,9 @@ impl Selector {
                 //encode the set from the query, given the document, if this fails then the set is
                 //unmatchable
                 let mut result: Cmp<DecKey> = Cmp::Unmatchable; //will try to falsify this
-                if let Cmp::Is(elementtype) = elementtype_source {
+                if let Some(deckey) = dec_key {
+                    result = Cmp::Is(deckey);
+                } else if let Cmp::Is(elementtype) = elementtype_source {
                     if let Some(annotationtype) = elementtype.annotationtype() {
                         if let Some(deckey) = document.get_declaration_key_by_id(&Declaration::index_id(annotationtype,&Some(set.as_str()))) {
                             result = Cmp::Is(deckey);
@@ -69,9 +101,9 @@ impl Selector {
             Cmp::Any => Cmp::Any,
             Cmp::Some => Cmp::Some,
             Cmp::None => {
-                //even though set is None, we obtain the associated declaration
-                let mut result: Cmp<DecKey> = Cmp::Unmatchable; //will try to falsify this
-                if let Cmp::Is(elementtype) = elementtype_source {
+                //even though set is None, classes and subsets are those of the associated declaration (if there is one)
+                let mut result: Cmp<DecKey> = Cmp::None;
+                if let (Cmp::Is(elementtype), Cmp::Is(_), _) | (Cmp::Is(elementtype), _, Cmp::Is(_)) = (elementtype_source, &query.class, &query.subset) {
                     if let Some(annotationtype) = elementtype.annotationtype() {
                         if let Some(deckey) = document.get_declaration_key_by_id(&Declaration::index_id(annotationtype,&None)) {
                             result = Cmp::Is(deckey);
@@ -92,7 +124,7 @@ impl Selector {
                             result = Cmp::Is(subset_key);
                         }
                     }
-                } else {
+                } else if selector.set != Cmp::Unmatchable {
                     return Err(FoliaError::QueryError(format!("Selector::from_query() can't match on a subset without a contexttype and a set, Add a .contextype() and .set() call. (selector.contexttype={:?}, selector.set={:?})",selector.contexttype, selector.set) ));
                 }
                 result
@@ -116,21 +148,26 @@ impl Selector {
                         }
                         default_key
                     },
-                    (Cmp::Any, _) | (Cmp::Some, _) => {
+                    (Cmp::None, Cmp::Is(elementtype)) if elementtype.annotationtype().is_some() => None,
+                    (Cmp::Any, _) | (Cmp::Some, _) | (Cmp::None, _) => {
                         return Err(FoliaError::QueryError(format!("Selector::from_query() can't match on class {} without an element type and a set. Add a .element() and .set() call.", class)));
                     },
                     _ => None
                 };
                 if let Some(deckey) = deckey {
+                    if selector.set == Cmp::Any {
+                        //the class key only has a meaning within this declaration
+                        selector.set = Cmp::Is(deckey);
+                    }
                     if let Some(declaration) = document.get_declaration(deckey) {
-                        match selector.subset {
-                            Cmp::Is(_) | Cmp::Some =>  {
+                        match selector.selects_subclass() {
+                            true =>  {
                                 //we have a subset, so we assume the class is a subclass and encode it as such
                                 if let Some(class_key) = declaration.subclass_key(class.as_str()) {
                                     result = Cmp::Is(class_key);
                                 }
                             },
-                            _ =>  {
+                            false =>  {
                                 //normal class
                                 if let Some(class_key) = declaration.class_key(class.as_str()) {
                                     result = Cmp::Is(class_key);
@@ -231,6 +268,14 @@ impl Selector {
         self.next.as_ref().map_or(false, |next| next.matchable())
     }
 
+    ///Is the class that is selected on a class of a feature (rather than of an annotation)?
+    fn selects_subclass(&self) -> bool {
+        match self.subset {
+            Cmp::Is(_) | Cmp::Some => true,
+            _ => self.elementtype == Cmp::Is(ElementType::Feature)
+        }
+    }
+
     ///Tests if the selector matches against the specified data item, given an element store.
     ///There is no need to invoke this directly if you use a ``SelectIterator``.
     pub fn matches(&self, document: &Document, item: &DataType) -> bool {
@@ -248,9 +293,19 @@ impl Selector {
                     //we do explicit checks against Cmp::Any prior to calling matches() to speed things up
                     matches &&
                     (self.elementtype == Cmp::Any || self.elementtype.matches(Some(&element.elementtype()))) &&
-                    (self.set == Cmp::Any || self.set.matches(element.declaration_key().as_ref())) &&
+                    (match self.set {
+                        //a declaration does not necessarily have a set
+                        Cmp::Some => element.set().is_some(),
+                        Cmp::None => element.set().is_none(),
+                        _ => self.set == Cmp::Any || self.set.matches(element.declaration_key().as_ref())
+                    }) &&
                     (self.subset == Cmp::Any || self.subset.matches(element.subset_key().as_ref())) &&
                     (self.class == Cmp::Any || self.class.matches(element.class_key().as_ref())) &&
+                    match self.class {
+                        //the classes of features are not those of the annotations
+                        Cmp::Is(_) => self.selects_subclass() == (element.elementtype() == ElementType::Feature),
+                        _ => true
+                    } &&
                     (self.processor == Cmp::Any || self.processor.matches(element.processor_key().as_ref())) &&
                     (self.annotator == Cmp::Any || self.annotator.matches(element.annotator().map(|s| s.to_string()).as_ref())) &&
                     (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref())) &&
-- 
2.43.0


From baac98094ded5b40925d239282888f2d1ce90ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:57 +0000
Subject: [PATCH 55/68] fix: do not return a span annotation again when a
 selection starts with it

---
 src/select.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index d983b51..3a66d59 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -469,23 +469,27 @@ impl<'a> Iterator for SelectIterator<'a> {
             }
         }
         if self.inclusive && self.iteration == 1 {
-            if let Some((key,_)) = self.stack.last() {
-                if let Some(element) = self.document.get_elementdata(*key) {
+            if let Some(key) = self.stack.last().map(|(key,_)| *key) {
+                if let Some(element) = self.document.get_elementdata(key) {
                     let parent_key = if let Some(parent_key) = element.parent_key() {
                         parent_key
                     } else {
                         //root element, just return the self key as parent key
-                        *key
+                        key
                     };
-                    let item: Option<&'a DataType>  = if parent_key == *key {
+                    let item: Option<&'a DataType>  = if parent_key == key {
                         //(an orphan that is not the root element is not a data item of anything)
-                        Some(&self.document.elementstore.root).filter(|root| **root == DataType::Element(*key))
+                        Some(&self.document.elementstore.root).filter(|root| **root == DataType::Element(key))
                     } else {
-                        let index = self.document.get_elementdata(parent_key).expect("unwrapping parent key").index(&DataType::Element(*key)).expect("unwrapping child key");
+                        let index = self.document.get_elementdata(parent_key).expect("unwrapping parent key").index(&DataType::Element(key)).expect("unwrapping child key");
                         Some(self.document.get_elementdata(parent_key).expect("unwrapping parent key").get_data_at(index).expect("unwrapping child key"))
                     };
                     if let Some(item) = item {
                         if self.selector.matches(self.document, item) {
+                            if self.spanreferences && ElementGroup::Span.contains(element.elementtype) {
+                                //span references to the element itself are not to be returned again
+                                self.already_returned(key);
+                            }
                             return Some(SelectItem { data: item, parent_key: parent_key, cursor: 0, depth: 0});
                         }
                     }
-- 
2.43.0


From 1a171d106b565fe8a74918614ba8ca36211566ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:17 +0000
Subject: [PATCH 56/68] fix: decide queries for any or no element group by
 group membership

---
 src/select.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 3a66d59..fbd073a 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -1,5 +1,7 @@
 use std::ops::Deref;
 
+use strum::IntoEnumIterator;
+
 use crate::common::*;
 use crate::types::*;
 use crate::error::*;
@@ -287,8 +289,10 @@ impl Selector {
                 } else if let Some(element) = document.get_element(*key) {
                     let matches = match self.elementgroup {
                         Cmp::Is(elementgroup) => elementgroup.contains(element.elementtype()),
-                        Cmp::Any | Cmp::Some => true,
-                        Cmp::None | Cmp::Unmatchable => false,
+                        Cmp::Any => true,
+                        Cmp::Some => ElementGroup::iter().any(|group| group.contains(element.elementtype())),
+                        Cmp::None => !ElementGroup::iter().any(|group| group.contains(element.elementtype())),
+                        Cmp::Unmatchable => false,
                     };
                     //we do explicit checks against Cmp::Any prior to calling matches() to speed things up
                     matches &&
-- 
2.43.0


From fa3b7adc8df84cc060813114deabd29439f4f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:06 +0000
Subject: [PATCH 57/68] fix: keep to the default declaration in queries for a
 class with any set

---
 src/select.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index fbd073a..8bc50f3 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -157,10 +157,11 @@ impl Selector {
                     _ => None
                 };
                 if let Some(deckey) = deckey {
-                    if selector.set == Cmp::Any {
-                        //the class key only has a meaning within this declaration
-                        selector.set = Cmp::Is(deckey);
-                    }
+                    //the class key only has a meaning within this declaration
+                    selector.set = match &selector.set {
+                        Cmp::Some if document.get_declaration(deckey).map_or(true, |declaration| declaration.set.is_none()) => Cmp::Unmatchable,
+                        _ => Cmp::Is(deckey)
+                    };
                     if let Some(declaration) = document.get_declaration(deckey) {
                         match selector.selects_subclass() {
                             true =>  {
-- 
2.43.0


From 7f04e65d672689a02814eb1375779b96f20fb2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:43 +0000
Subject: [PATCH 58/68] fix: leave the provenance as it was if a processor can
 not be added with all its subprocessors

---
 src/document.rs | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 71a9511..a3dd1f6 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -434,7 +434,42 @@ impl Document {
 
     ///Add an element to the provenance chain
     ///Returns the key
-    pub fn add_processor(&mut self, mut processor: Processor) -> Result<ProcKey, FoliaError> {
+    pub fn add_processor(&mut self, processor: Processor) -> Result<ProcKey, FoliaError> {
+        self.modify_provenance(processor, |document, processor| document.insert_processor(processor))
+    }
+
+    ///Add a processor as a subprocessor
+    ///Returns the key
+    pub fn add_subprocessor(&mut self, parent_key: ProcKey, processor: Processor) -> Result<ProcKey, FoliaError> {
+        self.modify_provenance(processor, |document, processor| document.insert_subprocessor(parent_key, processor))
+    }
+
+    ///Adds a processor with all its subprocessors, nothing is added if any of them can't be
+    fn modify_provenance<F>(&mut self, processor: Processor, modify: F) -> Result<ProcKey, FoliaError> where F: FnOnce(&mut Self, Processor) -> Result<ProcKey, FoliaError> {
+        if processor.processors.is_empty() && processor.pending_processors.borrow().is_empty() {
+            return modify(self, processor);
+        }
+        let chain = self.provenancestore.chain.clone();
+        let links: Vec<(Option<ProcKey>, Vec<ProcKey>)> = self.provenancestore.items.iter().map(|item|
+            item.as_ref().map_or((None, vec!()), |item| (item.parent, item.processors.clone()))
+        ).collect();
+        let result = modify(self, processor);
+        if result.is_err() {
+            let length = links.len();
+            self.provenancestore.items.truncate(length);
+            self.provenancestore.index.retain(|_, key| (*key as usize) < length);
+            self.provenancestore.chain = chain;
+            for (item, (parent, processors)) in self.provenancestore.items.iter_mut().zip(links) {
+                if let Some(item) = item {
+                    item.parent = parent;
+                    item.processors = processors;
+                }
+            }
+        }
+        result
+    }
+
+    fn insert_processor(&mut self, mut processor: Processor) -> Result<ProcKey, FoliaError> {
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let existing_subprocessors: Vec<ProcKey> = self.take_existing_subprocessors(&mut processor)?;
         processor.parent = None; //determined by where we add it
@@ -447,15 +482,13 @@ impl Document {
                 self.attach_processor(child_key, subprocessor_key)?;
             }
             for subprocessor in pending_subprocessors {
-                self.add_subprocessor(child_key, subprocessor)?;
+                self.insert_subprocessor(child_key, subprocessor)?;
             }
         }
         child_key
     }
 
-    ///Add a processor as a subprocessor
-    ///Returns the key
-    pub fn add_subprocessor(&mut self, parent_key: ProcKey, mut processor: Processor) -> Result<ProcKey, FoliaError> {
+    fn insert_subprocessor(&mut self, parent_key: ProcKey, mut processor: Processor) -> Result<ProcKey, FoliaError> {
         if !self.get_processor(parent_key).is_some() {
             return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
         };
@@ -469,7 +502,7 @@ impl Document {
                 self.attach_processor(child_key, subprocessor_key)?;
             }
             for subprocessor in pending_subprocessors {
-                self.add_subprocessor(child_key, subprocessor)?;
+                self.insert_subprocessor(child_key, subprocessor)?;
             }
         }
         child_key
-- 
2.43.0


From aab2d5e0d72cbec66778d29f0693acf5ce25c6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 59/68] fix: refuse an element whose class or subset can not be
 stored

---
 src/document.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index a3dd1f6..f39b528 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -961,9 +961,7 @@ impl Store<ElementData,ElementKey> for Document {
 
             if let Ok(Some(class)) = element.class() {
                 if let Some(declaration) = self.get_mut_declaration(deckey) {
-                    if let Ok(clskey) = declaration.add_class(Cow::Borrowed(class)) {
-                        class_key = Some(clskey);
-                    }
+                    class_key = Some(declaration.add_class(Cow::Borrowed(class))?);
                 }
             }
 
@@ -985,20 +983,14 @@ impl Store<ElementData,ElementKey> for Document {
 
             if let Some(declaration) = self.get_mut_declaration(deckey) {
                 if element.elementtype == ElementType::Feature {
-                    if let Ok(Some(class)) = element.class() {
-                        if let Ok(clskey) = declaration.add_subclass(Cow::Borrowed(class)) {
-                            class_key = Some(clskey);
-                        }
-                    }
                     if let Ok(Some(subset)) = element.subset() {
-                        if let Ok(subsetkey) = declaration.add_subset(Cow::Borrowed(subset)) {
-                            subset_key = Some(subsetkey);
-                        }
+                        subset_key = Some(declaration.add_subset(Cow::Borrowed(subset))?);
                     }
-                } else if let Ok(Some(class)) = element.class() {
-                    if let Ok(clskey) = declaration.add_class(Cow::Borrowed(class)) {
-                        class_key = Some(clskey);
+                    if let Ok(Some(class)) = element.class() {
+                        class_key = Some(declaration.add_subclass(Cow::Borrowed(class))?);
                     }
+                } else if let Ok(Some(class)) = element.class() {
+                    class_key = Some(declaration.add_class(Cow::Borrowed(class))?);
                 }
             }
         } else if element.elementtype == ElementType::Feature {
-- 
2.43.0


From f048b10458cf965acee833f40ad997302e3b7d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:14 +0000
Subject: [PATCH 60/68] fix: refuse a document of which the last end tag is cut
 off

---
 src/parser.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8d7e94b..3886bf7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -379,12 +379,21 @@ impl Document {
             }
             //the document must be complete
             loop {
-                match reader.read_namespaced_event(&mut buf, &mut nsbuf)? {
-                    (Some(ns), Event::End(ref e)) if ns == NSFOLIA && e.local_name() == b"FoLiA" => break,
+                buf.clear();
+                let begin = reader.buffer_position();
+                let end = match reader.read_namespaced_event(&mut buf, &mut nsbuf)? {
+                    (Some(ns), Event::End(ref e)) => ns == NSFOLIA && e.local_name() == b"FoLiA",
                     (_, Event::Eof) => {
                         return Err(FoliaError::ParseError("Premature end of document".to_string()));
                     },
-                    (_,_) => {}
+                    (_,_) => false
+                };
+                if end {
+                    //the reader does not distinguish an end tag that is cut off (</FoLiA) from a complete one
+                    if reader.buffer_position() < begin + buf.len() + 2 {
+                        return Err(FoliaError::ParseError("Premature end of document".to_string()));
+                    }
+                    break;
                 }
             }
             Ok(doc)
-- 
2.43.0


From f4fd0da33790c6a79ee03af5124351dc60c37ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 61/68] fix: refuse a document with tags after its end

---
 src/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3886bf7..1072b5d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -396,6 +396,16 @@ impl Document {
                     break;
                 }
             }
+            loop {
+                buf.clear();
+                match reader.read_event(&mut buf)? {
+                    Event::Eof => break,
+                    Event::Start(_) | Event::Empty(_) | Event::End(_) => {
+                        return Err(FoliaError::ParseError("Unexpected tag after the end of the document".to_string()));
+                    },
+                    _ => {}
+                }
+            }
             Ok(doc)
         } else {
             Err(FoliaError::ParseError("No body found".to_string()))
-- 
2.43.0


From daa31cd7c1a779aad7bbf911f22d3b05fc960321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:28 +0000
Subject: [PATCH 62/68] fix: keep one attribute per type when all are set at
 once

---
 src/element.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/element.rs b/src/element.rs
index 8d5fd05..054a5c9 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -682,7 +682,11 @@ impl ElementData {
 
     ///Sets all attributes at once (takes ownership)
     pub fn set_attribs(&mut self, attribs: Vec<Attribute>) {
-        self.attribs = attribs;
+        self.attribs = Vec::with_capacity(attribs.len());
+        for attrib in attribs {
+            //ensures we don't insert duplicates
+            self.set_attrib(attrib);
+        }
     }
 
     ///Sets all attributes at once (takes ownership)
-- 
2.43.0


From 8e90450348f9d9d965b22359401f945dc8408dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:21 +0000
Subject: [PATCH 63/68] fix: selecting from an element that does not exist
 yields nothing

---
 src/select.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 8bc50f3..4eaa86e 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -545,9 +545,7 @@ impl<'a> Iterator for SelectIterator<'a> {
                         }
                     }
                 }
-            } else {
-                unreachable!("selector tried to get an element which no longer exists")
-            }
+            } //(there is nothing to select from an element that does not exist)
         }
         //stack is empty, we are done (None stops iteration)
         None
-- 
2.43.0


From d736a14ac47e0f92ff2e2d1f9015f082aed39726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:29 +0000
Subject: [PATCH 64/68] fix: a layer takes its set from the annotations in it,
 not from those its words are part of

---
 src/document.rs   | 2 +-
 src/serialiser.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index f39b528..e7fde1e 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -384,7 +384,7 @@ impl Document {
                             //Find out the set from the child elements
                             let query = Query::select().elementgroup(Cmp::Is(ElementGroup::Span));
                             let selector = Selector::from_query(self, &query)?;
-                            for spanelement in self.get_element(element_key).expect("getting element").select(selector, Recursion::Always) {
+                            for spanelement in self.select_by_key(element_key, selector, Recursion::Always, false, false) {
                                 if spanelement.elementtype().annotationtype() == elementtype.annotationtype() {
                                     if let Some(dec_key) = spanelement.declaration_key() {
                                         add_attributes = Some(vec!(Attribute::DeclarationRef(dec_key)));
diff --git a/src/serialiser.rs b/src/serialiser.rs
index e17ead9..35e8e82 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -229,9 +229,9 @@ impl Document {
         };
         annotationtype.elementtype() == element.elementtype() || (
             ElementGroup::Layer.contains(element.elementtype()) &&
-            element.select(Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span)), Recursion::Always).any(|span|
+            element.key().map_or(false, |key| self.select_by_key(key, Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span)), Recursion::Always, false, false).any(|span|
                 span.elementtype().annotationtype() == Some(annotationtype) && span.declaration_key() == element.declaration_key()
-            )
+            ))
         )
     }
 
-- 
2.43.0


From ef1b8fa07de8c33675bb54b2f1ecb27cd3b06bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:23 +0000
Subject: [PATCH 65/68] fix: an unknown element in the metadata is refused,
 whether or not it is empty

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1072b5d..19e7ef6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -158,7 +158,11 @@ impl Document {
                             let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
                             doc.add_declaration(declaration).map_err(FoliaError::add_parseerror("Error adding declaration"))?;
                         },
-                        _ => {
+                        (Some(ns), b"annotations") | (Some(ns), b"provenance") if ns == NSFOLIA => {
+                            //no declarations or processors
+                        },
+                        (_, tag) => {
+                            return Err(FoliaError::ParseError(format!("Unexpected element in metadata: {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                     }
                 },
-- 
2.43.0


From f8a8e3ef8fe887ad31018765ca6a6d7580fac69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:16 +0000
Subject: [PATCH 66/68] fix: a benchmark during which memory use shrinks does
 not overflow

---
 src/bin/foliabenchmarkr.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/foliabenchmarkr.rs b/src/bin/foliabenchmarkr.rs
index 48d3136..03b48c4 100644
--- a/src/bin/foliabenchmarkr.rs
+++ b/src/bin/foliabenchmarkr.rs
@@ -73,8 +73,7 @@ impl Measurement {
     fn end(&mut self, test_id: &str, filename: &str, title: &str) {
         self.duration = self.begintime.elapsed().ok();
         self.endmem = get_resident().expect("unwrapping memory");
-        let mem = self.endmem - self.beginmem;
-        let mem: f64 = (mem as f64) / 1024.0 / 1024.0;
+        let mem: f64 = (self.endmem as f64 - self.beginmem as f64) / 1024.0 / 1024.0; //may be negative
         let rusage = Rusage::new().expect("Rusage");
         let endpeak = rusage.peakrss();
         let peakmem = endpeak - self.beginpeak;
-- 
2.43.0


From d19f1ddc0b12a615d5fe9e80c03d51694fb012eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:51 +0000
Subject: [PATCH 67/68] fix: line ends in a document are read as XML has them

---
 src/document.rs |  5 +++--
 src/parser.rs   | 35 ++++++++++++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index e7fde1e..846e282 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -133,7 +133,8 @@ impl Document {
 
     ///Load a FoliA document from file. Invokes the XML parser and loads it all into memory.
     pub fn from_file(filename: &str, properties: DocumentProperties) -> Result<Self, FoliaError> {
-        let mut reader = Reader::from_file(Path::new(filename))?;
+        let file = File::open(Path::new(filename)).map_err(quick_xml::Error::Io)?;
+        let mut reader = Reader::from_reader(BufReader::new(LineEnds::new(file)));
         reader.trim_text(false);
         let mut doc = Self::parse(&mut reader, properties)?;
         //associate the filename with the document
@@ -143,7 +144,7 @@ impl Document {
 
     ///Load a FoliA document from XML string representation, loading it all into memory.
     pub fn from_str(data: &str, properties: DocumentProperties) -> Result<Self, FoliaError> {
-        let mut reader = Reader::from_str(data);
+        let mut reader = Reader::from_reader(BufReader::new(LineEnds::new(data.as_bytes())));
         reader.trim_text(false);
         Self::parse(&mut reader, properties)
     }
diff --git a/src/parser.rs b/src/parser.rs
index 19e7ef6..e844240 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,6 +1,6 @@
 use std::path::{Path};
 use std::io::BufRead;
-use std::io::BufReader;
+use std::io::{BufReader,Read};
 use std::str;
 use std::str::FromStr;
 use std::borrow::ToOwned;
@@ -24,6 +24,39 @@ use crate::select::*;
 use crate::document::*;
 use crate::specification::*;
 
+///Reads what another reader reads, but with line ends as XML has them: a carriage return, and one
+///that is followed by a line feed, are a line feed.
+pub(crate) struct LineEnds<R: Read> {
+    reader: R,
+    after_return: bool
+}
+
+impl<R: Read> LineEnds<R> {
+    pub(crate) fn new(reader: R) -> Self {
+        Self { reader: reader, after_return: false }
+    }
+}
+
+impl<R: Read> Read for LineEnds<R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        loop {
+            let end = self.reader.read(buf)?;
+            let mut len = 0;
+            for i in 0..end {
+                let byte = buf[i];
+                if byte != b'\n' || !self.after_return {
+                    buf[len] = if byte == b'\r' { b'\n' } else { byte };
+                    len += 1;
+                }
+                self.after_return = byte == b'\r';
+            }
+            if len > 0 || end == 0 {
+                return Ok(len);
+            }
+        }
+    }
+}
+
 impl Document {
     ///Parses a FoLiA document given a reader
     pub(crate) fn parse<R: BufRead>(reader: &mut Reader<R>, properties: DocumentProperties) -> Result<Self, FoliaError> {
-- 
2.43.0


From 6c21b38da2dfeffaf38c824e68441a59208e8809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:45 +0000
Subject: [PATCH 68/68] fix: whitespace that an XML parser replaces is saved as
 character references

---
 src/element.rs    |  3 ++-
 src/serialiser.rs | 28 +++++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index 054a5c9..453a856 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -25,6 +25,7 @@ use crate::metadata::*;
 use crate::query::*;
 use crate::select::*;
 use crate::text::*;
+use crate::serialiser::preserve_whitespace;
 use crate::document::{Document};
 
 
@@ -447,7 +448,7 @@ pub trait ReadElement {
                 indent =>  Writer::new_with_indent(Cursor::new(Vec::new()), b' ', indent)
             };
             doc.xml_elements(&mut writer, self.key().unwrap())?;
-            let result = writer.into_inner().into_inner();
+            let result = preserve_whitespace(writer.into_inner().into_inner());
             let result = from_utf8(&result).expect("encoding utf-8");
             Ok(result.to_string())
         } else {
diff --git a/src/serialiser.rs b/src/serialiser.rs
index 35e8e82..4e8b509 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -33,6 +33,32 @@ fn suppress_indent(writer: &mut Writer<Cursor<Vec<u8>>>) -> Result<(), FoliaErro
     writer.write_event(Event::Text(BytesText::from_plain(b""))).map_err(to_serialisation_error)
 }
 
+///Writes the whitespace that an XML parser would replace (carriage returns, and tabs and line feeds in
+///attribute values) as character references. Comments can not have those and are left as they are.
+pub(crate) fn preserve_whitespace(xml: Vec<u8>) -> Vec<u8> {
+    let mut result: Vec<u8> = Vec::with_capacity(xml.len());
+    let mut comment: Option<usize> = None; //where the content of a comment starts
+    let mut in_tag = false;
+    let mut in_value = false;
+    for (i, byte) in xml.iter().enumerate() {
+        match byte {
+            b'<' if comment.is_none() => if xml[i..].starts_with(b"<!--") { comment = Some(i + 4) } else { in_tag = true },
+            b'>' => match comment {
+                Some(begin) => if xml[begin..i].ends_with(b"--") { comment = None },
+                None => in_tag = false,
+            },
+            b'"' if in_tag => in_value = !in_value,
+            b'\r' | b'\n' | b'\t' if in_value || (*byte == b'\r' && comment.is_none()) => {
+                result.extend(format!("&#{};", byte).bytes());
+                continue;
+            },
+            _ => {}
+        }
+        result.push(*byte);
+    }
+    result
+}
+
 impl Document {
     ///Serialises a document to XML (vector of bytes, utf-8)
     pub fn xml(&self, root_key: ElementKey, indent: usize) -> Result<Vec<u8>, FoliaError> {
@@ -57,7 +83,7 @@ impl Document {
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         writer.write_event(Event::End(BytesEnd::borrowed(b"FoLiA"))).map_err(to_serialisation_error)?;
         let result = writer.into_inner().into_inner();
-        Ok(result)
+        Ok(preserve_whitespace(result))
     }
 
     fn xml_metadata(&self, writer: &mut Writer<Cursor<Vec<u8>>>) -> Result<(), FoliaError> {
-- 
2.43.0

