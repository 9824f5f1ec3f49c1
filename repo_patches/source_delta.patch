From 07bdfff5a3fa7987cb6a5884bfc6b2e68a878bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:50 +0000
Subject: [PATCH 01/11] fix: keep path segments apart in the route trie

'/a/b' and '/ab' shared the same node, so a request could be dispatched to a
route (and its middlewares) of a different path. Mark the nodes which start a
segment and never mix them with the rest of a broken segment key.
---
 src/router/route_trie.rs | 63 +++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index a028bca..4b44c91 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -61,7 +61,7 @@ pub struct RouteTrie {
 impl RouteTrie {
     pub fn new() -> Self {
         RouteTrie {
-            head: Node::new("/".to_string(), None),
+            head: Node::new("/".to_string(), true),
         }
     }
 
@@ -105,7 +105,7 @@ impl RouteTrie {
         }
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, true) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
                         match &mut next_node.value {
@@ -163,7 +163,7 @@ impl RouteTrie {
         let mut curr_node = &mut self.head;
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, true) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
                         match &mut next_node.value {
@@ -258,15 +258,17 @@ impl RouteTrie {
         }
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, true) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
-                        if next_node.value.is_some() || !next_node.child_nodes.is_empty() {
+                        if next_node.value.is_some()
+                            || next_node.child_nodes.iter().any(|node| node.is_segment)
+                        {
                             panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
                         }
 
                         next_node.value = src.head.value;
-                        next_node.child_nodes = src.head.child_nodes;
+                        next_node.child_nodes.extend(src.head.child_nodes);
                         break;
                     }
                     curr_node = next_node;
@@ -306,30 +308,37 @@ impl RouteTrie {
 #[derive(Clone, Debug)]
 struct Node {
     key: String,
+    /// The key starts a path segment, instead of continuing the segment of the parent node
+    is_segment: bool,
     value: Option<RouteValue>,
     child_nodes: Vec<Node>,
 }
 
 impl Node {
-    fn new(key: String, value: Option<RouteValue>) -> Self {
+    fn new(key: String, is_segment: bool) -> Self {
         Node {
             key,
-            value,
+            is_segment,
+            value: None,
             child_nodes: Vec::default(),
         }
     }
 
     fn is_param(&self) -> bool {
-        self.key.chars().next().unwrap_or(' ') == ':'
+        self.is_segment && self.key.chars().next().unwrap_or(' ') == ':'
     }
 
     /// Process the side effects of node insertion
-    fn process_insertion(&mut self, key: &str) -> Result<&mut Self, ObsidianError> {
-        let action = self.get_insertion_action(key);
+    fn process_insertion(
+        &mut self,
+        key: &str,
+        is_segment: bool,
+    ) -> Result<&mut Self, ObsidianError> {
+        let action = self.get_insertion_action(key, is_segment);
 
         match action.name {
             ActionName::CreateNewNode => {
-                let new_node = Self::new(key.to_string(), None);
+                let new_node = Self::new(key.to_string(), is_segment);
 
                 match key {
                     k if k == "*" => {
@@ -355,7 +364,7 @@ impl Node {
             }
             ActionName::SplitKey => {
                 if let Some(node) = self.child_nodes.get_mut(action.payload.node_index) {
-                    return node.process_insertion(&key[action.payload.match_count..]);
+                    return node.process_insertion(&key[action.payload.match_count..], false);
                 };
             }
             ActionName::SplitNode => {
@@ -365,7 +374,7 @@ impl Node {
                     let new_key = key[count..].to_string();
                     node.key = key[..count].to_string();
 
-                    let mut inter_node = Self::new(child_key, None);
+                    let mut inter_node = Self::new(child_key, false);
 
                     // Move out the previous child and transfer to intermediate node
                     inter_node.child_nodes = std::mem::take(&mut node.child_nodes);
@@ -378,7 +387,7 @@ impl Node {
                         return Ok(node);
                     }
 
-                    let new_node = Self::new(new_key, None);
+                    let new_node = Self::new(new_key, false);
 
                     node.child_nodes.insert(0, new_node);
                     if let Some(result_node) = node.child_nodes.first_mut() {
@@ -400,9 +409,15 @@ impl Node {
     }
 
     /// Determine the action required to be performed for the new route path
-    fn get_insertion_action(&self, key: &str) -> Action {
+    fn get_insertion_action(&self, key: &str, is_segment: bool) -> Action {
         for (index, node) in self.child_nodes.iter().enumerate() {
-            let is_param = node.is_param() || key.chars().next().unwrap_or(' ') == ':';
+            // A new segment never shares its node with the rest of another segment
+            if node.is_segment != is_segment {
+                continue;
+            }
+
+            let is_param =
+                node.is_param() || (is_segment && key.chars().next().unwrap_or(' ') == ':');
             if is_param {
                 // Only allow one param leaf in one children series
                 if key == node.key {
@@ -460,6 +475,11 @@ impl Node {
         for node in self.child_nodes.iter() {
             let mut break_key = false;
 
+            // Only the rest of the current segment can follow a broken key
+            if node.is_segment == is_break_parent {
+                continue;
+            }
+
             if !is_break_parent {
                 // Check param
                 if node.is_param() {
@@ -540,7 +560,7 @@ impl Node {
                         }
                         None => {
                             for child in node.child_nodes.iter() {
-                                if child.key == "*" {
+                                if child.is_segment && child.key == "*" {
                                     if let Some(child_val) = &child.value {
                                         middlewares.append(&mut child_val.middlewares.clone());
                                         return Some(child);
@@ -554,8 +574,11 @@ impl Node {
                 } else if let Some(final_val) =
                     node.get_next_node(key, params, middlewares, break_key)
                 {
-                    if let Some(curr_val) = &node.value {
-                        middlewares.append(&mut curr_val.middlewares.clone());
+                    // A broken key is not the end of a segment
+                    if !break_key {
+                        if let Some(curr_val) = &node.value {
+                            middlewares.append(&mut curr_val.middlewares.clone());
+                        }
                     }
 
                     return Some(final_val);
-- 
2.43.0


From f26ffd19f612ed003f0ac5680e95130fabc03368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:51 +0000
Subject: [PATCH 02/11] fix: run the middlewares from the outer path to the
 inner path

Root middlewares ran first, but the remaining ones ran from the endpoint up to
its parents, so a parent's middleware (e.g. authentication) ran after the
middlewares it should guard.
---
 src/router/route_trie.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 4b44c91..de01ad2 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -495,20 +495,24 @@ impl Node {
                             }
                         }
                     } else {
+                        // Outer middlewares come before the inner middlewares
+                        let outer_count = middlewares.len();
+
+                        match &node.value {
+                            Some(curr_val) => {
+                                middlewares.append(&mut curr_val.middlewares.clone());
+                            }
+                            None => {}
+                        }
+
                         match node.get_next_node(key, params, middlewares, break_key) {
                             Some(final_val) => {
                                 params.insert(node.key[1..].to_string(), curr_key.to_string());
 
-                                match &node.value {
-                                    Some(curr_val) => {
-                                        middlewares.append(&mut curr_val.middlewares.clone());
-                                    }
-                                    None => {}
-                                }
-
                                 return Some(final_val);
                             }
                             None => {
+                                middlewares.truncate(outer_count);
                                 continue;
                             }
                         }
@@ -571,9 +575,10 @@ impl Node {
                             continue;
                         }
                     }
-                } else if let Some(final_val) =
-                    node.get_next_node(key, params, middlewares, break_key)
-                {
+                } else {
+                    // Outer middlewares come before the inner middlewares
+                    let outer_count = middlewares.len();
+
                     // A broken key is not the end of a segment
                     if !break_key {
                         if let Some(curr_val) = &node.value {
@@ -581,7 +586,12 @@ impl Node {
                         }
                     }
 
-                    return Some(final_val);
+                    if let Some(final_val) = node.get_next_node(key, params, middlewares, break_key)
+                    {
+                        return Some(final_val);
+                    }
+
+                    middlewares.truncate(outer_count);
                 }
             }
 
-- 
2.43.0


From db337f4b99fbc84543ee7c909da0150e013b8c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:06 +0000
Subject: [PATCH 03/11] fix: apply the middleware of path '/' to the root

use_service_to("/", ..) silently dropped the middleware.
---
 src/router/route_trie.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index de01ad2..b111600 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -160,6 +160,12 @@ impl RouteTrie {
             }
         });
 
+        // if the path is "/"
+        if split_key.peek().is_none() {
+            self.insert_default_middleware(middleware);
+            return;
+        }
+
         let mut curr_node = &mut self.head;
 
         while let Some(k) = split_key.next() {
-- 
2.43.0


From b9c87a9390b9b888601cdd67bc51a181976a655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:29 +0000
Subject: [PATCH 04/11] fix: detect the conflict when a sub router is merged at
 '/'

use_router("/", ..) silently discarded every route and middleware which was
already registered in the main router.
---
 src/router/route_trie.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index b111600..90c8514 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -259,6 +259,10 @@ impl RouteTrie {
         let mut curr_node = &mut des.head;
 
         if split_key.peek().is_none() {
+            if curr_node.value.is_some() || !curr_node.child_nodes.is_empty() {
+                panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
+            }
+
             des.head = src.head;
             return;
         }
-- 
2.43.0


From 2a0118393b2e46eb1ec38573bc45aa815295abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:31 +0000
Subject: [PATCH 05/11] fix: reject sub routes after a wildcard

Routes of a sub router which is merged at a path with a trailing '*' were
accepted, but can never be reached.
---
 src/router/route_trie.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 90c8514..cae3ce8 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -250,7 +250,7 @@ impl RouteTrie {
             if x.contains('*') {
                 if x.len() != 1 {
                     panic!("ERROR: Consisting * in route name at: {}", path);
-                } else if pos != split_key.clone().count() - 1 {
+                } else if pos != split_key.clone().count() - 1 || !src.head.child_nodes.is_empty() {
                     panic!("ERROR: * must be in the last at: {}", path);
                 }
             }
-- 
2.43.0


From 27d9b186ad3a7d03fe1ece70e666b6142d161230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:33 +0000
Subject: [PATCH 06/11] fix: parse the whole body of a form or json request

Only the first chunk was parsed when the body is received in several chunks.
---
 src/context.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1166c71..d5c1617 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,5 +1,5 @@
 use http::Extensions;
-use hyper::{body, body::Buf};
+use hyper::body;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use url::form_urlencoded;
@@ -176,14 +176,14 @@ impl Context {
     pub async fn form<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Self::parse_queries(buf.chunk())
+        Self::parse_queries(&buf)
     }
 
     /// Form value merge with Params
@@ -241,14 +241,14 @@ impl Context {
     pub async fn json<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Ok(serde_json::from_slice(buf.chunk())?)
+        Ok(serde_json::from_slice(&buf)?)
     }
 
     /// Json value merged with Params
-- 
2.43.0


From e019a083ff94fe1ef543687fe82a14a21a962bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:34 +0000
Subject: [PATCH 07/11] fix: keep every form value of a sequence of options

An empty value moved the input twice, which lost the following value or
panicked at the end of the input. A key without any value panicked as well.
---
 src/router/req_deserializer.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index af23374..7c84c6f 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -253,7 +253,6 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
         V: Visitor<'de>,
     {
         if self.input.starts_with(&[String::default()]) {
-            self.input = &self.input[1..];
             visitor.visit_none()
         } else {
             visitor.visit_some(self)
@@ -264,10 +263,6 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        if self.input.starts_with(&[String::default()]) {
-            self.input = &self.input[1..];
-        }
-
         visitor.visit_unit()
     }
 
@@ -395,7 +390,9 @@ impl<'de, 'a> MapAccess<'de> for FromMap<'a, 'de> {
         V: DeserializeSeed<'de>,
     {
         match self.de.input.peek() {
-            Some(val) => seed.deserialize(&mut FormValueDeserializer::new(val.1)),
+            Some(val) if !val.1.is_empty() => {
+                seed.deserialize(&mut FormValueDeserializer::new(val.1))
+            }
             _ => Err(Error::NoneError),
         }
     }
-- 
2.43.0


From 79c225872fd26c450e1a980d63278530b4c023b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:14 +0000
Subject: [PATCH 08/11] fix: do not serve static files outside of the directory

'..' in the path of a request allowed to read every file of the server.
---
 src/router.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index 8eff03d..661c355 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -10,7 +10,7 @@ mod route_trie;
 use self::route_trie::RouteTrie;
 use crate::context::Context;
 use crate::middleware::Middleware;
-use crate::Method;
+use crate::{Method, StatusCode};
 pub use hyper::header;
 
 pub use self::handler::{ContextResult, Handler};
@@ -135,9 +135,15 @@ impl Router {
                 .map(|x| x.to_string())
                 .collect::<Vec<String>>();
 
+            let is_outside = Self::is_outside_dir(&relative_path);
+
             dir_path.append(&mut relative_path);
 
             Box::pin(async move {
+                if is_outside {
+                    return ctx.build(StatusCode::NOT_FOUND).ok();
+                }
+
                 ctx.build(Response::ok().file(&dir_path.join("/")).await)
                     .ok()
             })
@@ -153,9 +159,18 @@ impl Router {
             .map(|x| x.to_string())
             .collect::<Vec<String>>();
 
+        if Self::is_outside_dir(&relative_path) {
+            return ctx.build(StatusCode::NOT_FOUND).ok();
+        }
+
         ctx.build(Response::ok().file(&relative_path.join("/")).await)
             .ok()
     }
+
+    /// Check whether the requested path leaves the served directory
+    fn is_outside_dir(relative_path: &[String]) -> bool {
+        relative_path.iter().any(|key| key == "..")
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From eccf8a5cf2fad7fedd97c71fa4e51d8797d5fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:17 +0000
Subject: [PATCH 09/11] fix: serve files which are not valid UTF-8

Binary files, e.g. images, were answered with 404.
---
 src/router/response.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/router/response.rs b/src/router/response.rs
index 4c5ce92..7f11f0b 100644
--- a/src/router/response.rs
+++ b/src/router/response.rs
@@ -129,9 +129,12 @@ impl Response {
         }
     }
 
-    pub async fn file(self, file_path: &str) -> Self {
-        match fs::read_to_string(file_path.to_string()).await {
-            Ok(content) => self.set_body(content),
+    pub async fn file(mut self, file_path: &str) -> Self {
+        match fs::read(file_path.to_string()).await {
+            Ok(content) => {
+                self.body = Body::from(content);
+                self
+            }
             Err(err) => {
                 dbg!(&err);
                 self.set_body(err.to_string())
-- 
2.43.0


From 92f5ae34c393fb9520f14dd54825fdcd97fb0263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:19 +0000
Subject: [PATCH 10/11] fix: do not panic in the logger when a handler sets no
 response

---
 src/middleware/logger.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/middleware/logger.rs b/src/middleware/logger.rs
index 5a7537d..5fb2356 100644
--- a/src/middleware/logger.rs
+++ b/src/middleware/logger.rs
@@ -5,6 +5,7 @@ use crate::app::EndpointExecutor;
 use crate::context::Context;
 use crate::middleware::Middleware;
 use crate::router::ContextResult;
+use crate::StatusCode;
 
 use colored::*;
 
@@ -33,11 +34,12 @@ impl Middleware for Logger {
         match ep_executor.next(context).await {
             Ok(context_after) => {
                 let duration = start.elapsed();
-                println!(
-                    "[info] Sent {} in {:?}",
-                    context_after.response().as_ref().unwrap().status(),
-                    duration
-                );
+                // Response is optional, 200 is sent without it
+                let status = context_after
+                    .response()
+                    .as_ref()
+                    .map_or(StatusCode::OK, |response| response.status());
+                println!("[info] Sent {} in {:?}", status, duration);
                 Ok(context_after)
             }
             Err(error) => {
-- 
2.43.0


From 8dfd50f0a2897721838338e84115f49146eebfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:09 +0000
Subject: [PATCH 11/11] fix: skip a wildcard nothing is registered at

---
 src/router/route_trie.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index cae3ce8..0e282c5 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -534,11 +534,12 @@ impl Node {
                     match &node.value {
                         Some(curr_val) => {
                             middlewares.append(&mut curr_val.middlewares.clone());
+                            return Some(node);
+                        }
+                        None => {
+                            continue;
                         }
-                        None => {}
                     }
-
-                    return Some(node);
                 }
             }
 
-- 
2.43.0

