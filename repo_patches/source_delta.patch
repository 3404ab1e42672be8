From 1dbeb7248d91dda1c894c41ca62194dd49f9e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:08 +0000
Subject: [PATCH 01/11] fix: keep an explicit null ttl of 2025-11-25 tasks
 apart from an absent one

Task and TaskStatusNotificationParams read a required nullable ttl member; null (unlimited
retention) was read as absent and dropped when the value was written again.
---
 src/generated_schema/2025_11_25/mcp_schema.rs | 12 ++++++++++--
 src/generated_schema/2025_11_25/validators.rs | 10 ++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index 05e85d6..ef1e7f3 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -8867,7 +8867,11 @@ pub struct Task {
     #[serde(rename = "taskId")]
     pub task_id: ::std::string::String,
     ///Actual retention duration from creation in milliseconds, null for unlimited.
-    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "validate::nullable_option",
+        skip_serializing_if = "::std::option::Option::is_none"
+    )]
     pub ttl: ::std::option::Option<::std::option::Option<i64>>,
 }
 ///See [General fields: _meta](https://modelcontextprotocol.io/specification/2025-11-25/basic/index#meta) for notes on _meta usage.
@@ -9106,7 +9110,11 @@ pub struct TaskStatusNotificationParams {
     #[serde(rename = "taskId")]
     pub task_id: ::std::string::String,
     ///Actual retention duration from creation in milliseconds, null for unlimited.
-    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "validate::nullable_option",
+        skip_serializing_if = "::std::option::Option::is_none"
+    )]
     pub ttl: ::std::option::Option<::std::option::Option<i64>>,
 }
 ///Text provided to or from an LLM.
diff --git a/src/generated_schema/2025_11_25/validators.rs b/src/generated_schema/2025_11_25/validators.rs
index fd225aa..6a1b2ab 100644
--- a/src/generated_schema/2025_11_25/validators.rs
+++ b/src/generated_schema/2025_11_25/validators.rs
@@ -57,6 +57,16 @@ where
     }
 }
 
+/// Deserializes an optional field whose value may itself be `null`, keeping an explicit `null`
+/// (`Some(None)`) apart from an absent field (`None`, provided by `#[serde(default)]`).
+pub fn nullable_option<'de, T, D>(deserializer: D) -> Result<Option<Option<T>>, D::Error>
+where
+    T: serde::de::Deserialize<'de>,
+    D: serde::de::Deserializer<'de>,
+{
+    serde::Deserialize::deserialize(deserializer).map(Some)
+}
+
 // Used only by the `i64` arm of `validate!`; some schema versions (e.g. 2026-07-28) have no
 // integer const properties, so it would otherwise be flagged as dead code there.
 #[allow(dead_code)]
-- 
2.43.0


From fb816a47d54b43873123d1957425ff7eecaf8aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 02/11] fix: give SdkError::bad_request its own message

The constructor carried the "Resource not found" message next to the bad-request code.
---
 src/generated_schema/2024_11_05/schema_utils.rs | 2 +-
 src/generated_schema/2025_03_26/schema_utils.rs | 2 +-
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 src/generated_schema/2025_11_25/schema_utils.rs | 2 +-
 src/generated_schema/2026_07_28/schema_utils.rs | 2 +-
 src/generated_schema/draft/schema_utils.rs      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 0563fd6..a2f7239 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -2604,7 +2604,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 9d7b6de..637f4b4 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -2603,7 +2603,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index f265ca4..146b7cf 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2736,7 +2736,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 120421f..e289a28 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3545,7 +3545,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index 6eb1cfe..b81f639 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -2911,7 +2911,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index 6eb1cfe..b81f639 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -2911,7 +2911,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
-- 
2.43.0


From 47d568f878bf0227846366110608e6d270f87cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:16 +0000
Subject: [PATCH 03/11] fix: report an unsupported schema type of 2025-06-18 as
 an error

Converting an elicitation schema with an unsupported type panicked; later versions return a
parse error with the same text.
---
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 146b7cf..a0a844a 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1907,7 +1907,7 @@ impl TryFrom<&serde_json::Map<String, Value>> for PrimitiveSchemaDefinition {
                 PrimitiveSchemaDefinition::EnumSchema(EnumSchema::new(enum_values, enum_names, description, title))
             }
             other => {
-                panic!("'{other}' type is not currently supported");
+                return Err(RpcError::parse_error().with_message(format!("'{other}' type is not currently supported")));
             }
         };
 
-- 
2.43.0


From ed34f0f4e2fab43153ffaf40945fe2121fe40cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:59 +0000
Subject: [PATCH 04/11] fix: request_timeout no longer panics on timeouts
 beyond u64 milliseconds

---
 src/generated_schema/2024_11_05/schema_utils.rs | 2 +-
 src/generated_schema/2025_03_26/schema_utils.rs | 2 +-
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 src/generated_schema/2025_11_25/schema_utils.rs | 2 +-
 src/generated_schema/2026_07_28/schema_utils.rs | 2 +-
 src/generated_schema/draft/schema_utils.rs      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index a2f7239..432af1d 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -2547,7 +2547,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 637f4b4..36c7b8a 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -2546,7 +2546,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index a0a844a..49c93af 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2679,7 +2679,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index e289a28..b96e66f 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3470,7 +3470,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index b81f639..5c1932c 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -2854,7 +2854,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index b81f639..5c1932c 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -2854,7 +2854,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
-- 
2.43.0


From 501614d04a033f3dbee79d66ccdc732071261bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:29 +0000
Subject: [PATCH 05/11] fix: url_elicit_required wraps the elicitations in the
 data object the schema requires

---
 src/generated_schema/2025_11_25/schema_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index b96e66f..90690fd 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3525,7 +3525,7 @@ impl SdkError {
     pub fn url_elicit_required(elicit_url_params: Vec<ElicitRequestUrlParams>) -> Self {
         Self {
             code: UrlElicitError::code_value(),
-            data: Some(serde_json::to_value(elicit_url_params).unwrap_or_else(|_| {
+            data: Some(serde_json::to_value(UrlElicitErrorData { elicitations: elicit_url_params, extra: None }).unwrap_or_else(|_| {
                 json!(
                     { "elicitations" : [], "error" :
                     "failed to UrlElicitError data" }
@@ -3626,7 +3626,7 @@ impl RpcError {
     pub fn url_elicit_required(elicit_url_params: Vec<ElicitRequestUrlParams>) -> Self {
         Self {
             code: UrlElicitError::code_value(),
-            data: Some(serde_json::to_value(elicit_url_params).unwrap_or_else(|_| {
+            data: Some(serde_json::to_value(UrlElicitErrorData { elicitations: elicit_url_params, extra: None }).unwrap_or_else(|_| {
                 json!(
                     { "elicitations" : [], "error" :
                     "failed to UrlElicitError data" }
-- 
2.43.0


From 64d8a4c036efdbbf87c8a56aeba64d9329139085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:52 +0000
Subject: [PATCH 06/11] fix: a client without the tasks capability no longer
 passes for handling tasks/cancel and tasks/list

---
 src/generated_schema/2025_11_25/schema_utils.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 90690fd..7a5b669 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2773,17 +2773,13 @@ impl ClientCapabilities {
                 }
             }
             ServerJsonrpcRequest::CancelTaskRequest(_) => {
-                if let Some(tasks) = self.tasks.as_ref() {
-                    if !tasks.can_cancel_tasks() {
-                        return Err(create_error("task cancellation", request_method));
-                    }
+                if !self.can_cancel_tasks() {
+                    return Err(create_error("task cancellation", request_method));
                 }
             }
             ServerJsonrpcRequest::ListTasksRequest(_) => {
-                if let Some(tasks) = self.tasks.as_ref() {
-                    if !tasks.can_list_tasks() {
-                        return Err(create_error("listing tasks", request_method));
-                    }
+                if !self.can_list_tasks() {
+                    return Err(create_error("listing tasks", request_method));
                 }
             }
 
-- 
2.43.0


From 289abc412777714b95285f4482c0aedc1d661709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:07 +0000
Subject: [PATCH 07/11] fix: a client without sampling.tools no longer passes
 for handling a sampling request that offers tools

---
 src/generated_schema/2025_11_25/schema_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 7a5b669..ca0e4ca 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2752,6 +2752,10 @@ impl ClientCapabilities {
                         if create_message_request.params.tool_choice.is_some() && samplig_capabilities.tools.is_none() {
                             return Err(create_error("tool choice", request_method));
                         }
+
+                        if !create_message_request.params.tools.is_empty() && samplig_capabilities.tools.is_none() {
+                            return Err(create_error("tool use", request_method));
+                        }
                     }
                     None => {
                         return Err(create_error("sampling capability", request_method));
-- 
2.43.0


From d42e0ca6cc393797cec48a83924365678ec640cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:13 +0000
Subject: [PATCH 08/11] fix: read back the related task id that was set in a
 result's metadata

set_related_task_id writes {"taskId": id} under the related-task key, as the protocol
defines it, but related_task_id only accepted a bare string there and so never found it.
---
 src/generated_schema/2025_11_25/schema_utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index ca0e4ca..6971e03 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2909,7 +2909,7 @@ impl GetTaskPayloadResult {
         self.meta
             .as_ref()
             .and_then(|v| v.get(RELATED_TASK_META_KEY))
-            .and_then(|v| v.as_str())
+            .and_then(|v| v.get("taskId").unwrap_or(v).as_str())
     }
 
     /// Sets the related task ID in the metadata.
@@ -2994,7 +2994,8 @@ pub trait McpMetaEx {
 
 impl McpMetaEx for serde_json::Map<String, Value> {
     fn related_task_id(&self) -> Option<&str> {
-        self.get(RELATED_TASK_META_KEY).and_then(|v| v.as_str())
+        self.get(RELATED_TASK_META_KEY)
+            .and_then(|v| v.get("taskId").unwrap_or(v).as_str())
     }
 
     fn set_related_task_id<T>(&mut self, task_id: T)
-- 
2.43.0


From 67baee5e93c0a34058d696fbc1671c0d373b7753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 09/11] fix: leave params out of a resources/list request of
 the older versions when there are none

---
 src/generated_schema/2024_11_05/schema_utils.rs | 6 +++++-
 src/generated_schema/2025_03_26/schema_utils.rs | 6 +++++-
 src/generated_schema/2025_06_18/schema_utils.rs | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 432af1d..b5669d6 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -1818,7 +1818,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 36c7b8a..c328c48 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -1817,7 +1817,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 49c93af..1987e9b 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1939,7 +1939,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
-- 
2.43.0


From b395f6b54f76fc8f31dcdbff7935d0bd8d58c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 10/11] fix: an elicitation property with a choice list no
 longer reads as a plain string

---
 src/generated_schema/2025_06_18/mcp_schema.rs | 2 +-
 src/generated_schema/2025_11_25/mcp_schema.rs | 2 +-
 src/generated_schema/2026_07_28/mcp_schema.rs | 2 +-
 src/generated_schema/draft/mcp_schema.rs      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/generated_schema/2025_06_18/mcp_schema.rs b/src/generated_schema/2025_06_18/mcp_schema.rs
index 1f2431a..5864b77 100644
--- a/src/generated_schema/2025_06_18/mcp_schema.rs
+++ b/src/generated_schema/2025_06_18/mcp_schema.rs
@@ -4271,10 +4271,10 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
     NumberSchema(NumberSchema),
     BooleanSchema(BooleanSchema),
     EnumSchema(EnumSchema),
+    StringSchema(StringSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index ef1e7f3..e46684e 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -5902,7 +5902,6 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
     NumberSchema(NumberSchema),
     BooleanSchema(BooleanSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
@@ -5910,6 +5909,7 @@ pub enum PrimitiveSchemaDefinition {
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
     LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index b2b0748..f212e92 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -6178,7 +6178,6 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
     NumberSchema(NumberSchema),
     BooleanSchema(BooleanSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
@@ -6186,6 +6185,7 @@ pub enum PrimitiveSchemaDefinition {
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
     LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 3db865d..16a134d 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -6178,7 +6178,6 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
     NumberSchema(NumberSchema),
     BooleanSchema(BooleanSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
@@ -6186,6 +6185,7 @@ pub enum PrimitiveSchemaDefinition {
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
     LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
-- 
2.43.0


From d671f0d8e5522b6c0b61e9cd28675f385fe331be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 11/11] fix: a legacy titled choice keeps its display names
 when it is read

---
 src/generated_schema/2025_11_25/mcp_schema.rs | 18 ++++++++++++++++--
 src/generated_schema/2026_07_28/mcp_schema.rs | 18 ++++++++++++++++--
 src/generated_schema/draft/mcp_schema.rs      | 18 ++++++++++++++++--
 3 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index e46684e..198345b 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -3114,11 +3114,12 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    #[serde(deserialize_with = "LegacyTitledEnumSchema::deserialize_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
@@ -4524,6 +4525,18 @@ pub struct LegacyTitledEnumSchema {
     type_: ::std::string::String,
 }
 impl LegacyTitledEnumSchema {
+    /// Reads this alternative of an untagged enum: without `enumNames` the document is an untitled
+    /// single-select schema, which is left to that alternative.
+    fn deserialize_with_names<'de, D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
+    where
+        D: ::serde::Deserializer<'de>,
+    {
+        let schema: Self = ::serde::Deserialize::deserialize(deserializer)?;
+        if schema.enum_names.is_empty() {
+            return Err(::serde::de::Error::missing_field("enumNames"));
+        }
+        Ok(schema)
+    }
     pub fn new(
         enum_: ::std::vec::Vec<::std::string::String>,
         enum_names: ::std::vec::Vec<::std::string::String>,
@@ -5904,11 +5917,12 @@ without nested objects or arrays.*/
 pub enum PrimitiveSchemaDefinition {
     NumberSchema(NumberSchema),
     BooleanSchema(BooleanSchema),
+    #[serde(deserialize_with = "LegacyTitledEnumSchema::deserialize_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     StringSchema(StringSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index f212e92..86d93b6 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -2748,11 +2748,12 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    #[serde(deserialize_with = "LegacyTitledEnumSchema::deserialize_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
@@ -4213,6 +4214,18 @@ pub struct LegacyTitledEnumSchema {
     type_: ::std::string::String,
 }
 impl LegacyTitledEnumSchema {
+    /// Reads this alternative of an untagged enum: without `enumNames` the document is an untitled
+    /// single-select schema, which is left to that alternative.
+    fn deserialize_with_names<'de, D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
+    where
+        D: ::serde::Deserializer<'de>,
+    {
+        let schema: Self = ::serde::Deserialize::deserialize(deserializer)?;
+        if schema.enum_names.is_empty() {
+            return Err(::serde::de::Error::missing_field("enumNames"));
+        }
+        Ok(schema)
+    }
     pub fn new(
         enum_: ::std::vec::Vec<::std::string::String>,
         enum_names: ::std::vec::Vec<::std::string::String>,
@@ -6180,11 +6193,12 @@ without nested objects or arrays.*/
 pub enum PrimitiveSchemaDefinition {
     NumberSchema(NumberSchema),
     BooleanSchema(BooleanSchema),
+    #[serde(deserialize_with = "LegacyTitledEnumSchema::deserialize_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     StringSchema(StringSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 16a134d..c1b6cc2 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -2748,11 +2748,12 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    #[serde(deserialize_with = "LegacyTitledEnumSchema::deserialize_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
@@ -4213,6 +4214,18 @@ pub struct LegacyTitledEnumSchema {
     type_: ::std::string::String,
 }
 impl LegacyTitledEnumSchema {
+    /// Reads this alternative of an untagged enum: without `enumNames` the document is an untitled
+    /// single-select schema, which is left to that alternative.
+    fn deserialize_with_names<'de, D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
+    where
+        D: ::serde::Deserializer<'de>,
+    {
+        let schema: Self = ::serde::Deserialize::deserialize(deserializer)?;
+        if schema.enum_names.is_empty() {
+            return Err(::serde::de::Error::missing_field("enumNames"));
+        }
+        Ok(schema)
+    }
     pub fn new(
         enum_: ::std::vec::Vec<::std::string::String>,
         enum_names: ::std::vec::Vec<::std::string::String>,
@@ -6180,11 +6193,12 @@ without nested objects or arrays.*/
 pub enum PrimitiveSchemaDefinition {
     NumberSchema(NumberSchema),
     BooleanSchema(BooleanSchema),
+    #[serde(deserialize_with = "LegacyTitledEnumSchema::deserialize_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     StringSchema(StringSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
-- 
2.43.0

