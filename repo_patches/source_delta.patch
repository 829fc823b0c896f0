From d071cd4465cd3ae77893667baec879aab932a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:22 +0000
Subject: [PATCH 01/43] fix: event serialization reports cJSON allocation
 failures instead of dropping fields

---
 src/event.c | 93 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 61 insertions(+), 32 deletions(-)

diff --git a/src/event.c b/src/event.c
index 733e358..2287600 100644
--- a/src/event.c
+++ b/src/event.c
@@ -280,6 +280,43 @@ static char* escape_json_string(const char* input)
 }
 #endif
 
+#ifdef NOSTR_FEATURE_JSON_ENHANCED
+/* Append item to array; an item that cannot be appended is released. */
+static bool append_item(cJSON* array, cJSON* item)
+{
+    if (cJSON_AddItemToArray(array, item)) {
+        return true;
+    }
+    cJSON_Delete(item);
+    return false;
+}
+
+/* The event's tags as a JSON array of arrays, or NULL if memory runs out. */
+static cJSON* tags_to_cjson(const nostr_event* event)
+{
+    cJSON* tags_array = cJSON_CreateArray();
+    if (!tags_array) {
+        return NULL;
+    }
+
+    for (size_t i = 0; i < event->tags_count; i++) {
+        cJSON* tag_array = cJSON_CreateArray();
+        if (!append_item(tags_array, tag_array)) {
+            cJSON_Delete(tags_array);
+            return NULL;
+        }
+        for (size_t j = 0; j < event->tags[i].count; j++) {
+            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
+            if (!append_item(tag_array, cJSON_CreateString(tag_value))) {
+                cJSON_Delete(tags_array);
+                return NULL;
+            }
+        }
+    }
+    return tags_array;
+}
+#endif
+
 static char* serialize_for_id(const nostr_event* event)
 {
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
@@ -292,25 +329,22 @@ static char* serialize_for_id(const nostr_event* event)
     pubkey_hex[64] = '\0';
 
     cJSON* serialization = cJSON_CreateArray();
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->created_at));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
-
-    cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
-        cJSON* tag_array = cJSON_CreateArray();
-        for (size_t j = 0; j < event->tags[i].count; j++) {
-            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
+    cJSON* tags_array = tags_to_cjson(event);
+    char* result = NULL;
+
+    if (serialization && tags_array &&
+        append_item(serialization, cJSON_CreateNumber(0)) &&
+        append_item(serialization, cJSON_CreateString(pubkey_hex)) &&
+        append_item(serialization, cJSON_CreateNumber(event->created_at)) &&
+        append_item(serialization, cJSON_CreateNumber(event->kind))) {
+        bool complete = append_item(serialization, tags_array);
+        tags_array = NULL;
+        if (complete && append_item(serialization, cJSON_CreateString(content))) {
+            result = cJSON_PrintUnformatted(serialization);
         }
-        cJSON_AddItemToArray(tags_array, tag_array);
     }
-    cJSON_AddItemToArray(serialization, tags_array);
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(content));
-
-    char* result = cJSON_PrintUnformatted(serialization);
 
+    cJSON_Delete(tags_array);
     cJSON_Delete(serialization);
 
     return result;
@@ -400,37 +434,32 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
         sprintf(hex_buffer + i * 2, "%02x", event->id[i]);
     }
     hex_buffer[64] = '\0';
-    cJSON_AddStringToObject(root, "id", hex_buffer);
+    bool complete = cJSON_AddStringToObject(root, "id", hex_buffer) != NULL;
 
     for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
         sprintf(hex_buffer + i * 2, "%02x", event->pubkey.data[i]);
     }
     hex_buffer[64] = '\0';
-    cJSON_AddStringToObject(root, "pubkey", hex_buffer);
+    complete = complete && cJSON_AddStringToObject(root, "pubkey", hex_buffer);
 
-    cJSON_AddNumberToObject(root, "created_at", event->created_at);
-    cJSON_AddNumberToObject(root, "kind", event->kind);
+    complete = complete && cJSON_AddNumberToObject(root, "created_at", event->created_at);
+    complete = complete && cJSON_AddNumberToObject(root, "kind", event->kind);
 
-    cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
-        cJSON* tag_array = cJSON_CreateArray();
-        for (size_t j = 0; j < event->tags[i].count; j++) {
-            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
-        }
-        cJSON_AddItemToArray(tags_array, tag_array);
+    cJSON* tags_array = tags_to_cjson(event);
+    if (!cJSON_AddItemToObject(root, "tags", tags_array)) {
+        cJSON_Delete(tags_array);
+        complete = false;
     }
-    cJSON_AddItemToObject(root, "tags", tags_array);
 
-    cJSON_AddStringToObject(root, "content", event->content ? event->content : "");
+    complete = complete && cJSON_AddStringToObject(root, "content", event->content ? event->content : "");
 
     for (int i = 0; i < NOSTR_SIG_SIZE; i++) {
         sprintf(hex_buffer + i * 2, "%02x", event->sig[i]);
     }
     hex_buffer[128] = '\0';
-    cJSON_AddStringToObject(root, "sig", hex_buffer);
+    complete = complete && cJSON_AddStringToObject(root, "sig", hex_buffer);
 
-    *json = cJSON_Print(root);
+    *json = complete ? cJSON_Print(root) : NULL;
     cJSON_Delete(root);
 
     return *json ? NOSTR_OK : NOSTR_ERR_MEMORY;
-- 
2.43.0


From 8b373cc51ff75ab6c467237abc56a9451d02d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:16 +0000
Subject: [PATCH 02/43] fix: canonical serialization reports cJSON allocation
 failures instead of dropping fields

---
 src/relay_protocol.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index a698e1b..6f4d3d8 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -310,6 +310,16 @@ nostr_relay_error_t nostr_event_parse(const char* json, size_t json_len, nostr_e
     }
 }
 
+/* Append item to array; an item that cannot be appended is released. */
+static bool append_item(cJSON* array, cJSON* item)
+{
+    if (cJSON_AddItemToArray(array, item)) {
+        return true;
+    }
+    cJSON_Delete(item);
+    return false;
+}
+
 nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, char* buf, size_t buf_size, size_t* out_len)
 {
     if (!event || !buf || buf_size == 0) {
@@ -327,25 +337,25 @@ nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, ch
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber((double)event->created_at));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
+    bool complete = append_item(serialization, cJSON_CreateNumber(0));
+    complete = append_item(serialization, cJSON_CreateString(pubkey_hex)) && complete;
+    complete = append_item(serialization, cJSON_CreateNumber((double)event->created_at)) && complete;
+    complete = append_item(serialization, cJSON_CreateNumber(event->kind)) && complete;
 
     cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
+    for (size_t i = 0; i < event->tags_count && complete; i++) {
         cJSON* tag_array = cJSON_CreateArray();
-        for (size_t j = 0; j < event->tags[i].count; j++) {
+        for (size_t j = 0; j < event->tags[i].count && complete; j++) {
             const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
+            complete = append_item(tag_array, cJSON_CreateString(tag_value));
         }
-        cJSON_AddItemToArray(tags_array, tag_array);
+        complete = append_item(tags_array, tag_array) && complete;
     }
-    cJSON_AddItemToArray(serialization, tags_array);
+    complete = append_item(serialization, tags_array) && complete;
 
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(event->content ? event->content : ""));
+    complete = append_item(serialization, cJSON_CreateString(event->content ? event->content : "")) && complete;
 
-    char* json_str = cJSON_PrintUnformatted(serialization);
+    char* json_str = complete ? cJSON_PrintUnformatted(serialization) : NULL;
     cJSON_Delete(serialization);
 
     if (!json_str) {
-- 
2.43.0


From 89f6b3f090d1062792c008d59d3a7553084b2b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 03/43] fix: failed event construction leaves no dangling event
 pointer behind

---
 src/event.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/event.c b/src/event.c
index 2287600..e524eb3 100644
--- a/src/event.c
+++ b/src/event.c
@@ -97,6 +97,7 @@ nostr_error_t nostr_event_create(nostr_event** event)
 
     if (tag_arena_create(&(*event)->tag_arena, 1024) != NOSTR_OK) {
         free(*event);
+        *event = NULL;
         return NOSTR_ERR_MEMORY;
     }
 
@@ -502,6 +503,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
     
     if (tag_arena_create(&(*event)->tag_arena, 1024) != NOSTR_OK) {
         free(*event);
+        *event = NULL;
         cJSON_Delete(root);
         return NOSTR_ERR_MEMORY;
     }
@@ -510,6 +512,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
     if (id_json && cJSON_IsString(id_json)) {
         if (!hex_to_bytes(id_json->valuestring, (*event)->id, NOSTR_ID_SIZE)) {
             nostr_event_destroy(*event);
+            *event = NULL;
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_EVENT;
         }
@@ -519,6 +522,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
     if (pubkey_json && cJSON_IsString(pubkey_json)) {
         if (!hex_to_bytes(pubkey_json->valuestring, (*event)->pubkey.data, NOSTR_PUBKEY_SIZE)) {
             nostr_event_destroy(*event);
+            *event = NULL;
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_EVENT;
         }
@@ -539,12 +543,14 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         const nostr_config* cfg = nostr_config_get_current();
         if (cfg && strlen(content_json->valuestring) > cfg->max_content_size) {
             nostr_event_destroy(*event);
+            *event = NULL;
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_PARAM;
         }
         (*event)->content = strdup(content_json->valuestring);
         if (!(*event)->content) {
             nostr_event_destroy(*event);
+            *event = NULL;
             cJSON_Delete(root);
             return NOSTR_ERR_MEMORY;
         }
@@ -556,6 +562,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         const nostr_config* config = nostr_config_get_current();
         if (config && tags_count > (int)config->max_tags) {
             nostr_event_destroy(*event);
+            *event = NULL;
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_PARAM;
         }
@@ -563,6 +570,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
             (*event)->tags = calloc(tags_count, sizeof(nostr_tag));
             if (!(*event)->tags) {
                 nostr_event_destroy(*event);
+                *event = NULL;
                 cJSON_Delete(root);
                 return NOSTR_ERR_MEMORY;
             }
@@ -576,6 +584,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
                         const char** temp_values = malloc(sizeof(char*) * tag_size);
                         if (!temp_values) {
                             nostr_event_destroy(*event);
+                            *event = NULL;
                             cJSON_Delete(root);
                             return NOSTR_ERR_MEMORY;
                         }
@@ -592,6 +601,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
                         if (nostr_event_add_tag(*event, temp_values, tag_size) != NOSTR_OK) {
                             free(temp_values);
                             nostr_event_destroy(*event);
+                            *event = NULL;
                             cJSON_Delete(root);
                             return NOSTR_ERR_MEMORY;
                         }
@@ -607,6 +617,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
     if (sig_json && cJSON_IsString(sig_json)) {
         if (!hex_to_bytes(sig_json->valuestring, (*event)->sig, NOSTR_SIG_SIZE)) {
             nostr_event_destroy(*event);
+            *event = NULL;
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_EVENT;
         }
-- 
2.43.0


From 488bcdf3301f9ff41fa7a461a54ffab87a6b5cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 04/43] fix: failed zap request construction leaves no dangling
 event pointer behind

---
 src/zap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zap.c b/src/zap.c
index 962b91f..7d9f7f6 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -59,6 +59,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         err = nostr_event_set_content(*event, content);
         if (err != NOSTR_OK) {
             nostr_event_destroy(*event);
+            *event = NULL;
             return err;
         }
     }
@@ -72,6 +73,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     err = nostr_event_add_tag(*event, relay_tag, tag_count);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
@@ -81,6 +83,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     err = nostr_event_add_tag(*event, amount_tag, 2);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
@@ -89,6 +92,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         err = nostr_event_add_tag(*event, lnurl_tag, 2);
         if (err != NOSTR_OK) {
             nostr_event_destroy(*event);
+            *event = NULL;
             return err;
         }
     }
@@ -97,12 +101,14 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     err = nostr_key_to_hex(recipient, pubkey_hex, sizeof(pubkey_hex));
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     const char* p_tag[] = {"p", pubkey_hex};
     err = nostr_event_add_tag(*event, p_tag, 2);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
-- 
2.43.0


From 882c80c8403376ed185e85418316bae16613872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 05/43] fix: zap receipt parsing neither leaks repeated tags
 nor frees the caller's uninitialised pointer

---
 src/zap.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 7d9f7f6..768d696 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -146,6 +146,13 @@ nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    if (bolt11) {
+        *bolt11 = NULL;
+    }
+    if (zap_request) {
+        *zap_request = NULL;
+    }
+
     for (size_t i = 0; i < event->tags_count; i++) {
         if (event->tags[i].count < 2) {
             continue;
@@ -154,9 +161,13 @@ nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount
         const char* tag_name = event->tags[i].values[0];
         const char* tag_value = event->tags[i].values[1];
         
-        if (strcmp(tag_name, "bolt11") == 0 && bolt11) {
+        if (strcmp(tag_name, "bolt11") == 0 && bolt11 && !*bolt11) {
             *bolt11 = strdup(tag_value);
             if (!*bolt11) {
+                if (zap_request) {
+                    nostr_event_destroy(*zap_request);
+                    *zap_request = NULL;
+                }
                 return NOSTR_ERR_MEMORY;
             }
         } else if (strcmp(tag_name, "preimage") == 0 && preimage) {
@@ -165,7 +176,7 @@ nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount
                 memcpy(preimage, tag_value, len);
                 preimage[len] = '\0';
             }
-        } else if (strcmp(tag_name, "description") == 0 && zap_request) {
+        } else if (strcmp(tag_name, "description") == 0 && zap_request && !*zap_request) {
             nostr_error_t err = nostr_event_from_json(tag_value, zap_request);
             if (err != NOSTR_OK) {
                 if (bolt11 && *bolt11) {
-- 
2.43.0


From 59af7902f597caa91d8d3c88f8a3d493cf6f3dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 06/43] fix: lnurl validation rejects a human-readable part
 longer than its buffer

---
 src/zap.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 768d696..ea261cc 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -16,7 +16,7 @@ static int is_valid_bech32_char(char c)
     return strchr(charset, tolower(c)) != NULL;
 }
 
-static int decode_bech32(const char* bech32, char* hrp, uint8_t* data, size_t* data_len)
+static int decode_bech32(const char* bech32, char* hrp, size_t hrp_size, uint8_t* data, size_t* data_len)
 {
     size_t bech32_len = strlen(bech32);
     if (bech32_len < 8 || bech32_len > 90) {
@@ -30,7 +30,7 @@ static int decode_bech32(const char* bech32, char* hrp, uint8_t* data, size_t* d
         }
     }
     
-    if (separator < 1 || separator + 7 > bech32_len) {
+    if (separator < 1 || separator >= hrp_size || separator + 7 > bech32_len) {
         return 0;
     }
     
@@ -129,7 +129,7 @@ nostr_error_t nostr_zap_validate_lnurl(const char* lnurl, char* nostr_pubkey, bo
     uint8_t data[256];
     size_t data_len = sizeof(data);
     
-    if (!decode_bech32(lnurl, hrp, data, &data_len)) {
+    if (!decode_bech32(lnurl, hrp, sizeof(hrp), data, &data_len)) {
         return NOSTR_ERR_ENCODING;
     }
     
-- 
2.43.0


From 98a33c0aea5ea8f4cb7fb6772b83d06cd7ba2cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 07/43] fix: failed relay construction leaves no dangling relay
 pointer behind

---
 src/relay.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/relay.c b/src/relay.c
index 2d08bd8..b542e8c 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -171,6 +171,7 @@ nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
     (*relay)->url = strdup(url);
     if (!(*relay)->url) {
         free(*relay);
+        *relay = NULL;
         return NOSTR_ERR_MEMORY;
     }
 
-- 
2.43.0


From e7a6aaa85ff85310ea60c33b0cf76402bda3758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 08/43] fix: failed relay connect no longer leaves a freed
 connection behind

---
 src/relay.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/relay.c b/src/relay.c
index b542e8c..61a7966 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -224,6 +224,10 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     ccinfo.ssl_connection = LCCSCF_USE_SSL;
     
     char* url_copy = strdup(relay->url);
+    if (!url_copy) {
+        lws_context_destroy(context);
+        return NOSTR_ERR_MEMORY;
+    }
     if (strncmp(url_copy, "wss://", 6) == 0) {
         ccinfo.address = url_copy + 6;
         ccinfo.ssl_connection = LCCSCF_USE_SSL;
@@ -282,8 +286,10 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     struct lws* wsi = lws_client_connect_via_info(&ccinfo);
     if (!wsi) {
         free(url_copy);
-        free(ctx);
+        relay->ws_handle = NULL;
         lws_context_destroy(context);
+        destroy_queue_mutex(ctx);
+        free(ctx);
         relay->state = NOSTR_RELAY_ERROR;
         return NOSTR_ERR_CONNECTION;
     }
-- 
2.43.0


From c1c8d74bca03d115810e6e698b8cf8ca87c3dfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:48 +0000
Subject: [PATCH 09/43] fix: a failed subscribe leaves no subscription
 registered

---
 src/relay.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 61a7966..1362d3d 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -460,13 +460,17 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     }
 
     sub->id = strdup(subscription_id);
+    if (!sub->id) {
+        free(sub);
+        return NOSTR_ERR_MEMORY;
+    }
     sub->callback = callback;
     sub->user_data = user_data;
-    sub->next = ctx->subscriptions;
-    ctx->subscriptions = sub;
 
     char* msg = malloc(strlen(subscription_id) + strlen(filters_json) + 20);
     if (!msg) {
+        free(sub->id);
+        free(sub);
         return NOSTR_ERR_MEMORY;
     }
 
@@ -475,12 +479,17 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     size_t msg_len = strlen(msg);
     unsigned char* buf = malloc(LWS_PRE + msg_len);
     if (!buf) {
+        free(sub->id);
+        free(sub);
         free(msg);
         return NOSTR_ERR_MEMORY;
     }
     
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
+    sub->next = ctx->subscriptions;
+    ctx->subscriptions = sub;
+
     lock_queue_mutex(ctx);
     int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
     unlock_queue_mutex(ctx);
@@ -488,6 +497,12 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     free(msg);
     free(buf);
 
+    if (result < 0) {
+        ctx->subscriptions = sub->next;
+        free(sub->id);
+        free(sub);
+    }
+
     return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
 }
 
-- 
2.43.0


From 71b18683fd1229c7394bb6882cadc2798d9e22ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:27 +0000
Subject: [PATCH 10/43] fix: relay message serialization reports cJSON
 allocation failures instead of dropping fields

---
 src/relay_message.c | 45 +++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index 9a8ff3a..5dc4800 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -396,10 +396,11 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
+    bool complete = true;
     switch (msg->type) {
         case NOSTR_RELAY_MSG_EVENT: {
-            cJSON_AddItemToArray(root, cJSON_CreateString("EVENT"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.event.subscription_id));
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString("EVENT")) && complete;
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.event.subscription_id)) && complete;
 
             if (!msg->data.event.event) {
                 cJSON_Delete(root);
@@ -416,51 +417,51 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            cJSON_AddItemToArray(root, event_obj);
+            complete = cJSON_AddItemToArray(root, event_obj) && complete;
             break;
         }
 
         case NOSTR_RELAY_MSG_OK:
-            cJSON_AddItemToArray(root, cJSON_CreateString("OK"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.event_id));
-            cJSON_AddItemToArray(root, cJSON_CreateBool(msg->data.ok.success));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.message));
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString("OK")) && complete;
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.event_id)) && complete;
+            complete = cJSON_AddItemToArray(root, cJSON_CreateBool(msg->data.ok.success)) && complete;
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.message)) && complete;
             break;
 
         case NOSTR_RELAY_MSG_EOSE:
-            cJSON_AddItemToArray(root, cJSON_CreateString("EOSE"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.eose.subscription_id));
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString("EOSE")) && complete;
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.eose.subscription_id)) && complete;
             break;
 
         case NOSTR_RELAY_MSG_CLOSED:
-            cJSON_AddItemToArray(root, cJSON_CreateString("CLOSED"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.subscription_id));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.message));
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString("CLOSED")) && complete;
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.subscription_id)) && complete;
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.message)) && complete;
             break;
 
         case NOSTR_RELAY_MSG_NOTICE:
-            cJSON_AddItemToArray(root, cJSON_CreateString("NOTICE"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.notice.message));
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString("NOTICE")) && complete;
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.notice.message)) && complete;
             break;
 
         case NOSTR_RELAY_MSG_AUTH:
-            cJSON_AddItemToArray(root, cJSON_CreateString("AUTH"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.auth.challenge));
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString("AUTH")) && complete;
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.auth.challenge)) && complete;
             break;
 
         case NOSTR_RELAY_MSG_COUNT: {
-            cJSON_AddItemToArray(root, cJSON_CreateString("COUNT"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.count.query_id));
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString("COUNT")) && complete;
+            complete = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.count.query_id)) && complete;
             cJSON* count_obj = cJSON_CreateObject();
             if (!count_obj) {
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            cJSON_AddNumberToObject(count_obj, "count", (double)msg->data.count.count);
+            complete = cJSON_AddNumberToObject(count_obj, "count", (double)msg->data.count.count) && complete;
             if (msg->data.count.approximate) {
-                cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True);
+                complete = cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True) && complete;
             }
-            cJSON_AddItemToArray(root, count_obj);
+            complete = cJSON_AddItemToArray(root, count_obj) && complete;
             break;
         }
 
@@ -469,7 +470,7 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
             return NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE;
     }
 
-    char* json_str = cJSON_PrintUnformatted(root);
+    char* json_str = complete ? cJSON_PrintUnformatted(root) : NULL;
     cJSON_Delete(root);
 
     if (!json_str) {
-- 
2.43.0


From 5101af153a38cfa2b7b646b3ebbc714730636784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 11/43] fix: key, signing and verification calls no longer read
 the shared context without its lock

---
 src/event.c | 16 ++++++----------
 src/key.c   | 32 ++++++++++++--------------------
 2 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/src/event.c b/src/event.c
index e524eb3..a263d41 100644
--- a/src/event.c
+++ b/src/event.c
@@ -677,11 +677,9 @@ nostr_error_t nostr_event_sign(nostr_event* event, const nostr_privkey* privkey)
     secure_wipe(random32, sizeof(random32));
 
 #elif defined(HAVE_SECP256K1)
-    if (!secp256k1_ctx) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
 
     secp256k1_keypair keypair;
@@ -766,11 +764,9 @@ nostr_error_t nostr_event_verify(const nostr_event* event)
     }
 
 #elif defined(HAVE_SECP256K1)
-    if (!secp256k1_ctx) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
 
     nostr_event temp_event = *event;
diff --git a/src/key.c b/src/key.c
index 8b511ed..e989413 100644
--- a/src/key.c
+++ b/src/key.c
@@ -286,11 +286,9 @@ nostr_error_t nostr_key_generate(nostr_privkey* privkey, nostr_key* pubkey)
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (!ctx_initialized) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
 
 #ifdef HAVE_NOSCRYPT
@@ -444,11 +442,9 @@ nostr_error_t nostr_key_ecdh(const nostr_privkey* privkey, const nostr_key* pubk
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (!ctx_initialized) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
 
 #ifdef HAVE_NOSCRYPT
@@ -537,11 +533,9 @@ nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (!ctx_initialized) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
     
     memcpy(&keypair->privkey, privkey, sizeof(nostr_privkey));
@@ -624,11 +618,9 @@ nostr_error_t nostr_keypair_validate(const nostr_keypair* keypair)
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (!ctx_initialized) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
     
 #ifdef HAVE_NOSCRYPT
-- 
2.43.0


From a990ca943d05bc5dfaff238d83f10b5592e8b378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:13 +0000
Subject: [PATCH 12/43] fix: HD key functions initialise the library instead of
 using a null context

---
 src/hd_key.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hd_key.c b/src/hd_key.c
index 5ffafd6..72fae8c 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -43,6 +43,11 @@ nostr_error_t nostr_hd_key_from_seed(const uint8_t* seed, size_t seed_len, nostr
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
+    }
+
     memset(master, 0, sizeof(nostr_hd_key));
     
     if (!HMAC(EVP_sha512(), HD_SEED_KEY, strlen(HD_SEED_KEY), seed, seed_len, hash, &hash_len)) {
@@ -104,6 +109,11 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_INVALID_PARAM;
     }
 
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
+    }
+
     memset(child, 0, sizeof(nostr_hd_key));
 
     unsigned char data[37];
-- 
2.43.0


From 3e278455369edf734fc187f3b2e323f32e354e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:13 +0000
Subject: [PATCH 13/43] fix: the configuration callback runs without the
 configuration lock held

---
 src/config.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/config.c b/src/config.c
index 4db6996..d4cd650 100644
--- a/src/config.c
+++ b/src/config.c
@@ -256,11 +256,15 @@ nostr_error_t nostr_config_update(const nostr_config* config) {
     
     nostr_config old_config = g_config;
     g_config = *config;
+    nostr_config new_config = *config;
+    nostr_config_callback callback = g_config_callback;
+    void* user_data = g_config_callback_user_data;
     
-    if (g_config_callback) {
-        g_config_callback(&old_config, &g_config, g_config_callback_user_data);
+    unlock_config();
+
+    if (callback) {
+        callback(&old_config, &new_config, user_data);
     }
     
-    unlock_config();
     return NOSTR_OK;
 }
\ No newline at end of file
-- 
2.43.0


From cb38d97821d56232197721e9319acafd549d04a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:13 +0000
Subject: [PATCH 14/43] fix: mining threads only touch the shared stop flag
 under the mutex

---
 src/nip13.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nip13.c b/src/nip13.c
index 0adc5e6..fd7eede 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -357,8 +357,7 @@ static void* mining_thread(void* arg)
     uint64_t nonce = data->start_nonce;
     uint64_t iterations = 0;
     
-    while (!*(data->global_found) && 
-           (data->max_iterations == 0 || iterations < data->max_iterations)) {
+    while (data->max_iterations == 0 || iterations < data->max_iterations) {
         
         pthread_mutex_lock(data->mutex);
         if (*(data->global_found)) {
@@ -512,7 +511,9 @@ nostr_error_t nostr_nip13_mine_event_threaded(nostr_event* event, int target_dif
         thread_data[i].global_found = &global_found;
         
         if (pthread_create(&threads[i], NULL, mining_thread, &thread_data[i]) != 0) {
+            pthread_mutex_lock(&mutex);
             global_found = 1;
+            pthread_mutex_unlock(&mutex);
             for (int j = 0; j < i; j++) {
                 pthread_join(threads[j], NULL);
             }
-- 
2.43.0


From 9791e6a1c0c81776da09542c3fb74d02ab6c44ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:46 +0000
Subject: [PATCH 15/43] fix: the enabled-feature list is a constant instead of
 an unsynchronised static buffer

---
 src/features.c | 62 +++++++++++++++++++-------------------------------
 1 file changed, 23 insertions(+), 39 deletions(-)

diff --git a/src/features.c b/src/features.c
index 1113c2c..bec735b 100644
--- a/src/features.c
+++ b/src/features.c
@@ -104,85 +104,69 @@ int nostr_feature_relay_protocol_available(void)
 
 const char* nostr_feature_list_enabled(void)
 {
-    static char feature_list[512];
-    static int initialized = 0;
-
-    if (!initialized) {
-        size_t pos = 0;
-        size_t remaining = sizeof(feature_list);
-
-#define APPEND_FEATURE(str) do { \
-    int n = snprintf(feature_list + pos, remaining, str); \
-    if (n > 0 && (size_t)n < remaining) { pos += n; remaining -= n; } \
-} while(0)
-
-        APPEND_FEATURE("std,events,keys");
+    static const char feature_list[] =
+        "std,events,keys"
 #ifdef NOSTR_FEATURE_ENCODING
-        APPEND_FEATURE(",encoding");
+        ",encoding"
 #endif
 #ifdef NOSTR_FEATURE_NIP04
-        APPEND_FEATURE(",nip04");
+        ",nip04"
 #endif
 #ifdef NOSTR_FEATURE_NIP05
-        APPEND_FEATURE(",nip05");
+        ",nip05"
 #endif
 #ifdef NOSTR_FEATURE_NIP10
-        APPEND_FEATURE(",nip10");
+        ",nip10"
 #endif
 #ifdef NOSTR_FEATURE_NIP13
-        APPEND_FEATURE(",nip13");
+        ",nip13"
 #endif
 #ifdef NOSTR_FEATURE_NIP17
-        APPEND_FEATURE(",nip17");
+        ",nip17"
 #endif
 #ifdef NOSTR_FEATURE_NIP25
-        APPEND_FEATURE(",nip25");
+        ",nip25"
 #endif
 #ifdef NOSTR_FEATURE_NIP44
-        APPEND_FEATURE(",nip44");
+        ",nip44"
 #endif
 #ifdef NOSTR_FEATURE_NIP46
-        APPEND_FEATURE(",nip46");
+        ",nip46"
 #endif
 #ifdef NOSTR_FEATURE_NIP47
-        APPEND_FEATURE(",nip47");
+        ",nip47"
 #endif
 #ifdef NOSTR_FEATURE_NIP49
-        APPEND_FEATURE(",nip49");
+        ",nip49"
 #endif
 #ifdef NOSTR_FEATURE_NIP51
-        APPEND_FEATURE(",nip51");
+        ",nip51"
 #endif
 #ifdef NOSTR_FEATURE_NIP57
-        APPEND_FEATURE(",nip57");
+        ",nip57"
 #endif
 #ifdef NOSTR_FEATURE_NIP59
-        APPEND_FEATURE(",nip59");
+        ",nip59"
 #endif
 #ifdef NOSTR_FEATURE_NIP65
-        APPEND_FEATURE(",nip65");
+        ",nip65"
 #endif
 #ifdef NOSTR_FEATURE_RELAY
-        APPEND_FEATURE(",relay");
+        ",relay"
 #endif
 #ifdef NOSTR_FEATURE_RELAY_PROTOCOL
-        APPEND_FEATURE(",relay-protocol");
+        ",relay-protocol"
 #endif
 #ifdef NOSTR_FEATURE_HD_KEYS
-        APPEND_FEATURE(",hd-keys");
+        ",hd-keys"
 #endif
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
-        APPEND_FEATURE(",json-enhanced");
+        ",json-enhanced"
 #endif
 #ifdef NOSTR_FEATURE_THREADING
-        APPEND_FEATURE(",threading");
+        ",threading"
 #endif
-#undef APPEND_FEATURE
-
-        (void)pos;
-        (void)remaining;
-        initialized = 1;
-    }
+        ;
 
     return feature_list;
 }
-- 
2.43.0


From 809701a787614bec89eb9704605959f884ccfbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:06 +0000
Subject: [PATCH 16/43] fix: a relay whose connection was closed by the peer
 still releases it on destroy and reconnect

---
 src/relay.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/relay.c b/src/relay.c
index 1362d3d..10a2946 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -187,7 +187,7 @@ nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
 void nostr_relay_destroy(nostr_relay* relay) {
     if (!relay) return;
 
-    if (relay->state == NOSTR_RELAY_CONNECTED || relay->state == NOSTR_RELAY_CONNECTING) {
+    if (relay->ws_handle) {
         nostr_relay_disconnect(relay);
     }
 
@@ -204,6 +204,10 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         return NOSTR_ERR_CONNECTION;
     }
 
+    if (relay->ws_handle) {
+        nostr_relay_disconnect(relay);
+    }
+
     struct lws_context_creation_info info;
     memset(&info, 0, sizeof(info));
     info.port = CONTEXT_PORT_NO_LISTEN;
-- 
2.43.0


From cdf74cbb74a2a41af579586d0058b858bb7193c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:16 +0000
Subject: [PATCH 17/43] fix: the subscription list is only touched under the
 connection's mutex

---
 src/relay.c | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 10a2946..cc82f92 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -491,18 +491,20 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
+    lock_queue_mutex(ctx);
     sub->next = ctx->subscriptions;
     ctx->subscriptions = sub;
 
-    lock_queue_mutex(ctx);
     int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    if (result < 0) {
+        ctx->subscriptions = sub->next;
+    }
     unlock_queue_mutex(ctx);
 
     free(msg);
     free(buf);
 
     if (result < 0) {
-        ctx->subscriptions = sub->next;
         free(sub->id);
         free(sub);
     }
@@ -545,6 +547,7 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
         return NOSTR_ERR_CONNECTION;
     }
 
+    lock_queue_mutex(ctx);
     subscription_t** sub_ptr = &ctx->subscriptions;
     while (*sub_ptr) {
         if (strcmp((*sub_ptr)->id, subscription_id) == 0) {
@@ -556,6 +559,7 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
         }
         sub_ptr = &(*sub_ptr)->next;
     }
+    unlock_queue_mutex(ctx);
 
     char* msg = malloc(strlen(subscription_id) + 20);
     if (!msg) {
@@ -638,24 +642,34 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                     cJSON* sub_id = cJSON_GetArrayItem(json, 1);
                                     cJSON* event_json = cJSON_GetArrayItem(json, 2);
                                     if (cJSON_IsString(sub_id) && event_json) {
+                                        bool subscribed = false;
+                                        nostr_event_callback event_callback = NULL;
+                                        void* event_user_data = NULL;
+                                        lock_queue_mutex(ctx);
                                         subscription_t* sub = ctx->subscriptions;
                                         while (sub) {
                                             if (strcmp(sub->id, sub_id->valuestring) == 0) {
-                                                char* event_str = cJSON_Print(event_json);
-                                                if (event_str) {
-                                                    nostr_event* event;
-                                                    if (nostr_event_from_json(event_str, &event) == NOSTR_OK) {
-                                                        if (sub->callback) {
-                                                            sub->callback(event, sub->user_data);
-                                                        }
-                                                        nostr_event_destroy(event);
-                                                    }
-                                                    free(event_str);
-                                                }
+                                                subscribed = true;
+                                                event_callback = sub->callback;
+                                                event_user_data = sub->user_data;
                                                 break;
                                             }
                                             sub = sub->next;
                                         }
+                                        unlock_queue_mutex(ctx);
+                                        if (subscribed) {
+                                            char* event_str = cJSON_Print(event_json);
+                                            if (event_str) {
+                                                nostr_event* event;
+                                                if (nostr_event_from_json(event_str, &event) == NOSTR_OK) {
+                                                    if (event_callback) {
+                                                        event_callback(event, event_user_data);
+                                                    }
+                                                    nostr_event_destroy(event);
+                                                }
+                                                free(event_str);
+                                            }
+                                        }
                                     }
                                 } else if (strcmp(msg_type, "OK") == 0 && array_size >= 4) {
                                     if (ctx->message_callback) {
@@ -676,6 +690,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                 } else if (strcmp(msg_type, "CLOSED") == 0 && array_size >= 3) {
                                     cJSON* sub_id = cJSON_GetArrayItem(json, 1);
                                     if (cJSON_IsString(sub_id)) {
+                                        lock_queue_mutex(ctx);
                                         subscription_t** sub_ptr = &ctx->subscriptions;
                                         while (*sub_ptr) {
                                             if (strcmp((*sub_ptr)->id, sub_id->valuestring) == 0) {
@@ -687,6 +702,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                             }
                                             sub_ptr = &(*sub_ptr)->next;
                                         }
+                                        unlock_queue_mutex(ctx);
                                     }
                                     if (ctx->message_callback) {
                                         char* msg_str = cJSON_Print(json);
-- 
2.43.0


From 19248b9911f301c31a8508b63705d6985b39b500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:54 +0000
Subject: [PATCH 18/43] fix: the message callback and its user data are read
 and replaced as a pair under the mutex

---
 src/relay.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index cc82f92..1d83c8f 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -526,8 +526,10 @@ nostr_error_t nostr_relay_set_message_callback(nostr_relay* relay, nostr_message
     
     if (relay->ws_handle) {
         relay_context* ctx = (relay_context*)relay->ws_handle;
+        lock_queue_mutex(ctx);
         ctx->message_callback = callback;
         ctx->message_user_data = user_data;
+        unlock_queue_mutex(ctx);
     }
     
     return NOSTR_OK;
@@ -637,6 +639,10 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                             cJSON* type_item = cJSON_GetArrayItem(json, 0);
                             if (cJSON_IsString(type_item)) {
                                 const char* msg_type = type_item->valuestring;
+                                lock_queue_mutex(ctx);
+                                nostr_message_callback message_callback = ctx->message_callback;
+                                void* message_user_data = ctx->message_user_data;
+                                unlock_queue_mutex(ctx);
                                 
                                 if (strcmp(msg_type, "EVENT") == 0 && array_size >= 3) {
                                     cJSON* sub_id = cJSON_GetArrayItem(json, 1);
@@ -672,18 +678,18 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                         }
                                     }
                                 } else if (strcmp(msg_type, "OK") == 0 && array_size >= 4) {
-                                    if (ctx->message_callback) {
+                                    if (message_callback) {
                                         char* msg_str = cJSON_Print(json);
                                         if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
+                                            message_callback(msg_type, msg_str, message_user_data);
                                             free(msg_str);
                                         }
                                     }
                                 } else if (strcmp(msg_type, "EOSE") == 0 && array_size >= 2) {
-                                    if (ctx->message_callback) {
+                                    if (message_callback) {
                                         char* msg_str = cJSON_Print(json);
                                         if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
+                                            message_callback(msg_type, msg_str, message_user_data);
                                             free(msg_str);
                                         }
                                     }
@@ -704,25 +710,25 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                         }
                                         unlock_queue_mutex(ctx);
                                     }
-                                    if (ctx->message_callback) {
+                                    if (message_callback) {
                                         char* msg_str = cJSON_Print(json);
                                         if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
+                                            message_callback(msg_type, msg_str, message_user_data);
                                             free(msg_str);
                                         }
                                     }
                                 } else if (strcmp(msg_type, "NOTICE") == 0 && array_size >= 2) {
-                                    if (ctx->message_callback) {
+                                    if (message_callback) {
                                         char* msg_str = cJSON_Print(json);
                                         if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
+                                            message_callback(msg_type, msg_str, message_user_data);
                                             free(msg_str);
                                         }
                                     }
-                                } else if (ctx->message_callback) {
+                                } else if (message_callback) {
                                     char* msg_str = cJSON_Print(json);
                                     if (msg_str) {
-                                        ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
+                                        message_callback(msg_type, msg_str, message_user_data);
                                         free(msg_str);
                                     }
                                 }
-- 
2.43.0


From 13dfe2f438468898cdac9b00fa6f011c3b9e498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:44 +0000
Subject: [PATCH 19/43] fix: relay shutdown hands its state to the service
 thread under the mutex

---
 src/relay.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/relay.c b/src/relay.c
index 1d83c8f..e44bfc8 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -86,6 +86,9 @@ typedef struct {
     size_t buffer_pos;
 } relay_context;
 
+static void lock_queue_mutex(relay_context* ctx);
+static void unlock_queue_mutex(relay_context* ctx);
+
 #ifdef NOSTR_FEATURE_THREADING
 #ifdef _WIN32
 static DWORD WINAPI service_thread_func(LPVOID arg) {
@@ -94,7 +97,9 @@ static void* service_thread_func(void* arg) {
 #endif
     relay_context* ctx = (relay_context*)arg;
     while (ctx->service_running) {
+        lock_queue_mutex(ctx);
         struct lws_context* context = ctx->context;
+        unlock_queue_mutex(ctx);
         if (!context) break;
         lws_service(context, 50);
     }
@@ -343,10 +348,12 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
     }
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
+    lock_queue_mutex(ctx);
     ctx->reconnect_enabled = false;
 
     struct lws_context* context_to_destroy = ctx->context;
     ctx->context = NULL;
+    unlock_queue_mutex(ctx);
 
 #ifdef NOSTR_FEATURE_THREADING
     ctx->service_running = false;
@@ -761,7 +768,10 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                     ctx->state_callback(relay, NOSTR_RELAY_DISCONNECTED, ctx->user_data);
                 }
                 
-                if (ctx->reconnect_enabled) {
+                lock_queue_mutex(ctx);
+                bool reconnect_enabled = ctx->reconnect_enabled;
+                unlock_queue_mutex(ctx);
+                if (reconnect_enabled) {
                     time_t now = time(NULL);
                     if (now - ctx->last_connect_attempt >= ctx->reconnect_interval) {
                         ctx->last_connect_attempt = now;
-- 
2.43.0


From 43f8bb0db40d04cd94a72d2d6ade2573830c72a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:36 +0000
Subject: [PATCH 20/43] fix: report a failed checksum computation when encoding
 NIP-19 entities

---
 src/nip21.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nip21.c b/src/nip21.c
index e3e783d..824471a 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -79,7 +79,10 @@ static nostr_error_t encode_bytes_to_bech32(const uint8_t* data, size_t data_len
     }
 
     uint8_t checksum[6];
-    bech32_create_checksum(hrp, conv, conv_len, checksum);
+    if (!bech32_create_checksum(hrp, conv, conv_len, checksum)) {
+        free(conv);
+        return NOSTR_ERR_ENCODING;
+    }
 
     memcpy(out, hrp, hrp_len);
     out[hrp_len] = '1';
-- 
2.43.0


From c2eef70c06e636b60d2894eeea67411eb01bf655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 21/43] fix: reject malformed hex in keys, event fields and tag
 ids

---
 src/event.c          |  7 +------
 src/key.c            | 12 ++++--------
 src/relay_protocol.c |  8 ++------
 3 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/event.c b/src/event.c
index a263d41..8ca3d65 100644
--- a/src/event.c
+++ b/src/event.c
@@ -475,12 +475,7 @@ static int hex_to_bytes(const char* hex, unsigned char* bytes, size_t bytes_len)
         return 0;
     }
 
-    for (size_t i = 0; i < bytes_len; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &bytes[i]) != 1) {
-            return 0;
-        }
-    }
-    return 1;
+    return nostr_hex_decode(hex, bytes, bytes_len) == (int)bytes_len;
 }
 
 nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
diff --git a/src/key.c b/src/key.c
index e989413..576a433 100644
--- a/src/key.c
+++ b/src/key.c
@@ -383,10 +383,8 @@ nostr_error_t nostr_key_from_hex(const char* hex, nostr_key* key) {
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &key->data[i]) != 1) {
-            return NOSTR_ERR_INVALID_KEY;
-        }
+    if (nostr_hex_decode(hex, key->data, NOSTR_PUBKEY_SIZE) != NOSTR_PUBKEY_SIZE) {
+        return NOSTR_ERR_INVALID_KEY;
     }
     
     return NOSTR_OK;
@@ -414,10 +412,8 @@ nostr_error_t nostr_privkey_from_hex(const char* hex, nostr_privkey* privkey) {
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    for (int i = 0; i < NOSTR_PRIVKEY_SIZE; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &privkey->data[i]) != 1) {
-            return NOSTR_ERR_INVALID_KEY;
-        }
+    if (nostr_hex_decode(hex, privkey->data, NOSTR_PRIVKEY_SIZE) != NOSTR_PRIVKEY_SIZE) {
+        return NOSTR_ERR_INVALID_KEY;
     }
     
     return NOSTR_OK;
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 6f4d3d8..e263c3b 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -845,12 +845,8 @@ static nostr_relay_error_t hex_string_to_bytes(const char* hex, uint8_t* out, si
     size_t hex_len = strlen(hex);
     if (hex_len != out_size * 2) return NOSTR_RELAY_ERR_INVALID_ID;
 
-    for (size_t i = 0; i < out_size; i++) {
-        unsigned int byte;
-        if (sscanf(hex + i * 2, "%2x", &byte) != 1) {
-            return NOSTR_RELAY_ERR_INVALID_ID;
-        }
-        out[i] = (uint8_t)byte;
+    if (nostr_hex_decode(hex, out, out_size) != (int)out_size) {
+        return NOSTR_RELAY_ERR_INVALID_ID;
     }
     return NOSTR_RELAY_OK;
 }
-- 
2.43.0


From fb83a1a960f320ab6a0c2ce251dad8968f062a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 22/43] fix: reject event kinds and timestamps that do not fit
 instead of truncating them

---
 src/event.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 8ca3d65..df377e4 100644
--- a/src/event.c
+++ b/src/event.c
@@ -525,11 +525,24 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
 
     cJSON* created_at_json = cJSON_GetObjectItem(root, "created_at");
     if (created_at_json && cJSON_IsNumber(created_at_json)) {
-        (*event)->created_at = (int64_t)created_at_json->valuedouble;
+        double created_at = created_at_json->valuedouble;
+        if (!(created_at >= -9007199254740992.0 && created_at <= 9007199254740992.0)) {
+            nostr_event_destroy(*event);
+            *event = NULL;
+            cJSON_Delete(root);
+            return NOSTR_ERR_INVALID_EVENT;
+        }
+        (*event)->created_at = (int64_t)created_at;
     }
 
     cJSON* kind_json = cJSON_GetObjectItem(root, "kind");
     if (kind_json && cJSON_IsNumber(kind_json)) {
+        if (kind_json->valueint < 0 || kind_json->valueint > UINT16_MAX) {
+            nostr_event_destroy(*event);
+            *event = NULL;
+            cJSON_Delete(root);
+            return NOSTR_ERR_INVALID_EVENT;
+        }
         (*event)->kind = (uint16_t)kind_json->valueint;
     }
 
-- 
2.43.0


From 2ed642b7c9e7e3064b0da9246106ee3e94136fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 23/43] fix: reject filter time bounds that do not fit a
 timestamp

---
 src/relay_filter.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index 6ef4301..e31f807 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -169,11 +169,19 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
 
     cJSON* since = cJSON_GetObjectItem(root, "since");
     if (since && cJSON_IsNumber(since)) {
+        if (!(since->valuedouble >= -9007199254740992.0 && since->valuedouble <= 9007199254740992.0)) {
+            err = NOSTR_RELAY_ERR_INVALID_JSON;
+            goto cleanup;
+        }
         filter->since = (int64_t)since->valuedouble;
     }
 
     cJSON* until = cJSON_GetObjectItem(root, "until");
     if (until && cJSON_IsNumber(until)) {
+        if (!(until->valuedouble >= -9007199254740992.0 && until->valuedouble <= 9007199254740992.0)) {
+            err = NOSTR_RELAY_ERR_INVALID_JSON;
+            goto cleanup;
+        }
         filter->until = (int64_t)until->valuedouble;
     }
 
-- 
2.43.0


From 768fe57bbf14129943147ecb391eeb21c782227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 24/43] fix: reject HD path components that are empty or exceed
 31 bits

---
 src/hd_key.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index 72fae8c..ea9d2c5 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -252,14 +252,15 @@ nostr_error_t nostr_hd_key_derive_path(const nostr_hd_key* master, const char* p
         }
 
         char* endptr;
-        uint32_t index = strtoul(token, &endptr, 10);
-        if (*endptr != '\0' || index >= HD_HARDENED_FLAG) {
+        unsigned long parsed_index = strtoul(token, &endptr, 10);
+        if (endptr == token || *endptr != '\0' || parsed_index >= HD_HARDENED_FLAG) {
             secure_wipe(path_copy, path_len);
             free(path_copy);
             secure_wipe(&current, sizeof(current));
             return NOSTR_ERR_INVALID_PARAM;
         }
 
+        uint32_t index = (uint32_t)parsed_index;
         if (hardened) {
             index |= HD_HARDENED_FLAG;
         }
-- 
2.43.0


From ff5e12e6d60fc53e6d269e6e3a297d9b82522cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 25/43] fix: keep the default when a numeric environment
 setting is empty

---
 src/config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index d4cd650..37f600b 100644
--- a/src/config.c
+++ b/src/config.c
@@ -79,7 +79,7 @@ static uint32_t parse_uint32_env(const char* name, uint32_t default_val) {
     
     char* endptr;
     unsigned long val = strtoul(env, &endptr, 10);
-    if (*endptr != '\0' || val > UINT32_MAX) return default_val;
+    if (endptr == env || *endptr != '\0' || val > UINT32_MAX) return default_val;
     
     return (uint32_t)val;
 }
@@ -90,7 +90,7 @@ static int parse_int_env(const char* name, int default_val) {
     
     char* endptr;
     long val = strtol(env, &endptr, 10);
-    if (*endptr != '\0' || val > INT_MAX || val < INT_MIN) return default_val;
+    if (endptr == env || *endptr != '\0' || val > INT_MAX || val < INT_MIN) return default_val;
     
     return (int)val;
 }
-- 
2.43.0


From 88c5551ff58ff90809e8631439d4abd152850ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 26/43] fix: reject zap amounts that are malformed or overflow

---
 src/zap.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index ea261cc..bd97f14 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -2,6 +2,7 @@
 
 #ifdef NOSTR_FEATURE_NIP57
 
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -193,25 +194,37 @@ nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount
         if (amt_start) {
             amt_start += 4;
             char* amt_end;
-            unsigned long amt = strtoul(amt_start, &amt_end, 10);
+            errno = 0;
+            unsigned long long amt = strtoull(amt_start, &amt_end, 10);
             if (amt_end > amt_start) {
                 char multiplier = tolower(*amt_end);
+                uint64_t scale;
                 switch (multiplier) {
                     case 'm':
-                        *amount = amt * 100000000;
+                        scale = 100000000;
                         break;
                     case 'u':
-                        *amount = amt * 100000;
+                        scale = 100000;
                         break;
                     case 'n':
-                        *amount = amt * 100;
+                        scale = 100;
                         break;
                     case 'p':
-                        *amount = amt / 10;
+                        scale = 1;
                         break;
                     default:
-                        *amount = amt * 100000000000;
+                        scale = 100000000000;
                 }
+                if (errno != 0 || amt > UINT64_MAX / scale) {
+                    free(*bolt11);
+                    *bolt11 = NULL;
+                    if (zap_request && *zap_request) {
+                        nostr_event_destroy(*zap_request);
+                        *zap_request = NULL;
+                    }
+                    return NOSTR_ERR_INVALID_EVENT;
+                }
+                *amount = multiplier == 'p' ? amt / 10 : amt * scale;
             }
         }
     }
@@ -263,7 +276,14 @@ nostr_error_t nostr_zap_verify(const nostr_event* receipt, const nostr_event* re
     uint64_t request_amount = 0;
     for (size_t i = 0; i < request->tags_count; i++) {
         if (request->tags[i].count >= 2 && strcmp(request->tags[i].values[0], "amount") == 0) {
-            request_amount = strtoull(request->tags[i].values[1], NULL, 10);
+            char* amount_end;
+            errno = 0;
+            request_amount = strtoull(request->tags[i].values[1], &amount_end, 10);
+            if (errno != 0 || amount_end == request->tags[i].values[1] || *amount_end != '\0') {
+                nostr_event_destroy(embedded_request);
+                if (bolt11) free(bolt11);
+                return NOSTR_ERR_INVALID_EVENT;
+            }
             break;
         }
     }
-- 
2.43.0


From c244ffa4b56f6c7856fb0a419df97056955abfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 27/43] fix: reject malformed or oversized committed
 difficulties

---
 src/nip13.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nip13.c b/src/nip13.c
index fd7eede..4d9414b 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -2,6 +2,7 @@
 
 #ifdef NOSTR_FEATURE_NIP13
 
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -266,8 +267,12 @@ nostr_error_t nostr_nip13_verify_pow(const nostr_event* event, int min_difficult
     }
     
     if (event->tags[nonce_idx].count >= 3 && event->tags[nonce_idx].values[2]) {
-        int committed_difficulty = atoi(event->tags[nonce_idx].values[2]);
-        if (committed_difficulty > 0 && difficulty < committed_difficulty) {
+        const char* commitment = event->tags[nonce_idx].values[2];
+        char* commitment_end;
+        errno = 0;
+        long committed_difficulty = strtol(commitment, &commitment_end, 10);
+        if (errno != 0 || commitment_end == commitment || *commitment_end != '\0' ||
+            difficulty < committed_difficulty) {
             return NOSTR_ERR_INVALID_EVENT;
         }
     }
-- 
2.43.0


From 06b1b9de51210d09ee9d3a347e331d0d817bfca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 28/43] fix: detect out-of-range expiration timestamps

---
 src/relay_protocol.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index e263c3b..499b82e 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -4,6 +4,7 @@
  */
 
 #include "../include/nostr_relay_protocol.h"
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -263,8 +264,9 @@ int64_t nostr_event_get_expiration(const nostr_event* event)
     }
 
     char* endptr;
+    errno = 0;
     int64_t expiration = strtoll(exp_str, &endptr, 10);
-    if (*endptr != '\0' || expiration < 0) {
+    if (errno != 0 || endptr == exp_str || *endptr != '\0' || expiration < 0) {
         return 0;
     }
     return expiration;
-- 
2.43.0


From c76077a25cd4691fa0199481a0463fa6ff925ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 29/43] fix: reject filters whose constraints have the wrong
 JSON type

---
 src/relay_filter.c | 64 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index e31f807..312c80b 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -17,12 +17,17 @@
 
 static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_t* out_count)
 {
-    if (!arr || !cJSON_IsArray(arr)) {
-        *out_arr = NULL;
-        *out_count = 0;
+    *out_arr = NULL;
+    *out_count = 0;
+
+    if (!arr) {
         return NOSTR_RELAY_OK;
     }
 
+    if (!cJSON_IsArray(arr)) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
     int count = cJSON_GetArraySize(arr);
     if (count == 0) {
         *out_arr = NULL;
@@ -42,19 +47,26 @@ static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_
     *out_count = 0;
     for (int i = 0; i < count; i++) {
         cJSON* item = cJSON_GetArrayItem(arr, i);
-        if (cJSON_IsString(item) && item->valuestring) {
-            (*out_arr)[*out_count] = strdup(item->valuestring);
-            if (!(*out_arr)[*out_count]) {
-                for (size_t j = 0; j < *out_count; j++) {
-                    free((*out_arr)[j]);
-                }
-                free(*out_arr);
-                *out_arr = NULL;
-                *out_count = 0;
-                return NOSTR_RELAY_ERR_MEMORY;
+        if (!cJSON_IsString(item) || !item->valuestring) {
+            for (size_t j = 0; j < *out_count; j++) {
+                free((*out_arr)[j]);
             }
-            (*out_count)++;
+            free(*out_arr);
+            *out_arr = NULL;
+            *out_count = 0;
+            return NOSTR_RELAY_ERR_INVALID_JSON;
+        }
+        (*out_arr)[*out_count] = strdup(item->valuestring);
+        if (!(*out_arr)[*out_count]) {
+            for (size_t j = 0; j < *out_count; j++) {
+                free((*out_arr)[j]);
+            }
+            free(*out_arr);
+            *out_arr = NULL;
+            *out_count = 0;
+            return NOSTR_RELAY_ERR_MEMORY;
         }
+        (*out_count)++;
     }
 
     return NOSTR_RELAY_OK;
@@ -62,12 +74,17 @@ static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_
 
 static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t* out_count)
 {
-    if (!arr || !cJSON_IsArray(arr)) {
-        *out_arr = NULL;
-        *out_count = 0;
+    *out_arr = NULL;
+    *out_count = 0;
+
+    if (!arr) {
         return NOSTR_RELAY_OK;
     }
 
+    if (!cJSON_IsArray(arr)) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
     int count = cJSON_GetArraySize(arr);
     if (count == 0) {
         *out_arr = NULL;
@@ -87,9 +104,13 @@ static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t
     *out_count = 0;
     for (int i = 0; i < count; i++) {
         cJSON* item = cJSON_GetArrayItem(arr, i);
-        if (cJSON_IsNumber(item)) {
-            (*out_arr)[(*out_count)++] = (int32_t)item->valueint;
+        if (!cJSON_IsNumber(item)) {
+            free(*out_arr);
+            *out_arr = NULL;
+            *out_count = 0;
+            return NOSTR_RELAY_ERR_INVALID_JSON;
         }
+        (*out_arr)[(*out_count)++] = (int32_t)item->valueint;
     }
 
     return NOSTR_RELAY_OK;
@@ -108,6 +129,11 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
+    if (!cJSON_IsObject(root)) {
+        cJSON_Delete(root);
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
     nostr_relay_error_t err;
 
     err = parse_string_array(cJSON_GetObjectItem(root, "ids"), &filter->ids, &filter->ids_count);
-- 
2.43.0


From 241e773dbb87fe5d2a7b2ad64ebec7be9a44c782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 30/43] fix: tell #E and #P filters apart from #e and #p

---
 src/relay_filter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index 312c80b..9f78549 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -145,10 +145,10 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
     err = parse_int_array(cJSON_GetObjectItem(root, "kinds"), &filter->kinds, &filter->kinds_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "#e"), &filter->e_tags, &filter->e_tags_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#e"), &filter->e_tags, &filter->e_tags_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "#p"), &filter->p_tags, &filter->p_tags_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#p"), &filter->p_tags, &filter->p_tags_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
     size_t generic_count = 0;
-- 
2.43.0


From f57798cab01294ee81dd8a9f0392b69d7fff1429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:25 +0000
Subject: [PATCH 31/43] fix: reject filters whose bounds, limit or search have
 the wrong JSON type

---
 src/relay_filter.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index 9f78549..f1c13f7 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -194,7 +194,11 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
     }
 
     cJSON* since = cJSON_GetObjectItem(root, "since");
-    if (since && cJSON_IsNumber(since)) {
+    if (since && !cJSON_IsNumber(since)) {
+        err = NOSTR_RELAY_ERR_INVALID_JSON;
+        goto cleanup;
+    }
+    if (since) {
         if (!(since->valuedouble >= -9007199254740992.0 && since->valuedouble <= 9007199254740992.0)) {
             err = NOSTR_RELAY_ERR_INVALID_JSON;
             goto cleanup;
@@ -203,7 +207,11 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
     }
 
     cJSON* until = cJSON_GetObjectItem(root, "until");
-    if (until && cJSON_IsNumber(until)) {
+    if (until && !cJSON_IsNumber(until)) {
+        err = NOSTR_RELAY_ERR_INVALID_JSON;
+        goto cleanup;
+    }
+    if (until) {
         if (!(until->valuedouble >= -9007199254740992.0 && until->valuedouble <= 9007199254740992.0)) {
             err = NOSTR_RELAY_ERR_INVALID_JSON;
             goto cleanup;
@@ -212,12 +220,20 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
     }
 
     cJSON* limit = cJSON_GetObjectItem(root, "limit");
-    if (limit && cJSON_IsNumber(limit)) {
+    if (limit && !cJSON_IsNumber(limit)) {
+        err = NOSTR_RELAY_ERR_INVALID_JSON;
+        goto cleanup;
+    }
+    if (limit) {
         filter->limit = limit->valueint;
     }
 
     cJSON* search = cJSON_GetObjectItem(root, "search");
-    if (search && cJSON_IsString(search) && search->valuestring) {
+    if (search && (!cJSON_IsString(search) || !search->valuestring)) {
+        err = NOSTR_RELAY_ERR_INVALID_JSON;
+        goto cleanup;
+    }
+    if (search) {
         if (strlen(search->valuestring) > NOSTR_DEFAULT_MAX_CONTENT_LENGTH) {
             err = NOSTR_RELAY_ERR_INVALID_JSON;
             goto cleanup;
-- 
2.43.0


From e9e2e125b3f77dcf1290dc013e538d5c4b594618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:12 +0000
Subject: [PATCH 32/43] fix: match tag filters against every tag of an event

---
 src/relay_filter.c | 42 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index f1c13f7..db13d46 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -393,6 +393,18 @@ static bool hex_starts_with(const char* hex, size_t hex_len, const char* prefix)
     return strncmp(hex, prefix, prefix_len) == 0;
 }
 
+static bool has_tag_value(const nostr_event* event, const char* name, const char* value)
+{
+    for (size_t i = 0; i < event->tags_count; i++) {
+        const nostr_tag* tag = &event->tags[i];
+        if (tag->count >= 2 && tag->values[0] && tag->values[1] &&
+            strcmp(tag->values[0], name) == 0 && strcmp(tag->values[1], value) == 0) {
+            return true;
+        }
+    }
+    return false;
+}
+
 bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event)
 {
     if (!filter || !event) return false;
@@ -444,32 +456,16 @@ bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event
 
     if (filter->e_tags_count > 0) {
         bool matched = false;
-        const char* e_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t e_count = nostr_event_get_tag_values(event, "e", e_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
         for (size_t i = 0; i < filter->e_tags_count && !matched; i++) {
-            for (size_t j = 0; j < e_count; j++) {
-                if (e_values[j] && strcmp(e_values[j], filter->e_tags[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
+            matched = has_tag_value(event, "e", filter->e_tags[i]);
         }
         if (!matched) return false;
     }
 
     if (filter->p_tags_count > 0) {
         bool matched = false;
-        const char* p_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t p_count = nostr_event_get_tag_values(event, "p", p_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
         for (size_t i = 0; i < filter->p_tags_count && !matched; i++) {
-            for (size_t j = 0; j < p_count; j++) {
-                if (p_values[j] && strcmp(p_values[j], filter->p_tags[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
+            matched = has_tag_value(event, "p", filter->p_tags[i]);
         }
         if (!matched) return false;
     }
@@ -477,17 +473,9 @@ bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event
     for (size_t t = 0; t < filter->generic_tags_count; t++) {
         char tag_name[2] = { filter->generic_tags[t].tag_name, '\0' };
 
-        const char* tag_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t tag_count = nostr_event_get_tag_values(event, tag_name, tag_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
         bool matched = false;
         for (size_t i = 0; i < filter->generic_tags[t].values_count && !matched; i++) {
-            for (size_t j = 0; j < tag_count; j++) {
-                if (tag_values[j] && strcmp(tag_values[j], filter->generic_tags[t].values[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
+            matched = has_tag_value(event, tag_name, filter->generic_tags[t].values[i]);
         }
         if (!matched) return false;
     }
-- 
2.43.0


From 42e98ad1178f5545274b2e2ffb64126c97901979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:26 +0000
Subject: [PATCH 33/43] fix: zap requests list every relay instead of the first
 15

---
 src/zap.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index bd97f14..f815f06 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -65,13 +65,21 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         }
     }
     
-    const char* relay_tag[16];
+    const char** relay_tag = NULL;
+    if (relays_count < SIZE_MAX / sizeof(*relay_tag)) {
+        relay_tag = malloc((relays_count + 1) * sizeof(*relay_tag));
+    }
+    if (!relay_tag) {
+        nostr_event_destroy(*event);
+        *event = NULL;
+        return NOSTR_ERR_MEMORY;
+    }
     relay_tag[0] = "relays";
-    size_t tag_count = 1;
-    for (size_t i = 0; i < relays_count && tag_count < 16; i++) {
-        relay_tag[tag_count++] = relays[i];
+    for (size_t i = 0; i < relays_count; i++) {
+        relay_tag[i + 1] = relays[i];
     }
-    err = nostr_event_add_tag(*event, relay_tag, tag_count);
+    err = nostr_event_add_tag(*event, relay_tag, relays_count + 1);
+    free(relay_tag);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
         *event = NULL;
-- 
2.43.0


From 6769f7f9b06a7a5e7ed0e166afe48ec1bc8ff6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 34/43] fix: bech32 decoders have room for the longest string
 they accept

---
 src/bech32.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bech32.c b/src/bech32.c
index 5bb58d9..6eab89c 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -179,7 +179,7 @@ nostr_error_t nostr_key_from_bech32(const char* bech32, nostr_key* key) {
     strncpy(hrp, bech32, sep);
     hrp[sep] = '\0';
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = sep + 1; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
@@ -250,7 +250,7 @@ nostr_error_t nostr_privkey_from_bech32(const char* bech32, nostr_privkey* privk
         return NOSTR_ERR_ENCODING;
     }
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
@@ -321,7 +321,7 @@ nostr_error_t nostr_event_id_from_bech32(const char* bech32, uint8_t* id) {
         return NOSTR_ERR_ENCODING;
     }
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
-- 
2.43.0


From 3c34bb4ba05ba7a7ef047c1132863847588943a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:09 +0000
Subject: [PATCH 35/43] fix: nsec and note strings need room for their checksum

---
 src/bech32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bech32.c b/src/bech32.c
index 6eab89c..b348175 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -246,7 +246,7 @@ nostr_error_t nostr_privkey_from_bech32(const char* bech32, nostr_privkey* privk
     }
     
     size_t len = strlen(bech32);
-    if (len < 8 || len > 90) {
+    if (len < 5 + 6 || len > 90) {
         return NOSTR_ERR_ENCODING;
     }
     
@@ -317,7 +317,7 @@ nostr_error_t nostr_event_id_from_bech32(const char* bech32, uint8_t* id) {
     }
     
     size_t len = strlen(bech32);
-    if (len < 8 || len > 90) {
+    if (len < 5 + 6 || len > 90) {
         return NOSTR_ERR_ENCODING;
     }
     
-- 
2.43.0


From 0cf315c2a7c953a2ae589178267e3b6431710876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:00 +0000
Subject: [PATCH 36/43] fix: wipe private keys from the buffers used by bech32
 encoding and decoding

---
 src/bech32.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bech32.c b/src/bech32.c
index b348175..bf6e246 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -52,6 +52,7 @@ int bech32_verify_checksum(const char* hrp, const uint8_t* data, size_t data_len
     memcpy(combined + hrp_len, data, data_len);
 
     int result = bech32_polymod(combined, (size_t)hrp_len + data_len) == 1;
+    secure_wipe(combined, (size_t)hrp_len + data_len);
     free(combined);
     return result;
 }
@@ -73,6 +74,7 @@ int bech32_create_checksum(const char* hrp, const uint8_t* data, size_t data_len
     for (int i = 0; i < 6; i++) {
         checksum[i] = (polymod >> (5 * (5 - i))) & 31;
     }
+    secure_wipe(combined, (size_t)hrp_len + data_len + 6);
     free(combined);
     return 6;
 }
@@ -214,11 +216,13 @@ nostr_error_t nostr_privkey_to_bech32(const nostr_privkey* privkey, char* bech32
     uint8_t data[52];
     int data_len = bech32_convert_bits(privkey->data, NOSTR_PRIVKEY_SIZE, data, sizeof(data), 8, 5, 1);
     if (data_len <= 0) {
+        secure_wipe(data, sizeof(data));
         return NOSTR_ERR_ENCODING;
     }
     
     uint8_t checksum[6];
     if (!bech32_create_checksum("nsec", data, data_len, checksum)) {
+        secure_wipe(data, sizeof(data));
         return NOSTR_ERR_ENCODING;
     }
 
@@ -233,6 +237,7 @@ nostr_error_t nostr_privkey_to_bech32(const nostr_privkey* privkey, char* bech32
     }
     *pos = '\0';
     
+    secure_wipe(data, sizeof(data));
     return NOSTR_OK;
 }
 
@@ -254,22 +259,27 @@ nostr_error_t nostr_privkey_from_bech32(const char* bech32, nostr_privkey* privk
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
+            secure_wipe(data, sizeof(data));
             return NOSTR_ERR_ENCODING;
         }
         data[i - 5] = val;
     }
     
     if (!bech32_verify_checksum("nsec", data, len - 5)) {
+        secure_wipe(data, sizeof(data));
         return NOSTR_ERR_ENCODING;
     }
     
     uint8_t decoded[32];
     int decoded_len = bech32_convert_bits(data, len - 5 - 6, decoded, sizeof(decoded), 5, 8, 0);
+    secure_wipe(data, sizeof(data));
     if (decoded_len != NOSTR_PRIVKEY_SIZE) {
+        secure_wipe(decoded, sizeof(decoded));
         return NOSTR_ERR_ENCODING;
     }
     
     memcpy(privkey->data, decoded, NOSTR_PRIVKEY_SIZE);
+    secure_wipe(decoded, sizeof(decoded));
     return NOSTR_OK;
 }
 
-- 
2.43.0


From 0b34622c0304a830f012c6a63d9b11132f46f48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:00 +0000
Subject: [PATCH 37/43] fix: a failed child key derivation leaves no key
 material in *child

---
 src/hd_key.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index ea9d2c5..8e3d19f 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -147,8 +147,6 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_MEMORY;
     }
     
-    memcpy(child->chain_code, hash + 32, 32);
-    
     unsigned char child_privkey[32];
     memcpy(child_privkey, parent->privkey.data, 32);
 
@@ -159,6 +157,7 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_INVALID_KEY;
     }
 
+    memcpy(child->chain_code, hash + 32, 32);
     memcpy(child->privkey.data, child_privkey, 32);
 
 #ifdef HAVE_NOSCRYPT
@@ -172,6 +171,7 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         secure_wipe(data, sizeof(data));
         secure_wipe(child_privkey, 32);
         secure_wipe(&child_seckey, sizeof(child_seckey));
+        secure_wipe(child, sizeof(nostr_hd_key));
         return NOSTR_ERR_INVALID_KEY;
     }
 
@@ -185,11 +185,13 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         secure_wipe(hash, 64);
         secure_wipe(data, sizeof(data));
         secure_wipe(child_privkey, 32);
+        secure_wipe(child, sizeof(nostr_hd_key));
         return NOSTR_ERR_INVALID_KEY;
     }
 
     secp256k1_xonly_pubkey xonly_pubkey;
     if (!secp256k1_keypair_xonly_pub(secp256k1_ctx, &xonly_pubkey, NULL, &child_keypair)) {
+        secure_wipe(child, sizeof(nostr_hd_key));
         secure_wipe(hash, 64);
         secure_wipe(data, sizeof(data));
         secure_wipe(child_privkey, 32);
@@ -198,6 +200,7 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
     }
 
     if (!secp256k1_xonly_pubkey_serialize(secp256k1_ctx, child->pubkey.data, &xonly_pubkey)) {
+        secure_wipe(child, sizeof(nostr_hd_key));
         secure_wipe(hash, 64);
         secure_wipe(data, sizeof(data));
         secure_wipe(child_privkey, 32);
-- 
2.43.0


From d484df0be07036cdacc56e810b785af5cc599253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:00 +0000
Subject: [PATCH 38/43] fix: wipe every copy of a mnemonic, its entropy and its
 passphrase

---
 src/hd_key.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index 8e3d19f..2ba0746 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -372,7 +372,9 @@ nostr_error_t nostr_mnemonic_generate(int word_count, char* mnemonic, size_t mne
 
         if (pos + word_len + (i > 0 ? 1 : 0) >= mnemonic_size) {
             secure_wipe(entropy, sizeof(entropy));
+            secure_wipe(hash, sizeof(hash));
             secure_wipe(combined, sizeof(combined));
+            secure_wipe(mnemonic, mnemonic_size);
             return NOSTR_ERR_INVALID_PARAM;
         }
 
@@ -385,6 +387,7 @@ nostr_error_t nostr_mnemonic_generate(int word_count, char* mnemonic, size_t mne
     mnemonic[pos] = '\0';
 
     secure_wipe(entropy, sizeof(entropy));
+    secure_wipe(hash, sizeof(hash));
     secure_wipe(combined, sizeof(combined));
 
     return NOSTR_OK;
@@ -410,6 +413,7 @@ nostr_error_t nostr_mnemonic_validate(const char* mnemonic)
     while (word != NULL && word_count < 24) {
         int idx = bip39_word_index(word);
         if (idx < 0) {
+            secure_wipe(indices, sizeof(indices));
             secure_wipe(mnemonic_copy, mnemonic_len);
             free(mnemonic_copy);
             return NOSTR_ERR_INVALID_PARAM;
@@ -419,6 +423,7 @@ nostr_error_t nostr_mnemonic_validate(const char* mnemonic)
     }
 
     if (word != NULL) {
+        secure_wipe(indices, sizeof(indices));
         secure_wipe(mnemonic_copy, mnemonic_len);
         free(mnemonic_copy);
         return NOSTR_ERR_INVALID_PARAM;
@@ -436,6 +441,7 @@ nostr_error_t nostr_mnemonic_validate(const char* mnemonic)
         entropy_bytes = 32;
         checksum_bits = 8;
     } else {
+        secure_wipe(indices, sizeof(indices));
         return NOSTR_ERR_INVALID_PARAM;
     }
 
@@ -454,6 +460,8 @@ nostr_error_t nostr_mnemonic_validate(const char* mnemonic)
         }
     }
 
+    secure_wipe(indices, sizeof(indices));
+
     uint8_t hash[SHA256_DIGEST_LENGTH];
     SHA256(entropy, entropy_bytes, hash);
 
@@ -510,6 +518,7 @@ nostr_error_t nostr_mnemonic_to_seed(const char* mnemonic, const char* passphras
     if (passphrase) {
         norm_passphrase = nfkd_normalize(passphrase);
         if (!norm_passphrase) {
+            secure_wipe(norm_mnemonic, strlen(norm_mnemonic));
             free(norm_mnemonic);
             return NOSTR_ERR_MEMORY;
         }
@@ -520,8 +529,12 @@ nostr_error_t nostr_mnemonic_to_seed(const char* mnemonic, const char* passphras
 
     char* salt = malloc(salt_len + 1);
     if (!salt) {
+        secure_wipe(norm_mnemonic, strlen(norm_mnemonic));
         free(norm_mnemonic);
-        if (norm_passphrase) free(norm_passphrase);
+        if (norm_passphrase) {
+            secure_wipe(norm_passphrase, passphrase_len);
+            free(norm_passphrase);
+        }
         return NOSTR_ERR_MEMORY;
     }
 
-- 
2.43.0


From dd32d0d01b5e8858b0d6451bf435696de3a18ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:00 +0000
Subject: [PATCH 39/43] fix: a failed key generation or import leaves no key
 material in the output

---
 src/key.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/key.c b/src/key.c
index 576a433..7da3017 100644
--- a/src/key.c
+++ b/src/key.c
@@ -331,6 +331,7 @@ nostr_error_t nostr_key_generate(nostr_privkey* privkey, nostr_key* pubkey)
     int attempts = 0;
     while (attempts < 128) {
         if (nostr_random_bytes(privkey->data, NOSTR_PRIVKEY_SIZE) != 1) {
+            secure_wipe(privkey->data, NOSTR_PRIVKEY_SIZE);
             return NOSTR_ERR_MEMORY;
         }
 
@@ -413,6 +414,7 @@ nostr_error_t nostr_privkey_from_hex(const char* hex, nostr_privkey* privkey) {
     }
     
     if (nostr_hex_decode(hex, privkey->data, NOSTR_PRIVKEY_SIZE) != NOSTR_PRIVKEY_SIZE) {
+        secure_wipe(privkey->data, NOSTR_PRIVKEY_SIZE);
         return NOSTR_ERR_INVALID_KEY;
     }
     
@@ -520,7 +522,11 @@ nostr_error_t nostr_keypair_from_private_hex(nostr_keypair* keypair, const char*
         return err;
     }
     
-    return nostr_keypair_from_private_key(keypair, &keypair->privkey);
+    err = nostr_keypair_from_private_key(keypair, &keypair->privkey);
+    if (err != NOSTR_OK) {
+        secure_wipe(&keypair->privkey, sizeof(nostr_privkey));
+    }
+    return err;
 }
 
 nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr_privkey* privkey)
-- 
2.43.0


From 9dfdbd7d08d5b2bbff71f5d95a19fc5876560b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:22 +0000
Subject: [PATCH 40/43] fix: look up JSON members by their exact name

---
 src/event.c        | 14 +++++++-------
 src/relay_filter.c | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/event.c b/src/event.c
index df377e4..b99ec58 100644
--- a/src/event.c
+++ b/src/event.c
@@ -503,7 +503,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         return NOSTR_ERR_MEMORY;
     }
 
-    cJSON* id_json = cJSON_GetObjectItem(root, "id");
+    cJSON* id_json = cJSON_GetObjectItemCaseSensitive(root, "id");
     if (id_json && cJSON_IsString(id_json)) {
         if (!hex_to_bytes(id_json->valuestring, (*event)->id, NOSTR_ID_SIZE)) {
             nostr_event_destroy(*event);
@@ -513,7 +513,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         }
     }
 
-    cJSON* pubkey_json = cJSON_GetObjectItem(root, "pubkey");
+    cJSON* pubkey_json = cJSON_GetObjectItemCaseSensitive(root, "pubkey");
     if (pubkey_json && cJSON_IsString(pubkey_json)) {
         if (!hex_to_bytes(pubkey_json->valuestring, (*event)->pubkey.data, NOSTR_PUBKEY_SIZE)) {
             nostr_event_destroy(*event);
@@ -523,7 +523,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         }
     }
 
-    cJSON* created_at_json = cJSON_GetObjectItem(root, "created_at");
+    cJSON* created_at_json = cJSON_GetObjectItemCaseSensitive(root, "created_at");
     if (created_at_json && cJSON_IsNumber(created_at_json)) {
         double created_at = created_at_json->valuedouble;
         if (!(created_at >= -9007199254740992.0 && created_at <= 9007199254740992.0)) {
@@ -535,7 +535,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         (*event)->created_at = (int64_t)created_at;
     }
 
-    cJSON* kind_json = cJSON_GetObjectItem(root, "kind");
+    cJSON* kind_json = cJSON_GetObjectItemCaseSensitive(root, "kind");
     if (kind_json && cJSON_IsNumber(kind_json)) {
         if (kind_json->valueint < 0 || kind_json->valueint > UINT16_MAX) {
             nostr_event_destroy(*event);
@@ -546,7 +546,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         (*event)->kind = (uint16_t)kind_json->valueint;
     }
 
-    cJSON* content_json = cJSON_GetObjectItem(root, "content");
+    cJSON* content_json = cJSON_GetObjectItemCaseSensitive(root, "content");
     if (content_json && cJSON_IsString(content_json)) {
         const nostr_config* cfg = nostr_config_get_current();
         if (cfg && strlen(content_json->valuestring) > cfg->max_content_size) {
@@ -564,7 +564,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         }
     }
 
-    cJSON* tags_json = cJSON_GetObjectItem(root, "tags");
+    cJSON* tags_json = cJSON_GetObjectItemCaseSensitive(root, "tags");
     if (tags_json && cJSON_IsArray(tags_json)) {
         int tags_count = cJSON_GetArraySize(tags_json);
         const nostr_config* config = nostr_config_get_current();
@@ -621,7 +621,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         }
     }
 
-    cJSON* sig_json = cJSON_GetObjectItem(root, "sig");
+    cJSON* sig_json = cJSON_GetObjectItemCaseSensitive(root, "sig");
     if (sig_json && cJSON_IsString(sig_json)) {
         if (!hex_to_bytes(sig_json->valuestring, (*event)->sig, NOSTR_SIG_SIZE)) {
             nostr_event_destroy(*event);
diff --git a/src/relay_filter.c b/src/relay_filter.c
index db13d46..6226c8f 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -136,13 +136,13 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
 
     nostr_relay_error_t err;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "ids"), &filter->ids, &filter->ids_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "ids"), &filter->ids, &filter->ids_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "authors"), &filter->authors, &filter->authors_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "authors"), &filter->authors, &filter->authors_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_int_array(cJSON_GetObjectItem(root, "kinds"), &filter->kinds, &filter->kinds_count);
+    err = parse_int_array(cJSON_GetObjectItemCaseSensitive(root, "kinds"), &filter->kinds, &filter->kinds_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
     err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#e"), &filter->e_tags, &filter->e_tags_count);
@@ -193,7 +193,7 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         filter->generic_tags_count = generic_count;
     }
 
-    cJSON* since = cJSON_GetObjectItem(root, "since");
+    cJSON* since = cJSON_GetObjectItemCaseSensitive(root, "since");
     if (since && !cJSON_IsNumber(since)) {
         err = NOSTR_RELAY_ERR_INVALID_JSON;
         goto cleanup;
@@ -206,7 +206,7 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         filter->since = (int64_t)since->valuedouble;
     }
 
-    cJSON* until = cJSON_GetObjectItem(root, "until");
+    cJSON* until = cJSON_GetObjectItemCaseSensitive(root, "until");
     if (until && !cJSON_IsNumber(until)) {
         err = NOSTR_RELAY_ERR_INVALID_JSON;
         goto cleanup;
@@ -219,7 +219,7 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         filter->until = (int64_t)until->valuedouble;
     }
 
-    cJSON* limit = cJSON_GetObjectItem(root, "limit");
+    cJSON* limit = cJSON_GetObjectItemCaseSensitive(root, "limit");
     if (limit && !cJSON_IsNumber(limit)) {
         err = NOSTR_RELAY_ERR_INVALID_JSON;
         goto cleanup;
@@ -228,7 +228,7 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         filter->limit = limit->valueint;
     }
 
-    cJSON* search = cJSON_GetObjectItem(root, "search");
+    cJSON* search = cJSON_GetObjectItemCaseSensitive(root, "search");
     if (search && (!cJSON_IsString(search) || !search->valuestring)) {
         err = NOSTR_RELAY_ERR_INVALID_JSON;
         goto cleanup;
-- 
2.43.0


From 8af0ff287c1196233a8fe610ce925bffd9eb3812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:00 +0000
Subject: [PATCH 41/43] fix: mark a key pair unusable when refilling it fails

---
 src/key.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key.c b/src/key.c
index 7da3017..cc5acae 100644
--- a/src/key.c
+++ b/src/key.c
@@ -502,6 +502,7 @@ nostr_error_t nostr_keypair_generate(nostr_keypair* keypair)
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    keypair->initialized = 0;
     nostr_error_t err = nostr_key_generate(&keypair->privkey, &keypair->pubkey);
     if (err != NOSTR_OK) {
         return err;
@@ -517,6 +518,7 @@ nostr_error_t nostr_keypair_from_private_hex(nostr_keypair* keypair, const char*
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    keypair->initialized = 0;
     nostr_error_t err = nostr_privkey_from_hex(privkey_hex, &keypair->privkey);
     if (err != NOSTR_OK) {
         return err;
@@ -540,6 +542,7 @@ nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr
         return init_err;
     }
     
+    keypair->initialized = 0;
     memcpy(&keypair->privkey, privkey, sizeof(nostr_privkey));
     
 #ifdef HAVE_NOSCRYPT
-- 
2.43.0


From dc872fa6cf03ddaec72a612c79ab5eb8c5adc73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:20 +0000
Subject: [PATCH 42/43] fix: reject signs and blanks in HD path components

---
 src/hd_key.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index 2ba0746..42b1931 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -256,7 +256,7 @@ nostr_error_t nostr_hd_key_derive_path(const nostr_hd_key* master, const char* p
 
         char* endptr;
         unsigned long parsed_index = strtoul(token, &endptr, 10);
-        if (endptr == token || *endptr != '\0' || parsed_index >= HD_HARDENED_FLAG) {
+        if (token[0] < '0' || token[0] > '9' || *endptr != '\0' || parsed_index >= HD_HARDENED_FLAG) {
             secure_wipe(path_copy, path_len);
             free(path_copy);
             secure_wipe(&current, sizeof(current));
-- 
2.43.0


From da456da1e03ed74ec1ed09c05ef66cf1d15d567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:41 +0000
Subject: [PATCH 43/43] fix: relay: do not keep received text that begins no
 message

---
 src/relay.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/relay.c b/src/relay.c
index e44bfc8..ee137e2 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -749,7 +749,9 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                     while (*start && (*start == '\n' || *start == '\r' || *start == ' ')) start++;
                 }
                 
-                size_t remaining = strlen(start);
+                /* Only an incomplete message is worth waiting for: text that begins
+                   none would stay in front of everything received later. */
+                size_t remaining = *start == '[' ? strlen(start) : 0;
                 if (remaining > 0) {
                     memmove(ctx->receive_buffer, start, remaining + 1);
                     ctx->buffer_pos = remaining;
-- 
2.43.0

