From c2ec70c52520bea97511edebfdc6e966f6133928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 01/58] fix: size bag reallocation by its element type

---
 lib/include/internal/bag.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/internal/bag.h b/lib/include/internal/bag.h
index e53d5fe..8b5bde3 100644
--- a/lib/include/internal/bag.h
+++ b/lib/include/internal/bag.h
@@ -29,7 +29,7 @@ HT_DECLS_BEGIN
     static HT_INLINE HT_Boolean \
     ht_bag##METHOD_SUFFIX##_resize_(HT_Bag##TYPE_SUFFIX* bag, size_t new_capacity) \
     { \
-        TYPE* ptr = (TYPE*)ht_realloc(bag->data, new_capacity * sizeof(void*)); \
+        TYPE* ptr = (TYPE*)ht_realloc(bag->data, new_capacity * sizeof(TYPE)); \
         \
         if (ptr == NULL) \
         { \
-- 
2.43.0


From 9cd8a5ea8d0a12f808bfd55c3b56450872fb5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:33 +0000
Subject: [PATCH 02/58] fix: serialize missing strings as empty strings so the
 stream stays aligned

---
 lib/include/hawktracer/event_macros.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/include/hawktracer/event_macros.h b/lib/include/hawktracer/event_macros.h
index 4c3618b..24eeb0e 100644
--- a/lib/include/hawktracer/event_macros.h
+++ b/lib/include/hawktracer/event_macros.h
@@ -16,7 +16,7 @@
 #define HT_EVENT_RUNTIME_SIZEOF_INTEGER(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
 #define HT_EVENT_RUNTIME_SIZEOF_POINTER(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
 #define HT_EVENT_RUNTIME_SIZEOF_DOUBLE(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
-#define HT_EVENT_RUNTIME_SIZEOF_STRING(VAR_NAME, FIELD, C_TYPE) (VAR_NAME->FIELD ? strlen(VAR_NAME->FIELD) + 1 : 0)
+#define HT_EVENT_RUNTIME_SIZEOF_STRING(VAR_NAME, FIELD, C_TYPE) (VAR_NAME->FIELD ? strlen(VAR_NAME->FIELD) + 1 : 1)
 #define HT_EVENT_RUNTIME_SIZEOF__(VAR_NAME, DATA_TYPE, C_TYPE, FIELD, ...) +HT_EVENT_RUNTIME_SIZEOF_##DATA_TYPE(VAR_NAME, FIELD, C_TYPE)
 #define HT_EVENT_RUNTIME_SIZEOF_(...) MKCREFLECT_EXPAND_(HT_EVENT_RUNTIME_SIZEOF__(__VA_ARGS__, 0))
 #define HT_EVENT_RUNTIME_SIZEOF(X, USER_DATA) HT_EVENT_RUNTIME_SIZEOF_(USER_DATA, MKCREFLECT_EXPAND_VA_ X)
@@ -28,8 +28,9 @@
 #define HT_EVENT_RUNTIME_SERIALIZE_POINTER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_DOUBLE(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_STRING(C_TYPE, FIELD) do {\
-    size_t len = (VAR_NAME->FIELD) ? strlen(VAR_NAME->FIELD) + 1 : 0; \
-    memcpy(buffer + offset, VAR_NAME->FIELD, len); \
+    const char* str = (VAR_NAME->FIELD) ? (VAR_NAME->FIELD) : ""; \
+    size_t len = strlen(str) + 1; \
+    memcpy(buffer + offset, str, len); \
     offset += len; \
 } while (0);
 #define HT_EVENT_RUNTIME_SERIALIZE__(DATA_TYPE, C_TYPE, FIELD, ...) HT_EVENT_RUNTIME_SERIALIZE_##DATA_TYPE(C_TYPE, FIELD)
-- 
2.43.0


From 9747b56f72a385ca9e6099b62842133f5a30d131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:42 +0000
Subject: [PATCH 03/58] fix: stop reading instead of crashing on malformed
 class descriptions and events

---
 .../hawktracer/parser/protocol_reader.hpp     |  5 +-
 parser/protocol_reader.cpp                    | 46 +++++++++++++++++--
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 819b0ec..04c1319 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -45,7 +45,10 @@ private:
     std::vector<OnNewEventCallback> _on_new_event_callbacks;
     std::unique_ptr<Stream> _stream;
     std::thread _thread;
-    std::atomic_bool _is_running;
+    std::atomic_bool _is_running{false};
+    bool _is_malformed = false;
+    size_t _struct_depth = 0;
+    size_t _struct_count = 0;
     std::condition_variable _cv;
     std::mutex _mtx_cv;
     bool _flat_events;
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 4c4a7cd..91d55e7 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -6,19 +6,33 @@
 #include <cassert>
 #include <cstring>
 #include <cstdlib>
+#include <exception>
+#include <iostream>
 
 namespace HawkTracer
 {
 namespace parser
 {
 
+/* Limits for class descriptions read from (potentially malformed) streams. */
+static const size_t MAX_STRUCT_DEPTH = 256;
+static const size_t MAX_STRUCTS_PER_EVENT = 65536;
+
 ProtocolReader::ProtocolReader(KlassRegister* klass_register, std::unique_ptr<Stream> stream, bool flat_events) :
     _klass_register(klass_register),
     _stream(std::move(stream)),
     _flat_events(flat_events)
 {
     register_events_listener([this] (const Event& event) {
-        _klass_register->handle_register_events(event);
+        try
+        {
+            _klass_register->handle_register_events(event);
+        }
+        catch (const std::exception& e)
+        {
+            std::cerr << "Malformed stream: " << e.what() << std::endl;
+            _is_malformed = true;
+        }
     });
 }
 
@@ -62,7 +76,7 @@ void ProtocolReader::wait_for_complete()
 
 void ProtocolReader::_read_events()
 {
-    while (_is_running)
+    while (_is_running && !_is_malformed)
     {
         bool is_error = false;
         Event base_event(_klass_register->get_klass(to_underlying(WellKnownKlasses::EventKlass)));
@@ -82,6 +96,13 @@ void ProtocolReader::_read_events()
         }
 
         Event event(_klass_register->get_klass(base_event.get_value<uint32_t>("klass_id")));
+        if (!event.get_klass())
+        {
+            std::cerr << "Malformed stream: unknown event class " << klass_id << std::endl;
+            break;
+        }
+
+        _struct_depth = _struct_count = 0;
         if (_flat_events)
         {
             _read_event(is_error, event, nullptr);
@@ -99,7 +120,13 @@ void ProtocolReader::_read_events()
 
         if (klass_id == to_underlying(WellKnownKlasses::EndiannessInfoEventKlass))
         {
-            _endianness = static_cast<HT_Endianness>(event.get_value<uint8_t>("endianness"));
+            auto endianness = event.get_value<uint8_t>("endianness");
+            if (endianness != HT_ENDIANNESS_LITTLE && endianness != HT_ENDIANNESS_BIG)
+            {
+                std::cerr << "Malformed stream: invalid endianness" << std::endl;
+                break;
+            }
+            _endianness = static_cast<HT_Endianness>(endianness);
         }
 
         _call_callbacks(event);
@@ -226,7 +253,20 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
     {
         bool is_error;
         Event sub_event(_klass_register->get_klass(_klass_register->get_klass_id(field.get_type_name())));
+        if (!sub_event.get_klass() || _struct_depth >= MAX_STRUCT_DEPTH || ++_struct_count > MAX_STRUCTS_PER_EVENT)
+        {
+            std::cerr << "Malformed stream: invalid type of the field " << field.get_name() << std::endl;
+            return false;
+        }
+
+        _struct_depth++;
         _read_event(is_error, sub_event, base_event);
+        _struct_depth--;
+        if (is_error)
+        {
+            return false;
+        }
+
         if (_flat_events)
         {
             event->merge(std::move(sub_event));
-- 
2.43.0


From 8f6539af0b4422e9637bbc5edcd324402770f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 04/58] fix: release a field value whose name is already taken
 instead of leaking it

---
 parser/event.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parser/event.cpp b/parser/event.cpp
index 7e9dd12..0bcc1a3 100644
--- a/parser/event.cpp
+++ b/parser/event.cpp
@@ -114,7 +114,22 @@ void Event::merge(Event event)
 
 void Event::set_value(const EventKlassField* field, FieldType value)
 {
-    _values.insert(std::make_pair(field->get_name(), Value(std::move(value), field)));
+    if (!_values.insert(std::make_pair(field->get_name(), Value(value, field))).second)
+    {
+        // the value is owned by the event; release it if there is one with the same name already
+        switch (field->get_type_id())
+        {
+        case FieldTypeId::STRING:
+            free(value.f_STRING);
+            break;
+        case FieldTypeId::STRUCT:
+            delete value.f_EVENT;
+            break;
+        default:
+            break;
+        }
+        return;
+    }
 
     if (field->get_name() == "timestamp")
     {
-- 
2.43.0


From 896e0dfec61fa04f717092a1ee0eb92db73aa61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 05/58] fix: do not let class descriptions refer to themselves
 or to invalid types

---
 parser/event_klass.cpp                        |  2 +-
 .../hawktracer/parser/klass_register.hpp      |  2 ++
 parser/klass_register.cpp                     | 22 ++++++++++++++++++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/parser/event_klass.cpp b/parser/event_klass.cpp
index 3e39284..0b37d2d 100644
--- a/parser/event_klass.cpp
+++ b/parser/event_klass.cpp
@@ -107,7 +107,7 @@ std::shared_ptr<const EventKlassField> EventKlass::_get_field(const char* name,
         {
             return field;
         }
-        else if (field->get_type_id() == FieldTypeId::STRUCT && recursive)
+        else if (field->get_type_id() == FieldTypeId::STRUCT && recursive && field->get_klass())
         {
             auto base_field = field->get_klass()->get_field(name, recursive);
             if (base_field)
diff --git a/parser/include/hawktracer/parser/klass_register.hpp b/parser/include/hawktracer/parser/klass_register.hpp
index 77fdd63..fce3aca 100644
--- a/parser/include/hawktracer/parser/klass_register.hpp
+++ b/parser/include/hawktracer/parser/klass_register.hpp
@@ -39,12 +39,14 @@ public:
 
 private:
     void _add_klass(std::unique_ptr<EventKlass> klass);
+    bool _is_registered_before(HT_EventKlassId first, HT_EventKlassId second) const;
     void _add_klass_field(HT_EventKlassId klass_id, std::unique_ptr<EventKlassField> field);
 
     using lock_guard = std::lock_guard<std::mutex>;
 
     mutable std::mutex _register_mtx;
     std::unordered_map<HT_EventKlassId, std::shared_ptr<EventKlass>> _register;
+    std::unordered_map<HT_EventKlassId, size_t> _registration_order;
 };
 
 } // namespace parser
diff --git a/parser/klass_register.cpp b/parser/klass_register.cpp
index c5430a1..6a61d4a 100644
--- a/parser/klass_register.cpp
+++ b/parser/klass_register.cpp
@@ -2,6 +2,8 @@
 #include "hawktracer/parser/event.hpp"
 #include "hawktracer/parser/make_unique.hpp"
 
+#include <stdexcept>
+
 namespace HawkTracer {
 namespace parser {
 
@@ -60,12 +62,23 @@ void KlassRegister::handle_register_events(const Event& event)
         auto klass_id = event.get_value<HT_EventKlassId>("info_klass_id");
         if (!KlassRegister::is_well_known_klass(klass_id))
         {
-            auto type = static_cast<HT_MKCREFLECT_Types_Ext>(event.get_value<uint8_t>("data_type"));
+            auto data_type = event.get_value<uint8_t>("data_type");
+            if (data_type > HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER)
+            {
+                throw std::runtime_error("invalid type id");
+            }
+            auto type = static_cast<HT_MKCREFLECT_Types_Ext>(data_type);
             const char* field_type = event.get_value<char*>("field_type");
             std::shared_ptr<const EventKlass> type_klass;
             if (type == HT_MKCREFLECT_TYPES_EXT_STRUCT)
             {
                 type_klass = get_klass(field_type);
+                // classes can only be built from classes described before them,
+                // otherwise a class could (indirectly) contain itself
+                if (type_klass && !_is_registered_before(type_klass->get_id(), klass_id))
+                {
+                    type_klass = nullptr;
+                }
             }
 
             auto field = HawkTracer::parser::make_unique<EventKlassField>(
@@ -114,10 +127,17 @@ void KlassRegister::_add_klass(std::unique_ptr<EventKlass> klass)
     lock_guard l(_register_mtx);
     if (_register.find(klass->get_id()) == _register.end())
     {
+        _registration_order.insert(std::make_pair(klass->get_id(), _registration_order.size()));
         _register.insert(std::make_pair(klass->get_id(), std::move(klass)));
     }
 }
 
+bool KlassRegister::_is_registered_before(HT_EventKlassId first, HT_EventKlassId second) const
+{
+    lock_guard l(_register_mtx);
+    return _registration_order.at(first) < _registration_order.at(second);
+}
+
 void KlassRegister::_add_klass_field(HT_EventKlassId klass_id, std::unique_ptr<EventKlassField> field)
 {
     lock_guard l(_register_mtx);
-- 
2.43.0


From e7f694569e7869303b8f570bbbeb6bf78ed9b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 06/58] fix: do not lose the wake-up of
 ProtocolReader::wait_for_complete()

---
 parser/protocol_reader.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 91d55e7..dc6809c 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -16,7 +16,7 @@ namespace parser
 
 /* Limits for class descriptions read from (potentially malformed) streams. */
 static const size_t MAX_STRUCT_DEPTH = 256;
-static const size_t MAX_STRUCTS_PER_EVENT = 65536;
+static const size_t MAX_STRUCTS_PER_EVENT = 1024;
 
 ProtocolReader::ProtocolReader(KlassRegister* klass_register, std::unique_ptr<Stream> stream, bool flat_events) :
     _klass_register(klass_register),
@@ -132,8 +132,11 @@ void ProtocolReader::_read_events()
         _call_callbacks(event);
     }
 
-    _is_running = false;
-    _cv.notify_one();
+    {
+        std::lock_guard<std::mutex> l(_mtx_cv);
+        _is_running = false;
+    }
+    _cv.notify_all();
 }
 
 void ProtocolReader::_read_event(bool& is_error, Event& event, Event* base_event)
-- 
2.43.0


From c79a3ad3e6a49171ffca1d76c4cc54c7ace2ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:46 +0000
Subject: [PATCH 07/58] fix: do not walk the listener list unlocked while
 listeners are registered

---
 lib/timeline_listener.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/timeline_listener.c b/lib/timeline_listener.c
index 1bdd207..f65e54e 100644
--- a/lib/timeline_listener.c
+++ b/lib/timeline_listener.c
@@ -62,11 +62,16 @@ void
 ht_timeline_listener_container_notify_listeners(HT_TimelineListenerContainer* container, TEventPtr events, size_t size, HT_Boolean serialize_events)
 {
     size_t i;
+    ht_mutex_lock(container->mutex);
     for (i = 0; i < container->entries.size; i++)
     {
-        HT_TimelineListenerEntry* entry = &container->entries.data[i];
-        entry->callback(events, size, serialize_events, entry->user_data);
+        /* the entry must be copied, as registering a listener might reallocate the list */
+        HT_TimelineListenerEntry entry = container->entries.data[i];
+        ht_mutex_unlock(container->mutex);
+        entry.callback(events, size, serialize_events, entry.user_data);
+        ht_mutex_lock(container->mutex);
     }
+    ht_mutex_unlock(container->mutex);
 }
 
 HT_TimelineListenerContainer*
-- 
2.43.0


From c9e1625e61c09813f72e5c14cb9ff865fc1dda96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:04 +0000
Subject: [PATCH 08/58] fix: do not overflow the listener buffer with an event
 larger than it

---
 lib/listener_buffer.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/listener_buffer.c b/lib/listener_buffer.c
index 4249e58..e17c5ae 100644
--- a/lib/listener_buffer.c
+++ b/lib/listener_buffer.c
@@ -80,13 +80,28 @@ ht_listener_buffer_process_unserialized_events(HT_ListenerBuffer* buffer,
     for (i = 0; i < size;)
     {
         HT_Event* event = HT_EVENT(events + i);
+        size_t event_size = HT_EVENT_GET_KLASS(event)->get_size(event);
 
-        if (HT_EVENT_GET_KLASS(event)->get_size(event) + buffer->usage > buffer->max_size)
+        if (event_size + buffer->usage > buffer->max_size)
         {
             ht_listener_buffer_flush(buffer, flush_callback, listener);
         }
 
-        buffer->usage += HT_EVENT_GET_KLASS(event)->serialize(event, buffer->data + buffer->usage);
+        if (event_size > buffer->max_size)
+        {
+            /* the event does not fit the buffer at all, so it must bypass it */
+            HT_Byte* data = (HT_Byte*)ht_alloc(event_size);
+            if (data != NULL)
+            {
+                flush_callback(listener, data, HT_EVENT_GET_KLASS(event)->serialize(event, data));
+                ht_free(data);
+            }
+        }
+        else
+        {
+            buffer->usage += HT_EVENT_GET_KLASS(event)->serialize(event, buffer->data + buffer->usage);
+        }
+
         i += HT_EVENT_GET_KLASS(event)->type_info->size;
     }
 }
-- 
2.43.0


From ec026f10f8e54b5c56ea7040bfde65a0b796fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:04 +0000
Subject: [PATCH 09/58] fix: size class descriptions by what is written, and
 let long ones bypass the buffer

---
 lib/registry.c | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index 1ba6a2e..6668d9e 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -223,35 +223,53 @@ _ht_registry_init_event_klass_field_info_event(HT_EventKlass* klass, size_t fiel
 }
 
 static size_t
-_ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
+_ht_registry_push_event_to_listener(HT_Event* event, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
 {
-    size_t j;
     size_t total_size = 0;
-    HT_DECL_EVENT(HT_EventKlassInfoEvent, event);
-    _ht_registry_init_event_klass_info_event(klass, &event);
+    size_t event_size = serialize ? HT_EVENT_GET_KLASS(event)->get_size(event) : HT_EVENT_GET_KLASS(event)->type_info->size;
 
-    if (ht_HT_EventKlassInfoEvent_get_size(HT_EVENT(&event)) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
+    if (event_size > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
     {
         callback(data, *data_pos, serialize, listener);
         total_size += *data_pos;
         *data_pos = 0;
     }
 
-    *data_pos += ht_event_utils_serialize_event_to_buffer(HT_EVENT(&event), data + *data_pos, serialize);
+    if (event_size > REGISTRY_LISETNER_BUFF_SIZE)
+    {
+        HT_Byte* buff = (HT_Byte*)ht_alloc(event_size);
+        if (buff != NULL)
+        {
+            event_size = ht_event_utils_serialize_event_to_buffer(event, buff, serialize);
+            callback(buff, event_size, serialize, listener);
+            total_size += event_size;
+            ht_free(buff);
+        }
+    }
+    else
+    {
+        *data_pos += ht_event_utils_serialize_event_to_buffer(event, data + *data_pos, serialize);
+    }
+
+    return total_size;
+}
+
+static size_t
+_ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
+{
+    size_t j;
+    size_t total_size = 0;
+    HT_DECL_EVENT(HT_EventKlassInfoEvent, event);
+    _ht_registry_init_event_klass_info_event(klass, &event);
+
+    total_size += _ht_registry_push_event_to_listener(HT_EVENT(&event), data, data_pos, callback, listener, serialize);
 
     for (j = 0; j < klass->type_info->fields_count; j++)
     {
         HT_DECL_EVENT(HT_EventKlassFieldInfoEvent, field_event);
         _ht_registry_init_event_klass_field_info_event(klass, j, &field_event);
 
-        if (ht_HT_EventKlassFieldInfoEvent_get_size(HT_EVENT(&field_event)) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
-        {
-            callback(data, *data_pos, serialize, listener);
-            total_size += *data_pos;
-            *data_pos = 0;
-        }
-
-        *data_pos += ht_event_utils_serialize_event_to_buffer(HT_EVENT(&field_event), data + *data_pos, serialize);
+        total_size += _ht_registry_push_event_to_listener(HT_EVENT(&field_event), data, data_pos, callback, listener, serialize);
     }
 
     return total_size;
-- 
2.43.0


From bb24d76f33c220d600964d2c583f4af3a8553297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:53 +0000
Subject: [PATCH 10/58] fix: make TCP listener survive client disconnects,
 stop, and clients joining mid-batch

- sending to a disconnected client raised SIGPIPE in the traced program
- ht_tcp_listener_stop() unlocked a mutex twice, raced with pushes and used
  freed objects when called again
- a client accepted while a batch was written in parts received the tail of
  an event; the client list is now locked for the whole batch
- sockets of the server and its clients were never closed
- the listening socket and the connection callback were accessed from two
  threads without synchronization, members used uninitialized, and failed
  allocations dereferenced
---
 lib/include/internal/listeners/tcp_server.h |   6 ++
 lib/listeners/tcp_listener.c                |  63 +++++++++---
 lib/tcp_server.cpp                          | 103 +++++++++++++++++---
 3 files changed, 147 insertions(+), 25 deletions(-)

diff --git a/lib/include/internal/listeners/tcp_server.h b/lib/include/internal/listeners/tcp_server.h
index e798f6a..f8ceacf 100644
--- a/lib/include/internal/listeners/tcp_server.h
+++ b/lib/include/internal/listeners/tcp_server.h
@@ -12,8 +12,14 @@ HT_TCPServer* ht_tcp_server_create(void);
 
 void ht_tcp_server_destroy(HT_TCPServer* server);
 
+/* The list of clients must be locked with ht_tcp_server_lock_clients(). It doesn't change as long as
+ * it is locked, so a client never receives just the last part of data written in a few calls. */
 void ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size);
 
+void ht_tcp_server_lock_clients(HT_TCPServer* server);
+
+void ht_tcp_server_unlock_clients(HT_TCPServer* server);
+
 HT_Boolean ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected client_connected_cb, void* user_data);
 
 void ht_tcp_server_stop(HT_TCPServer* server);
diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index a6ce6a3..b291c0b 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -64,27 +64,46 @@ ht_tcp_listener_client_connected(int sock_fd, void* user_data)
     listener->_last_client_sock_fd = sock_fd;
     ht_timeline_listener_push_metadata(ht_tcp_listener_metadata_pusher, user_data, HT_TRUE);
 
-    if (listener->_client_connected_callback)
+    ht_mutex_lock(listener->_push_action_mutex);
+    HT_TCPListenerOnClientConnectedCallback callback = listener->_client_connected_callback;
+    void* callback_user_data = listener->_client_connected_user_data;
+    ht_mutex_unlock(listener->_push_action_mutex);
+
+    if (callback)
     {
-        listener->_client_connected_callback(sock_fd, listener->_client_connected_user_data);
+        callback(sock_fd, callback_user_data);
     }
 }
 
 static HT_ErrorCode
 ht_tcp_listener_init(HT_TCPListener* listener, int port, size_t buffer_size)
 {
-    HT_ErrorCode error_code = ht_listener_buffer_init(&listener->_buffer, buffer_size);
-    if (error_code != HT_ERR_OK)
-    {
-        return error_code;
-    }
+    HT_ErrorCode error_code;
 
+    listener->_tcp_server = NULL;
     listener->_last_client_sock_fd = 0;
     listener->_was_flushed = HT_FALSE;
+    listener->_client_connected_callback = NULL;
+    listener->_client_connected_user_data = NULL;
 
-    // TODO handle if return null
     listener->_push_action_mutex = ht_mutex_create();
+    if (listener->_push_action_mutex == NULL)
+    {
+        return HT_ERR_OUT_OF_MEMORY;
+    }
+
+    error_code = ht_listener_buffer_init(&listener->_buffer, buffer_size);
+    if (error_code != HT_ERR_OK)
+    {
+        return error_code;
+    }
+
     listener->_tcp_server = ht_tcp_server_create();
+    if (listener->_tcp_server == NULL)
+    {
+        ht_listener_buffer_deinit(&listener->_buffer);
+        return HT_ERR_OUT_OF_MEMORY;
+    }
 
     if (ht_tcp_server_start(listener->_tcp_server, port, ht_tcp_listener_client_connected, listener))
     {
@@ -109,6 +128,8 @@ ht_tcp_listener_push_events(HT_TCPListener* listener, TEventPtr events, size_t s
         goto push_event_done;
     }
 
+    ht_tcp_server_lock_clients(listener->_tcp_server);
+
     if (serialized)
     {
         ht_listener_buffer_process_serialized_events(&listener->_buffer, events, size, ht_tcp_listener_f_flush, listener);
@@ -124,6 +145,8 @@ ht_tcp_listener_push_events(HT_TCPListener* listener, TEventPtr events, size_t s
         listener->_was_flushed = HT_FALSE;
     }
 
+    ht_tcp_server_unlock_clients(listener->_tcp_server);
+
 push_event_done:
     ht_mutex_unlock(listener->_push_action_mutex);
 }
@@ -182,8 +205,10 @@ ht_tcp_listener_set_on_client_connected_callback(
 {
     assert(listener);
 
+    ht_mutex_lock(listener->_push_action_mutex);
     listener->_client_connected_user_data = user_data;
     listener->_client_connected_callback = callback;
+    ht_mutex_unlock(listener->_push_action_mutex);
 }
 
 void
@@ -193,7 +218,10 @@ ht_tcp_listener_destroy(HT_TCPListener* listener)
     {
         ht_tcp_listener_stop(listener);
     }
-    ht_mutex_destroy(listener->_push_action_mutex);
+    if (listener->_push_action_mutex != NULL)
+    {
+        ht_mutex_destroy(listener->_push_action_mutex);
+    }
     ht_free(listener);
 }
 
@@ -206,22 +234,31 @@ ht_tcp_listener_callback(TEventPtr events, size_t size, HT_Boolean serialized, v
 void
 ht_tcp_listener_stop(HT_TCPListener* listener)
 {
+    HT_TCPServer* server;
+
     ht_mutex_lock(listener->_push_action_mutex);
 
-    if (!_ht_tcp_listener_is_stopped(listener))
+    if (_ht_tcp_listener_is_stopped(listener))
     {
         ht_mutex_unlock(listener->_push_action_mutex);
+        return;
     }
 
+    server = listener->_tcp_server;
+
+    ht_tcp_server_lock_clients(server);
     ht_tcp_listener_flush(listener);
-    ht_tcp_server_stop(listener->_tcp_server);
+    ht_tcp_server_unlock_clients(server);
+
     ht_listener_buffer_deinit(&listener->_buffer);
-    ht_tcp_server_destroy(listener->_tcp_server);
     listener->_tcp_server = NULL;
 
+    /* The thread that accepts clients might be waiting for the mutex,
+     * so the server can't be stopped with the mutex locked. */
     ht_mutex_unlock(listener->_push_action_mutex);
 
-    ht_mutex_unlock(listener->_push_action_mutex);
+    ht_tcp_server_stop(server);
+    ht_tcp_server_destroy(server);
 }
 
 #endif /* HT_ENABLE_TCP_LISTENER */
diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 742d457..50b9864 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -57,6 +57,11 @@ ht_thread_create(ht_thread_callback_t callback, void* user_data)
 {
     HT_Thread* th = HT_CREATE_TYPE(HT_Thread);
 
+    if (th == NULL)
+    {
+        return NULL;
+    }
+
 #ifdef HT_THREAD_IMPL_CPP11
     new(&th->th) HT_Thread();
     th->th = std::thread(callback, user_data);
@@ -107,8 +112,21 @@ ht_thread_destroy(HT_Thread* th)
 #include <unistd.h>
 #endif
 
+#include <errno.h>
 #include <string.h>
 
+#ifdef _WIN32
+#  define HT_CLOSE_SOCKET(sock_fd) closesocket(sock_fd)
+#else
+#  define HT_CLOSE_SOCKET(sock_fd) close(sock_fd)
+#endif
+
+#ifdef MSG_NOSIGNAL
+#  define HT_SEND_FLAGS MSG_NOSIGNAL
+#else
+#  define HT_SEND_FLAGS 0
+#endif
+
 static void *_ht_tcp_server_run(void *user_data);
 
 struct _HT_TCPServer
@@ -127,9 +145,26 @@ ht_tcp_server_create(void)
 {
     HT_TCPServer* server = HT_CREATE_TYPE(HT_TCPServer);
 
-    ht_bag_int_init(&server->client_sock_fd, 8);
+    if (server == NULL)
+    {
+        return NULL;
+    }
+
+    if (ht_bag_int_init(&server->client_sock_fd, 8) != HT_ERR_OK)
+    {
+        ht_free(server);
+        return NULL;
+    }
+
     server->accept_client_thread = NULL;
     server->client_mutex = ht_mutex_create();
+    if (server->client_mutex == NULL)
+    {
+        ht_bag_int_deinit(&server->client_sock_fd);
+        ht_free(server);
+        return NULL;
+    }
+
     server->server_sock_fd = -1;
     server->client_connected_cb = NULL;
     server->client_connected_ud = NULL;
@@ -197,6 +232,11 @@ ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected client_con
     server->client_connected_cb = client_connected_cb;
     server->client_connected_ud = user_data;
     server->accept_client_thread = ht_thread_create(_ht_tcp_server_run, server);
+    if (server->accept_client_thread == NULL)
+    {
+        ht_tcp_server_stop(server);
+        return HT_FALSE;
+    }
 
     return HT_TRUE;
 }
@@ -204,17 +244,18 @@ ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected client_con
 void
 ht_tcp_server_stop(HT_TCPServer* server)
 {
+    size_t i;
+
     if (!ht_tcp_server_is_running(server))
     {
         return;
     }
 
     ht_mutex_lock(server->client_mutex);
-    ht_bag_int_clear(&server->client_sock_fd);
-    ht_mutex_unlock(server->client_mutex);
-
     int prev_sock_fd = server->server_sock_fd;
     server->server_sock_fd = -1;
+    ht_mutex_unlock(server->client_mutex);
+
 #ifdef _WIN32
     closesocket(prev_sock_fd);
     WSACleanup();
@@ -228,12 +269,42 @@ ht_tcp_server_stop(HT_TCPServer* server)
         ht_thread_destroy(server->accept_client_thread);
         server->accept_client_thread = NULL;
     }
+
+#ifndef _WIN32
+    close(prev_sock_fd);
+#endif
+
+    ht_mutex_lock(server->client_mutex);
+    for (i = 0; i < ht_bag_size(server->client_sock_fd); i++)
+    {
+        HT_CLOSE_SOCKET(ht_bag_nth(server->client_sock_fd, i));
+    }
+    ht_bag_int_clear(&server->client_sock_fd);
+    ht_mutex_unlock(server->client_mutex);
 }
 
 HT_Boolean
 ht_tcp_server_is_running(const HT_TCPServer* server)
 {
-    return server->server_sock_fd != -1;
+    HT_Boolean is_running;
+
+    ht_mutex_lock(server->client_mutex);
+    is_running = server->server_sock_fd != -1;
+    ht_mutex_unlock(server->client_mutex);
+
+    return is_running;
+}
+
+void
+ht_tcp_server_lock_clients(HT_TCPServer* server)
+{
+    ht_mutex_lock(server->client_mutex);
+}
+
+void
+ht_tcp_server_unlock_clients(HT_TCPServer* server)
+{
+    ht_mutex_unlock(server->client_mutex);
 }
 
 void
@@ -241,18 +312,15 @@ ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size)
 {
     size_t i;
 
-    ht_mutex_lock(server->client_mutex);
-
     for (i = 0; i < ht_bag_size(server->client_sock_fd); i++)
     {
         if (!ht_tcp_server_write_to_socket(server, ht_bag_nth(server->client_sock_fd, i), buffer, size))
         {
+            HT_CLOSE_SOCKET(ht_bag_nth(server->client_sock_fd, i));
             ht_bag_int_remove_nth(&server->client_sock_fd, i);
             i--;
         }
     }
-
-    ht_mutex_unlock(server->client_mutex);
 }
 
 HT_Boolean
@@ -268,7 +336,12 @@ ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, s
 
     while (sent < size)
     {
-        int n = send(sock_fd, buffer + sent, size - sent, 0);
+        int n = send(sock_fd, buffer + sent, size - sent, HT_SEND_FLAGS);
+
+        if (n < 0 && errno == EINTR)
+        {
+            continue;
+        }
 
         if (n <= 0)
         {
@@ -294,13 +367,19 @@ _ht_tcp_server_run(void* user_data)
         socklen_t client_len;
 #endif
         client_len = sizeof(clientaddr);
-        int client_fd = accept(server->server_sock_fd, (struct sockaddr *) &clientaddr, &client_len);
+        ht_mutex_lock(server->client_mutex);
+        int server_fd = server->server_sock_fd;
+        ht_mutex_unlock(server->client_mutex);
+        int client_fd = accept(server_fd, (struct sockaddr *) &clientaddr, &client_len);
 
         if (client_fd >= 0)
         {
             server->client_connected_cb(client_fd, server->client_connected_ud);
             ht_mutex_lock(server->client_mutex);
-            ht_bag_int_add(&server->client_sock_fd, client_fd);
+            if (ht_bag_int_add(&server->client_sock_fd, client_fd) != HT_ERR_OK)
+            {
+                HT_CLOSE_SOCKET(client_fd);
+            }
             ht_mutex_unlock(server->client_mutex);
         }
     }
-- 
2.43.0


From 992cb330a59e645b469c4b1dc84b8a1948de0f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:46 +0000
Subject: [PATCH 11/58] fix: keep registered classes over nested
 initialization, and describe them again after re-initialization

Also the registered identifiers are read and written under the registry's lock.
---
 lib/init.c     |  6 ++++++
 lib/registry.c | 25 +++++++++++++++++--------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/lib/init.c b/lib/init.c
index b6cb515..7fdc6e8 100644
--- a/lib/init.c
+++ b/lib/init.c
@@ -15,6 +15,12 @@ ht_init(int argc, char** argv)
 {
     ht_command_line_parse_args(argc, argv);
 
+    if (_ht_init_counter > 0)
+    {
+        _ht_init_counter++;
+        return;
+    }
+
     ht_registry_init();
 
     HT_REGISTER_EVENT_KLASS(HT_EndiannessInfoEvent);
diff --git a/lib/registry.c b/lib/registry.c
index 6668d9e..dd60d28 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -55,10 +55,10 @@ HT_ErrorCode ht_registry_register_feature(HT_FeatureKlass* klass)
     feature_register[feature_count++] = HT_TRUE;
 
 register_feature_finalize:
-    ht_mutex_unlock(features_register_mutex);
-
     klass->id = feature_id;
 
+    ht_mutex_unlock(features_register_mutex);
+
     return err;
 }
 
@@ -100,19 +100,28 @@ done:
 HT_EventKlassId
 ht_registry_register_event_klass(HT_EventKlass* event_klass)
 {
-    if (event_klass->klass_id == HT_INVALID_KLASS_ID)
-    {
-        ht_mutex_lock(event_klass_registry_register_mutex);
+    HT_EventKlassId klass_id;
+
+    ht_mutex_lock(event_klass_registry_register_mutex);
 
+    /* klass keeps its identifier after the registry is deinitialized, so having the identifier doesn't mean it's registered */
+    if (event_klass->klass_id >= event_klass_register.size || event_klass_register.data[event_klass->klass_id] != event_klass)
+    {
         if (ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK)
         {
             event_klass->klass_id = (HT_EventKlassId)event_klass_register.size - 1;
         }
-
-        ht_mutex_unlock(event_klass_registry_register_mutex);
+        else
+        {
+            event_klass->klass_id = HT_INVALID_KLASS_ID;
+        }
     }
 
-    return event_klass->klass_id;
+    klass_id = event_klass->klass_id;
+
+    ht_mutex_unlock(event_klass_registry_register_mutex);
+
+    return klass_id;
 }
 
 HT_EventKlass**
-- 
2.43.0


From 4543bc102475b7c8460f8e464c3c04a57585f8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:23 +0000
Subject: [PATCH 12/58] fix: find or create a named listener container
 atomically and tell names apart

Containers were identified by a 32-bit hash of their name only, looked up and
registered in separate critical sections, and referenced without a lock.
---
 .../internal/timeline_listener_container.h    |  4 ++
 lib/registry.c                                | 38 ++++++++++++----
 lib/timeline_listener.c                       | 45 ++++++++++++++++++-
 3 files changed, 76 insertions(+), 11 deletions(-)

diff --git a/lib/include/internal/timeline_listener_container.h b/lib/include/internal/timeline_listener_container.h
index 106bfdc..eeb4e4a 100644
--- a/lib/include/internal/timeline_listener_container.h
+++ b/lib/include/internal/timeline_listener_container.h
@@ -13,6 +13,10 @@ uint32_t ht_timeline_listener_container_get_id(HT_TimelineListenerContainer* lis
 
 void ht_timeline_listener_container_set_id(HT_TimelineListenerContainer* container, uint32_t id);
 
+const char* ht_timeline_listener_container_get_name(HT_TimelineListenerContainer* container);
+
+HT_ErrorCode ht_timeline_listener_container_set_name(HT_TimelineListenerContainer* container, const char* name);
+
 void ht_timeline_listener_container_ref(HT_TimelineListenerContainer* container);
 
 void ht_timeline_listener_container_unref(HT_TimelineListenerContainer* container);
diff --git a/lib/registry.c b/lib/registry.c
index dd60d28..ef3b5e4 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -149,38 +149,57 @@ ht_registry_deinit(void)
     ht_bag_void_ptr_deinit(&event_klass_register);
 }
 
-HT_TimelineListenerContainer*
-ht_registry_find_listener_container(const char* name)
+static HT_TimelineListenerContainer*
+_ht_registry_find_listener_container(const char* name)
 {
     size_t i;
     uint32_t id = djb2_hash(name);
 
-    ht_mutex_lock(listeners_register_mutex);
     for (i = 0; i < listeners_register.size; i++)
     {
-        if (ht_timeline_listener_container_get_id((HT_TimelineListenerContainer*)listeners_register.data[i]) == id)
+        HT_TimelineListenerContainer* container = (HT_TimelineListenerContainer*)listeners_register.data[i];
+        if (ht_timeline_listener_container_get_id(container) == id &&
+            strcmp(ht_timeline_listener_container_get_name(container), name) == 0)
         {
-            HT_TimelineListenerContainer* container = (HT_TimelineListenerContainer*)listeners_register.data[i];
-            ht_mutex_unlock(listeners_register_mutex);
             return container;
         }
     }
-    ht_mutex_unlock(listeners_register_mutex);
 
     return NULL;
 }
 
+HT_TimelineListenerContainer*
+ht_registry_find_listener_container(const char* name)
+{
+    HT_TimelineListenerContainer* container;
+
+    ht_mutex_lock(listeners_register_mutex);
+    container = _ht_registry_find_listener_container(name);
+    ht_mutex_unlock(listeners_register_mutex);
+
+    return container;
+}
+
 HT_ErrorCode
 ht_registry_register_listener_container(const char* name, HT_TimelineListenerContainer* container)
 {
     HT_ErrorCode error_code;
 
-    if (ht_registry_find_listener_container(name) != NULL)
+    ht_mutex_lock(listeners_register_mutex);
+
+    if (_ht_registry_find_listener_container(name) != NULL)
     {
+        ht_mutex_unlock(listeners_register_mutex);
         return HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED;
     }
 
-    ht_mutex_lock(listeners_register_mutex);
+    error_code = ht_timeline_listener_container_set_name(container, name);
+    if (error_code != HT_ERR_OK)
+    {
+        ht_mutex_unlock(listeners_register_mutex);
+        return error_code;
+    }
+
     ht_timeline_listener_container_set_id(container, djb2_hash(name));
     ht_timeline_listener_container_ref(container);
 
@@ -188,6 +207,7 @@ ht_registry_register_listener_container(const char* name, HT_TimelineListenerCon
     if (error_code != HT_ERR_OK)
     {
         ht_mutex_unlock(listeners_register_mutex);
+        ht_timeline_listener_container_unref(container);
         return error_code;
     }
 
diff --git a/lib/timeline_listener.c b/lib/timeline_listener.c
index f65e54e..aa15c7b 100644
--- a/lib/timeline_listener.c
+++ b/lib/timeline_listener.c
@@ -10,6 +10,7 @@
 #include "internal/system_info.h"
 
 #include <assert.h>
+#include <string.h>
 
 typedef struct
 {
@@ -26,6 +27,7 @@ struct _HT_TimelineListenerContainer
     HT_BagListener entries;
     HT_Mutex* mutex;
     uint32_t id;
+    char* name;
     uint32_t refcount;
 };
 
@@ -58,6 +60,29 @@ void ht_timeline_listener_container_set_id(HT_TimelineListenerContainer* contain
     container->id = id;
 }
 
+const char*
+ht_timeline_listener_container_get_name(HT_TimelineListenerContainer* container)
+{
+    return container->name;
+}
+
+HT_ErrorCode
+ht_timeline_listener_container_set_name(HT_TimelineListenerContainer* container, const char* name)
+{
+    size_t size = strlen(name) + 1;
+    char* new_name = (char*)ht_realloc(container->name, size);
+
+    if (new_name == NULL)
+    {
+        return HT_ERR_OUT_OF_MEMORY;
+    }
+
+    memcpy(new_name, name, size);
+    container->name = new_name;
+
+    return HT_ERR_OK;
+}
+
 void
 ht_timeline_listener_container_notify_listeners(HT_TimelineListenerContainer* container, TEventPtr events, size_t size, HT_Boolean serialize_events)
 {
@@ -96,6 +121,7 @@ ht_timeline_listener_container_create(void)
     }
 
     container->id = 0;
+    container->name = NULL;
     container->refcount = 1;
     goto done;
 
@@ -129,6 +155,10 @@ ht_timeline_listener_container_unref(HT_TimelineListenerContainer* container)
     {
         _ht_timeline_listener_container_unregister_all_listeners(container);
         ht_bag_listener_deinit(&container->entries);
+        if (container->name != NULL)
+        {
+            ht_free(container->name);
+        }
         ht_mutex_unlock(container->mutex);
         ht_mutex_destroy(container->mutex);
 
@@ -191,12 +221,23 @@ ht_find_or_create_listener(const char* name)
             container = ht_timeline_listener_container_create();
             if (container != NULL)
             {
-                ht_registry_register_listener_container(name, container);
+                HT_ErrorCode error_code = ht_registry_register_listener_container(name, container);
+                if (error_code != HT_ERR_OK)
+                {
+                    ht_timeline_listener_container_unref(container);
+                    container = NULL;
+                }
+                if (error_code == HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED)
+                {
+                    /* another thread registered a container with the same name meanwhile */
+                    container = ht_registry_find_listener_container(name);
+                    ht_timeline_listener_container_ref(container);
+                }
             }
         }
         else
         {
-            container->refcount++;
+            ht_timeline_listener_container_ref(container);
         }
     }
 
-- 
2.43.0


From b5113509863757a9aa5332012a98205736976409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:08 +0000
Subject: [PATCH 13/58] fix: give different dynamic labels different
 identifiers, and publish a label before its identifier is used

Labels with equal 32-bit hashes shared an identifier, two threads adding one
label leaked a copy of it, and another thread could use the identifier before
its mapping was pushed to the timeline. Failed allocations are reported.
---
 lib/feature_cached_string.c | 52 +++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/lib/feature_cached_string.c b/lib/feature_cached_string.c
index 0cd7c8b..0a48a0d 100644
--- a/lib/feature_cached_string.c
+++ b/lib/feature_cached_string.c
@@ -109,19 +109,14 @@ ht_feature_cached_string_destroy(HT_Feature* f)
     ht_free(feature);
 }
 
+/* The feature must be locked, so no other thread uses the mapping before it is pushed to the timeline */
 static uintptr_t
 ht_feature_cached_string_add_mapping_(HT_Timeline* timeline, HT_HashMap* map, uintptr_t hash, const char* label)
 {
-    HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
     HT_ErrorCode error_code;
 
-    assert(f);
-
-    HT_FCS_LOCK_(f);
-
     const char* ret = ht_hash_map_insert(map, hash, label, &error_code);
 
-    HT_FCS_UNLOCK_(f);
     if (error_code != HT_ERR_OK)
     {
         return 0;
@@ -138,7 +133,15 @@ uintptr_t
 ht_feature_cached_string_add_mapping(HT_Timeline* timeline, const char* label)
 {
     HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
-    return ht_feature_cached_string_add_mapping_(timeline, &f->static_hashes, (uintptr_t)label, label);
+    uintptr_t hash_value;
+
+    assert(f);
+
+    HT_FCS_LOCK_(f);
+    hash_value = ht_feature_cached_string_add_mapping_(timeline, &f->static_hashes, (uintptr_t)label, label);
+    HT_FCS_UNLOCK_(f);
+
+    return hash_value;
 }
 
 static HT_Boolean
@@ -168,6 +171,7 @@ ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char*
 {
     HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
     uintptr_t hash_value;
+    const char* cached_label;
 
     assert(f);
 
@@ -175,22 +179,36 @@ ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char*
 
     HT_FCS_LOCK_(f);
 
-    if (ht_hash_map_get_value(&f->dynamic_hashes, hash_value) == NULL)
+    cached_label = ht_hash_map_get_value(&f->dynamic_hashes, hash_value);
+    while (hash_value == 0 || (cached_label != NULL && strcmp(cached_label, label) != 0))
     {
-        HT_FCS_UNLOCK_(f);
+        /* the identifier is already taken by a different label */
+        cached_label = ht_hash_map_get_value(&f->dynamic_hashes, ++hash_value);
+    }
 
+    if (cached_label == NULL)
+    {
         size_t label_len = strlen(label);
         char* new_label = (char*)ht_alloc(label_len + 1);
-        memcpy(new_label, label, label_len);
-        new_label[label_len] = 0;
-
-        ht_feature_cached_string_add_mapping_(timeline, &f->dynamic_hashes, hash_value, new_label);
-    }
-    else
-    {
-        HT_FCS_UNLOCK_(f);
+        if (new_label == NULL)
+        {
+            hash_value = 0;
+        }
+        else
+        {
+            memcpy(new_label, label, label_len);
+            new_label[label_len] = 0;
+
+            hash_value = ht_feature_cached_string_add_mapping_(timeline, &f->dynamic_hashes, hash_value, new_label);
+            if (hash_value == 0)
+            {
+                ht_free(new_label);
+            }
+        }
     }
 
+    HT_FCS_UNLOCK_(f);
+
     return hash_value;
 }
 
-- 
2.43.0


From 46517c8abe4f490965c378b5b94e58518b8e66f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:08 +0000
Subject: [PATCH 14/58] fix: remove the key that was just added when its value
 can't be stored in the hash map

---
 lib/hash_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash_map.c b/lib/hash_map.c
index 44a0361..a90423a 100644
--- a/lib/hash_map.c
+++ b/lib/hash_map.c
@@ -117,7 +117,7 @@ ht_hash_map_insert(HT_HashMap* map, uint64_t key, const char* value, HT_ErrorCod
     err = ht_bag_void_ptr_add(&bucket->value_bag, (void*)value);
     if (err != HT_ERR_OK)
     {
-        ht_bag_uint64_remove_nth(&bucket->key_bag, ht_bag_size(bucket->key_bag));
+        ht_bag_uint64_remove_nth(&bucket->key_bag, ht_bag_size(bucket->key_bag) - 1);
     }
 
     HT_SET_ERROR(out_err, err);
-- 
2.43.0


From cb4ad549a642fc933afee45d96a79e002c0bbf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:00 +0000
Subject: [PATCH 15/58] fix: never give two threads the same identifier

---
 lib/thread.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/thread.c b/lib/thread.c
index 4925b8f..1b191fc 100644
--- a/lib/thread.c
+++ b/lib/thread.c
@@ -1,6 +1,15 @@
 #include "hawktracer/thread.h"
 
-static HT_ThreadId _ht_current_thread_id = 0; // TODO: this must be atomic
+#if defined(HT_ENABLE_THREADS) && defined(_WIN32)
+#  include <windows.h>
+#  define HT_ATOMIC_INCREMENT_(value) ((HT_ThreadId)InterlockedIncrement((volatile LONG*)&(value)))
+#elif defined(HT_ENABLE_THREADS) && defined(__GNUC__)
+#  define HT_ATOMIC_INCREMENT_(value) __sync_add_and_fetch(&(value), 1)
+#else
+#  define HT_ATOMIC_INCREMENT_(value) (++(value))
+#endif
+
+static HT_ThreadId _ht_current_thread_id = 0;
 
 HT_ThreadId
 ht_thread_get_current_thread_id(void)
@@ -9,7 +18,7 @@ ht_thread_get_current_thread_id(void)
 
     if (!thread_id)
     {
-        thread_id = ++_ht_current_thread_id;
+        thread_id = HT_ATOMIC_INCREMENT_(_ht_current_thread_id);
     }
 
     return thread_id;
-- 
2.43.0


From e278ce9cfa5c3287597b4c4774dfa3478917c8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:00 +0000
Subject: [PATCH 16/58] fix: do not leak a task which could not be scheduled

---
 lib/task_scheduler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/task_scheduler.c b/lib/task_scheduler.c
index beb16ca..3bef93d 100644
--- a/lib/task_scheduler.c
+++ b/lib/task_scheduler.c
@@ -109,6 +109,7 @@ ht_task_scheduler_schedule_task(HT_TaskScheduler* task_scheduler,
 
     if (ht_bag_void_ptr_add(&task_scheduler->tasks, task) != HT_ERR_OK)
     {
+        ht_free(task);
         return HT_TASK_SCHEDULER_INVALID_TASK_ID;
     }
 
-- 
2.43.0


From fb1073f0647367b66450d66173ccf3cd90fcc5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:00 +0000
Subject: [PATCH 17/58] fix: report or skip what can't be allocated instead of
 dereferencing null

---
 lib/event_id_provider.cpp |  5 ++++-
 lib/timeline.c            | 10 +++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/event_id_provider.cpp b/lib/event_id_provider.cpp
index 405ca79..a117158 100644
--- a/lib/event_id_provider.cpp
+++ b/lib/event_id_provider.cpp
@@ -25,7 +25,10 @@ HT_EventIdProvider*
 ht_event_id_provider_create(void)
 {
     HT_EventIdProvider* provider = HT_CREATE_TYPE(HT_EventIdProvider);
-    provider->current_identifier = 0;
+    if (provider != NULL)
+    {
+        provider->current_identifier = 0;
+    }
     return provider;
 }
 
diff --git a/lib/timeline.c b/lib/timeline.c
index 5ad67bd..27f2120 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -70,9 +70,12 @@ ht_timeline_push_event(HT_Timeline* timeline, HT_Event* event)
             if (size > sizeof(local_buffer)/sizeof(local_buffer[0]))
             {
                 HT_Byte* buff = (HT_Byte*)ht_alloc(size);
-                event->klass->serialize(event, buff);
-                ht_timeline_listener_container_notify_listeners(timeline->listeners, buff, size, timeline->serialize_events);
-                ht_free(buff);
+                if (buff != NULL)
+                {
+                    event->klass->serialize(event, buff);
+                    ht_timeline_listener_container_notify_listeners(timeline->listeners, buff, size, timeline->serialize_events);
+                    ht_free(buff);
+                }
             }
             else
             {
@@ -192,6 +195,7 @@ ht_timeline_create(size_t buffer_capacity,
 
     if (timeline == NULL)
     {
+        error_code = HT_ERR_OUT_OF_MEMORY;
         goto done;
     }
 
-- 
2.43.0


From 3026c72642457ffa6ab2f2bca8c402e21f105b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:00 +0000
Subject: [PATCH 18/58] fix: a feature that is not registered is not enabled on
 a timeline

---
 lib/timeline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/timeline.c b/lib/timeline.c
index 27f2120..54b0458 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -152,7 +152,7 @@ ht_timeline_set_feature(HT_Timeline* timeline, HT_Feature* feature)
 HT_Feature*
 ht_timeline_get_feature(HT_Timeline* timeline, HT_FeatureKlass* feature_klass)
 {
-    return timeline->features[feature_klass->id];
+    return feature_klass->id < HT_TIMELINE_MAX_FEATURES ? timeline->features[feature_klass->id] : NULL;
 }
 
 
-- 
2.43.0


From 2a2a9aae7dffe356ea7f8625ed41c20642b3a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:00 +0000
Subject: [PATCH 19/58] fix: stopping an event which couldn't be started must
 not stop its parent

---
 lib/feature_callstack.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/lib/feature_callstack.c b/lib/feature_callstack.c
index 71f2d96..c801288 100644
--- a/lib/feature_callstack.c
+++ b/lib/feature_callstack.c
@@ -9,6 +9,8 @@ typedef struct
 {
     HT_Feature base;
     HT_Stack stack;
+    /* number of started events which couldn't be stored, and the ones started on top of them */
+    size_t dropped_events;
 } HT_FeatureCallstack;
 
 static void
@@ -36,6 +38,11 @@ ht_feature_callstack_create(HT_ErrorCode* out_err)
         feature = NULL;
     }
 
+    else
+    {
+        feature->dropped_events = 0;
+    }
+
     HT_SET_ERROR(out_err, error_code);
 
     return (HT_Feature*)feature;
@@ -55,16 +62,25 @@ ht_feature_callstack_start(HT_Timeline* timeline, HT_CallstackBaseEvent* event)
     HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
 
     ht_timeline_init_event(timeline, HT_EVENT(event));
-    /* TODO: handle ht_stack_push() error */
-    ht_stack_push(&f->stack, event, event->base.klass->type_info->size);
+    if (f->dropped_events > 0 || ht_stack_push(&f->stack, event, event->base.klass->type_info->size) != HT_ERR_OK)
+    {
+        f->dropped_events++;
+    }
 }
 
 void
 ht_feature_callstack_stop(HT_Timeline* timeline)
 {
     HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
-    HT_CallstackBaseEvent* event = (HT_CallstackBaseEvent*)ht_stack_top(&f->stack);
+    HT_CallstackBaseEvent* event;
+
+    if (f->dropped_events > 0)
+    {
+        f->dropped_events--;
+        return;
+    }
 
+    event = (HT_CallstackBaseEvent*)ht_stack_top(&f->stack);
     event->duration = ht_monotonic_clock_get_timestamp() - HT_EVENT(event)->timestamp;
     event->thread_id = ht_thread_get_current_thread_id();
 
-- 
2.43.0


From 0ab21dedb930598e9f803d3dec1e4e926a0160b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:36 +0000
Subject: [PATCH 20/58] fix: removing tasks from within a task must not touch
 freed tasks or skip others

---
 lib/task_scheduler.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/lib/task_scheduler.c b/lib/task_scheduler.c
index 3bef93d..ce94805 100644
--- a/lib/task_scheduler.c
+++ b/lib/task_scheduler.c
@@ -12,6 +12,7 @@ struct _HT_TaskScheduler
 {
     HT_BagVoidPtr tasks;
     HT_TaskId next_task_id;
+    size_t tick_depth;
 };
 
 typedef struct
@@ -22,6 +23,8 @@ typedef struct
     HT_TimestampNs next_action_ts;
     HT_TaskId id;
     HT_TaskSchedulingMode mode;
+    /* the task was removed while the scheduler was executing tasks, and will be destroyed afterwards */
+    HT_Boolean is_removed;
 } HT_Task;
 
 #define HT_TASK(task) ((HT_Task*)task)
@@ -60,6 +63,7 @@ ht_task_scheduler_create(HT_ErrorCode* out_err)
     }
 
     task_scheduler->next_task_id = 0;
+    task_scheduler->tick_depth = 0;
 
 done:
     HT_SET_ERROR(out_err, error_code);
@@ -106,6 +110,7 @@ ht_task_scheduler_schedule_task(HT_TaskScheduler* task_scheduler,
     task->next_action_ts = ht_monotonic_clock_get_timestamp() + period;
     task->id = task_scheduler->next_task_id++;
     task->mode = mode;
+    task->is_removed = HT_FALSE;
 
     if (ht_bag_void_ptr_add(&task_scheduler->tasks, task) != HT_ERR_OK)
     {
@@ -122,11 +127,13 @@ ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
     size_t i;
     HT_Boolean result;
 
+    task_scheduler->tick_depth++;
+
     for (i = 0; i < task_scheduler->tasks.size; i++)
     {
         HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
         HT_TimestampNs now_ts = ht_monotonic_clock_get_timestamp();
-        if (task->next_action_ts > now_ts)
+        if (task->is_removed || task->next_action_ts > now_ts)
         {
             continue;
         }
@@ -135,9 +142,7 @@ ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
 
         if (result == HT_FALSE)
         {
-            ht_bag_void_ptr_remove_nth(&task_scheduler->tasks, i);
-            ht_free(task);
-            i--;
+            task->is_removed = HT_TRUE;
         }
         else
         {
@@ -146,6 +151,22 @@ ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
                         ht_monotonic_clock_get_timestamp() + task->period;
         }
     }
+
+    if (--task_scheduler->tick_depth > 0)
+    {
+        return;
+    }
+
+    for (i = 0; i < task_scheduler->tasks.size; i++)
+    {
+        HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
+        if (task->is_removed)
+        {
+            ht_bag_void_ptr_remove_nth(&task_scheduler->tasks, i);
+            ht_free(task);
+            i--;
+        }
+    }
 }
 
 static void
@@ -174,8 +195,14 @@ ht_task_scheduler_remove_task(HT_TaskScheduler* task_scheduler, HT_TaskId task_i
     for (i = 0; i < task_scheduler->tasks.size; i++)
     {
         HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
-        if (task->id == task_id)
+        if (task->id == task_id && !task->is_removed)
         {
+            if (task_scheduler->tick_depth > 0)
+            {
+                task->is_removed = HT_TRUE;
+                return HT_TRUE;
+            }
+
             ht_task_scheduler_remove_task_entry(&task_scheduler->tasks, task);
             ht_free(task);
             return HT_TRUE;
@@ -195,7 +222,7 @@ ht_task_scheduler_get_optimal_tick_period(HT_TaskScheduler* task_scheduler)
     {
         HT_DurationNs task_period = HT_TASK(task_scheduler->tasks.data[task_pos])->period;
 
-        if (task_period == 0)
+        if (task_period == 0 || HT_TASK(task_scheduler->tasks.data[task_pos])->is_removed)
         {
             continue;
         }
-- 
2.43.0


From 0ed27a5853ce2a0fba3d37e2ce83bb5d560a2ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:01 +0000
Subject: [PATCH 21/58] fix: return no global timeline instead of crashing when
 it can't be created

---
 lib/global_timeline.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/global_timeline.cpp b/lib/global_timeline.cpp
index 614c10d..eeb8055 100644
--- a/lib/global_timeline.cpp
+++ b/lib/global_timeline.cpp
@@ -19,8 +19,17 @@ static HT_Timeline* _ht_global_timeline_create(void)
 {
     HT_Timeline* c_timeline = ht_timeline_create(global_timeline_buffer_size, HT_FALSE, HT_TRUE, "HT_GlobalTimeline", NULL);
 
-    ht_feature_callstack_enable(c_timeline);
-    ht_feature_cached_string_enable(c_timeline, HT_FALSE);
+    if (c_timeline == NULL)
+    {
+        return NULL;
+    }
+
+    if (ht_feature_callstack_enable(c_timeline) != HT_ERR_OK ||
+        ht_feature_cached_string_enable(c_timeline, HT_FALSE) != HT_ERR_OK)
+    {
+        ht_timeline_destroy(c_timeline);
+        return NULL;
+    }
 
     return c_timeline;
 }
@@ -55,7 +64,10 @@ struct GlobalTimeline
 
     ~GlobalTimeline()
     {
-        ht_timeline_destroy(c_timeline);
+        if (c_timeline != NULL)
+        {
+            ht_timeline_destroy(c_timeline);
+        }
     }
 
     HT_Timeline* c_timeline;
-- 
2.43.0


From 05a604786ea814fe0351ba2d9e20b42f2327f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:19 +0000
Subject: [PATCH 22/58] fix: make optimized static tracepoints compile in C

---
 lib/include/hawktracer/string_scoped_tracepoint.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/include/hawktracer/string_scoped_tracepoint.h b/lib/include/hawktracer/string_scoped_tracepoint.h
index 448cc2e..3d98ded 100644
--- a/lib/include/hawktracer/string_scoped_tracepoint.h
+++ b/lib/include/hawktracer/string_scoped_tracepoint.h
@@ -23,10 +23,12 @@
 
 #include <hawktracer/posix_mapped_tracepoint.h>
 
+#include <pthread.h>
+
 #define HT_TP_STRACEPOINT(timeline, label) \
     static HT_THREAD_LOCAL pthread_once_t HT_UNIQUE_VAR_NAME(ht_var_once) = PTHREAD_ONCE_INIT; \
-    static HT_THREAD_LOCAL uintptr_t HT_UNIQUE_VAR_NAME(fnc_track) = label; \
-    ht_pthread_mapped_tracepoint_enter(timeline, HT_UNIQUE_VAR_NAME(fnc_track)); \
+    static HT_THREAD_LOCAL uintptr_t HT_UNIQUE_VAR_NAME(fnc_track) = (uintptr_t)label; \
+    ht_pthread_mapped_tracepoint_enter(timeline, (const char*)HT_UNIQUE_VAR_NAME(fnc_track)); \
     pthread_once(&HT_UNIQUE_VAR_NAME(ht_var_once), ht_pthread_mapped_tracepoint_add_mapping); \
     ht_pthread_mapped_tracepoint_leave(); \
     HT_TP_SCOPED_INT(timeline, (uintptr_t)HT_UNIQUE_VAR_NAME(fnc_track));
-- 
2.43.0


From b8ee51e7ad29598bf11eeadf54ed830691b9774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:06 +0000
Subject: [PATCH 23/58] fix: tracepoints must not crash when the global
 timeline couldn't be created

---
 lib/feature_cached_string.c | 18 ++++++++++++++++--
 lib/feature_callstack.c     | 19 +++++++++++++++++--
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/lib/feature_cached_string.c b/lib/feature_cached_string.c
index 0a48a0d..c0afe05 100644
--- a/lib/feature_cached_string.c
+++ b/lib/feature_cached_string.c
@@ -132,9 +132,16 @@ ht_feature_cached_string_add_mapping_(HT_Timeline* timeline, HT_HashMap* map, ui
 uintptr_t
 ht_feature_cached_string_add_mapping(HT_Timeline* timeline, const char* label)
 {
-    HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
+    HT_FeatureCachedString* f;
     uintptr_t hash_value;
 
+    if (timeline == NULL)
+    {
+        return 0;
+    }
+
+    f = HT_FeatureCachedString_from_timeline(timeline);
+
     assert(f);
 
     HT_FCS_LOCK_(f);
@@ -169,10 +176,17 @@ ht_feature_cached_string_push_map(HT_Timeline* timeline)
 uintptr_t
 ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char* label)
 {
-    HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
+    HT_FeatureCachedString* f;
     uintptr_t hash_value;
     const char* cached_label;
 
+    if (timeline == NULL)
+    {
+        return 0;
+    }
+
+    f = HT_FeatureCachedString_from_timeline(timeline);
+
     assert(f);
 
     hash_value = djb2_hash(label);
diff --git a/lib/feature_callstack.c b/lib/feature_callstack.c
index c801288..1855390 100644
--- a/lib/feature_callstack.c
+++ b/lib/feature_callstack.c
@@ -59,7 +59,15 @@ ht_feature_callstack_destroy(HT_Feature* feature)
 void
 ht_feature_callstack_start(HT_Timeline* timeline, HT_CallstackBaseEvent* event)
 {
-    HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
+    HT_FeatureCallstack* f;
+
+    if (timeline == NULL)
+    {
+        /* e.g. there was not enough memory to create the global timeline */
+        return;
+    }
+
+    f = HT_FeatureCallstack_from_timeline(timeline);
 
     ht_timeline_init_event(timeline, HT_EVENT(event));
     if (f->dropped_events > 0 || ht_stack_push(&f->stack, event, event->base.klass->type_info->size) != HT_ERR_OK)
@@ -71,9 +79,16 @@ ht_feature_callstack_start(HT_Timeline* timeline, HT_CallstackBaseEvent* event)
 void
 ht_feature_callstack_stop(HT_Timeline* timeline)
 {
-    HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
+    HT_FeatureCallstack* f;
     HT_CallstackBaseEvent* event;
 
+    if (timeline == NULL)
+    {
+        return;
+    }
+
+    f = HT_FeatureCallstack_from_timeline(timeline);
+
     if (f->dropped_events > 0)
     {
         f->dropped_events--;
-- 
2.43.0


From 7e2d9669688e76c99f08b5a18534569fe248b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:28 +0000
Subject: [PATCH 24/58] fix: write valid JSON whatever characters labels, field
 names and values contain

---
 client/chrome_trace_converter.cpp | 59 ++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 4 deletions(-)

diff --git a/client/chrome_trace_converter.cpp b/client/chrome_trace_converter.cpp
index e5cfb9d..6af6833 100644
--- a/client/chrome_trace_converter.cpp
+++ b/client/chrome_trace_converter.cpp
@@ -1,5 +1,6 @@
 #include "chrome_trace_converter.hpp"
 
+#include <cstdio>
 #include <set>
 
 static uint64_t ns_to_ms(uint64_t nano_secs)
@@ -7,6 +8,56 @@ static uint64_t ns_to_ms(uint64_t nano_secs)
     return nano_secs / 1000u;
 }
 
+static size_t utf8_sequence_length(const std::string& str, size_t pos)
+{
+    auto byte = [&str] (size_t i) { return i < str.size() ? static_cast<unsigned char>(str[i]) : 0u; };
+    unsigned first = byte(pos);
+    size_t len = first < 0x80 ? 1 : first < 0xC2 ? 0 : first < 0xE0 ? 2 : first < 0xF0 ? 3 : first < 0xF5 ? 4 : 0;
+
+    for (size_t i = 1; i < len; i++)
+    {
+        if ((byte(pos + i) & 0xC0) != 0x80)
+        {
+            return 0;
+        }
+    }
+    // overlong forms, surrogates and values above U+10FFFF
+    if ((first == 0xE0 && byte(pos + 1) < 0xA0) || (first == 0xED && byte(pos + 1) > 0x9F) ||
+        (first == 0xF0 && byte(pos + 1) < 0x90) || (first == 0xF4 && byte(pos + 1) > 0x8F))
+    {
+        return 0;
+    }
+    return len;
+}
+
+static std::string json_string(const std::string& str)
+{
+    std::string ret = "\"";
+    for (size_t pos = 0; pos < str.size();)
+    {
+        unsigned char c = static_cast<unsigned char>(str[pos]);
+        size_t len = utf8_sequence_length(str, pos);
+        if (c == '"' || c == '\\')
+        {
+            ret += '\\';
+            ret += str[pos++];
+        }
+        else if (c < 0x20 || len == 0)
+        {
+            char buff[8];
+            snprintf(buff, sizeof(buff), "\\u%04x", c);
+            ret += buff;
+            pos++;
+        }
+        else
+        {
+            ret.append(str, pos, len);
+            pos += len;
+        }
+    }
+    return ret + "\"";
+}
+
 namespace HawkTracer
 {
 namespace client
@@ -49,8 +100,8 @@ void ChromeTraceConverter::process_event(const parser::Event& event)
 
     // Chrome expects the timestamps/durations to be microseconds
     // so we need to convert from nano to micro
-    _file << "{\"name\": \"" << label
-         << "\", \"ph\": \"X\", \"ts\": " << ns_to_ms(event.get_timestamp())
+    _file << "{\"name\": " << json_string(label)
+         << ", \"ph\": \"X\", \"ts\": " << ns_to_ms(event.get_timestamp())
          << ", \"dur\": " << ns_to_ms(event.get_value_or_default<HT_DurationNs>("duration", 0u))
          << ", \"pid\": 0, \"tid\": " << event.get_value_or_default<HT_ThreadId>("thread_id", 0u)
          << ", \"args\": {" << _get_args(event) << "}"
@@ -87,7 +138,7 @@ std::string ChromeTraceConverter::_get_args(const parser::Event& event)
         {
             ret += ",";
         }
-        ret += "\"" + value.first + "\": " + _get_json_value(value.second);
+        ret += json_string(value.first) + ": " + _get_json_value(value.second);
     }
     return ret;
 }
@@ -103,7 +154,7 @@ std::string ChromeTraceConverter::_get_json_value(const parser::Event::Value& va
     {
     MKCREFLECT_FOREACH(PRINT_INT_VALUE, 0, INT_TYPE_LIST)
     case parser::FieldTypeId::STRING:
-        return std::string("\"") + value.value.f_STRING + "\"";
+        return json_string(value.value.f_STRING);
     default:
         return "\"unsupported type\"";
     }
-- 
2.43.0


From 6ea26a608cdda68640648ba557565875ac85e819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 25/58] fix: convert labelled events even when no mapping class
 is described, and ignore names and mappings of unexpected types

---
 client/converter.cpp | 30 ++++++++++++------------------
 client/converter.hpp |  2 --
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/client/converter.cpp b/client/converter.cpp
index 0013daa..d97f670 100644
--- a/client/converter.cpp
+++ b/client/converter.cpp
@@ -13,6 +13,11 @@ namespace HawkTracer
 namespace client
 {
 
+static bool has_value_of_type(const parser::Event& event, const std::string& name, parser::FieldTypeId type)
+{
+    return event.has_value(name) && event.get_raw_value(name).field->get_type_id() == type;
+}
+
 Converter::Converter() :
     _tracepoint_map(HawkTracer::parser::make_unique<TracepointMap>()),
     _mapping_klass_name("HT_StringMappingEvent")
@@ -32,17 +37,6 @@ bool Converter::set_tracepoint_map(const std::string& map_files)
     }
 }
 
-void Converter::_try_setting_mapping_klass_id(const parser::Event& event)
-{
-    if (event.get_klass()->get_id() == HawkTracer::parser::to_underlying(HawkTracer::parser::WellKnownKlasses::EventKlassInfoEventKlass))
-    {
-        if (event.get_value<char*>("event_klass_name") == _mapping_klass_name)
-        {
-            _mapping_klass_id = event.get_value<HT_EventKlassId>("info_klass_id");
-        }
-    }
-}
-
 std::string Converter::_convert_value_to_string(const parser::Event::Value& value)
 {
     switch (value.field->get_type_id())
@@ -60,19 +54,19 @@ std::string Converter::_get_label(const parser::Event& event)
 {
     std::string label;
 
-    if (_mapping_klass_id == 0)
+    if (event.get_klass()->get_name() == _mapping_klass_name)
     {
-        _try_setting_mapping_klass_id(event);
+        if (has_value_of_type(event, "identifier", parser::FieldTypeId::UINT64) &&
+            has_value_of_type(event, "label", parser::FieldTypeId::STRING))
+        {
+            _tracepoint_map->add_map_entry(event.get_value<uint64_t>("identifier"), event.get_value<char*>("label"));
+        }
     }
-    else if (event.get_klass()->get_id() == _mapping_klass_id)
-    {
-        _tracepoint_map->add_map_entry(event.get_value<uint64_t>("identifier"), event.get_value<char*>("label"));
-    } 
     else if (event.has_value("label"))
     {
         label = _convert_value_to_string(event.get_raw_value("label")); 
     }
-    else if (event.has_value("name"))
+    else if (has_value_of_type(event, "name", parser::FieldTypeId::STRING))
     {
         label = event.get_value<char*>("name");
     }
diff --git a/client/converter.hpp b/client/converter.hpp
index b99ed23..76b8027 100644
--- a/client/converter.hpp
+++ b/client/converter.hpp
@@ -28,10 +28,8 @@ protected:
     std::unique_ptr<TracepointMap> _tracepoint_map;
 
 private:
-    void _try_setting_mapping_klass_id(const parser::Event& event);
     std::string _convert_value_to_string(const parser::Event::Value& value);
     const std::string _mapping_klass_name;
-    HT_EventKlassId _mapping_klass_id = 0;
 };
 
 } // namespace client
-- 
2.43.0


From d23e3ce1f3e5d06735cb997b5e1378f567529071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:35 +0000
Subject: [PATCH 26/58] fix: keep callers before callees in the call graph when
 their start times coincide

---
 client/call_graph.cpp          | 6 ++++--
 client/call_graph.hpp          | 6 ++++--
 client/callgrind_converter.cpp | 2 +-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/client/call_graph.cpp b/client/call_graph.cpp
index 2dcc827..a5bd143 100644
--- a/client/call_graph.cpp
+++ b/client/call_graph.cpp
@@ -10,9 +10,11 @@ namespace client
 std::vector<std::pair<std::shared_ptr<CallGraph::TreeNode>, int>> 
     CallGraph::make(std::vector<NodeData>& events)
 {
-    std::sort(events.begin(), events.end(), 
+    // a caller must precede its callees, also when they start (or start and stop) at the same time
+    std::stable_sort(events.begin(), events.end(), 
             [](const NodeData& e1, const NodeData& e2){
-                return e1.start_ts < e2.start_ts;
+                return e1.start_ts != e2.start_ts ? e1.start_ts < e2.start_ts :
+                       e1.stop_ts != e2.stop_ts ? e1.stop_ts > e2.stop_ts : e1.id < e2.id;
             });
     for (const auto& event : events)
     {
diff --git a/client/call_graph.hpp b/client/call_graph.hpp
index 0157e30..207fc37 100644
--- a/client/call_graph.hpp
+++ b/client/call_graph.hpp
@@ -17,15 +17,17 @@ public:
         std::string label;
         HT_TimestampNs start_ts;
         HT_TimestampNs stop_ts;
+        HT_EventId id = 0;
 
         NodeData()
         {
         }
 
-        NodeData(std::string name, HT_TimestampNs start, HT_DurationNs dur) :
+        NodeData(std::string name, HT_TimestampNs start, HT_DurationNs dur, HT_EventId event_id = 0) :
             label(std::move(name)),
             start_ts(start),
-            stop_ts(start + dur)
+            stop_ts(start + dur),
+            id(event_id)
         {
         }
 
diff --git a/client/callgrind_converter.cpp b/client/callgrind_converter.cpp
index 6231681..e7d0c65 100644
--- a/client/callgrind_converter.cpp
+++ b/client/callgrind_converter.cpp
@@ -30,7 +30,7 @@ void CallgrindConverter::process_event(const parser::Event& event)
     HT_ThreadId thread_id = event.get_value_or_default<HT_ThreadId>("thread_id", 0u);
     HT_TimestampNs start_ts = event.get_timestamp();
     HT_DurationNs duration = event.get_value_or_default<HT_DurationNs>("duration", 0u);
-    _events[thread_id].emplace_back(label, start_ts, duration);
+    _events[thread_id].emplace_back(label, start_ts, duration, event.get_value_or_default<HT_EventId>("id", 0u));
 }
 
 void CallgrindConverter::_print_function(std::ofstream& file, std::shared_ptr<CallGraph::TreeNode> root)
-- 
2.43.0


From 29f2c7a3badd2a8588bd866601680f2296c219cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:32 +0000
Subject: [PATCH 27/58] fix: report file read errors instead of taking them for
 data, and close a file stream that is started again

---
 parser/file_stream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/file_stream.cpp b/parser/file_stream.cpp
index dc610e6..fc4e905 100644
--- a/parser/file_stream.cpp
+++ b/parser/file_stream.cpp
@@ -15,6 +15,7 @@ FileStream::~FileStream()
 
 bool FileStream::start()
 {
+    stop();
     _file = fopen(_file_name.c_str(), "rb");
     return _file != nullptr;
 }
@@ -30,13 +31,12 @@ void FileStream::stop()
 
 bool FileStream::read_data(char* buff, size_t size)
 {
-    fread(buff, 1, size, _file);
-    return !feof(_file);
+    return _file != nullptr && fread(buff, 1, size, _file) == size;
 }
 
 int FileStream::read_byte()
 {
-    return fgetc(_file);
+    return _file != nullptr ? fgetc(_file) : EOF;
 }
 
 } // namespace parser
-- 
2.43.0


From d74b67dc3daf4ac0b21ccf487120d8108f4ef679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:32 +0000
Subject: [PATCH 28/58] fix: stop a continuous stream before waiting for the
 thread that reads it, also while the reader is being started

---
 parser/protocol_reader.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index dc6809c..f400e09 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -50,6 +50,7 @@ bool ProtocolReader::start()
 {
     if (_stream->start())
     {
+        std::lock_guard<std::mutex> l(_mtx_cv);
         _is_running = true;
         _thread = std::thread([this] { _read_events(); });
         return true;
@@ -61,9 +62,20 @@ bool ProtocolReader::start()
 void ProtocolReader::stop()
 {
     _is_running = false;
-    if (_thread.joinable())
+    if (_stream->is_continuous())
+    {
+        // the reading thread might wait for data that never comes
+        _stream->stop();
+    }
+
+    std::thread thread;
+    {
+        std::lock_guard<std::mutex> l(_mtx_cv);
+        thread = std::move(_thread);
+    }
+    if (thread.joinable())
     {
-        _thread.join();
+        thread.join();
     }
     _stream->stop();
 }
-- 
2.43.0


From 66bf1a0e86a645d35f2093b3ce2a986d36d7fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:48 +0000
Subject: [PATCH 29/58] fix: let a TCP stream be stopped at any time, and hand
 over all bytes unchanged

---
 .../client_utils/tcp_client_stream.hpp        |  6 +-
 client_utils/tcp_client_stream.cpp            | 99 ++++++++++++-------
 2 files changed, 67 insertions(+), 38 deletions(-)

diff --git a/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp b/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
index 54b6135..fe3394b 100644
--- a/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
+++ b/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
@@ -31,7 +31,7 @@ public:
     bool is_continuous() override { return true; }
 
 private:
-    void _run();
+    void _run(int sock_fd);
 
     bool _wait_for_data(std::unique_lock<std::mutex>& l);
     void _pop_if_used() { if (_datas.front().second.size() == _datas.front().first) { _datas.pop(); } }
@@ -41,7 +41,9 @@ private:
     std::condition_variable _datas_cv;
     std::thread _thread;
 
-    std::atomic<int> _sock_fd;
+    int _sock_fd;
+    std::atomic_bool _is_connected{false};
+    std::atomic_bool _stop_requested{false};
 
     std::string _ip_address;
     uint16_t _port;
diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index b06546c..4ee49dc 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -6,8 +6,10 @@
 #pragma comment(lib, "Ws2_32.lib")
 #else
 #include <arpa/inet.h>
+#include <sys/socket.h>
 #include <unistd.h>
 #endif
+#include <cerrno>
 #include <cstring>
 
 namespace HawkTracer
@@ -25,6 +27,15 @@ static int close_socket(int sock_fd)
 #endif
 }
 
+static void shutdown_socket(int sock_fd)
+{
+#ifdef _WIN32
+    shutdown(sock_fd, SD_BOTH);
+#else
+    shutdown(sock_fd, SHUT_RDWR);
+#endif
+}
+
 TCPClientStream::TCPClientStream(const std::string& ip_address, uint16_t port, bool wait_for_server) :
     _sock_fd(-1),
     _ip_address(ip_address),
@@ -40,10 +51,7 @@ TCPClientStream::~TCPClientStream()
 
 bool TCPClientStream::start()
 {
-    if (is_connected())
-    {
-        stop();
-    }
+    stop();
 
 #ifdef _WIN32
     WSAData wsa_data;
@@ -55,42 +63,63 @@ bool TCPClientStream::start()
 
     struct sockaddr_in serveraddr;
 
-    _sock_fd = socket(AF_INET, SOCK_STREAM, 0);
-    if (_sock_fd < 0)
+    int sock_fd = socket(AF_INET, SOCK_STREAM, 0);
+    if (sock_fd < 0)
     {
         return false;
     }
 
+    {
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        _datas = {};
+        _stop_requested = false;
+        _sock_fd = sock_fd;
+    }
+
     memset((char*)&serveraddr, 0, sizeof(serveraddr));
     serveraddr.sin_family = AF_INET;
     serveraddr.sin_addr.s_addr = inet_addr(_ip_address.c_str());
     serveraddr.sin_port = htons(_port);
 
-    if (_wait_for_server)
+    bool connected;
+    while (!(connected = (connect(sock_fd, (struct sockaddr*)&serveraddr, sizeof(serveraddr)) == 0 || errno == EISCONN)) &&
+           _wait_for_server && !_stop_requested)
     {
-        while (connect(_sock_fd, (struct sockaddr*)&serveraddr, sizeof(serveraddr)) < 0)
-        {
-            std::this_thread::sleep_for(std::chrono::milliseconds(10));
-        }
+        std::this_thread::sleep_for(std::chrono::milliseconds(10));
     }
-    else
+
+    std::lock_guard<std::mutex> l(_datas_mtx);
+    if (!connected || _stop_requested)
     {
-        if (connect(_sock_fd, (struct sockaddr*)&serveraddr, sizeof(serveraddr)) < 0)
-        {
-            stop();
-            return false;
-        }
+        _sock_fd = -1;
+        close_socket(sock_fd);
+        return false;
     }
 
-    _thread = std::thread([this] { _run(); });
+    _is_connected = true;
+    _thread = std::thread([this, sock_fd] { _run(sock_fd); });
 
     return true;
 }
 
 void TCPClientStream::stop()
 {
-    if (is_connected())
+    std::thread thread;
+
+    {
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        _stop_requested = true;
+        if (_sock_fd != -1)
+        {
+            shutdown_socket(_sock_fd); // wakes up the thread which uses the socket
+        }
+        thread = std::move(_thread);
+    }
+
+    if (thread.joinable())
     {
+        thread.join();
+        std::lock_guard<std::mutex> l(_datas_mtx);
         close_socket(_sock_fd);
         _sock_fd = -1;
     }
@@ -98,27 +127,17 @@ void TCPClientStream::stop()
 #ifdef _WIN32
     WSACleanup();
 #endif
-
-    if (_thread.joinable())
-    {
-        _thread.join();
-    }
 }
 
-void TCPClientStream::_run()
+void TCPClientStream::_run(int sock_fd)
 {
     char buf[BUFSIZE];
 
-    while (is_connected())
+    while (!_stop_requested)
     {
-        int size = recv(_sock_fd, buf, BUFSIZE, 0);
+        int size = recv(sock_fd, buf, BUFSIZE, 0);
         
-        if (size == 0 || size == -1)
-        {
-            close_socket(_sock_fd);
-            _sock_fd = -1;
-        }
-        else if (size > 0)
+        if (size > 0)
         {
             {
                 std::lock_guard<std::mutex> l(_datas_mtx);
@@ -126,14 +145,22 @@ void TCPClientStream::_run()
             }
             _datas_cv.notify_one();
         }
+        else if (size == 0 || errno != EINTR)
+        {
+            break;
+        }
     }
 
-    _datas_cv.notify_one();
+    {
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        _is_connected = false;
+    }
+    _datas_cv.notify_all();
 }
 
 bool TCPClientStream::is_connected() const
 {
-    return _sock_fd != -1;
+    return _is_connected;
 }
 
 bool TCPClientStream::_wait_for_data(std::unique_lock<std::mutex>& l)
@@ -153,7 +180,7 @@ int TCPClientStream::read_byte()
     else
     {
         auto& buffer = _datas.front();
-        int b = buffer.second[buffer.first++];
+        int b = static_cast<unsigned char>(buffer.second[buffer.first++]);
         _pop_if_used();
         return b;
     }
-- 
2.43.0


From 1f2bbea6a971269a650cedc30e80907748664862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:11 +0000
Subject: [PATCH 30/58] fix: do not limit the length of the output path to 128
 characters

---
 client/main.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/client/main.cpp b/client/main.cpp
index 0e2c764..b8fe3e2 100644
--- a/client/main.cpp
+++ b/client/main.cpp
@@ -7,7 +7,9 @@
 #include <hawktracer/client_utils/command_line_parser.hpp>
 #include <hawktracer/client_utils/stream_factory.hpp>
 #include <iostream>
+#include <ctime>
 #include <map>
+#include <vector>
 
 using namespace HawkTracer;
 using ClientUtils::CommandLineParser;
@@ -17,10 +19,16 @@ std::string create_output_path(const char* path)
     time_t rawtime;
     time(&rawtime);
     struct tm* time_info = localtime (&rawtime);
-    char file_name_buffer[128];
-    strftime(file_name_buffer, 128, path, time_info);
+    // additional character lets us tell an empty path from too small buffer
+    std::string format = std::string(path) + "_";
+    std::vector<char> file_name_buffer(128);
+    size_t length;
+    while ((length = strftime(file_name_buffer.data(), file_name_buffer.size(), format.c_str(), time_info)) == 0)
+    {
+        file_name_buffer.resize(file_name_buffer.size() * 2);
+    }
 
-    return file_name_buffer;
+    return std::string(file_name_buffer.data(), length - 1);
 }
 
 std::string supported_formats(std::map<std::string, std::unique_ptr<client::Converter>>& formats)
-- 
2.43.0


From c37095a368c523c4fdd7510f1fb52724ebea0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:11 +0000
Subject: [PATCH 31/58] fix: exit with an error when the output could not be
 written

---
 client/callgrind_converter.cpp    | 5 ++++-
 client/callgrind_converter.hpp    | 2 +-
 client/chrome_trace_converter.cpp | 3 ++-
 client/chrome_trace_converter.hpp | 2 +-
 client/converter.hpp              | 3 ++-
 client/main.cpp                   | 6 +++++-
 6 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/client/callgrind_converter.cpp b/client/callgrind_converter.cpp
index e7d0c65..d444d8d 100644
--- a/client/callgrind_converter.cpp
+++ b/client/callgrind_converter.cpp
@@ -55,8 +55,9 @@ void CallgrindConverter::_print_function(std::ofstream& file, std::shared_ptr<Ca
     }
 }
 
-void CallgrindConverter::stop()
+bool CallgrindConverter::stop()
 {
+    bool is_ok = true;
     for (auto& thread : _events)
     {
         CallGraph _call_graph;
@@ -79,7 +80,9 @@ void CallgrindConverter::stop()
             std::cerr << "Can't open file: " << thread_file_name << std::endl;
         }
         thread_output_file.close();
+        is_ok = is_ok && !thread_output_file.fail();
     }
+    return is_ok;
 }
 
 } // namespace client
diff --git a/client/callgrind_converter.hpp b/client/callgrind_converter.hpp
index 759d83e..3c37905 100644
--- a/client/callgrind_converter.hpp
+++ b/client/callgrind_converter.hpp
@@ -20,7 +20,7 @@ public:
 
     bool init(const std::string& file_name) override;
     void process_event(const parser::Event& event) override;
-    void stop() override;
+    bool stop() override;
 
 private:
     const std::string _callgrind_header = "# callgrind format";
diff --git a/client/chrome_trace_converter.cpp b/client/chrome_trace_converter.cpp
index 6af6833..9deaaf7 100644
--- a/client/chrome_trace_converter.cpp
+++ b/client/chrome_trace_converter.cpp
@@ -108,13 +108,14 @@ void ChromeTraceConverter::process_event(const parser::Event& event)
          << "}";
 }
 
-void ChromeTraceConverter::stop()
+bool ChromeTraceConverter::stop()
 {
     if (_file.is_open())
     {
         _file << "]}";
         _file.close();
     }
+    return !_file.fail();
 }
 
 std::string ChromeTraceConverter::_get_args(const parser::Event& event)
diff --git a/client/chrome_trace_converter.hpp b/client/chrome_trace_converter.hpp
index 4672119..7a3e6b6 100644
--- a/client/chrome_trace_converter.hpp
+++ b/client/chrome_trace_converter.hpp
@@ -19,7 +19,7 @@ public:
 
     bool init(const std::string& file_name) override;
     void process_event(const parser::Event& event) override;
-    void stop() override;
+    bool stop() override;
 
 private:
     static std::string _get_args(const parser::Event& event);
diff --git a/client/converter.hpp b/client/converter.hpp
index 76b8027..5fd513e 100644
--- a/client/converter.hpp
+++ b/client/converter.hpp
@@ -21,7 +21,8 @@ public:
     virtual bool init(const std::string& file_name) = 0;
     virtual void process_event(const parser::Event& event) = 0;
     bool set_tracepoint_map(const std::string& map_files);
-    virtual void stop() = 0;
+    // returns false if the output could not be written
+    virtual bool stop() = 0;
 
 protected:
     std::string _get_label(const parser::Event& event);
diff --git a/client/main.cpp b/client/main.cpp
index b8fe3e2..6ebe5b1 100644
--- a/client/main.cpp
+++ b/client/main.cpp
@@ -133,7 +133,11 @@ int main(int argc, char** argv)
 
     reader.wait_for_complete();
     reader.stop();
-    converter->second->stop();
+    if (!converter->second->stop())
+    {
+        std::cerr << "Can't write the output" << std::endl;
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 844a225d64678b6a419e232bfeb75a95cfc3dad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:11 +0000
Subject: [PATCH 32/58] fix: reject addresses and ports that are out of range

---
 client_utils/stream_factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client_utils/stream_factory.cpp b/client_utils/stream_factory.cpp
index 86fe6ad..51b047e 100644
--- a/client_utils/stream_factory.cpp
+++ b/client_utils/stream_factory.cpp
@@ -17,7 +17,7 @@ static bool scan_ip_address(const std::string& address, std::string& out_ip, uin
     unsigned n1, n2, n3, n4, port;
     int num = sscanf(address.c_str(), "%u.%u.%u.%u:%u", &n1, &n2, &n3, &n4, &port);
 
-    if (num >= 4)
+    if (num >= 4 && n1 <= 255 && n2 <= 255 && n3 <= 255 && n4 <= 255 && (num < 5 || port <= 65535))
     {
         out_ip = address.substr(0, address.find(':'));
         out_port = (num == 5) ? (uint16_t)port : default_port;
-- 
2.43.0


From c3b6f1860eed770e9616462b46c0f48737444b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:11 +0000
Subject: [PATCH 33/58] fix: do not start a file stream that can not be read

---
 parser/file_stream.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser/file_stream.cpp b/parser/file_stream.cpp
index fc4e905..bc4bd06 100644
--- a/parser/file_stream.cpp
+++ b/parser/file_stream.cpp
@@ -17,6 +17,18 @@ bool FileStream::start()
 {
     stop();
     _file = fopen(_file_name.c_str(), "rb");
+    if (_file != nullptr)
+    {
+        int c = fgetc(_file);
+        if (c == EOF && ferror(_file))
+        {
+            stop(); // e.g. it is a directory
+        }
+        else
+        {
+            ungetc(c, _file);
+        }
+    }
     return _file != nullptr;
 }
 
-- 
2.43.0


From 56e0682abda381a83c0269ccb995bb42c1ee0a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:54 +0000
Subject: [PATCH 34/58] fix: do not crash on malformed process statistics, and
 read memory usage of tiny processes

---
 lib/platform/linux/cpu_usage.c    | 10 ++++++++--
 lib/platform/linux/memory_usage.c |  5 -----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/platform/linux/cpu_usage.c b/lib/platform/linux/cpu_usage.c
index 473fddc..7ce7370 100644
--- a/lib/platform/linux/cpu_usage.c
+++ b/lib/platform/linux/cpu_usage.c
@@ -53,8 +53,14 @@ _get_process_time(unsigned long* total_time, int pid)
     buf[num] = '\0';
 
     /* Read stat file: http://man7.org/linux/man-pages/man5/proc.5.html */
-    int ret = sscanf(strrchr(buf, ')') + 2, /* pid (comm) */
-           "%c " /* state */
+    const char* comm_end = strrchr(buf, ')');
+    if (comm_end == NULL)
+    {
+        return HT_FALSE;
+    }
+
+    int ret = sscanf(comm_end + 1, /* pid (comm) */
+           " %c " /* state */
            "%d %d %d %d %d " /* ppid pgrp session tty_nr tpgid */
            "%u " /* flags */
            "%lu %lu %lu %lu " /* minflt cminflt majflt cmajflt  */
diff --git a/lib/platform/linux/memory_usage.c b/lib/platform/linux/memory_usage.c
index 617c8a9..b7f733d 100644
--- a/lib/platform/linux/memory_usage.c
+++ b/lib/platform/linux/memory_usage.c
@@ -62,11 +62,6 @@ ht_memory_usage_get_usage(HT_MemoryUsageContext* context,
     size_t num = fread(buf, 1, sizeof(buf) - 1, fp);
     fclose(fp);
 
-    if (num < 16)
-    {
-        return HT_ERR_INVALID_FORMAT;
-    }
-
     buf[num] = '\0';
 
     if (sscanf(buf, "%llu %llu %llu", &virt_mem, &resident_mem, &shared_mem) != 3)
-- 
2.43.0


From 7e7373e48e804bfa21bfe6d3fba9f51f94bb1a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:15 +0000
Subject: [PATCH 35/58] fix: Python tracing lost keyword arguments, methods and
 the end of every trace

Traced functions couldn't take keyword arguments, be methods, or have no
__name__, tracing before init() crashed, and nothing was flushed at exit.
Labels were unknown to listeners registered later and to other threads.
---
 bindings/python3/hawktracer_core_python.cpp | 171 ++++++++++++++------
 1 file changed, 122 insertions(+), 49 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 36ced90..c1907a9 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -4,62 +4,111 @@
 
 static PyMethodDef* trace_method = NULL;
 static HT_Boolean tracing_enabled = HT_FALSE;
-static HT_FileDumpListener* file_listener;
+static HT_FileDumpListener** file_listeners = NULL;
+static size_t file_listeners_count = 0;
 static HT_Boolean is_initialized = HT_FALSE;
 static PyObject* tracepoint_map = NULL;
 
 static PyObject*
-ht_python_core_trace_function(PyObject* function, PyObject *args);
+ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject *kwargs);
 
-static PyMethodDef ht_python_core_trace_function_md = {"trace_function", ht_python_core_trace_function, METH_VARARGS, ""};
+static PyMethodDef ht_python_core_trace_function_md = {"trace_function", (PyCFunction)(void(*)(void))ht_python_core_trace_function, METH_VARARGS | METH_KEYWORDS, ""};
 
-static uintptr_t
-ht_python_core_get_label_address(PyObject* function_name_attr)
+/* Name of the function, or name of its type if it's a callable object without a name */
+static PyObject*
+ht_python_core_get_name(PyObject* function)
 {
-    if (!PyDict_Contains(tracepoint_map, function_name_attr))
+    PyObject* name = PyObject_GetAttrString(function, "__name__");
+
+    if (name && PyUnicode_Check(name))
     {
-        /* TODO: improve cached string feature so it can handle custom pointers.
-        Then we can simply push all the mapping to a listener if it's registered too late. */
-        uintptr_t address = (uintptr_t)function_name_attr;
-        PyDict_SetItem(tracepoint_map, function_name_attr, PyLong_FromSize_t(address));
-        PyObject* function_name = PyUnicode_AsEncodedString(function_name_attr, "UTF-8", "strict");
-        HT_TIMELINE_PUSH_EVENT(ht_global_timeline_get(), HT_StringMappingEvent, address, PyBytes_AsString(function_name));
-        Py_DECREF(function_name);
-
-        return address;
+        return name;
     }
-    else
+
+    PyErr_Clear();
+    Py_XDECREF(name);
+
+    return PyUnicode_FromString(Py_TYPE(function)->tp_name);
+}
+
+/* The labels are never released, so they can be used as static strings */
+static char*
+ht_python_core_create_label(PyObject* name)
+{
+    char* label = NULL;
+    PyObject* bytes = PyUnicode_AsEncodedString(name, "UTF-8", "backslashreplace");
+    PyObject* address;
+
+    if (!bytes)
     {
-        return PyLong_AsSize_t(PyDict_GetItem(tracepoint_map, function_name_attr));
+        return NULL;
     }
+
+    label = (char*)PyMem_RawMalloc(PyBytes_Size(bytes) + 1);
+    if (label)
+    {
+        memcpy(label, PyBytes_AsString(bytes), PyBytes_Size(bytes) + 1);
+
+        address = PyLong_FromVoidPtr(label);
+        if (!address || PyDict_SetItem(tracepoint_map, name, address) != 0)
+        {
+            PyMem_RawFree(label);
+            label = NULL;
+        }
+        Py_XDECREF(address);
+    }
+    Py_DECREF(bytes);
+
+    return label;
 }
 
-static PyObject*
-ht_python_core_trace_function(PyObject* function, PyObject *args)
+static const char*
+ht_python_core_get_label(PyObject* function)
 {
-    uintptr_t address = 0;
+    const char* label = NULL;
+    PyObject* name = ht_python_core_get_name(function);
 
-    if (!PyCallable_Check(function))
+    if (name)
     {
-        Py_RETURN_NONE;
+        PyObject* address = PyDict_GetItemWithError(tracepoint_map, name);
+
+        label = address ? (const char*)PyLong_AsVoidPtr(address) : ht_python_core_create_label(name);
+        Py_DECREF(name);
     }
+    PyErr_Clear();
+
+    return label;
+}
+
+static PyObject*
+ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject *kwargs)
+{
+    uintptr_t address = 0;
+    size_t listeners_count = file_listeners_count;
 
-    if (tracing_enabled)
+    if (tracing_enabled && ht_is_initialized())
     {
-        PyObject* function_name_attr = PyObject_GetAttrString(function, "__name__");
+        const char* label = ht_python_core_get_label(function);
 
-        if (function_name_attr)
+        if (label)
+        {
+            address = ht_feature_cached_string_add_mapping(ht_global_timeline_get(), label);
+        }
+        if (address)
         {
-            address = ht_python_core_get_label_address(function_name_attr);
             ht_feature_callstack_start_int(ht_global_timeline_get(), address);
-            Py_DECREF(function_name_attr);
         }
     }
 
-    PyObject* ret = PyEval_CallObject(function, args);
+    PyObject* ret = PyObject_Call(function, args, kwargs);
 
     if (address)
     {
+        if (listeners_count != file_listeners_count)
+        {
+            /* The listener which was registered meanwhile doesn't know the label */
+            HT_TIMELINE_PUSH_EVENT(ht_global_timeline_get(), HT_StringMappingEvent, address, (const char*)address);
+        }
         ht_feature_callstack_stop(ht_global_timeline_get());
     }
 
@@ -76,9 +125,19 @@ ht_python_core_trace(PyObject* Py_UNUSED(self), PyObject* args)
         return NULL;
     }
 
-    if (trace_method)
+    if (trace_method && PyCallable_Check(traced_function))
     {
-        return PyCFunction_New(trace_method, traced_function);
+        PyObject* ret = NULL;
+        PyObject* function = PyCFunction_New(trace_method, traced_function);
+
+        if (function)
+        {
+            /* Builtin functions are not bound to instances when they are methods of a class */
+            ret = PyInstanceMethod_New(function);
+            Py_DECREF(function);
+        }
+
+        return ret;
     }
     else
     {
@@ -122,25 +181,24 @@ ht_python_core_disable_tracing(PyObject* Py_UNUSED(self), PyObject* Py_UNUSED(ig
     Py_RETURN_NONE;
 }
 
-static int
-ht_python_core_clear_module(PyObject* m)
+static void
+ht_python_core_deinit(void)
 {
-    if (is_initialized)
-    {
-        ht_timeline_flush(ht_global_timeline_get());
+    size_t i;
 
-        if (file_listener)
-        {
-            ht_file_dump_listener_stop(file_listener);
-        }
+    ht_timeline_flush(ht_global_timeline_get());
 
-        ht_deinit();
+    for (i = 0; i < file_listeners_count; i++)
+    {
+        ht_file_dump_listener_stop(file_listeners[i]);
     }
 
-    Py_DECREF(tracepoint_map);
+    PyMem_RawFree(file_listeners);
+    file_listeners = NULL;
+    file_listeners_count = 0;
+    is_initialized = HT_FALSE;
 
-    Py_CLEAR(m);
-    return 0;
+    ht_deinit();
 }
 
 static PyObject*
@@ -160,18 +218,28 @@ ht_python_core_register_file_listener(PyObject* Py_UNUSED(self), PyObject* args)
         return NULL;
     }
 
-    /* TODO: check if file_listener is already defined, and if so - unregister and destroy it.
-       We need ht_timeline_unregister_listener to implement that.
-       In the future we might support multiple listeners as well.
-       */
+    HT_FileDumpListener** listeners = (HT_FileDumpListener**)PyMem_RawRealloc(
+                file_listeners, (file_listeners_count + 1) * sizeof(HT_FileDumpListener*));
+    if (!listeners)
+    {
+        return PyErr_NoMemory();
+    }
+    file_listeners = listeners;
+
+    ht_timeline_flush(ht_global_timeline_get());
 
-    file_listener = ht_file_dump_listener_register(ht_global_timeline_get(), file_path, buffer_size, &err);
+    HT_FileDumpListener* file_listener = ht_file_dump_listener_register(ht_global_timeline_get(), file_path, buffer_size, &err);
 
     if (!file_listener)
     {
         return PyErr_Format(PyExc_Exception, "Unable to initalize file listener. Error code: %d", err);
     }
 
+    file_listeners[file_listeners_count++] = file_listener;
+
+    /* All the labels get new addresses, so they're mapped again before they're used and the listener receives the mappings */
+    PyDict_Clear(tracepoint_map);
+
     Py_RETURN_NONE;
 }
 
@@ -182,6 +250,7 @@ ht_python_core_init()
     {
         ht_init(0, NULL);
         is_initialized = HT_TRUE;
+        Py_AtExit(ht_python_core_deinit);
     }
 
     Py_RETURN_NONE;
@@ -236,7 +305,7 @@ static struct PyModuleDef HawkTracer_Python_Core_module = {
     HawkTracer_methods,
     NULL,
     NULL,
-    ht_python_core_clear_module,
+    NULL,
     NULL
 };
 
@@ -256,6 +325,10 @@ PyInit_core(void)
         }
 
         tracepoint_map = PyDict_New();
+        if (!tracepoint_map)
+        {
+            Py_CLEAR(module);
+        }
     }
 
     return module;
-- 
2.43.0


From f033001c14601b29b1ef11986297f2a8bb97cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:15 +0000
Subject: [PATCH 36/58] fix: Python client crashed when not started, deadlocked
 on stop and misreported negative values

Methods called before start() dereferenced null, stopping or destroying a
client while its callback was running deadlocked on the GIL or crashed at
exit, events were built without the GIL and leaked, negative integers and
text that isn't UTF-8 were reported incorrectly.
---
 bindings/python3/client_context.cpp           | 140 ++++++++++---
 bindings/python3/client_context.hpp           |  20 +-
 bindings/python3/hawktracer_client_python.cpp | 186 ++++++++++++++++--
 parser/protocol_reader.cpp                    |   5 +
 4 files changed, 298 insertions(+), 53 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index e0e8c84..1b5fdac 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -1,58 +1,91 @@
 #include "client_context.hpp"
 #include "hawktracer/parser/event.hpp"
 
+#include <chrono>
+
 namespace HawkTracer
 {
 namespace Python
 {
 
-static PyObject* event_to_dictionary(const parser::Event& event)
+/* Strings in events are not necessarily valid UTF-8; bytes which can't be decoded are replaced with surrogates */
+static PyObject* to_py_string(const char* value, size_t size)
 {
-#define CREATE_INT_TYPE(HAWKTRACER_TYPE, C_TYPE) \
-    case parser::FieldTypeId::HAWKTRACER_TYPE: \
-    val = PyLong_FromUnsignedLongLong((C_TYPE)p.second.value.f_##HAWKTRACER_TYPE); \
-    break;
+    return PyUnicode_DecodeUTF8(value, static_cast<Py_ssize_t>(size), "surrogateescape");
+}
 
+static PyObject* event_to_dictionary(const parser::Event& event)
+{
     PyObject* dict = PyDict_New();
+    if (!dict)
+    {
+        return nullptr;
+    }
 
     for (const auto& p : event.get_values())
     {
         PyObject* val = nullptr;
         switch (p.second.field->get_type_id())
         {
+#define CREATE_INT_TYPE(HAWKTRACER_TYPE, C_TYPE) \
+        case parser::FieldTypeId::HAWKTRACER_TYPE: \
+            val = PyLong_FromUnsignedLongLong((C_TYPE)p.second.value.f_##HAWKTRACER_TYPE); \
+            break;
         MKCREFLECT_FOREACH(CREATE_INT_TYPE, uint64_t, UINT8, UINT16, UINT32, UINT64, POINTER)
+#undef CREATE_INT_TYPE
+#define CREATE_INT_TYPE(HAWKTRACER_TYPE, C_TYPE) \
+        case parser::FieldTypeId::HAWKTRACER_TYPE: \
+            val = PyLong_FromLongLong((C_TYPE)p.second.value.f_##HAWKTRACER_TYPE); \
+            break;
         MKCREFLECT_FOREACH(CREATE_INT_TYPE, int64_t, INT8, INT16, INT32, INT64)
 #undef CREATE_INT_TYPE
         case parser::FieldTypeId::STRING:
-            val = PyUnicode_FromString(p.second.value.f_STRING);
+            val = to_py_string(p.second.value.f_STRING, strlen(p.second.value.f_STRING));
             break;
         default:
-            break;
+            continue;
         }
 
-        if (!val)
+        PyObject* key = to_py_string(p.first.c_str(), p.first.size());
+        int err = (key && val) ? PyDict_SetItem(dict, key, val) : -1;
+        Py_XDECREF(key);
+        Py_XDECREF(val);
+        if (err != 0)
         {
-            continue;
+            Py_DECREF(dict);
+            return nullptr;
         }
-
-        PyDict_SetItem(dict, PyUnicode_FromString(p.first.c_str()), val);
     }
 
     return dict;
 }
 
+static PyObject* event_to_tuple(const parser::Event& event)
+{
+    std::string klass_name = event.get_klass()->get_name();
+    PyObject* name = to_py_string(klass_name.c_str(), klass_name.size());
+    PyObject* dict = name ? event_to_dictionary(event) : nullptr;
+    PyObject* tuple = dict ? PyTuple_Pack(2, name, dict) : nullptr;
+    Py_XDECREF(name);
+    Py_XDECREF(dict);
+
+    return tuple;
+}
+
 Context::Context(std::unique_ptr<parser::Stream> stream, PyObject* on_new_event) :
+    _is_continuous(stream->is_continuous()),
     _reader(&_klass_register, std::move(stream), true),
     _on_new_event(on_new_event)
 {
-    if (_on_new_event)
-    {
-        Py_XINCREF(_on_new_event);
-    }
+    Py_XINCREF(_on_new_event);
     _reader.register_events_listener([this] (const parser::Event& event) {
+        _reader_thread_id = std::this_thread::get_id();
         if (_on_new_event)
         {
-            _trigger_callback(event);
+            if (!_is_stopped)
+            {
+                _trigger_callback(event);
+            }
         }
         else
         {
@@ -62,40 +95,87 @@ Context::Context(std::unique_ptr<parser::Stream> stream, PyObject* on_new_event)
     });
 }
 
-Context::~Context()
- {
-     if (_on_new_event)
-     {
-         Py_DECREF(_on_new_event);
-     }
- }
+bool Context::start()
+{
+    std::unique_lock<std::mutex> l(_stop_mtx);
+    if (_is_stopped)
+    {
+        return false;
+    }
+    _is_starting = true;
+    if (_is_continuous)
+    {
+        // continuous streams might wait for a data source, so it must be possible to stop them meanwhile
+        l.unlock();
+    }
+
+    bool is_started = _reader.start();
+    _is_starting = false;
+    return is_started;
+}
+
+void Context::release_callback()
+{
+    Py_CLEAR(_on_new_event);
+}
+
+void Context::stop()
+{
+    _is_stopped = true;
+    if (is_reader_thread())
+    {
+        _reader.stop();
+    }
+    else
+    {
+        std::lock_guard<std::mutex> l(_stop_mtx);
+        while (_is_starting)
+        {
+            _reader.stop();
+            std::this_thread::sleep_for(std::chrono::milliseconds(1));
+        }
+        _reader.stop();
+        _reader_thread_id = std::thread::id();
+    }
+}
+
+void Context::wait_for_complete()
+{
+    if (!is_reader_thread())
+    {
+        _reader.wait_for_complete();
+    }
+}
 
 PyObject* Context::poll_event()
 {
-    std::lock_guard<std::mutex> l(_events_mtx);
+    std::unique_lock<std::mutex> l(_events_mtx);
     if (_events.empty())
     {
+        l.unlock();
         Py_RETURN_NONE;
     }
 
-    parser::Event evt = _events.front();
-    PyObject* py_event = event_to_dictionary(evt);
+    parser::Event evt = std::move(_events.front());
     _events.pop();
-    return Py_BuildValue("sO", evt.get_klass()->get_name().c_str(), py_event);
+    l.unlock();
+
+    return event_to_tuple(evt);
 }
 
 void Context::_trigger_callback(const parser::Event& event)
 {
-    PyObject* arglist = Py_BuildValue("(sO)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyGILState_STATE gstate = PyGILState_Ensure();
 
-    PyObject* result = PyEval_CallObject(_on_new_event, arglist);
-    Py_DECREF(arglist);
+    PyObject* arglist = event_to_tuple(event);
+    PyObject* result = arglist ? PyObject_CallObject(_on_new_event, arglist) : nullptr;
+    Py_XDECREF(arglist);
 
     if (!result)
     {
         printf("Failed to call callback! ");
         printf("Callback must have 2 arguments: (klass_name, event_data)\n");
+        PyErr_WriteUnraisable(_on_new_event);
     }
     else
     {
diff --git a/bindings/python3/client_context.hpp b/bindings/python3/client_context.hpp
index d823caf..69d2869 100644
--- a/bindings/python3/client_context.hpp
+++ b/bindings/python3/client_context.hpp
@@ -7,8 +7,10 @@
 #include "hawktracer/parser/klass_register.hpp"
 #include "hawktracer/parser/protocol_reader.hpp"
 
+#include <atomic>
 #include <mutex>
 #include <queue>
+#include <thread>
 
 namespace HawkTracer
 {
@@ -19,20 +21,28 @@ class Context
 {
 public:
     Context(std::unique_ptr<parser::Stream> stream, PyObject* on_new_event);
-    ~Context();
 
-    void start() { _reader.start(); }
-    void stop() { _reader.stop(); }
+    bool start();
+    void stop();
     PyObject* poll_event();
     bool eos() { return _reader.eos(); }
-    void wait_for_complete() { _reader.wait_for_complete(); }
+    void wait_for_complete();
+    /* Requires GIL; the context must be stopped before. */
+    void release_callback();
+    PyObject* get_callback() const { return _on_new_event; }
+    bool is_reader_thread() const { return _reader_thread_id == std::this_thread::get_id(); }
 
 private:
     void _trigger_callback(const parser::Event& event);
 
     std::mutex _events_mtx;
-    std::queue<parser::Event> _events;
+    std::mutex _stop_mtx;
+    std::atomic_bool _is_stopped{false};
+    std::atomic_bool _is_starting{false};
+    const bool _is_continuous;
+    std::atomic<std::thread::id> _reader_thread_id{std::thread::id()};
     parser::KlassRegister _klass_register;
+    std::queue<parser::Event> _events;
     parser::ProtocolReader _reader;
     PyObject* _on_new_event = nullptr;
 };
diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index f72eb00..67bf26c 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -3,6 +3,10 @@
 #include "client_context.hpp"
 #include <hawktracer/client_utils/stream_factory.hpp>
 
+#include <memory>
+#include <set>
+#include <vector>
+
 namespace HawkTracer
 {
 namespace Python
@@ -13,9 +17,69 @@ using namespace HawkTracer;
 struct HT_Python_Client
 {
     PyObject_HEAD
-    Context* context;
+    std::shared_ptr<Context>* context;
 };
 
+/* All the contexts in use; all of them must be stopped before the interpreter is finalized. Access requires GIL. */
+static std::set<std::shared_ptr<Context>>& contexts = *new std::set<std::shared_ptr<Context>>();
+
+static std::shared_ptr<Context>
+client_get_context(HT_Python_Client* self)
+{
+    return self->context ? *self->context : nullptr;
+}
+
+/* Requires GIL; GIL is temporarily released. */
+static void
+client_stop_context(const std::shared_ptr<Context>& context)
+{
+    Py_BEGIN_ALLOW_THREADS
+    context->stop();
+    Py_END_ALLOW_THREADS
+}
+
+/* Requires GIL; GIL is temporarily released. */
+static void
+client_release_context(const std::shared_ptr<Context>& context)
+{
+    client_stop_context(context);
+
+    /* reader can't be destroyed in its own thread, so it stays in the set until next call */
+    std::vector<std::shared_ptr<Context>> unused;
+    if (!context->is_reader_thread())
+    {
+        unused.push_back(context);
+    }
+    for (const auto& c : contexts)
+    {
+        if (c.use_count() == 1 && !c->is_reader_thread())
+        {
+            unused.push_back(c);
+        }
+    }
+    for (const auto& c : unused)
+    {
+        contexts.erase(c);
+    }
+    for (const auto& c : unused)
+    {
+        client_stop_context(c);
+        c->release_callback();
+    }
+}
+
+static PyObject*
+client_stop_all(PyObject* Py_UNUSED(self), PyObject* Py_UNUSED(ignored))
+{
+    std::set<std::shared_ptr<Context>> to_stop;
+    to_stop.swap(contexts);
+    for (const auto& context : to_stop)
+    {
+        client_stop_context(context);
+    }
+    Py_RETURN_NONE;
+}
+
 static PyObject *
 client_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 {
@@ -44,6 +108,11 @@ client_start(HT_Python_Client* self, PyObject* args)
         return nullptr;
     }
 
+    if (callback_obj == Py_None)
+    {
+        callback_obj = nullptr;
+    }
+
     if (callback_obj && !PyCallable_Check(callback_obj))
     {
         PyErr_SetString(PyExc_TypeError, "parameter must be callable");
@@ -56,51 +125,121 @@ client_start(HT_Python_Client* self, PyObject* args)
         return nullptr;
     }
 
-    if (self->context)
+    auto old_context = client_get_context(self);
+    auto context = std::make_shared<Context>(std::move(stream), callback_obj);
+    contexts.insert(context);
+    if (!self->context)
+    {
+        self->context = new std::shared_ptr<Context>(context);
+    }
+    else
+    {
+        *self->context = context;
+    }
+
+    if (old_context)
+    {
+        client_release_context(old_context);
+    }
+
+    bool is_started;
+    Py_BEGIN_ALLOW_THREADS
+    is_started = context->start();
+    Py_END_ALLOW_THREADS
+
+    if (!is_started)
     {
-        delete self->context;
+        client_release_context(context);
+        PyErr_SetString(PyExc_OSError, "unable to open the source");
+        return nullptr;
     }
 
-    self->context = new Context(std::move(stream), callback_obj);
-    self->context->start();
     Py_RETURN_NONE;
 }
 
 static PyObject *
 client_stop(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    self->context->stop();
+    if (auto context = client_get_context(self))
+    {
+        client_stop_context(context);
+    }
     Py_RETURN_NONE;
 }
 
 static PyObject *
 client_poll_event(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    return self->context->poll_event();
+    if (auto context = client_get_context(self))
+    {
+        return context->poll_event();
+    }
+    Py_RETURN_NONE;
 }
 
 static PyObject *
 client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    Py_BEGIN_ALLOW_THREADS
+    if (auto context = client_get_context(self))
+    {
+        Py_BEGIN_ALLOW_THREADS
 
-    self->context->wait_for_complete();
+        context->wait_for_complete();
 
-    Py_END_ALLOW_THREADS
+        Py_END_ALLOW_THREADS
+    }
     Py_RETURN_NONE;
 }
 
 static PyObject *
 client_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    return PyBool_FromLong(self->context->eos());
+    auto context = client_get_context(self);
+    return PyBool_FromLong(!context || context->eos());
+}
+
+static int
+client_traverse(PyObject* self, visitproc visit, void* arg)
+{
+    if (auto context = client_get_context(reinterpret_cast<HT_Python_Client*>(self)))
+    {
+        Py_VISIT(context->get_callback());
+    }
+    return 0;
+}
+
+static int
+client_clear(PyObject* self)
+{
+    auto client = reinterpret_cast<HT_Python_Client*>(self);
+    if (client->context)
+    {
+        auto context = std::move(*client->context);
+        delete client->context;
+        client->context = nullptr;
+        client_release_context(context);
+    }
+    return 0;
+}
+
+/* Called before any object of a reference cycle is cleared, so the callback is still valid */
+static void
+client_finalize(PyObject* self)
+{
+    if (auto context = client_get_context(reinterpret_cast<HT_Python_Client*>(self)))
+    {
+        PyObject *type, *value, *traceback;
+        PyErr_Fetch(&type, &value, &traceback);
+        client_stop_context(context);
+        PyErr_Restore(type, value, traceback);
+    }
 }
 
 static void
 client_dealloc(PyObject* self)
 {
-    auto client = reinterpret_cast<HT_Python_Client*>(self);
-    delete client->context;
+    PyObject_GC_UnTrack(self);
+    client_clear(self);
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
 
@@ -156,11 +295,11 @@ static PyTypeObject HT_Python_Client_type_object = {
     0,                                      /* tp_getattro */
     0,                                      /* tp_setattro */
     0,                                      /* tp_as_buffer */
-    Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, /* tp_flags */
+    Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC, /* tp_flags */
     "Class responsible for receiving HawkTracer "
     "events from a specific data source.",  /* tp_doc */
-    0,                                      /* tp_traverse */
-    0,                                      /* tp_clear */
+    client_traverse,                        /* tp_traverse */
+    client_clear,                           /* tp_clear */
     0,                                      /* tp_richcompare */
     0,                                      /* tp_weaklistoffset */
     0,                                      /* tp_iter */
@@ -190,6 +329,10 @@ static PyTypeObject HT_Python_Client_type_object = {
 
 static PyMethodDef HawkTracer_methods[] =
 {
+    {
+        "_stop_all", (PyCFunction) client_stop_all, METH_NOARGS,
+        "Stop all the clients. The function is called before the interpreter exits."
+    },
     {nullptr, nullptr, 0, nullptr}
 };
 
@@ -207,6 +350,7 @@ static struct PyModuleDef HawkTracer_module = {
 PyMODINIT_FUNC
 PyInit_client(void)
 {
+    HawkTracer::Python::HT_Python_Client_type_object.tp_finalize = HawkTracer::Python::client_finalize;
     if (PyType_Ready(&HawkTracer::Python::HT_Python_Client_type_object) < 0)
     {
         return nullptr;
@@ -219,10 +363,16 @@ PyInit_client(void)
         PyModule_AddObject(module, "Client",
                            (PyObject *) &HawkTracer::Python::HT_Python_Client_type_object);
 
-        if (!PyEval_ThreadsInitialized())
+        PyObject* stop_all = PyObject_GetAttrString(module, "_stop_all");
+        PyObject* atexit = PyImport_ImportModule("atexit");
+        PyObject* result = (stop_all && atexit) ? PyObject_CallMethod(atexit, "register", "O", stop_all) : nullptr;
+        if (!result)
         {
-            PyEval_InitThreads();
+            Py_CLEAR(module);
         }
+        Py_XDECREF(result);
+        Py_XDECREF(atexit);
+        Py_XDECREF(stop_all);
     }
 
     return module;
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index f400e09..2c251a6 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -71,6 +71,11 @@ void ProtocolReader::stop()
     std::thread thread;
     {
         std::lock_guard<std::mutex> l(_mtx_cv);
+        if (_thread.get_id() == std::this_thread::get_id())
+        {
+            // called by a listener; the thread finishes when the listener returns
+            return;
+        }
         thread = std::move(_thread);
     }
     if (thread.joinable())
-- 
2.43.0


From 688276775e22ccb9fc15bfe000188eef7caeb5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:36 +0000
Subject: [PATCH 37/58] fix: sources that only start like an address were
 waited for forever

---
 client_utils/stream_factory.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/client_utils/stream_factory.cpp b/client_utils/stream_factory.cpp
index 51b047e..b2f4307 100644
--- a/client_utils/stream_factory.cpp
+++ b/client_utils/stream_factory.cpp
@@ -15,15 +15,28 @@ namespace ClientUtils
 static bool scan_ip_address(const std::string& address, std::string& out_ip, uint16_t& out_port, uint16_t default_port)
 {
     unsigned n1, n2, n3, n4, port;
-    int num = sscanf(address.c_str(), "%u.%u.%u.%u:%u", &n1, &n2, &n3, &n4, &port);
+    int end = 0;
+    const std::string ip = address.substr(0, address.find(':'));
 
-    if (num >= 4 && n1 <= 255 && n2 <= 255 && n3 <= 255 && n4 <= 255 && (num < 5 || port <= 65535))
+    if (ip.find_first_not_of("0123456789.") != std::string::npos ||
+        sscanf(ip.c_str(), "%3u.%3u.%3u.%3u%n", &n1, &n2, &n3, &n4, &end) != 4 || ip.size() != (size_t)end ||
+        n1 > 255 || n2 > 255 || n3 > 255 || n4 > 255)
     {
-        out_ip = address.substr(0, address.find(':'));
-        out_port = (num == 5) ? (uint16_t)port : default_port;
-        return true;
+        return false;
     }
-    return false;
+
+    if (sscanf(address.c_str() + end, ":%u", &port) != 1)
+    {
+        port = default_port;
+    }
+    if (port > 65535)
+    {
+        return false;
+    }
+
+    out_ip = ip;
+    out_port = (uint16_t)port;
+    return true;
 }
 
 static bool file_exists(const char* name)
-- 
2.43.0


From 0822a70ee18fe7617629feb126957fd4033e1599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:18 +0000
Subject: [PATCH 38/58] fix: label generator missed one-letter labels, scanned
 unrelated files and failed on non-UTF-8 sources

---
 tools/generate_tracepoint_labels.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tools/generate_tracepoint_labels.py b/tools/generate_tracepoint_labels.py
index b6aa80f..4013201 100644
--- a/tools/generate_tracepoint_labels.py
+++ b/tools/generate_tracepoint_labels.py
@@ -1,4 +1,5 @@
 import argparse
+import io
 import os
 import re
 import sys
@@ -84,7 +85,7 @@ class LanguageSupport:
 
         for root, _, file_names in os.walk(self._parameters.get_search_dir()):
             file_paths = [os.path.abspath(os.path.join(root, file_path)) for file_path in file_names]
-            for file_path in filter(file_regex.match, file_paths):
+            for file_path in filter(os.path.isfile, filter(file_regex.match, file_paths)):
                 for label_match in self._get_matches(file_path, label_regex):
                     if label_match.group(1) not in label_set:
                         self._labels.append((label_match.group(1), self._start_label_id))  # todo group nr to arguments
@@ -98,7 +99,9 @@ class LanguageSupport:
 
     @staticmethod
     def _get_matches(file_name, regex):
-        return [regex.match(line) for line in open(file_name) if regex.match(line)]
+        # source files are not necessarily valid UTF-8
+        with io.open(file_name, encoding='utf-8', errors='replace') as f:
+            return [regex.match(line) for line in f if regex.match(line)]
 
 
 def generate_c_cpp_header(cpp_labels, stream):
@@ -112,6 +115,9 @@ def generate_c_cpp_header(cpp_labels, stream):
 
 
 def generate_lua_file(lua_labels, stream):
+    if not lua_labels:
+        return
+
     stream.write('local {} = {}\n'.format(
         ','.join([l[0] for l in lua_labels]), ','.join([str(l[1]) for l in lua_labels])))
 
@@ -134,12 +140,12 @@ def run_program(argv):
 
     languages = [
         LanguageSupport(
-            LanguageSupportArgs(parser, 'cpp', 'C/C++', '.*\.(c|cpp|h|hpp)',
-                                '^\s*HT_TP_GLOBAL_SCOPED_INT\s*\(([_A-Za-z][A-Za-z_0-9]+)\)\s*;\s*$'),
+            LanguageSupportArgs(parser, 'cpp', 'C/C++', '.*\.(c|cpp|h|hpp)$',
+                                '^\s*HT_TP_GLOBAL_SCOPED_INT\s*\(([_A-Za-z][A-Za-z_0-9]*)\)\s*;\s*$'),
             generate_c_cpp_header),
         LanguageSupport(
-            LanguageSupportArgs(parser, 'lua', 'LUA', '.*\.lua',
-                                '^\s*--@TracepointStart\s+([_A-Za-z][A-Za-z_0-9]+)\s*$'),
+            LanguageSupportArgs(parser, 'lua', 'LUA', '.*\.lua$',
+                                '^\s*--@TracepointStart\s+([_A-Za-z][A-Za-z_0-9]*)\s*$'),
             generate_lua_file)
     ]
 
-- 
2.43.0


From c496f31f7e8e466afb7354ce1cd3e4960c38c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:28 +0000
Subject: [PATCH 39/58] fix: map generated from a binary was not understood by
 the client

---
 tools/generate_map_from_binary.sh | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/generate_map_from_binary.sh b/tools/generate_map_from_binary.sh
index a1de9e1..57b314d 100755
--- a/tools/generate_map_from_binary.sh
+++ b/tools/generate_map_from_binary.sh
@@ -45,6 +45,14 @@ echoerr "Generating address map for $binary_path"
 echoerr "Minimum address: $min_address"
 echoerr "Readelf application: $readelf_path"
 
-$readelf_path -s --wide $binary_path | grep " FUNC " | gawk '{print strtonum("0x" $2) " " $8}' | awk '{system("c++filt" $3)}' | grep '^[0-9]' | awk -v min_address=$min_address '{ if ($1 >= min_address) print $1 " 2 " $2 }' 
+# Map entry is "category label identifier", so a label can't have whitespaces
+"$readelf_path" -s --wide "$binary_path" | awk '$4 == "FUNC" {print $2 " " $8}' | sort -u | while read -r address name
+do
+    address=$((16#$address))
+    if ((address >= min_address))
+    then
+        echo "$address ${name%%@*}"
+    fi
+done | c++filt | awk '{address = $1; sub(/^[0-9]+ /, ""); gsub(/[ \t]+/, "_"); print "native " $0 " " address}'
 
 echoerr "Generating map completed!"
-- 
2.43.0


From c085d81ce00327e607c6701dcf6a2164c0005447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:05 +0000
Subject: [PATCH 40/58] fix: negative global timeline buffer sizes were used as
 huge ones

---
 lib/command_line_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/command_line_parser.c b/lib/command_line_parser.c
index 795940e..13510f0 100644
--- a/lib/command_line_parser.c
+++ b/lib/command_line_parser.c
@@ -52,7 +52,8 @@ set_global_timeline_buffer_size(int argc, char** argv, int pos)
         return HT_ERR_OUT_OF_RANGE;
     }
 
-    if (end - s == 0)
+    /* strtoul() accepts negative values as well */
+    if (end - s == 0 || strchr(s, '-') != NULL)
     {
         return HT_ERR_INVALID_FORMAT;
     }
-- 
2.43.0


From 1a5f437b65b6336d8b8b286f1af38e7e58930632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 41/58] fix: allocation hooks did not link when the amalgamated
 source is built as C++

---
 lib/platform/linux/alloc_hooks.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/platform/linux/alloc_hooks.c b/lib/platform/linux/alloc_hooks.c
index ac672e9..4a41470 100644
--- a/lib/platform/linux/alloc_hooks.c
+++ b/lib/platform/linux/alloc_hooks.c
@@ -12,10 +12,12 @@ static HT_AllocHookFree _pre_free_hook = NULL;
 static HT_AllocHookFree _post_free_hook = NULL;
 static void* _hook_user_data = NULL;
 
+HT_DECLS_BEGIN
 extern void *__libc_malloc(size_t);
 extern void *__libc_calloc(size_t, size_t);
 extern void __libc_free(void*);
 extern void* __libc_realloc(void*, size_t);
+HT_DECLS_END
 
 
 #if defined (__THROW)
-- 
2.43.0


From dec67ca928ad0d2da9894334361d8be1734d5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 42/58] fix: amalgamated header must not depend on the order of
 files in the file system

---
 tools/amalgamate.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tools/amalgamate.py b/tools/amalgamate.py
index d085d80..d7deeb8 100644
--- a/tools/amalgamate.py
+++ b/tools/amalgamate.py
@@ -251,8 +251,17 @@ class Amalgamator:
             f.write("#ifndef {}\n".format(header_guard))
             f.write("#define {}\n\n".format(header_guard))
 
-            for header in self._headers.get_public_header_graph().topology_sort():
-                header_file_dumper.dump_file(header)
+            headers = self._headers.get_public_header_graph().topology_sort()
+
+            for header in headers:
+                if header not in skip_headers:
+                    header_file_dumper.dump_file(header)
+
+            # It affects all the event declarations that follow it, therefore it must be
+            # the last one, regardless of the order of files in the file system.
+            for header in headers:
+                if header in skip_headers:
+                    header_file_dumper.dump_file(header)
 
             f.write("#endif /* {} */\n".format(header_guard))
 
-- 
2.43.0


From 27f2cb2546c1df98b5c8d33cc26401ea041da9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:49 +0000
Subject: [PATCH 43/58] fix: TCP server joined its POSIX thread twice

---
 lib/tcp_server.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 50b9864..3c43e02 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -265,7 +265,6 @@ ht_tcp_server_stop(HT_TCPServer* server)
 
     if (server->accept_client_thread)
     {
-        ht_thread_join(server->accept_client_thread);
         ht_thread_destroy(server->accept_client_thread);
         server->accept_client_thread = NULL;
     }
-- 
2.43.0


From 4997b00a7cfedbc6c9332c3b932504c055c1a5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:16 +0000
Subject: [PATCH 44/58] fix: events of the main thread's global timeline were
 lost at exit in C and single-threaded builds

---
 lib/global_timeline.cpp | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/lib/global_timeline.cpp b/lib/global_timeline.cpp
index eeb8055..b8386b3 100644
--- a/lib/global_timeline.cpp
+++ b/lib/global_timeline.cpp
@@ -1,6 +1,8 @@
 #include "internal/global_timeline.h"
 #include "hawktracer/global_timeline.h"
 
+#include <stdlib.h>
+
 static size_t global_timeline_buffer_size = 1024;
 
 void
@@ -40,17 +42,30 @@ static HT_Timeline* _ht_global_timeline_create(void)
  * we assume the HawkTracer is being used in a single-threaded
  * environment, therefore no need for per-thread timeline.
  */
-HT_Timeline* ht_global_timeline_get(void)
+static HT_Timeline* global_timeline = NULL;
+
+static void _ht_destroy_timeline(void)
 {
-    static HT_Timeline* timeline = NULL;
+    if (global_timeline)
+    {
+        ht_timeline_destroy(global_timeline);
+        global_timeline = NULL;
+    }
+}
 
-    if (!timeline)
+HT_Timeline* ht_global_timeline_get(void)
+{
+    if (!global_timeline)
     {
-        // TODO memory leak
-        timeline = _ht_global_timeline_create();
+        global_timeline = _ht_global_timeline_create();
+
+        if (global_timeline)
+        {
+            atexit(_ht_destroy_timeline);
+        }
     }
 
-    return timeline;
+    return global_timeline;
 }
 
 #elif defined(HT_CPP11)
@@ -94,9 +109,22 @@ static void _ht_destroy_timeline(void* timeline)
     ht_timeline_destroy((HT_Timeline*)timeline);
 }
 
+/* Key destructors don't run for the thread that exits the process */
+static void _ht_destroy_exiting_thread_timeline(void)
+{
+    HT_Timeline* timeline = (HT_Timeline*)pthread_getspecific(timeline_key);
+
+    if (timeline)
+    {
+        pthread_setspecific(timeline_key, NULL);
+        ht_timeline_destroy(timeline);
+    }
+}
+
 static void create_key(void)
 {
     pthread_key_create(&timeline_key, _ht_destroy_timeline);
+    atexit(_ht_destroy_exiting_thread_timeline);
 }
 
 HT_Timeline* ht_global_timeline_get(void)
-- 
2.43.0


From e6d8c7e7c522dafec10f95bfcef9decffb6be3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:47 +0000
Subject: [PATCH 45/58] fix: C programs could not link scoped tracepoints with
 the library built as C++

---
 lib/include/hawktracer/scoped_tracepoint.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/include/hawktracer/scoped_tracepoint.h b/lib/include/hawktracer/scoped_tracepoint.h
index 45f3834..82de37d 100644
--- a/lib/include/hawktracer/scoped_tracepoint.h
+++ b/lib/include/hawktracer/scoped_tracepoint.h
@@ -3,6 +3,14 @@
 
 #include <hawktracer/feature_callstack.h>
 
+#ifdef __GNUC__
+HT_DECLS_BEGIN
+void _ht_callstack_timeline_scoped_cleanup(HT_Timeline** timeline);
+HT_Timeline* _ht_callstack_timeline_int_start_and_ret(HT_Timeline* t, HT_CallstackEventLabel l);
+HT_Timeline* _ht_callstack_timeline_string_start_and_ret(HT_Timeline* t, const char* l);
+HT_DECLS_END
+#endif /* __GNUC__ */
+
 #if defined (__cplusplus)
 #define HT_SCOPED_TRACEPOINT_MACRO_ENABLED
 
@@ -14,12 +22,6 @@
 #elif defined(__GNUC__)
 #define HT_SCOPED_TRACEPOINT_MACRO_ENABLED
 
-HT_DECLS_BEGIN
-void _ht_callstack_timeline_scoped_cleanup(HT_Timeline** timeline);
-HT_Timeline* _ht_callstack_timeline_int_start_and_ret(HT_Timeline* t, HT_CallstackEventLabel l);
-HT_Timeline* _ht_callstack_timeline_string_start_and_ret(HT_Timeline* t, const char* l);
-HT_DECLS_END
-
 #define HT_TP_SCOPED_GENERIC_(type, c_type, callstack_timeline, label) \
     HT_Timeline* _ht_callstack_timeline __attribute__ ((__cleanup__(_ht_callstack_timeline_scoped_cleanup))) \
         = _ht_callstack_timeline_##type##_start_and_ret(callstack_timeline, label)
-- 
2.43.0


From 24c214973fff7b2db208f5feaa826896b5ca8a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:15 +0000
Subject: [PATCH 46/58] fix: code traced after the thread's global timeline was
 destroyed used freed memory

---
 lib/global_timeline.cpp                  | 33 ++++++++++++++++++------
 lib/include/hawktracer/global_timeline.h |  4 ++-
 lib/timeline.c                           | 19 ++++++++++++--
 3 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/lib/global_timeline.cpp b/lib/global_timeline.cpp
index b8386b3..4cf83c5 100644
--- a/lib/global_timeline.cpp
+++ b/lib/global_timeline.cpp
@@ -69,6 +69,9 @@ HT_Timeline* ht_global_timeline_get(void)
 }
 
 #elif defined(HT_CPP11)
+/* It doesn't need any destruction, so unlike GlobalTimeline object it can be accessed till the very end of the thread */
+static HT_THREAD_LOCAL HT_Timeline* c_timeline = NULL;
+
 struct GlobalTimeline
 {
     GlobalTimeline()
@@ -79,20 +82,23 @@ struct GlobalTimeline
 
     ~GlobalTimeline()
     {
-        if (c_timeline != NULL)
+        HT_Timeline* timeline = c_timeline;
+
+        if (timeline != NULL)
         {
-            ht_timeline_destroy(c_timeline);
+            /* destructors of other thread-local (or static) objects might still want to trace */
+            c_timeline = NULL;
+            ht_timeline_destroy(timeline);
         }
     }
-
-    HT_Timeline* c_timeline;
 };
 
 HT_Timeline* ht_global_timeline_get(void)
 {
     static HT_THREAD_LOCAL GlobalTimeline timeline;
+    HT_UNUSED(timeline);
 
-    return timeline.c_timeline;
+    return c_timeline;
 }
 
 #elif defined(HT_HAVE_UNISTD_H)
@@ -104,8 +110,13 @@ HT_Timeline* ht_global_timeline_get(void)
 static pthread_key_t timeline_key;
 static pthread_once_t timeline_once_control = PTHREAD_ONCE_INIT;
 
+static HT_THREAD_LOCAL HT_Timeline* c_timeline = NULL;
+static HT_THREAD_LOCAL HT_Boolean is_exiting_process = HT_FALSE;
+
 static void _ht_destroy_timeline(void* timeline)
 {
+    /* destructors of other keys might still want to trace */
+    c_timeline = NULL;
     ht_timeline_destroy((HT_Timeline*)timeline);
 }
 
@@ -114,10 +125,12 @@ static void _ht_destroy_exiting_thread_timeline(void)
 {
     HT_Timeline* timeline = (HT_Timeline*)pthread_getspecific(timeline_key);
 
+    is_exiting_process = HT_TRUE;
+
     if (timeline)
     {
         pthread_setspecific(timeline_key, NULL);
-        ht_timeline_destroy(timeline);
+        _ht_destroy_timeline(timeline);
     }
 }
 
@@ -129,13 +142,17 @@ static void create_key(void)
 
 HT_Timeline* ht_global_timeline_get(void)
 {
-    static HT_THREAD_LOCAL HT_Timeline* c_timeline = NULL;
-
     if (!c_timeline)
     {
         c_timeline = _ht_global_timeline_create();
         pthread_once(&timeline_once_control, create_key);
         pthread_setspecific(timeline_key, c_timeline);
+
+        if (is_exiting_process)
+        {
+            /* the timeline is used by another exit handler */
+            atexit(_ht_destroy_exiting_thread_timeline);
+        }
     }
 
     return c_timeline;
diff --git a/lib/include/hawktracer/global_timeline.h b/lib/include/hawktracer/global_timeline.h
index bb4786e..c706780 100644
--- a/lib/include/hawktracer/global_timeline.h
+++ b/lib/include/hawktracer/global_timeline.h
@@ -10,7 +10,9 @@ HT_DECLS_BEGIN
 /**
  * Gets a Global Timeline for the current thread.
  *
- * @return a pointer to the Global Timeline of the current thread.
+ * @return a pointer to the Global Timeline of the current thread, or NULL if the timeline can't be
+ * created or has already been destroyed (i.e. in code executed at the very end of the thread or
+ * the process, like a destructor of a static object). Tracepoints do nothing when the timeline is NULL.
  */
 HT_API HT_Timeline* ht_global_timeline_get(void);
 
diff --git a/lib/timeline.c b/lib/timeline.c
index 54b0458..b72a8c1 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -42,6 +42,12 @@ _ht_timeline_flush(HT_Timeline* timeline)
 void
 ht_timeline_init_event(HT_Timeline* timeline, HT_Event* event)
 {
+    if (timeline == NULL)
+    {
+        /* e.g. the global timeline of an exiting thread has already been destroyed */
+        return;
+    }
+
     event->timestamp = ht_monotonic_clock_get_timestamp();
     event->id = ht_event_id_provider_next(timeline->id_provider);
 }
@@ -51,9 +57,13 @@ ht_timeline_push_event(HT_Timeline* timeline, HT_Event* event)
 {
     HT_EventKlass* klass = HT_EVENT_GET_KLASS(event);
 
-    assert(timeline);
     assert(event);
 
+    if (timeline == NULL)
+    {
+        return;
+    }
+
     _TIMELINE_LOCK(timeline, lock);
 
     if (timeline->serialize_events)
@@ -113,6 +123,11 @@ ht_timeline_push_event(HT_Timeline* timeline, HT_Event* event)
 void
 ht_timeline_flush(HT_Timeline* timeline)
 {
+    if (timeline == NULL)
+    {
+        return;
+    }
+
     _TIMELINE_LOCK(timeline, lock);
 
     _ht_timeline_flush(timeline);
@@ -281,5 +296,5 @@ ht_timeline_destroy(HT_Timeline* timeline)
 HT_EventIdProvider*
 ht_timeline_get_id_provider(HT_Timeline* timeline)
 {
-    return timeline->id_provider;
+    return timeline != NULL ? timeline->id_provider : ht_event_id_provider_get_default();
 }
-- 
2.43.0


From d239ef15047e02f3f2da77d21cd8169377209ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:15 +0000
Subject: [PATCH 47/58] fix: exit handlers must not create a global timeline
 after the library was shut down

---
 lib/global_timeline.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/global_timeline.cpp b/lib/global_timeline.cpp
index 4cf83c5..449f0a3 100644
--- a/lib/global_timeline.cpp
+++ b/lib/global_timeline.cpp
@@ -1,5 +1,6 @@
 #include "internal/global_timeline.h"
 #include "hawktracer/global_timeline.h"
+#include "hawktracer/init.h"
 
 #include <stdlib.h>
 
@@ -55,7 +56,7 @@ static void _ht_destroy_timeline(void)
 
 HT_Timeline* ht_global_timeline_get(void)
 {
-    if (!global_timeline)
+    if (!global_timeline && ht_is_initialized())
     {
         global_timeline = _ht_global_timeline_create();
 
@@ -142,7 +143,7 @@ static void create_key(void)
 
 HT_Timeline* ht_global_timeline_get(void)
 {
-    if (!c_timeline)
+    if (!c_timeline && !(is_exiting_process && !ht_is_initialized()))
     {
         c_timeline = _ht_global_timeline_create();
         pthread_once(&timeline_once_control, create_key);
-- 
2.43.0


From c486da7b7df01f573c5043854b40fd2b25e79a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:13 +0000
Subject: [PATCH 48/58] fix: timelines that share listeners used one identifier
 for different dynamic labels

---
 lib/feature_cached_string.c                   | 31 ++++++++++---------
 .../hawktracer/feature_cached_string.h        |  4 +--
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/lib/feature_cached_string.c b/lib/feature_cached_string.c
index c0afe05..a60397a 100644
--- a/lib/feature_cached_string.c
+++ b/lib/feature_cached_string.c
@@ -109,7 +109,10 @@ ht_feature_cached_string_destroy(HT_Feature* f)
     ht_free(feature);
 }
 
-/* The feature must be locked, so no other thread uses the mapping before it is pushed to the timeline */
+/* The feature must be locked, so no other thread uses the mapping before it is pushed to the timeline.
+ *
+ * The address of the label is its identifier. Unlike a hash, it's different for every label,
+ * no matter which of the timelines that share listeners the label has been added to. */
 static uintptr_t
 ht_feature_cached_string_add_mapping_(HT_Timeline* timeline, HT_HashMap* map, uintptr_t hash, const char* label)
 {
@@ -124,9 +127,9 @@ ht_feature_cached_string_add_mapping_(HT_Timeline* timeline, HT_HashMap* map, ui
 
     if (ret == NULL)
     {
-        HT_TIMELINE_PUSH_EVENT(timeline, HT_StringMappingEvent, hash, label);
+        HT_TIMELINE_PUSH_EVENT(timeline, HT_StringMappingEvent, (uintptr_t)label, label);
     }
-    return hash;
+    return (uintptr_t)label;
 }
 
 uintptr_t
@@ -154,7 +157,8 @@ ht_feature_cached_string_add_mapping(HT_Timeline* timeline, const char* label)
 static HT_Boolean
 ht_feature_cached_string_push_event(uint64_t key, const char* value, void* ud)
 {
-    HT_TIMELINE_PUSH_EVENT((HT_Timeline*)ud, HT_StringMappingEvent, (uintptr_t)key, value);
+    HT_UNUSED(key);
+    HT_TIMELINE_PUSH_EVENT((HT_Timeline*)ud, HT_StringMappingEvent, (uintptr_t)value, value);
     return HT_TRUE;
 }
 
@@ -178,6 +182,7 @@ ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char*
 {
     HT_FeatureCachedString* f;
     uintptr_t hash_value;
+    uintptr_t identifier;
     const char* cached_label;
 
     if (timeline == NULL)
@@ -194,27 +199,25 @@ ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char*
     HT_FCS_LOCK_(f);
 
     cached_label = ht_hash_map_get_value(&f->dynamic_hashes, hash_value);
-    while (hash_value == 0 || (cached_label != NULL && strcmp(cached_label, label) != 0))
+    while (cached_label != NULL && strcmp(cached_label, label) != 0)
     {
-        /* the identifier is already taken by a different label */
+        /* the key is already taken by a different label */
         cached_label = ht_hash_map_get_value(&f->dynamic_hashes, ++hash_value);
     }
 
+    identifier = (uintptr_t)cached_label;
+
     if (cached_label == NULL)
     {
         size_t label_len = strlen(label);
         char* new_label = (char*)ht_alloc(label_len + 1);
-        if (new_label == NULL)
-        {
-            hash_value = 0;
-        }
-        else
+        if (new_label != NULL)
         {
             memcpy(new_label, label, label_len);
             new_label[label_len] = 0;
 
-            hash_value = ht_feature_cached_string_add_mapping_(timeline, &f->dynamic_hashes, hash_value, new_label);
-            if (hash_value == 0)
+            identifier = ht_feature_cached_string_add_mapping_(timeline, &f->dynamic_hashes, hash_value, new_label);
+            if (identifier == 0)
             {
                 ht_free(new_label);
             }
@@ -223,7 +226,7 @@ ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char*
 
     HT_FCS_UNLOCK_(f);
 
-    return hash_value;
+    return identifier;
 }
 
 HT_ErrorCode
diff --git a/lib/include/hawktracer/feature_cached_string.h b/lib/include/hawktracer/feature_cached_string.h
index 8966c9b..f32af24 100644
--- a/lib/include/hawktracer/feature_cached_string.h
+++ b/lib/include/hawktracer/feature_cached_string.h
@@ -33,7 +33,7 @@ HT_API HT_ErrorCode ht_feature_cached_string_enable(HT_Timeline* timeline, HT_Bo
  * @param timeline the timeline.
  * @param label a string to map. The string must be a static string (i.e. must be valid for the whole period of the program).
  * For dynamic strings, use ht_feature_cached_string_add_mapping_dynamic()
- * @return hash of the string passed as argument.
+ * @return an identifier of the label.
  */
 HT_API uintptr_t ht_feature_cached_string_add_mapping(HT_Timeline* timeline, const char* label);
 
@@ -49,7 +49,7 @@ HT_API uintptr_t ht_feature_cached_string_add_mapping(HT_Timeline* timeline, con
  * @param timeline the timeline.
  * @param label a string to map. The string might be dynamically allocated, however, for static (compile-time) strings
  * it's recommended to use ht_feature_cached_string_add_mapping() which is an optimized version of this function.
- * @return hash of the string passed as argument.
+ * @return an identifier of the label.
  */
 HT_API uintptr_t ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char* label);
 
-- 
2.43.0


From 4d2e1ef78fa1b74d1778aadcf64f080b86be1540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:27 +0000
Subject: [PATCH 49/58] fix: release the old values of a parser event that is
 assigned to

---
 parser/event.cpp                           | 8 ++++++++
 parser/include/hawktracer/parser/event.hpp | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/event.cpp b/parser/event.cpp
index 0bcc1a3..909f455 100644
--- a/parser/event.cpp
+++ b/parser/event.cpp
@@ -93,6 +93,14 @@ Event::~Event()
     }
 }
 
+Event& Event::operator=(Event other)
+{
+    std::swap(_values, other._values);
+    std::swap(_klass, other._klass);
+    std::swap(_timestamp, other._timestamp);
+    return *this;
+}
+
 void Event::merge(Event event)
 {
     for (auto& value : event._values)
diff --git a/parser/include/hawktracer/parser/event.hpp b/parser/include/hawktracer/parser/event.hpp
index c96269c..7db26e8 100644
--- a/parser/include/hawktracer/parser/event.hpp
+++ b/parser/include/hawktracer/parser/event.hpp
@@ -37,8 +37,8 @@ public:
     {
     }
     Event(const Event& other) = default;
-    Event& operator=(const Event& other) = default;
     Event(Event&&) = default;
+    Event& operator=(Event other);
 
     ~Event();
 
-- 
2.43.0


From 87e25d95b25bd73068b45dd9fa2baed356e6707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:27 +0000
Subject: [PATCH 50/58] fix: print one-byte integers as numbers in the debug
 event listener

---
 parser/debug_event_listener.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/debug_event_listener.cpp b/parser/debug_event_listener.cpp
index 13c9cd9..8c6910b 100644
--- a/parser/debug_event_listener.cpp
+++ b/parser/debug_event_listener.cpp
@@ -14,8 +14,9 @@ static void print_field_value(const Event::Value& value)
 
     switch (value.field->get_type_id())
     {
-    PRINT_FIELD_VALUE(UINT8);
-    PRINT_FIELD_VALUE(INT8);
+    // promoted, otherwise one-byte integers would be printed as characters
+    case FieldTypeId::UINT8: std::cout << +value.value.f_UINT8 << std::endl; break;
+    case FieldTypeId::INT8: std::cout << +value.value.f_INT8 << std::endl; break;
     PRINT_FIELD_VALUE(UINT16);
     PRINT_FIELD_VALUE(INT16);
     PRINT_FIELD_VALUE(UINT32);
-- 
2.43.0


From dfc9c94043707767337f3580db08f31292125953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 51/58] fix: stop writing to a trace file after a write error
 and report it when flushing

---
 lib/listeners/file_dump_listener.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/listeners/file_dump_listener.c b/lib/listeners/file_dump_listener.c
index 9a34dde..7c46185 100644
--- a/lib/listeners/file_dump_listener.c
+++ b/lib/listeners/file_dump_listener.c
@@ -24,7 +24,11 @@ _ht_file_dump_listener_flush(void* listener, HT_Byte* data, size_t size)
 {
     HT_FileDumpListener* fd_listener = (HT_FileDumpListener*) listener;
 
-    fwrite(data, sizeof(HT_Byte), size, fd_listener->p_file);
+    /* once something couldn't be written, writing more would corrupt the stream */
+    if (!ferror(fd_listener->p_file))
+    {
+        fwrite(data, sizeof(HT_Byte), size, fd_listener->p_file);
+    }
 }
 
 HT_FileDumpListener*
@@ -111,7 +115,7 @@ ht_file_dump_listener_flush(HT_FileDumpListener* listener, HT_Boolean flush_stre
 
     if (flush_stream == HT_TRUE)
     {
-        if (fflush(listener->p_file) != 0)
+        if (fflush(listener->p_file) != 0 || ferror(listener->p_file))
         {
             ret = HT_ERR_UNKNOWN;
         }
-- 
2.43.0


From 8cb06eab54ee858439c03dabe967306b4d11a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 52/58] fix: give up a TCP client whose stream header could not
 be sent

---
 lib/tcp_server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 3c43e02..a039457 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -344,6 +344,8 @@ ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, s
 
         if (n <= 0)
         {
+            /* a part of the stream is lost, so the connection can't be used any more */
+            shutdown(sock_fd, 2);
             return HT_FALSE;
         }
 
-- 
2.43.0


From 69a9d7e1d76793f03398651a060806dc68920f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 53/58] fix: report a TCP listener whose thread can't be
 started instead of terminating the program

---
 lib/tcp_server.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index a039457..9966348 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -63,12 +63,28 @@ ht_thread_create(ht_thread_callback_t callback, void* user_data)
     }
 
 #ifdef HT_THREAD_IMPL_CPP11
-    new(&th->th) HT_Thread();
-    th->th = std::thread(callback, user_data);
+    try
+    {
+        new(&th->th) std::thread(callback, user_data);
+    }
+    catch (...)
+    {
+        ht_free(th);
+        th = NULL;
+    }
 #elif defined(HT_THREAD_IMPL_POSIX)
-    pthread_create(&th->th, NULL, callback, user_data);
+    if (pthread_create(&th->th, NULL, callback, user_data) != 0)
+    {
+        ht_free(th);
+        th = NULL;
+    }
 #elif defined(HT_THREAD_IMPL_WIN32)
     th->th = CreateThread(NULL, 0, callback, user_data, 0, NULL);
+    if (th->th == NULL)
+    {
+        ht_free(th);
+        th = NULL;
+    }
 #endif
 
     return th;
-- 
2.43.0


From 850b63cf0c9339da13bfd944b382a8397a034465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 54/58] fix: starting a reader or TCP source whose thread can't
 be started fails cleanly

---
 client_utils/tcp_client_stream.cpp | 13 ++++++++++++-
 parser/protocol_reader.cpp         | 13 +++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index 4ee49dc..ffe4ece 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -11,6 +11,7 @@
 #endif
 #include <cerrno>
 #include <cstring>
+#include <system_error>
 
 namespace HawkTracer
 {
@@ -97,7 +98,17 @@ bool TCPClientStream::start()
     }
 
     _is_connected = true;
-    _thread = std::thread([this, sock_fd] { _run(sock_fd); });
+    try
+    {
+        _thread = std::thread([this, sock_fd] { _run(sock_fd); });
+    }
+    catch (const std::system_error&)
+    {
+        _is_connected = false;
+        _sock_fd = -1;
+        close_socket(sock_fd);
+        return false;
+    }
 
     return true;
 }
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 2c251a6..96944dd 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -8,6 +8,7 @@
 #include <cstdlib>
 #include <exception>
 #include <iostream>
+#include <system_error>
 
 namespace HawkTracer
 {
@@ -52,8 +53,16 @@ bool ProtocolReader::start()
     {
         std::lock_guard<std::mutex> l(_mtx_cv);
         _is_running = true;
-        _thread = std::thread([this] { _read_events(); });
-        return true;
+        try
+        {
+            _thread = std::thread([this] { _read_events(); });
+            return true;
+        }
+        catch (const std::system_error&)
+        {
+            _is_running = false;
+            _stream->stop();
+        }
     }
 
     return false;
-- 
2.43.0


From 83783d057f4600b237011fc5129637bf3cf98cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 55/58] fix: do not abort on field types the parser does not
 support

---
 parser/event_klass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/event_klass.cpp b/parser/event_klass.cpp
index 0b37d2d..ba35633 100644
--- a/parser/event_klass.cpp
+++ b/parser/event_klass.cpp
@@ -81,7 +81,7 @@ FieldTypeId get_type_id(uint64_t type_size, HT_MKCREFLECT_Types_Ext data_type)
         break;
     case HT_MKCREFLECT_TYPES_EXT_STRUCT:
         return FieldTypeId::STRUCT;
-    default: assert(0); // TODO other types
+    default: // TODO other types
         throw std::runtime_error("invalid type id");
     }
 }
-- 
2.43.0


From cf225fe6a7fac96552383e1e0f2183d358bf1148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 56/58] fix: keep class descriptions while a TCP listener that
 outlives the library is serving clients

---
 lib/include/internal/registry.h |  5 ++
 lib/listeners/tcp_listener.c    | 10 ++++
 lib/registry.c                  | 82 +++++++++++++++++++++++++++++----
 3 files changed, 87 insertions(+), 10 deletions(-)

diff --git a/lib/include/internal/registry.h b/lib/include/internal/registry.h
index 355caa1..73e67ae 100644
--- a/lib/include/internal/registry.h
+++ b/lib/include/internal/registry.h
@@ -11,6 +11,11 @@ HT_ErrorCode ht_registry_init(void);
 
 void ht_registry_deinit(void);
 
+/* Keeps the class registry alive, even if the library is deinitialized, until it's released. Returns HT_FALSE if there is no registry. */
+HT_Boolean ht_registry_acquire_event_klasses(void);
+
+void ht_registry_release_event_klasses(void);
+
 HT_API HT_TimelineListenerContainer* ht_registry_find_listener_container(const char* name);
 
 HT_API HT_ErrorCode ht_registry_register_listener_container(const char* name, HT_TimelineListenerContainer* container);
diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index b291c0b..9cd6681 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -9,6 +9,7 @@
 #include "internal/listener_buffer.h"
 #include "internal/listeners/tcp_server.h"
 #include "internal/mutex.h"
+#include "internal/registry.h"
 
 #include <assert.h>
 
@@ -21,6 +22,8 @@ struct _HT_TCPListener
     /* TODO: This is just a hack to prevent from sending half-events.
      * We should revisit this for next release */
     HT_Boolean _was_flushed;
+    /* Clients might connect till the listener is stopped, and they need descriptions of the classes */
+    HT_Boolean _are_klasses_acquired;
     HT_TCPListenerOnClientConnectedCallback _client_connected_callback;
     void* _client_connected_user_data;
 
@@ -105,6 +108,8 @@ ht_tcp_listener_init(HT_TCPListener* listener, int port, size_t buffer_size)
         return HT_ERR_OUT_OF_MEMORY;
     }
 
+    listener->_are_klasses_acquired = ht_registry_acquire_event_klasses();
+
     if (ht_tcp_server_start(listener->_tcp_server, port, ht_tcp_listener_client_connected, listener))
     {
         return HT_ERR_OK;
@@ -259,6 +264,11 @@ ht_tcp_listener_stop(HT_TCPListener* listener)
 
     ht_tcp_server_stop(server);
     ht_tcp_server_destroy(server);
+
+    if (listener->_are_klasses_acquired)
+    {
+        ht_registry_release_event_klasses();
+    }
 }
 
 #endif /* HT_ENABLE_TCP_LISTENER */
diff --git a/lib/registry.c b/lib/registry.c
index ef3b5e4..bd9884c 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -7,6 +7,7 @@
 #include "internal/mutex.h"
 #include "internal/timeline_listener_container.h"
 #include "internal/event_utils.h"
+#include "hawktracer/init.h"
 
 #include <assert.h>
 #include <string.h>
@@ -21,6 +22,9 @@ static HT_Mutex* event_klass_registry_register_mutex;
 
 static size_t feature_count = 0;
 
+/* Listeners with their own threads might outlive the library, and still need descriptions of the classes */
+static size_t event_klass_registry_users = 0;
+
 #define HT_CREATE_MUTEX_(mutex_var, error_code_var, label_if_fails) \
     do { \
         mutex_var = ht_mutex_create(); \
@@ -62,10 +66,19 @@ register_feature_finalize:
     return err;
 }
 
-HT_ErrorCode
-ht_registry_init(void)
+static HT_ErrorCode
+_ht_registry_init_event_klasses(void)
 {
-    HT_ErrorCode error_code;
+    HT_ErrorCode error_code = HT_ERR_OK;
+
+    if (event_klass_registry_users > 0)
+    {
+        /* left by a listener which outlived previous initialization of the library */
+        ht_mutex_lock(event_klass_registry_register_mutex);
+        event_klass_registry_users++;
+        ht_mutex_unlock(event_klass_registry_register_mutex);
+        return HT_ERR_OK;
+    }
 
     error_code = ht_bag_void_ptr_init(&event_klass_register, 8);
     if (error_code != HT_ERR_OK)
@@ -73,26 +86,76 @@ ht_registry_init(void)
         goto done;
     }
 
+    HT_CREATE_MUTEX_(event_klass_registry_register_mutex, error_code, error_mutex);
+    event_klass_registry_users = 1;
+
+    goto done;
+
+error_mutex:
+    ht_bag_void_ptr_deinit(&event_klass_register);
+done:
+    return error_code;
+}
+
+HT_Boolean
+ht_registry_acquire_event_klasses(void)
+{
+    if (!ht_is_initialized())
+    {
+        return HT_FALSE;
+    }
+
+    ht_mutex_lock(event_klass_registry_register_mutex);
+    event_klass_registry_users++;
+    ht_mutex_unlock(event_klass_registry_register_mutex);
+
+    return HT_TRUE;
+}
+
+void
+ht_registry_release_event_klasses(void)
+{
+    HT_Boolean is_last;
+
+    ht_mutex_lock(event_klass_registry_register_mutex);
+    is_last = --event_klass_registry_users == 0;
+    ht_mutex_unlock(event_klass_registry_register_mutex);
+
+    if (is_last)
+    {
+        ht_mutex_destroy(event_klass_registry_register_mutex);
+        ht_bag_void_ptr_deinit(&event_klass_register);
+    }
+}
+
+HT_ErrorCode
+ht_registry_init(void)
+{
+    HT_ErrorCode error_code;
+
     error_code = ht_bag_void_ptr_init(&listeners_register, 8);
     if (error_code != HT_ERR_OK)
     {
-        goto error_listeners_register;
+        goto done;
     }
 
     HT_CREATE_MUTEX_(listeners_register_mutex, error_code, error_listeners_mutex);
     HT_CREATE_MUTEX_(features_register_mutex, error_code, error_features_mutex);
-    HT_CREATE_MUTEX_(event_klass_registry_register_mutex, error_code, error_event_klass_registry_mutex);
+
+    error_code = _ht_registry_init_event_klasses();
+    if (error_code != HT_ERR_OK)
+    {
+        goto error_event_klasses;
+    }
 
     goto done;
 
-error_event_klass_registry_mutex:
+error_event_klasses:
     ht_mutex_destroy(features_register_mutex);
 error_features_mutex:
     ht_mutex_destroy(listeners_register_mutex);
 error_listeners_mutex:
     ht_bag_void_ptr_deinit(&listeners_register);
-error_listeners_register:
-    ht_bag_void_ptr_deinit(&event_klass_register);
 done:
     return error_code;
 }
@@ -143,10 +206,9 @@ ht_registry_deinit(void)
     }
 
     ht_mutex_destroy(features_register_mutex);
-    ht_mutex_destroy(event_klass_registry_register_mutex);
     ht_mutex_destroy(listeners_register_mutex);
     ht_bag_void_ptr_deinit(&listeners_register);
-    ht_bag_void_ptr_deinit(&event_klass_register);
+    ht_registry_release_event_klasses();
 }
 
 static HT_TimelineListenerContainer*
-- 
2.43.0


From 1c0365b157faf71c700389a74344fa3ea3b08d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 57/58] fix: event classes can be registered from several
 threads at once

The macros wrote the type of a class without synchronisation, each time it was
registered, also when other threads were registering, describing or using it.
---
 lib/include/hawktracer/event_macros.h |  4 ++--
 lib/include/hawktracer/registry.h     | 13 +++++++++++++
 lib/registry.c                        | 11 +++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/lib/include/hawktracer/event_macros.h b/lib/include/hawktracer/event_macros.h
index 24eeb0e..753fe23 100644
--- a/lib/include/hawktracer/event_macros.h
+++ b/lib/include/hawktracer/event_macros.h
@@ -74,8 +74,8 @@
 #define HT_EVENT_REGISTER_KLASS_FUNCTION_DEF(TYPE_NAME) \
     HT_EventKlassId HT_EVENT_REGISTER_KLASS_FUNCTION(TYPE_NAME)(void) \
     { \
-        HT_EVENT_GET_KLASS_INSTANCE_FUNCTION(TYPE_NAME)()->type_info = mkcreflect_get_##TYPE_NAME##_type_info(); \
-        return ht_registry_register_event_klass(HT_EVENT_GET_KLASS_INSTANCE_FUNCTION(TYPE_NAME)()); \
+        return ht_registry_register_event_klass_type(HT_EVENT_GET_KLASS_INSTANCE_FUNCTION(TYPE_NAME)(), \
+                                                     mkcreflect_get_##TYPE_NAME##_type_info()); \
     }
 #define HT_EVENT_REGISTER_KLASS_FUNCTION_DECL(TYPE_NAME) \
     HT_API HT_EventKlassId HT_EVENT_REGISTER_KLASS_FUNCTION(TYPE_NAME)(void);
diff --git a/lib/include/hawktracer/registry.h b/lib/include/hawktracer/registry.h
index 71cae1d..810babf 100644
--- a/lib/include/hawktracer/registry.h
+++ b/lib/include/hawktracer/registry.h
@@ -27,6 +27,19 @@ HT_API HT_ErrorCode ht_registry_register_feature(HT_FeatureKlass* klass);
  */
 HT_API HT_EventKlassId ht_registry_register_event_klass(HT_EventKlass* event_klass);
 
+/**
+ * Sets type of the event klass, and registers the klass in the system.
+ *
+ * The type is set together with the registration, so the klass can be registered by many threads
+ * at the same time, also when it's already being used.
+ *
+ * @param event_klass a pointer to a klass definition.
+ * @param type_info a pointer to a description of the type of the event.
+ *
+ * @return an identifier to a klass, or #HT_INVALID_KLASS_ID if registration failed.
+ */
+HT_API HT_EventKlassId ht_registry_register_event_klass_type(HT_EventKlass* event_klass, MKCREFLECT_TypeInfo* type_info);
+
 /**
  * Pushes information about registered event klasses (HT_EventKlassInfoEvent and HT_EventKlassFieldInfoEvent events) directly to a listener.
  *
diff --git a/lib/registry.c b/lib/registry.c
index bd9884c..b007a30 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -162,11 +162,22 @@ done:
 
 HT_EventKlassId
 ht_registry_register_event_klass(HT_EventKlass* event_klass)
+{
+    return ht_registry_register_event_klass_type(event_klass, NULL);
+}
+
+HT_EventKlassId
+ht_registry_register_event_klass_type(HT_EventKlass* event_klass, MKCREFLECT_TypeInfo* type_info)
 {
     HT_EventKlassId klass_id;
 
     ht_mutex_lock(event_klass_registry_register_mutex);
 
+    if (type_info != NULL && event_klass->type_info != type_info)
+    {
+        event_klass->type_info = type_info;
+    }
+
     /* klass keeps its identifier after the registry is deinitialized, so having the identifier doesn't mean it's registered */
     if (event_klass->klass_id >= event_klass_register.size || event_klass_register.data[event_klass->klass_id] != event_klass)
     {
-- 
2.43.0


From d70ac4494d596b52ed8332b0660a12585043346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:56 +0000
Subject: [PATCH 58/58] fix: duration conversions neither wrap around nor split
 expressions

---
 lib/include/hawktracer/duration_conversion.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/include/hawktracer/duration_conversion.h b/lib/include/hawktracer/duration_conversion.h
index 7a09e54..7a6a002 100644
--- a/lib/include/hawktracer/duration_conversion.h
+++ b/lib/include/hawktracer/duration_conversion.h
@@ -1,13 +1,15 @@
 #ifndef HAWKTRACER_DURATION_CONVERSION_H
 #define HAWKTRACER_DURATION_CONVERSION_H
 
+#include <hawktracer/base_types.h>
+
 /** Converts @p X value to nanoseconds. */
-#define HT_DUR_NS(X) X
+#define HT_DUR_NS(X) (X)
 /** Converts @p X value to microseconds. */
-#define HT_DUR_US(X) (1000u * X)
+#define HT_DUR_US(X) ((HT_DurationNs)1000u * (X))
 /** Converts @p X value to milliseconds. */
-#define HT_DUR_MS(X) (1000u * HT_DUR_US(X))
+#define HT_DUR_MS(X) ((HT_DurationNs)1000u * HT_DUR_US(X))
 /** Converts @p X value to seconds. */
-#define HT_DUR_S(X) (1000u * HT_DUR_MS(X))
+#define HT_DUR_S(X) ((HT_DurationNs)1000u * HT_DUR_MS(X))
 
 #endif /* HAWKTRACER_DURATION_CONVERSION_H */
-- 
2.43.0

