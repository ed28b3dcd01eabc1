From b43537500628ac2af092ac44a60f3843c8d92858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 01/21] fix: C++ generation of in/not_in rules on wrapper types

inType looked up the element type of a field that is no list, and the plugin
stopped with a nil dereference on a consistent rule.
---
 templates/cc/register.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 615932c..08be242 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -288,11 +288,15 @@ func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
 		return "string"
 	case pgs.MessageT:
 		switch x.(type) {
-		case []string:
+		case []string, [][]byte:
 			return "string"
 		case []*durationpb.Duration:
 			return "pgv::protobuf_wkt::Duration"
 		default:
+			if emb := f.Type().Embed(); emb != nil && emb.IsWellKnown() {
+				// wrapper type: the rule lists values of the wrapped scalar
+				return fns.cTypeOfString(strings.TrimPrefix(fmt.Sprintf("%T", x), "[]"))
+			}
 			return fns.className(f.Type().Element().Embed())
 		}
 	default:
-- 
2.43.0


From 0a2699c0b2e69af2dbc2570c6dcc1e2650fa357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 02/21] fix: Go generation of uuid rules in files with a dot in
 their name

The name of the pattern variable is made from the file's base name, in which a
dot is not allowed in Go.
---
 templates/goshared/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index e532d08..75f23eb 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -326,5 +326,5 @@ func (fns goSharedFuncs) enumPackages(enums []pgs.Enum) map[pgs.FilePath]pgs.Nam
 }
 
 func (fns goSharedFuncs) snakeCase(name string) string {
-	return strcase.ToSnake(name)
+	return strings.ReplaceAll(strcase.ToSnake(name), ".", "_")
 }
-- 
2.43.0


From 60c996a5d4fd7f8e715f37b8747575e2ad4e876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 03/21] fix: C++ validator lookup must not modify the registry

CheckMessage used unordered_map::operator[], which inserts an entry for a
type without a validator. Two threads validating such a message for the
first time raced on the map, and a failed insertion turned an accepted
message into an exception.
---
 validate/validate.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/validate/validate.h b/validate/validate.h
index b859497..22cd386 100644
--- a/validate/validate.h
+++ b/validate/validate.h
@@ -58,9 +58,11 @@ public:
 
   static bool CheckMessage(const T& m, ValidationMsg* err)
   {
-    auto val = static_cast<Validator<T>*>(validators()[std::type_index(typeid(T))]);
-    if (val) {
-      return val->check_(m, err);
+    // Looking a type up must not add it: other threads do the same.
+    auto& known = validators();
+    auto val = known.find(std::type_index(typeid(T)));
+    if (val != known.end()) {
+      return static_cast<Validator<T>*>(val->second)->check_(m, err);
     }
     return true;
   }
-- 
2.43.0


From 60bd350eb2bac2b9f5824397d09168e54998e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 04/21] fix: C++ validators may be loaded while others are in
 use

A shared library with generated validators registers them when it is loaded.
The registry was a plain unordered_map, so a thread that validated an
embedded message at that moment read it while it was being modified.
---
 validate/validate.h | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/validate/validate.h b/validate/validate.h
index 22cd386..c44fe53 100644
--- a/validate/validate.h
+++ b/validate/validate.h
@@ -1,13 +1,13 @@
 #ifndef _VALIDATE_H
 #define _VALIDATE_H
 
+#include <atomic>
 #include <functional>
 #include <regex>
 #include <stdexcept>
 #include <string>
 #include <typeinfo>
 #include <typeindex>
-#include <unordered_map>
 
 #if !defined(_WIN32)
 #include <arpa/inet.h>
@@ -42,9 +42,36 @@ using ValidationMsg = std::string;
 
 class BaseValidator {
 protected:
-  static std::unordered_map<std::type_index, BaseValidator*>& validators() {
-    static auto* validator_map = new std::unordered_map<std::type_index, BaseValidator*>();
-    return *validator_map;
+  // The registered validators. A shared library loaded at run time registers
+  // while other threads may be validating, so this hash table is only ever
+  // added to, and each entry is published atomically.
+  static void Register(std::type_index type, BaseValidator* validator) {
+    auto& head = bucket(type);
+    auto* entry = new Entry{type, validator, head.load(std::memory_order_relaxed)};
+    while (!head.compare_exchange_weak(entry->next, entry, std::memory_order_release, std::memory_order_relaxed)) {
+    }
+  }
+
+  static BaseValidator* Find(std::type_index type) {
+    for (auto* entry = bucket(type).load(std::memory_order_acquire); entry != nullptr; entry = entry->next) {
+      if (entry->type == type) {
+        return entry->validator;
+      }
+    }
+    return nullptr;
+  }
+
+private:
+  struct Entry {
+    std::type_index type;
+    BaseValidator* validator;
+    Entry* next;
+  };
+
+  static std::atomic<Entry*>& bucket(std::type_index type) {
+    static const size_t kBuckets = 4093;
+    static std::atomic<Entry*> buckets[kBuckets] = {};
+    return buckets[type.hash_code() % kBuckets];
   }
 };
 
@@ -53,16 +80,14 @@ class Validator : public BaseValidator {
 public:
   Validator(std::function<bool(const T&, ValidationMsg*)> check) : check_(check)
   {
-    validators()[std::type_index(typeid(T))] = this;
+    Register(std::type_index(typeid(T)), this);
   }
 
   static bool CheckMessage(const T& m, ValidationMsg* err)
   {
-    // Looking a type up must not add it: other threads do the same.
-    auto& known = validators();
-    auto val = known.find(std::type_index(typeid(T)));
-    if (val != known.end()) {
-      return static_cast<Validator<T>*>(val->second)->check_(m, err);
+    auto val = static_cast<Validator<T>*>(Find(std::type_index(typeid(T))));
+    if (val) {
+      return val->check_(m, err);
     }
     return true;
   }
-- 
2.43.0


From a4ab7862507f8af13917c61ffb2259f798ee47fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 05/21] fix: register C++ validators after the tables they use

The generated file registered its validators before its lookup sets and
patterns were initialized. Another file's static initializer, or another
thread while a shared library is loaded, could reach a validator through the
registry and have it read uninitialized sets or regular expressions.
---
 templates/cc/file.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/templates/cc/file.go b/templates/cc/file.go
index a85cf82..776c61b 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -21,16 +21,6 @@ using std::string;
 // define the regex for a UUID once up-front
 const re2::RE2 _uuidPattern("^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$");
 
-{{ range .AllMessages }}
-{{- if not (ignored .) -}}
-{{- if not (disabled .) -}}
-
-pgv::Validator<{{ class . }}> {{ staticVarName . }}(static_cast<bool(*)(const {{ class .}}&, pgv::ValidationMsg*)>({{ package .}}::Validate));
-
-{{- end -}}
-{{ end }}
-{{ end }}
-
 } // namespace validate
 } // namespace pgv
 
@@ -45,6 +35,24 @@ namespace {{ . }} {
 {{ range .Package.ProtoName.Split -}}
 } // namespace
 {{ end }}
+
+namespace pgv {
+namespace validate {
+
+// Registered after everything the functions above use is initialized: from
+// here on other files and threads can reach them.
+{{ range .AllMessages }}
+{{- if not (ignored .) -}}
+{{- if not (disabled .) -}}
+
+pgv::Validator<{{ class . }}> {{ staticVarName . }}(static_cast<bool(*)(const {{ class .}}&, pgv::ValidationMsg*)>({{ package .}}::Validate));
+
+{{- end -}}
+{{ end }}
+{{ end }}
+
+} // namespace validate
+} // namespace pgv
 `
 
 const headerFileTpl = `// Code generated by protoc-gen-validate
-- 
2.43.0


From 6f98427607da7b9142231c6a514626c53cf2b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 06/21] fix: ExplicitValidatorIndex applies its fallback's
 validator

---
 .../src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
index 828d13e..f1051d3 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
@@ -33,7 +33,7 @@ public final class ExplicitValidatorIndex implements ValidatorIndex {
     @SuppressWarnings("unchecked")
     public <T> Validator<T> validatorFor(Class clazz) {
         return VALIDATOR_INDEX.computeIfAbsent(clazz, c ->
-                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c))
+                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c).assertValid(p))
                         .assertValid(proto, ExplicitValidatorIndex.this));
     }
 }
-- 
2.43.0


From d99f0f7d0c3849f1aa697418c96f69213f287504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 07/21] fix: ReflectiveValidatorIndex falls back for messages
 its validator class does not know

---
 .../java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
index f9f7778..ad91991 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
@@ -49,6 +49,11 @@ public final class ReflectiveValidatorIndex implements ValidatorIndex {
         Class validatorClass = clazz.getClassLoader().loadClass(validatorClassName);
         ValidatorImpl impl = (ValidatorImpl) validatorClass.getDeclaredMethod("validatorFor", Class.class).invoke(null, clazz);
 
+        if (impl == null) {
+            // The file's validator class has no validator for this message, for example because it is ignored.
+            return fallbackIndex.validatorFor(clazz);
+        }
+
         return proto -> impl.assertValid(proto, ReflectiveValidatorIndex.this);
     }
 }
-- 
2.43.0


From 5c1d02ac958a5a7eadcb7a442591853042ae458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 08/21] fix: ReflectiveValidatorIndex falls back for classes of
 the bootstrap loader

---
 .../main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
index ad91991..94f212a 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
@@ -46,7 +46,7 @@ public final class ReflectiveValidatorIndex implements ValidatorIndex {
         }
 
         String validatorClassName = enclosingClass.getName() + "Validator";
-        Class validatorClass = clazz.getClassLoader().loadClass(validatorClassName);
+        Class validatorClass = Class.forName(validatorClassName, false, clazz.getClassLoader());
         ValidatorImpl impl = (ValidatorImpl) validatorClass.getDeclaredMethod("validatorFor", Class.class).invoke(null, clazz);
 
         if (impl == null) {
-- 
2.43.0


From abbaa180c616173210f652eccd1f6785633c581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 09/21] fix: ReflectiveValidatorIndex looks validators up
 outside of the map's lock

---
 .../pgv/ReflectiveValidatorIndex.java         | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
index 94f212a..224d974 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
@@ -29,13 +29,24 @@ public final class ReflectiveValidatorIndex implements ValidatorIndex {
     @Override
     @SuppressWarnings("unchecked")
     public <T> Validator<T> validatorFor(Class clazz) {
-        return VALIDATOR_INDEX.computeIfAbsent(clazz, c -> {
-            try {
-                return reflectiveValidatorFor(c);
-            } catch (ReflectiveOperationException ex) {
-                return fallbackIndex.validatorFor(clazz);
+        Validator<T> validator = VALIDATOR_INDEX.get(clazz);
+        if (validator == null) {
+            // Not in computeIfAbsent: class loading and the fallback index may use this index themselves.
+            validator = lookUp(clazz);
+            Validator<T> previous = VALIDATOR_INDEX.putIfAbsent(clazz, validator);
+            if (previous != null) {
+                validator = previous;
             }
-        });
+        }
+        return validator;
+    }
+
+    private Validator lookUp(Class clazz) {
+        try {
+            return reflectiveValidatorFor(clazz);
+        } catch (ReflectiveOperationException ex) {
+            return fallbackIndex.validatorFor(clazz);
+        }
     }
 
     @SuppressWarnings("unchecked")
-- 
2.43.0


From 8c30806b28a5964c7395c20e7b236e6477d64ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 10/21] fix: Java within rule works for timestamps further than
 292 years from now

---
 .../main/java/io/envoyproxy/pgv/TimestampValidation.java   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
index ff51948..2f80d69 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
@@ -13,11 +13,16 @@ public final class TimestampValidation {
 
     public static void within(String field, Timestamp value, Duration duration, Timestamp when) throws ValidationException {
         Duration between = Timestamps.between(when, value);
-        if (Long.compare(Math.abs(Durations.toNanos(between)), Math.abs(Durations.toNanos(duration))) == 1) {
+        if (Durations.compare(abs(between), abs(duration)) > 0) {
             throw new ValidationException(field, value, "value must be within " + Durations.toString(duration) + " of " + Timestamps.toString(when));
         }
     }
 
+    private static Duration abs(Duration duration) {
+        Duration zero = Duration.getDefaultInstance();
+        return Durations.compare(duration, zero) < 0 ? Durations.subtract(zero, duration) : duration;
+    }
+
     /**
      * Converts {@code seconds} and {@code nanos} to a protobuf {@code Timestamp}.
      */
-- 
2.43.0


From c2c65891d65603433bb0f2cd9a40331286d7cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 11/21] fix: ValidatingServerInterceptor drops messages that
 follow an invalid one

---
 .../io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java b/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
index 60b5147..5da08aa 100644
--- a/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
+++ b/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
@@ -25,6 +25,9 @@ public class ValidatingServerInterceptor implements ServerInterceptor {
 
             @Override
             public void onMessage(ReqT message) {
+                if (aborted) {
+                    return;
+                }
                 try {
                     index.validatorFor(message.getClass()).assertValid(message);
                     super.onMessage(message);
-- 
2.43.0


From c6e2e57f70e2de1901fa5e6d7267cb53f13838d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 12/21] fix: ReflectiveValidatorIndex does not take running out
 of memory for a missing validator

---
 .../main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
index 224d974..8e7a972 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
@@ -45,6 +45,10 @@ public final class ReflectiveValidatorIndex implements ValidatorIndex {
         try {
             return reflectiveValidatorFor(clazz);
         } catch (ReflectiveOperationException ex) {
+            if (ex.getCause() instanceof Error) {
+                // There is a validator, but no memory or stack left to make it with; it may work next time.
+                throw (Error) ex.getCause();
+            }
             return fallbackIndex.validatorFor(clazz);
         }
     }
-- 
2.43.0


From b26f5fe7a95a625285b173f98f3323daeec178a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 13/21] fix: Java required rule on wrapper types reports the
 field's name

The template printed the field's Go structure, with the addresses of the
objects it refers to, into the generated validator.
---
 templates/java/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/java/wrapper.go b/templates/java/wrapper.go
index 3e3984e..80e1adc 100644
--- a/templates/java/wrapper.go
+++ b/templates/java/wrapper.go
@@ -8,5 +8,5 @@ const wrapperTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 				{{- render (unwrap .) }}
 			}
 			{{ if .MessageRules.GetRequired }} else {
-				throw new io.envoyproxy.pgv.ValidationException("{{ $f }}", "null", "is required");
+				throw new io.envoyproxy.pgv.ValidationException("{{ $f.FullyQualifiedName }}", "null", "is required");
 			} {{ end }}`
-- 
2.43.0


From bdf52d94b7cadc8c6f6e4fe93d582dc103541aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 14/21] fix: Python: do not swallow interrupts and memory
 errors as absent presence

A bare except in _has_field turned a KeyboardInterrupt, MemoryError or
RecursionError raised while presence was looked up into "the field is set",
so the interrupted call went on and gave a wrong answer. HasField raises
ValueError for fields without presence; only that is handled now.
---
 python/protoc_gen_validate/validator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index bdca00b..a01b566 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -79,7 +79,7 @@ def has_validate(field):
 def byte_len(s):
     try:
         return len(s.encode('utf-8'))
-    except:  # noqa
+    except (AttributeError, UnicodeError):
         return len(s)
 
 
@@ -127,7 +127,7 @@ def _has_field(message_pb, property_name):
     #       if it fails (with a ValueError) we manually consult the fields.
     try:
         return message_pb.HasField(property_name)
-    except:  # noqa
+    except ValueError:
         all_fields = set([field.name for field in message_pb.DESCRIPTOR.fields])
         return property_name in all_fields
 
-- 
2.43.0


From c1634539e9e2983f52c8aa565e3ee323015821e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:17 +0000
Subject: [PATCH 15/21] fix: Python: keep print_validate complete when threads
 generate validators at once

printer += func is a read and a write: of two threads that validated a
message of a new class at the same time, one could overwrite what the other
had just added.
---
 python/protoc_gen_validate/validator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index a01b566..360dd67 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -1,6 +1,7 @@
 import re
 import struct
 import sys
+import threading
 import time
 import uuid
 from functools import lru_cache
@@ -12,6 +13,7 @@ from jinja2 import Template
 from validate_email import validate_email
 
 printer = ""
+printer_lock = threading.Lock()
 
 # Well known regex mapping.
 regex_map = {
@@ -55,7 +57,8 @@ def validate(proto_message: Message):
 def _validate_inner(proto_message: Message):
     func = file_template(proto_message)
     global printer
-    printer += func + "\n"
+    with printer_lock:
+        printer += func + "\n"
     exec(func)
     try:
         return generate_validate
-- 
2.43.0


From 6b4f3a67b59782a667b05f7735d029123357a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:28 +0000
Subject: [PATCH 16/21] fix: refuse Any, Duration and Timestamp rules on fields
 of other types

The checker never compared these rules with the field's type, so that for
example duration rules on an int32 were accepted and code that does not
compile was generated.
---
 module/checker.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/module/checker.go b/module/checker.go
index d8beabe..2ee869b 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -154,6 +154,12 @@ func (m *Module) MustType(typ FieldType, pt pgs.ProtoType, wrapper pgs.WellKnown
 	)
 }
 
+func (m *Module) mustWKT(typ FieldType, wkt pgs.WellKnownType) {
+	emb := typ.Embed()
+	m.Assert(emb != nil && emb.IsWellKnown() && emb.WellKnownType() == wkt,
+		wkt, " rules should only be used for google.protobuf.", wkt, " fields")
+}
+
 func (m *Module) CheckFloat(r *validate.FloatRules) {
 	m.checkNums(len(r.In), len(r.NotIn), r.Const, r.Lt, r.Lte, r.Gt, r.Gte)
 }
@@ -331,10 +337,12 @@ func (m *Module) CheckMap(ft FieldType, r *validate.MapRules) {
 }
 
 func (m *Module) CheckAny(ft FieldType, r *validate.AnyRules) {
+	m.mustWKT(ft, pgs.AnyWKT)
 	m.checkIns(len(r.In), len(r.NotIn))
 }
 
 func (m *Module) CheckDuration(ft FieldType, r *validate.DurationRules) {
+	m.mustWKT(ft, pgs.DurationWKT)
 	m.checkNums(
 		len(r.GetIn()),
 		len(r.GetNotIn()),
@@ -356,6 +364,7 @@ func (m *Module) CheckDuration(ft FieldType, r *validate.DurationRules) {
 }
 
 func (m *Module) CheckTimestamp(ft FieldType, r *validate.TimestampRules) {
+	m.mustWKT(ft, pgs.TimestampWKT)
 	m.checkNums(0, 0,
 		m.checkTS(r.GetConst()),
 		m.checkTS(r.GetLt()),
-- 
2.43.0


From 443ac48c0e519933e207cf11ba728c809d2be1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:28 +0000
Subject: [PATCH 17/21] fix: refuse message rules for items, keys and values
 that are not messages

message rules on a singular scalar were refused, the same rules on the
elements of a list or map were accepted and ignored.
---
 module/checker.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/module/checker.go b/module/checker.go
index 2ee869b..a20bd52 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -309,6 +309,7 @@ func (m *Module) CheckRepeated(ft FieldType, r *validate.RepeatedRules) {
 	}
 
 	m.Push("items")
+	m.mustEmbedForMessage(typ.Element(), r.Items)
 	m.CheckFieldRules(typ.Element(), r.Items)
 	m.Pop()
 }
@@ -328,14 +329,21 @@ func (m *Module) CheckMap(ft FieldType, r *validate.MapRules) {
 	}
 
 	m.Push("keys")
+	m.mustEmbedForMessage(typ.Key(), r.Keys)
 	m.CheckFieldRules(typ.Key(), r.Keys)
 	m.Pop()
 
 	m.Push("values")
+	m.mustEmbedForMessage(typ.Element(), r.Values)
 	m.CheckFieldRules(typ.Element(), r.Values)
 	m.Pop()
 }
 
+func (m *Module) mustEmbedForMessage(elem pgs.FieldTypeElem, rules *validate.FieldRules) {
+	m.Assert(rules.GetMessage() == nil || elem.IsEmbed(),
+		"element is not embedded but got message rules")
+}
+
 func (m *Module) CheckAny(ft FieldType, r *validate.AnyRules) {
 	m.mustWKT(ft, pgs.AnyWKT)
 	m.checkIns(len(r.In), len(r.NotIn))
-- 
2.43.0


From d6e48aac6cf9eba48fe4113dd1874770cf71de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:28 +0000
Subject: [PATCH 18/21] fix: refuse len together with min_len or max_len on
 bytes fields

The checker refuses the combination on string fields only.
---
 module/checker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/module/checker.go b/module/checker.go
index a20bd52..e6f9b11 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -237,6 +237,7 @@ func (m *Module) CheckString(r *validate.StringRules) {
 }
 
 func (m *Module) CheckBytes(r *validate.BytesRules) {
+	m.checkLen(r.Len, r.MinLen, r.MaxLen)
 	m.checkMinMax(r.MinLen, r.MaxLen)
 	m.checkIns(len(r.In), len(r.NotIn))
 	m.checkPattern(r.Pattern, len(r.In))
-- 
2.43.0


From 25cda9faa6cb7e73392c4ac5ac9b16e18d3d8b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 19/21] fix: Go generation of bytes prefix, suffix and contains
 rules with bytes below 16

---
 templates/goshared/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 75f23eb..314aeda 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -199,7 +199,7 @@ func (fns goSharedFuncs) isBytes(f interface {
 func (fns goSharedFuncs) byteStr(x []byte) string {
 	elms := make([]string, len(x))
 	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
+		elms[i] = fmt.Sprintf(`\x%02X`, b)
 	}
 
 	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
-- 
2.43.0


From 44c79f2a4a8221ea5b6519ad02454a644c00e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:17 +0000
Subject: [PATCH 20/21] fix: do not refuse max_len and max_bytes above the
 largest int

---
 module/checker.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index e6f9b11..ea0876b 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -218,10 +218,10 @@ func (m *Module) CheckString(r *validate.StringRules) {
 	m.checkPattern(r.Pattern, len(r.In))
 
 	if r.MaxLen != nil {
-		max := int(r.GetMaxLen())
-		m.Assert(utf8.RuneCountInString(r.GetPrefix()) <= max, "`prefix` length exceeds the `max_len`")
-		m.Assert(utf8.RuneCountInString(r.GetSuffix()) <= max, "`suffix` length exceeds the `max_len`")
-		m.Assert(utf8.RuneCountInString(r.GetContains()) <= max, "`contains` length exceeds the `max_len`")
+		max := r.GetMaxLen()
+		m.Assert(uint64(utf8.RuneCountInString(r.GetPrefix())) <= max, "`prefix` length exceeds the `max_len`")
+		m.Assert(uint64(utf8.RuneCountInString(r.GetSuffix())) <= max, "`suffix` length exceeds the `max_len`")
+		m.Assert(uint64(utf8.RuneCountInString(r.GetContains())) <= max, "`contains` length exceeds the `max_len`")
 
 		m.Assert(
 			r.MaxBytes == nil || r.GetMaxBytes() >= r.GetMaxLen(),
@@ -229,10 +229,10 @@ func (m *Module) CheckString(r *validate.StringRules) {
 	}
 
 	if r.MaxBytes != nil {
-		max := int(r.GetMaxBytes())
-		m.Assert(len(r.GetPrefix()) <= max, "`prefix` length exceeds the `max_bytes`")
-		m.Assert(len(r.GetSuffix()) <= max, "`suffix` length exceeds the `max_bytes`")
-		m.Assert(len(r.GetContains()) <= max, "`contains` length exceeds the `max_bytes`")
+		max := r.GetMaxBytes()
+		m.Assert(uint64(len(r.GetPrefix())) <= max, "`prefix` length exceeds the `max_bytes`")
+		m.Assert(uint64(len(r.GetSuffix())) <= max, "`suffix` length exceeds the `max_bytes`")
+		m.Assert(uint64(len(r.GetContains())) <= max, "`contains` length exceeds the `max_bytes`")
 	}
 }
 
@@ -243,10 +243,10 @@ func (m *Module) CheckBytes(r *validate.BytesRules) {
 	m.checkPattern(r.Pattern, len(r.In))
 
 	if r.MaxLen != nil {
-		max := int(r.GetMaxLen())
-		m.Assert(len(r.GetPrefix()) <= max, "`prefix` length exceeds the `max_len`")
-		m.Assert(len(r.GetSuffix()) <= max, "`suffix` length exceeds the `max_len`")
-		m.Assert(len(r.GetContains()) <= max, "`contains` length exceeds the `max_len`")
+		max := r.GetMaxLen()
+		m.Assert(uint64(len(r.GetPrefix())) <= max, "`prefix` length exceeds the `max_len`")
+		m.Assert(uint64(len(r.GetSuffix())) <= max, "`suffix` length exceeds the `max_len`")
+		m.Assert(uint64(len(r.GetContains())) <= max, "`contains` length exceeds the `max_len`")
 	}
 }
 
-- 
2.43.0


From a6cde29130590793daec138af06917a543eddae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:20 +0000
Subject: [PATCH 21/21] fix: do not take different far durations and timestamps
 for equal

---
 module/checker.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index ea0876b..9554f05 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -3,12 +3,10 @@ package module
 import (
 	"reflect"
 	"regexp"
-	"time"
 	"unicode/utf8"
 
 	"github.com/envoyproxy/protoc-gen-validate/validate"
 	"github.com/lyft/protoc-gen-star"
-	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/durationpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 )
@@ -395,7 +393,7 @@ func (m *Module) CheckTimestamp(ft FieldType, r *validate.TimestampRules) {
 
 	dur := m.checkDur(r.Within)
 	m.Assert(
-		dur == nil || *dur > 0,
+		dur == nil || dur.seconds > 0 || dur.nanos > 0,
 		"`within` rule must be positive and non-zero")
 }
 
@@ -504,22 +502,27 @@ func (m *Module) checkPattern(p *string, in int) {
 	}
 }
 
-func (m *Module) checkDur(d *durationpb.Duration) *time.Duration {
+// instant is a duration or a point in time, exactly: neither time.Duration nor
+// nanoseconds since 1970 hold every valid value.
+type instant struct {
+	seconds int64
+	nanos   int32
+}
+
+func (m *Module) checkDur(d *durationpb.Duration) *instant {
 	if d == nil {
 		return nil
 	}
 
-	dur, err := d.AsDuration(), d.CheckValid()
-	m.CheckErr(err, "could not resolve duration")
-	return &dur
+	m.CheckErr(d.CheckValid(), "could not resolve duration")
+	return &instant{d.GetSeconds(), d.GetNanos()}
 }
 
-func (m *Module) checkTS(ts *timestamppb.Timestamp) *int64 {
+func (m *Module) checkTS(ts *timestamppb.Timestamp) *instant {
 	if ts == nil {
 		return nil
 	}
 
-	t, err := ts.AsTime(), ts.CheckValid()
-	m.CheckErr(err, "could not resolve timestamp")
-	return proto.Int64(t.UnixNano())
+	m.CheckErr(ts.CheckValid(), "could not resolve timestamp")
+	return &instant{ts.GetSeconds(), ts.GetNanos()}
 }
-- 
2.43.0

