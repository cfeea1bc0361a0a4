From e692ab9f609f24f4e94d59cbc05ce50572ca5fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:16 +0000
Subject: [PATCH 01/34] fix: read and write bit-fields of any width and
 alignment

The masks were built as int (1 << bit_size), which is wrong for fields of 32
bits and more, and only the bytes of the field's type were looked at, which
loses the top bits of a field that straddles it (packed structures).
---
 src/value.c | 62 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/src/value.c b/src/value.c
index 1d15d06..39c2df0 100644
--- a/src/value.c
+++ b/src/value.c
@@ -122,31 +122,35 @@ static int _entry_bitfield_read(metac_entry_t *p_memb_entry, void * base_addr, v
     metac_offset_t byte_offset;
     metac_offset_t bit_offset;
     metac_offset_t bit_size;
-    uint8_t buf[16];
 
     _check_(metac_entry_member_bitfield_offsets(p_memb_entry, &byte_offset, &bit_offset, &bit_size) != 0, -(EINVAL));
+    _check_(bit_size == 0 || bit_size > 8 * var_size || bit_size > 8 * sizeof(unsigned long long), -(EINVAL));
+
+    base_addr += byte_offset;
+    unsigned long long mask = (~0ull) >> (8 * sizeof(unsigned long long) - bit_size);
+    unsigned long long data = 0;
 
      /* TODO: Caution: this has been tested only with little-endian machines*/
     if (IS_LITTLE_ENDIAN) {
-        base_addr += byte_offset;
         // read only number of bytes that we really need
-        // TODO: make it without extra copy if possible
-        // TODO: need to make it for both endians
-        assert(bit_size != 0);
-        memcpy(buf, base_addr, (bit_offset + bit_size - 1)/8 + 1);
-        base_addr = buf;
+        // NOTE: the field may occupy one byte more than its type does (e.g. in packed structures)
+        data = ((uint8_t*)base_addr)[0] >> bit_offset;
+        for (metac_offset_t i = 1; i < (bit_offset + bit_size - 1)/8 + 1; ++i) {
+            data |= (unsigned long long)((uint8_t*)base_addr)[i] << (8 * i - bit_offset);
+        }
     } else {
-        base_addr += byte_offset;
         bit_offset = 8 * var_size - (bit_offset + bit_size);
     }
 
 #define _read_(_type_) \
     do{ \
-        _type_ data = *((_type_*)base_addr); \
-        data = (data >> bit_offset) & ((1 << bit_size) - 1); \
+        if (!IS_LITTLE_ENDIAN) { \
+            data = *((_type_*)base_addr) >> bit_offset; \
+        } \
+        data &= mask; \
         \
-        if ((correct_sign) && (data & (1 << (bit_size-1)))) { \
-            data = ((-1) << ((bit_size))) ^ data; \
+        if ((correct_sign) && ((data >> (bit_size - 1)) & 1)) { \
+            data |= ~mask; \
         } \
         *((_type_*)p_var) = data; \
     } while(0)
@@ -176,30 +180,25 @@ static int _entry_bitfield_write(metac_entry_t *p_memb_entry, void * base_addr,
     metac_offset_t byte_offset;
     metac_offset_t bit_offset;
     metac_offset_t bit_size;
-    void * base_addr_orig = NULL;
-    uint8_t buf[16];
 
     _check_(metac_entry_member_bitfield_offsets(p_memb_entry, &byte_offset, &bit_offset, &bit_size) != 0, -(EINVAL));
+    _check_(bit_size == 0 || bit_size > 8 * var_size || bit_size > 8 * sizeof(unsigned long long), -(EINVAL));
+
+    base_addr += byte_offset;
+    unsigned long long mask = (~0ull) >> (8 * sizeof(unsigned long long) - bit_size);
+    unsigned long long data = 0;
 
      /* TODO: Caution: this has been tested only with little-endian machines*/
-    if (IS_LITTLE_ENDIAN) {
-        base_addr += byte_offset;
-        // write only number of bytes that we really need
-        // TODO: make it without extra copy if possible
-        // TODO: need to make it for both endians
-        assert(bit_size != 0);
-        base_addr_orig = base_addr;
-        memcpy(buf, base_addr, (bit_offset + bit_size - 1)/8 + 1);
-        base_addr = buf;
-    } else {
-        base_addr += byte_offset;
+    if (!IS_LITTLE_ENDIAN) {
         bit_offset = 8 * var_size - (bit_offset + bit_size);
     }
 
 #define _write_(_type_) \
     do { \
-        _type_ data = ((*(_type_*)p_var) & ((1 << bit_size) - 1)) << bit_offset; \
-        *((_type_*)base_addr) = *((_type_*)base_addr) & (~(((1 << bit_size) - 1) << bit_offset )) | data;\
+        data = (*(_type_*)p_var) & mask; \
+        if (!IS_LITTLE_ENDIAN) { \
+            *((_type_*)base_addr) = (*((_type_*)base_addr) & ~(mask << bit_offset)) | (data << bit_offset); \
+        } \
     } while (0)
 
     if (var_size == sizeof(unsigned char)) {
@@ -218,8 +217,13 @@ static int _entry_bitfield_write(metac_entry_t *p_memb_entry, void * base_addr,
 #undef _write_
 
     if (IS_LITTLE_ENDIAN) {
-        // write back only needed data
-        memcpy(base_addr_orig, buf, (bit_offset + bit_size-1)/8 +1);
+        // write only the bytes (and bits) that we really need
+        // NOTE: the field may occupy one byte more than its type does (e.g. in packed structures)
+        uint8_t * p_byte = base_addr;
+        p_byte[0] = (p_byte[0] & ~(mask << bit_offset)) | (data << bit_offset);
+        for (metac_offset_t i = 1; i < (bit_offset + bit_size - 1)/8 + 1; ++i) {
+            p_byte[i] = (p_byte[i] & ~(mask >> (8 * i - bit_offset))) | (data >> (8 * i - bit_offset));
+        }
     }
 
     return 0;
-- 
2.43.0


From f37c17b6d94e10a46031ea2ee19764220e368ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:12 +0000
Subject: [PATCH 02/34] fix: read and write enumeration bit-fields, honour
 unsigned enumerations

---
 src/value.c | 90 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 71 insertions(+), 19 deletions(-)

diff --git a/src/value.c b/src/value.c
index 39c2df0..9e852e3 100644
--- a/src/value.c
+++ b/src/value.c
@@ -476,6 +476,31 @@ struct metac_type_enumerator_info const * metac_value_enumeration_info(metac_val
     return metac_entry_enumeration_info(p_final_entry, id);
 }
 
+/* the same as compilers do: enumeration can keep negative values only if there is at least one negative enumerator */
+static metac_flag_t _enumeration_is_signed(metac_entry_t * p_final_entry) {
+    metac_num_t count = metac_entry_enumeration_info_size(p_final_entry);
+    for (metac_num_t i = 0; i < count; ++i) {
+        if (metac_entry_enumeration_info(p_final_entry, i)->const_value < 0) {
+            return 1;
+        }
+    }
+    return 0;
+}
+
+/* returns address of the beginning of the structure if val is a bitfield, otherwise NULL */
+static void * _value_bitfield_base_addr(metac_value_t *p_val) {
+    struct metac_member_raw_location_info bitfields_raw_info;
+    if (metac_entry_member_raw_location_info(p_val->p_entry, &bitfields_raw_info) != 0) {
+        return NULL; /* not a member */
+    }
+    if (bitfields_raw_info.p_bit_offset == NULL &&
+        bitfields_raw_info.p_bit_size == NULL &&
+        bitfields_raw_info.p_data_bit_offset == NULL) {
+        return NULL;
+    }
+    return p_val->addr - bitfields_raw_info.byte_offset;
+}
+
 int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
     _check_(p_var == NULL, -(EINVAL));
 
@@ -488,26 +513,35 @@ int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
         return -(EFAULT);
     }
 
-    if (enum_byte_size == sizeof(char)) {
-        *p_var = *(char*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(short)){
-        *p_var = *(short*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(int)){
-        *p_var = *(int*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(long)){
-        *p_var = *(long*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(long long)){
-        *p_var = *(long long*)p_val->addr;
-        return 0;
+    metac_flag_t is_signed = _enumeration_is_signed(p_final_entry);
+    void * p_data = p_val->addr;
+    unsigned long long data = 0;
+    void * p_base_addr = _value_bitfield_base_addr(p_val);
+    if (p_base_addr != NULL) {
+        int err = _entry_bitfield_read(p_val->p_entry, p_base_addr, &data, enum_byte_size, is_signed);
+        if (err != 0) {
+            return err;
+        }
+        p_data = &data;
     }
+
+#define _read_(_type_) \
+    do { \
+        if (enum_byte_size == sizeof(_type_)) { \
+            if (is_signed != 0) { \
+                *p_var = *(signed _type_*)p_data; \
+            } else { \
+                *p_var = *(unsigned _type_*)p_data; \
+            } \
+            return 0; \
+        } \
+    } while(0)
+    _read_(char);
+    _read_(short);
+    _read_(int);
+    _read_(long);
+    _read_(long long);
+#undef _read_
     return -(ENOTSUP);
 }
 
@@ -526,6 +560,24 @@ int metac_value_set_enumeration(metac_value_t * p_val, metac_const_value_t var)
         return -(EFAULT);
     }
 
+    void * p_base_addr = _value_bitfield_base_addr(p_val);
+    if (p_base_addr != NULL) {
+#define _write_(_type_) \
+        do { \
+            if (enum_byte_size == sizeof(_type_)) { \
+                _type_ data = (_type_)var; \
+                return _entry_bitfield_write(p_val->p_entry, p_base_addr, &data, sizeof(data)); \
+            } \
+        } while(0)
+        _write_(char);
+        _write_(short);
+        _write_(int);
+        _write_(long);
+        _write_(long long);
+#undef _write_
+        return -(ENOTSUP);
+    }
+
     if (enum_byte_size == sizeof(char)) {
         *(char*)p_val->addr = (char)var;
         return 0;
-- 
2.43.0


From e7c03cf1e64afc6b3f54176155618d56e0f34afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:28 +0000
Subject: [PATCH 03/34] fix: let a task request sub-tasks again after it
 fetched all results

The cached tail of the dependency queue survived the removal of the last
dependency, so the next request failed an assertion.
---
 src/iterator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iterator.c b/src/iterator.c
index 4d4738a..2cc0ae8 100644
--- a/src/iterator.c
+++ b/src/iterator.c
@@ -284,6 +284,9 @@ void * metac_recursive_iterator_dequeue_and_delete_dep(metac_recursive_iterator_
     recursive_iterator_entry_t * p_entry = LIST_FIRST(&p_iterator->p_current->deps);
     assert(metac_r_iter_state_is_end(p_entry->state));
     LIST_REMOVE(p_entry, links);
+    if (LIST_EMPTY(&p_iterator->p_current->deps)) {
+        p_iterator->p_current->last_dep = NULL; // it was the last one, new dependencies start from the head
+    }
 
     void * p_out = metac_recursive_iterator_entry_get_out(p_entry, pp_in, p_fail);
     metac_recursive_iterator_entry_free(p_entry);
-- 
2.43.0


From da90e0abda2a05738325d6c53ab38a3e5005a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:10 +0000
Subject: [PATCH 04/34] fix: hashmapPut reports NULL as the previous value when
 memory runs out

The header promises it; the caller's variable was left uninitialised.
---
 src/hashmap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hashmap.c b/src/hashmap.c
index 8a73998..4d43085 100644
--- a/src/hashmap.c
+++ b/src/hashmap.c
@@ -197,6 +197,9 @@ int hashmapPut(Hashmap* map, void* key, void* value, void ** p_res) {
         if (current == NULL) {
             *p = createEntry(key, hash, value);
             if (*p == NULL) {
+                if (p_res != NULL) {
+                    *p_res = NULL;
+                }
                 return -(ENOMEM);
             }
             map->size++;
-- 
2.43.0


From 8d997352bf51d7529f2a4ba2be434b35d8ee51d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 05/34] fix: parse the printf space flag and zero-padded widths
 as C does

The space flag was recorded as the 0 flag, and the 0 flag made width and
precision be read as octal numbers.
---
 src/printf_format.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 53aa508..414ea8d 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -37,7 +37,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
         } else if (format[*pos] == '0') {
             p_specifier->flags.oct = 1;
         } else if (format[*pos] == ' ') {
-            p_specifier->flags.oct = 1;
+            p_specifier->flags.space = 1;
         } else {
             break;
         }
@@ -48,11 +48,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
     p_specifier->format_len = 0;
     while (*pos < strlen(format) && isdigit(format[*pos])) {
         metac_num_t d = format[*pos] - '0';
-        if (p_specifier->flags.oct != 0) {
-            p_specifier->format_len = p_specifier->format_len * 8 + d;
-        } else {
-            p_specifier->format_len = p_specifier->format_len * 10 + d;
-        }
+        p_specifier->format_len = p_specifier->format_len * 10 + d;
         (*pos)++;
     }
 
@@ -63,11 +59,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
         (*pos)++;
         while (*pos < strlen(format) && isdigit(format[*pos])) {
             metac_num_t d = format[*pos] - '0';
-            if (p_specifier->flags.oct != 0) {
-                p_specifier->precision = p_specifier->precision * 8 + d;
-            } else {
-                p_specifier->precision = p_specifier->precision * 10 + d;
-            }
+            p_specifier->precision = p_specifier->precision * 10 + d;
             (*pos)++;
         }
     }
-- 
2.43.0


From a4e4bc550d2d6bb851376cb9bc09b7d3ad68101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 06/34] fix: find printf conversions that directly follow each
 other and after %%

The character behind a conversion was skipped, so the second conversion of
"%d%d" was lost, and %% was counted as a parameter when storing.
---
 src/printf_format.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 414ea8d..4040672 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -107,7 +107,8 @@ size_t metac_count_format_specifiers(const char *format) {
         if (format[pos] == '%') {
             // Check if a valid format specifier follows
             if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
-            num_specifiers++;
+                num_specifiers++;
+                continue; // pos is already behind the specifier
             }
         }
         pos++;
@@ -325,8 +326,9 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                         return -(EFAULT);
                     }
                 }
+                ++param_id;
+                continue; // pos is already behind the specifier
             }
-            ++param_id;
         }
         ++pos;
     }
-- 
2.43.0


From 81cfc1a6d8d6b4508a60c250992ffa4aca6c0837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 07/34] fix: store strings of any length captured for %s

The buffer had the size of a pointer, longer strings were written past its
end.
---
 src/printf_format.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 4040672..6d62509 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -199,7 +199,8 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                                 return -(EFAULT);
                             }
 
-                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, sizeof(p)) != 0) {
+                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, len+1) != 0) {
+                                metac_entry_delete(p_param_with_len_entry);
                                 return -(EFAULT);
                             }
                             metac_value_t * p_param_value = metac_parameter_storage_new_param_value(p_pload, param_id);
-- 
2.43.0


From c38c2a7a0a8aa73bf0e47b090ab9903631662f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:53 +0000
Subject: [PATCH 08/34] fix: report memory shortage when creating a nested
 parameter list

---
 src/value_with_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index 4ba049e..225063a 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -151,7 +151,7 @@ int metac_parameter_storage_append_by_parameter_storage(metac_parameter_storage_
     assert(metac_entry_is_unspecified_parameter(p_entry) != 0 || metac_entry_is_va_list_parameter(p_entry) != 0);
 
     metac_parameter_storage_t * p_inner_param_storage = metac_new_parameter_storage();
-    _check_(p_entry == NULL, -(ENOMEM));
+    _check_(p_inner_param_storage == NULL, -(ENOMEM));
 
     metac_parameter_t * p_param = _parameter_storage_append_by_buffer(p_param_storage,
         0,
-- 
2.43.0


From 6121d5d4642830a9c6d537dda3e4cb4bee15fc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:53 +0000
Subject: [PATCH 09/34] fix: do not free a structure parameter that the storage
 still owns

---
 src/value_with_args.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index 225063a..86af12c 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -430,8 +430,7 @@ static void _handle_subprogram(
 
                         if (addr != NULL) {
                             if (metac_entry_struct_va_arg(p_param_type_entry, p_va_list_container, addr) == 0) {
-                                free(addr);
-                                addr = NULL;
+                                addr = NULL; /* the memory belongs to the storage */
                                 break;
                             }
                         }
-- 
2.43.0


From 17bc9ac015c7a2615cb15ab333505762a7c47f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:01 +0000
Subject: [PATCH 10/34] fix: consume a va_list argument nobody handles and
 release its value

---
 src/value_with_args.c | 48 ++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index 86af12c..c3abeec 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -269,40 +269,36 @@ static void _handle_subprogram(
             }
 
             metac_entry_tag_t * p_tag = metac_tag_map_tag(p_tag_map, p_param_entry);
-            
-            if (p_tag != NULL && p_tag->handler) {
 
-                // if parameter is va_list - we need to extract it
-                int local = 0;
-                struct va_list_container local_cntr = {};
+            // if parameter is va_list - we need to extract it (even if nobody handles it: the next parameters follow it)
+            int local = 0;
+            struct va_list_container local_cntr = {};
 #if VA_ARG_IN_VA_ARG != 0
-                if (metac_entry_is_va_list_parameter(p_param_entry) != 0) {
-                    local = 1;
+            if (metac_entry_is_va_list_parameter(p_param_entry) != 0) {
+                local = 1;
 #if __linux__
-                    // linux (gcc) can't extract va_arg from va_arg
-                    void * p = va_arg(p_va_list_container->parameters, void*);
-                    memcpy(&local_cntr, p, sizeof(local_cntr));
+                // linux (gcc) can't extract va_arg from va_arg
+                void * p = va_arg(p_va_list_container->parameters, void*);
+                memcpy(&local_cntr, p, sizeof(local_cntr));
 #else
-                    _va_list_cp_to_container(&local_cntr, va_arg(p_va_list_container->parameters, va_list));
+                _va_list_cp_to_container(&local_cntr, va_arg(p_va_list_container->parameters, va_list));
 #endif
-                    ev.p_va_list_container = &local_cntr;
-                }
+                ev.p_va_list_container = &local_cntr;
+            }
 #endif
 
-                if (metac_value_event_handler_call(p_tag->handler, p_iter, &ev, p_tag->p_context) != 0) {
-                    if (local != 0){
-                        va_end(local_cntr.parameters);
-                    }
-                    metac_value_delete(ev.p_return_value);
-
+            int res = 0;
+            if (p_tag != NULL && p_tag->handler) {
+                res = metac_value_event_handler_call(p_tag->handler, p_iter, &ev, p_tag->p_context);
+            }
+            if (local != 0){
+                va_end(local_cntr.parameters);
+            }
+            metac_value_delete(ev.p_return_value);
 
-                    metac_recursive_iterator_fail(p_iter);
-                    return;
-                }
-                if (local != 0){
-                    va_end(local_cntr.parameters);
-                }
-                metac_value_delete(ev.p_return_value);
+            if (res != 0) {
+                metac_recursive_iterator_fail(p_iter);
+                return;
             }
         } else { /* normal param */
             void * addr = NULL;
-- 
2.43.0


From 273163b6221f7b71087673dad9df51e8217927b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 11/34] fix: release the parameter storage when its value can
 not be created

---
 src/value.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value.c b/src/value.c
index 9e852e3..4044208 100644
--- a/src/value.c
+++ b/src/value.c
@@ -858,6 +858,9 @@ metac_value_t * metac_new_value_with_call_params(metac_entry_t *p_entry) {
     metac_parameter_storage_t * p_param_storage = metac_new_parameter_storage();
     if (p_param_storage != NULL) {
         p_val = metac_new_value(p_entry, p_param_storage);
+        if (p_val == NULL) {
+            metac_parameter_storage_delete(p_param_storage);
+        }
     }
     return p_val;
 }
-- 
2.43.0


From d46310c08984bc042380128be99a15f2dec54e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 12/34] fix: parameter access of a missing value yields nothing
 instead of crashing

---
 src/value.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/value.c b/src/value.c
index 4044208..09493e1 100644
--- a/src/value.c
+++ b/src/value.c
@@ -735,6 +735,7 @@ metac_flag_t metac_value_has_parameter_load(metac_value_t * p_val) {
 }
 
 metac_num_t metac_value_parameter_count(metac_value_t * p_val) {
+    _check_(p_val == NULL, 0);
     _check_(metac_entry_has_parameter_load(p_val->p_entry) == 0, 0);
 
 
@@ -745,6 +746,7 @@ metac_num_t metac_value_parameter_count(metac_value_t * p_val) {
 }
 
 metac_value_t * metac_value_parameter_new_item(metac_value_t * p_val, metac_num_t id) {
+    _check_(p_val == NULL, 0);
     _check_(metac_entry_has_parameter_load(p_val->p_entry) == 0, 0);
 
  
-- 
2.43.0


From bcc0d471ec4cb8a3641bd98a5a28ee80ec6acad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:35 +0000
Subject: [PATCH 13/34] fix: go on when an external tag map has no tag for the
 entry

metac_tag_map_tag ran into assert(0) as soon as the external map of a
category had no tag for the entry, because such categories have no map
of their own.
---
 src/entry_tag.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index abe4eec..4af606d 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -180,6 +180,7 @@ metac_entry_tag_t * metac_tag_map_tag(metac_tag_map_t * p_tag_map, metac_entry_t
             if (p_ext_res != NULL) {
                 return p_ext_res;
             }
+            continue; /* external categories don't have own map */
         }
         if (p_tag_map->p_categories[i].p_map == NULL) {
             assert(0);
-- 
2.43.0


From 048309061aedad2dad36e6a068a82aa58ad1fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:35 +0000
Subject: [PATCH 14/34] fix: refuse a pointer cast whose count field does not
 exist

metac_handle_ptr_cast used the negative id of a missing count field and
crashed on the NULL value.
---
 src/entry_tag.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 4af606d..2f51bd3 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -760,6 +760,9 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
         metac_num_t content_count = 1;
         if (p_cnxt->sibling_count_fieldname != NULL && strcmp(p_cnxt->sibling_count_fieldname, "") != 0) {
             metac_num_t count_id = metac_entry_member_name_to_id(metac_value_entry(p_parent_val), p_cnxt->sibling_count_fieldname);
+            if (count_id < 0) {
+                return -(EINVAL);
+            }
 
             metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, count_id);
             if (metac_value_num(p_sibling_val, &content_count) != 0) {
-- 
2.43.0


From e27c3a5eeda46871f7a194b058463f7b0ec3079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:51 +0000
Subject: [PATCH 15/34] fix: let METAC_ZERO_ENDED_STRING work for flexible
 arrays of char

The tag is documented for char* and char[], and the handler accepts the
flexible array event, but it refused everything that is not a pointer.
---
 src/entry_tag.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 2f51bd3..56f85d8 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -445,17 +445,20 @@ int metac_handle_zero_ended_string(metac_value_walker_hierarchy_t *p_hierarchy,
         metac_value_walker_hierarchy_level(p_hierarchy) >= 0) {
         
         metac_value_t *p_val = metac_value_walker_hierarchy_value(p_hierarchy, 0);
-        if (p_val == NULL || metac_value_is_pointer(p_val) == 0) {
+        metac_flag_t is_array = (metac_value_has_elements(p_val) != 0);
+        if (p_val == NULL || (metac_value_is_pointer(p_val) == 0 && is_array == 0)) {
             return -(EFAULT);
         }
-        metac_entry_t *p_target_entry = metac_entry_final_entry(metac_entry_pointer_entry(metac_value_entry(p_val)), NULL);
+        metac_entry_t *p_target_entry = metac_entry_final_entry(is_array != 0 ?
+            metac_entry_element_entry(metac_value_entry(p_val)) :
+            metac_entry_pointer_entry(metac_value_entry(p_val)), NULL);
         if (p_target_entry == NULL || metac_entry_kind(p_target_entry) != METAC_KND_base_type ||
             metac_entry_name(p_target_entry) == NULL || strcmp(metac_entry_name(p_target_entry), "char") != 0) {
             return -(EFAULT);
         }
 
-        char * ptr = NULL;
-        if (metac_value_pointer(p_val, (void**)&ptr) != 0) {
+        char * ptr = (is_array != 0) ? (char *)metac_value_addr(p_val) : NULL;
+        if (is_array == 0 && metac_value_pointer(p_val, (void**)&ptr) != 0) {
             return -(EFAULT);
         }
         if (ptr == NULL) {
-- 
2.43.0


From 8fd7c7cb429e795f1d98e3d38ec2b7036b4d0a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:51 +0000
Subject: [PATCH 16/34] fix: release the copied tag string when the tag can not
 be stored

---
 src/entry_tag.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 56f85d8..7281e1e 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -228,6 +228,9 @@ static int _tag_map_set_tag(metac_tag_map_t * p_tag_map,
     metac_entry_tag_t *p_prev_tag = NULL;
     
     if (hashmapPut(p_tag_map->p_categories[category].p_map, (void*)p_entry, (void*)p_local_tag, (void**)&p_prev_tag) != 0) {
+        if (p_local_tag->p_tagstring != NULL) { /* the context still belongs to the caller */
+            free(p_local_tag->p_tagstring);
+        }
         free(p_local_tag);
         return -(EFAULT);
     }
-- 
2.43.0


From eed2e9748ea52de3711e3f993ab3872135615908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:24 +0000
Subject: [PATCH 17/34] fix: deep copy writes NULL pointers to the destination

---
 src/value_deep.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 1e44f49..e21d0b4 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1145,12 +1145,12 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                    } else if (p_mode->unknown_ptr_mode == METAC_UPTR_ignore){  /* set as NULL. */
+                    } else if (p_mode->unknown_ptr_mode != METAC_UPTR_as_values){  /* NULL pointer or an ignored one: set as NULL. */
                         if (metac_value_set_pointer(p_dst_val, NULL)!=0) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                    } else if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) { /* treat as value, just copy as memory sizeof(void*) */
+                    } else { /* treat as value, just copy as memory sizeof(void*) */
                         if (metac_value_copy_pointer(p->p_val, p_dst_val)== NULL) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
-- 
2.43.0


From 5510b2a5a0782c58f4c5b34a7bcd0d565c53160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:24 +0000
Subject: [PATCH 18/34] fix: deep compare takes loops as equal by structure
 also when unknown pointers are compared as values

---
 src/value_deep.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index e21d0b4..f5dbb2d 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1314,8 +1314,8 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
 
                 if (metac_value_is_pointer(p1->p_val) != 0 && metac_value_is_pointer(p2->p_val) != 0) {
                     if (p1->children_count == 0 && p2->children_count == 0) {
-                        if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) {
-                            /*treat pointer as value*/
+                        if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values && p1->loop_level == 0) {
+                            /*treat pointer as value (loops are already compared by loop_level) */
                             int _cmp = metac_value_equal_pointer(p1->p_val, p2->p_val);
                             if (_cmp < 0) {
                                 metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From 2ad95333747152a8594d74158a8b950bedfef8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:01 +0000
Subject: [PATCH 19/34] fix: deep copy of several pointers to the same place
 inside of a block

---
 src/value_deep.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index f5dbb2d..717df58 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1097,14 +1097,18 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                 src = metac_value_addr(p->pp_children[0]->p_val);
                                 assert(src != NULL); /* since children count >0 this must be true */
                                 assert(context.src_to_dst != NULL);
-                                if (p->pp_children[0]->offset_from_allocate_base != 0) {
-                                    void * allocate_src = src - p->pp_children[0]->offset_from_allocate_base;
+                                /* several pointers can lead to the same address, the offset is known for one of the entries */
+                                struct metac_memory_entry * p_src_entry = 
+                                    (struct metac_memory_entry *)hashmapGet(context.p_map->p_addr_ptr_val_to_memory_entry, src);
+                                assert(p_src_entry != NULL);
+                                if (p_src_entry->offset_from_allocate_base != 0) {
+                                    void * allocate_src = src - p_src_entry->offset_from_allocate_base;
                                     void * allocate_dst = hashmapGet(context.src_to_dst, allocate_src);
                                     if (allocate_dst == NULL) {
                                         metac_recursive_iterator_fail(p_iter);
                                         continue;
                                     }
-                                    p_dst_children_addr_override = allocate_dst + p->pp_children[0]->offset_from_allocate_base;
+                                    p_dst_children_addr_override = allocate_dst + p_src_entry->offset_from_allocate_base;
                                 } else {
                                     p_dst_children_addr_override = hashmapGet(context.src_to_dst, src);
                                     if (p_dst_children_addr_override == NULL) {
-- 
2.43.0


From 108138b136e38afb85a68d7ceeed443de928c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:02 +0000
Subject: [PATCH 20/34] fix: don't use deleted entries when a part of the
 memory map fails

---
 src/value_deep.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 717df58..6747fb6 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -322,6 +322,16 @@ static metac_value_memory_map_mode_t const _default_value_memory_map_mode = {
     .unknown_ptr_mode = METAC_UPTR_fail,
 };
 
+/* the entry belongs to the part which has failed, so the map as the whole will fail too.
+hashmap may have references to the entry and its children - siblings must not use them */
+static void _failed_memory_entry_delete(struct metac_memory_map * p_map, struct metac_memory_entry * p_memory_entry) {
+    if (p_map->p_addr_ptr_val_to_memory_entry != NULL) {
+        hashmapFree(p_map->p_addr_ptr_val_to_memory_entry);
+        p_map->p_addr_ptr_val_to_memory_entry = NULL;
+    }
+    metac_memory_entry_delete(p_memory_entry);
+}
+
 struct metac_memory_map * metac_new_value_memory_map_ex(
     metac_value_t * p_val, 
     metac_value_memory_map_mode_t * p_map_mode,
@@ -551,7 +561,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 metac_value_delete(p_memb_val);
                             }
                         }else {
-                            metac_memory_entry_delete(p_member_memory_entry);
+                            _failed_memory_entry_delete(p_map, p_member_memory_entry);
                         }
                     }
 
@@ -561,7 +571,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                         if (p_memory_entry->p_val == p) {
                             p_memory_entry->p_val = NULL;
                         }
-                        metac_memory_entry_delete(p_memory_entry);
+                        _failed_memory_entry_delete(p_map, p_memory_entry);
                     }
 
                     metac_recursive_iterator_fail(p_iter);
@@ -708,7 +718,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                             if (p_memory_entry->p_val == p) {
                                 p_memory_entry->p_val = NULL;
                             }
-                            metac_memory_entry_delete(p_memory_entry);
+                            _failed_memory_entry_delete(p_map, p_memory_entry);
                         }
 
                         metac_recursive_iterator_fail(p_iter);
@@ -731,7 +741,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                     if (p_memory_entry->p_val == p) {
                                         p_memory_entry->p_val = NULL;
                                     }
-                                    metac_memory_entry_delete(p_memory_entry);
+                                    _failed_memory_entry_delete(p_map, p_memory_entry);
                                     metac_recursive_iterator_fail(p_iter);
                                     continue;
                                 }
@@ -742,7 +752,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 if (p_memory_entry->p_val == p) {
                                     p_memory_entry->p_val = NULL;
                                 }
-                                metac_memory_entry_delete(p_memory_entry);
+                                _failed_memory_entry_delete(p_map, p_memory_entry);
                                 metac_recursive_iterator_fail(p_iter);
                                 continue;
                             }
@@ -831,7 +841,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 metac_value_delete(p_memb_val);
                             }
                         }else {
-                            metac_memory_entry_delete(p_member_memory_entry);
+                            _failed_memory_entry_delete(p_map, p_member_memory_entry);
                         }
                     }
 
@@ -841,7 +851,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                         if (p_memory_entry->p_val == p) {
                             p_memory_entry->p_val = NULL;
                         }
-                        metac_memory_entry_delete(p_memory_entry);
+                        _failed_memory_entry_delete(p_map, p_memory_entry);
                     }
 
                     metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From 66a901ca41eee1056811334eb98cfcc709246161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:50 +0000
Subject: [PATCH 21/34] fix: an empty array inside of a block isn't a
 separately allocated block

---
 src/value_deep.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 6747fb6..31141a6 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -287,7 +287,10 @@ static int _identify_allocatable_entries(struct metac_memory_map * p_map) {
         assert(p_current_entry != NULL);
 
         if (p_current_entry->byte_size <= 0) {
-            // artificial elements, like param/function loads
+            // artificial elements, like param/function loads or empty arrays. the latter can point inside of the block
+            if (p_main != NULL && p_current < p_main + p_main_entry->byte_size) {
+                p_current_entry->offset_from_allocate_base = p_current - p_main;
+            }
             continue;
         }
 
-- 
2.43.0


From 6d3297d8a8f5806ae08b8f1e52d0a21d1262549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:43 +0000
Subject: [PATCH 22/34] fix: partially overlapping arrays belong to one block
 which covers all of them

---
 src/value_deep.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 31141a6..ae19824 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -305,11 +305,8 @@ static int _identify_allocatable_entries(struct metac_memory_map * p_map) {
             continue;
         }
         if (p_main + p_main_entry->byte_size < p_current + p_current_entry->byte_size) {
-            metac_size_t delta = p_current + p_current_entry->byte_size - (p_main + p_main_entry->byte_size);
-            printf("WARNING: partial overlap %p:%"METAC_SIZE_PRIx" with %p:%"METAC_SIZE_PRIx
-                ". should we extend the first size by %"METAC_SIZE_PRIx"\n",
-                p_main, p_main_entry->byte_size, p_current, p_current_entry->byte_size, 
-                delta);
+            /* partial overlap - it's the same block, its size is what both of them cover */
+            p_main_entry->byte_size = p_current + p_current_entry->byte_size - p_main;
         }
         p_current_entry->offset_from_allocate_base = p_current - p_main;
     }
-- 
2.43.0


From 404c5e9e1a4ceef1c0374904ba4f49ba15e9fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:41 +0000
Subject: [PATCH 23/34] fix: cdecl of qualified pointers through several
 qualifiers and of qualified arrays of pointers

---
 src/entry_cdecl.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 49547cc..5b98176 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -9,6 +9,33 @@ dsprintf_render_with_buf(64)
 
 #include <assert.h>
 
+static int _is_qual_type(metac_entry_t * p_entry) {
+    switch (p_entry->kind) {
+        case METAC_KND_const_type:
+        case METAC_KND_volatile_type:
+        case METAC_KND_restrict_type:
+        case METAC_KND_mutable_type:
+        case METAC_KND_shared_type:
+        case METAC_KND_packed_type:
+            return 1;
+    }
+    return 0;
+}
+
+/* qualifiers of pointers (and of arrays of pointers) belong to the declarator: char * const %s[3] */
+static int _is_pointer_or_array_of_pointers(metac_entry_t * p_entry) {
+    while (p_entry != NULL) {
+        if (p_entry->kind == METAC_KND_array_type) {
+            p_entry = p_entry->array_type_info.type;
+        } else if (_is_qual_type(p_entry)) {
+            p_entry = p_entry->qual_type_info.type;
+        } else {
+            return p_entry->kind == METAC_KND_pointer_type;
+        }
+    }
+    return 0;
+}
+
 /**
  * convert metac_entry to the C-declaration like string.
  * if entry is type the result will container a placeholder %s
@@ -184,7 +211,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             continue;
                         }
                         char * res = NULL;
-                        if (p->qual_type_info.type != NULL && p->qual_type_info.type->kind == METAC_KND_pointer_type) {
+                        if (_is_pointer_or_array_of_pointers(p->qual_type_info.type)) {
                             /* this is more universal way... maybe we will switch to that*/
                             /*printf("PTR: returned %s, qual_str %s\n", (type_pattern != NULL)?type_pattern:"void %%s", qual_str);*/
                             res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
-- 
2.43.0


From 4f27f3859735181e95cad9c14f4c5a7c5ffd6220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:42 +0000
Subject: [PATCH 24/34] fix: cdecl of pointers to arrays

---
 src/entry_cdecl.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 5b98176..5acec2d 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -36,6 +36,13 @@ static int _is_pointer_or_array_of_pointers(metac_entry_t * p_entry) {
     return 0;
 }
 
+static int _is_array(metac_entry_t * p_entry) {
+    while (p_entry != NULL && _is_qual_type(p_entry)) {
+        p_entry = p_entry->qual_type_info.type;
+    }
+    return p_entry != NULL && p_entry->kind == METAC_KND_array_type;
+}
+
 /**
  * convert metac_entry to the C-declaration like string.
  * if entry is type the result will container a placeholder %s
@@ -253,7 +260,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             }
                         }
                         char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
-                            "* %s");
+                            _is_array(p->pointer_type_info.type)?"(* %s)":"* %s");
                         if (type_pattern != NULL) {
                             free(type_pattern);
                         }
-- 
2.43.0


From 83e42ad7d5216eb19983825ab7ff5a620b8ff037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:42 +0000
Subject: [PATCH 25/34] fix: cdecl of functions returning pointers to functions
 or arrays

---
 src/entry_cdecl.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 5acec2d..0116cf4 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -471,10 +471,9 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // append type_pattern with (%s)
-                        char * subprogram_pattern = dsprintf("%s(%s)",
-                            (type_pattern != NULL)?type_pattern:"void %s",
-                            "%s");
+                        // put name(params) into type_pattern - the returned type can have something after the placeholder
+                        char * subprogram_pattern = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
+                            "%s(%s)");
                         if (type_pattern != NULL) {
                             free(type_pattern);
                         }
@@ -581,10 +580,9 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // append type_pattern with (%s)
-                        char * subroutine_pattern = dsprintf("%s(%s)",
-                            (type_pattern != NULL)?type_pattern:"void %s",
-                            "%s");
+                        // put (%s)(params) into type_pattern - the returned type can have something after the placeholder
+                        char * subroutine_pattern = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
+                            "%s(%s)");
                         if (type_pattern != NULL) {
                             free(type_pattern);
                         }
-- 
2.43.0


From 026b301c9f1c121f5724f65cabb3810f47b1465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:01 +0000
Subject: [PATCH 26/34] fix: don't lose range and precision of long double
 complex in its string

---
 src/value_base_type.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/value_base_type.c b/src/value_base_type.c
index 7ece656..627e367 100644
--- a/src/value_base_type.c
+++ b/src/value_base_type.c
@@ -387,10 +387,10 @@ char *metac_value_base_type_string(metac_value_t * p_val) {
             if (metac_value_##_pseudoname_(p_val, &v) != 0) { \
                 return NULL; \
             } \
-            if (cimag(v) < 0.0) { \
-                return dsprintf( "%lf - I * %lf", creal(v), -1.0 * cimag(v)); \
+            if (cimagl(v) < 0.0) { \
+                return dsprintf( "%Lf - I * %Lf", creall(v), -1.0L * cimagl(v)); \
             } \
-            return dsprintf( "%lf + I * %lf", creal(v), cimag(v)); \
+            return dsprintf( "%Lf + I * %Lf", creall(v), cimagl(v)); \
         } \
     } while(0)
     _string_(float complex, float_complex);
-- 
2.43.0


From be3997823ff0e71772bd12e25f2c40e4a990e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:23 +0000
Subject: [PATCH 27/34] fix: render calls with an empty variable part of the
 parameters

---
 src/value_string.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/value_string.c b/src/value_string.c
index 2844c7c..c3cbc56 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -677,6 +677,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                         } else { // building part of fn call - append value
                             metac_value_delete(p_param_val);
 
+                            if (strcmp(param_out, "") == 0) { /* skip empty results - no unspecified parameters */
+                                free(param_out);
+                                continue;
+                            }
+
                             char *prev_out = out;
                             out = dsprintf("%s%s%s",
                                 prev_out == NULL?"":prev_out, /*must include , at the end */
@@ -703,6 +708,13 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                     }
 
                     if (final_kind == METAC_KND_func_parameter) {
+                        if (out == NULL) { /* no parameters */
+                            out = dsprintf("");
+                            if (out == NULL) {
+                                metac_recursive_iterator_set_state(p_iter, 2); // failure cleanup
+                                continue;
+                            }
+                        }
                         if (metac_entry_is_va_list_parameter(metac_value_entry(p))!=0) { // wrap with VA_LIST()
                             char *prev_out = out;
                             out = dsprintf("VA_LIST(%s)",prev_out);
-- 
2.43.0


From 2d8cc440e5e9ddc51377affe2fca643d269dbc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:23 +0000
Subject: [PATCH 28/34] fix: don't free the already built string twice when a
 variable parameter has no declaration

---
 src/value_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value_string.c b/src/value_string.c
index c3cbc56..d9656a3 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -633,7 +633,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char * param_cdecl = metac_entry_cdecl(metac_value_entry(p_param_val));
                             metac_value_delete(p_param_val);
                             if (param_cdecl == NULL) {
-                                free(out);
+                                free(param_out);
                                 failure = 1;
                                 break;
                             }
@@ -641,7 +641,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char * param_type = dsprintf(param_cdecl, "");
                             free(param_cdecl);
                             if (param_type == NULL) {
-                                free(out);
+                                free(param_out);
                                 failure = 1;
                                 break;
                             }
-- 
2.43.0


From 9359cfead80dea05b29bd103205e7bff6e2d5454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:05 +0000
Subject: [PATCH 29/34] fix: cdecl out of memory: don't crash, leak, free twice
 or lose parts of the declaration

---
 src/entry_cdecl.c | 95 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 69 insertions(+), 26 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 0116cf4..bad06d1 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -53,6 +53,9 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
         return NULL;
     }
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_entry);
+    if (p_iter == NULL) {
+        return NULL;
+    }
 
     for (metac_entry_t * p = (metac_entry_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_entry_t *)metac_recursive_iterator_next(p_iter)) {
@@ -96,6 +99,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                 char * res = dsprintf("%s %%s",p->name);
                 if (res == NULL) {
                     metac_recursive_iterator_fail(p_iter);
+                    continue;
                 }
                 metac_recursive_iterator_done(p_iter, res);
                 continue;
@@ -297,12 +301,16 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             continue;
                         }
                         // otherwise we have anonimous data type and we'll need to identify it by declaration
+                        metac_flag_t failure = 0;
                         for (int i = 0; i < p->structure_type_info.members_count; ++i) {
                             if (p->structure_type_info.members[i].member_info.type != NULL) {
-                                metac_recursive_iterator_create_and_append_dep(p_iter, p->structure_type_info.members[i].member_info.type);
+                                if (metac_recursive_iterator_create_and_append_dep(p_iter, p->structure_type_info.members[i].member_info.type) != 0) {
+                                    failure = 1;
+                                    break;
+                                }
                             }
                         }
-                        metac_recursive_iterator_set_state(p_iter, 1);
+                        metac_recursive_iterator_set_state(p_iter, (failure != 0)?2:1);
                         continue;
                     }
                     case 1: {
@@ -329,6 +337,13 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                     name = dsprintf("%s",
                                         p->structure_type_info.members[i].name);        
                                 }
+                                if (name == NULL) {
+                                    if (type_pattern != NULL) {
+                                        free(type_pattern);
+                                    }
+                                    failure = 1;
+                                    break;
+                                }
                             }
                             // build field out of returned pattern and field name (can be absent)
                             char *field = trim_trailing_spaces(dsprintf((
@@ -352,11 +367,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (res != NULL) {
                                 free(res);
                             }
-                            if (new_res == NULL) {
+                            res = new_res;
+                            if (res == NULL) {
                                 failure = 1;
                                 break;
                             }
-                            res = new_res;
                         }
                         if (failure != 0) {
                             if (res != NULL) {
@@ -396,18 +411,22 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
             case METAC_KND_subprogram: {
                 switch (state) {
                     case METAC_R_ITER_start: {
-                        if (p->subprogram_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.type);// ask to process type on the next level
+                        metac_flag_t failure = 0;
+                        if (p->subprogram_info.type != NULL &&
+                            metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.type) != 0) {// ask to process type on the next level
+                            failure = 1;
                         }
-                        for (int i = 0; i < p->subprogram_info.parameters_count; ++i) {
+                        for (int i = 0; failure == 0 && i < p->subprogram_info.parameters_count; ++i) {
                             if (p->subprogram_info.parameters[i].kind == METAC_KND_func_parameter) {
                                 if (p->subprogram_info.parameters[i].func_parameter_info.unspecified_parameters == 0 &&
                                     p->subprogram_info.parameters[i].func_parameter_info.type != NULL) {
-                                    metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.parameters[i].func_parameter_info.type);
+                                    if (metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.parameters[i].func_parameter_info.type) != 0) {
+                                        failure = 1;
+                                    }
                                 }
                             }
                         }
-                        metac_recursive_iterator_set_state(p_iter, 1);
+                        metac_recursive_iterator_set_state(p_iter, (failure != 0)?2:1);
                         continue;
                     }
                     case 1: {
@@ -416,7 +435,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         if (p->subprogram_info.type != NULL) {
                             type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
                             if (type_pattern == NULL) {
-                                metac_recursive_iterator_fail(p_iter);
+                                metac_recursive_iterator_set_state(p_iter, 2);
                                 continue;
                             }
                         }
@@ -454,11 +473,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                 if (param != NULL) {
                                     free(param);
                                 }
-                                if (new_params == NULL) {
+                                params = new_params;
+                                if (params == NULL) {
                                     failure = 1;
                                     break;
                                 }
-                                params = new_params;
                             }
                         }
                         if (failure != 0){
@@ -468,7 +487,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, 2);
                             continue;
                         }
                         // put name(params) into type_pattern - the returned type can have something after the placeholder
@@ -481,7 +500,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (params != NULL) {
                                 free(params);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, 2);
                             continue;
                         }
                         // put everything into pattern
@@ -495,30 +514,44 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             free(params);
                         }
                         if (res == NULL) {
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, 2);
                             continue;
                         }
                         metac_recursive_iterator_done(p_iter, res);
                         continue;
                     }
+                    case 2: { // fail-cleanup
+                        while(!metac_recursive_iterator_dep_queue_is_empty(p_iter)) {
+                            char * type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
+                            if (type_pattern != NULL){
+                                free(type_pattern);
+                            }
+                        }
+                        metac_recursive_iterator_fail(p_iter);
+                        continue;
+                    }
                 }
             }
             break;
             case METAC_KND_subroutine_type:{
                 switch (state) {
                     case METAC_R_ITER_start: {
-                        if (p->subroutine_type_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.type);// ask to process type on the next level
+                        metac_flag_t failure = 0;
+                        if (p->subroutine_type_info.type != NULL &&
+                            metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.type) != 0) {// ask to process type on the next level
+                            failure = 1;
                         }
-                        for (int i = 0; i < p->subroutine_type_info.parameters_count; ++i) {
+                        for (int i = 0; failure == 0 && i < p->subroutine_type_info.parameters_count; ++i) {
                             if (p->subprogram_info.parameters[i].kind == METAC_KND_func_parameter) {
                                 if (p->subroutine_type_info.parameters[i].func_parameter_info.unspecified_parameters == 0 &&
                                     p->subroutine_type_info.parameters[i].func_parameter_info.type != NULL) {
-                                    metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.parameters[i].func_parameter_info.type);
+                                    if (metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.parameters[i].func_parameter_info.type) != 0) {
+                                        failure = 1;
+                                    }
                                 }
                             }
                         }
-                        metac_recursive_iterator_set_state(p_iter, 1);
+                        metac_recursive_iterator_set_state(p_iter, (failure != 0)?2:1);
                          continue;
                     }
                     case 1: {
@@ -527,7 +560,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         if (p->subroutine_type_info.type != NULL) {
                             type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
                             if (type_pattern == NULL) {
-                                metac_recursive_iterator_fail(p_iter);
+                                metac_recursive_iterator_set_state(p_iter, 2);
                                 continue;
                             }
                         }
@@ -564,11 +597,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (param != NULL) {
                                 free(param);
                             }
-                            if (new_params == NULL) {
+                            params = new_params;
+                            if (params == NULL) {
                                 failure = 1;
                                 break;
                             }
-                            params = new_params;
                         }
                         if (failure != 0) {
                             if (params != NULL) {
@@ -577,7 +610,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, 2);
                             continue;
                         }
                         // put (%s)(params) into type_pattern - the returned type can have something after the placeholder
@@ -590,7 +623,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (params != NULL) {
                                 free(params);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, 2);
                             continue;
                         }
                         // now we can form final result
@@ -602,12 +635,22 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             free(params);
                         }
                         if (res == NULL) {
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, 2);
                             continue;
                         }
                         metac_recursive_iterator_done(p_iter, res);
                         continue;
                     }
+                    case 2: { // fail-cleanup
+                        while(!metac_recursive_iterator_dep_queue_is_empty(p_iter)) {
+                            char * type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
+                            if (type_pattern != NULL){
+                                free(type_pattern);
+                            }
+                        }
+                        metac_recursive_iterator_fail(p_iter);
+                        continue;
+                    }
                 }
             }break;
             default: {
-- 
2.43.0


From 783e924f53933bf1c5d09ed91d088a320b5372c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:53 +0000
Subject: [PATCH 30/34] fix: value strings out of memory: don't crash, leak or
 lose parts of the value

---
 src/value_string.c | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/value_string.c b/src/value_string.c
index d9656a3..9edabce 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -11,7 +11,7 @@ dsprintf_render_with_buf(64)
 #define dsprintf(_x_...) dsprintf64( _x_)
 #endif
 
-static char * _dprintable_string(metac_value_t * p_array_val) {
+static char * _dprintable_string(metac_value_t * p_array_val, metac_flag_t * p_failure) {
     if (p_array_val == NULL || metac_value_has_elements(p_array_val) ==0 ) {
         return NULL;
     }
@@ -78,6 +78,7 @@ static char * _dprintable_string(metac_value_t * p_array_val) {
 
     char * res = calloc(alloc_len, sizeof(char));
     if (res == NULL) {
+        *p_failure = 1;
         return NULL;
     }
     metac_num_t j = 0;
@@ -116,6 +117,9 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
     }
 
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_val);
+    if (p_iter == NULL) {
+        return NULL;
+    }
 
     for (metac_value_t * p = (metac_value_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_value_t *)metac_recursive_iterator_next(p_iter)) {
@@ -238,7 +242,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                 continue;                        
                             }
                             /* try to process everything as array */
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val) != 0) {
+                                metac_value_delete(p_arr_val);
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                             metac_recursive_iterator_set_state(p_iter, 1);
                             continue;
                         }
@@ -326,8 +334,10 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                         metac_recursive_iterator_fail(p_iter);
                                         continue;
                                     }
-                                    if (ev.p_return_value != NULL) {
-                                        metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value);
+                                    if (ev.p_return_value != NULL &&
+                                        metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value) != 0) {
+                                        metac_value_delete(ev.p_return_value);
+                                        failure = 1;
                                     }
                                 }
                             }
@@ -339,7 +349,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                 failure = 1;
                                 break;
                             }
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val) != 0) {
+                                metac_value_delete(p_memb_val);
+                                failure = 1;
+                                break;
+                            }
                         }
                     }
                     if (failure != 0) {
@@ -486,7 +500,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                     }
 
                     // special case - char * with printable symbols and 0 as the last symbol
-                    char * printable_string = _dprintable_string(p_local);
+                    char * printable_string = _dprintable_string(p_local, &failure);
                     if (printable_string != NULL) {
                         char * out = dsprintf("\"%s\"", printable_string);
                         free(printable_string);
@@ -499,16 +513,21 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             metac_recursive_iterator_done(p_iter, out);
                             continue;
                         }
+                        failure = 1;
                     }
 
                     metac_num_t mcount = metac_value_element_count(p_local);
-                    for (metac_num_t i = 0; i < mcount; ++i) {
+                    for (metac_num_t i = 0; failure == 0 && i < mcount; ++i) {
                         metac_value_t * p_el_val = metac_new_value_by_element_id(p_local, i);
                         if (p_el_val == NULL) {
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val) != 0) {
+                            metac_value_delete(p_el_val);
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (p_non_flexible != NULL) {
                         metac_value_delete(p_non_flexible);
@@ -605,7 +624,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val) != 0) {
+                            metac_value_delete(p_param_val);
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (failure != 0) {
                         metac_recursive_iterator_set_state(p_iter, 2);  /* failure cleanup */
-- 
2.43.0


From c217241e3fa0ca2165713a2fc14691252ed1a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:23 +0000
Subject: [PATCH 31/34] fix: deep operations out of memory: don't crash, leak
 or lose parts of the value

---
 src/iterator.c   |   3 +
 src/value_deep.c | 163 +++++++++++++++++++++++++++++------------------
 2 files changed, 104 insertions(+), 62 deletions(-)

diff --git a/src/iterator.c b/src/iterator.c
index 2cc0ae8..9739fb5 100644
--- a/src/iterator.c
+++ b/src/iterator.c
@@ -85,6 +85,9 @@ metac_recursive_iterator_t * metac_new_recursive_iterator(void * p_in) {
 }
 
 void metac_recursive_iterator_free(metac_recursive_iterator_t * p_iterator) {
+    if (p_iterator == NULL) {
+        return;
+    }
     metac_cleanup_recursive_iterator_entry(&p_iterator->recursive_iterator_entry);
     free(p_iterator);
 }
diff --git a/src/value_deep.c b/src/value_deep.c
index ae19824..f3b8f0d 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -174,41 +174,28 @@ void metac_memory_entry_delete(struct metac_memory_entry * p_memory_entry) {
     if (p_memory_entry == NULL) {
         return;
     }
-    metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_memory_entry);
-    for (struct metac_memory_entry * p = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter); p != NULL;
-        p = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter)) {
-        int state = metac_recursive_iterator_get_state(p_iter);
-        switch (state) {
-            case METAC_R_ITER_start: {
-                if (p->p_val != NULL) {
-                    metac_value_delete(p->p_val);
-                }
-                if (p->children_count == 0) {
-                    assert(p->pp_children == NULL);
-                    free(p);
-                    metac_recursive_iterator_done(p_iter, NULL);
-                    continue;
-                }
-                for (metac_num_t i = 0; i < p->children_count; ++i) {
-                    if (p->pp_children[i] != NULL) {
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
-                    }
-                }
-                metac_recursive_iterator_set_state(p_iter, 1);
-                continue;
-            }
-            case 1: {
-                while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
-                    metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
-                }
-                free(p->pp_children);
-                free(p);
-                metac_recursive_iterator_done(p_iter, NULL);
-                continue;
+    /* this is used when we're out of memory, so it doesn't need any: children first, parents know what is left */
+    struct metac_memory_entry * p = p_memory_entry;
+    while (p != NULL) {
+        if (p->children_count > 0) {
+            --p->children_count;
+            struct metac_memory_entry * p_child = p->pp_children[p->children_count];
+            if (p_child != NULL) {
+                assert(p_child->p_parent == p);
+                p = p_child;
             }
+            continue;
+        }
+        struct metac_memory_entry * p_next = (p == p_memory_entry)?NULL:p->p_parent;
+        if (p->p_val != NULL) {
+            metac_value_delete(p->p_val);
+        }
+        if (p->pp_children != NULL) {
+            free(p->pp_children);
         }
+        free(p);
+        p = p_next;
     }
-    metac_recursive_iterator_free(p_iter);
 }
 
 static int addr_ptr_key_hash(void* key) {
@@ -306,7 +293,7 @@ static int _identify_allocatable_entries(struct metac_memory_map * p_map) {
         }
         if (p_main + p_main_entry->byte_size < p_current + p_current_entry->byte_size) {
             /* partial overlap - it's the same block, its size is what both of them cover */
-            p_main_entry->byte_size = p_current + p_current_entry->byte_size - p_main;
+            p_main_entry->byte_size = (p_current - p_main) + p_current_entry->byte_size;
         }
         p_current_entry->offset_from_allocate_base = p_current - p_main;
     }
@@ -346,12 +333,14 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
 
     struct metac_memory_map *p_map = calloc(1, sizeof(*p_map));
     if (p_map == NULL) {
+        metac_value_delete(p_val);
         return NULL;
     }
     if (p_map_mode->memory_block_mode == METAC_MMODE_dag) {
         p_map->p_addr_ptr_val_to_memory_entry = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
         if (p_map->p_addr_ptr_val_to_memory_entry == NULL) {
             free(p_map);
+            metac_value_delete(p_val);
             return NULL;
         }
     }
@@ -413,7 +402,11 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                             continue;
                                         }
                                         if (ev.p_return_value != NULL) {
-                                            metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value);
+                                            if (metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value) != 0) {
+                                                metac_value_delete(ev.p_return_value);
+                                                metac_recursive_iterator_fail(p_iter);
+                                                continue;
+                                            }
                                             children_count = 1;
                                         }
                                     }
@@ -430,7 +423,11 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                     failure = 1;
                                     break;
                                 }
-                                metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val);
+                                if (metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val) != 0) {
+                                    metac_value_delete(p_memb_val);
+                                    failure = 1;
+                                    break;
+                                }
                                 ++children_count;
                             }
                         }
@@ -486,7 +483,11 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 failure = 1;
                                 break;
                             }
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val) != 0) {
+                                metac_value_delete(p_el_val);
+                                failure = 1;
+                                break;
+                            }
                             ++children_count;
                         }
 
@@ -692,12 +693,20 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                         continue;                        
                     }
                     /* finally we have p_arr_val which will be the child */
-                    metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val);
                     struct metac_memory_entry * p_memory_entry = metac_new_memory_entry(p, sz, 1);
                     if (p_memory_entry == NULL) {
+                        metac_value_delete(p_arr_val);
                         metac_recursive_iterator_fail(p_iter);
                         continue;                 
                     }
+                    if (metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val) != 0) {
+                        metac_value_delete(p_arr_val);
+                        // p_in stil must exist if we fail
+                        p_memory_entry->p_val = NULL;
+                        _failed_memory_entry_delete(p_map, p_memory_entry);
+                        metac_recursive_iterator_fail(p_iter);
+                        continue;
+                    }
 
                     metac_recursive_iterator_set_context(p_iter, p_memory_entry);
                     metac_recursive_iterator_set_state(p_iter, 1);
@@ -783,7 +792,11 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val) != 0) {
+                            metac_value_delete(p_param_val);
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (failure != 0) {
                         metac_recursive_iterator_set_state(p_iter, 2);  /* failure cleanup */
@@ -964,7 +977,7 @@ static bool _value_copy_preallocate(void* key, void* value, void* context) {
             return false;
         }
         if (hashmapPut(p_context->src_to_dst, key, dst, NULL) != 0) {
-            free(dst);
+            p_context->free_fn(dst);
             p_context->preallocation_failed = 1;
             return false;
         }
@@ -987,6 +1000,19 @@ static bool _value_copy_free(void* key, void* value, void* context) {
     return true;
 }
 
+/* ask to copy the child to the value in its private_data. returns 0 in case of success */
+static int _value_copy_append_child(metac_recursive_iterator_t * p_iter, struct metac_memory_entry * p_child) {
+    if (p_child->private_data == NULL) {
+        return -(ENOMEM);
+    }
+    if (metac_recursive_iterator_create_and_append_dep(p_iter, p_child) != 0) {
+        metac_value_delete((metac_value_t*)p_child->private_data);
+        p_child->private_data = NULL;
+        return -(ENOMEM);
+    }
+    return 0;
+}
+
 /* copy src to dst (with rewriting data), be careful, dst must have enough space.
 don't use flexibe array. instead make val as a ptr to that flexible array so 
 the function will create a pointer and create a deep copy for everything it points to.
@@ -1052,13 +1078,14 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
         return NULL;
     }
 
+    /* all allocated blocks, in tree mode the key is the block itself */
+    context.src_to_dst = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
+    if (context.src_to_dst == NULL) {
+        metac_value_memory_map_delete(context.p_map);
+        return NULL;   
+    }
     if (p_mode->memory_block_mode != METAC_MMODE_tree) {
         /* preparations are needed for that mode - we need to allocate memory for all allocatable blocks */
-        context.src_to_dst = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
-        if (context.src_to_dst == NULL) {
-            metac_value_memory_map_delete(context.p_map);
-            return NULL;   
-        }
         hashmapForEach(context.p_map->p_addr_ptr_val_to_memory_entry, _value_copy_preallocate, &context);
 
         if (context.preallocation_failed != 0) {
@@ -1079,6 +1106,7 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
         int state = metac_recursive_iterator_get_state(p_iter);
         switch (state) {
             case METAC_R_ITER_start: {
+                metac_flag_t failure = 0;
                 void * p_dst_children_addr_override = NULL;
                 if (metac_value_is_pointer(p->p_val)) {
                     assert(p->children_count <= 1);
@@ -1100,6 +1128,11 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                     metac_recursive_iterator_fail(p_iter);
                                     continue;
                                 }
+                                if (hashmapPut(context.src_to_dst, p_dst_children_addr_override, p_dst_children_addr_override, NULL) != 0) {
+                                    free_fn(p_dst_children_addr_override);
+                                    metac_recursive_iterator_fail(p_iter);
+                                    continue;
+                                }
                                 break;
                             case METAC_MMODE_dag:
                             default:
@@ -1209,10 +1242,13 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                     for (metac_num_t i = 0; i < p->children_count; ++i) {
                         if (p->pp_children[i] != NULL) {
                             p->pp_children[i]->private_data = metac_parameter_storage_new_param_value(p_dst_param_storage, i);
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
+                            if (_value_copy_append_child(p_iter, p->pp_children[i]) != 0) {
+                                failure = 1;
+                                break;
+                            }
                         }
                     }
-                    metac_recursive_iterator_set_state(p_iter, 1);
+                    metac_recursive_iterator_set_state(p_iter, (failure != 0)?2:1);
                     continue;
                 }
                 /* complex types will be covered here: */
@@ -1224,14 +1260,19 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                             metac_size_t delta = metac_value_addr(p->pp_children[i]->p_val) - metac_value_addr(p->p_val);
                             p->pp_children[i]->private_data = metac_new_value(metac_value_entry(p->pp_children[i]->p_val), metac_value_addr(p_dst_val) + delta);
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
+                        if (_value_copy_append_child(p_iter, p->pp_children[i]) != 0) {
+                            failure = 1;
+                            break;
+                        }
                     }
                 }
-                metac_recursive_iterator_set_state(p_iter, 1);
+                metac_recursive_iterator_set_state(p_iter, (failure != 0)?2:1);
                 continue;
             }
-            case 1: {
-                int gfail = 0;
+            case 1:
+            case 2: /* not all children were appended */
+            default: {
+                int gfail = (state != 1);
                 while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                     int fail = 0;
                     struct metac_memory_entry *p_children = NULL;
@@ -1240,13 +1281,6 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                         gfail = 1;
                     }
                     if (p_children != NULL && p_children->private_data != NULL) {
-                        if (fail != 0 && metac_value_is_pointer(p->p_val) && p_mode->memory_block_mode == METAC_MMODE_tree) {
-                            /*need to free memory in that case */
-                            assert(p->children_count == 1);
-                            void * p_dst_children_addr_override = metac_value_addr((metac_value_t*)p_children->private_data);
-                            assert(p_dst_children_addr_override != NULL);
-                            free (p_dst_children_addr_override);
-                        }
                         metac_value_delete((metac_value_t*)p_children->private_data);
                         p_children->private_data = NULL;
                     }
@@ -1260,7 +1294,7 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
             }
         }
     }
-    int fail = 0;
+    int fail = 1; /* no iterator - no result */
     metac_recursive_iterator_get_out(p_iter, NULL, &fail);
     metac_recursive_iterator_free(p_iter);
 
@@ -1316,6 +1350,7 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
         int state = metac_recursive_iterator_get_state(p_iter);
         switch (state) {
             case METAC_R_ITER_start: {
+                metac_flag_t failure = 0;
                 if (p1->byte_size != p2->byte_size ||
                     p1->children_count != p2->children_count ||
                     p1->loop_level != p2->loop_level ||
@@ -1382,16 +1417,20 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
                     assert(p1->pp_children[i] != NULL && p2->pp_children[i] != NULL);
                     if (p1->pp_children[i] != NULL && p2->pp_children[i] != NULL) {
                         p1->pp_children[i]->private_data = p2->pp_children[i];
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p1->pp_children[i]);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p1->pp_children[i]) != 0) {
+                            failure = 1;
+                            break;
+                        }
                     }
                 }
-                metac_recursive_iterator_set_state(p_iter, 1);
+                metac_recursive_iterator_set_state(p_iter, (failure != 0)?2:1);
                 continue;
 
             }
             case 1:
+            case 2: /* not all children were appended */
             default: {
-                int gfail = 0;
+                int gfail = (state != 1);
                 while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                     int fail = 0;
                     struct metac_memory_entry *p1_children = NULL;
@@ -1414,7 +1453,7 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
 
         }
     }
-    int fail = 0;
+    int fail = 1; /* no iterator - no result */
     metac_recursive_iterator_get_out(p_iter, NULL, &fail);
     metac_recursive_iterator_free(p_iter);
 
-- 
2.43.0


From d2697414ac6b0bb999b91b1eae316f1c5eb124d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:50 +0000
Subject: [PATCH 32/34] fix: deep copy of calls with variable parameters was
 always refused

---
 src/value_deep.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index f3b8f0d..1ae50e9 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1229,15 +1229,17 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                 } else if (metac_value_has_parameter_load(p->p_val)) {
                     metac_parameter_storage_t * p_param_storage = (metac_parameter_storage_t *)metac_value_addr(p->p_val);
                     metac_parameter_storage_t * p_dst_param_storage = (metac_parameter_storage_t *)metac_value_addr(p_dst_val);
-                    if (metac_parameter_storage_size(p_dst_param_storage) > 0) {
-                        // can't copy to non-empty (TODO: btw maybe it will be interesting feature later?)
-                        metac_recursive_iterator_fail(p_iter);
-                        continue;
-                    }
-                    if (metac_parameter_storage_copy(p_param_storage, p_dst_param_storage) !=0) {
-                        metac_recursive_iterator_fail(p_iter);
-                        continue;   
-                    }
+                    if (p->p_parent == NULL || metac_value_has_parameter_load(p->p_parent->p_val) == 0) {
+                        if (metac_parameter_storage_size(p_dst_param_storage) > 0) {
+                            // can't copy to non-empty (TODO: btw maybe it will be interesting feature later?)
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
+                        }
+                        if (metac_parameter_storage_copy(p_param_storage, p_dst_param_storage) !=0) {
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;   
+                        }
+                    } // else it's the variable part of parameters - the copy of the parent's storage includes it
 
                     for (metac_num_t i = 0; i < p->children_count; ++i) {
                         if (p->pp_children[i] != NULL) {
-- 
2.43.0


From 4c9f2909e7778b451f5fcaca0918b72cc2a05028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:17 +0000
Subject: [PATCH 33/34] fix: capturing parameters out of memory: report it,
 don't need memory to recognize va_list

---
 src/entry.c           | 20 ++++++++++++--------
 src/value_with_args.c |  2 +-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/entry.c b/src/entry.c
index 362a2cb..e2388bf 100644
--- a/src/entry.c
+++ b/src/entry.c
@@ -641,15 +641,19 @@ metac_flag_t metac_entry_is_va_list_parameter(metac_entry_t * p_entry) {
     _check_(metac_entry_kind(p_entry) != METAC_KND_func_parameter, 0);
     _check_(p_entry->func_parameter_info.unspecified_parameters != 0, 0);
     
-    char * cdecl = metac_entry_cdecl(p_entry->func_parameter_info.type);
-    _check_(cdecl == NULL, 0);
-    int cmp_res = strcmp(cdecl, "va_list %s");
-    if (cmp_res != 0) { // linux
-        cmp_res = strcmp(cdecl, "struct __va_list_tag * %s");
+    metac_entry_t * p_type = p_entry->func_parameter_info.type;
+    _check_(p_type == NULL, 0);
+    switch (p_type->kind) { // this must not depend on memory, so don't build cdecl
+        case METAC_KND_typedef:
+        case METAC_KND_base_type: // va_list
+            return p_type->name != NULL && strcmp(p_type->name, "va_list") == 0;
+        case METAC_KND_pointer_type: // linux: struct __va_list_tag *
+            p_type = p_type->pointer_type_info.type;
+            return p_type != NULL &&
+                p_type->kind == METAC_KND_struct_type &&
+                p_type->name != NULL && strcmp(p_type->name, "__va_list_tag") == 0;
     }
-    free(cdecl);
-
-    return (cmp_res == 0);
+    return 0;
 }
 
 metac_entry_t * metac_entry_parameter_entry(metac_entry_t *p_entry) {
diff --git a/src/value_with_args.c b/src/value_with_args.c
index c3abeec..6a9ebd8 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -470,7 +470,7 @@ static metac_value_t * _value_parameter_wrap(metac_value_t * p_val, metac_tag_ma
         }
     }
     // check iterator result
-    int failed = 0;
+    int failed = 1; // if there is no iterator
     metac_recursive_iterator_get_out(p_iter, NULL, &failed);
     if (failed != 0) {
         metac_value_delete(p_val);
-- 
2.43.0


From 3b946993eeacd09c00803df31f7627b3a84eef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:59 +0000
Subject: [PATCH 34/34] fix: tag handlers out of memory: report it, don't
 crash, leak or select nothing

---
 src/entry_tag.c | 66 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 7281e1e..44dd546 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -379,6 +379,29 @@ void metac_count_by_context_delete(void *p_context) {
     free(p_cnxt);
 }
 
+/* returns p_val as array of count elements. values that can't be seen as array are left without result */
+static int _return_element_count_value(metac_value_event_t * p_ev, metac_value_t *p_val, metac_num_t count) {
+    p_ev->p_return_value = metac_new_element_count_value(p_val, count);
+    if (p_ev->p_return_value == NULL) {
+        void * p = NULL;
+        if (metac_value_has_elements(p_val) == 0 && (
+            metac_value_pointer(p_val, &p) != 0 || p == NULL ||
+            metac_value_is_void_pointer(p_val) != 0 || metac_value_is_declaration_pointer(p_val) != 0)) {
+            return 0;
+        }
+        return -(ENOMEM);
+    }
+    return 0;
+}
+
+static int _return_member_value(metac_value_event_t * p_ev, metac_value_t *p_val, metac_num_t member_id) {
+    p_ev->p_return_value = metac_new_value_by_member_id(p_val, member_id);
+    if (p_ev->p_return_value == NULL && member_id >= 0 && member_id < metac_value_member_count(p_val)) {
+        return -(ENOMEM);
+    }
+    return 0;
+}
+
 int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_value_event_t * p_ev, void *p_context) {
     if (p_ev == NULL) {
         return -(EINVAL);
@@ -402,6 +425,9 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
         if (metac_value_has_members(p_parent_val) != 0) {
             for (metac_num_t i = 0; i < metac_value_member_count(p_parent_val); ++i) {
                 metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);
+                if (p_sibling_val == NULL) {
+                    return -(ENOMEM);
+                }
                 if (metac_value_name(p_sibling_val) == NULL ||
                     strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                     metac_value_delete(p_sibling_val);
@@ -413,12 +439,14 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                     return -(EFAULT);
                 }
                 metac_value_delete(p_sibling_val);
-                p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);
-                return 0;
+                return _return_element_count_value(p_ev, p_val, content_len);
             }
         } else if (metac_value_has_parameter_load(p_parent_val) != 0) {
             for (metac_num_t i = 0; i < metac_value_parameter_count(p_parent_val); ++i) {
                 metac_value_t *p_sibling_val = metac_value_parameter_new_item(p_parent_val, i);
+                if (p_sibling_val == NULL) {
+                    return -(ENOMEM);
+                }
                 if (metac_value_name(p_sibling_val) == NULL ||
                     strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                     metac_value_delete(p_sibling_val);
@@ -430,8 +458,7 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                     return -(EFAULT);
                 }
                 metac_value_delete(p_sibling_val);
-                p_ev->p_return_value = metac_new_element_count_value(p_val, content_len);
-                return 0;
+                return _return_element_count_value(p_ev, p_val, content_len);
             }
         } else {
             return -(EFAULT);
@@ -468,8 +495,7 @@ int metac_handle_zero_ended_string(metac_value_walker_hierarchy_t *p_hierarchy,
             return -(EFAULT); /* shouldn't be here*/
         }
         metac_num_t content_len = strlen(ptr) + 1;
-        p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);
-        return 0;
+        return _return_element_count_value(p_ev, p_val, content_len);
     }    
     return 0;
 }
@@ -511,9 +537,9 @@ int metac_handle_container_of(metac_value_walker_hierarchy_t *p_hierarchy, metac
             if (p_container_ptr_val == NULL) {
                 return -(ENOMEM);
             }
-            p_ev->p_return_value = metac_new_element_count_value(p_container_ptr_val, 1);
+            int res = _return_element_count_value(p_ev, p_container_ptr_val, 1);
             metac_value_delete(p_container_ptr_val);
-            return 0;
+            return res;
         }
     }
     return 0;
@@ -608,6 +634,9 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
 
                 for (metac_num_t i = 0; i < metac_value_member_count(p_parent_val); ++i) {
                     metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);
+                    if (p_sibling_val == NULL) {
+                        return -(ENOMEM);
+                    }
                     if (metac_value_name(p_sibling_val) == NULL ||
                         strcmp(metac_value_name(p_sibling_val),p_cnxt->sibling_selector_fieldname) !=0 ) {
                         metac_value_delete(p_sibling_val);
@@ -641,8 +670,7 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
                             return -(ENOENT);
                         }
                     }
-                    p_ev->p_return_value = metac_new_value_by_member_id(p_val, id);
-                    return 0;
+                    return _return_member_value(p_ev, p_val, id);
                 }
             }
             break;
@@ -652,8 +680,7 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
                     metac_value_has_members(p_val) == 0) {
                     return -(EINVAL);
                 }
-                p_ev->p_return_value = metac_new_value_by_member_id(p_val, p_cnxt->permanent_id);
-                return 0;
+                return _return_member_value(p_ev, p_val, p_cnxt->permanent_id);
             }
             break;
         }
@@ -757,6 +784,9 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
             return -(EINVAL);
         }
         metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, type_id);
+        if (p_sibling_val == NULL) {
+            return -(ENOMEM);
+        }
         if (metac_value_num(p_sibling_val, &content_type) != 0) {
             metac_value_delete(p_sibling_val);
             return -(EINVAL);
@@ -771,6 +801,9 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
             }
 
             metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, count_id);
+            if (p_sibling_val == NULL) {
+                return -(ENOMEM);
+            }
             if (metac_value_num(p_sibling_val, &content_count) != 0) {
                 metac_value_delete(p_sibling_val);
                 return -(EINVAL);
@@ -787,9 +820,9 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                 if (p_cast_ptr_val == NULL) {
                     return -(ENOMEM);
                 }
-                p_ev->p_return_value = metac_new_element_count_value(p_cast_ptr_val, content_count);
+                int res = _return_element_count_value(p_ev, p_cast_ptr_val, content_count);
                 metac_value_delete(p_cast_ptr_val);
-                return 0;
+                return res;
             }
         }
     }
@@ -809,11 +842,12 @@ int metac_handle_printf_format(metac_value_walker_hierarchy_t *p_hierarchy, meta
     metac_entry_t *p_va_list_entry = metac_entry_by_paremeter_id(metac_value_entry(p_val), p_ev->va_list_param_id);
     metac_value_t *p_param_val = metac_value_parameter_new_item(p_val, p_ev->va_list_param_id -1 /* use previous param */);
 
-    if (p_va_list_entry == NULL) {
+    if (p_param_val == NULL) {
         return -(EINVAL);
     }
 
-    if (p_param_val == NULL) {
+    if (p_va_list_entry == NULL) {
+        metac_value_delete(p_param_val);
         return -(EINVAL);
     }
 
-- 
2.43.0

