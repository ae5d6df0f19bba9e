From b55dacc3aec1d11c439e29cd271d55a821a92e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 01/35] fix: sign extend signed fields at any position, width
 and byte order

---
 bondrewd-derive/src/structs/from_bytes.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index fff43b5..d216abf 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -729,7 +729,7 @@ fn apply_le_math_to_field_access_quote(
         // };
         let size = field.ty.size();
         let new_array_quote =
-            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)? {
+            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)? {
                 a
             } else {
                 quote! {[0u8;#size]}
@@ -932,7 +932,7 @@ fn apply_le_math_to_field_access_quote(
                     value = quote!{
                         {
                             #value
-                            #field_buffer_name as #ident
+                            #field_buffer_name as i8 as #ident
                         }
                     };
                     value
@@ -1307,7 +1307,7 @@ fn apply_be_math_to_field_access_quote(
                     value = quote!{
                         {
                             #value
-                            #field_buffer_name as #ident
+                            #field_buffer_name as i8 as #ident
                         }
                     };
                     value
@@ -1344,7 +1344,7 @@ fn build_number_quote(
     available_bits_in_first_byte: usize,
     flip: Option<usize>,
 ) -> syn::Result<TokenStream> {
-    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)?
+    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)?
     {
         a
     } else {
@@ -1527,6 +1527,7 @@ fn add_sign_fix_quote(
     field: &FieldInfo,
     amount_of_bits: &usize,
     right_shift: &i8,
+    flip: Option<usize>,
 ) -> syn::Result<Option<TokenStream>> {
     if let FieldDataType::Number(ref size, ref sign, _) = field.ty {
         if *amount_of_bits != *size * 8 {
@@ -1537,13 +1538,18 @@ fn add_sign_fix_quote(
                         field.attrs.bit_range.start / 8,
                     ),
                     Endianness::Little => {
-                        let skip_bytes = (amount_of_bits / 8) * 8;
+                        let skip_bytes = ((amount_of_bits - 1) / 8) * 8;
                         let sign_bit_index = field.attrs.bit_range.start + skip_bytes;
                         // TODO fix bit isolators to fix signed numbers.
                         (sign_bit_index % 8, sign_bit_index / 8)
                     }
                     Endianness::None => return Ok(None),
                 };
+                let sign_index = if let Some(flip) = flip {
+                    flip - sign_index
+                } else {
+                    sign_index
+                };
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
                 let sign_bit = quote! {
                     (input_byte_buffer[#sign_index] & #sign_mask)
@@ -1627,7 +1633,7 @@ fn add_sign_fix_quote_single_bit(
             if let NumberSignage::Signed = sign {
                 let bit_to_isolate = field.attrs.bit_range.start % 8;
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
-                let neg_mask = get_left_and_mask(bit_to_isolate + 1);
+                let neg_mask = get_left_and_mask(8 - amount_of_bits);
                 let sign_bit = quote! {
                     (input_byte_buffer[#byte_index] & #sign_mask)
                 };
-- 
2.43.0


From a42d7b1b9bd19a7125d771d36bee95bdd270f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 02/35] fix: read the last byte of little endian fields in
 reversed structs

---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index d216abf..b73b954 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -793,7 +793,7 @@ fn apply_le_math_to_field_access_quote(
                 full_quote = quote! {
                     #full_quote
                     #field_buffer_name[#i] |= input_byte_buffer[#start] & #current_bit_mask;
-                    #field_buffer_name[#i] |= input_byte_buffer[#start + 1] & #last_bit_mask;
+                    #field_buffer_name[#i] |= input_byte_buffer[#start #operator 1] & #last_bit_mask;
                 };
             } else {
                 let mut last_mask = first_bit_mask;
-- 
2.43.0


From 0a7567e36102c090cb1b338d7fa5369aa918d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:29 +0000
Subject: [PATCH 03/35] fix: clear exactly a field's own bits before writing it

---
 bondrewd-derive/src/structs/into_bytes.rs | 69 ++++++++---------------
 1 file changed, 22 insertions(+), 47 deletions(-)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 103643a..8b13c3e 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -551,6 +551,26 @@ fn get_field_quote(
         Endianness::None => apply_ne_math_to_field_access_quote(field, quote_field_name, flip),
     }
 }
+/// a quote that sets every bit of `field`, and no other bit of the buffer, to 0.
+fn get_clear_quote(field: &FieldInfo, flip: Option<usize>) -> proc_macro2::TokenStream {
+    let bit_range = &field.attrs.bit_range;
+    let mut clear_quote = quote! {};
+    for byte in bit_range.start / 8..(bit_range.end + 7) / 8 {
+        let first_bit = bit_range.start.saturating_sub(byte * 8);
+        let last_bit = std::cmp::min(bit_range.end - byte * 8, 8);
+        let not_mask = !(get_right_and_mask(8 - first_bit) & get_left_and_mask(last_bit));
+        let index = if let Some(flip) = flip {
+            flip - byte
+        } else {
+            byte
+        };
+        clear_quote = quote! {
+            #clear_quote
+            output_byte_buffer[#index] &= #not_mask;
+        };
+    }
+    clear_quote
+}
 // first token stream is actual setter, but second one is overwrite current bits to 0.
 fn apply_le_math_to_field_access_quote(
     field: &FieldInfo,
@@ -651,28 +671,18 @@ fn apply_le_math_to_field_access_quote(
         let mid_shift: u32 = 8 - available_bits_in_first_byte as u32;
         let next_bit_mask = get_left_and_mask(mid_shift as usize);
         let mut i = 0;
-        let mut clear_quote = quote! {};
         while i != fields_last_bits_index {
             let start = if flip.is_none() {
                 starting_inject_byte + i
             } else {
                 starting_inject_byte - i
             };
-            let not_current_bit_mask = !current_bit_mask;
             if available_bits_in_first_byte == 0 && right_shift == 0 {
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #current_bit_mask;
                 };
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_current_bit_mask;
-                };
             } else {
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_current_bit_mask;
-                };
                 if mid_shift != 0 {
                     full_quote = quote! {
                         #full_quote
@@ -716,18 +726,11 @@ fn apply_le_math_to_field_access_quote(
                 starting_inject_byte - i
             };
             let right_shift: u32 = right_shift as u32;
-            // let not_first_bit_mask = !first_bit_mask;
-            // let not_last_bit_mask = !last_bit_mask;
-
             full_quote = quote! {
                 #full_quote
                 #field_buffer_name[#i] = #field_buffer_name[#i].rotate_right(#right_shift);
             };
             if used_bits < amount_of_bits {
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= 0;
-                };
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #first_bit_mask;
@@ -738,11 +741,6 @@ fn apply_le_math_to_field_access_quote(
                 if amount_of_bits <= used_bits {
                     last_mask &= !get_right_and_mask(used_bits - amount_of_bits);
                 }
-                let not_last_mask = !last_mask;
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_last_mask;
-                };
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #last_mask;
@@ -760,11 +758,6 @@ fn apply_le_math_to_field_access_quote(
             if amount_of_bits <= used_bits {
                 last_mask &= !get_right_and_mask(used_bits - amount_of_bits);
             }
-            let not_last_mask = !last_mask;
-            clear_quote = quote! {
-                #clear_quote
-                output_byte_buffer[#start] &= #not_last_mask;
-            };
             let mut finalize = quote! {#field_buffer_name[#i]};
             if left_shift != 0 && left_shift != 8 {
                 finalize = quote! {(#finalize.rotate_left(#left_shift))};
@@ -780,7 +773,7 @@ fn apply_le_math_to_field_access_quote(
             }
         }
 
-        Ok((full_quote, clear_quote))
+        Ok((full_quote, get_clear_quote(field, flip)))
     } else {
         // TODO make multi-byte values that for some reason use less then 9 bits work in here.
         // currently only u8 and i8 fields will work here. verify bool works it might.
@@ -902,7 +895,6 @@ fn apply_ne_math_to_field_access_quote(
             }
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_ne_math_to_field_access_quote, which is bad."))
         };
-        let mut clear_quote = quote! {};
         let mut full_quote = quote! {
             #field_byte_buffer;
         };
@@ -921,12 +913,6 @@ fn apply_ne_math_to_field_access_quote(
                     } else {
                         starting_inject_byte - i
                     };
-                    let not_current_bit_mask = !current_bit_mask;
-                    let not_next_bit_mask = !next_bit_mask;
-                    clear_quote = quote! {
-                        #clear_quote
-                        output_byte_buffer[#start] &= #not_current_bit_mask;
-                    };
                     full_quote = quote! {
                         #full_quote
                         #field_buffer_name[#i] = #field_buffer_name[#i].rotate_right(#right_shift);
@@ -934,12 +920,6 @@ fn apply_ne_math_to_field_access_quote(
                     };
 
                     if available_bits_in_first_byte + (8 * i) < amount_of_bits {
-                        if not_next_bit_mask != u8::MAX {
-                            clear_quote = quote! {
-                                #clear_quote
-                                output_byte_buffer[#start #operator 1] &= #not_next_bit_mask;//test
-                            };
-                        }
                         if next_bit_mask != 0 {
                             full_quote = quote! {
                                 #full_quote
@@ -984,11 +964,6 @@ fn apply_ne_math_to_field_access_quote(
                     } else {
                         starting_inject_byte - i
                     };
-                    let not_current_bit_mask = !current_bit_mask;
-                    clear_quote = quote! {
-                        #clear_quote
-                        output_byte_buffer[#start] &= #not_current_bit_mask;
-                    };
                     if i == 0 {
                         if current_bit_mask == u8::MAX {
                             full_quote = quote! {
@@ -1010,7 +985,7 @@ fn apply_ne_math_to_field_access_quote(
                 }
             }
         }
-        Ok((full_quote, clear_quote))
+        Ok((full_quote, get_clear_quote(field, flip)))
     } else {
         // TODO make multi-byte values that for some reason use less then 9 bits work in here.
         // currently only u8 and i8 fields will work here. verify bool works it might.
-- 
2.43.0


From 9cef62f347808b3a280dbcf2ba090520ae314ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 04/35] fix: enum ids whose type is wider than their bytes

---
 bondrewd-derive/src/structs/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 7d03b19..dae4896 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1096,7 +1096,7 @@ impl EnumInfo {
         Ok(FieldInfo {
             ident: Box::new(format_ident!("{}", EnumInfo::VARIANT_ID_NAME).into()),
             ty: FieldDataType::Number(
-                (self.attrs.id_bits as f64 / 8.0f64).ceil() as usize,
+                ((self.attrs.id_bits as f64 / 8.0f64).ceil() as usize).next_power_of_two(),
                 NumberSignage::Unsigned,
                 self.id_ident()?,
             ),
-- 
2.43.0


From 0bcf430db3ea2c8a114fd4927bc8c512e72a40ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:34 +0000
Subject: [PATCH 05/35] fix: reverse the bytes of an enum's id with those of
 its variants

---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 bondrewd-derive/src/structs/into_bytes.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index b73b954..c806c76 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -213,7 +213,7 @@ pub fn create_from_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
+                let flip = info.attrs.attrs.flip;
                 let field_extractor = get_field_quote(
                     &field,
                     if flip {
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 8b13c3e..96611a2 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -144,7 +144,7 @@ pub fn create_into_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
+                let flip = info.attrs.attrs.flip;
                 let (field_quote, clear_quote) = get_field_quote(
                     &field,
                     if flip {
-- 
2.43.0


From 233927f3f026197a374ef6b4d7eaa7fbb38bcda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 06/35] fix: BitfieldEnum variants capturing the primitive in a
 named field

---
 bondrewd-derive/src/enums/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/from_bytes.rs b/bondrewd-derive/src/enums/from_bytes.rs
index 417ce1c..b3e5e2a 100644
--- a/bondrewd-derive/src/enums/from_bytes.rs
+++ b/bondrewd-derive/src/enums/from_bytes.rs
@@ -19,7 +19,7 @@ pub fn generate_from_bytes(enum_info: &EnumInfo) -> syn::Result<proc_macro2::Tok
             EnumVariantType::CatchPrimitive(ref field_name) => {
                 if let Some(ref field_name) = field_name {
                     quote! {
-                        _ => Self::#name { #field_name = input },
+                        _ => Self::#name { #field_name: input },
                     }
                 } else {
                     quote! {
-- 
2.43.0


From f049124a5dc19f349ec924bb51ddd34ea52547b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 07/35] fix: BitfieldEnum variant marked invalid takes the
 lowest unused value

---
 bondrewd-derive/src/enums/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 3c3a8bf..b0b369a 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -409,9 +409,9 @@ impl EnumInfo {
                                     return Err(syn::Error::new(var.ident.span(), "Literal Values conflict"));
                                 }
                             }else{
-                                literal_variants.insert(i, EnumVariant{
+                                unknown_variants.push_back(EnumVariantBuilder{
                                     name: var.ident.clone(),
-                                    value: EnumVariantType::Skip(Literal::usize_unsuffixed(i)),
+                                    value: EnumVariantBuilderType::Skip,
                                 });
                             }
                         } else if let Some((_, ref discriminant)) = var.discriminant {
-- 
2.43.0


From 853181c22517753cfbb8fd4f166772158ef35cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 08/35] fix: enum_primitive wider than u8 stored within a
 single byte

---
 bondrewd-derive/src/structs/into_bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 96611a2..beab484 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -828,7 +828,7 @@ fn apply_le_math_to_field_access_quote(
             FieldDataType::Boolean => {
                 quote!{(#field_access_quote as u8)}
             }
-            FieldDataType::Enum(_, _, _) => field_access_quote,
+            FieldDataType::Enum(_, _, _) => quote!{(#field_access_quote as u8)},
             FieldDataType::Struct(_, _) => return Err(syn::Error::new(field.ident.span(), "Struct was given Endianness which should be described by the struct implementing Bitfield")),
             FieldDataType::Float(_, _) => return Err(syn::Error::new(field.ident.span(), "Float not supported for single byte insert logic")),
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_be_math_to_field_access_quote, which is bad.")),
@@ -1302,7 +1302,7 @@ fn apply_be_math_to_field_access_quote(
             FieldDataType::Boolean => {
                 quote!{(#field_access_quote as u8)}
             }
-            FieldDataType::Enum(_, _, _) => field_access_quote,
+            FieldDataType::Enum(_, _, _) => quote!{(#field_access_quote as u8)},
             FieldDataType::Struct(_, _) => return Err(syn::Error::new(field.ident.span(), "Struct was given Endianness which should be described by the struct implementing Bitfield")),
             FieldDataType::Float(_, _) => return Err(syn::Error::new(field.ident.span(), "Float not supported for single byte insert logic")),
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_be_math_to_field_access_quote, which is bad.")),
-- 
2.43.0


From 54ef7365da77620c6952f1c360a9dee36eb28c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 09/35] fix: element arrays of floats with an explicit element
 length

---
 bondrewd-derive/src/structs/common.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index dae4896..d68cb53 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -279,6 +279,14 @@ impl FieldDataType {
                                         }
                                     };
                                     let mut sub_attrs = attrs.clone();
+                                    // an element only takes up its own part of the array's bits.
+                                    if let (FieldBuilderRange::Range(ref range), Type::Path(_)) =
+                                        (&attrs.bit_range, array_path.elem.as_ref())
+                                    {
+                                        sub_attrs.bit_range = FieldBuilderRange::Range(
+                                            range.start..range.start + *element_bit_size,
+                                        );
+                                    }
                                     if let Type::Array(_) = array_path.elem.as_ref() {
                                     } else if let Some(ref ty) = sub.as_ref() {
                                         sub_attrs.ty = ty.clone();
-- 
2.43.0


From c8cbcf727c1c3232d8ebdec693faf6e0e30ae4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 10/35] fix: fill_bytes together with lsb0, permuted or
 redundant fields

---
 bondrewd-derive/src/structs/common.rs | 32 ++++++++++++++++-----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index d68cb53..54b19f0 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1926,13 +1926,27 @@ impl ObjectInfo {
             }
         }
 
+        if attrs.lsb_zero {
+            for ref mut field in parsed_fields.iter_mut() {
+                field.attrs.bit_range = (bit_size - field.attrs.bit_range.end)
+                    ..(bit_size - field.attrs.bit_range.start);
+            }
+            parsed_fields.reverse();
+        }
+
         // add reserve for fill bytes. this happens after bit enforcement because bit_enforcement is for checking user code.
+        // the filler is always at the end, after the bits used by the fields.
         if let Some(fill_bits) = attrs.fill_bits {
-            let first_bit = if let Some(last_range) = parsed_fields.iter().last() {
-                last_range.attrs.bit_range.end
-            } else {
-                0_usize
-            };
+            let first_bit = bit_size;
+            if fill_bits < first_bit {
+                return Err(syn::Error::new(
+                    name.span(),
+                    format!(
+                        "fill_bytes is {} bits, but the fields already use {} bits.",
+                        fill_bits, first_bit
+                    ),
+                ));
+            }
             let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
             let ident = quote::format_ident!("bondrewd_fill_bits");
             parsed_fields.push(FieldInfo {
@@ -1954,14 +1968,6 @@ impl ObjectInfo {
             });
         }
 
-        if attrs.lsb_zero {
-            for ref mut field in parsed_fields.iter_mut() {
-                field.attrs.bit_range = (bit_size - field.attrs.bit_range.end)
-                    ..(bit_size - field.attrs.bit_range.start);
-            }
-            parsed_fields.reverse();
-        }
-
         Ok(parsed_fields)
     }
 }
-- 
2.43.0


From 112691fe5ea810e07678dc7e24ae1d6493d40351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 11/35] fix: from_slice and from_vec with reserve and
 capture_id fields

---
 bondrewd-derive/src/structs/from_bytes.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index c806c76..ac35dcd 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -188,9 +188,15 @@ fn create_fields_quotes(
                 #from_bytes_quote
                 #peek_call;
             };
+            // slices give the same values as arrays, but can not be passed to the read functions.
+            let slice_call = if field.attrs.capture_id || !field.attrs.reserve.read_field() {
+                peek_call
+            } else {
+                quote! { let #field_name = #field_extractor; }
+            };
             from_vec_quote = quote! {
                 #from_vec_quote
-                let #field_name = #field_extractor;
+                #slice_call
             };
         }
     }
-- 
2.43.0


From df5d7a3f189a56780d932540a5af84335398661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 12/35] fix: length checks of slice functions in reversed
 structs

---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 bondrewd-derive/src/structs/into_bytes.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index ac35dcd..f5e9e82 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -523,7 +523,7 @@ fn make_peek_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - (field.attrs.bit_range.start / 8)
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index beab484..52ffad1 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -374,7 +374,7 @@ fn make_set_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - (field.attrs.bit_range.start / 8)
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
-- 
2.43.0


From fb5d9f46edb5922b9aeba51c52af66be25361480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 13/35] fix: read_only with overlapping_bits of the whole field
 is placed like redundant

---
 bondrewd-derive/src/structs/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 54b19f0..20924ba 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -920,7 +920,8 @@ impl FieldInfo {
         // NOTE read only attribute assumes that the value should not effect the placement of the rest og
         let last_relevant_field = fields
             .iter()
-            .filter(|x| !x.attrs.overlap.is_redundant())
+            // fields whose bits are all shared with others do not move the fields after them.
+            .filter(|x| x.bit_size() != 0)
             .last();
         let mut attrs_builder = FieldAttrBuilder::parse(field, last_relevant_field, ident.span())?;
         // check the field for supported types.
-- 
2.43.0


From 5015608ff2e2ded09fea6667bd9e6ebcb7052969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 14/35] fix: part_eq_enums without dyn_fns

---
 bondrewd-derive/src/lib.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/bondrewd-derive/src/lib.rs b/bondrewd-derive/src/lib.rs
index 25be53f..6730de6 100644
--- a/bondrewd-derive/src/lib.rs
+++ b/bondrewd-derive/src/lib.rs
@@ -1920,6 +1920,22 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
                 #getter_setters_quotes
                 #hex_fns_quote
             };
+            #[cfg(feature = "part_eq_enums")]
+            let id_ident = match enum_info.id_ident() {
+                Ok(ii) => ii,
+                Err(err) => {
+                    return err.to_compile_error().into();
+                }
+            };
+            #[cfg(feature = "part_eq_enums")]
+            let to_bytes_quote = quote! {
+                #to_bytes_quote
+                impl PartialEq<#id_ident> for #struct_name {
+                    fn eq(&self, other: &#id_ident) -> bool {
+                        self.id() == *other
+                    }
+                }
+            };
             if dyn_fns {
                 let from_vec_quote = fields_from_bytes.from_slice_field_fns;
                 let vis = &enum_info.vis;
@@ -1964,22 +1980,6 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
                         #from_vec_quote
                     }
                 };
-                #[cfg(feature = "part_eq_enums")]
-                let id_ident = match enum_info.id_ident() {
-                    Ok(ii) => ii,
-                    Err(err) => {
-                        return err.to_compile_error().into();
-                    }
-                };
-                #[cfg(feature = "part_eq_enums")]
-                let to_bytes_quote = quote! {
-                    #to_bytes_quote
-                    impl PartialEq<#id_ident> for #struct_name {
-                        fn eq(&self, other: &#id_ident) -> bool {
-                            self.id() == *other
-                        }
-                    }
-                };
                 TokenStream::from(to_bytes_quote)
             } else {
                 TokenStream::from(to_bytes_quote)
-- 
2.43.0


From a92808476c3a3bc4825066206184448b3ab657e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 15/35] fix: arrays whose range or total length is given

---
 bondrewd-derive/src/structs/common.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 20924ba..f526f20 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -356,6 +356,18 @@ impl FieldDataType {
                                     } else {
                                         sub_attrs.ty = FieldAttrBuilderType::None;
                                     }
+                                    // an element only takes up its own part of the array's bits.
+                                    if let (FieldBuilderRange::Range(ref range), Type::Path(_)) =
+                                        (&attrs.bit_range, array_path.elem.as_ref())
+                                    {
+                                        if range.start <= range.end && array_length != 0 {
+                                            sub_attrs.bit_range = FieldBuilderRange::Range(
+                                                range.start
+                                                    ..range.start
+                                                        + (range.end - range.start) / array_length,
+                                            );
+                                        }
+                                    }
                                     let sub_ty = Self::parse(
                                         &array_path.elem,
                                         &mut sub_attrs,
@@ -370,7 +382,9 @@ impl FieldDataType {
                                                     "range end is less than range start",
                                                 ));
                                             }
-                                            if range.end - range.start % array_length != 0 {
+                                            if array_length == 0
+                                                || (range.end - range.start) % array_length != 0
+                                            {
                                                 return Err(
                                                     syn::Error::new(
                                                         span,
-- 
2.43.0


From a7c6f5b8ccde6f0bc4f4fc524f5de0f4a29ee3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 16/35] fix: block arrays of floats, nested bitfields and
 primitive enums

---
 bondrewd-derive/src/structs/common.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index f526f20..58b4ff9 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -307,12 +307,29 @@ impl FieldDataType {
                                         quote! {[#type_ident;#array_length]},
                                     )
                                 }
-                                FieldAttrBuilderType::BlockArray(_) => {
+                                FieldAttrBuilderType::BlockArray(ref sub) => {
                                     let mut sub_attrs = attrs.clone();
                                     if let Type::Array(_) = array_path.elem.as_ref() {
+                                    } else if let Some(ref ty) = sub.as_ref() {
+                                        sub_attrs.ty = ty.clone();
                                     } else {
                                         sub_attrs.ty = FieldAttrBuilderType::None;
                                     }
+                                    // when no bits are dropped all elements are the same size.
+                                    if let (FieldBuilderRange::Range(ref range), Type::Path(_)) =
+                                        (&attrs.bit_range, array_path.elem.as_ref())
+                                    {
+                                        if range.start <= range.end
+                                            && array_length != 0
+                                            && (range.end - range.start) % array_length == 0
+                                        {
+                                            sub_attrs.bit_range = FieldBuilderRange::Range(
+                                                range.start
+                                                    ..range.start
+                                                        + (range.end - range.start) / array_length,
+                                            );
+                                        }
+                                    }
 
                                     let sub_ty = Self::parse(
                                         &array_path.elem,
-- 
2.43.0


From a6b64f835f9c29006c0eff29f96b9200ea9cdf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 17/35] fix: nested bitfields cut to fewer bits than their own
 bytes

---
 bondrewd-derive/src/structs/from_bytes.rs | 21 ++++++++++++++++++---
 bondrewd-derive/src/structs/into_bytes.rs | 13 +++++++++++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index f5e9e82..16b77b2 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -1004,7 +1004,8 @@ fn apply_ne_math_to_field_access_quote(
                         let current_bit_mask = get_right_and_mask(available_bits_in_first_byte);
                         let next_bit_mask = get_left_and_mask(8 - available_bits_in_first_byte);
                         let right_shift: u32 = right_shift as u32;
-                        for i in 0..*size {
+                        // bytes the field does not have enough bits for stay zero.
+                        for i in 0..amount_of_bits.div_ceil(8).min(*size) {
                             let start = if flip.is_none() {starting_inject_byte + i}else{starting_inject_byte - i};
                             let mut first = if current_bit_mask == u8::MAX {
                                 quote!{
@@ -1026,6 +1027,15 @@ fn apply_ne_math_to_field_access_quote(
                                 #first
                                 #buffer_ident[#i] = #buffer_ident[#i].rotate_left(#right_shift);
                             };
+                            // only the field's own bits belong to the struct.
+                            let bits_in_byte = amount_of_bits - 8 * i;
+                            if bits_in_byte < 8 {
+                                let used_bits_mask = get_left_and_mask(bits_in_byte);
+                                quote_builder = quote!{
+                                    #quote_builder
+                                    #buffer_ident[#i] &= #used_bits_mask;
+                                };
+                            }
                         }
                     }
                     Ordering::Less => {
@@ -1112,9 +1122,14 @@ fn apply_ne_math_to_field_access_quote(
             }
             FieldDataType::Char(_, _) => return Err(syn::Error::new(field.ident.span(), "Char not supported for single byte insert logic")),
             FieldDataType::Enum(_, _, _) => return Err(syn::Error::new(field.ident.span(), "Enum was given Endianness which should be described by the struct implementing Bitfield")),
-            FieldDataType::Struct(_, _) => {
+            FieldDataType::Struct(ref size, _) => {
                 let used_bits_in_byte = 8 - available_bits_in_first_byte;
-                quote!{([((input_byte_buffer[#starting_inject_byte] & #mask)) << #used_bits_in_byte])}
+                let buffer_ident = format_ident!("{}_buffer", field.ident().ident());
+                quote!{
+                    let mut #buffer_ident: [u8;#size] = [0u8;#size];
+                    #buffer_ident[0] = (input_byte_buffer[#starting_inject_byte] & #mask) << #used_bits_in_byte;
+                    #buffer_ident
+                }
             }
             FieldDataType::Float(_, _) => return Err(syn::Error::new(field.ident.span(), "Float not supported for single byte insert logic")),
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_ne_math_to_field_access_quote, which is bad."))
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 52ffad1..c5ef06c 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -907,12 +907,21 @@ fn apply_ne_math_to_field_access_quote(
                 let current_bit_mask = get_right_and_mask(available_bits_in_first_byte);
                 let next_bit_mask = get_left_and_mask(8 - available_bits_in_first_byte);
                 let right_shift: u32 = right_shift as u32;
-                for i in 0usize..size {
+                for i in 0usize..amount_of_bits.div_ceil(8).min(size) {
                     let start = if flip.is_none() {
                         starting_inject_byte + i
                     } else {
                         starting_inject_byte - i
                     };
+                    // drop the bits the field does not have room for.
+                    let bits_in_byte = amount_of_bits - 8 * i;
+                    if bits_in_byte < 8 {
+                        let used_bits_mask = get_left_and_mask(bits_in_byte);
+                        full_quote = quote! {
+                            #full_quote
+                            #field_buffer_name[#i] &= #used_bits_mask;
+                        };
+                    }
                     full_quote = quote! {
                         #full_quote
                         #field_buffer_name[#i] = #field_buffer_name[#i].rotate_right(#right_shift);
@@ -1041,7 +1050,7 @@ fn apply_ne_math_to_field_access_quote(
             FieldDataType::Enum(_, _, _) => return Err(syn::Error::new(field.ident.span(), "Enum was given Endianness which should be described by the struct implementing Bitfield")),
             FieldDataType::Struct(_, _) => {
                 let used_bits_in_byte = 8 - available_bits_in_first_byte;
-                quote!{output_byte_buffer[#starting_inject_byte] |= (#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte;}
+                quote!{output_byte_buffer[#starting_inject_byte] |= ((#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte) & #mask;}
             }
             FieldDataType::Float(_, _) => return Err(syn::Error::new(field.ident.span(), "Float not supported for single byte insert logic")),
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_ne_math_to_field_access_quote, which is bad."))
-- 
2.43.0


From e8d17f2e1eb987e0d651e173e01eb5283f84aec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 18/35] fix: unknown endianness values are errors instead of
 being ignored

---
 bondrewd-derive/src/structs/common.rs | 7 ++++++-
 bondrewd-derive/src/structs/parse.rs  | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 58b4ff9..1539417 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1747,7 +1747,12 @@ impl ObjectInfo {
                             }
                             "be" | "msb" | "big" => info.default_endianess = Endianness::Big,
                             "ne" | "native" => info.default_endianess = Endianness::None,
-                            _ => {}
+                            _ => {
+                                return Err(syn::Error::new(
+                                    val.span(),
+                                    "Expected literal str \"le\" or \"be\" for default_endianness attribute.",
+                                ))
+                            }
                         }
                     } else {
                         return Err(syn::Error::new(
diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index 3a6d842..37595a2 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -142,6 +142,11 @@ impl FieldAttrBuilder {
                                         ));
                                     }
                                 });
+                            } else {
+                                return Err(syn::Error::new(
+                                    builder.span(),
+                                    "improper usage of endianness, must use string ex. `endianness = \"be\"`",
+                                ));
                             }
                         }
                         "bit_length" => {
-- 
2.43.0


From 36b54e817e5bf5393e7be9c8bba30305ca453a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 19/35] fix: lengths longer than the field's type are errors

---
 bondrewd-derive/src/structs/common.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 1539417..651fa57 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -983,6 +983,17 @@ impl FieldInfo {
             ty: data_type,
             attrs,
         };
+        // check to verify the field does not claim more bits than its type has.
+        let claimed_bits = new_field.attrs.bit_range.end - new_field.attrs.bit_range.start;
+        if claimed_bits > new_field.ty.size() * 8 {
+            return Err(Error::new(
+                new_field.ident.span(),
+                format!(
+                    "field uses {claimed_bits} bits which is more than the {} bits its type has",
+                    new_field.ty.size() * 8
+                ),
+            ));
+        }
         // check to verify there are no overlapping bit ranges from previously parsed fields.
         for (i, parsed_field) in fields.iter().enumerate() {
             if parsed_field.overlapping(&new_field) {
-- 
2.43.0


From 7bd3d2f25fade71c615775c2acea5352fed5bce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 20/35] fix: a second BitfieldEnum variant marked invalid is an
 error

---
 bondrewd-derive/src/enums/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index b0b369a..75afc41 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -398,7 +398,7 @@ impl EnumInfo {
                         }
                     } else {
                         // This is one of the possible variants to use, check for a custom discriminant
-                         if invalid_found.is_none() && Self::parse_attrs(&var.attrs, var, &mut primitive_type, &mut invalid_found)? {
+                         if Self::parse_attrs(&var.attrs, var, &mut primitive_type, &mut invalid_found)? {
                             if let Some((_, ref discriminant)) = var.discriminant {
                                 // Parse the discriminant and validate its able to be used
                                 let discriminant_val = Self::parse_lit_discriminant_expr(discriminant)?;
-- 
2.43.0


From e2507c97bc02ef5e7462578216696fe1b29cce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 21/35] fix: BitfieldEnum's partial_eq does not need std

---
 bondrewd-derive/src/enums/partial_eq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/partial_eq.rs b/bondrewd-derive/src/enums/partial_eq.rs
index 89264cf..1876b44 100644
--- a/bondrewd-derive/src/enums/partial_eq.rs
+++ b/bondrewd-derive/src/enums/partial_eq.rs
@@ -55,7 +55,7 @@ pub fn generate_partial_eq(enum_info: &EnumInfo) -> proc_macro2::TokenStream {
         }
     }
     quote! {
-        impl std::cmp::PartialEq<#primitive_ty> for #enum_name {
+        impl core::cmp::PartialEq<#primitive_ty> for #enum_name {
             fn eq(&self, other: &#primitive_ty) -> bool {
                 match (self, other) {
                     #comp_arms
-- 
2.43.0


From e05107990794381140cac553f3cbdacaa501587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:36 +0000
Subject: [PATCH 22/35] fix: dyn_fns can be used without std

---
 bondrewd-derive/src/structs/from_bytes.rs |  4 ++--
 bondrewd/src/hex.rs                       |  3 +++
 bondrewd/src/lib.rs                       | 12 ++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 16b77b2..d54dc93 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -387,7 +387,7 @@ pub fn create_from_bytes_field_quotes_enum(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::__private::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
@@ -462,7 +462,7 @@ pub fn create_from_bytes_field_quotes(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::__private::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
diff --git a/bondrewd/src/hex.rs b/bondrewd/src/hex.rs
index e5a10ac..b1a045b 100644
--- a/bondrewd/src/hex.rs
+++ b/bondrewd/src/hex.rs
@@ -1,3 +1,6 @@
+#[cfg(feature = "dyn_fns")]
+use alloc::vec::Vec;
+
 pub trait BitfieldHex<const HEX_SIZE: usize, const BYTE_SIZE: usize>: crate::Bitfields<BYTE_SIZE>
 where
     Self: Sized,
diff --git a/bondrewd/src/lib.rs b/bondrewd/src/lib.rs
index 3abad24..8b43a9a 100644
--- a/bondrewd/src/lib.rs
+++ b/bondrewd/src/lib.rs
@@ -2,6 +2,9 @@
 //! Defined Traits for bondrewd-derive.
 //! For Derive Docs see [bondrewd-derive](https://docs.rs/bondrewd-derive/latest/bondrewd_derive/)
 
+#[cfg(feature = "dyn_fns")]
+extern crate alloc;
+
 mod error;
 #[cfg(feature = "hex_fns")]
 pub use error::BitfieldHexError;
@@ -25,6 +28,15 @@ pub trait Bitfields<const SIZE: usize> {
     fn from_bytes(input_byte_buffer: [u8; SIZE]) -> Self;
 }
 
+/// Used by the code generated for `dyn_fns`, which has to name `Vec` in `no_std` crates too.
+#[cfg(feature = "dyn_fns")]
+#[doc(hidden)]
+pub mod __private {
+    pub use alloc::vec::Vec;
+}
+#[cfg(feature = "dyn_fns")]
+use alloc::vec::Vec;
+
 #[cfg(feature = "dyn_fns")]
 pub trait BitfieldsDyn<const SIZE: usize>: Bitfields<SIZE>
 where 
-- 
2.43.0


From db730b7e3d4278e5be9aea55be82633180647c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 23/35] fix: fields without bits and overlapping_bits longer
 than the field are errors

---
 bondrewd-derive/src/structs/common.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 651fa57..fcc13d3 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -983,6 +983,13 @@ impl FieldInfo {
             ty: data_type,
             attrs,
         };
+        // check to verify the field has bits, and shares no more than those.
+        if new_field.attrs.bit_range.end <= new_field.attrs.bit_range.start {
+            return Err(Error::new(
+                new_field.ident.span(),
+                "field must use at least 1 bit",
+            ));
+        }
         // check to verify the field does not claim more bits than its type has.
         let claimed_bits = new_field.attrs.bit_range.end - new_field.attrs.bit_range.start;
         if claimed_bits > new_field.ty.size() * 8 {
@@ -994,6 +1001,14 @@ impl FieldInfo {
                 ),
             ));
         }
+        if let OverlapOptions::Allow(shared_bits) = new_field.attrs.overlap {
+            if shared_bits > claimed_bits {
+                return Err(Error::new(
+                    new_field.ident.span(),
+                    format!("overlapping_bits is {shared_bits}, but the field only uses {claimed_bits} bits"),
+                ));
+            }
+        }
         // check to verify there are no overlapping bit ranges from previously parsed fields.
         for (i, parsed_field) in fields.iter().enumerate() {
             if parsed_field.overlapping(&new_field) {
-- 
2.43.0


From de7a758b1aa08f384aa44ffecc1c1a1590971583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 24/35] fix: enum ids without bits are an error

---
 bondrewd-derive/src/structs/common.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index fcc13d3..9cd13d7 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1304,13 +1304,19 @@ impl ObjectInfo {
                     } else if let (Some(payload_size), Some(total_size)) =
                         (enum_attrs.payload_bit_size, enum_attrs.total_bit_size)
                     {
-                        total_size - payload_size
+                        total_size.saturating_sub(payload_size)
                     } else {
                         return Err(syn::Error::new(
                             data.enum_token.span(),
                             "Must define the length of the id use #[bondrewd(id_bit_length = AMOUNT_OF_BITS)]",
                         ));
                     };
+                    if id_bits == 0 {
+                        return Err(syn::Error::new(
+                            data.enum_token.span(),
+                            "The id of an enum must use at least 1 bit.",
+                        ));
+                    }
                     (
                         FieldDataType::Number(
                             (id_bits as f64 / 8.0f64).ceil() as usize,
-- 
2.43.0


From d316acc277fdcca53aa563be32bd84dda2e8ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 25/35] fix: fields whose names are raw identifiers

---
 bondrewd-derive/src/structs/from_bytes.rs | 16 ++++++++--------
 bondrewd-derive/src/structs/into_bytes.rs | 14 +++++++-------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index d54dc93..c5e2062 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -173,9 +173,9 @@ fn create_fields_quotes(
                 // put the field extraction in the actual from bytes.
                 if field.attrs.reserve.read_field() {
                     let fn_field_name = if let Some(ref p) = lower_name {
-                        format_ident!("read_{p}_{field_name}")
+                        format_ident!("read_{}_{}", p, field_name)
                     } else {
-                        format_ident!("read_{field_name}")
+                        format_ident!("read_{}", field_name)
                     };
                     quote! {
                         let #field_name = Self::#fn_field_name(&input_byte_buffer);
@@ -514,11 +514,11 @@ fn make_peek_slice_fn(
     prefix: &Option<Ident>,
 ) -> syn::Result<TokenStream> {
     let field_name = if let Some(p) = prefix {
-        format_ident!("{p}_{}", field.ident().ident())
+        format_ident!("{}_{}", p, field.ident().ident())
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_slice_{field_name}");
+    let fn_field_name = format_ident!("read_slice_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
@@ -551,11 +551,11 @@ fn make_peek_slice_unchecked_fn(
     prefix: &Option<Ident>,
 ) -> syn::Result<TokenStream> {
     let field_name = if let Some(p) = prefix {
-        format_ident!("{p}_{}", field.ident().ident())
+        format_ident!("{}_{}", p, field.ident().ident())
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_{field_name}");
+    let fn_field_name = format_ident!("read_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
@@ -579,11 +579,11 @@ fn make_peek_fn(
     prefix: &Option<Ident>,
 ) -> syn::Result<TokenStream> {
     let field_name = if let Some(p) = prefix {
-        format_ident!("{p}_{}", field.ident().ident())
+        format_ident!("{}_{}", p, field.ident().ident())
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_{field_name}");
+    let fn_field_name = format_ident!("read_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index c5ef06c..c996df8 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -88,7 +88,7 @@ fn create_fields_quotes(
         )?;
         if field.attrs.reserve.write_field() {
             if let Some(ref name) = lower_name {
-                let fn_name = format_ident!("write_{name}_{field_name}");
+                let fn_name = format_ident!("write_{}_{}", name, field_name);
                 into_bytes_quote = quote! {
                     #into_bytes_quote
                     Self::#fn_name(&mut output_byte_buffer, #field_name);
@@ -366,9 +366,9 @@ fn make_set_slice_fn(
 ) -> syn::Result<TokenStream> {
     let field_name = field.ident().ident();
     let fn_field_name = if let Some(p) = prefix {
-        format_ident!("write_slice_{p}_{field_name}")
+        format_ident!("write_slice_{}_{}", p, field_name)
     } else {
-        format_ident!("write_slice_{field_name}")
+        format_ident!("write_slice_{}", field_name)
     };
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
@@ -405,9 +405,9 @@ fn make_set_slice_unchecked_fn(
 ) -> syn::Result<TokenStream> {
     let field_name = field.ident().ident();
     let fn_field_name = if let Some(p) = prefix {
-        format_ident!("write_{p}_{field_name}")
+        format_ident!("write_{}_{}", p, field_name)
     } else {
-        format_ident!("write_{field_name}")
+        format_ident!("write_{}", field_name)
     };
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
@@ -435,9 +435,9 @@ fn make_set_fn(
 ) -> syn::Result<TokenStream> {
     let field_name_short = field.ident().ident();
     let field_name = if let Some(p) = prefix {
-        format_ident!("{p}_{field_name_short}")
+        format_ident!("{}_{}", p, field_name_short)
     } else {
-        format_ident!("{field_name_short}")
+        field_name_short.clone()
     };
     let struct_size = info.total_bytes();
     let bit_range = &field.attrs.bit_range;
-- 
2.43.0


From cfb0165be2d5370df77900d08ad4b3e83f070488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 26/35] fix: block arrays with too few bits for their elements
 are errors

---
 bondrewd-derive/src/structs/common.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 9cd13d7..3050a1a 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1009,6 +1009,16 @@ impl FieldInfo {
                 ));
             }
         }
+        // check to verify every element of a block array has bits.
+        if let FieldDataType::BlockArray(ref element, array_length, _) = new_field.ty {
+            let element_bits = element.ty.size() * 8;
+            if claimed_bits + element_bits <= element_bits * array_length {
+                return Err(Error::new(
+                    new_field.ident.span(),
+                    format!("{claimed_bits} bits are not enough for {array_length} elements of {element_bits} bits each, only the first element can use fewer bits"),
+                ));
+            }
+        }
         // check to verify there are no overlapping bit ranges from previously parsed fields.
         for (i, parsed_field) in fields.iter().enumerate() {
             if parsed_field.overlapping(&new_field) {
-- 
2.43.0


From ebfb58335c7449fdce64d0cc55238166aaf53b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 27/35] fix: generated code next to items named Result, Ok, Err
 or Some

---
 bondrewd-derive/src/structs/from_bytes.rs | 40 +++++++++++------------
 bondrewd-derive/src/structs/into_bytes.rs | 12 +++----
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index c5e2062..301b9eb 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -84,14 +84,14 @@ fn get_check_slice_fn(
     );
     quote! {
         #[doc = #comment]
-        pub fn check_slice(buffer: &[u8]) -> Result<#checked_ident, bondrewd::BitfieldLengthError> {
+        pub fn check_slice(buffer: &[u8]) -> core::result::Result<#checked_ident, bondrewd::BitfieldLengthError> {
             let buf_len = buffer.len();
             if buf_len >= #check_size {
-                Ok(#checked_ident {
+                core::result::Result::Ok(#checked_ident {
                     buffer
                 })
             }else{
-                Err(bondrewd::BitfieldLengthError(buf_len, #check_size))
+                core::result::Result::Err(bondrewd::BitfieldLengthError(buf_len, #check_size))
             }
         }
     }
@@ -181,7 +181,7 @@ fn create_fields_quotes(
                         let #field_name = Self::#fn_field_name(&input_byte_buffer);
                     }
                 } else {
-                    quote! { let #field_name = Default::default(); }
+                    quote! { let #field_name = core::default::Default::default(); }
                 }
             };
             from_bytes_quote = quote! {
@@ -387,27 +387,27 @@ pub fn create_from_bytes_field_quotes_enum(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut bondrewd::__private::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::__private::Vec<u8>) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
                 let #v_id = Self::#v_id_slice_call(&input_byte_buffer)?;
                 let out = match #v_id {
                     #from_vec_fn
                 };
                 let _ = input_byte_buffer.drain(..Self::BYTE_SIZE);
-                Ok(out)
+                core::result::Result::Ok(out)
             }
             #[doc = #comment]
-            fn from_slice(input_byte_buffer: &[u8]) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_slice(input_byte_buffer: &[u8]) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
                 let #v_id = Self::#v_id_slice_call(&input_byte_buffer)?;
                 let out = match #v_id {
                     #from_vec_fn
                 };
-                Ok(out)
+                core::result::Result::Ok(out)
             }
         };
         Ok(FromBytesOptions {
@@ -462,9 +462,9 @@ pub fn create_from_bytes_field_quotes(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut bondrewd::__private::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::__private::Vec<u8>) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
                 let out = {
                     #from_vec_fn
@@ -473,12 +473,12 @@ pub fn create_from_bytes_field_quotes(
                     }
                 };
                 let _ = input_byte_buffer.drain(..Self::BYTE_SIZE);
-                Ok(out)
+                core::result::Result::Ok(out)
             }
             #[doc = #comment]
-            fn from_slice(input_byte_buffer: &[u8]) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_slice(input_byte_buffer: &[u8]) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
                 let out = {
                     #from_vec_fn
@@ -486,7 +486,7 @@ pub fn create_from_bytes_field_quotes(
                         #from_bytes_struct_quote
                     }
                 };
-                Ok(out)
+                core::result::Result::Ok(out)
             }
         };
         Ok(FromBytesOptions {
@@ -531,12 +531,12 @@ fn make_peek_slice_fn(
     Ok(quote! {
         #[inline]
         #[doc = #comment]
-        pub fn #fn_field_name(input_byte_buffer: &[u8]) -> Result<#type_ident, bondrewd::BitfieldLengthError> {
+        pub fn #fn_field_name(input_byte_buffer: &[u8]) -> core::result::Result<#type_ident, bondrewd::BitfieldLengthError> {
             let slice_length = input_byte_buffer.len();
             if slice_length < #min_length {
-                Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
+                core::result::Result::Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
             } else {
-                Ok(
+                core::result::Result::Ok(
                     #field_quote
                 )
             }
@@ -644,7 +644,7 @@ fn get_field_quote(
         }
         FieldDataType::Char(_, _) => {
             quote! {
-                if let Some(c) = char::from_u32({
+                if let core::option::Option::Some(c) = char::from_u32({
                     #value_retrieval
                 }) {
                     c
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index c996df8..efc051e 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -24,14 +24,14 @@ fn make_checked_mut_func(name: &Ident, struct_size: usize) -> TokenStream {
     let comment = format!("Returns a [{checked_ident}] which allows you to read/write any field for a `{name}` from/to provided mutable slice.");
     quote! {
         #[doc = #comment]
-        pub fn check_slice_mut(buffer: &mut [u8]) -> Result<#checked_ident, bondrewd::BitfieldLengthError> {
+        pub fn check_slice_mut(buffer: &mut [u8]) -> core::result::Result<#checked_ident, bondrewd::BitfieldLengthError> {
             let buf_len = buffer.len();
             if buf_len >= #struct_size {
-                Ok(#checked_ident {
+                core::result::Result::Ok(#checked_ident {
                     buffer
                 })
             }else{
-                Err(bondrewd::BitfieldLengthError(buf_len, #struct_size))
+                core::result::Result::Err(bondrewd::BitfieldLengthError(buf_len, #struct_size))
             }
         }
     }
@@ -382,14 +382,14 @@ fn make_set_slice_fn(
     Ok(quote! {
         #[inline]
         #[doc = #comment]
-        pub fn #fn_field_name(output_byte_buffer: &mut [u8], #field_name: #type_ident) -> Result<(), bondrewd::BitfieldLengthError> {
+        pub fn #fn_field_name(output_byte_buffer: &mut [u8], #field_name: #type_ident) -> core::result::Result<(), bondrewd::BitfieldLengthError> {
             let slice_length = output_byte_buffer.len();
             if slice_length < #min_length {
-                Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
+                core::result::Result::Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
             } else {
                 #clear_quote
                 #field_quote
-                Ok(())
+                core::result::Result::Ok(())
             }
         }
     })
-- 
2.43.0


From f56f464ec54dfa1c69070ce87a1212a7c27733bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 28/35] fix: write_slice functions of fields named slice_length

---
 bondrewd-derive/src/structs/into_bytes.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index efc051e..bf274f1 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -383,9 +383,8 @@ fn make_set_slice_fn(
         #[inline]
         #[doc = #comment]
         pub fn #fn_field_name(output_byte_buffer: &mut [u8], #field_name: #type_ident) -> core::result::Result<(), bondrewd::BitfieldLengthError> {
-            let slice_length = output_byte_buffer.len();
-            if slice_length < #min_length {
-                core::result::Result::Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
+            if output_byte_buffer.len() < #min_length {
+                core::result::Result::Err(bondrewd::BitfieldLengthError(output_byte_buffer.len(), #min_length))
             } else {
                 #clear_quote
                 #field_quote
-- 
2.43.0


From a0d8d39b85a8bf9a6344b20e858fbcea60458a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 29/35] fix: keep the whole path of nested and primitive enum
 field types

---
 bondrewd-derive/src/structs/common.rs | 56 ++++++++++-----------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 3050a1a..e739d4c 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -214,25 +214,12 @@ impl FieldDataType {
     ) -> syn::Result<FieldDataType> {
         let data_type = match ty {
             Type::Path(ref path) => match attrs.ty {
-                FieldAttrBuilderType::Struct(ref size) => FieldDataType::Struct(
-                    *size,
-                    if let Some(last_segment) = path.path.segments.last() {
-                        let asdf = &last_segment.ident;
-                        quote! {#asdf}
-                    } else {
-                        return Err(syn::Error::new(span, "field has no Type?"));
-                    },
-                ),
-                FieldAttrBuilderType::Enum(ref size, ref prim) => FieldDataType::Enum(
-                    quote! {#prim},
-                    *size,
-                    if let Some(last_segment) = path.path.segments.last() {
-                        let asdf = &last_segment.ident;
-                        quote! {#asdf}
-                    } else {
-                        return Err(syn::Error::new(span, "field has no Type?"));
-                    },
-                ),
+                FieldAttrBuilderType::Struct(ref size) => {
+                    FieldDataType::Struct(*size, Self::path_quote(&path.path))
+                }
+                FieldAttrBuilderType::Enum(ref size, ref prim) => {
+                    FieldDataType::Enum(quote! {#prim}, *size, Self::path_quote(&path.path))
+                }
                 _ => Self::parse_path(&path.path, attrs, span)?,
             },
             Type::Array(ref array_path) => {
@@ -473,6 +460,13 @@ impl FieldDataType {
         Ok(data_type)
     }
 
+    /// The whole path of a type, a type is not always in scope by only its last name.
+    fn path_quote(path: &syn::Path) -> TokenStream {
+        let leading_colon = &path.leading_colon;
+        let idents = path.segments.iter().map(|segment| &segment.ident);
+        quote! {#leading_colon #(#idents)::*}
+    }
+
     fn parse_path(
         path: &syn::Path,
         attrs: &mut FieldAttrBuilder,
@@ -575,7 +569,7 @@ impl FieldDataType {
                                         ));
                                     }
                                 },
-                                quote! {#type_quote},
+                                Self::path_quote(path),
                             ))
                             // Err(Error::new(
                             //     field_span,
@@ -588,23 +582,13 @@ impl FieldDataType {
                 }
             }
             FieldAttrBuilderType::Struct(size) => {
-                if let Some(ident) = path.get_ident() {
-                    Ok(FieldDataType::Struct(size, quote! {#ident}))
-                } else {
-                    Err(syn::Error::new(field_span, "field has no Type?"))
-                }
-            }
-            FieldAttrBuilderType::Enum(size, ref type_ident) => {
-                if let Some(ident) = path.get_ident() {
-                    Ok(FieldDataType::Enum(
-                        quote! {#type_ident},
-                        size,
-                        quote! {#ident},
-                    ))
-                } else {
-                    Err(syn::Error::new(field_span, "field has no Type?"))
-                }
+                Ok(FieldDataType::Struct(size, Self::path_quote(path)))
             }
+            FieldAttrBuilderType::Enum(size, ref type_ident) => Ok(FieldDataType::Enum(
+                quote! {#type_ident},
+                size,
+                Self::path_quote(path),
+            )),
             _ => Err(syn::Error::new(
                 field_span,
                 "Array did not get detected properly, found Path",
-- 
2.43.0


From 0fcff89a7e3102cd2ea7d9013a53e275f2f89c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 30/35] fix: accept field types passed through a macro or in
 parentheses

---
 bondrewd-derive/src/structs/common.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index e739d4c..34cda37 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -212,7 +212,7 @@ impl FieldDataType {
         span: Span,
         default_endianess: &Endianness,
     ) -> syn::Result<FieldDataType> {
-        let data_type = match ty {
+        let data_type = match Self::ungrouped(ty) {
             Type::Path(ref path) => match attrs.ty {
                 FieldAttrBuilderType::Struct(ref size) => {
                     FieldDataType::Struct(*size, Self::path_quote(&path.path))
@@ -268,13 +268,13 @@ impl FieldDataType {
                                     let mut sub_attrs = attrs.clone();
                                     // an element only takes up its own part of the array's bits.
                                     if let (FieldBuilderRange::Range(ref range), Type::Path(_)) =
-                                        (&attrs.bit_range, array_path.elem.as_ref())
+                                        (&attrs.bit_range, Self::ungrouped(&array_path.elem))
                                     {
                                         sub_attrs.bit_range = FieldBuilderRange::Range(
                                             range.start..range.start + *element_bit_size,
                                         );
                                     }
-                                    if let Type::Array(_) = array_path.elem.as_ref() {
+                                    if let Type::Array(_) = Self::ungrouped(&array_path.elem) {
                                     } else if let Some(ref ty) = sub.as_ref() {
                                         sub_attrs.ty = ty.clone();
                                     } else {
@@ -296,7 +296,7 @@ impl FieldDataType {
                                 }
                                 FieldAttrBuilderType::BlockArray(ref sub) => {
                                     let mut sub_attrs = attrs.clone();
-                                    if let Type::Array(_) = array_path.elem.as_ref() {
+                                    if let Type::Array(_) = Self::ungrouped(&array_path.elem) {
                                     } else if let Some(ref ty) = sub.as_ref() {
                                         sub_attrs.ty = ty.clone();
                                     } else {
@@ -304,7 +304,7 @@ impl FieldDataType {
                                     }
                                     // when no bits are dropped all elements are the same size.
                                     if let (FieldBuilderRange::Range(ref range), Type::Path(_)) =
-                                        (&attrs.bit_range, array_path.elem.as_ref())
+                                        (&attrs.bit_range, Self::ungrouped(&array_path.elem))
                                     {
                                         if range.start <= range.end
                                             && array_length != 0
@@ -335,7 +335,7 @@ impl FieldDataType {
                                 FieldAttrBuilderType::Enum(_, _)
                                 | FieldAttrBuilderType::Struct(_) => {
                                     let mut sub_attrs = attrs.clone();
-                                    if let Type::Array(_) = array_path.elem.as_ref() {
+                                    if let Type::Array(_) = Self::ungrouped(&array_path.elem) {
                                     } else {
                                         sub_attrs.ty = attrs.ty.clone();
                                     }
@@ -356,13 +356,13 @@ impl FieldDataType {
                                 }
                                 FieldAttrBuilderType::None => {
                                     let mut sub_attrs = attrs.clone();
-                                    if let Type::Array(_) = array_path.elem.as_ref() {
+                                    if let Type::Array(_) = Self::ungrouped(&array_path.elem) {
                                     } else {
                                         sub_attrs.ty = FieldAttrBuilderType::None;
                                     }
                                     // an element only takes up its own part of the array's bits.
                                     if let (FieldBuilderRange::Range(ref range), Type::Path(_)) =
-                                        (&attrs.bit_range, array_path.elem.as_ref())
+                                        (&attrs.bit_range, Self::ungrouped(&array_path.elem))
                                     {
                                         if range.start <= range.end && array_length != 0 {
                                             sub_attrs.bit_range = FieldBuilderRange::Range(
@@ -460,6 +460,15 @@ impl FieldDataType {
         Ok(data_type)
     }
 
+    /// The type inside of the group `macro_rules` puts around a captured type, or parentheses.
+    fn ungrouped(ty: &syn::Type) -> &syn::Type {
+        match ty {
+            Type::Group(ref group) => Self::ungrouped(&group.elem),
+            Type::Paren(ref paren) => Self::ungrouped(&paren.elem),
+            _ => ty,
+        }
+    }
+
     /// The whole path of a type, a type is not always in scope by only its last name.
     fn path_quote(path: &syn::Path) -> TokenStream {
         let leading_colon = &path.leading_colon;
-- 
2.43.0


From ab5e20d8d9997f8fb392089f1f4424455fa3d2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 31/35] fix: name PartialEq by its path in generated code

---
 bondrewd-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/lib.rs b/bondrewd-derive/src/lib.rs
index 6730de6..5a85356 100644
--- a/bondrewd-derive/src/lib.rs
+++ b/bondrewd-derive/src/lib.rs
@@ -1930,7 +1930,7 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
             #[cfg(feature = "part_eq_enums")]
             let to_bytes_quote = quote! {
                 #to_bytes_quote
-                impl PartialEq<#id_ident> for #struct_name {
+                impl core::cmp::PartialEq<#id_ident> for #struct_name {
                     fn eq(&self, other: &#id_ident) -> bool {
                         self.id() == *other
                     }
-- 
2.43.0


From d02483194d9b4d04fefcf0bac834cfe6a5c13bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 32/35] fix: reject primitive enum values which do not fit in
 u8

---
 bondrewd-derive/src/enums/parse.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 75afc41..5fc490b 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -583,6 +583,20 @@ impl EnumInfo {
             }
         }
 
+        // u8 is the only primitive right now, so all of the values must fit in it.
+        for variant in variants.iter() {
+            if let EnumVariantType::UnsignedValue(ref value)
+            | EnumVariantType::CatchAll(ref value) = variant.value
+            {
+                if value.to_string().parse::<u8>().is_err() {
+                    return Err(syn::Error::new(
+                        variant.name.span(),
+                        format!("the value [{}] of the variant does not fit in u8", value),
+                    ));
+                }
+            }
+        }
+
         let info = EnumInfo {
             name: input.ident.clone(),
             partial_eq,
@@ -597,10 +611,10 @@ impl EnumInfo {
                 }
             } else {
                 match variants.len() {
-                    0_usize..=255_usize => {
+                    0_usize..=256_usize => {
                         format_ident!("u8")
                     }
-                    256_usize..=65535 => {
+                    257_usize..=65535 => {
                         format_ident!("u16")
                     }
                     65536..=4294967296 => {
-- 
2.43.0


From 53874b9b65d898cd2413a62cfac45e8cf679c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 33/35] fix: reject fields outside of the bytes of the bitfield

---
 bondrewd-derive/src/structs/common.rs | 40 ++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 34cda37..7dd7082 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1117,6 +1117,23 @@ impl StructInfo {
     pub fn total_bytes(&self) -> usize {
         (self.total_bits() as f64 / 8.0f64).ceil() as usize
     }
+
+    /// Fields which do not add all of their bits to the size, or have a range with a gap before it, must
+    /// still be within the bytes of the bitfield.
+    fn check_bounds(&self, total_bytes: usize) -> syn::Result<()> {
+        for field in self.fields.iter() {
+            if field.attrs.bit_range.end > total_bytes * 8 {
+                return Err(syn::Error::new(
+                    field.span(),
+                    format!(
+                        "the field's bits {}..{} are not all within the {} bytes of the bitfield",
+                        field.attrs.bit_range.start, field.attrs.bit_range.end, total_bytes
+                    ),
+                ));
+            }
+        }
+        Ok(())
+    }
 }
 
 pub struct EnumInfo {
@@ -1289,13 +1306,15 @@ impl ObjectInfo {
                 let tuple = matches!(data.fields, syn::Fields::Unnamed(_));
                 Self::parse_struct_attrs(&input.attrs, &mut attrs, false)?;
                 let fields = Self::parse_fields(&name, &data.fields, &attrs, None, tuple)?;
-                Ok(Self::Struct(StructInfo {
+                let info = StructInfo {
                     name,
                     attrs,
                     fields,
                     vis: input.vis.clone(),
                     tuple,
-                }))
+                };
+                info.check_bounds(info.total_bytes())?;
+                Ok(Self::Struct(info))
             }
             syn::Data::Enum(ref data) => {
                 let mut enum_attrs = EnumAttrInfoBuilder::default();
@@ -1589,12 +1608,16 @@ impl ObjectInfo {
                         });
                     }
                 }
-                Ok(Self::Enum(EnumInfo {
+                let info = EnumInfo {
                     name,
                     variants,
                     attrs: enum_attrs,
                     vis: input.vis.clone(),
-                }))
+                };
+                for v in info.variants.iter() {
+                    v.check_bounds(info.total_bytes())?;
+                }
+                Ok(Self::Enum(info))
             }
             _ => Err(Error::new(Span::call_site(), "input can not be a union")),
         }
@@ -2000,6 +2023,15 @@ impl ObjectInfo {
 
         if attrs.lsb_zero {
             for ref mut field in parsed_fields.iter_mut() {
+                if field.attrs.bit_range.end > bit_size {
+                    return Err(syn::Error::new(
+                        field.span(),
+                        format!(
+                            "the field's bits {}..{} are not all within the {} bits of the bitfield",
+                            field.attrs.bit_range.start, field.attrs.bit_range.end, bit_size
+                        ),
+                    ));
+                }
                 field.attrs.bit_range = (bit_size - field.attrs.bit_range.end)
                     ..(bit_size - field.attrs.bit_range.start);
             }
-- 
2.43.0


From 20d859c99fe9efa39745bdd72a83e4dc2fd59371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 34/35] fix: enums with id, payload and total size all given
 were rejected

---
 bondrewd-derive/src/structs/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 7dd7082..c2d5b59 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1522,7 +1522,7 @@ impl ObjectInfo {
                                     format!("total_size, payload_size, and id_size where all specified but id_size ({id}) + payload_size ({payload}) is not equal to total_size ({total})"),
                                 ));
                             }
-                            if payload < largest {
+                            if payload + id < largest {
                                 return Err(Error::new(
                                     data.enum_token.span(),
                                     format!("detected a variant over the maximum defined size."),
-- 
2.43.0


From a88bc42d6bb681485b8075aa1e14d515ad0a59b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 35/35] fix: attributes of others were parsed as bondrewd's

---
 bondrewd-derive/src/enums/parse.rs    | 4 ++--
 bondrewd-derive/src/structs/common.rs | 4 ++--
 bondrewd-derive/src/structs/parse.rs  | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 5fc490b..7e5d1e2 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -229,7 +229,7 @@ impl EnumInfo {
     ) -> syn::Result<bool> {
         let mut temp: Option<Ident> = None;
         let mut temp_invalid = invalid_found.clone();
-        for attr in attrs {
+        for attr in attrs.iter().filter(|attr| attr.path.is_ident("bondrewd_enum")) {
             match Self::parse_meta(attr.parse_meta()?, &mut temp_invalid, &mut temp, var)? {
                 ParseMetaResult::FoundInvalid => {
                     std::mem::swap(&mut temp, primitive_type);
@@ -258,7 +258,7 @@ impl EnumInfo {
         };
         let mut primitive_type: Option<Ident> = None;
         let mut partial_eq = false;
-        for attr in &input.attrs {
+        for attr in input.attrs.iter().filter(|attr| attr.path.is_ident("bondrewd_enum")) {
             match attr.parse_meta()? {
                 Meta::NameValue(_) => {}
                 Meta::Path(_) => {}
diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index c2d5b59..ec885f7 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1261,7 +1261,7 @@ impl ObjectInfo {
         attrs_info: &mut AttrInfo,
         is_variant: bool,
     ) -> syn::Result<()> {
-        for attr in attrs.iter() {
+        for attr in attrs.iter().filter(|attr| attr.path.is_ident("bondrewd")) {
             let span = attr.pound_token.span();
             let meta = attr.parse_meta()?;
             Self::parse_struct_attrs_meta(span, attrs_info, &meta, is_variant)?;
@@ -1274,7 +1274,7 @@ impl ObjectInfo {
         attrs_info: &mut AttrInfo,
         enum_attrs_info: &mut EnumAttrInfoBuilder,
     ) -> syn::Result<()> {
-        for attr in attrs.iter() {
+        for attr in attrs.iter().filter(|attr| attr.path.is_ident("bondrewd")) {
             let span = attr.pound_token.span();
             let meta = attr.parse_meta()?;
             Self::parse_enum_attrs_meta(span, attrs_info, enum_attrs_info, &meta)?;
diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index 37595a2..e54318a 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -104,7 +104,8 @@ impl FieldAttrBuilder {
         // end ( this only works if a all bit fields are in order, ex. if a bit_range attribute defines a
         // complete range which occupies the same space as this field and that field is not the "last_field"
         // you will get a conflicting fields error returned to the user... hopefully )
-        for attr in field.attrs.iter() {
+        // attributes of others are none of our business.
+        for attr in field.attrs.iter().filter(|attr| attr.path.is_ident("bondrewd")) {
             let meta = attr.parse_meta()?;
             Self::parse_meta(meta, &last_field, &mut builder)?;
         }
-- 
2.43.0

