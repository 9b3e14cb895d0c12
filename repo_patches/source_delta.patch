From 430ea08d9d1d4fb53059ab087815fbec401577b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 01/44] fix: sign extend signed fields that fit in one byte

The fill mask was computed from the field's offset in the byte instead of its width, and the
result was zero extended into types wider than i8.
---
 bondrewd-derive/src/structs/from_bytes.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index fff43b5..48a3cc0 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -932,7 +932,7 @@ fn apply_le_math_to_field_access_quote(
                     value = quote!{
                         {
                             #value
-                            #field_buffer_name as #ident
+                            #field_buffer_name as i8 as #ident
                         }
                     };
                     value
@@ -1307,7 +1307,7 @@ fn apply_be_math_to_field_access_quote(
                     value = quote!{
                         {
                             #value
-                            #field_buffer_name as #ident
+                            #field_buffer_name as i8 as #ident
                         }
                     };
                     value
@@ -1627,7 +1627,8 @@ fn add_sign_fix_quote_single_bit(
             if let NumberSignage::Signed = sign {
                 let bit_to_isolate = field.attrs.bit_range.start % 8;
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
-                let neg_mask = get_left_and_mask(bit_to_isolate + 1);
+                // `field_access` is already shifted right, so the bits to fill are those left of it.
+                let neg_mask = get_left_and_mask(8 - amount_of_bits);
                 let sign_bit = quote! {
                     (input_byte_buffer[#byte_index] & #sign_mask)
                 };
-- 
2.43.0


From 17ca9176c2ac1c446feaa5d5867fe08abac5bb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 02/44] fix: find the sign bit of little endian fields with a
 whole number of bytes

The sign was read from the bit after the field when its width was a multiple of 8 but smaller than
its type.
---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 48a3cc0..76924b8 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -1537,7 +1537,7 @@ fn add_sign_fix_quote(
                         field.attrs.bit_range.start / 8,
                     ),
                     Endianness::Little => {
-                        let skip_bytes = (amount_of_bits / 8) * 8;
+                        let skip_bytes = ((amount_of_bits - 1) / 8) * 8;
                         let sign_bit_index = field.attrs.bit_range.start + skip_bytes;
                         // TODO fix bit isolators to fix signed numbers.
                         (sign_bit_index % 8, sign_bit_index / 8)
-- 
2.43.0


From 8b64b4be2ae8ed6c8eb9bf776d6ab85f05bd209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 03/44] fix: read the sign of multi-byte signed fields from the
 reversed byte under reverse

---
 bondrewd-derive/src/structs/from_bytes.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 76924b8..c670c26 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -729,7 +729,7 @@ fn apply_le_math_to_field_access_quote(
         // };
         let size = field.ty.size();
         let new_array_quote =
-            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)? {
+            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)? {
                 a
             } else {
                 quote! {[0u8;#size]}
@@ -1344,7 +1344,7 @@ fn build_number_quote(
     available_bits_in_first_byte: usize,
     flip: Option<usize>,
 ) -> syn::Result<TokenStream> {
-    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)?
+    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)?
     {
         a
     } else {
@@ -1527,6 +1527,7 @@ fn add_sign_fix_quote(
     field: &FieldInfo,
     amount_of_bits: &usize,
     right_shift: &i8,
+    flip: Option<usize>,
 ) -> syn::Result<Option<TokenStream>> {
     if let FieldDataType::Number(ref size, ref sign, _) = field.ty {
         if *amount_of_bits != *size * 8 {
@@ -1544,6 +1545,11 @@ fn add_sign_fix_quote(
                     }
                     Endianness::None => return Ok(None),
                 };
+                let sign_index = if let Some(flip) = flip {
+                    flip - sign_index
+                } else {
+                    sign_index
+                };
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
                 let sign_bit = quote! {
                     (input_byte_buffer[#sign_index] & #sign_mask)
-- 
2.43.0


From bfe6fde873ac14a7b6734b387267f01be58c0b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 04/44] fix: read the last byte of little endian fields from
 the right place under reverse

---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index c670c26..5eecb33 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -793,7 +793,7 @@ fn apply_le_math_to_field_access_quote(
                 full_quote = quote! {
                     #full_quote
                     #field_buffer_name[#i] |= input_byte_buffer[#start] & #current_bit_mask;
-                    #field_buffer_name[#i] |= input_byte_buffer[#start + 1] & #last_bit_mask;
+                    #field_buffer_name[#i] |= input_byte_buffer[#start #operator 1] & #last_bit_mask;
                 };
             } else {
                 let mut last_mask = first_bit_mask;
-- 
2.43.0


From 653517315b5756b296c1e766950782136db6abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 05/44] fix: clear exactly the field's bits when writing a
 little endian field

The write functions left stale bits in the last byte of a field that is not byte aligned, and
cleared bits of neighbouring fields in other cases.
---
 bondrewd-derive/src/structs/into_bytes.rs | 52 ++++++++++++-----------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 103643a..6d0a595 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -551,6 +551,33 @@ fn get_field_quote(
         Endianness::None => apply_ne_math_to_field_access_quote(field, quote_field_name, flip),
     }
 }
+/// a quote that clears exactly the bits of `field` within `output_byte_buffer`.
+fn clear_bits_quote(field: &FieldInfo, flip: Option<usize>) -> proc_macro2::TokenStream {
+    let bit_range = &field.attrs.bit_range;
+    let first_byte = bit_range.start / 8;
+    let last_byte = (bit_range.end - 1) / 8;
+    let mut clear_quote = quote! {};
+    for byte in first_byte..=last_byte {
+        let mut mask = u8::MAX;
+        if byte == first_byte {
+            mask &= get_right_and_mask(8 - (bit_range.start % 8));
+        }
+        if byte == last_byte {
+            mask &= get_left_and_mask(bit_range.end - (byte * 8));
+        }
+        let not_mask = !mask;
+        let index = if let Some(flip) = flip {
+            flip - byte
+        } else {
+            byte
+        };
+        clear_quote = quote! {
+            #clear_quote
+            output_byte_buffer[#index] &= #not_mask;
+        };
+    }
+    clear_quote
+}
 // first token stream is actual setter, but second one is overwrite current bits to 0.
 fn apply_le_math_to_field_access_quote(
     field: &FieldInfo,
@@ -651,28 +678,19 @@ fn apply_le_math_to_field_access_quote(
         let mid_shift: u32 = 8 - available_bits_in_first_byte as u32;
         let next_bit_mask = get_left_and_mask(mid_shift as usize);
         let mut i = 0;
-        let mut clear_quote = quote! {};
+        let clear_quote = clear_bits_quote(field, flip);
         while i != fields_last_bits_index {
             let start = if flip.is_none() {
                 starting_inject_byte + i
             } else {
                 starting_inject_byte - i
             };
-            let not_current_bit_mask = !current_bit_mask;
             if available_bits_in_first_byte == 0 && right_shift == 0 {
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #current_bit_mask;
                 };
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_current_bit_mask;
-                };
             } else {
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_current_bit_mask;
-                };
                 if mid_shift != 0 {
                     full_quote = quote! {
                         #full_quote
@@ -724,10 +742,6 @@ fn apply_le_math_to_field_access_quote(
                 #field_buffer_name[#i] = #field_buffer_name[#i].rotate_right(#right_shift);
             };
             if used_bits < amount_of_bits {
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= 0;
-                };
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #first_bit_mask;
@@ -738,11 +752,6 @@ fn apply_le_math_to_field_access_quote(
                 if amount_of_bits <= used_bits {
                     last_mask &= !get_right_and_mask(used_bits - amount_of_bits);
                 }
-                let not_last_mask = !last_mask;
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_last_mask;
-                };
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #last_mask;
@@ -760,11 +769,6 @@ fn apply_le_math_to_field_access_quote(
             if amount_of_bits <= used_bits {
                 last_mask &= !get_right_and_mask(used_bits - amount_of_bits);
             }
-            let not_last_mask = !last_mask;
-            clear_quote = quote! {
-                #clear_quote
-                output_byte_buffer[#start] &= #not_last_mask;
-            };
             let mut finalize = quote! {#field_buffer_name[#i]};
             if left_shift != 0 && left_shift != 8 {
                 finalize = quote! {(#finalize.rotate_left(#left_shift))};
-- 
2.43.0


From c44bcf18a7693f7f0ea9e115f9a2d9457440dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 06/44] fix: keep nested structure fields inside their own bits

Writing one whose bit length is not a multiple of 8 cleared bits of the following field, and one
shorter than the nested structure leaked nested bits into, and read them from, its neighbours.
---
 bondrewd-derive/src/structs/from_bytes.rs | 16 +++++++++---
 bondrewd-derive/src/structs/into_bytes.rs | 31 +++++++++--------------
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 5eecb33..b0bae64 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -990,6 +990,8 @@ fn apply_ne_math_to_field_access_quote(
             FieldDataType::Struct(ref size, _) => {
                 let buffer_ident = format_ident!("{}_buffer", field.ident().ident());
                 let mut quote_builder = quote!{let mut #buffer_ident: [u8;#size] = [0u8;#size];};
+                // only the bytes, and bits of the last byte, that are part of the field can be read.
+                let size = (*size).min((amount_of_bits + 7) / 8);
                 match right_shift.cmp(&0) {
                     Ordering::Greater => {
                         // right shift (this means that the last bits are in the first byte)
@@ -998,7 +1000,7 @@ fn apply_ne_math_to_field_access_quote(
                         let current_bit_mask = get_right_and_mask(available_bits_in_first_byte);
                         let next_bit_mask = get_left_and_mask(8 - available_bits_in_first_byte);
                         let right_shift: u32 = right_shift as u32;
-                        for i in 0..*size {
+                        for i in 0..size {
                             let start = if flip.is_none() {starting_inject_byte + i}else{starting_inject_byte - i};
                             let mut first = if current_bit_mask == u8::MAX {
                                 quote!{
@@ -1034,7 +1036,7 @@ fn apply_ne_math_to_field_access_quote(
                         /*let current_bit_mask = get_right_and_mask(available_bits_in_first_byte);
                         let next_bit_mask = get_left_and_mask(8 - available_bits_in_first_byte);
                         let left_shift = right_shift.clone().abs() as u32;
-                        for i in 0..*size {
+                        for i in 0..size {
                             let start = if let None = flip {starting_inject_byte + i}else{starting_inject_byte - i};
                             let mut first = quote!{
                                 #buffer_ident[#i] = input_byte_buffer[#start] & #current_bit_mask;
@@ -1055,7 +1057,7 @@ fn apply_ne_math_to_field_access_quote(
                     Ordering::Equal => {
                         // no shift can be more faster.
                         let current_bit_mask = get_right_and_mask(available_bits_in_first_byte);
-                        for i in 0..*size {
+                        for i in 0..size {
                             let start = if flip.is_none() {starting_inject_byte + i}else{starting_inject_byte - i};
                             if i == 0{
                                 quote_builder = quote!{
@@ -1071,6 +1073,14 @@ fn apply_ne_math_to_field_access_quote(
                         }
                     }
                 }
+                if amount_of_bits < size * 8 {
+                    let last_index = size - 1;
+                    let last_mask = get_left_and_mask(amount_of_bits - (last_index * 8));
+                    quote_builder = quote!{
+                        #quote_builder
+                        #buffer_ident[#last_index] &= #last_mask;
+                    };
+                }
                 // return the value
                 quote_builder = quote!{
                     #quote_builder
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 6d0a595..69f9fa1 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -906,10 +906,20 @@ fn apply_ne_math_to_field_access_quote(
             }
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_ne_math_to_field_access_quote, which is bad."))
         };
-        let mut clear_quote = quote! {};
+        let clear_quote = clear_bits_quote(field, flip);
         let mut full_quote = quote! {
             #field_byte_buffer;
         };
+        // only the bytes, and bits of the last byte, that are part of the field can be written.
+        let size = size.min((amount_of_bits + 7) / 8);
+        if amount_of_bits < size * 8 {
+            let last_index = size - 1;
+            let last_mask = get_left_and_mask(amount_of_bits - (last_index * 8));
+            full_quote = quote! {
+                #full_quote
+                #field_buffer_name[#last_index] &= #last_mask;
+            };
+        }
         // fill in the rest of the bits
         match right_shift.cmp(&0) {
             Ordering::Greater => {
@@ -925,12 +935,6 @@ fn apply_ne_math_to_field_access_quote(
                     } else {
                         starting_inject_byte - i
                     };
-                    let not_current_bit_mask = !current_bit_mask;
-                    let not_next_bit_mask = !next_bit_mask;
-                    clear_quote = quote! {
-                        #clear_quote
-                        output_byte_buffer[#start] &= #not_current_bit_mask;
-                    };
                     full_quote = quote! {
                         #full_quote
                         #field_buffer_name[#i] = #field_buffer_name[#i].rotate_right(#right_shift);
@@ -938,12 +942,6 @@ fn apply_ne_math_to_field_access_quote(
                     };
 
                     if available_bits_in_first_byte + (8 * i) < amount_of_bits {
-                        if not_next_bit_mask != u8::MAX {
-                            clear_quote = quote! {
-                                #clear_quote
-                                output_byte_buffer[#start #operator 1] &= #not_next_bit_mask;//test
-                            };
-                        }
                         if next_bit_mask != 0 {
                             full_quote = quote! {
                                 #full_quote
@@ -988,11 +986,6 @@ fn apply_ne_math_to_field_access_quote(
                     } else {
                         starting_inject_byte - i
                     };
-                    let not_current_bit_mask = !current_bit_mask;
-                    clear_quote = quote! {
-                        #clear_quote
-                        output_byte_buffer[#start] &= #not_current_bit_mask;
-                    };
                     if i == 0 {
                         if current_bit_mask == u8::MAX {
                             full_quote = quote! {
@@ -1070,7 +1063,7 @@ fn apply_ne_math_to_field_access_quote(
             FieldDataType::Enum(_, _, _) => return Err(syn::Error::new(field.ident.span(), "Enum was given Endianness which should be described by the struct implementing Bitfield")),
             FieldDataType::Struct(_, _) => {
                 let used_bits_in_byte = 8 - available_bits_in_first_byte;
-                quote!{output_byte_buffer[#starting_inject_byte] |= (#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte;}
+                quote!{output_byte_buffer[#starting_inject_byte] |= ((#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte) & #mask;}
             }
             FieldDataType::Float(_, _) => return Err(syn::Error::new(field.ident.span(), "Float not supported for single byte insert logic")),
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_ne_math_to_field_access_quote, which is bad."))
-- 
2.43.0


From ce1c11bd4b376abeb12b209152c0316f39f4b6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 07/44] fix: give enum ids of an odd byte count the size of
 their primitive type

---
 bondrewd-derive/src/structs/common.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 7d03b19..f12a7ca 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1096,7 +1096,7 @@ impl EnumInfo {
         Ok(FieldInfo {
             ident: Box::new(format_ident!("{}", EnumInfo::VARIANT_ID_NAME).into()),
             ty: FieldDataType::Number(
-                (self.attrs.id_bits as f64 / 8.0f64).ceil() as usize,
+                get_id_type_size(self.attrs.id_bits),
                 NumberSignage::Unsigned,
                 self.id_ident()?,
             ),
@@ -1163,6 +1163,11 @@ fn get_id_type(id_bits: usize, span: Span) -> syn::Result<TokenStream> {
     }
 }
 
+/// byte size of the primitive type that stores an enum's id of `id_bits` bits.
+fn get_id_type_size(id_bits: usize) -> usize {
+    ((id_bits as f64 / 8.0f64).ceil() as usize).next_power_of_two()
+}
+
 impl ObjectInfo {
     pub fn name(&self) -> Ident {
         match self {
@@ -1247,7 +1252,7 @@ impl ObjectInfo {
                     };
                     (
                         FieldDataType::Number(
-                            (id_bits as f64 / 8.0f64).ceil() as usize,
+                            get_id_type_size(id_bits),
                             NumberSignage::Unsigned,
                             get_id_type(id_bits, name.span())?,
                         ),
-- 
2.43.0


From c638574d9ea0f0851310227b682d55071b256e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 08/44] fix: reverse the id of an enum along with its variants

---
 bondrewd-derive/src/structs/from_bytes.rs | 5 +----
 bondrewd-derive/src/structs/into_bytes.rs | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index b0bae64..c6a2f6a 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -213,12 +213,9 @@ pub fn create_from_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
                 let field_extractor = get_field_quote(
                     &field,
-                    if flip {
-                        // condition use to be `info.attrs.flip` i think this only applies to the variants
-                        // and id_position is what is used here. but it should be done none the less.
+                    if info.attrs.attrs.flip {
                         Some(info.total_bytes() - 1)
                     } else {
                         None
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 69f9fa1..3ed6a64 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -144,12 +144,9 @@ pub fn create_into_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
                 let (field_quote, clear_quote) = get_field_quote(
                     &field,
-                    if flip {
-                        // condition use to be `info.attrs.flip` i think this only applies to the variants
-                        // and id_position is what is used here. but it should be done none the less.
+                    if info.attrs.attrs.flip {
                         Some(info.total_bytes() - 1)
                     } else {
                         None
-- 
2.43.0


From 5b768367c72c19f22d169eca572f03234a220e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 09/44] fix: require every byte of a field in slice accessors
 under reverse

---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 bondrewd-derive/src/structs/into_bytes.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index c6a2f6a..1471d74 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -514,7 +514,7 @@ fn make_peek_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - (field.attrs.bit_range.start / 8)
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 3ed6a64..3f3cf48 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -371,7 +371,7 @@ fn make_set_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - (field.attrs.bit_range.start / 8)
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
-- 
2.43.0


From 5a1ae5ced39ea2c1911d655145b58c1f40f4d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 10/44] fix: accept a total bit length for arrays that splits
 evenly between elements

---
 bondrewd-derive/src/structs/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index f12a7ca..d560ef8 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -362,7 +362,7 @@ impl FieldDataType {
                                                     "range end is less than range start",
                                                 ));
                                             }
-                                            if range.end - range.start % array_length != 0 {
+                                            if (range.end - range.start) % array_length != 0 {
                                                 return Err(
                                                     syn::Error::new(
                                                         span,
-- 
2.43.0


From 46c71d441dfa20f1c3480119d619695e7ac8b6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 11/44] fix: place enum ids and variants at the least
 significant bit under lsb0

---
 bondrewd-derive/src/structs/common.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index d560ef8..bf632e8 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1102,7 +1102,12 @@ impl EnumInfo {
             ),
             attrs: FieldAttrs {
                 endianness: Box::new(e),
-                bit_range: 0..self.attrs.id_bits,
+                bit_range: if self.attrs.attrs.lsb_zero {
+                    let total_bits = self.total_bits();
+                    total_bits - self.attrs.id_bits..total_bits
+                } else {
+                    0..self.attrs.id_bits
+                },
                 reserve: ReserveFieldOption::NotReserve,
                 overlap: OverlapOptions::None,
                 capture_id: false,
@@ -1519,6 +1524,13 @@ impl ObjectInfo {
                         });
                     }
                 }
+                // flip the variants that start at the least significant bit, the id stays first.
+                for v in variants.iter_mut().filter(|v| v.attrs.lsb_zero) {
+                    for field in v.fields.iter_mut() {
+                        field.attrs.bit_range = (largest - field.attrs.bit_range.end)
+                            ..(largest - field.attrs.bit_range.start);
+                    }
+                }
                 Ok(Self::Enum(EnumInfo {
                     name,
                     variants,
@@ -1951,7 +1963,8 @@ impl ObjectInfo {
             });
         }
 
-        if attrs.lsb_zero {
+        // enum variants are flipped by `ObjectInfo::parse` once the size of the whole enum is known.
+        if attrs.lsb_zero && !is_enum {
             for ref mut field in parsed_fields.iter_mut() {
                 field.attrs.bit_range = (bit_size - field.attrs.bit_range.end)
                     ..(bit_size - field.attrs.bit_range.start);
-- 
2.43.0


From 5113595ed11d11da1e5fc51f3a0e58fca031f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 12/44] fix: allow fill_bytes together with lsb0

---
 bondrewd-derive/src/structs/common.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index bf632e8..49081be 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1961,6 +1961,7 @@ impl ObjectInfo {
                     quote! {[u8;#fill_bytes_size]},
                 ),
             });
+            bit_size = fill_bits;
         }
 
         // enum variants are flipped by `ObjectInfo::parse` once the size of the whole enum is known.
-- 
2.43.0


From fb9b6dfee875a4455c1a3314516aa742ea2b7e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 13/44] fix: start fill bytes after every field

---
 bondrewd-derive/src/structs/common.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 49081be..d4f1e88 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1937,11 +1937,11 @@ impl ObjectInfo {
 
         // add reserve for fill bytes. this happens after bit enforcement because bit_enforcement is for checking user code.
         if let Some(fill_bits) = attrs.fill_bits {
-            let first_bit = if let Some(last_range) = parsed_fields.iter().last() {
-                last_range.attrs.bit_range.end
-            } else {
-                0_usize
-            };
+            let first_bit = parsed_fields
+                .iter()
+                .map(|field| field.attrs.bit_range.end)
+                .max()
+                .unwrap_or(0_usize);
             let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
             let ident = quote::format_ident!("bondrewd_fill_bits");
             parsed_fields.push(FieldInfo {
-- 
2.43.0


From b9e80785ff3e34f30d45d931113fadfdf3dd0a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 14/44] fix: ignore reserve fields in from_slice and from_vec

---
 bondrewd-derive/src/structs/from_bytes.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 1471d74..9866427 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -188,9 +188,14 @@ fn create_fields_quotes(
                 #from_bytes_quote
                 #peek_call;
             };
+            let from_vec_value = if field.attrs.reserve.read_field() {
+                field_extractor
+            } else {
+                quote! { Default::default() }
+            };
             from_vec_quote = quote! {
                 #from_vec_quote
-                let #field_name = #field_extractor;
+                let #field_name = #from_vec_value;
             };
         }
     }
-- 
2.43.0


From 8d40c49945da65f10f1cbf03d68553216314376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 15/44] fix: give a custom catch-all variant the lowest unused
 value

---
 bondrewd-derive/src/enums/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 3c3a8bf..bd6f329 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -409,9 +409,9 @@ impl EnumInfo {
                                     return Err(syn::Error::new(var.ident.span(), "Literal Values conflict"));
                                 }
                             }else{
-                                literal_variants.insert(i, EnumVariant{
+                                unknown_variants.push_back(EnumVariantBuilder {
+                                    value: EnumVariantBuilderType::Skip,
                                     name: var.ident.clone(),
-                                    value: EnumVariantType::Skip(Literal::usize_unsuffixed(i)),
                                 });
                             }
                         } else if let Some((_, ref discriminant)) = var.discriminant {
-- 
2.43.0


From ad1c2eba0774882ca59c09161870ffccb67fb37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 16/44] fix: generate valid code for a catch variant with a
 named field

---
 bondrewd-derive/src/enums/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/from_bytes.rs b/bondrewd-derive/src/enums/from_bytes.rs
index 417ce1c..b3e5e2a 100644
--- a/bondrewd-derive/src/enums/from_bytes.rs
+++ b/bondrewd-derive/src/enums/from_bytes.rs
@@ -19,7 +19,7 @@ pub fn generate_from_bytes(enum_info: &EnumInfo) -> syn::Result<proc_macro2::Tok
             EnumVariantType::CatchPrimitive(ref field_name) => {
                 if let Some(ref field_name) = field_name {
                     quote! {
-                        _ => Self::#name { #field_name = input },
+                        _ => Self::#name { #field_name: input },
                     }
                 } else {
                     quote! {
-- 
2.43.0


From 1b342e24e3124463f0f5cd5b0d0e1c45ec9af377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:29 +0000
Subject: [PATCH 17/44] fix: implement PartialEq of BitfieldEnum through core

---
 bondrewd-derive/src/enums/partial_eq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/partial_eq.rs b/bondrewd-derive/src/enums/partial_eq.rs
index 89264cf..1876b44 100644
--- a/bondrewd-derive/src/enums/partial_eq.rs
+++ b/bondrewd-derive/src/enums/partial_eq.rs
@@ -55,7 +55,7 @@ pub fn generate_partial_eq(enum_info: &EnumInfo) -> proc_macro2::TokenStream {
         }
     }
     quote! {
-        impl std::cmp::PartialEq<#primitive_ty> for #enum_name {
+        impl core::cmp::PartialEq<#primitive_ty> for #enum_name {
             fn eq(&self, other: &#primitive_ty) -> bool {
                 match (self, other) {
                     #comp_arms
-- 
2.43.0


From b6d240624edf4f5ba4b2fef4703ebb8d42a4f2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 18/44] fix: compare enums with their id without dyn_fns

---
 bondrewd-derive/src/lib.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/bondrewd-derive/src/lib.rs b/bondrewd-derive/src/lib.rs
index 25be53f..6730de6 100644
--- a/bondrewd-derive/src/lib.rs
+++ b/bondrewd-derive/src/lib.rs
@@ -1920,6 +1920,22 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
                 #getter_setters_quotes
                 #hex_fns_quote
             };
+            #[cfg(feature = "part_eq_enums")]
+            let id_ident = match enum_info.id_ident() {
+                Ok(ii) => ii,
+                Err(err) => {
+                    return err.to_compile_error().into();
+                }
+            };
+            #[cfg(feature = "part_eq_enums")]
+            let to_bytes_quote = quote! {
+                #to_bytes_quote
+                impl PartialEq<#id_ident> for #struct_name {
+                    fn eq(&self, other: &#id_ident) -> bool {
+                        self.id() == *other
+                    }
+                }
+            };
             if dyn_fns {
                 let from_vec_quote = fields_from_bytes.from_slice_field_fns;
                 let vis = &enum_info.vis;
@@ -1964,22 +1980,6 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
                         #from_vec_quote
                     }
                 };
-                #[cfg(feature = "part_eq_enums")]
-                let id_ident = match enum_info.id_ident() {
-                    Ok(ii) => ii,
-                    Err(err) => {
-                        return err.to_compile_error().into();
-                    }
-                };
-                #[cfg(feature = "part_eq_enums")]
-                let to_bytes_quote = quote! {
-                    #to_bytes_quote
-                    impl PartialEq<#id_ident> for #struct_name {
-                        fn eq(&self, other: &#id_ident) -> bool {
-                            self.id() == *other
-                        }
-                    }
-                };
                 TokenStream::from(to_bytes_quote)
             } else {
                 TokenStream::from(to_bytes_quote)
-- 
2.43.0


From ddfc1e36648fa79ba80e0f79bf8110e40a3725ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 19/44] fix: make the code behind dyn_fns no_std capable

---
 bondrewd-derive/src/structs/from_bytes.rs |  4 ++--
 bondrewd/src/hex.rs                       |  2 +-
 bondrewd/src/lib.rs                       | 12 +++++++++++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 9866427..d59537e 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -383,7 +383,7 @@ pub fn create_from_bytes_field_quotes_enum(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::exports::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
@@ -458,7 +458,7 @@ pub fn create_from_bytes_field_quotes(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::exports::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
diff --git a/bondrewd/src/hex.rs b/bondrewd/src/hex.rs
index e5a10ac..3254a4f 100644
--- a/bondrewd/src/hex.rs
+++ b/bondrewd/src/hex.rs
@@ -63,7 +63,7 @@ where
 {
     const UPPERS: &'static [u8; 16] = b"0123456789ABCDEF";
     const LOWERS: &'static [u8; 16] = b"0123456789abcdef";
-    fn from_hex_vec(hex: &mut Vec<u8>) -> Result<Self, crate::BitfieldHexDynError>{
+    fn from_hex_vec(hex: &mut crate::exports::Vec<u8>) -> Result<Self, crate::BitfieldHexDynError>{
         if hex.len() < HEX_SIZE {
             return Err(crate::BitfieldHexDynError::Length(
                 crate::BitfieldLengthError(hex.len(), HEX_SIZE)
diff --git a/bondrewd/src/lib.rs b/bondrewd/src/lib.rs
index 3abad24..5ff8d91 100644
--- a/bondrewd/src/lib.rs
+++ b/bondrewd/src/lib.rs
@@ -2,6 +2,9 @@
 //! Defined Traits for bondrewd-derive.
 //! For Derive Docs see [bondrewd-derive](https://docs.rs/bondrewd-derive/latest/bondrewd_derive/)
 
+#[cfg(feature = "dyn_fns")]
+extern crate alloc;
+
 mod error;
 #[cfg(feature = "hex_fns")]
 pub use error::BitfieldHexError;
@@ -25,12 +28,19 @@ pub trait Bitfields<const SIZE: usize> {
     fn from_bytes(input_byte_buffer: [u8; SIZE]) -> Self;
 }
 
+/// Types used by generated code which are not part of `core`.
+#[cfg(feature = "dyn_fns")]
+#[doc(hidden)]
+pub mod exports {
+    pub use alloc::vec::Vec;
+}
+
 #[cfg(feature = "dyn_fns")]
 pub trait BitfieldsDyn<const SIZE: usize>: Bitfields<SIZE>
 where 
     Self: Sized
 {
-    fn from_vec(input_byte_buffer: &mut Vec<u8>) -> Result<Self, BitfieldLengthError>;
+    fn from_vec(input_byte_buffer: &mut exports::Vec<u8>) -> Result<Self, BitfieldLengthError>;
     fn from_slice(input_byte_buffer: &[u8]) -> Result<Self, BitfieldLengthError>;
 }
 
-- 
2.43.0


From 7bf727ba0fd16c27f4e613d35644f3e83977e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 20/44] fix: read a captured id with the endianness of the id

---
 bondrewd-derive/src/structs/common.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index d4f1e88..3ad5742 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1886,6 +1886,13 @@ impl ObjectInfo {
                                         return Err(Error::new(field.span(), format!("capture_id field currently must be {bon_ty} in this instance, because bondrewd makes an assumption about the id type. changing this would be difficult")));
                                     }
                                     let old_id = parsed_fields.remove(0);
+                                    // the captured value is the id, so it is stored like the id is.
+                                    parsed_field.attrs.endianness =
+                                        if old_id.attrs.endianness.has_endianness() {
+                                            old_id.attrs.endianness.clone()
+                                        } else {
+                                            Box::new(Endianness::Little)
+                                        };
                                     if tuple {
                                         parsed_field.ident = old_id.ident;
                                     }
-- 
2.43.0


From bd53a4ced2f3b596ab70798accfa4f34a2ab7a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 21/44] fix: check the width of array elements against one
 element, not the whole array

---
 bondrewd-derive/src/structs/common.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 3ad5742..90e85c5 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -280,6 +280,14 @@ impl FieldDataType {
                                     };
                                     let mut sub_attrs = attrs.clone();
                                     if let Type::Array(_) = array_path.elem.as_ref() {
+                                    } else if let FieldBuilderRange::Range(ref range) =
+                                        attrs.bit_range
+                                    {
+                                        sub_attrs.bit_range = FieldBuilderRange::Range(
+                                            range.start..range.start + *element_bit_size,
+                                        );
+                                    }
+                                    if let Type::Array(_) = array_path.elem.as_ref() {
                                     } else if let Some(ref ty) = sub.as_ref() {
                                         sub_attrs.ty = ty.clone();
                                     } else {
@@ -347,6 +355,14 @@ impl FieldDataType {
                                     if let Type::Array(_) = array_path.elem.as_ref() {
                                     } else {
                                         sub_attrs.ty = FieldAttrBuilderType::None;
+                                        if let (FieldBuilderRange::Range(ref range), true) =
+                                            (&attrs.bit_range, array_length != 0)
+                                        {
+                                            let total = range.end.saturating_sub(range.start);
+                                            sub_attrs.bit_range = FieldBuilderRange::Range(
+                                                range.start..range.start + total / array_length,
+                                            );
+                                        }
                                     }
                                     let sub_ty = Self::parse(
                                         &array_path.elem,
-- 
2.43.0


From 45469e92c72b793d2b9e770f0476abb11728569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 22/44] fix: reject fields that are wider than their type

---
 bondrewd-derive/src/structs/common.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 90e85c5..30d63ce 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -206,6 +206,17 @@ impl FieldDataType {
         }
     }
 
+    /// The widest bit range a value of this type can fill, `None` if there is no limit.
+    pub fn max_bit_length(&self) -> Option<usize> {
+        match self {
+            Self::Boolean => None,
+            Self::BlockArray(sub, length, _) | Self::ElementArray(sub, length, _) => {
+                sub.ty.max_bit_length().map(|bits| bits * length)
+            }
+            _ => Some(self.size() * 8),
+        }
+    }
+
     pub fn parse(
         ty: &syn::Type,
         attrs: &mut FieldAttrBuilder,
@@ -953,6 +964,19 @@ impl FieldInfo {
             }
         };
 
+        // a field can not be wider than the type that stores it.
+        if let Some(max) = data_type.max_bit_length() {
+            if attrs.bit_length() > max {
+                return Err(Error::new(
+                    field.span(),
+                    format!(
+                        "field's type doesn't fit the bit size, {} bits were given but the type only has {max}",
+                        attrs.bit_length()
+                    ),
+                ));
+            }
+        }
+
         // construct the field we are parsed.
         let new_field = FieldInfo {
             ident: Box::new(ident),
-- 
2.43.0


From fc02537bc81a29be0d9321a2a49b9697ca476cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:25 +0000
Subject: [PATCH 23/44] fix: reject BitfieldEnum values that do not fit in the
 primitive

---
 bondrewd-derive/src/enums/parse.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index bd6f329..2a2fd9a 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -583,6 +583,20 @@ impl EnumInfo {
             }
         }
 
+        // every value must fit in the primitive, otherwise the variant could never be read back.
+        for var in variants.iter() {
+            if let EnumVariantType::UnsignedValue(ref lit) | EnumVariantType::CatchAll(ref lit) =
+                var.value
+            {
+                if lit.to_string().parse::<u8>().is_err() {
+                    return Err(syn::Error::new(
+                        var.name.span(),
+                        format!("variant value {lit} does not fit in u8"),
+                    ));
+                }
+            }
+        }
+
         let info = EnumInfo {
             name: input.ident.clone(),
             partial_eq,
-- 
2.43.0


From 8cdb8678d21d61028a98610979460040833408f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 24/44] fix: reject a second invalid variant in BitfieldEnum

---
 bondrewd-derive/src/enums/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 2a2fd9a..313cc69 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -398,7 +398,7 @@ impl EnumInfo {
                         }
                     } else {
                         // This is one of the possible variants to use, check for a custom discriminant
-                         if invalid_found.is_none() && Self::parse_attrs(&var.attrs, var, &mut primitive_type, &mut invalid_found)? {
+                         if Self::parse_attrs(&var.attrs, var, &mut primitive_type, &mut invalid_found)? {
                             if let Some((_, ref discriminant)) = var.discriminant {
                                 // Parse the discriminant and validate its able to be used
                                 let discriminant_val = Self::parse_lit_discriminant_expr(discriminant)?;
-- 
2.43.0


From a1bcef3df5459560918ecccb3fbf32bcbbc8b7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:44 +0000
Subject: [PATCH 25/44] fix: reject an unknown default_endianness

---
 bondrewd-derive/src/structs/common.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 30d63ce..2a1611a 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1764,7 +1764,12 @@ impl ObjectInfo {
                             }
                             "be" | "msb" | "big" => info.default_endianess = Endianness::Big,
                             "ne" | "native" => info.default_endianess = Endianness::None,
-                            _ => {}
+                            other => {
+                                return Err(syn::Error::new(
+                                    span,
+                                    format!("\"{other}\" is not a valid endianness use le or be"),
+                                ))
+                            }
                         }
                     } else {
                         return Err(syn::Error::new(
-- 
2.43.0


From 37f09e142dfd5cf72a8f5838da95e7bdf009050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 26/44] fix: report wrong sizes instead of underflowing while
 deriving

---
 bondrewd-derive/src/enums/parse.rs    |  3 +++
 bondrewd-derive/src/structs/common.rs | 25 +++++++++++++++++++++++++
 bondrewd-derive/src/structs/parse.rs  |  6 ++++++
 3 files changed, 34 insertions(+)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 313cc69..da5480a 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -300,6 +300,9 @@ impl EnumInfo {
         let mut unknown_variants: std::collections::VecDeque<EnumVariantBuilder> =
             Default::default();
         let mut invalid_found: Option<EnumVariantBuilder> = None;
+        if data.variants.is_empty() {
+            return Err(Error::new(input.ident.span(), "found no variants"));
+        }
         let last_variant = data.variants.len() - 1;
         for (var, i) in data.variants.iter().zip(0..data.variants.len()) {
             let test_len = literal_variants.len() + unknown_variants.len();
diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 2a1611a..bd42737 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -977,6 +977,25 @@ impl FieldInfo {
             }
         }
 
+        // all elements of a block array but the first use their full size.
+        if let FieldDataType::BlockArray(ref sub, length, _) = data_type {
+            let element_bits = sub.ty.size() * 8;
+            if attrs.bit_length() <= element_bits * length.saturating_sub(1) {
+                return Err(Error::new(
+                    field.span(),
+                    "not enough bits for each element of the block array",
+                ));
+            }
+        }
+        if let OverlapOptions::Allow(bits) = attrs.overlap {
+            if bits > attrs.bit_length() {
+                return Err(Error::new(
+                    field.span(),
+                    "overlapping_bits is larger than the field",
+                ));
+            }
+        }
+
         // construct the field we are parsed.
         let new_field = FieldInfo {
             ident: Box::new(ident),
@@ -1994,6 +2013,12 @@ impl ObjectInfo {
                 .map(|field| field.attrs.bit_range.end)
                 .max()
                 .unwrap_or(0_usize);
+            if fill_bits < first_bit {
+                return Err(syn::Error::new(
+                    name.span(),
+                    format!("fill_bytes is {fill_bits} bits but the fields use {first_bit} bits"),
+                ));
+            }
             let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
             let ident = quote::format_ident!("bondrewd_fill_bits");
             parsed_fields.push(FieldInfo {
diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index 3a6d842..359f7f2 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -278,6 +278,12 @@ impl FieldAttrBuilder {
                                 let split = val_string.split("..").collect::<Vec<&str>>();
                                 if split.len() == 2 {
                                     match (split[0].parse::<usize>(), split[1].parse::<usize>()) {
+                                        (Ok(start), Ok(end)) if end < start => {
+                                            return Err(Error::new(
+                                                builder.span(),
+                                                "range end is less than range start",
+                                            ));
+                                        }
                                         (Ok(start), Ok(end)) => match builder.bit_range {
                                             FieldBuilderRange::Range(ref range) => {
                                                 if range.end - range.start == end - start {
-- 
2.43.0


From 08880eee13dacd098a4fc5c4267a7637eda9deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:35 +0000
Subject: [PATCH 27/44] fix: count the gaps that bits attributes leave between
 fields

---
 bondrewd-derive/src/structs/common.rs | 33 +++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index bd42737..8139efb 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -2006,6 +2006,39 @@ impl ObjectInfo {
             }
         }
 
+        // bits no field was placed on (`bits` attributes can leave gaps) still take up space.
+        let mut used: Vec<Range<usize>> = parsed_fields
+            .iter()
+            .map(|field| field.attrs.bit_range.clone())
+            .collect();
+        used.sort_by_key(|range| range.start);
+        let mut end = 0;
+        for range in used {
+            if range.start > end {
+                let gap_bytes = (range.start - end + 7) / 8;
+                let ident = quote::format_ident!("bondrewd_gap_{}", end);
+                parsed_fields.push(FieldInfo {
+                    ident: Box::new(ident.into()),
+                    attrs: FieldAttrs {
+                        bit_range: end..range.start,
+                        endianness: Box::new(Endianness::Big),
+                        reserve: ReserveFieldOption::FakeReserveField,
+                        overlap: OverlapOptions::None,
+                        capture_id: false,
+                    },
+                    ty: FieldDataType::BlockArray(
+                        Box::new(SubFieldInfo {
+                            ty: FieldDataType::Number(1, NumberSignage::Unsigned, quote! {u8}),
+                        }),
+                        gap_bytes,
+                        quote! {[u8;#gap_bytes]},
+                    ),
+                });
+                bit_size += range.start - end;
+            }
+            end = end.max(range.end);
+        }
+
         // add reserve for fill bytes. this happens after bit enforcement because bit_enforcement is for checking user code.
         if let Some(fill_bits) = attrs.fill_bits {
             let first_bit = parsed_fields
-- 
2.43.0


From ecefd9e5cbb53726bc14607c7ab75c5e43baae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:48 +0000
Subject: [PATCH 28/44] fix: allow fill_bytes of exactly the size of the fields
 with lsb0

---
 bondrewd-derive/src/structs/common.rs | 40 ++++++++++++++-------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 8139efb..3cc0ef2 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -2052,25 +2052,27 @@ impl ObjectInfo {
                     format!("fill_bytes is {fill_bits} bits but the fields use {first_bit} bits"),
                 ));
             }
-            let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
-            let ident = quote::format_ident!("bondrewd_fill_bits");
-            parsed_fields.push(FieldInfo {
-                ident: Box::new(ident.into()),
-                attrs: FieldAttrs {
-                    bit_range: first_bit..fill_bits,
-                    endianness: Box::new(Endianness::Big),
-                    reserve: ReserveFieldOption::FakeReserveField,
-                    overlap: OverlapOptions::None,
-                    capture_id: false,
-                },
-                ty: FieldDataType::BlockArray(
-                    Box::new(SubFieldInfo {
-                        ty: FieldDataType::Number(1, NumberSignage::Unsigned, quote! {u8}),
-                    }),
-                    fill_bytes_size,
-                    quote! {[u8;#fill_bytes_size]},
-                ),
-            });
+            if first_bit < fill_bits {
+                let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
+                let ident = quote::format_ident!("bondrewd_fill_bits");
+                parsed_fields.push(FieldInfo {
+                    ident: Box::new(ident.into()),
+                    attrs: FieldAttrs {
+                        bit_range: first_bit..fill_bits,
+                        endianness: Box::new(Endianness::Big),
+                        reserve: ReserveFieldOption::FakeReserveField,
+                        overlap: OverlapOptions::None,
+                        capture_id: false,
+                    },
+                    ty: FieldDataType::BlockArray(
+                        Box::new(SubFieldInfo {
+                            ty: FieldDataType::Number(1, NumberSignage::Unsigned, quote! {u8}),
+                        }),
+                        fill_bytes_size,
+                        quote! {[u8;#fill_bytes_size]},
+                    ),
+                });
+            }
             bit_size = fill_bits;
         }
 
-- 
2.43.0


From 1e70f75c83f5cf4929822a3ff44a3352a26b879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:29 +0000
Subject: [PATCH 29/44] fix: do not let redundant fields hide gaps between
 fields

---
 bondrewd-derive/src/structs/common.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 3cc0ef2..18e2561 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -2009,6 +2009,7 @@ impl ObjectInfo {
         // bits no field was placed on (`bits` attributes can leave gaps) still take up space.
         let mut used: Vec<Range<usize>> = parsed_fields
             .iter()
+            .filter(|field| !field.attrs.overlap.is_redundant())
             .map(|field| field.attrs.bit_range.clone())
             .collect();
         used.sort_by_key(|range| range.start);
-- 
2.43.0


From 24bffa86281b88c26261a1fffee4ed788a956d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 30/44] fix: size an enum's id by what the total leaves besides
 the payload

---
 bondrewd-derive/src/structs/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 18e2561..12c3641 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1512,7 +1512,7 @@ impl ObjectInfo {
                         } else {
                             EnumAttrInfo {
                                 payload_bit_size: largest,
-                                id_bits: min_id_size,
+                                id_bits,
                                 id_position: enum_attrs.id_position,
                                 attrs: attrs.clone(),
                             }
-- 
2.43.0


From 142f19affe6b5aa20ccd694eac72435adedc9ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 31/44] fix: allow id, payload and total size of an enum
 together

---
 bondrewd-derive/src/structs/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 12c3641..c47e10e 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1497,7 +1497,7 @@ impl ObjectInfo {
                                     format!("total_size, payload_size, and id_size where all specified but id_size ({id}) + payload_size ({payload}) is not equal to total_size ({total})"),
                                 ));
                             }
-                            if payload < largest {
+                            if payload + id < largest {
                                 return Err(Error::new(
                                     data.enum_token.span(),
                                     format!("detected a variant over the maximum defined size."),
-- 
2.43.0


From d474a88f8007b995c5e2a6d5ff3a307f5e60bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 32/44] fix: name Result and PartialEq by path in generated
 code

---
 bondrewd-derive/src/lib.rs                |  2 +-
 bondrewd-derive/src/structs/from_bytes.rs | 12 ++++++------
 bondrewd-derive/src/structs/into_bytes.rs |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/bondrewd-derive/src/lib.rs b/bondrewd-derive/src/lib.rs
index 6730de6..5a85356 100644
--- a/bondrewd-derive/src/lib.rs
+++ b/bondrewd-derive/src/lib.rs
@@ -1930,7 +1930,7 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
             #[cfg(feature = "part_eq_enums")]
             let to_bytes_quote = quote! {
                 #to_bytes_quote
-                impl PartialEq<#id_ident> for #struct_name {
+                impl core::cmp::PartialEq<#id_ident> for #struct_name {
                     fn eq(&self, other: &#id_ident) -> bool {
                         self.id() == *other
                     }
diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index d59537e..8a9cee9 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -84,7 +84,7 @@ fn get_check_slice_fn(
     );
     quote! {
         #[doc = #comment]
-        pub fn check_slice(buffer: &[u8]) -> Result<#checked_ident, bondrewd::BitfieldLengthError> {
+        pub fn check_slice(buffer: &[u8]) -> core::result::Result<#checked_ident, bondrewd::BitfieldLengthError> {
             let buf_len = buffer.len();
             if buf_len >= #check_size {
                 Ok(#checked_ident {
@@ -383,7 +383,7 @@ pub fn create_from_bytes_field_quotes_enum(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut bondrewd::exports::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::exports::Vec<u8>) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
@@ -395,7 +395,7 @@ pub fn create_from_bytes_field_quotes_enum(
                 Ok(out)
             }
             #[doc = #comment]
-            fn from_slice(input_byte_buffer: &[u8]) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_slice(input_byte_buffer: &[u8]) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
@@ -458,7 +458,7 @@ pub fn create_from_bytes_field_quotes(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut bondrewd::exports::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::exports::Vec<u8>) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
@@ -472,7 +472,7 @@ pub fn create_from_bytes_field_quotes(
                 Ok(out)
             }
             #[doc = #comment]
-            fn from_slice(input_byte_buffer: &[u8]) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_slice(input_byte_buffer: &[u8]) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
@@ -527,7 +527,7 @@ fn make_peek_slice_fn(
     Ok(quote! {
         #[inline]
         #[doc = #comment]
-        pub fn #fn_field_name(input_byte_buffer: &[u8]) -> Result<#type_ident, bondrewd::BitfieldLengthError> {
+        pub fn #fn_field_name(input_byte_buffer: &[u8]) -> core::result::Result<#type_ident, bondrewd::BitfieldLengthError> {
             let slice_length = input_byte_buffer.len();
             if slice_length < #min_length {
                 Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 3f3cf48..9f240e5 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -24,7 +24,7 @@ fn make_checked_mut_func(name: &Ident, struct_size: usize) -> TokenStream {
     let comment = format!("Returns a [{checked_ident}] which allows you to read/write any field for a `{name}` from/to provided mutable slice.");
     quote! {
         #[doc = #comment]
-        pub fn check_slice_mut(buffer: &mut [u8]) -> Result<#checked_ident, bondrewd::BitfieldLengthError> {
+        pub fn check_slice_mut(buffer: &mut [u8]) -> core::result::Result<#checked_ident, bondrewd::BitfieldLengthError> {
             let buf_len = buffer.len();
             if buf_len >= #struct_size {
                 Ok(#checked_ident {
@@ -379,7 +379,7 @@ fn make_set_slice_fn(
     Ok(quote! {
         #[inline]
         #[doc = #comment]
-        pub fn #fn_field_name(output_byte_buffer: &mut [u8], #field_name: #type_ident) -> Result<(), bondrewd::BitfieldLengthError> {
+        pub fn #fn_field_name(output_byte_buffer: &mut [u8], #field_name: #type_ident) -> core::result::Result<(), bondrewd::BitfieldLengthError> {
             let slice_length = output_byte_buffer.len();
             if slice_length < #min_length {
                 Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
-- 
2.43.0


From 0f078f3c8c9aa6438add56ecfeb6108d78daa460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 33/44] fix: do not shadow a field named slice_length when
 writing to a slice

---
 bondrewd-derive/src/structs/into_bytes.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 9f240e5..2046836 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -380,9 +380,8 @@ fn make_set_slice_fn(
         #[inline]
         #[doc = #comment]
         pub fn #fn_field_name(output_byte_buffer: &mut [u8], #field_name: #type_ident) -> core::result::Result<(), bondrewd::BitfieldLengthError> {
-            let slice_length = output_byte_buffer.len();
-            if slice_length < #min_length {
-                Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
+            if output_byte_buffer.len() < #min_length {
+                Err(bondrewd::BitfieldLengthError(output_byte_buffer.len(), #min_length))
             } else {
                 #clear_quote
                 #field_quote
-- 
2.43.0


From 153d45882148fc605ed0bb0383ee53ed69665fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 34/44] fix: accept raw identifiers as field names

---
 bondrewd-derive/src/structs/from_bytes.rs | 16 ++++++++--------
 bondrewd-derive/src/structs/into_bytes.rs | 14 +++++++-------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 8a9cee9..6306a36 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -173,9 +173,9 @@ fn create_fields_quotes(
                 // put the field extraction in the actual from bytes.
                 if field.attrs.reserve.read_field() {
                     let fn_field_name = if let Some(ref p) = lower_name {
-                        format_ident!("read_{p}_{field_name}")
+                        format_ident!("read_{}_{}", p, field_name)
                     } else {
-                        format_ident!("read_{field_name}")
+                        format_ident!("read_{}", field_name)
                     };
                     quote! {
                         let #field_name = Self::#fn_field_name(&input_byte_buffer);
@@ -510,11 +510,11 @@ fn make_peek_slice_fn(
     prefix: &Option<Ident>,
 ) -> syn::Result<TokenStream> {
     let field_name = if let Some(p) = prefix {
-        format_ident!("{p}_{}", field.ident().ident())
+        format_ident!("{}_{}", p, field.ident().ident())
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_slice_{field_name}");
+    let fn_field_name = format_ident!("read_slice_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
@@ -547,11 +547,11 @@ fn make_peek_slice_unchecked_fn(
     prefix: &Option<Ident>,
 ) -> syn::Result<TokenStream> {
     let field_name = if let Some(p) = prefix {
-        format_ident!("{p}_{}", field.ident().ident())
+        format_ident!("{}_{}", p, field.ident().ident())
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_{field_name}");
+    let fn_field_name = format_ident!("read_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
@@ -575,11 +575,11 @@ fn make_peek_fn(
     prefix: &Option<Ident>,
 ) -> syn::Result<TokenStream> {
     let field_name = if let Some(p) = prefix {
-        format_ident!("{p}_{}", field.ident().ident())
+        format_ident!("{}_{}", p, field.ident().ident())
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_{field_name}");
+    let fn_field_name = format_ident!("read_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 2046836..6adf3cf 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -88,7 +88,7 @@ fn create_fields_quotes(
         )?;
         if field.attrs.reserve.write_field() {
             if let Some(ref name) = lower_name {
-                let fn_name = format_ident!("write_{name}_{field_name}");
+                let fn_name = format_ident!("write_{}_{}", name, field_name);
                 into_bytes_quote = quote! {
                     #into_bytes_quote
                     Self::#fn_name(&mut output_byte_buffer, #field_name);
@@ -363,9 +363,9 @@ fn make_set_slice_fn(
 ) -> syn::Result<TokenStream> {
     let field_name = field.ident().ident();
     let fn_field_name = if let Some(p) = prefix {
-        format_ident!("write_slice_{p}_{field_name}")
+        format_ident!("write_slice_{}_{}", p, field_name)
     } else {
-        format_ident!("write_slice_{field_name}")
+        format_ident!("write_slice_{}", field_name)
     };
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
@@ -401,9 +401,9 @@ fn make_set_slice_unchecked_fn(
 ) -> syn::Result<TokenStream> {
     let field_name = field.ident().ident();
     let fn_field_name = if let Some(p) = prefix {
-        format_ident!("write_{p}_{field_name}")
+        format_ident!("write_{}_{}", p, field_name)
     } else {
-        format_ident!("write_{field_name}")
+        format_ident!("write_{}", field_name)
     };
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
@@ -431,9 +431,9 @@ fn make_set_fn(
 ) -> syn::Result<TokenStream> {
     let field_name_short = field.ident().ident();
     let field_name = if let Some(p) = prefix {
-        format_ident!("{p}_{field_name_short}")
+        format_ident!("{}_{}", p, field_name_short)
     } else {
-        format_ident!("{field_name_short}")
+        field_name_short.clone()
     };
     let struct_size = info.total_bytes();
     let bit_range = &field.attrs.bit_range;
-- 
2.43.0


From 05b80f8c0e88a43c4ab0d7e24b66278d884f746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 35/44] fix: use absolute core paths in generated code

---
 bondrewd-derive/src/enums/partial_eq.rs   |  2 +-
 bondrewd-derive/src/lib.rs                |  2 +-
 bondrewd-derive/src/structs/from_bytes.rs | 12 ++++++------
 bondrewd-derive/src/structs/into_bytes.rs |  4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/bondrewd-derive/src/enums/partial_eq.rs b/bondrewd-derive/src/enums/partial_eq.rs
index 1876b44..fad519c 100644
--- a/bondrewd-derive/src/enums/partial_eq.rs
+++ b/bondrewd-derive/src/enums/partial_eq.rs
@@ -55,7 +55,7 @@ pub fn generate_partial_eq(enum_info: &EnumInfo) -> proc_macro2::TokenStream {
         }
     }
     quote! {
-        impl core::cmp::PartialEq<#primitive_ty> for #enum_name {
+        impl ::core::cmp::PartialEq<#primitive_ty> for #enum_name {
             fn eq(&self, other: &#primitive_ty) -> bool {
                 match (self, other) {
                     #comp_arms
diff --git a/bondrewd-derive/src/lib.rs b/bondrewd-derive/src/lib.rs
index 5a85356..2f384e4 100644
--- a/bondrewd-derive/src/lib.rs
+++ b/bondrewd-derive/src/lib.rs
@@ -1930,7 +1930,7 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
             #[cfg(feature = "part_eq_enums")]
             let to_bytes_quote = quote! {
                 #to_bytes_quote
-                impl core::cmp::PartialEq<#id_ident> for #struct_name {
+                impl ::core::cmp::PartialEq<#id_ident> for #struct_name {
                     fn eq(&self, other: &#id_ident) -> bool {
                         self.id() == *other
                     }
diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 6306a36..5437b16 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -84,7 +84,7 @@ fn get_check_slice_fn(
     );
     quote! {
         #[doc = #comment]
-        pub fn check_slice(buffer: &[u8]) -> core::result::Result<#checked_ident, bondrewd::BitfieldLengthError> {
+        pub fn check_slice(buffer: &[u8]) -> ::core::result::Result<#checked_ident, bondrewd::BitfieldLengthError> {
             let buf_len = buffer.len();
             if buf_len >= #check_size {
                 Ok(#checked_ident {
@@ -383,7 +383,7 @@ pub fn create_from_bytes_field_quotes_enum(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut bondrewd::exports::Vec<u8>) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::exports::Vec<u8>) -> ::core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
@@ -395,7 +395,7 @@ pub fn create_from_bytes_field_quotes_enum(
                 Ok(out)
             }
             #[doc = #comment]
-            fn from_slice(input_byte_buffer: &[u8]) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_slice(input_byte_buffer: &[u8]) -> ::core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
@@ -458,7 +458,7 @@ pub fn create_from_bytes_field_quotes(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut bondrewd::exports::Vec<u8>) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::exports::Vec<u8>) -> ::core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
@@ -472,7 +472,7 @@ pub fn create_from_bytes_field_quotes(
                 Ok(out)
             }
             #[doc = #comment]
-            fn from_slice(input_byte_buffer: &[u8]) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_slice(input_byte_buffer: &[u8]) -> ::core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
@@ -527,7 +527,7 @@ fn make_peek_slice_fn(
     Ok(quote! {
         #[inline]
         #[doc = #comment]
-        pub fn #fn_field_name(input_byte_buffer: &[u8]) -> core::result::Result<#type_ident, bondrewd::BitfieldLengthError> {
+        pub fn #fn_field_name(input_byte_buffer: &[u8]) -> ::core::result::Result<#type_ident, bondrewd::BitfieldLengthError> {
             let slice_length = input_byte_buffer.len();
             if slice_length < #min_length {
                 Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 6adf3cf..ae62809 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -24,7 +24,7 @@ fn make_checked_mut_func(name: &Ident, struct_size: usize) -> TokenStream {
     let comment = format!("Returns a [{checked_ident}] which allows you to read/write any field for a `{name}` from/to provided mutable slice.");
     quote! {
         #[doc = #comment]
-        pub fn check_slice_mut(buffer: &mut [u8]) -> core::result::Result<#checked_ident, bondrewd::BitfieldLengthError> {
+        pub fn check_slice_mut(buffer: &mut [u8]) -> ::core::result::Result<#checked_ident, bondrewd::BitfieldLengthError> {
             let buf_len = buffer.len();
             if buf_len >= #struct_size {
                 Ok(#checked_ident {
@@ -379,7 +379,7 @@ fn make_set_slice_fn(
     Ok(quote! {
         #[inline]
         #[doc = #comment]
-        pub fn #fn_field_name(output_byte_buffer: &mut [u8], #field_name: #type_ident) -> core::result::Result<(), bondrewd::BitfieldLengthError> {
+        pub fn #fn_field_name(output_byte_buffer: &mut [u8], #field_name: #type_ident) -> ::core::result::Result<(), bondrewd::BitfieldLengthError> {
             if output_byte_buffer.len() < #min_length {
                 Err(bondrewd::BitfieldLengthError(output_byte_buffer.len(), #min_length))
             } else {
-- 
2.43.0


From 94bfd9b09ab11cf73fa40c5df638face3b68cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 36/44] fix: name Default by path in generated code

---
 bondrewd-derive/src/structs/from_bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 5437b16..037e9a5 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -181,7 +181,7 @@ fn create_fields_quotes(
                         let #field_name = Self::#fn_field_name(&input_byte_buffer);
                     }
                 } else {
-                    quote! { let #field_name = Default::default(); }
+                    quote! { let #field_name = ::core::default::Default::default(); }
                 }
             };
             from_bytes_quote = quote! {
@@ -191,7 +191,7 @@ fn create_fields_quotes(
             let from_vec_value = if field.attrs.reserve.read_field() {
                 field_extractor
             } else {
-                quote! { Default::default() }
+                quote! { ::core::default::Default::default() }
             };
             from_vec_quote = quote! {
                 #from_vec_quote
-- 
2.43.0


From cfa02ceb8d7f4a9b6ee3b685bcb36cfad8d0e34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:15 +0000
Subject: [PATCH 37/44] fix: leave attributes of others alone

---
 bondrewd-derive/src/enums/parse.rs    | 6 ++++++
 bondrewd-derive/src/structs/common.rs | 6 ++++++
 bondrewd-derive/src/structs/parse.rs  | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index da5480a..8bd8c19 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -230,6 +230,9 @@ impl EnumInfo {
         let mut temp: Option<Ident> = None;
         let mut temp_invalid = invalid_found.clone();
         for attr in attrs {
+            if !attr.path.is_ident("bondrewd_enum") {
+                continue;
+            }
             match Self::parse_meta(attr.parse_meta()?, &mut temp_invalid, &mut temp, var)? {
                 ParseMetaResult::FoundInvalid => {
                     std::mem::swap(&mut temp, primitive_type);
@@ -259,6 +262,9 @@ impl EnumInfo {
         let mut primitive_type: Option<Ident> = None;
         let mut partial_eq = false;
         for attr in &input.attrs {
+            if !attr.path.is_ident("bondrewd_enum") {
+                continue;
+            }
             match attr.parse_meta()? {
                 Meta::NameValue(_) => {}
                 Meta::Path(_) => {}
diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index c47e10e..5671317 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1245,6 +1245,9 @@ impl ObjectInfo {
         is_variant: bool,
     ) -> syn::Result<()> {
         for attr in attrs.iter() {
+            if !attr.path.is_ident("bondrewd") {
+                continue;
+            }
             let span = attr.pound_token.span();
             let meta = attr.parse_meta()?;
             Self::parse_struct_attrs_meta(span, attrs_info, &meta, is_variant)?;
@@ -1258,6 +1261,9 @@ impl ObjectInfo {
         enum_attrs_info: &mut EnumAttrInfoBuilder,
     ) -> syn::Result<()> {
         for attr in attrs.iter() {
+            if !attr.path.is_ident("bondrewd") {
+                continue;
+            }
             let span = attr.pound_token.span();
             let meta = attr.parse_meta()?;
             Self::parse_enum_attrs_meta(span, attrs_info, enum_attrs_info, &meta)?;
diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index 359f7f2..2ad7b9c 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -105,6 +105,9 @@ impl FieldAttrBuilder {
         // complete range which occupies the same space as this field and that field is not the "last_field"
         // you will get a conflicting fields error returned to the user... hopefully )
         for attr in field.attrs.iter() {
+            if !attr.path.is_ident("bondrewd") {
+                continue;
+            }
             let meta = attr.parse_meta()?;
             Self::parse_meta(meta, &last_field, &mut builder)?;
         }
-- 
2.43.0


From f591038b3742437ad69c985830b325fcb2bccd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 38/44] fix: keep the path of a nested type

---
 bondrewd-derive/src/structs/common.rs     | 16 +++-------------
 bondrewd-derive/src/structs/from_bytes.rs |  4 ++--
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 5671317..38bc610 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -227,22 +227,12 @@ impl FieldDataType {
             Type::Path(ref path) => match attrs.ty {
                 FieldAttrBuilderType::Struct(ref size) => FieldDataType::Struct(
                     *size,
-                    if let Some(last_segment) = path.path.segments.last() {
-                        let asdf = &last_segment.ident;
-                        quote! {#asdf}
-                    } else {
-                        return Err(syn::Error::new(span, "field has no Type?"));
-                    },
+                    quote! {#path},
                 ),
                 FieldAttrBuilderType::Enum(ref size, ref prim) => FieldDataType::Enum(
                     quote! {#prim},
                     *size,
-                    if let Some(last_segment) = path.path.segments.last() {
-                        let asdf = &last_segment.ident;
-                        quote! {#asdf}
-                    } else {
-                        return Err(syn::Error::new(span, "field has no Type?"));
-                    },
+                    quote! {#path},
                 ),
                 _ => Self::parse_path(&path.path, attrs, span)?,
             },
@@ -563,7 +553,7 @@ impl FieldDataType {
                                         ));
                                     }
                                 },
-                                quote! {#type_quote},
+                                quote! {#path},
                             ))
                             // Err(Error::new(
                             //     field_span,
diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 037e9a5..0d54c08 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -650,10 +650,10 @@ fn get_field_quote(
             }
         }
         FieldDataType::Enum(_, _, ref ident) => {
-            quote! {#ident::from_primitive(#value_retrieval)}
+            quote! {<#ident>::from_primitive(#value_retrieval)}
         }
         FieldDataType::Struct(_, ref ident) => {
-            quote! {#ident::from_bytes({#value_retrieval})}
+            quote! {<#ident>::from_bytes({#value_retrieval})}
         }
         _ => {
             quote! {#value_retrieval}
-- 
2.43.0


From 1a2b1121a60b3e2139e3f82328010960a8234881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 39/44] fix: accept field types that come through a macro

---
 bondrewd-derive/src/structs/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 38bc610..0afdbfc 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -224,6 +224,10 @@ impl FieldDataType {
         default_endianess: &Endianness,
     ) -> syn::Result<FieldDataType> {
         let data_type = match ty {
+            // parentheses, visible or those put around a type that was passed to a macro.
+            Type::Group(syn::TypeGroup { elem, .. }) | Type::Paren(syn::TypeParen { elem, .. }) => {
+                return Self::parse(elem, attrs, span, default_endianess);
+            }
             Type::Path(ref path) => match attrs.ty {
                 FieldAttrBuilderType::Struct(ref size) => FieldDataType::Struct(
                     *size,
-- 
2.43.0


From 9e3689cbbfe9dd19f859d6596b27eeddb14794dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 40/44] fix: a field called fill_bits in a variant smaller than
 the largest

---
 bondrewd-derive/src/structs/common.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 0afdbfc..55d106e 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1559,7 +1559,11 @@ impl ObjectInfo {
                     if first_bit < largest {
                         let fill_bytes_size =
                             ((largest - first_bit) as f64 / 8.0_f64).ceil() as usize;
-                        let ident = quote::format_ident!("fill_bits");
+                        let mut ident = quote::format_ident!("fill_bits");
+                        // the variant may already have a field with this name.
+                        while v.fields.iter().any(|field| field.ident().ident() == ident) {
+                            ident = quote::format_ident!("bondrewd_{}", ident);
+                        }
                         v.fields.push(FieldInfo {
                             ident: Box::new(ident.into()),
                             attrs: FieldAttrs {
-- 
2.43.0


From 72622606d81fa6fcf9a0e4bb33cfa2f1d0da6f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 41/44] fix: packing a structure mixed the values of fields
 that share bits

---
 bondrewd-derive/src/structs/into_bytes.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index ae62809..c1d042d 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -2,7 +2,7 @@ use std::cmp::Ordering;
 
 use crate::structs::common::{
     get_be_starting_index, get_left_and_mask, get_right_and_mask, BitMath, Endianness,
-    FieldDataType, FieldInfo, StructInfo,
+    FieldDataType, FieldInfo, OverlapOptions, StructInfo,
 };
 use convert_case::{Case, Casing};
 use proc_macro2::{Ident, TokenStream};
@@ -94,9 +94,16 @@ fn create_fields_quotes(
                     Self::#fn_name(&mut output_byte_buffer, #field_name);
                 };
             } else {
+                // bits shared with a field that was already written must not be mixed with its value.
+                let clear_shared_quote = info
+                    .fields
+                    .iter()
+                    .any(|other| matches!(other.attrs.overlap, OverlapOptions::Allow(_)))
+                    .then_some(&clear_quote);
                 into_bytes_quote = quote! {
                     #into_bytes_quote
                     let #field_name = self.#field_name;
+                    #clear_shared_quote
                     #field_setter
                 };
             }
-- 
2.43.0


From 7c5f5645b08870b90224a96daa6f84511ee88c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 42/44] fix: a structure or field without any bits, or with
 bits past its end, is rejected with an error

---
 bondrewd-derive/src/structs/common.rs | 31 +++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 55d106e..090bd72 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -245,6 +245,9 @@ impl FieldDataType {
                 if let syn::Expr::Lit(ref lit_expr) = array_path.len {
                     if let syn::Lit::Int(ref lit_int) = lit_expr.lit {
                         if let Ok(array_length) = lit_int.base10_parse::<usize>() {
+                            if array_length == 0 {
+                                return Err(syn::Error::new(span, "arrays must not be empty"));
+                            }
                             match attrs.ty {
                                 FieldAttrBuilderType::ElementArray(
                                     ref element_bit_size,
@@ -958,6 +961,10 @@ impl FieldInfo {
             }
         };
 
+        if attrs.bit_length() == 0 {
+            return Err(Error::new(field.span(), "field has no bits"));
+        }
+
         // a field can not be wider than the type that stores it.
         if let Some(max) = data_type.max_bit_length() {
             if attrs.bit_length() > max {
@@ -2081,6 +2088,30 @@ impl ObjectInfo {
             bit_size = fill_bits;
         }
 
+        // overlapping fields do not add bits, so they could leave none or use more than there are.
+        if !is_enum {
+            if bit_size == 0 {
+                return Err(syn::Error::new(name.span(), "structure has no bits"));
+            }
+            let available = if attrs.lsb_zero {
+                bit_size
+            } else {
+                (bit_size + 7) / 8 * 8
+            };
+            if let Some(field) = parsed_fields
+                .iter()
+                .find(|field| field.attrs.bit_range.end > available)
+            {
+                return Err(syn::Error::new(
+                    field.ident.span(),
+                    format!(
+                        "field ends at bit {} but the structure only has {available} bits",
+                        field.attrs.bit_range.end
+                    ),
+                ));
+            }
+        }
+
         // enum variants are flipped by `ObjectInfo::parse` once the size of the whole enum is known.
         if attrs.lsb_zero && !is_enum {
             for ref mut field in parsed_fields.iter_mut() {
-- 
2.43.0


From 9c7a9f3b0a13632a3ed9629f0270b7d179666f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 43/44] fix: an enum whose id or payload is larger than its
 total size is rejected without panicking

---
 bondrewd-derive/src/structs/common.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 090bd72..e82c25a 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1308,6 +1308,19 @@ impl ObjectInfo {
                 let mut enum_attrs = EnumAttrInfoBuilder::default();
                 Self::parse_enum_attrs(&input.attrs, &mut attrs, &mut enum_attrs)?;
                 let mut variants: Vec<StructInfo> = Vec::default();
+                if let Some(total) = enum_attrs.total_bit_size {
+                    if let Some(part) = enum_attrs
+                        .id_bits
+                        .into_iter()
+                        .chain(enum_attrs.payload_bit_size)
+                        .find(|part| *part > total)
+                    {
+                        return Err(syn::Error::new(
+                            data.enum_token.span(),
+                            format!("the id or payload of {part} bits is larger than the total size of {total} bits"),
+                        ));
+                    }
+                }
                 let (id_field_type, id_bits) = {
                     let id_bits = if let Some(id_bits) = enum_attrs.id_bits {
                         id_bits
-- 
2.43.0


From 1b360f7eb24cd0ad037aeeb1ed70f0f3c31970a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:54 +0000
Subject: [PATCH 44/44] fix: the error for an unknown field endianness names it

---
 bondrewd-derive/src/structs/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index 2ad7b9c..5273d4e 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -141,7 +141,7 @@ impl FieldAttrBuilder {
                                     _ => {
                                         return Err(syn::Error::new(
                                             builder.span(),
-                                            "{} is not a valid endianness use le or be",
+                                            format!("{:?} is not a valid endianness use le or be", val.value()),
                                         ));
                                     }
                                 });
-- 
2.43.0

