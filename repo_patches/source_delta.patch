From fc8acca127f0b7575de4b51d8c63e4a7184a47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:46 +0000
Subject: [PATCH 01/55] fix: Rust lists of byte and bool generate code that
 compiles

---
 beschi/writers/rust.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 97bd8a3..3acdb01 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -78,7 +78,8 @@ class RustWriter(Writer):
             self.write_line(f"writer.extend(({accessor}{var.name}.len() as {self.get_native_list_size()}).to_le_bytes());")
             self.write_line(f"for _el in &{accessor}{var.name} {{")
             self.indent_level += 1
-            inner = Variable(self.protocol, f"{'*' if var.vartype in self.protocol.enums else ''}_el", var.vartype)
+            deref = var.vartype in self.protocol.enums or var.vartype in ("byte", "bool")
+            inner = Variable(self.protocol, f"{'*' if deref else ''}_el", var.vartype)
             self.serializer(inner, "")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From 085054bd642ac5d2523eac09e681c6fdd894043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:11 +0000
Subject: [PATCH 02/55] fix: Rust reader rejects negative and overlong lengths
 instead of ignoring or panicking

---
 beschi/writers/boilerplate/Rust.rs | 5 ++++-
 beschi/writers/rust.py             | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Rust.rs b/beschi/writers/boilerplate/Rust.rs
index 2c20165..d1a5524 100644
--- a/beschi/writers/boilerplate/Rust.rs
+++ b/beschi/writers/boilerplate/Rust.rs
@@ -45,7 +45,10 @@ impl<'a> BufferReader<'a> {
     }
 
     pub fn has_remaining(&self, size: usize) -> bool {
-        self.current_position + size <= self.buffer.len()
+        match self.current_position.checked_add(size) {
+            Some(end) => end <= self.buffer.len(),
+            None => false,
+        }
     }
 
     pub fn take_byte(&mut self) -> Result<u8, BeschiError> {
diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 3acdb01..a96c680 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -46,6 +46,12 @@ class RustWriter(Writer):
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"let {var.name}_len = reader.read_{self.get_native_list_size()}()?;")
+            if self.protocol.list_size_type.startswith("int"):
+                self.write_line(f"if {var.name}_len < 0 {{")
+                self.indent_level += 1
+                self.write_line(f"return Err({self.prefix}Error::InvalidData);")
+                self.indent_level -= 1
+                self.write_line("}")
             if var.vartype in self.type_mapping:
                 self.write_line(f"let mut {var.name}: Vec<{self.type_mapping[var.vartype]}> = Vec::new();")
             else:
-- 
2.43.0


From 553c62d7c39b1b06b89f0de35a8b8895e61476ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:55 +0000
Subject: [PATCH 03/55] fix: C# message size counts the UTF-8 bytes of strings,
 not their characters

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 0198a7c..b31e85d 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -141,7 +141,7 @@ class CSharpWriter(Writer):
                         accum += self.protocol.get_size_of(var.vartype)
                     elif var.vartype == "string":
                         accum += NUMERIC_TYPE_SIZES[self.protocol.string_size_type]
-                        lines.append(f"size += {accessor}{var.name}.Length;")
+                        lines.append(f"size += System.Text.Encoding.UTF8.GetByteCount({accessor}{var.name});")
                     else:
                         clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}.")
                         if clines[0] == size_init:
-- 
2.43.0


From 0ce753dc3a49e7ce1cf38cdf088b04162148e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:55 +0000
Subject: [PATCH 04/55] fix: C# reader reports a string cut off by the end of
 the data

---
 beschi/writers/csharp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index b31e85d..971639c 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -66,6 +66,12 @@ class CSharpWriter(Writer):
         elif var.vartype == "string":
             self.write_line(f"{self.get_native_string_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.string_size_type]}();")
             self.write_line(f"byte[] {var_clean}_Buffer = br.ReadBytes((int){var_clean}_Length);")
+            self.write_line(f"if ({var_clean}_Buffer.Length != (long){var_clean}_Length)")
+            self.write_line("{")
+            self.indent_level += 1
+            self.write_line("throw new System.IO.EndOfStreamException();")
+            self.indent_level -= 1
+            self.write_line("}")
             self.write_line(f"{accessor}{var.name} = System.Text.Encoding.UTF8.GetString({var_clean}_Buffer);")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-- 
2.43.0


From a0b8f28bcd2ec917b8300fc5382f9c58c634c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:55 +0000
Subject: [PATCH 05/55] fix: C# reader compiles with uint64 list sizes and
 rejects negative ones

---
 beschi/writers/csharp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 971639c..88df628 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -43,8 +43,15 @@ class CSharpWriter(Writer):
         if var.is_list:
             self.write_line(f"{self.get_native_list_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.list_size_type]}();")
             self.write_line(f"{accessor}{var.name} = new List<{self.type_mapping[var.vartype]}>();")
+            if self.protocol.list_size_type.startswith("int"):
+                self.write_line(f"if ({var_clean}_Length < 0)")
+                self.write_line("{")
+                self.indent_level += 1
+                self.write_line(f"throw new DataReadErrorException(String.Format(\"Invalid list length {{0}}\", {var_clean}_Length));")
+                self.indent_level -= 1
+                self.write_line("}")
             idx = self.indent_level
-            self.write_line(f"for (int i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
+            self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
             self.write_line("{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
-- 
2.43.0


From 9b92f5694a5d42dd90c682fc8dd8b2a9cf966d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:55 +0000
Subject: [PATCH 06/55] fix: Go reader propagates errors from nested structs

---
 beschi/writers/go.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 8513b63..4d3ccc1 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -112,7 +112,11 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
         else:
-            self.write_line(f"{var.vartype}FromBytes(data, &{accessor}.{var.name})")
+            self.write_line(f"if err {':' if declare_err else ''}= {var.vartype}FromBytes(data, &{accessor}.{var.name}); err != nil {{")
+            self.indent_level += 1
+            self.write_line(f"return {'' if by_ref else 'nil, '}err")
+            self.indent_level -= 1
+            self.write_line("}")
 
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
-- 
2.43.0


From 92a07c5f10f2f02e8845efd1ac4da3197828ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:55 +0000
Subject: [PATCH 07/55] fix: Go reader validates enums inside nested fixed-size
 structs

---
 beschi/writers/go.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 4d3ccc1..bf07ad6 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -105,7 +105,7 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
             self.write_line(f"{accessor}.{var.name} = _{var.name}")
-        elif var.is_simple():
+        elif var.is_simple() and not (var.vartype in self.protocol.structs and self.struct_has_enums(self.protocol.structs[var.vartype])):
             self.write_line(f"if err {':' if declare_err else ''}= binary.Read(data, binary.LittleEndian, &{accessor}.{var.name}); err != nil {{")
             self.indent_level += 1
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {accessor}.{var.name} at offset %d (%w)\", getDataOffset(data), err)")
-- 
2.43.0


From 48074c3c66de381956faf19c68184ec334031720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:41 +0000
Subject: [PATCH 08/55] fix: Go reader returns an error for truncated strings
 and packed headers instead of panicking

---
 beschi/writers/boilerplate/Go.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index 9b24e78..6cdd693 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -4,18 +4,23 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"strings"
 )
 
 func readString(data io.Reader, str *string) error {
 	var len {# STRING_SIZE_TYPE #}
-	binary.Read(data, binary.LittleEndian, &len)
-	sbytes := make([]byte, len)
-	err := binary.Read(data, binary.LittleEndian, &sbytes)
-	if err != nil {
-		panic(err)
+	if err := binary.Read(data, binary.LittleEndian, &len); err != nil {
+		return err
+	}
+	if int64(len) < 0 {
+		return fmt.Errorf("invalid string length %d", len)
 	}
-	*str = string(sbytes)
-	return err
+	var sbytes strings.Builder
+	if _, err := io.CopyN(&sbytes, data, int64(len)); err != nil {
+		return err
+	}
+	*str = sbytes.String()
+	return nil
 }
 
 func writeString(data io.Writer, str *string) {
@@ -53,9 +58,8 @@ func PackMessages(msgList []Message, data io.Writer) {
 
 func UnpackMessages(data io.Reader) ([]Message, error) {
 	sbytes := make([]byte, 4)
-	err := binary.Read(data, binary.LittleEndian, &sbytes)
-	if err != nil {
-		panic(err)
+	if err := binary.Read(data, binary.LittleEndian, &sbytes); err != nil {
+		return nil, fmt.Errorf("could not read packed message header (%w)", err)
 	}
 	if string(sbytes) != "BSCI" {
 		return nil, fmt.Errorf("packed message buffer has invalid header")
-- 
2.43.0


From ab0aeae96171dd0548dae38cf7cd50c275085bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:41 +0000
Subject: [PATCH 09/55] fix: Go reader rejects negative list lengths instead of
 panicking

---
 beschi/writers/go.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index bf07ad6..bea3ebe 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -64,6 +64,12 @@ class GoWriter(Writer):
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {var.name}_Len at offset %d (%w)\", getDataOffset(data), err)")
             self.indent_level -= 1
             self.write_line("}")
+            if self.protocol.list_size_type.startswith("int"):
+                self.write_line(f"if {var.name}_Len < 0 {{")
+                self.indent_level += 1
+                self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"invalid list length %d for {var.name}\", {var.name}_Len)")
+                self.indent_level -= 1
+                self.write_line("}")
             self.write_line(f"{accessor}.{var.name} = make([]{self.type_mapping[var.vartype]}, {var.name}_Len)")
             idx = self.indent_level
             self.write_line(f"for i{idx} := ({self.get_native_list_size()})(0); i{idx} < {var.name}_Len; i{idx}++ {{")
-- 
2.43.0


From 4648c507eaebf7b0a55273862a38b38ecfc741ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:38 +0000
Subject: [PATCH 10/55] fix: Go code generated with --go-no-rename uses the
 namespace and can read nested structs

---
 beschi/writers/go.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index bea3ebe..e4d789f 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -111,7 +111,7 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
             self.write_line(f"{accessor}.{var.name} = _{var.name}")
-        elif var.is_simple() and not (var.vartype in self.protocol.structs and self.struct_has_enums(self.protocol.structs[var.vartype])):
+        elif var.is_simple() and not (var.vartype in self.protocol.structs and (not self.rename or self.struct_has_enums(self.protocol.structs[var.vartype]))):
             self.write_line(f"if err {':' if declare_err else ''}= binary.Read(data, binary.LittleEndian, &{accessor}.{var.name}); err != nil {{")
             self.indent_level += 1
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {accessor}.{var.name} at offset %d (%w)\", getDataOffset(data), err)")
@@ -331,6 +331,8 @@ class GoWriter(Writer):
             subs.append(("Beschi", self.protocol.namespace))
             if self.rename:
                 subs.append(("beschi", TextUtil.convert_to_lower_snake_case(self.protocol.namespace)))
+            else:
+                subs.append(("beschi", self.protocol.namespace))
 
         self.add_boilerplate(subs)
         self.write_line()
-- 
2.43.0


From 2b0687ace10762d45618f71ff18dcdb8280f4d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 11/55] fix: TypeScript strings are read from within the given
 DataView

---
 beschi/writers/boilerplate/TypeScript.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index b542075..15f9a33 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -80,7 +80,10 @@ export class DataAccess {
 
   getString(): string {
     const len = this.get{# STRING_SIZE_TYPE #}();
-    const strBuffer = new Uint8Array(this.data.buffer, this.currentOffset, len);
+    if (len < 0 || this.currentOffset + len > this.data.byteLength) {
+      throw new RangeError("String extends beyond the end of the data");
+    }
+    const strBuffer = new Uint8Array(this.data.buffer, this.data.byteOffset + this.currentOffset, len);
     this.currentOffset += len;
     return _textDec.decode(strBuffer);
   }
-- 
2.43.0


From f58ffe63a73ec6cd4c52ebf2760748b75ecdf1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 12/55] fix: TypeScript reader keeps a leading U+FEFF in
 strings

---
 beschi/writers/boilerplate/TypeScript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index 15f9a33..fb4a61a 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -1,5 +1,5 @@
 
-const _textDec = new TextDecoder('utf-8');
+const _textDec = new TextDecoder('utf-8', { ignoreBOM: true });
 const _textEnc = new TextEncoder();
 
 export class DataAccess {
-- 
2.43.0


From eb423ad33c62c0e473c24cf79118984b7bb442d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 13/55] fix: TypeScript packs and unpacks the header within the
 given DataView

---
 beschi/writers/boilerplate/TypeScript.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index fb4a61a..64d9cd2 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -176,9 +176,9 @@ export function PackMessages(msgList: Message[], data: DataView|DataAccess): voi
     da = data;
   }
   const headerBytes = _textEnc.encode("BSCI");
-  const arr = new Uint8Array(da.data.buffer);
-  arr.set(headerBytes, da.currentOffset);
-  da.currentOffset += headerBytes.byteLength;
+  for (const headerByte of headerBytes) {
+    da.setByte(headerByte);
+  }
   da.setUint32(msgList.length);
   for (const msg of msgList) {
     msg.writeBytes(da, true);
@@ -194,8 +194,7 @@ export function UnpackMessages(data: DataView|DataAccess): Message[] {
   else {
     da = data;
   }
-  const headerBuffer = new Uint8Array(da.data.buffer, da.currentOffset, 4);
-  da.currentOffset += 4;
+  const headerBuffer = new Uint8Array([da.getByte(), da.getByte(), da.getByte(), da.getByte()]);
   const headerLabel = _textDec.decode(headerBuffer);
   if (headerLabel !== "BSCI") {
     throw new Error("Packed message buffer has invalid header.");
-- 
2.43.0


From 3bfd276af92f42fae7bbf3ddd5551f753b84070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 14/55] fix: TypeScript supports 64-bit list and string size
 types

---
 beschi/writers/boilerplate/TypeScript.ts |  4 ++--
 beschi/writers/typescript.py             | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index 64d9cd2..a07e6bc 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -79,7 +79,7 @@ export class DataAccess {
   }
 
   getString(): string {
-    const len = this.get{# STRING_SIZE_TYPE #}();
+    const len = {# STRING_LENGTH #};
     if (len < 0 || this.currentOffset + len > this.data.byteLength) {
       throw new RangeError("String extends beyond the end of the data");
     }
@@ -140,7 +140,7 @@ export class DataAccess {
 
   setString(val: string): void {
     const strBuffer = _textEnc.encode(val);
-    this.set{# STRING_SIZE_TYPE #}(strBuffer.byteLength);
+    this.set{# STRING_SIZE_TYPE #}({# STRING_BYTE_LENGTH #});
     const arr = new Uint8Array(this.data.buffer, this.data.byteOffset, this.data.byteLength);
     arr.set(strBuffer, this.currentOffset);
     this.currentOffset += strBuffer.byteLength;
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 9453530..ce05eb9 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -51,12 +51,15 @@ class TypeScriptWriter(Writer):
     def deserializer(self, var: Variable, accessor: str):
         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
         if var.is_list:
-            self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
+            list_length = f"da.get{self.base_serializers[self.protocol.list_size_type]}()"
+            if self.type_mapping[self.protocol.list_size_type] == "bigint":
+                list_length = f"Number({list_length})"
+            self.write_line(f"const {var_clean}_Length = {list_length};")
             if self.is_assembly_script:
                 self.write_line("if (da.hasError) { return null; }")
             self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length);")
             idx = self.indent_level
-            self.write_line(f"for (let i{idx}: {self.type_mapping[self.protocol.list_size_type]} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
+            self.write_line(f"for (let i{idx}: {self.type_mapping[self.protocol.list_size_type] if self.is_assembly_script else 'number'} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
@@ -126,7 +129,10 @@ class TypeScriptWriter(Writer):
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
             if not self.is_assembly_script:
-                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length);")
+                list_length = f"{accessor}{var.name}.length"
+                if self.type_mapping[self.protocol.list_size_type] == "bigint":
+                    list_length = f"BigInt({list_length})"
+                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({list_length});")
             else:
                 self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length as {self.type_mapping[self.protocol.list_size_type]});")
                 self.write_line("if (da.hasError) { return false; }")
@@ -400,7 +406,10 @@ class TypeScriptWriter(Writer):
             self.write_line(f"namespace {self.protocol.namespace} {{")
             self.indent_level += 1
 
+        wide_strings = self.type_mapping[self.protocol.string_size_type] == "bigint"
         self.add_boilerplate(substitutions=[
+            ("{# STRING_LENGTH #}", f"Number(this.get{self.base_serializers[self.protocol.string_size_type]}())" if wide_strings else f"this.get{self.base_serializers[self.protocol.string_size_type]}()"),
+            ("{# STRING_BYTE_LENGTH #}", "BigInt(strBuffer.byteLength)" if wide_strings else "strBuffer.byteLength"),
             ("{# STRING_SIZE_TYPE #}", self.base_serializers[self.protocol.string_size_type]),
             ("{# NATIVE_STRING_SIZE_TYPE #}", self.type_mapping[self.protocol.string_size_type]),
         ])
-- 
2.43.0


From 0d3f0d3b45d4b9b9b460953d43e13abac3f295f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 15/55] fix: TypeScript and AssemblyScript sizes of nested
 lists with equal names

---
 beschi/writers/typescript.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index ce05eb9..001a75f 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -167,6 +167,7 @@ class TypeScriptWriter(Writer):
     def gen_measurement(self, st: Struct, accessor: str = "") -> tuple[list[str], int]:
         lines: list[str] = []
         accum = 0
+        depth = accessor.count("[") or "" # keeps the indices of nested lists with the same name apart
 
         if st.is_simple():
             lines.append(f"return {self.protocol.get_size_of(st.name)};")
@@ -183,16 +184,16 @@ class TypeScriptWriter(Writer):
                     if var.is_simple(True):
                         lines.append(f"size += {accessor}{var.name}.length * {self.protocol.get_size_of(var.vartype)};")
                     elif var.vartype == "string":
-                        lines.append(f"for (let {var.name}_i=0; {var.name}_i < {accessor}{var.name}.length; {var.name}_i++) {{")
+                        lines.append(f"for (let {var.name}_i{depth}=0; {var.name}_i{depth} < {accessor}{var.name}.length; {var.name}_i{depth}++) {{")
                         if not self.is_assembly_script:
-                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + _textEnc.encode({accessor}{var.name}[{var.name}_i]).byteLength;")
+                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + _textEnc.encode({accessor}{var.name}[{var.name}_i{depth}]).byteLength;")
                         else:
-                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + String.UTF8.encode({accessor}{var.name}[{var.name}_i], false).byteLength;")
+                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + String.UTF8.encode({accessor}{var.name}[{var.name}_i{depth}], false).byteLength;")
                         lines.append("}")
                     else:
                         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
-                        lines.append(f"for (let {var_clean}_i=0; {var_clean}_i < {accessor}{var.name}.length; {var_clean}_i++) {{")
-                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}[{var_clean}_i].")
+                        lines.append(f"for (let {var_clean}_i{depth}=0; {var_clean}_i{depth} < {accessor}{var.name}.length; {var_clean}_i{depth}++) {{")
+                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}[{var_clean}_i{depth}].")
                         if clines[0] == size_init:
                             clines = clines[1:]
                         clines.append(f"size += {caccum};")
-- 
2.43.0


From 71b0ee6f643a74bbfe46885ede7e273807dd1e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:12 +0000
Subject: [PATCH 16/55] fix: Zig writes enums and structs nested in fixed-size
 structs

---
 beschi/writers/zig.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 163d5f4..f6276f8 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -50,7 +50,7 @@ class ZigWriter(Writer):
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f"const {accessor}_{var.name} = (try readNumber({var.vartype}, offset + {simple_offset}, buffer)).value;")
             else:
-                self.write_line(f"const {accessor}_{var.name}_read = {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
+                self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
         else:
             if var.is_list:
@@ -74,8 +74,10 @@ class ZigWriter(Writer):
 
     def serializer(self, var: Variable, accessor: str, parent_is_simple: bool, simple_offset: int):
         if parent_is_simple:
-            if var.vartype in NUMERIC_TYPE_SIZES:
+            if var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
                 self.write_line(f"_ = writeNumber({self.type_mapping[var.vartype]}, offset + {simple_offset}, buffer, {accessor}{var.name});")
+            else:
+                self.write_line(f"_ = {accessor}{var.name}.writeBytes(offset + {simple_offset}, buffer);")
         else:
             if var.is_list:
                 self.write_line(f"local_offset += writeList({self.type_mapping[var.vartype]}, local_offset, buffer, {accessor}{var.name});")
-- 
2.43.0


From 604109f4feec223c07679a6611f09807dee773e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:12 +0000
Subject: [PATCH 17/55] fix: Zig writes string lengths in string_size_type

---
 beschi/writers/boilerplate/Zig.zig | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 643fd3a..a9c8c2e 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -202,9 +202,9 @@ pub fn writeNumber(comptime T: type, offset: usize, buffer: []u8, value: T) usiz
 }
 
 pub fn writeString(offset: usize, buffer: []u8, value: []const u8) usize {
-    _ = writeNumber({# LIST_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
-    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# LIST_SIZE_TYPE #})..][0..value.len], value);
-    return @sizeOf({# LIST_SIZE_TYPE #}) + value.len;
+    _ = writeNumber({# STRING_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
+    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# STRING_SIZE_TYPE #})..][0..value.len], value);
+    return @sizeOf({# STRING_SIZE_TYPE #}) + value.len;
 }
 
 pub fn writeList(comptime T: type, offset: usize, buffer: []u8, value: []T) usize {
-- 
2.43.0


From 9c589a3b156a2b3b1291df9adc961fa697d755de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:12 +0000
Subject: [PATCH 18/55] fix: Zig supports signed list and string sizes and
 rejects negative ones

---
 beschi/writers/boilerplate/Zig.zig | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index a9c8c2e..c378f99 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -100,9 +100,9 @@ pub fn readNumber(comptime T: type, offset: usize, buffer: []const u8) !struct {
 
 pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []u8, bytes_read: usize } {
     const len_read = try readNumber({# STRING_SIZE_TYPE #}, offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
 
-    if (offset + @sizeOf({# STRING_SIZE_TYPE #}) + len > buffer.len) {
+    if (len > buffer.len - offset - @sizeOf({# STRING_SIZE_TYPE #})) {
         return DataReaderError.EOF;
     }
 
@@ -116,10 +116,10 @@ pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u
 pub fn readList(comptime T: type, allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []T, bytes_read: usize } {
     var local_offset = offset;
     const len_read = try readNumber({# LIST_SIZE_TYPE #}, local_offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
     local_offset += len_read.bytes_read;
     var list = try allocator.alloc(T, len);
-    var made_count: {# LIST_SIZE_TYPE #} = 0;
+    var made_count: usize = 0;
 
     errdefer {
         for (0..made_count) |i| {
-- 
2.43.0


From 6f77c3a9d73693f486d54aeac91c7569b1152563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:12 +0000
Subject: [PATCH 19/55] fix: Zig unpackMessages reports short headers and huge
 counts instead of panicking

---
 beschi/writers/boilerplate/Zig.zig | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index c378f99..4b108c4 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -263,7 +263,7 @@ pub fn packMessages(msg_list: []const Message, buffer: []u8) void {
 
 pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     var offset: usize = 0;
-    if (!std.mem.eql(u8, buffer[0..4], "BSCI")) {
+    if (buffer.len < 4 or !std.mem.eql(u8, buffer[0..4], "BSCI")) {
         return DataReaderError.InvalidData;
     }
     offset += 4;
@@ -273,7 +273,8 @@ pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     if (msg_count == 0) {
         return allocator.alloc(Message, 0);
     }
-    const msg_list = try processRawBytes(allocator, buffer[offset..], @intCast(msg_count));
+    const max_count = std.math.cast(i32, msg_count) orelse std.math.maxInt(i32);
+    const msg_list = try processRawBytes(allocator, buffer[offset..], max_count);
     errdefer allocator.free(msg_list);
 
     if (msg_list.len == 0) {
-- 
2.43.0


From 895fc056681c122412ac416324ef46c2f221d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:43 +0000
Subject: [PATCH 20/55] fix: Zig releases everything already read when a read
 fails

---
 beschi/writers/boilerplate/Zig.zig |  7 ++++-
 beschi/writers/zig.py              | 42 +++++++++++++++++++++++++++++-
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 4b108c4..d3d1ea2 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -275,7 +275,12 @@ pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     }
     const max_count = std.math.cast(i32, msg_count) orelse std.math.maxInt(i32);
     const msg_list = try processRawBytes(allocator, buffer[offset..], max_count);
-    errdefer allocator.free(msg_list);
+    errdefer {
+        for (msg_list) |*msg| {
+            msg.deinit(allocator);
+        }
+        allocator.free(msg_list);
+    }
 
     if (msg_list.len == 0) {
         return DataReaderError.InvalidData;
diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index f6276f8..a127373 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -69,9 +69,36 @@ class ZigWriter(Writer):
                 self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes({'' if var.is_simple() else 'allocator, '}local_offset, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
+            self.error_cleanup(var, f"{accessor}_{var.name}")
 
             self.write_line()
 
+    def error_cleanup(self, var: Variable, value: str):
+        if var.is_simple():
+            return
+        if var.is_list:
+            if var.is_simple(True):
+                self.write_line(f"errdefer allocator.free({value});")
+                return
+            self.write_line("errdefer {")
+            self.indent_level += 1
+            if var.vartype == "string":
+                self.write_line(f"for ({value}) |item| allocator.free(item);")
+            else:
+                self.write_line(f"for ({value}) |*item| item.deinit(allocator);")
+            self.write_line(f"allocator.free({value});")
+            self.indent_level -= 1
+            self.write_line("}")
+        elif var.vartype == "string":
+            self.write_line(f"errdefer allocator.free({value});")
+        else:
+            self.write_line("errdefer {")
+            self.indent_level += 1
+            self.write_line(f"var partial = {value};")
+            self.write_line("partial.deinit(allocator);")
+            self.indent_level -= 1
+            self.write_line("}")
+
     def serializer(self, var: Variable, accessor: str, parent_is_simple: bool, simple_offset: int):
         if parent_is_simple:
             if var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
@@ -349,6 +376,17 @@ class ZigWriter(Writer):
         self.write_line("};")
         self.indent_level -= 1
         self.write_line("}")
+        self.write_line()
+
+        self.write_line("pub fn deinit(self: *@This(), allocator: std.mem.Allocator) void {")
+        self.indent_level += 1
+        self.write_line("switch (self.*) {")
+        self.indent_level += 1
+        self.write_line("inline else => |*msg| if (comptime @hasDecl(@TypeOf(msg.*), \"deinit\")) msg.deinit(allocator),")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.indent_level -= 1
+        self.write_line("}")
 
         self.indent_level -= 1
         self.write_line("};")
@@ -358,6 +396,7 @@ class ZigWriter(Writer):
         self.indent_level += 1
         self.write_line("var msg_list = std.ArrayList(Message).init(allocator);")
         self.write_line("defer msg_list.deinit();")
+        self.write_line("errdefer for (msg_list.items) |*msg| msg.deinit(allocator);")
         self.write_line("if (max == 0) {")
         self.indent_level += 1
         self.write_line("return msg_list.toOwnedSlice();");
@@ -379,12 +418,13 @@ class ZigWriter(Writer):
         for mname, mdata in self.protocol.messages.items():
             self.write_line(f".{mname} => {{")
             self.indent_level += 1
+            self.write_line("try msg_list.ensureUnusedCapacity(1);")
             if mdata.is_simple():
                 self.write_line(f"const msg_read = try {mname}.fromBytes(local_offset, buffer);")
             else:
                 self.write_line(f"const msg_read = try {mname}.fromBytes(allocator, local_offset, buffer);")
             self.write_line("local_offset += msg_read.bytes_read;")
-            self.write_line(f"try msg_list.append(Message{{ .{mname} = msg_read.value }});")
+            self.write_line(f"msg_list.appendAssumeCapacity(Message{{ .{mname} = msg_read.value }});")
             self.indent_level -= 1
             self.write_line("},")
         self.indent_level -= 1
-- 
2.43.0


From 4ecea958536069a347b5882f52d151cc8501386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 21/55] fix: C header includes string.h, which it uses

---
 beschi/writers/boilerplate/C.0.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/writers/boilerplate/C.0.h b/beschi/writers/boilerplate/C.0.h
index 80a9c48..9599859 100644
--- a/beschi/writers/boilerplate/C.0.h
+++ b/beschi/writers/boilerplate/C.0.h
@@ -10,6 +10,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdbool.h>
+#include <string.h>
 
 typedef uint8_t beschi_err_t;
 #define BESCHI_ERR_OK  0
-- 
2.43.0


From 652d392d07fadfe62ee084fc80a8f84ced4165e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 22/55] fix: C stores the lengths of listed strings in
 string_size_type

---
 beschi/writers/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 1d052fd..95d04cb 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -262,7 +262,7 @@ class CWriter(Writer):
             if var.is_list:
                 self.write_line(f"{self.get_native_list_size()} {var.name}_len;")
                 if var.vartype == "string":
-                    self.write_line(f"{self.get_native_list_size()}* {var.name}_els_len;")
+                    self.write_line(f"{self.get_native_string_size()}* {var.name}_els_len;")
                 if var.vartype in NUMERIC_TYPE_SIZES or var.vartype == "string":
                     self.write_line(f"{self.type_mapping[var.vartype]}* {var.name};")
                 elif var.vartype in self.protocol.structs or var.vartype in self.protocol.enums:
-- 
2.43.0


From 34b9cbe5fb79924ce57fee8e33e701b7e351cc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 23/55] fix: C declares structs before the structs that contain
 them

---
 beschi/writers/c.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 95d04cb..0451f05 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -253,6 +253,19 @@ class CWriter(Writer):
         self.write_line(f"bool {self.prefix}IsValid{ename}({self.type_mapping[edata.encoding]} value);")
         self.write_line()
 
+    def ordered_structs(self) -> list[Struct]:
+        # a C struct has to be declared before anything that contains it
+        ordered: dict[str,Struct] = {}
+        def visit(st: Struct):
+            if st.name in ordered:
+                return
+            for var in st.members:
+                if var.vartype in self.protocol.structs:
+                    visit(self.protocol.structs[var.vartype])
+            ordered[st.name] = st
+        [visit(st) for st in self.protocol.structs.values()]
+        return list(ordered.values())
+
     def gen_struct(self, sname: str, sdata: Struct):
         self.write_line("typedef struct {")
         self.indent_level += 1
@@ -440,8 +453,8 @@ class CWriter(Writer):
         for enum, edata in self.protocol.enums.items():
             self.gen_enum(enum, edata)
 
-        for sname, sdata in self.protocol.structs.items():
-            self.gen_struct(sname, sdata)
+        for sdata in self.ordered_structs():
+            self.gen_struct(sdata.name, sdata)
 
         for mname, mdata in self.protocol.messages.items():
             self.gen_struct(mname, mdata)
-- 
2.43.0


From 9510eb7ab4984e51852981c095617bd536c924ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 24/55] fix: C packs and unpacks at the current position,
 within the buffer

---
 beschi/writers/c.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 0451f05..f61f834 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -670,7 +670,12 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("const char header[] = \"BSCI\";")
-        self.write_line("memcpy(w->buffer, header, 4);")
+        self.write_line("if (w->bufferSize < w->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("memcpy(w->buffer + w->position, header, 4);")
         self.write_line("w->position += 4;")
         self.write_line(f"err = {self.prefix}WriteUInt32(w, (uint32_t)len);")
         self.err_check_return()
@@ -696,7 +701,8 @@ class CWriter(Writer):
         self.write_line("}")
         self.indent_level -= 1
         self.write_line("}")
-        self.write_line(f"{self.prefix}WriteUInt8(w, 0);")
+        self.write_line(f"err = {self.prefix}WriteUInt8(w, 0);")
+        self.err_check_return()
         self.write_line()
         self.write_line(f"return {self.prefix.upper()}ERR_OK;")
         self.indent_level -= 1
@@ -706,7 +712,12 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}UnpackMessages({self.prefix}DataAccess* r, void*** msgListOut, size_t* len) {{")
         self.indent_level += 1
         self.write_line(f"{self.prefix}err_t err = {self.prefix.upper()}ERR_OK;")
-        self.write_line("if (memcmp(r->buffer, \"BSCI\", 4) != 0) {")
+        self.write_line("if (r->bufferSize < r->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("if (memcmp(r->buffer + r->position, \"BSCI\", 4) != 0) {")
         self.indent_level += 1
         self.write_line(f"return {self.prefix.upper()}ERR_INVALID_DATA;")
         self.indent_level -= 1
-- 
2.43.0


From 0cce734bf5acc7ecdbf083f58fc8cb3ee0921284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 25/55] fix: C rejects negative and overlong string and list
 lengths

---
 beschi/writers/boilerplate/C.1.h | 4 ++--
 beschi/writers/c.py              | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/C.1.h b/beschi/writers/boilerplate/C.1.h
index b2de374..dcf571c 100644
--- a/beschi/writers/boilerplate/C.1.h
+++ b/beschi/writers/boilerplate/C.1.h
@@ -128,10 +128,10 @@ beschi_err_t beschi_ReadString(beschi_DataAccess *r, char **s, {# STRING_SIZE_TY
     if (err != BESCHI_ERR_OK) {
         return err;
     }
-    if (r->bufferSize < r->position + *len) {
+    if ((uint64_t)(*len) > (uint64_t)(r->bufferSize - r->position)) {
         return BESCHI_ERR_EOF;
     }
-    *s = (char*)BESCHI_MALLOC((size_t)(*len + 1));
+    *s = (char*)BESCHI_MALLOC((size_t)(*len) + 1);
     if (*s == NULL) { return BESCHI_ERR_ALLOCATION_FAILURE; }
     memcpy(*s, r->buffer + r->position, *len);
     (*s)[*len] = '\0';
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index f61f834..7fa5a5c 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -71,6 +71,13 @@ class CWriter(Writer):
         if var.is_list:
             self.write_line(f"err = {self.prefix}Read{self.base_serializers[self.protocol.list_size_type]}(r, &({accessor}{var.name}_len));")
             self.err_check_return()
+            # every element takes at least a byte, so this also keeps the allocation size from overflowing
+            self.write_line(f"if ((uint64_t)({accessor}{var.name}_len) > (uint64_t)(r->bufferSize - r->position)) {{")
+            self.indent_level += 1
+            self.write_line(f"{accessor}{var.name}_len = 0;")
+            self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+            self.indent_level -= 1
+            self.write_line("}")
             if var.vartype in NUMERIC_TYPE_SIZES or var.vartype == "string":
                 pref = ""
             else:
-- 
2.43.0


From cec5f1b45fb268f3935a97f0c7c6e546c4f06901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 26/55] fix: C messages from Create or the default constant can
 be destroyed

---
 beschi/writers/boilerplate/C.0.h | 3 +++
 beschi/writers/boilerplate/C.1.h | 2 ++
 beschi/writers/c.py              | 8 +++-----
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/boilerplate/C.0.h b/beschi/writers/boilerplate/C.0.h
index 9599859..0f7f5fa 100644
--- a/beschi/writers/boilerplate/C.0.h
+++ b/beschi/writers/boilerplate/C.0.h
@@ -31,6 +31,9 @@ typedef struct {
     size_t position;
 } beschi_DataAccess;
 
+// what strings point to by default; never freed
+extern char beschi_emptyString[1];
+
 bool beschi_IsFinished(const beschi_DataAccess *r);
 beschi_err_t beschi_ReadUInt8(beschi_DataAccess *r, uint8_t *ui8);
 beschi_err_t beschi_ReadBool(beschi_DataAccess *r, bool *b);
diff --git a/beschi/writers/boilerplate/C.1.h b/beschi/writers/boilerplate/C.1.h
index dcf571c..fecf28f 100644
--- a/beschi/writers/boilerplate/C.1.h
+++ b/beschi/writers/boilerplate/C.1.h
@@ -27,6 +27,8 @@
 ///////////////////////////////////////
 // standard utility definitions
 
+char beschi_emptyString[1] = "";
+
 bool beschi_IsFinished(const beschi_DataAccess *r) {
     return r->position >= r->bufferSize;
 }
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 7fa5a5c..c8391b7 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -217,7 +217,7 @@ class CWriter(Writer):
                 self.write_line(f".{var.name} = {self.base_defaults[var.vartype]},")
             elif var.vartype == "string":
                 self.write_line(f".{var.name}_len = 0,")
-                self.write_line(f".{var.name} = (char*)\"\",")
+                self.write_line(f".{var.name} = {self.prefix}emptyString,")
             elif var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f".{var.name} = {self.prefix}{e.name}_{e.get_default_pair()[0]},")
@@ -246,7 +246,7 @@ class CWriter(Writer):
                     self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name}_els_len);")
                 self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
         elif var.vartype == "string":
-            self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
+            self.write_line(f"if ({accessor}{var.name} != {self.prefix}emptyString) {{ {self.prefix.upper()}FREE({accessor}{var.name}); }}")
         else:
             [self.destructor(mem, f"{accessor}{var.name}.") for mem in self.protocol.structs[var.vartype].members]
 
@@ -358,9 +358,7 @@ class CWriter(Writer):
             self.indent_level += 1
             self.write_line(f"{self.prefix}{sname}* out = ({self.prefix}{sname}*){self.prefix.upper()}MALLOC(sizeof({self.prefix}{sname}));")
             self.write_line(f"if (out == NULL) {{ return NULL; }}")
-            self.write_line(f"out->_mt = {self.prefix}MessageType_{sname};")
-            for mem in sdata.members:
-                self.write_line(f"out->{mem.name} = {self.prefix}{sname}_default.{mem.name};")
+            self.write_line(f"*out = {self.prefix}{sname}_default;")
             self.write_line("return out;")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From 3f479ad086a03fd7b25f04ccad6e96ece06f6f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 27/55] fix: C messages can be destroyed after a failed read

---
 beschi/writers/c.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index c8391b7..64f3cab 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -83,10 +83,13 @@ class CWriter(Writer):
             else:
                 pref = self.prefix
             self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC(sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
-            self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+            self.write_line(f"if ({accessor}{var.name} == NULL) {{ {accessor}{var.name}_len = 0; return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+            if not var.is_simple(True):
+                # so that the list can be destroyed if reading one of its elements fails
+                self.write_line(f"memset({accessor}{var.name}, 0, sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
             if var.vartype == "string":
                 self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * {accessor}{var.name}_len);")
-                self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+                self.write_line(f"if ({accessor}{var.name}_els_len == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
             idx = self.indent_level
             self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
             self.indent_level += 1
@@ -383,7 +386,7 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}{sname}_FromBytes({self.prefix}DataAccess* r, {self.prefix}{sname}* dst) {{")
         self.indent_level += 1
         if sdata.is_message:
-            self.write_line(f"dst->_mt = {self.prefix}MessageType_{sname};")
+            self.write_line(f"*dst = {self.prefix}{sname}_default;")
         if len(sdata.members) > 0:
             self.write_line(f"{self.prefix}err_t err;")
         [self.deserializer(mem, "dst->") for mem in sdata.members]
-- 
2.43.0


From 3174dccbca163d20470e5163649ec0e2ef5d98c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 28/55] fix: C lists of messages can be destroyed after a
 failed read

---
 beschi/writers/c.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 64f3cab..f06fcd6 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -556,10 +556,10 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}ProcessRawBytes({self.prefix}DataAccess* r, int32_t max, void*** msgListDst, size_t* len) {{")
         self.indent_level += 1
         self.write_line(f"{self.prefix}err_t err = {self.prefix.upper()}ERR_OK;")
+        self.write_line("*len = 0;")
         self.write_line("size_t currCapacity = 8;")
         self.write_line(f"*msgListDst = (void**){self.prefix.upper()}MALLOC(sizeof(void*) * currCapacity);")
         self.write_line(f"if (*msgListDst == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
-        self.write_line("*len = 0;")
         self.write_line("if (max == 0) {")
         self.indent_level += 1
         self.write_line(f"return {self.prefix.upper()}ERR_OK;")
@@ -570,8 +570,9 @@ class CWriter(Writer):
         self.write_line("while (*len >= currCapacity) {")
         self.indent_level += 1
         self.write_line("currCapacity *= 2;")
-        self.write_line(f"*msgListDst = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
-        self.write_line(f"if (*msgListDst == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line(f"void** grown = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
+        self.write_line(f"if (grown == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line("*msgListDst = grown;")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("uint8_t msgType;")
@@ -719,6 +720,8 @@ class CWriter(Writer):
 
         self.write_line(f"{self.prefix}err_t {self.prefix}UnpackMessages({self.prefix}DataAccess* r, void*** msgListOut, size_t* len) {{")
         self.indent_level += 1
+        self.write_line("*msgListOut = NULL;")
+        self.write_line("*len = 0;")
         self.write_line(f"{self.prefix}err_t err = {self.prefix.upper()}ERR_OK;")
         self.write_line("if (r->bufferSize < r->position + 4) {")
         self.indent_level += 1
@@ -736,12 +739,12 @@ class CWriter(Writer):
         self.err_check_return()
         # doing things a little backwards here to let ProcessRawBytes allocate an empty array
         self.write_line(f"err = {self.prefix}ProcessRawBytes(r, (int32_t)msgCount, msgListOut, len);")
-        self.err_check_return()
-        self.write_line("if (len == 0) {")
+        self.write_line(f"if (err != {self.prefix.upper()}ERR_OK) {{")
         self.indent_level += 1
-        self.write_line(f"{self.prefix.upper()}FREE(*msgListOut);")
+        self.write_line(f"{self.prefix}DestroyMessageList(*msgListOut, *len);")
         self.write_line("*msgListOut = NULL;")
-        self.write_line(f"return {self.prefix.upper()}ERR_INVALID_DATA;")
+        self.write_line("*len = 0;")
+        self.write_line("return err;")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("if (*len != (size_t)msgCount) {")
-- 
2.43.0


From 0f09c4f645ef2280860536f0f0b36213d506aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:23 +0000
Subject: [PATCH 29/55] fix: looking for circular references visits each struct
 once

---
 beschi/protocol.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 0f13d62..3e25ffb 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -239,15 +239,17 @@ class Protocol():
             raise ValueError("Cannot, at present, have more than 255 types of messages. Sorry. :(")
 
         def check_for_cycles(s: Struct):
-            encountered = set([s.name])
+            encountered: set[str] = set()
             frontier = [m.vartype for m in s.members if m.vartype in self.structs]
             while len(frontier) > 0:
                 new_type = frontier.pop()
-                if new_type in encountered:
-                    raise RecursionError(f"{s.name} and {new_type} reference each other")
+                if new_type == s.name:
+                    raise RecursionError(f"{s.name} references itself")
+                if new_type in encountered: continue
+                encountered.add(new_type)
                 for cvar in self.structs[new_type].members:
-                    if cvar.vartype in encountered:
-                        raise RecursionError(f"{s.name} and {cvar.vartype} reference each other")
+                    if cvar.vartype == s.name:
+                        raise RecursionError(f"{s.name} and {new_type} reference each other")
                     if cvar.vartype not in self.structs: continue
                     frontier.append(cvar.vartype)
 
-- 
2.43.0


From bbdd241accc43fc4b980205185fd4ef0eac96c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:23 +0000
Subject: [PATCH 30/55] fix: duplicate enum names and enum value names are
 rejected

---
 beschi/protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 3e25ffb..fde92fc 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -85,6 +85,8 @@ class Enum():
                     raise TypeError("Missing _value in enum entry")
                 if not type(entry["_value"]) is int:
                     raise TypeError(f"Enum entry _value is not an integer: {entry['_value']}")
+                if entry["_name"] in od:
+                    raise ValueError(f"Duplicate values in enum {name}: {entry['_name']}")
                 od[entry["_name"]] = entry["_value"]
             self.values = od
 
@@ -184,6 +186,8 @@ class Protocol():
             if not type(enum_data["_values"]) is list:
                 raise ValueError(f"Values is not list on {enum_data}")
             e = Enum(enum_data["_name"], enum_data["_values"])
+            if e.name in self.enums:
+                raise ValueError(f"Duplicate _name on {enum_data}")
             self.enums[e.name] = e
 
         def validate_enum(e: Enum):
-- 
2.43.0


From 766fcb75938e8c516af663736c8a9c5756df2916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:23 +0000
Subject: [PATCH 31/55] fix: data members named like a base type are rejected,
 as documented

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index fde92fc..909afc0 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -229,6 +229,8 @@ class Protocol():
             for var in s.members:
                 if _contains_whitespace(var.name):
                     raise ValueError(f"Member name cannot contain whitespace: '{var.name}'")
+                if var.name in RESERVED_WORDS:
+                    raise ValueError(f"Member name is reserved word: '{var.name}'")
                 valid_types: list[str] = list(self.structs) + list(self.enums) + list(NUMERIC_TYPE_SIZES.keys()) + ["string"]
                 if var.vartype not in valid_types:
                     if s.is_message and var.vartype in self.messages:
-- 
2.43.0


From 8ca4d3227aca389937ebedcfd65e2dd001e5fd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:23 +0000
Subject: [PATCH 32/55] fix: --namespace is held to the same rules as the
 namespace in the protocol

---
 beschi/cli.py      | 7 ++++++-
 beschi/protocol.py | 7 +++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/beschi/cli.py b/beschi/cli.py
index 092cfec..d1e09f0 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -2,7 +2,7 @@ import sys
 import argparse
 import traceback
 
-from .protocol import Protocol
+from .protocol import Protocol, validate_namespace
 from .writers import all_writers, experimental_writers
 from . import LIB_NAME, LIB_VERSION
 
@@ -62,6 +62,11 @@ def main():
         sys.exit(1)
 
     if args.namespace and len(args.namespace) > 0:
+        try:
+            validate_namespace(args.namespace)
+        except ValueError as e:
+            sys.stderr.write(f"ERROR: {e}\n")
+            sys.exit(1)
         protocol.namespace = args.namespace
 
     if args.lang not in writers and args.lang not in exp_writers:
diff --git a/beschi/protocol.py b/beschi/protocol.py
index 909afc0..a4b507b 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -33,6 +33,10 @@ RESERVED_WORDS: list[str] = list(NUMERIC_TYPE_SIZES.keys()) + ["string", "list"]
 def _contains_whitespace(s: str) -> bool:
     return True in [c in s for c in string.whitespace]
 
+def validate_namespace(namespace: str):
+    if _contains_whitespace(namespace):
+        raise ValueError(f"Namespace cannot contain whitespace: '{namespace}'")
+
 class Variable():
     def __init__(self, protocol: Protocol, name: str, vartype: str, is_list: bool = False):
         self.protocol = protocol
@@ -134,8 +138,7 @@ class Protocol():
 
         if "meta" in protocol_data:
             if "namespace" in protocol_data["meta"]:
-                if _contains_whitespace(protocol_data["meta"]["namespace"]):
-                    raise ValueError(f"Namespace cannot contain whitespace: '{protocol_data['meta']['namespace']}'")
+                validate_namespace(protocol_data["meta"]["namespace"])
                 self.namespace = protocol_data["meta"]["namespace"]
             valid_sizes = ["byte", "uint16", "int16", "uint32", "int32", "uint64", "int64"]
             if "list_size_type" in protocol_data["meta"]:
-- 
2.43.0


From b61716bf84c222eadd2f821b87684480cd2234fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:23 +0000
Subject: [PATCH 33/55] fix: an embedded protocol cannot end the comment that
 holds it

---
 beschi/writer.py             | 4 ++++
 beschi/writers/c.py          | 2 +-
 beschi/writers/csharp.py     | 2 +-
 beschi/writers/go.py         | 2 +-
 beschi/writers/rust.py       | 2 +-
 beschi/writers/swift.py      | 2 +-
 beschi/writers/typescript.py | 2 +-
 7 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/beschi/writer.py b/beschi/writer.py
index 990a59e..2fbbb06 100644
--- a/beschi/writer.py
+++ b/beschi/writer.py
@@ -91,6 +91,10 @@ class Writer:
     def indent_string(self, text: str) -> str:
         return (self.tab * self.indent_level) + text
 
+    # text of the protocol, safe to put inside a /* block comment */
+    def get_protocol_comment_lines(self) -> list[str]:
+        return self.protocol.protocol_string.replace("*/", "* /").replace("/*", "/ *").splitlines()
+
     def get_native_list_size(self) -> str:
         return self.type_mapping[self.protocol.list_size_type]
 
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index f06fcd6..5fdb658 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -427,7 +427,7 @@ class CWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.get_protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 88df628..5d0ec36 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -270,7 +270,7 @@ class CSharpWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.get_protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index e4d789f..fd9a6f4 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -318,7 +318,7 @@ class GoWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.get_protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index a96c680..25d6787 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -270,7 +270,7 @@ class RustWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.get_protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index 5860b31..b4fc3a2 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -244,7 +244,7 @@ class SwiftWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.get_protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 001a75f..739ae3b 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -396,7 +396,7 @@ class TypeScriptWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.get_protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
-- 
2.43.0


From 323b1793fb9db01b49022e53af1e0a5563071826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:23 +0000
Subject: [PATCH 34/55] fix: --typescript-use-namespace needs a namespace to
 use

---
 beschi/writers/typescript.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 739ae3b..44be30d 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -22,7 +22,7 @@ class TypeScriptWriter(Writer):
 
         self.embed_protocol = extra_args["embed_protocol"]
 
-        self.use_namespace = extra_args["typescript_use_namespace"]
+        self.use_namespace = extra_args["typescript_use_namespace"] and self.protocol.namespace != None
 
         for var_type in NUMERIC_TYPE_SIZES:
             if var_type == "bool":
-- 
2.43.0


From 7657e8416d931e79702bd4847f615c635234b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:00 +0000
Subject: [PATCH 35/55] fix: C and Rust code for 255 messages compiles without
 warnings

---
 beschi/writers/c.py    | 11 ++++++-----
 beschi/writers/rust.py |  3 ++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 5fdb658..baca16d 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -476,11 +476,12 @@ class CWriter(Writer):
         self.indent_level += 1
         self.write_line("const uint8_t* buffer = (const uint8_t*)m;")
         self.write_line("uint8_t msgType = buffer[0];")
-        self.write_line(f"if (msgType > {len(self.protocol.messages)}) {{")
-        self.indent_level += 1
-        self.write_line(f"return {self.prefix}MessageType_BuiltIn_NullMessage;")
-        self.indent_level -= 1
-        self.write_line("}")
+        if len(self.protocol.messages) < 255:
+            self.write_line(f"if (msgType > {len(self.protocol.messages)}) {{")
+            self.indent_level += 1
+            self.write_line(f"return {self.prefix}MessageType_BuiltIn_NullMessage;")
+            self.indent_level -= 1
+            self.write_line("}")
         self.write_line(f"return ({self.prefix}MessageType)msgType;")
         self.indent_level -= 1
         self.write_line("}")
diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 25d6787..d39a5d1 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -333,7 +333,8 @@ class RustWriter(Writer):
         self.write_line(f"0 => return Err({self.prefix}Error::EndOfMessageList),")
         for mi, mname in enumerate(self.protocol.messages):
             self.write_line(f"{mi+1} => Message::{mname}({mname}::from_bytes(reader)?),")
-        self.write_line(f"_ => return Err({self.prefix}Error::InvalidData),")
+        if len(self.protocol.messages) < 255:
+            self.write_line(f"_ => return Err({self.prefix}Error::InvalidData),")
         self.indent_level -= 1
         self.write_line("};")
         self.write_line("Ok(msg)")
-- 
2.43.0


From 7717798ff4e26af274fcf82ea53d506620baa668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 36/55] fix: --embed-protocol drops byte order marks and text
 direction controls, which compilers refuse

---
 beschi/writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beschi/writer.py b/beschi/writer.py
index 2fbbb06..b0da213 100644
--- a/beschi/writer.py
+++ b/beschi/writer.py
@@ -93,7 +93,9 @@ class Writer:
 
     # text of the protocol, safe to put inside a /* block comment */
     def get_protocol_comment_lines(self) -> list[str]:
-        return self.protocol.protocol_string.replace("*/", "* /").replace("/*", "/ *").splitlines()
+        # compilers refuse byte order marks and text direction controls inside a file
+        text = re.sub("[\ufeff\u202a-\u202e\u2066-\u2069]", "", self.protocol.protocol_string)
+        return text.replace("*/", "* /").replace("/*", "/ *").splitlines()
 
     def get_native_list_size(self) -> str:
         return self.type_mapping[self.protocol.list_size_type]
-- 
2.43.0


From 66081b53244544ec6a62851606d57e3028615a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 37/55] fix: AssemblyScript supports 64-bit list and string
 sizes and rejects negative and overlong ones

---
 beschi/writers/boilerplate/AssemblyScript.ts | 10 +++++++---
 beschi/writers/typescript.py                 | 11 ++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 682673c..010c4f8 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -14,6 +14,10 @@ export class DataAccess {
     return this.currentOffset > (this.data.byteLength as u32);
   }
 
+  bytesLeft(): i64 {
+    return (this.data.byteLength as i64) - (this.currentOffset as i64);
+  }
+
   getByte(): u8 {
     if (this.currentOffset + 1 > (this.data.byteLength as u32)) {
         this.hasError = true;
@@ -109,15 +113,15 @@ export class DataAccess {
   }
 
   getString(): string {
-    const len = this.get{# STRING_SIZE_TYPE #}();
+    const len = this.get{# STRING_SIZE_TYPE #}() as i64;
     if (this.hasError) {
         return "";
     }
-    if (this.currentOffset + len > (this.data.byteLength as u32)) {
+    if (len < 0 || len > this.bytesLeft()) {
         this.hasError = true;
         return "";
     }
-    const strBuffer = new Uint8Array(len);
+    const strBuffer = new Uint8Array(len as i32);
     for (let i = 0; i < strBuffer.byteLength; i++) {
         strBuffer[i] = this.getByte();
     }
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 44be30d..98e391e 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -54,12 +54,17 @@ class TypeScriptWriter(Writer):
             list_length = f"da.get{self.base_serializers[self.protocol.list_size_type]}()"
             if self.type_mapping[self.protocol.list_size_type] == "bigint":
                 list_length = f"Number({list_length})"
-            self.write_line(f"const {var_clean}_Length = {list_length};")
             if self.is_assembly_script:
-                self.write_line("if (da.hasError) { return null; }")
+                self.write_line(f"const {var_clean}_Size = {list_length} as i64;")
+                limit = "da.bytesLeft()"
+                if var.is_simple(True) and self.protocol.get_size_of(var.vartype) == 0:
+                    limit = "(i32.MAX_VALUE as i64)"
+                self.write_line(f"if (da.hasError || {var_clean}_Size < 0 || {var_clean}_Size > {limit}) {{ return null; }}")
+                list_length = f"{var_clean}_Size as i32"
+            self.write_line(f"const {var_clean}_Length = {list_length};")
             self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length);")
             idx = self.indent_level
-            self.write_line(f"for (let i{idx}: {self.type_mapping[self.protocol.list_size_type] if self.is_assembly_script else 'number'} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
+            self.write_line(f"for (let i{idx}: {'i32' if self.is_assembly_script else 'number'} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
-- 
2.43.0


From 1ce05648d6c347a6abe27d8f038d3c9866557436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 38/55] fix: AssemblyScript reads exactly the declared enum
 values, everything else as _Unknown

---
 beschi/writers/typescript.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 98e391e..2d86172 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -48,6 +48,21 @@ class TypeScriptWriter(Writer):
 
         self.is_assembly_script = False
 
+    def unknown_enum(self, value: str, e: Enum):
+        # AssemblyScript enums are plain integers, so the declared values are listed
+        self.write_line(f"switch ({value}) {{")
+        self.indent_level += 1
+        [self.write_line(f"case {e.name}.{v}:") for v in e.values]
+        self.indent_level += 1
+        self.write_line("break;")
+        self.indent_level -= 1
+        self.write_line("default:")
+        self.indent_level += 1
+        self.write_line(f"{value} = {e.name}._Unknown;")
+        self.indent_level -= 1
+        self.indent_level -= 1
+        self.write_line("}")
+
     def deserializer(self, var: Variable, accessor: str):
         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
         if var.is_list:
@@ -76,13 +91,9 @@ class TypeScriptWriter(Writer):
                     self.indent_level -= 1
                     self.write_line("}")
                 else:
-                    self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}();")
+                    self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}() as i32;")
                     self.write_line("if (da.hasError) { return null; }")
-                    self.write_line(f"if (_{var.name} < {e.get_minimum_pair()[1]} || _{var.name} >= ({var.vartype}._Unknown as {self.type_mapping[e.encoding]})) {{")
-                    self.indent_level += 1
-                    self.write_line(f"_{var.name} = {var.vartype}._Unknown as {self.type_mapping[e.encoding]};")
-                    self.indent_level -= 1
-                    self.write_line("}")
+                    self.unknown_enum(f"_{var.name}", e)
                 self.write_line(f"{accessor}{var.name}[i{idx}] = _{var.name};")
             else:
                 inner = Variable(self.protocol, f"{var.name}[i{idx}]", var.vartype)
@@ -103,13 +114,9 @@ class TypeScriptWriter(Writer):
                 self.indent_level -= 1
                 self.write_line("}")
             else:
-                self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}();")
+                self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}() as i32;")
                 self.write_line("if (da.hasError) { return null; }")
-                self.write_line(f"if (_{var.name} < {e.get_minimum_pair()[1]} || _{var.name} >= ({var.vartype}._Unknown as {self.type_mapping[e.encoding]})) {{")
-                self.indent_level += 1
-                self.write_line(f"_{var.name} = {var.vartype}._Unknown as {self.type_mapping[e.encoding]};")
-                self.indent_level -= 1
-                self.write_line("}")
+                self.unknown_enum(f"_{var.name}", e)
             self.write_line(f"{accessor}{var.name} = _{var.name};")
         elif var.vartype in NUMERIC_TYPE_SIZES:
             self.write_line(f"{accessor}{var.name} = da.get{self.base_serializers[var.vartype]}();")
@@ -227,7 +234,10 @@ class TypeScriptWriter(Writer):
         for v, vi in edata.values.items():
             self.write_line(f"{v} = {vi},")
         if self.is_assembly_script:
-            self.write_line("_Unknown,")
+            unknown = max(edata.values.values()) + 1
+            if unknown > 2147483647:
+                unknown = next(i for i in range(len(edata.values) + 1) if i not in edata.values.values())
+            self.write_line(f"_Unknown = {unknown},")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line()
-- 
2.43.0


From 0c022f54e29e1cfffeba192afe6c2798f0c797c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 39/55] fix: AssemblyScript unpacks empty containers and
 containers inside a larger buffer

---
 beschi/writers/boilerplate/AssemblyScript.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 010c4f8..3a991dc 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -280,7 +280,7 @@ export function PackMessages(msgList: Message[], data: DataView): void {
 
 export function UnpackMessages(data: DataView): Message[] {
   const da = new DataAccess(data);
-  if (da.data.byteLength < 12) {
+  if (da.data.byteLength < 8) {
     throw new Error("Packed message buffer is too short.");
   }
   const headerBuffer = new Uint8Array(4);
@@ -295,8 +295,7 @@ export function UnpackMessages(data: DataView): Message[] {
   if (msgCount == 0) {
     return [];
   }
-  const dv = new DataView(data.buffer, da.currentOffset, data.byteLength - da.currentOffset);
-  const msgList = ProcessRawBytes(dv, msgCount);
+  const msgList = ProcessRawBytesDA(da, msgCount);
   if (msgList.length == 0) {
     throw new Error("No messages in buffer.");
   }
-- 
2.43.0


From e2d238470ae71560e6052738e53a09941ca6ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 40/55] fix: AssemblyScript reads a tagged message through
 Message.fromBytes, as documented

---
 beschi/writers/boilerplate/AssemblyScript.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 3a991dc..854a8c3 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -239,11 +239,11 @@ export abstract class Message {
 
   static fromBytes(data: DataView): Message | null {
     const da = new DataAccess(data);
-    return this.fromBytesDA(da);
+    return Message.fromBytesDA(da);
   };
 
   static fromBytesDA(data: DataAccess): Message | null {
-    const msgList = ProcessRawBytes(data, 1);
+    const msgList = ProcessRawBytesDA(data, 1);
     if (msgList.length == 0) {
       return null;
     }
-- 
2.43.0


From 9bd6da5e70a1d5753f3619b2aef88b21c56b09ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 41/55] fix: AssemblyScript DataAccess is finished at the end
 of its data

---
 beschi/writers/boilerplate/AssemblyScript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 854a8c3..1920424 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -11,7 +11,7 @@ export class DataAccess {
   }
 
   isFinished(): bool {
-    return this.currentOffset > (this.data.byteLength as u32);
+    return this.currentOffset >= (this.data.byteLength as u32);
   }
 
   bytesLeft(): i64 {
-- 
2.43.0


From 1e7a2a9d7d663050526f1c7db282fc50a6c88da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 42/55] fix: Swift strings of negative or huge lengths, and
 strings in a slice of Data

---
 beschi/writers/boilerplate/Swift.0.swift | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/Swift.0.swift b/beschi/writers/boilerplate/Swift.0.swift
index 1fb74e7..71e32d0 100644
--- a/beschi/writers/boilerplate/Swift.0.swift
+++ b/beschi/writers/boilerplate/Swift.0.swift
@@ -136,11 +136,14 @@ class DataReader {
     }
 
     func GetString() throws -> String {
-        let stringLength = try Int(self.Get{# STRING_SIZE_TYPE #}())
-        if (self.data.count < self.currentOffset + stringLength) {
+        guard
+            let stringLength = Int(exactly: try self.Get{# STRING_SIZE_TYPE #}()),
+            stringLength >= 0 && stringLength <= self.data.count - self.currentOffset
+        else {
             throw DataReaderError.EOF
         }
-        let stringData = self.data[self.currentOffset..<(self.currentOffset+stringLength)]
+        let stringStart = self.data.startIndex + self.currentOffset
+        let stringData = self.data[stringStart..<(stringStart+stringLength)]
         guard
             let ret = String(data: stringData, encoding: String.Encoding.utf8)
         else {
-- 
2.43.0


From f787ee6f9f7b681b2c3757885f4173ef8ced5970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 43/55] fix: Swift rejects negative list lengths instead of
 stopping the program

---
 beschi/writers/swift.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index b4fc3a2..f840e51 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -43,6 +43,12 @@ class SwiftWriter(Writer):
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"let {var.name}_Length = try dataReader.Get{self.get_native_list_size()}()")
+            if self.protocol.list_size_type.startswith("int"):
+                self.write_line(f"if {var.name}_Length < 0 {{")
+                self.indent_level += 1
+                self.write_line("throw DataReaderError.InvalidData")
+                self.indent_level -= 1
+                self.write_line("}")
             self.write_line(f"{accessor}{var.name} = []")
             self.write_line(f"for _ in 0..<{var.name}_Length {{")
             self.indent_level += 1
-- 
2.43.0


From f0ad1452053c0a20545a002a611219462218d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 44/55] fix: Swift unpacking throws on less than a header, and
 reads from a slice of Data

---
 beschi/writers/boilerplate/Swift.0.swift | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/Swift.0.swift b/beschi/writers/boilerplate/Swift.0.swift
index 71e32d0..0d45a7b 100644
--- a/beschi/writers/boilerplate/Swift.0.swift
+++ b/beschi/writers/boilerplate/Swift.0.swift
@@ -251,7 +251,10 @@ public class Message {
 
     public static func UnpackMessages(_ data: Data) throws -> [Message] {
         let dataReader = DataReader(fromData: data)
-        let headerBytes = dataReader.data[dataReader.currentOffset..<dataReader.currentOffset+4];
+        if data.count < 4 {
+            throw DataReaderError.EOF
+        }
+        let headerBytes = data[data.startIndex..<data.startIndex+4];
         guard
             let headerLabel = String(data: headerBytes, encoding: String.Encoding.utf8)
         else {
@@ -265,7 +268,7 @@ public class Message {
         if msgCount == 0 {
             return [Message]()
         }
-        let listData = data.subdata(in: dataReader.currentOffset..<dataReader.data.count)
+        let listData = data.subdata(in: (data.startIndex + dataReader.currentOffset)..<data.endIndex)
         let msgList: [Message] = try ProcessRawBytes(listData, max: Int(msgCount))
         if msgList.count == 0 {
             throw DataReaderError.InvalidData
-- 
2.43.0


From b4d6710fd2cb6b875308a9bddf75544dd1b976a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 45/55] fix: a C namespace containing "BESCHI" gives code that
 compiles

---
 beschi/writers/c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index baca16d..ddec57d 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -57,7 +57,8 @@ class CWriter(Writer):
         self.subs: list[tuple[str,str]] = []
         self.prefix = "beschi_"
         if self.protocol.namespace != None:
-            self.subs = [("beschi", self.protocol.namespace), ("BESCHI", self.protocol.namespace.upper())]
+            # upper case first, so that a namespace with "BESCHI" in it is not substituted again
+            self.subs = [("BESCHI", self.protocol.namespace.upper()), ("beschi", self.protocol.namespace)]
             self.prefix = f"{self.protocol.namespace}_"
 
     def err_check_return(self):
-- 
2.43.0


From 312f505036af4479be2c9b060d4c0d4e954f7078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 46/55] fix: Go ProcessRawBytes reports an error of the reader
 instead of ending the list

---
 beschi/writers/go.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index fd9a6f4..1b7cb17 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -372,6 +372,11 @@ class GoWriter(Writer):
         self.write_line("break")
         self.indent_level -= 1
         self.write_line("}")
+        self.write_line("if err != nil {")
+        self.indent_level += 1
+        self.write_line("return nil, fmt.Errorf(\"could not read message type at offset %d (%w)\", getDataOffset(data), err)")
+        self.indent_level -= 1
+        self.write_line("}")
         self.write_line("if msgType == 0 {")
         self.indent_level += 1
         self.write_line("return msgList, nil")
-- 
2.43.0


From 1964fb191bf064e8a3b4dc6395362e97c0a1e96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:45 +0000
Subject: [PATCH 47/55] fix: the output file is written as UTF-8 in every
 locale

---
 beschi/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/cli.py b/beschi/cli.py
index d1e09f0..da3bddd 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -99,5 +99,5 @@ def main():
     else:
         # if there's any problem with creating/writing to this file, just let
         #    the regular exceptions bubble out
-        with open(args.output, "w") as output_file:
+        with open(args.output, "w", encoding="utf-8") as output_file:
             output_file.write(output)
-- 
2.43.0


From 69d51fcd1a6b3aaf62f22fdc8bc42f98fe29c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:16 +0000
Subject: [PATCH 48/55] fix: Rust members named reader, or like a list with
 _len, are read correctly

---
 beschi/writers/rust.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index d39a5d1..727c7b1 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -45,9 +45,9 @@ class RustWriter(Writer):
 
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
-            self.write_line(f"let {var.name}_len = reader.read_{self.get_native_list_size()}()?;")
+            self.write_line(f"let _{var.name}_len = _reader.read_{self.get_native_list_size()}()?;")
             if self.protocol.list_size_type.startswith("int"):
-                self.write_line(f"if {var.name}_len < 0 {{")
+                self.write_line(f"if _{var.name}_len < 0 {{")
                 self.indent_level += 1
                 self.write_line(f"return Err({self.prefix}Error::InvalidData);")
                 self.indent_level -= 1
@@ -56,7 +56,7 @@ class RustWriter(Writer):
                 self.write_line(f"let mut {var.name}: Vec<{self.type_mapping[var.vartype]}> = Vec::new();")
             else:
                 self.write_line(f"let mut {var.name}: Vec<{var.vartype}> = Vec::new();")
-            self.write_line(f"for _ in 0..{var.name}_len {{")
+            self.write_line(f"for _ in 0.._{var.name}_len {{")
             self.indent_level += 1
             inner = Variable(self.protocol, "_el", var.vartype)
             self.deserializer(inner, "");
@@ -65,19 +65,19 @@ class RustWriter(Writer):
             self.write_line("}")
         elif var.vartype in NUMERIC_TYPE_SIZES:
             if var.vartype == "byte":
-                self.write_line(f"let {var.name} = reader.take_byte()?;")
+                self.write_line(f"let {var.name} = _reader.take_byte()?;")
             elif var.vartype == "bool":
-                self.write_line(f"let {var.name} = reader.take_byte()? > 0;")
+                self.write_line(f"let {var.name} = _reader.take_byte()? > 0;")
             else:
-                self.write_line(f"let {var.name} = reader.read_{self.type_mapping[var.vartype]}()?;")
+                self.write_line(f"let {var.name} = _reader.read_{self.type_mapping[var.vartype]}()?;")
         elif var.vartype == "string":
-            self.write_line(f"let {var.name} = reader.read_string()?;")
+            self.write_line(f"let {var.name} = _reader.read_string()?;")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-            self.write_line(f"let {var.name} = reader.read_{self.type_mapping[e.encoding]}()?;")
+            self.write_line(f"let {var.name} = _reader.read_{self.type_mapping[e.encoding]}()?;")
             self.write_line(f"let {var.name} = {var.vartype}::try_from({var.name})?;")
         else:
-            self.write_line(f"let {var.name} = {var.vartype}::from_bytes(reader)?;")
+            self.write_line(f"let {var.name} = {var.vartype}::from_bytes(_reader)?;")
 
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
@@ -230,7 +230,7 @@ class RustWriter(Writer):
         self.write_line("}")
         self.write_line()
 
-        self.write_line(f"fn from_bytes({'_' if len(sdata.members) == 0 else ''}reader: &mut BufferReader) -> Result<{sname}, {self.prefix}Error> {{")
+        self.write_line(f"fn from_bytes(_reader: &mut BufferReader) -> Result<{sname}, {self.prefix}Error> {{")
         self.indent_level += 1
         [self.deserializer(mem, "") for mem in sdata.members]
         varnames = [mem.name for mem in sdata.members]
-- 
2.43.0


From 26226c46f3f8208420310ff63deab092c5f7af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:16 +0000
Subject: [PATCH 49/55] fix: C# members named el compile beside lists

---
 beschi/writers/csharp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 5d0ec36..f21debe 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -65,9 +65,9 @@ class CSharpWriter(Writer):
                 self.write_line("}")
                 self.write_line(f"{accessor}{var.name}.Add(({var.vartype})_{var.name});")
             else:
-                inner = Variable(self.protocol, f"{self.type_mapping[var.vartype]} _el", var.vartype)
+                inner = Variable(self.protocol, f"{self.type_mapping[var.vartype]} __el", var.vartype)
                 self.deserializer(inner, "")
-                self.write_line(f"{accessor}{var.name}.Add(_el);")
+                self.write_line(f"{accessor}{var.name}.Add(__el);")
             self.indent_level -= 1
             self.write_line("}")
         elif var.vartype == "string":
@@ -98,10 +98,10 @@ class CSharpWriter(Writer):
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"bw.Write(({self.get_native_list_size()}){accessor}{var.name}.Count);")
-            self.write_line(f"foreach ({self.type_mapping[var.vartype]} el in {accessor}{var.name})")
+            self.write_line(f"foreach ({self.type_mapping[var.vartype]} _el in {accessor}{var.name})")
             self.write_line("{")
             self.indent_level += 1
-            inner = Variable(self.protocol, "el", var.vartype)
+            inner = Variable(self.protocol, "_el", var.vartype)
             self.serializer(inner, "")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From b9536d70ee8619f3a416a19ec655bf4795ddcee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:16 +0000
Subject: [PATCH 50/55] fix: Zig members named like another with _read compile

---
 beschi/writers/zig.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index a127373..a456a60 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -50,25 +50,25 @@ class ZigWriter(Writer):
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f"const {accessor}_{var.name} = (try readNumber({var.vartype}, offset + {simple_offset}, buffer)).value;")
             else:
-                self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"const read_{accessor}_{var.name} = try {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
+                self.write_line(f"const {accessor}_{var.name} = read_{accessor}_{var.name}.value;")
         else:
             if var.is_list:
-                self.write_line(f"const {accessor}_{var.name}_read = try readList({self.type_mapping[var.vartype]}, allocator, local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
-                self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
+                self.write_line(f"const read_{accessor}_{var.name} = try readList({self.type_mapping[var.vartype]}, allocator, local_offset, buffer);")
+                self.write_line(f"const {accessor}_{var.name} = read_{accessor}_{var.name}.value;")
+                self.write_line(f"local_offset += read_{accessor}_{var.name}.bytes_read;")
             elif var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
-                self.write_line(f"const {accessor}_{var.name}_read = try readNumber({self.type_mapping[var.vartype]}, local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
-                self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
+                self.write_line(f"const read_{accessor}_{var.name} = try readNumber({self.type_mapping[var.vartype]}, local_offset, buffer);")
+                self.write_line(f"const {accessor}_{var.name} = read_{accessor}_{var.name}.value;")
+                self.write_line(f"local_offset += read_{accessor}_{var.name}.bytes_read;")
             elif var.vartype == "string":
-                self.write_line(f"const {accessor}_{var.name}_read = try readString(allocator, local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
-                self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
+                self.write_line(f"const read_{accessor}_{var.name} = try readString(allocator, local_offset, buffer);")
+                self.write_line(f"const {accessor}_{var.name} = read_{accessor}_{var.name}.value;")
+                self.write_line(f"local_offset += read_{accessor}_{var.name}.bytes_read;")
             else:
-                self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes({'' if var.is_simple() else 'allocator, '}local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
-                self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
+                self.write_line(f"const read_{accessor}_{var.name} = try {var.vartype}.fromBytes({'' if var.is_simple() else 'allocator, '}local_offset, buffer);")
+                self.write_line(f"const {accessor}_{var.name} = read_{accessor}_{var.name}.value;")
+                self.write_line(f"local_offset += read_{accessor}_{var.name}.bytes_read;")
             self.error_cleanup(var, f"{accessor}_{var.name}")
 
             self.write_line()
-- 
2.43.0


From 9d4b5c37e28f4adc5f5a2a9604ea13970fbeb4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:16 +0000
Subject: [PATCH 51/55] fix: Swift enum members named like another with Read
 compile

---
 beschi/writers/swift.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index f840e51..7b9b2f7 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -54,8 +54,8 @@ class SwiftWriter(Writer):
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
-                self.write_line(f"let _{var.name}Read = try dataReader.Get{self.type_mapping[e.encoding]}()")
-                self.write_line(f"guard let _{var.name}_el = {var.vartype}(rawValue: _{var.name}Read) else {{")
+                self.write_line(f"let read_{var.name} = try dataReader.Get{self.type_mapping[e.encoding]}()")
+                self.write_line(f"guard let _{var.name}_el = {var.vartype}(rawValue: read_{var.name}) else {{")
                 self.indent_level += 1
                 self.write_line("throw DataReaderError.InvalidData")
                 self.indent_level -= 1
@@ -70,8 +70,8 @@ class SwiftWriter(Writer):
             self.write_line(f"{accessor}{var.name} = try dataReader.Get{self.type_mapping[var.vartype]}()")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-            self.write_line(f"let _{var.name}Read = try dataReader.Get{self.type_mapping[e.encoding]}()")
-            self.write_line(f"guard let _{var.name} = {var.vartype}(rawValue: _{var.name}Read) else {{")
+            self.write_line(f"let read_{var.name} = try dataReader.Get{self.type_mapping[e.encoding]}()")
+            self.write_line(f"guard let _{var.name} = {var.vartype}(rawValue: read_{var.name}) else {{")
             self.indent_level += 1
             self.write_line("throw DataReaderError.InvalidData")
             self.indent_level -= 1
-- 
2.43.0


From 4974212dd44def59b41619b0df057351ad88733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 52/55] fix: C lists of no elements do not allocate zero bytes
 when read (an allocator may return NULL for them)

---
 beschi/writers/c.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index ddec57d..efe0193 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -83,13 +83,15 @@ class CWriter(Writer):
                 pref = ""
             else:
                 pref = self.prefix
-            self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC(sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
+            # never zero bytes, for which an allocator is free to return NULL
+            count = f"({accessor}{var.name}_len > 0 ? {accessor}{var.name}_len : 1)"
+            self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC(sizeof({pref}{self.type_mapping[var.vartype]}) * {count});")
             self.write_line(f"if ({accessor}{var.name} == NULL) {{ {accessor}{var.name}_len = 0; return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
             if not var.is_simple(True):
                 # so that the list can be destroyed if reading one of its elements fails
                 self.write_line(f"memset({accessor}{var.name}, 0, sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
             if var.vartype == "string":
-                self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * {accessor}{var.name}_len);")
+                self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * {count});")
                 self.write_line(f"if ({accessor}{var.name}_els_len == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
             idx = self.indent_level
             self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
-- 
2.43.0


From 6a4768806abbc7c68a8a120d912d039a4357a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:41 +0000
Subject: [PATCH 53/55] fix: C documentation swaps signed and unsigned types
 and misnames Destroy and Cleanup

---
 docs/languages/c.md | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/docs/languages/c.md b/docs/languages/c.md
index 73ef505..f356517 100644
--- a/docs/languages/c.md
+++ b/docs/languages/c.md
@@ -11,12 +11,12 @@ The base data types map to C accordingly:
 |---------------|------------|
 | `byte`        | `uint8_t`  |
 | `bool`        | `bool`     |
-| `int16`       | `uint16_t` |
-| `uint16`      | `int16_t`  |
-| `int32`       | `uint32_t` |
-| `uint32`      | `int32_t`  |
-| `int64`       | `uint64_t` |
-| `uint64`      | `int64_t`  |
+| `int16`       | `int16_t`  |
+| `uint16`      | `uint16_t` |
+| `int32`       | `int32_t`  |
+| `uint32`      | `uint32_t` |
+| `int64`       | `int64_t`  |
+| `uint64`      | `uint64_t` |
 | `float`       | `float`    |
 | `double`      | `double`   |
 | `string`      | `char*`    |
@@ -48,8 +48,8 @@ Note that this requires the `stdint.h` and `stdbool.h` header files, which are s
 * When declaring an instance of a message, it's probably best to use the generated `{namespace}_{message_name}_Create` function to make sure that its members are initialized and that its identifying byte is set correctly. Otherwise things might break.
     - Note that function allocates, so that's a problem for you, just copy the constant `{namespace}_{message_name}_default` directly. 
 * Reading a message from a buffer copies all the data it needs, so the buffer can be discarded safely afterwards. This *does* mean, though, that the reading functions will allocate memory if there are lists or strings in the structure. They will need to be `free`-ed or will leak. 
-    - Every message struct has an associated `{namespace}_Destroy{message_type}` function that handles that for you. 
-* There might be a situation, say when you've created a Message on the stack instead of in the heap, where you want to clean up all its data (like strings and arrays and stuff) but not `free` the Message itself. In that case, instead of calling `{namespace}_Destroy{message_type}`, use `{namespace}_Cleanup{message_type}` and it will recursively free everything that needs freeing in the Message. You can then happily just let it pass out of scope and not worry about leaks. 
+    - Every message struct has an associated `{namespace}_{message_type}_Destroy` function that handles that for you. 
+* There might be a situation, say when you've created a Message on the stack instead of in the heap, where you want to clean up all its data (like strings and arrays and stuff) but not `free` the Message itself. In that case, instead of calling `{namespace}_{message_type}_Destroy`, use `{namespace}_{message_type}_Cleanup` and it will recursively free everything that needs freeing in the Message. You can then happily just let it pass out of scope and not worry about leaks. 
 * `ProcessRawBytes` fills an array of pointers to `void` (`void**`), so you need to pass it a *pointer* to such an array, a `void***`. I know, I know. Anyway, once it's filled, you can check each one for its type with `{namespace}_GetMessageType` and then cast as you need to. 
     - Note that each of the messages in the resulting list has been allocated, so will need to be freed. (Probably best to use their aforementioned `_Destroy` functions.)
     - There is also a `{namespace}_DestroyMessageList` to help with cleaning that up the whole list if you want to do it that way.
-- 
2.43.0


From 436f33284215846beb485eb2b1f1901c21ec2e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:15 +0000
Subject: [PATCH 54/55] fix: generate Zig that compiles with more than a
 thousand enum values or types

---
 beschi/writers/boilerplate/Zig.zig | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index d3d1ea2..eeb1db4 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -29,6 +29,7 @@ const enumTypes = [_]type{
 };
 
 fn typeIsSimple(comptime T: type) bool {
+    @setEvalBranchQuota(1000 + 10 * (simpleTypes.len + enumTypes.len));
     if (comptime numberTypeIsValid(T)) {
         return true;
     }
@@ -44,6 +45,7 @@ fn typeIsSimple(comptime T: type) bool {
 }
 
 fn typeIsEnum(comptime T: type) bool {
+    @setEvalBranchQuota(1000 + 10 * enumTypes.len);
     for (enumTypes) |vt| {
         if (T == vt) {
             return true;
@@ -53,6 +55,7 @@ fn typeIsEnum(comptime T: type) bool {
 }
 
 fn isValidEnum(comptime Te: type, comptime Ti: type, value: Ti) bool {
+    @setEvalBranchQuota(1000 + 10 * std.meta.fields(Te).len);
     inline for (std.meta.fields(Te)) |f| {
         if (value == f.value) {
             return true;
-- 
2.43.0


From 54278224355a8945c57fe4bc08c6d9d4c295df1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:17 +0000
Subject: [PATCH 55/55] fix: generate Rust without an unreachable arm for an
 enum that names every number of its width

---
 beschi/writers/rust.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 727c7b1..171358e 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -1,6 +1,6 @@
 import argparse
 
-from ..protocol import Protocol, Struct, Variable, Enum, NUMERIC_TYPE_SIZES
+from ..protocol import Protocol, Struct, Variable, Enum, NUMERIC_TYPE_SIZES, NUMERIC_TYPE_RANGES
 from ..writer import Writer, TextUtil
 from .. import LIB_NAME, LIB_VERSION
 
@@ -175,7 +175,9 @@ class RustWriter(Writer):
         self.write_line("match value {")
         self.indent_level += 1
         [self.write_line(f"{vi} => Ok({ename}::{v}),") for v, vi in edata.values.items()]
-        self.write_line(f"_ => Err({self.prefix}Error::InvalidData)")
+        lowest, highest = NUMERIC_TYPE_RANGES[edata.encoding]
+        if len(edata.values) <= highest - lowest:
+            self.write_line(f"_ => Err({self.prefix}Error::InvalidData)")
         self.indent_level -= 1
         self.write_line("}")
         self.indent_level -= 1
-- 
2.43.0

