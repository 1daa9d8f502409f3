From ec172f263e1180b17f566b7c170865a917c671a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:24 +0000
Subject: [PATCH 01/25] fix: varint writers panic on values needing more than 8
 bytes

WriteUVarInt/WriteVarInt used an 8 byte scratch buffer; a 64-bit varint
needs up to 10 bytes.
---
 encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 37a7775..a8ebcee 100644
--- a/encoder.go
+++ b/encoder.go
@@ -152,7 +152,7 @@ func (e *Encoder) WriteUVarInt(v int) (err error) {
 		zlog.Debug("encode: write uvarint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutUvarint(buf, uint64(v))
 	return e.toWriter(buf[:l])
 }
@@ -162,7 +162,7 @@ func (e *Encoder) WriteVarInt(v int) (err error) {
 		zlog.Debug("encode: write varint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutVarint(buf, int64(v))
 	return e.toWriter(buf[:l])
 }
-- 
2.43.0


From dbe9f3ee43907c732e872287704bdbab9a6306bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:26 +0000
Subject: [PATCH 02/25] fix: report out-of-range compact-u16 lengths instead of
 dropping them

The encoder ignored the error of EncodeCompactU16Length, so a length above
65535 produced no length prefix at all and no error.
---
 encoder.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index a8ebcee..06e6758 100644
--- a/encoder.go
+++ b/encoder.go
@@ -137,7 +137,9 @@ func (e *Encoder) WriteLength(length int) error {
 		}
 	case EncodingCompactU16:
 		var buf []byte
-		EncodeCompactU16Length(&buf, length)
+		if err := EncodeCompactU16Length(&buf, length); err != nil {
+			return err
+		}
 		if err := e.WriteBytes(buf, false); err != nil {
 			return err
 		}
@@ -353,7 +355,9 @@ func (e *Encoder) WriteCompactU16(ln int) (err error) {
 		zlog.Debug("encode: write compact-u16", zap.Int("val", ln))
 	}
 	buf := make([]byte, 0)
-	EncodeCompactU16Length(&buf, ln)
+	if err := EncodeCompactU16Length(&buf, ln); err != nil {
+		return err
+	}
 	return e.toWriter(buf)
 }
 
-- 
2.43.0


From 4f3912db07120f513dd4768268211b368c3c2a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:28 +0000
Subject: [PATCH 03/25] fix: SetPosition accepts positions that overflow int

A position >= 2^63 became negative and passed the bounds check; the next
read then panicked.
---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index c843348..5a974e0 100644
--- a/decoder.go
+++ b/decoder.go
@@ -660,7 +660,7 @@ func (dec *Decoder) SkipBytes(count uint) error {
 }
 
 func (dec *Decoder) SetPosition(idx uint) error {
-	if int(idx) < len(dec.data) {
+	if idx < uint(len(dec.data)) {
 		dec.pos = int(idx)
 		return nil
 	}
-- 
2.43.0


From 97a7a9ba62c24771dda5ad0a4d3ef2f1dddbe19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:30 +0000
Subject: [PATCH 04/25] fix: Decode into a nil pointer panics

Return InvalidDecoderError, whose message already covers this case.
---
 decoder_bin.go         | 2 +-
 decoder_borsh.go       | 2 +-
 decoder_compact-u16.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index ca58676..4e500ed 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBin(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index bcac383..e900bca 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBorsh(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 13396dd..7801bde 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -27,7 +27,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionCompactU16(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
-- 
2.43.0


From 1ee8b4c028f327bf53ecfa958b6d17dda9ff60a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:32 +0000
Subject: [PATCH 05/25] fix: Int64, Uint64 and JSONFloat64 panic when used on a
 fresh coder

MarshalWithEncoder/UnmarshalWithDecoder dereferenced the current field
option, which is unset until the first Encode/Decode.
---
 tags-options.go | 18 ++++++++++++++++++
 types.go        | 12 ++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/tags-options.go b/tags-options.go
index e0da9e6..2920a03 100644
--- a/tags-options.go
+++ b/tags-options.go
@@ -33,6 +33,24 @@ var (
 
 var defaultByteOrder = binary.LittleEndian
 
+// fieldOrder returns the byte order of the field being decoded,
+// or the default one outside of any field.
+func (dec *Decoder) fieldOrder() binary.ByteOrder {
+	if dec.currentFieldOpt == nil {
+		return defaultByteOrder
+	}
+	return dec.currentFieldOpt.Order
+}
+
+// fieldOrder returns the byte order of the field being encoded,
+// or the default one outside of any field.
+func (e *Encoder) fieldOrder() binary.ByteOrder {
+	if e.currentFieldOpt == nil {
+		return defaultByteOrder
+	}
+	return e.currentFieldOpt.Order
+}
+
 func newDefaultOption() *option {
 	return &option{
 		is_OptionalField: false,
diff --git a/types.go b/types.go
index db56ba3..b476d8f 100644
--- a/types.go
+++ b/types.go
@@ -207,7 +207,7 @@ func (f *JSONFloat64) UnmarshalJSON(data []byte) error {
 }
 
 func (f *JSONFloat64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadFloat64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadFloat64(dec.fieldOrder())
 	if err != nil {
 		return err
 	}
@@ -217,7 +217,7 @@ func (f *JSONFloat64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (f JSONFloat64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteFloat64(float64(f), enc.currentFieldOpt.Order)
+	return enc.WriteFloat64(float64(f), enc.fieldOrder())
 }
 
 type Int64 int64
@@ -267,7 +267,7 @@ func (i *Int64) UnmarshalJSON(data []byte) error {
 }
 
 func (i *Int64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadInt64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadInt64(dec.fieldOrder())
 	if err != nil {
 		return err
 	}
@@ -277,7 +277,7 @@ func (i *Int64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (i Int64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteInt64(int64(i), enc.currentFieldOpt.Order)
+	return enc.WriteInt64(int64(i), enc.fieldOrder())
 }
 
 type Uint64 uint64
@@ -327,7 +327,7 @@ func (i *Uint64) UnmarshalJSON(data []byte) error {
 }
 
 func (i *Uint64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadUint64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadUint64(dec.fieldOrder())
 	if err != nil {
 		return err
 	}
@@ -337,5 +337,5 @@ func (i *Uint64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (i Uint64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteUint64(uint64(i), enc.currentFieldOpt.Order)
+	return enc.WriteUint64(uint64(i), enc.fieldOrder())
 }
-- 
2.43.0


From f79598d16e252e29cfb62bfa10f04ea6e5a0f99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:51 +0000
Subject: [PATCH 06/25] fix: optional value field of a custom type panics on
 decode

While looking for the place of the presence flag, indirect must not stop
at the unmarshaler of a value field: it returned a zero reflect.Value.
---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 5a974e0..b35f574 100644
--- a/decoder.go
+++ b/decoder.go
@@ -743,7 +743,7 @@ func indirect(v reflect.Value, decodingNull bool) (BinaryUnmarshaler, reflect.Va
 		if v.IsNil() {
 			v.Set(reflect.New(v.Type().Elem()))
 		}
-		if v.Type().NumMethod() > 0 && v.CanInterface() {
+		if !decodingNull && v.Type().NumMethod() > 0 && v.CanInterface() {
 			if u, ok := v.Interface().(BinaryUnmarshaler); ok {
 				return u, reflect.Value{}
 			}
-- 
2.43.0


From 9e9226d634791424efdd9ce73ee3d14750564306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:16 +0000
Subject: [PATCH 07/25] fix: borsh struct fields of custom types ignore their
 tags on decode

Fields whose type has its own UnmarshalWithDecoder took a shortcut that
skipped the option/coption flag, the byte order and the sizeof count that
the encoder writes. Decode them through the ordinary path, which calls
the same method.
---
 decoder_borsh.go | 26 --------------------------
 1 file changed, 26 deletions(-)

diff --git a/decoder_borsh.go b/decoder_borsh.go
index e900bca..54e3abe 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -408,32 +408,6 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 			)
 		}
 
-		rt := v.Type()
-		ptrImplements := reflect.PtrTo(rt).Implements(unmarshalableType)
-		vImplements := rt.Implements(unmarshalableType)
-		if ptrImplements || vImplements {
-			switch {
-			case ptrImplements:
-				m := reflect.New(rt)
-				val := m.Interface()
-				err := val.(BinaryUnmarshaler).UnmarshalWithDecoder(dec)
-				if err != nil {
-					return err
-				}
-				v.Set(reflect.ValueOf(val).Elem())
-				continue
-			case vImplements:
-				m := reflect.New(rt.Elem())
-				val := m.Interface()
-				err := val.(BinaryUnmarshaler).UnmarshalWithDecoder(dec)
-				if err != nil {
-					return err
-				}
-				v.Set(reflect.ValueOf(val))
-				continue
-			}
-		}
-
 		if err = dec.decodeBorsh(v, option); err != nil {
 			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
 		}
-- 
2.43.0


From 2480b703f7b0bd8d5b94acb2d7a0a6900fc87f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:18 +0000
Subject: [PATCH 08/25] fix: borsh maps with named 64-bit integer keys panic on
 encode

---
 encoder_borsh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index c1cc611..2594ffd 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -380,11 +380,11 @@ func vComp(keys []reflect.Value) func(int, int) bool {
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
 			return a.Int() < b.Int()
 		case reflect.Int64:
-			return a.Interface().(int64) < b.Interface().(int64)
+			return a.Int() < b.Int()
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
 			return a.Uint() < b.Uint()
 		case reflect.Uint64:
-			return a.Interface().(uint64) < b.Interface().(uint64)
+			return a.Uint() < b.Uint()
 		case reflect.Float32, reflect.Float64:
 			return a.Float() < b.Float()
 		case reflect.String:
-- 
2.43.0


From 35be5715e1c525beed5267b5014104c052bda027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:19 +0000
Subject: [PATCH 09/25] fix: borsh enum encoding drops slice, array, map and
 custom payloads

Only struct and primitive payloads were written, while the decoder reads
any payload. Encode the payload like any other value.
---
 encoder_borsh.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 2594ffd..6bd18b5 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -257,20 +257,7 @@ func (enc *Encoder) encodeComplexEnumBorsh(rv reflect.Value) error {
 	if int(enum)+1 >= t.NumField() {
 		return errors.New("complex enum too large")
 	}
-	// Enum is empty
-	field := rv.Field(int(enum) + 1)
-	if field.Kind() == reflect.Ptr {
-		field = field.Elem()
-	}
-	if field.Kind() == reflect.Struct {
-		return enc.encodeStructBorsh(field.Type(), field)
-	}
-	// Encode the value if it's a primitive type
-	isPrimitive, err := enc.encodePrimitive(field, nil)
-	if isPrimitive {
-		return err
-	}
-	return nil
+	return enc.encodeBorsh(rv.Field(int(enum)+1), nil)
 }
 
 type BorshEnum uint8
-- 
2.43.0


From 4cf94741249d212edbe2e38d1559be6b1d8e2637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:21 +0000
Subject: [PATCH 10/25] fix: negative sizeof count panics

Treat it like the out-of-range unsigned counts are already treated.
---
 decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index b35f574..95e6bba 100644
--- a/decoder.go
+++ b/decoder.go
@@ -140,7 +140,11 @@ func (dec *Decoder) Decode(v interface{}) (err error) {
 func sizeof(t reflect.Type, v reflect.Value) int {
 	switch t.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		return int(v.Int())
+		n := int(v.Int())
+		if n < 0 {
+			return 0
+		}
+		return n
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		n := int(v.Uint())
 		// all the builtin array length types are native int
-- 
2.43.0


From e2e0de88f3d59f6b6fc208b95005f5eae0a115eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:23 +0000
Subject: [PATCH 11/25] fix: decoding an empty map or slice keeps the target's
 old content

Every other value replaces what the target held before.
---
 decoder_bin.go         | 3 ++-
 decoder_borsh.go       | 6 ++++--
 decoder_compact-u16.go | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 4e500ed..e1db8a1 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -223,7 +223,8 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			return err
 		}
 		if l == 0 {
-			// If the map has no content, keep it nil.
+			// If the map has no content, make it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 54e3abe..3fdf4b6 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -225,7 +225,8 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 		}
 
 		if l == 0 {
-			// Empty slices are left nil
+			// Empty slices are made nil
+			rv.Set(reflect.Zero(rt))
 			return
 		}
 		if l > dec.Remaining() {
@@ -262,7 +263,8 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			return err
 		}
 		if l == 0 {
-			// If the map has no content, keep it nil.
+			// If the map has no content, make it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 7801bde..6034bd6 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -222,7 +222,8 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			return err
 		}
 		if l == 0 {
-			// If the map has no content, keep it nil.
+			// If the map has no content, make it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
-- 
2.43.0


From d234873eb20a1b0383907e85e18242881970e948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:24 +0000
Subject: [PATCH 12/25] fix: appending to a decoded byte slice overwrites its
 neighbour

The returned slices kept the capacity of the whole input.
---
 decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 95e6bba..9506f1e 100644
--- a/decoder.go
+++ b/decoder.go
@@ -242,7 +242,7 @@ func (dec *Decoder) ReadByteSlice() (out []byte, err error) {
 		return nil, fmt.Errorf("byte array: varlen=%d, missing %d bytes", length, dec.pos+length-len(dec.data))
 	}
 
-	out = dec.data[dec.pos : dec.pos+length]
+	out = dec.data[dec.pos : dec.pos+length : dec.pos+length]
 	dec.pos += length
 	if traceEnabled {
 		zlog.Debug("decode: read byte array", zap.Stringer("hex", HexBytes(out)))
@@ -292,7 +292,7 @@ func readNBytes(n int, reader *Decoder) ([]byte, error) {
 	if reader.pos+n > len(reader.data) {
 		return nil, fmt.Errorf("not enough data: %d bytes missing", reader.pos+n-len(reader.data))
 	}
-	out := reader.data[reader.pos : reader.pos+n]
+	out := reader.data[reader.pos : reader.pos+n : reader.pos+n]
 	reader.pos += n
 	return out, nil
 }
@@ -365,7 +365,7 @@ func (dec *Decoder) Peek(n int) (out []byte, err error) {
 		return
 	}
 
-	out = dec.data[dec.pos : dec.pos+n]
+	out = dec.data[dec.pos : dec.pos+n : dec.pos+n]
 	if traceEnabled {
 		zlog.Debug("decode: peek", zap.Int("n", n), zap.Binary("out", out))
 	}
-- 
2.43.0


From 749665c8830c25a2df04adce2173c0026fdb222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:26 +0000
Subject: [PATCH 13/25] fix: WriteByWrite retains the caller's buffer

io.Writer implementations must not retain p; the recorded writes changed
when the caller reused its buffer.
---
 tools.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools.go b/tools.go
index 9c7c8b3..07a19bd 100644
--- a/tools.go
+++ b/tools.go
@@ -50,7 +50,7 @@ func NewWriteByWrite(name string) *WriteByWrite {
 }
 
 func (rec *WriteByWrite) Write(b []byte) (int, error) {
-	rec.writes = append(rec.writes, b)
+	rec.writes = append(rec.writes, append([]byte(nil), b...))
 	return len(b), nil
 }
 
-- 
2.43.0


From 62d075ce9a088a5726849784cbcf7cea1e9a62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:29 +0000
Subject: [PATCH 14/25] fix: Written counts bytes the writer did not accept

---
 encoder.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/encoder.go b/encoder.go
index 06e6758..1da121a 100644
--- a/encoder.go
+++ b/encoder.go
@@ -86,11 +86,7 @@ func (e *Encoder) Encode(v interface{}) (err error) {
 }
 
 func (e *Encoder) toWriter(bytes []byte) (err error) {
-	e.count += len(bytes)
-	if traceEnabled {
-		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(bytes)), zap.Int("pos", e.count))
-	}
-	_, err = e.output.Write(bytes)
+	_, err = e.Write(bytes)
 	return
 }
 
@@ -115,11 +111,12 @@ func (e *Encoder) WriteBytes(b []byte, writeLength bool) error {
 }
 
 func (e *Encoder) Write(b []byte) (n int, err error) {
-	e.count += len(b)
+	n, err = e.output.Write(b)
+	e.count += n
 	if traceEnabled {
 		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(b)), zap.Int("pos", e.count))
 	}
-	return e.output.Write(b)
+	return n, err
 }
 
 func (e *Encoder) WriteLength(length int) error {
-- 
2.43.0


From 7141c1b21825206536c6a78c20f5856cadb5a0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:26 +0000
Subject: [PATCH 15/25] fix: 128-bit decimal JSON panics above 2^128, drops the
 sign, swaps bytes

Out-of-range numbers panicked in FillBytes, -1 was read as 1, and with
big-endian Endianness the bytes came out reversed.
---
 u128.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/u128.go b/u128.go
index 7ea82d9..2dd6bbe 100644
--- a/u128.go
+++ b/u128.go
@@ -125,17 +125,12 @@ func (i *Uint128) unmarshalJSON_decimal(s string) error {
 	if !ok {
 		return fmt.Errorf("could not parse %q", s)
 	}
-	oo := parsed.FillBytes(make([]byte, 16))
-	ReverseBytes(oo)
-
-	dec := NewBinDecoder(oo)
-
-	out, err := dec.ReadUint128(i.getByteOrder())
-	if err != nil {
-		return err
+	if parsed.Sign() < 0 || parsed.BitLen() > 128 {
+		return fmt.Errorf("%q does not fit in 128 bits unsigned", s)
 	}
-	i.Lo = out.Lo
-	i.Hi = out.Hi
+	oo := parsed.FillBytes(make([]byte, 16))
+	i.Hi = binary.BigEndian.Uint64(oo[:8])
+	i.Lo = binary.BigEndian.Uint64(oo[8:])
 
 	return nil
 }
-- 
2.43.0


From 22fcd78878abd5da61c6382f0b3360cf458636cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:28 +0000
Subject: [PATCH 16/25] fix: 128-bit hex JSON panics

The length check confused hex digits with bytes: 16 digits passed it and
then panicked, the 32 digits of HexString were refused. Read what HexString
writes.
---
 u128.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/u128.go b/u128.go
index 2dd6bbe..989f6fd 100644
--- a/u128.go
+++ b/u128.go
@@ -137,8 +137,8 @@ func (i *Uint128) unmarshalJSON_decimal(s string) error {
 
 func (i *Uint128) unmarshalJSON_hex(s string) error {
 	truncatedVal := s[2:]
-	if len(truncatedVal) != 16 {
-		return fmt.Errorf("uint128 expects 16 characters after 0x, had %v", len(truncatedVal))
+	if len(truncatedVal) != 32 {
+		return fmt.Errorf("uint128 expects 32 characters after 0x, had %v", len(truncatedVal))
 	}
 
 	data, err := hex.DecodeString(truncatedVal)
@@ -146,14 +146,8 @@ func (i *Uint128) unmarshalJSON_hex(s string) error {
 		return err
 	}
 
-	order := i.getByteOrder()
-	if order == binary.LittleEndian {
-		i.Lo = order.Uint64(data[:8])
-		i.Hi = order.Uint64(data[8:])
-	} else {
-		i.Hi = order.Uint64(data[:8])
-		i.Lo = order.Uint64(data[8:])
-	}
+	i.Hi = binary.BigEndian.Uint64(data[:8])
+	i.Lo = binary.BigEndian.Uint64(data[8:])
 
 	return nil
 }
-- 
2.43.0


From 8d6464752f96ab5b57f5f8e3e4400b1962400528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:30 +0000
Subject: [PATCH 17/25] fix: case conversion corrupts names with multi-byte
 characters

The reader reported rune indices, which were used as byte offsets.
---
 heck.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/heck.go b/heck.go
index 5053c1e..c94a9c3 100644
--- a/heck.go
+++ b/heck.go
@@ -166,8 +166,9 @@ func ToSnakeForSighash(s string) string {
 }
 
 type reader struct {
-	runes []rune
-	index int
+	runes   []rune
+	offsets []int // byte offset of each rune in the string
+	index   int
 }
 
 func splitStringByRune(s string) []rune {
@@ -189,14 +190,19 @@ func iterateStringAsRunes(s string, callback func(r rune) bool) {
 }
 
 func newReader(s string) *reader {
+	offsets := make([]int, 0, len(s))
+	for offset := range s {
+		offsets = append(offsets, offset)
+	}
 	return &reader{
-		runes: splitStringByRune(s),
-		index: -1,
+		runes:   splitStringByRune(s),
+		offsets: offsets,
+		index:   -1,
 	}
 }
 
 func (r reader) This() (int, rune) {
-	return r.index, r.runes[r.index]
+	return r.offsets[r.index], r.runes[r.index]
 }
 
 func (r reader) HasNext() bool {
@@ -206,14 +212,14 @@ func (r reader) HasNext() bool {
 func (r *reader) Next() (int, rune) {
 	if r.HasNext() {
 		r.index++
-		return r.index, r.runes[r.index]
+		return r.offsets[r.index], r.runes[r.index]
 	}
 	return -1, rune(0)
 }
 
 func (r reader) Peek() (int, rune) {
 	if r.HasNext() {
-		return r.index + 1, r.runes[r.index+1]
+		return r.offsets[r.index+1], r.runes[r.index+1]
 	}
 	return -1, rune(0)
 }
-- 
2.43.0


From 7c841a108597115a6cfd3a03ef2cb6c33ec9d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:32 +0000
Subject: [PATCH 18/25] fix: narrow varint reads silently truncate out-of-range
 values

A 16 or 32 bit varint whose value does not fit was cut down to its low
bits, e.g. the variant type id 2^32 selected variant 0.
---
 decoder.go | 20 ++++++++++++++++++++
 types.go   |  2 +-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 9506f1e..439f23f 100644
--- a/decoder.go
+++ b/decoder.go
@@ -185,11 +185,16 @@ func (d *Decoder) ReadVarint64() (out int64, err error) {
 }
 
 func (dec *Decoder) ReadVarint32() (out int32, err error) {
+	start := dec.pos
 	n, err := dec.ReadVarint64()
 	if err != nil {
 		return out, err
 	}
 	out = int32(n)
+	if int64(out) != n {
+		dec.pos = start
+		return 0, fmt.Errorf("varint32: value %d out of range", n)
+	}
 	if traceEnabled {
 		zlog.Debug("decode: read varint32", zap.Int32("val", out))
 	}
@@ -197,11 +202,16 @@ func (dec *Decoder) ReadVarint32() (out int32, err error) {
 }
 
 func (dec *Decoder) ReadUvarint32() (out uint32, err error) {
+	start := dec.pos
 	n, err := dec.ReadUvarint64()
 	if err != nil {
 		return out, err
 	}
 	out = uint32(n)
+	if uint64(out) != n {
+		dec.pos = start
+		return 0, fmt.Errorf("uvarint32: value %d out of range", n)
+	}
 	if traceEnabled {
 		zlog.Debug("decode: read uvarint32", zap.Uint32("val", out))
 	}
@@ -209,11 +219,16 @@ func (dec *Decoder) ReadUvarint32() (out uint32, err error) {
 }
 
 func (dec *Decoder) ReadVarint16() (out int16, err error) {
+	start := dec.pos
 	n, err := dec.ReadVarint64()
 	if err != nil {
 		return out, err
 	}
 	out = int16(n)
+	if int64(out) != n {
+		dec.pos = start
+		return 0, fmt.Errorf("varint16: value %d out of range", n)
+	}
 	if traceEnabled {
 		zlog.Debug("decode: read varint16", zap.Int16("val", out))
 	}
@@ -221,11 +236,16 @@ func (dec *Decoder) ReadVarint16() (out int16, err error) {
 }
 
 func (dec *Decoder) ReadUvarint16() (out uint16, err error) {
+	start := dec.pos
 	n, err := dec.ReadUvarint64()
 	if err != nil {
 		return out, err
 	}
 	out = uint16(n)
+	if uint64(out) != n {
+		dec.pos = start
+		return 0, fmt.Errorf("uvarint16: value %d out of range", n)
+	}
 	if traceEnabled {
 		zlog.Debug("decode: read uvarint16", zap.Uint16("val", out))
 	}
diff --git a/types.go b/types.go
index b476d8f..20c8c22 100644
--- a/types.go
+++ b/types.go
@@ -144,7 +144,7 @@ func (o Varuint16) MarshalWithEncoder(encoder *Encoder) error {
 type Varuint32 uint32
 
 func (o *Varuint32) UnmarshalWithDecoder(decoder *Decoder) error {
-	value, err := decoder.ReadUvarint64()
+	value, err := decoder.ReadUvarint32()
 	if err != nil {
 		return fmt.Errorf("varuint32: %s", err)
 	}
-- 
2.43.0


From ede01d0563668fe5ef4c470890b1c5298d41bf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 19/25] fix: borsh maps keyed by bools or arrays panic on
 encode

The decoder reads such maps (e.g. keyed by a 32 byte public key), and so
did the encoder as long as they had a single entry.
---
 encoder_borsh.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 6bd18b5..6f30cfe 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -376,6 +376,19 @@ func vComp(keys []reflect.Value) func(int, int) bool {
 			return a.Float() < b.Float()
 		case reflect.String:
 			return a.String() < b.String()
+		case reflect.Bool:
+			return !a.Bool() && b.Bool()
+		case reflect.Array:
+			for k := 0; k < a.Len(); k++ {
+				less := vComp([]reflect.Value{a.Index(k), b.Index(k)})
+				if less(0, 1) {
+					return true
+				}
+				if less(1, 0) {
+					return false
+				}
+			}
+			return false
 		}
 		panic("unsupported key compare")
 	}
-- 
2.43.0


From 37418d17ca28685204897c9977dc15b021896ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:42 +0000
Subject: [PATCH 20/25] fix: borsh maps with unorderable keys panic on encode

Maps with two or more keys of a kind that has no order here (uintptr,
complex, chan, pointer, struct) panicked in the key comparison; report
the unsupported key type as an error instead.
---
 encoder_borsh.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 6f30cfe..926a1c2 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -208,6 +208,9 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 
 	case reflect.Map:
 		keys := rv.MapKeys()
+		if len(keys) > 1 && !isSortableKey(rt.Key()) {
+			return fmt.Errorf("encode: unsupported map key type %q", rt.Key())
+		}
 		sort.Slice(keys, vComp(keys))
 
 		keyCount := rv.Len()
@@ -356,6 +359,18 @@ func (e *Encoder) encodeStructBorsh(rt reflect.Type, rv reflect.Value) (err erro
 	return nil
 }
 
+// isSortableKey tells whether vComp can order keys of the given type.
+func isSortableKey(rt reflect.Type) bool {
+	switch rt.Kind() {
+	case reflect.Array:
+		return isSortableKey(rt.Elem())
+	case reflect.Uintptr, reflect.Complex64, reflect.Complex128, reflect.Chan,
+		reflect.UnsafePointer, reflect.Ptr, reflect.Struct:
+		return false
+	}
+	return true
+}
+
 func vComp(keys []reflect.Value) func(int, int) bool {
 	return func(i int, j int) bool {
 		a, b := keys[i], keys[j]
-- 
2.43.0


From 86d363c32d268e4e886aace1ce066a4391fee857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:46 +0000
Subject: [PATCH 21/25] fix: field options of an earlier Encode or Decode leak
 into later direct calls

---
 decoder.go | 2 ++
 encoder.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/decoder.go b/decoder.go
index 439f23f..aa23a05 100644
--- a/decoder.go
+++ b/decoder.go
@@ -125,6 +125,8 @@ func NewCompactU16Decoder(data []byte) *Decoder {
 }
 
 func (dec *Decoder) Decode(v interface{}) (err error) {
+	// The field options hold during this call only:
+	defer func(prev *option) { dec.currentFieldOpt = prev }(dec.currentFieldOpt)
 	switch dec.encoding {
 	case EncodingBin:
 		return dec.decodeWithOptionBin(v, nil)
diff --git a/encoder.go b/encoder.go
index 1da121a..7eb9535 100644
--- a/encoder.go
+++ b/encoder.go
@@ -73,6 +73,8 @@ func NewCompactU16Encoder(writer io.Writer) *Encoder {
 }
 
 func (e *Encoder) Encode(v interface{}) (err error) {
+	// The field options hold during this call only:
+	defer func(prev *option) { e.currentFieldOpt = prev }(e.currentFieldOpt)
 	switch e.encoding {
 	case EncodingBin:
 		return e.encodeBin(reflect.ValueOf(v), nil)
-- 
2.43.0


From 19f3043c5528ab3e8995a208fee70616b6352cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:16 +0000
Subject: [PATCH 22/25] fix: a refused Borsh NaN or c-option flag moves the
 cursor of a failing read

---
 decoder.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/decoder.go b/decoder.go
index aa23a05..4af7850 100644
--- a/decoder.go
+++ b/decoder.go
@@ -422,6 +422,7 @@ func (dec *Decoder) ReadCOption() (out bool, err error) {
 		return false, fmt.Errorf("decode: read c-option, %w", err)
 	}
 	if b > 1 {
+		dec.pos -= TypeSize.Uint32
 		return false, fmt.Errorf("decode: read c-option, invalid value: %d", b)
 	}
 	out = b != 0
@@ -588,16 +589,15 @@ func (dec *Decoder) ReadFloat32(order binary.ByteOrder) (out float32, err error)
 
 	n := order.Uint32(dec.data[dec.pos:])
 	out = math.Float32frombits(n)
-	dec.pos += TypeSize.Float32
-	if traceEnabled {
-		zlog.Debug("decode: read float32", zap.Float32("val", out))
-	}
-
 	if dec.IsBorsh() {
 		if math.IsNaN(float64(out)) {
 			return 0, errors.New("NaN for float not allowed")
 		}
 	}
+	dec.pos += TypeSize.Float32
+	if traceEnabled {
+		zlog.Debug("decode: read float32", zap.Float32("val", out))
+	}
 	return
 }
 
@@ -609,15 +609,15 @@ func (dec *Decoder) ReadFloat64(order binary.ByteOrder) (out float64, err error)
 
 	n := order.Uint64(dec.data[dec.pos:])
 	out = math.Float64frombits(n)
-	dec.pos += TypeSize.Float64
-	if traceEnabled {
-		zlog.Debug("decode: read Float64", zap.Float64("val", out))
-	}
 	if dec.IsBorsh() {
 		if math.IsNaN(out) {
 			return 0, errors.New("NaN for float not allowed")
 		}
 	}
+	dec.pos += TypeSize.Float64
+	if traceEnabled {
+		zlog.Debug("decode: read Float64", zap.Float64("val", out))
+	}
 	return
 }
 
-- 
2.43.0


From d3bca7252459d71095baeb38a78e6cc29660811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:54 +0000
Subject: [PATCH 23/25] fix: a short write without an error is reported as
 success

---
 encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoder.go b/encoder.go
index 7eb9535..8e6c945 100644
--- a/encoder.go
+++ b/encoder.go
@@ -115,6 +115,9 @@ func (e *Encoder) WriteBytes(b []byte, writeLength bool) error {
 func (e *Encoder) Write(b []byte) (n int, err error) {
 	n, err = e.output.Write(b)
 	e.count += n
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
 	if traceEnabled {
 		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(b)), zap.Int("pos", e.count))
 	}
-- 
2.43.0


From 5b29d9c5e378e63b07f1f3fabbf540eacac23a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:57 +0000
Subject: [PATCH 24/25] fix: borsh: keep the tag options of a pointer for the
 value it points to

A sizeof-sized slice behind a pointer was written with its own length
instead of the size field's value, and a byte order tag was lost behind a
pointer to a pointer, while the decoder honours both.
---
 encoder_borsh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 926a1c2..9562f20 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -131,9 +131,9 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 	case reflect.Ptr:
 		if rv.IsNil() {
 			el := reflect.New(rv.Type().Elem()).Elem()
-			return e.encodeBorsh(el, nil)
+			return e.encodeBorsh(el, opt)
 		} else {
-			return e.encodeBorsh(rv.Elem(), nil)
+			return e.encodeBorsh(rv.Elem(), opt)
 		}
 	case reflect.Interface:
 		// skip
-- 
2.43.0


From a2db57f33bb21f0bb64102efdb72a145db69a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:40 +0000
Subject: [PATCH 25/25] fix: decode an absent optional pointer to a pointer as
 nil

The inner pointer was cleared instead of the field, so a target that
already held a value ended as a pointer to nil, which encodes as present.
---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 4af7850..a032d80 100644
--- a/decoder.go
+++ b/decoder.go
@@ -755,7 +755,7 @@ func indirect(v reflect.Value, decodingNull bool) (BinaryUnmarshaler, reflect.Va
 			break
 		}
 
-		if v.Elem().Kind() != reflect.Ptr && decodingNull && v.CanSet() {
+		if decodingNull && v.CanSet() {
 			break
 		}
 
-- 
2.43.0

