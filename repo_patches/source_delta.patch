From d936ad61b095082ac98fac757483e6bc89208095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 01/50] fix: make the length-prefixed reader reject bad
 prefixes and report what it read

UnmarshalBinaryLengthPrefixedReader panicked on a length of 2^63 or more,
took an overlong length prefix for 0, went on reading past maxSize while
looking for the end of the prefix, misread readers that return (0, nil) or
(n, io.EOF), and left partially read bodies out of n.
---
 amino.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/amino.go b/amino.go
index 9716ae7..6fac2c9 100644
--- a/amino.go
+++ b/amino.go
@@ -297,23 +297,29 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	var l int64
 	var buf [binary.MaxVarintLen64]byte
 	for i := 0; i < len(buf); i++ {
-		_, err = r.Read(buf[i : i+1])
+		_, err = io.ReadFull(r, buf[i:i+1])
 		if err != nil {
+			if err == io.EOF && i > 0 {
+				// The stream ended in the middle of the prefix.
+				err = io.ErrUnexpectedEOF
+			}
 			return
 		}
 		n++
 		if buf[i]&0x80 == 0 {
 			break
 		}
-		if n >= maxSize {
+		if maxSize > 0 && n >= maxSize {
 			err = errors.Errorf(
 				"read overflow, maxSize is %v but uvarint(length-prefix) is itself greater than maxSize",
 				maxSize,
 			)
+			return
 		}
 	}
-	u64, _ := binary.Uvarint(buf[:])
-	if err != nil {
+	u64, _n := binary.Uvarint(buf[:])
+	if _n <= 0 {
+		err = errors.Errorf("error reading msg byte-length prefix: got code %v", _n)
 		return
 	}
 	if maxSize > 0 {
@@ -330,19 +336,26 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 		}
 	}
 	l = int64(u64)
-	if l < 0 {
-		_ = errors.Errorf( //nolint:errcheck
+	if l < 0 || l > int64(maxInt) {
+		err = errors.Errorf(
 			"read overflow, this implementation can't read this because, why would anyone have this much data? Hello from 2018",
 		)
+		return
 	}
 
 	// Read that many bytes.
-	var bz = make([]byte, l)
-	_, err = io.ReadFull(r, bz)
+	// NOTE: The buffer grows with the bytes that are actually read, as the
+	// length prefix is not to be trusted.
+	var body bytes.Buffer
+	l, err = io.CopyN(&body, r, l)
+	n += l
 	if err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return
 	}
-	n += l
+	bz := body.Bytes()
 
 	// Decode.
 	err = cdc.UnmarshalBinaryBare(bz, ptr)
-- 
2.43.0


From 770fbb0ab76dde3c4c01194c4e7626bf84beee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 02/50] fix: decode the empty encoding of bare non-struct
 values

MarshalBinaryBare writes nothing for 0, "" and the like, which
UnmarshalBinaryBare then refused to decode.
---
 amino.go | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/amino.go b/amino.go
index 6fac2c9..9fee637 100644
--- a/amino.go
+++ b/amino.go
@@ -408,29 +408,32 @@ func (cdc *Codec) UnmarshalBinaryBare(bz []byte, ptr interface{}) error {
 	isKnownType := (info.Type.Kind() != reflect.Map) && (info.Type.Kind() != reflect.Func)
 	if !isStructOrRepeatedStruct(info) &&
 		!isPointerToStructOrToRepeatedStruct(rv, rt) &&
-		len(bz) > 0 &&
 		(rv.Kind() != reflect.Interface) &&
 		isKnownType {
-		var (
-			fnum      uint32
-			typ       Typ3
-			nFnumTyp3 int
-		)
-		fnum, typ, nFnumTyp3, err = decodeFieldNumberAndTyp3(bz)
-		if err != nil {
-			return errors.Wrap(err, "could not decode field number and type")
-		}
-		if fnum != 1 {
-			return fmt.Errorf("expected field number: 1; got: %v", fnum)
-		}
 		typWanted := typeToTyp3(info.Type, FieldOptions{})
-		if typ != typWanted {
-			return fmt.Errorf("expected field type %v for # %v of %v, got %v",
-				typWanted, fnum, info.Type, typ)
+		if len(bz) == 0 {
+			// The field key and value were omitted, see writeFieldIfNotEmpty.
+			bz = []byte{0x00}
+		} else {
+			var (
+				fnum      uint32
+				typ       Typ3
+				nFnumTyp3 int
+			)
+			fnum, typ, nFnumTyp3, err = decodeFieldNumberAndTyp3(bz)
+			if err != nil {
+				return errors.Wrap(err, "could not decode field number and type")
+			}
+			if fnum != 1 {
+				return fmt.Errorf("expected field number: 1; got: %v", fnum)
+			}
+			if typ != typWanted {
+				return fmt.Errorf("expected field type %v for # %v of %v, got %v",
+					typWanted, fnum, info.Type, typ)
+			}
+			slide(&bz, &nWrap, nFnumTyp3)
 		}
-
-		slide(&bz, &nWrap, nFnumTyp3)
-		bare = typeToTyp3(info.Type, FieldOptions{}) != Typ3ByteLength
+		bare = typWanted != Typ3ByteLength
 	}
 
 	// Decode contents into rv.
-- 
2.43.0


From 0034c7856e309e20fdf454f21015be305304964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 03/50] fix: decode non-struct concrete values of interfaces as
 they were encoded

A concrete value that isn't a struct is preceded by a field key only at the
top level, but the decoder also wanted one inside of fields numbered 1 and of
list elements; at the top level it took the byte length of a list for its
first element, and refused omitted (empty) values.
---
 binary-decode.go | 47 ++++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 8259e91..7352c12 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -368,34 +368,43 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 	// Construct the concrete type.
 	var crv, irvSet = constructConcreteType(cinfo)
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
+	cbare := true
 	if !isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
-		len(bz) > 0 &&
 		(crv.Kind() != reflect.Interface) &&
 		isKnownType &&
-		fopts.BinFieldNum == 1 {
-		var (
-			fnum      uint32
-			typ       Typ3
-			nFnumTyp3 int
-		)
-		fnum, typ, nFnumTyp3, err = decodeFieldNumberAndTyp3(bz)
-		if err != nil {
-			return n, errors.Wrap(err, "could not decode field number and type")
-		}
-		if fnum != 1 {
-			return n, fmt.Errorf("expected field number: 1; got: %v", fnum)
-		}
+		bare && fopts.BinFieldNum == 1 {
+		// This is not a field or element, so unless it's a struct (or such)
+		// MarshalBinaryBare wrote the concrete value as the first field.
 		typWanted := typeToTyp3(cinfo.Type, FieldOptions{})
-		if typ != typWanted {
-			return n, fmt.Errorf("expected field type %v for # %v of %v, got %v",
-				typWanted, fnum, cinfo.Type, typ)
+		if len(bz) == 0 {
+			// The field key and value were omitted, see writeFieldIfNotEmpty.
+			bz = []byte{0x00}
+			n-- // Not one of the bytes we were given.
+		} else {
+			var (
+				fnum      uint32
+				typ       Typ3
+				nFnumTyp3 int
+			)
+			fnum, typ, nFnumTyp3, err = decodeFieldNumberAndTyp3(bz)
+			if err != nil {
+				return n, errors.Wrap(err, "could not decode field number and type")
+			}
+			if fnum != 1 {
+				return n, fmt.Errorf("expected field number: 1; got: %v", fnum)
+			}
+			if typ != typWanted {
+				return n, fmt.Errorf("expected field type %v for # %v of %v, got %v",
+					typWanted, fnum, cinfo.Type, typ)
+			}
+			slide(&bz, &n, nFnumTyp3)
 		}
-		slide(&bz, &n, nFnumTyp3)
+		cbare = typWanted != Typ3ByteLength
 	}
 
 	// Decode into the concrete type.
-	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, true)
+	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)
 	if slide(&bz, &n, _n) && err != nil {
 		rv.Set(irvSet) // Helps with debugging
 		return
-- 
2.43.0


From e1e205758fe6e691b7205b191531c9294fbab9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 04/50] fix: report varints that overflow a uint32 field
 instead of truncating them

---
 binary-decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 7352c12..29f8aa7 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -226,6 +226,10 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
+			if num > math.MaxUint32 {
+				err = ErrOverflowInt
+				return
+			}
 			rv.SetUint(num)
 		}
 		return
-- 
2.43.0


From 37526165bc3638e9767c84504bd9c7a9e291a209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 05/50] fix: count the bytes of a nested length prefix as read

A nested length prefix that isn't minimally encoded made the decoder lose its
place in the enclosing message.
---
 binary-decode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 29f8aa7..605b8b9 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -345,7 +345,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -501,7 +501,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -679,7 +679,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -797,7 +797,7 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
-- 
2.43.0


From 230ed699f8cf5f3b5347dcb955056cfc73655019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 06/50] fix: reject leftover bytes in nested times and lists

Bytes left over within the byte length of a nested time, or of a list in
unpacked form, were taken for the fields that follow in the enclosing message.
---
 binary-decode.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 605b8b9..480363f 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -595,6 +595,10 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 				err = fmt.Errorf("unexpected field number %v after repeated field number %v", fnum, fopts.BinFieldNum)
 				return
 			}
+			if !bare {
+				err = errors.New("bytes left over after reading array contents")
+				return
+			}
 		}
 	}
 	return n, err
@@ -767,6 +771,11 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			}
 			srv = reflect.Append(srv, erv)
 		}
+		// If byte-length prefixed, ensure that we read the whole buffer.
+		if !bare && len(bz) > 0 {
+			err = errors.New("bytes left over after reading array contents")
+			return
+		}
 	}
 	rv.Set(srv)
 	return n, err
@@ -811,6 +820,11 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			return
 		}
 		rv.Set(reflect.ValueOf(t))
+		// If byte-length prefixed, ensure that we read the whole buffer.
+		if !bare && len(bz) > 0 {
+			err = errors.New("bytes left over after reading time contents")
+			return
+		}
 
 	default:
 		// Track the last seen field number.
-- 
2.43.0


From c64f855e02a379eb98ca6c70e21f5dd19c69bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 07/50] fix: check that a decoded concrete type implements the
 interface

Input naming a registered type that doesn't implement the interface (or whose
pointer only does, though registered by value) made the decoder panic.  Return
an error, or construct a pointer.
---
 binary-decode.go |  5 ++++-
 json-decode.go   |  8 ++++----
 reflect.go       | 17 +++++++++++------
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 480363f..48fad77 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -370,7 +370,10 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 	}
 
 	// Construct the concrete type.
-	var crv, irvSet = constructConcreteType(cinfo)
+	crv, irvSet, err := constructConcreteType(cinfo, iinfo.Type)
+	if err != nil {
+		return
+	}
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
 	cbare := true
 	if !isStructOrRepeatedStruct(cinfo) &&
diff --git a/json-decode.go b/json-decode.go
index d6bc0ff..166093b 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -201,9 +201,6 @@ func (cdc *Codec) decodeReflectJSONInterface(bz []byte, iinfo *TypeInfo, rv refl
 	if err != nil {
 		return
 	}
-	// XXX: Check name against interface to make sure that it actually
-	// matches, and return an error if it doesn't.
-
 	// NOTE: Unlike decodeReflectBinaryInterface, we already dealt with nil in decodeReflectJSON.
 	// NOTE: We also "consumed" the interface wrapper by replacing `bz` above.
 
@@ -216,7 +213,10 @@ func (cdc *Codec) decodeReflectJSONInterface(bz []byte, iinfo *TypeInfo, rv refl
 	}
 
 	// Construct the concrete type.
-	var crv, irvSet = constructConcreteType(cinfo)
+	crv, irvSet, err := constructConcreteType(cinfo, iinfo.Type)
+	if err != nil {
+		return
+	}
 
 	// Decode into the concrete type.
 	err = cdc.decodeReflectJSON(bz, cinfo, crv, fopts)
diff --git a/reflect.go b/reflect.go
index ab95603..aee06fe 100644
--- a/reflect.go
+++ b/reflect.go
@@ -174,15 +174,20 @@ func isNil(rv reflect.Value) bool {
 
 // constructConcreteType creates the concrete value as
 // well as the corresponding settable value for it.
-// Return irvSet which should be set on caller's interface rv.
-func constructConcreteType(cinfo *TypeInfo) (crv, irvSet reflect.Value) {
+// Return irvSet which should be set on caller's interface rv, of type irt.
+// A pointer is constructed if that is preferred, or if only the pointer
+// implements irt.  Returns an error if neither implements irt.
+func constructConcreteType(cinfo *TypeInfo, irt reflect.Type) (crv, irvSet reflect.Value, err error) {
+	if !cinfo.PtrToType.Implements(irt) {
+		err = fmt.Errorf("concrete type %v does not implement %v", cinfo.Type, irt)
+		return
+	}
 	// Construct new concrete type.
-	if cinfo.PointerPreferred {
-		cPtrRv := reflect.New(cinfo.Type)
-		crv = cPtrRv.Elem()
+	cPtrRv := reflect.New(cinfo.Type)
+	crv = cPtrRv.Elem()
+	if cinfo.PointerPreferred || !cinfo.Type.Implements(irt) {
 		irvSet = cPtrRv
 	} else {
-		crv = reflect.New(cinfo.Type).Elem()
 		irvSet = crv
 	}
 	return
-- 
2.43.0


From 7f043bcf535c8d81eb0905a6ffa9f3f658d8742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 08/50] fix: encode multidimensional byte lists instead of
 dropping their contents

[][]byte and the like at the top level, [][][]byte and the like in fields: the
encoder let them through, as intended, but then wrote nothing.
---
 binary-encode.go | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/binary-encode.go b/binary-encode.go
index d10ebfc..b24f782 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -70,20 +70,11 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 		} else if kind := info.Type.Elem().Kind(); kind == reflect.Slice || kind == reflect.Array {
 			// for proto3 compatibility, we do not allow multidimensional arrays,
 			// unless the elements involved are bytes (e.g. [][]byte)
-			if info.Type.Elem().Elem().Kind() != reflect.Uint8 { // byte is an alias for uint8
-				elem := info.Type.Elem()
-				for {
-					if elem.Kind() == reflect.Slice || elem.Kind() == reflect.Array {
-						elem = elem.Elem()
-						continue
-					}
-					if elem.Kind() == reflect.Uint8 { // byte is an alias for uint8
-						break
-					}
-					err = errors.New("multidimensional arrays not allowed")
-					break
-				}
+			if !isMultidimensionalBytes(info.Type) {
+				err = errors.New("multidimensional arrays not allowed")
+				return
 			}
+			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		} else {
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
@@ -96,18 +87,11 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 		case reflect.Slice, reflect.Array:
 			// for proto3 compatibility, we do not allow multidimensional slices,
 			// unless the elements involved are bytes (e.g. [][]byte)
-			elem := info.Type.Elem()
-			for {
-				if elem.Kind() == reflect.Slice || elem.Kind() == reflect.Array {
-					elem = elem.Elem()
-					continue
-				}
-				if elem.Kind() == reflect.Uint8 { // byte is an alias for uint8
-					break
-				}
+			if !isMultidimensionalBytes(info.Type) {
 				err = errors.New("multidimensional slices not allowed")
-				break
+				return
 			}
+			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		default:
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
@@ -477,6 +461,14 @@ func (cdc *Codec) encodeReflectBinaryStruct(w io.Writer, info *TypeInfo, rv refl
 //----------------------------------------
 // Misc.
 
+// Returns true iff rt is some list (of lists) of bytes.
+func isMultidimensionalBytes(rt reflect.Type) bool {
+	for rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array {
+		rt = rt.Elem()
+	}
+	return rt.Kind() == reflect.Uint8 // byte is an alias for uint8
+}
+
 // Write field key.
 func encodeFieldNumberAndTyp3(w io.Writer, num uint32, typ Typ3) (err error) {
 	if (typ & 0xF8) != 0 {
-- 
2.43.0


From b399e7f527b06872a3595b8729c0dd204009973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 09/50] fix: number the elements of bare lists as the decoder
 expects

MarshalBinaryBare of a list of strings, interfaces, pointers to structs and so
on gave its elements field number 0, which UnmarshalBinaryBare doesn't accept.
---
 amino.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amino.go b/amino.go
index 9fee637..3b7ebd2 100644
--- a/amino.go
+++ b/amino.go
@@ -219,7 +219,8 @@ func (cdc *Codec) MarshalBinaryBare(o interface{}) ([]byte, error) {
 		writeEmpty := false
 		typ3 := typeToTyp3(info.Type, FieldOptions{})
 		bare := typ3 != Typ3ByteLength
-		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{}, rv, writeEmpty, bare); err != nil {
+		fopts := FieldOptions{BinFieldNum: 1}
+		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, fopts, rv, writeEmpty, bare); err != nil {
 			return nil, err
 		}
 		bz = buf.Bytes()
-- 
2.43.0


From b55a796c24089be699571f574eef0bd50c62a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 10/50] fix: support lists of named byte types

Encoding an unaddressable array, and decoding an array or slice, of a type
defined as byte panicked.
---
 binary-decode.go |  4 ++--
 binary-encode.go |  5 +++--
 json-decode.go   |  2 +-
 json-encode.go   | 12 ++++++++----
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 48fad77..58d037e 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -466,7 +466,7 @@ func (cdc *Codec) decodeReflectBinaryByteArray(bz []byte, info *TypeInfo, rv ref
 	}
 
 	// Copy read byteslice to rv array.
-	reflect.Copy(rv, reflect.ValueOf(byteslice))
+	copy(rv.Slice(0, length).Bytes(), byteslice)
 	return n, err
 }
 
@@ -643,7 +643,7 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 		// NOTE: We prefer nil slices.
 		rv.Set(info.ZeroValue)
 	} else {
-		rv.Set(reflect.ValueOf(byteslice))
+		rv.SetBytes(byteslice)
 	}
 	return n, err
 }
diff --git a/binary-encode.go b/binary-encode.go
index b24f782..59c27bc 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -274,8 +274,9 @@ func (cdc *Codec) encodeReflectBinaryByteArray(w io.Writer, info *TypeInfo, rv r
 	if rv.CanAddr() {
 		byteslice = rv.Slice(0, length).Bytes()
 	} else {
-		byteslice = make([]byte, length)
-		reflect.Copy(reflect.ValueOf(byteslice), rv) // XXX: looks expensive!
+		arv := reflect.New(rv.Type()).Elem()
+		arv.Set(rv) // XXX: looks expensive!
+		byteslice = arv.Slice(0, length).Bytes()
 	}
 
 	// Write byte-length prefixed byteslice.
diff --git a/json-decode.go b/json-decode.go
index 166093b..f299051 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -258,7 +258,7 @@ func (cdc *Codec) decodeReflectJSONArray(bz []byte, info *TypeInfo, rv reflect.V
 			err = fmt.Errorf("decodeReflectJSONArray: byte-length mismatch, got %v want %v",
 				len(buf), length)
 		}
-		reflect.Copy(rv, reflect.ValueOf(buf))
+		copy(rv.Slice(0, length).Bytes(), buf)
 		return
 
 	default: // General case.
diff --git a/json-encode.go b/json-encode.go
index 1d2778c..4d6a055 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -217,11 +217,15 @@ func (cdc *Codec) encodeReflectJSONList(w io.Writer, info *TypeInfo, rv reflect.
 		// NOTE: Base64 encoding preserves the exact original number of bytes.
 		// Get readable slice of bytes.
 		var bz []byte
-		if rv.CanAddr() {
+		switch {
+		case rv.Kind() == reflect.Slice:
+			bz = rv.Bytes()
+		case rv.CanAddr():
 			bz = rv.Slice(0, length).Bytes()
-		} else {
-			bz = make([]byte, length)
-			reflect.Copy(reflect.ValueOf(bz), rv) // XXX: looks expensive!
+		default:
+			arv := reflect.New(rv.Type()).Elem()
+			arv.Set(rv) // XXX: looks expensive!
+			bz = arv.Slice(0, length).Bytes()
 		}
 		var jsonBytes []byte
 		jsonBytes, err = json.Marshal(bz) // base64 encode
-- 
2.43.0


From b015cbe57cf34a236d813cd465f754fbbc7ed6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 11/50] fix: default omitted structs the way present ones are

The zero time of 1970 within a struct that was omitted (being empty) was
decoded as the year 1.
---
 reflect.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reflect.go b/reflect.go
index aee06fe..5c6edfb 100644
--- a/reflect.go
+++ b/reflect.go
@@ -127,6 +127,7 @@ func isDefaultValue(rv reflect.Value) (erv reflect.Value, isDefaultValue bool) {
 
 // Returns the default value of a type.  For a time type or a pointer(s) to
 // time, the default value is not zero (or nil), but the time value of 1970.
+// That goes for the (encoded) fields of a struct as well.
 func defaultValue(rt reflect.Type) (rv reflect.Value) {
 	switch rt.Kind() {
 	case reflect.Ptr:
@@ -156,6 +157,15 @@ func defaultValue(rt reflect.Type) (rv reflect.Value) {
 			rv.Set(reflect.ValueOf(zeroTime))
 			return rv
 		}
+		rv = reflect.New(rt).Elem()
+		for i := 0; i < rt.NumField(); i++ {
+			field := rt.Field(i)
+			if !isExported(field) || field.Tag.Get("json") == "-" {
+				continue // field is not encoded
+			}
+			rv.Field(i).Set(defaultValue(field.Type))
+		}
+		return rv
 	}
 
 	// Just return the default Go zero object.
-- 
2.43.0


From 5eeb7391caa6721f41f7b420d583d0e462d10270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 12/50] fix: skip nil pointers that are tagged write_empty
 instead of panicking

---
 binary-encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binary-encode.go b/binary-encode.go
index 59c27bc..81bed3c 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -432,6 +432,11 @@ func (cdc *Codec) encodeReflectBinaryStruct(w io.Writer, info *TypeInfo, rv refl
 				// (except when `amino:"write_empty"` is set).
 				continue
 			}
+			if !dfrv.IsValid() {
+				// There is no encoding for a nil pointer,
+				// not even when `amino:"write_empty"` is set.
+				continue
+			}
 			if field.UnpackedList {
 				// Write repeated field entries for each list item.
 				err = cdc.encodeReflectBinaryList(buf, finfo, dfrv, field.FieldOptions, true)
-- 
2.43.0


From 0469799250d3b5f6a733dca9481d3d086dc01dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 13/50] fix: decode the encoding of a nil interface

A nil interface in a field tagged write_empty is encoded as an empty byteslice,
which the decoder refused.
---
 binary-decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 58d037e..b92e302 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -347,6 +347,10 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		// This is a trick for debuggability -- we slide on &n more later.
 		n += _n - len(buf)
 		bz = buf
+		// Special case when length is 0, which denotes nil.
+		if len(bz) == 0 {
+			return
+		}
 	}
 
 	// Consume disambiguation / prefix bytes.
-- 
2.43.0


From 8cc2527a75d4d2a9c42adf2329baa33b829cbb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 14/50] fix: unmarshal into a non-nil pointer to a list

UnmarshalBinaryBare panicked when given a pointer to a non-nil *[]int and such.
---
 amino.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index 3b7ebd2..ebb2471 100644
--- a/amino.go
+++ b/amino.go
@@ -488,8 +488,8 @@ func isPointerToStructOrToRepeatedStruct(rv reflect.Value, rt reflect.Type) bool
 		return rt.Kind() == reflect.Slice && rt.Elem().Kind() == reflect.Struct ||
 			rt.Kind() == reflect.Array && rt.Elem().Kind() == reflect.Struct
 	}
-	isRepeatedStructSl := isPtr && drv.Kind() == reflect.Slice && drv.Elem().Kind() == reflect.Struct
-	isRepeatedStructAr := isPtr && drv.Kind() == reflect.Array && drv.Elem().Kind() == reflect.Struct
+	isRepeatedStructSl := isPtr && drv.Kind() == reflect.Slice && drv.Type().Elem().Kind() == reflect.Struct
+	isRepeatedStructAr := isPtr && drv.Kind() == reflect.Array && drv.Type().Elem().Kind() == reflect.Struct
 	return isRepeatedStructAr || isRepeatedStructSl
 }
 
-- 
2.43.0


From cd2145aff73c0431120986ed33d8988231490571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 15/50] fix: reject a bytes field that is cut off after its key

A message that ended right after the key of a []byte field was decoded as if
the field was empty.
---
 binary-decode.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index b92e302..e204bd3 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -627,12 +627,6 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 	if ert.Kind() != reflect.Uint8 {
 		panic("should not happen")
 	}
-	// If len(bz) == 0 the code below will err
-	if len(bz) == 0 {
-		rv.Set(info.ZeroValue)
-		return 0, nil
-	}
-
 	// Read byte-length prefixed byteslice.
 	var (
 		byteslice []byte
-- 
2.43.0


From a76cd5e7a27fd41f225c9a2395a6cf2bfc3a198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 16/50] fix: marshal a pointer to an interface as the interface
 value

MarshalBinaryBare(&iface) wrapped the value in a field, which
UnmarshalBinaryBare(bz, &iface) doesn't accept.
---
 amino.go         | 3 ++-
 binary-encode.go | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index ebb2471..0bf1695 100644
--- a/amino.go
+++ b/amino.go
@@ -215,7 +215,8 @@ func (cdc *Codec) MarshalBinaryBare(o interface{}) ([]byte, error) {
 	// in the case of of a repeated struct (e.g. type Alias []SomeStruct),
 	// we do not need to prepend with `(field_number << 3) | wire_type` as this
 	// would need to be done for each struct and not only for the first.
-	if rv.Kind() != reflect.Struct && !isStructOrRepeatedStruct(info) {
+	isNonNilIface := rv.Kind() == reflect.Interface && !rv.IsNil()
+	if rv.Kind() != reflect.Struct && !isStructOrRepeatedStruct(info) && !isNonNilIface {
 		writeEmpty := false
 		typ3 := typeToTyp3(info.Type, FieldOptions{})
 		bare := typ3 != Typ3ByteLength
diff --git a/binary-encode.go b/binary-encode.go
index 81bed3c..577c6f8 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -246,7 +246,13 @@ func (cdc *Codec) encodeReflectBinaryInterface(w io.Writer, iinfo *TypeInfo, rv
 	}
 
 	// Write actual concrete value.
-	err = cdc.encodeReflectBinary(buf, cinfo, crv, fopts, true)
+	if bare && fopts.BinFieldNum == 1 && !isStructOrRepeatedStruct(cinfo) {
+		// This is not a field or element, write the same as MarshalBinaryBare.
+		cbare := typeToTyp3(cinfo.Type, FieldOptions{}) != Typ3ByteLength
+		err = cdc.writeFieldIfNotEmpty(buf, 1, cinfo, FieldOptions{}, fopts, crv, false, cbare)
+	} else {
+		err = cdc.encodeReflectBinary(buf, cinfo, crv, fopts, true)
+	}
 	if err != nil {
 		return
 	}
-- 
2.43.0


From ef93d7347f448fdc21cf9705d6188a0cf114fe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 17/50] fix: reject a lone quote for a quoted JSON integer

UnmarshalJSON of a single quotation mark into an int64 panicked.
---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index f299051..bfc233d 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -116,7 +116,7 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 	case reflect.Int64, reflect.Int:
 		fallthrough
 	case reflect.Uint64, reflect.Uint:
-		if bz[0] != '"' || bz[len(bz)-1] != '"' {
+		if len(bz) < 2 || bz[0] != '"' || bz[len(bz)-1] != '"' {
 			err = errors.Errorf(
 				"invalid character -- Amino:JSON int/int64/uint/uint64 expects quoted values for javascript numeric support, got: %v", // nolint: lll
 				string(bz),
-- 
2.43.0


From 73e4d3c91189f388874ddaeada59fafde12941b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 18/50] fix: reject the JSON string "null" for a quoted JSON
 integer

It was decoded as 0.
---
 json-decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/json-decode.go b/json-decode.go
index bfc233d..f630ab5 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -126,6 +126,10 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 			}
 		}
 		bz = bz[1 : len(bz)-1]
+		if nullBytes(bz) {
+			err = errors.New("amino:JSON int/int64/uint/uint64 expects a quoted number, got a quoted null")
+			return
+		}
 		fallthrough
 	case reflect.Int32, reflect.Int16, reflect.Int8,
 		reflect.Uint32, reflect.Uint16, reflect.Uint8:
-- 
2.43.0


From 5818176fff9638f8d31afe5f0add9841af0e5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 19/50] fix: decode JSON maps that have a named string type for
 their keys

They were encoded, but decoding them panicked.
---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index f630ab5..4705d23 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -471,7 +471,7 @@ func (cdc *Codec) decodeReflectJSONMap(bz []byte, info *TypeInfo, rv reflect.Val
 		}
 
 		// And set.
-		krv := reflect.New(reflect.TypeOf("")).Elem()
+		krv := reflect.New(krt).Elem()
 		krv.SetString(key)
 		mrv.SetMapIndex(krv, vrv)
 	}
-- 
2.43.0


From b94a9e187e91164ae72cb483134a64316ac20e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 20/50] fix: encode JSON maps in the order of their keys

The same map had a different encoding every time.
---
 json-encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json-encode.go b/json-encode.go
index 4d6a055..cddc6ee 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"sort"
 	"time"
 
 	"github.com/pkg/errors"
@@ -371,7 +372,9 @@ func (cdc *Codec) encodeReflectJSONMap(w io.Writer, info *TypeInfo, rv reflect.V
 	}
 
 	var writeComma = false
-	for _, krv := range rv.MapKeys() {
+	var krvs = rv.MapKeys()
+	sort.Slice(krvs, func(i, j int) bool { return krvs[i].String() < krvs[j].String() })
+	for _, krv := range krvs {
 		// Get dereferenced object value and info.
 		var vrv, _, isNil = derefPointers(rv.MapIndex(krv))
 
-- 
2.43.0


From c1702a514f18153672c909494e76279c7c8a429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 21/50] fix: escape the registered name in JSON

A name with a quotation mark, backslash or control character made for invalid
JSON.
---
 amino.go       |  2 +-
 json-encode.go | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index 0bf1695..8f1e648 100644
--- a/amino.go
+++ b/amino.go
@@ -524,7 +524,7 @@ func (cdc *Codec) MarshalJSON(o interface{}) ([]byte, error) {
 
 	// Write the disfix wrapper if it is a registered concrete type.
 	if info.Registered {
-		err = writeStr(w, _fmt(`{"type":"%s","value":`, info.Name))
+		err = writeDisfixWrapper(w, info.Name)
 		if err != nil {
 			return nil, err
 		}
diff --git a/json-encode.go b/json-encode.go
index cddc6ee..bf0edd5 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -1,6 +1,7 @@
 package amino
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -172,7 +173,7 @@ func (cdc *Codec) encodeReflectJSONInterface(w io.Writer, iinfo *TypeInfo, rv re
 
 	// Write interface wrapper.
 	// Part 1:
-	err = writeStr(w, _fmt(`{"type":"%s","value":`, cinfo.Name))
+	err = writeDisfixWrapper(w, cinfo.Name)
 	if err != nil {
 		return
 	}
@@ -441,6 +442,18 @@ func invokeStdlibJSONMarshal(w io.Writer, v interface{}) error {
 	return err
 }
 
+// Write the disfix wrapper up to the value of a registered concrete type.
+func writeDisfixWrapper(w io.Writer, name string) error {
+	var buf bytes.Buffer
+	enc := json.NewEncoder(&buf)
+	enc.SetEscapeHTML(false) // keep names as they are, if at all possible.
+	if err := enc.Encode(name); err != nil {
+		return err
+	}
+	// NOTE: the Encoder adds a newline.
+	return writeStr(w, _fmt(`{"type":%s,"value":`, bytes.TrimSuffix(buf.Bytes(), []byte("\n"))))
+}
+
 func writeStr(w io.Writer, s string) (err error) {
 	_, err = w.Write([]byte(s))
 	return
-- 
2.43.0


From ab3a194511d446977547b0065919ea87f33e82fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 22/50] fix: do not panic with the codec locked

Encoding or decoding an unsupported type (say, with a float field that is not
tagged unsafe) panicked with the mutex held, so that every later use of the
codec blocked for good.
---
 codec.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/codec.go b/codec.go
index b8b4c9b..169fd2e 100644
--- a/codec.go
+++ b/codec.go
@@ -382,8 +382,16 @@ func (cdc *Codec) getTypeInfoWlock(rt reflect.Type) (info *TypeInfo, err error)
 			return
 		}
 
-		info = cdc.newTypeInfoUnregistered(rt)
-		cdc.setTypeInfoNolock(info)
+		// This panics for unsupported types, so not while holding the mutex.
+		cdc.mtx.Unlock()
+		newInfo := cdc.newTypeInfoUnregistered(rt)
+		cdc.mtx.Lock()
+		// Someone else may have set it in the meantime.
+		info, ok = cdc.typeInfos[rt]
+		if !ok {
+			info = newInfo
+			cdc.setTypeInfoNolock(info)
+		}
 	}
 	cdc.mtx.Unlock()
 	return info, nil
-- 
2.43.0


From d18b903964afbb8018730676e0f5455164fbb16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 23/50] fix: do not register on a codec that is being sealed

Whether the codec was sealed was only checked before the registration locked
it, so that a registration could still take effect after Seal() returned.
---
 codec.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codec.go b/codec.go
index 169fd2e..42ef001 100644
--- a/codec.go
+++ b/codec.go
@@ -168,6 +168,7 @@ func (cdc *Codec) RegisterInterface(ptr interface{}, iopts *InterfaceOptions) {
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.assertNotSealedNolock() // may have been sealed since.
 		cdc.collectImplementersNolock(info)
 		err := cdc.checkConflictsInPrioNolock(info)
 		if err != nil {
@@ -237,6 +238,7 @@ func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOp
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.assertNotSealedNolock() // may have been sealed since.
 		cdc.addCheckConflictsWithConcreteNolock(info)
 		cdc.setTypeInfoNolock(info)
 	}()
@@ -330,6 +332,10 @@ func (cdc *Codec) assertNotSealed() {
 	cdc.mtx.Lock()
 	defer cdc.mtx.Unlock()
 
+	cdc.assertNotSealedNolock()
+}
+
+func (cdc *Codec) assertNotSealedNolock() {
 	if cdc.sealed {
 		panic("codec sealed")
 	}
-- 
2.43.0


From 5a0d5bcc2b60e16cf97bd712b77ff9e4f6c69429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 24/50] fix: leave the codec as it was when a registration
 fails

RegisterConcrete panicked for a conflict, a duplicate type or a duplicate name
only after adding the type to some of the interfaces (or to all of them, and to
the list of types), so that a recovered panic left a half registered type that
changed how others are encoded.
---
 codec.go | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/codec.go b/codec.go
index 42ef001..775f1d5 100644
--- a/codec.go
+++ b/codec.go
@@ -341,20 +341,15 @@ func (cdc *Codec) assertNotSealedNolock() {
 	}
 }
 
-func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
-
+// Panics if the info cannot be set.
+func (cdc *Codec) checkNewTypeInfoNolock(info *TypeInfo) {
 	if info.Type.Kind() == reflect.Ptr {
 		panic(fmt.Sprintf("unexpected pointer type"))
 	}
 	if _, ok := cdc.typeInfos[info.Type]; ok {
 		panic(fmt.Sprintf("TypeInfo already exists for %v", info.Type))
 	}
-
-	cdc.typeInfos[info.Type] = info
-	if info.Type.Kind() == reflect.Interface {
-		cdc.interfaceInfos = append(cdc.interfaceInfos, info)
-	} else if info.Registered {
-		cdc.concreteInfos = append(cdc.concreteInfos, info)
+	if info.Type.Kind() != reflect.Interface && info.Registered {
 		disfix := info.GetDisfix()
 		if existing, ok := cdc.disfixToTypeInfo[disfix]; ok {
 			panic(fmt.Sprintf("disfix <%X> already registered for %v", disfix, existing.Type))
@@ -362,6 +357,18 @@ func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 		if existing, ok := cdc.nameToTypeInfo[info.Name]; ok {
 			panic(fmt.Sprintf("name <%s> already registered for %v", info.Name, existing.Type))
 		}
+	}
+}
+
+func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
+	cdc.checkNewTypeInfoNolock(info)
+
+	cdc.typeInfos[info.Type] = info
+	if info.Type.Kind() == reflect.Interface {
+		cdc.interfaceInfos = append(cdc.interfaceInfos, info)
+	} else if info.Registered {
+		cdc.concreteInfos = append(cdc.concreteInfos, info)
+		disfix := info.GetDisfix()
 		cdc.disfixToTypeInfo[disfix] = info
 		cdc.nameToTypeInfo[info.Name] = info
 		//cdc.prefixToTypeInfos[prefix] =
@@ -674,24 +681,38 @@ func (cdc *Codec) addCheckConflictsWithConcreteNolock(cinfo *TypeInfo) {
 	// Iterate over registered interfaces that this "implements".
 	// "Implement" in quotes because we only consider the pointer, for extra
 	// safety.
+	var iinfos []*TypeInfo
 	for _, iinfo := range cdc.interfaceInfos {
 		if !cinfo.PtrToType.Implements(iinfo.Type) {
 			continue
 		}
+		iinfos = append(iinfos, iinfo)
 
 		// Add cinfo to iinfo.Implementers.
-		var origImpls = iinfo.Implementers[cinfo.Prefix]
-		iinfo.Implementers[cinfo.Prefix] = append(origImpls, cinfo)
+		var origImpls, hasOrig = iinfo.Implementers[cinfo.Prefix]
+		iinfo.Implementers[cinfo.Prefix] = append(origImpls[:len(origImpls):len(origImpls)], cinfo)
 
 		// Finally, check that all conflicts are in `.Priority`.
 		// NOTE: This could be optimized, but it's non-trivial.
 		err := cdc.checkConflictsInPrioNolock(iinfo)
-		if err != nil {
-			// Return to previous state.
+
+		// Return to previous state, until all checks have passed.
+		if hasOrig {
 			iinfo.Implementers[cinfo.Prefix] = origImpls
+		} else {
+			delete(iinfo.Implementers, cinfo.Prefix)
+		}
+		if err != nil {
 			panic(err)
 		}
 	}
+
+	// Check what setTypeInfoNolock would panic for.
+	cdc.checkNewTypeInfoNolock(cinfo)
+
+	for _, iinfo := range iinfos {
+		iinfo.Implementers[cinfo.Prefix] = append(iinfo.Implementers[cinfo.Prefix], cinfo)
+	}
 }
 
 //----------------------------------------
-- 
2.43.0


From 37d89492b607ef9ddd462c7f660b135b76965346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 25/50] fix: lock the codec to look up the implementers of an
 interface

Encoding an interface value while another goroutine registered a type was a
data race that could end the process (concurrent map read and map write).
---
 binary-encode.go |  8 +-------
 codec.go         | 13 +++++++++++++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/binary-encode.go b/binary-encode.go
index 577c6f8..41865c7 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -226,13 +226,7 @@ func (cdc *Codec) encodeReflectBinaryInterface(w io.Writer, iinfo *TypeInfo, rv
 	buf := bytes.NewBuffer(nil)
 
 	// Write disambiguation bytes if needed.
-	needDisamb := false
-	if iinfo.AlwaysDisambiguate {
-		needDisamb = true
-	} else if len(iinfo.Implementers[cinfo.Prefix]) > 1 {
-		needDisamb = true
-	}
-	if needDisamb {
+	if cdc.needDisambRlock(iinfo, cinfo) {
 		_, err = buf.Write(append([]byte{0x00}, cinfo.Disamb[:]...))
 		if err != nil {
 			return
diff --git a/codec.go b/codec.go
index 775f1d5..4df8aeb 100644
--- a/codec.go
+++ b/codec.go
@@ -434,6 +434,19 @@ func (cdc *Codec) getTypeInfoFromPrefixRlock(iinfo *TypeInfo, pb PrefixBytes) (i
 	return
 }
 
+// Whether cinfo must be encoded with disambiguation bytes as a value of the
+// interface iinfo.
+func (cdc *Codec) needDisambRlock(iinfo *TypeInfo, cinfo *TypeInfo) bool {
+	if iinfo.AlwaysDisambiguate {
+		return true
+	}
+	// NOTE: Implementers is mutated by RegisterConcrete.
+	cdc.mtx.RLock()
+	need := len(iinfo.Implementers[cinfo.Prefix]) > 1
+	cdc.mtx.RUnlock()
+	return need
+}
+
 func (cdc *Codec) getTypeInfoFromDisfixRlock(df DisfixBytes) (info *TypeInfo, err error) {
 	// We do not use defer cdc.mtx.Unlock() here due to performance overhead of
 	// defer in go1.11 (and prior versions). Ensure new code paths unlock the
-- 
2.43.0


From 57107c487f30f92e7babbc9648a39ec736bd6a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 26/50] fix: give a deep copy its own slices

DeepCopy copied every slice, and then used the original.
---
 deep_copy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index 8e9a157..024b190 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -83,7 +83,7 @@ func _deepCopy(src, dst reflect.Value) {
 			cpy := reflect.MakeSlice(
 				src.Type(), src.Len(), src.Len())
 			reflect.Copy(cpy, src)
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		default:
 			cpy := reflect.MakeSlice(
@@ -93,7 +93,7 @@ func _deepCopy(src, dst reflect.Value) {
 				ecpy := cpy.Index(i)
 				deepCopy(esrc, ecpy)
 			}
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		}
 
-- 
2.43.0


From f7e04ce52b8db0f7fa6ef285ea9e8d9c5b8d0df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 27/50] fix: give a deep copy its own map values

DeepCopy shared what the values of a map refer to with the original.
---
 deep_copy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deep_copy.go b/deep_copy.go
index 024b190..b43dbcf 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -119,7 +119,9 @@ func _deepCopy(src, dst reflect.Value) {
 		keys := src.MapKeys()
 		for _, key := range keys {
 			val := src.MapIndex(key)
-			cpy.SetMapIndex(key, val)
+			cval := reflect.New(src.Type().Elem()).Elem()
+			deepCopy(val, cval)
+			cpy.SetMapIndex(key, cval)
 		}
 		dst.Set(cpy)
 		return
-- 
2.43.0


From e70bc76a3a5fdc1a955052c5bded18085e3a30a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 28/50] fix: deep copy pointers to nil pointers

DeepCopy panicked for those, and ignored the copy methods of what a pointer to
a pointer points at.
---
 deep_copy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deep_copy.go b/deep_copy.go
index b43dbcf..c42026b 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -43,7 +43,7 @@ func _deepCopy(src, dst reflect.Value) {
 	switch src.Kind() {
 	case reflect.Ptr:
 		cpy := reflect.New(src.Type().Elem())
-		_deepCopy(src.Elem(), cpy.Elem())
+		deepCopy(src.Elem(), cpy.Elem())
 		dst.Set(cpy)
 		return
 
-- 
2.43.0


From e3ffe46b5e2ea9db043bba205dd37de49031f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 29/50] fix: use the MarshalAmino/UnmarshalAmino pair to deep
 copy values

DeepCopy used the pair for pointers only: it panicked for an addressable value
(a field, an element) and left out the unexported fields of any other.
---
 deep_copy.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index c42026b..ec11a5c 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -185,24 +185,28 @@ func callAminoCopy(src, dst reflect.Value) bool {
 	if src.Type() != dst.Type() {
 		panic("should not happen")
 	}
-	switch {
-	case src.Kind() == reflect.Ptr:
+	if src.Kind() == reflect.Ptr {
+		if !canAminoCopy(src) {
+			return false
+		}
 		cpy := reflect.New(src.Type().Elem())
 		dst.Set(cpy)
-	case src.CanAddr():
+	} else {
 		if !dst.CanAddr() {
 			panic("should not happen")
 		}
+		if !src.CanAddr() {
+			// The methods may need a pointer.
+			asrc := reflect.New(src.Type()).Elem()
+			asrc.Set(src)
+			src = asrc
+		}
 		src = src.Addr()
 		dst = dst.Addr()
-	default:
-		return false
-	}
-	if !canAminoCopy(src) {
-		return false
+		if !canAminoCopy(src) {
+			return false
+		}
 	}
-	cpy := reflect.New(src.Type().Elem())
-	dst.Set(cpy)
 	ma := src.MethodByName("MarshalAmino")
 	ua := dst.MethodByName("UnmarshalAmino")
 	outs := ma.Call(nil)
-- 
2.43.0


From e1190f09299936d33d500bb28763c54a627211ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 30/50] fix: report an invalid typ3 in aminoscan instead of
 panicking

---
 cmd/aminoscan/aminoscan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/aminoscan/aminoscan.go b/cmd/aminoscan/aminoscan.go
index 03aaefd..2262713 100644
--- a/cmd/aminoscan/aminoscan.go
+++ b/cmd/aminoscan/aminoscan.go
@@ -77,7 +77,7 @@ func scanAny(typ amino.Typ3, bz []byte, indent string) (s string, n int, err err
 	case amino.Typ3_4Byte:
 		s, n, err = scan4Byte(bz, indent)
 	default:
-		panic("should not happen")
+		err = fmt.Errorf("invalid typ3 %v", typ)
 	}
 	return
 }
-- 
2.43.0


From 6f148387c88ae522360a2a48f0c721f8cf73982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 31/50] fix: end aminoscan at a field key or varint that is cut
 off

It kept on scanning those without ever getting ahead.
---
 cmd/aminoscan/aminoscan.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/aminoscan/aminoscan.go b/cmd/aminoscan/aminoscan.go
index 2262713..d0efef9 100644
--- a/cmd/aminoscan/aminoscan.go
+++ b/cmd/aminoscan/aminoscan.go
@@ -85,6 +85,7 @@ func scanAny(typ amino.Typ3, bz []byte, indent string) (s string, n int, err err
 func scanVarint(bz []byte, indent string) (s string, n int, err error) {
 	if len(bz) == 0 {
 		err = fmt.Errorf("EOF while reading (U)Varint")
+		return
 	}
 	// First try Varint.
 	okI64 := true
@@ -96,7 +97,7 @@ func scanVarint(bz []byte, indent string) (s string, n int, err error) {
 	// Then try Uvarint.
 	okU64 := true
 	u64, _n := binary.Uvarint(bz)
-	if n != _n {
+	if _n <= 0 || n != _n {
 		n = 0
 		okU64 = false
 	}
@@ -175,7 +176,7 @@ func scanStruct(bz []byte, indent string, isRoot bool) (s string, n int, err err
 func scanFieldKey(bz []byte, indent string) (s string, typ amino.Typ3, n int, err error) {
 	var u64 uint64
 	u64, n = binary.Uvarint(bz)
-	if n < 0 {
+	if n <= 0 {
 		n = 0
 		err = errors.New("error decoding uvarint")
 		return
-- 
2.43.0


From 2eb5acb7f32e695636923327cf2945a65cee8f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 32/50] fix: check the length of byte-length fields in
 aminoscan

A length that is cut off, or more than what follows it, made it panic; a field
that ended the input was taken for too long.
---
 cmd/aminoscan/aminoscan.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cmd/aminoscan/aminoscan.go b/cmd/aminoscan/aminoscan.go
index d0efef9..e9fdf67 100644
--- a/cmd/aminoscan/aminoscan.go
+++ b/cmd/aminoscan/aminoscan.go
@@ -133,16 +133,15 @@ func scan8Byte(bz []byte, indent string) (s string, n int, err error) {
 func scanByteLength(bz []byte, indent string) (s string, n int, err error) {
 	// Read the length.
 	l64, _n := binary.Uvarint(bz)
-	if n < 0 {
-		n = 0
+	if _n <= 0 {
 		err = errors.New("error decoding uvarint")
 		return
 	}
-	length := int(l64)
-	if length >= len(bz) {
-		err = errors.New("while reading 8byte field, EOF was encountered")
+	if l64 > uint64(len(bz)-_n) {
+		err = errors.New("while reading byte-length field, EOF was encountered")
 		return
 	}
+	length := int(l64)
 	s = Cyan(fmt.Sprintf("%X", bz[:_n]))
 	slide(&bz, &n, _n)
 	// Read the remaining bytes.
-- 
2.43.0


From 75ff4e8d898ec9cd2feaf56e58d427be3ea716dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 33/50] fix: do not copy the contents of nested values at each
 level while decoding

---
 binary-decode.go | 10 +++++-----
 decoder.go       | 17 +++++++++++++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index e204bd3..4f2274f 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -340,7 +340,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = decodeByteSliceView(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -503,7 +503,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = decodeByteSliceView(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -679,7 +679,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = decodeByteSliceView(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -802,7 +802,7 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 	if !bare {
 		// Read byte-length prefixed byteslice.
 		var buf []byte
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = decodeByteSliceView(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -937,7 +937,7 @@ func consumeAny(typ3 Typ3, bz []byte) (n int, err error) {
 	case Typ38Byte:
 		_, _n, err = DecodeInt64(bz)
 	case Typ3ByteLength:
-		_, _n, err = DecodeByteSlice(bz)
+		_, _n, err = decodeByteSliceView(bz)
 	case Typ3_4Byte:
 		_, _n, err = DecodeInt32(bz)
 	default:
diff --git a/decoder.go b/decoder.go
index 14f4e7c..cd6497c 100644
--- a/decoder.go
+++ b/decoder.go
@@ -278,6 +278,20 @@ func decodeNanos(bz *[]byte, n *int) (int32, error) {
 }
 
 func DecodeByteSlice(bz []byte) (bz2 []byte, n int, err error) {
+	var view []byte
+	view, n, err = decodeByteSliceView(bz)
+	if err != nil {
+		return
+	}
+	bz2 = make([]byte, len(view))
+	copy(bz2, view)
+	return
+}
+
+// Like DecodeByteSlice, but the result shares memory with bz. This is for
+// contents that get decoded further, where copying at each level of nesting
+// would take quadratic time and space.
+func decodeByteSliceView(bz []byte) (bz2 []byte, n int, err error) {
 	var count uint64
 	var _n int
 	count, _n, err = DecodeUvarint(bz)
@@ -292,8 +306,7 @@ func DecodeByteSlice(bz []byte) (bz2 []byte, n int, err error) {
 		err = fmt.Errorf("insufficient bytes decoding []byte of length %v", count)
 		return
 	}
-	bz2 = make([]byte, count)
-	copy(bz2, bz[0:count])
+	bz2 = bz[:count:count]
 	n += int(count)
 	return
 }
-- 
2.43.0


From a26e1bcd5bcc45bf75c8231271f48e5a9ed12415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 34/50] fix: encode lists that implement MarshalAmino as their
 representation in struct fields

---
 codec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codec.go b/codec.go
index 4df8aeb..3643df8 100644
--- a/codec.go
+++ b/codec.go
@@ -507,7 +507,9 @@ func (cdc *Codec) parseStructInfo(rt reflect.Type) (sinfo StructInfo) {
 					etype = etype.Elem()
 				}
 				typ3 := typeToTyp3(etype, fopts)
-				if typ3 == Typ3ByteLength {
+				_, isAminoMarshaler := ftype.MethodByName("MarshalAmino")
+				if typ3 == Typ3ByteLength && !isAminoMarshaler {
+					// If it has a representation, that gets encoded instead.
 					unpackedList = true
 				}
 			}
-- 
2.43.0


From b7c44c651215fd5b8cfe44cc0bffa41eaa72bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 35/50] fix: decode JSON struct fields with the options of the
 field

---
 json-decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json-decode.go b/json-decode.go
index 4705d23..a049b13 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -366,7 +366,7 @@ func (cdc *Codec) decodeReflectJSONSlice(bz []byte, info *TypeInfo, rv reflect.V
 }
 
 // CONTRACT: rv.CanAddr() is true.
-func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.Value, fopts FieldOptions) (err error) {
+func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.Value, _ FieldOptions) (err error) {
 	if !rv.CanAddr() {
 		panic("rv not addressable")
 	}
@@ -417,7 +417,7 @@ func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.
 		}
 
 		// Decode into field rv.
-		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, fopts)
+		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, field.FieldOptions)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From cf7eaaf0b03e68c2533bd094c37bc552f0af354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 36/50] fix: skip unknown lists, which have an entry for each
 element, while decoding

---
 binary-decode.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 4f2274f..599271f 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -901,20 +901,23 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 
 		// Consume any remaining fields.
 		var (
-			fnum uint32
-			typ3 Typ3
+			fnum       uint32
+			typ3       Typ3
+			isRepeated bool // whether lastFieldNum may occur again
 		)
 		for len(bz) > 0 {
 			fnum, typ3, _n, err = decodeFieldNumberAndTyp3(bz)
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
-			if fnum <= lastFieldNum {
+			if fnum < lastFieldNum || (fnum == lastFieldNum && !(isRepeated && typ3 == Typ3ByteLength)) {
 				err = fmt.Errorf("encountered fieldnNum: %v, but we have already seen fnum: %v\nbytes:%X",
 					fnum, lastFieldNum, bz)
 				return
 			}
 			lastFieldNum = fnum
+			// It may be a list, which has an entry for each element.
+			isRepeated = typ3 == Typ3ByteLength
 
 			_n, err = consumeAny(typ3, bz)
 			if slide(&bz, &n, _n) && err != nil {
-- 
2.43.0


From 9bc4406978b606abfa79a0fc9aa13151131d2fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 37/50] fix: report an input that asks for a type without
 binary encoding instead of panicking

---
 binary-decode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index 599271f..a79f42a 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -309,7 +309,9 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 		return
 
 	default:
-		panic(fmt.Sprintf("unknown field type %v", info.Type.Kind()))
+		// e.g. a map that is registered for use in JSON.
+		err = fmt.Errorf("cannot decode type %v from binary", info.Type)
+		return
 	}
 
 }
-- 
2.43.0


From debe77841ceb219bfe6afbfb86c500ebfeeaa5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 38/50] fix: copy the elements of lists of named basic types
 with their own methods

---
 deep_copy.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index ec11a5c..cd97920 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -54,7 +54,7 @@ func _deepCopy(src, dst reflect.Value) {
 		return
 
 	case reflect.Array:
-		switch src.Type().Elem().Kind() {
+		switch kindWithoutMethods(src.Type().Elem()) {
 		case reflect.Int64, reflect.Int32, reflect.Int16,
 			reflect.Int8, reflect.Int, reflect.Uint64,
 			reflect.Uint32, reflect.Uint16, reflect.Uint8,
@@ -73,7 +73,7 @@ func _deepCopy(src, dst reflect.Value) {
 		}
 
 	case reflect.Slice:
-		switch src.Type().Elem().Kind() {
+		switch kindWithoutMethods(src.Type().Elem()) {
 		case reflect.Int64, reflect.Int32, reflect.Int16,
 			reflect.Int8, reflect.Int, reflect.Uint64,
 			reflect.Uint32, reflect.Uint16, reflect.Uint8,
@@ -149,6 +149,15 @@ func _deepCopy(src, dst reflect.Value) {
 //----------------------------------------
 // misc.
 
+// Returns the kind of rt, or reflect.Invalid if it has methods, which may be
+// those that its values are to be copied with.
+func kindWithoutMethods(rt reflect.Type) reflect.Kind {
+	if rt.NumMethod() > 0 || reflect.PtrTo(rt).NumMethod() > 0 {
+		return reflect.Invalid
+	}
+	return rt.Kind()
+}
+
 // Call .DeepCopy() method if possible.
 func callDeepCopy(src, dst reflect.Value) bool {
 	dc := src.MethodByName("DeepCopy")
-- 
2.43.0


From 77088c87748e84b12611c51f22d869858f670f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 39/50] fix: keep panicking for maps and functions as targets
 of the binary decoder

---
 amino.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amino.go b/amino.go
index 8f1e648..991190a 100644
--- a/amino.go
+++ b/amino.go
@@ -438,6 +438,11 @@ func (cdc *Codec) UnmarshalBinaryBare(bz []byte, ptr interface{}) error {
 		bare = typWanted != Typ3ByteLength
 	}
 
+	if !isKnownType {
+		// The target itself is not supported, whatever the input.
+		panic(fmt.Sprintf("unknown field type %v", info.Type.Kind()))
+	}
+
 	// Decode contents into rv.
 	n, err := cdc.decodeReflectBinary(bz, info, rv, FieldOptions{BinFieldNum: 1}, bare)
 	if err != nil {
-- 
2.43.0


From 0424683ada57f713ce4625938d2fab71ebd4e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:59 +0000
Subject: [PATCH 40/50] fix: refuse a channel without buffered elements instead
 of leaving it out

---
 reflect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reflect.go b/reflect.go
index 5c6edfb..942da77 100644
--- a/reflect.go
+++ b/reflect.go
@@ -116,9 +116,9 @@ func isDefaultValue(rv reflect.Value) (erv reflect.Value, isDefaultValue bool) {
 		return rv, rv.Uint() == 0
 	case reflect.String:
 		return rv, rv.Len() == 0
-	case reflect.Chan, reflect.Map, reflect.Slice:
+	case reflect.Map, reflect.Slice:
 		return rv, rv.IsNil() || rv.Len() == 0
-	case reflect.Func, reflect.Interface:
+	case reflect.Chan, reflect.Func, reflect.Interface:
 		return rv, rv.IsNil()
 	default:
 		return rv, false
-- 
2.43.0


From 53cd1978c4deebb8bcd76c95e99a6234041256d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 41/50] fix: report a field number out of range in aminoscan
 instead of truncating it

---
 cmd/aminoscan/aminoscan.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/aminoscan/aminoscan.go b/cmd/aminoscan/aminoscan.go
index e9fdf67..2e9b33c 100644
--- a/cmd/aminoscan/aminoscan.go
+++ b/cmd/aminoscan/aminoscan.go
@@ -181,7 +181,12 @@ func scanFieldKey(bz []byte, indent string) (s string, typ amino.Typ3, n int, er
 		return
 	}
 	typ = amino.Typ3(u64 & 0x07)
-	number := uint32(u64 >> 3)
+	number := u64 >> 3
+	if number > (1<<29 - 1) {
+		n = 0
+		err = fmt.Errorf("invalid field num %v", number)
+		return
+	}
 	s = fmt.Sprintf("%X", bz[:n])
 	fmt.Printf("%s%s @%v %v\n", indent, s, number, typ)
 	return
-- 
2.43.0


From 796dbd0f24b5185cc49bacc3de82c7378d22345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 42/50] fix: do not prefix decoding errors once per level of
 nested lists

---
 binary-decode.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index a79f42a..74d098a 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"strings"
 	"time"
 
 	"github.com/pkg/errors"
@@ -525,7 +526,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			var _n int
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, fopts, false)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
+				err = arrayContentsErr(err)
 				return
 			}
 			// Special case when reading default value, prefer nil.
@@ -587,7 +588,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			efopts.BinFieldNum = 1
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, efopts, false)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
+				err = arrayContentsErr(err)
 				return
 			}
 		}
@@ -703,7 +704,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			erv, _n := reflect.New(ert).Elem(), int(0)
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, fopts, false)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
+				err = arrayContentsErr(err)
 				return
 			}
 			// Special case when reading default value, prefer nil.
@@ -769,7 +770,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			efopts.BinFieldNum = 1
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, efopts, false)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
+				err = arrayContentsErr(err)
 				return
 			}
 			srv = reflect.Append(srv, erv)
@@ -1009,3 +1010,13 @@ func decodeFieldNumberAndTyp3(bz []byte) (num uint32, typ Typ3, n int, err error
 	num = uint32(num64)
 	return
 }
+
+// Says where err comes from, but only once: a message that grows at each level
+// of nesting would take quadratic time and space.
+func arrayContentsErr(err error) error {
+	const prefix = "error reading array contents: "
+	if strings.HasPrefix(err.Error(), prefix) {
+		return err
+	}
+	return fmt.Errorf(prefix+"%v", err)
+}
-- 
2.43.0


From 95dad07a6b8bd3b71de2a00301886cd7a60201f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 43/50] fix: do not copy nested JSON values at each level while
 decoding

---
 json-decode.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/json-decode.go b/json-decode.go
index a049b13..8c0ded5 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -273,7 +273,7 @@ func (cdc *Codec) decodeReflectJSONArray(bz []byte, info *TypeInfo, rv reflect.V
 		}
 
 		// Read into rawSlice.
-		var rawSlice []json.RawMessage
+		var rawSlice []rawJSON
 		if err = json.Unmarshal(bz, &rawSlice); err != nil {
 			return
 		}
@@ -334,7 +334,7 @@ func (cdc *Codec) decodeReflectJSONSlice(bz []byte, info *TypeInfo, rv reflect.V
 		}
 
 		// Read into rawSlice.
-		var rawSlice []json.RawMessage
+		var rawSlice []rawJSON
 		if err = json.Unmarshal(bz, &rawSlice); err != nil {
 			return
 		}
@@ -380,7 +380,7 @@ func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.
 	// Map all the fields(keys) to their blobs/bytes.
 	// NOTE: In decodeReflectBinaryStruct, we don't need to do this,
 	// since fields are encoded in order.
-	var rawMap = make(map[string]json.RawMessage)
+	var rawMap = make(map[string]rawJSON)
 	err = json.Unmarshal(bz, &rawMap)
 	if err != nil {
 		return
@@ -441,7 +441,7 @@ func (cdc *Codec) decodeReflectJSONMap(bz []byte, info *TypeInfo, rv reflect.Val
 	// Map all the fields(keys) to their blobs/bytes.
 	// NOTE: In decodeReflectBinaryMap, we don't need to do this,
 	// since fields are encoded in order.
-	var rawMap = make(map[string]json.RawMessage)
+	var rawMap = make(map[string]rawJSON)
 	err = json.Unmarshal(bz, &rawMap)
 	if err != nil {
 		return
@@ -484,8 +484,18 @@ func (cdc *Codec) decodeReflectJSONMap(bz []byte, info *TypeInfo, rv reflect.Val
 // Misc.
 
 type disfixWrapper struct {
-	Name string          `json:"type"`
-	Data json.RawMessage `json:"value"`
+	Name string  `json:"type"`
+	Data rawJSON `json:"value"`
+}
+
+// rawJSON is like json.RawMessage, but refers to a part of the input of
+// json.Unmarshal instead of copying it, as it would be copied again at each
+// level of nesting.  It is not to be kept or modified.
+type rawJSON []byte
+
+func (m *rawJSON) UnmarshalJSON(bz []byte) error {
+	*m = bz[:len(bz):len(bz)]
+	return nil
 }
 
 // decodeInterfaceJSON helps unravel the type name and
-- 
2.43.0


From d6265bdb02f8aff6928b8d3d3106a81864e5bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 44/50] fix: do not decode JSON bytes into the memory of the
 slice the target holds

---
 json-decode.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/json-decode.go b/json-decode.go
index 8c0ded5..b4428ec 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -312,18 +312,20 @@ func (cdc *Codec) decodeReflectJSONSlice(bz []byte, info *TypeInfo, rv reflect.V
 	switch ert.Kind() {
 
 	case reflect.Uint8: // Special case: byte slice
-		err = json.Unmarshal(bz, rv.Addr().Interface())
+		// Read into a new slice: json.Unmarshal() would write to the memory of
+		// the slice that rv holds, which may be in use elsewhere.
+		var srv = reflect.New(rv.Type())
+		err = json.Unmarshal(bz, srv.Interface())
 		if err != nil {
 			return
 		}
-		if rv.Len() == 0 {
+		if srv.Elem().Len() == 0 {
 			// Special case when length is 0.
 			// NOTE: We prefer nil slices.
 			rv.Set(info.ZeroValue)
+		} else {
+			rv.Set(srv.Elem())
 		}
-		// else {
-		// NOTE: Already set via json.Unmarshal() above.
-		// }
 		return
 
 	default: // General case.
-- 
2.43.0


From cc776152ccb213adf7816f8d8a41c0738753081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 45/50] fix: write the disfix wrapper of interfaces with
 MarshalJSON, addressable or not

---
 json-encode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json-encode.go b/json-encode.go
index bf0edd5..5d212c3 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -57,7 +57,8 @@ func (cdc *Codec) encodeReflectJSON(w io.Writer, info *TypeInfo, rv reflect.Valu
 			err = invokeMarshalJSON(w, rv.Addr())
 			return
 		}
-	} else if rv.Type().Implements(jsonMarshalerType) {
+	} else if rv.Kind() != reflect.Interface && rv.Type().Implements(jsonMarshalerType) {
+		// NOTE: Interface values are written with their disfix wrapper below.
 		err = invokeMarshalJSON(w, rv)
 		return
 	}
-- 
2.43.0


From 38468431d391576cacd319708162c4c940197ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 46/50] fix: call MarshalJSON with a pointer receiver for
 values that are not addressable

---
 json-encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/json-encode.go b/json-encode.go
index 5d212c3..e8d729e 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -61,6 +61,12 @@ func (cdc *Codec) encodeReflectJSON(w io.Writer, info *TypeInfo, rv reflect.Valu
 		// NOTE: Interface values are written with their disfix wrapper below.
 		err = invokeMarshalJSON(w, rv)
 		return
+	} else if reflect.PtrTo(rv.Type()).Implements(jsonMarshalerType) {
+		// The method needs a pointer: call it on a copy.
+		prv := reflect.New(rv.Type())
+		prv.Elem().Set(rv)
+		err = invokeMarshalJSON(w, prv)
+		return
 	}
 
 	// Handle override if rv implements json.Marshaler.
-- 
2.43.0


From 03315fd8dda59ce9441a8143904a4364548696ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 47/50] fix: write JSON map keys as the strings they are, as
 they are read

---
 json-encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-encode.go b/json-encode.go
index e8d729e..4136d0e 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -395,7 +395,7 @@ func (cdc *Codec) encodeReflectJSONMap(w io.Writer, info *TypeInfo, rv reflect.V
 			writeComma = false //nolint:ineffassign
 		}
 		// Write field name.
-		err = invokeStdlibJSONMarshal(w, krv.Interface())
+		err = invokeStdlibJSONMarshal(w, krv.String())
 		if err != nil {
 			return
 		}
-- 
2.43.0


From a9a67c9f6a51801d0b3102d7793b0707b0b9e512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:26 +0000
Subject: [PATCH 48/50] fix: decode quoted JSON integers of types with
 UnmarshalText as they are encoded

---
 json-decode.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index b4428ec..d63960c 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -130,7 +130,27 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 			err = errors.New("amino:JSON int/int64/uint/uint64 expects a quoted number, got a quoted null")
 			return
 		}
-		fallthrough
+		// Read the number as it was written, even if the type has UnmarshalText().
+		if ikind == reflect.Int64 || ikind == reflect.Int {
+			var num int64
+			err = json.Unmarshal(bz, &num)
+			if err == nil && rv.OverflowInt(num) {
+				err = errors.Errorf("amino:JSON number %s overflows %v", bz, rv.Type())
+			}
+			if err == nil {
+				rv.SetInt(num)
+			}
+		} else {
+			var num uint64
+			err = json.Unmarshal(bz, &num)
+			if err == nil && rv.OverflowUint(num) {
+				err = errors.Errorf("amino:JSON number %s overflows %v", bz, rv.Type())
+			}
+			if err == nil {
+				rv.SetUint(num)
+			}
+		}
+
 	case reflect.Int32, reflect.Int16, reflect.Int8,
 		reflect.Uint32, reflect.Uint16, reflect.Uint8:
 		err = invokeStdlibJSONUnmarshal(bz, rv, fopts)
-- 
2.43.0


From b0a13632ed5b813eeeda8abc36a9924264bac07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 49/50] fix: encode with MarshalAmino if it has a pointer
 receiver, as decoding does

---
 codec.go   |  4 ++--
 reflect.go | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/codec.go b/codec.go
index 3643df8..d3e6789 100644
--- a/codec.go
+++ b/codec.go
@@ -507,7 +507,7 @@ func (cdc *Codec) parseStructInfo(rt reflect.Type) (sinfo StructInfo) {
 					etype = etype.Elem()
 				}
 				typ3 := typeToTyp3(etype, fopts)
-				_, isAminoMarshaler := ftype.MethodByName("MarshalAmino")
+				_, isAminoMarshaler := reflect.PtrTo(ftype).MethodByName("MarshalAmino")
 				if typ3 == Typ3ByteLength && !isAminoMarshaler {
 					// If it has a representation, that gets encoded instead.
 					unpackedList = true
@@ -600,7 +600,7 @@ func (cdc *Codec) newTypeInfoUnregistered(rt reflect.Type) *TypeInfo {
 	if rt.Kind() == reflect.Struct {
 		info.StructInfo = cdc.parseStructInfo(rt)
 	}
-	if rm, ok := rt.MethodByName("MarshalAmino"); ok {
+	if rm, ok := reflect.PtrTo(rt).MethodByName("MarshalAmino"); ok {
 		info.ConcreteInfo.IsAminoMarshaler = true
 		info.ConcreteInfo.AminoMarshalReprType = marshalAminoReprType(rm)
 	}
diff --git a/reflect.go b/reflect.go
index 942da77..e2ddd7e 100644
--- a/reflect.go
+++ b/reflect.go
@@ -238,12 +238,13 @@ func typeToTyp3(rt reflect.Type, opts FieldOptions) Typ3 {
 }
 
 func toReprObject(rv reflect.Value) (rrv reflect.Value, err error) {
-	var mwrm reflect.Value
-	if rv.CanAddr() {
-		mwrm = rv.Addr().MethodByName("MarshalAmino")
-	} else {
-		mwrm = rv.MethodByName("MarshalAmino")
+	if !rv.CanAddr() {
+		// The method may need a pointer.
+		arv := reflect.New(rv.Type()).Elem()
+		arv.Set(rv)
+		rv = arv
 	}
+	mwrm := rv.Addr().MethodByName("MarshalAmino")
 	mwouts := mwrm.Call(nil)
 	if !mwouts[1].IsNil() {
 		erri := mwouts[1].Interface()
-- 
2.43.0


From ebe0449f9330661b85a70a539fc65990480c2439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:22 +0000
Subject: [PATCH 50/50] fix: PrintTypes does not hold the codec's lock while it
 writes

---
 codec.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codec.go b/codec.go
index d3e6789..650e809 100644
--- a/codec.go
+++ b/codec.go
@@ -259,8 +259,10 @@ func (cdc *Codec) Seal() *Codec {
 //
 // Where Type is the golang type name and Name is the name the type was registered with.
 func (cdc *Codec) PrintTypes(out io.Writer) error {
+	// Do not hold the lock while writing: out may wait for somebody who needs the codec.
 	cdc.mtx.RLock()
-	defer cdc.mtx.RUnlock()
+	infos := append([]*TypeInfo(nil), cdc.concreteInfos...)
+	cdc.mtx.RUnlock()
 	// print header
 	if _, err := io.WriteString(out, "| Type | Name | Prefix | Length | Notes |\n"); err != nil {
 		return err
@@ -269,7 +271,7 @@ func (cdc *Codec) PrintTypes(out io.Writer) error {
 		return err
 	}
 	// only print concrete types for now (if we want everything, we can iterate over the typeInfos map instead)
-	for _, i := range cdc.concreteInfos {
+	for _, i := range infos {
 		if _, err := io.WriteString(out, "| "); err != nil {
 			return err
 		}
-- 
2.43.0

