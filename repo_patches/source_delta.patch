From f6cfabda2279c4d76fa8116ec62b25235b09b6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 01/20] fix: complete the parent value after a pointer's value
 ended

---
 jscandec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index f69ede0..b04683e 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2637,7 +2637,9 @@ func (d *Decoder[S, T]) Decode(
 			if siCon := d.stackExp[si].ParentFrameIndex; siCon != noParentFrame {
 				switch d.stackExp[siCon].Type {
 				case ExpectTypePtr:
-					si--
+					// The end of the pointed-to value is the end of the pointer value.
+					si = siCon
+					goto ON_VAL_END
 				case ExpectTypeArray:
 					d.stackExp[si].Len++
 					if d.stackExp[si].Len >= d.stackExp[si].Cap {
-- 
2.43.0


From 4a9f1e7784c7826379e19e64ff7e33beedf01114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 02/20] fix: skip the closing token of an object decoded into
 an empty struct

---
 jscandec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index b04683e..db9739c 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2100,7 +2100,7 @@ func (d *Decoder[S, T]) Decode(
 			case jscan.TokenTypeObject:
 				switch d.stackExp[si].Type {
 				case ExpectTypeEmptyStruct:
-					ti = tokens[ti].End // Skip object value
+					ti = tokens[ti].End + 1 // Skip object value
 					goto ON_VAL_END
 				case ExpectTypeAny:
 					v, tail, errDecode := decodeAny(s, tokens[ti:])
-- 
2.43.0


From 160a9451ac12bf89bb216cef37c3aeb76dc73280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 03/20] fix: skip exactly the value of an unknown field

---
 jscandec.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index db9739c..c0754d4 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2317,22 +2317,17 @@ func (d *Decoder[S, T]) Decode(
 							}
 							// Skip value, go to the next key
 							ti++
-							for l := 0; ; ti++ {
-								switch tokens[ti].Type {
-								case jscan.TokenTypeKey:
-									if l < 1 {
-										continue SCAN_KEYVALS
-									}
-								case jscan.TokenTypeObject:
-									l++
-								case jscan.TokenTypeObjectEnd:
-									l--
-									if l < 1 {
-										ti--
-										break SCAN_KEYVALS
-									}
-								}
+							switch tokens[ti].Type {
+							case jscan.TokenTypeObject, jscan.TokenTypeArray:
+								ti = tokens[ti].End
+							}
+							ti++
+							if tokens[ti].Type == jscan.TokenTypeKey {
+								continue SCAN_KEYVALS
 							}
+							// End of the object
+							ti--
+							break SCAN_KEYVALS
 						}
 						si = frameIndex
 						if si == noParentFrame {
-- 
2.43.0


From 00662fe6558ac0fbfd7d0f8723abe49aca380193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 04/20] fix: report overflow of signed integers wrapping around
 more than once

---
 internal/atoi/atoi.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/atoi/atoi.go b/internal/atoi/atoi.go
index 8ffc771..616994c 100644
--- a/internal/atoi/atoi.go
+++ b/internal/atoi/atoi.go
@@ -34,6 +34,9 @@ func I8[S []byte | string](s S) (n int8, overflow bool) {
 		case 3:
 			return -(d(1)*1e1 + d(2)), false
 		case 4: // This case can overflow
+			if s[1]-'0' > 1 {
+				return 0, true
+			}
 			if n = -(d(1)*1e2 + d(2)*1e1 + d(3)); n > 0 {
 				return 0, true
 			}
@@ -46,6 +49,9 @@ func I8[S []byte | string](s S) (n int8, overflow bool) {
 		case 2:
 			return d(0)*1e1 + d(1), false
 		case 3: // This case can overflow
+			if s[0]-'0' > 1 {
+				return 0, true
+			}
 			if n = d(0)*1e2 + d(1)*1e1 + d(2); n < 0 {
 				return 0, true
 			}
@@ -97,6 +103,9 @@ func I16[S []byte | string](s S) (n int16, overflow bool) {
 		case 5:
 			return -(d(1)*1e3 + d(2)*1e2 + d(3)*1e1 + d(4)), false
 		case 6: // This case can overflow
+			if s[1]-'0' > 3 {
+				return 0, true
+			}
 			n = -(d(1)*1e4 + d(2)*1e3 + d(3)*1e2 + d(4)*1e1 + d(5))
 			if n > 0 {
 				return 0, true
@@ -114,6 +123,9 @@ func I16[S []byte | string](s S) (n int16, overflow bool) {
 		case 4:
 			return d(0)*1e3 + d(1)*1e2 + d(2)*1e1 + d(3), false
 		case 5: // This case can overflow
+			if s[0]-'0' > 3 {
+				return 0, true
+			}
 			n = d(0)*1e4 + d(1)*1e3 + d(2)*1e2 + d(3)*1e1 + d(4)
 			if n < 0 {
 				return 0, true
@@ -214,6 +226,9 @@ func I32[S []byte | string](s S) (n int32, overflow bool) {
 				d(7)*1e2 + d(8)*1e1 +
 				d(9)), false
 		case 11: // This case can overflow
+			if s[1]-'0' > 2 {
+				return 0, true
+			}
 			n = d(1)*1e9 + d(2)*1e8 +
 				d(3)*1e7 + d(4)*1e6 +
 				d(5)*1e5 + d(6)*1e4 +
@@ -258,6 +273,9 @@ func I32[S []byte | string](s S) (n int32, overflow bool) {
 				d(6)*1e2 + d(7)*1e1 +
 				d(8), false
 		case 10: // This case can overflow
+			if s[0]-'0' > 2 {
+				return 0, true
+			}
 			n = d(0)*1e9 + d(1)*1e8 +
 				d(2)*1e7 + d(3)*1e6 +
 				d(4)*1e5 + d(5)*1e4 +
-- 
2.43.0


From d7a39aba034de0dcfeccb0ce5736324fa28beca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 05/20] fix: don't panic on reading a number from an empty
 string

---
 internal/jsonnum/jsonnum.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/jsonnum/jsonnum.go b/internal/jsonnum/jsonnum.go
index aa8f823..ec84e32 100644
--- a/internal/jsonnum/jsonnum.go
+++ b/internal/jsonnum/jsonnum.go
@@ -13,6 +13,11 @@ const (
 func ReadNumber[S ~string | ~[]byte](s S) (trailing S, rc ReturnCode) {
 	var i int
 
+	if len(s) < 1 {
+		// Expected at least one digit
+		return s, ReturnCodeErr
+	}
+
 	if s[0] == '-' {
 		// Signed
 		s = s[1:]
-- 
2.43.0


From e46215b1d44f15b06a65d0a11629d57e0d342ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 06/20] fix: reject trailing garbage in quoted numbers and
 integer map keys

---
 jscandec.go | 90 ++++++++++++++++++++++++++---------------------------
 1 file changed, 45 insertions(+), 45 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index c0754d4..608b6d6 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1051,7 +1051,7 @@ func (d *Decoder[S, T]) Decode(
 
 				case ExpectTypeNumber:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					if _, rc := jsonnum.ReadNumber(tv); rc == jsonnum.ReturnCodeErr {
+					if tail, rc := jsonnum.ReadNumber(tv); rc == jsonnum.ReturnCodeErr || len(tail) > 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1059,8 +1059,8 @@ func (d *Decoder[S, T]) Decode(
 
 				case ExpectTypeFloat32String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc == jsonnum.ReturnCodeErr {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc == jsonnum.ReturnCodeErr || len(tail) > 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1072,8 +1072,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*float32)(p) = v
 				case ExpectTypeFloat64String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc == jsonnum.ReturnCodeErr {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc == jsonnum.ReturnCodeErr || len(tail) > 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1085,8 +1085,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*float64)(p) = v
 				case ExpectTypeIntString:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1098,8 +1098,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*int)(p) = v
 				case ExpectTypeInt8String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1111,8 +1111,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*int8)(p) = v
 				case ExpectTypeInt16String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1124,8 +1124,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*int16)(p) = v
 				case ExpectTypeInt32String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1137,8 +1137,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*int32)(p) = v
 				case ExpectTypeInt64String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1150,8 +1150,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*int64)(p) = v
 				case ExpectTypeUintString:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1163,8 +1163,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint)(p) = v
 				case ExpectTypeUint8String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1176,8 +1176,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint8)(p) = v
 				case ExpectTypeUint16String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1189,8 +1189,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint16)(p) = v
 				case ExpectTypeUint32String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1202,8 +1202,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint32)(p) = v
 				case ExpectTypeUint64String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -2374,8 +2374,8 @@ func (d *Decoder[S, T]) Decode(
 						}
 
 					case ExpectTypeInt:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2387,8 +2387,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt8:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2400,8 +2400,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt16:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2413,8 +2413,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt32:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2426,8 +2426,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt64:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2439,8 +2439,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2452,8 +2452,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint8:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2465,8 +2465,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint16:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2478,8 +2478,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint32:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2491,8 +2491,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint64:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) > 0 || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
-- 
2.43.0


From c85f66a5bbd801d98df6ca8fa69f8915337b64da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 07/20] fix: return an error instead of crashing on unsupported
 map key types

---
 jscandec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 608b6d6..0ef7496 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2502,6 +2502,11 @@ func (d *Decoder[S, T]) Decode(
 							return true
 						}
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
+
+					default:
+						// Unsupported map key type
+						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
+						return true
 					}
 
 					if d.stackExp[si].Type == ExpectTypeMapRecur {
-- 
2.43.0


From d85efec0da365525a94e9329af2e2501f8042b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 08/20] fix: suspend and resume all frame states when decoding
 recursive types

---
 jscandec.go | 232 +++++++++++++++++++++++-----------------------------
 1 file changed, 101 insertions(+), 131 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 0ef7496..53b220d 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -401,6 +401,17 @@ type recursionStackFrame struct {
 
 	// ContainerFrame stores the index of the recursive container frame.
 	ContainerFrame uint32
+
+	// Suspended stores the number of suspended frame states after this
+	// recursion was entered and identifies the innermost recursion.
+	Suspended int
+}
+
+// frameState is the runtime state of a stack frame suspended during a recursion.
+type frameState struct {
+	Dest   unsafe.Pointer
+	Offset uintptr
+	Len    int
 }
 
 type stackFrame[S []byte | string] struct {
@@ -510,6 +521,61 @@ type Decoder[S []byte | string, T any] struct {
 	parseUint    func(s S) (uint, error)
 	parseFloat32 func(s S) (float32, error)
 	parseFloat64 func(s S) (float64, error)
+
+	// suspended holds the states of the frames suspended by active recursions.
+	suspended []frameState
+}
+
+// enterRecursion suspends the state of the recursive frame referred to by the
+// recursive container frame and the state of all frames following it, and returns
+// the index of the recursive frame, which is free to be used for a nested value.
+func (d *Decoder[S, T]) enterRecursion(container uint32) (frame uint32) {
+	frame = uint32(d.stackExp[container].RecurFrame)
+	for i := int(frame); i < len(d.stackExp); i++ {
+		d.suspended = append(d.suspended, frameState{
+			Dest:   d.stackExp[i].Dest,
+			Offset: d.stackExp[i].Offset,
+			Len:    d.stackExp[i].Len,
+		})
+	}
+	d.stackExp[frame].RecursionStack = append(
+		d.stackExp[frame].RecursionStack, recursionStackFrame{
+			Dest:           d.stackExp[frame].Dest,
+			Offset:         d.stackExp[frame].Offset,
+			ContainerFrame: container,
+			Suspended:      len(d.suspended),
+		},
+	)
+	d.stackExp[frame].Offset = 0
+	return frame
+}
+
+// inRecursion returns true if the current value of frame
+// is directly contained in a recursive container.
+func (d *Decoder[S, T]) inRecursion(frame uint32) bool {
+	l := len(d.stackExp[frame].RecursionStack)
+	return l > 0 &&
+		d.stackExp[frame].RecursionStack[l-1].Suspended == len(d.suspended)
+}
+
+// leaveRecursion resets all frames to their state from before the innermost recursion
+// was entered and returns the index of the recursive container frame.
+func (d *Decoder[S, T]) leaveRecursion(frame uint32) (container uint32) {
+	top := len(d.stackExp[frame].RecursionStack) - 1
+	container = d.stackExp[frame].RecursionStack[top].ContainerFrame
+	d.stackExp[frame].RecursionStack[top].Dest = nil
+	d.stackExp[frame].RecursionStack = d.stackExp[frame].RecursionStack[:top]
+
+	first := len(d.suspended) - (len(d.stackExp) - int(frame))
+	suspended := d.suspended[first:]
+	for i := range suspended {
+		d.stackExp[int(frame)+i].Dest = suspended[i].Dest
+		d.stackExp[int(frame)+i].Offset = suspended[i].Offset
+		d.stackExp[int(frame)+i].Len = suspended[i].Len
+		suspended[i].Dest = nil
+	}
+	d.suspended = d.suspended[:first]
+	return container
 }
 
 // NewDecoder creates a new reusable decoder instance.
@@ -718,7 +784,19 @@ func (d *Decoder[S, T]) Decode(
 	defer func() {
 		for i := range d.stackExp {
 			d.stackExp[i].Dest = nil
+			if r := d.stackExp[i].RecursionStack; len(r) > 0 {
+				// Decoding was aborted inside of a recursion.
+				d.stackExp[i].Offset = r[0].Offset
+				for i := range r {
+					r[i].Dest = nil
+				}
+				d.stackExp[i].RecursionStack = r[:0]
+			}
 		}
+		for i := range d.suspended {
+			d.suspended[i].Dest = nil
+		}
+		d.suspended = d.suspended[:0]
 	}()
 
 	if t == nil {
@@ -1241,8 +1319,11 @@ func (d *Decoder[S, T]) Decode(
 				case ExpectTypeSlice, ExpectTypeSliceRecur:
 					// Skip
 					*(*[]any)(p) = nil
-				case ExpectTypeStruct, ExpectTypeStructRecur:
+				case ExpectTypeStruct:
 					// Skip
+				case ExpectTypeStructRecur:
+					ti++
+					goto ON_RECUR_OBJ_END
 				case ExpectTypePtr, ExpectTypePtrRecur:
 					*(*unsafe.Pointer)(p) = nil
 				case ExpectTypeBool:
@@ -1412,11 +1493,7 @@ func (d *Decoder[S, T]) Decode(
 						}
 						*(*sliceHeader)(p) = emptySlice
 						ti += 2
-						if len(d.stackExp[recursiveFrame].RecursionStack) < 1 {
-							goto ON_VAL_END
-						}
-						si = uint32(recursiveFrame)
-						continue
+						goto ON_VAL_END
 					}
 
 					var dp unsafe.Pointer
@@ -1443,18 +1520,8 @@ func (d *Decoder[S, T]) Decode(
 					}
 					ti++
 
-					// Push recursion stack
-					d.stackExp[recursiveFrame].RecursionStack = append(
-						d.stackExp[recursiveFrame].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[recursiveFrame].Dest,
-							Offset:         d.stackExp[recursiveFrame].Offset,
-							ContainerFrame: si,
-						},
-					)
-
-					si = uint32(recursiveFrame)
+					si = d.enterRecursion(si)
 					d.stackExp[si].Dest = dp
-					d.stackExp[si].Offset = 0
 
 				case ExpectTypeSliceEmptyStruct:
 					p := unsafe.Pointer(
@@ -2120,16 +2187,7 @@ func (d *Decoder[S, T]) Decode(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
 
-					siPointer := si
-					si = uint32(d.stackExp[si].RecurFrame)
-					// Push recursion stack
-					d.stackExp[si].RecursionStack = append(
-						d.stackExp[si].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[si].Dest,
-							Offset:         d.stackExp[si].Offset,
-							ContainerFrame: siPointer,
-						},
-					)
+					si = d.enterRecursion(si)
 
 					var dp unsafe.Pointer
 					if *(*unsafe.Pointer)(p) != nil {
@@ -2151,32 +2209,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					ti++
 
-				case ExpectTypeMapRecur:
-					// Push recursion stack
-					recursiveFrame := d.stackExp[si].RecurFrame
-					d.stackExp[recursiveFrame].RecursionStack = append(
-						d.stackExp[recursiveFrame].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[recursiveFrame].Dest,
-							Offset:         d.stackExp[recursiveFrame].Offset,
-							ContainerFrame: si,
-						},
-					)
-					p := unsafe.Pointer(
-						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
-					)
-					if *(*unsafe.Pointer)(p) == nil {
-						// Map not yet initialized, initialize map.
-						*(*unsafe.Pointer)(p) = makemap(
-							d.stackExp[si].Typ, tokens[ti].Elements,
-						)
-					}
-					if tokens[ti].Elements == 0 {
-						ti += 2
-						goto ON_VAL_END
-					}
-					ti++
-
-				case ExpectTypeMap:
+				case ExpectTypeMap, ExpectTypeMapRecur:
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
@@ -2510,8 +2543,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					if d.stackExp[si].Type == ExpectTypeMapRecur {
-						recursiveFrame := d.stackExp[si].RecurFrame
-						si = uint32(recursiveFrame)
+						si = d.enterRecursion(si)
 					} else {
 						// For non-recursive maps the value frame is guaranteed to
 						// be at an offset of 2 relative to the map frame index.
@@ -2535,59 +2567,17 @@ func (d *Decoder[S, T]) Decode(
 			case jscan.TokenTypeObjectEnd:
 				ti++
 				switch d.stackExp[si].Type {
-				case ExpectTypeStruct:
+				case ExpectTypeStruct, ExpectTypeMapRecur:
 					goto ON_VAL_END
-				case ExpectTypeMapRecur:
-					recursiveFrame := d.stackExp[si].RecurFrame
-					recurStack := d.stackExp[recursiveFrame].RecursionStack
-					if len(recurStack) < 1 {
-						// In map of the root recursive struct
-						si = uint32(d.stackExp[si].RecurFrame)
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					resetTo := d.stackExp[recursiveFrame].RecursionStack[topIndex]
-					d.stackExp[recursiveFrame].Dest = resetTo.Dest
-					d.stackExp[recursiveFrame].Offset = resetTo.Offset
-					fields := d.stackExp[recursiveFrame].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = resetTo.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[recursiveFrame].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[si].ParentFrameIndex
-					continue
 				}
 				goto ON_RECUR_OBJ_END
 
 			case jscan.TokenTypeArrayEnd:
 				ti++
-				if d.stackExp[si].Type == ExpectTypeStructRecur {
-					recurStack := d.stackExp[si].RecursionStack
-					if len(recurStack) < 1 {
-						// In slice of the root recursive struct
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					resetTo := d.stackExp[si].RecursionStack[topIndex]
-					d.stackExp[si].Dest = resetTo.Dest
-					d.stackExp[si].Offset = resetTo.Offset
-					fields := d.stackExp[si].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = resetTo.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[si].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[resetTo.ContainerFrame].ParentFrameIndex
-					continue
+				if d.stackExp[si].Type == ExpectTypeStructRecur && d.inRecursion(si) {
+					// End of a recursive slice
+					si = d.leaveRecursion(si)
+					goto ON_VAL_END
 				}
 				si--
 				goto ON_VAL_END
@@ -2595,41 +2585,21 @@ func (d *Decoder[S, T]) Decode(
 			continue
 
 		ON_RECUR_OBJ_END:
-			if l := len(d.stackExp[si].RecursionStack); l > 0 {
-				top := d.stackExp[si].RecursionStack[l-1]
+			if d.inRecursion(si) {
+				recurStack := d.stackExp[si].RecursionStack
+				top := recurStack[len(recurStack)-1]
 				switch d.stackExp[top.ContainerFrame].Type {
 				case ExpectTypeSliceRecur:
 					d.stackExp[si].Offset += d.stackExp[si].Size
-				case ExpectTypePtrRecur:
-					recurStack := d.stackExp[si].RecursionStack
-					if len(recurStack) < 1 {
-						// In map of the root recursive struct
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					d.stackExp[si].Dest = top.Dest
-					d.stackExp[si].Offset = top.Offset
-					fields := d.stackExp[si].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = top.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[si].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[top.ContainerFrame].ParentFrameIndex
 					continue
-
 				case ExpectTypeMapRecur:
-					si = top.ContainerFrame
-					// Set the top stack destination so the next key gets assigned to it.
-					// Otherwise we'll be in the destination of the previously assigned
-					// key, which will point to an empty map.
-					d.stackExp[si].Dest = top.Dest
+					// Return to the map, either another key or the end follows.
+					si = d.leaveRecursion(si)
+					continue
 				}
-				continue
+				// The end of the pointed-to value is the end of the pointer value.
+				si = d.leaveRecursion(si)
+				goto ON_VAL_END
 			}
 			// Here we expect to fallthrough directly to ON_VAL_END!
 
-- 
2.43.0


From 59b58e0e548f0d208cdd62fb765e3071fc85f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 09/20] fix: set []struct{} to nil on null

---
 jscandec.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 53b220d..59012e9 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1356,6 +1356,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint32)(p) = zeroUint32
 				case ExpectTypeUint64:
 					*(*uint64)(p) = zeroUint64
+				case ExpectTypeSliceEmptyStruct:
+					*(*[]struct{})(p) = nil
 				case ExpectTypeSliceBool:
 					*(*[]bool)(p) = nil
 				case ExpectTypeSliceString:
-- 
2.43.0


From e912b0052b0cdacafb9c32395cd1edd3cc86c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 10/20] fix: zero the array elements the JSON array has no
 value for

---
 jscandec.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 59012e9..689ec08 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1416,11 +1416,15 @@ func (d *Decoder[S, T]) Decode(
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
+					// Zero all elements the JSON array has no value for.
+					for i := tokens[ti].Elements; i < d.stackExp[si+1].Cap; i++ {
+						typedmemclr(
+							d.stackExp[si+1].Typ,
+							unsafe.Add(p, uintptr(i)*d.stackExp[si+1].Size),
+						)
+					}
 					if tokens[ti].Elements < 1 {
 						ti += 2 // Skip over closing TokenArrayEnd
-						// Empty array, no need to allocate memory.
-						// Go will automatically allocate it together with its parent
-						// and zero it.
 						goto ON_VAL_END
 					}
 					ti++
-- 
2.43.0


From 748620c1ec762d8f75d1406bdaa0ad09e52add2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 11/20] fix: replace the value of an existing map key instead
 of merging into it

---
 jscandec.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 689ec08..e8fce2b 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2558,9 +2558,10 @@ func (d *Decoder[S, T]) Decode(
 
 					d.stackExp[si].Dest = pNewData
 
-					// Zero struct values
-					if d.stackExp[si].Type == ExpectTypeStruct ||
-						d.stackExp[si].Type == ExpectTypeStructRecur {
+					// Zero composite values because the key might already exist
+					// in the map, in which case its value must be replaced.
+					if d.stackExp[si].Type.isElemComposite() ||
+						d.stackExp[si].Type == ExpectTypePtr {
 						typedmemclr(typVal, pNewData)
 					}
 
-- 
2.43.0


From 99f98b707f3695bdafaa49affbfb71397a0d5d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 12/20] fix: add to an existing map[string]string instead of
 replacing it

---
 jscandec.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index e8fce2b..dfac5e2 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2235,12 +2235,16 @@ func (d *Decoder[S, T]) Decode(
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
+					m := *(*map[string]string)(p)
+					if m == nil {
+						// Map not yet initialized, initialize map.
+						m = make(map[string]string, tokens[ti].Elements)
+						*(*map[string]string)(p) = m
+					}
 					if tokens[ti].Elements == 0 {
 						ti += 2
-						*(*map[string]string)(p) = make(map[string]string, 0)
 						goto ON_VAL_END
 					}
-					m := make(map[string]string, tokens[ti].Elements)
 					tiEnd := tokens[ti].End
 
 					for ti++; ti < tiEnd; ti += 2 {
@@ -2261,7 +2265,6 @@ func (d *Decoder[S, T]) Decode(
 						m[keyUnescaped] = unescape.Valid[S, string](value)
 					}
 					ti++
-					*(*map[string]string)(p) = m
 					goto ON_VAL_END
 
 				case ExpectTypeStruct:
-- 
2.43.0


From 145b4ff235831feffce061a367b05ee85c50dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 13/20] fix: decode into the existing value of a pointer like
 encoding/json

---
 jscandec.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index dfac5e2..dd78fa3 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -359,8 +359,7 @@ func (t ExpectType) String() string {
 // otherwise returns true.
 func (t ExpectType) isElemComposite() bool {
 	switch t {
-	case ExpectTypePtr,
-		ExpectTypeArrayLen0, // Zero-length arrays require no memory
+	case ExpectTypeArrayLen0, // Zero-length arrays require no memory
 		ExpectTypeEmptyStruct,
 		ExpectTypeBool,
 		ExpectTypeStr,
@@ -2563,8 +2562,7 @@ func (d *Decoder[S, T]) Decode(
 
 					// Zero composite values because the key might already exist
 					// in the map, in which case its value must be replaced.
-					if d.stackExp[si].Type.isElemComposite() ||
-						d.stackExp[si].Type == ExpectTypePtr {
+					if d.stackExp[si].Type.isElemComposite() {
 						typedmemclr(typVal, pNewData)
 					}
 
@@ -2658,7 +2656,11 @@ func (d *Decoder[S, T]) Decode(
 					uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 				)
 				si++
-				if d.stackExp[si].Size == 0 {
+				if dp := *(*unsafe.Pointer)(p); dp != nil {
+					// Decode into the existing value.
+					d.stackExp[si].Dest = dp
+				} else if d.stackExp[si].Size == 0 {
+					d.stackExp[si].Dest = emptyStructAddr
 					*(*unsafe.Pointer)(p) = emptyStructAddr
 				} else {
 					dp := mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)
-- 
2.43.0


From 7fc7c873cc808eb15115e7525b1d7fae7f43885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 14/20] fix: don't panic on pointers to types implementing an
 unmarshaler interface

---
 jscandec.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index dd78fa3..f0ee78e 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -716,6 +716,20 @@ func determineTextUnmarshalerSupport(t reflect.Type) interfaceSupport {
 	return interfaceSupportNone
 }
 
+// unmarshalerAt returns the unmarshaler of the value of type t at p.
+// If t is a pointer type that implements the unmarshaler interface itself
+// then a new value is allocated unless the pointer already points to one.
+func unmarshalerAt(t reflect.Type, p unsafe.Pointer) any {
+	v := reflect.NewAt(t, p)
+	if t.Kind() == reflect.Pointer {
+		v = v.Elem()
+		if v.IsNil() {
+			v.Set(reflect.New(t.Elem()))
+		}
+	}
+	return v.Interface()
+}
+
 // InitOptions are options for the constructor function NewDecoder[S, T].
 type InitOptions struct {
 	// DisallowStringTagOptOnUnsupportedTypes will make NewDecoder return
@@ -1075,9 +1089,9 @@ func (d *Decoder[S, T]) Decode(
 
 				switch d.stackExp[si].Type {
 				case ExpectTypeTextUnmarshaler:
-					u := reflect.NewAt(
+					u := unmarshalerAt(
 						d.stackExp[si].RType, p,
-					).Interface().(encoding.TextUnmarshaler)
+					).(encoding.TextUnmarshaler)
 					tb := unescape.Valid[S, []byte](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
@@ -1386,7 +1400,14 @@ func (d *Decoder[S, T]) Decode(
 				case ExpectTypeSliceUint64:
 					*(*[]uint64)(p) = nil
 				case ExpectTypeJSONUnmarshaler:
-					goto ON_JSON_UNMARSHALER
+					if d.stackExp[si].RType.Kind() != reflect.Pointer {
+						goto ON_JSON_UNMARSHALER
+					}
+					*(*unsafe.Pointer)(p) = nil
+				case ExpectTypeTextUnmarshaler:
+					if d.stackExp[si].RType.Kind() == reflect.Pointer {
+						*(*unsafe.Pointer)(p) = nil
+					}
 				}
 				ti++
 				goto ON_VAL_END
@@ -2397,7 +2418,9 @@ func (d *Decoder[S, T]) Decode(
 					switch d.stackExp[si+1].Type {
 					case ExpectTypeTextUnmarshaler:
 						v := reflect.New(d.stackExp[si+1].RType)
-						iface := v.Interface().(encoding.TextUnmarshaler)
+						iface := unmarshalerAt(
+							d.stackExp[si+1].RType, v.UnsafePointer(),
+						).(encoding.TextUnmarshaler)
 						keyUnescaped := unescape.Valid[S, []byte](key)
 						if errU := iface.UnmarshalText(keyUnescaped); errU != nil {
 							errIndex, err = tokens[ti].Index, errU
@@ -2687,7 +2710,7 @@ func (d *Decoder[S, T]) Decode(
 					raw = s[tokens[ti].Index:tokens[ti].End]
 					ti++
 				}
-				u := reflect.NewAt(d.stackExp[si].RType, p).Interface().(json.Unmarshaler)
+				u := unmarshalerAt(d.stackExp[si].RType, p).(json.Unmarshaler)
 				if errUnmarshal := u.UnmarshalJSON([]byte(raw)); errUnmarshal != nil {
 					errIndex, err = tkIndex, errUnmarshal
 					return true
-- 
2.43.0


From bac7e7fed6c426ced42997aa9daddc62ddc684d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 15/20] fix: respect the unmarshaler interfaces of slice
 elements, map keys and map values

---
 append_type_stack.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 575e0d1..49742e7 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -76,7 +76,12 @@ func appendTypeToStack[S []byte | string](
 
 	case reflect.Slice:
 		elem := t.Elem()
-		switch elem.Kind() {
+		elemKind := elem.Kind()
+		if implementsUnmarshaler(elem) {
+			// The elements are decoded by their own unmarshaler.
+			elemKind = reflect.Invalid
+		}
+		switch elemKind {
 		case reflect.Struct:
 			if elem.Size() < 1 {
 				return append(stack, stackFrame[S]{
@@ -250,13 +255,16 @@ func appendTypeToStack[S []byte | string](
 						}
 						// Link map key to the map frame.
 						stack[newAtIndex].ParentFrameIndex = parentIndex
+						setMapKeyType(&stack[newAtIndex])
 					}
 					return stack, nil
 				}
 			}
 		}
 
-		if t.Key().Kind() == reflect.String && t.Elem().Kind() == reflect.String {
+		if t.Key().Kind() == reflect.String && !implementsUnmarshaler(t.Key()) &&
+			elem.Kind() == reflect.String && !implementsUnmarshaler(elem) &&
+			t.Key() != tpNumber && elem != tpNumber {
 			return append(stack, stackFrame[S]{
 				Type:             ExpectTypeMapStringString,
 				Typ:              getTyp(t),
@@ -283,6 +291,7 @@ func appendTypeToStack[S []byte | string](
 			}
 			// Link map key to the map frame.
 			stack[newAtIndex].ParentFrameIndex = parentIndex
+			setMapKeyType(&stack[newAtIndex])
 		}
 		{
 			newAtIndex := len(stack)
@@ -544,6 +553,22 @@ func appendTypeToStack[S []byte | string](
 	return stack, nil
 }
 
+// implementsUnmarshaler returns true if t implements
+// encoding/json.Unmarshaler or encoding.TextUnmarshaler.
+func implementsUnmarshaler(t reflect.Type) bool {
+	return determineJSONUnmarshalerSupport(t) != interfaceSupportNone ||
+		determineTextUnmarshalerSupport(t) != interfaceSupportNone
+}
+
+// setMapKeyType makes map keys be decoded by encoding.TextUnmarshaler even if
+// the type also implements encoding/json.Unmarshaler, which only applies to values.
+func setMapKeyType[S []byte | string](key *stackFrame[S]) {
+	if key.Type == ExpectTypeJSONUnmarshaler &&
+		determineTextUnmarshalerSupport(key.RType) != interfaceSupportNone {
+		key.Type = ExpectTypeTextUnmarshaler
+	}
+}
+
 func getTyp(t reflect.Type) *typ {
 	return (*typ)(((*emptyInterface)(unsafe.Pointer(&t))).ptr)
 }
-- 
2.43.0


From 7a7f88a2f221460c1b96c08a5fa99ab4f9b361fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 16/20] fix: don't decode into unexported struct fields

---
 append_type_stack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/append_type_stack.go b/append_type_stack.go
index 49742e7..931d317 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -325,6 +325,10 @@ func appendTypeToStack[S []byte | string](
 
 		for i := 0; i < numFields; i++ {
 			f := t.Field(i)
+			if !f.IsExported() && !f.Anonymous {
+				// Unexported fields must not be written to.
+				continue
+			}
 			name := f.Name
 			optionString := false
 			if jsonTag := f.Tag.Get("json"); jsonTag != "" {
-- 
2.43.0


From 433e56389a2e713f972eb076dce9c4dd423be592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 17/20] fix: decode UTF-16 surrogate pairs to a single code
 point

---
 internal/unescape/unescape.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/unescape/unescape.go b/internal/unescape/unescape.go
index c967696..6c5f100 100644
--- a/internal/unescape/unescape.go
+++ b/internal/unescape/unescape.go
@@ -45,7 +45,18 @@ func Valid[S []byte | string, O []byte | string](str S) O {
 				buf = append(buf, byte(r))
 			case r <= rune2Max:
 				buf = append(buf, t2|byte(r>>6), tx|byte(r)&maskx)
-			case r > maxRune, surrogateMin <= r && r <= surrogateMax:
+			case surrogateMin <= r && r <= surrogateMax:
+				if r < surrogateLow && len(s) >= 12 && s[6] == '\\' && s[7] == 'u' {
+					low := uint32(lut[s[8]]<<12 + lut[s[9]]<<8 + lut[s[10]]<<4 + lut[s[11]])
+					if surrogateLow <= low && low <= surrogateMax {
+						// Surrogate pair
+						r = surrogateSelf + (r-surrogateMin)<<10 + (low - surrogateLow)
+						buf = append(buf, t4|byte(r>>18),
+							tx|byte(r>>12)&maskx, tx|byte(r>>6)&maskx, tx|byte(r)&maskx)
+						s = s[6:]
+						break
+					}
+				}
 				buf = append(buf, RuneError...) // Error placeholder rune
 			default:
 				buf = append(buf, t3|byte(r>>12), tx|byte(r>>6)&maskx, tx|byte(r)&maskx)
@@ -130,13 +141,14 @@ const (
 	// Code points in the surrogate range are not valid for UTF-8.
 	surrogateMin, surrogateMax = 0xD800, 0xDFFF
 
+	// surrogateLow is the first low surrogate, surrogateSelf is the
+	// first code point that's encoded as a surrogate pair.
+	surrogateLow, surrogateSelf = 0xDC00, 0x10000
+
 	tx, t2, t3, t4               = 0b10000000, 0b11000000, 0b11100000, 0b11110000
 	maskx                        = 0b00111111
 	rune1Max, rune2Max, rune3Max = 1<<7 - 1, 1<<11 - 1, 1<<16 - 1
 
-	// maxRune is the maximum valid Unicode code point.
-	maxRune = '\U0010FFFF'
-
 	// RuneError is the "error" rune or "Unicode replacement character".
 	RuneError = "\uFFFD"
 )
-- 
2.43.0


From 7a8466043076b1ef252a5c451940bf60e2594e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 18/20] fix: compile the static destination type instead of the
 dynamic type of its value

---
 jscandec.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index f0ee78e..f0905b2 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -496,7 +496,9 @@ func Unmarshal[S []byte | string, T any](s S, t *T) error {
 	}
 	stack := make([]stackFrame[S], 0, 4)
 	var err error
-	stack, err = appendTypeToStack(stack, reflect.TypeOf(*t), DefaultInitOptions)
+	stack, err = appendTypeToStack(
+		stack, reflect.TypeOf((*T)(nil)).Elem(), DefaultInitOptions,
+	)
 	if err != nil {
 		return err
 	}
@@ -590,9 +592,10 @@ func NewDecoder[S []byte | string, T any](
 		stackExp:  make([]stackFrame[S], 0, 4),
 	}
 
-	var z T
 	var err error
-	d.stackExp, err = appendTypeToStack(d.stackExp, reflect.TypeOf(z), options)
+	d.stackExp, err = appendTypeToStack(
+		d.stackExp, reflect.TypeOf((*T)(nil)).Elem(), options,
+	)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 9c8543cc9c1436a03d58bd583db5701e6e5c9337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 19/20] fix: parse all struct tag options and treat the tag
 "-," as the name "-"

---
 append_type_stack.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 931d317..d5c9dda 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -335,16 +335,21 @@ func appendTypeToStack[S []byte | string](
 				name = jsonTag
 				if i := strings.IndexByte(jsonTag, ','); i != -1 {
 					name = jsonTag[:i]
-					optionName := jsonTag[i+1:]
-					optionString = optionName == "string"
+					for _, optionName := range strings.Split(jsonTag[i+1:], ",") {
+						if optionName == "string" {
+							optionString = true
+						}
+					}
 				}
 				switch name {
 				case "":
 					// Either there was no tag or no name specified in it.
 					name = f.Name
 				case "-":
-					// Ignore this field.
-					continue
+					if jsonTag == "-" {
+						// Ignore this field.
+						continue
+					}
 				}
 			}
 
-- 
2.43.0


From 8b251c75e7963adc28457f1b4b66f493b1d9704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 20/20] fix: don't take map values with unmarshalers for
 recursive structs

---
 append_type_stack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index d5c9dda..5e5f2de 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -229,7 +229,8 @@ func appendTypeToStack[S []byte | string](
 	case reflect.Map:
 		parentIndex := uint32(len(stack))
 		elem := t.Elem()
-		if elem.Kind() == reflect.Struct && elem.Size() > 0 {
+		if elem.Kind() == reflect.Struct && elem.Size() > 0 &&
+			!implementsUnmarshaler(elem) {
 			// Check for recursion
 			for i := range stack {
 				if stack[i].RType == elem {
-- 
2.43.0

