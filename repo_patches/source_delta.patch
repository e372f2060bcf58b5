From df4851abe604cb27009d0e6090b9d27b233f8340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:17 +0000
Subject: [PATCH 01/28] fix: varuint32 and varint32 encoding panics for values
 of 2^28 and above

---
 pkg/abi/encode.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index d8b420e..1d07d9c 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -217,13 +217,19 @@ func (enc *Encoder) WriteInt64(v int64) error {
 }
 
 func (enc *Encoder) WriteVaruint(v uint) error {
-	var b [4]byte
+	if uint64(v) > math.MaxUint32 {
+		return errors.New("eosio encoder: varuint32 out of range")
+	}
+	var b [binary.MaxVarintLen32]byte
 	l := binary.PutUvarint(b[:], uint64(v))
 	return enc.WriteBytes(b[:l])
 }
 
 func (enc *Encoder) WriteVarint(v int) error {
-	var b [4]byte
+	if int64(v) > math.MaxInt32 || int64(v) < math.MinInt32 {
+		return errors.New("eosio encoder: varint32 out of range")
+	}
+	var b [binary.MaxVarintLen32]byte
 	l := binary.PutVarint(b[:], int64(v))
 	return enc.WriteBytes(b[:l])
 }
-- 
2.43.0


From 91bca1e8b78ed9beaf12ebc1e78eaea56e384db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:48 +0000
Subject: [PATCH 02/28] fix: decoder accepts varuint32 and varint32 values
 wider than 32 bits

---
 pkg/abi/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 4419fd5..a033004 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -418,6 +418,9 @@ func (dec *Decoder) ReadVaruint() (uint, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v > math.MaxUint32 {
+		return 0, errors.New("abi: varuint32 out of range")
+	}
 	return uint(v), nil
 }
 
@@ -426,6 +429,9 @@ func (dec *Decoder) ReadVarint() (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v > math.MaxInt32 || v < math.MinInt32 {
+		return 0, errors.New("abi: varint32 out of range")
+	}
 	return int(v), nil
 }
 
-- 
2.43.0


From b726caa613f69724a0ffccbb5d12921146956d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:51 +0000
Subject: [PATCH 03/28] fix: a length prefix makes the decoder allocate without
 limit or panic

---
 pkg/abi/decode.go        | 22 +++++++++++++++++++++-
 pkg/chain/abi.go         |  6 ++++--
 pkg/chain/transaction.go | 18 ++++++++++++------
 3 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index a033004..8896495 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -1,6 +1,7 @@
 package abi
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -255,9 +256,16 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 		l, err = dec.ReadVaruint()
 		if err == nil {
 			if pv.Len() != int(l) {
-				pv.Set(reflect.MakeSlice(pv.Type(), int(l), int(l)))
+				c := int(l)
+				if c > maxPrealloc {
+					c = maxPrealloc
+				}
+				pv.Set(reflect.MakeSlice(pv.Type(), c, c))
 			}
 			for i := 0; i < int(l); i++ {
+				if i >= pv.Len() {
+					pv.Set(reflect.Append(pv, reflect.Zero(pv.Type().Elem())))
+				}
 				pv := pv.Index(i)
 				if pv.Kind() == reflect.Ptr {
 					if pv.IsNil() {
@@ -309,6 +317,10 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 
 // reading methods
 
+// Largest number of bytes or elements to allocate on the word of a length prefix alone,
+// anything beyond that is allocated as the data arrives.
+const maxPrealloc = 4096
+
 func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	if n < 0 {
 		return 0, nil, errors.New("abi: read with negative count")
@@ -316,6 +328,14 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	if n == 0 {
 		return 0, []byte{}, nil
 	}
+	if n > maxPrealloc {
+		var buf bytes.Buffer
+		m, err := io.CopyN(&buf, dec.r, int64(n))
+		if m > 0 && err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return int(m), buf.Bytes(), err
+	}
 	b = make([]byte, n)
 	an, err = io.ReadFull(dec.r, b)
 	if err != nil {
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index c925d18..6235f1d 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -413,12 +413,14 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 		var l uint
 		l, err = dec.ReadVaruint()
 		if err == nil {
-			va := make([]interface{}, l)
+			va := []interface{}{} // not sized from l, which may exceed what the reader holds
 			for i := 0; i < int(l); i++ {
-				err = a.decodeInner(dec, t, &va[i])
+				var e interface{}
+				err = a.decodeInner(dec, t, &e)
 				if err != nil {
 					return err // can't recover from this
 				}
+				va = append(va, e)
 			}
 			*v = va
 		}
diff --git a/pkg/chain/transaction.go b/pkg/chain/transaction.go
index dffb1df..bdd8b03 100644
--- a/pkg/chain/transaction.go
+++ b/pkg/chain/transaction.go
@@ -152,34 +152,40 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
-	tx.ContextFreeActions = make([]Action, len)
+	tx.ContextFreeActions = []Action{}
 	for i := 0; i < int(len); i++ {
-		err = tx.ContextFreeActions[i].UnmarshalABI(d)
+		var v Action
+		err = v.UnmarshalABI(d)
 		if err != nil {
 			return err
 		}
+		tx.ContextFreeActions = append(tx.ContextFreeActions, v)
 	}
 	len, err = d.ReadVaruint()
 	if err != nil {
 		return err
 	}
-	tx.Actions = make([]Action, len)
+	tx.Actions = []Action{}
 	for i := 0; i < int(len); i++ {
-		err = tx.Actions[i].UnmarshalABI(d)
+		var v Action
+		err = v.UnmarshalABI(d)
 		if err != nil {
 			return err
 		}
+		tx.Actions = append(tx.Actions, v)
 	}
 	len, err = d.ReadVaruint()
 	if err != nil {
 		return err
 	}
-	tx.Extensions = make([]TransactionExtension, len)
+	tx.Extensions = []TransactionExtension{}
 	for i := 0; i < int(len); i++ {
-		err = tx.Extensions[i].UnmarshalABI(d)
+		var v TransactionExtension
+		err = v.UnmarshalABI(d)
 		if err != nil {
 			return err
 		}
+		tx.Extensions = append(tx.Extensions, v)
 	}
 	return err
 }
-- 
2.43.0


From e2d2d7f2a292f791c40823587f4eac91038c62f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:22 +0000
Subject: [PATCH 04/28] fix: reader and writer errors are dropped in the middle
 of a value

---
 pkg/abi/encode.go   |  4 +++-
 pkg/chain/abi.go    |  2 +-
 pkg/chain/action.go | 30 ++++++++++++++++++++++++------
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 1d07d9c..353d372 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -113,7 +113,9 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 			tag := v.Type().Field(i).Tag.Get("eosio")
 			if tag == "optional" {
 				exists := !v.Field(i).IsZero()
-				enc.WriteBool(exists)
+				if err := enc.WriteBool(exists); err != nil {
+					return err
+				}
 				if !exists {
 					continue
 				}
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 6235f1d..874c421 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -154,7 +154,7 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 	if t.isOptional {
 		err = enc.WriteBool(exists)
 		if !exists || err != nil {
-			return nil
+			return err
 		}
 	} else if !exists {
 		return fmt.Errorf("found nil for non optional %v", t.baseName)
diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index 58bdd0c..eb4c045 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -51,14 +51,23 @@ func (a Action) Digest() Checksum256 {
 // abi.Marshaler conformance
 
 func (pl PermissionLevel) MarshalABI(e *abi.Encoder) error {
-	pl.Actor.MarshalABI(e)
+	err := pl.Actor.MarshalABI(e)
+	if err != nil {
+		return err
+	}
 	return pl.Permission.MarshalABI(e)
 }
 
 func (a Action) MarshalABI(e *abi.Encoder) error {
 	var err error
-	a.Account.MarshalABI(e)
-	a.Name.MarshalABI(e)
+	err = a.Account.MarshalABI(e)
+	if err != nil {
+		return err
+	}
+	err = a.Name.MarshalABI(e)
+	if err != nil {
+		return err
+	}
 	l := uint(len(a.Authorization))
 	err = e.WriteVaruint(l)
 	if err != nil {
@@ -76,13 +85,22 @@ func (a Action) MarshalABI(e *abi.Encoder) error {
 // abi.Unmarshaler conformance
 
 func (pl *PermissionLevel) UnmarshalABI(d *abi.Decoder) error {
-	pl.Actor.UnmarshalABI(d)
+	err := pl.Actor.UnmarshalABI(d)
+	if err != nil {
+		return err
+	}
 	return pl.Permission.UnmarshalABI(d)
 }
 
 func (a *Action) UnmarshalABI(d *abi.Decoder) error {
-	a.Account.UnmarshalABI(d)
-	a.Name.UnmarshalABI(d)
+	err := a.Account.UnmarshalABI(d)
+	if err != nil {
+		return err
+	}
+	err = a.Name.UnmarshalABI(d)
+	if err != nil {
+		return err
+	}
 	l, err := d.ReadVaruint()
 	if err != nil {
 		return err
-- 
2.43.0


From 3a7ca7e5798b75fb9736d5743f453ebdd827f7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:24 +0000
Subject: [PATCH 05/28] fix: decoding into a used Action keeps its old
 authorization

---
 pkg/chain/action.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index eb4c045..c8d5de7 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -105,6 +105,7 @@ func (a *Action) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
+	a.Authorization = nil
 	for i := 0; i < int(l); i++ {
 		var pl PermissionLevel
 		err = pl.UnmarshalABI(d)
-- 
2.43.0


From 395aab2b5b61797ab61ca9586bc73d3e69dd78d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:26 +0000
Subject: [PATCH 06/28] fix: Bytes accepts invalid hex text without an error

---
 pkg/chain/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/bytes.go b/pkg/chain/bytes.go
index 7427f71..69dbc36 100644
--- a/pkg/chain/bytes.go
+++ b/pkg/chain/bytes.go
@@ -54,5 +54,5 @@ func (b *Bytes) UnmarshalText(text []byte) error {
 	if err == nil {
 		*b = data
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From d9ffb032837174c6e96477b77faefd62fcf194ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:28 +0000
Subject: [PATCH 07/28] fix: Blob text decoding writes past the caller's slice
 and clobbers the blob on error

---
 pkg/chain/blob.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/chain/blob.go b/pkg/chain/blob.go
index a382d73..3e3949a 100644
--- a/pkg/chain/blob.go
+++ b/pkg/chain/blob.go
@@ -51,13 +51,16 @@ func (b Blob) MarshalText() (text []byte, err error) {
 
 func (b *Blob) UnmarshalText(text []byte) error {
 	// fix up the base64 encoding padding
-	switch len(text) % 4 {
+	s := string(text)
+	switch len(s) % 4 {
 	case 2:
-		text = append(text, "=="...)
+		s += "=="
 	case 3:
-		text = append(text, "="...)
+		s += "="
+	}
+	data, err := base64.StdEncoding.DecodeString(s)
+	if err == nil {
+		*b = data
 	}
-	var err error
-	*b, err = base64.StdEncoding.DecodeString(string(text))
 	return err
 }
-- 
2.43.0


From e2e065082e2bd269aec086d064e05d14e65fe409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:30 +0000
Subject: [PATCH 08/28] fix: a failed 128-bit integer parse overwrites the
 destination

---
 pkg/chain/numbers.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index 4edba44..b40849d 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -207,14 +207,18 @@ func (f128 Float128) MarshalText() (text []byte, err error) {
 // encoding.TextUnmarshaler conformance
 
 func (u128 *Uint128) UnmarshalText(text []byte) error {
-	var err error
-	*u128, err = NewUint128FromString(string(text))
+	new, err := NewUint128FromString(string(text))
+	if err == nil {
+		*u128 = new
+	}
 	return err
 }
 
 func (i128 *Int128) UnmarshalText(text []byte) error {
-	var err error
-	*i128, err = NewInt128FromString(string(text))
+	new, err := NewInt128FromString(string(text))
+	if err == nil {
+		*i128 = new
+	}
 	return err
 }
 
-- 
2.43.0


From 50f3bd897600511eb07179f4d831f69258c3ffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:33 +0000
Subject: [PATCH 09/28] fix: checksum and float128 text of the wrong length
 panics or is truncated

---
 pkg/chain/checksum.go | 10 ++++++++++
 pkg/chain/numbers.go  |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/pkg/chain/checksum.go b/pkg/chain/checksum.go
index 06ea317..39b923b 100644
--- a/pkg/chain/checksum.go
+++ b/pkg/chain/checksum.go
@@ -4,6 +4,7 @@ import (
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/hex"
+	"errors"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 	"github.com/greymass/go-eosio/pkg/ripemd160"
@@ -119,6 +120,9 @@ func (c512 Checksum512) MarshalText() (text []byte, err error) {
 func (c160 *Checksum160) UnmarshalText(text []byte) error {
 	data := make([]byte, hex.DecodedLen(len(text)))
 	_, err := hex.Decode(data, text)
+	if err == nil && len(data) != 20 {
+		err = errors.New("invalid checksum length")
+	}
 	if err == nil {
 		copy((*c160)[:], data[:20])
 	}
@@ -128,6 +132,9 @@ func (c160 *Checksum160) UnmarshalText(text []byte) error {
 func (c256 *Checksum256) UnmarshalText(text []byte) error {
 	data := make([]byte, hex.DecodedLen(len(text)))
 	_, err := hex.Decode(data, text)
+	if err == nil && len(data) != 32 {
+		err = errors.New("invalid checksum length")
+	}
 	if err == nil {
 		copy((*c256)[:], data[:32])
 	}
@@ -137,6 +144,9 @@ func (c256 *Checksum256) UnmarshalText(text []byte) error {
 func (c512 *Checksum512) UnmarshalText(text []byte) error {
 	data := make([]byte, hex.DecodedLen(len(text)))
 	_, err := hex.Decode(data, text)
+	if err == nil && len(data) != 64 {
+		err = errors.New("invalid checksum length")
+	}
 	if err == nil {
 		copy((*c512)[:], data[:64])
 	}
diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index b40849d..921de8e 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -224,6 +224,9 @@ func (i128 *Int128) UnmarshalText(text []byte) error {
 
 func (f128 *Float128) UnmarshalText(text []byte) error {
 	b, err := hex.DecodeString(string(text))
+	if err == nil && len(b) != len(f128.Data) {
+		err = errors.New("invalid float128 length")
+	}
 	if err == nil {
 		copy(f128.Data[:], b)
 	}
-- 
2.43.0


From bf364a86e1eadba90a7cde552fb91aaf3e202992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:51 +0000
Subject: [PATCH 10/28] fix: base58 decoding panics on characters outside of
 latin-1

---
 pkg/base58/base58.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/base58/base58.go b/pkg/base58/base58.go
index eb6c070..5dc462a 100644
--- a/pkg/base58/base58.go
+++ b/pkg/base58/base58.go
@@ -48,7 +48,7 @@ func Decode(b string) []byte {
 		}
 
 		total := uint64(0)
-		for _, v := range t[:n] {
+		for _, v := range []byte(t[:n]) {
 			tmp := b58[v]
 			if tmp == 255 {
 				return []byte("")
-- 
2.43.0


From fce72c37a6c2a88f2602b78dfb0e9491ebe812dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:54 +0000
Subject: [PATCH 11/28] fix: legacy public keys use the wrong checksum and
 short ones panic

---
 pkg/chain/public_key.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 2b4335a..79a835d 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -45,7 +45,10 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		}, err
 	}
 	// legacy format
-	d, err := base58.CheckDecode(s[len(s)-50:])
+	if len(s) < 50 {
+		return nil, errors.New("invalid public key string")
+	}
+	d, err := base58.CheckDecodeEosio(s[len(s)-50:], "")
 	return &PublicKey{
 		Type: K1,
 		Data: d,
@@ -61,7 +64,7 @@ func (pk *PublicKey) LegacyString(prefix string) string {
 	if pk.Type != K1 {
 		panic("only K1 keys can be converted to legacy format")
 	}
-	return prefix + base58.CheckEncode(pk.Data)
+	return prefix + base58.CheckEncodeEosio(pk.Data, "")
 }
 
 // abi.Marshaler conformance
-- 
2.43.0


From dc49e8f4cf7446875cd55ebea7bbb9937874f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:56 +0000
Subject: [PATCH 12/28] fix: R1 keys and signatures are named P1 in text form

---
 pkg/chain/key_type.go   | 9 ++++++---
 pkg/chain/public_key.go | 6 +++---
 pkg/chain/signature.go  | 6 +++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/pkg/chain/key_type.go b/pkg/chain/key_type.go
index b89c5c3..1b42ec3 100644
--- a/pkg/chain/key_type.go
+++ b/pkg/chain/key_type.go
@@ -4,16 +4,19 @@ type KeyType byte
 
 const (
 	K1 KeyType = 0
-	P1 KeyType = 1
+	R1 KeyType = 1
 	WA KeyType = 2
+
+	// Deprecated: use R1
+	P1 = R1
 )
 
 func (t KeyType) String() string {
 	switch t {
 	case K1:
 		return "K1"
-	case P1:
-		return "P1"
+	case R1:
+		return "R1"
 	case WA:
 		return "WA"
 	default:
diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 79a835d..4b40fd5 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -31,8 +31,8 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		switch s[4:6] {
 		case "K1":
 			t = K1
-		case "P1":
-			t = P1
+		case "R1":
+			t = R1
 		case "WA":
 			t = WA
 		default:
@@ -86,7 +86,7 @@ func (pk *PublicKey) UnmarshalABI(d *abi.Decoder) error {
 	}
 	pk.Type = KeyType(t)
 	switch pk.Type {
-	case K1, P1:
+	case K1, R1:
 		_, pk.Data, err = d.ReadBytes(33)
 	case WA:
 		_, data, err := d.ReadBytes(34) // key_data + user_presence
diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index 6e661fe..5b17ff5 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -29,8 +29,8 @@ func NewSignatureString(s string) (*Signature, error) {
 	switch s[4:6] {
 	case "K1":
 		t = K1
-	case "P1":
-		t = P1
+	case "R1":
+		t = R1
 	case "WA":
 		t = WA
 	default:
@@ -67,7 +67,7 @@ func (s *Signature) UnmarshalABI(d *abi.Decoder) error {
 	}
 	s.Type = KeyType(t)
 	switch s.Type {
-	case K1, P1:
+	case K1, R1:
 		_, s.Data, err = d.ReadBytes(65)
 	case WA:
 		_, data, err := d.ReadBytes(65) // sig data
-- 
2.43.0


From 954540aab85d06df09fad6fd1227a11324d85985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:58 +0000
Subject: [PATCH 13/28] fix: key and signature text is accepted without the
 separator after the type

---
 pkg/chain/public_key.go | 3 +++
 pkg/chain/signature.go  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 4b40fd5..981c5e5 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -27,6 +27,9 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 	}
 	if s[0:4] == "PUB_" {
 		// new format
+		if s[6] != '_' {
+			return nil, errors.New("invalid public key string")
+		}
 		var t KeyType
 		switch s[4:6] {
 		case "K1":
diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index 5b17ff5..810b52a 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -22,7 +22,7 @@ func NewSignature(t KeyType, d []byte) *Signature {
 }
 
 func NewSignatureString(s string) (*Signature, error) {
-	if len(s) < 7 || s[:4] != "SIG_" {
+	if len(s) < 7 || s[:4] != "SIG_" || s[6] != '_' {
 		return nil, errors.New("invalid signature string")
 	}
 	var t KeyType
-- 
2.43.0


From 339a2d6e369a7c419e016a24a9fa88491e738793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:30 +0000
Subject: [PATCH 14/28] fix: resolving short ABI type names panics and optional
 extensions are not recognised

---
 pkg/chain/abi.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 874c421..5c0935e 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 )
@@ -587,19 +588,19 @@ func (r *resolver) resolve(name string) *resolvedType {
 	if r.types[name] != nil {
 		return r.types[name]
 	}
-	var isOptional bool
 	baseName := name
-	if name[len(name)-1] == '?' {
-		isOptional = true
-		baseName = name[:len(name)-1]
-	}
 	var isExtension bool
-	if baseName[len(baseName)-1] == '$' {
+	if strings.HasSuffix(baseName, "$") {
 		isExtension = true
 		baseName = baseName[:len(baseName)-1]
 	}
+	var isOptional bool
+	if strings.HasSuffix(baseName, "?") {
+		isOptional = true
+		baseName = baseName[:len(baseName)-1]
+	}
 	var isArray bool
-	if baseName[len(baseName)-2] == '[' && baseName[len(baseName)-1] == ']' {
+	if strings.HasSuffix(baseName, "[]") {
 		isArray = true
 		baseName = baseName[:len(baseName)-2]
 	}
-- 
2.43.0


From e914c95239e43db79ec375fe29fcd8749336d642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:32 +0000
Subject: [PATCH 15/28] fix: ABI structs without fields cannot be encoded or
 decoded

---
 pkg/chain/abi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 5c0935e..121a2b1 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -671,10 +671,10 @@ func (rt *resolvedType) allFields() []*struct {
 	if rt.fields == nil {
 		return nil
 	}
-	var rv []*struct {
+	rv := []*struct {
 		name string
 		typ  *resolvedType
-	}
+	}{}
 	var seen map[string]bool = make(map[string]bool)
 	var cur *resolvedType = rt
 	for {
-- 
2.43.0


From a27d553fabc965db223b9cb388f3a4989ab9de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:34 +0000
Subject: [PATCH 16/28] fix: ABI encoding and decoding disagree on bytes and
 eosio::name

---
 pkg/chain/abi.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 121a2b1..7e2125b 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -317,9 +317,12 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 				err = enc.WriteVarint(vv)
 			}
 		case "bytes":
-			var vv []byte
-			if vv, ok = v.([]byte); ok {
-				err = enc.WriteBytes(vv)
+			var vv Bytes
+			var vv2 []byte
+			if vv, ok = v.(Bytes); ok {
+				err = vv.MarshalABI(enc)
+			} else if vv2, ok = v.([]byte); ok {
+				err = Bytes(vv2).MarshalABI(enc)
 			}
 		// chain builtins
 		case "asset":
@@ -542,7 +545,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 			var rv ExtendedAsset
 			err = rv.UnmarshalABI(dec)
 			*v = rv
-		case "name":
+		case "name", "eosio::name":
 			var rv Name
 			err = rv.UnmarshalABI(dec)
 			*v = rv
-- 
2.43.0


From ff95cfea2056a7fb62dac437c5d150d8195cb8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:36 +0000
Subject: [PATCH 17/28] fix: a decoded ABI struct without its extension fields
 cannot be encoded again

---
 pkg/chain/abi.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 7e2125b..d2337a1 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -190,8 +190,17 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		if !ok {
 			return fmt.Errorf("expected map, found %v", reflect.TypeOf(v))
 		}
+		omitted := false
 		for _, f := range fields {
-			if err = a.encodeType(enc, f.typ, vs[f.name]); err != nil {
+			fv := vs[f.name]
+			if fv == nil && f.typ.isExtension && (omitted || !f.typ.isOptional) {
+				omitted = true
+				continue
+			}
+			if omitted {
+				return fmt.Errorf("found %v after a missing extension", f.name)
+			}
+			if err = a.encodeType(enc, f.typ, fv); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 2eac9d31cda69276b31819bd21466a537f6729b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:03 +0000
Subject: [PATCH 18/28] fix: truncated extension fields are reported as
 missing, missing optional ones as errors

---
 pkg/abi/decode.go | 16 +++++++++++++---
 pkg/chain/abi.go  | 14 +++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 8896495..a761b37 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -14,8 +14,9 @@ import (
 type DecodeFunc func(dec *Decoder, v interface{}) (done bool, err error)
 
 type Decoder struct {
-	r  io.Reader
-	fn DecodeFunc
+	r   io.Reader
+	fn  DecodeFunc
+	pos int64
 }
 
 type Unmarshaler interface {
@@ -222,6 +223,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				}
 
 				tag := t.Tag.Get("eosio")
+				start := dec.pos
 				if tag == "optional" {
 					exists, err := dec.ReadBool()
 					if err != nil {
@@ -239,7 +241,8 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 					err = dec.Decode(vi)
 				}
 
-				if tag == "extension" && err == io.EOF {
+				// an extension can be missing but not cut short
+				if tag == "extension" && err == io.EOF && dec.pos == start {
 					// TODO: make sure extensions are only last field in a top-level struct
 					pv.Set(reflect.Zero(pv.Type()))
 					continue
@@ -331,6 +334,7 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	if n > maxPrealloc {
 		var buf bytes.Buffer
 		m, err := io.CopyN(&buf, dec.r, int64(n))
+		dec.pos += m
 		if m > 0 && err == io.EOF {
 			err = io.ErrUnexpectedEOF
 		}
@@ -338,12 +342,18 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	}
 	b = make([]byte, n)
 	an, err = io.ReadFull(dec.r, b)
+	dec.pos += int64(an)
 	if err != nil {
 		return an, b, err
 	}
 	return an, b, nil
 }
 
+// Number of bytes consumed from the reader so far.
+func (dec *Decoder) Offset() int64 {
+	return dec.pos
+}
+
 func (dec *Decoder) ReadByte() (byte, error) {
 	_, b, err := dec.ReadBytes(1)
 	if err != nil {
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index d2337a1..f2c21a7 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -414,6 +414,17 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 }
 
 func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+	start := dec.Offset()
+	err := a.decodeOuter(dec, t, v)
+	// an extension can be missing but not cut short
+	if err == io.EOF && t.isExtension && dec.Offset() == start {
+		*v = nil
+		return nil
+	}
+	return err
+}
+
+func (a Abi) decodeOuter(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
 	var err error
 	if t.isOptional {
 		var exists bool
@@ -440,9 +451,6 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 	} else {
 		err = a.decodeInner(dec, t, v)
 	}
-	if err == io.EOF && t.isExtension {
-		return nil
-	}
 	return err
 }
 
-- 
2.43.0


From 79adc34fcd23c8ed9c8f1c3de827cb45d08f6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:33 +0000
Subject: [PATCH 19/28] fix: decoding nested values of a recursive type
 overflows the stack

---
 pkg/abi/decode.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index a761b37..cfe670a 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -17,8 +17,13 @@ type Decoder struct {
 	r   io.Reader
 	fn  DecodeFunc
 	pos int64
+
+	depth int
 }
 
+// Maximum nesting of values, protects against stack exhaustion when decoding recursive types.
+const maxDepth = 1000
+
 type Unmarshaler interface {
 	UnmarshalABI(*Decoder) error
 }
@@ -30,6 +35,16 @@ func NewDecoder(r io.Reader, fn DecodeFunc) *Decoder {
 
 // Decode into given value.
 func (dec *Decoder) Decode(v interface{}) error {
+	if dec.depth >= maxDepth {
+		return errors.New("abi: maximum nesting depth exceeded")
+	}
+	dec.depth++
+	err := dec.decode(v)
+	dec.depth--
+	return err
+}
+
+func (dec *Decoder) decode(v interface{}) error {
 	var err error
 	// fast path decoding for custom types
 	done, err := dec.fn(dec, v)
-- 
2.43.0


From c4337e8d650a4ac135bb43c00405b7427e304852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:35 +0000
Subject: [PATCH 20/28] fix: recursive ABI type definitions overflow the stack

---
 pkg/chain/abi.go | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index f2c21a7..a39b86f 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -1,6 +1,7 @@
 package chain
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"reflect"
@@ -138,7 +139,7 @@ func (a Abi) Decode(r io.Reader, name string) (interface{}, error) {
 	t := res.resolve(name)
 	dec := NewDecoder(r)
 	var rv interface{}
-	err := a.decodeType(dec, t, &rv)
+	err := a.decodeType(dec, t, &rv, 0)
 	return rv, err
 }
 
@@ -146,10 +147,16 @@ func (a Abi) Encode(w io.Writer, name string, v interface{}) error {
 	res := resolver{&a, make(map[string]*resolvedType)}
 	t := res.resolve(name)
 	enc := NewEncoder(w)
-	return a.encodeType(enc, t, v)
+	return a.encodeType(enc, t, v, 0)
 }
 
-func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error {
+// maximum nesting of types, protects against stack exhaustion with recursive type definitions
+const maxAbiDepth = 1000
+
+func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}, depth int) error {
+	if depth > maxAbiDepth {
+		return errors.New("maximum type nesting depth exceeded")
+	}
 	var err error
 	exists := v != nil
 	if t.isOptional {
@@ -170,21 +177,21 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			return err
 		}
 		for _, e := range va {
-			err = a.encodeInner(enc, t, e)
+			err = a.encodeInner(enc, t, e, depth)
 			if err != nil {
 				return err
 			}
 		}
 	} else {
-		err = a.encodeInner(enc, t, v)
+		err = a.encodeInner(enc, t, v, depth)
 	}
 	return err
 }
 
-func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error {
+func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}, depth int) error {
 	var err error
 	if ref := t.ref; ref != nil {
-		return a.encodeType(enc, ref, v)
+		return a.encodeType(enc, ref, v, depth+1)
 	} else if fields := t.allFields(); fields != nil {
 		vs, ok := v.(map[string]interface{})
 		if !ok {
@@ -200,7 +207,7 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			if omitted {
 				return fmt.Errorf("found %v after a missing extension", f.name)
 			}
-			if err = a.encodeType(enc, f.typ, fv); err != nil {
+			if err = a.encodeType(enc, f.typ, fv, depth+1); err != nil {
 				return err
 			}
 		}
@@ -231,7 +238,7 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		}
 		err = enc.WriteVaruint(uint(ti))
 		if err == nil {
-			err = a.encodeType(enc, tv, va[1])
+			err = a.encodeType(enc, tv, va[1], depth+1)
 		}
 	} else {
 		var ok bool
@@ -413,9 +420,12 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 	return err
 }
 
-func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}, depth int) error {
+	if depth > maxAbiDepth {
+		return errors.New("maximum type nesting depth exceeded")
+	}
 	start := dec.Offset()
-	err := a.decodeOuter(dec, t, v)
+	err := a.decodeOuter(dec, t, v, depth)
 	// an extension can be missing but not cut short
 	if err == io.EOF && t.isExtension && dec.Offset() == start {
 		*v = nil
@@ -424,7 +434,7 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 	return err
 }
 
-func (a Abi) decodeOuter(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeOuter(dec *abi.Decoder, t *resolvedType, v *interface{}, depth int) error {
 	var err error
 	if t.isOptional {
 		var exists bool
@@ -440,7 +450,7 @@ func (a Abi) decodeOuter(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 			va := []interface{}{} // not sized from l, which may exceed what the reader holds
 			for i := 0; i < int(l); i++ {
 				var e interface{}
-				err = a.decodeInner(dec, t, &e)
+				err = a.decodeInner(dec, t, &e, depth)
 				if err != nil {
 					return err // can't recover from this
 				}
@@ -449,21 +459,21 @@ func (a Abi) decodeOuter(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 			*v = va
 		}
 	} else {
-		err = a.decodeInner(dec, t, v)
+		err = a.decodeInner(dec, t, v, depth)
 	}
 	return err
 }
 
-func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}, depth int) error {
 	var err error
 
 	if ref := t.ref; ref != nil {
-		return a.decodeType(dec, ref, v)
+		return a.decodeType(dec, ref, v, depth+1)
 	} else if fields := t.allFields(); fields != nil {
 		vs := make(map[string]interface{})
 		for _, field := range fields {
 			var fv interface{}
-			err := a.decodeType(dec, field.typ, &fv)
+			err := a.decodeType(dec, field.typ, &fv, depth+1)
 			if err != nil {
 				return err
 			}
@@ -483,7 +493,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 		tv := (*variant)[idx]
 		var vv []interface{} = make([]interface{}, 2)
 		vv[0] = tv.name
-		err = a.decodeType(dec, tv, &vv[1])
+		err = a.decodeType(dec, tv, &vv[1], depth+1)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 833f1296629614f9c13b8a518eb736d68edeba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:14 +0000
Subject: [PATCH 21/28] fix: ABI arrays of empty elements allocate without
 limit

---
 pkg/chain/abi.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index a39b86f..a871efa 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -153,6 +153,9 @@ func (a Abi) Encode(w io.Writer, name string, v interface{}) error {
 // maximum nesting of types, protects against stack exhaustion with recursive type definitions
 const maxAbiDepth = 1000
 
+// maximum number of array elements that occupy no space in the encoded data
+const maxEmptyElements = 1024
+
 func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}, depth int) error {
 	if depth > maxAbiDepth {
 		return errors.New("maximum type nesting depth exceeded")
@@ -448,7 +451,11 @@ func (a Abi) decodeOuter(dec *abi.Decoder, t *resolvedType, v *interface{}, dept
 		l, err = dec.ReadVaruint()
 		if err == nil {
 			va := []interface{}{} // not sized from l, which may exceed what the reader holds
+			start := dec.Offset()
 			for i := 0; i < int(l); i++ {
+				if int64(i)-maxEmptyElements > dec.Offset()-start {
+					return errors.New("too many empty array elements")
+				}
 				var e interface{}
 				err = a.decodeInner(dec, t, &e, depth)
 				if err != nil {
-- 
2.43.0


From cb862486f64ce49ec4027b0f7153df90d06551bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:16 +0000
Subject: [PATCH 22/28] fix: formatting decoded assets divides by zero or
 garbles the smallest amount

---
 pkg/chain/asset.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pkg/chain/asset.go b/pkg/chain/asset.go
index 5592188..7eb4250 100644
--- a/pkg/chain/asset.go
+++ b/pkg/chain/asset.go
@@ -2,7 +2,6 @@ package chain
 
 import (
 	"errors"
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -82,21 +81,20 @@ func A(s string) *Asset {
 // String representation of asset, e.g. "1.0000 EOS"
 func (a *Asset) String() string {
 	s := ""
+	v := uint64(a.Value)
 	if a.Value < 0 {
 		s = "-"
-	}
-	v := int(a.Value)
-	if v < 0 {
 		v = -v
 	}
-	s += fmt.Sprint(v / a.Symbol.Precision())
-	if a.Symbol.Decimals() > 0 {
-		f := v % a.Symbol.Precision()
-		fs := strconv.Itoa(f)
-		for len(fs) < a.Symbol.Decimals() {
-			fs = "0" + fs
-		}
-		s += "." + fs
+	// split the digits instead of dividing, 10^decimals may not fit an integer
+	digits := strconv.FormatUint(v, 10)
+	decimals := a.Symbol.Decimals()
+	for len(digits) <= decimals {
+		digits = "0" + digits
+	}
+	s += digits[:len(digits)-decimals]
+	if decimals > 0 {
+		s += "." + digits[len(digits)-decimals:]
 	}
 	return s + " " + a.Symbol.Name()
 }
-- 
2.43.0


From 697c4dccaf7de9b7af67578c55deb18184f8a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:18 +0000
Subject: [PATCH 23/28] fix: int128 values outside of the 128-bit signed range
 are accepted and garbled

---
 pkg/chain/numbers.go | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index 921de8e..c16f6ff 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -43,31 +43,19 @@ func NewUint128(i *big.Int) Uint128 {
 	}
 }
 
+var (
+	maxUint128 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1))
+	maxInt128  = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 127), big.NewInt(1))
+	minInt128  = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 127))
+)
+
 // Create new Int128 from big.Int, panics if big.Int is too large.
 func NewInt128(i *big.Int) Int128 {
-	var b []byte
-	if i.BitLen() > 128 {
-		panic("int128 only supports bitlen <= 128")
-	}
-	switch i.Sign() {
-	case 0:
-		return Int128{0, 0}
-	case 1:
-		b = i.Bytes()
-		for len(b) < 16 {
-			b = append([]byte{0}, b...)
-		}
-	case -1:
-		length := uint(i.BitLen()/8+1) * 8
-		b = new(big.Int).Add(i, new(big.Int).Lsh(big.NewInt(1), length)).Bytes()
-		for len(b) < 16 {
-			b = append([]byte{0xff}, b...)
-		}
-	}
-	return Int128{
-		binary.BigEndian.Uint64(b[8:]),
-		binary.BigEndian.Uint64(b[:8]),
+	if i.Cmp(minInt128) < 0 || i.Cmp(maxInt128) > 0 {
+		panic("int128 out of range")
 	}
+	// two's complement
+	return Int128(NewUint128(new(big.Int).And(i, maxUint128)))
 }
 
 func NewUint128FromString(s string) (Uint128, error) {
@@ -80,7 +68,7 @@ func NewUint128FromString(s string) (Uint128, error) {
 
 func NewInt128FromString(s string) (Int128, error) {
 	i, ok := (&big.Int{}).SetString(s, 10)
-	if !ok || i.BitLen() > 128 {
+	if !ok || i.Cmp(minInt128) < 0 || i.Cmp(maxInt128) > 0 {
 		return Int128{}, errors.New("invalid signed integer")
 	}
 	return NewInt128(i), nil
-- 
2.43.0


From eee9896b32b381bee4dfbdba9ae5cc44b89ba4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:20 +0000
Subject: [PATCH 24/28] fix: times outside of the range of the type wrap around
 when parsed

---
 pkg/chain/time.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/chain/time.go b/pkg/chain/time.go
index 4a012a1..1f14c15 100644
--- a/pkg/chain/time.go
+++ b/pkg/chain/time.go
@@ -1,6 +1,8 @@
 package chain
 
 import (
+	"errors"
+	"math"
 	"time"
 
 	"github.com/greymass/go-eosio/pkg/abi"
@@ -51,6 +53,9 @@ func NewTimePointSecFromString(s string) (TimePointSec, error) {
 	if err != nil {
 		return 0, err
 	}
+	if u := t.Unix(); u < 0 || u > math.MaxUint32 {
+		return 0, errors.New("time point out of range")
+	}
 	return NewTimePointSec(t), nil
 }
 
@@ -62,6 +67,9 @@ func NewBlockTimestampFromString(s string) (BlockTimestamp, error) {
 	if err != nil {
 		return 0, err
 	}
+	if !NewBlockTimestamp(t).Time().Equal(t.Round(time.Millisecond * 500)) {
+		return 0, errors.New("block timestamp out of range")
+	}
 	return NewBlockTimestamp(t), nil
 }
 
-- 
2.43.0


From aae13bc862c91e88bfb952cdeb0e3dce06157c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:55 +0000
Subject: [PATCH 25/28] fix: encoding the same map twice yields different bytes

---
 pkg/abi/encode.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 353d372..44ad5a4 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -1,11 +1,13 @@
 package abi
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
 	"math"
 	"reflect"
+	"sort"
 )
 
 // Fast-path decoding function can be implemented to handle additional types without reflection.
@@ -131,11 +133,27 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 		if err != nil {
 			return err
 		}
+		// map iteration order is random, sort entries by their packed key
+		type entry struct {
+			key   []byte
+			value reflect.Value
+		}
+		entries := make([]entry, 0, l)
 		for _, key := range v.MapKeys() {
-			if err := enc.Encode(key.Interface()); err != nil {
+			var buf bytes.Buffer
+			if err := NewEncoder(&buf, enc.fn).Encode(key.Interface()); err != nil {
+				return err
+			}
+			entries = append(entries, entry{buf.Bytes(), v.MapIndex(key)})
+		}
+		sort.Slice(entries, func(i, j int) bool {
+			return bytes.Compare(entries[i].key, entries[j].key) < 0
+		})
+		for _, e := range entries {
+			if err := enc.WriteBytes(e.key); err != nil {
 				return err
 			}
-			if err := enc.Encode(v.MapIndex(key).Interface()); err != nil {
+			if err := enc.Encode(e.value.Interface()); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 0d2cb70ebf816832aa9912711fa31f53cfcde8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:57 +0000
Subject: [PATCH 26/28] fix: variant fields are encoded without their index

---
 pkg/abi/encode.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 44ad5a4..863bf2e 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -78,6 +78,37 @@ func (enc *Encoder) Encode(v interface{}) error {
 	return err
 }
 
+// Encode variant, which must be a struct with all pointer fields of which exactly one is set.
+func (enc *Encoder) EncodeVariant(v interface{}) error {
+	val := reflect.ValueOf(v)
+	for val.Kind() == reflect.Ptr && !val.IsNil() {
+		val = val.Elem()
+	}
+	if val.Kind() != reflect.Struct {
+		return errors.New("eosio encoder: invalid variant, expected struct")
+	}
+	idx := -1
+	for i := 0; i < val.NumField(); i++ {
+		if val.Field(i).Kind() != reflect.Ptr {
+			return errors.New("eosio encoder: invalid variant, expected field pointer")
+		}
+		if val.Field(i).IsNil() {
+			continue
+		}
+		if idx != -1 {
+			return errors.New("eosio encoder: more than one variant field set")
+		}
+		idx = i
+	}
+	if idx < 0 || idx > math.MaxUint8 {
+		return errors.New("eosio encoder: no variant field set")
+	}
+	if err := enc.WriteByte(byte(idx)); err != nil {
+		return err
+	}
+	return enc.Encode(val.Field(idx).Interface())
+}
+
 func (enc *Encoder) EncodeValue(v reflect.Value) error {
 	// check if value conforms to Marshaler
 	if v.CanInterface() {
@@ -122,7 +153,12 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 					continue
 				}
 			}
-			err := enc.Encode(v.Field(i).Interface())
+			var err error
+			if tag == "variant" {
+				err = enc.EncodeVariant(v.Field(i).Interface())
+			} else {
+				err = enc.Encode(v.Field(i).Interface())
+			}
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From ff10381bc4fbfa0129e04019c58f40b959b9e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:38 +0000
Subject: [PATCH 27/28] fix: report values that reflection cannot reach instead
 of panicking

Encoding or decoding nil, or a struct with an unexported field, panicked inside
package reflect. Blank fields are skipped when encoding as they are when decoding.
---
 pkg/abi/decode.go | 7 +++++--
 pkg/abi/encode.go | 9 +++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index cfe670a..f5c6343 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -102,7 +102,7 @@ func (dec *Decoder) decode(v interface{}) error {
 	default:
 		val := reflect.ValueOf(v)
 		if val.Kind() != reflect.Ptr || val.IsNil() {
-			return fmt.Errorf("abi: invalid type, unable to decode into %s", val.Type())
+			return fmt.Errorf("abi: invalid type, unable to decode into %T", v)
 		}
 		err = dec.DecodeValue(val.Elem())
 	}
@@ -114,7 +114,7 @@ func (dec *Decoder) decode(v interface{}) error {
 func (dec *Decoder) DecodeVariant(v interface{}) error {
 	val := reflect.ValueOf(v)
 	if val.Kind() != reflect.Ptr || val.IsNil() {
-		return fmt.Errorf("abi: invalid variant type, unable to decode into %s", val.Type())
+		return fmt.Errorf("abi: invalid variant type, unable to decode into %T", v)
 	}
 	// read variant index
 	vIdx, err := dec.ReadByte()
@@ -226,6 +226,9 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 		for i := 0; i < l; i++ {
 			if pv := pv.Field(i); pv.CanSet() || t.Field(i).Name != "_" {
 				t := t.Field(i)
+				if !pv.CanSet() {
+					return fmt.Errorf("abi: unable to decode into unexported field %s", t.Name)
+				}
 
 				var vi interface{}
 				if pv.Kind() == reflect.Ptr {
diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 863bf2e..a844265 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -110,6 +110,9 @@ func (enc *Encoder) EncodeVariant(v interface{}) error {
 }
 
 func (enc *Encoder) EncodeValue(v reflect.Value) error {
+	if !v.IsValid() {
+		return errors.New("eosio encoder: unable to encode nil")
+	}
 	// check if value conforms to Marshaler
 	if v.CanInterface() {
 		if m, ok := v.Interface().(Marshaler); ok {
@@ -143,6 +146,12 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 		}
 	case reflect.Struct:
 		for i := 0; i < v.NumField(); i++ {
+			if !v.Field(i).CanInterface() {
+				if v.Type().Field(i).Name == "_" {
+					continue
+				}
+				return errors.New("eosio encoder: unexported field in " + v.Type().String())
+			}
 			tag := v.Type().Field(i).Tag.Get("eosio")
 			if tag == "optional" {
 				exists := !v.Field(i).IsZero()
-- 
2.43.0


From c7b1a59991ac0d42dfed13c542bc75f47906f9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:08 +0000
Subject: [PATCH 28/28] fix: a struct whose last extension is missing is
 reported as cut short

---
 pkg/abi/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index f5c6343..fee220f 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -263,6 +263,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				if tag == "extension" && err == io.EOF && dec.pos == start {
 					// TODO: make sure extensions are only last field in a top-level struct
 					pv.Set(reflect.Zero(pv.Type()))
+					err = nil
 					continue
 				}
 
-- 
2.43.0

