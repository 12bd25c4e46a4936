From 7084c5c0d14ba2ee1bc3666b14c57bf65f84bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 01/41] fix: keep the first write error in the packer

The packer's methods had value receivers, so an error of the destination was
stored in a copy and lost: Write and WriteStream reported success.
---
 msgpack.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 1af483e..041da6d 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -191,31 +191,31 @@ func MessagePacker(w io.Writer) *messagePacker {
 	return &messagePacker{w: w}
 }
 
-func (p messagePacker) PackNil()  {
+func (p *messagePacker) PackNil()  {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteNil())
 	}
 }
 
-func (p messagePacker) PackBool(val bool) {
+func (p *messagePacker) PackBool(val bool) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBool(val))
 	}
 }
 
-func (p messagePacker) PackLong(val int64) {
+func (p *messagePacker) PackLong(val int64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteLong(val))
 	}
 }
 
-func (p messagePacker) PackDouble(val float64) {
+func (p *messagePacker) PackDouble(val float64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteDouble(val))
 	}
 }
 
-func (p messagePacker) PackStr(str string) {
+func (p *messagePacker) PackStr(str string) {
 	b := []byte(str)
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteStrHeader(len(b)))
@@ -225,7 +225,7 @@ func (p messagePacker) PackStr(str string) {
 	}
 }
 
-func (p messagePacker) PackBin(b []byte) {
+func (p *messagePacker) PackBin(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBinHeader(len(b)))
 	}
@@ -243,7 +243,7 @@ func (p *messagePacker) PackExt(xtag Ext, data []byte) {
 	}
 }
 
-func (p messagePacker) PackList(size int) {
+func (p *messagePacker) PackList(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -252,7 +252,7 @@ func (p messagePacker) PackList(size int) {
 	}
 }
 
-func (p messagePacker) PackMap(size int) {
+func (p *messagePacker) PackMap(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -261,13 +261,13 @@ func (p messagePacker) PackMap(size int) {
 	}
 }
 
-func (p messagePacker) PackRaw(b []byte) {
+func (p *messagePacker) PackRaw(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(b)
 	}
 }
 
-func (p messagePacker) Error() error {
+func (p *messagePacker) Error() error {
 	return p.err
 }
 
-- 
2.43.0


From abfbaeac5321ded7fa68c6a95739b8d9da9d2b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 02/41] fix: use the 32-bit array header for lists above 65535
 elements

---
 msgpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 041da6d..b8a6404 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -434,7 +434,7 @@ func (p messageWriter) WriteArrayHeader(len int) []byte {
 		binary.BigEndian.PutUint16(p.buf[1:3], uint16(len))
 		return p.buf[:3]
 	default:
-		p.buf[0] = mpArray16
+		p.buf[0] = mpArray32
 		binary.BigEndian.PutUint32(p.buf[1:5], uint32(len))
 		return p.buf[:5]
 	}
-- 
2.43.0


From 042b97358c4733550e91a034bf7fe36c7e6bfd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 03/41] fix: accept readers that are not byte readers in
 MessageReader

---
 msgpack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index b8a6404..3f8ac5a 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -693,7 +693,8 @@ type messageIOUnpacker struct {
 }
 
 func MessageReader(r io.Reader) *messageIOUnpacker {
-	return &messageIOUnpacker{r: r, br: r.(io.ByteReader)}
+	br, _ := r.(io.ByteReader)
+	return &messageIOUnpacker{r: r, br: br}
 }
 
 func (p *messageIOUnpacker) Next() (Format, []byte) {
-- 
2.43.0


From 8dd0ffe5a1a22a73ca8433461622dfe9637d2e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 04/41] fix: read from sources that split the data and report
 their failures

The reader took one short Read for the end of the input, returned io.EOF next
to complete data, and reported every failure of the source as a clean io.EOF.
---
 msgpack.go | 35 +++++++++++++++++++++++------------
 unpack.go  | 12 ++++++++++--
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 3f8ac5a..0bf43c1 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -690,6 +690,7 @@ type messageIOUnpacker struct {
 	buf 	[defReadBufSize]byte
 	r       io.Reader
 	br      io.ByteReader  // can be null
+	err     error          // why the last Next failed, nil at the end of input
 }
 
 func MessageReader(r io.Reader) *messageIOUnpacker {
@@ -702,22 +703,20 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	if p.br != nil {
 		code, err := p.br.ReadByte()
 		if err != nil {
-			return EOF, nil
+			return p.failed(EOF, err)
 		}
 		p.buf[0] = code
 	}  else {
-		n, _ := p.r.Read(p.buf[:1])
-		if n == 0 {
-			return EOF, nil
+		if _, err := io.ReadFull(p.r, p.buf[:1]); err != nil {
+			return p.failed(EOF, err)
 		}
 	}
 
 	format, len := nextFormat(p.buf[0])
 	n := 1 + len
 
-	m, _ := p.r.Read(p.buf[1:n])
-	if m != len {
-		return UnexpectedEOF, nil
+	if _, err := io.ReadFull(p.r, p.buf[1:n]); err != nil {
+		return p.failed(UnexpectedEOF, err)
 	}
 
 	return format, p.buf[0:n]
@@ -725,15 +724,27 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
 	b = make([]byte, n)
-	m, err := p.r.Read(b)
-	if m != n {
-		if err == nil {
-			err = io.ErrUnexpectedEOF
-		}
+	_, err = io.ReadFull(p.r, b)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
 	}
 	return b, err
 }
 
+func (p *messageIOUnpacker) failed(format Format, err error) (Format, []byte) {
+	if err == io.EOF || err == io.ErrUnexpectedEOF {
+		p.err = nil
+	} else {
+		p.err = err
+	}
+	return format, nil
+}
+
+// Error is the failure of the source that made Next report EOF or UnexpectedEOF, nil if the input really ended
+func (p *messageIOUnpacker) Error() error {
+	return p.err
+}
+
 func nextFormat(code byte) (Format, int) {
 
 	switch {
diff --git a/unpack.go b/unpack.go
index 10ad764..8bd4cd1 100644
--- a/unpack.go
+++ b/unpack.go
@@ -19,9 +19,9 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 
 	switch format {
 	case EOF:
-		return nil, io.EOF
+		return nil, inputError(unpacker, io.EOF)
 	case UnexpectedEOF:
-		return nil, io.ErrUnexpectedEOF
+		return nil, inputError(unpacker, io.ErrUnexpectedEOF)
 	case NilToken:
 		return Null, nil
 	case BoolToken:
@@ -73,6 +73,14 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 
 }
 
+// why there is no next token: the failure of the source if it failed, otherwise the given end of input
+func inputError(unpacker Unpacker, eof error) error {
+	if source, ok := unpacker.(interface{ Error() error }); ok && source.Error() != nil {
+		return source.Error()
+	}
+	return eof
+}
+
 func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
-- 
2.43.0


From 9e8add044e95d13a053d94a29ead6b17c4afec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 05/41] fix: report input that ends inside a container as
 unexpected EOF

A list or map cut between two elements was reported as io.EOF, the same as a
clean end, so a truncated stream looked complete.
---
 unpack.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/unpack.go b/unpack.go
index 8bd4cd1..359543b 100644
--- a/unpack.go
+++ b/unpack.go
@@ -81,6 +81,15 @@ func inputError(unpacker Unpacker, eof error) error {
 	return eof
 }
 
+// parses an element of a container, before which the input must not end
+func doParseInner(unpacker Unpacker, parser Parser) (Value, error) {
+	value, err := doParse(unpacker, parser)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return value, err
+}
+
 func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
@@ -91,7 +100,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	}
 	list := make([]Value, cnt)
 	for i := 0; i < cnt; i++ {
-		el, err := doParse(unpacker, parser)
+		el, err := doParseInner(unpacker, parser)
 		if err != nil {
 			return nil, err
 		}
@@ -116,11 +125,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParse(unpacker, parser)
+		key, err := doParseInner(unpacker, parser)
 		if err != nil {
 			return nil, err
 		}
-		value, err := doParse(unpacker, parser)
+		value, err := doParseInner(unpacker, parser)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 571352316521fb57fd6061828b46060213415d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 06/41] fix: decode maps that mix integer and other keys

Such maps made the parser dereference a nil item and panic.
---
 unpack.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/unpack.go b/unpack.go
index 359543b..88a29b5 100644
--- a/unpack.go
+++ b/unpack.go
@@ -165,13 +165,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				mayBeList = false
 				sortedMapEntries = make([]MapEntry, cnt)
 				for j := 0; j < i; j++ {
-					item := sparseListItems[i]
-					sortedMapEntries[i] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+					item := sparseListItems[j]
+					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
 				}
 				k := key.String()
-				if i > 0 && prevMapKey > k {
-					sorted = false
-				}
+				sorted = false  // keys so far were in order of numbers, not of strings
 				sortedMapEntries[i] = ImmutableEntry(k, value)
 				prevMapKey = k
 			}
-- 
2.43.0


From 1bcb150af18bc1b5a67a517b20e82c109460ce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 07/41] fix: do not allocate memory for elements the input only
 claims to have

A five byte header claiming 2^32 elements or bytes made the parser allocate
tens of gigabytes up front.
---
 msgpack.go | 13 +++++++++++--
 unpack.go  | 31 +++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 0bf43c1..3cb86fc 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -7,6 +7,7 @@
 package value
 
 import (
+	"bytes"
 	"io"
 	"math"
 	"encoding/binary"
@@ -78,6 +79,7 @@ const (
 
 	defWriteBufSize 	= 16
 	defReadBufSize 		= 24
+	maxInitialRead 		= 64 * 1024
 
 	mpCodeMin 			= mpNil
 	mpCodeMax 			= mpMap32
@@ -723,8 +725,15 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 }
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
-	b = make([]byte, n)
-	_, err = io.ReadFull(p.r, b)
+	if n <= maxInitialRead {
+		b = make([]byte, n)
+		_, err = io.ReadFull(p.r, b)
+	} else {
+		// a size is only a claim of the input, take memory as the data arrives
+		var data bytes.Buffer
+		_, err = io.CopyN(&data, p.r, int64(n))
+		b = data.Bytes()
+	}
 	if err == io.EOF {
 		err = io.ErrUnexpectedEOF
 	}
diff --git a/unpack.go b/unpack.go
index 88a29b5..1a2c50f 100644
--- a/unpack.go
+++ b/unpack.go
@@ -90,6 +90,16 @@ func doParseInner(unpacker Unpacker, parser Parser) (Value, error) {
 	return value, err
 }
 
+// a count is only a claim of the input, memory for more elements is taken as they arrive
+const maxInitialCap = 1024
+
+func initialCap(cnt int) int {
+	if cnt > maxInitialCap {
+		return maxInitialCap
+	}
+	return cnt
+}
+
 func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
@@ -98,13 +108,13 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	if cnt == 0 {
 		return EmptyImmutableList(), nil
 	}
-	list := make([]Value, cnt)
+	list := make([]Value, 0, initialCap(cnt))
 	for i := 0; i < cnt; i++ {
 		el, err := doParseInner(unpacker, parser)
 		if err != nil {
 			return nil, err
 		}
-		list[i] = el
+		list = append(list, el)
 	}
 	return ImmutableList(list), nil
 }
@@ -144,10 +154,10 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if key.Kind() == NUMBER {
 				// try to build sparse list
 				mayBeList = true
-				sparseListItems = make([]ListItem, cnt)
+				sparseListItems = make([]ListItem, 0, initialCap(cnt))
 			} else {
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
+				sortedMapEntries = make([]MapEntry, 0, initialCap(cnt))
 			}
 		}
 
@@ -158,19 +168,19 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				if i > 0 && prevListKey > k {
 					sorted = false
 				}
-				sparseListItems[i] = ImmutableItem(int(k), value)
+				sparseListItems = append(sparseListItems, ImmutableItem(int(k), value))
 				prevListKey = k
 			} else {
 				// not a list
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
+				sortedMapEntries = make([]MapEntry, 0, initialCap(cnt))
 				for j := 0; j < i; j++ {
 					item := sparseListItems[j]
-					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+					sortedMapEntries = append(sortedMapEntries, ImmutableEntry(strconv.Itoa(item.Key()), item.Value()))
 				}
 				k := key.String()
 				sorted = false  // keys so far were in order of numbers, not of strings
-				sortedMapEntries[i] = ImmutableEntry(k, value)
+				sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 				prevMapKey = k
 			}
 
@@ -179,14 +189,15 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if i > 0 && prevMapKey > k {
 				sorted = false
 			}
-			sortedMapEntries[i] = ImmutableEntry(k, value)
+			sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 			prevMapKey = k
 		}
 
 	}
 
 	if mayBeList {
-		return SparseList(sparseListItems, sorted), nil
+		n := len(sparseListItems)
+		return SparseList(sparseListItems[:n:n], sorted), nil
 	} else {
 		return ImmutableMap(sortedMapEntries, sorted), nil
 	}
-- 
2.43.0


From 8df7a5b47c135b7a36ce3b65880bb2a9d8f043c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 08/41] fix: copy the data of fixed-size extensions out of the
 token buffer

An unknown value read from a stream changed when the next token was read, and
one decoded with copying still aliased the input.
---
 unpack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 1a2c50f..b7985aa 100644
--- a/unpack.go
+++ b/unpack.go
@@ -32,7 +32,8 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 		return Double(parser.ParseDouble(header)), parser.Error()
 	case FixExtToken:
 		_, tagAndData := parser.ParseExt(header)
-		return doParseExt(tagAndData)
+		// header is only valid until the next token
+		return doParseExt(append([]byte(nil), tagAndData...))
 	case BinHeader:
 		size := parser.ParseBin(header)
 		if parser.Error() != nil {
-- 
2.43.0


From 40f8f520224b505e1a819451c0079950e0554122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 09/41] fix: reject unsigned integers that do not fit in a long

They silently decoded to unrelated negative numbers.
---
 msgpack.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 3cb86fc..80685e3 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -493,7 +493,12 @@ func (r *messageParser) ParseLong(b []byte) int64 {
 	case mpUint32:
 		return int64(binary.BigEndian.Uint32(b[1:]))
 	case mpUint64:
-		return int64(binary.BigEndian.Uint64(b[1:]))
+		val := binary.BigEndian.Uint64(b[1:])
+		if val > math.MaxInt64 {
+			r.err = errors.Errorf("long: value %v is out of range", val)
+			return 0
+		}
+		return int64(val)
 	case mpInt8:
 		return int64(int8(b[1]))
 	case mpInt16:
-- 
2.43.0


From fb28e094706fad3f43ae3e5503741ff40b672972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 10/41] fix: do not take fractional and big number keys for
 integer indexes

Maps with keys like 1.5 decoded to a sparse list indexed by the truncated key,
and struct fields were matched by it.
---
 struct.go |  2 +-
 unpack.go | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index 8629bc5..04362c4 100644
--- a/struct.go
+++ b/struct.go
@@ -248,7 +248,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 		if err != nil {
 			return errors.Errorf("fail to parse key on position %d, %v", i, err)
 		}
-		if key.Kind() != NUMBER {
+		if !isIndex(key) {
 			return errors.Errorf("expected int key, but got %s on position %d", key.Kind().String(), i)
 		}
 		tag := int(key.(Number).Long())
diff --git a/unpack.go b/unpack.go
index b7985aa..d76144b 100644
--- a/unpack.go
+++ b/unpack.go
@@ -120,6 +120,12 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	return ImmutableList(list), nil
 }
 
+// only integers are list indexes, converting any other number would alter it
+func isIndex(key Value) bool {
+	number, ok := key.(Number)
+	return ok && number.Type() == LONG
+}
+
 func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error) {
 	cnt := parser.ParseMap(header)
 	if parser.Error() != nil {
@@ -152,7 +158,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 
 		// first element
 		if i == 0 {
-			if key.Kind() == NUMBER {
+			if isIndex(key) {
 				// try to build sparse list
 				mayBeList = true
 				sparseListItems = make([]ListItem, 0, initialCap(cnt))
@@ -164,7 +170,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 
 		if mayBeList {
 
-			if key.Kind() == NUMBER {
+			if isIndex(key) {
 				k := key.(Number).Long()
 				if i > 0 && prevListKey > k {
 					sorted = false
-- 
2.43.0


From 5213133d5517da85c95224b4740bef32c72d5c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 11/41] fix: make Equal of nil and null symmetric

Equal(Null, nil) was true and Equal(nil, Null) false, so a list with absent
cells did not equal its own round trip.
---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 3a0a323..7a2613b 100644
--- a/utils.go
+++ b/utils.go
@@ -100,7 +100,7 @@ func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (V
 
 func Equal(left Value, right Value) bool {
 	if left == nil {
-		return right == nil
+		return right == nil || right.Kind() == NULL
 	}
 	return left.Equal(right)
 }
-- 
2.43.0


From a219118ac2c7c81368738251e2d520effea14d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 12/41] fix: compare sparse lists item by item in both
 directions

Comparing sparse lists of equal length but different item counts panicked or
ignored items, and dense against sparse depended on the order of operands.
---
 immutablelist.go | 3 +++
 solidlist.go     | 3 +++
 sparselist.go    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/immutablelist.go b/immutablelist.go
index a1f2c36..6c11917 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -116,6 +116,9 @@ func (t immutableListValue) Equal(val Value) bool {
 	if val == nil || val.Kind() != LIST {
 		return false
 	}
+	if sparse, ok := val.(sparseListValue); ok {
+		return sparse.Equal(t)
+	}
 	o := val.(List)
 	if t.Len() != o.Len() {
 		return false
diff --git a/solidlist.go b/solidlist.go
index c3ab6e1..cec015e 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -124,6 +124,9 @@ func (t solidListValue) Equal(val Value) bool {
 	if val == nil || val.Kind() != LIST {
 		return false
 	}
+	if sparse, ok := val.(sparseListValue); ok {
+		return sparse.Equal(t)
+	}
 	o := val.(List)
 	if t.Len() != o.Len() {
 		return false
diff --git a/sparselist.go b/sparselist.go
index 47719a2..4141c4a 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -172,6 +172,9 @@ func (t sparseListValue) Equal(val Value) bool {
 	}
 	// entries are sorted
 	other := o.Items()
+	if len(t) != len(other) {
+		return false
+	}
 	for i, item := range t {
 		if !item.Equal(other[i]) {
 			return false
-- 
2.43.0


From e1ca8a9aefd3653638f421f33a70f5dec00febcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 13/41] fix: compare text with raw strings by content

Text was compared with the base64 form of a raw string, unlike raw with text.
---
 string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 441535b..4812d02 100644
--- a/string.go
+++ b/string.go
@@ -85,7 +85,8 @@ func (s uft8String) Equal(val Value) bool {
 	if val == nil || val.Kind() != STRING {
 		return false
 	}
-	return string(s) == val.String()
+	o := val.(String)
+	return string(s) == o.Utf8()
 }
 
 func (s uft8String) Len() int {
-- 
2.43.0


From 6c3bc753de4ce8a3bddb4dd7eb9a03e247508718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 14/41] fix: compare numbers of different types in the wider of
 the two

The right operand was cut down to the type of the left one, so Long(1) equaled
Double(1.5) but not the other way round; an infinity did not equal itself and
comparing a big integer with one panicked.
---
 number.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/number.go b/number.go
index 858e894..2ddefdd 100644
--- a/number.go
+++ b/number.go
@@ -569,6 +569,9 @@ func (n longNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if other.Type() != LONG {
+		return other.Equal(n)
+	}
 	return n.Long() == other.Long()
 }
 
@@ -580,7 +583,8 @@ func (n doubleNumber) Equal(val Value) bool {
 	if n.IsNaN() || other.IsNaN() {
 		return false
 	}
-	return  math.Abs(n.Double() - other.Double()) < PrecisionLevel
+	left, right := n.Double(), other.Double()
+	return left == right || math.Abs(left - right) < PrecisionLevel
 }
 
 func (n bigIntNumber) Equal(val Value) bool {
@@ -588,6 +592,9 @@ func (n bigIntNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if other.Type() == DOUBLE || other.Type() == DECIMAL {
+		return other.Equal(n)
+	}
 	return n.Int.Cmp(other.BigInt()) == 0
 }
 
@@ -596,6 +603,9 @@ func (n decimalNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if other.Type() == DOUBLE {
+		return other.Equal(n)
+	}
 	return n.Decimal().Cmp(other.Decimal()) == 0
 }
 
-- 
2.43.0


From e0102107aedfbe9c88a4d1601fc6cc8a6c91b8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 15/41] fix: convert infinities to zero as big integers and
 decimals, like NaN

The conversions returned a nil big integer and panicked, and so did adding an
infinity to a big integer or decimal.
---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index 2ddefdd..72fb1f6 100644
--- a/number.go
+++ b/number.go
@@ -479,7 +479,7 @@ func (n longNumber) BigInt() *big.Int {
 
 func (n doubleNumber) BigInt() *big.Int {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return big.NewInt(0)
 	}
 	f := new(big.Float)
@@ -502,7 +502,7 @@ func (n longNumber) Decimal() decimal.Decimal {
 
 func (n doubleNumber) Decimal() decimal.Decimal {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return decimal.NewFromInt(0)
 	}
 	return decimal.NewFromFloat(d)
-- 
2.43.0


From ee722849ca9b983f853dc09d8c5509eb260b27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 16/41] fix: apply positive exponents when converting decimals
 to big integers

The coefficient alone was returned: 1e3 became 1.
---
 number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number.go b/number.go
index 72fb1f6..dc37987 100644
--- a/number.go
+++ b/number.go
@@ -493,7 +493,7 @@ func (n bigIntNumber) BigInt() *big.Int {
 }
 
 func (n decimalNumber) BigInt() *big.Int {
-	return decimal.Decimal(n).Floor().Coefficient()
+	return decimal.Decimal(n).Floor().BigInt()
 }
 
 func (n longNumber) Decimal() decimal.Decimal {
-- 
2.43.0


From 28d28c2e2bcedc150e60a83264b4ca5bf092f25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 17/41] fix: reject decimal exponents that do not fit in 32
 bits

ParseNumber panicked on exponents longer than four bytes and wrapped others.
---
 number.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index dc37987..22a9543 100644
--- a/number.go
+++ b/number.go
@@ -288,12 +288,18 @@ func parseExp(s string) (int32, error) {
 		return 0, err
 	}
 	var buf [4]byte
+	if len(bytes) > len(buf) {
+		return 0, strconv.ErrRange
+	}
 	copy(buf[len(buf)-len(bytes):], bytes)
-	val := int32(binary.BigEndian.Uint32(buf[:]))
+	val := int64(binary.BigEndian.Uint32(buf[:]))
 	if neg {
 		val = -val
 	}
-	return val, nil
+	if val < math.MinInt32 || val > math.MaxInt32 {
+		return 0, strconv.ErrRange
+	}
+	return int32(val), nil
 }
 
 func (n longNumber) Object() interface{} {
-- 
2.43.0


From 0ce0965bd2a1e4b2dc61a7ea378bf19cd3055e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 18/41] fix: return the unseal error for input shorter than a
 nonce

---
 utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.go b/utils.go
index 7a2613b..3b2f32f 100644
--- a/utils.go
+++ b/utils.go
@@ -89,6 +89,9 @@ func Seal(val Value, recipientPublicKey, senderPrivateKey *[32]byte) ([]byte, er
 var ErrUnseal = errors.New("unseal error")
 
 func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (Value, error) {
+	if len(encrypted) < 24 {
+		return nil, ErrUnseal
+	}
 	var decryptNonce [24]byte
 	copy(decryptNonce[:], encrypted[:24])
 	decrypted, ok := box.Open(nil, encrypted[24:], &decryptNonce, senderPublicKey, recipientPrivateKey)
-- 
2.43.0


From f8ad3648dcd225efd2ea9fc25443ae34922c1dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 19/41] fix: quote JSON strings and keys by the rules of JSON

Text was quoted as Go source, with escapes JSON does not have, and map keys
were not escaped at all.
---
 immutablemap.go |  4 +---
 sortedmap.go    |  4 +---
 string.go       | 14 +++++++++++---
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/immutablemap.go b/immutablemap.go
index eb65218..a204b59 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -132,9 +132,7 @@ func (t immutableMapValue) PrintJSON(out *strings.Builder) {
 		if i != 0 {
 			out.WriteRune(',')
 		}
-		out.WriteRune(jsonQuote)
-		out.WriteString(entry.Key())
-		out.WriteRune(jsonQuote)
+		out.WriteString(quoteJSON(entry.Key()))
 
 		out.WriteString(": ")
 		value := entry.Value()
diff --git a/sortedmap.go b/sortedmap.go
index 36733c2..c8d2c5e 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -133,9 +133,7 @@ func (t sortedMapValue) PrintJSON(out *strings.Builder) {
 		if i != 0 {
 			out.WriteRune(',')
 		}
-		out.WriteRune(jsonQuote)
-		out.WriteString(entry.Key())
-		out.WriteRune(jsonQuote)
+		out.WriteString(quoteJSON(entry.Key()))
 
 		out.WriteString(": ")
 		value := entry.Value()
diff --git a/string.go b/string.go
index 4812d02..6d7a664 100644
--- a/string.go
+++ b/string.go
@@ -9,9 +9,9 @@ package value
 import (
 	"bytes"
 	"encoding/base64"
+	"encoding/json"
 	"fmt"
 	"reflect"
-	"strconv"
 	"strings"
 )
 
@@ -67,11 +67,19 @@ func (s uft8String) Pack(p Packer) {
 }
 
 func (s uft8String) PrintJSON(out *strings.Builder) {
-	out.WriteString(strconv.Quote(string(s)))
+	out.WriteString(quoteJSON(string(s)))
 }
 
 func (s uft8String) MarshalJSON() ([]byte, error) {
-	return []byte(strconv.Quote(string(s))), nil
+	return []byte(quoteJSON(string(s))), nil
+}
+
+func quoteJSON(s string) string {
+	var out strings.Builder
+	encoder := json.NewEncoder(&out)
+	encoder.SetEscapeHTML(false)
+	encoder.Encode(s)
+	return strings.TrimSuffix(out.String(), "\n")
 }
 
 func (s uft8String) MarshalBinary() ([]byte, error) {
-- 
2.43.0


From d3c4075f1f4e527b10a80a77d10b166dc7db2826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 20/41] fix: render infinities as null in JSON, which has no
 literal for them

---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index 22a9543..958caf8 100644
--- a/number.go
+++ b/number.go
@@ -355,7 +355,7 @@ func (n longNumber) PrintJSON(out *strings.Builder) {
 
 func (n doubleNumber) PrintJSON(out *strings.Builder) {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		out.WriteString("null")
 	} else {
 		out.WriteString(strconv.FormatFloat(d, 'f', -1, 64))
@@ -380,7 +380,7 @@ func (n longNumber) MarshalJSON() ([]byte, error) {
 
 func (n doubleNumber) MarshalJSON() ([]byte, error) {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return []byte("null"), nil
 	} else {
 		return []byte(strconv.FormatFloat(d, 'f', -1, 64)), nil
-- 
2.43.0


From 6075a9e74b50a6dbb9959a8f4fbd1421b5a1a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 21/41] fix: treat absent list cells and nil map values as null
 in typed lookups

GetBoolAt and its siblings dereferenced the nil value and panicked.
---
 immutablelist.go | 10 +++++-----
 immutablemap.go  | 10 +++++-----
 solidlist.go     | 10 +++++-----
 sortedmap.go     | 10 +++++-----
 sparselist.go    | 10 +++++-----
 5 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index 6c11917..3cf36eb 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -140,7 +140,7 @@ func (t immutableListValue) GetAt(i int) Value {
 
 func (t immutableListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -151,7 +151,7 @@ func (t immutableListValue) GetBoolAt(index int) Bool {
 
 func (t immutableListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -162,7 +162,7 @@ func (t immutableListValue) GetNumberAt(index int) Number {
 
 func (t immutableListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -173,7 +173,7 @@ func (t immutableListValue) GetStringAt(index int) String {
 
 func (t immutableListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -186,7 +186,7 @@ func (t immutableListValue) GetListAt(index int) List {
 
 func (t immutableListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
diff --git a/immutablemap.go b/immutablemap.go
index a204b59..0436e58 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -192,7 +192,7 @@ func (t immutableMapValue) Get(key string) Value {
 
 func (t immutableMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -203,7 +203,7 @@ func (t immutableMapValue) GetBool(key string) Bool {
 
 func (t immutableMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -214,7 +214,7 @@ func (t immutableMapValue) GetNumber(key string) Number {
 
 func (t immutableMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -225,7 +225,7 @@ func (t immutableMapValue) GetString(key string) String {
 
 func (t immutableMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -238,7 +238,7 @@ func (t immutableMapValue) GetList(key string) List {
 
 func (t immutableMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
diff --git a/solidlist.go b/solidlist.go
index cec015e..b84cc94 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -148,7 +148,7 @@ func (t solidListValue) GetAt(i int) Value {
 
 func (t solidListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -159,7 +159,7 @@ func (t solidListValue) GetBoolAt(index int) Bool {
 
 func (t solidListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -170,7 +170,7 @@ func (t solidListValue) GetNumberAt(index int) Number {
 
 func (t solidListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -181,7 +181,7 @@ func (t solidListValue) GetStringAt(index int) String {
 
 func (t solidListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -194,7 +194,7 @@ func (t solidListValue) GetListAt(index int) List {
 
 func (t solidListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/sortedmap.go b/sortedmap.go
index c8d2c5e..1b1c722 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -193,7 +193,7 @@ func (t sortedMapValue) Get(key string) Value {
 
 func (t sortedMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -204,7 +204,7 @@ func (t sortedMapValue) GetBool(key string) Bool {
 
 func (t sortedMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -215,7 +215,7 @@ func (t sortedMapValue) GetNumber(key string) Number {
 
 func (t sortedMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -226,7 +226,7 @@ func (t sortedMapValue) GetString(key string) String {
 
 func (t sortedMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -239,7 +239,7 @@ func (t sortedMapValue) GetList(key string) List {
 
 func (t sortedMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/sparselist.go b/sparselist.go
index 4141c4a..424619d 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -199,7 +199,7 @@ func (t sparseListValue) GetAt(key int) Value {
 
 func (t sparseListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -210,7 +210,7 @@ func (t sparseListValue) GetBoolAt(index int) Bool {
 
 func (t sparseListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -221,7 +221,7 @@ func (t sparseListValue) GetNumberAt(index int) Number {
 
 func (t sparseListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -232,7 +232,7 @@ func (t sparseListValue) GetStringAt(index int) String {
 
 func (t sparseListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -245,7 +245,7 @@ func (t sparseListValue) GetListAt(index int) List {
 
 func (t sparseListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
-- 
2.43.0


From cac9358047014c0750e998efcff0188e9a3635e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 22/41] fix: keep the values of repeated struct fields when
 unpacking

The element was appended before it was set, leaving nil in the slice.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 04362c4..5266c70 100644
--- a/struct.go
+++ b/struct.go
@@ -310,7 +310,6 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
-						sliceValue = reflect.Append(sliceValue, elemValue)
 						val, err := doParse(unpacker, parser)
 						if err != nil {
 							return errors.Errorf("fail to parse value %v", err)
@@ -319,6 +318,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						if err != nil {
 							return errors.Errorf("fail to set value %v", err)
 						}
+						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
 					fieldValue.Set(sliceValue)
 				}
-- 
2.43.0


From ac3ccdedebff71fc69fee896f7159d1837a27708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 23/41] fix: do not allocate struct slices for elements the
 input only claims

The list header alone decided the size of a new array type and its storage,
up to 2^32 elements, which panics or exhausts memory.
---
 struct.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index 5266c70..76ee58f 100644
--- a/struct.go
+++ b/struct.go
@@ -266,11 +266,10 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						return errors.Errorf("expected ListHeader for array field, but got %v", listFormat)
 					}
 					listCnt := parser.ParseList(listHeader)
-					arrayType := reflect.ArrayOf(listCnt, field.FieldType.Elem())
-					arrayValue := reflect.New(arrayType).Elem()
+					sliceValue := reflect.MakeSlice(field.FieldType, 0, initialCap(listCnt))
 
 					for j := 0; j < listCnt; j++ {
-						elemValue := arrayValue.Index(j)
+						elemValue := reflect.New(field.FieldType.Elem()).Elem()
 						if field.Struct {
 							structValue := reflect.New(elemValue.Type().Elem())
 							elemValue.Set(structValue)
@@ -288,8 +287,9 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 								return errors.Errorf("fail to set value %v", err)
 							}
 						}
+						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
-					fieldValue.Set(arrayValue.Slice(0, listCnt))
+					fieldValue.Set(sliceValue)
 				} else {
 					var sliceValue reflect.Value
 					if !fieldValue.IsNil() {
-- 
2.43.0


From ca1fbcef296aafecb743e6df558744b3cb89bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 24/41] fix: return errors for struct types that cannot be
 packed

Pointers to other types, unexported fields and fixed-size arrays made packing
panic; of two fields with the same tag one was lost.
---
 struct.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 76ee58f..40764f6 100644
--- a/struct.go
+++ b/struct.go
@@ -175,8 +175,14 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 	fields := make(map[int]*Field)
 	var sortedFields []*Field
 	class := classPtr.Elem()
+	if class.Kind() != reflect.Struct {
+		return nil, errors.Errorf("not a pointer to a struct '%v'", classPtr)
+	}
 	for j := 0; j < class.NumField(); j++ {
 		field := class.Field(j)
+		if field.PkgPath != "" {
+			return nil, errors.Errorf("unexported field '%s' in class '%v'", field.Name, classPtr)
+		}
 		repeated := false
 		if rep, ok := field.Tag.Lookup("repeated"); ok {
 			repeated, _ = strconv.ParseBool(rep)
@@ -189,9 +195,12 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 		if err != nil {
 			return nil, errors.Errorf("invalid tag number '%s' in field '%s' in class '%v'", tagStr, field.Name, classPtr)
 		}
+		if _, ok := fields[tag]; ok {
+			return nil, errors.Errorf("duplicate tag %d in field '%s' in class '%v'", tag, field.Name, classPtr)
+		}
 		array := false
 		fieldType := field.Type
-		if field.Type.Kind() == reflect.Slice || field.Type.Kind() == reflect.Array {
+		if field.Type.Kind() == reflect.Slice {
 			fieldType = fieldType.Elem()
 			array = true
 		}
-- 
2.43.0


From de06885ab3c9386c6beec5b38cb66db9aaaaef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 25/41] fix: return errors for nil instances and nil struct
 elements instead of panicking

---
 struct.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 40764f6..f65ba08 100644
--- a/struct.go
+++ b/struct.go
@@ -34,9 +34,12 @@ func UnpackStruct(buf []byte, obj interface{}, copy bool) error {
 	unpacker := MessageUnpacker(buf, copy)
 	parser := MessageParser()
 	classPtr := reflect.TypeOf(obj)
-	if classPtr.Kind() != reflect.Ptr {
+	if classPtr == nil || classPtr.Kind() != reflect.Ptr {
 		return errors.Errorf("non-pointer instance is not allowed in '%v'", classPtr)
 	}
+	if reflect.ValueOf(obj).IsNil() {
+		return errors.Errorf("nil instance is not allowed in '%v'", classPtr)
+	}
 	if schema, err := reflectSchema(classPtr); err != nil {
 		return errors.Errorf("error on reflect schema for '%v', %v", classPtr, err)
 	} else {
@@ -51,6 +54,9 @@ func reflectPackStruct(p *messagePacker, obj interface{}) error {
 	if classPtr.Kind() != reflect.Ptr {
 		return errors.Errorf("non-pointer instance is not allowed in '%v'", classPtr)
 	}
+	if reflect.ValueOf(obj).IsNil() {
+		return errors.Errorf("nil instance is not allowed in '%v'", classPtr)
+	}
 	schema, err := reflectSchema(classPtr)
 	if err != nil {
 		return err
@@ -114,6 +120,9 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 
 func doReflectPackValue(p *messagePacker, value reflect.Value, entry *packingField) error {
 	if entry.field.Struct {
+		if value.IsNil() {
+			return errors.Errorf("can not pack nil element in field %v", entry.field.FieldName)
+		}
 		if err := doReflectPackStruct(p, value.Elem(), entry.field.FieldSchema); err != nil {
 			return errors.Errorf("can not pack field %v, inner struct error %v", value, err)
 		}
-- 
2.43.0


From e2d96622dff809554d84069f227865f16763323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 26/41] fix: reflect recursive struct types without recursing
 forever

---
 struct.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index f65ba08..0e1f859 100644
--- a/struct.go
+++ b/struct.go
@@ -172,7 +172,7 @@ func (t sortableFields) Less(i, j int) bool {
 func reflectSchema(classPtr reflect.Type) (*Schema, error) {
 	if val, ok := schemaCache.Load(classPtr); ok {
 		return val.(*Schema), nil
-	} else if schema, err := doReflectSchema(classPtr); err != nil {
+	} else if schema, err := doReflectSchema(classPtr, make(map[reflect.Type]*Schema)); err != nil {
 		return nil, err
 	} else {
 		schemaCache.Store(classPtr, schema)
@@ -180,7 +180,13 @@ func reflectSchema(classPtr reflect.Type) (*Schema, error) {
 	}
 }
 
-func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
+// pending has the schemas of this and the enclosing classes, to which a recursive class refers
+func doReflectSchema(classPtr reflect.Type, pending map[reflect.Type]*Schema) (*Schema, error) {
+	if schema, ok := pending[classPtr]; ok {
+		return schema, nil
+	}
+	schema := &Schema{}
+	pending[classPtr] = schema
 	fields := make(map[int]*Field)
 	var sortedFields []*Field
 	class := classPtr.Elem()
@@ -227,7 +233,7 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 			sortedFields = append(sortedFields, f)
 		} else if fieldType.Kind() != reflect.Ptr {
 			return nil, errors.Errorf("tagged field '%s' in class '%v' with type '%v' does not implement value.Value interface and non-ptr", field.Name, field.Type, classPtr)
-		} else if fieldSchema, err := reflectSchema(fieldType); err != nil {
+		} else if fieldSchema, err := doReflectSchema(fieldType, pending); err != nil {
 			return nil, errors.Errorf("struct field '%s' in class '%v' has wrong schema, %v", field.Name, classPtr, err)
 		} else {
 			f := &Field{
@@ -245,10 +251,9 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 		}
 	}
 	sort.Sort(sortableFields(sortedFields))
-	return &Schema {
-		Fields: fields,
-		SortedFields: sortedFields,
-	}, nil
+	schema.Fields = fields
+	schema.SortedFields = sortedFields
+	return schema, nil
 }
 
 
-- 
2.43.0


From 757bba949c90da1040a00e1a3fcb155518e232c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 27/41] fix: do not share entries between a map and its copy

Updating a mutable map changed its mutable and immutable copies and vice versa,
and a mutable copy of an immutable map could not be updated.
---
 immutablemap.go | 8 ++++++--
 sortedmap.go    | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/immutablemap.go b/immutablemap.go
index 0436e58..64756e1 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -47,8 +47,12 @@ func ImmutableMap(entries []MapEntry, sorted bool) Map {
 }
 
 func ImmutableMapCopyOf(other Map) Map {
-	t := immutableMapValue(mapEntryCopyOf(other.Entries()))
-	return t
+	src := other.Entries()
+	entries := make([]MapEntry, len(src))
+	for i, entry := range src {
+		entries[i] = ImmutableEntry(entry.Key(), entry.Value())
+	}
+	return immutableMapValue(entries)
 }
 
 func (t immutableMapValue) HashMap() map[string]Value {
diff --git a/sortedmap.go b/sortedmap.go
index 1b1c722..1bf71ae 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -48,8 +48,12 @@ func SortedMap(entries []MapEntry, sorted bool) Map {
 }
 
 func SortedMapCopyOf(other Map) Map {
-	t := sortedMapValue(mapEntryCopyOf(other.Entries()))
-	return t
+	src := other.Entries()
+	entries := make([]MapEntry, len(src))
+	for i, entry := range src {
+		entries[i] = MutableEntry(entry.Key(), entry.Value())
+	}
+	return sortedMapValue(entries)
 }
 
 func (t sortedMapValue) HashMap() map[string]Value {
-- 
2.43.0


From 2084285ac99461a46b740b46afd54e7f5b784ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 28/41] fix: do not write to or keep the slice given to
 InsertAll

Nil elements were replaced in the caller's slice, mutable lists kept it as
storage, and inserting at the front wrote past its end.
---
 immutablelist.go |  6 +-----
 immutablemap.go  |  6 +-----
 solidlist.go     |  6 +-----
 sortedmap.go     |  6 +-----
 sparselist.go    |  6 +-----
 utils.go         | 12 +++++++++++-
 6 files changed, 16 insertions(+), 26 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index 3cf36eb..42cec71 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -316,11 +316,7 @@ func (t immutableListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
-	for k := range list {
-		if list[k] == nil {
-			list[k] = Null
-		}
-	}
+	list = nonNilCopyOf(list)
 
 	if i >= 0 {
 		n := len(t)
diff --git a/immutablemap.go b/immutablemap.go
index 64756e1..65ae3b9 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -373,11 +373,7 @@ func (t immutableMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
-	for k := range list {
-		if list[k] == nil {
-			list[k] = Null
-		}
-	}
+	list = nonNilCopyOf(list)
 
 	slice := make([]MapEntry, len(list))
 	for i, value := range list {
diff --git a/solidlist.go b/solidlist.go
index b84cc94..4c6a2ad 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -323,11 +323,7 @@ func (t solidListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
-	for k := range list {
-		if list[k] == nil {
-			list[k] = Null
-		}
-	}
+	list = nonNilCopyOf(list)
 
 	if i >= 0 {
 		n := len(t)
diff --git a/sortedmap.go b/sortedmap.go
index 1bf71ae..12a5b28 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -372,11 +372,7 @@ func (t sortedMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
-	for k := range list {
-		if list[k] == nil {
-			list[k] = Null
-		}
-	}
+	list = nonNilCopyOf(list)
 
 	var slice []MapEntry
 	for _, value := range list {
diff --git a/sparselist.go b/sparselist.go
index 424619d..8ebd9db 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -405,11 +405,7 @@ func (t sparseListValue) InsertAll(key int, list []Value) List {
 		return t
 	}
 
-	for k := range list {
-		if list[k] == nil {
-			list[k] = Null
-		}
-	}
+	list = nonNilCopyOf(list)
 
 	var slice []ListItem
 	for _, value := range list {
diff --git a/utils.go b/utils.go
index 3b2f32f..e3bc526 100644
--- a/utils.go
+++ b/utils.go
@@ -155,4 +155,14 @@ func CopyOf(src []Value) []Value {
 	dst := make([]Value, n)
 	copy(dst, src)
 	return dst
-}
\ No newline at end of file
+}
+
+func nonNilCopyOf(src []Value) []Value {
+	dst := CopyOf(src)
+	for i := range dst {
+		if dst[i] == nil {
+			dst[i] = Null
+		}
+	}
+	return dst
+}
-- 
2.43.0


From c8cdf7f7d345d07094bbb091b62203583829fc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 29/41] fix: write nil values as null in Write and WriteStream,
 like Pack

---
 utils.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index e3bc526..66d4aaf 100644
--- a/utils.go
+++ b/utils.go
@@ -19,12 +19,16 @@ import (
 func Pack(val Value) ([]byte, error) {
 	buf := bytes.Buffer{}
 	p := MessagePacker(&buf)
+	packValue(p, val)
+	return buf.Bytes(), p.Error()
+}
+
+func packValue(p Packer, val Value) {
 	if val != nil {
 		val.Pack(p)
 	} else {
 		p.PackNil()
 	}
-	return buf.Bytes(), p.Error()
 }
 
 func Unpack(buf []byte, copy bool) (Value, error) {
@@ -41,7 +45,7 @@ func Read(r io.Reader) (Value, error) {
 
 func Write(w io.Writer, val Value) error {
 	p := MessagePacker(w)
-	val.Pack(p)
+	packValue(p, val)
 	return p.Error()
 }
 
@@ -123,7 +127,7 @@ func WriteStream(w io.Writer, valueC <-chan Value) error {
 			break
 		}
 
-		val.Pack(p)
+		packValue(p, val)
 
 	}
 
-- 
2.43.0


From 5b6b2509c5bc1e4127c4d33c76ceeb7ae28978b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 30/41] fix: sparse lists with only negative indexes have no
 length and values

Len was negative and Values panicked.
---
 sparselist.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparselist.go b/sparselist.go
index 8ebd9db..ecc5866 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -91,6 +91,9 @@ func (t sparseListValue) Values() []Value {
 		return nil
 	}
 	maxKey := t[n-1].Key()
+	if maxKey < 0 {
+		return nil
+	}
 	values := make([]Value, maxKey+1)
 
 	for _, item := range t {
@@ -107,6 +110,9 @@ func (t sparseListValue) Len() int {
 		return 0
 	} else {
 		maxKey := t[n-1].Key()
+		if maxKey < 0 {
+			return 0
+		}
 		return maxKey+1
 	}
 }
-- 
2.43.0


From f6e213f16c6b113f863fdfaf30b221d685d39bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 31/41] fix: keep the order of equal keys when sorting entries

With more than a dozen entries the values of a repeated key were shuffled.
---
 immutablemap.go | 2 +-
 sortedmap.go    | 2 +-
 sparselist.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/immutablemap.go b/immutablemap.go
index 65ae3b9..b10c486 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -41,7 +41,7 @@ func ImmutableMapOf(src map[string]Value) Map {
 func ImmutableMap(entries []MapEntry, sorted bool) Map {
 	t := immutableMapValue(entries)
 	if !sorted {
-		sort.Sort(t)
+		sort.Stable(t)
 	}
 	return t
 }
diff --git a/sortedmap.go b/sortedmap.go
index 12a5b28..47c4889 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -42,7 +42,7 @@ func SortedMapOf(src map[string]Value) Map {
 func SortedMap(entries []MapEntry, sorted bool) Map {
 	t := sortedMapValue(entries)
 	if !sorted {
-		sort.Sort(t)
+		sort.Stable(t)
 	}
 	return t
 }
diff --git a/sparselist.go b/sparselist.go
index ecc5866..2674d48 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -49,7 +49,7 @@ func SparseListOf(list []Value) List {
 
 func SparseList(items []ListItem, sorted bool) List {
 	if !sorted {
-		sort.Sort(sortableItems(items))
+		sort.Stable(sortableItems(items))
 	}
 	return sparseListValue(items)
 }
-- 
2.43.0


From a3b1a59ebfd1bfa27b164aa6eca8152c6c237601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 32/41] fix: do not hand out the shared encodings of null and
 booleans

Writing to the result of MarshalBinary changed how every later null or boolean
is packed.
---
 bool.go | 2 +-
 null.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bool.go b/bool.go
index 0f2ae96..5d96d7b 100644
--- a/bool.go
+++ b/bool.go
@@ -62,7 +62,7 @@ func (b boolValue) MarshalJSON() ([]byte, error) {
 
 func (b boolValue) MarshalBinary() ([]byte, error) {
 	var m messageWriter
-	return m.WriteBool(bool(b)), nil
+	return append([]byte(nil), m.WriteBool(bool(b))...), nil
 }
 
 func (b boolValue) Equal(val Value) bool {
diff --git a/null.go b/null.go
index 5d1ee8f..f1b85a3 100644
--- a/null.go
+++ b/null.go
@@ -57,7 +57,7 @@ func (n nullValue) MarshalJSON() ([]byte, error) {
 
 func (n nullValue) MarshalBinary() ([]byte, error) {
 	var m messageWriter
-	return m.WriteNil(), nil
+	return append([]byte(nil), m.WriteNil()...), nil
 }
 
 func (n nullValue) Equal(val Value) bool {
-- 
2.43.0


From ebf6f3e5c158d4eaa7c4590287fdf842ec17de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 33/41] fix: name the NULL kind

---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index 8c36e57..dc64ffd 100644
--- a/api.go
+++ b/api.go
@@ -39,6 +39,8 @@ func (k Kind) String() string {
 	switch k {
 	case INVALID:
 		return "INVALID"
+	case NULL:
+		return "NULL"
 	case BOOL:
 		return "BOOL"
 	case NUMBER:
-- 
2.43.0


From a7c02c1b7b2a2192e965cb95100c770bb221a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 34/41] fix: pack the zero decimal.Decimal like any other zero

It has no coefficient and packed to bytes of its own.
---
 number.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/number.go b/number.go
index 958caf8..e4d5ddc 100644
--- a/number.go
+++ b/number.go
@@ -333,6 +333,7 @@ func (n bigIntNumber) Pack(p Packer) {
 
 func (n decimalNumber) Pack(p Packer) {
 	dec := decimal.Decimal(n)
+	dec = decimal.NewFromBigInt(dec.Coefficient(), dec.Exponent())  // the zero Decimal has no coefficient
 	b, _ := dec.MarshalBinary()
 	p.PackExt(DecimalExt, b)
 }
-- 
2.43.0


From c0696f41aa0f4dbf2139f85544284943f07872e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 35/41] fix: bound the nesting of decoded values and structs by
 a limit instead of the stack

---
 struct.go | 28 ++++++++++++++++++++--------
 unpack.go | 34 +++++++++++++++++++++++++---------
 2 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/struct.go b/struct.go
index 0e1f859..7fb74a0 100644
--- a/struct.go
+++ b/struct.go
@@ -258,6 +258,15 @@ func doReflectSchema(classPtr reflect.Type, pending map[reflect.Type]*Schema) (*
 
 
 func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *Schema) error {
+	return doParseStruct(unpacker, parser, value, schema, 0)
+}
+
+// depth is the number of containers around the struct
+func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *Schema, depth int) error {
+
+	if depth >= maxNesting {
+		return errNesting
+	}
 	format, header := unpacker.Next()
 	if format != MapHeader {
 		return errors.Errorf("expected MapHeader for struct, but got %v", format)
@@ -296,9 +305,9 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						if field.Struct {
 							structValue := reflect.New(elemValue.Type().Elem())
 							elemValue.Set(structValue)
-							err := ParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema)
+							err := doParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, depth+2)
 							if err != nil {
-								return errors.Errorf("fail to set struct value %v", err)
+								return err
 							}
 						} else {
 							val, err := doParse(unpacker, parser)
@@ -327,9 +336,9 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						structValue := reflect.New(ptrType.Elem())
 						elemValue.Set(structValue)
 						sliceValue = reflect.Append(sliceValue, elemValue)
-						err := ParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema)
+						err := doParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, depth+1)
 						if err != nil {
-							return errors.Errorf("fail to set struct value %v", err)
+							return err
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
@@ -346,8 +355,11 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 					fieldValue.Set(sliceValue)
 				}
 			} else {
-				err = parseFieldValue(unpacker, parser, field, fieldValue)
+				err = parseFieldValue(unpacker, parser, field, fieldValue, depth)
 				if err != nil {
+					if field.Struct {
+						return err  // has its position in the inner struct, a path may be as long as the input
+					}
 					return errors.Errorf("parse field on position %d, %v", i, err)
 				}
 			}
@@ -358,7 +370,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 	return nil
 }
 
-func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue reflect.Value) error {
+func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue reflect.Value, depth int) error {
 	if field.Struct {
 		if fieldValue.IsNil() {
 			if fieldValue.CanSet() {
@@ -367,9 +379,9 @@ func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue
 				return errors.Errorf("can not set empty struct value to field %v", field.FieldName)
 			}
 		}
-		err := ParseStruct(unpacker, parser, fieldValue.Elem(), field.FieldSchema)
+		err := doParseStruct(unpacker, parser, fieldValue.Elem(), field.FieldSchema, depth+1)
 		if err != nil {
-			return errors.Errorf("fail to set struct value %v", err)
+			return err
 		}
 	} else {
 		val, err := doParse(unpacker, parser)
diff --git a/unpack.go b/unpack.go
index d76144b..740f45f 100644
--- a/unpack.go
+++ b/unpack.go
@@ -13,7 +13,17 @@ import (
 )
 
 
+// containers nested deeper than this are rejected, the input must not choose how much stack is taken
+const maxNesting = 100000
+
+var errNesting = errors.Errorf("parse: more than %d nested containers", maxNesting)
+
 func doParse(unpacker Unpacker, parser Parser) (Value, error) {
+	return doParseAt(unpacker, parser, 0)
+}
+
+// depth is the number of containers around the value
+func doParseAt(unpacker Unpacker, parser Parser, depth int) (Value, error) {
 
 	format, header := unpacker.Next()
 
@@ -55,9 +65,15 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 		}
 		return Utf8(string(str)), nil
 	case ListHeader:
-		return doParseList(header, unpacker, parser)
+		if depth >= maxNesting {
+			return nil, errNesting
+		}
+		return doParseList(header, unpacker, parser, depth)
 	case MapHeader:
-		return doParseMap(header, unpacker, parser)
+		if depth >= maxNesting {
+			return nil, errNesting
+		}
+		return doParseMap(header, unpacker, parser, depth)
 	case ExtHeader:
 		n, _ := parser.ParseExt(header)
 		if parser.Error() != nil {
@@ -83,8 +99,8 @@ func inputError(unpacker Unpacker, eof error) error {
 }
 
 // parses an element of a container, before which the input must not end
-func doParseInner(unpacker Unpacker, parser Parser) (Value, error) {
-	value, err := doParse(unpacker, parser)
+func doParseInner(unpacker Unpacker, parser Parser, depth int) (Value, error) {
+	value, err := doParseAt(unpacker, parser, depth+1)
 	if err == io.EOF {
 		err = io.ErrUnexpectedEOF
 	}
@@ -101,7 +117,7 @@ func initialCap(cnt int) int {
 	return cnt
 }
 
-func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
+func doParseList(header []byte, unpacker Unpacker, parser Parser, depth int) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -111,7 +127,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	}
 	list := make([]Value, 0, initialCap(cnt))
 	for i := 0; i < cnt; i++ {
-		el, err := doParseInner(unpacker, parser)
+		el, err := doParseInner(unpacker, parser, depth)
 		if err != nil {
 			return nil, err
 		}
@@ -126,7 +142,7 @@ func isIndex(key Value) bool {
 	return ok && number.Type() == LONG
 }
 
-func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error) {
+func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Value, error) {
 	cnt := parser.ParseMap(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -142,11 +158,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParseInner(unpacker, parser)
+		key, err := doParseInner(unpacker, parser, depth)
 		if err != nil {
 			return nil, err
 		}
-		value, err := doParseInner(unpacker, parser)
+		value, err := doParseInner(unpacker, parser, depth)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From f7bcc9a4d7048c92ebb96fb644276f9c4a73cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 36/41] fix: reject containers in deeply nested map keys, whose
 text doubles with every level

---
 unpack.go | 60 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/unpack.go b/unpack.go
index 740f45f..d2c714a 100644
--- a/unpack.go
+++ b/unpack.go
@@ -18,12 +18,40 @@ const maxNesting = 100000
 
 var errNesting = errors.Errorf("parse: more than %d nested containers", maxNesting)
 
+// keys are text, in which every key around a quoted key doubles the quotes
+const maxKeyNesting = 4
+
+var errKeyNesting = errors.Errorf("parse: container in more than %d nested keys", maxKeyNesting)
+
+// where a value is
+type nesting struct {
+	containers int  // number of containers around the value
+	keys       int  // number of map keys around the value
+}
+
+func (t nesting) check() error {
+	if t.containers >= maxNesting {
+		return errNesting
+	}
+	if t.keys > maxKeyNesting {
+		return errKeyNesting
+	}
+	return nil
+}
+
+func (t nesting) element() nesting {
+	return nesting{t.containers + 1, t.keys}
+}
+
+func (t nesting) key() nesting {
+	return nesting{t.containers + 1, t.keys + 1}
+}
+
 func doParse(unpacker Unpacker, parser Parser) (Value, error) {
-	return doParseAt(unpacker, parser, 0)
+	return doParseAt(unpacker, parser, nesting{})
 }
 
-// depth is the number of containers around the value
-func doParseAt(unpacker Unpacker, parser Parser, depth int) (Value, error) {
+func doParseAt(unpacker Unpacker, parser Parser, at nesting) (Value, error) {
 
 	format, header := unpacker.Next()
 
@@ -65,15 +93,15 @@ func doParseAt(unpacker Unpacker, parser Parser, depth int) (Value, error) {
 		}
 		return Utf8(string(str)), nil
 	case ListHeader:
-		if depth >= maxNesting {
-			return nil, errNesting
+		if err := at.check(); err != nil {
+			return nil, err
 		}
-		return doParseList(header, unpacker, parser, depth)
+		return doParseList(header, unpacker, parser, at)
 	case MapHeader:
-		if depth >= maxNesting {
-			return nil, errNesting
+		if err := at.check(); err != nil {
+			return nil, err
 		}
-		return doParseMap(header, unpacker, parser, depth)
+		return doParseMap(header, unpacker, parser, at)
 	case ExtHeader:
 		n, _ := parser.ParseExt(header)
 		if parser.Error() != nil {
@@ -99,8 +127,8 @@ func inputError(unpacker Unpacker, eof error) error {
 }
 
 // parses an element of a container, before which the input must not end
-func doParseInner(unpacker Unpacker, parser Parser, depth int) (Value, error) {
-	value, err := doParseAt(unpacker, parser, depth+1)
+func doParseInner(unpacker Unpacker, parser Parser, at nesting) (Value, error) {
+	value, err := doParseAt(unpacker, parser, at)
 	if err == io.EOF {
 		err = io.ErrUnexpectedEOF
 	}
@@ -117,7 +145,7 @@ func initialCap(cnt int) int {
 	return cnt
 }
 
-func doParseList(header []byte, unpacker Unpacker, parser Parser, depth int) (List, error) {
+func doParseList(header []byte, unpacker Unpacker, parser Parser, at nesting) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -127,7 +155,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser, depth int) (Li
 	}
 	list := make([]Value, 0, initialCap(cnt))
 	for i := 0; i < cnt; i++ {
-		el, err := doParseInner(unpacker, parser, depth)
+		el, err := doParseInner(unpacker, parser, at.element())
 		if err != nil {
 			return nil, err
 		}
@@ -142,7 +170,7 @@ func isIndex(key Value) bool {
 	return ok && number.Type() == LONG
 }
 
-func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Value, error) {
+func doParseMap(header []byte, unpacker Unpacker, parser Parser, at nesting) (Value, error) {
 	cnt := parser.ParseMap(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -158,11 +186,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Val
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParseInner(unpacker, parser, depth)
+		key, err := doParseInner(unpacker, parser, at.key())
 		if err != nil {
 			return nil, err
 		}
-		value, err := doParseInner(unpacker, parser, depth)
+		value, err := doParseInner(unpacker, parser, at.element())
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 168345691bc5886f548ded34abfe5b2fa7d2f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 37/41] fix: reserve less memory for elements the input only
 claims to have

---
 unpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index d2c714a..23cc888 100644
--- a/unpack.go
+++ b/unpack.go
@@ -136,7 +136,7 @@ func doParseInner(unpacker Unpacker, parser Parser, at nesting) (Value, error) {
 }
 
 // a count is only a claim of the input, memory for more elements is taken as they arrive
-const maxInitialCap = 1024
+const maxInitialCap = 16
 
 func initialCap(cnt int) int {
 	if cnt > maxInitialCap {
-- 
2.43.0


From be613ccadc7b7aa09800a747477d88349fbc7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 38/41] fix: struct fields of concrete value types made
 serialization panic or were rejected

---
 struct.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 7fb74a0..5a79b17 100644
--- a/struct.go
+++ b/struct.go
@@ -79,7 +79,7 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 			field: field,
 			fieldValue: value.Field(field.FieldNum),
 		}
-		if !f.fieldValue.IsNil() {
+		if !isNilField(f.fieldValue) {
 			list = append(list, f)
 			if f.field.Array && f.field.Repeated {
 				cnt += f.fieldValue.Len()
@@ -118,6 +118,15 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 	return nil
 }
 
+// concrete value types, such as the one of value.True, have no nil
+func isNilField(v reflect.Value) bool {
+	switch v.Kind() {
+	case reflect.Interface, reflect.Ptr, reflect.Slice:
+		return v.IsNil()
+	}
+	return false
+}
+
 func doReflectPackValue(p *messagePacker, value reflect.Value, entry *packingField) error {
 	if entry.field.Struct {
 		if value.IsNil() {
@@ -215,7 +224,7 @@ func doReflectSchema(classPtr reflect.Type, pending map[reflect.Type]*Schema) (*
 		}
 		array := false
 		fieldType := field.Type
-		if field.Type.Kind() == reflect.Slice {
+		if field.Type.Kind() == reflect.Slice && !field.Type.Implements(ValueClass) {
 			fieldType = fieldType.Elem()
 			array = true
 		}
-- 
2.43.0


From 1262ee9d710df44e752de2c63834688f1a10b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:14 +0000
Subject: [PATCH 39/41] fix: parsing a fixed extension checks its header, an
 unpacker wrong about the format panicked or gave a value

---
 unpack.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 23cc888..42aa828 100644
--- a/unpack.go
+++ b/unpack.go
@@ -69,7 +69,13 @@ func doParseAt(unpacker Unpacker, parser Parser, at nesting) (Value, error) {
 	case DoubleToken:
 		return Double(parser.ParseDouble(header)), parser.Error()
 	case FixExtToken:
-		_, tagAndData := parser.ParseExt(header)
+		n, tagAndData := parser.ParseExt(header)
+		if parser.Error() != nil {
+			return nil, parser.Error()
+		}
+		if len(tagAndData) != n+1 {
+			return nil, errors.Errorf("ext: header has %d bytes of %d", len(tagAndData), n+1)
+		}
 		// header is only valid until the next token
 		return doParseExt(append([]byte(nil), tagAndData...))
 	case BinHeader:
-- 
2.43.0


From 3d4780b8dc5c2454208b0ae0624da7dfe6b3cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:26 +0000
Subject: [PATCH 40/41] fix: exponents of decimal texts may have leading zeros,
 longer ones were not a number

---
 number.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/number.go b/number.go
index e4d5ddc..751be8f 100644
--- a/number.go
+++ b/number.go
@@ -279,6 +279,7 @@ func parseExp(s string) (int32, error) {
 		neg = true
 	}
 
+	s = strings.TrimLeft(s, "0")
 	if len(s) % 2 == 1 {
 		s = "0" + s
 	}
-- 
2.43.0


From 32627a74f9d0c9322d4d61daa440950533b0314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:54 +0000
Subject: [PATCH 41/41] fix: parsing a struct checks the header of a list
 field, an unpacker wrong about the format made an empty list

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index 5a79b17..41a6ac1 100644
--- a/struct.go
+++ b/struct.go
@@ -307,6 +307,9 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 						return errors.Errorf("expected ListHeader for array field, but got %v", listFormat)
 					}
 					listCnt := parser.ParseList(listHeader)
+					if parser.Error() != nil {
+						return parser.Error()
+					}
 					sliceValue := reflect.MakeSlice(field.FieldType, 0, initialCap(listCnt))
 
 					for j := 0; j < listCnt; j++ {
-- 
2.43.0

