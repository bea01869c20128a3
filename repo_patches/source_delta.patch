From e79a2bc90c2e578a1a92c4bc1cac8047e8909004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 01/40] fix: keep the first write error in the message packer

The packing methods had value receivers, so an error returned by the
underlying writer was stored in a copy and lost.
---
 msgpack.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 1af483e..041da6d 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -191,31 +191,31 @@ func MessagePacker(w io.Writer) *messagePacker {
 	return &messagePacker{w: w}
 }
 
-func (p messagePacker) PackNil()  {
+func (p *messagePacker) PackNil()  {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteNil())
 	}
 }
 
-func (p messagePacker) PackBool(val bool) {
+func (p *messagePacker) PackBool(val bool) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBool(val))
 	}
 }
 
-func (p messagePacker) PackLong(val int64) {
+func (p *messagePacker) PackLong(val int64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteLong(val))
 	}
 }
 
-func (p messagePacker) PackDouble(val float64) {
+func (p *messagePacker) PackDouble(val float64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteDouble(val))
 	}
 }
 
-func (p messagePacker) PackStr(str string) {
+func (p *messagePacker) PackStr(str string) {
 	b := []byte(str)
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteStrHeader(len(b)))
@@ -225,7 +225,7 @@ func (p messagePacker) PackStr(str string) {
 	}
 }
 
-func (p messagePacker) PackBin(b []byte) {
+func (p *messagePacker) PackBin(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBinHeader(len(b)))
 	}
@@ -243,7 +243,7 @@ func (p *messagePacker) PackExt(xtag Ext, data []byte) {
 	}
 }
 
-func (p messagePacker) PackList(size int) {
+func (p *messagePacker) PackList(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -252,7 +252,7 @@ func (p messagePacker) PackList(size int) {
 	}
 }
 
-func (p messagePacker) PackMap(size int) {
+func (p *messagePacker) PackMap(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -261,13 +261,13 @@ func (p messagePacker) PackMap(size int) {
 	}
 }
 
-func (p messagePacker) PackRaw(b []byte) {
+func (p *messagePacker) PackRaw(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(b)
 	}
 }
 
-func (p messagePacker) Error() error {
+func (p *messagePacker) Error() error {
 	return p.err
 }
 
-- 
2.43.0


From 290509677c5d8f35ddf83ad6c1a9bb13a9f8fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 02/40] fix: write array32 headers for lists longer than 65535

The 4-byte length was written behind the array16 code.
---
 msgpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 041da6d..b8a6404 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -434,7 +434,7 @@ func (p messageWriter) WriteArrayHeader(len int) []byte {
 		binary.BigEndian.PutUint16(p.buf[1:3], uint16(len))
 		return p.buf[:3]
 	default:
-		p.buf[0] = mpArray16
+		p.buf[0] = mpArray32
 		binary.BigEndian.PutUint32(p.buf[1:5], uint32(len))
 		return p.buf[:5]
 	}
-- 
2.43.0


From 66fbf973e5a26febaf708c9e35464ab5e8fdef52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 03/40] fix: read messages from readers without ReadByte

The type assertion panicked, although a missing byte reader is handled.
---
 msgpack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index b8a6404..3f8ac5a 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -693,7 +693,8 @@ type messageIOUnpacker struct {
 }
 
 func MessageReader(r io.Reader) *messageIOUnpacker {
-	return &messageIOUnpacker{r: r, br: r.(io.ByteReader)}
+	br, _ := r.(io.ByteReader)
+	return &messageIOUnpacker{r: r, br: br}
 }
 
 func (p *messageIOUnpacker) Next() (Format, []byte) {
-- 
2.43.0


From 3c3afd894d5e4c847fe419394ed87e06a88fe8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 04/40] fix: read whole headers and payloads from readers that
 return less

io.Reader may return fewer bytes than asked, or data together with
io.EOF; both made complete messages fail to decode.
---
 msgpack.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 3f8ac5a..d3fff56 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -706,8 +706,7 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 		}
 		p.buf[0] = code
 	}  else {
-		n, _ := p.r.Read(p.buf[:1])
-		if n == 0 {
+		if _, err := io.ReadFull(p.r, p.buf[:1]); err != nil {
 			return EOF, nil
 		}
 	}
@@ -715,7 +714,7 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	format, len := nextFormat(p.buf[0])
 	n := 1 + len
 
-	m, _ := p.r.Read(p.buf[1:n])
+	m, _ := io.ReadFull(p.r, p.buf[1:n])
 	if m != len {
 		return UnexpectedEOF, nil
 	}
@@ -725,11 +724,9 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
 	b = make([]byte, n)
-	m, err := p.r.Read(b)
-	if m != n {
-		if err == nil {
-			err = io.ErrUnexpectedEOF
-		}
+	_, err = io.ReadFull(p.r, b)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
 	}
 	return b, err
 }
-- 
2.43.0


From d4d72eb5970725a24c2da983492e782f662bc0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 05/40] fix: report a broken or truncated input as such, not as
 its end

A failing reader, or an input that stops between the elements of a
list or map, was reported as io.EOF, the regular end of a stream.
---
 msgpack.go | 12 ++++++++++--
 unpack.go  | 14 +++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index d3fff56..293dcfe 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -702,12 +702,12 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	if p.br != nil {
 		code, err := p.br.ReadByte()
 		if err != nil {
-			return EOF, nil
+			return endFormat(err), nil
 		}
 		p.buf[0] = code
 	}  else {
 		if _, err := io.ReadFull(p.r, p.buf[:1]); err != nil {
-			return EOF, nil
+			return endFormat(err), nil
 		}
 	}
 
@@ -731,6 +731,14 @@ func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
 	return b, err
 }
 
+// only io.EOF is a regular end of the stream
+func endFormat(err error) Format {
+	if err == io.EOF {
+		return EOF
+	}
+	return UnexpectedEOF
+}
+
 func nextFormat(code byte) (Format, int) {
 
 	switch {
diff --git a/unpack.go b/unpack.go
index 10ad764..fe411f4 100644
--- a/unpack.go
+++ b/unpack.go
@@ -85,7 +85,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	for i := 0; i < cnt; i++ {
 		el, err := doParse(unpacker, parser)
 		if err != nil {
-			return nil, err
+			return nil, unexpectedEnd(err)
 		}
 		list[i] = el
 	}
@@ -110,11 +110,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 	for i := 0; i < cnt; i++ {
 		key, err := doParse(unpacker, parser)
 		if err != nil {
-			return nil, err
+			return nil, unexpectedEnd(err)
 		}
 		value, err := doParse(unpacker, parser)
 		if err != nil {
-			return nil, err
+			return nil, unexpectedEnd(err)
 		}
 
 		if key == nil {
@@ -178,6 +178,14 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 
 }
 
+// the input may not end inside of a collection
+func unexpectedEnd(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func doParseExt(tagAndData []byte) (Value, error) {
 	xtag := Ext(tagAndData[0])
 	ext := tagAndData[1:]
-- 
2.43.0


From 9488d601b421db22d708451d9b4dc4201ff7f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 06/40] fix: copy the payload of fixed size extensions

An unknown extension kept a slice of the reader's header buffer, which
the next message overwrites, or of the caller's buffer despite copy.
---
 unpack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index fe411f4..36460b5 100644
--- a/unpack.go
+++ b/unpack.go
@@ -32,7 +32,8 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 		return Double(parser.ParseDouble(header)), parser.Error()
 	case FixExtToken:
 		_, tagAndData := parser.ParseExt(header)
-		return doParseExt(tagAndData)
+		// the header belongs to the unpacker
+		return doParseExt(append([]byte(nil), tagAndData...))
 	case BinHeader:
 		size := parser.ParseBin(header)
 		if parser.Error() != nil {
-- 
2.43.0


From 899bf65e75fbd3c981dade5842cd15d033915a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 07/40] fix: decode maps whose first keys are numbers and later
 ones not

The numeric entries read so far were looked up with the wrong index,
which dereferenced nil, and were assumed to be in string order.
---
 unpack.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/unpack.go b/unpack.go
index 36460b5..6c9d24e 100644
--- a/unpack.go
+++ b/unpack.go
@@ -149,13 +149,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				mayBeList = false
 				sortedMapEntries = make([]MapEntry, cnt)
 				for j := 0; j < i; j++ {
-					item := sparseListItems[i]
-					sortedMapEntries[i] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+					item := sparseListItems[j]
+					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
 				}
 				k := key.String()
-				if i > 0 && prevMapKey > k {
-					sorted = false
-				}
+				sorted = false  // numbers are in the order of their values
 				sortedMapEntries[i] = ImmutableEntry(k, value)
 				prevMapKey = k
 			}
-- 
2.43.0


From 0a9678d029b3d0415f978118e86476aa15df4d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 08/40] fix: do not allocate memory for sizes the input only
 declares

A header of five bytes made the decoder allocate up to 64 GB for a
list or map, and a reader up to 4 GB for a string.
---
 msgpack.go | 12 ++++++++++--
 unpack.go  | 34 +++++++++++++++++++++++-----------
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 293dcfe..83de343 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -7,6 +7,7 @@
 package value
 
 import (
+	"bytes"
 	"io"
 	"math"
 	"encoding/binary"
@@ -723,8 +724,15 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 }
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
-	b = make([]byte, n)
-	_, err = io.ReadFull(p.r, b)
+	if n > maxInitialRead {
+		// do not trust the declared size
+		var buf bytes.Buffer
+		_, err = io.CopyN(&buf, p.r, int64(n))
+		b = buf.Bytes()
+	} else {
+		b = make([]byte, n)
+		_, err = io.ReadFull(p.r, b)
+	}
 	if err == io.EOF {
 		err = io.ErrUnexpectedEOF
 	}
diff --git a/unpack.go b/unpack.go
index 6c9d24e..8c7b298 100644
--- a/unpack.go
+++ b/unpack.go
@@ -82,13 +82,13 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	if cnt == 0 {
 		return EmptyImmutableList(), nil
 	}
-	list := make([]Value, cnt)
+	list := make([]Value, 0, initialCap(cnt))
 	for i := 0; i < cnt; i++ {
 		el, err := doParse(unpacker, parser)
 		if err != nil {
 			return nil, unexpectedEnd(err)
 		}
-		list[i] = el
+		list = append(list, el)
 	}
 	return ImmutableList(list), nil
 }
@@ -128,10 +128,10 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if key.Kind() == NUMBER {
 				// try to build sparse list
 				mayBeList = true
-				sparseListItems = make([]ListItem, cnt)
+				sparseListItems = make([]ListItem, 0, initialCap(cnt))
 			} else {
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
+				sortedMapEntries = make([]MapEntry, 0, initialCap(cnt))
 			}
 		}
 
@@ -142,19 +142,18 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				if i > 0 && prevListKey > k {
 					sorted = false
 				}
-				sparseListItems[i] = ImmutableItem(int(k), value)
+				sparseListItems = append(sparseListItems, ImmutableItem(int(k), value))
 				prevListKey = k
 			} else {
 				// not a list
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
-				for j := 0; j < i; j++ {
-					item := sparseListItems[j]
-					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+				sortedMapEntries = make([]MapEntry, 0, initialCap(cnt))
+				for _, item := range sparseListItems {
+					sortedMapEntries = append(sortedMapEntries, ImmutableEntry(strconv.Itoa(item.Key()), item.Value()))
 				}
 				k := key.String()
 				sorted = false  // numbers are in the order of their values
-				sortedMapEntries[i] = ImmutableEntry(k, value)
+				sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 				prevMapKey = k
 			}
 
@@ -163,7 +162,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if i > 0 && prevMapKey > k {
 				sorted = false
 			}
-			sortedMapEntries[i] = ImmutableEntry(k, value)
+			sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 			prevMapKey = k
 		}
 
@@ -177,6 +176,19 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 
 }
 
+// limit memory that is allocated for a declared, not yet received, size
+const (
+	maxInitialCap  = 16    // elements
+	maxInitialRead = 4096  // bytes
+)
+
+func initialCap(cnt int) int {
+	if cnt > maxInitialCap {
+		return maxInitialCap
+	}
+	return cnt
+}
+
 // the input may not end inside of a collection
 func unexpectedEnd(err error) error {
 	if err == io.EOF {
-- 
2.43.0


From 8f35a1999d896df9cc12338e47c47f173169c8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 09/40] fix: reject unsigned integers that do not fit in a long

They were decoded as negative numbers.
---
 msgpack.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 83de343..3d2cb4c 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -492,7 +492,12 @@ func (r *messageParser) ParseLong(b []byte) int64 {
 	case mpUint32:
 		return int64(binary.BigEndian.Uint32(b[1:]))
 	case mpUint64:
-		return int64(binary.BigEndian.Uint64(b[1:]))
+		val := binary.BigEndian.Uint64(b[1:])
+		if val > math.MaxInt64 {
+			r.err = errors.Errorf("long: overflow %v", val)
+			return 0
+		}
+		return int64(val)
 	case mpInt8:
 		return int64(int8(b[1]))
 	case mpInt16:
-- 
2.43.0


From 47112f943a0633c3b3ef6b383ba5ca0ae22e26bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 10/40] fix: treat gaps in collections as null in getters and
 comparison

Typed getters dereferenced the nil value of a gap, and a gap was not
equal to the null it is packed as, while null was equal to a gap.
---
 immutablelist.go | 12 ++++++------
 immutablemap.go  | 10 +++++-----
 solidlist.go     | 12 ++++++------
 sortedmap.go     | 10 +++++-----
 sparselist.go    | 10 +++++-----
 utils.go         |  2 +-
 6 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index a1f2c36..d551318 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -137,7 +137,7 @@ func (t immutableListValue) GetAt(i int) Value {
 
 func (t immutableListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -148,7 +148,7 @@ func (t immutableListValue) GetBoolAt(index int) Bool {
 
 func (t immutableListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -159,7 +159,7 @@ func (t immutableListValue) GetNumberAt(index int) Number {
 
 func (t immutableListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -170,7 +170,7 @@ func (t immutableListValue) GetStringAt(index int) String {
 
 func (t immutableListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -183,7 +183,7 @@ func (t immutableListValue) GetListAt(index int) List {
 
 func (t immutableListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
@@ -301,7 +301,7 @@ func (t immutableListValue) removeAt(i, n int) List {
 
 func (t immutableListValue) Select(i int) []Value {
 	val := t.GetAt(i)
-	if val != Null {
+	if val != nil && val != Null {
 		return []Value {val}
 	}
 	return []Value {}
diff --git a/immutablemap.go b/immutablemap.go
index eb65218..1d25bda 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -194,7 +194,7 @@ func (t immutableMapValue) Get(key string) Value {
 
 func (t immutableMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -205,7 +205,7 @@ func (t immutableMapValue) GetBool(key string) Bool {
 
 func (t immutableMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -216,7 +216,7 @@ func (t immutableMapValue) GetNumber(key string) Number {
 
 func (t immutableMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -227,7 +227,7 @@ func (t immutableMapValue) GetString(key string) String {
 
 func (t immutableMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -240,7 +240,7 @@ func (t immutableMapValue) GetList(key string) List {
 
 func (t immutableMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
diff --git a/solidlist.go b/solidlist.go
index c3ab6e1..c2dc2b2 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -145,7 +145,7 @@ func (t solidListValue) GetAt(i int) Value {
 
 func (t solidListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -156,7 +156,7 @@ func (t solidListValue) GetBoolAt(index int) Bool {
 
 func (t solidListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -167,7 +167,7 @@ func (t solidListValue) GetNumberAt(index int) Number {
 
 func (t solidListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -178,7 +178,7 @@ func (t solidListValue) GetStringAt(index int) String {
 
 func (t solidListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -191,7 +191,7 @@ func (t solidListValue) GetListAt(index int) List {
 
 func (t solidListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
@@ -308,7 +308,7 @@ func (t solidListValue) removeAt(i, n int) List {
 
 func (t solidListValue) Select(i int) []Value {
 	val := t.GetAt(i)
-	if val != Null {
+	if val != nil && val != Null {
 		return []Value {val}
 	}
 	return []Value {}
diff --git a/sortedmap.go b/sortedmap.go
index 36733c2..8639b48 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -195,7 +195,7 @@ func (t sortedMapValue) Get(key string) Value {
 
 func (t sortedMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -206,7 +206,7 @@ func (t sortedMapValue) GetBool(key string) Bool {
 
 func (t sortedMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -217,7 +217,7 @@ func (t sortedMapValue) GetNumber(key string) Number {
 
 func (t sortedMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -228,7 +228,7 @@ func (t sortedMapValue) GetString(key string) String {
 
 func (t sortedMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -241,7 +241,7 @@ func (t sortedMapValue) GetList(key string) List {
 
 func (t sortedMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/sparselist.go b/sparselist.go
index 47719a2..114e073 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -196,7 +196,7 @@ func (t sparseListValue) GetAt(key int) Value {
 
 func (t sparseListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -207,7 +207,7 @@ func (t sparseListValue) GetBoolAt(index int) Bool {
 
 func (t sparseListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -218,7 +218,7 @@ func (t sparseListValue) GetNumberAt(index int) Number {
 
 func (t sparseListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -229,7 +229,7 @@ func (t sparseListValue) GetStringAt(index int) String {
 
 func (t sparseListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -242,7 +242,7 @@ func (t sparseListValue) GetListAt(index int) List {
 
 func (t sparseListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/utils.go b/utils.go
index 3a0a323..7a2613b 100644
--- a/utils.go
+++ b/utils.go
@@ -100,7 +100,7 @@ func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (V
 
 func Equal(left Value, right Value) bool {
 	if left == nil {
-		return right == nil
+		return right == nil || right.Kind() == NULL
 	}
 	return left.Equal(right)
 }
-- 
2.43.0


From 0e7a47fa9b883fcf89da58087448da829c67f95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 11/40] fix: compare sparse lists by their items

Lists of equal length have different numbers of items when one has
gaps: the comparison read past the end, or depended on the side.
---
 immutablelist.go | 3 +++
 solidlist.go     | 3 +++
 sparselist.go    | 6 +++---
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index d551318..33b2b16 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -117,6 +117,9 @@ func (t immutableListValue) Equal(val Value) bool {
 		return false
 	}
 	o := val.(List)
+	if sparse, ok := o.(sparseListValue); ok {
+		return sparse.Equal(t)
+	}
 	if t.Len() != o.Len() {
 		return false
 	}
diff --git a/solidlist.go b/solidlist.go
index c2dc2b2..9d6a5b5 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -125,6 +125,9 @@ func (t solidListValue) Equal(val Value) bool {
 		return false
 	}
 	o := val.(List)
+	if sparse, ok := o.(sparseListValue); ok {
+		return sparse.Equal(t)
+	}
 	if t.Len() != o.Len() {
 		return false
 	}
diff --git a/sparselist.go b/sparselist.go
index 114e073..bd276f3 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -167,11 +167,11 @@ func (t sparseListValue) Equal(val Value) bool {
 		return false
 	}
 	o := val.(List)
-	if t.Len() != o.Len() {
-		return false
-	}
 	// entries are sorted
 	other := o.Items()
+	if len(t) != len(other) {
+		return false
+	}
 	for i, item := range t {
 		if !item.Equal(other[i]) {
 			return false
-- 
2.43.0


From b7c5fc0594b76fd04049dd939b5ee71c377d6aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 12/40] fix: length and values of sparse lists with negative
 keys only

Values paniced and Len was negative; negative keys are not values.
---
 sparselist.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparselist.go b/sparselist.go
index bd276f3..1343c9e 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -91,6 +91,9 @@ func (t sparseListValue) Values() []Value {
 		return nil
 	}
 	maxKey := t[n-1].Key()
+	if maxKey < 0 {
+		return nil
+	}
 	values := make([]Value, maxKey+1)
 
 	for _, item := range t {
@@ -107,6 +110,9 @@ func (t sparseListValue) Len() int {
 		return 0
 	} else {
 		maxKey := t[n-1].Key()
+		if maxKey < 0 {
+			return 0
+		}
 		return maxKey+1
 	}
 }
-- 
2.43.0


From d715cdc0c5b5da0a6fc6e040247235aae777384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 13/40] fix: print valid JSON for all strings and map keys

Go quoting is not JSON for control characters, invalid UTF-8 and some
others, and map keys were not escaped at all.
---
 immutablemap.go |  5 +----
 sortedmap.go    |  5 +----
 string.go       | 34 +++++++++++++++++++++++++++++++---
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/immutablemap.go b/immutablemap.go
index 1d25bda..30ff2d1 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -132,10 +132,7 @@ func (t immutableMapValue) PrintJSON(out *strings.Builder) {
 		if i != 0 {
 			out.WriteRune(',')
 		}
-		out.WriteRune(jsonQuote)
-		out.WriteString(entry.Key())
-		out.WriteRune(jsonQuote)
-
+		writeJSONString(out, entry.Key())
 		out.WriteString(": ")
 		value := entry.Value()
 		if value != nil {
diff --git a/sortedmap.go b/sortedmap.go
index 8639b48..09b9c5d 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -133,10 +133,7 @@ func (t sortedMapValue) PrintJSON(out *strings.Builder) {
 		if i != 0 {
 			out.WriteRune(',')
 		}
-		out.WriteRune(jsonQuote)
-		out.WriteString(entry.Key())
-		out.WriteRune(jsonQuote)
-
+		writeJSONString(out, entry.Key())
 		out.WriteString(": ")
 		value := entry.Value()
 		if value != nil {
diff --git a/string.go b/string.go
index 441535b..7e1c0b5 100644
--- a/string.go
+++ b/string.go
@@ -11,7 +11,6 @@ import (
 	"encoding/base64"
 	"fmt"
 	"reflect"
-	"strconv"
 	"strings"
 )
 
@@ -66,12 +65,41 @@ func (s uft8String) Pack(p Packer) {
 	p.PackStr(string(s))
 }
 
+const hexDigits = "0123456789abcdef"
+
+func writeJSONString(out *strings.Builder, s string) {
+	out.WriteRune(jsonQuote)
+	for _, r := range s {
+		switch {
+		case r == jsonQuote || r == '\\':
+			out.WriteByte('\\')
+			out.WriteRune(r)
+		case r == '\n':
+			out.WriteString("\\n")
+		case r == '\r':
+			out.WriteString("\\r")
+		case r == '\t':
+			out.WriteString("\\t")
+		case r < ' ' || r == 0x7f:
+			out.WriteString("\\u00")
+			out.WriteByte(hexDigits[r>>4])
+			out.WriteByte(hexDigits[r&0xf])
+		default:
+			// utf8.RuneError for invalid bytes
+			out.WriteRune(r)
+		}
+	}
+	out.WriteRune(jsonQuote)
+}
+
 func (s uft8String) PrintJSON(out *strings.Builder) {
-	out.WriteString(strconv.Quote(string(s)))
+	writeJSONString(out, string(s))
 }
 
 func (s uft8String) MarshalJSON() ([]byte, error) {
-	return []byte(strconv.Quote(string(s))), nil
+	var out strings.Builder
+	s.PrintJSON(&out)
+	return []byte(out.String()), nil
 }
 
 func (s uft8String) MarshalBinary() ([]byte, error) {
-- 
2.43.0


From f7ff0aed2ab4e255a750651ef03078075e642d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 14/40] fix: print infinite numbers as null in JSON

JSON has no infinity, +Inf is not a valid document.
---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index 858e894..e73851e 100644
--- a/number.go
+++ b/number.go
@@ -349,7 +349,7 @@ func (n longNumber) PrintJSON(out *strings.Builder) {
 
 func (n doubleNumber) PrintJSON(out *strings.Builder) {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		out.WriteString("null")
 	} else {
 		out.WriteString(strconv.FormatFloat(d, 'f', -1, 64))
@@ -374,7 +374,7 @@ func (n longNumber) MarshalJSON() ([]byte, error) {
 
 func (n doubleNumber) MarshalJSON() ([]byte, error) {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return []byte("null"), nil
 	} else {
 		return []byte(strconv.FormatFloat(d, 'f', -1, 64)), nil
-- 
2.43.0


From 88112f3475055ee08de230b1bd30caf2cb83ac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 15/40] fix: convert infinite doubles like NaN to big int and
 decimal

Decimal paniced, and BigInt returned nil, on which all users panic.
---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index e73851e..834144f 100644
--- a/number.go
+++ b/number.go
@@ -479,7 +479,7 @@ func (n longNumber) BigInt() *big.Int {
 
 func (n doubleNumber) BigInt() *big.Int {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return big.NewInt(0)
 	}
 	f := new(big.Float)
@@ -502,7 +502,7 @@ func (n longNumber) Decimal() decimal.Decimal {
 
 func (n doubleNumber) Decimal() decimal.Decimal {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return decimal.NewFromInt(0)
 	}
 	return decimal.NewFromFloat(d)
-- 
2.43.0


From 51dab7fb03d08084687e275e99d9058f3aad429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 16/40] fix: compare numbers of different types in the wider
 type

The result depended on the side: Long(1) was equal to Double(1.5), but
not the reverse. Infinity was not equal to itself.
---
 number.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/number.go b/number.go
index 834144f..aea536f 100644
--- a/number.go
+++ b/number.go
@@ -569,6 +569,9 @@ func (n longNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if other.Type() != LONG {
+		return other.Equal(n)
+	}
 	return n.Long() == other.Long()
 }
 
@@ -580,7 +583,8 @@ func (n doubleNumber) Equal(val Value) bool {
 	if n.IsNaN() || other.IsNaN() {
 		return false
 	}
-	return  math.Abs(n.Double() - other.Double()) < PrecisionLevel
+	left, right := n.Double(), other.Double()
+	return left == right || math.Abs(left - right) < PrecisionLevel
 }
 
 func (n bigIntNumber) Equal(val Value) bool {
@@ -588,6 +592,9 @@ func (n bigIntNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if t := other.Type(); t == DECIMAL || t == DOUBLE {
+		return other.Equal(n)
+	}
 	return n.Int.Cmp(other.BigInt()) == 0
 }
 
@@ -596,6 +603,9 @@ func (n decimalNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if other.Type() == DOUBLE {
+		return other.Equal(n)
+	}
 	return n.Decimal().Cmp(other.Decimal()) == 0
 }
 
-- 
2.43.0


From 313712deb550d76897f1a0e566a7a45b2b80831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 17/40] fix: scale decimals with a positive exponent when
 converting to big int

The coefficient alone is not the value: 5e3 was converted to 5.
---
 number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number.go b/number.go
index aea536f..ed1aefe 100644
--- a/number.go
+++ b/number.go
@@ -493,7 +493,7 @@ func (n bigIntNumber) BigInt() *big.Int {
 }
 
 func (n decimalNumber) BigInt() *big.Int {
-	return decimal.Decimal(n).Floor().Coefficient()
+	return decimal.Decimal(n).Floor().BigInt()
 }
 
 func (n longNumber) Decimal() decimal.Decimal {
-- 
2.43.0


From e2ebc190e7807ad611de7f415098d626617a50ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 18/40] fix: reject exponents of more than four bytes instead
 of panicking

---
 number.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/number.go b/number.go
index ed1aefe..137a49f 100644
--- a/number.go
+++ b/number.go
@@ -288,6 +288,9 @@ func parseExp(s string) (int32, error) {
 		return 0, err
 	}
 	var buf [4]byte
+	if len(bytes) > len(buf) {
+		return 0, strconv.ErrRange
+	}
 	copy(buf[len(buf)-len(bytes):], bytes)
 	val := int32(binary.BigEndian.Uint32(buf[:]))
 	if neg {
-- 
2.43.0


From 2d0bac708705d4a12b0d171009d2d0c3cc57ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 19/40] fix: compare utf8 with raw strings by content from both
 sides

utf8 compared itself with the base64 text of a raw string.
---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 7e1c0b5..8e353f8 100644
--- a/string.go
+++ b/string.go
@@ -113,7 +113,7 @@ func (s uft8String) Equal(val Value) bool {
 	if val == nil || val.Kind() != STRING {
 		return false
 	}
-	return string(s) == val.String()
+	return string(s) == val.(String).Utf8()
 }
 
 func (s uft8String) Len() int {
-- 
2.43.0


From 8506a6b21d6778c341d7d3f14dd8a76e0a04b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 20/40] fix: unseal of input shorter than the nonce returns an
 error

---
 utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.go b/utils.go
index 7a2613b..343d1ec 100644
--- a/utils.go
+++ b/utils.go
@@ -90,6 +90,9 @@ var ErrUnseal = errors.New("unseal error")
 
 func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (Value, error) {
 	var decryptNonce [24]byte
+	if len(encrypted) < len(decryptNonce) {
+		return nil, ErrUnseal
+	}
 	copy(decryptNonce[:], encrypted[:24])
 	decrypted, ok := box.Open(nil, encrypted[24:], &decryptNonce, senderPublicKey, recipientPrivateKey)
 	if !ok {
-- 
2.43.0


From c259559e7347c7c35e046b8ad783c7ae7ef46beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 21/40] fix: InsertAll leaves the caller's slice alone

It replaced nil by Null in the slice of the caller, and mutable lists
kept the slice itself as their storage.
---
 immutablelist.go | 1 +
 immutablemap.go  | 1 +
 solidlist.go     | 1 +
 sortedmap.go     | 1 +
 sparselist.go    | 1 +
 5 files changed, 5 insertions(+)

diff --git a/immutablelist.go b/immutablelist.go
index 33b2b16..d88c731 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -316,6 +316,7 @@ func (t immutableListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list)  // belongs to the caller
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/immutablemap.go b/immutablemap.go
index 30ff2d1..dbdcf39 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -368,6 +368,7 @@ func (t immutableMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
+	list = CopyOf(list)  // belongs to the caller
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/solidlist.go b/solidlist.go
index 9d6a5b5..9e5a229 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -323,6 +323,7 @@ func (t solidListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list)  // belongs to the caller
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/sortedmap.go b/sortedmap.go
index 09b9c5d..51b5d13 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -367,6 +367,7 @@ func (t sortedMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
+	list = CopyOf(list)  // belongs to the caller
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/sparselist.go b/sparselist.go
index 1343c9e..5e40dde 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -408,6 +408,7 @@ func (t sparseListValue) InsertAll(key int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list)  // belongs to the caller
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
-- 
2.43.0


From bf51157409eae1d82bc1408b51fcce3002a14463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 22/40] fix: copies of maps do not share their entries with the
 original

An in-place update of a mutable map changed its immutable copy.
---
 immutablemap.go | 7 +++++--
 sortedmap.go    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/immutablemap.go b/immutablemap.go
index dbdcf39..2912281 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -47,8 +47,11 @@ func ImmutableMap(entries []MapEntry, sorted bool) Map {
 }
 
 func ImmutableMapCopyOf(other Map) Map {
-	t := immutableMapValue(mapEntryCopyOf(other.Entries()))
-	return t
+	entries := mapEntryCopyOf(other.Entries())
+	for i, entry := range entries {
+		entries[i] = ImmutableEntry(entry.Key(), entry.Value())
+	}
+	return immutableMapValue(entries)
 }
 
 func (t immutableMapValue) HashMap() map[string]Value {
diff --git a/sortedmap.go b/sortedmap.go
index 51b5d13..eddd28b 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -48,8 +48,11 @@ func SortedMap(entries []MapEntry, sorted bool) Map {
 }
 
 func SortedMapCopyOf(other Map) Map {
-	t := sortedMapValue(mapEntryCopyOf(other.Entries()))
-	return t
+	entries := mapEntryCopyOf(other.Entries())
+	for i, entry := range entries {
+		entries[i] = MutableEntry(entry.Key(), entry.Value())
+	}
+	return sortedMapValue(entries)
 }
 
 func (t sortedMapValue) HashMap() map[string]Value {
-- 
2.43.0


From 984c87e9b5e9cc7725700280439c884c6e4ef660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 23/40] fix: write nil values like Pack does instead of
 panicking

---
 utils.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 343d1ec..625c82b 100644
--- a/utils.go
+++ b/utils.go
@@ -41,7 +41,11 @@ func Read(r io.Reader) (Value, error) {
 
 func Write(w io.Writer, val Value) error {
 	p := MessagePacker(w)
-	val.Pack(p)
+	if val != nil {
+		val.Pack(p)
+	} else {
+		p.PackNil()
+	}
 	return p.Error()
 }
 
@@ -123,7 +127,11 @@ func WriteStream(w io.Writer, valueC <-chan Value) error {
 			break
 		}
 
-		val.Pack(p)
+		if val != nil {
+			val.Pack(p)
+		} else {
+			p.PackNil()
+		}
 
 	}
 
-- 
2.43.0


From bd482f6db8c5d03e5bc16078b57f7f35b6e24b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 24/40] fix: name of the NULL kind

---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index 8c36e57..dc64ffd 100644
--- a/api.go
+++ b/api.go
@@ -39,6 +39,8 @@ func (k Kind) String() string {
 	switch k {
 	case INVALID:
 		return "INVALID"
+	case NULL:
+		return "NULL"
 	case BOOL:
 		return "BOOL"
 	case NUMBER:
-- 
2.43.0


From 8f510f5af6b56fca94288af4c513dd8a4acb0989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 25/40] fix: return a fresh slice when marshalling null and
 booleans

The caller got the slice all messages are written from.
---
 bool.go | 2 +-
 null.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bool.go b/bool.go
index 0f2ae96..23397a8 100644
--- a/bool.go
+++ b/bool.go
@@ -62,7 +62,7 @@ func (b boolValue) MarshalJSON() ([]byte, error) {
 
 func (b boolValue) MarshalBinary() ([]byte, error) {
 	var m messageWriter
-	return m.WriteBool(bool(b)), nil
+	return append([]byte(nil), m.WriteBool(bool(b))...), nil  // shared
 }
 
 func (b boolValue) Equal(val Value) bool {
diff --git a/null.go b/null.go
index 5d1ee8f..0025d5c 100644
--- a/null.go
+++ b/null.go
@@ -57,7 +57,7 @@ func (n nullValue) MarshalJSON() ([]byte, error) {
 
 func (n nullValue) MarshalBinary() ([]byte, error) {
 	var m messageWriter
-	return m.WriteNil(), nil
+	return append([]byte(nil), m.WriteNil()...), nil  // shared
 }
 
 func (n nullValue) Equal(val Value) bool {
-- 
2.43.0


From db5fe0e497fd884ffb84cd3b916c6de0426827dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 26/40] fix: unpack the values of repeated fields

The element was appended, by copy, before its value was set.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 8629bc5..8b3fbe2 100644
--- a/struct.go
+++ b/struct.go
@@ -310,7 +310,6 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
-						sliceValue = reflect.Append(sliceValue, elemValue)
 						val, err := doParse(unpacker, parser)
 						if err != nil {
 							return errors.Errorf("fail to parse value %v", err)
@@ -319,6 +318,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						if err != nil {
 							return errors.Errorf("fail to set value %v", err)
 						}
+						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
 					fieldValue.Set(sliceValue)
 				}
-- 
2.43.0


From 8a508217c26c0cacf4ac4e6bd73d40a0f850ff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 27/40] fix: nil struct pointers and elements return an error

---
 struct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/struct.go b/struct.go
index 8b3fbe2..7fec946 100644
--- a/struct.go
+++ b/struct.go
@@ -66,6 +66,9 @@ type packingField struct {
 }
 
 func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema) error {
+	if !value.IsValid() {
+		return errors.New("nil pointer instead of a struct")
+	}
 	var list []*packingField
 	cnt := 0
 	for _, field := range schema.SortedFields {
@@ -235,6 +238,9 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 
 
 func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *Schema) error {
+	if !value.IsValid() {
+		return errors.New("nil pointer instead of a struct")
+	}
 	format, header := unpacker.Next()
 	if format != MapHeader {
 		return errors.Errorf("expected MapHeader for struct, but got %v", format)
-- 
2.43.0


From 836fcfe5d5cf71e01001e000f04de216ede0136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 28/40] fix: do not allocate struct lists for sizes the input
 only declares

An array type, which is never freed, was created per declared size.
---
 struct.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index 7fec946..e1cb214 100644
--- a/struct.go
+++ b/struct.go
@@ -272,11 +272,11 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						return errors.Errorf("expected ListHeader for array field, but got %v", listFormat)
 					}
 					listCnt := parser.ParseList(listHeader)
-					arrayType := reflect.ArrayOf(listCnt, field.FieldType.Elem())
-					arrayValue := reflect.New(arrayType).Elem()
+					elemType := field.FieldType.Elem()
+					sliceValue := reflect.MakeSlice(reflect.SliceOf(elemType), 0, initialCap(listCnt))
 
 					for j := 0; j < listCnt; j++ {
-						elemValue := arrayValue.Index(j)
+						elemValue := reflect.New(elemType).Elem()
 						if field.Struct {
 							structValue := reflect.New(elemValue.Type().Elem())
 							elemValue.Set(structValue)
@@ -294,8 +294,9 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 								return errors.Errorf("fail to set value %v", err)
 							}
 						}
+						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
-					fieldValue.Set(arrayValue.Slice(0, listCnt))
+					fieldValue.Set(sliceValue)
 				} else {
 					var sliceValue reflect.Value
 					if !fieldValue.IsNil() {
-- 
2.43.0


From 670ddda6808cf2509cf030846d947546eaeabb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 29/40] fix: pack and unpack array fields

They are accepted by the schema, but IsNil and Set panic on arrays.
---
 struct.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index e1cb214..e4eb1dc 100644
--- a/struct.go
+++ b/struct.go
@@ -76,7 +76,7 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 			field: field,
 			fieldValue: value.Field(field.FieldNum),
 		}
-		if !f.fieldValue.IsNil() {
+		if f.fieldValue.Kind() == reflect.Array || !f.fieldValue.IsNil() {
 			list = append(list, f)
 			if f.field.Array && f.field.Repeated {
 				cnt += f.fieldValue.Len()
@@ -197,6 +197,9 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 		if field.Type.Kind() == reflect.Slice || field.Type.Kind() == reflect.Array {
 			fieldType = fieldType.Elem()
 			array = true
+			if repeated && field.Type.Kind() == reflect.Array {
+				return nil, errors.Errorf("repeated field '%s' in class '%v' is not a slice", field.Name, classPtr)
+			}
 		}
 		if fieldType.Implements(ValueClass) {
 			f := &Field{
@@ -296,7 +299,14 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						}
 						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
-					fieldValue.Set(sliceValue)
+					if fieldValue.Kind() == reflect.Array {
+						if listCnt != fieldValue.Len() {
+							return errors.Errorf("expected %d elements for array field %v, but got %d", fieldValue.Len(), field.FieldName, listCnt)
+						}
+						reflect.Copy(fieldValue, sliceValue)
+					} else {
+						fieldValue.Set(sliceValue)
+					}
 				} else {
 					var sliceValue reflect.Value
 					if !fieldValue.IsNil() {
-- 
2.43.0


From cb13bf10d4df2999601066750521d525c37f3f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 30/40] fix: struct types that refer to themselves

Reflecting the schema recursed until the stack overflowed.
---
 struct.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index e4eb1dc..2433ec0 100644
--- a/struct.go
+++ b/struct.go
@@ -166,7 +166,7 @@ func (t sortableFields) Less(i, j int) bool {
 func reflectSchema(classPtr reflect.Type) (*Schema, error) {
 	if val, ok := schemaCache.Load(classPtr); ok {
 		return val.(*Schema), nil
-	} else if schema, err := doReflectSchema(classPtr); err != nil {
+	} else if schema, err := doReflectSchema(classPtr, make(map[reflect.Type]*Schema)); err != nil {
 		return nil, err
 	} else {
 		schemaCache.Store(classPtr, schema)
@@ -174,7 +174,13 @@ func reflectSchema(classPtr reflect.Type) (*Schema, error) {
 	}
 }
 
-func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
+// pending has schemas of this call, classes can refer to each other
+func doReflectSchema(classPtr reflect.Type, pending map[reflect.Type]*Schema) (*Schema, error) {
+	if schema, ok := pending[classPtr]; ok {
+		return schema, nil
+	}
+	schema := new(Schema)
+	pending[classPtr] = schema
 	fields := make(map[int]*Field)
 	var sortedFields []*Field
 	class := classPtr.Elem()
@@ -215,7 +221,7 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 			sortedFields = append(sortedFields, f)
 		} else if fieldType.Kind() != reflect.Ptr {
 			return nil, errors.Errorf("tagged field '%s' in class '%v' with type '%v' does not implement value.Value interface and non-ptr", field.Name, field.Type, classPtr)
-		} else if fieldSchema, err := reflectSchema(fieldType); err != nil {
+		} else if fieldSchema, err := doReflectSchema(fieldType, pending); err != nil {
 			return nil, errors.Errorf("struct field '%s' in class '%v' has wrong schema, %v", field.Name, classPtr, err)
 		} else {
 			f := &Field{
@@ -233,10 +239,9 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 		}
 	}
 	sort.Sort(sortableFields(sortedFields))
-	return &Schema {
-		Fields: fields,
-		SortedFields: sortedFields,
-	}, nil
+	schema.Fields = fields
+	schema.SortedFields = sortedFields
+	return schema, nil
 }
 
 
-- 
2.43.0


From 8ea4a265ca99c9c51afed3fd8e96e1f29d27a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 31/40] fix: limit the nesting of decoded collections

A few megabytes of nested list headers overflowed the stack, which
ends the process and can not be recovered.
---
 unpack.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/unpack.go b/unpack.go
index 8c7b298..d6072a8 100644
--- a/unpack.go
+++ b/unpack.go
@@ -13,7 +13,18 @@ import (
 )
 
 
+// limits the stack that is used by nested collections
+const maxNesting = 10000
+
 func doParse(unpacker Unpacker, parser Parser) (Value, error) {
+	return doParseNested(unpacker, parser, 0)
+}
+
+func doParseNested(unpacker Unpacker, parser Parser, nesting int) (Value, error) {
+
+	if nesting > maxNesting {
+		return nil, errors.Errorf("parse: nesting exceeds %d", maxNesting)
+	}
 
 	format, header := unpacker.Next()
 
@@ -55,9 +66,9 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 		}
 		return Utf8(string(str)), nil
 	case ListHeader:
-		return doParseList(header, unpacker, parser)
+		return doParseList(header, unpacker, parser, nesting+1)
 	case MapHeader:
-		return doParseMap(header, unpacker, parser)
+		return doParseMap(header, unpacker, parser, nesting+1)
 	case ExtHeader:
 		n, _ := parser.ParseExt(header)
 		if parser.Error() != nil {
@@ -74,7 +85,7 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 
 }
 
-func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
+func doParseList(header []byte, unpacker Unpacker, parser Parser, nesting int) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -84,7 +95,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	}
 	list := make([]Value, 0, initialCap(cnt))
 	for i := 0; i < cnt; i++ {
-		el, err := doParse(unpacker, parser)
+		el, err := doParseNested(unpacker, parser, nesting)
 		if err != nil {
 			return nil, unexpectedEnd(err)
 		}
@@ -93,7 +104,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	return ImmutableList(list), nil
 }
 
-func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error) {
+func doParseMap(header []byte, unpacker Unpacker, parser Parser, nesting int) (Value, error) {
 	cnt := parser.ParseMap(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -109,11 +120,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParse(unpacker, parser)
+		key, err := doParseNested(unpacker, parser, nesting)
 		if err != nil {
 			return nil, unexpectedEnd(err)
 		}
-		value, err := doParse(unpacker, parser)
+		value, err := doParseNested(unpacker, parser, nesting)
 		if err != nil {
 			return nil, unexpectedEnd(err)
 		}
-- 
2.43.0


From eb83f4b71b9a6319aa802a6773c641b7301a2dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 32/40] fix: limit the nesting of decoded structs

A struct type that refers to itself is as deep as the input says.
---
 struct.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/struct.go b/struct.go
index 2433ec0..b072f85 100644
--- a/struct.go
+++ b/struct.go
@@ -246,6 +246,13 @@ func doReflectSchema(classPtr reflect.Type, pending map[reflect.Type]*Schema) (*
 
 
 func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *Schema) error {
+	return parseStruct(unpacker, parser, value, schema, 0)
+}
+
+func parseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *Schema, nesting int) error {
+	if nesting > maxNesting {
+		return errors.Errorf("parse: nesting exceeds %d", maxNesting)
+	}
 	if !value.IsValid() {
 		return errors.New("nil pointer instead of a struct")
 	}
@@ -288,7 +295,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						if field.Struct {
 							structValue := reflect.New(elemValue.Type().Elem())
 							elemValue.Set(structValue)
-							err := ParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema)
+							err := parseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, nesting+1)
 							if err != nil {
 								return errors.Errorf("fail to set struct value %v", err)
 							}
@@ -326,7 +333,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						structValue := reflect.New(ptrType.Elem())
 						elemValue.Set(structValue)
 						sliceValue = reflect.Append(sliceValue, elemValue)
-						err := ParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema)
+						err := parseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, nesting+1)
 						if err != nil {
 							return errors.Errorf("fail to set struct value %v", err)
 						}
@@ -345,7 +352,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 					fieldValue.Set(sliceValue)
 				}
 			} else {
-				err = parseFieldValue(unpacker, parser, field, fieldValue)
+				err = parseFieldValue(unpacker, parser, field, fieldValue, nesting)
 				if err != nil {
 					return errors.Errorf("parse field on position %d, %v", i, err)
 				}
@@ -357,7 +364,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 	return nil
 }
 
-func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue reflect.Value) error {
+func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue reflect.Value, nesting int) error {
 	if field.Struct {
 		if fieldValue.IsNil() {
 			if fieldValue.CanSet() {
@@ -366,7 +373,7 @@ func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue
 				return errors.Errorf("can not set empty struct value to field %v", field.FieldName)
 			}
 		}
-		err := ParseStruct(unpacker, parser, fieldValue.Elem(), field.FieldSchema)
+		err := parseStruct(unpacker, parser, fieldValue.Elem(), field.FieldSchema, nesting+1)
 		if err != nil {
 			return errors.Errorf("fail to set struct value %v", err)
 		}
-- 
2.43.0


From 996bbbcaa51b1b7978e4c2c1558b5fc0899da6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 33/40] fix: return an error for pointers to other types than
 structs

---
 struct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index b072f85..ba55da5 100644
--- a/struct.go
+++ b/struct.go
@@ -34,7 +34,7 @@ func UnpackStruct(buf []byte, obj interface{}, copy bool) error {
 	unpacker := MessageUnpacker(buf, copy)
 	parser := MessageParser()
 	classPtr := reflect.TypeOf(obj)
-	if classPtr.Kind() != reflect.Ptr {
+	if classPtr == nil || classPtr.Kind() != reflect.Ptr {
 		return errors.Errorf("non-pointer instance is not allowed in '%v'", classPtr)
 	}
 	if schema, err := reflectSchema(classPtr); err != nil {
@@ -184,6 +184,9 @@ func doReflectSchema(classPtr reflect.Type, pending map[reflect.Type]*Schema) (*
 	fields := make(map[int]*Field)
 	var sortedFields []*Field
 	class := classPtr.Elem()
+	if class.Kind() != reflect.Struct {
+		return nil, errors.Errorf("pointer to a struct is expected, but got '%v'", classPtr)
+	}
 	for j := 0; j < class.NumField(); j++ {
 		field := class.Field(j)
 		repeated := false
-- 
2.43.0


From c02f732debabad780849a32402a5c340d8c48206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:11 +0000
Subject: [PATCH 34/40] fix: return an error when packing unexported fields

---
 struct.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/struct.go b/struct.go
index ba55da5..0f5c095 100644
--- a/struct.go
+++ b/struct.go
@@ -120,6 +120,8 @@ func doReflectPackValue(p *messagePacker, value reflect.Value, entry *packingFie
 		if err := doReflectPackStruct(p, value.Elem(), entry.field.FieldSchema); err != nil {
 			return errors.Errorf("can not pack field %v, inner struct error %v", value, err)
 		}
+	} else if !value.CanInterface() {
+		return errors.Errorf("can not get value of unexported field %v", entry.field.FieldName)
 	} else {
 		fieldObject := value.Interface()
 		if val, ok := fieldObject.(Value); ok {
-- 
2.43.0


From 9976e40e0bd17ab337cd43f9deae7d13e694e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 35/40] fix: reject struct types with the same tag in two
 fields

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index 0f5c095..05e9be3 100644
--- a/struct.go
+++ b/struct.go
@@ -203,6 +203,9 @@ func doReflectSchema(classPtr reflect.Type, pending map[reflect.Type]*Schema) (*
 		if err != nil {
 			return nil, errors.Errorf("invalid tag number '%s' in field '%s' in class '%v'", tagStr, field.Name, classPtr)
 		}
+		if same, ok := fields[tag]; ok {
+			return nil, errors.Errorf("same tag %d in fields '%s' and '%s' in class '%v'", tag, same.FieldName, field.Name, classPtr)
+		}
 		array := false
 		fieldType := field.Type
 		if field.Type.Kind() == reflect.Slice || field.Type.Kind() == reflect.Array {
-- 
2.43.0


From 592bff507bb344a32c24dc156ba84c80ed19aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 36/40] fix: accept only integers as tags

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 05e9be3..f1f15b1 100644
--- a/struct.go
+++ b/struct.go
@@ -277,7 +277,7 @@ func parseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 		if err != nil {
 			return errors.Errorf("fail to parse key on position %d, %v", i, err)
 		}
-		if key.Kind() != NUMBER {
+		if num, ok := key.(Number); !ok || num.Type() != LONG {
 			return errors.Errorf("expected int key, but got %s on position %d", key.Kind().String(), i)
 		}
 		tag := int(key.(Number).Long())
-- 
2.43.0


From 626b030301c081890976d3336026a7ac0d8164f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 37/40] fix: pack fields of value types that can not be nil

---
 struct.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index f1f15b1..3ef8df5 100644
--- a/struct.go
+++ b/struct.go
@@ -76,7 +76,7 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 			field: field,
 			fieldValue: value.Field(field.FieldNum),
 		}
-		if f.fieldValue.Kind() == reflect.Array || !f.fieldValue.IsNil() {
+		if !isNilField(f.fieldValue) {
 			list = append(list, f)
 			if f.field.Array && f.field.Repeated {
 				cnt += f.fieldValue.Len()
@@ -115,6 +115,15 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 	return nil
 }
 
+func isNilField(value reflect.Value) bool {
+	switch value.Kind() {
+	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+		return value.IsNil()
+	default:
+		return false
+	}
+}
+
 func doReflectPackValue(p *messagePacker, value reflect.Value, entry *packingField) error {
 	if entry.field.Struct {
 		if err := doReflectPackStruct(p, value.Elem(), entry.field.FieldSchema); err != nil {
-- 
2.43.0


From 898f080a0af8e2b484a121b852d704820475e6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 38/40] fix: numeric map keys other than integers are not list
 indexes

---
 unpack.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unpack.go b/unpack.go
index d6072a8..999a7ba 100644
--- a/unpack.go
+++ b/unpack.go
@@ -136,7 +136,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser, nesting int) (V
 
 		// first element
 		if i == 0 {
-			if key.Kind() == NUMBER {
+			if isIndex(key) {
 				// try to build sparse list
 				mayBeList = true
 				sparseListItems = make([]ListItem, 0, initialCap(cnt))
@@ -148,7 +148,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser, nesting int) (V
 
 		if mayBeList {
 
-			if key.Kind() == NUMBER {
+			if isIndex(key) {
 				k := key.(Number).Long()
 				if i > 0 && prevListKey > k {
 					sorted = false
@@ -187,6 +187,12 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser, nesting int) (V
 
 }
 
+// other numbers are not exact as an index
+func isIndex(key Value) bool {
+	num, ok := key.(Number)
+	return ok && num.Type() == LONG
+}
+
 // limit memory that is allocated for a declared, not yet received, size
 const (
 	maxInitialCap  = 16    // elements
-- 
2.43.0


From f6ecc70009d13496e25431488029ef12cf113a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:19 +0000
Subject: [PATCH 39/40] fix: collections as keys of keys needed exponential
 memory

---
 unpack.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/unpack.go b/unpack.go
index 999a7ba..e0b3163 100644
--- a/unpack.go
+++ b/unpack.go
@@ -17,10 +17,10 @@ import (
 const maxNesting = 10000
 
 func doParse(unpacker Unpacker, parser Parser) (Value, error) {
-	return doParseNested(unpacker, parser, 0)
+	return doParseNested(unpacker, parser, 0, false)
 }
 
-func doParseNested(unpacker Unpacker, parser Parser, nesting int) (Value, error) {
+func doParseNested(unpacker Unpacker, parser Parser, nesting int, inKey bool) (Value, error) {
 
 	if nesting > maxNesting {
 		return nil, errors.Errorf("parse: nesting exceeds %d", maxNesting)
@@ -66,9 +66,9 @@ func doParseNested(unpacker Unpacker, parser Parser, nesting int) (Value, error)
 		}
 		return Utf8(string(str)), nil
 	case ListHeader:
-		return doParseList(header, unpacker, parser, nesting+1)
+		return doParseList(header, unpacker, parser, nesting+1, inKey)
 	case MapHeader:
-		return doParseMap(header, unpacker, parser, nesting+1)
+		return doParseMap(header, unpacker, parser, nesting+1, inKey)
 	case ExtHeader:
 		n, _ := parser.ParseExt(header)
 		if parser.Error() != nil {
@@ -85,7 +85,7 @@ func doParseNested(unpacker Unpacker, parser Parser, nesting int) (Value, error)
 
 }
 
-func doParseList(header []byte, unpacker Unpacker, parser Parser, nesting int) (List, error) {
+func doParseList(header []byte, unpacker Unpacker, parser Parser, nesting int, inKey bool) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -95,7 +95,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser, nesting int) (
 	}
 	list := make([]Value, 0, initialCap(cnt))
 	for i := 0; i < cnt; i++ {
-		el, err := doParseNested(unpacker, parser, nesting)
+		el, err := doParseNested(unpacker, parser, nesting, inKey)
 		if err != nil {
 			return nil, unexpectedEnd(err)
 		}
@@ -104,7 +104,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser, nesting int) (
 	return ImmutableList(list), nil
 }
 
-func doParseMap(header []byte, unpacker Unpacker, parser Parser, nesting int) (Value, error) {
+func doParseMap(header []byte, unpacker Unpacker, parser Parser, nesting int, inKey bool) (Value, error) {
 	cnt := parser.ParseMap(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -120,11 +120,15 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser, nesting int) (V
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParseNested(unpacker, parser, nesting)
+		key, err := doParseNested(unpacker, parser, nesting, true)
 		if err != nil {
 			return nil, unexpectedEnd(err)
 		}
-		value, err := doParseNested(unpacker, parser, nesting)
+		if inKey && (key.Kind() == LIST || key.Kind() == MAP) {
+			// the text of a key contains the text of its keys, they would multiply
+			return nil, errors.New("parse: collection as a key inside of a key")
+		}
+		value, err := doParseNested(unpacker, parser, nesting, inKey)
 		if err != nil {
 			return nil, unexpectedEnd(err)
 		}
-- 
2.43.0


From 325cc315a90b67b9e218de2b0ceb5bcc9a1b22da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:59 +0000
Subject: [PATCH 40/40] fix: entries and items with equal keys keep their order
 when more than twelve are sorted

---
 immutablemap.go | 2 +-
 sortedmap.go    | 2 +-
 sparselist.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/immutablemap.go b/immutablemap.go
index 2912281..409b0ae 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -41,7 +41,7 @@ func ImmutableMapOf(src map[string]Value) Map {
 func ImmutableMap(entries []MapEntry, sorted bool) Map {
 	t := immutableMapValue(entries)
 	if !sorted {
-		sort.Sort(t)
+		sort.Stable(t)
 	}
 	return t
 }
diff --git a/sortedmap.go b/sortedmap.go
index eddd28b..0b5f0a6 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -42,7 +42,7 @@ func SortedMapOf(src map[string]Value) Map {
 func SortedMap(entries []MapEntry, sorted bool) Map {
 	t := sortedMapValue(entries)
 	if !sorted {
-		sort.Sort(t)
+		sort.Stable(t)
 	}
 	return t
 }
diff --git a/sparselist.go b/sparselist.go
index 5e40dde..5c50367 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -49,7 +49,7 @@ func SparseListOf(list []Value) List {
 
 func SparseList(items []ListItem, sorted bool) List {
 	if !sorted {
-		sort.Sort(sortableItems(items))
+		sort.Stable(sortableItems(items))
 	}
 	return sparseListValue(items)
 }
-- 
2.43.0

