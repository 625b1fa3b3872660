From b9c3413380ec423df8f0cac8e9203b4d81952663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 01/14] fix: thriftcompact: keep the underlying writer across
 Writer.Reset

After Reset, Flush no longer called the Flush method of the underlying io.Writer.
---
 encoding/thriftcompact/thriftcompact.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index fc079ff..226eca1 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -534,6 +534,7 @@ func (x *writer) Reset(uw io.Writer) {
 	x.Writer.Reset(uw)
 	*x = writer{
 		Writer:       x.Writer,
+		uw:           uw,
 		lastFieldIDs: x.lastFieldIDs[:0],
 	}
 }
-- 
2.43.0


From f6a4cf6358e5183afa4d72fea1dde951f5838251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 02/14] fix: thriftwire: do not wait for bytes beyond a varint

ReadUvarint and ReadVarint peeked 10 bytes, which blocks on a live stream
that ends (for now) with a complete message.
---
 encoding/thriftwire/varint.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoding/thriftwire/varint.go b/encoding/thriftwire/varint.go
index 99163bb..270955e 100644
--- a/encoding/thriftwire/varint.go
+++ b/encoding/thriftwire/varint.go
@@ -7,7 +7,9 @@ import (
 
 // ReadUvarint is like [binary.ReadUvarint] but optimized for [bufio.Reader].
 func ReadUvarint(b *bufio.Reader) (uint64, error) {
-	if buf, _ := b.Peek(binary.MaxVarintLen64); len(buf) > 0 {
+	// Only look at buffered bytes: peeking further may block on a live stream
+	// waiting for bytes beyond the varint.
+	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
 		if x, n := binary.Uvarint(buf); n > 0 {
 			_, err := b.Discard(n)
 			return x, err
@@ -18,7 +20,9 @@ func ReadUvarint(b *bufio.Reader) (uint64, error) {
 
 // ReadVarint is like [binary.ReadVarint] but optimized for [bufio.Reader].
 func ReadVarint(b *bufio.Reader) (int64, error) {
-	if buf, _ := b.Peek(binary.MaxVarintLen64); len(buf) > 0 {
+	// Only look at buffered bytes: peeking further may block on a live stream
+	// waiting for bytes beyond the varint.
+	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
 		if x, n := binary.Varint(buf); n > 0 {
 			_, err := b.Discard(n)
 			return x, err
-- 
2.43.0


From 4fd82d61bc401784ab348a7421872a03ae36edba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 03/14] fix: thriftcompact: write negative sequence IDs as
 32-bit varints

---
 encoding/thriftcompact/thriftcompact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 226eca1..9312392 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -312,7 +312,7 @@ func (x *writer) WriteMessageBegin(h thriftwire.MessageHeader) (err error) {
 	if err != nil {
 		return err
 	}
-	err = x.writeUvarint(uint64(h.ID))
+	err = x.writeUvarint(uint64(uint32(h.ID)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b3d52f8e05808298500b8bd04a3f0faaf8a44c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 04/14] fix: thriftcompact: do not use the short field form
 when the ID delta wraps around

---
 encoding/thriftcompact/thriftcompact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 9312392..8c8aee8 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -361,7 +361,7 @@ func appendFieldHeader(buf []byte, opts appendFieldHeaderOptions) (_ []byte, err
 			return buf, err
 		}
 	}
-	if delta := opts.h.ID - opts.lastFieldID; delta > 0 && delta <= 15 {
+	if delta := int32(opts.h.ID) - int32(opts.lastFieldID); delta > 0 && delta <= 15 {
 		return append(buf, byte(delta<<4)|byte(t)), nil
 	}
 	buf = append(buf, byte(t))
-- 
2.43.0


From e15c8d5d1f78a0de59b4784be237e20e6e976b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 05/14] fix: reject negative container sizes when reading

A list, set or map header with a negative (binary) or overflowing (compact)
size was silently read as an empty container.
---
 encoding/thriftbinary/thriftbinary.go   | 12 ++++++++++--
 encoding/thriftcompact/thriftcompact.go | 10 ++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/encoding/thriftbinary/thriftbinary.go b/encoding/thriftbinary/thriftbinary.go
index 8af57f4..16e8040 100644
--- a/encoding/thriftbinary/thriftbinary.go
+++ b/encoding/thriftbinary/thriftbinary.go
@@ -133,7 +133,7 @@ func (x *reader) ReadMapBegin() (h thriftwire.MapHeader, err error) {
 	if err != nil {
 		return h, err
 	}
-	h.Size, err = x.readSize()
+	h.Size, err = x.readContainerSize()
 	return h, err
 }
 
@@ -146,7 +146,7 @@ func (x *reader) ReadSetBegin() (h thriftwire.SetHeader, err error) {
 	if err != nil {
 		return h, err
 	}
-	h.Size, err = x.readSize()
+	h.Size, err = x.readContainerSize()
 	return h, err
 }
 
@@ -250,6 +250,14 @@ func (x *reader) readSize() (int, error) {
 	return int(v), err
 }
 
+func (x *reader) readContainerSize() (int, error) {
+	n, err := x.readSize()
+	if err == nil && n < 0 {
+		err = fmt.Errorf("thriftbinary: negative container size %d", n)
+	}
+	return n, err
+}
+
 type writer struct {
 	*bufio.Writer
 	w      io.Writer
diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 8c8aee8..4da13ed 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -136,6 +136,13 @@ func (x *reader) ReadFieldEnd() error {
 
 func readSize(b *bufio.Reader) (int, error) {
 	v, err := binary.ReadUvarint(b)
+	return checkSize(v, err)
+}
+
+func checkSize(v uint64, err error) (int, error) {
+	if err == nil && v > math.MaxInt {
+		err = fmt.Errorf("thriftcompact: size %d overflows int", v)
+	}
 	return int(v), err
 }
 
@@ -282,8 +289,7 @@ func (x *reader) readUvarint() (uint64, error) {
 }
 
 func (x *reader) readSize() (int, error) {
-	v, err := x.readUvarint()
-	return int(v), err
+	return checkSize(x.readUvarint())
 }
 
 func (x *reader) Reset(r io.Reader) {
-- 
2.43.0


From 7bf493738a24cd18a7eb74a8aaef029e737775dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 06/14] fix: thriftbinary: report sizes that do not fit in an
 int32

They were silently truncated, producing a corrupt stream.
---
 encoding/thriftbinary/thriftbinary.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/thriftbinary/thriftbinary.go b/encoding/thriftbinary/thriftbinary.go
index 16e8040..a8efe63 100644
--- a/encoding/thriftbinary/thriftbinary.go
+++ b/encoding/thriftbinary/thriftbinary.go
@@ -421,5 +421,8 @@ func (x *writer) writeType(t thriftwire.Type) error {
 }
 
 func (x *writer) writeSize(v int) error {
+	if v > math.MaxInt32 {
+		return fmt.Errorf("thriftbinary: size %d overflows int32", v)
+	}
 	return x.WriteI32(int32(v))
 }
-- 
2.43.0


From 8afb9b1502926b90e22591d0a7987a550e3fab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 07/14] fix: do not reset a caller's bufio.Reader or
 bufio.Writer

Reset on a Reader or Writer that was created on top of a large enough
*bufio.Reader or *bufio.Writer redirected the caller's own buffer to the
new stream and dropped what it held.
---
 encoding/thriftbinary/thriftbinary.go   | 22 ++++++++++++++++++++--
 encoding/thriftcompact/thriftcompact.go |  9 +++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/encoding/thriftbinary/thriftbinary.go b/encoding/thriftbinary/thriftbinary.go
index a8efe63..2662fc8 100644
--- a/encoding/thriftbinary/thriftbinary.go
+++ b/encoding/thriftbinary/thriftbinary.go
@@ -60,11 +60,23 @@ var (
 
 type reader struct {
 	*bufio.Reader
+	r      io.Reader
 	strict bool
 }
 
 func newReader(r io.Reader, strict bool) *reader {
-	return &reader{Reader: bufio.NewReader(r), strict: strict}
+	return &reader{Reader: bufio.NewReader(r), r: r, strict: strict}
+}
+
+func (x *reader) Reset(r io.Reader) {
+	// bufio.NewReader may have returned the underlying reader itself,
+	// which is not ours to reset.
+	if io.Reader(x.Reader) == x.r {
+		x.Reader = bufio.NewReader(r)
+	} else {
+		x.Reader.Reset(r)
+	}
+	x.r = r
 }
 
 func (x *reader) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
@@ -408,7 +420,13 @@ func (x *writer) Flush() error {
 }
 
 func (x *writer) Reset(w io.Writer) {
-	x.Writer.Reset(w)
+	// bufio.NewWriter may have returned the underlying writer itself,
+	// which is not ours to reset.
+	if io.Writer(x.Writer) == x.w {
+		x.Writer = bufio.NewWriter(w)
+	} else {
+		x.Writer.Reset(w)
+	}
 	x.w = w
 }
 
diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 4da13ed..a33ecc3 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -293,7 +293,6 @@ func (x *reader) readSize() (int, error) {
 }
 
 func (x *reader) Reset(r io.Reader) {
-	x.Reader.Reset(r)
 	*x = reader{
 		Reader:       bufio.NewReader(r),
 		lastFieldIDs: x.lastFieldIDs[:0],
@@ -537,7 +536,13 @@ func (x *writer) Flush() error {
 }
 
 func (x *writer) Reset(uw io.Writer) {
-	x.Writer.Reset(uw)
+	// bufio.NewWriter may have returned the underlying writer itself,
+	// which is not ours to reset.
+	if io.Writer(x.Writer) == x.uw {
+		x.Writer = bufio.NewWriter(uw)
+	} else {
+		x.Writer.Reset(uw)
+	}
 	*x = writer{
 		Writer:       x.Writer,
 		uw:           uw,
-- 
2.43.0


From 7c02772e73ec0f1b4462d79bf28146431482b521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 08/14] fix: thrift: reject Go structs with duplicate field IDs

Marshal wrote both fields under the same ID and Unmarshal stored both into
the last one, silently losing data.
---
 thrift/fields.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/thrift/fields.go b/thrift/fields.go
index e67ecec..fda7f61 100644
--- a/thrift/fields.go
+++ b/thrift/fields.go
@@ -34,6 +34,8 @@ type structField struct {
 func makeStructFields(t reflect.Type) (structFields, *SemanticError) {
 	var allFields []structField
 
+	fieldByID := make(map[int16]string) // from field ID to Go field name
+
 	var hasAnyThriftTag bool   // whether any Go struct field has a `thrift` tag
 	var hasAnyThriftField bool // whether any Thrift serializable fields exist in current struct
 	for i := 0; i < t.NumField(); i++ {
@@ -48,6 +50,12 @@ func makeStructFields(t reflect.Type) (structFields, *SemanticError) {
 		}
 		hasAnyThriftField = true
 
+		if name, ok := fieldByID[options.id]; ok {
+			err := fmt.Errorf("Go struct fields %s and %s have the same field ID %d", name, sf.Name, options.id)
+			return structFields{}, &SemanticError{GoType: t, Err: err}
+		}
+		fieldByID[options.id] = sf.Name
+
 		f := structField{
 			index:        sf.Index,
 			typ:          sf.Type,
-- 
2.43.0


From 370ac8d62b3e72ee2fda8592efae03089bdb0d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 09/14] fix: thrift: support recursive slice, map and pointer
 types

Looking up the arshaler of a type such as `type T []T` recursed until the
stack overflowed, crashing the process.
---
 thrift/arshal_default.go | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index dc6854b..bea7c7e 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -397,10 +397,18 @@ func (va addressableValue) indirect(mayAlloc bool) addressableValue {
 
 func makeMapArshaler(t reflect.Type) *arshaler {
 	var fncs arshaler
-	keyFncs := lookupArshaler(t.Key())
-	valFncs := lookupArshaler(t.Elem())
+	var (
+		once    sync.Once
+		keyFncs *arshaler
+		valFncs *arshaler
+	)
+	init := func() {
+		keyFncs = lookupArshaler(t.Key())
+		valFncs = lookupArshaler(t.Elem())
+	}
 	fncs.wireType = thriftwire.Map
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		once.Do(init)
 		if keyFncs.wireType == thriftwire.Stop || valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t}
 		}
@@ -436,6 +444,7 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		return nil
 	}
 	fncs.unmarshal = func(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, wt thriftwire.Type) error {
+		once.Do(init)
 		if wt != thriftwire.Map {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
@@ -490,9 +499,16 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 	readEnd func(thriftwire.Reader) error,
 ) *arshaler {
 	var fncs arshaler
-	valFncs := lookupArshaler(t.Elem())
+	var (
+		once    sync.Once
+		valFncs *arshaler
+	)
+	init := func() {
+		valFncs = lookupArshaler(t.Elem())
+	}
 	fncs.wireType = wireType
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		once.Do(init)
 		if valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t}
 		}
@@ -519,6 +535,7 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		return nil
 	}
 	fncs.unmarshal = func(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, wt thriftwire.Type) error {
+		once.Do(init)
 		if wt != wireType {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
@@ -595,6 +612,9 @@ func makeListArshaler(t reflect.Type) *arshaler {
 }
 
 func makePointerArshaler(t reflect.Type) *arshaler {
+	if isPointerCycle(t) {
+		return makeInvalidArshaler(t)
+	}
 	var fncs arshaler
 	valFncs := lookupArshaler(t.Elem())
 	fncs.wireType = valFncs.wireType
@@ -616,6 +636,19 @@ func makePointerArshaler(t reflect.Type) *arshaler {
 	return &fncs
 }
 
+// isPointerCycle reports whether t is a pointer type that
+// refers to itself through nothing but pointers.
+func isPointerCycle(t reflect.Type) bool {
+	seen := make(map[reflect.Type]bool)
+	for ; t.Kind() == reflect.Pointer; t = t.Elem() {
+		if seen[t] {
+			return true
+		}
+		seen[t] = true
+	}
+	return false
+}
+
 func makeInvalidArshaler(t reflect.Type) *arshaler {
 	var fncs arshaler
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
-- 
2.43.0


From 4dc631c4620a5cb9340b3806c038098d627c0b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 10/14] fix: bound the nesting depth when marshaling,
 unmarshaling and skipping

Deeply nested input (and cyclic values, when marshaling) overflowed the
stack, which cannot be recovered from and crashes the process.
---
 encoding/thriftwire/skip.go | 27 +++++++++++++++++++++------
 thrift/arshal.go            | 14 ++++++++++++--
 thrift/arshal_default.go    | 18 ++++++++++++++++++
 3 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/encoding/thriftwire/skip.go b/encoding/thriftwire/skip.go
index 17a2639..68039cd 100644
--- a/encoding/thriftwire/skip.go
+++ b/encoding/thriftwire/skip.go
@@ -1,7 +1,22 @@
 package thriftwire
 
+import "errors"
+
+// maxSkipDepth is the maximum nesting depth of a skipped value.
+// It keeps hostile input from exhausting the stack.
+const maxSkipDepth = 10000
+
+var errSkipDepth = errors.New("thriftwire: exceeded max depth")
+
 // Skip skips over the next value.
-func Skip(r Reader, t Type) (err error) {
+func Skip(r Reader, t Type) error {
+	return skip(r, t, 0)
+}
+
+func skip(r Reader, t Type, depth int) (err error) {
+	if depth > maxSkipDepth {
+		return errSkipDepth
+	}
 	switch t {
 	default:
 		return InvalidTypeError(t)
@@ -31,7 +46,7 @@ func Skip(r Reader, t Type) (err error) {
 			if h.Type == Stop {
 				break
 			}
-			if err := Skip(r, h.Type); err != nil {
+			if err := skip(r, h.Type, depth+1); err != nil {
 				return err
 			}
 			if err := r.ReadFieldEnd(); err != nil {
@@ -45,10 +60,10 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Key); err != nil {
+			if err := skip(r, h.Key, depth+1); err != nil {
 				return err
 			}
-			if err := Skip(r, h.Value); err != nil {
+			if err := skip(r, h.Value, depth+1); err != nil {
 				return err
 			}
 		}
@@ -59,7 +74,7 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Element); err != nil {
+			if err := skip(r, h.Element, depth+1); err != nil {
 				return err
 			}
 		}
@@ -70,7 +85,7 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Element); err != nil {
+			if err := skip(r, h.Element, depth+1); err != nil {
 				return err
 			}
 		}
diff --git a/thrift/arshal.go b/thrift/arshal.go
index 42e7700..2edeb80 100644
--- a/thrift/arshal.go
+++ b/thrift/arshal.go
@@ -8,7 +8,15 @@ import (
 	"github.com/itstarsun/go-thrift/encoding/thriftwire"
 )
 
-type marshalOptions struct{}
+// maxDepth is the maximum nesting depth of structs, maps, sets and lists.
+// It keeps cyclic values and hostile input from exhausting the stack.
+const maxDepth = 10000
+
+var errMaxDepth = errors.New("exceeded max depth")
+
+type marshalOptions struct {
+	depth int // current nesting depth
+}
 
 // Marshal serializes a Go value into a [thriftwire.Writer].
 func Marshal(out thriftwire.Writer, in any) error {
@@ -37,7 +45,9 @@ func (mo marshalOptions) Marshal(out thriftwire.Writer, in any) error {
 	return fncs.marshal(out, va, mo)
 }
 
-type unmarshalOptions struct{}
+type unmarshalOptions struct {
+	depth int // current nesting depth
+}
 
 // Unmarshal deserializes a Go value from a [thriftwire.Reader].
 func Unmarshal(in thriftwire.Reader, out any) error {
diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index bea7c7e..c0f3542 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -273,6 +273,9 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 			err.action = "marshal"
 			return &err
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}
+		}
 		err := w.WriteStructBegin(thriftwire.StructHeader{
 			Name: t.Name(),
 		})
@@ -328,6 +331,9 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 		if wt != thriftwire.Struct {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}
+		}
 		_, err := r.ReadStructBegin()
 		if err != nil {
 			err := &wireError{action: "ReadStructBegin", err: err}
@@ -412,6 +418,9 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		if keyFncs.wireType == thriftwire.Stop || valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t}
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t, Err: errMaxDepth}
+		}
 		n := va.Len()
 		err := w.WriteMapBegin(thriftwire.MapHeader{
 			Key:   keyFncs.wireType,
@@ -448,6 +457,9 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		if wt != thriftwire.Map {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Map, GoType: t, Err: errMaxDepth}
+		}
 		h, err := r.ReadMapBegin()
 		if err != nil {
 			err := &wireError{action: "ReadMapBegin", err: err}
@@ -512,6 +524,9 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		if valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t}
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}
+		}
 		n := va.Len()
 		err := writeBegin(w, H{
 			Element: valFncs.wireType,
@@ -539,6 +554,9 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		if wt != wireType {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}
+		}
 		h, err := readBegin(r)
 		if err != nil {
 			err := &wireError{action: readBeginAction, err: err}
-- 
2.43.0


From 4027852ce088867c096187b64adbd24ccb784c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 11/14] fix: thriftfile: bound the nesting depth of types and
 values

Parsing deeply nested input overflowed the stack, crashing the process.
---
 tools/thriftfile/parser.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/tools/thriftfile/parser.go b/tools/thriftfile/parser.go
index 47ad980..4916cf1 100644
--- a/tools/thriftfile/parser.go
+++ b/tools/thriftfile/parser.go
@@ -77,7 +77,24 @@ func (p errors_) Error() string {
 
 type parser struct {
 	scanner
-	errs errors_
+	errs  errors_
+	depth int // current nesting depth of types and values
+}
+
+// maxDepth is the maximum nesting depth of types and values.
+// It keeps hostile input from exhausting the stack.
+const maxDepth = 10000
+
+func (p *parser) enter() {
+	p.depth++
+	if p.depth > maxDepth {
+		p.error(p.pos, "exceeded max nesting depth")
+		panic(badDef{})
+	}
+}
+
+func (p *parser) leave() {
+	p.depth--
 }
 
 func (p *parser) init(fset *gotoken.FileSet, filename string, src []byte) {
@@ -401,6 +418,8 @@ func (p *parser) methods() *MethodList {
 }
 
 func (p *parser) type_() Type {
+	p.enter()
+	defer p.leave()
 	switch p.tok {
 	case _MAP:
 		return p.map_()
@@ -456,6 +475,8 @@ func (p *parser) list_() *List {
 }
 
 func (p *parser) value() Value {
+	p.enter()
+	defer p.leave()
 	switch p.tok {
 	case _IDENT:
 		return p.ident()
-- 
2.43.0


From 9323f1f6bfedb8dd42c033dc4a25bd72093e43d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 12/14] fix: thriftmemo: copy written bytes and append read
 bytes to the buffer

---
 internal/thriftmemo/memogen.go | 6 ++++++
 internal/thriftmemo/zmemo.go   | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/thriftmemo/memogen.go b/internal/thriftmemo/memogen.go
index 0c27b2f..c6dffdc 100644
--- a/internal/thriftmemo/memogen.go
+++ b/internal/thriftmemo/memogen.go
@@ -106,6 +106,9 @@ func (g *generator) generateReader() {
 				}
 				g.printf(")\n")
 			}
+			if step == "Bytes" {
+				g.printf("o0 = append(i0, o0...)\n")
+			}
 			g.printf("return\n")
 		} else if step, ok := strings.CutPrefix(m.Name, "Skip"); ok {
 			g.generateAdvance(m)
@@ -140,6 +143,9 @@ func (g *generator) generateWriter() {
 				g.printf("m.memo().write(%q)\n", step)
 			} else if step == "UUID" {
 				g.printf("m.memo().write(%q, *i0)\n", step)
+			} else if step == "Bytes" {
+				// The caller may modify the bytes after the call.
+				g.printf("m.memo().write(%q, append([]byte(nil), i0...))\n", step)
 			} else {
 				g.printf("m.memo().write(%q", step)
 				for i, j := 0, m.Type.NumIn(); i < j; i++ {
diff --git a/internal/thriftmemo/zmemo.go b/internal/thriftmemo/zmemo.go
index d044ed3..08f06b9 100644
--- a/internal/thriftmemo/zmemo.go
+++ b/internal/thriftmemo/zmemo.go
@@ -29,6 +29,7 @@ func (m *memoReader) ReadBytes(i0 []byte) (o0 []byte, o1 error) {
 		return
 	}
 	m.memo().read("Bytes", &o0)
+	o0 = append(i0, o0...)
 	return
 }
 
@@ -226,7 +227,7 @@ func (m *memoWriter) WriteBytes(i0 []byte) (o0 error) {
 	if o0 = m.advance(); o0 != nil {
 		return
 	}
-	m.memo().write("Bytes", i0)
+	m.memo().write("Bytes", append([]byte(nil), i0...))
 	return
 }
 
-- 
2.43.0


From f0ac4b2c11a23790b1f1b5b1e0b6d9b25013b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 13/14] fix: thriftfile: do not lose a nesting level per
 definition nested too deeply

---
 tools/thriftfile/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/thriftfile/parser.go b/tools/thriftfile/parser.go
index 4916cf1..16da9e7 100644
--- a/tools/thriftfile/parser.go
+++ b/tools/thriftfile/parser.go
@@ -86,11 +86,11 @@ type parser struct {
 const maxDepth = 10000
 
 func (p *parser) enter() {
-	p.depth++
-	if p.depth > maxDepth {
+	if p.depth >= maxDepth {
 		p.error(p.pos, "exceeded max nesting depth")
 		panic(badDef{})
 	}
+	p.depth++
 }
 
 func (p *parser) leave() {
-- 
2.43.0


From e88af8f1bcbcf424b5cb5b4d3837bb429b4f5a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 14/14] fix: thriftfile: do not take an ill-formed string for
 the token before it

---
 tools/thriftfile/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/thriftfile/scanner.go b/tools/thriftfile/scanner.go
index d8fa7e8..400288f 100644
--- a/tools/thriftfile/scanner.go
+++ b/tools/thriftfile/scanner.go
@@ -317,6 +317,7 @@ func (s *scanner) number(seenPoint bool) {
 
 func (s *scanner) string() {
 	quote := s.ch
+	s.tok = _STRING // even if the string is ill-formed
 	s.nextch()
 	for {
 		if s.ch == quote {
@@ -340,7 +341,6 @@ func (s *scanner) string() {
 		}
 		s.nextch()
 	}
-	s.tok = _STRING
 }
 
 func (s *scanner) escape(quote rune) bool {
-- 
2.43.0

