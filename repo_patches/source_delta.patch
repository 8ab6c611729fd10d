From 78f7eba26add10e4def0bdf1c5f967b0daab89f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 01/16] fix: decode \b, \f, \n, \r and \t escapes in json
 strings

The escaped letter was appended as is, turning "a\nb" into "anb".
---
 codec/hyperjson/string.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/codec/hyperjson/string.go b/codec/hyperjson/string.go
index f63bac5..7eb9d00 100644
--- a/codec/hyperjson/string.go
+++ b/codec/hyperjson/string.go
@@ -24,7 +24,21 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		ch = input[idx]
 
 		if ch != 'u' {
-			// append escaped character as is
+			// replace control character escapes and append
+			// any other escaped character as is
+			switch ch {
+			case 'b':
+				ch = '\b'
+			case 'f':
+				ch = '\f'
+			case 'n':
+				ch = '\n'
+			case 'r':
+				ch = '\r'
+			case 't':
+				ch = '\t'
+			}
+
 			decoded = append(decoded, ch)
 			continue
 		}
-- 
2.43.0


From 349637cd59936079aed65097b70c521f36faf1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 02/16] fix: decode escaped surrogate pairs in json strings

Both halves were decoded on their own and ended up as two replacement characters.
---
 codec/hyperjson/string.go | 44 ++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/codec/hyperjson/string.go b/codec/hyperjson/string.go
index 7eb9d00..2076a09 100644
--- a/codec/hyperjson/string.go
+++ b/codec/hyperjson/string.go
@@ -2,6 +2,7 @@ package hyperjson
 
 import (
 	"github.com/pkg/errors"
+	"unicode/utf16"
 	"unicode/utf8"
 )
 
@@ -51,21 +52,50 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		idx++
 
 		// decode the unicode
+		var consumed int
 		var err error
-		decoded, err = decodeUnicodeChar(decoded, input[idx:])
+		decoded, consumed, err = decodeUnicodeChar(decoded, input[idx:])
 		if err != nil {
 			return nil, err
 		}
 
-		// skip 3 of the consumed characters, the last one
+		// skip all but one of the consumed characters, the last one
 		// will be skipped by the for loop
-		idx += 3
+		idx += consumed - 1
 	}
 
 	return decoded, nil
 }
 
-func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
+// Decodes the character at the beginning of input and appends it to target. Returns the
+// number of bytes that were consumed from the input.
+func decodeUnicodeChar(target []byte, input []byte) ([]byte, int, error) {
+	r, err := decodeHexRune(input)
+	if err != nil {
+		return nil, 0, err
+	}
+
+	consumed := 4
+
+	// characters outside of the basic multilingual plane are encoded as a surrogate pair
+	if utf16.IsSurrogate(r) && len(input) >= 10 && input[4] == '\\' && input[5] == 'u' {
+		low, err := decodeHexRune(input[6:])
+		if err != nil {
+			return nil, 0, err
+		}
+
+		if combined := utf16.DecodeRune(r, low); combined != utf8.RuneError {
+			r = combined
+			consumed = 10
+		}
+	}
+
+	buf := target[len(target) : len(target)+4]
+	n := utf8.EncodeRune(buf, r)
+	return target[:len(target)+n], consumed, nil
+}
+
+func decodeHexRune(input []byte) (rune, error) {
 	var r rune
 	for _, c := range input[:4] {
 		switch {
@@ -76,13 +106,11 @@ func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
 		case 'A' <= c && c <= 'F':
 			c = c - 'A' + 10
 		default:
-			return nil, errors.Errorf("expected hexadecimal character but got '%c'", c)
+			return 0, errors.Errorf("expected hexadecimal character but got '%c'", c)
 		}
 
 		r = r*16 + rune(c)
 	}
 
-	buf := target[len(target) : len(target)+4]
-	n := utf8.EncodeRune(buf, r)
-	return target[:len(target)+n], nil
+	return r, nil
 }
-- 
2.43.0


From 5c4ebc61fcdf5e8916bb307d8cfb7073ef7719f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 03/16] fix: grow the json parser buffer for tokens that do not
 fit

Reading into a full buffer returns zero bytes, so that parsing a string of 8 KiB or
more never finished.
---
 codec/hyperjson/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 9137610..0a6f973 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -425,6 +425,13 @@ func (p *Parser) bufferMore() error {
 		p.head = previousCount
 	}
 
+	// no free space left, the current token does not fit into the buffer
+	if p.head == len(p.buffer) {
+		buf := make([]byte, 2*len(p.buffer)+512)
+		copy(buf, p.buffer)
+		p.buffer = buf
+	}
+
 	// read more data into the rest
 	count, err := p.input.Read(p.buffer[p.head:])
 	if err == io.EOF {
-- 
2.43.0


From 7df225fb41efffb458ae1ba5d52711dbf62af5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 04/16] fix: accept all forms of exponents in json numbers

Valid numbers like 1.0E10 or 1e+5 made the parser reject the document.
---
 codec/hyperjson/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 0a6f973..995a244 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -216,7 +216,7 @@ func (p *Parser) readNumber() (Token, error) {
 		for ; n < avail; n++ {
 			ch := p.buffer[p.tail+n]
 
-			if !isCharDigit(ch) && ch != '.' && ch != 'e' {
+			if !isCharDigit(ch) && ch != '.' && ch != 'e' && ch != 'E' && ch != '+' {
 				token := Token{
 					Type:  TypeNumber,
 					Value: p.buffer[p.tail : p.tail+n],
-- 
2.43.0


From f978095ef45a911d02bf16e6d79a0f4306272a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 05/16] fix: limit nesting of skipped json values

A small (gzipped) request with some million opening brackets overflowed the stack,
which is fatal for the process.
---
 codec/hyperjson/parser.go      |  3 +++
 codec/hyperjson/parser_skip.go | 21 +++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 995a244..d724404 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -28,6 +28,9 @@ type Parser struct {
 	tail   int
 	head   int
 	eof    bool
+
+	// current nesting depth of the value that is being skipped
+	skipDepth int
 }
 
 func NewWithReader(r io.Reader, buf []byte) *Parser {
diff --git a/codec/hyperjson/parser_skip.go b/codec/hyperjson/parser_skip.go
index 3d9947a..c3ae482 100644
--- a/codec/hyperjson/parser_skip.go
+++ b/codec/hyperjson/parser_skip.go
@@ -2,6 +2,9 @@ package hyperjson
 
 import "github.com/pkg/errors"
 
+// Maximum nesting depth of a value that will be skipped.
+const maxSkipDepth = 10000
+
 func (p *Parser) Skip() error {
 	next, err := p.NextType()
 	if err != nil {
@@ -27,11 +30,21 @@ func (p *Parser) skip(next Type) error {
 	case TypeNull:
 		_, err = p.readNull()
 
-	case TypeObjectBegin:
-		err = p.skipObject()
+	case TypeObjectBegin, TypeArrayBegin:
+		// the stack would overflow and crash the process if there is no limit
+		if p.skipDepth >= maxSkipDepth {
+			return errors.Errorf("value is nested more than %d levels deep", maxSkipDepth)
+		}
+
+		p.skipDepth++
+
+		if next == TypeObjectBegin {
+			err = p.skipObject()
+		} else {
+			err = p.skipArray()
+		}
 
-	case TypeArrayBegin:
-		err = p.skipArray()
+		p.skipDepth--
 
 	default:
 		err = errors.Errorf("can not skip unexpected symbol of type '%s'", next)
-- 
2.43.0


From 8b844068496505ddc29591bfa2862164f15d6923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 06/16] fix: do not leak binary annotations into later json v1
 requests

If a span had two binaryAnnotations fields, values of the first one could stay in the pooled
slice and show up as values or service names in spans of unrelated requests.
---
 codec/json-v1.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/codec/json-v1.go b/codec/json-v1.go
index 1d629a6..c3fe668 100644
--- a/codec/json-v1.go
+++ b/codec/json-v1.go
@@ -231,11 +231,14 @@ func spanV1ValueDecoder() hyperjson.ValueDecoder {
 
 		span.Annotations = [4]annotationV1{}
 
-		for idx := range span.BinaryAnnotations {
-			span.BinaryAnnotations[idx] = binaryAnnotationV1{}
+		// clear everything up to the capacity, there could be values past the end
+		// if the field was decoded more than once.
+		binaryAnnotations := span.BinaryAnnotations[:cap(span.BinaryAnnotations)]
+		for idx := range binaryAnnotations {
+			binaryAnnotations[idx] = binaryAnnotationV1{}
 		}
 
-		span.BinaryAnnotations = span.BinaryAnnotations[:0]
+		span.BinaryAnnotations = binaryAnnotations[:0]
 
 		return decoder(target, p)
 	}
-- 
2.43.0


From 03f17870a581954a7a4dd6446a65af8e66d9384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 07/16] fix: return buffered spans in the order they were
 received

The newest spans were returned first once the ring buffer wrapped around.
---
 buffer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index 582e5f3..5deb246 100644
--- a/buffer.go
+++ b/buffer.go
@@ -34,7 +34,9 @@ func (buffer *SpansBuffer) ToSlice() []proxy.Span {
 	defer buffer.lock.Unlock()
 
 	var result []proxy.Span
-	for _, span := range buffer.spans {
+	for idx := range buffer.spans {
+		// the oldest span is the one that will be overwritten next
+		span := buffer.spans[(buffer.position+uint(idx))%uint(len(buffer.spans))]
 		if span.Id != 0 {
 			result = append(result, span)
 		}
-- 
2.43.0


From 2efe02d5d14ec7ba6ab3f7d86b358df9a36a567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 08/16] fix: encode ids as hex strings in non addressable
 values

json.Marshal(span) encoded the ids as plain numbers, which Id.UnmarshalJSON rejects.
---
 proxy/id.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proxy/id.go b/proxy/id.go
index 4ee4f12..aa23862 100644
--- a/proxy/id.go
+++ b/proxy/id.go
@@ -9,7 +9,7 @@ import (
 
 type Id int64
 
-var _ json.Marshaler = new(Id)
+var _ json.Marshaler = Id(0)
 var _ json.Unmarshaler = new(Id)
 
 func (id *Id) Int64() int64 {
@@ -67,8 +67,8 @@ func (id Id) String() string {
 	return string(encoded[:])
 }
 
-func (id *Id) MarshalJSON() ([]byte, error) {
-	value := int64(*id)
+func (id Id) MarshalJSON() ([]byte, error) {
+	value := int64(id)
 
 	bytes := [8]byte{
 		byte((value >> 56) & 0xff),
-- 
2.43.0


From a67acd52546eacb264b45c30825a86ef3bd065a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 09/16] fix: check binary string length against the available
 data

A corrupt message of a few bytes could make the decoder allocate up to 2 GB.
---
 codec/binary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codec/binary.go b/codec/binary.go
index 0c2190e..856a4bb 100644
--- a/codec/binary.go
+++ b/codec/binary.go
@@ -142,6 +142,11 @@ func readString(r *bytes.Reader) (string, error) {
 		return "", fmt.Errorf("string length out of range: %d", len)
 	}
 
+	// do not allocate memory for data that is not there
+	if len > int64(r.Len()) {
+		return "", io.ErrUnexpectedEOF
+	}
+
 	if len == 0 {
 		return "", nil
 	}
-- 
2.43.0


From f2637c7ef861ab326fd2f12d2d407c1ddd141e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 10/16] fix: do not overflow the number of spans in a trace

The 16 bit counter wrapped around at 65536 spans, hiding traces that are too large.
---
 correct.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/correct.go b/correct.go
index b529b74..6635369 100644
--- a/correct.go
+++ b/correct.go
@@ -62,7 +62,7 @@ type tree struct {
 
 	started   time.Time
 	updated   time.Time
-	nodeCount uint16
+	nodeCount int
 }
 
 func newTree(traceId Id) *tree {
@@ -206,7 +206,7 @@ func finishTraces(traces map[Id]*tree, blacklist map[Id]none, outputCh chan<- pr
 		traceTooLarge := trace.nodeCount > 8*1024
 
 		if !traceTooLarge {
-			spanCount += int(trace.nodeCount)
+			spanCount += trace.nodeCount
 		}
 	}
 
@@ -395,7 +395,7 @@ func discardSuspiciousTraces(trees map[Id]*tree, maxSpans int) {
 	traces := make([]trace, 0, len(trees))
 	for id, tree := range trees {
 		traces = append(traces, trace{tree, id})
-		spanCount += int(tree.nodeCount)
+		spanCount += tree.nodeCount
 	}
 
 	// nothing to do here.
@@ -420,9 +420,9 @@ func discardSuspiciousTraces(trees map[Id]*tree, maxSpans int) {
 		}
 
 		delete(trees, trace.id)
-		spanCount -= int(trace.nodeCount)
+		spanCount -= trace.nodeCount
 
-		discardSpanCount += int(trace.nodeCount)
+		discardSpanCount += trace.nodeCount
 		discardTraceCount += 1
 	}
 
-- 
2.43.0


From d32e691d8a461fb537256e152d6c86a5deb8e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 11/16] fix: do not create a cycle when adding a fake root

If the trace contains a span that has the id of the trace, the fake root became a child of it.
The trace had no root afterwards and was dropped.
---
 correct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/correct.go b/correct.go
index 6635369..722d87c 100644
--- a/correct.go
+++ b/correct.go
@@ -322,6 +322,10 @@ func createFakeRoot(spans []*proxy.Span) proxy.Span {
 
 	root := proxy.NewRootSpan("fake-root", spans[0].Trace, spans[0].Parent)
 
+	// The root must not have a parent. There might already be a span with the id of the
+	// trace below this one and using that as the parent would add a cycle.
+	root.Parent = 0
+
 	root.Service = "fake-root"
 	root.Timestamp = firstTimestamp
 	root.Duration = time.Duration(lastTimestamp - firstTimestamp)
-- 
2.43.0


From 075c8445570d0e480c5a91105c8ba4f7a75bb583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 12/16] fix: keep client timings when merging a span that has
 all timings

The cs and cr values of a span were lost if it also had sr or ss and was received
after another record of the same span.
---
 correct.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/correct.go b/correct.go
index 722d87c..122d873 100644
--- a/correct.go
+++ b/correct.go
@@ -539,14 +539,15 @@ func mergeSpansInPlace(spanToUpdate *proxy.Span, newSpan proxy.Span) {
 		for key, value := range clientTags {
 			spanToUpdate.AddTag(key, value)
 		}
+	}
 
-		if newSpan.Timings.CS.IsValid() {
-			spanToUpdate.Timings.CS = newSpan.Timings.CS
-		}
+	// the server span might have client timings too
+	if newSpan.Timings.CS.IsValid() {
+		spanToUpdate.Timings.CS = newSpan.Timings.CS
+	}
 
-		if newSpan.Timings.CR.IsValid() {
-			spanToUpdate.Timings.CR = newSpan.Timings.CR
-		}
+	if newSpan.Timings.CR.IsValid() {
+		spanToUpdate.Timings.CR = newSpan.Timings.CR
 	}
 
 	metricsSpansMerged.Mark(1)
-- 
2.43.0


From 3fae8a67b7f78d64a38bafb2b19796654c8f8245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 13/16] fix: keep the start time when merging into a span
 without one

If the record without a timestamp was received first, the timestamp of the second one was lost
and the span was reported with a start time of zero.
---
 correct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/correct.go b/correct.go
index 122d873..4201429 100644
--- a/correct.go
+++ b/correct.go
@@ -541,6 +541,12 @@ func mergeSpansInPlace(spanToUpdate *proxy.Span, newSpan proxy.Span) {
 		}
 	}
 
+	// use the values of newSpan if the time of the span is not yet known
+	if !spanToUpdate.Timestamp.IsValid() && newSpan.Timestamp.IsValid() {
+		spanToUpdate.Timestamp = newSpan.Timestamp
+		spanToUpdate.Duration = newSpan.Duration
+	}
+
 	// the server span might have client timings too
 	if newSpan.Timings.CS.IsValid() {
 		spanToUpdate.Timings.CS = newSpan.Timings.CS
-- 
2.43.0


From e7e222c4c7a8903b2264e649df76d1102e763d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 14/16] fix: do not block forever after a span could not be
 sent to kafka

---
 balance/sender.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/balance/sender.go b/balance/sender.go
index cb0af7b..933bde8 100644
--- a/balance/sender.go
+++ b/balance/sender.go
@@ -20,9 +20,18 @@ func NewSender(client sarama.Client, topic string) (*Sender, error) {
 		return nil, errors.WithMessage(err, "initialize kafka producer")
 	}
 
+	// the producer blocks forever if nobody takes its errors
+	go logErrors(producer.Errors())
+
 	return &Sender{producer, topic}, nil
 }
 
+func logErrors(errors <-chan *sarama.ProducerError) {
+	for err := range errors {
+		log.Warnf("Could not send span to kafka: %s", err)
+	}
+}
+
 func (s *Sender) Send(spans <-chan proxy.Span) {
 	for span := range spans {
 		s.sendSpan(span)
-- 
2.43.0


From aeffad7b87e41f5562d239375fded7d209fedbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 15/16] fix: keep strings alive that are passed to cache.String

---
 cache/cache.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 6eb5390..97801e5 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -1,7 +1,6 @@
 package cache
 
 import (
-	"github.com/modern-go/reflect2"
 	"github.com/rcrowley/go-metrics"
 	"sync"
 	"sync/atomic"
@@ -57,7 +56,14 @@ func lookupCache(copyOnInsert bool, value []byte) string {
 }
 
 func stringToByteSlice(str string) []byte {
-	return reflect2.UnsafeCastString(str)
+	// do not go through an uintptr: the compiler would no longer know that
+	// the content of the string is referenced and needs to be on the heap.
+	header := struct {
+		value    string
+		capacity int
+	}{str, len(str)}
+
+	return *(*[]byte)(unsafe.Pointer(&header))
 }
 
 func byteSliceToString(bytes []byte) string {
-- 
2.43.0


From d704e158fcd685e309977f14714c94fc5fc0434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 16/16] fix: reject numbers that do not fit into 64 bits

---
 codec/hyperjson/bind.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/codec/hyperjson/bind.go b/codec/hyperjson/bind.go
index e7376d0..99c420d 100644
--- a/codec/hyperjson/bind.go
+++ b/codec/hyperjson/bind.go
@@ -4,6 +4,7 @@ import (
 	"github.com/flachnetz/dd-zipkin-proxy/cache"
 	"github.com/modern-go/reflect2"
 	"github.com/pkg/errors"
+	"math"
 	"unsafe"
 )
 
@@ -21,7 +22,12 @@ func Uint64ValueDecoder(target unsafe.Pointer, p *Parser) error {
 			return errors.Errorf("Unexpected character in number: '%c'", ch)
 		}
 
-		result = result*10 + uint64(ch-'0')
+		digit := uint64(ch - '0')
+		if result > (math.MaxUint64-digit)/10 {
+			return errors.Errorf("Number does not fit into 64 bits: %s", tok.Value)
+		}
+
+		result = result*10 + digit
 	}
 
 	// assign to target
-- 
2.43.0

