From dcdf37a3ca60abb7b22780d8bd78048e31daa5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 01/20] fix: grow the json buffer for tokens that do not fit
 into it

A string or number longer than the buffer made the parser read into an
empty slice again and again, without ever ending.
---
 codec/hyperjson/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 9137610..c5cb254 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -425,6 +425,13 @@ func (p *Parser) bufferMore() error {
 		p.head = previousCount
 	}
 
+	// the buffer is full with data that is still needed, so it must grow
+	if p.head == len(p.buffer) {
+		buf := make([]byte, 2*len(p.buffer)+64)
+		copy(buf, p.buffer)
+		p.buffer = buf
+	}
+
 	// read more data into the rest
 	count, err := p.input.Read(p.buffer[p.head:])
 	if err == io.EOF {
-- 
2.43.0


From a83340347a51e6065f2d16da95052531ea93b343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 02/20] fix: decode the control character escapes in json
 strings

\n, \t, \r, \b and \f were decoded to the letters n, t, r, b and f.
---
 codec/hyperjson/string.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/codec/hyperjson/string.go b/codec/hyperjson/string.go
index f63bac5..721c08d 100644
--- a/codec/hyperjson/string.go
+++ b/codec/hyperjson/string.go
@@ -24,8 +24,7 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		ch = input[idx]
 
 		if ch != 'u' {
-			// append escaped character as is
-			decoded = append(decoded, ch)
+			decoded = append(decoded, unescapeChar(ch))
 			continue
 		}
 
@@ -51,6 +50,24 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 	return decoded, nil
 }
 
+func unescapeChar(ch byte) byte {
+	switch ch {
+	case 'b':
+		return '\b'
+	case 'f':
+		return '\f'
+	case 'n':
+		return '\n'
+	case 'r':
+		return '\r'
+	case 't':
+		return '\t'
+	default:
+		// a quote, slash or backslash stands for itself
+		return ch
+	}
+}
+
 func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
 	var r rune
 	for _, c := range input[:4] {
-- 
2.43.0


From 47b85e02d14a3e70144a23cbfdab7c03515a244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 03/20] fix: decode surrogate pairs in json strings

A character outside of the basic plane, written as \uD83D\uDE00, was
decoded to two replacement characters.
---
 codec/hyperjson/string.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/codec/hyperjson/string.go b/codec/hyperjson/string.go
index 721c08d..25d0f96 100644
--- a/codec/hyperjson/string.go
+++ b/codec/hyperjson/string.go
@@ -2,6 +2,7 @@ package hyperjson
 
 import (
 	"github.com/pkg/errors"
+	"unicode/utf16"
 	"unicode/utf8"
 )
 
@@ -28,16 +29,11 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 			continue
 		}
 
-		if idx+4 >= len(input) {
-			return nil, errors.New("premature end of input while decoding unicode character")
-		}
-
-		// skip to the "u"
+		// skip to the first digit
 		idx++
 
 		// decode the unicode
-		var err error
-		decoded, err = decodeUnicodeChar(decoded, input[idx:])
+		r, err := decodeHexRune(input[idx:])
 		if err != nil {
 			return nil, err
 		}
@@ -45,6 +41,22 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		// skip 3 of the consumed characters, the last one
 		// will be skipped by the for loop
 		idx += 3
+
+		// characters outside of the basic plane are written as a pair of surrogates.
+		if rest := input[idx+1:]; utf16.IsSurrogate(r) && len(rest) >= 6 && rest[0] == '\\' && rest[1] == 'u' {
+			second, err := decodeHexRune(rest[2:])
+			if err != nil {
+				return nil, err
+			}
+
+			if pair := utf16.DecodeRune(r, second); pair != utf8.RuneError {
+				r = pair
+				idx += 6
+			}
+		}
+
+		buf := decoded[len(decoded) : len(decoded)+4]
+		decoded = decoded[:len(decoded)+utf8.EncodeRune(buf, r)]
 	}
 
 	return decoded, nil
@@ -68,7 +80,11 @@ func unescapeChar(ch byte) byte {
 	}
 }
 
-func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
+func decodeHexRune(input []byte) (rune, error) {
+	if len(input) < 4 {
+		return 0, errors.New("premature end of input while decoding unicode character")
+	}
+
 	var r rune
 	for _, c := range input[:4] {
 		switch {
@@ -79,13 +95,11 @@ func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
 		case 'A' <= c && c <= 'F':
 			c = c - 'A' + 10
 		default:
-			return nil, errors.Errorf("expected hexadecimal character but got '%c'", c)
+			return 0, errors.Errorf("expected hexadecimal character but got '%c'", c)
 		}
 
 		r = r*16 + rune(c)
 	}
 
-	buf := target[len(target) : len(target)+4]
-	n := utf8.EncodeRune(buf, r)
-	return target[:len(target)+n], nil
+	return r, nil
 }
-- 
2.43.0


From ee0d4231c7c57bd8faf67530f758657ebc2a1342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 04/20] fix: limit the nesting of skipped json values

Skipping is recursive, so a body of a few hundred megabytes of opening
brackets exhausted the stack and killed the process.
---
 codec/hyperjson/parser.go      |  1 +
 codec/hyperjson/parser_skip.go | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index c5cb254..fd99b4f 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -28,6 +28,7 @@ type Parser struct {
 	tail   int
 	head   int
 	eof    bool
+	depth  int
 }
 
 func NewWithReader(r io.Reader, buf []byte) *Parser {
diff --git a/codec/hyperjson/parser_skip.go b/codec/hyperjson/parser_skip.go
index 3d9947a..79a6d11 100644
--- a/codec/hyperjson/parser_skip.go
+++ b/codec/hyperjson/parser_skip.go
@@ -2,6 +2,9 @@ package hyperjson
 
 import "github.com/pkg/errors"
 
+// Values nested deeper than this are rejected, as skipping is recursive.
+const maxSkipDepth = 10000
+
 func (p *Parser) Skip() error {
 	next, err := p.NextType()
 	if err != nil {
@@ -14,6 +17,13 @@ func (p *Parser) Skip() error {
 func (p *Parser) skip(next Type) error {
 	var err error
 
+	if p.depth >= maxSkipDepth {
+		return errors.New("value is nested too deeply")
+	}
+
+	p.depth++
+	defer func() { p.depth-- }()
+
 	switch next {
 	case TypeString:
 		_, err = p.readString()
-- 
2.43.0


From be4b6639d70ae9b1be0010bbdeb7f2f52ed1850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 05/20] fix: accept all spellings of exponents in json numbers

1E5 and 1e+5 are valid numbers, but documents having them were rejected.
---
 codec/hyperjson/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index fd99b4f..9c6c4c9 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -217,7 +217,7 @@ func (p *Parser) readNumber() (Token, error) {
 		for ; n < avail; n++ {
 			ch := p.buffer[p.tail+n]
 
-			if !isCharDigit(ch) && ch != '.' && ch != 'e' {
+			if !isCharDigit(ch) && ch != '.' && ch != 'e' && ch != 'E' && ch != '+' {
 				token := Token{
 					Type:  TypeNumber,
 					Value: p.buffer[p.tail : p.tail+n],
-- 
2.43.0


From 9262c52b4b5bf7773594a5fc55a0e0341a47693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 06/20] fix: reject misspelled json literals

Any four or five bytes starting with n, t or f were taken for null, true
or false, quotes and brackets included, so broken documents were accepted.
---
 codec/hyperjson/parser.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 9c6c4c9..5f48683 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -282,12 +282,14 @@ func (p *Parser) read1(tokenType Type) (Token, error) {
 	return Token{Type: tokenType, Value: p.buffer[p.tail-1 : p.tail]}, nil
 }
 
-func (p *Parser) readN(tokenType Type, first byte, n int) (Token, error) {
+func (p *Parser) readN(tokenType Type, literal string) (Token, error) {
+	n := len(literal)
+
 	if err := p.require(n); err != nil {
 		return errToken, err
 	}
 
-	if ch := p.current(); ch != first {
+	if string(p.buffer[p.tail:p.tail+n]) != literal {
 		return errToken, p.wrongTypeError(tokenType)
 	}
 
@@ -305,7 +307,7 @@ func (p *Parser) ReadNull() (Token, error) {
 }
 
 func (p *Parser) readNull() (Token, error) {
-	return p.readN(TypeNull, 'n', 4)
+	return p.readN(TypeNull, "null")
 }
 
 func (p *Parser) ReadBoolean() (Token, error) {
@@ -318,9 +320,9 @@ func (p *Parser) ReadBoolean() (Token, error) {
 
 func (p *Parser) readBoolean() (Token, error) {
 	if p.current() == 't' {
-		return p.readN(TypeBoolean, 't', 4)
+		return p.readN(TypeBoolean, "true")
 	} else {
-		return p.readN(TypeBoolean, 'f', 5)
+		return p.readN(TypeBoolean, "false")
 	}
 }
 
-- 
2.43.0


From bb1897e7e8c76dba5503ede503cb86e2a622f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 07/20] fix: do not leak binary annotations between requests

The pooled slice of annotations was only cleared up to its current length.
A span with two "binaryAnnotations" members left values beyond that, which
then showed up in a span of a later request.
---
 codec/json-v1.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/codec/json-v1.go b/codec/json-v1.go
index 1d629a6..345ddd7 100644
--- a/codec/json-v1.go
+++ b/codec/json-v1.go
@@ -231,11 +231,14 @@ func spanV1ValueDecoder() hyperjson.ValueDecoder {
 
 		span.Annotations = [4]annotationV1{}
 
-		for idx := range span.BinaryAnnotations {
-			span.BinaryAnnotations[idx] = binaryAnnotationV1{}
+		// clear everything that was decoded previously, not only up to the length: the slice
+		// might have been longer before, and will be grown again without clearing it
+		binaryAnnotations := span.BinaryAnnotations[:cap(span.BinaryAnnotations)]
+		for idx := range binaryAnnotations {
+			binaryAnnotations[idx] = binaryAnnotationV1{}
 		}
 
-		span.BinaryAnnotations = span.BinaryAnnotations[:0]
+		span.BinaryAnnotations = binaryAnnotations[:0]
 
 		return decoder(target, p)
 	}
-- 
2.43.0


From 8a4b7b9a1aa3cbb8dfb82768e101a668a0c1ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 08/20] fix: use all annotations of a v1 span

Only the first four were decoded, so cs, cr, sr or ss were lost in spans
having more annotations than those.
---
 codec/json-v1.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/codec/json-v1.go b/codec/json-v1.go
index 345ddd7..ddb7c3f 100644
--- a/codec/json-v1.go
+++ b/codec/json-v1.go
@@ -16,7 +16,7 @@ type spanV1 struct {
 	ID       Id `json:"id"`
 	ParentID Id `json:"parentId"`
 
-	Annotations       [4]annotationV1      `json:"annotations"`
+	Annotations       []annotationV1       `json:"annotations"`
 	BinaryAnnotations []binaryAnnotationV1 `json:"binaryAnnotations"`
 
 	Name string `json:"name"`
@@ -197,8 +197,8 @@ func spanV1ValueDecoder() hyperjson.ValueDecoder {
 		{
 			JsonName: "annotations",
 			Offset:   hyperjson.OffsetOf(spanV1{}, "Annotations"),
-			Decoder: hyperjson.MakeArrayDecoder(
-				reflect2.TypeOf([4]annotationV1{}).(reflect2.ArrayType),
+			Decoder: hyperjson.MakeSliceDecoder(
+				reflect2.TypeOf([]annotationV1{}).(reflect2.SliceType),
 				hyperjson.MakeStructDecoder([]hyperjson.Field{
 					{
 						JsonName: "timestamp",
@@ -229,10 +229,15 @@ func spanV1ValueDecoder() hyperjson.ValueDecoder {
 		span.Timestamp = 0
 		span.Name = ""
 
-		span.Annotations = [4]annotationV1{}
-
 		// clear everything that was decoded previously, not only up to the length: the slice
 		// might have been longer before, and will be grown again without clearing it
+		annotations := span.Annotations[:cap(span.Annotations)]
+		for idx := range annotations {
+			annotations[idx] = annotationV1{}
+		}
+
+		span.Annotations = annotations[:0]
+
 		binaryAnnotations := span.BinaryAnnotations[:cap(span.BinaryAnnotations)]
 		for idx := range binaryAnnotations {
 			binaryAnnotations[idx] = binaryAnnotationV1{}
-- 
2.43.0


From 86fcfabb01ebad06ad0c52ed8c0c0eb5504c6ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 09/20] fix: check string lengths against the message before
 allocating

A kafka message of a few bytes could make the decoder allocate 2 GB.
---
 codec/binary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codec/binary.go b/codec/binary.go
index 0c2190e..c50413a 100644
--- a/codec/binary.go
+++ b/codec/binary.go
@@ -142,6 +142,11 @@ func readString(r *bytes.Reader) (string, error) {
 		return "", fmt.Errorf("string length out of range: %d", len)
 	}
 
+	// dont allocate memory for a string that can not be there
+	if len > int64(r.Len()) {
+		return "", io.ErrUnexpectedEOF
+	}
+
 	if len == 0 {
 		return "", nil
 	}
-- 
2.43.0


From 831982eb20928108c6875106ebcff21aea6dd8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 10/20] fix: list the recent spans in the order they were
 received

Once the buffer had wrapped around, the newest spans came before the
oldest ones.
---
 buffer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index 582e5f3..99cda65 100644
--- a/buffer.go
+++ b/buffer.go
@@ -34,7 +34,9 @@ func (buffer *SpansBuffer) ToSlice() []proxy.Span {
 	defer buffer.lock.Unlock()
 
 	var result []proxy.Span
-	for _, span := range buffer.spans {
+	for idx := range buffer.spans {
+		// start with the oldest span, which is the next one to be overwritten.
+		span := buffer.spans[(buffer.position+uint(idx))%uint(len(buffer.spans))]
 		if span.Id != 0 {
 			result = append(result, span)
 		}
-- 
2.43.0


From 6123ff135fd5d010211e7983cc5b327ab619a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 11/20] fix: count the spans of a trace without overflow

A trace with 65,536 spans or more was taken for a small one.
---
 correct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/correct.go b/correct.go
index b529b74..7009117 100644
--- a/correct.go
+++ b/correct.go
@@ -62,7 +62,7 @@ type tree struct {
 
 	started   time.Time
 	updated   time.Time
-	nodeCount uint16
+	nodeCount int
 }
 
 func newTree(traceId Id) *tree {
-- 
2.43.0


From 0479cf647d9364f76105864e87c5378cce5e57e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 12/20] fix: count discarded traces, not their spans, in
 traces.discarded

---
 correct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/correct.go b/correct.go
index 7009117..1877f52 100644
--- a/correct.go
+++ b/correct.go
@@ -427,7 +427,7 @@ func discardSuspiciousTraces(trees map[Id]*tree, maxSpans int) {
 	}
 
 	metricsSpansDiscarded.Mark(int64(discardSpanCount))
-	metricsTracesDiscarded.Mark(int64(discardSpanCount))
+	metricsTracesDiscarded.Mark(int64(discardTraceCount))
 
 	log.Warnf("Too many spans, discarded %d trace with %d spans", discardTraceCount, discardSpanCount)
 }
-- 
2.43.0


From f97b61bb248b4815bab093a9d610f46d108cdd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 13/20] fix: keep timings and start time when merging reports
 of a span

The client timings of a report that also has server timings were lost, and
the start and duration were lost if the first report did not have a start.
---
 correct.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/correct.go b/correct.go
index 1877f52..fe0047b 100644
--- a/correct.go
+++ b/correct.go
@@ -93,6 +93,11 @@ func (tree *tree) AddSpan(newSpan proxy.Span) {
 		span.Parent = newSpan.Parent
 	}
 
+	if !span.Timestamp.IsValid() {
+		span.Timestamp = newSpan.Timestamp
+		span.Duration = newSpan.Duration
+	}
+
 	mergeSpansInPlace(span, newSpan)
 }
 
@@ -513,6 +518,15 @@ func mergeSpansInPlace(spanToUpdate *proxy.Span, newSpan proxy.Span) {
 			spanToUpdate.Timings.SS = newSpan.Timings.SS
 		}
 
+		// take the client timings if we do not know them yet
+		if !spanToUpdate.Timings.CS.IsValid() {
+			spanToUpdate.Timings.CS = newSpan.Timings.CS
+		}
+
+		if !spanToUpdate.Timings.CR.IsValid() {
+			spanToUpdate.Timings.CR = newSpan.Timings.CR
+		}
+
 	} else {
 		// merge tags, prefer the ones from the spanToUpdate (client)
 		if spanToUpdate.Service == "" {
-- 
2.43.0


From 400703c431c50619e0f250e8bb3464275d448c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 14/20] fix: write ids as hex strings in all json documents

Ids in values that are not addressable were written as numbers, which
can not be read back.
---
 proxy/id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/id.go b/proxy/id.go
index 4ee4f12..5fea5fb 100644
--- a/proxy/id.go
+++ b/proxy/id.go
@@ -67,8 +67,8 @@ func (id Id) String() string {
 	return string(encoded[:])
 }
 
-func (id *Id) MarshalJSON() ([]byte, error) {
-	value := int64(*id)
+func (id Id) MarshalJSON() ([]byte, error) {
+	value := int64(id)
 
 	bytes := [8]byte{
 		byte((value >> 56) & 0xff),
-- 
2.43.0


From b9aadceec0600dfe6ce8a56510f1abcb797d0c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 15/20] fix: take the errors of the kafka producer

Nobody read them, so the producer, and with it the intake of spans, stopped
forever after the first messages that could not be delivered.
---
 balance/sender.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/balance/sender.go b/balance/sender.go
index cb0af7b..e5a840f 100644
--- a/balance/sender.go
+++ b/balance/sender.go
@@ -20,6 +20,13 @@ func NewSender(client sarama.Client, topic string) (*Sender, error) {
 		return nil, errors.WithMessage(err, "initialize kafka producer")
 	}
 
+	// the producer blocks if nobody takes the errors.
+	go func() {
+		for err := range producer.Errors() {
+			log.Warnf("Could not send span to kafka: %s", err.Err)
+		}
+	}()
+
 	return &Sender{producer, topic}, nil
 }
 
-- 
2.43.0


From e52418b9df196c93bba7a90124cb7052cdb54f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 16/20] fix: keep the strings given to cache.String alive

---
 cache/cache.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 6eb5390..f66be99 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -1,7 +1,6 @@
 package cache
 
 import (
-	"github.com/modern-go/reflect2"
 	"github.com/rcrowley/go-metrics"
 	"sync"
 	"sync/atomic"
@@ -14,24 +13,22 @@ var binaryCache = NewLRUCache(5 * 1024 * 1024)
 var metricMissCount, metricHitCount uint64
 
 func String(str string) string {
-	return lookupCache(false, stringToByteSlice(str))
+	return lookupCache(false, str)
 }
 
 func StringForByteSliceCopy(value []byte) string {
-	return lookupCache(true, value)
+	return lookupCache(true, byteSliceToString(value))
 }
 
 func StringForByteSliceNoCopy(value []byte) string {
-	return lookupCache(false, value)
+	return lookupCache(false, byteSliceToString(value))
 }
 
-func lookupCache(copyOnInsert bool, value []byte) string {
-	if len(value) == 0 {
+func lookupCache(copyOnInsert bool, key string) string {
+	if len(key) == 0 {
 		return ""
 	}
 
-	key := byteSliceToString(value)
-
 	binaryCacheLock.Lock()
 	cachedValue := binaryCache.Get(key)
 	binaryCacheLock.Unlock()
@@ -43,8 +40,8 @@ func lookupCache(copyOnInsert bool, value []byte) string {
 
 	if copyOnInsert {
 		// create a copy of the data that we want to cache
-		newValue := make([]byte, 0, len(value))
-		key = byteSliceToString(append(newValue, value...))
+		newValue := make([]byte, 0, len(key))
+		key = byteSliceToString(append(newValue, key...))
 	}
 
 	atomic.AddUint64(&metricMissCount, 1)
@@ -56,10 +53,6 @@ func lookupCache(copyOnInsert bool, value []byte) string {
 	return key
 }
 
-func stringToByteSlice(str string) []byte {
-	return reflect2.UnsafeCastString(str)
-}
-
 func byteSliceToString(bytes []byte) string {
 	if bytes == nil {
 		return ""
-- 
2.43.0


From a0c0c1d206a2c6bed0ab475ec0692979f5e35dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 17/20] fix: write timestamps in utc

---
 proxy/timestamp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/timestamp.go b/proxy/timestamp.go
index 7909331..eec3e2b 100644
--- a/proxy/timestamp.go
+++ b/proxy/timestamp.go
@@ -34,7 +34,8 @@ func (ts Timestamp) IsValid() bool {
 }
 
 func (ts Timestamp) MarshalJSON() ([]byte, error) {
-	return ts.ToTime().MarshalJSON()
+	// in utc, as the offset of other time zones might not be a whole number of minutes
+	return ts.ToTime().UTC().MarshalJSON()
 }
 
 func (ts *Timestamp) UnmarshalJSON(encoded []byte) error {
-- 
2.43.0


From eb274538f7d0f1bf8b2a45060af1fdf4700914a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:58 +0000
Subject: [PATCH 18/20] fix: consume the topic from its beginning if the group
 is new

A new consumer group started at the end of each partition. Spans that were
accepted and sent before the group had joined for the first time were never
processed.
---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index 41e24ea..23f7f53 100644
--- a/main.go
+++ b/main.go
@@ -64,6 +64,7 @@ func MainWithRouting(routing Routing, spanConverter SpanConverter) {
 	opts.Kafka.Inputs.KafkaConfig.Consumer.Fetch.Min = 128 * 1024
 	opts.Kafka.Inputs.KafkaConfig.Consumer.Fetch.Max = 1024 * 1024
 	opts.Kafka.Inputs.KafkaConfig.Consumer.MaxWaitTime = 1 * time.Second
+	opts.Kafka.Inputs.KafkaConfig.Consumer.Offsets.Initial = sarama.OffsetOldest
 	opts.Kafka.Inputs.KafkaConfig.Producer.RequiredAcks = sarama.NoResponse
 	opts.Kafka.Inputs.KafkaConfig.Producer.Flush.Frequency = 1 * time.Second
 	opts.Kafka.Inputs.KafkaConfig.Producer.MaxMessageBytes = 768 * 1024
-- 
2.43.0


From 1d2bd77f68717823db0eff1188b342aae564e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:14 +0000
Subject: [PATCH 19/20] fix: do not announce the compressed length of a
 decompressed body

---
 handlers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/handlers.go b/handlers.go
index 733f6ea..a3a25e3 100644
--- a/handlers.go
+++ b/handlers.go
@@ -76,6 +76,7 @@ func handleGzipRequestBody(handle http.Handler) http.HandlerFunc {
 			req.Body = body
 			req.Header.Del("Content-Encoding")
 			req.Header.Del("Content-Length")
+			req.ContentLength = -1
 		}
 
 		handle.ServeHTTP(writer, req)
-- 
2.43.0


From b5c6d112bba9485e620c9406309f8662f360c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:15 +0000
Subject: [PATCH 20/20] fix: report no NaN as hit rate of the cache

---
 cache/cache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index f66be99..3c91f7d 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -65,6 +65,12 @@ func RegisterCacheMetrics(m metrics.Registry) {
 	metrics.NewRegisteredFunctionalGaugeFloat64("binary.cache.hit.rate", m, func() float64 {
 		hitCount := atomic.SwapUint64(&metricHitCount, 0)
 		missCount := atomic.SwapUint64(&metricMissCount, 0)
+
+		// there is no rate without any lookup, and NaN can not be written as json
+		if hitCount+missCount == 0 {
+			return 0
+		}
+
 		return float64(hitCount) / float64(hitCount+missCount)
 	})
 
-- 
2.43.0

