package verifh

import (
	"bytes"
	"encoding/binary"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func le(v int64) []int {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(v))
	return ints(b[:])
}

func wireSpan(sp proxy.Span) M {
	keys := []string{}
	for k := range sp.Tags {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	tags := [][2][]int{}
	for _, k := range keys {
		tags = append(tags, [2][]int{ints([]byte(k)), ints([]byte(sp.Tags[k]))})
	}
	return M{"id": le(int64(sp.Id)), "trace": le(int64(sp.Trace)), "parent": le(int64(sp.Parent)), "name": ints([]byte(sp.Name)),
		"svc": ints([]byte(sp.Service)), "ts": le(int64(sp.Timestamp)), "dur": le(int64(sp.Duration)), "cs": le(int64(sp.Timings.CS)),
		"cr": le(int64(sp.Timings.CR)), "ss": le(int64(sp.Timings.SS)), "sr": le(int64(sp.Timings.SR)), "tags": tags}
}

// values around the sizes of varints
func edge64(rng *rand.Rand) int64 {
	switch rng.Intn(5) {
	case 0:
		return []int64{0, 1, -1, 2, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, math.MaxInt32, math.MinInt32, 1 << 32}[rng.Intn(10)]
	case 1:
		return 1500000000000000000 + rng.Int63n(300000000000000000)
	case 2:
		v := int64(1) << uint(rng.Intn(64))
		v += int64(rng.Intn(3)) - 1
		if rng.Intn(2) == 0 {
			v = -v
		}
		return v
	}
	return int64(rng.Uint64()) >> uint(rng.Intn(64))
}

func wireStr(rng *rand.Rand) string {
	n := pick(rng, 0, 1, 2, 3, 7, 20, 62, 63, 64, 65, 100, 127, 128, 129)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(rng.Intn(256))
	}
	return string(b)
}

func randWireSpan(rng *rand.Rand) proxy.Span {
	sp := proxy.Span{Id: proxy.Id(edge64(rng)), Trace: proxy.Id(edge64(rng)), Parent: proxy.Id(edge64(rng)),
		Name: wireStr(rng), Service: wireStr(rng), Timestamp: proxy.Timestamp(edge64(rng)), Duration: time.Duration(edge64(rng)),
		Timings: proxy.Timings{CS: proxy.Timestamp(edge64(rng)), CR: proxy.Timestamp(edge64(rng)), SS: proxy.Timestamp(edge64(rng)), SR: proxy.Timestamp(edge64(rng))}}
	switch rng.Intn(6) {
	case 0:
	case 1:
		sp.Tags = map[string]string{}
	case 2:
		for j := pick(rng, 10, 63, 64, 65); j > 0; j-- {
			sp.AddTag("k"+strconv.Itoa(j), "v")
		}
	default:
		for j := rng.Intn(5); j >= 0; j-- {
			sp.AddTag(wireStr(rng), wireStr(rng))
		}
	}
	return sp
}

func safeDecode(wire []byte) (sp proxy.Span, ok bool) {
	sp, err := codec.BinaryDecode(bytes.NewReader(append([]byte(nil), wire...)))
	return sp, err == nil
}

func TestWireEncode(t *testing.T) {
	n := 400
	if thorough() {
		n = 6000
	}
	var cases []interface{}
	batch := 0
	flush := func(min int) {
		if len(cases) >= min && len(cases) > 0 {
			emitLine(M{"id": "enc-" + strconv.Itoa(batch), "kind": "e", "cases": cases})
			cases = nil
			batch++
		}
	}
	lengths := []int{8190, 8191, 8192, 8193, 8194, 12000, 16383, 16384, 20000, 40000}
	for i := 0; i < n; i++ {
		if !mine(i) {
			continue
		}
		begin("enc " + strconv.Itoa(i))
		batch = i
		rng := rand.New(rand.NewSource(seed()*1000003 + int64(i)))
		sp := randWireSpan(rng)
		if i < 2*len(lengths) {
			long := make([]byte, lengths[i/2])
			for x := range long {
				long[x] = byte(rng.Intn(256))
			}
			if i%2 == 0 {
				sp.Name = string(long)
			} else {
				sp.AddTag("long", string(long))
			}
		}
		var w bytes.Buffer
		if i%3 == 0 { // into a buffer that holds something else already, or has room
			w.Grow(rng.Intn(600))
		}
		span := wireSpan(sp)
		if err := codec.BinaryEncode(sp, &w); err != nil {
			cases = append(cases, M{"span": span, "wire": []int{}, "ok": false, "back": span})
			flush(1)
			continue
		}
		wire := append([]byte(nil), w.Bytes()...)
		back, ok := safeDecode(wire)
		cases = append(cases, M{"span": span, "wire": ints(wire), "ok": ok, "back": wireSpan(back)})
		flush(20)
	}
	batch++
	flush(1)

	// strings of many lengths, up to more than a message may have
	sizes := []int{1000, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 65537, 131071, 131072, 262144, 1 << 20, 1<<20 + 1, 1<<21 - 1, 1 << 21, 5<<20 + 77}
	if thorough() {
		sizes = append(sizes, 1<<24, 1<<26+1, 1<<27, 1<<28+5)
	}
	for i, size := range sizes {
		if !mine(i) {
			continue
		}
		id := "long-" + strconv.Itoa(size)
		begin(id)
		rng := rand.New(rand.NewSource(seed()*1000003 + int64(i)))
		var cases []interface{}
		for kind := 0; kind < 5; kind++ {
			sp := randWireSpan(rng)
			sp.Tags = nil
			long := strings.Repeat("x", size-size/3) + strings.Repeat("y", size/3)
			switch kind {
			case 0:
				sp.Name = long
			case 1:
				sp.Service = long
			case 2:
				sp.AddTag("k", long)
			case 3:
				sp.AddTag(long, "")
			case 4:
				sp.Name, sp.Service = long[:size/2], long[size/2:]
				sp.AddTag(long[:size-1], long[1:])
			}
			var w bytes.Buffer
			err := codec.BinaryEncode(sp, &w)
			back, ok := safeDecode(w.Bytes())
			cases = append(cases, M{"span": wireRuns(sp), "wire": runs(w.Bytes()), "ok": ok && err == nil, "back": wireRuns(back)})
		}
		emitLine(M{"id": id, "kind": "r", "cases": cases})
	}
}

// runs gives a string as pairs of a byte and how often it comes.
func runs(b []byte) [][2]int {
	res := [][2]int{}
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] == b[i] {
			j++
		}
		res = append(res, [2]int{int(b[i]), j - i})
		i = j
	}
	return res
}

func wireRuns(sp proxy.Span) M {
	m := wireSpan(proxy.Span{Id: sp.Id, Trace: sp.Trace, Parent: sp.Parent, Timestamp: sp.Timestamp, Duration: sp.Duration, Timings: sp.Timings})
	m["name"], m["svc"] = runs([]byte(sp.Name)), runs([]byte(sp.Service))
	tags := [][2][][2]int{}
	for k, v := range sp.Tags {
		tags = append(tags, [2][][2]int{runs([]byte(k)), runs([]byte(v))})
	}
	m["tags"] = tags
	return m
}

// an independent writer of messages, with free choice of the block structure
type wireWriter struct {
	rng *rand.Rand
	b   []byte
	pad bool
	big bool  // many tags
	end []int // where the parts end
}

func (w *wireWriter) long(v int64) {
	n := len(w.b)
	w.b = append(w.b, make([]byte, 10)...)
	n += binary.PutVarint(w.b[n:], v)
	w.b = w.b[:n]
	if w.pad && w.rng.Intn(6) == 0 && v > -1000 && v < 1000 {
		w.b[n-1] |= 0x80 // a longer form of the same number
		w.b = append(w.b, 0)
	}
	w.end = append(w.end, len(w.b))
}

func (w *wireWriter) str(s string) {
	w.long(int64(len(s)))
	w.b = append(w.b, s...)
	w.end = append(w.end, len(w.b))
}

func (w *wireWriter) span(sp proxy.Span) {
	w.long(int64(sp.Id))
	w.long(int64(sp.Trace))
	w.long(int64(sp.Parent))
	w.str(sp.Name)
	w.str(sp.Service)
	for _, v := range []int64{int64(sp.Timestamp), int64(sp.Duration), int64(sp.Timings.CS), int64(sp.Timings.CR), int64(sp.Timings.SS), int64(sp.Timings.SR)} {
		w.long(v)
	}
	blocks := w.rng.Intn(4)
	if w.big {
		blocks = 2 + w.rng.Intn(2)
	}
	for ; blocks > 0; blocks-- {
		var inner wireWriter
		inner.rng = w.rng
		n := 1 + w.rng.Intn(3)
		if w.big && blocks == 1 {
			n = pick(w.rng, 200, 1025, 1100)
		}
		for i := 0; i < n; i++ {
			if n > 3 {
				inner.str(strconv.Itoa(i))
				inner.str(strconv.Itoa(i % 7))
				continue
			}
			k := wireStr(w.rng)
			if w.rng.Intn(2) == 0 {
				k = "k" + strconv.Itoa(w.rng.Intn(3))
			}
			inner.str(k)
			inner.str(wireStr(w.rng))
		}
		if w.rng.Intn(2) == 0 {
			w.long(int64(n))
		} else {
			w.long(int64(-n))
			w.long(int64(len(inner.b)))
		}
		for _, end := range inner.end {
			w.end = append(w.end, len(w.b)+end)
		}
		w.b = append(w.b, inner.b...)
	}
	w.long(0)
}

func TestWireDecode(t *testing.T) {
	n := 120
	if thorough() {
		n = 2500
	}
	for i := 0; i < n; i++ {
		if !mine(i) {
			continue
		}
		id := "dec-" + strconv.Itoa(i)
		begin(id)
		rng := rand.New(rand.NewSource(seed()*1000003 + int64(i)))
		var cases []interface{}
		add := func(wire []byte) {
			sp, ok := safeDecode(wire)
			if !ok {
				sp = proxy.Span{}
			}
			cases = append(cases, M{"wire": ints(wire), "ok": ok, "span": wireSpan(sp)})
		}
		w := &wireWriter{rng: rng, pad: i%4 == 0, big: i%40 == 5}
		sp := randWireSpan(rng)
		if len(sp.Tags) > 5 {
			sp.Tags = nil
		}
		if i%10 == 3 {
			sp.Service = string(make([]byte, pick(rng, 8191, 8192, 8193, 9000)))
		}
		w.span(sp)
		add(w.b)
		if w.big {
			emitLine(M{"id": id, "kind": "d", "cases": cases})
			continue
		}
		// cut off
		for j := 0; j < 12; j++ {
			add(w.b[:rng.Intn(len(w.b))])
		}
		add(w.b[:len(w.b)-1])
		// between any two of its parts
		for j, end := range w.end {
			if end < len(w.b) && len(w.b) < 2000 && (len(w.end) < 24 || j > 10 || j == i%10) {
				add(w.b[:end])
			}
		}
		// a string that claims to be longer than the message or has a negative length
		for _, l := range []int64{-1, -2, int64(len(w.b)) * 2, 1 << 20, 1 << 31, 1 << 40, math.MaxInt64, math.MinInt64, math.MaxInt32} {
			x := &wireWriter{rng: rng}
			x.long(int64(sp.Id))
			x.long(int64(sp.Trace))
			x.long(int64(sp.Parent))
			x.long(l)
			x.b = append(x.b, make([]byte, 40)...)
			add(x.b)
		}
		emitLine(M{"id": id, "kind": "d", "cases": cases})
	}
}
