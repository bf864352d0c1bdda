package verifh

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/rand"
	"runtime"
	"strconv"
	"strings"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/codec/hyperjson"
)

// Every input to every parser: what comes out, and how much memory was used.

type endLog struct {
	family string
	n      int // inputs so far
	outs   map[string]int
	bad    []M
	worst  M
	perLen float64
	batch  int
	size   int
}

var memStats runtime.MemStats

func allocated() int64 {
	runtime.ReadMemStats(&memStats)
	return int64(memStats.TotalAlloc)
}

// one gives w to a parser; the outcome is "result", "error" or "panic".
func (l *endLog) one(format string, w []byte, r io.Reader, measure bool) {
	var before int64
	if measure {
		before = allocated()
	}
	outcome := endOf(format, w, r)
	l.n++
	if l.outs == nil {
		l.outs = map[string]int{}
	}
	l.outs[outcome]++
	if outcome != "result" && outcome != "error" && len(l.bad) < 3 {
		show := w
		if len(show) > 400 {
			show = show[:400]
		}
		l.bad = append(l.bad, M{"parser": format, "w": fmt.Sprintf("%q", show), "len": len(w), "outcome": outcome})
	}
	if measure {
		used := allocated() - before
		if p := float64(used) / float64(len(w)+4096); p > l.perLen {
			l.perLen = p
			show := w
			if len(show) > 200 {
				show = show[:200]
			}
			l.worst = M{"parser": format, "len": len(w), "kib": int(used >> 10), "w": fmt.Sprintf("%q", show)}
		}
	}
	if l.size++; l.size >= 2000 {
		l.flush()
	}
}

func endOf(format string, w []byte, r io.Reader) (outcome string) {
	defer func() {
		if p := recover(); p != nil {
			outcome = fmt.Sprintf("panic: %.300v", p)
		}
	}()
	var err error
	switch format {
	case "skip":
		p := hyperjson.NewWithReader(r, make([]byte, len(w)%5))
		for err == nil { // all of the values
			err = p.Skip()
		}
		if err == io.EOF {
			err = nil
		}
	case "walk":
		p := hyperjson.NewWithBytes(w)
		_, err = (&walker{p: p, rng: rand.New(rand.NewSource(1))}).value()
	default:
		_, err = parse(format, r)
	}
	if err != nil {
		return "error"
	}
	return "result"
}

func (l *endLog) flush() {
	if l.n == 0 {
		return
	}
	outcomes := []string{}
	for o := range l.outs {
		outcomes = append(outcomes, o)
	}
	if l.worst == nil {
		l.worst = M{"parser": "", "len": 0, "kib": 0}
	}
	emitLine(M{"id": l.family + "-" + strconv.Itoa(l.batch), "inputs": l.n, "outcomes": outcomes, "bad": append([]M{}, l.bad...), "worst": l.worst})
	*l = endLog{family: l.family, batch: l.batch + 1}
	begin(l.family + "-" + strconv.Itoa(l.batch))
}

var jsonParsers = []string{"v1", "v2", "jaeger", "skip", "walk"}

func TestEndsShort(t *testing.T) {
	l := &endLog{family: "short" + shardName()}
	begin(l.family)
	const chars = "[]{}\"\\,:0-.eu tn"
	max := 5
	if thorough() {
		max = 6
	}
	n := 0
	var rec func(w []byte)
	rec = func(w []byte) {
		if n++; mine(n) {
			for _, f := range jsonParsers {
				if len(w) == max && f == "walk" {
					continue
				}
				c := &chunks{data: w, end: io.EOF}
				if n%3 == 0 {
					c.next = func(int) int { return 1 }
				}
				if n%7 == 0 {
					c.end = errBroken
				}
				c.withEnd = n%2 == 0
				l.one(f, w, c, false)
			}
		}
		if len(w) < max {
			for i := range []byte(chars) {
				rec(append(append([]byte(nil), w...), chars[i]))
			}
		}
	}
	rec(nil)
	// all byte strings of two bytes
	for x := 0; x < 65536; x++ {
		if mine(x) {
			w := []byte{byte(x), byte(x >> 8)}
			for _, f := range append([]string{"binary"}, jsonParsers...) {
				l.one(f, w, bytes.NewReader(w), false)
			}
		}
	}
	// all sequences of some tokens
	toks := []string{"[", "]", "{", "}", ",", ":", `"id"`, `"1"`, `"tags"`, `"annotations"`, "1", "null", `"`, `"\u12`, "tr", `"data":[{"spans":[{"tags":[{"value":`}
	depth := 4
	if thorough() {
		depth = 5
	}
	n = 0
	var seq func(w string, d int)
	seq = func(w string, d int) {
		if n++; mine(n) {
			for _, f := range []string{"v1", "v2", "jaeger", "skip"} {
				l.one(f, []byte(w), strings.NewReader(w), false)
			}
		}
		if d > 0 {
			for _, tok := range toks {
				seq(w+tok, d-1)
			}
		}
	}
	seq("", depth)
	l.flush()
}

func shardName() string {
	for i := 0; i < 64; i++ {
		if mine(i) {
			return strconv.Itoa(i)
		}
	}
	return "x"
}

func TestEndsMutated(t *testing.T) {
	l := &endLog{family: "mutated" + shardName()}
	begin(l.family)
	runs := 6000
	if thorough() {
		runs = 150000
	}
	for i := 0; i < runs; i++ {
		if !mine(i) {
			continue
		}
		rng := rand.New(rand.NewSource(seed()*1000003 + int64(i)))
		format := []string{"v1", "v2", "jaeger"}[i%3]
		st := randStyle(rng)
		w := st.render((&docGen{rng: rng}).doc(format, 1+rng.Intn(2)))
		end := io.EOF
		if i%5 == 0 {
			end = errBroken
		}
		for k := 0; k < 6; k++ {
			x := mutate(rng, w)
			l.one(format, x, randChunks(rng, x, end), k < 2)
		}
		x := soup(rng, 1+rng.Intn(40))
		for _, f := range jsonParsers {
			l.one(f, x, randChunks(rng, x, end), false)
		}
		// messages
		ww := &wireWriter{rng: rng, pad: true}
		ww.span(randWireSpan(rng))
		for k := 0; k < 4; k++ {
			x := append([]byte(nil), ww.b...)
			for m := 1 + rng.Intn(4); m > 0; m-- {
				x[rng.Intn(len(x))] = []byte{0, 1, 0x7f, 0x80, 0xff, byte(rng.Intn(256))}[rng.Intn(6)]
			}
			x = x[:rng.Intn(len(x)+1)]
			l.one("binary", x, bytes.NewReader(x), k == 0)
		}
	}
	l.flush()
}

func TestEndsLarge(t *testing.T) {
	l := &endLog{family: "large" + shardName()}
	n := 0
	do := func(name string, formats []string, w []byte) {
		for _, f := range formats {
			if n++; mine(n) {
				l.family = "large-" + name + "-" + f + "-" + strconv.Itoa(n)
				l.batch = 0
				begin(l.family + "-0")
				l.one(f, w, bytes.NewReader(w), true)
				l.flush()
			}
		}
	}
	json3 := []string{"v1", "v2", "jaeger", "skip"}
	depths := []int{10, 999, 5000, 9999, 10000, 10001, 20000, 100000, 1000000}
	if thorough() {
		depths = append(depths, 10000000)
	}
	for _, d := range depths {
		for _, unit := range []string{"[", `{"a":`, `[{"x":`, `{"tags":`, `[{"annotations":[`, `{"data":[{"spans":[{"tags":[{"value":[`} {
			k := d / (strings.Count(unit, "[") + strings.Count(unit, "{"))
			for _, pre := range []string{"", `[{"x":`, `{"data":[{"x":`, `[{"annotations":[{"endpoint":{"y":`, `{"data":[{"spans":[{"tags":[{"value":`} {
				if d > 100000 && pre != "" && pre != `[{"x":` && pre != `{"data":[{"x":` {
					continue
				}
				do(fmt.Sprintf("nest%d", d), json3, []byte(pre+strings.Repeat(unit, k)))
			}
		}
	}
	// deeper than any stack
	for _, unit := range []string{"[", `{"a":`} {
		do("abyss", json3, []byte(`[{"x":`+strings.Repeat(unit, 16000000)))
		do("abyss", []string{"jaeger"}, []byte(`{"data":[{"spans":[{"tags":[{"value":`+strings.Repeat(unit, 16000000)))
	}
	// balanced ones
	for _, d := range []int{999, 9990, 50000, 1000000} {
		w := `[{"x":` + strings.Repeat("[", d) + strings.Repeat("]", d) + `}]`
		do(fmt.Sprintf("balanced%d", d), json3, []byte(w))
		do(fmt.Sprintf("balanced%d", d), []string{"jaeger"}, []byte(`{"data":[{"spans":[{"tags":[{"key":"k","value":`+strings.Repeat("[", d)+strings.Repeat("]", d)+`}]}]}]}`))
	}
	// much of one thing
	big := 1 << 20
	if thorough() {
		big = 1 << 23
	}
	for _, x := range []string{" ", "\n", ",", ":", "\"", "\\", "0", "9", "-", ".", "e", "a", "\x00", "\xff", "{", "}", "]", "[]", "{}", "[{},", "{},", `""`, `"\`, `"a",`, "1 ", "null,", "true ",
		`{"id":`, `"\u0000`, `{"annotations":[{}]},`, `{"tags":{"a":"b"}},`, `{"data":[{"spans":[{}`} {
		for _, pre := range []string{"", "[", "{", `["`, `[{"name":"`, `[{"timestamp":1`, `[{"tags":{"`, `{"data":[{"spans":[`, `[{"annotations":[`, `[{"binaryAnnotations":[`, `[{"x":[`} {
			do("much", json3, []byte(pre+strings.Repeat(x, (big+len(pre)*1000)/len(x)/8)))
		}
	}
	do("spaces", json3, bytes.Repeat([]byte(" "), 8*big))
	do("string", json3, append([]byte(`[{"name":"`), bytes.Repeat([]byte("a"), 8*big)...))
	do("digits", json3, append([]byte(`[{"timestamp":`), bytes.Repeat([]byte("1"), 8*big)...))
	// lengths and counts that are not true
	put := func(v int64) []byte { var b [10]byte; return b[:binary.PutVarint(b[:], v)] }
	lies := []int64{-1, 1, 100, 8191, 8192, 8193, 100000, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1 << 40, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, -(1 << 31)}
	for _, lie := range lies {
		for pos := 0; pos < 9; pos++ {
			head := []byte{2, 2, 2}
			switch {
			case pos == 0: // the name
			case pos == 1:
				head = append(head, 0) // the service
			default: // tags
				head = append(head, 0, 0, 2, 2, 0, 0, 0, 0)
			}
			w := head
			switch pos {
			case 0, 1, 2: // a name, a service, a count of tags
				w = append(w, put(lie)...)
			case 3: // the size of a block
				w = append(append(w, 1), put(lie)...)
			case 4: // a key
				w = append(append(w, 2), put(lie)...)
			case 5: // a value
				w = append(append(w, 2, 2, 'k'), put(lie)...)
			case 6: // a negative count and a size
				w = append(append(w, put(-lie)...), put(lie)...)
			case 7: // many tags without text
				w = append(append(w, put(lie)...), make([]byte, 5000)...)
			case 8:
				for i := 0; i < 500; i++ {
					w = append(append(w, put(lie)...), 0)
				}
			}
			do("lie", []string{"binary"}, w)
			do("lie", []string{"binary"}, append(append([]byte(nil), w...), "some more bytes, but not that many"...))
		}
	}
	do("lie", []string{"binary"}, bytes.Repeat([]byte{0x80}, big))
	do("lie", []string{"binary"}, bytes.Repeat([]byte{0xff}, big))
	do("lie", []string{"binary"}, append([]byte{2, 2, 2, 0, 0, 2, 2, 0, 0, 0, 0}, bytes.Repeat([]byte{1, 0}, big/2)...))
}
