package verifh

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/codec/hyperjson"
)

type parseLog struct {
	id, format string
	max, n     int
	size       int
	cases      []M
}

func (l *parseLog) add(w []byte, broken bool, o *outs, mustBe string) {
	c := M{"w": ints(w), "broken": broken, "outs": o.list}
	if mustBe != "" {
		c["must"] = mustBe
	}
	l.cases = append(l.cases, c)
	if l.size += len(w); l.size > 6000 || len(l.cases) >= 25 {
		l.flush()
	}
}

func (l *parseLog) flush() {
	if len(l.cases) > 0 {
		emitLine(M{"id": l.id + "-" + strconv.Itoa(l.n), "fmt": l.format, "cases": l.cases})
		l.cases, l.size = nil, 0
		l.n++
	}
}

// TestTranslate parses documents of one format, systematic ones and random ones.
func TestTranslate(t *testing.T) {
	format := os.Getenv("VERIF_FAMILY")
	l := &parseLog{id: format + "-" + strings.ReplaceAll(os.Getenv("VERIF_SHARD"), "/", "of"), format: format}
	one := func(i int, v *jv, st *style) {
		if format == "jaeger" {
			st.anyCase = false
		}
		w := st.render(v)
		o := &outs{}
		spans, err := parse(format, bytes.NewReader(w))
		o.add(spans, err, "whole")
		l.add(w, false, o, "accept")
	}
	n := 0
	next := func() bool { n++; return mine(n) }
	for _, v := range systematic(format) {
		if next() {
			begin("sys-" + strconv.Itoa(n))
			one(n, v, plainStyle())
		}
	}
	runs := 400
	if thorough() {
		runs = 8000
	}
	for i := 0; i < runs; i++ {
		if !next() {
			continue
		}
		rng := rand.New(rand.NewSource(seed()*1000003 + int64(i)))
		begin("random-" + strconv.Itoa(i))
		one(n, (&docGen{rng: rng}).doc(format, pick(rng, 0, 1, 1, 1, 2, 2, 3, 5)), randStyle(rng))
	}
	// what an earlier document left behind must not show: lists that were long, get short, and
	// are long again with most of their members missing
	for i := 0; i < runs/20; i++ {
		if !next() {
			continue
		}
		rng := rand.New(rand.NewSource(seed()*1000033 + int64(i)))
		begin("history-" + strconv.Itoa(i))
		g := &docGen{rng: rng}
		v := g.doc(format, pick(rng, 1, 2, 3))
		keep := rng.Intn(3)
		for round, f := range []func(*jv){
			func(*jv) {},
			func(o *jv) { o.a = o.a[:min2(len(o.a), keep)] },
			func(o *jv) {
				for j, e := range o.a {
					c := &jv{t: e.t}
					for _, m := range e.m {
						if rng.Intn(3) == 0 || (m.k == "value" && round3(rng)) {
							c.m = append(c.m, m)
						}
					}
					o.a[j] = c
				}
			},
		} {
			one(n, withLists(v, f), plainStyle())
			if round == 1 && rng.Intn(2) == 0 {
				one(n, withLists(v, func(o *jv) { o.a = nil }), plainStyle())
			}
		}
	}
	l.flush()
}

func round3(rng *rand.Rand) bool { return rng.Intn(3) > 0 }

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// withLists copies a document, and changes the lists of the parts of its spans.
func withLists(v *jv, f func(list *jv)) *jv {
	c := *v
	c.a = nil
	for _, e := range v.a {
		c.a = append(c.a, withLists(e, f))
	}
	c.m = nil
	for _, m := range v.m {
		m.v = withLists(m.v, f)
		if m.v.t == 'a' {
			switch m.k {
			case "annotations", "binaryAnnotations", "references", "tags":
				f(m.v)
			}
		}
		c.m = append(c.m, m)
	}
	return &c
}

// systematic enumerates the case analysis of the translation.
func systematic(format string) (res []*jv) {
	ids := func(o *jv) *jv {
		if format == "jaeger" {
			o.add("traceID", jP("1f"))
			o.add("spanID", jP("2"))
		} else {
			o.add("traceId", jP("1f"))
			o.add("id", jP("2"))
		}
		return o
	}
	num := func(o *jv, k string, kind int, v int64) {
		switch kind {
		case 1:
			o.add(k, jN("0"))
		case 2:
			o.add(k, jU(v))
		}
	}
	const t0 = 1560276970000000
	switch format {
	case "v1":
		// which timings are known, which times are reported
		for mask := 0; mask < 16; mask++ {
			for kinds := 0; kinds < 9; kinds++ {
				o := ids(jO())
				anns := jA()
				for b, n := range []string{"cs", "sr", "ss", "cr"} {
					a := jO(jm{"value", jS(n)})
					if mask&(1<<uint(b)) != 0 {
						a.add("timestamp", jU(t0+int64(b*b+1)*1000+int64(b)))
					} else if kinds%2 == 0 {
						a.add("timestamp", jN("0"))
					}
					anns.a = append(anns.a, a)
				}
				o.add("annotations", anns)
				num(o, "timestamp", kinds/3, t0+77)
				num(o, "duration", kinds%3, 1234)
				res = append(res, jA(o))
			}
		}
		// equal and reversed timings
		for _, tm := range [][4]int64{{5, 5, 5, 5}, {9, 8, 7, 6}, {1, 9, 3, 2}, {0, 3, 4, 0}, {7, 7, 0, 0}} {
			o := ids(jO())
			anns := jA()
			for b, n := range []string{"cs", "sr", "ss", "cr"} {
				if tm[b] != 0 {
					anns.a = append(anns.a, jO(jm{"timestamp", jU(t0 + tm[b])}, jm{"value", jS(n)}))
				}
			}
			o.add("annotations", anns)
			res = append(res, jA(o))
		}
		// where the service comes from: two annotations and two binary ones, each without
		// endpoint, with an empty one, an empty name or a name; the first annotation without time
		ep := func(o *jv, kind int, name string) *jv {
			switch kind {
			case 1:
				o.add("endpoint", jO())
			case 2:
				o.add("endpoint", jO(jm{"serviceName", jS("")}))
			case 3:
				o.add("endpoint", jO(jm{"serviceName", jS(name)}))
			}
			return o
		}
		for x := 0; x < 256; x++ {
			for _, first := range []int64{0, t0} {
				o := ids(jO())
				o.add("annotations", jA(
					ep(jO(jm{"timestamp", jU(first)}, jm{"value", jS("a")}), x&3, "s1"),
					ep(jO(jm{"timestamp", jU(t0)}, jm{"value", jS("b")}), x>>2&3, "s2")))
				o.add("binaryAnnotations", jA(
					ep(jO(jm{"key", jS("a")}, jm{"value", jS("1")}), x>>4&3, "s3"),
					ep(jO(jm{"key", jS("a")}, jm{"value", jS("2")}), x>>6&3, "s4")))
				res = append(res, jA(o))
			}
		}
		// many annotations around the timings
		for _, n := range []int{1, 2, 3, 4, 5, 8, 9, 17, 70} {
			o := ids(jO())
			anns := jA()
			for i := 0; i < n; i++ {
				anns.a = append(anns.a, jO(jm{"timestamp", jU(t0 + int64(i))}, jm{"value", jS("e" + strconv.Itoa(i))}))
			}
			for i, n := range []string{"cs", "sr", "ss", "cr"} {
				anns.a = append(anns.a, jO(jm{"timestamp", jU(t0 + 1000*int64(i+1))}, jm{"value", jS(n)}))
			}
			o.add("annotations", anns)
			bins := jA()
			for i := 0; i < n; i++ {
				bins.a = append(bins.a, jO(jm{"key", jS("k" + strconv.Itoa(i))}, jm{"value", jU(int64(i))}))
			}
			o.add("binaryAnnotations", bins)
			res = append(res, jA(o))
		}
	case "v2":
		for kinds_ := 0; kinds_ < 9; kinds_++ {
			for _, k := range append([]string{"-"}, kinds...) {
				for ep := 0; ep < 4; ep++ {
					o := ids(jO())
					num(o, "timestamp", kinds_/3, t0+77)
					num(o, "duration", kinds_%3, 1234)
					if k != "-" {
						o.add("kind", jS(k))
					}
					switch ep {
					case 1:
						o.add("localEndpoint", jO())
					case 2:
						o.add("localEndpoint", jO(jm{"serviceName", jS("")}))
					case 3:
						o.add("localEndpoint", jO(jm{"serviceName", jS("svc")}))
					}
					res = append(res, jA(o))
				}
			}
		}
	case "jaeger":
		for kinds_ := 0; kinds_ < 9; kinds_++ {
			for _, k := range append([]string{"-"}, kinds...) {
				o := ids(jO())
				num(o, "startTime", kinds_/3, t0+77)
				num(o, "duration", kinds_%3, 1234)
				if k != "-" {
					o.add("tags", jA(jO(jm{"key", jS("span.kind")}, jm{"value", jS(k)})))
				}
				res = append(res, jO(jm{"data", jA(jO(jm{"spans", jA(o)}))}))
			}
		}
		// up to three references
		refs := []*jv{jO(jm{"refType", jS("CHILD_OF")}, jm{"spanID", jP("a")}), jO(jm{"refType", jS("CHILD_OF")}, jm{"spanID", jP("b")}),
			jO(jm{"refType", jS("FOLLOWS_FROM")}, jm{"spanID", jP("c")}), jO(jm{"spanID", jP("d")}), jO(jm{"refType", jS("CHILD_OF")})}
		for x := 0; x < 216; x++ {
			o := ids(jO())
			list := jA()
			for _, y := range []int{x % 6, x / 6 % 6, x / 36} {
				if y > 0 {
					list.a = append(list.a, refs[y-1])
				}
			}
			o.add("references", list)
			res = append(res, jO(jm{"data", jA(jO(jm{"spans", jA(o)}))}))
		}
		// every type of tag value under every name with a meaning
		for _, k := range []string{"component", "lc", "internal.span.format", "span.kind", "other", "protocolVersion", "error"} {
			vals := []*jv{jS("client"), jS(""), jL("true"), jL("null"), jN("1"), jN("1.5"), jA(jS("x")), jD(jm{"a", jS("b")}), nil}
			for _, a := range vals {
				for _, b := range vals[:3] {
					o := ids(jO())
					t1 := jO(jm{"key", jS(k)})
					if a != nil {
						t1.add("value", a)
					}
					t2, t3 := jO(jm{"key", jS("lc")}, jm{"value", b}), jO(jm{"key", jS("span.kind")}, jm{"value", jS("server")})
					p := ids(jO())
					o.add("tags", jA(t1, t2, t3))
					p.add("tags", jA(t3, t2, t1))
					res = append(res, jO(jm{"data", jA(jO(jm{"spans", jA(o, p)}))}))
				}
			}
		}
		// processes of several objects
		for x := 0; x < 27; x++ {
			data := jA()
			for i, y := range []int{x % 3, x / 3 % 3, x / 9} {
				o := ids(jO())
				o.add("processID", jS("p1"))
				d := jO(jm{"spans", jA(o)})
				switch y {
				case 1:
					d.add("processes", jD(jm{"p1", jO(jm{"serviceName", jS("s" + strconv.Itoa(i))})}))
				case 2:
					d.add("processes", jD(jm{"p2", jO(jm{"serviceName", jS("t" + strconv.Itoa(i))})}))
				}
				data.a = append(data.a, d)
			}
			res = append(res, jO(jm{"data", data}))
		}
		res = append(res, jO(), jO(jm{"data", jA()}), jO(jm{"data", jL("null")}), jO(jm{"data", jA(jO())}), jO(jm{"data", jA(jO(jm{"spans", jA()}))}))
	}
	if format != "jaeger" {
		// absent and null ids
		for x := 0; x < 27; x++ {
			o := jO(jm{"name", jS("n")})
			for i, k := range []string{"traceId", "id", "parentId"} {
				switch []int{x % 3, x / 3 % 3, x / 9}[i] {
				case 1:
					o.add(k, jL("null"))
				case 2:
					o.add(k, jP("abcdef012345678"+strconv.Itoa(i)))
				}
			}
			res = append(res, jA(o))
		}
		res = append(res, jA(), jA(jO()), jA(jO(), jO()))
	}
	return res
}

// ---------------------------------------------------------------------------

const poolBuffer = 8 * 1024

// TestLayout parses one document in very many renderings.
func TestLayout(t *testing.T) {
	runs, variants := 40, 150
	if thorough() {
		runs, variants = 400, 400
	}
	for i := 0; i < runs; i++ {
		if !mine(i) {
			continue
		}
		id := "layout-" + strconv.Itoa(i)
		begin(id)
		rng := rand.New(rand.NewSource(seed()*1000003 + int64(i)))
		format := []string{"v1", "v2"}[i%2]
		g := &docGen{rng: rng}
		if i%5 == 4 {
			g.long = pick(rng, 400, 2000, poolBuffer-2, poolBuffer, 2*poolBuffer+64, 2*poolBuffer)
		}
		v := g.doc(format, pick(rng, 1, 1, 2, 3))
		canon := plainStyle().render(v)
		o := &outs{}
		try := func(w []byte, r io.Reader, how string) {
			spans, err := parse(format, r)
			o.add(spans, err, how)
		}
		// every alignment of the tokens to the end of the buffer
		for x := 0; x < variants; x++ {
			at := rng.Intn(len(canon) + 1)
			edge := pick(rng, poolBuffer, 2*poolBuffer+64)
			pad := edge - at%edge + rng.Intn(3) - 1
			w := append(bytes.Repeat([]byte(" "), pad), canon...)
			try(w, randChunks(rng, w, io.EOF), fmt.Sprintf("after %d spaces", pad))
		}
		// other renderings, with unknown members
		for x := 0; x < variants; x++ {
			st := randStyle(rng)
			if x%10 == 0 {
				st.ws = 200
			}
			w := st.render(v)
			try(w, randChunks(rng, w, io.EOF), fmt.Sprintf("style %d", x))
		}
		// with one large or deep unknown member at the beginning of the spans
		for x := 0; x < 20; x++ {
			st := randStyle(rng)
			var u *jv
			switch x % 3 {
			case 0:
				u = jS(asciiText(rng, pick(rng, poolBuffer-20, poolBuffer-1, poolBuffer, poolBuffer+1, 3*poolBuffer, 20000)+rng.Intn(40)))
			case 1:
				u = nested(rng, pick(rng, 10, 100, 500, 900))
			case 2:
				u = jA()
				for k := pick(rng, 500, 3000); k > 0; k-- {
					u.a = append(u.a, st.anyValue(0))
				}
			}
			w2 := &jv{t: v.t, a: append([]*jv(nil), v.a...)}
			k := rng.Intn(len(w2.a))
			c := *w2.a[k]
			c.m = append([]jm{{"unknown", u}}, c.m...)
			w2.a[k] = &c
			w := st.render(w2)
			try(w, randChunks(rng, w, io.EOF), fmt.Sprintf("large %d", x))
		}
		// many values of one kind, more than any limit on how deep they may be nested
		if i%8 < 2 {
			for k, e := range []string{"null", "true", "1", `"s"`, "{}", "[]", `{"a":null}`, "[false,[]]"} {
				for _, asArray := range []bool{true, false} {
					head, sep, tail := `{"`, `,"`, `}`
					if asArray {
						head, sep, tail = "[", ",", "]"
					}
					var b strings.Builder
					b.WriteString(head)
					for j := 0; j < 12000; j++ {
						if j > 0 {
							b.WriteString(sep)
						}
						if !asArray {
							b.WriteString("u" + strconv.Itoa(j) + `":`)
						}
						b.WriteString(e)
					}
					b.WriteString(tail)
					w2 := *v.a[0]
					w2.m = append([]jm{{"unknown", jL(b.String())}}, w2.m...)
					w := plainStyle().render(&jv{t: v.t, a: append([]*jv{&w2}, v.a[1:]...)})
					try(w, randChunks(rng, w, io.EOF), fmt.Sprintf("many %d", k))
				}
			}
		}
		// every single place for a read to end
		for x := 0; x <= len(canon) && x < 1500; x++ {
			x := x
			try(canon, &chunks{data: append([]byte(nil), canon...), end: io.EOF, withEnd: x%2 == 0, next: func(left int) int {
				if left > len(canon)-x {
					return x - (len(canon) - left)
				}
				return left
			}}, fmt.Sprintf("read ends at %d", x))
		}
		try(canon, &chunks{data: append([]byte(nil), canon...), end: io.EOF, next: func(int) int { return 1 }}, "bytewise")
		emitLine(M{"id": id, "fmt": format, "cases": []M{{"w": ints(canon), "broken": false, "outs": o.list, "must": "accept"}}})
	}
}

// ---------------------------------------------------------------------------
// the reader itself, with buffers of any size

type walker struct {
	p     *hyperjson.Parser
	rng   *rand.Rand
	depth int
}

var errDeep = fmt.Errorf("too deep for the walk")

// value reads a value with the methods of the parser.
func (w *walker) value() (M, error) {
	next, err := w.p.NextType()
	if err != nil {
		return nil, err
	}
	if w.depth++; w.depth > 200 {
		return nil, errDeep
	}
	defer func() { w.depth-- }()
	switch next {
	case hyperjson.TypeString, hyperjson.TypeNumber, hyperjson.TypeBoolean, hyperjson.TypeNull:
		var tok hyperjson.Token
		k := "s"
		read := w.p.ReadString
		switch next {
		case hyperjson.TypeNumber:
			k, read = "n", w.p.ReadNumber
		case hyperjson.TypeBoolean:
			k, read = "b", w.p.ReadBoolean
		case hyperjson.TypeNull:
			k, read = "z", w.p.ReadNull
		}
		if w.rng.Intn(2) == 0 {
			read = w.p.ReadLiteral
		}
		if tok, err = read(); err != nil {
			return nil, err
		}
		return M{"t": k, "s": ints(tok.Value)}, nil
	case hyperjson.TypeArrayBegin:
		a := []M{}
		err := w.p.ReadArray(func() error {
			v, err := w.value()
			a = append(a, v)
			return err
		})
		return M{"t": "a", "a": a}, err
	case hyperjson.TypeObjectBegin:
		m := [][2]interface{}{}
		err := w.p.ReadObject(func(key []byte) error {
			k := ints(key)
			v, err := w.value()
			m = append(m, [2]interface{}{k, v})
			return err
		})
		return M{"t": "o", "m": m}, err
	}
	return nil, fmt.Errorf("no value: %v", next)
}

// TestReader reads texts with parsers whose buffers have all sizes.
func TestReader(t *testing.T) {
	runs := 240
	if thorough() {
		runs = 3000
	}
	var cases []M
	last, size := 0, 0
	flush := func() {
		if len(cases) > 0 {
			emitLine(M{"id": "reader-" + strconv.Itoa(last), "cases": cases})
			cases, size = nil, 0
		}
	}
	for i := 0; i < runs; i++ {
		if !mine(i) {
			continue
		}
		last = i
		begin("reader-" + strconv.Itoa(i))
		rng := rand.New(rand.NewSource(seed()*1000003 + int64(i)))
		st := randStyle(rng)
		var w []byte
		switch i % 6 {
		case 0: // a text and what follows
			w = append(st.render(st.anyValue(4)), "]"...)
		case 1, 2, 3: // mutated
			w = mutate(rng, st.render(jA(st.anyValue(4), st.anyValue(2))))
		case 4:
			w = st.render(jS(asciiText(rng, rng.Intn(300)) + randText(rng)))
			w = append(w, ' ')
		case 5:
			w = soup(rng, 1+rng.Intn(24))
		}
		type res struct {
			m   M
			how string
		}
		seen := map[string]int{}
		var list []M
		for _, size := range []int{-1, -2, 0, 1, 2, 3, 4, 5, 8, 13, 40, 4096} {
			for x := 0; x < 3; x++ {
				var p *hyperjson.Parser
				switch size {
				case -1:
					p = hyperjson.NewWithBytes(append([]byte(nil), w...))
				case -2:
					p = hyperjson.NewWithReader(randChunks(rng, w, io.EOF), nil)
				default:
					p = hyperjson.NewWithReader(randChunks(rng, w, io.EOF), make([]byte, size))
				}
				wk := &walker{p: p, rng: rng}
				v, err := wk.value()
				m := M{"ok": err == nil, "v": M{"t": "z", "s": []int{}}, "how": fmt.Sprintf("buffer %d", size)}
				if err == nil {
					m["v"] = v
				}
				// skipping consumes just as much
				var q *hyperjson.Parser
				if size < 0 {
					q = hyperjson.NewWithBytes(append([]byte(nil), w...))
				} else {
					q = hyperjson.NewWithReader(randChunks(rng, w, io.EOF), make([]byte, size))
				}
				m["skip"] = q.Skip() == nil
				m["next"], m["after"] = rest(p), rest(q)
				key := fmt.Sprint(m["ok"], m["v"], m["skip"], m["next"], m["after"])
				if _, ok := seen[key]; !ok {
					seen[key] = 1
					list = append(list, m)
				}
			}
		}
		cases = append(cases, M{"w": ints(w), "outs": list})
		if size += len(w); size > 3000 {
			flush()
		}
	}
	flush()
}

// rest is the type of what follows
func rest(p *hyperjson.Parser) string {
	t, err := p.NextType()
	if err != nil {
		return "none"
	}
	return strings.TrimPrefix(t.String(), "Type")
}

// mutate changes a few bytes.
func mutate(rng *rand.Rand, w []byte) []byte {
	w = append([]byte(nil), w...)
	const junk = "\"\"\\{}[]:,0-e.ntfu \n\x00\xffa"
	for n := pick(rng, 1, 1, 1, 2, 4); n > 0 && len(w) > 0; n-- {
		i := rng.Intn(len(w))
		switch rng.Intn(5) {
		case 0:
			w = append(w[:i], w[i+1:]...)
		case 1:
			w = append(w[:i], append([]byte{junk[rng.Intn(len(junk))]}, w[i:]...)...)
		case 2:
			w[i] = junk[rng.Intn(len(junk))]
		case 3:
			w = w[:i]
		case 4:
			j := i + rng.Intn(len(w)-i)
			w = append(w[:i], w[j:]...)
		}
	}
	return w
}

// soup is a sequence of tokens.
func soup(rng *rand.Rand, n int) []byte {
	toks := []string{"[", "]", "{", "}", "[", "]", "{", "}", ",", ":", "\"", "\"a\"", "\"\\", "1", "-", "1e", "true", "fals", "null", " ", "\"id\":", "nul", "\x85", "\x00", "\\", "\"\\u12\""}
	var b []byte
	for ; n > 0; n-- {
		b = append(b, toks[rng.Intn(len(toks))]...)
	}
	return b
}
