package verifh

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"strconv"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// JSON documents and their renderings.

type jv struct {
	t     byte // s string, n number, l literal, a array, o object, d object used as a map
	s     string
	plain bool // a string that is written without escapes
	a     []*jv
	m     []jm
}

type jm struct {
	k string
	v *jv
}

func jS(s string) *jv { return &jv{t: 's', s: s} }
func jP(s string) *jv { return &jv{t: 's', s: s, plain: true} }
func jN(s string) *jv { return &jv{t: 'n', s: s} }
func jU(n int64) *jv  { return jN(strconv.FormatInt(n, 10)) }
func jL(s string) *jv { return &jv{t: 'l', s: s} }
func jA(a ...*jv) *jv { return &jv{t: 'a', a: a} }
func jO(m ...jm) *jv  { return &jv{t: 'o', m: m} }
func jD(m ...jm) *jv  { return &jv{t: 'd', m: m} }
func (o *jv) add(k string, v *jv) {
	o.m = append(o.m, jm{k, v})
}

type style struct {
	rng     *rand.Rand
	ws      int     // how much space between tokens
	shuffle bool    // members in any order
	esc     float64 // how many characters are escaped without need
	unknown float64 // how many unknown members
	deep    int     // how deep unknown values may be
	anyCase bool    // unknown members may differ from known ones in their case only
}

func (st *style) space(b *[]byte) {
	if st.ws == 0 {
		return
	}
	for n := st.rng.Intn(st.ws + 1); n > 0; n-- {
		*b = append(*b, " \t\n\r"[st.rng.Intn(4)])
	}
}

func (st *style) str(b *[]byte, s string, plain bool) {
	*b = append(*b, '"')
	u := func(x rune) {
		f := "\\u%04x"
		if st.rng.Intn(2) == 0 {
			f = "\\u%04X"
		}
		*b = append(*b, fmt.Sprintf(f, x)...)
	}
	for _, r := range s {
		short, has := map[rune]byte{'"': '"', '\\': '\\', '\n': 'n', '\t': 't', '\r': 'r', '\b': 'b', '\f': 'f', '/': '/'}[r]
		must := r == '"' || r == '\\' || r < 32
		if !must && (plain || st.esc == 0 || st.rng.Float64() >= st.esc) {
			*b = append(*b, string(r)...)
			continue
		}
		switch {
		case has && (st.esc == 0 || st.rng.Intn(3) > 0):
			*b = append(*b, '\\', short)
		case r > 0xffff:
			u(0xd800 + (r-0x10000)>>10)
			u(0xdc00 + (r-0x10000)&0x3ff)
		default:
			u(r)
		}
	}
	*b = append(*b, '"')
}

func (st *style) value(b *[]byte, v *jv) {
	switch v.t {
	case 's':
		st.str(b, v.s, v.plain)
	case 'n', 'l':
		*b = append(*b, v.s...)
	case 'a':
		*b = append(*b, '[')
		for i, e := range v.a {
			if i > 0 {
				*b = append(*b, ',')
			}
			st.space(b)
			st.value(b, e)
			st.space(b)
		}
		if len(v.a) == 0 {
			st.space(b)
		}
		*b = append(*b, ']')
	case 'o', 'd':
		ms := append([]jm(nil), v.m...)
		if v.t == 'o' {
			for st.unknown > 0 && st.rng.Float64() < st.unknown {
				ms = append(ms, jm{st.unknownName(), st.anyValue(st.deep)})
				if !st.shuffle && st.rng.Intn(2) == 0 { // in front, so that not all of them come last
					ms = append(ms[len(ms)-1:], ms[:len(ms)-1]...)
				}
			}
			if st.shuffle {
				st.rng.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
			}
		}
		*b = append(*b, '{')
		for i, m := range ms {
			if i > 0 {
				*b = append(*b, ',')
			}
			st.space(b)
			st.str(b, m.k, false)
			st.space(b)
			*b = append(*b, ':')
			st.space(b)
			st.value(b, m.v)
			st.space(b)
		}
		if len(ms) == 0 {
			st.space(b)
		}
		*b = append(*b, '}')
	}
}

func (st *style) render(v *jv) []byte {
	var b []byte
	st.space(&b)
	st.value(&b, v)
	st.space(&b)
	return b
}

func plainStyle() *style { return &style{rng: rand.New(rand.NewSource(1))} }

func randStyle(rng *rand.Rand) *style {
	return &style{rng: rng, ws: pick(rng, 0, 0, 1, 3, 9), shuffle: rng.Intn(2) == 0, esc: []float64{0, 0, 0.1, 0.5, 1}[rng.Intn(5)],
		unknown: []float64{0, 0.2, 0.4}[rng.Intn(3)], deep: rng.Intn(4), anyCase: true}
}

var unknownNames = []string{"x", "", "extra", "debug", "shared", "remoteEndpoint", "traceIdHigh", "logs", "flags", "warnings", "ipv4", "port",
	"\"", "\\", "]", "}", "a:b", ",", "é", "😀", "idx", "i", "d", "nam", "names", "timestampp", "service", "values", "keys"}
var caseNames = []string{"ID", "Id", "NAME", "Name", "TraceId", "traceID", "parentID", "Timestamp", "DURATION", "Tags", "LocalEndpoint", "localendpoint",
	"Annotations", "binaryannotations", "servicename", "ServiceName", "VALUE", "Key", "Endpoint", "Kind"}

func (st *style) unknownName() string {
	if st.anyCase && st.rng.Intn(3) == 0 {
		return caseNames[st.rng.Intn(len(caseNames))]
	}
	return unknownNames[st.rng.Intn(len(unknownNames))]
}

var numberTexts = []string{"0", "-0", "1", "-1", "42", "0.5", "-12.25", "1e5", "1E+5", "2.5e-3", "-7E-12", "12345678901234567890123", "0e0", "100000.000001"}
var litTexts = []string{"true", "false", "null"}

// a value of any type
func (st *style) anyValue(depth int) *jv {
	k := st.rng.Intn(6)
	if depth <= 0 {
		k = st.rng.Intn(4)
	}
	switch k {
	case 0:
		return jN(numberTexts[st.rng.Intn(len(numberTexts))])
	case 1:
		return jL(litTexts[st.rng.Intn(3)])
	case 4:
		v := jA()
		for i := st.rng.Intn(4); i > 0; i-- {
			v.a = append(v.a, st.anyValue(depth-1))
		}
		return v
	case 5:
		v := jD()
		for i := st.rng.Intn(4); i > 0; i-- {
			name := randText(st.rng)
			if st.rng.Intn(3) == 0 { // names that mean something elsewhere
				name = []string{"id", "traceId", "name", "key", "value", "serviceName", "tags", "timestamp", "annotations"}[st.rng.Intn(9)]
			}
			v.add(name, st.anyValue(depth-1))
		}
		return v
	}
	return jS(randText(st.rng))
}

// nested is a value with n levels of arrays and objects.
func nested(rng *rand.Rand, n int) *jv {
	v := jS("]}\"")
	for i := 0; i < n; i++ {
		if rng.Intn(2) == 0 {
			v = jA(v)
		} else {
			v = jD(jm{"{", v})
		}
	}
	return v
}

var textPieces = []string{"a", "b", "Z", "0", " ", "-", "_", ".", "/", "http.path", "GET", "\"", "\\", "\\\\", "\\\"", "\n", "\t", "\r", "\b", "\f", "\x00", "\x1f", "\x7f",
	"{", "}", "[", "]", ":", ",", "é", "ß", "漢", "字", "\u07ff", "\u0800", "\ufffd", "\uffff", "\ue000", "\ud7ff", "😀", "𝄞", "\U0010ffff", "\U00010000", "\\u0041", "\\n", "u", "n", "null", "true"}

func randText(rng *rand.Rand) string {
	n := pick(rng, 0, 1, 1, 2, 2, 3, 4, 8)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(textPieces[rng.Intn(len(textPieces))])
	}
	return sb.String()
}

func asciiText(rng *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + rng.Intn(26))
	}
	return string(b)
}

func hexText(rng *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789abcdefABCDEF"[rng.Intn(22)]
	}
	return string(b)
}

type docGen struct {
	rng    *rand.Rand
	long   int    // if not zero, some strings have about this length
	mark   string // if not empty, part of every string and id that is not a keyword
	nId    int
	sparse bool // many members are missing
	twice  bool // some members of v1 spans come twice
}

func (g *docGen) text() *jv {
	if g.mark != "" {
		return jS(g.mark + strconv.Itoa(g.rng.Intn(4)))
	}
	if g.long > 0 && g.rng.Intn(8) == 0 {
		return jS(asciiText(g.rng, g.long+g.rng.Intn(3)-1))
	}
	return jS(randText(g.rng))
}

func (g *docGen) id(jaeger bool) *jv {
	n := pick(g.rng, 16, 16, 16, 1, 2, 7, 15)
	if g.rng.Intn(12) == 0 {
		if !jaeger && g.rng.Intn(2) == 0 {
			return jL("null")
		}
		return jP([]string{"", "0", "0000000000000000", "ffffffffffffffff", "8000000000000000", "7FFFFFFFFFFFFFFF"}[g.rng.Intn(6)])
	}
	v := jS(hexText(g.rng, n))
	v.plain = jaeger
	return v
}

func (g *docGen) micros() *jv {
	switch g.rng.Intn(5) {
	case 0:
		return jN([]string{"0", "1", "999", "1000", "8999999999999999", "4294967296", "2147483648"}[g.rng.Intn(7)])
	}
	return jU(1560276970000000 + g.rng.Int63n(1000000000))
}

func (g *docGen) dur() *jv {
	switch g.rng.Intn(4) {
	case 0:
		return jN([]string{"0", "1", "4294967296", "86400000000"}[g.rng.Intn(4)])
	}
	return jU(g.rng.Int63n(10000000))
}

func (g *docGen) maybe(o *jv, p int, k string, v *jv) {
	if g.sparse {
		p = (p + 1) / 2
	}
	if g.rng.Intn(10) < p {
		o.add(k, v)
	}
}

func (g *docGen) endpoint() *jv {
	o := jO()
	switch g.rng.Intn(4) {
	case 0:
	case 1:
		o.add("serviceName", jS(""))
	default:
		o.add("serviceName", g.text())
	}
	return o
}

// the ids of trace and span, often the same
func (g *docGen) ids(o *jv, trace, span string, jaeger bool) {
	one, two := g.id(jaeger), g.id(jaeger)
	if g.rng.Intn(4) == 0 {
		two = one
	}
	g.maybe(o, 9, trace, one)
	g.maybe(o, 9, span, two)
}

func (g *docGen) spanV1() *jv {
	o := jO()
	g.ids(o, "traceId", "id", false)
	g.maybe(o, 6, "parentId", g.id(false))
	g.maybe(o, 8, "name", g.text())
	g.maybe(o, 7, "timestamp", g.micros())
	g.maybe(o, 7, "duration", g.dur())
	if g.rng.Intn(10) < 8 {
		anns := jA()
		names := []string{"cs", "cr", "sr", "ss"}
		g.rng.Shuffle(4, func(i, j int) { names[i], names[j] = names[j], names[i] })
		for _, n := range names[:pick(g.rng, 0, 1, 2, 2, 2, 3, 4, 4)] {
			anns.a = append(anns.a, g.annotation(jS(n)))
		}
		for i := pick(g.rng, 0, 0, 1, 2, 5); i > 0; i-- { // others in between
			var v *jv
			if g.rng.Intn(2) == 0 {
				v = jS([]string{"CS", "c", "csr", "finished", "", "cs ", "ws"}[g.rng.Intn(7)])
			} else {
				v = g.text()
				if v.s == "cs" || v.s == "cr" || v.s == "sr" || v.s == "ss" {
					v.s = "x"
				}
			}
			anns.a = append(anns.a, g.annotation(v))
		}
		if g.rng.Intn(20) == 0 {
			for i := 0; i < 40; i++ {
				anns.a = append(anns.a, g.annotation(jS("event"+strconv.Itoa(i))))
			}
		}
		g.rng.Shuffle(len(anns.a), func(i, j int) { anns.a[i], anns.a[j] = anns.a[j], anns.a[i] })
		o.add("annotations", anns)
	}
	if g.rng.Intn(10) < 8 {
		bins := jA()
		for i := pick(g.rng, 0, 1, 1, 2, 3, 6); i > 0; i-- {
			b := jO()
			k := g.text()
			if g.rng.Intn(3) == 0 {
				k = jS([]string{"k", "error", "lc", "protocolVersion", ""}[g.rng.Intn(5)])
			}
			g.maybe(b, 9, "key", k)
			var v *jv
			switch g.rng.Intn(5) {
			case 0:
				v = jN(numberTexts[g.rng.Intn(len(numberTexts))])
			case 1:
				v = jL(litTexts[g.rng.Intn(3)])
			default:
				v = g.text()
			}
			g.maybe(b, 9, "value", v)
			g.maybe(b, 5, "endpoint", g.endpoint())
			bins.a = append(bins.a, b)
		}
		o.add("binaryAnnotations", bins)
	}
	return o
}

func (g *docGen) annotation(value *jv) *jv {
	o := jO()
	g.maybe(o, 9, "timestamp", g.micros())
	o.add("value", value)
	g.maybe(o, 6, "endpoint", g.endpoint())
	return o
}

var kinds = []string{"CLIENT", "client", "Client", "SERVER", "server", "sErVeR", "PRODUCER", "CONSUMER", "", "clien", "clients", "local", " client", "SERVER\t", "client,server", "span.kind.client"}

func (g *docGen) spanV2() *jv {
	o := jO()
	g.ids(o, "traceId", "id", false)
	g.maybe(o, 6, "parentId", g.id(false))
	g.maybe(o, 8, "name", g.text())
	g.maybe(o, 8, "timestamp", g.micros())
	g.maybe(o, 8, "duration", g.dur())
	g.maybe(o, 7, "kind", jS(kinds[g.rng.Intn(len(kinds))]))
	g.maybe(o, 7, "localEndpoint", g.endpoint())
	if g.rng.Intn(10) < 8 {
		tags := jD()
		for i := pick(g.rng, 0, 1, 2, 3, 6); i > 0; i-- {
			k := g.text().s
			if g.rng.Intn(3) == 0 {
				k = []string{"k", "error", "lc", "protocolVersion", "", "id", "name", "tags"}[g.rng.Intn(8)]
			}
			tags.add(k, g.text())
		}
		o.add("tags", tags)
	}
	return o
}

func (g *docGen) jaegerSpan(procs []string) *jv {
	o := jO()
	g.ids(o, "traceID", "spanID", true)
	g.maybe(o, 8, "operationName", g.text())
	g.maybe(o, 8, "startTime", g.micros())
	g.maybe(o, 8, "duration", g.dur())
	if g.rng.Intn(8) > 0 {
		o.add("processID", jS(procs[g.rng.Intn(len(procs))]))
	}
	if g.rng.Intn(10) < 7 {
		refs := jA()
		for i := pick(g.rng, 0, 1, 1, 2, 3); i > 0; i-- {
			r := jO()
			g.maybe(r, 9, "refType", jS([]string{"CHILD_OF", "CHILD_OF", "FOLLOWS_FROM", "child_of", ""}[g.rng.Intn(5)]))
			g.maybe(r, 9, "spanID", g.id(true))
			g.maybe(r, 5, "traceID", g.id(true))
			refs.a = append(refs.a, r)
		}
		o.add("references", refs)
	} else if g.rng.Intn(3) == 0 {
		o.add("references", jL("null"))
	}
	if g.rng.Intn(10) < 8 {
		tags := jA()
		for i := pick(g.rng, 0, 1, 2, 3, 6); i > 0; i-- {
			tag := jO()
			k := g.text()
			if g.rng.Intn(2) == 0 {
				k = jS([]string{"k", "error", "lc", "component", "internal.span.format", "span.kind", "protocolVersion", "Component", ""}[g.rng.Intn(9)])
			}
			g.maybe(tag, 9, "key", k)
			var v *jv
			switch {
			case k.s == "span.kind" && g.rng.Intn(5) > 0:
				v = jS(kinds[g.rng.Intn(len(kinds))])
			case g.rng.Intn(4) == 0:
				v = (&style{rng: g.rng}).anyValue(2)
			default:
				v = g.text()
			}
			g.maybe(tag, 9, "value", v)
			g.maybe(tag, 6, "type", jS([]string{"string", "bool", "int64", "float64"}[g.rng.Intn(4)]))
			tags.a = append(tags.a, tag)
		}
		o.add("tags", tags)
	}
	return o
}

func (g *docGen) doc(format string, n int) *jv {
	v := jA()
	switch format {
	case "v1":
		for i := 0; i < n; i++ {
			sp := g.spanV1()
			if g.twice { // shorter or longer the second time
				for _, other := range g.spanV1().m {
					if g.rng.Intn(2) == 0 {
						at := g.rng.Intn(len(sp.m) + 1)
						if other.v.t == 'a' && g.rng.Intn(2) == 0 {
							at, other.v.a = len(sp.m), other.v.a[:len(other.v.a)/2]
						}
						sp.m = append(sp.m[:at:at], append([]jm{other}, sp.m[at:]...)...)
					}
				}
			}
			v.a = append(v.a, sp)
		}
	case "v2":
		for i := 0; i < n; i++ {
			v.a = append(v.a, g.spanV2())
		}
	case "jaeger":
		data := jA()
		for n > 0 {
			k := 1 + g.rng.Intn(n)
			n -= k
			d := jO()
			spans := jA()
			procs := []string{"p1", "p2", "P1", "", "missing"}
			for i := 0; i < k; i++ {
				spans.a = append(spans.a, g.jaegerSpan(procs))
			}
			d.add("spans", spans)
			if g.rng.Intn(8) > 0 {
				ps := jD()
				for _, p := range procs[:4] {
					if g.rng.Intn(4) > 0 {
						e := g.endpoint()
						if g.rng.Intn(6) == 0 {
							e = jL("null")
						}
						ps.add(p, e)
					}
				}
				d.add("processes", ps)
			}
			if g.rng.Intn(2) == 0 {
				d.add("traceID", g.id(true))
			}
			data.a = append(data.a, d)
		}
		v = jO(jm{"data", data})
		if g.rng.Intn(4) == 0 {
			v.add("total", jU(3))
		}
	}
	return v
}

// ---------------------------------------------------------------------------
// parsing

func parse(format string, r io.Reader) ([]proxy.Span, error) {
	switch format {
	case "v1":
		return codec.ParseJsonV1(r)
	case "v2":
		return codec.ParseJsonV2(r)
	case "jaeger":
		return codec.ParseJaeger(r)
	case "binary":
		all, err := ioutil.ReadAll(r)
		if err != nil {
			return nil, err
		}
		sp, err := codec.BinaryDecode(bytes.NewReader(all))
		if err != nil {
			return nil, err
		}
		return []proxy.Span{sp}, nil
	}
	panic(format)
}

var errBroken = errors.New("connection is broken")

// chunks gives out its data in pieces.
type chunks struct {
	data    []byte
	next    func(left int) int // size of the next piece, may be 0
	withEnd bool               // the end comes together with the last piece
	end     error
	zeros   int
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, c.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(c.data)
	if c.next != nil {
		n = c.next(n)
	}
	if n <= 0 {
		if c.zeros++; c.zeros < 20 {
			return 0, nil
		}
		n = 1
	}
	c.zeros = 0
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.withEnd {
		return n, c.end
	}
	return n, nil
}

func randChunks(rng *rand.Rand, data []byte, end error) *chunks {
	c := &chunks{data: append([]byte(nil), data...), end: end, withEnd: rng.Intn(3) == 0}
	switch rng.Intn(5) {
	case 0:
	case 1:
		c.next = func(int) int { return 1 }
	case 2:
		max := pick(rng, 2, 3, 7, 64, 500)
		c.next = func(int) int { return rng.Intn(max + 1) }
	case 3:
		c.next = func(left int) int { return 1 + rng.Intn(left) }
	case 4:
		first := rng.Intn(len(data) + 1)
		c.next = func(left int) int {
			if left == len(data) && first > 0 {
				return first
			}
			return left
		}
	}
	return c
}

func wireSpans(spans []proxy.Span) []M {
	res := []M{}
	for _, sp := range spans {
		res = append(res, wireSpan(sp))
	}
	return res
}

// outs groups the outcomes of many ways to parse one document.
type outs struct {
	list []M
	idx  map[string]int
}

func (o *outs) add(spans []proxy.Span, err error, how string) {
	if err != nil {
		spans = nil
	}
	ws := wireSpans(spans)
	raw, e := json.Marshal(ws)
	must(e)
	key := strconv.FormatBool(err == nil) + string(raw)
	if o.idx == nil {
		o.idx = map[string]int{}
	}
	if i, ok := o.idx[key]; ok {
		o.list[i]["n"] = o.list[i]["n"].(int) + 1
		return
	}
	o.idx[key] = len(o.list)
	m := M{"ok": err == nil, "spans": ws, "n": 1, "how": how}
	if err != nil {
		m["err"] = fmt.Sprintf("%.200s", err)
	}
	o.list = append(o.list, m)
}
