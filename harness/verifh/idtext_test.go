package verifh

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func nibbles(id proxy.Id) []int {
	res := make([]int, 16)
	for i := range res {
		res[i] = int(uint64(id)>>(60-4*uint(i))) & 15
	}
	return res
}

func ints(b []byte) []int {
	res := make([]int, len(b))
	for i := range b {
		res[i] = int(b[i])
	}
	return res
}

type batcher struct {
	id, kind string
	n        int
	cases    []interface{}
}

func (b *batcher) add(c interface{}) {
	b.cases = append(b.cases, c)
	if len(b.cases) >= 1000 {
		b.flush()
	}
}

func (b *batcher) flush() {
	if len(b.cases) > 0 {
		emitLine(M{"id": b.id + "-" + strconv.Itoa(b.n), "kind": b.kind, "cases": b.cases})
		b.n++
		b.cases = nil
	}
}

func TestIdParse(t *testing.T) {
	rng := rand.New(rand.NewSource(seed()))
	begin("parse")
	b := &batcher{id: "parse", kind: "p"}
	parse := func(text []byte) {
		in := append([]byte(nil), text...)
		v, err := proxy.ParseId(in)
		b.add(M{"b": ints(text), "ok": err == nil, "v": nibbles(v)})
	}
	parse(nil)
	for x := 0; x < 256; x++ {
		parse([]byte{byte(x)})
		for y := 0; y < 256; y++ {
			parse([]byte{byte(x), byte(y)})
		}
	}
	const hexes = "0123456789abcdefABCDEF"
	const near = "/:@G`g \x00\xff\x80xX-+_\n\""
	word := func(n int) []byte {
		w := make([]byte, n)
		for i := range w {
			w[i] = hexes[rng.Intn(len(hexes))]
		}
		if rng.Intn(3) == 0 {
			for i := range w {
				w[i] = "0fF9aA8"[rng.Intn(7)]
			}
		}
		return w
	}
	reps := 60
	if thorough() {
		reps = 2000
	}
	for n := 1; n <= 20; n++ {
		for rep := 0; rep < reps; rep++ {
			parse(word(n))
		}
		// one wrong character, at every place
		for p := 0; p < n; p++ {
			for _, c := range []byte(near) {
				w := word(n)
				w[p] = c
				parse(w)
			}
			w := word(n)
			w[p] = byte(rng.Intn(256))
			parse(w)
		}
	}
	for _, n := range []int{31, 32, 33, 64, 300, 4096} {
		parse(word(n))
	}
	// every value of one digit at every place
	for p := 0; p < 16; p++ {
		for _, c := range []byte(hexes) {
			w := []byte("0000000000000000")
			w[p] = c
			parse(w)
			parse(w[p:])
		}
	}
	b.flush()

	j := &batcher{id: "unjson", kind: "j"}
	unjson := func(text []byte) {
		v := proxy.Id(len(text)*0x1111 - 1) // it may have had another value
		err := v.UnmarshalJSON(append([]byte(nil), text...))
		if err != nil {
			v = 0
		}
		j.add(M{"b": ints(text), "ok": err == nil, "v": nibbles(v)})
	}
	for _, s := range []string{"", "\"", "\"\"", "1", "12", "\"1", "1\"", "\"1\"", "null", "{}", "[]", "true", "\"\"\"", "''", "'1'", "0x1", "\"0x1\"", "\"-1\"", "\" 1\"", "\"1 \""} {
		unjson([]byte(s))
	}
	for n := 0; n <= 19; n++ {
		for rep := 0; rep < reps/4; rep++ {
			w := append(append([]byte{'"'}, word(n)...), '"')
			unjson(w)
			w[rng.Intn(len(w))] = near[rng.Intn(len(near))]
			unjson(w)
			unjson(word(n))
		}
	}
	j.flush()
}

type idBox struct {
	Val proxy.Id            `json:"val"`
	Ptr *proxy.Id           `json:"ptr"`
	Sl  []proxy.Id          `json:"sl"`
	Arr [1]proxy.Id         `json:"arr"`
	Map map[string]proxy.Id `json:"map"`
}

func TestIdFormat(t *testing.T) {
	rng := rand.New(rand.NewSource(seed() + 5))
	begin("format")
	b := &batcher{id: "format", kind: "f"}
	one := func(id proxy.Id) {
		strs := [][]int{ints([]byte(id.String())), ints([]byte(fmt.Sprint(id))), ints([]byte(fmt.Sprintf("%s", id)))}
		var docs [][]int
		var back [][]int
		doc := func(v interface{}) []byte {
			text, err := json.Marshal(v)
			if err != nil {
				return nil
			}
			return text
		}
		plain := doc(id)
		docs = append(docs, ints(plain), ints(doc(&id)))
		x := ^id
		if json.Unmarshal(plain, &x) == nil {
			back = append(back, nibbles(x))
		} else {
			back = append(back, []int{})
		}
		p, err := proxy.ParseId([]byte(id.String()))
		if err != nil {
			back = append(back, []int{})
		} else {
			back = append(back, nibbles(p))
		}
		for _, in := range []interface{}{
			idBox{id, &id, []proxy.Id{id}, [1]proxy.Id{id}, map[string]proxy.Id{"a": id}},
			&idBox{id, &id, []proxy.Id{id}, [1]proxy.Id{id}, map[string]proxy.Id{"a": id}},
			map[string]interface{}{"val": id, "ptr": &id, "sl": []interface{}{id}, "arr": []proxy.Id{id}, "map": map[string]proxy.Id{"a": id}},
		} {
			text := doc(in)
			var box idBox
			if err := json.Unmarshal(text, &box); err != nil || box.Ptr == nil || len(box.Sl) != 1 {
				back = append(back, []int{})
				continue
			}
			back = append(back, nibbles(box.Val), nibbles(*box.Ptr), nibbles(box.Sl[0]), nibbles(box.Arr[0]), nibbles(box.Map["a"]))
		}
		b.add(M{"v": nibbles(id), "str": strs, "json": docs, "back": back})
	}
	for _, id := range extremeIds {
		one(id)
	}
	for bit := uint(0); bit < 64; bit++ {
		one(proxy.Id(uint64(1) << bit))
		one(proxy.Id(uint64(1)<<bit - 1))
		one(proxy.Id(^(uint64(1) << bit)))
	}
	n := 1500
	if thorough() {
		n = 40000
	}
	for i := 0; i < n; i++ {
		one(proxy.Id(rng.Uint64() >> uint(rng.Intn(64))))
	}
	b.flush()
}

// fields of a span as text, 64 bit values as decimal numbers
func spanText(sp proxy.Span) string {
	tags := absTags(sp.Tags)
	b, err := json.Marshal([]interface{}{strconv.FormatInt(int64(sp.Id), 10), strconv.FormatInt(int64(sp.Parent), 10), strconv.FormatInt(int64(sp.Trace), 10),
		sp.Name, sp.Service, strconv.FormatInt(int64(sp.Timestamp), 10), strconv.FormatInt(int64(sp.Duration), 10), tags,
		strconv.FormatInt(int64(sp.Timings.CS), 10), strconv.FormatInt(int64(sp.Timings.CR), 10),
		strconv.FormatInt(int64(sp.Timings.SS), 10), strconv.FormatInt(int64(sp.Timings.SR), 10)})
	must(err)
	return string(b)
}

func TestIdRound(t *testing.T) {
	rng := rand.New(rand.NewSource(seed() + 9))
	zone := os_zone()
	time.Local = zone
	begin("round-" + zone.String())
	b := &batcher{id: "round-" + zone.String(), kind: "r"}
	edge := []int64{0, 1, -1, 999, 1000, 999999999, 1000000000, -1000000000, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1,
		originNs, originNs - 1, -2208988800000000000, -86400000000000}
	val := func() int64 {
		switch rng.Intn(4) {
		case 0:
			return edge[rng.Intn(len(edge))]
		case 1:
			return int64(rng.Uint64())
		case 2:
			return 1500000000000000000 + rng.Int63n(300000000000000000)
		}
		return int64(rng.Uint64()) >> uint(rng.Intn(64))
	}
	n := 1500
	if thorough() {
		n = 40000
	}
	for i := 0; i < n; i++ {
		ts := proxy.Timestamp(val())
		if i < len(edge) {
			ts = proxy.Timestamp(edge[i])
		}
		after := "error"
		if text, err := json.Marshal(ts); err == nil {
			back := proxy.Timestamp(val())
			if json.Unmarshal(text, &back) == nil {
				after = strconv.FormatInt(int64(back), 10)
			}
		}
		b.add([2]string{strconv.FormatInt(int64(ts), 10), after})
		after = "error"
		if text, err := json.Marshal(map[string][]proxy.Timestamp{"a": {ts, ts}}); err == nil {
			back := map[string][]proxy.Timestamp{}
			if json.Unmarshal(text, &back) == nil && len(back["a"]) == 2 && back["a"][0] == back["a"][1] {
				after = strconv.FormatInt(int64(back["a"][1]), 10)
			}
		}
		b.add([2]string{strconv.FormatInt(int64(ts), 10), after})
	}
	strs := []string{"", "a", "name", "\"", "\\", "\n\t\x00\x1f", "<&>", "\u2028", "\u00e9", "\U0001f600", "null", "{\"a\":1}", "0123456789abcdef"}
	for i := 0; i < n; i++ {
		str := func() string { return strs[rng.Intn(len(strs))] }
		sp := proxy.Span{Id: proxy.Id(val()), Parent: proxy.Id(val()), Trace: proxy.Id(val()), Name: str(), Service: str(),
			Timestamp: proxy.Timestamp(val()), Duration: time.Duration(val()),
			Timings: proxy.Timings{CS: proxy.Timestamp(val()), CR: proxy.Timestamp(val()), SS: proxy.Timestamp(val()), SR: proxy.Timestamp(val())}}
		for j := rng.Intn(4); j > 0; j-- {
			sp.AddTag(str(), str())
		}
		before := spanText(sp)
		after := "error"
		switch i % 4 {
		case 0:
			if text, err := json.Marshal(sp); err == nil {
				var back proxy.Span
				if json.Unmarshal(text, &back) == nil {
					after = spanText(back)
				}
			}
		case 1:
			if text, err := json.Marshal(&sp); err == nil {
				var back proxy.Span
				if json.Unmarshal(text, &back) == nil {
					after = spanText(back)
				}
			}
		case 2:
			if text, err := json.MarshalIndent(proxy.Trace{sp}, "", " "); err == nil {
				var back proxy.Trace
				if json.Unmarshal(text, &back) == nil && len(back) == 1 {
					after = spanText(back[0])
				}
			}
		case 3:
			if text, err := json.Marshal(map[string]interface{}{"x": sp}); err == nil {
				var back map[string]proxy.Span
				if json.Unmarshal(text, &back) == nil {
					after = spanText(back["x"])
				}
			}
		}
		b.add([2]string{before, after})
	}
	b.flush()
}

func os_zone() *time.Location {
	switch seedEnv := envInt("VERIF_ZONE", 0); seedEnv {
	case 0:
		return time.UTC
	default:
		return time.FixedZone("zone"+strconv.Itoa(seedEnv), seedEnv)
	}
}
