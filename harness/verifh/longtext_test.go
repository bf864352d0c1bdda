package verifh

import (
	"fmt"
	"io"
	"math/rand"
	"strconv"
	"strings"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// TestLongText parses documents with a string of up to some megabytes, which consists of
// one item, an escape for instance, many times.
func TestLongText(t *testing.T) {
	items := []string{"a", "\u00e9", `\n`, `\u00e9`, `\ud83d\ude00`, `\\`, `\"`, `x\u0041`, "\U0001f600", `\/ `}
	sizes := []int{100, 4090, 8185, 16380, 33000, 66000, 132000, 263000, 1100000, 4300000}
	if thorough() {
		sizes = append(sizes, 1000, 8192, 8200, 16448, 17000000, 70000000)
	}
	places := map[string][][2]string{
		"v1": {
			{`[{"traceId":"1f","name":"`, `","id":"3"}]`},
			{`[{"id":"3","binaryAnnotations":[{"key":"k","value":"`, `"}]}]`},
			{`[{"id":"3","binaryAnnotations":[{"key":"`, `","value":"v"}],"duration":7}]`},
			{`[{"id":"3","binaryAnnotations":[{"key":"k","value":"v","endpoint":{"serviceName":"`, `"}}]}]`},
			{`[{"id":"3","annotations":[{"timestamp":7,"value":"x","endpoint":{"serviceName":"`, `"}}],"name":"n"}]`},
			{`[{"id":"3","annotations":[{"timestamp":7,"value":"`, `"},{"timestamp":9,"value":"cs"}],"name":"n"}]`},
		},
		"v2": {
			{`[{"traceId":"1f","name":"`, `","id":"3"}]`},
			{`[{"id":"3","tags":{"k":"v","l":"`, `"}}]`},
			{`[{"id":"3","tags":{"k":"v","`, `":"w"},"timestamp":5}]`},
			{`[{"id":"3","localEndpoint":{"serviceName":"`, `"},"timestamp":5}]`},
		},
	}
	n := 0
	for _, format := range []string{"v1", "v2"} {
		for pi, p := range places[format] {
			for si, size := range sizes {
				var cases []M
				n++
				if !mine(n) {
					continue
				}
				id := fmt.Sprintf("long-%s-%d-%d", format, pi, size)
				begin(id)
				for ii, item := range items {
					if size > 200000 && (ii+pi+si)%3 > 0 {
						continue
					}
					rng := rand.New(rand.NewSource(seed()*1000 + int64(n*100+ii)))
					count := size/len(item) + rng.Intn(20)
					var r io.Reader = strings.NewReader(p[0] + strings.Repeat(item, count) + p[1])
					if size < 10000 || rng.Intn(2) == 0 && size < 300000 {
						r = randChunks(rng, []byte(p[0]+strings.Repeat(item, count)+p[1]), io.EOF)
					}
					spans, err := parse(format, r)
					if len(spans) != 1 {
						spans = []proxy.Span{{}}
						err = fmt.Errorf("not one span: %v", err)
					}
					sp := spans[0]
					m := wireSpan(proxy.Span{Id: sp.Id, Trace: sp.Trace, Parent: sp.Parent, Timestamp: sp.Timestamp, Duration: sp.Duration, Timings: sp.Timings})
					m["name"], m["svc"] = units(sp.Name, count), units(sp.Service, count)
					tags := [][2][2]interface{}{}
					for k, v := range sp.Tags {
						tags = append(tags, [2][2]interface{}{units(k, count), units(v, count)})
					}
					m["tags"] = tags
					c := M{"head": ints([]byte(p[0])), "item": ints([]byte(item)), "tail": ints([]byte(p[1])), "n": count, "ok": err == nil, "span": m}
					if err != nil {
						c["err"] = fmt.Sprintf("%.300s", err)
					}
					cases = append(cases, c)
				}
				emitLine(M{"id": id + "-" + strconv.Itoa(n), "fmt": format, "cases": cases})
			}
		}
	}
}

// units gives a string as a unit and how often it comes, which is n times or once.
func units(s string, n int) [2]interface{} {
	if len(s) >= n && len(s)%n == 0 {
		if u := s[:len(s)/n]; s == strings.Repeat(u, n) {
			return [2]interface{}{ints([]byte(u)), n}
		}
	}
	if len(s) > 500 {
		s = s[:500]
	}
	return [2]interface{}{ints([]byte(s)), 1}
}
