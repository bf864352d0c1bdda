package verifh

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/julienschmidt/httprouter"
)

// Requests of all kinds to the program, with and without a routing of the user.

var serveKinds = []string{"wrap", "prefix", "none"}

var serveRoutes = []string{"/echo", "/echo/more", "/api/v3/spans", "/api/v1/spans/count"}
var serveMethods = []string{"GET", "POST", "PUT", "DELETE"}

const servePrefix = "/tracing"

// serveRouting is what the user gives to MainWithRouting
func serveRouting(kind string) func(router *httprouter.Router) http.Handler {
	return func(router *httprouter.Router) http.Handler {
		for _, path := range serveRoutes {
			for _, method := range serveMethods {
				router.Handle(method, path, func(w http.ResponseWriter, r *http.Request, _ httprouter.Params) { saw(w, r, 200) })
			}
		}
		var inner http.Handler = router
		if kind == "prefix" {
			inner = http.StripPrefix(servePrefix, router)
		}
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("X-Front", "yes")
			if r.Header.Get("X-Deny") != "" {
				saw(w, r, 418)
				return
			}
			inner.ServeHTTP(w, r)
		})
	}
}

func saw(w http.ResponseWriter, r *http.Request, status int) {
	body, err := ioutil.ReadAll(r.Body)
	res, merr := json.Marshal(M{"method": r.Method, "path": r.URL.Path, "query": r.URL.RawQuery, "mark": r.Header.Get("X-Mark"),
		"enc":  strings.Join(r.Header["Content-Encoding"], ","),
		"size": r.Header.Get("Content-Length") != "" || r.ContentLength > 0, "w": ints(body), "broken": err != nil})
	must(merr)
	w.WriteHeader(status)
	_, _ = w.Write(res)
}

type serveReq struct {
	method, path, query, mark, enc string
	deny, head, size, broken, json bool
	w, raw                         []byte
	trace                          proxy.Id
}

// serveDoc gives a document of one trace with a root
func serveDoc(rng *rand.Rand, format string, trace proxy.Id) []byte {
	n := 1 + rng.Intn(3)
	var spans []string
	at := originUs + dayUs + 500*rng.Int63n(1000000)
	for i := 0; i < n; i++ {
		id := trace + proxy.Id(i)
		switch format {
		case "v1":
			spans = append(spans, fmt.Sprintf(`{"traceId":"%s","id":"%s","parentId":"%s","name":"s%d","timestamp":%d,"duration":%d,"binaryAnnotations":[{"key":"k","value":"v"}]}`,
				trace, id, trace, i, at+int64(500*i), 500*(1+rng.Intn(50))))
		case "v2":
			spans = append(spans, fmt.Sprintf(`{"traceId":"%s","id":"%s","parentId":"%s","name":"s%d","timestamp":%d,"duration":%d,"localEndpoint":{"serviceName":"web"}}`,
				trace, id, trace, i, at+int64(500*i), 500*(1+rng.Intn(50))))
		default:
			spans = append(spans, fmt.Sprintf(`{"traceID":"%s","spanID":"%s","operationName":"s%d","references":[{"refType":"CHILD_OF","spanID":"%s"}],"startTime":%d,"duration":%d,"processID":"p"}`,
				trace, id, i, trace, at+int64(500*i), 500*(1+rng.Intn(50))))
		}
	}
	if format == "jaeger" {
		return []byte(`{"data":[{"spans":[` + strings.Join(spans, ",") + `],"processes":{"p":{"serviceName":"web"}}}]}`)
	}
	return []byte("[" + strings.Join(spans, ",") + "]")
}

func serveRequest(rng *rand.Rand, kind string, trace proxy.Id) *serveReq {
	format := []string{"v1", "v2", "jaeger"}[rng.Intn(3)]
	q := &serveReq{method: "POST", path: "/api/" + format + "/spans", mark: asciiText(rng, 4), json: true, head: true, trace: trace}
	q.mark = strings.TrimSpace(q.mark)
	if rng.Intn(3) == 0 {
		q.method = serveMethods[rng.Intn(4)]
	}
	if rng.Intn(3) == 0 {
		q.path = append(serveRoutes, "/api/v2/span", "/api/v1/spans/", "/api", "/api/v2", "/nothing", "/API/v2/spans", "/api/v2/spans/x", "/api//v2/spans")[rng.Intn(len(serveRoutes)+8)]
	}
	if kind == "prefix" && rng.Intn(8) > 0 {
		q.path = servePrefix + q.path
	}
	if rng.Intn(4) == 0 {
		q.query = []string{"a=1", "gzip=0&x=%20y", "path=/api/v2/spans"}[rng.Intn(3)]
	}
	q.deny = rng.Intn(6) == 0
	q.json = rng.Intn(10) > 0
	doc := serveDoc(rng, format, trace)
	switch rng.Intn(8) {
	case 0:
		doc = doc[:rng.Intn(len(doc))]
	case 1:
		// something else in place of a bracket or quote
		k := rng.Intn(len(doc))
		for !strings.Contains("[]{}\"", string(doc[k:k+1])) {
			k = (k + 1) % len(doc)
		}
		doc[k] = byte(" x{]\"1"[rng.Intn(6)])
	case 2:
		doc = []byte(asciiText(rng, rng.Intn(30)))
	}
	q.w, q.raw, q.size = doc, doc, rng.Intn(2) == 0
	if rng.Intn(2) == 0 {
		q.enc = "gzip"
		q.raw = zip(rng, doc)
		switch rng.Intn(8) {
		case 0:
			q.raw = q.raw[:rng.Intn(len(q.raw))]
		case 1:
			q.raw = doc
		case 2:
			flip, bit := rng.Intn(len(q.raw)), byte(1<<uint(rng.Intn(8)))
			q.raw[flip] ^= bit
			if z, err := gzip.NewReader(bytes.NewReader(q.raw)); err == nil {
				if w, _ := ioutil.ReadAll(z); !bytes.HasPrefix(doc, w) {
					q.raw[flip] ^= bit // it would be a different document
				}
			}
		}
		// as much as can be unpacked
		z, err := gzip.NewReader(bytes.NewReader(q.raw))
		q.head = err == nil
		q.w = nil
		if q.head {
			q.w, err = ioutil.ReadAll(z)
			q.broken = err != nil
		}
	} else if rng.Intn(8) == 0 {
		q.enc = "identity"
	}
	return q
}

func (q *serveReq) log(status int, front bool, saw []json.RawMessage, view []proxy.Span) M {
	if saw == nil {
		saw = []json.RawMessage{}
	}
	return M{"q": M{"method": q.method, "path": q.path, "query": q.query, "mark": q.mark, "deny": q.deny, "enc": q.enc, "head": q.head, "size": q.size,
		"w": ints(q.w), "broken": q.broken, "json": q.json}, "status": status, "front": front, "saw": saw, "view": wireSpans(view)}
}

func (q *serveReq) send(client *http.Client, base string) (int, bool, []json.RawMessage) {
	url := base + q.path
	if q.query != "" {
		url += "?" + q.query
	}
	var body io.Reader = bytes.NewReader(q.raw)
	if !q.size {
		body = struct{ io.Reader }{body}
	}
	req, err := http.NewRequest(q.method, url, body)
	must(err)
	if q.enc != "" {
		req.Header.Set("Content-Encoding", q.enc)
	}
	if q.json {
		req.Header.Set("Content-Type", "application/json")
	} else {
		req.Header.Set("Content-Type", "application/x-thrift")
	}
	req.Header.Set("X-Mark", q.mark)
	if q.deny {
		req.Header.Set("X-Deny", "1")
	}
	resp, err := client.Do(req)
	if err != nil {
		return 0, false, nil
	}
	defer resp.Body.Close()
	res, err := ioutil.ReadAll(resp.Body)
	if err != nil {
		return 0, false, nil
	}
	front := resp.Header.Get("X-Front") == "yes"
	if json.Valid(res) && bytes.HasPrefix(res, []byte("{")) {
		return resp.StatusCode, front, []json.RawMessage{res}
	}
	return resp.StatusCode, front, nil
}

func (p *wholeProc) viewSpans() (res []proxy.Span) {
	req, err := http.NewRequest("GET", p.base+"/admin/spans", nil)
	must(err)
	req.SetBasicAuth("admin", "bingo")
	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		p.check()
		fault(err)
	}
	defer resp.Body.Close()
	if json.NewDecoder(resp.Body).Decode(&res) != nil {
		p.check()
		return nil
	}
	return
}

func TestServe(t *testing.T) {
	runs := 3
	if thorough() {
		runs = 12
	}
	for i := 0; i < runs; i++ {
		if mine(i) {
			runServe(sprint("serve-", i), serveKinds[i%3], rand.New(rand.NewSource(seed()*1000003+int64(i))))
		}
	}
}

func runServe(id, kind string, rng *rand.Rand) {
	begin(id)
	agent := httptest.NewServer(&fakeAgent{})
	defer agent.Close()
	env := "VERIF_MAIN=1"
	if kind != "none" {
		env = "VERIF_ROUTING=" + kind
	}
	p := startWith(agent, env)
	defer p.stop()
	const count = 240
	reqs := make([]*serveReq, count)
	byTrace := map[proxy.Id]int{}
	for i := range reqs {
		trace := proxy.Id(rng.Uint64()&^0xff | 1)
		byTrace[trace] = i
		reqs[i] = serveRequest(rng, kind, trace)
	}
	status, front, seen := make([]int, count), make([]bool, count), make([][]json.RawMessage, count)
	var wg sync.WaitGroup
	for c := 0; c < 8; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			client := &http.Client{Transport: &http.Transport{}, Timeout: 60 * time.Second,
				CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
			for i := c; i < count; i += 8 {
				status[i], front[i], seen[i] = reqs[i].send(client, p.base)
			}
			client.CloseIdleConnections()
		}(c)
	}
	wg.Wait()
	p.check()
	// the last span to come out
	time.Sleep(300 * time.Millisecond)
	last := &serveReq{method: "POST", path: "/api/v2/spans", json: true, trace: proxy.Id(rng.Uint64()&^0xff | 1)}
	if kind == "prefix" {
		last.path = servePrefix + last.path
	}
	last.w = serveDoc(rng, "v2", last.trace)
	last.raw = last.w
	last.head = true
	reqs = append(reqs, last)
	byTrace[last.trace] = count
	s, f, e := last.send(http.DefaultClient, p.base)
	status, front, seen = append(status, s), append(front, f), append(seen, e)
	var view []proxy.Span
	for wait, found := 0, false; wait < 90 && !found; wait++ {
		time.Sleep(time.Second)
		for _, sp := range p.viewSpans() {
			found = found || sp.Trace == last.trace
		}
	}
	time.Sleep(1500 * time.Millisecond)
	view = p.viewSpans()
	p.check()
	spans, extra := map[int][]proxy.Span{}, 0
	for _, sp := range view {
		if i, ok := byTrace[sp.Trace]; ok {
			spans[i] = append(spans[i], sp)
		} else {
			extra++
		}
	}
	routing := M{"front": kind != "none", "prefix": map[string]string{"prefix": servePrefix}[kind], "routes": [][2]string{}}
	if kind != "none" {
		var routes [][2]string
		for _, path := range serveRoutes {
			for _, method := range serveMethods {
				routes = append(routes, [2]string{method, path})
			}
		}
		routing["routes"] = routes
	}
	var cases []M
	for i, q := range reqs {
		cases = append(cases, q.log(status[i], front[i], seen[i], spans[i]))
		if len(cases) == 20 || i == len(reqs)-1 {
			emitLine(M{"id": sprint(id, "-", kind, "-", i/20), "routing": routing, "cases": cases, "extra": extra})
			cases = nil
		}
	}
}
