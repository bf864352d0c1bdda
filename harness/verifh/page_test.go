package verifh

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// The metrics page of the running program.

type pageTrace struct {
	Spans    int  `json:"spans"`
	Distinct int  `json:"distinct"`
	Roots    int  `json:"roots"`
	Same     bool `json:"same"`
	Black    bool `json:"black"`
	trace    proxy.Id
	reports  [][2]proxy.Id // id and parent, zero: none
}

type pageUpload struct {
	Fmt     string      `json:"fmt"`
	Ok      bool        `json:"ok"`
	Timed   bool        `json:"timed"`
	Invalid int         `json:"invalid"`
	Traces  []pageTrace `json:"traces"`
	path    string
	ctype   string
	body    []byte
}

func pageShape(rng *rand.Rand, large bool) pageTrace {
	t := pageTrace{trace: proxy.Id(rng.Uint64()&^0xffffff | 0x100000)}
	n := 1 + rng.Intn(6)
	if large {
		n = 8180 + rng.Intn(40)
	}
	root := t.trace
	switch rng.Intn(4) {
	case 0: // several roots
		n++
		t.Roots = 2 + rng.Intn(n-1)
		for i := 0; i < n; i++ {
			parent := root + proxy.Id(i-1)
			if i < t.Roots {
				parent = root + 0x80000 + proxy.Id(i)
			}
			t.reports = append(t.reports, [2]proxy.Id{root + proxy.Id(i), parent})
		}
	case 1: // children of one that never arrives
		n++
		t.Roots, t.Same = n, true
		for i := 1; i <= n; i++ {
			t.reports = append(t.reports, [2]proxy.Id{root + proxy.Id(i), root + 0x80000})
		}
	default:
		t.Roots = 1
		t.reports = append(t.reports, [2]proxy.Id{root, root})
		for i := 1; i < n; i++ {
			t.reports = append(t.reports, [2]proxy.Id{root + proxy.Id(i), root + proxy.Id(rng.Intn(i))})
		}
	}
	t.Distinct = len(t.reports)
	for rng.Intn(3) == 0 {
		t.reports = append(t.reports, t.reports[rng.Intn(len(t.reports))])
	}
	t.Spans = len(t.reports)
	return t
}

func (u *pageUpload) render(rng *rand.Rand) {
	var spans []string
	at := originUs + dayUs
	span := func(trace, id, parent proxy.Id) {
		at += 500
		switch u.Fmt {
		case "json-v1":
			spans = append(spans, fmt.Sprintf(`{"traceId":"%s","id":"%s","parentId":"%s","name":"n%d","timestamp":%d,"duration":500}`, trace, id, parent, rng.Intn(9), at))
		case "json-v2":
			spans = append(spans, fmt.Sprintf(`{"traceId":"%s","id":"%s","parentId":"%s","name":"n%d","timestamp":%d,"duration":500}`, trace, id, parent, rng.Intn(9), at))
		default:
			spans = append(spans, fmt.Sprintf(`{"traceID":"%s","spanID":"%s","operationName":"n%d","references":[{"refType":"CHILD_OF","spanID":"%s"}],"startTime":%d,"duration":500}`, trace, id, rng.Intn(9), parent, at))
		}
	}
	for _, t := range u.Traces {
		for _, r := range t.reports {
			span(t.trace, r[0], r[1])
		}
	}
	for i := 0; i < u.Invalid; i++ {
		if rng.Intn(2) == 0 {
			span(0, 7, 7)
		} else {
			span(7, 0, 7)
		}
	}
	rng.Shuffle(len(spans), func(i, j int) { spans[i], spans[j] = spans[j], spans[i] })
	doc := "[" + strings.Join(spans, ",") + "]"
	if u.Fmt == "jaeger" {
		doc = `{"data":[{"spans":` + doc + `,"processes":{}}]}`
	}
	u.body = []byte(doc)
}

func pageUploads(rng *rand.Rand, black []pageTrace) (us []*pageUpload, large []pageTrace) {
	for i, n := 0, 30+rng.Intn(30); i < n; i++ {
		u := &pageUpload{Fmt: []string{"json-v1", "json-v2", "jaeger"}[rng.Intn(3)], Ok: true, Timed: true, ctype: "application/json", Traces: []pageTrace{}}
		u.path = "/api/" + strings.TrimPrefix(u.Fmt, "json-") + "/spans"
		for rng.Intn(4) > 0 {
			u.Traces = append(u.Traces, pageShape(rng, false))
		}
		if i%20 == 5 {
			t := pageShape(rng, true)
			u.Traces = append(u.Traces, t)
			if t.Distinct > 8192 {
				large = append(large, t)
			}
		}
		for len(black) > 0 && rng.Intn(8) == 0 {
			t := black[rng.Intn(len(black))]
			t.reports = t.reports[:1+rng.Intn(20)]
			t.Black, t.Spans, t.Distinct = true, len(t.reports), 0
			u.Traces = append(u.Traces, t)
		}
		if rng.Intn(5) == 0 {
			u.Invalid = 1 + rng.Intn(3)
		}
		u.render(rng)
		switch rng.Intn(12) {
		case 0:
			u.Ok = false
			u.body = u.body[:rng.Intn(len(u.body))]
		case 1:
			u.Ok = false
			u.body = append([]byte{"x}]"[rng.Intn(3)]}, u.body...)
		case 2:
			if u.Fmt == "json-v1" {
				u.ctype = "application/x-thrift"
				u.Ok, u.Timed = false, false
			}
		}
		if !u.Ok {
			var kept []pageTrace
			for _, t := range large {
				mine := false
				for _, o := range u.Traces {
					mine = mine || o.trace == t.trace
				}
				if !mine {
					kept = append(kept, t)
				}
			}
			large = kept
		}
		us = append(us, u)
	}
	return
}

// page gives the counts and gauges, and the names of what is a number otherwise
func (p *wholeProc) page() (int, map[string]int, []string) {
	req, err := http.NewRequest("GET", p.base+"/admin/metrics", nil)
	must(err)
	req.SetBasicAuth("admin", "bingo")
	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		p.check()
		fault(err)
	}
	defer resp.Body.Close()
	body, err := ioutil.ReadAll(resp.Body)
	must(err)
	var all map[string]map[string]interface{}
	counts, names := map[string]int{}, []string{}
	if resp.StatusCode != 200 {
		return resp.StatusCode, counts, names
	}
	if json.Unmarshal(body, &all) != nil {
		return 0, counts, names
	}
	for name, values := range all {
		name = strings.TrimPrefix(name, "zipkin.proxy.")
		if strings.HasPrefix(name, "runtime.") {
			continue
		}
		if n, ok := values["count"].(float64); ok {
			counts[name] = int(n)
		} else if n, ok := values["value"].(float64); ok {
			if strings.HasPrefix(name, "traces.") {
				counts[name] = int(n)
			} else {
				names = append(names, name)
			}
		}
	}
	return 200, counts, names
}

func TestPage(t *testing.T) {
	runs := 2
	if thorough() {
		runs = 12
	}
	for i := 0; i < runs; i++ {
		if mine(i) {
			runPage(sprint("page-", i), rand.New(rand.NewSource(seed()*1000003+int64(i))))
		}
	}
}

func runPage(id string, rng *rand.Rand) {
	begin(id)
	agent := httptest.NewServer(&fakeAgent{})
	defer agent.Close()
	p := startWhole(agent, rng.Intn(2) == 0)
	defer p.stop()
	var mu sync.Mutex
	ev, us := []M{}, []*pageUpload{}
	log := func(e M) {
		mu.Lock()
		ev = append(ev, e)
		mu.Unlock()
	}
	look := func() map[string]int {
		log(M{"e": "ask"})
		status, counts, names := p.page()
		log(M{"e": "page", "status": status, "n": counts, "numbers": names})
		return counts
	}
	look()
	look()
	var black []pageTrace
	ended := 0
	for round := 0; round < 2; round++ {
		next, large := pageUploads(rng, black)
		black = append(black, large...)
		var wg sync.WaitGroup
		for c := 0; c < 6; c++ {
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				client := &http.Client{Transport: &http.Transport{}, Timeout: 60 * time.Second}
				defer client.CloseIdleConnections()
				for i := c; i < len(next); i += 6 {
					u := next[i]
					mu.Lock()
					us = append(us, u)
					number := len(us)
					ev = append(ev, M{"e": "send", "u": number})
					mu.Unlock()
					resp, err := client.Post(p.base+u.path, u.ctype, strings.NewReader(string(u.body)))
					if err != nil {
						p.check()
						fault(err)
					}
					_, _ = ioutil.ReadAll(resp.Body)
					resp.Body.Close()
					log(M{"e": "done", "u": number, "status": resp.StatusCode})
				}
			}(c)
		}
		for i := rng.Intn(12); i > 0; i-- {
			look()
			time.Sleep(time.Duration(rng.Intn(15)) * time.Millisecond)
		}
		wg.Wait()
		look()
		for _, u := range next {
			for _, t := range u.Traces {
				if u.Ok && !t.Black {
					ended++
				}
			}
		}
		// all leave the buffer by and by
		time.Sleep(8500 * time.Millisecond)
		for wait := 0; wait < 60; wait++ {
			time.Sleep(time.Second)
			counts := look()
			if counts["traces.finishedsize"] == ended && counts["traces.partial.count"] == 0 {
				break
			}
		}
		time.Sleep(time.Second)
		log(M{"e": "rest"})
		look()
		look()
	}
	p.check()
	emitLine(M{"id": id, "us": us, "ev": ev})
}
