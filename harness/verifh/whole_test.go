package verifh

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/julienschmidt/httprouter"
	"github.com/ugorji/go/codec"
)

// The assembled program, run as a process of its own: uploads over HTTP, an agent on the
// loopback network, and the view of recent spans.

const originUs = originNs / 1000

// wholeChild is the program under test.
func wholeChild() {
	os.Args = append(os.Args[:1], strings.Split(os.Getenv("VERIF_CHILD"), " ")...)
	convert := func(sp proxy.Span) (proxy.Span, error) {
		switch sp.Name {
		case "drop":
			return proxy.Span{}, errors.New("no")
		case "drop2":
			return sp, errors.New("no")
		case "zeroid":
			sp.Id = 0
		case "zerotrace":
			sp.Trace = 0
		case "rename":
			sp.Name = "renamed"
			sp.Tags = map[string]string{"conv": "yes"}
		case "mark":
			sp.AddTag("conv", "too")
		}
		return sp, nil
	}
	if os.Getenv("VERIF_MAIN") == "1" {
		zipkinproxy.Main(convert)
	} else if kind := os.Getenv("VERIF_ROUTING"); kind != "" {
		zipkinproxy.MainWithRouting(serveRouting(kind), convert)
	} else {
		zipkinproxy.MainWithRouting(func(router *httprouter.Router) http.Handler {
			router.GET("/alive", func(w http.ResponseWriter, _ *http.Request, _ httprouter.Params) { w.WriteHeader(204) })
			return router
		}, convert)
	}
	os.Exit(7) // the program is not supposed to end by itself
}

// fakeAgent takes spans as the trace agent does.
type fakeAgent struct {
	mu     sync.Mutex
	legacy bool // knows the old protocol only
	slow   time.Duration
	late   bool // took so long that the other side might have given up
	subs   [][][]*tracer.Span
	bad    int
	last   time.Time
}

func (a *fakeAgent) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	begun := time.Now()
	defer func() {
		if time.Since(begun) > 600*time.Millisecond {
			a.mu.Lock()
			a.late = true
			a.mu.Unlock()
		}
	}()
	body, err := ioutil.ReadAll(r.Body)
	if err != nil {
		return
	}
	time.Sleep(a.slow)
	if a.legacy && r.URL.Path == "/v0.3/traces" {
		w.WriteHeader(404)
		return
	}
	var lists [][]*tracer.Span
	if strings.Contains(r.Header.Get("Content-Type"), "json") {
		err = json.Unmarshal(body, &lists)
	} else {
		err = codec.NewDecoderBytes(body, &codec.MsgpackHandle{}).Decode(&lists)
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	if err != nil || r.Method != "POST" || !strings.HasSuffix(r.URL.Path, "/traces") {
		a.bad++
		return
	}
	a.subs = append(a.subs, lists)
	a.last = time.Now()
}

type wholeProc struct {
	cmd  *exec.Cmd
	base string
	log  *bytes.Buffer
	dead chan bool
}

// startWhole starts the program; the port might be taken by somebody else.
func startWhole(agent *httptest.Server, main bool, extra ...string) *wholeProc {
	if main {
		return startWith(agent, "VERIF_MAIN=1", extra...)
	}
	return startWith(agent, "VERIF_ROUTING=", extra...)
}

func startWith(agent *httptest.Server, env string, extra ...string) *wholeProc {
	for try := 0; try < 20; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		addr := l.Addr().String()
		l.Close()
		_, port, _ := net.SplitHostPort(agent.Listener.Addr().String())
		args := append([]string{"--http-address=" + addr, "--trace-host=127.0.0.1", "--trace-port=" + port}, extra...)
		p := &wholeProc{cmd: exec.Command(os.Args[0]), base: "http://" + addr, log: &bytes.Buffer{}, dead: make(chan bool)}
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "VERIF_OUT=") {
				p.cmd.Env = append(p.cmd.Env, e)
			}
		}
		p.cmd.Env = append(p.cmd.Env, "VERIF_CHILD="+strings.Join(args, " "), env)
		p.cmd.Stderr = p.log
		p.cmd.Stdout = p.log
		must(p.cmd.Start())
		go func() {
			_ = p.cmd.Wait()
			close(p.dead)
		}()
		for wait := 0; wait < 3000; wait++ {
			select {
			case <-p.dead:
				if strings.Contains(p.log.String(), "address already in use") {
					wait = 1 << 30
					continue
				}
				p.crashed()
			case <-time.After(10 * time.Millisecond):
			}
			if wait >= 1<<30 {
				break
			}
			if resp, err := http.Get(p.base + "/nothing"); err == nil {
				resp.Body.Close()
				return p
			}
		}
		select {
		case <-p.dead:
		default:
			p.stop()
			fmt.Fprintln(os.Stderr, "the program does not answer:\n"+tail(p.log.String()))
			os.Exit(3)
		}
	}
	fault("no port")
	return nil
}

func tail(s string) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 2500 {
		s = s[len(s)-2500:]
	}
	return s
}

// crashed ends this process too, in the middle of the scenario
func (p *wholeProc) crashed() {
	fmt.Fprintln(os.Stderr, "the program ended:\n"+tail(p.log.String()))
	os.Exit(3)
}

func (p *wholeProc) addr() string { return strings.TrimPrefix(p.base, "http://") }

func (p *wholeProc) stop() {
	_ = p.cmd.Process.Kill()
	<-p.dead
	if i := strings.Index(p.log.String(), "DATA RACE"); i >= 0 {
		fmt.Fprintln(os.Stderr, p.log.String()[i:])
		os.Exit(66)
	}
}

func (p *wholeProc) check() {
	select {
	case <-p.dead:
		p.crashed()
	default:
	}
}

type viewSpan struct {
	Name, Service           string
	Tags                    map[string]string
	id, parent, trace       uint64
	ts, dur, cs, cr, ss, sr int64
}

func (p *wholeProc) view() []viewSpan {
	req, err := http.NewRequest("GET", p.base+"/admin/spans", nil)
	must(err)
	req.SetBasicAuth("admin", "bingo")
	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		p.check()
		fault(err)
	}
	defer resp.Body.Close()
	body, err := ioutil.ReadAll(resp.Body)
	must(err)
	var res []proxy.Span
	if err := json.Unmarshal(body, &res); err != nil || resp.StatusCode != 200 {
		fmt.Fprintln(os.Stderr, "the view is not readable:", resp.StatusCode, err, string(body[:min(len(body), 200)]))
		p.stop()
		os.Exit(3)
	}
	var out []viewSpan
	for _, sp := range res {
		out = append(out, viewSpan{id: sp.Id.Uint64(), parent: sp.Parent.Uint64(), trace: sp.Trace.Uint64(), Name: sp.Name, Service: sp.Service,
			ts: int64(sp.Timestamp), dur: int64(sp.Duration), cs: int64(sp.Timings.CS), cr: int64(sp.Timings.CR),
			ss: int64(sp.Timings.SS), sr: int64(sp.Timings.SR), Tags: sp.Tags})
	}
	return out
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---------------------------------------------------------------------------
// stories

type wReport struct {
	trace, id, parent uint64
	name, svc         string
	ts, dur           int64 // microseconds, 0: none
	cs, cr, ss, sr    int64
	tags              [][2]string
	stage             int
}

type story struct {
	rng    *rand.Rand
	strs   map[string]bool
	ids    []uint64 // the traces come first
	traces int
	stages []*upload // in order; nil: nothing at this stage
	status []int
	sparse bool // spans may have no start; then nothing gets lost, and all traces have one root
	volume bool
	single bool // one report of each span: the order of the uploads does not matter
	at0    int  // otherwise, the program that all uploads go to
}

func (s *story) note(v string) string {
	s.strs[v] = true
	return v
}

func (s *story) newId() uint64 {
	for {
		v := s.rng.Uint64() >> uint(pick(s.rng, 0, 0, 0, 8, 40))
		if v == 0 {
			continue
		}
		used := false
		for _, x := range s.ids {
			used = used || x == v
		}
		if !used {
			s.ids = append(s.ids, v)
			return v
		}
	}
}

var wholeNames = []string{"get", "put", "", "drop", "drop2", "zeroid", "zerotrace", "rename", "mark", "a \"b\" \\c", "line\nbreak", "ünicode €", "fake-root"}

func (s *story) name() string {
	if s.rng.Intn(2) == 0 || s.volume && s.rng.Intn(8) > 0 {
		return s.note("op" + strconv.Itoa(s.rng.Intn(5)))
	}
	n := wholeNames[s.rng.Intn(len(wholeNames))]
	if s.rng.Intn(30) == 0 {
		n = strings.Repeat("long ", 60+s.rng.Intn(150))
		if s.rng.Intn(2) == 0 {
			n = hugeToken
		}
	}
	return s.note(n)
}

// a token that stands for a very long text: it is written out when the document is sent, and
// made short again in what is seen
const hugeToken = "HUGE-HUGE"

var hugeText = strings.Repeat(hugeToken, 500000/len(hugeToken))

func (u *upload) expand(rng *rand.Rand) {
	if w := bytes.Replace(u.w, []byte(hugeToken), []byte(hugeText), -1); len(w) != len(u.w) && u.rawEnd == io.EOF && !u.broken {
		u.raw = w
		if u.gz {
			u.raw = zip(rng, w)
		}
	}
}

func (s *story) svc() string { return s.note([]string{"web", "db", "", "auth"}[s.rng.Intn(4)]) }

func (s *story) tags() (res [][2]string) {
	for n := s.rng.Intn(4); n > 0; n-- {
		k := []string{"k1", "k2", "k3", "error", "component", "lc", "conv", ""}[s.rng.Intn(8)]
		v := []string{"v1", "v2", "", "true", "false", "0", "x\ty", "12.5"}[s.rng.Intn(8)]
		if s.rng.Intn(40) == 0 {
			v = strings.Repeat("abc ", 10+s.rng.Intn(200))
		}
		res = append(res, [2]string{s.note(k), s.note(v)})
	}
	return
}

const dayUs = int64(86400) * 1000000

// times are multiples of half a millisecond
func (s *story) at(base int64) int64 { return base + 500*int64(s.rng.Intn(40000)-20000) }

// makeTrace gives the reports of one trace.
func (s *story) makeTrace(trace uint64, n int) (res []*wReport) {
	rng := s.rng
	base := originUs + dayUs + 500*rng.Int63n(100000000)
	ids := make([]uint64, n)
	for i := range ids {
		ids[i] = s.newId()
	}
	if rng.Intn(4) == 0 {
		// the root has the id of the trace
		ids[0] = trace
	}
	shape := rng.Intn(8)
	if s.volume && shape > 1 && shape < 4 {
		shape = 7
	}
	if s.sparse {
		shape = 7
	}
	for i, id := range ids {
		r := &wReport{trace: trace, id: id, name: s.name(), svc: s.svc()}
		switch {
		case i == 0:
			if rng.Intn(2) == 0 {
				r.parent = id
			}
		case shape < 2:
			r.parent = ids[0] // which may be missing
			if i > 2 && rng.Intn(2) == 0 {
				r.parent = ids[rng.Intn(i-1)+1]
			}
		default:
			r.parent = ids[rng.Intn(i)]
		}
		if i > 0 && shape == 2 && rng.Intn(n) == 0 {
			r.parent = s.newId() // another root
		}
		if i > 0 && shape == 3 && rng.Intn(n) == 0 {
			r.parent = 0
		}
		if i > 0 && shape == 4 && rng.Intn(n) == 0 {
			r.parent = ids[rng.Intn(n)] // perhaps a cycle
		}
		if i == 0 && shape < 2 && n > 1 {
			continue // the root is never reported
		}
		start := s.at(base)
		length := int64(500 * (1 + rng.Intn(6000)))
		half := func(server bool) *wReport {
			h := *r
			if server {
				d := 500 * int64(rng.Intn(2000)-1000)
				h.sr, h.ss = start+d+500, start+d+length-500
				h.svc = s.svc()
				h.name = []string{h.name, s.name()}[rng.Intn(2)]
				if rng.Intn(6) == 0 {
					h.sr = 0
				}
			} else {
				h.cs, h.cr = start, start+length
				if rng.Intn(6) == 0 {
					h.cr = 0
				}
			}
			if rng.Intn(5) == 0 && !s.sparse && !s.volume {
				h.parent = 0
			}
			h.tags = s.tags()
			return &h
		}
		kind := rng.Intn(6)
		if s.single {
			kind = 3 + rng.Intn(3)
		}
		switch kind {
		case 0, 1:
			res = append(res, half(false), half(true))
		case 2:
			a, b := half(true), half(false)
			if rng.Intn(2) == 0 {
				// both in one report
				a.cs, a.cr = b.cs, b.cr
				res = append(res, a)
			} else {
				res = append(res, a, b)
			}
		case 3:
			res = append(res, half(rng.Intn(2) == 0))
		default:
			r.ts, r.dur = start, length
			if rng.Intn(8) == 0 {
				r.dur = 0
			}
			if rng.Intn(10) == 0 {
				r.ts = originUs - 500*int64(1+rng.Intn(100000)) // before 2020
			}
			if rng.Intn(10) == 0 {
				r.ts = 0
			}
			r.tags = s.tags()
			res = append(res, r)
			if rng.Intn(6) == 0 && !s.single {
				again := *r
				again.tags = s.tags()
				again.name = s.name()
				res = append(res, &again)
			}
		}
	}
	for _, r := range res {
		if !s.sparse && r.ts == 0 {
			// spans without a start do not go together with an added root here
			r.ts = s.at(base)
		}
		r.stage = rng.Intn(len(s.stages))
		if !s.sparse && rng.Intn(60) == 0 {
			r.id = 0 // not a span at all
		}
	}
	return
}

func idText(rng *rand.Rand, id uint64) string {
	t := strconv.FormatUint(id, 16)
	if rng.Intn(2) == 0 {
		t = fmt.Sprintf("%016x", id)
	}
	if rng.Intn(4) == 0 {
		t = strings.ToUpper(t)
	}
	return t
}

func (s *story) fits(format string, r *wReport) bool {
	client, server := r.cs != 0 && r.cr != 0, r.ss != 0 && r.sr != 0
	any := r.cs|r.cr|r.ss|r.sr != 0
	switch {
	case format == "v1":
		return true
	case client && server:
		return false
	case any && !client && !server:
		return false
	}
	return true
}

// document makes a document of the reports
func (s *story) document(format string, reports []*wReport) *jv {
	rng := s.rng
	str := func(v string) *jv { return jS(s.note(v)) }
	list := jA()
	procs := jD()
	for _, r := range reports {
		o := jO()
		id := func(k string, v uint64) { o.add(k, jP(idText(rng, v))) }
		switch format {
		case "v1":
			id("traceId", r.trace)
			if r.id != 0 {
				id("id", r.id)
			}
			if r.parent != 0 {
				id("parentId", r.parent)
			} else if rng.Intn(3) == 0 {
				o.add("parentId", jL("null"))
			}
			o.add("name", str(r.name))
			if r.ts != 0 {
				o.add("timestamp", jU(r.ts))
			}
			if r.dur != 0 {
				o.add("duration", jU(r.dur))
			}
			ep := func(a *jv) *jv {
				if r.svc != "" {
					a.add("endpoint", jO(jm{"serviceName", str(r.svc)}))
				}
				return a
			}
			anns := jA()
			for i, t := range []int64{r.cs, r.cr, r.ss, r.sr} {
				if t != 0 {
					anns.a = append(anns.a, ep(jO(jm{"timestamp", jU(t)}, jm{"value", jS([]string{"cs", "cr", "ss", "sr"}[i])})))
				}
			}
			if rng.Intn(4) == 0 {
				anns.a = append(anns.a, ep(jO(jm{"timestamp", jU(r.ts + 1)}, jm{"value", jS("event")})))
			}
			rng.Shuffle(len(anns.a), func(i, j int) { anns.a[i], anns.a[j] = anns.a[j], anns.a[i] })
			if len(anns.a) > 0 || rng.Intn(2) == 0 {
				o.add("annotations", anns)
			}
			bins := jA()
			for _, t := range r.tags {
				v := str(t[1])
				if t[1] == "true" || t[1] == "false" {
					v = jL(t[1])
				} else if t[1] == "12.5" || t[1] == "0" {
					v = jN(t[1])
				}
				b := jO(jm{"key", str(t[0])}, jm{"value", v})
				if len(anns.a) == 0 || rng.Intn(3) == 0 {
					ep(b)
				}
				bins.a = append(bins.a, b)
			}
			if len(bins.a) > 0 {
				o.add("binaryAnnotations", bins)
			}
		case "v2", "jaeger":
			ts, dur, kind := r.ts, r.dur, ""
			if r.cs != 0 {
				ts, dur, kind = r.cs, r.cr-r.cs, []string{"CLIENT", "client", "Client"}[rng.Intn(3)]
			} else if r.sr != 0 {
				ts, dur, kind = r.sr, r.ss-r.sr, []string{"SERVER", "server"}[rng.Intn(2)]
			}
			if dur < 0 {
				dur = 0
			}
			if format == "v2" {
				id("traceId", r.trace)
				if r.id != 0 {
					id("id", r.id)
				}
				if r.parent != 0 {
					id("parentId", r.parent)
				}
				o.add("name", str(r.name))
				if ts != 0 {
					o.add("timestamp", jU(ts))
				}
				if dur != 0 {
					o.add("duration", jU(dur))
				}
				if kind != "" {
					o.add("kind", jS(kind))
				}
				if r.svc != "" {
					o.add("localEndpoint", jO(jm{"serviceName", str(r.svc)}))
				}
				tags := jD()
				seen := map[string]bool{}
				for _, t := range r.tags {
					if !seen[t[0]] {
						tags.add(s.note(t[0]), str(t[1]))
					}
					seen[t[0]] = true
				}
				o.add("tags", tags)
				break
			}
			id("traceID", r.trace)
			if r.id != 0 {
				id("spanID", r.id)
			}
			o.add("operationName", str(r.name))
			if r.parent != 0 {
				refs := jA()
				if rng.Intn(4) == 0 {
					refs.a = append(refs.a, jO(jm{"refType", jS("FOLLOWS_FROM")}, jm{"spanID", jP(idText(rng, r.id))}))
				}
				refs.a = append(refs.a, jO(jm{"refType", jS("CHILD_OF")}, jm{"spanID", jP(idText(rng, r.parent))}))
				o.add("references", refs)
			}
			if ts != 0 {
				o.add("startTime", jU(ts))
			}
			if dur != 0 {
				o.add("duration", jU(dur))
			}
			tags := jA()
			for _, t := range r.tags {
				tags.a = append(tags.a, jO(jm{"key", str(t[0])}, jm{"type", jS("string")}, jm{"value", str(t[1])}))
			}
			if kind != "" {
				tags.a = append(tags.a, jO(jm{"key", jS("span.kind")}, jm{"value", jS(kind)}))
			}
			o.add("tags", tags)
			p := "p" + r.svc
			o.add("processID", jS(p))
			known := false
			for _, m := range procs.m {
				known = known || m.k == p
			}
			if !known {
				procs.add(p, jO(jm{"serviceName", str(r.svc)}))
			}
		}
		list.a = append(list.a, o)
	}
	if format == "jaeger" {
		return jO(jm{"data", jA(jO(jm{"spans", list}, jm{"processes", procs}))})
	}
	return list
}

func newStory(rng *rand.Rand, volume, single bool, stages int) *story {
	s := &story{single: single, at0: rng.Intn(1000), rng: rng, strs: map[string]bool{}, stages: make([]*upload, stages), status: make([]int, stages), sparse: rng.Intn(3) == 0, volume: volume}
	for _, x := range []string{"protocolVersion", "json v1", "json v2", "jaeger", "lc", "true", "false", "0", "12.5", "null"} {
		s.note(x)
	}
	s.traces = 1 + rng.Intn(2)
	if volume {
		s.traces = 1
	}
	for i := 0; i < s.traces; i++ {
		s.newId()
	}
	var all []*wReport
	for i := 0; i < s.traces; i++ {
		n := pick(rng, 1, 1, 2, 3, 4, 6)
		if volume {
			n = 14 + rng.Intn(8)
		}
		all = append(all, s.makeTrace(s.ids[i], n)...)
	}
	for x := range s.stages {
		var mine []*wReport
		for _, r := range all {
			if r.stage == x {
				mine = append(mine, r)
			}
		}
		if len(mine) == 0 {
			continue
		}
		if rng.Intn(2) == 0 {
			rng.Shuffle(len(mine), func(i, j int) { mine[i], mine[j] = mine[j], mine[i] })
		}
		format := []string{"v1", "v2", "jaeger"}[rng.Intn(3)]
		for _, r := range mine {
			if !s.fits(format, r) {
				format = "v1"
			}
		}
		st := randStyle(rng)
		st.anyCase = format != "jaeger"
		if st.unknown > 0 {
			st.unknown, st.deep = 0.1, 1
		}
		if volume {
			st = plainStyle()
		}
		u := newUpload(rng, format)
		v := s.document(format, mine)
		if !s.sparse && rng.Intn(5) == 0 && (!volume || rng.Intn(4) == 0) {
			u = randUpload(rng, format, v, st, true)
			if u.rawEnd == io.EOF && len(u.raw) > 0 && rng.Intn(6) == 0 { // the client goes away
				raw := u.raw[:rng.Intn(len(u.raw))]
				if u.gz {
					u.asZip(raw, io.ErrUnexpectedEOF)
				} else {
					u.asPlain(raw, io.ErrUnexpectedEOF)
				}
			}
		} else if rng.Intn(2) == 0 {
			u.asZip(zip(rng, st.render(v)), io.EOF)
		} else {
			u.asPlain(st.render(v), io.EOF)
		}
		u.expand(rng)
		s.stages[x] = u
	}
	return s
}

func bytes8(v uint64) []int {
	b := make([]int, 8)
	for i := range b {
		b[i] = int(v >> (8 * uint(i)) & 255)
	}
	return b
}

func (s *story) no(id uint64) int {
	if id == 0 {
		return 0
	}
	for i, x := range s.ids {
		if x == id {
			return i + 1
		}
	}
	return -99
}

func (s *story) text(v string) string {
	if v == hugeText {
		v = hugeToken
	}
	if s.strs[v] || v == "" || v == "fake-root" || v == "(resource empty)" || v == "renamed" || v == "conv" || v == "yes" || v == "too" {
		return v
	}
	return "?" + v
}

func (s *story) tagList(tags map[string]string) [][2]string {
	res := [][2]string{}
	for k, v := range tags {
		res = append(res, [2]string{s.text(k), s.text(v)})
	}
	sort.Slice(res, func(i, j int) bool { return res[i][0] < res[j][0] })
	return res
}

func (s *story) log(id string, agent []*tracer.Span, view []viewSpan, full bool) M {
	strs := []M{}
	for v := range s.strs {
		strs = append(strs, M{"b": ints([]byte(v)), "s": v})
	}
	ids := [][]int{}
	for _, v := range s.ids {
		ids = append(ids, bytes8(v))
	}
	ups := []M{}
	for x, u := range s.stages {
		if u != nil {
			l := u.log(s.status[x], nil)
			delete(l, "spans")
			ups = append(ups, l)
		}
	}
	as := []M{}
	for _, sp := range agent {
		as = append(as, M{"id": s.no(sp.SpanID), "trace": s.no(sp.TraceID), "parent": s.no(sp.ParentID), "name": s.text(sp.Name),
			"service": s.text(sp.Service), "resource": s.text(sp.Resource), "start": bytes8(uint64(sp.Start)), "dur": bytes8(uint64(sp.Duration)),
			"tags": s.tagList(sp.Meta), "error": sp.Error})
	}
	vs := []M{}
	for _, sp := range view {
		vs = append(vs, M{"id": s.no(sp.id), "trace": s.no(sp.trace), "parent": s.no(sp.parent), "name": s.text(sp.Name), "svc": s.text(sp.Service),
			"ts": bytes8(uint64(sp.ts)), "dur": bytes8(uint64(sp.dur)), "cs": bytes8(uint64(sp.cs)), "cr": bytes8(uint64(sp.cr)),
			"ss": bytes8(uint64(sp.ss)), "sr": bytes8(uint64(sp.sr)), "tags": s.tagList(sp.Tags)})
	}
	return M{"kind": "story", "id": id, "ids": ids, "strs": strs, "traces": s.traces, "uploads": ups, "agent": as, "view": vs, "full": full}
}

// wholeRun is one run of one or more programs with the same agent.
type wholeRun struct {
	id      string
	rng     *rand.Rand
	agent   *fakeAgent
	quit    chan bool
	stories []*story
	seen    map[uint64]int

	// many small traces at a time, or a large one: these are logged as numbers only
	bulk  int
	base  uint64
	burst bool
	// it comes in several stages
	spread bool
}

func newWholeRun(id string, rng *rand.Rand, agent *fakeAgent) *wholeRun {
	r := &wholeRun{id: id, rng: rng, agent: agent, quit: make(chan bool), seen: map[uint64]int{}, base: uint64(1)<<62 | uint64(rng.Int63n(1<<40))<<16}
	// The agent has to be quick, and the program has to get its turn.
	go func() {
		for last := time.Now(); ; last = time.Now() {
			select {
			case <-r.quit:
				return
			case <-time.After(50 * time.Millisecond):
			}
			if time.Since(last) > 450*time.Millisecond {
				agent.mu.Lock()
				agent.late = true
				agent.mu.Unlock()
			}
		}
	}()
	return r
}

func (r *wholeRun) more(count int, volume, single bool, stages int) []*story {
	from := len(r.stories)
	for len(r.stories) < from+count {
		s := newStory(rand.New(rand.NewSource(r.rng.Int63())), volume, single, stages)
		ok := true
		for _, tr := range s.ids[:s.traces] {
			_, used := r.seen[tr]
			ok = ok && !used
		}
		if !ok {
			continue
		}
		for _, tr := range s.ids[:s.traces] {
			r.seen[tr] = len(r.stories)
		}
		r.stories = append(r.stories, s)
	}
	return r.stories[from:]
}

func (r *wholeRun) bulkTrace(i int) uint64 {
	if r.burst {
		return r.base + uint64(i)
	}
	return r.base + 1
}

// bulkNo is the number of a bulk span, if it is one and as it should be
func (r *wholeRun) bulkNo(trace, id, parent uint64, name string, start, dur int64) int {
	i := int(id - r.base)
	if id < r.base || i > r.bulk || i < 1 || trace != r.bulkTrace(i) || parent != r.bulkTrace(i) || name != "bulk" ||
		start != (originUs+int64(i))*1000 || dur != int64(i)*1000 {
		return 0
	}
	return i
}

// upload sends the stories, to any of the programs; false if that took too long.
func (r *wholeRun) upload(stories []*story, stages int, bulk bool, procs ...*wholeProc) bool {
	begun := time.Now()
	for x := 0; x < stages; x++ {
		var wg sync.WaitGroup
		for i, s := range stories {
			if s.stages[x] == nil {
				continue
			}
			wg.Add(1)
			go func(i int, s *story, p *wholeProc, rng *rand.Rand) {
				defer wg.Done()
				if !s.single {
					p = procs[s.at0%len(procs)]
				}
				s.status[x] = send(rng, p.addr(), i, s.stages[x])
			}(i, s, procs[r.rng.Intn(len(procs))], rand.New(rand.NewSource(r.rng.Int63())))
		}
		for from := 1; bulk && from <= r.bulk; from += 500 {
			// what belongs to one trace comes at once
			if last := stages - 1; r.spread && x != (from/500+last)%stages || !r.spread && x != last {
				continue
			}
			wg.Add(1)
			go func(from int, p *wholeProc) {
				defer wg.Done()
				doc := ""
				for i := from; i < from+500 && i <= r.bulk; i++ {
					doc += fmt.Sprintf(`,{"traceId":"%x","id":"%x","parentId":"%x","name":"bulk","timestamp":%d,"duration":%d}`,
						r.bulkTrace(i), r.base+uint64(i), r.bulkTrace(i), originUs+int64(i), i)
				}
				resp, err := http.Post(p.base+"/api/v2/spans", "application/json", strings.NewReader("["+doc[1:]+"]"))
				if err != nil {
					p.check()
					fault(err)
				}
				resp.Body.Close()
				if resp.StatusCode != 202 {
					must(fmt.Errorf("status %d for a simple upload", resp.StatusCode))
				}
			}(from, procs[r.rng.Intn(len(procs))])
		}
		wg.Wait()
		for _, p := range procs {
			p.check()
		}
		if bulk && r.spread && x == stages-2 {
			// longer than messages are held back to be sent together
			time.Sleep(1300 * time.Millisecond)
		}
	}
	// all reports of a trace have to come in good time
	return time.Since(begun) < 6*time.Second
}

// settle waits until everything has been handed on; false if things went too slowly.
func (r *wholeRun) settle(quiet time.Duration, procs ...*wholeProc) bool {
	ended := time.Now()
	for {
		time.Sleep(200 * time.Millisecond)
		for _, p := range procs {
			p.check()
		}
		r.agent.mu.Lock()
		last, late := r.agent.last, r.agent.late
		r.agent.mu.Unlock()
		if late {
			return false
		}
		if time.Since(ended) > quiet && time.Since(last) > 4500*time.Millisecond {
			return true
		}
	}
}

// finish writes the logs. views: what each program showed at its end
func (r *wholeRun) finish(views ...[]viewSpan) {
	close(r.quit)
	r.agent.mu.Lock()
	defer r.agent.mu.Unlock()
	byTrace := map[uint64][]*tracer.Span{}
	alien := r.agent.bad
	no := map[uint64]int{}
	number := func(tr uint64) int {
		if _, ok := no[tr]; !ok {
			no[tr] = len(no) + 1
		}
		return no[tr]
	}
	bulkAgent := []int{}
	subs := [][][2]int{}
	for _, lists := range r.agent.subs {
		sub := [][2]int{}
		if len(lists) == 0 {
			alien++
		}
		for _, list := range lists {
			tr := uint64(0)
			if len(list) > 0 {
				tr = list[0].TraceID
			}
			isBulk := false
			for _, sp := range list {
				if i := r.bulkNo(sp.TraceID, sp.SpanID, sp.ParentID, sp.Resource, sp.Start, sp.Duration); i > 0 {
					bulkAgent = append(bulkAgent, i)
					isBulk = true
				}
			}
			if isBulk && len(list) == map[bool]int{true: 1, false: r.bulk}[r.burst] {
				continue
			}
			if _, ok := r.seen[tr]; !ok {
				alien++
			}
			for _, sp := range list {
				if sp.TraceID != tr {
					alien++
				}
				byTrace[sp.TraceID] = append(byTrace[sp.TraceID], sp)
			}
			sub = append(sub, [2]int{number(tr), len(list)})
		}
		subs = append(subs, sub)
	}
	inView := map[uint64][]viewSpan{}
	shown := [][][2]int{}
	lens := []int{}
	bulkView := []int{}
	full := false
	for _, view := range views {
		runs := [][2]int{}
		for i, sp := range view {
			if x := r.bulkNo(sp.trace, sp.id, sp.parent, sp.Name, sp.ts, sp.dur); x > 0 {
				bulkView = append(bulkView, x)
				continue
			}
			if _, ok := r.seen[sp.trace]; !ok {
				alien++
			}
			inView[sp.trace] = append(inView[sp.trace], sp)
			if i > 0 && view[i-1].trace == sp.trace {
				runs[len(runs)-1][1]++
			} else {
				runs = append(runs, [2]int{number(sp.trace), 1})
			}
		}
		shown = append(shown, runs)
		lens = append(lens, len(view))
		full = full || len(view) >= 2048
	}
	emitLine(M{"kind": "run", "id": r.id + "-run", "alien": alien, "agent": subs, "views": shown,
		"bulk": r.bulk, "bulkAgent": bulkAgent, "bulkView": bulkView, "shown": lens})
	for i, s := range r.stories {
		var as []*tracer.Span
		var vs []viewSpan
		for _, tr := range s.ids[:s.traces] {
			as = append(as, byTrace[tr]...)
			vs = append(vs, inView[tr]...)
		}
		emitLine(s.log(r.id+"-"+strconv.Itoa(i), as, vs, full))
	}
}

func wholeTries(t *testing.T, name string, run func(id string, i int, rng *rand.Rand) bool) {
	runs := envInt("VERIF_RUNS", 3)
	for i := 0; i < runs; i++ {
		if mine(i) {
			id := name + "-" + strconv.Itoa(i)
			begin(id)
			for try := int64(0); ; try++ {
				if run(id, i, rand.New(rand.NewSource(seed()*1000003+int64(i)+try*7777777))) {
					break
				}
				if try == 4 {
					fault("this machine is too slow")
				}
			}
		}
	}
}

// TestWhole runs the program a few times.
func TestWhole(t *testing.T) { wholeTries(t, "whole", runWhole) }

func runWhole(id string, kind int, rng *rand.Rand) bool {
	volume := kind%3 == 1
	agent := &fakeAgent{legacy: kind%3 == 2}
	srv := httptest.NewServer(agent)
	defer srv.Close()
	p := startWhole(srv, kind%2 == 1)
	defer p.stop()
	count, stages := 80, 4
	if volume {
		count, stages = 210, 2
		agent.slow = 150 * time.Millisecond
	}
	r := newWholeRun(id, rng, agent)
	if kind%3 == 2 {
		r.bulk = 2100 + rng.Intn(5900)
	} else if volume {
		r.bulk, r.burst = 1500+rng.Intn(1000), true
	}
	if !r.upload(r.more(count, volume, false, stages), stages, true, p) || !r.settle(13*time.Second, p) {
		return false
	}
	r.finish(p.view())
	return true
}

// TestWholeKafka runs programs that exchange their spans through Kafka.
func TestWholeKafka(t *testing.T) { wholeTries(t, "kafka", runWholeKafka) }

func runWholeKafka(id string, kind int, rng *rand.Rand) bool {
	agent := &fakeAgent{}
	srv := httptest.NewServer(agent)
	defer srv.Close()
	delay := time.Duration(rng.Intn(4)) * time.Second
	if kind%4 == 0 {
		delay = 3 * time.Second
	}
	kafka := newCluster(delay)
	defer kafka.close()
	topic, args := "zipkin-spans", []string{"--kafka-address=" + kafka.addr(), "--kafka-disable-tls"}
	if kind%4 > 1 {
		topic = "other-topic"
		args = append(args, "--kafka-topic="+topic, "--kafka-consumer-group=other-group")
		kafka.topics[topic] = make([][]kbatch, pick(rng, 1, 3, 5, 20))
	}
	r := newWholeRun(id, rng, agent)
	var procs []*wholeProc
	defer func() {
		for _, p := range procs {
			p.stop()
		}
	}()
	start := func() *wholeProc {
		p := startWhole(srv, kind%2 == 1, args...)
		procs = append(procs, p)
		return p
	}
	done := func() {
		kafka.mu.Lock()
		defer kafka.mu.Unlock()
		agent.bad += kafka.bad
		for t := range kafka.topics {
			if t != topic {
				agent.bad++
			}
		}
	}
	if kind%2 == 0 {
		// One program, and later another one in its place. Spans come before the consumer has joined.
		p := start()
		if kind%4 == 0 {
			r.bulk, r.burst, r.spread = 2000+rng.Intn(1000), true, true
		}
		if !r.upload(r.more(50, false, false, 3), 3, true, p) || !r.settle(15*time.Second, p) {
			return false
		}
		first := p.view()
		p.stop()
		kafka.expel()
		p = start()
		if !r.upload(r.more(50, false, false, 3), 3, false, p) || !r.settle(15*time.Second, p) {
			return false
		}
		done()
		r.finish(first, p.view())
		return true
	}
	// Two programs, that share the topic
	p, q := start(), start()
	for wait := 0; !kafka.settled(2); wait++ {
		time.Sleep(50 * time.Millisecond)
		p.check()
		q.check()
		if wait > 1000 {
			fmt.Fprintln(os.Stderr, "the programs do not share the topic:\n"+tail(p.log.String()))
			os.Exit(3)
		}
	}
	r.more(40, false, true, 4)
	r.more(40, false, false, 4)
	if !r.upload(r.stories, 4, true, p, q) || !r.settle(15*time.Second, p, q) {
		return false
	}
	done()
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, p.log.String(), q.log.String(), kafka.offs)
		for t, l := range kafka.topics {
			for i := range l {
				fmt.Fprintln(os.Stderr, t, i, len(l[i]), kafka.end(t, int32(i)))
			}
		}
	}
	r.finish(p.view(), q.view())
	return true
}
