package verifh

import (
	"encoding/json"
	"math/rand"
	"os"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/sirupsen/logrus"
)

type aggOp struct {
	O  string `json:"o"`
	Tr int    `json:"tr"`
	Sp *ASpan `json:"sp"`
	N  int    `json:"n"`
	Ms int    `json:"ms"`
}

type aggScenario struct {
	Id   string  `json:"id"`
	Ops  []aggOp `json:"ops"`
	Room int     `json:"room"` // of the output channel
}

type fillInfo struct {
	ids map[proxy.Id]bool
}

// aggRun executes one scenario against ErrorCorrectSpans under virtual time.
type aggRun struct {
	ids     *Ids
	rng     *rand.Rand
	in      chan proxy.Span
	out     chan proxy.Trace
	start   time.Time
	ev      []M
	stalled bool
	fills   map[int]*fillInfo
	queue   []aggOp
	pending chan bool // closed when the outstanding send is done
	cur     aggOp
	black0  int64
	base    map[string]int64
}

var aggMeters = map[string]string{
	"finished": "traces.finished", "noroot": "traces.noroot", "toolarge": "traces.toolarge",
	"tooold": "traces.tooold", "discarded": "traces.discarded", "spansDiscarded": "spans.discarded",
	"merged": "spans.merged", "blacklisted": "blacklist.span.received",
}

// Whether the metrics are observed; only where the property is about them.
var withMetrics = os.Getenv("VERIF_METRICS") == "1"

func (r *aggRun) now() int { return int(time.Since(r.start) / time.Millisecond) }

func (r *aggRun) log(e M) {
	e["t"] = r.now()
	r.ev = append(r.ev, e)
}

// pump starts queued sends and logs the ones that are done.
func (r *aggRun) pump() {
	for {
		if r.pending != nil {
			select {
			case <-r.pending:
				black := meterCount(aggMeters["blacklisted"])
				bl := "?"
				if withMetrics {
					bl = map[bool]string{true: "y", false: "n"}[black > r.black0]
				}
				r.log(M{"e": "add", "tr": r.cur.Tr, "sp": r.cur.Sp, "n": r.cur.N, "bl": bl})
				r.pending = nil
			default:
				return
			}
		}
		if len(r.queue) == 0 {
			return
		}
		r.cur, r.queue = r.queue[0], r.queue[1:]
		r.black0 = meterCount(aggMeters["blacklisted"])
		var spans []proxy.Span
		if r.cur.Sp.Id == FILL {
			spans = r.makeFill(r.cur)
		} else {
			r.cur.N = 1
			spans = []proxy.Span{r.ids.concSpan(r.cur.Tr, *r.cur.Sp)}
		}
		done := make(chan bool)
		go func() {
			for _, sp := range spans {
				r.in <- sp
			}
			close(done)
		}()
		r.pending = done
		synctest.Wait()
	}
}

func (r *aggRun) makeFill(op aggOp) []proxy.Span {
	info := r.fills[op.Tr]
	if info == nil {
		info = &fillInfo{map[proxy.Id]bool{}}
		r.fills[op.Tr] = info
	}
	s := *op.Sp
	s.Id = 0
	proto := r.ids.concSpan(op.Tr, s)
	res := make([]proxy.Span, 0, op.N)
	next := r.rng.Uint64()
	for len(res) < op.N {
		var id proxy.Id
		if op.N <= 1000 {
			id = proxy.Id(r.rng.Uint64())
		} else {
			// descending ids keep the insertion into big traces fast
			id = proxy.Id(next)
			next--
		}
		if id == 0 || info.ids[id] {
			continue
		}
		if _, used := r.ids.abs[id]; used {
			continue
		}
		info.ids[id] = true
		sp := proto
		sp.Id = id
		if proto.Tags != nil {
			sp.Tags = map[string]string{}
			for k, v := range proto.Tags {
				sp.Tags[k] = v
			}
		}
		res = append(res, sp)
	}
	return res
}

func (r *aggRun) received(trace proxy.Trace) {
	tr := -98
	if len(trace) > 0 {
		tr = r.ids.Abs(trace[0].Trace)
	}
	spans := []ASpan{}
	mult := 0
	var fill *ASpan
	seen := map[proxy.Id]bool{}
	for _, sp := range trace {
		if sp.Trace != trace[0].Trace {
			mult = -1000000
		}
		if info := r.fills[tr]; info != nil && info.ids[sp.Id] {
			a := r.ids.absSpan(sp)
			a.Id = FILL
			if seen[sp.Id] {
				mult = -1000000
			}
			seen[sp.Id] = true
			if fill == nil {
				fill = &a
				spans = append(spans, a)
			} else if x, y := mustJson(*fill), mustJson(a); x != y {
				spans = append(spans, a) // not uniform: will not match
				fill = &a
			}
			mult++
			continue
		}
		spans = append(spans, r.ids.absSpan(sp))
	}
	r.log(M{"e": "emit", "tr": tr, "spans": spans, "mult": mult})
}

func mustJson(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

// drain takes everything that is offered right now.
func (r *aggRun) drain() {
	for !r.stalled {
		synctest.Wait()
		r.pump()
		select {
		case trace := <-r.out:
			r.received(trace)
		default:
			return
		}
	}
}

func (r *aggRun) wait(ms int) {
	target := r.now() + ms
	d := time.Duration(target)*time.Millisecond - time.Since(r.start)
	timer := time.NewTimer(d)
	for {
		var out chan proxy.Trace
		if !r.stalled {
			out = r.out
		}
		select {
		case trace := <-out:
			r.received(trace)
			synctest.Wait()
			r.pump()
		case <-timer.C:
			synctest.Wait()
			r.pump()
			r.drain()
			return
		}
	}
}

func (r *aggRun) metrics() {
	if !withMetrics {
		return
	}
	m := M{}
	for k, name := range aggMeters {
		m[k] = meterCount(name) - r.base[k]
	}
	m["inflightTraces"] = gaugeValue("traces.partial.count")
	m["inflightSpans"] = gaugeValue("traces.partial.span.count")
	r.log(M{"e": "metrics", "m": m})
}

// many sends one span for each of the traces Tr .. Tr+N-1.
func (r *aggRun) many(op aggOp) {
	if r.stalled {
		fault("many while stalled")
	}
	for tr := op.Tr; tr < op.Tr+op.N; tr++ {
		r.in <- r.ids.concSpan(tr, *op.Sp)
		synctest.Wait()
	}
	r.log(M{"e": "many", "from": op.Tr, "to": op.Tr + op.N - 1, "sp": op.Sp, "probe": op.Sp.Id >= PROBE, "bl": []int{}})
}

// PROBE and above are the ids of spans that are sent once, to find out whether
// a trace is blocked: one that never comes out was ignored.  This only tells
// the specification which of the possibilities to follow.
const PROBE = 1000

func (r *aggRun) hints() {
	type key struct{ tr, id int }
	came := map[key]bool{}
	for _, e := range r.ev {
		if e["e"] == "emit" {
			for _, sp := range e["spans"].([]ASpan) {
				came[key{e["tr"].(int), sp.Id}] = true
			}
		}
	}
	for _, e := range r.ev {
		sp, _ := e["sp"].(*ASpan)
		if sp == nil || sp.Id < PROBE {
			continue
		}
		if e["e"] == "add" {
			e["bl"] = map[bool]string{true: "n", false: "y"}[came[key{e["tr"].(int), sp.Id}]]
		} else {
			bl := []int{}
			for tr := e["from"].(int); tr <= e["to"].(int); tr++ {
				if !came[key{tr, sp.Id}] {
					bl = append(bl, tr)
				}
			}
			e["bl"] = bl
		}
	}
}

func runAgg(t *testing.T, sc aggScenario, seed int64) []M {
	var ev []M
	synctest.Test(t, func(t *testing.T) {
		rng := rand.New(rand.NewSource(seed))
		r := &aggRun{ids: newIds(rng), rng: rng, in: make(chan proxy.Span), out: make(chan proxy.Trace, sc.Room),
			start: time.Now(), fills: map[int]*fillInfo{}, base: map[string]int64{}}
		for k, name := range aggMeters {
			r.base[k] = meterCount(name)
		}
		done := make(chan bool)
		go func() {
			zipkinproxy.ErrorCorrectSpans(r.in, r.out)
			close(done)
		}()
		synctest.Wait()
		r.wait(13)
		for _, op := range sc.Ops {
			switch op.O {
			case "add":
				r.queue = append(r.queue, op)
				r.pump()
				r.drain()
			case "many":
				// the same span for many traces
				r.many(op)
			case "wait":
				r.wait(op.Ms)
				r.log(M{"e": "idle"})
			case "align":
				r.wait(((op.Ms-r.now())%100 + 100) % 100)
				r.log(M{"e": "idle"})
			case "stall":
				if !r.stalled {
					r.stalled = true
					r.log(M{"e": "stall"})
				}
			case "resume":
				if r.stalled {
					r.stalled = false
					r.log(M{"e": "resume"})
					r.drain()
				}
			case "metrics":
				r.metrics()
			}
		}
		if r.stalled {
			r.stalled = false
			r.log(M{"e": "resume"})
			r.drain()
		}
		// everything that was buffered comes out (or is dropped) after a while
		r.wait(9000)
		r.drain()
		r.log(M{"e": "idle"})
		r.wait(200)
		r.log(M{"e": "idle"})
		r.metrics()
		// what happens at the end of the input is not recorded
		close(r.in)
		for open := true; open; {
			select {
			case <-r.out:
			case <-done:
				open = false
			}
		}
		r.hints()
		ev = r.ev
	})
	return ev
}

func TestAgg(t *testing.T) {
	var scs []aggScenario
	readLines("VERIF_IN", func(raw []byte) {
		var sc aggScenario
		must(json.Unmarshal(raw, &sc))
		scs = append(scs, sc)
	})
	for _, family := range strings.Split(os.Getenv("VERIF_FAMILY"), ",") {
		if gen, ok := aggFamilies[family]; ok {
			scs = append(scs, gen(rand.New(rand.NewSource(seed()*7919+1)))...)
		} else if family != "" {
			fault("no such family: " + family)
		}
	}
	for i, sc := range scs {
		if mine(i) {
			begin(sc.Id)
			// what is written to the log must not make a difference
			if i%5 == 3 {
				logrus.SetLevel(logrus.DebugLevel)
			}
			ev := runAgg(t, sc, seed()*1000003+int64(i))
			logrus.SetLevel(logrus.PanicLevel)
			emitLine(M{"id": sc.Id, "ev": ev, "room": sc.Room})
		}
	}
}
