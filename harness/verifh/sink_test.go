package verifh

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"net/http"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/datadog"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// sinkOp: put a trace of the given runs (trace, count), after ms.
type sinkOp struct {
	Ms   int
	Runs [][2]int
}

type sinkCall struct {
	Ms  int // how long the agent takes; 0: no time
	Err bool
}

type sinkScenario struct {
	Id    string
	Ops   []sinkOp
	Calls []sinkCall // the last one is used for all later calls
	Tail  int
}

// sinkAgent is the transport: it records what it is given.
type sinkAgent struct {
	mu    sync.Mutex
	ev    []M
	start time.Time
	calls []sinkCall
	n     int
	num   map[uint64]int // span id -> number
	trs   map[uint64]int // trace id -> number
	off   bool
	done  func(lists [][]*tracer.Span)
}

func (a *sinkAgent) now() int { return int(time.Since(a.start) / time.Millisecond) }

func (a *sinkAgent) log(e M) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if !a.off {
		e["t"] = a.now()
		a.ev = append(a.ev, e)
	}
}

func (a *sinkAgent) lists(lists [][]*tracer.Span) []M {
	a.mu.Lock()
	defer a.mu.Unlock()
	res := []M{}
	for _, list := range lists {
		tr := -1
		runs := [][2]int{}
		for i, sp := range list {
			if sp == nil {
				tr = -2
				continue
			}
			no, ok := a.trs[sp.TraceID]
			if !ok {
				no = -3
			}
			if i == 0 {
				tr = no
			} else if tr != no {
				tr = -2 // spans of different traces in one list
			}
			n, ok := a.num[sp.SpanID]
			if !ok {
				n = -10
			}
			if l := len(runs); l > 0 && runs[l-1][0]+runs[l-1][1] == n {
				runs[l-1][1]++
			} else {
				runs = append(runs, [2]int{n, 1})
			}
		}
		res = append(res, M{"tr": tr, "runs": runs})
	}
	sort.Slice(res, func(i, j int) bool { return res[i]["tr"].(int) < res[j]["tr"].(int) })
	return res
}

func (a *sinkAgent) SendTraces(lists [][]*tracer.Span) (*http.Response, error) {
	a.mu.Lock()
	call := a.calls[len(a.calls)-1]
	if a.n < len(a.calls) {
		call = a.calls[a.n]
	}
	a.n++
	a.mu.Unlock()
	a.log(M{"e": "submit", "lists": a.lists(lists)})
	a.mu.Lock()
	off := a.off
	a.mu.Unlock()
	if call.Ms > 0 && !off {
		// calls end at odd times, spans come and ticks are at even ones
		end := a.now() + call.Ms
		end += 1 - end%2
		time.Sleep(time.Duration(end)*time.Millisecond - time.Since(a.start))
	}
	a.log(M{"e": "done", "ok": !call.Err, "lists": a.lists(lists)})
	if a.done != nil {
		a.done(lists)
	}
	if call.Err {
		return nil, errors.New("the agent failed")
	}
	return &http.Response{StatusCode: 200}, nil
}

func (a *sinkAgent) SendServices(map[string]tracer.Service) (*http.Response, error) { return nil, nil }
func (a *sinkAgent) SetHeader(key, value string)                                    {}

// give offers a trace to the sink; false if it is not taken for a long time.
func (a *sinkAgent) give(in chan<- proxy.Trace, trace proxy.Trace) bool {
	timer := time.NewTimer(time.Minute)
	defer timer.Stop()
	select {
	case in <- trace:
		return true
	case <-timer.C:
		return false
	}
}

func runSink(t *testing.T, sc sinkScenario, seed int64) []M {
	var ev []M
	synctest.Test(t, func(t *testing.T) {
		rng := rand.New(rand.NewSource(seed))
		a := &sinkAgent{start: time.Now(), calls: sc.Calls, num: map[uint64]int{}, trs: map[uint64]int{}}
		in := make(chan proxy.Trace)
		end := make(chan bool)
		go func() {
			datadog.Sink(a, in)
			close(end)
		}()
		synctest.Wait()
		conc := map[int]proxy.Id{}
		serial := 0
		base := proxy.Id(rng.Uint64() >> 1)
		for _, op := range sc.Ops {
			if op.Ms > 0 {
				time.Sleep(time.Duration(op.Ms) * time.Millisecond)
			}
			var trace proxy.Trace
			runs := [][3]int{}
			n := 0
			a.mu.Lock()
			for _, r := range op.Runs {
				tr, ok := conc[r[0]]
				for !ok {
					tr = proxy.Id(rng.Uint64())
					if rng.Intn(4) == 0 {
						tr = proxy.Id(len(conc) + 1)
					}
					if _, used := a.trs[uint64(tr)]; !used && tr != 0 {
						conc[r[0]] = tr
						a.trs[uint64(tr)] = r[0]
						break
					}
				}
				runs = append(runs, [3]int{r[0], serial, r[1]})
				for i := 0; i < r[1]; i++ {
					id := base + proxy.Id(serial)*7919
					a.num[uint64(id)] = serial
					serial++
					trace = append(trace, proxy.Span{Id: id, Trace: tr, Name: "n", Service: "s", Timestamp: 1, Duration: 5000})
				}
				n += r[1]
			}
			a.mu.Unlock()
			t0 := a.now()
			a.log(M{"e": "put", "runs": runs, "n": n})
			ok := a.give(in, trace)
			synctest.Wait()
			a.log(M{"e": "taken", "t0": t0})
			if !ok {
				break
			}
		}
		time.Sleep(time.Duration(sc.Tail) * time.Millisecond)
		synctest.Wait()
		a.log(M{"e": "rest"})
		a.mu.Lock()
		a.off = true
		ev = a.ev
		a.mu.Unlock()
		close(in)
		<-end
		time.Sleep(5 * time.Minute)
	})
	return ev
}

func sinkSizes(rng *rand.Rand, n int) [][2]int {
	var res [][2]int
	for n > 0 {
		k := 1 + rng.Intn(n)
		if rng.Intn(2) == 0 {
			k = n
		}
		res = append(res, [2]int{1 + rng.Intn(6), k})
		n -= k
	}
	return res
}

var sinkFamilies = map[string]func(rng *rand.Rand) []sinkScenario{
	// the agent keeps up
	"flow": func(rng *rand.Rand) []sinkScenario {
		count := 40
		if thorough() {
			count = 200
		}
		var res []sinkScenario
		for i := 0; i < count; i++ {
			sc := sinkScenario{Id: "flow-" + strconv.Itoa(i), Tail: 4200 + 2*rng.Intn(2000)}
			sc.Calls = []sinkCall{{Ms: pick(rng, 0, 0, 3, 51, 150)}}
			for j, n := 0, 5+rng.Intn(25); j < n; j++ {
				op := sinkOp{Ms: 2 * pick(rng, 0, 0, 1, 50, 99, 100, 101, 350, 899, 900, 901, 999, 1000, 1001, rng.Intn(1000), 2000, 5000)}
				op.Runs = sinkSizes(rng, pick(rng, 0, 1, 1, 2, 3, 10, 120, 499, 500, 501, 998, 999, 1000, 1001, 1500, 1+rng.Intn(400)))
				if rng.Intn(6) == 0 {
					// at a tick, or just around it
					op.Ms += 2000 - sinkTotal(sc.Ops, op.Ms)%2000 + pick(rng, 0, 0, -2, 2)
				}
				sc.Ops = append(sc.Ops, op)
			}
			res = append(res, sc)
		}
		// long traces, and many short ones
		for i, n := range []int{2049, 4096, 5001, 8192, 12345} {
			sc := sinkScenario{Id: "long-" + strconv.Itoa(i), Tail: 6000, Calls: []sinkCall{{Ms: pick(rng, 0, 51)}}}
			sc.Ops = []sinkOp{{2 * rng.Intn(1500), [][2]int{{1, n}}}, {100, [][2]int{{2, 3}}}, {0, sinkSizes(rng, n)}, {2, [][2]int{{3, 900}}}, {2, [][2]int{{3, n}, {2, 1}}}, {2300, [][2]int{{1, 2}}}}
			res = append(res, sc)
		}
		for i, n := range []int{60, 250, 500, 999, 1000, 3000} {
			sc := sinkScenario{Id: "wide-" + strconv.Itoa(i), Tail: 6000, Calls: []sinkCall{{Ms: pick(rng, 0, 51)}}}
			for j := 0; j < n; j++ { // a trace each
				sc.Ops = append(sc.Ops, sinkOp{2 * (rng.Intn(400) / 399), [][2]int{{1 + j, 1 + rng.Intn(20)/19}}})
			}
			res = append(res, sc)
		}
		// the age of the last batch at a tick: exactly 1.8 s, and around it
		for i, d := range []int{150, 190, 196, 198, 200, 202, 204, 210, 250, 1000} {
			for j, cause := range []int{1000, 1} {
				sc := sinkScenario{Id: "edge-" + strconv.Itoa(i) + "-" + strconv.Itoa(j), Tail: 6000, Calls: []sinkCall{{}}}
				// batch at 4000+d by size, or at 4000 by tick
				sc.Ops = []sinkOp{{4000 + d, [][2]int{{1, cause}}}, {100, [][2]int{{2, 3}}}, {0, [][2]int{{1, 2}}}}
				res = append(res, sc)
			}
		}
		return res
	},
	// the agent is slow, hangs or fails
	"slow": func(rng *rand.Rand) []sinkScenario {
		count := 40
		if thorough() {
			count = 200
		}
		var res []sinkScenario
		for i := 0; i < count; i++ {
			sc := sinkScenario{Id: "slow-" + strconv.Itoa(i), Tail: 4000 + 2*rng.Intn(20000)}
			switch i % 4 {
			case 0: // hangs once, for long
				sc.Calls = []sinkCall{{Ms: 20000 + rng.Intn(60000), Err: rng.Intn(2) == 0}, {Ms: pick(rng, 0, 10)}}
			case 1: // always slow
				sc.Calls = []sinkCall{{Ms: 3000 + rng.Intn(6000)}}
			case 2: // always fails
				sc.Calls = []sinkCall{{Ms: pick(rng, 0, 100, 2500), Err: true}}
			default:
				for j := 0; j < 40; j++ {
					sc.Calls = append(sc.Calls, sinkCall{Ms: pick(rng, 0, 5, 500, 3000, 9000, 30000), Err: rng.Intn(3) == 0})
				}
			}
			big := rng.Intn(2) == 0
			for j, n := 0, 12+rng.Intn(30); j < n; j++ {
				op := sinkOp{Ms: 2 * pick(rng, 0, 1, 40, 300, 1000, 1100, rng.Intn(1500))}
				if big {
					op.Runs = sinkSizes(rng, pick(rng, 1000, 1000, 1001, 999, 500, 2))
				} else {
					op.Runs = sinkSizes(rng, pick(rng, 1, 2, 5, 40, 1000))
				}
				sc.Ops = append(sc.Ops, op)
			}
			res = append(res, sc)
		}
		// exactly 8, 9, 10 and 11 batches while the agent hangs, then normal traffic
		for n := 8; n <= 12; n++ {
			sc := sinkScenario{Id: "full-" + strconv.Itoa(n), Tail: 9000, Calls: []sinkCall{{Ms: 50001}, {}}}
			for j := 0; j < n; j++ {
				sc.Ops = append(sc.Ops, sinkOp{pick(rng, 0, 2, 20), [][2]int{{1 + j%3, 1000 + j}}})
			}
			sc.Ops = append(sc.Ops, sinkOp{2, [][2]int{{9, 5}}}, sinkOp{60000, [][2]int{{9, 7}, {1, 1}}}, sinkOp{2100, [][2]int{{9, 7}, {1, 1}}})
			res = append(res, sc)
		}
		return res
	},
}

func sinkTotal(ops []sinkOp, more int) int {
	n := more
	for _, op := range ops {
		n += op.Ms
	}
	return n
}

func TestSink(t *testing.T) {
	for _, family := range strings.Split(os.Getenv("VERIF_FAMILY"), ",") {
		gen, ok := sinkFamilies[family]
		if !ok {
			fault("no such family: " + family)
		}
		for i, sc := range gen(rand.New(rand.NewSource(seed()*7919 + 3))) {
			if mine(i) {
				begin(sc.Id)
				ev := runSink(t, sc, seed()*1000003+int64(i))
				emitLine(M{"id": sc.Id, "ev": ev})
			}
		}
	}
}

// ---------------------------------------------------------------------------
// conversion of single spans

func hexId(id uint64) string { return fmt.Sprintf("%016x", id) }

// secNs splits nanoseconds into whole seconds (rounded down) and the rest.
func secNs(ns int64) [2]int64 {
	s := ns / 1000000000
	r := ns % 1000000000
	if r < 0 {
		s, r = s-1, r+1000000000
	}
	if s > math.MaxInt32 || s < math.MinInt32 {
		// far out: the number itself no longer matters, but equality does
		return [2]int64{s >> 3, r}
	}
	return [2]int64{s, r}
}

var errorValues = []string{"false", "0", "", "true", "1", "False", "FALSE", "false ", " 0", "00", "0.0", "no", "timeout", "false0", "f", "null"}

func sinkSpan(rng *rand.Rand, i int) proxy.Span {
	id := func() proxy.Id {
		if rng.Intn(2) == 0 {
			return extremeIds[rng.Intn(len(extremeIds))]
		}
		return proxy.Id(rng.Uint64())
	}
	str := func() string {
		return []string{"", "a", "name", "(resource empty)", "GET /x y", "\u00e4\u20ac", " ", "0", "false", "error"}[rng.Intn(10)]
	}
	sp := proxy.Span{Id: id(), Parent: id(), Trace: id(), Name: str(), Service: str()}
	if rng.Intn(5) == 0 {
		sp.Parent = 0
	}
	sp.Timestamp = []proxy.Timestamp{0, 1, -1, 999, 1000, 1001, 1560276970123456789, math.MaxInt64, math.MinInt64, proxy.Timestamp(rng.Int63())}[rng.Intn(10)]
	sp.Duration = []time.Duration{0, 1, 999, 1000, 1001, 1500, -1, -5000000000, time.Millisecond, time.Hour, 2000000000, 4294967296, 4294968000, math.MaxInt64 / 16,
		time.Duration(rng.Intn(3000)), time.Duration(rng.Int63n(1e13))}[rng.Intn(16)]
	sp.Timings = proxy.Timings{CS: proxy.Timestamp(rng.Intn(3)), CR: proxy.Timestamp(rng.Intn(3)), SR: proxy.Timestamp(rng.Intn(3)), SS: proxy.Timestamp(rng.Intn(3))}
	if rng.Intn(4) > 0 {
		for j, n := 0, rng.Intn(4); j < n; j++ {
			sp.AddTag([]string{"error", "Error", "k", "error.msg", "", "http.path"}[rng.Intn(6)], str())
		}
		if rng.Intn(2) == 0 {
			sp.AddTag("error", errorValues[rng.Intn(len(errorValues))])
		}
	}
	return sp
}

// TestSinkConv sends spans of all kinds through the sink, while the agent is
// slow, and records what each looks like when the agent is done with it.
func TestSinkConv(t *testing.T) {
	n := 12000
	if thorough() {
		n = 60000
	}
	begin("conv")
	var lines []M
	synctest.Test(t, func(t *testing.T) {
		rng := rand.New(rand.NewSource(seed()*7919 + 5))
		a := &sinkAgent{start: time.Now(), calls: []sinkCall{{Ms: 700}}, num: map[uint64]int{}, trs: map[uint64]int{}, off: false}
		type key struct{ tr, n uint64 }
		ins := map[uint64][]M{} // per trace, in order
		outs := map[uint64][]M{}
		a.done = func(lists [][]*tracer.Span) {
			a.mu.Lock()
			defer a.mu.Unlock()
			for _, list := range lists {
				for _, sp := range list {
					outs[sp.TraceID] = append(outs[sp.TraceID], M{
						"id": hexId(sp.SpanID), "trace": hexId(sp.TraceID), "parent": hexId(sp.ParentID),
						"name": sp.Name, "service": sp.Service, "resource": sp.Resource,
						"start": strconv.FormatInt(sp.Start, 10), "dur": secNs(sp.Duration),
						"tags": absTags(sp.Meta), "error": int(sp.Error)})
				}
			}
		}
		in := make(chan proxy.Trace)
		end := make(chan bool)
		go func() {
			datadog.Sink(a, in)
			close(end)
		}()
		for i := 0; i < n; {
			var trace proxy.Trace
			for j, k := 0, 1+rng.Intn(900); j < k && i < n; j++ {
				sp := sinkSpan(rng, i)
				trace = append(trace, sp)
				ins[uint64(sp.Trace)] = append(ins[uint64(sp.Trace)], M{
					"id": hexId(uint64(sp.Id)), "trace": hexId(uint64(sp.Trace)), "parent": hexId(uint64(sp.Parent)),
					"name": sp.Name, "service": sp.Service,
					"start": strconv.FormatInt(int64(sp.Timestamp), 10), "dur": secNs(int64(sp.Duration)),
					"tags": absTags(sp.Tags)})
				i++
			}
			if !a.give(in, trace) {
				break
			}
			time.Sleep(300 * time.Millisecond)
		}
		time.Sleep(30 * time.Second)
		close(in)
		<-end
		time.Sleep(5 * time.Minute)
		var trs []uint64
		for tr := range ins {
			trs = append(trs, tr)
		}
		for tr := range outs {
			if ins[tr] == nil {
				trs = append(trs, tr)
			}
		}
		sort.Slice(trs, func(i, j int) bool { return trs[i] < trs[j] })
		cur := M{"id": "conv-0", "pairs": []M{}}
		for _, tr := range trs {
			for i := 0; i < len(ins[tr]) || i < len(outs[tr]); i++ {
				p := M{"in": M{}, "out": M{}, "both": i < len(ins[tr]) && i < len(outs[tr])}
				if i < len(ins[tr]) {
					p["in"] = ins[tr][i]
				}
				if i < len(outs[tr]) {
					p["out"] = outs[tr][i]
				}
				cur["pairs"] = append(cur["pairs"].([]M), p)
				if len(cur["pairs"].([]M)) == 250 {
					lines = append(lines, cur)
					cur = M{"id": "conv-" + strconv.Itoa(len(lines)), "pairs": []M{}}
				}
			}
		}
		lines = append(lines, cur)
	})
	for _, l := range lines {
		emitLine(l)
	}
}
