package verifh

import (
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strconv"
	"sync"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/cache"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Histories of requests in one process, one after the other or at the same time.

type body struct {
	format string
	w      []byte
	broken bool
	outs   outs
	mu     sync.Mutex
}

type returned struct {
	b     *body
	spans []proxy.Span
	err   error
	how   string
}

func (b *body) parse(rng *rand.Rand, yield bool) returned {
	end := io.EOF
	if b.broken {
		end = errBroken
	}
	r := randChunks(rng, b.w, end)
	if yield {
		next := r.next
		r.next = func(left int) int {
			runtime.Gosched()
			if next == nil {
				return left
			}
			return next(left)
		}
	}
	spans, err := parse(b.format, r)
	b.record(spans, err, "returned")
	return returned{b: b, spans: spans, err: err}
}

func (b *body) record(spans []proxy.Span, err error, how string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.outs.add(spans, err, how)
}

// bodies of all formats: complete, broken, empty, large
func randBodies(rng *rand.Rand, n int) []*body {
	var res []*body
	for i := 0; i < n; i++ {
		b := &body{format: []string{"v1", "v1", "v1", "v2", "jaeger", "binary"}[rng.Intn(6)]}
		if b.format == "binary" {
			ww := &wireWriter{rng: rng}
			sp := randWireSpan(rng)
			if rng.Intn(3) == 0 {
				sp.Name = "n" + strconv.Itoa(rng.Intn(3))
				sp.Service = asciiText(rng, pick(rng, 1, 30, 8192))
			}
			ww.span(sp)
			b.w = ww.b
			if rng.Intn(3) == 0 {
				b.w = b.w[:rng.Intn(len(b.w))]
			}
		} else {
			g := &docGen{rng: rng, sparse: rng.Intn(3) == 0, twice: rng.Intn(4) == 0}
			if rng.Intn(2) == 0 { // equal strings in many bodies
				g.mark = "m" + strconv.Itoa(rng.Intn(3))
			}
			count := pick(rng, 0, 1, 1, 2, 3, 6)
			if rng.Intn(25) == 0 {
				count = pick(rng, 63, 64, 65, 66, 130)
				g.mark = "m"
			}
			st := randStyle(rng)
			st.anyCase = b.format != "jaeger"
			b.w = st.render(g.doc(b.format, count))
			switch rng.Intn(6) {
			case 0:
				b.w = mutate(rng, b.w)
			case 1:
				b.w = b.w[:rng.Intn(len(b.w))]
				b.broken = rng.Intn(2) == 0
			case 2:
				b.broken = rng.Intn(4) == 0
			}
		}
		res = append(res, b)
	}
	return res
}

func TestIsolation(t *testing.T) {
	runs, conc := 30, 10
	if raceEnabled() {
		runs, conc = 0, 8
	}
	if thorough() {
		runs, conc = runs*20, conc*10
	}
	emit := func(id string, bodies []*body) {
		var cases []M
		for _, b := range bodies {
			cases = append(cases, M{"fmt": b.format, "w": ints(b.w), "broken": b.broken, "outs": b.outs.list})
		}
		emitLine(M{"id": id, "cases": cases})
	}
	for i := 0; i < runs+conc; i++ {
		if !mine(i) {
			continue
		}
		rng := rand.New(rand.NewSource(seed()*1000003 + int64(i)))
		id := "history-" + strconv.Itoa(i)
		if i >= runs {
			id = "together-" + strconv.Itoa(i)
		}
		begin(id)
		bodies := randBodies(rng, 16)
		var all []returned
		if i < runs {
			runtime.GOMAXPROCS(1) // one pool
			for x := 0; x < 60; x++ {
				all = append(all, bodies[rng.Intn(len(bodies))].parse(rng, false))
				switch rng.Intn(40) {
				case 0: // forget the pools, and what nobody points to
					runtime.GC()
				case 1: // forget the cached strings
					for k := 0; k < 7; k++ {
						cache.StringForByteSliceCopy([]byte(asciiText(rng, 1<<20)))
					}
				case 2: // a large body of its own
					b := &body{format: "v1", w: plainStyle().render((&docGen{rng: rng}).doc("v1", 200))}
					b.parse(rng, false)
				}
			}
		} else {
			runtime.GOMAXPROCS(8)
			var wg sync.WaitGroup
			var mu sync.Mutex
			for k := 0; k < 8; k++ {
				wg.Add(1)
				rng := rand.New(rand.NewSource(rng.Int63()))
				go func() {
					defer wg.Done()
					for x := 0; x < 40; x++ {
						r := bodies[rng.Intn(len(bodies))].parse(rng, true)
						mu.Lock()
						all = append(all, r)
						mu.Unlock()
						if rng.Intn(50) == 0 {
							cache.StringForByteSliceCopy([]byte(asciiText(rng, 3<<20)))
						}
					}
				}()
			}
			wg.Wait()
		}
		runtime.GC()
		for n, r := range all {
			r.b.record(r.spans, r.err, fmt.Sprintf("result %d at the end", n))
		}
		var used []*body
		for _, b := range bodies {
			if len(b.outs.list) > 0 {
				used = append(used, b)
			}
		}
		emit(id, used)
	}
}
