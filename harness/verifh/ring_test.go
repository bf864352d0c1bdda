package verifh

import (
	"math/rand"
	"reflect"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// ringSpan makes span number n: everything about it follows from n.
func ringSpan(base uint64, n int) proxy.Span {
	sp := proxy.Span{Id: proxy.Id(base + uint64(n)*0x9e3779b97f4a7c15), Parent: proxy.Id(n), Trace: proxy.Id(n / 3), Name: "n" + strconv.Itoa(n),
		Service: "s", Timestamp: proxy.Timestamp(n) * 1000, Duration: time.Duration(n), Timings: proxy.Timings{CS: 1, CR: proxy.Timestamp(n)}}
	if n%3 != 0 {
		sp.Tags = map[string]string{"n": strconv.Itoa(n)}
	}
	return sp
}

func ringRuns(base uint64, spans []proxy.Span) [][2]int {
	runs := [][2]int{}
	for _, sp := range spans {
		n := int(sp.Parent)
		if n < 1 || n > 100000000 || !reflect.DeepEqual(sp, ringSpan(base, n)) {
			n = -5
		}
		if l := len(runs); l > 0 && runs[l-1][1]+1 == n {
			runs[l-1][1]++
		} else {
			runs = append(runs, [2]int{n, n})
		}
	}
	return runs
}

// traceSizes chooses sizes of traces around the capacity.
func traceSize(rng *rand.Rand, cap int) int {
	switch rng.Intn(8) {
	case 0:
		return 0
	case 1:
		return cap
	case 2:
		return cap + 1
	case 3:
		return cap - 1
	case 4:
		return rng.Intn(3*cap + 1)
	case 5:
		return 1
	}
	return rng.Intn(cap + 1)
}

func TestRing(t *testing.T) {
	count := 120
	if thorough() {
		count = 1500
	}
	for i := 0; i < count; i++ {
		if !mine(i) {
			continue
		}
		id := "ring-" + strconv.Itoa(i)
		begin(id)
		rng := rand.New(rand.NewSource(seed()*1000003 + int64(i)))
		caps := []int{1, 2, 3, 4, 5, 7, 8, 16, 100, 2048}
		c := caps[i%len(caps)]
		base := rng.Uint64() &^ 1
		synctest.Test(t, func(t *testing.T) {
			buffer := zipkinproxy.NewSpansBuffer(uint(c))
			in := make(chan proxy.Trace)
			end := make(chan bool)
			go func() {
				buffer.ReadFrom(in)
				close(end)
			}()
			ends := []int{0}
			var snaps []M
			var keep [][]proxy.Span
			var keepAt []int
			n := 0
			// contents of earlier snapshots stay as they are
			snap := func() {
				spans := buffer.ToSlice()
				keep, keepAt = append(keep, spans), append(keepAt, len(ends)-1)
				snaps = append(snaps, M{"runs": ringRuns(base, spans), "lo": len(ends) - 1, "hi": len(ends) - 1})
			}
			snap()
			steps := 12 + rng.Intn(30)
			if c > 1000 {
				steps = 12
			}
			for j := 0; j < steps; j++ {
				var trace proxy.Trace
				for k := traceSize(rng, c); k > 0; k-- {
					n++
					trace = append(trace, ringSpan(base, n))
				}
				in <- trace
				synctest.Wait()
				ends = append(ends, n)
				// the caller may do with its trace what it wants
				if rng.Intn(3) > 0 {
					snap()
				}
			}
			close(in)
			<-end
			snap()
			emitLine(M{"id": id, "cap": c, "ends": ends, "snaps": snaps})
			again := []M{}
			for j := range keep {
				again = append(again, M{"runs": ringRuns(base, keep[j]), "lo": keepAt[j], "hi": keepAt[j]})
			}
			emitLine(M{"id": id + "-kept", "cap": c, "ends": ends, "snaps": again})
		})
	}
}

// TestRingConc reads while traces are written.
func TestRingConc(t *testing.T) {
	count := 12
	if thorough() {
		count = 100
	}
	for i := 0; i < count; i++ {
		if !mine(i) {
			continue
		}
		id := "conc-" + strconv.Itoa(i)
		begin(id)
		rng := rand.New(rand.NewSource(seed()*1000003 + int64(i)))
		c := []int{3, 8, 64, 300}[i%4]
		base := rng.Uint64() &^ 1
		buffer := zipkinproxy.NewSpansBuffer(uint(c))
		in := make(chan proxy.Trace)
		end := make(chan bool)
		go func() {
			buffer.ReadFrom(in)
			close(end)
		}()
		var started, written int64 // numbers of traces
		var stop int32
		const readers = 4
		snaps := make([][]M, readers)
		var wg sync.WaitGroup
		for r := 0; r < readers; r++ {
			wg.Add(1)
			go func(r int) {
				defer wg.Done()
				for last := false; !last && len(snaps[r]) < 3000; {
					last = atomic.LoadInt32(&stop) == 1
					lo := atomic.LoadInt64(&written)
					spans := buffer.ToSlice()
					hi := atomic.LoadInt64(&started)
					runs := ringRuns(base, spans)
					if k := len(snaps[r]); k > 0 && reflect.DeepEqual(snaps[r][k-1]["runs"], runs) && snaps[r][k-1]["lo"].(int64) == lo && !last {
						snaps[r][k-1]["hi"] = hi // the same once more
						continue
					}
					snaps[r] = append(snaps[r], M{"runs": runs, "lo": lo, "hi": hi})
				}
			}(r)
		}
		ends := []int{0}
		n := 0
		for j := 0; j < 400; j++ {
			var trace proxy.Trace
			for k := traceSize(rng, c); k > 0; k-- {
				n++
				trace = append(trace, ringSpan(base, n))
			}
			ends = append(ends, n)
			atomic.AddInt64(&started, 1)
			in <- trace
			// all before this one are written now
			atomic.StoreInt64(&written, int64(j))
			if j%16 == 0 {
				time.Sleep(50 * time.Microsecond)
			}
		}
		close(in)
		<-end
		atomic.StoreInt64(&written, 400)
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
		for r := 0; r < readers; r++ {
			emitLine(M{"id": id + "-" + strconv.Itoa(r), "cap": c, "ends": ends, "snaps": snaps[r]})
		}
	}
}
