//go:build verif_forward

package verifh

import (
	"errors"
	"math/rand"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func TestForward(t *testing.T) {
	count := 150
	if thorough() {
		count = 2000
	}
	for i := 0; i < count; i++ {
		if mine(i) {
			id := "fwd-" + strconv.Itoa(i)
			begin(id)
			runForward(t, id, rand.New(rand.NewSource(seed()*1000003+int64(i))))
		}
	}
}

func runForward(t *testing.T, id string, rng *rand.Rand) {
	synctest.Test(t, func(t *testing.T) {
		var mu sync.Mutex
		var ev []M
		log := func(e M) {
			mu.Lock()
			ev = append(ev, e)
			mu.Unlock()
		}
		number := map[string]int{}
		kinds := map[int]int{}
		slowness := rand.New(rand.NewSource(rng.Int63()))
		convert := func(sp proxy.Span) (proxy.Span, error) {
			mu.Lock()
			n, ok := number[digest(sp)]
			if !ok {
				n = -1
			}
			kind := kinds[n]
			slow := n > 0 && slowness.Intn(10) == 0
			mu.Unlock()
			if slow {
				time.Sleep(time.Millisecond)
			}
			out, err := sp, error(nil)
			switch kind {
			case 0:
			case 1:
				out.Name = "changed" + strconv.Itoa(n)
				out.Tags = map[string]string{"new": strconv.Itoa(n)}
			case 2:
				err = errors.New("no")
			case 3:
				out, err = proxy.Span{}, errors.New("no")
			case 4:
				out.Id = 0
			case 5:
				out.Trace = 0
			case 6:
				out = proxy.Span{}
			case 7:
				out.Trace, out.Id, out.Parent = out.Trace+2, out.Id+2, 0
			case 8:
				out.Parent, out.Name, out.Service, out.Duration = 0, "", "", 0
			}
			log(M{"e": "conv", "n": n, "err": err != nil, "id0": out.Id == 0, "tr0": out.Trace == 0, "v": digest(out)})
			return out, err
		}
		targets := rng.Intn(4)
		if rng.Intn(2) == 0 {
			targets = 2
		}
		source := make(chan proxy.Trace, pick(rng, 0, 1, 64))
		var chans []chan<- proxy.Trace
		held := make([][]proxy.Trace, targets)
		var wg sync.WaitGroup
		for x := 0; x < targets; x++ {
			ch := make(chan proxy.Trace, pick(rng, 0, 0, 1, 3, 256))
			chans = append(chans, ch)
			speed := pick(rng, 0, 0, 1, 7)
			stalls := rng.Intn(4) == 0
			delays := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func(x int) {
				defer wg.Done()
				for {
					if speed > 0 && delays.Intn(3) == 0 {
						time.Sleep(time.Duration(1+delays.Intn(speed*10)) * time.Millisecond)
					}
					if stalls && delays.Intn(4) == 0 {
						// stuck for long: nothing may get lost because of that
						time.Sleep([]time.Duration{100 * time.Millisecond, time.Second + time.Millisecond, 3 * time.Second,
							11 * time.Second, time.Minute, 20 * time.Minute, 2 * time.Hour}[delays.Intn(7)])
					}
					timer := time.NewTimer(1000 * time.Hour)
					select {
					case trace := <-ch:
						timer.Stop()
						vals := []string{}
						for _, sp := range trace {
							vals = append(vals, digest(sp))
						}
						log(M{"e": "recv", "x": x + 1, "vals": vals})
						held[x] = append(held[x], trace)
					case <-timer.C:
						return // all is over
					}
				}
			}(x)
		}
		end := make(chan bool)
		go func() {
			zipkinproxy.VerifForward(source, chans, convert)
			close(end)
		}()
		n := 0
		all := rng.Intn(3)
		for i, traces := 0, 1+rng.Intn(8); i < traces; i++ {
			var trace proxy.Trace
			spans := []int{}
			for j := pick(rng, 0, 1, 1, 2, 3, 5, 20); j > 0; j-- {
				n++
				sp := randSpan(rng, n)
				mu.Lock()
				number[digest(sp)] = n
				switch all {
				case 0:
					kinds[n] = rng.Intn(9)
				case 1:
					kinds[n] = rng.Intn(2)
				default:
					kinds[n] = pick(rng, 0, 0, 0, 2, 4, 5)
				}
				mu.Unlock()
				trace = append(trace, sp)
				spans = append(spans, n)
			}
			mu.Lock()
			ev = append(ev, M{"e": "give", "spans": spans})
			mu.Unlock()
			timer := time.NewTimer(400 * time.Hour)
			select {
			case source <- trace:
				timer.Stop()
			case <-timer.C:
				// never taken: the log says so, as nothing is received
			}
			if rng.Intn(3) == 0 {
				time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
			}
		}
		wg.Wait()
		time.Sleep(24 * time.Hour)
		synctest.Wait()
		res := [][][]string{}
		for x := range held {
			hx := [][]string{}
			for _, trace := range held[x] {
				vals := []string{}
				for _, sp := range trace {
					vals = append(vals, digest(sp))
				}
				hx = append(hx, vals)
			}
			res = append(res, hx)
		}
		log(M{"e": "final", "held": res})
		emitLine(M{"id": id, "targets": targets, "ev": ev})
		close(source)
		<-end
	})
}
