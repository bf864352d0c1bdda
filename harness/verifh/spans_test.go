package verifh

import (
	"encoding/json"
	"hash/fnv"
	"math/rand"
	"strconv"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// digest names the whole content of a span.
func digest(sp proxy.Span) string {
	if len(sp.Tags) == 0 {
		sp.Tags = nil
	}
	b, err := json.Marshal([]interface{}{int64(sp.Id), int64(sp.Parent), int64(sp.Trace), sp.Name, sp.Service, int64(sp.Timestamp),
		int64(sp.Duration), sp.Tags, int64(sp.Timings.CS), int64(sp.Timings.CR), int64(sp.Timings.SS), int64(sp.Timings.SR)})
	must(err)
	h := fnv.New64a()
	h.Write(b)
	return strconv.FormatUint(h.Sum64(), 36)
}

func randSpan(rng *rand.Rand, n int) proxy.Span {
	sp := proxy.Span{Id: proxy.Id(rng.Uint64() | 1), Parent: proxy.Id(rng.Uint64()), Trace: proxy.Id(rng.Uint64() | 1),
		Name: "name" + strconv.Itoa(n), Service: "svc" + strconv.Itoa(rng.Intn(3)),
		Timestamp: proxy.Timestamp(rng.Int63()), Duration: time.Duration(rng.Int63n(1e9)),
		Timings: proxy.Timings{CS: proxy.Timestamp(rng.Intn(5)), CR: proxy.Timestamp(rng.Intn(5)), SS: proxy.Timestamp(rng.Intn(5)), SR: proxy.Timestamp(rng.Intn(5))}}
	for j := rng.Intn(3); j > 0; j-- {
		sp.AddTag("k"+strconv.Itoa(j), strconv.Itoa(n))
	}
	return sp
}

// oddSpan may miss anything but its name.
func oddSpan(rng *rand.Rand, n int) proxy.Span {
	sp := randSpan(rng, n)
	if rng.Intn(4) == 0 {
		switch rng.Intn(7) {
		case 0:
			sp.Trace = 0
		case 1:
			sp.Id = 0
		case 2:
			sp.Parent = 0
		case 3:
			sp.Parent = sp.Id
		case 4:
			sp.Service, sp.Tags = "", nil
		case 5:
			sp.Timestamp, sp.Duration, sp.Timings = 0, 0, proxy.Timings{}
		case 6:
			sp.Timestamp, sp.Duration = -sp.Timestamp, -sp.Duration
		}
	}
	return sp
}
