package verifh

import (
	"encoding/hex"
	"hash/fnv"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/cache"
	"github.com/rcrowley/go-metrics"
)

func TestLru(t *testing.T) {
	count := 200
	if thorough() {
		count = 3000
	}
	for i := 0; i < count; i++ {
		if !mine(i) {
			continue
		}
		id := "lru-" + strconv.Itoa(i)
		begin(id)
		rng := rand.New(rand.NewSource(seed()*1000003 + int64(i)))
		// what an entry counts beside its string
		probe := cache.NewLRUCache(1 << 30)
		probe.Set("x")
		over := probe.Size() - 1
		keys := 2 + rng.Intn(9)
		steps := 60
		if i%20 == 7 { // many
			keys = pick(rng, 50, 200)
			steps = 4 * keys
		}
		strs := make([]string, keys)
		lens := make([]int, keys)
		total := 0
		for k := range strs {
			n := pick(rng, 1, 1, 2, 5, 60, 200, 1000)
			if i%20 == 3 && rng.Intn(3) == 0 { // large
				n = pick(rng, 4095, 8192, 65535, 65536, 1<<20, 1<<24)
			}
			if rng.Intn(15) == 0 && k == 0 {
				n = 0 // the empty string
			}
			s := strings.Repeat("s", n)
			if n > 0 {
				s = strconv.Itoa(k) + strings.Repeat("s", n)
			}
			strs[k], lens[k] = s, len(s)
			total += len(s) + over
		}
		max := 1 + rng.Intn(total+50)
		if rng.Intn(3) == 0 {
			max = 2*over + rng.Intn(3*over)
		}
		l := cache.NewLRUCache(max)
		ops := []M{}
		for j := 0; j < steps; j++ {
			k := rng.Intn(keys)
			// another string with the same content
			arg := string(append([]byte(nil), strs[k]...))
			if rng.Intn(3) == 0 {
				if strs[k] == "" {
					// the empty string as a result says nothing
					continue
				}
				got := l.Get(arg)
				e := M{"o": "get", "i": k + 1, "hit": got != "", "same": got == "" || got == strs[k], "count": l.Count(), "size": l.Size()}
				ops = append(ops, e)
			} else {
				l.Set(arg)
				ops = append(ops, M{"o": "set", "i": k + 1, "count": l.Count(), "size": l.Size()})
			}
		}
		for _, k := range rng.Perm(keys) {
			if strs[k] == "" {
				continue
			}
			got := l.Get(strs[k])
			ops = append(ops, M{"o": "get", "i": k + 1, "hit": got != "", "same": got == "" || got == strs[k], "count": l.Count(), "size": l.Size()})
		}
		emitLine(M{"id": id, "over": over, "max": max, "len": lens, "ops": ops})
	}
}

// text names a string by its bytes; long ones by length and hash.
func text(s string) string {
	if len(s) <= 40 {
		return hex.EncodeToString([]byte(s))
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	return strconv.Itoa(len(s)) + "#" + strconv.FormatUint(h.Sum64(), 16)
}

type cacheLook struct {
	want, first string
	got         string
}

func cacheLookups(rng *rand.Rand, n, pool, maxLen int) []cacheLook {
	var looks []cacheLook
	buf := make([]byte, maxLen+10)
	for j := 0; j < n; j++ {
		k := rng.Intn(pool)
		r := rand.New(rand.NewSource(int64(k)))
		size := r.Intn(12)
		if r.Intn(6) == 0 {
			size = r.Intn(maxLen)
		}
		src := make([]byte, size)
		for x := range src {
			src[x] = "ab\x00\xff"[r.Intn(4)]
		}
		want := text(string(src))
		var got string
		switch rng.Intn(3) {
		case 0:
			// the buffer is the caller's, who goes on using it
			b := buf[:copy(buf, src)]
			got = cache.StringForByteSliceCopy(b)
			looks = append(looks, cacheLook{want, text(got), got})
			for x := range buf {
				buf[x] = byte(rng.Intn(256))
			}
			continue
		case 1:
			got = cache.StringForByteSliceNoCopy(src)
		case 2:
			got = cache.String(string(src))
		}
		looks = append(looks, cacheLook{want, text(got), got})
	}
	if got := cache.StringForByteSliceCopy(nil); true {
		looks = append(looks, cacheLook{text(""), text(got), got})
	}
	return looks
}

func emitLooks(id string, looks []cacheLook) {
	const batch = 2000
	for lo := 0; lo < len(looks); lo += batch {
		res := [][3]string{}
		for j := lo; j < len(looks) && j < lo+batch; j++ {
			res = append(res, [3]string{looks[j].want, looks[j].first, text(looks[j].got)})
		}
		emitLine(M{"id": id + "-" + strconv.Itoa(lo), "looks": res})
	}
}

func TestCache(t *testing.T) {
	n := 20000
	if thorough() {
		n = 300000
	}
	rng := rand.New(rand.NewSource(seed()*7919 + 11))
	begin("cache-small")
	emitLooks("cache-small", cacheLookups(rng, n, 300, 100))
	// more than the cache holds
	begin("cache-large")
	emitLooks("cache-large", cacheLookups(rng, 5000+n/40, 30000, 30000))
	begin("cache-conc")
	const workers = 8
	all := make([][]cacheLook, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int, rng *rand.Rand) {
			defer wg.Done()
			all[w] = append(cacheLookups(rng, n/workers, 200, 60), cacheLookups(rng, n/workers/4, 30000, 9000)...)
		}(w, rand.New(rand.NewSource(rng.Int63())))
	}
	wg.Wait()
	for w := range all {
		emitLooks("cache-conc-"+strconv.Itoa(w), all[w])
	}
}

// The shared cache as its metrics tell it. This needs a process of its own, in which nobody else uses the cache.
func TestShared(t *testing.T) {
	begin("shared")
	rng := rand.New(rand.NewSource(seed()*7919 + 13))
	reg := metrics.NewRegistry()
	cache.RegisterCacheMetrics(reg)
	count := func() int { return int(reg.Get("binary.cache.count").(metrics.Gauge).Value()) }
	size := func() int { return int(reg.Get("binary.cache.size").(metrics.Gauge).Value()) }
	if count() != 0 || size() != 0 {
		fault("the cache is used already")
	}
	_ = reg.Get("binary.cache.hit.rate").(metrics.GaugeFloat64).Value()
	probe := cache.NewLRUCache(1 << 30)
	probe.Set("x")
	const many = 40
	keys := many + 60
	strs, lens := make([]string, keys), make([]int, keys)
	for k := range strs {
		n := 1 + rng.Intn(100) // these fit together
		if k >= many {
			n = pick(rng, 10, 3000, 8192, 100000, 262144, 1000000)
		}
		strs[k] = strconv.Itoa(k) + strings.Repeat("s", n)
		lens[k] = len(strs[k])
	}
	looks := 0
	ops := []M{}
	look := func(rng *rand.Rand, k int) bool {
		src := []byte(strs[k])
		var got string
		switch rng.Intn(3) {
		case 0:
			got = cache.StringForByteSliceCopy(src)
			same := got == strs[k]
			for i := range src {
				src[i] = 'x'
			}
			return same && got == strs[k]
		case 1:
			got = cache.StringForByteSliceNoCopy(src)
		case 2:
			got = cache.String(string(src))
		}
		return got == strs[k]
	}
	read := func() {
		rate := reg.Get("binary.cache.hit.rate").(metrics.GaugeFloat64).Value()
		hits, exact := -1, looks == 0
		if rate == rate {
			f := rate * float64(looks)
			hits = int(f + 0.5)
			exact = f > float64(hits)-0.001 && f < float64(hits)+0.001
		}
		ops = append(ops, M{"o": "read", "count": count(), "size": size(), "hits": hits, "exact": exact})
		looks = 0
	}
	// many at the same time
	for round := 0; round < 20; round++ {
		from, to := 0, many
		if round < 10 {
			to = (round + 1) * many / 10
		}
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func(rng *rand.Rand) {
				defer wg.Done()
				for _, k := range rng.Perm(to - from) {
					look(rng, from+k)
				}
			}(rand.New(rand.NewSource(rng.Int63())))
		}
		wg.Wait()
		is := []int{}
		for k := from; k < to; k++ {
			is = append(is, k+1)
		}
		ops = append(ops, M{"o": "together", "is": is})
		read()
	}
	// make the order known
	for _, k := range rng.Perm(many) {
		same := look(rng, k)
		looks++
		ops = append(ops, M{"o": "look", "i": k + 1, "same": same})
	}
	read()
	n := 700
	if thorough() {
		n = 6000
	}
	recent := []int{0}
	for j := 0; j < n; j++ {
		k := rng.Intn(keys)
		if rng.Intn(2) == 0 {
			k = recent[rng.Intn(len(recent))]
		}
		recent = append(recent, k)
		if len(recent) > 8 {
			recent = recent[1:]
		}
		if rng.Intn(20) == 0 && cache.StringForByteSliceCopy(nil) != "" { // is nobody's lookup
			fault("something for nothing")
		}
		same := look(rng, k)
		looks++
		ops = append(ops, M{"o": "look", "i": k + 1, "same": same})
		if rng.Intn(4) == 0 {
			read()
		}
	}
	read()
	emitLine(M{"id": "shared", "over": probe.Size() - 1, "max": 5 * 1024 * 1024, "len": lens, "ops": ops})
}
