package verifh

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/rcrowley/go-metrics"
	"github.com/sirupsen/logrus"
)

// The harness drives the real code and records what it does; it holds no
// opinion on what is right.  The verdict is TLC's, on the recorded log.

type M = map[string]interface{}

var outMu sync.Mutex
var out *bufio.Writer
var cur *os.File

// begin names the scenario that is executed from here on: a crash or a hang is
// attributed to it.
func begin(id string) {
	if cur != nil {
		must(cur.Truncate(0))
		_, err := cur.WriteAt([]byte(id), 0)
		must(err)
	}
}

// mine tells whether this process (of several) executes scenario number i.
func mine(i int) bool {
	var k, n int
	if _, err := fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/%d", &k, &n); err != nil || n < 1 {
		return true
	}
	return i%n == k
}

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_CHILD") != "" {
		wholeChild()
	}
	logrus.SetOutput(ioutil.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	var f *os.File
	if name := os.Getenv("VERIF_OUT"); name != "" {
		var err error
		if f, err = os.Create(name); err != nil {
			panic(err)
		}
		out = bufio.NewWriterSize(f, 1<<20)
	}
	if name := os.Getenv("VERIF_OUT"); name != "" {
		var err error
		if cur, err = os.Create(name + ".cur"); err != nil {
			panic(err)
		}
	}
	rc := m.Run()
	if out != nil {
		if err := out.Flush(); err != nil {
			panic(err)
		}
		_ = f.Close()
	}
	os.Exit(rc)
}

// emit writes one line of the log.
func emitLine(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	outMu.Lock()
	defer outMu.Unlock()
	if out == nil {
		return
	}
	out.Write(b)
	out.WriteByte('\n')
	must(out.Flush())
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func seed() int64    { return int64(envInt("VERIF_SEED", 1)) }
func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// readLines decodes the ndjson file named by the environment variable.
func readLines(env string, each func(raw []byte)) {
	name := os.Getenv(env)
	if name == "" {
		return
	}
	f, err := os.Open(name)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			each(append([]byte(nil), sc.Bytes()...))
		}
	}
	if sc.Err() != nil {
		panic(sc.Err())
	}
}

// ---------------------------------------------------------------------------
// abstract spans, see SpanTree.tla

const (
	EPOCH = -2000000000
	FILL  = -1

	unit        = int64(time.Millisecond / 2)
	originNs    = int64(1577836800) * int64(time.Second) // 2020-01-01
	originUnits = originNs / unit
)

type ASpan struct {
	Id   int         `json:"id"`
	Par  int         `json:"par"`
	Name string      `json:"name"`
	Svc  string      `json:"svc"`
	Ts   int         `json:"ts"`
	Dur  int         `json:"dur"`
	Cs   int         `json:"cs"`
	Cr   int         `json:"cr"`
	Ss   int         `json:"ss"`
	Sr   int         `json:"sr"`
	Tags [][2]string `json:"tags"`
}

func concTs(v int) proxy.Timestamp {
	if v < -1000000000 {
		return proxy.Timestamp(int64(v-EPOCH) * unit)
	}
	return proxy.Timestamp(originNs + int64(v)*unit)
}

const weird = 2000000001 // a value no specification step produces

func absTs(ts proxy.Timestamp) int {
	ns := int64(ts)
	if ns%unit != 0 {
		return weird
	}
	u := ns / unit
	switch {
	case u >= 0 && u < 100000000:
		return EPOCH + int(u)
	case u-originUnits > -1000000000 && u-originUnits < 1000000000:
		return int(u - originUnits)
	}
	return weird
}

func concDur(v int) time.Duration { return time.Duration(int64(v) * unit) }

func absDur(d time.Duration) int {
	ns := int64(d)
	if ns%unit != 0 {
		return weird
	}
	u := ns / unit
	if u > 1000000000000 {
		u = u - originUnits - EPOCH
	} else if u < -1000000000000 {
		u = u + originUnits + EPOCH
	}
	if u > math.MaxInt32 || u < math.MinInt32 {
		return weird
	}
	return int(u)
}

// Ids maps small abstract ids to 64 bit ids and back; 0 is 0.
type Ids struct {
	rng  *rand.Rand
	conc map[int]proxy.Id
	abs  map[proxy.Id]int
}

func newIds(rng *rand.Rand) *Ids {
	return &Ids{rng, map[int]proxy.Id{0: 0}, map[proxy.Id]int{0: 0}}
}

var extremeIds = []proxy.Id{1, 2, 3, -1, -2, math.MinInt64, math.MaxInt64, math.MinInt64 + 1, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32}

func (m *Ids) Conc(a int) proxy.Id {
	if id, ok := m.conc[a]; ok {
		return id
	}
	for {
		var id proxy.Id
		if m.rng.Intn(3) == 0 {
			id = extremeIds[m.rng.Intn(len(extremeIds))]
		} else {
			id = proxy.Id(m.rng.Uint64())
		}
		if _, used := m.abs[id]; !used {
			m.conc[a] = id
			m.abs[id] = a
			return id
		}
	}
}

func (m *Ids) Abs(id proxy.Id) int {
	if a, ok := m.abs[id]; ok {
		return a
	}
	return -99
}

func (m *Ids) concSpan(tr int, s ASpan) proxy.Span {
	sp := proxy.Span{
		Id: m.Conc(s.Id), Parent: m.Conc(s.Par), Trace: m.Conc(tr),
		Name: s.Name, Service: s.Svc,
		Timestamp: concTs(s.Ts), Duration: concDur(s.Dur),
		Timings: proxy.Timings{CS: concTs(s.Cs), CR: concTs(s.Cr), SS: concTs(s.Ss), SR: concTs(s.Sr)},
	}
	for _, kv := range s.Tags {
		sp.AddTag(kv[0], kv[1])
	}
	return sp
}

func (m *Ids) absSpan(sp proxy.Span) ASpan {
	s := ASpan{
		Id: m.Abs(sp.Id), Par: m.Abs(sp.Parent), Name: sp.Name, Svc: sp.Service,
		Ts: absTs(sp.Timestamp), Dur: absDur(sp.Duration),
		Cs: absTs(sp.Timings.CS), Cr: absTs(sp.Timings.CR), Ss: absTs(sp.Timings.SS), Sr: absTs(sp.Timings.SR),
		Tags: absTags(sp.Tags),
	}
	return s
}

func absTags(tags map[string]string) [][2]string {
	res := [][2]string{}
	for k, v := range tags {
		res = append(res, [2]string{k, v})
	}
	sort.Slice(res, func(i, j int) bool { return res[i][0] < res[j][0] })
	return res
}

func meterCount(name string) int64 {
	return metrics.GetOrRegisterMeter(name, nil).Count()
}

func gaugeValue(name string) int64 {
	return metrics.GetOrRegisterGauge(name, nil).Value()
}

// fault reports a failure of the harness, as opposed to one of the code.
func fault(v interface{}) {
	fmt.Fprintln(os.Stderr, "VERIF HARNESS FAULT:", v)
	panic(v)
}

func must(err error) {
	if err != nil {
		fault(err)
	}
}

func sprint(v ...interface{}) string { return fmt.Sprint(v...) }
