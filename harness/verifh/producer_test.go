package verifh

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/rcrowley/go-metrics"
)

// A Kafka broker that knows metadata and produce requests, behind net.Pipe.

type kmsg struct {
	topic      string
	partition  int32
	key, value []byte
}

type kbroker struct {
	mu      sync.Mutex
	topic   string
	parts   int
	conns   map[net.Conn]bool
	refuse  bool                  // connections are refused
	code    func() int16          // the answer to produce requests
	arrived func(m kmsg, ok bool) // called under mu
	stall   func() time.Duration  // before an answer
	limit   int                   // connections are cut after this many requests, 0: never
	served  int
}

func (b *kbroker) Dial(network, addr string) (net.Conn, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.refuse {
		return nil, errors.New("connection refused")
	}
	c, s := net.Pipe()
	b.conns[s] = true
	go b.serve(s)
	return c, nil
}

func (b *kbroker) cut() {
	b.mu.Lock()
	defer b.mu.Unlock()
	for c := range b.conns {
		_ = c.Close()
	}
	b.conns = map[net.Conn]bool{}
}

type kreader struct {
	b   []byte
	bad bool
}

func (r *kreader) take(n int) []byte {
	if n < 0 || n > len(r.b) {
		r.bad = true
		return make([]byte, 8)
	}
	v := r.b[:n]
	r.b = r.b[n:]
	return v
}
func (r *kreader) i8() int8   { return int8(r.take(1)[0]) }
func (r *kreader) i16() int16 { return int16(binary.BigEndian.Uint16(r.take(2))) }
func (r *kreader) i32() int32 { return int32(binary.BigEndian.Uint32(r.take(4))) }
func (r *kreader) i64() int64 { return int64(binary.BigEndian.Uint64(r.take(8))) }
func (r *kreader) str() string {
	n := int(r.i16())
	if n < 0 {
		return ""
	}
	return string(r.take(n))
}
func (r *kreader) varint() int64 {
	v, n := binary.Varint(r.b)
	if n <= 0 {
		r.bad = true
		return 0
	}
	r.b = r.b[n:]
	return v
}
func (r *kreader) vbytes() []byte {
	n := r.varint()
	if n < 0 {
		return nil
	}
	return r.take(int(n))
}

type kwriter struct{ bytes.Buffer }

func (w *kwriter) i8(v int8)    { w.WriteByte(byte(v)) }
func (w *kwriter) i16(v int16)  { must(binary.Write(w, binary.BigEndian, v)) }
func (w *kwriter) i32(v int32)  { must(binary.Write(w, binary.BigEndian, v)) }
func (w *kwriter) i64(v int64)  { must(binary.Write(w, binary.BigEndian, v)) }
func (w *kwriter) str(s string) { w.i16(int16(len(s))); w.WriteString(s) }

func (b *kbroker) serve(c net.Conn) {
	defer c.Close()
	for {
		var head [4]byte
		if _, err := io.ReadFull(c, head[:]); err != nil {
			return
		}
		body := make([]byte, binary.BigEndian.Uint32(head[:]))
		if _, err := io.ReadFull(c, body); err != nil {
			return
		}
		r := &kreader{b: body}
		api, version, corr := r.i16(), r.i16(), r.i32()
		r.str()
		w := &kwriter{}
		w.i32(corr)
		answer := true
		b.mu.Lock()
		switch {
		case api == 3 && version == 5:
			b.metadata(w)
		case api == 0 && version == 3:
			answer = b.produce(r, w)
		default:
			fault("unexpected kafka request " + strconv.Itoa(int(api)) + "/" + strconv.Itoa(int(version)))
		}
		b.served++
		gone := !b.conns[c] || b.limit > 0 && b.served%b.limit == 0
		var d time.Duration
		b.mu.Unlock()
		if b.stall != nil && api == 0 {
			d = b.stall()
		}
		if gone {
			return
		}
		if d > 0 {
			time.Sleep(d)
		}
		if answer {
			var size [4]byte
			binary.BigEndian.PutUint32(size[:], uint32(w.Len()))
			if _, err := c.Write(append(size[:], w.Bytes()...)); err != nil {
				return
			}
		}
	}
}

func (b *kbroker) metadata(w *kwriter) {
	w.i32(0)
	w.i32(1)
	w.i32(1)
	w.str("kafka")
	w.i32(9092)
	w.i16(-1)
	w.i16(-1)
	w.i32(1)
	w.i32(1)
	w.i16(0)
	w.str(b.topic)
	w.i8(0)
	w.i32(int32(b.parts))
	for p := 0; p < b.parts; p++ {
		w.i16(0)
		w.i32(int32(p))
		w.i32(1)
		w.i32(1)
		w.i32(1)
		w.i32(1)
		w.i32(1)
		w.i32(0)
	}
}

func (b *kbroker) produce(r *kreader, w *kwriter) bool {
	r.str()
	acks := r.i16()
	r.i32()
	topics := int(r.i32())
	w.i32(int32(topics))
	for ; topics > 0; topics-- {
		topic := r.str()
		w.str(topic)
		parts := int(r.i32())
		w.i32(int32(parts))
		for ; parts > 0; parts-- {
			p := r.i32()
			batch := &kreader{b: r.take(int(r.i32()))}
			var code int16
			if b.code != nil {
				code = b.code()
			}
			b.batch(topic, p, batch, code == 0)
			w.i32(p)
			w.i16(code)
			w.i64(0)
			w.i64(-1)
		}
	}
	w.i32(0)
	if r.bad {
		b.arrived(kmsg{}, false)
	}
	return acks != 0
}

func (b *kbroker) batch(topic string, p int32, r *kreader, keep bool) {
	r.i64()
	r.i32()
	r.i32()
	magic := r.i8()
	r.i32()
	attr := r.i16()
	r.i32()
	r.i64()
	r.i64()
	r.i64()
	r.i16()
	r.i32()
	n := int(r.i32())
	if magic != 2 || attr&7 != 0 || r.bad {
		fault("unexpected record batch")
	}
	for ; n > 0; n-- {
		r.varint()
		r.i8()
		r.varint()
		r.varint()
		key := r.vbytes()
		value := r.vbytes()
		if r.varint() != 0 || r.bad {
			fault("unexpected record")
		}
		if keep {
			b.arrived(kmsg{topic, p, key, value}, true)
		}
	}
}

func producerConfig() *sarama.Config {
	cfg := sarama.NewConfig() // as in main.go
	cfg.Version = sarama.V1_1_1_0
	cfg.Producer.RequiredAcks = sarama.NoResponse
	cfg.Producer.Flush.Frequency = 1 * time.Second
	cfg.Producer.MaxMessageBytes = 768 * 1024
	cfg.ChannelBufferSize = 64
	cfg.Net.Proxy.Enable = true
	return cfg
}

// TestProducer runs all its scenarios in one bubble and ends the process in it: a
// producer can not be closed from outside.
func TestProducer(t *testing.T) {
	metrics.NewMeter() // starts a goroutine that must not be in the bubble
	fams := strings.Split(os.Getenv("VERIF_FAMILY"), ",")
	count := 12
	if fams[0] == "swift" || fams[0] == "huge" {
		count = 6
	}
	if thorough() {
		count *= 7
	}
	synctest.Test(t, func(t *testing.T) {
		for _, fam := range fams {
			for i := 0; i < count; i++ {
				if mine(i) {
					id := fam + "-" + strconv.Itoa(i)
					begin(id)
					runProducer(id, fam, rand.New(rand.NewSource(seed()*1000003+int64(i))))
				}
			}
		}
		os.Exit(0)
	})
}

func runProducer(id, fam string, rng *rand.Rand) {
	var mu sync.Mutex
	var ev []M
	log := func(e M) {
		mu.Lock()
		ev = append(ev, e)
		mu.Unlock()
	}
	topic := "spans-" + strconv.Itoa(rng.Intn(100))
	number := map[string]int{}
	b := &kbroker{topic: topic, parts: pick(rng, 1, 3, 12), conns: map[net.Conn]bool{}}
	b.arrived = func(m kmsg, ok bool) {
		n := -1
		if ok {
			if sp, err := codec.BinaryDecode(bytes.NewReader(m.value)); err == nil {
				mu.Lock()
				if x, known := number[digest(sp)]; known {
					n = x
				}
				mu.Unlock()
			}
		}
		log(M{"e": "arrive", "n": n, "p": int(m.partition) + 1, "key": ints(m.key), "topic": m.topic == topic})
	}
	cfg := producerConfig()
	cfg.Net.Proxy.Dialer = b
	if rng.Intn(3) == 0 {
		cfg.Producer.Flush.Frequency = 0
	}
	if fam == "reject" || fam == "plain" && rng.Intn(3) == 0 {
		cfg.Producer.RequiredAcks = sarama.WaitForLocal
	}
	if fam == "big" {
		cfg.Producer.MaxMessageBytes = 6000
	}
	if fam == "swift" {
		cfg.Producer.Flush.Frequency = time.Second
		if rng.Intn(3) > 0 {
			// the broker is slow, and there is much to be kept until it reads on
			b.parts = 64
			cfg.Producer.MaxMessageBytes = 1500
			stalls := rand.New(rand.NewSource(rng.Int63()))
			// (not in virtual time: sarama may hold a mutex in the meantime)
			b.stall = func() time.Duration {
				for n := 100 << uint(stalls.Intn(8)); n > 0; n-- {
					runtime.Gosched()
				}
				return 0
			}
		}
		defer debug.SetGCPercent(debug.SetGCPercent(-1)) // pools are not emptied
	}
	client, err := sarama.NewClient([]string{"kafka:9092"}, cfg)
	must(err)

	traceOf := []int{}
	ids := [][]int{}
	traces := 1 + rng.Intn(20)
	if b.parts == 64 {
		traces = 100
	}
	traceIds := []proxy.Id{}
	for j := 0; j < traces; j++ {
		tid := proxy.Id(edge64(rng))
		if tid == 0 {
			tid = 7
		}
		traceIds = append(traceIds, tid)
		ids = append(ids, nibbles(tid))
	}
	total := pick(rng, 50, 300, 700)
	if fam == "plain" && rng.Intn(4) == 0 {
		total = 2500
	}
	if fam == "huge" {
		total = 40
	} else if fam == "big" || fam == "down" {
		total = pick(rng, 200, 400)
	}
	sizes := rng.Intn(4)
	// many spans under way at the same time
	swift := fam == "swift"
	if swift {
		total, sizes = pick(rng, 1500, 2500, 4000), 4
	}
	make1 := func() (proxy.Span, int, bool) {
		t := rng.Intn(traces)
		sp := oddSpan(rng, rng.Int())
		sp.Trace = traceIds[t]
		big := false
		size := 0
		switch sizes {
		case 0:
			size = rng.Intn(80)
		case 1:
			size = 300 + rng.Intn(200) // around the expected size of a span
		case 2:
			size = pick(rng, 0, 100, 440, 480, 500, 520, 600, 2000)
		case 3:
			size = rng.Intn(1200)
		}
		if fam == "big" && rng.Intn(3) == 0 {
			size, big = 7000+rng.Intn(3000), true
		} else if fam == "plain" && rng.Intn(200) == 0 {
			size = 20000 + rng.Intn(30000)
		}
		if fam == "huge" && rng.Intn(3) == 0 { // with the limit of main.go
			size, big = 600000+rng.Intn(140000), rng.Intn(2) == 0
			if big {
				size = 800000 + rng.Intn(1200000)
			}
			if rng.Intn(2) == 0 {
				sp.Tags = map[string]string{}
			}
			if rng.Intn(3) == 0 { // in many pieces
				for ; size > 0; size -= 1000 {
					sp.AddTag(strconv.Itoa(size), strings.Repeat("y", 1000))
				}
				size = 0
			}
		}
		if size > 0 {
			fill := bytes.Repeat([]byte("z"), size)
			for x := range fill {
				fill[x] = byte(33 + rng.Intn(90))
			}
			switch which := rng.Intn(10); {
			case which == 9 && size > 600000:
				sp.Service += string(fill)
			case which == 8 && size > 600000:
				sp.AddTag(string(fill), "fill")
			case which%2 == 0:
				sp.Name += string(fill)
			default:
				sp.AddTag("fill", string(fill))
			}
		}
		mu.Lock()
		traceOf = append(traceOf, t+1)
		n := len(traceOf)
		number[digest(sp)] = n
		mu.Unlock()
		return sp, n, big
	}
	senders := 1 + rng.Intn(3)
	inputs := []chan proxy.Span{}
	var shared *balance.Sender
	for x := 0; x < senders; x++ {
		in := make(chan proxy.Span, pick(rng, 0, 0, 256))
		s := shared
		if s == nil || rng.Intn(2) == 0 {
			s, err = balance.NewSender(client, topic)
			must(err)
			shared = s
		}
		inputs = append(inputs, in)
		go s.Send(in)
	}
	feed := func(total int) {
		var wg sync.WaitGroup
		var next sync.Mutex
		left := total
		seeds := make([]int64, len(inputs))
		for x := range seeds {
			seeds[x] = rng.Int63()
		}
		for x := range inputs {
			wg.Add(1)
			delays := rand.New(rand.NewSource(seeds[x]))
			go func(x int) {
				defer wg.Done()
				for {
					next.Lock()
					if left == 0 {
						next.Unlock()
						return
					}
					left--
					sp, n, big := make1()
					log(M{"e": "offer", "n": n})
					next.Unlock()
					timer := time.NewTimer(10 * time.Minute)
					select {
					case inputs[x] <- sp:
						timer.Stop()
						log(M{"e": "taken", "n": n, "big": big})
					case <-timer.C:
						log(M{"e": "refused", "n": n})
						return
					}
					if !swift && delays.Intn(50) == 0 {
						time.Sleep(time.Duration(delays.Intn(2000)) * time.Millisecond)
					}
				}
			}(x)
		}
		wg.Wait()
	}
	for rounds := 1 + rng.Intn(2); rounds > 0; rounds-- {
		feed(total)
		if fam == "down" || fam == "reject" {
			time.Sleep(time.Minute)
			log(M{"e": "rest"})
			log(M{"e": "trouble"})
			if fam == "down" {
				b.mu.Lock()
				switch rng.Intn(3) {
				case 0:
					b.refuse = true
				case 1:
					b.limit = 1 + rng.Intn(4)
				}
				b.mu.Unlock()
				b.cut()
			} else {
				codes := rand.New(rand.NewSource(rng.Int63()))
				b.mu.Lock()
				b.code = func() int16 { return []int16{0, 2, 5, 6, 7, 10, 18, 19, 29, -1}[codes.Intn(10)] }
				b.mu.Unlock()
			}
			if rng.Intn(2) == 0 {
				feed(70 + rng.Intn(total))
			} else {
				for j := 5 + rng.Intn(10); j > 0; j-- {
					feed(1 + rng.Intn(20))
					time.Sleep(time.Duration(rng.Intn(60)) * time.Second)
				}
			}
			b.mu.Lock()
			b.refuse, b.limit, b.code = false, 0, nil
			b.mu.Unlock()
			time.Sleep(15 * time.Minute) // nothing is under way any more
			log(M{"e": "healed"})
			feed(total / 2)
		}
		time.Sleep(5 * time.Minute)
		log(M{"e": "rest"})
	}
	for _, in := range inputs {
		close(in)
	}
	time.Sleep(time.Minute)
	log(M{"e": "rest"})
	mu.Lock()
	emitLine(M{"id": id, "ids": ids, "trace": traceOf, "ev": ev})
	mu.Unlock()
	_ = client.Close()
}
