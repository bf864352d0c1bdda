package verifh

import (
	"bytes"
	"context"
	"errors"
	"math/rand"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// A consumer group that keeps to the contract of sarama.ConsumerGroup: sessions
// begin at the messages after the marked ones, end when the context is done, when
// the harness says so, or when a claim's loop returns.
type group struct {
	mu    sync.Mutex
	ev    []M
	rng   *rand.Rand
	topic string
	base  []int64    // offset of the first message
	msgs  [][][]byte // per partition
	have  []int      // how many of them have been produced yet
	mark  []int      // what is committed
	where map[string][2]int
	buf   int

	calm     bool // no trouble for the time being
	fail     int  // attempts that fail from now on
	end      func()
	sessions int
}

func (g *group) log(e M) {
	g.mu.Lock()
	g.ev = append(g.ev, e)
	g.mu.Unlock()
}

func (g *group) Errors() <-chan error { return nil }
func (g *group) Close() error         { return nil }

func (g *group) Consume(ctx context.Context, topics []string, handler sarama.ConsumerGroupHandler) error {
	right := len(topics) == 1 && topics[0] == g.topic
	g.mu.Lock()
	fail := g.fail > 0
	if fail {
		g.fail--
	}
	wait := time.Duration(1+g.rng.Intn(50)) * time.Millisecond
	g.mu.Unlock()
	if fail || ctx.Err() != nil {
		time.Sleep(wait)
		g.log(M{"e": "error", "topic": right})
		if ctx.Err() != nil {
			return ctx.Err()
		}
		return errors.New("no group today")
	}
	g.mu.Lock()
	ps := []int{}
	for p := range g.msgs {
		if g.calm || g.rng.Intn(4) > 0 {
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		ps = append(ps, g.rng.Intn(len(g.msgs)))
	}
	one := []int{}
	for _, p := range ps {
		one = append(one, p+1)
		if g.rng.Intn(5) == 0 { // the topic was deleted, and is there again: offsets are used again
			g.base[p] = int64(pick(g.rng, 0, 1, 5) - g.mark[p])
		}
	}
	g.ev = append(g.ev, M{"e": "begin", "topic": right, "ps": one})
	sctx, cancel := context.WithCancel(context.Background())
	var once sync.Once
	// the end of the session is in the log before anybody can see it
	end := func() {
		once.Do(func() {
			g.log(M{"e": "ending"})
			cancel()
		})
	}
	g.end = end
	g.sessions++
	s := &session{g: g, ctx: sctx, claims: map[string][]int32{g.topic: nil}, gen: int32(g.sessions)}
	for _, p := range ps {
		s.claims[g.topic] = append(s.claims[g.topic], int32(p))
	}
	g.mu.Unlock()
	over := make(chan bool)
	defer close(over)
	go func() {
		select {
		case <-ctx.Done():
			end()
		case <-over:
		}
	}()

	if err := handler.Setup(s); err != nil {
		end()
		for _, p := range one {
			g.log(M{"e": "claimend", "p": p})
		}
		g.log(M{"e": "end"})
		return err
	}
	var loops, feeders sync.WaitGroup
	done := make(chan bool)
	for _, p := range ps {
		ch := make(chan *sarama.ConsumerMessage, g.buf)
		cl := &claim{g: g, p: p, ch: ch, from: g.mark[p]}
		feeders.Add(1)
		go func(p, next int) {
			defer feeders.Done()
			defer close(ch)
			<-done
			for {
				g.mu.Lock()
				more := next < g.have[p]
				g.mu.Unlock()
				if !more {
					select {
					case <-sctx.Done():
						return
					case <-time.After(time.Second):
					}
					continue
				}
				if sctx.Err() != nil {
					return
				}
				g.log(M{"e": "offer", "p": p + 1})
				select {
				case ch <- &sarama.ConsumerMessage{Topic: g.topic, Partition: int32(p), Offset: g.base[p] + int64(next),
					Key: []byte("k"), Value: append([]byte(nil), g.msgs[p][next]...)}:
					next++
				case <-sctx.Done():
					return
				}
			}
		}(p, cl.from)
		loops.Add(1)
		go func(p int) {
			defer loops.Done()
			_ = handler.ConsumeClaim(s, cl)
			g.log(M{"e": "claimend", "p": p + 1})
			end() // as soon as one claim is given up, the session is over
		}(p)
	}
	close(done)
	loops.Wait()
	feeders.Wait()
	_ = handler.Cleanup(s)
	g.log(M{"e": "end"})
	g.mu.Lock()
	g.end = nil
	defer g.mu.Unlock()
	if g.rng.Intn(3) == 0 {
		return errors.New("could not leave properly")
	}
	return nil
}

type session struct {
	g      *group
	ctx    context.Context
	claims map[string][]int32
	gen    int32
}

func (s *session) Claims() map[string][]int32 { return s.claims }
func (s *session) MemberID() string           { return "me" }
func (s *session) GenerationID() int32        { return s.gen }
func (s *session) Context() context.Context   { return s.ctx }
func (s *session) MarkOffset(topic string, partition int32, offset int64, metadata string) {
	p := int(partition)
	n := -1
	if topic == s.g.topic && p >= 0 && p < len(s.g.msgs) {
		n = int(offset - s.g.base[p])
	}
	s.g.mu.Lock()
	defer s.g.mu.Unlock()
	s.g.ev = append(s.g.ev, M{"e": "mark", "p": p + 1, "n": n})
	if n > s.g.mark[p] {
		s.g.mark[p] = n
	}
}
func (s *session) ResetOffset(topic string, partition int32, offset int64, metadata string) {
	s.g.log(M{"e": "reset"})
}
func (s *session) MarkMessage(m *sarama.ConsumerMessage, metadata string) {
	s.MarkOffset(m.Topic, m.Partition, m.Offset+1, metadata)
}

type claim struct {
	g    *group
	p    int
	ch   chan *sarama.ConsumerMessage
	from int
}

func (c *claim) Topic() string                            { return c.g.topic }
func (c *claim) Partition() int32                         { return int32(c.p) }
func (c *claim) InitialOffset() int64                     { return c.g.base[c.p] + int64(c.from) }
func (c *claim) HighWaterMarkOffset() int64               { return c.g.base[c.p] + int64(len(c.g.msgs[c.p])) }
func (c *claim) Messages() <-chan *sarama.ConsumerMessage { return c.ch }

func TestConsumer(t *testing.T) {
	count := 200
	if thorough() {
		count = 3000
	}
	for i := 0; i < count; i++ {
		if mine(i) {
			id := "consume-" + strconv.Itoa(i)
			begin(id)
			runConsumer(t, id, rand.New(rand.NewSource(seed()*1000003+int64(i))))
		}
	}
}

func runConsumer(t *testing.T, id string, rng *rand.Rand) {
	synctest.Test(t, func(t *testing.T) {
		parts := 1 + rng.Intn(3)
		g := &group{rng: rand.New(rand.NewSource(rng.Int63())), topic: "spans" + strconv.Itoa(rng.Intn(3)), where: map[string][2]int{},
			buf: pick(rng, 0, 1, 5)}
		good := [][]bool{}
		badShare := pick(rng, 0, 3, 10)
		n := 0
		for p := 0; p < parts; p++ {
			g.base = append(g.base, int64(pick(rng, 0, 1, 1000000))*int64(pick(rng, 1, 1000000)))
			g.have = append(g.have, 0)
			g.mark = append(g.mark, 0)
			var msgs [][]byte
			gp := []bool{}
			for j := 1 + rng.Intn(25); j > 0; j-- {
				n++
				sp := oddSpan(rng, n)
				var w bytes.Buffer
				must(codec.BinaryEncode(sp, &w))
				msg := w.Bytes()
				ok := rng.Intn(12) >= badShare
				if !ok {
					switch rng.Intn(4) {
					case 0:
						msg = nil
					case 1:
						msg = msg[:len(msg)-1-rng.Intn(len(msg)-1)]
					case 2:
						msg = []byte("not a span")
					case 3:
						msg = bytes.Repeat([]byte{0xff}, rng.Intn(50))
					}
				} else {
					back, _ := codec.BinaryDecode(bytes.NewReader(msg))
					g.where[digest(back)] = [2]int{p + 1, len(msgs) + 1}
				}
				msgs = append(msgs, msg)
				gp = append(gp, ok)
			}
			g.msgs = append(g.msgs, msgs)
			good = append(good, gp)
		}
		slow := pick(rng, 0, 0, 5, 50)
		delays := rand.New(rand.NewSource(rng.Int63()))
		callback := func(sp proxy.Span) {
			g.mu.Lock()
			w, ok := g.where[digest(sp)]
			if !ok {
				w = [2]int{1, -1}
			}
			g.ev = append(g.ev, M{"e": "call", "p": w[0], "n": w[1]})
			var d time.Duration
			if slow > 0 && delays.Intn(3) == 0 {
				d = time.Duration(delays.Intn(slow*100)) * time.Millisecond
				if delays.Intn(20) == 0 {
					d += 30 * time.Second
				}
			}
			g.mu.Unlock()
			if d > 0 {
				time.Sleep(d)
			}
			g.log(M{"e": "return", "p": w[0], "n": w[1]})
		}
		if rng.Intn(4) == 0 {
			g.fail = rng.Intn(4)
		}
		stop := balance.Consume(g, g.topic, callback)
		ending := func() {
			g.mu.Lock()
			end := g.end
			g.mu.Unlock()
			if end != nil {
				end()
			}
		}
		for phase := rng.Intn(8); phase >= 0; phase-- {
			switch rng.Intn(6) {
			case 0, 1:
				g.mu.Lock()
				for p := range g.have {
					g.have[p] += rng.Intn(len(g.msgs[p]) - g.have[p] + 1)
				}
				g.mu.Unlock()
			case 2, 3:
				g.mu.Lock()
				g.fail = pick(rng, 0, 0, 1, 3)
				g.mu.Unlock()
				ending()
			case 4:
				time.Sleep(time.Duration(rng.Intn(20000)) * time.Millisecond)
			case 5:
				g.mu.Lock()
				g.calm = true
				g.mu.Unlock()
				time.Sleep(10 * time.Minute)
				g.log(M{"e": "rest"})
				g.mu.Lock()
				g.calm = false
				g.mu.Unlock()
			}
			time.Sleep(time.Duration(rng.Intn(300)) * time.Millisecond)
		}
		if rng.Intn(3) > 0 {
			g.mu.Lock()
			g.calm = true
			for p := range g.have {
				g.have[p] = len(g.msgs[p])
			}
			g.mu.Unlock()
			time.Sleep(10 * time.Minute)
			g.log(M{"e": "rest"})
		}
		stopped := make(chan bool)
		go func() {
			g.log(M{"e": "stop"})
			stop()
			g.log(M{"e": "stopped"})
			close(stopped)
		}()
		time.Sleep(10 * time.Minute)
		g.log(M{"e": "rest"})
		g.mu.Lock()
		emitLine(M{"id": id, "good": good, "ev": g.ev})
		g.mu.Unlock()
		<-stopped
		time.Sleep(time.Minute)
	})
}
