package verifh

import (
	"bytes"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/rcrowley/go-metrics"
)

// Members of a consumer group, with sarama's real groups: they come, are stopped, die, and
// lose their connections.

func groupConfig() *sarama.Config {
	cfg := producerConfig() // as in main.go
	cfg.Consumer.Fetch.Min = 128 * 1024
	cfg.Consumer.Fetch.Max = 1024 * 1024
	cfg.Consumer.MaxWaitTime = 1 * time.Second
	cfg.Consumer.Offsets.Initial = sarama.OffsetOldest
	return cfg
}

type kproxy struct {
	name    int
	peer    *kpeer
	client  sarama.Client
	group   sarama.ConsumerGroup
	stop    func()
	stopped chan bool
	dead    bool
	slow    int
	rng     *rand.Rand
}

type groupRun struct {
	*kcluster
	topic   string
	ev      []M
	rng     *rand.Rand
	proxies []*kproxy
	running []*kproxy
	pub     sarama.SyncProducer
	count   []int
	good    [][]bool
	where   map[string][2]int
	serial  int
}

func TestGroup(t *testing.T) {
	metrics.NewMeter() // starts a goroutine that must not be in the bubble
	count := 40
	if thorough() {
		count = 400
	}
	synctest.Test(t, func(t *testing.T) {
		for i := 0; i < count; i++ {
			if mine(i) {
				id := "group-" + strconv.Itoa(i)
				begin(id)
				runGroup(id, rand.New(rand.NewSource(seed()*1000003+int64(i))))
			}
		}
		os.Exit(0)
	})
}

func (g *groupRun) log(e M) {
	g.mu.Lock()
	g.ev = append(g.ev, e)
	g.mu.Unlock()
}

// join starts another member.
func (g *groupRun) join() {
	p := &kproxy{name: len(g.proxies) + 1, slow: pick(g.rng, 0, 0, 10, 300), rng: rand.New(rand.NewSource(g.rng.Int63())), stopped: make(chan bool)}
	p.peer = g.peer(p.name)
	g.proxies = append(g.proxies, p)
	cfg := groupConfig()
	cfg.Net.Proxy.Dialer = p.peer
	var err error
	if p.client, err = sarama.NewClient([]string{"kafka:9092"}, cfg); err != nil {
		return // the cluster is down: the program does not start
	}
	p.group, err = sarama.NewConsumerGroupFromClient("spans", p.client)
	must(err)
	g.running = append(g.running, p)
	g.log(M{"e": "join", "m": p.name})
	p.stop = balance.Consume(p.group, g.topic, func(sp proxy.Span) { g.callback(p, sp) })
}

func (g *groupRun) callback(p *kproxy, sp proxy.Span) {
	g.mu.Lock()
	at, ok := g.where[digest(sp)]
	if !ok {
		at = [2]int{1, -1}
	}
	if p.dead {
		g.mu.Unlock()
		return
	}
	g.ev = append(g.ev, M{"e": "call", "m": p.name, "p": at[0], "n": at[1]})
	var d time.Duration
	if p.slow > 0 && p.rng.Intn(3) == 0 {
		d = time.Duration(p.rng.Intn(p.slow)) * time.Millisecond
		if p.rng.Intn(50) == 0 {
			d += time.Duration(p.rng.Intn(30)) * time.Second
		}
	}
	g.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	g.mu.Lock()
	if !p.dead {
		g.ev = append(g.ev, M{"e": "return", "m": p.name, "p": at[0], "n": at[1]})
	}
	g.mu.Unlock()
}

func (g *groupRun) publish() {
	p := g.rng.Intn(len(g.count))
	var msgs []*sarama.ProducerMessage
	var good []bool
	g.mu.Lock()
	for n := pick(g.rng, 1, 3, 10, 60); n > 0; n-- {
		g.serial++
		sp := oddSpan(g.rng, g.serial)
		var w bytes.Buffer
		must(codec.BinaryEncode(sp, &w))
		msg := w.Bytes()
		ok := g.rng.Intn(6) > 0
		if ok {
			back, _ := codec.BinaryDecode(bytes.NewReader(msg))
			g.where[digest(back)] = [2]int{p + 1, g.count[p] + len(good) + 1}
		} else {
			msg = msg[:g.rng.Intn(len(msg)-1)]
		}
		good = append(good, ok)
		msgs = append(msgs, &sarama.ProducerMessage{Topic: g.topic, Partition: int32(p), Value: sarama.ByteEncoder(msg)})
	}
	g.count[p] += len(good)
	g.ev = append(g.ev, M{"e": "publish", "p": p + 1, "good": good})
	g.mu.Unlock()
	must(g.pub.SendMessages(msgs))
}

func (g *groupRun) take() *kproxy {
	if len(g.running) == 0 {
		return nil
	}
	i := g.rng.Intn(len(g.running))
	p := g.running[i]
	g.running = append(g.running[:i:i], g.running[i+1:]...)
	return p
}

// halt stops consuming, as when the program ends.
func (g *groupRun) halt(p *kproxy) {
	g.log(M{"e": "stop", "m": p.name})
	go func() {
		p.stop()
		g.log(M{"e": "stopped", "m": p.name})
		close(p.stopped)
		g.mu.Lock()
		leave := p.rng.Intn(2) == 0
		if !leave {
			p.peer.refuse = true
			p.peer.cut()
		}
		g.mu.Unlock()
		_ = p.group.Close()
	}()
}

func (g *groupRun) cut(p *kproxy, refuse bool) {
	g.mu.Lock()
	g.ev = append(g.ev, M{"e": "trouble", "m": p.name})
	p.peer.refuse = refuse
	p.peer.cut()
	g.mu.Unlock()
}

func (g *groupRun) nap(ms int) { time.Sleep(time.Duration(g.rng.Intn(ms)+1) * time.Millisecond) }

func runGroup(id string, rng *rand.Rand) {
	g := &groupRun{kcluster: makeCluster(time.Duration(pick(rng, 0, 100, 3000)) * time.Millisecond), topic: "spans", rng: rng, where: map[string][2]int{}}
	parts := pick(rng, 1, 2, 4)
	g.topics[g.topic] = make([][]kbatch, parts)
	g.count = make([]int, parts)
	g.event = func(e M) { g.ev = append(g.ev, e) }
	cfg := groupConfig()
	cfg.Net.Proxy.Dialer = g.peer(0)
	cfg.Producer.RequiredAcks = sarama.WaitForLocal
	cfg.Producer.Return.Successes = true
	cfg.Producer.Partitioner = sarama.NewManualPartitioner
	cfg.Producer.Flush.Frequency = 0
	client, err := sarama.NewClient([]string{"kafka:9092"}, cfg)
	must(err)
	g.pub, err = sarama.NewSyncProducerFromClient(client)
	must(err)
	faults := rng.Intn(3) > 0
	dense := rng.Intn(2) == 0 // much happens at the same time
	steps := 4 + rng.Intn(12)
	if dense {
		steps *= 2
	}
	for ; steps > 0; steps-- {
		switch k := rng.Intn(14); {
		case k < 5:
			g.publish()
		case k < 8:
			if len(g.running) < 3 {
				g.join()
			}
		case k == 8:
			if p := g.take(); p != nil {
				g.halt(p)
			}
		case k == 9 && faults:
			if p := g.take(); p != nil { // it dies
				g.mu.Lock()
				g.ev = append(g.ev, M{"e": "trouble", "m": p.name})
				p.dead, p.peer.dead = true, true
				p.peer.cut()
				g.mu.Unlock()
				go func() { p.stop(); _ = p.group.Close() }()
			}
		case k == 10 && faults:
			if p := g.take(); p != nil {
				g.running = append(g.running, p)
				long := rng.Intn(2) == 0
				g.cut(p, long)
				if long {
					g.nap(pick(rng, 1000, 60000))
					g.mu.Lock()
					p.peer.refuse = false
					g.mu.Unlock()
				}
			}
		case k == 11 && faults:
			g.expel()
		case k == 12 && faults: // the cluster is down
			for _, p := range g.running {
				g.cut(p, true)
			}
			g.nap(30000)
			g.mu.Lock()
			for _, p := range g.running {
				p.peer.refuse = false
			}
			g.mu.Unlock()
		case k == 13 && rng.Intn(2) == 0:
			p := rng.Intn(parts)
			if g.count[p] > 0 {
				g.mu.Lock()
				low := g.retain(g.topic, int32(p), int64(rng.Intn(g.count[p]+1)))
				g.ev = append(g.ev, M{"e": "retain", "p": p + 1, "n": int(low)})
				g.mu.Unlock()
			}
		}
		if dense && len(g.running) > 0 {
			g.nap(pick(rng, 10, 300, 1000, 5000))
			g.publish()
			g.nap(pick(rng, 10, 300, 1000, 2000))
		} else {
			g.nap(pick(rng, 10, 500, 5000, 20000))
		}
		if rng.Intn(8) == 0 && len(g.running) > 0 {
			time.Sleep(20 * time.Minute)
			g.log(M{"e": "rest"})
		}
	}
	for len(g.running) == 0 {
		g.join()
	}
	time.Sleep(20 * time.Minute)
	g.log(M{"e": "rest"})
	for p := g.take(); p != nil; p = g.take() {
		g.halt(p)
		time.Sleep(10 * time.Minute)
	}
	g.log(M{"e": "end"})
	g.mu.Lock()
	emitLine(M{"id": id, "parts": parts, "ev": g.ev})
	for _, p := range g.proxies {
		p.dead = true
		p.peer.dead = true
		p.peer.cut()
	}
	g.mu.Unlock()
	_ = g.pub.Close()
	_ = client.Close()
	g.close()
	time.Sleep(10 * time.Minute)
}
