package verifh

import (
	"encoding/binary"
	"errors"
	"io"
	"net"
	"sort"
	"strconv"
	"sync"
	"time"
)

// A Kafka cluster of one broker: topics, produce, fetch, and one consumer group with its
// offsets. It is reached over the loopback network, or over pipes (in virtual time).

type kbatch struct {
	base, next int64
	raw        []byte
}

type kmember struct {
	peer    *kpeer
	meta    []byte
	joined  chan bool // a join request waits; closed when the generation begins
	waiting bool
	timeout time.Duration
	expire  time.Time // without a sign of life until then, it is removed
}

// kpeer is a client that is connected by pipes.
type kpeer struct {
	c      *kcluster
	name   int
	refuse bool // the cluster can not be reached
	dead   bool
	conns  map[net.Conn]bool
}

func (p *kpeer) Dial(network, addr string) (net.Conn, error) {
	p.c.mu.Lock()
	defer p.c.mu.Unlock()
	if p.refuse || p.dead || p.c.closed {
		return nil, errors.New("connection refused")
	}
	c, s := net.Pipe()
	p.conns[s] = true
	go p.c.serve(s, p)
	return c, nil
}

// cut closes all connections of the peer; called under mu.
func (p *kpeer) cut() {
	for c := range p.conns {
		_ = c.Close()
	}
	p.conns = map[net.Conn]bool{}
}

type kcluster struct {
	mu     sync.Mutex
	cond   *sync.Cond
	l      net.Listener
	delay  time.Duration // how long the first member waits for others to join (3 s unless configured)
	topics map[string][][]kbatch
	offs   map[string]map[int32]int64
	low    map[string]map[int32]int64 // what is before has been deleted

	event      func(M) // what happens, called under mu
	members    map[string]*kmember
	order      []string
	generation int32
	leader     string
	assigned   map[string][]byte
	preparing  bool
	round      int
	patience   time.Duration // for members to join again
	count      int
	fetching   map[string]bool // <topic>/<partition> that were fetched in this generation
	bad        int
	closed     bool
}

func newCluster(delay time.Duration) *kcluster {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	c := makeCluster(delay)
	c.l = l
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go c.serve(conn, nil)
		}
	}()
	return c
}

func makeCluster(delay time.Duration) *kcluster {
	c := &kcluster{delay: delay, topics: map[string][][]kbatch{}, offs: map[string]map[int32]int64{}, low: map[string]map[int32]int64{},
		members: map[string]*kmember{}, fetching: map[string]bool{}, event: func(M) {}}
	c.cond = sync.NewCond(&c.mu)
	go func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		for !c.closed {
			c.mu.Unlock()
			time.Sleep(20 * time.Millisecond)
			c.mu.Lock()
			c.expire()
			c.cond.Broadcast()
		}
	}()
	return c
}

func (c *kcluster) peer(name int) *kpeer { return &kpeer{c: c, name: name, conns: map[net.Conn]bool{}} }

func (c *kcluster) addr() string {
	if c.l == nil {
		return "kafka:9092"
	}
	return c.l.Addr().String()
}

func (c *kcluster) close() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed = true
	c.cond.Broadcast()
	if c.l != nil {
		_ = c.l.Close()
	}
}

func (c *kcluster) trouble(m *kmember) {
	if m.peer != nil {
		c.event(M{"e": "trouble", "m": m.peer.name})
	}
}

// expire removes members that gave no sign of life.
func (c *kcluster) expire() {
	for id, m := range c.members {
		if m.peer != nil && !m.waiting && time.Now().After(m.expire) {
			c.trouble(m)
			c.leave(id)
		}
	}
}

func (c *kcluster) alive(id string) {
	if m := c.members[id]; m != nil {
		m.expire = time.Now().Add(m.timeout)
	}
}

// settled tells whether a group of n members consumes all partitions of all topics.
func (c *kcluster) settled(n int) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	parts := 0
	for _, t := range c.topics {
		parts += len(t)
	}
	return len(c.members) == n && !c.preparing && parts > 0 && len(c.fetching) == parts
}

// expel removes all members, as happens when their sessions time out.
func (c *kcluster) expel() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, m := range c.members {
		c.trouble(m)
	}
	c.members = map[string]*kmember{}
	c.order = nil
	c.preparing = false
	c.generation++
	c.cond.Broadcast()
}

func (w *kwriter) bytes(b []byte) {
	w.i32(int32(len(b)))
	w.Write(b)
}
func (r *kreader) blob() []byte {
	n := r.i32()
	if n < 0 {
		return nil
	}
	return append([]byte(nil), r.take(int(n))...)
}

func (c *kcluster) serve(conn net.Conn, peer *kpeer) {
	defer conn.Close()
	// requests are read at once, so that nobody who writes one has to wait
	bodies := make(chan []byte, 1000)
	go func() {
		defer close(bodies)
		for {
			var head [4]byte
			if _, err := io.ReadFull(conn, head[:]); err != nil {
				return
			}
			n := binary.BigEndian.Uint32(head[:])
			if n > 100<<20 {
				return
			}
			body := make([]byte, n)
			if _, err := io.ReadFull(conn, body); err != nil {
				return
			}
			bodies <- body
		}
	}()
	for body := range bodies {
		r := &kreader{b: body}
		api, version, corr := r.i16(), r.i16(), r.i32()
		r.str()
		w := &kwriter{}
		w.i32(corr)
		answer := true
		c.mu.Lock()
		if peer != nil && !peer.conns[conn] {
			c.mu.Unlock() // it was cut
			return
		}
		switch [2]int16{api, version} {
		case [2]int16{3, 5}:
			c.metadata(r, w)
		case [2]int16{0, 3}:
			answer = c.produce(r, w)
		case [2]int16{19, 1}:
			c.create(r, w)
		case [2]int16{10, 0}:
			w.i16(0)
			c.self(w)
		case [2]int16{11, 1}:
			c.join(r, w, peer)
		case [2]int16{14, 0}:
			c.sync(r, w)
		case [2]int16{12, 0}:
			c.heartbeat(r, w)
		case [2]int16{13, 0}:
			r.str()
			c.leave(r.str())
			w.i16(0)
		case [2]int16{9, 1}:
			c.offsetFetch(r, w, peer)
		case [2]int16{8, 1}, [2]int16{8, 2}:
			c.offsetCommit(r, w, version, peer)
		case [2]int16{2, 1}:
			c.listOffsets(r, w)
		case [2]int16{1, 4}:
			c.fetch(r, w)
		default:
			fault("unexpected kafka request " + strconv.Itoa(int(api)) + "/" + strconv.Itoa(int(version)))
		}
		if r.bad {
			c.bad++
		}
		c.cond.Broadcast()
		c.mu.Unlock()
		if answer {
			var size [4]byte
			binary.BigEndian.PutUint32(size[:], uint32(w.Len()))
			if _, err := conn.Write(append(size[:], w.Bytes()...)); err != nil {
				return
			}
		}
	}
}

func (c *kcluster) self(w *kwriter) {
	host, port, _ := net.SplitHostPort(c.addr())
	no, _ := strconv.Atoi(port)
	w.i32(1)
	w.str(host)
	w.i32(int32(no))
}

func (c *kcluster) metadata(r *kreader, w *kwriter) {
	var names []string
	if n := int(r.i32()); n < 0 {
		for t := range c.topics {
			names = append(names, t)
		}
		sort.Strings(names)
	} else {
		for ; n > 0; n-- {
			names = append(names, r.str())
		}
	}
	w.i32(0)
	w.i32(1)
	c.self(w)
	w.i16(-1)
	w.i16(-1)
	w.i32(1)
	w.i32(int32(len(names)))
	for _, t := range names {
		parts, known := c.topics[t]
		if known {
			w.i16(0)
		} else {
			w.i16(3)
		}
		w.str(t)
		w.i8(0)
		w.i32(int32(len(parts)))
		for p := range parts {
			w.i16(0)
			w.i32(int32(p))
			w.i32(1)
			w.i32(1)
			w.i32(1)
			w.i32(1)
			w.i32(1)
			w.i32(0)
		}
	}
}

func (c *kcluster) create(r *kreader, w *kwriter) {
	n := int(r.i32())
	w.i32(int32(n))
	for ; n > 0; n-- {
		name := r.str()
		parts := r.i32()
		r.i16()
		for k := r.i32(); k > 0; k-- {
			r.i32()
			for j := r.i32(); j > 0; j-- {
				r.i32()
			}
		}
		for k := r.i32(); k > 0; k-- {
			r.str()
			r.str()
		}
		w.str(name)
		if _, known := c.topics[name]; known {
			w.i16(36)
		} else if parts < 1 || parts > 100 {
			w.i16(37)
		} else {
			c.topics[name] = make([][]kbatch, parts)
			w.i16(0)
		}
		w.i16(-1)
	}
}

func (c *kcluster) produce(r *kreader, w *kwriter) bool {
	r.str()
	acks := r.i16()
	r.i32()
	topics := int(r.i32())
	w.i32(int32(topics))
	for ; topics > 0; topics-- {
		topic := r.str()
		w.str(topic)
		parts := int(r.i32())
		w.i32(int32(parts))
		for ; parts > 0; parts-- {
			p := r.i32()
			raw := r.blob()
			code, base := int16(3), int64(-1)
			if logs := c.topics[topic]; int(p) < len(logs) && len(raw) > 61 {
				base = 0
				if n := len(logs[p]); n > 0 {
					base = logs[p][n-1].next
				}
				if raw[16] != 2 {
					fault("unexpected record batch")
				}
				binary.BigEndian.PutUint64(raw, uint64(base))
				logs[p] = append(logs[p], kbatch{base, base + int64(binary.BigEndian.Uint32(raw[57:])), raw})
				code = 0
			}
			w.i32(p)
			w.i16(code)
			w.i64(base)
			w.i64(-1)
		}
	}
	w.i32(0)
	return acks != 0
}

// wait lets other requests run until the condition holds; false after the time is up
func (c *kcluster) wait(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for !f() {
		if c.closed || time.Now().After(end) {
			return false
		}
		c.cond.Wait()
	}
	return true
}

func (c *kcluster) join(r *kreader, w *kwriter, peer *kpeer) {
	r.str()
	timeout := time.Duration(r.i32()) * time.Millisecond
	patience := time.Duration(r.i32()) * time.Millisecond
	id := r.str()
	r.str()
	var proto string
	var meta []byte
	for n := r.i32(); n > 0; n-- {
		name, m := r.str(), r.blob()
		if proto == "" {
			proto, meta = name, m
		}
	}
	if id == "" {
		c.count++
		id = "member-" + strconv.Itoa(c.count)
	} else if c.members[id] == nil {
		w.i16(25)
		w.i32(-1)
		w.str("")
		w.str("")
		w.str("")
		w.i32(0)
		return
	}
	if c.members[id] == nil {
		c.members[id] = &kmember{}
		c.order = append(c.order, id)
	}
	m := c.members[id]
	m.meta, m.peer, m.timeout = meta, peer, timeout
	if patience > c.patience {
		c.patience = patience
	}
	c.rebalance()
	ch := make(chan bool)
	m.joined, m.waiting = ch, true
	c.cond.Broadcast()
	begins := func() bool {
		select {
		case <-ch:
			return true
		default:
			return false
		}
	}
	ok := c.wait(5*time.Minute, func() bool { return begins() || c.members[id] != m })
	m.waiting = false
	c.alive(id)
	if !ok || c.members[id] != m {
		w.i16(25)
		w.i32(-1)
		w.str("")
		w.str("")
		w.str("")
		w.i32(0)
		return
	}
	w.i16(0)
	w.i32(c.generation)
	w.str(proto)
	w.str(c.leader)
	w.str(id)
	if id != c.leader {
		w.i32(0)
		return
	}
	w.i32(int32(len(c.order)))
	for _, x := range c.order {
		w.str(x)
		w.bytes(c.members[x].meta)
	}
}

// rebalance makes a new generation, once all members have joined again.
func (c *kcluster) rebalance() {
	if c.preparing {
		return
	}
	c.preparing = true
	c.round++
	round := c.round
	for _, x := range c.members {
		x.joined = nil
	}
	begun, delay := time.Now(), c.delay
	if len(c.members) > 1 {
		delay = 0
	}
	go func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		c.wait(c.patience, func() bool {
			all := time.Since(begun) >= delay || !c.preparing || c.round != round
			for _, x := range c.members {
				all = all && x.joined != nil
			}
			return all
		})
		if !c.preparing || c.round != round {
			return
		}
		for i := 0; i < len(c.order); i++ {
			if x := c.members[c.order[i]]; x.joined == nil {
				c.trouble(x)
				delete(c.members, c.order[i])
				c.order = append(c.order[:i:i], c.order[i+1:]...)
				i--
			}
		}
		c.preparing = false
		c.generation++
		c.assigned = nil
		c.fetching = map[string]bool{}
		if len(c.order) > 0 {
			c.leader = c.order[0]
		}
		for _, x := range c.members {
			close(x.joined)
			x.joined = nil
		}
		c.cond.Broadcast()
	}()
}

func (c *kcluster) code(gen int32, id string) int16 {
	c.alive(id)
	switch {
	case c.members[id] == nil:
		return 25
	case gen != c.generation:
		return 22
	case c.preparing:
		return 27
	}
	return 0
}

func (c *kcluster) sync(r *kreader, w *kwriter) {
	r.str()
	gen, id := r.i32(), r.str()
	plan := map[string][]byte{}
	for n := r.i32(); n > 0; n-- {
		x := r.str()
		plan[x] = r.blob()
	}
	code := c.code(gen, id)
	if code == 0 && id == c.leader {
		c.assigned = plan
		c.cond.Broadcast()
	}
	if code == 0 {
		c.wait(20*time.Second, func() bool { return c.assigned != nil || c.code(gen, id) != 0 })
		code = c.code(gen, id)
	}
	w.i16(code)
	if code == 0 {
		w.bytes(c.assigned[id])
	} else {
		w.i32(0)
	}
}

func (c *kcluster) heartbeat(r *kreader, w *kwriter) {
	r.str()
	gen := r.i32()
	w.i16(c.code(gen, r.str()))
}

func (c *kcluster) leave(id string) {
	if c.members[id] == nil {
		return
	}
	delete(c.members, id)
	for i, x := range c.order {
		if x == id {
			c.order = append(c.order[:i:i], c.order[i+1:]...)
			break
		}
	}
	if len(c.members) > 0 {
		c.rebalance() // the others have to join again
	}
}

func (c *kcluster) offsetFetch(r *kreader, w *kwriter, peer *kpeer) {
	r.str()
	topics := r.i32()
	w.i32(topics)
	for ; topics > 0; topics-- {
		t := r.str()
		w.str(t)
		parts := r.i32()
		w.i32(parts)
		for ; parts > 0; parts-- {
			p := r.i32()
			if peer != nil {
				c.event(M{"e": "claim", "m": peer.name, "p": int(p) + 1})
			}
			w.i32(p)
			if off, ok := c.offs[t][p]; ok {
				w.i64(off)
			} else {
				w.i64(-1)
			}
			w.str("")
			w.i16(0)
		}
	}
}

func (c *kcluster) offsetCommit(r *kreader, w *kwriter, version int16, peer *kpeer) {
	r.str()
	gen, id := r.i32(), r.str()
	if version == 2 {
		r.i64()
	}
	code := c.code(gen, id)
	if code == 27 {
		code = 0 // allowed while others join
	}
	topics := r.i32()
	w.i32(topics)
	for ; topics > 0; topics-- {
		t := r.str()
		w.str(t)
		parts := r.i32()
		w.i32(parts)
		for ; parts > 0; parts-- {
			p := r.i32()
			off := r.i64()
			if version == 1 {
				r.i64()
			}
			r.str()
			if code == 0 {
				if c.offs[t] == nil {
					c.offs[t] = map[int32]int64{}
				}
				c.offs[t][p] = off
				if peer != nil {
					c.event(M{"e": "commit", "m": peer.name, "p": int(p) + 1, "n": int(off)})
				}
			}
			w.i32(p)
			w.i16(code)
		}
	}
}

func (c *kcluster) end(t string, p int32) int64 {
	logs := c.topics[t]
	if int(p) >= len(logs) || len(logs[p]) == 0 {
		return 0
	}
	return logs[p][len(logs[p])-1].next
}

func (c *kcluster) listOffsets(r *kreader, w *kwriter) {
	r.i32()
	topics := r.i32()
	w.i32(topics)
	for ; topics > 0; topics-- {
		t := r.str()
		w.str(t)
		parts := r.i32()
		w.i32(parts)
		for ; parts > 0; parts-- {
			p := r.i32()
			at := r.i64()
			w.i32(p)
			w.i16(0)
			w.i64(-1)
			if at == -1 {
				w.i64(c.end(t, p))
			} else {
				w.i64(c.low[t][p])
			}
		}
	}
}

// retain deletes what is before off; whole batches only, as brokers do.
func (c *kcluster) retain(t string, p int32, off int64) int64 {
	logs := c.topics[t][p]
	for len(logs) > 1 && logs[0].next <= off {
		logs = logs[1:]
		if c.low[t] == nil {
			c.low[t] = map[int32]int64{}
		}
		c.low[t][p] = logs[0].base
	}
	c.topics[t][p] = logs
	return c.low[t][p]
}

func (c *kcluster) fetch(r *kreader, w *kwriter) {
	r.i32()
	maxWait := time.Duration(r.i32()) * time.Millisecond
	minBytes := r.i32()
	r.i32()
	r.i8()
	type want struct {
		t   string
		p   int32
		off int64
		max int32
	}
	var wants []want
	for topics := r.i32(); topics > 0; topics-- {
		t := r.str()
		for parts := r.i32(); parts > 0; parts-- {
			x := want{t: t, p: r.i32(), off: r.i64(), max: r.i32()}
			c.fetching[t+"/"+strconv.Itoa(int(x.p))] = true
			wants = append(wants, x)
		}
	}
	have := func(x want) (raw []byte) {
		if x.off < c.low[x.t][x.p] {
			return
		}
		if logs := c.topics[x.t]; int(x.p) < len(logs) {
			for _, b := range logs[x.p] {
				if b.next > x.off && (len(raw) == 0 || len(raw)+len(b.raw) <= int(x.max)) {
					raw = append(raw, b.raw...)
				} else if len(raw) > 0 {
					break
				}
			}
		}
		return
	}
	if maxWait > time.Second {
		maxWait = time.Second
	}
	c.wait(maxWait, func() bool {
		n := 0
		for _, x := range wants {
			n += len(have(x))
		}
		return n >= int(minBytes)
	})
	var topics []string
	byTopic := map[string][]want{}
	for _, x := range wants {
		if byTopic[x.t] == nil {
			topics = append(topics, x.t)
		}
		byTopic[x.t] = append(byTopic[x.t], x)
	}
	w.i32(0)
	w.i32(int32(len(topics)))
	wants = nil
	counts := map[int]int{}
	for _, t := range topics {
		counts[len(wants)] = len(byTopic[t])
		wants = append(wants, byTopic[t]...)
	}
	for i, x := range wants {
		if counts[i] > 0 {
			w.str(x.t)
			w.i32(int32(counts[i]))
		}
		w.i32(x.p)
		end := c.end(x.t, x.p)
		if x.off > end || x.off < c.low[x.t][x.p] {
			w.i16(1)
		} else {
			w.i16(0)
		}
		w.i64(end)
		w.i64(end)
		w.i32(0)
		if x.off < c.low[x.t][x.p] {
			w.i32(0)
		} else {
			w.bytes(have(x))
		}
	}
}
