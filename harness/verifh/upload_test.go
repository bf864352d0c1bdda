//go:build verif_handlers
// +build verif_handlers

package verifh

import (
	"bytes"
	"compress/gzip"
	"context"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/julienschmidt/httprouter"
	"github.com/rcrowley/go-metrics"
)

type doors struct {
	handler http.Handler
	spans   chan proxy.Span
	mu      sync.Mutex
	got     []proxy.Span
	quit    chan bool
	slow    func()
}

func openDoors(capacity int, slow func()) *doors {
	d := &doors{spans: make(chan proxy.Span, capacity), quit: make(chan bool), slow: slow}
	router := httprouter.New()
	zipkinproxy.VerifHandleSpans(router, d.spans)
	d.handler = zipkinproxy.VerifHandleGzip(router)
	go func() {
		for sp := range d.spans {
			if d.slow != nil {
				d.slow()
			}
			d.mu.Lock()
			d.got = append(d.got, sp)
			d.mu.Unlock()
		}
		close(d.quit)
	}()
	return d
}

// close waits for everything that has entered
func (d *doors) close() []proxy.Span {
	close(d.spans)
	<-d.quit
	return d.got
}

// one upload on its own, without a network
func alone(rng *rand.Rand, u *upload) M {
	d := openDoors(pick(rng, 0, 0, 1, 256), nil)
	req := httptest.NewRequest("POST", u.path(), nil)
	req.Body = ioutil.NopCloser(randChunks(rng, u.raw, u.rawEnd))
	req.ContentLength = -1
	if rng.Intn(2) == 0 { // the client tells it before
		n := len(u.raw)
		if u.rawEnd != io.EOF {
			n += 1 + rng.Intn(100)
		}
		req.ContentLength = int64(n)
		req.Header.Set("Content-Length", strconv.Itoa(n))
		if n == 0 {
			req.Body = http.NoBody
		}
	}
	if u.ct != "" {
		req.Header.Set("Content-Type", u.ct)
	}
	if u.gz {
		req.Header.Set("Content-Encoding", "gzip")
	}
	rec := httptest.NewRecorder()
	d.handler.ServeHTTP(rec, req)
	return u.log(rec.Code, d.close())
}

type uploadLog struct {
	id    string
	n     int
	size  int
	extra int
	cases []M
}

func (l *uploadLog) add(c M) {
	l.cases = append(l.cases, c)
	if l.size += len(c["w"].([]int)); l.size > 5000 || len(l.cases) >= 40 {
		l.flush()
	}
}

func (l *uploadLog) flush() {
	if len(l.cases) > 0 {
		emitLine(M{"id": l.id + "-" + strconv.Itoa(l.n), "cases": l.cases, "extra": l.extra, "large": false})
		l.cases, l.size = nil, 0
		l.n++
	}
}

func TestUpload(t *testing.T) {
	l := &uploadLog{id: "upload" + shardName()}
	n := 0
	next := func(what string) bool {
		n++
		if mine(n) {
			begin("upload-" + what + "-" + strconv.Itoa(n))
			return true
		}
		return false
	}
	formats := []string{"v1", "v2", "jaeger"}
	small := map[string]*jv{
		"v1": jA(jO(jm{"traceId", jP("1f")}, jm{"id", jP("2")}, jm{"name", jS("n\"")}, jm{"annotations", jA(jO(jm{"timestamp", jU(15)}, jm{"value", jS("cs")}))},
			jm{"binaryAnnotations", jA(jO(jm{"key", jS("k")}, jm{"value", jL("true")}, jm{"endpoint", jO(jm{"serviceName", jS("s")})}))}), jO(jm{"id", jP("3")})),
		"v2": jA(jO(jm{"traceId", jP("1f")}, jm{"id", jP("2")}, jm{"parentId", jL("null")}, jm{"duration", jU(15)}, jm{"tags", jD(jm{"k\\", jS("v")})},
			jm{"x", jA(jN("1.5e3"), jO())}), jO(jm{"id", jP("3")})),
		"jaeger": jO(jm{"data", jA(jO(jm{"spans", jA(jO(jm{"traceID", jP("1f")}, jm{"spanID", jP("2")}, jm{"tags", jA(jO(jm{"key", jS("k")}, jm{"value", jS("v")}))}), jO(jm{"spanID", jP("3")}))},
			jm{"processes", jD(jm{"p", jO(jm{"serviceName", jS("s")})})}))}),
	}
	for fi, f := range formats {
		rng := rand.New(rand.NewSource(seed()*7 + int64(fi)))
		w := plainStyle().render(small[f])
		// cut off anywhere, ended or broken off, plain or compressed
		for i := 0; i <= len(w); i++ {
			for k := 0; k < 3; k++ {
				if !next("cut") {
					continue
				}
				u := newUpload(rng, f)
				u.desc = fmt.Sprintf("first %d bytes", i)
				switch k {
				case 0:
					u.asPlain(w[:i], io.EOF)
				case 1:
					u.asPlain(w[:i], errBroken)
				case 2:
					u.asZip(zip(rng, w[:i]), io.EOF)
				}
				l.add(alone(rng, u))
			}
		}
		// the compressed stream cut off anywhere, or with one byte changed
		for k := 0; k < 2; k++ {
			raw := zip(rand.New(rand.NewSource(seed()*31+int64(fi*2+k))), w) // the same in all shards
			for i := 0; i < len(raw); i++ {
				for k := 0; k < 3; k++ {
					if !next("stream") {
						continue
					}
					u := newUpload(rng, f)
					u.desc = fmt.Sprintf("byte %d of the stream", i)
					switch k {
					case 0:
						u.asZip(raw[:i], io.EOF)
					case 1:
						u.asZip(raw[:i], errBroken)
					case 2:
						x := append([]byte(nil), raw...)
						x[i] ^= byte(1 << uint(rng.Intn(8)))
						u.asZip(x, io.EOF)
					}
					l.add(alone(rng, u))
				}
			}
		}
		// each byte missing, doubled or changed
		for i := 0; i < len(w); i++ {
			for k := 0; k < 4; k++ {
				if !next("byte") {
					continue
				}
				u := newUpload(rng, f)
				u.desc = fmt.Sprintf("byte %d", i)
				x := append([]byte(nil), w[:i]...)
				switch k {
				case 0:
					x = append(x, w[i+1:]...)
				case 1:
					x = append(append(x, w[i]), w[i:]...)
				default:
					x = append(append(x, "[]{}\"\\,:0x n"[rng.Intn(12)]), w[i+1:]...)
				}
				u.asPlain(x, io.EOF)
				l.add(alone(rng, u))
			}
		}
	}
	runs := 800
	if thorough() {
		runs = 20000
	}
	for i := 0; i < runs; i++ {
		if !next("random") {
			continue
		}
		rng := rand.New(rand.NewSource(seed()*1000003 + int64(i)))
		f := formats[i%3]
		st := randStyle(rng)
		st.anyCase = f != "jaeger"
		g := &docGen{rng: rng}
		if i%50 == 0 {
			g.long = 2500
		}
		l.add(alone(rng, randUpload(rng, f, g.doc(f, pick(rng, 0, 1, 1, 2, 3)), st, false)))
	}
	// more spans than the channel holds
	for i, count := range []int{255, 256, 257, 300, 600} {
		if next("many") {
			rng := rand.New(rand.NewSource(seed() + int64(i)))
			f := formats[i%3]
			v := jA()
			for j := 0; j < count; j++ {
				v.a = append(v.a, jO(jm{map[string]string{"v1": "id", "v2": "id", "jaeger": "spanID"}[f], jP(strconv.FormatInt(int64(j), 16))}))
			}
			if i%2 == 1 { // the last one is wrong
				v.a = append(v.a, jN("1"))
			}
			if f == "jaeger" {
				v = jO(jm{"data", jA(jO(jm{"spans", v}))})
			}
			u := newUpload(rng, f)
			u.asPlain(plainStyle().render(v), io.EOF)
			l.add(alone(rng, u))
			l.flush()
		}
	}
	l.flush()
}

// TestUploadLarge sends documents of up to 40 MB, in which a part comes many times.
func TestUploadLarge(t *testing.T) {
	sizes := []int{70000, 1100000, 5000000, 12000000, 40000000}
	if thorough() {
		sizes = append(sizes, 300000, 2500000, 20000000, 100000000)
	}
	n := 0
	for fi, f := range []string{"v1", "v2", "jaeger"} {
		head, end := "[", "]"
		id, trace := "id", "traceId"
		if f == "jaeger" {
			head, end = `{"data":[{"spans":[`, "]}]}"
			id, trace = "spanID", "traceID"
		}
		span := fmt.Sprintf(`{%q:"1f",%q:"2e"}`, trace, id)
		for si, size := range sizes {
			for kind := 0; kind < 4; kind++ {
				if n++; !mine(n) {
					continue
				}
				name := fmt.Sprintf("large-%s-%d-%d", f, size, kind)
				begin(name)
				rng := rand.New(rand.NewSource(seed()*101 + int64(n)))
				h, item, tail := head+span, ","+span, end
				switch kind {
				case 0: // spans
				case 1: // spans, and the end is missing
					tail = end[:len(end)-1]
				case 2: // space before, between or after the spans, or unknown members
					item = " "
					h = head
					switch rng.Intn(4) {
					case 0:
						h, tail = "", head+span+end
					case 1:
						tail = span + `,{"id":"3"}` + end
					case 2:
						h = head + span
						tail = end
					case 3:
						h, item, tail = head+span[:len(span)-1], `,"unknown":[1,"x",{"y":null}]`, "}"+end
					}
				case 3: // the same, and the end is wrong
					h, item = head, " "
					tail = span + ",1" + end
				}
				count := size / len(item)
				w := append(append([]byte(h), bytes.Repeat([]byte(item), count)...), tail...)
				u := newUpload(rng, f)
				if (fi+si+kind)%2 == 0 {
					var b bytes.Buffer
					z, err := gzip.NewWriterLevel(&b, []int{gzip.NoCompression, gzip.DefaultCompression, gzip.BestSpeed}[n%3])
					must(err)
					z.Write(w)
					must(z.Close())
					u.gz, w = true, b.Bytes()
				}
				d := openDoors(pick(rng, 0, 1, 256), nil)
				req := httptest.NewRequest("POST", u.path(), bytes.NewReader(w))
				if u.ct != "" {
					req.Header.Set("Content-Type", u.ct)
				}
				if u.gz {
					req.Header.Set("Content-Encoding", "gzip")
				}
				rec := httptest.NewRecorder()
				d.handler.ServeHTTP(rec, req)
				runs := []M{}
				var last proxy.Span
				for _, sp := range d.close() {
					if len(runs) == 0 || !reflect.DeepEqual(sp, last) {
						last = sp
						runs = append(runs, M{"n": 0, "span": wireSpans([]proxy.Span{sp})[0]})
					}
					runs[len(runs)-1]["n"] = runs[len(runs)-1]["n"].(int) + 1
				}
				if len(runs) > 20 {
					runs = runs[:20]
				}
				emitLine(M{"id": name, "large": true, "extra": 0, "cases": []M{{"fmt": f, "head": ints([]byte(h)), "item": ints([]byte(item)), "n": count,
					"tail": ints([]byte(tail)), "status": rec.Code, "runs": runs, "desc": name}}})
			}
		}
	}
}

// ---------------------------------------------------------------------------

// TestUploadTogether sends many uploads at the same time through a real server, while the
// spans are taken slowly.  The names of the spans tell which upload they come from.
func TestUploadTogether(t *testing.T) {
	runs := 10
	if thorough() {
		runs = 120
	}
	for i := 0; i < runs; i++ {
		if !mine(i) {
			continue
		}
		id := "together-" + strconv.Itoa(i)
		begin(id)
		rng := rand.New(rand.NewSource(seed()*1000003 + int64(i)))
		var pause sync.Mutex
		d := openDoors(pick(rng, 0, 1, 8, 256), func() {
			pause.Lock()
			pause.Unlock()
		})
		n := pick(rng, 5, 20, 40)
		status := make([]int, n)
		uploads := make([]*upload, n)
		var smu sync.Mutex
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			rec := &statusWriter{ResponseWriter: w}
			d.handler.ServeHTTP(rec, r)
			k, err := strconv.Atoi(r.Header.Get("X-Upload"))
			must(err)
			smu.Lock()
			status[k] = rec.status
			smu.Unlock()
		}))
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			f := []string{"v1", "v2", "jaeger"}[rng.Intn(3)]
			krng := rand.New(rand.NewSource(rng.Int63()))
			v := (&docGen{rng: krng}).doc(f, pick(rng, 1, 2, 5, 12))
			name(v, f, "u"+strconv.Itoa(k)+"-")
			st := randStyle(krng)
			st.anyCase = f != "jaeger"
			u := randUpload(krng, f, v, st, true)
			if u.rawEnd == io.EOF && rng.Intn(6) == 0 { // the client goes away
				raw := u.raw[:rng.Intn(len(u.raw)+1)]
				if u.gz {
					u.asZip(raw, io.ErrUnexpectedEOF)
				} else {
					u.asPlain(raw, io.ErrUnexpectedEOF)
				}
				u.desc += ", connection closed"
			}
			uploads[k] = u
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				send(krng, srv.Listener.Addr().String(), k, u)
			}(k)
		}
		// take the spans in bursts
		go func() {
			for x := 0; x < 5; x++ {
				pause.Lock()
				time.Sleep(5 * time.Millisecond)
				pause.Unlock()
				time.Sleep(time.Millisecond)
			}
		}()
		wg.Wait()
		srv.CloseClientConnections()
		srv.Close() // waits for the handlers
		got := d.close()
		by := map[int][]proxy.Span{}
		extra := 0
		for _, sp := range got {
			var k int
			if _, err := fmt.Sscanf(sp.Name, "u%d-", &k); err != nil || k >= n {
				extra++
				continue
			}
			by[k] = append(by[k], sp)
		}
		l := &uploadLog{id: id, extra: extra}
		for k, u := range uploads {
			l.add(u.log(status[k], by[k]))
		}
		l.flush()
	}
}

// slowBody arrives piece by piece, and tells when all of it has been read
type slowBody struct {
	r    io.Reader
	rng  *rand.Rand
	slow time.Duration
	end  func()
}

func (b *slowBody) Read(p []byte) (int, error) {
	if b.slow > 0 && b.rng.Intn(3) == 0 {
		time.Sleep(time.Duration(b.rng.Int63n(int64(b.slow))))
	}
	n, err := b.r.Read(p)
	if err != nil {
		b.end()
	}
	return n, err
}

// TestUploadStall has bodies that come slowly, and spans that are taken late: after seconds, minutes
// or hours (in virtual time).  Some clients are gone by then.
func TestUploadStall(t *testing.T) {
	metrics.NewMeter() // starts a goroutine that must not be in the bubble
	runs := 24
	if thorough() {
		runs = 400
	}
	synctest.Test(t, func(t *testing.T) {
		for i := 0; i < runs; i++ {
			if mine(i) {
				begin("stall-" + strconv.Itoa(i))
				uploadStall("stall-"+strconv.Itoa(i), rand.New(rand.NewSource(seed()*1000003+int64(i))))
			}
		}
	})
}

func uploadStall(id string, rng *rand.Rand) {
	scale := []time.Duration{time.Millisecond, time.Second, time.Minute, time.Hour}[rng.Intn(4)]
	var naps sync.Mutex
	napper := rand.New(rand.NewSource(rng.Int63()))
	nap := func() {
		naps.Lock()
		d := time.Duration(0)
		if napper.Intn(3) == 0 {
			d = time.Duration(napper.Int63n(int64(scale)))
		}
		naps.Unlock()
		time.Sleep(d)
	}
	d := openDoors(pick(rng, 0, 1, 8, 256), nap)
	n := pick(rng, 1, 3, 12)
	status, gone, uploads := make([]int, n), make([]bool, n), make([]*upload, n)
	answered := make(chan bool, n)
	for k := 0; k < n; k++ {
		f := []string{"v1", "v2", "jaeger"}[rng.Intn(3)]
		krng := rand.New(rand.NewSource(rng.Int63()))
		v := (&docGen{rng: krng}).doc(f, pick(rng, 1, 2, 5, 12))
		name(v, f, "u"+strconv.Itoa(k)+"-")
		st := randStyle(krng)
		st.anyCase = f != "jaeger"
		u := randUpload(krng, f, v, st, true)
		uploads[k] = u
		ctx, cancel := context.WithCancel(context.Background())
		leaves, after := rng.Intn(3) == 0, time.Duration(rng.Int63n(int64(scale)))
		body := &slowBody{r: randChunks(krng, u.raw, u.rawEnd), rng: krng, end: func() {}}
		if rng.Intn(2) == 0 {
			body.slow = scale
		}
		if leaves {
			gone[k] = true
			body.end = func() { time.AfterFunc(after, cancel) }
		}
		req := httptest.NewRequest("POST", u.path(), nil).WithContext(ctx)
		req.Body = ioutil.NopCloser(body)
		req.ContentLength = -1
		if u.ct != "" {
			req.Header.Set("Content-Type", u.ct)
		}
		if u.gz {
			req.Header.Set("Content-Encoding", "gzip")
		}
		go func(k int) {
			rec := httptest.NewRecorder()
			d.handler.ServeHTTP(rec, req)
			status[k] = rec.Code
			answered <- true
		}(k)
	}
	limit := time.After(100000 * time.Hour)
	for k := 0; k < n; k++ {
		select {
		case <-answered:
		case <-limit:
			emitLine(M{"id": id, "cases": []M{}, "extra": 1, "large": false}) // no answer at all
			os.Exit(0)
		}
	}
	by := map[int][]proxy.Span{}
	extra := 0
	for _, sp := range d.close() {
		var k int
		if _, err := fmt.Sscanf(sp.Name, "u%d-", &k); err != nil || k >= n {
			extra++
			continue
		}
		by[k] = append(by[k], sp)
	}
	l := &uploadLog{id: id, extra: extra}
	for k, u := range uploads {
		if gone[k] && status[k] != 202 && len(by[k]) == 0 {
			continue // nobody is there to see the answer
		}
		l.add(u.log(status[k], by[k]))
	}
	l.flush()
}

type statusWriter struct {
	http.ResponseWriter
	status int
}

func (w *statusWriter) WriteHeader(s int) {
	if w.status == 0 {
		w.status = s
	}
	w.ResponseWriter.WriteHeader(s)
}
