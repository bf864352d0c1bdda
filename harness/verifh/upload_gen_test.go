package verifh

import (
	"bytes"
	"compress/gzip"
	"context"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Uploads to the handlers: what is answered and which spans come out of the channel.

type upload struct {
	format string
	ct     string
	w      []byte // the document, or as much of it as arrives
	broken bool   // an error comes after that
	gz     bool
	raw    []byte // what is sent
	rawEnd error
	desc   string
}

func (u *upload) path() string { return "/api/" + u.format + "/spans" }

func (u *upload) log(status int, spans []proxy.Span) M {
	return M{"fmt": u.format, "json": strings.Contains(u.ct, "application/json"), "w": ints(u.w), "broken": u.broken, "status": status,
		"spans": wireSpans(spans), "desc": u.desc}
}

func zip(rng *rand.Rand, w []byte) []byte {
	var b bytes.Buffer
	for {
		z, err := gzip.NewWriterLevel(&b, pick(rng, 0, 1, 6, 9, -2))
		must(err)
		k := len(w)
		if rng.Intn(4) == 0 { // several members
			k = rng.Intn(len(w) + 1)
		}
		if rng.Intn(3) == 0 {
			z.Name = "x"
		}
		z.Write(w[:k])
		if rng.Intn(3) == 0 {
			must(z.Flush())
		}
		must(z.Close())
		if w = w[k:]; len(w) == 0 {
			return b.Bytes()
		}
	}
}

// asZip makes a compressed upload of raw, which need not be a correct one.
func (u *upload) asZip(raw []byte, end error) {
	u.gz, u.raw, u.rawEnd = true, raw, end
	u.w, u.broken = nil, true
	z, err := gzip.NewReader(&chunks{data: append([]byte(nil), raw...), end: end})
	if err == nil {
		u.w, err = ioutil.ReadAll(z)
		u.broken = err != nil
	}
}

func (u *upload) asPlain(w []byte, end error) {
	u.raw, u.rawEnd, u.w, u.broken = w, end, w, end != io.EOF
}

var jsonTypes = []string{"application/json", "application/json; charset=utf-8", "application/json;charset=UTF-8"}

func newUpload(rng *rand.Rand, format string) *upload {
	u := &upload{format: format, ct: jsonTypes[rng.Intn(len(jsonTypes))]}
	if format != "v1" && rng.Intn(3) == 0 {
		u.ct = []string{"", "text/plain", "application/octet-stream"}[rng.Intn(3)]
	}
	return u
}

// how a body may go wrong, or not; the names of spans stay the same if asked for
func randUpload(rng *rand.Rand, format string, v *jv, st *style, named bool) *upload {
	u := newUpload(rng, format)
	w := st.render(v)
	end := io.EOF
	what := rng.Intn(9)
	switch what {
	case 0:
		u.desc = "truncated"
		w = w[:rng.Intn(len(w))]
	case 1:
		if named {
			break
		}
		u.desc = "mutated"
		w = mutate(rng, w)
	case 2:
		u.desc = "broken"
		end = errBroken
		if rng.Intn(4) > 0 {
			w = w[:rng.Intn(len(w))]
		}
	case 3:
		u.desc = "wrong type"
		if named { // an odd one at the end
			c := *v
			at := &c
			if format == "jaeger" {
				at = v.m[0].v.a[len(v.m[0].v.a)-1].m[0].v
			}
			at.a = append(at.a[:len(at.a):len(at.a)], []*jv{jN("1"), jS("x"), jA(), jL("true")}[rng.Intn(4)])
			w = st.render(&c)
		} else {
			w = st.render(retype(rng, v))
		}
	case 4:
		u.desc = "with something after it"
		w = append(w, []string{"x", "]", "[{", "\x00\x00", "{\"id\":1}", "\"", "\n[]"}[rng.Intn(7)]...)
	case 5:
		if format == "v1" {
			u.desc = "not json"
			u.ct = []string{"", "application/x-thrift", "text/plain", "json", "application/jso"}[rng.Intn(5)]
		}
	}
	if rng.Intn(3) == 0 {
		raw := zip(rng, w)
		switch rng.Intn(8) {
		case 0:
			u.desc += ", stream truncated"
			raw = raw[:rng.Intn(len(raw))]
		case 1:
			if named {
				break
			}
			u.desc += ", stream damaged"
			raw = append([]byte(nil), raw...)
			raw[rng.Intn(len(raw))] ^= byte(1 << uint(rng.Intn(8)))
		case 2:
			if rng.Intn(2) == 0 {
				u.desc += ", not compressed at all"
				raw = w
			}
		}
		u.asZip(raw, end)
	} else {
		u.asPlain(w, end)
	}
	return u
}

// retype replaces a value somewhere by one of another type.
func retype(rng *rand.Rand, v *jv) *jv {
	c := *v
	n := len(c.a) + len(c.m)
	if n == 0 || rng.Intn(5) == 0 {
		return []*jv{jS("x"), jS("7"), jN("7"), jN("-1"), jN("1.5"), jN("1e3"), jL("true"), jL("null"), jA(), jA(jS("x")), jO(), jO(jm{"serviceName", jS("x")}), jD(jm{"k", jA()})}[rng.Intn(13)]
	}
	i := rng.Intn(n)
	c.a = append([]*jv(nil), c.a...)
	c.m = append([]jm(nil), c.m...)
	if i < len(c.a) {
		c.a[i] = retype(rng, c.a[i])
	} else {
		i -= len(c.a)
		c.m[i].v = retype(rng, c.m[i].v)
	}
	return &c
}

// name gives all spans of a document a name with this prefix.
func name(v *jv, format, prefix string) {
	spans := v.a
	key := "name"
	if format == "jaeger" {
		spans, key = nil, "operationName"
		for _, d := range v.m[0].v.a {
			spans = append(spans, d.m[0].v.a...)
		}
	}
	for _, s := range spans {
		found := false
		for i := range s.m {
			if s.m[i].k == key {
				s.m[i].v = jS(prefix + s.m[i].v.s)
				found = true
			}
		}
		if !found {
			s.add(key, jS(prefix))
		}
	}
}

// send writes the request with plain sockets, to be able to break off; the answer's status, or -1
func send(rng *rand.Rand, addr string, k int, u *upload) int {
	var d net.Dialer
	conn, err := d.DialContext(context.Background(), "tcp", addr)
	must(err)
	defer conn.Close()
	chunked := rng.Intn(2) == 0
	var b bytes.Buffer
	fmt.Fprintf(&b, "POST %s HTTP/1.1\r\nHost: x\r\nX-Upload: %d\r\nConnection: close\r\n", u.path(), k)
	if u.ct != "" {
		fmt.Fprintf(&b, "Content-Type: %s\r\n", u.ct)
	}
	if u.gz {
		fmt.Fprintf(&b, "Content-Encoding: gzip\r\n")
	}
	short := u.rawEnd != io.EOF
	if chunked {
		fmt.Fprintf(&b, "Transfer-Encoding: chunked\r\n\r\n")
		for raw := u.raw; len(raw) > 0; {
			c := 1 + rng.Intn(len(raw))
			fmt.Fprintf(&b, "%x\r\n%s\r\n", c, raw[:c])
			raw = raw[c:]
		}
		if !short {
			b.WriteString("0\r\n\r\n")
		}
	} else {
		l := len(u.raw)
		if short {
			l += 1 + rng.Intn(100)
		}
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", l)
		b.Write(u.raw)
	}
	all := b.Bytes()
	for len(all) > 0 {
		c := 1 + rng.Intn(len(all))
		if _, err := conn.Write(all[:c]); err != nil {
			break // the server has answered already
		}
		all = all[c:]
		if rng.Intn(3) == 0 {
			time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
		}
	}
	if short {
		_ = conn.(*net.TCPConn).CloseWrite()
	}
	answer, _ := ioutil.ReadAll(conn)
	status := -1
	if len(answer) > 12 {
		if v, err := strconv.Atoi(string(answer[9:12])); err == nil {
			status = v
		}
	}
	return status
}
