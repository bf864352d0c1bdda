package verifh

import (
	"encoding/json"
	"math/rand"
	"testing"
	"testing/synctest"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/sirupsen/logrus"
)

// Cases of single traces (enumerated by GenSpanTree.tla): the reports of many
// traces are sent through one aggregation loop, interleaved at random.

type treeCase struct {
	Id      string  `json:"id"`
	Reports []ASpan `json:"reports"`
}

const caseTrace = 9 // the abstract id of the trace in each case

func TestTree(t *testing.T) {
	var cases []treeCase
	readLines("VERIF_IN", func(raw []byte) {
		var c treeCase
		must(json.Unmarshal(raw, &c))
		cases = append(cases, c)
	})
	const batch = 500
	for lo := 0; lo < len(cases); lo += batch {
		if !mine(lo / batch) {
			continue
		}
		hi := lo + batch
		if hi > len(cases) {
			hi = len(cases)
		}
		begin(sprint("batch-", lo))
		if lo/batch%4 == 1 {
			// what is written to the log must not make a difference
			logrus.SetLevel(logrus.DebugLevel)
		}
		runCases(t, cases[lo:hi], rand.New(rand.NewSource(seed()*1000003+int64(lo))))
		logrus.SetLevel(logrus.PanicLevel)
	}
}

func runCases(t *testing.T, cases []treeCase, rng *rand.Rand) {
	synctest.Test(t, func(t *testing.T) {
		in, out := make(chan proxy.Span), make(chan proxy.Trace)
		go zipkinproxy.ErrorCorrectSpans(in, out)
		maps := make([]*Ids, len(cases))
		byTrace := map[proxy.Id]int{}
		next := make([]int, len(cases))
		var order []int
		for i, c := range cases {
			for {
				maps[i] = newIds(rng)
				id := maps[i].Conc(caseTrace)
				if _, used := byTrace[id]; !used {
					byTrace[id] = i
					break
				}
			}
			for range c.Reports {
				order = append(order, i)
			}
		}
		rng.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
		for _, i := range order {
			in <- maps[i].concSpan(caseTrace, cases[i].Reports[next[i]])
			next[i]++
		}
		outs := make([][][]ASpan, len(cases))
		timer := time.NewTimer(9 * time.Second)
		for done := false; !done; {
			select {
			case trace := <-out:
				if len(trace) == 0 {
					continue
				}
				i, ok := byTrace[trace[0].Trace]
				if !ok {
					// a trace that nobody sent; any case will do to report it
					i = 0
				}
				spans := []ASpan{}
				for _, sp := range trace {
					a := maps[i].absSpan(sp)
					if !ok || sp.Trace != trace[0].Trace {
						a.Id = -99
					}
					spans = append(spans, a)
				}
				outs[i] = append(outs[i], spans)
			case <-timer.C:
				done = true
			}
		}
		close(in)
		synctest.Wait()
		for i, c := range cases {
			if outs[i] == nil {
				outs[i] = [][]ASpan{}
			}
			emitLine(M{"id": c.Id, "reports": c.Reports, "outs": outs[i]})
		}
	})
}
