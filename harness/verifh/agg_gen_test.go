package verifh

import (
	"math/rand"
)

// Random scenarios for the aggregation loop.  They only say what is done and
// when; what has to come out is up to Aggregator.tla.

var aggFamilies = map[string]func(*rand.Rand) []aggScenario{
	"basic": genBasic, "content": genContent, "timing": genTiming, "load": genLoad, "large": genLarge,
	"old": genOld, "block": genBlock, "shed": genShed, "stall": genStall, "roots": genRoots, "merged": genMerged, "wide": genWide, "late": genLate,
}

func leaf(id, par int) *ASpan {
	return &ASpan{Id: id, Par: par, Name: sprint("n", id), Svc: "s", Ts: 1000 + 2*id, Dur: 20, Cs: EPOCH, Cr: EPOCH, Ss: EPOCH, Sr: EPOCH, Tags: [][2]string{{"k", sprint("v", id)}}}
}

// member is span number id of a trace in which span 1 is the root of all others.
func member(id int) *ASpan {
	if id == 1 {
		return leaf(1, 0)
	}
	return leaf(id, 1)
}

func count(quick, deep int) int {
	if thorough() {
		return deep
	}
	return quick
}

func pick(rng *rand.Rand, v ...int) int { return v[rng.Intn(len(v))] }

func (sc *aggScenario) add(tr int, sp *ASpan) {
	sc.Ops = append(sc.Ops, aggOp{O: "add", Tr: tr, Sp: sp})
}
func (sc *aggScenario) fill(tr, n int) {
	if n > 0 {
		sp := leaf(FILL, 1)
		sc.Ops = append(sc.Ops, aggOp{O: "add", Tr: tr, Sp: sp, N: n})
	}
}
func (sc *aggScenario) wait(ms int)  { sc.Ops = append(sc.Ops, aggOp{O: "wait", Ms: ms}) }
func (sc *aggScenario) align(ms int) { sc.Ops = append(sc.Ops, aggOp{O: "align", Ms: ms}) }
func (sc *aggScenario) op(o string)  { sc.Ops = append(sc.Ops, aggOp{O: o}) }

// trace adds a trace with n spans (a root and n-1 others).
func (sc *aggScenario) trace(tr, n int) {
	sc.add(tr, member(1))
	sc.fill(tr, n-1)
}

// Few traces and spans, everything possible, including ids of zero, reports
// that come twice, and trace ids that come back.
func genBasic(rng *rand.Rand) []aggScenario {
	var res []aggScenario
	for i := 0; i < count(40, 800); i++ {
		sc := aggScenario{Id: sprint("basic-", i), Room: pick(rng, 0, 0, 1, 64)}
		n := 5 + rng.Intn(40)
		for j := 0; j < n; j++ {
			switch rng.Intn(12) {
			case 0, 1, 2, 3, 4, 5, 6:
				sc.add(rng.Intn(5), member(rng.Intn(6)))
			case 7, 8, 9:
				sc.wait(pick(rng, 13, 100, 210, 990, 1730, 4390, 7900, 8020, 8150))
			case 10:
				sc.op("stall")
			case 11:
				sc.op("resume")
			}
		}
		res = append(res, sc)
	}
	return res
}

// Many spans with different content, in any order, and trace and span ids that
// coincide: what comes out is exactly what went in.
func genContent(rng *rand.Rand) []aggScenario {
	var res []aggScenario
	for i := 0; i < count(16, 200); i++ {
		sc := aggScenario{Id: sprint("content-", i)}
		traces := 1 + rng.Intn(6)
		for round := 0; round < 1+rng.Intn(3); round++ {
			type item struct{ tr, id int }
			var items []item
			for tr := 0; tr <= traces; tr++ {
				n := pick(rng, 1, 2, 3, 10, 40)
				if traces == 1 {
					n = pick(rng, 100, 180)
				}
				for id := 0; id <= n; id++ {
					for k := 0; k < pick(rng, 1, 1, 1, 1, 2, 3); k++ {
						items = append(items, item{tr, id})
					}
				}
			}
			rng.Shuffle(len(items), func(a, b int) { items[a], items[b] = items[b], items[a] })
			for _, it := range items {
				sc.add(it.tr, member(it.id))
				if rng.Intn(15) == 0 {
					sc.wait(pick(rng, 1, 7, 60, 140))
				}
			}
			if rng.Intn(2) == 0 {
				// some of the filler ids are random, and get mixed with the others
				sc.fill(1+rng.Intn(traces), 1+rng.Intn(400))
			}
			sc.wait(pick(rng, 3000, 8200, 8900, 12000))
		}
		res = append(res, sc)
	}
	return res
}

// When traces are handed on: quiet times, the last span deciding, coming back.
func genTiming(rng *rand.Rand) []aggScenario {
	var res []aggScenario
	for i := 0; i < count(40, 500); i++ {
		sc := aggScenario{Id: sprint("timing-", i)}
		sc.align(pick(rng, 0, 1, 37, 50, 99))
		for j := 0; j < 3+rng.Intn(20); j++ {
			sc.add(1+rng.Intn(4), member(1+rng.Intn(3)))
			switch rng.Intn(4) {
			case 0:
				sc.wait(pick(rng, 1, 99, 100, 101, 1000, 2000, 4000, 5999))
			case 1:
				sc.wait(pick(rng, 6001, 7800, 7899, 7900, 7901, 7999, 8000, 8001, 8099, 8100, 8101))
			case 2:
				sc.align(pick(rng, 0, 1, 50, 99))
			}
		}
		res = append(res, sc)
	}
	return res
}

// Buffer times under load, around the thresholds, with traces that are too
// large and do not count.
func genLoad(rng *rand.Rand) []aggScenario {
	var res []aggScenario
	totals := []int{39999, 40000, 40001, 59999, 60000, 79999, 80000, 99000}
	for i := 0; i < count(8, 60); i++ {
		sc := aggScenario{Id: sprint("load-", i)}
		total := totals[i%len(totals)]
		if i >= len(totals) {
			total = 20000 + rng.Intn(80000)
		}
		sc.align(pick(rng, 1, 50, 99, 0))
		tr := 1
		sc.add(tr, member(1)) // an early one
		tr++
		sc.wait(pick(rng, 1900, 2100, 3700, 5500))
		rest := total - 1
		if i%2 == 1 {
			sc.trace(tr, pick(rng, 8193, 12000)) // does not count
			tr++
		}
		for rest > 0 {
			n := pick(rng, 1, 500, 2000, 3500)
			if n > rest {
				n = rest
			}
			sc.trace(tr, n)
			tr++
			rest -= n
			if rng.Intn(12) == 0 {
				sc.wait(pick(rng, 1, 30))
			}
		}
		for sum := 0; sum < 9000; {
			w := pick(rng, 50, 100, 700, 1900, 2010, 3990)
			sum += w
			sc.wait(w)
			if rng.Intn(3) == 0 {
				sc.add(pick(rng, 1, tr), member(1+rng.Intn(2)))
			}
		}
		res = append(res, sc)
	}
	return res
}

// Traces around the size limit.
func genLarge(rng *rand.Rand) []aggScenario {
	var res []aggScenario
	sizes := []int{8191, 8192, 8193, 65535, 65536, 65537, 70000, 131073, 8194, 73728}
	for i := 0; i < count(len(sizes), 40); i++ {
		sc := aggScenario{Id: sprint("large-", i)}
		n := sizes[i%len(sizes)]
		if i >= len(sizes) {
			n = pick(rng, 8192, 8193, 8000+rng.Intn(400), 65536+rng.Intn(8200))
		}
		sc.align(1)
		sc.add(2, member(1))
		if rng.Intn(2) == 0 && n > 100 {
			// grown over several checks
			sc.trace(1, 50)
			sc.wait(pick(rng, 150, 3000))
			sc.fill(1, n-50)
		} else {
			sc.trace(1, n)
		}
		// reports of known spans do not make it larger
		for k := 0; k < 3; k++ {
			sc.add(1, member(1))
		}
		if i%2 == 1 {
			sc.wait(pick(rng, 110, 500)) // a check sees exactly this size
		} else {
			sc.wait(pick(rng, 1, 110, 500))
		}
		sc.add(2, member(2))
		sc.add(1, member(3))
		sc.wait(pick(rng, 99, 400, 3000))
		sc.add(1, member(4))
		sc.wait(pick(rng, 8300, 20000))
		sc.add(1, member(1))
		sc.add(1, member(2))
		sc.fill(1, 10)
		sc.add(2, member(2))
		sc.wait(9000)
		sc.add(1, member(3))
		res = append(res, sc)
	}
	// exactly the limit, and quiet: handed on
	for i := 0; i < count(2, 4); i++ {
		sc := aggScenario{Id: sprint("large-exact-", i)}
		sc.align(1)
		sc.trace(1, 8192)
		sc.trace(2, 8192+i%2)
		sc.wait(pick(rng, 8100, 9000))
		sc.add(1, member(2))
		sc.add(2, member(2))
		sc.wait(9000)
		sc.op("metrics")
		res = append(res, sc)
	}
	// too large at the very check that finds it too old, or quiet, as well
	for i := 0; i < count(4, 24); i++ {
		sc := aggScenario{Id: sprint("large-old-", i)}
		off := pick(rng, 1, 1, 40, 98)
		sc.align(off)
		sc.trace(1, 3)
		sc.add(2, member(1))
		step := pick(rng, 4000, 5000, 8000)
		for now := step; now <= 40000; now += step {
			sc.wait(step)
			sc.add(1, member(1+rng.Intn(3)))
			sc.add(2, member(1))
		}
		n := pick(rng, 8189, 8190, 8192, 9000)
		switch i % 4 {
		case 0, 1:
			sc.fill(1, n) // still fresh
		case 2:
			sc.wait(100 - off + 1) // already gone
			sc.fill(1, n)
		case 3:
			// quiet and too large: the trace that grows is a new one
			sc.trace(3, n)
			sc.fill(1, n)
		}
		sc.op("metrics")
		sc.wait(pick(rng, 150, 300))
		sc.op("metrics")
		sc.add(1, member(2))
		sc.add(2, member(2))
		sc.wait(9000)
		sc.op("metrics")
		sc.add(1, member(2))
		sc.op("metrics")
		res = append(res, sc)
	}
	return res
}

// Traces that go on and on.
func genOld(rng *rand.Rand) []aggScenario {
	var res []aggScenario
	for i := 0; i < count(20, 200); i++ {
		sc := aggScenario{Id: sprint("old-", i)}
		sc.align(pick(rng, 0, 1, 50, 99))
		base := pick(rng, 0, 0, 40000, 60000, 80000)
		buf := map[int]int{0: 8000, 40000: 6000, 60000: 4000, 80000: 2000}[base]
		if i%5 != 0 {
			base, buf = 0, 8000 // the loaded ones are slow
		}
		for rest, tr := base, 100; rest > 0; tr++ {
			sc.trace(tr, 2000)
			rest -= 2000
		}
		// keep traces alive, some of them until just before or after the limit
		limit := 5 * buf
		first := map[int]int{}
		now := 0
		stop := map[int]int{}
		for tr := 1; tr <= 4; tr++ {
			stop[tr] = limit + pick(rng, -3000, -150, -50, 0, 50, 150, 5000)
		}
		for now < limit+6000 {
			for tr := 1; tr <= 4; tr++ {
				if _, ok := first[tr]; !ok {
					first[tr] = now
				}
				if now-first[tr] <= stop[tr] {
					sc.add(tr, member(1+rng.Intn(4)))
				}
			}
			for tr, rest := 100, base; rest > 0; rest -= 2000 { // and the load
				sc.add(tr, member(1))
				tr++
			}
			w := pick(rng, buf/4, buf/2, buf*3/4)
			if base == 0 && rng.Intn(4) == 0 {
				w = pick(rng, 100, 101, 199, buf-100, buf-1)
			}
			sc.wait(w)
			now += w
		}
		if rng.Intn(2) == 0 {
			sc.wait(10000)
		}
		for tr := 1; tr <= 5; tr++ {
			sc.add(tr, member(1))
		}
		res = append(res, sc)
	}
	return res
}

// More blocked traces than the proxy remembers.
func genBlock(rng *rand.Rand) []aggScenario {
	var res []aggScenario
	sizes := []int{1022, 1023, 1024, 1030, 1200}
	for i := 0; i < count(len(sizes), 12); i++ {
		sc := aggScenario{Id: sprint("block-", i)}
		n := sizes[i%len(sizes)]
		sc.align(50)
		early := 0
		if rng.Intn(2) == 0 {
			early = 5 // blocked first
			for tr := 1; tr <= early; tr++ {
				sc.trace(tr, 8193)
			}
			sc.wait(200)
		}
		for k := 0; k < 6; k++ {
			sc.Ops = append(sc.Ops, aggOp{O: "many", Tr: early + 1, N: n - early, Sp: member(1)})
			sc.wait(pick(rng, 7300, 7500, 7700))
		}
		// they are all too old by now: probe a few, twice
		probe := PROBE
		for round := 0; round < 2; round++ {
			for k := 0; k < 40; k++ {
				sc.add(1+rng.Intn(n), leaf(probe, 1))
				probe++
			}
			sc.wait(pick(rng, 100, 8300))
		}
		// one more
		sc.trace(n+1, 8193)
		sc.wait(150)
		for k := 0; k < 20; k++ {
			sc.add(1+rng.Intn(n+1), leaf(probe, 1))
			probe++
		}
		sc.add(n+1, leaf(probe, 1))
		probe++
		sc.Ops = append(sc.Ops, aggOp{O: "many", Tr: 1, N: n + 1, Sp: leaf(probe, 1)})
		res = append(res, sc)
	}
	return res
}

// More than 100,000 buffered spans.
func genShed(rng *rand.Rand) []aggScenario {
	var res []aggScenario
	for i := 0; i < count(12, 84); i++ {
		sc := aggScenario{Id: sprint("shed-", i)}
		sc.align(pick(rng, 1, 50))
		var sizes []int
		sum := 0
		push := func(n int) { sizes = append(sizes, n); sum += n }
		switch i % 6 {
		case 5: // over it, with as few traces as possible
			for sum < 91808 {
				push(8192 - rng.Intn(300)*rng.Intn(2))
			}
			push(pick(rng, 100001-sum, 100200-sum, 8192, 8192))
		case 0: // at most the limit: nothing is discarded
			for sum < 96000 {
				push(1000 + rng.Intn(4000))
			}
			push(100000 - sum)
		case 1: // just over it, equal sizes
			for sum < 98000 {
				push(2000)
			}
			push(100001 - sum)
		case 2: // discarding leaves exactly 100,000 at first
			push(6001)
			push(6000)
			for sum < 106001-2500 {
				push(2500)
			}
			push(106001 - sum)
		case 3: // far over it
			for sum < 130000 {
				push(pick(rng, 3000, 8192, 8191, 8000, 100, 1+rng.Intn(8000)))
			}
		case 4: // over it, with traces that do not count, and some that are handed on by that very check
			push(5000)
			for sum < 104000 {
				push(pick(rng, 1000+rng.Intn(4000), 3000))
			}
			push(9000)
		}
		last := sizes[len(sizes)-1]
		sizes = sizes[:len(sizes)-1]
		if i%6 == 4 {
			sc.trace(1, 1500)
			sc.wait(pick(rng, 1905, 1990))
		}
		rng.Shuffle(len(sizes), func(a, b int) { sizes[a], sizes[b] = sizes[b], sizes[a] })
		for k, n := range sizes {
			sc.trace(2+k, n)
		}
		sc.trace(2+len(sizes), last)
		sc.wait(pick(rng, 110, 99, 150))
		if i%6 == 2 {
			sc.wait(2100) // exactly 100,000 are still too many, without any further span
		}
		// discarded traces are not blocked
		sc.add(2, member(1))
		sc.add(3, member(2))
		sc.wait(pick(rng, 500, 1900, 2100))
		sc.add(2, member(3))
		sc.add(4, member(2))
		res = append(res, sc)
	}
	return res
}

// The consumer stops taking traces, for short and long, at any time.
func genStall(rng *rand.Rand) []aggScenario {
	var res []aggScenario
	for i := 0; i < count(40, 600); i++ {
		sc := aggScenario{Id: sprint("stall-", i), Room: pick(rng, 0, 0, 1, 2, 3, 5, 64)}
		stalled := false
		for j := 0; j < 10+rng.Intn(50); j++ {
			switch rng.Intn(10) {
			case 0, 1, 2, 3, 4:
				sc.add(1+rng.Intn(6), member(1+rng.Intn(4)))
			case 5, 6:
				sc.wait(pick(rng, 13, 100, 210, 3700, 7950, 8150))
			case 7:
				sc.wait(pick(rng, 8200, 16000, 47000, 90))
			default:
				if stalled {
					sc.op("resume")
				} else {
					sc.op("stall")
				}
				stalled = !stalled
			}
		}
		res = append(res, sc)
	}
	return res
}

// Traces with many roots, many children of one span, and long chains; with clocks.
func genWide(rng *rand.Rand) []aggScenario {
	var res []aggScenario
	four := func(sp *ASpan) *ASpan {
		sp.Cs, sp.Sr = sp.Ts, sp.Ts+1000+2*rng.Intn(100)
		sp.Ss, sp.Cr = sp.Sr+2*rng.Intn(20), sp.Cs+40+2*rng.Intn(20)
		return sp
	}
	for i, n := range []int{2, 63, 64, 65, 255, 256, 257, 511, 1000, 1001, 1023, 1025, 2048, 4095, 5000, 8000, 8190} {
		for kind := 0; kind < 8; kind++ {
			if !thorough() && n > 2 && (i+kind)%3 != 0 {
				continue
			}
			sc := aggScenario{Id: sprint("wide-", i, "-", kind)}
			f := leaf(FILL, 1)
			switch kind {
			case 0: // all below a root with a clock of its own
				sc.add(1, four(leaf(1, 0)))
			case 1: // below one that is below such a root
				sc.add(1, four(leaf(2, 0)))
				sc.add(1, four(leaf(1, 2)))
				sc.add(1, leaf(3, 1))
				four(f)
			case 2: // roots, all with the same missing parent
			case 3: // the same, but one more has another parent
				sc.add(1, leaf(3, 2))
			case 4: // the same, and one more with the same, that has something below it
				sc.add(1, four(leaf(3, 1)))
				sc.add(1, leaf(4, 3))
				four(f)
			case 5: // without parents
				f = leaf(FILL, 0)
			case 6: // the time is not known
				sc.add(1, four(leaf(1, 0)))
				f.Ts = EPOCH
			case 7: // siblings of the one with a clock, which gets completed last
				f = leaf(FILL, 5)
				sc.add(1, leaf(5, 0))
			}
			half := rng.Intn(n)
			if half > 0 {
				sc.Ops = append(sc.Ops, aggOp{O: "add", Tr: 1, Sp: f, N: half})
			}
			if rng.Intn(2) == 0 {
				sc.wait(pick(rng, 100, 1900, 5000))
			}
			g := *f
			sc.Ops = append(sc.Ops, aggOp{O: "add", Tr: 1, Sp: &g, N: n - half})
			if kind == 7 {
				sc.add(1, four(leaf(6, 5)))
				sc.add(1, leaf(7, 6))
			}
			sc.add(2, member(1))
			sc.wait(8200)
			res = append(res, sc)
		}
	}
	for i := 0; i < count(8, 60); i++ { // chains
		sc := aggScenario{Id: sprint("chain-", i)}
		n := pick(rng, 20, 64, 65, 100, 130, 200)
		if thorough() && i < 10 {
			n = 400
		}
		var spans []*ASpan
		for id := 1; id <= n; id++ {
			sp := leaf(id, id-1)
			if i%3 == 0 || rng.Intn(3) == 0 {
				four(sp)
			}
			if rng.Intn(20) == 0 {
				sp.Ts = EPOCH
			}
			spans = append(spans, sp)
		}
		if i%4 == 1 {
			spans[0].Par = 300 // missing
		}
		rng.Shuffle(n, func(a, b int) { spans[a], spans[b] = spans[b], spans[a] })
		for _, sp := range spans {
			sc.add(1, sp)
		}
		sc.wait(8200)
		res = append(res, sc)
	}
	return res
}

// Traces with and without a root, for the metrics.
func genRoots(rng *rand.Rand) []aggScenario {
	var res []aggScenario
	for i := 0; i < count(30, 300); i++ {
		sc := aggScenario{Id: sprint("roots-", i)}
		for j := 0; j < 10+rng.Intn(30); j++ {
			sc.add(1+rng.Intn(6), leaf(1+rng.Intn(5), pick(rng, 0, 1, 2, 3, 7, 8)))
			if rng.Intn(4) == 0 {
				sc.wait(pick(rng, 100, 3000, 8150))
			}
			if rng.Intn(8) == 0 {
				sc.op("metrics")
			}
		}
		res = append(res, sc)
	}
	return res
}

// Reports of the same spans, for the metrics.
func genMerged(rng *rand.Rand) []aggScenario {
	var res []aggScenario
	for i := 0; i < count(20, 200); i++ {
		sc := aggScenario{Id: sprint("merged-", i)}
		for j := 0; j < 10+rng.Intn(30); j++ {
			sp := member(1 + rng.Intn(3))
			if rng.Intn(2) == 0 {
				sp.Sr, sp.Ss = 1000, 1010
			} else {
				sp.Cs, sp.Cr = 1000, 1010
			}
			sc.add(1+rng.Intn(3), sp)
			if rng.Intn(6) == 0 {
				sc.wait(pick(rng, 100, 3000, 8150))
				sc.op("metrics")
			}
		}
		res = append(res, sc)
	}
	return res
}

// Large traces in which spans are completed when thousands of others came in between.
func genLate(rng *rand.Rand) []aggScenario {
	var res []aggScenario
	for i := 0; i < count(8, 60); i++ {
		sc := aggScenario{Id: sprint("late-", i)}
		rest := pick(rng, 1000, 3000, 5000, 7000, 8100)
		k := 12 + rng.Intn(20)
		seen := map[int]int{}
		report := func(id int) {
			sp := leaf(id, id/2)
			seen[id]++
			sp.Tags = [][2]string{{sprint("k", seen[id]), sprint("v", id)}, {"k", sprint(seen[id])}}
			if rng.Intn(2) == 0 {
				sp.Sr, sp.Ss = 1000+2*id, 1010+2*seen[id]
			} else {
				sp.Cs, sp.Cr = 1000+2*id, 1020+2*seen[id]
			}
			sc.add(1, sp)
		}
		report(1)
		for _, id := range rng.Perm(k - 1) {
			if rng.Intn(3) > 0 {
				report(2 + id)
			}
		}
		for rest > 0 {
			n := 1 + rng.Intn(rest)
			if rest < 300 {
				n = rest
			}
			sc.Ops = append(sc.Ops, aggOp{O: "add", Tr: 1, Sp: leaf(FILL, 1), N: n})
			rest -= n
			for _, id := range rng.Perm(k) {
				if rng.Intn(4) == 0 {
					report(1 + id)
				}
			}
			if rng.Intn(3) == 0 {
				sc.wait(pick(rng, 100, 1000, 1900))
			}
		}
		for _, id := range rng.Perm(k) {
			report(1 + id)
		}
		sc.wait(8200)
		res = append(res, sc)
	}
	return res
}
