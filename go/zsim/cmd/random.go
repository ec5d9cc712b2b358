package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"

	"MODULE/noise"
	"MODULE/rand"
	"MODULE/zsim/rt"
)

type randOp struct {
	Op    string `json:"op"`
	N     int64  `json:"n"`
	X     string `json:"x"`
	L0    int64  `json:"l0"`
	LInf  string `json:"linf"`
	Eps   string `json:"eps"`
	Delta string `json:"delta"`
}

type randReq struct {
	Tasks     [][]randOp    `json:"tasks"`
	Reads     []rt.ReadPlan `json:"reads"`
	Preempt   [][2]int      `json:"preempt"`
	Seed      uint64        `json:"seed"`
	Prob      uint64        `json:"prob"`
	DeadAfter int           `json:"dead_after"`
	Streams   int           `json:"streams"`
	TailN     int           `json:"tail_n"`
	Limit     int           `json:"limit"`
}

type drawn struct {
	task, op int
	kind     string
	vals     []uint64 // one per stream
	seq      int
}

// one draw of the library's public functions, as bits
func draw(o *randOp) (v uint64, ok bool) {
	switch o.Op {
	case "u64":
		return rand.U64(), true
	case "u8":
		return uint64(rand.U8()), true
	case "bool":
		if rand.Boolean() {
			return 1, true
		}
		return 0, true
	case "sign":
		if rand.Sign() > 0 {
			return 1, true
		}
		return 0, true
	case "i63n":
		return uint64(rand.I63n(o.N)), true
	case "uniform":
		return math.Float64bits(rand.Uniform()), true
	case "geo":
		return math.Float64bits(rand.Geometric()), true
	case "normal":
		return math.Float64bits(rand.Normal()), true
	case "lapi", "gaui":
		n := noise.Laplace()
		if o.Op == "gaui" {
			n = noise.Gaussian()
		}
		r, err := n.AddNoiseInt64(pi(o.X), o.L0, pi(o.LInf), pf(o.Eps), pf(o.Delta))
		return uint64(r - pi(o.X)), err == nil
	case "lapf", "gauf":
		n := noise.Laplace()
		if o.Op == "gauf" {
			n = noise.Gaussian()
		}
		r, err := n.AddNoiseFloat64(pf(o.X), o.L0, pf(o.LInf), pf(o.Eps), pf(o.Delta))
		return math.Float64bits(r - pf(o.X)), err == nil
	}
	panic("harness: draw " + o.Op)
}

// which bits of a draw are copies of single random bits
func exactBits(kind string) []int {
	span := func(lo, hi int) (r []int) {
		for i := lo; i <= hi; i++ {
			r = append(r, i)
		}
		return
	}
	switch kind {
	case "u64":
		return span(0, 63)
	case "u8":
		return span(0, 7)
	case "bool", "sign":
		return span(0, 0)
	case "i63n": // called with n = 1<<40
		return span(0, 39)
	case "uniform": // high mantissa bits
		return span(24, 51)
	}
	return nil
}

// kinds with enough entropy for two equal outcomes to be impossible
func rich(kind string) bool {
	switch kind {
	case "u64", "i63n", "uniform", "normal", "lapf", "gauf":
		return true
	}
	return false
}

func runRand(line []byte) any {
	var q randReq
	if err := json.Unmarshal(line, &q); err != nil {
		return map[string]any{"harness": err.Error()}
	}
	pre := map[int]int{}
	for _, p := range q.Preempt {
		pre[p[0]] = p[1]
	}
	var draws []*drawn
	index := map[[2]int]*drawn{}
	rep := map[string]any{}
	var sched0 *rt.Sched
	streams := make([][]byte, q.Streams)
	faults := map[string]int{}
	var exits []string
	aligned := true
	doneCount := 0
	order0, path0 := "", ""
	for k := 0; k < q.Streams; k++ {
		resetAll(0x1000 + uint64(k))
		rt.Src.Plan = q.Reads
		rt.Src.Keep = true
		rt.Src.DeadAfter = q.DeadAfter
		rt.Src.TailN = q.TailN
		seq := 0
		finished := map[[2]int]bool{}
		var bodies []func()
		order, path := "", ""
		for ti := range q.Tasks {
			ti := ti
			bodies = append(bodies, func() {
				for oi := range q.Tasks[ti] {
					o := &q.Tasks[ti][oi]
					v, ok := draw(o)
					if !ok {
						continue
					}
					key := [2]int{ti, oi}
					d := index[key]
					if d == nil {
						d = &drawn{task: ti, op: oi, kind: o.Op, seq: seq}
						d.vals = make([]uint64, q.Streams)
						index[key] = d
						draws = append(draws, d)
					}
					d.vals[k] = v
					finished[key] = true
					order += fmt.Sprintf("%d.%d ", ti, oi)
					// The step count shows whether the control flow, and so what
					// was taken from the source, was the same in every stream.
					path += fmt.Sprintf("%d.%d@%d ", ti, oi, rt.S.Step)
					seq++
				}
			})
		}
		s := rt.Run(bodies, pre, q.Seed, q.Prob, q.Limit)
		if s.StuckMsg != "" {
			rep["violation"] = []string{"stuck", s.StuckMsg}
		}
		streams[k] = rt.Src.Delivered
		if k == 0 {
			sched0 = s
			order0, path0 = order, path
			doneCount = seq
			for n, c := range rt.Src.Faults {
				faults[n] += c
			}
			if s.DeadMsg != "" {
				exits = append(exits, s.DeadMsg)
			}
		} else if path != path0 || len(streams[k]) != len(streams[0]) {
			aligned = false
		}
		if rt.Src.DeadAfter > 0 && len(rt.Src.Delivered) > rt.Src.DeadAfter {
			rep["harness"] = "source delivered too much"
		}
		// Every completed draw needs at least one fresh bit.
		if seq > 8*len(streams[k]) {
			rep["violation"] = []string{"made-up", fmt.Sprintf("%d draws were answered although the source delivered only %d bytes", seq, len(streams[k]))}
		}
	}
	rep["steps"] = sched0.Step
	rep["switches"] = len(sched0.Switches) / 2
	rep["sched"] = sched0.Switches
	rep["faults"] = faults
	rep["exits"] = exits
	rep["aligned"] = aligned
	rep["done"] = doneCount
	rep["delivered"] = len(streams[0])
	rep["order"] = order0
	if rep["violation"] != nil {
		return rep
	}
	sort.Slice(draws, func(i, j int) bool { return draws[i].seq < draws[j].seq })
	name := func(d *drawn) string { return fmt.Sprintf("draw %d of caller %d (%s)", d.op, d.task, d.kind) }
	fail := func(kind, msg string) any {
		rep["violation"] = []string{kind, msg}
		return rep
	}
	// Repeated outcomes: per stream, two rich draws must not coincide.
	for k := 0; k < q.Streams; k++ {
		seen := map[string]*drawn{}
		for _, d := range draws {
			if !rich(d.kind) || d.vals[k] == 0 && d.kind != "u64" {
				continue
			}
			key := fmt.Sprint(d.kind, d.vals[k])
			if d.kind == "lapf" || d.kind == "gauf" {
				o := q.Tasks[d.task][d.op]
				key = fmt.Sprint(d.kind, o, d.vals[k])
			}
			if e := seen[key]; e != nil {
				return fail("repeated", fmt.Sprintf("%s and %s got the same random outcome %x", name(e), name(d), d.vals[k]))
			}
			seen[key] = d
		}
	}
	if !aligned || q.Streams < 2 {
		return rep
	}
	// Outcomes must come from the source: constant over all streams is made up.
	for _, d := range draws {
		same := true
		for k := 1; k < q.Streams; k++ {
			same = same && d.vals[k] == d.vals[0]
		}
		if same && q.Streams >= 32 && d.kind != "lapi" && d.kind != "gaui" && d.kind != "geo" {
			return fail("not-from-source", fmt.Sprintf("%s is %x whatever the source delivers", name(d), d.vals[0]))
		}
	}
	if q.Streams < 64 {
		return rep
	}
	// Trace every exact bit to the one source bit it copies.
	type pos struct{ byteAt, bit int }
	where := map[uint64]pos{}
	limit := len(streams[0])
	if limit > 4096 {
		limit = 4096
	}
	for b := 0; b < limit; b++ {
		for bit := 0; bit < 8; bit++ {
			var v uint64
			for k := 0; k < 64; k++ {
				v |= uint64(streams[k][b]>>bit&1) << k
			}
			where[v] = pos{b, bit}
		}
	}
	owner := map[pos]*drawn{}
	for _, d := range draws {
		for _, bit := range exactBits(d.kind) {
			var v uint64
			for k := 0; k < 64; k++ {
				v |= (d.vals[k] >> bit & 1) << k
			}
			p, ok := where[v]
			if !ok {
				p, ok = where[^v]
			}
			if !ok {
				return fail("not-from-source", fmt.Sprintf("bit %d of %s is no bit the source delivered (%d bytes)", bit, name(d), len(streams[0])))
			}
			if e := owner[p]; e != nil {
				return fail("shared-bit", fmt.Sprintf("bit %d of byte %d from the source went to %s and to %s", p.bit, p.byteAt, name(e), name(d)))
			}
			owner[p] = d
		}
	}
	rep["traced_bits"] = len(owner)
	return rep
}
