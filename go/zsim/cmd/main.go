// Command dpsim executes simulation programs, one JSON request per line.
package main

import (
	"bufio"
	cryptorand "crypto/rand"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"strconv"

	"MODULE/dpagg"
	"MODULE/noise"
	"MODULE/rand"
	"MODULE/zsim/rt"
	sbufio "MODULE/zsim/sbufio"
)

func resetAll(seed uint64) {
	rt.Src = &rt.Source{Seed: seed}
	sbufio.SimReset()
	rand.SimReset()
	noise.SimReset()
	dpagg.SimReset()
}

func main() {
	cryptorand.Reader = rt.Reader
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var req struct {
			Cmd string `json:"cmd"`
		}
		if err := json.Unmarshal(line, &req); err != nil {
			fmt.Fprintf(out, "{\"harness\":%q}\n", err.Error())
			out.Flush()
			continue
		}
		var rep any
		switch req.Cmd {
		case "agg":
			rep = runAgg(line)
		case "law":
			rep = runLaw(line)
		case "rand":
			rep = runRand(line)
		default:
			rep = map[string]any{"harness": "unknown command"}
		}
		b, err := json.Marshal(rep)
		if err != nil {
			b, _ = json.Marshal(map[string]any{"harness": err.Error()})
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// ------------------------------------------------------------------- noise

type NoisePlan struct {
	Mode string            `json:"mode"` // "add": x+vals[i], "abs": vals[i], "real"
	Vals []string          `json:"vals"`
	Fail map[string]string `json:"fail"` // call index -> "err" | "panic"
}

type Call struct {
	M     string `json:"m"`
	X     string `json:"x"`
	L0    int64  `json:"l0"`
	LInf  string `json:"linf"`
	Eps   string `json:"eps"`
	Delta string `json:"delta"`
	Out   string `json:"out"`
	Err   string `json:"err,omitempty"`
}

type SimNoise struct {
	real  noise.Noise
	plan  *NoisePlan
	calls []Call
	n     int
}

var errNoise = errors.New("simulated noise failure")

type noisePanic struct{}

const maxCalls = 200000

func (s *SimNoise) val() string {
	i := s.n
	s.n++
	if s.n > maxCalls {
		panic(rt.Stuck{Msg: "runaway: noise drawn without end"})
	}
	if s.plan == nil || len(s.plan.Vals) == 0 {
		return "0"
	}
	return s.plan.Vals[i%len(s.plan.Vals)]
}

func (s *SimNoise) fail() error {
	if s.plan == nil {
		return nil
	}
	switch s.plan.Fail[strconv.Itoa(s.n-1)] {
	case "err":
		s.calls[len(s.calls)-1].Err = "err"
		return errNoise
	case "panic":
		s.calls[len(s.calls)-1].Err = "panic"
		panic(noisePanic{})
	}
	return nil
}

func (s *SimNoise) AddNoiseInt64(x, l0, lInf int64, eps, delta float64) (int64, error) {
	v := s.val()
	s.calls = append(s.calls, Call{M: "i", X: strconv.FormatInt(x, 10), L0: l0, LInf: strconv.FormatInt(lInf, 10), Eps: ff(eps), Delta: ff(delta)})
	if err := s.fail(); err != nil {
		return 0, err
	}
	f := pf(v)
	var y int64
	switch {
	case f >= math.MaxInt64:
		y = math.MaxInt64
	case f <= math.MinInt64:
		y = math.MinInt64
	default:
		y = int64(math.Round(f))
	}
	if s.plan == nil || s.plan.Mode != "abs" {
		y += x
	}
	s.calls[len(s.calls)-1].Out = strconv.FormatInt(y, 10)
	return y, nil
}

func (s *SimNoise) AddNoiseFloat64(x float64, l0 int64, lInf, eps, delta float64) (float64, error) {
	v := s.val()
	s.calls = append(s.calls, Call{M: "f", X: ff(x), L0: l0, LInf: ff(lInf), Eps: ff(eps), Delta: ff(delta)})
	if err := s.fail(); err != nil {
		return 0, err
	}
	y := pf(v)
	if s.plan == nil || s.plan.Mode != "abs" {
		y += x
	}
	s.calls[len(s.calls)-1].Out = ff(y)
	return y, nil
}

func (s *SimNoise) Threshold(l0 int64, lInf, eps, nd, td float64) (float64, error) {
	return s.real.Threshold(l0, lInf, eps, nd, td)
}

func (s *SimNoise) ComputeConfidenceIntervalInt64(x, l0, lInf int64, eps, delta, alpha float64) (noise.ConfidenceInterval, error) {
	return s.real.ComputeConfidenceIntervalInt64(x, l0, lInf, eps, delta, alpha)
}

func (s *SimNoise) ComputeConfidenceIntervalFloat64(x float64, l0 int64, lInf, eps, delta, alpha float64) (noise.ConfidenceInterval, error) {
	return s.real.ComputeConfidenceIntervalFloat64(x, l0, lInf, eps, delta, alpha)
}

func ff(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }

func pf(s string) float64 {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil && !errors.Is(err, strconv.ErrRange) {
		panic("harness: bad number " + s)
	}
	return v
}

func pi(s string) int64 {
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic("harness: bad integer " + s)
	}
	return v
}

// -------------------------------------------------------------- aggregators

type Opt struct {
	Eps   string `json:"eps"`
	Delta string `json:"delta"`
	L0    int64  `json:"l0"`
	MC    int64  `json:"mc"`
	Lo    string `json:"lo"`
	Hi    string `json:"hi"`
	H     int    `json:"h"`
	B     int    `json:"b"`
	Pre   int64  `json:"pre"`
	Noise string `json:"noise"` // l, g, d(efault), s(imulated, unrecognised)
}

type Op struct {
	Op    string     `json:"op"`
	ID    int        `json:"id"`
	Other int        `json:"other"`
	Type  string     `json:"type"`
	Opt   *Opt       `json:"opt"`
	V     string     `json:"v"`
	N     int64      `json:"n"`
	Slot  int        `json:"slot"`
	Cut   *int       `json:"cut"` // keep only that many bytes
	How   string     `json:"how"`
	Arg   string     `json:"arg"`
	Arg2  string     `json:"arg2"`
	Noise *NoisePlan `json:"noise"`
	Seed  uint64     `json:"seed"`
	Plan  []rt.ReadPlan `json:"reads"`
	Unif  []string   `json:"unif"`
}

type Rep struct {
	Err   string        `json:"err,omitempty"`
	Panic string        `json:"panic,omitempty"`
	Exit  string        `json:"exit,omitempty"`
	Val   []string      `json:"val,omitempty"`
	Calls []Call        `json:"calls,omitempty"`
	Real  []rt.RealCall `json:"real,omitempty"`
	Kind  string        `json:"kind,omitempty"`
	Len   int           `json:"len,omitempty"`
	Data  string        `json:"data,omitempty"`
	Unif  int           `json:"unif,omitempty"` // planned uniform draws used
	Oks   []int         `json:"oks,omitempty"`  // cuts that were accepted
	Pans  []string      `json:"pans,omitempty"` // cuts that panicked
}

type object struct {
	typ string
	p   any
}

func kindName(n noise.Noise) string {
	switch n {
	case noise.Laplace():
		return "l"
	case noise.Gaussian():
		return "g"
	case nil:
		return "nil"
	}
	if s, ok := n.(*SimNoise); ok {
		return kindName(s.real)
	}
	return "?"
}

// noises returns the noise fields of an aggregator in a fixed order.
func (o *object) noises() []*noise.Noise {
	switch x := o.p.(type) {
	case *dpagg.Count:
		return []*noise.Noise{&x.Noise}
	case *dpagg.BoundedSumInt64:
		return []*noise.Noise{&x.Noise}
	case *dpagg.BoundedSumFloat64:
		return []*noise.Noise{&x.Noise}
	case *dpagg.BoundedMean:
		return []*noise.Noise{&x.Count.Noise, &x.NormalizedSum.Noise}
	case *dpagg.BoundedVariance:
		return []*noise.Noise{&x.Count.Noise, &x.NormalizedSum.Noise, &x.NormalizedSumOfSquares.Noise}
	case *dpagg.BoundedStandardDeviation:
		v := &x.Variance
		return []*noise.Noise{&v.Count.Noise, &v.NormalizedSum.Noise, &v.NormalizedSumOfSquares.Noise}
	case *dpagg.BoundedQuantiles:
		return []*noise.Noise{&x.Noise}
	}
	return nil
}

// zero returns an empty receiver of a type, for decoding.
func zero(typ string) any {
	switch typ {
	case "count":
		return &dpagg.Count{}
	case "sumi":
		return &dpagg.BoundedSumInt64{}
	case "sumf":
		return &dpagg.BoundedSumFloat64{}
	case "mean":
		return &dpagg.BoundedMean{}
	case "var":
		return &dpagg.BoundedVariance{}
	case "std":
		return &dpagg.BoundedStandardDeviation{}
	case "quant":
		return &dpagg.BoundedQuantiles{}
	case "sel":
		return &dpagg.PreAggSelectPartition{}
	}
	panic("harness: type " + typ)
}

func mkNoise(k string) noise.Noise {
	switch k {
	case "l":
		return noise.Laplace()
	case "g":
		return noise.Gaussian()
	case "d":
		return nil
	case "s":
		return &SimNoise{real: noise.Laplace()}
	}
	panic("harness: noise " + k)
}

func construct(typ string, o *Opt) (any, error) {
	eps, delta := pf(o.Eps), pf(o.Delta)
	n := mkNoise(o.Noise)
	switch typ {
	case "count":
		x, err := dpagg.NewCount(&dpagg.CountOptions{Epsilon: eps, Delta: delta, MaxPartitionsContributed: o.L0, Noise: n})
		return x, err
	case "sumi":
		x, err := dpagg.NewBoundedSumInt64(&dpagg.BoundedSumInt64Options{Epsilon: eps, Delta: delta, MaxPartitionsContributed: o.L0, Lower: pi(o.Lo), Upper: pi(o.Hi), Noise: n})
		return x, err
	case "sumf":
		x, err := dpagg.NewBoundedSumFloat64(&dpagg.BoundedSumFloat64Options{Epsilon: eps, Delta: delta, MaxPartitionsContributed: o.L0, Lower: pf(o.Lo), Upper: pf(o.Hi), Noise: n})
		return x, err
	case "mean":
		x, err := dpagg.NewBoundedMean(&dpagg.BoundedMeanOptions{Epsilon: eps, Delta: delta, MaxPartitionsContributed: o.L0, MaxContributionsPerPartition: o.MC, Lower: pf(o.Lo), Upper: pf(o.Hi), Noise: n})
		return x, err
	case "var":
		x, err := dpagg.NewBoundedVariance(&dpagg.BoundedVarianceOptions{Epsilon: eps, Delta: delta, MaxPartitionsContributed: o.L0, MaxContributionsPerPartition: o.MC, Lower: pf(o.Lo), Upper: pf(o.Hi), Noise: n})
		return x, err
	case "std":
		x, err := dpagg.NewBoundedStandardDeviation(&dpagg.BoundedStandardDeviationOptions{Epsilon: eps, Delta: delta, MaxPartitionsContributed: o.L0, MaxContributionsPerPartition: o.MC, Lower: pf(o.Lo), Upper: pf(o.Hi), Noise: n})
		return x, err
	case "quant":
		x, err := dpagg.NewBoundedQuantiles(&dpagg.BoundedQuantilesOptions{Epsilon: eps, Delta: delta, MaxPartitionsContributed: o.L0, MaxContributionsPerPartition: o.MC, Lower: pf(o.Lo), Upper: pf(o.Hi), Noise: n, TreeHeight: o.H, BranchingFactor: o.B})
		return x, err
	case "sel":
		x, err := dpagg.NewPreAggSelectPartition(&dpagg.PreAggSelectPartitionOptions{Epsilon: eps, Delta: delta, MaxPartitionsContributed: o.L0, PreThreshold: o.Pre})
		return x, err
	}
	panic("harness: type " + typ)
}

type gobber interface {
	GobEncode() ([]byte, error)
	GobDecode([]byte) error
}

func (o *object) add(v string, n int64) error {
	if n == 0 {
		n = 1
	}
	switch x := o.p.(type) {
	case *dpagg.Count:
		if n == 1 {
			return x.Increment()
		}
		return x.IncrementBy(n)
	case *dpagg.PreAggSelectPartition:
		if n == 1 {
			return x.Increment()
		}
		return x.IncrementBy(n)
	}
	for i := int64(0); i < n; i++ {
		var err error
		switch x := o.p.(type) {
		case *dpagg.BoundedSumInt64:
			err = x.Add(pi(v))
		case *dpagg.BoundedSumFloat64:
			err = x.Add(pf(v))
		case *dpagg.BoundedMean:
			err = x.Add(pf(v))
		case *dpagg.BoundedVariance:
			err = x.Add(pf(v))
		case *dpagg.BoundedStandardDeviation:
			err = x.Add(pf(v))
		case *dpagg.BoundedQuantiles:
			err = x.Add(pf(v))
		default:
			panic("harness: add")
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func (o *object) merge(p *object) error {
	switch x := o.p.(type) {
	case *dpagg.Count:
		return x.Merge(p.p.(*dpagg.Count))
	case *dpagg.PreAggSelectPartition:
		return x.Merge(p.p.(*dpagg.PreAggSelectPartition))
	case *dpagg.BoundedSumInt64:
		return x.Merge(p.p.(*dpagg.BoundedSumInt64))
	case *dpagg.BoundedSumFloat64:
		return x.Merge(p.p.(*dpagg.BoundedSumFloat64))
	case *dpagg.BoundedMean:
		return x.Merge(p.p.(*dpagg.BoundedMean))
	case *dpagg.BoundedVariance:
		return x.Merge(p.p.(*dpagg.BoundedVariance))
	case *dpagg.BoundedStandardDeviation:
		return x.Merge(p.p.(*dpagg.BoundedStandardDeviation))
	case *dpagg.BoundedQuantiles:
		return x.Merge(p.p.(*dpagg.BoundedQuantiles))
	}
	panic("harness: merge")
}

func fi(p *int64) []string {
	if p == nil {
		return []string{"nil"}
	}
	return []string{strconv.FormatInt(*p, 10)}
}

func fp(p *float64) []string {
	if p == nil {
		return []string{"nil"}
	}
	return []string{ff(*p)}
}

func (o *object) result(op *Op) ([]string, error) {
	switch x := o.p.(type) {
	case *dpagg.Count:
		switch op.How {
		case "thr":
			v, err := x.ThresholdedResult(pf(op.Arg))
			return fi(v), err
		case "pre":
			v, err := x.PreThresholdedResult(pi(op.Arg2), pf(op.Arg))
			return fi(v), err
		}
		v, err := x.Result()
		return fi(&v), err
	case *dpagg.BoundedSumInt64:
		if op.How == "thr" {
			v, err := x.ThresholdedResult(pf(op.Arg))
			return fi(v), err
		}
		v, err := x.Result()
		return fi(&v), err
	case *dpagg.BoundedSumFloat64:
		if op.How == "thr" {
			v, err := x.ThresholdedResult(pf(op.Arg))
			return fp(v), err
		}
		v, err := x.Result()
		return fp(&v), err
	case *dpagg.BoundedMean:
		v, err := x.Result()
		return fp(&v), err
	case *dpagg.BoundedVariance:
		if op.How == "full" {
			v, err := x.ResultWithCountAndMean()
			return []string{ff(v.Count), ff(v.Mean), ff(v.Variance)}, err
		}
		v, err := x.Result()
		return fp(&v), err
	case *dpagg.BoundedStandardDeviation:
		v, err := x.Result()
		return fp(&v), err
	case *dpagg.BoundedQuantiles:
		v, err := x.Result(pf(op.Arg))
		return fp(&v), err
	case *dpagg.PreAggSelectPartition:
		v, err := x.ShouldKeepPartition()
		return []string{strconv.FormatBool(v)}, err
	}
	panic("harness: result")
}

func (o *object) ci(alpha float64) ([]string, error) {
	var c noise.ConfidenceInterval
	var err error
	switch x := o.p.(type) {
	case *dpagg.Count:
		c, err = x.ComputeConfidenceInterval(alpha)
	case *dpagg.BoundedSumInt64:
		c, err = x.ComputeConfidenceInterval(alpha)
	case *dpagg.BoundedSumFloat64:
		c, err = x.ComputeConfidenceInterval(alpha)
	case *dpagg.BoundedMean:
		c, err = x.ComputeConfidenceInterval(alpha)
	default:
		panic("harness: ci")
	}
	return []string{ff(c.LowerBound), ff(c.UpperBound)}, err
}

type aggReq struct {
	Ops []Op `json:"ops"`
}

func runAgg(line []byte) any {
	var req aggReq
	if err := json.Unmarshal(line, &req); err != nil {
		return map[string]any{"harness": err.Error()}
	}
	resetAll(1)
	objs := map[int]*object{}
	slots := map[int][]byte{}
	reps := make([]Rep, len(req.Ops))
	for i := range req.Ops {
		reps[i] = step(&req.Ops[i], objs, slots)
		if len(reps[i].Panic) > 8 && reps[i].Panic[:8] == "harness:" {
			return map[string]any{"harness": reps[i].Panic}
		}
		if reps[i].Exit != "" {
			reps = reps[:i+1]
			break
		}
	}
	return map[string]any{"reps": reps}
}

func step(op *Op, objs map[int]*object, slots map[int][]byte) (rep Rep) {
	rt.RealCalls = nil
	rt.RecordNoise = false
	rt.UniformVals = nil
	rt.UniformUsed = 0
	var sims []*SimNoise
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case noisePanic:
				rep.Panic = "noise"
			case rt.Exit:
				rep.Exit = e.Msg
			case rt.Stuck:
				rep.Panic = "stuck: " + e.Msg
			default:
				rep.Panic = fmt.Sprint(r)
			}
		}
		for _, s := range sims {
			rep.Calls = append(rep.Calls, s.calls...)
		}
		rep.Real = rt.RealCalls
		rep.Unif = rt.UniformUsed
		rt.RecordNoise = false
	}()
	fail := func(err error) {
		if err != nil {
			rep.Err = err.Error()
			if rep.Err == "" {
				rep.Err = "error"
			}
		}
	}
	switch op.Op {
	case "new":
		p, err := construct(op.Type, op.Opt)
		fail(err)
		if err == nil {
			objs[op.ID] = &object{op.Type, p}
		}
	case "add":
		fail(objs[op.ID].add(op.V, op.N))
	case "merge":
		fail(objs[op.ID].merge(objs[op.Other]))
	case "enc":
		b, err := objs[op.ID].p.(gobber).GobEncode()
		fail(err)
		if err == nil {
			slots[op.Slot] = append([]byte(nil), b...)
			rep.Len = len(b)
		} else if len(b) > 0 {
			rep.Len = -len(b)
		}
	case "dec":
		o := objs[op.ID]
		fresh := o == nil
		if fresh {
			o = &object{op.Type, zero(op.Type)}
		}
		data := append([]byte(nil), slots[op.Slot]...)
		if op.Cut != nil && *op.Cut < len(data) {
			data = data[:*op.Cut]
		}
		if len(op.V) > 0 {
			data, _ = base64.StdEncoding.DecodeString(op.V)
		}
		err := o.p.(gobber).GobDecode(data)
		fail(err)
		// the decoder must not keep a reference to the caller's buffer
		for i := range data {
			data[i] = 0xEE
		}
		if fresh && err == nil {
			objs[op.ID] = o
		}
	case "cuts": // every proper prefix of a checkpoint, on one receiver
		o := objs[op.ID]
		if o == nil {
			o = &object{op.Type, zero(op.Type)}
		}
		full := slots[op.Slot]
		rep.Len = len(full)
		for cut := 0; cut < len(full); cut++ {
			func() {
				defer func() {
					if r := recover(); r != nil {
						rep.Pans = append(rep.Pans, fmt.Sprintf("%d: %v", cut, r))
					}
				}()
				if err := o.p.(gobber).GobDecode(append([]byte(nil), full[:cut]...)); err == nil {
					rep.Oks = append(rep.Oks, cut)
				}
			}()
		}
	case "free":
		delete(objs, op.ID)
	case "res":
		o := objs[op.ID]
		ns := o.noises()
		olds := make([]noise.Noise, len(ns))
		if op.Seed != 0 {
			resetAll(op.Seed)
			rt.Src.Plan = op.Plan
		}
		for i, n := range ns {
			olds[i] = *n
			rep.Kind += kindName(*n)
		}
		if op.Noise != nil && op.Noise.Mode != "real" {
			sn := &SimNoise{plan: op.Noise}
			if len(ns) > 0 {
				sn.real = olds[0]
				if s, ok := olds[0].(*SimNoise); ok {
					sn.real = s.real
				}
			}
			sims = append(sims, sn)
			for _, n := range ns {
				*n = sn
			}
		}
		rt.RecordNoise = true
		for _, u := range op.Unif {
			rt.UniformVals = append(rt.UniformVals, pf(u))
		}
		v, err := o.result(op)
		for i, n := range ns {
			if op.Noise != nil && op.Noise.Mode != "real" {
				*n = olds[i]
			}
		}
		fail(err)
		rep.Val = v
	case "ci":
		v, err := objs[op.ID].ci(pf(op.Arg))
		fail(err)
		rep.Val = v
	case "hard":
		v, err := objs[op.ID].p.(*dpagg.PreAggSelectPartition).GetHardThreshold()
		fail(err)
		rep.Val = []string{strconv.Itoa(v)}
	default:
		panic("harness: op " + op.Op)
	}
	return rep
}
