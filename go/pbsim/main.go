// Command zsimcmd builds Privacy on Beam pipelines from JSON programs and runs
// them on the simulated runner.
package main

import (
	"bufio"
	"context"
	cryptorand "crypto/rand"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"

	"github.com/apache/beam/sdks/v2/go/pkg/beam"
	"github.com/google/differential-privacy/go/v3/dpagg"
	"github.com/google/differential-privacy/go/v3/noise"
	"github.com/google/differential-privacy/go/v3/rand"
	"github.com/google/differential-privacy/go/v3/zsim/mrand"
	"github.com/google/differential-privacy/go/v3/zsim/rt"
	sbufio "github.com/google/differential-privacy/go/v3/zsim/sbufio"
	"github.com/google/differential-privacy/privacy-on-beam/v3/internal/generated"
	"github.com/google/differential-privacy/privacy-on-beam/v3/internal/kv"
	"github.com/google/differential-privacy/privacy-on-beam/v3/pbeam"
)

func resetAll(seed uint64) {
	rt.Src = &rt.Source{Seed: seed}
	sbufio.SimReset()
	rand.SimReset()
	noise.SimReset()
	dpagg.SimReset()
	kv.SimReset()
	generated.SimReset()
	pbeam.SimReset()
	mrand.SimSeed(int64(seed))
}

type Sub struct{ ID int64 }

// Rec is the raw record.
type Rec struct {
	U   string
	N   int64
	Sub *Sub
	K   int64
	V   float64
}

// Key is a composite partition key.
type Key struct {
	A int64
	B string
}

type raw struct {
	U int64   `json:"u"`
	K int64   `json:"k"`
	V float64 `json:"v"`
}

type shape struct {
	Ctx  bool `json:"ctx"`
	Err  bool `json:"err"`
	Emit bool `json:"emit"`
}

type stage struct {
	shape
	What string `json:"what"` // "id", "dup", "drop"
}

type pub struct {
	Kind string  `json:"kind"` // "slice", "array", "pcol"
	Keys []int64 `json:"keys"`
}

type agg struct {
	Op    string    `json:"op"`
	Via   string    `json:"via"` // "kv", "k", "dropv", "dropk", "2x1"
	Noise string    `json:"noise"`
	Eps   float64   `json:"eps"`
	Del   float64   `json:"del"`
	PEps  float64   `json:"peps"`
	PDel  float64   `json:"pdel"`
	Pub   *pub      `json:"pub"`
	L0    int64     `json:"l0"`
	Linf  int64     `json:"linf"`
	Lo    float64   `json:"lo"`
	Hi    float64   `json:"hi"`
	MaxV  int64     `json:"maxv"`
	Neg   bool      `json:"neg"`
	Ranks []float64 `json:"ranks"`
	// Set overrides numbers, with values JSON cannot hold
	Set map[string]string `json:"set"`
}

type prog struct {
	ID   string `json:"id"`
	Key  string `json:"key"`
	Val  string `json:"val"`
	Recs []raw  `json:"recs"`
	Spec struct {
		AEps float64           `json:"aeps"`
		ADel float64           `json:"adel"`
		PEps float64           `json:"peps"`
		PDel float64           `json:"pdel"`
		Pre  int64             `json:"pre"`
		Test int               `json:"test"`
		Set  map[string]string `json:"set"`
	} `json:"spec"`
	Two     bool        `json:"two"`  // a second collection with the same specification
	Made    string      `json:"made"` // "kv", or the struct path of the identifier
	Pre     *shape      `json:"pre"`
	Shape   shape       `json:"shape"`
	Stage   *stage      `json:"stage"`
	Last    shape       `json:"last"` // of the 2x1 step
	Aggs    []agg       `json:"aggs"`
	Around  [2]string   `json:"around"` // text around strings
	Threads bool        `json:"threads"`
	TSeed   uint64      `json:"tseed"`
	TProb   uint64      `json:"tprob"`
	Plans   []beam.Plan `json:"plans"`
}

type run struct {
	SpecErr string            `json:"specerr"`
	Fatal   string            `json:"fatal"`
	Panic   string            `json:"panic"`
	Built   int               `json:"built"`
	Tsw     int               `json:"tsw"`
	Outs    [][][2]string     `json:"outs"`
	Nodes   int               `json:"nodes"`
	Keys    map[string]string `json:"keys"`
	*beam.Result
	H string `json:"hash"`
}

var types = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "int": reflect.TypeOf(0), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)),
	"int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)), "uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)),
	"uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)), "float32": reflect.TypeOf(float32(0)),
	"float64": reflect.TypeOf(float64(0)), "struct": reflect.TypeOf(Key{}), "bool": reflect.TypeOf(true),
}

func typ(n string) reflect.Type {
	t, ok := types[n]
	if !ok {
		panic("harness: type " + n)
	}
	return t
}

// around is the text of the current program around strings
var around [2]string

// make a key, identifier or value of the type
func conv(t reflect.Type, x float64, prefix string) reflect.Value {
	v := reflect.New(t).Elem()
	switch {
	case t.Kind() == reflect.String:
		v.SetString(around[0] + prefix + strconv.FormatFloat(x, 'g', -1, 64) + around[1])
	case t.Kind() == reflect.Struct:
		return reflect.ValueOf(Key{int64(x) / 2, around[0] + fmt.Sprint(int64(x)%2) + around[1]})
	case t.Kind() == reflect.Bool:
		v.SetBool(int64(x)%2 != 0)
	case v.CanInt():
		v.SetInt(int64(x))
	case v.CanUint():
		v.SetUint(uint64(x))
	default:
		v.SetFloat(x)
	}
	return v
}

func keyOf(t reflect.Type, k int64) reflect.Value   { return conv(t, float64(k), "k") }
func valOf(t reflect.Type, v float64) reflect.Value { return conv(t, v, "v") }

var (
	ctxT = reflect.TypeOf((*context.Context)(nil)).Elem()
	errT = reflect.TypeOf((*error)(nil)).Elem()
	recT = reflect.TypeOf(Rec{})
)

// doFn makes a user function of the shape.
func doFn(s shape, in, out []reflect.Type, f func(in []reflect.Value, emit func(out ...reflect.Value))) any {
	var ins, outs []reflect.Type
	if s.Ctx {
		ins = append(ins, ctxT)
	}
	ins = append(ins, in...)
	if s.Emit {
		ins = append(ins, reflect.FuncOf(out, nil, false))
	} else {
		outs = append(outs, out...)
	}
	if s.Err {
		outs = append(outs, errT)
	}
	return reflect.MakeFunc(reflect.FuncOf(ins, outs, false), func(a []reflect.Value) []reflect.Value {
		var em reflect.Value
		if s.Ctx {
			if a[0].IsNil() {
				panic("no context was passed")
			}
			a = a[1:]
		}
		if s.Emit {
			em = a[len(a)-1]
			a = a[:len(a)-1]
		}
		var ret []reflect.Value
		f(a, func(o ...reflect.Value) {
			if s.Emit {
				em.Call(o)
			} else {
				ret = o
			}
		})
		if s.Err {
			ret = append(ret, reflect.Zero(errT))
		}
		return ret
	}).Interface()
}

func noiseKind(n string) pbeam.NoiseKind {
	switch n {
	case "l":
		return pbeam.LaplaceNoise{}
	case "g":
		return pbeam.GaussianNoise{}
	}
	return nil
}

type builder struct {
	p    *prog
	s    beam.Scope
	kT   reflect.Type
	vT   reflect.Type
	base pbeam.PrivatePCollection
	kv   pbeam.PrivatePCollection
	has  bool
}

func (b *builder) make(spec *pbeam.PrivacySpec, idT reflect.Type) {
	p := b.p
	var ids, recs []any
	list := []Rec{}
	for _, r := range p.Recs {
		id := conv(idT, float64(r.U), "u")
		rec := Rec{U: fmt.Sprint("u", r.U), N: r.U, Sub: &Sub{r.U}, K: r.K, V: r.V}
		if r.U == 0 {
			rec.Sub = nil
		}
		ids = append(ids, id.Interface())
		recs = append(recs, rec)
		list = append(list, rec)
	}
	if p.Made == "kv" {
		b.base = pbeam.MakePrivate(b.s, beam.SimSource(b.s, idT, recT, ids, recs), spec)
	} else {
		b.base = pbeam.MakePrivateFromStruct(b.s, beam.CreateList(b.s, list), spec, p.Made)
	}
	if p.Pre != nil {
		b.base = pbeam.ParDo(b.s, doFn(*p.Pre, []reflect.Type{recT}, []reflect.Type{recT}, func(in []reflect.Value, emit func(...reflect.Value)) {
			emit(in[0])
		}), b.base)
	}
	for _, a := range p.Aggs {
		if a.Via != "k" {
			b.has = true
		}
	}
	if !b.has {
		return
	}
	b.kv = pbeam.ParDo(b.s, doFn(p.Shape, []reflect.Type{recT}, []reflect.Type{b.kT, b.vT}, func(in []reflect.Value, emit func(...reflect.Value)) {
		r := in[0].Interface().(Rec)
		emit(keyOf(b.kT, r.K), valOf(b.vT, r.V))
	}), b.base)
	if p.Stage != nil {
		what := p.Stage.What
		b.kv = pbeam.ParDo(b.s, doFn(p.Stage.shape, []reflect.Type{b.kT, b.vT}, []reflect.Type{b.kT, b.vT}, func(in []reflect.Value, emit func(...reflect.Value)) {
			if what == "drop" && strings.HasPrefix(fmt.Sprint(in[1].Interface()), "-") {
				return
			}
			emit(in[0], in[1])
			if what == "dup" {
				emit(in[0], in[1])
			}
		}), b.kv)
	}
}

func number(t string) float64 {
	x, err := strconv.ParseFloat(t, 64)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return x
}

func override(set map[string]string, to map[string]*float64) {
	for k, v := range set {
		if p, ok := to[k]; ok {
			*p = number(v)
		}
	}
}

func (b *builder) agg(i int) beam.PCollection {
	a := b.p.Aggs[i]
	override(a.Set, map[string]*float64{"eps": &a.Eps, "del": &a.Del, "peps": &a.PEps, "pdel": &a.PDel, "lo": &a.Lo, "hi": &a.Hi})
	if v, ok := a.Set["rank"]; ok {
		a.Ranks = append(append([]float64{}, a.Ranks...), number(v))
	}
	s := b.s.Scope("a" + strconv.Itoa(i))
	col := b.kv
	switch a.Via {
	case "k":
		col = pbeam.ParDo(s, doFn(b.p.Shape, []reflect.Type{recT}, []reflect.Type{b.kT}, func(in []reflect.Value, emit func(...reflect.Value)) {
			emit(keyOf(b.kT, in[0].Interface().(Rec).K))
		}), b.base)
	case "dropv":
		col = pbeam.DropValue(s, b.kv)
	case "dropk":
		col = pbeam.DropKey(s, b.kv)
	case "2x1":
		col = pbeam.ParDo(s, doFn(b.p.Last, []reflect.Type{b.kT, b.vT}, []reflect.Type{b.kT}, func(in []reflect.Value, emit func(...reflect.Value)) {
			emit(in[0])
		}), b.kv)
	}
	var public any
	if a.Pub != nil {
		n := len(a.Pub.Keys)
		sl := reflect.MakeSlice(reflect.SliceOf(b.kT), n, n)
		for j, k := range a.Pub.Keys {
			sl.Index(j).Set(keyOf(b.kT, k))
		}
		switch a.Pub.Kind {
		case "slice":
			public = sl.Interface()
		case "array":
			arr := reflect.New(reflect.ArrayOf(n, b.kT)).Elem()
			reflect.Copy(arr, sl)
			public = arr.Interface()
		case "pcol":
			public = beam.CreateList(s, sl.Interface())
		case "othertype":
			public = []complex64{1}
		case "otherarray":
			public = [1]complex64{1}
		case "otherpcol":
			public = beam.CreateList(s, []int8{1})
		case "map":
			public = map[string]bool{"k1": true}
		case "invalid":
			public = beam.PCollection{}
		default:
			panic("harness: public " + a.Pub.Kind)
		}
	}
	sel := pbeam.PartitionSelectionParams{Epsilon: a.PEps, Delta: a.PDel}
	nk := noiseKind(a.Noise)
	switch a.Op {
	case "Count":
		return pbeam.Count(s, col, pbeam.CountParams{NoiseKind: nk, AggregationEpsilon: a.Eps, AggregationDelta: a.Del, PartitionSelectionParams: sel,
			PublicPartitions: public, MaxPartitionsContributed: a.L0, MaxValue: a.MaxV, AllowNegativeOutputs: a.Neg})
	case "DistinctPrivacyID":
		return pbeam.DistinctPrivacyID(s, col, pbeam.DistinctPrivacyIDParams{NoiseKind: nk, AggregationEpsilon: a.Eps, AggregationDelta: a.Del,
			PartitionSelectionDelta: a.PDel, PublicPartitions: public, MaxPartitionsContributed: a.L0})
	case "SumPerKey":
		return pbeam.SumPerKey(s, col, pbeam.SumParams{NoiseKind: nk, AggregationEpsilon: a.Eps, AggregationDelta: a.Del, PartitionSelectionParams: sel,
			PublicPartitions: public, MaxPartitionsContributed: a.L0, MinValue: a.Lo, MaxValue: a.Hi})
	case "MeanPerKey":
		return pbeam.MeanPerKey(s, col, pbeam.MeanParams{NoiseKind: nk, AggregationEpsilon: a.Eps, AggregationDelta: a.Del, PartitionSelectionParams: sel,
			PublicPartitions: public, MaxPartitionsContributed: a.L0, MaxContributionsPerPartition: a.Linf, MinValue: a.Lo, MaxValue: a.Hi})
	case "VariancePerKey", "VarianceStatisticsPerKey":
		vp := pbeam.VarianceParams{NoiseKind: nk, AggregationEpsilon: a.Eps, AggregationDelta: a.Del, PartitionSelectionParams: sel,
			PublicPartitions: public, MaxPartitionsContributed: a.L0, MaxContributionsPerPartition: a.Linf, MinValue: a.Lo, MaxValue: a.Hi}
		if a.Op == "VariancePerKey" {
			return pbeam.VariancePerKey(s, col, vp)
		}
		return pbeam.VarianceStatisticsPerKey(s, col, vp)
	case "QuantilesPerKey":
		return pbeam.QuantilesPerKey(s, col, pbeam.QuantilesParams{NoiseKind: nk, AggregationEpsilon: a.Eps, AggregationDelta: a.Del, PartitionSelectionParams: sel,
			PublicPartitions: public, MaxPartitionsContributed: a.L0, MaxContributionsPerPartition: a.Linf, MinValue: a.Lo, MaxValue: a.Hi, Ranks: a.Ranks})
	case "DistinctPerKey":
		return pbeam.DistinctPerKey(s, col, pbeam.DistinctPerKeyParams{NoiseKind: nk, AggregationEpsilon: a.Eps, AggregationDelta: a.Del, PartitionSelectionParams: sel,
			PublicPartitions: public, MaxPartitionsContributed: a.L0, MaxContributionsPerPartition: a.Linf})
	case "SelectPartitions":
		return pbeam.SelectPartitions(s, col, pbeam.SelectPartitionsParams{Epsilon: a.PEps, Delta: a.PDel, MaxPartitionsContributed: a.L0})
	}
	panic("harness: op " + a.Op)
}

func text(v any) string {
	x := reflect.ValueOf(v)
	switch x.Kind() {
	case reflect.Float64:
		return strconv.FormatFloat(x.Float(), 'g', -1, 64)
	case reflect.Slice:
		var l []string
		for i := 0; i < x.Len(); i++ {
			l = append(l, text(x.Index(i).Interface()))
		}
		return strings.Join(l, " ")
	case reflect.Struct:
		var l []string
		for i := 0; i < x.NumField(); i++ {
			l = append(l, text(x.Field(i).Interface()))
		}
		return strings.Join(l, " ")
	}
	return fmt.Sprint(v)
}

// guarded runs a construction step; it reports the end of the process and panics.
func guarded(r *run, f func()) (ok bool) {
	defer func() {
		switch e := recover().(type) {
		case nil:
			ok = true
		case rt.Exit:
			r.Fatal = e.Msg
		case rt.Stuck:
			r.Panic = e.Msg
		default:
			m := fmt.Sprint(e)
			if strings.HasPrefix(m, "harness") {
				panic(m)
			}
			r.Panic = m
		}
	}()
	f()
	return
}

func one(p *prog, plan *beam.Plan) *run {
	r := &run{Keys: map[string]string{}, Outs: [][][2]string{}}
	around = p.Around
	override(p.Spec.Set, map[string]*float64{"aeps": &p.Spec.AEps, "adel": &p.Spec.ADel, "peps": &p.Spec.PEps, "pdel": &p.Spec.PDel})
	spec, err := pbeam.NewPrivacySpec(pbeam.PrivacySpecParams{AggregationEpsilon: p.Spec.AEps, AggregationDelta: p.Spec.ADel,
		PartitionSelectionEpsilon: p.Spec.PEps, PartitionSelectionDelta: p.Spec.PDel, PreThreshold: p.Spec.Pre, TestMode: pbeam.TestMode(p.Spec.Test)})
	if err != nil {
		r.SpecErr = err.Error()
		return r
	}
	pl, root := beam.NewPipelineWithRoot()
	b := &builder{p: p, s: root, kT: typ(p.Key), vT: typ(p.Val)}
	want := make([]beam.PCollection, len(p.Aggs))
	bs := []*builder{b}
	if p.Two {
		bs = append(bs, &builder{p: p, s: root.Scope("two"), kT: b.kT, vT: b.vT})
	}
	for _, c := range bs {
		if !guarded(r, func() { c.make(spec, typ(p.ID)) }) {
			return r
		}
	}
	if p.Threads {
		var bodies []func()
		for i := range p.Aggs {
			i := i
			bodies = append(bodies, func() { want[i] = bs[i%len(bs)].agg(i); r.Built++ })
		}
		s := rt.Run(bodies, nil, p.TSeed|1, p.TProb, 5000000)
		r.Tsw = len(s.Switches) / 2
		r.Fatal, r.Panic = s.DeadMsg, s.StuckMsg
	} else {
		for i := range p.Aggs {
			if !guarded(r, func() { want[i] = bs[i%len(bs)].agg(i); r.Built++ }) {
				break
			}
		}
	}
	if r.Fatal != "" || r.Panic != "" || plan == nil {
		return r
	}
	res, outs := beam.Run(pl, plan, want)
	r.Result = res
	r.H = strconv.FormatUint(res.Hash, 16)
	for _, o := range outs {
		l := [][2]string{}
		for _, kv := range o {
			l = append(l, [2]string{fmt.Sprint(kv[0]), text(kv[1])})
		}
		r.Outs = append(r.Outs, l)
	}
	add := func(k int64) { r.Keys[strconv.FormatInt(k, 10)] = fmt.Sprint(keyOf(b.kT, k).Interface()) }
	for _, x := range p.Recs {
		add(x.K)
	}
	for _, a := range p.Aggs {
		if a.Pub != nil {
			for _, k := range a.Pub.Keys {
				add(k)
			}
		}
	}
	return r
}

func main() {
	cryptorand.Reader = rt.Reader
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		rep := handle(line)
		b, err := json.Marshal(rep)
		if err != nil {
			b, _ = json.Marshal(map[string]string{"harness": err.Error()})
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

func handle(line []byte) (rep any) {
	defer func() {
		if e := recover(); e != nil {
			rep = map[string]string{"harness": fmt.Sprint(e)}
		}
	}()
	var req struct {
		Seed  uint64 `json:"seed"`
		Progs []prog `json:"progs"`
	}
	if err := json.Unmarshal(line, &req); err != nil {
		return map[string]string{"harness": err.Error()}
	}
	resetAll(req.Seed)
	beam.SimReset()
	var all [][]*run
	for i := range req.Progs {
		p := &req.Progs[i]
		var l []*run
		if len(p.Plans) == 0 {
			l = append(l, one(p, nil))
		}
		for j := range p.Plans {
			l = append(l, one(p, &p.Plans[j]))
		}
		all = append(all, l)
	}
	return map[string]any{"runs": all}
}
