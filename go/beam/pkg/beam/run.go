package beam

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"

	"github.com/apache/beam/sdks/v2/go/pkg/beam/core/funcx"
	"github.com/apache/beam/sdks/v2/go/pkg/beam/core/typex"
	"github.com/apache/beam/sdks/v2/go/pkg/beam/core/util/reflectx"
	"github.com/google/differential-privacy/go/v3/zsim/mrand"
	"github.com/google/differential-privacy/go/v3/zsim/rt"
)

// Fault hits the attempt with the given number.
type Fault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"` // "crash": lost after Off elements; "dup": finished but lost
	Off  int    `json:"off"`
}

// Plan decides everything the runner may choose.
type Plan struct {
	Seed    uint64    `json:"seed"`
	Direct  bool      `json:"direct"` // one process, no serialisation
	Bundle  int       `json:"bundle"` // largest bundle
	Workers int       `json:"workers"`
	Prob    uint64    `json:"prob"` // of switching between workers at a statement, of 1<<24
	Lift    int       `json:"lift"`  // per mille of combine bundles that are lifted
	Empty   int       `json:"empty"` // per mille of merges with an empty accumulator
	Faults  []Fault   `json:"faults"`
	Noise   string    `json:"noise"` // "zero", "hash", "abs" (outcomes instead of noise), "real"
	Unif    float64   `json:"unif"`  // of every uniform draw; negative: hashed
	Probe   []float64 `json:"probe"`
	Sample  uint64    `json:"sample"` // decides the random sampling of contributions
}

// F travels as text: it may be infinite.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	return []byte(strconv.Quote(strconv.FormatFloat(float64(f), 'g', -1, 64))), nil
}

type NoiseCall struct {
	Recv   string `json:"recv"`
	Method string `json:"m"`
	Args   []F    `json:"a"`
	Out    F      `json:"out"`
}

// Extract records one production of an output by a combine or DoFn that drew noise
// or a selection.
type Extract struct {
	Node  int         `json:"node"`
	Path  string      `json:"path"`
	Key   string      `json:"key"`
	Calls []NoiseCall `json:"calls"`
	U     []float64   `json:"u"`
	Kept  bool        `json:"kept"`
	Probe string      `json:"probe"` // one character per probed uniform
	probe *float64
	h     uint64
}

type Result struct {
	Records  []*Extract     `json:"dp"`
	Faults   map[string]int `json:"faults"`
	Attempts int            `json:"attempts"`
	Bundles  int            `json:"bundles"`
	Switches int            `json:"switches"`
	Err      string         `json:"err"`
	Dead     string         `json:"dead"`
	Hash     uint64         `json:"-"`
}

type pipelineError struct{ msg string }

func fail(format string, args ...any) { panic(pipelineError{fmt.Sprintf(format, args...)}) }

type runner struct {
	plan   *Plan
	rng    uint64
	faults map[int]Fault
	res    *Result
	ctx    map[int]*Extract
	insts  map[any]any
	hash   uint64
}

func mix(h uint64, b []byte) uint64 {
	h ^= 0xcbf29ce484222325
	for _, c := range b {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	return h ^ h>>32
}

func (r *runner) next() uint64 {
	r.rng += 0x9e3779b97f4a7c15
	z := r.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *runner) n(k int) int { return int(r.next() % uint64(k)) }

func (r *runner) note(v ...uint64) {
	for _, x := range v {
		r.hash = (r.hash ^ x) * 0x100000001b3
		r.hash ^= r.hash >> 31
	}
}

// Run executes the pipeline.  Outputs of the collections asked for come back as
// pairs of printed key and value (the key is empty for single values).
func Run(p *Pipeline, plan *Plan, want []PCollection) (*Result, [][][2]any) {
	r := &runner{plan: plan, rng: plan.Seed, faults: map[int]Fault{}, ctx: map[int]*Extract{}, insts: map[any]any{},
		res: &Result{Faults: map[string]int{}, Records: []*Extract{}}}
	for _, f := range plan.Faults {
		r.faults[f.At] = f
	}
	rt.NoiseFn, rt.UniformFn = r.noise, r.uniform
	defer func() { rt.NoiseFn, rt.UniformFn = nil, nil }()
	var outs [][][2]any
	r.guard(func() {
		for _, n := range p.nodes {
			r.node(n)
		}
		for _, c := range want {
			var o [][2]any
			for _, e := range c.n.out {
				if typex.IsKV(c.n.typ) {
					o = append(o, [2]any{show(e.k), e.v})
				} else {
					o = append(o, [2]any{"", show(e.v)})
				}
			}
			outs = append(outs, o)
		}
	})
	r.res.Hash = r.hash
	return r.res, outs
}

func show(v any) string { return fmt.Sprintf("%v", v) }

func (r *runner) guard(f func()) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case pipelineError:
			if r.res.Err == "" {
				r.res.Err = e.msg
			}
		case rt.Exit:
			r.res.Dead = e.Msg
		case rt.Stuck:
			r.res.Dead = e.Msg
		default:
			if r.res.Err == "" {
				r.res.Err = fmt.Sprintf("panic: %v", e)
			}
		}
	}()
	f()
}

// ---------------------------------------------------------------- hooks

func (r *runner) noise(recv, method string, args []float64) (float64, bool) {
	x := r.ctx[rt.Task()]
	if x == nil {
		fail("noise was drawn outside of a transform (%s %s %v)", recv, method, args)
	}
	if x.probe != nil {
		return args[0], method != "Threshold"
	}
	c := NoiseCall{Recv: recv, Method: method}
	for _, a := range args {
		c.Args = append(c.Args, F(a))
	}
	use := method != "Threshold"
	if use {
		c.Out = F(args[0])
		if r.plan.Noise == "hash" {
			h := mix(x.h+uint64(len(x.Calls))*77, []byte(x.Key))
			c.Out += F(int(h%41) - 20)
		}
		if r.plan.Noise == "abs" {
			h := mix(r.plan.Sample+uint64(len(x.Calls))*77, []byte(x.Key))
			c.Out = F(int(h%81) - 20)
		}
		if r.plan.Noise == "real" {
			use = false
		}
	}
	x.Calls = append(x.Calls, c)
	return float64(c.Out), use
}

func (r *runner) uniform() (float64, bool) {
	x := r.ctx[rt.Task()]
	if x == nil {
		fail("a selection was drawn outside of a transform")
	}
	if x.probe != nil {
		return *x.probe, true
	}
	u := r.plan.Unif
	if u < 0 {
		u = float64(mix(x.h+uint64(len(x.U))*131+7, []byte(x.Key))>>11) / (1 << 53)
	}
	x.U = append(x.U, u)
	return u, true
}

func (r *runner) enter(n *node, key any) *Extract {
	x := &Extract{Node: n.id, Path: n.path, Key: show(key), h: mix(r.plan.Sample+uint64(n.id)*1000003, nil)}
	r.ctx[rt.Task()] = x
	return x
}

func (r *runner) leave(x *Extract, commit *[]*Extract) {
	delete(r.ctx, rt.Task())
	if len(x.Calls)+len(x.U) > 0 {
		*commit = append(*commit, x)
	}
}

// ------------------------------------------------------------ instances

func (r *runner) instance(fn any) any {
	v := reflect.ValueOf(fn)
	if v.Kind() == reflect.Func {
		return fn
	}
	if _, ok := fn.(reflectx.Func); ok {
		return fn
	}
	if r.plan.Direct {
		if x, ok := r.insts[fn]; ok {
			return x
		}
		r.insts[fn] = fn
		r.life(v, "Setup", nil)
		return fn
	}
	b, err := json.Marshal(fn)
	if err != nil {
		fail("cannot serialise %T: %v", fn, err)
	}
	t := v.Type()
	var c reflect.Value
	if t.Kind() == reflect.Ptr {
		c = reflect.New(t.Elem())
		err = json.Unmarshal(b, c.Interface())
	} else {
		c = reflect.New(t)
		err = json.Unmarshal(b, c.Interface())
		c = c.Elem()
	}
	if err != nil {
		fail("cannot deserialise %T: %v", fn, err)
	}
	r.life(c, "Setup", nil)
	return c.Interface()
}

func (r *runner) life(v reflect.Value, name string, emit func([]reflect.Value)) {
	if v.Kind() == reflect.Func {
		return
	}
	m := v.MethodByName(name)
	if !m.IsValid() {
		return
	}
	r.call(m, nil, nil, emit)
}

var sigs = map[reflect.Type]*funcx.Fn{}

func sig(t reflect.Type, v reflect.Value) *funcx.Fn {
	f, ok := sigs[t]
	if !ok {
		var err error
		f, err = funcx.New(reflectx.MakeFunc(v.Interface()))
		if err != nil {
			fail("%v", err)
		}
		sigs[t] = f
	}
	return f
}

func toArg(t reflect.Type, v any) reflect.Value {
	if v == nil {
		return reflect.Zero(t)
	}
	x := reflect.ValueOf(v)
	if x.Type().AssignableTo(t) {
		return x
	}
	if t.Kind() == reflect.Slice && x.Kind() == reflect.Slice {
		if x.IsNil() {
			return reflect.Zero(t)
		}
		out := reflect.MakeSlice(t, x.Len(), x.Len())
		for i := 0; i < x.Len(); i++ {
			out.Index(i).Set(toArg(t.Elem(), x.Index(i).Interface()))
		}
		return out
	}
	fail("%v passed for %v", x.Type(), t)
	panic(0)
}

// call runs a method; it returns its value results.
func (r *runner) call(m reflect.Value, vals []any, iters [][]any, emit func([]reflect.Value)) []any {
	f := sig(m.Type(), m)
	args := make([]reflect.Value, len(f.Param))
	vi, ii := 0, 0
	for i, p := range f.Param {
		switch p.Kind {
		case funcx.FnContext:
			args[i] = reflect.ValueOf(context.Background())
		case funcx.FnValue:
			if vi >= len(vals) {
				fail("%v: too few values", m.Type())
			}
			args[i] = toArg(p.T, vals[vi])
			vi++
		case funcx.FnIter, funcx.FnReIter:
			if ii >= len(iters) {
				fail("%v: too few iterators", m.Type())
			}
			data := iters[ii]
			ii++
			one := func(t reflect.Type) reflect.Value {
				pos := 0
				return reflect.MakeFunc(t, func(a []reflect.Value) []reflect.Value {
					if pos >= len(data) {
						return []reflect.Value{reflect.ValueOf(false)}
					}
					a[0].Elem().Set(toArg(t.In(0).Elem(), data[pos]))
					pos++
					return []reflect.Value{reflect.ValueOf(true)}
				})
			}
			if p.Kind == funcx.FnIter {
				args[i] = one(p.T)
			} else {
				args[i] = reflect.MakeFunc(p.T, func([]reflect.Value) []reflect.Value { return []reflect.Value{one(p.T.Out(0))} })
			}
		case funcx.FnEmit:
			args[i] = reflect.MakeFunc(p.T, func(a []reflect.Value) []reflect.Value { emit(a); return nil })
		default:
			fail("%v: unsupported parameter %v", m.Type(), p.T)
		}
	}
	if vi != len(vals) || ii != len(iters) {
		fail("%v: too many values", m.Type())
	}
	var out []any
	for i, o := range m.Call(args) {
		if f.Ret[i].Kind == funcx.RetError {
			if e, _ := o.Interface().(error); e != nil {
				fail("%v", e)
			}
			continue
		}
		out = append(out, o.Interface())
	}
	return out
}

// ---------------------------------------------------------------- elements

func (r *runner) copy(t reflect.Type, v any) any {
	b, err := encode(t, v)
	if err != nil {
		fail("%v", err)
	}
	c, err := decode(t, b)
	if err != nil {
		fail("%v", err)
	}
	return c
}

// load reads an element for an attempt: a fresh copy, except in one process.
func (r *runner) load(t typex.FullType, e elem) elem {
	if r.plan.Direct {
		return e
	}
	switch {
	case typex.IsKV(t):
		return elem{k: r.copy(t.Components()[0].Type(), e.k), v: r.copy(t.Components()[1].Type(), e.v)}
	case typex.IsCoGBK(t):
		out := elem{k: r.copy(t.Components()[0].Type(), e.k)}
		for i, vs := range e.vs {
			var c []any
			for _, v := range vs {
				c = append(c, r.copy(t.Components()[i+1].Type(), v))
			}
			out.vs = append(out.vs, c)
		}
		return out
	}
	return elem{v: r.copy(t.Type(), e.v)}
}

func (r *runner) check(n *node, e elem) {
	one := func(v any, t reflect.Type) {
		if v == nil || reflect.TypeOf(v) != t {
			fail("%s: produced a %T where the collection holds %v", n.path, v, t)
		}
	}
	if typex.IsKV(n.typ) {
		one(e.k, n.typ.Components()[0].Type())
		one(e.v, n.typ.Components()[1].Type())
		return
	}
	one(e.v, n.typ.Type())
}

func (r *runner) shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.n(i+1))
	}
}

// bundles splits the elements, in a chosen order.
func (r *runner) bundles(in []elem) [][]elem {
	c := append([]elem{}, in...)
	r.shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
	var out [][]elem
	for len(c) > 0 {
		k := 1 + r.n(r.plan.Bundle)
		if k > len(c) {
			k = len(c)
		}
		out = append(out, c[:k])
		c = c[k:]
	}
	if len(out) == 0 && r.n(2) == 0 {
		out = append(out, nil) // an empty bundle
	}
	return out
}

type lost struct{}

// stage runs the bundles on workers and returns what each committed.
func (r *runner) stage(n *node, fn any, nb int, size func(b int) int, body func(inst any, b, crash int) any) []any {
	out := make([]any, nb)
	nextB := 0
	workers := r.plan.Workers
	if r.plan.Direct || workers < 1 {
		workers = 1
	}
	work := func() {
		var inst any
		for {
			if nextB >= nb {
				return
			}
			b := nextB
			nextB++
			for {
				if inst == nil {
					inst = r.instance(fn)
				}
				a := r.res.Attempts
				r.res.Attempts++
				f := r.faults[a]
				if r.plan.Direct {
					f.Kind = ""
				}
				r.note(uint64(n.id), uint64(b), uint64(size(b)), uint64(rt.Task()+2))
				if f.Kind == "crash" {
					r.res.Faults["bundle-crash"]++
					off := f.Off % (size(b) + 1)
					r.note(uint64(off) + 99)
					r.partial(func() { body(inst, b, off) })
					inst = nil
					continue
				}
				v := body(inst, b, -1)
				if f.Kind == "dup" {
					r.res.Faults["bundle-lost-after-finish"]++
					inst = nil
					r.note(12345)
					continue
				}
				out[b] = v
				break
			}
		}
	}
	r.res.Bundles += nb
	if workers == 1 {
		work()
		return out
	}
	var bodies []func()
	var first *pipelineError
	for i := 0; i < workers; i++ {
		bodies = append(bodies, func() {
			defer func() {
				if e := recover(); e != nil {
					if p, ok := e.(pipelineError); ok {
						if first == nil {
							first = &p
						}
						return
					}
					panic(e)
				}
			}()
			work()
		})
	}
	s := rt.Run(bodies, nil, r.next()|1, r.plan.Prob, 5000000)
	r.res.Switches += len(s.Switches) / 2
	for _, x := range s.Switches {
		r.note(uint64(x))
	}
	if s.DeadMsg != "" {
		panic(rt.Exit{Msg: s.DeadMsg})
	}
	if s.StuckMsg != "" {
		panic(rt.Stuck{Msg: s.StuckMsg})
	}
	if first != nil {
		panic(*first)
	}
	return out
}

// partial runs an attempt that is lost on the way.
func (r *runner) partial(f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(lost); !ok {
				panic(e)
			}
		}
	}()
	f()
}

func (r *runner) node(n *node) {
	if n.done {
		return
	}
	n.done = true
	switch n.kind {
	case "source":
		n.out = n.src
	case "flatten":
		for _, i := range n.in {
			n.out = append(n.out, i.out...)
		}
	case "gbk":
		n.out = r.gbk(n)
	case "pardo":
		n.out = r.pardo(n)
	case "combine":
		n.out = r.combine(n)
	case "native":
		n.out = n.nat(r, n)
	}
	if n.kind != "gbk" {
		for _, e := range n.out {
			r.check(n, e)
		}
	}
}

type committed struct {
	out []elem
	rec []*Extract
}

func (r *runner) pardo(n *node) []elem {
	in := n.in[0]
	bs := r.bundles(in.out)
	res := r.stage(n, n.fn, len(bs), func(b int) int { return len(bs[b]) }, func(inst any, b, crash int) any {
		c := &committed{}
		m := process(inst)
		v := reflect.ValueOf(inst)
		emit := func(a []reflect.Value) {
			var vals []any
			for _, x := range a {
				vals = append(vals, x.Interface())
			}
			c.out = append(c.out, toElem(vals))
		}
		r.life(v, "StartBundle", emit)
		for i, e := range bs[b] {
			if i == crash {
				panic(lost{})
			}
			e = r.load(in.typ, e)
			x := r.enter(n, e.k)
			var out []any
			switch {
			case typex.IsKV(in.typ):
				out = r.call(m, []any{e.k, e.v}, nil, emit)
			case typex.IsCoGBK(in.typ):
				out = r.call(m, []any{e.k}, e.vs, emit)
			default:
				out = r.call(m, []any{e.v}, nil, emit)
			}
			x.Kept = true
			r.leave(x, &c.rec)
			if len(out) > 0 {
				c.out = append(c.out, toElem(out))
			}
		}
		if crash >= 0 {
			panic(lost{})
		}
		r.life(v, "FinishBundle", emit)
		return c
	})
	return r.commit(res)
}

func (r *runner) commit(res []any) []elem {
	var out []elem
	for _, x := range res {
		c := x.(*committed)
		out = append(out, c.out...)
		r.res.Records = append(r.res.Records, c.rec...)
	}
	return out
}

func toElem(vals []any) elem {
	if len(vals) == 2 {
		return elem{k: vals[0], v: vals[1]}
	}
	if len(vals) != 1 {
		fail("%d results", len(vals))
	}
	return elem{v: vals[0]}
}

type group struct {
	key  []byte
	k    any
	vals [][]any
}

func (r *runner) group(ins []*node) []*group {
	idx := map[string]*group{}
	var out []*group
	for i, in := range ins {
		kT := in.typ.Components()[0].Type()
		for _, e := range in.out {
			b, err := encode(kT, e.k)
			if err != nil {
				fail("%v", err)
			}
			g := idx[string(b)]
			if g == nil {
				g = &group{key: b, k: e.k, vals: make([][]any, len(ins))}
				idx[string(b)] = g
				out = append(out, g)
			}
			g.vals[i] = append(g.vals[i], e.v)
		}
	}
	r.shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	for _, g := range out {
		for _, vs := range g.vals {
			r.shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
		}
	}
	return out
}

func (r *runner) gbk(n *node) []elem {
	var out []elem
	for _, g := range r.group(n.in) {
		out = append(out, elem{k: g.k, vs: g.vals})
	}
	return out
}

type acc struct {
	key []byte
	k   any
	v   any    // in one process
	b   []byte // otherwise
}

func (r *runner) combine(n *node) []elem {
	in := n.in[0]
	c := reflect.ValueOf(n.fn)
	accT := c.MethodByName("MergeAccumulators").Type().Out(0)
	save := func(a *acc, v any) {
		if r.plan.Direct {
			a.v = v
			return
		}
		b, err := encode(accT, v)
		if err != nil {
			fail("accumulator: %v", err)
		}
		a.b = b
	}
	read := func(a *acc) any {
		if a.b == nil {
			return a.v
		}
		v, err := decode(accT, a.b)
		if err != nil {
			fail("accumulator: %v", err)
		}
		return v
	}
	one := func(inst any, method string, args ...any) any {
		m := reflect.ValueOf(inst).MethodByName(method)
		if !m.IsValid() {
			if method == "ExtractOutput" {
				return args[0]
			}
			fail("%T has no %s", inst, method)
		}
		return r.call(m, args, nil, nil)[0]
	}
	kT := in.typ.Components()[0].Type()

	// Stage 1: inputs into accumulators.
	var bs [][]elem
	if r.plan.Direct {
		c := append([]elem{}, in.out...)
		r.shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
		if len(c) > 0 {
			bs = [][]elem{c}
		}
	} else {
		bs = r.bundles(in.out)
	}
	lift := make([]bool, len(bs))
	for i := range lift {
		lift[i] = r.plan.Direct || r.n(1000) < r.plan.Lift
	}
	res := r.stage(n, n.fn, len(bs), func(b int) int { return len(bs[b]) }, func(inst any, b, crash int) any {
		var order []*acc
		cur := map[string]*acc{}
		vals := map[*acc]any{}
		for i, e := range bs[b] {
			if i == crash {
				panic(lost{})
			}
			kb, err := encode(kT, e.k)
			if err != nil {
				fail("%v", err)
			}
			e = r.load(in.typ, e)
			a := cur[string(kb)]
			if a == nil || !lift[b] {
				a = &acc{key: kb, k: e.k}
				cur[string(kb)] = a
				order = append(order, a)
				vals[a] = one(inst, "CreateAccumulator")
			}
			vals[a] = one(inst, "AddInput", vals[a], e.v)
		}
		if crash >= 0 {
			panic(lost{})
		}
		for _, a := range order {
			save(a, vals[a])
		}
		return order
	})
	idx := map[string][]*acc{}
	var keys []*acc
	for _, x := range res {
		for _, a := range x.([]*acc) {
			if idx[string(a.key)] == nil {
				keys = append(keys, a)
			}
			idx[string(a.key)] = append(idx[string(a.key)], a)
		}
	}
	r.shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })

	// Stage 2: merge.  The tree is chosen before the attempts.
	type step struct {
		a, b  int // indices into the list; b < 0: an empty accumulator
		right bool
		store bool
	}
	plans := make([][]step, len(keys))
	for i, k := range keys {
		l := idx[string(k.key)]
		r.shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		live := make([]int, len(l))
		for j := range live {
			live[j] = j
		}
		for {
			empty := !r.plan.Direct && r.n(1000) < r.plan.Empty
			if len(live) == 1 && !empty {
				break
			}
			x := r.n(len(live))
			st := step{a: live[x], b: -1, right: r.n(2) == 0, store: r.n(3) == 0}
			if !empty {
				y := r.n(len(live) - 1)
				if y >= x {
					y++
				}
				st.b = live[y]
				live = append(live[:y], live[y+1:]...)
			}
			plans[i] = append(plans[i], st)
		}
	}
	var kb [][]int
	for i := 0; i < len(keys); {
		k := 1 + r.n(r.plan.Bundle)
		var b []int
		for ; k > 0 && i < len(keys); k-- {
			b = append(b, i)
			i++
		}
		kb = append(kb, b)
	}
	res = r.stage(n, n.fn, len(kb), func(b int) int { return len(kb[b]) }, func(inst any, b, crash int) any {
		var out []*acc
		for i, ki := range kb[b] {
			if i == crash {
				panic(lost{})
			}
			l := idx[string(keys[ki].key)]
			vals := make([]any, len(l))
			for j, a := range l {
				vals[j] = read(a)
			}
			last := 0
			for _, st := range plans[ki] {
				var o any
				if st.b < 0 {
					o = one(inst, "CreateAccumulator")
				} else {
					o = vals[st.b]
				}
				x, y := vals[st.a], o
				if st.right {
					x, y = y, x
				}
				m := one(inst, "MergeAccumulators", x, y)
				if st.store && !r.plan.Direct {
					m = r.copy(accT, m)
				}
				vals[st.a] = m
				last = st.a
			}
			a := &acc{key: keys[ki].key, k: keys[ki].k}
			save(a, vals[last])
			out = append(out, a)
		}
		if crash >= 0 {
			panic(lost{})
		}
		return out
	})
	var merged []*acc
	for _, x := range res {
		merged = append(merged, x.([]*acc)...)
	}
	r.shuffle(len(merged), func(i, j int) { merged[i], merged[j] = merged[j], merged[i] })

	// Stage 3: extract.
	var eb [][]*acc
	for l := merged; len(l) > 0; {
		k := 1 + r.n(r.plan.Bundle)
		if k > len(l) {
			k = len(l)
		}
		eb = append(eb, l[:k])
		l = l[k:]
	}
	res = r.stage(n, n.fn, len(eb), func(b int) int { return len(eb[b]) }, func(inst any, b, crash int) any {
		out := &committed{}
		for i, a := range eb[b] {
			if i == crash {
				panic(lost{})
			}
			if len(r.plan.Probe) > 0 && a.b == nil {
				bb, err := encode(accT, a.v)
				if err != nil {
					fail("accumulator: %v", err)
				}
				a.b = bb
			}
			x := r.enter(n, a.k)
			v := one(inst, "ExtractOutput", read(a))
			x.Kept = kept(v)
			r.leave(x, &out.rec)
			if len(x.U) > 0 && len(r.plan.Probe) > 0 {
				p := r.enter(n, a.k)
				for _, u := range r.plan.Probe {
					u := u
					p.probe = &u
					if kept(one(inst, "ExtractOutput", read(a))) {
						x.Probe += "1"
					} else {
						x.Probe += "0"
					}
				}
				delete(r.ctx, rt.Task())
			}
			out.out = append(out.out, elem{k: a.k, v: v})
		}
		if crash >= 0 {
			panic(lost{})
		}
		return out
	})
	return r.commit(res)
}

func kept(v any) bool {
	x := reflect.ValueOf(v)
	switch x.Kind() {
	case reflect.Bool:
		return x.Bool()
	case reflect.Ptr:
		return !x.IsNil()
	case reflect.Slice:
		return x.Len() > 0
	}
	return true
}

// ---------------------------------------------------------- native transforms

func (s Scope) native(col PCollection, typ typex.FullType, f func(r *runner, n *node) []elem) PCollection {
	need(col)
	return s.add(&node{kind: "native", in: []*node{col.n}, typ: typ, nat: f})
}

func SimSumPerKey(s Scope, col PCollection) PCollection {
	_, vT := ValidateKVType(col)
	switch vT.Type().Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
		reflect.Float32, reflect.Float64:
	default:
		panic(fmt.Sprintf("SumPerKey at %s of %v", s.path, vT))
	}
	return s.native(col, col.Type(), func(r *runner, n *node) []elem {
		var out []elem
		for _, g := range r.group(n.in) {
			t := vT.Type()
			x := reflect.New(t).Elem()
			for _, v := range g.vals[0] {
				y := reflect.ValueOf(v)
				switch {
				case x.CanInt():
					x.SetInt(int64(x.Int() + y.Int()))
					x = reflect.ValueOf(x.Interface()) // keep the width
				case x.CanUint():
					x.SetUint(x.Uint() + y.Uint())
				default:
					x.SetFloat(x.Float() + y.Float())
				}
				z := reflect.New(t).Elem()
				z.Set(x)
				x = z
			}
			out = append(out, elem{k: g.k, v: x.Interface()})
		}
		return out
	})
}

func SimLargestPerKey(s Scope, col PCollection, limit int, less any, smallest bool) PCollection {
	kT, vT := ValidateKVType(col)
	if limit < 1 {
		panic(fmt.Sprintf("top at %s: n must be positive, is %d", s.path, limit))
	}
	f := reflect.ValueOf(less)
	ft := f.Type()
	if ft.NumIn() != 2 || ft.NumOut() != 1 || ft.Out(0).Kind() != reflect.Bool {
		panic(fmt.Sprintf("top at %s: bad less function %v", s.path, ft))
	}
	typ := typex.NewKV(kT, single(reflect.SliceOf(vT.Type())))
	return s.native(col, typ, func(r *runner, n *node) []elem {
		defer func() { mrand.Bit = nil }()
		var out []elem
		for _, g := range r.group(n.in) {
			type item struct {
				b []byte
				h uint64
				v any
			}
			var l []item
			for _, v := range g.vals[0] {
				b, err := encode(vT.Type(), v)
				if err != nil {
					fail("%v", err)
				}
				// The order of lists within the value must not matter.
				base := mix(r.plan.Sample+uint64(n.id)*7919, g.key)
				h := base
				for _, c := range b {
					h += mix(base, []byte{c})
				}
				l = append(l, item{b, h, v})
			}
			sort.SliceStable(l, func(i, j int) bool { return bytes.Compare(l[i].b, l[j].b) < 0 })
			sort.SliceStable(l, func(i, j int) bool {
				bit := l[i].h < l[j].h
				mrand.Bit = &bit
				o := f.Call([]reflect.Value{toArg(ft.In(0), l[i].v), toArg(ft.In(1), l[j].v)})
				mrand.Bit = nil
				return o[0].Bool()
			})
			if len(l) > limit {
				r.res.Faults["contributions-dropped"]++
				if smallest {
					l = l[:limit]
				} else {
					l = l[len(l)-limit:]
				}
			}
			sl := reflect.MakeSlice(reflect.SliceOf(vT.Type()), 0, len(l))
			for _, x := range l {
				sl = reflect.Append(sl, reflect.ValueOf(x.v))
			}
			out = append(out, elem{k: g.k, v: sl.Interface()})
		}
		return out
	})
}

func SimDistinct(s Scope, col PCollection) PCollection {
	return s.native(col, col.Type(), func(r *runner, n *node) []elem {
		seen := map[string]bool{}
		var out []elem
		in := append([]elem{}, n.in[0].out...)
		r.shuffle(len(in), func(i, j int) { in[i], in[j] = in[j], in[i] })
		for _, e := range in {
			var k []byte
			ts := inputTypes(n.typ)
			vals := []any{e.v}
			if len(ts) == 2 {
				vals = []any{e.k, e.v}
			}
			for i, t := range ts {
				b, err := encode(t, vals[i])
				if err != nil {
					fail("%v", err)
				}
				k = append(k, b...)
			}
			if !seen[string(k)] {
				seen[string(k)] = true
				out = append(out, e)
			}
		}
		return out
	})
}

func SimFilter(s Scope, col PCollection, fn any, keep bool) PCollection {
	f := reflect.ValueOf(fn)
	return s.native(col, col.Type(), func(r *runner, n *node) []elem {
		var out []elem
		for _, e := range n.in[0].out {
			if f.Call([]reflect.Value{toArg(f.Type().In(0), e.v)})[0].Bool() == keep {
				out = append(out, e)
			}
		}
		return out
	})
}
