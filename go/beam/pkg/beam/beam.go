// Package beam stands in for the Apache Beam SDK: the same construction API, and
// a simulated runner (run.go) that decides bundles, order, workers and faults.
package beam

import (
	"fmt"
	"reflect"

	"github.com/apache/beam/sdks/v2/go/pkg/beam/core/funcx"
	"github.com/apache/beam/sdks/v2/go/pkg/beam/core/typex"
	"github.com/apache/beam/sdks/v2/go/pkg/beam/core/util/reflectx"
)

type (
	T         = typex.T
	U         = typex.U
	V         = typex.V
	W         = typex.W
	X         = typex.X
	Y         = typex.Y
	Z         = typex.Z
	EventTime = typex.EventTime
	Window    = typex.Window
	FullType  = typex.FullType
)

var (
	TType = typex.TType
	UType = typex.UType
	VType = typex.VType
	WType = typex.WType
	XType = typex.XType
	YType = typex.YType
	ZType = typex.ZType
)

type TypeDefinition struct {
	Var reflect.Type
	T   reflect.Type
}

type Option interface{ private() }

func (TypeDefinition) private() {}

func Init() {}

type Pipeline struct{ nodes []*node }

func NewPipeline() *Pipeline { return &Pipeline{} }

func NewPipelineWithRoot() (*Pipeline, Scope) { p := NewPipeline(); return p, p.Root() }

func (p *Pipeline) Root() Scope { return Scope{p: p} }

type Scope struct {
	p    *Pipeline
	path string
}

func (s Scope) Scope(name string) Scope { return Scope{s.p, s.path + "/" + name} }
func (s Scope) IsValid() bool            { return s.p != nil }
func (s Scope) String() string           { return s.path }

// PCollection is a handle on a node's output.
type PCollection struct{ n *node }

func (c PCollection) IsValid() bool { return c.n != nil }
func (c PCollection) Type() FullType {
	if c.n == nil {
		panic("invalid PCollection")
	}
	return c.n.typ
}
func (c PCollection) String() string {
	if c.n == nil {
		return "(invalid)"
	}
	return fmt.Sprintf("{%d %v}", c.n.id, c.n.typ)
}

type elem struct {
	k, v any     // v only unless the collection is of KVs
	vs   [][]any // grouped values
}

type node struct {
	id   int
	path string
	kind string
	in   []*node
	typ  typex.FullType
	fn   any
	src  []elem
	nat  func(r *runner, n *node) []elem
	out  []elem
	done bool
}

func (s Scope) add(n *node) PCollection {
	if s.p == nil {
		panic("invalid scope")
	}
	n.id = len(s.p.nodes)
	n.path = s.path
	s.p.nodes = append(s.p.nodes, n)
	return PCollection{n}
}

func need(cols ...PCollection) {
	for _, c := range cols {
		if !c.IsValid() {
			panic("invalid PCollection")
		}
	}
}

func single(t reflect.Type) typex.FullType { return typex.New(t) }

// ValidateKVType returns the key and value types.
func ValidateKVType(col PCollection) (typex.FullType, typex.FullType) {
	need(col)
	t := col.Type()
	if !typex.IsKV(t) {
		panic(fmt.Sprintf("PCollection must be of KV type: %v", col))
	}
	return t.Components()[0], t.Components()[1]
}

func ValidateNonCompositeType(col PCollection) typex.FullType { return col.Type() }

// binding of universal types
type binds map[reflect.Type]reflect.Type

func (b binds) match(param, actual reflect.Type) error {
	switch {
	case typex.IsUniversal(param):
		if old, ok := b[param]; ok && old != actual {
			return fmt.Errorf("%v bound to %v and %v", param, old, actual)
		}
		b[param] = actual
		return nil
	case param == actual:
		return nil
	case param.Kind() == reflect.Slice && actual.Kind() == reflect.Slice:
		return b.match(param.Elem(), actual.Elem())
	}
	return fmt.Errorf("%v is not assignable to %v", actual, param)
}

func (b binds) subst(t reflect.Type) reflect.Type {
	if typex.IsUniversal(t) {
		a, ok := b[t]
		if !ok {
			panic(fmt.Sprintf("the output type %v is not bound", t))
		}
		return a
	}
	if t.Kind() == reflect.Slice {
		return reflect.SliceOf(b.subst(t.Elem()))
	}
	return t
}

func inputTypes(t typex.FullType) []reflect.Type {
	switch {
	case typex.IsKV(t):
		return []reflect.Type{t.Components()[0].Type(), t.Components()[1].Type()}
	case typex.IsCoGBK(t):
		var out []reflect.Type
		for _, c := range t.Components() {
			out = append(out, c.Type())
		}
		return out
	}
	return []reflect.Type{t.Type()}
}

func outType(ts []reflect.Type) typex.FullType {
	switch len(ts) {
	case 1:
		return single(ts[0])
	case 2:
		return typex.NewKV(single(ts[0]), single(ts[1]))
	}
	panic(fmt.Sprintf("a DoFn must produce one or two values, has %d", len(ts)))
}

func process(fn any) reflect.Value {
	v := reflect.ValueOf(fn)
	if v.Kind() == reflect.Func {
		return v
	}
	if f, ok := fn.(reflectx.Func); ok {
		return reflect.ValueOf(f)
	}
	m := v.MethodByName("ProcessElement")
	if !m.IsValid() {
		panic(fmt.Sprintf("%T has no ProcessElement", fn))
	}
	return m
}

// ParDo builds a node of a DoFn with one output.
func ParDo(s Scope, dofn any, col PCollection, opts ...Option) PCollection {
	need(col)
	m := process(dofn)
	f, err := funcx.New(reflectx.MakeFunc(m.Interface()))
	if err != nil {
		panic(err.Error())
	}
	b := binds{}
	in := inputTypes(col.Type())
	var ins []reflect.Type
	var emit reflect.Type
	for _, p := range f.Param {
		switch p.Kind {
		case funcx.FnValue:
			ins = append(ins, p.T)
		case funcx.FnIter:
			ins = append(ins, p.T.In(0).Elem())
		case funcx.FnReIter:
			ins = append(ins, p.T.Out(0).In(0).Elem())
		case funcx.FnEmit:
			if emit != nil {
				panic("more than one output")
			}
			emit = p.T
		}
	}
	if len(ins) != len(in) {
		panic(fmt.Sprintf("ParDo at %s: %v takes %d values, the input %v has %d", s.path, m.Type(), len(ins), col.Type(), len(in)))
	}
	for i := range in {
		if err := b.match(ins[i], in[i]); err != nil {
			panic(fmt.Sprintf("ParDo at %s: %v on %v: %v", s.path, m.Type(), col.Type(), err))
		}
	}
	for _, o := range opts {
		if d, ok := o.(TypeDefinition); ok {
			if !typex.IsUniversal(d.Var) {
				panic(fmt.Sprintf("type definition of %v", d.Var))
			}
			if d.T == nil {
				panic("type definition without a type")
			}
			if old, ok := b[d.Var]; ok && old != d.T {
				panic(fmt.Sprintf("type %v is already defined as %v", d.Var, old))
			}
			b[d.Var] = d.T
		}
	}
	var outs []reflect.Type
	if emit != nil {
		for i := 0; i < emit.NumIn(); i++ {
			outs = append(outs, b.subst(emit.In(i)))
		}
	} else {
		for _, r := range f.Ret {
			if r.Kind == funcx.RetValue {
				outs = append(outs, b.subst(r.T))
			}
		}
	}
	return s.add(&node{kind: "pardo", in: []*node{col.n}, fn: dofn, typ: outType(outs)})
}

// CombinePerKey builds a combine.
func CombinePerKey(s Scope, combinefn any, col PCollection, opts ...Option) PCollection {
	need(col)
	kT, vT := ValidateKVType(col)
	c := reflect.ValueOf(combinefn)
	add := c.MethodByName("AddInput")
	merge := c.MethodByName("MergeAccumulators")
	if !merge.IsValid() {
		panic(fmt.Sprintf("%T has no MergeAccumulators", combinefn))
	}
	b := binds{}
	if add.IsValid() {
		if err := b.match(add.Type().In(add.Type().NumIn()-1), vT.Type()); err != nil {
			panic(fmt.Sprintf("CombinePerKey at %s: %T on %v: %v", s.path, combinefn, col.Type(), err))
		}
	}
	out := merge.Type().Out(0)
	if ex := c.MethodByName("ExtractOutput"); ex.IsValid() {
		out = ex.Type().Out(0)
	}
	return s.add(&node{kind: "combine", in: []*node{col.n}, fn: combinefn, typ: typex.NewKV(kT, single(b.subst(out)))})
}

// CoGroupByKey groups several collections by key.
func CoGroupByKey(s Scope, cols ...PCollection) PCollection {
	need(cols...)
	kT, _ := ValidateKVType(cols[0])
	comps := []typex.FullType{kT}
	var in []*node
	for _, c := range cols {
		k, v := ValidateKVType(c)
		if k.Type() != kT.Type() {
			panic(fmt.Sprintf("CoGroupByKey at %s: keys of type %v and %v", s.path, kT, k))
		}
		comps = append(comps, v)
		in = append(in, c.n)
	}
	return s.add(&node{kind: "gbk", in: in, typ: typex.NewCoGBK(comps...)})
}

func GroupByKey(s Scope, col PCollection) PCollection { return CoGroupByKey(s, col) }

// Flatten merges collections of one type.
func Flatten(s Scope, cols ...PCollection) PCollection {
	need(cols...)
	var in []*node
	for _, c := range cols {
		if !typex.IsEqual(c.Type(), cols[0].Type()) {
			panic(fmt.Sprintf("Flatten at %s of %v and %v", s.path, cols[0].Type(), c.Type()))
		}
		in = append(in, c.n)
	}
	return s.add(&node{kind: "flatten", in: in, typ: cols[0].Type()})
}

func Reshuffle(s Scope, col PCollection) PCollection {
	need(col)
	return s.add(&node{kind: "flatten", in: []*node{col.n}, typ: col.Type()})
}

func DropKey(s Scope, col PCollection) PCollection {
	return ParDo(s, func(_ X, y Y) Y { return y }, col)
}

func DropValue(s Scope, col PCollection) PCollection {
	return ParDo(s, func(x X, _ Y) X { return x }, col)
}

func SwapKV(s Scope, col PCollection) PCollection {
	return ParDo(s, func(x X, y Y) (Y, X) { return y, x }, col)
}

func AddFixedKey(s Scope, col PCollection) PCollection {
	return ParDo(s, func(x X) (int, X) { return 0, x }, col)
}

// CreateList creates a collection from a slice or an array.
func CreateList(s Scope, list any) PCollection {
	v := reflect.ValueOf(list)
	if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
		panic(fmt.Sprintf("CreateList of a %T", list))
	}
	n := &node{kind: "source", typ: single(v.Type().Elem())}
	for i := 0; i < v.Len(); i++ {
		n.src = append(n.src, elem{v: v.Index(i).Interface()})
	}
	return s.add(n)
}

func Create(s Scope, values ...any) PCollection {
	if len(values) == 0 {
		panic("Create needs a value")
	}
	n := &node{kind: "source", typ: single(reflect.TypeOf(values[0]))}
	for _, v := range values {
		n.src = append(n.src, elem{v: v})
	}
	return s.add(n)
}

// SimSource creates a collection of KVs.
func SimSource(s Scope, kT, vT reflect.Type, ks, vs []any) PCollection {
	n := &node{kind: "source", typ: typex.NewKV(single(kT), single(vT))}
	for i := range ks {
		n.src = append(n.src, elem{k: ks[i], v: vs[i]})
	}
	return s.add(n)
}
