// Package reflectx stands in for Beam's reflective function wrappers.
package reflectx

import "reflect"

type Func interface {
	Name() string
	Type() reflect.Type
	Call(args []any) []any
}

type fn struct{ v reflect.Value }

func (f *fn) Name() string       { return f.v.Type().String() }
func (f *fn) Type() reflect.Type { return f.v.Type() }
func (f *fn) Call(args []any) []any {
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(f.v.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	var out []any
	for _, o := range f.v.Call(in) {
		out = append(out, o.Interface())
	}
	return out
}

func MakeFunc(f any) Func {
	if x, ok := f.(Func); ok {
		return x
	}
	return &fn{reflect.ValueOf(f)}
}
