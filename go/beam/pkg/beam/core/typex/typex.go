// Package typex stands in for Beam's type system.
package typex

import (
	"fmt"
	"reflect"
)

type T any
type U any
type V any
type W any
type X any
type Y any
type Z any

var (
	TType = reflect.TypeOf((*T)(nil)).Elem()
	UType = reflect.TypeOf((*U)(nil)).Elem()
	VType = reflect.TypeOf((*V)(nil)).Elem()
	WType = reflect.TypeOf((*W)(nil)).Elem()
	XType = reflect.TypeOf((*X)(nil)).Elem()
	YType = reflect.TypeOf((*Y)(nil)).Elem()
	ZType = reflect.TypeOf((*Z)(nil)).Elem()
)

type KV struct{}
type CoGBK struct{}

// EventTime and Window exist so that signatures mentioning them compile.
type EventTime int64
type Window interface{ MaxTimestamp() EventTime }

var (
	KVType        = reflect.TypeOf(KV{})
	CoGBKType     = reflect.TypeOf(CoGBK{})
	EventTimeType = reflect.TypeOf(EventTime(0))
	WindowType    = reflect.TypeOf((*Window)(nil)).Elem()
)

type FullType interface {
	Type() reflect.Type
	Components() []FullType
	fmt.Stringer
}

type tree struct {
	t     reflect.Type
	comps []FullType
}

func (f *tree) Type() reflect.Type     { return f.t }
func (f *tree) Components() []FullType { return f.comps }
func (f *tree) String() string {
	if len(f.comps) == 0 {
		return f.t.String()
	}
	return fmt.Sprintf("%v<%v>", f.t, f.comps)
}

func New(t reflect.Type, comps ...FullType) FullType { return &tree{t, comps} }
func NewKV(comps ...FullType) FullType               { return New(KVType, comps...) }
func NewCoGBK(comps ...FullType) FullType            { return New(CoGBKType, comps...) }
func IsKV(t FullType) bool                           { return t.Type() == KVType }
func IsCoGBK(t FullType) bool                        { return t.Type() == CoGBKType }

func IsUniversal(t reflect.Type) bool {
	switch t {
	case TType, UType, VType, WType, XType, YType, ZType:
		return true
	}
	return false
}

// IsEqual reports whether both are the same type.
func IsEqual(a, b FullType) bool {
	if a.Type() != b.Type() || len(a.Components()) != len(b.Components()) {
		return false
	}
	for i := range a.Components() {
		if !IsEqual(a.Components()[i], b.Components()[i]) {
			return false
		}
	}
	return true
}
