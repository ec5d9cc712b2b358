// Package funcx stands in for Beam's classification of user functions.
package funcx

import (
	"context"
	"fmt"
	"reflect"

	"github.com/apache/beam/sdks/v2/go/pkg/beam/core/typex"
	"github.com/apache/beam/sdks/v2/go/pkg/beam/core/util/reflectx"
)

type FnParamKind int

const (
	FnIllegal   FnParamKind = 0
	FnContext   FnParamKind = 1
	FnEventTime FnParamKind = 2
	FnValue     FnParamKind = 4
	FnIter      FnParamKind = 8
	FnReIter    FnParamKind = 16
	FnEmit      FnParamKind = 32
	FnType      FnParamKind = 64
	FnRTracker  FnParamKind = 128
	FnWindow    FnParamKind = 256
)

type FnParam struct {
	Kind FnParamKind
	T    reflect.Type
}

type ReturnKind int

const (
	RetIllegal   ReturnKind = 0
	RetEventTime ReturnKind = 1
	RetValue     ReturnKind = 2
	RetError     ReturnKind = 4
)

type ReturnParam struct {
	Kind ReturnKind
	T    reflect.Type
}

type Fn struct {
	Fn    reflectx.Func
	Param []FnParam
	Ret   []ReturnParam
}

func (u *Fn) Params(mask FnParamKind) []int {
	var out []int
	for i, p := range u.Param {
		if p.Kind&mask != 0 {
			out = append(out, i)
		}
	}
	return out
}

func (u *Fn) Returns(mask ReturnKind) []int {
	var out []int
	for i, p := range u.Ret {
		if p.Kind&mask != 0 {
			out = append(out, i)
		}
	}
	return out
}

var (
	ctxType  = reflect.TypeOf((*context.Context)(nil)).Elem()
	errType  = reflect.TypeOf((*error)(nil)).Elem()
	boolType = reflect.TypeOf(true)
	typeType = reflect.TypeOf((*reflect.Type)(nil)).Elem()
)

// IsIter: func(*T...) bool.
func IsIter(t reflect.Type) bool {
	if t.Kind() != reflect.Func || t.NumOut() != 1 || t.Out(0) != boolType || t.NumIn() == 0 {
		return false
	}
	for i := 0; i < t.NumIn(); i++ {
		if t.In(i).Kind() != reflect.Ptr {
			return false
		}
	}
	return true
}

// IsReIter: func() func(*T...) bool.
func IsReIter(t reflect.Type) bool {
	return t.Kind() == reflect.Func && t.NumIn() == 0 && t.NumOut() == 1 && IsIter(t.Out(0))
}

// IsEmit: func(T...) with at least one argument and no result.
func IsEmit(t reflect.Type) bool {
	if t.Kind() != reflect.Func || t.NumOut() != 0 || t.NumIn() == 0 {
		return false
	}
	for i := 0; i < t.NumIn(); i++ {
		if t.In(i).Kind() == reflect.Func || t.In(i).Kind() == reflect.Chan {
			return false
		}
	}
	return true
}

func New(f reflectx.Func) (*Fn, error) {
	u := &Fn{Fn: f}
	t := f.Type()
	for i := 0; i < t.NumIn(); i++ {
		p := t.In(i)
		k := FnIllegal
		switch {
		case p == ctxType:
			k = FnContext
		case p == typex.EventTimeType:
			k = FnEventTime
		case p.Implements(typex.WindowType):
			k = FnWindow
		case p == typeType:
			k = FnType
		case IsIter(p):
			k = FnIter
		case IsReIter(p):
			k = FnReIter
		case IsEmit(p):
			k = FnEmit
		case p.Kind() != reflect.Func && p.Kind() != reflect.Chan:
			k = FnValue
		default:
			return nil, fmt.Errorf("bad parameter type for %v: %v", t, p)
		}
		u.Param = append(u.Param, FnParam{k, p})
	}
	for i := 0; i < t.NumOut(); i++ {
		r := t.Out(i)
		k := RetValue
		switch {
		case r == errType:
			k = RetError
		case r == typex.EventTimeType:
			k = RetEventTime
		case r.Kind() == reflect.Func || r.Kind() == reflect.Chan:
			return nil, fmt.Errorf("bad return type for %v: %v", t, r)
		}
		u.Ret = append(u.Ret, ReturnParam{k, r})
	}
	return u, nil
}
