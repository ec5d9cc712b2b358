package beam

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"

	"github.com/apache/beam/sdks/v2/go/pkg/beam/core/util/reflectx"
)

// Types and functions travel by a registry index, as they travel by name in Beam.
var (
	typeList []reflect.Type
	typeIdx  = map[reflect.Type]int{}
	funcList []reflectx.Func
)

func typeID(t reflect.Type) int {
	i, ok := typeIdx[t]
	if !ok {
		i = len(typeList)
		typeList = append(typeList, t)
		typeIdx[t] = i
	}
	return i
}

// EncodedType is a serialisable reflect.Type.
type EncodedType struct{ T reflect.Type }

func (w EncodedType) MarshalJSON() ([]byte, error) {
	if w.T == nil {
		return []byte("-1"), nil
	}
	return json.Marshal(typeID(w.T))
}

func (w *EncodedType) UnmarshalJSON(b []byte) error {
	var i int
	if err := json.Unmarshal(b, &i); err != nil {
		return err
	}
	w.T = nil
	if i >= 0 {
		w.T = typeList[i]
	}
	return nil
}

// EncodedFunc is a serialisable function.
type EncodedFunc struct{ Fn reflectx.Func }

func (w EncodedFunc) MarshalJSON() ([]byte, error) {
	for i, f := range funcList {
		if f == w.Fn {
			return json.Marshal(i)
		}
	}
	funcList = append(funcList, w.Fn)
	return json.Marshal(len(funcList) - 1)
}

func (w *EncodedFunc) UnmarshalJSON(b []byte) error {
	var i int
	if err := json.Unmarshal(b, &i); err != nil {
		return err
	}
	w.Fn = funcList[i]
	return nil
}

type custom struct{ enc, dec reflect.Value }

var customs = map[reflect.Type]custom{}

// RegisterCoder registers func(T) ([]byte, error) and func([]byte) (T, error).
func RegisterCoder(t reflect.Type, encoder, decoder any) {
	customs[t] = custom{reflect.ValueOf(encoder), reflect.ValueOf(decoder)}
}

func RegisterType(reflect.Type)   {}
func RegisterFunction(any)        {}
func RegisterDoFn(any)            {}
func RegisterInit(hook func())    { hook() }

type ElementEncoder interface {
	Encode(element any, w io.Writer) error
}

type ElementDecoder interface {
	Decode(r io.Reader) (any, error)
}

type elementCoder struct{ t reflect.Type }

func NewElementEncoder(t reflect.Type) ElementEncoder {
	mustCode(t, 0)
	return &elementCoder{t}
}

func NewElementDecoder(t reflect.Type) ElementDecoder {
	mustCode(t, 0)
	return &elementCoder{t}
}

func (c *elementCoder) Encode(element any, w io.Writer) error {
	b, err := encode(c.t, element)
	if err != nil {
		return err
	}
	_, err = w.Write(b)
	return err
}

func (c *elementCoder) Decode(r io.Reader) (any, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return decode(c.t, b)
}

func mustCode(t reflect.Type, depth int) {
	if t == nil {
		panic("no coder for a nil type")
	}
	if _, ok := customs[t]; ok || depth > 6 {
		return
	}
	switch t.Kind() {
	case reflect.Interface, reflect.Func, reflect.Chan, reflect.Invalid, reflect.UnsafePointer:
		panic(fmt.Sprintf("no coder for type %v", t))
	case reflect.Ptr, reflect.Slice, reflect.Array:
		mustCode(t.Elem(), depth+1)
	case reflect.Map:
		mustCode(t.Key(), depth+1)
		mustCode(t.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				mustCode(t.Field(i).Type, depth+1)
			}
		}
	}
}

func encode(t reflect.Type, v any) ([]byte, error) {
	var b bytes.Buffer
	x := reflect.ValueOf(v)
	if !x.IsValid() || x.Type() != t {
		return nil, fmt.Errorf("cannot encode %T as %v", v, t)
	}
	if err := enc(&b, x); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

func put(b *bytes.Buffer, u uint64) {
	var buf [8]byte
	binary.BigEndian.PutUint64(buf[:], u)
	b.Write(buf[:])
}

func enc(b *bytes.Buffer, x reflect.Value) error {
	if c, ok := customs[x.Type()]; ok {
		out := c.enc.Call([]reflect.Value{x})
		if err, _ := out[1].Interface().(error); err != nil {
			return err
		}
		data := out[0].Bytes()
		put(b, uint64(len(data)))
		b.Write(data)
		return nil
	}
	switch x.Kind() {
	case reflect.Bool:
		if x.Bool() {
			b.WriteByte(1)
		} else {
			b.WriteByte(0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		put(b, uint64(x.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		put(b, x.Uint())
	case reflect.Float32, reflect.Float64:
		put(b, math.Float64bits(x.Float()))
	case reflect.String:
		put(b, uint64(x.Len()))
		b.WriteString(x.String())
	case reflect.Ptr:
		if x.IsNil() {
			b.WriteByte(0)
			return nil
		}
		b.WriteByte(1)
		return enc(b, x.Elem())
	case reflect.Slice:
		put(b, uint64(x.Len()))
		fallthrough
	case reflect.Array:
		for i := 0; i < x.Len(); i++ {
			if err := enc(b, x.Index(i)); err != nil {
				return err
			}
		}
	case reflect.Map:
		type kv struct{ k, v []byte }
		var all []kv
		for _, k := range x.MapKeys() {
			var kb, vb bytes.Buffer
			if err := enc(&kb, k); err != nil {
				return err
			}
			if err := enc(&vb, x.MapIndex(k)); err != nil {
				return err
			}
			all = append(all, kv{kb.Bytes(), vb.Bytes()})
		}
		sort.Slice(all, func(i, j int) bool { return bytes.Compare(all[i].k, all[j].k) < 0 })
		put(b, uint64(len(all)))
		for _, e := range all {
			b.Write(e.k)
			b.Write(e.v)
		}
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			if !x.Type().Field(i).IsExported() {
				continue
			}
			if err := enc(b, x.Field(i)); err != nil {
				return err
			}
		}
	default:
		return fmt.Errorf("no coder for %v", x.Type())
	}
	return nil
}

func decode(t reflect.Type, data []byte) (v any, err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(short); !ok {
				panic(r)
			}
			err = fmt.Errorf("short data for %v", t)
		}
	}()
	b := bytes.NewBuffer(data)
	x := reflect.New(t).Elem()
	if err := dec(b, x); err != nil {
		return nil, err
	}
	if b.Len() != 0 {
		return nil, fmt.Errorf("%d bytes left after decoding a %v", b.Len(), t)
	}
	return x.Interface(), nil
}

type short struct{}

func take(b *bytes.Buffer, n int) []byte {
	if n < 0 || b.Len() < n {
		panic(short{})
	}
	return append([]byte{}, b.Next(n)...)
}

func get(b *bytes.Buffer) uint64 { return binary.BigEndian.Uint64(take(b, 8)) }

func dec(b *bytes.Buffer, x reflect.Value) error {
	if c, ok := customs[x.Type()]; ok {
		data := take(b, int(get(b)))
		out := c.dec.Call([]reflect.Value{reflect.ValueOf(data)})
		if err, _ := out[1].Interface().(error); err != nil {
			return err
		}
		x.Set(out[0])
		return nil
	}
	switch x.Kind() {
	case reflect.Bool:
		x.SetBool(take(b, 1)[0] != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x.SetInt(int64(get(b)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x.SetUint(get(b))
	case reflect.Float32, reflect.Float64:
		x.SetFloat(math.Float64frombits(get(b)))
	case reflect.String:
		x.SetString(string(take(b, int(get(b)))))
	case reflect.Ptr:
		if take(b, 1)[0] == 0 {
			return nil
		}
		x.Set(reflect.New(x.Type().Elem()))
		return dec(b, x.Elem())
	case reflect.Slice:
		n := int(get(b))
		if n > b.Len() && n > 1<<20 {
			panic(short{})
		}
		x.Set(reflect.MakeSlice(x.Type(), n, n))
		fallthrough
	case reflect.Array:
		for i := 0; i < x.Len(); i++ {
			if err := dec(b, x.Index(i)); err != nil {
				return err
			}
		}
	case reflect.Map:
		n := int(get(b))
		x.Set(reflect.MakeMap(x.Type()))
		for i := 0; i < n; i++ {
			k := reflect.New(x.Type().Key()).Elem()
			v := reflect.New(x.Type().Elem()).Elem()
			if err := dec(b, k); err != nil {
				return err
			}
			if err := dec(b, v); err != nil {
				return err
			}
			x.SetMapIndex(k, v)
		}
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			if !x.Type().Field(i).IsExported() {
				continue
			}
			if err := dec(b, x.Field(i)); err != nil {
				return err
			}
		}
	default:
		return fmt.Errorf("no coder for %v", x.Type())
	}
	return nil
}

// SimReset forgets the functions of earlier pipelines.
func SimReset() { funcList = nil }
