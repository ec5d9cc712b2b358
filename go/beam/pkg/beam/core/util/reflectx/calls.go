package reflectx

type Func0x0 interface {
	Func
	Call0x0() 
}
type f0x0 struct{ Func }
func (f f0x0) Call0x0()  { f.Call([]any{}) }
func ToFunc0x0(f Func) Func0x0 { return f0x0{f} }
type Func0x1 interface {
	Func
	Call0x1() any
}
type f0x1 struct{ Func }
func (f f0x1) Call0x1() any { r := f.Call([]any{}); return r[0] }
func ToFunc0x1(f Func) Func0x1 { return f0x1{f} }
type Func0x2 interface {
	Func
	Call0x2() (any, any)
}
type f0x2 struct{ Func }
func (f f0x2) Call0x2() (any, any) { r := f.Call([]any{}); return r[0], r[1] }
func ToFunc0x2(f Func) Func0x2 { return f0x2{f} }
type Func0x3 interface {
	Func
	Call0x3() (any, any, any)
}
type f0x3 struct{ Func }
func (f f0x3) Call0x3() (any, any, any) { r := f.Call([]any{}); return r[0], r[1], r[2] }
func ToFunc0x3(f Func) Func0x3 { return f0x3{f} }
type Func0x4 interface {
	Func
	Call0x4() (any, any, any, any)
}
type f0x4 struct{ Func }
func (f f0x4) Call0x4() (any, any, any, any) { r := f.Call([]any{}); return r[0], r[1], r[2], r[3] }
func ToFunc0x4(f Func) Func0x4 { return f0x4{f} }
type Func1x0 interface {
	Func
	Call1x0(a0 any) 
}
type f1x0 struct{ Func }
func (f f1x0) Call1x0(a0 any)  { f.Call([]any{a0}) }
func ToFunc1x0(f Func) Func1x0 { return f1x0{f} }
type Func1x1 interface {
	Func
	Call1x1(a0 any) any
}
type f1x1 struct{ Func }
func (f f1x1) Call1x1(a0 any) any { r := f.Call([]any{a0}); return r[0] }
func ToFunc1x1(f Func) Func1x1 { return f1x1{f} }
type Func1x2 interface {
	Func
	Call1x2(a0 any) (any, any)
}
type f1x2 struct{ Func }
func (f f1x2) Call1x2(a0 any) (any, any) { r := f.Call([]any{a0}); return r[0], r[1] }
func ToFunc1x2(f Func) Func1x2 { return f1x2{f} }
type Func1x3 interface {
	Func
	Call1x3(a0 any) (any, any, any)
}
type f1x3 struct{ Func }
func (f f1x3) Call1x3(a0 any) (any, any, any) { r := f.Call([]any{a0}); return r[0], r[1], r[2] }
func ToFunc1x3(f Func) Func1x3 { return f1x3{f} }
type Func1x4 interface {
	Func
	Call1x4(a0 any) (any, any, any, any)
}
type f1x4 struct{ Func }
func (f f1x4) Call1x4(a0 any) (any, any, any, any) { r := f.Call([]any{a0}); return r[0], r[1], r[2], r[3] }
func ToFunc1x4(f Func) Func1x4 { return f1x4{f} }
type Func2x0 interface {
	Func
	Call2x0(a0 any, a1 any) 
}
type f2x0 struct{ Func }
func (f f2x0) Call2x0(a0 any, a1 any)  { f.Call([]any{a0, a1}) }
func ToFunc2x0(f Func) Func2x0 { return f2x0{f} }
type Func2x1 interface {
	Func
	Call2x1(a0 any, a1 any) any
}
type f2x1 struct{ Func }
func (f f2x1) Call2x1(a0 any, a1 any) any { r := f.Call([]any{a0, a1}); return r[0] }
func ToFunc2x1(f Func) Func2x1 { return f2x1{f} }
type Func2x2 interface {
	Func
	Call2x2(a0 any, a1 any) (any, any)
}
type f2x2 struct{ Func }
func (f f2x2) Call2x2(a0 any, a1 any) (any, any) { r := f.Call([]any{a0, a1}); return r[0], r[1] }
func ToFunc2x2(f Func) Func2x2 { return f2x2{f} }
type Func2x3 interface {
	Func
	Call2x3(a0 any, a1 any) (any, any, any)
}
type f2x3 struct{ Func }
func (f f2x3) Call2x3(a0 any, a1 any) (any, any, any) { r := f.Call([]any{a0, a1}); return r[0], r[1], r[2] }
func ToFunc2x3(f Func) Func2x3 { return f2x3{f} }
type Func2x4 interface {
	Func
	Call2x4(a0 any, a1 any) (any, any, any, any)
}
type f2x4 struct{ Func }
func (f f2x4) Call2x4(a0 any, a1 any) (any, any, any, any) { r := f.Call([]any{a0, a1}); return r[0], r[1], r[2], r[3] }
func ToFunc2x4(f Func) Func2x4 { return f2x4{f} }
type Func3x0 interface {
	Func
	Call3x0(a0 any, a1 any, a2 any) 
}
type f3x0 struct{ Func }
func (f f3x0) Call3x0(a0 any, a1 any, a2 any)  { f.Call([]any{a0, a1, a2}) }
func ToFunc3x0(f Func) Func3x0 { return f3x0{f} }
type Func3x1 interface {
	Func
	Call3x1(a0 any, a1 any, a2 any) any
}
type f3x1 struct{ Func }
func (f f3x1) Call3x1(a0 any, a1 any, a2 any) any { r := f.Call([]any{a0, a1, a2}); return r[0] }
func ToFunc3x1(f Func) Func3x1 { return f3x1{f} }
type Func3x2 interface {
	Func
	Call3x2(a0 any, a1 any, a2 any) (any, any)
}
type f3x2 struct{ Func }
func (f f3x2) Call3x2(a0 any, a1 any, a2 any) (any, any) { r := f.Call([]any{a0, a1, a2}); return r[0], r[1] }
func ToFunc3x2(f Func) Func3x2 { return f3x2{f} }
type Func3x3 interface {
	Func
	Call3x3(a0 any, a1 any, a2 any) (any, any, any)
}
type f3x3 struct{ Func }
func (f f3x3) Call3x3(a0 any, a1 any, a2 any) (any, any, any) { r := f.Call([]any{a0, a1, a2}); return r[0], r[1], r[2] }
func ToFunc3x3(f Func) Func3x3 { return f3x3{f} }
type Func3x4 interface {
	Func
	Call3x4(a0 any, a1 any, a2 any) (any, any, any, any)
}
type f3x4 struct{ Func }
func (f f3x4) Call3x4(a0 any, a1 any, a2 any) (any, any, any, any) { r := f.Call([]any{a0, a1, a2}); return r[0], r[1], r[2], r[3] }
func ToFunc3x4(f Func) Func3x4 { return f3x4{f} }
type Func4x0 interface {
	Func
	Call4x0(a0 any, a1 any, a2 any, a3 any) 
}
type f4x0 struct{ Func }
func (f f4x0) Call4x0(a0 any, a1 any, a2 any, a3 any)  { f.Call([]any{a0, a1, a2, a3}) }
func ToFunc4x0(f Func) Func4x0 { return f4x0{f} }
type Func4x1 interface {
	Func
	Call4x1(a0 any, a1 any, a2 any, a3 any) any
}
type f4x1 struct{ Func }
func (f f4x1) Call4x1(a0 any, a1 any, a2 any, a3 any) any { r := f.Call([]any{a0, a1, a2, a3}); return r[0] }
func ToFunc4x1(f Func) Func4x1 { return f4x1{f} }
type Func4x2 interface {
	Func
	Call4x2(a0 any, a1 any, a2 any, a3 any) (any, any)
}
type f4x2 struct{ Func }
func (f f4x2) Call4x2(a0 any, a1 any, a2 any, a3 any) (any, any) { r := f.Call([]any{a0, a1, a2, a3}); return r[0], r[1] }
func ToFunc4x2(f Func) Func4x2 { return f4x2{f} }
type Func4x3 interface {
	Func
	Call4x3(a0 any, a1 any, a2 any, a3 any) (any, any, any)
}
type f4x3 struct{ Func }
func (f f4x3) Call4x3(a0 any, a1 any, a2 any, a3 any) (any, any, any) { r := f.Call([]any{a0, a1, a2, a3}); return r[0], r[1], r[2] }
func ToFunc4x3(f Func) Func4x3 { return f4x3{f} }
type Func4x4 interface {
	Func
	Call4x4(a0 any, a1 any, a2 any, a3 any) (any, any, any, any)
}
type f4x4 struct{ Func }
func (f f4x4) Call4x4(a0 any, a1 any, a2 any, a3 any) (any, any, any, any) { r := f.Call([]any{a0, a1, a2, a3}); return r[0], r[1], r[2], r[3] }
func ToFunc4x4(f Func) Func4x4 { return f4x4{f} }
type Func5x0 interface {
	Func
	Call5x0(a0 any, a1 any, a2 any, a3 any, a4 any) 
}
type f5x0 struct{ Func }
func (f f5x0) Call5x0(a0 any, a1 any, a2 any, a3 any, a4 any)  { f.Call([]any{a0, a1, a2, a3, a4}) }
func ToFunc5x0(f Func) Func5x0 { return f5x0{f} }
type Func5x1 interface {
	Func
	Call5x1(a0 any, a1 any, a2 any, a3 any, a4 any) any
}
type f5x1 struct{ Func }
func (f f5x1) Call5x1(a0 any, a1 any, a2 any, a3 any, a4 any) any { r := f.Call([]any{a0, a1, a2, a3, a4}); return r[0] }
func ToFunc5x1(f Func) Func5x1 { return f5x1{f} }
type Func5x2 interface {
	Func
	Call5x2(a0 any, a1 any, a2 any, a3 any, a4 any) (any, any)
}
type f5x2 struct{ Func }
func (f f5x2) Call5x2(a0 any, a1 any, a2 any, a3 any, a4 any) (any, any) { r := f.Call([]any{a0, a1, a2, a3, a4}); return r[0], r[1] }
func ToFunc5x2(f Func) Func5x2 { return f5x2{f} }
type Func5x3 interface {
	Func
	Call5x3(a0 any, a1 any, a2 any, a3 any, a4 any) (any, any, any)
}
type f5x3 struct{ Func }
func (f f5x3) Call5x3(a0 any, a1 any, a2 any, a3 any, a4 any) (any, any, any) { r := f.Call([]any{a0, a1, a2, a3, a4}); return r[0], r[1], r[2] }
func ToFunc5x3(f Func) Func5x3 { return f5x3{f} }
type Func5x4 interface {
	Func
	Call5x4(a0 any, a1 any, a2 any, a3 any, a4 any) (any, any, any, any)
}
type f5x4 struct{ Func }
func (f f5x4) Call5x4(a0 any, a1 any, a2 any, a3 any, a4 any) (any, any, any, any) { r := f.Call([]any{a0, a1, a2, a3, a4}); return r[0], r[1], r[2], r[3] }
func ToFunc5x4(f Func) Func5x4 { return f5x4{f} }
