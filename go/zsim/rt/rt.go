// Package rt is the simulator's runtime: one task runs at a time, every switch
// is decided by the plan, and the random source is simulated.
package rt

import (
	"errors"
	"fmt"
	"io"
	"strconv"
)

// ---------------------------------------------------------------- scheduler

type Exit struct{ Msg string }  // the simulated process ended (log.Fatal)
type Stuck struct{ Msg string } // deadlock or runaway

type task struct {
	id      int
	wake    chan bool // false: unwind
	done    bool
	waiting func() bool // non-nil: blocked until it returns true
}

type Sched struct {
	tasks    []*task
	cur      *task
	Step     int
	limit    int
	preempt  map[int]int // step -> task
	rnd      uint64      // random preemption state, 0: none
	prob     uint64      // switch when rnd>>40 < prob
	finished chan struct{}
	dead     bool
	DeadMsg  string
	StuckMsg string
	Switches []int // (step, task) pairs
	idle     int
}

var S *Sched

func next(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Run executes the bodies as tasks under the plan.  It returns the scheduler
// with what happened.
func Run(bodies []func(), preempt map[int]int, seed, prob uint64, limit int) *Sched {
	s := &Sched{preempt: preempt, rnd: seed, prob: prob, limit: limit, finished: make(chan struct{})}
	S = s
	for _, b := range bodies {
		s.spawn(b)
	}
	if len(s.tasks) > 0 {
		s.cur = s.tasks[0]
		s.cur.wake <- true
		<-s.finished
	}
	S = nil
	return s
}

func (s *Sched) spawn(body func()) {
	t := &task{id: len(s.tasks), wake: make(chan bool)}
	s.tasks = append(s.tasks, t)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case unwind:
				case Exit:
					s.dead = true
					s.DeadMsg = e.Msg
				case Stuck:
					s.StuckMsg = e.Msg
					s.dead = true
				default:
					s.StuckMsg = fmt.Sprintf("panic: %v", r)
					s.dead = true
				}
			}
			t.done = true
			s.finish()
		}()
		if !<-t.wake {
			panic(unwind{})
		}
		body()
	}()
}

type unwind struct{}

func (s *Sched) runnable(t *task) bool {
	return !t.done && (t.waiting == nil || t.waiting())
}

// finish hands the token on after a task ended.
func (s *Sched) finish() {
	if s.dead {
		for _, t := range s.tasks {
			if !t.done {
				s.cur = t
				t.wake <- false
				return
			}
		}
		close(s.finished)
		return
	}
	t := s.pick(s.cur.id + 1)
	if t == nil {
		all := true
		for _, x := range s.tasks {
			all = all && x.done
		}
		if all {
			close(s.finished)
			return
		}
		s.StuckMsg = "deadlock: every remaining caller waits for a lock"
		s.dead = true
		s.finish()
		return
	}
	s.to(t)
}

func (s *Sched) to(t *task) {
	s.Switches = append(s.Switches, s.Step, t.id)
	s.cur = t
	t.wake <- true
}

func (s *Sched) pick(from int) *task {
	n := len(s.tasks)
	for i := 0; i < n; i++ {
		t := s.tasks[(from+i)%n]
		if s.runnable(t) {
			return t
		}
	}
	return nil
}

func (s *Sched) yield() {
	if s.dead {
		panic(unwind{})
	}
	s.Step++
	if s.Step > s.limit {
		panic(Stuck{"runaway: step limit reached"})
	}
	var t *task
	if to, ok := s.preempt[s.Step]; ok {
		t = s.pick(to % len(s.tasks))
	} else if s.rnd != 0 && next(&s.rnd)>>40 < s.prob {
		t = s.pick(int(next(&s.rnd) % uint64(len(s.tasks))))
	}
	if t == nil || t == s.cur {
		return
	}
	s.swap(t)
}

func (s *Sched) swap(t *task) {
	me := s.cur
	s.to(t)
	if !<-me.wake {
		panic(unwind{})
	}
}

// Task is the number of the running task, -1 outside of the scheduler.
func Task() int {
	if S == nil || S.cur == nil {
		return -1
	}
	return S.cur.id
}

// Y is a scheduling point.
func Y() {
	if S != nil {
		S.yield()
	}
}

// Block waits until ready returns true.
func Block(ready func() bool) {
	s := S
	if s == nil {
		if !ready() {
			panic(Stuck{"deadlock: a single caller waits for a lock it holds"})
		}
		return
	}
	for !ready() {
		if s.dead {
			panic(unwind{})
		}
		me := s.cur
		me.waiting = ready
		t := s.pick(me.id + 1)
		if t == nil {
			panic(Stuck{"deadlock: every caller waits for a lock"})
		}
		if t != me {
			s.swap(t)
		}
		me.waiting = nil
	}
}

// Go starts a goroutine of the code under test as a task.
func Go(f func()) {
	if S != nil {
		S.spawn(f)
		return
	}
	f()
}

// ProcessExit ends the simulated process.
func ProcessExit(msg string) { panic(Exit{msg}) }

// ------------------------------------------------------------ random source

// Read behaviours of the simulated system random source, one per Read call.
type ReadPlan struct {
	N        int    `json:"n"`   // at most this many bytes (0: as many as asked)
	Err      string `json:"err"` // "", "eof", "fail", "temp"
	Yields   int    `json:"y"`   // scheduling points before returning (slow read)
	Scribble bool   `json:"s"`   // use the rest of the buffer as scratch space
}

type Source struct {
	Seed      uint64
	Plan      []ReadPlan
	Calls     int
	Pos       int    // bytes delivered
	Delivered []byte // what was delivered (when Keep)
	Keep      bool
	DeadAfter int // >0: fails for good after that many bytes
	TailN     int // >0: reads after the plan return at most that many bytes
	Faults    map[string]int
	Plain     bool // unbiased bytes, zeros included
}

var Src = &Source{}

var errRandom = errors.New("simulated random source failure")

func (s *Source) byteAt(p int) byte {
	x := s.Seed*0x9e3779b97f4a7c15 + uint64(p)*0xd1342543de82ef95
	if s.Plain {
		w := uint64(p) / 8
		z := s.Seed*0x9e3779b97f4a7c15 + (w+1)*0xbf58476d1ce4e5b9
		z ^= z >> 30
		z *= 0xbf58476d1ce4e5b9
		z ^= z >> 27
		z *= 0x94d049bb133111eb
		z ^= z >> 31
		z += s.Seed
		z ^= z >> 30
		z *= 0xbf58476d1ce4e5b9
		z ^= z >> 27
		z *= 0x94d049bb133111eb
		z ^= z >> 31
		return byte(z >> (8 * (uint(p) % 8)))
	}
	b := byte(next(&x) >> 24)
	if b == 0 { // no zero bytes: a zero is always missing data
		b = byte(next(&x)>>24) | 1
	}
	return b
}

type reader struct{}

// Reader is what crypto/rand.Reader is set to.
var Reader io.Reader = reader{}

func (reader) Read(b []byte) (int, error) {
	s := Src
	plan := ReadPlan{}
	if s.Calls < len(s.Plan) {
		plan = s.Plan[s.Calls]
	} else if s.TailN > 0 {
		plan.N = s.TailN
	}
	s.Calls++
	n := len(b)
	if plan.N > 0 && plan.N < n {
		n = plan.N
		s.fault("short-read")
	}
	var err error
	switch plan.Err {
	case "eof":
		err = io.EOF
	case "fail", "temp":
		err = errRandom
	case "zero":
		n = 0
	case "failpart":
		err = errRandom
	}
	if plan.Err == "fail" || plan.Err == "temp" || plan.Err == "eof" {
		n = 0
	}
	if plan.Err != "" {
		s.fault("source-" + plan.Err)
	}
	if s.DeadAfter > 0 && s.Pos+n > s.DeadAfter {
		n = s.DeadAfter - s.Pos
		err = errRandom
		s.fault("source-dead")
	}
	start := s.Pos
	s.Pos += n
	for i := 0; i < plan.Yields; i++ {
		Y()
	}
	if plan.Yields > 0 {
		s.fault("slow-read")
	}
	for i := 0; i < n; i++ {
		b[i] = s.byteAt(start + i)
	}
	if s.Keep {
		if need := start + n; need > len(s.Delivered) {
			s.Delivered = append(s.Delivered, make([]byte, need-len(s.Delivered))...)
		}
		copy(s.Delivered[start:], b[:n])
	}
	if plan.Scribble {
		for i := n; i < len(b); i++ {
			b[i] = 0xA5
		}
		s.fault("scribbled-read")
	}
	return n, err
}

func (s *Source) fault(k string) {
	if s.Faults == nil {
		s.Faults = map[string]int{}
	}
	s.Faults[k]++
}

// -------------------------------------------------------------------- hooks

type RealCall struct {
	Recv, Method string
	Args         []string
}

var (
	RecordNoise bool
	RealCalls   []RealCall
	UniformVals []float64
	UniformUsed int
)

var depth int

// HookNoise records outermost calls only; the result runs on return.
func HookNoise(recv, method string, args ...float64) func() {
	if !RecordNoise {
		return func() {}
	}
	if depth == 0 {
		var text []string
		for _, a := range args {
			text = append(text, strconv.FormatFloat(a, 'g', -1, 64))
		}
		RealCalls = append(RealCalls, RealCall{recv, method, text})
	}
	depth++
	return func() { depth-- }
}

// NoiseFn, when set, replaces the noise mechanisms' outcomes; UniformFn those of
// rand.Uniform.
var (
	NoiseFn   func(recv, method string, args []float64) (float64, bool)
	UniformFn func() (float64, bool)
)

var constructing = map[int]int{}

// Constructor marks the draws of an aggregation's constructor, which only probe
// the parameters.
func Constructor() func() {
	if NoiseFn == nil {
		return func() {}
	}
	t := Task()
	constructing[t]++
	return func() { constructing[t]-- }
}

// HookValue supplies the outcome of a noise mechanism.
func HookValue(recv, method string, args ...float64) (float64, bool) {
	if NoiseFn == nil {
		return 0, false
	}
	if constructing[Task()] > 0 {
		return args[0], true
	}
	return NoiseFn(recv, method, args)
}

// HookUniform supplies planned outcomes of rand.Uniform.
func HookUniform() (float64, bool) {
	if UniformFn != nil {
		return UniformFn()
	}
	if UniformUsed < len(UniformVals) {
		v := UniformVals[UniformUsed]
		UniformUsed++
		return v, true
	}
	return 0, false
}
