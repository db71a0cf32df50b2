package sym

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Goroutines are coroutines: one runs at a time, and control passes on only at spawns, channel
// operations, locks and waits. Which of the runnable ones goes on is a decision of the path, so all
// schedules at that granularity are explored, or those with at most so many preemptions as the
// harness's parameter "preemptions" says.

type gor struct {
	wake  chan struct{}
	cond  func() bool // nil when runnable
	ended bool
	frame *frame
	depth int
}

type schedule struct {
	gs     []*gor
	cur    *gor
	main   *gor
	raise  any // panic to hand to the main coroutine
	killed bool
	forced int // times a coroutine that could have gone on was suspended
}

type killed struct{}

type channel struct {
	cap    int
	buf    []Value
	closed bool
	elem   types.Type
	taken  int
	put    int
}

func (w *Worker) sched() *schedule {
	if w.gsched == nil {
		m := &gor{wake: make(chan struct{})}
		w.gsched = &schedule{gs: []*gor{m}, cur: m, main: m}
	}
	return w.gsched
}

func (w *Worker) initialising() bool { return w.noUndo }

func (w *Worker) spawn(fr *frame, fn Value, args []Value, c *ssa.CallCommon) {
	if w.initialising() {
		w.stubs["go statement during package initialisation (not run)"]++
		return
	}
	if f, ok := fn.(*Func); ok && f != nil && f.fn != nil && strings.Contains(f.fn.String(), "github.com/hashicorp/golang-lru/") {
		w.stubs["the expiry goroutine of the LRU cache is not run"]++
		return
	}
	s := w.sched()
	g := &gor{wake: make(chan struct{})}
	s.gs = append(s.gs, g)
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			g.ended = true
			if s.killed {
				s.main.wake <- struct{}{}
				return
			}
			if r != nil {
				s.raise = r
				s.switchTo(w, s.main)
				return
			}
			for i, x := range s.gs {
				if x == g {
					s.gs = append(s.gs[:i], s.gs[i+1:]...)
					break
				}
			}
			// hand over; a decision that ends the path travels to the main coroutine
			func() {
				defer func() {
					if r := recover(); r != nil {
						s.raise = r
						s.switchTo(w, s.main)
					}
				}()
				run := s.runnable()
				if len(run) == 0 {
					s.raise = targetPanic{msg: "all goroutines are asleep - deadlock!"}
					s.switchTo(w, s.main)
					return
				}
				s.switchTo(w, run[w.choice(len(run))])
			}()
		}()
		if s.killed {
			panic(killed{})
		}
		w.curFrame, w.depth = nil, 0
		w.callValue(nil, fn, args, c)
	}()
	w.preempt()
}

func (s *schedule) switchTo(w *Worker, g *gor) {
	s.cur = g
	w.curFrame, w.depth = g.frame, g.depth
	g.wake <- struct{}{}
}

func (s *schedule) runnable() []*gor {
	var out []*gor
	for _, g := range s.gs {
		if !g.ended && (g.cond == nil || g.cond()) {
			out = append(out, g)
		}
	}
	return out
}

// preempt lets any runnable coroutine go on.
func (w *Worker) preempt() { w.block(nil) }

// block suspends the current coroutine until cond holds.
func (w *Worker) block(cond func() bool) {
	s := w.gsched
	if s == nil || len(s.gs) == 1 {
		if cond != nil && !cond() {
			panic(targetPanic{msg: "all goroutines are asleep - deadlock!"})
		}
		return
	}
	me := s.cur
	me.cond = cond
	run := s.runnable()
	if len(run) == 0 {
		panic(targetPanic{msg: "all goroutines are asleep - deadlock!"})
	}
	able := false
	for _, g := range run {
		able = able || g == me
	}
	// the parameter "preemptions" bounds how often a coroutine that could go on is suspended
	if max, ok := w.ex.Opt.Params["preemptions"]; ok && able && s.forced >= max {
		run = []*gor{me}
	}
	g := me
	if len(run) > 1 || !able {
		g = run[w.choice(len(run))]
	}
	if g != me && able {
		s.forced++
	}
	if g != me {
		me.frame, me.depth = w.curFrame, w.depth
		s.switchTo(w, g)
		<-me.wake
		if s.killed {
			panic(killed{})
		}
		if me == s.main && s.raise != nil {
			r := s.raise
			s.raise = nil
			panic(r)
		}
		w.curFrame, w.depth = me.frame, me.depth
	}
	me.cond = nil
}

// endSched unwinds the coroutines left over when the path ends.
func (w *Worker) endSched() {
	s := w.gsched
	if s == nil {
		return
	}
	w.gsched = nil
	s.killed = true
	for _, g := range s.gs {
		if g != s.main && !g.ended {
			g.wake <- struct{}{}
			<-s.main.wake
		}
	}
}

func (w *Worker) chanOf(c Value, what string) *channel {
	n, _ := c.(*Native)
	if n == nil {
		w.block(func() bool { return false })
	}
	ch, ok := n.data.(*channel)
	if !ok {
		unsup("%s on %T", what, n.data)
	}
	return ch
}

func (w *Worker) chanSend(c, v Value) {
	ch := w.chanOf(c, "send")
	w.block(func() bool { return ch.closed || len(ch.buf) < max(ch.cap, 1) })
	if ch.closed {
		panic(targetPanic{msg: "send on closed channel"})
	}
	ch.buf = append(ch.buf, v)
	ch.put++
	if ch.cap == 0 {
		n := ch.put
		w.block(func() bool { return ch.taken >= n })
	}
}

func (w *Worker) chanRecv(c Value, ok bool) Value {
	ch := w.chanOf(c, "receive")
	w.block(func() bool { return len(ch.buf) > 0 || ch.closed })
	var v Value
	good := true
	if len(ch.buf) > 0 {
		v = ch.buf[0]
		ch.buf = ch.buf[1:]
		ch.taken++
	} else {
		v, good = zero(ch.elem), false
	}
	if ok {
		return Tuple{v, good}
	}
	return v
}

func (w *Worker) chanClose(c Value) {
	ch := w.chanOf(c, "close")
	w.preempt()
	if ch.closed {
		panic(targetPanic{msg: "close of closed channel"})
	}
	ch.closed = true
}

func (w *Worker) selectOp(fr *frame, ci *cInstr, in *ssa.Select) Value {
	type state struct {
		ch   *channel
		recv bool
		val  Value
	}
	sts := make([]state, len(in.States))
	res := Tuple{uint64(0), false}
	pos := make([]int, len(in.States))
	for i, s := range in.States {
		n, _ := w.get(fr, ci.ops[2*i]).(*Native)
		if n != nil {
			sts[i].ch, _ = n.data.(*channel)
		}
		if s.Dir == types.RecvOnly {
			sts[i].recv = true
			pos[i] = len(res)
			res = append(res, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		} else {
			sts[i].val = w.get(fr, ci.ops[2*i+1])
		}
	}
	ready := func() []int {
		var r []int
		for i, s := range sts {
			switch {
			case s.ch == nil:
			case s.recv && (len(s.ch.buf) > 0 || s.ch.closed):
				r = append(r, i)
			case !s.recv && (s.ch.closed || len(s.ch.buf) < s.ch.cap):
				r = append(r, i)
			}
		}
		return r
	}
	if in.Blocking {
		w.block(func() bool { return len(ready()) > 0 })
	} else {
		w.preempt()
	}
	r := ready()
	if len(r) == 0 {
		res[0] = mask(64)
		return res
	}
	i := r[w.choice(len(r))]
	res[0] = uint64(i)
	if sts[i].recv {
		t := w.chanRecv(&Native{kind: "chan", data: sts[i].ch}, true).(Tuple)
		res[1], res[pos[i]] = t[1], t[0]
	} else {
		w.chanSend(&Native{kind: "chan", data: sts[i].ch}, sts[i].val)
	}
	return res
}

// locks and wait groups, by address

type lockState struct {
	writer  bool
	readers int
	count   int
}

func (w *Worker) lockOf(a []Value) *lockState {
	p := a[0].(*Value)
	if p == nil {
		w.nilDeref()
	}
	if w.locks == nil {
		w.locks = map[*Value]*lockState{}
	}
	l := w.locks[p]
	if l == nil {
		l = &lockState{}
		w.locks[p] = l
	}
	return l
}

func init() {
	n := natives
	lock := func(w *Worker, a []Value) Value {
		if w.initialising() {
			return nil
		}
		l := w.lockOf(a)
		w.block(func() bool { return !l.writer && l.readers == 0 })
		l.writer = true
		return nil
	}
	unlock := func(w *Worker, a []Value) Value {
		if w.initialising() {
			return nil
		}
		l := w.lockOf(a)
		if !l.writer {
			panic(targetPanic{msg: "fatal error: sync: unlock of unlocked mutex"})
		}
		l.writer = false
		return nil
	}
	n["(*sync.Mutex).Lock"], n["(*sync.Mutex).Unlock"] = lock, unlock
	n["(*sync.RWMutex).Lock"], n["(*sync.RWMutex).Unlock"] = lock, unlock
	n["(*sync.RWMutex).RLock"] = func(w *Worker, a []Value) Value {
		if w.initialising() {
			return nil
		}
		l := w.lockOf(a)
		w.block(func() bool { return !l.writer })
		l.readers++
		return nil
	}
	n["(*sync.RWMutex).RUnlock"] = func(w *Worker, a []Value) Value {
		if w.initialising() {
			return nil
		}
		l := w.lockOf(a)
		if l.readers == 0 {
			panic(targetPanic{msg: "fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		l.readers--
		return nil
	}
	n["(*sync.Mutex).TryLock"] = func(w *Worker, a []Value) Value {
		l := w.lockOf(a)
		w.preempt()
		if l.writer {
			return false
		}
		l.writer = true
		return true
	}
	n["(*sync.WaitGroup).Add"] = func(w *Worker, a []Value) Value {
		w.lockOf(a).count += int(int64(w.concInt(a[1])))
		return nil
	}
	n["(*sync.WaitGroup).Done"] = func(w *Worker, a []Value) Value {
		w.lockOf(a).count--
		return nil
	}
	n["(*sync.WaitGroup).Wait"] = func(w *Worker, a []Value) Value {
		l := w.lockOf(a)
		w.block(func() bool { return l.count <= 0 })
		return nil
	}
}
