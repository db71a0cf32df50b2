// Package vsym is the harness interface: nondeterministic inputs, assumptions, assertions and
// observations. The symbolic engine intercepts these calls; this file is the native side, which
// replays one recorded list of inputs against the compiled code.
package vsym

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"
)

type input struct {
	Kind string `json:"k"`
	Int  int64  `json:"i"`
	Str  string `json:"s"`
}

type obs struct {
	Label string `json:"l"`
	Val   string `json:"v"`
}

type request struct {
	Harness string         `json:"harness"`
	Inputs  []input        `json:"inputs"`
	Params  map[string]int `json:"params"`
}

type response struct {
	End    string   `json:"end"` // ok, assert, assume, panic, inputs
	Label  string   `json:"label"`
	Obs    []obs    `json:"obs"`
	Reach  []string `json:"reach"`
	Detail string   `json:"detail,omitempty"`
}

type state struct {
	in     []input
	pos    int
	params map[string]int
	res    response
	done   bool
}

var cur *state

func stop(end, label string) {
	if !cur.done {
		cur.done = true
		cur.res.End, cur.res.Label = end, label
	}
	runtime.Goexit()
}

func next(kind string) input {
	if cur.pos >= len(cur.in) {
		stop("inputs", "no more inputs for "+kind)
	}
	x := cur.in[cur.pos]
	cur.pos++
	if x.Kind != kind {
		stop("inputs", "input kind "+x.Kind+" where "+kind+" is needed")
	}
	return x
}

// Choice is an arbitrary int in [0,n), explored case by case.
func Choice(n int) int { return int(next("choice").Int) }

// Bool is an arbitrary bool.
func Bool() bool { return next("bool").Int != 0 }

// Int is an arbitrary int in [lo,hi].
func Int(lo, hi int) int {
	if lo > hi {
		stop("assume", "empty range")
	}
	return int(next("int").Int)
}

// Int64 is an arbitrary int64 in [lo,hi].
func Int64(lo, hi int64) int64 {
	if lo > hi {
		stop("assume", "empty range")
	}
	return next("int").Int
}

// AnyInt64 is any int64.
func AnyInt64() int64 { return next("int").Int }

// Byte is any byte.
func Byte() byte { return byte(next("int").Int) }

// Bytes is any n bytes.
func Bytes(n int) []byte {
	b, _ := hex.DecodeString(next("str").Str)
	return b
}

// Str is any string of n bytes from the charset ("" means all bytes).
func Str(n int, charset string) string {
	b, _ := hex.DecodeString(next("str").Str)
	return string(b)
}

// Assume drops runs where b is false.
func Assume(b bool) {
	if !b {
		stop("assume", "")
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		stop("assert", label)
	}
}

// Reach marks a point that must be reachable.
func Reach(label string) { cur.res.Reach = append(cur.res.Reach, label) }

// And is a non-branching conjunction.
func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}

// Or is a non-branching disjunction.
func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}

// Implies is non-branching.
func Implies(a, b bool) bool { return !a || b }

// Iff is non-branching.
func Iff(a, b bool) bool { return a == b }

// Param is a bound set per tier.
func Param(name string, def int) int {
	if v, ok := cur.params[name]; ok {
		return v
	}
	return def
}

// Now is the current time in seconds.
func Now() int64 { return time.Now().Unix() }

// Wait lets a number of seconds pass.
func Wait(seconds int) { time.Sleep(time.Duration(seconds) * time.Second) }

// WaitMS lets a number of milliseconds pass.
func WaitMS(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond) }

// Phase waits until so many milliseconds of a second have passed.
func Phase(ms int) {
	d := time.Duration(ms)*time.Millisecond - time.Duration(time.Now().Nanosecond())
	if d < 0 {
		d += time.Second
	}
	time.Sleep(d)
}

// Symbolic tells whether the symbolic engine is running.
func Symbolic() bool { return false }

// ObserveStr records a value to compare between engine and native run.
func ObserveStr(l, s string) { cur.res.Obs = append(cur.res.Obs, obs{l, hex.EncodeToString([]byte(s))}) }

// ObserveInt records a value.
func ObserveInt(l string, v int) { cur.res.Obs = append(cur.res.Obs, obs{l, strconv.Itoa(v)}) }

// ObserveBool records a value.
func ObserveBool(l string, v bool) { cur.res.Obs = append(cur.res.Obs, obs{l, strconv.FormatBool(v)}) }

// ObserveErr records whether there was an error.
func ObserveErr(l string, err error) {
	cur.res.Obs = append(cur.res.Obs, obs{l, strconv.FormatBool(err != nil)})
	if err != nil && os.Getenv("VSYM_ERR") != "" {
		fmt.Fprintln(os.Stderr, l, err)
	}
}

// Freeze makes a string concrete.
func Freeze(s string) string { return s }

// Dump prints a value in verbose engine runs.
func Dump(l string, v interface{}) {
	if os.Getenv("VSYM_ERR") != "" {
		fmt.Fprintf(os.Stderr, "%s %+v\n", l, v)
	}
}

// Panics runs f and tells whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

func run(h func(), rq request) response {
	cur = &state{in: rq.Inputs, params: rq.Params}
	st := cur
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		defer func() {
			if r := recover(); r != nil && !st.done {
				st.done = true
				st.res.End, st.res.Label = "panic", fmt.Sprint(r)
				st.res.Detail = string(debug.Stack())
			}
		}()
		h()
		if !st.done {
			st.done = true
			st.res.End = "ok"
		}
	}()
	select {
	case <-fin:
	case <-time.After(20 * time.Second):
		return response{End: "timeout"}
	}
	return st.res
}

// Main serves replay requests: one JSON object per line in, one per line out.
func Main(hs map[string]func()) {
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // the code under test may print
	}
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	wr := bufio.NewWriter(out)
	if len(os.Args) > 1 { // one replay file
		b, err := os.ReadFile(os.Args[1])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		rd = bufio.NewReader(io.MultiReader(&line{b: b}))
	}
	for {
		l, err := rd.ReadBytes('\n')
		if len(l) > 1 {
			var rq request
			var rs response
			if e := json.Unmarshal(l, &rq); e != nil {
				rs = response{End: "inputs", Label: e.Error()}
			} else if h := hs[rq.Harness]; h == nil {
				rs = response{End: "inputs", Label: "no harness " + rq.Harness}
			} else {
				rs = run(h, rq)
			}
			b, _ := json.Marshal(rs)
			wr.Write(b)
			wr.WriteByte('\n')
			wr.Flush()
			if len(os.Args) > 1 && rs.End != "ok" {
				os.Exit(1)
			}
		}
		if err != nil {
			return
		}
	}
}

type line struct{ b []byte }

func (l *line) Read(p []byte) (int, error) {
	if len(l.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, l.b)
	for i := range p[:n] {
		if p[i] == '\n' || p[i] == '\r' {
			p[i] = ' '
		}
	}
	l.b = l.b[n:]
	return n, nil
}
