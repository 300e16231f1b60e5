// Package nd is the interface between the harnesses and the checker. When a harness is executed by
// the symbolic engine these functions are intercepted: inputs are symbolic variables and assertions
// are decided by the solver. When it is compiled natively the inputs are taken from a recorded
// vector, so that a counterexample or an explored path can be replayed against the real code.
package nd

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"testing"
	"testing/synctest"
	"time"
)

type rec struct {
	Name string          `json:"n"`
	Kind string          `json:"k"`
	Val  json.RawMessage `json:"v"`
}

type obs struct {
	Label string `json:"l"`
	Val   string `json:"v"`
}

type vector struct {
	Harness string `json:"harness"`
	Inputs  []rec  `json:"inputs"`
	Obs     []obs  `json:"obs"`
}

// Result is the outcome of the native execution of a vector.
type Result struct {
	Outcome string `json:"outcome"` // ok, assert, panic, assume, diverged
	Msg     string `json:"msg"`
	Obs     []obs  `json:"obs"`
}

type stop struct {
	kind string
	msg  string
}

var cur *vector
var pos int
var seen []obs

func next(name, kind string) json.RawMessage {
	if pos >= len(cur.Inputs) {
		panic(stop{"diverged", "no more inputs, wanted " + name})
	}
	r := cur.Inputs[pos]
	pos++
	if r.Name != name || r.Kind != kind {
		panic(stop{"diverged", fmt.Sprintf("wanted %s %s but the recorded input is %s %s", kind, name, r.Kind, r.Name)})
	}
	return r.Val
}

func num(name string) uint64 {
	var s string
	json.Unmarshal(next(name, "int"), &s)
	v, _ := strconv.ParseUint(s, 10, 64)
	return v
}

// Bool is an arbitrary boolean.
func Bool(name string) bool {
	var b bool
	json.Unmarshal(next(name, "bool"), &b)
	return b
}

func Byte(name string) byte       { return byte(num(name)) }
func Int(name string) int         { return int(num(name)) }
func Int64(name string) int64     { return int64(num(name)) }
func Int32(name string) int32     { return int32(num(name)) }
func Uint64(name string) uint64   { return num(name) }
func Float64(name string) float64 { return math.Float64frombits(num(name)) }
func Float32(name string) float32 { return math.Float32frombits(uint32(num(name))) }

// IntRange is an arbitrary integer between lo and hi, both included.
func IntRange(name string, lo, hi int) int { return int(num(name)) }

// Choose is an arbitrary integer in [0,n), on which the exploration forks.
func Choose(name string, n int) int { return int(num(name)) }

// String is an arbitrary string of between min and max bytes.
func String(name string, min, max int) string {
	num(name + ".len")
	var bs []int
	json.Unmarshal(next(name, "string"), &bs)
	out := make([]byte, len(bs))
	for i, b := range bs {
		out[i] = byte(b)
	}
	return string(out)
}

// StringOf is an arbitrary string of between min and max of the given characters.
func StringOf(name string, min, max int, chars string) string { return String(name, min, max) }

// In tells if the character is one of the given ones.
func In(c byte, chars string) bool {
	for i := 0; i < len(chars); i++ {
		if chars[i] == c {
			return true
		}
	}
	return false
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}

// Assert states what must hold.
func Assert(c bool, msg string) {
	if !c {
		panic(stop{"assert", msg})
	}
}

// Reach marks a point that must be reachable for the check to mean something.
func Reach(label string) {}

// Bound is a bound that depends on the tier.
func Bound(name string, quick, thorough int) int { return int(num(name)) }

// Observe records a value that must be the same in symbolic and native executions.
func Observe(label string, v interface{}) {
	var s string
	switch x := v.(type) {
	case string:
		s = strconv.Quote(x)
		// Match the rendering of the engine, which is byte based:
		s = fmt.Sprintf("%q", x)
	case bool:
		s = fmt.Sprint(x)
	case int:
		s = fmt.Sprintf("%d", uint64(x))
	case int64:
		s = fmt.Sprintf("%d", uint64(x))
	default:
		s = fmt.Sprint(v)
	}
	seen = append(seen, obs{label, s})
}

// Connectives that don't fork the exploration.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// AnyMapOrder makes the engine explore all the iteration orders of maps from this point.
func AnyMapOrder(on bool) {}

// Symbolic tells if this is a symbolic execution.
func Symbolic() bool { return false }

// deps is what the testing package needs in order to run a test outside of a test binary.
type deps struct{}

type entry = struct {
	Parent     string
	Path       string
	Data       []byte
	Values     []interface{}
	Generation int
	IsSeed     bool
}

func (deps) ImportPath() string                          { return "" }
func (deps) ModulePath() string                          { return "" }
func (deps) MatchString(pat, str string) (bool, error)   { return true, nil }
func (deps) SetPanicOnExit0(bool)                        {}
func (deps) StartCPUProfile(io.Writer) error             { return nil }
func (deps) StopCPUProfile()                             {}
func (deps) StartTestLog(io.Writer)                      {}
func (deps) StopTestLog() error                          { return nil }
func (deps) WriteProfileTo(string, io.Writer, int) error { return nil }
func (deps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []entry, []reflect.Type, string, string) error {
	return nil
}
func (deps) RunFuzzWorker(func(entry) error) error              { return nil }
func (deps) ReadCorpus(string, []reflect.Type) ([]entry, error) { return nil, nil }
func (deps) CheckCorpus([]interface{}, []reflect.Type) error    { return nil }
func (deps) ResetCoverage()                                     {}
func (deps) SnapshotCoverage()                                  {}
func (deps) InitRuntimeCoverage() (string, func(string, string) (string, error), func() float64) {
	return "", nil, nil
}

// FakeClock runs the function with a clock that only advances when it sleeps.
func FakeClock(f func()) {
	ran := false
	var caught interface{}
	args, stdout := os.Args, os.Stdout
	os.Args = args[:1]
	os.Stdout, _ = os.Open(os.DevNull)
	testing.MainStart(
		deps{},
		[]testing.InternalTest{{
			Name: "fake",
			F: func(t *testing.T) {
				synctest.Test(t, func(t *testing.T) {
					defer func() { caught = recover() }()
					ran = true
					f()
				})
			},
		}},
		nil, nil, nil,
	).Run()
	os.Args, os.Stdout = args, stdout
	if !ran {
		panic("the fake clock isn't available")
	}
	if caught != nil {
		panic(caught)
	}
}

// Panics runs the function and tells if it panics.
func Panics(f func()) (result bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				panic(s)
			}
			result = true
		}
	}()
	f()
	return
}

func runVector(f func(), v *vector) (res Result) {
	cur = v
	pos = 0
	seen = nil
	defer func() {
		res.Obs = seen
		r := recover()
		switch x := r.(type) {
		case nil:
			res.Outcome = "ok"
			if pos != len(v.Inputs) {
				res.Outcome = "diverged"
				res.Msg = fmt.Sprintf("%d inputs were not used", len(v.Inputs)-pos)
			}
		case stop:
			res.Outcome = x.kind
			res.Msg = x.msg
		default:
			res.Outcome = "panic"
			res.Msg = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	f()
	return
}

// Main is the entry point of the native runner.
func Main(checks map[string]func()) {
	file := flag.String("vectors", "", "file containing the vectors")
	repeat := flag.Int("repeat", 1, "number of executions of each vector")
	testing.Init()
	flag.Parse()
	data, err := ioutil.ReadFile(*file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	var vs []*vector
	if err = json.Unmarshal(data, &vs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	var names []string
	for n := range checks {
		names = append(names, n)
	}
	sort.Strings(names)
	out := json.NewEncoder(os.Stdout)
	debug.SetMaxStack(64 << 20)
	for _, v := range vs {
		f := checks[v.Harness]
		if f == nil {
			fmt.Fprintf(os.Stderr, "no harness %s in %v\n", v.Harness, names)
			os.Exit(4)
		}
		var res Result
		for i := 0; i < *repeat; i++ {
			res = runVector(f, v)
			if res.Outcome != "ok" {
				break
			}
		}
		fmt.Print("\n@@")
		out.Encode(res)
	}
}

// Opaque makes the text of numbers opaque: the conversions between numbers and text are assumed to be the
// inverse of each other.
func Opaque(on bool) {}
