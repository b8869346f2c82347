// Package nd is the interface between the verification harnesses and the
// engine. Under the engine every function here is an intrinsic: inputs are
// symbolic. Compiled natively, the functions replay one recorded set of inputs,
// so that a counterexample is confirmed against the real code.
package nd

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// Input is one recorded input.
type Input struct {
	N string `json:"n"`
	K string `json:"k"`
	V string `json:"v"`
}

// Record is one recorded execution.
type Record struct {
	ID      int            `json:"id"`
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []Input        `json:"inputs"`
	Tries   int            `json:"tries,omitempty"`
}

// Failure kinds panicked by the native implementation.
type (
	AssertFailed struct{ Msg string }
	AssumeFailed struct{}
	Diverged     struct{ Msg string }
)

// State of the current native run.
var (
	Cur     Record
	pos     int
	Obs     []string
	Perturb bool
	scratch string
)

// Begin starts a native run.
func Begin(r Record) {
	Cur = r
	pos = 0
	Obs = nil
	if scratch != "" {
		os.RemoveAll(scratch)
		scratch = ""
	}
}

func next(name, kind string) string {
	if pos >= len(Cur.Inputs) {
		panic(Diverged{"no more inputs at " + name})
	}
	in := Cur.Inputs[pos]
	pos++
	if in.N != name || in.K != kind {
		panic(Diverged{fmt.Sprintf("input %d is %s/%s, wanted %s/%s", pos-1, in.N, in.K, name, kind)})
	}
	return in.V
}

// Int returns a value in [lo, hi].
func Int(name string, lo, hi int) int {
	if lo > hi {
		panic(AssumeFailed{})
	}
	x, err := strconv.Atoi(next(name, "int"))
	if err != nil {
		panic(Diverged{err.Error()})
	}
	return x
}

// Uint64 returns interface{} value.
func Uint64(name string) uint64 {
	x, err := strconv.ParseUint(next(name, "uint"), 10, 64)
	if err != nil {
		panic(Diverged{err.Error()})
	}
	return x
}

// Byte returns interface{} byte.
func Byte(name string) byte { return byte(Uint64(name)) }

// Bool returns either value.
func Bool(name string) bool { return next(name, "bool") == "1" }

func bigOf(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(Diverged{"bad integer " + s})
	}
	return x
}

// Big returns a value in [0, 2^bits).
func Big(name string, bits int) *big.Int { return bigOf(next(name, "big")) }

// BigSigned returns a value in [-2^(bits-1), 2^(bits-1)).
func BigSigned(name string, bits int) *big.Int { return bigOf(next(name, "big")) }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b, err := hex.DecodeString(next(name, "bytes"))
	if err != nil || len(b) != n {
		panic(Diverged{"bad bytes"})
	}
	return b
}

// String returns a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Choose explores all values of [0, n), one path each.
func Choose(name string, n int) int {
	if n <= 0 {
		panic(AssumeFailed{})
	}
	x, err := strconv.Atoi(next(name, "choose"))
	if err != nil || x >= n {
		panic(Diverged{"bad choice"})
	}
	return x
}

// Conc splits the path over the values of x.
func Conc(x int) int { return x }

// ConcBig splits the path over the values of x.
func ConcBig(x *big.Int) *big.Int { return new(big.Int).Set(x) }

// ConcString splits the path over the values of s.
func ConcString(s string) string { return s }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(AssumeFailed{})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		panic(AssertFailed{msg})
	}
}

// Fail is Assert(false).
func Fail(msg string) { panic(AssertFailed{msg}) }

// Reach is a witness that a point is reachable.
func Reach(name string) {}

// And, Or, Not, Implies, Iff combine conditions without splitting the path.
func And(xs ...bool) bool {
	for _, x := range xs {
		if !x {
			return false
		}
	}
	return true
}

func Or(xs ...bool) bool {
	for _, x := range xs {
		if x {
			return true
		}
	}
	return false
}

func Not(x bool) bool        { return !x }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// IteInt is a conditional expression without a path split.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// IteBig is a conditional expression without a path split.
func IteBig(c bool, a, b *big.Int) *big.Int {
	if c {
		return a
	}
	return b
}

func EqBig(a, b *big.Int) bool  { return a.Cmp(b) == 0 }
func LtBig(a, b *big.Int) bool  { return a.Cmp(b) < 0 }
func EqBytes(a, b []byte) bool  { return bytes.Equal(a, b) }
func EqString(a, b string) bool { return a == b }
func Param(name string) int     { return Cur.Params[name] }
func MapOrder(on bool)          {}

// MapReverse makes every iteration over a map go backwards.
func MapReverse(on bool) {}

// Schedule selects one of a few fixed schedules: first goroutine first, last
// first, in turns.
func Schedule(k int) {}

// Yield is a point at which other goroutines may run.
func Yield() {
	if Perturb {
		switch rand.Intn(4) {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(rand.Intn(200)) * time.Microsecond)
		}
	}
}

// Observe records a value for comparison between the engine and the real code.
func Observe(name string, v interface{}) {
	Obs = append(Obs, name+"="+snap(reflect.ValueOf(v), 0))
}

var bigType = reflect.TypeOf(big.Int{})

func snap(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}
	if depth > 6 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		if v.Elem().Type() == bigType {
			if !v.CanInterface() {
				return bigBits(v.Elem())
			}
			return v.Interface().(*big.Int).String()
		}
		return snap(v.Elem(), depth+1)
	case reflect.Interface:
		return snap(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			return strconv.Quote(string(v.Bytes()))
		}
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, snap(v.Index(i), depth+1))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Struct:
		if v.Type() == bigType {
			return bigBits(v)
		}
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, snap(v.Field(i), depth+1))
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	switch v.Kind() {
	case reflect.Map:
		return "map"
	case reflect.Func:
		return "func"
	case reflect.Chan:
		return "chan"
	}
	return v.Kind().String()
}

func bigBits(v reflect.Value) string {
	x := new(big.Int)
	abs := v.Field(1)
	for i := abs.Len() - 1; i >= 0; i-- {
		x.Lsh(x, 64)
		x.Or(x, new(big.Int).SetUint64(abs.Index(i).Uint()))
	}
	if v.Field(0).Bool() {
		x.Neg(x)
	}
	return x.String()
}

func dir() string {
	if scratch == "" {
		d, err := os.MkdirTemp(os.Getenv("ND_TMP"), "cli")
		if err != nil {
			panic(Diverged{err.Error()})
		}
		scratch = d
	}
	return scratch
}

// WriteFile places a file in the working directory of later RunCLI calls.
func WriteFile(name string, data []byte) {
	if err := os.WriteFile(filepath.Join(dir(), name), data, 0o644); err != nil {
		panic(Diverged{err.Error()})
	}
}

// Path is the name under which other code finds a file of WriteFile.
func Path(name string) string { return filepath.Join(dir(), name) }

// ReadFile reads a file of the working directory of RunCLI.
func ReadFile(name string) ([]byte, bool) {
	b, err := os.ReadFile(filepath.Join(dir(), name))
	return b, err == nil
}

// RunCLI runs the addchain command. Code 100 is a crash, 101 no answer.
func RunCLI(args []string, stdin []byte) (stdout, stderr []byte, code int) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("ND_CLI"), args...)
	cmd.Dir = dir()
	cmd.Stdin = bytes.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	code = cmd.ProcessState.ExitCode()
	if ctx.Err() != nil {
		return o.Bytes(), e.Bytes(), 101
	}
	if err != nil && code == 2 {
		s := "\n" + e.String()
		if strings.Contains(s, "\npanic: ") || strings.Contains(s, "\nfatal error: ") || strings.Contains(s, "runtime error: ") && strings.Contains(s, "goroutine ") {
			code = 100
		}
	}
	if err != nil && code < 0 {
		code = 100
	}
	return o.Bytes(), e.Bytes(), code
}

// The engine formats an error whose arguments hold symbolic values only when
// its text is asked for. (Natively fmt.Errorf is used.)
type lazyError struct {
	format string
	args   []interface{}
}

func (e *lazyError) Error() string { return fmt.Sprintf(e.format, e.args...) }

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type lazyWrapError struct {
	lazyError
	err error
}

func (e *lazyWrapError) Unwrap() error { return e.err }

func lazyErrorf(symbolic bool, format string, args []interface{}) error {
	var err error
	if strings.Contains(format, "%w") {
		format = strings.Replace(format, "%w", "%v", -1)
		for _, a := range args {
			if e, ok := a.(error); ok {
				err = e
			}
		}
	}
	switch {
	case symbolic && err != nil:
		return &lazyWrapError{lazyError{format, args}, err}
	case symbolic:
		return &lazyError{format, args}
	case err != nil:
		return &wrapError{fmt.Sprintf(format, args...), err}
	}
	return errors.New(fmt.Sprintf(format, args...))
}

var _ = lazyErrorf
