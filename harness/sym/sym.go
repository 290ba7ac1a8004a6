// Package sym is the interface between verification harnesses and the symbolic
// engine. The engine intercepts every function here; compiled natively, the
// functions take their values from a recorded case (replay).
package sym

import (
	"fmt"
	"reflect"
	"sync"
)

type AssertErr struct{ Msg string }
type AssumeErr struct{}
type InputErr struct{ Msg string }

// replay state, set by the replay program
var (
	Inputs []int64
	Pos    int
	Params map[string]int
	Obs    []string
	Race   bool
)

func next(name string) int64 {
	if Pos >= len(Inputs) {
		panic(InputErr{"inputs exhausted at " + name})
	}
	Pos++
	return Inputs[Pos-1]
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(next(name)) }

// Bool is an arbitrary truth value.
func Bool(name string) bool { return next(name) != 0 }

// Int is an arbitrary int.
func Int(name string) int { return int(next(name)) }

// Rune is an arbitrary 32-bit rune value.
func Rune(name string) rune { return rune(next(name)) }

// Choice is an arbitrary number in [0,n), explored exhaustively.
func Choice(name string, n int) int { return int(next(name)) }

// Param is a bound of the run.
func Param(name string, def int) int {
	if v, ok := Params[name]; ok {
		return v
	}
	return def
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(AssumeErr{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(AssertErr{msg})
	}
}

// Connectives that do not branch.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }

// Never says that b is known to be false; only to skip what is useless.
func Never(b bool) bool { return !b }

func Iff(a, b bool) bool { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteBool(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}

// Concrete makes the engine split over the values of x.
func Concrete(x int) int               { return x }
func ConcreteBool(x bool) bool         { return x }
func Cover(name string)                {}
func ObserveInt(name string, v int)    { Obs = append(Obs, fmt.Sprintf("%s=%d", name, v)) }
func ObserveBool(name string, v bool)  { Obs = append(Obs, fmt.Sprintf("%s=%v", name, v)) }
func ObserveStr(name string, v string) { Obs = append(Obs, fmt.Sprintf("%s=%q", name, v)) }

// Often runs f, natively many times: what f does may depend on math/rand.
func Often(f func()) {
	for i := 0; i < 500; i++ {
		f()
	}
}

// Freeze forbids writes to everything that exists now, until Unfreeze.
func Freeze()   {}
func Unfreeze() {}

// ReadOnly runs f, which must not write to anything that existed before.
// Natively (race build) f runs in two goroutines at once.
func ReadOnly(f func()) {
	Freeze()
	if Race {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 50; k++ {
					f()
				}
			}()
		}
		close(start)
		wg.Wait()
	} else {
		f()
	}
	Unfreeze()
}

// SliceLen and SliceSwap are used by the engine for sort.Slice.
func SliceLen(x interface{}) int        { return reflect.ValueOf(x).Len() }
func SliceSwap(x interface{}, i, j int) { reflect.Swapper(x)(i, j) }
