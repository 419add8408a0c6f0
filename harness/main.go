// Package main holds the harnesses of the properties. It is compiled into the
// module being checked by means of an overlay: the harnesses are executed
// symbolically, and natively in order to replay counterexamples.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

var table = map[string]func(){}

type request struct {
	Fn       string            `json:"fn"`
	Cases    map[string]int    `json:"cases"`
	Vals     map[string]uint64 `json:"vals"`
	Runs     int               `json:"runs"`
	Thorough bool              `json:"thorough"`
}

type result struct {
	Failed []string    `json:"failed"`
	Panic  string      `json:"panic"`
	Obs    [][2]string `json:"obs"`
	Assume bool        `json:"assume"`
}

var (
	cur    request
	res    result
	failed map[string]bool
)

type assumeFailed struct{}

func runOnce(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFailed); ok {
				res.Assume = true
				return
			}
			res.Panic = fmt.Sprint(r)
		}
	}()
	res.Obs = nil
	f()
}

func main() {
	if err := json.NewDecoder(os.Stdin).Decode(&cur); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	f := table[cur.Fn]
	if f == nil {
		os.Exit(4)
	}
	failed = map[string]bool{}
	for i := 0; i < max(cur.Runs, 1) && len(res.Failed) == 0 && res.Panic == ""; i++ {
		runOnce(f)
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

// modelRuntimeError is what the engine panics with, on behalf of the runtime.
type modelRuntimeError string

func (e modelRuntimeError) Error() string { return string(e) }
func (e modelRuntimeError) RuntimeError() {}

func val(name string, def uint64) uint64 {
	if v, ok := cur.Vals[name]; ok {
		return v
	}
	return def
}

// The primitives of the harnesses. The engine has its own implementation of
// each: what follows is executed when an input is replayed.

// ndByte is any byte of the alphabet; any byte when it is empty.
func ndByte(name, alphabet string) byte {
	if alphabet == "" {
		return byte(val(name, 0))
	}
	lo := alphabet[0]
	for i := 1; i < len(alphabet); i++ {
		lo = min(lo, alphabet[i])
	}
	return byte(val(name, uint64(lo)))
}

func ndBool(name string) bool { return val(name, 0) != 0 }

// ndInt is any integer from lo to hi.
func ndInt(name string, lo, hi int) int { return lo + int(val(name, 0)) }

// ndPick is any integer below n, each of which is explored on its own.
func ndPick(name string, n int) int { return int(val(name, 0)) }

// ndCase is any integer below n, each of which is explored by its own job.
func ndCase(name string, n int) int { return cur.Cases[name] }

// ndStr is any string of n bytes of the alphabet.
func ndStr(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ndByte(name+"."+strconv.Itoa(i), alphabet)
	}
	return string(b)
}

func ndAssume(ok bool) {
	if !ok {
		panic(assumeFailed{})
	}
}

// ndAssert states that the condition holds.
func ndAssert(ok bool, label string) {
	if !ok && !failed[label] {
		failed[label] = true
		res.Failed = append(res.Failed, label)
	}
}

// ndReach records that the point can be reached.
func ndReach(name string) {}

// ndObserve records a value, in order to compare the engine with the native
// execution.
func ndObserve(name, v string)          { res.Obs = append(res.Obs, [2]string{name, v}) }
func ndObserveInt(name string, v int)   { ndObserve(name, strconv.Itoa(v)) }
func ndObserveBool(name string, v bool) { ndObserveInt(name, b2i(v)) }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ndBound is the bound of the tier.
func ndBound(quick, thorough int) int {
	if cur.Thorough {
		return thorough
	}
	return quick
}

// ndMerge determines whether paths are merged. It has no effect on what is
// explored.
func ndMerge(on bool) {}

// ndMapOrders lets maps be iterated over in any order.
func ndMapOrders(on bool) {}

// primSymbolic determines if the execution is symbolic.
func primSymbolic() bool { return false }

// ndShare declares all of the memory that exists to be shared: writes to it
// are recorded until ndUnshare.
func ndShare()   {}
func ndUnshare() {}

// ndWatched is the last write of shared memory, if any.
func ndWatched() string { return "" }
