// Package sym is the vocabulary of the harnesses. The symbolic engine intercepts every
// function of this package; the bodies below are the native meaning used when a
// counterexample or a sampled path is replayed against the really compiled code.
package sym

import (
	"fmt"
	"strconv"
	"strings"
)

type State struct {
	In     map[string]uint64
	Known  map[string]bool
	Tier   int
	Obs    []string
	count  map[string]int
	mapOrd bool
}

var S = &State{}

func Reset(in map[string]uint64, known map[string]bool, tier int) {
	S = &State{In: in, Known: known, Tier: tier, count: map[string]int{}}
}

// Outcome is panicked by the native primitives to end a run.
type Outcome struct{ Kind, Msg string }

func get(name string) (uint64, bool) {
	k := S.count[name]
	S.count[name] = k + 1
	if k > 0 {
		name = name + "#" + strconv.Itoa(k)
	}
	v, ok := S.In[name]
	return v, ok
}

// Byte is an arbitrary byte.
func Byte(name string) byte { v, _ := get(name); return byte(v) }

// ByteIn is an arbitrary byte of the alphabet.
func ByteIn(name, alphabet string) byte {
	v, _ := get(name)
	if strings.IndexByte(alphabet, byte(v)) < 0 {
		return alphabet[0]
	}
	return byte(v)
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { v, _ := get(name); return v == 1 }

// Choice is an arbitrary integer in [0,n), explored one by one.
func Choice(name string, n int) int {
	v, _ := get(name)
	if n <= 0 {
		panic(Outcome{"assume", "empty choice"})
	}
	if int(v) >= n {
		return 0
	}
	return int(v)
}

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v, ok := get(name)
	if !ok || int(int64(v)) < lo || int(int64(v)) > hi {
		return lo
	}
	return int(int64(v))
}

// Bytes is a string of n arbitrary bytes over the alphabet ("" = all 256 values).
func Bytes(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		v, _ := get(name + "." + strconv.Itoa(i))
		b[i] = byte(v)
		if alphabet != "" && strings.IndexByte(alphabet, b[i]) < 0 {
			b[i] = alphabet[0]
		}
	}
	return string(b)
}

// CaseVar is s with every ASCII letter in an arbitrary letter case.
func CaseVar(name, s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			v, ok := get(name + "." + strconv.Itoa(i))
			if ok && (byte(v) == c|0x20 || byte(v) == c&^0x20) {
				b[i] = byte(v)
			}
		}
	}
	return string(b)
}

// Word is one of the words padded with blanks to the length of the longest; the choice is
// one symbolic byte, so that a word is decided only as far as the code looks at it.
func Word(name string, words []string) string {
	v, _ := get(name)
	if int(v) >= len(words) {
		v = 0
	}
	w := 0
	for _, s := range words {
		if len(s) > w {
			w = len(s)
		}
	}
	return words[v] + strings.Repeat(" ", w-len(words[v]))
}

func Assume(c bool) {
	if !c {
		panic(Outcome{"assume", ""})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Outcome{"violation", msg})
	}
}

func Fail(msg string) { panic(Outcome{"violation", msg}) }

// Stop ends the run without a verdict.
func Stop() { panic(Outcome{"stop", ""}) }

// Known leaves the region cond to the listed finding id: the path is discarded while the
// finding is listed as open and cond holds, unless that very finding is being replayed.
func Known(id string, cond bool) {
	if S.Known[id] && cond {
		panic(Outcome{"assume", "known " + id})
	}
}

// Tier is 0 for quick and 1 for thorough.
func Tier() int { return S.Tier }

func Reach(label string)             {}
func Observe(label, v string)        { S.Obs = append(S.Obs, label+"="+strconv.QuoteToASCII(v)) }
func ObserveInt(label string, v int) { S.Obs = append(S.Obs, label+"="+strconv.Itoa(v)) }

// MapOrder makes every later map iteration order arbitrary (engine only).
func MapOrder(on bool) { S.mapOrd = on }

// Symbolic reports whether the engine executes the harness.
func Symbolic() bool { return false }

// The operators below build one formula instead of branching.
func Eq(a, b string) bool     { return a == b }
func And(a, b bool) bool      { return a && b }
func Or(a, b bool) bool       { return a || b }
func Not(a bool) bool         { return !a }
func EqFold(a, b string) bool { return lower(a) == lower(b) }
func IteStr(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

// Pin makes the value concrete (the engine forks over all its values).
func Pin(s string) string { return s }

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c | 0x20
		}
	}
	return string(b)
}

var _ = fmt.Sprint
