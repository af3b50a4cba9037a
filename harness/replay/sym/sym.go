// Package sym (native build): inputs come from the file named by
// GOSYM_REPLAY, in call order.
package sym

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
)

type in struct {
	Name, Kind, Val string
}

var (
	ins    []in
	pos    int
	reach  []string
	nasrt  int
	loaded bool
	tier   string
	pad    int // what follows the recorded inputs is drawn from this seed
	rnd    *rand.Rand
)

// Failure is thrown by a failed assertion.
type Failure struct{ Finding, Msg string }

// Diverged is thrown when the native run leaves the recorded path.
type Diverged struct{ Msg string }

func Load(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var f struct {
		Inputs []in
		Tier   string
		Pad    int
	}
	if err := json.Unmarshal(b, &f); err != nil {
		panic(err)
	}
	ins, tier, loaded, pad = f.Inputs, f.Tier, true, f.Pad
	rnd = rand.New(rand.NewSource(int64(pad)*1000003))
}

// Summary describes the completed run.
func Summary() string {
	b, _ := json.Marshal(map[string]interface{}{"reach": reach, "asserts": nasrt})
	return string(b)
}

// padding draws an input that was not recorded.
func padding(kind string, n int) string {
	switch kind {
	case "bytes":
		b := make([]byte, n)
		for i := range b {
			b[i] = "ab/0\x00\x01\xff"[rnd.Intn(7)]
		}
		return hex.EncodeToString(b)
	case "int":
		if n == 0 || n > 6 {
			n = 6
		}
		return strconv.Itoa(rnd.Intn(1 << uint(rnd.Intn(n+1))))
	}
	return strconv.Itoa(rnd.Intn(n))
}

func next(name, kind string, n int) string {
	if pos >= len(ins) && pad > 0 {
		return padding(kind, n)
	}
	if pos >= len(ins) {
		diverge(Diverged{"no more inputs at " + name})
	}
	i := ins[pos]
	pos++
	if i.Name != name || i.Kind != kind {
		diverge(Diverged{fmt.Sprintf("wants %s/%s, recorded %s/%s", name, kind, i.Name, i.Kind)})
	}
	return i.Val
}

func u64(name string) uint64 {
	v, ok := new(big.Int).SetString(next(name, "int", 0), 10)
	if !ok {
		panic("bad int")
	}
	return new(big.Int).And(v, new(big.Int).SetUint64(^uint64(0))).Uint64()
}

func Symbolic() bool                { return false }
func Uint64(name string) uint64     { return u64(name) }
func Int64(name string) int64       { return int64(u64(name)) }
func Uint32(name string) uint32     { return uint32(u64(name)) }
func Int32(name string) int32       { return int32(u64(name)) }
func Uint16(name string) uint16     { return uint16(u64(name)) }
func Byte(name string) byte         { return byte(u64(name)) }
func Bool(name string) bool         { return next(name, "bool", 2) == "1" }
func Dec(name string, n int) string { return next(name, "int", n) }

func Bytes(name string, n int) []byte {
	b, err := hex.DecodeString(next(name, "bytes", n))
	if err != nil || len(b) != n {
		diverge(Diverged{"bytes " + name})
	}
	return b
}

func String(name string, n int) string { return string(Bytes(name, n)) }

func Choice(name string, n int) int {
	v, err := strconv.Atoi(next(name, "choice", n))
	if err != nil || v >= n {
		diverge(Diverged{"choice " + name})
	}
	return v
}

func Assume(c bool) {
	if !c {
		diverge(Diverged{"assumption"})
	}
}

func Assert(c bool, msg string) {
	nasrt++
	if !c {
		fail(Failure{"", msg})
	}
}

func AssertKnown(finding string, region bool, c bool, msg string) {
	nasrt++
	if !c {
		f := Failure{"", msg}
		if region {
			f.Finding = finding
		}
		fail(f)
	}
}

func diverge(d Diverged) {
	b, _ := json.Marshal(map[string]interface{}{"diverged": d.Msg})
	fmt.Println("REPLAY " + string(b))
	os.Exit(4)
}

// fail ends the process at once so that no recover() of the code under test
// or of the harness can swallow the verdict.
func fail(f Failure) {
	b, _ := json.Marshal(map[string]interface{}{"violated": f.Msg, "finding": f.Finding})
	fmt.Println("REPLAY " + string(b))
	os.Exit(3)
}

func Bound(quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Reach(label string)     { reach = append(reach, label) }
func MapOrder(bool)          {}
func Note(string)            {}
func Trace(v ...interface{}) { fmt.Fprintln(os.Stderr, v...) }
