// Package sym is the harness interface: every function is implemented by the
// symbolic engine; the replay build replaces this file by one that reads the
// solver's values.
package sym

// Symbolic reports whether the harness runs under the engine.
func Symbolic() bool { panic("engine") }

// Uint64 is an arbitrary value.
func Uint64(name string) uint64 { panic("engine") }

// Int64 is an arbitrary value.
func Int64(name string) int64 { panic("engine") }

// Uint32 is an arbitrary value.
func Uint32(name string) uint32 { panic("engine") }

// Int32 is an arbitrary value.
func Int32(name string) int32 { panic("engine") }

// Byte is an arbitrary value.
func Byte(name string) byte { panic("engine") }

// Bool is an arbitrary value.
func Bool(name string) bool { panic("engine") }

// Bytes is an arbitrary byte string of length n.
func Bytes(name string, n int) []byte { panic("engine") }

// String is an arbitrary (not necessarily UTF-8) string of length n.
func String(name string, n int) string { panic("engine") }

// Dec is the decimal text of an arbitrary unsigned integer of the given width.
func Dec(name string, bits int) string { panic("engine") }

// Choice is an arbitrary element of 0..n-1.
func Choice(name string, n int) int { panic("engine") }

// Assume restricts the inputs considered.
func Assume(c bool) { panic("engine") }

// Assert states the property.
func Assert(c bool, msg string) { panic("engine") }

// AssertKnown is Assert, except that a failure inside region is the listed
// known finding.
func AssertKnown(finding string, region bool, c bool, msg string) { panic("engine") }

// Bound is a bound of the exploration that depends on the tier.
func Bound(quick, thorough int) int { panic("engine") }

// Uint16 is an arbitrary value.
func Uint16(name string) uint16 { panic("engine") }

// Reach marks a point that must be reachable (vacuity guard).
func Reach(label string) { panic("engine") }

// MapOrder makes every map iteration order arbitrary from here on.
func MapOrder(on bool) { panic("engine") }

// Trace prints while debugging.
func Trace(v ...interface{}) {}

// And, Or and Implies combine conditions without splitting the path.
func And(a, b bool) bool { panic("engine") }

func Or(a, b bool) bool { panic("engine") }

func Implies(a, b bool) bool { panic("engine") }
