// Package model holds Go models of library code, executed symbolically in
// place of the real bodies.
package model

// RuntimeError is a Go run-time panic raised by the interpreter.
type RuntimeError struct{ msg string }

func (e RuntimeError) Error() string { return e.msg }

// RuntimeError marks the type as a runtime.Error.
func (e RuntimeError) RuntimeError() {}

// TextError is a library error of which only the text is modelled.
type TextError struct{ msg string }

func (e *TextError) Error() string { return e.msg }

// FmtError is what fmt.Errorf returns; its text is rendered on demand.
type FmtError struct {
	format  string
	args    []interface{}
	wrapped error
}

func (e *FmtError) Error() string { return render(e.format, e.args) }

// Unwrap returns the operand of %w.
func (e *FmtError) Unwrap() error { return e.wrapped }

func render(format string, args []interface{}) string { panic("engine") }

// errorsIs models errors.Is for comparable targets.
//
//gosym:replace errors.Is
func errorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// sortSlice models sort.Slice as an insertion sort over the element accessors
// the engine provides.
//
//gosym:replace sort.Slice
func sortSlice(x interface{}, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sliceSwap(x, j, j-1)
		}
	}
}

//gosym:replace sort.SliceStable
func sortSliceStable(x interface{}, less func(i, j int) bool) { sortSlice(x, less) }

//gosym:replace sort.Strings
func sortStrings(x []string) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

func sliceLen(x interface{}) int        { panic("engine") }
func sliceSwap(x interface{}, i, j int) { panic("engine") }
