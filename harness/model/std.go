package model

import (
	"context"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
)

// Object pools hand out what was put last.
var pools = map[*sync.Pool][]interface{}{}

//gosym:replace (*sync.Pool).Get
func poolGet(p *sync.Pool) interface{} {
	if l := pools[p]; len(l) > 0 {
		pools[p] = l[:len(l)-1]
		return l[len(l)-1]
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//gosym:replace (*sync.Pool).Put
func poolPut(p *sync.Pool, x interface{}) {
	if x != nil {
		pools[p] = append(pools[p], x)
	}
}

var values = map[*atomic.Value]interface{}{}

//gosym:replace (*sync/atomic.Value).Load
func valueLoad(v *atomic.Value) interface{} { return values[v] }

//gosym:replace (*sync/atomic.Value).Store
func valueStore(v *atomic.Value, x interface{}) {
	if x == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	values[v] = x
}

type valueCtx struct {
	context.Context
	k, v interface{}
}

func (c *valueCtx) Value(k interface{}) interface{} {
	if c.k == k {
		return c.v
	}
	return c.Context.Value(k)
}

//gosym:replace context.WithValue
func withValue(c context.Context, k, v interface{}) context.Context { return &valueCtx{c, k, v} }

//gosym:replace fmt.Fprintf
func fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(fmt.Sprintf(format, a...)))
}

//gosym:replace fmt.Fprint
func fprint(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(fmt.Sprint(a...))) }

func assignTo(x, target interface{}) bool { panic("engine") }

//gosym:replace errors.As
func errorsAs(err error, target interface{}) bool {
	for err != nil {
		if assignTo(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}
