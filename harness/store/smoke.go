package store

import (
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/testdata/testpb"
	"github.com/fdymylja/tmos/zz_verif/sym"
)

var _ = meta.NewStringID
var _ orm.Store
var _ testpb.SimpleMessage

// HKVSetGet: what was set is what is read.
func HKVSetGet() {
	b := kv.NewBadger()
	k1 := sym.Bytes("k1", 2)
	k2 := sym.Bytes("k2", 2)
	v1 := sym.Bytes("v1", 2)
	v2 := sym.Bytes("v2", 2)
	b.Set(k1, v1)
	b.Set(k2, v2)
	g, ok := b.Get(k1)
	sym.Assert(ok, "present")
	if string(k1) == string(k2) {
		sym.Assert(string(g) == string(v2), "overwritten")
		sym.Reach("same key")
	} else {
		sym.Assert(string(g) == string(v1), "kept")
		sym.Reach("distinct keys")
	}
}
