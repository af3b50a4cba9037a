package state

import (
	"bytes"
	"encoding/json"
)

// Elements splits a JSON object with one field "list" into the texts of the
// list's elements.
func Elements(b []byte) (r [][]byte, ok bool) {
	var x struct{ List []json.RawMessage }
	d := json.NewDecoder(bytes.NewReader(b))
	d.DisallowUnknownFields()
	if d.Decode(&x) != nil {
		return nil, false
	}
	for _, e := range x.List {
		r = append(r, e)
	}
	return r, true
}
