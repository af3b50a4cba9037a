package state

// Elements splits a JSON object with one field "list" into the texts of the
// list's elements.
func Elements(b []byte) ([][]byte, bool) { panic("engine") }
