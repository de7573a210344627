package vlib

import "github.com/andrewkroh/go-sawmill/pkg/event"

// Crowd puts the arrays of the event one after the other into one slice, as a
// producer may that allocates them together: what writes behind the end of one
// array damages the next one.
func Crowd(e *event.Event) *event.Event {
	root := e.Get("")
	if root == nil {
		return e
	}
	var arrays []*event.Value
	seen := map[*event.Value]bool{}
	var find func(v *event.Value)
	find = func(v *event.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if v.Type == event.ArrayType && v.Array != nil {
			arrays = append(arrays, v)
		}
		for _, x := range v.Array {
			find(x)
		}
		for _, x := range v.Object {
			find(x)
		}
	}
	find(root)
	n := 0
	for _, v := range arrays {
		n += len(v.Array)
	}
	all := make([]*event.Value, 0, n)
	for _, v := range arrays {
		at := len(all)
		all = append(all, v.Array...)
		v.Array = all[at:len(all)]
	}
	return e
}
