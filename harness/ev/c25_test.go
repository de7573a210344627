package ev

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"

	"verif/harness/vlib"
)

func TestC25_Append(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 400000, Thorough: 6000000,
		Rule: "a history of 1 to 8 appends of any items (arrays, nil, reused items) to fields of a random event, compared with the model after each; non-trivial: at least two appends to the same field, or an append to an existing single value, or a failure",
	}, func(t *rapid.T, c *vlib.Case) {
		m := vlib.Root(vlib.ValueOpt{Names: vlib.AnyName, Depth: 3, AnyBytes: true, NilNested: true, NilItems: true, NilFields: true}, vlib.NoBackslash).Draw(t, "m")
		e := m.Event()
		init := m.String()
		var log []string
		type item struct {
			v *event.Value
			m *vlib.MV
		}
		var items []item
		var interesting bool
		appended := map[string]bool{}
		n := rapid.IntRange(1, 8).Draw(t, "appends")
		if rapid.IntRange(0, 100).Draw(t, "more") == 100 {
			n += rapid.IntRange(1, 60).Draw(t, "more appends")
		}
		if m, ok := vlib.NovelSize(t, 100, 2000); ok {
			n = m
		}
		for i := 0; i < n; i++ {
			var it item
			switch {
			case len(items) > 0 && rapid.IntRange(0, 3).Draw(t, "reuse") == 3:
				it = items[rapid.IntRange(0, len(items)-1).Draw(t, "which")]
				c.Class("item reused")
			case rapid.IntRange(0, 11).Draw(t, "nil") == 11:
				c.Class("nil item")
			default:
				it.m = vlib.Value(vlib.ValueOpt{Names: vlib.AnyName, Depth: 2, NilNested: true, NilItems: true, NilFields: true}).Draw(t, "item")
				if rapid.IntRange(0, 2).Draw(t, "array") == 2 && it.m.Kind != vlib.Arr {
					it.m = vlib.MArr(it.m, vlib.MInt(int64(i)))
				}
				it.v = it.m.Value()
				if it.m.Kind == vlib.Arr && rapid.Bool().Draw(t, "spare") {
					a := make([]*event.Value, len(it.v.Array), len(it.v.Array)+4)
					copy(a, it.v.Array)
					it.v = event.Array(a...)
				}
				items = append(items, it)
			}
			var p []string
			if rapid.IntRange(0, 19).Draw(t, "emptykey") < 19 {
				p = vlib.Path(t, m, vlib.NoBackslash)
			}
			key := vlib.Key(p)
			before := m.Clone()
			log = append(log, fmt.Sprintf("Append(%q, %v)", key, it.m))
			var err error
			vlib.NoPanic(t, fmt.Sprintf("after %s on %s", strings.Join(log, "; "), init), func() { err = eventutil.Append(e, key, it.v) })
			ok := true
			if it.m != nil {
				old := m.GetPath(p)
				arr := vlib.MArr()
				switch {
				case len(p) == 0:
					ok = false
				case old == nil:
					c.Class("missing field")
				case old.Kind == vlib.Arr:
					arr.A = append(arr.A, old.A...)
					c.Class("array field")
				default:
					arr.A = append(arr.A, old)
					c.Class("single value")
					interesting = true
				}
				if it.m.Kind == vlib.Arr {
					arr.A = append(arr.A, it.m.Clone().A...)
					c.Class("array item")
				} else {
					arr.A = append(arr.A, it.m.Clone())
				}
				if ok {
					_, out := m.PutPath(p, arr, true)
					ok = out == vlib.OK
				}
			} else if len(p) == 0 {
				ok = err == nil // A nil item and no key: either.
			}
			if ok != (err == nil) {
				t.Fatalf("%s on %s: error %v, want success %v; before: %v", strings.Join(log, "; "), init, err, ok, before)
			}
			if !ok {
				c.Class("failed")
				interesting = true
				if !m.Equal(before) {
					panic("model changed by a failed append")
				}
			}
			if got := vlib.OfEvent(e); !got.Equal(m) {
				t.Fatalf("after %s on %s:\n got %v\nwant %v", strings.Join(log, "; "), init, got, m)
			}
			for _, it := range items {
				if now := vlib.Of(it.v); !now.Equal(it.m) {
					t.Fatalf("after %s on %s: item %v became %v", strings.Join(log, "; "), init, it.m, now)
				}
			}
			if ok && appended[key] {
				interesting = true
				c.Class("same field again")
			}
			appended[key] = true
		}
		if interesting {
			c.NonTrivial(init + " | " + strings.Join(log, "; "))
		}
	})
}
