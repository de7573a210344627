package ev

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"

	"verif/harness/vlib"
)

func TestC06_EventToMap(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 360000, Thorough: 4800000,
		Rule: "an event of every value kind to a Go map (each entry of the documented Go type) and back to an equal event; non-trivial: at least 3 kinds and nesting",
	}, func(t *rapid.T, c *vlib.Case) {
		m := vlib.Root(vlib.ValueOpt{Names: vlib.AnyName, AnyDouble: true, AnyBytes: true, Depth: 4, NilNested: true, NilItems: true, NilFields: true}, vlib.NoBackslash).Draw(t, "m")
		e := m.Event()
		var got map[string]interface{}
		vlib.NoPanic(t, "FromEvent of "+m.String(), func() { got = mapinterface.FromEvent(e) })
		// The map has exactly the plain values.
		var asModel *vlib.MV
		if p := vlib.Catch(func() { asModel = vlib.OfPlain(got) }); p != nil {
			t.Fatalf("FromEvent of %v: %v", m, p)
		}
		if len(m.O) == 0 && got == nil {
			asModel = vlib.MObj(nil)
		}
		if !asModel.Equal(m) {
			t.Fatalf("FromEvent of %v = %v", m, asModel)
		}
		back, err := mapinterface.ToEvent(got)
		if err != nil {
			t.Fatalf("ToEvent of %v: %v", got, err)
		}
		if b := vlib.OfEvent(back); !b.Equal(m) {
			t.Fatalf("%v came back as %v", m, b)
		}
		if again := vlib.OfEvent(e); !again.Equal(m) {
			t.Fatalf("converting changed the event from %v to %v", m, again)
		}
		kinds := map[vlib.Kind]bool{}
		m.Walk(func(v *vlib.MV) { kinds[v.Kind] = true })
		for k := range kinds {
			c.Class(k.String())
		}
		if len(kinds) >= 4 && m.Depth() >= 2 {
			c.NonTrivial(m.String())
		}
	})
}

// plain draws a map of plain values: those that FromEvent gives.
func TestC06_MapToEvent(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 360000, Thorough: 4800000,
		Rule: "a Go map of plain values (dotted, unusual and unusable keys included) to an event, every entry read by its escaped key, and back to the same map; non-trivial: a key holds a dot, or a key that names no field must be refused",
	}, func(t *rapid.T, c *vlib.Case) {
		m := vlib.Root(vlib.ValueOpt{Names: vlib.AnyName, AnyDouble: true, AnyBytes: true, Depth: 3}, vlib.NoBackslash).Draw(t, "m")
		in := m.PlainMap()
		unusable := rapid.IntRange(0, 9).Draw(t, "unusable") == 9
		if unusable {
			in[""] = vlib.Value(vlib.ValueOpt{Names: vlib.AnyName, Depth: 1}).Draw(t, "v").Plain()
		}
		copied := vlib.OfPlain(in)
		var e *event.Event
		var err error
		vlib.NoPanic(t, fmt.Sprintf("ToEvent of %v", copied), func() { e, err = mapinterface.ToEvent(in) })
		if unusable {
			if err == nil {
				t.Fatalf("ToEvent of %v has no error; event %v", copied, vlib.OfEvent(e))
			}
			c.Class("unusable key")
			c.NonTrivial(copied.String())
			return
		}
		if err != nil {
			t.Fatalf("ToEvent of %v: %v", copied, err)
		}
		var dotted bool
		for _, p := range m.Paths() {
			ok := true
			for _, n := range p {
				ok = ok && n != "" && !strings.Contains(n, `\`)
				dotted = dotted || strings.Contains(n, ".")
			}
			if !ok {
				continue
			}
			if v := e.Get(vlib.Key(p)); v == nil || !vlib.Of(v).Equal(m.GetPath(p)) {
				t.Fatalf("ToEvent of %v: Get(%q) = %v, want %v", copied, vlib.Key(p), v, m.GetPath(p))
			}
		}
		back := mapinterface.FromEvent(e)
		if len(back) == 0 && len(in) == 0 {
			return
		}
		if !samePlain(back, in) {
			t.Fatalf("%v came back as %v", in, back)
		}
		if now := vlib.OfPlain(in); !now.Equal(copied) {
			t.Fatalf("converting changed the map from %v to %v", copied, now)
		}
		// The event shares nothing with the map it came from.
		if len(m.O) > 0 && rapid.Bool().Draw(t, "mutate") {
			k := m.Keys()[0]
			e.Put(vlib.Key([]string{k, "deeper"}), event.String("new"))
			e.Put(vlib.Key([]string{k}), event.String("new"))
			if now := vlib.OfPlain(in); !now.Equal(copied) {
				t.Fatalf("writing to the event changed the map from %v to %v", copied, now)
			}
		}
		if dotted {
			c.NonTrivial(m.String())
		}
	})
}

func samePlain(a, b interface{}) bool {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for k := range x {
			if _, found := y[k]; !found || !samePlain(x[k], y[k]) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for i := range x {
			if !samePlain(x[i], y[i]) {
				return false
			}
		}
		return true
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	}
	return reflect.DeepEqual(a, b)
}

func TestC06_Handmade(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 120000, Thorough: 1600000,
		Rule: "numbers of every Go kind, maps with different value kinds and several dots at each level, into an event; sibling entries that a wrong split would merge (a.b next to a holding b) stay apart; non-trivial: both a dotted key and the nested path it spells exist",
	}, func(t *rapid.T, c *vlib.Case) {
		n := rapid.IntRange(1, 4).Draw(t, "segs")
		segs := make([]string, n+1)
		for i := range segs {
			segs[i] = rapid.SampledFrom([]string{"a", "b", "c"}).Draw(t, "seg")
		}
		split := rapid.IntRange(1, n).Draw(t, "split")
		in := map[string]interface{}{}
		want := vlib.MObj(nil)
		// The same letters once as one literal name, once split.
		add := func(path []string, v string) {
			if _, out := want.PutPath(path, vlib.MStr(v), false); out != vlib.OK {
				return
			}
			cur := in
			for _, s := range path[:len(path)-1] {
				next, ok := cur[s].(map[string]interface{})
				if !ok {
					next = map[string]interface{}{}
					cur[s] = next
				}
				cur = next
			}
			cur[path[len(path)-1]] = v
		}
		add([]string{strings.Join(segs, ".")}, "literal")
		add(segs, "nested")
		add([]string{strings.Join(segs[:split], "."), strings.Join(segs[split:], ".")}, "halves")
		add(append(append([]string(nil), segs[:split]...), strings.Join(segs[split:], ".")), "tail")
		e, err := mapinterface.ToEvent(in)
		if err != nil {
			t.Fatalf("ToEvent of %v: %v", in, err)
		}
		if got := vlib.OfEvent(e); !got.Equal(want) {
			t.Fatalf("ToEvent of %v = %v", in, got)
		}
		if back := mapinterface.FromEvent(e); !reflect.DeepEqual(back, in) {
			t.Fatalf("%v came back as %v", in, back)
		}
		c.NonTrivial(want.String())
	})
}
