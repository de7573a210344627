package ev

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"

	"verif/harness/vlib"
)

func TestC03_RoundTrip(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 400000, Thorough: 6000000,
		Rule: "a generated JSON object text (any spelling of numbers, strings, whitespace, duplicate keys) decoded into an event, fresh or used, encoded again and compared with the generator's own meaning of the text; non-trivial: nesting and at least one of escapes, duplicate keys, unusual numbers, nulls, empty containers",
	}, func(t *rapid.T, c *vlib.Case) {
		j := &vlib.JSONText{T: t, Depth: rapid.IntRange(1, 4).Draw(t, "depth")}
		text, want := j.Object()
		e := event.New()
		if rapid.IntRange(0, 3).Draw(t, "used") == 3 {
			e.Put("a.b", event.String("old"))
			e.Put("old", event.Array(event.Bool(true)))
			c.Class("used event")
		}
		if err := json.Unmarshal([]byte(text), e); err != nil {
			t.Fatalf("decoding %s: %v", text, err)
		}
		var out []byte
		var err error
		if rapid.Bool().Draw(t, "encoder") {
			var buf bytes.Buffer
			enc := json.NewEncoder(&buf)
			enc.SetEscapeHTML(rapid.Bool().Draw(t, "html"))
			err = enc.Encode(e)
			out = buf.Bytes()
		} else {
			out, err = json.Marshal(e)
		}
		if err != nil {
			t.Fatalf("encoding %s: %v", text, err)
		}
		var got interface{}
		if err := json.Unmarshal(out, &got); err != nil {
			t.Fatalf("%s encoded as invalid %s: %v", text, out, err)
		}
		if !vlib.SameJSON(got, want) {
			t.Fatalf("%s encoded as %s, want %v", text, out, want)
		}
		c.ClassIf(j.Dups > 0, "duplicate keys")
		c.ClassIf(j.Escapes > 0, "escapes")
		c.ClassIf(j.NumForms > 0, "number forms")
		c.ClassIf(j.Nulls > 0, "nulls")
		c.ClassIf(j.EmptyCont > 0, "empty containers")
		if want.Depth() > 1 && j.Dups+j.Escapes+j.NumForms+j.Nulls+j.EmptyCont > 0 {
			c.NonTrivial(text)
		}
	})
}

// sameTyped compares a decoded JSON value (numbers as json.Number) with a typed
// value; it returns what differs.
func sameTyped(got interface{}, want *vlib.MV, at string) string {
	bad := func() string { return fmt.Sprintf("at %s: %#v, want %v", at, got, want) }
	switch want.Kind {
	case vlib.Null:
		if got != nil {
			return bad()
		}
	case vlib.Bool:
		if got != want.B {
			return bad()
		}
	case vlib.Int, vlib.Uint:
		n, ok := got.(json.Number)
		if !ok {
			return bad()
		}
		r, ok := new(big.Rat).SetString(string(n))
		w := new(big.Rat).SetInt64(want.I)
		if want.Kind == vlib.Uint {
			w = new(big.Rat).SetFrac(new(big.Int).SetUint64(want.U), big.NewInt(1))
		}
		if !ok || r.Cmp(w) != 0 {
			return bad()
		}
	case vlib.Float:
		n, ok := got.(json.Number)
		if !ok {
			return bad()
		}
		f, err := strconv.ParseFloat(string(n), 64)
		if err != nil || math.Float64bits(f) != math.Float64bits(want.F) {
			return bad()
		}
	case vlib.Str:
		if got != want.S {
			return bad()
		}
	case vlib.Time:
		s, ok := got.(string)
		if !ok {
			return bad()
		}
		tm, err := time.Parse(time.RFC3339Nano, s)
		if err != nil || !strings.HasSuffix(s, "Z") || tm.UnixNano() != want.I {
			return bad()
		}
	case vlib.Arr:
		a, ok := got.([]interface{})
		if !ok || len(a) != len(want.A) {
			return bad()
		}
		for i := range a {
			if s := sameTyped(a[i], want.A[i], fmt.Sprintf("%s[%d]", at, i)); s != "" {
				return s
			}
		}
	case vlib.Obj:
		o, ok := got.(map[string]interface{})
		if !ok || len(o) != len(want.O) {
			return bad()
		}
		for k, x := range o {
			y, found := want.O[k]
			if !found {
				return bad()
			}
			if s := sameTyped(x, y, at+"/"+k); s != "" {
				return s
			}
		}
	}
	return ""
}

func decodeNumbers(data []byte) (interface{}, error) {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var got interface{}
	if err := dec.Decode(&got); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return got, nil
}

func TestC03_Typed(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 400000, Thorough: 6000000,
		Rule: "an event built from typed values of every kind, encoded and read back with exact numbers; non-trivial: holds an integer beyond 2^53, a timestamp with sub-second digits, a fractional double, or an empty array or object without storage",
	}, func(t *rapid.T, c *vlib.Case) {
		m := vlib.Root(vlib.ValueOpt{Names: vlib.AnyName, Depth: 3, NilNested: true, NilItems: true, NilFields: true}, vlib.NoBackslash).Draw(t, "m")
		e := m.Event()
		data, err := json.Marshal(e)
		if err != nil {
			t.Fatalf("encoding %v: %v", m, err)
		}
		got, err := decodeNumbers(data)
		if err != nil {
			t.Fatalf("%v encoded as invalid %s: %v", m, data, err)
		}
		if s := sameTyped(got, m, ""); s != "" {
			t.Fatalf("%v encoded as %s: %s", m, data, s)
		}
		// A value by itself encodes like the same value in an event.
		for _, k := range m.Keys() {
			data, err := json.Marshal(e.Get(vlib.Key([]string{k})))
			if err != nil {
				t.Fatalf("encoding %v: %v", m.O[k], err)
			}
			got, err := decodeNumbers(data)
			if err != nil {
				t.Fatalf("%v encoded as invalid %s: %v", m.O[k], data, err)
			}
			if s := sameTyped(got, m.O[k], k); s != "" {
				t.Fatalf("%v encoded as %s: %s", m.O[k], data, s)
			}
		}
		var hard bool
		m.Walk(func(v *vlib.MV) {
			switch v.Kind {
			case vlib.Int:
				if v.I > 1<<53 || v.I < -(1<<53) {
					hard = true
					c.Class("large int")
				}
			case vlib.Uint:
				if v.U > 1<<53 {
					hard = true
					c.Class("large uint")
				}
			case vlib.Time:
				if v.I%1e9 != 0 {
					hard = true
					c.Class("sub-second time")
				}
			case vlib.Float:
				if v.F != math.Trunc(v.F) {
					hard = true
					c.Class("fraction")
				}
			case vlib.Arr:
				if v.A == nil {
					hard = true
					c.Class("array without storage")
				}
			case vlib.Obj:
				if v.O == nil {
					hard = true
					c.Class("object without storage")
				}
			}
		})
		if hard {
			c.NonTrivial(m.String())
		}
	})
}

func TestC03_Unrepresentable(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 100000, Thorough: 800000,
		Rule: "an event with a NaN or an infinity at a random place must fail to encode; non-trivial: the number is nested",
	}, func(t *rapid.T, c *vlib.Case) {
		m := vlib.Root(vlib.ValueOpt{Names: vlib.AnyName, Depth: 3}, vlib.NoBackslash).Draw(t, "m")
		bad := rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}).Draw(t, "f")
		// Replace or extend one value.
		var all []*vlib.MV
		m.Walk(func(v *vlib.MV) { all = append(all, v) })
		at := all[rapid.IntRange(0, len(all)-1).Draw(t, "at")]
		nested := at != m
		switch {
		case at.Kind == vlib.Obj:
			at.O["nan"] = vlib.MFloat(bad)
		case at.Kind == vlib.Arr:
			at.A = append(at.A, vlib.MFloat(bad))
		default:
			*at = *vlib.MFloat(bad)
		}
		e := m.Event()
		data, err := json.Marshal(e)
		if err == nil {
			t.Fatalf("%v encoded as %s", m, data)
		}
		var buf bytes.Buffer
		if err := json.NewEncoder(&buf).Encode(e); err == nil || buf.Len() > 0 {
			t.Fatalf("%v encoded as %s, %v", m, buf.Bytes(), err)
		}
		if nested {
			c.NonTrivial(m.String())
		}
	})
}
