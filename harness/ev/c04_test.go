package ev

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"

	"verif/harness/vlib"
)

var tokens = []string{"{", "}", "[", "]", ":", ",", `"a"`, `"b"`, `""`, "null", "true", "false", "0", "1.5", "-1", "1e400", "-", "nul", `"\u12`, `"\ud800"`, " ", "\n", "\x00", "\xff", `"a":`, `"a":null`, `{"a":`, `[[`, "//", "'a'", "NaN", "01", "+1", `"a`, "\ufeff", `{"a":{"b":[null,{}]}}`}

// someBytes draws input for a decoder: valid objects, damaged ones, other JSON
// and noise.
func someBytes(t *rapid.T, c *vlib.Case) []byte {
	doc := func() []byte {
		j := &vlib.JSONText{T: t, Depth: rapid.IntRange(1, 3).Draw(t, "depth")}
		text, _ := j.Object()
		return []byte(text)
	}
	switch rapid.IntRange(0, 7).Draw(t, "bytes") {
	case 0, 1:
		c.Class("valid object")
		return doc()
	case 2, 3:
		c.Class("damaged object")
		data := doc()
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "edits"); i < n && len(data) > 0; i++ {
			at := rapid.IntRange(0, len(data)-1).Draw(t, "at")
			switch rapid.IntRange(0, 4).Draw(t, "edit") {
			case 0:
				data = data[:at]
			case 1:
				data[at] = rapid.Byte().Draw(t, "byte")
			case 2:
				data = append(data[:at:at], data[at+1:]...)
			case 3:
				tok := rapid.SampledFrom(tokens).Draw(t, "tok")
				data = append(data[:at:at], append([]byte(tok), data[at:]...)...)
			case 4:
				to := rapid.IntRange(at, len(data)).Draw(t, "to")
				data = append(data[:to:to], data[at:]...)
			}
		}
		return data
	case 4:
		c.Class("tokens")
		return []byte(strings.Join(rapid.SliceOfN(rapid.SampledFrom(tokens), 0, 12).Draw(t, "tokens"), ""))
	case 5:
		c.Class("other JSON")
		return []byte(rapid.SampledFrom([]string{"[]", "[{}]", "1", `"x"`, "true", "", " ", "{}{}", "{} x", `{"a":1}{"a":2}`, "[null]", "\"{}\"", "{", "}", "-0", "null", " null\n", "nullx"}).Draw(t, "json"))
	case 6:
		c.Class("deep")
		n := rapid.IntRange(1, 60).Draw(t, "n")
		if rapid.IntRange(0, 40).Draw(t, "verydeep") == 40 {
			n *= 20
		}
		if rapid.Bool().Draw(t, "arrays") {
			return []byte(`{"a":` + strings.Repeat("[", n) + strings.Repeat("]", n) + "}")
		}
		return []byte(strings.Repeat(`{"a":`, n) + "null" + strings.Repeat("}", n))
	default:
		c.Class("noise")
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "noise")
	}
}

func TestC04_Decode(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 320000, Thorough: 6000000,
		Rule: "bytes (valid objects, damaged ones, token soup, deep nesting, noise) decoded into an event with content; accepted exactly when they are a JSON object, nothing changes when rejected, and an accepted event supports every operation; non-trivial: rejected input that starts like an object, or an accepted event that holds a null or an empty container",
	}, func(t *rapid.T, c *vlib.Case) {
		data := someBytes(t, c)
		before := vlib.Root(vlib.ValueOpt{Names: vlib.NonEmpty, Depth: 2, Width: 2}, vlib.NoBackslash).Draw(t, "before")
		e := before.Event()
		var want map[string]interface{}
		valid := json.Valid(data)
		refErr := json.Unmarshal(data, &want)
		isNull := valid && strings.TrimSpace(string(data)) == "null"
		isObject := valid && strings.HasPrefix(strings.TrimLeft(string(data), " \t\r\n"), "{")

		var err error
		direct := rapid.Bool().Draw(t, "direct")
		vlib.NoPanic(t, fmt.Sprintf("decoding %q", data), func() {
			if direct {
				err = e.UnmarshalJSON(data)
			} else {
				err = json.Unmarshal(data, e)
			}
		})
		if isNull {
			c.Class("null")
			use(t, c, e)
			return
		}
		if isObject && refErr == nil && err != nil {
			t.Fatalf("%q is a JSON object but was rejected: %v", data, err)
		}
		if !isObject && err == nil {
			t.Fatalf("%q is not a JSON object but was accepted as %v", data, vlib.OfEvent(e))
		}
		if err != nil {
			if got := vlib.OfEvent(e); !got.Equal(before) {
				t.Fatalf("rejecting %q (%v) changed the event from %v to %v", data, err, before, got)
			}
			c.Class("rejected")
			if len(data) > 0 && data[0] == '{' {
				c.NonTrivial(string(data))
			}
			return
		}
		c.Class("accepted")
		if refErr != nil {
			return // A number beyond the doubles: what it became is not specified.
		}
		m := vlib.OfPlain(want)
		if got := vlib.OfEvent(e); !got.Equal(m) {
			t.Fatalf("%q decoded as %v, want %v", data, got, m)
		}
		// Every entry is there, nulls included.
		paths := m.Paths()
		if len(paths) > 60 {
			paths = paths[:60]
		}
		for _, p := range paths {
			addressable := true
			for _, n := range p {
				addressable = addressable && n != "" && !strings.Contains(n, `\`)
			}
			if !addressable {
				continue
			}
			if v := e.Get(vlib.Key(p)); v == nil || !vlib.Of(v).Equal(m.GetPath(p)) {
				t.Fatalf("%q: Get(%q) = %v, want %v", data, vlib.Key(p), v, m.GetPath(p))
			}
		}
		var special bool
		m.Walk(func(v *vlib.MV) {
			special = special || v.Kind == vlib.Null || v.Kind == vlib.Arr && len(v.A) == 0 || v.Kind == vlib.Obj && len(v.O) == 0
		})
		if special && m.Count() > 1 {
			c.NonTrivial(string(data))
		}
		noNil(t, e.Get("."), string(data))
		use(t, c, e)
	})
}

// TestC04_Again decodes into the same value or event again and again.
func TestC04_Again(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 120000, Thorough: 2400000,
		Rule: "2 to 5 texts (JSON values of every kind, damaged ones) decoded one after another into one value and into one event: each accepted one is all that the target holds then, each rejected one changes nothing, and what was read out of the target earlier stays as it was; non-trivial: two accepted texts, one of them an array or object",
	}, func(t *rapid.T, c *vlib.Case) {
		v, e := &event.Value{}, event.New()
		now, nowEvent := vlib.MNull(), vlib.MObj(nil)
		type earlier struct {
			v    *event.Value
			want *vlib.MV
		}
		var taken []earlier
		take := func(v *event.Value) {
			if v == nil {
				return
			}
			for _, x := range v.Array {
				taken = append(taken, earlier{x, vlib.Of(x).Clone()})
			}
			for _, x := range v.Object {
				taken = append(taken, earlier{x, vlib.Of(x).Clone()})
			}
		}
		var log []string
		accepted, nested := 0, 0
		for i, n := 0, rapid.IntRange(2, 5).Draw(t, "n"); i < n; i++ {
			j := &vlib.JSONText{T: t, Depth: rapid.IntRange(0, 3).Draw(t, "depth")}
			text, m := j.Value()
			data := []byte(text)
			if rapid.IntRange(0, 3).Draw(t, "damage") == 3 && len(data) > 0 {
				if rapid.Bool().Draw(t, "cut") {
					data = data[:rapid.IntRange(0, len(data)-1).Draw(t, "at")]
				} else {
					at := rapid.IntRange(0, len(data)-1).Draw(t, "at")
					tok := rapid.SampledFrom(tokens).Draw(t, "tok")
					data = append(data[:at:at], append([]byte(tok), data[at:]...)...)
				}
				var ref interface{}
				if json.Unmarshal(data, &ref) == nil {
					m = vlib.OfPlain(ref)
				} else if json.Valid(data) {
					continue // A number beyond the doubles.
				} else {
					m = nil
				}
			}
			log = append(log, fmt.Sprintf("%q", data))
			var err error
			direct := rapid.Bool().Draw(t, "direct")
			vlib.NoPanic(t, strings.Join(log, ", "), func() {
				if direct {
					err = v.UnmarshalJSON(data)
				} else {
					err = json.Unmarshal(data, v)
				}
			})
			trailing := false
			if m == nil && direct {
				// Called by itself the method may stop at the end of the value.
				var ref interface{}
				dec := json.NewDecoder(strings.NewReader(string(data)))
				trailing = dec.Decode(&ref) == nil
			}
			switch {
			case m == nil && err == nil && !trailing:
				t.Fatalf("%v: invalid text was accepted as %v", log, vlib.Of(v))
			case m == nil && err == nil:
				return
			case m != nil && err != nil:
				t.Fatalf("%v: %v", log, err)
			case m != nil:
				now = m
				accepted++
				if m.Kind == vlib.Arr || m.Kind == vlib.Obj {
					nested++
				}
			}
			if got := vlib.Of(v); !got.Equal(now) {
				t.Fatalf("%v: the value is %v, want %v", log, got, now)
			}
			vlib.NoPanic(t, strings.Join(log, ", "), func() { err = json.Unmarshal(data, e) })
			switch {
			case m != nil && m.Kind == vlib.Obj:
				if err != nil {
					t.Fatalf("%v: event: %v", log, err)
				}
				nowEvent = m
			case m != nil && m.Kind == vlib.Null:
				nowEvent = vlib.OfEvent(e)
			case err == nil:
				t.Fatalf("%v: is not an object but was accepted as %v", log, vlib.OfEvent(e))
			}
			if got := vlib.OfEvent(e); !got.Equal(nowEvent) {
				t.Fatalf("%v: the event is %v, want %v", log, got, nowEvent)
			}
			for _, x := range taken {
				if got := vlib.Of(x.v); !got.Equal(x.want) {
					t.Fatalf("%v: a value read earlier changed from %v to %v", log, x.want, got)
				}
			}
			take(v)
			take(e.Get("."))
		}
		if accepted >= 2 && nested > 0 {
			c.NonTrivial(strings.Join(log, ", "))
		}
	})
}

func noNil(t *rapid.T, v *event.Value, what string) {
	if v == nil {
		return
	}
	for _, x := range v.Array {
		if x == nil {
			t.Fatalf("%q: array item is missing, want null", what)
		}
		noNil(t, x, what)
	}
	for k, x := range v.Object {
		if x == nil {
			t.Fatalf("%q: %q is missing, want null", what, k)
		}
		noNil(t, x, what)
	}
}

// use calls everything on an event; nothing may panic, and what is put can be
// read.
func use(t *rapid.T, c *vlib.Case, e *event.Event) {
	m := vlib.OfEvent(e)
	n := rapid.IntRange(1, 4).Draw(t, "uses")
	for i := 0; i < n; i++ {
		p := vlib.Path(t, m, vlib.NoBackslash)
		key := vlib.Key(p)
		op := rapid.SampledFrom([]string{"put", "tryput", "delete", "get", "append", "map", "proto", "json"}).Draw(t, "op")
		vlib.NoPanic(t, fmt.Sprintf("%s %q on the event decoded as %v", op, key, m), func() {
			switch op {
			case "put":
				if _, err := e.Put(key, event.Integer(7)); err == nil {
					if v := e.Get(key); v == nil || v.Integer != 7 {
						t.Fatalf("Put(%q) was lost: %v", key, v)
					}
				}
			case "tryput":
				e.TryPut(key, event.Integer(7))
			case "delete":
				e.Delete(key)
				if v := e.Get(key); v != nil {
					t.Fatalf("Delete(%q) left %v", key, v)
				}
			case "get":
				e.Get(key)
			case "append":
				eventutil.Append(e, key, event.String("x"))
			case "map":
				mapinterface.FromEvent(e)
			case "proto":
				pb := protobuf.FromEvent(e)
				data, err := pb.Marshal()
				if err != nil {
					return // Names that are not valid UTF-8 may be refused.
				}
				var back protobuf.MessageWrapper
				if err := back.Unmarshal(data); err != nil {
					t.Fatalf("protocol buffer of %v: %v", m, err)
				}
				protobuf.ToLogEvent(back.GetLog())
			case "json":
				if _, err := json.Marshal(e); err != nil {
					t.Fatalf("encoding %v: %v", m, err)
				}
			}
		})
		c.Class("use:" + op)
	}
}
