package pipe

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"unicode"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"

	"verif/harness/vlib"
)

// status is how a processor ended.
type status int

const (
	ok      status = iota
	missing        // A missing-key failure.
	failed         // Any other failure.
)

func (s status) String() string { return [...]string{"success", "missing key", "failure"}[s] }

// effect is what a processor did to an event.
type effect struct {
	status status
	after  *vlib.MV // The event afterwards, after a failure as handlers see it.
	err    error
}

func (e effect) String() string { return fmt.Sprintf("%v (%v), event %v", e.status, e.err, e.after) }

// runProc runs one processor on an event in two pipelines: alone, to see
// whether it fails, and with a handler that does nothing, to see the event
// after the failure.
func runProc(t *rapid.T, typ string, options map[string]interface{}, m *vlib.MV) effect {
	where := fmt.Sprintf("%s %v on %v", typ, options, m)
	make := func(fail []pipeline.ProcessorConfig) *pipeline.Pipeline {
		pipe, err := pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{typ: {Config: options}}}, OnFailure: fail})
		if err != nil {
			t.Fatalf("%s: New: %v", where, err)
		}
		return pipe
	}
	var e effect
	vlib.NoPanic(t, where, func() {
		out, err := make(nil).Process(m.Event())
		if err != nil && out != nil {
			t.Fatalf("%s: an event and an error: %v", where, err)
		}
		if err == nil && out == nil {
			t.Fatalf("%s: dropped", where)
		}
		e.err = err
		switch {
		case err == nil:
			e.status = ok
		case errors.Is(err, processor.ErrorKeyMissing{}):
			e.status = missing
			namesMissing(t, where, err, options)
		default:
			e.status = failed
		}
		pipe := make([]pipeline.ProcessorConfig{{"pass": nil}})
		// The arrays of this one lie side by side in memory.
		handled, err := pipe.Process(vlib.Crowd(m.Event()))
		if err != nil || handled == nil {
			t.Fatalf("%s: with a handler that does nothing: event %v, error %v", where, vlib.OfEvent(handled), err)
		}
		e.after = vlib.OfEvent(handled)
		if out != nil {
			if alone := vlib.OfEvent(out); !alone.Equal(e.after) {
				t.Fatalf("%s: event %v, with a handler %v", where, alone, e.after)
			}
		}
		if vlib.AtOnce() {
			// The same pipeline takes copies of the event at the same time.
			var wg sync.WaitGroup
			outs := [3]*event.Event{m.Event(), m.Event(), m.Event()}
			var errs [3]error
			for i := range outs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					outs[i], errs[i] = pipe.Process(outs[i])
				}(i)
			}
			wg.Wait()
			for i := range outs {
				if got := vlib.OfEvent(outs[i]); errs[i] != nil || !got.Equal(e.after) {
					t.Fatalf("%s: at once with copies: event %v, error %v; alone: %v", where, got, errs[i], e.after)
				}
			}
		}
	})
	return e
}

// namesMissing: a missing-key failure has to name a field it was to read.
func namesMissing(t *rapid.T, where string, err error, options map[string]interface{}) {
	var key processor.ErrorKeyMissing
	if !errors.As(err, &key) {
		t.Fatalf("%s: %v is no ErrorKeyMissing", where, err)
	}
	named := key.Key == options["field"] || key.Key == options["copy_from"]
	switch l := options["fields"].(type) {
	case []string:
		for _, x := range l {
			named = named || x == key.Key
		}
	case []interface{}:
		for _, x := range l {
			named = named || x == key.Key
		}
	}
	if !named || !strings.Contains(err.Error(), key.Key) {
		t.Fatalf("%s: the error %q (key %q) does not name the field", where, err, key.Key)
	}
}

// optionTree generates a configured value: the Go value as a decoder makes it,
// and its content. No empty maps and no names that look like numbers: see
// DESIGN.md.
func optionTree(t *rapid.T, depth int) (interface{}, *vlib.MV) {
	k := rapid.IntRange(0, 11).Draw(t, "kind")
	if depth == 0 && k > 7 {
		k -= 5
	}
	switch k {
	case 0:
		b := rapid.Bool().Draw(t, "b")
		return b, vlib.MBool(b)
	case 1:
		i := vlib.Int64().Draw(t, "i")
		return int(i), vlib.MInt(i)
	case 2:
		u := vlib.Uint64().Draw(t, "u")
		return u, vlib.MUint(u)
	case 3, 4:
		f := vlib.Finite().Draw(t, "f")
		return f, vlib.MFloat(f)
	case 5, 6, 7:
		s := vlib.Text().Draw(t, "s")
		if rapid.IntRange(0, 15).Draw(t, "date") == 15 {
			s = rapid.SampledFrom([]string{"2024-02-29", "2001-12-14t21:59:43.10-05:00", "1999-1-2 3:04:05"}).Draw(t, "s")
		}
		return s, vlib.MStr(s)
	case 8, 9:
		l, m := []interface{}{}, vlib.MArr()
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
			x, y := optionTree(t, depth-1)
			l = append(l, x)
			m.A = append(m.A, y)
		}
		return l, m
	default:
		o, m := map[string]interface{}{}, vlib.MObj(nil)
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
			name := rapid.OneOf(rapid.SampledFrom([]string{"a", "b", "a.b", "ä", "x y", "value", "id", "if", "on_failure", "type", ".", "a.", "<&>", "\n"}), vlib.Name(vlib.NonEmpty)).Draw(t, "name")
			if looksNumeric(name) {
				name = "n" + name
			}
			x, y := optionTree(t, depth-1)
			o[name], m.O[name] = x, y
		}
		return o, m
	}
}

// looksNumeric says whether the configuration library takes a name for an
// index. Anything that starts like a number, to be on the safe side.
func looksNumeric(s string) bool {
	s = strings.TrimLeft(s, "+-")
	return s != "" && s[0] >= '0' && s[0] <= '9'
}

// sameContent compares a set value with the configured one: integers may have
// either integer kind.
func sameContent(got, want *vlib.MV) bool {
	if got == nil || want == nil {
		return got == want
	}
	switch want.Kind {
	case vlib.Int, vlib.Uint:
		switch got.Kind {
		case vlib.Int:
			return want.Kind == vlib.Int && got.I == want.I || want.Kind == vlib.Uint && got.I >= 0 && uint64(got.I) == want.U
		case vlib.Uint:
			return want.Kind == vlib.Uint && got.U == want.U || want.Kind == vlib.Int && want.I >= 0 && uint64(want.I) == got.U
		}
		return false
	case vlib.Arr:
		if got.Kind != vlib.Arr || len(got.A) != len(want.A) {
			return false
		}
		for i := range want.A {
			if !sameContent(got.A[i], want.A[i]) {
				return false
			}
		}
		return true
	case vlib.Obj:
		if got.Kind != vlib.Obj || len(got.O) != len(want.O) {
			return false
		}
		for k := range want.O {
			if _, found := got.O[k]; !found || !sameContent(got.O[k], want.O[k]) {
				return false
			}
		}
		return true
	}
	return got.Equal(want)
}

func drawProcEvent(t *rapid.T) *vlib.MV {
	return vlib.Root(vlib.ValueOpt{Names: vlib.AnyName, Depth: 3, NilItems: true}, vlib.NoBackslash).Draw(t, "event")
}

func TestC16_Set(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 320000, Thorough: 6000000,
		Rule: "a set processor with a random value (nested lists and maps, all kinds, awkward texts) or a source field, random target and ignore options, on a random event, compared with the model; non-trivial: a list or map is set or copied, the target exists or is nested, or it fails",
	}, func(t *rapid.T, c *vlib.Case) {
		m := drawProcEvent(t)
		target := vlib.Path(t, m, vlib.NoBackslash)
		opts := map[string]interface{}{"target_field": vlib.Key(target)}
		ignoreMissing := rapid.IntRange(0, 2).Draw(t, "ignore_missing") == 2
		ignoreFailure := rapid.IntRange(0, 3).Draw(t, "ignore_failure") == 3
		if ignoreMissing || rapid.Bool().Draw(t, "given") {
			opts["ignore_missing"] = ignoreMissing
		}
		if ignoreFailure || rapid.Bool().Draw(t, "given") {
			opts["ignore_failure"] = ignoreFailure
		}
		want := m.Clone()
		st := ok
		either := false // Whether it fails is not said.
		var val *vlib.MV
		configured := rapid.Bool().Draw(t, "value")
		if configured {
			opts["value"], val = optionTree(t, 3)
			if rapid.IntRange(0, 5).Draw(t, "both") == 5 {
				opts["copy_from"] = vlib.Key(vlib.Path(t, m, vlib.NoBackslash))
				c.Class("value and source")
			}
			if rapid.IntRange(0, 11).Draw(t, "notarget") == 11 {
				target = nil
				opts["target_field"] = rapid.SampledFrom([]string{"", ".", ".."}).Draw(t, "empty")
				if opts["target_field"] == "" && rapid.Bool().Draw(t, "absent") {
					delete(opts, "target_field")
				}
			}
			c.Class("value")
		} else {
			from := vlib.Path(t, m, vlib.NoBackslash)
			opts["copy_from"] = vlib.Key(from)
			val = m.GetPath(from).Clone()
			if val == nil {
				st = missing
			}
			either = val != nil && val.Kind == vlib.Null && ignoreMissing
			c.Class("source")
		}
		if st == ok {
			if _, out := want.PutPath(target, val, true); out != vlib.OK {
				st = failed
			}
		}
		e := runProc(t, "set", opts, m)
		if ignoreFailure || ignoreMissing && st == missing {
			if e.status != ok {
				t.Fatalf("set %v on %v: %v though failures are ignored", opts, m, e)
			}
		} else if e.status != st && !either {
			t.Fatalf("set %v on %v: %v, want %v", opts, m, e, st)
		}
		good := e.after.Equal(want)
		if configured && st == ok {
			// The rest of the event, then the value.
			a, b := e.after.Clone(), want.Clone()
			va, vb := a.GetPath(target), b.GetPath(target)
			if va != nil {
				good = sameContent(va, vb)
				a.PutPath(target, vlib.MNull(), true)
				b.PutPath(target, vlib.MNull(), true)
				good = good && a.Equal(b)
			}
		}
		if !good && either {
			good = e.after.Equal(m)
		}
		if !good {
			t.Fatalf("set %v on %v:\n got %v\nwant %v", opts, m, e.after, want)
		}
		c.Class(st.String())
		if st != ok || len(target) > 1 || m.GetPath(target) != nil || val.Kind == vlib.Arr || val.Kind == vlib.Obj {
			c.NonTrivial(fmt.Sprintf("%v on %v", opts, m))
		}
	})
}

// TestC16_Definition sets values written in YAML, as users write them.
func TestC16_Definition(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 80000, Thorough: 1200000,
		Rule: "a random configured value written in YAML (texts quoted, dates also unquoted) or JSON, decoded and set in an empty event; non-trivial: the value is a list or map",
	}, func(t *rapid.T, c *vlib.Case) {
		_, val := optionTree(t, 3)
		asJSON := rapid.Bool().Draw(t, "JSON")
		marshal, unmarshal := yaml.Marshal, yaml.Unmarshal
		var in interface{} = nodeOf(val)
		if asJSON {
			c.Class("JSON")
			marshal, unmarshal = json.Marshal, json.Unmarshal
			in = asDoubles(val).Plain()
		}
		data, err := marshal(map[string]interface{}{"id": "p", "processors": []interface{}{
			map[string]interface{}{"set": map[string]interface{}{"target_field": "t", "value": in}}}})
		if err != nil {
			t.Fatalf("harness: %v", err)
		}
		var conf *pipeline.Config
		if err := unmarshal(data, &conf); err != nil {
			t.Fatalf("harness: %s: %v", data, err)
		}
		pipe, err := pipeline.New(conf)
		if err != nil {
			t.Fatalf("%s: New: %v", data, err)
		}
		out, err := pipe.Process(event.New())
		if err != nil {
			t.Fatalf("%s: %v", data, err)
		}
		got := vlib.OfEvent(out)
		same := len(got.O) == 1
		if asJSON {
			same = same && asDoubles(got.O["t"]).Equal(asDoubles(val))
		} else {
			same = same && sameContent(got.O["t"], val)
		}
		if !same {
			t.Fatalf("%s: got %v, want %v", data, got, val)
		}
		if val.Kind == vlib.Arr || val.Kind == vlib.Obj {
			c.NonTrivial(val.String())
		}
	})
}

// nodeOf writes a value as YAML with all texts quoted.
func nodeOf(m *vlib.MV) *yaml.Node {
	n := &yaml.Node{Kind: yaml.ScalarNode}
	switch m.Kind {
	case vlib.Bool:
		n.Tag, n.Value = "!!bool", fmt.Sprint(m.B)
	case vlib.Int:
		n.Tag, n.Value = "!!int", fmt.Sprint(m.I)
	case vlib.Uint:
		n.Tag, n.Value = "!!int", fmt.Sprint(m.U)
	case vlib.Float:
		n.Tag, n.Value = "!!float", fmt.Sprintf("%.17e", m.F)
	case vlib.Str:
		n.Tag, n.Value, n.Style = "!!str", m.S, yaml.DoubleQuotedStyle
		if looksLikeDate(m.S) {
			n.Tag, n.Style = "!!timestamp", 0
		}
	case vlib.Arr:
		n.Kind = yaml.SequenceNode
		for _, x := range m.A {
			n.Content = append(n.Content, nodeOf(x))
		}
	case vlib.Obj:
		n.Kind = yaml.MappingNode
		for _, k := range m.Keys() {
			n.Content = append(n.Content, nodeOf(vlib.MStr(k)), nodeOf(m.O[k]))
		}
	default:
		panic("kind")
	}
	return n
}

// TestC16_Findings: values that the configuration library changes before the
// processor sees them. See known_findings.txt.
func TestC16_Findings(t *testing.T) {
	vlib.Run(t, vlib.Spec{Quick: 8, Thorough: 8, Rule: "fixed probes of recorded findings; trivial"}, func(t *rapid.T, c *vlib.Case) {
		rapid.Bool().Draw(t, "unused")
		if vlib.Shard() != 0 || findingsDone["C16"] {
			return
		}
		findingsDone["C16"] = true
		for _, p := range []struct {
			key   string
			value interface{}
			want  *vlib.MV
		}{
			{"empty-map", map[string]interface{}{}, vlib.MObj(nil)},
			{"nested-empty-map", map[string]interface{}{"a": map[string]interface{}{}}, vlib.MObj(map[string]*vlib.MV{"a": vlib.MObj(nil)})},
			{"numeric-names", map[string]interface{}{"0": "x", "1": "y"}, vlib.MObj(map[string]*vlib.MV{"0": vlib.MStr("x"), "1": vlib.MStr("y")})},
		} {
			var got *vlib.MV
			var err error
			panicked := vlib.Catch(func() {
				var pipe *pipeline.Pipeline
				if pipe, err = pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{"set": {Config: map[string]interface{}{"target_field": "t", "value": p.value}}}}}); err != nil {
					return
				}
				var out *event.Event
				if out, err = pipe.Process(event.New()); err == nil && out != nil {
					got = vlib.OfEvent(out)
				}
			})
			if panicked != nil || err != nil || got == nil || !sameContent(got.O["t"], p.want) {
				fmt.Printf("\nVERIF-FINDING %s set value %v: event %v, error %v, panic %v; want %v\n", p.key, p.value, got, err, panicked, p.want)
			}
		}
	})
}

var findingsDone = map[string]bool{}

func TestC17_Append(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 480000, Thorough: 8000000,
		Rule: "an append processor with a random field, value and options on a random event whose field often is an array that holds the value, a scalar or null, run one to three times, compared with the model; non-trivial: the field exists or it fails",
	}, func(t *rapid.T, c *vlib.Case) {
		m := drawProcEvent(t)
		value := vlib.Word(t, "value", []string{"x", "1", "", "true", "ä", "null", "2020-01-02T03:04:05Z", "${x}", "a,b"})
		if rapid.IntRange(0, 4).Draw(t, "any value") == 4 {
			value = vlib.Text().Draw(t, "value")
		}
		path := vlib.Path(t, m, vlib.NoBackslash)
		switch rapid.IntRange(0, 5).Draw(t, "prepare") {
		case 0, 1: // An array, often with the value.
			a := vlib.MArr()
			for i, n := 0, rapid.IntRange(0, 4).Draw(t, "n"); i < n; i++ {
				switch rapid.IntRange(0, 3).Draw(t, "element") {
				case 0:
					a.A = append(a.A, vlib.MStr(value))
				case 1:
					a.A = append(a.A, vlib.MArr(vlib.MStr(value)))
				case 2:
					a.A = append(a.A, rapid.SampledFrom([]*vlib.MV{vlib.MInt(1), vlib.MFloat(1), vlib.MBool(true), vlib.MNull(), vlib.MUint(1), vlib.MStr("X")}).Draw(t, "like"))
				default:
					a.A = append(a.A, vlib.Value(vlib.ValueOpt{Names: vlib.AnyName, Depth: 2, NilItems: true}).Draw(t, "v"))
				}
			}
			if rapid.IntRange(0, 60).Draw(t, "long") == 27 {
				n := vlib.Size(t, "count", []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 257, 1025}, 5000)
				for i := len(a.A); i < n; i++ {
					a.A = append(a.A, vlib.MStr(fmt.Sprintf("i%d", i)))
				}
				if rapid.Bool().Draw(t, "among") {
					at := rapid.SampledFrom([]int{0, 1, n / 2, n - 2, n - 1, rapid.IntRange(0, n-1).Draw(t, "any")}).Draw(t, "at")
					a.A[at] = vlib.MStr(value)
				}
				c.Class("long list")
			}
			m.PutPath(path, a, true)
		case 2:
			m.PutPath(path, vlib.MStr(value), true)
		case 3:
			m.PutPath(path, rapid.SampledFrom([]*vlib.MV{vlib.MInt(1), vlib.MNull(), vlib.MBool(true), vlib.MStr("other"), vlib.MTime(5), vlib.MObj(nil), vlib.MFloat(0)}).Draw(t, "scalar").Clone(), true)
		}
		opts := map[string]interface{}{"field": vlib.Key(path)}
		if value != "" || rapid.Bool().Draw(t, "given") {
			opts["value"] = value
		}
		dups := rapid.Bool().Draw(t, "allow_duplicates")
		if dups || rapid.Bool().Draw(t, "given") {
			opts["allow_duplicates"] = dups
		}
		ignore := rapid.Bool().Draw(t, "ignore_missing")
		if ignore || rapid.Bool().Draw(t, "given") {
			opts["ignore_missing"] = ignore
		}
		log := fmt.Sprintf("append %v on %v", opts, m)
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "times"); i < n; i++ {
			want := m.Clone()
			old := m.GetPath(path)
			_, out := m.Clone().PutPath(path, vlib.MNull(), true)
			st, anyStatus, anyResult := ok, false, false
			items := vlib.MArr()
			switch {
			case out != vlib.OK: // Through something that is no object.
				st, anyStatus = failed, ignore
			case ignore && (old == nil || old.Kind == vlib.Null):
				items = nil // Passed over.
			case old == nil:
			case old.Kind == vlib.Arr:
				items.A = append(items.A, old.Clone().A...)
			case old.Kind == vlib.Obj:
				st = failed
			case old.Kind == vlib.Null:
				// Not said.
				anyStatus, anyResult, st = true, true, failed
			default:
				items.A = append(items.A, old.Clone())
			}
			if st == ok && items != nil {
				present := false
				for _, x := range items.A {
					present = present || x.Kind == vlib.Str && x.S == value
				}
				if dups || !present {
					items.A = append(items.A, vlib.MStr(value))
				}
				c.ClassIf(present, "value present")
				want.PutPath(path, items, true)
			}
			e := runProc(t, "append", opts, m)
			if e.status != st && !anyStatus {
				t.Fatalf("%s, time %d: %v, want %v", log, i+1, e, st)
			}
			got := e.after
			if anyResult {
				got = got.Clone()
				got.PutPath(path, old, true)
			}
			if !got.Equal(want) {
				t.Fatalf("%s, time %d:\n got %v\nwant %v", log, i+1, e.after, want)
			}
			c.Class(st.String())
			c.ClassIf(items == nil, "ignored")
			if old != nil {
				c.Class("on " + old.Kind.String())
			}
			if old != nil || st != ok {
				c.NonTrivial(log)
			}
			m = e.after
		}
	})
}

func TestC18_Lowercase(t *testing.T) {
	caseSearch(t, "lowercase", unicode.ToLower)
}

func TestC18_Uppercase(t *testing.T) {
	caseSearch(t, "uppercase", unicode.ToUpper)
}

var cased = []string{"Hello World", "ÄÖÜß", "äöüß", "İıſK", "ǅǄǆ", "ΣΑΣ σς", "ДдЖж", "ﬀﬁ", "ŉǰΐ", "Ⓐⓐ", "𐐀𐐨", "Ꭰꭰ", "ÿŸ", "A", "z", "aBc dEf", "\u1e9e", "µΜ", "Ⅷⅷ", "ԱաԲբ", "ᲐაႠⴀ", "日本語", "\ufffd", "x\u0130y", "ȺⱥɫⱢ"}

func caseSearch(t *testing.T, typ string, conv func(rune) rune) {
	vlib.Run(t, vlib.Spec{
		Quick: 240000, Thorough: 4000000,
		Rule: "the processor with a random field and target on a random event whose field often is a string of cased characters of all scripts, against a character-wise conversion and the event model; non-trivial: the text changes and is not ASCII, a target is set, or it fails",
	}, func(t *rapid.T, c *vlib.Case) {
		m := drawProcEvent(t)
		path := vlib.Path(t, m, vlib.NoBackslash)
		switch rapid.IntRange(0, 7).Draw(t, "prepare") {
		case 0, 1, 2, 3:
			var s string
			switch rapid.IntRange(0, 3).Draw(t, "text") {
			case 0:
				s = rapid.SampledFrom(cased).Draw(t, "s")
			case 1:
				s = rapid.StringOf(rapid.RuneFrom(nil, unicode.Upper, unicode.Lower, unicode.Title)).Draw(t, "s")
			case 2:
				s = rapid.SampledFrom(cased).Draw(t, "s") + rapid.String().Draw(t, "t")
			default:
				s = vlib.Text().Draw(t, "s")
			}
			if rapid.IntRange(0, 24).Draw(t, "long") == 24 {
				// Long stretches of simple text around something less simple.
				pad := func(of string) string {
					n := vlib.Size(t, "n", []int{0, 7, 15, 31, 63, 64, 255, 256, 511, 1023, 1024, 4095, 4096, 8192}, 70000)
					return strings.Repeat(of, n/len(of))
				}
				of := rapid.SampledFrom([]string{"a", "A", "aB", "0", "Äa"})
				s = pad(of.Draw(t, "before")) + s + pad(of.Draw(t, "after")) + rapid.SampledFrom(cased).Draw(t, "end")
				c.Class("long text")
			}
			if n, ok := vlib.NovelText(t, 8); ok {
				s = n
			}
			m.PutPath(path, vlib.MStr(s), true)
		case 4:
			m.PutPath(path, vlib.MNull(), true)
		}
		opts := map[string]interface{}{"field": vlib.Key(path)}
		target := path
		if rapid.Bool().Draw(t, "target") {
			target = vlib.Path(t, m, vlib.NoBackslash)
			opts["target_field"] = vlib.Key(target)
		} else if rapid.Bool().Draw(t, "given") {
			opts["target_field"] = ""
		}
		ignore := rapid.Bool().Draw(t, "ignore_missing")
		if ignore || rapid.Bool().Draw(t, "given") {
			opts["ignore_missing"] = ignore
		}
		want := m.Clone()
		old := m.GetPath(path)
		st := ok
		switch {
		case old == nil || old.Kind == vlib.Null:
			if !ignore {
				st = missing
			}
		case old.Kind == vlib.Str:
			var sb strings.Builder
			for _, r := range old.S {
				sb.WriteRune(conv(r))
			}
			if _, out := want.PutPath(target, vlib.MStr(sb.String()), true); out != vlib.OK {
				st = failed
			}
			if st != ok || sb.String() != old.S && len(sb.String()) != len([]rune(sb.String())) || len(target) != len(path) {
				c.NonTrivial(fmt.Sprintf("%v on %v", opts, m))
			}
			c.ClassIf(sb.String() != old.S, "text changed")
		case old.Kind == vlib.Arr && allStrings(old):
			// A finding: see TestC18_Findings. Here, either.
			c.Class("list of strings")
			conved := old.Clone()
			for _, x := range conved.A {
				x.S = strings.Map(conv, x.S)
			}
			want.PutPath(target, conved, true)
			e := runProc(t, typ, opts, m)
			if !(e.status == ok && e.after.Equal(want) || e.status == failed && e.after.Equal(m)) {
				t.Fatalf("%s %v on %v: %v", typ, opts, m, e)
			}
			return
		default:
			st = failed
		}
		e := runProc(t, typ, opts, m)
		if e.status != st {
			t.Fatalf("%s %v on %v: %v, want %v", typ, opts, m, e, st)
		}
		if !e.after.Equal(want) {
			t.Fatalf("%s %v on %v:\n got %v\nwant %v", typ, opts, m, e.after, want)
		}
		c.Class(st.String())
		if st != ok {
			c.NonTrivial(fmt.Sprintf("%v on %v", opts, m))
		}
	})
}

func allStrings(m *vlib.MV) bool {
	for _, x := range m.A {
		if x.Kind != vlib.Str {
			return false
		}
	}
	return true
}

// TestC18_Findings: lists of strings are documented to be converted.
func TestC18_Findings(t *testing.T) {
	vlib.Run(t, vlib.Spec{Quick: 8, Thorough: 8, Rule: "fixed probes of a recorded finding; trivial"}, func(t *rapid.T, c *vlib.Case) {
		rapid.Bool().Draw(t, "unused")
		if vlib.Shard() != 0 || findingsDone["C18"] {
			return
		}
		findingsDone["C18"] = true
		for typ, want := range map[string]*vlib.MV{"lowercase": vlib.MArr(vlib.MStr("a"), vlib.MStr("b")), "uppercase": vlib.MArr(vlib.MStr("A"), vlib.MStr("B"))} {
			m := vlib.MObj(map[string]*vlib.MV{"f": vlib.MArr(vlib.MStr("a"), vlib.MStr("B"))})
			e := runProc(t, typ, map[string]interface{}{"field": "f"}, m)
			if e.status != ok || !e.after.O["f"].Equal(want) {
				fmt.Printf("\nVERIF-FINDING %s-list %s of the list [a B]: %v; want %v\n", typ, typ, e, want)
			}
		}
	})
}

func TestC19_Remove(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 400000, Thorough: 6000000,
		Rule: "a remove processor with one to four fields (existing, nested, missing, overlapping, repeated) on a random event, compared with the model; non-trivial: two fields, of which one is nested",
	}, func(t *rapid.T, c *vlib.Case) {
		m := drawProcEvent(t)
		var paths [][]string
		var fields []interface{}
		nested := false
		n := rapid.IntRange(1, 4).Draw(t, "fields")
		if rapid.IntRange(0, 30).Draw(t, "more") == 30 {
			n += rapid.IntRange(1, 20).Draw(t, "more fields")
		}
		for i := 0; i < n; i++ {
			var p []string
			switch {
			case len(paths) > 0 && rapid.IntRange(0, 9).Draw(t, "repeat") == 9:
				p = paths[0]
			case rapid.IntRange(0, 29).Draw(t, "none") == 29:
			default:
				p = vlib.Path(t, m, vlib.NoBackslash)
			}
			nested = nested || len(p) > 1
			paths = append(paths, p)
			key := vlib.Key(p)
			if key == "" {
				key = "."
			}
			fields = append(fields, key)
		}
		opts := map[string]interface{}{"fields": fields}
		ignore := rapid.Bool().Draw(t, "ignore_missing")
		if ignore || rapid.Bool().Draw(t, "given") {
			opts["ignore_missing"] = ignore
		}
		want := m.Clone()
		absent, gone := 0, 0
		for _, p := range paths {
			there := len(p) > 0 && m.GetPath(p) != nil
			if !there {
				absent++
			} else if want.DeletePath(p) == nil {
				gone++ // Existed, but was removed with another field.
			}
		}
		e := runProc(t, "remove", opts, m)
		got := e.after
		switch {
		case ignore || absent+gone == 0:
			if e.status != ok {
				t.Fatalf("remove %v on %v: %v, want success", opts, m, e)
			}
		case absent > 0:
			if e.status != missing {
				t.Fatalf("remove %v on %v: %v, want a missing-key failure", opts, m, e)
			}
		default: // Either.
			if e.status == failed {
				t.Fatalf("remove %v on %v: %v", opts, m, e)
			}
		}
		if e.status != ok {
			// Which of the fields it removed before it failed is not said.
			got = got.Clone()
			for _, p := range paths {
				if len(p) > 0 {
					got.DeletePath(p)
				}
			}
			c.Class("missing key")
		}
		if !got.Equal(want) {
			t.Fatalf("remove %v on %v:\n got %v\nwant %v", opts, m, e.after, want)
		}
		c.ClassIf(absent > 0, "absent field")
		c.ClassIf(gone > 0, "overlapping fields")
		c.ClassIf(nested, "nested field")
		if nested && len(paths) > 1 {
			c.NonTrivial(fmt.Sprintf("%v on %v", opts, m))
		}
	})
}
