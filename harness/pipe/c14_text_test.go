package pipe

import (
	"encoding/json"
	"fmt"
	"testing"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	"verif/harness/vlib"
)

// spot is a place in a definition text that takes one kind of value only.
type spot struct {
	where string
	kind  string // text, list or map
	set   func(v interface{})
}

// spots lists these places. The tree is what JSON decodes to.
func spots(tree map[string]interface{}) []spot {
	var out []spot
	var list func(in map[string]interface{}, key, where string)
	body := func(in map[string]interface{}, typ, where string) {
		out = append(out, spot{where, "map", func(v interface{}) { in[typ] = v }})
		o, _ := in[typ].(map[string]interface{})
		if o == nil {
			return
		}
		for _, k := range []string{"id", "if"} {
			k := k
			out = append(out, spot{where + "." + k, "text", func(v interface{}) { o[k] = v }})
		}
		list(o, "on_failure", where+".on_failure")
	}
	list = func(in map[string]interface{}, key, where string) {
		out = append(out, spot{where, "list", func(v interface{}) { in[key] = v }})
		l, _ := in[key].([]interface{})
		for i := range l {
			i := i
			at := fmt.Sprintf("%s[%d]", where, i)
			out = append(out, spot{at, "map", func(v interface{}) { l[i] = v }})
			if e, ok := l[i].(map[string]interface{}); ok {
				for typ := range e {
					body(e, typ, at+"."+typ)
				}
			}
		}
	}
	for _, k := range []string{"id", "description"} {
		k := k
		out = append(out, spot{k, "text", func(v interface{}) { tree[k] = v }})
	}
	list(tree, "processors", "processors")
	list(tree, "on_failure", "on_failure")
	return out
}

// TestC14_Kinds: values of another kind where the definition has a fixed one.
func TestC14_Kinds(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 64000, Thorough: 1200000,
		Rule: "the JSON or YAML text of a valid definition in which a value of another kind stands in place of a list of processors, a processor entry, its options, an id, a description or a condition, at any depth; decoding it or building the pipeline must fail; non-trivial: the place is inside a processor entry",
	}, func(t *rapid.T, c *vlib.Case) {
		budget := 10
		var procs, fail []*entry
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "procs"); i < n && budget > 0; i++ {
			procs = append(procs, drawEntry(t, 0, &budget))
		}
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "fail"); i < n && budget > 0; i++ {
			fail = append(fail, drawEntry(t, 0, &budget))
		}
		conf := &pipeline.Config{ID: "p", Processors: entryConfigs(procs), OnFailure: entryConfigs(fail)}
		data, err := json.Marshal(conf)
		if err != nil {
			t.Fatalf("%s: encoding: %v", configText(conf), err)
		}
		var tree map[string]interface{}
		if err := json.Unmarshal(data, &tree); err != nil {
			t.Fatalf("harness: %v", err)
		}
		asYAML := rapid.Bool().Draw(t, "YAML")
		decode := func() (*pipeline.Config, string, error) {
			var text []byte
			var c *pipeline.Config
			var err error
			if asYAML {
				if text, err = yaml.Marshal(tree); err != nil {
					t.Fatalf("harness: %v", err)
				}
				vlib.NoPanic(t, "decoding", func() { err = yaml.Unmarshal(text, &c) })
			} else {
				if text, err = json.Marshal(tree); err != nil {
					t.Fatalf("harness: %v", err)
				}
				vlib.NoPanic(t, "decoding", func() { err = json.Unmarshal(text, &c) })
			}
			return c, string(text), err
		}
		before, text, err := decode()
		if err != nil {
			t.Fatalf("%s: decoding: %v", text, err)
		}
		if _, err := pipeline.New(before); err != nil {
			t.Fatalf("%s: New: %v", text, err)
		}
		all := spots(tree)
		sp := all[rapid.IntRange(0, len(all)-1).Draw(t, "spot")]
		text2, list, object := []interface{}{"x", "", "null"}, []interface{}{[]interface{}{}, []interface{}{"x"}, []interface{}{map[string]interface{}{"pass": nil}}},
			[]interface{}{map[string]interface{}{}, map[string]interface{}{"pass": nil}, map[string]interface{}{"0": map[string]interface{}{"pass": nil}}}
		number := []interface{}{0, 1, -1.5, true, false}
		var wrong []interface{}
		switch sp.kind {
		case "text":
			wrong = append(list, object...)
			if !asYAML { // YAML takes any scalar for a text.
				wrong = append(wrong, number...)
			}
		case "list":
			wrong = append(append(text2, number...), object...)
		case "map":
			wrong = append(append(text2, number...), list...)
		}
		v := rapid.SampledFrom(wrong).Draw(t, "wrong")
		sp.set(v)
		c.Class(fmt.Sprintf("YAML %v, %T for a %s", asYAML, v, sp.kind))
		bad, text, err := decode()
		if err != nil {
			c.Class("rejected when decoded")
		} else {
			var pipe *pipeline.Pipeline
			vlib.NoPanic(t, "New of "+text, func() { pipe, err = pipeline.New(bad) })
			if err == nil || pipe != nil {
				t.Fatalf("%s is accepted, with %v in place of the %s at %s", text, v, sp.kind, sp.where)
			}
		}
		if len(sp.where) > len("processors[0]") {
			c.NonTrivial(sp.where + " " + text)
		}
	})
}
