package pipe

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"testing"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	"verif/harness/vlib"
)

// entry is the model of one processor entry, valid or not.
type entry struct {
	types    []string
	options  map[string]interface{}
	null     bool // Options absent altogether.
	id       string
	handlers []*entry
	flaw     string // What is wrong with it, "" if nothing.
	noJSON   bool   // The flaw cannot be written as JSON,
	noYAML   bool   // or YAML.
	named    bool   // Whether the error has to name its position.
	pos      string
}

// Values by what option types they suit.
var (
	wrongForString = []interface{}{[]interface{}{"a", "b"}, map[string]interface{}{"k": "v"}}
	wrongForBool   = []interface{}{"maybe", "", "yess", []interface{}{true, false}, map[string]interface{}{"k": true}, 7.5}
	wrongForUint16 = []interface{}{-1, 65536, 1 << 40, "x", "", []interface{}{1, 2}, map[string]interface{}{"k": 1}, "-5", "70000"}
	wrongForList   = []interface{}{map[string]interface{}{"k": "v"}, []interface{}{map[string]interface{}{"k": "v"}}, []interface{}{"a", []interface{}{"b", "c"}}}
)

// optionKinds of the documented options.
var optionKinds = map[string]map[string]string{
	"append":       {"field": "string!", "value": "string", "allow_duplicates": "bool", "ignore_missing": "bool"},
	"lowercase":    {"field": "string!", "target_field": "string", "ignore_missing": "bool"},
	"uppercase":    {"field": "string!", "target_field": "string", "ignore_missing": "bool"},
	"remove":       {"fields": "list!", "ignore_missing": "bool"},
	"set":          {"target_field": "string", "copy_from": "string", "value": "any", "ignore_missing": "bool", "ignore_failure": "bool"},
	"community_id": {"source_ip": "string", "seed": "uint16", "target_field": "string", "ignore_failure": "bool"},
	"pass":         {},
}

var simpleName = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_]*$`)

var typeNames = []string{"append", "lowercase", "uppercase", "remove", "set", "set", "community_id", "pass"}

func drawOption(t *rapid.T, kind string) interface{} {
	switch strings.TrimSuffix(kind, "!") {
	case "string":
		return vlib.Word(t, "string", []string{"a", "x.y", "ä", "1", "true", "a b", "null"})
	case "bool":
		return rapid.Bool().Draw(t, "bool")
	case "uint16":
		return rapid.SampledFrom([]int{0, 1, 255, 32767, 32768, 65535}).Draw(t, "seed")
	case "list":
		return rapid.SampledFrom([]interface{}{[]interface{}{"a"}, []interface{}{"a", "b.c"}, []interface{}{"1", "2", "3"}}).Draw(t, "list")
	case "any":
		return drawPlain(t, 2)
	}
	panic(kind)
}

func drawEntry(t *rapid.T, depth int, budget *int) *entry {
	*budget--
	e := &entry{options: map[string]interface{}{}}
	typ := rapid.SampledFrom(typeNames).Draw(t, "type")
	e.types = []string{typ}
	for _, name := range sortedKeys(optionKinds[typ]) {
		kind := optionKinds[typ][name]
		if strings.HasSuffix(kind, "!") || rapid.Bool().Draw(t, "has") {
			e.options[name] = drawOption(t, kind)
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "unknown") == 3 {
		name := rapid.SampledFrom([]string{"unknown", "x", "Field", "description", "on-failure", "ä"}).Draw(t, "name")
		if s, ok := vlib.NovelText(t, 4); ok && simpleName.MatchString(s) && optionKinds[typ][s] == "" && optionKinds[typ][s+"!"] == "" && s != "id" && s != "if" && s != "on_failure" {
			name = s
		}
		e.options[name] = rapid.SampledFrom([]interface{}{"v", 1, true, nil, []interface{}{"x"}, map[string]interface{}{"y": "z"}}).Draw(t, "value")
	}
	if rapid.Bool().Draw(t, "hasid") {
		e.id = vlib.Word(t, "id", []string{"my-id", "same", "ü", " ", "tab\there", "a/b.c", longID})
	}
	if len(e.options) == 0 && e.id == "" && rapid.Bool().Draw(t, "null") {
		e.null = true
		return e
	}
	if depth < 3 && rapid.IntRange(0, 2).Draw(t, "handlers") == 2 {
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "n"); i < n && *budget > 0; i++ {
			e.handlers = append(e.handlers, drawEntry(t, depth+1, budget))
		}
	}
	return e
}

func sortedKeys(m map[string]string) []string {
	mv := vlib.MObj(nil)
	for k := range m {
		mv.O[k] = nil
	}
	return mv.Keys()
}

// spoilEntry puts a flaw into an entry.
func spoilEntry(t *rapid.T, e *entry) {
	typ := e.types[0]
	k := rapid.IntRange(0, 7).Draw(t, "flaw")
	switch k {
	case 0:
		e.types, e.flaw = nil, "no type"
		return
	case 1:
		other := "pass"
		if typ == other {
			other = "set"
		}
		e.types, e.flaw = append(e.types, other), "several types"
		return
	case 2:
		e.types = []string{rapid.SampledFrom([]string{"unknown", "Set", "set ", "", "processors", "lower case", "append2"}).Draw(t, "type")}
		if s, ok := vlib.NovelText(t, 4); ok && simpleName.MatchString(s) && optionKinds[s] == nil && s != "id" && s != "if" && s != "on_failure" {
			e.types[0] = s
		}
		e.flaw, e.named = "unknown type", true
		return
	}
	var required, typed []string
	for _, name := range sortedKeys(optionKinds[typ]) {
		kind := optionKinds[typ][name]
		if strings.HasSuffix(kind, "!") {
			required = append(required, name)
		}
		if kind != "any" {
			typed = append(typed, name)
		}
	}
	if e.null {
		typed = nil
	}
	switch {
	case k < 6 && len(required) > 0:
		name := required[0]
		if k == 3 || e.null {
			delete(e.options, name)
			e.flaw = "missing " + name
		} else if strings.HasPrefix(optionKinds[typ][name], "list") {
			e.options[name] = []interface{}{}
			e.flaw = "empty " + name
		} else {
			e.options[name] = ""
			e.flaw = "empty " + name
		}
		e.named = true
	case k == 7 && !e.null && rapid.Bool().Draw(t, "no value"):
		// Not a value of a definition at all, in any option.
		name := rapid.SampledFrom(append(sortedKeys(optionKinds[typ]), "unknown")).Draw(t, "option")
		noValues := []interface{}{map[interface{}]interface{}{1: "x"}, make(chan int), func() {}}
		i := rapid.IntRange(0, len(noValues)-1).Draw(t, "no value")
		e.options[name] = noValues[i]
		if rapid.Bool().Draw(t, "inside") {
			e.options[name] = []interface{}{"a", noValues[i]}
		}
		e.noJSON, e.noYAML = true, i > 0
		e.flaw, e.named = fmt.Sprintf("%s: %T", name, e.options[name]), true
	case len(typed) > 0:
		name := typed[rapid.IntRange(0, len(typed)-1).Draw(t, "option")]
		var values []interface{}
		switch strings.TrimSuffix(optionKinds[typ][name], "!") {
		case "string":
			values = wrongForString
		case "bool":
			values = wrongForBool
		case "uint16":
			values = wrongForUint16
		case "list":
			values = wrongForList
		}
		e.options[name] = rapid.SampledFrom(values).Draw(t, "wrong")
		e.flaw, e.named = fmt.Sprintf("%s: %v", name, e.options[name]), true
	default:
		e.types, e.flaw = nil, "no type"
	}
}

func entryConfigs(l []*entry) []pipeline.ProcessorConfig {
	var out []pipeline.ProcessorConfig
	for _, e := range l {
		pc := pipeline.ProcessorConfig{}
		for _, typ := range e.types {
			if e.null {
				pc[typ] = nil
			} else {
				pc[typ] = &pipeline.ProcessorOptionConfig{ID: e.id, Config: e.options, OnFailure: entryConfigs(e.handlers)}
			}
		}
		if len(e.types) == 0 && e.null {
			pc = nil
		}
		out = append(out, pc)
	}
	return out
}

func TestC14_Definitions(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 240000, Thorough: 4000000,
		Rule: "a random definition of built-in processors with nested handlers, ids, unknown options and descriptions, in two cases of three with one or two flaws at random entries (no, several or unknown types, missing or empty required options, options of the wrong type) or a missing id, built directly or decoded from JSON or YAML; New must accept exactly the ones without a flaw, never panic, and name the position of a bad type or option; non-trivial: a flaw that is in a handler or not in the first entry, or a valid definition with three processors",
	}, func(t *rapid.T, c *vlib.Case) {
		budget, long := 14, rapid.IntRange(0, 11).Draw(t, "long") == 11
		var all []*entry
		var list func(l []*entry, base string)
		list = func(l []*entry, base string) {
			for i, e := range l {
				all = append(all, e)
				typ := ""
				if len(e.types) == 1 {
					typ = e.types[0]
				}
				e.pos = fmt.Sprintf("%s[%d].%s", base, i, typ)
				list(e.handlers, e.pos+".on_failure")
			}
		}
		var procs, fail []*entry
		if long {
			// More than nine in a list.
			for i, n := 0, rapid.IntRange(8, 13).Draw(t, "procs"); i < n; i++ {
				procs = append(procs, drawEntry(t, 3, &budget))
			}
			if rapid.Bool().Draw(t, "nested") {
				host := drawEntry(t, 3, &budget)
				host.null = false
				host.handlers = procs
				procs = []*entry{host}
			}
			c.Class("long list")
		}
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "procs"); i < n && budget > 0; i++ {
			procs = append(procs, drawEntry(t, 0, &budget))
		}
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "fail"); i < n && budget > 0; i++ {
			fail = append(fail, drawEntry(t, 0, &budget))
		}
		id := vlib.Word(t, "id", []string{"p", "my pipeline", "ä", "a.b", "0", " ", "a/b", "p{x=\"y\"}", "tab\there", strings.Repeat("long", 100)})
		list(procs, id+".processors")
		list(fail, id+".on_failure")
		flaws := 0
		if len(all) > 0 {
			for i, n := 0, rapid.IntRange(0, 2).Draw(t, "flaws"); i < n; i++ {
				e := all[rapid.IntRange(0, len(all)-1).Draw(t, "at")]
				if e.flaw == "" {
					spoilEntry(t, e)
					flaws++
				}
			}
		}
		all = nil
		list(procs, id+".processors") // The types may have changed.
		list(fail, id+".on_failure")
		conf := &pipeline.Config{ID: id, Processors: entryConfigs(procs), OnFailure: entryConfigs(fail)}
		if rapid.Bool().Draw(t, "description") {
			conf.Description = rapid.SampledFrom([]string{"Text", "", " ", "multi\nline", "bell\a", "\u00a0", "tab\there", "{{.}}", "<b>", strings.Repeat("A long description. ", 300), vlib.Text().Draw(t, "any")}).Draw(t, "text")
			conf.Description = yamlSafe(conf.Description)
		}
		noID := rapid.IntRange(0, 19).Draw(t, "noid") == 19
		if noID {
			conf.ID = ""
			c.Class("no id")
		}
		log := configText(conf)
		form := rapid.IntRange(0, 2).Draw(t, "form")
		for _, e := range all {
			if form == 1 && e.noJSON || form == 2 && e.noYAML {
				form = 0
			}
		}
		switch form {
		case 1:
			data, err := json.Marshal(conf)
			if err != nil {
				t.Fatalf("%s: encoding: %v", log, err)
			}
			conf = nil
			if err := json.Unmarshal(data, &conf); err != nil {
				t.Fatalf("%s: decoding: %v", data, err)
			}
		case 2:
			data, err := yaml.Marshal(conf)
			if err != nil {
				t.Fatalf("%s: encoding: %v", log, err)
			}
			conf = nil
			if err := yaml.Unmarshal(data, &conf); err != nil {
				t.Fatalf("%s: decoding: %v", data, err)
			}
		}
		var desc []string
		named := 0
		var pos []string
		for i, e := range all {
			if e.flaw != "" {
				desc = append(desc, e.pos+": "+e.flaw)
				c.Class("flaw: " + strings.Fields(e.flaw)[0])
				c.ClassIf(strings.Count(e.pos, "on_failure") > 1, "flaw in a nested handler")
				if i > 0 {
					c.NonTrivial(log + " " + e.flaw)
				}
				if e.named {
					named++
					pos = append(pos, e.pos)
				}
			}
		}
		var pipe *pipeline.Pipeline
		var err error
		vlib.NoPanic(t, "New("+log+")", func() { pipe, err = pipeline.New(conf) })
		switch {
		case flaws == 0 && !noID:
			if err != nil {
				t.Fatalf("New(%s): %v, though nothing is wrong", log, err)
			}
			if pipe == nil {
				t.Fatalf("New(%s): no pipeline, no error", log)
			}
			if pipe.ID() != id {
				t.Fatalf("New(%s): ID %q", log, pipe.ID())
			}
			if len(all) > 2 {
				c.NonTrivial(log)
			}
			c.Class("valid")
		default:
			if err == nil {
				t.Fatalf("New(%s): no error, though the id is empty: %v, or: %v", log, noID, desc)
			}
			if pipe != nil {
				t.Fatalf("New(%s): a pipeline and an error: %v", log, err)
			}
			if named == flaws && flaws > 0 && !noID {
				ok := false
				for _, p := range pos {
					ok = ok || strings.Contains(err.Error(), p)
				}
				if !ok {
					t.Fatalf("New(%s): error %q names no position of %v", log, err, desc)
				}
			}
		}
	})
}

// TestC14_Findings: names in option values that look like negative indices.
func TestC14_Findings(t *testing.T) {
	vlib.Run(t, vlib.Spec{Quick: 8, Thorough: 8, Rule: "fixed probe of a recorded finding; trivial"}, func(t *rapid.T, c *vlib.Case) {
		rapid.Bool().Draw(t, "unused")
		if vlib.Shard() != 0 || findingsDone["C14"] {
			return
		}
		findingsDone["C14"] = true
		conf := &pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{"set": {Config: map[string]interface{}{
			"target_field": "t", "value": map[string]interface{}{"-1": "x"}}}}}}
		var err error
		if p := vlib.Catch(func() { _, err = pipeline.New(conf) }); p != nil || err != nil {
			fmt.Printf("\nVERIF-FINDING negative-name New with the set value {\"-1\": \"x\"}: error %v, panic %v\n", err, p)
		}
	})
}

func TestC14_Nil(t *testing.T) {
	vlib.Run(t, vlib.Spec{Quick: 1, Thorough: 1, Rule: "no definition at all and the empty one; trivial"}, func(t *rapid.T, c *vlib.Case) {
		for _, conf := range []*pipeline.Config{nil, {}, {Description: "x"}, {Processors: []pipeline.ProcessorConfig{{"pass": nil}}}} {
			var err error
			vlib.NoPanic(t, "New", func() { _, err = pipeline.New(conf) })
			if err == nil {
				t.Fatalf("New(%v): no error", conf)
			}
		}
	})
}
