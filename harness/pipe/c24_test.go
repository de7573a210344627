package pipe

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/config"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"

	"verif/harness/vlib"
)

// docOption is an option in the published definition file.
type docOption struct {
	name, typ, description string
	required, optional     bool
	def                    interface{}
}

type docProcessor struct {
	name, description string
	options           []*docOption
}

// readDefinitions reads processors.yml, as data and not with the generator's
// own types.
func readDefinitions(path string) ([]*docProcessor, error) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var doc map[string]interface{}
	if err := yaml.Unmarshal(data, &doc); err != nil {
		return nil, err
	}
	var all []*docProcessor
	for _, item := range doc["processors"].([]interface{}) {
		for name, d := range item.(map[string]interface{}) {
			def := d.(map[string]interface{})
			p := &docProcessor{name: name, description: def["description"].(string)}
			list, _ := def["configuration"].([]interface{})
			for _, c := range list {
				m := c.(map[string]interface{})
				o := &docOption{def: m["default"]}
				o.name, _ = m["name"].(string)
				o.typ, _ = m["type"].(string)
				o.description, _ = m["description"].(string)
				o.required, _ = m["required"].(bool)
				o.optional, _ = m["optional"].(bool)
				p.options = append(p.options, o)
			}
			sort.Slice(p.options, func(i, j int) bool { return p.options[i].name < p.options[j].name })
			all = append(all, p)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].name < all[j].name })
	return all, nil
}

// assign generates a value for an option: as it is given, and as it has to
// arrive in the configuration.
func (o *docOption) assign(t *rapid.T) (given, want interface{}, err error) {
	switch o.typ {
	case "string":
		s := rapid.OneOf(vlib.Text(), rapid.SampledFrom([]string{"a.b", "1", "true", "null", "1.5", "${x}", "a,b", "[x]", " ", "{a: b}", "0x10", o.name, fmt.Sprint(o.def)})).Draw(t, "string")
		if s == "" && o.required {
			s = "x"
		}
		return s, s, nil
	case "bool":
		b := rapid.Bool().Draw(t, "bool")
		return b, b, nil
	case "uint16":
		n := rapid.OneOf(rapid.Uint16(), rapid.SampledFrom([]uint16{0, 1, 255, 256, 32767, 32768, 65534, 65535})).Draw(t, "uint16")
		switch rapid.IntRange(0, 2).Draw(t, "as") { // As YAML and JSON decode it.
		case 0:
			return float64(n), n, nil
		case 1:
			return uint64(n), n, nil
		}
		return int(n), n, nil
	case "[]string":
		min := 0
		if o.required {
			min = 1
		}
		l := rapid.SliceOfN(rapid.OneOf(vlib.Text(), rapid.SampledFrom([]string{"a", "a.b", "0", "true", "x,y"})), min, 4).Draw(t, "list")
		g, w := make([]interface{}, len(l)), make([]string, len(l))
		for i, s := range l {
			if s == "" && o.required { // The members are required as well.
				s = "x"
			}
			g[i], w[i] = s, s
		}
		return g, w, nil
	case "github.com/andrewkroh/go-sawmill/pkg/config.EventValue":
		g, w := optionTree(t, 2)
		return g, w, nil
	}
	return nil, nil, fmt.Errorf("VERIF-ERROR: an option of type %s", o.typ)
}

// zero is what an option without a default holds.
func (o *docOption) initial() (interface{}, error) {
	switch o.typ {
	case "string":
		s, _ := o.def.(string)
		return s, nil
	case "bool":
		b, _ := o.def.(bool)
		return b, nil
	case "uint16":
		n, _ := o.def.(int)
		return uint16(n), nil
	case "[]string":
		return []string(nil), nil
	case "github.com/andrewkroh/go-sawmill/pkg/config.EventValue":
		return vlib.MNull(), nil
	}
	return nil, fmt.Errorf("VERIF-ERROR: an option of type %s", o.typ)
}

// goTypes are the types that options have in the configuration.
var goTypes = map[string]reflect.Type{
	"string":   reflect.TypeOf(""),
	"bool":     reflect.TypeOf(false),
	"uint16":   reflect.TypeOf(uint16(0)),
	"[]string": reflect.TypeOf([]string(nil)),
	"github.com/andrewkroh/go-sawmill/pkg/config.EventValue": reflect.TypeOf(config.EventValue{}),
}

// heldOptions reads the configuration of a processor.
func heldOptions(p processor.Processor) (map[string]reflect.Value, error) {
	m := reflect.ValueOf(p).MethodByName("Config")
	if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
		return nil, fmt.Errorf("no method Config")
	}
	v := m.Call(nil)[0]
	held := map[string]reflect.Value{}
	for i := 0; i < v.NumField(); i++ {
		name, _, _ := strings.Cut(v.Type().Field(i).Tag.Get("config"), ",")
		if name == "" {
			return nil, fmt.Errorf("field %s without an option", v.Type().Field(i).Name)
		}
		if _, found := held[name]; found {
			return nil, fmt.Errorf("two fields for %s", name)
		}
		held[name] = v.Field(i)
	}
	return held, nil
}

func holds(v reflect.Value, want interface{}) bool {
	switch w := want.(type) {
	case *vlib.MV:
		ev := event.Value(v.Interface().(config.EventValue))
		return sameContent(vlib.Of(&ev), w)
	case []string:
		got := v.Interface().([]string)
		return len(got) == len(w) && (len(w) == 0 || reflect.DeepEqual(got, w))
	}
	return reflect.DeepEqual(v.Interface(), want)
}

func TestC24_Options(t *testing.T) {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	defs, err := readDefinitions(filepath.Join(repo, "pkg/processor/processors.yml"))
	if err != nil {
		t.Fatal("VERIF-ERROR:", err)
	}
	data, err := os.ReadFile(filepath.Join(repo, "docs/README.md"))
	if err != nil {
		t.Fatal("VERIF-ERROR:", err)
	}
	readme, err := vlib.ParseReadme(string(data))
	if err != nil {
		t.Fatal(err)
	}
	var names []string
	for _, d := range defs {
		names = append(names, d.name)
	}
	if got, want := fmt.Sprint(readme.Index), fmt.Sprint(names); got != want {
		t.Fatalf("the README's index lists %s, the definitions %s", got, want)
	}
	if len(readme.Sections) != len(defs) {
		t.Fatalf("the README has %d sections for %d processors", len(readme.Sections), len(defs))
	}

	vlib.Run(t, vlib.Spec{Quick: 600000, Thorough: 9000000,
		Rule: "A random published processor, with a random subset of its documented options set to random in-range values (non-empty for required ones). Non-trivial: at least one option set and one left out. Distinct by processor and options."}, func(t *rapid.T, c *vlib.Case) {
		i := rapid.IntRange(0, len(defs)-1).Draw(t, "processor")
		def := defs[i]
		options := map[string]interface{}{}
		wants := map[string]interface{}{}
		complete := true
		out := 0
		leave := rapid.IntRange(0, 7).Draw(t, "leave")
		for _, o := range def.options {
			set := rapid.Bool().Draw(t, "set "+o.name)
			if o.required {
				set = leave != 0
			}
			if !set {
				out++
				complete = complete && !o.required
				want, err := o.initial()
				if err != nil {
					t.Fatal(err)
				}
				wants[o.name] = want
				continue
			}
			given, want, err := o.assign(t)
			if err != nil {
				t.Fatal(err)
			}
			options[o.name], wants[o.name] = given, want
		}
		where := fmt.Sprintf("%s with %v", def.name, options)
		if len(options) > 0 && out > 0 {
			c.NonTrivial(where)
		}
		c.Class(def.name)
		c.ClassIf(!complete, "required missing")

		var p processor.Processor
		var err error
		direct := rapid.Bool().Draw(t, "direct")
		vlib.NoPanic(t, where, func() { p, err = registry.NewProcessor(def.name, options) })
		if !complete {
			if err == nil {
				t.Fatalf("%s: created although a required option is missing", where)
			}
			if direct {
				_, err = pipeline.New(&pipeline.Config{ID: "x", Processors: []pipeline.ProcessorConfig{{def.name: {Config: options}}}})
				if err == nil {
					t.Fatalf("%s: pipeline built although a required option is missing", where)
				}
			}
			return
		}
		if err != nil {
			t.Fatalf("%s: %v", where, err)
		}
		held, err := heldOptions(p)
		if err != nil {
			t.Fatalf("%s: %v", where, err)
		}
		if len(held) != len(def.options) {
			t.Fatalf("%s holds %d options, documented are %d", where, len(held), len(def.options))
		}
		for _, o := range def.options {
			v, found := held[o.name]
			if !found {
				t.Fatalf("%s has no option %s", where, o.name)
			}
			if v.Type() != goTypes[o.typ] {
				t.Fatalf("%s: option %s has type %v, documented is %s", where, o.name, v.Type(), o.typ)
			}
			if !holds(v, wants[o.name]) {
				t.Fatalf("%s holds %#v for %s, want %v", where, v.Interface(), o.name, wants[o.name])
			}
		}

		// The text form.
		str, isStringer := p.(fmt.Stringer)
		if !isStringer {
			t.Fatalf("%s has no text form", where)
		}
		js, err := json.Marshal(reflect.ValueOf(p).MethodByName("Config").Call(nil)[0].Interface())
		if err != nil {
			t.Fatalf("VERIF-ERROR: %v", err)
		}
		var gotText, wantText interface{}
		name, text, _ := strings.Cut(str.String(), "=")
		if err := json.Unmarshal([]byte(text), &gotText); err != nil || name != def.name {
			t.Fatalf("%s: text form %q is not the name and a JSON text (%v)", where, str, err)
		}
		if err := json.Unmarshal(js, &wantText); err != nil || !reflect.DeepEqual(gotText, wantText) {
			t.Fatalf("%s: text form %q, want the options %s (%v)", where, str, js, err)
		}

		// The README.
		s := readme.Sections[i]
		if s.Name != def.name || vlib.OneLine(s.Description) != vlib.OneLine(def.description) {
			t.Fatalf("the README's section %d is %s (%s), want %s (%s)", i, s.Name, s.Description, def.name, def.description)
		}
		if len(s.Rows) != len(def.options) {
			t.Fatalf("the README has %d options of %s, want %d", len(s.Rows), def.name, len(def.options))
		}
		for j, o := range def.options {
			want := vlib.ReadmeRow{Name: o.name, Required: o.required, Optional: o.optional, Type: o.typ, Description: vlib.OneLine(o.description)}
			if o.typ == "github.com/andrewkroh/go-sawmill/pkg/config.EventValue" {
				want.Type = "any"
			}
			if d := o.def; d != nil && d != false && d != 0 && d != "" {
				want.Default = fmt.Sprint(d)
			}
			if got := s.Rows[j]; got != want {
				t.Fatalf("the README documents option %d of %s as %+v, want %+v", j, def.name, got, want)
			}
		}
	})
}
