package pipe

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/prometheus/client_golang/prometheus"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"

	"verif/harness/vlib"
)

type yamlText []byte

// made is a definition, or something made from it.
type made struct {
	what  string
	thing interface{} // []byte, yamlText, *pipeline.Config, map of options, *pipeline.Pipeline, processor.Processor or []prometheus.Collector.
	typ   string      // Of a processor or of options.
	was   string
}

// see returns what there is to see, events being what pipelines and processors
// are tried with.
func (x *made) see(ins []*vlib.MV) string {
	switch v := x.thing.(type) {
	case []byte:
		return string(v)
	case yamlText:
		return string(v)
	case *pipeline.Config:
		return configText(v)
	case map[string]interface{}:
		data, err := json.Marshal(v)
		return fmt.Sprint(string(data), err)
	case *pipeline.Pipeline:
		var out []string
		for _, in := range ins {
			out = append(out, resultOf(v.Process(in.Event())).String())
		}
		return v.ID() + " " + strings.Join(out, "; ")
	case processor.Processor:
		out := []string{fmt.Sprint(v)}
		for _, in := range ins {
			e := &changing{in.Event()}
			err := v.Process(e)
			out = append(out, fmt.Sprint(vlib.OfEvent(e.Event), err))
		}
		return strings.Join(out, "; ")
	case []prometheus.Collector:
		return fmt.Sprintf("%p", v)
	}
	panic(x.what)
}

// changing is an event as processors see it.
type changing struct{ *event.Event }

func (e *changing) Drop()   {}
func (e *changing) Cancel() {}

// damage changes everything that its owner can change.
func (x *made) damage() {
	switch v := x.thing.(type) {
	case []byte:
		for i := range v {
			v[i] = '#'
		}
	case yamlText:
		for i := range v {
			v[i] = '#'
		}
	case *pipeline.Config:
		damageConfigs(v.Processors)
		damageConfigs(v.OnFailure)
		*v = pipeline.Config{ID: "changed"}
	case map[string]interface{}:
		damageOptions(v)
	case *pipeline.Pipeline:
		v.Process(event.New())
	case []prometheus.Collector:
		for i := range v {
			v[i] = nil
		}
	}
}

func damageConfigs(l []pipeline.ProcessorConfig) {
	for i, p := range l {
		for k, o := range p {
			if o != nil {
				damageConfigs(o.OnFailure)
				damageOptions(o.Config)
				*o = pipeline.ProcessorOptionConfig{ID: "changed", If: "changed", Config: map[string]interface{}{"changed": true}}
			}
			delete(p, k)
		}
		p["changed"] = nil
		l[i] = nil
	}
}

func damageOptions(v interface{}) {
	switch v := v.(type) {
	case map[string]interface{}:
		for k := range v {
			damageOptions(v[k])
			v[k] = "changed"
		}
	case []interface{}:
		for i := range v {
			damageOptions(v[i])
			v[i] = "changed"
		}
	case []string:
		for i := range v {
			v[i] = "changed"
		}
	}
}

// firstProcessor returns the first processor of a definition that has options.
func firstProcessor(c *pipeline.Config) (typ string, options map[string]interface{}) {
	for _, p := range c.Processors {
		for typ, o := range p {
			if o != nil && len(o.Config) > 0 {
				return typ, o.Config
			}
		}
	}
	return "", nil
}

func copyOptions(v interface{}) interface{} {
	switch v := v.(type) {
	case map[string]interface{}:
		if v == nil {
			return v
		}
		out := make(map[string]interface{}, len(v))
		for k, x := range v {
			out[k] = copyOptions(x)
		}
		return out
	case []interface{}:
		out := make([]interface{}, len(v))
		for i, x := range v {
			out[i] = copyOptions(x)
		}
		return out
	case []string:
		return append([]string{}, v...)
	}
	return v
}

func copyConfigs(l []pipeline.ProcessorConfig) []pipeline.ProcessorConfig {
	if l == nil {
		return nil
	}
	out := []pipeline.ProcessorConfig{}
	for _, p := range l {
		c := pipeline.ProcessorConfig{}
		for typ, o := range p {
			if o != nil {
				o = &pipeline.ProcessorOptionConfig{ID: o.ID, If: o.If, OnFailure: copyConfigs(o.OnFailure), Config: copyOptions(o.Config).(map[string]interface{})}
			}
			c[typ] = o
		}
		out = append(out, c)
	}
	return out
}

// fresh returns the same definition or options in new memory, or nil.
func (x *made) fresh() interface{} {
	switch v := x.thing.(type) {
	case *pipeline.Config:
		return &pipeline.Config{ID: v.ID, Description: v.Description, Processors: copyConfigs(v.Processors), OnFailure: copyConfigs(v.OnFailure)}
	case map[string]interface{}:
		return copyOptions(v)
	}
	return nil
}

// edit changes one place of a definition or of options in place.
func (x *made) edit(t *rapid.T) bool {
	options := func(typ string, o map[string]interface{}) {
		switch typ {
		case "set":
			if rapid.Bool().Draw(t, "value") {
				delete(o, "copy_from")
				o["value"] = drawPlain(t, 2)
			} else {
				o["target_field"] = drawField(t, "target")
			}
		case "remove":
			if l, ok := o["fields"].([]interface{}); ok && rapid.Bool().Draw(t, "in place") {
				l[0] = drawField(t, "field")
			} else {
				o["fields"] = []interface{}{drawField(t, "field"), drawField(t, "field")}
			}
		default:
			o["field"] = drawField(t, "field")
		}
	}
	switch v := x.thing.(type) {
	case map[string]interface{}:
		options(x.typ, v)
		return true
	case *pipeline.Config:
		switch k := rapid.IntRange(0, 7).Draw(t, "edit"); {
		case k == 0:
			v.ID += "+"
		case k == 1:
			v.Processors = append(v.Processors, drawBuiltins(t, 0, 1)...)
		case k == 2:
			v.OnFailure = append(v.OnFailure, drawBuiltins(t, 0, 1)...)
		default:
			var all []pipeline.ProcessorConfig
			var walk func(l []pipeline.ProcessorConfig)
			walk = func(l []pipeline.ProcessorConfig) {
				all = append(all, l...)
				for _, p := range l {
					for _, o := range p {
						if o != nil {
							walk(o.OnFailure)
						}
					}
				}
			}
			walk(v.Processors)
			walk(v.OnFailure)
			if len(all) == 0 {
				return false
			}
			p := all[rapid.IntRange(0, len(all)-1).Draw(t, "processor")]
			for typ, o := range p {
				if o == nil || len(o.Config) == 0 {
					return false
				}
				if k == 3 {
					o.OnFailure = append(o.OnFailure, pipeline.ProcessorConfig{"set": {Config: map[string]interface{}{"target_field": "handled", "value": "by another"}}})
				} else if k == 4 {
					delete(p, typ)
					p["set"] = &pipeline.ProcessorOptionConfig{OnFailure: o.OnFailure, Config: map[string]interface{}{"target_field": "other", "value": "x"}}
				} else {
					options(typ, o.Config)
				}
			}
		}
		return true
	}
	return false
}

// TestC29_Definitions: texts, configurations, pipelines and processors.
func TestC29_Definitions(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 24000, Thorough: 600000,
		Rule: "one or two random definitions of built-in processors, 2 to 12 steps of which each makes something of what is there (JSON or YAML text, decoded configuration, options, pipeline, processor, list of metrics), which must be what is made of the same content in new memory, or changes one place or everything in one of them; after every step all others must be what they were, pipelines and processors judged by what they do with fixed events; non-trivial: a text or configuration was changed while two things made from the same definition, one of them a pipeline or processor, were kept",
	}, func(t *rapid.T, c *vlib.Case) {
		var ins []*vlib.MV
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "events"); i < n; i++ {
			ins = append(ins, drawEventFor(t))
		}
		var all []*made
		family := map[*made]int{}
		add := func(fam int, x *made) {
			x.was = x.see(ins)
			all = append(all, x)
			family[x] = fam
		}
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "definitions"); i < n; i++ {
			conf := drawBuiltinConfig(t)
			for _, p := range conf.Processors {
				if o := p["remove"]; o != nil && rapid.Bool().Draw(t, "typed list") {
					o.Config["fields"] = []string{fmt.Sprint(o.Config["fields"].([]interface{})[0])}
				}
			}
			add(i, &made{what: "definition " + configText(conf), thing: conf})
		}
		var log []string
		check := func() {
			for _, x := range all {
				if now := x.see(ins); now != x.was {
					t.Fatalf("%s\nwith %v: %s\n was %s\nbecame %s", strings.Join(log, "\n"), ins, x.what, x.was, now)
				}
			}
		}
		nonTrivial := false
		for n := rapid.IntRange(2, 12).Draw(t, "steps"); n > 0 && len(all) > 0; n-- {
			k := rapid.IntRange(0, len(all)-1).Draw(t, "which")
			x := all[k]
			change := rapid.IntRange(0, 7).Draw(t, "change")
			if change < 2 {
				if x.edit(t) {
					x.was = x.see(ins)
					log = append(log, "edited: "+x.what+" to "+x.was)
					c.Class("edited")
				}
				check()
				continue
			}
			if len(all) > 1 && change > 5 {
				log = append(log, "changed: "+x.what)
				all = append(all[:k:k], all[k+1:]...)
				x.damage()
				others, working := 0, false
				for _, o := range all {
					if family[o] == family[x] {
						others++
						switch o.thing.(type) {
						case *pipeline.Pipeline, processor.Processor:
							working = true
						}
					}
				}
				switch x.thing.(type) {
				case *pipeline.Pipeline, processor.Processor, []prometheus.Collector:
				default:
					nonTrivial = nonTrivial || others > 1 && working
				}
				check()
				continue
			}
			var out *made
			var err error
			how := ""
			vlib.NoPanic(t, x.what, func() {
				switch v := x.thing.(type) {
				case []byte:
					conf := &pipeline.Config{}
					how, err = "configuration", json.Unmarshal(v, conf)
					out = &made{thing: conf}
				case yamlText:
					conf := &pipeline.Config{}
					how, err = "configuration", yaml.Unmarshal(v, conf)
					out = &made{thing: conf}
				case *pipeline.Config:
					switch rapid.IntRange(0, 4).Draw(t, "make") {
					case 0:
						how = "JSON text"
						var data []byte
						data, err = json.Marshal(v)
						out = &made{thing: data}
					case 1:
						how = "YAML text"
						var data []byte
						data, err = yaml.Marshal(v)
						out = &made{thing: yamlText(data)}
					case 2:
						how = "options"
						if typ, o := firstProcessor(v); typ != "" {
							var data []byte
							if data, err = json.Marshal(o); err == nil {
								copied := map[string]interface{}{}
								err = json.Unmarshal(data, &copied)
								out = &made{thing: copied, typ: typ}
							}
						}
					default:
						how = "pipeline"
						var p *pipeline.Pipeline
						p, err = pipeline.New(v)
						out = &made{thing: p}
					}
				case map[string]interface{}:
					how = "processor"
					var p processor.Processor
					p, err = registry.NewProcessor(x.typ, v)
					out = &made{thing: p, typ: x.typ}
				case *pipeline.Pipeline:
					how = "metrics"
					out = &made{thing: v.Metrics()}
				}
			})
			if err != nil {
				t.Fatalf("%s\n%s of %s: %v", strings.Join(log, "\n"), how, x.what, err)
			}
			if out != nil {
				out.what = how + " of " + x.what
				var again *made
				switch v := x.fresh().(type) {
				case *pipeline.Config:
					again = &made{}
					switch out.thing.(type) {
					case []byte:
						var data []byte
						data, err = json.Marshal(v)
						again.thing = data
					case yamlText:
						var data []byte
						data, err = yaml.Marshal(v)
						again.thing = yamlText(data)
					case *pipeline.Pipeline:
						again.thing, err = pipeline.New(v)
					default:
						again = nil
					}
				case map[string]interface{}:
					again = &made{}
					again.thing, err = registry.NewProcessor(x.typ, v)
				}
				if again != nil {
					if err != nil {
						t.Fatalf("%s\n%s of a copy of %s: %v", strings.Join(log, "\n"), how, x.what, err)
					}
					if got, want := out.see(ins), again.see(ins); got != want {
						t.Fatalf("%s\nwith %v: %s of %s\n     is %s\nof a copy %s", strings.Join(log, "\n"), ins, how, x.what, got, want)
					}
				}
				add(family[x], out)
				log = append(log, "made: "+out.what)
				c.Class(how)
			}
			check()
		}
		// Metrics are counted for every pipeline as before.
		for _, x := range all {
			if p, ok := x.thing.(*pipeline.Pipeline); ok {
				for i, m := range p.Metrics() {
					if m == nil {
						t.Fatalf("%s\n%s: metric %d is nil", strings.Join(log, "\n"), x.what, i)
					}
				}
			}
		}
		if nonTrivial {
			sort.Strings(log)
			c.NonTrivial(strings.Join(log, "\n"))
		}
	})
}
