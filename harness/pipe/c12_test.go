package pipe

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	"verif/harness/vlib"
)

// Names without dots, few of them, so that processors work on the same fields.
var someFields = []string{"a", "b", "c", "a.b", "a.c", "a.b.c", "b.x", "list", "list2", "n"}

func drawField(t *rapid.T, what string) string {
	return rapid.SampledFrom(someFields).Draw(t, what)
}

// drawBuiltins generates a list of built-in processors. Values hold no empty
// maps, no null and no names that look like numbers.
func drawBuiltins(t *rapid.T, depth, max int) []pipeline.ProcessorConfig {
	var out []pipeline.ProcessorConfig
	for i, n := 0, rapid.IntRange(0, max).Draw(t, "procs"); i < n; i++ {
		o := map[string]interface{}{}
		typ := rapid.SampledFrom([]string{"set", "set", "set", "set", "append", "append", "append", "lowercase", "uppercase", "remove"}).Draw(t, "type")
		flag := func(name string, of int) {
			if rapid.IntRange(0, of).Draw(t, name) == of {
				o[name] = true
			}
		}
		switch typ {
		case "set":
			o["target_field"] = drawField(t, "target")
			if rapid.Bool().Draw(t, "copy") {
				o["copy_from"] = drawField(t, "from")
				flag("ignore_missing", 1)
			} else {
				o["value"] = drawPlain(t, 3)
			}
			flag("ignore_failure", 1)
		case "append":
			o["field"] = drawField(t, "field")
			o["value"] = rapid.SampledFrom([]string{"x", "y", "Z"}).Draw(t, "value")
			flag("allow_duplicates", 1)
			flag("ignore_missing", 3)
		case "remove":
			o["fields"] = []interface{}{drawField(t, "field")}
			flag("ignore_missing", 1)
		default:
			o["field"] = drawField(t, "field")
			if rapid.Bool().Draw(t, "target") {
				o["target_field"] = drawField(t, "target")
			}
			flag("ignore_missing", 1)
		}
		oc := &pipeline.ProcessorOptionConfig{Config: o}
		if depth > 0 && rapid.IntRange(0, 2).Draw(t, "handlers") > 0 {
			oc.OnFailure = append(drawBuiltins(t, depth-1, 2), pipeline.ProcessorConfig{"pass": nil})
		}
		out = append(out, pipeline.ProcessorConfig{typ: oc})
	}
	return out
}

// drawPlain generates an option value.
func drawPlain(t *rapid.T, depth int) interface{} {
	k := rapid.IntRange(0, 7).Draw(t, "kind")
	if depth == 0 {
		k /= 2
	}
	switch k {
	case 0:
		return rapid.Bool().Draw(t, "b")
	case 1:
		return rapid.IntRange(-1000, 1000).Draw(t, "i")
	case 2:
		return float64(rapid.IntRange(-100, 100).Draw(t, "f")) / 4
	case 3:
		return rapid.SampledFrom([]string{"v", "Hello", "ÄÖ", "x", "y"}).Draw(t, "s")
	case 4, 5:
		l := []interface{}{}
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
			l = append(l, drawPlain(t, depth-1))
		}
		return l
	default:
		m := map[string]interface{}{}
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
			m[rapid.SampledFrom([]string{"b", "c", "x", "y"}).Draw(t, "name")] = drawPlain(t, depth-1)
		}
		return m
	}
}

func drawBuiltinConfig(t *rapid.T) *pipeline.Config {
	return &pipeline.Config{ID: "p", Processors: drawBuiltins(t, 1, 5), OnFailure: drawBuiltins(t, 0, 2)}
}

// drawEventFor generates an event that has some of the fields.
func drawEventFor(t *rapid.T) *vlib.MV {
	m := vlib.MObj(nil)
	for i, n := 0, rapid.IntRange(0, 5).Draw(t, "fields"); i < n; i++ {
		v := vlib.Value(vlib.ValueOpt{Names: vlib.NonEmpty, Depth: 2, Width: 3, NilItems: true}).Draw(t, "v")
		switch rapid.IntRange(0, 3).Draw(t, "what") {
		case 0:
			v = vlib.MStr(rapid.SampledFrom([]string{"Text", "x", "ÄÖü", "Tex7", "A Long Text With The Same Start 1", "A Long Text With The Same Start 2", "a Long Text With The Same Start 2"}).Draw(t, "s"))
		case 1:
			v = vlib.MArr(vlib.MStr("x"), v)
		}
		m.PutPath(pathOf(drawField(t, "field")), v, true)
	}
	return m
}

// result is what a pipeline made of an event.
type result struct {
	evt *vlib.MV
	err string
}

func (r result) equal(o result) bool {
	return r.err == o.err && (r.evt == nil) == (o.evt == nil) && (r.evt == nil || r.evt.Equal(o.evt))
}

func (r result) String() string {
	if r.evt == nil {
		return "error " + r.err
	}
	return r.evt.String()
}

func resultOf(e *event.Event, err error) result {
	var r result
	if err != nil {
		r.err = err.Error()
	}
	if e != nil {
		r.evt = vlib.OfEvent(e)
	}
	return r
}

// spoil changes everything reachable in an event in place.
func spoil(e *event.Event) {
	var walk func(v *event.Value)
	walk = func(v *event.Value) {
		if v == nil || v == event.NullValue {
			return // Callers must not change the null value all events share.
		}
		for _, x := range v.Array {
			walk(x)
		}
		for _, x := range v.Object {
			walk(x)
		}
		switch v.Type {
		case event.ArrayType:
			for i := range v.Array {
				v.Array[i] = event.String("spoiled element")
			}
			if cap(v.Array) > len(v.Array) {
				v.Array[:len(v.Array)+1][len(v.Array)] = event.String("spoiled spare")
			}
		case event.ObjectType:
			for k := range v.Object {
				v.Object[k] = event.String("spoiled member")
			}
			if v.Object != nil {
				v.Object["spoiled"] = event.Bool(true)
			}
		default:
			v.String = "spoiled"
			v.Integer ^= -1
			v.UnsignedInteger ^= 1 << 40
			v.Float++
			v.Bool = !v.Bool
			v.Timestamp.UnixNanos ^= -1
			v.Type = event.StringType
		}
	}
	walk(e.Get("."))
}

func configText(c *pipeline.Config) string {
	data, err := json.Marshal(c)
	if err != nil {
		return err.Error()
	}
	return string(data)
}

func TestC12_History(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 12000, Thorough: 400000,
		Rule: "a random pipeline of built-in processors with nested handlers and 2 to 7 random events (some of them equal); the result of each is that of a pipeline built for it alone; after each event a random earlier returned event is changed in place everywhere, and all others must stay as they were returned, as must the configuration; the same pipeline then takes the events concurrently (under the race detector) with the same results; non-trivial: a set with a list or map value, a copy or an append ran, for two events at least",
	}, func(t *rapid.T, c *vlib.Case) {
		conf := drawBuiltinConfig(t)
		before := configText(conf)
		shared, err := pipeline.New(conf)
		if err != nil {
			t.Fatalf("New(%s): %v", before, err)
		}
		var ins []*vlib.MV
		for i, n := 0, rapid.IntRange(2, 7).Draw(t, "events"); i < n; i++ {
			if i > 0 && rapid.IntRange(0, 2).Draw(t, "same") == 2 {
				ins = append(ins, ins[rapid.IntRange(0, i-1).Draw(t, "as")])
			} else {
				ins = append(ins, drawEventFor(t))
			}
		}
		log := fmt.Sprintf("%s on %v", before, ins)
		var want []result
		for _, in := range ins {
			fresh, err := pipeline.New(conf)
			if err != nil {
				t.Fatalf("New(%s) again: %v", before, err)
			}
			want = append(want, resultOf(fresh.Process(in.Event())))
		}
		type returned struct {
			e       *event.Event
			was     *vlib.MV
			spoiled bool
		}
		var outs []*returned
		good := 0
		// Decoders share one null value between events, callers may not.
		build := (*vlib.MV).Event
		if rapid.Bool().Draw(t, "own nulls") {
			build = (*vlib.MV).OwnEvent
		}
		for i, in := range ins {
			e, err := shared.Process(build(in))
			got := resultOf(e, err)
			if !got.equal(want[i]) {
				t.Fatalf("%s: event %d\n got %v\nfresh %v", log, i, got, want[i])
			}
			if e != nil {
				good++
				outs = append(outs, &returned{e: e, was: got.evt})
			}
			if len(outs) > 0 && rapid.Bool().Draw(t, "spoil") {
				o := outs[rapid.IntRange(0, len(outs)-1).Draw(t, "which")]
				if !o.spoiled {
					o.spoiled = true
					spoil(o.e)
					c.Class("changed a returned event")
				}
			}
			for k, o := range outs {
				if now := vlib.OfEvent(o.e); !o.spoiled && !now.Equal(o.was) {
					t.Fatalf("%s: after event %d, returned event %d changed\n from %v\n to   %v", log, i, k, o.was, now)
				}
			}
			if now := configText(conf); now != before {
				t.Fatalf("%s: after event %d, the configuration became %s", log, i, now)
			}
		}
		// Concurrently, with each event twice.
		var wg sync.WaitGroup
		got := make([]result, 2*len(ins))
		start := make(chan struct{})
		for k := range got {
			e := build(ins[k%len(ins)])
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-start
				out, err := shared.Process(e)
				got[k] = resultOf(out, err)
				if out != nil {
					spoil(out)
				}
			}(k)
		}
		close(start)
		wg.Wait()
		for k := range got {
			if !got[k].equal(want[k%len(ins)]) {
				t.Fatalf("%s: event %d, processed concurrently\n got %v\nfresh %v", log, k%len(ins), got[k], want[k%len(ins)])
			}
		}
		if now := configText(conf); now != before {
			t.Fatalf("%s: the configuration became %s", log, now)
		}
		c.ClassIf(good > 0, "returned events")
		c.ClassIf(good < len(ins), "failures")
		if good > 1 && (strings.Contains(before, `"value":[`) || strings.Contains(before, `"value":{`) || strings.Contains(before, "copy_from") || strings.Contains(before, `"append"`)) {
			c.NonTrivial(log)
		}
	})
}

// TestC12_Independent: a set value is a copy of its own within the event.
func TestC12_Independent(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 12000, Thorough: 300000,
		Rule: "an event with a random nested field, a pipeline that copies it to one or two other fields or sets the same configured value in two fields, then changes one of them (by processors or in place); all other fields must keep their contents; non-trivial: the value is a list or map",
	}, func(t *rapid.T, c *vlib.Case) {
		m := drawEventFor(t)
		val := vlib.Value(vlib.ValueOpt{Names: vlib.NonEmpty, Depth: 3, Width: 3, NilItems: true}).Draw(t, "value")
		if val.Kind == vlib.Null {
			val = vlib.MStr("s")
		}
		plain := drawPlain(t, 3)
		fields := []string{"one", "two", "three"}
		m.O["zero"] = val
		opt := func(target string) map[string]interface{} {
			return map[string]interface{}{"target_field": target, "copy_from": "zero"}
		}
		configured := rapid.Bool().Draw(t, "configured")
		if configured {
			opt = func(target string) map[string]interface{} {
				return map[string]interface{}{"target_field": target, "value": plain}
			}
		}
		chain := rapid.Bool().Draw(t, "chain")
		var procs []pipeline.ProcessorConfig
		for i, f := range fields {
			o := opt(f)
			if chain && i > 0 {
				o = map[string]interface{}{"target_field": f, "copy_from": fields[i-1]}
			}
			procs = append(procs, pipeline.ProcessorConfig{"set": {Config: o}})
		}
		conf := &pipeline.Config{ID: "p", Processors: procs}
		all := append([]string{"zero"}, fields...)
		victim := all[rapid.IntRange(0, 3).Draw(t, "victim")]
		byProc := rapid.Bool().Draw(t, "by processors")
		if byProc {
			// Append to, write into and remove from the victim.
			for _, p := range []pipeline.ProcessorConfig{
				{"set": {Config: map[string]interface{}{"target_field": victim + ".c", "value": 1, "ignore_failure": true}}},
				{"set": {Config: map[string]interface{}{"target_field": victim + ".b.c", "value": "w", "ignore_failure": true}}},
				{"append": {Config: map[string]interface{}{"field": victim + ".x", "value": "z"}, OnFailure: []pipeline.ProcessorConfig{{"pass": nil}}}},
				{"append": {Config: map[string]interface{}{"field": victim, "value": "z"}, OnFailure: []pipeline.ProcessorConfig{{"pass": nil}}}},
				{"remove": {Config: map[string]interface{}{"fields": []interface{}{victim + ".b"}, "ignore_missing": true}}},
				{"uppercase": {Config: map[string]interface{}{"field": victim + ".a"}, OnFailure: []pipeline.ProcessorConfig{{"pass": nil}}}},
			} {
				if rapid.Bool().Draw(t, "use") {
					conf.Processors = append(conf.Processors, p)
				}
			}
		}
		log := configText(conf) + " on " + m.String()
		pipe, err := pipeline.New(conf)
		if err != nil {
			t.Fatalf("New(%s): %v", log, err)
		}
		// What the fields hold before the change.
		base, err := pipeline.New(&pipeline.Config{ID: "p", Processors: procs})
		if err != nil {
			t.Fatalf("New(%s): %v", log, err)
		}
		e, err := base.Process(m.Event())
		if err != nil {
			t.Fatalf("%s: %v", log, err)
		}
		want := vlib.OfEvent(e)
		if !byProc {
			spoil2(e, victim)
		} else {
			if e, err = pipe.Process(m.Event()); err != nil {
				t.Fatalf("%s: %v", log, err)
			}
		}
		got := vlib.OfEvent(e)
		for _, f := range all {
			if f != victim && !reflect.DeepEqual(got.O[f] == nil, want.O[f] == nil) || f != victim && !got.O[f].Equal(want.O[f]) {
				t.Fatalf("%s: changing %s (in place: %v) changed %s\n from %v\n to   %v", log, victim, !byProc, f, want.O[f], got.O[f])
			}
		}
		c.ClassIf(configured, "configured value")
		c.ClassIf(chain, "chain of copies")
		c.ClassIf(byProc, "changed by processors")
		k := want.O["two"]
		if k != nil && (k.Kind == vlib.Arr || k.Kind == vlib.Obj) {
			c.NonTrivial(log)
		}
	})
}

// spoil2 changes everything below one field.
func spoil2(e *event.Event, field string) {
	v := e.Get(field)
	if v == nil {
		return
	}
	sub := event.New()
	if _, err := sub.Put("v", v); err != nil {
		panic(err)
	}
	spoil(sub)
}
