package pipe

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/metrics"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"

	"verif/harness/vlib"
)

// use is a way of using the library once, with content that no other use has.
type use struct {
	what string
	do   func(i int)
}

// held is what a process holds.
type held struct {
	memory            int64
	goroutines, files int
}

func heldNow(settled func(h held) bool) held {
	var h held
	for k := 0; k < 40; k++ {
		runtime.GC()
		runtime.GC() // Pools let go at the second.
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		h = held{memory: int64(m.HeapAlloc), goroutines: runtime.NumGoroutine(), files: openFiles()}
		if settled(h) {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	return h
}

func openFiles() int {
	entries, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(entries)
}

const (
	fewUses  = 1500
	leakSize = 16 // Bytes per use.
)

// checkHeld runs uses again and again and compares what is held.
func checkHeld(t *rapid.T, uses []use) {
	next := 0
	batch := func(n int) {
		for k := 0; k < n; k++ {
			next++
			for _, u := range uses {
				u.do(next)
			}
		}
	}
	grown := func(from held, n int) func(held) bool {
		return func(h held) bool {
			return h.memory-from.memory <= int64(n*leakSize)+32<<10 && h.goroutines <= from.goroutines+8 && h.files <= from.files+8
		}
	}
	batch(fewUses)
	first := heldNow(func(held) bool { return true })
	n := 2 * fewUses
	batch(n)
	quiet := grown(first, n)
	second := heldNow(quiet)
	if quiet(second) {
		return
	}
	// Or something that has a limit, which was not reached.
	n = 30 * fewUses
	batch(n)
	quiet = grown(second, n)
	if third := heldNow(quiet); !quiet(third) {
		var what []string
		for _, u := range uses {
			what = append(what, u.what)
		}
		t.Fatalf("%d uses later %d more bytes, %d more goroutines and %d more files are held: %s", n, third.memory-second.memory, third.goroutines-second.goroutines, third.files-second.files, strings.Join(what, "; "))
	}
}

type c31Struct struct {
	Name  string `json:"name"`
	Map   map[string]interface{}
	Inner []*c31Struct
	Err   error
	When  time.Time
}

func drawUse(t *rapid.T) use {
	o := vlib.ValueOpt{Names: vlib.NoBackslash, Depth: 2}
	m := vlib.Root(o, vlib.NoBackslash).Filter(small).Draw(t, "content")
	text := strings.Repeat("x", rapid.SampledFrom([]int{0, 30, 300}).Draw(t, "text"))
	make := func(i int) *event.Event {
		e := event.FromFields(m.Fields())
		e.Put(fmt.Sprint("unique", i), event.String(fmt.Sprint(text, i)))
		return e
	}
	k := rapid.IntRange(0, 7).Draw(t, "use")
	switch k {
	case 0:
		path := vlib.Path(t, m, vlib.NoBackslash)
		key := vlib.Key(path)
		return use{fmt.Sprintf("put, get and delete at %q and below in %v", key, m), func(i int) {
			e := event.FromFields(m.Fields())
			u := fmt.Sprintf(`%s.key%d.\.%s`, key, i, text)
			v := event.String(fmt.Sprint(i))
			e.Put(u, v)
			e.TryPut(u, v)
			e.Get(u)
			e.Get(fmt.Sprint(u, ".x"))
			e.Put(fmt.Sprint(u, ".x"), v)
			e.Put("", v)
			e.Delete(u)
			e.Delete(key)
			_ = eventutil.EscapeKey(fmt.Sprint("a.", i))
		}}
	case 1:
		e := event.FromFields(m.Fields())
		return use{fmt.Sprintf("put, get and delete of fields of one event that was %v", m), func(i int) {
			u := fmt.Sprintf(`c31%d.x`, i)
			e.Put(u, event.String(text))
			e.Get(u)
			e.Put(u+".y", event.String(text))
			e.Delete(u)
			e.Delete(fmt.Sprintf(`c31%d`, i))
		}}
	case 2:
		old := event.New()
		cut := rapid.IntRange(0, 100).Draw(t, "cut")
		return use{fmt.Sprintf("JSON of %v", m), func(i int) {
			e := make(i)
			data, err := json.Marshal(e)
			if err != nil {
				return
			}
			json.Unmarshal(data, old)
			json.Unmarshal(data[:len(data)*cut/100], event.New())
			json.Unmarshal([]byte(fmt.Sprintf(`{"a":%d]`, i)), old)
			json.Marshal(event.FromFields(map[string]*event.Value{fmt.Sprint(i): event.Float(math.NaN())}))
		}}
	case 3:
		return use{fmt.Sprintf("maps of %v", m), func(i int) {
			p := mapinterface.FromEvent(make(i))
			mapinterface.ToEvent(p)
			p[fmt.Sprint("bad", i)] = func() {}
			mapinterface.ToEvent(p)
			mapinterface.ToEvent(map[string]interface{}{"": i})
		}}
	case 4:
		cut := rapid.IntRange(0, 100).Draw(t, "cut")
		return use{fmt.Sprintf("wire format of %v", m), func(i int) {
			w := protobuf.FromEvent(make(i))
			data, err := proto.Marshal(w)
			if err != nil {
				return
			}
			var back protobuf.MessageWrapper
			if back.Unmarshal(data) == nil {
				protobuf.ToLogEvent(back.GetLog())
			}
			_ = back.String()
			proto.Merge(&protobuf.MessageWrapper{}, &back)
			var part protobuf.MessageWrapper
			part.Unmarshal(data[:len(data)*cut/100])
		}}
	case 5:
		return use{fmt.Sprintf("conversion of a struct with a map like %v", m), func(i int) {
			s := &c31Struct{Name: fmt.Sprint(text, i), Map: map[string]interface{}{fmt.Sprint("a.", i): i}, Err: errors.New(fmt.Sprint(i)), When: time.Unix(int64(i), 0)}
			s.Inner = append(s.Inner, &c31Struct{}, s.Inner0())
			eventutil.ReflectValue(s)
			eventutil.ReflectValue(map[string]interface{}{fmt.Sprint(i): nil, "x": [3]int{i}, "y": 'x'})
			eventutil.ReflectValue([]interface{}{i, make})
		}}
	case 6:
		return use{fmt.Sprintf("append, clone and print of %v", m), func(i int) {
			e := make(i)
			for k := 0; k < 3; k++ {
				eventutil.Append(e, fmt.Sprint("unique", i), event.Integer(int64(k)))
				eventutil.Append(e, fmt.Sprint("unique", i, ".x"), event.Integer(int64(k)))
			}
			v := e.Get(".").Clone()
			_ = fmt.Sprintf("%v %+v", v, v)
			err := fmt.Errorf("%d: %w", i, processor.ErrorKeyMissing{Key: fmt.Sprint(i)})
			_ = errors.Is(err, processor.ErrorKeyMissing{}) || err.Error() == ""
		}}
	}
	name := rapid.SampledFrom([]string{"set", "append", "lowercase", "uppercase", "remove"}).Draw(t, "processor")
	given := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"field", "fields", "target_field", "value", "copy_from"}), 1, 5, func(s string) string { return s }).Draw(t, "options")
	return use{fmt.Sprint("creation of ", name, " with ", given), func(i int) {
		f := fmt.Sprint("field", i)
		options := map[string]interface{}{}
		for _, k := range given {
			options[k] = f
			if k == "fields" {
				options[k] = []interface{}{f, "x"}
			}
		}
		p, err := registry.NewProcessor(name, options)
		if err == nil {
			_ = fmt.Sprint(p)
		}
		options["field"], options["target_field"], options["fields"] = []interface{}{f, f}, map[string]interface{}{f: i}, i
		registry.NewProcessor(name, options)
		registry.NewProcessor(fmt.Sprint(name, i), options)
		r := registry.NewRegistry()
		r.Register(f, func(c struct{}) (*lineLike, error) { return &lineLike{f}, nil })
		r.NewProcessor(f, nil)
		r.Register(f, i)
	}}
}

// Inner0 is another value of the same content.
func (s *c31Struct) Inner0() *c31Struct { return &c31Struct{Name: s.Name, When: s.When} }

type lineLike struct{ name string }

func (*lineLike) Config() struct{}              { return struct{}{} }
func (*lineLike) Process(processor.Event) error { return nil }

func usesText(uses []use) string {
	var what []string
	for _, u := range uses {
		what = append(what, u.what)
	}
	sort.Strings(what)
	return strings.Join(what, "; ")
}

func TestC31_Use(t *testing.T) {
	vlib.Run(t, vlib.Spec{Quick: 560, Thorough: 8000,
		Rule: "One to three ways of using events, values, messages, conversions and processors (also those that fail), each used 4500 times with names and texts that no other use has; memory in use after garbage collection, goroutines and open files after 1500 and 4500 uses must agree, or else after 45000 more. Non-trivial: every case. Distinct by ways of use."}, func(t *rapid.T, c *vlib.Case) {
		var uses []use
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "uses"); i < n; i++ {
			uses = append(uses, drawUse(t))
			c.Class(strings.Join(strings.Fields(uses[i].what)[:2], " "))
		}
		c.NonTrivial(usesText(uses))
		checkHeld(t, uses)
	})
}

func TestC31_Pipelines(t *testing.T) {
	vlib.Run(t, vlib.Spec{Quick: 720, Thorough: 10000,
		Rule: "A random pipeline of built-in processors and of probes that fail, drop and cancel as the event says processes 4500 events with names and texts that no other event has, or its definition is encoded, decoded and built 4500 times under other names; compared as in the other test. Non-trivial: at least one processor. Distinct by pipeline and events."}, func(t *rapid.T, c *vlib.Case) {
		conf := drawLinePipe(t)
		def, err := yaml.Marshal(definitionTree(conf))
		if err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		pipe, err := loadDefinition(def)
		if err != nil {
			t.Fatalf("VERIF-ERROR: %s: %v", def, err)
		}
		var u use
		if rapid.IntRange(0, 2).Draw(t, "build") == 0 {
			data, err := json.Marshal(conf)
			if err != nil {
				t.Fatal("VERIF-ERROR:", err)
			}
			text := string(data)
			scrape := rapid.Bool().Draw(t, "metrics")
			u = use{"building of " + text, func(i int) {
				if i%4 != 0 { // It takes long.
					return
				}
				var c pipeline.Config
				if err := json.Unmarshal([]byte(text), &c); err != nil {
					return
				}
				c.ID = fmt.Sprint("pipeline", i)
				json.Unmarshal([]byte(fmt.Sprintf(`{"id":"x%d","processors":[{"set":{"target_field":"f%d"},"x":%d}]}`, i, i, i)), &c)
				p, err := pipeline.New(&c)
				if err == nil {
					p.Process(event.New())
				}
				c.Processors = nil
				if json.Unmarshal([]byte(text), &c) == nil {
					c.ID = fmt.Sprint("pipeline", i)
					if p, err = pipeline.New(&c); err == nil {
						e := event.New()
						e.Put("event.original", event.String(fmt.Sprint(i)))
						p.Process(e)
						if scrape {
							metrics.Register(p.Metrics()...)
							metrics.Unregister(p.Metrics()...)
						}
					}
				}
				if i%16 == 0 {
					out, _ := yaml.Marshal(&c)
					var back pipeline.Config
					yaml.Unmarshal(out, &back)
				}
			}}
			c.Class("building")
		} else {
			var lines []string
			for i, n := 0, rapid.IntRange(1, 6).Draw(t, "lines"); i < n; i++ {
				line := drawLine(t)
				if len(line) > 300 {
					line = line[:300]
				}
				lines = append(lines, line)
			}
			content := vlib.Root(vlib.ValueOpt{Names: vlib.NoBackslash, Depth: 2}, vlib.NoBackslash).Filter(small).Draw(t, "content")
			u = use{fmt.Sprintf("processing of %q and %v by %s", lines, content, def), func(i int) {
				e := event.FromFields(content.Fields())
				e.Put("event.original", event.String(fmt.Sprint(lines[i%len(lines)], " ", i)))
				e.Put(fmt.Sprint("unique", i), event.String(fmt.Sprint(i)))
				pipe.Process(e)
				if i%100 == 0 {
					pipe.Metrics()
				}
			}}
			c.Class("processing")
		}
		if len(conf.Processors) > 0 {
			c.NonTrivial(u.what)
		}
		checkHeld(t, []use{u})
	})
}

func TestC31_Command(t *testing.T) {
	bin := program(t, "sawmill")
	dir := t.TempDir()
	file := filepath.Join(dir, "pipeline.yml")
	const first, more = 3000, 15000
	vlib.Run(t, vlib.Spec{Quick: 48, Thorough: 640,
		Rule: "The sawmill binary on a random pipeline, collecting garbage often; the memory in use, goroutines and open files that its endpoint reports after 3000 random lines and after 15000 more must agree, or else after 120000 more. Non-trivial: at least one processor. Distinct by pipeline and lines."}, func(t *rapid.T, c *vlib.Case) {
		conf := drawLinePipe(t)
		def, err := yaml.Marshal(definitionTree(conf))
		if err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		if _, err := loadDefinition(def); err != nil {
			t.Fatalf("VERIF-ERROR: %s: %v", def, err)
		}
		if err := os.WriteFile(file, def, 0o600); err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		var lines []string
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "lines"); i < n; i++ {
			line := strings.ReplaceAll(drawLine(t), "\r", "")
			if len(line) > 500 {
				line = line[:500]
			}
			lines = append(lines, line)
		}
		where := fmt.Sprintf("pipeline\n%s\nlines %q", def, lines)
		if len(conf.Processors) > 0 {
			c.NonTrivial(where)
		}
		addr := freeAddr(t)
		cmd := exec.Command(bin, "-metrics-addr", addr, "-p", file)
		cmd.Env = append(os.Environ(), "GOGC=20")
		stdin, err := cmd.StdinPipe()
		if err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		w := bufio.NewWriter(stdin)
		if err := cmd.Start(); err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		defer func() {
			cmd.Process.Kill()
			cmd.Wait()
		}()
		next := 0
		feed := func(n int) {
			for i := 0; i < n; i++ {
				next++
				fmt.Fprintln(w, lines[next%len(lines)], next)
			}
			if err := w.Flush(); err != nil {
				t.Fatalf("the program reads no more: %v: %s", err, where)
			}
		}
		// look returns the least memory of the latest five looks.
		look := func(settled func(held) bool) (h held) {
			var latest []int64
			for k := 0; k < 60; k++ {
				v, err := gauges(addr)
				if err != nil {
					if k == 59 {
						t.Fatalf("GET /metrics: %v: %s", err, where)
					}
					time.Sleep(20 * time.Millisecond)
					continue
				}
				latest = append(latest, int64(v["go_memstats_heap_alloc_bytes"]))
				if len(latest) > 5 {
					latest = latest[1:]
				}
				h = held{math.MaxInt64, int(v["go_goroutines"]), int(v["process_process_open_fds"])}
				for _, m := range latest {
					if m < h.memory {
						h.memory = m
					}
				}
				if k >= 12 && settled(h) {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
			return h
		}
		feed(first)
		one := look(func(held) bool { return true })
		feed(more)
		quiet := func(from held, more int64) func(held) bool {
			return func(h held) bool {
				return h.memory <= from.memory+more && h.goroutines <= from.goroutines+8 && h.files <= from.files+8
			}
		}
		two := look(quiet(one, 1<<19))
		if quiet(one, 1<<19)(two) {
			return
		}
		// Or garbage.
		feed(8 * more)
		if three := look(quiet(two, 3<<20)); !quiet(two, 3<<20)(three) {
			t.Fatalf("%d lines later %d more bytes, %d more goroutines and %d more files are held: %s", 8*more, three.memory-two.memory, three.goroutines-two.goroutines, three.files-two.files, where)
		}
		c.Class("looked twice")
	})
}

// gauges reads the plain gauges of the endpoint.
func gauges(addr string) (map[string]float64, error) {
	s := scrapeAll(addr, 1, never, style{})[0]
	if s.err != nil {
		return nil, s.err
	}
	out := map[string]float64{}
	for _, f := range s.families {
		for _, m := range f.Metric {
			if g := m.GetGauge(); g != nil && len(m.Label) == 0 {
				out[f.GetName()] = g.GetValue()
			}
		}
	}
	if len(out) == 0 {
		return nil, errors.New("no gauges")
	}
	return out, nil
}

func small(m *vlib.MV) bool { return len(m.String()) < 2000 }
