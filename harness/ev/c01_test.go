package ev

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"

	"verif/harness/vlib"
)

// decorate adds dots that the key syntax ignores.
func decorate(t *rapid.T, path []string) string {
	if len(path) == 0 {
		return strings.Repeat(".", rapid.IntRange(0, 4).Draw(t, "dots"))
	}
	if rapid.IntRange(0, 3).Draw(t, "plain") > 0 {
		return vlib.Key(path)
	}
	dots := func() string { return strings.Repeat(".", rapid.IntRange(0, 2).Draw(t, "dots")) }
	var sb strings.Builder
	sb.WriteString(dots())
	for i, n := range path {
		if i > 0 {
			sb.WriteString("." + dots())
		}
		sb.WriteString(vlib.Key([]string{n}))
	}
	sb.WriteString(dots())
	return sb.String()
}

func outcome(err error) (vlib.Outcome, bool) {
	switch {
	case err == nil:
		return vlib.OK, true
	case errors.Is(err, event.ErrEmptyKey):
		return vlib.EmptyKey, true
	case errors.Is(err, event.ErrKeyExists):
		return vlib.KeyExists, true
	case errors.Is(err, event.ErrTargetKeyNotObject):
		return vlib.NotObject, true
	}
	return 0, false
}

func sameOld(got *event.Value, want *vlib.MV) bool {
	if got == nil || want == nil {
		return got == nil && want == nil
	}
	return vlib.Of(got).Equal(want)
}

// startEvent draws an initial event and its model.
func startEvent(t *rapid.T, c *vlib.Case, opt vlib.ValueOpt) (*event.Event, *vlib.MV) {
	switch k := rapid.IntRange(0, 5).Draw(t, "start"); k {
	case 0:
		c.Class("start:new")
		return event.New(), vlib.MObj(nil)
	case 1:
		c.Class("start:zero")
		return &event.Event{}, vlib.MObj(nil)
	case 2:
		c.Class("start:json")
		opt.NoTime, opt.AnyDouble, opt.AnyBytes, opt.NilNested = true, false, false, false
		opt.NilItems, opt.NilFields = false, false
		m := vlib.Root(opt, opt.Names).Draw(t, "init")
		m.Walk(func(v *vlib.MV) {
			switch v.Kind { // All JSON numbers are doubles.
			case vlib.Int:
				*v = *vlib.MFloat(float64(v.I))
			case vlib.Uint:
				*v = *vlib.MFloat(float64(v.U))
			}
		})
		data, err := json.Marshal(m.Plain())
		if err != nil {
			panic(err)
		}
		e := event.New()
		if err := json.Unmarshal(data, e); err != nil {
			t.Fatalf("decoding %s: %v", data, err)
		}
		return e, m
	case 3:
		c.Class("start:fields")
		m := vlib.Root(opt, opt.Names).Draw(t, "init")
		for _, k := range m.Keys() {
			if m.O[k].Kind == vlib.Null && rapid.Bool().Draw(t, "nil field") {
				m.O[k].Nil = true
			}
		}
		return event.FromFields(m.Fields()), m
	default:
		c.Class("start:put")
		m := vlib.Root(opt, vlib.NoBackslash).Draw(t, "init")
		return m.Event(), m
	}
}

func TestC01_Model(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 160000, Thorough: 4800000,
		Rule: "a history of Put, TryPut, Get, Delete and nil puts on an event (empty, built, or decoded from JSON), compared after every step with a nested map; non-trivial: a write below an existing object succeeded, a write failed, and a nested entry was deleted or overwritten",
	}, func(t *rapid.T, c *vlib.Case) {
		opt := vlib.ValueOpt{Names: vlib.AnyName, AnyDouble: true, AnyBytes: true, Depth: 3, NilNested: true, NilItems: true, NilFields: true}
		e, m := startEvent(t, c, opt)
		init := m.String()
		h := &history{t: t, c: c, e: e, m: m, init: init}
		t.Repeat(map[string]func(*rapid.T){
			"Put":    func(*rapid.T) { h.put(true) },
			"TryPut": func(*rapid.T) { h.put(false) },
			"Get":    func(*rapid.T) { h.get() },
			"Delete": func(*rapid.T) { h.del() },
			"":       func(*rapid.T) { h.check(e) },
		})
		h.done()
	})
}

// store is an event, or what a processor sees of one.
type store interface {
	Put(key string, v *event.Value) (*event.Value, error)
	TryPut(key string, v *event.Value) (*event.Value, error)
	Get(key string) *event.Value
	Delete(key string) *event.Value
}

// history is a history of operations on an event and its model.
type history struct {
	t                      *rapid.T
	c                      *vlib.Case
	e                      store
	m                      *vlib.MV
	init                   string
	log                    []string
	below, failed, changed bool
}

func (h *history) path() ([]string, string) {
	var p []string
	if rapid.IntRange(0, 14).Draw(h.t, "emptykey") > 0 {
		p = vlib.Path(h.t, h.m, vlib.NoBackslash)
	}
	return p, decorate(h.t, p)
}

func (h *history) put(overwrite bool) {
	t, c, m := h.t, h.c, h.m
	p, key := h.path()
	v := vlib.Value(vlib.ValueOpt{Names: vlib.AnyName, AnyDouble: true, AnyBytes: true, Depth: 2, NilNested: true, NilItems: true, NilFields: true, Width: 3}).Draw(t, "v")
	if rapid.IntRange(0, 19).Draw(t, "nilput") == 0 {
		v = nil
	}
	name := "TryPut"
	call := h.e.TryPut
	if overwrite {
		name, call = "Put", h.e.Put
	}
	if len(p) > 1 {
		if parent := m.GetPath(p[:len(p)-1]); parent != nil && parent.Kind == vlib.Obj {
			h.below = true
		}
	}
	h.log = append(h.log, fmt.Sprintf("%s(%q, %v)", name, key, v))
	wantOld, wantOut := m.PutPath(p, v.Clone(), overwrite)
	wantOld = wantOld.Clone()
	got, err := call(key, v.Value())
	out, known := outcome(err)
	if !known {
		t.Fatalf("%s(%q): unexpected error %v", name, key, err)
	}
	if v == nil && len(p) == 0 {
		// A nil value with an empty key: both reasons to do nothing.
		if out != vlib.OK && out != vlib.EmptyKey {
			t.Fatalf("%s(%q, nil): error %v", name, key, err)
		}
		return
	}
	if out != wantOut {
		t.Fatalf("%s(%q): outcome %v (%v), want %v", name, key, out, err, wantOut)
	}
	if !sameOld(got, wantOld) {
		t.Fatalf("%s(%q) returned %v, want %v", name, key, got, wantOld)
	}
	if out != vlib.OK {
		h.failed = true
		c.Class("failed:" + out.String())
	}
	if out == vlib.OK && wantOld != nil && len(p) > 1 {
		h.changed = true
		c.Class("nested overwrite")
	}
}

func (h *history) get() {
	p, key := h.path()
	if got, want := h.e.Get(key), h.m.GetPath(p); !sameOld(got, want) {
		h.t.Fatalf("Get(%q) = %v, want %v", key, got, want)
	}
}

func (h *history) del() {
	p, key := h.path()
	h.log = append(h.log, fmt.Sprintf("Delete(%q)", key))
	want := h.m.DeletePath(p)
	if got := h.e.Delete(key); !sameOld(got, want) {
		h.t.Fatalf("Delete(%q) = %v, want %v", key, got, want)
	}
	if want != nil && len(p) > 1 {
		h.changed = true
		h.c.Class("nested delete")
	}
}

func (h *history) check(e *event.Event) {
	if got := vlib.OfEvent(e); !got.Equal(h.m) {
		h.t.Fatalf("after %s on %s:\n got %v\nwant %v", strings.Join(h.log, "; "), h.init, got, h.m)
	}
}

func (h *history) done() {
	if h.below && h.failed && h.changed {
		h.c.NonTrivial(h.init + " | " + strings.Join(h.log, "; "))
	}
}

// callProcessor runs a callback on the event it is given.
type callProcessor struct{ config callConfig }

type callConfig struct {
	Case int64 `config:"case"`
	Step int   `config:"step"`
}

var (
	callbacks sync.Map // int64 -> func(step int, e processor.Event) error
	callCase  int64
)

func (p *callProcessor) Process(e processor.Event) error {
	f, ok := callbacks.Load(p.config.Case)
	if !ok {
		return errors.New("no such case")
	}
	return f.(func(int, processor.Event) error)(p.config.Step, e)
}

func (p *callProcessor) Config() callConfig { return p.config }
func (p *callProcessor) String() string     { return "verif_call" }

func init() {
	registry.MustRegister("verif_call", func(c callConfig) (*callProcessor, error) { return &callProcessor{c}, nil })
}

func TestC01_InPipeline(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 40000, Thorough: 1200000,
		Rule: "the same operations done by one to three processors of a pipeline on the event they are given; results and the returned event are compared with the nested map; non-trivial: as for the histories outside of a pipeline",
	}, func(t *rapid.T, c *vlib.Case) {
		opt := vlib.ValueOpt{Names: vlib.AnyName, AnyDouble: true, AnyBytes: true, Depth: 3, NilNested: true, NilItems: true, NilFields: true}
		e, m := startEvent(t, c, opt)
		h := &history{t: t, c: c, m: m, init: m.String()}
		n := rapid.IntRange(1, 3).Draw(t, "processors")
		conf := &pipeline.Config{ID: "p"}
		id := atomic.AddInt64(&callCase, 1)
		for i := 0; i < n; i++ {
			conf.Processors = append(conf.Processors, pipeline.ProcessorConfig{
				"verif_call": &pipeline.ProcessorOptionConfig{Config: map[string]interface{}{"step": i, "case": id}}})
		}
		pipe, err := pipeline.New(conf)
		if err != nil {
			t.Fatalf("New: %v", err)
		}
		ran := 0
		callbacks.Store(id, func(step int, pe processor.Event) error {
			if step != ran {
				t.Fatalf("processor %d ran as number %d", step, ran)
			}
			ran++
			h.e = pe
			for i, n := 0, rapid.IntRange(1, 12).Draw(t, "ops"); i < n; i++ {
				switch rapid.IntRange(0, 3).Draw(t, "op") {
				case 0:
					h.put(true)
				case 1:
					h.put(false)
				case 2:
					h.get()
				case 3:
					h.del()
				}
				if got := pe.Get("."); len(m.O) > 0 && (got == nil || !vlib.Of(got).Equal(m)) {
					t.Fatalf("after %s on %s:\n got %v\nwant %v", strings.Join(h.log, "; "), h.init, got, m)
				}
			}
			return nil
		})
		defer callbacks.Delete(id)
		out, err := pipe.Process(e)
		if err != nil || out == nil || ran != n {
			t.Fatalf("Process: %v, %v after %d of %d processors", out, err, ran, n)
		}
		h.check(out)
		h.done()
	})
}

// TestC01_Siblings checks that no operation at one path reaches another.
func TestC01_Siblings(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 240000, Thorough: 4800000,
		Rule: "one Put, TryPut or Delete of a path on a deep event; every other path must keep its value; non-trivial: the event has at least 4 paths and the operation succeeded on a nested path",
	}, func(t *rapid.T, c *vlib.Case) {
		m := vlib.Root(vlib.ValueOpt{Names: vlib.NoBackslash, Depth: 4, AnyBytes: true}, vlib.NoBackslash).Draw(t, "init")
		e := m.Event()
		p := vlib.Path(t, m, vlib.NoBackslash)
		before := map[string]*vlib.MV{}
		paths := m.Paths()
		for _, q := range paths {
			before[vlib.Key(q)] = m.GetPath(q).Clone()
		}
		var done bool
		op := rapid.SampledFrom([]string{"put", "tryput", "delete"}).Draw(t, "op")
		switch op {
		case "put":
			_, err := e.Put(vlib.Key(p), event.String("new"))
			done = err == nil
		case "tryput":
			_, err := e.TryPut(vlib.Key(p), event.String("new"))
			done = err == nil
		case "delete":
			done = e.Delete(vlib.Key(p)) != nil
		}
		for _, q := range paths {
			if prefix(p, q) || prefix(q, p) {
				if !done {
					if got := e.Get(vlib.Key(q)); !sameOld(got, before[vlib.Key(q)]) {
						t.Fatalf("failed %s of %q changed %q to %v in %v", op, p, q, got, m)
					}
				} else if prefix(q, p) && len(q) < len(p) {
					if got := e.Get(vlib.Key(q)); got == nil || got.Type != event.ObjectType {
						t.Fatalf("%s of %q: parent %q became %v in %v", op, p, q, got, m)
					}
				}
				continue
			}
			if got := e.Get(vlib.Key(q)); !sameOld(got, before[vlib.Key(q)]) {
				t.Fatalf("%s of %q changed %q to %v, in %v", op, p, q, got, m)
			}
		}
		c.Class(op)
		if done && len(p) > 1 && len(paths) >= 4 {
			c.NonTrivial(fmt.Sprintf("%s %q on %v", op, p, m))
		}
	})
}

func prefix(p, q []string) bool {
	if len(p) > len(q) {
		return false
	}
	for i := range p {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}

func literalName() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		var s string
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0:
			s = vlib.Name(vlib.NoBackslash).Draw(t, "name")
		case 1:
			s = vlib.Bytes().Draw(t, "bytes")
		case 2:
			s = rapid.StringOf(rapid.SampledFrom([]rune{'.', 'a', 'b', '.'})).Draw(t, "dots")
		default:
			s = rapid.StringOfN(rapid.SampledFrom([]rune{'.', 'a', 'é', '/', ' '}), 1, 3, -1).Draw(t, "short")
		}
		s = strings.ReplaceAll(s, `\`, "")
		if s == "" {
			s = "."
		}
		return s
	})
}

// walk reads a path from the raw structure, without the key parser.
func walk(e *event.Event, path []string) *event.Value {
	cur := e.Get(".")
	for _, n := range path {
		if cur == nil || cur.Type != event.ObjectType {
			return nil
		}
		cur = cur.Object[n]
	}
	return cur
}

func TestC02_Keys(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 240000, Thorough: 6000000,
		Rule: "two paths of names without backslash, written through joined escaped keys with extra dots and looked up in the raw structure, by key, and deleted again; non-trivial: a name holds a dot, the paths differ and neither is a prefix of the other",
	}, func(t *rapid.T, c *vlib.Case) {
		drawPath := func(label string) []string {
			return rapid.SliceOfN(literalName(), 1, 5).Draw(t, label)
		}
		p := drawPath("p")
		q := drawPath("q")
		if rapid.Bool().Draw(t, "near") {
			// A path that differs only in how it is split.
			q = strings.FieldsFunc(strings.Join(p, "."), func(r rune) bool { return r == '.' })
			if len(q) == 0 {
				q = []string{".."}
			}
			c.Class("resplit")
		}
		key := func(path []string) string {
			if rapid.Bool().Draw(t, "decorated") {
				return decorate(t, path)
			}
			parts := make([]string, len(path))
			for i, n := range path {
				parts[i] = eventutil.EscapeKey(n)
			}
			return strings.Join(parts, ".")
		}
		kp, kq := key(p), key(q)
		e := event.New()
		put := func(k string, s string, path []string) error {
			var err error
			if rapid.Bool().Draw(t, "try") {
				_, err = e.TryPut(k, event.String(s))
			} else {
				_, err = e.Put(k, event.String(s))
			}
			return err
		}
		if err := put(kp, "P", p); err != nil {
			t.Fatalf("put %q: %v", kp, err)
		}
		if got := walk(e, p); got == nil || got.String != "P" {
			t.Fatalf("key %q of path %q wrote elsewhere: %v", kp, p, e.Get("."))
		}
		m := vlib.MObj(nil)
		m.PutPath(p, vlib.MStr("P"), true)
		if got := vlib.OfEvent(e); !got.Equal(m) {
			t.Fatalf("key %q of path %q gave %v, want %v", kp, p, got, m)
		}
		independent := !prefix(p, q) && !prefix(q, p)
		if !independent {
			return
		}
		if got := e.Get(kq); got != nil {
			t.Fatalf("key %q of path %q reads %v which was written at %q", kq, q, got, p)
		}
		if err := put(kq, "Q", q); err != nil {
			t.Fatalf("put %q: %v", kq, err)
		}
		m.PutPath(q, vlib.MStr("Q"), true)
		if got := vlib.OfEvent(e); !got.Equal(m) {
			t.Fatalf("keys %q, %q of paths %q, %q gave %v, want %v", kp, kq, p, q, got, m)
		}
		for i := range p {
			if got := e.Get(key(p[:i+1])); got == nil || !vlib.Of(got).Equal(m.GetPath(p[:i+1])) {
				t.Fatalf("Get of path %q = %v, want %v", p[:i+1], got, m.GetPath(p[:i+1]))
			}
		}
		if got := e.Delete(kp); got == nil || got.String != "P" {
			t.Fatalf("Delete(%q) = %v", kp, got)
		}
		m.DeletePath(p)
		if got := vlib.OfEvent(e); !got.Equal(m) {
			t.Fatalf("after Delete(%q) of path %q: %v, want %v", kp, p, got, m)
		}
		if strings.Contains(strings.Join(append(p, q...), ""), ".") {
			c.NonTrivial(fmt.Sprintf("%q %q", kp, kq))
		}
		c.ClassIf(len(p) >= 3, "depth>=3")
	})
}

func TestC02_NoName(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 20000, Thorough: 200000,
		Rule: "keys of dots only on random events: reads give the whole event, writes an empty-key error; non-trivial: the event has fields",
	}, func(t *rapid.T, c *vlib.Case) {
		m := vlib.Root(vlib.ValueOpt{Names: vlib.AnyName, Depth: 2, AnyBytes: true}, vlib.NoBackslash).Draw(t, "m")
		e := m.Event()
		key := strings.Repeat(".", rapid.IntRange(0, 70).Draw(t, "n"))
		check := func(after string) {
			got := e.Get(key)
			if len(m.O) == 0 {
				if got != nil && (got.Type != event.ObjectType || len(got.Object) > 0) {
					t.Fatalf("%s: Get(%q) of an empty event = %v", after, key, got)
				}
			} else if got == nil || !vlib.Of(got).Equal(m) {
				t.Fatalf("%s: Get(%q) = %v, want %v", after, key, got, m)
			}
		}
		check("at first")
		v := vlib.Value(vlib.ValueOpt{Names: vlib.AnyName, Depth: 1}).Draw(t, "v")
		if _, err := e.Put(key, v.Value()); !errors.Is(err, event.ErrEmptyKey) {
			t.Fatalf("Put(%q): %v", key, err)
		}
		check("after Put")
		if _, err := e.TryPut(key, v.Value()); !errors.Is(err, event.ErrEmptyKey) {
			t.Fatalf("TryPut(%q): %v", key, err)
		}
		check("after TryPut")
		if got := e.Delete(key); got != nil {
			t.Fatalf("Delete(%q) = %v", key, got)
		}
		check("after Delete")
		if len(m.O) > 0 {
			c.NonTrivial(key + m.String())
		}
	})
}
