package pipe

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	"verif/harness/vlib"
)

var runID int64 // Atomic.

// rootFor generates the contents of an event for probes.
func rootFor(t *rapid.T, id int64) *vlib.MV {
	m := vlib.Root(vlib.ValueOpt{Names: vlib.AnyName, Depth: 2, Width: 3}, vlib.NoBackslash).Draw(t, "event")
	m.O["run_id"] = vlib.MInt(id)
	delete(m.O, "trace")
	return m
}

// processOne runs one event through pipe, compares everything with the model
// and returns the outcome.
func processOne(t *rapid.T, p *pipeModel, pipe *pipeline.Pipeline, plan map[string]act, where string) *outcome {
	o := processOf(t, p, plan, where)
	inner := nest(t, p, pipe, o, 3)
	o.run(pipe)
	out := o.judge(t)
	for _, o := range inner {
		o.judge(t)
	}
	if o.out != nil && rapid.IntRange(0, 5).Draw(t, "again") == 3 {
		if rapid.Bool().Draw(t, "other plan") {
			plan = drawPlan(t, p, true)
		}
		where += ", event with " + planText(p, o.r.plan)
		o = o.again(p, plan, where)
		o.run(pipe)
		o.judge(t)
	}
	return out
}

// nest sometimes has a probe that o reaches send another event through the same
// pipeline. It returns those events, the innermost first.
func nest(t *rapid.T, p *pipeModel, pipe *pipeline.Pipeline, o *process, depth int) []*process {
	n := len(o.want.trace)
	if n == 0 || depth == 0 || rapid.IntRange(0, 24).Draw(t, "nested") != 17 {
		return nil
	}
	in := processOf(t, p, drawPlan(t, p, true), o.where+", and within it")
	more := nest(t, p, pipe, in, depth-1)
	o.r.at = rapid.IntRange(1, n).Draw(t, "at")
	o.r.after = rapid.Bool().Draw(t, "after")
	o.r.inner = func() { in.run(pipe) }
	if rapid.Bool().Draw(t, "aside") {
		o.r.inner = func() {
			done := make(chan struct{})
			go func() {
				defer close(done)
				in.run(pipe)
			}()
			<-done
		}
	}
	return append(more, in)
}

// panics sometimes sends an event with which a probe panics through the
// pipeline. What becomes of it is not judged.
func panics(t *rapid.T, c *vlib.Case, p *pipeModel, pipe *pipeline.Pipeline, plan map[string]act, where string) {
	if rapid.IntRange(0, 29).Draw(t, "panics") != 13 {
		return
	}
	at := rapid.IntRange(1, 30).Draw(t, "panic at")
	for i, k := 0, rapid.IntRange(1, 20).Draw(t, "times"); i < k; i++ {
		o := processOf(t, p, plan, where)
		n := len(o.want.trace)
		if n == 0 {
			return
		}
		o.r.panicAt = (at-1)%n + 1
		o.run(pipe)
		c.Class("panic of a processor")
	}
}

// process is one event on its way through a pipeline.
type process struct {
	id       int64
	r        *probeRun
	m        *vlib.MV
	in, out  *event.Event
	err      error
	panicked interface{}
	want     *outcome
	where    string
}

func processOf(t *rapid.T, p *pipeModel, plan map[string]act, where string) *process {
	o := &process{id: atomic.AddInt64(&runID, 1)}
	o.m = rootFor(t, o.id)
	o.in = o.m.Event()
	return o.with(p, plan, where)
}

// again is the way of the returned event through a pipeline.
func (o *process) again(p *pipeModel, plan map[string]act, where string) *process {
	return (&process{id: o.id, m: o.m, in: o.out}).with(p, plan, where+", the event just returned again")
}

func (o *process) with(p *pipeModel, plan map[string]act, where string) *process {
	o.r = &probeRun{plan: plan}
	o.want = p.interpret(plan)
	o.where = fmt.Sprintf("%s, event with %s", where, planText(p, plan))
	return o
}

func (o *process) run(pipe *pipeline.Pipeline) {
	runs.Store(o.id, o.r)
	defer runs.Delete(o.id)
	o.panicked = vlib.Catch(func() { o.out, o.err = pipe.Process(o.in) })
}

func (o *process) judge(t *rapid.T) *outcome {
	out, err, want, where := o.out, o.err, o.want, o.where
	if o.panicked != nil {
		t.Fatalf("%s: Process panicked: %v", where, o.panicked)
	}
	if !reflect.DeepEqual(o.r.trace, want.trace) {
		t.Fatalf("%s:\n ran %v\nwant %v", where, o.r.trace, want.trace)
	}
	switch {
	case want.dropped:
		if out != nil || err != nil {
			t.Fatalf("%s: dropped, but got event %v, error %v", where, vlib.OfEvent(out), err)
		}
	case want.failed != "":
		if out != nil {
			t.Fatalf("%s: failed, but got event %v (error %v)", where, vlib.OfEvent(out), err)
		}
		if err == nil {
			t.Fatalf("%s: no event, no error, want the error of %s", where, want.failed)
		}
		if !failedWith(err, want.failed, o.r.plan[want.failed]) {
			t.Fatalf("%s: got error %q, want that of %s", where, err, want.failed)
		}
	default:
		if err != nil {
			t.Fatalf("%s: got error %q, want none", where, err)
		}
		if out == nil {
			t.Fatalf("%s: got no event", where)
		}
		mark(o.m, want.trace)
		if got := vlib.OfEvent(out); !got.Equal(o.m) {
			t.Fatalf("%s: returned event\n got %v\nwant %v", where, got, o.m)
		}
	}
	return want
}

// atOnce runs some events through pipe at the same time.
func atOnce(t *rapid.T, c *vlib.Case, p *pipeModel, pipe *pipeline.Pipeline, plan map[string]act, drops bool, where string) {
	often := 30
	if vlib.AtOnce() {
		often = 3
	}
	if rapid.IntRange(0, often).Draw(t, "at once") != 2 {
		return
	}
	c.Class("events at once")
	var os []*process
	where += ", at once with others"
	for i, n := 0, rapid.IntRange(2, 5).Draw(t, "how many"); i < n; i++ {
		if i > 0 && rapid.Bool().Draw(t, "other plan") {
			plan = drawPlan(t, p, drops)
		}
		os = append(os, processOf(t, p, plan, where))
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, o := range os {
		wg.Add(1)
		go func(o *process) {
			defer wg.Done()
			<-start
			o.run(pipe)
		}(o)
	}
	close(start)
	wg.Wait()
	for _, o := range os {
		o.judge(t)
	}
}

func TestC09_Failures(t *testing.T) { orderSearch(t, false) }

func TestC10_DropCancel(t *testing.T) { orderSearch(t, true) }

func orderSearch(t *testing.T, drops bool) {
	rule := "a random pipeline of probe processors (handlers 3 levels deep, with and without ignore options) and 1 to 5 events, each with a random plan of successes, failures and missing keys; the order of calls, the result and the returned event are compared with an interpreter of the property; non-trivial: a handler ran or a failure was ignored"
	if drops {
		rule = strings.Replace(rule, "and missing keys", ", missing keys, drops and cancellations", 1)
		rule = rule[:strings.Index(rule, "non-trivial")] + "non-trivial: an event was dropped or cancelled while more processors or handlers were due, or after one that was"
	}
	vlib.Run(t, vlib.Spec{Quick: 180000, Thorough: 4500000, Rule: rule}, func(t *rapid.T, c *vlib.Case) {
		p := drawPipe(t, "pipe")
		pipe, err := pipeline.New(p.config())
		if err != nil {
			t.Fatalf("New(%v): %v", p, err)
		}
		log := p.String()
		interesting := false
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "events"); i < n; i++ {
			plan := drawPlan(t, p, drops)
			panics(t, c, p, pipe, plan, log)
			o := processOne(t, p, pipe, plan, log)
			log += "; " + planText(p, plan)
			if times := burst(t); times > 0 {
				log += fmt.Sprintf(" (%d times)", times)
				for i := 0; i < times; i++ {
					o := processOf(t, p, plan, log)
					o.run(pipe)
					o.judge(t)
				}
				c.Class("burst")
			}
			atOnce(t, c, p, pipe, plan, drops, log)
			for k := range o.classes {
				c.Class(k)
			}
			c.ClassIf(o.failed != "", "failed")
			c.ClassIf(o.dropped, "dropped")
			c.ClassIf(o.canceled, "cancelled")
			switch {
			case drops:
				interesting = interesting || (o.dropped || o.canceled) && (len(o.trace) < len(p.all()) || i > 0)
			default:
				interesting = interesting || len(o.classes) > 0
			}
		}
		if interesting {
			c.NonTrivial(log)
		}
	})
}

// counts are the four counters of a processor.
type counts struct{ received, sent, failed, dropped float64 }

var metricNames = map[string]func(*counts) *float64{
	"es_component_received_events_total":  func(c *counts) *float64 { return &c.received },
	"es_component_sent_events_total":      func(c *counts) *float64 { return &c.sent },
	"es_component_errors_total":           func(c *counts) *float64 { return &c.failed },
	"es_component_discarded_events_total": func(c *counts) *float64 { return &c.dropped },
}

type metricKey struct{ id, typ string }

// gather reads all counters of a registry.
func gather(families []*dto.MetricFamily) (map[metricKey]*counts, error) {
	got := map[metricKey]*counts{}
	seen := map[metricKey]int{}
	for _, f := range families {
		field, ok := metricNames[f.GetName()]
		if !ok {
			continue
		}
		for _, m := range f.GetMetric() {
			var k metricKey
			for _, l := range m.GetLabel() {
				switch l.GetName() {
				case "component_id":
					k.id = l.GetValue()
				case "component_type":
					k.typ = l.GetValue()
				}
			}
			if m.Counter == nil {
				return nil, fmt.Errorf("%s is not a counter", f.GetName())
			}
			if got[k] == nil {
				got[k] = &counts{}
			}
			*field(got[k]) += m.GetCounter().GetValue()
			seen[k]++
		}
	}
	for k, n := range seen {
		if n != 4 {
			return nil, fmt.Errorf("%v has %d counters", k, n)
		}
	}
	return got, nil
}

// checkCounts compares counters with the models.
func checkCounts(got map[metricKey]*counts, models ...*pipeModel) error {
	total := 0
	for _, p := range models {
		for _, n := range p.all() {
			total++
			g := got[metricKey{n.id, n.typ}]
			if g == nil {
				return fmt.Errorf("no counters for %s (%s)", n.id, n.name)
			}
			if g.received != float64(n.received) || g.dropped != float64(n.dropped) ||
				g.failed < float64(n.failedLo) || g.failed > float64(n.failedHi) || g.sent != g.received-g.failed-g.dropped {
				return fmt.Errorf("counters of %s (%s): received %v, sent %v, failed %v, dropped %v; want received %d, failed %d to %d, dropped %d",
					n.id, n.name, g.received, g.sent, g.failed, g.dropped, n.received, n.failedLo, n.failedHi, n.dropped)
			}
		}
	}
	if len(got) != total {
		return errors.New("there are counters of processors that do not exist")
	}
	return nil
}

func TestC11_Metrics(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 24000, Thorough: 500000,
		Rule: "two or three random pipelines of probe processors (two with the same definition, under one registry per pipeline and one for pipelines with different ids) and 1 to 12 events with random plans over them; the registered counters are gathered and compared with an interpreter after every few events; non-trivial: at least two of failed, ignored, recovered and dropped happened, at more than one processor",
	}, func(t *rapid.T, c *vlib.Case) {
		models := []*pipeModel{drawPipe(t, "one"), drawPipe(t, "two.x")}
		if rapid.Bool().Draw(t, "twin") {
			twin := &pipeModel{id: "one"}
			var dup func(ns []*node) []*node
			dup = func(ns []*node) []*node {
				var out []*node
				for _, n := range ns {
					d := *n
					d.handlers = dup(n.handlers)
					out = append(out, &d)
				}
				return out
			}
			twin.procs, twin.fail = dup(models[0].procs), dup(models[0].fail)
			models = append(models, twin)
			c.Class("twin")
		}
		var pipes []*pipeline.Pipeline
		var regs []*prometheus.Registry
		common := prometheus.NewRegistry()
		for i, p := range models {
			pipe, err := pipeline.New(p.config())
			if err != nil {
				t.Fatalf("New(%v): %v", p, err)
			}
			pipes = append(pipes, pipe)
			reg := prometheus.NewRegistry()
			for _, col := range pipe.Metrics() {
				if err := reg.Register(col); err != nil {
					t.Fatalf("registering the metrics of %v: %v", p, err)
				}
				if i < 2 {
					if err := common.Register(col); err != nil {
						t.Fatalf("registering the metrics of %v and %v together: %v", models[0], models[1], err)
					}
				}
			}
			regs = append(regs, reg)
		}
		log := fmt.Sprint(models)
		compare := func() {
			// Asking again returns metrics that count the same.
			if k := rapid.IntRange(0, 2*len(pipes)).Draw(t, "ask"); k < len(pipes) {
				regs[k] = prometheus.NewRegistry()
				for _, col := range pipes[k].Metrics() {
					if err := regs[k].Register(col); err != nil {
						t.Fatalf("%s: asked again, registering the metrics of %v: %v", log, models[k], err)
					}
				}
			}
			for i, reg := range append(append([]*prometheus.Registry(nil), regs...), common) {
				families, err := reg.Gather()
				if err != nil {
					t.Fatalf("%s: Gather: %v", log, err)
				}
				got, err := gather(families)
				if err != nil {
					t.Fatalf("%s: %v", log, err)
				}
				ms := models[:2]
				if i < len(models) {
					ms = models[i : i+1]
				}
				if err := checkCounts(got, ms...); err != nil {
					t.Fatalf("%s: %v", log, err)
				}
			}
		}
		if rapid.Bool().Draw(t, "before") {
			compare() // All zero.
		}
		kinds := map[string]bool{}
		ran := map[string]bool{}
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "events"); i < n; i++ {
			k := rapid.IntRange(0, len(models)-1).Draw(t, "pipe")
			plan := drawPlan(t, models[k], true)
			o := processOne(t, models[k], pipes[k], plan, log)
			log += fmt.Sprintf("; %d:%s", k, planText(models[k], plan))
			if times := burst(t); times > 0 {
				log += fmt.Sprintf(" (%d times)", times)
				for i := 0; i < times; i++ {
					o := processOf(t, models[k], plan, log)
					o.run(pipes[k])
					o.judge(t)
				}
				c.Class("burst")
			}
			atOnce(t, c, models[k], pipes[k], plan, true, log)
			for cl := range o.classes {
				c.Class(cl)
				if strings.HasPrefix(cl, "drop") || strings.Contains(cl, "recovered") || strings.Contains(cl, "ignored") {
					kinds[strings.Fields(cl)[0]] = true
				}
			}
			if o.failed != "" {
				kinds["failed"] = true
				c.Class("failed")
			}
			for _, name := range o.trace {
				ran[name] = true
			}
			if rapid.IntRange(0, 3).Draw(t, "gather") == 3 {
				compare()
			}
		}
		compare()
		if len(kinds) >= 2 && len(ran) > 1 {
			c.NonTrivial(log)
		}
	})
}

// burst gives how often an event comes again, mostly never.
func burst(t *rapid.T) int {
	if n, ok := vlib.NovelSize(t, 60, 3000); ok {
		return n
	}
	if rapid.IntRange(0, 4000).Draw(t, "burst") == 3217 {
		return 300
	}
	return 0
}
