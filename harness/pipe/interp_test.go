package pipe

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	"verif/harness/vlib"
)

// node is the model of one processor of a pipeline.
type node struct {
	name          string // Unique in the pipeline.
	typ           string
	id            string // Position in the pipeline.
	depth         int    // 0 for processors and the pipeline's handlers.
	ignoreMissing bool
	ignoreFailure bool
	handlers      []*node
	configID      string // The id option, which has no effect.

	received, dropped  int
	failedLo, failedHi int
}

// pipeModel is the model of a pipeline.
type pipeModel struct {
	id    string
	procs []*node
	fail  []*node
}

func (n *node) options() map[string]interface{} {
	o := map[string]interface{}{"name": n.name}
	if n.ignoreMissing {
		o["ignore_missing"] = true
	}
	if n.ignoreFailure {
		o["ignore_failure"] = true
	}
	return o
}

func configs(nodes []*node) []pipeline.ProcessorConfig {
	var out []pipeline.ProcessorConfig
	for _, n := range nodes {
		out = append(out, pipeline.ProcessorConfig{n.typ: &pipeline.ProcessorOptionConfig{
			ID: n.configID, Config: n.options(), OnFailure: configs(n.handlers),
		}})
	}
	return out
}

func (p *pipeModel) config() *pipeline.Config {
	return &pipeline.Config{ID: p.id, Processors: configs(p.procs), OnFailure: configs(p.fail)}
}

func (p *pipeModel) all() []*node {
	var out []*node
	var walk func(ns []*node)
	walk = func(ns []*node) {
		for _, n := range ns {
			out = append(out, n)
			walk(n.handlers)
		}
	}
	walk(p.procs)
	walk(p.fail)
	return out
}

func (p *pipeModel) String() string {
	var sb strings.Builder
	var list func(ns []*node)
	list = func(ns []*node) {
		sb.WriteByte('[')
		for i, n := range ns {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(n.typ[len("probe_"):] + ":" + n.name)
			if n.ignoreMissing {
				sb.WriteString("?")
			}
			if n.ignoreFailure {
				sb.WriteString("!")
			}
			if len(n.handlers) > 0 {
				list(n.handlers)
			}
		}
		sb.WriteByte(']')
	}
	sb.WriteString(p.id)
	list(p.procs)
	sb.WriteString(" on_failure ")
	list(p.fail)
	return sb.String()
}

var longID = strings.Repeat("long id ", 50)

// drawPipe generates a pipeline of probes.
func drawPipe(t *rapid.T, id string) *pipeModel {
	k := 0
	budget, levels := 24, 3
	if rapid.IntRange(0, 39).Draw(t, "deep") == 39 {
		levels = 9
	}
	if n, ok := vlib.NovelSize(t, 20, 40); ok {
		levels = n
		budget += n
	}
	var list func(base string, depth, max int) []*node
	list = func(base string, depth, max int) []*node {
		var out []*node
		n := rapid.IntRange(0, max).Draw(t, "len")
		if m, ok := vlib.NovelSize(t, 30, 200); ok {
			n = m
			budget += n
		}
		for i := 0; i < n && budget > 0; i++ {
			budget--
			nd := &node{
				name:  "p" + strconv.Itoa(k),
				typ:   rapid.SampledFrom([]string{"probe_both", "probe_both", "probe_both", "probe_miss", "probe_fail", "probe_bare", "probe_bare"}).Draw(t, "type"),
				depth: depth,
			}
			k++
			nd.id = fmt.Sprintf("%s[%d].%s", base, i, nd.typ)
			if nd.typ == "probe_both" || nd.typ == "probe_miss" {
				nd.ignoreMissing = rapid.IntRange(0, 2).Draw(t, "ignore_missing") == 2
			}
			if nd.typ == "probe_both" || nd.typ == "probe_fail" {
				nd.ignoreFailure = rapid.IntRange(0, 3).Draw(t, "ignore_failure") == 3
			}
			if rapid.IntRange(0, 4).Draw(t, "id") == 4 {
				nd.configID = vlib.Word(t, "config id", []string{"x", "y", "a.b", "p0", "Ä \t", "p.processors[0].probe_both", longID})
			}
			if depth < levels && max < 10 && (rapid.IntRange(0, 1).Draw(t, "handlers") == 1 || levels > 3) {
				nd.handlers = list(nd.id+".on_failure", depth+1, 3)
			}
			out = append(out, nd)
		}
		return out
	}
	p := &pipeModel{id: id}
	max := 5
	if rapid.IntRange(0, 14).Draw(t, "long") == 14 {
		max = 13
		if rapid.IntRange(0, 9).Draw(t, "longer") == 9 {
			max, budget = 130, 150
		}
	}
	p.procs = list(id+".processors", 0, max)
	p.fail = list(id+".on_failure", 0, 3)
	return p
}

// drawPlan generates what the probes do with one event. Handlers fail often
// enough to reach deep ones.
func drawPlan(t *rapid.T, p *pipeModel, drops bool) map[string]act {
	plan := map[string]act{}
	mode := rapid.IntRange(0, 3).Draw(t, "mode")
	for _, n := range p.all() {
		k := rapid.IntRange(0, 9).Draw(t, "act")
		var a act
		switch {
		case k < 5-mode:
			a = actOK
		case drops && k == 9:
			a = rapid.SampledFrom([]act{actDrop, actDropFail, actDropMissing, actCancel, actCancel, actCancel, actCancelDrop, actDropCancel}).Draw(t, "drop")
		case k == 8 || k == 7 && mode > 1:
			a = actMissing
			if rapid.Bool().Draw(t, "wrap") {
				a = actMissingWrap
			}
			if rapid.IntRange(0, 5).Draw(t, "among") == 5 {
				a = rapid.SampledFrom([]act{actMissingDeep, actMissingSame}).Draw(t, "how")
			}
		default:
			a = actFail
			if rapid.IntRange(0, 3).Draw(t, "wrap") == 3 {
				a = rapid.SampledFrom([]act{actFailWrap, actFailKnown, actFailLike, actFailSame, actFailSame}).Draw(t, "how")
			}
		}
		plan[n.name] = a
	}
	return plan
}

// outcome is what the model says of one event.
type outcome struct {
	trace    []string
	dropped  bool
	canceled bool
	failed   string // The probe whose failure is returned, or "".
	classes  map[string]bool
}

// interpret runs the model. It follows the statements of C09, C10 and C11 and
// nothing else.
func (p *pipeModel) interpret(plan map[string]act) *outcome {
	o := &outcome{classes: map[string]bool{}}
	ended := func() bool { return o.dropped || o.canceled }

	// list runs processors up to the first that fails, returns its failure.
	var one func(n *node) string
	list := func(ns []*node) string {
		for _, n := range ns {
			if f := one(n); f != "" {
				return f
			}
			if ended() {
				break
			}
		}
		return ""
	}
	one = func(n *node) string {
		a := plan[n.name]
		o.trace = append(o.trace, n.name)
		n.received++
		if n.depth > 0 {
			o.classes[fmt.Sprintf("handler at depth %d", n.depth)] = true
		}
		if a.drops() {
			o.dropped = true
			n.dropped++
			o.classes[fmt.Sprintf("drop at depth %d", n.depth)] = true
			return ""
		}
		if a.cancels() {
			o.canceled = true
			o.classes[fmt.Sprintf("cancel at depth %d", n.depth)] = true
			return ""
		}
		if !a.fails() {
			return ""
		}
		if a.missing() && n.ignoreMissing {
			o.classes["missing ignored"] = true
			return ""
		}
		failure := n.name
		if len(n.handlers) > 0 {
			failure = list(n.handlers)
			if ended() {
				// The event is over. Whether this processor's failure counts
				// as one is not said.
				n.failedHi++
				return ""
			}
			if failure == "" {
				o.classes["recovered by handlers"] = true
				return ""
			}
			o.classes["handler failed"] = true
		}
		if n.ignoreFailure {
			o.classes["failure ignored"] = true
			return ""
		}
		n.failedLo++
		n.failedHi++
		return failure
	}

	o.failed = list(p.procs)
	if o.failed != "" && len(p.fail) > 0 {
		o.classes["pipeline handlers ran"] = true
		o.failed = list(p.fail)
		if o.failed == "" && !ended() {
			o.classes["recovered by pipeline handlers"] = true
		}
	}
	return o
}

// planText describes a plan.
func planText(p *pipeModel, plan map[string]act) string {
	var parts []string
	for _, n := range p.all() {
		if plan[n.name] != actOK {
			parts = append(parts, n.name+"="+plan[n.name].String())
		}
	}
	return strings.Join(parts, ",")
}

// pathOf returns the path of field names in a dotted key without escapes.
func pathOf(key string) []string { return strings.Split(key, ".") }

// mark adds to m what the probes leave in an event.
func mark(m *vlib.MV, trace []string) {
	for i, n := range trace {
		m.PutPath([]string{"trace", n}, vlib.MInt(int64(i+1)), true)
	}
}
