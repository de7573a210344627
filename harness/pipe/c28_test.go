package pipe

import (
	"encoding/json"
	"fmt"
	"sync"
	"testing"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	"verif/harness/vlib"
)

// TestC28_Builders: goroutines that share one definition.
func TestC28_Builders(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 8000, Thorough: 160000,
		Rule: "a random definition of built-in processors from which 2 to 5 goroutines at the same time decode it, encode it, build a pipeline of their own from it and send events through that, read the metrics and the id; all results are those of a goroutine alone and the definition stays as it was; non-trivial: two processors and an event that was returned",
	}, func(t *rapid.T, c *vlib.Case) {
		conf := drawBuiltinConfig(t)
		text := configText(conf)
		yml, err := yaml.Marshal(asMap(t, text))
		if err != nil {
			t.Fatalf("harness: %v", err)
		}
		var ins []*vlib.MV
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "events"); i < n; i++ {
			ins = append(ins, drawEventFor(t))
		}
		type seen struct {
			text, again string
			results     []result
			metrics     int
			err         error
		}
		do := func(conf *pipeline.Config, from int) (s seen) {
			switch from {
			case 1:
				s.err = json.Unmarshal([]byte(text), &conf)
			case 2:
				s.err = yaml.Unmarshal(yml, &conf)
			}
			if s.err != nil {
				return s
			}
			s.text = configText(conf)
			pipe, err := pipeline.New(conf)
			if err != nil {
				s.err = err
				return s
			}
			s.metrics = len(pipe.Metrics())
			for _, in := range ins {
				r := resultOf(pipe.Process(in.Event()))
				if r.evt != nil {
					r.evt = asDoubles(r.evt)
				}
				s.results = append(s.results, r)
			}
			s.again = configText(conf) + pipe.ID()
			return s
		}
		froms := make([]int, rapid.IntRange(2, 5).Draw(t, "goroutines"))
		for i := range froms {
			froms[i] = rapid.IntRange(0, 2).Draw(t, "from")
		}
		got := make([]seen, len(froms))
		panics := make([]interface{}, len(froms))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range froms {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				panics[i] = vlib.Catch(func() {
					own := conf
					if froms[i] > 0 {
						own = nil
					}
					got[i] = do(own, froms[i])
				})
			}(i)
		}
		close(start)
		wg.Wait()
		want := do(conf, 0)
		if want.err != nil {
			t.Fatalf("%s: %v", text, want.err)
		}
		for i := range got {
			if panics[i] != nil {
				t.Fatalf("%s: panic in goroutine %d: %v", text, i, panics[i])
			}
			g := got[i]
			same := g.err == nil && g.text == want.text && g.again == want.again && g.metrics == want.metrics && len(g.results) == len(want.results)
			for k := 0; same && k < len(g.results); k++ {
				same = g.results[k].equal(want.results[k])
			}
			if !same {
				t.Fatalf("%s on %v: goroutine %d of %v\n got %+v\nalone %+v", text, ins, i, froms, g, want)
			}
		}
		if now := configText(conf); now != text {
			t.Fatalf("%s became %s", text, now)
		}
		returned := false
		for _, r := range want.results {
			returned = returned || r.evt != nil
		}
		c.ClassIf(returned, "returned events")
		if returned && len(conf.Processors) > 1 {
			c.NonTrivial(fmt.Sprintf("%s on %v, %v", text, ins, froms))
		}
	})
}

func asMap(t *rapid.T, text string) map[string]interface{} {
	var m map[string]interface{}
	if err := json.Unmarshal([]byte(text), &m); err != nil {
		t.Fatalf("harness: %v", err)
	}
	return m
}
