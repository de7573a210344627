package pipe

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	"verif/harness/vlib"
)

// job is one event for one new pipeline.
type job struct {
	Config string
	Event  string
}

func (j job) run() string {
	var conf *pipeline.Config
	if err := json.Unmarshal([]byte(j.Config), &conf); err != nil {
		return "config: " + err.Error()
	}
	e := event.New()
	if err := json.Unmarshal([]byte(j.Event), e); err != nil {
		return "event: " + err.Error()
	}
	pipe, err := pipeline.New(conf)
	if err != nil {
		return "New: " + err.Error()
	}
	return resultOf(pipe.Process(e)).String()
}

// TestMain runs jobs from standard input if it is told to.
func TestMain(m *testing.M) {
	if os.Getenv("VERIF_JOBS") != "" {
		var jobs []job
		if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
			panic(err)
		}
		var out []string
		for _, j := range jobs {
			out = append(out, j.run())
		}
		data, err := json.Marshal(out)
		if err != nil {
			panic(err)
		}
		os.Stdout.Write(data)
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// TestC12_Process: what this process did before does not matter either.
func TestC12_Process(t *testing.T) {
	self, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	vlib.Run(t, vlib.Spec{
		Quick: 320, Thorough: 12000,
		Rule: "10 to 40 jobs of a random built-in pipeline and an event (many with like texts of equal length) run here, after everything that ran before, and in a new process in another order; each job gives the same result in both; non-trivial: a job's pipeline converts, appends or copies",
	}, func(t *rapid.T, c *vlib.Case) {
		var jobs []job
		var confs []string
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "configs"); i < n; i++ {
			confs = append(confs, configText(drawBuiltinConfig(t)))
		}
		text := ""
		for i, n := 0, rapid.IntRange(10, 40).Draw(t, "jobs"); i < n; i++ {
			m := vlib.MObj(nil)
			for k, n := 0, rapid.IntRange(1, 5).Draw(t, "fields"); k < n; k++ {
				v := vlib.MStr(rapid.SampledFrom(likeTexts).Draw(t, "s"))
				if rapid.IntRange(0, 3).Draw(t, "other") == 3 {
					v = vlib.Value(vlib.ValueOpt{Names: vlib.NonEmpty, Depth: 2, Width: 3, NoTime: true}).Draw(t, "v")
				}
				m.PutPath(pathOf(drawField(t, "field")), v, true)
			}
			data, err := json.Marshal(m.Plain())
			if err != nil {
				t.Fatalf("harness: %v", err)
			}
			j := job{Config: confs[rapid.IntRange(0, len(confs)-1).Draw(t, "config")], Event: string(data)}
			text += j.Config + " "
			jobs = append(jobs, j)
		}
		order := rapid.Permutation(indexes(len(jobs))).Draw(t, "order")
		if rapid.Bool().Draw(t, "reverse") {
			for i := range order {
				order[i] = len(order) - 1 - i
			}
		}
		var there []job
		for _, k := range order {
			there = append(there, jobs[k])
		}
		in, err := json.Marshal(there)
		if err != nil {
			t.Fatalf("harness: %v", err)
		}
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(), "VERIF_JOBS=1", "GORACE=atexit_sleep_ms=0")
		cmd.Stdin = bytes.NewReader(in)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		data, err := cmd.Output()
		var out []string
		if err == nil {
			err = json.Unmarshal(data, &out)
		}
		if err != nil || len(out) != len(jobs) {
			t.Fatalf("%s in a new process: %v\n%s\n%s", in, err, data, stderr.String())
		}
		for i, k := range order {
			var here string
			if p := vlib.Catch(func() { here = jobs[k].run() }); p != nil {
				here = fmt.Sprint("panic ", p)
			}
			// Through JSON, as there.
			data, _ := json.Marshal(here)
			var same string
			_ = json.Unmarshal(data, &same)
			if same != out[i] {
				t.Fatalf("%s on %s:\nhere                   %s\nin a new process (%2d.) %s", jobs[k].Config, jobs[k].Event, here, i+1, out[i])
			}
		}
		if strings.Contains(text, "case") || strings.Contains(text, "copy_from") || strings.Contains(text, "append") {
			c.NonTrivial(string(in))
		}
	})
}

func indexes(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// likeTexts share starts, ends and lengths.
var likeTexts = []string{
	"Text", "Tex7", "text", "TEXT", "x", "X", "ÄÖü", "ÄÖÜ",
	"A Long Text With The Same Start 1", "A Long Text With The Same Start 2", "a Long Text With The Same Start 2",
	"1 Long Text With The Same End", "2 Long Text With The Same End", "3 LONG TEXT WITH THE SAME END",
}
