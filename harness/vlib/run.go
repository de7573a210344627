// Package vlib holds what all checks share: the runner that counts and
// classifies cases, the model of event values, generators and the reference
// models of processors.
package vlib

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

// Spec describes one generated-input search.
type Spec struct {
	Quick    int    // Cases in the quick tier, over all shards.
	Thorough int    // Cases in the thorough tier, over all shards.
	Rule     string // How cases are made and which are non-trivial.
}

// Case collects what one generated case was.
type Case struct {
	classes map[string]bool
	hash    uint64
	trivial bool
	sample  string
	set     bool
}

// Class counts the case as belonging to a class.
func (c *Case) Class(names ...string) {
	for _, n := range names {
		if n != "" {
			c.classes[n] = true
		}
	}
}

// ClassIf counts the case as belonging to a class if cond holds.
func (c *Case) ClassIf(cond bool, name string) {
	if cond {
		c.classes[name] = true
	}
}

// NonTrivial marks the case as non-trivial; text identifies it (for counting
// the distinct ones) and is a candidate for a sample.
func (c *Case) NonTrivial(text string) {
	h := fnv.New64a()
	h.Write([]byte(text))
	c.hash = h.Sum64()
	c.set = true
	if len(text) > 600 {
		text = text[:600] + "..."
	}
	c.sample = text
}

func init() {
	// Results must not depend on the machine's time zone.
	time.Local = time.FixedZone("Verif", 5*3600+45*60)
}

type stats struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Hashes      []string       `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Skipped     int            `json:"skipped"`
	Failed      bool           `json:"failed"`

	mu     sync.Mutex
	hashes map[uint64]struct{}
}

// Thorough says whether this is the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Pick returns q in the quick and t in the thorough tier.
func Pick(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

func shards() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SHARDS"))
	if n < 1 {
		n = 1
	}
	return n
}

// Together says how many searches of the same test run at the same time, in
// the run that looks for state which they share. They then run few cases, of
// their own each, under the race detector.
func Together() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_TOGETHER"))
	return n
}

// Mixed says whether different tests run at the same time.
func Mixed() bool { return os.Getenv("VERIF_MIXED") != "" }

// AtOnce says whether any searches run at the same time.
func AtOnce() bool { return Together() > 0 || Mixed() }

var mixedChecks sync.Once

// Of every this many cases of a whole run, each of the searches that run
// together runs one.
const togetherShare = 80

// Shard returns the number of this shard.
func Shard() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	return n
}

var watch struct {
	sync.Mutex
	start time.Time
	name  string
	once  sync.Once
}

// One case takes milliseconds. One that is not over after hangLimit is reported
// as a hang, and one that makes the heap this large as unbounded memory.
const (
	hangLimit = 150 * time.Second
	heapLimit = 6 << 30
)

func watchdog() {
	const tick = 250 * time.Millisecond
	var last time.Time
	// Ticks are counted: that the machine stood still is not a hang.
	ticks := 0
	for {
		time.Sleep(tick)
		watch.Lock()
		start, name := watch.start, watch.name
		watch.Unlock()
		ticks++
		if start != last {
			last, ticks = start, 0
		}
		if start.IsZero() {
			continue
		}
		if time.Duration(ticks)*tick > hangLimit {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("VERIF-HANG: a case of %s did not end within %v\n%s\n", name, hangLimit, buf)
			os.Exit(9)
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > heapLimit {
			fmt.Printf("VERIF-MEMORY: a case of %s made the heap grow to %d MiB\n", name, m.HeapAlloc>>20)
			os.Exit(9)
		}
	}
}

func plainNull() bool {
	return event.NullValue != nil && reflect.DeepEqual(*event.NullValue, event.Value{Type: event.NullType})
}

// restoreNull keeps one case's damage from the next.
func restoreNull() {
	if event.NullValue != nil && !plainNull() {
		*event.NullValue = event.Value{Type: event.NullType}
	}
}

// Run searches for a counterexample to f.
func Run(t *testing.T, spec Spec, f func(rt *rapid.T, c *Case)) {
	t.Helper()
	n := spec.Quick
	if Thorough() {
		n = spec.Thorough
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" { // For development.
		x, err := strconv.ParseFloat(s, 64)
		if err != nil {
			t.Fatal(err)
		}
		n = int(float64(n) * x)
	}
	together := Together()
	if together > 0 {
		n = (n + togetherShare - 1) / togetherShare
		if n < 20 {
			n = 20
		}
	} else {
		n = (n + shards() - 1) / shards()
	}
	if n < 1 {
		n = 1
	}
	set := func() {
		if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
			t.Fatal(err)
		}
	}
	if Mixed() {
		t.Parallel()
		n = Pick(250, 4000)
		mixedChecks.Do(set)
	} else {
		set()
	}
	watch.once.Do(func() {
		debug.SetMaxStack(512 << 20)
		go watchdog()
	})

	st := &stats{Test: t.Name(), Rule: spec.Rule, Classes: map[string]int{}, hashes: map[uint64]struct{}{}}
	defer func() {
		watch.Lock()
		watch.start = time.Time{}
		watch.Unlock()
		st.Failed = t.Failed()
		st.write()
	}()

	one := func(rt *rapid.T) {
		watch.Lock()
		watch.start, watch.name = time.Now(), t.Name()
		watch.Unlock()

		c := &Case{classes: map[string]bool{}}
		func() {
			defer restoreNull()
			f(rt, c)
			if !plainNull() {
				rt.Fatalf("the null value that all decoded events share was changed to %+v", *event.NullValue)
			}
		}()

		st.mu.Lock()
		defer st.mu.Unlock()
		st.Evaluations++
		for k := range c.classes {
			st.Classes[k]++
		}
		if c.set {
			st.Classes["nontrivial"]++
			if _, found := st.hashes[c.hash]; !found {
				st.hashes[c.hash] = struct{}{}
				k := len(st.hashes)
				// The 1st, 10th, 100th, ... and some in between.
				if k == 1 || k == 7 || k == 50 || k == 400 || k == 3000 {
					st.Samples = append(st.Samples, c.sample)
				}
			}
		}
	}
	if Mixed() {
		st.Test += " mixed"
		st.Rule = "the cases of that test, at the same time as those of other tests in one process under the race detector"
	}
	if together == 0 {
		rapid.Check(t, one)
		return
	}
	st.Test += " together"
	st.Rule = fmt.Sprintf("the same, in %d searches at the same time in one process under the race detector", together)
	// Parallel subtests end before the outer Run returns.
	t.Run("together", func(t *testing.T) {
		for i := 0; i < together; i++ {
			i := i
			t.Run(strconv.Itoa(i), func(t *testing.T) {
				t.Parallel()
				rapid.Check(t, func(rt *rapid.T) {
					for k := 0; k < i; k++ { // Other cases than the rest.
						rapid.Uint64().Draw(rt, "skew")
					}
					one(rt)
				})
			})
		}
	})
}

func (st *stats) write() {
	dir := os.Getenv("VERIF_STATS_DIR")
	if dir == "" {
		fmt.Printf("%s: %d cases, %d distinct non-trivial", st.Test, st.Evaluations, len(st.hashes))
		var names []string
		for k := range st.Classes {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			fmt.Printf(", %s %.1f%%", k, 100*float64(st.Classes[k])/float64(st.Evaluations))
		}
		fmt.Println()
		if os.Getenv("VERIF_SAMPLES") != "" {
			for _, s := range st.Samples {
				fmt.Println("   ", s)
			}
		}
		return
	}
	for h := range st.hashes {
		st.Hashes = append(st.Hashes, strconv.FormatUint(h, 36))
	}
	data, err := json.Marshal(st)
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, fmt.Sprintf("%s-%d.json", strings.ReplaceAll(filepath.Base(st.Test), " ", "-"), Shard())), data, 0o644)
	}
	if err != nil {
		fmt.Println("VERIF-ERROR: cannot write statistics:", err)
		os.Exit(8)
	}
}

// Catch calls f and returns what it panicked with, or nil.
func Catch(f func()) (p interface{}) {
	ok := false
	defer func() {
		if !ok {
			p = recover()
			if p == nil {
				p = "panic(nil) or runtime.Goexit"
			}
		}
	}()
	f()
	ok = true
	return nil
}

// NoPanic calls f, and fails the case if it panics.
func NoPanic(rt *rapid.T, what string, f func()) {
	if p := Catch(f); p != nil {
		rt.Fatalf("%s panicked: %v", what, p)
	}
}
