package pipe

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	"verif/harness/vlib"
)

// libResult is what the library makes of an event in a fresh pipeline.
type libResult struct {
	skip    bool // Not defined: the library panics, or the event is dropped or null.
	stage   string
	err     string
	evt     *vlib.MV
	badJSON bool // The result has no JSON form; err says so.
}

func libraryLoad(def []byte) (pipe *pipeline.Pipeline, r libResult) {
	if p := vlib.Catch(func() {
		var c *pipeline.Config
		if err := json.Unmarshal(def, &c); err != nil {
			r = libResult{stage: "definition", err: err.Error()}
			return
		}
		var err error
		if pipe, err = pipeline.New(c); err != nil {
			r = libResult{stage: "create", err: err.Error()}
		}
	}); p != nil {
		return nil, libResult{skip: true}
	}
	return pipe, r
}

func libraryProcess(def, evt []byte) (r libResult) {
	pipe, r := libraryLoad(def)
	if r.skip || r.err != "" {
		return r
	}
	if p := vlib.Catch(func() {
		var e *event.Event
		if err := json.Unmarshal(evt, &e); err != nil {
			r = libResult{stage: "event", err: err.Error()}
			return
		}
		if e == nil {
			r.skip = true
			return
		}
		out, err := pipe.Process(e)
		if err != nil {
			r = libResult{stage: "process", err: err.Error()}
			return
		}
		if out == nil {
			r.skip = true
			return
		}
		if _, err := json.Marshal(out); err != nil {
			r = libResult{stage: "result", err: err.Error(), badJSON: true}
			return
		}
		r.evt = asJSON(vlib.OfEvent(out))
	}); p != nil {
		return libResult{skip: true}
	}
	return r
}

// step is one definition with the events sent to it.
type step struct {
	def    []byte
	events [][]byte
}

func edited(t *rapid.T, text []byte) []byte {
	text = append([]byte(nil), text...)
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "edits"); i < n && len(text) > 1; i++ {
		at := rapid.IntRange(0, len(text)-1).Draw(t, "at")
		switch rapid.IntRange(0, 3).Draw(t, "edit") {
		case 0:
			text[at] = rapid.SampledFrom([]byte(`"{}[]:,0 -xnt\.e`)).Draw(t, "byte")
		case 1:
			text = append(text[:at:at], text[at+1:]...)
		case 2:
			text = append(text[:at:at], append([]byte{rapid.SampledFrom([]byte(`"{}[]:,-x\`)).Draw(t, "byte")}, text[at:]...)...)
		default:
			text = text[:at+1]
		}
	}
	return text
}

func drawDefinition(t *rapid.T) []byte {
	tree := definitionTree(drawLinePipe(t))
	def, err := json.Marshal(tree)
	if err != nil {
		t.Fatal("VERIF-ERROR:", err)
	}
	switch rapid.IntRange(0, 7).Draw(t, "definition") {
	case 0:
		return edited(t, def)
	case 1:
		return []byte(rapid.SampledFrom([]string{"null", "{}", "", " ", "[]", `"x"`, `{"id":""}`, `{"id":"x"}`, `{"id":5}`, `{"id":"x","processors":{}}`, `{"id":"x","processors":[{}]}`,
			`{"id":"x","processors":[{"nope":{}}]}`, `{"id":"x","processors":[{"lowercase":{}}]}`, `{"id":"x","processors":[{"lowercase":{"field":"a"},"uppercase":{"field":"a"}}]}`,
			`{"id":"x","processors":[{"lowercase":null}]}`, `{"id":"x","on_failure":[{"remove":{}}]}`, `{"id":"x","processors":[{"line_bare":{"name":"a","on_failure":[{"nope":{}}]}}]}`,
			`{"id":"x","processors":[{"set":{"target_field":"a","value":[1,{"b":null}]}}]}`, `{"id":"x","processors":[{"lowercase":{"field":"a","ignore_missing":"maybe"}}]}`,
			`{"id":"x","processors":[{"community_id":{}}]}`, `{"id":"x","unknown":1}`}).Draw(t, "fixed"))
	}
	return def
}

func drawEventText(t *rapid.T) []byte {
	j := &vlib.JSONText{T: t, Depth: 3}
	text, _ := j.Object()
	text = strings.TrimLeft(text, " \t\r\n")
	var words []string
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "words"); i < n; i++ {
		words = append(words, "p"+rapid.SampledFrom([]string{"a", "a", "b", "b", "c", "d"}).Draw(t, "probe")+"="+
			rapid.SampledFrom([]string{"fail", "fail", "missing", "x", "ÄB", "cancel"}).Draw(t, "act"))
	}
	quoted, err := json.Marshal(strings.Join(words, " "))
	if err != nil {
		t.Fatal("VERIF-ERROR:", err)
	}
	comma := ","
	if strings.Trim(text, "{} \t\r\n") == "" {
		comma = ""
	}
	if rapid.IntRange(0, 300).Draw(t, "big") == 217 {
		n := vlib.Size(t, "size", []int{4000, 32760, 65530, 131070, 1 << 20}, 1048576)
		text = `{"big":"` + strings.Repeat(rapid.SampledFrom([]string{"x", "xyz ", "ä"}).Draw(t, "of"), n) + `"` + comma + text[1:]
		comma = ","
	}
	text = `{"event":{"original":` + string(quoted) + `}` + comma + text[1:]
	switch rapid.IntRange(0, 9).Draw(t, "event") {
	case 0:
		return edited(t, []byte(text))
	case 1:
		return []byte(rapid.SampledFrom([]string{"{}", "", "[]", "5", `"x"`, "{", `{"a":1}x`, " {\"a\":\"B\"}\n", `{"a":NaN}`, `{"a":"\ud800"}`, `{"a":1e400}`, `{"a":"B","a":"C"}`}).Draw(t, "fixed"))
	}
	return []byte(text)
}

// drawSteps generates what is sent to a front end.
func drawSteps(t *rapid.T) []step {
	steps := make([]step, rapid.IntRange(1, 4).Draw(t, "definitions"))
	for i := range steps {
		if i > 0 && rapid.IntRange(0, 3).Draw(t, "again") == 0 {
			steps[i].def = steps[rapid.IntRange(0, i-1).Draw(t, "which")].def
		} else {
			steps[i].def = drawDefinition(t)
		}
		steps[i].events = make([][]byte, rapid.IntRange(0, 4).Draw(t, "events"))
		for k := range steps[i].events {
			steps[i].events[k] = drawEventText(t)
		}
	}
	return steps
}

// sendable says whether a text can be passed and is within the property.
func sendable(text []byte) bool {
	return !bytes.ContainsAny(text, "\x00\x01") && bytes.Equal(text, []byte(string([]rune(string(text))))) && !bytes.Contains(text, []byte("__proto__"))
}

// hasBOM finds U+FEFF: Go's own wasm_exec.js strips one at the start of a
// string that goes to JavaScript.
func hasBOM(text []byte) bool {
	return bytes.Contains(text, []byte("\ufeff")) || bytes.Contains(bytes.ToLower(text), []byte("feff"))
}

// sameError says whether got is the library's error text, which may depend on
// the order of maps.
func sameError(got string, again func() libResult, first libResult, suffix bool) bool {
	for i := 0; i < 60; i++ {
		if got == first.err || suffix && strings.HasSuffix(got, first.err) {
			return true
		}
		first = again()
	}
	return false
}

func TestC26_CLibrary(t *testing.T) {
	lib, driver := program(t, "libsawmill.so"), program(t, "cdriver")
	vlib.Run(t, vlib.Spec{Quick: 4000, Thorough: 60000,
		Rule: "A C program loads the built shared library and sends it random definitions (valid, edited, invalid) and events; each result is compared with a fresh pipeline of the Go library. Non-trivial: at least two definitions loaded, and an event and an error among the results. Distinct by what is sent."}, func(t *rapid.T, c *vlib.Case) {
		type sent struct {
			kind      byte
			def, data []byte
			due       libResult
		}
		var list []sent
		var stdin bytes.Buffer
		send := func(s sent) {
			list = append(list, s)
			fmt.Fprintf(&stdin, "%c%d\n%s", s.kind, len(s.data), s.data)
		}
		loaded, events, errs := 0, 0, 0
		var good []byte // The last definition that was loaded.
		// After a definition whose text is unusable. What happens after one that
		// cannot be built, or before the first, is a finding: see
		// TestC26_Unloaded.
		early := func() {
			if e := drawEventText(t); sendable(e) {
				due := libResult{stage: "unloaded", evt: libraryProcess(good, e).evt}
				if !libraryProcess(good, e).skip {
					send(sent{'P', good, e, due})
					c.Class("event after a bad definition")
				}
			}
		}
		for _, s := range drawSteps(t) {
			if !sendable(s.def) {
				continue
			}
			_, r := libraryLoad(s.def)
			if r.skip {
				continue
			}
			send(sent{'L', s.def, s.def, r})
			if r.err != "" {
				c.Class("bad definition")
				errs++
				if r.stage != "definition" {
					good = nil
				} else if good != nil && rapid.Bool().Draw(t, "early") {
					early()
				}
				continue
			}
			loaded++
			good = s.def
			for _, e := range s.events {
				if !sendable(e) {
					continue
				}
				r := libraryProcess(s.def, e)
				if r.skip {
					continue
				}
				send(sent{'P', s.def, e, r})
				c.ClassIf(r.stage != "", "error in "+r.stage)
				if r.evt != nil {
					events++
				} else {
					errs++
				}
			}
		}
		if len(list) == 0 {
			return
		}
		where := fmt.Sprintf("%.4000s", stdin.String())
		if loaded >= 2 && events > 0 && errs > 0 {
			c.NonTrivial(where)
		}
		pr, pw, err := os.Pipe()
		if err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		defer pr.Close()
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		defer cancel()
		args := []string{lib}
		if rapid.IntRange(0, 4).Draw(t, "parallel") == 2 {
			k := rapid.IntRange(1, 8).Draw(t, "threads")
			args = append(args, strconv.Itoa(k))
			c.ClassIf(k > 1, "several threads")
			where = fmt.Sprintf("%d threads, %s", k, where)
		}
		cmd := exec.CommandContext(ctx, driver, args...)
		var out, msgs bytes.Buffer
		cmd.Stdin, cmd.Stdout, cmd.Stderr, cmd.ExtraFiles = &stdin, &out, &msgs, []*os.File{pw}
		if err := cmd.Start(); err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		pw.Close()
		all, _ := io.ReadAll(pr)
		err = cmd.Wait()
		if ctx.Err() != nil {
			t.Fatalf("%v did not end (%s): %v\n%s", cmd, vlib.Late, err, msgs.String())
		}
		if strings.Contains(msgs.String(), "VERIF-ERROR") {
			t.Fatalf("%v\n%s", err, msgs.String())
		}
		if err != nil {
			t.Fatalf("the library ended the program (%v) %.2000s\n%s", err, msgs.String(), where)
		}
		results := bufio.NewReader(bytes.NewReader(all))
		printed := strings.Split(out.String(), "\001\n")
		if len(printed) != len(list)+1 {
			t.Fatalf("VERIF-ERROR: %d marks for %d commands: %q", len(printed), len(list), out.String())
		}
		for i, s := range list {
			kind, _ := results.ReadByte()
			size, _ := results.ReadString('\n')
			n, err := strconv.Atoi(strings.TrimSpace(size))
			got := make([]byte, n)
			differs := kind == 'D'
			if differs {
				kind = 'P'
			}
			if _, err2 := io.ReadFull(results, got); err != nil || err2 != nil || kind != s.kind {
				t.Fatalf("VERIF-ERROR: bad result %d in %q", i, all)
			}
			where := fmt.Sprintf("definition %s\nsent %c %q\nresult %q printed %q\nall that was sent: %s", s.def, s.kind, s.data, got, printed[i+1], where)
			switch {
			case s.kind == 'L' && s.due.err == "":
				if string(got) != "0" {
					t.Fatalf("Load failed: %s", where)
				}
			case s.kind == 'L':
				if string(got) == "0" {
					t.Fatalf("Load did not fail, want %s: %s", s.due.err, where)
				}
				text := strings.TrimSuffix(printed[i+1], "\n")
				if !sameError(text, func() libResult { _, r := libraryLoad(s.def); return r }, s.due, false) {
					t.Fatalf("Load reports %q, want %q: %s", text, s.due.err, where)
				}
			case s.due.stage == "unloaded":
				// An error, or what the definition before gives.
				var object map[string]interface{}
				if len(got) == 0 {
					t.Fatalf("Process without a definition returns nothing: %s", where)
				}
				if json.Unmarshal(got, &object) == nil && (s.due.evt == nil || !vlib.SameJSON(object, s.due.evt)) {
					t.Fatalf("Process without a definition returns an event: %s", where)
				}
			case s.due.err != "":
				if !sameError(string(got), func() libResult { return libraryProcess(s.def, s.data) }, s.due, false) {
					t.Fatalf("Process returns %q, want %q: %s", got, s.due.err, where)
				}
			default:
				if differs {
					t.Fatalf("results of several threads differ: %s", where)
				}
				var tree interface{}
				if err := json.Unmarshal(got, &tree); err != nil || !vlib.SameJSON(tree, s.due.evt) {
					t.Fatalf("Process returns %q (%v), want %v: %s", got, err, s.due.evt, where)
				}
			}
		}
	})
}

// TestC26_Unloaded: events that reach the library when no pipeline is loaded.
func TestC26_Unloaded(t *testing.T) {
	if vlib.Shard() != 0 {
		return
	}
	lib, driver := program(t, "libsawmill.so"), program(t, "cdriver")
	vlib.Run(t, vlib.Spec{Quick: 1, Thorough: 1, Rule: "Probes of the findings c-unloaded and c-failed-load."}, func(rt *rapid.T, c *vlib.Case) {
		for _, p := range []struct{ key, what, in string }{
			{"c-unloaded", "before a definition is loaded", "P7\n{\"a\":1}"},
			{"c-failed-load", "after a definition that cannot be built", "L10\n{\"id\":\"x\"}L9\n{\"id\":\"\"}P7\n{\"a\":1}"},
		} {
			pr, pw, err := os.Pipe()
			if err != nil {
				rt.Fatal("VERIF-ERROR:", err)
			}
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			cmd := exec.CommandContext(ctx, driver, lib)
			cmd.Stdin, cmd.ExtraFiles = strings.NewReader(p.in), []*os.File{pw}
			if err := cmd.Start(); err != nil {
				rt.Fatal("VERIF-ERROR:", err)
			}
			pw.Close()
			all, _ := io.ReadAll(pr)
			err = cmd.Wait()
			if ctx.Err() != nil {
				rt.Fatal("VERIF-ERROR:", ctx.Err())
			}
			cancel()
			pr.Close()
			last := all[bytes.LastIndexByte(all, '\n')+1:]
			if err != nil {
				fmt.Printf("\nVERIF-FINDING %s Process of the C library ends the host program %s (%v)\n", p.key, p.what, err)
			} else if len(last) == 0 {
				rt.Fatalf("an event %s gives nothing: %q", p.what, all)
			}
		}
	})
}

// wasmHost is a node process that runs the module.
type wasmHost struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	msgs bytes.Buffer
}

type wasmAnswer struct {
	S    *string     `json:"s"`
	O    interface{} `json:"o"`
	Gone *string     `json:"gone"`
}

func startWasm(t *testing.T) *wasmHost {
	h := &wasmHost{}
	h.cmd = exec.Command("node", program(t, "driver.js"), program(t, "wasm_exec.js"), program(t, "sawmill.wasm"))
	in, err := h.cmd.StdinPipe()
	if err != nil {
		t.Fatal("VERIF-ERROR:", err)
	}
	out, err := h.cmd.StdoutPipe()
	if err != nil {
		t.Fatal("VERIF-ERROR:", err)
	}
	h.in, h.out = in, bufio.NewReader(out)
	h.cmd.Stderr = &h.msgs
	if err := h.cmd.Start(); err != nil {
		t.Fatal("VERIF-ERROR:", err)
	}
	return h
}

func (h *wasmHost) stop() {
	h.in.Close()
	h.cmd.Process.Kill()
	h.cmd.Wait()
}

func (h *wasmHost) ask(t *rapid.T, q interface{}) (a wasmAnswer) {
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(q); err != nil {
		t.Fatal("VERIF-ERROR:", err)
	}
	if _, err := h.in.Write(buf.Bytes()); err != nil {
		t.Fatal("VERIF-ERROR:", err)
	}
	line, err := h.out.ReadBytes('\n')
	if err == nil {
		err = json.Unmarshal(line, &a)
	}
	if err != nil {
		t.Fatalf("VERIF-ERROR: node: %v %q %s", err, line, h.msgs.String())
	}
	return a
}

func TestC26_Wasm(t *testing.T) {
	outer := t
	host := startWasm(t)
	defer host.stop()
	used := 0
	vlib.Run(t, vlib.Spec{Quick: 2400, Thorough: 40000,
		Rule: "The built WebAssembly module in node is called with random definitions (valid, edited, invalid) and events; each result is compared with a fresh pipeline of the Go library. Non-trivial: at least two calls, with an event and an error among the results. Distinct by what is passed."}, func(t *rapid.T, c *vlib.Case) {
		steps := drawSteps(t)
		used++
		if used > 200 { // Old instances stay in memory.
			host.stop()
			host = startWasm(outer)
			used = 0
		}
		if a := host.ask(t, map[string]bool{"new": true}); a.Gone != nil || a.S == nil || *a.S != "function" {
			t.Fatalf("the module offers no function: %+v", a)
		}
		var log strings.Builder
		events, errs := 0, 0
		wrong := func() {
			if rapid.IntRange(0, 5).Draw(t, "wrong") > 0 {
				return
			}
			args := rapid.SampledFrom([][]string{{}, {`{"id":"x"}`}, {`{"id":"x"}`, `{"a":1}`, `{"a":1}`}, {`{"id":"x"}`, `{"a":1}`, "", ""}}).Draw(t, "args")
			if a := host.ask(t, map[string]interface{}{"args": args}); a.Gone != nil || a.S == nil || *a.S == "" {
				got, _ := json.Marshal(a)
				t.Fatalf("called with %d arguments: %s\nwhat was sent before:\n%.3000s", len(args), got, log.String())
			}
			fmt.Fprintf(&log, "%q\n", args)
			c.Class("wrong number of arguments")
		}
		for _, s := range steps {
			wrong()
			if !sendable(s.def) || hasBOM(s.def) {
				continue
			}
			list := s.events
			if len(list) == 0 {
				list = [][]byte{[]byte(`{"a":"B"}`)}
			}
			for _, e := range list {
				if !sendable(e) || hasBOM(e) {
					continue
				}
				due := libraryProcess(s.def, e)
				if due.skip || due.badJSON {
					continue
				}
				fmt.Fprintf(&log, "%s\n%s\n", s.def, e)
				a := host.ask(t, map[string]string{"p": string(s.def), "e": string(e)})
				got, _ := json.Marshal(a)
				where := fmt.Sprintf("definition %s\nevent %q\nresult %s\nall that was sent:\n%.3000s", s.def, e, got, log.String())
				switch {
				case a.Gone != nil:
					t.Fatalf("the module ended: %s: %s", *a.Gone, where)
				case due.err != "":
					errs++
					c.Class("error in " + due.stage)
					if a.S == nil || !sameError(*a.S, func() libResult { return libraryProcess(s.def, e) }, due, true) {
						t.Fatalf("want an error that ends in %q: %s", due.err, where)
					}
				default:
					events++
					if a.S != nil || !vlib.SameJSON(a.O, due.evt) {
						t.Fatalf("want %v: %s", due.evt, where)
					}
				}
			}
		}
		if events > 0 && errs > 0 {
			c.NonTrivial(log.String())
		}
	})
}

// A field named __proto__ is excluded above and looked at here.
func TestC26_ProtoProbe(t *testing.T) {
	if vlib.Shard() != 0 {
		return
	}
	host := startWasm(t)
	defer host.stop()
	vlib.Run(t, vlib.Spec{Quick: 1, Thorough: 1, Rule: "Probe of the finding wasm-proto."}, func(rt *rapid.T, c *vlib.Case) {
		host.ask(rt, map[string]bool{"new": true})
		a := host.ask(rt, map[string]string{"p": `{"id":"x"}`, "e": `{"a":1,"__proto__":{"b":2}}`})
		want := vlib.MObj(map[string]*vlib.MV{"a": vlib.MFloat(1), "__proto__": vlib.MObj(map[string]*vlib.MV{"b": vlib.MFloat(2)})})
		if a.Gone != nil || a.S != nil || !vlib.SameJSON(a.O, want) {
			fmt.Println("VERIF-FINDING wasm-proto the WebAssembly function loses an event field named __proto__ (js.ValueOf assigns it, which sets the object's prototype)")
		}
	})
}
