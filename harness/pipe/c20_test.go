package pipe

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	_ "verif/harness/lineprobe"
	"verif/harness/vlib"
)

func program(t *testing.T, name string) string {
	dir := os.Getenv("VERIF_SCRATCH")
	path := filepath.Join(dir, name)
	if _, err := os.Stat(path); dir == "" || err != nil {
		t.Fatalf("VERIF-ERROR: no program %q (%v)", path, err)
	}
	return path
}

// lineActs are what a line can tell a probe to do.
var lineActs = []string{"fail", "missing", "drop", "dropfail", "dropmissing", "cancel", "canceldrop", "dropcancel", "nan", "x", "ÄB"}

// drawLinePipe generates a pipeline of built-in processors and line probes.
func drawLinePipe(t *rapid.T) *pipeline.Config {
	k := 0
	var list func(depth, max int) []pipeline.ProcessorConfig
	list = func(depth, max int) []pipeline.ProcessorConfig {
		var out []pipeline.ProcessorConfig
		for i, n := 0, rapid.IntRange(0, max).Draw(t, "len"); i < n; i++ {
			if rapid.IntRange(0, 2).Draw(t, "builtin") == 0 {
				for _, pc := range drawBuiltins(t, 0, 1) {
					out = append(out, pc)
				}
				continue
			}
			typ := rapid.SampledFrom([]string{"line_both", "line_both", "line_miss", "line_fail", "line_bare"}).Draw(t, "type")
			oc := &pipeline.ProcessorOptionConfig{Config: map[string]interface{}{"name": "p" + string(rune('a'+k%8))}}
			k++
			if typ != "line_bare" && typ != "line_fail" && rapid.IntRange(0, 2).Draw(t, "im") == 0 {
				oc.Config["ignore_missing"] = true
			}
			if typ != "line_bare" && typ != "line_miss" && rapid.IntRange(0, 3).Draw(t, "if") == 0 {
				oc.Config["ignore_failure"] = true
			}
			if depth > 0 && rapid.IntRange(0, 2).Draw(t, "handlers") == 0 {
				oc.OnFailure = list(depth-1, 2)
			}
			out = append(out, pipeline.ProcessorConfig{typ: oc})
		}
		// Built-in processors on the line itself.
		if depth == 1 && rapid.IntRange(0, 2).Draw(t, "on line") == 0 {
			o := map[string]interface{}{"field": "event.original"}
			if rapid.Bool().Draw(t, "target") {
				o["target_field"] = "event.changed"
			}
			out = append(out, pipeline.ProcessorConfig{rapid.SampledFrom([]string{"lowercase", "uppercase"}).Draw(t, "type"): {Config: o}})
		}
		return out
	}
	return &pipeline.Config{ID: "p", Processors: list(1, 4), OnFailure: list(0, 2)}
}

// definitionTree is a configuration as plain data.
func definitionTree(c *pipeline.Config) map[string]interface{} {
	var list func(pcs []pipeline.ProcessorConfig) []interface{}
	list = func(pcs []pipeline.ProcessorConfig) []interface{} {
		out := []interface{}{}
		for _, pc := range pcs {
			m := map[string]interface{}{}
			for typ, oc := range pc {
				if oc == nil {
					m[typ] = nil
					continue
				}
				o := map[string]interface{}{}
				for k, v := range oc.Config {
					o[k] = v
				}
				if len(oc.OnFailure) > 0 {
					o["on_failure"] = list(oc.OnFailure)
				}
				m[typ] = o
			}
			out = append(out, m)
		}
		return out
	}
	m := map[string]interface{}{"id": c.ID, "processors": list(c.Processors)}
	if len(c.OnFailure) > 0 {
		m["on_failure"] = list(c.OnFailure)
	}
	return m
}

// loadDefinition reads a definition as the library's users do.
func loadDefinition(data []byte) (pipe *pipeline.Pipeline, err error) {
	if p := vlib.Catch(func() {
		var c *pipeline.Config
		if err = yaml.NewDecoder(bytes.NewReader(data)).Decode(&c); err == nil {
			pipe, err = pipeline.New(c)
		}
	}); p != nil {
		return nil, fmt.Errorf("panic: %v", p)
	}
	return pipe, err
}

// fullLine is the longest line that is certainly within the limit, and
// overLine the shortest that is certainly over it.
const (
	fullLine = 65000
	overLine = 65600
)

// drawLine generates an input line without its line break.
func drawLine(t *rapid.T) string {
	switch k := rapid.IntRange(0, 19).Draw(t, "line"); k {
	case 0:
		return ""
	case 1:
		return rapid.SampledFrom([]string{" ", "\t", "  \t ", "\r", "\u00a0", "\u2003", "\u0085", "\v\f", "\u2028", "\u3000 "}).Draw(t, "blank")
	case 2:
		return vlib.Text().Filter(func(s string) bool { return !strings.Contains(s, "\n") }).Draw(t, "text")
	case 3:
		return strings.ReplaceAll(vlib.Bytes().Draw(t, "bytes"), "\n", "\r")
	case 4:
		return rapid.SampledFrom([]string{`{"a":1}`, `{"event":{"original":"x"}}`, `null`, `"x"`, `[1]`, `<a href="x">&amp;</a>`, "\ufeffx", "\x00", "a\x00b", "%s %d %!", "\xff\xfe", "\u200bx\u200b", `\`, "-", "p", "\u001b[0m", "a\rb"}).Draw(t, "fixed")
	case 5:
		return "  " + rapid.StringMatching(`[a-z ]{0,20}`).Draw(t, "x") + " \r"
	case 6:
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			n := vlib.Size(t, "size", []int{4095, 4096, 4097, 8192, 65000, 60000, 32768}, 64000)
			return strings.Repeat(rapid.SampledFrom([]string{"x", "ä", " ", "a "}).Draw(t, "of"), n)[:n]
		}
		return "long"
	default:
		var words []string
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "words"); i < n; i++ {
			words = append(words, "p"+rapid.SampledFrom([]string{"a", "a", "a", "b", "b", "c", "d", "e"}).Draw(t, "probe")+"="+rapid.SampledFrom(lineActs).Draw(t, "act"))
		}
		if rapid.Bool().Draw(t, "plain") {
			words = append(words, strings.NewReplacer("=", "-").Replace(vlib.Word(t, "word", []string{"Hello", "WORLD", "ß", "x"})))
		}
		return rapid.SampledFrom([]string{"", "", " ", "\t"}).Draw(t, "lead") + strings.Join(words, " ")
	}
}

// ran is how a program ended.
type ran struct {
	stdout, stderr string
	code           int
}

func run(t *rapid.T, cmd []string, stdin io.Reader) ran {
	return runTo(t, cmd, stdin, nil)
}

// runTo runs cmd with its standard output going to stdout if that is given.
func runTo(t *rapid.T, cmd []string, stdin io.Reader, stdout *os.File) ran {
	return runCmd(t, cmd, stdin, stdout, func(*exec.Cmd) {})
}

func runCmd(t *rapid.T, cmd []string, stdin io.Reader, stdout *os.File, prepare func(*exec.Cmd)) ran {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, cmd[0], cmd[1:]...)
	var out, errs bytes.Buffer
	c.Stdin, c.Stdout, c.Stderr = stdin, &out, &errs
	if stdout != nil {
		c.Stdout = stdout
	}
	c.WaitDelay = 5 * time.Second
	prepare(c)
	err := c.Run()
	var ee *exec.ExitError
	switch {
	case err == nil || errors.As(err, &ee):
	case c.ProcessState == nil:
		t.Fatalf("VERIF-ERROR: cannot run %v: %v", cmd, err)
	}
	if ctx.Err() != nil {
		t.Fatalf("%v did not end (%s)", cmd, vlib.Late)
	}
	return ran{out.String(), errs.String(), c.ProcessState.ExitCode()}
}

func (r ran) crashed() bool {
	return r.code == 2 || r.code < 0 || strings.Contains(r.stderr, "goroutine ") || strings.HasPrefix(r.stderr, "panic:")
}

// chunks is a reader that returns its data in pieces.
type chunks struct {
	data  []byte
	sizes []int
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := len(c.data)
	if len(c.sizes) > 0 {
		n, c.sizes = c.sizes[0], c.sizes[1:]
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	n = copy(p, c.data[:n])
	c.data = c.data[n:]
	return n, nil
}

// asJSON is what a JSON document of an event holds.
func asJSON(m *vlib.MV) *vlib.MV {
	m = asDoubles(m.Clone())
	var fix func(m *vlib.MV)
	fix = func(m *vlib.MV) {
		m.S = string([]rune(m.S))
		for _, x := range m.A {
			fix(x)
		}
		for _, x := range m.O {
			fix(x)
		}
	}
	fix(m)
	return m
}

// lineResult is what is due for one line.
type lineResult struct {
	number int
	evt    *vlib.MV
	fails  bool
}

func expectLine(t *rapid.T, pipe *pipeline.Pipeline, number int, line string) (r lineResult, blank bool) {
	line = strings.TrimSpace(line)
	if line == "" {
		return r, true
	}
	e := event.New()
	e.Put("@metadata.line_number", event.UnsignedInteger(uint64(number)))
	e.Put("event.original", event.String(line))
	r.number = number
	out, err := pipe.Process(e)
	switch {
	case err != nil:
		r.fails = true
	case out != nil:
		if _, err := json.Marshal(out); err != nil { // Not representable.
			r.fails = true
			break
		}
		r.evt = asJSON(vlib.OfEvent(out))
	}
	return r, false
}

// drawProfiles makes a few runs write profiles.
func drawProfiles(t *rapid.T, c *vlib.Case, dir string) (files, args []string) {
	if rapid.IntRange(0, 31).Draw(t, "profile") != 31 {
		return nil, nil
	}
	for _, name := range []string{"cpuprofile", "memprofile"} {
		if rapid.Bool().Draw(t, name) {
			files = append(files, filepath.Join(dir, name))
			args = append(args, "-"+name, files[len(files)-1])
			c.Class(name)
		}
	}
	return files, args
}

func checkProfiles(t *rapid.T, files []string, where string) {
	for _, p := range files {
		data, err := os.ReadFile(p)
		os.Remove(p)
		if err == nil {
			var z *gzip.Reader
			if z, err = gzip.NewReader(bytes.NewReader(data)); err == nil {
				_, err = io.Copy(io.Discard, z)
			}
		}
		if err != nil {
			t.Fatalf("profile %s: %v: %s", filepath.Base(p), err, where)
		}
	}
}

// setting is what is around a program: the kinds of its files, the place it
// runs at and its environment.
type setting struct {
	what   []string
	args   []string
	dir    string
	env    []string
	file   bool // The input is a file that was read from before.
	slow   bool // The input comes in pieces with pauses between.
	append bool // The output is added to a file.
	extra  []*os.File
	remove []string
}

func (s *setting) String() string { return fmt.Sprintf("with %v: %v", s.what, s.args) }

func (s *setting) end() {
	for _, f := range s.extra {
		f.Close()
	}
	for _, p := range s.remove {
		os.Remove(p)
	}
}

func (s *setting) did(c *vlib.Case, what string) {
	s.what = append(s.what, what)
	c.Class(what)
}

func drawSetting(t *rapid.T, c *vlib.Case, dir string, def []byte, conf *pipeline.Config) *setting {
	s := &setting{}
	write := func(name string, data []byte) string {
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, data, 0o600); err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		return p
	}
	if rapid.IntRange(0, 3).Draw(t, "setting") != 3 {
		s.args = []string{"-p", write("pipeline.yml", def)}
		return s
	}
	name := "pipeline.yml"
	if rapid.Bool().Draw(t, "named") {
		name = rapid.SampledFrom([]string{"pipeline", "pipeline.json", "p.YAML", "a b.yaml", "ä.yml", ".hidden", "x.txt", "p.yml.gz", "%s.yml", "-.yml", "~", "*"}).Draw(t, "name")
		s.remove = append(s.remove, filepath.Join(dir, name))
		s.did(c, "another file name")
	}
	if rapid.IntRange(0, 2).Draw(t, "json") == 0 {
		var buf bytes.Buffer
		enc := json.NewEncoder(&buf)
		enc.SetEscapeHTML(false)
		if rapid.Bool().Draw(t, "indent") {
			enc.SetIndent("", "  ")
		}
		if err := enc.Encode(definitionTree(conf)); err == nil {
			if p, err := loadDefinition(buf.Bytes()); err == nil && p != nil {
				def = buf.Bytes()
				s.did(c, "JSON definition")
			}
		}
	}
	path := write(name, def)
	switch rapid.IntRange(0, 7).Draw(t, "path") {
	case 0:
		s.dir, path = dir, name
		if strings.HasPrefix(path, "-") {
			path = "./" + path
		}
		s.did(c, "relative path")
	case 1:
		s.dir, path = "/", strings.TrimPrefix(path, "/")
		s.did(c, "relative path from the root")
	case 2:
		link := filepath.Join(dir, "link")
		os.Remove(link)
		if err := os.Symlink(name, link); err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		path = link
		s.remove = append(s.remove, link)
		s.did(c, "link")
	case 3:
		if len(def) < 60000 { // Fits into a pipe.
			r, w, err := os.Pipe()
			if err != nil {
				t.Fatal("VERIF-ERROR:", err)
			}
			w.Write(def)
			w.Close()
			s.extra = append(s.extra, r)
			path = "/dev/fd/3"
			s.did(c, "pipe as definition file")
		}
	}
	s.args = rapid.SampledFrom([][]string{{"-p", path}, {"--p", path}, {"-p=" + path}, {"--p=" + path}, {"-p", "none", "-p", path}}).Draw(t, "flag")
	switch rapid.IntRange(0, 5).Draw(t, "input") {
	case 0, 1:
		s.file = true
		s.did(c, "input from the middle of a file")
	case 2:
		if rapid.IntRange(0, 3).Draw(t, "slow") == 0 {
			s.slow = true
			s.did(c, "slow input")
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "append") == 0 {
		s.append = true
		s.did(c, "output to the end of a file")
	}
	if rapid.IntRange(0, 1).Draw(t, "env") == 0 {
		s.env = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"TZ=Asia/Tokyo", "TZ=America/New_York", "GOMAXPROCS=1", "GOGC=1", "LANG=C", "LC_ALL=tr_TR.UTF-8", "HOME=/nonexistent", "PATH=", "TMPDIR=/nonexistent", "DEBUG=1", "TERM=dumb", "NO_COLOR=1"}), 1, 4, func(s string) string { return strings.SplitN(s, "=", 2)[0] }).Draw(t, "environment")
		s.did(c, "another environment")
	}
	return s
}

// run is run in the setting.
func (s *setting) run(t *rapid.T, cmd []string, stdin io.Reader, input string) ran {
	if s.file {
		f, err := os.CreateTemp("", "c20-input")
		if err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		defer f.Close()
		os.Remove(f.Name())
		before := "before\nthis "
		if _, err = f.WriteString(before + input); err == nil {
			_, err = f.Seek(int64(len(before)), io.SeekStart)
		}
		if err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		stdin = f
	}
	if s.slow {
		stdin = &slowly{[]byte(input), len(input)/5 + 1}
	}
	var out *os.File
	const before = "first line\nand"
	if s.append {
		var err error
		if out, err = os.CreateTemp("", "c20-output"); err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		defer out.Close()
		os.Remove(out.Name())
		out.WriteString(before)
	}
	r := runCmd(t, cmd, stdin, out, func(c *exec.Cmd) {
		c.Dir, c.ExtraFiles = s.dir, s.extra
		if s.env != nil {
			c.Env = s.env
		}
	})
	if out != nil {
		data, err := io.ReadAll(io.NewSectionReader(out, 0, 1<<30))
		if err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		if !strings.HasPrefix(string(data), before) {
			t.Fatalf("what was in the output file was changed to %.300q", data)
		}
		r.stdout = string(data[len(before):])
	}
	return r
}

// slowly is a reader that waits between pieces.
type slowly struct {
	data []byte
	n    int
}

func (s *slowly) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	time.Sleep(2 * time.Millisecond)
	n := s.n
	if n > len(s.data) {
		n = len(s.data)
	}
	n = copy(p, s.data[:n])
	s.data = s.data[n:]
	return n, nil
}

func TestC20_Lines(t *testing.T) {
	bin := program(t, "sawmill")
	dir := t.TempDir()
	vlib.Run(t, vlib.Spec{Quick: 8000, Thorough: 100000,
		Rule: "The sawmill binary on a random pipeline of built-in processors and of probes that fail, drop and cancel as the line says, and on a random input; expected are the library's results for each line, and complete profile files where profiles are asked for. In a fourth of the runs the pipeline file is JSON, has another name, is a link or a pipe, or is named from another directory; the input is a file read from its middle, or comes slowly; the output goes to the end of a file; the environment differs. Non-trivial: at least two lines, and two of result, failure, drop and blank line. Distinct by pipeline and input."}, func(t *rapid.T, c *vlib.Case) {
		conf := drawLinePipe(t)
		def, err := yaml.Marshal(definitionTree(conf))
		if err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		pipe, err := loadDefinition(def)
		if err != nil {
			t.Fatalf("VERIF-ERROR: %s: %v", def, err)
		}
		var input strings.Builder
		var due []lineResult
		kinds := map[string]bool{}
		n := rapid.IntRange(0, 12).Draw(t, "lines")
		if m, ok := vlib.NovelSize(t, 20, 1500); ok {
			n = m
		}
		if rapid.IntRange(0, 19).Draw(t, "many") == 0 {
			n += 300
		}
		tooLong := 0
		if rapid.IntRange(0, 14).Draw(t, "too long") == 0 && n < 100 {
			tooLong = rapid.IntRange(1, n+1).Draw(t, "at")
		}
		reached := false
		for i := 1; i <= n || i == tooLong; i++ {
			if i == tooLong {
				input.WriteString(strings.Repeat("x", rapid.SampledFrom([]int{overLine, 65536 * 2, 200000}).Draw(t, "size")))
				if rapid.Bool().Draw(t, "ends") {
					input.WriteString("\nafter\n")
				}
				kinds["too long"] = true
				reached = true
				break
			}
			line := drawLine(t)
			input.WriteString(line)
			r, blank := expectLine(t, pipe, i, line)
			switch {
			case blank:
				kinds["blank"] = true
			case r.fails:
				kinds["failure"] = true
			case r.evt != nil:
				kinds["result"] = true
			default:
				kinds["dropped"] = true
			}
			if !blank {
				due = append(due, r)
			}
			if i == n && tooLong == 0 && rapid.Bool().Draw(t, "unterminated") {
				kinds["no final newline"] = true
				break
			}
			if rapid.IntRange(0, 9).Draw(t, "crlf") == 0 {
				input.WriteString("\r")
			}
			input.WriteString("\n")
		}
		for k := range kinds {
			c.Class(k)
		}
		where := fmt.Sprintf("pipeline\n%s\ninput %.2000q", def, input.String())
		if n >= 2 && len(kinds) >= 2 {
			c.NonTrivial(where)
		}
		var stdin io.Reader = strings.NewReader(input.String())
		if rapid.IntRange(0, 3).Draw(t, "chunked") == 0 {
			stdin = &chunks{[]byte(input.String()), rapid.SliceOfN(rapid.IntRange(1, 40), 0, 20).Draw(t, "chunks")}
		}
		s := drawSetting(t, c, dir, def, conf)
		defer s.end()
		args := append([]string{bin, "-metrics-addr", "127.0.0.1:0"}, s.args...)
		profiles, more := drawProfiles(t, c, dir)
		args = append(args, more...)
		r := s.run(t, args, stdin, input.String())
		checkProfiles(t, profiles, where)
		where = fmt.Sprintf("%v\n%s", s, where)
		where += fmt.Sprintf("\nstatus %d\nstdout %.3000q\nstderr %.2000q", r.code, r.stdout, r.stderr)
		if r.crashed() {
			t.Fatalf("crashed: %s", where)
		}
		if (r.code != 0) != reached {
			t.Fatalf("wrong exit status: %s", where)
		}
		compareLines(t, where, r, due, reached)
	})
}

func TestC20_Long(t *testing.T) {
	bin := program(t, "sawmill")
	dir := t.TempDir()
	file := filepath.Join(dir, "pipeline.yml")
	vlib.Run(t, vlib.Spec{Quick: 16, Thorough: 160,
		Rule: "The sawmill binary on a random pipeline and on inputs of 1000 to 70000 lines (a random sequence of up to 40 random lines repeated); expected are the library's results for each line. Non-trivial: results and failures. Distinct by pipeline and repeated lines."}, func(t *rapid.T, c *vlib.Case) {
		def, err := yaml.Marshal(definitionTree(drawLinePipe(t)))
		if err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		pipe, err := loadDefinition(def)
		if err != nil {
			t.Fatalf("VERIF-ERROR: %s: %v", def, err)
		}
		if err := os.WriteFile(file, def, 0o600); err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		var lines []string
		for i, n := 0, rapid.IntRange(1, 40).Draw(t, "lines"); i < n; i++ {
			if line := drawLine(t); len(line) < 1000 {
				lines = append(lines, line)
			}
		}
		lines = append(lines, "last")
		n := vlib.Size(t, "n", []int{1000, 5000, 66000, 70000}, 70000)
		var input strings.Builder
		var due []lineResult
		results, fails := 0, 0
		for i := 1; i <= n; i++ {
			line := lines[i%len(lines)]
			input.WriteString(line)
			input.WriteByte('\n')
			if r, blank := expectLine(t, pipe, i, line); !blank {
				due = append(due, r)
				if r.fails {
					fails++
				}
				if r.evt != nil {
					results++
				}
			}
		}
		where := fmt.Sprintf("pipeline\n%s\n%d lines of %.2000q", def, n, lines)
		if results > 0 && fails > 0 {
			c.NonTrivial(where)
		}
		r := run(t, []string{bin, "-metrics-addr", "127.0.0.1:0", "-p", file}, strings.NewReader(input.String()))
		where += fmt.Sprintf("\nstatus %d\nstdout %.300q\nstderr %.500q", r.code, r.stdout, r.stderr)
		if r.crashed() || r.code != 0 {
			t.Fatalf("failed: %s", where)
		}
		compareLines(t, where, r, due, false)
	})
}

func TestC20_Full(t *testing.T) {
	bin := program(t, "sawmill")
	dir := t.TempDir()
	file := filepath.Join(dir, "pipeline.yml")
	vlib.Run(t, vlib.Spec{Quick: 1200, Thorough: 20000,
		Rule: "The sawmill binary on a random pipeline and 1 to 20 lines while nothing can be written, because the device is full, to standard output or to a profile; expected are the messages due for failing lines, and another one if there is something to write. Non-trivial: something to write and a failing line. Distinct by pipeline and input."}, func(t *rapid.T, c *vlib.Case) {
		def, err := yaml.Marshal(definitionTree(drawLinePipe(t)))
		if err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		pipe, err := loadDefinition(def)
		if err != nil {
			t.Fatalf("VERIF-ERROR: %s: %v", def, err)
		}
		if err := os.WriteFile(file, def, 0o600); err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		defer full.Close()
		var input strings.Builder
		var due []lineResult
		results, fails := 0, 0
		for i, n := 1, rapid.IntRange(1, 20).Draw(t, "lines"); i <= n; i++ {
			line := drawLine(t)
			if len(line) > 1000 {
				line = "x"
			}
			input.WriteString(line + "\n")
			if r, blank := expectLine(t, pipe, i, line); !blank {
				due = append(due, r)
				if r.fails {
					fails++
				}
				if r.evt != nil {
					results++
				}
			}
		}
		where := fmt.Sprintf("pipeline\n%s\ninput %.2000q", def, input.String())
		if results > 0 && fails > 0 {
			c.NonTrivial(where)
		}
		args := []string{bin, "-metrics-addr", "127.0.0.1:0", "-p", file}
		if rapid.IntRange(0, 3).Draw(t, "profile") == 0 {
			args = append(args, rapid.SampledFrom([]string{"-cpuprofile", "-memprofile"}).Draw(t, "which"), "/dev/full")
			r := run(t, args, strings.NewReader(input.String()))
			where += fmt.Sprintf("\nstatus %d\nstdout %.300q\nstderr %.500q", r.code, r.stdout, r.stderr)
			if r.crashed() {
				t.Fatalf("crashed: %s", where)
			}
			compareLines(t, where, r, due, true)
			c.Class("no space for a profile")
			return
		}
		r := runTo(t, args, strings.NewReader(input.String()), full)
		where += fmt.Sprintf("\nstatus %d\nstderr %.500q", r.code, r.stderr)
		if r.crashed() {
			t.Fatalf("crashed: %s", where)
		}
		messages := strings.Split(r.stderr, "\n")
		messages = messages[:len(messages)-1]
		want := fails
		if results > 0 {
			want++
		}
		if len(messages) < want || results == 0 && len(messages) > want {
			t.Fatalf("%d messages, want %d for failing lines and one or more if something was to be written: %s", len(messages), fails, where)
		}
		next := 0
		for _, d := range due {
			if !d.fails {
				continue
			}
			for ; next < len(messages); next++ {
				named := false
				for _, m := range digits.FindAllString(messages[next], -1) {
					named = named || m == strconv.Itoa(d.number)
				}
				if named {
					break
				}
			}
			if next == len(messages) {
				t.Fatalf("no message for line %d: %s", d.number, where)
			}
			next++
		}
	})
}

var digits = regexp.MustCompile(`[0-9]+`)

// compareLines compares what the program printed with what is due.
func compareLines(t *rapid.T, where string, r ran, due []lineResult, fatal bool) {
	outs := strings.SplitAfter(r.stdout, "\n")
	if outs[len(outs)-1] != "" {
		t.Fatalf("unterminated output line: %s", where)
	}
	outs = outs[:len(outs)-1]
	var errLines []string
	if r.stderr != "" {
		errLines = strings.Split(strings.TrimSuffix(r.stderr, "\n"), "\n")
	}
	for _, d := range due {
		switch {
		case d.fails:
			if len(errLines) == 0 {
				t.Fatalf("no message for line %d: %s", d.number, where)
			}
			named := false
			for _, m := range digits.FindAllString(errLines[0], -1) {
				named = named || m == strconv.Itoa(d.number)
			}
			if !named {
				t.Fatalf("the message %q does not name line %d: %s", errLines[0], d.number, where)
			}
			errLines = errLines[1:]
		case d.evt != nil:
			if len(outs) == 0 {
				t.Fatalf("no output for line %d: %s", d.number, where)
			}
			var got interface{}
			if err := json.Unmarshal([]byte(outs[0]), &got); err != nil {
				t.Fatalf("output for line %d is not JSON (%v): %s", d.number, err, where)
			}
			if !vlib.SameJSON(got, d.evt) {
				t.Fatalf("output for line %d is %q, want %v: %s", d.number, outs[0], d.evt, where)
			}
			outs = outs[1:]
		}
	}
	if len(outs) > 0 {
		t.Fatalf("more output than due, %q: %s", outs, where)
	}
	if fatal {
		if len(errLines) == 0 {
			t.Fatalf("no message about the end: %s", where)
		}
	} else if len(errLines) > 0 {
		t.Fatalf("more messages than due, %q: %s", errLines, where)
	}
}

func TestC20_Unusable(t *testing.T) {
	bin := program(t, "sawmill")
	dir := t.TempDir()
	file := filepath.Join(dir, "pipeline.yml")
	good := "id: x\nprocessors:\n- line_both: {name: a, on_failure: [{lowercase: {field: b}}]}\n- set: {target_field: a, value: [1, x]}\n- remove: {fields: [b]}\non_failure:\n- append: {field: c, value: d}\n"
	vlib.Run(t, vlib.Spec{Quick: 4000, Thorough: 40000,
		Rule: "The sawmill binary on pipeline files that are absent, a directory, random texts, or a good definition with a few bytes replaced, and on input that cannot be read; expected is failure exactly if the library rejects the definition or the input fails. Non-trivial: unusable. Distinct by file content."}, func(t *rapid.T, c *vlib.Case) {
		path := file
		var content []byte
		usable := true
		stdin := io.Reader(strings.NewReader("x\n\ny pa=fail\nz\n"))
		due := []int{1, 3, 4}
		noInput := false
		os.Remove(file)
		switch k := rapid.IntRange(0, 9).Draw(t, "kind"); k {
		case 0:
			path = rapid.SampledFrom([]string{"", filepath.Join(dir, "absent"), dir, file}).Draw(t, "path")
			usable = false
			c.Class("no file")
		case 1:
			content = []byte(vlib.Bytes().Draw(t, "content"))
		case 2:
			content = []byte(rapid.SampledFrom([]string{"", "---\n", "null", "~", "[]", "5", "x", "id: ''", "id: x\nprocessors: 5", "id: x\nprocessors: {a: b}", "id: x\nprocessors: [null]",
				"id: x\nprocessors: [{}]", "id: x\nprocessors: [{set: {}, remove: {fields: [x]}}]", "id: x\nprocessors: [{nope: {}}]", "id: x\nprocessors: [{lowercase: {}}]",
				"id: x\nprocessors: [{lowercase: null}]", "id: x\nprocessors: [{lowercase: {field: [a, b]}}]", "id: x\non_failure: [{nope: {}}]", "id: x\n\tx", ": :", "{", "id: x\nid: y", "id: [x]", "processors: []",
				"id: x\nprocessors: [{set: {target_field: a, on_failure: [{lowercase: {}}]}}]", "\xff", "id: x\n---\nid: y", "id: x", "# nothing"}).Draw(t, "content"))
		case 3, 4:
			content = []byte(good)
			noInput = true
			d, err := os.Open(dir)
			if err != nil {
				t.Fatal("VERIF-ERROR:", err)
			}
			defer d.Close()
			stdin = d // Reading a directory fails.
			due = nil
			c.Class("unreadable input")
		default:
			content = []byte(good)
			for i, n := 0, rapid.IntRange(0, 4).Draw(t, "edits"); i < n && len(content) > 1; i++ {
				at := rapid.IntRange(0, len(content)-1).Draw(t, "at")
				switch rapid.IntRange(0, 2).Draw(t, "edit") {
				case 0:
					content[at] = rapid.SampledFrom([]byte("xab:{}[]-, \n\t'\"#&*!0\x00\xff")).Draw(t, "byte")
				case 1:
					content = append(content[:at:at], content[at+1:]...)
				default:
					content = content[:at+1]
				}
			}
		}
		if content != nil || usable {
			if err := os.WriteFile(file, content, 0o600); err != nil {
				t.Fatal("VERIF-ERROR:", err)
			}
		}
		var pipe *pipeline.Pipeline
		if usable {
			var err error
			pipe, err = loadDefinition(content)
			usable = err == nil
		}
		where := fmt.Sprintf("file %q with %q", path, content)
		c.ClassIf(usable, "usable")
		if !usable || noInput {
			c.NonTrivial(where)
		}
		args := []string{bin, "-metrics-addr", "127.0.0.1:0"}
		if path != "" {
			args = append(args, "-p", path)
		}
		profiles, more := drawProfiles(t, c, dir)
		args = append(args, more...)
		r := run(t, args, stdin)
		checkProfiles(t, profiles, where)
		where += fmt.Sprintf("\nstatus %d\nstdout %.3000q\nstderr %.2000q", r.code, r.stdout, r.stderr)
		switch {
		case r.crashed():
			t.Fatalf("crashed: %s", where)
		case !usable || noInput:
			if r.code == 0 || strings.TrimSpace(r.stderr) == "" || r.stdout != "" {
				t.Fatalf("no failure: %s", where)
			}
		case r.code != 0:
			t.Fatalf("failed: %s", where)
		default:
			var want []lineResult
			for _, n := range due {
				res, _ := expectLine(t, pipe, n, map[int]string{1: "x", 3: "y pa=fail", 4: "z"}[n])
				want = append(want, res)
			}
			compareLines(t, where, r, want, false)
		}
	})
}
