package gen

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/vlib"
)

func write(t *rapid.T, path, text string) {
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		t.Fatalf("VERIF-ERROR: %v", err)
	}
}

// fitReadme makes descriptions that a README can be read back from: no line
// starts like a heading or a row, no backslash before a bar.
func fitReadme(defs []*procDef) {
	fit := func(s string) string {
		for strings.Contains(s, `\|`) {
			s = strings.ReplaceAll(s, `\|`, "|")
		}
		lines := strings.Split(s, "\n")
		for i, l := range lines {
			if strings.HasPrefix(l, "### ") || strings.HasPrefix(l, "|") {
				lines[i] = "x" + l
			}
		}
		return strings.Join(lines, "\n")
	}
	for _, p := range defs {
		p.desc = fit(p.desc)
		for _, o := range p.options {
			o.desc = fit(strings.TrimSuffix(o.desc, `\`))
			if s, ok := o.def.(string); ok {
				o.def = strings.TrimSuffix(fit(s), `\`)
			}
		}
	}
}

func typeText(typ string) string {
	switch typ {
	case eventValue:
		return "any"
	case "map[string]interface{}":
		return "map"
	}
	return typ
}

// sameDefault compares the default in a table with the defined one.
func sameDefault(cell string, def interface{}) bool {
	switch d := def.(type) {
	case nil:
		return cell == ""
	case string:
		return vlib.OneLine(cell) == vlib.OneLine(d)
	case bool:
		return d && cell == "true" || !d && cell == ""
	case float64:
		if d == 0 {
			return cell == ""
		}
		f, err := strconv.ParseFloat(cell, 64)
		return err == nil && f == d
	}
	if s := fmt.Sprint(def); s != "0" {
		return cell == s
	}
	return cell == ""
}

func TestC23_Readme(t *testing.T) {
	bin := program(t, "docsgen")
	base := t.TempDir()
	vlib.Run(t, vlib.Spec{Quick: 16000, Thorough: 200000,
		Rule: "The documentation generator on a random definition file (0 to 6 processors, 0 to 6 options each, descriptions of awkward text, several YAML styles, merged common fields, several processors in one list entry), run twice in different directories; the README is parsed and compared with the definitions. A fifth of the files has an unknown key at a random place and has to be rejected. Non-trivial: at least two processors and three options. Distinct by file."}, func(t *rapid.T, c *vlib.Case) {
		k := &kit{names: map[string]bool{}}
		defs := drawDefs(t, k, 6, true)
		fitReadme(defs)
		unknown := 0
		if rapid.IntRange(0, 4).Draw(t, "unknown") == 0 {
			unknown = rapid.IntRange(1, 3).Draw(t, "where")
		}
		text := defFile(t, defs, unknown)
		options := 0
		for _, d := range defs {
			options += len(d.options)
		}
		if len(defs) >= 2 && options >= 3 {
			c.NonTrivial(text)
		}
		dir, err := os.MkdirTemp(base, "x")
		if err != nil {
			t.Fatalf("VERIF-ERROR: %v", err)
		}
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "processors.yml")
		write(t, file, text)
		sub := filepath.Join(dir, "sub")
		if err := os.Mkdir(sub, 0o755); err != nil {
			t.Fatalf("VERIF-ERROR: %v", err)
		}
		// Once by relative and once by absolute names, over an old file or none.
		old := rapid.SampledFrom([]string{"", "old\n", strings.Repeat("longer than any README\n", 2000)}).Draw(t, "old")
		if old != "" {
			write(t, filepath.Join(sub, "out.md"), old)
		}
		out1, code1 := runIn(t, dir, bin, "-p", "processors.yml", "-o", "README.md")
		out2, code2 := runIn(t, sub, bin, "-p", file, "-o", filepath.Join(sub, "out.md"))
		where := fmt.Sprintf("%s\nstatus %d, %s", text, code1, out1)
		one, err1 := os.ReadFile(filepath.Join(dir, "README.md"))
		two, err2 := os.ReadFile(filepath.Join(sub, "out.md"))
		if unknown > 0 {
			c.Class("unknown key")
			if code1 == 0 || code2 == 0 || strings.TrimSpace(out1) == "" || strings.Contains(out1, "goroutine ") {
				t.Fatalf("an unknown key is accepted: %s", where)
			}
			if err1 == nil || string(two) != old {
				t.Fatalf("rejected, but there is output: %s", where)
			}
			return
		}
		if code1 != 0 || code2 != 0 || err1 != nil || err2 != nil {
			t.Fatalf("rejected: %s; %d, %s", where, code2, out2)
		}
		if string(one) != string(two) {
			t.Fatalf("two runs differ: %s\n%s\n%s", where, one, two)
		}
		if rapid.IntRange(0, 3).Draw(t, "blocked") == 0 {
			args := rapid.SampledFrom([][]string{{"-p", "processors.yml", "-o", "sub"}, {"-p", "processors.yml", "-o", "none/README.md"}, {"-p", "none.yml", "-o", "none.md"}, {"-p", "sub", "-o", "none.md"}, {"-p", "processors.yml", "-o", "full.md"}}).Draw(t, "args")
			cmd := append([]string{bin}, args...)
			full := args[3] == "full.md"
			if full { // No space left. Reading that file never ends, hence the limit.
				if err := os.Symlink("/dev/full", filepath.Join(dir, "full.md")); err != nil {
					t.Fatalf("VERIF-ERROR: %v", err)
				}
				cmd = append([]string{"sh", "-c", `ulimit -v 8000000; exec "$0" "$@"`}, cmd...)
			}
			out, code := runIn(t, dir, cmd...)
			if full && code == 0 {
				// Replaced by a complete file?
				if fi, err := os.Lstat(filepath.Join(dir, "full.md")); err == nil && fi.Mode().IsRegular() {
					if data, err := os.ReadFile(filepath.Join(dir, "full.md")); err == nil && string(data) == string(one) {
						code, out = 1, "replaced"
					}
				}
			}
			if code == 0 || strings.TrimSpace(out) == "" || strings.Contains(out, "goroutine ") {
				t.Fatalf("%q: status %d, %q: %s", args, code, out, where)
			}
			if _, err := os.Stat(filepath.Join(dir, "none.md")); err == nil {
				t.Fatalf("%q: failed, but there is output: %s", args, where)
			}
			c.Class("no output possible")
		}
		if write := rapid.Bool().Draw(t, "again"); write {
			runIn(t, dir, bin, "-p", "processors.yml", "-o", "README.md")
			if again, _ := os.ReadFile(filepath.Join(dir, "README.md")); string(again) != string(one) {
				t.Fatalf("running again differs: %s", where)
			}
		}
		r, err := vlib.ParseReadme(string(one))
		if err != nil {
			t.Fatalf("%v: %s\n%s", err, where, one)
		}
		byName := append([]*procDef(nil), defs...)
		sort.Slice(byName, func(i, j int) bool { return byName[i].name < byName[j].name })
		if len(r.Index) != len(defs) || len(r.Sections) != len(defs) {
			t.Fatalf("%d index entries and %d sections for %d processors: %s\n%s", len(r.Index), len(r.Sections), len(defs), where, one)
		}
		for i, p := range byName {
			s := r.Sections[i]
			if r.Index[i] != p.name || s.Name != p.name {
				t.Fatalf("processor %d is %s in the index and has section %s, want %s: %s\n%s", i, r.Index[i], s.Name, p.name, where, one)
			}
			if vlib.OneLine(s.Description) != vlib.OneLine(p.desc) {
				t.Fatalf("the description of %s is %q, want %q: %s", p.name, s.Description, p.desc, where)
			}
			if len(s.Rows) != len(p.options) {
				t.Fatalf("%s has %d rows, want %d: %s\n%s", p.name, len(s.Rows), len(p.options), where, one)
			}
			for j, o := range p.sorted() {
				row := s.Rows[j]
				if row.Name != o.name || row.Required != o.required || row.Optional != o.optional || row.Type != typeText(o.typ) ||
					!sameDefault(row.Default, o.def) || vlib.OneLine(row.Description) != vlib.OneLine(o.desc) {
					t.Fatalf("row %d of %s is %+v, want %+v: %s", j, p.name, row, *o, where)
				}
			}
		}
	})
}
