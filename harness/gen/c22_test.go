package gen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode"

	"pgregory.net/rapid"

	"verif/harness/vlib"
)

// exported maps import paths to compiled packages.
var exported struct {
	once sync.Once
	m    map[string]string
	err  error
}

func exports() (map[string]string, error) {
	exported.once.Do(func() {
		data, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_SCRATCH"), "importcfg"))
		exported.err = err
		exported.m = map[string]string{}
		for _, l := range strings.Split(string(data), "\n") {
			name, path, found := strings.Cut(strings.TrimPrefix(l, "packagefile "), "=")
			if found {
				exported.m[name] = path
			}
		}
	})
	return exported.m, exported.err
}

// newImporter reads export data; one per search keeps what it read.
func newImporter(fset *token.FileSet) types.Importer {
	return importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		m, err := exports()
		if err != nil {
			return nil, err
		}
		file, found := m[path]
		if !found {
			return nil, fmt.Errorf("no package %s", path)
		}
		return os.Open(file)
	})
}

// goTypeText is the Go type of an option as go/types writes it.
func goTypeText(typ string) string {
	switch typ {
	case "uint8":
		return "uint8"
	}
	return typ
}

// checkPackage checks the Go files of one processor.
func checkPackage(fset *token.FileSet, imp types.Importer, p *procDef, files map[string]string, names []string) error {
	var parsed []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(fset, n, files[n], parser.ParseComments)
		if err != nil {
			return err
		}
		parsed = append(parsed, f)
	}
	conf := types.Config{Importer: imp}
	pkg, err := conf.Check("gen/"+p.name, fset, parsed, nil)
	if err != nil {
		return err
	}
	// The configuration struct.
	cfg := pkg.Scope().Lookup("Config")
	if cfg == nil {
		return fmt.Errorf("no type Config")
	}
	st, ok := cfg.Type().Underlying().(*types.Struct)
	if !ok {
		return fmt.Errorf("Config is not a struct")
	}
	fields := map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		name, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("config"), ",")
		if _, dup := fields[name]; dup || name == "" {
			return fmt.Errorf("field %s is tagged %q", st.Field(i).Name(), st.Tag(i))
		}
		fields[name] = i
	}
	if len(fields) != len(p.options) {
		return fmt.Errorf("%d options, want %d", len(fields), len(p.options))
	}
	for _, o := range p.options {
		i, found := fields[o.name]
		if !found {
			return fmt.Errorf("no field for option %s", o.name)
		}
		f := st.Field(i)
		if !f.Exported() {
			return fmt.Errorf("field %s of option %s is not exported", f.Name(), o.name)
		}
		got := types.TypeString(f.Type(), nil)
		want := goTypeText(o.typ)
		if got != want && !(want == "interface{}" && got == "any") && !(want == "map[string]interface{}" && got == "map[string]any") {
			return fmt.Errorf("option %s has type %s, want %s", o.name, got, want)
		}
		required := false
		for _, v := range strings.Split(reflect.StructTag(st.Tag(i)).Get("validate"), ",") {
			required = required || strings.TrimSpace(v) == "required"
		}
		if required != o.required {
			return fmt.Errorf("option %s required: %v, want %v", o.name, required, o.required)
		}
	}
	return nil
}

// words are the runs of letters and digits in a text.
func words(s string) map[string]int {
	m := map[string]int{}
	for _, w := range strings.FieldsFunc(s, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) }) {
		m[w]++
	}
	return m
}

// checkText checks that descriptions are in comments, and there in full.
func checkText(p *procDef, src string) error {
	var s scanner.Scanner
	fset := token.NewFileSet()
	s.Init(fset.AddFile("x.go", -1, len(src)), []byte(src), nil, scanner.ScanComments)
	var comments, code strings.Builder
	for {
		_, tok, lit := s.Scan()
		if tok == token.EOF {
			break
		}
		if tok == token.COMMENT {
			comments.WriteString(lit + "\n")
		} else {
			code.WriteString(lit + " ")
		}
	}
	all := words(comments.String())
	check := func(what, desc string, marks []string) error {
		for w := range words(desc) {
			if all[w] == 0 {
				return fmt.Errorf("the word %q of the description of %s is in no comment", w, what)
			}
		}
		for _, m := range marks {
			if strings.Contains(code.String(), m) {
				return fmt.Errorf("%q of the description of %s is in the code", m, what)
			}
			if n := strings.Count(comments.String(), m); n != 1 {
				return fmt.Errorf("%q of the description of %s is in comments %d times", m, what, n)
			}
		}
		return nil
	}
	for _, o := range p.options {
		if err := check(o.name, o.desc, o.marks); err != nil {
			return err
		}
	}
	return check("the processor", p.desc, p.marks)
}

// codeLines leaves out comment lines, whose text gofmt does not always bring
// to its final form at once.
func codeLines(src string) string {
	var out []string
	for _, l := range strings.Split(src, "\n") {
		if !strings.HasPrefix(strings.TrimSpace(l), "//") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// splitProcess takes the method Process out of a file.
func splitProcess(src string) (rest, fn string, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return "", "", err
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv == nil || fd.Name.Name != "Process" {
			continue
		}
		from, to := fset.Position(fd.Pos()).Offset, fset.Position(fd.End()).Offset
		out, err := format.Source([]byte(src[:from] + src[to:]))
		return string(out), src[from:to], err
	}
	return "", "", fmt.Errorf("no method Process")
}

func methodCount(fset *token.FileSet, files map[string]string, names []string) int {
	n := 0
	for _, name := range names {
		f, err := parser.ParseFile(fset, name, files[name], 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv != nil && fd.Name.Name == "Process" {
				n++
			}
		}
	}
	return n
}

func TestC22_Files(t *testing.T) {
	bin := program(t, "generator")
	base := t.TempDir()
	impSet := token.NewFileSet()
	imp := newImporter(impSet)
	vlib.Run(t, vlib.Spec{Quick: 6000, Thorough: 100000,
		Rule: "The processor generator on a random definition file (0 to 5 processors, 0 to 6 options each, awkward descriptions, several YAML styles); the files are parsed, type-checked against the compiled packages of the repository, compared with the definitions, generated again in place and elsewhere, again after Process was moved to another file, and after the definitions changed. Non-trivial: at least one processor with two options. Distinct by file."}, func(t *rapid.T, c *vlib.Case) {
		k := &kit{names: map[string]bool{}}
		defs := drawDefs(t, k, 5, false)
		text := defFile(t, defs, 0)
		for _, d := range defs {
			if len(d.options) >= 2 {
				c.NonTrivial(text)
			}
			for _, o := range d.options {
				c.ClassIf(o.def != nil, "default")
				c.ClassIf(o.required, "required")
			}
		}
		dir, err := os.MkdirTemp(base, "x")
		if err != nil {
			t.Fatalf("VERIF-ERROR: %v", err)
		}
		defer os.RemoveAll(dir)
		one, two := filepath.Join(dir, "one"), filepath.Join(dir, "two")
		for _, d := range []string{one, two} {
			if err := os.Mkdir(d, 0o755); err != nil {
				t.Fatalf("VERIF-ERROR: %v", err)
			}
			write(t, filepath.Join(d, "processors.yml"), text)
		}
		where := text
		generate := func(cwd string, args ...string) {
			if out, code := runIn(t, cwd, append([]string{bin}, args...)...); code != 0 {
				t.Fatalf("the generator failed with status %d: %s\n%s", code, out, where)
			}
		}
		generate(one) // processors.yml of the working directory.
		generate(dir, "-p", filepath.Join("two", "processors.yml"))
		files := tree(t, one)
		if other := tree(t, two); !reflect.DeepEqual(files, other) {
			t.Fatalf("two runs gave different files: %s\n%v\n%v", where, files, other)
		}
		if len(files) != len(defs)+1 || files["processors.yml"] != text {
			t.Fatalf("%d files for %d processors: %s", len(files)-1, len(defs), where)
		}
		if len(defs) > 0 && rapid.IntRange(0, 3).Draw(t, "blocked") == 0 {
			// An output that cannot be written, or no definitions.
			three := filepath.Join(dir, "three")
			p := defs[rapid.IntRange(0, len(defs)-1).Draw(t, "which")]
			block := rapid.IntRange(0, 2).Draw(t, "block")
			switch block {
			case 0: // A directory with the file's name.
				if err := os.MkdirAll(filepath.Join(three, p.name, p.name+".go"), 0o755); err != nil {
					t.Fatalf("VERIF-ERROR: %v", err)
				}
			case 1: // A file with the directory's name.
				if err := os.Mkdir(three, 0o755); err != nil {
					t.Fatalf("VERIF-ERROR: %v", err)
				}
				write(t, filepath.Join(three, p.name), "x")
			}
			if block < 2 {
				write(t, filepath.Join(three, "processors.yml"), text)
			}
			out, code := runIn(t, dir, bin, "-p", filepath.Join("three", "processors.yml"))
			if code == 0 || strings.TrimSpace(out) == "" || strings.Contains(out, "goroutine ") {
				t.Fatalf("status %d, %q, though %s: %s", code, out, []string{p.name + ".go is a directory", p.name + " is a file", "there is no definition file"}[block], where)
			}
			c.Class("no output possible")
			if err := os.RemoveAll(three); err != nil {
				t.Fatalf("VERIF-ERROR: %v", err)
			}
		}
		check := func(p *procDef, files map[string]string, names ...string) {
			for _, n := range names {
				src, found := files[n]
				if !found {
					t.Fatalf("no file %s: %s", n, where)
				}
				out, err := format.Source([]byte(src))
				if err != nil {
					t.Fatalf("%s: %v: %s\n%s", n, err, where, src)
				}
				if codeLines(string(out)) != codeLines(src) {
					t.Fatalf("%s is not formatted: %s\n%s", n, where, src)
				}
			}
			if err := checkPackage(token.NewFileSet(), imp, p, files, names); err != nil {
				t.Fatalf("%s: %v: %s\n%s", p.name, err, where, files[names[0]])
			}
			if err := checkText(p, files[names[0]]); err != nil {
				t.Fatalf("%s: %v: %s\n%s", p.name, err, where, files[names[0]])
			}
		}
		for _, p := range defs {
			name := filepath.Join(p.name, p.name+".go")
			check(p, files, name)
			if n := methodCount(token.NewFileSet(), files, []string{name}); n != 1 {
				t.Fatalf("%s has %d methods Process: %s\n%s", p.name, n, where, files[name])
			}
		}
		generate(one)
		if again := tree(t, one); !reflect.DeepEqual(files, again) {
			t.Fatalf("running again changed files: %s\n%v\n%v", where, files, again)
		}

		// Move Process of some processors.
		moved := map[string]bool{}
		for _, p := range defs {
			if rapid.IntRange(0, 1).Draw(t, "move") == 0 {
				continue
			}
			moved[p.name] = true
			name := filepath.Join(p.name, p.name+".go")
			rest, fn, err := splitProcess(files[name])
			if err != nil {
				t.Fatalf("%s: %v: %s", name, err, where)
			}
			proc := "package " + strings.ToLower(p.name) + "\n\nimport \"github.com/andrewkroh/go-sawmill/pkg/processor\"\n\n// Process is the real one.\n" + fn + "\n"
			out, err := format.Source([]byte(proc))
			if err != nil {
				t.Fatalf("VERIF-ERROR: %v\n%s", err, proc)
			}
			write(t, filepath.Join(one, name), rest)
			write(t, filepath.Join(one, otherFile(p)), string(out))
		}
		if len(moved) == 0 {
			return
		}
		c.Class("moved")
		before := tree(t, one)
		generate(one)
		after := tree(t, one)
		for _, p := range defs {
			name, proc := filepath.Join(p.name, p.name+".go"), otherFile(p)
			if !moved[p.name] {
				if after[name] != files[name] {
					t.Fatalf("%s changed: %s\n%s", name, where, after[name])
				}
				continue
			}
			if after[proc] != before[proc] {
				t.Fatalf("%s changed: %s\n%s", proc, where, after[proc])
			}
			if n := methodCount(token.NewFileSet(), after, []string{name}); n != 0 {
				t.Fatalf("%s got another Process: %s\n%s", p.name, where, after[name])
			}
			check(p, after, name, proc)
		}
		if len(after) != len(before) {
			t.Fatalf("other files: %s", where)
		}
		generate(one)
		if again := tree(t, one); !reflect.DeepEqual(again, after) {
			t.Fatalf("running again changed files: %s\n%v\n%v", where, after, again)
		}

		// Then the definitions change.
		if rapid.Bool().Draw(t, "evolve") {
			return
		}
		c.Class("definitions changed")
		var defs2 []*procDef
		for _, p := range defs {
			p2 := &procDef{name: p.name}
			k.fill(t, p2, false)
			switch rapid.IntRange(0, 3).Draw(t, "keep") {
			case 0:
				p2.desc, p2.marks = p.desc, p.marks
			case 1:
				p2.options = p.options
			case 2:
				p2 = p
			}
			if len(defs) == 1 || rapid.IntRange(0, 5).Draw(t, "leave out") < 5 {
				defs2 = append(defs2, p2)
			}
		}
		text2 := defFile(t, defs2, 0)
		where += "\nthen\n" + text2
		write(t, filepath.Join(one, "processors.yml"), text2)
		before = tree(t, one)
		generate(one)
		after = tree(t, one)
		if len(after) != len(before) {
			t.Fatalf("other files: %s", where)
		}
		touched := map[string]bool{}
		for _, p := range defs2 {
			name, proc := filepath.Join(p.name, p.name+".go"), otherFile(p)
			touched[name] = true
			want := 1
			names := []string{name}
			if moved[p.name] {
				want = 0
				names = append(names, proc)
			}
			if n := methodCount(token.NewFileSet(), after, []string{name}); n != want {
				t.Fatalf("%s has %d methods Process, want %d: %s\n%s", name, n, want, where, after[name])
			}
			check(p, after, names...)
		}
		for n := range before {
			if !touched[n] && after[n] != before[n] {
				t.Fatalf("%s changed: %s\n%s", n, where, after[n])
			}
		}
	})
}

// mainProgram creates processors as a script says and prints what they hold.
const mainProgram = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
%s)

type step struct {
	Name    string
	Options map[string]interface{}
}

type result struct {
	Err  string
	Held map[string]string
}

func main() {
	var steps []step
	if err := json.NewDecoder(os.Stdin).Decode(&steps); err != nil {
		panic(err)
	}
	results := []result{}
	for _, s := range steps {
		r := result{Held: map[string]string{}}
		p, err := registry.NewProcessor(s.Name, s.Options)
		if err != nil {
			r.Err = err.Error()
			results = append(results, r)
			continue
		}
		c := reflect.ValueOf(p).MethodByName("Config").Call(nil)[0]
		for i := 0; i < c.NumField(); i++ {
			v := c.Field(i)
			r.Held[c.Type().Field(i).Tag.Get("config")] = fmt.Sprintf("%%v", v.Interface())
			if v.Kind() == reflect.String {
				r.Held[c.Type().Field(i).Tag.Get("config")] = fmt.Sprintf("%%q", v.Interface())
			}
		}
		if err := p.Process(nil); err != nil {
			r.Err = "Process: " + err.Error()
		}
		if x, ok := p.(fmt.Stringer); !ok || !strings.HasPrefix(x.String(), s.Name+"=") {
			r.Err = "no String"
		}
		results = append(results, r)
	}
	json.NewEncoder(os.Stdout).Encode(results)
}
`

type step struct {
	Name    string
	Options map[string]interface{}
	fails   bool
	want    map[string]string
}

// heldText is how a value of an option is printed.
func heldText(o *option, v interface{}) string {
	switch v := v.(type) {
	case nil:
		switch o.typ {
		case "string":
			return `""`
		case "bool":
			return "false"
		case "[]string", "[]int", "[]bool", "[]map[string]interface{}":
			return "[]"
		case "map[string]interface{}", "map[string]string", "map[string][]map[string]interface{}":
			return "map[]"
		case "interface{}":
			return "<nil>"
		case "time.Duration":
			return "0s"
		}
		return "0"
	case string:
		return fmt.Sprintf("%q", v)
	case float64:
		if o.typ == "float32" {
			return fmt.Sprint(float32(v))
		}
		return fmt.Sprint(v)
	}
	return fmt.Sprint(v)
}

func TestC22_Build(t *testing.T) {
	bin := program(t, "generator")
	base := t.TempDir()
	cfg, err := exports()
	if err != nil {
		t.Fatal("VERIF-ERROR:", err)
	}
	vlib.Run(t, vlib.Spec{Quick: 64, Thorough: 1200,
		Rule: "A batch of 1 to 12 random definition files: the generated packages are compiled and linked into one program, which creates every processor through the registry with random subsets of its scalar options; expected are the given values and the declared defaults, and failure if a required option without value is left out. Non-trivial: at least five options. Distinct by batch."}, func(t *rapid.T, c *vlib.Case) {
		dir, err := os.MkdirTemp(base, "b")
		if err != nil {
			t.Fatalf("VERIF-ERROR: %v", err)
		}
		defer os.RemoveAll(dir)
		k := &kit{names: map[string]bool{}}
		var imports strings.Builder
		var steps []step
		var log strings.Builder
		link := new(bytes.Buffer)
		for _, name := range sortedKeys(cfg) {
			fmt.Fprintf(link, "packagefile %s=%s\n", name, cfg[name])
		}
		std := filepath.Join(dir, "std.cfg")
		write(t, std, link.String())
		options := 0
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "files"); i < n; i++ {
			d := filepath.Join(dir, fmt.Sprintf("d%d", i))
			if err := os.Mkdir(d, 0o755); err != nil {
				t.Fatalf("VERIF-ERROR: %v", err)
			}
			defs := drawDefs(t, k, 4, false)
			text := defFile(t, defs, 0)
			log.WriteString(text + "\n")
			write(t, filepath.Join(d, "processors.yml"), text)
			if out, code := runIn(t, d, bin, "-p", "processors.yml"); code != 0 {
				t.Fatalf("the generator failed with status %d: %s\n%s", code, out, text)
			}
			for _, p := range defs {
				path := fmt.Sprintf("gen/d%d/%s", i, p.name)
				obj := filepath.Join(d, p.name+".a")
				src := filepath.Join(d, p.name, p.name+".go")
				if out, code := runIn(t, d, "go", "tool", "compile", "-p", path, "-importcfg", std, "-complete", "-o", obj, src); code != 0 {
					data, _ := os.ReadFile(src)
					t.Fatalf("compiling %s: %s\n%s\n%s", p.name, out, text, data)
				}
				fmt.Fprintf(&imports, "\t_ %q\n", path)
				fmt.Fprintf(link, "packagefile %s=%s\n", path, obj)
				options += len(p.options)
				for r := 0; r < 3; r++ {
					s := step{Name: p.name, Options: map[string]interface{}{}, want: map[string]string{}}
					skip := false
					for _, o := range p.options {
						give := r == 1 || r == 2 && rapid.Bool().Draw(t, "give")
						value := o.def
						if give || r == 0 && o.required {
							v := drawGiven(t, o)
							if v != nil {
								s.Options[o.name] = v
								value = v
							}
						}
						if _, given := s.Options[o.name]; !given && o.required {
							// The configuration library does not see that a bool or
							// a value is missing, nor one with a default.
							sure := o.def == nil && o.typ != "bool" && o.typ != eventValue
							s.fails = s.fails || sure
							// A default that is not the zero value will do.
							skip = skip || !sure && (o.def == nil || heldText(o, o.def) == heldText(o, nil) || o.def == int64(0))
						}
						if o.typ != eventValue && !composite(o.typ) {
							s.want[o.name] = heldText(o, value)
							if n, ok := o.def.(int64); ok && o.typ == "time.Duration" && value == o.def {
								s.want[o.name] = time.Duration(n).String()
							}
							if value == "5m0s" {
								s.want[o.name] = "5m0s"
							}
						}
					}
					if !skip || s.fails {
						steps = append(steps, s)
					}
				}
			}
		}
		if options >= 5 {
			c.NonTrivial(log.String())
		}
		write(t, filepath.Join(dir, "main.go"), fmt.Sprintf(mainProgram, imports.String()))
		write(t, filepath.Join(dir, "all.cfg"), link.String())
		if out, code := runIn(t, dir, "go", "tool", "compile", "-p", "main", "-importcfg", "all.cfg", "-o", "main.a", "main.go"); code != 0 {
			t.Fatalf("compiling the program: %s\n%s", out, log.String())
		}
		if out, code := runIn(t, dir, "go", "tool", "link", "-s", "-w", "-importcfg", "all.cfg", "-o", "prog", "main.a"); code != 0 {
			t.Fatalf("linking the program: %s\n%s", out, log.String())
		}
		script, err := json.Marshal(steps)
		if err != nil {
			t.Fatalf("VERIF-ERROR: %v", err)
		}
		write(t, filepath.Join(dir, "script"), string(script))
		out, code := runIn(t, dir, "sh", "-c", "./prog <script")
		if code != 0 {
			t.Fatalf("the program failed: %s\n%s", out, log.String())
		}
		var results []struct {
			Err  string
			Held map[string]string
		}
		if err := json.Unmarshal([]byte(out), &results); err != nil || len(results) != len(steps) {
			t.Fatalf("the program printed %q (%v)", out, err)
		}
		for i, s := range steps {
			r := results[i]
			if s.fails {
				c.Class("required missing")
				if r.Err == "" {
					t.Fatalf("%s created with %v although a required option is missing\n%s", s.Name, s.Options, log.String())
				}
				continue
			}
			if r.Err != "" {
				t.Fatalf("%s with %v: %s\n%s", s.Name, s.Options, r.Err, log.String())
			}
			for name, want := range s.want {
				if got, found := r.Held[name]; !found || got != want {
					t.Fatalf("%s with %v holds %s for %s, want %s\n%s", s.Name, s.Options, got, name, want, log.String())
				}
			}
		}
	})
}

func composite(typ string) bool {
	return strings.HasPrefix(typ, "[]") || strings.HasPrefix(typ, "map") || typ == "interface{}"
}

// drawGiven generates a value to give for an option, or nil.
func drawGiven(t *rapid.T, o *option) interface{} {
	switch o.typ {
	case "string":
		return rapid.SampledFrom([]string{"x", "a.b", "true", "1"}).Draw(t, "string")
	case "bool":
		return rapid.Bool().Draw(t, "bool") || o.required
	case "[]string":
		return []string{"x", "y"}
	case "[]int":
		return []int{1, 2}
	case "[]bool":
		return []bool{true, false}
	case "[]map[string]interface{}":
		return []map[string]interface{}{{"k": "v"}}
	case "map[string][]map[string]interface{}":
		return map[string]interface{}{"k": []map[string]interface{}{{"k": "v"}}}
	case "map[string]interface{}", "map[string]string":
		return map[string]interface{}{"k": "v"}
	case "interface{}", eventValue:
		return "any"
	case "time.Duration":
		return "5m0s"
	case "float32", "float64":
		return float64(rapid.IntRange(1, 1000).Draw(t, "float")) / 8
	}
	return rapid.IntRange(1, 127).Draw(t, "int")
}

func sortedKeys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// otherFile is where a moved Process goes.
func otherFile(p *procDef) string {
	if p.name == "process" {
		return filepath.Join(p.name, "impl.go")
	}
	return filepath.Join(p.name, "process.go")
}

// TestC22_Findings probes for what is recorded in known_findings.txt.
func TestC22_Findings(t *testing.T) {
	bin := program(t, "generator")
	base := t.TempDir()
	vlib.Run(t, vlib.Spec{Quick: 1, Thorough: 1, Rule: "the recorded findings, probed once per shard"}, func(t *rapid.T, c *vlib.Case) {
		dir, err := os.MkdirTemp(base, "x")
		if err != nil {
			t.Fatalf("VERIF-ERROR: %v", err)
		}
		defer os.RemoveAll(dir)
		write(t, filepath.Join(dir, "processors.yml"), "processors:\n- a:\n    description: |-\n      One line.\n      +build ignore\n    configuration: []\n")
		out, code := runIn(t, dir, bin)
		src := tree(t, dir)["a/a.go"]
		if i := strings.Index(src, "+build ignore"); code != 0 || i < strings.Index(src, "package a") {
			fmt.Printf("\nVERIF-FINDING plus-build a description line that starts with +build becomes a build constraint (status %d %q)\n", code, out)
		}
	})
}
