package gen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"go/token"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/vlib"
)

// option is the model of a configuration option.
type option struct {
	name, typ          string
	required, optional bool
	def                interface{} // nil, string, bool, int64, uint64 or float64.
	desc               string
	marks              []string // Words that occur in the description only.
}

// procDef is the model of a processor definition.
type procDef struct {
	name, desc string
	options    []*option
	marks      []string
	null       bool // No definition at all.
}

func (p *procDef) sorted() []*option {
	l := append([]*option(nil), p.options...)
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	return l
}

const eventValue = "github.com/andrewkroh/go-sawmill/pkg/config.EventValue"

var optionTypes = []string{"string", "string", "string", "bool", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64",
	"float32", "float64", "[]string", "map[string]interface{}", "time.Duration", eventValue, "[]int", "interface{}",
	"[]map[string]interface{}", "map[string]string", "map[string][]map[string]interface{}", "[]bool"}

// Types that only the README shows.
var readmeTypes = append([]string{"any", "map", "config.EventValue", "[]" + eventValue, "*" + eventValue, "enum", "map[string]interface", "regexp.Regexp"}, optionTypes...)

// kit generates names that are unique as far as they have to be.
type kit struct {
	names map[string]bool
	marks int
	tag   string
}

var badNames = map[string]bool{"config": true, "new": true, "main": true}

// badSuffixes make a file name special to the Go tools.
func badSuffix(s string) bool {
	_, last, found := cutLast(s, "_")
	if !found {
		return false
	}
	switch last {
	case "test", "linux", "windows", "darwin", "amd64", "arm64", "arm", "js", "wasm", "unix", "plan9", "freebsd", "openbsd", "netbsd", "android", "ios", "aix",
		"solaris", "illumos", "dragonfly", "hurd", "nacl", "zos", "386", "ppc64", "ppc64le", "mips", "mipsle", "mips64", "mips64le", "riscv64", "riscv", "s390x", "loong64", "wasip1", "sparc64", "sparc", "s390", "ppc", "amd64p32", "armbe", "arm64be":
		return true
	}
	return false
}

func cutLast(s, sep string) (string, string, bool) {
	if i := strings.LastIndex(s, sep); i >= 0 {
		return s[:i], s[i+1:], true
	}
	return s, "", false
}

// ident squeezes a name the way names can collide in Go.
func ident(s string) string {
	return strings.ToLower(strings.Map(func(r rune) rune {
		if r == '_' || r == '.' || r == '@' {
			return -1
		}
		return r
	}, s))
}

func (k *kit) procName(t *rapid.T) string {
	s := rapid.OneOf(
		rapid.SampledFrom([]string{"set", "append", "parse_ip", "user_agent", "id", "grok", "string", "error", "processor", "registry", "a", "x1", "geo_ip_2", "init", "fmt", "process", "Kv", "camelCase", "json", "event", "len", "nil", "c", "p"}),
		rapid.StringMatching(`[a-z][a-z0-9]{0,6}(_[a-z0-9]{1,5}){0,2}`)).Draw(t, "name")
	if n, ok := vlib.NovelText(t, 6); ok && identifier.MatchString(n) && !strings.Contains(n, ".") {
		s = n
	}
	for token.IsKeyword(strings.ToLower(s)) || badNames[ident(s)] || badSuffix(s) || k.names[ident(s)] {
		s += "q"
	}
	k.names[ident(s)] = true
	return s
}

var identifier = regexp.MustCompile(`^[a-z][a-zA-Z0-9]*([_.][a-z][a-zA-Z0-9]*)*$`)

func optName(t *rapid.T, used map[string]bool) string {
	s := rapid.OneOf(
		rapid.SampledFrom([]string{"field", "target_field", "ignore_missing", "ignore_failure", "value", "id", "ip", "source.ip", "@timestamp", "icmp_code", "a", "b", "x_1", "type", "func", "process", "string", "name", "if", "on_failure", "ecs_mac", "aBC", "config", "processors"}),
		rapid.StringMatching(`[a-z][a-z0-9]{0,6}([_.][a-z][a-z0-9]{0,5}){0,2}`)).Draw(t, "option")
	if n, ok := vlib.NovelText(t, 12); ok && identifier.MatchString(n) {
		s = n
	}
	for used[ident(s)] || ident(s) == "initdefaults" {
		s += "q"
	}
	used[ident(s)] = true
	return s
}

// text generates a description with marks in it.
func (k *kit) text(t *rapid.T, readme bool) (string, []string) {
	var sb strings.Builder
	var marks []string
	n := rapid.IntRange(0, 14).Draw(t, "words")
	if rapid.IntRange(0, 79).Draw(t, "long text") == 43 {
		n = rapid.IntRange(15, 500).Draw(t, "more words")
	}
	if m, ok := vlib.NovelSize(t, 30, 200); ok {
		n = m
	}
	for i := 0; i < n; i++ {
		switch w := rapid.IntRange(0, 11).Draw(t, "word"); {
		case w < 5:
			k.marks++
			m := k.tag + "zq" + strconv.Itoa(k.marks) + "qz"
			marks = append(marks, m)
			sb.WriteString(m)
		case w < 7:
			sb.WriteString(rapid.SampledFrom([]string{"*/", "/*", "//", "`", "\"", "'", "{{", "}}", "{{ .Name }}", "|", "\\", "func init() { panic(1) }", "go:embed a", "go:build x", "//go:generate x",
				"Deprecated:", "- item", "1. one", "=", "<b>", "[x](y)", "%s", "$", "&amp;", "_x_", "*x*", "package x", "}", ")", "import \"C\"", "``quoted''", "#!", ": y", "null", "---", "a | b", "x|"}).Draw(t, "piece"))
		case w == 7:
			sb.WriteString(strings.Repeat("longword", rapid.IntRange(1, 40).Draw(t, "long")))
		case w == 8 && vlib.HasNovelText() && rapid.Bool().Draw(t, "novel text"):
			s, _ := vlib.NovelWord(t, 1)
			sb.WriteString(s)
		case w == 8:
			sb.WriteString(rapid.StringOfN(rapid.RuneFrom([]rune("aZ09äß日本😀’—")), 1, 12, -1).Draw(t, "letters"))
		default:
			sb.WriteString("word")
		}
		sep := rapid.SampledFrom([]string{" ", " ", " ", " ", "\n", "\n", "  ", "\n\n", "\n\n\n", "\n    ", "\n\t", "\t", " \n", "\r\n", "\r", "\u00a0", "\u2028", "\u0085", ", ", ". ", "\n# ", "\n - "}).Draw(t, "sep")
		if readme && strings.ContainsAny(sep, "\u2028\u0085") {
			sep = " "
		}
		if !readme && sep == "\r" { // Go sources hold no carriage returns.
			sep = " "
		}
		sb.WriteString(sep)
	}
	s := sb.String()
	if rapid.IntRange(0, 2).Draw(t, "trim") > 0 {
		s = strings.TrimSpace(s)
	}
	if rapid.IntRange(0, 4).Draw(t, "lead") == 0 {
		s = rapid.SampledFrom([]string{"\n", " ", "\n\n", "\t"}).Draw(t, "leading") + s
	}
	return s, marks
}

func drawDefault(t *rapid.T, typ string) interface{} {
	if rapid.IntRange(0, 2).Draw(t, "has default") == 0 {
		return nil
	}
	signed := func(bits int) interface{} {
		lo, hi := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
		return rapid.OneOf(rapid.Int64Range(lo, hi), rapid.SampledFrom([]int64{0, 1, -1, lo, hi})).Draw(t, "int")
	}
	unsigned := func(bits int) interface{} {
		hi := uint64(1)<<(bits-1) - 1 + uint64(1)<<(bits-1)
		return rapid.OneOf(rapid.Uint64Range(0, hi), rapid.SampledFrom([]uint64{0, 1, hi})).Draw(t, "uint")
	}
	switch typ {
	case "string":
		if s, ok := vlib.NovelWord(t, 4); ok {
			return s
		}
		return rapid.OneOf(rapid.SampledFrom([]string{"", "source.ip", "true", "5", "null", "a b", "\"", "`", "\\", "\n", "x\ny", "{{ .Name }}", "%d", "ä", "日本", "|", "a|b", "'", "$", "\t", "*/", "#", "~", "2020-01-01", "0x1", ".inf", "\u2028", "\x00", "\u00a0"}),
			rapid.StringN(0, 8, -1)).Draw(t, "string")
	case "bool":
		return rapid.Bool().Draw(t, "bool")
	case "int", "int64", "time.Duration":
		return signed(64)
	case "int8":
		return signed(8)
	case "int16":
		return signed(16)
	case "int32":
		return signed(32)
	case "uint", "uint64":
		return unsigned(64)
	case "uint8":
		return unsigned(8)
	case "uint16":
		return unsigned(16)
	case "uint32":
		return unsigned(32)
	case "float32":
		return 0 + float64(float32(rapid.OneOf(rapid.Float64Range(-1e30, 1e30), rapid.SampledFrom([]float64{0, 0.5, -2.25, 1e10, 3})).Draw(t, "float")))
	case "float64":
		return 0 + rapid.OneOf(rapid.Float64Range(-1e300, 1e300), rapid.SampledFrom([]float64{0, 0.1, -2.25, 1e21, 1e-9, 3, math.MaxFloat64})).Draw(t, "float")
	}
	return nil
}

// drawDefs generates the processors of a definition file.
func drawDefs(t *rapid.T, k *kit, max int, readme bool) []*procDef {
	var out []*procDef
	if rapid.IntRange(0, 24).Draw(t, "many processors") == 24 {
		max = 14
	}
	for i, n := 0, rapid.IntRange(0, max).Draw(t, "processors"); i < n; i++ {
		p := &procDef{name: k.procName(t)}
		if rapid.IntRange(0, 19).Draw(t, "null") == 0 {
			p.null = true
			out = append(out, p)
			continue
		}
		k.fill(t, p, readme)
		out = append(out, p)
	}
	return out
}

// fill generates the contents of a definition.
func (k *kit) fill(t *rapid.T, p *procDef, readme bool) {
	types := optionTypes
	if readme {
		types = readmeTypes
	}
	p.desc, p.marks = k.text(t, readme)
	used := map[string]bool{}
	max := 6
	if rapid.IntRange(0, 24).Draw(t, "many options") == 24 {
		max = 20
	}
	for j, m := 0, rapid.IntRange(0, max).Draw(t, "options"); j < m; j++ {
		o := &option{name: optName(t, used), typ: rapid.SampledFrom(types).Draw(t, "type")}
		switch rapid.IntRange(0, 6).Draw(t, "need") {
		case 0, 1:
			o.required = true
		case 2, 3, 4:
			o.optional = true
		case 5:
			o.required, o.optional = true, true
		}
		o.desc, o.marks = k.text(t, readme)
		o.def = drawDefault(t, o.typ)
		p.options = append(p.options, o)
	}
}

// quoted writes a string as a double-quoted YAML scalar.
func quoted(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r == '\n':
			sb.WriteString(`\n`)
		case r < 0x20 || r == 0x7f || r >= 0x80 && r < 0xa1 || r == 0x2028 || r == 0x2029 || r == 0xfeff || r == utf8.RuneError || r >= 0xfffe && r <= 0xffff:
			if r > 0xff {
				fmt.Fprintf(&sb, `\u%04x`, r)
			} else {
				fmt.Fprintf(&sb, `\x%02x`, r)
			}
		case r > 0xffff:
			fmt.Fprintf(&sb, `\U%08x`, r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func plainWord(s string) bool {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_') {
			return false
		}
	}
	switch strings.ToLower(s) {
	case "", "true", "false", "null", "yes", "no", "on", "off", "y", "n":
		return false
	}
	return true
}

// scalar writes a string in one of the styles it can be written in.
func scalar(t *rapid.T, s, indent string) string {
	switch k := rapid.IntRange(0, 3).Draw(t, "style"); {
	case k == 0 && plainWord(s):
		return s
	case k == 1 && !strings.ContainsAny(s, "\n\r\t\u0085\u2028\u2029\u00a0\ufeff") && printable(s):
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	case k >= 2 && literal(s):
		var sb strings.Builder
		sb.WriteString("|-")
		if strings.HasSuffix(s, "\n") {
			sb.Reset()
			sb.WriteString("|")
			s = strings.TrimSuffix(s, "\n")
		}
		for _, l := range strings.Split(s, "\n") {
			sb.WriteString("\n")
			if l != "" {
				sb.WriteString(indent + l)
			}
		}
		return sb.String()
	}
	return quoted(s)
}

func printable(s string) bool {
	for _, r := range s {
		if r < 0x20 || r == 0x7f || r == utf8.RuneError || r > 0xffff {
			return false
		}
	}
	return true
}

// literal says whether a block scalar of plain indentation can hold s.
func literal(s string) bool {
	if s == "" || strings.HasSuffix(s, "\n\n") || s == "\n" || !utf8.ValidString(s) {
		return false
	}
	if s[0] == ' ' || s[0] == '\n' || s[0] == '\t' || strings.ContainsAny(s, "\r\t\u0085\u2028\u2029\ufeff") {
		return false
	}
	return printable(strings.ReplaceAll(s, "\n", ""))
}

// defFile writes a definition file. unknown, if not 0, says where a key goes
// that is not known: 1 at the top, 2 in a processor, 3 in an option.
func defFile(t *rapid.T, defs []*procDef, unknown int) string {
	var sb, common strings.Builder
	spot := 0
	if len(defs) > 0 {
		spot = rapid.IntRange(0, len(defs)-1).Draw(t, "spot")
	}
	key := rapid.SampledFrom([]string{"extra", "descriptions", "nme", "Name", "default_value", "processor"}).Draw(t, "key")
	sb.WriteString("processors:")
	if len(defs) == 0 {
		sb.WriteString(rapid.SampledFrom([]string{" []", ""}).Draw(t, "empty"))
	}
	sb.WriteString("\n")
	newItem := true
	anchors := 0
	placed := unknown == 0
	for i, p := range defs {
		lead := "    "
		if newItem {
			lead = "  - "
		}
		newItem = rapid.IntRange(0, 3).Draw(t, "item") > 0
		name := p.name
		if !plainWord(name) {
			name = quoted(name)
		}
		sb.WriteString(lead + name + ":")
		if p.null {
			sb.WriteString("\n")
			continue
		}
		body := func(s string) { sb.WriteString("\n      " + s) }
		if p.desc != "" || rapid.Bool().Draw(t, "empty description") {
			body("description: " + scalar(t, p.desc, "        "))
		}
		if unknown == 2 && i == spot {
			placed = true
			body(key + ": x")
		}
		if len(p.options) > 0 {
			body("configuration:")
			order := rapid.Permutation(indices(len(p.options))).Draw(t, "order")
			for _, j := range order {
				o := p.options[j]
				var parts []string
				parts = append(parts, "name: "+scalar(t, o.name, "            "), "type: "+quoted(o.typ))
				if o.required || rapid.IntRange(0, 5).Draw(t, "explicit") == 0 {
					parts = append(parts, fmt.Sprintf("required: %v", o.required))
				}
				if o.optional {
					parts = append(parts, "optional: true")
				}
				if o.def != nil {
					parts = append(parts, "default: "+defaultText(t, o.def))
				}
				if o.desc != "" {
					parts = append(parts, "description: "+scalar(t, o.desc, "            "))
				}
				if unknown == 3 && i == spot {
					placed = true
					parts = append(parts, key+": x")
				}
				if rapid.IntRange(0, 4).Draw(t, "common") == 0 {
					// Some of it, or what is overridden, in an anchor.
					anchors++
					a := fmt.Sprintf("c%d", anchors)
					cut := rapid.IntRange(0, len(parts)).Draw(t, "cut")
					fmt.Fprintf(&common, "  %s: &%s\n", a, a)
					if cut > 0 {
						common.WriteString("    " + strings.Join(dedent(parts[:cut]), "\n    ") + "\n")
					} else {
						common.WriteString("    name: overridden\n    type: string\n")
					}
					parts = append([]string{"<<: *" + a}, parts[cut:]...)
				}
				sb.WriteString("\n        - " + strings.Join(parts, "\n          "))
			}
		}
		if (p.desc == "" && len(p.options) == 0) && strings.HasSuffix(sb.String(), ":") {
			sb.WriteString(" {}")
		}
		sb.WriteString("\n")
	}
	if unknown == 1 || !placed {
		sb.WriteString(key + ": x\n")
	}
	if common.Len() > 0 {
		return "---\ncommon_fields:\n" + common.String() + sb.String()
	}
	return sb.String()
}

// dedent moves block scalars to the indentation of common fields.
func dedent(parts []string) []string {
	var out []string
	for _, p := range parts {
		out = append(out, strings.ReplaceAll(p, "\n            ", "\n      "))
	}
	return out
}

func indices(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	return l
}

func defaultText(t *rapid.T, def interface{}) string {
	switch d := def.(type) {
	case string:
		return quoted(d)
	case float64:
		s := strconv.FormatFloat(d, 'g', -1, 64)
		if !strings.ContainsAny(s, ".e") && rapid.Bool().Draw(t, "point") {
			s += ".0"
		}
		if strings.Contains(s, "e") && !strings.Contains(s, ".") {
			s = strings.Replace(s, "e", ".0e", 1)
		}
		return s
	}
	return fmt.Sprint(def)
}

// program finds a program that was built for the checks.
func program(t *testing.T, name string) string {
	dir := os.Getenv("VERIF_SCRATCH")
	path := filepath.Join(dir, name)
	if _, err := os.Stat(path); dir == "" || err != nil {
		t.Fatalf("VERIF-ERROR: no program %q (%v)", path, err)
	}
	return path
}

// runIn runs a program and returns its output and exit status.
func runIn(t *rapid.T, dir string, cmd ...string) (string, int) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, cmd[0], cmd[1:]...)
	c.Dir = dir
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err := c.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		t.Fatalf("VERIF-ERROR: cannot run %v: %v", cmd, err)
	}
	if ctx.Err() != nil {
		t.Fatalf("%v did not end (%s)", cmd, vlib.Late)
	}
	return out.String(), c.ProcessState.ExitCode()
}

// tree reads all files below a directory.
func tree(t *rapid.T, dir string) map[string]string {
	m := map[string]string{}
	err := filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return err
		}
		data, err := os.ReadFile(path)
		rel, _ := filepath.Rel(dir, path)
		m[rel] = string(data)
		return err
	})
	if err != nil {
		t.Fatalf("VERIF-ERROR: %v", err)
	}
	return m
}

var _ = vlib.OneLine
