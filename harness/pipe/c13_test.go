package pipe

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	"verif/harness/vlib"
)

// def is the model of a pipeline definition.
type def struct {
	id, description string
	procs, fail     []*procDef
}

type procDef struct {
	types   []string // One, in a usable definition.
	null    bool     // No options at all.
	id, cnd string
	fail    []*procDef
	options *vlib.MV
	depth   int // How deep its handlers are nested.
}

var optionNames = []string{"field", "value", "fields", "target_field", "ignore_missing", "name", "description", "processors",
	"config", "Config", "x", "a.b", "ids", "if_", "_id", "on-failure", "onfailure", "ID_", "ID", "Id", "IF", "If", "On_Failure", "ON_FAILURE", "0", "1", "true", "null", "~", "yes", "key with space", "ä", "-", "?", ": ", "#", "type"}

func optionName() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		var n string
		if rapid.IntRange(0, 3).Draw(t, "any") == 3 {
			n = yamlSafe(rapid.StringN(1, 6, -1).Draw(t, "name"))
		} else {
			n = rapid.SampledFrom(optionNames).Draw(t, "name")
		}
		if s, ok := vlib.NovelText(t, 6); ok {
			n = yamlSafe(s)
		}
		for _, r := range []string{"id", "if", "on_failure"} {
			if n == r || n == "<<" {
				return "x" + n
			}
		}
		return n
	})
}

// optionCount is how many members or elements an option gets.
func optionCount(t *rapid.T, depth int) int {
	if depth == 3 && rapid.IntRange(0, 60).Draw(t, "many") == 60 {
		return vlib.Size(t, "n", []int{9, 16, 17, 33, 65}, 300)
	}
	return rapid.IntRange(0, 3).Draw(t, "n")
}

func optionValue(t *rapid.T, depth int) *vlib.MV {
	k := rapid.IntRange(0, 9).Draw(t, "kind")
	if depth == 0 && k > 6 {
		k -= 5
	}
	switch k {
	case 0:
		return vlib.MNull()
	case 1:
		return vlib.MBool(rapid.Bool().Draw(t, "b"))
	case 2:
		if rapid.IntRange(0, 3).Draw(t, "unsigned") == 3 {
			return vlib.MUint(vlib.Uint64().Draw(t, "u"))
		}
		return vlib.MInt(vlib.Int64().Draw(t, "i"))
	case 3:
		return vlib.MFloat(vlib.Finite().Draw(t, "f"))
	case 4, 5, 6:
		return vlib.MStr(definitionText(t))
	case 7, 8:
		m := vlib.MArr()
		for i, n := 0, optionCount(t, depth); i < n; i++ {
			m.A = append(m.A, optionValue(t, depth-1))
		}
		return m
	default:
		m := vlib.MObj(nil)
		for i, n := 0, optionCount(t, depth); i < n; i++ {
			name := optionName().Draw(t, "name")
			if i > 5 {
				name += strconv.Itoa(i)
			}
			if rapid.IntRange(0, 3).Draw(t, "reserved") == 3 {
				name = rapid.SampledFrom([]string{"id", "if", "on_failure", "ID"}).Draw(t, "name")
			}
			m.O[name] = optionValue(t, depth-1)
		}
		return m
	}
}

// withBreaks lets texts have line breaks, which yaml.v3 does not always write
// so that it reads them back.
var withBreaks sync.Map // *rapid.T -> true

func definitionText(t *rapid.T) string {
	if _, with := withBreaks.Load(t); with && rapid.IntRange(0, 9).Draw(t, "breaks") == 9 {
		return yamlSafe(rapid.SampledFrom([]string{"line\n", "\nline", "a\nb\n\n", "\r\n", "a\r\nb", " \n x", "a\u2028b", "\n", "\n\n", "a \n", strings.Repeat("x", 2000), vlib.Text().Draw(t, "text")}).Draw(t, "breaking"))
	}
	s := rapid.OneOf(vlib.Text(), rapid.SampledFrom([]string{
		"yes", "no", "on", "y", "~", "null", "1", "0x10", "1.5", "1e3", ".inf", "2020-01-01", "2001-12-14t21:59:43.10-05:00", "- a", "a: b", "a #b", "#", "2024-02-29 23:59:59.999999999", "1999-1-2T3:04:05Z", "2020-02-30", "20-01-01", "&a", "*a", "!x", "|", ">", "%", "@", "`",
		multiLine, strings.Repeat("long text ", 30), " lead", "trail ", "\ttab", "{a: b}", "[x]", "ctx.x == 'y'", "0o17", "0b1", "1_000", "=", "<<", "---", "..."})).Draw(t, "text")
	if s != multiLine {
		s = strings.Map(func(r rune) rune {
			if isBreak(r) {
				return '_'
			}
			return r
		}, s)
	}
	return yamlSafe(s)
}

const multiLine = "line 1\nline 2\n\n  line 3"

// yamlSafe replaces what yaml.v3 itself does not write and read back even in
// quotes.
func yamlSafe(s string) string {
	simple := true
	for i := 0; i < len(s) && simple; i++ {
		simple = s[i] >= ' ' && s[i] <= '~'
	}
	if simple {
		return s
	}
	n := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s, Style: yaml.DoubleQuotedStyle}
	data, err := yaml.Marshal(map[string]*yaml.Node{"k": n})
	var out map[string]interface{}
	if err != nil || yaml.Unmarshal(data, &out) != nil || out["k"] != s {
		return "unsafe"
	}
	return s
}

// autoSafe says whether yaml.v3 writes a text so that it reads it back: not so
// for some with line breaks.
func autoSafe(s string) bool {
	if s == multiLine {
		return true
	}
	if strings.IndexFunc(s, isBreak) >= 0 {
		return false
	}
	autoSafes.Lock()
	defer autoSafes.Unlock()
	if safe, known := autoSafes.m[s]; known {
		return safe
	}
	safe := roundTrips(s)
	if autoSafes.m == nil || len(autoSafes.m) > 20000 {
		autoSafes.m = map[string]bool{}
	}
	autoSafes.m[s] = safe
	return safe
}

var autoSafes struct {
	sync.Mutex
	m map[string]bool
}

func isBreak(r rune) bool {
	return r == '\n' || r == '\r' || r == '\u0085' || r == '\u2028' || r == '\u2029'
}

func roundTrips(s string) bool {
	in := []interface{}{map[string]interface{}{"k": s}, s}
	data, err := yaml.Marshal(in)
	var out []interface{}
	return err == nil && yaml.Unmarshal(data, &out) == nil && reflect.DeepEqual(in, out)
}

// allAutoSafe says so for all texts and names in a value.
func allAutoSafe(m *vlib.MV) bool {
	switch m.Kind {
	case vlib.Str:
		return autoSafe(m.S)
	case vlib.Arr:
		for _, x := range m.A {
			if !allAutoSafe(x) {
				return false
			}
		}
	case vlib.Obj:
		for k, x := range m.O {
			if !autoSafe(k) || !allAutoSafe(x) {
				return false
			}
		}
	}
	return true
}

func drawDef(t *rapid.T) *def {
	if rapid.IntRange(0, 5).Draw(t, "with breaks") == 5 {
		withBreaks.Store(t, true)
		defer withBreaks.Delete(t)
	}
	budget, first := 16, 4
	if rapid.IntRange(0, 60).Draw(t, "long") == 60 {
		budget, first = 90, 80
	}
	var done []*procDef
	var list func(depth, max int) []*procDef
	list = func(depth, max int) []*procDef {
		var out []*procDef
		for i, n := 0, rapid.IntRange(0, max).Draw(t, "procs"); i < n && budget > 0; i++ {
			budget--
			if len(done) > 0 && rapid.IntRange(0, 9).Draw(t, "same again") == 7 {
				p := done[rapid.IntRange(0, len(done)-1).Draw(t, "which")]
				if p.depth+depth < 4 {
					out = append(out, p)
					continue
				}
			}
			p := &procDef{options: vlib.MObj(nil)}
			p.types = []string{rapid.SampledFrom([]string{"set", "append", "pass", "a.b", "id", "if", "on_failure", "true", "1", "Set", "ä"}).Draw(t, "type")}
			if s, ok := vlib.NovelText(t, 5); ok && simpleName.MatchString(s) {
				p.types[0] = s
			}
			out = append(out, p)
			if rapid.IntRange(0, 7).Draw(t, "null") == 7 {
				p.null = true
				continue
			}
			if rapid.Bool().Draw(t, "hasid") {
				p.id = definitionText(t)
			}
			if rapid.Bool().Draw(t, "hasif") {
				p.cnd = definitionText(t)
			}
			for k, n := 0, rapid.IntRange(0, 4).Draw(t, "options"); k < n; k++ {
				p.options.O[optionName().Draw(t, "option")] = optionValue(t, 3)
			}
			if depth < 3 && rapid.Bool().Draw(t, "handlers") {
				p.fail = list(depth+1, 3)
				for _, f := range p.fail {
					if p.depth <= f.depth {
						p.depth = f.depth + 1
					}
				}
			}
			done = append(done, p)
		}
		return out
	}
	d := &def{id: definitionText(t)}
	if rapid.Bool().Draw(t, "described") {
		d.description = definitionText(t)
	}
	d.procs = list(0, first)
	d.fail = list(0, 2)
	return d
}

// tree returns the definition as a plain model value with all members in place.
func (d *def) tree(t *rapid.T) *vlib.MV {
	m := vlib.MObj(nil)
	text(t, m, "id", d.id)
	text(t, m, "description", d.description)
	list(t, m, "processors", d.procs)
	list(t, m, "on_failure", d.fail)
	return m
}

func text(t *rapid.T, m *vlib.MV, name, s string) {
	if s != "" || rapid.IntRange(0, 3).Draw(t, "empty") == 3 {
		m.O[name] = vlib.MStr(s)
	}
}

func list(t *rapid.T, m *vlib.MV, name string, procs []*procDef) {
	if len(procs) == 0 {
		switch rapid.IntRange(0, 4).Draw(t, "empty") {
		case 3:
			m.O[name] = vlib.MArr()
		case 4:
			m.O[name] = vlib.MNull()
		}
		return
	}
	a := vlib.MArr()
	for _, p := range procs {
		e := vlib.MObj(nil)
		for _, typ := range p.types {
			if p.null {
				e.O[typ] = vlib.MNull()
				continue
			}
			o := p.options.Clone()
			text(t, o, "id", p.id)
			text(t, o, "if", p.cnd)
			list(t, o, "on_failure", p.fail)
			e.O[typ] = o
		}
		a.A = append(a.A, e)
	}
	m.O[name] = a
}

// shuffled returns the names of an object in random order.
func shuffled(t *rapid.T, m *vlib.MV) []string {
	keys := m.Keys()
	if len(keys) > 1 && rapid.Bool().Draw(t, "shuffle") {
		return rapid.Permutation(keys).Draw(t, "order")
	}
	return keys
}

func toJSON(t *rapid.T, sb *strings.Builder, m *vlib.MV) {
	switch m.Kind {
	case vlib.Null:
		sb.WriteString("null")
	case vlib.Bool:
		sb.WriteString(strconv.FormatBool(m.B))
	case vlib.Int:
		sb.WriteString(strconv.FormatInt(m.I, 10))
	case vlib.Uint:
		sb.WriteString(strconv.FormatUint(m.U, 10))
	case vlib.Float:
		sb.WriteString(strconv.FormatFloat(m.F, 'g', -1, 64))
	case vlib.Str:
		quote(sb, m.S)
	case vlib.Arr:
		sb.WriteByte('[')
		for i, x := range m.A {
			if i > 0 {
				sb.WriteString(", ")
			}
			toJSON(t, sb, x)
		}
		sb.WriteByte(']')
	case vlib.Obj:
		sb.WriteByte('{')
		for i, k := range shuffled(t, m) {
			if i > 0 {
				sb.WriteString(",\n")
			}
			quote(sb, k)
			sb.WriteString(": ")
			toJSON(t, sb, m.O[k])
		}
		sb.WriteByte('}')
	default:
		panic("kind")
	}
}

func quote(sb *strings.Builder, s string) {
	data, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	sb.Write(data)
}

// yamlWriter makes YAML nodes of model values.
type yamlWriter struct {
	// For each text of a model value, a node with that content, if the document
	// is to have aliases.
	seen    map[string]*yaml.Node
	merges  bool // Whether to use merge keys.
	forms   bool // Whether to use all forms of scalars.
	anchors int
	aliased bool
	merged  bool
}

func newYAMLWriter(t *rapid.T) *yamlWriter {
	w := &yamlWriter{forms: rapid.IntRange(0, 2).Draw(t, "forms") == 1}
	if rapid.IntRange(0, 3).Draw(t, "aliases") == 2 {
		w.seen = map[string]*yaml.Node{}
	}
	w.merges = rapid.IntRange(0, 5).Draw(t, "merges") == 3
	return w
}

func (w *yamlWriter) str(t *rapid.T, s string) *yaml.Node {
	n := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s}
	switch {
	case !plainText(s) || !autoSafe(s) || rapid.Bool().Draw(t, "quoted"):
		n.Style = yaml.DoubleQuotedStyle
	case looksLikeDate(s):
		n.Tag = "!!timestamp" // Unquoted.
	}
	if w.forms && rapid.IntRange(0, 3).Draw(t, "style") == 2 {
		other := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s, Style: rapid.SampledFrom([]yaml.Style{yaml.SingleQuotedStyle, yaml.LiteralStyle, yaml.FoldedStyle}).Draw(t, "which")}
		var back map[string][]string
		data, err := yaml.Marshal(map[string][]*yaml.Node{"x": {other, other}})
		if err == nil && s != "" && !strings.Contains(s, "\n") && yaml.Unmarshal(data, &back) == nil && reflect.DeepEqual(back["x"], []string{s, s}) {
			return other
		}
	}
	return n
}

// document makes the nodes of a whole document, in which aliases follow what
// they stand for.
func (w *yamlWriter) document(t *rapid.T, m *vlib.MV) *yaml.Node {
	root := w.node(t, m)
	written := map[*yaml.Node]bool{}
	var settle func(n *yaml.Node)
	settle = func(n *yaml.Node) {
		if n.Kind == yaml.AliasNode {
			if written[n.Alias] {
				return
			}
			*n = *copyNode(n.Alias)
		}
		for _, child := range n.Content {
			settle(child)
		}
		written[n] = true
	}
	settle(root)
	return root
}

// dress writes a document with comments, explicit tags, markers and other line
// breaks, which mean nothing. There is no result if yaml.v3 itself sees a
// difference.
func dress(t *rapid.T, doc *yaml.Node, plain []byte) []byte {
	if rapid.IntRange(0, 2).Draw(t, "comments") > 0 {
		words := []string{"# note", "# id: other", "# - set: {a: b}", "#", "# on_failure:", "# é \"'"}
		var visit func(n *yaml.Node)
		visit = func(n *yaml.Node) {
			if n.Kind == yaml.AliasNode {
				return
			}
			switch rapid.IntRange(0, 12).Draw(t, "comment") {
			case 5:
				n.HeadComment = rapid.SampledFrom(words).Draw(t, "head")
			case 6:
				n.LineComment = rapid.SampledFrom(words).Draw(t, "line")
			case 7:
				n.FootComment = rapid.SampledFrom(words).Draw(t, "foot")
			case 8:
				n.Style |= yaml.TaggedStyle
				if n.Tag == "" {
					n.Tag = n.ShortTag()
				}
			}
			for _, child := range n.Content {
				visit(child)
			}
		}
		visit(doc)
	}
	out, err := yaml.Marshal(doc)
	if err != nil {
		return nil
	}
	text := string(out)
	switch rapid.IntRange(0, 7).Draw(t, "start") {
	case 3:
		text = "---\n" + text
	case 4:
		text = "%YAML 1.2\n---\n" + text
	case 5:
		text = "# first\n\n--- # start\n" + text
	case 6:
		text = "\ufeff" + text
	}
	switch rapid.IntRange(0, 5).Draw(t, "end") {
	case 3:
		text += "...\n"
	case 4:
		text += "# last"
	case 2:
		text += "\n\n  \n"
	}
	if rapid.IntRange(0, 5).Draw(t, "breaks") == 4 {
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	var was, is any
	if yaml.Unmarshal(plain, &was) != nil || yaml.Unmarshal([]byte(text), &is) != nil || !reflect.DeepEqual(was, is) {
		return nil
	}
	return []byte(text)
}

func copyNode(n *yaml.Node) *yaml.Node {
	out := *n
	if n.Kind != yaml.AliasNode {
		out.Anchor = ""
	}
	out.Content = nil
	for _, child := range n.Content {
		out.Content = append(out.Content, copyNode(child))
	}
	return &out
}

func (w *yamlWriter) node(t *rapid.T, m *vlib.MV) *yaml.Node {
	key := ""
	if w.seen != nil {
		key = m.String()
		if old := w.seen[key]; old != nil && rapid.Bool().Draw(t, "alias") {
			if old.Anchor == "" {
				w.anchors++
				old.Anchor = fmt.Sprintf("n%d", w.anchors)
			}
			w.aliased = true
			return &yaml.Node{Kind: yaml.AliasNode, Value: old.Anchor, Alias: old}
		}
	}
	n := w.fresh(t, m)
	if w.seen != nil && w.seen[key] == nil {
		w.seen[key] = n
	}
	return n
}

func (w *yamlWriter) fresh(t *rapid.T, m *vlib.MV) *yaml.Node {
	n := &yaml.Node{Kind: yaml.ScalarNode}
	switch m.Kind {
	case vlib.Null:
		n.Tag, n.Value = "!!null", rapid.SampledFrom([]string{"null", "~", "Null", "NULL"}).Draw(t, "null")
	case vlib.Bool:
		n.Tag, n.Value = "!!bool", strconv.FormatBool(m.B)
		if w.forms {
			n.Value = rapid.SampledFrom([]string{n.Value, strings.ToUpper(n.Value), strings.ToUpper(n.Value[:1]) + n.Value[1:]}).Draw(t, "form")
		}
	case vlib.Int:
		n.Tag, n.Value = "!!int", strconv.FormatInt(m.I, 10)
		if w.forms && m.I >= 0 {
			n.Value = rapid.SampledFrom([]string{n.Value, "+" + n.Value, fmt.Sprintf("0x%x", m.I), fmt.Sprintf("0o%o", m.I), fmt.Sprintf("0b%b", m.I), n.Value[:1] + "_" + n.Value[1:]}).Draw(t, "form")
		}
	case vlib.Uint:
		n.Tag, n.Value = "!!int", strconv.FormatUint(m.U, 10)
	case vlib.Float:
		n.Tag, n.Value = "!!float", strconv.FormatFloat(m.F, 'g', -1, 64)
		if w.forms {
			n.Value = rapid.SampledFrom([]string{n.Value, strconv.FormatFloat(m.F, 'e', -1, 64), strconv.FormatFloat(m.F, 'E', -1, 64)}).Draw(t, "form")
		}
	case vlib.Str:
		return w.str(t, m.S)
	case vlib.Arr:
		n.Kind = yaml.SequenceNode
		for _, x := range m.A {
			n.Content = append(n.Content, w.node(t, x))
		}
	case vlib.Obj:
		n.Kind = yaml.MappingNode
		keys := shuffled(t, m)
		if w.merges && len(keys) > 0 && rapid.IntRange(0, 3).Draw(t, "merge") == 2 {
			w.merge(t, n, m, keys)
			break
		}
		for _, k := range keys {
			n.Content = append(n.Content, w.str(t, k), w.node(t, m.O[k]))
		}
	default:
		panic("kind")
	}
	if n.Kind != yaml.ScalarNode && rapid.IntRange(0, 3).Draw(t, "flow") == 3 {
		n.Style = yaml.FlowStyle
	}
	return n
}

// merge writes an object as one that has some of its members from one or two
// merged ones, some of whose members are overridden.
func (w *yamlWriter) merge(t *rapid.T, n *yaml.Node, m *vlib.MV, keys []string) {
	w.merged = true
	from := []*yaml.Node{{Kind: yaml.MappingNode}}
	if rapid.Bool().Draw(t, "two") {
		from = append(from, &yaml.Node{Kind: yaml.MappingNode})
	}
	for _, k := range keys {
		where := rapid.IntRange(-1, len(from)-1).Draw(t, "where")
		to := n
		if where >= 0 {
			to = from[where]
		}
		to.Content = append(to.Content, w.str(t, k), w.node(t, m.O[k]))
		if where+1 < len(from) && rapid.IntRange(0, 3).Draw(t, "overrides") == 2 {
			// Overridden by the above, in a node of the same kind.
			other := &yaml.Node{Kind: yaml.SequenceNode}
			switch m.O[k].Kind {
			case vlib.Obj:
				other.Kind = yaml.MappingNode
			case vlib.Arr:
			default:
				other = w.str(t, "overridden")
			}
			from[len(from)-1].Content = append(from[len(from)-1].Content, w.str(t, k), other)
		}
	}
	value := from[0]
	if len(from) > 1 || rapid.Bool().Draw(t, "list") {
		value = &yaml.Node{Kind: yaml.SequenceNode, Content: from}
	}
	at := 2 * rapid.IntRange(0, len(n.Content)/2).Draw(t, "at")
	rest := append([]*yaml.Node(nil), n.Content[at:]...)
	n.Content = append(append(n.Content[:at:at], &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!merge", Value: "<<"}, value), rest...)
}

// looksLikeDate says whether an unquoted text is a timestamp for yaml.v3.
func looksLikeDate(s string) bool {
	var n yaml.Node
	return yaml.Unmarshal([]byte(s), &n) == nil && len(n.Content) == 1 && n.Content[0].ShortTag() == "!!timestamp"
}

// plainText says whether the emitter may choose the style of a text.
func plainText(s string) bool {
	for _, r := range s {
		if r != '\n' && (r < ' ' || r > '~') {
			return false
		}
	}
	return strings.Trim(s, " \n") == s && s != "<<"
}

// plainOf brings decoded options into the model, all numbers as doubles.
func plainOf(v interface{}) *vlib.MV {
	switch v := v.(type) {
	case nil:
		return vlib.MNull()
	case bool:
		return vlib.MBool(v)
	case string:
		return vlib.MStr(v)
	case int:
		return number(float64(v))
	case int64:
		return number(float64(v))
	case uint64:
		return number(float64(v))
	case float64:
		return number(v)
	case []interface{}:
		m := vlib.MArr()
		for _, x := range v {
			m.A = append(m.A, plainOf(x))
		}
		return m
	case map[string]interface{}:
		m := vlib.MObj(nil)
		for k, x := range v {
			m.O[k] = plainOf(x)
		}
		return m
	}
	return vlib.MStr(fmt.Sprintf("UNEXPECTED %T %v", v, v))
}

func number(f float64) *vlib.MV {
	if f == 0 {
		f = math.Abs(f) // YAML has no negative integer zero.
	}
	return vlib.MFloat(f)
}

// asDoubles turns all numbers of a model into doubles.
func asDoubles(m *vlib.MV) *vlib.MV {
	m = m.Clone()
	m.Walk(func(x *vlib.MV) {
		switch x.Kind {
		case vlib.Int:
			*x = *number(float64(x.I))
		case vlib.Uint:
			*x = *number(float64(x.U))
		case vlib.Float:
			*x = *number(x.F)
		}
	})
	return m
}

// describe writes a configuration in one canonical form: empty lists, absent
// lists, and options that are missing or empty are the same.
func describe(c *pipeline.Config) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "id=%q description=%q ", c.ID, c.Description)
	var list func(l []pipeline.ProcessorConfig)
	list = func(l []pipeline.ProcessorConfig) {
		sb.WriteByte('[')
		for _, p := range l {
			var types []string
			for k := range p {
				types = append(types, k)
			}
			sort.Strings(types)
			for _, k := range types {
				o := p[k]
				if o == nil {
					o = &pipeline.ProcessorOptionConfig{}
				}
				describeProc(&sb, k, o.ID, string(o.If), plainOf(map[string]interface{}(o.Config)), func() { list(o.OnFailure) })
			}
			sb.WriteByte(';')
		}
		sb.WriteByte(']')
	}
	list(c.Processors)
	list(c.OnFailure)
	return sb.String()
}

func describeProc(sb *strings.Builder, typ, id, cnd string, options *vlib.MV, handlers func()) {
	fmt.Fprintf(sb, "%q(id=%q if=%q %v ", typ, id, cnd, options)
	handlers()
	sb.WriteByte(')')
}

func (d *def) describe() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "id=%q description=%q ", d.id, d.description)
	var list func(l []*procDef)
	list = func(l []*procDef) {
		sb.WriteByte('[')
		for _, p := range l {
			types := append([]string(nil), p.types...)
			sort.Strings(types)
			for _, k := range types {
				describeProc(&sb, k, p.id, p.cnd, asDoubles(p.options), func() { list(p.fail) })
			}
			sb.WriteByte(';')
		}
		sb.WriteByte(']')
	}
	list(d.procs)
	list(d.fail)
	return sb.String()
}

func TestC13_Definitions(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 40000, Thorough: 800000,
		Rule: "a random definition (nested handlers, ids, conditions, options of every kind with awkward names and texts) written as JSON and as YAML in random key order and style, decoded from both, compared with the definition, then encoded as JSON and as YAML and decoded again, crosswise; non-trivial: at least one processor with two options or with handlers",
	}, func(t *rapid.T, c *vlib.Case) {
		d := drawDef(t)
		want := d.describe()
		tree := d.tree(t)
		yamlToo := allAutoSafe(tree)
		c.ClassIf(!yamlToo, "encoded as JSON only")
		var js strings.Builder
		toJSON(t, &js, tree)
		w := newYAMLWriter(t)
		doc := w.document(t, d.tree(t))
		yml, err := yaml.Marshal(doc)
		if err == nil && rapid.IntRange(0, 2).Draw(t, "dress") == 1 {
			if dressed := dress(t, doc, yml); dressed != nil {
				yml = dressed
				c.Class("comments and markers")
			}
		}
		c.ClassIf(w.aliased, "aliases")
		c.ClassIf(w.merged, "merge keys")
		c.ClassIf(w.forms, "all forms")
		if err != nil {
			t.Fatalf("harness: %v", err)
		}
		var fromJSON, fromYAML *pipeline.Config
		vlib.NoPanic(t, "decoding", func() {
			if err := json.Unmarshal([]byte(js.String()), &fromJSON); err != nil {
				t.Fatalf("decoding JSON %s: %v", js.String(), err)
			}
			if err := yaml.Unmarshal(yml, &fromYAML); err != nil {
				t.Fatalf("decoding YAML %s: %v", yml, err)
			}
		})
		if got := describe(fromJSON); got != want {
			t.Fatalf("JSON %s:\n got %s\nwant %s", js.String(), got, want)
		}
		if got := describe(fromYAML); got != want {
			t.Fatalf("YAML %s:\n got %s\nwant %s", yml, got, want)
		}
		from := fromJSON
		if rapid.Bool().Draw(t, "from YAML") {
			from = fromYAML
		}
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "rounds"); i < n; i++ {
			var data []byte
			var back *pipeline.Config
			asYAML := rapid.Bool().Draw(t, "as YAML") && yamlToo
			vlib.NoPanic(t, "encoding", func() {
				var err error
				if asYAML {
					if data, err = yaml.Marshal(from); err == nil {
						err = yaml.Unmarshal(data, &back)
					}
				} else {
					if data, err = json.Marshal(from); err == nil {
						err = json.Unmarshal(data, &back)
					}
				}
				if err != nil {
					t.Fatalf("%s, encoded as YAML: %v as %s: %v", want, asYAML, data, err)
				}
			})
			if got := describe(back); got != want {
				t.Fatalf("encoded (YAML: %v) as %s:\n got %s\nwant %s", asYAML, data, got, want)
			}
			if got := describe(from); got != want {
				t.Fatalf("encoding changed the configuration from %s to %s", want, got)
			}
			from = back
		}
		interesting := false
		var walk func(l []*procDef, depth int)
		walk = func(l []*procDef, depth int) {
			for _, p := range l {
				interesting = interesting || len(p.options.O) > 1 || len(p.fail) > 0
				c.Class(fmt.Sprintf("depth %d", depth))
				c.ClassIf(p.null, "null options")
				walk(p.fail, depth+1)
			}
		}
		walk(d.procs, 0)
		walk(d.fail, 0)
		if interesting {
			c.NonTrivial(want)
		}
	})
}

// TestC13_Behaviour: pipelines built from either form do the same.
func TestC13_Behaviour(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 10000, Thorough: 200000,
		Rule: "a random pipeline of built-in processors, written as JSON and as YAML, built from both and given the same events; results are compared as JSON; non-trivial: an event was returned and the pipeline has two processors",
	}, func(t *rapid.T, c *vlib.Case) {
		conf := drawBuiltinConfig(t)
		js, err := json.Marshal(conf)
		if err != nil {
			t.Fatalf("encoding: %v", err)
		}
		var plain interface{}
		if err := yaml.Unmarshal(js, &plain); err != nil {
			t.Fatalf("harness: %v", err)
		}
		yml, err := yaml.Marshal(plain)
		if err != nil {
			t.Fatalf("harness: %v", err)
		}
		var a, b *pipeline.Config
		if err := json.Unmarshal(js, &a); err != nil {
			t.Fatalf("JSON %s: %v", js, err)
		}
		if err := yaml.Unmarshal(yml, &b); err != nil {
			t.Fatalf("YAML %s: %v", yml, err)
		}
		pa, err := pipeline.New(a)
		if err != nil {
			t.Fatalf("JSON %s: New: %v", js, err)
		}
		pb, err := pipeline.New(b)
		if err != nil {
			t.Fatalf("YAML %s: New: %v", yml, err)
		}
		good := 0
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "events"); i < n; i++ {
			m := drawEventFor(t)
			ea, erra := pa.Process(m.Event())
			eb, errb := pb.Process(m.Event())
			ra, rb := resultOf(ea, erra), resultOf(eb, errb)
			if ra.evt != nil {
				ra.evt = asDoubles(ra.evt)
				good++
			}
			if rb.evt != nil {
				rb.evt = asDoubles(rb.evt)
			}
			if !ra.equal(rb) {
				t.Fatalf("%s on %v:\nfrom JSON %v\nfrom YAML %v", js, m, ra, rb)
			}
		}
		if good > 0 && len(conf.Processors) > 1 {
			c.NonTrivial(string(js))
		}
	})
}
