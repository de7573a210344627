package vlib

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf16"

	"pgregory.net/rapid"
)

// JSONText draws a JSON document text together with what it means: any
// spelling of whitespace, strings, numbers and duplicate keys.
type JSONText struct {
	T         *rapid.T
	Depth     int
	Dups      int // Duplicate keys drawn.
	Escapes   int
	NumForms  int
	Nulls     int
	EmptyCont int
	sb        strings.Builder
}

// Object draws an object and returns its meaning.
func (j *JSONText) Object() (string, *MV) {
	j.ws()
	m := j.object(j.Depth)
	j.ws()
	return j.sb.String(), m
}

// Value draws any JSON value and returns its meaning.
func (j *JSONText) Value() (string, *MV) {
	j.ws()
	m := j.value(j.Depth)
	j.ws()
	return j.sb.String(), m
}

func (j *JSONText) ws() {
	if rapid.IntRange(0, 5).Draw(j.T, "ws") == 5 {
		j.sb.WriteString(rapid.StringOfN(rapid.SampledFrom([]rune(" \t\n\r")), 1, 3, -1).Draw(j.T, "space"))
	}
}

func (j *JSONText) object(depth int) *MV {
	m := MObj(nil)
	j.sb.WriteByte('{')
	n := rapid.IntRange(0, 4).Draw(j.T, "members")
	var names []string
	for i := 0; i < n; i++ {
		if i > 0 {
			j.sb.WriteByte(',')
		}
		j.ws()
		name := Name(AnyName).Draw(j.T, "name")
		if len(names) > 0 && rapid.IntRange(0, 5).Draw(j.T, "dup") == 5 {
			name = names[rapid.IntRange(0, len(names)-1).Draw(j.T, "of")]
		}
		if _, found := m.O[name]; found {
			j.Dups++
		}
		names = append(names, name)
		j.str(name)
		j.ws()
		j.sb.WriteByte(':')
		j.ws()
		m.O[name] = j.value(depth - 1)
		j.ws()
	}
	if n == 0 {
		j.EmptyCont++
		j.ws()
	}
	j.sb.WriteByte('}')
	return m
}

func (j *JSONText) value(depth int) *MV {
	k := rapid.IntRange(0, 9).Draw(j.T, "kind")
	if k >= 6 && depth <= 0 {
		k = 3
	}
	switch k {
	case 0:
		j.sb.WriteString("null")
		j.Nulls++
		return MNull()
	case 1:
		b := rapid.Bool().Draw(j.T, "b")
		fmt.Fprint(&j.sb, b)
		return MBool(b)
	case 2, 3:
		return j.number()
	case 4, 5:
		s := Text().Draw(j.T, "s")
		j.str(s)
		return MStr(s)
	case 6, 7:
		m := MArr()
		j.sb.WriteByte('[')
		n := rapid.IntRange(0, 4).Draw(j.T, "items")
		for i := 0; i < n; i++ {
			if i > 0 {
				j.sb.WriteByte(',')
			}
			j.ws()
			m.A = append(m.A, j.value(depth-1))
			j.ws()
		}
		if n == 0 {
			j.EmptyCont++
			j.ws()
		}
		j.sb.WriteByte(']')
		return m
	default:
		return j.object(depth)
	}
}

func (j *JSONText) number() *MV {
	t := j.T
	var s string
	switch rapid.IntRange(0, 4).Draw(t, "numkind") {
	case 0:
		s = strconv.FormatInt(Int64().Draw(t, "i"), 10)
	case 1:
		s = strconv.FormatUint(Uint64().Draw(t, "u"), 10)
	case 2:
		s = strconv.FormatFloat(Finite().Draw(t, "f"), rapid.SampledFrom([]byte{'e', 'E', 'f', 'g'}).Draw(t, "fmt"), rapid.IntRange(-1, 20).Draw(t, "prec"), 64)
	case 3:
		s = rapid.SampledFrom([]string{"-0", "0", "-0.0", "0e5", "0E-5", "1e+5", "1E05", "1.50", "0.1e1", "123456789012345678901234567890", "9007199254740993", "1e308", "4.9e-324", "1e-400", "0.1", "-1e-7", "1e21", "100000000000000000000"}).Draw(t, "n")
	default:
		j.NumForms++
		var sb strings.Builder
		if rapid.Bool().Draw(t, "neg") {
			sb.WriteByte('-')
		}
		d := rapid.StringOfN(rapid.SampledFrom([]rune("0123456789")), 1, 25, -1).Draw(t, "int")
		d = strings.TrimLeft(d, "0")
		if d == "" {
			d = "0"
		}
		sb.WriteString(d)
		if rapid.Bool().Draw(t, "frac") {
			sb.WriteString("." + rapid.StringOfN(rapid.SampledFrom([]rune("0123456789")), 1, 25, -1).Draw(t, "fr"))
		}
		if rapid.Bool().Draw(t, "exp") {
			sb.WriteString(rapid.SampledFrom([]string{"e", "E", "e+", "E+", "e-", "E-"}).Draw(t, "e"))
			sb.WriteString(strconv.Itoa(rapid.IntRange(0, 280).Draw(t, "exponent")))
		}
		s = sb.String()
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsInf(f, 0) {
		s, f = "17", 17
	}
	j.sb.WriteString(s)
	return MFloat(f)
}

func (j *JSONText) str(s string) {
	j.sb.WriteByte('"')
	mode := rapid.IntRange(0, 3).Draw(j.T, "esc") // 0, 1: only where needed.
	for _, r := range s {
		esc := r < 0x20 || r == '"' || r == '\\'
		if mode >= 2 && !esc {
			esc = mode == 3 || rapid.Bool().Draw(j.T, "e")
		}
		if !esc {
			j.sb.WriteRune(r)
			continue
		}
		j.Escapes++
		if i := strings.IndexRune("\"\\/\b\f\n\r\t", r); i >= 0 && rapid.Bool().Draw(j.T, "short") {
			j.sb.WriteByte('\\')
			j.sb.WriteByte("\"\\/bfnrt"[strings.IndexByte("\"\\/\b\f\n\r\t", byte(r))])
			continue
		}
		format := rapid.SampledFrom([]string{`\u%04x`, `\u%04X`}).Draw(j.T, "hex")
		if r >= 0x10000 {
			a, b := utf16.EncodeRune(r)
			fmt.Fprintf(&j.sb, format+format, a, b)
		} else {
			fmt.Fprintf(&j.sb, format, r)
		}
	}
	j.sb.WriteByte('"')
}

// SameJSON compares a decoded JSON value (interface{} as encoding/json gives
// it) with the meaning of a document; numbers as doubles, -0 and 0 alike.
func SameJSON(got interface{}, want *MV) bool {
	switch want.Kind {
	case Null:
		return got == nil
	case Bool:
		b, ok := got.(bool)
		return ok && b == want.B
	case Float:
		f, ok := got.(float64)
		return ok && f == want.F
	case Str:
		s, ok := got.(string)
		return ok && s == want.S
	case Arr:
		a, ok := got.([]interface{})
		if !ok || len(a) != len(want.A) {
			return false
		}
		for i := range a {
			if !SameJSON(a[i], want.A[i]) {
				return false
			}
		}
		return true
	case Obj:
		o, ok := got.(map[string]interface{})
		if !ok || len(o) != len(want.O) {
			return false
		}
		for k, x := range o {
			y, found := want.O[k]
			if !found || !SameJSON(x, y) {
				return false
			}
		}
		return true
	}
	return false
}
