package vlib

import (
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// NameOpt says which field names are wanted.
type NameOpt int

// Which names.
const (
	AnyName     NameOpt = iota // Any valid UTF-8, the empty name included.
	NonEmpty                   // Not empty.
	NoBackslash                // Not empty, no backslash.
)

var fixedNames = []string{
	"a", "b", "c", "d", "ab", "a.b", "b.c", "a.", ".a", ".", "..", "a..b", "0", "1", "-1", "true", "null",
	"ä", "日本", "\u2028", "\x00", "\n", "\"", "a b", " ", "<&>", "\u0085", "😀", "key", "value", "@metadata", "/", "*", "%s", "a-b",
}

// Name generates field names, most of them from a small pool so that paths
// meet.
func Name(o NameOpt) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		if s, ok := NovelText(t, 8); ok {
			if o == NoBackslash {
				s = drop(s, '\\')
			}
			if s != "" {
				return s
			}
		}
		switch k := rapid.IntRange(0, 127).Draw(t, "nk"); {
		case k == 127 || k > 119 && HasNovelSize(5000):
			// Long, with and without dots.
			n := Size(t, "long", []int{16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}, 5000)
			return strings.Repeat(rapid.SampledFrom([]string{"n", "long.", "ä"}).Draw(t, "of"), n) + "e"
		default:
			return drawName(t, o, k%20)
		}
	})
}

func drawName(t *rapid.T, o NameOpt, k int) string {
	return func() string {
		switch {
		case k < 12:
			return rapid.SampledFrom([]string{"a", "b", "c", "d"}).Draw(t, "n")
		case k < 16:
			return rapid.SampledFrom(fixedNames).Draw(t, "n")
		case k < 18:
			n := rapid.StringN(1, 8, -1).Draw(t, "n")
			if o == NoBackslash {
				n = drop(n, '\\')
			}
			if n == "" {
				n = "x"
			}
			return n
		case k == 18 && o != NoBackslash:
			return rapid.SampledFrom([]string{`\`, `a\`, `\.`, `a\.b`, `\\`, `a\\.b`, `x\y`}).Draw(t, "n")
		case k == 19 && o == AnyName:
			return ""
		default:
			return rapid.SampledFrom([]string{"a.b", "x.y.z", "a", "b"}).Draw(t, "n")
		}
	}()
}

func drop(s string, c byte) string {
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] != c {
			out = append(out, s[i])
		}
	}
	return string(out)
}

var (
	edgeInts = []int64{0, 1, -1, 2, 127, 128, -128, 255, 256, 1 << 31, -(1 << 31), 1<<53 - 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1),
		math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1e15, 1600000000000000000, 999999999, 1000000000, -999999999}
	edgeUints  = []uint64{0, 1, 127, 128, 255, 1 << 14, 1<<53 + 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, math.MaxUint64 - 1, 1 << 63}
	edgeFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.5, 1e21, 1e20, -1e21, 1e-6, 1e-7, 9.999e-7, 1.5e300, math.MaxFloat64, -math.MaxFloat64,
		math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1 << 53, 1<<53 + 2, 4294967296, 123456789.125, 3.141592653589793, 1e22, 1e23, 0.30000000000000004}
)

var (
	int64s  = rapid.OneOf(rapid.SampledFrom(edgeInts), rapid.Int64(), rapid.Int64Range(-300, 300))
	uint64s = rapid.OneOf(rapid.SampledFrom(edgeUints), rapid.Uint64(), rapid.Uint64Range(0, 300))
)

// Int64 generates integers of every size.
func Int64() *rapid.Generator[int64] {
	return rapid.Custom(func(t *rapid.T) int64 {
		if i, ok := NovelInt(t, 8); ok {
			return i
		}
		return int64s.Draw(t, "int")
	})
}

// Uint64 generates unsigned integers of every size.
func Uint64() *rapid.Generator[uint64] {
	return rapid.Custom(func(t *rapid.T) uint64 {
		if i, ok := NovelInt(t, 8); ok {
			return uint64(i)
		}
		return uint64s.Draw(t, "uint")
	})
}

// Finite generates finite doubles.
func Finite() *rapid.Generator[float64] {
	return rapid.OneOf(rapid.SampledFrom(edgeFloats), rapid.Float64(), rapid.Custom(func(t *rapid.T) float64 {
		if f, ok := NovelFloat(t, 3); ok && !math.IsInf(f, 0) {
			return f
		}
		f := math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return 0.25
		}
		return f
	}))
}

// AnyDouble generates every bit pattern.
func AnyDouble() *rapid.Generator[float64] {
	return rapid.OneOf(Finite(), rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Float64frombits(0x7ff0000000000001), math.Float64frombits(0xfff8000000000123)}))
}

var texts = rapid.OneOf(
	rapid.SampledFrom([]string{"", "a", "b", "x", "Hello World", "ÄÖÜ ß ǅ İ ı", "a.b", "null", "1", "<script>&", "\u2028\u2029", "\x00\x1f\x7f", "\ufffd", "日本語", "😀", "\r\n", `"\"\\`, "true", "${x}", "2020-01-02T03:04:05Z",
		"A Long Text With The Same Start 1", "A Long Text With The Same Start 2", "a long text with the same start 1"}),
	rapid.String(), rapid.StringN(0, 5, -1))

// Text generates valid UTF-8.
func Text() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		if s, ok := NovelText(t, 8); ok {
			return s
		}
		return texts.Draw(t, "text")
	})
}

// Bytes generates arbitrary strings, invalid UTF-8 included.
func Bytes() *rapid.Generator[string] {
	return rapid.OneOf(Text(),
		rapid.SampledFrom([]string{"\xff", "a\x80b", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80"}),
		rapid.Custom(func(t *rapid.T) string {
			return string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "bytes"))
		}))
}

// ValueOpt says which values are wanted.
type ValueOpt struct {
	Names     NameOpt // Names inside objects.
	AnyDouble bool    // NaN and infinities too.
	AnyBytes  bool    // Invalid UTF-8 in strings too.
	Depth     int     // Levels of nesting at most.
	NoTime    bool    // No timestamps.
	NilNested bool    // Arrays and objects without storage.
	NilItems  bool    // Nulls of arrays that are nil pointers.
	NilFields bool    // The same in nested objects.
	Width     int     // Elements at most, 4 if zero.
}

// Value generates model values.
func Value(o ValueOpt) *rapid.Generator[*MV] {
	return rapid.Custom(func(t *rapid.T) *MV {
		if k := rapid.IntRange(0, 63).Draw(t, "stretch"); k == 63 || k > 57 && HasNovelSize(5000) {
			return Stretch(t, o)
		}
		return drawValue(t, o, o.Depth)
	})
}

var sizes = []int{9, 10, 11, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257}

// Stretch generates a value that is longer, wider or deeper than usual.
func Stretch(t *rapid.T, o ValueOpt) *MV {
	if o.Width == 0 {
		o.Width = 4
	}
	n := Size(t, "size", sizes, 5000)
	switch rapid.IntRange(0, 3).Draw(t, "stretched") {
	case 0: // A long text.
		if rapid.Bool().Draw(t, "longer") {
			n *= rapid.SampledFrom([]int{8, 16, 64}).Draw(t, "times")
		}
		if long, ok := NovelSize(t, 3, 200000); ok {
			n = long
		}
		s := strings.Repeat(rapid.SampledFrom([]string{"x", "ab c", "Ä", "\"\n", "日本"}).Draw(t, "of"), n)
		return MStr(s + rapid.SampledFrom([]string{"", "y", "Z", "ß"}).Draw(t, "end"))
	case 1: // A long list.
		m := MArr()
		few := []*MV{drawValue(t, o, 1), drawValue(t, o, 0), drawValue(t, o, 0)}
		if o.NilItems && rapid.IntRange(0, 2).Draw(t, "nil items") == 1 {
			few[1] = MNull()
			few[1].Nil = true
		}
		for i := 0; i < n; i++ {
			if i%5 == 4 || i == n-1 {
				m.A = append(m.A, few[i%3].Clone())
			} else {
				m.A = append(m.A, MInt(int64(i)))
			}
		}
		return m
	case 2: // A wide object.
		m := MObj(nil)
		few := []*MV{drawValue(t, o, 1), drawValue(t, o, 0), drawValue(t, o, 0)}
		if o.NilFields && rapid.IntRange(0, 2).Draw(t, "nil fields") == 1 {
			few[1] = MNull()
			few[1].Nil = true
		}
		for i := 0; i < n; i++ {
			m.O["f"+strconv.Itoa(i)] = few[i%3].Clone()
		}
		return m
	}
	// A deep one.
	v := drawValue(t, o, 1)
	kinds := rapid.IntRange(0, 2).Draw(t, "of")
	if n > 70 && !HasNovelSize(600) {
		n %= 70
	} else if n > 600 {
		n %= 600
	}
	for i := 0; i < n; i++ {
		if kinds == 0 || kinds == 1 && i%2 == 0 {
			v = MArr(v)
		} else {
			v = MObj(map[string]*MV{"d": v})
		}
	}
	return v
}

func drawValue(t *rapid.T, o ValueOpt, depth int) *MV {
	if o.Width == 0 {
		o.Width = 4
	}
	k := rapid.IntRange(0, 15).Draw(t, "kind")
	switch {
	case k > 8 && depth > 0: // More containers.
		k = 7 + k%2
		if k == 7 && rapid.Bool().Draw(t, "object") {
			k = 8
		}
	case k > 8:
		k = 5 // More strings.
	case k > 6 && depth <= 0:
		k = 4
	}
	switch k {
	case 0:
		return MNull()
	case 1:
		return MBool(rapid.Bool().Draw(t, "b"))
	case 2:
		return MInt(Int64().Draw(t, "i"))
	case 3:
		return MUint(Uint64().Draw(t, "u"))
	case 4:
		if o.AnyDouble {
			return MFloat(AnyDouble().Draw(t, "f"))
		}
		return MFloat(Finite().Draw(t, "f"))
	case 5:
		if o.AnyBytes {
			return MStr(Bytes().Draw(t, "s"))
		}
		return MStr(Text().Draw(t, "s"))
	case 6:
		if o.NoTime {
			return MInt(Int64().Draw(t, "i"))
		}
		return MTime(Int64().Draw(t, "t"))
	case 7:
		n := rapid.IntRange(0, o.Width).Draw(t, "n")
		m := MArr()
		if n == 0 && !o.NilNested {
			m.A = []*MV{}
		}
		for i := 0; i < n; i++ {
			m.A = append(m.A, drawValue(t, o, depth-1))
			if o.NilItems && m.A[i].Kind == Null {
				m.A[i].Nil = rapid.Bool().Draw(t, "nil item")
			}
		}
		return m
	default:
		m := drawObject(t, o, depth)
		if o.NilFields {
			for _, k := range m.Keys() {
				if m.O[k].Kind == Null {
					m.O[k].Nil = rapid.Bool().Draw(t, "nil field")
				}
			}
		}
		return m
	}
}

func drawObject(t *rapid.T, o ValueOpt, depth int) *MV {
	if o.Width == 0 {
		o.Width = 4
	}
	n := rapid.IntRange(0, o.Width).Draw(t, "n")
	m := MObj(nil)
	if n == 0 && o.NilNested && rapid.Bool().Draw(t, "nil") {
		m.O = nil
	}
	for i := 0; i < n; i++ {
		m.O[Name(o.Names).Draw(t, "name")] = drawValue(t, o, depth-1)
	}
	return m
}

// Root generates the fields of an event. rootNames restricts its root names.
func Root(o ValueOpt, rootNames NameOpt) *rapid.Generator[*MV] {
	return rapid.Custom(func(t *rapid.T) *MV {
		m := MObj(nil)
		n := rapid.IntRange(0, 5).Draw(t, "roots")
		for i := 0; i < n; i++ {
			m.O[Name(rootNames).Draw(t, "root")] = drawValue(t, o, o.Depth)
		}
		k := rapid.IntRange(0, 63).Draw(t, "stretch")
		if k > 55 && HasNovelSize(5000) {
			k = 62 + k%2
		}
		switch k {
		case 62:
			m.O[Name(rootNames).Draw(t, "root")] = Stretch(t, o)
		case 63:
			for i, n := 0, Size(t, "size", sizes, 5000); i < n; i++ {
				m.O["r"+strconv.Itoa(i)] = MInt(int64(i))
			}
		}
		return m
	})
}

// Paths returns the paths of all entries below objects, sorted.
func (m *MV) Paths() [][]string {
	var out [][]string
	var walk func(prefix []string, v *MV)
	walk = func(prefix []string, v *MV) {
		if v.Kind != Obj {
			return
		}
		for _, k := range v.Keys() {
			p := append(append([]string(nil), prefix...), k)
			out = append(out, p)
			walk(p, v.O[k])
		}
	}
	walk(nil, m)
	return out
}

// Path generates a path, often one that exists in m or goes on below or beside
// an existing one.
func Path(t *rapid.T, m *MV, names NameOpt) []string {
	ok := func(p []string) bool {
		for _, n := range p {
			if n == "" || names == NoBackslash && drop(n, '\\') != n {
				return false
			}
		}
		return true
	}
	k := rapid.IntRange(0, 9).Draw(t, "pathkind")
	if paths := m.Paths(); len(paths) > 0 && k < 7 {
		p := paths[rapid.IntRange(0, len(paths)-1).Draw(t, "existing")]
		p = append([]string(nil), p...)
		switch {
		case k < 4:
		case k == 4:
			p = append(p, Name(names).Draw(t, "below"))
		case k == 5:
			p[len(p)-1] = Name(names).Draw(t, "beside")
		case k == 6:
			p = append(p, Name(names).Draw(t, "below"), Name(names).Draw(t, "below"))
		}
		if ok(p) {
			return p
		}
	}
	n := rapid.IntRange(1, 3).Draw(t, "len")
	if rapid.IntRange(0, 15).Draw(t, "long") == 15 {
		n = Size(t, "len", []int{4, 5, 7, 8, 9, 15, 16, 17, 32, 33}, 300)
	}
	p := make([]string, n)
	for i := range p {
		p[i] = Name(names).Draw(t, "seg")
		if p[i] == "" {
			p[i] = "e"
		}
	}
	return p
}
