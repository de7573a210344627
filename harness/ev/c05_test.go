package ev

import (
	"errors"
	"fmt"
	"go/token"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/config"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"

	"verif/harness/vlib"
)

// Named types of every kind.
type (
	nBool    bool
	nInt     int
	nInt8    int8
	nInt64   int64
	nUint    uint
	nUint16  uint16
	nUint64  uint64
	nUintptr uintptr
	nF32     float32
	nF64     float64
	nStr     string
	nTime    time.Time
	nSlice   []interface{}
	nMap     map[string]interface{}
	nIfc     interface{}
	nFunc    func()
	nChan    chan int

	// Errors.
	valErr  struct{ Msg string }
	ptrErr  struct{ Msg string }
	strErr  string
	intErr  int
	boolErr bool

	// Stringers.
	strInt int
	strPtr struct{ N int }
	strStr string

	// Structs that StructOf cannot make.
	hidden struct {
		Shown  string
		secret chan int //nolint:unused
		other  func()   //nolint:unused
	}
	self struct {
		Name string `event:"n"`
		Next *self  `event:"next"`
	}
	// Inner is embedded in embeds.
	Inner struct {
		Name  string
		Other int
	}
	embeds struct {
		Inner
		Name string
	}
	hidesInner struct {
		embedded
		*Inner `event:"p,omitempty"`
		Other  bool
	}
	embedded struct {
		Name string
		B    chan int
	}
)

func (e valErr) Error() string  { return "val:" + e.Msg }
func (e *ptrErr) Error() string { return "ptr:" + e.Msg }
func (e strErr) Error() string  { return "str:" + string(e) }
func (e intErr) Error() string  { return "int:" + strconv.Itoa(int(e)) }
func (e boolErr) Error() string { return "bool:" + strconv.FormatBool(bool(e)) }
func (s strInt) String() string { return "S" + strconv.Itoa(int(s)) }
func (s strPtr) String() string { return "P" + strconv.Itoa(s.N) }
func (s strStr) String() string { return "<" + string(s) + ">" }

// result of converting one Go value.
type conv struct {
	v   reflect.Value
	m   *vlib.MV
	bad bool // Holds something unsupported.
}

// gtype is a Go type with a generator of its values.
type gtype struct {
	typ  reflect.Type
	draw func(t *rapid.T) conv
	// zero draws the zero value's meaning; nil if the zero value is not
	// specified (nil maps and slices, unsupported types).
	note string
}

type typeGen struct {
	t   *rapid.T
	c   *vlib.Case
	bad bool // Unsupported types may be drawn.

	made map[reflect.Type][]conv // Pointers, maps and slices so far.
}

// shared makes values that at times are the same pointer, map or slice as one
// before.
func (g *typeGen) shared(gt gtype) gtype {
	draw := gt.draw
	gt.draw = func(t *rapid.T) conv {
		if old := g.made[gt.typ]; len(old) > 0 && rapid.IntRange(0, 4).Draw(t, "again") == 3 {
			g.c.Class("same twice")
			return old[rapid.IntRange(0, len(old)-1).Draw(t, "which")]
		}
		out := draw(t)
		g.made[gt.typ] = append(g.made[gt.typ], out)
		return out
	}
	return gt
}

func scalar(v interface{}, m *vlib.MV) conv { return conv{v: reflect.ValueOf(v), m: m} }

func intType[T ~int | ~int8 | ~int16 | ~int32 | ~int64]() gtype {
	return gtype{typ: reflect.TypeOf(T(0)), draw: func(t *rapid.T) conv {
		v := T(vlib.Int64().Draw(t, "int"))
		return scalar(v, vlib.MInt(int64(v)))
	}}
}

func uintType[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr]() gtype {
	return gtype{typ: reflect.TypeOf(T(0)), draw: func(t *rapid.T) conv {
		v := T(vlib.Uint64().Draw(t, "uint"))
		return scalar(v, vlib.MUint(uint64(v)))
	}}
}

func drawTime(t *rapid.T) time.Time {
	n := vlib.Int64().Draw(t, "nanos")
	tm := time.Unix(0, n)
	switch rapid.IntRange(0, 2).Draw(t, "zone") {
	case 0:
		tm = tm.UTC()
	case 1:
		tm = tm.In(time.FixedZone("x", rapid.IntRange(-14*3600, 14*3600).Draw(t, "offset")))
	}
	return tm
}

func strType[T ~string](f func(string) *vlib.MV) gtype {
	return gtype{typ: reflect.TypeOf(T("")), draw: func(t *rapid.T) conv {
		s := vlib.Bytes().Draw(t, "str")
		return scalar(T(s), f(s))
	}}
}

func twin(f func() (interface{}, *vlib.MV)) gtype {
	v, _ := f()
	return gtype{note: "types with one name", typ: reflect.TypeOf(v), draw: func(t *rapid.T) conv {
		v, m := f()
		return scalar(v, m)
	}}
}

var leafTypes = []gtype{
	{typ: reflect.TypeOf(false), draw: func(t *rapid.T) conv {
		b := rapid.Bool().Draw(t, "bool")
		return scalar(b, vlib.MBool(b))
	}},
	strType[string](vlib.MStr),
	intType[int](), intType[int8](), intType[int16](), intType[int32](), intType[int64](),
	uintType[uint](), uintType[uint8](), uintType[uint16](), uintType[uint32](), uintType[uint64](), uintType[uintptr](),
	{typ: reflect.TypeOf(float32(0)), draw: func(t *rapid.T) conv {
		f := rapid.OneOf(rapid.Float32(), rapid.SampledFrom([]float32{0.1, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1))})).Draw(t, "f32")
		return scalar(f, vlib.MFloat(float64(f)))
	}},
	{typ: reflect.TypeOf(float64(0)), draw: func(t *rapid.T) conv {
		f := vlib.AnyDouble().Draw(t, "f64")
		return scalar(f, vlib.MFloat(f))
	}},
	{typ: reflect.TypeOf(time.Time{}), draw: func(t *rapid.T) conv {
		tm := drawTime(t)
		return scalar(tm, vlib.MTime(tm.UnixNano()))
	}},
	// Named types.
	{typ: reflect.TypeOf(nBool(false)), draw: func(t *rapid.T) conv {
		b := rapid.Bool().Draw(t, "bool")
		return scalar(nBool(b), vlib.MBool(b))
	}},
	strType[nStr](vlib.MStr),
	intType[nInt](), intType[nInt8](), intType[nInt64](), intType[time.Duration](), intType[strInt](),
	uintType[nUint](), uintType[nUint16](), uintType[nUint64](), uintType[nUintptr](),
	{typ: reflect.TypeOf(nF32(0)), draw: func(t *rapid.T) conv {
		f := rapid.Float32().Draw(t, "f32")
		return scalar(nF32(f), vlib.MFloat(float64(f)))
	}},
	{typ: reflect.TypeOf(nF64(0)), draw: func(t *rapid.T) conv {
		f := vlib.AnyDouble().Draw(t, "f64")
		return scalar(nF64(f), vlib.MFloat(f))
	}},
	{typ: reflect.TypeOf(nTime{}), draw: func(t *rapid.T) conv {
		tm := drawTime(t)
		return scalar(nTime(tm), vlib.MTime(tm.UnixNano()))
	}},
	strType[strStr](vlib.MStr),
	// Errors.
	{note: "error", typ: reflect.TypeOf(valErr{}), draw: func(t *rapid.T) conv {
		e := valErr{vlib.Text().Draw(t, "err")}
		return scalar(e, vlib.MStr(e.Error()))
	}},
	{note: "error", typ: reflect.TypeOf(&ptrErr{}), draw: func(t *rapid.T) conv {
		if rapid.IntRange(0, 3).Draw(t, "nil") == 3 {
			return scalar((*ptrErr)(nil), vlib.MNull())
		}
		e := &ptrErr{vlib.Text().Draw(t, "err")}
		return scalar(e, vlib.MStr(e.Error()))
	}},
	{note: "struct with a pointer error method", typ: reflect.TypeOf(ptrErr{}), draw: func(t *rapid.T) conv {
		s := vlib.Text().Draw(t, "msg")
		return scalar(ptrErr{s}, vlib.MObj(map[string]*vlib.MV{"msg": vlib.MStr(s)}))
	}},
	strType[strErr](func(s string) *vlib.MV { return vlib.MStr("str:" + s) }),
	{note: "error", typ: reflect.TypeOf(intErr(0)), draw: func(t *rapid.T) conv {
		e := intErr(rapid.Int().Draw(t, "int"))
		return scalar(e, vlib.MStr(e.Error()))
	}},
	{note: "error", typ: reflect.TypeOf(boolErr(false)), draw: func(t *rapid.T) conv {
		e := boolErr(rapid.Bool().Draw(t, "bool"))
		return scalar(e, vlib.MStr(e.Error()))
	}},
	{note: "error", typ: reflect.TypeOf(errors.New("")), draw: func(t *rapid.T) conv {
		s := vlib.Text().Draw(t, "err")
		return scalar(errors.New(s), vlib.MStr(s))
	}},
	{note: "error interface", typ: reflect.TypeOf((*error)(nil)).Elem(), draw: func(t *rapid.T) conv {
		v := reflect.New(reflect.TypeOf((*error)(nil)).Elem()).Elem()
		var err error
		switch rapid.IntRange(0, 3).Draw(t, "which") {
		case 0:
			return conv{v: v, m: vlib.MNull()}
		case 1:
			err = valErr{vlib.Text().Draw(t, "err")}
		case 2:
			err = &ptrErr{vlib.Text().Draw(t, "err")}
		default:
			err = fmt.Errorf("wrapped: %w", strErr(vlib.Text().Draw(t, "err")))
		}
		v.Set(reflect.ValueOf(err))
		return conv{v: v, m: vlib.MStr(err.Error())}
	}},
	// Structs.
	{note: "hidden fields", typ: reflect.TypeOf(hidden{}), draw: func(t *rapid.T) conv {
		s := vlib.Text().Draw(t, "shown")
		h := hidden{Shown: s}
		if rapid.Bool().Draw(t, "secret") {
			h.secret = make(chan int)
			h.other = func() {}
		}
		return scalar(h, vlib.MObj(map[string]*vlib.MV{"shown": vlib.MStr(s)}))
	}},
	{note: "embedded struct", typ: reflect.TypeOf(embeds{}), draw: func(t *rapid.T) conv {
		a, b := vlib.Text().Draw(t, "outer"), vlib.Text().Draw(t, "inner")
		return scalar(embeds{Inner: Inner{Name: b, Other: 5}, Name: a}, vlib.MObj(map[string]*vlib.MV{"name": vlib.MStr(a),
			"inner": vlib.MObj(map[string]*vlib.MV{"name": vlib.MStr(b), "other": vlib.MInt(5)})}))
	}},
	{note: "embedded pointer and unexported struct", typ: reflect.TypeOf(hidesInner{}), draw: func(t *rapid.T) conv {
		h := hidesInner{Other: rapid.Bool().Draw(t, "other")}
		m := vlib.MObj(map[string]*vlib.MV{"other": vlib.MBool(h.Other)})
		if rapid.Bool().Draw(t, "set") {
			h.embedded.Name = "hidden"
		}
		if rapid.Bool().Draw(t, "pointer") {
			s := vlib.Text().Draw(t, "inner")
			h.Inner = &Inner{Name: s, Other: 7}
			m.O["p"] = vlib.MObj(map[string]*vlib.MV{"name": vlib.MStr(s), "other": vlib.MInt(7)})
		}
		return scalar(h, m)
	}},
	// Different types with the same name.
	twin(func() (interface{}, *vlib.MV) {
		type twin struct {
			A, B int
		}
		return twin{1, 2}, vlib.MObj(map[string]*vlib.MV{"a": vlib.MInt(1), "b": vlib.MInt(2)})
	}),
	twin(func() (interface{}, *vlib.MV) {
		type twin struct {
			C string `event:"x"`
			A bool
		}
		return twin{"c", true}, vlib.MObj(map[string]*vlib.MV{"a": vlib.MBool(true), "x": vlib.MStr("c")})
	}),
	twin(func() (interface{}, *vlib.MV) {
		type twin struct {
			A int `event:"-"`
			B int `event:"b,omitempty"`
		}
		return twin{1, 0}, vlib.MObj(nil)
	}),
	twin(func() (interface{}, *vlib.MV) {
		type twin [2]int
		return twin{3, 4}, vlib.MArr(vlib.MInt(3), vlib.MInt(4))
	}),
	{note: "recursive type", typ: reflect.TypeOf(&self{}), draw: func(t *rapid.T) conv {
		n := rapid.IntRange(0, 5).Draw(t, "links")
		var s *self
		m := vlib.MNull()
		for i := 0; i < n; i++ {
			s = &self{Name: strconv.Itoa(i), Next: s}
			m = vlib.MObj(map[string]*vlib.MV{"n": vlib.MStr(s.Name), "next": m})
		}
		return scalar(s, m)
	}},
}

var badTypes = []gtype{
	{note: "chan", typ: reflect.TypeOf(make(chan int)), draw: func(t *rapid.T) conv {
		var c chan int
		if rapid.Bool().Draw(t, "made") {
			c = make(chan int)
		}
		return conv{v: reflect.ValueOf(c), bad: true}
	}},
	{note: "func", typ: reflect.TypeOf(func() {}), draw: func(t *rapid.T) conv {
		return conv{v: reflect.ValueOf(func() {}), bad: true}
	}},
	{note: "complex", typ: reflect.TypeOf(complex(1, 1)), draw: func(t *rapid.T) conv {
		return conv{v: reflect.ValueOf(complex(rapid.Float64().Draw(t, "re"), 1)), bad: true}
	}},
	{note: "complex64", typ: reflect.TypeOf(complex64(1)), draw: func(t *rapid.T) conv {
		return conv{v: reflect.ValueOf(complex64(2)), bad: true}
	}},
	{note: "named func", typ: reflect.TypeOf(nFunc(nil)), draw: func(t *rapid.T) conv {
		return conv{v: reflect.ValueOf(nFunc(func() {})), bad: true}
	}},
	{note: "named chan", typ: reflect.TypeOf(nChan(nil)), draw: func(t *rapid.T) conv {
		return conv{v: reflect.ValueOf(make(nChan)), bad: true}
	}},
}

func (g *typeGen) leaf() gtype {
	if g.bad && rapid.IntRange(0, 7).Draw(g.t, "unsupported") == 7 {
		gt := badTypes[rapid.IntRange(0, len(badTypes)-1).Draw(g.t, "badtype")]
		g.c.Class("unsupported:" + gt.note)
		return gt
	}
	gt := leafTypes[rapid.IntRange(0, len(leafTypes)-1).Draw(g.t, "leaf")]
	g.c.Class(gt.note)
	return gt
}

func (g *typeGen) typ(depth int) gtype {
	if depth <= 0 {
		return g.leaf()
	}
	switch rapid.IntRange(0, 8).Draw(g.t, "type") {
	case 0, 1:
		return g.leaf()
	case 2:
		return g.slice(depth)
	case 3:
		return g.array(depth)
	case 4:
		return g.mapType(depth)
	case 5:
		return g.structType(depth)
	case 6:
		return g.pointer(depth)
	default:
		return g.iface(depth)
	}
}

// count is how many elements something gets, at times many.
func count(t *rapid.T, depth int) int {
	if depth <= 1 && rapid.IntRange(0, 60).Draw(t, "many") == 60 {
		return vlib.Size(t, "count", []int{8, 9, 16, 17, 33, 64, 65, 130}, 3000)
	}
	return rapid.IntRange(0, 3).Draw(t, "len")
}

func (g *typeGen) slice(depth int) gtype {
	g.c.Class("slice")
	et := g.typ(depth - 1)
	typ := reflect.SliceOf(et.typ)
	if et.typ == emptyInterface && rapid.Bool().Draw(g.t, "named") {
		typ = reflect.TypeOf(nSlice{})
	}
	return g.shared(gtype{typ: typ, draw: func(t *rapid.T) conv {
		n := count(t, depth)
		out := conv{v: reflect.MakeSlice(typ, 0, n), m: vlib.MArr()}
		if n == 0 && rapid.Bool().Draw(t, "nil") {
			out.v = reflect.Zero(typ)
		}
		for i := 0; i < n; i++ {
			e := et.draw(t)
			out.v = reflect.Append(out.v, e.v)
			out.m.A = append(out.m.A, e.m)
			out.bad = out.bad || e.bad
		}
		return out
	}})
}

func (g *typeGen) array(depth int) gtype {
	g.c.Class("array")
	et := g.typ(depth - 1)
	n := count(g.t, depth)
	typ := reflect.ArrayOf(n, et.typ)
	return gtype{typ: typ, draw: func(t *rapid.T) conv {
		out := conv{v: reflect.New(typ).Elem(), m: vlib.MArr()}
		for i := 0; i < n; i++ {
			e := et.draw(t)
			out.v.Index(i).Set(e.v)
			out.m.A = append(out.m.A, e.m)
			out.bad = out.bad || e.bad
		}
		return out
	}}
}

func (g *typeGen) mapType(depth int) gtype {
	g.c.Class("map")
	et := g.typ(depth - 1)
	var kt reflect.Type
	var key func(t *rapid.T) (reflect.Value, string)
	name := vlib.Name(vlib.AnyName)
	switch rapid.IntRange(0, 5).Draw(g.t, "keys") {
	case 0:
		kt = reflect.TypeOf(nStr(""))
		key = func(t *rapid.T) (reflect.Value, string) {
			s := name.Draw(t, "key")
			return reflect.ValueOf(nStr(s)), s
		}
	case 1:
		kt = reflect.TypeOf(int(0))
		key = func(t *rapid.T) (reflect.Value, string) {
			i := rapid.Int().Draw(t, "key")
			return reflect.ValueOf(i), strconv.Itoa(i)
		}
	case 2:
		kt = reflect.TypeOf(uint8(0))
		key = func(t *rapid.T) (reflect.Value, string) {
			i := rapid.Byte().Draw(t, "key")
			return reflect.ValueOf(i), strconv.Itoa(int(i))
		}
	default:
		kt = reflect.TypeOf("")
		key = func(t *rapid.T) (reflect.Value, string) {
			s := name.Draw(t, "key")
			return reflect.ValueOf(s), s
		}
	}
	typ := reflect.MapOf(kt, et.typ)
	if et.typ == emptyInterface && kt.Kind() == reflect.String && kt.Name() == "string" && rapid.Bool().Draw(g.t, "named") {
		typ = reflect.TypeOf(nMap{})
	}
	return g.shared(gtype{typ: typ, draw: func(t *rapid.T) conv {
		n := count(t, depth)
		out := conv{v: reflect.MakeMap(typ), m: vlib.MObj(nil)}
		if n == 0 && rapid.Bool().Draw(t, "nil") {
			out.v = reflect.Zero(typ)
		}
		for i := 0; i < n; i++ {
			k, s := key(t)
			if out.m.O[s] != nil || out.v.MapIndex(k).IsValid() {
				continue
			}
			e := et.draw(t)
			out.v.SetMapIndex(k, e.v)
			out.m.O[s] = e.m
			out.bad = out.bad || e.bad
		}
		return out
	}})
}

func (g *typeGen) pointer(depth int) gtype {
	g.c.Class("pointer")
	et := g.typ(depth - 1)
	typ := reflect.PointerTo(et.typ)
	if et.typ == reflect.TypeOf(ptrErr{}) {
		// A pointer to it is an error.
		return leafTypes[0]
	}
	return g.shared(gtype{typ: typ, draw: func(t *rapid.T) conv {
		if rapid.IntRange(0, 3).Draw(t, "nil") == 3 {
			return conv{v: reflect.Zero(typ), m: vlib.MNull()}
		}
		e := et.draw(t)
		p := reflect.New(et.typ)
		p.Elem().Set(e.v)
		return conv{v: p, m: e.m, bad: e.bad}
	}})
}

var emptyInterface = reflect.TypeOf((*interface{})(nil)).Elem()

func (g *typeGen) iface(depth int) gtype {
	g.c.Class("interface")
	typ := emptyInterface
	if rapid.IntRange(0, 4).Draw(g.t, "named") == 4 {
		typ = reflect.TypeOf((*nIfc)(nil)).Elem()
	}
	return gtype{typ: typ, draw: func(t *rapid.T) conv {
		v := reflect.New(typ).Elem()
		if rapid.IntRange(0, 4).Draw(t, "nil") == 4 {
			return conv{v: v, m: vlib.MNull()}
		}
		inner := (&typeGen{t: t, c: g.c, bad: g.bad, made: g.made}).typ(depth - 1).draw(t)
		if inner.v.Kind() == reflect.Interface && inner.v.IsNil() {
			return conv{v: v, m: vlib.MNull()}
		}
		v.Set(inner.v)
		return conv{v: v, m: inner.m, bad: inner.bad}
	}}
}

var fieldNames = []string{"A", "B", "Foo", "FOO", "FooBar", "HTTPCode", "X1", "Ünicode", "Z_z"}

func (g *typeGen) structType(depth int) gtype {
	g.c.Class("struct")
	n := rapid.IntRange(0, 4).Draw(g.t, "fields")
	if depth <= 1 && rapid.IntRange(0, 60).Draw(g.t, "many") == 60 {
		n = vlib.Size(g.t, "count", []int{8, 9, 16, 17, 33, 65}, 300)
	}
	type field struct {
		gt                  gtype
		name                string
		skip, omit, str     bool
		index               int
		unexported, skipBad bool
	}
	var fields []field
	var sf []reflect.StructField
	taken := map[string]bool{}
	for i := 0; i < n; i++ {
		goName := fieldNames[rapid.IntRange(0, len(fieldNames)-1).Draw(g.t, "field")]
		if s, ok := vlib.NovelText(g.t, 12); ok && token.IsIdentifier(strings.Title(s)) && token.IsExported(strings.Title(s)) {
			goName = strings.Title(s)
		}
		if n > 4 {
			goName += strconv.Itoa(i)
		}
		if taken["go:"+goName] {
			continue
		}
		f := field{name: strings.ToLower(goName)}
		var tag string
		switch rapid.IntRange(0, 6).Draw(g.t, "tag") {
		case 0:
			tag = rapid.SampledFrom([]string{"t", "a.b", "Up", "u_s", "with space", "ä", "-x", "--", "@t", "a-", ".", `a"b`}).Draw(g.t, "tagname")
			if s, ok := vlib.NovelText(g.t, 4); ok && s != "" && !strings.ContainsAny(s, ",`\"\\") && s != "-" {
				tag = s
			}
			f.name = tag
		case 1:
			tag, f.skip = "-", true
		case 2:
			tag, f.omit = ",omitempty", true
		case 3:
			name := rapid.SampledFrom([]string{"o", "o.p"}).Draw(g.t, "tagname")
			tag, f.omit, f.name = name+",omitempty", true, name
		case 4:
			tag, f.str = ",string", true
		case 5:
			name := rapid.SampledFrom([]string{"s", "s.t"}).Draw(g.t, "tagname")
			tag, f.str, f.name = name+",string", true, name
			if rapid.Bool().Draw(g.t, "both") {
				tag, f.omit = name+",omitempty,string", true
			}
		}
		if taken["name:"+f.name] {
			continue
		}
		switch {
		case f.str:
			f.gt = rapid.SampledFrom([]gtype{intType[strInt](), strType[strStr](vlib.MStr), intType[time.Duration](), {typ: reflect.TypeOf(strPtr{}), draw: func(t *rapid.T) conv {
				return scalar(strPtr{rapid.IntRange(0, 3).Draw(t, "n")}, nil)
			}}}).Draw(g.t, "stringer")
			g.c.Class("tag:string")
		case f.skip:
			// Fields that are left out may hold anything.
			f.gt = (&typeGen{t: g.t, c: g.c, bad: true, made: g.made}).typ(depth - 1)
			g.c.Class("tag:-")
		case f.omit:
			f.gt = (&typeGen{t: g.t, c: g.c, made: g.made}).typ(depth - 1)
			g.c.Class("tag:omitempty")
		default:
			f.gt = g.typ(depth - 1)
		}
		taken["go:"+goName], taken["name:"+f.name] = true, true
		s := reflect.StructField{Name: goName, Type: f.gt.typ}
		if tag != "" {
			s.Tag = reflect.StructTag(fmt.Sprintf(`json:"ignored" event:%q`, tag))
		}
		f.index = len(sf)
		sf = append(sf, s)
		fields = append(fields, f)
		if rapid.IntRange(0, 5).Draw(g.t, "unexported") == 5 && !taken["go:"+strings.ToLower(goName)] && strings.ToLower(goName) != goName {
			taken["go:"+strings.ToLower(goName)] = true
			sf = append(sf, reflect.StructField{Name: "x" + strings.ToLower(goName), PkgPath: "verif/harness/ev", Type: reflect.TypeOf(make(chan int)), Tag: `event:"unexported"`})
			g.c.Class("unexported field")
		}
	}
	typ := reflect.StructOf(sf)
	return gtype{typ: typ, draw: func(t *rapid.T) conv {
		out := conv{v: reflect.New(typ).Elem(), m: vlib.MObj(nil)}
		for _, f := range fields {
			if f.omit && rapid.Bool().Draw(t, "zero") {
				continue // Stays zero and is left out.
			}
			e := f.gt.draw(t)
			if f.omit && isZero(e.v) {
				continue // Drawn as zero.
			}
			out.v.Field(f.index).Set(e.v)
			if f.skip {
				continue
			}
			if f.str {
				out.m.O[f.name] = vlib.MStr(e.v.Interface().(fmt.Stringer).String())
				continue
			}
			out.m.O[f.name] = e.m
			out.bad = out.bad || e.bad
		}
		return out
	}}
}

// isZero is the language's zero value; the two float zeros count as one.
func isZero(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !isZero(v.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !isZero(v.Field(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

func TestC05_Convert(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 1000000, Thorough: 8000000,
		Rule: "a generated Go type (kinds, named types, errors, times, structs with tags, pointers, interfaces, containers) and a value of it, with its expected event value built alongside; converted directly, as a configured value and as an entry of a map; non-trivial: composite type of at least two levels holding at least 3 values",
	}, func(t *rapid.T, c *vlib.Case) {
		g := &typeGen{t: t, c: c, bad: rapid.IntRange(0, 3).Draw(t, "bad") == 3, made: map[reflect.Type][]conv{}}
		gt := g.typ(rapid.SampledFrom([]int{2, 1, 3, 4, 5}).Draw(t, "depth"))
		x := gt.draw(t)
		var in interface{}
		if x.v.Kind() != reflect.Interface || !x.v.IsNil() {
			in = x.v.Interface()
		}
		desc := fmt.Sprintf("%T %+v", in, in)
		check := func(how string, got func() (*vlib.MV, error), want *vlib.MV) {
			var m *vlib.MV
			var err error
			vlib.NoPanic(t, how+" of "+desc, func() { m, err = got() })
			if x.bad {
				var unsupported *eventutil.UnsupportedTypeError
				if !errors.As(err, &unsupported) {
					t.Fatalf("%s of %s: error %v, want an unsupported type error", how, desc, err)
				}
				return
			}
			if err != nil {
				t.Fatalf("%s of %s: %v", how, desc, err)
			}
			if !m.Equal(want) {
				t.Fatalf("%s of %s:\n got %v\nwant %v", how, desc, m, want)
			}
		}
		check("ReflectValue", func() (*vlib.MV, error) {
			v, err := eventutil.ReflectValue(in)
			if err != nil {
				return nil, err
			}
			if v == nil {
				return nil, errors.New("no value and no error")
			}
			return vlib.Of(v), nil
		}, x.m)
		check("Unpack", func() (*vlib.MV, error) {
			var v config.EventValue
			if rapid.Bool().Draw(t, "used") { // Replaces what was there.
				v = config.EventValue(*event.String("old"))
			}
			err := v.Unpack(in)
			return vlib.Of((*event.Value)(&v)), err
		}, x.m)
		key := vlib.Name(vlib.NoBackslash).Draw(t, "key")
		if key == "other.x" {
			key = "a.b"
		}
		check("ToEvent", func() (*vlib.MV, error) {
			e, err := mapinterface.ToEvent(map[string]interface{}{key: in, "other.x": 1})
			if err != nil {
				return nil, err
			}
			return vlib.OfEvent(e), nil
		}, vlib.MObj(map[string]*vlib.MV{key: x.m, "other.x": vlib.MInt(1)}))
		c.ClassIf(x.bad, "unsupported value")
		if x.bad || x.m.Depth() >= 2 && x.m.Count() >= 3 {
			c.NonTrivial(fmt.Sprintf("%v: %v", gt.typ, x.m))
		}
	})
}
