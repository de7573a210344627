package ev

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/processor"

	"verif/harness/vlib"
)

var printNames = map[vlib.Kind]string{vlib.Null: "null_type", vlib.Arr: "array_type", vlib.Bool: "bool_type", vlib.Float: "float_type", vlib.Int: "integer_type",
	vlib.Obj: "object_type", vlib.Str: "string_type", vlib.Time: "timestamp_type", vlib.Uint: "unsigned_integer_type"}

// printed is the printed form of a value.
func printed(sb *strings.Builder, m *vlib.MV) {
	sb.WriteString(printNames[m.Kind])
	sb.WriteByte(':')
	switch m.Kind {
	case vlib.Null:
		sb.WriteString("<nil>")
	case vlib.Bool:
		sb.WriteString(strconv.FormatBool(m.B))
	case vlib.Int, vlib.Time:
		sb.WriteString(strconv.FormatInt(m.I, 10))
	case vlib.Uint:
		sb.WriteString(strconv.FormatUint(m.U, 10))
	case vlib.Float:
		sb.WriteString(fmt.Sprint(m.F))
	case vlib.Str:
		sb.WriteString(m.S)
	case vlib.Arr:
		sb.WriteByte('[')
		for i, x := range m.A {
			if i > 0 {
				sb.WriteByte(' ')
			}
			printed(sb, x)
		}
		sb.WriteByte(']')
	case vlib.Obj:
		sb.WriteString("map[")
		for i, k := range m.Keys() {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(k)
			sb.WriteByte(':')
			printed(sb, m.O[k])
		}
		sb.WriteByte(']')
	}
}

func TestC30_Print(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 60000, Thorough: 1000000,
		Rule: "a random value of any kind and depth printed by %v, %+v, %s, Sprint, Errorf and inside a list, a map and a struct; the text compared with that of a reference printer, the value with what it was; non-trivial: a list or an object that is not empty. Distinct by value",
	}, func(t *rapid.T, c *vlib.Case) {
		opt := vlib.ValueOpt{AnyDouble: true, AnyBytes: true, NilNested: true, Depth: 3}
		m := vlib.Value(opt).Draw(t, "value")
		v := m.Value()
		var sb strings.Builder
		printed(&sb, m)
		want := sb.String()
		c.Class(m.Kind.String())
		if len(m.A)+len(m.O) > 0 {
			c.NonTrivial(m.String())
		}
		got := map[string]string{}
		vlib.NoPanic(t, "printing", func() {
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
				switch rapid.IntRange(0, 8).Draw(t, "how") {
				case 0:
					got["%v"] = fmt.Sprintf("%v", v)
				case 1:
					got["%+v"] = fmt.Sprintf("%+v", v)
				case 2:
					got["%s"] = fmt.Sprintf("%s", v)
				case 3:
					got["Sprint"] = fmt.Sprint(v)
				case 4:
					got["Errorf"] = strings.TrimPrefix(fmt.Errorf("value %v", v).Error(), "value ")
				case 5:
					s := fmt.Sprint([]*event.Value{v, event.Bool(true)})
					got["list"] = strings.TrimSuffix(strings.TrimPrefix(s, "["), " bool_type:true]")
				case 6:
					s := fmt.Sprint(map[string]interface{}{"x": v})
					got["map"] = strings.TrimSuffix(strings.TrimPrefix(s, "map[x:"), "]")
				case 7:
					s := fmt.Sprintf("%v", struct{ V interface{} }{v})
					got["struct"] = strings.TrimSuffix(strings.TrimPrefix(s, "{"), "}")
				case 8:
					s := fmt.Sprintln("a", v)
					got["Sprintln"] = strings.TrimSuffix(strings.TrimPrefix(s, "a "), "\n")
				}
			}
		})
		for how, s := range got {
			if s != want {
				t.Fatalf("%s of %v is %.2000q, want %.2000q", how, m, s, want)
			}
		}
		if after := vlib.Of(v); !after.Equal(m) {
			t.Fatalf("printing changed %v to %v", m, after)
		}
	})
}

func TestC30_Parts(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 60000, Thorough: 1000000,
		Rule: "a random value built by the constructor of its kind, whose members have to be the given content and nothing besides; kinds by number; times as Go times, texts and the present time between two readings of the clock; non-trivial: all. Distinct by content",
	}, func(t *rapid.T, c *vlib.Case) {
		kind := rapid.SampledFrom([]string{"bool", "integer", "unsigned", "float", "string", "time", "array", "object", "number", "now"}).Draw(t, "kind")
		c.Class(kind)
		var got *event.Value
		var want event.Value
		switch kind {
		case "bool":
			x := rapid.Bool().Draw(t, "x")
			got, want = event.Bool(x), event.Value{Type: event.BoolType, Bool: x}
		case "integer":
			x := vlib.Int64().Draw(t, "x")
			got, want = event.Integer(x), event.Value{Type: event.IntegerType, Integer: x}
		case "unsigned":
			x := vlib.Uint64().Draw(t, "x")
			got, want = event.UnsignedInteger(x), event.Value{Type: event.UnsignedIntegerType, UnsignedInteger: x}
		case "float":
			x := vlib.AnyDouble().Draw(t, "x")
			got = event.Float(x)
			if math.Float64bits(got.Float) != math.Float64bits(x) {
				t.Fatalf("Float(%x) has %x", math.Float64bits(x), math.Float64bits(got.Float))
			}
			clean := *got
			clean.Float = 0
			got, want = &clean, event.Value{Type: event.FloatType}
		case "string":
			x := vlib.Bytes().Draw(t, "x")
			got, want = event.String(x), event.Value{Type: event.StringType, String: x}
		case "time":
			x := vlib.Int64().Draw(t, "x")
			got, want = event.Timestamp(x), event.Value{Type: event.TimestampType, Timestamp: event.Time{UnixNanos: x}}
			g := got.Timestamp.GoTime()
			if at := time.Unix(x/1e9, x%1e9); !g.Equal(at) || g.Location() != time.UTC {
				t.Fatalf("the time of %d is %v, want %v", x, g, at.UTC())
			}
			if s := got.Timestamp.String(); s != strconv.FormatInt(x, 10) {
				t.Fatalf("the text of the time %d is %q", x, s)
			}
		case "array":
			x := make([]*event.Value, rapid.IntRange(0, 20).Draw(t, "x"))
			for i := range x {
				x[i] = event.Integer(int64(i))
			}
			got, want = event.Array(x...), event.Value{Type: event.ArrayType, Array: x}
			if len(x) == 0 {
				if len(got.Array) != 0 {
					t.Fatalf("Array() has %v", got.Array)
				}
				got, want = &event.Value{Type: got.Type}, event.Value{Type: event.ArrayType}
			}
		case "object":
			x := map[string]*event.Value{}
			for i, n := 0, rapid.IntRange(0, 8).Draw(t, "x"); i < n; i++ {
				x[vlib.Name(vlib.NameOpt(0)).Draw(t, "name")] = event.Integer(int64(i))
			}
			got, want = event.Object(x), event.Value{Type: event.ObjectType, Object: x}
		case "number":
			n := rapid.Uint8().Draw(t, "x")
			text := event.ValueType(n).String()
			name := "unknown_type"
			for typ, k := range map[event.ValueType]vlib.Kind{event.NullType: vlib.Null, event.ArrayType: vlib.Arr, event.BoolType: vlib.Bool, event.FloatType: vlib.Float, event.IntegerType: vlib.Int,
				event.ObjectType: vlib.Obj, event.StringType: vlib.Str, event.TimestampType: vlib.Time, event.UnsignedIntegerType: vlib.Uint} {
				if uint8(typ) == n {
					name = printNames[k]
				}
			}
			if text != name {
				t.Fatalf("kind %d is called %q, want %q", n, text, name)
			}
			c.NonTrivial(fmt.Sprint("kind ", n))
			return
		case "now":
			a := time.Now().UnixNano()
			now := event.TimeNow()
			b := time.Now().UnixNano()
			if now.UnixNanos < a && a <= b || now.UnixNanos > b && a <= b {
				t.Fatalf("TimeNow is %d, not between %d and %d", now.UnixNanos, a, b)
			}
			return
		}
		if got == nil || !reflect.DeepEqual(*got, want) {
			t.Fatalf("the %s value is %#v, want %#v", kind, got, want)
		}
		c.NonTrivial(fmt.Sprint(kind, want.Bool, want.Integer, want.UnsignedInteger, want.Float, want.String, want.Timestamp, len(want.Array), len(want.Object)))
	})
}

// Types that no value is made of.
type (
	namedChan chan string
	namedFunc func(int) error
)

var noKinds = []interface{}{make(chan int), make(namedChan), func() {}, namedFunc(nil), complex64(1), complex(1, 2), make(<-chan bool)}

func TestC30_PutErrors(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 40000, Thorough: 800000,
		Rule: "a put or put-if-absent that has to fail on a random event: at an existing path, below a value that is not an object or with a key without a name; the error has to be the one of its kind and name the path; non-trivial: paths of several names. Distinct by path and kind",
	}, func(t *rapid.T, c *vlib.Case) {
		m := vlib.Root(vlib.ValueOpt{Depth: 3, Names: vlib.NoBackslash}, vlib.NoBackslash).Draw(t, "event")
		e := m.Event()
		path, kind, try := vlib.Path(t, m, vlib.NoBackslash), "", false
		key := vlib.Key(path)
		var want error
		switch at := m.GetPath(path); {
		case rapid.IntRange(0, 9).Draw(t, "empty") == 5:
			key = rapid.SampledFrom([]string{"", ".", "..", "\\", ".\\."[:2]}).Draw(t, "key")
			path, kind, want = nil, "empty", event.ErrEmptyKey
			try = rapid.Bool().Draw(t, "try")
		case at != nil:
			kind, want, try = "exists", event.ErrKeyExists, true
		default:
			for i := 1; i < len(path) && want == nil; i++ {
				if x := m.GetPath(path[:i]); x != nil && x.Kind != vlib.Obj {
					kind, want = "parent", event.ErrTargetKeyNotObject
					try = rapid.Bool().Draw(t, "try")
				}
			}
		}
		if want == nil {
			c.Class("would not fail")
			return
		}
		c.Class(kind)
		put := e.Put
		if try {
			put = e.TryPut
		}
		_, err := put(key, event.Integer(1))
		if !errors.Is(err, want) {
			t.Fatalf("put of %q into %v: error %v, want %v", key, m, err, want)
		}
		for _, other := range []error{event.ErrEmptyKey, event.ErrKeyExists, event.ErrTargetKeyNotObject} {
			if other != want && errors.Is(err, other) {
				t.Fatalf("put of %q into %v: error %v is also %v", key, m, err, other)
			}
		}
		if len(path) > 0 && !strings.Contains(err.Error(), "/"+strings.Join(path, "/")) {
			t.Fatalf("put of %q into %v: error %v does not name the path", key, m, err)
		}
		if len(path) > 1 {
			c.NonTrivial(kind + " " + key)
		}
	})
}

func TestC30_Errors(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 60000, Thorough: 1000000,
		Rule: "missing-key errors with random keys and unsupported-type errors of random Go values, wrapped and joined up to six times in random ways, next to errors of other kinds with the same texts; errors.Is and errors.As have to find exactly those that are in, and the texts to name the key or the type; non-trivial: wrapped. Distinct by structure",
	}, func(t *rapid.T, c *vlib.Case) {
		key := rapid.OneOf(rapid.SampledFrom([]string{"", "a", "a.b", "%d", "a\nb", "<x>"}), vlib.Bytes()).Draw(t, "key")
		var err error
		missing, unsupported := false, reflect.Type(nil)
		what := rapid.SampledFrom([]string{"missing", "missing", "unsupported", "other"}).Draw(t, "what")
		c.Class(what)
		switch what {
		case "missing":
			err = processor.ErrorKeyMissing{Key: key}
			missing = true
			if !strings.Contains(err.Error(), key) {
				t.Fatalf("the error of the missing key %q is %q", key, err)
			}
		case "unsupported":
			x := rapid.SampledFrom(noKinds).Draw(t, "of")
			unsupported = reflect.TypeOf(x)
			for i, n := 0, rapid.IntRange(0, 4).Draw(t, "inside"); i < n; i++ {
				switch rapid.IntRange(0, 5).Draw(t, "in") {
				case 0:
					x = []interface{}{1, x}
				case 1:
					x = map[string]interface{}{key: x}
				case 2:
					x = struct{ A, B interface{} }{"a", x}
				case 3:
					y := x
					x = &y
				case 4:
					x = map[int]interface{}{3: x}
				case 5:
					x = [2]interface{}{x, nil}
				}
			}
			v, e := eventutil.ReflectValue(x)
			if e == nil || v != nil {
				t.Fatalf("%T gives %v and error %v", x, v, e)
			}
			if !strings.Contains(e.Error(), unsupported.String()) {
				t.Fatalf("the error of the type %v is %q", unsupported, e)
			}
			err = e
		default:
			err = rapid.SampledFrom([]error{errors.New(processor.ErrorKeyMissing{Key: key}.Error()), errors.New(key), io.EOF, context.Canceled, event.ErrKeyExists, event.ErrEmptyKey, event.ErrTargetKeyNotObject}).Draw(t, "other")
		}
		log := what + " " + key
		n := rapid.IntRange(0, 6).Draw(t, "wraps")
		for i := 0; i < n; i++ {
			k := rapid.IntRange(0, 2).Draw(t, "wrap")
			log += fmt.Sprint(" ", k)
			switch k {
			case 0:
				err = fmt.Errorf("outer: %w", err)
			case 1:
				err = errors.Join(io.EOF, err)
			case 2:
				err = fmt.Errorf("%w and %w", err, io.ErrUnexpectedEOF)
			}
		}
		if n > 0 {
			c.NonTrivial(log)
		}
		if got := errors.Is(err, processor.ErrorKeyMissing{}); got != missing {
			t.Fatalf("%s: errors.Is(%q, ErrorKeyMissing{}) = %v", log, err, got)
		}
		if got := errors.Is(err, processor.ErrorKeyMissing{Key: "other"}); got != missing {
			t.Fatalf("%s: errors.Is(%q, ErrorKeyMissing{other}) = %v", log, err, got)
		}
		var k processor.ErrorKeyMissing
		if got := errors.As(err, &k); got != missing || got && k.Key != key {
			t.Fatalf("%s: errors.As(%q, *ErrorKeyMissing) = %v, key %q", log, err, got, k.Key)
		}
		var u *eventutil.UnsupportedTypeError
		if got := errors.As(err, &u); got != (unsupported != nil) || got && u.Type != unsupported {
			t.Fatalf("%s: errors.As(%q, *UnsupportedTypeError) = %v", log, err, got)
		}
	})
}
