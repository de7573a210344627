package vlib

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

// Kind of a model value.
type Kind int

// The kinds.
const (
	Null Kind = iota
	Bool
	Int
	Uint
	Float
	Str
	Time
	Arr
	Obj
)

var kindNames = [...]string{"null", "bool", "int", "uint", "float", "string", "timestamp", "array", "object"}

func (k Kind) String() string { return kindNames[k] }

// MV is the model of an event value: a plain tree that shares nothing with the
// code under test. Nil *event.Value, null values, absent maps and empty maps
// are told apart only as far as the API tells them apart.
type MV struct {
	Kind Kind
	B    bool
	I    int64 // Also Unix nanoseconds of a timestamp.
	U    uint64
	F    float64
	S    string
	A    []*MV
	O    map[string]*MV

	// Nil marks a null that is a nil pointer inside an array or object of the
	// built value.
	Nil bool
}

// Constructors.
func MNull() *MV            { return &MV{} }
func MBool(b bool) *MV      { return &MV{Kind: Bool, B: b} }
func MInt(i int64) *MV      { return &MV{Kind: Int, I: i} }
func MUint(u uint64) *MV    { return &MV{Kind: Uint, U: u} }
func MFloat(f float64) *MV  { return &MV{Kind: Float, F: f} }
func MStr(s string) *MV     { return &MV{Kind: Str, S: s} }
func MTime(nanos int64) *MV { return &MV{Kind: Time, I: nanos} }
func MArr(a ...*MV) *MV     { return &MV{Kind: Arr, A: a} }
func MObj(o map[string]*MV) *MV {
	if o == nil {
		o = map[string]*MV{}
	}
	return &MV{Kind: Obj, O: o}
}

// Keys returns the sorted names in an object.
func (m *MV) Keys() []string {
	keys := make([]string, 0, len(m.O))
	for k := range m.O {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// Clone returns a deep copy.
func (m *MV) Clone() *MV {
	if m == nil {
		return nil
	}
	c := *m
	if m.A != nil {
		c.A = make([]*MV, len(m.A))
		for i, x := range m.A {
			c.A[i] = x.Clone()
		}
	}
	if m.O != nil {
		c.O = make(map[string]*MV, len(m.O))
		for k, x := range m.O {
			c.O[k] = x.Clone()
		}
	}
	return &c
}

// Depth returns the number of levels below the value.
func (m *MV) Depth() int {
	d := 0
	for _, x := range m.A {
		d = max(d, 1+x.Depth())
	}
	for _, x := range m.O {
		d = max(d, 1+x.Depth())
	}
	return d
}

// Count returns the number of values in the tree.
func (m *MV) Count() int {
	n := 1
	for _, x := range m.A {
		n += x.Count()
	}
	for _, x := range m.O {
		n += x.Count()
	}
	return n
}

// Walk calls f for every value of the tree.
func (m *MV) Walk(f func(*MV)) {
	f(m)
	for _, x := range m.A {
		x.Walk(f)
	}
	for _, k := range m.Keys() {
		m.O[k].Walk(f)
	}
}

// String is an unambiguous canonical text of the value.
func (m *MV) String() string {
	if m == nil {
		return "<nil>"
	}
	var sb strings.Builder
	m.write(&sb)
	return sb.String()
}

func (m *MV) write(sb *strings.Builder) {
	switch m.Kind {
	case Null:
		sb.WriteString("null")
		if m.Nil {
			sb.WriteString("(nil)")
		}
	case Bool:
		sb.WriteString(strconv.FormatBool(m.B))
	case Int:
		sb.WriteString("i" + strconv.FormatInt(m.I, 10))
	case Uint:
		sb.WriteString("u" + strconv.FormatUint(m.U, 10))
	case Float:
		if math.IsNaN(m.F) {
			fmt.Fprintf(sb, "f(NaN %x)", math.Float64bits(m.F))
		} else {
			sb.WriteString("f" + strconv.FormatFloat(m.F, 'g', -1, 64))
		}
	case Str:
		sb.WriteString(strconv.Quote(m.S))
	case Time:
		sb.WriteString("t" + strconv.FormatInt(m.I, 10))
	case Arr:
		sb.WriteByte('[')
		for i, x := range m.A {
			if i > 0 {
				sb.WriteByte(',')
			}
			x.write(sb)
		}
		sb.WriteByte(']')
	case Obj:
		sb.WriteByte('{')
		for i, k := range m.Keys() {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(strconv.Quote(k))
			sb.WriteByte(':')
			m.O[k].write(sb)
		}
		sb.WriteByte('}')
	}
}

// Equal compares exactly; doubles by their bits.
func (m *MV) Equal(o *MV) bool {
	if m == nil || o == nil {
		return m == o
	}
	if m.Kind != o.Kind {
		return false
	}
	switch m.Kind {
	case Bool:
		return m.B == o.B
	case Int, Time:
		return m.I == o.I
	case Uint:
		return m.U == o.U
	case Float:
		return math.Float64bits(m.F) == math.Float64bits(o.F)
	case Str:
		return m.S == o.S
	case Arr:
		if len(m.A) != len(o.A) {
			return false
		}
		for i := range m.A {
			if !m.A[i].Equal(o.A[i]) {
				return false
			}
		}
	case Obj:
		if len(m.O) != len(o.O) {
			return false
		}
		for k, x := range m.O {
			y, found := o.O[k]
			if !found || !x.Equal(y) {
				return false
			}
		}
	}
	return true
}

// Value builds the event value, sharing nothing but the null value that the
// decoders use too.
func (m *MV) Value() *event.Value {
	if m == nil {
		return nil
	}
	switch m.Kind {
	case Null:
		return event.NullValue
	case Bool:
		return event.Bool(m.B)
	case Int:
		return event.Integer(m.I)
	case Uint:
		return event.UnsignedInteger(m.U)
	case Float:
		return event.Float(m.F)
	case Str:
		return event.String(m.S)
	case Time:
		return event.Timestamp(m.I)
	case Arr:
		if m.A == nil {
			return event.Array()
		}
		a := make([]*event.Value, len(m.A))
		for i, x := range m.A {
			if !x.Nil {
				a[i] = x.Value()
			}
		}
		return event.Array(a...)
	case Obj:
		return event.Object(m.Fields())
	}
	panic("bad kind")
}

// Fields builds the map of an object.
func (m *MV) Fields() map[string]*event.Value {
	if m.O == nil {
		return nil
	}
	o := make(map[string]*event.Value, len(m.O))
	for k, x := range m.O {
		if x.Nil {
			o[k] = nil
			continue
		}
		o[k] = x.Value()
	}
	return o
}

// Event builds an event with these root fields by writing each of them with a
// literal, hand-escaped key. Names must be non-empty and without a backslash.
func (m *MV) Event() *event.Event {
	e := event.New()
	for _, k := range m.Keys() {
		if _, err := e.Put(Key([]string{k}), m.O[k].Value()); err != nil {
			panic(err)
		}
	}
	return e
}

// OwnEvent builds the same event with null values of its own.
func (m *MV) OwnEvent() *event.Event {
	e := m.Event()
	var walk func(v *event.Value)
	walk = func(v *event.Value) {
		for i, x := range v.Array {
			if x == event.NullValue {
				v.Array[i] = &event.Value{Type: event.NullType}
			} else if x != nil {
				walk(x)
			}
		}
		for k, x := range v.Object {
			if x == event.NullValue {
				v.Object[k] = &event.Value{Type: event.NullType}
			} else if x != nil {
				walk(x)
			}
		}
	}
	if root := e.Get("."); root != nil {
		walk(root)
	}
	return e
}

// Of reads an event value into the model.
func Of(v *event.Value) *MV {
	if v == nil {
		return MNull()
	}
	switch v.Type {
	case event.NullType:
		return MNull()
	case event.BoolType:
		return MBool(v.Bool)
	case event.IntegerType:
		return MInt(v.Integer)
	case event.UnsignedIntegerType:
		return MUint(v.UnsignedInteger)
	case event.FloatType:
		return MFloat(v.Float)
	case event.StringType:
		return MStr(v.String)
	case event.TimestampType:
		return MTime(v.Timestamp.UnixNanos)
	case event.ArrayType:
		m := MArr()
		for _, x := range v.Array {
			m.A = append(m.A, Of(x))
		}
		return m
	case event.ObjectType:
		m := MObj(nil)
		for k, x := range v.Object {
			m.O[k] = Of(x)
		}
		return m
	}
	panic(fmt.Sprintf("value of unknown type %d", v.Type))
}

// OfEvent reads the whole event into the model. An event without fields gives
// an empty object.
func OfEvent(e *event.Event) *MV {
	root := e.Get(".")
	if root == nil {
		return MObj(nil)
	}
	return Of(root)
}

// Key joins names to a key, escaping dots. It is the reference for EscapeKey.
func Key(path []string) string {
	var sb strings.Builder
	for i, name := range path {
		if i > 0 {
			sb.WriteByte('.')
		}
		for j := 0; j < len(name); j++ {
			if name[j] == '.' {
				sb.WriteByte('\\')
			}
			sb.WriteByte(name[j])
		}
	}
	return sb.String()
}

// Reference model of an event: the operations on a plain nested map. A path is
// a list of non-empty names.

// Outcome of a write.
type Outcome int

// The outcomes.
const (
	OK Outcome = iota
	EmptyKey
	KeyExists
	NotObject
)

func (o Outcome) String() string {
	return [...]string{"ok", "empty key", "key exists", "parent not an object"}[o]
}

// GetPath reads; nil if there is no such entry. The empty path reads the whole
// event, which is nil if it has no fields.
func (m *MV) GetPath(path []string) *MV {
	if len(path) == 0 {
		if len(m.O) == 0 {
			return nil
		}
		return m
	}
	cur := m
	for _, name := range path {
		if cur.Kind != Obj {
			return nil
		}
		next := cur.field(name)
		if next == nil {
			return nil
		}
		cur = next
	}
	return cur
}

// field is what an object holds under a name. A nil pointer is no field.
func (m *MV) field(name string) *MV {
	if f := m.O[name]; f != nil && !f.Nil {
		return f
	}
	return nil
}

// PutPath writes, if the outcome is OK.
func (m *MV) PutPath(path []string, v *MV, overwrite bool) (old *MV, out Outcome) {
	if len(path) == 0 {
		return nil, EmptyKey
	}
	if v == nil {
		return nil, OK
	}
	old = m.GetPath(path)
	if old != nil && !overwrite {
		return old, KeyExists
	}
	// Look before writing: a failed write changes nothing.
	cur := m
	for _, name := range path[:len(path)-1] {
		next := cur.field(name)
		if next == nil {
			break
		}
		if next.Kind != Obj {
			return nil, NotObject
		}
		cur = next
	}
	cur = m
	for _, name := range path[:len(path)-1] {
		next := cur.field(name)
		if next == nil {
			next = MObj(nil)
			cur.O[name] = next
		}
		if next.O == nil {
			next.O = map[string]*MV{}
		}
		cur = next
	}
	if cur.O == nil {
		cur.O = map[string]*MV{}
	}
	cur.O[path[len(path)-1]] = v
	return old, OK
}

// DeletePath deletes.
func (m *MV) DeletePath(path []string) (old *MV) {
	if len(path) == 0 {
		return nil
	}
	old = m.GetPath(path)
	if old != nil {
		parent := m.GetPath(path[:len(path)-1])
		if len(path) == 1 {
			parent = m
		}
		delete(parent.O, path[len(path)-1])
	}
	return old
}

// Plain converts to the Go value that mapinterface documents for the kind.
func (m *MV) Plain() interface{} {
	switch m.Kind {
	case Null:
		return nil
	case Bool:
		return m.B
	case Int:
		return m.I
	case Uint:
		return m.U
	case Float:
		return m.F
	case Str:
		return m.S
	case Time:
		return time.Unix(0, m.I).UTC()
	case Arr:
		a := make([]interface{}, 0, len(m.A))
		for _, x := range m.A {
			a = append(a, x.Plain())
		}
		return a
	case Obj:
		return m.PlainMap()
	}
	panic("bad kind")
}

// PlainMap converts an object.
func (m *MV) PlainMap() map[string]interface{} {
	o := make(map[string]interface{}, len(m.O))
	for k, x := range m.O {
		o[k] = x.Plain()
	}
	return o
}

// OfPlain reads plain Go values as produced by Plain into the model.
func OfPlain(v interface{}) *MV {
	switch x := v.(type) {
	case nil:
		return MNull()
	case bool:
		return MBool(x)
	case int64:
		return MInt(x)
	case uint64:
		return MUint(x)
	case float64:
		return MFloat(x)
	case string:
		return MStr(x)
	case time.Time:
		return MTime(x.UnixNano())
	case []interface{}:
		m := MArr()
		for _, y := range x {
			m.A = append(m.A, OfPlain(y))
		}
		return m
	case map[string]interface{}:
		m := MObj(nil)
		for k, y := range x {
			m.O[k] = OfPlain(y)
		}
		return m
	}
	panic(fmt.Sprintf("not a plain value: %T", v))
}
