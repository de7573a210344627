package ev

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	v2 "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"

	"verif/harness/vlib"
)

// pbMessage is what every message type of the package has.
type pbMessage interface {
	proto.Message
	Size() int
	Marshal() ([]byte, error)
	MarshalTo([]byte) (int, error)
	MarshalToSizedBuffer([]byte) (int, error)
	Unmarshal([]byte) error
	XXX_Marshal([]byte, bool) ([]byte, error)
	XXX_Unmarshal([]byte) error
	XXX_Merge(proto.Message)
	XXX_Size() int
	XXX_DiscardUnknown()
	Descriptor() ([]byte, []int)
}

var pbTypes = []string{"MessageWrapper", "Log", "Value", "ValueArray", "ValueObject"}

func newPB(name string) pbMessage {
	switch name {
	case "MessageWrapper":
		return &protobuf.MessageWrapper{}
	case "Log":
		return &protobuf.Log{}
	case "Value":
		return &protobuf.Value{}
	case "ValueArray":
		return &protobuf.ValueArray{}
	case "ValueObject":
		return &protobuf.ValueObject{}
	}
	panic(name)
}

// pbGen builds a message in memory, and the same one for the independent
// implementation.
type pbGen struct {
	t        *rapid.T
	nan      bool
	unknown  bool // Unknown fields everywhere.
	unknowns int
}

// more gives a message unknown fields at times.
func (g *pbGen) more(unrecognized *[]byte) {
	if !g.unknown || rapid.IntRange(0, 2).Draw(g.t, "unknown") > 0 {
		return
	}
	for i, n := 0, rapid.IntRange(1, 3).Draw(g.t, "unknowns"); i < n; i++ {
		f := &field{num: rapid.SampledFrom([]uint64{12, 15, 16, 1000, 1<<29 - 1}).Draw(g.t, "number")}
		switch rapid.IntRange(0, 3).Draw(g.t, "wire type") {
		case 0:
			f.wt, f.v = varint, vlib.Uint64().Draw(g.t, "v")
		case 1:
			f.wt, f.v = fixed8, vlib.Uint64().Draw(g.t, "v")
		case 2:
			f.wt, f.v = fixed4, vlib.Uint64().Draw(g.t, "v")&math.MaxUint32
		case 3:
			f.wt, f.raw = length, rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(g.t, "b")
		}
		*unrecognized = f.write(*unrecognized)
		g.unknowns++
	}
}

func (g *pbGen) name() string { return vlib.Name(vlib.AnyName).Draw(g.t, "name") }

func (g *pbGen) value(depth int) *protobuf.Value {
	v := g.plainValue(depth)
	g.more(&v.XXX_unrecognized)
	return v
}

func (g *pbGen) plainValue(depth int) *protobuf.Value {
	k := rapid.IntRange(0, 9).Draw(g.t, "kind")
	if depth <= 0 && (k == 2 || k == 6) {
		k = 7
	}
	switch k {
	case 0:
		return &protobuf.Value{}
	case 1:
		return &protobuf.Value{Kind: &protobuf.Value_Null{}}
	case 2:
		return &protobuf.Value{Kind: &protobuf.Value_Array{Array: g.array(depth - 1)}}
	case 3:
		return &protobuf.Value{Kind: &protobuf.Value_Boolean{Boolean: rapid.Bool().Draw(g.t, "b")}}
	case 4:
		f := vlib.AnyDouble().Draw(g.t, "f")
		if math.IsNaN(f) {
			g.nan = true
		}
		return &protobuf.Value{Kind: &protobuf.Value_Float{Float: f}}
	case 5:
		return &protobuf.Value{Kind: &protobuf.Value_Integer{Integer: vlib.Int64().Draw(g.t, "i")}}
	case 6:
		return &protobuf.Value{Kind: &protobuf.Value_Object{Object: g.object(depth - 1)}}
	case 7:
		return &protobuf.Value{Kind: &protobuf.Value_String_{String_: []byte(vlib.Bytes().Draw(g.t, "s"))}}
	case 8:
		return &protobuf.Value{Kind: &protobuf.Value_Timestamp{Timestamp: vlib.Int64().Draw(g.t, "t")}}
	}
	return &protobuf.Value{Kind: &protobuf.Value_UnsignedInteger{UnsignedInteger: vlib.Uint64().Draw(g.t, "u")}}
}

func (g *pbGen) size() int {
	if rapid.IntRange(0, 31).Draw(g.t, "wide") == 31 {
		return vlib.Size(g.t, "n", []int{17, 43, 64, 130}, 1000)
	}
	return rapid.IntRange(0, 4).Draw(g.t, "n")
}

func (g *pbGen) array(depth int) *protobuf.ValueArray {
	a := &protobuf.ValueArray{}
	g.more(&a.XXX_unrecognized)
	for i, n := 0, g.size(); i < n; i++ {
		if i > 4 {
			a.Items = append(a.Items, &protobuf.Value{Kind: &protobuf.Value_Integer{Integer: int64(i)}})
			continue
		}
		a.Items = append(a.Items, g.value(depth))
	}
	return a
}

func (g *pbGen) object(depth int) *protobuf.ValueObject {
	o := &protobuf.ValueObject{Fields: map[string]*protobuf.Value{}}
	g.more(&o.XXX_unrecognized)
	for i, n := 0, g.size(); i < n; i++ {
		if i > 4 {
			o.Fields["f"+strconv.Itoa(i)] = &protobuf.Value{Kind: &protobuf.Value_Boolean{Boolean: true}}
			continue
		}
		o.Fields[g.name()] = g.value(depth)
	}
	return o
}

func (g *pbGen) log(depth int) *protobuf.Log {
	l := &protobuf.Log{}
	g.more(&l.XXX_unrecognized)
	if rapid.IntRange(0, 5).Draw(g.t, "object") > 0 {
		l.Object = g.object(depth)
	}
	return l
}

func (g *pbGen) message(name string, depth int) pbMessage {
	switch name {
	case "MessageWrapper":
		m := &protobuf.MessageWrapper{}
		g.more(&m.XXX_unrecognized)
		if rapid.IntRange(0, 5).Draw(g.t, "log") > 0 {
			m.Message = &protobuf.MessageWrapper_Log{Log: g.log(depth)}
		}
		return m
	case "Log":
		return g.log(depth)
	case "Value":
		return g.value(depth)
	case "ValueArray":
		return g.array(depth)
	}
	return g.object(depth)
}

// held reads a message through its struct fields, as text that is equal for
// equal messages only.
func held(m interface{}) string { return heldWith(m, true) }

// heldWith leaves unknown fields out if unknown is not set.
func heldWith(m interface{}, unknown bool) string {
	var sb bytes.Buffer
	var show func(m interface{})
	show = func(m interface{}) {
		if b := unrecognized(m); unknown && len(b) > 0 {
			defer fmt.Fprintf(&sb, "?%x", b)
		}
		switch m := m.(type) {
		case *protobuf.MessageWrapper:
			sb.WriteString("W(")
			if l, ok := m.Message.(*protobuf.MessageWrapper_Log); ok {
				show(l.Log)
			}
			sb.WriteString(")")
		case *protobuf.Log:
			sb.WriteString("L(")
			if m.Object != nil {
				show(m.Object)
			}
			sb.WriteString(")")
		case *protobuf.ValueArray:
			sb.WriteString("[")
			for _, v := range m.Items {
				show(v)
				sb.WriteString(",")
			}
			sb.WriteString("]")
		case *protobuf.ValueObject:
			sb.WriteString("{")
			for _, k := range sortedKeys(m.Fields) {
				fmt.Fprintf(&sb, "%q:", k)
				show(m.Fields[k])
				sb.WriteString(",")
			}
			sb.WriteString("}")
		case *protobuf.Value:
			switch k := m.Kind.(type) {
			case nil:
				sb.WriteString("unset")
			case *protobuf.Value_Null:
				fmt.Fprintf(&sb, "null%d", k.Null)
			case *protobuf.Value_Array:
				show(k.Array)
			case *protobuf.Value_Boolean:
				fmt.Fprint(&sb, k.Boolean)
			case *protobuf.Value_Float:
				fmt.Fprintf(&sb, "f%x", math.Float64bits(k.Float))
			case *protobuf.Value_Integer:
				fmt.Fprintf(&sb, "i%d", k.Integer)
			case *protobuf.Value_Object:
				show(k.Object)
			case *protobuf.Value_String_:
				fmt.Fprintf(&sb, "%q", k.String_)
			case *protobuf.Value_Timestamp:
				fmt.Fprintf(&sb, "t%d", k.Timestamp)
			case *protobuf.Value_UnsignedInteger:
				fmt.Fprintf(&sb, "u%d", k.UnsignedInteger)
			default:
				fmt.Fprintf(&sb, "%T", k)
			}
		}
	}
	show(m)
	return sb.String()
}

func unrecognized(m interface{}) []byte {
	switch m := m.(type) {
	case *protobuf.MessageWrapper:
		return m.XXX_unrecognized
	case *protobuf.Log:
		return m.XXX_unrecognized
	case *protobuf.ValueArray:
		return m.XXX_unrecognized
	case *protobuf.ValueObject:
		return m.XXX_unrecognized
	case *protobuf.Value:
		return m.XXX_unrecognized
	}
	return nil
}

func sortedKeys(m map[string]*protobuf.Value) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// checkGetters compares every getter of every message in m with the fields.
func checkGetters(t *rapid.T, m interface{}) {
	bad := func(what string) { t.Fatalf("%s of %s is wrong", what, held(m)) }
	switch m := m.(type) {
	case *protobuf.MessageWrapper:
		if m.GetMessage() != m.Message {
			bad("GetMessage")
		}
		var want *protobuf.Log
		if l, ok := m.Message.(*protobuf.MessageWrapper_Log); ok {
			want = l.Log
		}
		if m.GetLog() != want {
			bad("GetLog")
		}
		if want != nil {
			checkGetters(t, want)
		}
	case *protobuf.Log:
		if m.GetObject() != m.Object {
			bad("GetObject")
		}
		if m.Object != nil {
			checkGetters(t, m.Object)
		}
	case *protobuf.ValueArray:
		got := m.GetItems()
		if len(got) != len(m.Items) {
			bad("GetItems")
		}
		for i, v := range m.Items {
			if got[i] != v {
				bad("GetItems")
			}
			checkGetters(t, v)
		}
	case *protobuf.ValueObject:
		got := m.GetFields()
		if len(got) != len(m.Fields) {
			bad("GetFields")
		}
		for k, v := range m.Fields {
			if got[k] != v {
				bad("GetFields")
			}
			checkGetters(t, v)
		}
	case *protobuf.Value:
		if m.GetKind() != m.Kind {
			bad("GetKind")
		}
		var want protobuf.Value_Null
		var arr *protobuf.ValueArray
		var obj *protobuf.ValueObject
		var b bool
		var f float64
		var i, ts int64
		var u uint64
		var s []byte
		switch k := m.Kind.(type) {
		case *protobuf.Value_Null:
			want.Null = k.Null
		case *protobuf.Value_Array:
			arr = k.Array
		case *protobuf.Value_Boolean:
			b = k.Boolean
		case *protobuf.Value_Float:
			f = k.Float
		case *protobuf.Value_Integer:
			i = k.Integer
		case *protobuf.Value_Object:
			obj = k.Object
		case *protobuf.Value_String_:
			s = k.String_
		case *protobuf.Value_Timestamp:
			ts = k.Timestamp
		case *protobuf.Value_UnsignedInteger:
			u = k.UnsignedInteger
		}
		switch {
		case m.GetNull() != want.Null:
			bad("GetNull")
		case m.GetArray() != arr:
			bad("GetArray")
		case m.GetBoolean() != b:
			bad("GetBoolean")
		case math.Float64bits(m.GetFloat()) != math.Float64bits(f):
			bad("GetFloat")
		case m.GetInteger() != i:
			bad("GetInteger")
		case m.GetObject() != obj:
			bad("GetObject")
		case !bytes.Equal(m.GetString_(), s):
			bad("GetString_")
		case m.GetTimestamp() != ts:
			bad("GetTimestamp")
		case m.GetUnsignedInteger() != u:
			bad("GetUnsignedInteger")
		}
		if arr != nil {
			checkGetters(t, arr)
		}
		if obj != nil {
			checkGetters(t, obj)
		}
	}
}

// nilGetters calls all getters of messages that are not there.
func nilGetters() bool {
	var w *protobuf.MessageWrapper
	var l *protobuf.Log
	var v *protobuf.Value
	var a *protobuf.ValueArray
	var o *protobuf.ValueObject
	return w.GetMessage() == nil && w.GetLog() == nil && l.GetObject() == nil && v.GetKind() == nil && v.GetNull() == 0 &&
		v.GetArray() == nil && !v.GetBoolean() && v.GetFloat() == 0 && v.GetInteger() == 0 && v.GetObject() == nil &&
		v.GetString_() == nil && v.GetTimestamp() == 0 && v.GetUnsignedInteger() == 0 && a.GetItems() == nil && o.GetFields() == nil &&
		w.Size() == 0 && l.Size() == 0 && v.Size() == 0 && a.Size() == 0 && o.Size() == 0
}

// mergeable says whether adding b to a on the wire means the same as in
// memory for every implementation: no message member of a oneof meets another
// of the same kind.
func mergeable(a, b interface{}) bool {
	switch a := a.(type) {
	case *protobuf.MessageWrapper:
		return a.Message == nil || b.(*protobuf.MessageWrapper).Message == nil
	case *protobuf.Value:
		b := b.(*protobuf.Value)
		return !(a.GetArray() != nil && b.GetArray() != nil || a.GetObject() != nil && b.GetObject() != nil)
	}
	return true
}

func TestC27_Messages(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 80000, Thorough: 1600000,
		Rule: "a message of one of the five types built in memory with parts left out and at times unknown fields, written in every way the package offers and read by an independent implementation of the schema, its getters compared with its fields, and copied, merged, compared, reset and printed through the protobuf library; non-trivial: holds at least two values, one of them an array or object",
	}, func(t *rapid.T, c *vlib.Case) {
		g := &pbGen{t: t, unknown: rapid.IntRange(0, 3).Draw(t, "unknowns") == 0}
		name := rapid.SampledFrom(pbTypes).Draw(t, "type")
		m := g.message(name, rapid.IntRange(0, 3).Draw(t, "depth"))
		text := name + " " + held(m)
		var size int
		vlib.NoPanic(t, "Size of "+text, func() { size = m.Size() })
		var want *dynamicpb.Message
		check := func(how string, b []byte, err error) {
			if err != nil {
				t.Fatalf("%s: %s: %v", text, how, err)
			}
			if len(b) != size {
				t.Fatalf("%s: %s gave %d bytes, Size() = %d", text, how, len(b), size)
			}
			dyn, err := vlib.ProtoMessage(name, nil, b)
			if err != nil {
				t.Fatalf("%s: %s: an independent decoder rejects %x: %v", text, how, b, err)
			}
			if want == nil {
				want = dyn
				return
			}
			if !v2.Equal(dyn, want) {
				t.Fatalf("%s: %s gave other content: %v, want %v", text, how, dyn, want)
			}
		}
		data, err := m.Marshal()
		check("Marshal", data, err)
		// The independent decoder's content is that of the fields: read back by
		// the package, and by the names of the schema.
		back := newPB(name)
		if err := back.Unmarshal(data); err != nil {
			t.Fatalf("%s: decoding its own bytes %x: %v", text, data, err)
		}
		if held(back) != held(m) {
			t.Fatalf("%s: read back as %s", text, held(back))
		}
		if err := sameDynamic(m, want); err != nil {
			t.Fatalf("%s: an independent decoder reads %v: %v", text, want, err)
		}
		extra := rapid.IntRange(0, 20).Draw(t, "extra")
		fill := bytes.Repeat([]byte{0xa5}, size+extra)
		buf := append([]byte(nil), fill...)
		n, err := m.MarshalTo(buf)
		check("MarshalTo", buf[:min(n, len(buf))], err)
		if !bytes.Equal(buf[n:], fill[n:]) {
			t.Fatalf("%s: MarshalTo wrote beyond its bytes", text)
		}
		buf = append([]byte(nil), fill...)
		n, err = m.MarshalToSizedBuffer(buf) // At the end.
		check("MarshalToSizedBuffer", buf[len(buf)-min(n, len(buf)):], err)
		if !bytes.Equal(buf[:extra], fill[:extra]) {
			t.Fatalf("%s: MarshalToSizedBuffer wrote before its bytes", text)
		}
		if m.XXX_Size() != size || proto.Size(m) != size {
			t.Fatalf("%s: Size() = %d, XXX_Size() = %d, proto.Size = %d", text, size, m.XXX_Size(), proto.Size(m))
		}
		out, err := m.XXX_Marshal(make([]byte, 0, size), false)
		check("XXX_Marshal", out, err)
		out, err = proto.Marshal(m)
		check("proto.Marshal", out, err)
		out, err = m.XXX_Marshal(nil, true)
		check("XXX_Marshal(deterministic)", out, err)
		if held(m) != held(back) {
			t.Fatalf("%s: writing changed it to %s", text, held(m))
		}
		// The oneof wrappers are written as the message around them.
		var inner interface {
			Size() int
			MarshalTo([]byte) (int, error)
		}
		switch m := m.(type) {
		case *protobuf.Value:
			if m.Kind != nil {
				inner = m.Kind
			}
		case *protobuf.MessageWrapper:
			if m.Message != nil {
				inner = m.Message
			}
		}
		if inner != nil && len(unrecognized(m)) == 0 {
			buf = append([]byte(nil), fill...)
			if inner.Size() != size {
				t.Fatalf("%s: Size() of its member = %d, want %d", text, inner.Size(), size)
			}
			n, err = inner.MarshalTo(buf)
			check("MarshalTo of its member", buf[:min(n, len(buf))], err)
		}
		checkGetters(t, m)
		if !nilGetters() {
			t.Fatalf("a getter of a message that is not there gives something")
		}

		// Copies.
		clone, ok := proto.Clone(m).(pbMessage)
		if !ok || held(clone) != held(m) {
			t.Fatalf("%s: its copy is %s", text, held(clone))
		}
		if !g.nan && (!proto.Equal(m, clone) || !proto.Equal(clone, m)) {
			t.Fatalf("%s does not equal its copy", text)
		}
		// Other messages: equal if they hold the same, and not if more than the
		// sign of a zero or unknown fields (whose order does not count) differ.
		other := g.message(name, rapid.IntRange(0, 2).Draw(t, "otherdepth"))
		loose := func(m pbMessage) string {
			return strings.ReplaceAll(heldWith(m, false), "f8000000000000000", "f0")
		}
		if eq := proto.Equal(m, other); !g.nan && (eq && loose(m) != loose(other) || !eq && held(m) == held(other)) {
			t.Fatalf("Equal(%s, %s) = %v", text, held(other), eq)
		}
		// Merging in memory and on the wire.
		otherData, err := other.Marshal()
		if err != nil {
			t.Fatalf("%s %s: %v", name, held(other), err)
		}
		if mergeable(m, other) {
			sum, err := vlib.ProtoMessage(name, nil, append(append([]byte(nil), data...), otherData...))
			if err != nil {
				t.Fatalf("VERIF-ERROR %x + %x: %v", data, otherData, err)
			}
			proto.Merge(clone, other)
			if err := sameDynamic(clone, sum); err != nil {
				t.Fatalf("%s merged with %s is %s, want %v: %v", text, held(other), held(clone), sum, err)
			}
			merge2 := newPB(name)
			merge2.XXX_Merge(m)
			merge2.XXX_Merge(other)
			if held(merge2) != held(clone) {
				t.Fatalf("%s merged by XXX_Merge with %s is %s, want %s", text, held(other), held(merge2), held(clone))
			}
			onTop := newPB(name)
			err1 := onTop.XXX_Unmarshal(data)
			err2 := onTop.XXX_Unmarshal(otherData)
			if err1 != nil || err2 != nil || held(onTop) != held(clone) {
				t.Fatalf("%s and then %s read into one message is %s, want %s (%v, %v)", text, held(other), held(onTop), held(clone), err1, err2)
			}
			c.Class("merged")
		}
		if held(m) != held(back) {
			t.Fatalf("%s: changing its copy changed it to %s", text, held(m))
		}
		// Unknown fields are kept until they are discarded.
		unknown := (&field{num: 1000, wt: varint, v: 5}).write(nil)
		if err := proto.Unmarshal(append(append([]byte(nil), data...), unknown...), back); err != nil {
			t.Fatalf("%s with an unknown field: %v", text, err)
		}
		if back.Size() != size+len(unknown) {
			t.Fatalf("%s with an unknown field of %d bytes: Size() = %d, was %d", text, len(unknown), back.Size(), size)
		}
		if kept, err := proto.Marshal(proto.Clone(back)); err != nil || len(kept) != size+len(unknown) || !bytes.Contains(kept, unknown) {
			t.Fatalf("%s with an unknown field: its copy is written as %x, %v", text, kept, err)
		}
		if proto.Equal(back, m) {
			t.Fatalf("%s equals itself with an unknown field", text)
		}
		back.XXX_DiscardUnknown()
		if held(back) != heldWith(m, false) {
			t.Fatalf("%s is %s after XXX_DiscardUnknown", text, held(back))
		}
		if g.unknowns == 0 {
			out, err = back.Marshal()
			check("Marshal after XXX_DiscardUnknown", out, err)
		}

		// Text.
		s := back.String()
		parsed := newPB(name)
		if err := proto.UnmarshalText(s, parsed); err != nil {
			t.Fatalf("%s: its text form %q is unreadable: %v", text, s, err)
		}
		if !g.nan && held(parsed) != held(back) { // The text form has one NaN only.
			t.Fatalf("%s: its text form %q reads as %s", text, s, held(parsed))
		}

		parsed.Reset()
		if held(parsed) != held(newPB(name)) || parsed.Size() != 0 {
			t.Fatalf("%s is %s after Reset", text, held(parsed))
		}
		c.Class(name)
		c.ClassIf(size == 0, "empty")
		c.ClassIf(g.nan, "NaN")
		c.ClassIf(g.unknowns > 0, "unknown fields")
		if k := bytes.Count([]byte(text), []byte(",")); k >= 2 {
			c.NonTrivial(text)
		}
	})
}

// sameDynamic compares a message with the independent implementation's, which
// knows whether a kind is set.
func sameDynamic(m interface{}, dyn *dynamicpb.Message) error {
	if got := heldDynamic(dyn); got != held(m) {
		return fmt.Errorf("it is %s, not %s", got, held(m))
	}
	return nil
}

func heldDynamic(dyn *dynamicpb.Message) string { return vlib.ProtoText(dyn) }

func TestC27_Descriptor(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 400, Thorough: 4000,
		Rule: "the descriptor that each message type embeds, unpacked, against the published schema, field by field; what the protobuf library has registered under the schema's names; and names of the enumeration's numbers; non-trivial: all",
	}, func(t *rapid.T, c *vlib.Case) {
		name := rapid.SampledFrom(pbTypes).Draw(t, "type")
		zipped, path := newPB(name).Descriptor()
		zr, err := gzip.NewReader(bytes.NewReader(zipped))
		if err != nil {
			t.Fatalf("descriptor of %s: %v", name, err)
		}
		raw, err := io.ReadAll(zr)
		if err != nil {
			t.Fatalf("descriptor of %s: %v", name, err)
		}
		var got descriptorpb.FileDescriptorProto
		if err := v2.Unmarshal(raw, &got); err != nil {
			t.Fatalf("descriptor of %s: %v", name, err)
		}
		if len(path) != 1 || path[0] < 0 || path[0] >= len(got.MessageType) || got.MessageType[path[0]].GetName() != name {
			t.Fatalf("%s is not at %v of its descriptor", name, path)
		}
		var want *descriptorpb.DescriptorProto
		for _, m := range vlib.SchemaFile.MessageType {
			if m.GetName() == name {
				want = m
			}
		}
		if err := sameMessage(got.MessageType[path[0]], want, "."+got.GetPackage()+"."); err != nil {
			t.Fatalf("descriptor of %s: %v", name, err)
		}
		if got.GetSyntax() != "proto3" {
			t.Fatalf("syntax %q", got.GetSyntax())
		}
		zipped2, path := protobuf.ValueNull(0).EnumDescriptor()
		if !bytes.Equal(zipped, zipped2) || len(path) != 1 || path[0] != 0 || len(got.EnumType) != 1 || got.EnumType[0].GetName() != "ValueNull" {
			t.Fatalf("ValueNull is not at %v of its descriptor", path)
		}
		if err := registered(name, got.GetPackage(), raw); err != nil {
			t.Fatalf("%s is not known to the protobuf library: %v", name, err)
		}
		n := rapid.Int32().Draw(t, "n")
		s := protobuf.ValueNull(n).String()
		if n == 0 && s != "NULL_VALUE" || n != 0 && s != strconv.Itoa(int(n)) {
			t.Fatalf("ValueNull(%d) is named %q", n, s)
		}
		if protobuf.ValueNull(0).String() != "NULL_VALUE" {
			t.Fatalf("ValueNull(0) is named %q", protobuf.ValueNull(0))
		}
		c.NonTrivial(fmt.Sprint(name, n))
	})
}

// registered tells what the protobuf library finds under the names of the
// schema, where those look who have only a name (Any, JSON, reflection).
func registered(name, pkg string, file []byte) error {
	full := pkg + "." + name
	mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(full))
	if err != nil {
		return err
	}
	made := proto.MessageV1(mt.New().Interface())
	if want := reflect.TypeOf(newPB(name)); reflect.TypeOf(made) != want {
		return fmt.Errorf("%s makes a %T, not a %v", full, made, want)
	}
	if got := proto.MessageName(newPB(name)); got != full {
		return fmt.Errorf("it is named %q", got)
	}
	if m := proto.EnumValueMap(pkg + ".ValueNull"); len(m) != 1 || m["NULL_VALUE"] != 0 {
		return fmt.Errorf("the numbers of the enumeration are %v", m)
	}
	fd, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(full))
	if err != nil {
		return err
	}
	var out descriptorpb.FileDescriptorProto
	if err := v2.Unmarshal(file, &out); err != nil {
		return err
	}
	if fd.ParentFile().Path() != out.GetName() {
		return fmt.Errorf("its file is %q, not %q", fd.ParentFile().Path(), out.GetName())
	}
	return nil
}

func sameMessage(got, want *descriptorpb.DescriptorProto, pkg string) error {
	if len(got.Field) != len(want.Field) || len(got.NestedType) != len(want.NestedType) {
		return fmt.Errorf("%d fields and %d nested types, want %d and %d", len(got.Field), len(got.NestedType), len(want.Field), len(want.NestedType))
	}
	if got.GetOptions().GetMapEntry() != want.GetOptions().GetMapEntry() {
		return fmt.Errorf("%s: map entry: %v", got.GetName(), got.GetOptions().GetMapEntry())
	}
	show := func(f *descriptorpb.FieldDescriptorProto, pkg string) string {
		tn := f.GetTypeName()
		if len(tn) >= len(pkg) && tn[:len(pkg)] == pkg {
			tn = tn[len(pkg):]
		}
		return fmt.Sprint(f.GetName(), f.GetNumber(), f.GetLabel(), f.GetType(), tn, f.OneofIndex != nil)
	}
	byNum := map[int32]string{}
	for _, f := range want.Field {
		byNum[f.GetNumber()] = show(f, ".verif.")
	}
	for _, f := range got.Field {
		if s := show(f, pkg); s != byNum[f.GetNumber()] {
			return fmt.Errorf("field %s, want %s", s, byNum[f.GetNumber()])
		}
	}
	for i := range want.NestedType {
		if err := sameMessage(got.NestedType[i], want.NestedType[i], pkg); err != nil {
			return err
		}
	}
	return nil
}
