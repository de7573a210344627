package ev

import (
	"bytes"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"

	"verif/harness/vlib"
)

// pad makes some strings and arrays as long as where varint lengths change
// size.
func pad(t *rapid.T, c *vlib.Case, m *vlib.MV) {
	if rapid.IntRange(0, 3).Draw(t, "pad") != 3 {
		return
	}
	var strs, arrs []*vlib.MV
	m.Walk(func(v *vlib.MV) {
		switch v.Kind {
		case vlib.Str:
			strs = append(strs, v)
		case vlib.Arr:
			arrs = append(arrs, v)
		}
	})
	sizes := []int{112, 116, 118, 120, 122, 124, 126, 127, 128, 129, 130, 255, 256, 300}
	if rapid.IntRange(0, 5).Draw(t, "large") == 5 {
		sizes = []int{16370, 16376, 16380, 16382, 16383, 16384, 16385, 16390}
		c.Class("16 KiB")
	}
	if rapid.IntRange(0, 4000).Draw(t, "mega") == 1717 {
		sizes = []int{32766, 65534, 1<<20 - 1, 1<<21 - 4, 1<<21 - 2, 1<<21 - 1, 1 << 21, 1<<21 + 20}
		c.Class("2 MiB")
	}
	n := vlib.Size(t, "size", sizes, 20000) + rapid.IntRange(0, 3).Draw(t, "more")
	switch {
	case len(strs) > 0:
		strs[rapid.IntRange(0, len(strs)-1).Draw(t, "which")].S = strings.Repeat("x", n)
		c.Class("padded string")
	case len(arrs) > 0:
		a := arrs[rapid.IntRange(0, len(arrs)-1).Draw(t, "which")]
		for i := 0; i < n/4; i++ {
			a.A = append(a.A, vlib.MBool(true))
		}
		c.Class("padded array")
	default:
		m.O[strings.Repeat("k", n)] = vlib.MNull()
		c.Class("padded name")
	}
}

func TestC07_RoundTrip(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 240000, Thorough: 4800000,
		Rule: "an event of every value kind, any names and sizes around the varint limits, to bytes and back; an independent decoder of the published schema must read the same from the bytes, and sizes must agree; non-trivial: at least 3 kinds and nesting, or a padded length",
	}, func(t *rapid.T, c *vlib.Case) {
		m := vlib.Root(vlib.ValueOpt{Names: vlib.AnyName, AnyDouble: true, AnyBytes: true, Depth: 4, NilNested: true, NilItems: true, NilFields: true}, vlib.AnyName).Draw(t, "m")
		pad(t, c, m)
		var e *event.Event
		if len(m.O) == 0 && rapid.Bool().Draw(t, "new") {
			e = event.New()
		} else {
			e = event.FromFields(m.Fields())
		}
		var pb *protobuf.MessageWrapper
		vlib.NoPanic(t, "FromEvent of "+m.String(), func() { pb = protobuf.FromEvent(e) })
		size := pb.Size()
		data, err := pb.Marshal()
		if err != nil {
			t.Fatalf("encoding %v: %v", m, err)
		}
		if size != len(data) {
			t.Fatalf("%v: Size() = %d, but %d bytes were written", m, size, len(data))
		}
		// Into a larger buffer the same number of bytes is written.
		buf := bytes.Repeat([]byte{0xaa}, size+16)
		n, err := pb.MarshalTo(buf)
		if err != nil || n != size || !bytes.Equal(buf[size:], bytes.Repeat([]byte{0xaa}, 16)) {
			t.Fatalf("%v: MarshalTo wrote %d bytes (%v), Size() = %d", m, n, err, size)
		}
		for i, b := range [][]byte{data, buf[:n]} {
			dyn, err := vlib.ProtoWrapper(b)
			if err != nil {
				t.Fatalf("%v: an independent decoder rejects the bytes %x: %v", m, b, err)
			}
			if got := vlib.ProtoMeaning(dyn); got == nil || !got.Equal(m) {
				t.Fatalf("an independent decoder reads %v from the bytes (%d) of\n%v", got, i, m)
			}
		}
		var back protobuf.MessageWrapper
		if err := back.Unmarshal(data); err != nil {
			t.Fatalf("decoding %x of %v: %v", data, m, err)
		}
		var got *event.Event
		vlib.NoPanic(t, "ToLogEvent of "+m.String(), func() { got = protobuf.ToLogEvent(back.GetLog()) })
		if got == nil {
			t.Fatalf("%v came back as no event", m)
		}
		if g := vlib.OfEvent(got); !g.Equal(m) {
			t.Fatalf("%v came back as\n%v", m, g)
		}
		// The returned event is usable and independent of the message.
		if rapid.IntRange(0, 3).Draw(t, "use") == 3 {
			got.Put("new.field", event.Bool(true))
			if again := protobuf.ToLogEvent(back.GetLog()); again == nil || !vlib.OfEvent(again).Equal(m) {
				t.Fatalf("writing to the event changed the message of %v", m)
			}
		}
		// Not through bytes.
		if g := protobuf.ToLogEvent(pb.GetLog()); g == nil || !vlib.OfEvent(g).Equal(m) {
			t.Fatalf("%v came back without bytes as another event", m)
		}
		log := pb.GetLog()
		data, err = log.Marshal()
		if err != nil || log.Size() != len(data) {
			t.Fatalf("%v: Log: Size() = %d, %d bytes, %v", m, log.Size(), len(data), err)
		}
		if dyn, err := vlib.ProtoLog(data); err != nil || !m.Equal(vlib.ProtoLogMeaning(dyn)) {
			t.Fatalf("%v: an independent decoder reads other content from its Log: %v", m, err)
		}
		kinds := map[vlib.Kind]bool{}
		m.Walk(func(v *vlib.MV) { kinds[v.Kind] = true })
		for k := range kinds {
			c.Class(k.String())
		}
		c.ClassIf(len(m.O) == 0, "empty event")
		if len(kinds) >= 4 && m.Depth() >= 2 || size > 127 {
			c.NonTrivial(m.String())
		}
	})
}
