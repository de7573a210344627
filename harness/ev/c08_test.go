package ev

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"

	"verif/harness/vlib"
)

// Wire types.
const (
	varint = 0
	fixed8 = 1
	length = 2
	group  = 3
	endGrp = 4
	fixed4 = 5
)

// field is one field on the wire.
type field struct {
	num    uint64
	wt     int
	v      uint64 // varint, fixed8, fixed4
	raw    []byte // length with plain content
	kids   []*field
	msg    bool // length with fields as content, of a known message field
	pad    int  // Redundant bytes in the tag's varint.
	lenPad int  // In the length's.
	strict bool // Not directly in a map entry.

	// Corruptions.
	badLen  *uint64
	badTag  *uint64
	garbage []byte // Before the field.
	longTag bool   // The tag's number has more than ten bytes.
	longLen bool   // The length or the value has.
}

func appendVarint(b []byte, v uint64, pad int) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	if pad == 0 {
		return append(b, byte(v))
	}
	b = append(b, byte(v)|0x80)
	for i := 1; i < pad; i++ {
		b = append(b, 0x80)
	}
	return append(b, 0)
}

func varintLen(v uint64) int { return len(appendVarint(nil, v, 0)) }

func (f *field) write(b []byte) []byte {
	b = append(b, f.garbage...)
	tag := f.num<<3 | uint64(f.wt)
	if f.badTag != nil {
		tag = *f.badTag
	}
	if f.longTag {
		b = appendVarint(b, tag, 11+f.pad-varintLen(tag))
	} else {
		b = appendVarint(b, tag, min(f.pad, 10-varintLen(tag)))
	}
	switch f.wt {
	case varint:
		if f.longLen {
			return appendVarint(b, f.v, 11+f.lenPad-varintLen(f.v))
		}
		return appendVarint(b, f.v, min(f.lenPad, 10-varintLen(f.v)))
	case fixed8:
		return binary.LittleEndian.AppendUint64(b, f.v)
	case fixed4:
		return binary.LittleEndian.AppendUint32(b, uint32(f.v))
	case length:
		body := f.raw
		if f.msg {
			body = writeAll(f.kids)
		}
		n := uint64(len(body))
		if f.badLen != nil {
			n = *f.badLen
		}
		if f.longLen {
			b = appendVarint(b, n, 11+f.lenPad-varintLen(n))
		} else {
			b = appendVarint(b, n, min(f.lenPad, 10-varintLen(n)))
		}
		return append(b, body...)
	case group:
		b = append(b, writeAll(f.kids)...)
		return appendVarint(b, f.num<<3|endGrp, 0)
	}
	panic("wire type")
}

func writeAll(fs []*field) []byte {
	var b []byte
	for _, f := range fs {
		b = f.write(b)
	}
	return b
}

func (f *field) walk(visit func(*field)) {
	visit(f)
	if f.msg {
		for _, k := range f.kids {
			k.walk(visit)
		}
	}
}

// wireGen draws valid encodings in any form a writer may choose.
type wireGen struct {
	t                             *rapid.T
	unknown, dup, padded, reorder int
}

// paddings are how many redundant bytes a number may get; with nine it has ten
// bytes, which is all that a number may have.
var paddings = []int{0, 1, 2, 3, 4, 8, 9, 9}

func (g *wireGen) finish(f *field) *field {
	if rapid.IntRange(0, 11).Draw(g.t, "pads") == 11 {
		f.pad = rapid.SampledFrom(paddings).Draw(g.t, "pad")
		f.lenPad = rapid.SampledFrom(paddings).Draw(g.t, "lenpad")
		g.padded++
	}
	return f
}

// long gives a rare length around the limits of length prefixes, or 0.
func (g *wireGen) long() int {
	if rapid.IntRange(0, 4000).Draw(g.t, "huge") == 1717 {
		return rapid.SampledFrom([]int{32768, 65535, 65536, 70001, 1<<21 - 1, 1 << 21}).Draw(g.t, "size")
	}
	if rapid.IntRange(0, 60).Draw(g.t, "long") == 27 {
		return vlib.Size(g.t, "size", []int{63, 64, 127, 128, 129, 255, 256, 1023, 4096, 16383, 16384}, 70000)
	}
	return 0
}

// many gives a rare number of items instead of n.
func (g *wireGen) many(n int) int {
	if rapid.IntRange(0, 900).Draw(g.t, "many") == 417 {
		return vlib.Size(g.t, "count", []int{15, 17, 33, 65, 130, 257, 600}, 3000)
	}
	return n
}

// unknownField draws a field that the schema does not have.
func (g *wireGen) unknownField(first uint64, depth int) *field {
	g.unknown++
	num := first + rapid.Uint64Range(0, 20).Draw(g.t, "unknown")
	if rapid.IntRange(0, 3).Draw(g.t, "far") == 3 {
		num = rapid.SampledFrom([]uint64{2047, 2048, 18999, 1 << 20, 1<<29 - 1}).Draw(g.t, "num")
		if n, ok := vlib.NovelInt(g.t, 4); ok && n >= int64(first) && n < 1<<29 {
			num = uint64(n)
		}
	}
	f := &field{num: num}
	switch rapid.IntRange(0, 4).Draw(g.t, "wt") {
	case 0:
		f.wt, f.v = varint, rapid.Uint64().Draw(g.t, "v")
		if n, ok := vlib.NovelInt(g.t, 8); ok {
			f.v = uint64(n)
		}
	case 1:
		f.wt, f.v = fixed8, rapid.Uint64().Draw(g.t, "v")
	case 2:
		f.wt, f.v = fixed4, uint64(rapid.Uint32().Draw(g.t, "v"))
	case 3:
		f.wt, f.raw = length, rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(g.t, "raw")
		if n := g.long(); n > 0 {
			f.raw = bytes.Repeat([]byte{rapid.Byte().Draw(g.t, "fill")}, n)
		}
	default:
		f.wt = group
		if rapid.IntRange(0, 300).Draw(g.t, "deep") == 117 {
			in := &field{num: first, wt: varint, v: 5}
			for i, n := 0, vlib.Size(g.t, "levels", []int{9, 33, 65, 99}, 600); i < n; i++ {
				in = &field{num: first, wt: group, kids: []*field{in}}
			}
			f.kids = []*field{in}
			return f
		}
		if depth > 0 {
			for i, n := 0, rapid.IntRange(0, 2).Draw(g.t, "ingroup"); i < n; i++ {
				f.kids = append(f.kids, g.unknownField(1, depth-1))
			}
		}
	}
	return g.finish(f)
}

// mix puts unknown fields between the fields.
func (g *wireGen) mix(fs []*field, first uint64) []*field {
	if rapid.IntRange(0, 4).Draw(g.t, "mix") != 4 {
		return fs
	}
	for i, n := 0, rapid.IntRange(1, 2).Draw(g.t, "unknowns"); i < n; i++ {
		at := rapid.IntRange(0, len(fs)).Draw(g.t, "at")
		fs = append(fs[:at:at], append([]*field{g.unknownField(first, 2)}, fs[at:]...)...)
	}
	return fs
}

func (g *wireGen) value(depth int) []*field {
	var fs []*field
	n := 1
	switch rapid.IntRange(0, 9).Draw(g.t, "settings") {
	case 0:
		n = 0
	case 8, 9:
		n = rapid.IntRange(2, 3).Draw(g.t, "n")
		g.dup++
	}
	last := uint64(0)
	for i := 0; i < n; i++ {
		k := rapid.Uint64Range(1, 9).Draw(g.t, "kind")
		if depth <= 0 && (k == 2 || k == 6) {
			k = 5
		}
		if k == last && (k == 2 || k == 6) {
			k = 1 // A message repeated in place would be merged.
		}
		last = k
		f := &field{num: k, strict: true}
		switch k {
		case 1:
			f.v = rapid.SampledFrom([]uint64{0, 0, 0, 1, 7, 127, 128, math.MaxUint64}).Draw(g.t, "enum")
		case 2:
			f.wt, f.msg = length, true
			for i, n := 0, g.many(rapid.IntRange(0, 3).Draw(g.t, "items")); i < n; i++ {
				if i >= 8 {
					depth = min(depth, 1)
				}
				f.kids = append(f.kids, g.finish(&field{num: 1, wt: length, msg: true, strict: true, kids: g.value(depth - 1)}))
			}
			f.kids = g.mix(f.kids, 2)
		case 3:
			f.v = rapid.SampledFrom([]uint64{0, 1, 1, 2, 127, 128, 16383, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64}).Draw(g.t, "bool")
		case 4:
			f.wt, f.v = fixed8, math.Float64bits(vlib.AnyDouble().Draw(g.t, "double"))
		case 5, 8:
			f.v = uint64(vlib.Int64().Draw(g.t, "int"))
		case 6:
			f.wt, f.msg = length, true
			f.kids = g.object(depth)
		case 7:
			f.wt, f.raw = length, []byte(vlib.Bytes().Draw(g.t, "bytes"))
			if n := g.long(); n > 0 {
				f.raw = bytes.Repeat([]byte{'y'}, n)
			}
		case 9:
			f.v = vlib.Uint64().Draw(g.t, "uint")
		}
		fs = append(fs, g.finish(f))
	}
	return g.mix(fs, 10)
}

func (g *wireGen) object(depth int) []*field {
	var fs []*field
	for i, n := 0, g.many(rapid.IntRange(0, 4).Draw(g.t, "entries")); i < n; i++ {
		if i >= 8 {
			depth = min(depth, 1)
		}
		var entry []*field
		if rapid.IntRange(0, 9).Draw(g.t, "key") > 0 {
			entry = append(entry, g.finish(&field{num: 1, wt: length, raw: []byte(vlib.Name(vlib.AnyName).Draw(g.t, "name"))}))
		}
		if rapid.IntRange(0, 9).Draw(g.t, "value") > 0 {
			entry = append(entry, g.finish(&field{num: 2, wt: length, msg: true, kids: g.value(depth - 1)}))
		}
		if len(entry) == 2 && rapid.IntRange(0, 3).Draw(g.t, "swap") == 3 {
			entry[0], entry[1] = entry[1], entry[0]
			g.reorder++
		}
		entry = g.mix(entry, 3)
		fs = append(fs, g.finish(&field{num: 1, wt: length, msg: true, strict: true, kids: entry}))
	}
	if len(fs) > 1 && rapid.IntRange(0, 4).Draw(g.t, "again") == 4 {
		fs = append(fs, fs[0])
		g.dup++
	}
	return g.mix(fs, 2)
}

func (g *wireGen) wrapper(depth int) []*field {
	var fs []*field
	if rapid.IntRange(0, 14).Draw(g.t, "log") > 0 {
		var log []*field
		n := rapid.SampledFrom([]int{1, 1, 1, 1, 0, 2}).Draw(g.t, "objects")
		for i := 0; i < n; i++ { // The object of a log is merged when it is repeated.
			log = append(log, g.finish(&field{num: 1, wt: length, msg: true, strict: true, kids: g.object(depth)}))
		}
		fs = append(fs, g.finish(&field{num: 1, wt: length, msg: true, strict: true, kids: g.mix(log, 2)}))
	}
	return g.mix(fs, 2)
}

// meaning decodes with the code under test; nil if rejected.
func decodeWrapper(t *rapid.T, data []byte) (*protobuf.MessageWrapper, *vlib.MV, error) {
	var m protobuf.MessageWrapper
	var err error
	vlib.NoPanic(t, fmt.Sprintf("Unmarshal of %x", data), func() { err = m.Unmarshal(data) })
	if err != nil {
		return nil, nil, err
	}
	var mv *vlib.MV
	vlib.NoPanic(t, fmt.Sprintf("ToLogEvent of %x", data), func() {
		if e := protobuf.ToLogEvent(m.GetLog()); e != nil {
			mv = vlib.OfEvent(e)
		}
	})
	return &m, mv, nil
}

func TestC08_Valid(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 320000, Thorough: 6000000,
		Rule: "a valid encoding in any form (field order, redundant varints, repeated scalars and map keys, missing parts, unknown fields of all wire types), decoded, compared with an independent decoder, written again and compared again with unknown fields; non-trivial: at least one such form and a nested value",
	}, func(t *rapid.T, c *vlib.Case) {
		g := &wireGen{t: t}
		data := writeAll(g.wrapper(rapid.IntRange(1, 4).Draw(t, "depth")))
		dyn, err := vlib.ProtoWrapper(data)
		if err != nil {
			t.Fatalf("VERIF-ERROR the independent decoder rejects the generated %x: %v", data, err)
		}
		want := vlib.ProtoMeaning(dyn)
		m, got, err := decodeWrapper(t, data)
		if err != nil {
			t.Fatalf("valid %x (%v) was rejected: %v", data, want, err)
		}
		if (got == nil) != (want == nil) || got != nil && !got.Equal(want) {
			t.Fatalf("%x was read as\n%v, want\n%v", data, got, want)
		}
		var again []byte
		vlib.NoPanic(t, fmt.Sprintf("Marshal after %x", data), func() { again, err = m.Marshal() })
		if err != nil {
			t.Fatalf("%x was not written again: %v", data, err)
		}
		if m.Size() != len(again) {
			t.Fatalf("%x: Size() = %d but %d bytes written", data, m.Size(), len(again))
		}
		dyn2, err := vlib.ProtoWrapper(again)
		if err != nil {
			t.Fatalf("%x was written again as invalid %x: %v", data, again, err)
		}
		if !proto.Equal(dyn, dyn2) {
			// NaNs are equal to NaNs there; maps compare by key.
			t.Fatalf("%x was written again as %x with other content:\n%v\n%v", data, again, dyn, dyn2)
		}
		c.ClassIf(g.unknown > 0, "unknown fields")
		c.ClassIf(g.dup > 0, "repeated")
		c.ClassIf(g.padded > 0, "redundant varints")
		c.ClassIf(g.reorder > 0, "value before key")
		c.ClassIf(want == nil, "no event")
		if g.unknown+g.dup+g.padded+g.reorder > 0 && want != nil && want.Depth() >= 1 {
			c.NonTrivial(fmt.Sprintf("%x", data))
		}
	})
}

func TestC08_Corrupt(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 320000, Thorough: 6000000,
		Rule: "a valid encoding with one certain defect (cut inside a field, a length beyond the end or negative, an illegal tag, a message field of another wire type, a number of more than ten bytes) must be rejected, and a member of a value with another wire type must be rejected or skipped; non-trivial: the defect is below the top level",
	}, func(t *rapid.T, c *vlib.Case) {
		g := &wireGen{t: t}
		top := g.wrapper(rapid.IntRange(1, 4).Draw(t, "depth"))
		if len(top) == 0 {
			top = append(top, &field{num: 1, wt: length, msg: true, strict: true})
		}
		var all, lens, strict, msgs, members []*field
		depth := map[*field]int{}
		var visit func(fs []*field, d int)
		seen := map[*field]bool{}
		visit = func(fs []*field, d int) {
			for _, f := range fs {
				if seen[f] {
					continue
				}
				seen[f] = true
				depth[f] = d
				all = append(all, f)
				if f.wt == length {
					lens = append(lens, f)
				}
				if f.strict {
					strict = append(strict, f)
				}
				if f.msg && f.strict {
					msgs = append(msgs, f)
				}
				if !f.msg && f.strict {
					members = append(members, f)
				}
				if f.msg || f.wt == group {
					visit(f.kids, d+1)
				}
			}
		}
		visit(top, 0)
		valid := writeAll(top)
		var data []byte
		var at *field
		what := rapid.SampledFrom([]string{"cut", "length", "tag", "wiretype", "cut", "overlong", "member"}).Draw(t, "what")
		pick := func(fs []*field) *field {
			return fs[rapid.IntRange(0, len(fs)-1).Draw(t, "pick")]
		}
		if what == "length" && len(lens) == 0 || what == "tag" && len(strict) == 0 || what == "wiretype" && len(msgs) == 0 || what == "member" && len(members) == 0 {
			what = "cut"
		}
		switch what {
		case "cut":
			// Not at the boundary of top-level fields.
			bounds := map[int]bool{0: true}
			n := 0
			for _, f := range top {
				n += len(f.write(nil))
				bounds[n] = true
			}
			cut := rapid.IntRange(0, len(valid)-1).Draw(t, "cut")
			for bounds[cut] {
				cut++
			}
			if cut >= len(valid) {
				cut = 1 // Inside the first field: every field has at least two bytes.
			}
			data = valid[:cut]
		case "length":
			at = pick(lens)
			n := rapid.SampledFrom([]uint64{uint64(len(valid)) + 1, uint64(len(valid)) + 100, 1<<31 - 1, 1 << 31, 1 << 32, 1<<62 + 5, 1<<63 - 1, 1<<63 - 10, 1 << 63, math.MaxUint64, math.MaxUint64 - 3}).Draw(t, "n")
			if rapid.IntRange(0, 3).Draw(t, "back") == 3 {
				// A negative length, to somewhere before, as far as the field itself.
				n = -rapid.Uint64Range(1, 12+uint64(len(valid))).Draw(t, "by")
			}
			at.badLen = &n
			data = writeAll(top)
		case "tag":
			at = pick(strict)
			// Field number 0, reserved wire types, an end of a group that was not
			// started.
			tag := rapid.SampledFrom([]uint64{0, 1, 2, 5, 1<<3 | 6, 1<<3 | 7, 50<<3 | 6, 50<<3 | 7, 1<<3 | 4, 50<<3 | 4, 4, 3}).Draw(t, "tag")
			at.garbage = appendVarint(nil, tag, 0)
			at.garbage = append(at.garbage, rapid.SliceOfN(rapid.Byte(), 0, 2).Draw(t, "rest")...)
			data = writeAll(top)
		case "overlong":
			at = pick(all)
			at.pad, at.lenPad = rapid.IntRange(0, 3).Draw(t, "pad"), rapid.IntRange(0, 3).Draw(t, "lenpad")
			if (at.wt == length || at.wt == varint) && rapid.Bool().Draw(t, "content") {
				at.longLen = true
			} else {
				at.longTag = true
			}
			data = writeAll(top)
		case "wiretype":
			at = pick(msgs)
			// The field as another wire type, whole and well-formed by itself.
			wt := rapid.SampledFrom([]int{varint, fixed8, fixed4}).Draw(t, "wt")
			at.msg, at.wt, at.v = false, wt, rapid.Uint64Range(0, 300).Draw(t, "v")
			data = writeAll(top)
		case "member":
			at = pick(members)
			var wts []int
			for _, wt := range []int{varint, fixed8, fixed4, length, group} {
				if wt != at.wt {
					wts = append(wts, wt)
				}
			}
			at.wt = rapid.SampledFrom(wts).Draw(t, "wt")
			at.v, at.raw, at.kids = rapid.Uint64Range(0, 300).Draw(t, "v"), nil, nil
			if at.wt == length {
				at.raw = rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "raw")
			}
			data = writeAll(top)
		}
		_, got, err := decodeWrapper(t, data)
		if err == nil && what == "member" {
			dyn, err := vlib.ProtoWrapper(data)
			if err != nil {
				t.Fatalf("VERIF-ERROR the independent decoder rejects the generated %x: %v", data, err)
			}
			if want := vlib.ProtoMeaning(dyn); (got == nil) != (want == nil) || got != nil && !got.Equal(want) {
				t.Fatalf("%x, a member of a value having another wire type, was read as\n%v, want\n%v", data, got, want)
			}
			c.Class("defect skipped")
		} else if err == nil {
			t.Fatalf("%x (defect: %s) was accepted as %v; undamaged it was %x", data, what, got, valid)
		}
		c.Class("defect:" + what)
		if what == "cut" && len(data) > 4 || at != nil && depth[at] > 0 {
			c.NonTrivial(fmt.Sprintf("%s %x", what, data))
		}
	})
}

func TestC08_Arbitrary(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 480000, Thorough: 12000000,
		Rule: "noise, tag soup and randomly damaged encodings decoded as message, log and value: no panic; what decodes gives an event, and writing and reading it again gives the same event; non-trivial: damaged encoding that decodes, or input of at least 4 bytes that is rejected after its first byte pair",
	}, func(t *rapid.T, c *vlib.Case) {
		var data []byte
		switch rapid.IntRange(0, 3).Draw(t, "input") {
		case 0:
			data = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "noise")
			c.Class("noise")
		case 1:
			for i, n := 0, rapid.IntRange(0, 10).Draw(t, "n"); i < n; i++ {
				f := &field{num: rapid.Uint64Range(0, 12).Draw(t, "num"), wt: rapid.SampledFrom([]int{varint, length, length, fixed8, fixed4}).Draw(t, "wt")}
				f.v = rapid.Uint64().Draw(t, "v")
				f.raw = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "raw")
				b := f.write(nil)
				if rapid.Bool().Draw(t, "nest") {
					b = (&field{num: rapid.Uint64Range(1, 7).Draw(t, "outer"), wt: length, raw: append(data, b...)}).write(nil)
					data = nil
				}
				data = append(data, b...)
			}
			c.Class("tag soup")
		default:
			g := &wireGen{t: t}
			data = writeAll(g.wrapper(rapid.IntRange(1, 4).Draw(t, "depth")))
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "edits"); i < n && len(data) > 0; i++ {
				at := rapid.IntRange(0, len(data)-1).Draw(t, "at")
				switch rapid.IntRange(0, 4).Draw(t, "edit") {
				case 0:
					data = data[:at]
				case 1:
					data[at] = rapid.Byte().Draw(t, "byte")
				case 2:
					data = append(data[:at:at], data[at+1:]...)
				case 3:
					data = append(data[:at:at], append(rapid.SliceOfN(rapid.Byte(), 1, 11).Draw(t, "ins"), data[at:]...)...)
				case 4:
					data[at] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				}
			}
			c.Class("damaged")
		}
		m, got, err := decodeWrapper(t, data)
		// The same bytes as the inner messages.
		vlib.NoPanic(t, fmt.Sprintf("Log of %x", data), func() {
			var l protobuf.Log
			if l.Unmarshal(data) == nil {
				protobuf.ToLogEvent(&l)
			}
			var v protobuf.Value
			if v.Unmarshal(data) == nil {
				protobuf.ToLogEvent(&protobuf.Log{Object: &protobuf.ValueObject{Fields: map[string]*protobuf.Value{"v": &v}}})
			}
		})
		if err != nil {
			c.Class("rejected")
			if len(data) >= 4 {
				c.NonTrivial(fmt.Sprintf("%x", data))
			}
			return
		}
		c.Class("accepted")
		out, err := m.Marshal()
		if err != nil {
			t.Fatalf("%x: cannot be written again: %v", data, err)
		}
		if m.Size() != len(out) {
			t.Fatalf("%x: Size() = %d, %d bytes written", data, m.Size(), len(out))
		}
		_, again, err := decodeWrapper(t, out)
		if err != nil || (again == nil) != (got == nil) || got != nil && !again.Equal(got) {
			t.Fatalf("%x was written as %x: %v, then %v (%v)", data, out, got, again, err)
		}
		if got != nil && got.Count() > 1 {
			c.NonTrivial(fmt.Sprintf("%x", data))
		}
	})
}

func TestC08_Unset(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 20000, Thorough: 200000,
		Rule: "messages built in memory with missing parts (nil values, unset kinds, nil containers) become events in which they are null or empty; non-trivial: every message with at least one field",
	}, func(t *rapid.T, c *vlib.Case) {
		var build func(depth int) (*protobuf.Value, *vlib.MV)
		build = func(depth int) (*protobuf.Value, *vlib.MV) {
			switch k := rapid.IntRange(0, 5).Draw(t, "k"); {
			case k == 0:
				return nil, vlib.MNull()
			case k == 1 || depth == 0:
				return &protobuf.Value{}, vlib.MNull()
			case k == 2:
				return &protobuf.Value{Kind: &protobuf.Value_Array{}}, vlib.MArr()
			case k == 3:
				return &protobuf.Value{Kind: &protobuf.Value_Object{}}, vlib.MObj(nil)
			case k == 4:
				a, m := &protobuf.ValueArray{}, vlib.MArr()
				for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
					v, x := build(depth - 1)
					a.Items, m.A = append(a.Items, v), append(m.A, x)
				}
				return &protobuf.Value{Kind: &protobuf.Value_Array{Array: a}}, m
			default:
				o, m := &protobuf.ValueObject{Fields: map[string]*protobuf.Value{}}, vlib.MObj(nil)
				for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
					name := strings.Repeat("k", i+1)
					o.Fields[name], m.O[name] = build(depth - 1)
				}
				return &protobuf.Value{Kind: &protobuf.Value_Object{Object: o}}, m
			}
		}
		v, want := build(3)
		var got *vlib.MV
		vlib.NoPanic(t, fmt.Sprintf("ToLogEvent of %v", want), func() {
			e := protobuf.ToLogEvent(&protobuf.Log{Object: &protobuf.ValueObject{Fields: map[string]*protobuf.Value{"f": v}}})
			got = vlib.OfEvent(e)
		})
		if w := vlib.MObj(map[string]*vlib.MV{"f": want}); !got.Equal(w) {
			t.Fatalf("read as %v, want %v", got, w)
		}
		c.NonTrivial(want.String())
	})
}
