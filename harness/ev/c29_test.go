package ev

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	v2 "google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/golang/protobuf/proto"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"

	"verif/harness/vlib"
)

// form is one content in one of the forms that conversions take or give.
type form struct {
	what  string
	thing interface{} // *event.Event, *event.Value, map, *MessageWrapper, []byte or reflect.Value.
	was   string
	gave  map[string]string // What conversions made of it.
}

// fresh returns the same content in the same form, in new memory.
func (f *form) fresh() *form {
	switch x := f.thing.(type) {
	case *event.Event:
		return &form{thing: event.FromFields(vlib.OfEvent(x).Fields())}
	case *event.Value:
		return &form{thing: vlib.Of(x).Value()}
	case map[string]interface{}:
		return &form{thing: copyPlain(x)}
	case *protobuf.MessageWrapper:
		return &form{thing: copyMessage(reflect.ValueOf(x)).Interface()}
	case jsonText:
		return &form{thing: append(jsonText{}, x...)}
	case wireText:
		return &form{thing: append(wireText{}, x...)}
	}
	return nil
}

func copyPlain(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		out := make(map[string]interface{}, len(x))
		for k, v := range x {
			out[k] = copyPlain(v)
		}
		return out
	case []interface{}:
		out := make([]interface{}, len(x))
		for i, v := range x {
			out[i] = copyPlain(v)
		}
		return out
	}
	return v
}

// copyMessage copies the exported members, the unknown fields included, but not
// what the message keeps for itself.
func copyMessage(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			c := copyMessage(v.Elem())
			if v.Kind() == reflect.Ptr {
				p := reflect.New(v.Type().Elem())
				p.Elem().Set(c)
				c = p
			}
			out.Set(c)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name != "XXX_sizecache" {
				out.Field(i).Set(copyMessage(v.Field(i)))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(copyMessage(v.Index(i)))
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			out.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				out.SetMapIndex(k, copyMessage(v.MapIndex(k)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

// result is what a conversion gave, the order of entries in wire bytes apart.
func resultOf(out interface{}, err error) string {
	if err != nil {
		return "error"
	}
	if w, ok := out.(wireText); ok {
		return meaningOf(w, nil)
	}
	if out == nil || reflect.ValueOf(out).IsZero() {
		return "nothing"
	}
	return (&form{thing: out}).see()
}

// edit changes one place in a form that can be changed, in one of the ways its
// owner has.
func (f *form) edit(t *rapid.T) bool {
	again := func() *event.Value {
		return vlib.Value(vlib.ValueOpt{Names: vlib.AnyName, Depth: 2}).Draw(t, "new").Value()
	}
	switch x := f.thing.(type) {
	case *event.Event:
		m := vlib.OfEvent(x)
		path := vlib.Path(t, m, vlib.NoBackslash)
		switch rapid.IntRange(0, 3).Draw(t, "edit") {
		case 0:
			if _, err := x.Put(vlib.Key(path), again()); err != nil {
				return false
			}
		case 1:
			x.Delete(vlib.Key(path))
		case 2:
			if eventutil.Append(x, vlib.Key(path), again()) != nil {
				return false
			}
		case 3:
			return editValue(t, x.Get("."), again())
		}
		return true
	case *event.Value:
		return editValue(t, x, again())
	case map[string]interface{}:
		return editPlain(t, x)
	case *protobuf.MessageWrapper:
		var values []*protobuf.Value
		var walk func(v *protobuf.Value)
		object := func(o *protobuf.ValueObject) {
			for _, k := range sortedKeys(o.GetFields()) {
				walk(o.Fields[k])
			}
		}
		walk = func(v *protobuf.Value) {
			if v == nil {
				return
			}
			values = append(values, v)
			for _, item := range v.GetArray().GetItems() {
				walk(item)
			}
			object(v.GetObject())
		}
		object(x.GetLog().GetObject())
		if len(values) == 0 {
			return false
		}
		v := values[rapid.IntRange(0, len(values)-1).Draw(t, "value")]
		v.Kind = protobuf.FromEvent((&vlib.MV{Kind: vlib.Obj, O: map[string]*vlib.MV{"x": vlib.Of(again())}}).Event()).GetLog().GetObject().Fields["x"].Kind
		return true
	}
	return false
}

// editValue changes one value at any depth in place.
func editValue(t *rapid.T, v, by *event.Value) bool {
	var all []*event.Value
	var walk func(v *event.Value)
	walk = func(v *event.Value) {
		if v == nil || v.Type == event.NullType {
			return
		}
		all = append(all, v)
		for _, x := range v.Array {
			walk(x)
		}
		for _, k := range vlib.Of(v).Keys() {
			walk(v.Object[k])
		}
	}
	walk(v)
	if len(all) < 2 { // Not the root.
		return false
	}
	one := all[rapid.IntRange(1, len(all)-1).Draw(t, "value")]
	if one.Type == event.ObjectType && one.Object != nil && rapid.Bool().Draw(t, "entry") {
		one.Object["entry"] = by
	} else if one.Type == event.ArrayType && rapid.Bool().Draw(t, "item") {
		one.Array = append(one.Array, by)
	} else {
		*one = *by
	}
	return true
}

// editPlain sets one entry at any depth.
func editPlain(t *rapid.T, x map[string]interface{}) bool {
	var all []map[string]interface{}
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			all = append(all, x)
			keys := make([]string, 0, len(x))
			for k := range x {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				walk(x[k])
			}
		case []interface{}:
			for _, item := range x {
				walk(item)
			}
		}
	}
	walk(x)
	m := all[rapid.IntRange(0, len(all)-1).Draw(t, "map")]
	m["entry"] = int64(rapid.IntRange(0, 3).Draw(t, "new"))
	return true
}

// jsonText and wireText are encoded events.
type (
	jsonText []byte
	wireText []byte
)

// see returns all there is to see of a form.
func (f *form) see() string {
	switch x := f.thing.(type) {
	case *event.Event:
		return vlib.OfEvent(x).String()
	case *event.Value:
		return vlib.Of(x).String()
	case map[string]interface{}:
		return vlib.OfPlain(x).String()
	case *protobuf.MessageWrapper:
		return held(x)
	case jsonText:
		return string(x)
	case wireText:
		return string(x)
	case reflect.Value:
		v, err := eventutil.ReflectValue(x.Interface())
		if err != nil {
			return "error"
		}
		return vlib.Of(v).String()
	}
	panic(f.what)
}

// conversions make one form of another, which shares nothing with it.
var conversions = []struct {
	name string
	do   func(f *form) (interface{}, error)
}{
	{"json.Marshal", func(f *form) (interface{}, error) {
		switch f.thing.(type) {
		case *event.Event, *event.Value:
			data, err := json.Marshal(f.thing)
			return jsonText(data), err
		}
		return nil, nil
	}},
	{"MarshalJSON", func(f *form) (interface{}, error) {
		if m, ok := f.thing.(json.Marshaler); ok {
			data, err := m.MarshalJSON()
			return jsonText(data), err
		}
		return nil, nil
	}},
	{"json.Unmarshal", func(f *form) (interface{}, error) {
		if x, ok := f.thing.(jsonText); ok && x[0] == '{' {
			e := event.New()
			return e, json.Unmarshal(x, e)
		}
		return nil, nil
	}},
	{"Event.UnmarshalJSON", func(f *form) (interface{}, error) {
		if x, ok := f.thing.(jsonText); ok && x[0] == '{' {
			e := event.New()
			return e, e.UnmarshalJSON(x)
		}
		return nil, nil
	}},
	{"Value.UnmarshalJSON", func(f *form) (interface{}, error) {
		if x, ok := f.thing.(jsonText); ok {
			v := new(event.Value)
			return v, v.UnmarshalJSON(x)
		}
		return nil, nil
	}},
	{"Clone", func(f *form) (interface{}, error) {
		switch x := f.thing.(type) {
		case *event.Event:
			if v := x.Get("."); v != nil {
				return v.Clone(), nil
			}
		case *event.Value:
			return x.Clone(), nil
		case *protobuf.MessageWrapper:
			return proto.Clone(x), nil
		}
		return nil, nil
	}},
	{"v2.Clone", func(f *form) (interface{}, error) {
		if x, ok := f.thing.(*protobuf.MessageWrapper); ok {
			return proto.MessageV1(v2.Clone(proto.MessageV2(x))), nil
		}
		return nil, nil
	}},
	{"mapinterface.FromEvent", func(f *form) (interface{}, error) {
		if x, ok := f.thing.(*event.Event); ok {
			return mapinterface.FromEvent(x), nil
		}
		return nil, nil
	}},
	{"mapinterface.ToEvent", func(f *form) (interface{}, error) {
		if x, ok := f.thing.(map[string]interface{}); ok {
			return mapinterface.ToEvent(x)
		}
		return nil, nil
	}},
	{"ReflectValue", func(f *form) (interface{}, error) {
		switch x := f.thing.(type) {
		case map[string]interface{}:
			return eventutil.ReflectValue(x)
		case reflect.Value:
			return eventutil.ReflectValue(x.Interface())
		}
		return nil, nil
	}},
	{"protobuf.FromEvent", func(f *form) (interface{}, error) {
		if x, ok := f.thing.(*event.Event); ok {
			return protobuf.FromEvent(x), nil
		}
		return nil, nil
	}},
	{"protobuf.ToLogEvent", func(f *form) (interface{}, error) {
		if x, ok := f.thing.(*protobuf.MessageWrapper); ok && x.GetLog().GetObject() != nil {
			return protobuf.ToLogEvent(x.GetLog()), nil
		}
		return nil, nil
	}},
	{"Marshal", func(f *form) (interface{}, error) {
		if x, ok := f.thing.(*protobuf.MessageWrapper); ok {
			data, err := x.Marshal()
			return wireText(data), err
		}
		return nil, nil
	}},
	{"proto.Marshal", func(f *form) (interface{}, error) {
		if x, ok := f.thing.(*protobuf.MessageWrapper); ok {
			data, err := proto.Marshal(x)
			return wireText(data), err
		}
		return nil, nil
	}},
	{"Unmarshal", func(f *form) (interface{}, error) {
		if x, ok := f.thing.(wireText); ok {
			w := &protobuf.MessageWrapper{}
			return w, w.Unmarshal(x)
		}
		return nil, nil
	}},
	{"proto.Unmarshal", func(f *form) (interface{}, error) {
		if x, ok := f.thing.(wireText); ok {
			w := &protobuf.MessageWrapper{}
			return w, proto.Unmarshal(x, w)
		}
		return nil, nil
	}},
	{"proto.Merge", func(f *form) (interface{}, error) {
		if x, ok := f.thing.(*protobuf.MessageWrapper); ok {
			w := &protobuf.MessageWrapper{}
			proto.Merge(w, x)
			return w, nil
		}
		return nil, nil
	}},
}

// damage changes everything in a form that its owner can change.
func (f *form) damage() {
	switch x := f.thing.(type) {
	case *event.Event:
		v := x.Get(".")
		if v != nil {
			damageValue(v, map[*event.Value]bool{})
		}
		x.Put("put.by", event.String("the owner"))
	case *event.Value:
		damageValue(x, map[*event.Value]bool{})
	case map[string]interface{}:
		damagePlain(x)
	case *protobuf.MessageWrapper:
		damageMessage(reflect.ValueOf(x))
	case jsonText:
		damageBytes(x)
	case wireText:
		damageBytes(x)
	case reflect.Value:
		damageGo(x, map[uintptr]bool{})
	}
}

func damageBytes(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = '#'
	}
}

func damageValue(v *event.Value, seen map[*event.Value]bool) {
	if v == nil || v.Type == event.NullType || seen[v] { // Nulls are one shared value.
		return
	}
	seen[v] = true
	for _, x := range v.Array {
		damageValue(x, seen)
	}
	for i := range v.Array {
		v.Array[i] = event.Bool(false)
	}
	v.Array = append(v.Array[:0], event.String("changed"))
	for k, x := range v.Object {
		damageValue(x, seen)
		if len(k)%2 == 0 {
			delete(v.Object, k)
		} else {
			v.Object[k] = event.String("changed")
		}
	}
	if v.Object != nil {
		v.Object["changed"] = event.Integer(1)
	}
	v.Integer, v.UnsignedInteger, v.Float, v.Bool = ^v.Integer, ^v.UnsignedInteger, 0.5-v.Float, !v.Bool
	v.Timestamp.UnixNanos++
	v.String += "!"
}

func damagePlain(v interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		for k := range x {
			damagePlain(x[k])
			if len(k)%2 == 0 {
				delete(x, k)
			} else {
				x[k] = "changed"
			}
		}
		x["changed"] = true
	case []interface{}:
		x = x[:cap(x)]
		for i := range x {
			damagePlain(x[i])
			x[i] = "changed"
		}
	}
}

// damageMessage changes all fields of a message struct.
func damageMessage(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			damageMessage(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			damageMessage(v.Field(i))
			if f := v.Field(i); f.CanSet() && f.Kind() == reflect.Slice {
				f.Set(reflect.Zero(f.Type()))
			}
		}
	case reflect.Slice:
		full := v.Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			damageMessage(full.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			damageMessage(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Value{})
		}
		if v.Type() == reflect.TypeOf(map[string]*protobuf.Value{}) && !v.IsNil() {
			v.SetMapIndex(reflect.ValueOf("changed"), reflect.ValueOf(&protobuf.Value{}))
		}
	case reflect.Uint8:
		v.SetUint(v.Uint() ^ 0x55)
	case reflect.Int64:
		v.SetInt(^v.Int())
	case reflect.Uint64:
		v.SetUint(^v.Uint())
	case reflect.Float64:
		v.SetFloat(0.25)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

// damageGo makes everything zero that can be reached in a Go value.
func damageGo(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] || v.Type().Elem().Kind() == reflect.Struct && v.Type().Elem().PkgPath() == "time" {
			return
		}
		seen[v.Pointer()] = true
		damageGo(v.Elem(), seen)
	case reflect.Interface:
		damageGo(v.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				damageGo(v.Field(i), seen)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			damageGo(v.Index(i), seen)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			damageGo(v.MapIndex(k), seen)
			v.SetMapIndex(k, reflect.Value{})
		}
	}
	if v.CanSet() {
		v.Set(reflect.Zero(v.Type()))
	}
}

func TestC29_Forms(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 160000, Thorough: 3000000,
		Rule: "one to three contents as event, map, message or Go value, 2 to 12 steps of which each converts one of the forms at hand into another (JSON, Go map, message, wire bytes, copies, Go value to event value), changes one place in one of them or everything in one of them; after every step all other forms must be what they were, a conversion gives what it gives for the same content in new memory and, if nothing was changed, what it gave before; non-trivial: a form was changed while two others made from the same content were kept",
	}, func(t *rapid.T, c *vlib.Case) {
		var forms []*form
		family := map[*form]int{}
		families := rapid.IntRange(1, 3).Draw(t, "contents")
		for i := 0; i < families; i++ {
			f := &form{}
			switch rapid.IntRange(0, 4).Draw(t, "start") {
			case 0:
				g := &typeGen{t: t, c: c, made: map[reflect.Type][]conv{}}
				x := g.typ(rapid.IntRange(1, 4).Draw(t, "depth")).draw(t)
				v := reflect.New(x.v.Type()).Elem()
				v.Set(x.v)
				if v.Kind() == reflect.Interface && v.IsNil() {
					continue
				}
				f.what, f.thing = "Go value "+x.m.String(), v
				c.Class("Go value")
			default:
				m := vlib.Root(vlib.ValueOpt{Names: vlib.AnyName, Depth: 3, AnyBytes: rapid.Bool().Draw(t, "bytes")}, vlib.NoBackslash).Draw(t, "content")
				switch rapid.IntRange(0, 2).Draw(t, "form") {
				case 0:
					f.what, f.thing = "event "+m.String(), m.Event()
				case 1:
					f.what, f.thing = "map "+m.String(), m.PlainMap()
				case 2:
					f.what, f.thing = "message of "+m.String(), protobuf.FromEvent(m.Event())
				}
			}
			f.was = f.see()
			forms = append(forms, f)
			family[f] = i
		}
		var log []string
		check := func() {
			for _, f := range forms {
				if now := f.see(); now != f.was {
					t.Fatalf("%s\n%s\n was %q\nbecame %q", strings.Join(log, "\n"), f.what, f.was, now)
				}
			}
		}
		kept := false
		for n := rapid.IntRange(2, 12).Draw(t, "steps"); n > 0 && len(forms) > 0; n-- {
			k := rapid.IntRange(0, len(forms)-1).Draw(t, "form")
			f := forms[k]
			change := rapid.IntRange(0, 7).Draw(t, "change")
			if change < 2 {
				if f.edit(t) {
					f.was, f.gave = f.see(), nil
					log = append(log, "edited: "+f.what)
					c.Class("edited")
				}
				check()
				continue
			}
			if len(forms) > 1 && change > 5 {
				log = append(log, "changed: "+f.what)
				forms = append(forms[:k:k], forms[k+1:]...)
				f.damage()
				others := 0
				for _, o := range forms {
					if family[o] == family[f] {
						others++
					}
				}
				kept = kept || others > 1
				check()
				continue
			}
			var usable []int
			for i, conv := range conversions {
				if canConvert(conv.name, f) {
					usable = append(usable, i)
				}
			}
			if len(usable) == 0 {
				continue
			}
			conv := conversions[rapid.SampledFrom(usable).Draw(t, "conversion")]
			var out interface{}
			var err error
			vlib.NoPanic(t, conv.name+" of "+f.what, func() { out, err = conv.do(f) })
			gave := resultOf(out, err)
			if before, ok := f.gave[conv.name]; ok {
				c.Class("converted again")
				if before != gave {
					t.Fatalf("%s\n%s of %s\n was %q\nnow is %q", strings.Join(log, "\n"), conv.name, f.what, before, gave)
				}
			}
			if f.gave == nil {
				f.gave = map[string]string{}
			}
			f.gave[conv.name] = gave
			if same := f.fresh(); same != nil {
				if want := resultOf(conv.do(same)); gave != want {
					t.Fatalf("%s\n%s of %s\n     is %q\nof a copy %q", strings.Join(log, "\n"), conv.name, f.what, gave, want)
				}
			}
			if err == nil && out != nil && !reflect.ValueOf(out).IsZero() {
				made := &form{what: conv.name + " of " + f.what, thing: out}
				made.was = made.see()
				forms = append(forms, made)
				family[made] = family[f]
				log = append(log, "made: "+made.what)
				c.Class(conv.name)
			}
			check()
		}
		if kept {
			sort.Strings(log)
			c.NonTrivial(strings.Join(log, "\n"))
		}
	})
}

// canConvert says whether a conversion takes a form.
func canConvert(name string, f *form) bool {
	takes := map[string]string{
		"json.Marshal": "EV", "MarshalJSON": "EV", "json.Unmarshal": "J", "Event.UnmarshalJSON": "J", "Value.UnmarshalJSON": "J",
		"Clone": "EVW", "v2.Clone": "W", "mapinterface.FromEvent": "E", "mapinterface.ToEvent": "M", "ReflectValue": "MG",
		"protobuf.FromEvent": "E", "protobuf.ToLogEvent": "W", "Marshal": "W", "proto.Marshal": "W", "Unmarshal": "B", "proto.Unmarshal": "B", "proto.Merge": "W",
	}[name]
	kind := map[string]string{
		"*event.Event": "E", "*event.Value": "V", "map[string]interface {}": "M", "*protobuf.MessageWrapper": "W",
		"ev.jsonText": "J", "ev.wireText": "B", "reflect.Value": "G",
	}[fmt.Sprintf("%T", f.thing)]
	return kind != "" && strings.Contains(takes, kind)
}
