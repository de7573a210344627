package vlib

import (
	"fmt"
	"math"
	"sort"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

// The published schema (event.proto), written down independently of the
// generated code.
var (
	wrapperDesc protoreflect.MessageDescriptor
	logDesc     protoreflect.MessageDescriptor

	// SchemaFile is the whole of it.
	SchemaFile *descriptorpb.FileDescriptorProto

	schema protoreflect.FileDescriptor
)

func init() {
	str := func(s string) *string { return &s }
	num := func(n int32) *int32 { return &n }
	const (
		opt = descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL
		rep = descriptorpb.FieldDescriptorProto_LABEL_REPEATED
	)
	field := func(name string, n int32, label descriptorpb.FieldDescriptorProto_Label, typ descriptorpb.FieldDescriptorProto_Type, typeName string, oneof bool) *descriptorpb.FieldDescriptorProto {
		f := &descriptorpb.FieldDescriptorProto{Name: str(name), Number: num(n), Label: &label, Type: &typ}
		if typeName != "" {
			f.TypeName = str(".verif." + typeName)
		}
		if oneof {
			f.OneofIndex = num(0)
		}
		return f
	}
	const (
		tMsg  = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE
		tEnum = descriptorpb.FieldDescriptorProto_TYPE_ENUM
	)
	isEntry := true
	fd := &descriptorpb.FileDescriptorProto{
		Name: str("verif_event.proto"), Package: str("verif"), Syntax: str("proto3"),
		EnumType: []*descriptorpb.EnumDescriptorProto{{Name: str("ValueNull"), Value: []*descriptorpb.EnumValueDescriptorProto{{Name: str("NULL_VALUE"), Number: num(0)}}}},
		MessageType: []*descriptorpb.DescriptorProto{
			{Name: str("MessageWrapper"), OneofDecl: []*descriptorpb.OneofDescriptorProto{{Name: str("message")}},
				Field: []*descriptorpb.FieldDescriptorProto{field("log", 1, opt, tMsg, "Log", true)}},
			{Name: str("Log"), Field: []*descriptorpb.FieldDescriptorProto{field("object", 1, opt, tMsg, "ValueObject", false)}},
			{Name: str("Value"), OneofDecl: []*descriptorpb.OneofDescriptorProto{{Name: str("kind")}},
				Field: []*descriptorpb.FieldDescriptorProto{
					field("null", 1, opt, tEnum, "ValueNull", true),
					field("array", 2, opt, tMsg, "ValueArray", true),
					field("boolean", 3, opt, descriptorpb.FieldDescriptorProto_TYPE_BOOL, "", true),
					field("float", 4, opt, descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, "", true),
					field("integer", 5, opt, descriptorpb.FieldDescriptorProto_TYPE_INT64, "", true),
					field("object", 6, opt, tMsg, "ValueObject", true),
					field("string", 7, opt, descriptorpb.FieldDescriptorProto_TYPE_BYTES, "", true),
					field("timestamp", 8, opt, descriptorpb.FieldDescriptorProto_TYPE_INT64, "", true),
					field("unsigned_integer", 9, opt, descriptorpb.FieldDescriptorProto_TYPE_UINT64, "", true),
				}},
			{Name: str("ValueArray"), Field: []*descriptorpb.FieldDescriptorProto{field("items", 1, rep, tMsg, "Value", false)}},
			{Name: str("ValueObject"),
				Field: []*descriptorpb.FieldDescriptorProto{field("fields", 1, rep, tMsg, "ValueObject.FieldsEntry", false)},
				NestedType: []*descriptorpb.DescriptorProto{{
					Name:    str("FieldsEntry"),
					Options: &descriptorpb.MessageOptions{MapEntry: &isEntry},
					Field: []*descriptorpb.FieldDescriptorProto{
						field("key", 1, opt, descriptorpb.FieldDescriptorProto_TYPE_STRING, "", false),
						field("value", 2, opt, tMsg, "Value", false),
					},
				}}},
		},
	}
	file, err := protodesc.NewFile(fd, nil)
	if err != nil {
		panic(err)
	}
	SchemaFile, schema = fd, file
	wrapperDesc = file.Messages().ByName("MessageWrapper")
	logDesc = file.Messages().ByName("Log")
}

// ProtoWrapper decodes a MessageWrapper with the independent decoder.
func ProtoWrapper(data []byte) (*dynamicpb.Message, error) {
	m := dynamicpb.NewMessage(wrapperDesc)
	return m, proto.Unmarshal(data, m)
}

// ProtoLog decodes a Log with the independent decoder.
func ProtoLog(data []byte) (*dynamicpb.Message, error) {
	m := dynamicpb.NewMessage(logDesc)
	return m, proto.Unmarshal(data, m)
}

// ProtoMessage decodes a message of any of the schema's types with the
// independent decoder, adding to m if that is given.
func ProtoMessage(name string, m *dynamicpb.Message, data []byte) (*dynamicpb.Message, error) {
	if m == nil {
		m = dynamicpb.NewMessage(schema.Messages().ByName(protoreflect.Name(name)))
	}
	return m, proto.UnmarshalOptions{Merge: true}.Unmarshal(data, m)
}

func sub(m protoreflect.Message, name string) protoreflect.Message {
	f := m.Descriptor().Fields().ByName(protoreflect.Name(name))
	if !m.Has(f) {
		return nil
	}
	return m.Get(f).Message()
}

// ProtoMeaning returns the event in a MessageWrapper; nil if there is none.
func ProtoMeaning(m *dynamicpb.Message) *MV {
	log := sub(m, "log")
	if log == nil {
		return nil
	}
	return ProtoLogMeaning(log)
}

// ProtoLogMeaning returns the event in a Log; nil if there is none.
func ProtoLogMeaning(log protoreflect.Message) *MV {
	obj := sub(log, "object")
	if obj == nil {
		return nil
	}
	return protoObject(obj)
}

func protoObject(m protoreflect.Message) *MV {
	out := MObj(nil)
	m.Get(m.Descriptor().Fields().ByName("fields")).Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
		out.O[k.String()] = protoValue(v.Message())
		return true
	})
	return out
}

func protoValue(m protoreflect.Message) *MV {
	f := m.WhichOneof(m.Descriptor().Oneofs().ByName("kind"))
	if f == nil {
		return MNull()
	}
	v := m.Get(f)
	switch f.Name() {
	case "null":
		return MNull()
	case "array":
		out := MArr()
		l := v.Message().Get(v.Message().Descriptor().Fields().ByName("items")).List()
		for i := 0; i < l.Len(); i++ {
			out.A = append(out.A, protoValue(l.Get(i).Message()))
		}
		return out
	case "boolean":
		return MBool(v.Bool())
	case "float":
		return MFloat(v.Float())
	case "integer":
		return MInt(v.Int())
	case "object":
		return protoObject(v.Message())
	case "string":
		return MStr(string(v.Bytes()))
	case "timestamp":
		return MTime(v.Int())
	case "unsigned_integer":
		return MUint(v.Uint())
	}
	panic(fmt.Sprintf("field %s", f.Name()))
}

// ProtoText writes a message of the schema as text that is equal for equal
// messages only (unknown fields aside).
func ProtoText(m protoreflect.Message) string {
	if b := m.GetUnknown(); len(b) > 0 {
		return protoText(m) + fmt.Sprintf("?%x", []byte(b))
	}
	return protoText(m)
}

func protoText(m protoreflect.Message) string {
	switch m.Descriptor().Name() {
	case "MessageWrapper":
		if l := sub(m, "log"); l != nil {
			return "W(" + ProtoText(l) + ")"
		}
		return "W()"
	case "Log":
		if o := sub(m, "object"); o != nil {
			return "L(" + ProtoText(o) + ")"
		}
		return "L()"
	case "ValueArray":
		s := "["
		l := m.Get(m.Descriptor().Fields().ByName("items")).List()
		for i := 0; i < l.Len(); i++ {
			s += ProtoText(l.Get(i).Message()) + ","
		}
		return s + "]"
	case "ValueObject":
		fields := m.Get(m.Descriptor().Fields().ByName("fields")).Map()
		var keys []string
		fields.Range(func(k protoreflect.MapKey, _ protoreflect.Value) bool {
			keys = append(keys, k.String())
			return true
		})
		sort.Strings(keys)
		s := "{"
		for _, k := range keys {
			s += fmt.Sprintf("%q:", k) + ProtoText(fields.Get(protoreflect.ValueOfString(k).MapKey()).Message()) + ","
		}
		return s + "}"
	}
	f := m.WhichOneof(m.Descriptor().Oneofs().ByName("kind"))
	if f == nil {
		return "unset"
	}
	v := m.Get(f)
	switch f.Name() {
	case "null":
		return fmt.Sprintf("null%d", v.Enum())
	case "array", "object":
		return ProtoText(v.Message())
	case "boolean":
		return fmt.Sprint(v.Bool())
	case "float":
		return fmt.Sprintf("f%x", math.Float64bits(v.Float()))
	case "integer":
		return fmt.Sprintf("i%d", v.Int())
	case "string":
		return fmt.Sprintf("%q", v.Bytes())
	case "timestamp":
		return fmt.Sprintf("t%d", v.Int())
	case "unsigned_integer":
		return fmt.Sprintf("u%d", v.Uint())
	}
	panic(fmt.Sprintf("field %s", f.Name()))
}
