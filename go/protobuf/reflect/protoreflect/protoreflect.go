// Package protoreflect stands in for protobuf reflection; the simulator's
// messages implement these interfaces themselves.
package protoreflect

type Name string
type Kind int
type Cardinality int

const (
	Optional Cardinality = 1
	Required Cardinality = 2
	Repeated Cardinality = 3
)

const (
	BoolKind    Kind = 8
	StringKind  Kind = 9
	GroupKind   Kind = 10
	MessageKind Kind = 11
	Int64Kind   Kind = 3
)

type ProtoMessage interface{ ProtoReflect() Message }

type Value struct {
	S string
	M Message
}

func (v Value) String() string   { return v.S }
func (v Value) Message() Message { return v.M }

type FieldDescriptor interface {
	Cardinality() Cardinality
	Kind() Kind
	Message() MessageDescriptor
}

type FieldDescriptors interface {
	ByName(Name) FieldDescriptor
}

type MessageDescriptor interface {
	Fields() FieldDescriptors
}

type Message interface {
	Descriptor() MessageDescriptor
	Interface() ProtoMessage
	Has(FieldDescriptor) bool
	Get(FieldDescriptor) Value
	NewField(FieldDescriptor) Value
}
