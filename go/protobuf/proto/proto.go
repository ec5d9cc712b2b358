// Package proto stands in for the protobuf runtime (compile-time only).
package proto

import "google.golang.org/protobuf/reflect/protoreflect"

type Message = protoreflect.ProtoMessage
