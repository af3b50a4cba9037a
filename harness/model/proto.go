package model

import "google.golang.org/protobuf/reflect/protoreflect"

//gosym:replace prmsg.Range
func msgRange(m protoreflect.Message, f func(protoreflect.FieldDescriptor, protoreflect.Value) bool) {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		if fd := fds.Get(i); m.Has(fd) && !f(fd, m.Get(fd)) {
			return
		}
	}
}
