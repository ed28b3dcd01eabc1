from google.protobuf.message import Descriptor, EnumDescriptor, EnumValueDescriptor, FieldDescriptor, OneofDescriptor
