module sample com.finproto.sample.messages LE
message BasicPacket
  fieldI8 i8
  fieldI16 i16
  fieldI32 i32
  fieldI64 i64
  fieldChar str 1 zero left
  fieldU8 i8
  fieldU16 i16
  fieldU32 i32
  fieldU64 i64
  fieldF32 f32
  fieldF64 f64
  fieldI8List list i16 i8
  fieldI16List list i16 i16
  fieldI32List list i16 i32
  fieldI64List list i16 i64
  fieldCharList list i16 str 1 zero left
  fieldU8List list i16 i8
  fieldU16List list i16 i16
  fieldU32List list i16 i32
  fieldU64List list i16 i64
  fieldF32List list i16 f32
  fieldF64List list i16 f64
message EmptyPacket
message NestedPacket
  subPacket obj SubPacket
  subPacketList list i16 obj SubPacket
  inerPacket obj NestedPacket$InerPacket
message NestedPacket$InerPacket
  fieldU32 i32
  fieldI16List list i16 i16
message RootPacket
  msgType i16
  payloadLen len payload
  payload union msgType i16
    case 1 BasicPacket
    case 2 StringPacket
    case 3 NestedPacket
    case 4 EmptyPacket
  checksum cksum CRC32
message StringPacket
  fieldDynamicString dstr i16
  fieldDynamicString1 dstr i16
  fieldFixedString1 str 1 zero left
  fieldFixedString10 str 10 zero left
  fieldFixedString10Pad str 10 space left
  fieldFixedString10PadWithNullTerminator str 10 nul right
  fieldDynamicStringList list i16 dstr i16
  fieldDynamicString1List list i16 dstr i16
  fieldFixedString1List list i16 str 1 zero left
  fieldFixedString10List list i16 str 10 zero left
  fieldFixedString10ListPad list i16 str 10 zero right
  fieldFixedString10PadWithNullTerminatorList list i16 str 10 nul right
message SubPacket
  fieldU32 i32
  fieldI16List list i16 i16
