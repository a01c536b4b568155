"""Contracts of BinaryWriter and BinaryReader: what a call appends to, or takes from, the stream."""
import struct
import vc

W = "neocore.IO.BinaryWriter:BinaryWriter"
R = "neocore.IO.BinaryReader:BinaryReader"
Writer = vc.Inst(W, stream=vc.OutStream())
Reader = vc.Inst(R, stream=vc.InStream())


# ---- writer

@vc.contract(W + ".WriteByte", self=Writer, value=vc.OneOf(vc.Int(), vc.Bytes(), vc.Bool()))
def WriteByte(self, value):
    if isinstance(value, bytes):
        self.stream.write(value)
    else:
        self.stream.write(bytes([value]))


@vc.contract(W + ".WriteBytes", self=Writer, value=vc.OneOf(vc.Bytes(), vc.Bytearray()), unhex=vc.Const(False))
def WriteBytes(self, value, unhex):
    return self.stream.write(value)


def fixed(code, size):
    def spec(self, value, endian):
        return self.stream.write(struct.pack(endian + code, value))
    return spec


End = vc.OneOf(vc.Const("<"), vc.Const(">"))
vc.contract(W + ".WriteInt8", self=Writer, value=vc.Int(), endian=End)(fixed("b", 1))
vc.contract(W + ".WriteUInt8", self=Writer, value=vc.Int(), endian=End)(fixed("B", 1))
vc.contract(W + ".WriteInt16", self=Writer, value=vc.Int(), endian=End)(fixed("h", 2))
vc.contract(W + ".WriteUInt16", self=Writer, value=vc.Int(), endian=End)(fixed("H", 2))
vc.contract(W + ".WriteInt32", self=Writer, value=vc.Int(), endian=End)(fixed("i", 4))
vc.contract(W + ".WriteUInt32", self=Writer, value=vc.Int(), endian=End)(fixed("I", 4))
vc.contract(W + ".WriteInt64", self=Writer, value=vc.Int(), endian=End)(fixed("q", 8))
vc.contract(W + ".WriteUInt64", self=Writer, value=vc.Int(), endian=End)(fixed("Q", 8))


@vc.contract(W + ".WriteVarInt", self=Writer, value=vc.Int(), endian=End)
def WriteVarInt(self, value, endian):
    if value < 0:
        raise Exception("too small")
    if value < 0xfd:
        return self.WriteByte(value)
    if value <= 0xffff:
        data = b'\xfd' + struct.pack(endian + "H", value)
    elif value <= 0xffffffff:
        data = b'\xfe' + struct.pack(endian + "I", value)
    else:
        if value > 0xffffffffffffffff:
            self.stream.write(b'\xff')
            raise struct.error("too large")
        data = b'\xff' + struct.pack(endian + "Q", value)
    return self.stream.write(data) - 1


# ---- reader

@vc.contract(R + ".ReadBytes", self=Reader, length=vc.Int(0))
def ReadBytes(self, length):
    return self.stream.read(length)


@vc.contract(R + ".SafeReadBytes", self=Reader, length=vc.Int(0))
def SafeReadBytes(self, length):
    data = self.stream.read(length)
    if len(data) < length:
        raise ValueError("Not enough data available")
    return data


@vc.contract(R + ".ReadByte", self=Reader, do_ord=vc.Bool())
def ReadByte(self, do_ord):
    data = self.stream.read(1)
    if not do_ord:
        return data
    if len(data) == 0:
        return 0
    return data[0]


def rfixed(code, size):
    def spec(self, endian):
        return struct.unpack(endian + code, self.stream.read(size))[0]
    return spec


vc.contract(R + ".ReadInt8", self=Reader, endian=End)(rfixed("b", 1))
vc.contract(R + ".ReadUInt8", self=Reader, endian=End)(rfixed("B", 1))
vc.contract(R + ".ReadInt16", self=Reader, endian=End)(rfixed("h", 2))
vc.contract(R + ".ReadUInt16", self=Reader, endian=End)(rfixed("H", 2))
vc.contract(R + ".ReadInt32", self=Reader, endian=End)(rfixed("i", 4))
vc.contract(R + ".ReadUInt32", self=Reader, endian=End)(rfixed("I", 4))
vc.contract(R + ".ReadInt64", self=Reader, endian=End)(rfixed("q", 8))
vc.contract(R + ".ReadUInt64", self=Reader, endian=End)(rfixed("Q", 8))


@vc.contract(R + ".ReadVarInt", self=Reader, max=vc.Int(0))
def ReadVarInt(self, max):
    data = self.stream.read(1)
    if len(data) == 0:
        return 0
    first = data[0]
    if first < 0xfd:
        value = first
    elif first == 0xfd:
        value = struct.unpack("<H", self.stream.read(2))[0]
    elif first == 0xfe:
        value = struct.unpack("<I", self.stream.read(4))[0]
    else:
        value = struct.unpack("<Q", self.stream.read(8))[0]
    if value > max:
        raise Exception("Invalid format")
    return value


@vc.contract(R + ".ReadVarBytes", self=Reader, max=vc.Int(0))
def ReadVarBytes(self, max):
    return self.stream.read(self.ReadVarInt(max))


@vc.contract(R + ".ReadVarString", self=Reader, max=vc.Int(0))
def ReadVarString(self, max):
    n = self.ReadVarInt(max)
    data = self.stream.read(n)
    if len(data) != n:
        raise struct.error("not enough data")
    return data


@vc.contract(R + ".ReadFixedString", self=Reader, length=vc.Int(0))
def ReadFixedString(self, length):
    return self.stream.read(length).rstrip(b"\x00")


@vc.contract(W + ".WriteVarBytes", self=Writer, value=vc.OneOf(vc.Bytes(), vc.Bytearray()), endian=End)
def WriteVarBytes(self, value, endian):
    self.WriteVarInt(len(value), endian)
    return self.stream.write(value)


@vc.contract(W + ".WriteFixedString", self=Writer, value=vc.Text(), length=vc.Int())
def WriteFixedString(self, value, length):
    data = value.encode("utf-8")
    if len(data) > length:
        raise Exception("too long")
    self.stream.write(data)
    if length > len(data):
        self.stream.write(b"\x00" * (length - len(data)))
