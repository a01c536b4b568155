"""Serializable classes used as elements in the theorems on arrays."""


class Item:
    """a number of fixed width"""

    def __init__(self, number=0):
        self.number = number

    def Serialize(self, writer):
        writer.WriteUInt32(self.number)

    def Deserialize(self, reader):
        self.number = reader.ReadUInt32()


class VarItem:
    """a byte string of any length"""

    def __init__(self, data=b''):
        self.data = data

    def Serialize(self, writer):
        writer.WriteVarBytes(self.data)

    def Deserialize(self, reader):
        self.data = reader.ReadVarBytes()
