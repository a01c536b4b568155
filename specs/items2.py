"""A class of the same name as one in specs.items, with another encoding."""


class Item:

    def __init__(self, number=0):
        self.number = number

    def Serialize(self, writer):
        writer.WriteUInt16(self.number)

    def Deserialize(self, reader):
        self.number = reader.ReadUInt16()
